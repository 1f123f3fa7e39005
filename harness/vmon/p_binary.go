package main

import (
	"bytes"
	"fmt"

	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

func init() {
	register(&Prop{ID: "M09", Quick: 20000, Thoro: 1500000,
		Rule: "messages with binary payloads of all four types built from random and shared options, and messages without of all six types; distinct = different (type, options, payload, serializer)",
		Need: map[string]int64{"CALL": 500, "YIELD": 500, "INVOCATION": 500, "RESULT": 500, "no options": 500, "shared options": 1000, "none of it": 1000,
			"fields": 500, "no payload": 100, "wire": 1000, "application payload": 500},
		Case:   m09,
		Assume: []string{"what the option x_payload_serializer held before is replaced by the number of the serializer"}})
}

type binMsg interface {
	messages.Message
	messages.BinaryPayload
	RequestID() uint64
	Args() []any
	KwArgs() map[string]any
}

func dictOfBin(m binMsg) (map[string]any, uint64, string) {
	switch m := m.(type) {
	case *messages.Call:
		return m.Options(), 0, m.Procedure()
	case *messages.Yield:
		return m.Options(), 0, ""
	case *messages.Invocation:
		return m.Details(), m.RegistrationID(), ""
	case *messages.Result:
		return m.Details(), 0, ""
	}
	panic("dictOfBin")
}

func m09(c *C) {
	r := c.R
	if r.P(25) { // messages without a binary payload do not pretend to have one
		c.Feat("none of it")
		var bs []*mtype
		for _, t := range mtypes {
			if t.hasArgs() {
				bs = append(bs, t)
			}
		}
		t := pick(r, bs)
		v := genSmallV(r, t, r.Intn(3))
		m := t.build(v)
		b, ok := m.(messages.BinaryPayload)
		if !ok {
			c.Skip("no such payload")
		}
		c.Check(!b.PayloadIsBinary() && len(b.Payload()) == 0, "pretends", "%s %s: binary %v payload %x", t.name, v, b.PayloadIsBinary(), b.Payload())
		c.Mix(t.name, v.String())
		return
	}
	// options of the application, which it may use for several messages
	var shared map[string]any
	switch r.Intn(4) {
	case 0:
		c.Feat("no options")
		if r.Bool() {
			shared = map[string]any{}
		}
	case 1:
		shared = map[string]any{"progress": r.Bool(), "receive_progress": r.Bool()}
	default:
		shared = genDict(r, kCBOR)
	}
	if shared != nil && r.P(10) {
		shared["x_payload_serializer"] = genValue(r, kCBOR, 0)
	}
	before := copyOf(shared)
	type made struct {
		m       binMsg
		id, reg uint64
		uri     string
		data    []byte
		ser     uint64
		what    string
		dict    map[string]any
	}
	var all []made
	n := 1 + r.Intn(4)
	if n > 1 {
		c.Feat("shared options")
	}
	for i := 0; i < n; i++ {
		x := made{id: r.ID(), reg: r.ID(), uri: genString(r), data: genBytes(r), ser: pick(r, []uint64{0, 1, 2, 3, 4, 15, 255, 256, 1 << 32, uint64(r.Intn(20))}), dict: before}
		if r.P(8) {
			x.data = pick(r, [][]byte{nil, {}})
			c.Feat("no payload")
		}
		app := r.P(25)
		var args []any
		var kw map[string]any
		if app { // as an application does it
			x.ser = pick(r, []uint64{serializers.JSONSerializerID, serializers.CBORSerializerID, serializers.MsgPackSerializerID})
			args, kw = genArgs(r, kJSON)
			var err error
			x.data, err = serializers.SerializePayload(x.ser, args, kw)
			c.Check(err == nil, "payload", "SerializePayload(%d, %s, %s): %v", x.ser, show(args), show(kw), err)
		}
		fields := r.P(10)
		switch r.Intn(4) {
		case 0:
			x.what, x.reg = "CALL", 0
			x.m = messages.NewCallBinary(x.id, shared, x.uri, x.data, x.ser)
			if fields {
				x.m = messages.NewCallWithFields(&anyFields{v: V{"RequestID": x.id, "Options": x.dict, "Procedure": x.uri}, binary: true, bytes: x.data, ser: x.ser})
			}
		case 1:
			x.what, x.reg, x.uri = "YIELD", 0, ""
			x.m = messages.NewYieldBinary(x.id, shared, x.data, x.ser)
			if fields {
				x.m = messages.NewYieldWithFields(&anyFields{v: V{"RequestID": x.id, "Options": x.dict}, binary: true, bytes: x.data, ser: x.ser})
			}
		case 2:
			x.what, x.uri = "INVOCATION", ""
			x.m = messages.NewInvocationBinary(x.id, x.reg, shared, x.data, x.ser)
			if fields {
				x.m = messages.NewInvocationWithFields(&anyFields{v: V{"RequestID": x.id, "RegistrationID": x.reg, "Details": x.dict}, binary: true, bytes: x.data, ser: x.ser})
			}
		default:
			x.what, x.reg, x.uri = "RESULT", 0, ""
			x.m = messages.NewResultBinary(x.id, shared, x.data, x.ser)
			if fields {
				x.m = messages.NewResultWithFields(&anyFields{v: V{"RequestID": x.id, "Details": x.dict}, binary: true, bytes: x.data, ser: x.ser})
			}
		}
		c.Feat(x.what)
		if fields {
			c.Feat("fields")
		} else { // the constructor names the serializer in the options
			d := copyOf(before)
			if d == nil {
				d = map[string]any{}
			}
			d["x_payload_serializer"] = x.ser
			x.dict = d
		}
		c.Logf("%s %d payload %x serializer %d options %s", x.what, x.id, x.data, x.ser, show(before))
		c.Mix(x.what, x.id, fmt.Sprint(x.data), x.ser, show(before))
		all = append(all, x)
		if app {
			c.Feat("application payload")
			a, k, err := serializers.DeserializePayload(x.m.PayloadSerializer(), x.m.Payload())
			c.Check(err == nil && sameArgs(args, kw, a, k), "payload", "%s: args %s kwargs %s come out as %s %s %v", x.what, show(args), show(kw), show(a), show(k), err)
		}
	}
	for _, x := range all {
		d, reg, uri := dictOfBin(x.m)
		c.Check(x.m.RequestID() == x.id && reg == x.reg && uri == x.uri, "field", "%s: request %d registration %d procedure %q, built with %d %d %q", x.what,
			x.m.RequestID(), reg, uri, x.id, x.reg, x.uri)
		c.Check(x.m.PayloadIsBinary(), "binary", "%s built with a binary payload says it has none", x.what)
		c.Check(bytes.Equal(x.m.Payload(), x.data), "payload", "%s: payload %x, built with %x", x.what, x.m.Payload(), x.data)
		c.Check(x.m.PayloadSerializer() == x.ser, "serializer", "%s: serializer %d, built with %d", x.what, x.m.PayloadSerializer(), x.ser)
		c.Check(len(x.m.Args()) == 0 && len(x.m.KwArgs()) == 0, "arguments", "%s: has arguments %s %s besides the binary payload", x.what, show(x.m.Args()), show(x.m.KwArgs()))
		c.Check(equalValues(nonNil(x.dict), nonNil(d)), "options", "%s: options %s, built with %s for serializer %d", x.what, show(d), show(before), x.ser)
		if d == nil { // nothing that could be sent
			continue
		}
		// what all serializers can carry of it arrives
		kind := kCBOR + r.Intn(2)
		raw, err := serializerOf(kind).Serialize(x.m)
		c.Check(err == nil, "wire", "%s %s: %v", kindNames[kind], x.what, err)
		doc, err := decodeWire(kind, raw)
		c.Check(err == nil, "wire", "%s %s: %v", kindNames[kind], x.what, err)
		l, ok := doc.([]any)
		at := 2
		if x.what == "INVOCATION" {
			at = 3
		}
		c.Check(ok && len(l) > at && equalValues(nonNil(x.dict), l[at]), "wire", "%s %s with options %s is sent as %s", kindNames[kind], x.what, show(x.dict), show(doc))
		c.Feat("wire")
	}
	c.Check((shared == nil) == (before == nil) && equalValues(nonNil(before), nonNil(shared)), "given", "options %s became %s when messages were built with them", show(before), show(shared))
}

func copyOf(m map[string]any) map[string]any {
	if m == nil {
		return nil
	}
	cp := make(map[string]any, len(m)+1)
	for k, v := range m {
		cp[k] = v
	}
	return cp
}
