package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"

	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
)

func typeNeeds(n int64) map[string]int64 {
	m := map[string]int64{}
	for _, t := range mtypes {
		m[t.name] = n
	}
	return m
}

// limitMemory turns a request for absurd amounts of memory into a fatal error of this process.
var hugeMu sync.Mutex

func limitMemory() {
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetMemoryLimit(2 << 30)
}

func init() {
	register(&Prop{ID: "M01", Quick: 30000, Thoro: 1500000,
		Rule: "random field values for each of the 24 types x 3 serializers; distinct = different bytes on the wire",
		Need: typeNeeds(100),
		Case: func(c *C) {
			t := mtypes[c.Case%len(mtypes)]
			kind := (c.Case / len(mtypes)) % 3
			v := hugeV(c, t, kind)
			var m messages.Message
			if c.R.P(20) && fieldsComplete(t, v) {
				m = t.withF(&anyFields{v: v})
				c.Feat("built with fields")
			} else {
				m = t.build(v)
			}
			c.Feat(t.name)
			c.Logf("%s %s %s", kindNames[kind], t.name, v)
			ser := serializerOf(kind)
			c.Check(m.Type() == t.code, "type", "%s has type %d", t.name, m.Type())
			// what the constructor was given is what the accessors return
			if d := diffV(v, t.read(m)); d != "" {
				c.Fail("constructor", "%s built from %s: %s", t.name, v, d)
			}
			data, err := ser.Serialize(m)
			c.Check(err == nil, "serialize", "%s %s cannot be serialized: %v; %s", kindNames[kind], t.name, err, v)
			keep := append([]byte(nil), data...)
			got, err := ser.Deserialize(data)
			c.Check(err == nil && !nilMsg(got), "deserialize", "%s %s: %v; %s", kindNames[kind], t.name, err, v)
			c.Check(got.Type() == t.code, "type", "%s became type %d", t.name, got.Type())
			// the message must not depend on the buffer it was read from
			for i := range data {
				data[i] ^= 0xff
			}
			if d := diffV(t.arrives(v), t.read(got)); d != "" {
				c.Fail("field", "%s %s: %s; sent %s", kindNames[kind], t.name, d, v)
			}
			if b, ok := got.(messages.BinaryPayload); ok {
				c.Check(!b.PayloadIsBinary(), "binary", "%s: decoded message claims a binary payload", t.name)
			}
			c.nchk++
			c.Mix(kind, string(keep))
			if c.R.P(3) { // what cannot be carried is not sent as something else
				if args, kw := uncarriable(c.R, kind); len(args) > 0 || len(kw) > 0 {
					bad := []messages.Message{messages.NewCall(1, nil, "p", args, kw), messages.NewPublish(1, nil, "t", args, kw), messages.NewYield(1, nil, args, kw),
						messages.NewEvent(1, 2, nil, args, kw), messages.NewError(48, 1, nil, "e", args, kw), messages.NewResult(1, nil, args, kw), messages.NewInvocation(1, 2, nil, args, kw),
						messages.NewSubscribe(1, map[string]any{"args": args, "kwargs": kw}, "t")}
					m := pick(c.R, bad)
					data, err := ser.Serialize(m)
					c.Check(err != nil, "cannot be carried", "%s: a %T that cannot be encoded became %x without an error", kindNames[kind], m, data)
					c.Feat("cannot be carried")
				}
			}
			// a second copy of the same message is the same
			data2, err := ser.Serialize(got)
			c.Check(err == nil, "serialize", "%s %s again: %v", kindNames[kind], t.name, err)
			got2, err := ser.Deserialize(data2)
			c.Check(err == nil, "deserialize", "%s %s again: %v", kindNames[kind], t.name, err)
			if d := diffV(t.arrives(v), t.read(got2)); d != "" {
				c.Fail("field", "%s %s forwarded: %s; sent %s", kindNames[kind], t.name, d, v)
			}
		},
		Assume: []string{"values stay inside what each format can carry: nesting up to some thousand levels, JSON without byte strings, infinities and integers beyond 2^53"}})

	register(&Prop{ID: "M02", Quick: 80000, Thoro: 6000000,
		Rule: "byte strings: valid encodings mutated, truncated, spliced and mistyped, hostile lengths and nesting, random bytes; distinct = different bytes",
		Need: map[string]int64{"accepted": 1000, "rejected": 5000, "deep nesting": 6, "huge length": 300},
		Case: m02})

	register(&Prop{ID: "M03", Quick: 30000, Thoro: 1500000,
		Rule: "random field values for each of the 24 types x 3 serializers, bytes decoded by independent codecs; distinct = different bytes",
		Need: typeNeeds(100),
		Case: func(c *C) {
			t := mtypes[c.Case%len(mtypes)]
			kind := (c.Case / len(mtypes)) % 3
			v := hugeV(c, t, kind)
			m := t.build(v)
			c.Feat(t.name)
			c.Logf("%s %s %s", kindNames[kind], t.name, v)
			data, err := serializerOf(kind).Serialize(m)
			c.Check(err == nil, "serialize", "%s %s: %v; %s", kindNames[kind], t.name, err, v)
			c.Mix(kind, string(data))
			raw, err := decodeWire(kind, data)
			c.Check(err == nil, "wire", "%s %s is not valid: %v; %s -> %s", kindNames[kind], t.name, err, v, clip(fmt.Sprintf("%x", data), 400))
			want := t.wireList(v)
			list, ok := raw.([]any)
			c.Check(ok && len(list) == len(want), "layout", "%s %s: got %s, want %s", kindNames[kind], t.name, show(raw), show(want))
			for i := range want {
				c.Check(equalValues(want[i], list[i]), "layout", "%s %s element %d: want and got differ at %s", kindNames[kind], t.name, i,
					firstDiff(want[i], list[i]))
			}
			// Marshal gives the same list
			ml := m.Marshal()
			c.Check(len(ml) == len(want), "layout", "%s Marshal: got %s, want %s", t.name, show(ml), show(want))
			// ids are written as integers, never as floats
			for i, f := range t.fields {
				if f.kind == fID {
					_, isF := list[i+1].(float64)
					c.Check(!isF, "layout", "%s: %s written as a float", t.name, f.name)
				}
			}
		}})

	register(&Prop{ID: "M04", Quick: 80000, Thoro: 5000000,
		Rule: "lists that are well-formed or broken in one or two known ways, encoded by independent codecs; distinct = different list and serializer",
		Need: map[string]int64{"well-formed": 5000, "malformed": 10000, "methods that are none": 100},
		Case: m04})

	register(&Prop{ID: "M05", Quick: 15000, Thoro: 1500000,
		Rule: "one message under many legal encodings in all three serializers; distinct = different encodings",
		Need: typeNeeds(100),
		Case: m05})

	register(&Prop{ID: "M06", Quick: 40000, Thoro: 3000000,
		Rule: "args/kwargs through the four payload serializers, and malformed payloads; distinct = different payload bytes",
		Need: map[string]int64{"round trip": 3000, "malformed": 3000, "raw": 300, "cannot be carried": 1000, "any shape": 1000},
		Case: m06})

	register(&Prop{ID: "T01", Quick: 3000, Thoro: 300000,
		Rule: "all 15x16 valid handshakes, every four-byte header with boundary octets, random sizes and byte strings; distinct = different input",
		Need: map[string]int64{"valid": 240, "refused send": 1000, "refused receive": 1000},
		Case: t01})

	register(&Prop{ID: "T02", Quick: 600, Thoro: 20000,
		Rule: "frame headers for every kind and blocks of lengths covering 0..2^24-1; distinct = different (kind, length block)",
		Need: map[string]int64{"headers": 1000000, "refused": 500},
		Case: t02})
}

func fieldsComplete(t *mtype, v V) bool {
	for _, f := range t.fields {
		if f.kind == fDict && t.name != "HELLO" && v.dict(f.name) == nil {
			return false
		}
	}
	return t.name != "HELLO" || (v.dict("Roles") != nil && v.strs("AuthMethods") != nil)
}

// ---------------------------------------------------------------- M02

func m02(c *C) {
	if c.Case == 0 {
		limitMemory()
	}
	kind := c.Case % 3
	r := c.R
	ser := serializerOf(kind)
	var data []byte
	k2 := kind
	if r.P(3) {
		k2 = r.Intn(3) // another serializer's bytes
	}
	t := pick(r, mtypes)
	valid := func() []byte {
		l := t.wireList(genV(r, t, k2))
		if r.P(20) {
			l = breakList(r, t, l, k2)
		}
		return encodeWire(k2, l, wireOpts{r})
	}
	mode := r.Intn(12)
	if c.Case < 30 {
		mode = 100
	}
	switch mode {
	case 0:
		data = r.Bytes(r.Intn(40))
	case 1:
		data = valid()
		data = data[:r.Intn(len(data)+1)]
	case 2, 3:
		data = valid()
		for i := 1 + r.Intn(4); i > 0; i-- {
			data[r.Intn(len(data))] = byte(r.U64())
		}
	case 4:
		data = valid()
		i := r.Intn(len(data))
		data = append(append(append([]byte{}, data[:i]...), r.Bytes(1+r.Intn(4))...), data[i:]...)
	case 5:
		a, b := valid(), valid()
		data = append(append([]byte{}, a[:r.Intn(len(a))]...), b[r.Intn(len(b)):]...)
	case 6, 7:
		data = valid()
		i := r.Intn(len(data))
		data = append(append([]byte{}, data[:i]...), hostileHead(r, kind)...)
		if r.Bool() {
			data = append(data, r.Bytes(r.Intn(30))...)
		}
		c.Feat("huge length")
	case 8:
		l := []any{pick(r, []any{t.code, 0, -1, uint64(1) << 63, nil, "48", 48.5, true, []any{}, t.code})}
		for i := r.Intn(7); i > 0; i-- {
			l = append(l, genValue(r, kind, 2))
		}
		data = encodeWire(kind, l, wireOpts{r})
	case 9:
		data = valid()
		data = append(data, r.Bytes(r.Intn(6))...)
	case 10:
		// structural bytes only: many short hostile documents
		n := 1 + r.Intn(12)
		for i := 0; i < n; i++ {
			data = append(data, structural(r, kind)...)
		}
	case 100:
		depth := []int{40, 5000, 11000, 200000, 3000000, 15000000}[(c.Case/3)%6]
		data = nested(kind, depth, c.Case%2 == 0)
		c.Feat("deep nesting")
	default:
		data = valid()
	}
	c.Mix(kind, string(data))
	c.Logf("%s %s", kindNames[kind], clip(fmt.Sprintf("%x", data), 300))
	m, err := ser.Deserialize(append([]byte(nil), data...))
	c.Check((err == nil) != nilMsg(m), "both", "%s: message %v and error %v for %s", kindNames[kind], !nilMsg(m), err,
		clip(fmt.Sprintf("%x", data), 1000))
	if err != nil {
		c.Feat("rejected")
		return
	}
	c.Feat("accepted")
	v := use(m)
	c.Check(v != nil, "unusable", "%s: unknown message type %d accepted from %x", kindNames[kind], m.Type(), data)
	again, err := ser.Serialize(m)
	c.Check(err == nil, "reserialize", "%s: accepted message cannot be serialized: %v; %x", kindNames[kind], err, data)
	m2, err := ser.Deserialize(again)
	c.Check(err == nil && !nilMsg(m2), "reserialize", "%s: reserialized message is rejected: %v; %s from %s", kindNames[kind],
		err, clip(fmt.Sprintf("%x", again), 800), clip(fmt.Sprintf("%x", data), 800))
	c.Check(m2.Type() == m.Type(), "reserialize", "type %d became %d", m.Type(), m2.Type())
	if d := diffV(v, use(m2)); d != "" {
		c.Fail("reserialize", "%s %s: %s; from %s", kindNames[kind], mtypeByCode[m.Type()].name, d, clip(fmt.Sprintf("%x", data), 1000))
	}
}

// hostileHead announces more than will ever follow.
func hostileHead(r *Rand, kind int) []byte {
	n := pick(r, []uint64{1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 40, 1<<63 - 1, 1<<64 - 1})
	switch kind {
	case kCBOR:
		b := []byte{pick(r, []byte{0x5b, 0x7b, 0x9b, 0xbb})}
		for i := 56; i >= 0; i -= 8 {
			b = append(b, byte(n>>i))
		}
		return b
	case kMsgPack:
		code := pick(r, []byte{0xc6, 0xc9, 0xdb, 0xdd, 0xdf})
		return []byte{code, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	}
	return []byte(pick(r, []string{"1e999", "-1e400", strings.Repeat("9", 400), "\"\\ud800\"", "[[[[", "{\"a\":", "0.0000000000000000000001e-400",
		"18446744073709551616", "1E+", "-"}))
}

func structural(r *Rand, kind int) []byte {
	switch kind {
	case kCBOR:
		return []byte{pick(r, []byte{0x80, 0x81, 0x83, 0x84, 0x9f, 0xff, 0xa0, 0xa1, 0xbf, 0x60, 0x61, 'a', 0xf6, 0xf7, 0x18, 0x30, 1, 0xc0, 0xc1,
			0xc2, 0xc3, 0xd9, 0xd8, 0xe0, 0xf9, 0xfa, 0xfb, 0x5f, 0x7f, 0x40, 0x41})}
	case kMsgPack:
		return []byte{pick(r, []byte{0x80, 0x81, 0x82, 0x90, 0x91, 0x93, 0x94, 0xa0, 0xa1, 'a', 0xc0, 0xc1, 0xc2, 0xc4, 0xc7, 0xc8, 0xca, 0xcc, 0xcd, 0xd4,
			0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xdc, 0xde, 0xe0, 0xff, 48, 1, 0})}
	}
	return []byte(pick(r, []string{"[", "]", "{", "}", ",", ":", "1", "48", "\"a\"", "null", "true", "-0", "1.5", "\"", " ", "\\", "[]", "{}", "[1,\"r\",{}]"}))
}

func nested(kind, depth int, maps bool) []byte {
	switch kind {
	case kCBOR:
		pre := []byte{0x83, 2, 1, 0xa1, 0x61, 'a'}
		if maps {
			return append(pre, bytes.Repeat([]byte{0xa1, 0x61, 'a'}, depth/3)...)
		}
		return append(pre, append(bytes.Repeat([]byte{0x81}, depth), 0xf6)...)
	case kMsgPack:
		pre := []byte{0x93, 2, 1, 0x81, 0xa1, 'a'}
		if maps {
			return append(pre, append(bytes.Repeat([]byte{0x81, 0xa1, 'a'}, depth/3), 0xc0)...)
		}
		return append(pre, append(bytes.Repeat([]byte{0x91}, depth), 0xc0)...)
	}
	if maps {
		return append([]byte("[2,1,{\"a\":"), bytes.Repeat([]byte("{\"a\":"), depth/5)...)
	}
	return append([]byte("[2,1,{\"a\":"), bytes.Repeat([]byte("["), depth)...)
}

// breakList damages a well-formed list somehow.
func breakList(r *Rand, t *mtype, l []any, kind int) []any {
	l = append([]any{}, l...)
	switch r.Intn(5) {
	case 0:
		return l[:r.Intn(len(l)+1)]
	case 1:
		for i := 1 + r.Intn(3); i > 0; i-- {
			l = append(l, genValue(r, kind, 1))
		}
	case 2:
		i, j := r.Intn(len(l)), r.Intn(len(l))
		l[i], l[j] = l[j], l[i]
	default:
		l[r.Intn(len(l))] = genValue(r, kind, 1)
	}
	return l
}

// ---------------------------------------------------------------- M04

// wellFormed is the specification of what may be accepted; unsure means that no verdict is due.
func wellFormed(kind int, l []any) (t *mtype, ok, unsure bool) {
	if len(l) == 0 {
		return nil, false, false
	}
	isID := func(x any) (uint64, bool, bool) {
		switch f := x.(type) {
		case float64:
			if f < 0 || f != math.Trunc(f) || math.IsNaN(f) || math.IsInf(f, 0) {
				return 0, false, false
			}
			// an integral float is an integer in JSON up to 2^53; elsewhere nothing is prescribed
			return uint64(f), true, kind != kJSON || f > 1<<53
		}
		neg, abs, isInt := asInteger(x)
		if !isInt || (neg && abs > 0) {
			return 0, false, false
		}
		return abs, true, kind == kJSON && abs > MaxID
	}
	code, isCode, u := isID(l[0])
	if u {
		return nil, false, true
	}
	if !isCode {
		return nil, false, false
	}
	t = mtypeByCode[code]
	if t == nil {
		return nil, false, false
	}
	if len(l) < t.min || len(l) > t.max {
		return t, false, false
	}
	for i, f := range t.fields {
		if i+1 >= len(l) {
			break
		}
		x := l[i+1]
		good := false
		switch f.kind {
		case fID:
			_, g, u := isID(x)
			good, unsure = g, unsure || u
		case fStr:
			_, good = x.(string)
		case fDict, fKw:
			_, good = x.(map[string]any)
		case fArgs:
			_, good = x.([]any)
		}
		if !good {
			return t, false, false
		}
	}
	return t, true, unsure
}

// readList reads the fields a message with this list has.
func (t *mtype) readList(l []any) V {
	v := V{}
	if t.name == "HELLO" {
		d := l[2].(map[string]any)
		v["Realm"] = l[1]
		v["AuthID"], _ = d["authid"].(string)
		ae, _ := d["authextra"].(map[string]any)
		ro, _ := d["roles"].(map[string]any)
		v["AuthExtra"], v["Roles"] = ae, ro
		ms := []string{}
		if list, ok := d["authmethods"].([]any); ok {
			for _, m := range list {
				ms = append(ms, m.(string))
			}
		}
		v["AuthMethods"] = ms
		return v
	}
	var args []any
	var kw map[string]any
	for i, f := range t.fields {
		if i+1 < len(l) {
			x := l[i+1]
			switch f.kind {
			case fArgs:
				args = x.([]any)
			case fKw:
				kw = x.(map[string]any)
			default:
				v[f.name] = x
			}
		}
	}
	if t.hasArgs() {
		v["Args"], v["KwArgs"] = args, kw
	}
	return v
}

func m04(c *C) {
	r := c.R
	kind := c.Case % 3
	t := mtypes[(c.Case/3)%len(mtypes)]
	v := genV(r, t, kind)
	for _, f := range t.fields {
		if f.kind == fID && kind != kJSON && r.P(5) {
			v[f.name] = r.U64() >> uint(r.Intn(11))
		}
	}
	if t.name == "HELLO" && v.strs("AuthMethods") == nil {
		v["AuthMethods"] = []string{}
	}
	l := t.wireList(v)
	if r.P(70) {
		for n := 1 + r.Intn(5)/4; n > 0 && len(l) > 0; n-- {
			switch r.Intn(7) {
			case 0:
				l = l[:r.Intn(len(l)+1)]
			case 1:
				for i := 1 + r.Intn(2); i > 0; i-- {
					l = append(l, pick(r, []any{nil, "x", 1, []any{}, map[string]any{}}))
				}
			case 2: // an id that is none
				bad := []any{-1, int64(math.MinInt64), 1.5, -0.5, "1", nil, true, []any{1}, map[string]any{}, -7.0, "", false}
				if kind != kJSON {
					bad = append(bad, []byte{1}, math.NaN(), math.Inf(1), math.Inf(-1))
				}
				i := idIndex(r, t, fID)
				if i < len(l) {
					l[i] = pick(r, bad)
				}
			case 3: // another type code
				l[0] = pick(r, []any{0, 7, 9, 10, 15, 18, 31, 37, 47, 51, 63, 71, 255, 256, 304, 65584, -1, "48", nil, 48.5, uint64(1)<<32 + 48,
					[]any{48}, 5, 48, 8, 1, uint64(1)<<40 + 2})
			case 4: // a wrong kind anywhere
				bad := []any{nil, true, 0, 12, "str", "", []any{}, []any{"a"}, map[string]any{}, map[string]any{"a": 1}, 2.5}
				if kind != kJSON {
					bad = append(bad, []byte("bytes"), []byte{})
				}
				l[r.Intn(len(l))] = pick(r, bad)
			case 5: // drop an element in the middle
				i := r.Intn(len(l))
				l = append(append([]any{}, l[:i]...), l[i+1:]...)
			case 6: // swap
				i, j := r.Intn(len(l)), r.Intn(len(l))
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	tt, ok, unsure := wellFormed(kind, l)
	if tt != nil && tt.name == "HELLO" && ok {
		if ms, g := l[2].(map[string]any)["authmethods"].([]any); g && r.P(15) {
			ms = append(append([]any{}, ms...), pick(r, []any{1, nil, true, []any{"ticket"}, map[string]any{}, 1.5, "ticket"}))
			shuffle(r, ms)
			cp := copyOf(l[2].(map[string]any))
			cp["authmethods"] = ms
			l = append(append([]any{}, l[:2]...), cp)
		}
		// what is inside the details of HELLO is judged only if it has the prescribed kinds
		d := l[2].(map[string]any)
		for k, x := range d {
			switch k {
			case "authid":
				_, g := x.(string)
				unsure = unsure || !g
			case "authextra", "roles":
				_, g := x.(map[string]any)
				unsure = unsure || !g
			case "authmethods":
				ms, g := x.([]any)
				unsure = unsure || !g
				for _, m := range ms {
					if _, s := m.(string); !s { // what the client offers must not get lost
						ok = false
						c.Feat("methods that are none")
					}
				}
			}
		}
	}
	c.Mix(kind, show(l))
	c.Logf("%s %s ok=%v", kindNames[kind], show(l), ok)
	data := encodeWire(kind, l, wireOpts{r})
	var m messages.Message
	var err error
	if kind == kMsgPack && r.P(20) {
		// straight from a decoded list
		cp := append([]any{}, l...)
		m, err = serializers.ToMessage(cp)
		c.Feat("ToMessage")
	} else {
		m, err = serializerOf(kind).Deserialize(data)
	}
	if unsure {
		c.Feat("no verdict")
		return
	}
	if !ok {
		c.Feat("malformed")
		c.Check(err != nil, "accepted", "%s: malformed %s was accepted", kindNames[kind], show(l))
		return
	}
	c.Feat("well-formed")
	c.Feat(tt.name)
	c.Check(err == nil && !nilMsg(m), "rejected", "%s: well-formed %s was rejected: %v", kindNames[kind], show(l), err)
	c.Check(m.Type() == tt.code, "type", "%s became type %d", tt.name, m.Type())
	if d := diffV(tt.readList(l), tt.read(m)); d != "" {
		c.Fail("altered", "%s %s: %s; list %s", kindNames[kind], tt.name, d, show(l))
	}
}

func idIndex(r *Rand, t *mtype, k fkind) int {
	var is []int
	for i, f := range t.fields {
		if f.kind == k {
			is = append(is, i+1)
		}
	}
	if len(is) == 0 {
		return 0
	}
	return pick(r, is)
}

// ---------------------------------------------------------------- M05

func m05(c *C) {
	r := c.R
	t := mtypes[c.Case%len(mtypes)]
	v := genV(r, t, kJSON) // values every format can carry
	if t.name == "HELLO" && v.strs("AuthMethods") == nil {
		v["AuthMethods"] = []string{}
	}
	// ids around every boundary, systematically
	for _, f := range t.fields {
		if f.kind == fID && r.P(60) {
			v[f.name] = edgeIDs[(c.Case/len(mtypes))%len(edgeIDs)]
		}
	}
	c.Feat(t.name)
	c.Logf("%s %s", t.name, v)
	want := t.arrives(v)
	l := t.wireList(v)
	for kind := 0; kind < 3; kind++ {
		for rep := 0; rep < 3; rep++ {
			var data []byte
			var err error
			if rep == 0 {
				data, err = serializerOf(kind).Serialize(t.build(v))
				c.Check(err == nil, "serialize", "%s %s: %v", kindNames[kind], t.name, err)
			} else {
				data = encodeWire(kind, l, wireOpts{r})
			}
			c.Mix(kind, string(data))
			m, err := serializerOf(kind).Deserialize(data)
			c.Check(err == nil && !nilMsg(m), "rejected", "%s %s: %v; %s; %s", kindNames[kind], t.name, err, v, clip(fmt.Sprintf("%x", data), 600))
			c.Check(m.Type() == t.code, "type", "%s became type %d", t.name, m.Type())
			if d := diffV(want, t.read(m)); d != "" {
				c.Fail("differs", "%s %s: %s; %s", kindNames[kind], t.name, d, clip(fmt.Sprintf("%x", data), 600))
			}
			c.nchk++
			c.Feat("encodings")
		}
	}
}

// ---------------------------------------------------------------- M06

var payloadKind = map[uint64]int{serializers.JSONSerializerID: kJSON, serializers.CBORSerializerID: kCBOR, serializers.MsgPackSerializerID: kMsgPack}

func sameArgs(args []any, kw map[string]any, gotA []any, gotK map[string]any) bool {
	if len(args) == 0 && len(gotA) == 0 {
		args, gotA = nil, nil
	}
	if len(kw) == 0 && len(gotK) == 0 {
		kw, gotK = nil, nil
	}
	return len(args) == len(gotA) && len(kw) == len(gotK) && (len(args) == 0 || equalValues(args, gotA)) &&
		(len(kw) == 0 || equalValues(kw, gotK))
}

func m06(c *C) {
	if c.Case == 0 {
		limitMemory()
	}
	r := c.R
	ids := []uint64{serializers.NoneSerializerID, serializers.JSONSerializerID, serializers.CBORSerializerID, serializers.MsgPackSerializerID}
	id := ids[c.Case%4]
	if c.Case%16 == 0 { // unknown serializers
		bad := pick(r, []uint64{4, 5, 15, 16, 255, 256, 257, 1 << 32, 1<<32 + 1, 1<<64 - 1, 1<<32 + 2})
		_, err := serializers.SerializePayload(bad, []any{1}, nil)
		c.Check(err != nil, "unknown", "SerializePayload accepted serializer %d", bad)
		_, _, err = serializers.DeserializePayload(bad, []byte("[[]]"))
		c.Check(err != nil, "unknown", "DeserializePayload accepted serializer %d", bad)
		c.Feat("unknown serializer")
		return
	}
	if c.Case%16 == 9 || c.Case%16 == 10 || c.Case%16 == 11 { // what cannot be carried, and lists of any shape
		m06more(c, id)
		return
	}
	if id == serializers.NoneSerializerID {
		c.Feat("raw")
		b := genBytes(r)
		if r.Intn(50) == 0 {
			b = r.Bytes(largeSize(r))
		}
		c.Mix("raw", string(b))
		data, err := serializers.SerializePayload(id, []any{b}, pick(r, []map[string]any{nil, {}}))
		c.Check(err == nil, "raw", "one byte string was refused: %v", err)
		c.Check(bytes.Equal(data, b), "raw", "raw payload changed: %x, want %x", data, b)
		args, kw, err := serializers.DeserializePayload(id, data)
		c.Check(err == nil && len(args) == 1 && len(kw) == 0, "raw", "decoding gave %s %s %v", show(args), show(kw), err)
		got, ok := args[0].([]byte)
		c.Check(ok && bytes.Equal(got, b), "raw", "decoding gave %s, want %x", show(args[0]), b)
		// everything that is not one byte string is refused
		for _, bad := range []struct {
			a []any
			k map[string]any
		}{{[]any{b, b}, nil}, {[]any{"text"}, nil}, {[]any{nil}, nil}, {[]any{b}, map[string]any{"k": 1}}, {nil, map[string]any{"k": 1}}, {[]any{1}, nil}} {
			_, err := serializers.SerializePayload(id, bad.a, bad.k)
			c.Check(err != nil, "raw", "raw payload accepted args %s kwargs %s", show(bad.a), show(bad.k))
		}
		// and nothing at all is nothing, if it is not refused
		data, err = serializers.SerializePayload(id, pick(r, [][]any{nil, {}}), pick(r, []map[string]any{nil, {}}))
		c.Check(err != nil || len(data) == 0, "raw", "no arguments became raw payload %x", data)
		return
	}
	kind := payloadKind[id]
	if r.P(50) {
		// round trip
		c.Feat("round trip")
		args, kw := genArgsX(r, kind)
		if c.Case%16 >= 13 && c.Case/16%100 == 0 {
			c.Feat("huge")
			hugeMu.Lock() // one at a time: memory is limited
			defer hugeMu.Unlock()
			switch n := 1<<20 + 1 + r.Intn(5000); r.Intn(3) {
			case 0:
				args = largeList(n)
			case 1:
				args = []any{strings.Repeat("h", n)}
			case 2:
				kw = with(kw, "huge", strings.Repeat("h", n))
			}
		}
		c.Logf("%s args %s kwargs %s", kindNames[kind], show(args), show(kw))
		data, err := serializers.SerializePayload(id, args, kw)
		c.Check(err == nil, "encode", "%s: %v; args %s kwargs %s", kindNames[kind], err, show(args), show(kw))
		c.Mix(kind, string(data))
		a, k, err := serializers.DeserializePayload(id, data)
		c.Check(err == nil, "decode", "%s: own payload refused: %v; args %s kwargs %s", kindNames[kind], err, show(args), show(kw))
		c.Check(sameArgs(args, kw, a, k), "differs", "%s: args %s kwargs %s became %s %s", kindNames[kind], show(args), show(kw), show(a), show(k))
		// a peer's encoding of the same payload
		doc := []any{args, kw}
		if args == nil {
			doc[0] = []any{}
		}
		if kw == nil {
			doc[1] = map[string]any{}
		}
		if len(kw) == 0 && r.Bool() {
			doc = doc[:1]
		}
		a, k, err = serializers.DeserializePayload(id, encodeWire(kind, doc, wireOpts{r}))
		c.Check(err == nil && sameArgs(args, kw, a, k), "differs", "%s: payload %s read as %s %s %v", kindNames[kind], show(doc), show(a), show(k), err)
		if kind == kCBOR {
			data, err := serializers.EncodeCBOR(args, kw)
			c.Check(err == nil, "encode", "EncodeCBOR: %v; args %s kwargs %s", err, show(args), show(kw))
			a, k, err := serializers.DecodeCBOR(data)
			c.Check(err == nil && sameArgs(args, kw, a, k), "differs", "EncodeCBOR: args %s kwargs %s became %s %s %v", show(args), show(kw), show(a), show(k), err)
			c.Feat("EncodeCBOR")
		}
		return
	}
	c.Feat("malformed")
	args, kw := genArgsX(r, kind)
	if args == nil {
		args = []any{1}
	}
	if kw == nil {
		kw = map[string]any{"k": "v"}
	}
	whole := encodeWire(kind, []any{args, kw}, wireOpts{r})
	var data []byte
	mustFail := true
	switch r.Intn(7) {
	case 0: // cut short
		whole = bytes.TrimSpace(whole)
		data = whole[:1+r.Intn(len(whole)-1)]
	case 1: // a scalar or a map instead of the list
		data = encodeWire(kind, pick(r, []any{true, 7, "args", 1.5, map[string]any{"args": []any{}}, -3, map[string]any{}}), wireOpts{r})
	case 2: // the first element is no list
		data = encodeWire(kind, []any{pick(r, []any{nil, 1, "x", map[string]any{}, true, 2.5}), kw}, wireOpts{r})
	case 3: // the second is no map
		data = encodeWire(kind, []any{args, pick(r, []any{nil, 1, "x", []any{}, false, []any{"a"}})}, wireOpts{r})
	case 4: // too many
		data = encodeWire(kind, []any{args, kw, pick(r, []any{nil, 1, []any{}, map[string]any{}})}, wireOpts{r})
	case 5: // hostile lengths and nesting
		data = append(whole[:r.Intn(len(whole))], hostileHead(r, kind)...)
		mustFail = false
		if kind != kJSON && r.Bool() {
			data = append([]byte{map[int]byte{kCBOR: 0x82, kMsgPack: 0x92}[kind]}, hostileHead(r, kind)...)
			mustFail = true
		}
		if r.P(3) {
			data = nested(kind, 1<<uint(4+r.Intn(19)), false)
			mustFail = false
		}
	default: // anything
		data = append([]byte{}, whole...)
		for i := 1 + r.Intn(3); i > 0; i-- {
			data[r.Intn(len(data))] = byte(r.U64())
		}
		mustFail = false
	}
	c.Mix(kind, string(data))
	c.Logf("%s malformed %s", kindNames[kind], clip(fmt.Sprintf("%x", data), 300))
	a, k, err := serializers.DeserializePayload(id, append([]byte(nil), data...))
	if mustFail {
		c.Check(err != nil, "accepted", "%s: malformed payload %s read as args %s kwargs %s", kindNames[kind], clip(fmt.Sprintf("%x", data), 800), show(a), show(k))
	} else if err == nil {
		// accepted: it must be what an independent decoder sees, if that understands it
		if doc, derr := decodeWire(kind, data); derr == nil {
			if l, ok := doc.([]any); ok && len(l) >= 1 && len(l) <= 2 {
				wa, _ := l[0].([]any)
				var wk map[string]any
				if len(l) == 2 {
					wk, _ = l[1].(map[string]any)
				}
				c.Check(sameArgs(wa, wk, a, k), "differs", "%s: payload %s read as %s %s", kindNames[kind], show(doc), show(a), show(k))
			}
		}
	}
	if kind == kCBOR {
		_, _, err := serializers.DecodeCBOR(append([]byte(nil), data...))
		if mustFail {
			c.Check(err != nil, "accepted", "DecodeCBOR accepted %s", clip(fmt.Sprintf("%x", data), 800))
		}
	}
}

// uncarriable returns args and kwargs of which one value, at any depth, cannot be encoded.
func uncarriable(r *Rand, kind int) ([]any, map[string]any) {
	bad := []any{make(chan int), func() {}, complex(1, 2), []any{make(chan string, 1)}, map[string]any{"f": func(int) {}}}
	if kind == kMsgPack {
		bad = append(bad[:2:2], bad[3:]...)
	}
	if kind == kJSON {
		bad = append(bad, math.NaN(), math.Inf(1), math.Inf(-1), []any{math.NaN()})
	}
	x := pick(r, bad)
	for r.P(30) {
		if r.Bool() {
			x = []any{1, x}
		} else {
			x = map[string]any{"deep": x, "other": "v"}
		}
	}
	args, kw := genArgs(r, kind)
	if r.Bool() {
		args = append(append([]any{}, args...), x)
	} else {
		if kw = copyOf(kw); kw == nil {
			kw = map[string]any{}
		}
		kw["bad"] = x
	}
	return args, kw
}

func m06more(c *C, id uint64) {
	r := c.R
	kind := payloadKind[id]
	if r.Bool() {
		c.Feat("cannot be carried")
		args, kw := uncarriable(r, kind)
		c.Mix(kind, fmt.Sprintf("%T %v", args, kw))
		data, err := serializers.SerializePayload(id, args, kw)
		c.Check(err != nil, "encode", "%s: a payload that cannot be encoded became %x without an error", kindNames[kind], data)
		if kind == kCBOR {
			data, err = serializers.EncodeCBOR(args, kw)
			c.Check(err != nil, "encode", "EncodeCBOR: a payload that cannot be encoded became %x without an error", data)
		}
		return
	}
	c.Feat("any shape")
	doc := []any{}
	for n := r.Intn(4); n > 0; n-- {
		doc = append(doc, pick(r, []any{nil, []any{}, []any{1}, map[string]any{}, map[string]any{"k": "v"}, 1, "x", true}))
	}
	isL, isM := false, false
	if len(doc) > 0 {
		_, isL = doc[0].([]any)
	}
	if len(doc) > 1 {
		_, isM = doc[1].(map[string]any)
	}
	data := encodeWire(kind, doc, wireOpts{r})
	c.Mix(kind, string(data))
	a, k, err := serializers.DeserializePayload(id, data)
	good := isL && (len(doc) == 1 || len(doc) == 2 && isM)
	switch {
	case len(doc) == 0:
		c.Check(err != nil || len(a) == 0 && len(k) == 0, "differs", "%s: an empty list read as %s %s", kindNames[kind], show(a), show(k))
	case good:
		c.Check(err == nil, "refused", "%s: payload %s refused: %v", kindNames[kind], show(doc), err)
	default:
		c.Check(err != nil, "accepted", "%s: malformed payload %s read as %s %s", kindNames[kind], show(doc), show(a), show(k))
	}
	if kind == kCBOR {
		a, k, err := serializers.DecodeCBOR(data)
		if good && len(doc) == 2 {
			c.Check(err == nil && sameArgs(doc[0].([]any), doc[1].(map[string]any), a, k), "differs", "DecodeCBOR: %s read as %s %s %v", show(doc), show(a), show(k), err)
		} else {
			c.Check(err != nil, "accepted", "DecodeCBOR: malformed payload %s read as %s %s", show(doc), show(a), show(k))
		}
	}
}

// ---------------------------------------------------------------- T01, T02

var errPanic = errors.New("panic")

func t01(c *C) {
	r := c.R
	if c.Case < 240 { // all valid handshakes
		ser, exp := 1+c.Case%15, 9+c.Case/15
		hs := transports.NewHandshake(transports.Serializer(ser), 1<<exp)
		b, err := transports.SendHandshake(hs)
		c.Check(err == nil, "refused", "serializer %d size 2^%d refused: %v", ser, exp, err)
		want := []byte{0x7f, byte((exp-9)<<4 | ser), 0, 0}
		c.Check(bytes.Equal(b, want), "octets", "serializer %d size 2^%d encoded as %x, want %x", ser, exp, b, want)
		got, err := transports.ReceiveHandshake(b)
		c.Check(err == nil, "refused", "own handshake %x refused: %v", b, err)
		c.Check(int(got.Serializer()) == ser && got.MaxMessageSize() == 1<<exp, "differs", "serializer %d size 2^%d became %d, %d", ser, exp,
			got.Serializer(), got.MaxMessageSize())
		c.Mix("valid", c.Case)
		c.Feat("valid")
		c.Logf("serializer %d size 2^%d -> %x", ser, exp, b)
		return
	}
	// refused when sending
	ser, size := 1+r.Intn(15), 1<<(9+r.Intn(16))
	switch r.Intn(3) {
	case 0:
		ser = pick(r, []int{0, -1, 16, 17, 31, 32, 255, 256, 257, -15, math.MaxInt32, math.MinInt32, math.MaxInt64, -16, 1 << 32, 1<<32 + 1})
	case 1:
		size = pick(r, []int{0, 1, 2, 256, 511, 513, 1<<24 + 1, 1<<24 - 1, 1 << 25, 1 << 31, 1 << 32, 1 << 62, -1, -512, math.MinInt64, math.MaxInt64, 1<<20 + 1, 1<<20 - 1, 768, 1 << 8,
			1<<53 + 1, 1<<62 + 1, 1<<9 | 1<<23})
	default:
		size = r.Intn(1 << 25)
		if size&(size-1) == 0 {
			size += 3
		}
		if size&(size-1) == 0 {
			size++
		}
	}
	c.Mix("send", ser, size)
	if !(ser >= 1 && ser <= 15 && size >= 512 && size <= 1<<24 && size&(size-1) == 0) {
		b, err := transports.SendHandshake(transports.NewHandshake(transports.Serializer(ser), size))
		c.Check(err != nil, "sent", "serializer %d size %d was sent as %x", ser, size, b)
		c.Check(len(b) == 0, "sent", "serializer %d size %d gave bytes %x along with an error", ser, size, b)
		c.Feat("refused send")
	}
	// refused when receiving
	var b []byte
	switch r.Intn(4) {
	case 0:
		b = r.Bytes(r.Intn(9))
	case 1:
		b = []byte{0x7f, byte(r.U64()), 0, 0}
		b[2+r.Intn(2)] = pick(r, []byte{1, 2, 0x10, 0x7f, 0x80, 0xff, 4, 8, 32, 64})
	case 2:
		b = []byte{pick(r, []byte{0, 1, 0x7e, 0x80, 0xff, 0xf7, 'G'}), byte(r.U64()), 0, 0}
	default:
		b = append([]byte{0x7f, byte(r.U64()), 0, 0}, r.Bytes(1+r.Intn(3))...)
		if r.Bool() {
			b = b[:r.Intn(4)]
		}
	}
	if r.P(1) {
		b = nil
	}
	c.Mix("recv", string(b))
	hs, err := transports.ReceiveHandshake(b)
	if len(b) == 4 && b[0] == 0x7f && b[2] == 0 && b[3] == 0 {
		c.Feat("valid octets")
		if b[1]&15 != 0 {
			c.Check(err == nil, "refused", "%x refused: %v", b, err)
			c.Check(int(hs.Serializer()) == int(b[1]&15) && hs.MaxMessageSize() == 1<<(9+int(b[1]>>4)), "differs", "%x read as %d, %d", b,
				hs.Serializer(), hs.MaxMessageSize())
		}
		return
	}
	c.Feat("refused receive")
	c.Check(err != nil, "received", "%x was accepted", b)
}

func t02(c *C) {
	r := c.R
	check := func(kind, length int) {
		h := transports.NewMessageHeader(transports.Message(kind), length)
		b := transports.SendMessageHeader(h)
		c.Check(len(b) == 4 && b[0] == byte(kind) && int(b[1])<<16|int(b[2])<<8|int(b[3]) == length, "octets",
			"kind %d length %d encoded as %x", kind, length, b)
		got, err := transports.ReceiveMessageHeader(b)
		c.Check(err == nil, "refused", "own header %x refused: %v", b, err)
		c.Check(int(got.Kind()) == kind && got.Length() == length, "differs", "kind %d length %d became %d, %d", kind, length, got.Kind(), got.Length())
		c.Feat("headers")
	}
	// a block of consecutive lengths and a stride through the whole range
	start := r.Intn(1 << 24)
	kind := pick(r, []int{0, 1, 2, 0, 1, 2, 3, 7, 127, 128, 255})
	for i := 0; i < 1500; i++ {
		check(kind, (start+i)%(1<<24))
		check(r.Intn(3), r.Intn(1<<24))
	}
	for _, n := range []int{0, 1, 255, 256, 257, 65535, 65536, 65537, 1<<24 - 2, 1<<24 - 1, 1 << 23, 0x010203, 0xff00ff, 0x00ff00} {
		check(r.Intn(3), n)
	}
	if c.Thorough() {
		base := (c.Case * 1024) % (1 << 24)
		for i := 0; i < 1024; i++ {
			check(c.Case%3, base+i)
		}
	}
	for i := 0; i < 4; i++ {
		n := r.Intn(12)
		if n == 4 {
			n = 3
		}
		b := r.Bytes(n)
		if n == 0 && r.Bool() {
			b = nil
		}
		_, err := transports.ReceiveMessageHeader(b)
		c.Check(err != nil, "accepted", "%d bytes %x accepted as a header", n, b)
		c.Feat("refused")
	}
	c.Mix(kind, start)
	c.Logf("kind %d from %d", kind, start)
}
