package main

import (
	"fmt"
	"sort"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
)

func init() {
	register(&Prop{ID: "M07", Quick: 12000, Thoro: 1200000,
		Rule: "populations of messages built, decoded and made by dealer and broker, of buffers and of payloads, one of which is changed at a time while all others are compared with what they were; distinct = different history",
		Need: map[string]int64{"built": 10000, "built without options": 2000, "decoded": 5000, "decoded from the same bytes": 500, "encoded": 10000, "buffer changed": 3000,
			"message changed": 5000, "compared": 100000, "payload": 2000, "frame": 1000, "reply": 2000, "binary": 300},
		Assume: []string{"messages are built from values that nothing else refers to", "a raw (not serialized) payload is handed through as it is", "arguments that a router passes on may be shared with the request they came with"},
		Case:   m07})
}

// holding is something that must not change unless it is changed itself.
type holding struct {
	what string
	msg  messages.Message
	buf  []byte
	args []any // of a payload
	kw   map[string]any
	was  string
}

func (h *holding) text() string {
	switch {
	case h.msg != nil:
		t := mtypeByCode[h.msg.Type()]
		s := t.read(h.msg).String()
		if b, ok := h.msg.(messages.BinaryPayload); ok {
			s += fmt.Sprint(b.PayloadIsBinary(), b.PayloadSerializer(), b.Payload())
		}
		return s
	case h.buf != nil:
		return string(h.buf)
	}
	return show(h.args) + show(h.kw)
}

type m07sim struct {
	c    *C
	r    *Rand
	kind int
	all  []*holding
	n    int
}

func (s *m07sim) add(h *holding) {
	h.was = h.text()
	s.all = append(s.all, h)
	if len(s.all) > 12 {
		i := s.r.Intn(len(s.all))
		s.all = append(s.all[:i], s.all[i+1:]...)
	}
}

// compare looks at everything after something has been done to one of them.
func (s *m07sim) compare(done string, but *holding) {
	for _, h := range s.all {
		if h == but {
			h.was = h.text()
			continue
		}
		now := h.text()
		s.c.Feat("compared")
		s.c.nchk++
		if now != h.was {
			s.c.Fail("changed", "%s changed when %s: it was %s, it is %s", h.what, done, clip(h.was, 600), clip(now, 600))
		}
	}
}

// scramble changes something inside a value, in place.
func (s *m07sim) scramble(v any) bool {
	s.n++
	switch x := v.(type) {
	case map[string]any:
		if x == nil {
			return false
		}
		if ks := sortedKeys(x, wireOpts{}); len(ks) > 0 && s.r.P(60) {
			k := pick(s.r, ks)
			if s.scramble(x[k]) {
				return true
			}
			if s.r.Bool() {
				delete(x, k)
			} else {
				x[k] = fmt.Sprint("changed ", s.n)
			}
			return true
		}
		x[fmt.Sprint("added", s.n)] = s.n
		return true
	case []any:
		if len(x) == 0 {
			return false
		}
		i := s.r.Intn(len(x))
		if !s.scramble(x[i]) {
			x[i] = fmt.Sprint("changed ", s.n)
		}
		return true
	case []string:
		if len(x) == 0 {
			return false
		}
		x[s.r.Intn(len(x))] = fmt.Sprint("changed ", s.n)
		return true
	case []byte:
		if len(x) == 0 {
			return false
		}
		x[s.r.Intn(len(x))] ^= 0x55
		return true
	}
	return false
}

// vary changes a message through what its accessors return.
func (s *m07sim) vary(m messages.Message, butArgs bool) bool {
	v := mtypeByCode[m.Type()].read(m)
	var names []string
	for k := range v {
		if butArgs && (k == "Args" || k == "KwArgs") {
			continue
		}
		names = append(names, k)
	}
	sort.Strings(names)
	shuffle(s.r, names)
	for _, k := range names {
		if s.scramble(v[k]) {
			return true
		}
	}
	return false
}

func (s *m07sim) gen(t *mtype) V {
	v := genV(s.r, t, s.kind)
	if t.hasArgs() {
		v["Args"], v["KwArgs"] = genArgs(s.r, s.kind)
	}
	if s.r.P(35) { // as little as possible
		s.c.Feat("built without options")
		for k, x := range v {
			switch x.(type) {
			case map[string]any:
				v[k] = map[string]any(nil)
			case []any:
				v[k] = []any(nil)
			case []string:
				v[k] = []string(nil)
			}
		}
	}
	return v
}

func (s *m07sim) binary() messages.Message {
	r := s.r
	s.c.Feat("binary")
	opts := map[string]any{}
	if r.Bool() {
		opts = nil
	}
	data, ser := r.Bytes(1+r.Intn(20)), uint64(r.Intn(4))
	switch r.Intn(4) {
	case 0:
		return messages.NewCallBinary(r.ID(), opts, "p", data, ser)
	case 1:
		return messages.NewYieldBinary(r.ID(), opts, data, ser)
	case 2:
		return messages.NewInvocationBinary(r.ID(), r.ID(), opts, data, ser)
	}
	return messages.NewResultBinary(r.ID(), opts, data, ser)
}

// replies are messages that a dealer and a broker make.
func (s *m07sim) replies() []messages.Message {
	r := s.r
	d, b := wampproto.NewDealer(), wampproto.NewBroker()
	for id := uint64(1); id <= 2; id++ {
		x := wampproto.NewSessionDetails(id, "realm", "u", "r", "anonymous", r.Bool(), nil, nil)
		d.AddSession(x)
		b.AddSession(x)
	}
	on := r.Bool()
	d.AutoDiscloseCaller(on)
	b.AutoDisclosePublisher(on)
	var l []messages.Message
	take := func(m *wampproto.MessageWithRecipient, err error) messages.Message {
		if err != nil || m == nil || nilMsg(m.Message) {
			s.c.Skip("request refused")
		}
		l = append(l, m.Message)
		return m.Message
	}
	take(d.ReceiveMessage(1, messages.NewRegister(1, nil, "p")))
	take(b.ReceiveMessage(1, messages.NewSubscribe(1, nil, "t")))
	for req := uint64(1); req <= 3; req++ {
		opts := map[string]any{}
		if r.Bool() {
			opts["receive_progress"] = true
		}
		inv, ok := take(d.ReceiveMessage(2, messages.NewCall(req, opts, "p", nil, nil))).(*messages.Invocation)
		if !ok {
			s.c.Skip("call refused")
		}
		if r.Bool() {
			take(d.ReceiveMessage(1, messages.NewYield(inv.RequestID(), map[string]any{"progress": true}, nil, nil)))
		}
		p, err := b.ReceivePublish(2, messages.NewPublish(req, nil, "t", nil, nil))
		if err != nil || p == nil || p.Event == nil {
			s.c.Skip("publish refused")
		}
		l = append(l, p.Event)
		take(d.ReceiveMessage(2, messages.NewCall(req+10, opts, "nobody", nil, nil)))
	}
	shuffle(r, l)
	return l
}

func m07(c *C) {
	r := c.R
	s := &m07sim{c: c, r: r, kind: r.Intn(3)}
	ser := serializerOf(s.kind)
	for step := 0; step < 20; step++ {
		switch r.Intn(13) {
		case 0, 1, 2: // build
			t := pick(r, mtypes)
			m := t.build(s.gen(t))
			if r.P(10) {
				m = s.binary()
			}
			h := &holding{what: fmt.Sprintf("%s built in step %d", typeName(m), step), msg: m}
			s.add(h)
			c.Feat("built")
			c.Logf("%s: %s", h.what, h.was)
			s.compare(h.what+" was built", h)
		case 3, 4, 5: // encode; with another serializer, too
			if len(s.all) == 0 {
				continue
			}
			h := pick(r, s.all)
			if h.msg == nil {
				continue
			}
			b, err := ser.Serialize(h.msg)
			if err != nil {
				c.Skip("serialize")
			}
			c.Feat("encoded")
			nb := &holding{what: fmt.Sprintf("the encoding in step %d of %s", step, h.what), buf: b}
			s.add(nb)
			c.Logf("%s", nb.what)
			s.compare(h.what+" was encoded", nil)
			again, err := ser.Serialize(h.msg)
			if err != nil {
				c.Skip("serialize")
			}
			s.compare(h.what+" was encoded again", nil)
			// both say the same
			x, e1 := decodeWire(s.kind, b)
			y, e2 := decodeWire(s.kind, again)
			c.Check(e1 == nil && e2 == nil && equalValues(x, y), "again", "%s is first encoded as %x, then as %x", h.what, b, again)
		case 6, 7: // decode
			var bufs []*holding
			for _, h := range s.all {
				if h.buf != nil {
					bufs = append(bufs, h)
				}
			}
			if len(bufs) == 0 {
				continue
			}
			h := pick(r, bufs)
			n := 1 + r.Intn(2)
			for i := 0; i < n; i++ {
				m, err := ser.Deserialize(h.buf)
				if err != nil || nilMsg(m) { // it may have been changed
					continue
				}
				c.Feat("decoded")
				if i > 0 {
					c.Feat("decoded from the same bytes")
				}
				nm := &holding{what: fmt.Sprintf("%s decoded in step %d from %s", typeName(m), step, h.what), msg: m}
				s.add(nm)
				c.Logf("%s: %s", nm.what, nm.was)
				s.compare(nm.what+" was decoded", nm)
			}
		case 8, 9: // change one
			if len(s.all) == 0 {
				continue
			}
			h := pick(r, s.all)
			done := false
			switch {
			case h.msg != nil:
				done = s.vary(h.msg, false)
				c.Feat("message changed")
			case h.buf != nil:
				for i := range h.buf {
					h.buf[i] ^= byte(1 + step)
				}
				done = true
				c.Feat("buffer changed")
			default:
				done = s.scramble(h.args) || s.scramble(h.kw)
			}
			if done {
				c.Logf("change %s", h.what)
				s.compare(h.what+" was changed", h)
			}
		case 10: // payloads
			args, kw := genArgs(r, s.kind)
			id := []uint64{serializers.JSONSerializerID, serializers.CBORSerializerID, serializers.MsgPackSerializerID}[s.kind]
			b, err := serializers.SerializePayload(id, args, kw)
			if err != nil {
				c.Skip("payload")
			}
			c.Feat("payload")
			given := &holding{what: fmt.Sprintf("the arguments encoded in step %d", step), args: args, kw: kw}
			s.add(given)
			if len(b) == 0 {
				s.compare("a payload was encoded", nil)
				continue
			}
			buf := &holding{what: fmt.Sprintf("the payload of step %d", step), buf: b}
			s.add(buf)
			s.compare("a payload was encoded", buf)
			for i := 0; i < 2; i++ {
				a2, k2, err := serializers.DeserializePayload(id, b)
				if err != nil {
					c.Skip("payload")
				}
				s.add(&holding{what: fmt.Sprintf("the arguments decoded from the payload of step %d", step), args: a2, kw: k2})
			}
			s.compare("a payload was decoded", nil)
			// a payload buffer is not one of a message
			for i := range b {
				b[i] ^= 0x33
			}
			s.compare("the buffer of a payload was changed", buf)
			for i, h := range s.all {
				if h == buf {
					s.all = append(s.all[:i], s.all[i+1:]...)
					break
				}
			}
		case 11: // frames
			c.Feat("frame")
			n := r.Intn(1 << 24)
			h := &holding{what: fmt.Sprintf("the header of length %d", n), buf: transports.SendMessageHeader(transports.NewMessageHeader(transports.MessageWamp, n))}
			if r.Bool() {
				b, err := transports.SendHandshake(transports.NewHandshake(transports.Serializer(1+r.Intn(3)), 512<<r.Intn(16)))
				if err != nil {
					c.Skip("handshake")
				}
				h = &holding{what: "a handshake", buf: b}
			}
			s.add(h)
			s.compare(h.what+" was made", nil)
		case 12: // what routers answer
			if r.P(70) {
				continue
			}
			own := &m07sim{c: c, r: r, kind: s.kind}
			for _, m := range s.replies() {
				c.Feat("reply")
				own.add(&holding{what: typeName(m) + " of a router", msg: m})
			}
			for i := 0; i < 6 && len(own.all) > 0; i++ {
				h := pick(r, own.all)
				if own.vary(h.msg, true) {
					own.compare(h.what+" was changed", h)
					s.compare(h.what+" was changed", nil)
				}
			}
		}
	}
	c.Mix(fmt.Sprint(c.trace))
}
