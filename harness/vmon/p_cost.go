package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
)

const (
	costFactor = 1000       // bytes allocated for each byte read
	costBase   = 256 * 1024 // and besides
)

func init() {
	register(&Prop{ID: "M08", Quick: 12000, Thoro: 600000, Serial: true, Case: m08,
		Rule: fmt.Sprintf("messages, payloads, frame headers and handshakes, valid, damaged, or announcing more than they hold, while the bytes allocated are counted (limit %d for each byte read and %d besides); and message traffic and handshakes repeated >= 1564 times, always new, while the live heap is measured; distinct = different bytes", costFactor, costBase),
		Need: map[string]int64{"accepted": 2000, "rejected": 2000, "huge length": 1500, "payload": 2000, "dense": 500, "deep": 100, "deep and complete": 50, "large": 30, "handshake": 500, "frame": 500,
			"heap measured": 50, "traffic": 20, "handshake over": 20, "handshake refused": 5, "handshake abandoned": 5},
		Assume: []string{"growth below 2 bytes per repetition counts as none"}})
}

// allocated counts the bytes that f allocates.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// dense is a document of many small items, n bytes or so.
func dense(r *Rand, kind, n int) []byte {
	var l, m any
	switch r.Intn(6) {
	case 0:
		l = []any{}
	case 1:
		l = map[string]any{}
	case 2:
		l = map[string]any{"": nil}
	case 3:
		l = []any{nil}
	case 4:
		l = int64(r.Intn(10))
	default:
		l = ""
	}
	if r.P(30) {
		d := map[string]any{}
		for i := 0; i < n/6; i++ {
			d[fmt.Sprintf("%x", i)] = l
		}
		m = []any{d}
	} else {
		s := make([]any, n/3)
		for i := range s {
			s[i] = l
		}
		m = s
	}
	return encodeWire(kind, []any{16, 1, map[string]any{}, "t", m}, wireOpts{})
}

// deepDocument is a message or payload with a deeply nested value.
func deepDocument(r *Rand, kind int, payload bool) []byte {
	depth := 1 << r.Intn(14)
	depth += r.Intn(depth)
	if depth > 9900 {
		depth = 9900
	}
	var v any
	maps := r.Intn(3)
	for i := 0; i < depth; i++ {
		switch {
		case maps == 0 || maps == 1 && r.Bool():
			v = []any{v}
		default:
			v = map[string]any{pick(r, []string{"", "a", "key"}): v}
		}
		if r.P(1) && maps < 2 {
			v = []any{v, "beside"}
		}
	}
	l := []any{v}
	if a, ok := v.([]any); ok && r.Bool() {
		l = a
	}
	if !payload {
		t := pick(r, mtypes)
		l = t.wireList(genV(r, t, kind))
		i := 1 + r.Intn(len(l)-1)
		if r.Bool() {
			i = len(l) - 1
		}
		l[i] = v
		if _, ok := v.(map[string]any); !ok && r.Bool() {
			l[i] = map[string]any{"a": v}
		}
	} else if r.Bool() {
		l = []any{[]any{v}, map[string]any{"k": v}}
	}
	return encodeWire(kind, l, wireOpts{})
}

func m08(c *C) {
	if c.Case == 0 {
		limitMemory()
	}
	if c.Case%100 == 99 {
		m08leak(c)
		return
	}
	r := c.R
	kind := r.Intn(3)
	t := pick(r, mtypes)
	payload := r.P(30)
	valid := func() []byte {
		l := t.wireList(genV(r, t, kind))
		if payload {
			a, k := genArgs(r, kind)
			l = []any{a, k}
			if a == nil {
				l[0] = []any{}
			}
			if k == nil {
				l = l[:1]
			}
		}
		return encodeWire(kind, l, wireOpts{r})
	}
	var data []byte
	what := kindNames[kind]
	switch mode := r.Intn(20); {
	case mode < 3:
		data = valid()
	case mode < 5: // damaged
		data = valid()
		for i := 1 + r.Intn(4); i > 0; i-- {
			data[r.Intn(len(data))] = byte(r.U64())
		}
	case mode < 9: // announces more than there is
		c.Feat("huge length")
		data = valid()
		i := r.Intn(len(data) + 1)
		head := hostileHead(r, kind)
		switch r.Intn(3) {
		case 0: // cut off there
			data = append(append([]byte{}, data[:i]...), head...)
		case 1: // in place of what was there
			data = append(append(append([]byte{}, data[:i]...), head...), data[i:]...)
		default: // a list or map of that many items as the whole
			data = append(append([]byte{}, head...), data...)
		}
		if kind == kMsgPack && r.Bool() { // inside an otherwise complete message
			data = append([]byte{0x94, 36, 1, 1}, head...)
			data = append(data, r.Bytes(r.Intn(40))...)
		}
		if kind == kCBOR && r.Bool() {
			data = append([]byte{0x84, 0x18, 36, 1, 1}, head...)
			data = append(data, r.Bytes(r.Intn(40))...)
		}
	case mode < 11:
		c.Feat("dense")
		n := 1 << r.Intn(16)
		if r.P(5) {
			c.Feat("large")
			n = 1 << 20
		}
		data = dense(r, kind, n)
	case mode < 12:
		c.Feat("deep")
		data = nested(kind, pick(r, []int{10, 100, 1000, 9000, 20000, 100000}), r.Bool())
		if r.P(60) { // complete, and as deep as may be accepted
			c.Feat("deep and complete")
			data = deepDocument(r, kind, payload)
		}
	case mode < 13:
		n := 1 + r.Intn(40)
		for i := 0; i < n; i++ {
			data = append(data, structural(r, kind)...)
		}
	case mode < 14: // a long string
		n := 1 << r.Intn(18)
		data = encodeWire(kind, []any{48, 1, map[string]any{strings.Repeat("k", n/2+1): 1}, strings.Repeat("p", n)}, wireOpts{})
	case mode < 15:
		data = append(hostileHead(r, kind), r.Bytes(r.Intn(20))...)
	case mode < 17: // frames and handshakes of raw sockets
		c.Feat("frame")
		data = r.Bytes(pick(r, []int{0, 1, 3, 4, 4, 4, 4, 5, 64}))
		if len(data) == 4 && r.Bool() {
			data = []byte{0x7f, byte(r.U64()), 0, 0}
			if r.Bool() {
				data = []byte{byte(r.Intn(3)), 0xff, 0xff, 0xff}
			}
		}
		c.Mix("frame", string(data))
		n := allocated(func() {
			_, _ = transports.ReceiveHandshake(data)
			_, _ = transports.ReceiveMessageHeader(data)
		})
		c.Check(n <= costFactor*uint64(len(data))+costBase, "cost", "reading the %d bytes of a frame header or handshake %x allocated %d bytes", len(data), data, n)
		return
	case mode < 19: // a handshake message for an acceptor or a joiner
		c.Feat("handshake")
		m08shake(c, kind)
		return
	default:
		data = r.Bytes(r.Intn(200))
	}
	c.Mix(kind, payload, string(data))
	c.Logf("%s %s", what, clip(fmt.Sprintf("%x", data), 300))
	var err error
	var read uint64
	limit := costFactor*uint64(len(data)) + costBase
	if payload {
		c.Feat("payload")
		id := []uint64{serializers.JSONSerializerID, serializers.CBORSerializerID, serializers.MsgPackSerializerID}[kind]
		read = allocated(func() {
			_, _, err = serializers.DeserializePayload(id, data)
			if kind == kCBOR {
				_, _, _ = serializers.DecodeCBOR(data)
			}
		})
	} else {
		ser := serializerOf(kind)
		read = allocated(func() { _, err = ser.Deserialize(data) })
	}
	if err == nil {
		c.Feat("accepted")
	} else {
		c.Feat("rejected")
	}
	c.Check(read <= limit, "cost", "reading %d bytes of %s (payload: %v, error: %v) allocated %d bytes: %s", len(data), what, payload, err, read, clip(fmt.Sprintf("%x", data), 400))
}

// m08shake gives a peer in the middle of a handshake something to read.
func m08shake(c *C, kind int) {
	r := c.R
	ser := serializerOf(kind)
	seed, pub, _ := keyPair(r)
	method := pick(r, allMethods)
	var data []byte
	var f func()
	if r.Bool() {
		ra := &recAuth{methods: allMethods, decide: func(a authCall) (auth.Response, error) {
			if a.method == auth.WAMPCRA {
				return auth.NewCRAResponse("u", "role", "secret", 0), nil
			}
			return auth.NewResponse("u", "role", 0)
		}}
		a := wampproto.NewAcceptor(ser, ra)
		hello := encodeWire(kind, helloList("r", "u", []string{string(method)}, map[string]any{"pubkey": pub}), wireOpts{r})
		if r.Bool() {
			data = hello
		} else {
			_, _, _ = a.Receive(hello)
			data = encodeWire(kind, []any{5, genString(r), genMap(r, kind, 2)}, wireOpts{r})
		}
		f = func() { _, _, _ = a.Receive(data) }
	} else {
		var ca auth.ClientAuthenticator
		switch method {
		case auth.Anonymous:
			ca = auth.NewAnonymousAuthenticator("u", nil)
		case auth.Ticket:
			ca = auth.NewTicketAuthenticator("u", "ticket", nil)
		case auth.WAMPCRA:
			ca = auth.NewWAMPCRAAuthenticator("u", "secret", nil)
		default:
			ca, _ = auth.NewCryptoSignAuthenticator("u", seed, nil)
		}
		j := wampproto.NewJoiner("r", ser, ca)
		_, _ = j.SendHello()
		extra := map[string]any{"challenge": strings.Repeat("ab", r.Intn(64))}
		if r.Bool() { // parameters that ask for much
			extra["salt"] = "salt"
			extra["iterations"] = int64(1 + r.Intn(20))
			extra["keylen"] = pick(r, []any{int64(32), int64(1 << 16), int64(1<<16 + 1), int64(1 << 24), int64(1 << 31), int64(1 << 40), int64(1 << 53)})
		}
		data = encodeWire(kind, pick(r, [][]any{{4, string(method), extra}, {4, string(method), extra}, {2, 1, genMap(r, kind, 2)}, {3, genMap(r, kind, 2), "a.b"}}), wireOpts{r})
		f = func() { _, _ = j.Receive(data) }
	}
	c.Mix(string(data))
	c.Logf("%s %s %s", method, kindNames[kind], clip(fmt.Sprintf("%x", data), 300))
	n := allocated(f)
	c.Check(n <= costFactor*uint64(len(data))+8*costBase, "cost", "reading %d bytes in a %s handshake allocated %d bytes: %s", len(data), method, n, clip(fmt.Sprintf("%x", data), 400))
}

// m08leak measures the live heap over messages and handshakes that are over.
func m08leak(c *C) {
	r := c.R
	kind := r.Intn(3)
	ser := serializerOf(kind)
	id := []uint64{serializers.JSONSerializerID, serializers.CBORSerializerID, serializers.MsgPackSerializerID}[kind]
	fresh := func(i uint64, s string) string { return fmt.Sprintf("%s.%x.%d", s, i, c.Case) }
	if r.Bool() {
		c.Feat("traffic")
		types := make([]*mtype, 1+r.Intn(4))
		for i := range types {
			types[i] = pick(r, mtypes)
		}
		broken := r.P(30)
		c.Mix(kind, fmt.Sprint(types), broken)
		steady(c, "messages", func(i uint64) {
			for _, t := range types {
				v := genV(r, t, kind)
				for _, n := range []string{"Topic", "Procedure", "URI", "Realm", "AuthID", "Reason", "Signature", "AuthMethod"} {
					if _, ok := v[n].(string); ok {
						v[n] = fresh(i, n)
					}
				}
				for _, n := range []string{"Options", "Details", "Extra", "KwArgs"} {
					if m, ok := v[n].(map[string]any); ok && m != nil {
						m[fresh(i, "key")] = fresh(i, "value")
					}
				}
				data, err := ser.Serialize(t.build(v))
				if err != nil {
					continue
				}
				if broken {
					data = data[:r.Intn(len(data))]
				}
				_, _ = ser.Deserialize(data)
				b, err := serializers.SerializePayload(id, []any{fresh(i, "arg")}, map[string]any{fresh(i, "key"): 1})
				if err == nil {
					_, _, _ = serializers.DeserializePayload(id, b)
				}
				_, _ = transports.ReceiveMessageHeader(transports.SendMessageHeader(transports.NewMessageHeader(transports.MessageWamp, int(i))))
			}
		})
		return
	}
	end := pick(r, []string{"over", "over", "refused", "abandoned"})
	method := pick(r, allMethods)
	salted := r.Bool()
	c.Feat("handshake " + end)
	c.Mix(kind, end, method, salted, r.U64())
	steady(c, "handshakes", func(i uint64) {
		user, secret := fresh(i, "user"), fresh(i, "secret")
		ra := &recAuth{methods: allMethods, decide: func(a authCall) (auth.Response, error) {
			if end == "refused" && method != auth.WAMPCRA {
				return nil, fmt.Errorf("refused")
			}
			if a.method == auth.WAMPCRA {
				s := secret
				if end == "refused" {
					s = "other" + s
				}
				if salted {
					return auth.NewCRAResponseSalted(a.authid, "role", s, fresh(i, "salt"), 2, 16, 0), nil
				}
				return auth.NewCRAResponse(a.authid, "role", s, 0), nil
			}
			return auth.NewResponse(a.authid, "role", 0)
		}}
		var ca auth.ClientAuthenticator
		switch method {
		case auth.Anonymous:
			ca = auth.NewAnonymousAuthenticator(user, nil)
		case auth.Ticket:
			ca = auth.NewTicketAuthenticator(user, secret, nil)
		case auth.WAMPCRA:
			ca = auth.NewWAMPCRAAuthenticator(user, secret, nil)
		default:
			seed, _, _ := keyPair(r)
			ca, _ = auth.NewCryptoSignAuthenticator(user, seed, nil)
		}
		j, a := wampproto.NewJoiner(fresh(i, "realm"), ser, ca), wampproto.NewAcceptor(ser, ra)
		data, err := j.SendHello()
		for step := 0; step < 3 && err == nil && len(data) > 0; step++ {
			var welcomed bool
			data, welcomed, err = a.Receive(data)
			if err != nil || (end == "abandoned" && !welcomed) {
				return
			}
			data, err = j.Receive(data)
		}
	})
}
