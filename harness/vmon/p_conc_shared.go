package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"errors"
	"fmt"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
)

func init() {
	register(&Prop{ID: "C01", Quick: 800, Thoro: 60000,
		Rule: "goroutines that use the same messages, serializers, authenticators and functions, or each a router, session or handshake of its own, under the race detector with pauses between statements, each judged as if it were alone; distinct = different case",
		Need: map[string]int64{"encoded shared message": 3000, "decoded shared bytes": 3000, "shared event": 500, "handshake ticket": 100, "handshake wampcra": 100,
			"handshake cryptosign": 100, "handshake anonymous": 100, "handshake refused": 100, "payload": 2000, "frame": 2000, "signature": 500, "router of its own": 500},
		Assume: []string{"nobody changes what is shared", "authenticators of the router are safe for concurrent use", "schedules are those of the Go scheduler with injected pauses"},
		Case: func(c *C) {
			switch c.Case % 4 {
			case 0:
				c01messages(c)
			case 1:
				c01handshakes(c)
			case 2:
				c01functions(c)
			case 3:
				c01routers(c)
			}
			c.Mix(c.R.U64())
		}})
}

// c01messages: the same messages are read, encoded and decoded by several goroutines.
func c01messages(c *C) {
	r := c.R
	type item struct {
		t     *mtype
		v     V
		m     messages.Message
		bytes [3][]byte
		event bool
	}
	var items []*item
	for i := 0; i < 5; i++ {
		t := pick(r, mtypes)
		v := genV(r, t, kJSON)
		if t.hasArgs() {
			v["Args"], v["KwArgs"] = genArgs(r, kJSON)
		}
		it := &item{t: t, v: v, m: t.build(v)}
		for k := range it.bytes {
			it.bytes[k] = encodeWire(k, t.wireList(v), wireOpts{})
		}
		switch r.Intn(3) {
		case 0: // one that has been read
			k := r.Intn(3)
			m, err := serializerOf(k).Deserialize(it.bytes[k])
			if err != nil {
				c.Skip("decode")
			}
			it.m, it.v = m, t.arrives(v)
		case 1: // an event on its way to several subscribers
			args, kw := genArgs(r, kJSON)
			b := wampproto.NewBroker()
			for id := uint64(1); id <= 3; id++ {
				b.AddSession(wampproto.NewSessionDetails(id, "r", "u", "r", "anonymous", false, nil, nil))
				b.ReceiveMessage(id, messages.NewSubscribe(1, nil, "t"))
			}
			p, err := b.ReceivePublish(1, messages.NewPublish(2, nil, "t", args, kw))
			if err != nil || p == nil || p.Event == nil {
				c.Skip("publish")
			}
			it.event = true
			it.t, it.m = mtypeByName["EVENT"], p.Event
			it.v = it.t.read(p.Event)
			for k := range it.bytes {
				it.bytes[k] = encodeWire(k, it.t.wireList(it.v), wireOpts{})
			}
		}
		items = append(items, it)
	}
	n := 2 + r.Intn(5)
	sers := [3]serializers.Serializer{serializerOf(0), serializerOf(1), serializerOf(2)}
	cs := c.split(n)
	inGoroutines(n, func(g int) {
		c := cs[g]
		for i := 0; i < 12; i++ {
			it := pick(c.R, items)
			if c.R.P(70) { // all at the same one
				it = items[i%len(items)]
			}
			k := c.R.Intn(3)
			if c.R.Bool() {
				b, err := sers[k].Serialize(it.m)
				c.Check(err == nil, "encode", "%s %s: %v", kindNames[k], it.t.name, err)
				raw, err := decodeWire(k, b)
				want := it.t.wireList(it.v)
				c.Check(err == nil && equalValues(raw, want), "encode", "%s %s encoded by several goroutines gives %s, not %s", kindNames[k], it.t.name, show(raw), show(want))
				c.Feat("encoded shared message")
				if it.event {
					c.Feat("shared event")
				}
			} else {
				m, err := sers[k].Deserialize(it.bytes[k])
				c.Check(err == nil && m.Type() == it.t.code, "decode", "%s %s: %v", kindNames[k], it.t.name, err)
				if d := diffV(it.t.arrives(it.v), it.t.read(m)); d != "" {
					c.Fail("decode", "%s %s decoded by several goroutines: %s", kindNames[k], it.t.name, d)
				}
				c.Feat("decoded shared bytes")
			}
			if d := diffV(it.v, it.t.read(it.m)); d != "" {
				c.Fail("changed", "%s has changed: %s", it.t.name, d)
			}
		}
	})
	c.join(cs)
}

// openAuth is a router-side authenticator that keeps no state.
type openAuth struct {
	pub string // the cryptosign key it knows
}

func (*openAuth) Methods() []auth.Method { return allMethods }

func (o *openAuth) Authenticate(q auth.Request) (auth.Response, error) {
	id, role := "id-"+q.AuthID(), "role-"+q.Realm()
	switch q.AuthMethod() {
	case auth.Ticket:
		if t, ok := q.(*auth.TicketRequest); !ok || t.Ticket() != "ticket-"+q.Realm() && t.Ticket() != "ticket" {
			return nil, errors.New("wrong ticket")
		}
	case auth.WAMPCRA:
		if strings.HasSuffix(q.AuthID(), "salted") {
			return auth.NewCRAResponseSalted(id, role, "secret", "salt", 10, 32, 0), nil
		}
		return auth.NewCRAResponse(id, role, "secret", 0), nil
	case auth.CryptoSign:
		if t, ok := q.(*auth.RequestCryptoSign); !ok || t.PublicKey() != o.pub {
			return nil, errors.New("unknown key")
		}
	}
	return auth.NewResponse(id, role, 0)
}

// c01handshakes: many handshakes at a time, with the same authenticators on either side.
func c01handshakes(c *C) {
	r := c.R
	seed, pub, _ := keyPair(r)
	badSeed, _, _ := keyPair(r)
	router := &openAuth{pub: pub}
	type shared struct {
		method auth.Method
		ca     auth.ClientAuthenticator
		authid string
		right  bool
	}
	extra := map[string]any{"a": "b"}
	var all []shared
	add := func(method auth.Method, authid string, right bool, ca auth.ClientAuthenticator) {
		all = append(all, shared{method, ca, authid, right})
	}
	add(auth.Anonymous, "anna", true, auth.NewAnonymousAuthenticator("anna", extra))
	add(auth.Ticket, "tim", true, auth.NewTicketAuthenticator("tim", "ticket", extra))
	add(auth.Ticket, "tom", false, auth.NewTicketAuthenticator("tom", "wrong", nil))
	add(auth.WAMPCRA, "carl", true, auth.NewWAMPCRAAuthenticator("carl", "secret", extra))
	add(auth.WAMPCRA, "carl salted", true, auth.NewWAMPCRAAuthenticator("carl salted", "secret", nil))
	add(auth.WAMPCRA, "cleo", false, auth.NewWAMPCRAAuthenticator("cleo", "Secret", nil))
	k1, err := auth.NewCryptoSignAuthenticator("sid", seed, map[string]any{"c": "d"})
	if err != nil {
		c.Skip("key")
	}
	k2, err := auth.NewCryptoSignAuthenticator("sue", badSeed, nil)
	if err != nil {
		c.Skip("key")
	}
	add(auth.CryptoSign, "sid", true, k1)
	add(auth.CryptoSign, "sue", false, k2)
	sers := [3]serializers.Serializer{serializerOf(0), serializerOf(1), serializerOf(2)}
	n := 2 + r.Intn(5)
	cs := c.split(n)
	ids := make([][]uint64, n)
	focus := pick(r, all)
	inGoroutines(n, func(g int) {
		c := cs[g]
		for i := 0; i < 4; i++ {
			a := pick(c.R, all)
			if c.R.P(30) {
				a = focus
			}
			ser := pick(c.R, sers[:])
			realm := fmt.Sprintf("realm%d.%d", g, i)
			acc := wampproto.NewAcceptor(ser, router)
			j := wampproto.NewJoiner(realm, ser, a.ca)
			data, err := j.SendHello()
			c.Check(err == nil, "handshake", "SendHello: %v", err)
			welcomed := false
			for step := 0; step < 4 && data != nil; step++ {
				var w bool
				data, w, err = acc.Receive(data)
				if data == nil {
					break
				}
				welcomed = welcomed || w
				var jerr error
				data, jerr = j.Receive(data)
				c.Check(!a.right || err == nil && jerr == nil, "handshake", "%s of %q: client: %v, router: %v", a.method, a.authid, jerr, err)
			}
			c.Check(welcomed == a.right, "handshake", "%s of %q, who is right: %v, is welcomed: %v, among other handshakes", a.method, a.authid, a.right, welcomed)
			if !a.right {
				_, err := acc.SessionDetails()
				c.Check(err != nil, "handshake", "a refused %s of %q has a session", a.method, a.authid)
				c.Feat("handshake refused")
				continue
			}
			x, e1 := acc.SessionDetails()
			y, e2 := j.SessionDetails()
			c.Check(e1 == nil && e2 == nil, "handshake", "%s: %v %v", a.method, e1, e2)
			for side, d := range map[string]*wampproto.SessionDetails{"router": x, "client": y} {
				c.Check(d.ID() == x.ID() && d.Realm() == realm && d.AuthID() == "id-"+a.authid && d.AuthRole() == "role-"+realm && d.AuthMethod() == string(a.method), "mixed up",
					"the %s has session %d realm %q authid %q authrole %q method %q after a %s handshake of %q on %q", side, d.ID(), d.Realm(), d.AuthID(), d.AuthRole(), d.AuthMethod(), a.method, a.authid, realm)
			}
			ids[g] = append(ids[g], x.ID())
			c.Feat("handshake " + string(a.method))
		}
	})
	c.join(cs)
	seen := map[uint64]bool{}
	for _, l := range ids {
		for _, id := range l {
			c.Check(!seen[id], "session id", "two handshakes at the same time give session %d", id)
			seen[id] = true
		}
	}
}

// c01functions: functions without state.
func c01functions(c *C) {
	r := c.R
	n := 2 + r.Intn(5)
	cs := c.split(n)
	args, kw := genArgs(r, kJSON)
	_, _, priv := keyPair(r)
	ids := []uint64{serializers.JSONSerializerID, serializers.CBORSerializerID, serializers.MsgPackSerializerID}
	var shared [3][]byte
	for k, id := range ids {
		b, err := serializers.SerializePayload(id, args, kw)
		if err != nil {
			c.Skip("payload")
		}
		shared[k] = b
	}
	hs := transports.NewHandshake(transports.SerializerCbor, 1<<20)
	inGoroutines(n, func(g int) {
		c := cs[g]
		for i := 0; i < 8; i++ {
			k := c.R.Intn(3)
			a, m, err := serializers.DeserializePayload(ids[k], shared[k])
			c.Check(err == nil && sameArgs(args, kw, a, m), "payload", "%s payload of %s %s decoded by several goroutines: %s %s %v", kindNames[k], show(args), show(kw), show(a), show(m), err)
			own, okw := genArgs(c.R, kJSON)
			b, err := serializers.SerializePayload(ids[k], own, okw)
			c.Check(err == nil, "payload", "%v", err)
			a, m, err = serializers.DeserializePayload(ids[k], b)
			c.Check(err == nil && sameArgs(own, okw, a, m), "payload", "%s payload of %s %s: %s %s %v", kindNames[k], show(own), show(okw), show(a), show(m), err)
			c.Feat("payload")

			l := c.R.Intn(1 << 24)
			h, err := transports.ReceiveMessageHeader(transports.SendMessageHeader(transports.NewMessageHeader(transports.MessagePing, l)))
			c.Check(err == nil && h.Length() == l && h.Kind() == transports.MessagePing, "frame", "length %d becomes %+v %v", l, h, err)
			hb, err := transports.SendHandshake(hs)
			c.Check(err == nil && bytes.Equal(hb, []byte{0x7f, 0xb0 | byte(transports.SerializerCbor), 0, 0}), "frame", "handshake %x %v", hb, err)
			c.Feat("frame")

			ch, err := auth.GenerateCryptoSignChallenge()
			c.Check(err == nil, "signature", "%v", err)
			sig, err := auth.SignCryptoSignChallenge(ch, priv)
			c.Check(err == nil, "signature", "%v", err)
			ok, err := auth.VerifyCryptoSignSignature(sig+ch, priv.Public().(ed25519.PublicKey))
			if !ok { // the signature may come with the challenge
				ok, err = auth.VerifyCryptoSignSignature(sig, priv.Public().(ed25519.PublicKey))
			}
			c.Check(ok && err == nil, "signature", "signature of %s refused: %v", ch, err)
			secret := genIdent(c.R)
			key := auth.DeriveWAMPCRAKey("salt", secret, 3, 32)
			c.Check(bytes.Equal(key, craKey(secret, "salt", 3, 32)), "signature", "wrong key derived from %q", secret)
			want := base64.StdEncoding.EncodeToString(craMAC(ch, key))
			c.Check(auth.SignWAMPCRAChallenge(ch, key) == want && auth.VerifyWAMPCRASignature(want, ch, key), "signature", "wrong signature of %q", ch)
			c.Feat("signature")
		}
	})
	c.join(cs)
}

// c01routers: every goroutine has a dealer, a broker and clients of its own; only the session details are shared.
func c01routers(c *C) {
	r := c.R
	n := 2 + r.Intn(5)
	cs := c.split(n)
	x := wampproto.NewSessionDetails(7, "realm", "callee", "role", "ticket", r.Bool(), nil, nil)
	y := wampproto.NewSessionDetails(8, "realm", "caller", "role", "ticket", r.Bool(), nil, nil)
	inGoroutines(n, func(g int) {
		c := cs[g]
		d, b := wampproto.NewDealer(), wampproto.NewBroker()
		d.AutoDiscloseCaller(true)
		b.AutoDisclosePublisher(true)
		for _, s := range []*wampproto.SessionDetails{x, y} {
			c.Check(d.AddSession(s) == nil && b.AddSession(s) == nil, "router", "session refused")
		}
		k := c.R.Intn(3)
		callee, caller := wampproto.NewSession(serializerOf(k)), wampproto.NewSession(serializerOf(k))
		ser := serializerOf(k)
		req := uint64(0)
		// what a client sends arrives at the router, what the router answers arrives at its client
		send := func(from *wampproto.Session, m messages.Message) messages.Message {
			data, err := from.SendMessage(m)
			c.Check(err == nil, "router", "sending %s: %v", typeName(m), err)
			m, err = ser.Deserialize(data)
			c.Check(err == nil, "router", "%v", err)
			return m
		}
		deliver := func(out *wampproto.MessageWithRecipient, to uint64, want string) messages.Message {
			c.Check(out.Recipient == to, "router", "%s goes to %d, not %d", typeName(out.Message), out.Recipient, to)
			data, err := ser.Serialize(out.Message)
			c.Check(err == nil, "router", "%v", err)
			s := callee
			if to == 8 {
				s = caller
			}
			m, err := s.Receive(data)
			c.Check(err == nil && m.Type() == mtypeByName[want].code, "router", "%s refused: %v, expected %s", typeName(out.Message), err, want)
			return m
		}
		proc := fmt.Sprintf("p%d", g)
		req++
		out, err := d.ReceiveMessage(7, send(callee, messages.NewRegister(req, map[string]any{"match": pick(c.R, []string{exact, prefix, wildcard})}, proc)))
		c.Check(err == nil, "router", "%v", err)
		deliver(out, 7, "REGISTERED")
		req++
		out, err = b.ReceiveMessage(7, send(callee, messages.NewSubscribe(req, map[string]any{"match": pick(c.R, []string{exact, prefix, wildcard})}, proc)))
		c.Check(err == nil, "router", "%v", err)
		deliver(out, 7, "SUBSCRIBED")
		for i := 0; i < 5; i++ {
			req++
			tok := fmt.Sprint(g, " ", i)
			out, err = d.ReceiveMessage(8, send(caller, messages.NewCall(req, nil, proc, []any{tok}, nil)))
			c.Check(err == nil, "router", "%v", err)
			inv, ok := deliver(out, 7, "INVOCATION").(*messages.Invocation)
			c.Check(ok && len(inv.Args()) == 1 && inv.Args()[0] == tok && inv.Details()["caller_authid"] == "caller" && inv.Details()["procedure"] == proc, "router", "call %q arrives as %s %s", tok, show(inv.Args()), show(inv.Details()))
			out, err = d.ReceiveMessage(7, send(callee, messages.NewYield(inv.RequestID(), nil, inv.Args(), nil)))
			c.Check(err == nil, "router", "%v", err)
			res, ok := deliver(out, 8, "RESULT").(*messages.Result)
			c.Check(ok && res.RequestID() == req && len(res.Args()) == 1 && res.Args()[0] == tok, "router", "result of call %d arrives as %s of %d", req, show(res.Args()), res.RequestID())
			req++
			p, err := b.ReceivePublish(8, send(caller, messages.NewPublish(req, map[string]any{"acknowledge": true}, proc, []any{tok}, nil)).(*messages.Publish))
			c.Check(err == nil && p.Ack != nil && len(p.Recipients) == 1 && p.Event.Args()[0] == tok, "router", "publication %q: %+v %v", tok, p, err)
			deliver(&wampproto.MessageWithRecipient{Message: p.Event, Recipient: p.Recipients[0]}, 7, "EVENT")
			deliver(p.Ack, 8, "PUBLISHED")
			c.Feat("router of its own")
		}
		c.Check(d.RemoveSession(7) == nil && b.RemoveSession(7) == nil && !d.HasProcedure(proc) && !b.HasSubscription(proc), "router", "%q remains", proc)
	})
	c.join(cs)
}
