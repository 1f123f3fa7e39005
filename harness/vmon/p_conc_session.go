package main

import (
	"fmt"
	"sync/atomic"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

func init() {
	register(&Prop{ID: "S04", Quick: 700, Thoro: 60000,
		Rule:   "goroutines on one client session under the race detector with pauses between its statements: racing deliveries of one response, responses that race with the next send, and independent random sequences each judged by its own shadow; distinct = different order of completion",
		Need:   map[string]int64{"raced responses": 1500, "won by first": 300, "won by another": 300, "responses at once": 3000, "independent operations": 5000},
		Assume: []string{"schedules are those of the Go scheduler with injected pauses", "a client does not use the request id of an outstanding request of the same kind"},
		Case: func(c *C) {
			switch c.Case % 3 {
			case 0:
				s04race(c)
			case 1:
				s04pipe(c)
			case 2:
				s04private(c)
			}
		}})
}

// s04private: sequences that use different ids do not notice each other.
func s04private(c *C) {
	r := c.R
	kind := r.Intn(3)
	session := wampproto.NewSession(serializerOf(kind))
	n := 2 + r.Intn(5)
	cs := c.split(n)
	base := r.U64() % (MaxID / 4)
	inGoroutines(n, func(i int) {
		s := newSsim(cs[i], kind, session)
		for k := 0; k < 4; k++ {
			s.reqs = append(s.reqs, base+uint64(k*n+i))
		}
		for k := 0; k < 3; k++ {
			s.objs = append(s.objs, base+uint64(k*n+i))
		}
		for k := 0; k < 25; k++ {
			s.step()
			s.c.Feat("independent operations")
		}
		s.sweep()
	})
	c.join(cs)
	c.Mix(c.Case)
}

type s04req struct {
	name, response string
	req, obj       uint64
}

func s04request(r *Rand, name string, req, obj uint64) messages.Message {
	switch name {
	case "CALL":
		return messages.NewCall(req, map[string]any{"receive_progress": true}, "a.b", []any{req}, nil)
	case "REGISTER":
		return messages.NewRegister(req, nil, "a.b")
	case "UNREGISTER":
		return messages.NewUnregister(req, obj)
	case "SUBSCRIBE":
		return messages.NewSubscribe(req, nil, "a.b")
	case "UNSUBSCRIBE":
		return messages.NewUnsubscribe(req, obj)
	}
	return messages.NewPublish(req, map[string]any{"acknowledge": true}, "a.b", []any{req}, nil)
}

func s04response(name string, req, obj uint64, bad bool) messages.Message {
	if bad {
		return messages.NewError(mtypeByName[name].code, req, map[string]any{}, "a.b", nil, nil)
	}
	switch name {
	case "CALL":
		return messages.NewResult(req, map[string]any{}, []any{1}, nil)
	case "REGISTER":
		return messages.NewRegistered(req, obj)
	case "UNREGISTER":
		return messages.NewUnregistered(req)
	case "SUBSCRIBE":
		return messages.NewSubscribed(req, obj)
	case "UNSUBSCRIBE":
		return messages.NewUnsubscribed(req)
	}
	return messages.NewPublished(req, obj)
}

// s04race: several goroutines deliver final responses to the same requests.
func s04race(c *C) {
	r := c.R
	ser := serializerOf(r.Intn(3))
	session := wampproto.NewSession(ser)
	must := func(m messages.Message) []byte {
		b, err := session.SendMessage(m)
		c.Check(err == nil, "send", "%s: %v", typeName(m), err)
		return b
	}
	accept := func(m messages.Message) {
		_, err := session.ReceiveMessage(m)
		c.Check(err == nil, "refused", "%s is refused: %v", typeName(m), err)
	}
	base := r.U64() % (MaxID / 2)
	var reqs []s04req
	for i := 0; i < 10; i++ {
		q := s04req{name: pick(r, requestKinds), req: base + uint64(i), obj: base + 1000 + uint64(i)}
		if q.name == "UNREGISTER" {
			must(messages.NewRegister(q.req+500, nil, "a.b"))
			accept(messages.NewRegistered(q.req+500, q.obj))
		}
		if q.name == "UNSUBSCRIBE" {
			must(messages.NewSubscribe(q.req+500, nil, "a.b"))
			accept(messages.NewSubscribed(q.req+500, q.obj))
		}
		must(s04request(r, q.name, q.req, q.obj))
		reqs = append(reqs, q)
	}
	n := 2 + r.Intn(4)
	// what each goroutine delivers, encoded before the race
	type del struct {
		m   messages.Message
		b   []byte
		bad bool
	}
	plan := make([][]del, n)
	for g := range plan {
		for _, q := range reqs {
			bad := r.P(25)
			m := s04response(q.name, q.req, q.obj, bad)
			d := del{m: m, bad: bad}
			if r.Bool() {
				b, err := ser.Serialize(m)
				if err != nil {
					c.Skip("serialize")
				}
				d.b = b
			}
			plan[g] = append(plan[g], d)
		}
	}
	verdict := make([][]error, n)
	cs := c.split(n)
	inGoroutines(n, func(g int) {
		verdict[g] = make([]error, len(reqs))
		for i := range reqs {
			d := plan[g][i]
			if reqs[i].name == "CALL" && cs[g].R.P(30) {
				session.ReceiveMessage(messages.NewResult(reqs[i].req, map[string]any{"progress": true}, nil, nil))
			}
			if d.b != nil {
				_, verdict[g][i] = session.Receive(d.b)
			} else {
				_, verdict[g][i] = session.ReceiveMessage(d.m)
			}
		}
	})
	c.join(cs)
	for i, q := range reqs {
		winner, wins := -1, 0
		for g := range verdict {
			if verdict[g][i] == nil {
				winner = g
				wins++
			}
		}
		c.Feat("raced responses")
		c.Mix(winner)
		c.Logf("%s %d: %d of %d accepted", q.name, q.req, wins, n)
		c.Check(wins == 1, "accepted-times", "%d goroutines delivered a final response to %s %d at once; %d of them were accepted", n, q.name, q.req, wins)
		if winner == 0 {
			c.Feat("won by first")
		} else {
			c.Feat("won by another")
		}
		_, err := session.ReceiveMessage(s04response(q.name, q.req, q.obj, r.Bool()))
		c.Check(err != nil, "accepted-later", "another final response to %s %d is accepted after the race", q.name, q.req)
		// the effect is that of the response that was accepted
		bad := plan[winner][i].bad
		var held, want bool
		switch q.name {
		case "REGISTER", "UNREGISTER":
			_, err := session.ReceiveMessage(messages.NewInvocation(1, q.obj, map[string]any{}, nil, nil))
			held, want = err == nil, (q.name == "REGISTER") != bad
		case "SUBSCRIBE", "UNSUBSCRIBE":
			_, err := session.ReceiveMessage(messages.NewEvent(q.obj, 1, map[string]any{}, nil, nil))
			held, want = err == nil, (q.name == "SUBSCRIBE") != bad
		}
		c.Check(held == want, "effect", "%s %d: after the race, won by an error: %v, the registration or subscription is held: %v", q.name, q.req, bad, held)
	}
}

// s04pipe: the response to a request arrives in another goroutine as soon as its bytes have been returned.
func s04pipe(c *C) {
	r := c.R
	ser := serializerOf(r.Intn(3))
	session := wampproto.NewSession(ser)
	senders, receivers := 1+r.Intn(3), 1+r.Intn(3)
	type sent struct {
		s04req
		data []byte
		id   uint64
	}
	const each = 12
	ch := make(chan sent, r.Intn(3))
	var left atomic.Int64
	left.Store(int64(senders))
	cs := c.split(senders + receivers)
	base := r.U64() % (MaxID / 2)
	var order atomic.Uint64
	inGoroutines(senders+receivers, func(g int) {
		c := cs[g]
		if g < senders {
			defer func() {
				if left.Add(-1) == 0 {
					close(ch)
				}
			}()
			for i := 0; i < each; i++ {
				q := s04req{name: pick(c.R, []string{"CALL", "REGISTER", "SUBSCRIBE", "PUBLISH"}), req: base + uint64(i*senders+g), obj: base + uint64(i*senders+g) + 5000}
				b, err := session.SendMessage(s04request(c.R, q.name, q.req, q.obj))
				c.Check(err == nil, "send", "sending %s %d: %v", q.name, q.req, err)
				ch <- sent{s04req: q, data: b}
			}
			return
		}
		defer func() {
			if e := recover(); e != nil { // keep the senders going
				for range ch {
				}
				panic(e)
			}
		}()
		for q := range ch {
			m, err := ser.Deserialize(q.data)
			c.Check(err == nil && m.Type() == mtypeByName[q.name].code, "bytes", "the bytes of %s %d decode to %v, %v", q.name, q.req, m, err)
			c.Check(mtypeByName[q.name].read(m).id("RequestID") == q.req, "bytes", "the bytes of %s %d decode to %s", q.name, q.req, mtypeByName[q.name].read(m))
			if q.name == "CALL" && c.R.P(30) {
				_, err := session.ReceiveMessage(messages.NewResult(q.req, map[string]any{"progress": true}, nil, nil))
				c.Check(err == nil, "refused", "a progressive RESULT for CALL %d that arrives as soon as the call is sent is refused: %v", q.req, err)
			}
			bad := c.R.P(20)
			resp := s04response(q.name, q.req, q.obj, bad)
			if c.R.Bool() {
				b, e := ser.Serialize(resp)
				if e != nil {
					c.Skip("serialize")
				}
				_, err = session.Receive(b)
			} else {
				_, err = session.ReceiveMessage(resp)
			}
			c.Check(err == nil, "refused", "the response to %s %d that arrives as soon as its bytes are returned is refused: %v", q.name, q.req, err)
			c.Feat("responses at once")
			c.trace = append(c.trace, fmt.Sprint(order.Add(1), " ", q.name, " ", q.req))
			if bad {
				continue
			}
			switch q.name {
			case "REGISTER":
				_, err = session.ReceiveMessage(messages.NewInvocation(q.req, q.obj, map[string]any{}, nil, nil))
			case "SUBSCRIBE":
				_, err = session.ReceiveMessage(messages.NewEvent(q.obj, 1, map[string]any{}, nil, nil))
			}
			c.Check(err == nil, "refused", "a message for what %s %d obtained is refused right after its confirmation: %v", q.name, q.req, err)
		}
	})
	c.join(cs)
	for _, t := range c.trace {
		c.Mix(t)
	}
}
