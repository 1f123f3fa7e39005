package main

import (
	"fmt"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

// Some histories are large: many subscriptions and registrations, long names, long calls, many open calls, many ids.

// apart makes n keys no two of which match the same URI; their names may be long and differ only at the end.
func apart(r *Rand, n int) []key {
	stem := pick(r, []string{"", "com.", "com." + strings.Repeat("long.", 1+r.Intn(300)), strings.Repeat("x", r.Intn(5000)) + "."})
	only := pick(r, []string{"", "", exact, prefix, wildcard})
	var l []key
	for i := 0; i < n; i++ {
		m := only
		if m == "" {
			m = pick(r, []string{exact, prefix, wildcard})
		}
		switch m {
		case exact:
			l = append(l, key{fmt.Sprintf("%se.%d", stem, i), m})
		case prefix:
			l = append(l, key{fmt.Sprintf("%sp.%d.", stem, i), m})
		case wildcard:
			l = append(l, key{fmt.Sprintf("%sw.%d.*.z", stem, i), m})
		}
	}
	shuffle(r, l)
	return l
}

func scaleOf(r *Rand) int { return pick(r, []int{30, 100, 300, 700}) }

// crowd: many subscriptions, most of them of few sessions.
func (s *bsim) crowd() {
	r, c := s.r, s.c
	c.Feat("crowd")
	keys := apart(r, scaleOf(r)+r.Intn(30))
	holder := pick(r, s.attached)
	for i, k := range keys {
		x := holder
		if r.P(30) {
			x = pick(r, s.attached)
		}
		s.subscribe(x, k)
		if r.P(10) {
			s.subscribe(pick(r, s.attached), keys[r.Intn(i+1)])
		}
	}
	sample := func(n int) {
		for ; n > 0; n-- {
			k := pick(r, keys)
			t := k.witness(r)
			if r.P(10) {
				t = k.nearMiss(r)
			}
			s.publish(pick(r, s.attached), t, s.genPubOpts())
		}
	}
	sample(100)
	for _, x := range append([]*bsess{}, s.attached...) {
		ids := map[uint64]bool{}
		for id := range x.subs {
			ids[id] = true
		}
		for _, id := range sortedIDs(ids) {
			if r.P(40) {
				s.unsubscribe(x, id)
			}
		}
	}
	sample(60)
	for i := 0; i < len(keys)/3; i++ {
		s.subscribe(pick(r, s.attached), pick(r, keys))
	}
	sample(60)
	s.flood(pick(r, []int{300, 3000, 20000, 70000}))
	sample(10)
}

// flood: very many publications and short subscriptions, of which only the ids are judged.
func (s *bsim) flood(n int) {
	r, c := s.r, s.c
	c.FeatN("flood", n)
	x, y := pick(r, s.attached), pick(r, s.attached)
	flip := r.Bool()
	// a subscription of its own, as looking through many patterns takes long
	s.subscribe(x, key{"flood.none", exact})
	for i := 0; i < n; i++ {
		if flip && i%2 == 0 {
			k := key{fmt.Sprintf("flood.%d", i), exact}
			out, err := s.b.ReceiveMessage(x.id, messages.NewSubscribe(1, nil, k.uri))
			c.Check(err == nil && out != nil, "flood", "SUBSCRIBE %d: %v", i, err)
			sub, ok := out.Message.(*messages.Subscribed)
			c.Check(ok, "flood", "SUBSCRIBE answered with %T", out.Message)
			if s.is("B03") {
				o, known := s.idKey[sub.SubscriptionID()]
				c.Check(!known || o == k, "different keys", "%q and %s %q both have subscription id %d", k.uri, o.match, o.uri, sub.SubscriptionID())
				s.idKey[sub.SubscriptionID()] = k
			}
			out, err = s.b.ReceiveMessage(x.id, messages.NewUnsubscribe(1, sub.SubscriptionID()))
			c.Check(err == nil && out != nil, "flood", "UNSUBSCRIBE %d: %v", i, err)
			continue
		}
		out, err := s.b.ReceivePublish(y.id, messages.NewPublish(1, map[string]any{"acknowledge": true}, "flood.none", nil, nil))
		c.Check(err == nil && out != nil, "flood", "PUBLISH %d: %v", i, err)
		if s.is("B04") {
			c.Check(out.Ack != nil && !nilMsg(out.Ack.Message), "no acknowledgement", "publication %d of many got none", i)
			p, ok := out.Ack.Message.(*messages.Published)
			c.Check(ok, "no acknowledgement", "acknowledged with %T", out.Ack.Message)
			c.Check(!s.pubIDs[p.PublicationID()], "publication id", "publication id %d was used before", p.PublicationID())
			s.pubIDs[p.PublicationID()] = true
		}
	}
	s.unsubscribe(x, s.alive[key{"flood.none", exact}])
}

// crowd: many registrations, many open calls, long calls.
func (s *dsim) crowd(policyPool []string) {
	r, c := s.r, s.c
	c.Feat("crowd")
	keys := apart(r, scaleOf(r)+r.Intn(30))
	holder := pick(r, s.attached)
	pol := pick(r, policyPool)
	for i, k := range keys {
		x := holder
		if r.P(30) {
			x = pick(r, s.attached)
		}
		s.register(x, k, pol)
		if r.P(10) {
			s.register(pick(r, s.attached), keys[r.Intn(i+1)], pol)
		}
	}
	calls := func(n int) {
		for ; n > 0; n-- {
			k := pick(r, keys)
			proc := k.witness(r)
			if r.P(5) {
				proc = k.nearMiss(r)
			}
			s.call(pick(r, s.attached), proc, nil, r.P(40), false)
		}
	}
	answers := func(upto int) {
		for len(s.open) > upto {
			k := pick(r, s.open)
			s.answer(k.callee, k, r.P(25), r.P(30))
		}
	}
	calls(pick(r, []int{50, 150, 400}))
	if s.is("D05") {
		for i := 0; i < 20; i++ {
			s.intrude()
		}
	}
	answers(20)
	for _, x := range append([]*dsess{}, s.attached...) {
		for _, g := range x.sortedRegs() {
			if r.P(40) {
				s.unregister(x, g)
			}
		}
	}
	calls(60)
	for i := 0; i < len(keys)/3; i++ {
		s.register(pick(r, s.attached), pick(r, keys), pol)
	}
	calls(60)
	if s.is("D04") {
		for i := 0; i < 20; i++ {
			s.late()
		}
	}
	answers(0)
	// one long call
	for try := 0; try < 50; try++ {
		k := s.call(pick(r, s.attached), pick(r, keys).witness(r), nil, true, true)
		if k == nil {
			continue
		}
		c.Feat("long call")
		for n := pick(r, []int{20, 100, 800, 3000}); n > 0; n-- {
			if r.Bool() {
				s.call(k.caller, k.proc, k, true, true)
			} else {
				s.answer(k.callee, k, false, true)
			}
		}
		s.call(k.caller, k.proc, k, true, false)
		s.answer(k.callee, k, r.P(20), false)
		break
	}
	s.flood(pick(r, []int{300, 3000, 20000, 70000}))
	s.openFlood(pick(r, []int{300, 3000, 10000, 70000}))
	calls(10)
	answers(0)
}

// flood: very many short calls, of which only the ids are judged.
func (s *dsim) flood(n int) {
	r, c := s.r, s.c
	x, y := pick(r, s.attached), pick(r, s.attached)
	out, err := s.d.ReceiveMessage(x.id, messages.NewRegister(1, nil, "flood.proc"))
	c.Check(err == nil && out != nil, "flood", "REGISTER: %v", err)
	reg, ok := out.Message.(*messages.Registered)
	c.Check(ok, "flood", "REGISTER answered with %T", out.Message)
	c.FeatN("flood", n)
	step := uint64(1 + r.Intn(5))
	for i := 0; i < n; i++ {
		req := uint64(1)<<40 + uint64(i)*step
		out, err := s.d.ReceiveMessage(y.id, messages.NewCall(req, nil, "flood.proc", nil, nil))
		c.Check(err == nil && out != nil, "flood", "CALL %d: %v", i, err)
		inv, ok := out.Message.(*messages.Invocation)
		c.Check(ok && out.Recipient == x.id, "flood", "CALL %d answered with %T to %d", i, out.Message, out.Recipient)
		if s.is("D04") || s.is("D07") {
			c.Check(!s.invIDs[inv.RequestID()], "invocation id", "invocation id %d is used again for another call", inv.RequestID())
			s.invIDs[inv.RequestID()] = true
		}
		out, err = s.d.ReceiveMessage(x.id, messages.NewYield(inv.RequestID(), nil, nil, nil))
		c.Check(err == nil && out != nil, "flood", "YIELD %d: %v", i, err)
		res, ok := out.Message.(*messages.Result)
		if s.is("D04") || s.is("D05") || s.is("D07") {
			c.Check(ok && out.Recipient == y.id && res.RequestID() == req, "flood", "YIELD for call %d of session %d: %T to %d", req, y.id, out.Message, out.Recipient)
		}
	}
	_, err = s.d.ReceiveMessage(x.id, messages.NewUnregister(1, reg.RegistrationID()))
	c.Check(err == nil, "flood", "UNREGISTER: %v", err)
}

// openFlood: very many calls that are open at the same time.
func (s *dsim) openFlood(n int) {
	r, c := s.r, s.c
	x := pick(r, s.attached)
	for _, k := range append([]*dcall{}, s.open...) {
		s.answer(k.callee, k, false, false)
	}
	out, err := s.d.ReceiveMessage(x.id, messages.NewRegister(1, nil, "flood.open"))
	c.Check(err == nil && out != nil, "flood", "REGISTER: %v", err)
	reg, ok := out.Message.(*messages.Registered)
	c.Check(ok, "flood", "REGISTER answered with %T", out.Message)
	c.FeatN("open flood", n)
	type call struct{ caller, req, inv uint64 }
	more := r.Bool()
	opts := map[string]any{}
	if more {
		opts["progress"] = true
	}
	mine := s.is("D04") || s.is("D07")
	var open []call
	for req := uint64(1) << 41; len(open) < n; req++ {
		for _, y := range s.attached {
			out, err := s.d.ReceiveMessage(y.id, messages.NewCall(req, opts, "flood.open", nil, nil))
			c.Check(err == nil && out != nil, "flood", "CALL %d: %v", len(open), err)
			inv, ok := out.Message.(*messages.Invocation)
			c.Check(ok && out.Recipient == x.id, "flood", "CALL %d answered with %T to %d", len(open), out.Message, out.Recipient)
			if mine {
				c.Check(!s.invIDs[inv.RequestID()], "invocation id", "invocation id %d is used again for another call", inv.RequestID())
				s.invIDs[inv.RequestID()] = true
			}
			open = append(open, call{y.id, req, inv.RequestID()})
		}
	}
	shuffle(r, open)
	for _, k := range open {
		if more && s.is("D07") {
			out, err := s.d.ReceiveMessage(k.caller, messages.NewCall(k.req, nil, "flood.open", nil, nil))
			c.Check(err == nil && out != nil, "invocation", "chunk of call %d of session %d, one of %d: %v", k.req, k.caller, n, err)
			inv, ok := out.Message.(*messages.Invocation)
			c.Check(ok && out.Recipient == x.id && inv.RequestID() == k.inv, "invocation", "chunk of call %d of session %d, one of %d, does not belong to invocation %d", k.req, k.caller, n, k.inv)
		}
		out, err := s.d.ReceiveMessage(x.id, messages.NewYield(k.inv, nil, nil, nil))
		if !mine && !s.is("D10") {
			continue
		}
		c.Check(err == nil && out != nil, "lost", "the answer to call %d of session %d, one of %d that are open, is refused: %v", k.req, k.caller, n, err)
		res, ok := out.Message.(*messages.Result)
		c.Check(ok && out.Recipient == k.caller && res.RequestID() == k.req, "lost", "the answer to call %d of session %d is %T for %d", k.req, k.caller, out.Message, out.Recipient)
	}
	_, err = s.d.ReceiveMessage(x.id, messages.NewUnregister(1, reg.RegistrationID()))
	c.Check(err == nil, "flood", "UNREGISTER: %v", err)
}

// flood: very many outstanding requests and held objects, whose ids are apart from those used otherwise.
func (s *ssim) flood(n int) {
	r, c := s.r, s.c
	ser := serializerOf(s.kind)
	step := pick(r, []uint64{1, 1, 1 << 8, 1 << 16, 1 << 32})
	base := uint64(1) << 30
	if r.Bool() { // a session of its own, whose ids count up from 1
		base, step, s.s = 1, 1, wampproto.NewSession(ser)
	}
	c.FeatN("flood", n)
	send := func(name string, m messages.Message) {
		_, err := s.s.SendMessage(m)
		s.verdict("S03", err == nil, "flood", "%s is refused: %v", name, err)
	}
	receive := func(prop, name string, m messages.Message, accept bool) {
		var err error
		if r.Bool() {
			_, err = s.s.ReceiveMessage(m)
		} else {
			b, e := ser.Serialize(m)
			if e != nil {
				c.Skip("serialize")
			}
			_, err = s.s.Receive(b)
		}
		if accept {
			s.verdict(prop, err == nil, "refused", "%s is refused (%v) though it is expected, with %d requests of its kind", name, err, n)
		} else {
			s.verdict(prop, err != nil, "accepted", "%s is accepted though nothing like it is expected", name)
		}
	}
	order := make([]uint64, n)
	for i := range order {
		order[i] = base + uint64(i)*step
	}
	for _, id := range order {
		send("CALL", messages.NewCall(id, nil, "p", nil, nil))
		send("PUBLISH", messages.NewPublish(id, map[string]any{"acknowledge": true}, "t", nil, nil))
		send("REGISTER", messages.NewRegister(id, nil, "p"))
		send("SUBSCRIBE", messages.NewSubscribe(id, nil, "t"))
	}
	shuffle(r, order)
	// one of the calls has very many progressive results
	for i := 0; i < n; i++ {
		receive("S01", "progressive RESULT", messages.NewResult(order[n/2], map[string]any{"progress": true}, nil, nil), true)
	}
	for _, id := range order {
		receive("S01", "RESULT", messages.NewResult(id, nil, nil, nil), true)
		receive("S01", "PUBLISHED", messages.NewPublished(id, 5), true)
		receive("S01", "REGISTERED", messages.NewRegistered(id, id+1), true)
		receive("S01", "SUBSCRIBED", messages.NewSubscribed(id, id+2), true)
	}
	shuffle(r, order)
	for _, id := range order {
		receive("S01", "RESULT", messages.NewResult(id, nil, nil, nil), false)
		receive("S01", "PUBLISHED", messages.NewPublished(id, 5), false)
		receive("S02", "EVENT", messages.NewEvent(id+2, 1, nil, nil, nil), true)
		receive("S02", "INVOCATION", messages.NewInvocation(id, id+1, nil, nil, nil), true)
		send("UNREGISTER", messages.NewUnregister(id, id+1))
		send("UNSUBSCRIBE", messages.NewUnsubscribe(id, id+2))
	}
	shuffle(r, order)
	for _, id := range order {
		receive("S01", "UNREGISTERED", messages.NewUnregistered(id), true)
		receive("S01", "UNSUBSCRIBED", messages.NewUnsubscribed(id), true)
		receive("S02", "EVENT", messages.NewEvent(id+2, 1, nil, nil, nil), false)
		receive("S02", "INVOCATION", messages.NewInvocation(id, id+1, nil, nil, nil), false)
	}
}
