package main

import (
	"fmt"
	"strings"

	"github.com/xconnio/wampproto-go/messages"
)

func init() {
	register(&Prop{ID: "E03", Quick: 15000, Thoro: 500000, Case: e03,
		Rule: "scripted use of every feature announced in the HELLO and WELCOME bytes, by clients of random serializers under random schedules; distinct = different script",
		Assume: []string{"a feature that is not announced need not be honoured", "the router handles one message at a time and sends what it yields in that order",
			"how a call is cancelled is not prescribed: an INTERRUPT to the callee or an ERROR to the caller, according to the mode"},
		Need: map[string]int64{"publisher exclusion": 500, "chunks": 500, "results between chunks": 500, "progressive results": 500, "plain result": 200, "cancel": 300, "announced in HELLO": 5000, "announced in WELCOME": 5000}})
}

// announced tells whether a role announces a feature.
func announced(list []any, role, feature string) bool {
	if len(list) != 3 {
		return false
	}
	d, _ := list[2].(map[string]any)
	roles, _ := d["roles"].(map[string]any)
	r, _ := roles[role].(map[string]any)
	f, _ := r["features"].(map[string]any)
	v, _ := f[feature].(bool)
	return v
}

// announces checks that a handshake message announces what its sender can do; nobody uses what is not announced.
func announces(c *C, nd *enode, msg string, list []any, what ...string) {
	for _, w := range what {
		role, feature, _ := strings.Cut(w, " ")
		d, _ := list[2].(map[string]any)
		roles, _ := d["roles"].(map[string]any)
		_, ok := roles[role].(map[string]any)
		c.Check(ok, "roles", "the %s of %s does not announce the role %s: %s", msg, nd, role, show(list))
		c.Check(feature == "" || announced(list, role, feature), "features", "the %s of %s does not announce %s of the %s: %s", msg, nd, feature, role, show(list))
	}
	c.Feat("announced in " + msg)
}

// delivered is a message of the router and whether the session of the client rejected it.
type delivered struct {
	to  *enode
	msg messages.Message
	err error
}

// flow delivers everything in random order; what the joined clients receive is returned rather than judged.
func (n *enet) flow() []delivered {
	var l []delivered
	for {
		nd := n.with(func(nd *enode) bool { return !nd.up.empty() || !nd.down.empty() })
		if nd == nil {
			return l
		}
		if !nd.up.empty() && (nd.down.empty() || n.r.Bool()) {
			data := nd.up.move(n.c, n.r.Bool())
			if data == nil {
				continue
			}
			if !nd.attached {
				n.routerReceives(nd, data)
				continue
			}
			n.raw(nd, data)
			continue
		}
		data := nd.down.move(n.c, n.r.Bool())
		if data == nil {
			continue
		}
		if nd.state == eJoining {
			n.clientReceives(nd, data)
			continue
		}
		m, err := nd.sess.Receive(data)
		if err == nil {
			n.c.Logf("%s receives %s", nd, typeName(m))
		} else {
			n.c.Logf("%s rejects: %v", nd, err)
			m, _ = nd.ser.Deserialize(data)
		}
		l = append(l, delivered{nd, m, err})
	}
}

// raw hands a message to the dealer or broker without judging what comes of it.
func (n *enet) raw(nd *enode, data []byte) {
	c := n.c
	msg, err := nd.ser.Deserialize(data)
	if err != nil {
		c.Skip("M01: undecodable " + err.Error())
	}
	c.Logf("router: %s from %s", typeName(msg), nd)
	switch m := msg.(type) {
	case *messages.Publish:
		res, err := n.broker.ReceivePublish(nd.id, m)
		if err != nil {
			c.Skip("broker refuses " + typeName(msg))
		}
		for _, id := range res.Recipients {
			n.emitTo(n.byID[id], res.Event)
		}
		if res.Ack != nil {
			n.emit(res.Ack)
		}
	case *messages.Subscribe, *messages.Unsubscribe:
		out, err := n.broker.ReceiveMessage(nd.id, msg)
		if err != nil {
			c.Skip("broker refuses " + typeName(msg))
		}
		n.emit(out)
	default:
		out, err := n.dealer.ReceiveMessage(nd.id, msg)
		if err != nil {
			if _, ok := msg.(*messages.Cancel); ok {
				n.refusals++
				c.Report("cancel-refused", "the router announces call_canceling, but its dealer refuses CANCEL: %v", err)
				return
			}
			c.Fail("refused", "the dealer refuses %s of %s: %v", typeName(msg), nd, err)
		}
		n.emit(out)
	}
}

func e03(c *C) {
	r := c.R
	n := newEnet(c, true)
	if len(n.kinds) < 3 {
		n.kinds = append(n.kinds, r.Intn(3))
	}
	for i := 2 + r.Intn(4); i > 0; i-- {
		n.join()
	}
	n.flow()
	var l []*enode
	for _, nd := range n.nodes {
		if joined(nd) {
			l = append(l, nd)
		}
	}
	for _, nd := range l {
		announces(c, nd, "WELCOME", nd.welcome, "broker publisher_exclusion", "dealer progressive_call_invocations")
		announces(c, nd, "HELLO", nd.hello, "caller progressive_call_invocations", "callee progressive_call_invocations", "callee progressive_call_results",
			"publisher publisher_exclusion", "subscriber")
	}
	if len(l) < 2 {
		c.Feat("too few joined")
		return
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		shuffle(r, l)
		n.others(l)
		switch r.Intn(4) {
		case 0:
			n.exclusion(l)
		case 1:
			n.chunked(l)
		case 2:
			n.progressive(l)
		case 3:
			n.cancelling(l)
		}
	}
}

func (n *enet) subscribeAll(l []*enode, topic string, o map[string]any) map[*enode]bool {
	in := map[*enode]bool{}
	for i, nd := range l {
		if i == 0 || n.r.P(70) {
			n.send(nd, messages.NewSubscribe(nd.ids.NextID(), o, topic))
			in[nd] = true
		}
	}
	for _, d := range n.flow() {
		if _, ok := d.msg.(*messages.Subscribed); !ok || d.err != nil {
			n.c.Skip("B03: subscribing")
		}
	}
	return in
}

// exclusion: the publisher of an event does not receive it, unless it asks to with exclude_me=false.
func (n *enet) exclusion(l []*enode) {
	c, r := n.c, n.r
	token := n.token()
	topic := "excl." + token + ".x"
	pattern, match := topic, pick(r, []string{"", exact, prefix, wildcard})
	switch match {
	case prefix:
		pattern = "excl." + token + "."
	case wildcard:
		pattern = "excl." + token + ".*"
	}
	so := map[string]any{}
	if match != "" {
		so["match"] = match
	}
	in := n.subscribeAll(l, pattern, so)
	for i := 1 + r.Intn(4); i > 0; i-- {
		p := pick(r, l)
		if !announced(p.welcome, "broker", "publisher_exclusion") || !announced(p.hello, "publisher", "publisher_exclusion") {
			c.Feat("publisher_exclusion is not announced")
			return
		}
		o := map[string]any{}
		me := false
		switch r.Intn(3) {
		case 0:
			o["exclude_me"] = true
		case 1:
			o["exclude_me"] = false
			me = in[p]
		}
		if r.Bool() {
			o["acknowledge"] = r.Bool()
		}
		spice(r, o)
		c.Mix("exclusion", p.i, match, fmt.Sprint(o))
		n.send(p, messages.NewPublish(p.ids.NextID(), o, topic, []any{"e"}, nil))
		got := map[*enode]int{}
		for _, d := range n.flow() {
			if _, ok := d.msg.(*messages.Event); ok && d.err == nil {
				got[d.to]++
			}
		}
		c.Feat("publisher exclusion")
		for _, nd := range l {
			want := 0
			if in[nd] && (nd != p || me) {
				want = 1
			}
			c.Check(got[nd] == want, "publisher exclusion", "%s (subscribed: %v) receives %d events of %s with options %v", nd, in[nd], got[nd], p, o)
		}
	}
}

// provide makes a procedure with one or several callees.
func (n *enet) provide(callees []*enode, policy string) (proc string) {
	proc = "proc." + n.token()
	for _, nd := range callees {
		n.send(nd, messages.NewRegister(nd.ids.NextID(), map[string]any{"invoke": policy}, proc))
		for _, d := range n.flow() {
			if _, ok := d.msg.(*messages.Registered); !ok || d.err != nil {
				n.c.Skip("D03: registering")
			}
		}
	}
	return proc
}

func (n *enet) someCallees(l []*enode) ([]*enode, string) {
	k := 1
	policy := "single"
	if n.r.Bool() {
		k = 1 + n.r.Intn(len(l))
		policy = pick(n.r, []string{"first", "last", "roundrobin", "random"})
	}
	return l[len(l)-k:], policy
}

// chunked: all chunks of a call reach the same callee in one invocation, in order, marked as long as more follow.
func (n *enet) chunked(l []*enode) {
	c, r := n.c, n.r
	callees, policy := n.someCallees(l)
	caller := pick(r, l)
	for _, e := range callees {
		if !announced(caller.welcome, "dealer", "progressive_call_invocations") || !announced(caller.hello, "caller", "progressive_call_invocations") || !announced(e.hello, "callee", "progressive_call_invocations") {
			c.Feat("progressive_call_invocations is not announced")
			return
		}
	}
	proc := n.provide(callees, policy)
	req := caller.ids.NextID()
	var first *delivered
	chunks := 2 + r.Intn(5)
	receive := r.Bool()
	results := receive // whether the callees may use it
	for _, e := range callees {
		results = results && announced(e.hello, "callee", "progressive_call_results")
	}
	seen := 0
	c.Mix("chunks", chunks, len(callees), policy)
	sent, back := 0, 0 // progressive results
	look := func(l []delivered) {
		for i := range l {
			d := l[i]
			if m, ok := d.msg.(*messages.Result); ok {
				more, _ := m.Details()["progress"].(bool)
				c.Check(d.err == nil && d.to == caller && m.RequestID() == req && more && len(m.Args()) == 1 && equalValues(m.Args()[0], back), "chunks", "%s gets result %d %s (progress=%v, %v) instead of progressive result %d", d.to, m.RequestID(), show(m.Args()), more, d.err, back)
				back++
				continue
			}
			m, ok := d.msg.(*messages.Invocation)
			c.Check(ok && d.err == nil, "chunks", "%s gets %s (%v) instead of chunk %d", d.to, typeName(d.msg), d.err, seen)
			if first == nil {
				first = &l[i]
			}
			f := first.msg.(*messages.Invocation)
			c.Check(d.to == first.to && m.RequestID() == f.RequestID() && m.RegistrationID() == f.RegistrationID(), "chunks", "chunk %d goes to %s as invocation %d, the first went to %s as %d", seen, d.to, m.RequestID(), first.to, f.RequestID())
			c.Check(len(m.Args()) == 1 && equalValues(m.Args()[0], seen), "chunks", "%s gets %s instead of chunk %d", d.to, show(m.Args()), seen)
			told, _ := m.Details()["receive_progress"].(bool)
			c.Check(told == receive, "chunks", "the caller says receive_progress=%v, the callee is told %v", receive, told)
			more, _ := m.Details()["progress"].(bool)
			c.Check(more == (seen < chunks-1), "chunks", "chunk %d of %d has progress=%v", seen, chunks, more)
			seen++
		}
	}
	for i := 0; i < chunks; i++ {
		o := map[string]any{}
		if i < chunks-1 {
			o["progress"] = true
		}
		if receive {
			o["receive_progress"] = true
		}
		n.send(caller, messages.NewCall(req, o, proc, []any{i}, nil))
		if r.Bool() {
			look(n.flow())
		}
		if results && first != nil && r.P(40) { // the callee answers while chunks arrive
			c.Feat("results between chunks")
			n.send(first.to, messages.NewYield(first.msg.(*messages.Invocation).RequestID(), map[string]any{"progress": true}, []any{sent}, nil))
			sent++
			if r.Bool() {
				look(n.flow())
			}
		}
		if r.P(20) && len(callees) > 1 { // another call in between moves the choice of the callee on
			look(n.flow())
			other := pick(r, l)
			n.send(other, messages.NewCall(other.ids.NextID(), nil, proc, nil, nil))
			for _, d := range n.flow() {
				if _, ok := d.msg.(*messages.Invocation); !ok || d.err != nil {
					c.Skip("D01: call")
				}
			}
		}
	}
	look(n.flow())
	c.Check(seen == chunks && back == sent, "chunks", "%d of %d chunks and %d of %d progressive results arrive", seen, chunks, back, sent)
	n.send(first.to, messages.NewYield(first.msg.(*messages.Invocation).RequestID(), nil, []any{"end"}, nil))
	n.ends(caller, req, "end")
	c.Feat("chunks")
}

// ends checks that the next thing is the result of a call.
func (n *enet) ends(caller *enode, req uint64, what string) {
	c := n.c
	l := n.flow()
	c.Check(len(l) == 1 && l[0].to == caller && l[0].err == nil, "result", "%d messages instead of the result", len(l))
	m, ok := l[0].msg.(*messages.Result)
	c.Check(ok, "result", "%s instead of the result", typeName(l[0].msg))
	more, _ := m.Details()["progress"].(bool)
	c.Check(m.RequestID() == req && !more && len(m.Args()) == 1 && m.Args()[0] == what, "result", "the result is %d %s, progress=%v", m.RequestID(), show(m.Args()), more)
}

// progressive: a callee that is told so may send several results, which reach the caller in order, marked until the last.
func (n *enet) progressive(l []*enode) {
	c, r := n.c, n.r
	callees, policy := n.someCallees(l)
	caller := pick(r, l)
	for _, e := range callees {
		if !announced(e.hello, "callee", "progressive_call_results") {
			c.Feat("progressive_call_results is not announced")
			return
		}
	}
	proc := n.provide(callees, policy)
	req := caller.ids.NextID()
	ask := r.P(75)
	o := map[string]any{}
	if ask {
		o["receive_progress"] = true
	} else if r.Bool() {
		o["receive_progress"] = false
	}
	n.send(caller, messages.NewCall(req, o, proc, nil, nil))
	got := n.flow()
	c.Check(len(got) == 1 && got[0].err == nil, "invocation", "a call makes %d messages", len(got))
	inv, ok := got[0].msg.(*messages.Invocation)
	c.Check(ok, "invocation", "a call makes %s", typeName(got[0].msg))
	told, _ := inv.Details()["receive_progress"].(bool)
	c.Check(told == ask, "receive_progress", "the caller says receive_progress=%v, the callee is told %v", ask, told)
	callee := got[0].to
	results := 0
	if ask {
		results = r.Intn(6)
	}
	c.Mix("progressive", results, len(callees), policy, ask)
	seen := 0
	look := func(l []delivered) {
		for _, d := range l {
			m, ok := d.msg.(*messages.Result)
			c.Check(ok && d.to == caller && d.err == nil && m.RequestID() == req, "progressive results", "%s gets %s (%v) instead of a progressive result", d.to, typeName(d.msg), d.err)
			more, _ := m.Details()["progress"].(bool)
			c.Check(more, "progressive results", "progressive result %d is not marked as such", seen)
			c.Check(len(m.Args()) == 1 && equalValues(m.Args()[0], seen), "progressive results", "%s instead of progressive result %d", show(m.Args()), seen)
			seen++
		}
	}
	for i := 0; i < results; i++ {
		n.send(callee, messages.NewYield(inv.RequestID(), map[string]any{"progress": true}, []any{i}, nil))
		if r.Bool() {
			look(n.flow())
		}
	}
	look(n.flow())
	c.Check(seen == results, "progressive results", "%d of %d progressive results arrive", seen, results)
	n.send(callee, messages.NewYield(inv.RequestID(), nil, []any{"end"}, nil))
	n.ends(caller, req, "end")
	if ask {
		c.Feat("progressive results")
	} else {
		c.Feat("plain result")
	}
}

// cancelling: CANCEL interrupts the callee or ends the call at the caller, according to its mode.
func (n *enet) cancelling(l []*enode) {
	c, r := n.c, n.r
	caller, callee := l[0], l[len(l)-1]
	router, client := announced(caller.welcome, "dealer", "call_canceling"), announced(callee.hello, "callee", "call_canceling")
	if !router && !client {
		c.Feat("call_canceling is not announced")
		return
	}
	proc := n.provide([]*enode{callee}, "single")
	req := caller.ids.NextID()
	n.send(caller, messages.NewCall(req, nil, proc, nil, nil))
	got := n.flow()
	if len(got) != 1 || got[0].err != nil {
		c.Skip("D01: call")
	}
	inv, ok := got[0].msg.(*messages.Invocation)
	if !ok {
		c.Skip("D01: call")
	}
	mode := pick(r, []string{"skip", "kill", "killnowait"})
	c.Mix("cancel", mode)
	c.Feat("cancel")
	if client {
		// the callee must take the interruption of its invocation
		if _, err := callee.sess.ReceiveMessage(messages.NewInterrupt(inv.RequestID(), map[string]any{"mode": mode})); err != nil {
			c.Report("interrupt-refused", "the client announces call_canceling as a callee, but its Session refuses INTERRUPT: %v", err)
		}
	}
	if !router {
		return
	}
	cancel := messages.NewCancel(req, map[string]any{"mode": mode})
	data, err := caller.sess.SendMessage(cancel)
	if err != nil {
		c.Report("cancel-unsendable", "the router announces call_canceling, but Session cannot send CANCEL: %v", err)
		if data, err = serializerOf(caller.kind).Serialize(cancel); err != nil {
			c.Skip("M01: CANCEL")
		}
	}
	caller.up.put(data)
	before := n.refusals
	answers := n.flow()
	if n.refusals > before {
		return
	}
	interrupted, ended := 0, 0
	for _, d := range answers {
		switch m := d.msg.(type) {
		case *messages.Interrupt:
			c.Check(d.to == callee && m.RequestID() == inv.RequestID(), "cancel", "INTERRUPT %d goes to %s instead of %d to %s", m.RequestID(), d.to, inv.RequestID(), callee)
			interrupted++
		case *messages.Error:
			c.Check(d.to == caller && m.RequestID() == req && m.MessageType() == messages.MessageTypeCall, "cancel", "ERROR for %d goes to %s", m.RequestID(), d.to)
			ended++
		default:
			c.Fail("cancel", "CANCEL makes %s to %s", typeName(d.msg), d.to)
		}
	}
	c.Check(interrupted <= 1 && ended <= 1 && interrupted+ended > 0, "cancel", "CANCEL with mode %s makes %d INTERRUPT and %d ERROR messages", mode, interrupted, ended)
	c.Check(mode != "skip" || ended == 1 && interrupted == 0, "cancel", "CANCEL with mode skip makes %d INTERRUPT and %d ERROR messages", interrupted, ended)
	c.Check(mode != "kill" || ended == 0 && interrupted == 1, "cancel", "CANCEL with mode kill makes %d INTERRUPT and %d ERROR messages", interrupted, ended)
	if mode == "kill" {
		n.send(callee, messages.NewError(messages.MessageTypeInvocation, inv.RequestID(), nil, "wamp.error.canceled", nil, nil))
		l := n.flow()
		c.Check(len(l) == 1 && l[0].to == caller && l[0].err == nil, "cancel", "the error of the interrupted callee does not end the call")
	}
	c.Feat("cancelled " + mode)
}

// metaProcedures are what a router that announces these features must be able to call.
var metaProcedures = []struct {
	role, feature, proc string
}{
	{"broker", "session_meta_api", "wamp.session.count"},
	{"dealer", "session_meta_api", "wamp.session.count"},
	{"dealer", "registration_meta_api", "wamp.registration.list"},
	{"broker", "subscription_meta_api", "wamp.subscription.list"},
	{"dealer", "testament_meta_api", "wamp.session.flush_testaments"},
	{"broker", "event_history", "wamp.subscription.get_events"},
	{"dealer", "procedure_reflection", "wamp.reflection.procedure.list"},
	{"broker", "topic_reflection", "wamp.reflection.topic.list"},
}

// others uses what WELCOME announces beyond the features above; what is not announced is not used.
func (n *enet) others(l []*enode) {
	c, r := n.c, n.r
	if len(l) < 2 {
		return
	}
	shuffle(r, l)
	a, b := l[0], l[1]
	has := func(role, feature string) bool {
		ok := announced(a.welcome, role, feature)
		if ok {
			c.Feat("announced: " + feature)
		}
		return ok
	}
	// event publishes and tells who received it
	event := func(o map[string]any, topic string) map[*enode]*messages.Event {
		n.send(a, messages.NewPublish(a.ids.NextID(), o, topic, []any{"e"}, nil))
		got := map[*enode]*messages.Event{}
		for _, d := range n.flow() {
			if m, ok := d.msg.(*messages.Event); ok && d.err == nil {
				got[d.to] = m
			}
		}
		return got
	}
	for _, v := range []struct {
		option   string
		eligible bool
	}{{"exclude", false}, {"eligible", true}} {
		if !has("broker", "subscriber_blackwhite_listing") {
			break
		}
		topic := "list." + n.token()
		n.subscribeAll(l, topic, nil)
		n.subscribeAll([]*enode{b}, topic, nil)
		got := event(map[string]any{v.option: []any{int64(b.id)}}, topic)
		for nd := range got {
			c.Check((nd == b) == v.eligible, "listing", "the broker announces subscriber_blackwhite_listing, but with %s=[%d] session %d receives the event", v.option, b.id, nd.id)
		}
		c.Check(!v.eligible || got[b] != nil, "listing", "the only eligible session %d does not receive the event", b.id)
	}
	if has("broker", "publisher_identification") {
		topic := "ident." + n.token()
		n.subscribeAll([]*enode{b}, topic, nil)
		got := event(map[string]any{"disclose_me": true}, topic)
		c.Check(got[b] != nil && equalValues(got[b].Details()["publisher"], int64(a.id)), "identification", "the broker announces publisher_identification, but the publisher %d is not disclosed", a.id)
	}
	for _, v := range []struct {
		match, pattern string
	}{{prefix, "."}, {wildcard, ".*"}} {
		if has("broker", "pattern_based_subscription") {
			topic := "pat." + n.token()
			n.subscribeAll([]*enode{b}, topic+v.pattern, map[string]any{"match": v.match})
			c.Check(event(nil, topic+".x")[b] != nil, "pattern", "the broker announces pattern_based_subscription, but a %s subscription gets no event", v.match)
		}
		if has("dealer", "pattern_based_registration") {
			proc := "pat." + n.token()
			n.send(b, messages.NewRegister(b.ids.NextID(), map[string]any{"match": v.match}, proc+v.pattern))
			n.flow()
			inv, _ := n.callOnce(a, nil, proc+".x")
			c.Check(inv != nil, "pattern", "the dealer announces pattern_based_registration, but a %s registration is not called", v.match)
		}
	}
	if has("dealer", "caller_identification") {
		proc := n.provide([]*enode{b}, "single")
		inv, _ := n.callOnce(a, map[string]any{"disclose_me": true}, proc)
		c.Check(inv != nil && equalValues(inv.Details()["caller"], int64(a.id)), "identification", "the dealer announces caller_identification, but the caller %d is not disclosed", a.id)
	}
	if has("dealer", "shared_registration") {
		proc := n.provide([]*enode{a, b}, "roundrobin")
		_, x := n.callOnce(a, nil, proc)
		_, y := n.callOnce(a, nil, proc)
		c.Check(x != nil && y != nil && x != y, "shared", "the dealer announces shared_registration, but two calls of a round-robin procedure do not reach both callees")
	}
	if has("dealer", "progressive_call_results") {
		n.progressive(l)
	}
	for _, v := range metaProcedures {
		if !has(v.role, v.feature) {
			continue
		}
		n.send(a, messages.NewCall(a.ids.NextID(), nil, v.proc, nil, nil))
		for _, d := range n.flow() {
			if m, ok := d.msg.(*messages.Error); ok {
				c.Check(m.URI() != "wamp.error.no_such_procedure", "meta", "the router announces %s, but there is no %s", v.feature, v.proc)
			}
		}
	}
	if has("broker", "event_retention") {
		topic := "keep." + n.token()
		event(map[string]any{"retain": true}, topic)
		n.send(b, messages.NewSubscribe(b.ids.NextID(), map[string]any{"get_retained": true}, topic))
		kept := false
		for _, d := range n.flow() {
			_, ok := d.msg.(*messages.Event)
			kept = kept || ok && d.to == b
		}
		c.Check(kept, "retention", "the broker announces event_retention, but a retained event is not delivered")
	}
	if f := "call_canceling"; announced(a.hello, "caller", f) {
		_, err := a.sess.SendMessage(messages.NewCancel(a.ids.NextID(), nil))
		c.Check(err == nil, "canceling caller", "the client announces %s as a caller, but its Session cannot send CANCEL: %v", f, err)
	}
	for _, role := range []string{"broker", "dealer"} {
		if !has(role, "payload_passthru_mode") {
			continue
		}
		o := map[string]any{"ppt_scheme": "x_custom", "ppt_serializer": "cbor"}
		if role == "broker" {
			topic := "ppt." + n.token()
			n.subscribeAll([]*enode{b}, topic, nil)
			got := event(o, topic)
			c.Check(got[b] != nil && got[b].Details()["ppt_scheme"] == "x_custom", "passthru", "the broker announces payload_passthru_mode, but EVENT does not tell ppt_scheme")
			continue
		}
		inv, _ := n.callOnce(a, o, n.provide([]*enode{b}, "single"))
		c.Check(inv != nil && inv.Details()["ppt_scheme"] == "x_custom", "passthru", "the dealer announces payload_passthru_mode, but INVOCATION does not tell ppt_scheme")
	}
}

// callOnce calls a procedure and tells which invocation of whom that makes; it is answered.
func (n *enet) callOnce(caller *enode, o map[string]any, proc string) (inv *messages.Invocation, to *enode) {
	n.send(caller, messages.NewCall(caller.ids.NextID(), o, proc, []any{"x"}, nil))
	for _, d := range n.flow() {
		if m, ok := d.msg.(*messages.Invocation); ok && d.err == nil {
			inv, to = m, d.to
		}
	}
	if inv != nil {
		n.send(to, messages.NewYield(inv.RequestID(), nil, nil, nil))
		n.flow()
	}
	return
}
