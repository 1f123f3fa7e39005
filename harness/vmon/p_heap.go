package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

// Monitors on the heap: a history that leaves nothing behind is repeated, with other ids and URIs each time, and
// the live heap may not grow with the number of repetitions.

func init() {
	rule := "random histories in which everything that begins also ends, each repeated >= 1564 times with fresh ids and URIs on one object while the live heap is measured; and histories that use ids again; distinct = different history"
	assume := []string{"growth below 2 bytes per repetition counts as none"}
	need := func(n map[string]int64) map[string]int64 { n["heap measured"] = 100; return n }
	register(&Prop{ID: "B08", Quick: 700, Thoro: 40000, Serial: true, Rule: rule, Assume: assume, Case: b08, Need: need(map[string]int64{
		"join": 50, "leave": 50, "subscribe exact": 50, "subscribe prefix": 50, "subscribe wildcard": 50, "unsubscribe": 50, "publish": 50, "rejected": 50, "used again": 100})})
	register(&Prop{ID: "D12", Quick: 700, Thoro: 40000, Serial: true, Rule: rule, Assume: assume, Case: d12, Need: need(map[string]int64{
		"join": 50, "leave": 50, "register exact": 50, "register prefix": 50, "register wildcard": 50, "unregister": 50, "call": 50, "chunk": 30,
		"answer result": 50, "answer error": 50, "answer progress": 30, "left with open call": 30, "rejected": 50, "used again": 100})})
	register(&Prop{ID: "S05", Quick: 350, Thoro: 30000, Serial: true, Rule: rule, Assume: assume, Case: s05, Need: need(map[string]int64{
		"call": 50, "call error": 20, "progressive call": 20, "registration": 50, "register error": 20, "unregister error": 10, "subscription": 50, "subscribe error": 20,
		"unsubscribe error": 10, "publish": 20, "acknowledged publish": 20, "publish error": 20, "invocation result": 20, "invocation error": 20, "invocation progress": 20,
		"failing send": 50, "wrong reception": 50})})
}

func liveHeap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// steady repeats round and fails the case if the heap grows with the repetitions.
func steady(c *C, what string, round func(i uint64)) {
	const eps = 2
	i := uint64(1)
	phase := func(n uint64) float64 {
		h := liveHeap()
		for end := i + n; i < end; i++ {
			round(i)
		}
		return float64(liveHeap()-h) / float64(n)
	}
	phase(64)
	c.Feat("heap measured")
	// A leak grows in every phase; growing maps that were used to their peak before, or buffers, do not.
	g := []float64{}
	for _, n := range []uint64{500, 1000, 4000, 12000} {
		x := phase(n)
		g = append(g, x)
		if x < eps {
			c.nchk++
			return
		}
		c.Feat("measured again")
	}
	c.Check(false, "leak", "the heap grows with the number of past %s: %.1f bytes for each of them (%v)", what, g[len(g)-1], g)
}

// hop is one step of a history on a dealer or a broker.
type hop struct {
	op      string
	s, t, n int
	match   string
	policy  string
	a, b    bool
	x       hopExtra
}

// hopExtra is what a message has besides what matters here; it is the same in every round.
type hopExtra struct {
	opts   map[string]any
	args   []any
	kw     map[string]any
	uri    string
	binary bool
}

func genHopExtra(r *Rand) hopExtra {
	x := hopExtra{uri: pick(r, []string{"a.b", "a.b", "wamp.error.canceled", "wamp.error.invalid_argument", "", "Com.Error", "x y"}), args: heapArgs(r), kw: heapKw(r), binary: r.P(10)}
	x.opts = spice(r, nil)
	return x
}

func heapArgs(r *Rand) []any {
	if r.P(10) {
		return largeList(pick(r, []int{3, 5, 10, 20, 100}))
	}
	return pick(r, [][]any{nil, nil, {}, {1}, {"a", 2.5}, {nil}, {[]any{1, 2}, map[string]any{"a": nil}, true}})
}

func heapKw(r *Rand) map[string]any {
	if r.P(5) {
		return largeMap(pick(r, []int{3, 5, 10, 20, 100}))
	}
	return pick(r, []map[string]any{nil, nil, {}, {"a": 1}, {"": nil}})
}

// options makes the options of a message.
func (x hopExtra) options(o map[string]any) map[string]any {
	for k, v := range x.opts {
		if _, ok := o[k]; !ok {
			o[k] = v
		}
	}
	return o
}

func (h hop) String() string {
	return fmt.Sprintf("%s s%d t%d n%d %s %s %v %v", h.op, h.s, h.t, h.n, h.match, h.policy, h.a, h.b)
}

const hslots = 6 // the first two sessions stay

type hopen struct {
	inv, req       uint64
	caller, callee int
	more, receive  bool
	uri            string
}

type hdealer struct {
	d     *wampproto.Dealer
	ids   [hslots]uint64
	on    [hslots]bool
	regs  [hslots][]uint64
	open  []hopen
	round uint64
	req   uint64
	feat  func(string)
	keep  [hslots][]uint64
}

func (v *hdealer) join(s int) {
	details := wampproto.NewSessionDetails(v.ids[s], "realm", "authid", "role", "anonymous", s&1 == 0, nil, nil)
	if v.d.AddSession(details) == nil {
		v.on[s] = true
	}
}

func (v *hdealer) uri(n int) string {
	if n == 0 {
		return "keep.a"
	}
	return fmt.Sprintf("r%d.%c", v.round, 'a'+n)
}

func (v *hdealer) pattern(n int, match string) string {
	u := v.uri(n)
	switch match {
	case prefix:
		return u[:len(u)-1]
	case wildcard:
		return u[:len(u)-1] + "*"
	}
	return u
}

func (v *hdealer) send(s int, m messages.Message) messages.Message {
	out, err := v.d.ReceiveMessage(v.ids[s], m)
	if err != nil || out == nil {
		v.feat("rejected")
		return nil
	}
	return out.Message
}

func (v *hdealer) step(h hop) {
	switch h.op {
	case "join":
		if !v.on[h.s] {
			v.feat("join")
			v.join(h.s)
		}
	case "leave":
		if v.on[h.s] && h.s > 1 {
			v.feat("leave")
			v.leave(h.s)
		}
	case "register":
		if m, ok := v.send(h.s, messages.NewRegister(v.next(), map[string]any{"match": h.match, "invoke": h.policy}, v.pattern(h.n, h.match))).(*messages.Registered); ok {
			v.feat("register " + h.match)
			v.regs[h.s] = append(v.regs[h.s], m.RegistrationID())
		}
	case "unregister":
		for k := 0; k < hslots && len(v.regs[h.s]) == 0; k++ {
			h.s = (h.s + 1) % hslots
		}
		if l := v.regs[h.s]; len(l) > 0 {
			i := h.n % len(l)
			if v.send(h.s, messages.NewUnregister(v.next(), l[i])) != nil {
				v.feat("unregister")
			}
			v.regs[h.s] = append(l[:i], l[i+1:]...)
		}
	case "call":
		o := map[string]any{}
		if h.a {
			o["progress"] = true
		}
		if h.b {
			o["receive_progress"] = true
		}
		if h.x.binary {
			v.call(h.s, messages.NewCallBinary(v.next(), h.x.options(o), v.uri(h.n), []byte("data"), 1), h.a)
		} else {
			v.call(h.s, messages.NewCall(v.next(), h.x.options(o), v.uri(h.n), h.x.args, h.x.kw), h.a)
		}
	case "chunk":
		for i := range v.open {
			if o := &v.open[(i+h.n)%len(v.open)]; o.more {
				v.feat("chunk")
				o.more = false
				v.call(o.caller, messages.NewCall(o.req, h.x.options(map[string]any{"progress": h.a, "receive_progress": o.receive}), o.uri, h.x.args, h.x.kw), h.a)
				break
			}
		}
	case "answer":
		if len(v.open) > 0 {
			i := h.n % len(v.open)
			v.feat("answer " + h.policy)
			v.answer(v.open[i], h.policy, h.x)
			if h.policy != "progress" {
				v.open = append(v.open[:i], v.open[i+1:]...)
			}
		}
	case "wrong":
		switch h.n % 8 {
		case 0:
			v.send(h.s, messages.NewYield(1<<52+v.next(), nil, nil, nil))
		case 1:
			v.send(h.s, messages.NewError(messages.MessageTypeInvocation, 1<<52+v.next(), nil, "x.y", nil, nil))
		case 2:
			v.send(h.s, messages.NewUnregister(v.next(), 1<<52+v.round))
		case 3:
			v.send(h.s, messages.NewSubscribe(v.next(), nil, v.uri(h.t)))
		case 4:
			v.join(h.s)
		case 5:
			v.d.RemoveSession(1<<52 + v.round)
		case 6:
			v.d.ReceiveMessage(1<<52+v.round, messages.NewRegister(v.next(), nil, fmt.Sprintf("w%d.x", v.round)))
			v.d.ReceiveMessage(1<<52+v.round, messages.NewCall(v.next(), nil, "keep.a", nil, nil))
		case 7:
			v.d.HasProcedure(fmt.Sprintf("w%d.x", v.round))
			v.send(h.s, messages.NewCall(v.next(), nil, fmt.Sprintf("w%d.x", v.round), nil, nil))
		}
	}
}

func (v *hdealer) call(s int, m *messages.Call, more bool) {
	out, err := v.d.ReceiveMessage(v.ids[s], m)
	if err != nil || out == nil {
		v.feat("rejected")
		return
	}
	inv, ok := out.Message.(*messages.Invocation)
	if !ok {
		v.feat("no invocation")
		return
	}
	for i := range v.open {
		if o := &v.open[i]; o.inv == inv.RequestID() {
			o.more = more
			return
		}
	}
	v.feat("call")
	o := hopen{inv: inv.RequestID(), req: m.RequestID(), caller: s, callee: -1, more: more, uri: m.Procedure()}
	o.receive, _ = m.Options()["receive_progress"].(bool)
	for t := range v.ids {
		if v.on[t] && v.ids[t] == out.Recipient {
			o.callee = t
		}
	}
	v.open = append(v.open, o)
}

func (v *hdealer) next() uint64 { v.req++; return v.req }

func (v *hdealer) leave(s int) {
	for _, o := range v.open {
		if o.caller == s || o.callee == s {
			v.feat("left with open call")
		}
	}
	v.d.RemoveSession(v.ids[s])
	v.on[s], v.regs[s] = false, nil
}

func (v *hdealer) answer(o hopen, kind string, x hopExtra) {
	if o.callee < 0 {
		return
	}
	var m messages.Message
	if kind != "error" {
		opts := x.options(map[string]any{})
		if kind == "progress" {
			opts["progress"] = true
		}
		if x.binary {
			m = messages.NewYieldBinary(o.inv, opts, []byte("data"), 2)
		} else {
			m = messages.NewYield(o.inv, opts, x.args, x.kw)
		}
	} else {
		m = messages.NewError(messages.MessageTypeInvocation, o.inv, x.options(map[string]any{}), x.uri, x.args, x.kw)
	}
	v.send(o.callee, m)
}

func genHops(r *Rand, ops []string, n int) []hop {
	l := make([]hop, n)
	for i := range l {
		l[i] = hop{op: pick(r, ops), s: r.Intn(hslots), t: r.Intn(hslots), n: r.Intn(4), a: r.P(40), b: r.P(40),
			match: pick(r, []string{exact, prefix, wildcard}), policy: pick(r, []string{"", "single", "first", "last", "roundrobin", "roundrobin", "roundrobin", "random"})}
		if l[i].op == "answer" {
			l[i].policy = pick(r, []string{"result", "result", "error", "progress"})
		}
		if l[i].x = genHopExtra(r); r.P(50) {
			l[i].x.opts = nil
		}
		if l[i].op == "wrong" {
			l[i].n = r.Intn(8)
		}
	}
	return l
}

// history generates operations that begin with joining sessions.
func history(c *C, ops []string) []hop {
	var l []hop
	for s := 2; s < hslots; s++ {
		if c.R.P(70) {
			l = append(l, hop{op: "join", s: s})
		}
	}
	l = append(l, genHops(c.R, ops, 2+c.R.Intn(24))...)
	for _, h := range l {
		c.Mix(h)
		c.Logf("%v", h)
	}
	return l
}

func once(c *C, i uint64) func(string) {
	if i == 1 {
		return c.Feat
	}
	return func(string) {}
}

func d12(c *C) {
	if c.Case%3 == 2 {
		d12again(c)
		return
	}
	ops := history(c, []string{"join", "leave", "register", "register", "register", "register", "unregister", "unregister", "call", "call", "call", "call", "chunk", "chunk",
		"answer", "answer", "answer", "wrong"})
	order := []int{2, 3, 4, 5}
	shuffle(c.R, order)
	rest := genHopExtra(c.R)
	settle := c.R.P(40) // answer everything before the sessions leave
	v := &hdealer{d: wampproto.NewDealer(), feat: func(string) {}}
	v.ids[0], v.ids[1] = 1, 2
	v.join(0)
	v.join(1)
	if c.R.Bool() {
		v.step(hop{op: "register", s: 0, n: 0, match: exact, policy: "roundrobin"})
		v.keep[0], v.regs[0] = v.regs[0], nil
	}
	if c.R.Bool() {
		v.d.AutoDiscloseCaller(true)
	}
	if c.R.P(25) { // others, who stay
		c.Feat("crowd")
		for n := 1 + c.R.Intn(60); n > 0; n-- {
			id := 1<<50 + uint64(n)
			if err := v.d.AddSession(wampproto.NewSessionDetails(id, "realm", "authid", "role", "anonymous", false, nil, nil)); err != nil {
				panic(err)
			}
			for k := c.R.Intn(3); k > 0; k-- {
				v.d.ReceiveMessage(id, messages.NewRegister(v.next(), map[string]any{"match": pick(c.R, []string{exact, prefix, wildcard}), "invoke": "roundrobin"}, fmt.Sprintf("crowd.%d", c.R.Intn(40))))
			}
		}
	}
	steady(c, "histories of sessions, registrations and calls", func(i uint64) {
		v.round, v.feat, v.open = i, once(c, i), v.open[:0]
		for s := 2; s < hslots; s++ {
			v.ids[s] = i<<4 + uint64(s)
		}
		for _, h := range ops {
			v.step(h)
		}
		if settle {
			for _, o := range v.open {
				v.answer(o, "error", rest)
				v.answer(o, "result", rest)
			}
		}
		for _, s := range order {
			if v.on[s] {
				v.leave(s)
			}
		}
		for _, o := range v.open {
			v.answer(o, "error", rest)
			v.answer(o, "result", rest)
		}
		for s := 0; s < 2; s++ {
			for _, id := range v.regs[s] {
				v.send(s, messages.NewUnregister(v.next(), id))
			}
			v.regs[s] = v.regs[s][:0]
		}
	})
}

// d12again: ids that are used again do not bring back what they stood for.
func d12again(c *C) {
	r := c.R
	d := wampproto.NewDealer()
	caller, callee, other := r.ID1(), r.ID1(), r.ID1()
	for callee == caller {
		callee = r.ID1()
	}
	for other == caller || other == callee {
		other = r.ID1()
	}
	join := func(id uint64) {
		err := d.AddSession(wampproto.NewSessionDetails(id, "realm", "a", "b", "anonymous", false, nil, nil))
		c.Check(err == nil, "again-join", "adding session %d (again): %v", id, err)
	}
	send := func(s uint64, m messages.Message) (messages.Message, uint64) {
		out, err := d.ReceiveMessage(s, m)
		if err != nil || out == nil {
			c.Logf("%d: %s -> %v", s, typeName(m), err)
			return nil, 0
		}
		c.Logf("%d: %s -> %s to %d", s, typeName(m), typeName(out.Message), out.Recipient)
		return out.Message, out.Recipient
	}
	match := pick(r, []string{exact, prefix, wildcard})
	uri := map[string]string{exact: "a.b", prefix: "a.", wildcard: "a.*"}[match]
	policy := pick(r, []string{"", "roundrobin", "first", "last", "random"})
	register := func(s uint64) uint64 {
		m, to := send(s, messages.NewRegister(1+r.ID1(), map[string]any{"match": match, "invoke": policy}, uri))
		g, ok := m.(*messages.Registered)
		c.Check(ok && to == s, "again-register", "session %d registering %s %s: %v", s, match, uri, m)
		return g.RegistrationID()
	}
	for _, id := range []uint64{caller, callee, other} {
		join(id)
	}
	r1 := register(callee)
	req := r.ID1()
	progressive := r.P(70)
	call := func(more bool) (*messages.Invocation, uint64) {
		m, to := send(caller, messages.NewCall(req, map[string]any{"progress": more, "receive_progress": r.Bool()}, "a.b", nil, nil))
		i, _ := m.(*messages.Invocation)
		return i, to
	}
	i1, to := call(progressive)
	if i1 == nil || to != callee {
		c.Skip("call not routed")
	}
	if progressive && r.Bool() {
		call(true)
	}
	// end it in one of the ways it can end
	how := r.Intn(6)
	switch how {
	case 0:
		send(callee, messages.NewYield(i1.RequestID(), map[string]any{}, nil, nil))
	case 1:
		send(callee, messages.NewError(messages.MessageTypeInvocation, i1.RequestID(), nil, "a.b", nil, nil))
	case 2:
		d.RemoveSession(caller)
		join(caller)
	case 3:
		d.RemoveSession(callee)
		join(callee)
		r1 = register(callee)
	case 4:
		d.RemoveSession(callee)
		r1 = register(other)
	case 5:
		d.RemoveSession(caller)
		d.RemoveSession(callee)
		join(callee)
		join(caller)
		c.Check(!d.HasProcedure(uri), "again-has", "procedure %s is still reported as registered though its only callee left and came back", uri)
		m, _ := send(caller, messages.NewCall(1+req%MaxID, map[string]any{}, "a.b", nil, nil))
		e, ok := m.(*messages.Error)
		c.Check(ok && e.URI() == noSuchProcedure, "again-call", "a callee that left and joined again with id %d still gets calls of what it had registered: %v", callee, m)
		r1 = register(callee)
	}
	c.Mix(how, match, policy, progressive)
	c.Feat("used again")
	if how == 2 || how == 5 || how == 3 {
		// the answer to the old invocation has no addressee any more: the session with that id is another one
		for _, k := range []bool{true, false} {
			var m messages.Message = messages.NewError(messages.MessageTypeInvocation, i1.RequestID(), nil, "a.b", nil, nil)
			if k {
				m = messages.NewYield(i1.RequestID(), map[string]any{"progress": r.Bool()}, nil, nil)
			}
			res, to := send(callee, m)
			c.Check(res == nil, "again-answer", "an answer to invocation %d, whose caller %d or callee %d has left and joined again, is delivered to %d as %s", i1.RequestID(), caller, callee, to, typeName(res))
		}
	}
	// the same request id stands for a new call now
	again := r.P(50)
	i2, to2 := call(again)
	want := callee
	if how == 4 {
		want = other
	}
	c.Check(i2 != nil && to2 == want, "again-lost", "a call with request id %d, used before by a call that is over (%d), reaches session %d instead of %d (%v)", req, how, to2, want, i2)
	c.Check(i2.RequestID() != i1.RequestID(), "again-invocation", "a call with request id %d, used before by a call that is over (%d), continues its invocation %d", req, how, i1.RequestID())
	c.Check(i2.RegistrationID() == r1, "again-registration", "a call is tagged with registration %d instead of %d", i2.RegistrationID(), r1)
	if again {
		i3, to3 := call(false)
		c.Check(i3 != nil && to3 == want && i3.RequestID() == i2.RequestID(), "again-chunk", "the second chunk of a call whose request id %d was used before goes to session %d (%v)", req, to3, i3)
	}
	m, to := send(want, messages.NewYield(i2.RequestID(), map[string]any{}, []any{7}, nil))
	res, ok := m.(*messages.Result)
	c.Check(ok && to == caller && res.RequestID() == req, "again-result", "the result of a call whose request id %d was used before: %v to %d", req, m, to)
	d.RemoveSession(want)
	c.Check(!d.HasProcedure(uri), "again-has", "procedure %s is still reported as registered", uri)
}

func typeName(m messages.Message) string {
	if m == nil {
		return "nothing"
	}
	return strings.TrimPrefix(fmt.Sprintf("%T", m), "*messages.")
}

// ---- broker

type hbroker struct {
	b     *wampproto.Broker
	ids   [hslots]uint64
	on    [hslots]bool
	subs  [hslots]map[uint64]bool
	order [hslots][]uint64
	round uint64
	req   uint64
	feat  func(string)
}

func (v *hbroker) join(s int) {
	details := wampproto.NewSessionDetails(v.ids[s], "realm", "authid", "role", "anonymous", s&1 == 0, nil, nil)
	if v.b.AddSession(details) == nil {
		v.on[s], v.subs[s], v.order[s] = true, map[uint64]bool{}, nil
	}
}

func (v *hbroker) next() uint64 { v.req++; return v.req }

func (v *hbroker) send(s int, m messages.Message) messages.Message {
	out, err := v.b.ReceiveMessage(v.ids[s], m)
	if err != nil || out == nil {
		v.feat("rejected")
		return nil
	}
	return out.Message
}

func (v *hbroker) uri(n int) string {
	if n == 0 {
		return "keep.a"
	}
	return fmt.Sprintf("r%d.%c", v.round, 'a'+n)
}

func (v *hbroker) step(h hop) {
	switch h.op {
	case "join":
		if !v.on[h.s] {
			v.feat("join")
			v.join(h.s)
		}
	case "leave":
		if v.on[h.s] && h.s > 1 {
			v.feat("leave")
			v.b.RemoveSession(v.ids[h.s])
			v.on[h.s] = false
		}
	case "subscribe":
		u := v.uri(h.n)
		switch h.match {
		case prefix:
			u = u[:len(u)-1]
		case wildcard:
			u = u[:len(u)-1] + "*"
		}
		if m, ok := v.send(h.s, messages.NewSubscribe(v.next(), h.x.options(map[string]any{"match": h.match}), u)).(*messages.Subscribed); ok && v.on[h.s] {
			v.feat("subscribe " + h.match)
			if !v.subs[h.s][m.SubscriptionID()] {
				v.subs[h.s][m.SubscriptionID()] = true
				v.order[h.s] = append(v.order[h.s], m.SubscriptionID())
			}
		}
	case "unsubscribe":
		for k := 0; k < hslots && (!v.on[h.s] || len(v.order[h.s]) == 0); k++ {
			h.s = (h.s + 1) % hslots
		}
		if l := v.order[h.s]; v.on[h.s] && len(l) > 0 {
			i := h.n % len(l)
			if v.send(h.s, messages.NewUnsubscribe(v.next(), l[i])) != nil {
				v.feat("unsubscribe")
			}
			delete(v.subs[h.s], l[i])
			v.order[h.s] = append(l[:i], l[i+1:]...)
		}
	case "publish":
		v.feat("publish")
		o := map[string]any{}
		if h.a {
			o["acknowledge"] = true
		}
		if h.b {
			o["exclude_me"] = false
		}
		if _, err := v.b.ReceivePublish(v.ids[h.s], messages.NewPublish(v.next(), h.x.options(o), v.uri(h.n), h.x.args, h.x.kw)); err != nil {
			v.feat("rejected")
		}
	case "wrong":
		switch h.n % 5 {
		case 0:
			v.send(h.s, messages.NewUnsubscribe(v.next(), 1<<52+v.round))
		case 1:
			v.send(h.s, messages.NewRegister(v.next(), nil, v.uri(h.t)))
		case 2:
			v.join(h.s) // fails if attached
			if h.s > 1 && h.a {
				v.b.RemoveSession(v.ids[h.s])
				v.on[h.s] = false
			}
		case 3:
			v.b.RemoveSession(1<<52 + v.round)
			v.b.ReceiveMessage(1<<52+v.round, messages.NewSubscribe(v.next(), nil, fmt.Sprintf("w%d.x", v.round)))
			v.b.ReceivePublish(1<<52+v.round, messages.NewPublish(v.next(), map[string]any{"acknowledge": true}, fmt.Sprintf("w%d.x", v.round), nil, nil))
		case 4:
			v.b.HasSubscription(fmt.Sprintf("w%d.x", v.round))
			v.b.ReceivePublish(v.ids[h.s], messages.NewPublish(v.next(), nil, fmt.Sprintf("w%d.x", v.round), nil, nil))
		}
	}
}

func b08(c *C) {
	if c.Case%3 == 2 {
		b08again(c)
		return
	}
	ops := history(c, []string{"join", "leave", "subscribe", "subscribe", "subscribe", "subscribe", "unsubscribe", "unsubscribe", "publish", "publish", "wrong"})
	order := []int{2, 3, 4, 5}
	shuffle(c.R, order)
	v := &hbroker{b: wampproto.NewBroker(), feat: func(string) {}}
	v.ids[0], v.ids[1] = 1, 2
	v.join(0)
	v.join(1)
	if c.R.Bool() {
		v.step(hop{op: "subscribe", s: 0, n: 0, match: exact})
		v.order[0] = nil
	}
	if c.R.Bool() {
		v.b.AutoDisclosePublisher(true)
	}
	if c.R.P(25) { // others, who stay
		c.Feat("crowd")
		for n := 1 + c.R.Intn(60); n > 0; n-- {
			id := 1<<50 + uint64(n)
			if err := v.b.AddSession(wampproto.NewSessionDetails(id, "realm", "authid", "role", "anonymous", false, nil, nil)); err != nil {
				panic(err)
			}
			for k := c.R.Intn(3); k > 0; k-- {
				v.b.ReceiveMessage(id, messages.NewSubscribe(v.next(), map[string]any{"match": pick(c.R, []string{exact, prefix, wildcard})}, fmt.Sprintf("crowd.%d", c.R.Intn(40))))
			}
		}
	}
	steady(c, "histories of sessions, subscriptions and publications", func(i uint64) {
		v.round, v.feat = i, once(c, i)
		for s := 2; s < hslots; s++ {
			v.ids[s] = i<<4 + uint64(s)
		}
		for _, h := range ops {
			v.step(h)
		}
		for _, s := range order {
			if v.on[s] {
				v.b.RemoveSession(v.ids[s])
				v.on[s] = false
			}
		}
		for s := 0; s < 2; s++ {
			for _, id := range v.order[s] {
				v.send(s, messages.NewUnsubscribe(v.next(), id))
				delete(v.subs[s], id)
			}
			v.order[s] = v.order[s][:0]
		}
	})
}

// b08again: a session id or topic that is used again starts clean.
func b08again(c *C) {
	r := c.R
	b := wampproto.NewBroker()
	x, y := r.ID1(), r.ID1()
	for x == y {
		y = r.ID1()
	}
	join := func(id uint64) {
		err := b.AddSession(wampproto.NewSessionDetails(id, "realm", "a", "b", "anonymous", false, nil, nil))
		c.Check(err == nil, "again-join", "adding session %d (again): %v", id, err)
	}
	join(x)
	join(y)
	match := pick(r, []string{exact, prefix, wildcard})
	uri := map[string]string{exact: "a.b", prefix: "a.", wildcard: "a.*"}[match]
	subscribe := func(s uint64) uint64 {
		out, err := b.ReceiveMessage(s, messages.NewSubscribe(r.ID1(), map[string]any{"match": match}, uri))
		if err != nil || out == nil {
			c.Skip("subscribe refused")
		}
		m, ok := out.Message.(*messages.Subscribed)
		if !ok {
			c.Skip("subscribe refused")
		}
		return m.SubscriptionID()
	}
	receivers := func() []uint64 {
		p, err := b.ReceivePublish(y, messages.NewPublish(r.ID1(), map[string]any{"exclude_me": false}, "a.b", nil, nil))
		if err != nil || p == nil {
			c.Skip("publish refused")
		}
		return p.Recipients
	}
	others := r.Bool() // y subscribes, too
	id1 := subscribe(x)
	if others {
		subscribe(y)
	}
	if r.Bool() {
		receivers()
	}
	how := r.Intn(2)
	if how == 0 {
		b.RemoveSession(x)
		join(x)
	} else {
		b.ReceiveMessage(x, messages.NewUnsubscribe(r.ID1(), id1))
		if r.Bool() {
			b.RemoveSession(x)
			join(x)
		}
	}
	c.Feat("used again")
	c.Mix(match, how, others)
	contains := func(l []uint64, id uint64) bool {
		for _, e := range l {
			if e == id {
				return true
			}
		}
		return false
	}
	rec := receivers()
	c.Check(!contains(rec, x), "again-event", "session %d gets an event for a subscription to %s (%s) it held before it left or gave it up", x, uri, match)
	c.Check(contains(rec, y) == others, "again-other", "whether session %d gets the event is %v, it subscribed: %v", y, contains(rec, y), others)
	c.Check(b.HasSubscription(uri) == others, "again-has", "HasSubscription(%s) is %v, subscribers left: %v", uri, b.HasSubscription(uri), others)
	_, err := b.ReceiveMessage(x, messages.NewUnsubscribe(r.ID1(), id1))
	c.Check(err != nil, "again-unsubscribe", "session %d can unsubscribe from subscription %d it held before it left or gave it up", x, id1)
	id2 := subscribe(x)
	rec = receivers()
	n := 0
	for _, e := range rec {
		if e == x {
			n++
		}
	}
	c.Check(n == 1, "again-subscribed", "after subscribing again session %d gets the event %d times", x, n)
	if !others {
		c.Check(id2 != id1, "again-id", "a subscription to %s made after the earlier one ended has its id %d", uri, id1)
	}
	_, err = b.ReceiveMessage(x, messages.NewUnsubscribe(r.ID1(), id2))
	c.Check(err == nil && !contains(receivers(), x), "again-unsubscribed", "session %d cannot end its second subscription: %v", x, err)
}

// ---- session

func s05(c *C) {
	r := c.R
	name := r.Intn(3)
	ser := serializerOf(name)
	s := wampproto.NewSession(ser)
	viaBytes := r.Bool()
	var bad any = func() {}
	recv := func(m messages.Message) {
		if viaBytes {
			b, err := ser.Serialize(m)
			if err != nil {
				panic(err)
			}
			s.Receive(b)
		} else {
			s.ReceiveMessage(m)
		}
	}
	send := func(m messages.Message) { s.SendMessage(m) }
	// what is sent varies from step to step, but not from round to round
	no := func() map[string]any {
		if r.P(60) {
			return pick(r, []map[string]any{nil, {}})
		}
		o := map[string]any{}
		spice(r, o)
		if r.Bool() {
			o["progress"] = false
		}
		return o
	}
	more := func() map[string]any {
		o := no()
		if o == nil {
			o = map[string]any{}
		}
		o["progress"] = true
		return o
	}
	al := func() []any { return heapArgs(r) }
	kw := func() map[string]any { return heapKw(r) }
	type step func(i uint64)
	type extra struct {
		o, more map[string]any
		a       []any
		w       map[string]any
	}
	var feat func(string)
	var threads [][]step
	var names []string
	n := 1 + r.Intn(8)
	for k := 0; k < n; k++ {
		k := uint64(k)
		id := func(i uint64) uint64 { return i<<5 + k + 1 }
		id2 := func(i uint64) uint64 { return i<<5 + k + 17 }
		kind := r.Intn(9)
		var t []step
		add := func(what string, f func(i uint64, x extra)) {
			x := extra{no(), more(), al(), kw()}
			t = append(t, func(i uint64) { feat(what); f(i, x) })
			names = append(names, what)
		}
		fail := r.P(40)
		progress := r.Intn(3)
		errorFor := func(typ uint64) func(uint64, extra) {
			return func(i uint64, x extra) { recv(messages.NewError(typ, id(i), x.o, "a.b", x.a, x.w)) }
		}
		switch kind {
		case 0: // call
			receive := r.Bool()
			last := func(o map[string]any) map[string]any {
				if receive {
					o = with(o, "receive_progress", true)
				}
				return o
			}
			chunks := r.Intn(3)
			for j := 0; j < chunks; j++ {
				add("progressive call", func(i uint64, x extra) { send(messages.NewCall(id(i), x.more, "a.b", x.a, x.w)) })
			}
			add("call", func(i uint64, x extra) { send(messages.NewCall(id(i), last(x.o), "a.b", x.a, x.w)) })
			for j := 0; j < progress; j++ {
				add("progressive result", func(i uint64, x extra) { recv(messages.NewResult(id(i), x.more, x.a, x.w)) })
			}
			if fail {
				add("call error", errorFor(messages.MessageTypeCall))
			} else {
				add("result", func(i uint64, x extra) { recv(messages.NewResult(id(i), x.o, x.a, x.w)) })
			}
		case 1: // publish
			ack := r.P(70)
			if ack {
				add("acknowledged publish", func(i uint64, x extra) {
					send(messages.NewPublish(id(i), with(x.o, "acknowledge", true), "a.b", x.a, x.w))
				})
				if fail {
					add("publish error", errorFor(messages.MessageTypePublish))
				} else {
					add("published", func(i uint64, x extra) { recv(messages.NewPublished(id(i), 7)) })
				}
			} else {
				o := pick(r, []map[string]any{nil, {}, {"acknowledge": false}, {"exclude_me": false}})
				add("publish", func(i uint64, x extra) { send(messages.NewPublish(id(i), o, "a.b", x.a, x.w)) })
			}
		case 2, 3: // registration
			add("register", func(i uint64, x extra) { send(messages.NewRegister(id(i), x.o, "a.b")) })
			if fail {
				add("register error", errorFor(messages.MessageTypeRegister))
				break
			}
			add("registration", func(i uint64, x extra) { recv(messages.NewRegistered(id(i), id2(i))) })
			for j, m := 0, r.Intn(4); j < m; j++ {
				j := uint64(j)
				inv := func(i uint64) uint64 { return i<<5 + k + 1<<40*(j+1) }
				add("invocation", func(i uint64, x extra) { recv(messages.NewInvocation(inv(i), id2(i), x.o, x.a, x.w)) })
				if r.P(20) {
					add("another chunk", func(i uint64, x extra) {
						recv(messages.NewInvocation(inv(i), id2(i), x.more, x.a, x.w))
					})
				}
				for p, q := 0, r.Intn(3); p < q; p++ {
					add("invocation progress", func(i uint64, x extra) { send(messages.NewYield(inv(i), x.more, x.a, x.w)) })
				}
				if r.P(20) {
					add("binary invocation result", func(i uint64, x extra) { send(messages.NewYieldBinary(inv(i), x.o, []byte("p"), 1)) })
				} else if r.Bool() {
					add("invocation result", func(i uint64, x extra) { send(messages.NewYield(inv(i), x.o, x.a, x.w)) })
				} else {
					add("invocation error", func(i uint64, x extra) {
						send(messages.NewError(messages.MessageTypeInvocation, inv(i), x.o, "a.b", x.a, x.w))
					})
				}
			}
			if r.P(30) {
				add("unregister", func(i uint64, x extra) { send(messages.NewUnregister(id(i), id2(i))) })
				add("unregister error", errorFor(messages.MessageTypeUnregister))
			}
			add("unregister", func(i uint64, x extra) { send(messages.NewUnregister(id(i), id2(i))) })
			add("unregistered", func(i uint64, x extra) { recv(messages.NewUnregistered(id(i))) })
		case 4, 5: // subscription
			add("subscribe", func(i uint64, x extra) { send(messages.NewSubscribe(id(i), x.o, "a.b")) })
			if fail {
				add("subscribe error", errorFor(messages.MessageTypeSubscribe))
				break
			}
			add("subscription", func(i uint64, x extra) { recv(messages.NewSubscribed(id(i), id2(i))) })
			for j, m := 0, r.Intn(3); j < m; j++ {
				add("event", func(i uint64, x extra) { recv(messages.NewEvent(id2(i), i, x.o, x.a, x.w)) })
			}
			if r.P(30) {
				add("unsubscribe", func(i uint64, x extra) { send(messages.NewUnsubscribe(id(i), id2(i))) })
				add("unsubscribe error", errorFor(messages.MessageTypeUnsubscribe))
			}
			add("unsubscribe", func(i uint64, x extra) { send(messages.NewUnsubscribe(id(i), id2(i))) })
			add("unsubscribed", func(i uint64, x extra) { recv(messages.NewUnsubscribed(id(i))) })
		case 6, 7: // failing sends
			args := []any{bad}
			opts := map[string]any{"x": bad}
			switch r.Intn(9) {
			case 0:
				add("failing send", func(i uint64, x extra) { send(messages.NewCall(id(i), nil, "a.b", args, nil)) })
			case 1:
				add("failing send", func(i uint64, x extra) { send(messages.NewRegister(id(i), opts, "a.b")) })
			case 2:
				add("failing send", func(i uint64, x extra) { send(messages.NewSubscribe(id(i), opts, "a.b")) })
			case 3:
				add("failing send", func(i uint64, x extra) {
					send(messages.NewPublish(id(i), map[string]any{"acknowledge": true}, "a.b", args, nil))
				})
			case 4:
				add("failing send", func(i uint64, x extra) { send(messages.NewUnsubscribe(id(i), id2(i))) })
			case 5:
				add("failing send", func(i uint64, x extra) { send(messages.NewYield(id(i), nil, args, nil)) })
			case 6:
				add("failing send", func(i uint64, x extra) {
					send(messages.NewError(messages.MessageTypeCall, id(i), map[string]any{}, "a.b", nil, nil))
				})
			case 7:
				add("failing send", func(i uint64, x extra) { send(messages.NewResult(id(i), nil, nil, nil)) })
			case 8:
				add("failing send", func(i uint64, x extra) { send(messages.NewYield(id(i), map[string]any{"progress": true}, args, nil)) })
			}
		case 8: // wrong receptions
			add("wrong reception", func(i uint64, x extra) {
				for _, m := range []messages.Message{messages.NewResult(id(i), map[string]any{}, nil, nil), messages.NewRegistered(id(i), id2(i)),
					messages.NewResult(id(i), map[string]any{"progress": true}, nil, nil),
					messages.NewUnregistered(id(i)), messages.NewSubscribed(id(i), id2(i)), messages.NewUnsubscribed(id(i)), messages.NewPublished(id(i), 1),
					messages.NewInvocation(id(i), id2(i), map[string]any{}, nil, nil), messages.NewEvent(id2(i), 1, map[string]any{}, nil, nil),
					messages.NewError(messages.MessageTypeCall, id(i), map[string]any{}, "a.b", nil, nil),
					messages.NewError(messages.MessageTypeInvocation, id(i), map[string]any{}, "a.b", nil, nil),
					messages.NewError(messages.MessageTypeRegister, id(i), map[string]any{}, "a.b", nil, nil),
					messages.NewGoodBye("a.b", map[string]any{}), messages.NewAbort(map[string]any{}, "a.b", nil, nil)} {
					recv(m)
				}
			})
		}
		threads = append(threads, t)
	}
	// interleave
	var all []step
	for len(threads) > 0 {
		k := r.Intn(len(threads))
		all = append(all, threads[k][0])
		if threads[k] = threads[k][1:]; len(threads[k]) == 0 {
			threads = append(threads[:k], threads[k+1:]...)
		}
	}
	c.Mix(name, viaBytes, strings.Join(names, ","), r.U64())
	c.Logf("serializer %d, bytes %v: %s", name, viaBytes, strings.Join(names, ", "))
	steady(c, "completed requests", func(i uint64) {
		feat = once(c, i)
		for _, st := range all {
			st(i)
		}
	})
}

// with returns the options with one more.
func with(o map[string]any, key string, value any) map[string]any {
	n := map[string]any{key: value}
	for k, v := range o {
		if k != key {
			n[k] = v
		}
	}
	return n
}
