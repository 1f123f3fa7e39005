package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

func init() {
	rule := "random histories of sessions joining, leaving, registering, unregistering, calling and answering on one dealer, judged by a model fed with the dealer's replies; distinct = different history"
	assume := []string{"wildcard patterns consist of letters, dots, slashes and '*'", "unknown match and invocation policies are not used",
		"a caller does not reuse the request id of an open call, except for further chunks of it"}
	reg := func(id string, quick int, need map[string]int64) {
		for _, k := range []string{"registered exact", "registered prefix", "registered wildcard", "invocation", "session left", "unregistered", "result", "error"} {
			need[k] += 1000
		}
		registerDealer(&Prop{ID: id, Quick: quick, Thoro: quick * 100, Rule: rule, Assume: assume, Need: need})
	}
	reg("D01", 9000, map[string]int64{"no such procedure": 1000, "exact over others": 300, "longest prefix": 300, "prefix over wildcard": 200})
	reg("D02", 7000, map[string]int64{"asked HasProcedure": 5000, "probe": 5000, "one of several left": 500})
	reg("D03", 5000, map[string]int64{"policy first": 1000, "policy last": 1000, "policy roundrobin": 1000, "policy random": 1000})
	reg("D04", 9000, map[string]int64{"late response": 1000, "unknown response": 1000})
	reg("D05", 9000, map[string]int64{"third party": 5000})
	reg("D06", 9000, map[string]int64{"progressive result": 1000, "unwanted progress": 500})
	reg("D07", 9000, map[string]int64{"chunk": 3000, "last chunk": 1000, "chunk after unregister": 20})
	reg("D08", 9000, map[string]int64{"binary to static": 500, "binary to dynamic": 500, "binary result to static": 300, "binary result to dynamic": 300})
	reg("D09", 9000, map[string]int64{"disclosed": 1000, "not disclosed": 1000})
	reg("D10", 9000, map[string]int64{"refused": 1000, "joined": 500})
}

func registerDealer(p *Prop) { p.Case = dcase; register(p) }

const noSuchProcedure, alreadyExists = "wamp.error.no_such_procedure", "wamp.error.procedure_already_exists"

type dreg struct {
	id      uint64
	k       key
	policy  string
	callees []*dsess // in order of registration
	moved   []*dsess // the same, if registering again counts as a later registration
	window  []*dsess // calls since the membership last changed
}

type dsess struct {
	id           uint64
	authid, role string
	static       bool
	details      *wampproto.SessionDetails
	attached     bool
	incarnation  int
	regs         map[uint64]*dreg
	open         map[uint64]*dcall // its open calls by request id
}

// dcall is an open call.
type dcall struct {
	inv            uint64
	caller, callee *dsess
	callerInc      int
	req            uint64
	proc           string
	reg            *dreg
	receive        bool // progressive results wanted
	regID          uint64
	more           bool // further chunks announced
	chunks         int
	ended          bool
}

type dsim struct {
	c        *C
	r        *Rand
	d        *wampproto.Dealer
	all      []*dsess
	attached []*dsess
	regs     map[key]*dreg
	regIDs   map[uint64]bool
	invIDs   map[uint64]bool
	open     []*dcall
	ended    []uint64
	uris     []string
	pool     []key
	used     []key
	disclose bool
	req      uint64
	ids      map[uint64]bool
	orphans  []*dcall // the caller or the callee left
}

func (s *dsim) is(id string) bool { return s.c.P.ID == id }

func newDsim(c *C) *dsim {
	s := &dsim{c: c, r: c.R, d: wampproto.NewDealer(), regs: map[key]*dreg{}, regIDs: map[uint64]bool{}, invIDs: map[uint64]bool{}, ids: map[uint64]bool{}}
	if s.r.P(30) {
		s.disclose = true
		s.d.AutoDiscloseCaller(true)
	}
	return s
}

func (s *dsim) join(id uint64) *dsess {
	var x *dsess
	for _, o := range s.all {
		if o.id == id {
			x = o
		}
	}
	if x == nil {
		x = &dsess{id: id}
		s.all = append(s.all, x)
	}
	x.incarnation++
	x.authid, x.role = fmt.Sprintf("user-%d-%d", len(s.all), x.incarnation), fmt.Sprintf("role-%d-%x", x.incarnation, s.r.Intn(1<<20))
	x.static, x.attached = s.r.Bool(), true
	x.regs, x.open = map[uint64]*dreg{}, map[uint64]*dcall{}
	x.details = wampproto.NewSessionDetails(id, "realm", x.authid, x.role, "anonymous", x.static, nil, nil)
	err := s.d.AddSession(x.details)
	s.c.Check(err == nil, "join", "adding session %d: %v", id, err)
	s.attached = append(s.attached, x)
	s.c.Logf("join %d", id)
	return x
}

func without[T comparable](l []T, x T) []T {
	for i, y := range l {
		if y == x {
			return append(append([]T{}, l[:i]...), l[i+1:]...)
		}
	}
	return l
}

func (s *dsim) dropReg(x *dsess, g *dreg) {
	if len(g.callees) > 1 {
		s.c.Feat("one of several left")
	}
	g.callees, g.moved, g.window = without(g.callees, x), without(g.moved, x), nil
	delete(x.regs, g.id)
	if len(g.callees) == 0 {
		delete(s.regs, g.k)
	}
}

func (s *dsim) end(k *dcall) {
	k.ended = true
	s.open = without(s.open, k)
	if k.caller.open[k.req] == k {
		delete(k.caller.open, k.req)
	}
	s.ended = append(s.ended, k.inv)
}

func (s *dsim) leave(x *dsess) {
	err := s.d.RemoveSession(x.id)
	s.c.Check(err == nil, "leave", "removing session %d: %v", x.id, err)
	s.c.Logf("leave %d", x.id)
	s.c.Feat("session left")
	x.attached = false
	s.attached = without(s.attached, x)
	regs := x.sortedRegs()
	for _, g := range regs {
		s.dropReg(x, g)
	}
	for _, g := range regs {
		s.has(g.k.uri)
	}
	for _, k := range append([]*dcall{}, s.open...) {
		if k.caller == x || k.callee == x {
			s.end(k)
			s.orphans = append(s.orphans, k)
		}
	}
}

func (x *dsess) sortedRegs() []*dreg {
	l := make([]*dreg, 0, len(x.regs))
	for _, g := range x.regs {
		l = append(l, g)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

func (s *dsim) nextReq(x *dsess) uint64 {
	for {
		var req uint64
		switch s.r.Intn(4) {
		case 0:
			req = s.r.ID1()
		case 1:
			req = uint64(1 + s.r.Intn(8))
		default:
			s.req++
			req = s.req
			if len(s.open) > 0 && s.r.P(30) { // like that of another call
				k := pick(s.r, s.open)
				req = pick(s.r, []uint64{k.req, k.req, k.inv, k.req + 1, k.req + 1<<32, k.caller.id ^ k.req ^ x.id, k.caller.id + k.req - x.id, k.caller.id, x.id})
				if req == 0 || req > MaxID {
					continue
				}
			}
		}
		if x.open[req] == nil {
			return req
		}
	}
}

func (s *dsim) has(proc string) {
	if !s.is("D02") {
		return
	}
	want := false
	for _, m := range []string{exact, prefix, wildcard} {
		want = want || s.regs[key{proc, m}] != nil
	}
	if !want {
		for k := range s.regs {
			if k.matches(proc) {
				return // registered in a wider sense
			}
		}
	}
	s.c.Feat("asked HasProcedure")
	got := s.d.HasProcedure(proc)
	s.c.Check(got == want, "HasProcedure", "HasProcedure(%q) is %v, somebody is registered: %v", proc, got, want)
}

var policies = []string{"", "single", "first", "last", "roundrobin", "random"}

func shared(policy string) bool { return policy != "" && policy != "single" }

func (s *dsim) register(x *dsess, k key, policy string) {
	c := s.c
	req := s.nextReq(x)
	opts := matchOptions(s.r, k.match)
	if policy != "" {
		if opts == nil {
			opts = map[string]any{}
		}
		opts["invoke"] = policy
	}
	out, err := s.d.ReceiveMessage(x.id, c.via(messages.NewRegister(req, spice(s.r, opts), k.uri)))
	c.Check(err == nil && out != nil && !nilMsg(out.Message), "register", "REGISTER of session %d for %q: %v", x.id, k, err)
	if s.is("D10") {
		c.Check(out.Recipient == x.id, "addressing", "REGISTER of session %d answered to %d", x.id, out.Recipient)
	}
	g := s.regs[k]
	ok := g == nil || shared(g.policy) && g.policy == policy
	switch m := out.Message.(type) {
	case *messages.Registered:
		c.Logf("%d registers %s %q %s: %d", x.id, k.match, k.uri, policy, m.RegistrationID())
		if s.is("D10") {
			if !ok {
				c.Fail("not exclusive", "%s %q is registered with policy %q; registering it with policy %q succeeded", k.match, k.uri, g.policy, policy)
			}
			c.Check(m.RequestID() == req, "addressing", "REGISTER request %d answered under %d", req, m.RequestID())
			if g != nil {
				c.Check(m.RegistrationID() == g.id, "registration id", "%s %q is registered as %d, joining it gave %d", k.match, k.uri, g.id, m.RegistrationID())
				c.Feat("joined")
			} else {
				c.Check(!s.regIDs[m.RegistrationID()], "registration id", "registration id %d of %s %q was used before", m.RegistrationID(), k.match, k.uri)
			}
		}
		if g == nil || g.id != m.RegistrationID() {
			g = &dreg{id: m.RegistrationID(), k: k, policy: policy}
			s.regs[k] = g
			s.used = append(s.used, k)
			c.Feat("registered " + k.match)
		}
		s.regIDs[g.id] = true
		if x.regs[g.id] == nil {
			g.callees, g.moved, g.window = append(g.callees, x), append(g.moved, x), nil
		} else {
			g.moved = append(without(g.moved, x), x)
		}
		x.regs[g.id] = g
	case *messages.Error:
		c.Logf("%d registers %s %q %s: refused", x.id, k.match, k.uri, policy)
		c.Feat("refused")
		if s.is("D10") {
			c.Check(!ok, "refused", "registering %s %q with policy %q was refused with %s", k.match, k.uri, policy, m.URI())
			c.Check(m.URI() == alreadyExists && m.MessageType() == 64 && m.RequestID() == req, "addressing", "REGISTER request %d refused with %+v", req, mtypeByCode[8].read(m))
		} else if ok {
			c.Skip("registration refused")
		}
	default:
		c.Fail("register", "REGISTER answered with %T", out.Message)
	}
	s.has(k.uri)
}

func (s *dsim) unregister(x *dsess, g *dreg) {
	c := s.c
	req := s.nextReq(x)
	out, err := s.d.ReceiveMessage(x.id, c.via(messages.NewUnregister(req, g.id)))
	c.Check(err == nil && out != nil, "unregister", "UNREGISTER of session %d from %d: %v", x.id, g.id, err)
	m, ok := out.Message.(*messages.Unregistered)
	c.Check(ok, "unregister", "UNREGISTER answered with %T", out.Message)
	if s.is("D10") {
		c.Check(out.Recipient == x.id && m.RequestID() == req, "addressing", "UNREGISTER request %d of %d answered to %d under %d", req, x.id, out.Recipient, m.RequestID())
	}
	c.Logf("%d unregisters %d", x.id, g.id)
	c.Feat("unregistered")
	s.dropReg(x, g)
	s.has(g.k.uri)
}

// serving returns the registrations a call may be routed to.
func (s *dsim) serving(proc string) []*dreg {
	if g := s.regs[key{proc, exact}]; g != nil {
		if len(s.regs) > 1 {
			for k := range s.regs {
				if k.match != exact && k.matches(proc) {
					s.c.Feat("exact over others")
					break
				}
			}
		}
		return []*dreg{g}
	}
	var best *dreg
	n := 0
	var wild []*dreg
	for k, g := range s.regs {
		if !k.matches(proc) {
			continue
		}
		if k.match == prefix {
			n++
			if best == nil || len(k.uri) > len(best.k.uri) {
				best = g
			}
		} else if k.match == wildcard {
			wild = append(wild, g)
		}
	}
	if best != nil {
		if n > 1 {
			s.c.Feat("longest prefix")
		}
		if len(wild) > 0 {
			s.c.Feat("prefix over wildcard")
		}
		return []*dreg{best}
	}
	return wild
}

// payload is what a message carries: arguments, or arguments in binary form.
type payload struct {
	args []any
	kw   map[string]any
	bin  bool
	data []byte
	ser  uint64
}

func (s *dsim) genPayload() payload {
	r := s.r
	p := payload{}
	p.args, p.kw = genArgs(r, kJSON)
	if len(p.args) > 100 {
		p.args = p.args[:100]
	}
	large := s.is("D08") && r.Intn(600) == 0
	if large {
		s.c.Feat("large payload")
		if r.Bool() {
			p.args = largeList(largeSize(r))
		} else {
			p.kw = with(p.kw, "large", strings.Repeat("l", largeSize(r)))
		}
	}
	if r.P(35) && (s.is("D08") || r.P(15)) {
		p.bin, p.data, p.ser = true, r.Bytes(r.Intn(50)), uint64(r.Intn(6))
		if large {
			p.data = r.Bytes(largeSize(r))
		}
		if r.P(5) {
			p.data = nil
		}
	}
	return p
}

func (p payload) fields(v V) *anyFields {
	v["Args"], v["KwArgs"] = p.args, p.kw
	return &anyFields{v: v, binary: p.bin, ser: p.ser, bytes: p.data}
}

func (s *dsim) checkPayload(what string, p payload, static bool, got interface {
	messages.BinaryPayload
	Args() []any
	KwArgs() map[string]any
}, details map[string]any) {
	if !s.is("D08") {
		return
	}
	c := s.c
	if p.bin && static {
		c.Check(got.PayloadIsBinary() && got.PayloadSerializer() == p.ser && bytes.Equal(got.Payload(), p.data), "binary payload",
			"%s: binary payload %x (serializer %d) arrives as binary %v %x (serializer %d)", what, p.data, p.ser, got.PayloadIsBinary(), got.Payload(), got.PayloadSerializer())
		// the number is what the receiver needs to make sense of the bytes; messages carry it in this option
		c.Check(equalValues(details["x_payload_serializer"], p.ser), "payload serializer", "%s: binary payload of serializer %d arrives with %s", what, p.ser, show(details))
		return
	}
	c.Check(!got.PayloadIsBinary(), "binary payload", "%s: payload (binary %v) arrives in binary form at a peer with static serializer %v", what, p.bin, static)
	c.nchk++
	if !sameArgs(p.args, p.kw, got.Args(), got.KwArgs()) {
		c.Fail("payload", "%s: %s %s arrives as %s %s", what, show(p.args), show(p.kw), show(got.Args()), show(got.KwArgs()))
	}
}

// call makes a call or sends a further chunk of one.
func (s *dsim) call(x *dsess, proc string, cont *dcall, receive, more bool) *dcall {
	c := s.c
	var req uint64
	if cont != nil {
		req = cont.req
	} else {
		req = s.nextReq(x)
	}
	opts := map[string]any{}
	if receive {
		opts["receive_progress"] = true
	} else if s.r.P(10) {
		opts["receive_progress"] = false
	}
	if more {
		opts["progress"] = true
	} else if s.r.P(10) {
		opts["progress"] = false
	}
	opts = spice(s.r, opts)
	p := s.genPayload()
	var msg messages.Message
	if p.bin {
		msg = messages.NewCallWithFields(p.fields(V{"RequestID": req, "Options": opts, "Procedure": proc}))
	} else {
		msg = c.via(messages.NewCall(req, opts, proc, p.args, p.kw))
	}
	out, err := s.d.ReceiveMessage(x.id, msg)
	c.Check(err == nil && out != nil && !nilMsg(out.Message), "call", "CALL of session %d to %q: %v", x.id, proc, err)
	if cont != nil {
		return s.continued(x, cont, out, p, receive, more)
	}
	cand := s.serving(proc)
	switch m := out.Message.(type) {
	case *messages.Error:
		c.Logf("%d calls %q as %d: %s", x.id, proc, req, m.URI())
		c.Feat("no such procedure")
		if s.is("D01") {
			c.Check(len(cand) == 0, "no such procedure", "%q matches a live registration, the call got %s", proc, m.URI())
			c.Check(out.Recipient == x.id && m.MessageType() == 48 && m.RequestID() == req && m.URI() == noSuchProcedure, "no such procedure",
				"call %d of session %d to %q: to %d %v", req, x.id, proc, out.Recipient, mtypeByCode[8].read(m))
		} else if len(cand) > 0 && s.is("D02") {
			c.Fail("not callable", "%q is registered by session %d, the call got %s", proc, cand[0].callees[0].id, m.URI())
		} else if len(cand) > 0 {
			c.Skip("no such procedure")
		}
		return nil
	case *messages.Invocation:
		k := &dcall{inv: m.RequestID(), regID: m.RegistrationID(), caller: x, callerInc: x.incarnation, req: req, proc: proc, receive: receive, more: more, chunks: 1}
		for _, y := range s.attached {
			if y.id == out.Recipient {
				k.callee = y
			}
		}
		c.Logf("%d calls %q as %d (receive progress %v, more chunks %v): invocation %d of registration %d at %d", x.id, proc, req, receive, more, m.RequestID(), m.RegistrationID(), out.Recipient)
		c.Feat("invocation")
		if s.is("D01") || s.is("D02") || k.callee == nil {
			c.Check(k.callee != nil, "gone", "call to %q goes to session %d, which is not attached", proc, out.Recipient)
			c.Check(k.callee.regs[m.RegistrationID()] != nil, "not registered", "call to %q goes to session %d under registration %d, which it does not hold", proc, out.Recipient, m.RegistrationID())
		}
		for _, g := range cand {
			if g.id == m.RegistrationID() {
				k.reg = g
			}
		}
		if s.is("D01") {
			c.Check(len(cand) > 0, "matching", "nobody registered %q, the call goes to %d", proc, out.Recipient)
			if k.reg == nil {
				c.Fail("matching", "best match for %q is %s %q (%d), the call was routed by registration %d", proc, cand[0].k.match, cand[0].k.uri, cand[0].id, m.RegistrationID())
			}
		} else if k.reg == nil {
			k.reg = k.callee.regs[m.RegistrationID()]
		}
		if k.reg != nil {
			s.policy(k)
		}
		if s.is("D04") || s.is("D07") {
			c.Check(!s.invIDs[k.inv], "invocation id", "invocation id %d is used again for another call", k.inv)
		}
		s.invIDs[k.inv] = true
		s.invocationDetails(k, m, receive, more)
		s.checkPayload(fmt.Sprintf("call to %q", proc), p, k.callee.static, m, m.Details())
		if p.bin {
			c.Feat(map[bool]string{true: "binary to static", false: "binary to dynamic"}[k.callee.static])
		}
		s.open = append(s.open, k)
		x.open[req] = k
		if more {
			c.Feat("chunk")
		}
		return k
	}
	c.Fail("call", "CALL answered with %T", out.Message)
	return nil
}

func (s *dsim) invocationDetails(k *dcall, m *messages.Invocation, receive, more bool) {
	c := s.c
	if s.is("D06") {
		c.Check((m.Details()["receive_progress"] == true) == receive, "receive_progress", "call wants progress: %v; invocation details %s", receive, show(m.Details()))
	}
	if s.is("D07") {
		c.Check((m.Details()["progress"] == true) == more, "progress", "further chunks follow: %v; invocation details %s", more, show(m.Details()))
	}
	if s.is("D09") {
		c.checkDisclosure(s.disclose, m.Details(), "caller", k.caller.id, k.caller.authid, k.caller.role, "procedure", k.proc)
	}
}

func (s *dsim) continued(x *dsess, k *dcall, out *wampproto.MessageWithRecipient, p payload, receive, more bool) *dcall {
	c := s.c
	m, ok := out.Message.(*messages.Invocation)
	if !ok && !s.is("D07") {
		c.Skip("chunk not forwarded")
	}
	c.Check(ok, "chunk", "a further chunk of call %d of session %d was answered with %T", k.req, x.id, out.Message)
	c.Logf("%d continues %d (more chunks %v): invocation %d of registration %d at %d", x.id, k.req, more, m.RequestID(), m.RegistrationID(), out.Recipient)
	k.chunks++
	if more {
		c.Feat("chunk")
	} else {
		c.Feat("last chunk")
	}
	if k.reg != nil && k.callee.regs[k.reg.id] != k.reg {
		c.Feat("chunk after unregister")
	}
	if s.is("D07") {
		c.Check(out.Recipient == k.callee.id, "callee", "chunk %d of call %d of session %d goes to %d, the first one went to %d", k.chunks, k.req, x.id, out.Recipient, k.callee.id)
		c.Check(m.RequestID() == k.inv, "invocation", "chunk %d of call %d of session %d has invocation %d, the first one had %d", k.chunks, k.req, x.id, m.RequestID(), k.inv)
		c.Check(m.RegistrationID() == k.regID, "registration", "chunk %d of call %d of session %d has registration %d, the first one had %d", k.chunks, k.req, x.id, m.RegistrationID(), k.regID)
	} else if m.RequestID() != k.inv || out.Recipient != k.callee.id {
		c.Skip("chunk goes elsewhere")
	}
	k.more = more
	s.invocationDetails(k, m, receive, more)
	s.checkPayload("chunk", p, k.callee.static, m, m.Details())
	return k
}

// policy judges which of the callees was chosen.
func (s *dsim) policy(k *dcall) {
	g, c := k.reg, s.c
	if !s.is("D03") {
		return
	}
	member := false
	for _, x := range g.callees {
		member = member || x == k.callee
	}
	c.Check(member, "not registered", "call to %q goes to %d, which is not registered for it", k.proc, k.callee.id)
	if len(g.callees) < 2 {
		return
	}
	c.Feat("policy " + g.policy)
	switch g.policy {
	case "first":
		c.Check(k.callee == g.callees[0] || k.callee == g.moved[0], "first", "first callee is %d, the call goes to %d", g.callees[0].id, k.callee.id)
	case "last":
		c.Check(k.callee == g.callees[len(g.callees)-1] || k.callee == g.moved[len(g.moved)-1], "last", "last callee is %d, the call goes to %d", g.callees[len(g.callees)-1].id, k.callee.id)
	case "roundrobin":
		g.window = append(g.window, k.callee)
		n := len(g.callees)
		from := max(0, len(g.window)-n)
		for _, y := range g.window[from : len(g.window)-1] {
			c.Check(y != k.callee, "roundrobin", "%d callees; session %d got two of %d consecutive calls", n, y.id, len(g.window)-from)
		}
	}
}

// answer sends a result or an error for an invocation, from session x.
func (s *dsim) answer(x *dsess, k *dcall, asError, progress bool) {
	c := s.c
	p := s.genPayload()
	var msg messages.Message
	details, uri := genDict(s.r, kJSON), "com.err."+genIdent(s.r)
	if s.r.P(30) {
		uri = pick(s.r, []string{"Com.Err." + strings.ToUpper(genIdent(s.r)), "wamp.error.canceled", "wamp.error.no_such_procedure", "wamp.Error.Timeout", "", " com.err ", "com.err.", genString(s.r), "ERR"})
	}
	if asError {
		p.bin = false
		msg = c.via(messages.NewError(68, k.inv, details, uri, p.args, p.kw))
	} else {
		opts := map[string]any{}
		if progress {
			opts["progress"] = true
		} else if s.r.P(10) {
			opts["progress"] = false
		}
		opts = spice(s.r, opts)
		if p.bin {
			msg = messages.NewYieldWithFields(p.fields(V{"RequestID": k.inv, "Options": opts}))
		} else {
			msg = c.via(messages.NewYield(k.inv, opts, p.args, p.kw))
		}
	}
	out, err := s.d.ReceiveMessage(x.id, msg)
	c.Logf("%d answers invocation %d (error %v, progress %v): %v", x.id, k.inv, asError, progress, err)
	if (err != nil || out == nil) && (s.is("D01") || s.is("D02") || s.is("D03") || s.is("D09") || s.is("D10")) {
		c.Skip("answer refused")
	}
	c.Check(err == nil && out != nil && !nilMsg(out.Message), "answer", "the answer of session %d to invocation %d for call %d of %d was refused: %v", x.id, k.inv, k.req, k.caller.id, err)
	if s.is("D04") || s.is("D05") || s.is("D07") {
		c.Check(out.Recipient == k.caller.id, "caller", "the answer to call %d of session %d goes to %d", k.req, k.caller.id, out.Recipient)
	}
	switch m := out.Message.(type) {
	case *messages.Result:
		c.Check(!asError, "kind", "an error arrives as %T", m)
		c.Feat("result")
		if s.is("D04") || s.is("D07") {
			c.Check(m.RequestID() == k.req, "request id", "the answer to call %d of session %d has request id %d", k.req, k.caller.id, m.RequestID())
		}
		marked := m.Details()["progress"] == true
		if s.is("D06") {
			c.Check(marked == (progress && k.receive), "progress", "call wants progress: %v; a result with progress=%v has details %s", k.receive, progress, show(m.Details()))
			if marked {
				c.Feat("progressive result")
			} else if progress {
				c.Feat("unwanted progress")
			}
		}
		s.checkPayload("result", p, k.caller.static, m, m.Details())
		if p.bin {
			c.Feat(map[bool]string{true: "binary result to static", false: "binary result to dynamic"}[k.caller.static])
		}
	case *messages.Error:
		c.Check(asError, "kind", "a result arrives as %T", m)
		c.Feat("error")
		if s.is("D04") || s.is("D07") {
			c.Check(m.RequestID() == k.req && m.MessageType() == 48, "request id", "the error for call %d of session %d has request id %d and type %d", k.req, k.caller.id, m.RequestID(), m.MessageType())
		}
		if s.is("D04") {
			c.Check(m.URI() == uri, "error", "error %q arrives as %q", uri, m.URI())
			c.Check(equalValues(nonNil(details), nonNil(m.Details())), "error", "error details %s arrive as %s", show(details), show(m.Details()))
		}
		s.checkPayload("error", p, k.caller.static, m, m.Details())
	default:
		c.Fail("answer", "answered with %T", out.Message)
	}
	if asError || !progress || !k.receive {
		s.end(k)
		if s.is("D06") && s.r.P(30) { // the call is over
			c.Feat("answer after the end")
			s.refused(x.id, k.inv, "after the end")
		}
	}
}

// refused sends an answer that nobody may accept.
func (s *dsim) refused(from, inv uint64, why string) {
	c := s.c
	var msg messages.Message
	switch s.r.Intn(3) {
	case 0:
		msg = messages.NewYield(inv, map[string]any{}, []any{"intruder"}, nil)
	case 1:
		msg = messages.NewYield(inv, map[string]any{"progress": true}, []any{"intruder"}, nil)
	case 2:
		msg = messages.NewError(68, inv, nil, "com.intruder", nil, nil)
	}
	out, err := s.d.ReceiveMessage(from, c.via(msg))
	c.Logf("%d answers invocation %d (%s): %v", from, inv, why, err)
	to := uint64(0)
	if out != nil {
		to = out.Recipient
	}
	c.Check(err != nil && out == nil, "accepted", "answer of session %d to invocation %d (%s) was accepted and goes to %d", from, inv, why, to)
}

func (s *dsim) stranger() uint64 {
	for {
		id := sessionID(s.r)
		if !s.ids[id] {
			return id
		}
	}
}

func (s *dsim) intrude() {
	if len(s.open) == 0 {
		return
	}
	k := pick(s.r, s.open)
	var from uint64
	switch s.r.Intn(6) {
	case 0:
		from = s.stranger()
	case 1:
		if k.caller != k.callee { // the caller may not report an error (but, by the test suite, a result)
			out, err := s.d.ReceiveMessage(k.caller.id, messages.NewError(68, k.inv, nil, "com.intruder", nil, nil))
			s.c.Check(err != nil && out == nil, "accepted", "error for invocation %d from its caller %d was accepted", k.inv, k.caller.id)
			s.c.Feat("caller's error")
		}
		return
	default:
		x := pick(s.r, s.all)
		if x == k.caller && x.attached && x.incarnation == k.callerInc || x == k.callee {
			return
		}
		from = x.id
	}
	s.c.Feat("third party")
	s.refused(from, k.inv, "third party")
	if s.r.P(20) { // and its real answer still arrives
		s.answer(k.callee, k, s.r.P(30), s.r.P(20))
	}
}

func (s *dsim) late() {
	r := s.r
	if r.P(30) || len(s.ended) == 0 {
		inv := r.ID1()
		if s.invIDs[inv] || len(s.attached) == 0 {
			return
		}
		s.c.Feat("unknown response")
		s.refused(pick(r, s.attached).id, inv, "unknown invocation")
		return
	}
	inv := s.ended[max(0, len(s.ended)-1-r.Intn(6))]
	for _, k := range s.open {
		if k.inv == inv {
			return
		}
	}
	if len(s.attached) == 0 {
		return
	}
	s.c.Feat("late response")
	from := pick(r, s.attached).id
	if len(s.orphans) > 0 && r.P(50) {
		k := pick(r, s.orphans)
		inv, from = k.inv, k.callee.id
	}
	s.refused(from, inv, "late")
}

func (s *dsim) genProc() string {
	r := s.r
	if len(s.used) > 0 {
		switch r.Intn(10) {
		case 0, 1, 2, 3, 4, 5:
			return pick(r, s.used).witness(r)
		case 6:
			return pick(r, s.used).nearMiss(r)
		}
	}
	if r.P(60) {
		return pick(r, s.uris)
	}
	return genTopic(r)
}

func dcase(c *C) {
	r := c.R
	s := newDsim(c)
	for i := 0; i < 2+r.Intn(4); i++ {
		s.uris = append(s.uris, genTopic(r))
	}
	for i := 0; i < 2+r.Intn(4); i++ {
		s.pool = append(s.pool, genKey(r, s.uris))
	}
	policyPool := policies
	if r.P(50) {
		policyPool = []string{pick(r, policies[2:])}
	}
	if s.is("D03") {
		policyPool = []string{pick(r, policies[2:])}
		s.pool = s.pool[:1+r.Intn(2)]
	}
	n := 2 + r.Intn(5)
	if c.Case%300 == 7 {
		n = 60 + r.Intn(200)
	}
	var idList []uint64
	for i := 0; i < n; i++ {
		id := nearID(r, idList)
		idList = append(idList, id)
		if !s.ids[id] {
			s.ids[id] = true
			s.join(id)
		}
	}
	if n > 10 || s.is("D03") {
		k := pick(r, s.pool)
		for _, x := range append([]*dsess{}, s.attached...) {
			if r.P(90) {
				s.register(x, k, pick(r, policyPool[len(policyPool)-1:]))
			}
		}
	}
	steps := 20 + r.Intn(80)
	if c.Case%1000 == 307 {
		c.Feat("long life")
		steps = 2500 + r.Intn(7000)
	}
	// what the history is about
	wCall, wAnswer, wIntrude, wLate, pMore, pReceive := 30, 22, 0, 0, 10, 25
	switch c.P.ID {
	case "D03":
		wCall, pMore = 50, 8
	case "D04":
		wLate, wIntrude = 10, 0
	case "D05":
		wLate, wIntrude = 2, 20
	case "D06":
		pReceive = 60
	case "D07":
		pMore = 60
	}
	for i := 0; i < steps; i++ {
		if len(s.attached) == 0 {
			s.join(pick(r, s.all).id)
		}
		x := pick(r, s.attached)
		op := r.Intn(100)
		switch {
		case op < 4:
			var y *dsess
			if r.P(60) {
				y = pick(r, s.all)
			}
			if y == nil {
				id := nearID(r, idList)
				if !s.ids[id] {
					s.ids[id] = true
					s.join(id)
				}
			} else if !y.attached {
				s.join(y.id)
			}
			continue
		case op < 7:
			if len(s.attached) > 1 {
				s.leave(x)
			}
			continue
		case op < 24:
			k := pick(r, s.pool)
			if r.P(20) && !s.is("D03") && (steps < 1000 || i < 1000) {
				k = genKey(r, s.uris)
			}
			if r.P(6) {
				k.match = pick(r, []string{exact, prefix})
			}
			s.register(x, k, pick(r, policyPool))
			continue
		case op < 31:
			if l := x.sortedRegs(); len(l) > 0 {
				s.unregister(x, pick(r, l))
			}
			continue
		case op < 34:
			s.disclose = r.Bool()
			s.d.AutoDiscloseCaller(s.disclose)
			c.Logf("disclose %v", s.disclose)
			continue
		}
		w := r.Intn(wCall + wAnswer + wIntrude + wLate)
		switch {
		case w < wCall:
			var cont *dcall
			if r.P(60) {
				for _, k := range s.open {
					if k.more && k.caller.attached && (cont == nil || r.Bool()) {
						cont = k
					}
				}
			}
			if cont != nil {
				if s.is("D07") && r.P(2) { // many chunks
					for n := 20 + r.Intn(300); n > 0; n-- {
						s.call(cont.caller, cont.proc, cont, cont.receive, true)
					}
					c.Feat("many chunks")
				}
				s.call(cont.caller, cont.proc, cont, cont.receive, r.P(60))
			} else {
				s.call(x, s.genProc(), nil, r.P(pReceive), r.P(pMore))
			}
		case w < wCall+wAnswer:
			if len(s.open) > 0 {
				k := pick(r, s.open)
				// a final answer before the last chunk ends the call, and the chunks that follow start another one
				if !k.more || r.P(10) {
					s.answer(k.callee, k, r.P(25), r.P(40))
				} else if k.receive {
					s.answer(k.callee, k, false, true)
				}
			}
		case w < wCall+wAnswer+wIntrude:
			s.intrude()
		default:
			s.late()
		}
		if s.is("D02") && r.P(20) {
			s.has(s.genProc())
		}
	}
	// everything that is open can still be answered
	for _, k := range append([]*dcall{}, s.open...) {
		if k.ended {
			continue
		}
		if k.more && r.Bool() {
			s.call(k.caller, k.proc, k, k.receive, false)
		}
		s.answer(k.callee, k, r.P(20), false)
		if wLate > 0 && r.P(30) {
			s.late()
		}
	}
	if c.Case%500 == 107 && len(s.attached) > 0 {
		for len(s.regs) > 0 {
			for _, x := range append([]*dsess{}, s.attached...) {
				for _, g := range x.sortedRegs() {
					s.unregister(x, g)
				}
			}
		}
		s.crowd(policyPool)
	}
	switch c.P.ID {
	case "D02":
		s.probeAll()
	case "D03":
		s.starve()
	}
	c.Mix(strings.Join(c.trace, "\n"))
}

// probeAll calls every registration.
func (s *dsim) probeAll() {
	r, c := s.r, s.c
	caller := s.join(uint64(1)<<53 - 9)
	keys := make([]key, 0, len(s.regs))
	for k := range s.regs {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].uri+keys[i].match < keys[j].uri+keys[j].match })
	for _, k := range keys {
		for round := 0; round < 4 && s.regs[k] != nil; round++ {
			g := s.regs[k]
			for try := 0; try < 6; try++ {
				proc := k.witness(r)
				if k.match == prefix && try > 0 {
					proc = k.uri + fmt.Sprintf("zz%d", try)
				}
				cand := s.serving(proc)
				if len(cand) != 1 || cand[0] != g {
					continue
				}
				dc := s.call(caller, proc, nil, false, false)
				c.Check(dc != nil && dc.reg == g, "not callable", "%s %q is registered by %d, call to %q is not routed to it", k.match, k.uri, g.callees[0].id, proc)
				c.Feat("probe")
				s.answer(dc.callee, dc, false, false)
				break
			}
			x := pick(r, g.callees)
			if r.Bool() {
				s.unregister(x, g)
			} else {
				s.leave(x)
			}
		}
	}
}

// starve makes so many calls that a fair random choice reaches everybody.
func (s *dsim) starve() {
	r, c := s.r, s.c
	caller := s.join(uint64(1)<<53 - 9)
	for _, k := range s.pool {
		g := s.regs[k]
		if g == nil || len(g.callees) > 12 && g.policy != "roundrobin" {
			continue
		}
		proc := k.witness(r)
		if cand := s.serving(proc); len(cand) != 1 || cand[0] != g {
			continue
		}
		n := len(g.callees)
		times := 3 * n
		if g.policy == "random" {
			times = 60 * n // somebody is left out with probability below n*exp(-60)
		}
		got := map[*dsess]int{}
		for i := 0; i < times; i++ {
			dc := s.call(caller, proc, nil, false, r.P(10))
			c.Check(dc != nil && dc.reg == g, "not callable", "call to %q is not routed to %s %q", proc, k.match, k.uri)
			got[dc.callee]++
			if dc.more {
				s.call(caller, proc, dc, false, false)
			}
			s.answer(dc.callee, dc, false, false)
		}
		for _, x := range g.callees {
			if g.policy == "random" || g.policy == "roundrobin" {
				c.Check(got[x] > 0, "starved", "%s: %d of %d callees got none of %d calls: session %d", g.policy, 1, n, times, x.id)
			}
			if g.policy == "roundrobin" {
				c.Check(got[x] == times/n, "roundrobin", "session %d got %d of %d calls for %d callees", x.id, got[x], times, n)
			}
		}
	}
}
