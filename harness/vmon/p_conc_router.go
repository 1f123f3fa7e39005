package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

// Concurrent use of one broker or dealer: small histories of several goroutines on the same sessions, topics and
// procedures are checked for linearizability; longer ones on private sessions are checked step by step, as nothing
// another goroutine does may be noticed.

func init() {
	assume := []string{"schedules are those of the Go scheduler with injected pauses", "small histories: up to 6 goroutines and 40 requests"}
	rule := "goroutines on one %s under the race detector with pauses between its statements; histories of contended requests checked for linearizability, private ones step by step; distinct = different history of requests and replies"
	register(&Prop{ID: "B09", Quick: 10000, Thoro: 1500000, Rule: fmt.Sprintf(rule, "broker"), Assume: assume, Case: b09,
		Need: map[string]int64{"linearizable": 5000, "overlapping requests": 10000, "private requests": 10000, "out of order": 100,
			"subscribe": 500, "unsubscribe": 100, "event": 500, "add": 200, "remove": 100, "disclosed": 50}})
	register(&Prop{ID: "D13", Quick: 10000, Thoro: 1500000, Rule: fmt.Sprintf(rule, "dealer"), Assume: assume, Case: d13,
		Need: map[string]int64{"linearizable": 5000, "overlapping requests": 10000, "private requests": 10000, "out of order": 100,
			"register": 500, "unregister": 100, "invocation": 500, "result": 200, "error": 50, "add": 200, "remove": 100, "chunk": 30, "disclosed": 50, "refused": 50}})
}

const csess, ckeys = 4, 3

// cop is one request and what came of it.
type cop struct {
	op       string
	s, k     int
	id, req  uint64
	ack      bool // or progress
	opt      bool // exclude_me, receive_progress or disclosure
	fail     bool // reply: an error
	out      string
	rid, pid uint64 // ids in the reply
	to       int    // recipient of the reply
	tos      uint8  // recipients of an event
	flags    [3]bool
	call     int64
	ret      int64
	g        int
}

func (o *cop) String() string {
	in := fmt.Sprintf("g%d %s s%d k%d id%d req%d %v %v", o.g, o.op, o.s, o.k, o.id, o.req, o.ack, o.opt)
	if o.fail {
		return in + " -> error"
	}
	return fmt.Sprintf("%s -> %s id%d %d to %d/%04b %v", in, o.out, o.rid, o.pid, o.to, o.tos, o.flags)
}

var cstart = time.Now()

// now is a clock that does not synchronize the goroutines reading it.
func now() int64 { return int64(time.Since(cstart)) }

// cspace names the sessions and the topics or procedures of a history.
type cspace struct {
	ids  [csess]uint64
	keys [ckeys]key
	hits [ckeys]string // what matches only that key
	pol  [ckeys]string
}

func newSpace(r *Rand, name string, base uint64) *cspace {
	sp := &cspace{}
	for i := range sp.ids {
		sp.ids[i] = base + uint64(i)
	}
	sp.keys = [ckeys]key{{name + "a.x", exact}, {name + "p.", prefix}, {name + "w.*.z", wildcard}}
	sp.hits = [ckeys]string{name + "a.x", name + "p.q", name + "w.m.z"}
	for i := range sp.pol {
		sp.pol[i] = pick(r, []string{"", "single", "first", "last", "roundrobin", "roundrobin", "random"})
	}
	return sp
}

func (sp *cspace) index(id uint64) int {
	for i, x := range sp.ids {
		if x == id {
			return i
		}
	}
	return -1
}

func (sp *cspace) details(s int) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(sp.ids[s], "realm", fmt.Sprintf("user%d", sp.ids[s]), fmt.Sprintf("role%d", sp.ids[s]), "anonymous", s&1 == 0, nil, nil)
}

// disclosed tells whether details identify the session, and fails if they identify another one or do it by halves.
func (sp *cspace) disclosed(c *C, details map[string]any, who string, s int, uriKey, uri string) bool {
	n := 0
	for _, k := range []string{who, who + "_authid", who + "_authrole", uriKey} {
		if _, ok := details[k]; ok {
			n++
		}
	}
	if n == 0 {
		return false
	}
	ok := details[who] == any(sp.ids[s]) && details[who+"_authid"] == any(fmt.Sprintf("user%d", sp.ids[s])) && details[who+"_authrole"] == any(fmt.Sprintf("role%d", sp.ids[s])) && details[uriKey] == any(uri)
	c.Check(ok, "half-disclosed", "details %v of a message caused by session %d with %s", details, sp.ids[s], uri)
	return true
}

// conc runs goroutines that generate requests and returns the history.
func conc(c *C, n, each int, gen func(c *C, g, i int, mine []*cop) *cop, do func(c *C, o *cop)) []*cop {
	cs := c.split(n)
	hist := make([][]*cop, n)
	inGoroutines(n, func(g int) {
		for i := 0; i < each; i++ {
			o := gen(cs[g], g, i, hist[g])
			if o == nil {
				continue
			}
			o.g = g
			o.call = now()
			do(cs[g], o)
			o.ret = now()
			hist[g] = append(hist[g], o)
		}
	})
	c.join(cs)
	var all []*cop
	for _, h := range hist {
		all = append(all, h...)
	}
	return all
}

// linearizable checks a history against a sequential model.
func linearizable[S any](c *C, hist []*cop, init S, step func(S, *cop) (S, bool), equal func(a, b S) bool, what string) {
	model := porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			n, ok := step(st.(S), in.(*cop))
			return ok, n
		},
		Equal: func(a, b interface{}) bool { return equal(a.(S), b.(S)) },
	}
	var ops []porcupine.Operation
	sort.SliceStable(hist, func(i, j int) bool { return hist[i].call < hist[j].call })
	for i, o := range hist {
		ops = append(ops, porcupine.Operation{ClientId: o.g, Input: o, Output: o, Call: o.call, Return: o.ret})
		if i > 0 && o.call < hist[i-1].ret {
			c.Feat("overlapping requests")
		}
		o2 := *o
		o2.call, o2.ret = 0, 0
		c.Mix(o2.String())
	}
	res := porcupine.CheckOperationsTimeout(model, ops, 20*time.Second)
	if res == porcupine.Unknown {
		c.Feat("undecided")
		return
	}
	c.nchk += int64(len(ops))
	if res == porcupine.Ok {
		c.Feat("linearizable")
		// was there an order other than that of the calls?
		st, inOrder := init, true
		for _, o := range hist {
			n, ok := step(st, o)
			if !ok {
				inOrder = false
				break
			}
			st = n
		}
		if !inOrder {
			c.Feat("out of order")
		}
	}
	if res == porcupine.Illegal {
		var l []string
		for _, o := range hist {
			l = append(l, fmt.Sprintf("[%d..%d] %s", o.call-hist[0].call, o.ret-hist[0].call, o))
		}
		c.Fail("not-linearizable", "no order of these requests to the %s explains the replies:\n%s", what, strings.Join(l, "\n"))
	}
}

// ---- broker

type bst struct {
	att  uint8
	hold [ckeys]uint8
	ids  [ckeys]uint64
	disc bool
}

func bstep(s bst, o *cop) (bst, bool) {
	bit := uint8(1) << o.s
	on := s.att&bit != 0
	switch o.op {
	case "add":
		if on {
			return s, o.fail
		}
		s.att |= bit
		return s, !o.fail
	case "remove":
		if !on {
			return s, o.fail
		}
		s.att &^= bit
		for k := range s.hold {
			s.hold[k] &^= bit
		}
		return s, !o.fail
	case "disclose":
		s.disc = o.opt
		return s, true
	case "has":
		return s, o.flags[0] == (s.hold[o.k] != 0)
	case "subscribe":
		if !on {
			return s, o.fail
		}
		if o.fail || s.hold[o.k] != 0 && s.ids[o.k] != o.rid {
			return s, false
		}
		for k := range s.hold {
			if k != o.k && s.hold[k] != 0 && s.ids[k] == o.rid {
				return s, false
			}
		}
		s.hold[o.k] |= bit
		s.ids[o.k] = o.rid
		return s, true
	case "unsubscribe":
		for k := range s.hold {
			if on && s.hold[k]&bit != 0 && s.ids[k] == o.id {
				s.hold[k] &^= bit
				return s, !o.fail
			}
		}
		return s, o.fail
	case "publish":
		if !on {
			return s, o.fail
		}
		want := uint8(0)
		if o.k < ckeys {
			want = s.hold[o.k]
		}
		if !o.opt { // exclude_me is not false
			want &^= bit
		}
		if o.fail || o.tos != want {
			return s, false
		}
		if want != 0 {
			return s, o.rid == s.ids[o.k] && o.flags[0] == s.disc
		}
		return s, true
	}
	return s, false
}

func doBroker(b *wampproto.Broker, sp *cspace) func(c *C, o *cop) {
	return func(c *C, o *cop) {
		reply := func(out *wampproto.MessageWithRecipient, err error) messages.Message {
			if err != nil {
				o.fail = true
				return nil
			}
			c.Check(out != nil && out.Recipient == sp.ids[o.s], "recipient", "%s: the reply %v does not go to session %d", o, out, sp.ids[o.s])
			return out.Message
		}
		switch o.op {
		case "add":
			o.fail = b.AddSession(sp.details(o.s)) != nil
		case "remove":
			o.fail = b.RemoveSession(sp.ids[o.s]) != nil
		case "disclose":
			b.AutoDisclosePublisher(o.opt)
		case "has":
			o.flags[0] = b.HasSubscription(sp.keys[o.k].uri)
		case "subscribe":
			m := reply(b.ReceiveMessage(sp.ids[o.s], messages.NewSubscribe(o.req, map[string]any{"match": sp.keys[o.k].match}, sp.keys[o.k].uri)))
			if !o.fail {
				x, ok := m.(*messages.Subscribed)
				c.Check(ok && x.RequestID() == o.req, "reply", "%s: reply %v", o, m)
				o.out, o.rid = "SUBSCRIBED", x.SubscriptionID()
			}
		case "unsubscribe":
			m := reply(b.ReceiveMessage(sp.ids[o.s], messages.NewUnsubscribe(o.req, o.id)))
			if !o.fail {
				x, ok := m.(*messages.Unsubscribed)
				c.Check(ok && x.RequestID() == o.req, "reply", "%s: reply %v", o, m)
				o.out = "UNSUBSCRIBED"
			}
		case "publish":
			opt := map[string]any{}
			if o.ack {
				opt["acknowledge"] = true
			}
			if o.opt {
				opt["exclude_me"] = false
			}
			topic := "nobody.listens"
			if o.k < ckeys {
				topic = sp.hits[o.k]
			}
			p, err := b.ReceivePublish(sp.ids[o.s], messages.NewPublish(o.req, opt, topic, []any{o.req}, nil))
			if err != nil {
				o.fail = true
				break
			}
			c.Check(p != nil && (p.Ack != nil) == o.ack, "ack", "%s: acknowledged %v", o, p != nil && p.Ack != nil)
			if p.Ack != nil {
				x, ok := p.Ack.Message.(*messages.Published)
				c.Check(ok && x.RequestID() == o.req && p.Ack.Recipient == sp.ids[o.s], "ack", "%s: acknowledged by %v to %d", o, p.Ack.Message, p.Ack.Recipient)
				o.pid = x.PublicationID()
			}
			o.out = "published"
			for _, id := range p.Recipients {
				i := sp.index(id)
				c.Check(i >= 0, "recipient", "%s: event for session %d", o, id)
				c.Check(o.tos&(1<<i) == 0, "recipient", "%s: two events for session %d", o, id)
				o.tos |= 1 << i
			}
			if len(p.Recipients) > 0 {
				c.Check(p.Event != nil, "event", "%s: recipients %v but no event", o, p.Recipients)
				e := p.Event
				o.rid = e.SubscriptionID()
				c.Check(o.pid == 0 || o.pid == e.PublicationID(), "publication-id", "%s: publication id %d in the event and %d in the acknowledgement", o, e.PublicationID(), o.pid)
				o.pid = e.PublicationID()
				c.Check(len(e.Args()) == 1 && e.Args()[0] == any(o.req), "event", "%s: the event carries %v", o, e.Args())
				o.flags[0] = sp.disclosed(c, e.Details(), "publisher", o.s, "topic", topic)
				c.Feat("event")
				if o.flags[0] {
					c.Feat("disclosed")
				}
			}
		}
		if !o.fail {
			c.Feat(o.op)
		}
	}
}

func genBroker(sp *cspace, private bool) func(c *C, g, i int, mine []*cop) *cop {
	return func(c *C, g, i int, mine []*cop) *cop {
		r := c.R
		o := &cop{op: pick(r, []string{"add", "add", "remove", "subscribe", "subscribe", "subscribe", "subscribe", "unsubscribe", "unsubscribe", "publish", "publish", "publish", "publish", "has", "disclose"}),
			s: r.Intn(csess), k: r.Intn(ckeys), req: uint64(g)<<32 + uint64(i) + 1, ack: r.Bool(), opt: r.Bool()}
		switch o.op {
		case "publish":
			if r.P(10) {
				o.k = ckeys
			}
		case "disclose":
			if private {
				return nil
			}
		case "unsubscribe":
			o.id = uint64(r.Intn(8) + 1)
			if private {
				o.id = 1 << 50
			}
			for _, m := range mine {
				if m.op == "subscribe" && !m.fail && r.Bool() {
					o.id = m.rid
					if r.P(80) {
						o.s = m.s
					}
				}
			}
		}
		return o
	}
}

// ids that must not be shared
func distinctIDs(c *C, hist []*cop, of func(o *cop) (id uint64, owner string)) {
	owner := map[uint64]string{}
	for _, o := range hist {
		id, w := of(o)
		if w == "" {
			continue
		}
		c.nchk++
		if p, ok := owner[id]; ok && p != w {
			c.Fail("shared-id", "id %d stands for %s and for %s", id, p, w)
		}
		owner[id] = w
	}
}

func b09(c *C) {
	r := c.R
	b := wampproto.NewBroker()
	if c.Case%3 == 2 {
		n := 2 + r.Intn(5)
		disc := r.Bool()
		b.AutoDisclosePublisher(disc)
		spaces := make([]*cspace, n)
		for g := range spaces {
			spaces[g] = newSpace(r, fmt.Sprintf("g%d.", g), uint64(g*100+1))
		}
		hist := private(c, n, bst{disc: disc}, spaces, genBroker, func(sp *cspace) func(*C, *cop) { return doBroker(b, sp) }, bstep)
		brokerIDs(c, hist)
		return
	}
	sp := newSpace(r, "", 1)
	do := doBroker(b, sp)
	hist := conc(c, 1, 2+r.Intn(6), func(c *C, g, i int, mine []*cop) *cop {
		if i < 2 {
			return &cop{op: "add", s: i}
		}
		return &cop{op: "subscribe", s: c.R.Intn(2), k: c.R.Intn(ckeys), req: uint64(i)}
	}, do)
	n := 2 + r.Intn(4)
	hist = append(hist, conc(c, n, 3+r.Intn(24/n), genBroker(sp, false), do)...)
	// afterwards the broker is in a state that one order would have left it in
	hist = append(hist, conc(c, 1, 2*ckeys+1, func(c *C, g, i int, mine []*cop) *cop {
		switch {
		case i == 0:
			return &cop{op: "add", s: 3}
		case i <= ckeys:
			return &cop{op: "publish", s: 3, k: i - 1, req: 1<<40 + uint64(i), ack: true, opt: true}
		}
		return &cop{op: "has", k: i - ckeys - 1}
	}, do)...)
	brokerIDs(c, hist)
	linearizable(c, hist, bst{}, bstep, func(a, b bst) bool { return a == b }, "broker")
}

func brokerIDs(c *C, hist []*cop) {
	distinctIDs(c, hist, func(o *cop) (uint64, string) {
		if o.op != "subscribe" || o.fail {
			return 0, ""
		}
		return o.rid, fmt.Sprint("subscription to topic ", o.k)
	})
	distinctIDs(c, hist, func(o *cop) (uint64, string) {
		if o.op != "publish" || o.fail || o.pid == 0 {
			return 0, ""
		}
		return o.pid, fmt.Sprint("publication ", o.g, " ", o.req)
	})
}

// private runs goroutines each of which uses sessions and topics of its own, and checks each history by itself.
func private[S any](c *C, n int, init S, spaces []*cspace, gen func(*cspace, bool) func(*C, int, int, []*cop) *cop,
	do func(*cspace) func(*C, *cop), step func(S, *cop) (S, bool)) []*cop {
	cs := c.split(n)
	hist := make([][]*cop, n)
	inGoroutines(n, func(g int) {
		c := cs[g]
		st := init
		gf, df := gen(spaces[g], true), do(spaces[g])
		for i := 0; i < 60; i++ {
			o := gf(c, g, i, hist[g])
			if i < csess {
				o = &cop{op: "add", s: i}
			}
			if o == nil {
				continue
			}
			o.g, o.to = g, -1
			df(c, o)
			c.Logf("%s", o)
			hist[g] = append(hist[g], o)
			next, ok := step(st, o)
			c.Check(ok, "disturbed", "goroutine %d alone uses these sessions and URIs, yet: %s in state %+v", g, o, st)
			st = next
			c.Feat("private requests")
		}
	})
	c.join(cs)
	var all []*cop
	for g, h := range hist {
		for _, o := range h {
			o.k += g * 10 // tell the topics apart
			all = append(all, o)
		}
	}
	return all
}

// ---- dealer

type dreg13 struct {
	id      uint64
	callees string // session indices in order of registration
	recent  string // the last calls
}

type dopen struct {
	inv, req       uint64
	caller, callee int
	more, receive  bool
	reg            uint64
}

type dst struct {
	att  uint8
	regs [ckeys]dreg13
	open []dopen
	disc bool
	sp   *cspace
}

func (s *dst) without(i int) []dopen {
	l := append([]dopen{}, s.open[:i]...)
	return append(l, s.open[i+1:]...)
}

func dstep(s dst, o *cop) (dst, bool) {
	bit := uint8(1) << o.s
	on := s.att&bit != 0
	me := string(rune('0' + o.s))
	drop := func(k int) {
		g := &s.regs[k]
		g.callees = strings.Replace(g.callees, me, "", 1)
		g.recent = ""
	}
	switch o.op {
	case "add":
		if on {
			return s, o.fail
		}
		s.att |= bit
		return s, !o.fail
	case "remove":
		if !on {
			return s, o.fail
		}
		s.att &^= bit
		for k := range s.regs {
			if strings.Contains(s.regs[k].callees, me) {
				drop(k)
			}
		}
		var open []dopen
		for _, p := range s.open {
			if p.caller != o.s && p.callee != o.s {
				open = append(open, p)
			}
		}
		s.open = open
		return s, !o.fail
	case "disclose":
		s.disc = o.opt
		return s, true
	case "has":
		return s, o.flags[0] == (s.regs[o.k].callees != "")
	case "register":
		if !on {
			return s, o.fail
		}
		if o.fail {
			return s, false
		}
		g := &s.regs[o.k]
		pol := s.sp.pol[o.k]
		if g.callees != "" {
			if pol == "" || pol == "single" {
				return s, o.out == alreadyExists
			}
			if o.out != "REGISTERED" || o.rid != g.id {
				return s, false
			}
			if !strings.Contains(g.callees, me) {
				g.callees += me
				g.recent = ""
			}
			return s, true
		}
		if o.out != "REGISTERED" {
			return s, false
		}
		for k := range s.regs {
			if k != o.k && s.regs[k].callees != "" && s.regs[k].id == o.rid {
				return s, false
			}
		}
		*g = dreg13{id: o.rid, callees: me}
		return s, true
	case "unregister":
		for k := range s.regs {
			if on && strings.Contains(s.regs[k].callees, me) && s.regs[k].id == o.id {
				drop(k)
				return s, !o.fail
			}
		}
		return s, o.fail
	case "call":
		if !on {
			return s, o.fail
		}
		if o.fail {
			return s, false
		}
		for i, p := range s.open {
			if p.caller == o.s && p.req == o.req && p.more {
				if o.out != "INVOCATION" || o.rid != p.inv || o.to != p.callee || o.pid != p.reg || o.flags[0] != o.ack || o.flags[2] != s.disc {
					return s, false
				}
				s.open = append([]dopen{}, s.open...)
				s.open[i].more = o.ack
				return s, true
			}
		}
		if o.k >= ckeys || s.regs[o.k].callees == "" {
			return s, o.out == noSuchProcedure
		}
		g := &s.regs[o.k]
		if o.out != "INVOCATION" || o.pid != g.id || o.to < 0 || o.flags[0] != o.ack || o.flags[1] != o.opt || o.flags[2] != s.disc {
			return s, false
		}
		callee := string(rune('0' + o.to))
		if !strings.Contains(g.callees, callee) {
			return s, false
		}
		switch s.sp.pol[o.k] {
		case "first":
			if g.callees[:1] != callee {
				return s, false
			}
		case "last":
			if g.callees[len(g.callees)-1:] != callee {
				return s, false
			}
		case "roundrobin":
			if strings.Contains(g.recent, callee) {
				return s, false
			}
			g.recent += callee
			if len(g.recent) >= len(g.callees) {
				g.recent = g.recent[len(g.recent)-len(g.callees)+1:]
			}
		}
		for _, p := range s.open {
			if p.inv == o.rid {
				return s, false
			}
		}
		s.open = append(append([]dopen{}, s.open...), dopen{inv: o.rid, req: o.req, caller: o.s, callee: o.to, more: o.ack, receive: o.opt, reg: g.id})
		sort.Slice(s.open, func(i, j int) bool { return s.open[i].inv < s.open[j].inv })
		return s, true
	case "yield", "error":
		for i, p := range s.open {
			if p.inv == o.id && p.callee == o.s {
				if o.fail || o.to != p.caller || o.req != p.req {
					return s, false
				}
				progress := o.op == "yield" && o.ack && p.receive
				if !progress {
					s.open = s.without(i)
				}
				return s, o.flags[0] == progress
			}
		}
		return s, o.fail
	}
	return s, false
}

func dequal(a, b dst) bool {
	if a.att != b.att || a.regs != b.regs || a.disc != b.disc || len(a.open) != len(b.open) {
		return false
	}
	for i := range a.open {
		if a.open[i] != b.open[i] {
			return false
		}
	}
	return true
}

func doDealer(d *wampproto.Dealer, sp *cspace) func(c *C, o *cop) {
	return func(c *C, o *cop) {
		var to uint64
		reply := func(out *wampproto.MessageWithRecipient, err error) messages.Message {
			if err != nil {
				o.fail = true
				c.Feat("refused")
				return nil
			}
			c.Check(out != nil, "reply", "%s: neither reply nor error", o)
			to = out.Recipient
			o.to = sp.index(to)
			c.Check(o.to >= 0, "recipient", "%s: reply to session %d", o, to)
			return out.Message
		}
		switch o.op {
		case "add":
			o.fail = d.AddSession(sp.details(o.s)) != nil
		case "remove":
			o.fail = d.RemoveSession(sp.ids[o.s]) != nil
		case "disclose":
			d.AutoDiscloseCaller(o.opt)
		case "has":
			o.flags[0] = d.HasProcedure(sp.keys[o.k].uri)
		case "register":
			m := reply(d.ReceiveMessage(sp.ids[o.s], messages.NewRegister(o.req, map[string]any{"match": sp.keys[o.k].match, "invoke": sp.pol[o.k]}, sp.keys[o.k].uri)))
			switch x := m.(type) {
			case *messages.Registered:
				c.Check(x.RequestID() == o.req && o.to == o.s, "reply", "%s: REGISTERED for request %d to %d", o, x.RequestID(), to)
				o.out, o.rid = "REGISTERED", x.RegistrationID()
			case *messages.Error:
				c.Check(x.RequestID() == o.req && x.MessageType() == 64 && o.to == o.s, "reply", "%s: ERROR for request %d to %d", o, x.RequestID(), to)
				o.out = x.URI()
			default:
				c.Check(o.fail, "reply", "%s: reply %v", o, m)
			}
		case "unregister":
			m := reply(d.ReceiveMessage(sp.ids[o.s], messages.NewUnregister(o.req, o.id)))
			if !o.fail {
				x, ok := m.(*messages.Unregistered)
				c.Check(ok && x.RequestID() == o.req && o.to == o.s, "reply", "%s: reply %v to %d", o, m, to)
				o.out = "UNREGISTERED"
			}
		case "call":
			proc := "nobody.registers"
			if o.k < ckeys {
				proc = sp.hits[o.k]
			}
			opt := map[string]any{}
			if o.ack {
				opt["progress"] = true
			}
			if o.opt {
				opt["receive_progress"] = true
			}
			mark := now()
			m := reply(d.ReceiveMessage(sp.ids[o.s], messages.NewCall(o.req, opt, proc, []any{mark}, nil)))
			switch x := m.(type) {
			case *messages.Invocation:
				o.out, o.rid, o.pid = "INVOCATION", x.RequestID(), x.RegistrationID()
				o.flags[0], _ = x.Details()["progress"].(bool)
				o.flags[1], _ = x.Details()["receive_progress"].(bool)
				o.flags[2] = sp.disclosed(c, x.Details(), "caller", o.s, "procedure", proc)
				c.Check(len(x.Args()) == 1 && x.Args()[0] == any(mark), "args", "%s: the invocation carries %v instead of %d", o, x.Args(), mark)
				c.Feat("invocation")
				if o.flags[2] {
					c.Feat("disclosed")
				}
			case *messages.Error:
				c.Check(x.RequestID() == o.req && x.MessageType() == 48 && o.to == o.s, "reply", "%s: ERROR for request %d to %d", o, x.RequestID(), to)
				o.out = x.URI()
			default:
				c.Check(o.fail, "reply", "%s: reply %v", o, m)
			}
		case "yield":
			opt := map[string]any{}
			if o.ack {
				opt["progress"] = true
			}
			mark := now()
			m := reply(d.ReceiveMessage(sp.ids[o.s], messages.NewYield(o.id, opt, []any{mark}, nil)))
			if !o.fail {
				x, ok := m.(*messages.Result)
				c.Check(ok && len(x.Args()) == 1 && x.Args()[0] == any(mark), "reply", "%s: reply %v", o, m)
				o.out, o.req = "RESULT", x.RequestID()
				o.flags[0], _ = x.Details()["progress"].(bool)
				c.Feat("result")
			}
		case "error":
			m := reply(d.ReceiveMessage(sp.ids[o.s], messages.NewError(68, o.id, nil, "e.rr", []any{o.id}, nil)))
			if !o.fail {
				x, ok := m.(*messages.Error)
				c.Check(ok && x.MessageType() == 48 && x.URI() == "e.rr" && len(x.Args()) == 1 && x.Args()[0] == any(o.id), "reply", "%s: reply %v", o, m)
				o.out, o.req = "ERROR", x.RequestID()
			}
		}
		if !o.fail {
			c.Feat(o.op)
		}
	}
}

func genDealer(sp *cspace, private bool) func(c *C, g, i int, mine []*cop) *cop {
	return func(c *C, g, i int, mine []*cop) *cop {
		r := c.R
		o := &cop{op: pick(r, []string{"add", "add", "remove", "register", "register", "register", "unregister", "call", "call", "call", "call", "call", "yield", "yield", "yield", "yield", "error", "has", "disclose"}),
			s: r.Intn(csess), k: r.Intn(ckeys), req: uint64(g+1)<<32 + uint64(i) + 1, ack: r.P(30), opt: r.P(40)}
		if private && o.op == "remove" && r.P(50) {
			o.op = "call"
		}
		switch o.op {
		case "call":
			if r.P(8) {
				o.k = ckeys
			}
			for _, m := range mine { // another chunk
				if m.op == "call" && m.out == "INVOCATION" && m.ack && r.P(50) {
					last := true
					for _, n := range mine {
						last = last && (n.req != m.req || n.op != "call" || n.ack)
					}
					if last {
						o.s, o.k, o.req, o.opt = m.s, m.k, m.req, m.opt
						c.Feat("chunk")
						break
					}
				}
			}
		case "disclose":
			if private {
				return nil
			}
		case "unregister":
			o.id = uint64(r.Intn(8) + 1)
			if private {
				o.id = 1 << 50
			}
			for _, m := range mine {
				if m.op == "register" && m.out == "REGISTERED" && r.Bool() {
					o.id = m.rid
					if r.P(80) {
						o.s = m.s
					}
				}
			}
		case "yield", "error":
			o.req = 0
			o.id = uint64(r.Intn(12) + 1)
			if private {
				o.id = 1 << 50
			}
			callee, caller := -1, -1
			for _, m := range mine {
				if m.op == "call" && m.out == "INVOCATION" && r.P(60) {
					o.id, callee, caller = m.rid, m.to, m.s
				}
			}
			if callee >= 0 && r.P(85) {
				o.s = callee
			} else if callee >= 0 && o.s == caller {
				return nil // the dealer takes results from the caller
			} else if callee < 0 && !private && o.op == "yield" {
				return nil // it might be the caller's
			}
		}
		return o
	}
}

func d13(c *C) {
	r := c.R
	d := wampproto.NewDealer()
	if c.Case%3 == 2 {
		n := 2 + r.Intn(5)
		disc := r.Bool()
		d.AutoDiscloseCaller(disc)
		spaces := make([]*cspace, n)
		for g := range spaces {
			spaces[g] = newSpace(r, fmt.Sprintf("g%d.", g), uint64(g*100+1))
		}
		hist := private(c, n, dst{disc: disc}, spaces, genDealer, func(sp *cspace) func(*C, *cop) { return doDealer(d, sp) },
			func(s dst, o *cop) (dst, bool) { s.sp = spaces[o.g]; return dstep(s, o) })
		dealerIDs(c, hist)
		return
	}
	sp := newSpace(r, "", 1)
	do := doDealer(d, sp)
	hist := conc(c, 1, 2+r.Intn(6), func(c *C, g, i int, mine []*cop) *cop {
		if i < 2 {
			return &cop{op: "add", s: i}
		}
		return &cop{op: "register", s: c.R.Intn(2), k: c.R.Intn(ckeys), req: uint64(i)}
	}, do)
	n := 2 + r.Intn(4)
	mid := conc(c, n, 3+r.Intn(24/n), genDealer(sp, false), do)
	hist = append(hist, mid...)
	var calls []*cop
	for _, o := range mid {
		if o.op == "call" && o.out == "INVOCATION" {
			calls = append(calls, o)
		}
	}
	// afterwards the dealer is in a state that one order would have left it in
	hist = append(hist, conc(c, 1, 2*ckeys+1+len(calls), func(c *C, g, i int, mine []*cop) *cop {
		switch {
		case i == 0:
			return &cop{op: "add", s: 3}
		case i <= ckeys:
			return &cop{op: "call", s: 3, k: i - 1, req: 1<<40 + uint64(i), opt: true}
		case i <= 2*ckeys:
			return &cop{op: "has", k: i - ckeys - 1}
		}
		m := calls[i-2*ckeys-1]
		return &cop{op: "yield", s: m.to, id: m.rid}
	}, do)...)
	dealerIDs(c, hist)
	linearizable(c, hist, dst{sp: sp}, dstep, dequal, "dealer")
}

func dealerIDs(c *C, hist []*cop) {
	distinctIDs(c, hist, func(o *cop) (uint64, string) {
		if o.op != "register" || o.out != "REGISTERED" {
			return 0, ""
		}
		return o.rid, fmt.Sprint("registration of procedure ", o.k)
	})
	distinctIDs(c, hist, func(o *cop) (uint64, string) {
		if o.op != "call" || o.out != "INVOCATION" {
			return 0, ""
		}
		return o.rid, fmt.Sprintf("call %d of session %d", o.req, o.s)
	})
}
