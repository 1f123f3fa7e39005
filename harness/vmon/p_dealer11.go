package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

func init() {
	register(&Prop{ID: "D11", Quick: 7000, Thoro: 700000, Case: d11,
		Rule: "two dealers given the same valid requests, one of them rejected requests in between, and unrestrained sequences of random requests; distinct = different history",
		Need: map[string]int64{"rejected": 20000, "compared": 20000, "stranger": 2000, "foreign registration": 500, "added twice": 1000,
			"removed stranger": 1000, "other message": 1000, "refused CANCEL": 0, "foreign answer": 500, "stale answer": 500, "conflict": 300, "no such procedure": 500, "chaos": 20000},
		Assume: []string{"policy random and overlapping wildcards are not used where the two dealers are compared, as their outcome may differ by chance"}})
}

// dchaos sends anything; nothing may panic, and an error comes without a message.
func dchaos(c *C) {
	r := c.R
	d := wampproto.NewDealer()
	var ids []uint64
	for i := 0; i < 6; i++ {
		ids = append(ids, uint64(1+r.Intn(9)))
	}
	for i := 0; i < 4; i++ {
		ids = append(ids, r.ID())
	}
	uris := []string{"a", "a.b", "a.*", "*", "", "a.", "[", "a[", "\\", "*.*", genTopic(r)}
	opts := func() map[string]any {
		m := map[string]any{}
		for _, k := range []string{"match", "invoke", "progress", "receive_progress"} {
			if r.Bool() {
				m[k] = pick(r, []any{exact, prefix, wildcard, "single", "first", "last", "roundrobin", "random", "bogus", "", true, true, false, 1, nil, []any{}, map[string]any{}})
			}
		}
		if r.P(5) {
			return nil
		}
		return m
	}
	n := 30 + r.Intn(150)
	for i := 0; i < n; i++ {
		id := pick(r, ids)
		c.Feat("chaos")
		var msg messages.Message
		switch r.Intn(12) {
		case 0:
			err := d.AddSession(wampproto.NewSessionDetails(id, "", "", "", "", r.Bool(), nil, nil))
			c.Logf("add %d: %v", id, err)
			continue
		case 1:
			if r.P(60) {
				err := d.RemoveSession(id)
				c.Logf("remove %d: %v", id, err)
				continue
			}
			d.AutoDiscloseCaller(r.Bool())
			d.HasProcedure(pick(r, uris))
			continue
		case 2, 3:
			msg = messages.NewRegister(pick(r, ids), opts(), pick(r, uris))
		case 4, 5, 6:
			msg = messages.NewCall(pick(r, ids), opts(), pick(r, uris), []any{i}, nil)
		case 7, 8:
			msg = messages.NewYield(pick(r, ids), opts(), []any{i}, nil)
		case 9:
			msg = messages.NewError(pick(r, []uint64{68, 68, 68, 48, 0}), pick(r, ids), opts(), "e", nil, nil)
		case 10:
			msg = messages.NewUnregister(pick(r, ids), pick(r, ids))
		case 11:
			msg = randomMessage(r, pick(r, mtypes), ids, uris)
		}
		if r.P(20) {
			msg = c.via(msg)
		}
		out, err := d.ReceiveMessage(id, msg)
		c.Logf("%s of %d: %v", mtypeByCode[msg.Type()].name, id, err)
		c.Check((err == nil) != (out == nil), "neither", "%s of %d: reply %v, error %v", mtypeByCode[msg.Type()].name, id, out, err)
	}
	c.Mix(strings.Join(c.trace, "\n"))
}

func d11(c *C) {
	if c.Case%5 == 0 {
		dchaos(c)
		return
	}
	r := c.R
	a, b := wampproto.NewDealer(), wampproto.NewDealer()
	bij := newBijection()
	type call struct {
		inv            uint64 // on dealer a
		caller, callee uint64
		req            uint64
		proc           string
		receive, more  bool
	}
	type sess struct {
		id       uint64
		details  *wampproto.SessionDetails
		attached bool
		regs     map[uint64]key // ids of dealer a
	}
	type reg struct {
		policy  string
		holders map[*sess]bool
	}
	alive := map[key]*reg{}
	m := &bsim{noOver: true, alive: map[key]uint64{}}
	var all []*sess
	var open []*call
	var done []uint64
	var pool []key
	var near []string
	for i := 0; i < 4; i++ {
		near = append(near, genTopic(r))
	}
	for i := 0; i < 5; i++ {
		pool = append(pool, genKey(r, near))
	}
	pol := pick(r, [][]string{{"", "single", "first", "last", "roundrobin"}, {"roundrobin"}, {"last"}})
	pick1 := func(attached bool) *sess {
		var l []*sess
		for _, s := range all {
			if s.attached == attached {
				l = append(l, s)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return pick(r, l)
	}
	byID := func(id uint64) *sess {
		for _, s := range all {
			if s.id == id {
				return s
			}
		}
		return nil
	}
	newID := func() uint64 {
		for {
			if id := sessionID(r); byID(id) == nil {
				return id
			}
		}
	}
	join := func(s *sess) {
		s.details = wampproto.NewSessionDetails(s.id, "realm", genIdent(r), genIdent(r), "anonymous", r.Bool(), nil, nil)
		ea, eb := a.AddSession(s.details), b.AddSession(s.details)
		c.Check(ea == nil && eb == nil, "valid request refused", "adding session %d: %v, after rejected requests %v", s.id, ea, eb)
		s.attached, s.regs = true, map[uint64]key{}
		c.Logf("join %d", s.id)
	}
	drop := func(s *sess, id uint64) {
		k := s.regs[id]
		delete(s.regs, id)
		delete(alive[k].holders, s)
		if len(alive[k].holders) == 0 {
			delete(alive, k)
			delete(m.alive, k)
		}
	}
	strangers := func() uint64 {
		if s := pick1(false); s != nil && r.Bool() {
			return s.id
		}
		return newID()
	}
	regIDs := func() []uint64 {
		set := map[uint64]bool{}
		for _, s := range all {
			for id := range s.regs {
				set[id] = true
			}
		}
		return sortedIDs(set)
	}
	anyID := func() uint64 {
		if s := pick1(true); s != nil && r.P(80) {
			return s.id
		}
		return strangers()
	}
	proc := func() string {
		if r.P(85) {
			return pick(r, pool).witness(r)
		}
		return genTopic(r)
	}
	rejected := func() {
		c.Feat("rejected")
		refuse := func(what string, out *wampproto.MessageWithRecipient, err error) {
			c.Check(err != nil, "accepted", "%s was accepted: %+v", what, out)
			c.Check(out == nil, "accepted", "%s: error %v came with %+v", what, err, out)
			c.Logf("rejected: %s", what)
		}
		answer := func(inv uint64) messages.Message {
			switch r.Intn(3) {
			case 0:
				return messages.NewYield(inv, map[string]any{"progress": true}, nil, nil)
			case 1:
				return messages.NewError(68, inv, nil, "com.intruder", nil, nil)
			}
			return messages.NewYield(inv, nil, []any{"intruder"}, nil)
		}
		switch r.Intn(11) {
		case 0:
			c.Feat("stranger")
			id, k := strangers(), pick(r, pool)
			out, err := b.ReceiveMessage(id, c.via(messages.NewRegister(r.ID1(), map[string]any{"match": k.match, "invoke": pick(r, pol)}, k.uri)))
			refuse(fmt.Sprintf("REGISTER of stranger %d", id), out, err)
		case 1:
			c.Feat("stranger")
			id := strangers()
			req := r.ID1()
			if len(open) > 0 && r.Bool() {
				req = pick(r, open).req
			}
			out, err := b.ReceiveMessage(id, c.via(messages.NewCall(req, map[string]any{"progress": r.Bool()}, proc(), nil, nil)))
			refuse(fmt.Sprintf("CALL of stranger %d", id), out, err)
		case 2:
			c.Feat("stranger")
			id, reg := strangers(), r.ID1()
			if l := regIDs(); len(l) > 0 {
				reg = bij.get("reg", pick(r, l))
			}
			out, err := b.ReceiveMessage(id, messages.NewUnregister(r.ID1(), reg))
			refuse(fmt.Sprintf("UNREGISTER of stranger %d from %d", id, reg), out, err)
		case 3:
			s := pick1(true)
			if s == nil {
				return
			}
			reg := r.ID1()
			if l := regIDs(); len(l) > 0 && r.P(85) {
				reg = bij.get("reg", pick(r, l))
				c.Feat("foreign registration")
			}
			for id := range s.regs {
				if bij.get("reg", id) == reg {
					return
				}
			}
			out, err := b.ReceiveMessage(s.id, messages.NewUnregister(r.ID1(), reg))
			refuse(fmt.Sprintf("UNREGISTER of %d from %d, which it does not hold", s.id, reg), out, err)
		case 4:
			s := pick1(true)
			if s == nil {
				return
			}
			c.Feat("added twice")
			d := s.details
			if r.Bool() {
				d = wampproto.NewSessionDetails(s.id, "other", "imp", "imp", "ticket", !d.StaticSerializer(), nil, nil)
			}
			err := b.AddSession(d)
			c.Check(err != nil, "accepted", "session %d was added twice", s.id)
			c.Logf("rejected: adding %d again", s.id)
		case 5:
			c.Feat("removed stranger")
			id := strangers()
			err := b.RemoveSession(id)
			c.Check(err != nil, "accepted", "session %d was removed, but was not attached", id)
			c.Logf("rejected: removing %d", id)
		case 6:
			c.Feat("other message")
			t := pick(r, mtypes)
			switch t.name {
			case "CALL", "YIELD", "REGISTER", "UNREGISTER", "ERROR":
				return
			}
			id := anyID()
			var ids []uint64
			for _, x := range regIDs() {
				ids = append(ids, bij.get("reg", x))
			}
			for _, k := range open {
				ids = append(ids, k.req, bij.get("inv", k.inv))
			}
			msg := randomMessage(r, t, ids, near)
			if t.name == "CANCEL" || r.P(10) && len(open) > 0 {
				// a request that would be understood by a dealer that cancels calls, and refused by one that does not
				if len(ids) > 0 {
					opts := map[string]any{}
					if r.Bool() {
						opts["mode"] = pick(r, []string{"skip", "kill", "killnowait"})
					}
					msg = messages.NewCancel(pick(r, ids), opts)
				}
				out, err := b.ReceiveMessage(id, c.via(msg))
				if err == nil {
					c.Skip("CANCEL is handled")
				}
				c.Feat("refused CANCEL")
				refuse(fmt.Sprintf("CANCEL of %d", id), out, err)
				return
			}
			out, err := b.ReceiveMessage(id, msg)
			refuse(fmt.Sprintf("%s of %d", t.name, id), out, err)
		case 7: // an answer to somebody else's invocation
			if len(open) == 0 {
				return
			}
			k := pick(r, open)
			id := anyID()
			if id == k.caller || id == k.callee {
				return
			}
			c.Feat("foreign answer")
			inv := bij.get("inv", k.inv)
			out, err := b.ReceiveMessage(id, answer(inv))
			refuse(fmt.Sprintf("answer of %d to invocation %d, which is with %d", id, inv, k.callee), out, err)
		case 8: // an answer to nothing
			inv := r.ID1()
			if len(done) > 0 && r.P(80) {
				inv = bij.get("inv", pick(r, done))
				c.Feat("stale answer")
			}
			for _, k := range open {
				if bij.get("inv", k.inv) == inv {
					return
				}
			}
			id := anyID()
			out, err := b.ReceiveMessage(id, answer(inv))
			refuse(fmt.Sprintf("answer of %d to invocation %d, which is not open", id, inv), out, err)
		case 9: // a registration that is refused
			for k, g := range alive {
				if s := pick1(true); s != nil && !shared(g.policy) {
					c.Feat("conflict")
					out, err := b.ReceiveMessage(s.id, messages.NewRegister(r.ID1(), map[string]any{"match": k.match, "invoke": pick(r, pol)}, k.uri))
					c.Check(err == nil && out != nil && out.Message.Type() == 8, "accepted", "registering %v a second time: %v %v", k, out, err)
					c.Logf("rejected: %d registers %v", s.id, k)
					break
				}
			}
			// or an error that answers something else than an invocation
			if len(open) > 0 {
				k := pick(r, open)
				out, err := b.ReceiveMessage(k.callee, messages.NewError(pick(r, []uint64{48, 64, 66, 0, 69}), bij.get("inv", k.inv), nil, "e", nil, nil))
				refuse("ERROR of another kind", out, err)
			}
		case 10: // a call that leads nowhere
			s := pick1(true)
			p := proc()
			if s == nil {
				return
			}
			for k := range alive {
				if k.matches(p) {
					return
				}
			}
			req := r.ID1()
			for _, k := range open {
				if k.req == req && k.caller == s.id {
					return
				}
			}
			c.Feat("no such procedure")
			out, err := b.ReceiveMessage(s.id, messages.NewCall(req, map[string]any{"progress": r.Bool(), "receive_progress": r.Bool()}, p, nil, nil))
			c.Check(err == nil && out != nil && out.Message.Type() == 8, "accepted", "call to %q, which nobody registered: %v %v", p, out, err)
			c.Logf("rejected: %d calls %q", s.id, p)
		}
	}
	// both performs a valid request on both dealers and compares the outcomes.
	both := func(id uint64, what string, ma, mb messages.Message) (oa, ob *wampproto.MessageWithRecipient) {
		oa, ea := a.ReceiveMessage(id, ma)
		ob, eb := b.ReceiveMessage(id, mb)
		c.Check(ea == nil && eb == nil && oa != nil && ob != nil, "valid request refused", "%s of %d: %v, after rejected requests %v", what, id, ea, eb)
		c.Check(oa.Recipient == ob.Recipient && oa.Message.Type() == ob.Message.Type(), "differs", "%s of %d: %+v, after rejected requests %+v", what, id, oa, ob)
		ta, tb := mtypeByCode[oa.Message.Type()], mtypeByCode[ob.Message.Type()]
		va, vb := ta.read(oa.Message), tb.read(ob.Message)
		switch oa.Message.Type() {
		case 65:
			c.Check(bij.same("reg", va.id("RegistrationID"), vb.id("RegistrationID")), "differs", "%s of %d: %v, after rejected requests %v", what, id, va, vb)
			delete(va, "RegistrationID")
			delete(vb, "RegistrationID")
		case 68:
			c.Check(bij.same("reg", va.id("RegistrationID"), vb.id("RegistrationID")) && bij.same("inv", va.id("RequestID"), vb.id("RequestID")), "differs",
				"%s of %d: %v, after rejected requests %v", what, id, va, vb)
			for _, k := range []string{"RegistrationID", "RequestID"} {
				delete(va, k)
				delete(vb, k)
			}
		}
		c.Check(va.String() == vb.String(), "differs", "%s of %d: %v, after rejected requests %v", what, id, va, vb)
		c.Feat("compared")
		c.Logf("%s of %d: %s to %d", what, id, ta.name, oa.Recipient)
		return oa, ob
	}

	for i := 0; i < 2+r.Intn(4); i++ {
		s := &sess{id: newID()}
		all = append(all, s)
		join(s)
	}
	req := uint64(0)
	steps := 15 + r.Intn(60)
	for i := 0; i < steps; i++ {
		for r.P(60) {
			rejected()
		}
		s := pick1(true)
		if s == nil {
			s = pick1(false)
			join(s)
		}
		req++
		switch op := r.Intn(100); {
		case op < 7:
			if o := pick1(false); o != nil && r.Bool() {
				join(o)
			} else {
				n := &sess{id: newID()}
				all = append(all, n)
				join(n)
			}
		case op < 12:
			ea, eb := a.RemoveSession(s.id), b.RemoveSession(s.id)
			c.Check(ea == nil && eb == nil, "valid request refused", "removing session %d: %v, after rejected requests %v", s.id, ea, eb)
			s.attached = false
			var ids []uint64
			for id := range s.regs {
				ids = append(ids, id)
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			for _, id := range ids {
				drop(s, id)
			}
			var still []*call
			for _, k := range open {
				if k.caller != s.id && k.callee != s.id {
					still = append(still, k)
				} else {
					done = append(done, k.inv)
				}
			}
			open = still
			c.Logf("leave %d", s.id)
		case op < 34:
			k := pick(r, pool)
			if !m.addable(k, nil) {
				continue
			}
			p := pick(r, pol)
			msg := c.via(messages.NewRegister(req, map[string]any{"match": k.match, "invoke": p}, k.uri))
			oa, _ := both(s.id, "REGISTER "+k.uri, msg, msg)
			if ok, is := oa.Message.(*messages.Registered); is {
				if alive[k] == nil {
					alive[k] = &reg{policy: p, holders: map[*sess]bool{}}
				}
				alive[k].holders[s] = true
				s.regs[ok.RegistrationID()] = k
				m.alive[k] = 1
			}
		case op < 42:
			set := map[uint64]bool{}
			for id := range s.regs {
				set[id] = true
			}
			if len(set) == 0 {
				continue
			}
			id := pick(r, sortedIDs(set))
			both(s.id, "UNREGISTER", messages.NewUnregister(req, id), messages.NewUnregister(req, bij.get("reg", id)))
			drop(s, id)
		case op < 45:
			on := r.Bool()
			a.AutoDiscloseCaller(on)
			b.AutoDiscloseCaller(on)
		case op < 75:
			k := &call{caller: s.id, req: req, proc: proc(), receive: r.Bool(), more: r.P(30)}
			cont := false
			if r.P(30) {
				for _, o := range open {
					if o.more {
						k, cont = o, true
						k.more = r.Bool()
					}
				}
			}
			msg := c.via(messages.NewCall(k.req, map[string]any{"receive_progress": k.receive, "progress": k.more}, k.proc, []any{req}, nil))
			oa, _ := both(k.caller, "CALL "+k.proc, msg, msg)
			if inv, ok := oa.Message.(*messages.Invocation); ok && !cont {
				k.inv, k.callee = inv.RequestID(), oa.Recipient
				open = append(open, k)
			}
		default:
			if len(open) == 0 {
				continue
			}
			i := r.Intn(len(open))
			k := open[i]
			var ma, mb messages.Message
			final := true
			if r.P(25) {
				ma, mb = messages.NewError(68, k.inv, nil, "com.err", []any{req}, nil), messages.NewError(68, bij.get("inv", k.inv), nil, "com.err", []any{req}, nil)
			} else {
				progress := r.P(40)
				ma, mb = messages.NewYield(k.inv, map[string]any{"progress": progress}, []any{req}, nil), messages.NewYield(bij.get("inv", k.inv), map[string]any{"progress": progress}, []any{req}, nil)
				final = !(progress && k.receive)
			}
			if k.more && final && r.P(80) {
				continue
			}
			both(k.callee, "answer", ma, mb)
			if final {
				open = append(open[:i], open[i+1:]...)
				done = append(done, k.inv)
			}
		}
		t := pick(r, pool).uri
		c.Check(a.HasProcedure(t) == b.HasProcedure(t), "differs", "HasProcedure(%q) is %v, after rejected requests %v", t, a.HasProcedure(t), b.HasProcedure(t))
	}
	c.Mix(strings.Join(c.trace, "\n"))
}
