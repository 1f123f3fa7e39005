package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

// bijection relates ids of two systems one to one.
type bijection struct {
	ab, ba map[string]uint64
}

func newBijection() *bijection { return &bijection{map[string]uint64{}, map[string]uint64{}} }

func (m *bijection) same(space string, a, b uint64) bool {
	ka, kb := fmt.Sprint(space, a), fmt.Sprint(space, b)
	x, ok1 := m.ab[ka]
	y, ok2 := m.ba[kb]
	if !ok1 && !ok2 {
		m.ab[ka], m.ba[kb] = b, a
		return true
	}
	return ok1 && ok2 && x == b && y == a
}

func (m *bijection) get(space string, a uint64) uint64 { return m.ab[fmt.Sprint(space, a)] }

// randomMessage makes a message of any type with plausible contents.
func randomMessage(r *Rand, t *mtype, ids []uint64, uris []string) messages.Message {
	v := genV(r, t, kJSON)
	for _, f := range t.fields {
		if f.kind == fID && len(ids) > 0 && r.P(70) {
			v[f.name] = pick(r, ids)
		}
		if f.kind == fStr && len(uris) > 0 && r.P(70) {
			v[f.name] = pick(r, uris)
		}
	}
	return t.build(v)
}

func b07(c *C) {
	r := c.R
	m := &bsim{c: c, r: r, noOver: true, alive: map[key]uint64{}} // model of who holds what
	a, b := wampproto.NewBroker(), wampproto.NewBroker()
	bij := newBijection()
	type sess struct {
		id       uint64
		details  *wampproto.SessionDetails
		attached bool
		subs     map[uint64]key // ids of broker a
	}
	var all []*sess
	var pool []key
	var near []string
	for i := 0; i < 4; i++ {
		near = append(near, genTopic(r))
	}
	for i := 0; i < 6; i++ {
		pool = append(pool, genKey(r, near))
	}
	pick1 := func(attached bool) *sess {
		var l []*sess
		for _, s := range all {
			if s.attached == attached {
				l = append(l, s)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return pick(r, l)
	}
	held := func(k key) bool {
		for _, s := range all {
			for _, o := range s.subs {
				if s.attached && o == k {
					return true
				}
			}
		}
		return false
	}
	req := uint64(0)
	join := func(s *sess) {
		s.details = wampproto.NewSessionDetails(s.id, "realm", genIdent(r), genIdent(r), "anonymous", r.Bool(), nil, nil)
		ea, eb := a.AddSession(s.details), b.AddSession(s.details)
		c.Check(ea == nil && eb == nil, "valid request refused", "adding session %d: %v, after rejected requests %v", s.id, ea, eb)
		s.attached, s.subs = true, map[uint64]key{}
		c.Logf("join %d", s.id)
	}
	newID := func() uint64 {
		for {
			id := sessionID(r)
			fresh := true
			for _, s := range all {
				fresh = fresh && s.id != id
			}
			if fresh {
				return id
			}
		}
	}
	for i := 0; i < 2+r.Intn(3); i++ {
		s := &sess{id: newID()}
		all = append(all, s)
		join(s)
	}
	strangers := func() uint64 {
		if s := pick1(false); s != nil && r.Bool() {
			return s.id
		}
		return newID()
	}
	topic := func() string {
		if r.P(80) {
			return pick(r, pool).witness(r)
		}
		return genTopic(r)
	}
	subIDs := func() []uint64 {
		var ids []uint64
		for _, s := range all {
			for id := range s.subs {
				ids = append(ids, id)
			}
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		return ids
	}
	// rejected makes a request that must be rejected, on broker b only.
	rejected := func() {
		c.Feat("rejected")
		refuse := func(what string, out *wampproto.MessageWithRecipient, err error) {
			c.Check(err != nil, "accepted", "%s was accepted: %v", what, out)
			c.Check(out == nil, "accepted", "%s: error %v came with %v", what, err, out)
			c.Logf("rejected: %s", what)
		}
		switch r.Intn(8) {
		case 0:
			c.Feat("stranger")
			id, k := strangers(), pick(r, pool)
			out, err := b.ReceiveMessage(id, c.via(messages.NewSubscribe(r.ID1(), matchOptions(r, k.match), k.uri)))
			refuse(fmt.Sprintf("SUBSCRIBE of stranger %d", id), out, err)
		case 1:
			c.Feat("stranger")
			id := strangers()
			opts := map[string]any{"acknowledge": true, "exclude_me": r.Bool()}
			p, err := b.ReceivePublish(id, messages.NewPublish(r.ID1(), opts, topic(), []any{1}, nil))
			c.Check(err != nil && p == nil, "accepted", "PUBLISH of stranger %d was accepted: %v %v", id, p, err)
			c.Logf("rejected: PUBLISH of stranger %d", id)
		case 2:
			c.Feat("stranger")
			id := strangers()
			sub := r.ID1()
			if l := subIDs(); len(l) > 0 {
				sub = bij.get("sub", pick(r, l))
			}
			out, err := b.ReceiveMessage(id, messages.NewUnsubscribe(r.ID1(), sub))
			refuse(fmt.Sprintf("UNSUBSCRIBE of stranger %d from %d", id, sub), out, err)
		case 3, 4:
			s := pick1(true)
			if s == nil {
				return
			}
			sub := r.ID1()
			if l := subIDs(); len(l) > 0 && r.P(85) {
				sub = bij.get("sub", pick(r, l))
				c.Feat("foreign subscription")
			}
			for id := range s.subs {
				if bij.get("sub", id) == sub {
					return
				}
			}
			out, err := b.ReceiveMessage(s.id, messages.NewUnsubscribe(r.ID1(), sub))
			refuse(fmt.Sprintf("UNSUBSCRIBE of %d from %d, which it does not hold", s.id, sub), out, err)
		case 5:
			s := pick1(true)
			if s == nil {
				return
			}
			c.Feat("added twice")
			d := s.details
			if r.Bool() {
				d = wampproto.NewSessionDetails(s.id, "other", "imp", "imp", "ticket", true, nil, nil)
			}
			err := b.AddSession(d)
			c.Check(err != nil, "accepted", "session %d was added twice", s.id)
			c.Logf("rejected: adding %d again", s.id)
		case 6:
			c.Feat("removed stranger")
			id := strangers()
			err := b.RemoveSession(id)
			c.Check(err != nil, "accepted", "session %d was removed, but was not attached", id)
			c.Logf("rejected: removing %d", id)
		case 7:
			c.Feat("other message")
			t := pick(r, mtypes)
			if t.name == "SUBSCRIBE" || t.name == "UNSUBSCRIBE" || t.name == "PUBLISH" {
				return
			}
			id := strangers()
			if s := pick1(true); s != nil && r.P(80) {
				id = s.id
			}
			var ids []uint64
			for _, x := range subIDs() {
				ids = append(ids, bij.get("sub", x))
			}
			out, err := b.ReceiveMessage(id, randomMessage(r, t, ids, near))
			refuse(fmt.Sprintf("%s of %d", t.name, id), out, err)
		}
	}

	disclose := false
	steps := 15 + r.Intn(50)
	for i := 0; i < steps; i++ {
		for r.P(60) {
			rejected()
		}
		s := pick1(true)
		if s == nil {
			s = pick1(false)
			join(s)
		}
		req++
		switch op := r.Intn(100); {
		case op < 10:
			if o := pick1(false); o != nil && r.Bool() {
				join(o)
			} else {
				n := &sess{id: newID()}
				all = append(all, n)
				join(n)
			}
		case op < 17:
			ea, eb := a.RemoveSession(s.id), b.RemoveSession(s.id)
			c.Check(ea == nil && eb == nil, "valid request refused", "removing session %d: %v, after rejected requests %v", s.id, ea, eb)
			s.attached = false
			subs := s.subs
			s.subs = nil
			for _, k := range subs {
				if !held(k) {
					delete(m.alive, k)
				}
			}
			c.Logf("leave %d", s.id)
		case op < 42:
			k := pick(r, pool)
			if !m.addable(k, nil) {
				continue
			}
			msg := c.via(messages.NewSubscribe(req, matchOptions(r, k.match), k.uri))
			oa, ea := a.ReceiveMessage(s.id, msg)
			ob, eb := b.ReceiveMessage(s.id, msg)
			c.Check(ea == nil && eb == nil, "valid request refused", "SUBSCRIBE of session %d: %v, after rejected requests %v", s.id, ea, eb)
			sa, ok1 := oa.Message.(*messages.Subscribed)
			sb, ok2 := ob.Message.(*messages.Subscribed)
			c.Check(ok1 && ok2 && oa.Recipient == ob.Recipient && sa.RequestID() == sb.RequestID() && bij.same("sub", sa.SubscriptionID(), sb.SubscriptionID()),
				"differs", "SUBSCRIBE of %d to %q: %+v, after rejected requests %+v", s.id, k, oa.Message, ob.Message)
			s.subs[sa.SubscriptionID()] = k
			m.alive[k] = 1
			c.Logf("%d subscribes to %s %q: %d/%d", s.id, k.match, k.uri, sa.SubscriptionID(), sb.SubscriptionID())
			c.Feat("compared")
		case op < 54:
			set := map[uint64]bool{}
			for id := range s.subs {
				set[id] = true
			}
			if len(set) == 0 {
				continue
			}
			id := pick(r, sortedIDs(set))
			oa, ea := a.ReceiveMessage(s.id, messages.NewUnsubscribe(req, id))
			ob, eb := b.ReceiveMessage(s.id, messages.NewUnsubscribe(req, bij.get("sub", id)))
			c.Check(ea == nil && eb == nil, "valid request refused", "UNSUBSCRIBE of session %d: %v, after rejected requests %v", s.id, ea, eb)
			c.Check(oa.Recipient == ob.Recipient && oa.Message.Type() == ob.Message.Type(), "differs", "UNSUBSCRIBE of %d: %+v, after rejected requests %+v", s.id, oa, ob)
			k := s.subs[id]
			delete(s.subs, id)
			if !held(k) {
				delete(m.alive, k)
			}
			c.Logf("%d unsubscribes from %d", s.id, id)
			c.Feat("compared")
		case op < 60:
			disclose = !disclose
			a.AutoDisclosePublisher(disclose)
			b.AutoDisclosePublisher(disclose)
		default:
			t := topic()
			opts := map[string]any{"acknowledge": r.Bool(), "exclude_me": r.Bool()}
			msg := messages.NewPublish(req, opts, t, []any{req}, nil)
			pa, ea := a.ReceivePublish(s.id, msg)
			pb, eb := b.ReceivePublish(s.id, msg)
			c.Check(ea == nil && eb == nil && pa != nil && pb != nil, "valid request refused", "PUBLISH of session %d: %v, after rejected requests %v", s.id, ea, eb)
			ta, tb := pubText(pa), pubText(pb)
			c.Check(ta == tb, "differs", "PUBLISH of %d to %q: %s, after rejected requests %s", s.id, t, ta, tb)
			if len(pa.Recipients) > 0 {
				c.Check(bij.same("sub", pa.Event.SubscriptionID(), pb.Event.SubscriptionID()) &&
					bij.same("pub", pa.Event.PublicationID(), pb.Event.PublicationID()), "differs",
					"PUBLISH of %d to %q: event %+v, after rejected requests %+v", s.id, t, pa.Event, pb.Event)
			}
			c.Logf("%d publishes to %q: %s", s.id, t, ta)
			c.Feat("compared")
		}
		t := pick(r, pool).uri
		c.Check(a.HasSubscription(t) == b.HasSubscription(t), "differs", "HasSubscription(%q) is %v, after rejected requests %v", t, a.HasSubscription(t), b.HasSubscription(t))
	}
	c.Mix(strings.Join(c.trace, "\n"))
}

// pubText describes a publication but for the ids that may differ.
func pubText(p *wampproto.Publication) string {
	rec := append([]uint64(nil), p.Recipients...)
	sort.Slice(rec, func(i, j int) bool { return rec[i] < rec[j] })
	s := fmt.Sprintf("recipients %v", rec)
	if len(rec) > 0 {
		s += " details " + show(p.Event.Details()) + " args " + show(p.Event.Args())
	}
	if p.Ack != nil {
		s += fmt.Sprintf(" ack to %d", p.Ack.Recipient)
		if x, ok := p.Ack.Message.(*messages.Published); ok {
			s += fmt.Sprintf(" request %d", x.RequestID())
		}
	}
	return s
}
