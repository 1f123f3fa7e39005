package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

func init() {
	need := func(m map[string]int64) map[string]int64 {
		for _, k := range []string{"subscribed exact", "subscribed prefix", "subscribed wildcard", "event", "session left", "unsubscribed"} {
			m[k] += 1000
		}
		return m
	}
	rule := "random histories of sessions joining, leaving, subscribing, unsubscribing and publishing on one broker, judged by a model fed with the broker's acknowledgements; distinct = different history"
	assume := []string{"wildcard patterns consist of letters, dots, slashes and '*'", "unknown match policies are not used"}
	register(&Prop{ID: "B01", Quick: 9000, Thoro: 900000, Rule: rule, Case: bcase, Assume: assume,
		Need: need(map[string]int64{"overlap": 1000, "several recipients": 1000, "no recipient": 1000})})
	register(&Prop{ID: "B02", Quick: 6000, Thoro: 600000, Rule: rule, Case: bcase, Assume: assume,
		Need: need(map[string]int64{"probe": 5000, "asked HasSubscription": 5000})})
	register(&Prop{ID: "B03", Quick: 9000, Thoro: 900000, Rule: rule, Case: bcase, Assume: assume,
		Need: need(map[string]int64{"shared subscription": 1000, "subscribed again": 500})})
	register(&Prop{ID: "B04", Quick: 9000, Thoro: 900000, Rule: rule, Case: bcase, Assume: assume,
		Need: need(map[string]int64{"acknowledged": 1000, "not acknowledged": 1000, "acknowledged without event": 500})})
	register(&Prop{ID: "B05", Quick: 9000, Thoro: 900000, Rule: rule, Case: bcase, Assume: assume,
		Need: need(map[string]int64{"disclosed": 1000, "not disclosed": 1000})})
	register(&Prop{ID: "B06", Quick: 9000, Thoro: 900000, Rule: rule, Case: bcase, Assume: assume,
		Need: need(map[string]int64{"excluded": 1000, "included": 1000})})
	register(&Prop{ID: "B07", Quick: 5000, Thoro: 500000, Case: b07, Assume: assume,
		Rule: "two brokers given the same valid requests, one of them rejected requests in between; distinct = different history",
		Need: map[string]int64{"rejected": 20000, "compared": 20000, "stranger": 2000, "foreign subscription": 1000, "added twice": 1000,
			"removed stranger": 1000, "other message": 2000}})
}

// strictly ascending list of distinct numbers
func sortedIDs(m map[uint64]bool) []uint64 {
	l := make([]uint64, 0, len(m))
	for id := range m {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

type bsess struct {
	id             uint64
	authid, role   string
	subs           map[uint64]key // as acknowledged
	details        *wampproto.SessionDetails
	incarnation    int
	endedSubs      map[uint64]bool
	attached, dead bool
}

// bsim is a broker with the model of its state.
type bsim struct {
	c        *C
	r        *Rand
	b        *wampproto.Broker
	all      []*bsess // every id ever used, attached or not
	attached []*bsess
	alive    map[key]uint64 // subscription id of each key that has a holder
	idKey    map[uint64]key
	pubIDs   map[uint64]bool
	topics   []string
	keys     []key
	disclose bool
	noOver   bool // only subscriptions that do not overlap
	req      uint64
}

func (s *bsim) is(id string) bool { return s.c.P.ID == id }

func newBsim(c *C) *bsim {
	s := &bsim{c: c, r: c.R, b: wampproto.NewBroker(), alive: map[key]uint64{}, idKey: map[uint64]key{}, pubIDs: map[uint64]bool{}}
	if s.r.P(30) {
		s.disclose = true
		s.b.AutoDisclosePublisher(true)
	}
	return s
}

// via returns the message as built or as it arrives through a serializer.
func (c *C) via(m messages.Message) messages.Message {
	if c.R.P(60) {
		return m
	}
	ser := serializerOf(c.R.Intn(3))
	b, err := ser.Serialize(m)
	if err != nil {
		return m
	}
	n, err := ser.Deserialize(b)
	if err != nil || nilMsg(n) {
		c.Feat("serializer refused")
		return m
	}
	return n
}

func (s *bsim) join(id uint64) *bsess {
	r := s.r
	var x *bsess
	for _, o := range s.all {
		if o.id == id {
			x = o
		}
	}
	if x == nil {
		x = &bsess{id: id}
		s.all = append(s.all, x)
	}
	x.incarnation++
	x.authid, x.role = fmt.Sprintf("user-%d-%d", len(s.all), x.incarnation), fmt.Sprintf("role-%d-%x", x.incarnation, r.Intn(1<<20))
	x.subs, x.endedSubs, x.attached = map[uint64]key{}, map[uint64]bool{}, true
	x.details = wampproto.NewSessionDetails(id, "realm", x.authid, x.role, "anonymous", r.Bool(), nil, nil)
	err := s.b.AddSession(x.details)
	s.c.Check(err == nil, "join", "adding session %d: %v", id, err)
	s.attached = append(s.attached, x)
	s.c.Logf("join %d", id)
	return x
}

func (s *bsim) leave(x *bsess) {
	err := s.b.RemoveSession(x.id)
	s.c.Check(err == nil, "leave", "removing session %d: %v", x.id, err)
	s.c.Logf("leave %d", x.id)
	s.c.Feat("session left")
	x.attached = false
	for i, y := range s.attached {
		if y == x {
			s.attached = append(s.attached[:i:i], s.attached[i+1:]...)
			break
		}
	}
	for id, k := range x.subs {
		delete(x.subs, id)
		x.endedSubs[id] = true
		s.release(k)
		s.has(k.uri)
	}
}

// release forgets the key if nobody holds it any more.
func (s *bsim) release(k key) {
	if len(s.holders(k)) == 0 {
		delete(s.alive, k)
	}
}

func (s *bsim) holders(k key) []*bsess {
	id, ok := s.alive[k]
	if !ok {
		return nil
	}
	var l []*bsess
	for _, x := range s.attached {
		if x.subs[id] == k {
			l = append(l, x)
		}
	}
	return l
}

func (s *bsim) nextReq() uint64 {
	if s.r.P(10) {
		return s.r.ID1()
	}
	s.req++
	return s.req
}

func matchOptions(r *Rand, match string) map[string]any {
	if match == exact {
		switch r.Intn(3) {
		case 0:
			return nil
		case 1:
			return map[string]any{}
		}
	}
	return map[string]any{"match": match}
}

// spice adds options to a request that have nothing to do with what is monitored here.
func spice(r *Rand, opts map[string]any) map[string]any {
	if !r.P(20) {
		return opts
	}
	if opts == nil {
		opts = map[string]any{}
	}
	n := 1 + r.Intn(3)
	if r.P(3) { // many of them
		for n += r.Intn(20); len(opts) < n; {
			opts["x_"+strconv.Itoa(len(opts))] = len(opts)
		}
		n = 3
	}
	for i := n; i > 0; i-- {
		switch r.Intn(10) {
		case 0, 1, 2:
			opts["disclose_me"] = r.P(75)
		case 3:
			opts["timeout"] = r.Intn(3) * 1000
		case 4:
			opts["retain"] = r.Bool()
		case 5:
			opts["get_retained"] = r.Bool()
		case 6:
			opts["concurrency"] = 1 + r.Intn(3)
		case 7:
			opts[pick(r, []string{"rkey", "runmode", "nkey"})] = pick(r, []any{"partition", "all", 0})
		case 8:
			opts[pick(r, []string{"caller", "publisher", "caller_authid", "publisher_authid", "topic", "procedure"})] = pick(r, []any{1, "admin", "com.x"})
		case 9:
			opts["x_"+genIdent(r)] = genValue(r, kJSON, 1)
		}
	}
	return opts
}

func (s *bsim) subscribe(x *bsess, k key) {
	c := s.c
	req := s.nextReq()
	out, err := s.b.ReceiveMessage(x.id, c.via(messages.NewSubscribe(req, spice(s.r, matchOptions(s.r, k.match)), k.uri)))
	c.Check(err == nil && out != nil && out.Message != nil, "subscribe", "SUBSCRIBE of session %d to %q: %v", x.id, k, err)
	sub, ok := out.Message.(*messages.Subscribed)
	c.Check(ok, "subscribe", "SUBSCRIBE answered with %T", out.Message)
	id := sub.SubscriptionID()
	c.Logf("%d subscribes to %s %q: %d", x.id, k.match, k.uri, id)
	c.Feat("subscribed " + k.match)
	if s.is("B03") {
		c.Check(out.Recipient == x.id && sub.RequestID() == req, "addressing", "SUBSCRIBED for request %d of session %d goes to %d with request %d", req, x.id, out.Recipient, sub.RequestID())
		if cur, ok := s.alive[k]; ok {
			c.Check(id == cur, "same key", "%s %q has subscription id %d, session %d got %d", k.match, k.uri, cur, x.id, id)
			if x.subs[id] == k {
				c.Feat("subscribed again")
			} else {
				c.Feat("shared subscription")
			}
		}
		if old, ok := s.idKey[id]; ok {
			c.Check(old == k, "different keys", "%s %q and %s %q both have subscription id %d", k.match, k.uri, old.match, old.uri, id)
		}
	}
	s.idKey[id] = k
	s.alive[k] = id
	x.subs[id] = k
	delete(x.endedSubs, id)
	s.keys = append(s.keys, k)
	s.has(k.uri)
}

func (s *bsim) unsubscribe(x *bsess, id uint64) {
	c := s.c
	req := s.nextReq()
	k := x.subs[id]
	out, err := s.b.ReceiveMessage(x.id, c.via(messages.NewUnsubscribe(req, id)))
	c.Check(err == nil && out != nil && out.Message != nil, "unsubscribe", "UNSUBSCRIBE of session %d from %d: %v", x.id, id, err)
	un, ok := out.Message.(*messages.Unsubscribed)
	c.Check(ok, "unsubscribe", "UNSUBSCRIBE answered with %T", out.Message)
	c.Logf("%d unsubscribes from %d (%s %q)", x.id, id, k.match, k.uri)
	c.Feat("unsubscribed")
	if s.is("B03") {
		c.Check(out.Recipient == x.id && un.RequestID() == req, "addressing", "UNSUBSCRIBED for request %d of session %d goes to %d with request %d", req, x.id, out.Recipient, un.RequestID())
	}
	delete(x.subs, id)
	x.endedSubs[id] = true
	s.release(k)
	s.has(k.uri)
}

// has compares what the broker reports about a topic with the model.
func (s *bsim) has(topic string) {
	if !s.is("B02") {
		return
	}
	want := false
	for _, m := range []string{exact, prefix, wildcard} {
		if len(s.holders(key{topic, m})) > 0 {
			want = true
		}
	}
	if !want {
		for k := range s.alive {
			if k.matches(topic) {
				return // subscribed to in a wider sense
			}
		}
	}
	s.c.Feat("asked HasSubscription")
	got := s.b.HasSubscription(topic)
	s.c.Check(got == want, "HasSubscription", "HasSubscription(%q) is %v, somebody holds a subscription: %v", topic, got, want)
}

type pubOpts struct {
	ack     any // nil: option absent
	exclude any
}

func (s *bsim) publish(x *bsess, topic string, o pubOpts) (recipients map[uint64]bool, event *messages.Event) {
	c := s.c
	req := s.nextReq()
	args, kw := genArgs(s.r, kJSON)
	if len(args) > 100 {
		args = args[:100]
	}
	if s.is("B01") && s.r.Intn(600) == 0 {
		s.c.Feat("large payload")
		if s.r.Bool() {
			args = largeList(largeSize(s.r))
		} else {
			kw = with(kw, "large", strings.Repeat("l", largeSize(s.r)))
		}
	}
	var opts map[string]any
	if o.ack != nil || o.exclude != nil || s.r.Bool() {
		opts = map[string]any{}
	}
	if o.ack != nil {
		opts["acknowledge"] = o.ack
	}
	if o.exclude != nil {
		opts["exclude_me"] = o.exclude
	}
	out, err := s.b.ReceivePublish(x.id, c.via(messages.NewPublish(req, spice(s.r, opts), topic, args, kw)).(*messages.Publish))
	c.Check(err == nil && out != nil, "publish", "PUBLISH of session %d to %q: %v", x.id, topic, err)
	event = out.Event
	recipients = map[uint64]bool{}
	for _, id := range out.Recipients {
		if s.is("B01") {
			c.Check(!recipients[id], "twice", "event on %q goes to session %d twice: %v", topic, id, out.Recipients)
		}
		recipients[id] = true
	}
	eid := uint64(0)
	if event != nil {
		eid = event.SubscriptionID()
	}
	c.Logf("%d publishes to %q %v: subscription %d recipients %v", x.id, topic, opts, eid, sortedIDs(recipients))
	if len(recipients) > 0 {
		c.Check(event != nil, "event", "publication on %q has recipients %v but no event", topic, out.Recipients)
		c.Feat("event")
		if len(recipients) > 1 {
			c.Feat("several recipients")
		}
	} else {
		c.Feat("no recipient")
	}

	// what the model says
	match := map[key][]*bsess{}
	for k := range s.alive {
		if k.matches(topic) {
			match[k] = s.holders(k)
		}
	}
	excluded := o.exclude == nil || o.exclude == true
	want := map[uint64]bool{}
	for _, hs := range match {
		for _, h := range hs {
			if h != x || !excluded {
				want[h.id] = true
			}
		}
	}
	if len(match) > 1 {
		c.Feat("overlap")
	}

	if s.is("B01") {
		s.b01(x, topic, match, want, recipients, eid, excluded)
		if len(recipients) > 0 {
			c.nchk++
			if !sameArgs(args, kw, event.Args(), event.KwArgs()) {
				c.Fail("payload", "published %s %s, event carries %s %s", show(args), show(kw), show(event.Args()), show(event.KwArgs()))
			}
		}
	}
	if s.is("B02") {
		k, ok := s.idKey[eid]
		for _, id := range sortedIDs(recipients) {
			var y *bsess
			for _, z := range s.attached {
				if z.id == id {
					y = z
				}
			}
			c.Check(y != nil, "after the end", "event on %q goes to session %d, which is gone", topic, id)
			c.Check(ok && y.subs[eid] == k, "after the end", "event on %q goes to session %d through subscription %d, which it does not hold", topic, id, eid)
		}
	}
	if s.is("B04") {
		s.b04(x, req, o, out, event, len(recipients))
	}
	if s.is("B05") && event != nil {
		s.b05(x, topic, event)
	}
	if s.is("B06") {
		if excluded {
			c.Check(!recipients[x.id], "excluded", "session %d received its own event on %q with options %v", x.id, topic, opts)
			if want2 := s.held(x, match); want2 {
				c.Feat("excluded")
			}
		} else if len(match) == 1 && s.held(x, match) {
			c.Check(recipients[x.id], "included", "session %d did not receive its own event on %q with options %v", x.id, topic, opts)
			c.Feat("included")
		}
		if len(match) <= 1 {
			for _, y := range s.attached {
				if y != x {
					c.Check(recipients[y.id] == want[y.id], "others", "event on %q with options %v: session %d gets it: %v", topic, opts, y.id, recipients[y.id])
				}
			}
		}
	}
	return recipients, event
}

func (s *bsim) held(x *bsess, match map[key][]*bsess) bool {
	for _, hs := range match {
		for _, h := range hs {
			if h == x {
				return true
			}
		}
	}
	return false
}

func sameSet(a, b map[uint64]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for id := range a {
		if !b[id] {
			return false
		}
	}
	return true
}

func (s *bsim) b01(x *bsess, topic string, match map[key][]*bsess, want, got map[uint64]bool, eid uint64, excluded bool) {
	c := s.c
	byID := map[uint64]*bsess{}
	for _, y := range s.attached {
		byID[y.id] = y
	}
	tagged := true
	for id := range got {
		y := byID[id]
		if y == nil {
			tagged = false
			continue
		}
		k, ok := y.subs[eid]
		tagged = tagged && ok && k.matches(topic)
	}
	if sameSet(want, got) && tagged {
		c.nchk++
		return
	}
	if len(match) > 1 {
		// Known: only the holders of the preferred subscription are served.
		var pref []key
		if _, ok := match[key{topic, exact}]; ok {
			pref = []key{{topic, exact}}
		} else {
			best := -1
			for k := range match {
				if k.match == prefix && len(k.uri) > best {
					best = len(k.uri)
					pref = []key{k}
				}
			}
			if best < 0 {
				for k := range match {
					pref = append(pref, k)
				}
			}
		}
		for _, k := range pref {
			w := map[uint64]bool{}
			for _, h := range match[k] {
				if h != x || !excluded {
					w[h.id] = true
				}
			}
			if sameSet(w, got) && (len(got) == 0 || eid == s.alive[k]) {
				c.Report("overlap-only-preferred", "event on %q matches %d subscriptions; it went to %v (subscription %d), it should go to %v",
					topic, len(match), sortedIDs(got), eid, sortedIDs(want))
				c.nchk++
				return
			}
		}
	}
	if !sameSet(want, got) {
		c.Fail("recipients", "event of session %d on %q goes to %v, should go to %v", x.id, topic, sortedIDs(got), sortedIDs(want))
	}
	c.Fail("tag", "event on %q goes to %v with subscription id %d, which is not that of a matching subscription each holds", topic, sortedIDs(got), eid)
}

func (s *bsim) b04(x *bsess, req uint64, o pubOpts, out *wampproto.Publication, event *messages.Event, n int) {
	c := s.c
	pid := uint64(0)
	if o.ack == true {
		c.Check(out.Ack != nil && out.Ack.Message != nil, "no acknowledgement", "PUBLISH with acknowledge=true got none (%d recipients)", n)
		p, ok := out.Ack.Message.(*messages.Published)
		c.Check(ok, "no acknowledgement", "acknowledged with %T", out.Ack.Message)
		c.Check(out.Ack.Recipient == x.id && p.RequestID() == req, "addressing", "PUBLISHED for request %d of session %d goes to %d with request %d", req, x.id, out.Ack.Recipient, p.RequestID())
		pid = p.PublicationID()
		c.Feat("acknowledged")
		if n == 0 {
			c.Feat("acknowledged without event")
		} else {
			c.Check(event.PublicationID() == pid, "publication id", "PUBLISHED has publication %d, EVENT %d", pid, event.PublicationID())
		}
	} else {
		c.Check(out.Ack == nil, "acknowledgement", "PUBLISH with acknowledge=%v was acknowledged", o.ack)
		c.Feat("not acknowledged")
		if n > 0 {
			pid = event.PublicationID()
		} else {
			return
		}
	}
	c.Check(!s.pubIDs[pid], "publication id", "publication id %d was used before", pid)
	s.pubIDs[pid] = true
}

var identifying = []string{"publisher", "publisher_authid", "publisher_authrole", "caller", "caller_authid", "caller_authrole", "topic", "procedure"}

// checkDisclosure judges the details of an event or invocation.
func (c *C) checkDisclosure(on bool, details map[string]any, who string, id uint64, authid, role, uriKey, uri string) {
	if on {
		c.Feat("disclosed")
		_, n, ok := asInteger(details[who])
		c.Check(ok && n == id, "identity", "session %d authid %q authrole %q is disclosed as %s", id, authid, role, show(details))
		c.Check(details[who+"_authid"] == authid && details[who+"_authrole"] == role, "identity", "session %d authid %q authrole %q is disclosed as %s", id, authid, role, show(details))
		c.Check(details[uriKey] == uri, "uri", "%s %q is disclosed as %s", uriKey, uri, show(details))
		return
	}
	c.Feat("not disclosed")
	for _, k := range identifying {
		_, ok := details[k]
		c.Check(!ok, "leak", "disclosure is off, details are %s", show(details))
	}
	text := show(details)
	c.Check(!strings.Contains(text, authid) && !strings.Contains(text, role), "leak", "disclosure is off, details are %s", text)
}

func (s *bsim) b05(x *bsess, topic string, event *messages.Event) {
	s.c.checkDisclosure(s.disclose, event.Details(), "publisher", x.id, x.authid, x.role, "topic", topic)
}

// addable tells whether a subscription may be made without overlapping a live one.
func (s *bsim) addable(k key, topics []string) bool {
	if !s.noOver {
		return true
	}
	for o := range s.alive {
		if o != k && (o.matches(k.uri) || k.matches(o.uri) || overlapping(k, o)) {
			return false
		}
	}
	return true
}

// overlapping is a safe approximation: it may say yes for keys that do not overlap.
func overlapping(a, b key) bool {
	lit := func(k key) string {
		if k.match == wildcard {
			s, _, _ := strings.Cut(k.uri, "*")
			return s
		}
		return k.uri
	}
	if a.match == exact {
		return b.matches(a.uri)
	}
	if b.match == exact {
		return a.matches(b.uri)
	}
	la, lb := lit(a), lit(b)
	return strings.HasPrefix(la, lb) || strings.HasPrefix(lb, la)
}

func (s *bsim) genTopic() string {
	r := s.r
	if len(s.keys) > 0 {
		switch r.Intn(10) {
		case 0, 1, 2, 3, 4:
			return pick(r, s.keys).witness(r)
		case 5:
			return pick(r, s.keys).nearMiss(r)
		}
	}
	if len(s.topics) > 0 && r.P(60) {
		return pick(r, s.topics)
	}
	return genTopic(r)
}

func (s *bsim) genPubOpts() pubOpts {
	return pubOpts{ack: pick(s.r, []any{nil, nil, true, true, false, "true", 1}), exclude: pick(s.r, []any{nil, nil, nil, true, false, false})}
}

func sessionID(r *Rand) uint64 {
	if r.P(10) {
		return pick(r, edgeIDs)
	}
	return r.ID1()
}

// nearID makes a session id, often one next to or otherwise like one that is there.
func nearID(r *Rand, others []uint64) uint64 {
	if len(others) == 0 || r.P(70) {
		return sessionID(r)
	}
	if id := near(r, pick(r, others)); id != 0 && id <= MaxID {
		return id
	}
	return sessionID(r)
}

// relatedID makes an id for a request or an object; some are like one of the others.
func relatedID(r *Rand, others []uint64) uint64 {
	if len(others) == 0 || r.P(75) {
		return r.ID()
	}
	if id := near(r, pick(r, others)); id <= MaxID {
		return id
	}
	return r.ID()
}

func near(r *Rand, o uint64) uint64 {
	return pick(r, []uint64{o + 1, o - 1, o + 2, o + 1<<32, o ^ 1<<32, o + 1<<31, o + 1<<16, o ^ 1<<8, o * 2, o / 2, o*10 + 1, o / 10, o & 0xffffffff, o + 1000})
}

// bcase is one random history.
func bcase(c *C) {
	r := c.R
	s := newBsim(c)
	s.noOver = s.is("B06") || (s.is("B01") && r.P(50)) || r.P(30)
	nt := 1 + r.Intn(6)
	for i := 0; i < nt; i++ {
		s.topics = append(s.topics, genTopic(r))
	}
	fewKeys := r.P(40)
	var pool []key
	for i := 0; i < 2+r.Intn(5); i++ {
		pool = append(pool, genKey(r, s.topics))
	}
	big := c.Case%400 == 7
	n := 2 + r.Intn(5)
	if big {
		n = 300 + r.Intn(1200)
		if c.Case%1600 == 7 {
			n = 4000 + r.Intn(2000)
		}
	}
	used := map[uint64]bool{}
	var idList []uint64
	for i := 0; i < n; i++ {
		id := nearID(r, idList)
		idList = append(idList, id)
		if !used[id] {
			used[id] = true
			s.join(id)
		}
	}
	if big {
		k := pick(r, pool)
		for _, x := range s.attached {
			if r.P(90) {
				s.subscribe(x, k)
			}
		}
		for i := 0; i < 3; i++ {
			s.publish(pick(r, s.attached), k.witness(r), s.genPubOpts())
		}
	}
	steps := 10 + r.Intn(60)
	if c.Case%1000 == 307 {
		c.Feat("long life")
		steps = 2500 + r.Intn(5000)
	}
	for i := 0; i < steps; i++ {
		if len(s.attached) == 0 {
			s.join(pick(r, s.all).id)
		}
		x := pick(r, s.attached)
		switch op := r.Intn(100); {
		case op < 6: // a new session, or one that comes back
			var y *bsess
			if r.P(60) {
				y = pick(r, s.all)
			}
			if y == nil {
				id := nearID(r, idList)
				if !used[id] && len(s.all) < 2000 && (steps < 1000 || len(s.attached) < 40) {
					used[id] = true
					s.join(id)
				}
			} else if !y.attached {
				s.join(y.id)
			}
		case op < 11:
			if len(s.attached) > 1 {
				s.leave(x)
			}
		case op < 36:
			k := pick(r, pool)
			if !fewKeys && r.P(40) && len(s.keys) < 60 {
				k = genKey(r, s.topics)
			}
			if r.P(15) && len(s.keys) > 0 {
				k = pick(r, s.keys)
			}
			if r.P(8) { // the same topic with another policy
				k.match = pick(r, []string{exact, prefix})
			}
			if s.addable(k, s.topics) {
				s.subscribe(x, k)
			}
		case op < 50:
			if len(x.subs) > 0 {
				ids := map[uint64]bool{}
				for id := range x.subs {
					ids[id] = true
				}
				s.unsubscribe(x, pick(r, sortedIDs(ids)))
			}
		case op < 55:
			s.disclose = r.Bool()
			s.b.AutoDisclosePublisher(s.disclose)
			c.Logf("disclose %v", s.disclose)
		default:
			s.publish(x, s.genTopic(), s.genPubOpts())
		}
		if s.is("B02") && r.P(30) {
			s.has(s.genTopic())
		}
	}
	if c.Case%500 == 107 && len(s.attached) > 0 {
		for len(s.alive) > 0 { // those of the crowd must not overlap with others
			x := pick(r, s.attached)
			if len(s.attached) > 2 && r.Bool() {
				s.leave(x)
				continue
			}
			ids := map[uint64]bool{}
			for id := range x.subs {
				ids[id] = true
			}
			for _, id := range sortedIDs(ids) {
				s.unsubscribe(x, id)
			}
		}
		s.crowd()
	}
	if s.is("B02") {
		s.probeAll()
	}
	c.Mix(strings.Join(c.trace, "\n"))
}

// probeAll publishes through every subscription anybody holds and finally after everybody gave up.
func (s *bsim) probeAll() {
	r, c := s.r, s.c
	pub := s.join(uint64(1)<<53 - 7)
	keys := make([]key, 0, len(s.alive))
	for k := range s.alive {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].uri+keys[i].match < keys[j].uri+keys[j].match })
	for _, k := range keys {
		for try := 0; try < 6; try++ {
			t := k.witness(r)
			if k.match == prefix && try > 0 {
				t = k.uri + fmt.Sprintf("zz%d", try)
			}
			// only if this subscription is the one that serves the topic, whatever happens to overlapping ones
			serves := k.matches(t)
			for o := range s.alive {
				if o == k || !o.matches(t) {
					continue
				}
				switch {
				case k.match == exact:
				case k.match == prefix && o.match == prefix && len(o.uri) < len(k.uri), k.match == prefix && o.match == wildcard:
				default:
					serves = false
				}
			}
			if !serves {
				continue
			}
			got, event := s.publish(pub, t, pubOpts{})
			for _, h := range s.holders(k) {
				c.Feat("probe")
				c.Check(got[h.id], "lost", "session %d holds subscription %d to %s %q, but gets no event on %q", h.id, s.alive[k], k.match, k.uri, t)
			}
			_ = event
			break
		}
	}
	for _, x := range append([]*bsess(nil), s.attached...) {
		if x == pub {
			continue
		}
		if r.Bool() {
			s.leave(x)
			continue
		}
		ids := map[uint64]bool{}
		for id := range x.subs {
			ids[id] = true
		}
		for _, id := range sortedIDs(ids) {
			s.unsubscribe(x, id)
		}
	}
	for i := 0; i < 4; i++ {
		got, _ := s.publish(pub, s.genTopic(), pubOpts{exclude: false})
		c.Check(len(got) == 0, "after the end", "nobody holds a subscription, event goes to %v", sortedIDs(got))
	}
	for _, k := range keys {
		s.has(k.uri)
	}
}
