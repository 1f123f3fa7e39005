package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// The X properties relate two executions: the same abstract requests are put to two routers (or sessions), which see
// them differently; what comes out, translated back, has to be the same. What it should be is left to the others.

func init() {
	reg := func(id string, quick int, rule string, run func(*C), need map[string]int64) {
		for _, n := range []string{"INVOCATION", "RESULT", "ERROR", "EVENT", "PUBLISHED", "REGISTERED", "SUBSCRIBED", "UNREGISTERED", "UNSUBSCRIBED", "refused"} {
			need[n] = 2000
		}
		need["session accepts"], need["session refuses"] = 2000, 2000
		register(&Prop{ID: id, Quick: quick, Thoro: quick * 30, Case: run,
			Rule:   "the same random requests, valid and invalid, put to two routers or sessions, " + rule + "; distinct = different transcript",
			Assume: []string{"no two wildcard patterns match the same URI, and no random invocation policy, as the outcome would be open"}, Need: need})
	}
	reg("X01", 15000, "one of which gets options and details nobody has heard of as well", x01, map[string]int64{"noise": 20000, "handshake": 300})
	reg("X02", 15000, "one of which gets options that say what is the case without them", x02, map[string]int64{"explicit": 10000})
	reg("X03", 15000, "one of which gets every message through a serializer", x03, map[string]int64{"serialized": 50000})
	reg("X04", 15000, "one of which sees other names, ids and contents", x04, map[string]int64{"renamed": 5000})
	reg("X05", 12000, "one of which serves other clients in between", x05, map[string]int64{"in between": 30000})
}

// mop is one abstract request.
type mop struct {
	kind string
	s    int // which session
	req  int // which request id
	opts map[string]any
	key  key
	uri  string
	ref  int  // which object of those seen so far
	own  bool // by its owner
	pay  int
}

func (o *mop) String() string {
	return fmt.Sprintf("S%d %s r%d %s%s%s ref %d own %v pay %d %s", o.s, o.kind, o.req, o.key.match, o.key.uri, o.uri, o.ref, o.own, o.pay, show(o.opts))
}

// mview is how a router sees abstract requests.
type mview struct {
	sess     []uint64
	req      func(int) uint64
	uri      func(string) string
	name     func(string) string // of authids and roles
	pays     []content
	opts     func(kind string, o map[string]any) map[string]any
	via      func(messages.Message) messages.Message
	statics  []bool
	errorURI string
}

func plain(s string) string { return s }

func (v *mview) asis() {
	v.uri, v.name = plain, plain
	v.opts = func(_ string, o map[string]any) map[string]any { return o }
	v.via = func(m messages.Message) messages.Message { return m }
}

// mworld is a router with its clients.
type mworld struct {
	c      *C
	name   string
	dealer *wampproto.Dealer
	broker *wampproto.Broker
	v      *mview

	unReq  map[uint64]int
	unURI  map[string]string
	unName map[string]string
	seen   map[string]map[uint64]int // of a kind of id: its number
	list   map[string][]mobject
	lines  []string
	told   bool // to disclose
}

type mobject struct {
	id    uint64
	owner int
}

func newMworld(c *C, name string, d *wampproto.Dealer, b *wampproto.Broker, v *mview) *mworld {
	return &mworld{c: c, name: name, dealer: d, broker: b, v: v, unReq: map[uint64]int{}, unURI: map[string]string{}, unName: map[string]string{},
		seen: map[string]map[uint64]int{}, list: map[string][]mobject{}}
}

func (w *mworld) sessIndex(id uint64) string {
	for i, s := range w.v.sess {
		if s == id {
			return fmt.Sprintf("S%d", i)
		}
	}
	return fmt.Sprintf("session %d, which has nothing to do with it", id)
}

// number gives an id its number in the order of appearance.
func (w *mworld) number(space string, id uint64) string {
	if w.seen[space] == nil {
		w.seen[space] = map[uint64]int{}
	}
	n, ok := w.seen[space][id]
	if !ok {
		n = len(w.seen[space])
		w.seen[space][id] = n
	}
	return fmt.Sprintf("%s%d", space, n)
}

func (w *mworld) addObject(space string, id uint64, owner int) {
	for _, o := range w.list[space] {
		if o.id == id && o.owner == owner {
			return
		}
	}
	w.list[space] = append(w.list[space], mobject{id, owner})
}

func (w *mworld) req(n int) uint64 {
	id := w.v.req(n)
	w.unReq[id] = n
	return id
}

func (w *mworld) reqBack(id uint64) string {
	n, ok := w.unReq[id]
	if !ok {
		return fmt.Sprintf("request %d, which nobody made", id)
	}
	return fmt.Sprintf("r%d", n)
}

func (w *mworld) uri(u string) string {
	x := w.v.uri(u)
	w.unURI[x] = u
	return x
}

func (w *mworld) ident(n string) string {
	x := w.v.name(n)
	w.unName[x] = n
	return x
}

// payBack tells which content this is.
func (w *mworld) payBack(args []any, kw map[string]any) string {
	got := content{args, kw}
	for i, p := range w.v.pays {
		if p.same(got) == "" {
			return fmt.Sprintf("content %d", i)
		}
	}
	return "content " + show(args) + show(kw)
}

func (w *mworld) details(d map[string]any) string {
	keys := sortedKeys(d, wireOpts{})
	var l []string
	for _, k := range keys {
		s := show(d[k])
		switch k {
		case "caller", "publisher":
			if _, abs, ok := asInteger(canonInt(d[k])); ok {
				s = w.sessIndex(abs)
			}
		case "caller_authid", "caller_authrole", "publisher_authid", "publisher_authrole":
			x, _ := d[k].(string)
			s = fmt.Sprint("name ", w.unName[x])
		case "procedure", "topic":
			x, _ := d[k].(string)
			if back, ok := w.unURI[x]; ok {
				s = "uri " + back
			}
		case "progress", "receive_progress":
			if b, ok := d[k].(bool); ok && !b { // as good as absent
				continue
			}
		}
		l = append(l, k+"="+s)
	}
	return strings.Join(l, ",")
}

func canonInt(v any) any {
	if n, ok := v.(uint64); ok {
		return n
	}
	return v
}

// out translates what the router sends.
func (w *mworld) out(o *wampproto.MessageWithRecipient, err error) string {
	if err != nil {
		w.c.Feat("refused")
		return "refused"
	}
	if o == nil {
		return "nothing"
	}
	if nilMsg(o.Message) {
		return "nothing for " + w.sessIndex(o.Recipient)
	}
	return w.sessIndex(o.Recipient) + " gets " + w.message(o.Recipient, o.Message)
}

func (w *mworld) message(to uint64, msg messages.Message) string {
	w.c.Feat(mtypeByCode[msg.Type()].name)
	owner := -1
	for i, s := range w.v.sess {
		if s == to {
			owner = i
		}
	}
	switch m := msg.(type) {
	case *messages.Registered:
		w.addObject("reg", m.RegistrationID(), owner)
		return "REGISTERED " + w.reqBack(m.RequestID()) + " " + w.number("reg", m.RegistrationID())
	case *messages.Unregistered:
		return "UNREGISTERED " + w.reqBack(m.RequestID())
	case *messages.Subscribed:
		w.addObject("sub", m.SubscriptionID(), owner)
		return "SUBSCRIBED " + w.reqBack(m.RequestID()) + " " + w.number("sub", m.SubscriptionID())
	case *messages.Unsubscribed:
		return "UNSUBSCRIBED " + w.reqBack(m.RequestID())
	case *messages.Published:
		return "PUBLISHED " + w.reqBack(m.RequestID()) + " " + w.number("pub", m.PublicationID())
	case *messages.Invocation:
		w.addObject("inv", m.RequestID(), owner)
		return fmt.Sprintf("INVOCATION %s %s {%s} %s", w.number("inv", m.RequestID()), w.number("reg", m.RegistrationID()), w.details(m.Details()), w.payBack(m.Args(), m.KwArgs()))
	case *messages.Result:
		return fmt.Sprintf("RESULT %s {%s} %s", w.reqBack(m.RequestID()), w.details(m.Details()), w.payBack(m.Args(), m.KwArgs()))
	case *messages.Event:
		return fmt.Sprintf("EVENT %s %s {%s} %s", w.number("sub", m.SubscriptionID()), w.number("pub", m.PublicationID()), w.details(m.Details()), w.payBack(m.Args(), m.KwArgs()))
	case *messages.Error:
		if m.URI() != w.v.errorURI {
			return fmt.Sprintf("ERROR %d %s %s", m.MessageType(), w.reqBack(m.RequestID()), m.URI())
		}
		return fmt.Sprintf("ERROR %d %s {%s} the callee's %s", m.MessageType(), w.reqBack(m.RequestID()), w.details(m.Details()), w.payBack(m.Args(), m.KwArgs()))
	}
	return typeName(msg)
}

const unknownID = uint64(1)<<52 + 12345

// object picks an object and the session to act on it.
func (w *mworld) object(op *mop, space string) (uint64, uint64) {
	l := w.list[space]
	if len(l) == 0 || op.ref == 0 {
		return unknownID, w.v.sess[op.s]
	}
	n := len(l)
	if op.ref%3 > 0 { // mostly recent ones
		n = min(n, 3)
	}
	o := l[len(l)-1-(op.ref/3)%n]
	if op.own && o.owner >= 0 {
		return o.id, w.v.sess[o.owner]
	}
	return o.id, w.v.sess[op.s]
}

func (w *mworld) do(op *mop) {
	line := w.exec(op)
	w.lines = append(w.lines, op.String()+" => "+line)
	w.c.Logf("%s: %s => %s", w.name, op, line)
}

func (w *mworld) exec(op *mop) string {
	v := w.v
	id := v.sess[op.s]
	opts := v.opts(op.kind, op.opts)
	switch op.kind {
	case "join":
		d := wampproto.NewSessionDetails(id, "realm", w.ident(fmt.Sprintf("user%d", op.s)), w.ident(fmt.Sprintf("role%d", op.s)), "anonymous", v.statics[op.s], nil, nil)
		return fmt.Sprint(w.dealer.AddSession(d) == nil, w.broker.AddSession(d) == nil)
	case "leave":
		return fmt.Sprint(w.dealer.RemoveSession(id) == nil, w.broker.RemoveSession(id) == nil)
	case "disclose":
		w.told = op.own
		w.dealer.AutoDiscloseCaller(op.own)
		w.broker.AutoDisclosePublisher(op.own)
		return ""
	case "has":
		return fmt.Sprint(w.dealer.HasProcedure(w.uri(op.key.uri)), w.broker.HasSubscription(w.uri(op.key.uri)))
	case "register":
		return w.out(w.dealer.ReceiveMessage(id, v.via(messages.NewRegister(w.req(op.req), opts, w.uri(op.key.uri)))))
	case "subscribe":
		return w.out(w.broker.ReceiveMessage(id, v.via(messages.NewSubscribe(w.req(op.req), opts, w.uri(op.key.uri)))))
	case "unregister":
		obj, by := w.object(op, "reg")
		return w.sessIndex(by) + ": " + w.out(w.dealer.ReceiveMessage(by, v.via(messages.NewUnregister(w.req(op.req), obj))))
	case "unsubscribe":
		obj, by := w.object(op, "sub")
		return w.sessIndex(by) + ": " + w.out(w.broker.ReceiveMessage(by, v.via(messages.NewUnsubscribe(w.req(op.req), obj))))
	case "call":
		p := v.pays[op.pay]
		return w.out(w.dealer.ReceiveMessage(id, v.via(messages.NewCall(w.req(op.req), opts, w.uri(op.uri), p.args, p.kw))))
	case "yield":
		inv, by := w.object(op, "inv")
		p := v.pays[op.pay]
		return w.sessIndex(by) + ": " + w.out(w.dealer.ReceiveMessage(by, v.via(messages.NewYield(inv, opts, p.args, p.kw))))
	case "error":
		inv, by := w.object(op, "inv")
		p := v.pays[op.pay]
		return w.sessIndex(by) + ": " + w.out(w.dealer.ReceiveMessage(by, v.via(messages.NewError(68, inv, map[string]any{}, v.errorURI, p.args, p.kw))))
	case "publish":
		p := v.pays[op.pay]
		m := v.via(messages.NewPublish(w.req(op.req), opts, w.uri(op.uri), p.args, p.kw)).(*messages.Publish)
		pub, err := w.broker.ReceivePublish(id, m)
		if err != nil {
			w.c.Feat("refused")
			return "refused"
		}
		var to []string
		for _, x := range pub.Recipients {
			to = append(to, w.sessIndex(x))
		}
		sort.Strings(to)
		line := ""
		if len(to) > 0 {
			line = fmt.Sprint(to, " get ", w.message(0, pub.Event))
		}
		if pub.Ack != nil {
			line += " ack: " + w.out(pub.Ack, nil)
		}
		return line
	}
	panic(op.kind)
}

// mscript makes the abstract requests.
type mscript struct {
	r     *Rand
	nsess int
	keys  []key
	uris  []string
	last  map[int]int // the newest request of a session
	reqs  int
	pays  int
}

func (g *mscript) next() *mop {
	r := g.r
	op := &mop{s: r.Intn(g.nsess), ref: r.Intn(12), own: r.P(88), pay: r.Intn(g.pays), key: pick(r, g.keys)}
	op.uri = pick(r, g.uris)
	if r.P(80) {
		k := pick(r, g.keys)
		var l []string
		for _, u := range g.uris {
			if k.matches(u) {
				l = append(l, u)
			}
		}
		if len(l) > 0 {
			op.uri = pick(r, l)
		}
	}
	fresh := func() {
		g.reqs++
		op.req = g.reqs
		if r.P(5) {
			op.req = 1 + r.Intn(g.reqs) // used again
		}
		g.last[op.s] = op.req
	}
	switch n := r.Intn(100); {
	case n < 4:
		op.kind = "join"
	case n < 6:
		op.kind = "leave"
	case n < 8:
		op.kind, op.own = "disclose", r.Bool()
	case n < 12:
		op.kind = "has"
	case n < 24:
		op.kind = "register"
		fresh()
		op.opts = map[string]any{"match": op.key.match, "invoke": pick(r, []string{"single", "first", "last", "roundrobin", "roundrobin"})}
	case n < 28:
		op.kind = "unregister"
		fresh()
	case n < 48:
		op.kind = "call"
		fresh()
		if r.P(20) && g.last[op.s] > 0 { // perhaps a further chunk
			op.req = g.last[op.s]
		}
		op.opts = map[string]any{"progress": r.P(25), "receive_progress": r.P(40)}
	case n < 60:
		op.kind = "yield"
		op.opts = map[string]any{"progress": r.P(30)}
	case n < 66:
		op.kind = "error"
		op.opts = map[string]any{}
	case n < 78:
		op.kind = "subscribe"
		fresh()
		op.opts = map[string]any{"match": op.key.match}
	case n < 82:
		op.kind = "unsubscribe"
		fresh()
	default:
		op.kind = "publish"
		fresh()
		op.opts = map[string]any{"acknowledge": r.Bool(), "exclude_me": r.Bool()}
	}
	return op
}

// mkeys makes keys and URIs such that no URI is matched by two wildcard patterns.
func mkeys(r *Rand, n int) ([]key, []string) {
	var near []string
	for i := 0; i < 3+r.Intn(3); i++ {
		near = append(near, genTopic(r))
	}
	var keys []key
	uris := append([]string{}, near...)
	for try := 0; len(keys) < n && try < 60; try++ {
		k := genKey(r, near)
		us := append(append([]string{}, uris...), k.witness(r), k.witness(r))
		ok := true
		for _, u := range us {
			hits := map[key]bool{}
			for _, o := range append([]key{k}, keys...) {
				if o.match == wildcard && o.matches(u) {
					hits[o] = true
				}
			}
			ok = ok && len(hits) < 2
		}
		if ok {
			keys, uris = append(keys, k), us
		}
	}
	if len(keys) == 0 {
		keys = []key{{near[0], exact}}
	}
	return keys, uris
}

func mpays(r *Rand, n int, tag string) []content {
	var l []content
	for i := 0; i < n; i++ {
		args := []any{fmt.Sprintf("%s%d", tag, i)}
		for k := r.Intn(3); k > 0; k-- {
			args = append(args, pick(r, []any{int64(r.Intn(1000)), true, nil, "wamp.", 1.5, []any{int64(1)}, map[string]any{"progress": true}}))
		}
		var kw map[string]any
		if r.P(40) {
			kw = map[string]any{"k": int64(i), pick(r, []string{"progress", "match", "x", "acknowledge"}): r.Bool()}
		}
		if i%4 == 1 { // no positional ones
			args = pick(r, [][]any{nil, {}})
			kw = map[string]any{fmt.Sprintf("%s%d", tag, i): int64(i)}
		}
		if i == 2 {
			args, kw = pick(r, [][]any{nil, {}}), pick(r, []map[string]any{nil, {}})
		}
		l = append(l, content{args, kw})
	}
	return l
}

func freshIDs(r *Rand, n int, avoid map[uint64]bool) []uint64 {
	var l []uint64
	for len(l) < n {
		id := sessionID(r)
		if r.P(30) { // small ones, which other ids equal as well
			id = uint64(1 + r.Intn(4*n+4))
		}
		if !avoid[id] {
			avoid[id] = true
			l = append(l, id)
		}
	}
	return l
}

// mcase is a script and the view of the first router.
type mcase struct {
	g *mscript
	v *mview
}

func newMcase(r *Rand) *mcase {
	g := &mscript{r: r, nsess: 2 + r.Intn(4), last: map[int]int{}, pays: 4 + r.Intn(8)}
	g.keys, g.uris = mkeys(r, 2+r.Intn(6))
	v := &mview{sess: freshIDs(r, g.nsess, map[uint64]bool{}), pays: mpays(r, g.pays, "p"), errorURI: "com.app.failed"}
	v.req = func(n int) uint64 { return uint64(n) }
	v.asis()
	for i := 0; i < g.nsess; i++ {
		v.statics = append(v.statics, r.Bool())
	}
	return &mcase{g, v}
}

func (m *mcase) ops() []*mop {
	var l []*mop
	for i := 0; i < m.g.nsess; i++ {
		if m.g.r.P(90) {
			l = append(l, &mop{kind: "join", s: i})
		}
	}
	for i := 30 + m.g.r.Intn(70); i > 0; i-- {
		l = append(l, m.g.next())
	}
	return l
}

func (v mview) copy() *mview { return &v }

// compare puts the requests to two routers.
func (c *C) compare(m *mcase, va, vb *mview, what string, between func(b *mworld)) {
	a := newMworld(c, "first", wampproto.NewDealer(), wampproto.NewBroker(), va)
	b := newMworld(c, "second", wampproto.NewDealer(), wampproto.NewBroker(), vb)
	for _, op := range m.ops() {
		if between != nil {
			between(b)
		}
		a.do(op)
		b.do(op)
		x, y := a.lines[len(a.lines)-1], b.lines[len(b.lines)-1]
		c.Check(x == y, "differs", "%s:\n  %s\n  %s", what, x, y)
		c.Mix(x)
	}
}

// ---------------------------------------------------------------- sessions

// sview is how a session sees abstract messages.
type sview struct {
	kind  int
	req   func(int) uint64
	obj   func(int) uint64
	opts  func(kind string, o map[string]any) map[string]any
	bytes func() bool // receives bytes
	pays  []content
}

type sop struct {
	send     bool
	name     string
	req, obj int
	of       uint64 // the request an ERROR is about
	opts     map[string]any
	pay      int
}

func (o *sop) String() string {
	d := "receive"
	if o.send {
		d = "send"
	}
	return fmt.Sprintf("%s %s r%d o%d of %d pay %d %s", d, o.name, o.req, o.obj, o.of, o.pay, show(o.opts))
}

func sops(r *Rand, n, base int) []*sop {
	var l []*sop
	for ; n > 0; n-- {
		o := &sop{send: r.P(50), req: base + r.Intn(6), obj: base + r.Intn(4), pay: r.Intn(6), opts: map[string]any{}}
		if o.send {
			o.name = pick(r, []string{"CALL", "CALL", "REGISTER", "REGISTER", "UNREGISTER", "SUBSCRIBE", "SUBSCRIBE", "UNSUBSCRIBE", "PUBLISH", "PUBLISH", "YIELD", "ERROR", "GOODBYE"})
			o.of = 68
		} else {
			o.name = pick(r, []string{"RESULT", "RESULT", "ERROR", "ERROR", "REGISTERED", "REGISTERED", "UNREGISTERED", "SUBSCRIBED", "SUBSCRIBED", "UNSUBSCRIBED", "PUBLISHED", "INVOCATION", "INVOCATION", "EVENT", "EVENT", "CALL", "GOODBYE", "ABORT"})
			o.of = pick(r, []uint64{48, 64, 66, 32, 34, 16, 68})
		}
		switch o.name {
		case "CALL":
			o.opts = map[string]any{"progress": r.P(25), "receive_progress": r.P(40)}
		case "REGISTER":
			o.opts = map[string]any{"match": pick(r, []string{exact, prefix, wildcard}), "invoke": pick(r, []string{"single", "last"})}
		case "SUBSCRIBE":
			o.opts = map[string]any{"match": pick(r, []string{exact, prefix, wildcard})}
		case "PUBLISH":
			o.opts = map[string]any{"acknowledge": r.P(70), "exclude_me": r.Bool()}
		case "YIELD", "RESULT":
			o.opts = map[string]any{"progress": r.P(30)}
		case "INVOCATION":
			o.opts = map[string]any{"progress": r.P(30), "receive_progress": r.P(30)}
		}
		l = append(l, o)
	}
	return l
}

func (v *sview) do(c *C, s *wampproto.Session, o *sop) string {
	t := mtypeByName[o.name]
	m := V{}
	p := v.pays[o.pay]
	opts := v.opts(o.name, o.opts)
	for _, f := range t.fields {
		switch f.name {
		case "RequestID":
			m[f.name] = v.req(o.req)
		case "RegistrationID", "SubscriptionID":
			m[f.name] = v.obj(o.obj)
		case "PublicationID":
			m[f.name] = uint64(77)
		case "MessageType":
			m[f.name] = o.of
		case "Options", "Details":
			m[f.name] = opts
		default:
			if f.kind == fStr {
				m[f.name] = "com.app.x"
			}
		}
	}
	if t.hasArgs() {
		m["Args"], m["KwArgs"] = p.args, p.kw
	}
	msg := t.build(m)
	var err error
	if o.send {
		var data []byte
		data, err = s.SendMessage(msg)
		if err == nil {
			c.Feat("session accepts")
			raw, derr := decodeWire(v.kind, data)
			l, _ := raw.([]any)
			return fmt.Sprint("sent ", derr == nil && code(l) == t.code)
		}
	} else {
		var out messages.Message
		if v.bytes() {
			data, serr := serializerOf(v.kind).Serialize(msg)
			if serr != nil {
				c.Skip("M01: " + serr.Error())
			}
			out, err = s.Receive(data)
		} else {
			out, err = s.ReceiveMessage(msg)
		}
		if err == nil {
			c.Feat("session accepts")
			line := "accepted " + typeName(out)
			got := t.read(out)
			if t.hasArgs() {
				for i, p := range v.pays {
					if p.same(content{got.list("Args"), got.dict("KwArgs")}) == "" {
						line += fmt.Sprint(" content ", i)
						break
					}
				}
			}
			if _, ok := m["RequestID"]; ok {
				line += fmt.Sprint(got.id("RequestID") == m.id("RequestID"))
			}
			return line
		}
	}
	c.Feat("session refuses")
	return "refused"
}

func newSview(r *Rand) *sview {
	id := func(n int) uint64 { return uint64(n + 1) }
	return &sview{kind: r.Intn(3), req: id, obj: id, pays: mpays(r, 6, "p"), bytes: func() bool { return false },
		opts: func(_ string, o map[string]any) map[string]any { return o }}
}

func (c *C) compareSessions(va, vb *sview, what string, between func(s *wampproto.Session)) {
	a, b := wampproto.NewSession(serializerOf(va.kind)), wampproto.NewSession(serializerOf(vb.kind))
	for _, o := range sops(c.R, 40+c.R.Intn(80), 0) {
		if between != nil {
			between(b)
		}
		x := va.do(c, a, o)
		y := vb.do(c, b, o)
		c.Logf("%s => %s / %s", o, x, y)
		c.Check(x == y, "differs", "%s: %s: %s, but %s", what, o, x, y)
		c.Mix(o.String(), x)
	}
}

// ---------------------------------------------------------------- X01

// unheard makes options that mean nothing, some of them close to those that do.
func unheard(c *C, o map[string]any) map[string]any {
	r := c.R
	if r.P(30) {
		return o
	}
	out := map[string]any{}
	for k, v := range o {
		out[k] = v
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		k := pick(r, []string{"x_custom", "_foo", "x", "Match", "MATCH", "matched", "invoke_", "Invoke", "Acknowledge", "ack", "acknowledged", "excludeme", "exclude_Me", "Progress", "progressive",
			"receive-progress", "receiveprogress", "exact", "prefix", "wildcard", "single", "first", "last", "random", "roundrobin", "topic", "procedure", "uri", "retry", "force", "debug",
			"no_ack", "quiet", "silent", "count", "limit", "user", "username", "secret", "token", "nonce", "key", "test", "internal", "admin", "role", "priority", "delay", "ttl", "cache", "compress", "encoding", "", " ", "request", "request_id", "id", "type", "policy", "shared", "vip", "ü", "details", "options", "args", "kwargs", "caller_", "trace", "x_" + genIdent(r)})
		out[k] = pick(r, []any{true, false, nil, "exact", "prefix", "wildcard", "single", "roundrobin", int64(r.Intn(9)), "", 1.5, []any{"a", true}, map[string]any{"match": "prefix", "progress": true}})
		c.Feat("noise")
	}
	return out
}

func x01(c *C) {
	r := c.R
	switch n := c.Case % 10; {
	case n < 6:
		m := newMcase(r)
		vb := m.v.copy()
		vb.opts = func(kind string, o map[string]any) map[string]any {
			if kind == "error" {
				return o
			}
			return unheard(c, o)
		}
		c.compare(m, m.v, vb, "unknown options make a difference", nil)
	case n < 9:
		va := newSview(r)
		vb := *va
		vb.opts = func(_ string, o map[string]any) map[string]any { return unheard(c, o) }
		c.compareSessions(va, &vb, "unknown options make a difference", nil)
	default:
		x01handshake(c)
	}
}

// x01handshake: a complete handshake whose messages carry details nobody has heard of.
func x01handshake(c *C) {
	r := c.R
	c.Feat("handshake")
	kind := r.Intn(3)
	method := pick(r, allMethods)
	ser := serializerOf(kind)
	secret := genIdent(r) + "s"
	seed, _, _ := keyPair(r)
	ra := &recAuth{methods: []auth.Method{method}, decide: func(a authCall) (auth.Response, error) {
		if a.method == auth.WAMPCRA {
			return auth.NewCRAResponse("id", "role", secret, 0), nil
		}
		if a.method == auth.Ticket && a.ticket != secret {
			return nil, fmt.Errorf("refused")
		}
		return auth.NewResponse("id", "role", 0)
	}}
	var ca auth.ClientAuthenticator
	switch method {
	case auth.Ticket:
		ca = auth.NewTicketAuthenticator("id", secret, nil)
	case auth.WAMPCRA:
		ca = auth.NewWAMPCRAAuthenticator("id", secret, nil)
	case auth.CryptoSign:
		ca, _ = auth.NewCryptoSignAuthenticator("id", seed, nil)
	default:
		ca = auth.NewAnonymousAuthenticator("id", nil)
	}
	acc, join := wampproto.NewAcceptor(ser, ra), wampproto.NewJoiner("realm", ser, ca)
	var script []string
	noisy := func(data []byte) []byte {
		raw, err := decodeWire(kind, data)
		if err != nil {
			c.Skip("M03: " + err.Error())
		}
		l := raw.([]any)
		for i, v := range l {
			if d, ok := v.(map[string]any); ok && i > 0 {
				l[i] = unheard(c, d)
			}
		}
		script = append(script, show(l))
		return encodeWire(kind, l, wireOpts{r})
	}
	data, err := join.SendHello()
	if err != nil {
		c.Skip("A01: " + err.Error())
	}
	for step := 0; ; step++ {
		reply, welcomed, err := acc.Receive(noisy(data))
		c.Check(err == nil, "handshake", "%s: the router fails with %v on %v", method, err, script)
		data, err = join.Receive(noisy(reply))
		c.Check(err == nil, "handshake", "%s: the client fails with %v on %v", method, err, script)
		if welcomed {
			break
		}
		c.Check(step < 3, "handshake", "%s: the handshake does not end: %v", method, script)
	}
	a, e1 := acc.SessionDetails()
	j, e2 := join.SessionDetails()
	c.Check(e1 == nil && e2 == nil, "handshake", "%s: no session after %v: %v %v", method, script, e1, e2)
	c.Check(a.ID() == j.ID() && a.AuthID() == "id" && j.AuthID() == "id" && a.AuthRole() == "role" && j.AuthRole() == "role" && a.Realm() == "realm" && j.Realm() == "realm" &&
		a.AuthMethod() == string(method) && j.AuthMethod() == string(method), "handshake", "%s: sessions %+v and %+v after %v", method, a, j, script)
	c.Mix(strings.Join(script, "|"))
}

// ---------------------------------------------------------------- X02

// theDefault tells whether an option says what is the case without it.
func theDefault(k string, v any) bool {
	switch k {
	case "match":
		return v == exact
	case "invoke":
		return v == "single"
	case "acknowledge", "progress", "receive_progress":
		return v == false
	case "exclude_me":
		return v == true
	}
	return false
}

// unsaid leaves out some options, or all, that are defaults anyway.
func unsaid(c *C, percent int) func(string, map[string]any) map[string]any {
	return func(_ string, o map[string]any) map[string]any {
		out := map[string]any{}
		for _, k := range sortedKeys(o, wireOpts{}) {
			if theDefault(k, o[k]) {
				if c.R.P(percent) {
					continue
				}
				c.Feat("explicit")
			}
			out[k] = o[k]
		}
		if len(out) == 0 && c.R.Bool() {
			return nil
		}
		return out
	}
}

func x02(c *C) {
	r := c.R
	pa, pb := 100, 0
	if r.Bool() {
		pa, pb = 50, 50
	}
	if c.Case%10 < 7 {
		m := newMcase(r)
		va, vb := m.v.copy(), m.v.copy()
		va.opts, vb.opts = unsaid(c, pa), unsaid(c, pb)
		c.compare(m, va, vb, "an option that says what is the default makes a difference", nil)
		return
	}
	va := newSview(r)
	vb := *va
	va.opts, vb.opts = unsaid(c, pa), unsaid(c, pb)
	c.compareSessions(va, &vb, "an option that says what is the default makes a difference", nil)
}

// ---------------------------------------------------------------- X03

func x03(c *C) {
	r := c.R
	if c.Case%10 < 7 {
		m := newMcase(r)
		vb := m.v.copy()
		sers := []serializers.Serializer{serializerOf(kJSON), serializerOf(kCBOR), serializerOf(kMsgPack)}
		vb.via = func(x messages.Message) messages.Message {
			s := pick(r, sers)
			data, err := s.Serialize(x)
			if err != nil {
				c.Skip("M01: " + err.Error())
			}
			out, err := s.Deserialize(data)
			if err != nil {
				c.Skip("M01: " + err.Error())
			}
			c.Feat("serialized")
			return out
		}
		c.compare(m, m.v, vb, "a message that came through a serializer is treated differently", nil)
		return
	}
	va := newSview(r)
	vb := *va
	vb.kind = (va.kind + 1 + r.Intn(2)) % 3
	vb.bytes = func() bool { c.Feat("serialized"); return true }
	c.compareSessions(va, &vb, "a message that came through a serializer is treated differently", nil)
}

// ---------------------------------------------------------------- X04

// alphabet permutes letters and digits; what has a meaning in URIs and patterns stays.
func alphabet(r *Rand) func(string) string {
	from := []rune("abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_-")
	to := append([]rune{}, from...)
	shuffle(r, to)
	if r.P(30) { // names that mean something elsewhere
		to = append([]rune{}, from...)
		for i, x := range "wmp" {
			for j := range to {
				if to[j] == x {
					to[i], to[j] = to[j], to[i]
				}
			}
		}
	}
	m := map[rune]string{}
	for i := range from {
		m[from[i]] = string(to[i])
	}
	if r.P(40) { // images that resemble each other, or words; no two have a letter in common
		images := pick(r, [][]string{{"k", "K", "\u212a", "q", "Q"}, {"s", "S", "ſ", "z", "Z"}, {"é", "E", "e\u0301", "É", "Ê"}, {"i", "I", "ı", "İ", "j"}, {"wamp", "ero", "sub", "x", "_"},
			{"wamp", "sion", "kedt", "c", "v"}, {"com", "wiht", "x", "y", "z"}, {"1", "١", "１", "¹", "2"}, {"a", "а", "A", "А", "ａ"}, {"wamp", "WAMP", "com", "COM", "x"},
			{"#", "%", "_", "-", "@"}, {" ", "+", "!", "~", "="}, {"<", ">", "&", "\"", "'"}, {"$", "{", "}", "(", ")"}, {":", ";", ",", "|", "^"}, {"0", "11", "7", "99", "x"}, {"%s", "#", "\t", "&amp;", "\x00"}})
		used := []rune("abcx")
		shuffle(r, used)
		{
			taken := map[rune]bool{}
			for i, x := range used {
				m[x] = images[i%len(images)]
				for _, y := range m[x] {
					taken[y] = true
				}
			}
			// the others give way
			free := []rune{}
			for _, x := range "αβγδεζηθικλμνξοπρστυφχψωбвгджзийлнпстуфхцчшщъыьэюяѐёђѓєѕіїјљњћќѝўџ∀∁∂∃∄∅∆∇∈∉∊∋∌∍∎∏" {
				if !taken[x] {
					free = append(free, x)
				}
			}
			for i, x := range from {
				if !strings.ContainsRune("abcx", x) {
					m[x] = string(free[i])
				}
			}
		}
	}
	return func(s string) string {
		var b strings.Builder
		for _, x := range s {
			if y, ok := m[x]; ok {
				b.WriteString(y)
			} else {
				b.WriteRune(x)
			}
		}
		return b.String()
	}
}

// renamedIDs is an injective renaming of small numbers.
func renamedIDs(r *Rand) func(int) uint64 {
	ids := map[int]uint64{}
	used := map[uint64]bool{unknownID: true}
	mode := r.Intn(3)
	return func(n int) uint64 {
		for ids[n] == 0 {
			id := r.ID1()
			switch mode {
			case 1:
				id = uint64(1 + r.Intn(400))
			case 2:
				id = uint64(1)<<53 - 1 - uint64(n)
			}
			if !used[id] {
				used[id], ids[n] = true, id
			}
		}
		return ids[n]
	}
}

func x04(c *C) {
	r := c.R
	c.Feat("renamed")
	if c.Case%10 < 7 {
		m := newMcase(r)
		vb := m.v.copy()
		vb.sess = freshIDs(r, m.g.nsess, map[uint64]bool{})
		vb.req = renamedIDs(r)
		vb.uri = alphabet(r)
		names := map[string]string{}
		used := map[string]bool{}
		vb.name = func(n string) string {
			for names[n] == "" {
				x := genIdent(r) + "n"
				if !used[x] {
					used[x], names[n] = true, x
				}
			}
			return names[n]
		}
		vb.pays = mpays(r, m.g.pays, "other")
		vb.errorURI = pick(r, []string{"wamp.error.runtime_error", "com.other", "wamp.error.canceled", "x"})
		c.compare(m, m.v, vb, "other names, ids and contents make a difference", nil)
		return
	}
	va := newSview(r)
	vb := *va
	vb.req, vb.obj = renamedIDs(r), renamedIDs(r)
	vb.pays = mpays(r, 6, "other")
	c.compareSessions(va, &vb, "other ids and contents make a difference", nil)
}

// ---------------------------------------------------------------- X05

func x05(c *C) {
	r := c.R
	if c.Case%10 >= 7 {
		va := newSview(r)
		vb := *va
		alone := wampproto.NewSession(serializerOf(va.kind))
		others := sops(r, 400, 1000)
		c.compareSessions(va, &vb, "other requests of the session make a difference", func(b *wampproto.Session) {
			for r.P(60) && len(others) > 0 {
				o := others[0]
				others = others[1:]
				x, y := vb.do(c, b, o), va.do(c, alone, o)
				c.Feat("in between")
				c.Check(x == y, "differs", "other requests of the session make a difference: %s: %s, but alone %s", o, x, y)
			}
		})
		return
	}
	m := newMcase(r)
	// other clients, in a part of the name space of their own
	g := &mscript{r: r, nsess: 1 + r.Intn(4), last: map[int]int{}, pays: m.g.pays}
	alien := strings.NewReplacer("a", "ä", "b", "ö", "c", "ç", "x", "ß").Replace
	disjoint := func(keys []key, uris []string) bool {
		for _, k := range keys {
			for _, u := range uris {
				if k.matches(u) || k.uri == u {
					return false
				}
			}
		}
		return true
	}
	keyURIs := func(keys []key) (l []string) {
		for _, k := range keys {
			l = append(l, k.uri)
		}
		return l
	}
	for try := 0; ; try++ {
		if try == 30 {
			c.Feat("not disjoint")
			return
		}
		if try%2 == 1 {
			m.g.keys, m.g.uris = mkeys(r, 2+r.Intn(6))
		}
		keys, uris := mkeys(r, 2+r.Intn(6))
		g.keys, g.uris = nil, nil
		for _, k := range keys {
			k.uri = alien(k.uri)
			g.keys = append(g.keys, k)
		}
		for _, u := range uris {
			g.uris = append(g.uris, alien(u))
		}
		if disjoint(m.g.keys, g.uris) && disjoint(g.keys, m.g.uris) && disjoint(m.g.keys, keyURIs(g.keys)) && disjoint(g.keys, keyURIs(m.g.keys)) {
			break
		}
	}
	used := map[uint64]bool{}
	for _, s := range m.v.sess {
		used[s] = true
	}
	ve := &mview{sess: freshIDs(r, g.nsess, used), pays: mpays(r, g.pays, "e"), errorURI: "com.extra.failed", req: m.v.req}
	ve.asis()
	for i := 0; i < g.nsess; i++ {
		ve.statics = append(ve.statics, r.Bool())
	}
	alone := newMworld(c, "others alone", wampproto.NewDealer(), wampproto.NewBroker(), ve)
	var among *mworld
	n := 0
	c.compare(m, m.v, m.v, "what other clients do makes a difference", func(b *mworld) {
		if among == nil {
			among = newMworld(c, "others", b.dealer, b.broker, ve)
		}
		for r.P(60) {
			op := g.next()
			if n < g.nsess {
				op = &mop{kind: "join", s: n}
			}
			n++
			if op.kind == "disclose" { // is about everybody
				continue
			}
			if op.kind == "call" || op.kind == "publish" {
				// whether they are disclosed depends on the others' router
				alone.dealer.AutoDiscloseCaller(b.told)
				alone.broker.AutoDisclosePublisher(b.told)
			}
			alone.do(op)
			among.do(op)
			c.Feat("in between")
			x, y := alone.lines[len(alone.lines)-1], among.lines[len(among.lines)-1]
			c.Check(x == y, "differs", "what other clients do makes a difference:\n  alone %s\n  among others %s", x, y)
		}
	})
}
