package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

func init() {
	register(&Prop{ID: "E04", Quick: 250, Thoro: 20000,
		Rule: "a router with a goroutine per connection and clients with several goroutines each, all at once, under the race detector with pauses between statements; what every call and publication came to is compared at the end, when nothing is on its way; distinct = different order of completion",
		Need: map[string]int64{"result": 5000, "error": 500, "no such procedure": 500, "progressive result": 1000, "call in chunks": 500, "shared callee": 1000, "event": 5000,
			"published": 1000, "bystander came and went": 500, "bystander left with a call open": 100, "answer in a goroutine of its own": 1000, "handshake during traffic": 500},
		Assume: []string{"registrations and subscriptions of those judged are confirmed before the traffic starts", "no published topic is matched by several distinct subscriptions",
			"schedules are those of the Go scheduler with injected pauses"},
		Case: e04})
}

// mailbox is one direction of a connection.
type mailbox struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      [][]byte
	closed bool
}

func newMailbox() *mailbox {
	m := &mailbox{}
	m.cond = sync.NewCond(&m.mu)
	return m
}

func (m *mailbox) put(b []byte) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.closed {
		return false
	}
	m.q = append(m.q, b)
	m.cond.Signal()
	return true
}

// get waits for the next message; nil is the end.
func (m *mailbox) get() []byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	for len(m.q) == 0 {
		if m.closed {
			return nil
		}
		m.cond.Wait()
	}
	b := m.q[0]
	m.q = m.q[1:]
	return b
}

func (m *mailbox) close() (left int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	left = len(m.q)
	m.q, m.closed = nil, true
	m.cond.Broadcast()
	return left
}

// busyCount counts what is on its way or being handled.
type busyCount struct {
	mu   sync.Mutex
	n    int
	zero chan struct{} // closed when n becomes 0
}

func (b *busyCount) Add(d int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.n == 0 {
		b.zero = make(chan struct{})
	}
	b.n += d
	if b.n == 0 {
		close(b.zero)
	}
}

func (b *busyCount) Done() { b.Add(-1) }

// quiet is closed when nothing is on its way.
func (b *busyCount) quiet() chan struct{} {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.zero == nil {
		b.zero = make(chan struct{})
		close(b.zero)
	}
	return b.zero
}

func (b *busyCount) Wait() { <-b.quiet() }

// fnet is a router and its clients, each with goroutines of their own.
type fnet struct {
	c      *C
	dealer *wampproto.Dealer
	broker *wampproto.Broker
	// what is on its way or being handled; nothing is when it is done
	busy   busyCount
	served sync.WaitGroup // goroutines that serve a connection

	mu      sync.Mutex
	conns   map[uint64]*fconn
	callers map[uint64]*fconn // by invocation
	ctxs    []*C
	roots   []*Rand
	auth    *openAuth

	disclose bool
	called   map[string]map[string]*fconn // who calls which procedure with which token
}

// ctx makes the context of one more goroutine.
func (n *fnet) ctx() *C {
	n.mu.Lock()
	defer n.mu.Unlock()
	x := &C{Run: n.c.Run, R: n.c.R.Fork(), Case: n.c.Case, feat: map[string]int64{}}
	n.ctxs = append(n.ctxs, x)
	return x
}

// guarded runs something that may end in a verdict.
func guarded(c *C, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortCase); !ok {
				c.Report("panic", "panic: %v\n%s", e, clip(string(debug.Stack()), 3500))
			}
		}
	}()
	f()
}

type fcall struct {
	token            string
	args             []any
	kw               map[string]any
	receive          bool
	nprog            int
	want             string // echo, error or none
	chunks           int
	progress, finals int
	done             chan struct{}
}

type fpub struct {
	topic   string
	token   string
	n       int // of its sender
	ack     bool
	self    bool
	acked   int
	args    []any
	from    *fconn
	arrived map[*fconn]int
}

type fevent struct {
	details map[string]any
	at      time.Time
	token   string
}

// fconn is a client and its connection.
type fconn struct {
	net       *fnet
	i         int
	kind      int
	ser       serializers.Serializer
	up, down  *mailbox
	bystander bool
	id        uint64
	sess      *wampproto.Session
	gen       wampproto.SessionScopeIDGenerator
	welcomed  chan struct{}

	mu      sync.Mutex
	calls   map[uint64]*fcall
	pubs    map[uint64]*fpub
	regs    int
	subs    map[uint64]key
	asked   map[uint64]key
	events  []fevent
	order   []time.Time
	gone    bool
	pending map[uint64]int // chunks got per invocation; only used by the reader
}

func (n *fnet) connect(i, kind int, bystander bool, ca auth.ClientAuthenticator) *fconn {
	f := &fconn{net: n, i: i, kind: kind, ser: serializerOf(kind), up: newMailbox(), down: newMailbox(), bystander: bystander, welcomed: make(chan struct{}),
		calls: map[uint64]*fcall{}, pubs: map[uint64]*fpub{}, subs: map[uint64]key{}, asked: map[uint64]key{}, pending: map[uint64]int{}}
	n.served.Add(2)
	n.busy.Add(1)
	go n.serve(f, n.ctx())
	go f.run(n.ctx(), ca)
	return f
}

func (n *fnet) send(m *mailbox, b []byte) {
	n.busy.Add(1)
	if !m.put(b) {
		n.busy.Done()
	}
}

func (f *fconn) String() string { return fmt.Sprintf("client %d (%s)", f.i, kindNames[f.kind]) }

// ---- the router's side

func (n *fnet) serve(f *fconn, c *C) {
	defer n.served.Done()
	acc := wampproto.NewAcceptor(f.ser, n.auth)
	joined := false
	for {
		b := f.up.get()
		if b == nil {
			break
		}
		guarded(c, func() {
			if !joined {
				reply, welcomed, err := acc.Receive(b)
				c.Check(err == nil && reply != nil, "handshake", "%v: %v", f, err)
				if welcomed {
					d, err := acc.SessionDetails()
					c.Check(err == nil, "handshake", "%v: %v", f, err)
					e1, e2 := n.dealer.AddSession(d), n.broker.AddSession(d)
					c.Check(e1 == nil && e2 == nil, "handshake", "%v: session %d: %v %v", f, d.ID(), e1, e2)
					n.mu.Lock()
					n.conns[d.ID()], f.id = f, d.ID()
					n.mu.Unlock()
					joined = true
				}
				n.send(f.down, reply)
				return
			}
			m, err := f.ser.Deserialize(b)
			c.Check(err == nil, "router", "the router cannot read what %v sent: %v", f, err)
			n.dispatch(c, f, m)
		})
		n.busy.Done()
	}
	guarded(c, func() {
		if joined {
			n.mu.Lock()
			delete(n.conns, f.id)
			n.mu.Unlock()
			e1, e2 := n.dealer.RemoveSession(f.id), n.broker.RemoveSession(f.id)
			c.Check(e1 == nil && e2 == nil, "leave", "session %d cannot leave: %v %v", f.id, e1, e2)
		}
	})
}

func (n *fnet) dispatch(c *C, f *fconn, m messages.Message) {
	switch m.Type() {
	case messages.MessageTypePublish:
		p, err := n.broker.ReceivePublish(f.id, m.(*messages.Publish))
		c.Check(err == nil && p != nil, "refused", "PUBLISH of %v: %v", f, err)
		if p.Event != nil {
			for _, to := range p.Recipients {
				n.deliver(c, to, p.Event)
			}
		}
		if p.Ack != nil {
			n.deliver(c, p.Ack.Recipient, p.Ack.Message)
		}
		return
	case messages.MessageTypeSubscribe, messages.MessageTypeUnsubscribe:
		out, err := n.broker.ReceiveMessage(f.id, m)
		c.Check(err == nil && out != nil, "refused", "%s of %v: %v", typeName(m), f, err)
		n.deliver(c, out.Recipient, out.Message)
		return
	}
	out, err := n.dealer.ReceiveMessage(f.id, m)
	if err != nil {
		// the caller may have left
		var inv uint64
		switch x := m.(type) {
		case *messages.Yield:
			inv = x.RequestID()
		case *messages.Error:
			inv = x.RequestID()
		}
		n.mu.Lock()
		caller := n.callers[inv]
		n.mu.Unlock()
		if caller != nil && caller.bystander {
			c.Feat("answer to one who left")
			return
		}
	}
	c.Check(err == nil && out != nil, "refused", "%s of %v: %v", typeName(m), f, err)
	if inv, ok := out.Message.(*messages.Invocation); ok {
		n.mu.Lock()
		if old := n.callers[inv.RequestID()]; old != nil && old != f {
			n.mu.Unlock()
			c.Fail("invocation id", "invocation %d is for calls of %v and %v", inv.RequestID(), old, f)
		}
		n.callers[inv.RequestID()] = f
		n.mu.Unlock()
	}
	n.deliver(c, out.Recipient, out.Message)
}

func (n *fnet) deliver(c *C, to uint64, m messages.Message) {
	n.mu.Lock()
	f := n.conns[to]
	n.mu.Unlock()
	if f == nil {
		c.Feat("to one who left")
		return
	}
	b, err := f.ser.Serialize(m)
	c.Check(err == nil, "encode", "%s for %v: %v", typeName(m), f, err)
	n.send(f.down, b)
}

// ---- the client's side

func (f *fconn) run(c *C, ca auth.ClientAuthenticator) {
	n := f.net
	defer n.served.Done()
	j := wampproto.NewJoiner("realm", f.ser, ca)
	b, err := j.SendHello()
	if err != nil {
		c.Report("handshake", "SendHello: %v", err)
	}
	n.send(f.up, b)
	n.busy.Done() // what connect began
	joined := false
	for {
		b := f.down.get()
		if b == nil {
			break
		}
		guarded(c, func() {
			if joined {
				f.receive(c, b)
				return
			}
			reply, err := j.Receive(b)
			c.Check(err == nil, "handshake", "%v: %v", f, err)
			if reply != nil {
				n.send(f.up, reply)
				return
			}
			d, err := j.SessionDetails()
			c.Check(err == nil, "handshake", "%v: %v", f, err)
			n.mu.Lock()
			id := f.id
			n.mu.Unlock()
			c.Check(d.ID() == id && d.AuthID() == "id-"+ca.AuthID(), "handshake", "%v is session %d of %q, the router granted %d", f, d.ID(), d.AuthID(), id)
			f.sess = wampproto.NewSession(f.ser)
			joined = true
			close(f.welcomed)
		})
		n.busy.Done()
	}
	if !joined {
		close(f.welcomed)
	}
}

// request sends a message, from any goroutine.
func (f *fconn) request(c *C, m messages.Message) {
	b, err := f.sess.SendMessage(m)
	c.Check(err == nil && b != nil, "send", "%v cannot send %s: %v", f, typeName(m), err)
	f.net.send(f.up, b)
}

func (f *fconn) receive(c *C, b []byte) {
	m, err := f.sess.Receive(b)
	if err != nil {
		if x, e := f.ser.Deserialize(b); e == nil && f.bystander && x.Type() == messages.MessageTypeEvent {
			return // on its way before the confirmation
		}
	}
	c.Check(err == nil, "rejected", "%v rejects what the router sent: %v", f, err)
	switch m := m.(type) {
	case *messages.Registered:
		f.mu.Lock()
		f.regs++
		f.mu.Unlock()
	case *messages.Subscribed:
		f.mu.Lock()
		f.subs[m.SubscriptionID()] = f.asked[m.RequestID()]
		f.mu.Unlock()
	case *messages.Unsubscribed, *messages.Unregistered:
	case *messages.Published:
		f.mu.Lock()
		p := f.pubs[m.RequestID()]
		if p != nil {
			p.acked++
		}
		f.mu.Unlock()
		c.Check(p != nil, "published", "%v gets PUBLISHED %d for nothing", f, m.RequestID())
		c.Feat("published")
	case *messages.Event:
		c.Check(len(m.Args()) > 0, "event", "an event without its arguments: %s", show(m.Args()))
		tok, ok := m.Args()[0].(string)
		c.Check(ok, "event", "an event with changed arguments: %s", show(m.Args()))
		f.mu.Lock()
		f.events = append(f.events, fevent{m.Details(), time.Now(), tok})
		_, held := f.subs[m.SubscriptionID()]
		f.mu.Unlock()
		c.Check(held || f.bystander, "event", "%v gets an event of subscription %d, which it does not hold", f, m.SubscriptionID())
		c.Feat("event")
	case *messages.Result:
		f.outcome(c, m.RequestID(), m.Details()["progress"] == true, m.Args(), m.KwArgs(), "")
	case *messages.Error:
		c.Check(m.MessageType() == messages.MessageTypeCall, "error", "%v gets an error for a request of type %d: %s", f, m.MessageType(), m.URI())
		f.outcome(c, m.RequestID(), false, m.Args(), m.KwArgs(), m.URI())
	case *messages.Invocation:
		f.invoked(c, m)
	default:
		c.Fail("unexpected", "%v gets %T", f, m)
	}
}

func (f *fconn) outcome(c *C, req uint64, progress bool, args []any, kw map[string]any, uri string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	k := f.calls[req]
	c.Check(k != nil, "outcome", "%v gets an outcome for call %d, which it did not make", f, req)
	if progress {
		c.Check(k.receive && k.finals == 0 && len(args) == 2 && args[0] == k.token && equalValues(args[1], k.progress), "progress",
			"%v: progressive result %d of call %d (%s) is %s", f, k.progress, req, k.token, show(args))
		k.progress++
		c.Feat("progressive result")
		return
	}
	k.finals++
	f.order = append(f.order, time.Now())
	defer close(k.done)
	c.Check(k.finals == 1, "outcome", "%v: call %d (%s) has %d outcomes", f, req, k.token, k.finals)
	switch k.want {
	case "echo":
		c.Check(uri == "" && sameArgs(k.args, k.kw, args, kw), "outcome", "%v: call %d of %s %s comes to %q %s %s", f, req, show(k.args), show(k.kw), uri, show(args), show(kw))
		c.Check(k.progress == k.nprog, "progress", "%v: call %d has %d progressive results of %d", f, req, k.progress, k.nprog)
		c.Feat("result")
	case "error":
		c.Check(uri == "com.error."+k.token && len(args) == 1 && args[0] == k.token, "outcome", "%v: call %d (%s) comes to %q %s", f, req, k.token, uri, show(args))
		c.Feat("error")
	case "none":
		c.Check(uri == noSuchProcedure, "outcome", "%v: call %d to nobody comes to %q %s", f, req, uri, show(args))
		c.Feat("no such procedure")
	case "chunks":
		c.Check(uri == "" && len(args) == 2 && args[0] == k.token && equalValues(args[1], k.chunks), "outcome", "%v: call %d (%s) in %d chunks comes to %q %s", f, req, k.token, k.chunks, uri, show(args))
		c.Feat("call in chunks")
	}
}

// invoked answers as the arguments demand: [token, what, number of progressive results, ...].
func (f *fconn) invoked(c *C, m *messages.Invocation) {
	a := m.Args()
	c.Check(len(a) >= 3, "invocation", "%v is invoked with %s", f, show(a))
	tok, _ := a[0].(string)
	what, _ := a[1].(string)
	inv := m.RequestID()
	if f.net.disclose {
		proc, _ := m.Details()["procedure"].(string)
		f.net.mu.Lock()
		caller := f.net.called[tok][proc]
		f.net.mu.Unlock()
		c.Check(caller != nil && equalValues(m.Details()["caller"], caller.id), "disclosed", "%v: the call %s of %v is disclosed as %s", f, tok, caller, show(m.Details()))
		c.Feat("caller disclosed")
	}
	more := m.Details()["progress"] == true
	if what == "chunks" {
		c.Check(intOf(a[2]) == f.pending[inv], "chunks", "%v gets chunk %s of %s after %d others", f, show(a[2]), tok, f.pending[inv])
		f.pending[inv]++
		if !more {
			f.request(c, messages.NewYield(inv, nil, []any{tok, f.pending[inv]}, nil))
			delete(f.pending, inv)
		}
		return
	}
	c.Check(!more, "invocation", "a call in one piece is invoked with %s", show(m.Details()))
	answer := func(c *C) {
		if what == "error" {
			f.request(c, messages.NewError(messages.MessageTypeInvocation, inv, nil, "com.error."+tok, []any{tok}, nil))
			return
		}
		for i := 0; i < intOf(a[2]); i++ {
			f.request(c, messages.NewYield(inv, map[string]any{"progress": true}, []any{tok, i}, nil))
		}
		f.request(c, messages.NewYield(inv, nil, a, m.KwArgs()))
	}
	if len(tok)%2 == 0 {
		answer(c)
		return
	}
	c.Feat("answer in a goroutine of its own")
	x := f.net.ctx()
	f.net.busy.Add(1)
	go func() {
		defer f.net.busy.Done()
		guarded(x, func() { answer(x) })
	}()
}

func intOf(v any) int {
	if f, ok := v.(float64); ok { // from a client that speaks JSON
		return int(f)
	}
	_, u, ok := asInteger(v)
	if !ok {
		return -1
	}
	return int(u)
}

func (f *fconn) call(c *C, proc, tok, want string, nprog int, args []any, kw map[string]any) *fcall {
	k := &fcall{token: tok, want: want, nprog: nprog, receive: nprog > 0, args: append([]any{tok, want, nprog}, args...), kw: kw, done: make(chan struct{})}
	f.net.mu.Lock()
	if f.net.called[tok] == nil {
		f.net.called[tok] = map[string]*fconn{}
	}
	f.net.called[tok][proc] = f
	f.net.mu.Unlock()
	req := f.gen.NextID()
	f.mu.Lock()
	f.calls[req] = k
	f.mu.Unlock()
	opts := map[string]any{}
	if k.receive {
		opts["receive_progress"] = true
	}
	if want == "chunks" {
		k.chunks = nprog
		k.receive, k.nprog = false, 0
		for i := 0; i < k.chunks; i++ {
			f.request(c, messages.NewCall(req, map[string]any{"progress": i < k.chunks-1}, proc, []any{tok, "chunks", i}, nil))
		}
		return k
	}
	f.request(c, messages.NewCall(req, opts, proc, k.args, kw))
	return k
}

func (f *fconn) register(c *C, k key, invoke string) {
	o := optionsOf(k, c.R)
	if invoke != "" {
		o["invoke"] = invoke
	}
	f.request(c, messages.NewRegister(f.gen.NextID(), o, k.uri))
}

func (f *fconn) subscribe(c *C, k key) {
	req := f.gen.NextID()
	f.mu.Lock()
	f.asked[req] = k
	f.mu.Unlock()
	f.request(c, messages.NewSubscribe(req, optionsOf(k, c.R), k.uri))
}

func (f *fconn) publish(c *C, topic, tok string, n int, self bool) *fpub {
	p := &fpub{topic: topic, token: tok, n: n, ack: c.R.P(40), self: self, from: f}
	req := f.gen.NextID()
	f.mu.Lock()
	f.pubs[req] = p
	f.mu.Unlock()
	opts := map[string]any{}
	if p.ack {
		opts["acknowledge"] = true
	}
	if self {
		opts["exclude_me"] = false
	}
	f.request(c, messages.NewPublish(req, opts, topic, []any{tok}, nil))
	return p
}

// leave closes the connection as a lost one is.
func (f *fconn) leave() {
	for i := f.up.close(); i > 0; i-- {
		f.net.busy.Done()
	}
	for i := f.down.close(); i > 0; i-- {
		f.net.busy.Done()
	}
}

func e04(c *C) {
	r := c.R
	seed, pub, _ := keyPair(r)
	n := &fnet{c: c, dealer: wampproto.NewDealer(), broker: wampproto.NewBroker(), conns: map[uint64]*fconn{}, callers: map[uint64]*fconn{}, disclose: r.Bool(), called: map[string]map[string]*fconn{}, auth: &openAuth{pub: pub}}
	n.dealer.AutoDiscloseCaller(n.disclose)
	n.broker.AutoDisclosePublisher(n.disclose)
	sign, err := auth.NewCryptoSignAuthenticator("sid", seed, nil)
	if err != nil {
		c.Skip("key")
	}
	cas := []auth.ClientAuthenticator{auth.NewAnonymousAuthenticator("anna", nil), auth.NewTicketAuthenticator("tim", "ticket", nil),
		auth.NewWAMPCRAAuthenticator("carl", "secret", nil), sign}
	count := 2 + r.Intn(4)
	var all []*fconn
	for i := 0; i < count; i++ {
		all = append(all, n.connect(i, r.Intn(3), false, pick(r, cas)))
	}
	defer func() {
		for _, f := range all {
			f.leave()
		}
		n.served.Wait()
		for _, x := range n.ctxs {
			for k, v := range x.feat {
				c.feat[k] += v
			}
			c.nchk += x.nchk
		}
	}()
	failed := func() {
		c.mu.Lock()
		bad := len(c.viol) > 0
		c.mu.Unlock()
		if bad {
			panic(abortCase{})
		}
	}
	n.busy.Wait()
	failed()
	for _, f := range all {
		select {
		case <-f.welcomed:
		default:
			c.Fail("handshake", "the handshake of %v never ends", f)
		}
		c.Check(f.sess != nil, "handshake", "%v has not joined", f)
	}
	// each sets up what it offers, all at the same time
	keys := []key{{"t.a", exact}, {"p.", prefix}, {"w.*.z", wildcard}}
	topics := []string{"t.a", "p.x.y", "w.q.z"}
	policy := pick(r, []string{"roundrobin", "random", "first", "last"})
	cs := c.split(count)
	inGoroutines(count, func(i int) {
		f, x := all[i], cs[i]
		f.register(x, key{fmt.Sprintf("echo.%d", i), exact}, "")
		f.register(x, key{fmt.Sprintf("pre.%d.", i), prefix}, "")
		f.register(x, key{"shared", exact}, policy)
		for _, k := range keys {
			if x.R.P(70) {
				f.subscribe(x, k)
			}
		}
	})
	c.join(cs)
	n.busy.Wait()
	failed()
	for _, f := range all {
		c.Check(f.regs == 3 && len(f.subs) == len(f.asked), "setup", "%v has %d registrations of 3 and %d subscriptions of %d confirmed", f, f.regs, len(f.subs), len(f.asked))
	}
	// traffic
	per := 1 + r.Intn(3)
	type sender struct {
		f    *fconn
		c    *C
		pubs []*fpub
	}
	var senders []*sender
	for _, f := range all {
		for i := 0; i < per; i++ {
			senders = append(senders, &sender{f: f, c: n.ctx()})
		}
	}
	by := r.Intn(4)
	type guest struct {
		calls []*fcall
		f     *fconn
	}
	guests := make([][]guest, by)
	bctx := make([]*C, by)
	for i := range bctx {
		bctx[i] = n.ctx()
	}
	inGoroutines(len(senders)+by, func(g int) {
		if g >= len(senders) {
			x := bctx[g-len(senders)]
			for i := 0; i < 4; i++ {
				f := n.connect(100+10*g+i, x.R.Intn(3), true, pick(x.R, cas))
				select {
				case <-f.welcomed:
				case <-n.busy.quiet():
					select {
					case <-f.welcomed:
					default:
						x.Report("handshake", "the handshake of a guest never ends")
						f.leave()
						return
					}
				}
				x.Feat("handshake during traffic")
				if f.sess == nil {
					return
				}
				tok := fmt.Sprintf("guest %d.%d", g, i)
				own := "own." + tok
				f.subscribe(x, key{own, exact})
				if x.R.Bool() {
					f.subscribe(x, pick(x.R, keys))
				}
				f.register(x, key{own, exact}, "")
				k := f.call(x, own, tok, "echo", x.R.Intn(3), nil, nil)
				q := f.call(x, fmt.Sprintf("echo.%d", x.R.Intn(count)), tok, "echo", x.R.Intn(3), nil, nil)
				f.publish(x, own, tok, 0, true)
				guests[g-len(senders)] = append(guests[g-len(senders)], guest{[]*fcall{k, q}, f})
				if x.R.P(60) {
					for _, k := range []*fcall{k, q} {
						select {
						case <-k.done:
						case <-n.busy.quiet():
							select {
							case <-k.done:
							default: // and nothing is on its way that could bring it
								x.Report("outcome", "a guest's call %s never ends", k.token)
								return
							}
						}
					}
				} else {
					x.Feat("bystander left with a call open")
				}
				f.leave()
				x.Feat("bystander came and went")
			}
			return
		}
		s := senders[g]
		x := s.c
		for i := 0; i < 15; i++ {
			tok := fmt.Sprintf("%d.%d", g, i)
			args, kw := genArgs(x.R, kJSON)
			switch x.R.Intn(8) {
			case 0, 1:
				s.f.call(x, fmt.Sprintf("echo.%d", x.R.Intn(count)), tok, "echo", 0, args, kw)
			case 2:
				s.f.call(x, fmt.Sprintf("pre.%d.%s", x.R.Intn(count), genIdent(x.R)), tok, "echo", 1+x.R.Intn(4), args, kw)
			case 3:
				x.Feat("shared callee")
				s.f.call(x, "shared", tok, "echo", x.R.Intn(2), args, kw)
			case 4:
				s.f.call(x, pick(x.R, []string{"shared", fmt.Sprintf("echo.%d", x.R.Intn(count))}), tok, pick(x.R, []string{"error", "chunks", "chunks"}), 1+x.R.Intn(3), nil, nil)
			case 5:
				s.f.call(x, "nobody."+tok, tok, "none", 0, nil, nil)
			default:
				s.pubs = append(s.pubs, s.f.publish(x, pick(x.R, topics), tok, i, x.R.P(30)))
			}
		}
	})
	n.busy.Wait()
	failed()
	// nothing is on its way any more
	var order []fevent
	for _, f := range all {
		f.mu.Lock()
		var reqs []uint64
		for req := range f.calls {
			reqs = append(reqs, req)
		}
		sort.Slice(reqs, func(i, j int) bool { return reqs[i] < reqs[j] })
		for _, req := range reqs {
			c.Check(f.calls[req].finals == 1, "outcome", "%v: call %d (%s) has %d outcomes", f, req, f.calls[req].token, f.calls[req].finals)
		}
		for _, p := range f.pubs {
			want := 0
			if p.ack {
				want = 1
			}
			c.Check(p.acked == want, "published", "%v: publication %s is acknowledged %d times, want %d", f, p.token, p.acked, want)
		}
		for _, t := range f.order {
			order = append(order, fevent{nil, t, fmt.Sprint(f.i)})
		}
		f.mu.Unlock()
	}
	for _, f := range all {
		got := map[string][]int{}
		for i, e := range f.events {
			got[e.token] = append(got[e.token], i)
		}
		known := 0
		for _, s := range senders {
			last := -1
			for _, p := range s.pubs {
				want := 0
				for _, k := range f.subs {
					if k.matches(p.topic) && (f != s.f || p.self) {
						want = 1
					}
				}
				c.Check(len(got[p.token]) == want, "event", "%v gets event %s on %q of %v %d times, want %d", f, p.token, p.topic, s.f, len(got[p.token]), want)
				if want == 1 {
					known++
					c.Check(got[p.token][0] > last, "order", "%v gets event %s of %v before an earlier one of the same goroutine", f, p.token, s.f)
					last = got[p.token][0]
					if n.disclose {
						d := f.events[last].details
						c.Check(d["topic"] == p.topic && equalValues(d["publisher"], s.f.id), "disclosed", "%v: the event %s of %v on %q is disclosed as %s", f, p.token, s.f, p.topic, show(d))
						c.Feat("publisher disclosed")
					}
				}
			}
		}
		c.Check(known == len(f.events), "event", "%v gets %d events, %d of which were published", f, len(f.events), known)
	}
	for _, l := range guests {
		for _, q := range l {
			q.f.mu.Lock()
			for _, k := range q.calls {
				c.Check(k.finals <= 1, "outcome", "a guest's call has %d outcomes", k.finals)
			}
			q.f.mu.Unlock()
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].at.Before(order[j].at) })
	for _, o := range order {
		c.Mix(o.token)
	}
}
