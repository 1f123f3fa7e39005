package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
)

func init() {
	rule := "random histories of a simulated network (clients made of Joiner and Session, a router made of Acceptors, one Dealer and one Broker) under a random scheduler of deliveries, drained at the end; distinct = different history"
	assume := []string{"the router handles one message at a time and sends what it yields in that order", "request ids are taken from the session scope generator",
		"a connection delivers in order or is cut", "content is in the part of the WAMP data model that all serializers involved can carry"}
	need := map[string]int64{}
	for _, a := range kindNames {
		for _, b := range kindNames {
			need["RESULT "+a+" to "+b], need["ERROR "+a+" to "+b] = 200, 50
		}
	}
	for _, n := range []string{"no_such_procedure", "progressive result", "progressive call", "callee left with a call pending", "caller left with a call pending",
		"call to itself", "joined anonymous", "joined ticket", "joined wampcra", "joined cryptosign", "framed"} {
		need[n] = 100
	}
	register(&Prop{ID: "E01", Quick: 4000, Thoro: 700000, Rule: rule, Assume: assume, Case: e01, Need: need})
	need = map[string]int64{"acknowledged": 500, "excluded itself": 100, "included itself": 100, "nobody subscribed": 100, "event after unsubscribe was sent": 20, "framed": 100,
		"event by prefix": 500, "event by wildcard": 500, "event by exact": 500}
	for _, a := range kindNames {
		for _, b := range kindNames {
			need["EVENT "+a+" to "+b] = 200
		}
	}
	register(&Prop{ID: "E02", Quick: 4000, Thoro: 700000, Rule: rule, Assume: append(assume, "no published topic is matched by several distinct subscriptions (see B01)"), Case: e02, Need: need})
}

// content is what a call, result, error or event carries.
type content struct {
	args []any
	kw   map[string]any
}

func (a content) same(b content) string {
	norm := func(c content) []any {
		args, kw := []any{}, map[string]any{}
		if len(c.args) > 0 {
			args = c.args
		}
		if len(c.kw) > 0 {
			kw = c.kw
		}
		return []any{args, kw}
	}
	if !equalValues(norm(a), norm(b)) {
		return firstDiff(norm(a), norm(b))
	}
	return ""
}

// pipe is one direction of a connection.
type pipe struct {
	framed bool
	msgs   [][]byte // not framed
	bytes  []byte   // framed: sent, not arrived
	got    []byte   // framed: arrived, incomplete
}

func (p *pipe) put(data []byte) {
	if p.framed {
		p.bytes = append(p.bytes, transports.SendMessageHeader(transports.NewMessageHeader(transports.MessageWamp, len(data)))...)
		p.bytes = append(p.bytes, data...)
		return
	}
	p.msgs = append(p.msgs, append([]byte{}, data...))
}

func (p *pipe) empty() bool { return len(p.msgs) == 0 && len(p.bytes) == 0 }

// move delivers something and returns a message if one is complete.
func (p *pipe) move(c *C, all bool) []byte {
	if !p.framed {
		m := p.msgs[0]
		p.msgs = p.msgs[1:]
		return m
	}
	for {
		// what the reader waits for
		want := 4
		if len(p.got) >= 4 {
			h, err := transports.ReceiveMessageHeader(p.got[:4])
			c.Check(err == nil && h.Kind() == transports.MessageWamp, "frame", "header %x is read as %+v, %v", p.got[:4], h, err)
			want = 4 + h.Length()
			if len(p.got) == want {
				m := append([]byte{}, p.got[4:]...)
				p.got = p.got[:0]
				return m
			}
		}
		n := want - len(p.got)
		c.Check(n <= len(p.bytes) || !all, "frame", "the reader waits for %d more bytes, only %d are left", n, len(p.bytes))
		if !all && c.R.P(40) {
			n = 1 + c.R.Intn(n)
		}
		if n > len(p.bytes) {
			n = len(p.bytes)
		}
		p.got = append(p.got, p.bytes[:n]...)
		p.bytes = p.bytes[n:]
		if n == 0 {
			return nil
		}
		if len(p.got) < want {
			return nil
		}
	}
}

const (
	eJoining = iota
	eJoined
	eLeaving // GOODBYE sent
	eGone
)

// enode is a client with its connection.
type enode struct {
	i        int
	kind     int
	up, down pipe
	state    int
	joiner   *wampproto.Joiner
	sess     *wampproto.Session
	acc      *wampproto.Acceptor
	ser      serializers.Serializer // of the router
	attached bool                   // at the router
	detached bool
	id       uint64
	method   string
	refused  bool // the handshake is to fail
	ids      *wampproto.SessionScopeIDGenerator
	welcome  []any
	hello    []any

	regs, subs map[uint64]key    // confirmed, as the client sees it
	ending     map[string]bool   // "reg 5" with a request to end it outstanding
	wantReg    map[uint64]key    // outstanding requests
	wantSub    map[uint64]key    //
	wantUnreg  map[uint64]uint64 //
	wantUnsub  map[uint64]uint64 //
	calls      map[uint64]*ecall
	invs       map[uint64]*einv
	open       []*einv // invocations to be answered
	routerRegs map[uint64]key
	routerSubs map[uint64]key
	expect     []*epub          // events on their way
	acks       map[uint64]*epub // acknowledged publishes
	acked      map[uint64]bool  //
}

func (n *enode) String() string { return fmt.Sprintf("#%d(%s)", n.i, kindNames[n.kind]) }

type ecall struct {
	caller    *enode
	req       uint64
	proc      string
	token     string
	receive   bool      // receive_progress
	chunks    []content // sent
	done      bool      // the last chunk was sent
	polite    bool      // the callee waits for the last chunk
	processed int       // chunks the router has processed
	inv       *einv
	ended     bool // the router has emitted the final outcome
	calleeAt  *enode
	calleeOut bool // the callee left before it answered
	again     bool // a chunk was processed after the end
	orphan    bool // a chunk was refused by a callee that has unregistered
	finals    int
	results   int // progressive results the caller has received
	noProc    bool
}

func (k *ecall) tainted() bool { return k.again || k.orphan || k.calleeOut }

type einv struct {
	call           *ecall
	callee         *enode
	id             uint64
	chunks         int
	seen           int // INVOCATIONs received
	last           bool
	sent           []content // progressive results
	final          *content
	uri            string // of the error
	receive, ended bool
}

type epub struct {
	from  *enode
	req   uint64
	topic string
	token string
	what  content
	ack   bool
	sub   uint64
	seq   int
	match string
}

type enet struct {
	refusals        int // CANCELs the dealer has refused
	c               *C
	r               *Rand
	dealer          *wampproto.Dealer
	broker          *wampproto.Broker
	nodes           []*enode
	vals            int // kind of the content
	kinds           []int
	procs           []key
	topics          []string
	keys            []key
	tokens          int
	rpc             bool
	calls           []*ecall
	byTok           map[string]*ecall
	pubs            map[string]*epub
	byReq           map[string]*epub
	maxN            int
	byID            map[uint64]*enode
	methods         map[string]auth.Method
	secret          string
	seedHex, pubHex string
	salted          bool
	seq             int
}

func newEnet(c *C, rpc bool) *enet {
	r := c.R
	n := &enet{c: c, r: r, dealer: wampproto.NewDealer(), broker: wampproto.NewBroker(), rpc: rpc, byTok: map[string]*ecall{}, pubs: map[string]*epub{},
		byReq: map[string]*epub{}, byID: map[uint64]*enode{}, secret: genIdent(r), salted: r.Bool()}
	n.seedHex, n.pubHex, _ = keyPair(r)
	for i := 1 + r.Intn(5); i > 0; i-- {
		n.kinds = append(n.kinds, r.Intn(3))
	}
	n.vals = kCBOR
	for _, k := range n.kinds {
		if k == kJSON {
			n.vals = kJSON
		}
	}
	n.dealer.AutoDiscloseCaller(r.P(25))
	n.broker.AutoDisclosePublisher(r.P(25))
	n.maxN = 2 + r.Intn(5)
	c.Mix(r.U64())
	return n
}

func (n *enet) content() content {
	args, kw := genArgs(n.r, n.vals)
	if len(args) > 300 {
		args = args[:300]
	}
	return content{args, kw}
}

func (n *enet) token() string { n.tokens++; return fmt.Sprintf("token %d", n.tokens) }

// join opens a connection.
func (n *enet) join() *enode {
	r, c := n.r, n.c
	nd := &enode{i: len(n.nodes), kind: pick(r, n.kinds), regs: map[uint64]key{}, subs: map[uint64]key{}, ending: map[string]bool{}, wantReg: map[uint64]key{}, wantSub: map[uint64]key{},
		wantUnreg: map[uint64]uint64{}, wantUnsub: map[uint64]uint64{}, calls: map[uint64]*ecall{}, invs: map[uint64]*einv{}, routerRegs: map[uint64]key{}, routerSubs: map[uint64]key{},
		acks: map[uint64]*epub{}, acked: map[uint64]bool{}, ids: &wampproto.SessionScopeIDGenerator{}}
	n.nodes = append(n.nodes, nd)
	nd.ser = serializerOf(nd.kind)
	if r.P(30) {
		nd.up.framed, nd.down.framed = true, true
		n.negotiate(nd)
		c.Feat("framed")
	}
	methods := []string{"anonymous", "ticket", "wampcra", "cryptosign"}
	nd.method = pick(r, methods)
	authid := "user" + fmt.Sprint(nd.i)
	nd.refused = r.P(4) && nd.method != "anonymous"
	secret, seed := n.secret, n.seedHex
	if nd.refused {
		secret += "!"
		seed, _, _ = keyPair(r)
	}
	var ca auth.ClientAuthenticator
	var err error
	switch nd.method {
	case "anonymous":
		if r.P(70) {
			ca = auth.NewAnonymousAuthenticator(authid, nil)
		}
	case "ticket":
		ca = auth.NewTicketAuthenticator(authid, secret, map[string]any{"x": 1})
	case "wampcra":
		ca = auth.NewWAMPCRAAuthenticator(authid, secret, nil)
	case "cryptosign":
		ca, err = auth.NewCryptoSignAuthenticator(authid, seed, nil)
		c.Check(err == nil, "join", "NewCryptoSignAuthenticator: %v", err)
	}
	realm := "realm1"
	if nd.kind == kJSON && r.P(30) {
		nd.joiner = wampproto.NewJoiner(realm, nil, ca)
	} else {
		nd.joiner = wampproto.NewJoiner(realm, serializerOf(nd.kind), ca)
	}
	if nd.method == "anonymous" && r.P(30) {
		nd.acc = wampproto.NewAcceptor(serializerOf(nd.kind), nil)
	} else {
		pub := n.pubHex
		nd.acc = wampproto.NewAcceptor(serializerOf(nd.kind), &recAuth{methods: allMethods, decide: func(a authCall) (auth.Response, error) {
			switch a.method {
			case auth.Ticket:
				if a.ticket != n.secret {
					return nil, errors.New("wrong ticket")
				}
			case auth.CryptoSign:
				if a.pubkey != pub {
					return nil, errors.New("unknown key")
				}
			case auth.WAMPCRA:
				if n.salted {
					return auth.NewCRAResponseSalted(a.authid, "user", n.secret, "salt", 2, 32, 0), nil
				}
				return auth.NewCRAResponse(a.authid, "user", n.secret, 0), nil
			}
			return auth.NewResponse(a.authid, "user", 0)
		}})
	}
	hello, err := nd.joiner.SendHello()
	c.Check(err == nil, "join", "%s: SendHello: %v", nd, err)
	if v, err := decodeWire(nd.kind, hello); err == nil {
		nd.hello, _ = v.([]any)
	}
	nd.up.put(hello)
	return nd
}

// negotiate agrees on the serializer in the handshake of the raw socket.
func (n *enet) negotiate(nd *enode) {
	c := n.c
	codes := []transports.Serializer{kJSON: transports.SerializerJson, kCBOR: transports.SerializerCbor, kMsgPack: transports.SerializerMsgpack}
	b, err := transports.SendHandshake(transports.NewHandshake(codes[nd.kind], 1<<24))
	c.Check(err == nil, "handshake", "SendHandshake: %v", err)
	h, err := transports.ReceiveHandshake(b)
	c.Check(err == nil && h.Serializer() == codes[nd.kind], "handshake", "handshake %x is read as %+v, %v", b, h, err)
	b, err = transports.SendHandshake(transports.NewHandshake(h.Serializer(), h.MaxMessageSize()))
	c.Check(err == nil, "handshake", "SendHandshake: %v", err)
	h, err = transports.ReceiveHandshake(b)
	c.Check(err == nil && h.Serializer() == codes[nd.kind], "handshake", "handshake %x is read as %+v, %v", b, h, err)
}

// about mutes the monitors while a message is handled that the other property is about.
func (n *enet) about(msg messages.Message) func() {
	pubsub := false
	switch m := msg.(type) {
	case *messages.Publish, *messages.Published, *messages.Subscribe, *messages.Subscribed, *messages.Unsubscribe, *messages.Unsubscribed, *messages.Event:
		pubsub = true
	case *messages.Error:
		pubsub = m.MessageType() == messages.MessageTypeSubscribe || m.MessageType() == messages.MessageTypeUnsubscribe || m.MessageType() == messages.MessageTypePublish
	case *messages.GoodBye:
		return func() {}
	}
	n.c.mute = pubsub == n.rpc
	return func() { n.c.mute = false }
}

// ---- router ----

func (n *enet) emit(m *wampproto.MessageWithRecipient) {
	to := n.byID[m.Recipient]
	if to == nil || !to.attached {
		n.c.Fail("recipient", "the router emits %T for session %d, which is not attached", m.Message, m.Recipient)
	}
	n.emitTo(to, m.Message)
}

func (n *enet) emitTo(to *enode, m messages.Message) {
	data, err := to.ser.Serialize(m)
	n.c.Check(err == nil, "unserializable", "the router cannot serialize %T for %s: %v", m, to, err)
	to.down.put(data)
}

func (n *enet) detach(nd *enode) {
	c := n.c
	if nd.attached {
		c.Check(n.dealer.RemoveSession(nd.id) == nil, "detach", "%s: Dealer.RemoveSession failed", nd)
		c.Check(n.broker.RemoveSession(nd.id) == nil, "detach", "%s: Broker.RemoveSession failed", nd)
		for _, k := range n.calls {
			if k.processed > 0 && !k.ended && k.calleeAt == nd && k.caller.attached && k.caller != nd {
				k.calleeOut = true
				c.Feat("callee left with a call pending")
			}
			if k.processed > 0 && !k.ended && k.caller == nd {
				c.Feat("caller left with a call pending")
			}
		}
	}
	nd.attached, nd.detached = false, true
}

func (n *enet) routerReceives(nd *enode, data []byte) {
	c := n.c
	if nd.detached {
		return
	}
	if !nd.attached {
		payload, welcomed, err := nd.acc.Receive(data)
		c.Logf("router: handshake of %s: %d bytes, welcomed %v, %v", nd, len(payload), welcomed, err)
		c.Check(err == nil, "join", "%s: the acceptor refuses the client: %v", nd, err)
		nd.down.put(payload)
		if welcomed {
			c.Check(!nd.refused, "join", "%s: welcomed with wrong credentials by %s", nd, nd.method)
			d, err := nd.acc.SessionDetails()
			c.Check(err == nil, "join", "%s: no session details: %v", nd, err)
			nd.id = d.ID()
			c.Check(n.byID[nd.id] == nil, "join", "session id %d was granted twice", nd.id)
			n.byID[nd.id] = nd
			c.Check(n.dealer.AddSession(d) == nil, "join", "%s: Dealer.AddSession failed", nd)
			c.Check(n.broker.AddSession(d) == nil, "join", "%s: Broker.AddSession failed", nd)
			nd.attached = true
			if v, err := decodeWire(nd.kind, payload); err == nil {
				nd.welcome, _ = v.([]any)
			}
		}
		return
	}
	msg, err := nd.ser.Deserialize(data)
	c.Check(err == nil, "undecodable", "the router cannot decode what %s sends: %v", nd, err)
	c.Logf("router: %s from %s", typeName(msg), nd)
	defer n.about(msg)()
	switch m := msg.(type) {
	case *messages.GoodBye:
		n.emitTo(nd, messages.NewGoodBye("wamp.close.goodbye_and_out", nil))
		n.detach(nd)
	case *messages.Publish:
		n.publish(nd, m)
	case *messages.Subscribe, *messages.Unsubscribe:
		out, err := n.broker.ReceiveMessage(nd.id, msg)
		if err != nil {
			n.refusedBy("broker", nd, msg, err)
		}
		switch x := out.Message.(type) {
		case *messages.Subscribed:
			if m, ok := msg.(*messages.Subscribe); ok {
				nd.routerSubs[x.SubscriptionID()] = nd.wantSub[m.RequestID()]
			}
		case *messages.Unsubscribed:
			if m, ok := msg.(*messages.Unsubscribe); ok {
				delete(nd.routerSubs, m.SubscriptionID())
			}
		}
		n.emit(out)
	case *messages.Call:
		n.call(nd, m)
	case *messages.Yield:
		inv := nd.invs[m.RequestID()]
		progress, _ := m.Options()["progress"].(bool)
		n.answered(nd, inv, msg, !progress)
	case *messages.Error:
		n.answered(nd, nd.invs[m.RequestID()], msg, true)
	default:
		out, err := n.dealer.ReceiveMessage(nd.id, msg)
		if err != nil {
			n.refusedBy("dealer", nd, msg, err)
		}
		switch x := out.Message.(type) {
		case *messages.Registered:
			if m, ok := msg.(*messages.Register); ok {
				nd.routerRegs[x.RegistrationID()] = nd.wantReg[m.RequestID()]
			}
		case *messages.Unregistered:
			if m, ok := msg.(*messages.Unregister); ok {
				delete(nd.routerRegs, m.RegistrationID())
			}
		}
		n.emit(out)
	}
}

func (n *enet) refusedBy(who string, nd *enode, msg messages.Message, err error) {
	n.c.Fail("refused", "the %s refuses %s of %s: %v", who, typeName(msg), nd, err)
}

// answered processes an answer of a callee.
func (n *enet) answered(nd *enode, inv *einv, msg messages.Message, final bool) {
	c := n.c
	out, err := n.dealer.ReceiveMessage(nd.id, msg)
	if err != nil {
		if inv == nil || !inv.call.caller.attached || inv.call.tainted() {
			c.Feat("late answer")
			return
		}
		n.refusedBy("dealer", nd, msg, err)
	}
	if final && inv != nil {
		inv.call.ended = true
	}
	n.emit(out)
}

func (n *enet) call(nd *enode, m *messages.Call) {
	c := n.c
	k := nd.calls[m.RequestID()]
	c.Check(k != nil, "request", "the router decodes a CALL %d of %s that was not sent", m.RequestID(), nd)
	first := k.processed == 0
	k.processed++
	if !first && k.ended {
		k.again = true
		c.Feat("chunk after the end")
	}
	out, err := n.dealer.ReceiveMessage(nd.id, m)
	if err != nil {
		n.refusedBy("dealer", nd, m, err)
	}
	switch x := out.Message.(type) {
	case *messages.Error:
		if first {
			for _, h := range n.nodes {
				for id, reg := range h.routerRegs {
					c.Check(!h.attached || !reg.matches(k.proc), "no_such_procedure", "%s called %q and gets %s although %s holds registration %d of %v", nd, k.proc, x.URI(), h, id, reg)
				}
			}
			k.noProc = true
		}
		k.ended = true
	case *messages.Invocation:
		k.calleeAt = n.byID[out.Recipient]
		if k.calleeAt == nd {
			c.Feat("call to itself")
		}
	}
	n.emit(out)
}

func (n *enet) publish(nd *enode, m *messages.Publish) {
	c := n.c
	p := n.byReq[fmt.Sprint(nd.i, " ", m.RequestID())]
	c.Check(p != nil, "request", "the router decodes a PUBLISH %d of %s that was not sent", m.RequestID(), nd)
	res, err := n.broker.ReceivePublish(nd.id, m)
	if err != nil {
		n.refusedBy("broker", nd, m, err)
	}
	exclude := true
	if v, ok := m.Options()["exclude_me"].(bool); ok {
		exclude = v
	}
	none := true
	for _, s := range n.nodes {
		if !s.attached {
			continue
		}
		for id, k := range s.routerSubs {
			if !k.matches(p.topic) {
				continue
			}
			none = false
			if s == nd && exclude {
				c.Feat("excluded itself")
				continue
			}
			if s == nd {
				c.Feat("included itself")
			}
			p.sub, p.match = id, k.match
			s.expect = append(s.expect, p)
		}
	}
	if none {
		c.Feat("nobody subscribed")
	}
	if res.Event != nil {
		for _, id := range res.Recipients {
			n.emit(&wampproto.MessageWithRecipient{Message: res.Event, Recipient: id})
		}
	}
	if res.Ack != nil {
		n.emit(res.Ack)
	}
}

// ---- client ----

func (n *enet) send(nd *enode, m messages.Message) {
	data, err := nd.sess.SendMessage(m)
	n.c.Check(err == nil, "unsendable", "%s cannot send %s: %v", nd, typeName(m), err)
	n.c.Logf("%s sends %s", nd, typeName(m))
	nd.up.put(data)
}

func (n *enet) clientReceives(nd *enode, data []byte) {
	c := n.c
	if nd.state == eGone {
		return
	}
	if nd.state == eJoining {
		reply, err := nd.joiner.Receive(data)
		if nd.refused && err != nil {
			nd.state = eGone
			n.detach(nd)
			c.Feat("join refused")
			return
		}
		c.Check(err == nil, "join", "%s cannot join: %v", nd, err)
		if reply != nil {
			nd.up.put(reply)
			return
		}
		d, err := nd.joiner.SessionDetails()
		c.Check(err == nil && d.ID() == nd.id, "join", "%s joined as %v, the router says %d", nd, d, nd.id)
		nd.state = eJoined
		nd.sess = wampproto.NewSession(serializerOf(nd.kind))
		c.Feat("joined " + nd.method)
		return
	}
	peek, err := nd.ser.Deserialize(data)
	c.Check(err == nil, "undecodable", "%s: cannot decode what the router sends: %v", nd, err)
	defer n.about(peek)()
	msg, err := nd.sess.Receive(data)
	if err != nil {
		n.rejected(nd, data, err)
		return
	}
	c.Logf("%s receives %s", nd, typeName(msg))
	switch m := msg.(type) {
	case *messages.GoodBye:
		nd.state = eGone
	case *messages.Registered:
		nd.regs[m.RegistrationID()] = nd.wantReg[m.RequestID()]
		delete(nd.wantReg, m.RequestID())
	case *messages.Unregistered:
		id := nd.wantUnreg[m.RequestID()]
		delete(nd.wantUnreg, m.RequestID())
		delete(nd.regs, id)
		delete(nd.ending, fmt.Sprint("reg ", id))
	case *messages.Subscribed:
		nd.subs[m.SubscriptionID()] = nd.wantSub[m.RequestID()]
		delete(nd.wantSub, m.RequestID())
	case *messages.Unsubscribed:
		id := nd.wantUnsub[m.RequestID()]
		delete(nd.wantUnsub, m.RequestID())
		delete(nd.subs, id)
		delete(nd.ending, fmt.Sprint("sub ", id))
	case *messages.Invocation:
		n.invoked(nd, m)
	case *messages.Result:
		k := nd.calls[m.RequestID()]
		c.Check(k != nil, "outcome", "%s receives a RESULT for call %d, which it did not make", nd, m.RequestID())
		progress, _ := m.Details()["progress"].(bool)
		n.result(k, content{m.Args(), m.KwArgs()}, progress, "")
	case *messages.Error:
		if m.MessageType() != messages.MessageTypeCall {
			if m.MessageType() == messages.MessageTypeRegister {
				delete(nd.wantReg, m.RequestID())
				break
			}
			c.Fail("error", "%s receives ERROR %s for its valid request %d", nd, m.URI(), m.MessageType())
		}
		k := nd.calls[m.RequestID()]
		c.Check(k != nil, "outcome", "%s receives an ERROR for call %d, which it did not make", nd, m.RequestID())
		n.result(k, content{m.Args(), m.KwArgs()}, false, m.URI())
	case *messages.Event:
		n.event(nd, m)
	case *messages.Published:
		p := nd.acks[m.RequestID()]
		c.Check(p != nil && !nd.acked[m.RequestID()], "acknowledgement", "%s receives PUBLISHED for %d, which waits for none", nd, m.RequestID())
		nd.acked[m.RequestID()] = true
		c.Feat("acknowledged")
	default:
		c.Fail("unexpected", "%s receives %s", nd, typeName(msg))
	}
}

// rejected judges that the session of a client rejects what the router sent.
func (n *enet) rejected(nd *enode, data []byte, err error) {
	c := n.c
	msg, derr := nd.ser.Deserialize(data)
	c.Check(derr == nil, "rejected", "%s cannot decode what the router sent: %v", nd, err)
	c.Logf("%s rejects %s: %v", nd, typeName(msg), err)
	switch m := msg.(type) {
	case *messages.Invocation:
		inv := nd.invs[m.RequestID()]
		_, held := nd.regs[m.RegistrationID()]
		if inv != nil && inv.seen > 0 && !held {
			inv.call.orphan = true
			c.Report("chunk-after-unregister", "%s rejects a further chunk of a call it has been invoked for, as it has unregistered: %v", nd, err)
			return
		}
	case *messages.Result:
		if k := nd.calls[m.RequestID()]; k != nil && k.again && k.finals > 0 {
			c.Report("chunk-after-end", "%s rejects a second outcome of call %d, of which a chunk was processed after its end: %v", nd, k.req, err)
			return
		}
	case *messages.Error:
		if k := nd.calls[m.RequestID()]; m.MessageType() == messages.MessageTypeCall && k != nil && k.again && k.finals > 0 {
			c.Report("chunk-after-end", "%s rejects a second outcome of call %d, of which a chunk was processed after its end: %v", nd, k.req, err)
			return
		}
	}
	c.Fail("rejected", "%s rejects %s of the router: %v", nd, typeName(msg), err)
}

func (n *enet) invoked(nd *enode, m *messages.Invocation) {
	c := n.c
	inv := nd.invs[m.RequestID()]
	got := content{m.Args(), m.KwArgs()}
	c.Check(len(got.args) > 0, "content", "%s is invoked without arguments", nd)
	tok, _ := got.args[0].(string)
	k := n.byTok[tok]
	c.Check(k != nil, "content", "%s is invoked with %s, which nobody sent", nd, show(got.args[0]))
	more, _ := m.Details()["progress"].(bool)
	if k.again {
		if inv == nil {
			inv = &einv{call: k, callee: nd, id: m.RequestID()}
			nd.invs[inv.id] = inv
			nd.open = append(nd.open, inv)
		}
		inv.last = inv.last || !more
		inv.seen++
		return
	}
	if inv == nil {
		c.Check(k.inv == nil || k.calleeOut, "invocation", "%s gets a second invocation of call %d of %s", nd, k.req, k.caller)
		receive, _ := m.Details()["receive_progress"].(bool)
		inv = &einv{call: k, callee: nd, id: m.RequestID(), receive: receive}
		c.Check(receive == k.receive || k.calleeOut, "receive_progress", "%s is invoked with receive_progress=%v by a caller that says %v", nd, receive, k.receive)
		if k.calleeOut && k.inv != nil {
			inv.chunks = k.inv.chunks
		}
		k.inv = inv
		nd.invs[inv.id] = inv
		nd.open = append(nd.open, inv)
	}
	c.Check(inv.call == k, "invocation", "%s: invocation %d of call %d of %s carries a chunk of call %d of %s", nd, inv.id, inv.call.req, inv.call.caller, k.req, k.caller)
	inv.seen++
	if k.tainted() {
		inv.last = inv.last || !more
		return
	}
	c.Check(inv.chunks < len(k.chunks), "invocation", "%s gets chunk %d of call %d of %s, which has only %d", nd, inv.chunks+1, k.req, k.caller, len(k.chunks))
	d := k.chunks[inv.chunks].same(got)
	c.Check(d == "", "content", "chunk %d of call %d of %s arrives at %s differently: %s", inv.chunks, k.req, k.caller, nd, d)
	inv.chunks++
	c.Check(more == (inv.chunks < len(k.chunks) || !k.done), "chunk progress", "chunk %d of call %d of %s arrives at %s with progress=%v", inv.chunks-1, k.req, k.caller, nd, more)
	inv.last = !more
	if inv.chunks > 1 {
		c.Feat("progressive call")
	}
}

// result judges what a caller receives for a call.
func (n *enet) result(k *ecall, got content, progress bool, uri string) {
	c := n.c
	if !progress {
		k.finals++
	}
	if k.again || k.calleeOut {
		return // whatever it is, it is the only one: the session rejects a second
	}
	c.Check(k.finals <= 1, "second outcome", "%s receives a second outcome of call %d", k.caller, k.req)
	if uri == "wamp.error.no_such_procedure" && k.noProc {
		c.Feat("no_such_procedure")
		return
	}
	inv := k.inv
	c.Check(inv != nil, "outcome", "%s receives an outcome (%s) of call %d, which no callee has got", k.caller, uri, k.req)
	if progress {
		c.Check(k.receive, "progress", "%s receives a progressive result of call %d, for which it did not ask", k.caller, k.req)
		c.Check(k.finals == 0, "progress", "%s receives a progressive result of call %d after its outcome", k.caller, k.req)
		c.Check(k.results < len(inv.sent), "progress", "%s receives %d progressive results of call %d, the callee sent %d", k.caller, k.results+1, k.req, len(inv.sent))
		d := inv.sent[k.results].same(got)
		c.Check(d == "", "progress", "progressive result %d of call %d arrives at %s differently: %s", k.results, k.req, k.caller, d)
		k.results++
		c.Feat("progressive result")
		return
	}
	c.Check(inv.final != nil, "outcome", "%s receives an outcome (%s) of call %d, which %s has not answered", k.caller, uri, k.req, inv.callee)
	c.Check(k.results == len(inv.sent), "progress", "%s receives the outcome of call %d after %d of %d progressive results", k.caller, k.req, k.results, len(inv.sent))
	c.Check(uri == inv.uri, "outcome", "%s receives outcome %q of call %d, the callee sent %q", k.caller, uri, k.req, inv.uri)
	d := inv.final.same(got)
	c.Check(d == "", "content", "the outcome of call %d arrives at %s differently: %s", k.req, k.caller, d)
	c.Feat(map[bool]string{true: "RESULT ", false: "ERROR "}[uri == ""] + kindNames[inv.callee.kind] + " to " + kindNames[k.caller.kind])
}

func (n *enet) event(nd *enode, m *messages.Event) {
	c := n.c
	k, ok := nd.subs[m.SubscriptionID()]
	c.Check(ok, "event", "%s receives an EVENT of subscription %d, which it does not hold", nd, m.SubscriptionID())
	if nd.ending[fmt.Sprint("sub ", m.SubscriptionID())] {
		c.Feat("event after unsubscribe was sent")
	}
	c.Check(len(m.Args()) > 0, "content", "%s receives an EVENT without arguments", nd)
	tok, _ := m.Args()[0].(string)
	p := n.pubs[tok]
	c.Check(p != nil, "content", "%s receives an EVENT with %s, which nobody sent", nd, show(m.Args()[0]))
	at := -1
	for i, e := range nd.expect {
		if e == p {
			at = i
			break
		}
		c.Check(e.from != p.from, "order", "%s receives event %s of %s before %s, which was published earlier", nd, p.token, p.from, e.token)
	}
	c.Check(at >= 0, "event", "%s receives event %s, which is not for it or came already (topic %q, its subscription is %v)", nd, p.token, p.topic, k)
	nd.expect = append(nd.expect[:at:at], nd.expect[at+1:]...)
	d := p.what.same(content{m.Args(), m.KwArgs()})
	c.Check(d == "", "content", "event %s of %s arrives at %s differently: %s", p.token, p.from, nd, d)
	c.Check(k.matches(p.topic), "event", "%s receives an event on %q for its subscription %v", nd, p.topic, k)
	c.Feat("EVENT " + kindNames[p.from.kind] + " to " + kindNames[nd.kind])
	c.Feat("event by " + k.match)
}

// ---- actions ----

func (n *enet) with(f func(*enode) bool) *enode {
	var l []*enode
	for _, nd := range n.nodes {
		if f(nd) {
			l = append(l, nd)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return pick(n.r, l)
}

func (n *enet) alive() int {
	x := 0
	for _, nd := range n.nodes {
		if nd.state != eGone {
			x++
		}
	}
	return x
}

// deliver moves something over one connection and reports whether there was anything.
func (n *enet) deliver(all bool) bool {
	nd := n.with(func(nd *enode) bool { return !nd.up.empty() || !nd.down.empty() })
	if nd == nil {
		return false
	}
	up := !nd.up.empty() && (nd.down.empty() || n.r.Bool())
	if up {
		if m := nd.up.move(n.c, all); m != nil {
			n.routerReceives(nd, m)
		}
	} else if m := nd.down.move(n.c, all); m != nil {
		n.clientReceives(nd, m)
	}
	return true
}

func joined(nd *enode) bool { return nd.state == eJoined }

func (n *enet) leave(nd *enode) {
	n.c.Mix("leave", nd.i)
	if nd.state == eJoined && n.r.Bool() {
		n.c.Logf("%s says goodbye", nd)
		n.send(nd, messages.NewGoodBye("wamp.close.close_realm", nil))
		nd.state = eLeaving
		return
	}
	n.c.Logf("the connection of %s is cut", nd)
	n.detach(nd)
	nd.state = eGone
	nd.up.msgs, nd.up.bytes, nd.down.msgs, nd.down.bytes = nil, nil, nil, nil
}

func optionsOf(k key, r *Rand) map[string]any {
	o := map[string]any{}
	if k.match != exact || r.Bool() {
		o["match"] = k.match
	}
	return o
}

func (n *enet) rpcAction(nd *enode) {
	r, c := n.r, n.c
	act := r.Intn(10)
	c.Mix("rpc", nd.i, act)
	switch act {
	case 0, 1:
		k := pick(r, n.procs)
		if len(nd.regs) > 1 && r.P(70) {
			break
		}
		o := optionsOf(k, r)
		if r.P(50) {
			o["invoke"] = pick(r, []string{"single", "first", "last", "roundrobin", "random"})
		}
		req := nd.ids.NextID()
		nd.wantReg[req] = k
		n.send(nd, messages.NewRegister(req, spice(r, o), k.uri))
	case 2:
		if r.P(40) {
			break
		}
		for id := range nd.regs {
			if tag := fmt.Sprint("reg ", id); !nd.ending[tag] {
				nd.ending[tag] = true
				req := nd.ids.NextID()
				nd.wantUnreg[req] = id
				n.send(nd, messages.NewUnregister(req, id))
				break
			}
		}
	case 3, 4, 5:
		k := &ecall{caller: nd, req: nd.ids.NextID(), proc: pick(r, n.procs).witness(r), receive: r.P(40), polite: r.P(85)}
		o := map[string]any{}
		if k.receive {
			o["receive_progress"] = true
		}
		if r.P(30) {
			o["progress"] = true
		} else {
			k.done = true
			if r.P(20) {
				o["progress"] = false
			}
		}
		nd.calls[k.req] = k
		n.calls = append(n.calls, k)
		n.chunk(k, o)
	case 6:
		// a further chunk
		for _, k := range n.calls {
			if k.caller == nd && !k.done && k.finals == 0 {
				o := map[string]any{}
				if k.receive {
					o["receive_progress"] = true
				}
				k.done = r.P(40)
				if !k.done {
					o["progress"] = true
				}
				n.chunk(k, o)
				break
			}
		}
	default:
		n.answer(nd)
	}
}

func (n *enet) chunk(k *ecall, o map[string]any) {
	what := n.content()
	tok := n.token()
	n.byTok[tok] = k
	what.args = append([]any{tok}, what.args...)
	k.chunks = append(k.chunks, what)
	n.send(k.caller, messages.NewCall(k.req, spice(n.r, o), k.proc, what.args, what.kw))
}

// answer answers an open invocation.
func (n *enet) answer(nd *enode) {
	r := n.r
	if len(nd.open) == 0 {
		return
	}
	at := r.Intn(len(nd.open))
	inv := nd.open[at]
	what := n.content()
	if inv.receive && r.P(40) && len(inv.sent) < 5 {
		n.c.Mix("progress", len(inv.sent))
		inv.sent = append(inv.sent, what)
		n.send(nd, messages.NewYield(inv.id, map[string]any{"progress": true}, what.args, what.kw))
		return
	}
	if !inv.last && inv.call.polite {
		return
	}
	nd.open = append(nd.open[:at:at], nd.open[at+1:]...)
	inv.final = &what
	if r.P(30) {
		inv.uri = pick(r, []string{"wamp.error.runtime_error", "com.app.error", "wamp.error.invalid_argument", "a.b"})
		n.send(nd, messages.NewError(messages.MessageTypeInvocation, inv.id, map[string]any{}, inv.uri, what.args, what.kw))
		return
	}
	var o map[string]any
	if r.P(20) {
		o = map[string]any{"progress": false}
	}
	n.send(nd, messages.NewYield(inv.id, o, what.args, what.kw))
}

func (n *enet) pubsubAction(nd *enode) {
	r, c := n.r, n.c
	act := r.Intn(10)
	c.Mix("pubsub", nd.i, act)
	switch act {
	case 0, 1, 2:
		k := pick(r, n.keys)
		req := nd.ids.NextID()
		nd.wantSub[req] = k
		n.send(nd, messages.NewSubscribe(req, optionsOf(k, r), k.uri))
	case 3:
		for id := range nd.subs {
			if tag := fmt.Sprint("sub ", id); !nd.ending[tag] {
				nd.ending[tag] = true
				req := nd.ids.NextID()
				nd.wantUnsub[req] = id
				n.send(nd, messages.NewUnsubscribe(req, id))
				break
			}
		}
	default:
		if len(n.topics) == 0 {
			return
		}
		n.seq++
		p := &epub{from: nd, req: nd.ids.NextID(), topic: pick(r, n.topics), token: n.token(), what: n.content(), seq: n.seq}
		p.what.args = append([]any{p.token}, p.what.args...)
		o := map[string]any{}
		switch r.Intn(3) {
		case 0:
			o["acknowledge"] = true
			p.ack = true
			nd.acks[p.req] = p
		case 1:
			o["acknowledge"] = false
		}
		switch r.Intn(4) {
		case 0:
			o["exclude_me"] = true
		case 1:
			o["exclude_me"] = false
		}
		n.pubs[p.token] = p
		n.byReq[fmt.Sprint(nd.i, " ", p.req)] = p
		n.send(nd, messages.NewPublish(p.req, spice(n.r, o), p.topic, p.what.args, p.what.kw))
	}
}

func (n *enet) run(steps int) {
	r := n.r
	for i := 0; i < 2; i++ {
		n.join()
	}
	for i := 0; i < steps; i++ {
		switch {
		case r.P(55):
			n.deliver(false)
		case n.alive() < n.maxN && (n.alive() < 2 || r.P(20)):
			n.c.Mix("join")
			n.join()
		case r.P(3) && n.alive() > 1:
			if nd := n.with(func(nd *enode) bool { return nd.state != eGone && nd.state != eLeaving }); nd != nil {
				n.leave(nd)
			}
		default:
			nd := n.with(joined)
			if nd == nil {
				continue
			}
			if n.rpc && r.P(92) || !n.rpc && r.P(8) {
				n.rpcAction(nd)
			} else {
				n.pubsubAction(nd)
			}
		}
	}
	// everything that is under way ends
	for round := 0; round < 100000; round++ {
		for n.deliver(true) {
		}
		nd := n.with(func(nd *enode) bool { return joined(nd) && len(nd.open) > 0 })
		if nd != nil {
			for len(nd.open) > 0 {
				nd.open[0].last = true
				n.answer(nd)
			}
			continue
		}
		k := n.unfinished()
		if k == nil {
			break
		}
		k.done = true
		o := map[string]any{}
		if k.receive {
			o["receive_progress"] = true
		}
		n.chunk(k, o)
	}
}

func (n *enet) unfinished() *ecall {
	for _, k := range n.calls {
		if joined(k.caller) && !k.done && k.finals == 0 {
			return k
		}
	}
	return nil
}

func (n *enet) setup() {
	r := n.r
	var near []string
	for i := 2 + r.Intn(4); i > 0; i-- {
		k := genKey(r, near)
		if k.uri == "" {
			continue
		}
		if w := k.witness(r); !strings.ContainsAny(w, "[]?*\\") {
			near = append(near, w) // wildcards are made of it
		}
		n.procs = append(n.procs, k)
	}
	if len(n.procs) == 0 {
		n.procs = append(n.procs, key{"a.b", exact})
	}
	for i := 2 + r.Intn(4); i > 0; i-- {
		n.keys = append(n.keys, genKey(r, nil))
	}
	for i := 0; i < 12; i++ {
		t := pick(r, n.keys).witness(r)
		if r.P(10) {
			t = genTopic(r)
		}
		by := map[key]bool{}
		for _, k := range n.keys {
			if k.matches(t) {
				by[k] = true
			}
		}
		if len(by) <= 1 && t != "" {
			n.topics = append(n.topics, t)
		}
	}
}

func (n *enet) finalRPC() {
	c := n.c
	for _, k := range n.calls {
		if !joined(k.caller) {
			continue
		}
		switch {
		case k.finals == 1:
			c.nchk++
		case k.finals == 0 && k.calleeOut:
			c.Report("callee-left-no-outcome", "%s never gets an outcome of call %d of %q, as its callee %s has left", k.caller, k.req, k.proc, k.calleeAt)
		case k.finals == 0 && k.orphan:
			c.nchk++ // reported already
		case k.again:
			c.nchk++ // the second outcome was reported if it was rejected
		default:
			c.Fail("no outcome", "%s has got %d outcomes of call %d of %q", k.caller, k.finals, k.req, k.proc)
		}
	}
}

func (n *enet) finalPubSub() {
	c := n.c
	for _, nd := range n.nodes {
		if !joined(nd) {
			continue
		}
		if len(nd.expect) > 0 {
			p := nd.expect[0]
			c.Fail("lost event", "%s never receives event %s of %s on %q (%s)", nd, p.token, p.from, p.topic, p.match)
		}
		for req := range nd.acks {
			c.Check(nd.acked[req], "acknowledgement", "%s never receives PUBLISHED for %d", nd, req)
		}
	}
}

func e01(c *C) {
	n := newEnet(c, true)
	n.setup()
	n.run(60 + c.R.Intn(200))
	n.finalRPC()
}

func e02(c *C) {
	n := newEnet(c, false)
	n.setup()
	n.run(60 + c.R.Intn(200))
	n.finalPubSub()
}
