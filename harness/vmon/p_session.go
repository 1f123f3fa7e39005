package main

import (
	"fmt"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

func init() {
	rule := "random sequences of sends and receptions on one client session over few ids, judged by a shadow of what is outstanding and held, with a final sweep over all ids; distinct = different sequence"
	assume := []string{"'progress' and 'acknowledge' are booleans where they matter", "no second request of the same kind under the id of an outstanding one, except for further chunks of a call",
		"at most one outstanding request to end the same registration or subscription", "values are in the WAMP data model and strings valid UTF-8, except for those that cannot be serialized at all"}
	both := func(names ...string) map[string]int64 {
		m := map[string]int64{"via message": 5000, "via bytes": 5000, "foreign encoding": 5000}
		for _, n := range names {
			m["accepted "+n], m["refused "+n] = 200, 200
		}
		return m
	}
	responses := []string{"RESULT", "progressive RESULT", "REGISTERED", "UNREGISTERED", "SUBSCRIBED", "UNSUBSCRIBED", "PUBLISHED"}
	need := both(responses...)
	for _, k := range requestKinds {
		need["accepted ERROR for "+k], need["refused ERROR for "+k] = 200, 200
	}
	register(&Prop{ID: "S01", Quick: 2500, Thoro: 800000, Rule: rule, Assume: assume, Case: scase, Need: need})
	need = both("EVENT", "INVOCATION")
	need["accepted GOODBYE"], need["accepted ABORT"], need["refused router message"], need["refused unsubscribe"] = 200, 200, 2000, 200
	register(&Prop{ID: "S02", Quick: 2500, Thoro: 800000, Rule: rule, Assume: assume, Case: scase, Need: need})
	register(&Prop{ID: "S03", Quick: 2500, Thoro: 800000, Rule: rule, Assume: assume, Case: scase, Need: map[string]int64{
		"sent CALL": 1000, "sent REGISTER": 1000, "sent UNREGISTER": 300, "sent SUBSCRIBE": 1000, "sent UNSUBSCRIBE": 300, "sent PUBLISH": 1000, "sent YIELD": 300, "sent ERROR": 300,
		"failed CALL": 200, "failed REGISTER": 200, "failed SUBSCRIBE": 200, "failed PUBLISH": 200, "failed UNSUBSCRIBE": 200, "failed YIELD": 100, "failed ERROR": 100,
		"failed with outstanding id": 200, "probed after failure": 1000}})
}

// the requests that have responses, as the index of their ERROR codes
var requestKinds = []string{"CALL", "REGISTER", "UNREGISTER", "SUBSCRIBE", "UNSUBSCRIBE", "PUBLISH"}

var mtypeByName = func() map[string]*mtype {
	m := map[string]*mtype{}
	for _, t := range mtypes {
		m[t.name] = t
	}
	return m
}()

type ssim struct {
	c    *C
	r    *Rand
	s    *wampproto.Session
	kind int
	// outstanding[kind][request id]: the registration or subscription it is about, or 0
	out        map[string]map[uint64]uint64
	regs, subs map[uint64]bool
	ending     map[string]map[uint64]bool // registrations and subscriptions with an outstanding request to end them
	reqs, objs []uint64
	kept       []keptBytes
	tainted    map[string]bool // requests whose responses may be judged either way
}

func (s *ssim) is(id string) bool { return s.c.P.ID == id }

// verdict fails the case if the property under test is the one that was broken.
func (s *ssim) verdict(id string, ok bool, sig, format string, args ...any) {
	if s.is(id) || s.is("S04") {
		s.c.Check(ok, sig, format, args...)
	} else if !ok {
		s.c.Skip(id + " " + sig)
	}
}

func newSsim(c *C, kind int, session *wampproto.Session) *ssim {
	s := &ssim{c: c, r: c.R, kind: kind, s: session, out: map[string]map[uint64]uint64{}, regs: map[uint64]bool{}, subs: map[uint64]bool{},
		ending: map[string]map[uint64]bool{"UNREGISTER": {}, "UNSUBSCRIBE": {}}, tainted: map[string]bool{}}
	for _, k := range requestKinds {
		s.out[k] = map[uint64]uint64{}
	}
	return s
}

func scase(c *C) {
	r := c.R
	kind := r.Intn(3)
	var session *wampproto.Session
	if r.P(10) {
		kind = kJSON
		session = wampproto.NewSession(nil)
	} else {
		session = wampproto.NewSession(serializerOf(kind))
	}
	s := newSsim(c, kind, session)
	nreqs, nobjs, steps, lead := 2+r.Intn(5), 1+r.Intn(4), 20+r.Intn(80), 0
	if c.Case%250 == 107 { // very many at once
		c.Feat("crowd")
		nreqs, nobjs, lead, steps = 50+r.Intn(350), 50+r.Intn(200), 3000, 2000
	}
	for i := nreqs; i > 0; i-- {
		s.reqs = append(s.reqs, relatedID(r, s.reqs))
	}
	// some objects have the same ids as requests
	for i := nobjs; i > 0; i-- {
		s.objs = append(s.objs, relatedID(r, append(s.objs, s.reqs...)))
	}
	if r.Bool() {
		s.objs = append(s.objs, pick(r, s.reqs))
	}
	c.Mix(r.U64())
	for ; lead > 0; lead-- {
		s.send()
		if r.P(20) {
			s.receive()
		}
	}
	for ; steps > 0; steps-- {
		s.step()
	}
	s.sweep()
	if nreqs > 10 {
		s.flood(pick(r, []int{300, 1100, 5000}))
	}
}

func (s *ssim) step() {
	if s.r.P(45) {
		s.send()
	} else {
		s.receive()
	}
}

// options makes options or details without the keys that steer the session.
func (s *ssim) options() map[string]any {
	m := genDict(s.r, s.kind)
	delete(m, "progress")
	delete(m, "acknowledge")
	if m == nil {
		m = map[string]any{}
	}
	return m
}

var unserializable = []func() any{
	func() any { return func() {} },
	func() any { return make(chan int) },
	func() any { return complex(1, 2) },
	func() any { return []any{1, func() {}} },
	func() any { return map[string]any{"a": []any{make(chan int)}} },
}

func (s *ssim) send() {
	r, c := s.r, s.c
	name := pick(r, []string{"CALL", "CALL", "REGISTER", "REGISTER", "UNREGISTER", "UNREGISTER", "SUBSCRIBE", "SUBSCRIBE", "UNSUBSCRIBE", "UNSUBSCRIBE", "PUBLISH", "PUBLISH", "YIELD", "ERROR", "GOODBYE", "other"})
	other := name == "other"
	if other {
		name = pick(r, []string{"HELLO", "WELCOME", "CHALLENGE", "AUTHENTICATE", "ERROR", "PUBLISHED", "SUBSCRIBED", "UNSUBSCRIBED", "EVENT", "RESULT", "REGISTERED", "UNREGISTERED", "INVOCATION", "INTERRUPT"})
	}
	t := mtypeByName[name]
	v := genV(r, t, s.kind)
	req := pick(r, s.reqs)
	if _, ok := v["RequestID"]; ok {
		v["RequestID"] = req
	}
	if _, ok := v["Options"]; ok {
		v["Options"] = s.options()
	}
	if _, ok := v["Details"]; ok {
		v["Details"] = s.options()
	}
	target := pick(r, s.objs)
	tracked := false
	if _, request := s.out[name]; request {
		tracked = true
		if _, dup := s.out[name][req]; dup && name != "CALL" && !(name == "PUBLISH") {
			dup = true
			if !r.P(50) {
				return
			}
			// only as a send that fails
			s.failing(t, v, target)
			return
		}
		if s.tainted[fmt.Sprint(name, req)] {
			return
		}
	}
	switch name {
	case "CALL":
		if r.P(30) {
			v.dict("Options")["progress"] = r.P(70)
		}
	case "PUBLISH":
		switch r.Intn(4) {
		case 0, 1:
			if _, dup := s.out[name][req]; dup {
				return
			}
			v.dict("Options")["acknowledge"] = true
		case 2:
			v.dict("Options")["acknowledge"] = false
			tracked = false
		default:
			tracked = false
		}
	case "UNREGISTER":
		v["RegistrationID"] = target
		if s.ending[name][target] {
			return
		}
		if !s.regs[target] {
			// what comes of this is not specified: the id is not used for this kind of request any more
			s.tainted[fmt.Sprint(name, req)] = true
			tracked = false
		}
	case "UNSUBSCRIBE":
		v["SubscriptionID"] = target
		if !s.subs[target] {
			s.refusedUnsubscribe(t, v, req, target)
			return
		}
		if s.ending[name][target] {
			return
		}
	case "YIELD":
		if r.Bool() {
			v.dict("Options")["progress"] = r.Bool()
		}
	case "ERROR":
		v["MessageType"] = uint64(68)
		if other {
			v["MessageType"] = pick(r, []uint64{48, 64, 66, 32, 34, 16, 8, 70, 36})
		}
	}
	if r.P(15) {
		s.failing(t, v, target)
		return
	}
	m := t.build(v)
	data, err := s.s.SendMessage(m)
	c.Logf("send %s %s -> %d bytes, %v", name, v, len(data), err)
	if other {
		if err != nil {
			s.verdict("S03", data == nil, "bytes-of-failure", "sending %s fails with %v but returns %d bytes", name, err, len(data))
			c.Feat("failed " + name)
			if _, ok := v["RequestID"]; ok && r.Bool() {
				s.probe(req)
			}
		}
		return
	}
	if name == "UNREGISTER" && !s.regs[target] && err != nil {
		return // refusing that is fine, too
	}
	s.verdict("S03", err == nil, "send", "sending %s %s: %v", name, v, err)
	if err != nil {
		return
	}
	c.Feat("sent " + name)
	s.decodes(t, v, data)
	s.keep(name, data)
	if tracked {
		var obj uint64
		if name == "UNREGISTER" || name == "UNSUBSCRIBE" {
			obj = target
			s.ending[name][target] = true
		}
		s.out[name][req] = obj
		if r.P(25) { // the response comes at once
			s.respond(name, req)
		}
	} else if _, request := s.out[name]; request && r.P(25) && !s.tainted[fmt.Sprint(name, req)] {
		s.respond(name, req) // refused unless an earlier one is outstanding
	}
}

type keptBytes struct {
	name string
	data []byte
	text string
}

// keep remembers the bytes of a message; they belong to the caller, who may write them out later than the next ones.
func (s *ssim) keep(name string, data []byte) {
	if !s.is("S03") && !s.is("S04") {
		return
	}
	s.kept = append(s.kept, keptBytes{name, data, string(data)})
	for i := max(0, len(s.kept)-4); i < len(s.kept); i++ {
		s.c.Check(string(s.kept[i].data) == s.kept[i].text, "bytes", "the bytes of an earlier %s have changed while a %s was sent", s.kept[i].name, name)
	}
}

// decodes checks that the bytes are the message.
func (s *ssim) decodes(t *mtype, v V, data []byte) {
	if !s.is("S03") && !s.is("S04") {
		return
	}
	raw, err := decodeWire(s.kind, data)
	s.c.Check(err == nil, "bytes", "the bytes of %s are not valid: %v", t.name, err)
	list, ok := raw.([]any)
	want := t.wireList(v)
	s.c.Check(ok && len(list) == len(want), "bytes", "the bytes of %s are %s, not %s", t.name, show(raw), show(want))
	for i := range want {
		s.c.Check(equalValues(want[i], list[i]), "bytes", "%s element %d: differs at %s", t.name, i, firstDiff(want[i], list[i]))
	}
	got, err := serializerOf(s.kind).Deserialize(data)
	s.c.Check(err == nil && got.Type() == t.code, "bytes", "the bytes of %s decode to %v, %v", t.name, got, err)
	if d := diffV(t.arrives(v), t.read(got)); d != "" {
		s.c.Fail("bytes", "the bytes of %s: %s", t.name, d)
	}
}

// failing sends a message that cannot be serialized.
func (s *ssim) failing(t *mtype, v V, target uint64) {
	r, c := s.r, s.c
	bad := pick(r, unserializable)()
	switch {
	case t.hasArgs() && r.P(70):
		if r.Bool() {
			v["Args"] = append(append([]any{}, v.list("Args")...), bad)
		} else {
			v["KwArgs"] = map[string]any{"a": 1, "k": bad}
		}
	case v["Options"] != nil:
		v.dict("Options")["zz"] = bad
	case v["Details"] != nil:
		v.dict("Details")["zz"] = bad
	default:
		return
	}
	if t.name == "PUBLISH" && r.P(70) {
		v.dict("Options")["acknowledge"] = true
	}
	m := t.build(v)
	data, err := s.s.SendMessage(m)
	c.Logf("send %s with %T -> %d bytes, %v", t.name, bad, len(data), err)
	if err == nil {
		s.verdict("S03", false, "unserializable", "sending %s with a %T gives %d bytes and no error", t.name, bad, len(data))
	}
	s.verdict("S03", data == nil, "bytes-of-failure", "sending %s fails with %v but returns %d bytes", t.name, err, len(data))
	c.Feat("failed " + t.name)
	if _, ok := v["RequestID"]; ok {
		req := v.id("RequestID")
		if _, ok := s.out[t.name][req]; ok {
			c.Feat("failed with outstanding id")
		}
		if r.P(60) && !s.tainted[fmt.Sprint(t.name, req)] {
			if _, request := s.out[t.name]; request {
				c.Feat("probed after failure")
				s.respondAs("S03", t.name, req)
			}
		}
	}
}

func (s *ssim) refusedUnsubscribe(t *mtype, v V, req, target uint64) {
	data, err := s.s.SendMessage(t.build(v))
	s.c.Logf("send UNSUBSCRIBE %d of %d, which is not held -> %d bytes, %v", req, target, len(data), err)
	s.verdict("S02", err != nil, "unsubscribe", "an UNSUBSCRIBE from subscription %d, which the session does not hold, is sent", target)
	s.c.Feat("refused unsubscribe")
	s.verdict("S03", data == nil, "bytes-of-failure", "sending UNSUBSCRIBE fails with %v but returns %d bytes", err, len(data))
	s.c.Feat("failed UNSUBSCRIBE")
	if s.r.P(60) {
		s.c.Feat("probed after failure")
		s.respondAs("S03", "UNSUBSCRIBE", req)
	}
}

// probe delivers a response to a request with the given id, of some kind.
func (s *ssim) probe(req uint64) {
	name := pick(s.r, requestKinds)
	if !s.tainted[fmt.Sprint(name, req)] {
		s.c.Feat("probed after failure")
		s.respondAs("S03", name, req)
	}
}

func (s *ssim) receive() {
	r, c := s.r, s.c
	switch r.Intn(12) {
	case 0, 1, 2, 3, 4:
		name, req := pick(r, requestKinds), pick(r, s.reqs)
		if r.P(40) { // an outstanding one
			if l := s.outstanding(); len(l) > 0 {
				p := pick(r, l)
				name, req = p.name, p.req
			}
		}
		if !s.tainted[fmt.Sprint(name, req)] {
			s.respond(name, req)
		}
	case 5, 6:
		id := s.object(s.subs)
		t := mtypeByName["EVENT"]
		v := genV(r, t, s.kind)
		v["SubscriptionID"] = id
		s.deliver(t, v, "S02", s.subs[id], "EVENT")
	case 7, 8:
		id := s.object(s.regs)
		t := mtypeByName["INVOCATION"]
		v := genV(r, t, s.kind)
		v["RegistrationID"], v["RequestID"] = id, pick(r, s.reqs)
		s.deliver(t, v, "S02", s.regs[id], "INVOCATION")
	case 9:
		t := mtypeByName[pick(r, []string{"GOODBYE", "ABORT"})]
		s.deliver(t, genV(r, t, s.kind), "S02", true, t.name)
	case 10:
		t := mtypeByName[pick(r, []string{"HELLO", "AUTHENTICATE", "PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE", "CALL", "CANCEL", "REGISTER", "UNREGISTER", "YIELD"})]
		v := genV(r, t, s.kind)
		if _, ok := v["RequestID"]; ok {
			v["RequestID"] = pick(r, s.reqs)
		}
		s.deliver(t, v, "S02", false, "router message")
	case 11:
		b := r.Bytes(r.Intn(30))
		if r.Bool() {
			b = encodeWire(s.kind, []any{pick(r, []uint64{50, 65, 67, 33, 35, 17, 8, 36, 68}), pick(r, s.reqs)}, wireOpts{})
			if len(b) > 3 {
				b = b[:len(b)-r.Intn(3)]
			}
		}
		if _, err := serializerOf(s.kind).Deserialize(b); err != nil {
			m, err := s.s.Receive(b)
			c.Logf("receive garbage %x -> %v", b, err)
			s.verdict("S01", err != nil, "garbage", "received %x: accepted as %v", b, m)
			c.Feat("garbage")
		}
	}
}

func (s *ssim) object(held map[uint64]bool) uint64 {
	if s.r.Bool() {
		for _, id := range s.objs {
			if held[id] && s.r.Bool() {
				return id
			}
		}
	}
	return pick(s.r, s.objs)
}

type outreq struct {
	name string
	req  uint64
}

func (s *ssim) outstanding() []outreq {
	var l []outreq
	for _, k := range requestKinds {
		for _, req := range s.reqs {
			if _, ok := s.out[k][req]; ok {
				l = append(l, outreq{k, req})
			}
		}
	}
	return l
}

func (s *ssim) respond(name string, req uint64) { s.respondAs("S01", name, req) }

// respondAs delivers a response to a request, which is outstanding or not; the property is the one a wrong verdict breaks.
func (s *ssim) respondAs(prop, name string, req uint64) {
	r := s.r
	obj, outstanding := s.out[name][req]
	if prop == "S03" && outstanding && s.is("S01") {
		prop = "S01"
	}
	if r.P(35) {
		t := mtypeByName["ERROR"]
		v := genV(r, t, s.kind)
		v["Details"] = s.options()
		if r.P(10) {
			v.dict("Details")["progress"] = true
		}
		v["MessageType"], v["RequestID"] = mtypeByName[name].code, req
		if s.is("S01") && r.P(10) { // errors for what is no request are never accepted
			v["MessageType"] = pick(r, []uint64{1, 2, 6, 8, 17, 36, 50, 65, 68, 70, 0, 49, 1 << 40})
			s.deliver(t, v, "S01", false, "ERROR for no request")
			return
		}
		s.deliver(t, v, prop, outstanding, "ERROR for "+name)
		if outstanding {
			s.close(name, req, obj)
		}
		return
	}
	tn := map[string]string{"CALL": "RESULT", "REGISTER": "REGISTERED", "UNREGISTER": "UNREGISTERED", "SUBSCRIBE": "SUBSCRIBED", "UNSUBSCRIBE": "UNSUBSCRIBED", "PUBLISH": "PUBLISHED"}[name]
	t := mtypeByName[tn]
	v := genV(r, t, s.kind)
	v["RequestID"] = req
	id := pick(r, s.objs)
	what := tn
	switch tn {
	case "RESULT":
		v["Details"] = s.options()
		if r.P(40) {
			v.dict("Details")["progress"] = true
			what = "progressive RESULT"
		} else if r.P(30) {
			v.dict("Details")["progress"] = false
		}
	case "REGISTERED":
		v["RegistrationID"] = id
	case "SUBSCRIBED":
		v["SubscriptionID"] = id
	}
	s.deliver(t, v, prop, outstanding, what)
	if !outstanding || what == "progressive RESULT" {
		return
	}
	switch tn {
	case "REGISTERED":
		s.regs[id] = true
	case "SUBSCRIBED":
		s.subs[id] = true
	case "UNREGISTERED":
		delete(s.regs, obj)
	case "UNSUBSCRIBED":
		delete(s.subs, obj)
	}
	s.close(name, req, obj)
}

func (s *ssim) close(name string, req, obj uint64) {
	delete(s.out[name], req)
	if e := s.ending[name]; e != nil {
		delete(e, obj)
	}
}

// deliver gives a message to the session in one of the possible ways and compares its verdict with the expected one.
func (s *ssim) deliver(t *mtype, v V, prop string, accept bool, what string) {
	r, c := s.r, s.c
	var got messages.Message
	var err error
	switch r.Intn(3) {
	case 0:
		c.Feat("via message")
		got, err = s.s.ReceiveMessage(t.build(v))
	case 1:
		c.Feat("via bytes")
		b, e := serializerOf(s.kind).Serialize(t.build(v))
		if e != nil {
			c.Skip("serialize")
		}
		got, err = s.s.Receive(b)
	case 2:
		c.Feat("foreign encoding")
		got, err = s.s.Receive(encodeWire(s.kind, t.wireList(v), wireOpts{r: r}))
	}
	c.Logf("receive %s %s -> %v", what, v, err)
	if accept {
		s.verdict(prop, err == nil, "refused", "%s %s is refused (%v) though it is expected", what, v, err)
		c.Feat("accepted " + what)
		if nilMsg(got) || got.Type() != t.code {
			s.verdict(prop, false, "changed", "%s is returned as %v", what, got)
			return
		}
		e := t.arrives(v)
		if d := diffV(e, t.read(got)); d != "" && !(d != "" && v.list("Args") == nil && v.dict("KwArgs") != nil && diffV(v, t.read(got)) == "") {
			s.verdict(prop, false, "changed", "%s: %s", what, d)
		}
	} else {
		s.verdict(prop, err != nil, "accepted", "%s %s is accepted though nothing like it is expected", what, v)
		c.Feat("refused " + what)
	}
}

// sweep compares what is outstanding and held with the shadow, completely.
func (s *ssim) sweep() {
	s.c.Logf("sweep")
	for _, k := range s.kept {
		s.c.Check(string(k.data) == k.text, "bytes", "the bytes of a %s have changed since they were returned", k.name)
	}
	for _, id := range s.objs {
		for _, k := range []string{"EVENT", "INVOCATION"} {
			t := mtypeByName[k]
			v := genV(s.r, t, s.kind)
			if k == "EVENT" {
				v["SubscriptionID"] = id
				s.deliver(t, v, "S02", s.subs[id], k)
			} else {
				v["RegistrationID"] = id
				s.deliver(t, v, "S02", s.regs[id], k)
			}
		}
	}
	for round := 0; round < 2; round++ {
		for _, name := range requestKinds {
			for _, req := range s.reqs {
				if s.tainted[fmt.Sprint(name, req)] {
					continue
				}
				_, was := s.out[name][req]
				for i := 0; ; i++ {
					s.respondAs("S01", name, req)
					if _, still := s.out[name][req]; !was || !still || i > 20 {
						break
					}
				}
			}
		}
	}
}
