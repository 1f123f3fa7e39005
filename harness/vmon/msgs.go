package main

import (
	"fmt"
	"reflect"

	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"sort"
	"strconv"
	"strings"
)

// V holds the field values of one message, by accessor name.
type V map[string]any

func (v V) id(n string) uint64           { x, _ := v[n].(uint64); return x }
func (v V) str(n string) string          { x, _ := v[n].(string); return x }
func (v V) dict(n string) map[string]any { x, _ := v[n].(map[string]any); return x }
func (v V) list(n string) []any          { x, _ := v[n].([]any); return x }
func (v V) strs(n string) []string       { x, _ := v[n].([]string); return x }

func (v V) String() string {
	m := map[string]any{}
	for k, x := range v {
		if reflect.ValueOf(x).Kind() == reflect.Map || reflect.ValueOf(x).Kind() == reflect.Slice {
			if reflect.ValueOf(x).IsNil() {
				m[k] = nil
				continue
			}
		}
		if s, ok := x.([]string); ok {
			l := []any{}
			for _, e := range s {
				l = append(l, e)
			}
			x = l
		}
		m[k] = x
	}
	return show(m)
}

type fkind int

const (
	fID fkind = iota
	fStr
	fDict
	fArgs
	fKw
)

type field struct {
	name string
	kind fkind
}

// mtype describes a message type: its code and its fields in the order the WAMP specification puts them on the wire.
type mtype struct {
	name     string
	code     uint64
	fields   []field
	min, max int
	build    func(V) messages.Message
	withF    func(*anyFields) messages.Message
	read     func(messages.Message) V
}

func fields(spec ...any) []field {
	var fs []field
	for i := 0; i < len(spec); i += 2 {
		fs = append(fs, field{spec[i].(string), spec[i+1].(fkind)})
	}
	return fs
}

func argsOf(a []any) any          { return a }
func kwOf(m map[string]any) any   { return m }
func dictOf(m map[string]any) any { return m }

// anyFields implements the field interface of every message type.
type anyFields struct {
	v      V
	binary bool
	ser    uint64
	bytes  []byte
}

func (f *anyFields) RequestID() uint64         { return f.v.id("RequestID") }
func (f *anyFields) SessionID() uint64         { return f.v.id("SessionID") }
func (f *anyFields) SubscriptionID() uint64    { return f.v.id("SubscriptionID") }
func (f *anyFields) RegistrationID() uint64    { return f.v.id("RegistrationID") }
func (f *anyFields) PublicationID() uint64     { return f.v.id("PublicationID") }
func (f *anyFields) MessageType() uint64       { return f.v.id("MessageType") }
func (f *anyFields) Options() map[string]any   { return f.v.dict("Options") }
func (f *anyFields) Details() map[string]any   { return f.v.dict("Details") }
func (f *anyFields) Extra() map[string]any     { return f.v.dict("Extra") }
func (f *anyFields) AuthExtra() map[string]any { return f.v.dict("AuthExtra") }
func (f *anyFields) Roles() map[string]any     { return f.v.dict("Roles") }
func (f *anyFields) AuthMethods() []string     { return f.v.strs("AuthMethods") }
func (f *anyFields) AuthID() string            { return f.v.str("AuthID") }
func (f *anyFields) AuthMethod() string        { return f.v.str("AuthMethod") }
func (f *anyFields) Realm() string             { return f.v.str("Realm") }
func (f *anyFields) Signature() string         { return f.v.str("Signature") }
func (f *anyFields) Reason() string            { return f.v.str("Reason") }
func (f *anyFields) Procedure() string         { return f.v.str("Procedure") }
func (f *anyFields) Topic() string             { return f.v.str("Topic") }
func (f *anyFields) URI() string               { return f.v.str("URI") }
func (f *anyFields) Args() []any               { return f.v.list("Args") }
func (f *anyFields) KwArgs() map[string]any    { return f.v.dict("KwArgs") }
func (f *anyFields) PayloadIsBinary() bool     { return f.binary }
func (f *anyFields) Payload() []byte           { return f.bytes }
func (f *anyFields) PayloadSerializer() uint64 { return f.ser }

var mtypes = []*mtype{
	{"HELLO", 1, fields("Realm", fStr, "Details", fDict), 3, 3,
		func(v V) messages.Message {
			return messages.NewHello(v.str("Realm"), v.str("AuthID"), v.dict("AuthExtra"), v.dict("Roles"), v.strs("AuthMethods"))
		},
		func(f *anyFields) messages.Message { return messages.NewHelloWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Hello)
			return V{"Realm": x.Realm(), "AuthID": x.AuthID(), "AuthMethods": x.AuthMethods(),
				"AuthExtra": dictOf(x.AuthExtra()), "Roles": dictOf(x.Roles())}
		}},
	{"WELCOME", 2, fields("SessionID", fID, "Details", fDict), 3, 3,
		func(v V) messages.Message { return messages.NewWelcome(v.id("SessionID"), v.dict("Details")) },
		func(f *anyFields) messages.Message { return messages.NewWelcomeWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Welcome)
			return V{"SessionID": x.SessionID(), "Details": dictOf(x.Details())}
		}},
	{"ABORT", 3, fields("Details", fDict, "Reason", fStr, "Args", fArgs, "KwArgs", fKw), 3, 5,
		func(v V) messages.Message {
			return messages.NewAbort(v.dict("Details"), v.str("Reason"), v.list("Args"), v.dict("KwArgs"))
		},
		func(f *anyFields) messages.Message { return messages.NewAbortWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Abort)
			return V{"Details": dictOf(x.Details()), "Reason": x.Reason(), "Args": argsOf(x.Args()), "KwArgs": kwOf(x.KwArgs())}
		}},
	{"CHALLENGE", 4, fields("AuthMethod", fStr, "Extra", fDict), 3, 3,
		func(v V) messages.Message { return messages.NewChallenge(v.str("AuthMethod"), v.dict("Extra")) },
		func(f *anyFields) messages.Message { return messages.NewChallengeWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Challenge)
			return V{"AuthMethod": x.AuthMethod(), "Extra": dictOf(x.Extra())}
		}},
	{"AUTHENTICATE", 5, fields("Signature", fStr, "Extra", fDict), 3, 3,
		func(v V) messages.Message { return messages.NewAuthenticate(v.str("Signature"), v.dict("Extra")) },
		func(f *anyFields) messages.Message { return messages.NewAuthenticateWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Authenticate)
			return V{"Signature": x.Signature(), "Extra": dictOf(x.Extra())}
		}},
	{"GOODBYE", 6, fields("Details", fDict, "Reason", fStr), 3, 3,
		func(v V) messages.Message { return messages.NewGoodBye(v.str("Reason"), v.dict("Details")) },
		func(f *anyFields) messages.Message { return messages.NewGoodByeWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.GoodBye)
			return V{"Details": dictOf(x.Details()), "Reason": x.Reason()}
		}},
	{"ERROR", 8, fields("MessageType", fID, "RequestID", fID, "Details", fDict, "URI", fStr, "Args", fArgs, "KwArgs", fKw), 5, 7,
		func(v V) messages.Message {
			return messages.NewError(v.id("MessageType"), v.id("RequestID"), v.dict("Details"), v.str("URI"), v.list("Args"),
				v.dict("KwArgs"))
		},
		func(f *anyFields) messages.Message { return messages.NewErrorWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Error)
			return V{"MessageType": x.MessageType(), "RequestID": x.RequestID(), "Details": dictOf(x.Details()), "URI": x.URI(),
				"Args": argsOf(x.Args()), "KwArgs": kwOf(x.KwArgs())}
		}},
	{"PUBLISH", 16, fields("RequestID", fID, "Options", fDict, "Topic", fStr, "Args", fArgs, "KwArgs", fKw), 4, 6,
		func(v V) messages.Message {
			return messages.NewPublish(v.id("RequestID"), v.dict("Options"), v.str("Topic"), v.list("Args"), v.dict("KwArgs"))
		},
		func(f *anyFields) messages.Message { return messages.NewPublishWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Publish)
			return V{"RequestID": x.RequestID(), "Options": dictOf(x.Options()), "Topic": x.Topic(),
				"Args": argsOf(x.Args()), "KwArgs": kwOf(x.KwArgs())}
		}},
	{"PUBLISHED", 17, fields("RequestID", fID, "PublicationID", fID), 3, 3,
		func(v V) messages.Message { return messages.NewPublished(v.id("RequestID"), v.id("PublicationID")) },
		func(f *anyFields) messages.Message { return messages.NewPublishedWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Published)
			return V{"RequestID": x.RequestID(), "PublicationID": x.PublicationID()}
		}},
	{"SUBSCRIBE", 32, fields("RequestID", fID, "Options", fDict, "Topic", fStr), 4, 4,
		func(v V) messages.Message {
			return messages.NewSubscribe(v.id("RequestID"), v.dict("Options"), v.str("Topic"))
		},
		func(f *anyFields) messages.Message { return messages.NewSubscribeWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Subscribe)
			return V{"RequestID": x.RequestID(), "Options": dictOf(x.Options()), "Topic": x.Topic()}
		}},
	{"SUBSCRIBED", 33, fields("RequestID", fID, "SubscriptionID", fID), 3, 3,
		func(v V) messages.Message { return messages.NewSubscribed(v.id("RequestID"), v.id("SubscriptionID")) },
		func(f *anyFields) messages.Message { return messages.NewSubscribedWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Subscribed)
			return V{"RequestID": x.RequestID(), "SubscriptionID": x.SubscriptionID()}
		}},
	{"UNSUBSCRIBE", 34, fields("RequestID", fID, "SubscriptionID", fID), 3, 3,
		func(v V) messages.Message {
			return messages.NewUnsubscribe(v.id("RequestID"), v.id("SubscriptionID"))
		},
		func(f *anyFields) messages.Message { return messages.NewUnsubscribeWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Unsubscribe)
			return V{"RequestID": x.RequestID(), "SubscriptionID": x.SubscriptionID()}
		}},
	{"UNSUBSCRIBED", 35, fields("RequestID", fID), 2, 2,
		func(v V) messages.Message { return messages.NewUnsubscribed(v.id("RequestID")) },
		func(f *anyFields) messages.Message { return messages.NewUnsubscribedWithFields(f) },
		func(m messages.Message) V {
			return V{"RequestID": m.(*messages.Unsubscribed).RequestID()}
		}},
	{"EVENT", 36, fields("SubscriptionID", fID, "PublicationID", fID, "Details", fDict, "Args", fArgs, "KwArgs", fKw), 4, 6,
		func(v V) messages.Message {
			return messages.NewEvent(v.id("SubscriptionID"), v.id("PublicationID"), v.dict("Details"), v.list("Args"),
				v.dict("KwArgs"))
		},
		func(f *anyFields) messages.Message { return messages.NewEventWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Event)
			return V{"SubscriptionID": x.SubscriptionID(), "PublicationID": x.PublicationID(), "Details": dictOf(x.Details()),
				"Args": argsOf(x.Args()), "KwArgs": kwOf(x.KwArgs())}
		}},
	{"CALL", 48, fields("RequestID", fID, "Options", fDict, "Procedure", fStr, "Args", fArgs, "KwArgs", fKw), 4, 6,
		func(v V) messages.Message {
			return messages.NewCall(v.id("RequestID"), v.dict("Options"), v.str("Procedure"), v.list("Args"), v.dict("KwArgs"))
		},
		func(f *anyFields) messages.Message { return messages.NewCallWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Call)
			return V{"RequestID": x.RequestID(), "Options": dictOf(x.Options()), "Procedure": x.Procedure(),
				"Args": argsOf(x.Args()), "KwArgs": kwOf(x.KwArgs())}
		}},
	{"CANCEL", 49, fields("RequestID", fID, "Options", fDict), 3, 3,
		func(v V) messages.Message { return messages.NewCancel(v.id("RequestID"), v.dict("Options")) },
		func(f *anyFields) messages.Message { return messages.NewCancelWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Cancel)
			return V{"RequestID": x.RequestID(), "Options": dictOf(x.Options())}
		}},
	{"RESULT", 50, fields("RequestID", fID, "Details", fDict, "Args", fArgs, "KwArgs", fKw), 3, 5,
		func(v V) messages.Message {
			return messages.NewResult(v.id("RequestID"), v.dict("Details"), v.list("Args"), v.dict("KwArgs"))
		},
		func(f *anyFields) messages.Message { return messages.NewResultWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Result)
			return V{"RequestID": x.RequestID(), "Details": dictOf(x.Details()), "Args": argsOf(x.Args()), "KwArgs": kwOf(x.KwArgs())}
		}},
	{"REGISTER", 64, fields("RequestID", fID, "Options", fDict, "Procedure", fStr), 4, 4,
		func(v V) messages.Message {
			return messages.NewRegister(v.id("RequestID"), v.dict("Options"), v.str("Procedure"))
		},
		func(f *anyFields) messages.Message { return messages.NewRegisterWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Register)
			return V{"RequestID": x.RequestID(), "Options": dictOf(x.Options()), "Procedure": x.Procedure()}
		}},
	{"REGISTERED", 65, fields("RequestID", fID, "RegistrationID", fID), 3, 3,
		func(v V) messages.Message { return messages.NewRegistered(v.id("RequestID"), v.id("RegistrationID")) },
		func(f *anyFields) messages.Message { return messages.NewRegisteredWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Registered)
			return V{"RequestID": x.RequestID(), "RegistrationID": x.RegistrationID()}
		}},
	{"UNREGISTER", 66, fields("RequestID", fID, "RegistrationID", fID), 3, 3,
		func(v V) messages.Message { return messages.NewUnregister(v.id("RequestID"), v.id("RegistrationID")) },
		func(f *anyFields) messages.Message { return messages.NewUnregisterWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Unregister)
			return V{"RequestID": x.RequestID(), "RegistrationID": x.RegistrationID()}
		}},
	{"UNREGISTERED", 67, fields("RequestID", fID), 2, 2,
		func(v V) messages.Message { return messages.NewUnregistered(v.id("RequestID")) },
		func(f *anyFields) messages.Message { return messages.NewUnregisteredWithFields(f) },
		func(m messages.Message) V {
			return V{"RequestID": m.(*messages.Unregistered).RequestID()}
		}},
	{"INVOCATION", 68, fields("RequestID", fID, "RegistrationID", fID, "Details", fDict, "Args", fArgs, "KwArgs", fKw), 4, 6,
		func(v V) messages.Message {
			return messages.NewInvocation(v.id("RequestID"), v.id("RegistrationID"), v.dict("Details"), v.list("Args"),
				v.dict("KwArgs"))
		},
		func(f *anyFields) messages.Message { return messages.NewInvocationWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Invocation)
			return V{"RequestID": x.RequestID(), "RegistrationID": x.RegistrationID(), "Details": dictOf(x.Details()),
				"Args": argsOf(x.Args()), "KwArgs": kwOf(x.KwArgs())}
		}},
	{"INTERRUPT", 69, fields("RequestID", fID, "Options", fDict), 3, 3,
		func(v V) messages.Message { return messages.NewInterrupt(v.id("RequestID"), v.dict("Options")) },
		func(f *anyFields) messages.Message { return messages.NewInterruptWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Interrupt)
			return V{"RequestID": x.RequestID(), "Options": dictOf(x.Options())}
		}},
	{"YIELD", 70, fields("RequestID", fID, "Options", fDict, "Args", fArgs, "KwArgs", fKw), 3, 5,
		func(v V) messages.Message {
			return messages.NewYield(v.id("RequestID"), v.dict("Options"), v.list("Args"), v.dict("KwArgs"))
		},
		func(f *anyFields) messages.Message { return messages.NewYieldWithFields(f) },
		func(m messages.Message) V {
			x := m.(*messages.Yield)
			return V{"RequestID": x.RequestID(), "Options": dictOf(x.Options()), "Args": argsOf(x.Args()), "KwArgs": kwOf(x.KwArgs())}
		}},
}

var mtypeByCode = func() map[uint64]*mtype {
	m := map[uint64]*mtype{}
	for _, t := range mtypes {
		m[t.code] = t
	}
	return m
}()

func (t *mtype) hasArgs() bool { return t.max > t.min }

func serializerOf(kind int) serializers.Serializer {
	switch kind {
	case kJSON:
		return &serializers.JSONSerializer{}
	case kCBOR:
		return &serializers.CBORSerializer{}
	}
	return &serializers.MsgPackSerializer{}
}

// genDict makes options or details; absent with a small probability.
func genDict(r *Rand, kind int) map[string]any {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1, 2:
		return map[string]any{}
	}
	m := genMap(r, kind, 2)
	for _, k := range []string{"acknowledge", "progress", "receive_progress", "match", "invoke", "x_payload_serializer", "exclude_me"} {
		if r.P(6) {
			m[k] = genValue(r, kind, 0)
		}
	}
	return m
}

// genV makes the field values for a message of type t that the serializer can carry.
func genV(r *Rand, t *mtype, kind int) V {
	v := genSmallV(r, t, kind)
	if r.Intn(400) == 0 {
		enlarge(r, t, v)
	}
	return v
}

// hugeV is genV; a few messages, of each type with arguments and in each serializer, are huge.
func hugeV(c *C, t *mtype, kind int) V {
	v := genV(c.R, t, kind)
	if block := c.Case / (3 * len(mtypes)); t.hasArgs() && block%64 < 48 && block%6 == c.Case%len(mtypes)%6 && c.R.Intn(40) == 0 {
		n := 1<<20 + 1 + c.R.Intn(5000)
		c.Feat("huge")
		if c.R.P(45) {
			v["Args"] = largeList(n)
		} else if c.R.P(25) {
			v["Args"] = []any{strings.Repeat("h", n)}
		} else if v["KwArgs"] = hugeMap(pick(c.R, []int{n, 200000, 200000})); v["Args"] == nil {
			v["Args"] = []any{}
		}
	}
	return v
}

// enlarge makes one field of the message large.
func enlarge(r *Rand, t *mtype, v V) {
	var names []string
	for n := range v {
		names = append(names, n)
	}
	if t.hasArgs() && v["Args"] == nil {
		v["Args"] = []any{}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return
	}
	n := largeSize(r)
	for tries := 0; tries < 5; tries++ {
		name := pick(r, names)
		switch v[name].(type) {
		case string:
			v[name] = strings.Repeat(string(rune('a'+r.Intn(26))), max(n, largeSize(r), largeSize(r)))
		case map[string]any:
			v[name] = largeMap(n)
		case []any:
			v[name] = largeList(n)
		case []string:
			l := make([]string, n)
			for i := range l {
				l[i] = strconv.Itoa(i)
			}
			v[name] = l
		default:
			continue
		}
		return
	}
}

// largeSize is a size that no boundary of an encoding suggests.
func largeSize(r *Rand) int {
	if r.P(70) {
		return 200 + r.Intn(6000)
	}
	if r.P(85) {
		return 60000 + r.Intn(150000)
	}
	return 1<<20 + r.Intn(1<<20)
}

func largeList(n int) []any {
	l := make([]any, n)
	for i := range l {
		l[i] = i
	}
	return l
}

func largeMap(n int) map[string]any { return hugeMap(min(n, 200000)) }

func hugeMap(n int) map[string]any {
	m := make(map[string]any, n)
	for i := 0; i < n; i++ {
		m["k"+strconv.Itoa(i)] = i
	}
	return m
}

func genSmallV(r *Rand, t *mtype, kind int) V {
	v := V{}
	if t.name == "HELLO" {
		v["Realm"], v["AuthID"] = genString(r), genString(r)
		v["AuthExtra"], v["Roles"] = genDict(r, kind), genDict(r, kind)
		var ms []string
		if !r.P(15) {
			ms = []string{}
			for i := r.Intn(5); i > 0; i-- {
				ms = append(ms, genString(r))
			}
		}
		v["AuthMethods"] = ms
		return v
	}
	for _, f := range t.fields {
		switch f.kind {
		case fID:
			v[f.name] = r.ID()
		case fStr:
			v[f.name] = genString(r)
		case fDict:
			v[f.name] = genDict(r, kind)
		}
	}
	if t.hasArgs() {
		a, k := genArgsX(r, kind)
		v["Args"], v["KwArgs"] = a, k
	}
	return v
}

// wireList is the list the WAMP specification prescribes for the message.
func (t *mtype) wireList(v V) []any {
	if t.name == "HELLO" {
		methods := []any{}
		for _, m := range v.strs("AuthMethods") {
			methods = append(methods, m)
		}
		return []any{t.code, v.str("Realm"), map[string]any{"authid": v.str("AuthID"), "authmethods": methods,
			"authextra": nonNil(v.dict("AuthExtra")), "roles": nonNil(v.dict("Roles"))}}
	}
	l := []any{t.code}
	for _, f := range t.fields {
		switch f.kind {
		case fID:
			l = append(l, v.id(f.name))
		case fStr:
			l = append(l, v.str(f.name))
		case fDict:
			l = append(l, nonNil(v.dict(f.name)))
		}
	}
	if t.hasArgs() {
		a, k := v.list("Args"), v.dict("KwArgs")
		if a != nil || k != nil {
			if a == nil {
				a = []any{}
			}
			l = append(l, a)
		}
		if k != nil {
			l = append(l, k)
		}
	}
	return l
}

func nonNil(m map[string]any) map[string]any {
	if m == nil {
		return map[string]any{}
	}
	return m
}

// arrives is what a receiver must see of a message with these fields.
func (t *mtype) arrives(v V) V {
	e := V{}
	for k, x := range v {
		e[k] = x
	}
	if t.hasArgs() && v.list("Args") == nil && v.dict("KwArgs") != nil {
		e["Args"] = []any{}
	}
	return e
}

// diffV compares field values; it returns "" if they agree.
func diffV(want, got V) string {
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			return "no field " + k
		}
		if k == "Args" || k == "KwArgs" {
			wn, gn := reflect.ValueOf(w).IsNil(), reflect.ValueOf(g).IsNil()
			if wn != gn {
				return fmt.Sprintf("%s: absent %v, want absent %v", k, gn, wn)
			}
			if wn {
				continue
			}
		}
		if m, ok := w.(map[string]any); ok && m == nil {
			w = map[string]any{}
		}
		if m, ok := g.(map[string]any); ok && m == nil {
			g = map[string]any{}
		}
		if !equalValues(w, g) {
			return fmt.Sprintf("%s: want and got differ at %s; want %s, got %s", k, firstDiff(w, g), showAny(w), showAny(g))
		}
	}
	return ""
}

func showAny(x any) string {
	if s, ok := x.([]string); ok {
		return fmt.Sprintf("%q", s)
	}
	return show(x)
}

// nilMsg tells whether an interface holds no message, be it nil or a nil pointer.
func nilMsg(m any) bool {
	if m == nil {
		return true
	}
	v := reflect.ValueOf(m)
	return v.Kind() == reflect.Pointer && v.IsNil()
}

// use calls every accessor of the message, through the interfaces a receiver would use.
func use(m messages.Message) V {
	t := mtypeByCode[m.Type()]
	if t == nil {
		return nil
	}
	v := t.read(m)
	if b, ok := m.(messages.BinaryPayload); ok {
		b.PayloadIsBinary()
		b.Payload()
		b.PayloadSerializer()
	}
	return v
}
