package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// ---------------------------------------------------------------- instruments

// authCall is one consultation of the router's authenticator, as observed.
type authCall struct {
	realm, authid, ticket, pubkey string
	method                        auth.Method
	extra                         map[string]any
	approved                      bool
	resp                          auth.Response
	step                          int
}

// recAuth is a router-side authenticator that records how it is used.
type recAuth struct {
	methods []auth.Method
	decide  func(authCall) (auth.Response, error)
	calls   []authCall
	step    int // of the handshake, set by the driver
}

func (a *recAuth) Methods() []auth.Method { return a.methods }

func (a *recAuth) Authenticate(req auth.Request) (auth.Response, error) {
	c := authCall{realm: req.Realm(), authid: req.AuthID(), method: req.AuthMethod(), extra: req.AuthExtra(), step: a.step}
	if t, ok := req.(*auth.TicketRequest); ok {
		c.ticket = t.Ticket()
	}
	if t, ok := req.(*auth.RequestCryptoSign); ok {
		c.pubkey = t.PublicKey()
	}
	resp, err := a.decide(c)
	c.approved, c.resp = err == nil, resp
	a.calls = append(a.calls, c)
	return resp, err
}

// statically is a serializer that claims to be static, as those with a fixed schema do.
type statically struct{ serializers.Serializer }

func (statically) Static() bool { return true }

// failing is a serializer that can be told to refuse to serialize.
type failing struct {
	serializers.Serializer
	refuse bool
}

func (f *failing) Serialize(m messages.Message) ([]byte, error) {
	if f.refuse {
		return []byte("half"), errors.New("cannot be serialized")
	}
	return f.Serializer.Serialize(m)
}

// abortReason checks that an ABORT list says that authentication failed.
func abortReason(c *C, reply []any) {
	c.Check(equalValues(reply[2], "wamp.error.authentication_failed"), "reason", "refused with %s, want wamp.error.authentication_failed", show(reply))
}

func pbkdf2SHA256(password, salt []byte, iter, keyLen int) []byte {
	var out []byte
	for block := 1; len(out) < keyLen; block++ {
		h := hmac.New(sha256.New, password)
		h.Write(salt)
		h.Write([]byte{byte(block >> 24), byte(block >> 16), byte(block >> 8), byte(block)})
		u := h.Sum(nil)
		t := append([]byte{}, u...)
		for i := 1; i < iter; i++ {
			h = hmac.New(sha256.New, password)
			h.Write(u)
			u = h.Sum(nil)
			for j := range t {
				t[j] ^= u[j]
			}
		}
		out = append(out, t...)
	}
	return out[:keyLen]
}

func craKey(secret, salt string, iter, keyLen int) []byte {
	if salt == "" {
		return []byte(secret)
	}
	return []byte(base64.StdEncoding.EncodeToString(pbkdf2SHA256([]byte(secret), []byte(salt), iter, keyLen)))
}

func craMAC(challenge string, key []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write([]byte(challenge))
	return h.Sum(nil)
}

var allMethods = []auth.Method{auth.Anonymous, auth.Ticket, auth.WAMPCRA, auth.CryptoSign}

// client is a hand-made client: it speaks to an acceptor through bytes of the independent codecs.
type client struct {
	c    *C
	kind int
	acc  *wampproto.Acceptor
	auth *recAuth
	msgs int
}

// send delivers one message and returns the decoded reply list, or nil if there was an error.
func (k *client) send(list []any) (reply []any, welcomed bool, err error) {
	k.msgs++
	k.auth.step = k.msgs
	data := encodeWire(k.kind, list, wireOpts{k.c.R})
	out, welcomed, err := k.acc.Receive(data)
	if err != nil {
		k.c.Check(len(out) == 0, "reply with error", "error %v came with a reply %x", err, out)
		k.c.Check(!welcomed, "welcomed with error", "error %v came with welcomed", err)
		return nil, false, err
	}
	v, derr := decodeWire(k.kind, out)
	k.c.Check(derr == nil, "wire", "reply %x is not valid: %v", out, derr)
	l, ok := v.([]any)
	k.c.Check(ok && len(l) >= 3, "wire", "reply is %s", show(v))
	k.c.Logf("reply %s", show(l))
	k.c.Check(welcomed == (code(l) == 2), "welcomed", "welcomed=%v for reply %s", welcomed, show(l))
	return l, welcomed, nil
}

func code(l []any) uint64 {
	if len(l) == 0 {
		return 0
	}
	_, abs, _ := asInteger(l[0])
	return abs
}

func (k *client) noSession(why string) {
	d, err := k.acc.SessionDetails()
	k.c.Check(err != nil && d == nil, "early session", "%s, yet the acceptor reports session %v", why, d != nil)
}

func helloList(realm, authid string, methods []string, extra map[string]any) []any {
	ms := []any{}
	for _, m := range methods {
		ms = append(ms, m)
	}
	d := map[string]any{"authid": authid, "authmethods": ms, "roles": map[string]any{"caller": map[string]any{}}}
	if extra != nil {
		d["authextra"] = extra
	}
	return []any{1, realm, d}
}

func perm2(r *Rand) []int {
	if r.Bool() {
		return []int{1, 0}
	}
	return []int{0, 1}
}

func genIdent(r *Rand) string {
	if r.P(60) {
		id := pick(r, []string{"alice", "bob", "carol", "realm1", "io.xconn", "anonymous", "admin", "x", "ticket"}) + fmt.Sprint(r.Intn(50))
		switch r.Intn(12) {
		case 0: // how it is written matters
			id = strings.ToUpper(id[:1]) + id[1:]
		case 1:
			id = strings.ToUpper(id)
		case 2:
			id = pick(r, []string{" ", "\t", "\n", ".", "\"", ""}) + id + pick(r, []string{" ", "\n", ".", "\x00", "%20", "@Example.com"})
		}
		return id
	}
	return genString(r)
}

func keyPair(r *Rand) (seedHex, pubHex string, priv ed25519.PrivateKey) {
	seed := r.Bytes(32)
	priv = ed25519.NewKeyFromSeed(seed)
	return hex.EncodeToString(seed), hex.EncodeToString(priv.Public().(ed25519.PublicKey)), priv
}

func init() {
	register(&Prop{ID: "A01", Quick: 4000, Thoro: 300000,
		Rule: "complete handshakes between a Joiner and an Acceptor; distinct = different (method, serializer, identities, messages)",
		Need: map[string]int64{"anonymous": 200, "ticket": 200, "wampcra": 200, "cryptosign": 200, "json": 500, "cbor": 500, "msgpack": 500, "asked about": 2000, "no client authenticator": 50},
		Case: a01})
	register(&Prop{ID: "A02", Quick: 12000, Thoro: 1000000,
		Rule: "hand-made clients against an acceptor whose authenticator approves and refuses at random and records every consultation; distinct = different conversation",
		Need: map[string]int64{"welcomed": 1000, "refused": 1000, "ticket": 300, "wampcra": 150, "cryptosign": 150, "anonymous": 150, "response": 500},
		Case: a02})
	register(&Prop{ID: "A03", Quick: 5000, Thoro: 400000,
		Rule: "CRA handshakes with right and wrong responses (replays, other secrets, other encodings), and the library's client against an independent router; distinct = different (user, attack)",
		Need: map[string]int64{"right": 500, "wrong": 2000, "salted": 1000, "client": 200},
		Case: a03})
	register(&Prop{ID: "A04", Quick: 6000, Thoro: 400000,
		Rule: "cryptosign handshakes with right and wrong signatures (replays, other keys, wrong shapes), malformed keys, and the library's client against an independent router; distinct = different (key, attack)",
		Need: map[string]int64{"right": 500, "wrong": 2000, "bad key": 200, "client": 200},
		Case: a04})
	register(&Prop{ID: "A05", Quick: 15000, Thoro: 1500000,
		Rule: "random sequences of messages and bytes to one acceptor; distinct = different sequence of (message, outcome)",
		Need: map[string]int64{"welcomed": 1000, "aborted": 1000, "after the end": 5000, "bytes": 2000, "hello twice": 500, "unsendable reply": 50},
		Case: a05})
	register(&Prop{ID: "A06", Quick: 15000, Thoro: 1500000,
		Rule: "random sequences of messages and bytes from a hostile router to one joiner; distinct = different sequence of (message, outcome)",
		Need: map[string]int64{"joined": 1000, "aborted": 1000, "challenge answered": 1000, "second challenge": 300, "second welcome": 300, "welcome after abort": 200,
			"before hello": 300, "absurd challenge": 1000, "unsendable hello": 50, "unsendable reply": 50, "reason explained": 50},
		Case: a06})
	register(&Prop{ID: "A07", Quick: 15000, Thoro: 1500000,
		Rule: "lists of offered and allowed methods with duplicates, unknown ones and none; distinct = different pair of lists",
		Need: map[string]int64{"selected": 2000, "none": 2000, "empty list": 500, "through acceptor": 3000, "long list": 100},
		Case: a07})
}

// ---------------------------------------------------------------- A01

func a01(c *C) {
	r := c.R
	kind := c.Case % 3
	method := allMethods[(c.Case/3)%4]
	c.Feat(kindNames[kind])
	c.Feat(string(method))
	realm, authid := genIdent(r), genIdent(r)
	gotID, gotRole := genIdent(r), genIdent(r)
	secret := genIdent(r) + "s"
	extra := pick(r, []map[string]any{nil, {}, {"x": "y"}, {"n": 5, "list": []any{"a"}}, {"n": 5, "list": []any{"a"}}})
	if r.P(10) {
		extra = map[string]any{}
		for i := pick(r, []int{3, 5, 9, 17, 33, 65, 130, 300, 1100}); i > 0; i-- {
			extra["key"+fmt.Sprint(i)] = i
		}
		c.Feat("much extra data")
	}
	if extra != nil {
		cp := map[string]any{}
		for k, v := range extra {
			cp[k] = v
		}
		extra = cp
	}
	given := map[string]any{}
	for k, v := range extra {
		given[k] = v
	}
	var ca auth.ClientAuthenticator
	salt, iter, kl := "", 0, 0
	switch method {
	case auth.Anonymous:
		if r.P(15) {
			authid, given = "", map[string]any{}
			c.Feat("no client authenticator")
		} else {
			ca = auth.NewAnonymousAuthenticator(authid, extra)
		}
	case auth.Ticket:
		ca = auth.NewTicketAuthenticator(authid, secret, extra)
	case auth.WAMPCRA:
		ca = auth.NewWAMPCRAAuthenticator(authid, secret, extra)
		if r.Bool() {
			salt, iter, kl = genIdent(r)+"x", r.Intn(60), r.Intn(50)
		}
	case auth.CryptoSign:
		seed, _, _ := keyPair(r)
		var err error
		ca, err = auth.NewCryptoSignAuthenticator(authid, seed, extra)
		c.Check(err == nil, "key", "valid private key refused: %v", err)
	}
	methods := append([]auth.Method{}, allMethods...)
	shuffle(r, methods)
	ra := &recAuth{methods: methods, decide: func(a authCall) (auth.Response, error) {
		if a.method == auth.WAMPCRA {
			if salt != "" {
				return auth.NewCRAResponseSalted(gotID, gotRole, secret, salt, iter, kl, 0), nil
			}
			return auth.NewCRAResponse(gotID, gotRole, secret, 0), nil
		}
		if a.method == auth.Ticket && a.ticket != secret {
			return nil, errors.New("wrong ticket")
		}
		return auth.NewResponse(gotID, gotRole, 0)
	}}
	ser := serializerOf(kind)
	if r.P(20) {
		ser = statically{ser}
		c.Feat("static")
	}
	var acc *wampproto.Acceptor
	var join *wampproto.Joiner
	if kind == kJSON && r.P(20) {
		acc, join = wampproto.NewAcceptor(nil, ra), wampproto.NewJoiner(realm, nil, ca)
		ser = serializerOf(kind)
	} else {
		acc, join = wampproto.NewAcceptor(ser, ra), wampproto.NewJoiner(realm, ser, ca)
	}
	if r.P(4) && method == auth.Anonymous { // the router's default authenticator
		acc = wampproto.NewAcceptor(ser, nil)
		gotID, gotRole = "anonymous", "anonymous"
		c.Feat("default authenticator")
	}
	early := func(when string) {
		d, err := acc.SessionDetails()
		c.Check(err != nil && d == nil, "early", "acceptor reports a session %s", when)
		d, err = join.SessionDetails()
		c.Check(err != nil && d == nil, "early", "joiner reports a session %s", when)
	}
	early("before HELLO")
	data, err := join.SendHello()
	c.Check(err == nil, "hello", "SendHello: %v", err)
	early("after HELLO")
	var welcome []byte
	var otherRoles map[string]any
	var routerRoles any
	sentExtra := any(map[string]any{})
	for step := 0; ; step++ {
		c.Check(step < 3, "endless", "handshake does not end")
		var reply []byte
		var welcomed bool
		if r.P(70) {
			reply, welcomed, err = acc.Receive(data)
			c.Check(err == nil, "failed", "%s %s: acceptor: %v", kindNames[kind], method, err)
		} else {
			m, err := ser.Deserialize(data)
			c.Check(err == nil, "failed", "acceptor cannot read: %v", err)
			out, err := acc.ReceiveMessage(m)
			c.Check(err == nil && !nilMsg(out), "failed", "%s %s: acceptor: %v", kindNames[kind], method, err)
			welcomed = out.Type() == messages.MessageTypeWelcome
			reply, err = ser.Serialize(out)
			c.Check(err == nil, "failed", "%v", err)
		}
		raw, err := decodeWire(kind, reply)
		c.Check(err == nil, "wire", "%x: %v", reply, err)
		l := raw.([]any)
		c.Logf("router: %s", show(l))
		c.Check(welcomed == (code(l) == 2), "welcomed", "welcomed=%v with %s", welcomed, show(l))
		if welcomed {
			routerRoles = l[2].(map[string]any)["roles"]
			if r.P(30) { // a router of another make announces roles of its own
				c.Feat("other roles")
				roles := map[string]any{}
				for _, role := range []string{"broker", "dealer", genIdent(r)} {
					if r.Bool() {
						roles[role] = pick(r, []any{map[string]any{}, map[string]any{"features": map[string]any{genIdent(r): r.Bool(), "publisher_exclusion": r.Bool()}}})
					}
				}
				l[2].(map[string]any)["roles"] = roles
				reply = encodeWire(kind, l, wireOpts{r})
				otherRoles = roles
			}
			welcome = reply
			d, err := join.SessionDetails()
			c.Check(err != nil && d == nil, "early", "joiner reports a session before WELCOME")
		} else {
			early("before WELCOME")
		}
		var next []byte
		if r.P(70) {
			next, err = join.Receive(reply)
		} else {
			m, derr := ser.Deserialize(reply)
			c.Check(derr == nil, "failed", "joiner cannot read: %v", derr)
			var out messages.Message
			out, err = join.ReceiveMessage(m)
			if err == nil && !nilMsg(out) {
				next, err = ser.Serialize(out)
			}
		}
		c.Check(err == nil, "failed", "%s %s: joiner: %v", kindNames[kind], method, err)
		if welcomed {
			c.Check(len(next) == 0, "reply", "joiner answered WELCOME with %x", next)
			break
		}
		c.Check(len(next) > 0, "reply", "joiner has nothing to say to %s", show(l))
		early("before WELCOME")
		data = next
		if raw, err := decodeWire(kind, next); err == nil {
			if l := raw.([]any); len(l) > 2 && l[2] != nil {
				sentExtra = l[2]
			}
		}
	}
	a, err := acc.SessionDetails()
	c.Check(err == nil && a != nil, "details", "acceptor has no session: %v", err)
	j, err := join.SessionDetails()
	c.Check(err == nil && j != nil, "details", "joiner has no session: %v", err)
	c.Logf("session %d %q %q %q %q", a.ID(), a.Realm(), a.AuthID(), a.AuthRole(), a.AuthMethod())
	c.Check(a.ID() == j.ID(), "id", "acceptor has session %d, joiner %d", a.ID(), j.ID())
	c.Check(a.ID() >= 1 && a.ID() <= MaxID, "id", "session id %d", a.ID())
	c.Check(a.Realm() == realm && j.Realm() == realm, "realm", "asked for %q, acceptor %q, joiner %q", realm, a.Realm(), j.Realm())
	c.Check(a.AuthID() == gotID && j.AuthID() == gotID, "authid", "granted %q, acceptor %q, joiner %q", gotID, a.AuthID(), j.AuthID())
	c.Check(a.AuthRole() == gotRole && j.AuthRole() == gotRole, "authrole", "granted %q, acceptor %q, joiner %q", gotRole, a.AuthRole(), j.AuthRole())
	c.Check(a.AuthMethod() == string(method) && j.AuthMethod() == string(method), "authmethod", "used %q, acceptor %q, joiner %q", method,
		a.AuthMethod(), j.AuthMethod())
	c.Check(a.StaticSerializer() == ser.Static() && j.StaticSerializer() == ser.Static(), "serializer", "static %v, acceptor %v, joiner %v", ser.Static(),
		a.StaticSerializer(), j.StaticSerializer())
	c.Check(equalValues(a.RouterRoles(), routerRoles), "roles", "router announced %s, acceptor says %s", show(routerRoles), show(a.RouterRoles()))
	if method != auth.Anonymous {
		c.Check(equalValues(a.AuthExtra(), sentExtra), "extra", "the client's AUTHENTICATE says %s, acceptor %s", show(sentExtra), show(a.AuthExtra()))
	}
	for _, q := range ra.calls {
		c.Feat("asked about")
		c.Check(q.realm == realm && q.authid == authid && q.method == method && (method != auth.Ticket || q.ticket == secret), "asked",
			"a client for %q, %q with %s asks the authenticator about %q, %q with %s (ticket %q)", realm, authid, method, q.realm, q.authid, q.method, q.ticket)
		got := map[string]any{}
		for k, v := range q.extra {
			if _, own := extra[k]; own || k != "pubkey" || method != auth.CryptoSign {
				got[k] = v
			}
		}
		c.Check(equalValues(given, got), "extra", "a client with extra data %s asks the authenticator with %s", show(given), show(got))
	}
	c.Mix(kind, method, realm, authid, gotID, gotRole, secret, salt)
	if otherRoles != nil {
		c.Check(equalValues(otherRoles, j.RouterRoles()), "roles", "router announced %s, joiner sees %s", show(otherRoles), show(j.RouterRoles()))
		return
	}
	raw, err := decodeWire(kind, welcome)
	c.Check(err == nil, "wire", "%v", err)
	wl := raw.([]any)
	_, sid, _ := asInteger(wl[1])
	c.Check(sid == a.ID(), "id", "WELCOME says %d, acceptor %d", sid, a.ID())
	details, _ := wl[2].(map[string]any)
	for k, v := range map[string]string{"realm": realm, "authid": gotID, "authrole": gotRole, "authmethod": string(method)} {
		if got, there := details[k]; there || k != "realm" {
			c.Check(equalValues(got, v), "details", "WELCOME says %s %s, want %q", k, show(got), v)
		}
	}
	c.Check(equalValues(details["roles"], j.RouterRoles()), "roles", "router announced %s, joiner sees %s", show(details["roles"]), show(j.RouterRoles()))
	c.Check(equalValues(wampproto.RouterRoles, j.RouterRoles()) && len(j.RouterRoles()) > 0, "roles", "router has %s, joiner sees %s", show(wampproto.RouterRoles), show(j.RouterRoles()))
}

// ---------------------------------------------------------------- A02

func a02(c *C) {
	r := c.R
	kind := c.Case % 3
	realm, authid, secret := genIdent(r), genIdent(r), genIdent(r)+"s"
	_, pub, priv := keyPair(r)
	a02round(c, kind, realm, authid, secret, pub, priv)
	for n := r.Intn(8); n > 5; n-- { // the same user again, whom the router may judge differently now
		c.Feat("again")
		switch r.Intn(6) {
		case 0:
			realm = genIdent(r)
		case 1:
			authid = genIdent(r)
		case 2:
			secret = genIdent(r) + "s"
		}
		a02round(c, kind, realm, authid, secret, pub, priv)
	}
}

// a02response checks that what an authenticator grants is what it says it grants.
func a02response(c *C) {
	r := c.R
	c.Feat("response")
	id, role, secret, salt := genIdent(r), genIdent(r), genIdent(r), genIdent(r)
	ttl := time.Duration(r.U64() >> uint(r.Intn(64)))
	iter, kl := r.Intn(5000), r.Intn(100)
	plain, err := auth.NewResponse(id, role, ttl)
	c.Check(err == nil, "response", "NewResponse: %v", err)
	cra, ok := auth.NewCRAResponse(id, role, secret, ttl).(*auth.CRAResponse)
	c.Check(ok, "response", "NewCRAResponse is no CRA response")
	salted, ok := auth.NewCRAResponseSalted(id, role, secret, salt, iter, kl, ttl).(*auth.CRAResponse)
	c.Check(ok, "response", "NewCRAResponseSalted is no CRA response")
	for _, x := range []auth.Response{plain, cra, salted} {
		c.Check(x.AuthID() == id && x.AuthRole() == role && x.TTL() == ttl, "response", "%T for %q, %q, %v says %q, %q, %v", x, id, role, ttl, x.AuthID(), x.AuthRole(), x.TTL())
	}
	c.Check(cra.Secret() == secret && cra.Salt() == "", "response", "CRA response for secret %q says %q, salt %q", secret, cra.Secret(), cra.Salt())
	c.Check(salted.Secret() == secret && salted.Salt() == salt && salted.Iterations() == iter && salted.KeyLen() == kl, "response",
		"CRA response for %q %q %d %d says %q %q %d %d", secret, salt, iter, kl, salted.Secret(), salted.Salt(), salted.Iterations(), salted.KeyLen())
}

// a02round is one handshake of a user.
func a02round(c *C, kind int, realm, authid, secret, pub string, priv ed25519.PrivateKey) {
	r := c.R
	gotID, gotRole := genIdent(r), genIdent(r)
	if r.P(10) {
		a02response(c)
	}
	// what the authenticator allows, and whom it approves
	listed := []auth.Method{}
	for _, m := range allMethods {
		if r.P(65) {
			listed = append(listed, m)
		}
	}
	shuffle(r, listed)
	refuse := r.P(35)
	wrongType := r.P(3)
	sloppy := r.P(40)
	ra := &recAuth{methods: listed, decide: func(a authCall) (auth.Response, error) {
		if refuse || (a.method == auth.Ticket && a.ticket != secret) {
			if sloppy { // what comes with an error is no approval
				if a.method == auth.WAMPCRA {
					return auth.NewCRAResponse(gotID, gotRole, secret, 0), errors.New("refused")
				}
				resp, _ := auth.NewResponse(gotID, gotRole, 0)
				return resp, errors.New("refused")
			}
			return nil, errors.New("refused")
		}
		if a.method == auth.WAMPCRA && !wrongType {
			return auth.NewCRAResponse(gotID, gotRole, secret, 0), nil
		}
		return auth.NewResponse(gotID, gotRole, 0)
	}}
	k := &client{c: c, kind: kind, acc: wampproto.NewAcceptor(serializerOf(kind), ra), auth: ra}
	offered := []string{}
	for i := r.Intn(4); i > 0; i-- {
		offered = append(offered, pick(r, []string{"anonymous", "ticket", "wampcra", "cryptosign", "ticket", "cookie", "tls", "Anonymous", ""}))
	}
	extra := map[string]any{"n": int64(r.Intn(5)), "s": genString(r)}
	hasKey := r.P(85)
	if hasKey {
		extra["pubkey"] = pub
	}
	c.Logf("offers %q, router lists %q, refuse=%v", offered, listed, refuse)
	k.noSession("nothing was sent")

	judge := func(reply []any, step int, ticket string) bool {
		// every consultation carries exactly what the client sent
		for _, a := range ra.calls {
			if a.step != step {
				continue
			}
			c.Check(a.realm == realm, "request", "authenticator asked about realm %q, client sent %q", a.realm, realm)
			c.Check(a.authid == authid, "request", "authenticator asked about authid %q, client sent %q", a.authid, authid)
			c.Check(equalValues(a.extra, extra), "request", "authenticator asked with extra %s, client sent %s", show(a.extra), show(extra))
			isListed, isOffered := false, len(offered) == 0 && a.method == auth.Anonymous
			for _, m := range listed {
				isListed = isListed || m == a.method
			}
			for _, m := range offered {
				isOffered = isOffered || auth.Method(m) == a.method
			}
			c.Check(isListed, "unlisted", "authenticator was consulted for %q but lists %q", a.method, listed)
			c.Check(isOffered, "not offered", "authenticator was consulted for %q but the client offered %q", a.method, offered)
			switch a.method {
			case auth.Ticket:
				c.Check(step > 1, "before credential", "authenticator was consulted for ticket before AUTHENTICATE")
				c.Check(a.ticket == ticket, "credential", "authenticator got ticket %q, client sent %q", a.ticket, ticket)
			case auth.CryptoSign:
				c.Check(hasKey && a.pubkey == pub, "credential", "authenticator got key %q, client sent %q (%v)", a.pubkey, pub, hasKey)
			}
		}
		if code(reply) == 2 {
			c.Feat("welcomed")
			c.Check(len(ra.calls) > 0, "unapproved", "welcomed without consulting the authenticator")
			last := ra.calls[len(ra.calls)-1]
			c.Check(last.approved, "unapproved", "welcomed although the authenticator refused")
			c.Check(step > 1 || last.method == auth.Anonymous, "before credential", "welcomed on HELLO with method %q", last.method)
			d := reply[2].(map[string]any)
			c.Check(equalValues(d["authid"], gotID) && equalValues(d["authrole"], gotRole), "identity", "approved %q/%q, welcomed as %s/%s", gotID, gotRole,
				show(d["authid"]), show(d["authrole"]))
			s, err := k.acc.SessionDetails()
			c.Check(err == nil, "details", "welcomed but no session: %v", err)
			c.Check(s.AuthID() == gotID && s.AuthRole() == gotRole && s.Realm() == realm && s.AuthMethod() == string(last.method), "identity",
				"approved %q/%q for %q by %q, session is %q/%q in %q by %q", gotID, gotRole, realm, last.method, s.AuthID(), s.AuthRole(), s.Realm(), s.AuthMethod())
			c.Feat(string(last.method))
			return true
		}
		k.noSession("not welcomed")
		for _, a := range ra.calls {
			if a.step == step && !a.approved {
				c.Feat("refused")
				c.Check(code(reply) == 3, "refusal", "authenticator refused, client got %s", show(reply))
				abortReason(c, reply)
			}
		}
		return false
	}
	reply, _, _ := k.send(helloList(realm, authid, offered, extra))
	if judge(reply, 1, "") || code(reply) != 4 {
		c.Mix(kind, show(reply), fmt.Sprint(offered, listed, refuse))
		return
	}
	chal := reply[2].(map[string]any)
	method, _ := reply[1].(string)
	c.Feat("challenged " + method)
	var sig string
	good := r.P(60)
	switch method {
	case "ticket":
		sig = secret
		if !good {
			sig = pick(r, []string{"", "wrong", secret + "x", string([]rune(secret)[1:]), strings.ToUpper(secret) + "!"})
		}
	case "wampcra":
		ch, _ := chal["challenge"].(string)
		sig = base64.StdEncoding.EncodeToString(craMAC(ch, []byte(secret)))
		if !good {
			sig = base64.StdEncoding.EncodeToString(craMAC(ch, []byte("no"+secret)))
		}
	case "cryptosign":
		ch, _ := chal["challenge"].(string)
		raw, _ := hex.DecodeString(ch)
		sig = hex.EncodeToString(ed25519.Sign(priv, raw)) + ch
		if !good {
			sig = hex.EncodeToString(ed25519.Sign(priv, append([]byte{1}, raw[:31]...))) + ch
		}
	}
	reply, _, _ = k.send([]any{5, sig, map[string]any{"authid": "mallory", "authrole": "admin", "pubkey": "00"}})
	ok := judge(reply, 2, sig)
	c.Mix(kind, method, good, show(reply), realm, authid, fmt.Sprint(offered, listed))
	approvedHere := len(ra.calls) > 0 && ra.calls[len(ra.calls)-1].approved
	if good && approvedHere && !wrongType {
		c.Check(ok, "not welcomed", "%s client with the right credential got %s", method, show(reply))
	}
	if !good {
		c.Check(!ok, "unapproved", "%s client with a wrong credential was welcomed", method)
	}
}

// ---------------------------------------------------------------- A03

func a03(c *C) {
	r := c.R
	kind := c.Case % 3
	secret, salt, iter, kl := genIdent(r)+"s", "", 0, 0
	if r.P(20) {
		secret = strings.Repeat("k", pick(r, []int{63, 64, 65, 100}))
	}
	empty := c.Case/13%8 == 3
	if empty { // a secret all the same
		c.Feat("empty secret")
		secret = ""
	}
	if r.P(55) {
		salt, iter, kl = genIdent(r)+"x", 1+r.Intn(120), pick(r, []int{1, 16, 31, 32, 33, 48, 64, 65, 100})
		c.Feat("salted")
		switch r.Intn(200) {
		case 0:
			kl = pick(r, []int{127, 128, 129, 255, 256, 257, 1000, 1025, 4097, 20000, 65536})
		case 1:
			iter, kl = pick(r, []int{999, 1000, 1001, 1025, 4097, 10001, 30000}), 32
		}
	}
	a03round(c, kind, secret, salt, iter, kl)
	if c.Case%13 < 2 || empty || !r.P(25) {
		return
	}
	// another user, whose credentials are much like the ones of the first
	c.Feat("alike")
	if salt == "" {
		salt, iter, kl = genIdent(r)+"x", 1+r.Intn(120), 32
		if r.Bool() {
			a03round(c, kind, secret, salt, iter, kl)
		}
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		whole := salt + secret
		switch r.Intn(8) {
		case 0:
			iter = iter%120 + 1
		case 1:
			kl = kl%100 + 1
		case 2, 3:
			at := 1 + r.Intn(len(whole)-2)
			for at > 1 && (!utf8.ValidString(whole[:at]) || at == len(salt)) {
				at--
			}
			salt, secret = whole[:at], whole[at:]
			if !utf8.ValidString(salt) {
				return
			}
		case 4:
			secret, salt = salt, secret
		case 5:
			salt += pick(r, []string{"0", " ", "\x00", "/", ":", "é"})
		case 6:
			secret += pick(r, []string{"0", " ", "/", ":", "é"})
		case 7: // the numbers read the same when put together
			iter, kl = pick(r, []int{1, 11, 13}), pick(r, []int{12, 21, 32})
			a03round(c, kind, secret, salt, iter, kl)
			all := fmt.Sprint(iter, kl)
			all = strings.ReplaceAll(all, " ", "")
			at := 1 + r.Intn(len(all)-1)
			iter, _ = strconv.Atoi(all[:at])
			kl, _ = strconv.Atoi(all[at:])
			if kl == 0 {
				kl = 10
			}
		}
		a03round(c, kind, secret, salt, iter, kl)
	}
}

// a03round is one user who logs in, or fails to.
func a03round(c *C, kind int, secret, salt string, iter, kl int) {
	r := c.R
	gotID, gotRole := genIdent(r), genIdent(r)
	mk := func(it, l int) func(authCall) (auth.Response, error) {
		return func(authCall) (auth.Response, error) {
			if salt != "" {
				return auth.NewCRAResponseSalted(gotID, gotRole, secret, salt, it, l, 0), nil
			}
			return auth.NewCRAResponse(gotID, gotRole, secret, 0), nil
		}
	}
	c.Mix(kind, secret, salt, iter, kl, c.Case%13)
	if c.Case%13 == 0 { // the library's client against an independent router
		c.Feat("client")
		ca := auth.NewWAMPCRAAuthenticator(genIdent(r), secret, nil)
		ch := pick(r, []string{"{\"nonce\":\"x\"}", genString(r), strings.Repeat("c", 300), "ünï"})
		extra := map[string]any{"challenge": ch}
		if salt != "" {
			extra["salt"] = salt
			extra["iterations"] = pick(r, []any{iter, int64(iter), uint64(iter), float64(iter), int32(iter), uint16(iter)})
			extra["keylen"] = pick(r, []any{kl, int64(kl), uint64(kl), float64(kl), uint8(kl), int16(kl)})
		}
		a, err := ca.Authenticate(*messages.NewChallenge("wampcra", extra))
		c.Check(err == nil && a != nil, "client", "challenge %s refused: %v", show(extra), err)
		want := base64.StdEncoding.EncodeToString(craMAC(ch, craKey(secret, salt, iter, kl)))
		c.Check(a.Signature() == want, "client", "challenge %s secret %q answered %q, want %q", show(extra), secret, a.Signature(), want)
		c.Check(auth.SignWAMPCRAChallenge(ch, []byte(secret)) == base64.StdEncoding.EncodeToString(craMAC(ch, []byte(secret))), "sign", "SignWAMPCRAChallenge(%q, %q)", ch, secret)
		c.Check(auth.VerifyWAMPCRASignature(want, ch, craKey(secret, salt, iter, kl)), "verify", "VerifyWAMPCRASignature refuses the right signature")
		if salt != "" && r.P(8) {
			iter, kl = pick(r, []int{1000, 1001, 5000, 10001, 60001}), pick(r, []int{20, 32, 64, 256})
			c.Feat("many iterations")
		}
		if salt != "" {
			c.Check(bytes.Equal(auth.DeriveWAMPCRAKey(salt, secret, iter, kl), craKey(secret, salt, iter, kl)), "derive", "DeriveWAMPCRAKey(%q, %q, %d, %d)", salt, secret, iter, kl)
		}
		return
	}
	if c.Case%13 == 1 { // library client and acceptor, any parameters
		c.Feat("both ends")
		it, l := r.Intn(40)-3, r.Intn(70)-3
		ra := &recAuth{methods: []auth.Method{auth.WAMPCRA}, decide: mk(it, l)}
		ser := serializerOf(kind)
		acc := wampproto.NewAcceptor(ser, ra)
		right := r.Bool()
		pw := secret
		if !right {
			if l > 0 && l < 8 { // short keys of different secrets may be the same
				l += 8
				ra.decide = mk(it, l)
			}
			pw = pick(r, []string{"x" + secret, "", secret + secret, strings.ToUpper(secret) + "q"})
			if pw == secret {
				pw = "x"
			}
		}
		j := wampproto.NewJoiner("r", ser, auth.NewWAMPCRAAuthenticator("me", pw, nil))
		data, err := j.SendHello()
		c.Check(err == nil, "hello", "%v", err)
		data, _, err = acc.Receive(data)
		c.Check(err == nil, "challenge", "%v", err)
		data, err = j.Receive(data)
		c.Check(err == nil, "answer", "salt %q iterations %d keylen %d: %v", salt, it, l, err)
		_, welcomed, _ := acc.Receive(data)
		c.Check(welcomed == right, "verdict", "client with right secret %v: welcomed %v (salt %q iterations %d keylen %d)", right, welcomed, salt, it, l)
		if right {
			c.Feat("right")
		} else {
			c.Feat("wrong")
		}
		return
	}
	ra := &recAuth{methods: []auth.Method{auth.WAMPCRA, auth.Ticket}, decide: mk(iter, kl)}
	start := func() (*client, string, []byte) {
		k := &client{c: c, kind: kind, acc: wampproto.NewAcceptor(serializerOf(kind), ra), auth: ra}
		reply, _, err := k.send(helloList("realm", "user", []string{"wampcra"}, nil))
		c.Check(err == nil && code(reply) == 4, "challenge", "HELLO answered with %s %v", show(reply), err)
		x := reply[2].(map[string]any)
		ch, ok := x["challenge"].(string)
		c.Check(ok && ch != "", "challenge", "challenge is %s", show(x))
		key := []byte(secret)
		if salt != "" {
			_, it, ok1 := asInteger(x["iterations"])
			_, l, ok2 := asInteger(x["keylen"])
			c.Check(equalValues(x["salt"], salt) && ok1 && ok2, "challenge", "salted user challenged with %s", show(x))
			key = craKey(secret, salt, int(it), int(l))
			c.Check(bytes.Equal(key, craKey(secret, salt, iter, kl)), "challenge", "user has salt %q iterations %d keylen %d, challenge says %s", salt, iter, kl, show(x))
		} else {
			c.Check(x["salt"] == nil, "challenge", "unsalted user challenged with %s", show(x))
		}
		return k, ch, key
	}
	old, oldCh, key := start()
	if r.P(40) { // the user has been here before
		c.Feat("known user")
		reply, welcomed, err := old.send([]any{5, base64.StdEncoding.EncodeToString(craMAC(oldCh, key)), map[string]any{}})
		c.Check(welcomed, "verdict", "right response refused: %s %v", show(reply), err)
	}
	k, ch, key := start()
	c.Check(ch != oldCh, "challenge", "same challenge twice: %q", ch)
	mac := craMAC(ch, key)
	b64 := base64.StdEncoding.EncodeToString
	attack, right := "", false
	var sig string
	switch r.Intn(16) {
	case 0, 1, 2:
		attack, right, sig = "right", true, b64(mac)
	case 3:
		attack, sig = "replay", b64(craMAC(oldCh, key))
	case 4:
		attack, sig = "other secret", b64(craMAC(ch, craKey("z"+secret, salt, iter, kl)))
	case 5:
		if salt != "" {
			attack, sig = "underived secret", b64(craMAC(ch, []byte(secret)))
		} else {
			attack, sig = "derived secret", b64(craMAC(ch, craKey(secret, "salt", 10, 32)))
		}
	case 6:
		n := r.Intn(len(mac))
		attack, sig = "truncated", b64(mac[:n])
	case 7:
		attack, sig = "extended", b64(append(append([]byte{}, mac...), r.Bytes(1+r.Intn(33))...))
	case 8:
		attack, sig = "empty", ""
	case 9:
		m := append([]byte{}, mac...)
		m[r.Intn(len(m))] ^= 1 << r.Intn(8)
		attack, sig = "bit flip", b64(m)
	case 10:
		attack, sig = "not base64", pick(r, []string{hex.EncodeToString(mac) + "g", "!" + b64(mac), "%%%", "=", b64(mac) + b64(mac), "_-_-",
			" " + b64(mac), b64(mac) + " ", "\t" + b64(mac), b64(mac) + "\x00", "\"" + b64(mac) + "\"", b64(mac)[:43], b64(mac) + "=", hex.EncodeToString(mac), strings.ToLower(b64(mac)), base64.URLEncoding.EncodeToString(mac)})
		if sig == b64(mac) {
			return
		}
	case 11:
		attack, sig = "empty key", b64(craMAC(ch, nil))
	case 12:
		attack, sig = "challenge itself", pick(r, []string{ch, b64([]byte(ch)), b64(key), secret})
	case 13:
		attack, sig = "other text", b64(craMAC(pick(r, []string{"", ch + " ", ch[1:], ch[:len(ch)-1], strings.ToUpper(ch)}), key))
	case 14:
		h := sha256.Sum256(append(append([]byte{}, key...), ch...))
		attack, sig = "plain hash", b64(h[:])
	case 15:
		kk := craKey(secret, salt, iter+1, kl)
		if salt == "" {
			kk = []byte(secret + "1")
			if secret != "" && r.Bool() {
				kk = []byte(secret[1:])
			}
		}
		attack, sig = "near key", b64(craMAC(ch, kk))
	}
	if raw, err := base64.StdEncoding.DecodeString(sig); err == nil && bytes.Equal(raw, mac) && !right {
		return // a short key that is the same by chance
	}
	c.Mix(attack)
	c.Feat("attack " + attack)
	c.Logf("secret %q salt %q iter %d keylen %d: %s %q", secret, salt, iter, kl, attack, sig)
	reply, welcomed, err := k.send([]any{5, sig, map[string]any{}})
	if right {
		c.Feat("right")
		c.Check(welcomed, "verdict", "right response refused: %s %v", show(reply), err)
		return
	}
	c.Feat("wrong")
	c.Check(!welcomed && code(reply) != 2, "verdict", "%s response was welcomed", attack)
	k.noSession(attack)
	// and a failed attempt does not let a second one in
	reply, welcomed, _ = k.send([]any{5, sig, map[string]any{}})
	c.Check(!welcomed && code(reply) != 2, "verdict", "%s response was welcomed the second time", attack)
}

// ---------------------------------------------------------------- A04

var curveOrder, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func a04(c *C) {
	r := c.R
	kind := c.Case % 3
	seed, pub, priv := keyPair(r)
	_, otherPub, other := keyPair(r)
	c.Mix(kind, seed)
	approve := func(authCall) (auth.Response, error) { return auth.NewResponse("u", "role", 0) }
	ra := &recAuth{methods: []auth.Method{auth.CryptoSign}, decide: approve}
	switch c.Case % 12 {
	case 0: // the library's client against an independent router
		c.Feat("client")
		var extra map[string]any
		if r.Bool() {
			extra = map[string]any{"pubkey": pub}
		}
		ca, err := auth.NewCryptoSignAuthenticator("u", seed, extra)
		c.Check(err == nil, "key", "valid key %s refused: %v", seed, err)
		c.Check(ca.AuthExtra()["pubkey"] == pub, "pubkey", "client announces %v, key pair has %s", ca.AuthExtra()["pubkey"], pub)
		ch := r.Bytes(32)
		a, err := ca.Authenticate(*messages.NewChallenge("cryptosign", map[string]any{"challenge": hex.EncodeToString(ch)}))
		c.Check(err == nil, "client", "%v", err)
		raw, err := hex.DecodeString(a.Signature())
		c.Check(err == nil && len(raw) == 96, "client", "answer %q", a.Signature())
		c.Check(ed25519.Verify(priv.Public().(ed25519.PublicKey), ch, raw[:64]) && bytes.Equal(raw[64:], ch), "client", "answer %q to %x is not the signature followed by the challenge", a.Signature(), ch)
		ok, err := auth.VerifyCryptoSignSignature(a.Signature(), priv.Public().(ed25519.PublicKey))
		c.Check(ok && err == nil, "verify", "VerifyCryptoSignSignature refuses it: %v", err)
		ok, _ = auth.VerifyCryptoSignSignature(a.Signature(), other.Public().(ed25519.PublicKey))
		c.Check(!ok, "verify", "VerifyCryptoSignSignature accepts it for another key")
		p, s, err := auth.GenerateCryptoSignKeyPair()
		c.Check(err == nil, "pair", "%v", err)
		sr, _ := hex.DecodeString(s)
		c.Check(len(sr) == 32 && hex.EncodeToString(ed25519.NewKeyFromSeed(sr).Public().(ed25519.PublicKey)) == p, "pair", "pair %s %s does not match", p, s)
		return
	case 1: // malformed private keys
		c.Feat("bad key")
		bad := pick(r, []string{"", "00", seed[:62], seed + "00", seed[:63], "zz" + seed[2:], seed + seed, seed[:32], " " + seed, seed[:63] + "g"})
		_, err := auth.NewCryptoSignAuthenticator("u", bad, nil)
		c.Check(err != nil, "key", "malformed private key %q accepted", bad)
		_, err = auth.NewCryptoSignAuthenticator("u", seed, map[string]any{"pubkey": otherPub})
		c.Check(err != nil, "key", "private key %s accepted with public key %s", seed, otherPub)
		// malformed public keys and signatures
		n := pick(r, []int{0, 1, 16, 31, 33, 64})
		ok, _ := auth.VerifyCryptoSignSignature(hex.EncodeToString(r.Bytes(96)), r.Bytes(n))
		c.Check(!ok, "key", "public key of %d bytes verified", n)
		raw := r.Bytes(32)
		sig := ed25519.Sign(priv, raw)
		ok, _ = auth.VerifyCryptoSignSignature(pick(r, []string{"", "zz", hex.EncodeToString(sig), hex.EncodeToString(sig[:63]) + hex.EncodeToString(raw),
			hex.EncodeToString(sig) + hex.EncodeToString(raw) + "00", hex.EncodeToString(sig) + hex.EncodeToString(raw)[1:]}), priv.Public().(ed25519.PublicKey))
		c.Check(!ok, "shape", "malformed signature verified")
		return
	case 2: // malformed announced keys
		c.Feat("bad key")
		k := &client{c: c, kind: kind, acc: wampproto.NewAcceptor(serializerOf(kind), ra), auth: ra}
		var bad any = pick(r, []any{"", "00", pub[:62], pub + "00", pub[:63], "zz" + pub[2:], 5, nil, []any{pub}, true, map[string]any{}, pub + pub, pub[:63] + "x"})
		extra := map[string]any{"pubkey": bad}
		if r.P(10) {
			extra = nil
		}
		reply, welcomed, _ := k.send(helloList("r", "u", []string{"cryptosign"}, extra))
		c.Check(!welcomed, "verdict", "welcomed with key %s", show(bad))
		if code(reply) == 4 {
			ch, _ := reply[2].(map[string]any)["challenge"].(string)
			raw, _ := hex.DecodeString(ch)
			_, welcomed, _ = k.send([]any{5, hex.EncodeToString(ed25519.Sign(priv, raw)) + ch, map[string]any{}})
			c.Check(!welcomed, "verdict", "welcomed with key %s", show(bad))
		}
		k.noSession("bad key")
		return
	case 3: // both ends from the library
		c.Feat("right")
		ser := serializerOf(kind)
		acc := wampproto.NewAcceptor(ser, ra)
		// the extra data of the user may serve for several keys
		extra := map[string]any{"device": int64(1)}
		otherSeed := hex.EncodeToString(other.Seed())
		oa, err := auth.NewCryptoSignAuthenticator("u", otherSeed, extra)
		c.Check(err == nil, "key", "%v", err)
		ca, err := auth.NewCryptoSignAuthenticator("u", seed, extra)
		c.Check(err == nil, "key", "key refused with extra data that was used for another key before: %v", err)
		c.Check(oa.AuthExtra()["pubkey"] == otherPub && ca.AuthExtra()["pubkey"] == pub, "pubkey", "clients announce %v and %v, key pairs have %s and %s",
			oa.AuthExtra()["pubkey"], ca.AuthExtra()["pubkey"], otherPub, pub)
		j := wampproto.NewJoiner("r", ser, ca)
		data, err := j.SendHello()
		c.Check(err == nil, "hello", "%v", err)
		data, _, err = acc.Receive(data)
		c.Check(err == nil, "challenge", "%v", err)
		data, err = j.Receive(data)
		c.Check(err == nil, "answer", "%v", err)
		_, welcomed, err := acc.Receive(data)
		c.Check(welcomed && err == nil, "verdict", "rightful key holder refused: %v", err)
		return
	}
	announced := pub
	if r.P(10) { // the same key
		c.Feat("upper case")
		announced = strings.ToUpper(pub)
	}
	start := func() (*client, string, []byte) {
		k := &client{c: c, kind: kind, acc: wampproto.NewAcceptor(serializerOf(kind), ra), auth: ra}
		reply, _, err := k.send(helloList("r", "u", []string{"cryptosign"}, map[string]any{"pubkey": announced}))
		c.Check(err == nil && code(reply) == 4, "challenge", "HELLO answered with %s %v", show(reply), err)
		ch, _ := reply[2].(map[string]any)["challenge"].(string)
		raw, err := hex.DecodeString(ch)
		c.Check(err == nil && len(raw) == 32, "challenge", "challenge %q", ch)
		return k, ch, raw
	}
	sign := func(key ed25519.PrivateKey, m []byte) string { return hex.EncodeToString(ed25519.Sign(key, m)) }
	old, oldCh, oldRaw := start()
	if r.P(40) { // the key's holder has been here before
		c.Feat("known key")
		reply, welcomed, err := old.send([]any{5, sign(priv, oldRaw) + oldCh, map[string]any{}})
		c.Check(welcomed, "verdict", "rightful key holder refused: %s %v", show(reply), err)
	}
	k, ch, raw := start()
	c.Check(ch != oldCh, "challenge", "same challenge twice")
	attack, right, sig := "", false, ""
	switch r.Intn(18) {
	case 0, 1, 2:
		attack, right, sig = "right", true, sign(priv, raw)+ch
		if r.P(15) { // written differently
			sig = strings.ToUpper(sig)
		}
	case 3:
		attack, sig = "replay", sign(priv, oldRaw)+oldCh
	case 4:
		attack, sig = "replay under this challenge", sign(priv, oldRaw)+ch
	case 5:
		attack, sig = "signature followed by another challenge", sign(priv, raw)+oldCh
	case 6:
		attack, sig = "other key", sign(other, raw)+ch
	case 7:
		attack, sig = "signature only", sign(priv, raw)
	case 8:
		x := sign(priv, raw) + ch
		attack, sig = "truncated", x[:r.Intn(len(x))]
	case 9:
		attack, sig = "extended", sign(priv, raw)+ch+pick(r, []string{"0", "00", ch, "zz"})
	case 10:
		b, _ := hex.DecodeString(sign(priv, raw) + ch)
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		attack, sig = "bit flip", hex.EncodeToString(b)
	case 11:
		attack, sig = "empty", ""
	case 12:
		attack, sig = "not hex", pick(r, []string{strings.Repeat("z", 192), base64.StdEncoding.EncodeToString(ed25519.Sign(priv, raw)), " " + sign(priv, raw) + ch, "0x" + sign(priv, raw) + ch})
	case 13:
		attack, sig = "signed the text", sign(priv, []byte(ch))+ch
	case 14:
		m := append([]byte{}, raw...)
		m[r.Intn(32)] ^= 1 << r.Intn(8)
		attack, sig = "own message", sign(priv, m)+hex.EncodeToString(m)
	case 15:
		attack, sig = "zeros", strings.Repeat("00", 64)+ch
	case 16: // the second root of the same equation: not a valid Ed25519 signature
		s := ed25519.Sign(priv, raw)
		be := make([]byte, 32)
		for i := range be {
			be[31-i] = s[32+i]
		}
		n := new(big.Int).Add(new(big.Int).SetBytes(be), curveOrder)
		nb := n.FillBytes(make([]byte, 32))
		for i := range nb {
			s[32+i] = nb[31-i]
		}
		attack, sig = "malleated", hex.EncodeToString(s)+ch
	case 17:
		attack, sig = "challenge first", ch+sign(priv, raw)
	}
	c.Mix(attack)
	c.Feat("attack " + attack)
	c.Logf("%s %s", attack, sig)
	reply, welcomed, err := k.send([]any{5, sig, map[string]any{"pubkey": otherPub}})
	if right {
		c.Feat("right")
		c.Check(welcomed, "verdict", "rightful key holder refused: %s %v", show(reply), err)
		return
	}
	c.Feat("wrong")
	c.Check(!welcomed && code(reply) != 2, "verdict", "%s was welcomed", attack)
	k.noSession(attack)
}

// ---------------------------------------------------------------- A05

func a05(c *C) {
	r := c.R
	kind := c.Case % 3
	ser := &failing{Serializer: serializerOf(kind)}
	listed := append([]auth.Method{}, allMethods...)
	shuffle(r, listed)
	listed = listed[:1+r.Intn(4)]
	_, pub, priv := keyPair(r)
	refuse := r.P(20)
	ra := &recAuth{methods: listed, decide: func(a authCall) (auth.Response, error) {
		if refuse {
			return nil, errors.New("refused")
		}
		if a.method == auth.WAMPCRA {
			return auth.NewCRAResponse("a", "b", "secret", 0), nil
		}
		return auth.NewResponse("a", "b", 0)
	}}
	acc := wampproto.NewAcceptor(ser, ra)
	const (
		none = iota
		challenged
		ended
	)
	state, welcomes, method, ch := none, 0, "", ""
	var sidSeen uint64
	var script []string
	for i := 3 + r.Intn(10); i > 0; i-- {
		var m messages.Message
		var data []byte
		isBytes := false
		x := r.Intn(10)
		if state == challenged && r.P(40) {
			x = 4
		}
		switch x {
		case 0, 1, 2, 3:
			var ms []string
			for n := r.Intn(3); n >= 0; n-- {
				ms = append(ms, pick(r, []string{"anonymous", "ticket", "wampcra", "cryptosign", "cryptosign", "nope"}))
			}
			extra := map[string]any{"pubkey": pub}
			if r.P(15) {
				extra = pick(r, []map[string]any{nil, {}, {"pubkey": 1}, {"pubkey": ""}, {"pubkey": "abc"}})
			}
			m = messages.NewHello("realm", "u", extra, map[string]any{}, ms)
		case 4, 5:
			sig := pick(r, []string{"", "x", "secret"})
			if r.P(50) {
				switch method {
				case "wampcra":
					sig = base64.StdEncoding.EncodeToString(craMAC(ch, []byte("secret")))
				case "cryptosign":
					raw, _ := hex.DecodeString(ch)
					sig = hex.EncodeToString(ed25519.Sign(priv, raw)) + ch
				}
			}
			m = messages.NewAuthenticate(sig, map[string]any{})
		case 6, 7:
			t := pick(r, mtypes)
			m = t.build(genV(r, t, kind))
		default:
			isBytes = true
			c.Feat("bytes")
			switch r.Intn(3) {
			case 0:
				data = r.Bytes(r.Intn(30))
			case 1:
				t := pick(r, mtypes[:5])
				data = encodeWire(kind, breakList(r, t, t.wireList(genV(r, t, kind)), kind), wireOpts{r})
			default:
				t := pick(r, mtypes[:5])
				data = encodeWire(kind, t.wireList(genV(r, t, kind)), wireOpts{r})
				data = data[:r.Intn(len(data)+1)]
			}
		}
		if isBytes {
			// whatever the bytes decode to is what was sent
			if dm, err := ser.Deserialize(append([]byte(nil), data...)); err == nil {
				m = dm
			}
		}
		name := "garbage"
		if m != nil {
			name = mtypeByCode[m.Type()].name
		}
		var out messages.Message
		var err error
		welcomed := false
		if isBytes || r.P(40) {
			if !isBytes {
				data, err = ser.Serialize(m)
				c.Check(err == nil, "serialize", "%v", err)
			}
			var reply []byte
			ser.refuse = r.P(2)
			reply, welcomed, err = acc.Receive(data)
			if ser.refuse {
				c.Feat("unsendable reply")
				c.Check(err != nil && len(reply) == 0 && !welcomed, "unsendable", "%v: the reply to %s cannot be serialized: got %q welcomed %v error %v", script, name, reply, welcomed, err)
				return
			}
			if err == nil {
				out, err = ser.Deserialize(reply)
				c.Check(err == nil, "reply", "reply %x is unreadable: %v", reply, err)
				c.Check(welcomed == (out.Type() == messages.MessageTypeWelcome), "welcomed", "welcomed=%v with a %s", welcomed, mtypeByCode[out.Type()].name)
			} else {
				c.Check(len(reply) == 0 && !welcomed, "reply with error", "error %v came with reply %x welcomed %v", err, reply, welcomed)
			}
		} else {
			out, err = acc.ReceiveMessage(m)
			c.Check(err == nil || nilMsg(out), "reply with error", "error %v came with a reply %v", err, out)
			c.Check(err != nil || !nilMsg(out), "reply", "%s: neither reply nor error", name)
		}
		got := "error"
		if err == nil {
			got = mtypeByCode[out.Type()].name
		}
		step := fmt.Sprintf("%s->%s", name, got)
		script = append(script, step)
		c.Logf("%s", step)
		if state == ended {
			c.Feat("after the end")
			c.Check(err != nil, "after the end", "%v: after the handshake ended, %s was answered with %s", script, name, got)
		}
		if err == nil {
			switch name {
			case "HELLO":
				c.Check(state == none, "hello", "%v: HELLO was processed although it was not the first step", script)
			case "AUTHENTICATE":
				c.Check(state == challenged, "authenticate", "%v: AUTHENTICATE was processed without an outstanding CHALLENGE", script)
			default:
				c.Fail("unexpected", "%v: %s was answered with %s", script, name, got)
			}
			switch got {
			case "WELCOME":
				welcomes++
				c.Feat("welcomed")
				c.Check(welcomes == 1, "two welcomes", "%v", script)
				state = ended
				sidSeen = out.(*messages.Welcome).SessionID()
			case "ABORT":
				c.Feat("aborted")
				state = ended
			case "CHALLENGE":
				c.Check(name == "HELLO", "challenge", "%v: %s answered with CHALLENGE", script, name)
				state = challenged
				x := out.(*messages.Challenge)
				method = x.AuthMethod()
				ch, _ = x.Extra()["challenge"].(string)
			default:
				c.Fail("reply", "%v: acceptor sent %s", script, got)
			}
		} else if name == "HELLO" && state != none {
			c.Feat("hello twice")
		}
		d, derr := acc.SessionDetails()
		if welcomes == 0 {
			c.Check(derr != nil && d == nil, "early session", "%v: session reported without WELCOME", script)
		} else {
			c.Check(derr == nil && d.ID() == sidSeen, "session", "%v: WELCOME said %d, session is %v", script, sidSeen, d)
		}
	}
	c.Mix(kind, strings.Join(script, " "), method)
}

// ---------------------------------------------------------------- A06

// absurd makes challenge parameters nobody should send; it never asks for much work.
func absurd(r *Rand, kind int) any {
	vals := []any{nil, true, "", "x", "ffff", -1, 0, 1, 7, 32, 33, 1000, -1 << 40, int64(-1 << 63), 2.5, -0.0, 1.0, []any{}, []any{1}, map[string]any{}, map[string]any{"a": 1},
		"12", "zz", strings.Repeat("ab", 32), strings.Repeat("ab", 31), strings.Repeat("a", 63), int8(-128), uint16(300)}
	if kind != kJSON {
		vals = append(vals, []byte{1, 2}, []byte{})
	}
	return pick(r, vals)
}

func a06(c *C) {
	r := c.R
	kind := c.Case % 3
	ser := &failing{Serializer: serializerOf(kind)}
	realm := genIdent(r)
	seed, _, _ := keyPair(r)
	var ca auth.ClientAuthenticator
	am := pick(r, []string{"anonymous", "ticket", "wampcra", "wampcra", "cryptosign", "cryptosign"})
	switch am {
	case "anonymous":
		ca = auth.NewAnonymousAuthenticator("u", nil)
	case "ticket":
		ca = auth.NewTicketAuthenticator("u", "t", nil)
	case "wampcra":
		ca = auth.NewWAMPCRAAuthenticator("u", "s", nil)
	default:
		ca, _ = auth.NewCryptoSignAuthenticator("u", seed, nil)
	}
	j := wampproto.NewJoiner(realm, ser, ca)
	helloSent, answered, joined, aborted := false, false, false, false
	var session uint64
	var script []string
	for i := 3 + r.Intn(9); i > 0; i-- {
		if !helloSent && r.P(70) {
			if r.P(2) {
				c.Feat("unsendable hello")
				ser.refuse = true
				b, err := j.SendHello()
				c.Check(err != nil && len(b) == 0, "unsendable", "HELLO cannot be serialized: got %q error %v", b, err)
				_, derr := j.SessionDetails()
				c.Check(derr != nil, "session", "a session is reported though HELLO was not sent")
				ser.refuse = false
				continue
			}
			b, err := j.SendHello()
			c.Check(err == nil && len(b) > 0, "hello", "%v", err)
			raw, err := decodeWire(kind, b)
			c.Check(err == nil && code(raw.([]any)) == 1 && equalValues(raw.([]any)[1], realm), "hello", "HELLO is %s", show(raw))
			helloSent = true
			script = append(script, "hello")
			continue
		}
		if !helloSent {
			c.Feat("before hello")
		}
		var m messages.Message
		var data []byte
		isBytes := false
		switch r.Intn(10) {
		case 0, 1, 2:
			d := map[string]any{"realm": realm, "authid": "u", "authrole": "r", "authmethod": am, "roles": map[string]any{"broker": map[string]any{}}}
			for _, k := range []string{"realm", "authid", "authrole", "authmethod", "roles"} {
				if r.P(8) {
					delete(d, k)
				} else if r.P(8) {
					d[k] = absurd(r, kind)
				}
			}
			m = messages.NewWelcome(r.ID1(), d)
		case 3, 4, 5:
			x := map[string]any{"challenge": strings.Repeat("c0", 32)}
			if r.P(40) {
				x["salt"], x["iterations"], x["keylen"] = "salt", 10, 32
			}
			if r.P(60) {
				c.Feat("absurd challenge")
				for _, k := range []string{"challenge", "salt", "iterations", "keylen"} {
					switch r.Intn(3) {
					case 0:
						x[k] = absurd(r, kind)
					case 1:
						delete(x, k)
					}
				}
				if r.P(10) {
					x["salt"] = "s"
					x["iterations"] = 1
					x["keylen"] = pick(r, []any{1 << 17, 1 << 33, 1 << 40, uint64(1) << 62, 1e15, -1e15, 1e300, -1e300})
					if kind != kJSON && r.P(30) {
						x["keylen"] = pick(r, []any{uint64(1) << 63, uint64(1<<64 - 1)})
					}
				}
			}
			m = messages.NewChallenge(pick(r, []string{am, am, am, "anonymous", "ticket", "wampcra", "cryptosign", "nope", ""}), x)
			if r.P(5) {
				m = messages.NewChallenge(am, nil)
			}
		case 6:
			a, k := genArgs(r, kind)
			m = messages.NewAbort(genDict(r, kind), genURI(r), a, k)
		case 7, 8:
			t := pick(r, mtypes)
			m = t.build(genV(r, t, kind))
		default:
			isBytes = true
			t := pick(r, mtypes[:5])
			data = encodeWire(kind, breakList(r, t, t.wireList(genV(r, t, kind)), kind), wireOpts{r})
			if r.P(40) {
				data = r.Bytes(r.Intn(30))
			}
			if dm, err := ser.Deserialize(append([]byte(nil), data...)); err == nil {
				m = dm
			}
		}
		name := "garbage"
		if m != nil {
			name = mtypeByCode[m.Type()].name
			if m.Type() == messages.MessageTypeChallenge {
				// a router can always make a client work hard; the monitors do not wait for it
				if n, ok := canon(m.(*messages.Challenge).Extra()["iterations"]).(number); ok && len(n.v) > 5 && !strings.HasPrefix(n.v, "-") {
					continue
				}
			}
		}
		var out messages.Message
		var err error
		if isBytes || r.P(50) {
			if !isBytes {
				if data, err = ser.Serialize(m); err != nil {
					continue
				}
			}
			var reply []byte
			ser.refuse = r.P(3) && name == "CHALLENGE"
			reply, err = j.Receive(data)
			if ser.refuse {
				c.Feat("unsendable reply")
				_, derr := j.SessionDetails()
				c.Check(err != nil && len(reply) == 0 && (derr == nil) == joined, "unsendable", "%v: the answer to CHALLENGE cannot be serialized: got %q error %v", script, reply, err)
				return
			}
			if err == nil && len(reply) > 0 {
				out, err = ser.Deserialize(reply)
				c.Check(err == nil, "reply", "reply %x is unreadable: %v", reply, err)
			} else {
				c.Check(len(reply) == 0, "reply with error", "error %v came with reply %x", err, reply)
			}
		} else {
			out, err = j.ReceiveMessage(m)
			c.Check(err == nil || nilMsg(out), "reply with error", "error %v came with a reply", err)
		}
		got := "ok"
		if err != nil {
			got = "error"
		} else if !nilMsg(out) {
			got = mtypeByCode[out.Type()].name
		}
		script = append(script, name+"->"+got)
		c.Logf("%s->%s %v", name, got, err)
		d, derr := j.SessionDetails()
		has := derr == nil && d != nil
		switch name {
		case "WELCOME":
			if joined {
				c.Feat("second welcome")
				c.Check(err != nil, "second welcome", "%v: a second WELCOME was accepted", script)
			} else if aborted {
				c.Feat("welcome after abort")
				c.Check(err != nil && !has, "welcome after abort", "%v: WELCOME after ABORT was accepted", script)
			} else if !helloSent {
				c.Check(err != nil && !has, "before hello", "%v: WELCOME before HELLO was accepted", script)
			} else {
				c.Check(err == nil && nilMsg(out), "welcome", "%v: WELCOME was not accepted: %v", script, err)
				c.Check(has, "welcome", "%v: no session after WELCOME", script)
				joined = true
				session = m.(*messages.Welcome).SessionID()
				c.Feat("joined")
			}
		case "CHALLENGE":
			if err == nil {
				c.Check(helloSent && !joined && !aborted, "challenge", "%v: CHALLENGE was answered", script)
				c.Check(!answered, "second challenge", "%v: a second CHALLENGE was answered", script)
				c.Check(got == "AUTHENTICATE", "challenge", "%v: CHALLENGE answered with %s", script, got)
				answered = true
				c.Feat("challenge answered")
			} else if answered {
				c.Feat("second challenge")
			}
		case "ABORT":
			c.Check(err != nil, "abort", "%v: ABORT is no error", script)
			c.Check(strings.Contains(err.Error(), m.(*messages.Abort).Reason()), "abort", "%v: error %q does not tell the reason %q", script, err, m.(*messages.Abort).Reason())
			for _, a := range m.(*messages.Abort).Args() {
				if text, is := a.(string); is && len(text) < 1000 {
					c.Feat("reason explained")
					c.Check(strings.Contains(err.Error(), text), "abort", "%v: error %q does not tell what the router said: %q", script, err, text)
				}
			}
			for k, a := range m.(*messages.Abort).KwArgs() {
				if text, is := a.(string); is && len(text) < 1000 && len(k) < 1000 {
					c.Feat("reason explained")
					c.Check(strings.Contains(err.Error(), text) && strings.Contains(err.Error(), k), "abort", "%v: error %q does not tell what the router said: %q %q", script, err, k, text)
				}
			}
			if helloSent && !joined {
				aborted = true
				c.Feat("aborted")
			}
			if !helloSent {
				// nothing was asked for yet: what follows is not prescribed
				c.Mix(kind, strings.Join(script, " "), am)
				return
			}
		default:
			c.Check(err != nil, "unexpected", "%v: %s was accepted", script, name)
		}
		c.Check(has == joined, "session", "%v: joined %v, session reported %v", script, joined, has)
		if joined {
			c.Check(d.ID() == session && d.Realm() == realm, "session", "%v: joined session %d, reported %d", script, session, d.ID())
		}
	}
	c.Mix(kind, strings.Join(script, " "), am)
}

// ---------------------------------------------------------------- A07

func a07(c *C) {
	r := c.R
	kind := c.Case % 3
	names := []string{"anonymous", "ticket", "wampcra", "cryptosign", "anonymous", "ticket", "cookie", "Ticket", "scram", "wampcr", "wampcraa", " anonymous"}
	var allowed []auth.Method
	seen := map[string]bool{}
	for i := r.Intn(6); i > 0; i-- {
		n := names[r.Intn(6)]
		if r.P(10) {
			n = pick(r, names)
		}
		allowed = append(allowed, auth.Method(n))
		seen[n] = true
	}
	var offered []string
	if !r.P(15) {
		offered = []string{}
		for i := r.Intn(5); i > 0; i-- {
			offered = append(offered, pick(r, names))
		}
		if r.Intn(100) == 0 { // a long way to the first that will do
			c.Feat("long list")
			n := pick(r, []int{5, 10, 20, 33, 65, 130, 300, 1100, 70000})
			long := make([]string, 0, n+len(offered))
			for i := 0; i < n; i++ {
				long = append(long, "m"+fmt.Sprint(i))
			}
			offered = append(long, offered...)
		}
		if r.Intn(100) == 0 {
			c.Feat("long list")
			n := pick(r, []int{5, 10, 20, 33, 65, 130, 300, 1100})
			long := make([]auth.Method, 0, n+len(allowed))
			for i := 0; i < n; i++ {
				long = append(long, auth.Method("n"+fmt.Sprint(i)))
			}
			allowed = append(long, allowed...)
		}
	}
	want := ""
	list := offered
	if len(list) == 0 {
		list = []string{"anonymous"}
		c.Feat("empty list")
	}
	for _, o := range list {
		if seen[o] {
			want = o
			break
		}
	}
	if r.P(8) { // lists that read alike
		c.Feat("alike")
		x, y := pick(r, names)+fmt.Sprint(r.Intn(20)), pick(r, names)
		both := x + pick(r, []string{" ", ",", ", ", "|", "/", "", ":", "\x00", "] ["}) + y
		a := append([]auth.Method{auth.Method(both), auth.Method(y)}, allowed...)
		for _, l := range perm2(r) {
			o, w := []string{x, y}, y
			if l == 1 {
				o, w = []string{both}, both
			}
			got, err := auth.SelectAuthMethod(a, o)
			c.Check(err == nil && string(got) == w || seen[x] && l == 0, "selected", "allowed %q, offered %q: %q selected, want %q (%v)", a, o, got, w, err)
		}
		// and an allowed list that reads alike
		for _, l := range perm2(r) {
			a, w := []auth.Method{auth.Method(x), auth.Method(y)}, y
			if l == 1 {
				a, w = []auth.Method{auth.Method(both)}, both
			}
			got, err := auth.SelectAuthMethod(a, []string{both, y})
			c.Check(err == nil && string(got) == w, "selected", "allowed %q, offered %q: %q selected, want %q (%v)", a, []string{both, y}, got, w, err)
		}
	}
	c.Mix(fmt.Sprint(allowed), strings.Join(offered, "|"), kind)
	c.Logf("allowed %q offered %q want %q", allowed, offered, want)
	keepA, keepO := fmt.Sprint(allowed), fmt.Sprint(offered)
	got, err := auth.SelectAuthMethod(allowed, offered)
	c.Check(fmt.Sprint(allowed) == keepA && fmt.Sprint(offered) == keepO, "changed", "SelectAuthMethod changed its arguments")
	if want == "" {
		c.Feat("none")
		c.Check(err != nil, "selected", "allowed %q, offered %q: %q was selected", allowed, offered, got)
	} else {
		c.Feat("selected")
		c.Check(err == nil && string(got) == want, "selected", "allowed %q, offered %q: %q selected, want %q (%v)", allowed, offered, got, want, err)
	}
	// the same through a handshake
	c.Feat("through acceptor")
	ra := &recAuth{methods: allowed, decide: func(a authCall) (auth.Response, error) {
		if a.method == auth.WAMPCRA {
			return auth.NewCRAResponse("a", "b", "secret", 0), nil
		}
		return auth.NewResponse("a", "b", 0)
	}}
	_, pub, _ := keyPair(r)
	k := &client{c: c, kind: kind, acc: wampproto.NewAcceptor(serializerOf(kind), ra), auth: ra}
	reply, _, err := k.send(helloList("r", "u", offered, map[string]any{"pubkey": pub}))
	for _, a := range ra.calls {
		c.Check(string(a.method) == want, "used", "allowed %q, offered %q: authenticator consulted for %q, want %q", allowed, offered, a.method, want)
	}
	switch {
	case want == "":
		c.Check(err == nil && code(reply) == 3, "abort", "allowed %q, offered %q: no method in common, got %s %v", allowed, offered, show(reply), err)
		abortReason(c, reply)
	case want == "anonymous":
		c.Check(code(reply) == 2 && equalValues(reply[2].(map[string]any)["authmethod"], "anonymous"), "used", "allowed %q, offered %q: got %s", allowed, offered, show(reply))
	case want == "ticket" || want == "wampcra" || want == "cryptosign":
		c.Check(code(reply) == 4 && equalValues(reply[1], want), "used", "allowed %q, offered %q: got %s, want a %s challenge", allowed, offered, show(reply), want)
	default:
		// a method the library does not implement
		c.Check(code(reply) != 2 && code(reply) != 4, "used", "allowed %q, offered %q: got %s", allowed, offered, show(reply))
	}
}
