package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
)

func init() {
	register(&Prop{ID: "A09", Quick: 12000, Thoro: 800000, Case: a09,
		Rule: "handshakes of every method with honest and hostile peers; every byte and string of every message and error is searched for the secrets in all their forms; distinct = different conversation",
		Need: map[string]int64{"ticket": 500, "wampcra": 500, "cryptosign": 500, "honest": 2000, "hostile router": 2000, "hostile client": 2000, "salted": 500,
			"strings searched": 50000, "ticket seen in AUTHENTICATE": 500, "welcomed": 1500}})
}

// forms are the ways in which a secret would still be one.
func forms(secret []byte) [][]byte {
	h := hex.EncodeToString(secret)
	l := [][]byte{secret, []byte(h), []byte(strings.ToUpper(h)), []byte(base64.RawStdEncoding.EncodeToString(secret)), []byte(base64.RawURLEncoding.EncodeToString(secret))}
	rev := make([]byte, len(secret))
	for i, b := range secret {
		rev[len(secret)-1-i] = b
	}
	return append(l, rev)
}

// leak is what must not be in what is searched.
type leak struct {
	what  string
	forms [][]byte
}

func secretOf(what string, secret []byte) leak { return leak{what, forms(secret)} }

// search looks for leaks in everything that can be read out of a value.
func (c *C) search(where string, v any, leaks []leak, allowed func(path string) bool, path string, depth int) {
	look := func(b []byte) {
		c.Feat("strings searched")
		for _, l := range leaks {
			for i, f := range l.forms {
				if bytes.Contains(b, f) && !allowed(path) {
					c.Fail("leak", "%s%s contains %s (form %d): %q", where, path, l.what, i, b)
				}
			}
		}
	}
	switch x := v.(type) {
	case string:
		look([]byte(x))
		if depth < 3 {
			for _, e := range []func(string) ([]byte, error){base64.StdEncoding.DecodeString, base64.RawStdEncoding.DecodeString, base64.RawURLEncoding.DecodeString, hex.DecodeString} {
				if b, err := e(x); err == nil && len(b) > 0 {
					c.search(where, string(b), leaks, allowed, path, depth+1)
				}
			}
		}
	case []byte:
		c.search(where, string(x), leaks, allowed, path, depth)
	case []any:
		for i, e := range x {
			c.search(where, e, leaks, allowed, fmt.Sprintf("%s[%d]", path, i), depth)
		}
	case map[string]any:
		for _, k := range sortedKeys(x, wireOpts{}) {
			c.search(where, k, leaks, allowed, path+".key", depth)
			c.search(where, x[k], leaks, allowed, path+"."+k, depth)
		}
	}
}

// word is a secret that nothing contains by chance.
func word(r *Rand, n int) string {
	const letters = "abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[r.Intn(len(letters))]
	}
	return string(b)
}

func a09(c *C) {
	r := c.R
	kind := c.Case % 3
	method := []auth.Method{auth.Ticket, auth.WAMPCRA, auth.CryptoSign}[(c.Case/3)%3]
	mode := pick(r, []string{"honest", "hostile router", "hostile client"})
	c.Feat(string(method))
	c.Feat(mode)
	secret := word(r, 14+r.Intn(40))
	seed, pub, priv := keyPair(r)
	raw, _ := hex.DecodeString(seed)
	realm, authid := "realm"+fmt.Sprint(r.Intn(9)), "user"+fmt.Sprint(r.Intn(99))
	salt, iter, kl := "", 0, 0
	var leaks []leak
	switch method {
	case auth.Ticket:
		leaks = append(leaks, secretOf("the ticket", []byte(secret)))
	case auth.WAMPCRA:
		leaks = append(leaks, secretOf("the secret", []byte(secret)))
		if r.Bool() {
			c.Feat("salted")
			salt, iter, kl = "salt"+fmt.Sprint(r.Intn(9)), 1+r.Intn(30), 16+r.Intn(40)
			key := pbkdf2SHA256([]byte(secret), []byte(salt), iter, kl)
			leaks = append(leaks, secretOf("the derived key", key), secretOf("the derived key", craKey(secret, salt, iter, kl)))
		}
	case auth.CryptoSign:
		leaks = append(leaks, secretOf("the private key", raw))
	}
	never := func(string) bool { return false }
	// what a side sends is searched as bytes and as what it decodes to
	scan := func(who string, data []byte, leaks []leak, allowed func(string) bool) []any {
		v, err := decodeWire(kind, data)
		c.Check(err == nil, "wire", "%s sends %x: %v", who, data, err)
		l, _ := v.([]any)
		if code(l) != 5 || method != auth.Ticket {
			c.search(who, string(data), leaks, never, "", 3)
		} else { // the ticket is there once
			n := bytes.Count(data, []byte(secret))
			c.Check(n <= 1, "leak", "%s sends the ticket %d times in one message: %s", who, n, show(l))
		}
		c.search(who, l, leaks, allowed, "", 0)
		return l
	}
	fromClient := func(data []byte) []any {
		return scan("the client", data, leaks, func(path string) bool {
			if method == auth.Ticket && path == "[1]" {
				l, _ := decodeWire(kind, data)
				if x, _ := l.([]any); code(x) == 5 {
					c.Feat("ticket seen in AUTHENTICATE")
					return true
				}
			}
			return false
		})
	}
	fromRouter := func(data []byte) []any {
		return scan("the router", data, leaks, never)
	}
	quiet := func(who string, err error) {
		if err != nil {
			c.search("the error of the "+who, err.Error(), leaks, never, "", 0)
		}
	}
	ser := serializerOf(kind)
	ra := &recAuth{methods: []auth.Method{method}, decide: func(a authCall) (auth.Response, error) {
		if a.authid != authid || (method == auth.Ticket && a.ticket != secret) || (method == auth.CryptoSign && a.pubkey != pub) {
			return nil, errors.New("refused")
		}
		if method == auth.WAMPCRA {
			if salt != "" {
				return auth.NewCRAResponseSalted(authid, "user", secret, salt, iter, kl, 0), nil
			}
			return auth.NewCRAResponse(authid, "user", secret, 0), nil
		}
		return auth.NewResponse(authid, "user", 0)
	}}
	acc := wampproto.NewAcceptor(ser, ra)
	extra := pick(r, []map[string]any{nil, {}, {"x": "y"}})
	var ca auth.ClientAuthenticator
	switch method {
	case auth.Ticket:
		ca = auth.NewTicketAuthenticator(authid, secret, extra)
	case auth.WAMPCRA:
		ca = auth.NewWAMPCRAAuthenticator(authid, secret, extra)
	default:
		var err error
		ca, err = auth.NewCryptoSignAuthenticator(authid, seed, extra)
		c.Check(err == nil, "key", "valid private key refused: %v", err)
	}
	join := wampproto.NewJoiner(realm, ser, ca)
	script := mode

	switch mode {
	case "honest":
		data, err := join.SendHello()
		c.Check(err == nil, "hello", "%v", err)
		for step := 0; step < 3 && len(data) > 0; step++ {
			fromClient(data)
			reply, welcomed, err := acc.Receive(data)
			quiet("router", err)
			if err != nil {
				c.Skip("A01: handshake fails")
			}
			l := fromRouter(reply)
			script += fmt.Sprint(code(l))
			if method == auth.WAMPCRA && code(l) == 4 { // the answer it waits for is a secret until it is given
				ch, _ := l[2].(map[string]any)["challenge"].(string)
				mac := craMAC(ch, craKey(secret, salt, iter, kl))
				leaks = append(leaks, leak{"the response to the challenge", forms(mac)})
				fromRouter(reply)
				leaks = leaks[:len(leaks)-1]
			}
			data, err = join.Receive(reply)
			quiet("client", err)
			if welcomed {
				c.Feat("welcomed")
				break
			}
		}

	case "hostile router":
		data, err := join.SendHello()
		c.Check(err == nil, "hello", "%v", err)
		fromClient(data)
		for i := 1 + r.Intn(4); i > 0; i-- {
			var l []any
			switch r.Intn(8) {
			case 0:
				l = []any{3, map[string]any{"message": "no"}, "wamp.error.authentication_failed", []any{"x"}}
			case 1:
				l = []any{2, int64(7), map[string]any{"realm": realm, "authid": authid, "roles": map[string]any{}}}
			default:
				x := map[string]any{"challenge": pick(r, []any{"", "0", strings.Repeat("c0", 32), strings.Repeat("ab", r.Intn(70)), "{}", nil, 5, authid, pub})}
				if r.Bool() {
					x["salt"] = pick(r, []any{"", "s", "salt", nil, 4})
					x["iterations"] = pick(r, []any{0, 1, -1, 3, "3", nil, 2.5})
					x["keylen"] = pick(r, []any{0, 1, -1, 2, 32, 1 << 40, "3", nil})
				}
				if r.P(30) { // asks for it
					delete(x, pick(r, []string{"challenge", "none"}))
					for i := 1 + r.Intn(3); i > 0; i-- {
						x[pick(r, []string{"ticket", "secret", "password", "signature", "key", "privkey", "pubkey", "token", "authid", "echo", "authextra", "credentials", "channel_binding", "debug", string(method)})] =
							pick(r, []any{true, nil, "", "ticket", "secret", "plain", int64(1), map[string]any{}, authid})
					}
					c.Feat("asked for secrets")
				}
				if r.P(10) {
					x = pick(r, []map[string]any{{}, nil})
				}
				m := pick(r, []string{string(method), string(method), string(method), "anonymous", "ticket", "wampcra", "cryptosign", "plain", ""})
				if m == "ticket" && method != auth.Ticket {
					c.Feat("asked for a ticket")
				}
				l = []any{4, m, x}
			}
			script += show(l)
			out, err := join.Receive(encodeWire(kind, l, wireOpts{r}))
			quiet("client", err)
			if err == nil && len(out) > 0 {
				got := fromClient(out)
				script += fmt.Sprint("->", code(got))
			}
		}

	case "hostile client":
		// one that knows the name of the user, tries everything, and listens
		ms := pick(r, [][]string{{string(method)}, {"anonymous", string(method)}, {"ticket", "wampcra", "cryptosign"}, {}, {"plain"}})
		list := helloList(realm, pick(r, []string{authid, authid, authid, "", "nobody"}), ms, map[string]any{"pubkey": pick(r, []any{pub, pub, pub, strings.Repeat("00", 32), "zz", 5})})
		var ch string
		for i := 1 + r.Intn(4); i > 0; i-- {
			out, welcomed, err := acc.Receive(encodeWire(kind, list, wireOpts{r}))
			script += show(list)
			quiet("router", err)
			if err == nil {
				l := fromRouter(out)
				if code(l) == 4 {
					ch, _ = l[2].(map[string]any)["challenge"].(string)
					if method == auth.WAMPCRA {
						leaks = append(leaks, leak{"the response to the challenge", forms(craMAC(ch, craKey(secret, salt, iter, kl)))})
						fromRouter(out)
					}
				}
				if welcomed {
					c.Skip("A02: welcomed without the secret")
				}
			}
			sigs := []string{"", "x", word(r, 5), base64.StdEncoding.EncodeToString(r.Bytes(32)), hex.EncodeToString(r.Bytes(64)) + ch, ch, authid, pub}
			if method == auth.CryptoSign && r.P(30) { // signs something else with the right key
				sigs = []string{hex.EncodeToString(ed25519.Sign(priv, raw[:5])) + ch}
			}
			if r.P(80) {
				list = []any{5, pick(r, sigs), pick(r, []map[string]any{{}, {"authid": authid}, {"challenge": ch}})}
			} else {
				list = helloList(realm, authid, []string{string(method)}, map[string]any{"pubkey": pub})
			}
		}
	}
	c.Mix(kind, method, script, secret, seed)
}
