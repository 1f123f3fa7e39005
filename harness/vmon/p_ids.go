package main

import (
	"encoding/hex"
	"encoding/json"
	"math"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
)

func init() {
	register(&Prop{ID: "A08", Quick: 500, Thoro: 8000,
		Rule: "batches of challenges generated concurrently, directly and through handshakes, plus helper processes started at the same time; distinct = different batch of challenges",
		Need: map[string]int64{"cra challenge": 5000, "cryptosign challenge": 5000, "cra handshake": 300, "cryptosign handshake": 300, "process": 8},
		Case: a08, Post: a08post})
	register(&Prop{ID: "I01", Quick: 200, Thoro: 4000,
		Rule: "batches of ids generated concurrently, plus helper processes started at the same time; distinct = different batch of ids",
		Need: map[string]int64{"id": 100000, "process": 8},
		Case: i01, Post: i01post})
	register(&Prop{ID: "I02", Quick: 400, Thoro: 20000,
		Rule: "generators used by one and by many goroutines, from the start and around the edges of the range; distinct = different (goroutines, start, number of ids)",
		Need: map[string]int64{"sequential": 10, "concurrent": 10},
		Case: i02,
		Assume: []string{"the state of a generator is one uint64 (found by reflection) through which the monitor places it near the edges of the range; " +
			"where there is no such field, only the ids from 1 on are observed"}})
}

// inGoroutines runs f in n goroutines that start together and waits for them; it hands on the first panic.
func inGoroutines(n int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	var mu sync.Mutex
	var failed any
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					if failed == nil {
						failed = e
					}
					mu.Unlock()
				}
			}()
			<-start
			f(i)
		}(i)
	}
	close(start)
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
}

// seen remembers what was generated in the whole run.
func (r *Run) seen(set, s string) (dup bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	m, _ := r.store[set].(map[string]struct{})
	if m == nil {
		m = map[string]struct{}{}
		r.store[set] = m
	}
	_, dup = m[s]
	m[s] = struct{}{}
	return dup
}

// ---------------------------------------------------------------- A08

type craChallenge struct {
	Nonce, AuthProvider, AuthID, AuthRole, AuthMethod, Timestamp string
	Session                                                      uint64
}

func (c *C) cra(s string, t0, t1 time.Time) craChallenge {
	c.Feat("cra challenge")
	c.Check(!c.seen("challenge", s), "repeated", "challenge %q was issued before", s)
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var m map[string]any
	err := d.Decode(&m)
	c.Check(err == nil && !d.More() && m != nil, "format", "challenge %q is not a JSON object: %v", s, err)
	str := func(k string) string {
		x, ok := m[k].(string)
		c.Check(ok, "format", "challenge %q: %s is %T", s, k, m[k])
		return x
	}
	ch := craChallenge{Nonce: str("nonce"), AuthProvider: str("authprovider"), AuthID: str("authid"), AuthRole: str("authrole"),
		AuthMethod: str("authmethod"), Timestamp: str("timestamp")}
	n, ok := m["session"].(json.Number)
	c.Check(ok, "format", "challenge %q: session is %T", s, m["session"])
	_, abs, ok := asInteger(n)
	if !ok {
		var u uint64
		ok = json.Unmarshal([]byte(n), &u) == nil
		abs = u
	}
	c.Check(ok, "format", "challenge %q: session is not an integer", s)
	ch.Session = abs
	c.Check(ch.Nonce != "" && !c.seen("nonce", ch.Nonce), "repeated", "nonce of challenge %q is empty or was used before", s)
	c.Check(ch.AuthMethod == "wampcra", "content", "challenge %q: authmethod %q", s, ch.AuthMethod)
	ts, err := parseISO(ch.Timestamp)
	c.Check(err == nil, "format", "challenge %q: timestamp: %v", s, err)
	c.Check(!ts.Before(t0.Add(-time.Second)) && !ts.After(t1.Add(time.Second)), "timestamp",
		"challenge %q was issued between %v and %v", s, t0, t1)
	return ch
}

func parseISO(s string) (time.Time, error) {
	t, err := time.Parse("2006-01-02T15:04:05Z0700", s)
	if err != nil {
		t, err = time.Parse(time.RFC3339Nano, s)
	}
	return t, err
}

func (c *C) cryptosign(s string) {
	c.Feat("cryptosign challenge")
	c.Check(!c.seen("challenge", s), "repeated", "challenge %q was issued before", s)
	b, err := hex.DecodeString(s)
	c.Check(err == nil && len(b) == 32, "format", "cryptosign challenge %q is not 32 bytes in hex", s)
	c.mu.Lock()
	defer c.mu.Unlock()
	cnt, _ := c.store["bits"].(*[256]int)
	if cnt == nil {
		cnt = new([256]int)
		c.store["bits"] = cnt
	}
	for i := range cnt {
		cnt[i] += int(b[i/8] >> (i % 8) & 1)
	}
	n, _ := c.store["n"].(int)
	c.store["n"] = n + 1
	pairs, _ := c.store["chunks"].(map[string]int)
	if pairs == nil {
		pairs = map[string]int{}
		c.store["chunks"] = pairs
	}
	for i := 0; i < 32; i += 8 {
		pairs[string(b[i:i+8])]++
	}
}

func a08(c *C) {
	r := c.R
	const per = 60
	g := 4
	switch c.Case % 4 {
	case 0: // directly
		provider := genIdent(r)
		type in struct {
			session      uint64
			authid, role string
		}
		ins, outs := make([]in, g*per), make([]string, g*per)
		for i := range ins {
			ins[i] = in{r.ID1(), genString(r), genString(r)}
		}
		t0 := time.Now()
		inGoroutines(g, func(w int) {
			for i := w * per; i < (w+1)*per; i++ {
				s, err := auth.GenerateWAMPCRAChallenge(ins[i].session, ins[i].authid, ins[i].role, provider)
				if err != nil {
					panic(err)
				}
				outs[i] = s
			}
		})
		t1 := time.Now()
		for i, s := range outs {
			ch := c.cra(s, t0, t1)
			c.Check(ch.Session == ins[i].session && ch.AuthID == ins[i].authid && ch.AuthRole == ins[i].role && ch.AuthProvider == provider,
				"content", "challenge made for %+v provider %q is %q", ins[i], provider, s)
			c.Mix(s)
		}
	case 1:
		outs := make([]string, g*per)
		inGoroutines(g, func(w int) {
			for i := w * per; i < (w+1)*per; i++ {
				s, err := auth.GenerateCryptoSignChallenge()
				if err != nil {
					panic(err)
				}
				outs[i] = s
			}
		})
		for _, s := range outs {
			c.cryptosign(s)
			c.Mix(s)
		}
	case 2, 3: // through handshakes, several at once
		kind := r.Intn(3)
		type hs struct {
			method, authid, gotID, gotRole, ch string
			acc                                *wampproto.Acceptor
			priv                               string
			session                            uint64
			err                                string
			t0, t1                             time.Time
		}
		const n = 16
		hss := make([]*hs, n)
		for i := range hss {
			h := &hs{method: []string{"wampcra", "cryptosign"}[i%2], authid: genIdent(r), gotID: genString(r), gotRole: genString(r)}
			hss[i] = h
		}
		same := r.P(30) // all for the same user
		seeds := make([]*Rand, n)
		for i := range seeds {
			seeds[i] = r.Fork()
			if same {
				hss[i].authid, hss[i].gotID, hss[i].gotRole = hss[0].authid, hss[0].gotID, hss[0].gotRole
			}
		}
		inGoroutines(n, func(i int) {
			h := hss[i]
			salted := i%3 == 0
			ra := &recAuth{methods: []auth.Method{auth.WAMPCRA, auth.CryptoSign}, decide: func(authCall) (auth.Response, error) {
				if h.method == "wampcra" {
					if salted {
						return auth.NewCRAResponseSalted(h.gotID, h.gotRole, "pw", "salt", 3, 32, 0), nil
					}
					return auth.NewCRAResponse(h.gotID, h.gotRole, "pw", 0), nil
				}
				return auth.NewResponse(h.gotID, h.gotRole, 0)
			}}
			ser := serializerOf(kind)
			h.acc = wampproto.NewAcceptor(ser, ra)
			seed, pub, _ := keyPair(seeds[i])
			hello := messages.NewHello("r", h.authid, map[string]any{"pubkey": pub}, map[string]any{}, []string{h.method})
			h.t0 = time.Now()
			reply, err := h.acc.ReceiveMessage(hello)
			h.t1 = time.Now()
			ch, ok := reply.(*messages.Challenge)
			if err != nil || !ok {
				h.err = "no challenge"
				return
			}
			h.ch, _ = ch.Extra()["challenge"].(string)
			var ca auth.ClientAuthenticator = auth.NewWAMPCRAAuthenticator(h.authid, "pw", nil)
			if h.method == "cryptosign" {
				ca, err = auth.NewCryptoSignAuthenticator(h.authid, seed, nil)
				if err != nil {
					h.err = "no authenticator"
					return
				}
			}
			a, err := ca.Authenticate(*ch)
			if err != nil {
				h.err = "no answer"
				return
			}
			reply, err = h.acc.ReceiveMessage(a)
			w, ok := reply.(*messages.Welcome)
			if err != nil || !ok {
				h.err = "not welcomed"
				return
			}
			h.session = w.SessionID()
		})
		for _, h := range hss {
			c.Check(h.err == "", "handshake", "%s handshake of the rightful user: %s", h.method, h.err)
			c.Feat(map[string]string{"wampcra": "cra handshake", "cryptosign": "cryptosign handshake"}[h.method])
			c.Mix(h.ch)
			if h.method == "cryptosign" {
				c.cryptosign(h.ch)
				continue
			}
			ch := c.cra(h.ch, h.t0, h.t1)
			c.Check(ch.AuthID == h.gotID && ch.AuthRole == h.gotRole && ch.AuthProvider != "", "content",
				"challenge for authid %q authrole %q is %q", h.gotID, h.gotRole, h.ch)
			c.Check(ch.Session == h.session, "session", "challenge %q led to session %d", h.ch, h.session)
		}
	}
}

func a08post(r *Run) {
	r.post(func(c *C) {
		cnt, _ := r.store["bits"].(*[256]int)
		n, _ := r.store["n"].(int)
		if n > 1000 {
			limit := 8 * math.Sqrt(float64(n)) / 2
			for i, k := range cnt {
				c.Check(math.Abs(float64(k)-float64(n)/2) <= limit, "not random", "bit %d of cryptosign challenges is set in %d of %d", i, k, n)
			}
			for b, k := range r.store["chunks"].(map[string]int) {
				c.Check(k == 1, "not random", "8 bytes %x appear %d times in cryptosign challenges", b, k)
			}
		}
		t0 := time.Now()
		zones := []string{"TZ=UTC", "TZ=Asia/Kolkata", "TZ=America/St_Johns", "TZ=UTC"}
		all, err := helpers("challenges", 8, zones...)
		if err != nil {
			c.Feat("helper failed")
			c.Logf("helper: %v", err)
			return
		}
		t1 := time.Now()
		for _, lines := range all {
			c.Feat("process")
			for i, l := range lines {
				if i%2 == 0 {
					c.cryptosign(l)
				} else {
					c.cra(l, t0, t1)
				}
			}
		}
	})
}

// ---------------------------------------------------------------- I01

func i01(c *C) {
	g, per := 8, 250
	outs := make([][]uint64, g)
	inGoroutines(g, func(w int) {
		for i := 0; i < per; i++ {
			outs[w] = append(outs[w], wampproto.GenerateID())
		}
	})
	var ids []uint64
	for _, o := range outs {
		for _, id := range o {
			c.Check(id >= 1 && id <= MaxID, "range", "generated id %d", id)
			ids = append(ids, id)
		}
	}
	c.FeatN("id", len(ids))
	c.Mix(ids[0], ids[len(ids)-1])
	c.Logf("first ids %v", ids[:3])
	c.mu.Lock()
	defer c.mu.Unlock()
	all, _ := c.store["ids"].([]uint64)
	c.store["ids"] = append(all, ids...)
}

func i01post(r *Run) {
	r.post(func(c *C) {
		ids := r.store["ids"].([]uint64)
		count := map[uint64]int{}
		dups := 0
		const buckets = 64
		var high, low [buckets]int
		for _, id := range ids {
			if count[id]++; count[id] > 1 {
				dups++
			}
			high[(id-1)>>(53-6)]++
			low[id%buckets]++
		}
		n := float64(len(ids))
		// Random ids repeat with probability n^2/2^54, which is below 1e-3 for every n used here; two repeats never happen.
		c.Check(dups <= 1, "repeated", "%d of %d ids were generated before", dups, len(ids))
		limit := 10 * math.Sqrt(n/buckets)
		for i := 0; i < buckets; i++ {
			c.Check(math.Abs(float64(high[i])-n/buckets) <= limit, "spread", "%d of %d ids are in part %d of %d of the range", high[i], len(ids), i, buckets)
			c.Check(math.Abs(float64(low[i])-n/buckets) <= limit, "spread", "%d of %d ids are %d modulo %d", low[i], len(ids), i, buckets)
		}
		all, err := helpers("ids", 8)
		if err != nil {
			c.Feat("helper failed")
			c.Logf("helper: %v", err)
			return
		}
		owner := map[string]int{}
		for p, lines := range all {
			c.Feat("process")
			for _, l := range lines {
				if q, ok := owner[l]; ok && q != p {
					c.Fail("same sequence", "two processes generated id %s", l)
				}
				owner[l] = p
			}
		}
		c.nchk += int64(len(owner))
	})
}

// ---------------------------------------------------------------- I02

// placed returns a generator whose next id is next, if its state can be found.
func placed(next uint64) (*wampproto.SessionScopeIDGenerator, bool) {
	find := func(g *wampproto.SessionScopeIDGenerator) *uint64 {
		var found []*uint64
		var walk func(v reflect.Value)
		walk = func(v reflect.Value) {
			switch v.Kind() {
			case reflect.Struct:
				for i := 0; i < v.NumField(); i++ {
					walk(v.Field(i))
				}
			case reflect.Uint64:
				found = append(found, (*uint64)(unsafe.Pointer(v.UnsafeAddr())))
			}
		}
		walk(reflect.ValueOf(g).Elem())
		if len(found) != 1 {
			return nil
		}
		return found[0]
	}
	probe := &wampproto.SessionScopeIDGenerator{}
	p := find(probe)
	if p == nil || *p != 0 || probe.NextID() != 1 || *p != 1 || probe.NextID() != 2 || *p != 2 {
		return nil, false // the field is something else than the last id
	}
	g := &wampproto.SessionScopeIDGenerator{}
	*find(g) = next - 1
	return g, true
}

func i02(c *C) {
	r := c.R
	start := uint64(1)
	g := &wampproto.SessionScopeIDGenerator{}
	if c.Case%2 == 1 {
		edge := pick(r, []uint64{1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 52, MaxID, MaxID, MaxID, MaxID, MaxID})
		start = edge - uint64(r.Intn(int(min(300, edge-1))))
		p, ok := placed(start)
		if !ok {
			start = 1
		} else {
			g = p
			c.Feat("placed")
			if edge == MaxID {
				c.Feat("wrap")
			}
		}
	}
	at := func(i int) uint64 { return (start-1+uint64(i))%MaxID + 1 }
	if c.Case%4 < 2 {
		n := 500 + r.Intn(3000)
		if c.Case%20 == 0 {
			n = 200000
		}
		for i := 0; i < n; i++ {
			id := g.NextID()
			c.Check(id == at(i), "sequence", "id number %d from %d on is %d", i, start, id)
		}
		c.Feat("sequential")
		c.Mix("s", start, n)
		c.Logf("%d ids from %d on: in order", n, start)
		return
	}
	n, per := 2+r.Intn(12), 50+r.Intn(400)
	outs := make([][]uint64, n)
	inGoroutines(n, func(w int) {
		l := make([]uint64, 0, per)
		for i := 0; i < per; i++ {
			l = append(l, g.NextID())
		}
		outs[w] = l
	})
	got := map[uint64]int{}
	switches := 0
	owner := map[uint64]int{}
	for w, l := range outs {
		last := -1
		for _, id := range l {
			got[id]++
			owner[id] = w
			// position of the id in the sequence
			pos := int((id + MaxID - start) % MaxID)
			c.Check(pos > last, "sequence", "one goroutine got %d after a later id (start %d)", id, start)
			last = pos
		}
	}
	for i := 0; i < n*per; i++ {
		c.Check(got[at(i)] == 1, "exactly once", "%d goroutines took %d ids each from %d on: id %d was handed out %d times", n, per, start, at(i), got[at(i)])
		if i > 0 && owner[at(i)] != owner[at(i-1)] {
			switches++
		}
	}
	c.Feat("concurrent")
	c.FeatN("switches between goroutines", switches)
	c.Mix("c", start, n, per, switches)
	c.Logf("%d goroutines took %d ids from %d on, changing %d times", n, per, start, switches)
}
