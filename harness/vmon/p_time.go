package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"sync"
	"time"
	_ "time/tzdata"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
)

func init() {
	register(&Prop{ID: "U02", Quick: 150000, Thoro: 10000000, Case: u02,
		Rule: "times of all years, fixed and real time zones, and the machine's own clock in each of them; distinct = different (second, offset)",
		Need: map[string]int64{"fixed zone": 20000, "real zone": 20000, "negative, not whole hours": 1000, "positive, not whole hours": 1000, "utc": 2000, "now": 1000,
			"session": 1000, "challenge": 1000, "year boundary": 1000}})
}

var isoTime = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:[.,]\d+)?(?:Z|([+-])(\d\d):?(\d\d)?)$`)

// isoSeconds reads an ISO 8601 time as seconds since 1970, by itself.
func isoSeconds(s string) (sec int64, offset int, err error) {
	m := isoTime.FindStringSubmatch(s)
	if m == nil {
		return 0, 0, fmt.Errorf("%q is no ISO 8601 time with a zone", s)
	}
	n := func(i int) int64 { v, _ := strconv.ParseInt(m[i], 10, 64); return v }
	y, mo, d := n(1), n(2), n(3)
	if mo < 1 || mo > 12 || d < 1 || n(4) > 23 || n(5) > 59 || n(6) > 59 || n(8) > 23 || n(9) > 59 {
		return 0, 0, fmt.Errorf("%q has a part out of range", s)
	}
	days := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		days[1] = 29
	}
	if d > days[mo-1] {
		return 0, 0, fmt.Errorf("%q: there is no such day", s)
	}
	if mo <= 2 { // years begin in March here
		y--
		mo += 12
	}
	n4, n100, n400 := y/4, y/100, y/400 // y is never negative here: the year is at least 1
	day := 365*y + n4 - n100 + n400 + (153*(mo-3)+2)/5 + d - 1 - 719468
	sec = day*86400 + n(4)*3600 + n(5)*60 + n(6)
	off := n(8)*3600 + n(9)*60
	if m[7] == "-" {
		off = -off
	}
	return sec - off, int(off), nil
}

var (
	localMu  sync.Mutex // held while the zone of this machine is another one, and by those who ask for the time
	zonesMu  sync.Mutex
	zones    = map[string]*time.Location{}
	zoneList = []string{"America/New_York", "America/St_Johns", "America/Caracas", "America/Sao_Paulo", "Asia/Kolkata", "Asia/Kathmandu", "Asia/Karachi",
		"Asia/Tokyo", "Australia/Lord_Howe", "Australia/Eucla", "Pacific/Marquesas", "Pacific/Chatham", "Pacific/Kiritimati", "Pacific/Apia",
		"Europe/London", "Europe/Berlin", "Europe/Dublin", "Africa/Casablanca", "Antarctica/Troll", "UTC", "Etc/GMT+12", "Etc/GMT-14", "Asia/Tehran"}
)

func zone(name string) *time.Location {
	zonesMu.Lock()
	defer zonesMu.Unlock()
	if zones[name] == nil {
		l, err := time.LoadLocation(name)
		if err != nil {
			panic(err)
		}
		zones[name] = l
	}
	return zones[name]
}

func u02zone(c *C) *time.Location {
	r := c.R
	switch r.Intn(5) {
	case 0:
		c.Feat("real zone")
		return zone(pick(r, zoneList))
	case 1:
		return time.UTC
	}
	c.Feat("fixed zone")
	minutes := r.Intn(2*23*60+119) - 23*60 - 59
	if r.P(40) {
		minutes = pick(r, []int{0, 1, -1, 29, 30, -30, 45, 59, -59, 60, -60, 61, -61, 90, -90, 330, -210, 345, 570, -570, 525, 765, 840, -720, 599, 600, -600, 1439, -1439})
	}
	return time.FixedZone(pick(r, []string{"", "XYZ", "UTC", "Z"}), minutes*60)
}

func u02(c *C) {
	r := c.R
	if r.P(8) {
		u02now(c)
		return
	}
	for i := 0; i < 3; i++ {
		loc := u02zone(c)
		lo, hi := int64(-62135596800+2*86400), int64(253402300799-2*86400) // years 1 to 9999
		sec := lo + int64(r.U64()%uint64(hi-lo))
		switch r.Intn(5) {
		case 0:
			sec = int64(r.U64() % (1 << 32))
		case 1: // around a new year, or the end of February
			y := 1 + r.Intn(9998)
			if r.Bool() {
				y = 1900 + r.Intn(300)
			}
			month := pick(r, []time.Month{time.January, time.March})
			sec = time.Date(y, month, 1, 0, 0, 0, 0, time.UTC).Unix() + int64(r.Intn(4*86400)) - 2*86400
			sec = max(lo, min(hi, sec))
			c.Feat("year boundary")
		}
		t := time.Unix(sec, int64(r.Intn(1000000000))).In(loc)
		if r.Bool() {
			t = time.Unix(sec, 0).In(loc)
		}
		_, off := t.Zone()
		if off%60 != 0 { // local mean times of old have no representation
			c.Feat("odd seconds")
			continue
		}
		switch {
		case off == 0:
			c.Feat("utc")
		case off%3600 != 0 && off < 0:
			c.Feat("negative, not whole hours")
		case off%3600 != 0:
			c.Feat("positive, not whole hours")
		}
		c.Mix(sec, off)
		s := auth.ISO8601(t)
		got, gotOff, err := isoSeconds(s)
		c.Check(err == nil, "format", "%v (offset %d s): %v", t, off, err)
		c.Check(got == sec, "instant", "%v (offset %d s) is written %q, which is %d s away", t, off, s, got-sec)
		c.Check(gotOff == off, "zone", "%v (offset %d s) is written %q, which is in another zone", t, off, s)
	}
}

// u02now checks the times that the library takes from the clock, wherever the machine stands.
func u02now(c *C) {
	r := c.R
	loc := u02zone(c)
	localMu.Lock()
	keep := time.Local
	time.Local = loc
	t0 := time.Now()
	var what, s string
	switch r.Intn(3) {
	case 0:
		what, s = "now", auth.NowISO8601()
	case 1:
		what = "session"
		s = wampproto.NewSessionDetails(1, "r", "a", "b", "anonymous", false, nil, nil).CreatedAt()
		if r.Bool() {
			acc := wampproto.NewAcceptor(nil, nil)
			_, err := acc.ReceiveMessage(messages.NewHello("r", "a", nil, nil, []string{"anonymous"}))
			d, err2 := acc.SessionDetails()
			if err != nil || err2 != nil {
				s = fmt.Sprint(err, err2)
			} else {
				s = d.CreatedAt()
			}
		}
	case 2:
		what = "challenge"
		ch, err := auth.GenerateWAMPCRAChallenge(1, "a", "b", "c")
		var m map[string]any
		if err != nil || json.Unmarshal([]byte(ch), &m) != nil {
			s = ch
		} else {
			s, _ = m["timestamp"].(string)
		}
	}
	t1 := time.Now()
	time.Local = keep
	localMu.Unlock()
	c.Feat(what)
	if _, off := t0.Zone(); off%60 != 0 {
		return
	}
	c.Mix(what, loc.String())
	sec, _, err := isoSeconds(s)
	c.Check(err == nil, "format", "time of %s in zone %v: %v", what, loc, err)
	c.Check(sec >= t0.Unix() && sec <= t1.Unix(), "now", "time of %s in zone %v: %q, but it is between %v and %v", what, loc, s, t0, t1)
}
