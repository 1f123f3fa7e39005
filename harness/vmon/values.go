package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/fxamacker/cbor/v2"
)

// Serializer kinds.
const (
	kJSON = iota
	kCBOR
	kMsgPack
)

var kindNames = []string{"json", "cbor", "msgpack"}

var stringPool = []string{"", "a", "x", "wamp.error.foo", "io.xconn.test", "wamp.error.canceled", "wamp.close.normal", "wamp.close.goodbye_and_out", "wamp.close.system_shutdown", "wamp.error.no_such_procedure", "wamp.error.no_such_registration", "wamp.error.no_such_subscription", "wamp.error.invalid_argument", "日本語", "é", "\u0000", "a\"b\\c", "</script>&",
	"\u2028", "😀", "null", "true", "0", "{}", "[]", " ", "\n\t", "key with spaces", "authid", "progress", "\ufffd", "ÿ"}

// genString makes valid UTF-8, of lengths around the boundaries of the encodings.
func genString(r *Rand) string {
	switch r.Intn(10) {
	case 0, 1, 2:
		return pick(r, stringPool)
	case 3:
		n := pick(r, []int{22, 23, 24, 25, 30, 31, 32, 33, 127, 128, 254, 255, 256, 257})
		return strings.Repeat(string(rune('a'+r.Intn(26))), n)
	case 4:
		if r.P(10) {
			n := pick(r, []int{65534, 65535, 65536, 65537, 70000})
			return strings.Repeat(string(rune('a'+r.Intn(26))), n)
		}
	case 5:
		n := r.Intn(12)
		var b strings.Builder
		for i := 0; i < n; i++ {
			c := rune(r.Intn(0x10FFFF))
			if c >= 0xD800 && c <= 0xDFFF {
				c = 'x'
			}
			b.WriteRune(c)
		}
		return b.String()
	}
	return genURI(r)
}

// genURI makes a dotted name.
func genURI(r *Rand) string {
	n := 1 + r.Intn(4)
	parts := make([]string, n)
	for i := range parts {
		parts[i] = pick(r, []string{"com", "io", "foo", "bar", "xconn", "a", "b", "test", "proc_1", "v2"})
	}
	return strings.Join(parts, ".")
}

func genInt(r *Rand, kind int) any {
	var u uint64
	switch r.Intn(3) {
	case 0:
		u = pick(r, edgeIDs)
	case 1:
		u = uint64(r.Intn(300))
	default:
		u = r.U64() >> uint(r.Intn(64))
	}
	if kind == kJSON && u > MaxID {
		u &= MaxID - 1
	}
	neg := r.P(35)
	if neg && u > math.MaxInt64 {
		u >>= 1
	}
	i := int64(u)
	if neg {
		i = -i
	}
	if !neg && u > math.MaxInt64 {
		return u
	}
	// any Go integer type that can hold it
	switch r.Intn(7) {
	case 0:
		return int(i)
	case 1:
		if int64(int8(i)) == i {
			return int8(i)
		}
	case 2:
		if int64(int16(i)) == i {
			return int16(i)
		}
	case 3:
		if int64(int32(i)) == i {
			return int32(i)
		}
	case 4:
		if i >= 0 {
			return uint64(i)
		}
	case 5:
		if i >= 0 && i < 1<<32 {
			return uint32(i)
		}
	}
	return i
}

// genValue makes a value of the WAMP data model that the serializer can carry.
func genValue(r *Rand, kind, depth int) any {
	n := 12
	if depth <= 0 {
		n = 9
	}
	switch r.Intn(n) {
	case 0:
		return nil
	case 1:
		return r.Bool()
	case 2, 3:
		return genInt(r, kind)
	case 4:
		return r.F64()
	case 5, 6:
		return genString(r)
	case 7:
		if kind != kJSON {
			return genBytes(r)
		}
		return genString(r)
	case 8:
		if r.P(20) && kind != kJSON {
			return pick(r, []float64{math.Inf(1), math.Inf(-1)})
		}
		return r.F64()
	case 9, 10:
		return genList(r, kind, depth-1)
	default:
		return genMap(r, kind, depth-1)
	}
}

func genBytes(r *Rand) []byte {
	n := r.Intn(40)
	if r.P(10) {
		n = pick(r, []int{0, 23, 24, 31, 32, 255, 256, 257, 65535, 65536})
	}
	return r.Bytes(n)
}

func genList(r *Rand, kind, depth int) []any {
	n := r.Intn(5)
	if r.P(8) {
		n = pick(r, []int{15, 16, 17, 23, 24, 31, 32, 33, 255, 256, 257})
		depth = 0
	}
	l := make([]any, n)
	for i := range l {
		l[i] = genValue(r, kind, depth)
	}
	return l
}

func genMap(r *Rand, kind, depth int) map[string]any {
	n := r.Intn(4)
	if r.P(6) {
		n = pick(r, []int{15, 16, 17, 23, 24, 25, 255, 256})
		depth = 0
	}
	m := make(map[string]any, n)
	for i := 0; i < n; i++ {
		k := genString(r)
		if n > 10 || r.Bool() {
			k = "k" + strconv.Itoa(i)
		}
		m[k] = genValue(r, kind, depth)
	}
	return m
}

// genExtreme makes a deeply nested or a large value.
func genExtreme(r *Rand, kind int) any {
	if r.P(90) {
		v := genValue(r, kind, 0)
		for i := pick(r, []int{5, 16, 28, 29, 30, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 3000}); i > 0; i-- {
			if r.P(60) {
				v = []any{v}
			} else {
				v = map[string]any{"k": v}
			}
		}
		return v
	}
	n := pick(r, []int{65535, 65536, 131071, 131072, 131073, 200000, 1200000})
	switch r.Intn(4) {
	case 0:
		return largeMap(n)
	case 1:
		s := genString(r) + "x"
		return strings.Repeat(s, 1+n/len(s))
	default:
		return largeList(n)
	}
}

// genArgsX is genArgs with a rare extreme value.
func genArgsX(r *Rand, kind int) ([]any, map[string]any) {
	args, kw := genArgs(r, kind)
	if r.Intn(400) == 0 { // many of them
		n := largeSize(r)
		if r.Bool() {
			return largeList(n), kw
		}
		return args, largeMap(n)
	}
	if r.Intn(250) == 0 {
		v := genExtreme(r, kind)
		if r.Bool() {
			args = append(args, v)
		} else {
			kw = with(kw, "x", v)
		}
	}
	return args, kw
}

// genArgs makes args and kwargs in all combinations of absent, empty and present.
func genArgs(r *Rand, kind int) ([]any, map[string]any) {
	var args []any
	var kw map[string]any
	switch r.Intn(6) {
	case 0:
	case 1:
		args = []any{}
	default:
		args = genList(r, kind, 2)
		if r.P(3) && kind != kJSON {
			args = append(args, deepValue(r.Intn(20)))
		}
	}
	switch r.Intn(5) {
	case 0, 1:
	case 2:
		kw = map[string]any{}
	default:
		kw = genMap(r, kind, 2)
	}
	if r.P(1) && r.P(30) {
		args = make([]any, pick(r, []int{65535, 65536, 65537}))
		for i := range args {
			args[i] = i % 7
		}
	}
	return args, kw
}

func deepValue(n int) any {
	var v any = "deep"
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			v = []any{v}
		} else {
			v = map[string]any{"d": v}
		}
	}
	return v
}

// number is the canonical form of a number: numbers are equal if their values are.
type number struct{ v string }

type absent struct{}

// canon brings a value into a form that DeepEqual compares by value. Unknown types keep their identity.
func canon(v any) any {
	switch x := v.(type) {
	case nil:
		return nil
	case bool, string:
		return x
	case []byte:
		if x == nil {
			return "bytes:"
		}
		return fmt.Sprintf("bytes:%x", x)
	case int:
		return number{strconv.FormatInt(int64(x), 10)}
	case int8:
		return number{strconv.FormatInt(int64(x), 10)}
	case int16:
		return number{strconv.FormatInt(int64(x), 10)}
	case int32:
		return number{strconv.FormatInt(int64(x), 10)}
	case int64:
		return number{strconv.FormatInt(x, 10)}
	case uint:
		return number{strconv.FormatUint(uint64(x), 10)}
	case uint8:
		return number{strconv.FormatUint(uint64(x), 10)}
	case uint16:
		return number{strconv.FormatUint(uint64(x), 10)}
	case uint32:
		return number{strconv.FormatUint(uint64(x), 10)}
	case uint64:
		return number{strconv.FormatUint(x, 10)}
	case float32:
		return canonFloat(float64(x))
	case float64:
		return canonFloat(x)
	case big.Int:
		return number{x.String()}
	case *big.Int:
		return number{x.String()}
	case cbor.Tag:
		return []any{"tag", number{strconv.FormatUint(x.Number, 10)}, canon(x.Content)}
	case time.Time:
		if x.IsZero() {
			return nil // CBOR has no zero time
		}
		return number{strconv.FormatInt(x.Unix(), 10)}
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = canon(x[i])
		}
		return l
	case []string:
		l := make([]any, len(x))
		for i := range x {
			l[i] = x[i]
		}
		return l
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[k] = canon(e)
		}
		return m
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func canonFloat(f float64) any {
	if math.IsNaN(f) {
		return number{"NaN"}
	}
	if math.IsInf(f, 0) {
		return number{strconv.FormatFloat(f, 'g', -1, 64)}
	}
	if f == math.Trunc(f) {
		i, _ := new(big.Float).SetFloat64(f).Int(nil)
		return number{i.String()}
	}
	return number{strconv.FormatFloat(f, 'g', -1, 64)}
}

func equalValues(a, b any) bool { return reflect.DeepEqual(canon(a), canon(b)) }

// show prints a value compactly and deterministically.
func show(v any) string {
	var b bytes.Buffer
	showTo(&b, v, 0)
	return clip(b.String(), 600)
}

func showTo(b *bytes.Buffer, v any, depth int) {
	if b.Len() > 700 || depth > 40 {
		b.WriteString("…")
		return
	}
	switch x := v.(type) {
	case nil:
		b.WriteString("nil")
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			showTo(b, e, depth+1)
			if b.Len() > 700 {
				break
			}
		}
		b.WriteByte(']')
	case map[string]any:
		if len(x) > 10000 {
			fmt.Fprintf(b, "{%d entries}", len(x))
			return
		}
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(clip(strconv.Quote(k), 40) + ":")
			showTo(b, x[k], depth+1)
			if b.Len() > 700 {
				break
			}
		}
		b.WriteByte('}')
	case string:
		b.WriteString(clip(strconv.Quote(x), 80))
	case []byte:
		fmt.Fprintf(b, "h'%s'", clip(fmt.Sprintf("%x", x), 80))
	default:
		fmt.Fprintf(b, "%T(%v)", v, v)
	}
}

// firstDiff names the first place where two values differ.
func firstDiff(a, b any) string { return diffAt("", canon(a), canon(b)) }

func diffAt(path string, a, b any) string {
	if reflect.DeepEqual(a, b) {
		return ""
	}
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if ok && len(x) == len(y) {
			for i := range x {
				if d := diffAt(fmt.Sprintf("%s[%d]", path, i), x[i], y[i]); d != "" {
					return d
				}
			}
		} else if ok {
			return fmt.Sprintf("%s: %d and %d elements", path, len(x), len(y))
		}
	case map[string]any:
		y, ok := b.(map[string]any)
		if ok {
			for k := range x {
				if _, has := y[k]; !has {
					return fmt.Sprintf("%s: key %q missing", path, clip(k, 60))
				}
				if d := diffAt(fmt.Sprintf("%s[%q]", path, clip(k, 60)), x[k], y[k]); d != "" {
					return d
				}
			}
			for k := range y {
				if _, has := x[k]; !has {
					return fmt.Sprintf("%s: extra key %q", path, clip(k, 60))
				}
			}
		}
	}
	return fmt.Sprintf("%s: %s and %s", path, clip(fmt.Sprintf("%#v", a), 200), clip(fmt.Sprintf("%#v", b), 200))
}
