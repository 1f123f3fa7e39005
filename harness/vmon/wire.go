package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
)

// Independent codecs: what is on the wire is judged and produced without the library's own encoders.

// wireOpts selects among the legal encodings of a value.
type wireOpts struct {
	r *Rand // nil: the shortest encoding of everything
}

func (o wireOpts) some(percent int) bool { return o.r != nil && o.r.P(percent) }

func asInteger(v any) (neg bool, abs uint64, ok bool) {
	n, isNum := canon(v).(number)
	if !isNum {
		return false, 0, false
	}
	if _, isF := v.(float64); isF {
		return false, 0, false
	}
	if strings.HasPrefix(n.v, "-") {
		u, err := strconv.ParseUint(n.v[1:], 10, 64)
		return true, u, err == nil
	}
	u, err := strconv.ParseUint(n.v, 10, 64)
	return false, u, err == nil
}

func sortedKeys(m map[string]any, o wireOpts) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if o.r != nil {
		shuffle(o.r, keys)
	}
	return keys
}

// encodeWire encodes v in the given format.
func encodeWire(kind int, v any, o wireOpts) []byte {
	var b bytes.Buffer
	switch kind {
	case kJSON:
		encJSON(&b, v, o)
	case kCBOR:
		encCBOR(&b, v, o)
	default:
		encMsgPack(&b, v, o)
	}
	return b.Bytes()
}

func encJSON(b *bytes.Buffer, v any, o wireOpts) {
	ws := func() {
		if o.some(5) {
			b.WriteString(pick(o.r, []string{" ", "\n", "\t", "\r\n  "}))
		}
	}
	ws()
	defer ws()
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		fmt.Fprint(b, x)
	case string:
		b.WriteByte('"')
		for _, c := range x {
			switch {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteRune(c)
			case c < 0x20 || (c < 0x10000 && o.some(10)):
				fmt.Fprintf(b, "\\u%04x", c)
			case c >= 0x10000 && o.some(30):
				h, l := utf16.EncodeRune(c)
				fmt.Fprintf(b, "\\u%04x\\u%04X", h, l)
			case c == '/' && o.some(50):
				b.WriteString("\\/")
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
	case float64:
		b.WriteString(strconv.FormatFloat(x, byte(pickOr(o, 'g', []byte{'g', 'e', 'E'})), -1, 64))
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			encJSON(b, e, o)
		}
		b.WriteByte(']')
	case map[string]any:
		b.WriteByte('{')
		for i, k := range sortedKeys(x, o) {
			if i > 0 {
				b.WriteByte(',')
			}
			encJSON(b, k, o)
			b.WriteByte(':')
			encJSON(b, x[k], o)
		}
		b.WriteByte('}')
	default:
		neg, abs, ok := asInteger(v)
		if !ok {
			panic(fmt.Sprintf("harness: cannot encode %T as JSON", v))
		}
		s := strconv.FormatUint(abs, 10)
		if neg {
			s = "-" + s
		}
		if o.some(20) {
			alt := []string{s + ".0", s + ".000", s + "e0", s + "E+0", s + ".0e0"}
			if abs != 0 {
				alt = append(alt, s+"0e-1")
			}
			s = pick(o.r, alt)
		}
		b.WriteString(s)
	}
}

func pickOr[T any](o wireOpts, def T, xs []T) T {
	if o.r == nil {
		return def
	}
	return pick(o.r, xs)
}

func cborHead(b *bytes.Buffer, major byte, n uint64, o wireOpts) {
	// every width that can hold n is legal
	min := 0
	switch {
	case n < 24:
	case n <= 0xff:
		min = 1
	case n <= 0xffff:
		min = 2
	case n <= 0xffffffff:
		min = 3
	default:
		min = 4
	}
	w := min
	if o.some(25) {
		w = min + o.r.Intn(5-min)
	}
	m := major << 5
	switch w {
	case 0:
		b.WriteByte(m | byte(n))
	case 1:
		b.Write([]byte{m | 24, byte(n)})
	case 2:
		b.WriteByte(m | 25)
		b.Write(binary.BigEndian.AppendUint16(nil, uint16(n)))
	case 3:
		b.WriteByte(m | 26)
		b.Write(binary.BigEndian.AppendUint32(nil, uint32(n)))
	default:
		b.WriteByte(m | 27)
		b.Write(binary.BigEndian.AppendUint64(nil, n))
	}
}

func encCBOR(b *bytes.Buffer, v any, o wireOpts) {
	switch x := v.(type) {
	case nil:
		b.WriteByte(0xf6)
	case bool:
		if x {
			b.WriteByte(0xf5)
		} else {
			b.WriteByte(0xf4)
		}
	case string:
		if o.some(4) { // indefinite length, in chunks that are valid UTF-8 themselves
			b.WriteByte(0x7f)
			rs := []rune(x)
			for len(rs) > 0 {
				n := 1 + o.r.Intn(len(rs))
				encCBOR(b, string(rs[:n]), wireOpts{})
				rs = rs[n:]
			}
			b.WriteByte(0xff)
			return
		}
		cborHead(b, 3, uint64(len(x)), o)
		b.WriteString(x)
	case []byte:
		cborHead(b, 2, uint64(len(x)), o)
		b.Write(x)
	case float64:
		if f := float32(x); float64(f) == x && o.some(50) {
			b.WriteByte(0xfa)
			b.Write(binary.BigEndian.AppendUint32(nil, math.Float32bits(f)))
			return
		}
		b.WriteByte(0xfb)
		b.Write(binary.BigEndian.AppendUint64(nil, math.Float64bits(x)))
	case []any:
		if o.some(8) {
			b.WriteByte(0x9f)
			for _, e := range x {
				encCBOR(b, e, o)
			}
			b.WriteByte(0xff)
			return
		}
		cborHead(b, 4, uint64(len(x)), o)
		for _, e := range x {
			encCBOR(b, e, o)
		}
	case map[string]any:
		indef := o.some(8)
		if indef {
			b.WriteByte(0xbf)
		} else {
			cborHead(b, 5, uint64(len(x)), o)
		}
		for _, k := range sortedKeys(x, o) {
			encCBOR(b, k, o)
			encCBOR(b, x[k], o)
		}
		if indef {
			b.WriteByte(0xff)
		}
	default:
		neg, abs, ok := asInteger(v)
		if !ok {
			panic(fmt.Sprintf("harness: cannot encode %T as CBOR", v))
		}
		if neg {
			cborHead(b, 1, abs-1, o)
		} else {
			cborHead(b, 0, abs, o)
		}
	}
}

func mpInt(b *bytes.Buffer, neg bool, abs uint64, o wireOpts) {
	type enc struct {
		code  byte
		width int
	}
	var legal []enc
	if neg {
		if abs <= 32 {
			legal = append(legal, enc{byte(-int8(abs)), 0})
		}
	} else if abs < 128 {
		legal = append(legal, enc{byte(abs), 0})
	}
	for i, w := range []int{1, 2, 4, 8} {
		if !neg && (w == 8 || abs < 1<<(8*w)) {
			legal = append(legal, enc{0xcc + byte(i), w})
		}
		limit := uint64(1) << (8*w - 1)
		if (neg && abs <= limit) || (!neg && abs < limit) {
			legal = append(legal, enc{0xd0 + byte(i), w})
		}
	}
	e := legal[0]
	if o.some(60) {
		e = pick(o.r, legal)
	}
	val := abs
	if neg {
		val = -abs
	}
	b.WriteByte(e.code)
	full := binary.BigEndian.AppendUint64(nil, val)
	b.Write(full[8-e.width:])
}

func mpLen(b *bytes.Buffer, n int, o wireOpts, fix func(int) (byte, bool), codes [3]byte) {
	type enc struct {
		code  byte
		width int
	}
	var legal []enc
	if c, ok := fix(n); ok {
		legal = append(legal, enc{c, 0})
	}
	for i, w := range []int{1, 2, 4} {
		if codes[i] != 0 && (w == 4 || n < 1<<(8*w)) {
			legal = append(legal, enc{codes[i], w})
		}
	}
	e := legal[0]
	if o.some(25) {
		e = pick(o.r, legal)
	}
	b.WriteByte(e.code)
	full := binary.BigEndian.AppendUint64(nil, uint64(n))
	b.Write(full[8-e.width:])
}

func encMsgPack(b *bytes.Buffer, v any, o wireOpts) {
	no := func(int) (byte, bool) { return 0, false }
	switch x := v.(type) {
	case nil:
		b.WriteByte(0xc0)
	case bool:
		if x {
			b.WriteByte(0xc3)
		} else {
			b.WriteByte(0xc2)
		}
	case string:
		mpLen(b, len(x), o, func(n int) (byte, bool) { return 0xa0 | byte(n), n < 32 }, [3]byte{0xd9, 0xda, 0xdb})
		b.WriteString(x)
	case []byte:
		mpLen(b, len(x), o, no, [3]byte{0xc4, 0xc5, 0xc6})
		b.Write(x)
	case float64:
		if f := float32(x); float64(f) == x && o.some(50) {
			b.WriteByte(0xca)
			b.Write(binary.BigEndian.AppendUint32(nil, math.Float32bits(f)))
			return
		}
		b.WriteByte(0xcb)
		b.Write(binary.BigEndian.AppendUint64(nil, math.Float64bits(x)))
	case []any:
		mpLen(b, len(x), o, func(n int) (byte, bool) { return 0x90 | byte(n), n < 16 }, [3]byte{0, 0xdc, 0xdd})
		for _, e := range x {
			encMsgPack(b, e, o)
		}
	case map[string]any:
		mpLen(b, len(x), o, func(n int) (byte, bool) { return 0x80 | byte(n), n < 16 }, [3]byte{0, 0xde, 0xdf})
		for _, k := range sortedKeys(x, o) {
			encMsgPack(b, k, o)
			encMsgPack(b, x[k], o)
		}
	default:
		neg, abs, ok := asInteger(v)
		if !ok {
			panic(fmt.Sprintf("harness: cannot encode %T as MessagePack", v))
		}
		mpInt(b, neg, abs, o)
	}
}

var errTruncated = errors.New("truncated")

// decodeWire decodes one value and requires that nothing follows it.
func decodeWire(kind int, data []byte) (v any, err error) {
	defer func() {
		if e := recover(); e != nil {
			if e != errTruncated {
				err = fmt.Errorf("%v", e)
			} else {
				err = errTruncated
			}
		}
	}()
	d := &wireDec{b: data}
	switch kind {
	case kJSON:
		dec := json.NewDecoder(bytes.NewReader(data))
		dec.UseNumber()
		if err := dec.Decode(&v); err != nil {
			return nil, err
		}
		if dec.More() {
			return nil, errors.New("trailing data")
		}
		return fixJSON(v), nil
	case kCBOR:
		v = d.cbor(0)
	default:
		v = d.msgpack(0)
	}
	if len(d.b) != 0 {
		return nil, errors.New("trailing data")
	}
	return v, nil
}

func fixJSON(v any) any {
	switch x := v.(type) {
	case json.Number:
		// beyond 2^53 the digits are those of a float
		if u, err := strconv.ParseUint(string(x), 10, 64); err == nil && u <= MaxID {
			return u
		}
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil && i < 0 && i >= -int64(MaxID) {
			return i
		}
		f, _ := x.Float64()
		return f
	case []any:
		for i := range x {
			x[i] = fixJSON(x[i])
		}
	case map[string]any:
		for k := range x {
			x[k] = fixJSON(x[k])
		}
	}
	return v
}

type wireDec struct{ b []byte }

func (d *wireDec) take(n uint64) []byte {
	if n > uint64(len(d.b)) {
		panic(errTruncated)
	}
	r := d.b[:n]
	d.b = d.b[n:]
	return r
}

func (d *wireDec) uint(n int) uint64 {
	var v uint64
	for _, c := range d.take(uint64(n)) {
		v = v<<8 | uint64(c)
	}
	return v
}

func (d *wireDec) cbor(depth int) any {
	if depth > 9000 {
		panic("too deep")
	}
	c := d.take(1)[0]
	major, info := c>>5, c&31
	if c == 0xff {
		panic("unexpected break")
	}
	var n uint64
	indef := false
	if major != 7 {
		switch {
		case info < 24:
			n = uint64(info)
		case info <= 27:
			n = d.uint(1 << (info - 24))
		case info == 31 && major >= 2 && major <= 5:
			indef = true
		default:
			panic("bad cbor head")
		}
	}
	more := func(i uint64) bool {
		if indef {
			if len(d.b) == 0 {
				panic(errTruncated)
			}
			if d.b[0] == 0xff {
				d.b = d.b[1:]
				return false
			}
			return true
		}
		return i < n
	}
	switch major {
	case 0:
		return n
	case 1:
		if n < 1<<63 {
			return -1 - int64(n)
		}
		return new(big.Int).Sub(big.NewInt(-1), new(big.Int).SetUint64(n))
	case 2, 3:
		var s []byte
		if indef {
			for more(0) {
				switch x := d.cbor(depth + 1).(type) {
				case string:
					s = append(s, x...)
				case []byte:
					s = append(s, x...)
				default:
					panic("bad chunk")
				}
			}
		} else {
			s = append([]byte{}, d.take(n)...)
		}
		if major == 3 {
			return string(s)
		}
		return s
	case 4:
		l := []any{}
		for i := uint64(0); more(i); i++ {
			l = append(l, d.cbor(depth+1))
		}
		return l
	case 5:
		m := map[string]any{}
		for i := uint64(0); more(i); i++ {
			k, ok := d.cbor(depth + 1).(string)
			if !ok {
				panic("map key is not a string")
			}
			if _, dup := m[k]; dup {
				panic("duplicate map key")
			}
			m[k] = d.cbor(depth + 1)
		}
		return m
	case 6:
		panic("tag")
	}
	switch info {
	case 20:
		return false
	case 21:
		return true
	case 22, 23:
		return nil
	case 25:
		h := d.uint(2)
		exp, man := int(h>>10&31), float64(h&1023)
		var f float64
		switch exp {
		case 0:
			f = math.Ldexp(man, -24)
		case 31:
			f = math.Inf(1)
			if man != 0 {
				f = math.NaN()
			}
		default:
			f = math.Ldexp(man+1024, exp-25)
		}
		if h>>15 == 1 {
			f = -f
		}
		return f
	case 26:
		return float64(math.Float32frombits(uint32(d.uint(4))))
	case 27:
		return math.Float64frombits(d.uint(8))
	}
	panic("unknown simple value")
}

func (d *wireDec) msgpack(depth int) any {
	if depth > 9000 {
		panic("too deep")
	}
	c := d.take(1)[0]
	list := func(n uint64) any {
		l := []any{}
		for i := uint64(0); i < n; i++ {
			l = append(l, d.msgpack(depth+1))
		}
		return l
	}
	dict := func(n uint64) any {
		m := map[string]any{}
		for i := uint64(0); i < n; i++ {
			k, ok := d.msgpack(depth + 1).(string)
			if !ok {
				panic("map key is not a string")
			}
			if _, dup := m[k]; dup {
				panic("duplicate map key")
			}
			m[k] = d.msgpack(depth + 1)
		}
		return m
	}
	switch {
	case c < 0x80:
		return uint64(c)
	case c < 0x90:
		return dict(uint64(c & 15))
	case c < 0xa0:
		return list(uint64(c & 15))
	case c < 0xc0:
		return string(d.take(uint64(c & 31)))
	case c >= 0xe0:
		return int64(int8(c))
	}
	switch c {
	case 0xc0:
		return nil
	case 0xc2:
		return false
	case 0xc3:
		return true
	case 0xc4, 0xc5, 0xc6:
		return append([]byte{}, d.take(d.uint(1<<(c-0xc4)))...)
	case 0xca:
		return float64(math.Float32frombits(uint32(d.uint(4))))
	case 0xcb:
		return math.Float64frombits(d.uint(8))
	case 0xcc, 0xcd, 0xce, 0xcf:
		return d.uint(1 << (c - 0xcc))
	case 0xd0:
		return int64(int8(d.uint(1)))
	case 0xd1:
		return int64(int16(d.uint(2)))
	case 0xd2:
		return int64(int32(d.uint(4)))
	case 0xd3:
		return int64(d.uint(8))
	case 0xd9, 0xda, 0xdb:
		return string(d.take(d.uint(1 << (c - 0xd9))))
	case 0xdc, 0xdd:
		return list(d.uint(2 << (c - 0xdc)))
	case 0xde, 0xdf:
		return dict(d.uint(2 << (c - 0xde)))
	}
	panic("extension or invalid code")
}
