package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/xconnio/wampproto-go/util"
)

func init() {
	register(&Prop{ID: "U01", Quick: 200000, Thoro: 20000000, Case: u01,
		Rule: "numbers at and around the limits of every Go number type, presented in every type that can hold them, and values that are no numbers; distinct = different (value, type)",
		Need: map[string]int64{"integer": 20000, "float": 20000, "fraction": 5000, "no number": 5000, "beyond int": 2000, "beyond uint64": 1000, "strings": 5000}})
}

// holders returns the number in every Go number type that represents it exactly.
func holders(n *big.Int) []any {
	var l []any
	if n.IsInt64() {
		v := n.Int64()
		l = append(l, v)
		if int64(int(v)) == v {
			l = append(l, int(v))
		}
		if int64(int8(v)) == v {
			l = append(l, int8(v))
		}
		if int64(int16(v)) == v {
			l = append(l, int16(v))
		}
		if int64(int32(v)) == v {
			l = append(l, int32(v))
		}
	}
	if n.IsUint64() {
		v := n.Uint64()
		l = append(l, v)
		if uint64(uint(v)) == v {
			l = append(l, uint(v))
		}
		if uint64(uint8(v)) == v {
			l = append(l, uint8(v))
		}
		if uint64(uint16(v)) == v {
			l = append(l, uint16(v))
		}
		if uint64(uint32(v)) == v {
			l = append(l, uint32(v))
		}
	}
	if f, acc := new(big.Float).SetInt(n).Float64(); acc == big.Exact {
		l = append(l, f)
	}
	if f, acc := new(big.Float).SetInt(n).Float32(); acc == big.Exact {
		l = append(l, f)
	}
	return l
}

func u01(c *C) {
	r := c.R
	switch r.Intn(10) {
	default:
		n := new(big.Int)
		if r.P(20) {
			n.SetInt64(int64(r.Intn(600) - 300))
		} else {
			n.Lsh(big.NewInt(1), uint(r.Intn(70)))
			if r.Bool() {
				n.Add(n, big.NewInt(int64(r.Intn(5)-2)))
			} else if r.Bool() { // next to a limit that floats can hold
				n.Add(n, new(big.Int).Lsh(big.NewInt(int64(r.Intn(3)-1)), uint(max(0, n.BitLen()-r.Intn(54)))))
			}
			if r.Bool() {
				n.Neg(n)
			}
		}
		for _, v := range holders(n) {
			c.Mix(n.String(), fmt.Sprintf("%T", v))
			if _, isFloat := v.(float64); isFloat {
				c.Feat("float")
			} else if _, isFloat := v.(float32); isFloat {
				c.Feat("float")
			} else {
				c.Feat("integer")
			}
			i, ok := util.AsInt(v)
			want := n.IsInt64() && int64(int(n.Int64())) == n.Int64()
			if !want {
				c.Feat("beyond int")
				c.Check(!ok && i == 0, "int", "AsInt(%T %s) is %d, %v: it is not an int", v, n, i, ok)
			} else {
				c.Check(ok && int64(i) == n.Int64(), "int", "AsInt(%T %s) is %d, %v", v, n, i, ok)
			}
			u, ok := util.AsID(v)
			if !n.IsUint64() {
				c.Feat("beyond uint64")
				c.Check(!ok && u == 0, "id", "AsID(%T %s) is %d, %v: it is no id", v, n, u, ok)
			} else {
				c.Check(ok && u == n.Uint64(), "id", "AsID(%T %s) is %d, %v", v, n, u, ok)
				u, ok = util.AsUInt64(v)
				c.Check(ok && u == n.Uint64(), "uint64", "AsUInt64(%T %s) is %d, %v", v, n, u, ok)
			}
			f, ok := util.AsFloat64(v)
			wantF, _ := new(big.Float).SetInt(n).Float64()
			c.Check(ok && f == wantF, "float", "AsFloat64(%T %s) is %v, %v, want %v", v, n, f, ok, wantF)
			notOthers(c, v)
		}
	case 7: // fractions and what is not a number
		f := r.F64()
		if r.P(30) {
			f = pick(r, []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0.5, -0.5, 1.5, math.SmallestNonzeroFloat64, math.MaxFloat64, -math.MaxFloat64, 1 << 52 * 1.5, 0.9999999999999999})
		}
		for _, v := range []any{f, float32(f)} {
			x, _ := util.AsFloat64(v)
			if x == math.Trunc(x) && !math.IsInf(x, 0) { // integral: the other cases
				continue
			}
			c.Feat("fraction")
			c.Mix(math.Float64bits(x), fmt.Sprintf("%T", v))
			want := f
			if g, ok := v.(float32); ok {
				want = float64(g)
			}
			c.Check(x == want || (math.IsNaN(x) && math.IsNaN(want)), "float", "AsFloat64(%T %v) is %v", v, v, x)
			u, ok := util.AsID(v)
			c.Check(!ok && u == 0, "id", "AsID(%T %v) is %d, %v: it is no id", v, v, u, ok)
			i, ok := util.AsInt(v)
			if math.IsNaN(x) || x >= 1<<63 || x < -1<<63 {
				c.Check(!ok && i == 0, "int", "AsInt(%T %v) is %d, %v", v, v, i, ok)
			} else if ok {
				c.Check(float64(i) == math.Trunc(x), "int", "AsInt(%T %v) is %d", v, v, i)
			}
			notOthers(c, v)
		}
	case 8: // no numbers
		c.Feat("no number")
		v := pick(r, []any{nil, "", "5", "1e3", []byte{1}, []any{1}, map[string]any{"a": 1}, true, false, struct{}{}, complex(1, 0), []int{1}, &c})
		c.Mix(show(v))
		i, ok := util.AsInt(v)
		c.Check(!ok && i == 0, "int", "AsInt(%T %v) is %d, %v", v, v, i, ok)
		u, ok := util.AsUInt64(v)
		c.Check(!ok && u == 0, "uint64", "AsUInt64(%T %v) is %d, %v", v, v, u, ok)
		u, ok = util.AsID(v)
		c.Check(!ok && u == 0, "id", "AsID(%T %v) is %d, %v", v, v, u, ok)
		f, ok := util.AsFloat64(v)
		c.Check(!ok && f == 0, "float", "AsFloat64(%T %v) is %v, %v", v, v, f, ok)
		notOthers(c, v)
	case 9: // strings and lists of them
		c.Feat("strings")
		s := genString(r)
		got, ok := util.AsString(s)
		c.Check(ok && got == s && util.ToString(s) == s, "string", "AsString(%q) is %q, %v", s, got, ok)
		l := []any{}
		var want []string
		for i := r.Intn(6); i > 0; i-- {
			s := genString(r)
			l, want = append(l, s), append(want, s)
		}
		if bad := r.P(40); bad {
			l = append(l, pick(r, []any{nil, 1, 1.5, true, []byte("x"), []any{"x"}, map[string]any{}}))
			shuffle(r, l)
			out, err := util.AnysToStrings(l)
			c.Check(err != nil && len(out) == 0, "strings", "AnysToStrings(%s) is %q, %v", show(l), out, err)
			return
		}
		keep := show(l)
		out, err := util.AnysToStrings(l)
		c.Check(err == nil && fmt.Sprintf("%q", out) == fmt.Sprintf("%q", want) && len(out) == len(want), "strings", "AnysToStrings(%s) is %q, %v", keep, out, err)
		for i := range out {
			out[i] = "changed"
		}
		c.Check(show(l) == keep, "strings", "AnysToStrings shares its argument: %s became %s", keep, show(l))
		c.Mix(keep)
	}
}

// notOthers checks that booleans and strings are recognized as what they are.
func notOthers(c *C, v any) {
	b, isBool := v.(bool)
	got, ok := util.AsBool(v)
	c.Check(ok == isBool && got == b && util.ToBool(v) == b, "bool", "AsBool(%T %v) is %v, %v", v, v, got, ok)
	s, isString := v.(string)
	gots, ok := util.AsString(v)
	c.Check(ok == isString && gots == s && util.ToString(v) == s, "string", "AsString(%T %v) is %q, %v", v, v, gots, ok)
}
