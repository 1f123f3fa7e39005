package main

import (
	"strings"
	"unicode/utf8"
)

func validUTF8(s string) bool { return utf8.ValidString(s) }

// key is a topic or procedure with a match policy.
type key struct{ uri, match string }

const (
	exact    = "exact"
	prefix   = "prefix"
	wildcard = "wildcard"
)

// globMatch is the specification of wildcards: '*' stands for any run of characters other than '/'.
func globMatch(pattern, s string) bool {
	if i := strings.IndexByte(pattern, '*'); i < 0 {
		return pattern == s
	} else if !strings.HasPrefix(s, pattern[:i]) || !strings.HasSuffix(s, pattern[strings.LastIndexByte(pattern, '*')+1:]) {
		return false
	}
	// on[p]: pattern[:p] matches what has been read so far
	on := make([]bool, len(pattern)+1)
	on[0] = true
	close := func() {
		for p := 0; p < len(pattern); p++ {
			if on[p] && pattern[p] == '*' {
				on[p+1] = true
			}
		}
	}
	close()
	for i := 0; i < len(s); i++ {
		any := false
		for p := len(pattern); p >= 0; p-- {
			// pattern[:p] matches s[:i+1] if its last element takes s[i]
			v := p > 0 && on[p-1] && pattern[p-1] != '*' && pattern[p-1] == s[i]
			v = v || p < len(pattern) && on[p] && pattern[p] == '*' && s[i] != '/'
			on[p] = v
			any = any || v
		}
		if !any {
			return false
		}
		close()
	}
	return on[len(pattern)]
}

func (k key) matches(uri string) bool {
	switch k.match {
	case prefix:
		return strings.HasPrefix(uri, k.uri)
	case wildcard:
		return globMatch(k.uri, uri)
	}
	return k.uri == uri
}

// genTopic makes URIs from a small alphabet, so that they collide, contain and match each other.
func genTopic(r *Rand) string {
	n := 1 + r.Intn(4)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(pick(r, []string{".", ".", ".", ".", "/"}))
		}
		b.WriteString(pick(r, []string{"a", "b", "c", "ab", "abc", "x1"}))
	}
	switch r.Intn(80) {
	case 2, 3, 4: // characters that mean nothing, in the middle or at an end
		x := pick(r, strings.Split("# % _ - @ + ! ~ = < > & \" ' $ ( ) { } : ; , | 0 A Z .. %2e %s &amp;", " "))
		if r.P(5) {
			x = " "
		}
		u := b.String()
		switch r.Intn(3) {
		case 0:
			return x + u
		case 1:
			i := r.Intn(len(u) + 1)
			return u[:i] + x + u[i:]
		}
		return u + x
	case 5:
		return pick(r, []string{"." + b.String(), b.String() + ".", b.String() + "/"})
	case 0:
		b.WriteString(strings.Repeat(".long", 20+r.Intn(40)))
	case 1:
		b.WriteString(".ünï")
	}
	return b.String()
}

func genKey(r *Rand, near []string) key {
	base := genTopic(r)
	if len(near) > 0 && r.P(70) {
		base = pick(r, near)
	}
	switch r.Intn(3) {
	case 0:
		n := len(base)
		if n > 0 && r.P(80) {
			n = 1 + r.Intn(len(base))
		}
		if r.P(3) {
			n = 0
		}
		for n > 0 && n < len(base) && base[n]&0xC0 == 0x80 {
			n--
		}
		return key{base[:n], prefix}
	case 1:
		if r.P(6) && !strings.ContainsAny(base, "*?[]\\") {
			return key{base, wildcard} // without any wildcard in it
		}
		return key{wildcardOf(r, base), wildcard}
	}
	return key{base, exact}
}

// wildcardOf turns a URI into a pattern that matches it (or nearly).
func wildcardOf(r *Rand, s string) string {
	parts := strings.Split(s, ".")
	for {
		stars := 0
		out := make([]string, len(parts))
		for i, p := range parts {
			out[i] = p
			switch {
			case r.P(35):
				out[i] = "*"
			case r.P(8):
				out[i] = p[:len(p)/2] + "*"
			case r.P(5):
				out[i] = "*" + p
			}
			if strings.Contains(out[i], "*") {
				stars++
			}
		}
		if stars > 0 && validUTF8(strings.Join(out, ".")) {
			return strings.Join(out, ".")
		}
	}
}

// witness makes a URI that the key matches.
func (k key) witness(r *Rand) string {
	switch k.match {
	case prefix:
		return k.uri + pick(r, []string{"", ".q", "q.r", "z", "/q"})
	case wildcard:
		var b strings.Builder
		for _, ch := range k.uri {
			if ch == '*' {
				b.WriteString(pick(r, []string{"q", "w.w", "e1", "", "[t]", "?"}))
			} else {
				b.WriteRune(ch)
			}
		}
		return b.String()
	}
	return k.uri
}

// nearMiss makes a URI that a matcher might take for a match.
func (k key) nearMiss(r *Rand) string {
	w := k.witness(r)
	switch r.Intn(5) {
	case 0:
		return w + "x"
	case 1:
		return "x" + w
	case 2:
		if len(w) > 1 && validUTF8(w[:len(w)-1]) {
			return w[:len(w)-1]
		}
	case 3:
		return strings.ToUpper(w)
	case 4:
		return strings.Replace(k.uri, "*", "q/r", 1)
	}
	return w + "."
}
