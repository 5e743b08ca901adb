// package-dir: fuzzy
package fuzzy

import (
	"unicode"

	"github.com/aarondl/bpass/verifv"
)

// tok is one character of a name or query: a symbolic ASCII byte or a fixed rune.
type tok struct {
	ascii bool
	b     byte
	r     rune
	enc   string
}

// eqSmart: query character q matches name character c when equal or when q is
// c's lowercase form.
func eqSmart(q, c tok) bool {
	switch {
	case q.ascii && c.ascii:
		up := verifv.And(c.b >= 'A', c.b <= 'Z')
		return verifv.Or(q.b == c.b, verifv.And(up, q.b == c.b+32))
	case q.ascii:
		l := unicode.ToLower(c.r)
		if l < 128 {
			return q.b == byte(l)
		}
		return false
	case c.ascii:
		return false // no ASCII letter has a non-ASCII lowercase form
	}
	return q.r == c.r || q.r == unicode.ToLower(c.r)
}

func eqFold(q, c tok) bool {
	lo := func(t tok) tok {
		if t.ascii {
			up := verifv.And(t.b >= 'A', t.b <= 'Z')
			t.b = byte(verifv.IteI(up, int(t.b)+32, int(t.b)))
			return t
		}
		l := unicode.ToLower(t.r)
		if l < 128 {
			return tok{ascii: true, b: byte(l)}
		}
		t.r = l
		return t
	}
	a, b := lo(q), lo(c)
	if a.ascii != b.ascii {
		return false
	}
	if a.ascii {
		return a.b == b.b
	}
	return a.r == b.r
}

// subseq: is q a subsequence of s (by the standard dynamic program, no branching).
func subseq(s, q []tok, eq func(q, c tok) bool) bool {
	dp := make([]bool, len(q)+1)
	dp[0] = true
	for _, c := range s {
		for j := len(q) - 1; j >= 0; j-- {
			dp[j+1] = verifv.Or(dp[j+1], verifv.And(dp[j], eq(q[j], c)))
		}
	}
	return dp[len(q)]
}

func asciiToks(label string, n int) ([]tok, string) {
	s := verifv.String(label, n)
	out := make([]tok, n)
	for i := range out {
		verifv.Assume(s[i] < 128)
		out[i] = tok{ascii: true, b: s[i]}
	}
	return out, s
}

var runes = []tok{
	{r: 'é', enc: "é"}, {r: 'É', enc: "É"}, {r: 0x212A, enc: "\u212a"}, {r: 0x23A, enc: "\u023a"}, {r: 0x2C65, enc: "\u2c65"},
	{r: 0x1F600, enc: "\U0001F600"}, {r: 0xFFFD, enc: "\ufffd"}, {r: 0xFFFD, enc: "\xff"}, {r: 0x130, enc: "\u0130"},
}

func mixedToks(label string, max int) ([]tok, string) {
	n := verifv.Choose(label+"len", max+1)
	var out []tok
	s := ""
	for i := 0; i < n; i++ {
		k := verifv.Choose(label, len(runes)+1)
		if k == len(runes) {
			b := verifv.String(label+"b", 1)
			verifv.Assume(b[0] < 128)
			out = append(out, tok{ascii: true, b: b[0]})
			s += b
		} else {
			out = append(out, runes[k])
			s += runes[k].enc
		}
	}
	return out, s
}

func Harness_F01_ascii() {
	ns, nq := verifv.Pick(5, 8), verifv.Pick(3, 4)
	verifv.Bound("ASCII names of length 0..5 (thorough 8) and queries of length 0..3 (thorough 4), all contents, Match and MatchFold")
	st, s := asciiToks("s", verifv.Choose("slen", ns+1))
	qt, q := asciiToks("q", verifv.Choose("qlen", nq+1))
	var got bool
	if verifv.Choose("fold", 2) == 0 {
		verifv.NoPanic("Match panicked", func() { got = Match(s, q) })
		verifv.Assert(verifv.Iff(got, subseq(st, qt, eqSmart)), "Match differs from in-order subsequence matching")
	} else {
		verifv.NoPanic("MatchFold panicked", func() { got = MatchFold(s, q) })
		verifv.Assert(verifv.Iff(got, subseq(st, qt, eqFold)), "MatchFold differs from case-insensitive in-order subsequence matching")
	}
	if got {
		verifv.Reach("match")
	} else {
		verifv.Reach("no match")
	}
	verifv.Observe("got", got)
}

func Harness_F01_scripts() {
	ns, nq := verifv.Pick(2, 3), verifv.Pick(2, 2)
	verifv.Bound("names of 0..2 (thorough 3) and queries of 0..2 characters mixing any ASCII byte with characters whose case forms change size, 4-byte characters, U+FFFD and an invalid byte")
	st, s := mixedToks("s", ns)
	qt, q := mixedToks("q", nq)
	var got bool
	if verifv.Choose("fold", 2) == 0 {
		verifv.NoPanic("Match panicked", func() { got = Match(s, q) })
		verifv.Assert(verifv.Iff(got, subseq(st, qt, eqSmart)), "Match differs from in-order subsequence matching (non-ASCII)")
	} else {
		verifv.NoPanic("MatchFold panicked", func() { got = MatchFold(s, q) })
		verifv.Assert(verifv.Iff(got, subseq(st, qt, eqFold)), "MatchFold differs from case-insensitive in-order subsequence matching (non-ASCII)")
	}
	verifv.Observe("got", got)
	verifv.Reach("done")
}

func Harness_F01_anybytes() {
	verifv.Bound("no-crash, self-match and empty-query for every byte string of length 0..2 (thorough 3)")
	s := verifv.String("s", verifv.Choose("slen", verifv.Pick(2, 3)+1))
	var self, empty bool
	verifv.NoPanic("Match panicked on itself", func() { self = Match(s, s) })
	verifv.Assert(self, "a name does not match itself")
	verifv.NoPanic("Match panicked on the empty query", func() { empty = Match(s, "") })
	verifv.Assert(empty, "the empty query does not match")
	q := verifv.String("q", verifv.Choose("qlen", 3))
	verifv.NoPanic("Match panicked on arbitrary bytes", func() { Match(s, q) })
	verifv.Reach("done")
}

// Long names and queries.
func Harness_F01_long() {
	verifv.Bound("names of 40 and 300 (thorough 2000) fixed characters with any one at three places, queries of 1..2 letters or digits, or every second of the name's own, up to 150 (thorough 1000), alone or with one more")
	verifv.StepLimit(20000000)
	n := []int{40, 300, 2000}[verifv.Choose("slen", verifv.Pick(2, 3))]
	var st, qt []tok
	s, q := "", ""
	add := func(t []tok, s *string, c byte) []tok {
		*s += string([]byte{c})
		return append(t, tok{ascii: true, b: c})
	}
	any := func(label string) byte {
		c := verifv.Byte(label)
		verifv.Assume(verifv.Or(verifv.And(c >= '0', c <= '9'), verifv.And(c >= 'A', c <= 'Z'), verifv.And(c >= 'a', c <= 'z')))
		return c
	}
	for i := 0; i < n; i++ {
		c := "ABcd/-"[i*i%6]
		if i == 3 || i == n/2 || i == n-1 {
			c = any("s")
		}
		st = add(st, &s, c)
	}
	switch verifv.Choose("query", 4) {
	case 3:
		for i := 1; i < n; i += 2 {
			qt = add(qt, &q, st[i].b)
		}
		if verifv.Choose("more", 2) == 1 {
			qt = add(qt, &q, any("q"))
		}
		verifv.Assume(verifv.And(st[3].b == 'y', st[n-1].b >= 'b', st[n-1].b <= 'e'))
	case 0:
		qt = add(qt, &q, any("q"))
	case 1:
		qt = add(add(qt, &q, any("q")), &q, any("q"))
	default:
		step := 2 + verifv.Choose("step", 2)*(n/41)
		for i := 0; i < n; i += step {
			qt = add(qt, &q, "ABcd/-"[i*i%6])
		}
		verifv.Assume(verifv.And(st[3].b == 'y', st[n/2].b == 'B'))
	}
	got := Match(s, q)
	verifv.Assert(verifv.Iff(got, subseq(st, qt, eqSmart)), "Match differs from in-order subsequence matching")
	if got {
		verifv.Reach("match")
	} else {
		verifv.Reach("no match")
	}
}
