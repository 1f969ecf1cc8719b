package main

// Generators of documents.

import (
	"math"
	"math/bits"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// rapid draws integers with a strong bias to small ones, which would distort every choice below: uniform numbers are
// made of single bits instead (they shrink towards 0).
func uniform(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	for k := bits.Len(uint(n-1)) + 2; k > 0; k-- {
		v <<= 1
		if coin.Draw(t, "") {
			v |= 1
		}
	}
	return v % n
}

var coin = rapid.Bool()

func irange(t *rapid.T, label string, lo, hi int) int { return lo + uniform(t, hi-lo+1) }

func sample[T any](t *rapid.T, label string, xs []T) T { return xs[uniform(t, len(xs))] }

func oneOf[T any](t *rapid.T, label string, xs ...T) T { return sample(t, label, xs) }

func intSlice(t *rapid.T, label string, lo, hi, min, max int) []int {
	out := make([]int, irange(t, label, min, max))
	for i := range out {
		out[i] = irange(t, label, lo, hi)
	}
	return out
}

func chance(t *rapid.T, percent int, label string) bool { return uniform(t, 100) >= 100-percent }

// Draws one of the alternatives with the given weights; rapid shrinks towards the first.
func pick(t *rapid.T, label string, weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	n := uniform(t, total)
	for i, w := range weights {
		if n < w {
			return i
		}
		n -= w
	}
	return 0
}

// Keys that can be written in a JSON path.
var pathKeys = []string{"a", "b", "c", "name", "friends", "array", "x1", "k-2", "A", "_z", "B_b"}

// Keys that have to survive but cannot be written in a path.
var oddKeys = []string{"", " ", "two words", "é", "日本", "a.b", "$", "@", "[0]", "0", "10", "*", "\"", "'", "'''", "\\", "a\nb", "\t",
	"#c", "//c", "/*", ":", ",", "{", "}", "key:", "true", "null", "-", "😀", "\u2028", "\u0001", "a\u0000b", "toString",
	"length", "constructor", "valueOf", "hasOwnProperty", "%s", "5%d", "100%", "%", "%%v", "1a", "-x", "\u00a0", "\ufeff", "__proto__", "toJSON", "prototype", "\\u003c", "&", "<b>", "undefined", "NaN", "`", "1.5"}

var trickyStrings = []string{"", " ", "x", "hello", "two words", "a\nb", "\n", "\r\n", "\ttab", "trailing ", " leading", "'", "\"", "'''", "''", "\\", "\\n",
	"#", "# c", "//", "// c", "/* c */", "{", "}", "[", "]", ",", ":", "true", "false", "null", "0", "1", "-1.5e3", "é", "日本語", "😀", "\u2028\u2029",
	"\u0000", "\u0001\u001f", "\u007f", "\u00a0", "\ufeff", "</script>", "<>&", "$.a", "@", "a'''b", "multi\nline\n  indented\nend",
	"#//!js", "#!js", "\n\n", "x\r", "\\u0041", "\"quoted\"", "'single'", "}]", "a, b", "a: b", "a#b", "a //b", "%s%d", "\ud7ff\ue000", "ends with quote'", "ends with two''", "a\n\tb", "\t\n\t",
	"\\u003c", "\\\\u0026", "\\u2028", "\\\"", "\\/", "\\r\\n", "&amp;", "${a}", "`", "NaN", "-Infinity", "undefined", "0x1F", "1e5", "+1", ".5", "5.", "01", "1 2", "tru", "nullx", "<!--", "*/", "\v", "\f\b"}

// Any string but scripts.
func genString(t *rapid.T) string {
	s := genAnyString(t)
	if looksLikeScript.MatchString(s) {
		return "x" + s
	}
	return s
}

var looksLikeScript = regexp.MustCompile("^#//!..\n")

func genAnyString(t *rapid.T) string {
	switch pick(t, "string kind", 5, 4, 1, 1) {
	case 0:
		return rapid.StringMatching(`[a-z]{0,6}`).Draw(t, "word")
	case 1:
		return sample(t, "tricky", trickyStrings)
	case 2:
		n := irange(t, "parts", 1, 4)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(sample(t, "part", trickyStrings))
		}
		return b.String()
	default:
		return strings.ToValidUTF8(rapid.String().Draw(t, "any string"), "\ufffd")
	}
}

func genNumber(t *rapid.T) float64 {
	switch pick(t, "number kind", 6, 2, 2, 1) {
	case 0:
		return float64(irange(t, "small", -3, 12))
	case 1:
		return float64(irange(t, "quarter", -400, 400)) / 4
	case 2:
		return sample(t, "special", []float64{0, 1e21, 1e20, 123456789012345680000, 1e-7, 1.5e300, -2.5e-300, 9007199254740991, 9007199254740992, 4294967296,
			2147483648, -2147483649, 0.1, 1.0 / 3, 5e-324, 1.7976931348623157e308})
	default:
		f := rapid.Float64().Draw(t, "float")
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1
		}
		return f
	}
}

type docOpts struct {
	depth    int
	width    int
	odd      int  // percentage of odd keys
	plain    bool // only simple strings and numbers
	keys     []string
	noString bool
	scripts  bool // strings that are scripts, where they are never run
}

func genKey(t *rapid.T, o docOpts) string {
	if o.odd > 0 && chance(t, o.odd, "odd key?") {
		if chance(t, 15, "random key?") {
			return strings.ToValidUTF8(rapid.StringN(0, 6, 24).Draw(t, "random key"), "\ufffd")
		}
		return sample(t, "odd key", oddKeys)
	}
	ks := o.keys
	if ks == nil {
		ks = pathKeys
	}
	return sample(t, "key", ks)
}

func genScalar(t *rapid.T, o docOpts) any {
	switch pick(t, "scalar", 4, 4, 2, 1) {
	case 0:
		if o.plain {
			return float64(irange(t, "n", -2, 9))
		}
		return genNumber(t)
	case 1:
		if o.scripts && chance(t, 6, "script?") {
			return oneOf(t, "script", "#//!js\njson.trail.x = 1;", "#//!js\n", "#//!go\nx", "#//!py\nprint(1)", "#//!js\nthrow 1", "#//!js", "#//!js\nfor (;;) {}")
		}
		if o.plain {
			return sample(t, "s", []string{"", "a", "b", "bob", "jane", "x y", "5"})
		}
		return genString(t)
	case 2:
		return rapid.Bool().Draw(t, "bool")
	default:
		return nil
	}
}

func genValue(t *rapid.T, o docOpts, d int) any {
	if d <= 0 {
		return genScalar(t, o)
	}
	switch pick(t, "value", 4, 3, 3) {
	case 0:
		return genScalar(t, o)
	case 1:
		return genArray(t, o, d-1)
	default:
		return genObject(t, o, d-1)
	}
}

func genArray(t *rapid.T, o docOpts, d int) arr {
	n := irange(t, "len", 0, o.width)
	a := make(arr, n)
	// arrays of objects with the same keys are common
	for i := range a {
		if d > 0 && chance(t, 40, "object element?") {
			a[i] = genObject(t, o, d-1)
		} else {
			a[i] = genValue(t, o, d)
		}
	}
	return a
}

func genObject(t *rapid.T, o docOpts, d int) obj {
	n := irange(t, "members", 0, o.width)
	m := obj{}
	for i := 0; i < n; i++ {
		m[genKey(t, o)] = genValue(t, o, d)
	}
	return m
}

// A document: object root (mostly) or array root.
func genDoc(t *rapid.T, o docOpts, arrays int) any {
	if arrays > 0 && chance(t, arrays, "array root?") {
		a := genArray(t, o, o.depth)
		if len(a) == 0 && chance(t, 85, "not empty?") {
			a = append(a, genValue(t, o, o.depth))
		}
		return a
	}
	m := genObject(t, o, o.depth)
	for k := 0; k < 2 && len(m) < 2 && !chance(t, 10, "few?"); k++ {
		m[genKey(t, o)] = genValue(t, o, o.depth)
	}
	return m
}
