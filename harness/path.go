package main

// JSON path ASTs: rendering to text, expected keys, generation biased towards existing data.

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

// One step of a path.
type Seg struct {
	K    string `json:"k"` // prop wild idx slice wildidx filter rl first
	Name string `json:"name,omitempty"`
	Idx  []int  `json:"idx,omitempty"`
	Sp   string `json:"sp,omitempty"` // blanks after the commas of a list
	S    *int   `json:"s,omitempty"`
	E    *int   `json:"e,omitempty"`
	N    int    `json:"n,omitempty"` // first: number of descents
	F    *Pred  `json:"f,omitempty"`
	Raw  string `json:"raw,omitempty"` // filter text, if F is nil
	Fx   int    `json:"fx,omitempty"`  // what the filter does to its node once it has looked at it
	Dot  bool   `json:"dot,omitempty"` // "." in front of "["
}

func (s Seg) filterText() string {
	if s.F == nil {
		return s.Raw
	}
	if s.Fx > 0 {
		return sideEffects[s.Fx-1][0] + " " + s.F.render() + " " + sideEffects[s.Fx-1][1]
	}
	return s.F.render()
}

// What filters can do to their node (a copy) without another result. The expression goes in between.
var sideEffects = [][2]string{
	{"(function (v, n) { if (n && typeof n == 'object') { for (var k in n) { delete n[k] } n.length = 0; n[0] = 'x' } return v })((", "), @ )"},
	{"(function (v, n) { return v })((", "), @ = 'x' )"},
	{"(function (v, n) { if (n instanceof Array) { n.push(5); n.reverse() } else if (n instanceof Object) { n.a = 'x'; n.zz = n } return v })((", "), @ )"},
	{"(function (v, n) { var f = function (n) { for (var k in n) { if (n[k] instanceof Object) { f(n[k]) } else { n[k] = null } } }; f(n); return v })((", "), @ )"},
}

func renderPath(segs []Seg) string {
	var b strings.Builder
	b.WriteString("$")
	afterFirst := false
	for _, s := range segs {
		switch s.K {
		case "prop", "wild":
			if !afterFirst {
				b.WriteString(".")
			}
			if s.K == "prop" {
				b.WriteString(s.Name)
			} else {
				b.WriteString("*")
			}
		case "rl":
			b.WriteString(".." + s.Name)
		case "first":
			b.WriteString(strings.Repeat(".", s.N+2))
			afterFirst = true
			continue
		default:
			if s.Dot && !afterFirst {
				b.WriteString(".")
			}
			switch s.K {
			case "idx":
				parts := make([]string, len(s.Idx))
				for i, n := range s.Idx {
					parts[i] = strconv.Itoa(n)
				}
				b.WriteString("[" + strings.Join(parts, ","+s.Sp) + "]")
			case "slice":
				b.WriteString("[")
				if s.S != nil {
					b.WriteString(strconv.Itoa(*s.S))
				}
				b.WriteString(":")
				if s.E != nil {
					b.WriteString(strconv.Itoa(*s.E))
				}
				b.WriteString("]")
			case "wildidx":
				b.WriteString("[*]")
			case "filter":
				b.WriteString("[?(" + s.filterText() + ")]")
			default:
				panic("unknown segment " + s.K)
			}
		}
		afterFirst = false
	}
	return b.String()
}

// The absolute path keys that the path spells, one list per combination of listed indices.
func expectedKeys(segs []Seg) [][]json_map.AbsolutePathKey {
	key := func(k json_map.AbsolutePathKeyType, v interface{}) json_map.AbsolutePathKey {
		return json_map.AbsolutePathKey{KeyType: k, Value: v}
	}
	out := [][]json_map.AbsolutePathKey{{}}
	for _, s := range segs {
		var alts [][]json_map.AbsolutePathKey
		switch s.K {
		case "prop":
			alts = [][]json_map.AbsolutePathKey{{key(json_map.StringKey, s.Name)}}
		case "wild", "wildidx":
			alts = [][]json_map.AbsolutePathKey{{key(json_map.Wildcard, nil)}}
		case "rl":
			alts = [][]json_map.AbsolutePathKey{{key(json_map.RecursiveLookup, s.Name)}}
		case "first":
			one := []json_map.AbsolutePathKey{}
			for i := 0; i < s.N; i++ {
				one = append(one, key(json_map.First, nil))
			}
			alts = [][]json_map.AbsolutePathKey{one}
		case "idx":
			for _, n := range s.Idx {
				alts = append(alts, []json_map.AbsolutePathKey{key(json_map.IndexKey, n)})
			}
		case "slice":
			end := func(p *int) json_map.AbsolutePathKey {
				if p == nil {
					return key(json_map.StartEnd, nil)
				}
				return key(json_map.IndexKey, *p)
			}
			alts = [][]json_map.AbsolutePathKey{{key(json_map.Slice, []json_map.AbsolutePathKey{end(s.S), end(s.E)})}}
		case "filter":
			alts = [][]json_map.AbsolutePathKey{{key(json_map.Filter, s.filterText())}}
		}
		next := [][]json_map.AbsolutePathKey{}
		for _, p := range out {
			for _, a := range alts {
				next = append(next, append(append([]json_map.AbsolutePathKey{}, p...), a...))
			}
		}
		out = next
	}
	return out
}

// All combinations of listed indices as paths of single steps (first descents are split up too).
func expandSegs(segs []Seg) [][]Seg {
	out := [][]Seg{{}}
	for _, s := range segs {
		var alts [][]Seg
		switch s.K {
		case "idx":
			for _, n := range s.Idx {
				alts = append(alts, []Seg{{K: "idx", Idx: []int{n}}})
			}
		case "first":
			one := []Seg{}
			for i := 0; i < s.N; i++ {
				one = append(one, Seg{K: "first", N: 1})
			}
			alts = [][]Seg{one}
		default:
			alts = [][]Seg{{s}}
		}
		next := [][]Seg{}
		for _, p := range out {
			for _, a := range alts {
				next = append(next, append(append([]Seg{}, p...), a...))
			}
		}
		out = next
	}
	return out
}

func definite(segs []Seg) bool {
	for _, s := range segs {
		switch s.K {
		case "prop", "first":
		case "idx":
			if len(s.Idx) != 1 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

type pathOpts struct {
	maxLen   int
	noFilter bool
	noRoot   bool // no JSON paths of the root document within filters
	wildBias int
	forSet   bool
	prefix   []Seg
	noList   bool
	sane     int // percentage of steps that fit the data (default 88)
	noFirst  bool
}

func intp(n int) *int { return &n }

// Generates a path for the given root object.
func genPath(t *rapid.T, root obj, o pathOpts) []Seg {
	if o.maxLen == 0 {
		o.maxLen = 5
	}
	if o.sane == 0 {
		o.sane = 95
	}
	segs := append([]Seg{}, o.prefix...)
	cur := []any{root}
	if len(segs) > 0 {
		if vs, err := modelSelectRaw(root, segs); err == nil {
			cur = vs
		} else {
			cur = nil
		}
	}
	n := irange(t, "path length", 1, o.maxLen)
	edge := chance(t, 15, "to the edge?")
	for i := 0; i < n; i++ {
		var rep any = obj{}
		if len(cur) > 0 {
			rep = sample(t, "representative", cur)
			for k := 0; k < 3 && (!isContainer(rep) || size(rep) == 1); k++ {
				rep = sample(t, "representative", cur)
			}
		}
		if i > 0 && !isContainer(rep) && chance(t, 85, "stop on scalar?") {
			break
		}
		prevFirst := len(segs) > 0 && segs[len(segs)-1].K == "first"
		_, isArr := rep.(arr)
		if edge && !prevFirst && (isArr && (i == n-1 || chance(t, 60, "edge here?")) || !isArr && chance(t, 5, "edge anyway?")) {
			// whatever comes of it
			segs = append(segs, genEdgeSeg(t, rep))
			if chance(t, 50, "stop here?") {
				break
			}
			if vs, err := modelSelectRaw(root, segs); err == nil {
				cur = vs
			} else {
				cur = nil
			}
			continue
		}
		s := genSeg(t, rep, root, o, prevFirst, definite(segs))
		segs = append(segs, s)
		for k := 0; k < 4 && cur != nil; k++ {
			var err error
			if o.forSet {
				_, _, err = modelSet(root, segs, true)
			} else {
				_, err = modelSelectRaw(root, segs)
			}
			if err == nil || chance(t, 8, "keep the impossible step?") {
				break
			}
			if k == 3 && len(segs) > 1 && (segs[len(segs)-2].K != "first" || len(segs) > len(o.prefix)+1) {
				return segs[:len(segs)-1]
			}
			s = genSeg(t, rep, root, o, prevFirst, definite(segs[:len(segs)-1]))
			segs[len(segs)-1] = s
		}
		if vs, err := modelSelectRaw(root, segs); err == nil {
			cur = vs
			if len(vs) == 0 && chance(t, 70, "stop on nothing?") {
				break
			}
		} else {
			cur = nil
			if chance(t, 80, "stop on error?") {
				break
			}
		}
	}
	return segs
}

func existingKey(t *rapid.T, m obj) (string, bool) {
	ks := []string{}
	for _, k := range sortedKeys(m) {
		if isPathKey(k) {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return "", false
	}
	return sample(t, "existing key", ks), true
}

func isPathKey(k string) bool {
	if k == "" {
		return false
	}
	for i, c := range k {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c == '_':
		case i > 0 && (c >= '0' && c <= '9' || c == '-'):
		default:
			return false
		}
	}
	return true
}

// A key that occurs somewhere below v.
func deepKey(t *rapid.T, v any) string {
	ks := map[string]bool{}
	walk(v, func(v any) {
		if m, ok := v.(obj); ok {
			for k := range m {
				if isPathKey(k) {
					ks[k] = true
				}
			}
		}
	})
	if len(ks) == 0 {
		return sample(t, "key", pathKeys)
	}
	m := obj{}
	for k := range ks {
		m[k] = nil
	}
	return sample(t, "deep key", sortedKeys(m))
}

func genIndex(t *rapid.T, n int) int {
	if n > 0 && !chance(t, 3, "out of range?") {
		return irange(t, "index", 0, n-1)
	}
	if chance(t, 20, "far beyond?") {
		return sample(t, "far", farIndices)
	}
	return n + irange(t, "beyond", 0, 2)
}

var farIndices = []int{math.MaxInt64, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 / 2, 1 << 32, math.MaxUint32, 1 << 31, math.MaxInt32, 1 << 53, 256, 65536}

// A step at or beyond the limits of what it is taken from.
func genEdgeSeg(t *rapid.T, rep any) Seg {
	n := 2
	switch x := rep.(type) {
	case arr:
		n = len(x)
	case obj:
		n = len(x)
	}
	bounds := []int{0, 0, 1, n - 1, n, n, n + 1, n + 2}
	bound := func() int {
		if chance(t, 4, "far?") {
			return sample(t, "far", farIndices)
		}
		b := sample(t, "bound", bounds)
		if b < 0 {
			b = 0
		}
		return b
	}
	dot := chance(t, 12, "dotted bracket?")
	switch pick(t, "edge", 3, 3, 3, 2, 3, 1, 1, 1) {
	case 0:
		return Seg{K: "slice", S: intp(bound()), E: intp(bound()), Dot: dot}
	case 1:
		return Seg{K: "slice", S: intp(bound()), Dot: dot}
	case 2:
		return Seg{K: "slice", E: intp(bound()), Dot: dot}
	case 3:
		return Seg{K: "slice", S: intp(-bound() - 1), Dot: dot}
	case 4:
		return Seg{K: "slice", E: intp(-bound() - 1), Dot: dot}
	case 5:
		return Seg{K: "idx", Idx: []int{bound()}, Dot: dot}
	case 6:
		return Seg{K: "prop", Name: sample(t, "key", pathKeys)}
	default:
		return Seg{K: "rl", Name: sample(t, "key", pathKeys)}
	}
}

func genSlice(t *rapid.T, n int) Seg {
	s := Seg{K: "slice"}
	switch pick(t, "slice kind", 4, 3, 3, 2, 2) {
	case 0:
		a := irange(t, "from", 0, n)
		b := irange(t, "to", a, n)
		s.S, s.E = intp(a), intp(b)
		if chance(t, 10, "odd bounds?") {
			s.E = intp(irange(t, "any to", 0, n+3))
		}
	case 1:
		s.S = intp(irange(t, "from", 0, n+1))
	case 2:
		s.E = intp(irange(t, "to", 0, n+1))
	case 3:
		s.S = intp(-irange(t, "last", 1, n+1))
	default:
		s.E = intp(-irange(t, "but last", 1, n+1))
	}
	return s
}

func genSeg(t *rapid.T, rep any, root obj, o pathOpts, prevFirst, def bool) Seg {
	rl, first, filt := 10, 8, 12
	if prevFirst {
		rl, first = 0, 0
	}
	if o.noFirst {
		first = 0
	}
	if o.noFilter {
		filt = 0
	}
	dot := chance(t, 12, "dotted bracket?")
	if !chance(t, o.sane, "fitting step?") {
		// anything
		switch pick(t, "any step", 3, 2, 2, 1, 1, 1) {
		case 0:
			return Seg{K: "prop", Name: sample(t, "key", pathKeys)}
		case 1:
			return Seg{K: "idx", Idx: []int{irange(t, "i", 0, 4)}, Dot: dot}
		case 2:
			s := genSlice(t, 3)
			s.Dot = dot
			return s
		case 3:
			if first == 0 {
				return Seg{K: "wild"}
			}
			return Seg{K: "first", N: irange(t, "descents", 1, 3)}
		case 4:
			return Seg{K: "wildidx", Dot: dot}
		default:
			return Seg{K: "wild"}
		}
	}
	switch x := rep.(type) {
	case obj:
		switch pick(t, "object step", 45, rl, 6+o.wildBias, 3, first, filt) {
		case 1:
			return Seg{K: "rl", Name: deepKey(t, x)}
		case 2:
			return Seg{K: "wild"}
		case 3:
			return Seg{K: "wildidx", Dot: dot}
		case 4:
			return Seg{K: "first", N: sample(t, "descents", []int{1, 1, 1, 2, 2, 3, 4})}
		case 5:
			return genFilterSeg(t, x, root, o, def, dot)
		default:
			if k, ok := existingKey(t, x); ok && !chance(t, 3, "missing key?") {
				return Seg{K: "prop", Name: k}
			} else if !ok && len(x) > 0 {
				return Seg{K: "wild"}
			}
			return Seg{K: "prop", Name: sample(t, "key", pathKeys)}
		}
	case arr:
		list := 6
		if o.noList {
			list = 0
		}
		switch pick(t, "array step", 25, list, 10, 8+o.wildBias, 10, rl/2, filt, 3) {
		case 1:
			n := irange(t, "listed", 1, 3)
			s := Seg{K: "idx", Dot: dot, Sp: oneOf(t, "sp", " ", "", "  ")}
			for i := 0; i <= n; i++ {
				s.Idx = append(s.Idx, genIndex(t, len(x)))
			}
			return s
		case 2:
			s := genSlice(t, len(x))
			s.Dot = dot
			return s
		case 3:
			return Seg{K: "wildidx", Dot: dot}
		case 4:
			return Seg{K: "prop", Name: deepKey(t, x)}
		case 5:
			return Seg{K: "rl", Name: deepKey(t, x)}
		case 6:
			return genFilterSeg(t, x, root, o, def, dot)
		case 7:
			return Seg{K: "wild"}
		default:
			return Seg{K: "idx", Idx: []int{genIndex(t, len(x))}, Dot: dot}
		}
	default:
		return Seg{K: "prop", Name: sample(t, "key", pathKeys)}
	}
}

func genFilterSeg(t *rapid.T, over any, root obj, o pathOpts, def, dot bool) Seg {
	children := []any{}
	switch x := over.(type) {
	case obj:
		for _, k := range sortedKeys(x) {
			children = append(children, x[k])
		}
	case arr:
		children = x
	}
	r := root
	if o.noRoot || (o.forSet && !def) {
		r = nil
	}
	return Seg{K: "filter", F: genPred(t, children, r, 2), Dot: dot}
}

func pathString(segs []Seg) string { return fmt.Sprintf("%q", renderPath(segs)) }
