package main

// C15 to C19 and C32: parsing paths, selecting, filters, absolute paths.

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------------------------------------ C15 parsing

type parseCase struct {
	Kind string `json:"kind"` // valid mutant soup
	Segs []Seg  `json:"segs,omitempty"`
	Text string `json:"text"`
}

var (
	rlToken    = regexp.MustCompile(`^\.\.[a-zA-Z_][a-zA-Z0-9_-]*`)
	dotsToken  = regexp.MustCompile(`^\.+`)
	propToken  = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_-]*`)
	indexToken = regexp.MustCompile(`^\[\d+(,[ \t\n\f\r]*\d+)*\]`)
	sliceToken = regexp.MustCompile(`^\[(?:(-?\d+):|:(-?\d+)|(\d+):(\d+))\]`)
)

const (
	vAccept = iota
	vReject
	vOpen // not settled by the documented syntax
)

// An independent reading of the path syntax.
func refParse(text string) (segs []Seg, verdict int) {
	if !strings.HasPrefix(text, "$") {
		return nil, vReject
	}
	rest := text[1:]
	if strings.TrimSpace(rest) == "" {
		return nil, vOpen
	}
	after := "root"
	for rest != "" {
		if strings.TrimSpace(rest) == "" {
			return nil, vOpen
		}
		if tok := rlToken.FindString(rest); tok != "" {
			segs = append(segs, Seg{K: "rl", Name: tok[2:]})
			rest, after = rest[len(tok):], "rl"
			continue
		}
		if tok := dotsToken.FindString(rest); tok != "" {
			rest = rest[len(tok):]
			after = "dot"
			if len(tok) >= 3 {
				segs = append(segs, Seg{K: "first", N: len(tok) - 2})
				continue
			}
			if strings.TrimSpace(rest) == "" {
				return nil, vOpen
			}
			if len(tok) == 2 {
				// ".." in front of anything but a name is not settled, unless nothing can follow a dot like this
				if rest[0] == '*' || rest[0] == '[' {
					return nil, vOpen
				}
				return nil, vReject
			}
			continue
		}
		if after == "dot" {
			if rest[0] == '*' {
				segs = append(segs, Seg{K: "wild"})
				rest, after = rest[1:], "prop"
				continue
			}
			if tok := propToken.FindString(rest); tok != "" {
				segs = append(segs, Seg{K: "prop", Name: tok})
				rest, after = rest[len(tok):], "prop"
				continue
			}
		}
		if strings.HasPrefix(rest, "[?(") {
			if strings.Contains(rest, ")]") {
				return nil, vOpen
			}
			return nil, vReject
		}
		if strings.HasPrefix(rest, "[*]") {
			segs = append(segs, Seg{K: "wildidx"})
			rest, after = rest[3:], "index"
			continue
		}
		if tok := indexToken.FindString(rest); tok != "" {
			s := Seg{K: "idx"}
			for _, n := range strings.Split(tok[1:len(tok)-1], ",") {
				i, err := strconv.Atoi(strings.TrimSpace(n))
				if err != nil {
					return nil, vReject
				}
				s.Idx = append(s.Idx, i)
			}
			segs = append(segs, s)
			rest, after = rest[len(tok):], "index"
			continue
		}
		if m := sliceToken.FindStringSubmatch(rest); m != nil {
			s := Seg{K: "slice"}
			for _, b := range []struct {
				text string
				to   **int
			}{{m[1], &s.S}, {m[2], &s.E}, {m[3], &s.S}, {m[4], &s.E}} {
				if b.text != "" {
					i, err := strconv.Atoi(b.text)
					if err != nil {
						return nil, vReject
					}
					*b.to = &i
				}
			}
			segs = append(segs, s)
			rest, after = rest[len(m[0]):], "index"
			continue
		}
		return nil, vReject
	}
	return segs, vAccept
}

var soup = []string{"$", ".", "..", "...", "....", "a", "b-1", "_x", "name", "*", "[", "]", "[0]", "[1,2]", "[1, 2]", "[*]", "[1:]", "[:2]", "[1:2]", "[-1:]", "[:-1]",
	"[-1]", "[:]", "[-1:2]", "[1:-1]", "[a]", "[ 1]", "[1 ]", "[1,]", "[]", "[?(@)]", "[?(", ")]", "(@.a)", "1", "-", " ", "\t", "\n", "'", "\"", "é", "日", "@", ":", ",",
	"[99999999999999999999]", "[9223372036854775807]", "[9223372036854775808]", "[-9223372036854775808:]", "[:-9223372036854775809]", "[4294967296]", "[007]", "\x00", "\\", "..a", "..*", "a.b", "['a']", "[\"a\"]", "\u00a0", "٣", "[٣]", "[0,1,2,3]", "..b..c"}

func genFilterText(t *rapid.T) Seg {
	var children []any
	for i := irange(t, "children", 0, 2); i > 0; i-- {
		children = append(children, genValue(t, docOpts{depth: 2, width: 3, plain: true, scripts: true}, 1))
	}
	return Seg{K: "filter", F: genPred(t, children, obj{"a": 1.0, "b": arr{1.0, obj{"c": "x"}}}, 2), Dot: chance(t, 10, "dot?")}
}

// A path of the documented syntax, without regard to any document.
func genSyntax(t *rapid.T, max int) []Seg {
	n := irange(t, "segments", 1, max)
	segs := []Seg{}
	combos := 1
	name := func() string {
		if chance(t, 60, "usual name?") {
			return sample(t, "name", pathKeys)
		}
		return rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_-]{0,12}`).Draw(t, "any name")
	}
	num := func() int {
		return sample(t, "n", []int{0, 1, 2, 3, 7, 10, 42, 100, 65536, 1 << 31, 1 << 53})
	}
	for i := 0; i < n; i++ {
		prevFirst := len(segs) > 0 && segs[len(segs)-1].K == "first"
		dot := chance(t, 20, "dot?")
		w := []int{30, 5, 20, 12, 6, 6, 8, 8}
		if prevFirst {
			w[6], w[7] = 0, 0
		}
		if len(segs) > 40 {
			w[5] = 0
		}
		switch pick(t, "segment", w...) {
		case 0:
			segs = append(segs, Seg{K: "prop", Name: name()})
		case 1:
			segs = append(segs, Seg{K: "wild"})
		case 2:
			s := Seg{K: "idx", Dot: dot, Sp: oneOf(t, "blank", "", " ", "  ", "\t"), Idx: []int{num()}}
			if chance(t, 35, "list?") {
				for k := irange(t, "listed", 1, 4); k > 0 && combos*(len(s.Idx)+1) <= 300; k-- {
					s.Idx = append(s.Idx, num())
				}
			}
			combos *= len(s.Idx)
			segs = append(segs, s)
		case 3:
			s := Seg{K: "slice", Dot: dot}
			switch pick(t, "slice", 1, 1, 1, 1, 1) {
			case 0:
				s.S, s.E = intp(num()), intp(num())
			case 1:
				s.S = intp(num())
			case 2:
				s.E = intp(num())
			case 3:
				s.S = intp(-num() - 1)
			default:
				s.E = intp(-num() - 1)
			}
			segs = append(segs, s)
		case 4:
			segs = append(segs, Seg{K: "wildidx", Dot: dot})
		case 5:
			s := genFilterText(t)
			segs = append(segs, s)
		case 6:
			segs = append(segs, Seg{K: "rl", Name: name()})
		default:
			segs = append(segs, Seg{K: "first", N: sample(t, "descents", []int{1, 1, 2, 3, 4, 5, 9, 17, 40})})
		}
	}
	return segs
}

func genParseCase(t *rapid.T) parseCase {
	switch pick(t, "kind", 12, 5, 3) {
	case 0:
		max := 8
		if chance(t, 4, "long?") {
			max = 120
		}
		segs := genSyntax(t, max)
		if chance(t, 1, "a long token?") {
			// longer than the buffer of a reader, or just as long
			n := irange(t, "length", 4060, 4110) * irange(t, "times", 1, 3)
			k := uniform(t, len(segs)+1)
			s := Seg{K: oneOf(t, "long", "prop", "rl"), Name: strings.Repeat("ab_1-", n/5) + "abcd"[:n%5]}
			if k > 0 && segs[k-1].K == "first" {
				s.K = "prop"
			}
			segs = append(segs[:k:k], append([]Seg{s}, segs[k:]...)...)
		}
		return parseCase{Kind: "valid", Segs: segs, Text: renderPath(segs)}
	case 1:
		text := renderPath(genSyntax(t, 5))
		for n := irange(t, "mutations", 1, 2); n > 0; n-- {
			at := irange(t, "at", 0, len(text))
			to := at
			if chance(t, 60, "cut?") {
				to = irange(t, "to", at, min(len(text), at+3))
			}
			ins := ""
			if to == at || chance(t, 50, "insert?") {
				ins = sample(t, "insert", soup)
			}
			text = text[:at] + ins + text[to:]
		}
		return parseCase{Kind: "mutant", Text: strings.ToValidUTF8(text, "?")}
	default:
		var b strings.Builder
		if chance(t, 85, "root?") {
			b.WriteString("$")
		}
		for n := irange(t, "tokens", 0, 7); n > 0; n-- {
			b.WriteString(sample(t, "token", soup))
		}
		if chance(t, 10, "random tail?") {
			b.WriteString(strings.ToValidUTF8(rapid.String().Draw(t, "tail"), "?"))
		}
		return parseCase{Kind: "soup", Text: b.String()}
	}
}

func keysEqual(a, b json_map.AbsolutePathKey) bool {
	if a.KeyType != b.KeyType {
		return false
	}
	if a.KeyType == json_map.Slice {
		x, ok1 := a.Value.([]json_map.AbsolutePathKey)
		y, ok2 := b.Value.([]json_map.AbsolutePathKey)
		return ok1 && ok2 && pathEqual(x, y)
	}
	return reflect.DeepEqual(a.Value, b.Value)
}

func pathEqual(a, b []json_map.AbsolutePathKey) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !keysEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

func comparePaths(got json_map.AbsolutePaths, want [][]json_map.AbsolutePathKey) error {
	if len(got) != len(want) {
		return failf("%d absolute paths instead of %d: %v, expected %v", len(got), len(want), short(fmt.Sprint(got)), short(fmt.Sprint(want)))
	}
	for i := range got {
		if !pathEqual(got[i], want[i]) {
			return failf("absolute path %d is %v, expected %v", i, short(fmt.Sprint(got[i])), short(fmt.Sprint(want[i])))
		}
	}
	return nil
}

func checkParse(c parseCase, x *Ctx) error {
	got, err := json_map.ParseJsonPath(c.Text)
	segs, verdict := c.Segs, vAccept
	if c.Kind != "valid" {
		segs, verdict = refParse(c.Text)
	} else if len(segs) > 1 || segs[0].K != "prop" {
		x.NonTrivial()
	}
	x.Tag(c.Kind)
	switch verdict {
	case vOpen:
		x.Tag("not settled by the syntax")
		return nil
	case vReject:
		x.NonTrivial()
		x.Tag("must be refused")
		if err == nil {
			return failf("%q is outside the path syntax but parses to %v", c.Text, short(fmt.Sprint(got)))
		}
		if len(got) != 0 {
			// (ParseJsonPath may give what it had when it met an error)
			x.Tag("paths beside error")
		}
		return nil
	}
	if c.Kind != "valid" {
		x.NonTrivial()
		x.Tag("accepted mutant")
		n := 1
		for _, s := range segs {
			if s.K == "idx" {
				n *= len(s.Idx)
			}
		}
		if n > 3000 {
			return skip("too many combinations")
		}
	}
	if err != nil {
		return failf("%q does not parse: %v", c.Text, err)
	}
	for _, s := range segs {
		x.Tag("segment " + s.K)
	}
	if err := comparePaths(got, expectedKeys(segs)); err != nil {
		return failf("%q: %v", c.Text, err)
	}
	return nil
}

// ------------------------------------------------------------------------------------------------ C16 selection

type selectCase struct {
	Doc  any   `json:"doc"`
	Path []Seg `json:"path"`
}

func genSelDoc(t *rapid.T) any {
	o := docOpts{depth: 4, width: 4, plain: true, odd: 4, scripts: true}
	switch pick(t, "document", 70, 15, 8, 7) {
	case 1:
		o.depth, o.width = 2, 8
	case 2:
		o.depth, o.width = 1, 30
	case 3:
		o.depth, o.width = 7, 3
	}
	if chance(t, 15, "few keys?") {
		o.keys = []string{"a", "b"}
	}
	return genDoc(t, o, 15)
}

func genSelectCase(t *rapid.T) selectCase {
	doc := genSelDoc(t)
	return selectCase{Doc: doc, Path: genPath(t, rootOf(doc), pathOpts{maxLen: 5})}
}

func tagSegs(x *Ctx, segs []Seg) {
	for _, s := range segs {
		x.Tag("segment " + s.K)
		if s.K == "idx" && len(s.Idx) > 1 {
			x.Tag("segment list")
		}
	}
}

func nodeValues(nodes []*json_map.JsonPathNode) (out []any, err error) {
	out = []any{}
	for i, n := range nodes {
		if n == nil {
			return nil, failf("node %d is nil", i)
		}
		out = append(out, norm(n.Value))
	}
	return out, nil
}

func wantSame(what string, got, want any) error {
	if !same(got, want) {
		return failf("%s: got %s, expected %s", what, short(got), short(want))
	}
	return nil
}

func normList(vs []any) []any {
	out := []any{}
	for _, v := range vs {
		out = append(out, norm(v))
	}
	return out
}

func checkSelect(c selectCase, x *Ctx) error {
	text := renderPath(c.Path)
	want, merr := modelSelect(rootOf(c.Doc), c.Path)
	if _, ok := merr.(discard); ok {
		return merr
	}
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	nodes, err := j.JsonPathSelector(text)
	tagSegs(x, c.Path)
	if merr != nil {
		x.NonTrivial()
		x.Tag("impossible step: " + firstWords(merr.Error(), 3))
		if err == nil {
			got, _ := nodeValues(nodes)
			return failf("selecting %s of %s gives %s, expected an error (%v)", text, short(c.Doc), short(got), merr)
		}
		if len(nodes) != 0 {
			return failf("selecting %s of %s gives %d values beside the error %v", text, short(c.Doc), len(nodes), err)
		}
		return nil
	}
	if len(want) > 0 {
		x.NonTrivial()
	}
	x.TagIf(len(want) == 0, "nothing selected")
	x.TagIf(len(want) > 1, "several values")
	if err != nil {
		return failf("selecting %s of %s fails: %v; expected %s", text, short(c.Doc), err, short(want))
	}
	got, err := nodeValues(nodes)
	if err != nil {
		return err
	}
	return wantSame(fmt.Sprintf("selecting %s of %s", text, short(c.Doc)), got, normList(want))
}

// ------------------------------------------------------------------------------------------------ C17 determinism and concurrency

type concCase struct {
	Doc   any     `json:"doc"`
	Paths [][]Seg `json:"paths"`
	G     int     `json:"g"`
	// goroutines that read the document without selecting
	Readers int `json:"readers,omitempty"`
}

func genConcCase(t *rapid.T) concCase {
	doc := genSelDoc(t)
	c := concCase{Doc: doc, G: irange(t, "goroutines", 2, 8), Readers: irange(t, "readers", 0, 3)}
	for n := irange(t, "paths", 1, 5); n > 0; n-- {
		p := genPath(t, rootOf(doc), pathOpts{maxLen: 4, wildBias: 30})
		for i, s := range p {
			if s.K == "filter" && chance(t, 40, "order?") {
				p[i].F, p[i].Raw = nil, sample(t, "which order", orderFilters)
			} else if s.F != nil && chance(t, 40, "side effects?") {
				p[i].Fx = irange(t, "effect", 1, len(sideEffects))
			}
		}
		if len(p) > 0 && p[len(p)-1].K != "filter" && p[len(p)-1].K != "first" && chance(t, 30, "filter at the end?") {
			p = append(p, Seg{K: "filter", Raw: sample(t, "which order", orderFilters)})
		}
		c.Paths = append(c.Paths, p)
	}
	return c
}

// Filters whose outcome depends on the order in which they see the members of objects.
var orderFilters = []string{
	"(function (v) { var o = ''; for (var k in v) { o += k; } return o.length === 0 || o.charCodeAt(0) % 2 === 0; })(@)",
	"(function (v) { for (var k in v) { return k < 'g'; } return true; })(@)",
	"JSON.stringify([@]) < '[{\"f'",
	"JSON.stringify([@]).charCodeAt(3) % 2 === 1",
	"typeof @ === 'object' && Object.keys(@ || {})[0] < 'e'",
	"(function w(v) { if (typeof v === 'string') { return false; } for (var k in v) { return w(v[k]); } return true; })(@)",
	"(function (v) { var last; for (var k in v) { last = v[k]; } return typeof last !== 'number'; })(@)",
}

type selOutcome struct {
	Err    bool
	Values []any
	Abs    string
}

func selectOutcome(j *jom.JsonMap, text string) (o selOutcome) {
	nodes, err := j.JsonPathSelector(text)
	o.Err = err != nil
	for _, n := range nodes {
		o.Values = append(o.Values, clone(norm(n.Value)))
		o.Abs += fmt.Sprint(n.Absolute) + ";"
	}
	return
}

func checkConc(c concCase, x *Ctx) error {
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	before, err := dump(j)
	if err != nil {
		return err
	}
	texts := []string{}
	for _, p := range c.Paths {
		texts = append(texts, renderPath(p))
		tagSegs(x, p)
	}
	first := []selOutcome{}
	for _, text := range texts {
		o := selectOutcome(j, text)
		first = append(first, o)
		if len(o.Values) > 1 {
			x.NonTrivial()
		}
	}
	unchanged := func(when string) error {
		after, err := dump(j)
		if err != nil {
			return err
		}
		return wantSame("document after "+when, after, before)
	}
	if err := unchanged("selecting " + strings.Join(texts, " and ")); err != nil {
		return err
	}
	compare := func(when string, i int, o selOutcome) error {
		if !reflect.DeepEqual(o, first[i]) {
			return failf("selecting %s of %s gives %s %s, but %s %s %s", texts[i], short(c.Doc), short(first[i].Values), short(first[i].Abs), short(o.Values), short(o.Abs), when)
		}
		return nil
	}
	// again on the same document, and on documents of equal value
	for r := 0; r < 4; r++ {
		k := j
		if r > 0 {
			if k, err = load(clone(c.Doc)); err != nil {
				return err
			}
		}
		for i, text := range texts {
			if err := compare(fmt.Sprintf("in call %d", r+2), i, selectOutcome(k, text)); err != nil {
				return err
			}
		}
	}
	// at the same time, while others read the document in other ways
	var wg sync.WaitGroup
	errs := make([]error, c.G+c.Readers)
	start := make(chan struct{})
	printed, array := j.String(), j.IsArray()
	for g := 0; g < c.G+c.Readers; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[g] = failf("panic in concurrent selection: %v", p)
				}
			}()
			<-start
			if g >= c.G {
				errs[g] = func() error {
					for k := 0; k < 3; k++ {
						if j.IsArray() != array {
							return failf("IsArray changes while others select")
						}
						if got := j.String(); got != printed {
							return failf("the document is printed as %s instead of %s while others select", short(got), short(printed))
						}
						if got, err := dump(j); err != nil || !same(got, before) {
							return failf("the document marshals to %s (%v) instead of %s while others select", short(got), err, short(before))
						}
						if got, err := dump(j.Clone(false)); err != nil || !same(got, before) {
							return failf("the document is cloned to %s (%v) instead of %s while others select", short(got), err, short(before))
						}
						if got := j.GetCurrentScopePath(); got != "$" && got != "" {
							return failf("the scope path is %q while others select", got)
						}
					}
					return nil
				}()
				return
			}
			for k := range texts {
				i := (k + g) % len(texts)
				if err := compare("when selecting concurrently", i, selectOutcome(j, texts[i])); err != nil {
					errs[g] = err
					return
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return unchanged("concurrent selection")
}

// ------------------------------------------------------------------------------------------------ C18 absolute paths of nodes

func checkAbsolute(c selectCase, x *Ctx) error {
	text := renderPath(c.Path)
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	nodes, err := j.JsonPathSelector(text)
	if err != nil {
		x.Tag("error")
		return nil
	}
	tagSegs(x, c.Path)
	if len(nodes) > 0 {
		x.NonTrivial()
	}
	x.TagIf(len(nodes) > 1, "several nodes")
	for i, n := range nodes {
		want := norm(n.Value)
		abs := append([]json_map.AbsolutePathKey{}, n.Absolute...)
		if a, ok := want.(arr); ok {
			x.Tag("array node")
			_ = a
		}
		// read the path by hand, if it consists of keys and indices
		if v, ok := byHand(rootOf(c.Doc), abs); ok {
			if !same(norm(v), want) {
				return failf("node %d of %s in %s: its path %v leads to %s but its value is %s", i, text, short(c.Doc), abs, short(v), short(want))
			}
		}
		back, errs := j.GetAbsolutePaths(&json_map.AbsolutePaths{abs})
		if len(errs) > 0 {
			return failf("node %d of %s in %s: looking its path %v up fails: %v", i, text, short(c.Doc), abs, errs)
		}
		got, err := nodeValues(back)
		if err != nil {
			return err
		}
		expect := []any{want}
		if a, ok := want.(arr); ok {
			expect = append([]any{}, a...)
		}
		if err := wantSame(fmt.Sprintf("node %d of %s in %s, looking up its path %v", i, text, short(c.Doc), abs), got, expect); err != nil {
			return err
		}
	}
	return nil
}

func byHand(v any, path []json_map.AbsolutePathKey) (any, bool) {
	for _, k := range path {
		switch k.KeyType {
		case json_map.StringKey:
			m, ok := v.(obj)
			if !ok {
				return nil, false
			}
			s, ok := k.Value.(string)
			if !ok {
				return nil, false
			}
			if v, ok = m[s]; !ok {
				return "<missing>", true
			}
		case json_map.IndexKey:
			a, ok := v.(arr)
			n, isInt := k.Value.(int)
			if !ok || !isInt || n < 0 || n >= len(a) {
				return "<missing>", true
			}
			v = a[n]
		default:
			return nil, false
		}
	}
	return v, true
}

// ------------------------------------------------------------------------------------------------ C19 filters

type filterCase struct {
	Doc  any    `json:"doc"`
	Path []Seg  `json:"path"`
	Op   string `json:"op"` // select set delete
	Val  any    `json:"val,omitempty"`
	Bad  bool   `json:"bad,omitempty"` // the filter's raw text does not parse as Javascript
}

var badExprs = []string{"@ ===", "=== 1", "@.", "@ + ", "1 2", "'unclosed", "@ ? 1", "@ ? : 2", "var", "@ == = 1", "[1", "{", "}", "@.a b", "&& @", "@ || ", "\"", "!",
	"@ === 'a' 'b'", "if", "for(;;)", "@...", "'it's'", "@ @", ";;", "nope(@)", "undefinedName", "@.x.y.z.w.v", "throw 1", "null.x", "(function () { throw 1 })()", "(function () { throw Object.create(null) })()", "(function () { throw {toString: null, valueOf: null} })()", "(function () { throw {toString: function () { throw 1 }} })()", "(undefined)()", "@ instanceof 1", "'a' in 5"}

func genFilterCase(t *rapid.T) filterCase {
	doc := genDoc(t, docOpts{depth: 3, width: 4, plain: true, odd: 5, scripts: true}, 15)
	root := rootOf(doc)
	var targets [][]Seg
	var vals []any
	var rec func(v any, p []Seg)
	rec = func(v any, p []Seg) {
		if len(p) > 6 {
			return
		}
		switch x := v.(type) {
		case obj:
			if len(x) > 0 {
				targets, vals = append(targets, append([]Seg{}, p...)), append(vals, v)
			}
			for _, k := range sortedKeys(x) {
				if isPathKey(k) {
					rec(x[k], append(p[:len(p):len(p)], Seg{K: "prop", Name: k}))
				}
			}
		case arr:
			if len(x) > 0 {
				targets, vals = append(targets, append([]Seg{}, p...)), append(vals, v)
			}
			for i := range x {
				rec(x[i], append(p[:len(p):len(p)], Seg{K: "idx", Idx: []int{i}}))
			}
		}
	}
	rec(root, nil)
	if len(targets) == 0 {
		root["a"] = arr{1.0, 2.0, "b"}
		if a, ok := doc.(arr); ok {
			_ = a
			doc = obj{"a": arr{1.0, 2.0, "b"}}
			root = doc.(obj)
		}
		targets, vals = [][]Seg{{{K: "prop", Name: "a"}}}, []any{root["a"]}
	}
	i := irange(t, "target", 0, len(targets)-1)
	c := filterCase{Doc: doc, Path: targets[i], Op: oneOf(t, "operation", "select", "select", "select", "delete", "set")}
	if c.Op != "select" {
		if _, isArr := doc.(arr); isArr && len(c.Path) < 1 {
			c.Op = "select"
		}
		c.Val = oneOf[any](t, "value", "new", 1.0, obj{"a": 1.0}, false)
		if c.Op == "delete" {
			c.Val = nil
		}
	}
	if chance(t, 12, "bad expression?") {
		c.Bad = true
		c.Path = append(c.Path, Seg{K: "filter", Raw: sample(t, "bad expression", badExprs)})
		return c
	}
	c.Path = append(c.Path, genFilterSeg(t, vals[i], root, pathOpts{forSet: c.Op != "select"}, true, chance(t, 10, "dot?")))
	if s := &c.Path[len(c.Path)-1]; s.F != nil && chance(t, 20, "side effects?") {
		s.Fx = irange(t, "effect", 1, len(sideEffects))
		if a, ok := vals[i].(arr); ok && len(a) < 5 && chance(t, 50, "equal nodes?") {
			// (the new ones are equal to ones that are there)
			k := uniform(t, len(a))
			for n := irange(t, "copies", 1, 2); n > 0; n-- {
				a = append(a[:k:k], append(arr{clone(a[k])}, a[k:]...)...)
			}
			c.Doc = docOf(replaceAt(root, targets[i], a).(obj), isArray(doc))
			root = rootOf(c.Doc)
		}
	}
	if chance(t, 25, "further?") {
		c.Path = genPath(t, root, pathOpts{prefix: c.Path, maxLen: 2, noFilter: c.Op != "select", forSet: c.Op != "select"})
	}
	return c
}

func isArray(v any) bool {
	_, ok := v.(arr)
	return ok
}

func checkFilter(c filterCase, x *Ctx) error {
	text := renderPath(c.Path)
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	what := fmt.Sprintf("%s %s of %s", c.Op, text, short(c.Doc))
	x.Tag(c.Op)
	for _, s := range c.Path {
		x.TagIf(s.Fx > 0, "side effects")
	}
	if c.Bad {
		x.Tag("expression that throws or does not parse")
		x.NonTrivial()
		if c.Op == "select" {
			nodes, err := j.JsonPathSelector(text)
			if err == nil {
				got, _ := nodeValues(nodes)
				return failf("%s: gives %s, expected an error", what, short(got))
			}
			if len(nodes) != 0 {
				return failf("%s: gives values beside an error", what)
			}
			return nil
		}
		if err := j.JsonPathSetter(text, c.Val); err == nil {
			return failf("%s: no error", what)
		}
		return nil
	}
	root := rootOf(c.Doc)
	_, isArr := c.Doc.(arr)
	if c.Op == "select" {
		want, merr := modelSelect(root, c.Path)
		if _, ok := merr.(discard); ok {
			return merr
		}
		nodes, err := j.JsonPathSelector(text)
		if merr != nil {
			x.Tag("error expected")
			x.NonTrivial()
			if err == nil {
				got, _ := nodeValues(nodes)
				return failf("%s: gives %s, expected an error (%v)", what, short(got), merr)
			}
			return nil
		}
		if err != nil {
			return failf("%s: fails: %v; expected %s", what, err, short(want))
		}
		if len(want) > 0 {
			x.NonTrivial()
			x.Tag("something kept")
		} else {
			x.Tag("nothing kept")
		}
		got, err := nodeValues(nodes)
		if err != nil {
			return err
		}
		return wantSame(what, got, normList(want))
	}
	if c.Op == "delete" {
		c.Val = nil
	}
	want, hits, merr := modelSet(root, c.Path, c.Val)
	if _, ok := merr.(discard); ok {
		return merr
	}
	if merr == nil && isArr {
		if _, ok := want["array"].(arr); !ok || len(want) != 1 {
			return skip("root array replaced")
		}
	}
	err = j.JsonPathSetter(text, c.Val)
	if merr != nil {
		x.Tag("error expected")
		x.NonTrivial()
		if err == nil {
			return failf("%s: no error, expected one (%v)", what, merr)
		}
		return nil
	}
	if hits > 0 {
		x.NonTrivial()
	}
	if err != nil {
		return failf("%s: fails: %v", what, err)
	}
	got, err := dump(j)
	if err != nil {
		return err
	}
	return wantSame(what, got, norm(docOf(want, isArr)))
}

// ------------------------------------------------------------------------------------------------ C32 absolute paths

type absCase struct {
	Doc   any     `json:"doc"`
	Paths [][]Seg `json:"paths"`
	Op    string  `json:"op"` // get set delete add
	Val   any     `json:"val,omitempty"`
	Adds  [][]int `json:"adds,omitempty"`
	Keys  [][]any `json:"keys,omitempty"` // added and checked against the document
	Spare int     `json:"spare,omitempty"`
	Odd   bool    `json:"odd,omitempty"` // some keys cannot be written in a text path: compared with the model
}

// Gives some of the keys in the paths names that no text path can spell, in the document as well.
func (c *absCase) rename(t *rapid.T) {
	used := map[string]bool{"array": true}
	walk(c.Doc, func(v any) {
		if m, ok := v.(obj); ok {
			for k := range m {
				used[k] = true
			}
		}
	})
	names := map[string]string{}
	for _, p := range c.Paths {
		for i := range p {
			old := p[i].Name
			if p[i].K != "prop" && p[i].K != "rl" || old == "array" {
				continue
			}
			if _, ok := names[old]; !ok && chance(t, 75, "rename?") {
				name := sample(t, "odd key", absKeys)
				if chance(t, 40, "near the old one?") {
					name = strings.ReplaceAll(sample(t, "near", []string{" K", "K ", "K.", ".K", "K.K", "K[0]", "K\n", "$K", "'K'", "\"K\"", "K ", "K\u0301", "%K", "K\x00"}), "K", old)
				}
				if !used[name] {
					used[name] = true
					names[old] = name
					c.Odd = true
				}
			}
			if name, ok := names[old]; ok {
				p[i].Name = name
			}
		}
	}
	var rec func(v any) any
	rec = func(v any) any {
		switch x := v.(type) {
		case obj:
			m := obj{}
			for k, e := range x {
				if name, ok := names[k]; ok {
					k = name
				}
				m[k] = rec(e)
			}
			return m
		case arr:
			for i := range x {
				x[i] = rec(x[i])
			}
		}
		return v
	}
	c.Doc = rec(c.Doc)
}

var absKeys = append([]string{" ", "  a", "a ", "a.b", "..", "*", "[*]", "[0]", "?(@)", "1", "0", "-1", "A\nb", "\ta", "a\t", ":", "1:2"}, oddKeys...)

func genAbsCase(t *rapid.T) absCase {
	c := absCase{Op: oneOf(t, "operation", "get", "get", "set", "delete", "add")}
	if c.Op == "add" && chance(t, 50, "checked?") {
		c.Op = "check"
		c.Doc = genSelDoc(t)
		cur := []any{rootOf(c.Doc)}
		for n := irange(t, "additions", 1, 4); n > 0; n-- {
			keys := []any{}
			next := []any{}
			for m := pick(t, "keys", 1, 6, 2, 1); m > 0; m-- {
				rep := sample(t, "representative", cur)
				switch x := rep.(type) {
				case obj:
					if len(x) > 0 && !chance(t, 6, "other?") {
						k := sample(t, "key", sortedKeys(x))
						keys = append(keys, k)
						next = append(next, x[k])
						continue
					}
				case arr:
					if len(x) > 0 && !chance(t, 6, "other?") {
						i := irange(t, "index", 0, len(x)-1)
						keys = append(keys, i)
						next = append(next, x[i])
						continue
					}
				}
				if chance(t, 50, "string?") {
					keys = append(keys, sample(t, "key", pathKeys))
				} else {
					keys = append(keys, irange(t, "index", -1, 3))
				}
			}
			c.Keys = append(c.Keys, keys)
			if len(next) > 0 {
				cur = next
			}
		}
		return c
	}
	if c.Op == "add" {
		for n := irange(t, "initial paths", 0, 3); n > 0; n-- {
			c.Paths = append(c.Paths, genSyntax(t, 3))
		}
		c.Spare = irange(t, "spare capacity", 0, 4)
		for n := irange(t, "additions", 1, 4); n > 0; n-- {
			c.Adds = append(c.Adds, intSlice(t, "keys", 0, 5, 0, 3))
		}
		return c
	}
	doc := genSelDoc(t)
	c.Doc = doc
	o := pathOpts{maxLen: 4}
	n := 1
	if c.Op == "get" {
		n = irange(t, "paths", 1, 3)
	} else {
		o.forSet = true
		if _, ok := doc.(arr); ok {
			o.prefix = []Seg{{K: "prop", Name: "array"}}
		}
		if c.Op == "set" {
			c.Val = genSetValue(t)
		}
	}
	odd := chance(t, 40, "odd keys?")
	o.noFilter = odd
	for ; n > 0; n-- {
		c.Paths = append(c.Paths, genPath(t, rootOf(doc), o))
	}
	if odd {
		c.rename(t)
	}
	if odd && chance(t, 50, "odd numbers?") {
		for _, p := range c.Paths {
			for i := range p {
				switch {
				case p[i].K == "idx" && len(p[i].Idx) == 1 && chance(t, 12, "negative index?"):
					p[i].Idx = []int{-irange(t, "below", 1, 3)}
					c.Odd = true
				case p[i].K == "slice" && chance(t, 50, "any bounds?"):
					p[i].S, p[i].E = nil, nil
					if chance(t, 80, "from?") {
						p[i].S = intp(irange(t, "from", -4, 4))
					}
					if p[i].S == nil || chance(t, 80, "to?") {
						p[i].E = intp(irange(t, "to", -4, 5))
					}
					c.Odd = true
				}
			}
		}
	}
	return c
}

func checkAbs(c absCase, x *Ctx) error {
	x.Tag(c.Op)
	if c.Op == "add" {
		return checkAddToAll(c, x)
	}
	if c.Op == "check" {
		return checkAddChecked(c, x)
	}
	// built by hand, without the parser
	abs := json_map.AbsolutePaths{}
	for _, p := range c.Paths {
		tagSegs(x, p)
		for _, keys := range expectedKeys(p) {
			abs = append(abs, keys)
		}
	}
	texts := []string{}
	for _, p := range c.Paths {
		texts = append(texts, renderPath(p))
	}
	what := fmt.Sprintf("%s by absolute paths %s of %s", c.Op, strings.Join(texts, " and "), short(c.Doc))
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	k, err := load(c.Doc)
	if err != nil {
		return err
	}
	before := fmt.Sprint(abs)
	x.TagIf(c.Odd, "keys that no text path spells")
	if c.Op == "get" {
		want := []any{}
		var wantErr error
		for i, text := range texts {
			if c.Odd {
				vs, err := modelSelect(rootOf(c.Doc), c.Paths[i])
				if err != nil {
					wantErr = err
					break
				}
				want = append(want, normList(vs)...)
				continue
			}
			nodes, err := k.JsonPathSelector(text)
			if err != nil {
				wantErr = err
				break
			}
			vs, err := nodeValues(nodes)
			if err != nil {
				return err
			}
			want = append(want, vs...)
		}
		nodes, errs := j.GetAbsolutePaths(&abs)
		if fmt.Sprint(abs) != before {
			return failf("%s changes the paths given: %v", what, abs)
		}
		if wantErr != nil {
			x.NonTrivial()
			x.Tag("failing path")
			if len(errs) == 0 {
				return failf("%s: no error, but the text path gives %v", what, wantErr)
			}
			return nil
		}
		if len(want) > 0 {
			x.NonTrivial()
		}
		x.TagIf(len(abs) > 1, "several absolute paths")
		if len(errs) > 0 {
			return failf("%s: fails: %v", what, errs)
		}
		got, err := nodeValues(nodes)
		if err != nil {
			return err
		}
		return wantSame(what, got, want)
	}
	var wantDoc obj
	var wantErr error
	if c.Odd {
		wantDoc, _, wantErr = modelSet(rootOf(c.Doc), c.Paths[0], c.Val)
		if _, ok := wantErr.(discard); ok {
			return wantErr
		}
	} else {
		wantErr = k.JsonPathSetter(texts[0], clone(c.Val))
	}
	gotErr := j.SetAbsolutePaths(&abs, clone(c.Val))
	if fmt.Sprint(abs) != before {
		return failf("%s changes the paths given: %v", what, abs)
	}
	x.NonTrivial()
	if (wantErr != nil) != (gotErr != nil) {
		return failf("%s: error %v, but %v for the text path", what, gotErr, wantErr)
	}
	if wantErr != nil {
		x.Tag("failing path")
		return nil
	}
	var want any
	if c.Odd {
		_, isArr := c.Doc.(arr)
		if a, ok := wantDoc["array"].(arr); isArr && (!ok || a == nil || len(wantDoc) != 1) {
			return skip("root array replaced")
		}
		want = norm(docOf(wantDoc, isArr))
	} else if want, err = dump(k); err != nil {
		return skip("root array replaced")
	}
	got, err := dump(j)
	if err != nil {
		return err
	}
	return wantSame(what, got, want)
}

// Adding keys with the check turned on: an error is reported exactly when one of the paths cannot be taken.
func checkAddChecked(c absCase, x *Ctx) error {
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	root := rootOf(c.Doc)
	paths := json_map.AbsolutePaths{}
	want := [][]json_map.AbsolutePathKey{}
	segs := [][]Seg{}
	for n, add := range c.Keys {
		keys := []json_map.AbsolutePathKey{}
		added := []Seg{}
		for _, k := range add {
			if s, ok := k.(string); ok {
				keys = append(keys, json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: s})
				added = append(added, Seg{K: "prop", Name: s})
			} else {
				i, _ := toIndex(k)
				keys = append(keys, json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: i})
				added = append(added, Seg{K: "idx", Idx: []int{i}})
			}
		}
		what := fmt.Sprintf("adding %v to %v, checked against %s", keys, paths, short(c.Doc))
		errs := paths.AddToAll(j, true, keys...)
		if len(keys) == 0 {
			if len(errs) > 0 {
				return failf("%s: fails: %v", what, errs)
			}
			continue
		}
		if n == 0 || len(want) == 0 {
			want, segs = [][]json_map.AbsolutePathKey{{}}, [][]Seg{{}}
		}
		next, nextSegs := [][]json_map.AbsolutePathKey{}, [][]Seg{}
		fails := false
		for i, p := range want {
			for m, k := range keys {
				next = append(next, append(append([]json_map.AbsolutePathKey{}, p...), k))
				s := append(append([]Seg{}, segs[i]...), added[m])
				nextSegs = append(nextSegs, s)
				if _, err := modelSelectRaw(root, s); err != nil {
					fails = true
				}
			}
		}
		want, segs = next, nextSegs
		if fails != (len(errs) > 0) {
			return failf("%s: errors %v, but a path that cannot be taken: %v", what, errs, fails)
		}
		x.NonTrivial()
		x.TagIf(fails, "failing path")
		x.TagIf(!fails, "passing check")
		if err := comparePaths(paths, want); err != nil {
			return failf("%s: %v", what, err)
		}
	}
	got, err := dump(j)
	if err != nil {
		return err
	}
	return wantSame("document after checking paths against it", got, norm(c.Doc))
}

func checkAddToAll(c absCase, x *Ctx) error {
	keyOf := func(n int) json_map.AbsolutePathKey {
		if n%2 == 0 {
			return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: n}
		}
		return json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: fmt.Sprint("k", n)}
	}
	paths := json_map.AbsolutePaths{}
	want := [][]json_map.AbsolutePathKey{}
	// all paths come from one array, with spare capacity behind each
	flat := []json_map.AbsolutePathKey{}
	for _, p := range c.Paths {
		for _, keys := range expectedKeys(p) {
			if len(want) >= 12 {
				break
			}
			want = append(want, keys)
			flat = append(flat, keys...)
		}
	}
	flat = append(flat, make([]json_map.AbsolutePathKey, c.Spare)...)
	at := 0
	for _, keys := range want {
		paths = append(paths, flat[at:at+len(keys)])
		at += len(keys)
	}
	adds := 0
	for _, add := range c.Adds {
		keys := []json_map.AbsolutePathKey{}
		for _, n := range add {
			keys = append(keys, keyOf(n))
		}
		if errs := paths.AddToAll(nil, false, keys...); len(errs) > 0 {
			return failf("AddToAll(%v) fails: %v", keys, errs)
		}
		if len(keys) > 0 {
			adds++
			next := [][]json_map.AbsolutePathKey{}
			if len(want) == 0 {
				want = [][]json_map.AbsolutePathKey{{}}
			}
			for _, p := range want {
				for _, k := range keys {
					next = append(next, append(append([]json_map.AbsolutePathKey{}, p...), k))
				}
			}
			want = next
		}
		if len(want) > 2000 {
			return skip("too many combinations")
		}
		if err := comparePaths(paths, want); err != nil {
			return failf("after adding %v: %v", keys, err)
		}
	}
	if adds > 0 && len(want) > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	register("C15", "a path built from a syntax AST (segments of every kind, lists, long runs) rendered to text, a mutant of such a text, or token soup; non-trivial: more than one plain property, or judged (accept/refuse) by the independent reference parser",
		genParseCase, checkParse, workers(8, 8), counts(120000, 2400000))
	register("C16", "a generated document and a path grown along its data; non-trivial: the model selects at least one value or prescribes an error",
		genSelectCase, checkSelect, workers(8, 8), counts(80000, 1600000))
	register("C17", "a generated document and 1-4 paths selected repeatedly, on equal documents and from 2-8 goroutines beside 0-3 that marshal, print and clone; non-trivial: some path gives more than one value",
		genConcCase, checkConc, workers(8, 8), counts(12000, 240000), withRace())
	register("C18", "a generated document and a path; each node selected is looked up again by its absolute path; non-trivial: at least one node",
		genSelectCase, checkAbsolute, workers(8, 8), counts(80000, 1600000))
	register("C19", "a container in a generated document and a filter predicate (AST with hostile literals and root paths, or an expression that throws or does not parse) used to select, set or delete; non-trivial: something kept or an error expected",
		genFilterCase, checkFilter, workers(8, 8), counts(48000, 960000))
	register("C32", "hand built absolute paths against the text path that spells them (lookup, set, delete), and AddToAll on paths that share memory; non-trivial: values selected, error, write, or several combinations",
		genAbsCase, checkAbs, workers(8, 8), counts(80000, 1600000))
}
