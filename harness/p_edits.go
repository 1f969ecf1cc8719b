package main

// C20 to C23: setting, deleting, pushing, popping and the Must helpers.

import (
	"fmt"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

func genSetValue(t *rapid.T) any {
	v := genValue(t, docOpts{depth: 2, width: 3, plain: chance(t, 80, "plain?"), odd: 5}, 2)
	if v == nil {
		return "value"
	}
	return v
}

type setCase struct {
	Doc  any   `json:"doc"`
	Path []Seg `json:"path"`
	Val  any   `json:"val"`
	Go   bool  `json:"go,omitempty"` // its numbers are ints, uint8s, float32s, ...
}

func genSetPath(t *rapid.T, doc any, max int) []Seg {
	o := pathOpts{maxLen: max, forSet: true, wildBias: 4}
	if _, ok := doc.(arr); ok {
		o.prefix = []Seg{{K: "prop", Name: "array"}}
	}
	if chance(t, 15, "missing last key?") {
		// a path of an object, and a new key
		p := genPath(t, rootOf(doc), pathOpts{maxLen: max - 1, forSet: true, prefix: o.prefix, noFilter: true})
		if vs, err := modelSelectRaw(rootOf(doc), p); err == nil {
			all := len(vs) > 0
			for _, v := range vs {
				if _, ok := v.(obj); !ok {
					all = false
				}
			}
			if all {
				return append(p, Seg{K: "prop", Name: oneOf(t, "new key", "new", "zz", "a", "n-1")})
			}
		}
		return p
	}
	return genPath(t, rootOf(doc), o)
}

func genSetCase(t *rapid.T) setCase {
	doc := genSelDoc(t)
	return setCase{Doc: doc, Path: genSetPath(t, doc, 5), Val: genSetValue(t), Go: chance(t, 30, "numbers of Go types?")}
}

func genDelCase(t *rapid.T) setCase {
	doc := genSelDoc(t)
	return setCase{Doc: doc, Path: genSetPath(t, doc, 5)}
}

func setVia(j *jom.JsonMap, text string, v any) error { return j.JsonPathSetter(text, v) }

func checkSet(c setCase, x *Ctx) error {
	text := renderPath(c.Path)
	root := rootOf(c.Doc)
	_, isArr := c.Doc.(arr)
	want, hits, merr := modelSet(root, c.Path, c.Val)
	if _, ok := merr.(discard); ok {
		return merr
	}
	if isArr && len(c.Path) < 2 {
		return skip("root array")
	}
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	tagSegs(x, c.Path)
	given := clone(c.Val)
	if c.Go {
		given = goNumbers(c.Val)
	}
	err = j.JsonPathSetter(text, given)
	what := fmt.Sprintf("setting %s of %s to %s", text, short(c.Doc), short(c.Val))
	if c.Val == nil {
		what = fmt.Sprintf("deleting %s of %s", text, short(c.Doc))
	}
	if merr != nil {
		x.NonTrivial()
		x.Tag("impossible step: " + firstWords(merr.Error(), 3))
		if err == nil {
			got, _ := dump(j)
			return failf("%s: no error, expected one (%v); document %s", what, merr, short(got))
		}
		// still a document
		got, err := dump(j)
		if err != nil {
			return failf("%s: after the error: %v", what, err)
		}
		k := jom.New()
		if err := k.Unmarshal([]byte(j.String())); err != nil {
			return failf("%s: after the error the document's text does not load: %v", what, err)
		}
		_ = got
		return nil
	}
	x.TagIf(hits == 0, "no place designated")
	x.TagIf(hits > 1, "several places")
	if hits > 0 {
		x.NonTrivial()
	}
	if err != nil {
		return failf("%s: fails: %v", what, err)
	}
	got, err := dump(j)
	if err != nil {
		return failf("%s: %v", what, err)
	}
	if err := wantSame(what, got, norm(docOf(want, isArr))); err != nil {
		return err
	}
	if c.Val != nil && !same(norm(given), norm(c.Val)) {
		return failf("%s changes the value given to %s", what, short(given))
	}
	if c.Val != nil && concrete(root, c.Path) {
		x.Tag("read back")
		nodes, err := j.JsonPathSelector(text)
		if err != nil {
			return failf("%s: selecting it afterwards fails: %v", what, err)
		}
		vs, err := nodeValues(nodes)
		if err != nil {
			return err
		}
		expect := []any{norm(c.Val)}
		if a, ok := norm(c.Val).(arr); ok {
			expect = append([]any{}, a...)
		}
		return wantSame(what+", selecting it afterwards", vs, expect)
	}
	return nil
}

// Does the path consist of keys of objects and single indices of arrays only?
func concrete(v any, path []Seg) bool {
	for i, s := range path {
		switch x := v.(type) {
		case obj:
			if s.K != "prop" {
				return false
			}
			if e, ok := x[s.Name]; ok {
				v = e
			} else {
				return i == len(path)-1
			}
		case arr:
			if s.K != "idx" || len(s.Idx) != 1 || s.Idx[0] >= len(x) {
				return false
			}
			v = x[s.Idx[0]]
		default:
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------------------------------------ C22

type pushCase struct {
	Doc  any    `json:"doc"`
	Path []Seg  `json:"path"`
	Op   string `json:"op"`
	Idx  []int  `json:"idx"`
	Val  any    `json:"val,omitempty"`
	Go   bool   `json:"go,omitempty"`
}

// The definite paths (keys and indices) to the arrays of the document.
func arrayPaths(root obj) (paths [][]Seg, lens []int) {
	var rec func(v any, p []Seg)
	rec = func(v any, p []Seg) {
		switch x := v.(type) {
		case obj:
			for _, k := range sortedKeys(x) {
				if isPathKey(k) {
					rec(x[k], append(p[:len(p):len(p)], Seg{K: "prop", Name: k}))
				}
			}
		case arr:
			paths, lens = append(paths, append([]Seg{}, p...)), append(lens, len(x))
			for i := range x {
				rec(x[i], append(p[:len(p):len(p)], Seg{K: "idx", Idx: []int{i}}))
			}
		}
	}
	rec(root, nil)
	return
}

func genPushCase(t *rapid.T) pushCase {
	doc := genDoc(t, docOpts{depth: 3, width: 5, plain: true, odd: 4, scripts: true}, 25)
	root := rootOf(doc)
	paths, lens := arrayPaths(root)
	if len(paths) == 0 {
		a := genArray(t, docOpts{depth: 1, width: 6, plain: true, scripts: true}, 1)
		root["a"] = a
		paths, lens = [][]Seg{{{K: "prop", Name: "a"}}}, []int{len(a)}
	}
	i := irange(t, "array", 0, len(paths)-1)
	c := pushCase{Doc: doc, Path: paths[i], Op: oneOf(t, "operation", "push", "pop")}
	lo := -3
	if c.Op == "push" {
		lo = 0
		c.Val = genSetValue(t)
		if chance(t, 8, "null?") {
			c.Val = nil
		}
	}
	if c.Op == "pop" && lens[i] == 0 {
		c.Op, c.Val, lo = "push", "x", 0
	}
	c.Idx = intSlice(t, "indices", lo, lens[i]+3, 0, 5)
	c.Go = c.Op == "push" && chance(t, 30, "numbers of Go types?")
	return c
}

func checkPush(c pushCase, x *Ctx) (err error) {
	text := renderPath(c.Path)
	root := clone(rootOf(c.Doc)).(obj)
	_, isArr := c.Doc.(arr)
	raw, merr := modelSelectRaw(root, c.Path)
	if merr != nil || len(raw) != 1 {
		return skip("not one array")
	}
	a, ok := raw[0].(arr)
	if !ok {
		return skip("not an array")
	}
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	x.NonTrivial()
	x.Tag(c.Op)
	x.TagIf(len(c.Idx) == 0, "no index")
	x.TagIf(len(a) == 0, "empty array")
	what := fmt.Sprintf("%s %v at %s of %s", c.Op, c.Idx, text, short(c.Doc))
	defer func() {
		if p := recover(); p != nil {
			err = failf("%s panics: %v", what, p)
		}
	}()
	idx := append([]int{}, c.Idx...)
	var left arr
	if c.Op == "push" {
		left = modelPush(a, c.Val, c.Idx)
		given := clone(c.Val)
		if c.Go {
			given = goNumbers(c.Val)
		}
		j.MustPush(text, given, idx...)
	} else {
		if len(a) == 0 {
			return skip("pop from an empty array")
		}
		var popped arr
		popped, left = modelPop(a, c.Idx)
		got := j.MustPop(text, idx...)
		if err := wantSame(what+": popped", norm(append([]any{}, got...)), norm(append([]any{}, popped...))); err != nil {
			return err
		}
	}
	if !same(idx, c.Idx) && len(c.Idx) > 0 && fmt.Sprint(idx) != fmt.Sprint(c.Idx) {
		x.Tag("indices reordered in place")
	}
	want := replaceAt(root, c.Path, left)
	got, err := dump(j)
	if err != nil {
		return err
	}
	return wantSame(what, got, norm(docOf(want.(obj), isArr)))
}

// Replaces the value at a path of keys and indices.
func replaceAt(v any, path []Seg, to any) any {
	if len(path) == 0 {
		return to
	}
	switch x := v.(type) {
	case obj:
		x[path[0].Name] = replaceAt(x[path[0].Name], path[1:], to)
	case arr:
		x[path[0].Idx[0]] = replaceAt(x[path[0].Idx[0]], path[1:], to)
	}
	return v
}

// ------------------------------------------------------------------------------------------------ C23

type mustCase struct {
	Doc  any    `json:"doc"`
	Path []Seg  `json:"path"`
	Text string `json:"text,omitempty"`
	Op   string `json:"op"`
	Val  any    `json:"val,omitempty"`
}

func genMustCase(t *rapid.T) mustCase {
	doc := genSelDoc(t)
	c := mustCase{Doc: doc, Op: oneOf(t, "operation", "get", "get", "set", "delete")}
	if c.Op == "get" {
		c.Path = genPath(t, rootOf(doc), pathOpts{maxLen: 4, sane: 80})
	} else {
		c.Path = genSetPath(t, doc, 4)
	}
	if c.Op == "set" {
		c.Val = genSetValue(t)
	}
	c.Text = renderPath(c.Path)
	if chance(t, 6, "invalid path?") {
		c.Text = oneOf(t, "invalid", "", "a", "$a", "$.[", "$.a[", "$[:]", "$.1", "x$.a", "$.a[-1]", "$.a b", "$[?(]", "$.a]")
	}
	return c
}

func catch(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func checkMust(c mustCase, x *Ctx) error {
	a, err := load(c.Doc)
	if err != nil {
		return err
	}
	b, err := load(c.Doc)
	if err != nil {
		return err
	}
	x.Tag(c.Op)
	what := fmt.Sprintf("Must %s %q of %s", c.Op, c.Text, short(c.Doc))
	var opErr error
	var p any
	switch c.Op {
	case "get":
		var nodes []*json_map.JsonPathNode
		nodes, opErr = a.JsonPathSelector(c.Text)
		var got []any
		p = catch(func() { got = b.MustGet(c.Text) })
		if opErr == nil && p == nil {
			want, err := nodeValues(nodes)
			if err != nil {
				return err
			}
			if (got == nil) != (len(want) == 0) {
				return failf("%s: %d values selected, MustGet gives nil: %v", what, len(want), got == nil)
			}
			if len(want) > 0 {
				x.NonTrivial()
			}
			if err := wantSame(what, normList(got), want); err != nil {
				return err
			}
		}
	case "set":
		opErr = a.JsonPathSetter(c.Text, clone(c.Val))
		p = catch(func() { b.MustSet(c.Text, clone(c.Val)) })
		x.NonTrivial()
	default:
		opErr = a.JsonPathSetter(c.Text, nil)
		p = catch(func() { b.MustDelete(c.Text) })
		x.NonTrivial()
	}
	if (opErr != nil) != (p != nil) {
		return failf("%s: the operation's error is %v, the panic %v", what, opErr, p)
	}
	if opErr != nil {
		x.NonTrivial()
		x.Tag("panic")
		if _, ok := p.(error); !ok {
			return failf("%s: panics with a %T (%v) that is not an error", what, p, p)
		}
		return nil
	}
	da, err := dump(a)
	if err != nil {
		return skip("root array replaced")
	}
	db, err := dump(b)
	if err != nil {
		return failf("%s: %v", what, err)
	}
	return wantSame(what+": resulting document", db, da)
}

func init() {
	register("C20", "a generated document, a path grown along its data (also with a new last key) and a value set there; non-trivial: at least one place changed or an error prescribed",
		genSetCase, checkSet, workers(8, 8), counts(80000, 1600000))
	register("C21", "a generated document and a path grown along its data deleted from it; non-trivial: at least one place deleted or an error prescribed",
		genDelCase, checkSet, workers(8, 8), counts(80000, 1600000))
	register("C22", "an array (also empty, nested, or the root) of a generated document, a value and 0-5 positions (also negative, repeated, beyond the end); every case is non-trivial",
		genPushCase, checkPush, workers(8, 8), counts(120000, 2400000))
	register("C23", "a generated document and path (or invalid text) given to a Must helper and to the operation it wraps; non-trivial: values, a write or a panic",
		genMustCase, checkMust, workers(8, 8), counts(80000, 1600000))
}
