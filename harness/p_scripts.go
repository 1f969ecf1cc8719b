package main

// C05 to C11: evaluation, callbacks, repeated runs, stripping, marking up, failing scripts.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"

	_ "github.com/andygello555/json-dom/code/go"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

// Runs f with the console captured.
func captured(f func()) (stdout, stderr string) {
	var o, e bytes.Buffer
	js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = &o, &e
	defer func() {
		js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = io.Discard, io.Discard
	}()
	func() {
		f()
	}()
	return o.String(), e.String()
}

var idLine = regexp.MustCompile(`(?m)^\tID (\d+)$`)

func idsOf(stdout string) (ids []int) {
	for _, m := range idLine.FindAllStringSubmatch(stdout, -1) {
		n, _ := strconv.Atoi(m[1])
		ids = append(ids, n)
	}
	return
}

func textOf(doc any) []byte {
	b, err := json.Marshal(renderDoc(doc))
	if err != nil {
		panic(err)
	}
	return b
}

type evalCase struct {
	Doc any    `json:"doc"`
	Via string `json:"via,omitempty"` // eval run
}

var scriptDocOpts = docOpts{depth: 3, width: 3, plain: true, odd: 5}

func genEvalCase(t *rapid.T) evalCase {
	o := scriptOpts{crowd: 100, max: 8, log: true, ops: 3, doc: scriptDocOpts, arrays: 12, nest: true, empty: 6}
	if chance(t, 5, "many scripts?") {
		o.max, o.doc.width, o.doc.depth = 40, 5, 4
	}
	doc, _ := genScriptDoc(t, o)
	return evalCase{Doc: doc, Via: oneOf(t, "via", "eval", "run")}
}

// Evaluates through Eval or through Run and Marshal.
func evaluate(text []byte, via string) (out any, stdout string, err error) {
	stdout, _ = captured(func() {
		if via == "run" {
			var j *jom.JsonMap
			if j, err = loadText(text); err != nil {
				return
			}
			if p := catch(j.Run); p != nil {
				err = failf("Run panics: %v", p)
				return
			}
			out, err = dump(j)
			return
		}
		b, e := jom.Eval(text, false)
		if e != nil {
			err = failf("Eval fails: %v", e)
			return
		}
		if out, err = fromJSON(b); err != nil {
			err = failf("Eval gives invalid JSON (%v): %s", err, short(b))
		}
	})
	return
}

func duplicates(log []ran) bool {
	seen := map[int]bool{}
	for _, r := range log {
		if seen[r.ID] {
			return true
		}
		seen[r.ID] = true
	}
	return false
}

func tagLog(x *Ctx, log []ran) {
	scopes := map[string]int{}
	for _, r := range log {
		scopes[r.Scope]++
	}
	nested, several, inArray := false, false, false
	for s, n := range scopes {
		if s != "$" {
			nested = true
		}
		if n > 1 {
			several = true
		}
		if strings.Contains(s, "[") {
			inArray = true
		}
	}
	x.TagIf(len(log) == 0, "no script ran")
	x.TagIf(nested, "script in a nested scope")
	x.TagIf(several, "several scripts in a scope")
	x.TagIf(inArray, "script in an array")
}

func checkOrderCase(c evalCase, x *Ctx) error {
	_, log, merr := modelRun(c.Doc, false)
	if merr != nil {
		return merr
	}
	if duplicates(log) {
		return skip("a script was copied")
	}
	text := textOf(c.Doc)
	_, stdout, err := evaluate(text, c.Via)
	if err != nil {
		return failf("%v; document %s", err, short(text))
	}
	tagLog(x, log)
	if len(log) > 1 {
		x.NonTrivial()
	}
	if err := checkOrder(idsOf(stdout), loud(log)); err != nil {
		return failf("%v; document %s", err, text)
	}
	return nil
}

func checkEditsCase(c evalCase, x *Ctx) error {
	want, log, merr := modelRun(c.Doc, false)
	if merr != nil {
		return merr
	}
	tagLog(x, log)
	text := textOf(c.Doc)
	got, _, err := evaluate(text, c.Via)
	if err != nil {
		return failf("%v; document %s", err, text)
	}
	ops := 0
	walk(c.Doc, func(v any) {
		if isS(v) {
			ops += len(scriptOf(v).Ops)
		}
	})
	if ops > 0 && len(log) > 0 {
		x.NonTrivial()
	}
	return wantSame("evaluating "+string(text), got, norm(want))
}

// ------------------------------------------------------------------------------------------------ C07

type cbCase struct {
	Doc   any    `json:"doc"`
	Place string `json:"place"`           // map: the callbacks are in the map given to NewFromMap; set: set one by one; root: with SetAbsolutePaths
	Inner bool   `json:"inner,omitempty"` // the callbacks evaluate, select and clone too
	Go    bool   `json:"go,omitempty"`    // the numbers that the callbacks write are of all of Go's types
}

func genCbCase(t *rapid.T) cbCase {
	doc, _ := genScriptDoc(t, scriptOpts{max: 6, ops: 3, callback: true, doc: scriptDocOpts, arrays: 10, nest: true})
	return cbCase{Doc: doc, Place: oneOf(t, "place", "map", "set", "abs"), Inner: chance(t, 12, "inner?"), Go: chance(t, 40, "numbers of Go types?")}
}

// What a callback can do besides editing its scope: evaluate, run, select from and clone other documents and its own, none of
// which changes anything here.
func innerUse(json json_map.JsonMapInt) error {
	out, err := jom.Eval([]byte(`{"a": {"l": [1, 2, 3], "s": "#//!js\njson.trail.x = json.jsonPathSelector('$.l[?(@ > 1)]').getValues(); json.trail.p = json.scopePath"}}`), false)
	if err != nil || string(out) != `{"a":{"l":[1,2,3],"p":"$.a","x":[2,3]}}` {
		return failf("a callback that evaluates a document gets %s, %v", out, err)
	}
	if out, err = jom.Eval([]byte(`{"a": {"s": "#//!js\nthrow 1"}}`), false); err == nil || len(out) != 0 {
		return failf("a callback that evaluates a document that fails gets %s, %v", out, err)
	}
	j := jom.NewFromMap(map[string]interface{}{"l": []interface{}{map[string]interface{}{"f": func(json json_map.JsonMapInt) {
		json.MustSet("$.p", json.GetCurrentScopePath())
		json.MustSet("$.b", "#//!js\njson.trail.x = 1")
	}}}})
	j.Run()
	if out, err = j.Marshal(); err != nil || string(out) != `{"l":[{"b":"#//!js\njson.trail.x = 1","p":"$.l.[0]"}]}` {
		return failf("a callback that runs a document with callbacks gets %s, %v", out, err)
	}
	// its own scope
	size := len(*json.GetInsides())
	all, err := json.JsonPathSelector("$.*")
	if err != nil {
		return failf("a callback that selects from its scope gets %v", err)
	}
	kept, err := json.JsonPathSelector("$[?( 1 )]")
	if err != nil || len(kept) != len(all) || len(all) != size {
		return failf("a callback that selects everything from its scope of %d gets %d nodes, with a filter %d, %v", size, len(all), len(kept), err)
	}
	clone, ok := json.Clone(false).(*jom.JsonMap)
	if !ok {
		return failf("the clone of a callback's scope is a %T", json.Clone(false))
	}
	if clone.GetCurrentScopePath() != json.GetCurrentScopePath() || len(*clone.GetInsides()) != size {
		return failf("the clone of a callback's scope differs: %q instead of %q", clone.GetCurrentScopePath(), json.GetCurrentScopePath())
	}
	clone.Strip()
	clone.MustSet("$.clone_", 1.0)
	if len(*json.GetInsides()) != size {
		return failf("stripping the clone of a callback's scope changes the scope")
	}
	return nil
}

// The paths of the placeholders of a document.
func placeholders(v any, p []any, f func(p []any, s *Script)) {
	switch x := v.(type) {
	case obj:
		if isS(x) {
			f(append([]any{}, p...), scriptOf(x))
			return
		}
		for _, k := range sortedKeys(x) {
			placeholders(x[k], append(p[:len(p):len(p)], k), f)
		}
	case arr:
		for i, e := range x {
			placeholders(e, append(p[:len(p):len(p)], i), f)
		}
	}
}

// Builds the document with its callbacks in place.
func placeCallbacks(doc any, place string, rec *recorder) (*jom.JsonMap, error) {
	_, isArr := doc.(arr)
	var j *jom.JsonMap
	if place == "map" {
		j = jom.NewFromMap(withCallbacks(rootOf(doc), rec).(obj))
		j.Array = isArr
		return j, nil
	}
	var err error
	if j, err = load(modelStrip(doc)); err != nil {
		return nil, err
	}
	placeholders(rootOf(doc), nil, func(p []any, s *Script) {
		if err != nil {
			return
		}
		text, ok := pathText(p)
		if place == "abs" || !ok {
			keys := []json_map.AbsolutePathKey{}
			for _, k := range p {
				if str, ok := k.(string); ok {
					keys = append(keys, json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: str})
				} else {
					n, _ := toIndex(k)
					keys = append(keys, json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: n})
				}
			}
			err = j.SetAbsolutePaths(&json_map.AbsolutePaths{keys}, s.callback(rec))
		} else {
			err = j.JsonPathSetter(text, s.callback(rec))
		}
		if err != nil {
			err = failf("setting a callback at %v fails: %v", p, err)
		}
	})
	return j, err
}

func checkCallbacks(c cbCase, x *Ctx) error {
	want, log, merr := modelRun(c.Doc, false)
	if merr != nil {
		return merr
	}
	rec := &recorder{goNum: c.Go}
	j, err := placeCallbacks(c.Doc, c.Place, rec)
	if err != nil {
		return failf("%v (%s)", err, short(c.Doc))
	}
	x.TagIf(c.Go, "numbers of Go types")
	tagLog(x, log)
	x.Tag("placed by " + c.Place)
	what := fmt.Sprintf("running callbacks placed by %s in %s", c.Place, mustJSON(c.Doc))
	var inner error
	if c.Inner {
		x.Tag("callbacks that evaluate and select")
		rec.inner = func(json json_map.JsonMapInt) {
			if inner == nil {
				inner = innerUse(json)
			}
		}
	}
	if p := catch(j.Run); p != nil {
		return failf("%s: panics: %v", what, p)
	}
	if inner != nil {
		return failf("%s: %v", what, inner)
	}
	if len(log) > 0 {
		x.NonTrivial()
	}
	got, err := dump(j)
	if err != nil {
		return failf("%s: %v", what, err)
	}
	if err := wantSame(what, got, norm(want)); err != nil {
		return err
	}
	if !duplicates(log) {
		if err := checkOrder(rec.ids, log); err != nil {
			return failf("%s: %v", what, err)
		}
		for _, r := range log {
			if rec.paths[r.ID] != r.Scope {
				return failf("%s: callback %d of %s has the scope path %q", what, r.ID, r.Scope, rec.paths[r.ID])
			}
		}
	}
	// the same edits as scripts
	text := textOf(c.Doc)
	js, _, err := evaluate(text, "eval")
	if err != nil {
		return failf("%s: as scripts: %v", what, err)
	}
	return wantSame(what+": compared to scripts", got, js)
}

// ------------------------------------------------------------------------------------------------ C08

type histStep struct {
	K   string `json:"k"` // run strip set del markup print clone reload select
	P   []any  `json:"p,omitempty"`
	Val any    `json:"val,omitempty"` // may contain placeholders
}

type histCase struct {
	Doc   any        `json:"doc"`
	Steps []histStep `json:"steps"`
}

func genHistCase(t *rapid.T) histCase {
	g := &scriptGen{t: t, o: scriptOpts{max: 5, log: true, empty: 8, ops: 2, doc: docOpts{depth: 2, width: 3, plain: true}, nest: chance(t, 50, "nested?")}}
	doc := settle(g.sow(genDoc(t, g.o.doc, 10), 60))
	c := histCase{Doc: doc}
	cur := clone(doc)
	g.o.max = 40
	for n := irange(t, "steps", 2, 8); n > 0; n-- {
		root := rootOf(cur)
		_, isArr := cur.(arr)
		s := histStep{K: oneOf(t, "step", "run", "run", "strip", "set", "set", "del", "markup", "markup", "print", "clone", "reload", "select")}
		switch s.K {
		case "set", "del", "markup":
			// a path in the document, also of scripts
			paths := [][]any{}
			var rec func(v any, p []any)
			rec = func(v any, p []any) {
				if len(p) > 0 && !(isArr && len(p) == 1) {
					paths = append(paths, append([]any{}, p...))
				}
				switch x := v.(type) {
				case obj:
					if isS(x) {
						return
					}
					for _, k := range sortedKeys(x) {
						if isPathKey(k) {
							rec(x[k], append(p[:len(p):len(p)], k))
						}
					}
					if s.K != "del" && !(isArr && len(p) == 0) {
						paths = append(paths, append(append([]any{}, p...), sample(t, "new key", []string{"new", "s1", "script", "z"})))
					}
				case arr:
					for i, e := range x {
						rec(e, append(p[:len(p):len(p)], i))
					}
				}
			}
			rec(root, nil)
			if len(paths) == 0 {
				s.K = "print"
				break
			}
			s.P = sample(t, "path", paths)
			_, str := s.P[len(s.P)-1].(string)
			if s.K == "markup" && !str {
				s.K = "set"
			}
			if s.K == "set" {
				s.Val = genSetValue(t)
				if chance(t, 40, "script?") && str {
					s.Val = g.script(obj{}, 0)
				} else if chance(t, 40, "with scripts?") {
					s.Val = g.sow(s.Val, 80)
				}
			}
			if s.K == "markup" {
				s.Val = g.script(obj{}, 0)
			}
		}
		next, _, err := histModel(cur, s)
		if err != nil {
			break
		}
		cur = next
		c.Steps = append(c.Steps, s)
	}
	if containsScript(cur) && chance(t, 70, "run at the end?") {
		s := histStep{K: "run"}
		if _, _, err := histModel(cur, s); err == nil {
			c.Steps = append(c.Steps, s)
		}
	}
	return c
}

func histModel(doc any, s histStep) (any, []ran, error) {
	doc = clone(doc)
	_, isArr := doc.(arr)
	switch s.K {
	case "run":
		return modelRun(doc, false)
	case "strip":
		return modelStrip(doc), nil, nil
	case "set", "markup":
		root := rootOf(doc)
		par, ok := lookAt(root, s.P[:len(s.P)-1])
		if !ok {
			return nil, nil, skip("no parent")
		}
		switch x := par.(type) {
		case obj:
			k, ok := s.P[len(s.P)-1].(string)
			if !ok || isS(x) {
				return nil, nil, skip("no parent")
			}
			x[k] = clone(s.Val)
		case arr:
			n, ok := toIndex(s.P[len(s.P)-1])
			if !ok || n >= len(x) || isS(s.Val) {
				return nil, nil, skip("no parent")
			}
			x[n] = clone(s.Val)
		default:
			return nil, nil, skip("no parent")
		}
		return docOf(root, isArr), nil, nil
	case "del":
		root := rootOf(doc)
		if _, ok := lookAt(root, s.P); !ok {
			return nil, nil, skip("no target")
		}
		k := s.P[len(s.P)-1]
		update(root, s.P[:len(s.P)-1], func(v any) any {
			switch x := v.(type) {
			case obj:
				delete(x, k.(string))
				return x
			case arr:
				n, _ := toIndex(k)
				return append(append(arr{}, x[:n]...), x[n+1:]...)
			}
			return v
		})
		return docOf(root, isArr), nil, nil
	}
	return doc, nil, nil
}

func checkHist(c histCase, x *Ctx) error {
	cur := clone(c.Doc)
	j, err := loadText(textOf(c.Doc))
	if err != nil {
		return err
	}
	runs, scripts := 0, 0
	for i, s := range c.Steps {
		next, log, merr := histModel(cur, s)
		if merr != nil {
			return merr
		}
		what := fmt.Sprintf("step %d (%s %v) of %s", i, s.K, s.P, mustJSON(c))
		var err error
		var p any
		stdout, _ := captured(func() {
			p = catch(func() {
				switch s.K {
				case "run":
					j.Run()
					runs++
				case "strip":
					j.Strip()
				case "set":
					text, _ := pathText(s.P)
					err = j.JsonPathSetter(text, renderDoc(s.Val))
				case "markup":
					text, _ := pathText(s.P)
					src := scriptOf(s.Val).source()
					err = j.MarkupCode(text, "js", strings.TrimPrefix(src, "#//!js\n"))
				case "del":
					text, _ := pathText(s.P)
					err = j.JsonPathSetter(text, nil)
				case "print":
					_ = j.String()
				case "select":
					_, _ = j.JsonPathSelector("$.*")
				case "clone":
					j = j.Clone(false).(*jom.JsonMap)
				case "reload":
					err = j.Unmarshal([]byte(j.String()))
				}
			})
		})
		x.Tag("step " + s.K)
		if p != nil {
			return failf("%s: panics: %v", what, p)
		}
		if err != nil {
			return failf("%s: fails: %v", what, err)
		}
		scripts += len(log)
		if !duplicates(log) {
			if err := checkOrder(idsOf(stdout), loud(log)); err != nil {
				return failf("%s: %v", what, err)
			}
		}
		got, err := dump(j)
		if err != nil {
			return failf("%s: %v", what, err)
		}
		if err := wantSame(what, got, norm(renderDoc(next))); err != nil {
			return err
		}
		cur = next
		if s.K == "run" {
			// nothing is left, so that another run changes nothing
			var again any
			stdout, _ := captured(func() { p = catch(j.Run) })
			if p != nil {
				return failf("%s: running again panics: %v", what, p)
			}
			if again, err = dump(j); err != nil {
				return err
			}
			if ids := idsOf(stdout); len(ids) > 0 {
				return failf("%s: running again runs the scripts %v", what, ids)
			}
			if err := wantSame(what+", run again", again, got); err != nil {
				return err
			}
		}
	}
	if scripts > 0 && len(c.Steps) > 1 {
		x.NonTrivial()
	}
	x.TagIf(runs > 1, "several runs")
	return nil
}

// ------------------------------------------------------------------------------------------------ C09

type stripCase struct {
	Doc  any    `json:"doc"`
	Mode string `json:"mode"` // text callbacks
}

func genStripCase(t *rapid.T) stripCase {
	o := scriptOpts{crowd: 100, max: 12, log: true, ops: 1, doc: docOpts{depth: 4, width: 4, odd: 8}, arrays: 20, empty: 10}
	doc, _ := genScriptDoc(t, o)
	return stripCase{Doc: doc, Mode: oneOf(t, "mode", "text", "text", "callbacks")}
}

func checkStrip(c stripCase, x *Ctx) error {
	want := norm(modelStrip(c.Doc))
	var j *jom.JsonMap
	rec := &recorder{}
	if c.Mode == "callbacks" {
		var err error
		if j, err = placeCallbacks(c.Doc, "map", rec); err != nil {
			return err
		}
	} else {
		var err error
		if j, err = loadText(textOf(c.Doc)); err != nil {
			return err
		}
	}
	n, deep, inArray, below := 0, false, false, false
	placeholders(c.Doc, nil, func(p []any, s *Script) {
		n++
		deep = deep || len(p) > 1
		for i, k := range p {
			if _, ok := toIndex(k); ok {
				inArray = true
				if i > 0 {
					if _, ok := toIndex(p[i-1]); ok {
						below = true
					}
				}
			}
		}
	})
	if n > 0 {
		x.NonTrivial()
	}
	x.Tag(c.Mode)
	x.TagIf(deep, "nested script")
	x.TagIf(inArray, "script in an array")
	x.TagIf(below, "script in an array in an array")
	if c.Mode == "callbacks" && n > 0 {
		var err error
		var out []byte
		if p := catch(func() { out, err = j.Marshal() }); p != nil {
			return failf("marshalling %s, which holds callbacks, panics: %v", short(c.Doc), p)
		}
		if err == nil {
			return failf("marshalling %s, which holds callbacks, gives %q and no error", short(c.Doc), out)
		}
	}
	// asking for scripts tells whether there are any, and changes nothing
	asks := func(when string, any bool) error {
		var before string
		if c.Mode != "callbacks" || !any {
			before = j.String()
		}
		var found bool
		var p interface{}
		stdout, stderr := captured(func() { p = catch(func() { found = j.FindScriptFields() }) })
		if p != nil {
			return failf("FindScriptFields() %s %s panics: %v", when, short(c.Doc), p)
		}
		if stdout+stderr != "" || len(rec.ids) > 0 {
			return failf("FindScriptFields() %s %s executes something: %q %v", when, short(c.Doc), stdout+stderr, rec.ids)
		}
		if found != any {
			return failf("FindScriptFields() is %v %s %s, which has %d scripts", found, when, short(c.Doc), n)
		}
		if before != "" && j.String() != before {
			return failf("FindScriptFields() %s %s changes it to %s", when, short(c.Doc), short(j.String()))
		}
		return nil
	}
	for i := 0; i < 2; i++ {
		if err := asks("before stripping", n > 0); err != nil {
			return err
		}
	}
	for i := 0; i < 2; i++ {
		what := fmt.Sprintf("strip %d of %s", i+1, short(c.Doc))
		var p any
		stdout, stderr := captured(func() { p = catch(j.Strip) })
		if p != nil {
			return failf("%s: panics: %v", what, p)
		}
		if stdout+stderr != "" || len(rec.ids) > 0 {
			return failf("%s: executes something: %q %v", what, stdout+stderr, rec.ids)
		}
		got, err := dump(j)
		if err != nil {
			return failf("%s: %v", what, err)
		}
		if err := wantSame(what, got, want); err != nil {
			return err
		}
	}
	if err := asks("after stripping", false); err != nil {
		return err
	}
	// nothing is left to run
	stdout, _ := captured(func() { j.Run() })
	if stdout != "" || len(rec.ids) > 0 {
		return failf("running %s after the strip executes something: %q %v", short(c.Doc), stdout, rec.ids)
	}
	got, err := dump(j)
	if err != nil {
		return err
	}
	return wantSame("run after strip", got, want)
}

// ------------------------------------------------------------------------------------------------ C10

type markCase struct {
	Doc    any    `json:"doc"` // without scripts at first
	Path   []Seg  `json:"path"`
	Text   string `json:"text"`
	Script Script `json:"script"`
	Lang   string `json:"lang"`
}

func genMarkCase(t *rapid.T) markCase {
	doc := genDoc(t, docOpts{depth: 3, width: 3, plain: true, odd: 3}, 12)
	g := &scriptGen{t: t, o: scriptOpts{max: 1, log: true, ops: 2, doc: docOpts{plain: true}}}
	c := markCase{Doc: doc, Lang: "js"}
	o := pathOpts{maxLen: 3, forSet: true}
	if _, ok := doc.(arr); ok {
		o.prefix = []Seg{{K: "prop", Name: "array"}}
	}
	switch pick(t, "kind", 6, 3, 1, 1) {
	case 0: // a new key below a path of objects
		p := genPath(t, rootOf(doc), o)
		if vs, err := modelSelectRaw(rootOf(doc), p); err == nil {
			all := len(vs) > 0
			for _, v := range vs {
				if _, ok := v.(obj); !ok {
					all = false
				}
			}
			if all {
				p = append(p, Seg{K: "prop", Name: "script"})
			} else if _, isArr := doc.(arr); !isArr && chance(t, 70, "at the root?") {
				p = []Seg{{K: "prop", Name: "script"}}
			}
		}
		c.Path = p
	case 1:
		c.Path = genPath(t, rootOf(doc), o)
	case 2:
		c.Path = []Seg{{K: "prop", Name: "script"}}
		c.Lang = oneOf(t, "language", "py", "", "JS", "javascript", "j", " js", "js ", "Go", "lua", "js\n")
	default:
		c.Text = oneOf(t, "invalid path", "", "a", "$a", "$.[", "$.a[", "$[:]", "$.1", "x$.a", "$.a b", "$.a]", "script", "$.missing.script.x", "$.script[0]")
	}
	if c.Text == "" && c.Path != nil {
		c.Text = renderPath(c.Path)
	}
	s := g.script(obj{}, 0)
	c.Script = *scriptOf(s)
	return c
}

func checkMark(c markCase, x *Ctx) error {
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	src := strings.TrimPrefix(c.Script.source(), "#//!js\n")
	what := fmt.Sprintf("marking up %s at %q (%s)", short(c.Doc), c.Text, c.Lang)
	root := rootOf(c.Doc)
	_, isArr := c.Doc.(arr)
	err = j.MarkupCode(c.Text, c.Lang, src)
	if c.Lang != "js" {
		x.NonTrivial()
		x.Tag("unsupported language")
		if err == nil {
			return failf("%s: no error", what)
		}
		got, err := dump(j)
		if err != nil {
			return err
		}
		return wantSame(what, got, norm(c.Doc))
	}
	if c.Path == nil {
		if c.Text == "$.script[0]" || c.Text == "$.missing.script.x" {
			if _, ok := root["script"]; ok {
				return skip("resolves")
			}
			if _, ok := root["missing"]; ok {
				return skip("resolves")
			}
		}
		x.NonTrivial()
		x.Tag("invalid path")
		if err == nil {
			got, _ := dump(j)
			return failf("%s: no error; document %s", what, short(got))
		}
		return nil
	}
	if isArr && len(c.Path) < 2 {
		return skip("root array")
	}
	hand, hits, merr := modelSet(root, c.Path, placeholder(c.Script))
	if _, ok := merr.(discard); ok {
		return merr
	}
	tagSegs(x, c.Path)
	if merr != nil {
		x.NonTrivial()
		x.Tag("impossible step")
		if err == nil {
			return failf("%s: no error, expected one (%v)", what, merr)
		}
		return nil
	}
	if err != nil {
		return failf("%s: fails: %v", what, err)
	}
	if hits > 0 {
		x.NonTrivial()
	}
	x.TagIf(hits > 1, "several places")
	got, err := dump(j)
	if err != nil {
		return err
	}
	byHand := docOf(hand, isArr)
	if err := wantSame(what, got, norm(renderDoc(byHand))); err != nil {
		return err
	}
	// evaluates like the same document written by hand
	want, log, merr := modelRun(elementsToText(byHand), false)
	if merr != nil {
		return merr
	}
	var p any
	stdout, _ := captured(func() { p = catch(j.Run) })
	if p != nil {
		return failf("%s: running panics: %v", what, p)
	}
	if got, err = dump(j); err != nil {
		return err
	}
	if err := wantSame(what+": run", got, norm(renderDoc(want))); err != nil {
		return err
	}
	if n := len(idsOf(stdout)); n != len(log) {
		return failf("%s: %d scripts ran instead of %d", what, n, len(log))
	}
	viaText, _, err := evaluate(textOf(byHand), "eval")
	if err != nil {
		return failf("%s: by hand: %v", what, err)
	}
	return wantSame(what+": compared to the script written by hand", got, viaText)
}

// A script that is an array element is just a string.
func elementsToText(v any) any {
	switch x := v.(type) {
	case obj:
		if isS(x) {
			return x
		}
		for k, e := range x {
			x[k] = elementsToText(e)
		}
	case arr:
		for i, e := range x {
			if isS(e) {
				x[i] = scriptOf(e).source()
			} else {
				x[i] = elementsToText(e)
			}
		}
	}
	return v
}

// ------------------------------------------------------------------------------------------------ C11

type failCase struct {
	Doc  any    `json:"doc"`
	Mode string `json:"mode"` // eval run callbacks
}

// Failures inside a script that the script catches itself.
var caught = []string{
	"try { throw new Error('a'); } catch (e) { }",
	"try { noSuchFunction(); } catch (e) { }",
	"try { json.jsonPathSelector('$[:]'); } catch (e) { }",
	"try { json.jsonPathSelector('$.noSuchKey_.x').getValues(); } catch (e) { }",
	"try { json.jsonPathSelector(5); } catch (e) { }",
	"try { json.jsonPathSelector('$.noSuchKey_.x').setValues(1); } catch (e) { }",
	"try { JSON.parse('{'); } catch (e) { }",
	"try { eval('syntax error here'); } catch (e) { }",
	"try { null.x; } catch (e) { } finally { }",
	"try { (function f() { return f() + 1; })(); } catch (e) { }",
	"(function () { try { throw 1; } catch (e) { return 2; } })();",
	"try { console.log({get a() { throw 1; }}) } catch (e) { }",
	"try { printlnExternal([{get a() { null.x; }}]) } catch (e) { }",
	"try { json.jsonPathSelector('$.x_').setValues({get a() { throw 1; }}) } catch (e) { }",
	"try { json.jsonPathSelector('$.x_').setValues({toJSON: function () { throw 1; }}) } catch (e) { }",
	"try { json.jsonPathSelector({toString: function () { throw 1; }}) } catch (e) { }",
	"try { json.jsonPathSelector('$').setValues() } catch (e) { }",
	"try { json.jsonPathSelector('$.x_.y').setValues(1) } catch (e) { }",
	"try { json.jsonPathSelector('$[?(throw 1)]').getValues() } catch (e) { }",
	"try { new Array(-1) } catch (e) { }",
	"try { decodeURIComponent('%') } catch (e) { }",
	"try { new RegExp('[') } catch (e) { }",
	"try { 'a'.match('[') } catch (e) { }",
	"try { (1).toFixed(1000) } catch (e) { }",
	"try { (1).toString(99) } catch (e) { }",
	"try { var o = {}; o.o = o; JSON.stringify(o) } catch (e) { }",
	"try { Object.defineProperty(1, 'a', {}) } catch (e) { }",
	"try { Object.create(5) } catch (e) { }",
	"try { undefined() } catch (e) { }",
	"try { noSuch_ + 1 } catch (e) { }",
	"try { new Function('}') } catch (e) { }",
	"try { [].reduce(function () {}) } catch (e) { }",
	"try { 'a' in 'b' } catch (e) { }",
	"try { 1 instanceof 5 } catch (e) { }",
	"try { String.prototype.trim.call(null) } catch (e) { }",
	"try { Object.freeze({a: 1}).b.c } catch (e) { }",
	"try { JSON.parse('') } catch (e) { }",
	"try { JSON.parse(undefined) } catch (e) { }",
	"try { (function f() { f(); })() } catch (e) { }",
	"try { (function f() { return [1].map(f); })() } catch (e) { }",
	"try { Object.defineProperty({}, 'a', {get: 5}) } catch (e) { }",
	"try { new (function () { throw 2; })() } catch (e) { }",
	"try { throw undefined } catch (e) { }",
	"try { throw null } catch (e) { }",
	"try { throw {toString: function () { throw 3; }} } catch (e) { }",
	"try { ({valueOf: function () { throw 1; }}) + 1 } catch (e) { }",
	"try { [3, 1].sort(function () { throw 1; }) } catch (e) { }",
	"try { 'abc'.replace(/b/, function () { throw 1; }) } catch (e) { }",
	"try { eval('throw 1') } catch (e) { }",
	"try { eval('}') } catch (e) { }",
	"try { var t = json.trail; json.trail = undefined; try { json.jsonPathSelector('$').getValues() } finally { json.trail = t; } } catch (e) { }",
	"try { 'use strict'; undeclared_ = 1; throw 1 } catch (e) { }",
	"try { with ({}) { throw 1; } } catch (e) { }",
	"try { arguments.callee() } catch (e) { }",
	"try { new json.jsonPathSelector('$[:]') } catch (e) { }",
	"try { json.jsonPathSelector.call(null, '$[') } catch (e) { }",
	"try { json.jsonPathSelector.apply(null, []) } catch (e) { }",
	"try { console.log.apply(null, {length: {valueOf: function () { throw 1; }}}) } catch (e) { }",
	"try { Object.getPrototypeOf(1) } catch (e) { }",
	"try { RegExp.prototype.exec.call(1) } catch (e) { }",
	"try { Date.prototype.getTime.call({}) } catch (e) { }",
	"try { Number.prototype.toString.call('a') } catch (e) { }",
	"try { new ReferenceError().stack.x.y } catch (e) { }",
	"try { isNaN.call.call(1) } catch (e) { }",
	"try { Function.prototype.apply.call(1) } catch (e) { }",
	"try { escape.bind(1).x.y } catch (e) { }",
	"try { 'a'.split({toString: function () { throw 1; }}) } catch (e) { }",
	"try { parseInt({toString: function () { throw 1; }}) } catch (e) { }",
	"try { Math.max({valueOf: function () { throw 1; }}) } catch (e) { }",
	"try { 'a'.localeCompare({toString: function () { throw 1; }}) } catch (e) { }",
	"try { Object.keys(1) } catch (e) { }",
	"try { Object.defineProperties({}, {a: 1}) } catch (e) { }",
	"try { [].length = -1 } catch (e) { }",
	"try { var a = []; a.length = -1 } catch (e) { }",
	"try { new Date({toString: function () { throw 1; }}) } catch (e) { }",
	"try { String.fromCharCode({valueOf: function () { throw 1; }}) } catch (e) { }",
	"try { Object.seal(1) } catch (e) { }",
	"console = null;",
	"json.scopePath = 5;",
	"json.jsonPathSelector = null;",
	"printlnExternal = 5;",
	"Math = null; Object = null; Array = null;",
	"var trail = null; var console2 = 1;",
	"json.trail.f_ = function () { throw 1; }; delete json.trail.f_;",
}

func genFailCase(t *rapid.T) failCase {
	o := scriptOpts{crowd: 40, max: 5, ops: 2, doc: scriptDocOpts, arrays: 12, nest: true, callback: true}
	mode := oneOf(t, "mode", "eval", "eval", "run", "callbacks")
	doc, _ := genScriptDoc(t, o)
	// make one of the scripts fail
	var all []obj
	var find func(v any)
	find = func(v any) {
		switch y := v.(type) {
		case obj:
			if isS(y) {
				all = append(all, y)
				for _, op := range scriptOf(y).Ops {
					find(op.V)
				}
				return
			}
			for _, k := range sortedKeys(y) {
				find(y[k])
			}
		case arr:
			for _, e := range y {
				find(e)
			}
		}
	}
	find(doc)
	if len(all) > 0 && !chance(t, 12, "none fails?") {
		p := sample(t, "which", all)
		s := scriptOf(p)
		s.Fail = sample(t, "failure", failNames)
		s.At = irange(t, "after", 0, len(s.Ops))
		if mode == "callbacks" {
			s.Fail = "throw error"
		}
		p["@S"] = *s
	} else if len(all) > 0 && mode != "callbacks" {
		p := sample(t, "which", all)
		s := scriptOf(p)
		s.Raw = "#//!js\n" + sample(t, "caught", caught)
		s.Ops = nil
		p["@S"] = *s
	}
	return failCase{Doc: doc, Mode: mode}
}

func checkFail(c failCase, x *Ctx) error {
	_, log, merr := modelRun(c.Doc, false)
	if _, ok := merr.(discard); ok {
		return merr
	}
	failure, fails := merr.(scriptFailure)
	if merr != nil && !fails {
		return merr
	}
	if !fails {
		// a script in an unsupported language may be noticed without being reached
		unsettled := false
		walkScripts(c.Doc, func(s *Script) {
			if k, ok := failKinds[s.Fail]; ok && k.scan {
				unsettled = true
			}
		})
		if unsettled {
			return skip("unsupported language that is not reached")
		}
	}
	x.Tag(c.Mode)
	if fails {
		x.NonTrivial()
		x.Tag(failure.s.Fail)
		x.TagIf(log[len(log)-1].Scope != "$", "fails in a nested scope")
		x.TagIf(len(log) > 1, "fails after others")
	} else {
		x.Tag("none fails")
		if len(log) > 0 {
			x.NonTrivial()
		}
	}
	text := textOf(c.Doc)
	what := "evaluating " + string(text)
	switch c.Mode {
	case "callbacks":
		rec := &recorder{}
		j, err := placeCallbacks(c.Doc, "map", rec)
		if err != nil {
			return err
		}
		p := catch(j.Run)
		what = "running callbacks of " + mustJSON(c.Doc)
		if fails {
			if p == nil {
				return failf("%s: no panic", what)
			}
			v, ok := p.(panicValue)
			if !ok {
				return failf("%s: panics with %T %v instead of the callback's value", what, p, p)
			}
			if rec.ids[len(rec.ids)-1] != v.ID {
				return failf("%s: callbacks ran after the panic", what)
			}
			rec.ids = nil
			return afterFailure(j, what, rec)
		}
		if p != nil {
			return failf("%s: panics: %v", what, p)
		}
		return nil
	case "run":
		j, err := loadText(text)
		if err != nil {
			return err
		}
		var p any
		captured(func() { p = catch(j.Run) })
		if fails && p == nil {
			got, _ := dump(j)
			return failf("running %s: no panic (%s); document %s", text, failure.s.Fail, short(got))
		}
		if fails && !failKinds[failure.s.Fail].scan {
			x.Tag("used after the failure")
			return afterFailure(j, "running "+string(text), nil)
		}
		if !fails && p != nil {
			return failf("running %s panics: %v", text, p)
		}
		return nil
	}
	var out []byte
	var err error
	captured(func() { out, err = jom.Eval(text, false) })
	if fails {
		if err == nil {
			return failf("%s: no error (%s); result %s", what, failure.s.Fail, short(out))
		}
		if len(out) != 0 {
			return failf("%s: result %s beside the error %v", what, short(out), err)
		}
		return nil
	}
	if err != nil {
		return failf("%s: fails: %v", what, err)
	}
	if !json.Valid(out) {
		return failf("%s: invalid JSON %s", what, short(out))
	}
	return nil
}

// A document whose run failed is still one that can be stripped, printed, and run again.
func afterFailure(j *jom.JsonMap, what string, rec *recorder) error {
	what += " (which failed)"
	var want any
	if rec == nil {
		before, err := dump(j)
		if err != nil {
			return failf("%s: then cannot be marshalled: %v", what, err)
		}
		reloaded, err := loadText([]byte(j.String()))
		if err != nil {
			return failf("%s: then cannot be reloaded: %v", what, err)
		}
		again, err := dump(reloaded)
		if err != nil {
			return err
		}
		if err := wantSame(what+": then printed and reloaded", again, before); err != nil {
			return err
		}
		want = withoutScripts(before)
	}
	if p := catch(j.Strip); p != nil {
		return failf("%s: then stripping it panics: %v", what, p)
	}
	got, err := dump(j)
	if err != nil {
		return failf("%s: then cannot be marshalled after a strip: %v", what, err)
	}
	if rec == nil {
		if err := wantSame(what+": then stripped", got, want); err != nil {
			return err
		}
	}
	if j.FindScriptFields() {
		return failf("%s: scripts after a strip: %s", what, short(got))
	}
	// and a script that is added now runs
	if j.IsArray() {
		j.MustSet("$.array", []interface{}{map[string]interface{}{}})
		j.MustSet("$.array[0].s", "#//!js\njson.trail.added = json.scopePath;")
		want = arr{obj{"added": "$.array.[0]"}}
	} else {
		j.MustSet("$.s", "#//!js\njson.trail.added = json.scopePath;")
		want = clone(got)
		want.(obj)["added"] = "$"
		delete(want.(obj), "s")
	}
	var p interface{}
	stdout, _ := captured(func() { p = catch(j.Run) })
	if p != nil {
		return failf("%s: then stripped, and run with another script, panics: %v", what, p)
	}
	if ids := idsOf(stdout); len(ids) > 0 || rec != nil && len(rec.ids) > 0 {
		return failf("%s: then stripped, and run again, still runs %v", what, ids)
	}
	if got, err = dump(j); err != nil {
		return err
	}
	return wantSame(what+": then stripped, and run with another script", got, norm(want))
}

// A document without the pairs that are scripts in Javascript or Go.
func withoutScripts(v any) any {
	switch x := v.(type) {
	case obj:
		out := obj{}
		for k, e := range x {
			if s, ok := e.(string); ok && (strings.HasPrefix(s, "#//!js\n") || strings.HasPrefix(s, "#//!go\n")) {
				continue
			}
			out[k] = withoutScripts(e)
		}
		return out
	case arr:
		out := arr{}
		for _, e := range x {
			out = append(out, withoutScripts(e))
		}
		return out
	}
	return v
}

func walkScripts(v any, f func(s *Script)) {
	switch x := v.(type) {
	case obj:
		if isS(x) {
			s := scriptOf(x)
			f(s)
			for _, op := range s.Ops {
				walkScripts(op.V, f)
			}
			return
		}
		for _, k := range sortedKeys(x) {
			walkScripts(x[k], f)
		}
	case arr:
		for _, e := range x {
			walkScripts(e, f)
		}
	}
}

func init() {
	register("C05", "a generated document with 1-40 scripts that write their number to the console (also placed by other scripts); non-trivial: at least two scripts run by the reference interpreter",
		genEvalCase, checkOrderCase, workers(8, 8), counts(24000, 480000))
	register("C06", "a generated document with scripts made of set/delete/push/increment/copy/reset edits, also placing and deleting scripts in nested containers; non-trivial: scripts with edits run",
		genEvalCase, checkEditsCase, workers(8, 8), counts(24000, 480000))
	register("C07", "a generated document with Go callbacks (in the map, set by path, or by absolute path) making the same kinds of edits; non-trivial: at least one callback runs",
		genCbCase, checkCallbacks, workers(8, 8), counts(24000, 480000))
	register("C08", "a history of 2-8 steps (run, strip, set, delete, markup, print, clone, reload, select) on one document object; non-trivial: scripts ran and at least two steps",
		genHistCase, checkHist, workers(8, 8), counts(24000, 480000))
	register("C09", "a generated document with scripts or callbacks at any depth; non-trivial: at least one script",
		genStripCase, checkStrip, workers(8, 8), counts(80000, 1600000))
	register("C10", "a generated document, a path, a script and a language name; non-trivial: at least one place marked up, or a refusal expected",
		genMarkCase, checkMark, workers(8, 8), counts(32000, 640000))
	register("C11", "a generated document with scripts one of which fails in one of 56 ways (or catches its own failure), through Eval, Run or callbacks; non-trivial: the failing script is reached, or scripts run without failure",
		genFailCase, checkFail, workers(8, 8), counts(24000, 480000))
}
