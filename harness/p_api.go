package main

// C25 to C29: selectors within scripts, the console, scope paths, histories of edits, parallel evaluation.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

// Puts v at a path of keys and indices below a new copy of the document.
func withAt(doc any, p []any, key string, v any) (any, bool) {
	root := clone(rootOf(doc)).(obj)
	_, isArr := doc.(arr)
	s, ok := lookAt(root, p)
	m, isObj := s.(obj)
	if !ok || !isObj || (isArr && len(p) == 0 && key == "array") {
		return nil, false
	}
	m[key] = v
	return docOf(root, isArr), true
}

// ------------------------------------------------------------------------------------------------ C25

type selStep struct {
	K   string `json:"k"` // get set edit bad hold held paths
	P   []Seg  `json:"p,omitempty"`
	V   any    `json:"v,omitempty"`
	Op  *Op    `json:"op,omitempty"`
	Bad string `json:"bad,omitempty"`
	N   int    `json:"n,omitempty"` // held: which of the node sets; form of the call
	A   any    `json:"a,omitempty"` // the trail
}

type selScriptCase struct {
	Doc   any       `json:"doc"`
	At    []any     `json:"at"`
	Steps []selStep `json:"steps"`
}

const selKey = "zz_"

const selHelpers = `var R_ = [], N_ = [];
function try_(f) {
	var s = JSON.stringify(json.trail);
	try { R_.push(f()); } catch (e) { R_.push('error'); JSON.parse(JSON.stringify(json.trail)); json.trail = JSON.parse(s); }
}
function values_(n) { return {v: JSON.parse(JSON.stringify(n.getValues()))}; }
function each_(n) { var v = n.getValues(), out = []; for (var i = 0; i < v.length; i++) { out.push(v[i]); } return {v: out}; }
`

var badCalls = []string{"json.jsonPathSelector()", "json.jsonPathSelector(5)", "json.jsonPathSelector(null)", "json.jsonPathSelector({})",
	"json.jsonPathSelector(['$.a'])", "json.jsonPathSelector(undefined)", "json.jsonPathSelector('$[:]')", "json.jsonPathSelector('$.a[')", "json.jsonPathSelector('')",
	"json.jsonPathSelector('a')", "json.jsonPathSelector('$[-1]')", "json.jsonPathSelector('$.noSuchKey_.x').getValues()",
	"json.jsonPathSelector('$.noSuchKey_[0]').getValues()", "json.jsonPathSelector('$.noSuchKey_.x').setValues(1)",
	"json.jsonPathSelector('$[?(throw 1)]').getValues()", "json.jsonPathSelector('$[?(noSuchVar)]').getValues()", "json.jsonPathSelector(true)",
	"json.jsonPathSelector('$.noSuchKey_.x').setValues({a: [1]})",
	"json.jsonPathSelector('$.a', '$.b')", "json.jsonPathSelector('$', 1)", "json.jsonPathSelector('$.a', undefined)",
	"json.jsonPathSelector('$.noSuchKey_').setValues()", "json.jsonPathSelector('$.noSuchKey_').setValues(1, 2)", "json.jsonPathSelector('$.noSuchKey_').setValues(null, null)",
	"var o_ = {a: 1}; o_.b = o_; json.jsonPathSelector('$.noSuchKey_').setValues(o_)", "var o_ = [1]; o_.push({a: o_}); json.jsonPathSelector('$.noSuchKey_').setValues(o_)",
	"json.jsonPathSelector('$.noSuchKey_').setValues({toJSON: function () { throw 1; }})", "json.jsonPathSelector('$.noSuchKey_').setValues({a: {get b() { throw 1; }}})",
	withTrail("undefined", "json.jsonPathSelector('$.a').getValues()"), withTrail("null", "json.jsonPathSelector('$.a').getValues()"),
	withTrail("5", "json.jsonPathSelector('$..a').getValues()"), withTrail("'text'", "json.jsonPathSelector('$..a').setValues(1)"),
	withTrail("true", "json.jsonPathSelector('$.*').getValues()"), withTrail("(function () { var o = {}; o.a = o; return o; })()", "json.jsonPathSelector('$.a').getValues()"),
	withTrail("function () {}", "json.jsonPathSelector('$.a').setValues(2)")}

// The call with something else in the place of the trail, which comes back afterwards.
func withTrail(value, call string) string {
	return "var t_ = json.trail; json.trail = " + value + "; try { " + call + "; } finally { json.trail = t_; }"
}

// Scripts have no integers beyond 2^53.
func asScriptSees(n float64) int {
	if n >= 1<<63 {
		return math.MaxInt64
	}
	return int(n)
}

func keysAsScriptsSee(keys []json_map.AbsolutePathKey) []json_map.AbsolutePathKey {
	out := make([]json_map.AbsolutePathKey, len(keys))
	for i, k := range keys {
		out[i] = k
		switch v := k.Value.(type) {
		case int:
			out[i].Value = asScriptSees(float64(v))
		case []json_map.AbsolutePathKey:
			out[i].Value = keysAsScriptsSee(v)
		}
	}
	return out
}

// A key of an absolute path as scripts see it.
func keyOfScript(v any) (json_map.AbsolutePathKey, error) {
	o, ok := v.(obj)
	id, isNum := o["typeId"].(float64)
	if !ok || !isNum {
		return json_map.AbsolutePathKey{}, failf("not a key: %s", short(v))
	}
	k := json_map.AbsolutePathKey{KeyType: json_map.AbsolutePathKeyType(id), Value: o["key"]}
	if name := o["typeName"]; name != json_map.AbsolutePathKeyTypeNames[k.KeyType] {
		return k, failf("a key of type %v is called %s", id, short(name))
	}
	if n, ok := k.Value.(float64); ok {
		k.Value = asScriptSees(n)
	}
	if k.KeyType == json_map.Slice {
		parts, _ := o["key"].(arr)
		var ends []json_map.AbsolutePathKey
		for _, p := range parts {
			e, err := keyOfScript(p)
			if err != nil {
				return k, err
			}
			ends = append(ends, e)
		}
		k.Value = ends
	}
	return k, nil
}

func (s selStep) source(root obj) string {
	path := jsLiteral(renderPath(s.P))
	get := oneOfBy(s.N, "values_", "each_")
	switch s.K {
	case "get":
		return fmt.Sprintf("try_(function () { return %s(json.jsonPathSelector(%s)); });", get, path)
	case "set":
		v := jsLiteral(s.V)
		switch s.N % 3 {
		case 1:
			v = "JSON.parse(" + jsLiteral(mustJSON(s.V)) + ")"
		case 2:
			v = "(function (x) { return x; })(" + v + ")"
		}
		return fmt.Sprintf("try_(function () { json.jsonPathSelector(%s).setValues(%s); return 'set'; });", path, v)
	case "hold":
		return fmt.Sprintf("try_(function () { N_.push(json.jsonPathSelector(%s)); return 'held'; });", path)
	case "paths":
		return fmt.Sprintf("try_(function () { return JSON.parse(JSON.stringify(json.jsonPathSelector(%s)._absolutePaths)); });", path)
	case "held":
		if s.V != nil {
			return fmt.Sprintf("try_(function () { N_[%d].setValues(%s); return 'set'; });", s.N, jsLiteral(s.V))
		}
		return fmt.Sprintf("try_(function () { return %s(N_[%d]); });", get, s.N)
	case "array":
		// with an array in the place of the trail
		call := fmt.Sprintf("return %s(json.jsonPathSelector(%s));", get, path)
		if s.V != nil {
			call = fmt.Sprintf("json.jsonPathSelector(%s).setValues(%s); return {v: JSON.parse(JSON.stringify(json.trail))};", path, jsLiteral(s.V))
		}
		return fmt.Sprintf("try_(function () { var t_ = json.trail; json.trail = JSON.parse(%s); try { %s } finally { json.trail = t_; } });", jsLiteral(mustJSON(s.A)), call)
	case "bad":
		return fmt.Sprintf("try_(function () { %s; return 'no error'; });", s.Bad)
	case "edit":
		return (&Script{Ops: []Op{*s.Op}}).opsText()
	}
	return ""
}

// The script of a case.
func (c selScriptCase) source() string {
	var b strings.Builder
	b.WriteString("#//!js\n" + jsHelpers + selHelpers)
	for _, s := range c.Steps {
		b.WriteString(s.source(nil) + "\n")
	}
	b.WriteString("json.trail.R_ = JSON.stringify(R_);")
	return b.String()
}

type selExpect struct {
	err    bool
	values []any
	other  []any // also allowed
	text   string
	paths  [][]json_map.AbsolutePathKey
	whole  any // the trail afterwards
}

// Runs the steps on the model; scope contains the script's own text.
func (c selScriptCase) model(scope obj, upto int) (obj, []selExpect, error) {
	src := scope[selKey]
	cur := clone(scope).(obj)
	var res []selExpect
	var held [][]Seg
	get := func(p []Seg, in ...obj) (selExpect, error) {
		from := cur
		if len(in) > 0 {
			from = in[0]
		}
		vs, err := modelSelect(from, p)
		if err != nil {
			if !prescribed(err) {
				return selExpect{}, err
			}
			return selExpect{err: true}, nil
		}
		e := selExpect{values: normList(vs)}
		if len(e.values) == 1 {
			if a, ok := e.values[0].(arr); ok {
				e.other = a
			}
		}
		return e, nil
	}
	set := func(p []Seg, v any) error {
		next, _, err := modelSet(cur, p, v)
		if err != nil {
			if !prescribed(err) {
				return err
			}
			res = append(res, selExpect{err: true})
			return nil
		}
		cur = next
		res = append(res, selExpect{text: "set"})
		return nil
	}
	for i, s := range c.Steps {
		if i == upto {
			break
		}
		switch s.K {
		case "get":
			e, err := get(s.P)
			if err != nil {
				return nil, nil, err
			}
			res = append(res, e)
		case "set":
			if err := set(s.P, s.V); err != nil {
				return nil, nil, err
			}
		case "hold":
			held = append(held, s.P)
			res = append(res, selExpect{text: "held"})
		case "paths":
			res = append(res, selExpect{paths: expectedKeys(s.P)})
		case "held":
			if s.N >= len(held) {
				return nil, nil, skip("nothing held")
			}
			if s.V != nil {
				if err := set(held[s.N], s.V); err != nil {
					return nil, nil, err
				}
				break
			}
			e, err := get(held[s.N])
			if err != nil {
				return nil, nil, err
			}
			res = append(res, e)
		case "array":
			root := clone(rootOf(s.A)).(obj)
			e, err := selExpect{}, error(nil)
			if s.V != nil {
				next, _, serr := modelSet(root, s.P, s.V)
				if serr != nil && !prescribed(serr) {
					return nil, nil, serr
				}
				if e.err = serr != nil; !e.err {
					if _, ok := next["array"].(arr); !ok || len(next) != 1 {
						return nil, nil, skip("no array")
					}
					e.whole = next["array"]
				}
			} else if e, err = get(s.P, root); err != nil {
				return nil, nil, err
			}
			res = append(res, e)
		case "bad":
			if _, ok := cur["noSuchKey_"]; ok {
				return nil, nil, skip("resolves")
			}
			res = append(res, selExpect{err: true})
		case "edit":
			next, err := applyOp(cur, *s.Op, "")
			if err != nil {
				return nil, nil, err
			}
			cur = next
		}
		if cur[selKey] != src || strings.Count(mustJSON(cur), "#//!") != 1 {
			return nil, nil, skip("touches the script itself")
		}
	}
	return cur, res, nil
}

func (s *Script) opsText() string {
	src := (&Script{Ops: s.Ops}).source()
	return strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(src, "#//!js\n"), jsHelpers))
}

func genSelScript(t *rapid.T) selScriptCase {
	c := selScriptCase{Doc: genDoc(t, docOpts{depth: 3, width: 4, plain: true, odd: 4}, 12)}
	_, isArr := c.Doc.(arr)
	var ps [][]any
	objects(rootOf(c.Doc), nil, func(p []any) {
		if !(isArr && len(p) == 0) {
			ps = append(ps, p)
		}
	})
	c.At = []any{}
	if isArr || chance(t, 35, "nested?") {
		if len(ps) == 0 {
			c.Doc, isArr = obj{"a": arr{1.0}}, false
		} else {
			c.At = sample(t, "at", ps)
		}
	}
	at, _ := lookAt(rootOf(c.Doc), c.At)
	scope := clone(at).(obj)
	delete(scope, selKey)
	scope[selKey] = "#//!js\nthe script"
	g := &scriptGen{t: t, o: scriptOpts{doc: docOpts{plain: true, depth: 2, width: 3}}}
	held := 0
	var paths [][]Seg
	var next []selStep
	pending := false
	for n := irange(t, "steps", 1, 7); n > 0; n-- {
		cur, _, err := c.model(scope, -1)
		if err != nil {
			panic("harness error: " + err.Error())
		}
		s := selStep{K: oneOf(t, "step", "get", "get", "get", "set", "set", "set", "edit", "bad", "hold", "hold", "held", "held", "held", "paths", "array")}
		s.N = uniform(t, 6)
		switch s.K {
		case "get", "hold", "paths":
			s.P = genPath(t, cur, pathOpts{maxLen: 4})
		case "set":
			s.P = genPath(t, cur, pathOpts{maxLen: 4, forSet: true})
			if len(s.P) == 1 && s.P[0].K == "prop" && chance(t, 30, "new key?") {
				s.P[0].Name = "new"
			}
			if !chance(t, 20, "delete?") {
				s.V = genSetValue(t)
			}
		case "edit":
			op := g.op(cur, 0)
			s.Op = &op
		case "array":
			a := genArray(t, docOpts{depth: 2, width: 3, plain: true}, 2)
			s.A = a
			if chance(t, 40, "set?") {
				s.P, s.V = genSetPath(t, a, 4), genSetValue(t)
			} else {
				s.P = genPath(t, rootOf(a), pathOpts{maxLen: 4})
			}
		case "bad":
			s.Bad = sample(t, "bad call", badCalls)
		case "held":
			if held == 0 {
				s.K, s.P = "get", genPath(t, cur, pathOpts{maxLen: 4})
				break
			}
			s.N = uniform(t, held)
			if chance(t, 40, "set?") {
				s.V = genSetValue(t)
			} else if chance(t, 50, "again after an edit?") {
				// what it selects is changed, without the selector, and read once more
				again := s
				next = append(next, selStep{K: "set", P: paths[s.N], V: genSetValue(t)}, again)
				n += 2
			}
		}
		if len(next) > 0 && c.Steps != nil && pending {
			s, next = next[0], next[1:]
		}
		pending = len(next) > 0
		c.Steps = append(c.Steps, s)
		if _, _, err := c.model(scope, -1); err != nil {
			c.Steps = c.Steps[:len(c.Steps)-1]
		} else if s.K == "hold" {
			held++
			paths = append(paths, s.P)
		}
	}
	if chance(t, 8, "an array that grows?") {
		c.growing(t, scope, held)
	}
	return c
}

// A node set of places in an array, held while the array gets longer or shorter.
func (c *selScriptCase) growing(t *rapid.T, scope obj, held int) {
	cur, _, err := c.model(scope, -1)
	if err != nil {
		return
	}
	arrays, lens := arrayPaths(cur)
	if len(arrays) == 0 {
		return
	}
	i := uniform(t, len(arrays))
	path := arrays[i]
	keys := []any{}
	for _, s := range path {
		if s.K == "prop" {
			keys = append(keys, s.Name)
		} else if s.K == "idx" && len(s.Idx) == 1 {
			keys = append(keys, s.Idx[0])
		} else {
			return
		}
	}
	seg := genSlice(t, lens[i])
	if chance(t, 20, "no slice?") {
		seg = Seg{K: oneOf(t, "all", "wildidx", "wildidx", "filter"), Raw: "true"}
	}
	steps := []selStep{{K: "hold", P: append(path[:len(path):len(path)], seg), N: uniform(t, 6)}}
	for n := irange(t, "changes", 1, 3); n > 0; n-- {
		steps = append(steps, selStep{K: "held", N: held})
		if chance(t, 25, "set?") {
			steps = append(steps, selStep{K: "held", N: held, V: genSetValue(t)})
		}
		op := Op{K: "push", P: keys, V: genSetValue(t)}
		if chance(t, 30, "shorter?") {
			op = Op{K: "del", P: append(keys[:len(keys):len(keys)], 0)}
		}
		for k := irange(t, "by", 1, 2); k > 0; k-- {
			steps = append(steps, selStep{K: "edit", Op: &op})
		}
	}
	for _, s := range append(steps, selStep{K: "held", N: held}) {
		c.Steps = append(c.Steps, s)
		if _, _, err := c.model(scope, -1); err != nil {
			c.Steps = c.Steps[:len(c.Steps)-1]
			if s.K == "hold" {
				return
			}
		}
	}
}

func checkSelScript(c selScriptCase, x *Ctx) error {
	_, isArr := c.Doc.(arr)
	src := c.source()
	doc, ok := withAt(c.Doc, c.At, selKey, src)
	if !ok {
		return skip("no such object")
	}
	at, _ := lookAt(rootOf(doc), c.At)
	want, exp, merr := c.model(at.(obj), -1)
	if merr != nil {
		return merr
	}
	text := textOf(doc)
	what := "evaluating " + string(text)
	got, _, err := evaluate(text, "eval")
	if err != nil {
		return failf("%s: %v", what, err)
	}
	for _, s := range c.Steps {
		x.Tag("step " + s.K)
		tagSegs(x, s.P)
		if s.K != "edit" && s.K != "hold" && s.K != "paths" {
			x.NonTrivial()
		}
	}
	g, _ := lookAt(rootOf(got), c.At)
	gm, ok := g.(obj)
	if !ok {
		return failf("%s: gives %s", what, short(got))
	}
	var res arr
	if s, ok := gm["R_"].(string); ok {
		v, _ := fromJSON([]byte(s))
		res, _ = v.(arr)
	}
	if res == nil || len(res) != len(exp) {
		return failf("%s: %d results instead of %d: %s", what, len(res), len(exp), short(gm["R_"]))
	}
	k := 0
	for i, s := range c.Steps {
		if s.K == "edit" {
			continue
		}
		e, r := exp[k], res[k]
		k++
		what := fmt.Sprintf("%s: step %d (%s %s)", what, i, s.K, renderPath(s.P))
		switch {
		case e.err:
			x.Tag("error expected")
			if r != "error" {
				return failf("%s: no exception: %s", what, short(r))
			}
		case e.text != "":
			if r != e.text {
				return failf("%s: %s", what, short(r))
			}
		case e.paths != nil:
			list, ok := r.(arr)
			if !ok {
				return failf("%s: %s instead of the absolute paths", what, short(r))
			}
			var paths json_map.AbsolutePaths
			for _, p := range list {
				p, ok := p.(arr)
				if !ok {
					return failf("%s: an absolute path is %s", what, short(p))
				}
				keys := []json_map.AbsolutePathKey{}
				for _, k := range p {
					key, err := keyOfScript(k)
					if err != nil {
						return failf("%s: %v", what, err)
					}
					keys = append(keys, key)
				}
				paths = append(paths, keys)
			}
			var wanted [][]json_map.AbsolutePathKey
			for _, keys := range e.paths {
				wanted = append(wanted, keysAsScriptsSee(keys))
			}
			if err := comparePaths(paths, wanted); err != nil {
				return failf("%s: %v", what, err)
			}
		default:
			m, ok := r.(obj)
			if !ok {
				return failf("%s: %s instead of the values %s", what, short(r), short(e.values))
			}
			x.TagIf(len(e.values) > 0, "values")
			if e.whole != nil {
				if err := wantSame(what+": the trail", m["v"], norm(e.whole)); err != nil {
					return err
				}
				continue
			}
			if e.other != nil && same(m["v"], any(arr(e.other))) {
				continue
			}
			if err := wantSame(what, m["v"], any(arr(e.values))); err != nil {
				return err
			}
		}
	}
	delete(gm, "R_")
	delete(want, "R_")
	delete(want, selKey)
	root := rootOf(doc)
	if len(c.At) == 0 {
		root = want
	} else {
		update(root, c.At[:len(c.At)-1], func(v any) any {
			switch x := v.(type) {
			case obj:
				x[c.At[len(c.At)-1].(string)] = want
			case arr:
				n, _ := toIndex(c.At[len(c.At)-1])
				x[n] = want
			}
			return v
		})
	}
	return wantSame(what, got, norm(docOf(root, isArr)))
}

// ------------------------------------------------------------------------------------------------ C26

type conCall struct {
	Fn   string `json:"fn"`
	Args []any  `json:"args"` // a value, or {"js": "undefined"}
	Wrap int    `json:"wrap,omitempty"`
	N    int    `json:"n,omitempty"` // times, in a loop
}

type conScript struct {
	At    []any     `json:"at"`
	Key   string    `json:"key"`
	Calls []conCall `json:"calls"`
}

type conCase struct {
	Doc     any         `json:"doc"`
	Scripts []conScript `json:"scripts"`
}

var conWraps = []string{"%s;", "(function () { %s; })();", "function f%d() { %s; } f%d();", "try { %s; throw 1; } catch (e) { }", "try { null.x; } catch (e) { %s; }",
	"[0].forEach(function () { %s; });", "if (true) { %s; } else { console.log('no'); }", "var l = 1; %s;", "try { } finally { %s; }", "switch (1) { case 1: %s; break; default: console.error('no'); }"}

func (c conCall) source(i int) string {
	var args []string
	for _, a := range c.Args {
		if m, ok := a.(obj); ok {
			args = append(args, m["js"].(string))
			continue
		}
		args = append(args, jsLiteral(a))
	}
	call := fmt.Sprintf("%s(%s)", c.Fn, strings.Join(args, ", "))
	w := conWraps[c.Wrap%len(conWraps)]
	if strings.Contains(w, "%d") {
		w = strings.ReplaceAll(w, "%d", strconv.Itoa(i))
	}
	s := strings.Replace(w, "%s", call, 1)
	if c.N > 0 {
		s = fmt.Sprintf("for (var i%d = 0; i%d < %d; i%d++) { %s }", i, i, c.N, i, s)
	}
	return s
}

// What is shown of an argument; numbers are told apart by value.
type shown struct {
	text string
	num  *float64
}

func showArg(a any) shown {
	switch v := a.(type) {
	case nil:
		return shown{text: "undefined"}
	case bool:
		return shown{text: strconv.FormatBool(v)}
	case string:
		return shown{text: v}
	case float64:
		return shown{num: &v}
	case obj:
		switch v["js"] {
		case "undefined", "void 0", "json.trail.noSuchKey_", "[][0]":
			return shown{text: "undefined"}
		case "1 < 2":
			return shown{text: "true"}
		case "'a' + 'b'":
			return shown{text: "ab"}
		case "1 + 2":
			n := 3.0
			return shown{num: &n}
		}
	}
	return shown{text: "?"}
}

// Consumes what is shown of the arguments from the text of a record.
func matchArgs(text string, args []any) error {
	whole := text
	for i, a := range args {
		if m, ok := a.(obj); ok && m["marks"] != nil {
			return matchObject(text, i, m)
		}
		s := showArg(a)
		if i > 0 {
			if !strings.HasPrefix(text, " ") {
				return failf("no blank before argument %d of %q", i, whole)
			}
			text = text[1:]
		}
		if s.num != nil {
			n := strings.IndexByte(text, ' ')
			if n < 0 {
				n = len(text)
			}
			f, err := strconv.ParseFloat(text[:n], 64)
			if err != nil || f != *s.num {
				return failf("argument %d of %q is not the number %v", i, whole, *s.num)
			}
			text = text[n:]
			continue
		}
		if !strings.HasPrefix(text, s.text) {
			return failf("argument %d of %q is not %q", i, whole, s.text)
		}
		text = text[len(s.text):]
	}
	if text != "" {
		return failf("%q after the arguments of %q", text, whole)
	}
	return nil
}

// An object is the last argument: its text is the rest. Every name and value in it is shown as often as it can be reached.
func matchObject(text string, i int, m obj) error {
	if i > 0 {
		if !strings.HasPrefix(text, " ") {
			return failf("no blank before argument %d of %q", i, text)
		}
	}
	for mark, n := range m["marks"].(obj) {
		want, _ := toIndex(n)
		got := strings.Count(text, mark)
		if got != want && (want > 0 || got == 0) {
			return failf("%q is shown %d times in %q, which shows %s", mark, got, text, m["js"])
		}
	}
	return nil
}

// A Javascript expression that gives an object with marked names and values; a count of 0 means at least once.
func genMarked(t *rapid.T) obj {
	marks := obj{}
	n := 0
	mark := func(kind string, times int) string {
		n++
		s := fmt.Sprintf("%s%dx", kind, n)
		marks[s] = times
		return s
	}
	var gen func(depth, times int) string
	gen = func(depth, times int) string {
		switch pick(t, "member", 4, 2, 3, 2) {
		case 0:
			return "'" + mark("v", times) + "'"
		case 1:
			k := 7000 + len(marks)*7
			marks[fmt.Sprint(k)] = times
			return fmt.Sprint(k)
		case 2:
			if depth > 2 {
				return "'" + mark("v", times) + "'"
			}
			var ms []string
			for i := irange(t, "members", 1, 3); i > 0; i-- {
				ms = append(ms, mark("k", times)+": "+gen(depth+1, times))
			}
			return "{" + strings.Join(ms, ", ") + "}"
		default:
			if depth > 2 {
				return "'" + mark("v", times) + "'"
			}
			var ms []string
			for i := irange(t, "elements", 1, 3); i > 0; i-- {
				ms = append(ms, gen(depth+1, times))
			}
			return "[" + strings.Join(ms, ", ") + "]"
		}
	}
	shallow := gen
	gen = func(depth, times int) string {
		js := shallow(depth, times)
		if depth == 1 && chance(t, 15, "deep?") {
			for n := irange(t, "levels", 1, 40); n > 0; n-- {
				if chance(t, 30, "array?") {
					js = "[" + js + "]"
				} else {
					js = "{" + mark("k", times) + ": " + js + "}"
				}
			}
		}
		return js
	}
	js := ""
	switch pick(t, "object", 5, 2, 2, 1) {
	case 0:
		js = "({" + mark("k", 1) + ": " + gen(1, 1) + "})"
	case 1: // one object in several places
		times := irange(t, "places", 2, 3)
		shared := gen(1, times)
		ms := []string{}
		for i := 0; i < times; i++ {
			ms = append(ms, mark("k", 1)+": s")
		}
		js = "(function () { var s = {" + mark("k", times) + ": " + shared + "}; return {" + strings.Join(ms, ", ") + "}; })()"
	case 2: // one of the objects that scripts are given, within itself
		js = "(function () { var s = " + oneOf(t, "whose", "json", "console", "json.jsonPathSelector('$')") + "; s." + mark("k", 0) + " = " + gen(1, 0) + "; s." + mark("k", 0) + " = " + oneOf(t, "itself", "s", "{"+mark("k", 0)+": s}", "[s]") + "; return s; })()"
	default: // an object within itself
		js = "(function () { var s = {" + mark("k", 0) + ": " + gen(1, 0) + "}; s." + mark("k", 0) + " = " + oneOf(t, "itself", "s", "{"+mark("k", 0)+": s}", "[s]", "[1, [s]]") + "; return s; })()"
	}
	return obj{"js": js, "marks": marks}
}

type record struct {
	head string
	body string
}

// Splits a stream into records: a line that does not start with a tab, and lines that do.
func records(s string) ([]record, error) {
	var out []record
	if s == "" {
		return nil, nil
	}
	if !strings.HasSuffix(s, "\n") {
		return nil, failf("no newline at the end of %q", s)
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	for i := 0; i < len(lines); {
		if strings.HasPrefix(lines[i], "\t") {
			return nil, failf("unexpected line %q in %q", lines[i], s)
		}
		r := record{head: lines[i]}
		var body []string
		for i++; i < len(lines) && strings.HasPrefix(lines[i], "\t"); i++ {
			body = append(body, lines[i][1:])
		}
		if len(body) == 0 {
			return nil, failf("a record without a body: %q in %q", r.head, s)
		}
		r.body = strings.Join(body, "\n")
		out = append(out, r)
	}
	return out, nil
}

func scopeText(p []any) string {
	s, _ := pathText(p)
	return s
}

func genConCase(t *rapid.T) conCase {
	c := conCase{Doc: genDoc(t, docOpts{depth: 3, width: 3, plain: true}, 12)}
	_, isArr := c.Doc.(arr)
	var ps [][]any
	objects(rootOf(c.Doc), nil, func(p []any) {
		if !(isArr && len(p) == 0) {
			ps = append(ps, p)
		}
	})
	if len(ps) == 0 {
		c.Doc, ps = obj{}, [][]any{{}}
	}
	used := map[string]bool{}
	for n := irange(t, "scripts", 1, 4); n > 0; n-- {
		s := conScript{At: sample(t, "at", ps), Key: sample(t, "key", []string{"s1", "s10", "s2", "zz", "A0"})}
		if used[scopeText(s.At)+" "+s.Key] {
			continue
		}
		used[scopeText(s.At)+" "+s.Key] = true
		for k := irange(t, "calls", 1, 4); k > 0; k-- {
			call := conCall{Fn: oneOf(t, "function", "console.log", "console.log", "console.error", "printlnExternal"), Wrap: uniform(t, len(conWraps)), Args: []any{}}
			a := pick(t, "arguments", 1, 5, 4, 2, 1, 1)
			if a == 5 {
				a = irange(t, "many arguments", 5, 14)
			}
			for ; a > 0; a-- {
				switch pick(t, "argument", 5, 3, 2, 1, 2) {
				case 0:
					call.Args = append(call.Args, genString(t))
				case 1:
					call.Args = append(call.Args, genNumber(t))
				case 2:
					call.Args = append(call.Args, rapid.Bool().Draw(t, "bool"))
				case 3:
					call.Args = append(call.Args, nil)
				default:
					if a == 1 && chance(t, 60, "an object?") {
						call.Args = append(call.Args, genMarked(t))
						break
					}
					call.Args = append(call.Args, obj{"js": oneOf(t, "expression", "undefined", "void 0", "json.trail.noSuchKey_", "[][0]", "1 < 2", "'a' + 'b'", "1 + 2")})
				}
			}
			if chance(t, 10, "loop?") {
				call.N = irange(t, "times", 2, 4)
			}
			s.Calls = append(s.Calls, call)
		}
		c.Scripts = append(c.Scripts, s)
	}
	return c
}

func checkConsole(c conCase, x *Ctx) error {
	doc := c.Doc
	type want struct {
		stream int
		args   []any
	}
	expect := map[string]map[string][]want{} // scope, key: calls
	for _, s := range c.Scripts {
		var b strings.Builder
		b.WriteString("#//!js\n")
		k := scopeText(s.At)
		if expect[k] == nil {
			expect[k] = map[string][]want{}
		}
		for i, call := range s.Calls {
			b.WriteString(call.source(i) + "\n")
			w := want{args: call.Args}
			if call.Fn == "console.error" {
				w.stream = 1
			}
			n := call.N
			if n == 0 {
				n = 1
			}
			for ; n > 0; n-- {
				expect[k][s.Key] = append(expect[k][s.Key], w)
			}
			x.Tag(call.Fn)
			x.TagIf(len(call.Args) > 1, "several arguments")
			for _, a := range call.Args {
				if o, ok := a.(obj); ok {
					x.TagIf(o["marks"] != nil, "object argument")
				}
			}
		}
		var ok bool
		if doc, ok = withAt(doc, s.At, s.Key, b.String()); !ok {
			return skip("no such object")
		}
		x.TagIf(len(s.At) > 0, "nested scope")
		x.NonTrivial()
	}
	text := textOf(doc)
	what := "evaluating " + string(text)
	var err error
	stdout, stderr := captured(func() { _, err = jom.Eval(text, false) })
	if err != nil {
		return failf("%s: %v", what, err)
	}
	for i, s := range []string{stdout, stderr} {
		word, name := "Print ", "standard output"
		if i == 1 {
			word, name = "Error ", "error output"
		}
		rs, err := records(s)
		if err != nil {
			return failf("%s: %s: %v", what, name, err)
		}
		byScope := map[string][]record{}
		for _, r := range rs {
			if !strings.HasPrefix(r.head, word) {
				return failf("%s: %s has the record %q", what, name, r.head)
			}
			a, b := strings.IndexByte(r.head, '<'), strings.IndexByte(r.head, '>')
			if a < 0 || b < a {
				return failf("%s: %s: no scope in %q", what, name, r.head)
			}
			k := r.head[a+1 : b]
			byScope[k] = append(byScope[k], r)
		}
		total := 0
		for _, scope := range sortedKeysOf(expect) {
			var ws []want
			for _, key := range sortedKeysOf(expect[scope]) {
				for _, w := range expect[scope][key] {
					if w.stream == i {
						ws = append(ws, w)
					}
				}
			}
			rs := byScope[scope]
			total += len(ws)
			if len(rs) != len(ws) {
				return failf("%s: %s has %d records of %s instead of %d: %q", what, name, len(rs), scope, len(ws), s)
			}
			for n, w := range ws {
				if err := matchArgs(rs[n].body, w.args); err != nil {
					return failf("%s: %s: record %d of %s: %v", what, name, n, scope, err)
				}
			}
		}
		if total != len(rs) {
			return failf("%s: %s has %d records instead of %d: %q", what, name, len(rs), total, s)
		}
	}
	return nil
}

func sortedKeysOf[V any](m map[string]V) []string {
	o := obj{}
	for k := range m {
		o[k] = nil
	}
	return sortedKeys(o)
}

// ------------------------------------------------------------------------------------------------ C27

type scopeCase struct {
	Doc any    `json:"doc"` // with scripts whose edits may move things
	Via string `json:"via"` // script callbacks
}

func genScopeCase(t *rapid.T) scopeCase {
	o := scriptOpts{max: 8, log: true, ops: 2, doc: docOpts{depth: 4, width: 3, plain: true}, arrays: 15, nest: true, callback: true}
	if chance(t, 40, "odd keys?") { // (without dots, which would make the path ambiguous, and without line breaks)
		o.doc.keys = append(append([]string{}, pathKeys...), "%s", "5%d", "100%", "%", "%%", "two words", "é", "0", "日本", "-x", "$", "@", "😀")
	}
	if chance(t, 50, "no edits?") {
		o.ops = 0
	}
	doc, _ := genScriptDoc(t, o)
	return scopeCase{Doc: doc, Via: oneOf(t, "via", "script", "script", "callbacks")}
}

var scopeLine = regexp.MustCompile(`(?m)^\tAT (\d+) (.*)$`)
var labelLine = regexp.MustCompile(`<(\$.*)>[^<>\n]*\n\tID (\d+)\n`)

// Adds the scope path as an entry to what a script writes, and to its scope.
func markScopes(v any) any {
	switch x := v.(type) {
	case obj:
		if isS(x) {
			return scriptOf(x).source() + fmt.Sprintf("console.log('AT', %d, json.scopePath); json.trail.at_%d = json.scopePath;", scriptOf(x).ID, scriptOf(x).ID)
		}
		m := obj{}
		for k, e := range x {
			m[k] = markScopes(e)
		}
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = markScopes(e)
		}
		return a
	}
	return v
}

func checkScope(c scopeCase, x *Ctx) error {
	want, log, merr := modelRun(c.Doc, true)
	if merr != nil {
		return merr
	}
	if duplicates(log) {
		return skip("a script was copied")
	}
	tagLog(x, log)
	x.Tag(c.Via)
	if len(log) > 0 {
		x.NonTrivial()
	}
	paths, marked := map[int]string{}, map[int]bool{} // (scripts put there by others have no mark)
	var doc *jom.JsonMap
	what := ""
	if c.Via == "callbacks" {
		rec := &recorder{}
		var err error
		if doc, err = placeCallbacks(c.Doc, "map", rec); err != nil {
			return err
		}
		what = "running callbacks of " + mustJSON(c.Doc)
		if p := catch(doc.Run); p != nil {
			return failf("%s: panics: %v", what, p)
		}
		paths = rec.paths
	} else {
		text := []byte(mustJSON(markScopes(c.Doc)))
		what = "running " + string(text)
		var err error
		if doc, err = loadText(text); err != nil {
			return failf("%s: %v", what, err)
		}
		var p any
		stdout, _ := captured(func() { p = catch(doc.Run) })
		if p != nil {
			return failf("%s: panics: %v", what, p)
		}
		for _, m := range labelLine.FindAllStringSubmatch(stdout, -1) {
			n, _ := strconv.Atoi(m[2])
			paths[n] = m[1]
		}
		for _, m := range scopeLine.FindAllStringSubmatch(stdout, -1) {
			n, _ := strconv.Atoi(m[1])
			if paths[n] != m[2] {
				return failf("%s: script %d is labelled %q and sees the scope path %q", what, n, paths[n], m[2])
			}
			marked[n] = true
		}
	}
	final, err := dump(doc)
	if err != nil {
		return failf("%s: %v", what, err)
	}
	_ = want
	for _, r := range log {
		got, ok := paths[r.ID]
		if !ok {
			return failf("%s: script %d of %s did not run", what, r.ID, r.Scope)
		}
		if got != r.Scope {
			return failf("%s: script %d of %s has the scope path %q", what, r.ID, r.Scope, got)
		}
		if got == "$" {
			continue
		}
		spelt := true
		for _, k := range strings.Split(got, ".")[1:] {
			spelt = spelt && (isPathKey(k) || strings.HasPrefix(k, "["))
		}
		if !spelt { // a key that a path cannot spell
			x.Tag("unspellable key")
			continue
		}
		// the path selects the object which has the script's mark
		nodes, err := doc.JsonPathSelector(got)
		if err != nil {
			return failf("%s: selecting the scope path %s: %v", what, got, err)
		}
		if len(nodes) != 1 {
			return failf("%s: selecting the scope path %s gives %d values", what, got, len(nodes))
		}
		m, ok := nodes[0].Value.(obj)
		if !ok {
			return failf("%s: selecting the scope path %s gives %s", what, got, short(nodes[0].Value))
		}
		x.TagIf(!marked[r.ID], "without a mark")
		if marked[r.ID] {
			if m[fmt.Sprint("at_", r.ID)] != got {
				return failf("%s: the object at %s is not the one of script %d: %s", what, got, r.ID, short(final))
			}
		}
	}
	return nil
}

// ------------------------------------------------------------------------------------------------ C28

type editStep struct {
	K   string `json:"k"` // set mset del mdel push pop select mget run strip print clone load abs
	P   []Seg  `json:"p,omitempty"`
	V   any    `json:"v,omitempty"`
	Idx []int  `json:"idx,omitempty"`
}

type editCase struct {
	Doc   any        `json:"doc"`
	Steps []editStep `json:"steps"`
	Go    bool       `json:"go,omitempty"` // the numbers in values are ints, uint8s, float32s, ...
}

// The outcome of a step on the plain value.
type outcome struct {
	doc    any
	err    bool
	values []any
	has    bool
}

func editModel(doc any, s editStep) (o outcome, err error) {
	root := clone(rootOf(doc)).(obj)
	_, isArr := doc.(arr)
	o.doc = docOf(root, isArr)
	switch s.K {
	case "set", "mset", "del", "mdel":
		if isArr && len(s.P) < 2 {
			return o, skip("root array")
		}
		next, _, err := modelSet(root, s.P, s.V)
		if err != nil {
			if !prescribed(err) {
				return o, err
			}
			o.err = true
			return o, nil
		}
		o.doc = docOf(next, isArr)
	case "select", "mget":
		vs, err := modelSelect(root, s.P)
		if err != nil {
			if !prescribed(err) {
				return o, err
			}
			o.err = true
			return o, nil
		}
		o.values, o.has = normList(vs), true
	case "push", "pop":
		raw, err := modelSelectRaw(root, s.P)
		if err != nil || len(raw) != 1 {
			return o, skip("not one array")
		}
		a, ok := raw[0].(arr)
		if !ok || (s.K == "pop" && len(a) == 0) {
			return o, skip("not one array")
		}
		if s.K == "push" {
			a = modelPush(a, s.V, s.Idx)
		} else {
			var popped arr
			popped, a = modelPop(a, s.Idx)
			o.values, o.has = normList(popped), true
		}
		o.doc = docOf(replaceAt(root, s.P, a).(obj), isArr)
	case "run":
		// a script at an object
		if !(isArr && len(s.P) == 0) {
			v, err := modelSelectRaw(root, s.P)
			if err != nil || len(v) != 1 {
				return o, skip("not one object")
			}
			m, ok := v[0].(obj)
			if !ok {
				return o, skip("not one object")
			}
			if _, ok := m[selKey]; ok {
				return o, skip("key in use")
			}
			m[selKey] = s.V
		} else {
			return o, skip("root array")
		}
		d, _, err := modelRun(docOf(root, isArr), false)
		if err != nil {
			return o, err
		}
		o.doc = d
	case "strip":
		o.doc = modelStrip(o.doc)
	}
	return o, nil
}

func genEditCase(t *rapid.T) editCase {
	c := editCase{Doc: genDoc(t, docOpts{depth: 3, width: 4, plain: true, odd: 3}, 15)}
	c.Go = chance(t, 40, "numbers of Go types?")
	cur := clone(c.Doc)
	g := &scriptGen{t: t, o: scriptOpts{max: 100, ops: 2, doc: docOpts{plain: true, depth: 2, width: 3}}}
	n := irange(t, "steps", 2, 12)
	for tries := 0; len(c.Steps) < n && tries < 30; tries++ {
		root := rootOf(cur)
		_, isArr := cur.(arr)
		s := editStep{K: oneOf(t, "step", "set", "set", "set", "mset", "del", "del", "mdel", "push", "push", "pop", "pop", "select", "mget", "run", "strip", "print", "clone", "load")}
		switch s.K {
		case "set", "mset":
			s.P, s.V = genSetPath(t, cur, 4), genSetValue(t)
		case "del", "mdel":
			s.P = genSetPath(t, cur, 4)
		case "select", "mget":
			s.P = genPath(t, root, pathOpts{maxLen: 4})
		case "push", "pop":
			ps, lens := arrayPaths(root)
			if len(ps) == 0 {
				continue
			}
			i := uniform(t, len(ps))
			s.P = ps[i]
			if s.K == "push" {
				s.V = genSetValue(t)
				s.Idx = intSlice(t, "indices", 0, lens[i]+2, 0, 3)
			} else {
				s.Idx = intSlice(t, "indices", -1, lens[i]+1, 0, 3)
			}
		case "run":
			var ps [][]any
			objects(root, nil, func(p []any) {
				if _, ok := pathText(p); ok && !(isArr && len(p) == 0) {
					ps = append(ps, p)
				}
			})
			if len(ps) == 0 {
				continue
			}
			p := sample(t, "at", ps)
			for _, k := range p {
				if str, ok := k.(string); ok {
					s.P = append(s.P, Seg{K: "prop", Name: str})
				} else {
					i, _ := toIndex(k)
					s.P = append(s.P, Seg{K: "idx", Idx: []int{i}, Dot: true})
				}
			}
			scope, _ := lookAt(root, p)
			s.V = g.script(scope.(obj), 0)
		}
		o, err := editModel(cur, s)
		if err != nil || size(o.doc) > 400 {
			continue
		}
		c.Steps = append(c.Steps, s)
		if o.err && s.K != "select" && s.K != "mget" {
			break // the state after an error is open
		}
		cur = o.doc
	}
	return c
}

func checkEditCase(c editCase, x *Ctx) error {
	cur := clone(c.Doc)
	_, isArr := c.Doc.(arr)
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	changed := 0
	value := clone
	if c.Go {
		value = goNumbers
	}
	for i, s := range c.Steps {
		o, merr := editModel(cur, s)
		if merr != nil {
			return merr
		}
		text := renderPath(s.P)
		what := fmt.Sprintf("step %d (%s %s %s %v) of %s, on %s", i, s.K, text, mustJSON(s.V), s.Idx, mustJSON(c), short(cur))
		var err error
		var values []any
		var p any
		captured(func() {
			p = catch(func() {
				switch s.K {
				case "set":
					err = j.JsonPathSetter(text, value(s.V))
				case "mset":
					j.MustSet(text, value(s.V))
				case "del":
					err = j.JsonPathSetter(text, nil)
				case "mdel":
					j.MustDelete(text)
				case "push":
					j.MustPush(text, value(s.V), s.Idx...)
				case "pop":
					values = j.MustPop(text, s.Idx...)
				case "select":
					var nodes []*json_map.JsonPathNode
					if nodes, err = j.JsonPathSelector(text); err == nil {
						for _, n := range nodes {
							values = append(values, n.Value)
						}
					}
				case "mget":
					values = j.MustGet(text)
				case "run":
					src := scriptOf(s.V).source()
					if err = j.MarkupCode(text+"."+selKey, "js", strings.TrimPrefix(src, "#//!js\n")); err == nil {
						j.Run()
					}
				case "strip":
					j.Strip()
				case "print":
					k := jom.New()
					if err = k.Unmarshal([]byte(j.String())); err == nil {
						j = k
					}
				case "clone":
					j = j.Clone(false).(*jom.JsonMap)
				case "load":
					var b []byte
					if b, err = j.Marshal(); err == nil {
						err = j.Unmarshal(b)
					}
				}
			})
		})
		x.Tag("step " + s.K)
		if o.err {
			x.Tag("impossible step")
			if err == nil && p == nil {
				return failf("%s: no error", what)
			}
			if p != nil {
				if _, ok := p.(error); !ok || s.K[0] != 'm' {
					return failf("%s: panics with %T %v", what, p, p)
				}
			}
			if s.K != "select" && s.K != "mget" {
				if cur, err = dump(j); err != nil {
					return failf("%s: after the error: %v", what, err)
				}
				k := jom.New()
				if err := k.Unmarshal([]byte(j.String())); err != nil {
					return failf("%s: after the error the printed text does not load: %v", what, err)
				}
				got, err := dump(k)
				if err != nil {
					return failf("%s: after the error: %v", what, err)
				}
				if err := wantSame(what+": printing and loading after the error", got, cur); err != nil {
					return err
				}
				break
			}
		} else {
			if p != nil {
				return failf("%s: panics: %v", what, p)
			}
			if err != nil {
				return failf("%s: fails: %v", what, err)
			}
			if o.has {
				if err := wantSame(what+": values", any(arr(normList(values))), any(arr(o.values))); err != nil {
					return err
				}
			}
		}
		got, err := dump(j)
		if err != nil {
			return failf("%s: %v", what, err)
		}
		if j.IsArray() != isArr {
			return failf("%s: IsArray() is %v", what, j.IsArray())
		}
		if err := wantSame(what, got, norm(renderDoc(o.doc))); err != nil {
			return err
		}
		if !same(norm(cur), norm(o.doc)) {
			changed++
		}
		cur = o.doc
	}
	if changed > 1 {
		x.NonTrivial()
	}
	return nil
}

// ------------------------------------------------------------------------------------------------ C29

type parJob struct {
	Kind string    `json:"kind"` // eval select markup
	Doc  any       `json:"doc"`
	Path []Seg     `json:"path,omitempty"`
	Sel  []selStep `json:"sel,omitempty"`
}

type parCase struct {
	Jobs []parJob `json:"jobs"`
}

func genParCase(t *rapid.T) parCase {
	c := parCase{}
	for n := irange(t, "documents", 2, 8); n > 0; n-- {
		j := parJob{Kind: oneOf(t, "kind", "eval", "eval", "eval", "fail", "selectors", "select", "callbacks")}
		switch j.Kind {
		case "fail":
			j.Doc = genFailCase(t).Doc
			j.Kind = "eval"
		case "eval":
			j.Doc, _ = genScriptDoc(t, scriptOpts{max: 6, log: true, ops: 2, doc: scriptDocOpts, arrays: 10, nest: true})
		case "callbacks":
			j.Doc, _ = genScriptDoc(t, scriptOpts{max: 6, ops: 2, callback: true, doc: scriptDocOpts, arrays: 10})
		case "selectors":
			s := genSelScript(t)
			j.Doc, _ = withAt(s.Doc, s.At, selKey, s.source())
			j.Kind = "eval"
		case "select":
			s := genSelectCase(t)
			j.Doc, j.Path = s.Doc, s.Path
		}
		c.Jobs = append(c.Jobs, j)
	}
	return c
}

// Collects what is written.
type writes struct {
	mu   sync.Mutex
	all  []string
	slow bool
}

func (w *writes) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.all = append(w.all, string(p))
	if w.slow {
		time.Sleep(20 * time.Microsecond)
	}
	return len(p), nil
}

var recordStart = regexp.MustCompile(`(?m)^(?:Print|Error) call from: `)

// The records written so far, and whether there is something in front of the first one.
func (w *writes) records() ([]string, bool) {
	text := strings.Join(w.all, "")
	out := []string{}
	at := recordStart.FindAllStringIndex(text, -1)
	for i, m := range at {
		end := len(text)
		if i+1 < len(at) {
			end = at[i+1][0]
		}
		out = append(out, text[m[0]:end])
	}
	return out, text == "" || len(at) > 0 && at[0][0] == 0
}

// Writes the number of the document in front of what its scripts write.
func tagDoc(v any, n int) any {
	switch x := v.(type) {
	case obj:
		if isS(x) {
			s := scriptOf(x).source()
			if i := strings.IndexByte(s, '\n'); i >= 0 && strings.HasPrefix(s, "#//!js") {
				return s[:i+1] + fmt.Sprintf("console.log('DOC', %d, %d, json.scopePath);", n, scriptOf(x).ID) + s[i+1:]
			}
			return s
		}
		m := obj{}
		for k, e := range x {
			m[k] = tagDoc(e, n)
		}
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = tagDoc(e, n)
		}
		return a
	}
	return v
}

func (j parJob) run(n int) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic: %v", p)
		}
	}()
	switch j.Kind {
	case "eval":
		b, err := jom.Eval([]byte(mustJSON(tagDoc(j.Doc, n))), false)
		return fmt.Sprintf("%s error: %v", b, err)
	case "select":
		d, err := load(j.Doc)
		if err != nil {
			return err.Error()
		}
		nodes, err := d.JsonPathSelector(renderPath(j.Path))
		vs, _ := nodeValues(nodes)
		return fmt.Sprintf("%s error: %v", mustJSON(vs), err)
	case "callbacks":
		rec := &recorder{}
		d, err := placeCallbacks(j.Doc, "map", rec)
		if err != nil {
			return err.Error()
		}
		d.Run()
		v, err := dump(d)
		sort.Strings(rec.all) // siblings may run in any order
		return fmt.Sprintf("%s %v %v", mustJSON(v), mustJSON(rec.all), err)
	}
	return "?"
}

var docLine = regexp.MustCompile(`(?s)^Print call from: (?:[^<]*\()?<(.*)>[^<>]*\n\tDOC (\d+) (\d+) (.*)\n$`)

// Order of sibling scopes is open, so that failures may be of any of them.
func ambiguous(a []string) bool {
	for _, s := range a {
		if s != a[0] {
			return true
		}
	}
	return false
}

func checkPar(c parCase, x *Ctx) error {
	w, e := &writes{}, &writes{}
	alone := make([]string, len(c.Jobs))
	open := make([]bool, len(c.Jobs))
	js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = w, e
	defer captured(func() {})
	for i, j := range c.Jobs {
		var rs []string
		for k := 0; k < 3; k++ {
			rs = append(rs, j.run(i))
		}
		alone[i], open[i] = rs[0], ambiguous(rs) || strings.Contains(rs[0], " error: Error") // errors of several scopes: any of them
		x.Tag(j.Kind)
		if strings.HasPrefix(rs[0], " error: ") {
			x.Tag("fails")
		}
	}
	labels := func() (map[string]int, error) {
		out := map[string]int{}
		all, start := w.records()
		if _, eStart := e.records(); !start || !eStart {
			return nil, failf("what is on the console does not start with a record: %s", short(strings.Join(w.all, "")+strings.Join(e.all, "")))
		}
		for _, s := range all {
			if !strings.Contains(s, "DOC") {
				continue
			}
			m := docLine.FindStringSubmatch(s)
			if m == nil {
				return nil, failf("the record of a script's start is not whole: %s", short(s))
			}
			if m[1] != strings.ReplaceAll(m[4], "\n\t", "\n") {
				return nil, failf("a record labelled %s of the scope %s", m[1], m[4])
			}
			out[m[2]+" "+m[3]+" "+m[1]]++
		}
		return out, nil
	}
	wantLabels, err := labels()
	if err != nil {
		return failf("alone: %v", err)
	}
	if len(c.Jobs) > 2 {
		x.NonTrivial()
	}
	for round := 0; round < 3; round++ {
		w.all, e.all = nil, nil
		w.slow, e.slow = round == 2, round == 2
		results := make([]string, len(c.Jobs))
		var wg sync.WaitGroup
		start := make(chan bool)
		for i, j := range c.Jobs {
			wg.Add(1)
			go func(i int, j parJob) {
				defer wg.Done()
				<-start
				results[i] = j.run(i)
			}(i, j)
		}
		close(start)
		wg.Wait()
		for i := range results {
			what := fmt.Sprintf("document %d of %s evaluated with the others", i, mustJSON(c))
			if results[i] != alone[i] {
				if open[i] && !strings.HasPrefix(results[i], "panic") && strings.HasPrefix(alone[i], " error: ") == strings.HasPrefix(results[i], " error: ") && strings.HasPrefix(alone[i], " error: Error") {
					continue
				}
				return failf("%s gives %s, alone it gives %s", what, short(results[i]), short(alone[i]))
			}
		}
		got, err := labels()
		if err != nil {
			return failf("%v, of %s", err, mustJSON(c))
		}
		for k, n := range wantLabels {
			doc, _ := strconv.Atoi(strings.Fields(k)[0])
			if !open[doc] && got[k]*3 != n {
				return failf("scripts of document %d write %q %d times, alone %d times, of %s", doc, k, got[k], n/3, mustJSON(c))
			}
		}
	}
	return nil
}

var _ = json.Valid
var _ = bytes.Equal
var _ = math.Abs

func init() {
	register("C25", "a generated document with a script that makes 1-7 selector calls (get, set, held node sets, wrong calls) between edits of its trail; non-trivial: at least one selector call",
		genSelScript, checkSelScript, counts(24000, 480000), workers(8, 8))
	register("C26", "a generated document with 1-4 scripts that make 1-4 calls of the console functions each, in various contexts, with generated arguments; non-trivial: at least one call",
		genConCase, checkConsole, counts(20000, 640000), workers(8, 8))
	register("C27", "a generated document with scripts or callbacks at any depth, which may move each other's scopes; non-trivial: at least one runs",
		genScopeCase, checkScope, counts(32000, 640000), workers(8, 8))
	register("C28", "a history of 2-12 operations on one document object; non-trivial: at least two of them changed it",
		genEditCase, checkEditCase, counts(48000, 960000), workers(8, 8))
	register("C29", "2-8 generated documents evaluated (or selected from, or run with callbacks) alone and then at the same time, three times; non-trivial: at least three documents",
		genParCase, checkPar, counts(1500, 60000), workers(4, 4), withRace())
}
