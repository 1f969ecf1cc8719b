package main

// C39: the values that scripts leave in their trail.

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// A Javascript expression, together with what JSON.stringify makes of its value.
type jsVal struct {
	K     string   `json:"k"`
	V     any      `json:"v,omitempty"`
	N     int64    `json:"n,omitempty"`
	Names []string `json:"names,omitempty"`
	Kids  []jsVal  `json:"kids,omitempty"`
}

// Expressions of built-ins; those without a value have no JSON.
var jsConsts = []struct {
	js     string
	json   any
	absent bool
}{
	{js: `undefined`, absent: true}, {js: `void 0`, absent: true}, {js: `function () { return 1; }`, absent: true}, {js: `Math.max`, absent: true},
	{js: `console.log`, absent: true}, {js: `json.jsonPathSelector`, absent: true}, {js: `JSON.stringify(undefined)`, absent: true},
	{js: `(function () {})()`, absent: true}, {js: `[][0]`, absent: true}, {js: `Object`, absent: true},
	{js: `NaN`}, {js: `Infinity`}, {js: `-Infinity`}, {js: `0 / 0`}, {js: `new Date(NaN)`}, {js: `null`}, {js: `new Number(NaN)`}, {js: `"x" * 2`},
	{js: `-0`, json: 0.0}, {js: `1 / 3`, json: 1.0 / 3}, {js: `0.5 + 0.25`, json: 0.75}, {js: `Math.pow(2, 53)`, json: 9007199254740992.0}, {js: `1e21`, json: 1e21},
	{js: `5e-324`, json: 5e-324}, {js: `0x10`, json: 16.0}, {js: `parseInt("12px", 10)`, json: 12.0}, {js: `Number("0x1F")`, json: 31.0}, {js: `~~7.9`, json: 7.0},
	{js: `"a" + 1 + null`, json: "a1null"}, {js: `String(undefined)`, json: "undefined"}, {js: `typeof json`, json: "object"}, {js: `"é".toUpperCase()`, json: "É"},
	{js: `"\u2028<>&\u0000"`, json: "\u2028<>&\u0000"}, {js: `'it\'s "q"'`, json: `it's "q"`}, {js: `encodeURIComponent("é ")`, json: "%C3%A9%20"}, {js: `"#" + "//!js" + "x\n"`, json: "#//!jsx\n"},
	{js: `!!{}`, json: true}, {js: `isNaN("x")`, json: true}, {js: `1 > 2`, json: false},
	{js: `/a/g`, json: obj{}}, {js: `Math`, json: obj{}}, {js: `JSON`, json: obj{}}, {js: `new (function () {})()`, json: obj{}}, {js: `Object.create(null)`, json: obj{}},
	{js: `"a,b".split(",")`, json: arr{"a", "b"}}, {js: `[3, 1, 2].sort()`, json: arr{1.0, 2.0, 3.0}}, {js: `Object.keys({x: 1, y: 2})`, json: arr{"x", "y"}},
	{js: `/(a)(b)?/.exec("ac")`, json: arr{"a", "a", nil}}, {js: `[1, 2].map(function (x) { return {n: x * 2}; })`, json: arr{obj{"n": 2.0}, obj{"n": 4.0}}},
	{js: `(function () { return arguments; })(1, "b")`, json: obj{"0": 1.0, "1": "b"}}, {js: `JSON.parse('{"b": [1, {"c": null}]}')`, json: obj{"b": arr{1.0, obj{"c": nil}}}},
	{js: `[].concat([1], [[2]], {l: 0})`, json: arr{1.0, arr{2.0}, obj{"l": 0.0}}}, {js: `"abc".split("")`, json: arr{"a", "b", "c"}}, {js: `new Array(3)`, json: arr{nil, nil, nil}},
	{js: `Array(1, 2)`, json: arr{1.0, 2.0}}, {js: `[1, , 3]`, json: arr{1.0, nil, 3.0}}, {js: `[, ,]`, json: arr{nil, nil}}, {js: `[1, 2, 3].slice(-2).reverse()`, json: arr{3.0, 2.0}},
	{js: `[1, 2, 3].splice(1, 1)`, json: arr{2.0}}, {js: `eval("({e: 1})")`, json: obj{"e": 1.0}}, {js: `new Function("return {f: [1]}")()`, json: obj{"f": arr{1.0}}},
	{js: `{length: 2, 0: "a"}`, json: obj{"length": 2.0, "0": "a"}}, {js: `{"10": 1, "9": 2, "a": 3}`, json: obj{"9": 2.0, "10": 1.0, "a": 3.0}},
	{js: `{value: 1, valueOf: function () { return 5; }, toString: function () { return "t"; }}`, json: obj{"value": 1.0}},
	{js: `(function () { var a = [1, 2, 3]; a.length = 1; a.x = 5; return a; })()`, json: arr{1.0}},
	{js: `(function () { var a = []; a[3] = "d"; return a; })()`, json: arr{nil, nil, nil, "d"}},
	{js: `(function () { var o = {a: 1, b: 2, c: 3}; delete o.b; return o; })()`, json: obj{"a": 1.0, "c": 3.0}},
	{js: `(function () { var r = []; for (var k in {p: 1, q: 2}) { r.push(k); } return r; })()`, json: arr{"p", "q"}},
	{js: `(function () { return this; }).call(new String("self"))`, json: "self"},
	{js: `(function () { return this; }).call([5])`, json: arr{5.0}},
}

var jsValKinds = []string{"json", "json", "const", "const", "const", "date", "boxed", "tojson", "tojsonkey", "object", "object", "array", "array", "getter", "proto", "hidden", "shared", "frozen", "called"}

// Member names that are no trouble for the Javascript engine.
func genMemberName(t *rapid.T) string {
	for {
		k := genKey(t, docOpts{odd: 25})
		if k != "__proto__" && k != "toJSON" && !looksLikeScript.MatchString(k) {
			return k
		}
	}
}

func genJsVal(t *rapid.T, d int, top bool) jsVal {
	kinds := jsValKinds
	if d <= 0 {
		kinds = []string{"json", "const", "const", "date", "boxed", "tojsonkey"}
	}
	v := jsVal{K: sample(t, "value kind", kinds)}
	if top {
		v.K = oneOf(t, "object kind", "object", "object", "getter", "proto", "hidden", "frozen", "called")
	}
	kids := func(n int) {
		for i := 0; i < n; i++ {
			v.Kids = append(v.Kids, genJsVal(t, d-1, false))
		}
	}
	names := func() {
		seen := map[string]bool{}
		for range v.Kids {
			k := genMemberName(t)
			for seen[k] {
				k += "_"
			}
			seen[k] = true
			v.Names = append(v.Names, k)
		}
	}
	switch v.K {
	case "json":
		v.V = genValue(t, docOpts{depth: 1, width: 3, odd: 20}, 1)
		walk(v.V, func(x any) {
			if m, ok := x.(obj); ok {
				delete(m, "__proto__")
				delete(m, "toJSON")
			}
		})
	case "const":
		v.N = int64(irange(t, "expression", 0, len(jsConsts)-1))
	case "date":
		v.N = int64(irange(t, "day", -20000, 40000))*86400000 + int64(irange(t, "millisecond", 0, 86399999))
	case "boxed":
		v.V = oneOf[any](t, "boxed", "x", "", 5.0, 0.0, true, false, "two words", 0.5)
	case "tojson":
		kids(1)
		// (what toJSON returns is not asked for its own toJSON)
		if v.Kids[0].hasToJSON() {
			v.Kids[0] = jsVal{K: "json", V: "plain"}
		}
	case "object", "getter", "proto", "hidden", "frozen":
		kids(irange(t, "members", 0, 3))
		names()
		if v.K == "hidden" || v.K == "proto" {
			v.N = int64(irange(t, "which", 0, 3)) // the member that is not its own, or not enumerable
		}
	case "array":
		kids(irange(t, "elements", 0, 4))
	case "shared":
		kids(1)
	case "called":
		v.Kids = []jsVal{genJsVal(t, d-1, top)}
	}
	return v
}

func (v jsVal) hasToJSON() bool {
	return v.K == "date" || strings.HasPrefix(v.K, "tojson") || v.K == "const" && strings.Contains(jsConsts[v.N].js, "Date") || v.K == "called" && v.Kids[0].hasToJSON()
}

func (v jsVal) js() string {
	member := func(i int) string { return jsLiteral(v.Names[i]) + ": " + v.Kids[i].js() }
	switch v.K {
	case "json":
		return jsLiteral(v.V)
	case "const":
		return jsConsts[v.N].js
	case "date":
		return fmt.Sprintf("new Date(%d)", v.N)
	case "boxed":
		return fmt.Sprintf("Object(%s)", jsLiteral(v.V))
	case "tojson":
		return fmt.Sprintf("{a: 1, toJSON: function () { return %s; }}", v.Kids[0].js())
	case "tojsonkey":
		return "{toJSON: function (k) { return [k, typeof k]; }}"
	case "object", "frozen":
		ms := []string{}
		for i := range v.Kids {
			ms = append(ms, member(i))
		}
		if v.K == "frozen" {
			return "Object.freeze({" + strings.Join(ms, ", ") + "})"
		}
		return "{" + strings.Join(ms, ", ") + "}"
	case "getter":
		ms := []string{}
		for i := range v.Kids {
			ms = append(ms, fmt.Sprintf("Object.defineProperty(o, %s, {enumerable: true, configurable: true, get: function () { return %s; }});", jsLiteral(v.Names[i]), v.Kids[i].js()))
		}
		return "(function () { var o = {}; " + strings.Join(ms, " ") + " return o; })()"
	case "proto":
		own, inherited := []string{}, []string{"inherited_: 1"}
		for i := range v.Kids {
			if int64(i) == v.N {
				inherited = append(inherited, member(i))
			} else {
				own = append(own, fmt.Sprintf("this[%s] = %s;", jsLiteral(v.Names[i]), v.Kids[i].js()))
			}
		}
		return "(function () { function F() { " + strings.Join(own, " ") + " } F.prototype = {" + strings.Join(inherited, ", ") + "}; return new F(); })()"
	case "hidden":
		ms := []string{}
		for i := range v.Kids {
			ms = append(ms, fmt.Sprintf("Object.defineProperty(o, %s, {enumerable: %v, configurable: true, writable: true, value: %s});", jsLiteral(v.Names[i]), int64(i) != v.N, v.Kids[i].js()))
		}
		return "(function () { var o = {}; " + strings.Join(ms, " ") + " return o; })()"
	case "array":
		es := []string{}
		for _, e := range v.Kids {
			es = append(es, e.js())
		}
		return "[" + strings.Join(es, ", ") + "]"
	case "shared":
		return "(function () { var o = " + v.Kids[0].js() + "; return [o, {x: o}, [o]]; })()"
	case "called":
		return "(function (x) { return x; })(" + v.Kids[0].js() + ")"
	}
	panic("harness error: " + v.K)
}

// What JSON.stringify gives for the value as the member (or element) with the given key.
func (v jsVal) json(key string) (out any, there bool) {
	switch v.K {
	case "json", "boxed":
		return clone(v.V), true
	case "const":
		return clone(jsConsts[v.N].json), !jsConsts[v.N].absent
	case "date":
		return time.UnixMilli(v.N).UTC().Format("2006-01-02T15:04:05.000Z"), true
	case "tojson", "called":
		return v.Kids[0].json(key)
	case "tojsonkey":
		return arr{key, "string"}, true
	case "object", "getter", "frozen", "proto", "hidden":
		m := obj{}
		for i, e := range v.Kids {
			if (v.K == "proto" || v.K == "hidden") && int64(i) == v.N {
				continue
			}
			if x, ok := e.json(v.Names[i]); ok {
				m[v.Names[i]] = x
			}
		}
		return m, true
	case "array":
		a := arr{}
		for i, e := range v.Kids {
			x, _ := e.json(fmt.Sprint(i))
			a = append(a, x)
		}
		return a, true
	case "shared":
		x, _ := v.Kids[0].json("0")
		m := obj{}
		if y, ok := v.Kids[0].json("x"); ok {
			m["x"] = y
		}
		z, _ := v.Kids[0].json("0")
		return arr{x, m, arr{z}}, true
	}
	panic("harness error: " + v.K)
}

type valStep struct {
	K   string `json:"k"` // set hide getter push elem length hole prop nodes read replace tojson
	Key string `json:"key,omitempty"`
	N   int    `json:"n,omitempty"`
	V   *jsVal `json:"v,omitempty"`
}

type valCase struct {
	Doc   any       `json:"doc"`
	At    []any     `json:"at"` // the object with the script
	Steps []valStep `json:"steps"`
	Fail  string    `json:"fail,omitempty"`
	Via   string    `json:"via"`
}

var valFails = map[string]string{
	"cyclic":        "json.trail.c_ = {}; json.trail.c_.d = [json.trail.c_];",
	"cyclic trail":  "json.trail.c_ = [json.trail];",
	"toJSON throws": "json.trail.c_ = [{toJSON: function () { throw new Error('boom'); }}];",
	"getter throws": "Object.defineProperty(json.trail, 'c_', {enumerable: true, get: function () { throw 'boom'; }});",
	"deep getter":   "json.trail.c_ = [[{get x() { return undefined.x; }}]];",
	"to an array":   "json.trail.toJSON = function () { return [1]; };",
	"to nothing":    "json.trail.toJSON = function () {};",
	"boxed":         "json.trail = new String('{}');",
	"function":      "json.trail = function () {};",
	"array":         "json.trail = [json.trail];",
	"date":          "json.trail = new Date(0);",
}

func genValCase(t *rapid.T) valCase {
	c := valCase{Doc: genDoc(t, docOpts{depth: 3, width: 4, odd: 8}, 10), Via: oneOf(t, "via", "eval", "run")}
	var ps [][]any
	objects(c.Doc, nil, func(p []any) { ps = append(ps, p) })
	if len(ps) == 0 {
		c.Doc, ps = obj{"a": arr{1.0, "x"}}, [][]any{{}}
	}
	c.At = sample(t, "at", ps)
	v, _ := lookAt(c.Doc, c.At)
	scope := v.(obj)
	delete(scope, "__proto__")
	delete(scope, "toJSON")
	if chance(t, 40, "array?") {
		scope["friends"] = genArray(t, docOpts{depth: 1, width: 4, plain: true}, 1)
	}
	keys := sortedKeys(scope)
	n := irange(t, "steps", 1, 6)
	for i := 0; i < n; i++ {
		s := valStep{K: oneOf(t, "step", "set", "set", "set", "hide", "getter", "push", "push", "elem", "length", "hole", "prop", "nodes", "nodes", "read", "read", "replace", "tojson", "around")}
		if s.K == "tojson" && i < n-1 {
			s.K = "set"
		}
		if len(keys) > 0 && chance(t, 50, "old key?") {
			s.Key = sample(t, "old key", keys)
		} else {
			s.Key = genMemberName(t)
		}
		switch s.K {
		case "push", "elem", "length", "hole", "prop":
			for _, k := range keys {
				if _, ok := scope[k].(arr); ok && chance(t, 60, "this one?") {
					s.Key = k
				}
			}
			s.N = irange(t, "n", 0, 6)
		case "nodes", "read":
			if !isPathKey(s.Key) {
				s.Key = sample(t, "path key", pathKeys)
			}
		}
		switch s.K {
		case "replace", "tojson":
			v := genJsVal(t, 3, true)
			s.V = &v
		case "length", "hole", "read":
		case "around":
			s.N = uniform(t, len(valAround))
		case "nodes":
			v := genJsVal(t, 2, false)
			v = jsVal{K: "array", Kids: []jsVal{v}}
			if chance(t, 50, "object?") {
				v = genJsVal(t, 2, true)
			} else if chance(t, 30, "another object?") {
				v = jsVal{K: oneOf(t, "object kind", "date", "date", "boxed", "tojson", "shared", "array")}
				switch v.K {
				case "date":
					v.N = int64(irange(t, "day", -20000, 40000))*86400000 + int64(irange(t, "millisecond", 0, 86399999))
				case "boxed":
					v.V = oneOf[any](t, "boxed", "x", "", 5.0, 0.0, true, false, "two words", 0.5)
				default:
					inner := genValue(t, docOpts{depth: 1, width: 3, plain: true}, 1)
					if inner == nil {
						inner = 0.5 // (null deletes)
					}
					v.Kids = []jsVal{{K: "json", V: inner}}
				}
			}
			s.V = &v
		default:
			v := genJsVal(t, irange(t, "depth", 0, 3), false)
			s.V = &v
		}
		c.Steps = append(c.Steps, s)
	}
	if chance(t, 12, "failure?") {
		names := []string{}
		for k := range valFails {
			names = append(names, k)
		}
		sort.Strings(names)
		c.Fail = sample(t, "failure", names)
		if k := c.Steps[len(c.Steps)-1].K; k == "tojson" {
			c.Steps = c.Steps[:len(c.Steps)-1]
		}
	}
	return c
}

// What is around the trail is not taken over, and does not matter to it.
var valAround = []string{
	"json.self = json;", "json.note = function () {};", "json.toJSON = function () { return 5; };", "json.list = [json.trail, json];",
	"json.bad = {toJSON: function () { throw 'boom'; }};", "json.bad = {get x() { throw 'boom'; }};", "var trail = {wrong: 1};",
	"this.trail = [1];", "json.nothing = undefined; json.nan = NaN;", "json.trail_ = {a: 1};", "console.json = json.trail;", "var s_ = 5, z_ = [];",
	"this.toJSON = function () { return {}; };", "json.scopePath_ = '$';", "json.jsonPathSelector.trail = {};",
}

const valHelpers = `function drop(k) { delete json.trail[k]; }
function put(k, v) { drop(k); json.trail[k] = v; }
function define(k, d) { drop(k); d.configurable = true; Object.defineProperty(json.trail, k, d); }
var reads_ = [];
`

// The script, and what it leaves in its scope.
func (c valCase) script(scope obj) (src string, out obj, reads arr, err error) {
	var b strings.Builder
	b.WriteString("#//!js\n" + valHelpers)
	// the keys whose arrays are ones in Javascript, too
	arrays := map[string]bool{}
	rebuilt := func() {
		arrays = map[string]bool{}
		for k, v := range scope {
			if _, ok := v.(arr); ok {
				arrays[k] = true
			}
		}
	}
	rebuilt()
	reads = arr{}
	for _, s := range c.Steps {
		k := jsLiteral(s.Key)
		var x any
		there := false
		if s.V != nil {
			x, there = s.V.json(s.Key)
		}
		put := func() {
			delete(arrays, s.Key)
			if there {
				scope[s.Key] = x
			} else {
				delete(scope, s.Key)
			}
		}
		switch s.K {
		case "set":
			fmt.Fprintf(&b, "put(%s, %s);\n", k, s.V.js())
			put()
		case "hide":
			fmt.Fprintf(&b, "define(%s, {enumerable: false, value: %s});\n", k, s.V.js())
			there = false
			put()
		case "getter":
			fmt.Fprintf(&b, "define(%s, {enumerable: true, get: function () { return %s; }});\n", k, s.V.js())
			put()
		case "push", "elem", "length", "hole", "prop":
			if !arrays[s.Key] {
				continue
			}
			a := scope[s.Key].(arr)
			switch s.K {
			case "push":
				fmt.Fprintf(&b, "json.trail[%s].push(%s);\n", k, s.V.js())
				x, _ = s.V.json(fmt.Sprint(len(a)))
				a = append(a[:len(a):len(a)], x)
			case "elem":
				fmt.Fprintf(&b, "json.trail[%s][%d] = %s;\n", k, len(a)+s.N, s.V.js())
				x, _ = s.V.json(fmt.Sprint(len(a) + s.N))
				for i := 0; i < s.N; i++ {
					a = append(a, nil)
				}
				a = append(a, x)
			case "length":
				fmt.Fprintf(&b, "json.trail[%s].length = %d;\n", k, s.N)
				a = append(arr{}, a...)
				for len(a) < s.N {
					a = append(a, nil)
				}
				a = a[:s.N]
			case "hole":
				fmt.Fprintf(&b, "delete json.trail[%s][%d];\n", k, s.N)
				a = append(arr{}, a...)
				if s.N < len(a) {
					a[s.N] = nil
				}
			case "prop":
				fmt.Fprintf(&b, "json.trail[%s].extra = %s;\n", k, s.V.js())
			}
			scope[s.Key] = a
		case "nodes":
			x, _ = s.V.json("")
			fmt.Fprintf(&b, "json.jsonPathSelector(%s).setValues(%s);\n", jsLiteral("$."+s.Key), s.V.js())
			there = true
			put()
			rebuilt()
		case "read":
			v, ok := scope[s.Key]
			if !ok {
				continue
			}
			fmt.Fprintf(&b, "reads_.push(json.jsonPathSelector(%s).getValues());\n", jsLiteral("$."+s.Key))
			list, ok := v.(arr)
			if !ok {
				list = arr{v}
			}
			if len(list) == 1 {
				// a single array counts as the list of its elements
				if a, ok := list[0].(arr); ok {
					list = a
				}
			}
			reads = append(reads, norm(list))
		case "around":
			b.WriteString(valAround[s.N%len(valAround)] + "\n")
		case "replace":
			fmt.Fprintf(&b, "json.trail = %s;\n", s.V.js())
			x, _ = s.V.json("trail")
			scope = x.(obj)
			arrays = map[string]bool{}
			if s.V.K == "frozen" || frozenInside(s.V) {
				// nothing can be added to it any more
				fmt.Fprintf(&b, "json.trail = JSON.parse(JSON.stringify(json.trail));\n")
			}
			if hasGetters(s.V) {
				fmt.Fprintf(&b, "json.trail = JSON.parse(JSON.stringify(json.trail));\n")
			}
		case "tojson":
			fmt.Fprintf(&b, "put('reads_', reads_);\n")
			fmt.Fprintf(&b, "json.trail.toJSON = function () { return %s; };\n", s.V.js())
			x, _ = s.V.json("")
			return b.String(), x.(obj), nil, nil
		}
	}
	b.WriteString("put('reads_', reads_);\n")
	return b.String(), scope, reads, nil
}

func frozenInside(v *jsVal) bool {
	return v.K == "called" && (v.Kids[0].K == "frozen" || frozenInside(&v.Kids[0]))
}

func hasGetters(v *jsVal) bool {
	return v.K == "getter" || v.K == "called" && hasGetters(&v.Kids[0])
}

func checkValCase(c valCase, x *Ctx) error {
	doc := clone(c.Doc)
	v, ok := lookAt(doc, c.At)
	scope, isObj := v.(obj)
	if !ok || !isObj {
		return skip("no object there")
	}
	for _, k := range []string{"s_", "z_", "reads_", "seen_"} {
		if _, used := scope[k]; used {
			return skip("key in use")
		}
	}
	for _, s := range c.Steps {
		if strings.HasSuffix(s.Key, "s_") || s.Key == "z_" || s.Key == "seen_" {
			return skip("key in use")
		}
	}
	src, left, reads, _ := c.script(clone(scope).(obj))
	x.NonTrivial()
	for _, s := range c.Steps {
		x.Tag("step " + s.K)
		if s.V != nil {
			x.Tag("value " + s.V.K)
		}
	}
	if c.Fail != "" {
		x.Tag("fails: " + c.Fail)
		scope["s_"] = src + valFails[c.Fail]
		out, _, err := evaluate([]byte(mustJSON(doc)), c.Via)
		if err == nil {
			return failf("%s: no error, although JSON.stringify fails or gives no object (%s): %s", mustJSON(doc), c.Fail, short(out))
		}
		return nil
	}
	left = norm(left).(obj)
	seen := clone(left).(obj)
	if reads != nil {
		left["reads_"] = reads
		seen["reads_"] = reads
	}
	// a later script sees the same (whether it runs when the trail is replaced is open)
	scope["s_"] = src
	replaced := false
	for _, s := range c.Steps {
		replaced = replaced || s.K == "replace" || s.K == "tojson"
	}
	if !replaced {
		scope["z_"] = "#//!js\nvar t = JSON.parse(JSON.stringify(json.trail)); delete t.s_; delete t.z_; json.trail.seen_ = JSON.stringify(t);"
	}
	text := []byte(mustJSON(doc))
	got, _, err := evaluate(text, c.Via)
	what := fmt.Sprintf("evaluating %s", text)
	if err != nil {
		return failf("%s: fails: %v", what, err)
	}
	gv, ok := lookAt(got, c.At)
	gm, isObj := gv.(obj)
	if !ok || !isObj {
		return failf("%s: no object at %v: %s", what, c.At, short(got))
	}
	later, has := gm["seen_"]
	if !replaced {
		str, _ := later.(string)
		lv, err := fromJSON([]byte(str))
		if !has || err != nil {
			return failf("%s: the later script left %v as what it sees", what, later)
		}
		if err := wantSame(what+": the later script's trail", lv, any(seen)); err != nil {
			return err
		}
	}
	delete(gm, "seen_")
	want := clone(c.Doc)
	if len(c.At) == 0 {
		want = left
	} else {
		par, _ := lookAt(want, c.At[:len(c.At)-1])
		switch p := par.(type) {
		case obj:
			p[c.At[len(c.At)-1].(string)] = left
		case arr:
			i, _ := toIndex(c.At[len(c.At)-1])
			p[i] = left
		}
	}
	return wantSame(what, got, norm(want))
}

func init() {
	register("C39", "a generated document with a script that leaves values of 1-6 generated Javascript expressions of 15 kinds (nested up to 3 levels) in its trail in 12 ways (around which it changes things in 15), and reads them back; every case is non-trivial", genValCase, checkValCase, counts(15000, 400000))
}
