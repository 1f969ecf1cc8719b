package main

// C12 to C14: evaluation always returns, code that does not end is stopped, code that ends is not.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"strings"
	"sync"
	"time"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------------------------------------ C12

// The text is Text, or the parts, each repeated, which keeps known findings small.
type bytesCase struct {
	Text     []byte `json:"text,omitempty"` // base64
	Readable string `json:"readable,omitempty"`
	Parts    []part `json:"parts,omitempty"`
	Verbose  bool   `json:"verbose,omitempty"`
	Delay    int    `json:"delay,omitempty"` // 1 if not given
}

type part struct {
	S string `json:"s"`
	N int    `json:"n"`
}

func (c bytesCase) bytes() []byte {
	if c.Parts == nil {
		if c.Text == nil {
			return []byte(c.Readable)
		}
		return c.Text
	}
	var b bytes.Buffer
	for _, p := range c.Parts {
		for i := 0; i < p.N; i++ {
			b.WriteString(p.S)
		}
	}
	return b.Bytes()
}

// Statements that attack the engine, the trail, the builtins and what is made of them. E is a hostile expression, S a
// statement, F a function expression, N a name.
var hostileStmts = []string{
	"json.trail = E;", "json.trail.a = E;", "json.trail['a'] = E; json.trail.b = json.trail;", "throw E;", "throw {toString: F};", "throw Object.create(E);", "try { S } catch (e) { throw e; }",
	"try { S } catch (e) { json.trail.e = e; }", "try { S } catch (e) { console.log(e, e.stack, e.message, e.name); } finally { S }", "console.log(E, E);", "console.error(E);", "printlnExternal(E);",
	"console.log.call(E, E);", "console.log.apply(null, [E, E]);", "new console.log(E);", "var N = E; N.x;", "N = E;", "delete N;", "delete json.trail.a;",
	"json.N = E;", "console.N = E;", "Object.defineProperty(json.trail, 'g', {get: F, enumerable: true});", "Object.defineProperty(json, 'N', {get: F});", "Object.defineProperty(json.trail, 'a', {value: E, enumerable: true});",
	"Object.freeze(json.trail); json.trail.q = 1;", "Object.preventExtensions(json);", "Object.freeze(json); json.trail = 1;", "Object.prototype.toJSON = F;", "Array.prototype.toJSON = F;", "String.prototype.toString = F;", "Object.prototype.toString = F;",
	"Object.prototype.valueOf = E;", "Array.prototype.push = E;", "Array.prototype.join = F;", "Object.keys = E;", "JSON.stringify = F;", "JSON.parse = F;", "JSON = E;", "Object = E;", "Array = E;", "String = E;", "Error = E;",
	"json.jsonPathSelector(E);", "json.jsonPathSelector(P);", "json.jsonPathSelector(P).getValues();", "json.jsonPathSelector(P).setValues(E);", "json.jsonPathSelector(P).setValues();", "json.jsonPathSelector(Q).getValues();", "json.jsonPathSelector(Q).getValues();", "json.jsonPathSelector(Q).setValues(E);", "json.trail.n = json.jsonPathSelector(Q).getValues();",
	"json.jsonPathSelector.call(E, P);", "new json.jsonPathSelector(P);", "json.trail.n = json.jsonPathSelector(P);", "json.trail.n = json.jsonPathSelector(P).getValues();", "var n = json.jsonPathSelector(P); n._absolutePaths = E; n.getValues();",
	"var n = json.jsonPathSelector(P); n.getValues.call(E); n.setValues.apply(E, [E]);", "json.jsonPathSelector(P).getValues().forEach(F);", "json.jsonPathSelector(P).getValues().sort(F);",
	"function r() { return r() + 1; } r();", "function r() { try { r(); } finally { S } } r();", "(function r(n) { [1].map(function () { r(n + 1); }); })(0);", "var o = {toString: function () { return '' + o; }}; '' + o;", "var o = {valueOf: function () { return +o; }}; o > 1;",
	"var o = {toJSON: function () { return JSON.stringify(o); }}; json.trail.o = o;", "json.trail.toJSON = F;", "json.trail.a = {toJSON: F};", "(function r() { eval('r()'); })();", "(function r() { new r(); })();", "(function r() { new Function('r', 'r()')(r); })();",
	"var f = function () { return g(); }; var g = f.bind(1); f();", "(function r() { 'a'.replace(/a/, r); })();", "(function r() { JSON.parse('[1]', r); })();", "(function r() { JSON.stringify([1], r); })();", "(function r() { [2, 1].sort(r); })();", "json.trail.list = [2, 1, 3]; json.trail.list.sort(function r() { json.trail.list.sort(r); });",
	"var a = []; a[0] = a; json.trail.a = a;", "var o = {}; o.o = o; console.log(o);", "var o = {a: {}}; o.a.b = o; json.jsonPathSelector(P).setValues(o);", "json.trail.self = json.trail; console.log(json.trail);", "json.trail.j = json;", "json.N = json; console.log(json);", "console.N = console; console.error(E, console);", "json.N = {a: [json]}; console.log(JSON.stringify(json));", "var n = json.jsonPathSelector(P); n.N = n; console.log(n); json.trail.n = n;", "json.N = json; json.jsonPathSelector(P).setValues(json);",
	"console.log((function f() { return {get x() { return f(); }}; })());", "json.jsonPathSelector(P).setValues((function f() { return {get x() { return [f()]; }}; })());", "JSON.stringify((function f() { return {get x() { return f(); }}; })());", "console.log((function f() { return {get x() { throw f(); }}; })());",
	"eval(E);", "eval('(');", "new Function(E)();", "new Function('a', 'b', E);", "new RegExp(E);", "/a/.exec(E);", "'x'.replace(/x/g, F);", "'x'.split(E);", "parseInt(E, E);", "(5).toString(E);", "(5).toFixed(E);", "decodeURIComponent(E);", "new Date(E).toString();", "new Date(E).toISOString();", "new Date(E, E, E);",
	"[1, 2, 3].splice(E, E, E);", "[3, 1, 2].sort(E);", "[1].concat(E);", "[1, 2].slice(E, E);", "[1].indexOf(E, E);", "[1].reduce(E);", "[].reduce(F);", "'abc'.substr(E, E);", "'abc'.charCodeAt(E);", "String.fromCharCode(E, E);", "Object.create(E);", "Object.create({}, E);", "Object.defineProperty(E, 'x', E);", "Object.getOwnPropertyDescriptor(E, E);",
	"Object.getPrototypeOf(E);", "Object.getOwnPropertyNames(E);", "F.call(E, E);", "F.apply(E, E);", "F.bind(E)();", "E instanceof E;", "E in E;", "E();", "new (E)();", "E.x = 1;", "E[E] = E;", "E[E]();", "with (E) { S }", "for (var k in E) { S }", "switch (E) { case E: S }", "if (E) { S } else { S }", "var {a} = 1;", "L: { break L; }", "return 1;", "break;", "'use strict'; x = 1;",
	"this.json = E;", "this.x = E; delete this.x;", "var json = E;", "function json() { }", "function console() { }", "json.trail.constructor = E;", "json.trail.__proto__ = E;", "json.trail.hasOwnProperty = E;", "json.trail.length = E;", "json.trail[E] = E;", "json.scopePath = E;", "json.scopePath = E; console.log(1);",
	"json.trail.k = '#//!js\\n' + E;", "json.trail.k = '#//!js\\n S';", "json.trail.k = {s: '#//!js\\n S'};", "json.trail.k = '#//!xx\\n';", "json.trail.k = {s: '#//!go\\nx'};", "json.trail.k = [{s: '#//!js\\nthrow 1'}, [[{s: '#//!js\\n S'}]]];", "json.trail = {trail: json};", "json.jsonPathSelector('$.k').setValues('#//!js\\n S');",
	"json.trail.a = undefined; json.trail.b = F; json.trail.c = [undefined, F, NaN];", "json.trail.d = new Date(0);", "json.trail.d = new Date(NaN);", "json.trail.r = /x/g;", "json.trail.n = [1e999, -1e999, 0/0, -0];", "json.trail.e = new Error(E);", "json.trail.s = new String(E);", "json.trail.s = '\\ud800';", "json.trail['\\udc00'] = 1;", "json.trail['\\u0000'] = '\\u0000';",
	"var a = []; a[1000] = 1; json.trail.a = a;", "var a = [1, 2, 3]; a.length = 1; a.foo = 'x'; json.trail.a = a;", "json.trail.args = (function () { return arguments; })(E, E);", "debugger;", "/* */", ";;;", "<!-- x", "\\u0061 = 1;", "a.b.c.d;", "null.x;", "undefined();", "x = y = z;", "/(?=a)/;", "/[/;", "'\n';", "`x`;", "let q = 1;", "() => 1;", "class A { }", "async x;", "0b11;", "1..toString();", "0777;", "\u2028", "\ufeff1",
}

var hostileExprs = []string{"null", "undefined", "NaN", "Infinity", "-1", "0", "1e308", "4294967296", "'x'", "''", "true", "[]", "{}", "({})", "json", "json.trail", "console", "this", "JSON", "Object", "F", "(F)()", "new Error('x')", "Object.create(null)",
	"({toString: F})", "({valueOf: F, toString: F})", "({toString: null, valueOf: null})", "({toString: function () { throw 1; }})", "({get x() { throw 2; }})", "[[[]]]", "[E, E]", "({a: E})", "({length: 3})", "({length: NaN})", "({length: '2'})", "({length: 0.5})", "({length: 300})", "new Date(0)", "/x/g", "new String('x')", "new Number(5)", "arguments", "eval", "json.jsonPathSelector", "console.log",
	"'$'", "'$.a'", "'return 1'", "'throw 1'", "'('", "'\\u0000'", "'\\ud800'", "'__proto__'", "'length'", "'constructor'", "[].sort", "''.replace", "Function", "Function.prototype", "Array.prototype", "Object.prototype", "Math", "RegExp", "(E, E)", "(E ? E : E)", "E + E", "-E", "!E", "typeof E", "void E", "E == E", "E < E", "E && E", "E || E", "(function () { return arguments; })(1, 2)", "isNaN", "new (function () { this.a = 1; })()"}

var hostileFuncs = []string{"function () { return this; }", "function () { throw new Error('f'); }", "function () { return arguments; }", "function f() { return f(); }", "function () { return json; }", "function () { return undefined; }", "function () { return {}; }", "function () { return 'x'; }", "function () { S }", "function (a, b) { return a < b ? E : E; }", "function () { return function () { }; }", "console.log", "eval", "String", "Object", "json.jsonPathSelector", "function () { throw null; }", "function () { throw undefined; }", "function () { throw {}; }", "function () { throw json; }"}

var hostileNames = []string{"trail", "scopePath", "jsonPathSelector", "log", "error", "json", "console", "JSON", "Object", "Array", "String", "Error", "Function", "Math", "undefined", "NaN", "eval", "x", "toJSON", "toString"}

var hostilePaths = []string{"'$'", "'$.a'", "'$..a'", "'$...'", "'$...a'", "'$.a[0]'", "'$[*]'", "'$.*'", "'$.a[1:]'", "'$.a[9]'", "'$.no.no'", "'$['", "'$.a['", "''", "'.'", "'a'", "'$$'", "'$[?(@)]'", "'$.*[?(@.a)]'", "'$[?(throw 1)]'", "'$[?(x)]'", "'$[?(]'", "'$[?((function f() { return f() + 1; })())]'",
	"'$[?(@.a.b.c)]'", "'$[?( $.a )]'", "'$[?( $.no.no )]'", "'$[?( $..a == 1 )]'", "'$.a[?(@ > 1)]'", "'$.a[-1]'", "'$.a[-2:-1]'", "'$.a[1,2,3]'", "'$.a[99999999999999999999]'", "'$.a[\\u0000]'", "'\\ud800'", "'$.\\u00e9'", "'$..a..b..c'", "'$.zz_'", "'$..zz_'", "E"}

func hostile(t *rapid.T, tpl string, depth int) string {
	var b strings.Builder
	for i := 0; i < len(tpl); i++ {
		c := tpl[i]
		single := (i == 0 || !isWord(tpl[i-1])) && (i+1 == len(tpl) || !isWord(tpl[i+1]))
		if !single || (c != 'E' && c != 'S' && c != 'F' && c != 'N' && c != 'P' && c != 'Q') {
			b.WriteByte(c)
			continue
		}
		var pool []string
		switch c {
		case 'E':
			pool = hostileExprs
		case 'S':
			pool = hostileStmts
		case 'F':
			pool = hostileFuncs
		case 'N':
			pool = hostileNames
		case 'P':
			pool = hostilePaths
		}
		if depth <= 0 {
			switch c {
			case 'S':
				b.WriteString("json.trail.x = 1;")
				continue
			case 'F':
				b.WriteString("function () { return 1; }")
				continue
			case 'E':
				pool = hostileExprs[:10]
			case 'P':
				pool = hostilePaths[:8]
			}
		}
		if c == 'Q' {
			// a path with a hostile filter
			f := hostile(t, oneOf(t, "filter", "E", "E", "@ == E", "(function () { S })()", "F(@)", "@[E]", "(function () { throw E; })()", "(function () { return E; })()"), depth-1)
			b.WriteString(jsLiteral("$" + sample(t, "step", []string{"", ".*", ".a", "..a"}) + "[?(" + f + ")]"))
			continue
		}
		if c == 'P' && chance(t, 40, "made path?") {
			b.WriteString("'$")
			for n := irange(t, "steps", 1, 5); n > 0; n-- {
				b.WriteString(sample(t, "step", hostileSteps))
			}
			b.WriteString("'")
			continue
		}
		b.WriteString(hostile(t, sample(t, "part", pool), depth-1))
	}
	return b.String()
}

var hostileSteps = []string{".a", ".a", ".a", ".b", ".trail", "..a", "..b", "..x", ".*", ".*", "[*]", "[*]", "[0]", "[0]", "[1]", "[0,1]", "[1, 0, 0]", "[2]", "[1:]", "[:1]", "[0:1]", "[0:2]", "[1:0]", "[-1:]", "[:-1]", "[-3:]", "[:-3]", "[:9]",
	"[9223372036854775807]", "[:9223372036854775807]", "[-9223372036854775808:]", "[:-9223372036854775808]", "[9223372036854775807:]", "[4294967296]", "...", "....", "...a", "[?(@)]", "[?(@.a)]", "[?(@ > 1)]", "[?(@ != @)]", "[?( $.a == @)]"}

func isWord(c byte) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

var jsonTokens = []string{"{", "}", "[", "]", ":", ",", "\"a\"", "\"", "'", "'''", "a", "key: value", "\n", " ", "\t", "#", "//", "/*", "*/", "null", "true", "false", "0", "-1", "1.5e3", "1e999", "-", "\\", "\\u0041", "\\ud800", "\\ud83d\\ude00", "\\x",
	"\x00", "\xff", "\xc3", "\xed\xa0\x80", "\ufeff", "\u2028", "é", "😀", "\"a\": 1", "a: 1\n", "b: [1, 2]\n", "s: '''#//!js\njson.trail.x = 1;'''\n", "\"s\": \"#//!js\\njson.trail.x = 1;\"", "\"s\": \"#//!xx\\n\"", "#//!js\n", "s: #//!js\n", "\"#//!js\\n\"", "'''\n  a\n  '''", "\r\n", "\r", "{}", "[]", "{a: {b: [", "\"array\": [1]", "array: {}\n"}

// A document with hostile scripts in it.
func genHostileDoc(t *rapid.T) []byte {
	doc := genDoc(t, docOpts{depth: 3, width: 3, odd: 10}, 15)
	_, isArr := doc.(arr)
	var ps [][]any
	objects(rootOf(doc), nil, func(p []any) {
		if !(isArr && len(p) == 0) {
			ps = append(ps, p)
		}
	})
	if len(ps) == 0 {
		doc, ps = obj{"a": 1.0}, [][]any{{}}
	}
	caught := oneOf(t, "how often caught", 65, 95, 95)
	for n := irange(t, "scripts", 1, 3); n > 0; n-- {
		var b strings.Builder
		b.WriteString("#//!js\n")
		for k := irange(t, "statements", 1, 5); k > 0; k-- {
			s := hostile(t, sample(t, "statement", hostileStmts), irange(t, "nesting", 1, 4))
			if chance(t, caught, "caught?") {
				s = "try { " + s + "\n} catch (e_) { json.trail.caught = " + oneOf(t, "catch", "'' + e_", "1", "e_") + "; }"
			}
			b.WriteString(s + "\n")
		}
		if d, ok := withAt(doc, sample(t, "at", ps), sample(t, "key", []string{"s1", "zz_", "A", "a", ""}), b.String()); ok {
			doc = d
		}
	}
	return []byte(mustJSON(doc))
}

func mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := irange(t, "mutations", 1, 4); n > 0; n-- {
		at := uniform(t, len(b)+1)
		switch pick(t, "mutation", 3, 2, 2, 1, 1) {
		case 0:
			tok := sample(t, "token", jsonTokens)
			b = append(b[:at:at], append([]byte(tok), b[at:]...)...)
		case 1:
			end := at + uniform(t, 8)
			if end > len(b) {
				end = len(b)
			}
			b = append(b[:at:at], b[end:]...)
		case 2:
			if at < len(b) {
				b[at] = byte(uniform(t, 256))
			}
		case 3:
			b = b[:at]
		default:
			if at < len(b) {
				end := at + uniform(t, 30)
				if end > len(b) {
					end = len(b)
				}
				piece := append([]byte(nil), b[at:end]...)
				to := uniform(t, len(b)+1)
				b = append(b[:to:to], append(piece, b[to:]...)...)
			}
		}
	}
	return b
}

// Recursion without an end of every kind. It has to be stopped before the stack is used up, however long the delay is.
var recursions = []string{"function r() { return r() + 1; } r();", "(function r(n) { [1].map(function () { r(n + 1); }); })(0);", "var o = {toString: function () { return '' + o; }}; '' + o;", "var o = {toJSON: function () { return JSON.stringify(o); }}; json.trail.o = o;", "(function r() { eval('r()'); })();",
	"(function r() { new r(); })();", "(function r() { new Function('r', 'r()')(r); })();", "(function r() { 'a'.replace(/a/, r); })();", "(function r() { JSON.parse('[1]', r); })();", "(function r() { JSON.stringify([1], r); })();", "(function r() { [2, 1].sort(r); })();", "json.trail.list = [2, 1, 3]; json.trail.list.sort(function r() { json.trail.list.sort(r); });",
	"console.log((function f() { return {get x() { return f(); }}; })());", "console.error(1, (function f() { return {get x() { return [1, {a: f()}]; }}; })());", "json.jsonPathSelector('$').setValues((function f() { return {get x() { return [f()]; }}; })());", "json.trail.n = 1; json.jsonPathSelector('$.n').setValues((function f() { return {get x() { return f(); }}; })());",
	"(function r() { r.call(1); })();", "(function r() { r.apply(null, [1]); })();", "(function r() { r.bind(1)(); })();", "var o = {get x() { return this.x; }}; o.x;", "var o = {set x(v) { this.x = v; }}; o.x = 1;", "(function r() { console.log({get x() { r(); }}); })();", "json.trail.toJSON = function () { return JSON.stringify(json.trail); };",
	"Object.defineProperty(json.trail, 'x', {enumerable: true, get: function () { return JSON.stringify(json.trail); }});", "(function r() { json.trail.l = [1]; json.jsonPathSelector('$.l').setValues({toJSON: r}); })();", "(function r() { [1].forEach(r); })();", "(function r() { [1].reduce(r, 1); })();", "var a = {toString: function () { return [a].join(); }}; '' + a;",
	"var d = {valueOf: function () { return new Date(d); }}; +d;", "json.trail.l = [1]; json.jsonPathSelector('$.l[?((function f() { return f() + 1; })())]').getValues();", "json.trail.l = [1]; json.jsonPathSelector('$.l[?(({get x() { return this.x; }}).x)]').getValues();", "(function r() { try { r(); } catch (e) { throw e; } })();", "var p = function () { return new p(); }; new p();",
	"(function r() { Object.keys({get x() { r(); }}).map(function () { r(); }); })();", "(function r() { return 1 < {valueOf: r}; })();", "(function r() { throw r(); })();", "Object.prototype.toJSON = function () { return JSON.stringify(json.trail); };", "json.N = json; console.log(json);", "json.N = [json]; JSON.stringify(json);", "console.N = {console: console}; console.log(console);",
	"var n = json.jsonPathSelector('$'); n.N = n; console.log(n);", "var n = json.jsonPathSelector('$'); n.N = n; json.trail.n = n;", "json.N = json; json.jsonPathSelector('$').setValues(json);", "json.trail.N = json;", "var o = {}, p = o; for (var i = 0; i < 12000; i++) { p = p.a = {}; } console.log(o);", "var o = [], p = o; for (var i = 0; i < 12000; i++) { p = p[0] = []; } json.jsonPathSelector('$').setValues(o);",
	"var o = {}, p = o; for (var i = 0; i < 12000; i++) { p = p.a = {}; } json.trail.o = o;"}

func genRecursion(t *rapid.T) bytesCase {
	s := hostile(t, sample(t, "recursion", recursions), 0)
	switch pick(t, "around it", 2, 3, 1, 1) {
	case 1:
		s = "try { " + s + " } catch (e) { json.trail.caught = '' + e; }"
	case 2:
		s = "(function () { [1].forEach(function () { " + s + " }); })();"
	case 3:
		s = "try { " + s + " } catch (e) { } try { " + hostile(t, sample(t, "another", recursions), 0) + " } finally { }"
	}
	doc := any(obj{"s": "#//!js\n" + s})
	if chance(t, 40, "nested?") {
		doc = obj{"a": []any{1.0, doc}, "b": 2.0}
	}
	b := mustJSON(doc)
	return bytesCase{Text: []byte(b), Readable: b, Delay: 20}
}

func genBytesCase(t *rapid.T) bytesCase {
	if chance(t, 2, "recursion?") {
		return genRecursion(t)
	}
	var b []byte
	switch pick(t, "kind", 8, 2, 3, 2, 1, 1, 1) {
	case 0:
		b = genHostileDoc(t)
	case 1:
		b = mutate(t, genHostileDoc(t))
	case 2:
		for n := irange(t, "tokens", 0, 30); n > 0; n-- {
			b = append(b, sample(t, "token", jsonTokens)...)
		}
	case 3:
		b = mutate(t, []byte(mustJSON(genDoc(t, docOpts{depth: 4, width: 4, odd: 30}, 20))))
	case 4:
		b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
	case 5:
		// the very short, and what files begin with
		for n := irange(t, "bytes", 0, 4); n > 0; n-- {
			b = append(b, sample(t, "byte", []byte("\xef\xbb\xbf\xfe\xff\xc3\xf0\xed\xa0\x00\x1f\x8b {}[]\"'#/:,\n\r\t0-+.eE$@\\ntf\x7f\x80")))
		}
		if chance(t, 40, "text?") {
			b = append(b, genHostileDoc(t)...)
		}
	default:
		n := irange(t, "depth", 1, 300)
		open := oneOf(t, "open", "[", "{a:", "{\"a\":", "[[{b:", "[\n", "'''", "/*", "{\n\"k\" : [")
		b = []byte(strings.Repeat(open, n))
		if chance(t, 50, "closed?") {
			b = append(b, '1')
			for i := n * len(open); i >= 0; i-- {
				switch open[i%len(open)] {
				case '[':
					b = append(b, ']')
				case '{':
					b = append(b, '}')
				}
			}
		}
		if chance(t, 30, "then mutated?") {
			b = mutate(t, b)
		}
	}
	return bytesCase{Text: append([]byte{}, b...), Readable: strings.ToValidUTF8(string(b), "\ufffd"), Verbose: chance(t, 3, "verbose?")}
}

// Scripts that put their own source into a scope below theirs make an evaluation that never ends (known finding
// self-copy). Such an evaluation is given up on: the same source was run in scopes of 60 different depths.
type copyGuard struct {
	depths map[string]map[int]bool
	fired  bool
}

func (g *copyGuard) run(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
	src := fmt.Sprint(c.Script)
	if g.depths[src] == nil {
		g.depths[src] = map[int]bool{}
	}
	g.depths[src][strings.Count(j.GetCurrentScopePath(), ".")] = true
	if len(g.depths[src]) >= 60 {
		g.fired = true
		return nil, errors.New("given up")
	}
	return js.RunScript(c, j)
}

func checkBytes(c bytesCase, x *Ctx) error {
	guard := &copyGuard{depths: map[string]map[int]bool{}}
	code.RegisterLang("js", guard.run)
	defer code.RegisterLang("js", js.RunScript)
	globals.HaltingDelay = 1
	if c.Parts != nil {
		globals.HaltingDelay = 30
	} else if c.Delay > 0 {
		globals.HaltingDelay = c.Delay
		x.Tag("recursion")
	}
	text := c.bytes()
	var out []byte
	var err error
	var p any
	x.TagIf(len(text) > 0 && len(c.Parts) == 0 && bytes.Contains(text, []byte("#//!js")), "with scripts")
	stdout := os.Stdout
	if c.Verbose {
		if null, e := os.OpenFile(os.DevNull, os.O_WRONLY, 0); e == nil {
			os.Stdout = null
			defer func() { os.Stdout = stdout; null.Close() }()
		}
	}
	captured(func() { p = catch(func() { out, err = jom.Eval(text, c.Verbose) }) })
	what := "evaluating " + fmt.Sprintf("%.3000q", text)
	if guard.fired {
		if len(c.Parts) > 0 {
			return failf("%s: a script copies itself into deeper and deeper scopes without an end", what)
		}
		return skip("known finding: a script copies itself")
	}
	if p != nil {
		return failf("%s: panics: %v", what, p)
	}
	if err != nil {
		x.Tag("error")
		if len(out) != 0 {
			return failf("%s: gives an error and the output %s: %v", what, short(out), err)
		}
		_ = err.Error()
	} else {
		x.Tag("evaluated")
		if !json.Valid(out) {
			return failf("%s: gives no JSON: %s", what, short(out))
		}
		if v, e := fromJSON(out); e != nil || !isContainer(v) {
			return failf("%s: gives %s", what, short(out))
		}
	}
	if err == nil || strings.Contains(err.Error(), "script") {
		x.NonTrivial()
	}
	x.TagIf(err != nil && strings.Contains(err.Error(), "(-1)"), "halted")
	return nil
}

// ------------------------------------------------------------------------------------------------ C13

type haltProg struct {
	Via   string `json:"via"` // eval run select set get callback selector
	Loop  int    `json:"loop"`
	Wraps []int  `json:"wraps,omitempty"`
	Doc   any    `json:"doc"`
	At    []any  `json:"at"`
	Arr   bool   `json:"arr,omitempty"`   // the filter is on an array
	After string `json:"after,omitempty"` // steps after the filter
}

type haltCase struct {
	Delay int        `json:"delay"`
	Progs []haltProg `json:"progs"`
}

// Statements that do not end; Q stands for a number that makes names unique.
var endless = []string{"while (true) { }", "while (1);", "for (;;);", "do { } while (true);", "do; while (1);", "for (var iQ = 0; iQ >= 0; iQ++) { }", "for (var iQ = 0; ; iQ = (iQ + 1) % 1000) { }", "for (;;) { continue; }", "LQ: for (;;) { continue LQ; }",
	"LQ: while (true) { for (;;) { continue LQ; } }", "var xQ = 0; while (xQ != 10) { xQ += 3; if (xQ > 1000) { xQ = 0; } }", "var aQ = [1]; for (var iQ = 0; iQ < aQ.length; iQ++) { aQ[0]++; iQ = -1; }", "while (new Date().getTime() > 0) { }", "while (json.trail) { }", "while (true) { json.trail.x_ = 1; }",
	"while (true) { try { throw 1; } catch (e) { } }", "for (;;) { try { null.x; } catch (e) { continue; } finally { } }", "while (true) { try { (function f() { return f() + 1; })(); } catch (e) { } }", "while (true) { try { break_(); } catch (e) { } }", "while (true) { [1, 2, 3].forEach(function (v) { return v; }); }",
	"while (true) { if (false) { break; } }", "while (true) { switch (1) { case 1: break; } }", "while (true) { for (var kQ in {a: 1, b: 2}) { break; } }", "function fQ(n) { try { fQ(n + 1); fQ(n + 1); } catch (e) { fQ(n); } } fQ(0);", "function gQ(n) { if (n == 0) { return 1; } return gQ(n - 1) + gQ(n - 1); } gQ(60);", "for (var iQ = 0; iQ < 1e15; iQ++) { }",
	"var sQ = 'a'; while (sQ.length < 10) { sQ = sQ.substring(0, 5) + 'b'; if (sQ.length > 3) { sQ = 'a'; } }", "while ('' + {} == '[object Object]') { }", "while (json.jsonPathSelector) { }", "var dQ = 0; for (;;) { dQ = dQ ? 0 : 1; eval('dQ'); }", "for (;;) { new Function('return 1')(); }", "while (true) { JSON.stringify({a: [1, 2]}); }",
	"while (true) { console.log('x'); }", "while (true) { json.jsonPathSelector('$').getValues(); }", "while (true) { 'abc'.replace(/b/g, function (m) { return m + m; }); }", "var nQ = {v: 1}; nQ.n = nQ; var pQ = nQ; while (pQ) { pQ = pQ.n; }", "for (;;) {}", "LQ: for (;;) {}", "for (var iQ = 0;;) {}"}

// From here on the engine does not look for the interrupt: these go on for as long as the process does.
const firstSpinner = 36

// Contexts for a statement S; Q as above. They run it whatever happens around it.
var haltWraps = []string{"(function () { S })();", "function wQ() { S } wQ();", "var wQ = function () { S }; wQ.call(1);", "(function () { S }).apply(null, []);", "(function () { S }).bind({})();", "new (function () { S })();", "var oQ = {m: function () { S }}; oQ.m();", "[1].forEach(function () { S });", "[1, 2].map(function () { S });",
	"[1, 2].filter(function () { S });", "[1, 2].some(function () { S });", "[1, 2].every(function () { S });", "[1, 2].reduce(function () { S });", "[2, 1].reduceRight(function () { S });", "[2, 1].sort(function () { S });", "json.trail.l_ = [2, 1]; json.trail.l_.sort(function () { S });", "json.trail.m_ = [2, 1]; json.jsonPathSelector('$.m_').getValues().sort(function () { S });",
	"json.trail.q_ = [2, 1]; json.jsonPathSelector('$.q_').getValues().forEach(function () { S });", "'a'.replace(/a/, function () { S });", "JSON.parse('[1]', function () { S });", "JSON.stringify({a: 1}, function () { S });", "JSON.stringify({toJSON: function () { S }});", "json.trail.j_ = {toJSON: function () { S }};", "json.trail.toJSON = function () { S };", "Object.defineProperty(json.trail, 'g_', {enumerable: true, get: function () { S }});",
	"var oQ = {get x() { S }}; oQ.x;", "var oQ = {set x(v) { S }}; oQ.x = 1;", "'' + {toString: function () { S }};", "+{valueOf: function () { S }};", "1 < {valueOf: function () { S }};", "1 == {valueOf: function () { S }};", "[1][{toString: function () { S }}];", "String({toString: function () { S }});", "Number({valueOf: function () { S }});", "Math.max(1, {valueOf: function () { S }});",
	"parseInt({toString: function () { S }});", "isNaN({valueOf: function () { S }});", "[{toString: function () { S }}].join();", "'a'.concat({toString: function () { S }});", "'a'.indexOf({toString: function () { S }});", "[3, {toString: function () { S }}].sort();", "new Date({valueOf: function () { S }});", "new RegExp({toString: function () { S }});", "encodeURIComponent({toString: function () { S }});",
	"try { S } catch (e) { }", "try { S } finally { }", "try { throw 1; } catch (e) { S }", "try { } finally { S }", "try { throw 1; } catch (e) { } finally { S }", "try { try { S } catch (e) { } } catch (f) { }", "if ((function () { S return true; })()) { }", "if (true) { S }", "if (false) { } else { S }", "switch ((function () { S })()) { case 1: }", "switch (1) { case (function () { S })(): }",
	"switch (1) { default: S }", "while ((function () { S })()) { }", "for (; (function () { S })(); ) { }", "for (var kQ in {a: 1}) { S }", "for (var kQ in (function () { S })()) { }", "do { S } while (false);", "with ({}) { S }", "{ S }", "var zQ = true ? (function () { S })() : 1;", "true && (function () { S })();", "1, (function () { S })();", "throw (function () { S })();", "typeof (function () { S })();", "[(function () { S })()];",
	"({a: (function () { S })()});", "console.log((function () { S })());", "console.log({get x() { S }});", "console.log([{get x() { S }}]);", "json.jsonPathSelector((function () { S })());", "json.trail.v_ = 1; json.jsonPathSelector('$.v_').setValues({toJSON: function () { S }});", "json.trail.v_ = 1; json.jsonPathSelector('$.v_').setValues({get x() { S }});", "eval(T);", "new Function(T)();", "json.trail.constructor.constructor(T)();",
	"var oldQ = JSON.stringify, inQ = false; JSON.stringify = function () { if (inQ) { return '{\"a\": 1}'; } inQ = true; S }; json.jsonPathSelector('$').getValues();", "var inQ = false; JSON.stringify = function () { if (inQ) { return '{\"a\": 1}'; } inQ = true; S };", "json = {scopePath: json.scopePath, jsonPathSelector: json.jsonPathSelector, get trail() { if (this.inQ) { return {a: 1}; } this.inQ = true; S }};", "if (delete (function () { S })().x) { }", "for (var iQ = (function () { S })(); ; ) { break; }", "for (var iQ = 0; iQ < 1; iQ += (function () { S return 1; })()) { }", "function unused_Q() { return 1; } S", "(function rQ(n) { if (n == 0) { S } else { rQ(n - 1); } })(50);",
	"Object.keys({a: 1}).forEach(function () { S });", "Array.prototype.map.call('ab', function () { S });", "Function.prototype.call.call(function () { S });", "(function () { arguments[0](); })(function () { S });", "setQ = function () { S }; setQ();", "json.trail.f_ = function () { S }; json.trail.f_();", "this.tQ = function () { S }; this.tQ();"}

// Contexts that come into play when the trail is read at the end: nothing can be around them.
func deferred(w string) bool {
	return strings.HasPrefix(w, "json.trail.j_") || strings.HasPrefix(w, "json.trail.toJSON") || strings.HasPrefix(w, "Object.defineProperty(json.trail") ||
		strings.Contains(w, "JSON.stringify = ") || strings.HasPrefix(w, "json = ")
}

func (p haltProg) code() string {
	s := endless[p.Loop%len(endless)]
	n := 0
	num := func(s string) string {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] == 'Q' {
				fmt.Fprintf(&b, "%d_", n)
				continue
			}
			b.WriteByte(s[i])
		}
		n++
		return b.String()
	}
	s = num(s)
	for _, w := range p.Wraps {
		t := num(haltWraps[w%len(haltWraps)])
		t = strings.ReplaceAll(t, "T)", jsLiteral(s)+")")
		var b strings.Builder
		for i := 0; i < len(t); i++ {
			if t[i] == 'S' && (i == 0 || !isWord(t[i-1])) && (i+1 == len(t) || !isWord(t[i+1])) {
				b.WriteString(s)
				continue
			}
			b.WriteByte(t[i])
		}
		s = b.String()
	}
	return s
}

func (p haltProg) spins() bool { return p.Loop%len(endless) >= firstSpinner && p.Via != "callback" }

var endlessCallbacks = []string{"sleep", "block", "mutex", "edit", "select", "sleep after edits", "wait for goroutine", "recovered loop"}

// A callback that does not end before stop is closed.
func endlessCallback(n int, stop chan bool) func(json_map.JsonMapInt) {
	over := func() bool {
		select {
		case <-stop:
			return true
		default:
			return false
		}
	}
	return func(j json_map.JsonMapInt) {
		switch endlessCallbacks[n%len(endlessCallbacks)] {
		case "sleep":
			for !over() {
				time.Sleep(10 * time.Millisecond)
			}
		case "block":
			<-stop
		case "mutex":
			var mu sync.Mutex
			mu.Lock()
			go func() { <-stop; mu.Unlock() }()
			mu.Lock()
		case "edit":
			for i := 0; !over(); i++ {
				_ = j.JsonPathSetter("$.x_", i)
				time.Sleep(time.Millisecond)
			}
		case "select":
			for !over() {
				_, _ = j.JsonPathSelector("$..a")
				time.Sleep(time.Millisecond)
			}
		case "sleep after edits":
			_ = j.JsonPathSetter("$.x_", 1)
			<-stop
		case "wait for goroutine":
			var wg sync.WaitGroup
			wg.Add(1)
			go func() { <-stop; wg.Done() }()
			wg.Wait()
		case "recovered loop":
			for !over() {
				func() {
					defer func() { _ = recover() }()
					time.Sleep(5 * time.Millisecond)
					panic("x")
				}()
			}
		}
	}
}

func genHaltProg(t *rapid.T) haltProg {
	p := haltProg{Via: oneOf(t, "via", "eval", "eval", "eval", "eval", "run", "run", "select", "set", oneOf(t, "other", "get", "delete", "mset", "markup", "pop", "push"), "callback", "callback", "selector", "setter", "nested filter")}
	p.Arr, p.After = chance(t, 50, "array?"), oneOf(t, "after", "", "", ".x", ".x.*", "..y", "[0]")
	p.Doc = genDoc(t, docOpts{depth: 4, width: 3, plain: true}, 15)
	_, isArr := p.Doc.(arr)
	var ps [][]any
	objects(rootOf(p.Doc), nil, func(q []any) {
		if !(isArr && len(q) == 0) {
			ps = append(ps, q)
		}
	})
	if len(ps) == 0 {
		p.Doc, ps = obj{"a": 1.0}, [][]any{{}}
	}
	p.At = sample(t, "at", ps)
	p.Loop = uniform(t, firstSpinner)
	if p.Via == "callback" {
		p.Loop = uniform(t, len(endlessCallbacks))
		return p
	}
	if chance(t, 3, "spinner?") {
		p.Loop = firstSpinner + uniform(t, len(endless)-firstSpinner)
	}
	for n := pick(t, "contexts", 2, 4, 3, 1); n > 0; n-- {
		w := uniform(t, len(haltWraps))
		if n > 1 && deferred(haltWraps[w]) {
			w = 0
		}
		p.Wraps = append(p.Wraps, w)
	}
	// what runs while the trail is read must not read it
	if n := len(p.Wraps); n > 0 && deferred(haltWraps[p.Wraps[n-1]]) {
		reads := func(s string) bool { return strings.Contains(s, "json.") || strings.Contains(s, "JSON.") }
		for i := range p.Wraps[:n-1] {
			if reads(haltWraps[p.Wraps[i]]) {
				p.Wraps[i] = 0
			}
		}
		if reads(endless[p.Loop]) {
			p.Loop = 0
		}
	}
	return p
}

func genHaltCase(t *rapid.T) haltCase {
	// the delay may be set to anything, also to more than it is at first
	c := haltCase{Delay: oneOf(t, "delay", 1, 1, 1, 1, 1, 1, 2, 5, 6)}
	for n := irange(t, "programs", 4, 14); n > 0; n-- {
		c.Progs = append(c.Progs, genHaltProg(t))
	}
	return c
}

const jsonInFilter = "json = {trail: {a: 1}, jsonPathSelector: function () { return {getValues: function () { return [2, 1]; }, setValues: function (v) { JSON.stringify(v); for (var k in v) { v[k]; } }}; }}; console = {log: function (v) { for (var k in v) { v[k]; if (v[k]) { v[k].x; } } }};"

// Runs a program; gives the error it ended with.
func (p haltProg) run(stop chan bool) (err error, min time.Duration) {
	defer func() {
		if c := recover(); c != nil {
			if e, ok := c.(error); ok {
				err = e
				return
			}
			err = fmt.Errorf("%v", c)
		}
	}()
	delay := time.Duration(globals.HaltingDelay) * time.Second
	code := p.code()
	filter := "[?((function () { " + jsonInFilter + code + " JSON.stringify(json.trail); return 1; })())]"
	switch p.Via {
	case "eval", "run", "selector", "setter", "nested filter":
		min = delay
		if p.Via == "setter" {
			code = "json.trail.f_ = " + oneOfBy(len(p.After), "{a: {x: {}}}", "[{x: {}}]") + "; json.jsonPathSelector(" + jsLiteral("$.f_"+filter+p.After) + ").setValues(1);"
			min = time.Second
		}
		if p.Via == "selector" { // the exception is not caught
			code = "json.jsonPathSelector(" + jsLiteral("$"+filter) + ").getValues();"
			min = time.Second
		}
		if p.Via == "nested filter" {
			code = "for (;;) { try { json.jsonPathSelector(" + jsLiteral("$"+filter) + ").getValues(); } catch (e) { } }"
		}
		doc, ok := withAt(p.Doc, p.At, selKey, "#//!js\n"+code)
		if !ok {
			return errSkip, 0
		}
		j := jom.New()
		if err := j.Unmarshal([]byte(mustJSON(doc))); err != nil {
			return fmt.Errorf("does not load: %v", err), 0
		}
		if p.Via == "run" {
			j.Run()
			return nil, min
		}
		_, err := jom.Eval([]byte(mustJSON(doc)), false)
		return err, min
	case "callback":
		min = delay
		doc, ok := withAt(p.Doc, p.At, selKey, endlessCallback(p.Loop, stop))
		if !ok {
			return errSkip, 0
		}
		_, isArr := p.Doc.(arr)
		if isArr {
			return errSkip, 0
		}
		jom.NewFromMap(map[string]interface{}(doc.(obj))).Run()
		return nil, min
	default: // filters
		min = time.Second
		doc, ok := withAt(p.Doc, p.At, selKey, p.children())
		if !ok {
			return errSkip, 0
		}
		j, err := load(doc)
		if err != nil {
			return err, 0
		}
		path, ok := pathText(append(append([]any{}, p.At...), selKey))
		if !ok {
			return errSkip, 0
		}
		filter += p.After
		switch p.Via {
		case "select":
			_, err = j.JsonPathSelector(path + filter)
		case "set":
			err = j.JsonPathSetter(path+filter, 1)
		case "get":
			j.MustGet(path + filter)
		case "delete":
			j.MustDelete(path + filter)
		case "mset":
			j.MustSet(path+filter, obj{"a": 1.0})
		case "markup":
			err = j.MarkupCode(path+filter, "js", "1")
		case "pop":
			j.MustPop(path + filter)
		case "push":
			j.MustPush(path+filter, 1.0, 1)
		}
		return err, min
	}
}

// What the filter is on.
func (p haltProg) children() any {
	child := func() any { return obj{"x": obj{"y": 1.0}} }
	if p.Arr {
		return arr{child(), 2.0}
	}
	return obj{"b": child(), "c": 2.0}
}

var errSkip = errors.New("not run")

// Runs the case in a process of its own, which can be ended.
func elsewhere(id string, c any) error {
	dir, err := os.MkdirTemp("", "pbt-child-")
	if err != nil {
		return skip("no scratch directory")
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "case.json")
	_ = os.WriteFile(f, []byte(mustJSON(c)), 0o644)
	exe, err := os.Executable()
	if err != nil {
		return skip("no executable")
	}
	cmd := exec.Command(exe, "replay", "-prop", id, "-case", f)
	cmd.Env = append(os.Environ(), "PBT_CHILD=1")
	out, err := cmd.CombinedOutput()
	if err == nil {
		return nil
	}
	s := string(out)
	if i := strings.Index(s, "PBT-FAIL"); i >= 0 {
		return failf("%s", strings.TrimSpace(s[i+8:]))
	}
	return failf("in a process of its own: %v: %.2000s", err, s)
}

// How long after the delay code that does not end has to be stopped: leaves room for a busy machine.
const soon = 25 * time.Second

func checkHalt(c haltCase, x *Ctx) error {
	spins := 0
	for _, p := range c.Progs {
		x.Tag("via " + p.Via)
		if p.spins() {
			x.Tag("cannot be interrupted")
			spins++
		}
	}
	x.NonTrivial()
	if spins > 0 && os.Getenv("PBT_CHILD") == "" {
		return elsewhere("C13", c)
	}
	globals.HaltingDelay = c.Delay
	if globals.HaltingDelay < 1 {
		globals.HaltingDelay = 1
	}
	stop := make(chan bool)
	stopped := false
	defer func() {
		if !stopped {
			close(stop)
			time.Sleep(20 * time.Millisecond)
		}
	}()
	type res struct {
		i    int
		err  error
		took time.Duration
		min  time.Duration
	}
	results := make(chan res, len(c.Progs))
	for i, p := range c.Progs {
		go func(i int, p haltProg) {
			start := time.Now()
			err, min := p.run(stop)
			results <- res{i, err, time.Since(start), min}
		}(i, p)
	}
	pending := map[int]bool{}
	for i := range c.Progs {
		pending[i] = true
	}
	timeout := time.After(time.Duration(globals.HaltingDelay)*time.Second + soon)
	for len(pending) > 0 {
		select {
		case r := <-results:
			delete(pending, r.i)
			p := c.Progs[r.i]
			what := fmt.Sprintf("program %d (%s %s in %s)", r.i, p.Via, p.code(), short(p.Doc))
			switch {
			case r.err == errSkip:
			case r.err == nil:
				return failf("%s: ends without an error after %v", what, r.took)
			case !strings.Contains(r.err.Error(), "(-1)"):
				return failf("%s: fails with another error: %v", what, r.err)
			case r.took < r.min:
				return failf("%s: stopped after %v", what, r.took)
			}
		case <-timeout:
			for i := range pending {
				p := c.Progs[i]
				return failf("program %d (%s %s in %s) is not stopped within %v of the delay", i, p.Via, p.code(), short(p.Doc), soon)
			}
		}
	}
	if spins > 0 {
		return nil
	}
	// what was reported as stopped must not go on behind the scenes
	close(stop)
	stopped = true
	end := time.Now()
	for {
		n, which := goroutines()
		if n == 0 {
			return nil
		}
		if time.Since(end) > soon {
			return failf("%d goroutines are still running %v after the last program was reported as stopped: %s", n, soon, which)
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// ------------------------------------------------------------------------------------------------ C14

type laneStep struct {
	K   string `json:"k"`  // script scripts callback filter selector fails gap quick
	Ms  int    `json:"ms"` // how long each takes
	N   int    `json:"n"`  // how many
	End int    `json:"end,omitempty"`
}

type laneCase struct {
	Lanes [][]laneStep `json:"lanes"`
}

const endDelay = 2 // s

func genLaneCase(t *rapid.T) laneCase {
	c := laneCase{}
	for n := irange(t, "lanes", 3, 10); n > 0; n-- {
		var lane []laneStep
		total := 0
		for len(lane) < 14 && total < 4200 {
			s := laneStep{K: oneOf(t, "step", "scripts", "scripts", "callbacks", "callbacks", "filter", "filter", "selector", "fails", "gap", "quick", "quick", "mixed"), N: 1}
			switch s.K {
			case "scripts", "mixed":
				s.Ms, s.N = irange(t, "ms", 50, 900), irange(t, "scripts", 1, 4)
			case "callbacks":
				s.Ms, s.N = irange(t, "ms", 50, 1100), irange(t, "callbacks", 1, 4)
			case "filter", "selector":
				s.Ms, s.N = irange(t, "ms", 20, 400), irange(t, "nodes", 1, 6)
				if s.K == "filter" && chance(t, 50, "many nodes?") {
					s.N += 6
				}
			case "gap":
				s.Ms = irange(t, "ms", 50, 1500)
			case "fails":
				s.End, s.Ms, s.N = uniform(t, 5), irange(t, "ms", 0, 300), 1
			case "quick":
				s.N = irange(t, "times", 1, 40)
			}
			lane = append(lane, s)
			total += s.Ms * s.N
		}
		c.Lanes = append(c.Lanes, lane)
	}
	return c
}

func busy(ms int) string {
	return fmt.Sprintf("(function () { var t = new Date().getTime(); while (new Date().getTime() - t < %d) { } return true; })()", ms)
}

func (s laneStep) run() (err error) {
	defer func() {
		if p := recover(); p != nil {
			if s.K == "fails" {
				return
			}
			err = failf("panics: %v", p)
		}
	}()
	script := func(k int) string {
		return fmt.Sprintf("#//!js\n%s; json.trail.done%d = %d;", busy(s.Ms), k, k)
	}
	callback := func(k int) func(json_map.JsonMapInt) {
		return func(j json_map.JsonMapInt) {
			time.Sleep(time.Duration(s.Ms) * time.Millisecond)
			j.MustSet(fmt.Sprintf("$.done%d", k), k)
		}
	}
	done := func(root any, n int, nested bool) error {
		m, ok := root.(obj)
		if !ok {
			return failf("gives %s", short(root))
		}
		for k := 0; k < n; k++ {
			at := m
			if nested && k%2 == 1 {
				at, _ = m["in"].(arr)[0].(obj)
			}
			if f, ok := at[fmt.Sprint("done", k)].(float64); !ok || f != float64(k) {
				return failf("gives %s without the effect of number %d", short(root), k)
			}
		}
		return nil
	}
	switch s.K {
	case "gap":
		time.Sleep(time.Duration(s.Ms) * time.Millisecond)
	case "scripts":
		doc := obj{"in": arr{obj{}}}
		for k := 0; k < s.N; k++ {
			at := doc
			if k%2 == 1 {
				at = doc["in"].(arr)[0].(obj)
			}
			at[fmt.Sprint("s", k)] = script(k)
		}
		b, err := jom.Eval([]byte(mustJSON(doc)), false)
		if err != nil {
			return failf("fails: %v", err)
		}
		v, err := fromJSON(b)
		if err != nil {
			return err
		}
		return done(v, s.N, true)
	case "callbacks", "mixed":
		in := map[string]interface{}{}
		doc := map[string]interface{}{"in": []interface{}{in}}
		for k := 0; k < s.N; k++ {
			at := doc
			if k%2 == 1 {
				at = in
			}
			if s.K == "mixed" && k%2 == 0 {
				at[fmt.Sprint("s", k)] = script(k)
			} else {
				at[fmt.Sprint("s", k)] = callback(k)
			}
		}
		if s.K == "mixed" { // (a script drops the functions next to and below it)
			delete(doc, "s1")
			delete(doc, "in")
			doc["in"] = []interface{}{map[string]interface{}{}}
			if s.N > 1 {
				doc["in"] = []interface{}{map[string]interface{}{"s1": script(1)}}
			}
			for k := 3; k < s.N; k += 2 {
				doc["in"].([]interface{})[0].(map[string]interface{})[fmt.Sprint("s", k)] = script(k)
			}
		}
		j := jom.NewFromMap(doc)
		j.Run()
		v, err := dump(j)
		if err != nil {
			return err
		}
		return done(v, s.N, true)
	case "filter", "selector":
		list := arr{}
		for k := 0; k < s.N; k++ {
			list = append(list, float64(k))
		}
		path := "$.list[?(" + busy(s.Ms) + " && @ >= 0)]"
		if s.K == "filter" {
			j, err := load(obj{"list": list})
			if err != nil {
				return err
			}
			nodes, err := j.JsonPathSelector(path)
			if err != nil {
				return failf("fails: %v", err)
			}
			if len(nodes) != s.N {
				return failf("keeps %d of %d", len(nodes), s.N)
			}
			return nil
		}
		// within a script, the values as a whole have to be there within the delay
		n := s.N
		for n > 1 && n*s.Ms > 1000 {
			n--
		}
		b, err := jom.Eval([]byte(mustJSON(obj{"list": list[:n], "s": "#//!js\njson.trail.n = json.jsonPathSelector(" + jsLiteral(path) + ").getValues().length;"})), false)
		if err != nil {
			return failf("fails: %v", err)
		}
		v, err := fromJSON(b)
		if err != nil {
			return err
		}
		if f, ok := v.(obj)["n"].(float64); !ok || int(f) != n {
			return failf("gives %s", short(b))
		}
	case "quick":
		for k := 0; k < s.N; k++ {
			b, err := jom.Eval([]byte(mustJSON(obj{"a": arr{1.0, 2.0, 3.0}, "s": "#//!js\njson.trail.n = json.jsonPathSelector('$.a[?(@ > 1)]').getValues().length;"})), false)
			if err != nil {
				return failf("fails: %v", err)
			}
			if !strings.Contains(string(b), "\"n\":2") {
				return failf("gives %s", b)
			}
			j := jom.NewFromMap(map[string]interface{}{"f": callback(0)})
			j.Run()
		}
	case "fails":
		switch s.End {
		case 0:
			if _, err := jom.Eval([]byte(mustJSON(obj{"s": "#//!js\n" + busy(s.Ms) + "; throw 1;"})), false); err == nil || strings.Contains(err.Error(), "(-1)") {
				return failf("error %v", err)
			}
		case 1:
			if _, err := jom.Eval([]byte(mustJSON(obj{"s": "#//!js\n" + busy(s.Ms) + "; json.trail = 5;"})), false); err == nil || strings.Contains(err.Error(), "(-1)") {
				return failf("error %v", err)
			}
		case 2:
			jom.NewFromMap(map[string]interface{}{"f": func(json_map.JsonMapInt) { time.Sleep(time.Duration(s.Ms) * time.Millisecond); panic("x") }}).Run()
		case 3:
			j, err := load(obj{"a": arr{1.0, 2.0}})
			if err != nil {
				return err
			}
			if _, err := j.JsonPathSelector("$.a[?(" + busy(s.Ms) + " && noSuchVar)]"); err == nil || strings.Contains(err.Error(), "(-1)") {
				return failf("error %v", err)
			}
		case 4:
			if _, err := jom.Eval([]byte(mustJSON(obj{"s": "#//!js\nx = ;"})), false); err == nil {
				return failf("no error")
			}
		}
	}
	return nil
}

// The goroutines that json-dom started.
func goroutines() (int, string) {
	var b bytes.Buffer
	_ = pprof.Lookup("goroutine").WriteTo(&b, 2)
	n := 0
	var first string
	for _, g := range strings.Split(b.String(), "\n\n") {
		if i := strings.Index(g, "created by github.com/andygello555/json-dom"); i >= 0 {
			n++
			first = g
		}
	}
	return n, first
}

func checkLanes(c laneCase, x *Ctx) error {
	globals.HaltingDelay = endDelay
	before := runtime.NumGoroutine()
	errs := make(chan error, len(c.Lanes))
	for i, lane := range c.Lanes {
		for _, s := range lane {
			x.Tag("step " + s.K)
		}
		go func(i int, lane []laneStep) {
			for k, s := range lane {
				if err := s.run(); err != nil {
					errs <- failf("lane %d, step %d (%+v): %v", i, k, s, err)
					return
				}
			}
			errs <- nil
		}(i, lane)
	}
	var err error
	for range c.Lanes {
		if e := <-errs; e != nil {
			err = e
		}
	}
	if err != nil {
		return err
	}
	x.NonTrivial()
	end := time.Now()
	for {
		now := runtime.NumGoroutine()
		n, which := goroutines()
		if n == 0 && now <= before {
			break
		}
		if time.Since(end) > (endDelay+20)*time.Second {
			if n == 0 {
				return failf("%d goroutines are left, there were %d before", now, before)
			}
			return failf("%d goroutines are left %v after everything ended: %s", n, time.Since(end), which)
		}
		time.Sleep(50 * time.Millisecond)
	}
	return nil
}

func init() {
	register("C12", "bytes: documents with 1-3 scripts of 1-5 hostile statements (from 200 templates, nested), the same mutated, token soups, mutated documents, random bytes, nesting up to 300, recursion of 47 kinds; non-trivial: it loads",
		genBytesCase, checkBytes, counts(16000, 640000), workers(8, 8), limit(60*time.Second))
	register("C13", "4-14 programs that do not end (39 endless statements in up to 3 of 100 contexts each, filters, 8 kinds of callbacks) at generated places of generated documents, run side by side; non-trivial: all",
		genHaltCase, checkHalt, counts(128, 3600), workers(8, 8), limit(120*time.Second), shrinkTime(60*time.Second))
	register("C14", "3-10 lanes side by side, each of steps that end within the delay (scripts, callbacks, filters, failing ones, gaps) and take longer than the delay in total; non-trivial: all",
		genLaneCase, checkLanes, counts(32, 700), workers(8, 8), limit(180*time.Second), shrinkTime(90*time.Second))
}
