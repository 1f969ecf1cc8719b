package main

// C33: scripts and filters start from an environment of their own, whatever others have done to theirs.

import (
	"fmt"
	"strings"
	"sync"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

// Changes to an environment. None of them has anything to do with the document: json.trail is left alone, and so is
// what it takes to read it back.
var pollutions = []string{
	"leak_ = 1;",
	"this.leak_ = 1;",
	"eval('var leak_ = 1;');",
	"Object.prototype.leak_ = 1;",
	"Object.defineProperty(Object.prototype, 'leak_', {value: 1, enumerable: false});",
	"Array.prototype.leak_ = 1;",
	"Function.prototype.leak_ = 1;",
	"String.prototype.leak_ = 1;",
	"Number.prototype.leak_ = 1;",
	"Error.prototype.leak_ = 1;",
	"RegExp.prototype.leak_ = 1;",
	"Date.prototype.leak_ = 1;",
	"Object.leak_ = 1;",
	"Math.leak_ = 1;",
	"JSON.leak_ = 1;",
	"Array.prototype.map = function () { return ['leak']; };",
	"Array.prototype.sort = null;",
	"Array.prototype.push = function () { return 0; };",
	"delete Array.prototype.filter;",
	"String.prototype.trim = function () { return 'leak'; };",
	"String.prototype.replace = undefined;",
	"Math.max = function () { return 'leak'; };",
	"delete Math.min;",
	"Math.random = function () { return 7; };",
	"Math = undefined;",
	"Date = null;",
	"RegExp.prototype.test = function () { return 'leak'; };",
	"Number.prototype.toFixed = function () { return 'leak'; };",
	"Number.prototype.valueOf = function () { return 13; };",
	"parseInt = null;",
	"isNaN = function () { return 'leak'; };",
	"Error = function () { };",
	"Error.prototype.message = 'leak';",
	"RegExp = null;",
	"String = null;",
	"Number = function () { return 13; };",
	"Boolean = null;",
	"Function = null;",
	"Array = function () { return 'leak'; };",
	"Object = null;",
	"Object.keys = function () { return ['leak']; };",
	"Object.create = null;",
	"Object.prototype.hasOwnProperty = function () { return false; };",
	"Object.prototype.toString = function () { return 'leak'; };",
	"Function.prototype.call = null;",
	"Function.prototype.apply = null;",
	"Object.freeze(Array.prototype);",
	"Object.freeze(Object.prototype);",
	"Object.preventExtensions(Math);",
	"Object.seal(JSON);",
	"Object.preventExtensions(this);",
	"JSON.parse = function () { return 'leak'; };",
	"encodeURIComponent = decodeURIComponent = escape = unescape = null;",
	"setLeak_ = function () { }; function leakFn_() { } var leakVar_ = 2;",
	"Object.defineProperty(Object.prototype, 'n', {get: function () { return 'leak'; }, set: function () { }, configurable: true});",
	"Object.defineProperty(Array.prototype, '0', {set: function () { }, configurable: true});",
	"delete Object.defineProperty; delete Object.freeze;",
	"RegExp.prototype.exec = function () { return ['leak']; };",
	"String.fromCharCode = function () { return 'leak'; };",
	"String.prototype.split = Array.prototype.join = function () { return 'leak'; };",
	"eval = null;",
}

// ... to that of scripts only
var scriptPollutions = []string{
	"console.log = 'leak';",
	"console.leak_ = 1;",
	"console = null;",
	"delete console.error;",
	"json.leak_ = 1;",
	"json.jsonPathSelector = 'leak';",
	"json.scopePath = '$.leak';",
	"printlnExternal = null;",
	"Object.getPrototypeOf(json.jsonPathSelector('$')).leak_ = 1;",
	"json.jsonPathSelector.leak_ = 1;",
	"console.log.leak_ = 1;",
	"(function (t) { json = {trail: t, leak_: 1}; })(json.trail);",
	"Object.freeze(console);",
	"Object.freeze(printlnExternal);",
	"Object.getPrototypeOf(json).leak_ = 1;",
}

// Names what is not as it is in a new environment.
const probe = `(function () {
var bad = '', i, k, g = (function () { return this; })();
function want(name, ok) { if (!ok) { bad += name + ';'; } }
function test(name, f) { var ok = false; try { ok = f() === true; } catch (e) { name += '!' + e; } want(name, ok); }
test('names', function () { var n = Object.getOwnPropertyNames(g); for (var i = 0; i < n.length; i++) { if (/leak/i.test(n[i])) { return false; } } return true; });
test('for in', function () { for (var k in {}) { return false; } for (var k in []) { return false; } for (var k in function () { }) { return false; } return true; });
var all = [['object', {}], ['array', []], ['function', function () { }], ['string', ''], ['number', 1], ['error', new Error('x')], ['regexp', /a/], ['Object', Object], ['Math', Math], ['JSON', JSON], ['date', Date.prototype], ['global', g]];
for (i = 0; i < all.length; i++) { want(all[i][0], all[i][1].leak_ === undefined && all[i][1].n === undefined); }
test('sort', function () { return [3, 1, 2].sort().join() === '1,2,3'; });
test('map', function () { return [1, 2].map(function (x) { return x * 2; })[1] === 4; });
test('filter', function () { return [1, 2].filter(function (x) { return x > 1; }).length === 1; });
test('push', function () { var a = []; a.push(5, 6); return a.length === 2 && a[1] === 6; });
test('concat', function () { return [1].concat([2]).length === 2; });
test('element', function () { var a = []; a[0] = 5; return a[0] === 5; });
test('trim', function () { return ' a '.trim() === 'a'; });
test('split', function () { return 'a-b'.split('-').length === 2; });
test('replace', function () { return 'aXa'.replace('X', 'y') === 'aya'; });
test('Math', function () { return Math.max(1, 2) === 2 && Math.min(1, 2) === 1 && Math.random() < 1; });
test('numbers', function () { return parseInt('12px') === 12 && isNaN(NaN) === true && (1.25).toFixed(1).length === 3 && Number('4') === 4 && (5).valueOf() === 5; });
test('Date', function () { return new Date(0).getTime() === 0; });
test('RegExp', function () { return /^a/.test('ab') && !/^a/.test('b') && /b(.)/.exec('abc')[1] === 'c' && new RegExp('x').test('x'); });
test('Error', function () { return new Error('x').message === 'x' && new Error().message === '' && new TypeError('y') instanceof Error; });
test('String', function () { return String(1) === '1' && String.fromCharCode(65) === 'A' && Boolean(1) === true; });
test('Object', function () { return Object.keys({a: 1})[0] === 'a' && Object.create(null) !== null && ({a: 1}).hasOwnProperty('a') && Object.prototype.toString.call([]) === '[object Array]'; });
test('define', function () { var o = {}; Object.defineProperty(o, 'a', {value: 1}); return o.a === 1 && Object.isFrozen(Object.freeze({})); });
test('extensible', function () { return Object.isExtensible(Math) && Object.isExtensible(Array.prototype) && Object.isExtensible(Object.prototype) && Object.isExtensible(JSON) && Object.isExtensible(g); });
test('JSON', function () { return JSON.stringify({a: [1]}) === '{"a":[1]}' && JSON.parse('[1, 2]').length === 2; });
test('Function', function () { return (new Function('return 3'))() === 3 && (function () { return this.a; }).call({a: 1}) === 1 && Math.max.apply(null, [1, 2]) === 2; });
test('Array', function () { return new Array(3).length === 3 && Array.isArray([]); });
test('eval', function () { return eval('1 + 1') === 2; });
test('URI', function () { return encodeURIComponent(' ') === '%20' && decodeURIComponent('%20') === ' ' && escape(' ') === '%20' && unescape('%20') === ' '; });
`

const scriptProbe = probe + `
var f = json.jsonPathSelector, set = f('$');
test('json', function () { return json.leak_ === undefined && f.leak_ === undefined && set.leak_ === undefined && typeof f === 'function' && Object.isExtensible(json); });
test('json names', function () { var n = Object.keys(json).sort(); return n.length === 3 && n[0] === 'jsonPathSelector' && n[1] === 'scopePath' && n[2] === 'trail'; });
test('scope', function () { return json.scopePath === SCOPE; });
test('console', function () { return typeof console.log === 'function' && typeof console.error === 'function' && console.leak_ === undefined && console.log.leak_ === undefined && Object.isExtensible(console); });
test('printlnExternal', function () { return typeof printlnExternal === 'function' && Object.isExtensible(printlnExternal); });
return bad; })()`

const filterProbe = probe + "return bad === ''; })()"

// What a step (or a part of a script) does to its environment: an index into the lists above.
func pollution(n int) string {
	n %= len(pollutions) + len(scriptPollutions)
	if n < len(pollutions) {
		return attempt(pollutions[n])
	}
	return attempt(scriptPollutions[n-len(pollutions)])
}

// (one change can make another one impossible)
func attempt(js string) string { return "try { " + js + " } catch (e) { }" }

func quoteIn(s string) string { return jsLiteral(s) }

// The values that a filter judges in one container share its environment, so there is one value in each.
//
// A filter that always holds, or does if its environment is clean, and leaves it changed.
func worldFilter(probes bool, pol []int) string {
	body := "var ev_ = eval, ok_ = "
	if probes {
		body += filterProbe + "; "
	} else {
		body += "true; "
	}
	for _, n := range pol {
		body += "ev_(" + quoteIn(attempt(pollutions[n%len(pollutions)])) + "); "
	}
	// (what the filter is made of has no bearing on how far it extends: it is a string literal)
	return "[?((function () { return this; })().eval(" + quoteIn(body+" ok_") + "))]"
}

type worldScript struct {
	Object  int   `json:"object"`            // the how manieth object of the document (0: the root)
	Pollute []int `json:"pollute,omitempty"` // in the end
	Inside  []int `json:"inside,omitempty"`  // by a filter that the script uses before it looks at its own environment
	Late    bool  `json:"late,omitempty"`    // a filter of the script looks at its environment after the script has changed its own
	Throw   bool  `json:"throw,omitempty"`
	Check   int   `json:"check,omitempty"` // 0: the script itself 1: a filter in it
}

type worldStep struct {
	Kind    string        `json:"kind"` // eval run filter callback
	Doc     any           `json:"doc,omitempty"`
	Scripts []worldScript `json:"scripts,omitempty"`
	Pollute []int         `json:"pollute,omitempty"`
	Probe   bool          `json:"probe,omitempty"`
	Set     bool          `json:"set,omitempty"` // a filter in a path that is set
}

type worldCase struct {
	Steps    []worldStep `json:"steps"`
	Parallel bool        `json:"parallel,omitempty"`
}

func (s worldScript) source(i int, scope string) string {
	var b strings.Builder
	b.WriteString("#//!js\nvar SCOPE = " + quoteIn(scope) + ";\nvar ev_ = eval;\n") // (eval, so that nothing is declared before it is looked for)
	result := fmt.Sprintf("json.trail['~r%d']", i)
	if len(s.Inside) > 0 {
		fmt.Fprintf(&b, "if (json.jsonPathSelector(%s).getValues().length !== 1) { throw 'inside'; }\n", quoteIn("$.one_"+worldFilter(true, s.Inside)))
	}
	fmt.Fprintf(&b, "%s = %s;\n", result, scriptProbe)
	if s.Late {
		b.WriteString("var sel_ = json.jsonPathSelector;\n")
	}
	for _, n := range s.Pollute {
		b.WriteString("ev_(" + quoteIn(pollution(n)) + ");\n")
	}
	if s.Late {
		fmt.Fprintf(&b, "if (sel_(%s).getValues().length !== 1) { %s = 'late'; }\n", quoteIn("$.one_"+worldFilter(true, s.Pollute)), result)
	}
	if s.Throw {
		b.WriteString("throw 'thrown';\n")
	}
	return b.String()
}

// The objects of a document in the order in which they are visited, with their scope paths.
func objectsOf(v any, path string, f func(o obj, path string)) {
	switch x := v.(type) {
	case obj:
		f(x, path)
		for _, k := range sortedKeys(x) {
			objectsOf(x[k], path+"."+k, f)
		}
	case arr:
		for i, e := range x {
			objectsOf(e, fmt.Sprintf("%s.[%d]", path, i), f)
		}
	}
}

func (st worldStep) run() error {
	switch st.Kind {
	case "filter":
		j, err := load(obj{"n": arr{1.0}, "m": obj{"a": 1.0}})
		if err != nil {
			return err
		}
		for _, p := range []string{"$.n", "$.m"} {
			text := p + worldFilter(st.Probe, st.Pollute)
			if st.Set {
				if err := j.JsonPathSetter(text, 3); err != nil {
					return failf("setting %s fails: %v", text, err)
				}
				continue
			}
			nodes, err := j.JsonPathSelector(text)
			if err != nil {
				return failf("selecting %s fails: %v", text, err)
			}
			if len(nodes) != 1 {
				return failf("the environment of the filter %s is not clean: %d values selected", text, len(nodes))
			}
		}
		if st.Set {
			got, err := dump(j)
			if err != nil {
				return err
			}
			if want := (obj{"n": arr{3.0}, "m": obj{"a": 3.0}}); !same(got, any(want)) {
				return failf("the environment of the filter that is set through is not clean: %s", short(got))
			}
		}
		return nil
	case "callback":
		var inside error
		j := jom.New()
		(*j.GetInsides())["n"] = []interface{}{1.0}
		(*j.GetInsides())["script"] = func(j json_map.JsonMapInt) {
			nodes, err := j.JsonPathSelector("$.n" + worldFilter(st.Probe, st.Pollute))
			if err != nil {
				inside = failf("selecting within a callback fails: %v", err)
			} else if len(nodes) != 1 {
				inside = failf("the environment of a filter in a callback is not clean: %d values selected", len(nodes))
			}
		}
		if p := catch(j.Run); p != nil {
			return failf("Run panics: %v", p)
		}
		return inside
	}
	doc := clone(st.Doc)
	want := clone(st.Doc)
	// the scripts of the objects
	add := func(doc any, f func(o obj, i int, s worldScript, path string)) {
		var objs []obj
		var paths []string
		objectsOf(doc, "$", func(o obj, path string) { objs, paths = append(objs, o), append(paths, path) })
		for i, s := range st.Scripts {
			k := s.Object % len(objs)
			f(objs[k], i, s, paths[k])
		}
	}
	throws := false
	add(doc, func(o obj, i int, s worldScript, path string) {
		o["one_"] = arr{1.0}
		o[fmt.Sprintf("~s%d", i)] = s.source(i, path)
		throws = throws || s.Throw
	})
	add(want, func(o obj, i int, s worldScript, path string) {
		o["one_"] = arr{1.0}
		o[fmt.Sprintf("~r%d", i)] = ""
	})
	var got any
	var err error
	text := textOf(doc)
	if st.Kind == "run" {
		j, lerr := loadText(text)
		if lerr != nil {
			return lerr
		}
		if p := catch(j.Run); p != nil {
			err = fmt.Errorf("%v", p)
		} else if got, lerr = dump(j); lerr != nil {
			return lerr
		}
	} else {
		var b []byte
		if b, err = jom.Eval(text, false); err == nil {
			var jerr error
			if got, jerr = fromJSON(b); jerr != nil {
				return failf("Eval gives invalid JSON (%v): %s", jerr, short(b))
			}
		}
	}
	if throws {
		if err == nil {
			return failf("no error of the script that throws in %s", short(doc))
		}
		if !strings.Contains(err.Error(), "thrown") {
			return failf("not the error that the script throws but: %v", err)
		}
		return nil
	}
	if err != nil {
		return failf("evaluating fails: %v", err)
	}
	return wantSame("after evaluating in a clean environment", got, want)
}

func genWorldCase(t *rapid.T) worldCase {
	pol := func(label string, max int, script bool) (out []int) {
		n := len(pollutions)
		if script {
			n += len(scriptPollutions)
		}
		for k := irange(t, label, 0, max); k > 0; k-- {
			out = append(out, uniform(t, n))
		}
		return
	}
	c := worldCase{Parallel: chance(t, 25, "in parallel?")}
	for n := irange(t, "steps", 2, 5); n > 0; n-- {
		st := worldStep{Kind: oneOf(t, "kind", "eval", "eval", "run", "filter", "callback")}
		switch st.Kind {
		case "filter", "callback":
			st.Pollute = pol("filter changes", 4, false)
			st.Probe = chance(t, 80, "looks?")
			st.Set = chance(t, 30, "set?")
		default:
			st.Doc = genWorldDoc(t, 3)
			for k := irange(t, "scripts", 1, 4); k > 0; k-- {
				s := worldScript{Object: uniform(t, 8), Pollute: pol("changes", 4, true)}
				if chance(t, 25, "filter inside?") {
					s.Inside = pol("changes inside", 3, false)
				}
				s.Late = chance(t, 25, "filter late?")
				s.Throw = chance(t, 6, "throws?")
				st.Scripts = append(st.Scripts, s)
			}
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func genWorldDoc(t *rapid.T, depth int) obj {
	o := obj{}
	for k := irange(t, "members", 1, 3); k > 0; k-- {
		name := oneOf(t, "name", "a", "b", "c", "d")
		switch {
		case depth > 0 && chance(t, 40, "object?"):
			o[name] = genWorldDoc(t, depth-1)
		case depth > 0 && chance(t, 30, "array?"):
			a := arr{}
			for i := irange(t, "elements", 0, 2); i > 0; i-- {
				a = append(a, genWorldDoc(t, depth-1))
			}
			o[name] = a
		default:
			o[name] = float64(uniform(t, 10))
		}
	}
	return o
}

func checkWorld(c worldCase, x *Ctx) error {
	changes, probes := false, 0
	for _, st := range c.Steps {
		x.Tag(st.Kind)
		if st.Probe {
			probes++
		}
		changes = changes || len(st.Pollute) > 0
		for _, s := range st.Scripts {
			probes++
			changes = changes || len(s.Pollute)+len(s.Inside) > 0
			x.TagIf(len(s.Inside) > 0, "a filter in a script changes its environment")
			x.TagIf(s.Late, "a filter in a script that has changed its own")
			x.TagIf(s.Throw, "a script throws")
		}
	}
	if changes && probes > 1 {
		x.NonTrivial()
	}
	if !c.Parallel {
		for i, st := range c.Steps {
			if err := st.run(); err != nil {
				return failf("step %d: %v", i, err)
			}
		}
		return nil
	}
	x.Tag("in parallel")
	errs := make([]error, len(c.Steps))
	var wg sync.WaitGroup
	for i, st := range c.Steps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if p := catch(func() { errs[i] = st.run() }); p != nil {
				errs[i] = failf("panic: %v", p)
			}
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return failf("step %d: %v", i, err)
		}
	}
	return nil
}

func init() {
	register("C33", "2-5 evaluations and selections, one after the other or in parallel, whose scripts and filters change their environment in 75 ways and look for such changes; non-trivial: at least one changes it and at least two look",
		genWorldCase, checkWorld, counts(700, 30000), workers(4, 8), withRace())
}
