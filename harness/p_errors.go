package main

// C34: errors say what failed, where and why.

import (
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"time"

	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

// Ways to end a script with an exception, U standing for a unique word, and what is said about it.
var throwing = []struct {
	js   string
	want []string
}{
	{"throw 'U';", []string{"U"}},
	{"throw new Error('U');", []string{"Error: U"}},
	{"throw new TypeError('U');", []string{"TypeError: U"}},
	{"throw new RangeError('U');", []string{"RangeError: U"}},
	{"throw Error('U one two');", []string{"Error: U one two"}},
	{"throw {toString: function () { return 'U'; }};", []string{"U"}},
	{"throw ['U', 'x'];", []string{"U,x"}},
	{"throw {message: 'm', name: 'n', toString: function () { return this.name + '/U/' + this.message; }};", []string{"n/U/m"}},
	{"var e = new Error('U'); e.name = 'Special'; throw e;", []string{"U"}},
	{"U();", []string{"ReferenceError", "U"}},
	{"U;", []string{"ReferenceError", "U"}},
	{"null.U;", []string{"TypeError", "U"}},
	{"json.trail.noSuch_.U;", []string{"TypeError", "U"}},
	{"json.trail.U();", []string{"TypeError"}},
	{"json.jsonPathSelector('$.U.x').getValues();", []string{"(-6)", "U"}},
	{"json.jsonPathSelector('$.U.x').setValues(1);", []string{"(-6)", "U"}},
	{"json.jsonPathSelector('$[?(throw_ \"U\")]').getValues();", []string{"(-6)", "U"}},
	{"json.jsonPathSelector('$..U');json.jsonPathSelector('$.a[U]');", []string{"(-6)"}},
	{"(function f() { function g() { throw 'U'; } g(); })();", []string{"U"}},
	{"[1].forEach(function () { throw 'U'; });", []string{"U"}},
	{"'a'.replace(/a/, function () { throw 'U'; });", []string{"U"}},
	{"[2, 1].sort(function () { throw new Error('U'); });", []string{"Error: U"}},
	{"({get a() { throw 'U'; }}).a;", []string{"U"}},
	{"JSON.stringify({toJSON: function () { throw 'U'; }});", []string{"U"}},
	{"try { throw 'U'; } catch (e) { throw e; }", []string{"U"}},
	{"try { throw 'first'; } catch (e) { throw 'U'; }", []string{"U"}},
	{"try { throw 'first'; } finally { throw 'U'; }", []string{"U"}},
	{"try { null.x; } catch (e) { throw new Error('U: ' + e); }", []string{"Error: U: TypeError"}},
	{"try { throw 'U'; } finally { json.trail.x_ = 1; }", []string{"U"}},
	{"eval('throw \"U\"');", []string{"U"}},
	{"new Function('throw \"U\"')();", []string{"U"}},
	{"(function () { return this; })().U();", []string{"TypeError"}},
	{"console.log({get a() { throw 'U'; }});", []string{"U"}},
	{"printlnExternal('before'); throw 'U';", []string{"U"}},
	{"json.trail.x_ = 1; throw 'U';", []string{"U"}},
	{"json.trail = null; throw 'U';", []string{"U"}},
	{"json.scopePath = '$.elsewhere'; throw 'U';", []string{"U"}},
	{"json.scopePath = 5; throw 'U';", []string{"U"}},
	{"throw 'U 100% %s %d %v %!';", []string{"U 100% %s %d %v %!"}},
	{"throw 'U \\u00e9 \\u65e5 ' + String.fromCharCode(9) + 'x';", []string{"U é 日 \tx"}},
	{"throw 'U\\nsecond line';", []string{"U\nsecond line"}},
	{"throw 'U (-5) The following script has caused an error: x';", []string{"U (-5) The following script has caused an error: x"}},
	{"throw 4711;", []string{"4711"}},
	{"throw new Array(500).join('U;');", []string{strings.Repeat("U;", 499)}},
	{"throw new Error('U' + new Array(3000).join(' ') + 'U' + new Array(90).join('\\n') + 'end');", []string{"Error: U" + strings.Repeat(" ", 2999) + "U" + strings.Repeat("\n", 89) + "end"}},
	{"throw Object.create(null);", nil},
	{"throw {toString: function () { throw 'U'; }};", nil},
	{"throw {U: 1, toString: null, valueOf: null};", nil},
	{"[1].map(function () { throw {toString: function () { return {}; }, valueOf: function () { return []; }}; });", nil},
	{"json.trail.toJSON = function () { throw 'U'; };", []string{"U"}},
	{"json.trail.toJSON = function () { throw Object.create(null); };", nil},
	{"json.trail.toJSON = function () { return 'U'; };", nil},
	{"Object.defineProperty(json.trail, 'g', {enumerable: true, get: function () { throw new Error('U'); }});", []string{"Error: U"}},
	{"json.trail.a_ = {toJSON: function () { throw new TypeError('U'); }};", []string{"TypeError: U"}},
	{"json.trail.self_ = {U: json.trail};", []string{"TypeError"}},
	{"json.trail = 5;", nil},
	{"json.trail = 'U';", nil},
	{"json.trail = [1, {U: 2}];", nil},
	{"json.trail = undefined;", nil},
	{"json.trail = function () { };", nil},
	{"json = null;", []string{"TypeError"}},
	{"json = {U: 1};", nil},
	{"JSON.stringify = function () { throw 'U'; };", []string{"U"}},
	{"JSON = {};", []string{"TypeError"}},
	{"throw -1.5;", []string{"-1.5"}},
	{"throw true;", []string{"true"}},
	{"decodeURIComponent('%U');", []string{"URIError"}},
	{"new Array(-1);", []string{"RangeError"}},
	{"(function f() { f(); })();", []string{"RangeError"}},
	{"JSON.parse('{U');", []string{"SyntaxError"}},
	{"eval('{');", []string{"SyntaxError"}},
	{"'x' in 'U';", []string{"TypeError"}},
	{"var U = {; // a syntax error", []string{"Line"}},
}

var loneU = regexp.MustCompile(`\bU\b`)

// Lines that may precede and follow the failing statement.
var paddings = []string{
	"// note %s %d %v %!x(MISSING) 100%",
	"/* two\n   lines */",
	"var a = 1;",
	"// ```",
	"// é 日本 😀 \"quoted\" 'single' \\n \\",
	"",
	"\tvar tabbed = 1;",
	"try { throw 'caught_'; } catch (e) { }",
	"// script <$.other>:",
	"// (-6) A JSON path could not be evaluated for the following reason(s): ",
	"json.trail.p_ = [1, {a: 2}];",
	"// #//!js",
	"// " + strings.Repeat("a long line that goes on ", 60),
	strings.Repeat("var many = [1, 2, 3];\n", 90) + "// the last of many",
	"#//!js",
}

type errScript struct {
	At     int   `json:"at"` // the how manieth object of the document
	Kind   int   `json:"kind,omitempty"`
	Before []int `json:"before,omitempty"`
	After  []int `json:"after,omitempty"`
	Key    int   `json:"key"`
}

type errCase struct {
	Kind   string      `json:"kind"` // throw halt console lang path filter markup callback
	Doc    any         `json:"doc,omitempty"`
	Bad    errScript   `json:"bad,omitempty"`
	Good   []errScript `json:"good,omitempty"`
	Via    string      `json:"via,omitempty"` // eval run cli
	Word   string      `json:"word"`
	Path   int         `json:"path,omitempty"`
	Set    bool        `json:"set,omitempty"`
	Filter int         `json:"filter,omitempty"`
}

var errKeys = []string{"a", "k", "key", "two_words", "x1", "é", "日本", "K", "zz", "%d", "100%", "a b"}

func genErrDoc(t *rapid.T, depth int) obj {
	o := obj{}
	for k := irange(t, "members", 1, 3); k > 0; k-- {
		name := sample(t, "name", errKeys)
		switch {
		case depth > 0 && chance(t, 45, "object?"):
			o[name] = genErrDoc(t, depth-1)
		case depth > 0 && chance(t, 45, "array?"):
			a := arr{}
			for i := irange(t, "elements", 0, 2); i > 0; i-- {
				switch uniform(t, 3) {
				case 0:
					a = append(a, arr{genErrDoc(t, depth-1), 5.0})
				case 1:
					a = append(a, "text")
				}
				a = append(a, genErrDoc(t, depth-1))
			}
			o[name] = a
		default:
			o[name] = float64(uniform(t, 10))
		}
	}
	return o
}

func genErrCase(t *rapid.T) errCase {
	c := errCase{Kind: oneOf(t, "kind", "throw", "throw", "throw", "throw", "throw", "throw", "console", "lang", "path", "path", "filter", "markup")}
	if chance(t, 1, "halting?") {
		c.Kind = oneOf(t, "how", "halt", "halt filter", "callback", "deep filter", "deep filter")
	}
	c.Word = oneOf(t, "word", "Quux", "zork7", "needle", "_w") + fmt.Sprint(uniform(t, 100))
	pads := func() (out []int) {
		for n := irange(t, "lines", 0, 3); n > 0; n-- {
			out = append(out, uniform(t, len(paddings)-1)) // (the last one is a syntax error)
		}
		return
	}
	switch c.Kind {
	case "path", "filter", "markup", "halt filter", "deep filter":
		c.Path, c.Filter = uniform(t, 1000), uniform(t, 1000)
		c.Set = chance(t, 40, "set?")
		return c
	}
	c.Doc = genErrDoc(t, 4)
	c.Via = oneOf(t, "via", "eval", "eval", "eval", "run", "verbose")
	if chance(t, 4, "command line?") && c.Kind != "callback" {
		c.Via = "cli"
	}
	c.Bad = errScript{At: uniform(t, 40), Kind: uniform(t, len(throwing)), Before: pads(), After: pads(), Key: uniform(t, 5)}
	for n := irange(t, "others", 0, 4); n > 0; n-- {
		c.Good = append(c.Good, errScript{At: uniform(t, 40), Before: pads(), Key: uniform(t, 5)})
	}
	return c
}

func lines(ns []int) string {
	var b strings.Builder
	for _, n := range ns {
		b.WriteString(paddings[n%len(paddings)] + "\n")
	}
	return b.String()
}

// Everything in want has to be part of the error.
func says(what string, err error, want ...string) error {
	if err == nil {
		return failf("%s: no error", what)
	}
	for _, w := range want {
		if !strings.Contains(err.Error(), w) {
			return failf("%s: the error does not tell %q: %v", what, w, err)
		}
	}
	return nil
}

func checkErrors(c errCase, x *Ctx) error {
	x.Tag(c.Kind)
	switch c.Kind {
	case "path":
		return checkPathError(c, x)
	case "filter", "halt filter", "deep filter":
		return checkFilterError(c, x)
	case "markup":
		lang := oneOfBy(c.Path, "py", "JS", "42", "", "javascript", "j", c.Word)
		doc := jom.New()
		if err := doc.Unmarshal([]byte(`{"a": 1}`)); err != nil {
			return err
		}
		x.NonTrivial()
		return says("marking up with the language "+lang, doc.MarkupCode("$.s", lang, "x"), "(-2)", lang)
	}
	doc := clone(c.Doc)
	var objs []obj
	var paths []string
	objectsOf(doc, "$", func(o obj, path string) { objs, paths = append(objs, o), append(paths, path) })
	at := c.Bad.At % len(objs)
	scope := paths[at]
	shebang, source, want := "#//!js\n", "", []string{}
	switch c.Kind {
	case "throw":
		k := throwing[c.Bad.Kind%len(throwing)]
		source = lines(c.Bad.Before) + loneU.ReplaceAllString(k.js, c.Word) + "\n" + strings.TrimSuffix(lines(c.Bad.After), "\n")
		want = append(want, "(-5)")
		for _, w := range k.want {
			want = append(want, loneU.ReplaceAllString(w, c.Word))
		}
		x.Tag(k.js)
	case "halt":
		source = lines(c.Bad.Before) + "while (true) { }\n" + lines(c.Bad.After)
		want = append(want, "(-1)")
	case "console":
		source = lines(c.Bad.Before) + "json.scopePath = " + oneOfBy(c.Bad.Kind, "5", "null", "undefined", "{}", "true", "['$']") + ";\n" + oneOfBy(c.Bad.Key, "console.log('x');", "console.error('x');")
		want = append(want, "(-4)", "json.scopePath")
	case "lang":
		lang := oneOfBy(c.Bad.Kind, "py", "rb", "JS", "42", "é", "..", "j ", "sj")
		shebang, source = "#//!"+lang+"\n", lines(c.Bad.Before)+c.Word+"\n"+lines(c.Bad.After)
		want = append(want, "(-2)", lang, "```\n"+source+"\n```")
	}
	if c.Kind == "throw" || c.Kind == "halt" {
		want = append(want, "script <"+scope+">:\n```\n"+source+"\n```")
	}
	objs[at]["s"+fmt.Sprint(c.Bad.Key)+"bad"] = shebang + source
	var others []string
	for i, g := range c.Good {
		other := fmt.Sprintf("innocent_%d_", i)
		others = append(others, other)
		objs[g.At%len(objs)][fmt.Sprintf("s%d%d", g.Key, i)] = "#//!js\n" + lines(g.Before) + "json.trail." + other + " = 1;"
	}
	x.TagIf(scope != "$", "nested scope")
	x.TagIf(strings.Contains(scope, "["), "scope in an array")
	x.TagIf(len(others) > 0, "among others")
	x.Tag("via " + c.Via)
	if len(others) > 0 || scope != "$" {
		x.NonTrivial()
	}
	text := textOf(doc)
	what := "evaluating " + short(string(text))
	var err error
	if c.Kind == "halt" || c.Kind == "callback" {
		defer func(n int) { globals.HaltingDelay = n }(globals.HaltingDelay)
		globals.HaltingDelay = 1
	}
	switch {
	case c.Kind == "callback":
		delete(objs[at], "s"+fmt.Sprint(c.Bad.Key)+"bad")
		j, lerr := load(c.Doc)
		if lerr != nil {
			return lerr
		}
		stop := make(chan bool)
		defer close(stop)
		var objs []obj
		objectsOf((*j.GetInsides()), "$", func(o obj, path string) { objs = append(objs, o) })
		objs[at]["s"] = func(json_map.JsonMapInt) { <-stop }
		p := catch(j.Run)
		if p == nil {
			return failf("no panic of a callback that does not end")
		}
		return says("a callback that does not end", fmt.Errorf("%v", p), "(-1)", "script <"+scope+">")
	case c.Via == "run":
		j, lerr := loadText(text)
		if lerr != nil {
			return lerr
		}
		captured(func() {
			if p := catch(j.Run); p != nil {
				err = fmt.Errorf("%v", p)
			}
		})
	case c.Via == "cli":
		if cliBin == "" {
			return skip("no command line")
		}
		dir, derr := os.MkdirTemp("", "pbt-err-")
		if derr != nil {
			return derr
		}
		defer os.RemoveAll(dir)
		if derr = os.WriteFile(dir+"/in.json", text, 0o600); derr != nil {
			return derr
		}
		cmd := exec.Command(cliBin, "eval", "-files", "in.json")
		cmd.Dir = dir
		out, rerr := cmd.CombinedOutput()
		if rerr == nil {
			return failf("%s: the command line succeeds: %s", what, out)
		}
		err = fmt.Errorf("%s", out)
		what = "the command line, " + what
	default:
		captured(func() {
			quiet(func() { _, err = jom.Eval(text, c.Via == "verbose") })
		})
	}
	if e := says(what, err, want...); e != nil {
		return e
	}
	for _, o := range others {
		if strings.Contains(err.Error(), o) {
			return failf("%s: the error names another script (%s): %v", what, o, err)
		}
	}
	return nil
}

// What json-dom prints itself when it is verbose does not matter here.
func quiet(f func()) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		f()
		return
	}
	defer null.Close()
	defer func(o *os.File) { os.Stdout = o }(os.Stdout)
	os.Stdout = null
	f()
}

func checkPathError(c errCase, x *Ctx) error {
	n := c.Path / 20
	var path string
	var want []string
	doc := obj{"a": obj{"b": arr{1.0, 2.0}, "c": obj{"d": 5.0}}, "n": 5.0, "e": arr{}}
	switch c.Path % 12 {
	case 0:
		path, want = "$."+c.Word+"."+c.Word+"2", []string{c.Word}
	case 1:
		path, want = "$.a.c."+c.Word+"."+c.Word, []string{c.Word}
	case 2:
		path, want = fmt.Sprintf("$.a.b[%d]", 2+n), []string{fmt.Sprint(2 + n)}
	case 3:
		path, want = fmt.Sprintf("$.a.b[-%d]", 3+n), nil
	case 4:
		path, want = "$.n."+c.Word, nil
	case 5:
		path, want = fmt.Sprintf("$.n[%d]", n), nil
	case 6:
		path, want = fmt.Sprintf("$.a.c[%d]", n), nil
	case 7:
		path, want = fmt.Sprintf("$.e[%d]", n), []string{fmt.Sprint(n)}
	case 8:
		path, want = "$.a.b[:]", nil
	case 9:
		path, want = "$.a["+c.Word+"]", nil
	case 10:
		path, want = "$.a.b[1].x."+c.Word, nil
	case 11:
		path, want = "$.a."+c.Word+"[0]", nil
	}
	x.NonTrivial()
	x.TagIf(c.Set, "set")
	j, err := load(doc)
	if err != nil {
		return err
	}
	want = append(want, "(-6)")
	if c.Set {
		return says("setting "+path, j.JsonPathSetter(path, 1), want...)
	}
	_, err = j.JsonPathSelector(path)
	return says("selecting "+path, err, want...)
}

func checkFilterError(c errCase, x *Ctx) error {
	x.NonTrivial()
	expr, want := "", []string{"(-6)"}
	w := c.Word
	switch c.Filter % 11 {
	case 0:
		expr, want = "(function () { throw new Error('"+w+"') })()", append(want, "Error: "+w)
	case 1:
		expr, want = w+"()", append(want, "ReferenceError")
	case 2:
		expr, want = "null."+w, append(want, "TypeError")
	case 3:
		expr, want = "(function () { throw '"+w+" 100% %s' })()", append(want, w+" 100% %s")
	case 4:
		expr = w + " === {"
	case 5:
		expr, want = "(function () { throw {toString: function () { return '"+w+"' }} })()", append(want, w)
	case 6:
		expr, want = "(function () { '"+w+"'; return new Array(-1) })()", append(want, "RangeError")
	case 7:
		expr = "(function () { '" + w + "'; throw Object.create(null) })()"
	case 8:
		expr = "(function () { throw {toString: function () { throw '" + w + "' }} })()"
	case 9:
		expr = "(function () { throw {" + w + ": 1, toString: null, valueOf: null} })()"
	case 10:
		expr = "(function () { '" + w + "'; throw {toString: function () { return {} }, valueOf: function () { return [] }} })()"
	}
	if c.Kind == "halt filter" {
		expr, want = "(function () { '"+w+"'; while (true) {} })()", append(want[:1:1], "(-1)")
	}
	if c.Kind == "deep filter" {
		expr, want = "(function f(n) { '"+w+"'; return f(n + 1) + 1 })(0)", append(want[:1:1], "RangeError")
	}
	want = append(want, expr)
	path := oneOfBy(c.Path, "$.n", "$.m", "$.m.o", "$.n[0]") + "[?(" + expr + ")]" + oneOfBy(c.Path/7, "", ".x", "[0]")
	j, err := load(obj{"n": arr{arr{1.0}, 2.0}, "m": obj{"o": obj{"a": 1.0}}})
	if err != nil {
		return err
	}
	x.TagIf(c.Set, "set")
	// (recursion without an end takes a tenth of the second that a filter has, which may pass on a busy machine)
	for n := 0; ; n++ {
		if c.Set {
			err = j.JsonPathSetter(path, 1)
			err = says("setting "+path, err, want...)
		} else {
			_, err = j.JsonPathSelector(path)
			err = says("selecting "+path, err, want...)
		}
		if err == nil || c.Kind != "deep filter" || n == 8 {
			return err
		}
	}
}

func init() {
	register("C34", "one of: a generated document with a script that fails in one of 70 ways (throws, does not end, is in an unsupported language, breaks the console) at a generated object, alone or among others, through Eval, Run or the command line; a path that cannot be taken; a filter that fails; a markup in an unsupported language; non-trivial: the failing script is nested or among others, or it is no script",
		genErrCase, checkErrors, counts(4000, 150000), workers(4, 8), needCLI(), limit(60*time.Second))
}
