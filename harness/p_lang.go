package main

// C35: evaluation does not depend on how the document is written. C36: languages that are registered.

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------------------------------------ C35

type spellCase struct {
	Doc   any      `json:"doc"`
	Texts []string `json:"texts"`
	Edit  string   `json:"edit,omitempty"` // a path that is set before evaluating
	Raw   bool     `json:"raw,omitempty"`  // the scripts are hostile ones, only evaluated
}

// Writes down the order in which a script sees the members of its scope, and prints them.
const orderProbe = "(function () { var o = ''; (function w(v) { for (var k in v) { o += k + ';'; if (v[k] !== null && typeof v[k] === 'object') { w(v[k]); } } })(json.trail); " +
	"o += JSON.stringify(json.trail, function (k, v) { return typeof v === 'string' ? v.length : v; }).length + Object.keys(json.trail).join('|'); json.trail.order_%d = o; console.log(json.trail); })();"

// Documents with hostile scripts, which may fail: then with the same error each time.
func genRawSpellCase(t *rapid.T) spellCase {
	doc, err := fromJSON(genHostileDoc(t))
	if err != nil {
		t.Fatalf("%v", err)
	}
	if chance(t, 40, "several?") {
		d := obj{}
		for n := irange(t, "documents", 2, 4); n > 0; n-- {
			part, err := fromJSON(genHostileDoc(t))
			if err != nil {
				t.Fatalf("%v", err)
			}
			d[sample(t, "at", []string{"a", "b", "zz", "", "A1"})] = part
		}
		if chance(t, 30, "unsupported?") {
			d["m"] = obj{"x": "#//!xx\n1", "y": obj{"x": "#//!yy\n2"}, "z": arr{obj{"w": "#//!zz\n3"}}}
		}
		doc = d
	}
	if chance(t, 60, "failing selectors?") {
		doc = withSelectors(t, doc)
	}
	c := spellCase{Raw: true, Doc: doc, Texts: []string{mustJSON(doc)}}
	for n := irange(t, "spellings", 2, 4); n > 0; n-- {
		w := &writer{t: t, hjson: chance(t, 30, "hjson?")}
		w.value(doc)
		c.Texts = append(c.Texts, w.b.String())
	}
	return c
}

// Adds a script whose selectors can fail at several places of its scope, and keeps the errors.
func withSelectors(t *rapid.T, doc any) any {
	_, isArr := doc.(arr)
	var ps [][]any
	var names []string
	times := map[string]int{}
	objects(rootOf(doc), nil, func(p []any) {
		if v, ok := lookAt(rootOf(doc), p); ok && !(isArr && len(p) == 0) && size(v) > 3 {
			ps = append(ps, p)
		}
		v, _ := lookAt(rootOf(doc), p)
		for _, k := range sortedKeys(v.(obj)) {
			if times[k]++; isPathKey(k) && times[k] == 1 {
				names = append(names, "."+k)
			} else if isPathKey(k) {
				names = append(names, ".."+k, ".."+k, ".."+k)
			}
		}
	})
	if len(ps) == 0 {
		return doc
	}
	var b strings.Builder
	b.WriteString("#//!js\n")
	for n := irange(t, "selectors", 1, 5); n > 0; n-- {
		path := "$"
		for k := oneOf(t, "steps", 1, 1, 2, 3); k > 0; k-- {
			path += sample(t, "step", append(names, ".*", ".*", "..a", "..b", "..k"))
		}
		path += sample(t, "last step", []string{".no.no", "[7]", "[0]", ".*.*", "....", "[?(@.a.b)]", "[*][*]", ".a", ".*[0]", "[?(no)].a", ".a.a", "[1:]"})
		use := oneOf(t, "use", "setValues(1)", "setValues([n_])", "getValues()", "setValues(null)")
		fmt.Fprintf(&b, "try { var n_ = json.jsonPathSelector(%s); json.trail.r%d = n_.%s; } catch (e) { json.trail.c%d = '' + e; }\n", jsLiteral(path), n, use, n)
	}
	if d, ok := withAt(doc, sample(t, "at", ps), "q_", b.String()); ok {
		return d
	}
	return doc
}

func checkRawSpell(c spellCase, x *Ctx) error {
	guard := &copyGuard{depths: map[string]map[int]bool{}}
	code.RegisterLang("js", guard.run)
	defer code.RegisterLang("js", js.RunScript)
	globals.HaltingDelay = 1
	x.Tag("hostile scripts")
	first, firstText := "", ""
	for i, text := range append([]string{c.Texts[0]}, c.Texts...) {
		var b []byte
		var err error
		o, e := captured(func() { b, err = jom.Eval([]byte(text), false) })
		if guard.fired {
			return skip("known finding: a script copies itself")
		}
		outcome := string(b)
		if err != nil {
			outcome = "error " + err.Error()
			if strings.Contains(outcome, "(-1)") {
				return skip("does not end")
			}
		}
		if strings.Contains(outcome+o+e, "�") {
			return skip("text that is no Unicode, which Hjson spells in other ways")
		}
		outcome += "\nstandard output:\n" + o + "\nerror output:\n" + e
		if i == 0 {
			first, firstText = outcome, text
			x.TagIf(err != nil, "fails")
			x.NonTrivial()
		} else if outcome != first {
			return failf("evaluating two spellings of one document differs:\n%s\nfor %s\n%s\nfor %s", first, firstText, outcome, text)
		}
	}
	return nil
}

func genSpellCase(t *rapid.T) spellCase {
	if chance(t, 40, "hostile?") {
		return genRawSpellCase(t)
	}
	o := scriptOpts{max: 6, log: true, ops: 3, doc: docOpts{depth: 3, width: 5, plain: true, odd: 10}, arrays: 12, nest: true}
	doc, _ := genScriptDoc(t, o)
	doc = noMinusZero(norm(doc))
	var mark func(v any)
	mark = func(v any) {
		switch x := v.(type) {
		case obj:
			if isS(x) {
				s := scriptOf(x)
				ops := []Op{}
				for _, op := range s.Ops { // (copies are made with JSON.parse, which has an order of its own)
					if op.K != "copy" {
						mark(op.V)
						ops = append(ops, op)
					}
				}
				s.Ops = ops
				if chance(t, 70, "order?") {
					s.Post = fmt.Sprintf(orderProbe, s.ID)
				}
				x["@S"] = *s
				return
			}
			for _, k := range sortedKeys(x) {
				mark(x[k])
			}
		case arr:
			for _, e := range x {
				mark(e)
			}
		}
	}
	mark(doc)
	c := spellCase{Doc: doc, Texts: []string{string(textOf(doc))}}
	if chance(t, 30, "edit?") {
		if root, ok := doc.(obj); ok {
			if k, ok := existingKey(t, root); ok && isPathKey(k) && !isS(root[k]) {
				c.Edit = "$." + k
			}
		}
	}
	for n := irange(t, "spellings", 1, 4); n > 0; n-- {
		w := &writer{t: t, hjson: chance(t, 50, "hjson?")}
		w.value(renderDoc(doc))
		c.Texts = append(c.Texts, w.b.String())
	}
	return c
}

func noMinusZero(v any) any {
	switch x := v.(type) {
	case obj:
		for k, e := range x {
			x[k] = noMinusZero(e)
		}
	case arr:
		for i, e := range x {
			x[i] = noMinusZero(e)
		}
	case float64:
		if x == 0 && math.Signbit(x) {
			return 0.0
		}
	}
	return v
}

func checkSpell(c spellCase, x *Ctx) error {
	if c.Raw {
		return checkRawSpell(c, x)
	}
	_, log, merr := modelRun(c.Doc, false)
	if merr != nil {
		return merr
	}
	tagLog(x, log)
	if len(log) > 0 && size(c.Doc) > 3 {
		x.NonTrivial()
	}
	x.TagIf(c.Edit != "", "edited before")
	// what is done with the document: name and text
	type out struct{ what, text string }
	outcomes := func(text string) (outs []out, err error) {
		add := func(what, text string) { outs = append(outs, out{what, text}) }
		var b []byte
		o, e := captured(func() { b, err = jom.Eval([]byte(text), false) })
		if err != nil {
			return nil, failf("Eval: %v", err)
		}
		add("Eval", string(b))
		add("the console", o+"\n"+e)
		for _, how := range []string{"", "strip", "run", "clone"} {
			j, err := loadText([]byte(text))
			if err != nil {
				return nil, err
			}
			if c.Edit != "" {
				if err := j.JsonPathSetter(c.Edit, obj{"z": 1.0, "b": arr{2.0}, "a": nil}); err != nil {
					return nil, failf("setting %s: %v", c.Edit, err)
				}
			}
			var m json_map.JsonMapInt = j
			switch how {
			case "strip":
				j.Strip()
			case "run":
				var p any
				captured(func() { p = catch(j.Run) })
				if p != nil {
					return nil, failf("Run: %v", p)
				}
			case "clone":
				m = j.Clone(false)
			}
			if b, err = m.Marshal(); err != nil {
				return nil, failf("Marshal: %v", err)
			}
			add("Marshal "+how, string(b))
			add("String "+how, m.String())
		}
		return
	}
	first, err := outcomes(c.Texts[0])
	if err != nil {
		return failf("%v; document %s", err, c.Texts[0])
	}
	for _, text := range append([]string{c.Texts[0]}, c.Texts[1:]...) {
		again, err := outcomes(text)
		if err != nil {
			return failf("%v; document %s, another spelling of %s", err, text, c.Texts[0])
		}
		for i := range first {
			if first[i] != again[i] {
				return failf("%s differs for two spellings of one document:\n%s\nfor %s\n%s\nfor %s", first[i].what, first[i].text, c.Texts[0], again[i].text, text)
			}
		}
	}
	return nil
}

// ------------------------------------------------------------------------------------------------ C36

type langCase struct {
	Doc   any      `json:"doc"`
	Langs []string `json:"langs"`           // that are registered
	Which []int    `json:"which"`           // the language of script ID modulo its length: an index into Langs, or -1 for Javascript
	Fresh []bool   `json:"fresh,omitempty"` // likewise: the runner gives a new map, and leaves the given one alone
	Fail  int      `json:"fail,omitempty"`  // one more than the script that fails
	How   string   `json:"how,omitempty"`   // in which way
	Via   string   `json:"via"`             // eval run strip markup
	Again bool     `json:"again,omitempty"` // the languages had other runners before
	Late  bool     `json:"late,omitempty"`  // registered after the document was loaded
	Text  string   `json:"text,omitempty"`  // the script that is marked up
}

var langNames = []string{"zz", "lu", "Go", "JS2", "é", "q1", "..", "日", "LU", "x ", "#!", "a\t", "\"'"}

// (by bytes; a language that is no two bytes long cannot be written in a shebang)
func isTwoBytes(s string) bool { return len(s) == globals.LongestSupportedScriptTagLen }

func (c langCase) lang(id int) string {
	n := c.Which[id%len(c.Which)]
	if n < 0 {
		return "js"
	}
	return c.Langs[n%len(c.Langs)]
}

func (c langCase) render(v any) any {
	switch x := v.(type) {
	case obj:
		if isS(x) {
			s := scriptOf(x)
			if lang := c.lang(s.ID); lang != "js" {
				return globals.ShebangPrefix + lang + "\n" + c.source(s)
			}
			r := *s
			r.Ops = append([]Op{}, s.Ops...)
			for i, op := range r.Ops {
				r.Ops[i].V = c.render(op.V)
			}
			if s.ID+1 == c.Fail {
				r.Fail, r.At = "throw error", len(r.Ops)
			}
			return r.source()
		}
		m := obj{}
		for k, e := range x {
			m[k] = c.render(e)
		}
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = c.render(e)
		}
		return a
	}
	return v
}

func (c langCase) source(s *Script) string {
	return s.Pre + "do " + strconv.Itoa(s.ID) + "\n" + oneOfBy(s.Form, "", "#//!js\n", "\n\nmore %s %d", "é 日本 \\n \"'`", "\t", "// x\n#//!zz\n", "''' '", "end\n\n") + s.Post
}

var errGiven = errors.New("given up 100% %s by the runner")

func genLangCase(t *rapid.T) langCase {
	o := scriptOpts{max: 7, log: true, ops: 3, doc: scriptDocOpts, arrays: 12, nest: true}
	doc, _ := genScriptDoc(t, o)
	c := langCase{Doc: doc, Via: oneOf(t, "via", "eval", "eval", "run", "run", "strip", "markup")}
	for n := irange(t, "languages", 1, 3); n > 0; n-- {
		name := sample(t, "name", langNames)
		if isTwoBytes(name) {
			c.Langs = append(c.Langs, name)
		}
	}
	if len(c.Langs) == 0 {
		c.Langs = []string{"zz"}
	}
	for n := irange(t, "which", 1, 5); n > 0; n-- {
		c.Which = append(c.Which, irange(t, "language", -1, len(c.Langs)-1))
		c.Fresh = append(c.Fresh, chance(t, 50, "fresh?"))
	}
	c.Again = chance(t, 20, "another runner before?")
	c.Late = chance(t, 20, "late?")
	if chance(t, 20, "fails?") {
		c.Fail = irange(t, "failing", 1, 6)
		c.How = oneOf(t, "how", "error", "error", "data and error", "panic")
	}
	c.Text = oneOf(t, "text", "", "x", "do 1\n", "two\nlines", "#//!js\n", "é 日本\n\n", "'''", " \t", "100% %s")
	return c
}

func checkLang(c langCase, x *Ctx) error {
	scripts := map[int]*Script{}
	other := 0
	walkScripts(c.Doc, func(s *Script) {
		scripts[s.ID] = s
		if c.lang(s.ID) != "js" {
			other++
		}
	})
	if c.Via == "markup" {
		return c.checkMarkup(x)
	}
	_, log, merr := modelRun(c.Doc, false)
	if merr != nil {
		return merr
	}
	if duplicates(log) {
		return skip("a script was copied")
	}
	var rec recorder
	runner := func(lang string) func(code.Code, json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		return func(given code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
			src, ok := given.Script.(string)
			if !ok {
				return nil, failf("the runner of %q is given %T", lang, given.Script)
			}
			if got := given.ScriptLangShebang(); got != lang {
				return nil, failf("the runner of %q is given a script in %q", lang, got)
			}
			i := strings.Index(src, "do ")
			id := 0
			if i >= 0 {
				id, _ = strconv.Atoi(strings.SplitN(src[i+3:], "\n", 2)[0])
			}
			s := scripts[id]
			if s == nil || src != c.source(s) {
				return nil, failf("the runner of %q is given the source %q", lang, src)
			}
			if c.lang(id) != lang {
				return nil, failf("the runner of %q is given script %d, which is in %q", lang, id, c.lang(id))
			}
			rec.add(id, j.GetCurrentScopePath())
			scope := *j.GetInsides()
			fresh := c.Fresh[id%len(c.Fresh)]
			if fresh {
				scope = clone(scope).(obj)
			}
			var err error
			for _, op := range s.Ops {
				op.V = c.render(op.V)
				if scope, err = applyOp(scope, op, ""); err != nil {
					return nil, err
				}
			}
			out := j
			if fresh {
				out = jom.NewFromMap(scope)
			} else {
				*j.GetInsides() = scope
			}
			if id+1 == c.Fail {
				switch c.How {
				case "panic":
					panic(errGiven)
				case "error":
					return nil, errGiven
				}
				return out, errGiven
			}
			return out, nil
		}
	}
	registerAll := func() {
		for _, lang := range c.Langs {
			if c.Again {
				code.RegisterLang(lang, func(code.Code, json_map.JsonMapInt) (json_map.JsonMapInt, error) {
					return nil, failf("the former runner of %q is used", lang)
				})
			}
			code.RegisterLang(lang, runner(lang))
		}
	}
	x.Tag(c.Via)
	tagLog(x, log)
	x.TagIf(c.Again, "registered again")
	x.TagIf(c.Late, "registered late")
	x.TagIf(other > 0 && other < len(scripts), "mixed with Javascript")
	if other > 0 && len(log) > 0 {
		x.NonTrivial()
	}
	text := []byte(mustJSON(c.render(c.Doc)))
	what := "evaluating " + short(string(text))
	if !c.Late {
		registerAll()
	}
	if c.Via == "strip" {
		j, err := loadText(text)
		if err != nil {
			return err
		}
		registerAll()
		if found := j.FindScriptFields(); found != (containsScriptPair(c.Doc)) {
			return failf("FindScriptFields() is %v for %s", found, text)
		}
		j.Strip()
		got, err := dump(j)
		if err != nil {
			return err
		}
		return wantSame("stripping "+string(text), got, norm(elementsAsText(modelStrip(c.Doc), c)))
	}
	fails := 0
	for _, r := range log {
		if r.ID+1 == c.Fail {
			fails++
		}
	}
	var got any
	var err error
	stdout, _ := captured(func() {
		if c.Via == "run" || c.Late {
			j, lerr := loadText(text)
			if lerr != nil {
				err = lerr
				return
			}
			registerAll()
			if p := catch(j.Run); p != nil {
				err = fmt.Errorf("%v", p)
				return
			}
			got, err = dump(j)
			return
		}
		var b []byte
		if b, err = jom.Eval(text, false); err == nil {
			got, err = fromJSON(b)
		} else if len(b) > 0 {
			err = failf("output %s beside the error %v", short(b), err)
		}
	})
	if fails > 0 {
		x.Tag("fails: " + c.How)
		if err == nil {
			return failf("%s: no error of the script %d, which fails (%s)", what, c.Fail-1, c.How)
		}
		text := errGiven.Error()
		if c.lang(c.Fail-1) == "js" {
			text = "boom"
		}
		if !strings.Contains(err.Error(), text) {
			return failf("%s: the error is not the one of the runner (%s) but %v", what, text, err)
		}
		return nil
	}
	if err != nil {
		return failf("%s: fails: %v", what, err)
	}
	wantOut, _, _ := modelRun(c.Doc, false)
	if err := wantSame(what, got, norm(elementsAsText(wantOut, c))); err != nil {
		return err
	}
	// every script of these languages ran once, in its scope, after those of its scope that come before
	var wantLog []ran
	paths := map[int]string{}
	for _, r := range log {
		if c.lang(r.ID) != "js" {
			wantLog = append(wantLog, r)
			paths[r.ID] = r.Scope
		}
	}
	if err := checkOrder(rec.ids, wantLog); err != nil {
		return failf("%s: %v", what, err)
	}
	for id, path := range rec.paths {
		if path != paths[id] {
			return failf("%s: script %d of %s is given the scope path %s", what, id, paths[id], path)
		}
	}
	for _, id := range idsOf(stdout) {
		if c.lang(id) != "js" {
			return failf("%s: script %d is run as Javascript", what, id)
		}
	}
	return nil
}

// Script placeholders that are left (as elements of arrays) are plain text.
func elementsAsText(v any, c langCase) any { return c.render(v) }

func containsScriptPair(v any) bool {
	switch x := v.(type) {
	case obj:
		for _, e := range x {
			if isS(e) || containsScriptPair(e) {
				return true
			}
		}
	case arr:
		for _, e := range x {
			if !isS(e) && containsScriptPair(e) {
				return true
			}
		}
	}
	return false
}

// A registered language can be marked up with, whatever its name, and one that is not cannot.
func (c langCase) checkMarkup(x *Ctx) error {
	x.NonTrivial()
	x.Tag("markup")
	ran := ""
	lang := c.Langs[0]
	never := "@" + lang
	code.RegisterLang(lang, func(given code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		ran += fmt.Sprint(given.Script)
		(*j.GetInsides())["ran"] = true
		return j, nil
	})
	if !code.CheckIfSupported(lang) || code.CheckIfSupported(never) {
		return failf("CheckIfSupported: %v for %q, which is registered, %v for %q, which is not", code.CheckIfSupported(lang), lang, code.CheckIfSupported(never), never)
	}
	j := jom.New()
	if err := j.Unmarshal([]byte(`{"a": {"b": 1}}`)); err != nil {
		return err
	}
	if err := j.MarkupCode("$.a.s", never, c.Text); err == nil {
		return failf("marking up in %q, which is not registered, gives no error", never)
	}
	if got, err := dump(j); err != nil || !same(got, any(obj{"a": obj{"b": 1.0}})) {
		return failf("marking up in %q, which is not registered, gives %s (%v)", never, short(got), err)
	}
	if err := j.MarkupCode("$.a.s", lang, c.Text); err != nil {
		return failf("marking up in %q: %v", lang, err)
	}
	if got, err := dump(j); err != nil || !same(got, any(obj{"a": obj{"b": 1.0, "s": globals.ShebangPrefix + lang + "\n" + c.Text}})) {
		return failf("marking up in %q gives %s (%v)", lang, short(got), err)
	}
	if p := catch(j.Run); p != nil {
		return failf("running a script in %q: %v", lang, p)
	}
	if ran != c.Text {
		return failf("the runner of %q is given %q instead of %q", lang, ran, c.Text)
	}
	got, err := dump(j)
	if err != nil {
		return err
	}
	return wantSame("after running a script in "+lang, got, any(obj{"a": obj{"b": 1.0, "ran": true}}))
}

func init() {
	register("C35", "a generated document with 0-6 scripts, written in 2-5 spellings (JSON and Hjson, members in other orders, blanks, comments, ways to write strings and numbers), evaluated, run, stripped, cloned and printed twice each, or with hostile scripts, whose results, errors and console output have to be the same; non-trivial: at least one script runs and there are more than three values",
		genSpellCase, checkSpell, counts(1500, 40000))
	register("C36", "a generated document with scripts in 1-3 languages that the check registers (and in Javascript), evaluated, run, stripped or marked up, with runners that edit in place or return a new map, or fail; non-trivial: a script in such a language runs",
		genLangCase, checkLang, counts(6000, 150000))
}
