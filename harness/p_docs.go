package main

// C01 to C04 and C24: loading, printing, documents without scripts, the trail, clones.

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------------------------------------ writing values

// Writes a value as JSON or Hjson text in one of its many spellings.
type writer struct {
	t     *rapid.T
	b     strings.Builder
	hjson bool
	tags  map[string]bool
	line  int // start of the current line
}

func (w *writer) put(s string) { w.b.WriteString(s) }

func (w *writer) column() int {
	s := w.b.String()
	return len(s) - 1 - strings.LastIndexByte(s, '\n')
}

func (w *writer) used(tag string) {
	if w.tags == nil {
		w.tags = map[string]bool{}
	}
	w.tags[tag] = true
}

// Blanks (and comments), nothing most of the time.
func (w *writer) blank() {
	switch pick(w.t, "blank", 10, 3, 2, 2, 2) {
	case 0:
	case 1:
		w.put(" ")
	case 2:
		w.put(sample(w.t, "blanks", []string{"\n", "\t", "\r\n", "\n  ", "   ", " \n\t \n"}))
	case 3:
		if w.hjson {
			w.used("comment")
			w.put(" " + sample(w.t, "comment", []string{"# a comment\n", "// a comment\n", "#\n", "//!\n", "# }\n", "// ] { \"\n", "#'''\n", "#//!js\n"}))
		}
	default:
		if w.hjson {
			w.used("block comment")
			w.put(sample(w.t, "block comment", []string{"/* a */", "/**/", "/* a\n * b */", "/* } ] , : */ ", "/* ' \" */", "/*/ # // */", "/***/"}))
		}
	}
}

func (w *writer) quoted(s string, q byte) {
	w.put(string(q))
	for _, r := range s {
		switch {
		case r == '"' && q == '"', r == '\'' && q == '\'':
			w.put("\\" + string(r))
		case r == '\\':
			w.put(oneOf(w.t, "backslash", "\\\\", "\\\\", "\\u005c", "\\u005C"))
		case r == '/' && chance(w.t, 30, "escape slash?"):
			w.put("\\/")
		case r == '\n' && chance(w.t, 80, "short?"):
			w.put("\\n")
		case r == '\r' && chance(w.t, 80, "short?"):
			w.put("\\r")
		case r == '\t' && chance(w.t, 80, "short?"):
			w.put("\\t")
		case r == '\b' && chance(w.t, 80, "short?"):
			w.put("\\b")
		case r == '\f' && chance(w.t, 80, "short?"):
			w.put("\\f")
		case r < ' ' || (r < 0x10000 && chance(w.t, 6, "unicode escape?")):
			w.used("unicode escape")
			f := oneOf(w.t, "case", "\\u%04x", "\\u%04X")
			w.put(fmt.Sprintf(f, r))
		case r >= 0x10000 && !w.hjson && chance(w.t, 40, "surrogates?"):
			w.used("surrogate pair")
			a, b := utf16.EncodeRune(r)
			w.put(fmt.Sprintf("\\u%04x\\u%04X", a, b))
		default:
			w.put(string(r))
		}
	}
	w.put(string(q))
}

var (
	quotelessRe = regexp.MustCompile(`^[^-0-9tfn{}\[\],:"'#/\x00-\x20][^\r\n\x00]*$`)
	wordRe      = regexp.MustCompile(`^[a-z]+$`)
	bareKeyRe   = regexp.MustCompile("^[^\\x00-\\x20{}\\[\\],:\"'#/][^\\x00-\\x20{}\\[\\],:]*$")
)

func quoteless(s string) bool {
	if s == "true" || s == "false" || s == "null" || strings.TrimSpace(s) != s {
		return false
	}
	return quotelessRe.MatchString(s) || wordRe.MatchString(s)
}

// Writes a scalar; bare tells that a new line has to follow.
func (w *writer) str(s string) (bare bool) {
	if !w.hjson {
		w.quoted(s, '"')
		return false
	}
	switch pick(w.t, "string form", 3, 4, 2, 3) {
	case 1:
		if quoteless(s) {
			w.used("quoteless string")
			w.put(s)
			return true
		}
	case 2:
		if s != "" {
			w.used("single quotes")
			w.quoted(s, '\'')
			return false
		}
	case 3:
		if !strings.ContainsAny(s, "\r\x00") && !strings.Contains(s, "'''") {
			if !strings.Contains(s, "\n") && s != "" && s[0] > ' ' && s[0] != '\'' && s[len(s)-1] != '\'' && chance(w.t, 30, "on one line?") {
				w.used("multi-line string on one line")
				w.put("'''" + s + "'''")
				return false
			}
			w.used("multi-line string")
			in := strings.Repeat(" ", irange(w.t, "indent", 0, 4))
			w.put("\n" + in + "'''\n")
			for _, l := range strings.Split(s, "\n") {
				w.put(in + l + "\n")
			}
			w.put(in + "'''")
			return false
		}
	}
	w.quoted(s, '"')
	return false
}

func (w *writer) number(f float64) {
	b, _ := json.Marshal(f)
	forms := []string{string(b)}
	e := strconv.FormatFloat(f, 'e', -1, 64)
	forms = append(forms, e, strings.ToUpper(e))
	if f == float64(int64(f)) && f < 1e15 && f > -1e15 {
		forms = append(forms, string(b), fmt.Sprintf("%d.0", int64(f)), fmt.Sprintf("%dE0", int64(f)), fmt.Sprintf("%de+0", int64(f)))
	}
	w.put(sample(w.t, "number form", forms))
}

func (w *writer) value(v any) (bare bool) {
	switch x := v.(type) {
	case nil:
		w.put("null")
		return true
	case bool:
		w.put(strconv.FormatBool(x))
		return true
	case float64:
		w.number(x)
		return true
	case string:
		return w.str(x)
	case arr:
		w.put("[")
		for i, e := range x {
			w.blank()
			bare := w.value(e)
			w.end(e, bare, i == len(x)-1)
		}
		w.blank()
		w.put("]")
	case obj:
		w.object(x, true)
	}
	return false
}

func (w *writer) object(x obj, braces bool) {
	if braces {
		w.put("{")
	}
	ks := sortedKeys(x)
	if len(ks) > 1 && chance(w.t, 50, "shuffle?") {
		for i := range ks {
			j := irange(w.t, "swap", i, len(ks)-1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	for i, k := range ks {
		w.blank()
		switch {
		case w.hjson && bareKeyRe.MatchString(k) && chance(w.t, 70, "bare key?"):
			w.used("unquoted key")
			w.put(k)
			if chance(w.t, 20, "blank?") {
				w.put(" ")
			}
		case w.hjson && chance(w.t, 30, "single quotes?"):
			w.quoted(k, '\'')
			w.blank()
		default:
			w.quoted(k, '"')
			w.blank()
		}
		w.put(":")
		w.blank()
		bare := w.value(x[k])
		w.end(x[k], bare, i == len(ks)-1)
	}
	w.blank()
	if braces {
		w.put("}")
	}
}

// What comes after a member or element.
func (w *writer) end(v any, bare, last bool) {
	if !w.hjson {
		w.blank()
		if !last {
			w.put(",")
		}
		return
	}
	if _, str := v.(string); str && bare {
		w.put("\n") // a comma would be part of the string
		return
	}
	switch {
	case chance(w.t, 45, "comma?") && !last:
		w.blank()
		w.put(",")
	case last && chance(w.t, 20, "trailing comma?"):
		w.used("trailing comma")
		w.put(",")
	case last && !bare:
	default:
		w.used("no comma")
		w.put("\n")
	}
}

// ------------------------------------------------------------------------------------------------ C01

type loadCase struct {
	Doc  any      `json:"doc,omitempty"`
	Text string   `json:"text"`
	Kind string   `json:"kind"` // json hjson bad
	Why  string   `json:"why,omitempty"`
	Prev string   `json:"prev,omitempty"` // loaded into the same object before
	Used []string `json:"used,omitempty"` // and used
	Tags []string
}

func deepDocOpts(t *rapid.T) docOpts {
	o := docOpts{depth: 3, width: 4, odd: 25}
	switch pick(t, "shape", 6, 1, 1) {
	case 1:
		o.depth, o.width = 8, 2
	case 2:
		o.depth, o.width = 2, 14
	}
	return o
}

func genLoadCase(t *rapid.T) loadCase {
	c := loadCase{}
	if chance(t, 30, "used before?") {
		w := &writer{t: t, hjson: chance(t, 50, "hjson?")}
		prev := genDoc(t, docOpts{depth: 2, width: 2, odd: 5}, 50)
		w.value(prev)
		c.Prev = w.b.String()
		if chance(t, 10, "bad?") {
			c.Prev = oneOf(t, "bad", "{", "5", "[1", "null", "{a:")
		}
		for n := irange(t, "uses", 0, 3); n > 0; n-- {
			c.Used = append(c.Used, sample(t, "use", uses))
		}
	}
	doc := genDoc(t, deepDocOpts(t), 30)
	w := &writer{t: t}
	switch pick(t, "kind", 5, 6, 3) {
	case 0:
		c.Kind, c.Doc = "json", doc
		w.blank()
		w.value(doc)
		w.blank()
	case 1:
		c.Kind, c.Doc = "hjson", doc
		w.hjson = true
		w.blank()
		if m, ok := doc.(obj); ok && chance(t, 40, "no braces?") {
			w.used("no root braces")
			w.object(m, false)
		} else {
			w.value(doc)
			w.blank()
		}
		if chance(t, 20, "comment at the end?") {
			w.put("\n# end")
		}
	default:
		c.Kind = "bad"
		switch pick(t, "how", 5, 3, 4, 3) {
		case 0: // cut off
			w.value(doc)
			s := strings.TrimSpace(w.b.String())
			n := irange(t, "cut", 1, len(s)-1)
			c.Why, c.Text = "cut off", strings.ToValidUTF8(s[:n], "?")
		case 1: // something after the end
			w.hjson = chance(t, 50, "hjson?")
			w.value(doc)
			c.Why, c.Text = "trailing text", w.b.String()+sample(t, "trailing", []string{"}", "]", " {}", "x", " 1", ",", " \"a\"", "\n:", "\n{a: 1}", "''", " , ", "\n[]"})
		case 2: // not an object or an array
			c.Why = "scalar root"
			c.Text = sample(t, "scalar", []string{"5", "-1.5", "true", "false", "null", "\"text\"", "\"\"", "'single'", "'''\nmulti\n'''", " 0 ", "# c\n7", "\"{}\"", "\"a: 1\"", "/**/ null", "text", "a b c"})
		default: // broken inside
			in := sample(t, "broken", []string{
				`"a" 1`, `"a": "\q"`, "\"a\": \"x\ny\"", `"a": "\u12G4"`, `"a": }`, `: 1`, `"a": [1}`, `{"a": 1}`, `"a": '''x`, `"a":`, `a b: 1`,
				`"a": "b" "c"`, `"a": ]`, `"a": ,`, `a,b: 1`, `"a"`, `[1]`, `"a": {"b": 1]`, `"a": "\u12"`})
			w.put("{")
			if chance(t, 50, "more?") {
				w.put("\"m\": ")
				w.value(doc)
				w.put(",")
			}
			w.put(in + "}")
			c.Why, c.Text = "broken: "+in, w.b.String()
			if chance(t, 30, "in an array?") {
				c.Text = "[" + c.Text + "]"
			}
		}
		return c
	}
	c.Text = w.b.String()
	for _, k := range []string{"comment", "block comment", "unicode escape", "surrogate pair", "quoteless string", "single quotes", "multi-line string",
		"multi-line string on one line", "no comma", "trailing comma", "unquoted key", "no root braces"} {
		if w.tags[k] {
			c.Tags = append(c.Tags, k)
		}
	}
	return c
}

func checkLoad(c loadCase, x *Ctx) error {
	j := jom.New()
	what := "loading " + strconv.Quote(c.Text)
	if c.Prev != "" {
		if p := catch(func() { _ = j.Unmarshal([]byte(c.Prev)) }); p != nil {
			return failf("loading %q panics: %v", c.Prev, p)
		}
		what += " after " + strconv.Quote(c.Prev)
		x.Tag("used before")
		for _, u := range c.Used {
			x.Tag("used before: " + u)
			what += ", " + u
			use(j, u)
		}
	}
	var err error
	given := []byte(c.Text)
	if p := catch(func() { err = j.Unmarshal(given) }); p != nil {
		return failf("%s panics: %v", what, p)
	}
	x.Tag(c.Kind)
	if c.Kind == "bad" {
		x.NonTrivial()
		x.Tag("bad: " + strings.SplitN(c.Why, ":", 2)[0])
		if err == nil {
			got, _ := dump(j)
			return failf("%s (%s): no error; document %s", what, c.Why, short(got))
		}
		if out, err := jom.Eval(given, false); err == nil || len(out) > 0 {
			return failf("%s (%s): Eval gives %q and the error %v", what, c.Why, out, err)
		}
		return nil
	}
	for _, t := range c.Tags {
		x.Tag(t)
	}
	if err != nil {
		return failf("%s: fails: %v", what, err)
	}
	if c.Kind == "json" {
		// the reference
		var v any
		if err := json.Unmarshal(given, &v); err != nil {
			return failf("harness error: not JSON: %v", err)
		}
		if !same(norm(v), norm(c.Doc)) {
			return failf("harness error: wrong JSON")
		}
	}
	if size(c.Doc) > 1 {
		x.NonTrivial()
	}
	got, err := dump(j)
	if err != nil {
		return failf("%s: %v", what, err)
	}
	if err := wantSame(what, got, norm(c.Doc)); err != nil {
		return err
	}
	if _, isArr := c.Doc.(arr); isArr != j.IsArray() || isArr != j.Array {
		return failf("%s: IsArray() is %v", what, j.IsArray())
	}
	if _, isArr := c.Doc.(arr); isArr {
		x.Tag("array root")
	}
	if string(given) != c.Text {
		return failf("%s: changes the given text", what)
	}
	return nil
}

// ------------------------------------------------------------------------------------------------ C02

// Anything that can be done with a document object, with whatever outcome.
func use(j *jom.JsonMap, how string) {
	catch(func() {
		switch how {
		case "print":
			_ = j.String()
		case "run":
			j.Run()
		case "strip":
			j.Strip()
		case "find":
			j.FindScriptFields()
		case "marshal":
			_, _ = j.Marshal()
		case "get":
			_ = j.MustGet("$.*")
		case "set":
			j.MustSet("$.used_", "used")
		case "delete":
			if !j.IsArray() {
				j.MustDelete("$.*")
			}
		case "lookup":
			j.MustSet("$..a", "#//!js\njson.trail.used_ = 1")
		case "clone":
			_ = j.Clone(false)
			_ = j.Clone(true)
		case "markup":
			_ = j.MarkupCode("$.used_", "js", "json.trail.x = 1")
		case "load":
			_ = j.Unmarshal([]byte(`{"loaded_": [1, {"s": "#//!js\\n1"}]}`))
		case "load array":
			_ = j.Unmarshal([]byte(`[1, {"s": "#//!js\\n1"}]`))
		case "insides":
			(*j.GetInsides())["used_"] = []interface{}{"x"}
		case "insides delete":
			for k := range *j.GetInsides() {
				if k != "array" {
					delete(*j.GetInsides(), k)
				}
			}
		}
	})
}

var uses = []string{"print", "run", "strip", "find", "marshal", "get", "set", "delete", "lookup", "clone", "markup"}

type printCase struct {
	Doc  any      `json:"doc"`
	From string   `json:"from"`           // load map
	Then []string `json:"then,omitempty"` // done afterwards, with the text being looked at after each
}

// Strings like scripts.
func genScriptText(t *rapid.T) string {
	return "#//!js\n" + strings.Join([]string{
		oneOf(t, "line", "", "// comment\n", "\n", "  \n", "/* a */\n"),
		oneOf(t, "line", "json.trail.a = 1;\n", "var s = 'a';\n", "\tx = \"b\";\n", "if (a) {\n  b();\n}\n", "s = '''';\n", "a = b + '\\n';\n"),
		oneOf(t, "end", "", "x", "}", "\n", "// '''", "'", "''", " ", "\t", "\r\n", "a\rb")}, "")
}

func genPrintCase(t *rapid.T) printCase {
	doc := genDoc(t, deepDocOpts(t), 30)
	if m, ok := doc.(obj); ok && chance(t, 40, "script text?") {
		m[genKey(t, docOpts{odd: 10})] = genScriptText(t)
	}
	if a, ok := doc.(arr); ok && chance(t, 30, "script text?") {
		doc = append(a, obj{"s": genScriptText(t)}, genScriptText(t))
	}
	c := printCase{Doc: doc, From: oneOf(t, "from", "load", "map")}
	if chance(t, 30, "history?") {
		for n := irange(t, "uses", 1, 4); n > 0; n-- {
			c.Then = append(c.Then, sample(t, "use", append([]string{"load", "load array", "insides", "insides delete"}, uses...)))
		}
	}
	return c
}

func checkPrint(c printCase, x *Ctx) error {
	_, isArr := c.Doc.(arr)
	var j *jom.JsonMap
	var err error
	if c.From == "map" {
		j = jom.NewFromMap(clone(rootOf(c.Doc)).(obj))
		j.Array = isArr
	} else if j, err = load(c.Doc); err != nil {
		return err
	}
	if size(c.Doc) > 1 {
		x.NonTrivial()
	}
	x.TagIf(isArr, "array root")
	var text string
	if p := catch(func() { text = j.String() }); p != nil {
		return failf("printing %s panics: %v", short(c.Doc), p)
	}
	what := fmt.Sprintf("%s printed as %q", short(c.Doc), text)
	if fmt.Sprint(j) != text || fmt.Sprintf("%v", j) != text {
		return failf("%s: but not each time", what)
	}
	for _, k := range []*jom.JsonMap{jom.New(), j} {
		if err := k.Unmarshal([]byte(text)); err != nil {
			return failf("%s: does not load: %v", what, err)
		}
		got, err := dump(k)
		if err != nil {
			return failf("%s: %v", what, err)
		}
		if err := wantSame(what, got, norm(c.Doc)); err != nil {
			return err
		}
		if k.IsArray() != isArr {
			return failf("%s: IsArray() is %v", what, k.IsArray())
		}
	}
	// the text is that of the document as it is now
	for i, u := range c.Then {
		x.Tag("then " + u)
		use(j, u)
		now, err := dump(j)
		if err != nil {
			return skip("cannot be marshalled")
		}
		text := j.String()
		k := jom.New()
		what := fmt.Sprintf("%s after %q is %s but printed as %q", short(c.Doc), c.Then[:i+1], short(now), text)
		if err := k.Unmarshal([]byte(text)); err != nil {
			return failf("%s: does not load: %v", what, err)
		}
		got, err := dump(k)
		if err != nil {
			return failf("%s: %v", what, err)
		}
		if err := wantSame(what, got, now); err != nil {
			return err
		}
	}
	return nil
}

// ------------------------------------------------------------------------------------------------ C03

type plainCase struct {
	Doc any `json:"doc"`
}

// Strings that are almost scripts.
func genNearMiss(t *rapid.T) string {
	return oneOf(t, "start", "", " ", "\n", "\r\n", "\t", "x\n", "#\n", "//\n", "\ufeff", "#", "/") +
		oneOf(t, "shebang", "#//!js", "#//!js", "#//!js", "#//!js", "#!js", "//!js", "#/!js", "# //!js", "#//js", "#//! js", "#//!j", "#//!jsx", "#//!", "#//!JS2", "#//!golang", "#///!js", "#//!!js", "//#!js", "#//!js js", "#\\//!js") +
		oneOf(t, "line end", "", "\n", "\n", "\n", " \n", "\t\n", "\r\n", "\r", "\u2028", "\\n", ";\n", " // x\n", "\n\n", "\x00\n", "\v\n") +
		oneOf(t, "body", "", "json.trail.broken = 1;", "x", "json.trail = {};", "throw 'not run';\n")
}

var twoBytes = regexp.MustCompile("(?s)^#//!(.|..)\n")

func genPlainCase(t *rapid.T) plainCase {
	doc := genDoc(t, deepDocOpts(t), 20)
	n := 0
	var rec func(v any) any
	rec = func(v any) any {
		switch x := v.(type) {
		case obj:
			for _, k := range sortedKeys(x) {
				x[k] = rec(x[k])
			}
			if n < 6 && chance(t, 40, "near miss?") {
				s := genNearMiss(t)
				if !twoBytes.MatchString(s) {
					x[genKey(t, docOpts{odd: 10})] = s
					n++
				}
			}
			if chance(t, 8, "script as a key?") {
				x["#//!js\nthrow 1;"] = 1.0
			}
			return x
		case arr:
			for i := range x {
				x[i] = rec(x[i])
			}
			if n < 6 && chance(t, 35, "script as an element?") {
				n++
				return append(x, oneOf(t, "script", genNearMiss(t), "#//!js\njson.trail.broken = 1;", "#//!js\nthrow 1;", "#//!go\nx", "#//!py\nx", "#//!js\n"))
			}
			return x
		}
		return v
	}
	return plainCase{Doc: rec(doc)}
}

func checkPlain(c plainCase, x *Ctx) error {
	_, isArr := c.Doc.(arr)
	x.TagIf(isArr, "array root")
	near, element := false, false
	walk(c.Doc, func(v any) {
		if s, ok := v.(string); ok && strings.Contains(s, "#//!") {
			near = true
			element = element || twoBytes.MatchString(s)
		}
	})
	if near {
		x.NonTrivial()
		x.Tag("near miss")
	}
	x.TagIf(element, "script as an array element")
	want := norm(c.Doc)
	text := textOf(c.Doc)
	out, stdout, err := evaluate(text, "eval")
	if err != nil {
		return failf("%v: %s", err, text)
	}
	if err := wantSame("evaluating "+string(text), out, want); err != nil {
		return err
	}
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	for i, op := range []func(){j.Run, j.Strip, j.Run} {
		var p any
		o, e := captured(func() { p = catch(op) })
		what := fmt.Sprintf("%s of %s", []string{"run", "strip", "second run"}[i], text)
		if p != nil {
			return failf("%s: panics: %v", what, p)
		}
		if o+e+stdout != "" {
			return failf("%s: prints %q", what, o+e+stdout)
		}
		got, err := dump(j)
		if err != nil {
			return failf("%s: %v", what, err)
		}
		if err := wantSame(what, got, want); err != nil {
			return err
		}
	}
	return nil
}

// ------------------------------------------------------------------------------------------------ C04

type trailCase struct {
	Doc  any    `json:"doc"`
	At   []any  `json:"at"`   // the object that gets the script
	Kind string `json:"kind"` // nothing, stringify, compare, callback
	Key  string `json:"key"`
}

const jsCompare = `function eq(a, b) {
	if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') { return typeof a === typeof b && a === b; }
	if (Array.isArray(a) !== Array.isArray(b)) { return false; }
	var i, n = 0, m = 0;
	if (Array.isArray(a)) { if (a.length !== b.length) { return false; } for (i = 0; i < a.length; i++) { if (!eq(a[i], b[i])) { return false; } } return true; }
	for (i in a) { n++; if (!Object.prototype.hasOwnProperty.call(b, i) || !eq(a[i], b[i])) { return false; } }
	for (i in b) { m++; }
	return n === m;
}
`

func objects(v any, p []any, f func(p []any)) {
	switch x := v.(type) {
	case obj:
		f(append([]any{}, p...))
		for _, k := range sortedKeys(x) {
			objects(x[k], append(p[:len(p):len(p)], k), f)
		}
	case arr:
		for i, e := range x {
			objects(e, append(p[:len(p):len(p)], i), f)
		}
	}
}

func genTrailCase(t *rapid.T) trailCase {
	c := trailCase{Doc: genDoc(t, deepDocOpts(t), 15), Kind: oneOf(t, "kind", "nothing", "stringify", "compare", "compare", "callback")}
	var ps [][]any
	if _, isArr := c.Doc.(arr); isArr { // (a script cannot stand next to the root array)
		objects(rootOf(c.Doc), nil, func(p []any) {
			if len(p) > 0 {
				ps = append(ps, p)
			}
		})
		if len(ps) == 0 {
			c.Doc, ps = arr{obj{}, c.Doc}, [][]any{{"array", 0}}
		}
	} else {
		objects(rootOf(c.Doc), nil, func(p []any) { ps = append(ps, p) })
	}
	c.At = sample(t, "where", ps)
	c.Key = oneOf(t, "script key", "script", "zz", "0", "é", "_", "s s")
	if v, _ := lookAt(rootOf(c.Doc), c.At); v != nil {
		if _, ok := v.(obj)[c.Key]; ok {
			c.Key = "script_"
		}
	}
	return c
}

func checkTrail(c trailCase, x *Ctx) error {
	root := clone(rootOf(c.Doc)).(obj)
	_, isArr := c.Doc.(arr)
	if isArr && len(c.At) == 0 {
		return skip("root of an array")
	}
	v, ok := lookAt(root, c.At)
	scope, isObj := v.(obj)
	if !ok || !isObj {
		return skip("no such object")
	}
	if _, ok := scope[c.Key]; ok {
		return skip("key in use")
	}
	want := clone(root).(obj)
	seen := clone(scope) // what the script sees, beside itself
	src := "#//!js\n"
	switch c.Kind {
	case "stringify":
		src += "json.trail.out_ = JSON.stringify(json.trail);"
	case "compare":
		src += jsCompare + "var me = json.trail[" + jsLiteral(c.Key) + "]; delete json.trail[" + jsLiteral(c.Key) + "];\n" +
			"var ok = eq(json.trail, JSON.parse(" + jsLiteral(mustJSON(scope)) + "));\njson.trail[" + jsLiteral(c.Key) + "] = me; json.trail.ok_ = ok;"
	case "callback":
	default:
		src += oneOfBy(len(c.Key)+len(c.At), "", "var a = json.trail;", "json.trail;", "// nothing", "var x = json.trail; json.trail = x;", "json.trail = JSON.parse(JSON.stringify(json.trail));")
	}
	scope[c.Key] = src
	x.Tag(c.Kind)
	x.TagIf(len(c.At) > 0, "nested")
	if size(seen) > 1 {
		x.NonTrivial()
	}
	doc := docOf(root, isArr)
	what := fmt.Sprintf("%s at %v of %s", c.Kind, c.At, mustJSON(doc))
	var got any
	if c.Kind == "callback" {
		delete(scope, c.Key)
		j, err := load(doc)
		if err != nil {
			return err
		}
		inner, _ := lookAt(*j.GetInsides(), c.At)
		var sees any
		inner.(obj)[c.Key] = func(json json_map.JsonMapInt) {
			m := *json.GetInsides()
			k := obj{}
			for a, b := range m {
				k[a] = b
			}
			delete(k, c.Key)
			sees = norm(k)
		}
		if p := catch(j.Run); p != nil {
			return failf("%s: panics: %v", what, p)
		}
		if err := wantSame(what+": what the callback sees", sees, norm(seen)); err != nil {
			return err
		}
		if got, err = dump(j); err != nil {
			return err
		}
	} else {
		var err error
		if got, _, err = evaluate(textOf(doc), "eval"); err != nil {
			return failf("%s: %v", what, err)
		}
	}
	wantScope, _ := lookAt(want, c.At)
	switch c.Kind {
	case "stringify":
		g, _ := lookAt(rootOf(got), c.At)
		gs, ok := g.(obj)
		if !ok {
			return failf("%s: gives %s", what, short(got))
		}
		s, _ := gs["out_"].(string)
		out, err := fromJSON([]byte(s))
		if err != nil {
			return failf("%s: JSON.stringify gives %q", what, s)
		}
		seen.(obj)[c.Key] = src
		if err := wantSame(what+": JSON.stringify(json.trail)", out, norm(seen)); err != nil {
			return err
		}
		wantScope.(obj)["out_"] = s
	case "compare":
		wantScope.(obj)["ok_"] = true
	}
	return wantSame(what, got, norm(docOf(want, isArr)))
}

func oneOfBy[T any](n int, xs ...T) T { return xs[n%len(xs)] }

// ------------------------------------------------------------------------------------------------ C24

type cloneStep struct {
	Which int    `json:"which"` // 0: the original, 1: the clone, 2: a clone of the clone
	K     string `json:"k"`     // set del push pop run strip insides load markup
	P     []any  `json:"p,omitempty"`
	Val   any    `json:"val,omitempty"`
}

type cloneCase struct {
	Doc   any         `json:"doc"` // may contain scripts
	Clear bool        `json:"clear,omitempty"`
	Steps []cloneStep `json:"steps"`
}

func genCloneCase(t *rapid.T) cloneCase {
	g := &scriptGen{t: t, o: scriptOpts{max: 3, ops: 2, doc: docOpts{depth: 3, width: 3, plain: true, odd: 3}}}
	doc := g.sow(genDoc(t, docOpts{depth: 3, width: 3, plain: true, odd: 3}, 30), 30)
	c := cloneCase{Doc: settle(doc), Clear: chance(t, 20, "clear?")}
	var ps [][]any
	var rec func(v any, p []any)
	rec = func(v any, p []any) {
		ps = append(ps, append([]any{}, p...))
		switch x := v.(type) {
		case obj:
			if isS(x) {
				return
			}
			for _, k := range sortedKeys(x) {
				if isPathKey(k) {
					rec(x[k], append(p[:len(p):len(p)], k))
				}
			}
		case arr:
			for i, e := range x {
				rec(e, append(p[:len(p):len(p)], i))
			}
		}
	}
	rec(rootOf(c.Doc), nil)
	for n := irange(t, "steps", 1, 6); n > 0; n-- {
		s := cloneStep{Which: uniform(t, 3), K: oneOf(t, "step", "set", "set", "del", "push", "pop", "run", "strip", "insides", "insides", "load"), P: sample(t, "path", ps)}
		if s.K == "set" && len(s.P) == 0 {
			s.P = []any{"new"}
		}
		switch s.K {
		case "set", "push", "insides", "load":
			s.Val = genSetValue(t)
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func checkClone(c cloneCase, x *Ctx) error {
	_, isArr := c.Doc.(arr)
	x.TagIf(isArr, "array root")
	o, err := loadText(textOf(c.Doc))
	if err != nil {
		return err
	}
	want := norm(renderDoc(c.Doc))
	k, ok := o.Clone(c.Clear).(*jom.JsonMap)
	if !ok {
		return failf("the clone of a *JsonMap is a %T", o.Clone(c.Clear))
	}
	what := fmt.Sprintf("clone(%v) of %s", c.Clear, short(c.Doc))
	if k.IsArray() != isArr {
		return failf("%s: IsArray() is %v", what, k.IsArray())
	}
	if c.Clear {
		x.Tag("clear")
		if len(*k.GetInsides()) != 0 {
			return failf("%s: is not empty: %v", what, *k.GetInsides())
		}
	} else {
		got, err := dump(k)
		if err != nil {
			return failf("%s: %v", what, err)
		}
		if err := wantSame(what, got, want); err != nil {
			return err
		}
		if k.GetCurrentScopePath() != o.GetCurrentScopePath() {
			return failf("%s: scope path %q instead of %q", what, k.GetCurrentScopePath(), o.GetCurrentScopePath())
		}
	}
	all := []*jom.JsonMap{o, k, k.Clone(false).(*jom.JsonMap)}
	snap := func(i int) string { // the text of a document (which cannot be marshalled if it is an emptied array)
		return mustJSON(*all[i].GetInsides()) + fmt.Sprint(all[i].IsArray()) + all[i].GetCurrentScopePath()
	}
	before := []string{snap(0), snap(1), snap(2)}
	changed := 0
	for i, s := range c.Steps {
		j := all[s.Which]
		p := catch(func() {
			captured(func() {
				text, _ := pathText(s.P)
				switch s.K {
				case "set":
					_ = j.JsonPathSetter(text, clone(s.Val))
				case "del":
					_ = j.JsonPathSetter(text, nil)
				case "push":
					j.MustPush(text, clone(s.Val))
				case "pop":
					j.MustPop(text)
				case "run":
					j.Run()
				case "strip":
					j.Strip()
				case "load":
					_ = j.Unmarshal([]byte(mustJSON(obj{"v": s.Val})))
				case "insides":
					// straight into the values
					if v, ok := lookAt(*j.GetInsides(), s.P); ok {
						switch x := v.(type) {
						case obj:
							x["inside"] = clone(s.Val)
						case arr:
							if len(x) > 0 {
								x[0] = clone(s.Val)
							}
						}
					}
				}
			})
		})
		_ = p // impossible pushes and pops panic
		x.Tag("step " + s.K)
		for n := range all {
			now := snap(n)
			if n != s.Which && now != before[n] {
				return failf("%s: step %d (%s %v on document %d) changes document %d from %s to %s", what, i, s.K, s.P, s.Which, n, short(before[n]), short(now))
			}
			if n == s.Which && now != before[n] {
				changed++
			}
			before[n] = now
		}
	}
	// however they came to be
	for n, j := range all {
		if k, ok := j.Clone(false).(*jom.JsonMap); !ok || mustJSON(*k.GetInsides())+fmt.Sprint(k.IsArray())+k.GetCurrentScopePath() != before[n] || k.GetCurrentScopePath() != j.GetCurrentScopePath() {
			return failf("%s: after %d steps: the clone of document %d, which is %s with the scope path %q, is %s with %q", what, len(c.Steps), n, short(before[n]), j.GetCurrentScopePath(), short(*k.GetInsides()), k.GetCurrentScopePath())
		}
	}
	if changed > 0 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	register("C01", "a generated document as JSON or Hjson text in a random spelling, or a text that is invalid by construction, loaded into a new or used document object; non-trivial: the document is not empty, or the text is invalid",
		genLoadCase, checkLoad, counts(160000, 3200000), workers(8, 8))
	register("C02", "a generated document printed and loaded again; non-trivial: not empty",
		genPrintCase, checkPrint, counts(120000, 2400000), workers(8, 8))
	register("C03", "a generated document without scripts but with strings that almost are, evaluated, run and stripped; non-trivial: it contains such a string",
		genPlainCase, checkPlain, counts(120000, 2400000), workers(8, 8))
	register("C04", "a generated document with a script or callback that only reads, at a random object; non-trivial: that object is not empty",
		genTrailCase, checkTrail, counts(40000, 800000), workers(8, 8))
	register("C24", "a generated document (with scripts), its clone and a clone of that, and 1-6 operations on them; non-trivial: at least one operation changed something",
		genCloneCase, checkClone, counts(120000, 2400000), workers(8, 8))
}
