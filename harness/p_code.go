package main

// C41: a piece of code that is taken and run by itself.

import (
	"fmt"
	"regexp"
	"strings"
	"sync"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

type codeCase struct {
	Kind   string `json:"kind"` // recognise script callback
	From   any    `json:"from,omitempty"`
	Doc    any    `json:"doc,omitempty"`
	Script any    `json:"script,omitempty"`
	Key    string `json:"key,omitempty"`
	Way    string `json:"way,omitempty"`
	Leaves bool   `json:"leaves,omitempty"` // global variables
	Others int    `json:"others,omitempty"` // at the same time
}

func genCodeCase(t *rapid.T) codeCase {
	c := codeCase{Kind: oneOf(t, "kind", "recognise", "script", "script", "script", "callback")}
	if c.Kind == "recognise" {
		switch pick(t, "what", 5, 4, 2, 2) {
		case 0:
			c.From = genNearMiss(t)
		case 1:
			c.From = "#//!" + oneOf(t, "language", "js", "js", "go", "py", "JS", "  ", "é", "\r\n", "js\r", "j", "", "\x00\x00", "jS") + oneOf(t, "line end", "\n", "\n", "\n", "", "\r\n", " \n") +
				oneOf(t, "source", "", "\n", "x", "x\n", "\n\nx", "#//!js\nx", "\r\n", "é\u2028", "x\n#//!py\n", "  x  ")
		case 2:
			c.From = genString(t)
		default:
			c.From = genValue(t, docOpts{depth: 1, width: 3, odd: 10}, 1)
		}
		return c
	}
	o := docOpts{depth: 3, width: 3, plain: true, odd: 6}
	doc := genObject(t, o, 2)
	c.Key = oneOf(t, "key", "zz_", "s", "0", "a", "", "é")
	g := &scriptGen{t: t, o: scriptOpts{log: true, ops: 4, doc: docOpts{depth: 2, width: 3, plain: true}, nest: c.Kind == "script", empty: 5}}
	doc[c.Key] = nil
	doc[c.Key] = g.script(doc, 1)
	doc = settle(doc).(obj)
	if chance(t, 30, "fails?") {
		s := scriptOf(doc[c.Key].(obj))
		s.Fail, s.At = sample(t, "failure", failNames), irange(t, "after", 0, len(s.Ops))
		if c.Kind == "callback" {
			s.Fail = "throw error"
		}
		doc[c.Key].(obj)["@S"] = *s
	}
	c.Script = doc[c.Key]
	delete(doc, c.Key)
	c.Doc = doc
	c.Way = oneOf(t, "way", "load", "map", "clone", "run before")
	c.Leaves = c.Kind == "script" && chance(t, 40, "leaves globals?")
	if chance(t, 20, "at the same time?") {
		c.Others = irange(t, "others", 1, 4)
	}
	return c
}

// What a value is as code: its language and source.
func asCode(v any) (lang, source string, is bool) {
	s, ok := v.(string)
	// (two bytes, not two characters)
	if !ok || len(s) < 7 || s[:4] != "#//!" || s[6] != '\n' || strings.Contains(s[:6], "\n") {
		return "", "", false
	}
	return s[4:6], s[7:], true
}

func checkRecognise(c codeCase, x *Ctx) error {
	lang, source, is := asCode(c.From)
	supported := code.CheckIfSupported(lang)
	if want := lang == "js" || lang == "go"; is && supported != want {
		return failf("CheckIfSupported(%q) is %v", lang, supported)
	}
	var got code.Code
	ok := false
	p := catch(func() { got, ok = code.NewFrom(c.From) })
	what := fmt.Sprintf("NewFrom(%s)", short(c.From))
	j := jom.NewFromMap(obj{"s": clone(c.From)})
	found := false
	fp := catch(func() { found = j.FindScriptFields() })
	switch {
	case is && !supported:
		x.NonTrivial()
		x.Tag("unsupported")
		if p == nil || fp == nil {
			return failf("%s: an unsupported language is accepted (%v, FindScriptFields: %v)", what, p, fp)
		}
		if text := fmt.Sprint(p); !strings.Contains(text, "(-2)") || !strings.Contains(text, lang) || !strings.Contains(text, source) {
			return failf("%s: the error does not say what is unsupported: %s", what, text)
		}
	case is:
		x.NonTrivial()
		x.Tag("script")
		if p != nil || !ok || fp != nil || !found {
			return failf("%s: not recognised (%v, FindScriptFields: %v %v)", what, p, found, fp)
		}
		if got.Script != any(source) || got.ScriptLangShebang() != lang || got.ScriptLang != map[string]code.ScriptLangType{"js": code.JS, "go": code.GO}[lang] {
			return failf("%s: gives %q in %q (%v)", what, got.Script, got.ScriptLangShebang(), got.ScriptLang)
		}
		if s, want := got.String(), source; !strings.Contains(s, want) || !strings.Contains(s, lang) {
			return failf("%s: is written as %q", what, s)
		}
	default:
		// arrays and objects can contain scripts
		_, isText := c.From.(string)
		if isText {
			x.NonTrivial()
		}
		x.Tag("no script")
		if p != nil || ok {
			return failf("%s: taken for a script (%v, %v)", what, p, got)
		}
		if isText && (fp != nil || found) {
			return failf("%s: no script, but FindScriptFields says %v (%v)", what, found, fp)
		}
	}
	return nil
}

func (c codeCase) doc(script any) (j *jom.JsonMap, err error) {
	m := clone(norm(c.Doc)).(obj)
	switch c.Way {
	case "map":
		m = goNumbers(m).(obj)
		m[c.Key] = script
		return jom.NewFromMap(m), nil
	}
	if j, err = load(m); err != nil {
		return nil, err
	}
	if c.Way == "run before" {
		j.Run()
	}
	(*j.GetInsides())[c.Key] = script
	if c.Way == "clone" {
		j = j.Clone(false).(*jom.JsonMap)
	}
	return j, nil
}

// What comes of running the code by itself, its member being removed, and of running what is left.
func (c codeCase) direct(piece code.Code, script any) (doc any, failure string, err error) {
	j, err := c.doc(script)
	if err != nil {
		return nil, "", err
	}
	before := ""
	if _, ok := script.(string); ok {
		before = mustJSON(*j.GetInsides())
	}
	scope := j.GetCurrentScopePath()
	var data json_map.JsonMapInt
	var runErr error
	p := catch(func() { data, runErr = code.Run(piece, j) })
	if before != "" {
		if after := mustJSON(*j.GetInsides()); after != before {
			return nil, "", failf("changes the document that it is given from %s to %s", before, after)
		}
	}
	if j.GetCurrentScopePath() != scope {
		return nil, "", failf("changes the scope path from %q to %q", scope, j.GetCurrentScopePath())
	}
	if p != nil || runErr != nil {
		return nil, fmt.Sprint(p, runErr), nil
	}
	out, ok := data.(*jom.JsonMap)
	if !ok || out == nil {
		return nil, "", failf("gives no document: %v", data)
	}
	if out.IsArray() {
		return nil, "", failf("gives an array")
	}
	delete(*out.GetInsides(), c.Key)
	if p := catch(out.Run); p != nil {
		return nil, "", failf("what is left does not run: %v", p)
	}
	doc, err = dump(out)
	return doc, "", err
}

var errorCode = regexp.MustCompile(`\(-\d+\)`)

func checkCode(c codeCase, x *Ctx) error {
	if c.Kind == "recognise" {
		return checkRecognise(c, x)
	}
	x.Tag(c.Kind)
	x.Tag("way " + c.Way)
	s := scriptOf(c.Script.(obj))
	var script any = s.source()
	if c.Leaves {
		// what it does depends on whether it has been run before
		head, rest, _ := strings.Cut(s.source(), "\n")
		script = head + "\nif (typeof seen_ !== 'undefined' || Object.seen_) { json.trail.seen_ = 1 } seen_ = Object.seen_ = 1;\n" + rest
		x.Tag("leaves globals")
	}
	if c.Kind == "callback" {
		script = s.callback(&recorder{})
	}
	what := fmt.Sprintf("code %s in %s (%s)", short(s.source()), short(c.Doc), c.Way)

	// what the document is evaluated to
	j, err := c.doc(script)
	if err != nil {
		return err
	}
	var failure any
	stdout, stderr := captured(func() { failure = catch(j.Run) })
	var want any
	if failure == nil {
		if want, err = dump(j); err != nil {
			return failf("%s: the document: %v", what, err)
		}
	}

	var piece code.Code
	ok := false
	if p := catch(func() { piece, ok = code.NewFrom(script) }); p != nil {
		if failure == nil {
			return failf("%s: NewFrom panics: %v", what, p)
		}
		x.Tag("unsupported")
		return nil
	}
	if !ok {
		return failf("%s: is not taken for code", what)
	}
	x.NonTrivial()
	x.TagIf(failure != nil, "fails")
	compare := func(how string, got any, gotFailure string, err error) error {
		how = what + how
		if err != nil {
			return failf("%s: %v", how, err)
		}
		if (failure != nil) != (gotFailure != "") {
			return failf("%s: by itself %q, in its document %v", how, gotFailure, failure)
		}
		if failure != nil {
			if a, b := errorCode.FindString(gotFailure), errorCode.FindString(fmt.Sprint(failure)); a != b {
				return failf("%s: by itself %s, in its document %v", how, gotFailure, failure)
			}
			return nil
		}
		return wantSame(how+": run by itself", got, want)
	}
	for n := 1; n <= 2; n++ {
		var got any
		var gotFailure string
		out, errs := captured(func() { got, gotFailure, err = c.direct(piece, script) })
		if err := compare(fmt.Sprintf(", time %d", n), got, gotFailure, err); err != nil {
			return err
		}
		if c.Kind == "script" {
			label := func(s string) string { return strings.ReplaceAll(s, "<$>", "<>") }
			if label(out) != label(stdout) || label(errs) != label(stderr) {
				return failf("%s: by itself it writes %q and %q, in its document %q and %q", what, out, errs, stdout, stderr)
			}
		}
	}
	if c.Others > 0 && c.Kind == "script" {
		x.Tag("at the same time")
		errs := make([]error, c.Others+1)
		var wg sync.WaitGroup
		for i := range errs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				got, gotFailure, err := c.direct(piece, script)
				errs[i] = compare(", at the same time", got, gotFailure, err)
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	register("C41", "a string or value that may be a script; or a generated script or callback, which may fail, taken by itself and run on a document made in one of 4 ways, repeatedly and at the same time; non-trivial: code is run, or a string is judged",
		genCodeCase, checkCode, workers(8, 8), counts(24000, 480000))
}
