package main

// C38: what a document evaluates to does not depend on what surrounds it.

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/globals"
	"pgregory.net/rapid"
)

type placeCase struct {
	Parts  []string `json:"parts"`  // JSON texts of objects
	Around any      `json:"around"` // a document with {"@P": i} in the places of the parts
	Via    string   `json:"via"`
}

func isPart(v any) (int, bool) {
	m, ok := v.(obj)
	if !ok || len(m) != 1 {
		return 0, false
	}
	return toIndex(m["@P"])
}

// The document with the parts in their places; f is given their scope paths, too.
func fill(v any, path string, f func(i int, path string) any) any {
	if i, ok := isPart(v); ok {
		return f(i, path)
	}
	switch x := v.(type) {
	case obj:
		m := obj{}
		for k, e := range x {
			m[k] = fill(e, path+"."+k, f)
		}
		return m
	case arr:
		a := arr{}
		for i, e := range x {
			a = append(a, fill(e, fmt.Sprintf("%s.[%d]", path, i), f))
		}
		return a
	}
	return v
}

// Statements that recurse until the stack is used up take long, and those that see how deep the stack is differ.
var recursive = regexp.MustCompile(`\br\b|\bf\(\)|'' \+ o|\+o\b|stringify\(o\)|4294967296|1e308|eval|Function|callee|bind|scopePath|Date\(\)|random`)

func genPlacePart(t *rapid.T) string {
	for {
		switch pick(t, "part", 4, 3, 2, 1) {
		case 0:
			doc, _ := genScriptDoc(t, scriptOpts{max: 5, log: true, ops: 3, doc: docOpts{depth: 2, width: 3, plain: true, odd: 5}, nest: true, empty: 5})
			return string(textOf(doc))
		case 1:
			// the values of C39
			c := genValCase(t)
			if _, ok := c.Doc.(obj); !ok {
				continue
			}
			v, _ := lookAt(c.Doc, c.At)
			scope := v.(obj)
			src, _, _, _ := c.script(clone(scope).(obj))
			scope["s_"] = src + valFails[c.Fail]
			return mustJSON(c.Doc)
		case 2:
			doc := genDoc(t, docOpts{depth: 2, width: 3, odd: 8}, 0).(obj)
			for n := irange(t, "scripts", 1, 2); n > 0; n-- {
				at := []any{}
				objects(doc, nil, func(p []any) {
					if chance(t, 30, "here?") {
						at = p
					}
				})
				var b strings.Builder
				b.WriteString("#//!js\n")
				for k := irange(t, "statements", 1, 4); k > 0; k-- {
					s := hostile(t, sample(t, "statement", hostileStmts), irange(t, "nesting", 0, 3))
					if recursive.MatchString(s) {
						s = "json.trail.x = [json.trail.x];"
					}
					if chance(t, 85, "caught?") {
						s = "try { " + s + "\n} catch (e_) { json.trail.caught = " + oneOf(t, "catch", "'' + e_", "1", "typeof e_") + "; }"
					}
					b.WriteString(s + "\n")
				}
				if d, ok := withAt(doc, at, sample(t, "key", []string{"s1", "zz_", "A", "a", ""}), b.String()); ok {
					doc = d.(obj)
				}
			}
			return mustJSON(doc)
		default:
			return mustJSON(genDoc(t, docOpts{depth: 2, width: 3, odd: 8}, 0))
		}
	}
}

func genPlaceCase(t *rapid.T) placeCase {
	c := placeCase{Via: oneOf(t, "via", "eval", "run", "strip")}
	for n := irange(t, "parts", 1, 3); n > 0; n-- {
		c.Parts = append(c.Parts, genPlacePart(t))
	}
	around := genDoc(t, docOpts{depth: 3, width: 3, plain: true}, 15)
	// every part in at least one place
	for i := range c.Parts {
		for n := irange(t, "copies", 1, 2); n > 0; n-- {
			part := obj{"@P": float64(i)}
			var into []any
			walkPlaces(around, func(v any) { into = append(into, v) })
			if m, ok := sample(t, "into", append(into, around)).(obj); ok {
				m[oneOf(t, "key", "part", "p-1", "a", "b", "Z", "_")] = wrapped(t, part)
				continue
			}
			switch x := around.(type) {
			case obj:
				x["parts"] = arr{1.0, wrapped(t, part)}
			case arr:
				around = append(x, wrapped(t, part))
			}
		}
	}
	if chance(t, 40, "outer scripts?") {
		walkPlaces(around, func(v any) {
			if m, ok := v.(obj); ok && chance(t, 50, "here?") {
				m["o_"] = oneOf(t, "outer script", "#//!js\njson.trail.outer = 1;", "#//!js\n", "#//!js\nvar x = json.jsonPathSelector('$.*').getValues();", "#//!js\nJSON.parse = 1; json.trail.toString = 2; delete json.trail.toString;",
					"#//!js\njson.jsonPathSelector('$.outer').setValues(1);", "#//!js\nObject.prototype.zz = 1; delete Object.prototype.zz; json.trail.outer = [];")
			}
		})
	}
	c.Around = around
	return c
}

func wrapped(t *rapid.T, v any) any {
	for chance(t, 25, "in an array?") {
		v = oneOf(t, "array", arr{v}, arr{0.0, v}, arr{v, arr{}, nil})
	}
	return v
}

// The containers of a document, but for the parts.
func walkPlaces(v any, f func(v any)) {
	if _, ok := isPart(v); ok {
		return
	}
	switch x := v.(type) {
	case obj:
		for _, k := range sortedKeys(x) {
			walkPlaces(x[k], f)
		}
		f(x)
	case arr:
		for _, e := range x {
			walkPlaces(e, f)
		}
	}
}

// All strings with the path of the place replaced by that of the root.
func rooted(v any, path string) any {
	switch x := v.(type) {
	case string:
		return strings.ReplaceAll(x, path, "$")
	case obj:
		m := obj{}
		for k, e := range x {
			m[strings.ReplaceAll(k, path, "$")] = rooted(e, path)
		}
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = rooted(e, path)
		}
		return a
	}
	return v
}

func checkPlaceCase(c placeCase, x *Ctx) error {
	guard := &copyGuard{depths: map[string]map[int]bool{}}
	code.RegisterLang("js", guard.run)
	defer code.RegisterLang("js", js.RunScript)
	globals.HaltingDelay = 4
	run := func(text []byte) (out any, ids []string, err error) {
		if c.Via == "strip" {
			j, err := loadText(text)
			if err != nil {
				return nil, nil, err
			}
			if p := catch(j.Strip); p != nil {
				return nil, nil, failf("Strip panics: %v", p)
			}
			out, err = dump(j)
			return out, nil, err
		}
		stdout := os.Stdout
		defer func() { os.Stdout = stdout }()
		out, log, err := evaluate(text, c.Via)
		for _, m := range idLine.FindAllStringSubmatch(log, -1) {
			ids = append(ids, m[1])
		}
		sort.Strings(ids)
		return out, ids, err
	}
	alone := make([]any, len(c.Parts))
	logs := make([][]string, len(c.Parts))
	failing := map[int]error{}
	for i, p := range c.Parts {
		a, la, ea := run([]byte(p))
		b, lb, eb := run([]byte(p))
		if guard.fired {
			return skip("known finding: a script copies itself")
		}
		for _, e := range []error{ea, eb} {
			if e != nil && strings.Contains(e.Error(), "(-1)") {
				return skip("takes long")
			}
		}
		if (ea == nil) != (eb == nil) || ea == nil && (!same(a, b) || !same(la, lb)) {
			return skip("a part evaluates to something else each time")
		}
		alone[i], logs[i] = a, la
		if ea != nil {
			failing[i] = ea
		}
	}
	doc := fill(c.Around, "$", func(i int, path string) any {
		v, err := fromJSON([]byte(c.Parts[i]))
		if err != nil {
			panic("harness error: " + err.Error())
		}
		return v
	})
	text := []byte(mustJSON(doc))
	got, ids, err := run(text)
	if guard.fired {
		return skip("known finding: a script copies itself")
	}
	what := fmt.Sprintf("evaluating (%s) %s", c.Via, text)
	reached := -1
	fill(c.Around, "$", func(i int, path string) any {
		if failing[i] != nil {
			reached = i
		}
		return nil
	})
	x.TagIf(len(c.Parts) > 1, "several parts")
	if len(alone) > 0 {
		x.NonTrivial()
	}
	if err != nil && strings.Contains(err.Error(), "(-1)") {
		return skip("takes long")
	}
	if reached >= 0 {
		x.Tag("a part fails")
		if err == nil {
			return failf("%s: no error, although the part %s alone fails: %v", what, c.Parts[reached], failing[reached])
		}
		return nil
	}
	if err != nil {
		return failf("%s: fails, although each of its parts alone does not: %v", what, err)
	}
	// what each place has to contain; paths of places in strings are those of the root when evaluated alone
	places := map[int][]string{}
	wantIds := []string{}
	want := fill(c.Around, "$", func(i int, path string) any {
		places[i] = append(places[i], path)
		wantIds = append(wantIds, logs[i]...)
		return obj{"@P": float64(i), "@path": path}
	})
	sort.Strings(wantIds)
	if fmt.Sprint(ids) != fmt.Sprint(wantIds) {
		return failf("%s: the scripts %v write to the console, expected %v", what, ids, wantIds)
	}
	var compare func(g, w any, at string) error
	compare = func(g, w any, at string) error {
		if m, ok := w.(obj); ok {
			if path, ok := m["@path"].(string); ok {
				i, _ := toIndex(m["@P"])
				if path == "$" {
					return wantSame(what+": at "+at, g, alone[i])
				}
				return wantSame(what+": at "+at+", compared to the part evaluated alone", rooted(g, path), rooted(alone[i], path))
			}
			gm, ok := g.(obj)
			if !ok {
				return failf("%s: at %s: got %s, expected an object", what, at, short(g))
			}
			expected := obj{}
			for k, e := range m {
				expected[k] = e
			}
			if src, ok := expected["o_"].(string); ok {
				delete(expected, "o_")
				switch {
				case c.Via == "strip":
				case strings.Contains(src, "outer = []"):
					expected["outer"] = arr{}
				case strings.Contains(src, "outer"):
					expected["outer"] = 1.0
				}
			}
			if fmt.Sprint(sortedKeys(gm)) != fmt.Sprint(sortedKeys(expected)) {
				return failf("%s: at %s: got the keys %q, expected %q", what, at, sortedKeys(gm), sortedKeys(expected))
			}
			for _, k := range sortedKeys(expected) {
				if err := compare(gm[k], expected[k], at+"."+k); err != nil {
					return err
				}
			}
			return nil
		}
		if a, ok := w.(arr); ok {
			ga, ok := g.(arr)
			if !ok || len(ga) != len(a) {
				return failf("%s: at %s: got %s, expected %d elements", what, at, short(g), len(a))
			}
			for i := range a {
				if err := compare(ga[i], a[i], fmt.Sprintf("%s.[%d]", at, i)); err != nil {
					return err
				}
			}
			return nil
		}
		return wantSame(what+": at "+at, g, norm(w))
	}
	return compare(got, want, "$")
}

func init() {
	register("C38", "1-3 parts (documents with scripts: op lists, values of all kinds of Javascript, hostile statements) evaluated alone and at 1-2 places each of a surrounding document with scripts of its own; every case that is not discarded is non-trivial", genPlaceCase, checkPlaceCase, counts(5000, 120000))
}
