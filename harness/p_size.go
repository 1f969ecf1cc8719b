package main

// C37: large documents, scripts and paths are handled like small ones.

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

// The document is built from these numbers.
type sizeCase struct {
	Shape   string `json:"shape"` // deep wide scripts text paths
	N       int    `json:"n"`
	Pattern []int  `json:"pattern,omitempty"` // deep: the kinds of the levels, repeated
	Scripts int    `json:"scripts,omitempty"` // how many scripts
	M       int    `json:"m,omitempty"`
	Ops     []int  `json:"ops"` // what is done with it
}

func genSizeCase(t *rapid.T) sizeCase {
	c := sizeCase{Shape: oneOf(t, "shape", "deep", "deep", "deep", "wide", "wide", "scripts", "text", "paths", "paths")}
	switch c.Shape {
	case "deep":
		c.N = oneOf(t, "size", irange(t, "n", 20, 100), irange(t, "n", 100, 400), irange(t, "n", 400, 1500))
		for n := irange(t, "kinds", 1, 6); n > 0; n-- {
			c.Pattern = append(c.Pattern, uniform(t, 7))
		}
		c.Scripts = oneOf(t, "scripts", 0, 0, 1, 2, irange(t, "n", 3, 12))
	case "wide":
		c.N = oneOf(t, "size", irange(t, "n", 100, 600), irange(t, "n", 600, 6000))
		c.Scripts = uniform(t, 3)
	case "scripts":
		c.N = oneOf(t, "size", irange(t, "n", 11, 60), irange(t, "n", 60, 400))
	case "text":
		c.N = oneOf(t, "size", irange(t, "n", 1000, 20000), irange(t, "n", 20000, 100000))
	case "paths":
		c.N = oneOf(t, "size", irange(t, "n", 20, 120), irange(t, "n", 120, 1500))
	}
	c.M = uniform(t, 1000)
	c.Ops = []int{uniform(t, 20), uniform(t, 20)}
	return c
}

// The nested document and the path to its innermost value.
func (c sizeCase) deep(leaf any, scripts bool) (any, string) {
	kinds := append([]int{}, c.Pattern...)
	v := any(obj{"leaf": leaf})
	path := ".leaf"
	left := c.Scripts
	every := c.N/(c.Scripts+1) + 1
	for i := c.N - 1; i >= 0; i-- {
		kind := kinds[i%len(kinds)]
		script := left > 0 && i%every == 0
		if script && kind < 4 {
			kind = 4
		}
		switch kind {
		case 0, 1:
			v, path = arr{v}, "[0]"+path
			if kind == 1 {
				v, path = arr{float64(i), v.(arr)[0], "x"}, strings.Replace(path, "[0]", "[1]", 1)
			}
		case 2:
			v, path = arr{obj{"e": nil}, arr{}, v, obj{}}, "[2]"+path
		case 3:
			v, path = arr{v, "#//!js"}, "[0]"+path
		case 4:
			v, path = obj{"a": v}, ".a"+path
		case 5:
			v, path = obj{"b": float64(i), "c": v, "d": "text"}, ".c"+path
		case 6:
			v, path = obj{"e": arr{}, "f": v, "g": obj{"h": nil}}, ".f"+path
		}
		if script {
			left--
			if scripts {
				v.(obj)["s"] = placeholder(Script{ID: i + 1, Log: true, Ops: []Op{{K: "set", P: []any{"done"}, V: float64(i)}}})
			}
		}
	}
	if _, ok := v.(arr); ok {
		path = ".array" + path
	}
	return v, "$" + path
}

func checkSize(c sizeCase, x *Ctx) error {
	x.Tag(c.Shape)
	if c.N >= 100 {
		x.NonTrivial()
	}
	x.TagIf(c.N >= 400, c.Shape+", large")
	start := time.Now()
	defer func() {
		x.TagIf(time.Since(start) > 5*time.Second, "more than 5 s")
	}()
	switch c.Shape {
	case "deep":
		return checkDeep(c, x)
	case "wide":
		return checkWide(c, x)
	case "scripts":
		return checkManyScripts(c, x)
	case "text":
		return checkLongText(c, x)
	}
	return checkLongPaths(c, x)
}

// Compares without printing all of it.
func wantLarge(what string, got, want any) error {
	if same(got, want) {
		return nil
	}
	return failf("%s: got %s, want %s", what, short(got), short(want))
}

func selected(j *jom.JsonMap, path string) (arr, error) {
	nodes, err := j.JsonPathSelector(path)
	if err != nil {
		return nil, failf("selecting %s: %v", firstWords(path, 12), err)
	}
	out := arr{}
	for _, n := range nodes {
		out = append(out, norm(n.Value))
	}
	return out, nil
}

func checkDeep(c sizeCase, x *Ctx) error {
	what := fmt.Sprintf("a document of %d nested levels (%v, %d scripts)", c.N, c.Pattern, c.Scripts)
	doc, path := c.deep("L", true)
	plain, _ := c.deep("L", false)
	text := textOf(doc)
	root := "$"
	if _, ok := doc.(arr); ok {
		root = "$.array"
	}
	for _, op := range c.Ops {
		j, err := loadText(text)
		if err != nil {
			return failf("loading %s: %v", what, err)
		}
		switch op {
		case 0, 1, 2, 3:
			x.Tag("deep: evaluate")
			want, log, merr := modelRun(doc, false)
			if merr != nil {
				return merr
			}
			got, out, err := evaluate(text, "eval")
			if err != nil {
				return failf("evaluating %s: %v", what, err)
			}
			if err := wantLarge("evaluating "+what, got, norm(want)); err != nil {
				return err
			}
			if err := checkOrder(idsOf(out), log); err != nil {
				return failf("evaluating %s: %v", what, err)
			}
		case 4, 5:
			x.Tag("deep: strip")
			if found := j.FindScriptFields(); found != (c.Scripts > 0) {
				return failf("FindScriptFields() is %v for %s", found, what)
			}
			j.Strip()
			got, err := dump(j)
			if err != nil {
				return err
			}
			return wantLarge("stripping "+what, got, norm(modelStrip(doc)))
		case 6, 7:
			x.Tag("deep: select")
			got, err := selected(j, path)
			if err != nil {
				return failf("%s: %v", what, err)
			}
			if err := wantLarge("selecting the innermost value of "+what, got, arr{"L"}); err != nil {
				return err
			}
		case 8, 9:
			x.Tag("deep: look for")
			got, err := selected(j, root+"..leaf")
			if err != nil {
				return failf("%s: %v", what, err)
			}
			if err := wantLarge("looking for the innermost value of "+what, got, arr{"L"}); err != nil {
				return err
			}
		case 10, 11, 12, 13:
			x.Tag("deep: set")
			p, want := path, any(nil)
			if op >= 12 {
				p = root + "..leaf"
			}
			want, _ = c.deep(obj{"new": 1.0}, false)
			j, err := loadText(textOf(plain))
			if err != nil {
				return err
			}
			if err := j.JsonPathSetter(p, obj{"new": 1.0}); err != nil {
				return failf("setting the innermost value of %s: %v", what, err)
			}
			got, err := dump(j)
			if err != nil {
				return err
			}
			if err := wantLarge("setting the innermost value of "+what, got, norm(want)); err != nil {
				return err
			}
		case 14:
			x.Tag("deep: clone")
			k := j.Clone(false)
			if err := k.JsonPathSetter(path, 5); err != nil {
				return failf("setting in a clone of %s: %v", what, err)
			}
			got, err := dump(j)
			if err != nil {
				return err
			}
			if err := wantLarge("the original of an edited clone of "+what, got, norm(renderDoc(doc))); err != nil {
				return err
			}
		case 15, 16:
			x.Tag("deep: print")
			k, err := loadText([]byte(j.String()))
			if err != nil {
				return failf("loading the text of %s: %v", what, err)
			}
			got, err := dump(k)
			if err != nil {
				return err
			}
			if err := wantLarge("printing "+what, got, norm(renderDoc(doc))); err != nil {
				return err
			}
		case 17:
			x.Tag("deep: selectors in scripts")
			if root != "$" {
				continue
			}
			m := clone(plain).(obj)
			m["probe"] = "#//!js\nvar set = json.jsonPathSelector('$..leaf'); json.trail.found = set.getValues(); set.setValues('M'); json.trail.text = JSON.stringify(json.trail).length > 0;"
			got, _, err := evaluate(textOf(m), "eval")
			if err != nil {
				return failf("selecting in a script of %s: %v", what, err)
			}
			want, _ := c.deep("M", false)
			want.(obj)["found"], want.(obj)["text"] = arr{"L"}, true
			if err := wantLarge("selecting in a script of "+what, got, norm(want)); err != nil {
				return err
			}
		case 18:
			x.Tag("deep: filter")
			got, err := selected(j, strings.TrimSuffix(path, ".leaf")+"[?(@ == 'L')]")
			if err != nil {
				return failf("%s: %v", what, err)
			}
			if err := wantLarge("filtering the innermost object of "+what, got, arr{"L"}); err != nil {
				return err
			}
		case 19:
			x.Tag("deep: mark up and run")
			j, err := loadText(textOf(plain))
			if err != nil {
				return err
			}
			if err := j.MarkupCode(strings.TrimSuffix(path, "leaf")+"s", "js", "json.trail.leaf += json.scopePath.length;"); err != nil {
				return failf("marking up %s: %v", what, err)
			}
			if p := catch(j.Run); p != nil {
				return failf("running %s: %v", what, p)
			}
			got, err := selected(j, path)
			if err != nil {
				return err
			}
			// (the scope path has a dot in front of each index)
			scope := strings.ReplaceAll(strings.TrimSuffix(path, ".leaf"), "[", ".[")
			if err := wantLarge("marking up and running "+what, got, arr{"L" + fmt.Sprint(len(scope))}); err != nil {
				return err
			}
		}
	}
	return nil
}

func (c sizeCase) wide() (o obj, a arr, names []string) {
	o, a = obj{}, arr{}
	for i := 0; i < c.N; i++ {
		name := fmt.Sprintf("k%d", (i*7919+c.M)%100003)
		o[name] = float64(i)
		a = append(a, float64((i*31+c.M)%1000))
	}
	return o, a, sortedKeys(o)
}

func checkWide(c sizeCase, x *Ctx) error {
	what := fmt.Sprintf("an object and an array of %d", c.N)
	for _, op := range c.Ops {
		o, a, names := c.wide()
		j, err := load(obj{"o": o, "a": a})
		if err != nil {
			return err
		}
		expect := func(path string, want arr) error {
			got, err := selected(j, path)
			if err != nil {
				return failf("%s: %v", what, err)
			}
			return wantLarge("selecting "+path+" of "+what, got, want)
		}
		all := arr{}
		for _, n := range names {
			all = append(all, o[n])
		}
		after := func(what string, o obj, a arr) error {
			got, err := dump(j)
			if err != nil {
				return err
			}
			return wantLarge(what, got, norm(obj{"o": o, "a": a}))
		}
		less := func(v any) bool { return int(v.(float64))%9 == c.M%9 }
		filter := fmt.Sprintf("[?(@ %% 9 == %d)]", c.M%9)
		some := func(a arr, want bool) arr {
			out := arr{}
			for _, v := range a {
				if less(v) == want {
					out = append(out, v)
				}
			}
			return out
		}
		err = nil
		switch op {
		case 0:
			err = expect("$.o.*", all)
		case 1:
			err = expect("$.a[*]", a)
		case 2:
			lo, hi := c.M%c.N, c.N
			if lo > hi/2 {
				lo, hi = 3, lo
			}
			err = expect(fmt.Sprintf("$.a[%d:%d]", lo, hi), a[lo:hi])
		case 3, 4:
			x.Tag("wide: filter")
			err = expect("$.a"+filter, some(a, true))
		case 5:
			x.Tag("wide: filter")
			err = expect("$.o"+filter, some(all, true))
		case 6, 7:
			x.Tag("wide: delete by a filter")
			if err = j.JsonPathSetter("$.a"+filter, nil); err == nil {
				err = after("deleting $.a"+filter+" of "+what, o, some(a, false))
			}
		case 8:
			x.Tag("wide: set all")
			if err = j.JsonPathSetter("$.a[*]", "x"); err == nil {
				want := arr{}
				for range a {
					want = append(want, "x")
				}
				err = after("setting $.a[*] of "+what, o, want)
			}
		case 9:
			if err = j.JsonPathSetter("$.o.*", nil); err == nil {
				err = after("deleting $.o.* of "+what, obj{}, a)
			}
		case 10:
			x.Tag("wide: look for")
			all := arr{}
			for i := range a {
				a[i] = obj{"v": a[i], "w": arr{obj{"v": "inner"}}}
				all = append(all, a[i].(obj)["v"], "inner")
			}
			if j, err = load(obj{"o": o, "a": a}); err == nil {
				err = expect("$..v", all)
			}
		case 11:
			x.Tag("wide: look for")
			all := arr{}
			for i := range a {
				a[i] = obj{"v": a[i]}
				all = append(all, a[i].(obj)["v"])
			}
			if j, err = load(obj{"o": o, "a": a}); err == nil {
				err = expect("$.a.v", all)
			}
		case 12, 13:
			x.Tag("wide: push and pop")
			at := []int{}
			for i := 0; i < 200; i++ {
				at = append(at, (i*37+c.M)%c.N)
			}
			sort.Ints(at)
			uniq := at[:0]
			for i, n := range at {
				if i == 0 || n != at[i-1] {
					uniq = append(uniq, n)
				}
			}
			if op == 12 {
				if p := catch(func() { j.MustPush("$.a", "new", uniq...) }); p != nil {
					return failf("pushing to %s: %v", what, p)
				}
				err = after("pushing to "+what, o, modelPush(a, "new", uniq))
				break
			}
			_, left := modelPop(a, uniq)
			if p := catch(func() { j.MustPop("$.a", uniq...) }); p != nil {
				return failf("popping from %s: %v", what, p)
			}
			err = after("popping from "+what, o, left)
		case 14, 15, 16:
			x.Tag("wide: script")
			sum := 0.0
			for _, v := range a {
				sum += v.(float64)
			}
			doc := obj{"o": o, "a": a, "s": "#//!js\nvar n = 0, k = 0; for (var i in json.trail.a) { n += json.trail.a[i]; } for (var m in json.trail.o) { k++; } json.trail.sum = n; json.trail.count = k; json.trail.a.push(json.trail.a.length);"}
			var got any
			if got, _, err = evaluate(textOf(doc), "eval"); err == nil {
				err = wantLarge("a script that sums up "+what, got, norm(obj{"o": o, "a": append(a, float64(c.N)), "sum": sum, "count": float64(len(o))}))
			}
		case 17:
			k := j.Clone(false)
			k.Strip()
			var b []byte
			if b, err = k.Marshal(); err == nil {
				var got any
				if got, err = fromJSON(b); err == nil {
					err = wantLarge("a clone of "+what, got, norm(obj{"o": o, "a": a}))
				}
			}
		case 18:
			x.Tag("wide: print")
			if j, err = loadText([]byte(j.String())); err == nil {
				err = after("printing "+what, o, a)
			}
		case 19:
			x.Tag("wide: scripts in an array")
			x.NonTrivial()
			n := c.N/10 + 2
			els, want := arr{}, arr{}
			for i := 0; i < n; i++ {
				els = append(els, obj{"i": float64(i), "s": "#//!js\njson.trail.i = json.trail.i * 2;"})
				want = append(want, obj{"i": float64(2 * i)})
			}
			var got any
			if got, _, err = evaluate(textOf(els), "eval"); err == nil {
				err = wantLarge(fmt.Sprintf("evaluating an array of %d objects with a script each", n), got, norm(want))
			}
		}
		if err != nil {
			return failf("%s: %v", what, err)
		}
	}
	return nil
}

func checkManyScripts(c sizeCase, x *Ctx) error {
	what := fmt.Sprintf("an object with %d scripts", c.N)
	doc, log := obj{"log": arr{}}, arr{}
	keys := []string{}
	for i := 0; i < c.N; i++ {
		keys = append(keys, fmt.Sprintf("s%d", (i*7919+c.M)%10007))
	}
	sort.Strings(keys)
	for i, k := range keys {
		if i > 0 && k == keys[i-1] {
			continue
		}
		log = append(log, k)
		doc[k] = fmt.Sprintf("#//!js\njson.trail.log.push('%s');", k)
	}
	want := obj{"log": log}
	switch c.Ops[0] % 3 {
	case 1: // each adds the next one, one level down
		x.Tag("scripts: a chain")
		n := c.N%60 + 11
		what = fmt.Sprintf("a chain of %d scripts", n)
		doc = obj{"s": fmt.Sprintf("#//!js\nif (json.trail.n === undefined) { json.trail.n = %d; } if (json.trail.n > 0) { var next = {n: json.trail.n - 1, s: json.trail.s}; json.trail.next = next; }", n)}
		v := obj{"n": 0.0}
		for i := 1; i <= n; i++ {
			v = obj{"n": float64(i), "next": v}
		}
		want = v
	case 2: // callbacks
		x.Tag("scripts: callbacks")
		what = fmt.Sprintf("an object with %d callbacks", c.N)
		j, err := load(obj{"log": arr{}})
		if err != nil {
			return err
		}
		for _, k := range keys {
			k := k
			(*j.GetInsides())[k] = func(m json_map.JsonMapInt) { m.MustPush("$.log", k) }
		}
		if p := catch(j.Run); p != nil {
			return failf("running %s: %v", what, p)
		}
		got, err := dump(j)
		if err != nil {
			return err
		}
		return wantLarge("running "+what, got, norm(want))
	}
	got, _, err := evaluate(textOf(doc), "eval")
	if err != nil {
		return failf("evaluating %s: %v", what, err)
	}
	return wantLarge("evaluating "+what, got, norm(want))
}

func checkLongText(c sizeCase, x *Ctx) error {
	unit := oneOfBy(c.M, "x", "line\n", "é", "日本\n", "\"", "\\", "😀", "'''", " ", "\t", "{\"a\": [", "// ", "<>&", "a,b:c ", "\u2028")
	long := "t" + strings.Repeat(unit, c.N/len(unit)) + "t"
	what := fmt.Sprintf("a text of %d bytes (%q)", len(long), unit)
	for _, op := range c.Ops {
		doc := any(obj{"t": long, "u": arr{long}})
		var err error
		var got, want any
		switch op % 5 {
		case 0:
			x.Tag("text: print")
			var j *jom.JsonMap
			if j, err = load(doc); err == nil {
				if j, err = loadText([]byte(j.String())); err == nil {
					got, err = dump(j)
					want = doc
				}
			}
		case 1:
			x.Tag("text: script")
			doc.(obj)["s"] = "#//!js\njson.trail.v = json.trail.t + '!'; json.trail.same = json.trail.t === json.trail.u[0];"
			got, _, err = evaluate(textOf(doc), "eval")
			want = obj{"t": long, "u": arr{long}, "v": long + "!", "same": true}
		case 2:
			x.Tag("text: script source")
			if strings.Contains(unit, "\n") || unit == "\u2028" {
				unit = "x"
				long = strings.Repeat(unit, c.N)
			}
			doc = obj{"s": "#//!js\n//" + long + "\njson.trail.a = 1;\n//" + long + strings.Repeat("\n", c.N/2) + "json.trail.b = 2;"}
			got, _, err = evaluate(textOf(doc), "eval")
			want = obj{"a": 1.0, "b": 2.0}
		case 3:
			x.Tag("text: key")
			doc = obj{long: obj{"s": "#//!js\njson.trail.a = json.scopePath.length > 1000;"}, "z": long}
			got, _, err = evaluate(textOf(doc), "eval")
			want = obj{long: obj{"a": len(long) > 990}, "z": long}
			if len([]rune(long)) < 1100 { // (too close to the limit to say)
				return skip("short")
			}
		case 4:
			x.Tag("text: error and console")
			doc = obj{"t": long, "s": "#//!js\nconsole.log(json.trail.t); json.trail.n = 1;"}
			var out string
			got, out, err = evaluate(textOf(doc), "eval")
			want = obj{"t": long, "n": 1.0}
			if err == nil && !strings.Contains(strings.ReplaceAll(out, "\n\t", "\n"), long) {
				return failf("printing %s on the console: %d bytes were printed", what, len(out))
			}
		}
		if err != nil {
			return failf("%s: %v", what, err)
		}
		if err := wantLarge(what, got, norm(want)); err != nil {
			return err
		}
	}
	return nil
}

func checkLongPaths(c sizeCase, x *Ctx) error {
	for _, op := range c.Ops {
		var doc any
		var path string
		want := arr{}
		set := any(nil) // the document after setting the path to "S"
		switch op % 7 {
		case 0: // many indices
			x.Tag("paths: many indices")
			a, b := arr{}, arr{}
			list := []string{}
			picked := map[int]bool{}
			for i := 0; i < c.N; i++ {
				a = append(a, float64(i))
				if (i*7+c.M)%3 > 0 {
					k := (i*13 + c.M) % c.N
					list = append(list, fmt.Sprint(k))
					want = append(want, float64(k))
					picked[k] = true
				}
			}
			for i := range a {
				if picked[i] {
					b = append(b, "S")
				} else {
					b = append(b, a[i])
				}
			}
			doc, path, set = obj{"a": a}, "$.a["+strings.Join(list, ",")+"]", obj{"a": b}
		case 1: // lists of indices one after the other
			x.Tag("paths: combinations")
			n := c.N%10 + 4 // (up to 8192 places)
			var v any = "v"
			w := any("S")
			for i := 0; i < n; i++ {
				v, w = arr{v, clone(v)}, arr{w, clone(w)}
				path += "[0,1]"
			}
			for i := 0; i < 1<<n; i++ {
				want = append(want, "v")
			}
			doc, path, set = obj{"a": v}, "$.a"+path, obj{"a": w}
		case 2: // wildcards
			x.Tag("paths: wildcards")
			n := c.N % 60
			doc, path = any(arr{"v"}), "$"
			set = any(arr{"S"})
			want = arr{"v"}
			if c.M%2 == 1 {
				for i := 0; i < c.N*6; i++ {
					doc, set, want = append(doc.(arr), float64(i)), append(set.(arr), "S"), append(want, float64(i))
				}
			}
			for i := 0; i < n; i++ {
				doc, set = arr{doc}, arr{set}
			}
			doc, set = obj{"a": doc}, obj{"a": set}
			path += ".a" + strings.Repeat("[0]", n) + "[*]"
		case 3: // first descents
			x.Tag("paths: first descents")
			n := c.N%300 + 1
			doc, set = any(obj{"x": "v"}), any(obj{"x": "S"})
			for i := 0; i < n; i++ {
				doc, set = obj{"b": doc, "c": arr{}, "a": 1.0}, obj{"b": set, "c": arr{}, "a": 1.0}
			}
			path, want = "$.."+strings.Repeat(".", n)+"x", arr{"v"}
		case 4: // a long filter
			x.Tag("paths: a long filter")
			terms := []string{}
			for i := 0; i < c.N; i++ {
				terms = append(terms, fmt.Sprintf("@ != %d", i))
			}
			doc, path, want = obj{"a": arr{-1.0, 0.0, float64(c.N - 1), float64(c.N), "x"}}, "$.a[?("+strings.Join(terms, " && ")+")]", arr{-1.0, float64(c.N), "x"}
			set = obj{"a": arr{"S", 0.0, float64(c.N - 1), "S", "S"}}
		case 5: // many paths in a filter
			x.Tag("paths: paths in a filter")
			terms := []string{}
			m := obj{}
			for i := 0; i < c.N/4+1; i++ {
				m[fmt.Sprintf("n%d", i)] = float64(i)
				terms = append(terms, fmt.Sprintf("@ == $.m.n%d ", i))
			}
			n := float64(c.N/4 + 1)
			doc, path, want = obj{"m": m, "a": arr{0.0, n - 1, n, -1.0}}, "$.a[?("+strings.Join(terms, "|| ")+")]", arr{0.0, n - 1}
			set = obj{"m": clone(m), "a": arr{"S", "S", n, -1.0}}
		case 6: // a long name
			x.Tag("paths: long names")
			long := "n" + strings.Repeat(oneOfBy(c.M, "n", "a-1", "name_", "Z9"), c.N*3)
			doc, path, want = obj{long: obj{long: "v"}}, "$."+long+"."+long, arr{"v"}
			set = obj{long: obj{long: "S"}}
		}
		j, err := load(doc)
		if err != nil {
			return err
		}
		what := fmt.Sprintf("the path %s of %d bytes", firstWords(path, 8), len(path))
		if len(what) > 300 {
			what = what[:300]
		}
		got, err := selected(j, path)
		if err != nil {
			return failf("%s: %.600v", what, err)
		}
		if err := wantLarge("selecting "+what, got, want); err != nil {
			return err
		}
		if err := j.JsonPathSetter(path, "S"); err != nil {
			return failf("setting %s: %.600v", what, err)
		}
		after, err := dump(j)
		if err != nil {
			return err
		}
		if err := wantLarge("setting "+what, after, norm(set)); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	register("C37", "documents of up to 1500 nested levels or 6000 members, up to 400 scripts, texts, keys and script sources of up to 100 kB, paths of up to 1500 steps, indices or terms and up to 9000 selected places, built from a few generated numbers, with two operations each; non-trivial: the size is at least 100 (levels, members, scripts, bytes, steps)",
		genSizeCase, checkSize, counts(700, 20000), limit(60*time.Second))
}
