package main

// C40: a document is its value, however it came to be.

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

type buildStep struct {
	K    string `json:"k"`
	P    []Seg  `json:"p,omitempty"`
	V    any    `json:"v,omitempty"`
	Idx  []int  `json:"idx,omitempty"`
	Text string `json:"text,omitempty"`
}

type buildCase struct {
	Doc   any         `json:"doc"`
	Ways  []string    `json:"ways"`
	Steps []buildStep `json:"steps"`
	Other any         `json:"other"` // what the object held before, or is edited to and back
	At    int         `json:"at"`    // the member that is edited
}

// The ways to come by a document; those after the bar need one without scripts.
var buildWays = []string{"reused", "map", "map", "numbers", "numbers", "json numbers", "members", "insides", "insides", "inplace", "clone", "clone of map", "there and back", "used", "bottom up", "bottom up", "cleared",
	"printed", "marshalled", "hjson", "interface", "twice", "|", "script", "callback", "evaluated"}

func hasScriptText(v any) bool {
	found := false
	walk(v, func(x any) {
		if s, ok := x.(string); ok && strings.HasPrefix(s, "#//!") {
			found = true
		}
	})
	return found
}

func hasMember(v any, name string) bool {
	found := false
	walk(v, func(x any) {
		if m, ok := x.(obj); ok {
			_, has := m[name]
			found = found || has
		}
	})
	return found
}

func genBuildCase(t *rapid.T) buildCase {
	c := buildCase{At: uniform(t, 20)}
	o := docOpts{depth: 3, width: 4, plain: true, odd: 6}
	if chance(t, 55, "scripts?") {
		doc, _ := genScriptDoc(t, scriptOpts{max: 4, log: true, ops: 2, doc: o, arrays: 12, nest: true, empty: 5})
		c.Doc = norm(renderDoc(doc))
	} else {
		c.Doc = genDoc(t, o, 20)
		if chance(t, 10, "a failing script?") {
			if m, ok := c.Doc.(obj); ok {
				m["fails"] = oneOf(t, "how", "#//!js\nthrow json.trail;", "#//!js\nnull.x", "#//!py\nx = 1", "#//!js\njson.trail = 5")
			}
		}
	}
	c.Other = genDoc(t, docOpts{depth: 2, width: 3, plain: true}, 20)
	n := 0
	for buildWays[n] != "|" {
		n++
	}
	ways := buildWays[:n]
	if !hasScriptText(c.Doc) {
		ways = buildWays
	}
	for k := irange(t, "ways", 1, 3); k > 0; k-- {
		if w := sample(t, "way", ways); w != "|" {
			c.Ways = append(c.Ways, w)
		} else {
			c.Ways = append(c.Ways, "map")
		}
	}
	root := rootOf(c.Doc)
	for k := irange(t, "steps", 1, 5); k > 0; k-- {
		s := buildStep{K: oneOf(t, "step", "select", "select", "mget", "set", "mset", "del", "push", "pop", "run", "run", "strip", "print", "find", "clone", "markup", "eval", "nested")}
		switch s.K {
		case "select", "mget":
			s.P = genPath(t, root, pathOpts{maxLen: 4})
		case "set", "mset":
			s.P, s.V = genSetPath(t, c.Doc, 4), genSetValue(t)
		case "del":
			s.P = genSetPath(t, c.Doc, 4)
		case "markup":
			s.P = genSetPath(t, c.Doc, 3)
			s.Text = oneOf(t, "code", "json.trail.m_ = 1", "", "console.log(JSON.stringify(json.trail))", "json.jsonPathSelector('$.*').setValues(5)", "throw 'x'")
		case "push", "pop":
			ps, lens := arrayPaths(root)
			if len(ps) == 0 {
				continue
			}
			i := uniform(t, len(ps))
			s.P, s.V = ps[i], genSetValue(t)
			s.Idx = intSlice(t, "indices", 0, lens[i]+2, 0, 3)
		case "nested":
			s.V = uniform(t, 20)
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// The value without its non-null members and elements.
func shell(v any) any {
	switch x := v.(type) {
	case obj:
		m := obj{}
		for k, e := range x {
			if e == nil {
				m[k] = nil
			}
		}
		return m
	case arr:
		return make(arr, len(x))
	}
	return v
}

func bottomUp(j *jom.JsonMap, v any, at []json_map.AbsolutePathKey) error {
	set := func(key json_map.AbsolutePathKey, e any) error {
		if e == nil {
			return nil
		}
		path := append(at[:len(at):len(at)], key)
		if err := j.SetAbsolutePaths(&json_map.AbsolutePaths{path}, shell(e)); err != nil {
			return fmt.Errorf("setting %v: %v", path, err)
		}
		return bottomUp(j, e, path)
	}
	switch x := v.(type) {
	case obj:
		for _, k := range sortedKeys(x) {
			if err := set(json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: k}, x[k]); err != nil {
				return err
			}
		}
	case arr:
		for i, e := range x {
			if err := set(json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: i}, e); err != nil {
				return err
			}
		}
	}
	return nil
}

func (c buildCase) build(way string) (j *jom.JsonMap, err error) {
	root, isArr := clone(rootOf(c.Doc)).(obj), false
	if _, ok := c.Doc.(arr); ok {
		isArr = true
	}
	fromMap := func(m obj) *jom.JsonMap {
		j := jom.NewFromMap(m)
		j.Array = isArr
		return j
	}
	keys := sortedKeys(root)
	switch way {
	case "reused":
		if j, err = load(c.Other); err != nil {
			return nil, err
		}
		use(j, oneOfBy(c.At, uses...))
		text := mustJSON(c.Doc)
		if c.At%2 == 0 {
			text = "# Hjson\n" + text
		}
		return j, j.Unmarshal([]byte(text))
	case "map":
		return fromMap(root), nil
	case "numbers":
		return fromMap(goNumbers(root).(obj)), nil
	case "json numbers":
		d := json.NewDecoder(strings.NewReader(mustJSON(root)))
		d.UseNumber()
		m := obj{}
		if err = d.Decode(&m); err != nil {
			return nil, err
		}
		return fromMap(m), nil
	case "members":
		j = jom.New()
		j.Array = isArr
		for _, k := range keys {
			if root[k] == nil {
				(*j.GetInsides())[k] = nil
				continue
			}
			path := json_map.AbsolutePaths{{{KeyType: json_map.StringKey, Value: k}}}
			if err := j.SetAbsolutePaths(&path, root[k]); err != nil {
				return nil, err
			}
		}
		return j, nil
	case "insides":
		j = jom.New()
		j.Array = isArr
		*j.GetInsides() = root
		return j, nil
	case "inplace":
		if isArr {
			return fromMap(root), nil
		}
		if j, err = load(c.Other); err != nil {
			return nil, err
		}
		j.Array = false
		m := *j.GetInsides()
		for k := range m {
			delete(m, k)
		}
		for k, v := range root {
			m[k] = v
		}
		return j, nil
	case "clone", "clone of map":
		if j, err = load(c.Doc); err != nil {
			return nil, err
		}
		if way == "clone of map" {
			j = fromMap(goNumbers(root).(obj))
		}
		k := j.Clone(false).(*jom.JsonMap)
		use(j, oneOfBy(c.At, uses...))
		return k, nil
	case "there and back":
		if j, err = load(c.Doc); err != nil || len(keys) == 0 {
			return j, err
		}
		k := keys[c.At%len(keys)]
		if isArr {
			k = "array"
		}
		path := json_map.AbsolutePaths{{{KeyType: json_map.StringKey, Value: k}}}
		if err = j.SetAbsolutePaths(&path, clone(c.Other)); err != nil {
			return nil, err
		}
		extra := json_map.AbsolutePaths{{{KeyType: json_map.StringKey, Value: "extra_"}}}
		if err = j.SetAbsolutePaths(&extra, clone(c.Other)); err != nil {
			return nil, err
		}
		if c.At%3 == 0 {
			if err = j.SetAbsolutePaths(&path, nil); err != nil {
				return nil, err
			}
		}
		if root[k] == nil {
			(*j.GetInsides())[k] = nil
		} else if err = j.SetAbsolutePaths(&path, root[k]); err != nil {
			return nil, err
		}
		return j, j.SetAbsolutePaths(&extra, nil)
	case "used":
		if j, err = load(c.Doc); err != nil {
			return nil, err
		}
		for _, how := range []string{"find", "print", "get", "clone", "marshal"} {
			use(j, how)
		}
		return j, nil
	case "bottom up":
		if isArr {
			if j, err = load(arr{}); err != nil {
				return nil, err
			}
			(*j.GetInsides())["array"] = shell(root["array"])
			return j, bottomUp(j, root["array"], []json_map.AbsolutePathKey{{KeyType: json_map.StringKey, Value: "array"}})
		}
		j = jom.NewFromMap(shell(root).(obj))
		return j, bottomUp(j, root, nil)
	case "cleared":
		k, err := load(c.Other)
		if err != nil {
			return nil, err
		}
		j = k.Clone(true).(*jom.JsonMap)
		return j, j.Unmarshal([]byte(mustJSON(c.Doc)))
	case "printed":
		k, err := load(c.Doc)
		if err != nil {
			return nil, err
		}
		return loadText([]byte(k.String()))
	case "marshalled":
		text, err := fromMap(root).Marshal()
		if err != nil {
			return nil, err
		}
		return loadText(text)
	case "hjson":
		return loadText([]byte("# a comment\n" + mustJSON(c.Doc) + "\n// another one\n"))
	case "interface":
		var m json_map.JsonMapInt = fromMap(obj{})
		*m.GetInsides() = root
		return m.(*jom.JsonMap), nil
	case "twice":
		// the containers belong to another document, too, which only looks at them
		j = fromMap(root)
		k := fromMap(root)
		for _, how := range []string{"find", "print", "get", "clone", "marshal"} {
			use(k, how)
		}
		return j, nil
	case "script":
		if isArr || hasMember(c.Doc, "__proto__") || hasMember(c.Doc, "s_") {
			return fromMap(root), nil
		}
		j = jom.NewFromMap(obj{"s_": "#//!js\njson.trail = JSON.parse(" + jsLiteral(mustJSON(c.Doc)) + ");"})
		j.Run()
		return j, nil
	case "callback":
		if isArr || hasMember(c.Doc, "s_") {
			return fromMap(root), nil
		}
		j = jom.NewFromMap(obj{"s_": func(m json_map.JsonMapInt) {
			for k, v := range root {
				(*m.GetInsides())[k] = v
			}
		}})
		j.Run()
		return j, nil
	case "evaluated":
		text, err := jom.Eval([]byte(mustJSON(c.Doc)), false)
		if err != nil {
			return nil, err
		}
		return loadText(text)
	}
	return nil, fmt.Errorf("no way %q", way)
}

// What the document does, step by step.
func (c buildCase) history(j *jom.JsonMap, exact bool) (out []string) {
	printed := func(text string) string {
		// (the printed text of json.Numbers is another spelling)
		if k, err := loadText([]byte(text)); err == nil && !exact {
			return mustJSON(*k.GetInsides())
		}
		return text
	}
	note := func(format string, a ...any) { out = append(out, fmt.Sprintf(format, a...)) }
	state := func() {
		text, err := j.Marshal()
		if err != nil {
			note("does not marshal")
		}
		note("%s array %v", text, j.IsArray())
	}
	state()
	for _, s := range c.Steps {
		var err error
		var result any
		failed := false
		text := renderPath(s.P)
		stdout, stderr := captured(func() {
			p := catch(func() {
				switch s.K {
				case "select":
					var nodes []*json_map.JsonPathNode
					nodes, err = j.JsonPathSelector(text)
					list := arr{}
					for _, n := range nodes {
						list = append(list, arr{n.Value, fmt.Sprint(n.Absolute)})
					}
					result = list
				case "mget":
					result = j.MustGet(text)
				case "set":
					err = j.JsonPathSetter(text, clone(s.V))
				case "mset":
					j.MustSet(text, clone(s.V))
				case "del":
					err = j.JsonPathSetter(text, nil)
				case "push":
					j.MustPush(text, clone(s.V), s.Idx...)
				case "pop":
					result = j.MustPop(text, s.Idx...)
				case "run":
					j.Run()
				case "strip":
					j.Strip()
				case "print":
					result = printed(j.String())
				case "find":
					result = j.FindScriptFields()
				case "clone":
					k := j.Clone(false)
					result = arr{*k.GetInsides(), k.IsArray(), len(*j.Clone(true).GetInsides())}
				case "markup":
					err = j.MarkupCode(text, "js", s.Text)
				case "eval":
					var in, res []byte
					if in, err = j.Marshal(); err == nil {
						res, err = jom.Eval(in, false)
					}
					result = string(res)
				case "nested":
					// an object within it is a document, too
					var all []obj
					objectsOf(*j.GetInsides(), "$", func(o obj, path string) { all = append(all, o) })
					if n, _ := toIndex(s.V); len(all) > 0 {
						k := jom.NewFromMap(all[n%len(all)])
						result = arr{printed(k.String()), k.FindScriptFields(), mustJSON(*k.Clone(false).GetInsides()), mustJSON(k.MustGet("$.*"))}
					}
				}
			})
			failed = p != nil || err != nil
		})
		if failed {
			note("%s %s fails", s.K, text)
			switch s.K {
			case "select", "mget", "print", "find", "clone", "eval", "nested":
			default:
				return out // its state is open
			}
			continue
		}
		note("%s %s: %s, %q, %q", s.K, text, mustJSON(result), stdout, stderr)
		state()
	}
	return out
}

func checkBuild(c buildCase, x *Ctx) error {
	j, err := load(c.Doc)
	if err != nil {
		return err
	}
	want := c.history(j, true)
	if len(want) > 1 {
		x.NonTrivial()
	}
	for _, s := range c.Steps[:min(len(c.Steps), len(want)/2)] {
		x.Tag("step " + s.K)
	}
	x.TagIf(hasScriptText(c.Doc), "scripts")
	for _, way := range c.Ways {
		x.Tag("way " + way)
		k, err := c.build(way)
		if err != nil {
			return failf("%s cannot be made (%s): %v", mustJSON(c.Doc), way, err)
		}
		want, exact := want, true
		if way == "json numbers" {
			if j, err = load(c.Doc); err != nil {
				return err
			}
			want, exact = c.history(j, false), false
		}
		got := c.history(k, exact)
		for i := range want {
			if i >= len(got) || got[i] != want[i] {
				g := "nothing"
				if i < len(got) {
					g = got[i]
				}
				return failf("%s made by %q, steps %s: does not behave as if it had been loaded:\n   got %s\n  want %s", mustJSON(c.Doc), way, mustJSON(c.Steps), g, want[i])
			}
		}
		if len(got) > len(want) {
			return failf("%s made by %q, steps %s: goes on with %s", mustJSON(c.Doc), way, mustJSON(c.Steps), got[len(want)])
		}
	}
	return nil
}

func init() {
	register("C40", "a generated document (with up to 4 scripts in half of the cases) that came to be in 1-3 of 22 ways, and 1-5 of 16 operations on it; non-trivial: an operation was made",
		genBuildCase, checkBuild, workers(8, 8), counts(16000, 400000))
}
