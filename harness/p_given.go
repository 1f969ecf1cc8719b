package main

// C42: what is given to an operation, and what it gives, belongs to the caller.

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

type givenStep struct {
	buildStep
	Abs bool `json:"abs,omitempty"` // through the functions that take absolute paths
}

type givenCase struct {
	Text  []byte      `json:"text"`
	Steps []givenStep `json:"steps"`
	Spare int         `json:"spare"` // how much more there is in the memory behind each slice
	Numbs bool        `json:"numbs,omitempty"`
}

func genGivenCase(t *rapid.T) givenCase {
	b := genBuildCase(t)
	c := givenCase{Spare: irange(t, "spare", 1, 3), Numbs: chance(t, 30, "numbers of Go types?")}
	text := mustJSON(b.Doc)
	switch pick(t, "spelling", 4, 2, 2, 2) {
	case 1:
		text = "# a comment\n" + text
	case 2:
		text = " \r\n\t" + text + oneOf(t, "end", "\r\n", " ", "\t\n# comment", "\n//", "\r")
	case 3:
		if m, ok := b.Doc.(obj); ok && len(m) > 0 {
			// Hjson without the outer braces
			text = text[1 : len(text)-1]
		}
	}
	c.Text = []byte(text)
	for _, s := range b.Steps {
		g := givenStep{buildStep: s}
		switch s.K {
		case "select", "set", "del":
			g.Abs = chance(t, 40, "absolute paths?")
		}
		if s.K == "eval" || s.K == "print" || s.K == "nested" {
			g.K = oneOf(t, "instead", "eval", "load", "marshal")
		}
		c.Steps = append(c.Steps, g)
	}
	return c
}

// Slices that have more memory than they are long, which has to be left alone, too.
type guard struct {
	spare  int
	checks []func() error
	spoils []func()
}

func guarded[T any](g *guard, what string, s []T, with T, after T) []T {
	all := make([]T, 0, len(s)+g.spare+1)
	all = append(all, with)
	all = append(all, s...)
	for k := 0; k < g.spare; k++ {
		all = append(all, with)
	}
	was := append([]T{}, all...)
	g.checks = append(g.checks, func() error {
		if !reflect.DeepEqual(all, was) {
			return failf("the %s given were %v, with %d more on either side, and are now %v", what, was, g.spare, all)
		}
		return nil
	})
	g.spoils = append(g.spoils, func() {
		for i := range all {
			all[i] = after
		}
	})
	return all[1 : 1+len(s) : len(all)]
}

func (g *guard) bytes(b []byte) []byte { return guarded(g, "bytes", b, '"', 'x') }

func (g *guard) ints(s []int) []int {
	if len(s) == 0 {
		return nil
	}
	return guarded(g, "indices", s, 77, 0)
}

func (g *guard) value(v any) any {
	switch x := v.(type) {
	case obj:
		m := make(obj, len(x))
		for k, e := range x {
			m[k] = g.value(e)
		}
		was := make(obj, len(m))
		for k, e := range m {
			was[k] = e
		}
		g.checks = append(g.checks, func() error {
			if !reflect.DeepEqual(m, was) {
				return failf("the map given was %s and is now %s", mustJSON(was), mustJSON(m))
			}
			return nil
		})
		g.spoils = append(g.spoils, func() {
			clear(m)
			m["spoiled"] = true
		})
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = g.value(e)
		}
		return guarded[any](g, "elements", a, "spare", "spoiled")
	}
	return v
}

func (g *guard) paths(paths json_map.AbsolutePaths) *json_map.AbsolutePaths {
	spare := json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: "spare"}
	spoiled := json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: 99}
	list := make([][]json_map.AbsolutePathKey, len(paths))
	for i, path := range paths {
		keys := make([]json_map.AbsolutePathKey, len(path))
		for k, key := range path {
			if slice, ok := key.Value.([]json_map.AbsolutePathKey); ok {
				key.Value = guarded(g, "keys of the slice", slice, spare, spoiled)
			}
			keys[k] = key
		}
		list[i] = guarded(g, "keys", keys, spare, spoiled)
	}
	var p json_map.AbsolutePaths = guarded(g, "paths", list, nil, nil)
	return &p
}

func (g *guard) check() error {
	for _, check := range g.checks {
		if err := check(); err != nil {
			return err
		}
	}
	return nil
}

// What the document does. What is given is guarded, and spoiled after each step, as is what is returned, unless plain.
func (c givenCase) history(plain bool) (out []string, err error) {
	note := func(format string, a ...any) { out = append(out, fmt.Sprintf(format, a...)) }
	g := &guard{spare: c.Spare}
	// Everything that was given has to stay as it is during the step, and is of no importance afterwards.
	done := func(what string) error {
		if err := g.check(); err != nil {
			return failf("%s: %v", what, err)
		}
		if !plain {
			for _, spoil := range g.spoils {
				spoil()
			}
		}
		g = &guard{spare: c.Spare}
		return nil
	}
	// What the operations gave stays as it is.
	var kept []func() error
	spoilBytes := func(b []byte) {
		if was := string(b); plain {
			kept = append(kept, func() error {
				if string(b) != was {
					return failf("the text %q that an earlier operation gave has become %q", was, b)
				}
				return nil
			})
		} else {
			b = b[:cap(b)]
			for i := range b {
				b[i] = 'x'
			}
		}
	}
	spoilList := func(list []any) {
		if plain {
			was := append([]any{}, list...)
			kept = append(kept, func() error {
				for i, v := range was {
					switch v.(type) {
					case obj, arr:
						// (part of the document)
					default:
						if !reflect.DeepEqual(list[i], v) {
							return failf("element %d of a list that an earlier operation gave was %v and has become %v", i, v, list[i])
						}
					}
				}
				return nil
			})
		} else {
			list = list[:cap(list)]
			for i := range list {
				list[i] = "spoiled"
			}
		}
	}

	j := jom.New()
	var loadErr error
	p := catch(func() { loadErr = j.Unmarshal(g.bytes(c.Text)) })
	if err := done("Unmarshal"); err != nil {
		return nil, err
	}
	if p != nil || loadErr != nil {
		note("does not load")
		return out, nil
	}
	state := func() {
		note("%s array %v", mustJSON(*j.GetInsides()), j.IsArray())
	}
	state()
	for _, s := range c.Steps {
		var err, spoilErr error
		result := ""
		text := renderPath(s.P)
		value := g.value(s.V)
		if c.Numbs {
			value = g.value(goNumbers(s.V))
		}
		var paths *json_map.AbsolutePaths
		var nodes []*json_map.JsonPathNode
		if s.Abs {
			parsed, err := json_map.ParseJsonPath(text)
			if err != nil {
				note("%s does not parse", text)
				continue
			}
			paths = g.paths(parsed)
		}
		failed := false
		_, _ = captured(func() {
			p := catch(func() {
				switch s.K {
				case "select", "mget":
					switch {
					case s.K == "mget":
						list := j.MustGet(text)
						result = mustJSON(list)
						spoilList(list)
						return
					case s.Abs:
						var errs []error
						if nodes, errs = j.GetAbsolutePaths(paths); len(errs) > 0 {
							err = errs[0]
						}
					default:
						nodes, err = j.JsonPathSelector(text)
					}
					list := arr{}
					notes := make([]string, len(nodes))
					for i, n := range nodes {
						notes[i] = fmt.Sprint(n.Absolute)
						list = append(list, arr{n.Value, notes[i]})
					}
					result = mustJSON(list)
					if plain {
						nodes := nodes
						kept = append(kept, func() error {
							for i, n := range nodes {
								if got := fmt.Sprint(n.Absolute); got != notes[i] {
									return failf("the absolute path %s of a node that an earlier operation gave has become %s", notes[i], got)
								}
							}
							return nil
						})
					}
					if plain || s.Abs {
						return
					}
					// each node has its own path
					for i, n := range nodes {
						if got := fmt.Sprint(n.Absolute); got != notes[i] && spoilErr == nil {
							spoilErr = failf("selecting %s: the absolute path of node %d was %s and is %s after the one of node %d was changed", text, i, notes[i], got, i-1)
						}
						keys := append(n.Absolute, json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: "spoiled"})
						keys = keys[:cap(keys)]
						for k := range keys {
							keys[k] = json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: 99}
						}
						for k := range n.Absolute {
							n.Absolute[k] = json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: 98}
						}
						*n = json_map.JsonPathNode{}
					}
				case "set":
					if s.Abs {
						err = j.SetAbsolutePaths(paths, value)
					} else {
						err = j.JsonPathSetter(text, value)
					}
				case "mset":
					j.MustSet(text, value)
				case "del":
					if s.Abs {
						err = j.SetAbsolutePaths(paths, nil)
					} else {
						j.MustDelete(text)
					}
				case "push":
					j.MustPush(text, value, g.ints(s.Idx)...)
				case "pop":
					list := j.MustPop(text, g.ints(s.Idx)...)
					result = mustJSON(list)
					spoilList(list)
				case "run":
					j.Run()
				case "strip":
					j.Strip()
				case "find":
					result = fmt.Sprint(j.FindScriptFields())
				case "clone":
					k := j.Clone(false)
					result = mustJSON(*k.GetInsides())
				case "markup":
					err = j.MarkupCode(text, "js", s.Text)
				case "marshal":
					var b []byte
					b, err = j.Marshal()
					result = string(b)
					spoilBytes(b)
				case "eval":
					var in, res []byte
					if in, err = j.Marshal(); err == nil {
						given := g.bytes(in)
						res, err = jom.Eval(given, false)
						result = string(res)
						if same := g.check(); same != nil {
							spoilErr = same
						}
						spoilBytes(res)
						if same := g.check(); same != nil && spoilErr == nil {
							spoilErr = failf("the result shares memory with the text given: %v", same)
						}
						spoilBytes(in)
					}
				case "load":
					var b []byte
					if b, err = j.Marshal(); err == nil {
						err = j.Unmarshal(g.bytes(b))
					}
				}
			})
			failed = p != nil || err != nil
		})
		what := fmt.Sprintf("%s %s", s.K, text)
		if spoilErr != nil {
			return out, failf("%s: %v", what, spoilErr)
		}
		if err := done(what); err != nil {
			return out, err
		}
		for _, check := range kept {
			if err := check(); err != nil {
				return out, failf("%s: %v", what, err)
			}
		}
		if failed {
			note("%s fails", what)
			switch s.K {
			case "select", "mget", "find", "clone", "eval", "marshal":
			default:
				return out, nil // its state is open
			}
			continue
		}
		note("%s: %s", what, result)
		state()
	}
	return out, nil
}

func checkGiven(c givenCase, x *Ctx) error {
	what := fmt.Sprintf("%q, steps %s", bytes.TrimSpace(c.Text), mustJSON(c.Steps))
	want, err := c.history(true)
	if err != nil {
		return failf("%s: %v", what, err)
	}
	got, err := c.history(false)
	if err != nil {
		return failf("%s: %v", what, err)
	}
	if len(want) > 1 {
		x.NonTrivial()
	}
	for _, s := range c.Steps[:min(len(c.Steps), len(want)/2)] {
		x.Tag("step " + s.K)
		x.TagIf(s.Abs, "absolute paths")
		x.TagIf(len(s.Idx) > 1, "several indices")
	}
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			g := "nothing"
			if i < len(got) {
				g = got[i]
			}
			return failf("%s: goes otherwise once the caller has used the memory of what it gave and got for something else:\n   got %s\n  want %s", what, g, want[i])
		}
	}
	if len(got) > len(want) {
		return failf("%s: goes on with %s", what, got[len(want)])
	}
	return nil
}

func init() {
	register("C42", "a text (JSON or Hjson, with scripts or not) and 1-5 of 14 operations on what is loaded from it, all slices given having more memory behind them; non-trivial: an operation was made",
		genGivenCase, checkGiven, workers(8, 8), counts(24000, 600000))
}
