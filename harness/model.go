package main

// The reference model: what selecting, setting, deleting, pushing and popping do on plain JSON values.

import "fmt"

type modelErr struct{ msg string }

func (e modelErr) Error() string { return "model: " + e.msg }

func impossible(format string, a ...any) error { return modelErr{fmt.Sprintf(format, a...)} }

// Is it an error the path rules prescribe (as opposed to a case outside the model's domain)?
func prescribed(err error) bool {
	if err == nil {
		return false
	}
	_, d := err.(discard)
	return !d
}

// ------------------------------------------------------------------------------------------------ select

func stepSelect(cur any, s Seg, root obj) (any, error) {
	switch x := cur.(type) {
	case obj:
		switch s.K {
		case "prop":
			v, ok := x[s.Name]
			if !ok {
				return nil, impossible("key %q is missing", s.Name)
			}
			return v, nil
		case "wild", "wildidx":
			out := arr{}
			for _, k := range sortedKeys(x) {
				out = append(out, x[k])
			}
			return out, nil
		case "filter":
			children := []any{}
			for _, k := range sortedKeys(x) {
				children = append(children, x[k])
			}
			keep, err := modelFilter(s, children, root)
			if err != nil {
				return nil, err
			}
			out := arr{}
			for _, i := range keep {
				out = append(out, children[i])
			}
			return out, nil
		case "first":
			for _, k := range sortedKeys(x) {
				if isContainer(x[k]) {
					return x[k], nil
				}
			}
			return nil, impossible("nothing to descend into")
		case "rl":
			return lookup(cur, s.Name), nil
		}
		return nil, impossible("%s on an object", s.K)
	case arr:
		switch s.K {
		case "prop":
			out := arr{}
			for _, e := range x {
				if m, ok := e.(obj); ok {
					if v, ok := m[s.Name]; ok {
						out = append(out, v)
					}
				}
			}
			return out, nil
		case "idx":
			if s.Idx[0] >= len(x) || s.Idx[0] < 0 {
				return nil, impossible("index %d out of range", s.Idx[0])
			}
			return x[s.Idx[0]], nil
		case "wild", "wildidx":
			return x, nil
		case "filter":
			keep, err := modelFilter(s, x, root)
			if err != nil {
				return nil, err
			}
			out := arr{}
			for _, i := range keep {
				out = append(out, x[i])
			}
			return out, nil
		case "slice":
			a, b, err := sliceBounds(s, len(x))
			if err != nil {
				return nil, err
			}
			return append(arr{}, x[a:b]...), nil
		case "rl":
			return lookup(cur, s.Name), nil
		}
		return nil, impossible("%s on an array", s.K)
	}
	return nil, impossible("descending into a scalar")
}

func sliceBounds(s Seg, n int) (int, int, error) {
	a, b := 0, n
	if s.S != nil {
		a = *s.S
		if a < 0 {
			a += n
		}
	}
	if s.E != nil {
		b = *s.E
		if b < 0 {
			b += n
		}
	}
	if a < 0 || b > n || a > b {
		return 0, 0, impossible("slice out of range")
	}
	return a, b, nil
}

// Every value of the given key in the subtree, in document order, arrays contributing their elements.
func lookup(v any, name string) arr {
	out := arr{}
	switch x := v.(type) {
	case obj:
		for _, k := range sortedKeys(x) {
			if k == name {
				if a, ok := x[k].(arr); ok {
					out = append(out, a...)
				} else {
					out = append(out, x[k])
				}
			}
			out = append(out, lookup(x[k], name)...)
		}
	case arr:
		for _, e := range x {
			out = append(out, lookup(e, name)...)
		}
	}
	return out
}

// The values each combination of listed indices leads to, not unwrapped.
func modelSelectRaw(root obj, segs []Seg) ([]any, error) {
	out := []any{}
	var unknown error
	for _, path := range expandSegs(segs) {
		var cur any = root
		for _, s := range path {
			v, err := stepSelect(cur, s, root)
			if err != nil {
				if prescribed(err) {
					return nil, err
				}
				unknown = err
				break
			}
			cur = v
		}
		out = append(out, cur)
	}
	if unknown != nil {
		return nil, unknown
	}
	return out, nil
}

func modelSelect(root obj, segs []Seg) ([]any, error) {
	vs, err := modelSelectRaw(root, segs)
	if err != nil {
		return nil, err
	}
	out := []any{}
	for _, v := range vs {
		if a, ok := v.(arr); ok {
			out = append(out, a...)
		} else {
			out = append(out, v)
		}
	}
	return out, nil
}

// ------------------------------------------------------------------------------------------------ set and delete

type setter struct {
	root  func() obj
	value any
	del   bool
	hits  int // places changed
}

func (st *setter) at(node any, path []Seg) (any, error) {
	if len(path) == 0 {
		st.hits++
		return clone(st.value), nil
	}
	s, rest := path[0], path[1:]
	last := len(rest) == 0
	del := last && st.del
	member := func(m obj, k string) error {
		if del {
			if _, ok := m[k]; ok {
				st.hits++
			}
			delete(m, k)
			return nil
		}
		if last {
			st.hits++
			m[k] = clone(st.value)
			return nil
		}
		v, err := st.at(m[k], rest)
		if err != nil {
			return err
		}
		m[k] = v
		return nil
	}
	elems := func(a arr, idx []int) (arr, error) {
		if del {
			gone := map[int]bool{}
			for _, i := range idx {
				gone[i] = true
			}
			out := arr{}
			for i, e := range a {
				if !gone[i] {
					out = append(out, e)
				} else {
					st.hits++
				}
			}
			return out, nil
		}
		for _, i := range idx {
			if last {
				st.hits++
				a[i] = clone(st.value)
				continue
			}
			v, err := st.at(a[i], rest)
			if err != nil {
				return nil, err
			}
			a[i] = v
		}
		return a, nil
	}
	switch x := node.(type) {
	case obj:
		switch s.K {
		case "prop":
			if _, ok := x[s.Name]; !ok && !last {
				return nil, impossible("key %q is missing", s.Name)
			}
			return x, member(x, s.Name)
		case "wild", "wildidx":
			for _, k := range sortedKeys(x) {
				if err := member(x, k); err != nil {
					return nil, err
				}
			}
			return x, nil
		case "filter":
			ks := sortedKeys(x)
			children := []any{}
			for _, k := range ks {
				children = append(children, x[k])
			}
			keep, err := modelFilter(s, children, st.root())
			if err != nil {
				return nil, err
			}
			for _, i := range keep {
				if err := member(x, ks[i]); err != nil {
					return nil, err
				}
			}
			return x, nil
		case "first":
			for _, k := range sortedKeys(x) {
				if isContainer(x[k]) {
					return x, member(x, k)
				}
			}
			return nil, impossible("nothing to descend into")
		case "rl":
			return st.lookup(x, s.Name, member)
		}
		return nil, impossible("%s on an object", s.K)
	case arr:
		switch s.K {
		case "prop":
			for _, e := range x {
				if m, ok := e.(obj); ok {
					if _, ok := m[s.Name]; ok {
						if err := member(m, s.Name); err != nil {
							return nil, err
						}
					}
				}
			}
			return x, nil
		case "idx":
			if s.Idx[0] >= len(x) || s.Idx[0] < 0 {
				return nil, impossible("index %d out of range", s.Idx[0])
			}
			return elems(x, []int{s.Idx[0]})
		case "wild", "wildidx":
			all := []int{}
			for i := range x {
				all = append(all, i)
			}
			return elems(x, all)
		case "filter":
			keep, err := modelFilter(s, x, st.root())
			if err != nil {
				return nil, err
			}
			return elems(x, keep)
		case "slice":
			a, b, err := sliceBounds(s, len(x))
			if err != nil {
				return nil, err
			}
			idx := []int{}
			for i := a; i < b; i++ {
				idx = append(idx, i)
			}
			return elems(x, idx)
		case "rl":
			return st.lookup(x, s.Name, member)
		}
		return nil, impossible("%s on an array", s.K)
	}
	return nil, impossible("descending into a scalar")
}

// Every member of the given key in the subtree; a match is not searched further.
func (st *setter) lookup(v any, name string, member func(obj, string) error) (any, error) {
	switch x := v.(type) {
	case obj:
		for _, k := range sortedKeys(x) {
			if k == name {
				if err := member(x, k); err != nil {
					return nil, err
				}
				continue
			}
			n, err := st.lookup(x[k], name, member)
			if err != nil {
				return nil, err
			}
			x[k] = n
		}
		return x, nil
	case arr:
		for i, e := range x {
			n, err := st.lookup(e, name, member)
			if err != nil {
				return nil, err
			}
			x[i] = n
		}
		return x, nil
	}
	return v, nil
}

// Sets (or deletes, if value is nil) on a copy of the root object; hits is the number of places changed.
func modelSet(root obj, segs []Seg, value any) (out obj, hits int, err error) {
	out = clone(root).(obj)
	st := &setter{value: value, del: value == nil}
	st.root = func() obj { return out }
	for _, path := range expandSegs(segs) {
		n, err := st.at(out, path)
		if err != nil {
			return nil, st.hits, err
		}
		out = n.(obj)
	}
	return out, st.hits, nil
}

// ------------------------------------------------------------------------------------------------ push and pop

func sortedSet(idx []int) []int {
	m := map[int]bool{}
	max := -1
	for _, i := range idx {
		m[i] = true
		if i > max {
			max = i
		}
	}
	out := []int{}
	for i := 0; i <= max; i++ {
		if m[i] {
			out = append(out, i)
		}
	}
	return out
}

// The value at each distinct position of the resulting array, the others in order, null in gaps.
func modelPush(a arr, v any, idx []int) arr {
	if len(idx) == 0 {
		return append(append(arr{}, a...), clone(v))
	}
	at := map[int]bool{}
	max := 0
	for _, i := range idx {
		at[i] = true
		if i > max {
			max = i
		}
	}
	n := len(a) + len(at)
	if max+1 > n {
		n = max + 1
	}
	out := make(arr, 0, n)
	rest := a
	for i := 0; i < n; i++ {
		switch {
		case at[i]:
			out = append(out, clone(v))
		case len(rest) > 0:
			out = append(out, rest[0])
			rest = rest[1:]
		default:
			out = append(out, nil)
		}
	}
	return out
}

func modelPop(a arr, idx []int) (popped, left arr) {
	if len(idx) == 0 {
		idx = []int{0}
	}
	at := map[int]bool{}
	for _, i := range idx {
		at[i] = true
	}
	popped, left = arr{}, arr{}
	for i, e := range a {
		if at[i] {
			popped = append(popped, e)
		} else {
			left = append(left, e)
		}
	}
	return
}
