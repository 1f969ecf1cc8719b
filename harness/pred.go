package main

// Filter predicates: ASTs rendered to Javascript and evaluated by a small independent evaluator.

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"pgregory.net/rapid"
)

type Pred struct {
	Op string   `json:"op"` // and or not cmp truthy
	L  *Pred    `json:"l,omitempty"`
	R  *Pred    `json:"r,omitempty"`
	A  *Operand `json:"a,omitempty"`
	B  *Operand `json:"b,omitempty"`
	C  string   `json:"c,omitempty"`
}

type Operand struct {
	K    string `json:"k"`             // cur lit path typeof
	Sub  []any  `json:"sub,omitempty"` // member accesses of cur/typeof: strings and numbers
	Br   bool   `json:"br,omitempty"`  // write string members in brackets
	Lit  any    `json:"lit,omitempty"`
	Q    string `json:"q,omitempty"` // quote of a string literal
	Path []Seg  `json:"path,omitempty"`
}

// ------------------------------------------------------------------------------------------------ rendering

func jsString(s, q string) string {
	var b strings.Builder
	b.WriteString(q)
	for _, r := range s {
		switch {
		case string(r) == q || r == '\\':
			b.WriteString("\\" + string(r))
		case r == '\n':
			b.WriteString("\\n")
		case r == '\r':
			b.WriteString("\\r")
		case r < 0x20 || r == 0x7f || r == 0x2028 || r == 0x2029:
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteString(q)
	return b.String()
}

func (o *Operand) members() string {
	var b strings.Builder
	for _, s := range o.Sub {
		switch x := s.(type) {
		case string:
			if isPathKey(x) && !strings.Contains(x, "-") && !o.Br {
				b.WriteString("." + x)
			} else {
				b.WriteString("[" + jsString(x, "\"") + "]")
			}
		case float64:
			b.WriteString("[" + strconv.Itoa(int(x)) + "]")
		case int:
			b.WriteString("[" + strconv.Itoa(x) + "]")
		}
	}
	return b.String()
}

func (o *Operand) render() string {
	switch o.K {
	case "cur", "typeof":
		if o.K == "typeof" {
			return "typeof @" + o.members()
		}
		return "@" + o.members()
	case "path":
		if len(o.Sub) > 0 {
			return "( " + renderPath(o.Path) + " )" + o.members()
		}
		return " " + renderPath(o.Path) + " "
	default:
		if s, ok := o.Lit.(string); ok {
			q := o.Q
			if q == "" {
				q = "'"
			}
			return jsString(s, q)
		}
		return mustJSON(o.Lit)
	}
}

func (p *Pred) inner() string {
	if p.Op == "js" {
		return "(" + p.render() + ")"
	}
	return p.render()
}

func (p *Pred) render() string {
	switch p.Op {
	case "and":
		return "(" + p.L.inner() + " && " + p.R.inner() + ")"
	case "or":
		return "(" + p.L.inner() + " || " + p.R.inner() + ")"
	case "not":
		return "!(" + p.L.render() + ")"
	case "cmp":
		return p.A.render() + " " + p.C + " " + p.B.render()
	case "among":
		return "(" + p.A.render() + ").indexOf(" + p.B.render() + ") " + p.C + " 0"
	case "js":
		return strings.ReplaceAll(jsPreds[p.C].text, "L", p.B.render())
	default:
		return p.A.render()
	}
}

// Other forms of expressions; L is a literal.
type jsPred struct {
	text string
	eval func(v, lit any) (bool, error)
}

func strictScalar(v, lit any) bool { return !isContainer(v) && v == lit }

var jsPreds = map[string]jsPred{
	"length": {"@.length > 1", func(v, _ any) (bool, error) {
		switch x := v.(type) {
		case nil:
			return false, errThrows
		case string:
			return len(utf16.Encode([]rune(x))) > 1, nil
		case arr:
			return len(x) > 1, nil
		case obj:
			if _, ok := x["length"]; ok {
				return false, errUnknown
			}
		}
		return false, nil
	}},
	"indexOf": {"[0, L, 'b'].indexOf(@) >= 0", func(v, lit any) (bool, error) {
		return strictScalar(v, lit) || strictScalar(v, 0.0) || strictScalar(v, "b"), nil
	}},
	"mod": {"@ % 2 === 1", func(v, _ any) (bool, error) {
		if f, ok := v.(float64); ok {
			return math.Mod(f, 2) == 1, nil
		}
		return false, errUnknown
	}},
	"re": {"/^b/.test(@)", func(v, _ any) (bool, error) {
		if isContainer(v) {
			return false, errUnknown
		}
		s, _ := v.(string)
		return strings.HasPrefix(s, "b"), nil
	}},
	"ternary":  {"@ === L ? 1 : 0", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"ternary2": {"@ === L ? '' : 'yes'", func(v, lit any) (bool, error) { return !strictScalar(v, lit), nil }},
	"iife":     {"(function (x) { return x === L; })(@)", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"nested":   {"[[(@)]][0][(0)] === L", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"sequence": {"(0, @) !== L", func(v, lit any) (bool, error) { return !strictScalar(v, lit), nil }},
	"object":   {"({'a': @, \"@\": 1})['a'] === L", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"has": {"typeof @ === 'object' && @ !== null && 'a' in @", func(v, _ any) (bool, error) {
		m, _ := v.(obj)
		_, ok := m["a"]
		return ok, nil
	}},
	"twice":     {"@ === L || @ === 'b'", func(v, lit any) (bool, error) { return strictScalar(v, lit) || strictScalar(v, "b"), nil }},
	"stringify": {"JSON.stringify(@) === JSON.stringify(L)", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"bare":      {"L", func(v, lit any) (bool, error) { return truthy(lit), nil }},
	"bare node": {"@", func(v, _ any) (bool, error) { return truthy(v), nil }},
	"paren":     {"((@))", func(v, _ any) (bool, error) { return truthy(v), nil }},
	"bang":      {"!!@", func(v, _ any) (bool, error) { return truthy(v), nil }},
	"or":        {"@ || L", func(v, lit any) (bool, error) { return truthy(v) || truthy(lit), nil }},
	"empty arr": {"[]", func(v, _ any) (bool, error) { return true, nil }},
	"empty obj": {"({})", func(v, _ any) (bool, error) { return true, nil }},
	"NaN":       {"NaN", func(v, _ any) (bool, error) { return false, nil }},
	"undefined": {"undefined", func(v, _ any) (bool, error) { return false, nil }},
	"minus0":    {"-0", func(v, _ any) (bool, error) { return false, nil }},
	"date":      {"new Date(0)", func(v, _ any) (bool, error) { return true, nil }},
	"comma":     {"L, @ === L", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"comma2":    {"@, 0", func(v, _ any) (bool, error) { return false, nil }},
	"comma3":    {"0, @", func(v, _ any) (bool, error) { return truthy(v), nil }},
	"assign":    {"x_ = @ === L", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"void":      {"void @", func(v, _ any) (bool, error) { return false, nil }},
	"boxed":     {"new Boolean(@ === L)", func(v, _ any) (bool, error) { return true, nil }},
	"function":  {"function () { return @; }", func(v, _ any) (bool, error) { return true, nil }},
	"loop":      {"(function () { for (var i = 0; i < 5; i++) { if (i === 3) { return @ === L; } } return true; })()", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"switch":    {"(function (x) { switch (x) { case L: return 1; default: return 0; } })(@)", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"some":      {"[@, @].some(function (x) { return x === L; })", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"same node": {"@ === @", func(v, _ any) (bool, error) { return true, nil }},
	"comment":   {"/* node */ @ === L /* end, */", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"spaces":    {"  \t@   ===\tL  ", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
	"catch":     {"(function () { try { throw L; } catch (e) { return e === @; } })()", func(v, lit any) (bool, error) { return strictScalar(v, lit), nil }},
}

var jsPredNames = func() (out []string) {
	for k := range jsPreds {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}()

// ------------------------------------------------------------------------------------------------ evaluation

type undefined struct{}

var (
	errThrows  = fmt.Errorf("expression throws")
	errUnknown = skip("predicate outside the evaluator's domain")
)

// The index that Javascript takes a key for.
func jsIndex(k any) (int, bool) {
	if s, ok := k.(string); ok {
		n, err := strconv.Atoi(s)
		return n, err == nil && strconv.Itoa(n) == s && n >= 0
	}
	return toIndex(k)
}

func (o *Operand) eval(cur any, root obj) (any, error) {
	switch o.K {
	case "cur", "typeof", "path":
		v := cur
		if o.K == "path" {
			vs, err := modelSelect(root, o.Path)
			if err != nil {
				return nil, err
			}
			v = append(arr{}, vs...)
			if len(vs) == 1 {
				v = vs[0]
			}
		}
		for _, s := range o.Sub {
			var next any = undefined{}
			switch x := v.(type) {
			case nil, undefined:
				return nil, errThrows
			case obj:
				k, ok := s.(string)
				if !ok {
					k = fmt.Sprint(s)
				}
				if e, ok := x[k]; ok {
					next = e
				}
			case arr:
				if n, ok := jsIndex(s); ok && n < len(x) {
					next = x[n]
				} else if s == "length" {
					next = float64(len(x))
				}
			case string:
				if _, ok := jsIndex(s); ok {
					return nil, errUnknown
				} else if s == "length" {
					next = float64(len(utf16.Encode([]rune(x))))
				}
			}
			v = next
		}
		if o.K == "typeof" {
			switch v.(type) {
			case undefined:
				return "undefined", nil
			case nil, obj, arr:
				return "object", nil
			case string:
				return "string", nil
			case bool:
				return "boolean", nil
			default:
				return "number", nil
			}
		}
		return v, nil
	default:
		if n, ok := o.Lit.(int); ok {
			return float64(n), nil
		}
		return o.Lit, nil
	}
}

func truthy(v any) bool {
	switch x := v.(type) {
	case nil, undefined:
		return false
	case bool:
		return x
	case float64:
		return x != 0 && !math.IsNaN(x)
	case string:
		return x != ""
	}
	return true
}

func isUndef(v any) bool { _, ok := v.(undefined); return ok }

var plainNumber = regexp.MustCompile(`^-?[0-9]{1,15}(\.[0-9]{1,9})?$`)
var notNumber = regexp.MustCompile(`^[a-z ]+$`)

func toNumber(v any) (float64, error) {
	switch x := v.(type) {
	case nil:
		return 0, nil
	case undefined:
		return math.NaN(), nil
	case bool:
		if x {
			return 1, nil
		}
		return 0, nil
	case float64:
		return x, nil
	case string:
		if x == "" {
			return 0, nil
		}
		if plainNumber.MatchString(x) {
			f, _ := strconv.ParseFloat(x, 64)
			return f, nil
		}
		if notNumber.MatchString(x) && strings.TrimSpace(x) != "" {
			return math.NaN(), nil
		}
	}
	return 0, errUnknown
}

func sameOperand(a, b *Operand) bool { return mustJSON(a) == mustJSON(b) }

func (p *Pred) eval(cur any, root obj) (bool, error) {
	switch p.Op {
	case "and":
		l, err := p.L.eval(cur, root)
		if err != nil || !l {
			return false, err
		}
		return p.R.eval(cur, root)
	case "or":
		l, err := p.L.eval(cur, root)
		if err != nil || l {
			return l, err
		}
		return p.R.eval(cur, root)
	case "not":
		l, err := p.L.eval(cur, root)
		return !l, err
	case "js":
		lit := p.B.Lit
		if n, ok := lit.(int); ok {
			lit = float64(n)
		}
		return jsPreds[p.C].eval(cur, lit)
	case "truthy":
		v, err := p.A.eval(cur, root)
		return truthy(v), err
	}
	a, err := p.A.eval(cur, root)
	if err != nil {
		return false, err
	}
	b, err := p.B.eval(cur, root)
	if err != nil {
		return false, err
	}
	if p.Op == "among" {
		list, ok := a.(arr)
		if !ok {
			return false, errUnknown // indexOf of strings; of other values it throws
		}
		found := false
		for _, e := range list {
			found = found || strictScalar(e, b)
		}
		return found == (p.C == ">="), nil
	}
	strict := func() bool {
		if isContainer(a) || isContainer(b) {
			return isContainer(a) && isContainer(b) && p.A.K == "cur" && p.B.K == "cur" && mustJSON(p.A.Sub) == mustJSON(p.B.Sub)
		}
		return a == b
	}
	switch p.C {
	case "===":
		return strict(), nil
	case "!==":
		return !strict(), nil
	case "==", "!=":
		eq := false
		nullish := func(v any) bool { return v == nil || isUndef(v) }
		switch {
		case nullish(a) || nullish(b):
			eq = nullish(a) && nullish(b)
		case isContainer(a) && isContainer(b):
			eq = strict()
		case isContainer(a) || isContainer(b):
			return false, errUnknown
		default:
			_, sa := a.(string)
			_, sb := b.(string)
			if sa && sb {
				eq = a == b
			} else {
				x, err := toNumber(a)
				if err != nil {
					return false, err
				}
				y, err := toNumber(b)
				if err != nil {
					return false, err
				}
				eq = x == y
			}
		}
		return eq == (p.C == "=="), nil
	}
	sa, aStr := a.(string)
	sb, bStr := b.(string)
	if aStr && bStr {
		for _, s := range sa + sb {
			if s > 126 {
				return false, errUnknown
			}
		}
		switch p.C {
		case "<":
			return sa < sb, nil
		case ">":
			return sa > sb, nil
		case "<=":
			return sa <= sb, nil
		default:
			return sa >= sb, nil
		}
	}
	x, err := toNumber(a)
	if err != nil {
		return false, err
	}
	y, err := toNumber(b)
	if err != nil {
		return false, err
	}
	switch p.C {
	case "<":
		return x < y, nil
	case ">":
		return x > y, nil
	case "<=":
		return x <= y, nil
	default:
		return x >= y, nil
	}
}

// The JSON paths within the predicate.
func (p *Pred) paths() (out [][]Seg) {
	if p == nil {
		return nil
	}
	for _, o := range []*Operand{p.A, p.B} {
		if o != nil && o.K == "path" {
			out = append(out, o.Path)
		}
	}
	return append(append(out, p.L.paths()...), p.R.paths()...)
}

// Which children does the filter keep? JSON paths are looked up before anything else.
func modelFilter(s Seg, children []any, root obj) ([]int, error) {
	if s.F == nil {
		return nil, skip("raw filter text")
	}
	for _, p := range s.F.paths() {
		if _, err := modelSelect(root, p); err != nil {
			return nil, err
		}
	}
	keep := []int{}
	for i, c := range children {
		ok, err := s.F.eval(c, root)
		if err != nil {
			return nil, err
		}
		if ok {
			keep = append(keep, i)
		}
	}
	return keep, nil
}

// ------------------------------------------------------------------------------------------------ generation

var hostileLits = []string{"@", "$.a", "x $.a y", "$.missing", ")]", "[?(", "it's", "say \"hi\"", "(", ")", "[", "]", "\\", "é", "日本 @", "a,b", "@.a == 1",
	"'", "\"", "\"'\"'", "$[0]", "it's @ \"$.a\" ", "//", "/* ", "\n", "😀@", "])", "')]", "\\'", "$", "[?(@)]"}

func genPred(t *rapid.T, children []any, root obj, depth int) *Pred {
	if depth > 0 && chance(t, 30, "composite?") {
		switch pick(t, "composite", 2, 2, 1) {
		case 0:
			return &Pred{Op: "and", L: genPred(t, children, root, depth-1), R: genPred(t, children, root, depth-1)}
		case 1:
			return &Pred{Op: "or", L: genPred(t, children, root, depth-1), R: genPred(t, children, root, depth-1)}
		default:
			return &Pred{Op: "not", L: genPred(t, children, root, depth-1)}
		}
	}
	var child any
	if len(children) > 0 {
		child = children[irange(t, "child", 0, len(children)-1)]
	}
	if chance(t, 30, "other form?") {
		return &Pred{Op: "js", C: sample(t, "form", jsPredNames), B: &Operand{K: "lit", Lit: genLitLike(t, child), Q: oneOf(t, "quote", "'", "\"")}}
	}
	a, v := genCur(t, child)
	switch pick(t, "predicate", 3, 6, 3, 3, 1) {
	case 0:
		return &Pred{Op: "truthy", A: a}
	case 1:
		b := &Operand{K: "lit", Lit: genLitLike(t, v), Q: oneOf(t, "quote", "'", "\"")}
		return &Pred{Op: "cmp", A: a, B: b, C: genCmp(t, b.Lit)}
	case 2:
		if root != nil {
			pth := genPath(t, root, pathOpts{maxLen: 3, noFilter: true, noList: true, noFirst: true, sane: 96})
			b := &Operand{K: "path", Path: noBlankPath(pth)}
			if chance(t, 45, "look into the list?") {
				return genListPred(t, b, a, v, root)
			}
			p := &Pred{Op: "cmp", A: a, B: b, C: oneOf(t, "cmp", "===", "!==", "==")}
			if chance(t, 30, "path first?") {
				p.A, p.B = p.B, p.A
			}
			return p
		}
		fallthrough
	case 3:
		b := &Operand{K: "lit", Lit: oneOf(t, "type name", "number", "string", "object", "undefined", "boolean"), Q: oneOf(t, "quote", "'", "\"")}
		a.K = "typeof"
		return &Pred{Op: "cmp", A: a, B: b, C: oneOf(t, "cmp", "===", "!==")}
	default:
		b, _ := genCur(t, child)
		return &Pred{Op: "cmp", A: a, B: b, C: oneOf(t, "cmp", "===", "!==", "==")}
	}
}

// What a JSON path stands for is a value like any other: its length, its members, whether the node is one of them.
func genListPred(t *rapid.T, b, a *Operand, v any, root obj) *Pred {
	val, err := b.eval(nil, root)
	list, isList := val.(arr)
	if err != nil || isList && chance(t, 35, "every element?") || !isList && chance(t, 60, "every element?") {
		b.Path = append(b.Path, Seg{K: "wild"})
		val, err = b.eval(nil, root)
		list, isList = val.(arr)
	}
	switch {
	case err != nil:
		return &Pred{Op: "truthy", A: b}
	case isList && chance(t, 35, "among?"):
		if chance(t, 30, "literal?") {
			var like any
			if len(list) > 0 {
				like = sample(t, "listed", list)
			}
			if !isContainer(like) {
				a = &Operand{K: "lit", Lit: like}
			}
		}
		return &Pred{Op: "among", A: b, B: a, C: oneOf(t, "found?", ">=", "<")}
	case isList && len(list) > 0 && chance(t, 55, "element?"):
		n := irange(t, "element", 0, len(list)-1)
		b.Sub = append(b.Sub, n)
		val = list[n]
	default:
		b.Sub = append(b.Sub, "length")
		val, err = b.eval(nil, root)
		if err != nil {
			return &Pred{Op: "truthy", A: b}
		}
	}
	if !isContainer(val) && chance(t, 60, "compare with its value?") {
		return &Pred{Op: "cmp", A: b, B: &Operand{K: "lit", Lit: genLitLike(t, val)}, C: oneOf(t, "cmp", "===", "!==")}
	}
	return &Pred{Op: "cmp", A: b, B: a, C: oneOf(t, "cmp", "===", "!==", "==")}
}

func noBlankPath(segs []Seg) []Seg {
	for i := range segs {
		segs[i].Sp = ""
	}
	return segs
}

func genCmp(t *rapid.T, lit any) string {
	switch lit.(type) {
	case float64:
		return oneOf(t, "cmp", "===", "!==", "<", ">", "<=", ">=", "==")
	case string:
		return oneOf(t, "cmp", "===", "!==", "==", "<", ">")
	}
	return oneOf(t, "cmp", "===", "!==", "==", "!=")
}

var protoNames = map[string]bool{"length": true, "constructor": true, "toString": true, "valueOf": true, "hasOwnProperty": true, "isPrototypeOf": true,
	"propertyIsEnumerable": true, "toLocaleString": true, "__proto__": true}

// An access to the current node (or one of its members) and the value it has for the given child.
func genCur(t *rapid.T, child any) (*Operand, any) {
	o := &Operand{K: "cur", Br: chance(t, 20, "brackets?")}
	v := child
	for i := 0; i < 2; i++ {
		switch x := v.(type) {
		case obj:
			if !chance(t, 80, "member?") {
				return o, v
			}
			ks := []string{}
			for _, k := range sortedKeys(x) {
				if !protoNames[k] {
					ks = append(ks, k)
				}
			}
			k := sample(t, "member", pathKeys)
			if len(ks) > 0 && !chance(t, 15, "other member?") {
				k = sample(t, "existing member", ks)
			}
			o.Sub = append(o.Sub, k)
			if e, ok := x[k]; ok {
				v = e
			} else {
				return o, undefined{}
			}
		case arr:
			if len(x) == 0 || !chance(t, 60, "element?") {
				return o, v
			}
			n := irange(t, "element", 0, len(x)-1)
			o.Sub = append(o.Sub, n)
			v = x[n]
		default:
			return o, v
		}
	}
	return o, v
}

func genLitLike(t *rapid.T, v any) any {
	if chance(t, 25, "hostile literal?") {
		return sample(t, "hostile", hostileLits)
	}
	switch x := v.(type) {
	case float64:
		return x + float64(sample(t, "delta", []int{0, 0, 0, 1, -1, 5}))
	case string:
		if chance(t, 70, "same string?") {
			return x
		}
		return sample(t, "string", []string{"a", "b", "bob", "", "m"})
	case bool:
		return rapid.Bool().Draw(t, "bool")
	case nil:
		return nil
	}
	return float64(irange(t, "number", 0, 9))
}
