package main

// Documents with scripts: placeholders that stand for scripts, rendered to Javascript or to Go callbacks, and a reference interpreter.
//
// A placeholder is the object {"@S": Script} as the value of an object's key.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/andygello555/json-dom/jom/json_map"
	"pgregory.net/rapid"
)

type Script struct {
	ID   int    `json:"id"`
	Ops  []Op   `json:"ops,omitempty"`
	Fail string `json:"fail,omitempty"` // what makes it fail, see failKinds
	At   int    `json:"at,omitempty"`   // fails after this many ops
	Log  bool   `json:"log,omitempty"`  // write the ID to the console
	Form int    `json:"form,omitempty"` // layout of the source
	Pre  string `json:"pre,omitempty"`  // what its text starts and ends with
	Post string `json:"post,omitempty"`
	Raw  string `json:"raw,omitempty"` // the value is just this string (which is not run, but is "failing" if reached when Fail is set)
}

// One edit of the scope. Edits whose target does not exist do nothing.
type Op struct {
	K string `json:"k"` // set del push inc copy reset
	P []any  `json:"p,omitempty"`
	Q []any  `json:"q,omitempty"`
	V any    `json:"v,omitempty"`
}

func placeholder(s Script) obj { return obj{"@S": s} }

func isS(v any) bool {
	m, ok := v.(obj)
	if !ok || len(m) != 1 {
		return false
	}
	_, ok = m["@S"]
	return ok
}

func scriptOf(v any) *Script {
	x := v.(obj)["@S"]
	if s, ok := x.(Script); ok {
		return &s
	}
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var s Script
	if err := json.Unmarshal(b, &s); err != nil {
		panic("harness error: bad placeholder: " + err.Error())
	}
	return &s
}

// ------------------------------------------------------------------------------------------------ Javascript

const jsHelpers = `var H = Object.prototype.hasOwnProperty;
function step(o, k) { return o !== null && typeof o === 'object' && Array.isArray(o) === (typeof k === 'number') && H.call(o, k); }
function at(p) { var v = json.trail; for (var i = 0; i < p.length; i++) { if (!step(v, p[i])) { return undefined; } v = v[p[i]]; } return v; }
function par(p) { return at(p.slice(0, p.length - 1)); }
function set(p, v) { var o = par(p), k = p[p.length - 1]; if (o === null || typeof o !== 'object' || Array.isArray(o) !== (typeof k === 'number') || (typeof k === 'number' && !(k < o.length))) { return; } o[k] = v; }
function del(p) { var o = par(p), k = p[p.length - 1]; if (!step(o, k)) { return; } if (Array.isArray(o)) { o.splice(k, 1); } else { delete o[k]; } }
function push(p, v) { var o = at(p); if (Array.isArray(o)) { o.push(v); } }
function inc(p) { var v = at(p); if (typeof v === 'number') { par(p)[p[p.length - 1]] = v + 1; } }
function copy(p, q) { var v = at(p); if (v !== undefined) { set(q, JSON.parse(JSON.stringify(v))); } }
`

func jsLiteral(v any) string {
	s := mustJSON(v)
	s = strings.ReplaceAll(s, "\u2028", "\\u2028")
	return strings.ReplaceAll(s, "\u2029", "\\u2029")
}

func (s *Script) source() string {
	if s.Raw != "" {
		return s.Raw
	}
	var b strings.Builder
	lang := "js"
	if k, ok := failKinds[s.Fail]; ok && k.lang != "" {
		lang = k.lang
	}
	b.WriteString("#//!" + lang + "\n" + s.Pre)
	if s.Form&1 != 0 {
		b.WriteString("// script " + strconv.Itoa(s.ID) + "\n/* a\n   comment */ \n")
	}
	if s.Log {
		fmt.Fprintf(&b, "console.log(\"ID\", \"%d\");\n", s.ID)
	}
	if len(s.Ops) > 0 {
		b.WriteString(jsHelpers)
	}
	for i := 0; i <= len(s.Ops); i++ {
		if s.Fail != "" && (i == s.At || (i == len(s.Ops) && s.At > i)) {
			b.WriteString(failKinds[s.Fail].js + "\n")
		}
		if i == len(s.Ops) {
			break
		}
		op := s.Ops[i]
		switch op.K {
		case "set":
			fmt.Fprintf(&b, "set(%s, %s);", jsLiteral(op.P), jsLiteral(renderDoc(op.V)))
		case "del":
			fmt.Fprintf(&b, "del(%s);", jsLiteral(op.P))
		case "push":
			fmt.Fprintf(&b, "push(%s, %s);", jsLiteral(op.P), jsLiteral(renderDoc(op.V)))
		case "inc":
			fmt.Fprintf(&b, "inc(%s);", jsLiteral(op.P))
		case "copy":
			fmt.Fprintf(&b, "copy(%s, %s);", jsLiteral(op.P), jsLiteral(op.Q))
		case "reset":
			fmt.Fprintf(&b, "json.trail = %s;", jsLiteral(renderDoc(op.V)))
		}
		if s.Form&2 != 0 {
			b.WriteString("\n")
		} else {
			b.WriteString(" ")
		}
	}
	if s.Form&4 != 0 {
		b.WriteString("\n")
	}
	b.WriteString(s.Post)
	return b.String()
}

// The document with every placeholder replaced by the script's source.
func renderDoc(v any) any {
	switch x := v.(type) {
	case obj:
		if isS(x) {
			return scriptOf(x).source()
		}
		m := obj{}
		for k, e := range x {
			m[k] = renderDoc(e)
		}
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = renderDoc(e)
		}
		return a
	}
	return v
}

// ------------------------------------------------------------------------------------------------ failing

type failKind struct {
	js   string // what to write into the script
	lang string // language of the shebang, if not js
	scan bool   // fails when the script is found, not when it is run
}

var failKinds = map[string]failKind{
	"throw error":         {js: "throw new Error('boom');"},
	"throw string":        {js: "throw 'boom';"},
	"throw null":          {js: "throw null;"},
	"throw undefined":     {js: "throw undefined;"},
	"throw object":        {js: "throw {a: 1};"},
	"throw number":        {js: "throw 0;"},
	"throw empty":         {js: "throw '';"},
	"throw false":         {js: "throw false;"},
	"rethrow":             {js: "try { throw new Error('a'); } catch (e) { throw e; }"},
	"throw in finally":    {js: "try { json.trail; } finally { throw new Error('f'); }"},
	"undefined function":  {js: "noSuchFunction();"},
	"undefined variable":  {js: "noSuchVariable;"},
	"null member":         {js: "null.x;"},
	"undefined member":    {js: "json.trail.noSuchKey_.x;"},
	"not a function":      {js: "json.trail();"},
	"syntax paren":        {js: "if (true {"},
	"syntax brace":        {js: "function f() {"},
	"syntax string":       {js: "var s = 'abc;"},
	"syntax token":        {js: "var 1a = 2;"},
	"syntax return":       {js: "return 5;"},
	"syntax let":          {js: "let x = 5;"},
	"syntax arrow":        {js: "var f = () => 1;"},
	"syntax break":        {js: "break;"},
	"range error":         {js: "(5).toFixed(500);"},
	"bad array":           {js: "new Array(-1);"},
	"uri error":           {js: "decodeURIComponent('%');"},
	"bad regexp":          {js: "new RegExp('(');"},
	"recursion":           {js: "(function f() { return f() + 1; })();"},
	"json cyclic":         {js: "json.trail.self = json.trail;"},
	"json parse":          {js: "JSON.parse('{');"},
	"json removed":        {js: "json = 5;"},
	"json undefined":      {js: "json = undefined;"},
	"json replaced":       {js: "json = {};"},
	"json deleted":        {js: "delete json.trail;"},
	"JSON removed":        {js: "JSON = null;"},
	"stringify removed":   {js: "JSON.stringify = 5;"},
	"console removed":     {js: "console = 1; console.log('x');"},
	"log removed":         {js: "console.log = 1; console.log('x');"},
	"scope path removed":  {js: "json.scopePath = 5; console.log('x');"},
	"scope path removed2": {js: "json.scopePath = 5; console.error('x');"},
	"selector removed":    {js: "json.jsonPathSelector = 1; json.jsonPathSelector('$.a');"},
	"selector missing":    {js: "json.jsonPathSelector('$.noSuchKey_.x').getValues();"},
	"selector invalid":    {js: "json.jsonPathSelector('$[:]');"},
	"selector no arg":     {js: "json.jsonPathSelector();"},
	"selector bad arg":    {js: "json.jsonPathSelector(5);"},
	"selector bad set":    {js: "json.jsonPathSelector('$.noSuchKey_.x').setValues(1);"},
	"set no arg":          {js: "json.jsonPathSelector('$.a').setValues();"},
	"trail number":        {js: "json.trail = 5;"},
	"trail string":        {js: "json.trail = 'text';"},
	"trail json string":   {js: "json.trail = '{}';"},
	"trail true":          {js: "json.trail = true;"},
	"trail null":          {js: "json.trail = null;"},
	"trail undefined":     {js: "json.trail = undefined;"},
	"trail function":      {js: "json.trail = function () {};"},
	"trail array":         {js: "json.trail = [];"},
	"trail array2":        {js: "json.trail = [{a: 1}];"},
	"trail date":          {js: "json.trail = new Date(0);"},
	"trail NaN":           {js: "json.trail = NaN;"},
	"trail toJSON":        {js: "json.trail = {toJSON: function () { return 5; }};"},
	"toJSON throws":       {js: "json.trail.x_ = {toJSON: function () { throw new Error('j'); }};"},
	"go string":           {js: "x", lang: "go"},
	"unsupported py":      {js: "x", lang: "py", scan: true},
	"unsupported JS":      {js: "x", lang: "JS", scan: true},
	"unsupported digits":  {js: "x", lang: "42", scan: true},
}

var failNames = func() (out []string) {
	for k := range failKinds {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}()

// ------------------------------------------------------------------------------------------------ reference interpreter

type scriptFailure struct{ s *Script }

func (f scriptFailure) Error() string { return fmt.Sprintf("script %d fails (%s)", f.s.ID, f.s.Fail) }

type ran struct {
	ID    int
	Scope string // scope path
	Depth []string
	Doc   any  // the scope the script saw
	Mute  bool // the script does not write its ID
}

type interp struct {
	log  []ran
	keep bool // keep what each script saw
	bad  int  // the script whose edit is outside the specified behaviour, and
	op   int  // its position in the script
}

func stepInto(v any, k any) (any, bool) {
	switch x := v.(type) {
	case obj:
		if isS(x) {
			return nil, false
		}
		s, ok := k.(string)
		if !ok {
			return nil, false
		}
		e, ok := x[s]
		return e, ok
	case arr:
		n, ok := toIndex(k)
		if !ok || n < 0 || n >= len(x) {
			return nil, false
		}
		return x[n], true
	}
	return nil, false
}

func toIndex(k any) (int, bool) {
	switch n := k.(type) {
	case int:
		return n, true
	case float64:
		return int(n), n == float64(int(n))
	}
	return 0, false
}

func lookAt(v any, p []any) (any, bool) {
	for _, k := range p {
		var ok bool
		if v, ok = stepInto(v, k); !ok {
			return nil, false
		}
	}
	return v, true
}

// Replaces the container at p within root (arrays change length).
func update(root any, p []any, f func(any) any) any {
	if len(p) == 0 {
		return f(root)
	}
	switch x := root.(type) {
	case obj:
		k := p[0].(string)
		x[k] = update(x[k], p[1:], f)
	case arr:
		n, _ := toIndex(p[0])
		x[n] = update(x[n], p[1:], f)
	}
	return root
}

func containsScript(v any) bool {
	found := false
	var rec func(v any)
	rec = func(v any) {
		switch x := v.(type) {
		case obj:
			if isS(x) {
				found = true
				return
			}
			for _, e := range x {
				rec(e)
			}
		case arr:
			for _, e := range x {
				rec(e)
			}
		}
	}
	rec(v)
	return found
}

var errUnspecified = skip("edits of scripts of the same scope")

// Applies the op of the script at the key self to the scope. The other scripts of that scope must not be touched.
func applyOp(scope obj, op Op, self string) (obj, error) {
	own := func(p []any) bool { // the path of another script of this scope
		if len(p) != 1 || p[0] == any(self) {
			return false
		}
		v, ok := lookAt(scope, p)
		return ok && isS(v)
	}
	set := func(p []any, v any) error {
		if len(p) == 0 {
			return skip("empty target")
		}
		if own(p) || (len(p) == 1 && isS(v)) {
			return errUnspecified
		}
		par, ok := lookAt(scope, p[:len(p)-1])
		if !ok {
			return nil
		}
		k := p[len(p)-1]
		switch x := par.(type) {
		case obj:
			if isS(x) {
				return nil
			}
			if s, ok := k.(string); ok {
				x[s] = v
			}
		case arr:
			if n, ok := toIndex(k); ok && n < len(x) {
				if isS(v) {
					return skip("script as an array element")
				}
				x[n] = v
			}
		}
		return nil
	}
	switch op.K {
	case "set":
		return scope, set(op.P, clone(op.V))
	case "del":
		if own(op.P) {
			return nil, errUnspecified
		}
		if _, ok := lookAt(scope, op.P); !ok || len(op.P) == 0 {
			return scope, nil
		}
		k := op.P[len(op.P)-1]
		out := update(scope, op.P[:len(op.P)-1], func(v any) any {
			switch x := v.(type) {
			case obj:
				delete(x, k.(string))
				return x
			case arr:
				n, _ := toIndex(k)
				return append(append(arr{}, x[:n]...), x[n+1:]...)
			}
			return v
		})
		return out.(obj), nil
	case "push":
		if v, ok := lookAt(scope, op.P); ok && len(op.P) > 0 {
			if _, isArr := v.(arr); isArr {
				if isS(op.V) {
					return nil, skip("script as an array element")
				}
				return update(scope, op.P, func(v any) any { return append(v.(arr), clone(op.V)) }).(obj), nil
			}
		}
		return scope, nil
	case "inc":
		if v, ok := lookAt(scope, op.P); ok && len(op.P) > 0 {
			if f, isNum := v.(float64); isNum {
				return update(scope, op.P, func(any) any { return f + 1 }).(obj), nil
			}
		}
		return scope, nil
	case "copy":
		if len(op.P) == 0 {
			return nil, skip("copy of the scope")
		}
		if own(op.P) {
			return nil, errUnspecified
		}
		if v, ok := lookAt(scope, op.P); ok {
			if isS(v) && len(op.P) == 1 {
				return nil, skip("a script that copies itself")
			}
			return scope, set(op.Q, clone(v))
		}
		return scope, nil
	case "reset":
		for _, v := range scope {
			if isS(v) {
				return nil, errUnspecified
			}
		}
		m := clone(op.V).(obj)
		for _, v := range m {
			if isS(v) {
				return nil, errUnspecified
			}
		}
		return m, nil
	}
	return nil, failf("harness error: unknown op %s", op.K)
}

func (in *interp) runScope(scope obj, path string, above []string) (obj, error) {
	keys := []string{}
	for k, v := range scope {
		if isS(v) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		s := scriptOf(scope[k])
		r := ran{ID: s.ID, Scope: path, Depth: above, Mute: !s.Log}
		if in.keep {
			r.Doc = clone(scope)
		}
		in.log = append(in.log, r)
		if s.Fail != "" {
			return nil, scriptFailure{s}
		}
		for i, op := range s.Ops {
			var err error
			in.bad, in.op = s.ID, i
			if op.K == "reset" && isS(scope[k]) {
				delete(scope, k)
			}
			if scope, err = applyOp(scope, op, k); err != nil {
				return nil, err
			}
		}
		// (whatever the script has put in its own place)
		delete(scope, k)
	}
	above = append(above[:len(above):len(above)], path)
	for _, k := range sortedKeys(scope) {
		v, err := in.runValue(scope[k], path+"."+k, above)
		if err != nil {
			return nil, err
		}
		scope[k] = v
	}
	return scope, nil
}

func (in *interp) runValue(v any, path string, above []string) (any, error) {
	switch x := v.(type) {
	case obj:
		return in.runScope(x, path, above)
	case arr:
		for i, e := range x {
			n, err := in.runValue(e, fmt.Sprintf("%s.[%d]", path, i), above)
			if err != nil {
				return nil, err
			}
			x[i] = n
		}
	}
	return v, nil
}

// What running the document gives, and which scripts ran.
func modelRun(doc any, keep bool) (out any, log []ran, err error) {
	in := &interp{keep: keep}
	root, err := in.runScope(clone(rootOf(doc)).(obj), "$", nil)
	if err != nil {
		return nil, in.log, err
	}
	_, isArr := doc.(arr)
	return docOf(root, isArr), in.log, nil
}

// What stripping the document gives.
func modelStrip(v any) any {
	switch x := v.(type) {
	case obj:
		m := obj{}
		for k, e := range x {
			if !isS(e) {
				m[k] = modelStrip(e)
			}
		}
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = modelStrip(e)
		}
		return a
	}
	return v
}

// Checks an observed order of execution: each script once, outer scopes first, keys in order.
// The scripts that write their ID.
func loud(log []ran) (out []ran) {
	for _, r := range log {
		if !r.Mute {
			out = append(out, r)
		}
	}
	return
}

func checkOrder(got []int, want []ran) error {
	pos := map[int]int{}
	for i, id := range got {
		if _, dup := pos[id]; dup {
			return failf("script %d ran more than once: %v", id, got)
		}
		pos[id] = i
	}
	last := map[string]int{} // last position of a scope
	for _, r := range want {
		p, ok := pos[r.ID]
		if !ok {
			return failf("script %d (in %s) did not run: %v", r.ID, r.Scope, got)
		}
		if q, ok := last[r.Scope]; ok && q > p {
			return failf("script %d of %s ran out of order: %v", r.ID, r.Scope, got)
		}
		last[r.Scope] = p
	}
	for _, r := range want {
		for _, a := range r.Depth {
			if q, ok := last[a]; ok && q > pos[r.ID] {
				return failf("script %d of %s ran before all scripts of %s had: %v", r.ID, r.Scope, a, got)
			}
		}
	}
	if len(got) != len(want) {
		return failf("%d scripts ran instead of %d: %v", len(got), len(want), got)
	}
	return nil
}

// ------------------------------------------------------------------------------------------------ Go callbacks

type recorder struct {
	mu    sync.Mutex
	ids   []int
	paths map[int]string
	all   []string                       // every run: number and path
	inner func(json json_map.JsonMapInt) // what every callback does first
	goNum bool                           // the numbers that callbacks write are ints, uint8s, float32s, ...
}

func (r *recorder) add(id int, path string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ids = append(r.ids, id)
	r.all = append(r.all, fmt.Sprint(id, " ", path))
	if r.paths == nil {
		r.paths = map[int]string{}
	}
	r.paths[id] = path
}

// The document with every placeholder replaced by a callback.
func withCallbacks(v any, rec *recorder) any {
	switch x := v.(type) {
	case obj:
		if isS(x) {
			return scriptOf(x).callback(rec)
		}
		m := obj{}
		for k, e := range x {
			m[k] = withCallbacks(e, rec)
		}
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = withCallbacks(e, rec)
		}
		return a
	}
	if rec.goNum {
		return goNumbers(v)
	}
	return v
}

func pathText(p []any) (string, bool) {
	var b strings.Builder
	b.WriteString("$")
	for _, k := range p {
		if s, ok := k.(string); ok {
			if !isPathKey(s) {
				return "", false
			}
			b.WriteString("." + s)
		} else {
			n, _ := toIndex(k)
			fmt.Fprintf(&b, ".[%d]", n)
		}
	}
	return b.String(), true
}

type panicValue struct{ ID int }

func copyFuncs(v any) any {
	switch x := v.(type) {
	case obj:
		m := make(obj, len(x))
		for k, e := range x {
			m[k] = copyFuncs(e)
		}
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = copyFuncs(e)
		}
		return a
	}
	return v
}

func (s *Script) callback(rec *recorder) func(json json_map.JsonMapInt) {
	return func(json json_map.JsonMapInt) {
		rec.add(s.ID, json.GetCurrentScopePath())
		if rec.inner != nil {
			rec.inner(json)
		}
		for i, op := range s.Ops {
			if s.Fail != "" && i == s.At {
				panic(panicValue{s.ID})
			}
			scope := *json.GetInsides()
			set := func(p []any, v any) {
				par, ok := lookAt(scope, p[:len(p)-1])
				if !ok {
					return
				}
				k := p[len(p)-1]
				switch x := par.(type) {
				case obj:
					if _, ok := k.(string); !ok {
						return
					}
				case arr:
					if n, ok := toIndex(k); !ok || n >= len(x) {
						return
					}
				default:
					return
				}
				if text, ok := pathText(p); ok && v != nil {
					json.MustSet(text, v)
					return
				}
				switch x := par.(type) {
				case obj:
					x[k.(string)] = v
				case arr:
					n, _ := toIndex(k)
					x[n] = v
				}
			}
			switch op.K {
			case "set":
				set(op.P, withCallbacks(op.V, rec))
			case "del":
				if _, ok := lookAt(scope, op.P); !ok {
					continue
				}
				if text, ok := pathText(op.P); ok {
					json.MustDelete(text)
				} else {
					k := op.P[len(op.P)-1]
					update(scope, op.P[:len(op.P)-1], func(v any) any {
						switch x := v.(type) {
						case obj:
							delete(x, k.(string))
							return x
						case arr:
							n, _ := toIndex(k)
							return append(append(arr{}, x[:n]...), x[n+1:]...)
						}
						return v
					})
				}
			case "push":
				if v, ok := lookAt(scope, op.P); ok {
					if a, ok := v.(arr); ok {
						if text, ok := pathText(op.P); ok {
							json.MustPush(text, withCallbacks(op.V, rec))
						} else {
							update(scope, op.P, func(any) any { return append(append(arr{}, a...), withCallbacks(op.V, rec)) })
						}
					}
				}
			case "inc":
				v, ok := lookAt(scope, op.P)
				if !ok {
					continue
				}
				if f, ok := asFloat(v); ok {
					if text, ok := pathText(op.P); ok {
						f, _ = asFloat(json.MustGet(text)[0])
					}
					if rec.goNum {
						set(op.P, goNumbers(f+1))
						continue
					}
					set(op.P, f+1)
				}
			case "copy":
				if v, ok := lookAt(scope, op.P); ok {
					set(op.Q, copyFuncs(v))
				}
			case "reset":
				*json.GetInsides() = withCallbacks(op.V, rec).(obj)
			}
		}
		if s.Fail != "" {
			panic(panicValue{s.ID})
		}
	}
}

// ------------------------------------------------------------------------------------------------ generation

type scriptOpts struct {
	max      int  // scripts
	log      bool // scripts write their IDs
	ops      int  // ops per script
	callback bool // only what callbacks can do too
	doc      docOpts
	arrays   int
	nest     bool // scripts put scripts into nested containers
	empty    int  // percent of scripts without a statement
	crowd    int  // scripts of one object, at most, in a few cases
}

var scriptKeys = []string{"script", "S", "a", "z", "_s", "script2", "script10", "k-2", "b", "~", "é", "A", "Z", "0", "10", "9", "s1", "s2", "s10", "1a"}

type scriptGen struct {
	t    *rapid.T
	o    scriptOpts
	next int
}

// Removes the edits whose effect is not specified (edits of the scripts of the same scope).
func settle(doc any) any {
	for n := 0; n < 60; n++ {
		in := &interp{}
		_, err := in.runScope(clone(rootOf(doc)).(obj), "$", nil)
		if _, ok := err.(discard); !ok {
			break
		}
		walkPlaceholders(doc, func(m obj) {
			s := scriptOf(m)
			if s.ID == in.bad && in.op < len(s.Ops) {
				s.Ops = append(append([]Op{}, s.Ops[:in.op]...), s.Ops[in.op+1:]...)
				m["@S"] = *s
			}
		})
	}
	return doc
}

// Calls f with every placeholder of a document, also those within the edits of scripts.
func walkPlaceholders(v any, f func(m obj)) {
	switch x := v.(type) {
	case obj:
		if isS(x) {
			for _, op := range scriptOf(x).Ops {
				walkPlaceholders(op.V, f)
			}
			f(x)
			return
		}
		for _, k := range sortedKeys(x) {
			walkPlaceholders(x[k], f)
		}
	case arr:
		for _, e := range x {
			walkPlaceholders(e, f)
		}
	}
}

// A document with scripts in it.
func genScriptDoc(t *rapid.T, o scriptOpts) (any, int) {
	g := &scriptGen{t: t, o: o}
	doc := genDoc(t, o.doc, o.arrays)
	doc = g.sow(doc, 60)
	if g.next == 0 {
		if m, ok := doc.(obj); ok {
			m["script"] = g.script(m, 2)
		}
	}
	return settle(doc), g.next
}

func (g *scriptGen) scriptKey(m obj) string {
	for i := 0; i < 6; i++ {
		k := sample(g.t, "script key", scriptKeys)
		if chance(g.t, 30, "document key?") {
			k = genKey(g.t, g.o.doc)
		}
		if v, ok := m[k]; !ok || !isContainer(v) {
			return k
		}
	}
	return fmt.Sprint("script_", g.next)
}

// Puts scripts into the objects of v.
func (g *scriptGen) sow(v any, percent int) any {
	switch x := v.(type) {
	case obj:
		for _, k := range sortedKeys(x) {
			x[k] = g.sow(x[k], 35)
		}
		if chance(g.t, percent, "scripts here?") {
			n := irange(g.t, "scripts", 1, 3)
			if g.o.crowd > 0 && g.next == 0 && chance(g.t, 1, "very many?") {
				for n = irange(g.t, "that many", 10, g.o.crowd); n > 0; n-- {
					k := fmt.Sprint("s", n)
					x[k] = nil
					x[k] = g.script(x, 1)
				}
			}
			for ; n > 0 && g.next < g.o.max; n-- {
				k := g.scriptKey(x)
				x[k] = nil // so that the script knows its key
				x[k] = g.script(x, 2)
			}
		}
		return x
	case arr:
		for i, e := range x {
			x[i] = g.sow(e, 35)
		}
		return x
	}
	return v
}

func (g *scriptGen) script(scope obj, nest int) obj {
	s := Script{ID: g.next, Log: g.o.log, Form: uniform(g.t, 8)}
	g.next++
	if g.o.empty > 0 && chance(g.t, g.o.empty, "empty?") {
		return placeholder(Script{ID: s.ID, Pre: oneOf(g.t, "blank", "", "", "\n", "\n\n", "  ", "\t\r\n", "\r\n", "\u00a0", ";", "// nothing", "/* */", "\ufeff")})
	}
	if chance(g.t, 20, "odd text?") {
		s.Pre = oneOf(g.t, "start", "", "\n", "\n\n  ", "\r\n", "\t", "  ", " ;\n", "// #//!js\n", "/* é\u2028 %d %s $. @ */", "'\\n\\\\ \\u0041';", "\"#//!js\";\n", "// \\\n", "/**/\r\n\r\n", "\u00a0", "if (1 < 2 && 3 > 2) { '<&>'; }\n")
		s.Post = oneOf(g.t, "end", "", "\n", "\n\n", "  ", "\r\n", " // end", "\t", ";", "\u00a0")
	}
	for n := irange(g.t, "ops", 0, g.o.ops); n > 0; n-- {
		s.Ops = append(s.Ops, g.op(scope, nest))
	}
	return placeholder(s)
}

// A path to something in the scope (or to a new key).
func (g *scriptGen) path(scope obj) []any {
	p := []any{}
	var v any = scope
	for d := 0; d < 4; d++ {
		switch x := v.(type) {
		case obj:
			if isS(x) {
				return p
			}
			ks := []string{}
			for _, k := range sortedKeys(x) {
				if d > 0 || !isS(x[k]) {
					ks = append(ks, k)
				}
			}
			if len(ks) == 0 || chance(g.t, 20, "new key?") {
				return append(p, sample(g.t, "new key", []string{"new", "a", "b", "out", "n-1"}))
			}
			k := sample(g.t, "key", ks)
			p, v = append(p, k), x[k]
		case arr:
			if len(x) == 0 {
				return p
			}
			i := uniform(g.t, len(x))
			p, v = append(p, i), x[i]
		default:
			return p
		}
		if chance(g.t, 35, "stop?") {
			break
		}
	}
	return p
}

func (g *scriptGen) value(nest int) any {
	v := genValue(g.t, docOpts{depth: 2, width: 3, plain: g.o.doc.plain, odd: g.o.doc.odd}, 2)
	if g.o.nest && nest > 0 && chance(g.t, 25, "with scripts?") {
		m, ok := v.(obj)
		if !ok {
			m = obj{"in": v}
		}
		k := g.scriptKey(m)
		m[k] = g.script(m, nest-1)
		v = m
		if chance(g.t, 30, "in an array?") {
			return arr{v, 1.0}
		}
	}
	return v
}

func (g *scriptGen) op(scope obj, nest int) Op {
	switch pick(g.t, "op", 6, 3, 3, 3, 2, 1) {
	case 0:
		p := g.path(scope)
		op := Op{K: "set", P: p, V: g.value(nest)}
		if g.o.nest && nest > 0 && len(p) > 1 && chance(g.t, 15, "a script?") {
			if _, str := p[len(p)-1].(string); str {
				op.V = g.script(obj{}, nest-1)
			}
		}
		return op
	case 1:
		return Op{K: "del", P: g.path(scope)}
	case 2:
		ps, _ := arrayPaths(scope)
		if len(ps) > 0 {
			p := sample(g.t, "array", ps)
			q := []any{}
			for _, s := range p {
				if s.K == "prop" {
					q = append(q, s.Name)
				} else {
					q = append(q, s.Idx[0])
				}
			}
			return Op{K: "push", P: q, V: g.value(nest)}
		}
		return Op{K: "set", P: g.path(scope), V: g.value(nest)}
	case 3:
		return Op{K: "inc", P: g.path(scope)}
	case 4:
		return Op{K: "copy", P: g.path(scope), Q: g.path(scope)}
	default:
		m, ok := g.value(nest).(obj)
		if !ok || g.o.callback || isS(m) {
			return Op{K: "inc", P: g.path(scope)}
		}
		return Op{K: "reset", V: m}
	}
}
