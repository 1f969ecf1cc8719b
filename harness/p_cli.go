package main

// C30 and C31: the command line.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/andygello555/json-dom/jom"
	"pgregory.net/rapid"
)

type cliInput struct {
	Name string `json:"name,omitempty"` // as a file; the -input flag otherwise
	Text string `json:"text"`
	What string `json:"what,omitempty"` // "", "missing", "directory", "unreadable"
}

type cliPair struct {
	Path   string `json:"path"`
	Script string `json:"script"`
	Bare   bool   `json:"bare,omitempty"` // given without a script
}

type cliCase struct {
	Sub    string     `json:"sub"`
	NoSub  bool       `json:"no_sub,omitempty"`
	Inputs []cliInput `json:"inputs"`
	Files  bool       `json:"files"`
	Pairs  []cliPair  `json:"pairs,omitempty"`
	Lang   string     `json:"lang,omitempty"`
	Eval   int        `json:"eval,omitempty"`  // 0: not given, 1: -eval, 2: -eval=true, 3: -eval=false
	Strip  int        `json:"strip,omitempty"` // likewise
	Verb   int        `json:"verbose,omitempty"`
	Style  []int      `json:"style,omitempty"`
	Bad    []string   `json:"bad,omitempty"` // arguments that the flags do not accept
	BadAt  int        `json:"bad_at,omitempty"`
}

func boolFlag(name string, how int) []string {
	switch how {
	case 1:
		return []string{"-" + name}
	case 2:
		return []string{"--" + name + "=true"}
	case 3:
		return []string{"-" + name + "=false"}
	case 4:
		return []string{"-" + name + "=1"}
	case 5:
		return []string{"-" + name + "=F"}
	}
	return nil
}

func isOn(how int) bool { return how == 1 || how == 2 || how == 4 }

func (c cliCase) args() []string {
	style := func(i int) int {
		if len(c.Style) == 0 {
			return 0
		}
		return c.Style[i%len(c.Style)]
	}
	var groups [][]string
	value := func(name, v string) {
		switch style(len(groups)) % 4 {
		case 1:
			groups = append(groups, []string{"--" + name, v})
		case 2:
			groups = append(groups, []string{"-" + name + "=" + v})
		case 3:
			groups = append(groups, []string{"--" + name + "=" + v})
		default:
			groups = append(groups, []string{"-" + name, v})
		}
	}
	if c.Files {
		var names []string
		for _, in := range c.Inputs {
			names = append(names, in.Name)
		}
		value("files", strings.Join(names, ","))
	} else if len(c.Inputs) > 0 {
		value("input", c.Inputs[0].Text)
	}
	if len(c.Pairs) > 0 {
		var ps []string
		for _, p := range c.Pairs {
			if p.Bare {
				ps = append(ps, p.Path)
			} else {
				ps = append(ps, p.Path+":"+p.Script)
			}
		}
		value("path-scripts", strings.Join(ps, ","))
	}
	if c.Lang != "" {
		value("language", c.Lang)
	}
	for name, how := range map[string]int{"eval": c.Eval, "strip": c.Strip, "verbose": c.Verb} {
		if f := boolFlag(name, how); f != nil {
			groups = append(groups, f)
		}
	}
	sort.Slice(groups, func(i, j int) bool { // the map above has no order
		return strings.TrimLeft(groups[i][0], "-") < strings.TrimLeft(groups[j][0], "-")
	})
	for i := range groups {
		j := i + style(i)%(len(groups)-i)
		groups[i], groups[j] = groups[j], groups[i]
	}
	if len(c.Bad) > 0 {
		i := c.BadAt % (len(groups) + 1)
		groups = append(groups[:i:i], append([][]string{c.Bad}, groups[i:]...)...)
	}
	var args []string
	if !c.NoSub {
		args = append(args, c.Sub)
	}
	for _, g := range groups {
		args = append(args, g...)
	}
	return args
}

// What one input gives.
type cliOutcome struct {
	results        []any // acceptable results (several when the order of the pairs matters)
	stdout, stderr string
	code           []int // acceptable exit codes of its failure
	console        bool
	ordered        bool // does the order of the pairs matter?
}

func permutations(n int) (out [][]int) {
	if n == 0 {
		return [][]int{nil}
	}
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return
}

func (c cliCase) evalText(text []byte) (v any, stdout, stderr string, err error) {
	var out []byte
	stdout, stderr = captured(func() { out, err = jom.Eval(text, false) })
	if err != nil {
		return
	}
	v, err = fromJSON(out)
	return
}

// What the library gives for an input.
func (c cliCase) expect(in cliInput) (o cliOutcome, err error) {
	if c.Sub == "eval" {
		v, stdout, stderr, e := c.evalText([]byte(in.Text))
		o.stdout, o.stderr = stdout, stderr
		if e != nil {
			o.code = []int{10}
			if jom.New().Unmarshal([]byte(in.Text)) != nil {
				o.code = []int{9, 10}
			}
			return
		}
		o.results = []any{v}
		return
	}
	failed := map[int]bool{}
	for n, perm := range permutations(len(c.Pairs)) {
		j := jom.New()
		if j.Unmarshal([]byte(in.Text)) != nil {
			o.code = []int{9}
			return
		}
		if isOn(c.Strip) && catch(j.Strip) != nil { // a script in an unsupported language
			o.code = []int{9, 10, 11}
			return
		}
		lang := c.Lang
		if lang == "" {
			lang = "js"
		}
		var merr error
		for _, i := range perm {
			s := c.Pairs[i].Script
			if c.Pairs[i].Bare {
				s = "// No script specified"
			}
			if merr = j.MarkupCode(c.Pairs[i].Path, lang, s); merr != nil {
				break
			}
		}
		if merr != nil {
			failed[11] = true
			continue
		}
		v, derr := dump(j)
		if derr != nil {
			return o, derr
		}
		if isOn(c.Eval) {
			b, merr := j.Marshal()
			if merr != nil {
				return o, failf("does not marshal: %v", merr)
			}
			var eerr error
			var stdout, stderr string
			v, stdout, stderr, eerr = c.evalText(b)
			o.ordered = o.ordered || (n > 0 && (stdout != o.stdout || stderr != o.stderr))
			o.stdout, o.stderr = stdout, stderr
			o.console = o.console || stdout+stderr != ""
			if eerr != nil {
				failed[10] = true
				continue
			}
		}
		if !isContainer(v) {
			return o, skip("the array of the document is replaced")
		}
		known := false
		for _, r := range o.results {
			known = known || same(r, v)
		}
		if !known {
			o.results = append(o.results, v)
		}
	}
	for k := range failed {
		o.code = append(o.code, k)
	}
	o.ordered = o.ordered || len(o.results) > 1 || len(o.code) > 1 || (len(o.code) > 0 && len(o.results) > 0)
	return
}

type cliRun struct {
	code           int
	stdout, stderr string
}

// Runs the command in a scratch directory with the files of the case.
func (c cliCase) run() (r cliRun, err error) {
	if cliBin == "" {
		return r, skip("no command line")
	}
	dir, err := os.MkdirTemp("", "pbt-cli-")
	if err != nil {
		return r, skip("no scratch directory")
	}
	defer os.RemoveAll(dir)
	_ = os.Mkdir(filepath.Join(dir, "dir"), 0o755)
	if c.Files {
		for _, in := range c.Inputs {
			if in.Name == "" {
				continue
			}
			f := filepath.Join(dir, in.Name)
			_ = os.MkdirAll(filepath.Dir(f), 0o755)
			switch in.What {
			case "missing":
			case "unreadable": // reading this gives an error, whoever reads
				_ = os.Symlink("/proc/self/clear_refs", f)
			case "directory":
				_ = os.MkdirAll(f, 0o755)
			default:
				if os.WriteFile(f, []byte(in.Text), 0o644) != nil {
					return r, skip("file not written")
				}
			}
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 70*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, cliBin, c.args()...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	rerr := cmd.Run()
	r.stdout, r.stderr = o.String(), e.String()
	if ctx.Err() != nil {
		return r, failf("%s does not end", c)
	}
	if rerr != nil {
		ee, ok := rerr.(*exec.ExitError)
		if !ok {
			return r, skip("command does not start")
		}
		r.code = ee.ExitCode()
	}
	if i := strings.Index(r.stderr, "\ngoroutine "); i >= 0 && r.code == 2 {
		return r, failf("%s crashes: %.1500s", c, r.stderr)
	}
	if r.code < 0 {
		return r, failf("%s is killed: %.1500s", c, r.stderr)
	}
	return r, nil
}

func (c cliCase) String() string {
	s := fmt.Sprintf("json-dom %q", c.args())
	if c.Files {
		s += " with " + mustJSON(c.Inputs)
	}
	return s
}

// ------------------------------------------------------------------------------------------------ generation

// Scripts without commas and colons, as the flag cannot spell those.
var pairScripts = []string{"json.trail.m_ = 1;", "json.trail.m_ = 'text';", "delete json.trail.a;", "json.trail['k'] = [1];", "// nothing", "",
	"console.log('ID 7');", "console.error('ID 8');", "var o = {}; o.k = 1; json.trail.o = o;", "json.trail.count = (json.trail.count || 0) + 1;\njson.trail.last = 'q';",
	"if (json.trail.a) { json.trail.a = null; }", "json.trail.scope_ = json.scopePath;", "json.trail.m_ = json.jsonPathSelector('$').getValues() !== undefined;",
	"for (var i = 0; i < 3; i++) { json.trail['k' + i] = i; }", "json.trail.m_ = 'é€😀';", "json.trail.m_ = \"#//!js\\njson.trail.made = true\";"}

var failingPairScripts = []string{"throw 1;", "nope();", "json.trail.", "var = 1;", "json.jsonPathSelector('$[')", "null.x;"}

func genCliText(t *rapid.T, fail bool) string {
	var doc any
	switch pick(t, "kind", 6, 3) {
	case 0:
		doc, _ = genScriptDoc(t, scriptOpts{max: 3, log: chance(t, 40, "log?"), ops: 2, doc: docOpts{depth: 3, width: 3, plain: true, odd: 5}, arrays: 12, nest: true, empty: 10})
	default:
		doc = genDoc(t, docOpts{depth: 3, width: 3, odd: 10}, 20)
	}
	if fail {
		switch pick(t, "how", 4, 5) {
		case 0:
			return oneOf(t, "unloadable", "{", "5", "[1", "null", "{\"a\":", "{\"a\": 1}}", "[1, 2]]", "\"text\"", "true", "{\"a\" 1}", "{a: [1}", "{\"a\": 1} x", "'''")
		default:
			root := rootOf(doc)
			_, isArr := doc.(arr)
			var ps [][]any
			objects(root, nil, func(p []any) {
				if !(isArr && len(p) == 0) {
					ps = append(ps, p)
				}
			})
			if len(ps) == 0 {
				doc, ps = obj{"a": 1.0}, [][]any{{}}
			}
			src := "#//!js\n" + oneOf(t, "prefix", "", "console.log('before');\n", "json.trail.x_ = 1;\n") +
				sample(t, "failing", append([]string{"json.jsonPathSelector('$[:]');", "(function f() { f(); })();"}, failingPairScripts...))
			if chance(t, 12, "language?") {
				src = "#//!" + oneOf(t, "language", "py", "lua", "JS", "ruby") + "\n1"
			} else if chance(t, 2, "endless?") {
				src = "#//!js\nwhile (true) {}"
			}
			if d, ok := withAt(renderDoc(doc), sample(t, "at", ps), "f_", src); ok {
				return mustJSON(d)
			}
			return mustJSON(obj{"f_": src})
		}
	}
	if chance(t, 30, "hjson?") {
		w := &writer{t: t, hjson: true}
		w.value(renderDoc(doc))
		if s := w.b.String(); !strings.ContainsRune(s, 0) {
			return s
		}
	}
	return string(textOf(doc))
}

var cliNames = []string{"a.json", "b.hjson", "dir/c.json", "with space.json", "é.json", "./d.json", "noext", "dir/../e.json", ".hidden", "-dash.json", "a=b.json", "dir with space/ü.json", "x:y.json", " dir.json", "\tdir.json", "trail.json ", "pct%20%s.json", "st*r?.json", "q\"uo'te.json", "$HOME.json", "back\\slash.json", "[0].json", "a.json.", "~"}

func genCliBase(t *rapid.T) cliCase {
	c := cliCase{Sub: oneOf(t, "subcommand", "eval", "markup"), Style: intSlice(t, "style", 0, 11, 0, 8)}
	n := 1
	if c.Files = chance(t, 55, "files?"); c.Files {
		n = irange(t, "files", 1, 4)
	}
	for i := 0; i < n; i++ {
		in := cliInput{Text: genCliText(t, false)}
		if c.Files {
			in.Name = fmt.Sprint(i) + sample(t, "name", cliNames)
			if strings.Contains(in.Name, "dir") || strings.HasPrefix(in.Name[1:], "./") {
				in.Name = in.Name[1:]
				in.Name = strings.TrimSuffix(in.Name, filepath.Ext(in.Name)) + fmt.Sprint(i) + filepath.Ext(in.Name)
			}
			if i > 0 && chance(t, 15, "same file again?") {
				in = c.Inputs[uniform(t, i)]
			}
		} else if in.Text == "" || strings.ContainsRune(in.Text, 0) {
			in.Text = "{\"a\": 1}"
		}
		c.Inputs = append(c.Inputs, in)
	}
	c.Verb = pick(t, "verbose", 85, 5, 1, 5, 2, 2)
	if c.Sub == "markup" {
		c.Eval = pick(t, "eval", 5, 6, 2, 1, 1, 1)
		c.Strip = pick(t, "strip", 8, 4, 2, 1, 1, 1)
		if chance(t, 15, "language?") {
			c.Lang = "js"
		}
		doc, err := fromJSON([]byte(c.Inputs[0].Text))
		if err != nil {
			doc = obj{}
		}
		seen := map[string]bool{}
		for k := irange(t, "pairs", 1, 3); k > 0; k-- {
			p := cliPair{Script: sample(t, "script", pairScripts), Bare: chance(t, 5, "bare?")}
			p.Path = genPairPath(t, doc)
			if seen[p.Path] || strings.ContainsAny(p.Path, ",:\x00") {
				continue
			}
			seen[p.Path] = true
			c.Pairs = append(c.Pairs, p)
		}
		if len(c.Pairs) == 0 {
			c.Pairs = []cliPair{{Path: "$.script", Script: "json.trail.m_ = 1;"}}
		}
	}
	return c
}

func genPairPath(t *rapid.T, doc any) string {
	_, isArr := doc.(arr)
	if isContainer(doc) && chance(t, 75, "into the document?") {
		o := pathOpts{maxLen: 3, forSet: true}
		if isArr {
			o.prefix = []Seg{{K: "prop", Name: "array"}}
		}
		p := genPath(t, rootOf(doc), o)
		if vs, err := modelSelectRaw(rootOf(doc), p); err == nil && len(vs) > 0 {
			all := true
			for _, v := range vs {
				_, ok := v.(obj)
				all = all && ok
			}
			if all {
				p = append(p, Seg{K: "prop", Name: oneOf(t, "name", "script", "m", "a")})
			}
		}
		if !(isArr && len(p) < 2) {
			return renderPath(p)
		}
	}
	return oneOf(t, "path", "$.script", "$.a.script", "$..script", "$.x", "$.zz", "$.*", "$.b.m")
}

// ------------------------------------------------------------------------------------------------ C30

func sortedLines(s string) []string {
	if s == "" {
		return nil
	}
	ls := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	sort.Strings(ls)
	return ls
}

// The value that the text of a line loads to.
func loaded(text string) (any, error) {
	j := jom.New()
	if err := j.Unmarshal([]byte(text)); err != nil {
		return nil, err
	}
	return dump(j)
}

// The number of lines at the start that are a text of the result, 0 if there is none.
func (o cliOutcome) leads(lines []string) int {
	if len(lines) == 0 || lines[0] == "" || (lines[0][0] != '{' && lines[0][0] != '[') {
		return 0
	}
	for n := 1; n <= len(lines); n++ {
		last := strings.TrimSpace(lines[n-1])
		if last == "" || (last[len(last)-1] != '}' && last[len(last)-1] != ']') {
			continue
		}
		v, err := loaded(strings.Join(lines[:n], "\n"))
		if err != nil {
			continue
		}
		for _, w := range o.results {
			if same(v, w) {
				return n
			}
		}
	}
	return 0
}

// Likewise for a text of any object or array.
func leadsAny(lines []string) int {
	if len(lines) == 0 || lines[0] == "" || (lines[0][0] != '{' && lines[0][0] != '[') {
		return 0
	}
	for n := 1; n <= len(lines); n++ {
		if _, err := loaded(strings.Join(lines[:n], "\n")); err == nil {
			return n
		}
	}
	return 0
}

func (c cliCase) checkSuccess(x *Ctx, outs []cliOutcome, r cliRun) error {
	if r.code != 0 {
		return failf("%s exits with %d: %.1500s %.1500s", c, r.code, r.stdout, r.stderr)
	}
	var wantErr []string
	for _, o := range outs {
		wantErr = append(wantErr, sortedLines(o.stderr)...)
	}
	sort.Strings(wantErr)
	if isOn(c.Verb) {
		x.Tag("verbose")
		// the results are still printed, on lines of their own and in order
		lines := strings.Split(r.stdout, "\n")
		for i, o := range outs {
			found := 0
			for len(lines) > 0 && found == 0 {
				if found = o.leads(lines); found == 0 {
					lines = lines[1:]
				}
			}
			if found == 0 {
				return failf("%s does not print the result of input %d, %s: %s", c, i+1, short(o.results), r.stdout)
			}
			lines = lines[found:]
		}
		return nil
	}
	if got := sortedLines(r.stderr); strings.Join(got, "\n") != strings.Join(wantErr, "\n") {
		return failf("%s writes %q to standard error, expected %q", c, r.stderr, strings.Join(wantErr, "\n"))
	}
	lines := strings.Split(r.stdout, "\n")
	if lines[len(lines)-1] != "" {
		return failf("%s: the output does not end in a line end: %q", c, r.stdout)
	}
	lines = lines[:len(lines)-1]
	for i, o := range outs {
		console := sortedLines(o.stdout)
		if len(lines) < len(console)+1 {
			return failf("%s: output ends before the result of input %d: %q", c, i+1, r.stdout)
		}
		got := append([]string(nil), lines[:len(console)]...)
		sort.Strings(got)
		if strings.Join(got, "\n") != strings.Join(console, "\n") {
			return failf("%s: console output of input %d is %q, expected %q", c, i+1, got, console)
		}
		lines = lines[len(console):]
		n := o.leads(lines)
		if n == 0 {
			return failf("%s prints %q where the result of input %d should be, the library gives %s", c, lines, i+1, short(o.results))
		}
		if text := strings.Join(lines[:n], "\n"); (c.Sub == "eval" || isOn(c.Eval)) && !json.Valid([]byte(text)) {
			return failf("%s prints %q, which is not JSON, for input %d", c, text, i+1)
		}
		lines = lines[n:]
	}
	if len(lines) > 0 {
		return failf("%s prints more than the results: %q", c, lines)
	}
	return nil
}

func checkCli(c cliCase, x *Ctx) error {
	var outs []cliOutcome
	for _, in := range c.Inputs {
		o, err := c.expect(in)
		if err != nil {
			return err
		}
		if len(o.code) > 0 {
			return skip("fails")
		}
		if o.ordered && o.console {
			return skip("order of the pairs and console")
		}
		outs = append(outs, o)
	}
	x.Tag(c.Sub)
	x.TagIf(len(c.Inputs) > 1, "several files")
	x.TagIf(c.Files, "files")
	x.TagIf(isOn(c.Strip), "strip")
	x.TagIf(isOn(c.Eval), "markup and eval")
	x.TagIf(len(c.Pairs) > 1, "several pairs")
	for i, in := range c.Inputs {
		if v, err := loaded(in.Text); err == nil && !same(v, outs[i].results[0]) {
			x.NonTrivial()
		}
		x.TagIf(outs[i].stdout != "", "console output")
		x.TagIf(outs[i].stderr != "", "console errors")
	}
	n := 1
	for _, o := range outs {
		if o.ordered {
			x.Tag("order of the pairs matters")
			n = 3
		}
	}
	var first cliRun
	for i := 0; i < n; i++ {
		r, err := c.run()
		if err != nil {
			return err
		}
		if err := c.checkSuccess(x, outs, r); err != nil {
			return err
		}
		if i == 0 {
			first = r
		} else if !isOn(c.Verb) && r.stdout != first.stdout {
			return failf("%s prints %q and then %q", c, first.stdout, r.stdout)
		}
	}
	return nil
}

// ------------------------------------------------------------------------------------------------ C31

type cliBadCase struct {
	Call cliCase `json:"call"`
	Kind string  `json:"kind"`
}

func genCliBad(t *rapid.T) cliBadCase {
	c := genCliBase(t)
	b := cliBadCase{}
	text := func() {
		i := uniform(t, len(c.Inputs))
		c.Inputs[i].Text = genCliText(t, true)
		for k := range c.Inputs {
			if c.Inputs[k].Name == c.Inputs[i].Name {
				c.Inputs[k].Text = c.Inputs[i].Text
			}
		}
	}
	switch pick(t, "failure", 1, 2, 2, 2, 3, 9, 4, 3, 3) {
	case 0:
		b.Kind = "no subcommand"
		c.NoSub = true
		c.Sub, c.Inputs, c.Pairs, c.Eval, c.Strip, c.Verb, c.Lang, c.Files = "", nil, nil, 0, 0, 0, "", false
	case 1:
		b.Kind = "unknown subcommand"
		c.Sub = oneOf(t, "unknown", "evaluate", "Eval", "EVAL", "mark", "markups", "-eval", "", " eval", "help", "eval ", "-input", "--", "-h", "run")
	case 2:
		b.Kind = "no input"
		c.Inputs, c.Files = nil, false
		if chance(t, 30, "empty input?") {
			c.Inputs = []cliInput{{Text: ""}}
		}
	case 3:
		b.Kind = "no pair"
		c.Sub, c.Pairs = "markup", nil
	case 4:
		b.Kind = "missing file"
		if !c.Files {
			c.Files = true
			c.Inputs[0].Name = "0a.json"
		}
		i := uniform(t, len(c.Inputs))
		c.Inputs[i].What = oneOf(t, "what", "missing", "missing", "directory", "unreadable")
		if c.Inputs[i].What == "unreadable" {
			b.Kind = "unreadable file"
		}
		c.Inputs[i].Name = "gone-" + filepath.Base(c.Inputs[i].Name)
		if len(c.Inputs) == 1 && chance(t, 10, "no name?") {
			c.Inputs[i].Name = ""
			c.Inputs[i].What = "missing"
		}
	case 5:
		b.Kind = "failing input"
		text()
	case 6:
		b.Kind = "failing pair"
		if c.Sub != "markup" {
			c.Sub, c.Eval = "markup", 1
		}
		p := cliPair{Path: oneOf(t, "path", "$.script", "$.script2"), Script: sample(t, "script", failingPairScripts)}
		switch pick(t, "how", 3, 3, 2) {
		case 0:
			c.Eval = 1
		case 1:
			p = cliPair{Path: oneOf(t, "path", "$.missing_.x.script", "$.missing_[0].script", "$.missing_[1]", "$.missing_[0]", "$.missing_.a.b.c", "$.missing_[?(@.a)].x"), Script: "1"}
		default:
			c.Lang = oneOf(t, "language", "py", "JS", "lua", " js", "javascript")
			p.Script = "1"
		}
		c.Pairs = append(c.Pairs[:irange(t, "kept", 0, len(c.Pairs))], p)
	case 7:
		b.Kind = "unspellable pair"
		c.Sub = "markup"
		bad := oneOf(t, "bad", "$.a:b:c", "a:1", "$.a[:1", ":x", "$[:]", "$.a:1:", "::", "$.a:x,b:y", "$.[:x", "$.a b:1", "$.a:1,$.b:2:3", "$.a],$.b:1")
		c.Pairs = nil
		c.Bad = []string{"-path-scripts", bad}
		c.BadAt = irange(t, "at", 0, 5)
	default:
		b.Kind = "bad flag"
		c.BadAt = irange(t, "at", 0, 5)
		c.Bad = sample(t, "bad", [][]string{{"-nope"}, {"--nope=1"}, {"-Input", "x"}, {"-verbose=maybe"}, {"-=1"}, {"---x"}, {"-file", "x"}, {"-verbose=2"}})
		if c.Sub == "eval" && chance(t, 30, "of the other subcommand?") {
			c.Bad = sample(t, "bad", [][]string{{"-eval"}, {"-strip"}, {"-language", "js"}, {"-path-scripts", "$.a:1"}})
		} else if c.Sub == "markup" && chance(t, 30, "boolean?") {
			c.Bad = sample(t, "bad", [][]string{{"-eval=maybe"}, {"-strip=2"}, {"-eval="}})
		}
	}
	for i := range c.Inputs {
		if !c.Files && (strings.ContainsRune(c.Inputs[i].Text, 0)) {
			c.Inputs[i].Text = "{"
		}
	}
	b.Call = c
	return b
}

func checkCliBad(b cliBadCase, x *Ctx) error {
	c := b.Call
	codes := map[int]bool{}
	var before []cliOutcome
	x.Tag(b.Kind)
	x.NonTrivial()
	if c.NoSub || (c.Sub != "eval" && c.Sub != "markup") {
		codes[5] = true
		if strings.HasPrefix(c.Sub, "-") {
			codes[1], codes[2] = true, true
		}
	} else {
		switch b.Kind {
		case "bad flag":
			codes[1], codes[2] = true, true
		case "unspellable pair":
			codes[1], codes[2], codes[11] = true, true, true
		case "no input", "no pair":
			codes[6] = true
			if len(c.Inputs) > 0 && c.Sub == "markup" { // unloadable
				for _, in := range c.Inputs {
					if _, err := loaded(in.Text); err != nil && in.Text != "" {
						codes[9] = true
					}
				}
			}
		case "missing file", "unreadable file":
			codes[7] = true
			for _, in := range c.Inputs {
				if in.What == "directory" || in.What == "unreadable" {
					codes[3] = true
				}
			}
			for _, in := range c.Inputs {
				if in.What != "" {
					break
				}
				o, err := c.expect(in)
				if err != nil {
					return err
				}
				before = append(before, o)
			}
			// other inputs may fail too
			for _, in := range c.Inputs {
				if in.What != "" {
					continue
				}
				o, err := c.expect(in)
				if err != nil {
					return err
				}
				for _, k := range o.code {
					codes[k] = true
				}
			}
		default:
			for _, in := range c.Inputs {
				o, err := c.expect(in)
				if err != nil {
					return err
				}
				if len(o.code) > 0 {
					if len(o.results) > 0 {
						return skip("fails for some orders of the pairs")
					}
					for _, k := range o.code {
						codes[k] = true
					}
					break
				}
				before = append(before, o)
			}
			if len(codes) == 0 {
				return skip("does not fail")
			}
			for k := range codes {
				x.Tag(fmt.Sprintf("%s: status %d", b.Kind, k))
			}
		}
	}
	r, err := c.run()
	if err != nil {
		return err
	}
	if r.code == 0 {
		return failf("%s (%s) exits with 0: %.1500s %.1500s", c, b.Kind, r.stdout, r.stderr)
	}
	if !codes[r.code] {
		return failf("%s (%s) exits with %d, expected %v: %.1500s %.1500s", c, b.Kind, r.code, sortedInts(codes), r.stdout, r.stderr)
	}
	console := 0
	for _, o := range before {
		console += len(o.stdout) + len(o.stderr)
	}
	if strings.TrimSpace(r.stdout+r.stderr) == "" {
		return failf("%s (%s) exits with %d without a message", c, b.Kind, r.code)
	}
	// What looks like a result has to be one of the inputs before
	if isOn(c.Verb) {
		return nil
	}
	lines := strings.Split(r.stdout, "\n")
	for next := 0; len(lines) > 0; {
		if next < len(before) {
			if n := before[next].leads(lines); n > 0 {
				next++
				lines = lines[n:]
				continue
			}
		}
		n := leadsAny(lines)
		if n == 0 {
			lines = lines[1:]
			continue
		}
		text := strings.Join(lines[:n], "\n")
		quoted := false
		for _, in := range c.Inputs {
			quoted = quoted || strings.Contains(in.Text, text)
		}
		if !quoted {
			return failf("%s (%s) exits with %d but prints the result %s: %s", c, b.Kind, r.code, text, r.stdout)
		}
		lines = lines[n:]
	}
	return nil
}

func sortedInts(m map[int]bool) (out []int) {
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return
}

func init() {
	register("C30", "a generated invocation of the built command that succeeds; non-trivial: the result of some input is not the input itself",
		genCliBase, checkCli, needCLI(), counts(8000, 160000), workers(8, 8), limit(200*time.Second))
	register("C31", "a generated invocation of the built command that cannot succeed; every case is non-trivial",
		genCliBad, checkCliBad, needCLI(), counts(1600, 64000), workers(8, 8), limit(200*time.Second))
}
