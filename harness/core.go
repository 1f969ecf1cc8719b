// Command pbt runs the property checks of json-dom: generated cases (pgregory.net/rapid) against explicit oracles.
//
//	pbt run    -prop ID -tier quick|thorough -seed N -worker K -workers W -dir DIR [-cli BIN]
//	pbt replay -prop ID -case FILE [-cli BIN]
//	pbt list
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/andygello555/json-dom/code/js"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------- registry

// Ctx is handed to a check so that it can say what the case covered.
type Ctx struct {
	nontrivial bool
	tags       []string
	replay     bool
}

func (c *Ctx) NonTrivial()  { c.nontrivial = true }
func (c *Ctx) Tag(s string) { c.tags = append(c.tags, s) }
func (c *Ctx) TagIf(b bool, s string) {
	if b {
		c.Tag(s)
	}
}

type discard struct{ why string }

func (d discard) Error() string { return "discarded: " + d.why }

// A case outside of the domain the oracle speaks about. Never a failure.
func skip(format string, a ...any) error { return discard{fmt.Sprintf(format, a...)} }

func failf(format string, a ...any) error { return fmt.Errorf(format, a...) }

type prop struct {
	id       string
	rule     string
	quick    int           // cases in the quick tier (all workers together)
	thorough int           // cases in the thorough tier
	workers  int           // workers in the quick tier (0: 4)
	tworkers int           // workers in the thorough tier (0: 8)
	limit    time.Duration // per case watchdog
	shrink   time.Duration
	gen      func(t *rapid.T) any
	decode   func(raw []byte) (any, error)
	check    func(c any, x *Ctx) error
	needCLI  bool
	race     bool // half of the workers run under the race detector
}

var props = map[string]*prop{}

type opt func(*prop)

func counts(quick, thorough int) opt { return func(p *prop) { p.quick, p.thorough = quick, thorough } }
func workers(q, t int) opt           { return func(p *prop) { p.workers, p.tworkers = q, t } }
func limit(d time.Duration) opt      { return func(p *prop) { p.limit = d } }
func shrinkTime(d time.Duration) opt { return func(p *prop) { p.shrink = d } }
func needCLI() opt                   { return func(p *prop) { p.needCLI = true } }
func withRace() opt                  { return func(p *prop) { p.race = true } }

func register[C any](id, rule string, gen func(t *rapid.T) C, check func(c C, x *Ctx) error, opts ...opt) {
	p := &prop{id: id, rule: rule, quick: 1500, thorough: 60000, limit: 90 * time.Second, shrink: 20 * time.Second}
	p.gen = func(t *rapid.T) any { return gen(t) }
	p.decode = func(raw []byte) (any, error) {
		var c C
		err := json.Unmarshal(raw, &c)
		return c, err
	}
	p.check = func(c any, x *Ctx) error { return check(c.(C), x) }
	for _, o := range opts {
		o(p)
	}
	if props[id] != nil {
		panic("property registered twice: " + id)
	}
	props[id] = p
}

// ---------------------------------------------------------------------------------------------- running one case

// Runs the check on a case, turning a panic that escapes from json-dom into a failure.
func runCase(p *prop, raw []byte, x *Ctx) (err error) {
	defer func() {
		if caught := recover(); caught != nil {
			if isRapid(caught) {
				panic(caught)
			}
			stack := string(debug.Stack())
			err = failf("panic: %v\n%s", caught, trimStack(stack))
		}
	}()
	js.ExternalConsoleLogStdout = io.Discard
	js.ExternalConsoleLogStderr = io.Discard
	c, derr := p.decode(raw)
	if derr != nil {
		return failf("harness error: case does not decode: %v", derr)
	}
	return p.check(c, x)
}

func isRapid(v any) bool {
	t := reflect.TypeOf(v)
	return t != nil && strings.Contains(t.PkgPath(), "rapid")
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

// ---------------------------------------------------------------------------------------------- worker

type tb struct{ failed bool }
type tbStop struct{}

func (t *tb) Helper()               {}
func (t *tb) Name() string          { return "pbt" }
func (t *tb) Logf(string, ...any)   {}
func (t *tb) Log(...any)            {}
func (t *tb) Skipf(string, ...any)  { panic(tbStop{}) }
func (t *tb) Skip(...any)           { panic(tbStop{}) }
func (t *tb) SkipNow()              { panic(tbStop{}) }
func (t *tb) Errorf(string, ...any) { t.failed = true }
func (t *tb) Error(...any)          { t.failed = true }
func (t *tb) Fatalf(string, ...any) { t.failed = true; panic(tbStop{}) }
func (t *tb) Fatal(...any)          { t.failed = true; panic(tbStop{}) }
func (t *tb) FailNow()              { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                 { t.failed = true }
func (t *tb) Failed() bool          { return t.failed }

type result struct {
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Discarded   int               `json:"discarded"`
	Tags        map[string]int    `json:"tags"`
	Samples     []json.RawMessage `json:"samples"`
	Failure     *failure          `json:"failure,omitempty"`
	Done        bool              `json:"done"`
	Rule        string            `json:"rule"`
}

type failure struct {
	Case    json.RawMessage `json:"case"`
	Message string          `json:"message"`
}

func mix(a, b uint64) uint64 {
	h := fnv.New64a()
	var buf [16]byte
	binary.LittleEndian.PutUint64(buf[:8], a)
	binary.LittleEndian.PutUint64(buf[8:], b)
	h.Write(buf[:])
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func mustSet(name, value string) {
	if err := flag.CommandLine.Set(name, value); err != nil {
		panic(err)
	}
}

func runWorker(p *prop, tier string, seed uint64, worker, nworkers int, dir string, budget time.Duration, scale float64) {
	start := time.Now()
	n := p.quick
	if tier == "thorough" {
		n = p.thorough
	}
	n = int(float64(n) * scale)
	n = (n + nworkers - 1) / nworkers
	res := &result{Tags: map[string]int{}, Rule: p.rule}
	seen := map[uint64]bool{}
	journal, err := os.Create(filepath.Join(dir, fmt.Sprintf("current-%d.json", worker)))
	if err != nil {
		panic(err)
	}
	save := func() {
		hashes := make([]byte, 0, 8*len(seen))
		for h := range seen {
			hashes = binary.LittleEndian.AppendUint64(hashes, h)
		}
		_ = os.WriteFile(filepath.Join(dir, fmt.Sprintf("hashes-%d.bin", worker)), hashes, 0o644)
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		_ = os.WriteFile(filepath.Join(dir, fmt.Sprintf("result-%d.json", worker)), b, 0o644)
	}

	var caseStart time.Time
	watch := make(chan time.Time, 1)
	go func() { // watchdog: a case that takes longer than the limit is reported as a hang (exit 3)
		var since time.Time
		for {
			select {
			case since = <-watch:
			case <-time.After(time.Second):
				if !since.IsZero() && time.Since(since) > p.limit {
					fmt.Fprintf(os.Stderr, "PBT-HANG: case exceeded %v\n", p.limit)
					os.Exit(3)
				}
			}
		}
	}()

	// One case: journal it, run it, count it.
	one := func(raw []byte, count bool) error {
		if _, err := journal.WriteAt(raw, 0); err == nil {
			_ = journal.Truncate(int64(len(raw)))
		}
		caseStart = time.Now()
		watch <- caseStart
		x := &Ctx{}
		err := runCase(p, raw, x)
		watch <- time.Time{}
		if count {
			res.Evaluations++
			if d, ok := err.(discard); ok {
				res.Discarded++
				res.Tags["discarded: "+d.why]++
			} else {
				for _, t := range x.tags {
					res.Tags[t]++
				}
				if x.nontrivial {
					res.NonTrivial++
					h := fnv.New64a()
					h.Write(raw)
					if k := h.Sum64(); !seen[k] {
						seen[k] = true
						// keep a few samples, spread over the run
						if m := len(seen); len(raw) < 3000 && (m <= 2 || m == 10 || m == 100 || m == 1000) {
							res.Samples = append(res.Samples, append(json.RawMessage(nil), raw...))
						}
					}
				}
			}
		}
		if _, ok := err.(discard); ok {
			return nil
		}
		return err
	}

	// Committed regression cases first
	if worker == 0 {
		files, _ := filepath.Glob(filepath.Join(regressDir(), p.id, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			var rf replayFile
			if err := json.Unmarshal(b, &rf); err != nil {
				panic(f + ": " + err.Error())
			}
			if err := one(rf.Case, true); err != nil {
				res.Failure = &failure{rf.Case, err.Error()}
				res.Done = true
				save()
				return
			}
			res.Tags["regression case"]++
		}
	}

	mustSet("rapid.nofailfile", "true")
	mustSet("rapid.shrinktime", p.shrink.String())
	const batch = 100
	for done, b := 0, 0; done < n && time.Since(start) < budget; b++ {
		k := batch
		if n-done < k {
			k = n - done
		}
		mustSet("rapid.checks", strconv.Itoa(k))
		mustSet("rapid.seed", strconv.FormatUint(mix(mix(seed, uint64(worker)+1), uint64(b)+1), 10))
		var best *failure
		failing := false
		ok := func() (ok bool) {
			t := &tb{}
			defer func() {
				if c := recover(); c != nil {
					if _, stop := c.(tbStop); !stop {
						panic(c)
					}
				}
				ok = !t.failed
			}()
			rapid.Check(t, func(rt *rapid.T) {
				c := p.gen(rt)
				raw, err := json.Marshal(c)
				if err != nil {
					panic("harness error: case does not marshal: " + err.Error())
				}
				if err := one(raw, !failing); err != nil {
					failing = true
					if best == nil || len(raw) < len(best.Case) {
						best = &failure{append(json.RawMessage(nil), raw...), err.Error()}
					}
					rt.Fatalf("violation")
				}
			})
			return
		}()
		if best != nil {
			res.Failure = best
			res.Done = true
			save()
			return
		}
		if !ok {
			panic("harness error: rapid failed without a failing case (generator rejects too much?)")
		}
		done += k
		if b%20 == 0 {
			save()
		}
	}
	res.Done = true
	save()
}

type replayFile struct {
	Property string          `json:"property"`
	Message  string          `json:"message,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func regressDir() string { return filepath.Join(os.Getenv("PBT_HARNESS"), "regress") }

var cliBin string

func main() {
	testing.Init()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: pbt run|replay|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	id := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	worker := flag.Int("worker", 0, "")
	nworkers := flag.Int("workers", 1, "")
	dir := flag.String("dir", "", "")
	cas := flag.String("case", "", "")
	cli := flag.String("cli", "", "")
	budget := flag.Duration("budget", 10*time.Minute, "")
	scale := flag.Float64("scale", 1, "")
	_ = flag.CommandLine.Parse(os.Args[2:])
	cliBin = *cli
	if cmd == "list" {
		out := []map[string]any{}
		for _, p := range props {
			q, th := p.workers, p.tworkers
			if q == 0 {
				q = 4
			}
			if th == 0 {
				th = 8
			}
			out = append(out, map[string]any{"id": p.id, "workers": q, "tworkers": th, "cli": p.needCLI, "race": p.race,
				"limit_s": p.limit.Seconds(), "rule": p.rule})
		}
		sort.Slice(out, func(i, j int) bool { return out[i]["id"].(string) < out[j]["id"].(string) })
		b, _ := json.Marshal(out)
		fmt.Println(string(b))
		return
	}
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	if p.id == "C12" { // hostile scripts may ask for any amount of memory
		limit := uint64(24 << 30)
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: limit, Max: limit})
	}
	switch cmd {
	case "run":
		runWorker(p, *tier, *seed, *worker, *nworkers, *dir, *budget, *scale)
	case "replay":
		b, err := os.ReadFile(*cas)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rf replayFile
		raw := json.RawMessage(b)
		if json.Unmarshal(b, &rf) == nil && rf.Property != "" {
			raw = rf.Case
		}
		go func() {
			time.Sleep(p.limit)
			fmt.Fprintf(os.Stderr, "PBT-HANG: case exceeded %v\n", p.limit)
			os.Exit(3)
		}()
		x := &Ctx{replay: true}
		err = runCase(p, raw, x)
		if _, ok := err.(discard); ok {
			fmt.Println("PBT-DISCARD", err)
			return
		}
		if err != nil {
			fmt.Println("PBT-FAIL", err)
			os.Exit(1)
		}
		fmt.Println("PBT-OK nontrivial:", x.nontrivial, "tags:", x.tags)
	default:
		os.Exit(2)
	}
}
