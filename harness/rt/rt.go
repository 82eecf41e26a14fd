// Package rt runs the executable properties of this harness: it drives generated (rapid) and enumerated
// cases through an oracle, counts what was covered, and turns a shrunk failure into a replay file.
//
// A property is a set of Subs. Each Sub has a case type C (plain data, JSON), a generator and/or an
// enumeration of cases, and a Check that runs the code under test against its oracle.
package rt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Bytes is arbitrary bytes that (un)marshal as a Go-quoted string, so that replay files are readable.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(b))) }

func (b *Bytes) UnmarshalJSON(data []byte) error {
	var q string
	if err := json.Unmarshal(data, &q); err != nil {
		return err
	}
	s, err := strconv.Unquote(q)
	if err != nil {
		return err
	}
	*b = Bytes(s)
	return nil
}

// Info is what a Check says about the case it ran.
type Info struct {
	NonTrivial bool
	labels     []string
}

// Label classifies the case, for the distribution reported in the evidence.
func (i *Info) Label(label string) {
	i.labels = append(i.labels, label)
}

// LabelIf is Label, conditionally.
func (i *Info) LabelIf(cond bool, label string) {
	if cond {
		i.labels = append(i.labels, label)
	}
}

// Sub is one executable statement of a property.
type Sub interface {
	name() string
	run(t *testing.T, r *recorder)
	replay(raw json.RawMessage) error
}

// P is a Sub over cases of type C.
type P[C any] struct {
	Name string
	// Gen draws a case; nil if the Sub is only enumerated.
	Gen func(*rapid.T) C
	// Enum yields cases until yield returns false; nil if the Sub is only generated.
	Enum func(yield func(C) bool)
	// Quick and Thorough are the number of cases generated, over all shards.
	Quick, Thorough int
	// Rule says how cases are made, and which are non-trivial.
	Rule string
	// Exhaustive says that Enum enumerates a finite space completely.
	Exhaustive bool
	// Check returns an error if the property is violated by the case.
	Check func(C, *Info) error
}

func (p P[C]) name() string { return p.Name }

// Failure is a replay file.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Seed     uint64          `json:"seed"`
}

type subResult struct {
	Name        string         `json:"name"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Enumerated  bool           `json:"enumerated"`
	Exhaustive  bool           `json:"exhaustive"`
	Rule        string         `json:"rule"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Millis      int64          `json:"millis"`
}

type recorder struct {
	Property string      `json:"property"`
	Shard    int         `json:"shard"`
	Subs     []subResult `json:"subs"`
	Failures []Failure   `json:"failures"`
	Known    []string    `json:"known"`
	Notes    []string    `json:"notes"`
	// hashes of distinct non-trivial cases, for merging
	Hashes []uint64 `json:"hashes"`

	seen map[uint64]bool
	mu   sync.Mutex

	shards int
	seed   uint64
	tier   string
	trace  string
	out    string
}

var current = &recorder{}

// Known reports a known finding which still fails on this tree.
func Known(what string) {
	current.mu.Lock()
	defer current.mu.Unlock()
	for _, k := range current.Known {
		if k == what {
			return
		}
	}
	current.Known = append(current.Known, what)
}

// Thorough says whether this is the thorough tier.
func Thorough() bool { return os.Getenv("VP_TIER") == "thorough" }

// Pick returns a or b by tier.
func Pick(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

func envInt(name string, def int) int {
	n, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}
	return n
}

// Main runs the subs of a property; call it from the only test of a package.
func Main(t *testing.T, property string, subs ...Sub) {
	r := current
	r.Property = property
	r.Shard = envInt("VP_SHARD", 0)
	r.shards = envInt("VP_SHARDS", 1)
	r.tier = os.Getenv("VP_TIER")
	r.trace = os.Getenv("VP_TRACE")
	r.out = os.Getenv("VP_OUT")
	r.seen = map[uint64]bool{}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	r.seed = seed

	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")

	if file := os.Getenv("VP_REPLAY"); file != "" {
		replayFile(t, subs, file)
		return
	}

	go r.watchdog()
	defer r.save()

	// Saved cases first: every shrunk failure that was ever worth keeping.
	r.corpus(t, subs)

	only := os.Getenv("VP_SUB")
	for _, sub := range subs {
		if only != "" && sub.name() != only {
			continue
		}
		sub.run(t, r)
		if len(r.Failures) > 0 {
			break
		}
	}
}

func (r *recorder) corpus(t *testing.T, subs []Sub) {
	dir := os.Getenv("VP_CORPUS")
	if dir == "" || r.Shard != 0 {
		return
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.json"))
	sort.Strings(files)
	n := 0
	for _, file := range files {
		f, sub, err := load(subs, file)
		if err != nil {
			t.Fatalf("HARNESS-ERROR corpus file %s: %v", file, err)
		}
		n++
		if err := sub.replay(f.Case); err != nil {
			f.Error = "(saved case) " + err.Error()
			r.Failures = append(r.Failures, *f)
			t.Errorf("saved case %s: %v", file, err)
			return
		}
	}
	if n > 0 {
		r.Notes = append(r.Notes, fmt.Sprintf("%d saved cases replayed", n))
	}
}

func load(subs []Sub, file string) (*Failure, Sub, error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil, nil, err
	}
	var f Failure
	if err := json.Unmarshal(data, &f); err != nil {
		return nil, nil, err
	}
	for _, sub := range subs {
		if sub.name() == f.Sub {
			return &f, sub, nil
		}
	}
	return nil, nil, fmt.Errorf("no sub named %q", f.Sub)
}

func replayFile(t *testing.T, subs []Sub, file string) {
	f, sub, err := load(subs, file)
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	if err := sub.replay(f.Case); err != nil {
		fmt.Printf("REPLAY-FAILS %v\n", err)
		t.Fail()
		return
	}
	fmt.Println("REPLAY-PASSES")
}

func (p P[C]) replay(raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return fmt.Errorf("HARNESS-ERROR bad case: %v", err)
	}
	var info Info
	return p.guarded(c, &info)
}

func (p P[C]) guarded(c C, info *Info) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if h, ok := e.(HarnessError); ok {
				panic(h)
			}
			err = fmt.Errorf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	return p.Check(c, info)
}

// HarnessError is a panic that means the harness could not do its job; it is never a violation.
type HarnessError string

// Must panics with a HarnessError if err is not nil.
func Must(err error) {
	if err != nil {
		panic(HarnessError(err.Error()))
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for i, l := range lines {
		if strings.Contains(l, "/jargon/") || strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 12 || i > 80 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func (p P[C]) run(t *testing.T, r *recorder) {
	start := time.Now()
	res := subResult{Name: p.Name, Labels: map[string]int{}, Rule: p.Rule, Exhaustive: p.Exhaustive}
	var lastFail *Failure

	one := func(c C) error {
		raw, err := json.Marshal(c)
		Must(err)
		if r.trace != "" {
			f := Failure{Property: r.Property, Sub: p.Name, Error: "process died while running this case", Case: raw, Seed: r.seed}
			data, _ := json.Marshal(f)
			Must(os.WriteFile(r.trace, data, 0o644))
		}
		var info Info
		r.begin(p.Name, raw)
		err = p.guarded(c, &info)
		r.end()

		if lastFail == nil && err == nil {
			// count only until the first failure; what follows is shrinking
			res.Evaluations++
			for _, l := range info.labels {
				res.Labels[l]++
			}
			if info.NonTrivial {
				h := fnv.New64a()
				h.Write([]byte(p.Name))
				h.Write(raw)
				sum := h.Sum64()
				if !r.seen[sum] {
					r.seen[sum] = true
					res.NonTrivial++
					n := res.NonTrivial
					if len(res.Samples) < 4 && (n&(n-1)) == 0 && len(raw) < 1500 {
						res.Samples = append(res.Samples, string(raw))
					}
				}
			}
		}
		if err != nil {
			lastFail = &Failure{Property: r.Property, Sub: p.Name, Error: err.Error(), Case: raw, Seed: r.seed}
		}
		return err
	}

	t.Run(p.Name, func(t *testing.T) {
		if p.Enum != nil {
			res.Enumerated = true
			i := 0
			p.Enum(func(c C) bool {
				mine := i%r.shards == r.Shard
				i++
				if !mine {
					return true
				}
				if err := one(c); err != nil {
					t.Error(err)
					return false
				}
				return true
			})
		}
		if p.Gen != nil && lastFail == nil {
			checks := p.Quick
			if r.tier == "thorough" {
				checks = p.Thorough
			}
			if scale, err := strconv.ParseFloat(os.Getenv("VP_SCALE"), 64); err == nil {
				checks = int(float64(checks) * scale)
			}
			checks = (checks + r.shards - 1) / r.shards
			h := fnv.New64a()
			fmt.Fprintf(h, "%d/%d/%s/%s", r.seed, r.Shard, r.Property, p.Name)
			seed := h.Sum64()
			if seed == 0 {
				seed = 1
			}
			flag.Set("rapid.checks", strconv.Itoa(checks))
			flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
			rapid.Check(t, func(rt *rapid.T) {
				c := p.Gen(rt)
				if err := one(c); err != nil {
					rt.Fatalf("%v", err)
				}
			})
		}
	})
	if lastFail != nil {
		r.Failures = append(r.Failures, *lastFail)
	}
	res.Millis = time.Since(start).Milliseconds()
	r.Subs = append(r.Subs, res)
}

// The watchdog turns a case that never ends into a failure. It goes by CPU time of the process, not by the
// clock, so that a busy machine does not matter; the limit is several orders of magnitude more than a case needs.
var running struct {
	sync.Mutex
	active bool
	n      int
	sub    string
	raw    json.RawMessage
	cpu    time.Duration
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// CPU is the CPU time that the process has used.
func CPU() time.Duration { return cpuTime() }

func (r *recorder) begin(sub string, raw json.RawMessage) {
	running.Lock()
	running.active, running.sub, running.raw = true, sub, raw
	running.n++
	running.cpu = -1
	running.Unlock()
}

func (r *recorder) end() {
	running.Lock()
	running.active = false
	running.Unlock()
}

// CPULimit is how much CPU one case may use.
var CPULimit = 90 * time.Second

// HeapLimit is how much memory one case may hold.
var HeapLimit uint64 = 5 << 30

func (r *recorder) watchdog() {
	last := -1
	var since time.Duration
	for {
		time.Sleep(250 * time.Millisecond)
		running.Lock()
		active, n, sub, raw := running.active, running.n, running.sub, running.raw
		running.Unlock()
		if !active {
			last = -1
			continue
		}
		cpu := cpuTime()
		if n != last {
			last, since = n, cpu
			continue
		}
		var why string
		if cpu-since > CPULimit {
			why = fmt.Sprintf("does not terminate: used %v of CPU time", CPULimit)
		} else {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > HeapLimit {
				why = fmt.Sprintf("does not terminate: holds %d MB", ms.HeapAlloc>>20)
			}
		}
		if why != "" {
			r.Failures = append(r.Failures, Failure{Property: r.Property, Sub: sub, Error: why, Case: raw, Seed: r.seed})
			r.save()
			os.Exit(1)
		}
	}
}

func (r *recorder) save() {
	if r.out == "" {
		return
	}
	r.Hashes = r.Hashes[:0]
	for h := range r.seen {
		r.Hashes = append(r.Hashes, h)
	}
	sort.Slice(r.Hashes, func(i, j int) bool { return r.Hashes[i] < r.Hashes[j] })
	data, err := json.Marshal(r)
	Must(err)
	Must(os.WriteFile(r.out+".tmp", data, 0o644))
	Must(os.Rename(r.out+".tmp", r.out))
}
