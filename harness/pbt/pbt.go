// Package pbt is a small property-based testing engine: cases are streams of uint64 choices, run in
// parallel, shrunk on the choice stream, and replayable. It compiles with Go 1.17 language semantics.
package pbt

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// T is the source of choices of one case and collects what the case did.
type T struct {
	Part    string
	Scratch string // directory of this case, removed afterwards
	CaseNo  int

	mu      sync.Mutex
	replay  []uint64
	isRep   bool
	pos     int
	state   uint64
	record  []uint64
	log     []string
	labels  map[string]int
	nontriv bool
	key     string
	defers  []func()
}

type failure struct {
	msg  string
	live bool
}

type harnessError struct{ msg string }

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// U64 draws one raw choice.
func (t *T) U64() uint64 {
	t.mu.Lock()
	defer t.mu.Unlock()
	var v uint64
	if t.isRep {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
		}
		t.pos++
	} else {
		v = splitmix(&t.state)
	}
	t.record = append(t.record, v)
	return v
}

// normalize replaces the last recorded choice by its effective value so that shrinking is meaningful.
func (t *T) norm(v uint64) {
	t.mu.Lock()
	t.record[len(t.record)-1] = v
	t.mu.Unlock()
}

// Intn draws from [0,n); 0 is the simplest.
func (t *T) Intn(n int) int {
	if n <= 1 {
		n = 1
	}
	v := t.U64() % uint64(n)
	t.norm(v)
	return int(v)
}

// Range draws from [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Chance is true with probability num/den; the simplest outcome is false.
func (t *T) Chance(num, den int) bool { return t.Intn(den) >= den-num }

// Bool is a fair coin.
func (t *T) Bool() bool { return t.Intn(2) == 1 }

// Weighted draws an index with the given weights.
func (t *T) Weighted(w ...int) int {
	s := 0
	for _, x := range w {
		s += x
	}
	v := t.Intn(s)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Bytes draws n bytes.
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := t.U64()
		for j := 0; j < 8 && i+j < n; j++ {
			b[i+j] = byte(v >> (8 * uint(j)))
		}
	}
	return b
}

// I64 draws an int64 with emphasis on small and extreme values.
func (t *T) I64() int64 {
	switch t.Weighted(6, 2, 2, 1, 1) {
	case 0:
		return int64(t.Intn(20))
	case 1:
		return int64(t.Intn(1 << 30))
	case 2:
		return int64(t.U64())
	case 3:
		ex := []int64{0, 1, -1, 1<<31 - 1, 1 << 31, -1 << 31, 1<<32 - 1, 1 << 32, 1<<62 - 1, 1 << 62, 1<<63 - 1, -1 << 63}
		return ex[t.Intn(len(ex))]
	default:
		return -int64(t.Intn(1000))
	}
}

// Perm draws a permutation of 0..n-1.
func (t *T) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + t.Intn(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Subset draws a sorted k-element subset of 0..n-1.
func (t *T) Subset(n, k int) []int {
	p := t.Perm(n)[:k]
	sort.Ints(p)
	return p
}

// Str draws a string from the given alphabet.
func (t *T) Str(alphabet string, lo, hi int) string {
	n := t.Range(lo, hi)
	r := []rune(alphabet)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(r[t.Intn(len(r))])
	}
	return sb.String()
}

// Logf adds a line to the rendered case.
func (t *T) Logf(format string, a ...interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.log) < 4000 {
		t.log = append(t.log, fmt.Sprintf(format, a...))
	}
}

// Label counts a feature of the case.
func (t *T) Label(l string) {
	t.mu.Lock()
	t.labels[l]++
	t.mu.Unlock()
}

// NonTrivial marks the case non-trivial under the property's rule. key identifies the case among others; when
// empty the choices do.
func (t *T) NonTrivial(key string) {
	t.mu.Lock()
	t.nontriv = true
	if key != "" {
		t.key = key
	}
	t.mu.Unlock()
}

// Defer registers a cleanup.
func (t *T) Defer(f func()) {
	t.mu.Lock()
	t.defers = append(t.defers, f)
	t.mu.Unlock()
}

// Fatalf reports a violation.
func (t *T) Fatalf(format string, a ...interface{}) {
	panic(failure{msg: fmt.Sprintf(format, a...)})
}

// FatalfLive reports a violation of a timing-dependent expectation: it counts only if it recurs.
func (t *T) FatalfLive(format string, a ...interface{}) {
	panic(failure{msg: fmt.Sprintf(format, a...), live: true})
}

// Harness aborts the run: the harness, not the code under test, is at fault.
func Harness(format string, a ...interface{}) {
	panic(harnessError{fmt.Sprintf(format, a...)})
}

// Must aborts the run on a harness-side error.
func Must(err error) {
	if err != nil {
		panic(harnessError{err.Error()})
	}
}

// Part is one generator+oracle of a property.
type Part struct {
	Name     string
	Fn       func(*T)
	Quick    int           // cases in the quick tier
	Thorough int           // cases in the thorough tier
	Workers  int           // parallel cases; 0 = number of CPUs
	Timeout  time.Duration // per case; 0 = 120 s
	NoShrink bool
	// QuickSecs/ThoroughSecs bound the wall time of the part (no new case is begun after that).
	QuickSecs, ThoroughSecs int
	Skip                    func() string // reason to skip
	// Fixed runs Fn exactly this many times with CaseNo 0..n-1 in every tier (enumerations).
	Fixed int
}

// Property is a property with its parts.
type Property struct {
	ID    string
	Rule  string
	Parts []Part
	Setup func(env *Env)
	// Exhaustive is set when the parts enumerate a finite space completely.
	Assumptions []string
}

// Env is the environment of a run.
type Env struct {
	Tier    string
	Seed    uint64
	Scratch string
	HX      string // the horcrux binary under test
	Repo    string
}

type outcome struct {
	fail    string
	live    bool
	harness string
	hang    bool
	stack   string
	t       *T
}

func hash64(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return h.Sum64()
}

func sutFrames(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "strangelove-ventures/horcrux/") && !strings.Contains(l, "horcrux/verifharness/") {
			return true
		}
	}
	return false
}

// SUTPanic tells whether a panic stack (the part below the panic call) passes through the code under test
// before it reaches the harness.
func sutPanic(stack string) bool {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 1
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "strangelove-ventures/horcrux/verifharness/") || strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.Contains(l, "strangelove-ventures/horcrux/") {
			return true
		}
	}
	return false
}

func runOnce(env *Env, pid string, part *Part, caseNo int, seed uint64, replay []uint64, isRep bool) (out outcome) {
	dir, err := ioutil.TempDir(env.Scratch, "c")
	if err != nil {
		return outcome{harness: err.Error()}
	}
	t := &T{Part: part.Name, Scratch: dir, CaseNo: caseNo, replay: replay, isRep: isRep, state: seed, labels: map[string]int{}}
	out.t = t
	done := make(chan outcome, 1)
	go func() {
		var o outcome
		o.t = t
		defer func() {
			for i := len(t.defers) - 1; i >= 0; i-- {
				func() {
					defer func() { _ = recover() }()
					t.defers[i]()
				}()
			}
			done <- o
		}()
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			st := string(debug.Stack())
			switch f := r.(type) {
			case failure:
				o.fail, o.live = f.msg, f.live
			case harnessError:
				o.harness = f.msg
			default:
				if sutPanic(st) {
					o.fail = fmt.Sprintf("panic in horcrux: %v", r)
					o.stack = st
				} else {
					o.harness = fmt.Sprintf("panic in harness: %v\n%s", r, st)
				}
			}
		}()
		part.Fn(t)
	}()
	to := part.Timeout
	if to == 0 {
		to = 120 * time.Second
	}
	select {
	case out = <-done:
		os.RemoveAll(dir)
	case <-time.After(to):
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		out.hang = true
		out.stack = string(buf[:n])
		if sutFrames(out.stack) {
			out.fail = fmt.Sprintf("case did not finish within %v (blocked in horcrux)", to)
			out.live = true
		} else {
			out.harness = fmt.Sprintf("case did not finish within %v", to)
		}
	}
	return out
}

// PartResult is what one part did.
type PartResult struct {
	Name        string         `json:"name"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels"`
	WallS       float64        `json:"wall_s"`
	Skipped     string         `json:"skipped,omitempty"`
	Unconfirmed int            `json:"unconfirmed_timing_failures,omitempty"`
}

// Violation is a confirmed, shrunk failure.
type Violation struct {
	Property string   `json:"property"`
	Part     string   `json:"part"`
	Message  string   `json:"message"`
	CaseNo   int      `json:"case"`
	Seed     uint64   `json:"seed"`
	Choices  []uint64 `json:"choices"`
	Log      []string `json:"log"`
	Stack    string   `json:"stack,omitempty"`
	Shrunk   string   `json:"shrunk"`
}

// Result is what one run did.
type Result struct {
	Property    string       `json:"property"`
	Tier        string       `json:"tier"`
	Seed        uint64       `json:"seed"`
	Rule        string       `json:"rule"`
	Assumptions []string     `json:"assumptions,omitempty"`
	Evaluations int          `json:"evaluations"`
	NonTrivial  int          `json:"distinct_nontrivial"`
	Parts       []PartResult `json:"parts"`
	Samples     []string     `json:"samples"`
	Violation   *Violation   `json:"violation,omitempty"`
	HarnessErr  string       `json:"harness_error,omitempty"`
	WallS       float64      `json:"wall_s"`
}

// CurrentFile is where the running cases are noted, for the driver to report when the process dies.
var CurrentFile string

var (
	curMu  sync.Mutex
	curSet = map[string]*T{}
)

// DumpCurrent writes the logs of the cases in progress to CurrentFile.
func DumpCurrent() {
	if CurrentFile == "" {
		return
	}
	curMu.Lock()
	defer curMu.Unlock()
	var sb strings.Builder
	for k, t := range curSet {
		t.mu.Lock()
		sb.WriteString(k + "\n")
		for _, l := range t.log {
			sb.WriteString("  " + l + "\n")
		}
		t.mu.Unlock()
	}
	_ = ioutil.WriteFile(CurrentFile, []byte(sb.String()), 0600)
}

func track(k string, t *T) func() {
	curMu.Lock()
	curSet[k] = t
	curMu.Unlock()
	return func() {
		curMu.Lock()
		delete(curSet, k)
		curMu.Unlock()
	}
}

// Run runs a property.
func Run(p *Property, env *Env, only string) *Result {
	start := time.Now()
	res := &Result{Property: p.ID, Tier: env.Tier, Seed: env.Seed, Rule: p.Rule, Assumptions: p.Assumptions}
	if p.Setup != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					res.HarnessErr = fmt.Sprintf("setup: %v\n%s", r, debug.Stack())
				}
			}()
			p.Setup(env)
		}()
	}
	for i := range p.Parts {
		if res.HarnessErr != "" || res.Violation != nil {
			break
		}
		part := &p.Parts[i]
		if only != "" && only != part.Name {
			continue
		}
		runPart(p, part, env, res)
	}
	for _, pr := range res.Parts {
		res.Evaluations += pr.Evaluations
		res.NonTrivial += pr.NonTrivial
	}
	res.WallS = time.Since(start).Seconds()
	return res
}

func runPart(p *Property, part *Part, env *Env, res *Result) {
	pr := PartResult{Name: part.Name, Labels: map[string]int{}}
	start := time.Now()
	if part.Skip != nil {
		if why := part.Skip(); why != "" {
			pr.Skipped = why
			res.Parts = append(res.Parts, pr)
			return
		}
	}
	n, secs := part.Quick, part.QuickSecs
	if env.Tier == "thorough" {
		n, secs = part.Thorough, part.ThoroughSecs
	}
	if part.Fixed > 0 {
		n = part.Fixed
	}
	workers := part.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	if workers > n {
		workers = n
	}
	var mu sync.Mutex
	seen := map[uint64]bool{}
	samples := 0
	var next int64 = -1
	var stop int32
	var firstFail *outcome
again:
	atomic.StoreInt32(&stop, 0)
	firstFail = nil
	wg := &sync.WaitGroup{}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				if secs > 0 && time.Since(start) > time.Duration(secs)*time.Second {
					return
				}
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				seed := hash64(env.Seed, p.ID, part.Name, i)
				o := runOnce(env, p.ID, part, i, seed, nil, false)
				mu.Lock()
				pr.Evaluations++
				for l, c := range o.t.labels {
					pr.Labels[l] += c
				}
				if o.t.nontriv {
					k := hash64(o.t.key)
					if o.t.key == "" {
						k = hash64(o.t.record)
					}
					if !seen[k] {
						seen[k] = true
						pr.NonTrivial++
						if samples < 3 && o.fail == "" {
							samples++
							res.Samples = append(res.Samples, fmt.Sprintf("[%s case %d] %s", part.Name, i, clip(strings.Join(o.t.log, "; "), 1500)))
						}
					}
				}
				if (o.fail != "" || o.harness != "") && firstFail == nil {
					oo := o
					firstFail = &oo
					atomic.StoreInt32(&stop, 1)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if firstFail != nil {
		o := *firstFail
		if o.harness != "" {
			res.HarnessErr = fmt.Sprintf("%s/%s case %d: %s", p.ID, part.Name, o.t.CaseNo, o.harness)
		} else if o.live && !confirm(env, p, part, &o) {
			pr.Unconfirmed++
			fmt.Fprintf(os.Stderr, "note: unconfirmed timing failure in %s/%s case %d: %s\n", p.ID, part.Name, o.t.CaseNo, o.fail)
			if pr.Unconfirmed < 10 {
				goto again
			}
		} else {
			v := shrink(env, p, part, o)
			res.Violation = &v
		}
	}
	pr.WallS = time.Since(start).Seconds()
	res.Parts = append(res.Parts, pr)
}

// confirm re-runs a timing-dependent failure alone; it must fail again twice in a row... at most three tries.
func confirm(env *Env, p *Property, part *Part, o *outcome) bool {
	fails := 0
	for i := 0; i < 3; i++ {
		r := runOnce(env, p.ID, part, o.t.CaseNo, 0, o.t.record, true)
		if r.harness != "" {
			continue
		}
		if r.fail != "" {
			fails++
			if !r.live {
				*o = r
				return true
			}
		}
		if fails >= 2 {
			return true
		}
	}
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func shrink(env *Env, p *Property, part *Part, o outcome) Violation {
	best := o
	tries, reproduced := 0, 0
	deadline := time.Now().Add(45 * time.Second)
	if env.Tier == "thorough" {
		deadline = time.Now().Add(120 * time.Second)
	}
	attempt := func(ch []uint64) bool {
		if tries >= 1500 || time.Now().After(deadline) {
			return false
		}
		tries++
		r := runOnce(env, p.ID, part, o.t.CaseNo, 0, ch, true)
		if r.fail != "" && r.harness == "" {
			reproduced++
			if reproduced == 1 || lessChoices(r.t.record, best.t.record) {
				best = r
				return true
			}
		}
		return false
	}
	if !part.NoShrink && !o.hang {
		orig := append([]uint64{}, o.t.record...)
		if attempt(orig) {
			improved := true
			for improved && tries < 1500 && time.Now().Before(deadline) {
				improved = false
				// delete blocks
				for size := 32; size >= 1; size /= 2 {
					for i := 0; i+size <= len(best.t.record); {
						c := append(append([]uint64{}, best.t.record[:i]...), best.t.record[i+size:]...)
						if len(c) < len(best.t.record) && attempt(c) {
							improved = true
						} else {
							i += size
						}
						if tries >= 1500 || time.Now().After(deadline) {
							break
						}
					}
				}
				// lower values
				for i := 0; i < len(best.t.record); i++ {
					v := best.t.record[i]
					for _, nv := range []uint64{0, v / 2, v - 1} {
						if v == 0 || nv >= v || i >= len(best.t.record) {
							continue
						}
						c := append([]uint64{}, best.t.record...)
						c[i] = nv
						if attempt(c) {
							improved = true
							break
						}
					}
				}
			}
		}
	}
	return Violation{Property: p.ID, Part: part.Name, Message: best.fail, CaseNo: o.t.CaseNo, Seed: env.Seed,
		Choices: best.t.record, Log: best.t.log, Stack: clip(best.stack, 20000),
		Shrunk: fmt.Sprintf("%d attempts, %d reproduced, %d -> %d choices", tries, reproduced, len(o.t.record), len(best.t.record))}
}

func lessChoices(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Replay re-runs a recorded violation; it returns the failure message or "".
func Replay(p *Property, env *Env, file string) *Result {
	b, err := ioutil.ReadFile(file)
	res := &Result{Property: p.ID, Tier: env.Tier, Seed: env.Seed, Rule: p.Rule}
	if err != nil {
		res.HarnessErr = err.Error()
		return res
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		res.HarnessErr = err.Error()
		return res
	}
	if p.Setup != nil {
		p.Setup(env)
	}
	for i := range p.Parts {
		if p.Parts[i].Name != v.Part {
			continue
		}
		o := runOnce(env, p.ID, &p.Parts[i], v.CaseNo, 0, v.Choices, true)
		res.Evaluations = 1
		if o.harness != "" {
			res.HarnessErr = o.harness
		} else if o.fail != "" {
			res.Violation = &Violation{Property: p.ID, Part: v.Part, Message: o.fail, CaseNo: v.CaseNo, Seed: env.Seed,
				Choices: o.t.record, Log: o.t.log, Stack: o.stack, Shrunk: "replay"}
		}
		return res
	}
	res.HarnessErr = "unknown part " + v.Part
	return res
}

// Catch runs f and returns the description of a panic, if any, and whether the code under test raised it.
// Engine failures raised inside f are returned as-is for re-raising.
func Catch(f func()) (msg string, sut bool, raw interface{}) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			raw = r
			msg = fmt.Sprintf("%v", r)
			switch r.(type) {
			case failure, harnessError:
			default:
				sut = sutPanic(st)
				if !sut {
					raw = harnessError{fmt.Sprintf("panic in harness: %v\n%s", r, st)}
				} else {
					msg += "\n" + clip(st, 6000)
				}
			}
		}
	}()
	f()
	return
}

// Group runs functions concurrently and re-raises the first failure in Wait.
type Group struct {
	wg    sync.WaitGroup
	mu    sync.Mutex
	first interface{}
}

// Go starts f.
func (g *Group) Go(f func()) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		msg, sut, raw := Catch(f)
		if raw != nil {
			if sut {
				raw = failure{msg: "panic in horcrux: " + msg}
			}
			g.mu.Lock()
			if g.first == nil {
				g.first = raw
			}
			g.mu.Unlock()
		}
	}()
}

// Wait waits for all functions.
func (g *Group) Wait() {
	g.wg.Wait()
	if g.first != nil {
		panic(g.first)
	}
}

// Hex renders bytes briefly.
func Hex(b []byte) string {
	if len(b) > 8 {
		return hex.EncodeToString(b[:8]) + ".."
	}
	return hex.EncodeToString(b)
}

// WriteJSON writes v to file.
func WriteJSON(file string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Dir(file), 0755)
		err = ioutil.WriteFile(file, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "write", file, err)
	}
}
