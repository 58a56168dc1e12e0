//go:build go1.25

// Package pbt is a small property-based testing engine. Every random decision
// of a case is one recorded integer ("draw"); 0 is always the simplest choice.
// A case is replayed by feeding its draws back, and shrunk by run.py, which
// edits the list of draws and replays.
package pbt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// Arm is one generator plus oracle of a property.
type Arm struct {
	Name     string
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // number of cases in the quick tier
	Thorough int    // number of cases in the thorough tier
	Chunk    int    // cases per worker process
	Par      int    // cases running concurrently in one process (real-time arms)
	Bubble   bool   // run inside a synctest bubble (fake clock)
	MemMB    int    // address space limit of the worker in MB, 0 for the default
	StallS   int    // seconds without progress before a case is suspected to hang
	Retry    bool   // real-time arm: a failure counts only if it shows again in isolation
	Workers  int    // at most this many worker processes at once, 0 for the default
	Run      func(t *T)
}

// T is one running case.
type T struct {
	Tier    string
	Index   int
	Size    int // 1..100, grows over the first cases of an arm
	seq     []uint64
	replay  bool
	rng     uint64
	draws   []uint64
	mu      sync.Mutex
	trace   []string
	traceN  int
	nt      bool
	labels  map[string]int
	fp      uint64
	cleanup []func()
	drawLog *os.File
}

type failure struct{ key, msg string }
type discard struct{}

const maxDraws = 1 << 20

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (t *T) next() uint64 {
	t.rng += 0x9e3779b97f4a7c15
	return mix(t.rng)
}

// Draw gives an integer in [0,n); n = 0 stands for 2^64.
func (t *T) Draw(n uint64) uint64 {
	var v uint64
	if t.replay {
		if len(t.draws) < len(t.seq) {
			v = t.seq[len(t.draws)]
		}
		if n != 0 && v >= n {
			v = v % n
		}
	} else {
		v = t.next()
		if n != 0 {
			v = v % n
		}
	}
	if len(t.draws) >= maxDraws {
		panic("case draws too much")
	}
	t.draws = append(t.draws, v)
	if t.drawLog != nil {
		fmt.Fprintf(t.drawLog, "%d\n", v)
	}
	return v
}

// Intn gives an int in [0,n).
func (t *T) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.Draw(uint64(n)))
}

// Range gives an int in [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Bool is true with probability 1/2.
func (t *T) Bool() bool { return t.Draw(2) == 1 }

// Chance is true with probability pct/100.
func (t *T) Chance(pct int) bool { return t.Draw(100) >= uint64(100-pct) }

// Weighted gives an index, chosen with the given weights.
func (t *T) Weighted(w ...int) int {
	total := 0
	for _, x := range w {
		total += x
	}
	v := t.Intn(total)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Steps calls f at most max times, on average about avg times; each call is
// preceded by one draw, 0 meaning stop, so whole steps can be deleted.
func (t *T) Steps(min, avg, max int, f func(i int)) {
	for i := 0; i < max; i++ {
		if i >= min && t.Draw(uint64(avg)+1) == 0 {
			return
		}
		f(i)
	}
}

// U64 gives a 64-bit value, biased to small ones, powers of two and extremes.
func (t *T) U64() uint64 {
	switch t.Weighted(4, 3, 2, 2, 2) {
	case 0:
		return t.Draw(8)
	case 1:
		return t.Draw(1 << 20)
	case 2: // around a power of two
		b := uint64(1) << t.Draw(64)
		return b - 2 + t.Draw(5)
	case 3: // near the top
		return ^uint64(0) - t.Draw(8)
	default:
		return t.Draw(0)
	}
}

// Bytes gives n bytes from few draws (a drawn seed expanded), simplest all zero.
func (t *T) Bytes(n int) []byte {
	out := make([]byte, n)
	s := t.Draw(0)
	if s == 0 {
		return out
	}
	x := s
	for i := range out {
		if i%8 == 0 {
			x = mix(x)
		}
		out[i] = byte(x >> (8 * (i % 8)))
	}
	return out
}

// Hash32 gives 32 bytes: small numbers first, some sparse, some all-random.
func (t *T) Hash32() [32]byte {
	var out [32]byte
	switch t.Weighted(3, 1, 4) {
	case 0:
		out[31] = byte(t.Draw(4))
	case 1:
		for i := range out {
			out[i] = 0xff
		}
		out[31] = byte(255 - t.Draw(3))
	default:
		copy(out[:], t.Bytes(32))
	}
	return out
}

// Pick gives an element of a non-empty list.
func Pick[K any](t *T, ls []K) K { return ls[t.Intn(len(ls))] }

// Perm gives a permutation of 0..n-1, simplest the identity.
func (t *T) Perm(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + t.Intn(n-i)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Note adds a line to the readable description of the case.
func (t *T) Note(format string, a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := fmt.Sprintf(format, a...)
	t.fp = mix(t.fp ^ strHash(s))
	t.traceN++
	if len(t.trace) < 400 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.trace = append(t.trace, s)
	}
}

// NonTrivial marks the case as non-trivial.
func (t *T) NonTrivial() { t.mu.Lock(); t.nt = true; t.mu.Unlock() }

// Label counts something for the evidence.
func (t *T) Label(l string) { t.mu.Lock(); t.labels[l]++; t.mu.Unlock() }

// Cleanup registers a function run after the case.
func (t *T) Cleanup(f func()) { t.cleanup = append(t.cleanup, f) }

// Fail ends the case as a violation; key identifies the kind of failure.
func (t *T) Fail(key, format string, a ...any) {
	panic(failure{key, fmt.Sprintf(format, a...)})
}

// Check fails unless ok.
func (t *T) Check(ok bool, key, format string, a ...any) {
	if !ok {
		t.Fail(key, format, a...)
	}
}

// Discard drops the case.
func (t *T) Discard() { panic(discard{}) }

// Hash gives a value derived from the draws so far (for keys of scratch things).
func (t *T) TempDir() string {
	d, err := os.MkdirTemp("", "zv")
	if err != nil {
		panic(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

type job struct {
	Arm     string     `json:"arm"`
	Mode    string     `json:"mode"` // gen, replay, list
	Seed    uint64     `json:"seed"`
	Tier    string     `json:"tier"`
	From    int        `json:"from"`
	To      int        `json:"to"`
	Seqs    [][]uint64 `json:"seqs"`
	Out     string     `json:"out"`
	DrawLog string     `json:"drawlog"`
	Samples int        `json:"samples"`
	Known   []string   `json:"known"`
}

type result struct {
	I       int            `json:"i"`
	Status  string         `json:"status"` // ok fail discard
	Key     string         `json:"key,omitempty"`
	Msg     string         `json:"msg,omitempty"`
	Draws   []uint64       `json:"draws,omitempty"`
	NT      bool           `json:"nt,omitempty"`
	FP      string         `json:"fp,omitempty"`
	Trace   []string       `json:"trace,omitempty"`
	Labels  map[string]int `json:"labels,omitempty"`
	NDraws  int            `json:"nd,omitempty"`
	Elapsed float64        `json:"el,omitempty"`
}

// Frame of a panic that names the culprit: the first repository function that
// is not part of the harness, or the first harness function.
func culprit(stack string) string {
	const mod = "github.com/levilutz/basiccoin/"
	harness := ""
	for _, line := range strings.Split(stack, "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, mod) {
			continue
		}
		fn := strings.TrimPrefix(line, mod)
		if i := strings.LastIndex(fn, "("); i > 0 {
			fn = fn[:i]
		}
		if strings.HasPrefix(fn, "internal/zverif") {
			if harness == "" && !strings.HasPrefix(fn, "internal/zverif/pbt") {
				harness = fn
			}
			continue
		}
		return fn
	}
	return "harness:" + harness
}

func runCase(arm *Arm, t *T) (res result) {
	start := time.Now()
	defer func() {
		for i := len(t.cleanup) - 1; i >= 0; i-- {
			t.cleanup[i]()
		}
		t.mu.Lock()
		defer t.mu.Unlock()
		res.I = t.Index
		res.NT = t.nt
		res.Labels = t.labels
		res.NDraws = len(t.draws)
		h := t.fp
		if t.traceN == 0 {
			for _, d := range t.draws {
				h = mix(h ^ d)
			}
		}
		res.FP = fmt.Sprintf("%016x", h)
		res.Elapsed = time.Since(start).Seconds()
	}()
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
			res.Status = "ok"
		case failure:
			res.Status, res.Key, res.Msg = "fail", x.key, x.msg
		case discard:
			res.Status = "discard"
		default:
			st := string(debug.Stack())
			// skip the frames of recover itself
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			res.Status = "fail"
			res.Key = "panic@" + culprit(st)
			if len(st) > 3000 {
				st = st[:3000]
			}
			res.Msg = fmt.Sprintf("panic: %v\n%s", r, st)
		}
	}()
	arm.Run(t)
	return
}

func newT(j *job, i int) *T {
	t := &T{Tier: j.Tier, Index: i, labels: map[string]int{}, Size: 100}
	return t
}

// Main runs the job given by the environment.
func Main(tt *testing.T, arms []Arm) {
	path := os.Getenv("PBT_JOB")
	if path == "" {
		tt.Skip("no job")
	}
	raw, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var j job
	if err := json.Unmarshal(raw, &j); err != nil {
		panic(err)
	}
	out, err := os.OpenFile(j.Out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0600)
	if err != nil {
		panic(err)
	}
	if j.Mode == "list" {
		type a struct {
			Name, Rule                                          string
			Quick, Thorough, Chunk, Par, MemMB, StallS, Workers int
			Retry                                               bool
		}
		ls := []a{}
		for _, x := range arms {
			ls = append(ls, a{x.Name, x.Rule, x.Quick, x.Thorough, x.Chunk, x.Par, x.MemMB, x.StallS, x.Workers, x.Retry})
		}
		json.NewEncoder(out).Encode(ls)
		os.Exit(0)
	}
	var arm *Arm
	for i := range arms {
		if arms[i].Name == j.Arm {
			arm = &arms[i]
		}
	}
	if arm == nil {
		panic("no such arm: " + j.Arm)
	}
	if arm.Bubble {
		synctest.Test(tt, func(*testing.T) { work(&j, arm, out) })
	} else {
		work(&j, arm, out)
	}
	os.Exit(0)
}

func work(j *job, arm *Arm, out *os.File) {
	var mu sync.Mutex
	samples := j.Samples
	labels := map[string]int{}
	pending := bufio.NewWriterSize(out, 1<<16)
	emit := func(res result, t *T) {
		mu.Lock()
		defer mu.Unlock()
		for l, n := range res.Labels {
			labels[l] += n
		}
		res.Labels = nil
		if res.Status == "fail" || (res.NT && samples > 0 && res.Status == "ok") {
			if res.Status != "fail" {
				samples--
			}
			res.Trace = t.trace
		}
		if res.Status == "fail" || j.Mode == "replay" {
			res.Draws = t.draws
		}
		if res.Msg != "" && len(res.Msg) > 8000 {
			res.Msg = res.Msg[:8000]
		}
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		pending.Write(append([]byte("R "), append(b, '\n')...))
		pending.Flush()
	}
	begin := func(i int) {
		mu.Lock()
		fmt.Fprintf(out, "S %d\n", i)
		mu.Unlock()
	}
	finish := func() {
		b, _ := json.Marshal(labels)
		fmt.Fprintf(out, "L %s\nE\n", b)
		os.Exit(0)
	}
	known := map[string]bool{}
	for _, k := range j.Known {
		known[k] = true
	}
	if j.Mode == "replay" {
		for i, s := range j.Seqs {
			t := newT(j, i)
			t.replay, t.seq = true, s
			begin(i)
			emit(runCase(arm, t), t)
		}
		finish()
	}
	mk := func(i int) *T {
		t := newT(j, i)
		t.rng = mix(mix(j.Seed) ^ strHash(arm.Name) ^ mix(uint64(i)))
		t.Size = 10 + i
		if t.Size > 100 {
			t.Size = 100
		}
		if j.DrawLog != "" {
			f, err := os.Create(j.DrawLog)
			if err != nil {
				panic(err)
			}
			t.drawLog = f
		}
		return t
	}
	if arm.Par > 1 && j.To-j.From > 1 {
		ch := make(chan int)
		var wg sync.WaitGroup
		stop := false
		for w := 0; w < arm.Par; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range ch {
					t := mk(i)
					begin(i)
					res := runCase(arm, t)
					emit(res, t)
					if res.Status == "fail" && !known[res.Key] {
						mu.Lock()
						stop = true
						mu.Unlock()
					}
				}
			}()
		}
		for i := j.From; i < j.To; i++ {
			mu.Lock()
			s := stop
			mu.Unlock()
			if s {
				break
			}
			ch <- i
		}
		close(ch)
		wg.Wait()
		finish()
	}
	for i := j.From; i < j.To; i++ {
		t := mk(i)
		begin(i)
		res := runCase(arm, t)
		emit(res, t)
		if res.Status == "fail" && !known[res.Key] {
			break
		}
	}
	finish()
}

// SortedKeys is a helper for deterministic iteration.
func SortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = runtime.NumGoroutine
