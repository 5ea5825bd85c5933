//go:build go1.23

// Package harness holds the workloads that drive the library inside the
// simulator and the oracles that judge what it did.
package harness

import (
	"encoding/json"
	fmt "go.opencensus.io/verifsim/simfmt"
	"hash/fnv"
	"sort"
	"strings"
	"time"
	"unsafe"

	"go.opencensus.io/verifsim/simexectrace"
	"go.opencensus.io/verifsim/simos"
	"go.opencensus.io/verifsim/simrt"
	"go.opencensus.io/verifsim/simruntime"
)

// Op is one step of a plan. What the fields mean depends on the workload.
type Op struct {
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	D int64  `json:"d,omitempty"`
	S string `json:"s,omitempty"`
}

// Plan is everything a run does, faults included: only the schedule is left.
type Plan struct {
	W       string           `json:"workload"`
	Seed    uint64           `json:"rand_seed"` // randomness the library itself draws
	Knobs   map[string]int64 `json:"knobs,omitempty"`
	Clients [][]Op           `json:"clients"`
}

// Clone copies a plan.
func (p *Plan) Clone() *Plan {
	b, _ := json.Marshal(p)
	q := new(Plan)
	_ = json.Unmarshal(b, q)
	return q
}

// Hash identifies a plan.
func (p *Plan) Hash() uint64 {
	b, _ := json.Marshal(p)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// NOps counts a plan's steps.
func (p *Plan) NOps() int {
	n := 0
	for _, c := range p.Clients {
		n += len(c)
	}
	return n
}

// Workload is one way of driving the library.
type Workload struct {
	Name  string
	Props []string // the properties whose oracles it evaluates
	// Gen makes a plan. Everything random about a run but its schedule comes from r.
	Gen func(r *Rand, deep bool) *Plan
	// Run executes it as the main task of a simulated process.
	Run func(h *H)
	// Full resets the packages that are slow to start as well.
	Full bool
	// MaxYields bounds a run; 0 for the default.
	MaxYields uint64
	Weight    int
	// NoTime keeps stalls and pauses out: the oracle is about exact times.
	NoTime bool
	// Real and Stub name what is real code and what stands in for something.
	Stub []string
}

// Workloads is the registry.
var Workloads = map[string]*Workload{}

// Register adds a workload.
func Register(w *Workload) {
	if w.Weight == 0 {
		w.Weight = 1
	}
	Workloads[w.Name] = w
}

// ForProperty lists the workloads that decide a property, in a fixed order.
func ForProperty(id string) []*Workload {
	if w := Workloads[strings.TrimPrefix(id, "W:")]; w != nil { // for development
		return []*Workload{w}
	}
	var out []*Workload
	for _, w := range Workloads {
		for _, p := range w.Props {
			if p == id || id == RaceProperty {
				out = append(out, w)
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// RaceProperty is decided by the race detector over every workload.
const RaceProperty = "C19"

// Rand is the plan generator's randomness.
type Rand struct{ simrt.Rng }

// NewRand seeds it.
func NewRand(seed uint64) *Rand { return &Rand{simrt.NewRng(seed)} }

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// I64 is Range as an int64.
func (r *Rand) I64(a, b int) int64 { return int64(r.Range(a, b)) }

// Pick chooses a string.
func (r *Rand) Pick(s ...string) string { return s[r.Intn(len(s))] }

// PickW chooses an index by weight.
func (r *Rand) PickW(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	x := r.Intn(sum)
	for i, y := range w {
		if x -= y; x < 0 {
			return i
		}
	}
	return 0
}

// Dur returns a duration between a and b, log-uniform.
func (r *Rand) Dur(a, b time.Duration) int64 {
	x := float64(a)
	for x < float64(b) && r.Bool(0.8) {
		x *= 1 + r.Float()*2
	}
	if x > float64(b) {
		x = float64(b)
	}
	return int64(x)
}

// Violation is what an oracle found.
type Violation struct {
	Prop   string `json:"property"`
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// H is what a workload's Run gets.
type H struct {
	P      *Plan
	Checks uint64
	Viol   []Violation
	Prop   string // the property under check; its oracles are the ones that count
	state  any
}

// K returns a knob.
func (h *H) K(name string) int64 { return h.P.Knobs[name] }

// Check counts an oracle evaluation and records a violation if cond is false.
func (h *H) Check(prop string, cond bool, class, format string, args ...any) bool {
	h.Checks++
	if !cond {
		h.Bad(prop, class, format, args...)
	}
	return cond
}

// Bad records a violation.
func (h *H) Bad(prop, class, format string, args ...any) {
	if len(h.Viol) < 20 {
		h.Viol = append(h.Viol, Violation{prop, class, sf(format, args...)})
	}
}

// Fault counts an injected fault.
func (h *H) Fault(kind string) { simrt.Probe("fault: " + kind) }

// Probe counts a rare condition that was reached.
func (h *H) Probe(what string) { simrt.Probe("reached: " + what) }

// HangLimit is how long, in simulated time, an operation may take before it
// counts as hanging: far longer than the plan's delays and faults add up to.
func (h *H) HangLimit() time.Duration {
	if d := h.K("_hang"); d > 0 {
		return time.Duration(d)
	}
	return 48 * time.Hour
}

// RunClients runs one task per client and waits for them; it reports a hang of
// any client as a violation of prop and returns false.
func (h *H) RunClients(prop string, within time.Duration, f func(client int, op Op)) bool {
	var ts []*simrt.Task
	for i, ops := range h.P.Clients {
		ts = append(ts, simrt.Spawn(sf("client%d", i), func() {
			for _, op := range ops {
				f(i, op)
			}
		}))
	}
	return h.JoinAll(prop, within, ts)
}

// JoinAll waits for tasks.
func (h *H) JoinAll(prop string, within time.Duration, ts []*simrt.Task) bool {
	ok := true
	for _, t := range ts {
		if !t.Join(int64(within)) {
			h.Bad(prop, "hang", "%s has not returned %v of simulated time after it was last waited for: %s\n%s", t.Name, within, t.Why(), simrt.Describe())
			return false
		}
	}
	return ok
}

// Outcome of one run.
type Outcome struct {
	Viol      []Violation
	Decisions []simrt.Decision
	Sim       *simrt.Sim
	Checks    uint64
	Digest    uint64
	First     *simrt.LogEntry
}

const raceYields = 1000000

// Execute runs a plan under a schedule.
func Execute(p *Plan, cfg simrt.Config, prop string) Outcome {
	w := Workloads[p.W]
	h := &H{P: p, Prop: prop}
	cfg.RandSeed = p.Seed
	if cfg.MaxYields == 0 {
		cfg.MaxYields = w.MaxYields
	}
	if simrt.Race { // nothing is collected during a run
		if cfg.MaxYields = min(cfg.MaxYields, raceYields); cfg.MaxYields == 0 {
			cfg.MaxYields = raceYields
		}
	}
	res := simrt.Run(cfg, func() {
		simruntime.Reset()
		simexectrace.Reset()
		simos.Reset()
		simrt.ResetAll(func(path string) bool { return !w.Full && strings.Contains(path, "/zpages") })
		w.Run(h)
	})
	out := Outcome{Viol: h.Viol, Decisions: res.Decisions, Sim: res.Sim, Checks: h.Checks}
	if res.Fail != nil {
		// a crash or a stuck process breaks whatever the workload is about
		for _, pr := range w.Props {
			out.Viol = append(out.Viol, Violation{pr, res.Fail.Class, res.Fail.Detail})
		}
	}
	d := res.Sim.Hash ^ res.Sim.LogHash*31 ^ res.Sim.Yields()*1000003
	for _, v := range out.Viol {
		for i := 0; i < len(v.Class); i++ {
			d = d*1099511628211 + uint64(v.Class[i])
		}
	}
	out.Digest = d
	out.First = res.Sim.First()
	return out
}

// GenProfile draws how a run explores schedules.
func GenProfile(r *Rand, w *Workload, plan *Plan) simrt.Profile {
	p := simrt.Profile{MaxStall: int64(time.Second)}
	switch r.PickW(5, 3, 2) {
	case 0:
		p.Mode = 0
		p.PreemptP = []float64{0.5, 0.2, 0.08, 0.03, 0.01, 0.002}[r.Intn(6)]
	case 1:
		p.Mode = 1
		p.Changes = r.Range(1, 6)
		p.ChangeLen = 1 << r.Range(5, 12)
	case 2:
		p.Mode = 2
		p.PreemptP = []float64{0.5, 0.2, 0.08, 0.03, 0.01}[r.Intn(5)]
	}
	if !w.NoTime {
		if r.Bool(0.25) {
			p.StallP = []float64{0.3, 0.1, 0.03, 0.01}[r.Intn(4)]
		}
		if r.Bool(0.15) {
			p.PauseP = []float64{0.2, 0.05, 0.01}[r.Intn(3)]
		}
		p.MaxStall = []int64{int64(time.Microsecond), int64(time.Millisecond), int64(100 * time.Millisecond), int64(2 * time.Second), int64(15 * time.Second)}[r.Intn(5)]
	}
	p.TickNS = []int64{0, 1, 10, 100, 1000, 20000}[r.Intn(6)]
	if r.Bool(0.7) {
		p.MapPermP = []float64{1, 0.5, 0.1}[r.Intn(3)]
	}
	p.AsyncTim = r.Bool(0.5)
	// plans whose own times are short keep the faults in proportion
	if m := plan.Knobs["_maxstall"]; m > 0 && p.MaxStall > m {
		p.MaxStall = m
	}
	if m, ok := plan.Knobs["_maxtick"]; ok && p.TickNS > m {
		p.TickNS = m
	}
	return p
}

// sf, sp and fpf format with simfmt, of which the race detector sees nothing.
func sf(format string, a ...any) string { return fmt.Sprintf(format, a...) }

func sp(a ...any) string { return fmt.Sprint(a...) }

func fpf(b *strings.Builder, format string, a ...any) { b.WriteString(sf(format, a...)) }

// give and take stand for how a program passes an object from one goroutine to
// another, which is something the race detector sees.
func give[T any](p *T) *T {
	simrt.RaceReleaseMerge(unsafe.Pointer(p))
	return p
}

func take[T any](p *T) *T {
	if p != nil {
		simrt.RaceAcquire(unsafe.Pointer(p))
	}
	return p
}
