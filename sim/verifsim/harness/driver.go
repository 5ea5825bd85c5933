//go:build go1.23

package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/verifsim/simrt"
)

// Replay is a replay file: a minimised run that breaks a property.
type Replay struct {
	Property  string           `json:"property"`
	Class     string           `json:"class"`
	Detail    string           `json:"detail"`
	Race      bool             `json:"race_build"`
	Seed      uint64           `json:"seed"`
	Plan      *Plan            `json:"plan"`
	Profile   simrt.Profile    `json:"profile"`
	SchedSeed uint64           `json:"sched_seed"`
	Exact     bool             `json:"decisions_replayed"`
	Decisions []simrt.Decision `json:"decisions"`
	Digest    string           `json:"event_log_digest"`
	Original  map[string]int   `json:"size_before_minimising"`
	Minimised map[string]int   `json:"size_after_minimising"`
}

// Case is one seed's plan and schedule.
type Case struct {
	Seed    uint64
	Plan    *Plan
	Profile simrt.Profile
	Sched   uint64
}

// MakeCase derives everything about a run from its seed.
func MakeCase(prop string, seed uint64, deep bool) Case {
	r := NewRand(seed*0x9e3779b97f4a7c15 + 12345)
	ws := ForProperty(prop)
	var weights []int
	for _, w := range ws {
		weights = append(weights, w.Weight)
	}
	w := ws[r.PickW(weights...)]
	p := w.Gen(r, deep)
	p.W = w.Name
	if p.Seed == 0 {
		p.Seed = r.Uint64() >> 1
	}
	return Case{Seed: seed, Plan: p, Profile: GenProfile(r, w, p), Sched: r.Uint64() >> 1}
}

// Stats of a batch of runs.
type Stats struct {
	Runs, Nontrivial, Checks             uint64
	Yields, Switches, Preempts           uint64
	MaxYields                            uint64 // of a run
	Stalls, Pauses, Jumps, MapPerms, Tmr uint64
	Tasks                                uint64
	SimNS                                float64
	Probes                               map[string]uint64
	Workloads                            map[string]uint64
	Hashes                               []uint64 `json:"-"`
	Samples                              []any
	LastSeed                             uint64
	Digests                              map[string]string // a few, to re-run elsewhere
}

// Add counts a run.
func (s *Stats) Add(c Case, o Outcome) {
	sim := o.Sim
	s.Runs++
	s.Checks += o.Checks
	s.Yields += sim.Yields()
	s.MaxYields = max(s.MaxYields, sim.Yields())
	s.Switches += sim.Switches
	s.Preempts += sim.Preempts
	s.Stalls += sim.Stalls
	s.Pauses += sim.Pauses
	s.Jumps += sim.Jumps
	s.MapPerms += sim.MapPerms
	s.Tmr += sim.Fired
	s.Tasks += uint64(sim.TasksMade)
	s.SimNS += float64(sim.SimTime())
	s.Workloads[c.Plan.W]++
	sim.EachProbe(func(n string, k uint64) { s.Probes[n] += k })
	if sim.Switches >= 4 && o.Checks > 0 && c.Plan.NOps() >= 2 {
		s.Nontrivial++
		s.Hashes = append(s.Hashes, sim.Hash^c.Plan.Hash()*0x9e3779b97f4a7c15)
	}
	if len(s.Samples) < 2 && sim.Switches >= 4 {
		s.Samples = append(s.Samples, map[string]any{"seed": c.Seed, "workload": c.Plan.W, "clients": c.Plan.Clients, "knobs": c.Plan.Knobs,
			"steps": sim.Yields(), "task_switches": sim.Switches, "sim_time": time.Duration(sim.SimTime()).String(), "oracle_checks": o.Checks, "events": sim.LogLen()})
	}
	if len(s.Digests) < 40 {
		s.Digests[fmt.Sprint(c.Seed)] = fmt.Sprintf("%016x", o.Digest)
	}
	s.LastSeed = c.Seed
}

// Relevant filters an outcome's violations to the property under check.
func Relevant(prop string, vs []Violation) []Violation {
	var out []Violation
	for _, v := range vs {
		if v.Prop == prop {
			out = append(out, v)
		}
	}
	return out
}

// RunCase executes a case for a property, turning data races into violations
// of the race property.
func RunCase(prop string, p *Plan, cfg simrt.Config) Outcome {
	before := simrt.RaceErrors()
	o := Execute(p, cfg, prop)
	if prop == RaceProperty {
		o.Checks++
		o.Viol = nil // functional failures are the other properties' business
		if simrt.RaceErrors() > before {
			o.Viol = raceReports()
		}
	}
	return o
}

var raceLog struct {
	path string
	off  int64
}

// SetRaceLog says where the race detector writes.
func SetRaceLog(prefix string) { raceLog.path = fmt.Sprintf("%s.%d", prefix, os.Getpid()) }

func raceReports() []Violation {
	b, err := os.ReadFile(raceLog.path)
	if err != nil || int64(len(b)) < raceLog.off {
		return nil
	}
	text := string(b[raceLog.off:])
	raceLog.off = int64(len(b))
	var out []Violation
	for _, rep := range strings.Split(text, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		// the two accesses are the first two stanzas; both must be in the
		// library's code (possibly through the standard library)
		var frames []string
		ok := 0
		stanzas := strings.Split(strings.TrimSpace(rep), "\n\n")
		for i, st := range stanzas {
			if i == 0 {
				st = strings.TrimSpace(strings.TrimPrefix(st, "WARNING: DATA RACE"))
			}
			if i > 1 {
				break
			}
			lib := ""
			for _, l := range strings.Split(st, "\n")[1:] {
				l = strings.TrimSpace(l)
				if !strings.HasPrefix(l, "go.opencensus.io/") {
					continue
				}
				if i := strings.Index(l, "/verifsim/"); i >= 0 {
					if strings.HasPrefix(l[i:], "/verifsim/sim") && !strings.HasPrefix(l[i:], "/verifsim/simcheck") {
						continue // a seam
					}
					break // the workload's own doing
				}
				lib = strings.TrimSuffix(l, "()")
				break
			}
			if lib != "" {
				ok++
				frames = append(frames, lib)
			}
		}
		if ok < 2 {
			simrt.Probe("race report outside the library")
			continue
		}
		sort.Strings(frames)
		out = append(out, Violation{RaceProperty, "data race: " + strings.Join(frames, " / "), strings.TrimSpace(rep)})
	}
	return out
}

func class(v Violation) string { return v.Class }

// Minimise shrinks a failing case while it fails the same way, within a time
// limit, and returns the replay.
func Minimise(prop string, c Case, v Violation, limit time.Duration) *Replay {
	deadline := time.Now().Add(limit)
	want := class(v)
	fails := func(p *Plan, cfg simrt.Config) (Outcome, *Violation) {
		o := RunCase(prop, p, cfg)
		for _, x := range Relevant(prop, o.Viol) {
			if class(x) == want {
				return o, &x
			}
		}
		return o, nil
	}
	type best struct {
		plan *Plan
		prof simrt.Profile
		seed uint64
		o    Outcome
		v    *Violation
	}
	var cur best
	o, x := fails(c.Plan, simrt.Config{Seed: c.Sched, Profile: c.Profile})
	if x == nil {
		return nil
	}
	cur = best{c.Plan, c.Profile, c.Sched, o, x}
	orig := map[string]int{"operations": c.Plan.NOps(), "clients": len(c.Plan.Clients), "decisions": len(o.Decisions), "steps": int(o.Sim.Yields())}
	seeds := NewRand(c.Sched)
	try := func(p *Plan, prof simrt.Profile, n int) bool {
		for i := 0; i < n && time.Now().Before(deadline); i++ {
			s := cur.seed
			if i > 0 {
				s = seeds.Uint64() >> 1
			}
			if o, x := fails(p, simrt.Config{Seed: s, Profile: prof}); x != nil {
				cur = best{p, prof, s, o, x}
				return true
			}
		}
		return false
	}
	planPhase := time.Now().Add(limit * 6 / 10)
	for changed := true; changed && time.Now().Before(planPhase); {
		changed = false
		// drop whole clients
		for i := 0; i < len(cur.plan.Clients) && len(cur.plan.Clients) > 1; i++ {
			if len(cur.plan.Clients[i]) == 0 {
				continue
			}
			p := cur.plan.Clone()
			p.Clients[i] = []Op{}
			if try(p, cur.prof, 40) {
				changed = true
			}
		}
		// drop runs of operations
		for i := 0; i < len(cur.plan.Clients); i++ {
			for size := len(cur.plan.Clients[i]); size >= 1; size /= 2 {
				for at := 0; at+size <= len(cur.plan.Clients[i]) && time.Now().Before(planPhase); {
					p := cur.plan.Clone()
					p.Clients[i] = append(append([]Op{}, p.Clients[i][:at]...), p.Clients[i][at+size:]...)
					if try(p, cur.prof, 30) {
						changed = true
					} else {
						at += size
					}
				}
			}
		}
		// simpler knobs
		var ks []string
		for k := range cur.plan.Knobs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if cur.plan.Knobs[k] == 0 || strings.HasPrefix(k, "_") {
				continue
			}
			p := cur.plan.Clone()
			p.Knobs[k] = 0
			if try(p, cur.prof, 15) {
				changed = true
			}
		}
	}
	// simpler timing
	if cur.prof.StallP > 0 || cur.prof.PauseP > 0 {
		q := cur.prof
		q.StallP, q.PauseP = 0, 0
		try(cur.plan, q, 100)
	}
	if cur.prof.MapPermP > 0 {
		q := cur.prof
		q.MapPermP = 0
		try(cur.plan, q, 30)
	}
	rp := &Replay{Property: prop, Seed: c.Seed, Race: simrt.Race, Plan: cur.plan, Profile: cur.prof, SchedSeed: cur.seed, Original: orig}
	// now the schedule: the decisions of the failing run, as few as possible
	decs := append([]simrt.Decision(nil), cur.o.Decisions...)
	exact := func(d []simrt.Decision) bool {
		if time.Now().After(deadline) {
			return false
		}
		o, x := fails(cur.plan, simrt.Config{Replay: true, Decisions: append([]simrt.Decision(nil), d...), Profile: cur.prof})
		if x == nil {
			return false
		}
		cur.o, cur.v = o, x
		return true
	}
	if exact(decs) {
		rp.Exact = true
		n := 2
		for len(decs) > 0 && time.Now().Before(deadline) {
			size := (len(decs) + n - 1) / n
			shrunk := false
			for at := 0; at < len(decs); at += size {
				end := min(at+size, len(decs))
				d := append(append([]simrt.Decision{}, decs[:at]...), decs[end:]...)
				if exact(d) {
					decs = d
					shrunk = true
					n = max(n-1, 2)
					break
				}
			}
			if !shrunk {
				if size == 1 {
					break
				}
				n = min(n*2, len(decs))
			}
		}
		rp.Decisions = decs
		cfg := rp.config()
		o, x := fails(cur.plan, cfg)
		if x == nil {
			return nil
		}
		cur.o, cur.v = o, x
	}
	rp.Class, rp.Detail = cur.v.Class, cur.v.Detail
	rp.Digest = fmt.Sprintf("%016x", cur.o.Digest)
	rp.Minimised = map[string]int{"operations": cur.plan.NOps(), "clients": len(cur.plan.Clients), "decisions": len(rp.Decisions), "steps": int(cur.o.Sim.Yields())}
	return rp
}

func (r *Replay) config() simrt.Config {
	if r.Exact {
		return simrt.Config{Replay: true, Decisions: append([]simrt.Decision(nil), r.Decisions...), Profile: r.Profile}
	}
	return simrt.Config{Seed: r.SchedSeed, Profile: r.Profile}
}

// RunReplay executes a replay file; it returns the violation and whether the
// event log is the recorded one.
func RunReplay(r *Replay, debug bool) (*Violation, bool, Outcome) {
	o := RunCase(r.Property, r.Plan, r.config())
	for _, v := range Relevant(r.Property, o.Viol) {
		if v.Class == r.Class {
			return &v, r.Property == RaceProperty || fmt.Sprintf("%016x", o.Digest) == r.Digest, o
		}
	}
	return nil, false, o
}

// Finding is an entry of the known-findings file.
type Finding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"` // must occur in the violation's detail
	What     string `json:"what"`
	Replay   string `json:"replay"` // shows it
}

// Known reports whether a violation is a listed finding.
func Known(fs []Finding, v Violation) *Finding {
	for i := range fs {
		f := &fs[i]
		if f.Property == v.Prop && f.Class == v.Class && strings.Contains(v.Detail, f.Match) {
			return f
		}
	}
	return nil
}

// LoadFindings reads the file; fixed entries are not findings.
func LoadFindings(path string) []Finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		panic(err)
	}
	return f.Findings
}
