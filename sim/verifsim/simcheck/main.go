//go:build go1.23

// Command simcheck explores, minimises and replays simulated runs.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"go.opencensus.io/verifsim/harness"
	"go.opencensus.io/verifsim/simreset"
	"go.opencensus.io/verifsim/simrt"
)

func main() {
	if len(os.Args) < 2 {
		die("usage: simcheck check|worker|replay|show ...")
	}
	args := os.Args[2:]
	switch os.Args[1] {
	case "check":
		os.Exit(check(args))
	case "worker":
		worker(args)
	case "digest":
		digest(args)
	case "replay":
		os.Exit(replay(args))
	case "show":
		show(args)
	case "list":
		var ns []string
		for n, w := range harness.Workloads {
			ns = append(ns, fmt.Sprint(n, " ", w.Props))
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
	default:
		die("unknown command " + os.Args[1])
	}
}

func die(s string) {
	fmt.Fprintln(os.Stderr, "simcheck:", s)
	os.Exit(2)
}

// setup prepares a process that runs simulations: one P, and in the race
// build no collection while tasks are alive.
func setup() {
	runtime.GOMAXPROCS(1)
	if simrt.Race {
		debug.SetGCPercent(-1)
		if p := os.Getenv("VERIF_RACELOG"); p != "" {
			harness.SetRaceLog(p)
		}
	} else {
		debug.SetGCPercent(400)
	}
}

var gcCount int

// between runs after a run. It reports whether the process has grown so much
// that another had better go on: the race detector's memory never shrinks.
func between() (full bool) {
	if !simrt.Race {
		return false
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if gcCount++; gcCount%100 == 0 || m.HeapAlloc > 100<<20 {
		runtime.GC()
	}
	if gcCount%20 == 0 {
		b, _ := os.ReadFile("/proc/self/statm")
		f := strings.Fields(string(b))
		if len(f) > 1 {
			pages, _ := strconv.ParseUint(f[1], 10, 64)
			return pages*uint64(os.Getpagesize()) > 2200<<20
		}
	}
	return false
}

type msg struct {
	Kind   string // "violation", "stats", "known"
	Seed   uint64
	Replay *harness.Replay    `json:",omitempty"`
	Stats  *harness.Stats     `json:",omitempty"`
	Viol   *harness.Violation `json:",omitempty"`
	What   string             `json:",omitempty"`
	Next   uint64             `json:",omitempty"` // where the next worker goes on
}

// worker explores every stride-th seed until the budget is spent or a
// violation is found, minimises that, and reports.
func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	first := fs.Uint64("first", 0, "")
	stride := fs.Uint64("stride", 1, "")
	maxRuns := fs.Uint64("runs", 1<<60, "")
	budget := fs.Duration("budget", 10*time.Second, "")
	minLimit := fs.Duration("minimise", 60*time.Second, "")
	deep := fs.Bool("deep", false, "")
	seedFile := fs.String("seedfile", "", "")
	hashFile := fs.String("hashes", "", "")
	findings := fs.String("findings", "", "")
	stopFile := fs.String("stop", "", "")
	any := fs.Bool("any", false, "stop at a violation of any property, as it is")
	fs.Parse(args)
	setup()
	known := harness.LoadFindings(*findings)
	out := json.NewEncoder(os.Stdout)
	var sf *os.File
	if *seedFile != "" {
		sf, _ = os.Create(*seedFile)
	}
	st := &harness.Stats{Probes: map[string]uint64{}, Workloads: map[string]uint64{}, Digests: map[string]string{}}
	start := time.Now()
	var buf [8]byte
	lastStop := time.Now()
	next := uint64(0)
	for i := uint64(0); i < *maxRuns && next == 0 && time.Since(start) < *budget; i++ {
		if time.Since(lastStop) > time.Second {
			lastStop = time.Now()
			if _, err := os.Stat(*stopFile); err == nil && *stopFile != "" {
				break
			}
		}
		seed := *first + i**stride
		if sf != nil {
			binary.LittleEndian.PutUint64(buf[:], seed)
			sf.WriteAt(buf[:], 0)
		}
		c := harness.MakeCase(*prop, seed, *deep)
		o := harness.RunCase(*prop, c.Plan, simrt.Config{Seed: c.Sched, Profile: c.Profile})
		st.Add(c, o)
		if between() {
			next = seed + *stride
		}
		if *any && len(o.Viol) > 0 {
			out.Encode(msg{Kind: "violation", Seed: seed, Viol: &o.Viol[0]})
			break
		}
		var hit *harness.Violation
		for _, v := range harness.Relevant(*prop, o.Viol) {
			if f := harness.Known(known, v); f != nil {
				st.Probes["known finding seen: "+f.What]++
				continue
			}
			hit = &v
			break
		}
		if hit != nil {
			r := harness.Minimise(*prop, c, *hit, *minLimit)
			if r == nil {
				// the same seed, run again in the same process, did not fail again
				out.Encode(msg{Kind: "violation", Seed: seed, Viol: hit})
			} else {
				out.Encode(msg{Kind: "violation", Seed: seed, Viol: hit, Replay: r})
			}
			break
		}
	}
	if *hashFile != "" {
		b := make([]byte, 0, 8*len(st.Hashes))
		for _, h := range st.Hashes {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		if f, err := os.OpenFile(*hashFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			f.Write(b)
			f.Close()
		}
	}
	out.Encode(msg{Kind: "stats", Stats: st, Next: next})
}

// digest re-runs seeds and prints their digests, for the determinism check.
func digest(args []string) {
	fs := flag.NewFlagSet("digest", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	deep := fs.Bool("deep", false, "")
	from := fs.Uint64("from", 0, "")
	n := fs.Uint64("n", 0, "")
	fs.Parse(args)
	setup()
	one := func(seed uint64) {
		c := harness.MakeCase(*prop, seed, *deep)
		o := harness.RunCase(*prop, c.Plan, simrt.Config{Seed: c.Sched, Profile: c.Profile})
		fmt.Printf("%d %016x %s\n", seed, o.Digest, c.Plan.W)
		between()
	}
	for i := uint64(0); i < *n; i++ {
		one(*from + i)
	}
	for _, a := range fs.Args() {
		seed, err := strconv.ParseUint(a, 10, 64)
		if err != nil {
			die(err.Error())
		}
		one(seed)
	}
}

func loadReplay(path string) *harness.Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		die(err.Error())
	}
	r := new(harness.Replay)
	if err := json.Unmarshal(b, r); err != nil {
		die(path + ": " + err.Error())
	}
	if harness.Workloads[r.Plan.W] == nil {
		die("unknown workload " + r.Plan.W)
	}
	return r
}

// replay runs a replay file; exit 1 if it fails as recorded.
func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verbose := fs.Bool("v", false, "print what happened")
	inner := fs.Bool("inner", false, "")
	fs.Parse(args)
	setup()
	path := fs.Arg(0)
	r := loadReplay(path)
	if r.Class == crash && !*inner {
		tmp, _ := os.MkdirTemp("", "simreplay")
		defer os.RemoveAll(tmp)
		self, _ := os.Executable()
		out, err := run(self, tmp, "replay", "-inner", path)
		if !crashedIn(out, err) {
			fmt.Printf("replay: property %s held on %s\n", r.Property, path)
			return 0
		}
		fmt.Printf("%s: %s\n", crash, firstLines(out, 40))
		fmt.Println("replay: same event log as recorded: true (the process died again)")
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		return 1
	}
	if r.Race != simrt.Race {
		die("this replay is for the other build")
	}
	v, same, o := harness.RunReplay(r, *verbose)
	if v == nil {
		fmt.Printf("replay: property %s held on %s\n", r.Property, path)
		for _, v := range o.Viol {
			fmt.Printf("  (other: %s %s)\n", v.Prop, v.Class)
		}
		return 0
	}
	if *verbose {
		b, _ := json.MarshalIndent(r.Plan, "", " ")
		fmt.Printf("%s\n", b)
		for e := o.First; e != nil; e = e.Next {
			fmt.Printf("#%d t=%v task%d %s %+v\n", e.Seq, time.Duration(e.At), e.Task, e.Kind, e.Val)
		}
	}
	fmt.Printf("%s: %s\n", v.Class, v.Detail)
	fmt.Printf("replay: same event log as recorded: %v\n", same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

// crash is the class of violations that end the process.
const crash = "crash"

// crashedIn reports whether a process died of an error the Go runtime cannot
// recover from, such as a stack overflow, in the code under test.
func crashedIn(out string, err error) bool {
	return err != nil && strings.Contains(out, "fatal error: ") && strings.Contains(out, "go.opencensus.io/") &&
		!strings.Contains(out, "out of memory") && !strings.Contains(out, "signal: killed")
}

func show(args []string) {
	fs := flag.NewFlagSet("show", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 0, "")
	deep := fs.Bool("deep", false, "")
	fs.Parse(args)
	setup()
	c := harness.MakeCase(*prop, *seed, *deep)
	b, _ := json.MarshalIndent(c, "", " ")
	fmt.Printf("%s\n", b)
	o := harness.RunCase(*prop, c.Plan, simrt.Config{Seed: c.Sched, Profile: c.Profile})
	for e := o.First; e != nil; e = e.Next {
		fmt.Printf("#%d t=%v task%d %s %+v\n", e.Seq, time.Duration(e.At), e.Task, e.Kind, e.Val)
	}
	for _, v := range o.Viol {
		fmt.Printf("%s %s: %s\n", v.Prop, v.Class, v.Detail)
	}
	fmt.Println("yields", o.Sim.Yields(), "switches", o.Sim.Switches, "simtime", time.Duration(o.Sim.SimTime()), "checks", o.Checks)
}

// ---------------------------------------------------------------- check

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	verif := fs.String("verif", "/verif", "")
	budget := fs.Duration("budget", 45*time.Second, "exploration time")
	jobs := fs.Int("jobs", 8, "")
	fs.Parse(args)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	deep := tier == "thorough"
	fmt.Printf("simcheck: property=%s tier=%s VERIF_SEED=%d budget=%v jobs=%d race_build=%v\n", *prop, tier, seed, *budget, *jobs, simrt.Race)
	ws := harness.ForProperty(*prop)
	if len(ws) == 0 {
		die("no workload decides " + *prop)
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		die(err.Error())
	}
	defer os.RemoveAll(tmp)
	findings := filepath.Join(*verif, "known_findings.json")
	self, _ := os.Executable()
	base := seed * 1_000_000_007

	// replays of the listed findings come first
	code := 0
	for _, f := range harness.LoadFindings(findings) {
		if f.Property != *prop {
			continue
		}
		out, _ := run(self, tmp, "replay", filepath.Join(*verif, f.Replay))
		if strings.Contains(out, "VIOLATION property=") {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.What)
		} else {
			fmt.Printf("simcheck: the listed finding %q no longer occurs\n", f.What)
		}
	}

	stop := filepath.Join(tmp, "stop")
	var mu sync.Mutex
	var viols []msg
	total := &harness.Stats{Probes: map[string]uint64{}, Workloads: map[string]uint64{}, Digests: map[string]string{}}
	var crashed []string
	var wg sync.WaitGroup
	for j := 0; j < *jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			seedFile := filepath.Join(tmp, fmt.Sprintf("seed%d", j))
			first := base + uint64(j)
		again:
			left := *budget - time.Since(start)
			cmd := exec.Command(self, "worker", "-prop", *prop, "-first", fmt.Sprint(first), "-stride", fmt.Sprint(*jobs),
				"-budget", left.String(), fmt.Sprintf("-deep=%v", deep), "-seedfile", seedFile, "-hashes", filepath.Join(tmp, fmt.Sprintf("hash%d", j)),
				"-findings", findings, "-stop", stop)
			cmd.Env = env(tmp)
			var errb limited
			cmd.Stderr = &errb
			p, _ := cmd.StdoutPipe()
			if err := cmd.Start(); err != nil {
				die(err.Error())
			}
			watchdog := time.AfterFunc(left+240*time.Second, func() { cmd.Process.Kill() })
			sc := bufio.NewScanner(p)
			sc.Buffer(make([]byte, 1<<20), 1<<30)
			gotStats, next := false, uint64(0)
			for sc.Scan() {
				var m msg
				if json.Unmarshal(sc.Bytes(), &m) != nil {
					continue
				}
				mu.Lock()
				switch m.Kind {
				case "violation":
					viols = append(viols, m)
					os.WriteFile(stop, nil, 0o644)
				case "stats":
					gotStats, next = true, m.Next
					merge(total, m.Stats)
				}
				mu.Unlock()
			}
			err := cmd.Wait()
			watchdog.Stop()
			if err == nil && next != 0 && time.Since(start) < *budget {
				first = next
				goto again
			}
			if err != nil || !gotStats {
				b, _ := os.ReadFile(seedFile)
				s := uint64(0)
				if len(b) == 8 {
					s = binary.LittleEndian.Uint64(b)
				}
				mu.Lock()
				if crashedIn(errb.String(), fmt.Errorf("ended")) {
					c := harness.MakeCase(*prop, s, deep)
					v := &harness.Violation{Prop: *prop, Class: crash, Detail: firstLines(errb.String(), 30)}
					viols = append(viols, msg{Kind: "violation", Seed: s, Viol: v, Replay: &harness.Replay{Property: *prop, Class: crash, Detail: v.Detail,
						Race: simrt.Race, Seed: s, Plan: c.Plan, Profile: c.Profile, SchedSeed: c.Sched}})
				}
				crashed = append(crashed, fmt.Sprintf("worker %d ended abnormally (%v) on seed %d:\n%s", j, err, s, errb.String()))
				os.WriteFile(stop, nil, 0o644)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	explored := time.Since(start)

	nviol := 0
	sort.Slice(viols, func(a, b int) bool { return viols[a].Seed < viols[b].Seed })
	unreproduced := 0
	for _, m := range viols {
		fmt.Printf("simcheck: seed %d: %s: %s\n", m.Seed, m.Viol.Class, firstLines(m.Viol.Detail, 12))
		if m.Replay == nil {
			unreproduced++
			fmt.Printf("simcheck: seed %d did not fail again\n", m.Seed)
			continue
		}
		if nviol > 0 {
			continue
		}
		dir := filepath.Join(*verif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", *prop, m.Seed))
		b, _ := json.MarshalIndent(m.Replay, "", " ")
		os.WriteFile(path, b, 0o644)
		// the replay must fail the same way in fresh processes
		good := 0
		for i := 0; i < 2; i++ {
			out, _ := run(self, tmp, "replay", path)
			if strings.Contains(out, "VIOLATION property="+*prop+" ") && strings.Contains(out, "same event log as recorded: true") {
				good++
			} else {
				fmt.Printf("simcheck: replay in a fresh process: %s\n", firstLines(out, 10))
			}
		}
		if good < 2 {
			unreproduced++
			continue
		}
		nviol++
		code = 1
		fmt.Printf("simcheck: minimised from %v to %v\n", m.Replay.Original, m.Replay.Minimised)
		fmt.Printf("simcheck: %s: %s\n", m.Replay.Class, firstLines(m.Replay.Detail, 40))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	}
	for _, c := range crashed {
		fmt.Println("simcheck:", firstLines(c, 60))
	}
	if nviol == 0 && (len(crashed) > 0 || unreproduced > 0) {
		code = 2
	}

	// determinism: some of the runs again, in other processes
	mism, checked := 0, 0
	if code == 0 && *prop != harness.RaceProperty {
		var seeds []string
		for s := range total.Digests {
			seeds = append(seeds, s)
		}
		sort.Strings(seeds)
		for lo := 0; lo < len(seeds); lo += 40 {
			hi := min(lo+40, len(seeds))
			out, err := run(self, tmp, append([]string{"digest", "-prop", *prop, fmt.Sprintf("-deep=%v", deep)}, seeds[lo:hi]...)...)
			if err != nil {
				fmt.Println("simcheck: digest:", err, firstLines(out, 10))
				code = 2
			}
			for _, l := range strings.Split(out, "\n") {
				f := strings.Fields(l)
				if len(f) == 3 {
					checked++
					if total.Digests[f[0]] != f[1] {
						mism++
						fmt.Printf("simcheck: seed %s (%s) did not repeat: %s then %s\n", f[0], f[2], total.Digests[f[0]], f[1])
					}
				}
			}
		}
	}

	distinct := map[uint64]bool{}
	for j := 0; j < *jobs; j++ {
		b, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("hash%d", j)))
		for ; len(b) >= 8; b = b[8:] {
			distinct[binary.LittleEndian.Uint64(b)] = true
		}
	}
	faults := map[string]uint64{
		"task stalled":             total.Stalls,
		"whole process paused":     total.Pauses,
		"preemption":               total.Preempts,
		"map visited out of order": total.MapPerms,
	}
	reached := map[string]uint64{}
	for k, v := range total.Probes {
		if strings.HasPrefix(k, "fault: ") {
			faults[strings.TrimPrefix(k, "fault: ")] = v
		} else {
			reached[strings.TrimPrefix(k, "reached: ")] = v
		}
	}
	var stubs []string
	seen := map[string]bool{}
	for _, w := range ws {
		for _, s := range w.Stub {
			if !seen[s] {
				seen[s] = true
				stubs = append(stubs, s)
			}
		}
	}
	sort.Strings(stubs)
	hours := explored.Hours()
	ev := map[string]any{
		"property": *prop, "tier": tier, "seed": seed, "level": "exploration",
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
		"assumptions": []string{
			"seeded search samples schedules, faults and histories; a clean batch is evidence, not proof",
			"between two scheduling points (one before every statement, at every synchronisation operation, and inside read-modify-write statements) the code runs atomically; memory is sequentially consistent",
			"the shims of sync, sync/atomic, time, math/rand, crypto/rand and runtime keep the documented contracts of the real packages",
		},
		"coverage": map[string]any{
			"evaluations":         total.Runs,
			"distinct_nontrivial": len(distinct),
			"rule": "one evaluation is one simulated run: the seed generates the plan (clients, operations, faults, knobs) and the schedule. A run is non-trivial if at least two operations ran, the scheduler handed over between tasks at least four times and at least one oracle was evaluated; " +
				"runs are distinct if the pair (plan, sequence of hand-overs with what each resumed task had been waiting for) differs",
			"samples":                              total.Samples,
			"runs_per_hour":                        float64(total.Runs) / hours,
			"seeds_per_hour":                       float64(total.Runs) / hours,
			"simulated_time_s":                     total.SimNS / 1e9,
			"faults_injected":                      faults,
			"conditions_reached":                   reached,
			"runs_per_workload":                    total.Workloads,
			"oracle_checks":                        total.Checks,
			"scheduling_points":                    total.Yields,
			"scheduling_points_of_the_longest_run": total.MaxYields,
			"task_hand_overs":                      total.Switches,
			"tasks_started":                        total.Tasks,
			"timers_fired":                         total.Tmr,
			"clock_jumps_to_timer":                 total.Jumps,
			"determinism":                          map[string]int{"runs_repeated_in_other_processes": checked, "mismatches": mism},
			"real_code":                            simreset.Packages,
			"stubbed":                              append(stubs, "Go scheduler, sync, channels, timers, clocks, random sources, runtime statistics: simulator"),
			"seams":                                simreset.Sites,
			"worker_processes":                     *jobs,
			"race_detector_build":                  simrt.Race,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
		die(err.Error())
	}
	fmt.Printf("simcheck: %d runs (%d distinct non-trivial) in %.1fs, %.0f simulated s, %d oracle checks, %d known-finding sightings, exit %d\n",
		total.Runs, len(distinct), explored.Seconds(), total.SimNS/1e9, total.Checks, countKnown(total), code)
	if mism > 0 {
		fmt.Printf("simcheck: %d of %d repeated runs differed: the simulation is not deterministic\n", mism, checked)
	}
	return code
}

func countKnown(s *harness.Stats) (n uint64) {
	for k, v := range s.Probes {
		if strings.HasPrefix(k, "known finding") {
			n += v
		}
	}
	return
}

func env(tmp string) []string {
	e := append(os.Environ(), "TZ=UTC", "VERIF_RACELOG="+filepath.Join(tmp, "race"))
	return append(e, "GORACE=log_path="+filepath.Join(tmp, "race")+" suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3 exitcode=0 atexit_sleep_ms=0")
}

func run(self, tmp string, args ...string) (string, error) {
	cmd := exec.Command(self, args...)
	cmd.Env = env(tmp)
	var b limited
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		return "", err
	}
	t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	defer t.Stop()
	err := cmd.Wait()
	return b.String(), err
}

type limited struct{ b []byte }

func (l *limited) Write(p []byte) (int, error) {
	if len(l.b) < 1<<20 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}
func (l *limited) String() string { return string(l.b) }

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n")
}

func merge(t, s *harness.Stats) {
	t.Runs += s.Runs
	t.Nontrivial += s.Nontrivial
	t.Checks += s.Checks
	t.Yields += s.Yields
	t.MaxYields = max(t.MaxYields, s.MaxYields)
	t.Switches += s.Switches
	t.Preempts += s.Preempts
	t.Stalls += s.Stalls
	t.Pauses += s.Pauses
	t.Jumps += s.Jumps
	t.MapPerms += s.MapPerms
	t.Tmr += s.Tmr
	t.Tasks += s.Tasks
	t.SimNS += s.SimNS
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for k, v := range s.Workloads {
		t.Workloads[k] += v
	}
	for k, v := range s.Digests {
		t.Digests[k] = v
	}
	if len(t.Samples) < 3 {
		t.Samples = append(t.Samples, s.Samples...)
	}
}
