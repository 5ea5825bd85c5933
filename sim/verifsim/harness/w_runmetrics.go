//go:build go1.23

package harness

import (
	"sort"
	"strings"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/plugin/runmetrics"
	"go.opencensus.io/verifsim/simrt"
	"go.opencensus.io/verifsim/simruntime"
)

// The runmetrics workload: clients enable, disable and read runtime metrics;
// the runtime is a stub whose every number says which sample it is of.

type rmMetric struct {
	name, field string
	cumulative  bool // with UseDerivedCumulative
	unit        metricdata.Unit
}

var rmMetrics = []rmMetric{
	{"memory_alloc", "Alloc", false, "By"},
	{"total_memory_alloc", "TotalAlloc", true, "By"},
	{"sys_memory_alloc", "Sys", false, "By"},
	{"memory_lookups", "Lookups", true, "1"},
	{"memory_malloc", "Mallocs", true, "1"},
	{"memory_frees", "Frees", true, "1"},
	{"heap_alloc", "HeapAlloc", false, "By"},
	{"sys_heap", "HeapSys", false, "By"},
	{"heap_idle", "HeapIdle", false, "By"},
	{"heap_inuse", "HeapInuse", false, "By"},
	{"heap_objects", "HeapObjects", false, "1"},
	{"heap_release", "HeapReleased", true, "By"},
	{"stack_inuse", "StackInuse", false, "By"},
	{"sys_stack", "StackSys", false, "By"},
	{"stack_mspan_inuse", "MSpanInuse", false, "By"},
	{"sys_stack_mspan", "MSpanSys", false, "By"},
	{"stack_mcache_inuse", "MCacheInuse", false, "By"},
	{"sys_stack_mcache", "MCacheSys", false, "By"},
	{"gc_sys", "GCSys", false, "By"},
	{"other_sys", "OtherSys", false, "By"},
	{"num_gc", "NumGC", true, "1"},
	{"num_forced_gc", "NumForcedGC", true, "1"},
	{"next_gc_heap_size", "NextGC", false, "By"},
	{"last_gc_finished_timestamp", "LastGC", false, "ms"},
	{"pause_total", "PauseTotalNs", true, "ms"},
	{"gc_cpu_fraction", "GCCPUFraction", false, "1"},
	{"cpu_goroutines", "", false, "1"},
	{"cpu_cgo_calls", "", false, "1"},
}

type rmCall struct {
	iv
	kind string
	id   string // of the options
	n    int    // of the call
	sets []string
}

type rmSim struct {
	h     *H
	calls []*rmCall
	fails int
}

func (s *rmSim) exec(c int, op Op) {
	switch op.K {
	case "sleep":
		simrt.Sleep(op.A)
	case "enable", "disable":
		k := &rmCall{kind: op.K, n: len(s.calls)}
		s.calls = append(s.calls, k)
		o := runmetrics.RunMetricOptions{EnableCPU: op.A&1 != 0, EnableMemory: op.A&2 != 0, UseDerivedCumulative: op.A&4 != 0, Prefix: rmPrefix(op)}
		k.id = rmID(o.Prefix, o.EnableCPU, o.EnableMemory, o.UseDerivedCumulative)
		k.iv = begin(op.K, op.A)
		if op.K == "enable" {
			err := runmetrics.Enable(o)
			s.h.Check("C07", err == nil, "enable", "enabling failed: %v", err)
		} else {
			runmetrics.Disable()
		}
		k.end(op.K + " done")
	case "read":
		s.read()
	}
}

func rmPrefix(op Op) string {
	return []string{"", "a_", "b/", "process/", "p\u00e4 /", strings.Repeat("long", 80)}[op.B]
}

func rmID(prefix string, cpu, mem, cum bool) string {
	if !mem {
		cum = false
	}
	if !cpu && !mem {
		return "nothing" // not told apart by what is read
	}
	return sf("%s,%v,%v,%v", prefix, cpu, mem, cum)
}

func (s *rmSim) read() {
	h := s.h
	k := &rmCall{kind: "read"}
	k.iv = begin("read", nil)
	s.calls = append(s.calls, k)
	type one struct {
		ms                 []*metricdata.Metric
		n0, n1, g0, g1, c0 uint64
		c1                 uint64
	}
	var all []one
	for _, p := range metricproducer.GlobalManager().GetAll() {
		o := one{n0: simruntime.Samples, g0: simruntime.Goroutines, c0: simruntime.CgoCalls}
		o.ms = p.Read()
		o.n1, o.g1, o.c1 = simruntime.Samples, simruntime.Goroutines, simruntime.CgoCalls
		if len(o.ms) > 0 {
			all = append(all, o)
		}
	}
	k.end("read done")
	for _, o := range all {
		k.sets = append(k.sets, s.judgeOne(o.ms, o.n0, o.n1, o.g0, o.g1, o.c0, o.c1))
	}
	sort.Strings(k.sets)
	h.Check("C07", len(k.sets) <= 1, "metrics twice", "a read has %d sets of runtime metrics: %v", len(k.sets), k.sets)
}

// judgeOne checks one producer's metrics and says which options they are of.
func (s *rmSim) judgeOne(ms []*metricdata.Metric, n0, n1, g0, g1, c0, c1 uint64) string {
	h := s.h
	prefix, found := "?", map[string]*metricdata.Metric{}
	for _, m := range ms {
		i := strings.LastIndex(m.Descriptor.Name, "process/")
		if !h.Check("C07", i >= 0, "unknown metric", "there is a metric %s", m.Descriptor.Name) {
			continue
		}
		if prefix == "?" {
			prefix = m.Descriptor.Name[:i]
		}
		h.Check("C07", prefix == m.Descriptor.Name[:i], "prefix", "%s is not prefixed with %q", m.Descriptor.Name, prefix)
		n := m.Descriptor.Name[i+len("process/"):]
		h.Check("C07", found[n] == nil, "metrics twice", "%s is there twice", m.Descriptor.Name)
		found[n] = m
	}
	cpu, mem := found["cpu_goroutines"] != nil, found["memory_alloc"] != nil
	cum := mem && found["memory_lookups"] != nil && found["memory_lookups"].Descriptor.Type == metricdata.TypeCumulativeInt64
	samples := map[uint64]bool{}
	for n := n0 + 1; n <= n1; n++ {
		samples[n] = true
	}
	known := 0
	for _, w := range rmMetrics {
		m := found[w.name]
		want := mem
		if w.field == "" {
			want = cpu
		}
		if !h.Check("C07", (m != nil) == want, "metric set", "the metric %s is there: %v, want %v (CPU %v, memory %v)", w.name, m != nil, want, cpu, mem) || m == nil {
			continue
		}
		known++
		typ := metricdata.TypeGaugeInt64
		if w.name == "gc_cpu_fraction" {
			typ = metricdata.TypeGaugeFloat64
		} else if w.cumulative && cum {
			typ = metricdata.TypeCumulativeInt64
		}
		h.Check("C07", m.Descriptor.Type == typ && m.Descriptor.Unit == w.unit, "type", "the metric %s has type %v and unit %s, want %v and %s", w.name, m.Descriptor.Type, m.Descriptor.Unit, typ, w.unit)
		if !h.Check("C07", len(m.TimeSeries) == 1 && len(m.TimeSeries[0].Points) == 1 && len(m.TimeSeries[0].LabelValues) == 0, "no value", "the metric %s has %d series", w.name, len(m.TimeSeries)) {
			continue
		}
		switch x := m.TimeSeries[0].Points[0].Value.(type) {
		case float64:
			s.sample(w, uint64(x-0.5), x != float64(uint64(x))+0.5, samples)
		case int64:
			switch w.name {
			case "cpu_goroutines":
				s.counted(w, x, g0, g1, simruntime.NumGoroutines)
			case "cpu_cgo_calls":
				s.counted(w, x, c0, c1, simruntime.NumCgoCalls)
			default:
				s.sample(w, uint64(x), false, samples)
			}
		}
	}
	h.Check("C07", known == len(found), "unknown metric", "%d metrics, %d of them known", len(found), known)
	return rmID(prefix, cpu, mem, cum)
}

func (s *rmSim) counted(w rmMetric, x int64, n0, n1 uint64, f func(uint64) int64) {
	ok := false
	for n := n0 + 1; n <= n1; n++ {
		ok = ok || f(n) == x
	}
	s.h.Check("C07", ok, "value", "the metric %s is %d, which it was not during the read (samples %d to %d)", w.name, x, n0+1, n1)
}

// sample leaves in samples those that w's number may be of.
func (s *rmSim) sample(w rmMetric, x uint64, odd bool, samples map[uint64]bool) {
	i := simruntime.FieldIndex(w.field)
	of := map[uint64]bool{}
	for n := range samples {
		if !odd && simruntime.Field(i, n) == x {
			of[n] = true
		}
	}
	if s.h.Check("C07", len(of) > 0, "value", "the metric %s is %d: it is not %s of the sample taken during the read (of %v)", w.name, x, w.field, samples) {
		for n := range samples {
			if !of[n] {
				delete(samples, n)
			}
		}
	}
}

func (s *rmSim) judge() {
	if simrt.Race { // only races are looked for
		return
	}
	h := s.h
	// Enabling takes the old producer away and puts the new one in: a read in
	// between finds none.
	type half struct {
		*rmCall
		second bool
	}
	var hs []half
	var ops []iv
	for _, k := range s.calls {
		hs, ops = append(hs, half{k, false}), append(ops, k.iv)
		if k.kind == "enable" {
			hs, ops = append(hs, half{k, true}), append(ops, k.iv)
		}
	}
	ok, gave, _ := linearizable(ops, "", func(i int, st string) []string {
		k := hs[i]
		mid := strings.HasPrefix(st, "mid")
		switch {
		case k.kind == "enable" && !k.second:
			if mid {
				return nil
			}
			return []string{sf("mid%d", k.n)}
		case k.kind == "enable":
			if st != sf("mid%d", k.n) {
				return nil
			}
			if k.id == "nothing" {
				return []string{""}
			}
			return []string{k.id}
		case k.kind == "disable":
			if mid {
				return nil
			}
			return []string{""}
		}
		got := strings.Join(k.sets, ";")
		if want := st; got == want || (mid && got == "") {
			return []string{st}
		}
		return nil
	}, 60000)
	if gave {
		simrt.Probe("reached: linearization search gave up")
	}
	detail := ""
	if !ok {
		for _, k := range s.calls {
			detail += sf("\n  [%d,%d] %s %s read %v", k.inv, k.ret, k.kind, k.id, k.sets)
		}
	}
	h.Check("C07", ok, "not-linearizable", "no order of these calls gives their results:%s", detail)
}

func genRunmetrics(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	if r.Bool(0.5) {
		p.Knobs["irregular"] = r.I64(1, 1000000)
	}
	nc := r.Range(2, 4)
	per := r.Range(2, 6)
	if deep && r.Bool(0.3) {
		per = r.Range(6, 10)
	}
	n := 0
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < per; i++ {
			k := r.PickW(4, 2, 6, 1)
			if n += 2; n > 60 {
				break
			}
			switch k {
			case 0:
				ops = append(ops, Op{K: "enable", A: r.I64(0, 7), B: r.I64(0, 5)})
			case 1:
				ops = append(ops, Op{K: "disable"})
			case 2:
				ops = append(ops, Op{K: "read"})
			case 3:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, time.Minute)})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "runmetrics", Props: []string{"C07"}, Gen: genRunmetrics, Stub: []string{"runtime.ReadMemStats, NumGoroutine, NumCgoCall"},
		Run: func(h *H) {
			s := &rmSim{h: h}
			simruntime.Irregular = uint64(h.K("irregular"))
			if !h.RunClients("C07", h.HangLimit(), s.exec) {
				return
			}
			s.read()
			s.judge()
		},
	})
}
