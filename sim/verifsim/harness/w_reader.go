//go:build go1.23

package harness

import (
	"context"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/verifsim/simrt"
)

// The reader workloads: clients add and remove producers, start, stop and
// flush interval readers and read once, with slow producers and exporters. In
// readertimes nothing takes time but what the plan says, and the moments of
// the exports are checked exactly.

const (
	rdProducers = 4
	rdReaders   = 2
)

type rdReadCall struct {
	seq, ret int
	prod     int
	used     int
}

type rdExport struct {
	iv
	reader int // -1: a plain Reader
	task   int
	flush  *rdCall
	vals   []int64
	ctx    bool
}

type rdCall struct {
	iv
	kind   string
	reader int
	err    bool
	low    bool // an interval that is too low was set
	d      int64
	n      int // exports made by a flush or a read
	slow   int64
}

type rdReg struct {
	iv
	prod int
	add  bool
}

type rdSim struct {
	h       *H
	exact   bool
	prods   []*rdProd
	regs    []*rdReg
	regsOf  map[int][]*rdReg
	readers [rdReaders]*metricexport.IntervalReader
	exps    [rdReaders + 1]*rdExp
	calls   []*rdCall
	exports []*rdExport
	reads   []*rdReadCall
	inExp   [rdReaders]int
	flushes map[int]*rdCall // by task
	jumps   int
	once    *metricexport.Reader
}

type rdProd struct {
	id   int
	s    *rdSim
	slow int64
}

func (p *rdProd) Read() []*metricdata.Metric {
	s := p.s
	c := &rdReadCall{prod: p.id, ret: never}
	c.seq = simrt.Log("produce", p.id)
	id := int64(len(s.reads))
	s.reads = append(s.reads, c)
	if p.slow > 0 {
		s.h.Fault("slow producer")
		simrt.Sleep(p.slow)
	}
	c.ret = simrt.Log("produced", p.id)
	n := int(id%3) * (p.id & 1) // some give nothing, some several
	var out []*metricdata.Metric
	for i := 0; i <= n; i++ {
		out = append(out, &metricdata.Metric{
			Descriptor: metricdata.Descriptor{Name: sf("prod%d_%d", p.id, i)},
			TimeSeries: []*metricdata.TimeSeries{{Points: []metricdata.Point{metricdata.NewInt64Point(time.Time{}, id)}}},
		})
	}
	return out
}

type rdExp struct {
	id   int
	s    *rdSim
	slow int64
}

func (e *rdExp) ExportMetrics(ctx context.Context, data []*metricdata.Metric) error {
	s := e.s
	x := &rdExport{reader: e.id, task: simrt.CurTask(), ctx: ctx != nil}
	x.iv = begin("export", e.id)
	x.flush = s.flushes[x.task]
	if x.flush != nil {
		x.flush.n++
	}
	s.exports = append(s.exports, x)
	if e.id < rdReaders {
		s.inExp[e.id]++
		s.h.Check("C06", s.inExp[e.id] == 1, "concurrent export", "the exporter of reader %d is called while it is busy", e.id)
	}
	last := int64(-1)
	per := 0
	for _, m := range data {
		id := int64(-1)
		if len(m.TimeSeries) == 1 && len(m.TimeSeries[0].Points) == 1 {
			id, _ = m.TimeSeries[0].Points[0].Value.(int64)
		}
		if !s.h.Check("C06", id >= 0 && id < int64(len(s.reads)), "damaged", "an exported metric is not what its producer gave: %v", m.Descriptor.Name) {
			continue
		}
		c := s.reads[id]
		if id != last {
			last, per = id, 0
			c.used++
			x.vals = append(x.vals, id)
			s.h.Check("C06", c.used == 1, "exported twice", "what producer %d gave when it was read for the %d-th time was exported twice", c.prod, id)
		}
		s.h.Check("C06", m.Descriptor.Name == sf("prod%d_%d", c.prod, per), "damaged", "metric %d of a read of producer %d is %s", per, c.prod, m.Descriptor.Name)
		per++
	}
	if e.slow > 0 {
		s.h.Fault("slow exporter")
		simrt.Sleep(e.slow)
	}
	if e.id < rdReaders {
		s.inExp[e.id]--
	}
	x.end("export done")
	if e.slow%3 == 1 {
		s.h.Fault("exporter error")
		return context.DeadlineExceeded
	}
	return nil
}

func (s *rdSim) exec(c int, op Op) {
	h := s.h
	switch op.K {
	case "sleep":
		simrt.Sleep(op.A)
	case "jump":
		s.jumps++
		h.Fault("wall clock jump")
		simrt.JumpWall(op.A)
	case "add", "del":
		for p := op.A; p < op.B; p++ {
			s.exec(c, Op{K: op.K, A: p})
		}
		g := &rdReg{prod: int(op.A), add: op.K == "add"}
		s.regs = append(s.regs, g)
		s.regsOf[g.prod] = append(s.regsOf[g.prod], g)
		g.iv = begin(op.K, op.A)
		if g.add {
			metricproducer.GlobalManager().AddProducer(s.prods[op.A])
		} else {
			metricproducer.GlobalManager().DeleteProducer(s.prods[op.A])
		}
		g.end(op.K + " done")
	case "once":
		k := &rdCall{kind: "once", reader: rdReaders}
		s.calls = append(s.calls, k)
		k.iv = begin("once", nil)
		s.flushes[simrt.CurTask()] = k
		s.once.ReadAndExport(s.exps[rdReaders])
		delete(s.flushes, simrt.CurTask())
		k.end("once done")
		h.Check("C06", k.n == 1, "read and export", "reading and exporting once exported %d times", k.n)
	case "start", "stop", "flush":
		i := int(op.A)
		r := s.readers[i]
		k := &rdCall{kind: op.K, reader: i, d: int64(r.ReportingInterval)}
		k.slow = s.exps[i].slow
		s.calls = append(s.calls, k)
		k.iv = begin(op.K, i)
		switch op.K {
		case "start":
			k.err = r.Start() != nil
		case "stop":
			r.Stop()
		case "flush":
			s.flushes[simrt.CurTask()] = k
			r.Flush()
			delete(s.flushes, simrt.CurTask())
		}
		k.end(op.K + " done")
	case "nil": // nothing that is missing has an effect
		metricproducer.GlobalManager().AddProducer(nil)
		metricproducer.GlobalManager().DeleteProducer(nil)
		_, err1 := metricexport.NewIntervalReader(nil, s.exps[0])
		_, err2 := metricexport.NewIntervalReader(s.once, nil)
		var none *metricexport.IntervalReader
		none.Stop()
		h.Check("C06", err1 != nil && err2 != nil && none.Start() != nil, "nil accepted", "an interval reader without a reader or an exporter was made (%v, %v), or one that is nil was started", err1, err2)
	case "interval":
		// the field is the caller's to synchronise: only one client does it
		if c == 0 {
			s.readers[op.A].ReportingInterval = time.Duration(op.B)
		}
	}
}

func (s *rdSim) judge() {
	if simrt.Race { // only races are looked for
		return
	}
	h := s.h
	for _, x := range s.exports {
		h.Check("C06", x.ctx, "no context", "an export got no context")
	}
	for i := range s.readers {
		s.judgeReader(i)
	}
	// what each export has to contain
	for _, x := range s.exports {
		low := s.since(x)
		got := map[int]bool{}
		for _, id := range x.vals {
			c := s.reads[id]
			h.Check("C06", !got[c.prod], "producer twice", "an export has producer %d twice", c.prod)
			got[c.prod] = true
			h.Check("C06", c.seq > low.inv && c.ret < x.inv, "stale", "an export has what producer %d gave before", c.prod)
		}
		for p := range s.prods {
			yes, no := s.registered(p, low, x.inv)
			if yes {
				h.Check("C06", got[p], "producer missing", "an export misses producer %d, which was registered all the time", p)
			}
			if no {
				h.Check("C06", !got[p], "producer gone", "an export has producer %d, which was not registered", p)
			}
		}
	}
	for _, c := range s.reads {
		h.Check("C06", c.used <= 1, "exported twice", "read exported %d times", c.used)
	}
}

// since gives a moment that is certainly before the export's reading began, as
// an event and as a time.
func (s *rdSim) since(x *rdExport) iv {
	if x.flush != nil {
		return x.flush.iv
	}
	low := iv{inv: -1, t0: -1}
	dmin := int64(1<<63 - 1)
	var cand []*rdCall // the starts it may come from
	for _, k := range s.calls {
		if k.kind != "start" || k.reader != x.reader || k.err || k.inv > x.inv {
			continue
		}
		d := k.d
		if d == 0 {
			d = int64(60 * time.Second)
		}
		if d < dmin {
			dmin = d
		}
		over := false
		for _, e := range s.calls {
			if e.kind == "stop" && e.reader == x.reader && e.inv > k.ret && e.ret < x.inv {
				over = true
			}
		}
		if !over {
			cand = append(cand, k)
		}
	}
	for _, k := range cand {
		n := int64(0) // exports since: each came with a tick
		for _, y := range s.exports {
			if y.reader == x.reader && y.flush == nil && y.inv > k.ret && y.inv <= x.inv {
				n++
			}
		}
		if t := k.t0 + n*dmin; low.t0 < 0 || t < low.t0 {
			low.t0 = t
		}
		if low.inv < 0 || k.inv < low.inv {
			low.inv = k.inv
		}
	}
	for _, y := range s.exports {
		if y.reader == x.reader && y.flush == nil && y.ret < x.inv && y.ret > low.inv {
			low.inv = y.ret
		}
	}
	return low
}

// registered says whether a producer certainly was registered from a moment to
// an event, and whether it certainly was not.
func (s *rdSim) registered(p int, low iv, to int) (yes, no bool) {
	before := func(i iv) bool { return i.ret < low.inv || (i.ret != never && i.t1 < low.t0) }
	yes, no = false, true
	for _, g := range s.regsOf[p] {
		if !g.add || g.inv > to {
			continue
		}
		// an add that may be in effect
		undone := false
		for _, d := range s.regsOf[p] {
			if !d.add && d.inv > g.ret && before(d.iv) {
				undone = true
			}
		}
		if !undone {
			no = false
		}
		if before(g.iv) {
			ok := true
			for _, d := range s.regsOf[p] {
				if !d.add && d.ret > g.inv && d.inv < to {
					ok = false
				}
			}
			if ok {
				yes = true
			}
		}
	}
	return
}

func (s *rdSim) judgeReader(i int) {
	h := s.h
	var ops []iv
	var calls []*rdCall
	for _, k := range s.calls {
		if k.reader == i {
			ops, calls = append(ops, k.iv), append(calls, k)
		}
	}
	ok, gave, longest := linearizable(ops, "stopped", func(n int, st string) []string {
		k := calls[n]
		switch k.kind {
		case "start":
			low := k.d != 0 && k.d < int64(time.Second)
			if k.err != (low || st == "running") {
				return nil
			}
			if low {
				return []string{st}
			}
			return []string{"running"}
		case "stop":
			return []string{"stopped"}
		}
		if (k.n == 1) != (st == "stopped") || k.n > 1 {
			return nil
		}
		return []string{st}
	}, 60000)
	if gave {
		simrt.Probe("reached: linearization search gave up")
	}
	detail := ""
	if !ok {
		for n, k := range calls {
			mark := " "
			if longest&(1<<uint(n)) == 0 {
				mark = "?"
			}
			detail += sf("\n%s [%d,%d] %s error %v interval %v exports %d", mark, k.inv, k.ret, k.kind, k.err, time.Duration(k.d), k.n)
		}
	}
	h.Check("C06", ok, "not-linearizable", "no order of these calls on reader %d gives their results:%s", i, detail)
	// an interval export happens only while the reader may be running
	for _, x := range s.exports {
		if x.reader != i || x.flush != nil {
			continue
		}
		may := false
		for _, k := range calls {
			if k.kind != "start" || k.err || k.inv > x.inv {
				continue
			}
			stopped := false
			for _, e := range calls {
				if e.kind == "stop" && e.inv > k.ret && e.ret < x.ret {
					stopped = true
				}
			}
			if !stopped {
				may = true
			}
		}
		h.Check("C06", may, "export after stop", "reader %d exported, or had not finished exporting, while it was stopped", i)
	}
	if s.exact && i == 0 {
		s.judgeTimes(i, calls)
	}
}

// judgeTimes checks the exact times, where starts and stops are one client's.
func (s *rdSim) judgeTimes(i int, calls []*rdCall) {
	h := s.h
	bad := func(class, f string, args ...any) {
		h.Bad("C06", class, f, args...)
		if s.jumps > 0 {
			h.Bad("C11", class, f, args...)
		}
	}
	for n, k := range calls {
		if k.kind != "start" || k.err {
			continue
		}
		end := mnow()
		for _, e := range calls[n+1:] {
			if e.kind == "stop" {
				end = e.t0
				break
			}
		}
		d := k.d
		if d == 0 {
			d = int64(60 * time.Second)
		}
		// producers are fast here, the exporter takes k.slow
		when := func(j int64) int64 {
			if k.slow <= d {
				return k.t1 + (j+1)*d
			}
			return k.t1 + d + j*k.slow
		}
		j := int64(0)
		for _, x := range s.exports {
			if x.reader != i || x.flush != nil || x.inv < k.inv || x.t0 > end {
				continue
			}
			if w := when(j); x.t0 != w {
				bad("export at the wrong time", "export %d of reader %d came %v after its start with the interval %v, want %v", j+1, i, time.Duration(x.t0-k.t1), time.Duration(d), time.Duration(w-k.t1))
				return
			}
			j++
		}
		h.Checks++
		if w := when(j); w < end {
			bad("missed export", "reader %d did not export %v after its start with the interval %v", i, time.Duration(w-k.t1), time.Duration(d))
		}
		if j > 0 {
			h.Probe("exact reader exports")
		}
	}
}

func genReader(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{"interval": r.I64(0, 3) * int64(700*time.Millisecond) * r.I64(1, 4), "slow": int64(r.Intn(3)) * r.Dur(time.Millisecond, 5*time.Second), "slowprod": int64(r.Intn(2)) * int64(r.Intn(2)) * r.Dur(time.Microsecond, 2*time.Second)}}
	nc := r.Range(2, 5)
	per := r.Range(4, 12)
	if deep && r.Bool(0.3) {
		per = r.Range(12, 26)
	}
	n := 0
	many := 0
	if r.Bool(0.04) {
		many = r.Range(5, 150)
		p.Knobs["prods"], p.Knobs["slowprod"] = int64(many), 0
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		if many > 0 && r.Bool(0.7) {
			ops = append(ops, Op{K: "add", A: int64(rdProducers), B: int64(rdProducers - 1 + r.Range(1, many))})
		}
		for i := 0; i < per; i++ {
			if many > 0 && r.Bool(0.1) {
				a := r.Range(0, many)
				ops = append(ops, Op{K: []string{"add", "del"}[r.Intn(2)], A: int64(rdProducers - 1 + a), B: int64(rdProducers - 1 + r.Range(a, many))})
			}
			rd, pr := r.I64(0, rdReaders-1), r.I64(0, rdProducers-1)
			k := r.PickW(20, 12, 12, 8, 4, 4, 24, 4, 1)
			if k >= 2 && k <= 5 {
				if n++; n > 60 {
					continue
				}
			}
			switch k {
			case 0:
				ops = append(ops, Op{K: "add", A: pr})
			case 1:
				ops = append(ops, Op{K: "del", A: pr})
			case 2:
				ops = append(ops, Op{K: "start", A: rd})
			case 3:
				ops = append(ops, Op{K: "stop", A: rd})
			case 4:
				ops = append(ops, Op{K: "flush", A: rd})
			case 5:
				ops = append(ops, Op{K: "once"})
			case 6:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Millisecond, 30*time.Second)})
			case 7:
				ops = append(ops, Op{K: "jump", A: r.I64(-1, 1) * r.Dur(time.Millisecond, 100*time.Hour)})
			case 8:
				ops = append(ops, Op{K: "nil"})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func genReaderTimes(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{"exact": 1, "_maxtick": 0}}
	iv := func() int64 {
		switch r.PickW(3, 1, 1) {
		case 1:
			return 0
		case 2:
			return int64(r.Dur(time.Millisecond, 2*time.Second))
		}
		return r.Dur(time.Second, time.Hour)
	}
	p.Knobs["interval"] = iv()
	d := p.Knobs["interval"]
	p.Knobs["slow"] = []int64{0, d / 7, d / 2, d*2 + 1, d*5/2 + 3}[r.PickW(3, 2, 2, 1, 1)]
	var ops []Op
	total := int64(0)
	for i := r.Range(1, 4); i > 0; i-- {
		ops = append(ops, Op{K: "start"})
		if r.Bool(0.2) {
			ops = append(ops, Op{K: "start"}, Op{K: "flush"}) // these do nothing
		}
		x := d
		if x == 0 {
			x = int64(time.Minute)
		}
		s := x*r.I64(0, 9) + x/7 + r.I64(1, 1000)
		total += s
		ops = append(ops, Op{K: "sleep", A: s}, Op{K: "stop"})
		if r.Bool(0.3) {
			ops = append(ops, Op{K: "flush"})
		}
		if r.Bool(0.5) {
			d = iv()
			ops = append(ops, Op{K: "interval", B: d})
		}
	}
	p.Clients = append(p.Clients, ops)
	for c := r.Intn(3); c > 0; c-- {
		var ops []Op
		for i := r.Range(1, 8); i > 0; i-- {
			switch r.PickW(2, 1, 3, 4, 1, 1) {
			case 0:
				ops = append(ops, Op{K: "add", A: r.I64(0, rdProducers-1)})
			case 1:
				ops = append(ops, Op{K: "del", A: r.I64(0, rdProducers-1)})
			case 2:
				j := r.Dur(time.Microsecond, 400*24*time.Hour)
				if r.Bool(0.5) {
					j = -j
				}
				ops = append(ops, Op{K: "jump", A: j})
			case 3:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Duration(total/50)+1, time.Duration(total/2)+2)})
			case 4:
				ops = append(ops, Op{K: "once"})
			case 5: // another reader, of which nothing exact is known
				ops = append(ops, Op{K: r.Pick("start", "stop", "flush"), A: 1})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func runReader(h *H) {
	s := &rdSim{h: h, exact: h.K("exact") == 1, flushes: map[int]*rdCall{}, regsOf: map[int][]*rdReg{}}
	for i := 0; i < int(rdProducers+h.K("prods")); i++ {
		s.prods = append(s.prods, &rdProd{id: i, s: s, slow: h.K("slowprod")})
	}
	for i := range s.exps {
		s.exps[i] = &rdExp{id: i, s: s, slow: h.K("slow")}
	}
	for i := range s.readers {
		s.readers[i], _ = metricexport.NewIntervalReader(metricexport.NewReader(metricexport.WithSpanName("reading")), s.exps[i])
		s.readers[i].ReportingInterval = time.Duration(h.K("interval"))
		if s.exact && i > 0 {
			s.readers[i].ReportingInterval = time.Hour // the plan is long
		}
	}
	s.once = metricexport.NewReader()
	before := simrt.LibTasks()
	if !h.RunClients("C06", h.HangLimit()*1000, s.exec) {
		return
	}
	t := simrt.Spawn("stopper", func() {
		for i := range s.readers {
			s.exec(1, Op{K: "stop", A: int64(i)})
			s.exec(1, Op{K: "stop", A: int64(i)})
			s.exec(1, Op{K: "flush", A: int64(i)})
		}
	})
	if !h.JoinAll("C06", h.HangLimit()*1000, []*simrt.Task{t}) {
		return
	}
	simrt.Sleep(int64(10 * time.Minute))
	h.Check("C06", simrt.LibTasks() <= before, "leaked goroutine", "%d library goroutines are left after all readers were stopped, there were %d before\n%s", simrt.LibTasks(), before, simrt.Describe())
	s.judge()
}

func init() {
	Register(&Workload{Name: "reader", Props: []string{"C06"}, Gen: genReader, Run: runReader, Weight: 6})
	Register(&Workload{Name: "readertimes", Props: []string{"C06", "C11"}, Gen: genReaderTimes, Run: runReader, Weight: 3, NoTime: true})
}
