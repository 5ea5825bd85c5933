//go:build go1.23

package harness

import (
	"math"
	"strconv"
	"strings"
	"time"

	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/verifsim/simrt"
)

// The metrics workload: clients get, update and replace entries of gauges and
// cumulatives, plain and derived, while others read the registry.

const (
	mxNames = 5
	mxTypes = 8
)

type mxMetric struct {
	name    int
	typ     int
	nconst  int
	nkeys   int
	consts  []metricdata.LabelValue
	keys    []metricdata.LabelKey
	add     iv
	refused bool
	done    bool
	obj     any
	entries map[string]*mxEntry
	order   []*mxEntry
}

type mxEntry struct {
	key    string
	labels []metricdata.LabelValue
	ptr    any
	evs    []*mxEv
}

type mxEv struct {
	iv
	kind string // get add set inc up read
	v    uint64 // an int64, or the bits of a float64
	miss bool
	rd   int
}

func fbits(f float64) uint64 { return math.Float64bits(f) }

type mxRead struct {
	iv
	ms   []*metricdata.Metric
	snap string
}

type mxSim struct {
	h       *H
	base    clockBase
	reg     *metric.Registry
	metrics [mxNames]*mxMetric
	adds    [mxNames][]*mxMetric // every attempt, whether refused or not
	reads   []*mxRead
	nfn     int64
	fns     []*mxFn
	bulk    []*mxBulk
}

// mxBulk is one of many metrics, with many entries: the j-th has the label j
// and the value id*2^20 + j + 1, which it gets when it is asked for.
type mxBulk struct {
	id          int64
	typ         int
	obj         any
	begun, done int64
}

func mxBulkName(i int64) string { return sf("bulk%d", i) }

func (mx *mxSim) addBulk(i int64) {
	b := &mxBulk{id: i, typ: []int{0, 1, 4, 5}[i%4]}
	name, opt := mxBulkName(i), metric.WithLabelKeys("k")
	var err error
	switch b.typ {
	case 0:
		b.obj, err = mx.reg.AddInt64Gauge(name, opt)
	case 1:
		b.obj, err = mx.reg.AddFloat64Gauge(name, opt)
	case 4:
		b.obj, err = mx.reg.AddInt64Cumulative(name, opt)
	case 5:
		b.obj, err = mx.reg.AddFloat64Cumulative(name, opt)
	}
	mx.h.Check("C05", err == nil, "name conflict", "adding %s: %v", name, err)
	mx.bulk = append(mx.bulk, give(b))
}

// grow gives a metric n more entries.
func (mx *mxSim) grow(b *mxBulk, n int64) {
	for ; n > 0; n-- {
		j := b.begun
		b.begun++
		v, l := b.id<<20+j+1, metricdata.NewLabelValue(strconv.FormatInt(j, 10))
		var err error
		switch o := b.obj.(type) {
		case *metric.Int64Gauge:
			var e *metric.Int64GaugeEntry
			if e, err = o.GetEntry(l); err == nil {
				e.Add(v)
			}
		case *metric.Float64Gauge:
			var e *metric.Float64Entry
			if e, err = o.GetEntry(l); err == nil {
				e.Add(float64(v))
			}
		case *metric.Int64Cumulative:
			var e *metric.Int64CumulativeEntry
			if e, err = o.GetEntry(l); err == nil {
				e.Inc(v)
			}
		case *metric.Float64Cumulative:
			var e *metric.Float64CumulativeEntry
			if e, err = o.GetEntry(l); err == nil {
				e.Inc(float64(v))
			}
		}
		mx.h.Check("C05", err == nil, "no entry", "getting an entry failed: %v", err)
		if b.done++; b.done == 256 {
			simrt.Probe("reached: metric with 256 entries")
		}
	}
}

// readBulk judges what a read has of the many metrics; done are how many
// entries each had had when it began.
func (mx *mxSim) readBulk(byName map[string]*metricdata.Metric, done []int64) {
	h := mx.h
	if simrt.Race {
		return
	}
	for i, d := range done {
		b := mx.bulk[i]
		m := byName[mxBulkName(int64(i))]
		if !h.Check("C05", m != nil, "metric missing", "a read misses one of %d metrics", len(done)) {
			continue
		}
		h.Check("C05", m.Descriptor.Type == mxType(b.typ), "descriptor", "%s reads as %v", m.Descriptor.Name, m.Descriptor.Type)
		seen := make([]bool, b.begun)
		for _, ts := range m.TimeSeries {
			if !h.Check("C05", len(ts.LabelValues) == 1 && len(ts.Points) == 1, "points", "a series of %s has %d labels and %d points", m.Descriptor.Name, len(ts.LabelValues), len(ts.Points)) {
				continue
			}
			j, err := strconv.ParseInt(ts.LabelValues[0].Value, 10, 64)
			if !h.Check("C05", err == nil && j >= 0 && j < b.begun && !seen[j], "unknown series", "%s has a series %q, nobody gave or twice", m.Descriptor.Name, ts.LabelValues[0].Value) {
				continue
			}
			seen[j] = true
			want := b.id<<20 + j + 1
			got := int64(-1)
			switch x := ts.Points[0].Value.(type) {
			case int64:
				got = x
			case float64:
				got = int64(x)
			}
			h.Check("C05", got == want || j >= d && got == 0, "bulk value", "%s reads %d for its entry %d; it was set to %d", m.Descriptor.Name, got, j, want)
		}
		for j := int64(0); j < d; j++ {
			h.Check("C05", seen[j], "series missing", "a read of %s misses its entry %d of %d", m.Descriptor.Name, j, d)
		}
	}
}

// mxFn is a function of a derived metric: its n-th call returns n<<20|id.
type mxFn struct {
	id    uint64
	calls []int // when it was called
}

func (f *mxFn) call() uint64 {
	simrt.RaceDisable()
	defer simrt.RaceEnable()
	f.calls = append(f.calls, simrt.Log("fn", len(f.calls)))
	return uint64(len(f.calls)-1)<<20 | f.id
}

var mxLabelPool = []metricdata.LabelValue{
	{},
	metricdata.NewLabelValue(""),
	metricdata.NewLabelValue("a"),
	metricdata.NewLabelValue("b"),
	metricdata.NewLabelValue("a\x01b"),
	metricdata.NewLabelValue("\x00"),
	metricdata.NewLabelValue(strings.Repeat("x", 126)),
	metricdata.NewLabelValue(strings.Repeat("x", 127)),
	metricdata.NewLabelValue(strings.Repeat("x", 254)),
	metricdata.NewLabelValue(strings.Repeat("x", 255)),
	metricdata.NewLabelValue(strings.Repeat("x", 256)),
	metricdata.NewLabelValue(strings.Repeat("x", 257) + "a"),
	metricdata.NewLabelValue(strings.Repeat("x", 511)),
	metricdata.NewLabelValue(strings.Repeat("x", 20000)),
	metricdata.NewLabelValue("ab"),
	metricdata.NewLabelValue("é\xff"),
}

func mxLabels(code int64, n int) []metricdata.LabelValue {
	out := make([]metricdata.LabelValue, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, mxLabelPool[code&15])
		code >>= 4
	}
	return out
}

func mxKey(ls []metricdata.LabelValue) string {
	simrt.RaceDisable()
	defer simrt.RaceEnable()
	b := ""
	for _, l := range ls {
		b += strconv.FormatBool(l.Present) + strconv.Quote(l.Value) + ","
	}
	return b
}

func mxType(t int) metricdata.Type {
	return []metricdata.Type{metricdata.TypeGaugeInt64, metricdata.TypeGaugeFloat64, metricdata.TypeGaugeInt64, metricdata.TypeGaugeFloat64,
		metricdata.TypeCumulativeInt64, metricdata.TypeCumulativeFloat64, metricdata.TypeCumulativeInt64, metricdata.TypeCumulativeFloat64}[t]
}

func mxDerived(t int) bool { return t == 2 || t == 3 || t == 6 || t == 7 }

func (mx *mxSim) add(op Op) {
	n, typ := int(op.A), int(op.B)
	m := &mxMetric{name: n, typ: typ, nconst: int(op.C / 10), nkeys: int(op.C % 10), entries: map[string]*mxEntry{}}
	cl := map[metricdata.LabelKey]metricdata.LabelValue{}
	for i := m.nconst - 1; i >= 0; i-- {
		k := metricdata.LabelKey{Key: sf("c%d", i), Description: "const"}
		v := metricdata.NewLabelValue(sf("cv%d", i))
		if i == 2 {
			v = mxLabelPool[9]
		}
		cl[k] = v
	}
	for i := 0; i < m.nconst; i++ {
		k := metricdata.LabelKey{Key: sf("c%d", i), Description: "const"}
		m.keys, m.consts = append(m.keys, k), append(m.consts, cl[k])
	}
	var lk []metricdata.LabelKey
	for i := 0; i < m.nkeys; i++ {
		lk = append(lk, metricdata.LabelKey{Key: sf("k%d", i), Description: sf("key %d", i)})
	}
	withKeys := metric.WithLabelKeysAndDescription(lk...)
	if n%3 == 1 { // by their names alone
		var names []string
		for i := range lk {
			lk[i].Description = ""
			names = append(names, lk[i].Key)
		}
		withKeys = metric.WithLabelKeys(names...)
	}
	m.keys = append(m.keys, lk...)
	opts := []metric.Options{metric.WithDescription(sf("desc%d", n)), metric.WithUnit(metricdata.UnitBytes), metric.WithConstLabel(cl), withKeys}
	name := sf("metric%d", n)
	for _, o := range mx.adds[n] {
		if o.typ == typ {
			return // adding it again is not what this is about
		}
		if !o.done {
			simrt.Probe("reached: one name added with two types at once")
		}
	}
	mx.adds[n] = append(mx.adds[n], m)
	m.add = begin("add", op.B)
	var err error
	switch typ {
	case 0:
		m.obj, err = mx.reg.AddInt64Gauge(name, opts...)
	case 1:
		m.obj, err = mx.reg.AddFloat64Gauge(name, opts...)
	case 2:
		m.obj, err = mx.reg.AddInt64DerivedGauge(name, opts...)
	case 3:
		m.obj, err = mx.reg.AddFloat64DerivedGauge(name, opts...)
	case 4:
		m.obj, err = mx.reg.AddInt64Cumulative(name, opts...)
	case 5:
		m.obj, err = mx.reg.AddFloat64Cumulative(name, opts...)
	case 6:
		m.obj, err = mx.reg.AddInt64DerivedCumulative(name, opts...)
	case 7:
		m.obj, err = mx.reg.AddFloat64DerivedCumulative(name, opts...)
	}
	m.add.end("added")
	m.done, m.refused = true, err != nil
	if old := mx.metrics[n]; err == nil && mx.h.Check("C05", old == nil, "name conflict", "a metric of type %d was added under the name of one of another type", typ) {
		mx.metrics[n] = give(m)
	}
	for k := range cl {
		delete(cl, k)
	}
}

func (m *mxMetric) entry(labels []metricdata.LabelValue) *mxEntry {
	all := append(append([]metricdata.LabelValue{}, m.consts...), labels...)
	key := mxKey(all)
	e := m.entries[key]
	if e == nil {
		e = &mxEntry{key: key, labels: all}
		m.entries[key] = e
		m.order = append(m.order, e)
	}
	return e
}

// get asks for an entry of a plain metric and checks which one it is.
func (mx *mxSim) get(m *mxMetric, labels []metricdata.LabelValue) any {
	h := mx.h
	var p any
	var err error
	in := append([]metricdata.LabelValue{}, labels...)
	ok := len(labels) == m.nkeys
	var ev *mxEv
	var e *mxEntry
	if ok {
		e = m.entry(labels)
		ev = &mxEv{kind: "get"}
		ev.iv = begin("get", m.name)
		if e.ptr == nil {
			e.evs = append(e.evs, ev)
		}
	}
	switch o := m.obj.(type) {
	case *metric.Int64Gauge:
		p, err = o.GetEntry(in...)
	case *metric.Float64Gauge:
		p, err = o.GetEntry(in...)
	case *metric.Int64Cumulative:
		p, err = o.GetEntry(in...)
	case *metric.Float64Cumulative:
		p, err = o.GetEntry(in...)
	}
	for i := range in {
		in[i] = metricdata.NewLabelValue("scribble")
	}
	if !ok {
		h.Check("C05", err != nil, "label count", "%d values for %d label keys gave no error", len(labels), m.nkeys)
		return nil
	}
	ev.end("got")
	if !h.Check("C05", err == nil, "no entry", "getting an entry failed: %v", err) {
		return nil
	}
	if e.ptr == nil {
		e.ptr = p
		for _, o := range m.order {
			h.Check("C05", o == e || o.ptr != p, "shared entry", "the label values %.60q and %.60q have the same entry", o.key, e.key)
		}
	}
	h.Check("C05", e.ptr == p, "two entries", "asking twice for the entry of %.60q gave different ones", e.key)
	return p
}

func (mx *mxSim) exec(c int, op Op) {
	h := mx.h
	switch op.K {
	case "add":
		mx.add(op)
		return
	case "sleep":
		simrt.Sleep(op.A)
		return
	case "jump":
		h.Fault("wall clock jump")
		simrt.JumpWall(op.A)
		return
	case "read":
		mx.read()
		return
	case "grow":
		if c < len(mx.bulk) { // each client has its own
			mx.grow(take(mx.bulk[c]), op.A)
		}
		return
	}
	m := take(mx.metrics[op.A])
	if m == nil {
		return
	}
	nk := m.nkeys
	if op.K == "badlabels" {
		nk += int(op.D)
		if nk < 0 {
			return
		}
	}
	labels := mxLabels(op.B, nk)
	if mxDerived(m.typ) {
		mx.upsert(m, op, labels)
		return
	}
	p := mx.get(m, labels)
	if p == nil || op.K == "get" || op.K == "badlabels" || op.K == "nilfn" {
		return
	}
	v := op.C
	f := float64(v) / 4
	if v > math.MaxInt64/2 || v < math.MinInt64/2 {
		simrt.Probe("reached: total near the end of int64")
		f = math.Ldexp(float64(v), 900)
	}
	e := m.entry(labels)
	ev := &mxEv{kind: "add", v: uint64(v)}
	if op.K == "set" {
		ev.kind = "set"
	}
	switch p.(type) {
	case *metric.Float64Entry, *metric.Float64CumulativeEntry:
		ev.v = fbits(f)
	}
	switch p.(type) {
	case *metric.Int64CumulativeEntry, *metric.Float64CumulativeEntry:
		ev.kind = "inc"
	}
	ev.iv = begin(ev.kind, v)
	e.evs = append(e.evs, ev)
	switch x := p.(type) {
	case *metric.Int64GaugeEntry:
		if op.K == "set" {
			x.Set(v)
		} else {
			x.Add(v)
		}
	case *metric.Float64Entry:
		if op.K == "set" {
			x.Set(f)
		} else {
			x.Add(f)
		}
	case *metric.Int64CumulativeEntry:
		x.Inc(v)
	case *metric.Float64CumulativeEntry:
		x.Inc(f)
	}
	ev.end(ev.kind + " done")
}

func (mx *mxSim) upsert(m *mxMetric, op Op, labels []metricdata.LabelValue) {
	h := mx.h
	mx.nfn++
	id := mx.nfn
	// What a function returns differs from call to call.
	fn := &mxFn{id: uint64(id)}
	fi := func() int64 { return int64(fn.call()) }
	ff := func() float64 { return float64(fn.call()) + 0.5 }
	ok := len(labels) == m.nkeys
	nilFn := op.K == "nilfn"
	var ev *mxEv
	if ok && !nilFn {
		e := m.entry(labels)
		ev = &mxEv{kind: "up", v: uint64(id)}
		mx.fns = append(mx.fns, fn)
		ev.iv = begin("up", id)
		e.evs = append(e.evs, ev)
	}
	if nilFn {
		fi, ff = nil, nil
	}
	var err error
	switch o := m.obj.(type) {
	case *metric.Int64DerivedGauge:
		err = o.UpsertEntry(fi, labels...)
	case *metric.Float64DerivedGauge:
		err = o.UpsertEntry(ff, labels...)
	case *metric.Int64DerivedCumulative:
		err = o.UpsertEntry(fi, labels...)
	case *metric.Float64DerivedCumulative:
		err = o.UpsertEntry(ff, labels...)
	}
	for i := range labels {
		labels[i] = metricdata.NewLabelValue("scribble")
	}
	h.Check("C05", (err == nil) == (ok && !nilFn), "upsert", "putting a function in (%d of %d label values, nil %v): %v", len(labels), m.nkeys, nilFn, err)
	if ev != nil {
		ev.end("up done")
	}
}

func (mx *mxSim) read() {
	h := mx.h
	rd := &mxRead{}
	rd.iv = begin("read", nil)
	// what has to be there
	var must []*mxMetric
	for _, m := range mx.metrics {
		if m != nil {
			must = append(must, m)
		}
	}
	var bulk []int64
	for _, b := range mx.bulk {
		bulk = append(bulk, b.done)
	}
	rd.ms = mx.reg.Read()
	rd.end("read done")
	id := len(mx.reads)
	mx.reads = append(mx.reads, rd)
	byName := map[string]*metricdata.Metric{}
	for _, m := range rd.ms {
		h.Check("C05", byName[m.Descriptor.Name] == nil, "metric twice", "a read has the metric %s twice", m.Descriptor.Name)
		byName[m.Descriptor.Name] = m
		rd.snap += dumpMetric(m)
	}
	mx.readBulk(byName, bulk)
	for _, m := range must {
		h.Check("C05", byName[sf("metric%d", m.name)] != nil, "metric missing", "a read misses metric %d", m.name)
	}
	for _, m := range mx.metrics {
		if m == nil {
			continue
		}
		got := byName[sf("metric%d", m.name)]
		if got == nil {
			continue
		}
		d := got.Descriptor
		h.Check("C05", d.Type == mxType(m.typ) && d.Description == sf("desc%d", m.name) && d.Unit == metricdata.UnitBytes && len(d.LabelKeys) == len(m.keys), "descriptor", "metric %d of type %d reads as %+v", m.name, m.typ, d)
		for i, k := range d.LabelKeys {
			h.Check("C05", i < len(m.keys) && k == m.keys[i], "descriptor", "metric %d has the label keys %v, want %v", m.name, d.LabelKeys, m.keys)
		}
		seen := map[string]bool{}
		for _, ts := range got.TimeSeries {
			key := mxKey(ts.LabelValues)
			h.Check("C05", !seen[key], "series twice", "a read has two series of metric %d with the labels %.80q", m.name, key)
			seen[key] = true
			e := m.entries[key]
			if !h.Check("C05", e != nil, "unknown series", "a read has a series of metric %d with the labels %.80q, which nobody gave", m.name, key) {
				continue
			}
			if !h.Check("C05", len(ts.Points) == 1, "points", "%d points in a series", len(ts.Points)) {
				continue
			}
			pt := ts.Points[0]
			at := mx.base.mono(pt.Time)
			h.Check("C05", at >= rd.t0 && at <= rd.t1, "point time", "a read between %v and %v gives a point of %v", rd.t0, rd.t1, at)
			if m.typ >= 4 {
				st := mx.base.mono(ts.StartTime)
				h.Check("C05", st >= m.add.t0 && st <= m.add.t1, "start time", "a cumulative added between %v and %v starts at %v", m.add.t0, m.add.t1, st)
			}
			var v uint64
			okType := false
			switch x := pt.Value.(type) {
			case int64:
				v, okType = uint64(x), m.typ%2 == 0
			case float64:
				v, okType = fbits(x), m.typ%2 == 1
				if mxDerived(m.typ) {
					v = uint64(x)
					h.Check("C05", x == float64(v)+0.5, "derived value", "metric %d has the value %v, which no function returned", m.name, x)
				}
			}
			if okType && mxDerived(m.typ) {
				// The value names the function and the call of it.
				id, call := v&(1<<20-1), int(v>>20)
				fresh := false
				for _, f := range mx.fns {
					if f.id == id && call < len(f.calls) {
						fresh = f.calls[call] >= rd.inv && f.calls[call] <= rd.ret
					}
				}
				h.Check("C05", fresh, "derived value", "a read gives metric %d the value %#x, which the function in it did not return during the read", m.name, v)
				v = id
			}
			h.Check("C05", okType, "value type", "metric %d of type %d has a value %T", m.name, m.typ, pt.Value)
			e.evs = append(e.evs, &mxEv{iv: rd.iv, kind: "read", v: v, rd: id})
		}
		for _, e := range m.order {
			if !seen[e.key] {
				e.evs = append(e.evs, &mxEv{iv: rd.iv, kind: "read", miss: true, rd: id})
			}
		}
	}
}

func (mx *mxSim) judge() {
	if simrt.Race { // only races are looked for
		return
	}
	h := mx.h
	for _, rd := range mx.reads {
		now := ""
		for _, m := range rd.ms {
			now += dumpMetric(m)
		}
		h.Check("C05", now == rd.snap, "read changed", "what a read returned changed afterwards\nfrom %s\nto   %s", rd.snap, now)
	}
	for n, as := range mx.adds {
		for _, a := range as {
			if a.refused {
				m := mx.metrics[n]
				h.Check("C05", m != nil && m.add.inv < a.add.ret, "name conflict", "adding a metric of type %d was refused, but there was none of its name", a.typ)
			}
		}
	}
	for _, m := range mx.metrics {
		if m == nil {
			continue
		}
		for _, e := range m.order {
			var ops []iv
			for _, ev := range e.evs {
				ops = append(ops, ev.iv)
			}
			step := func(i int, st string) []string {
				ev := e.evs[i]
				v, has := uint64(0), st != ""
				if has {
					v, _ = strconv.ParseUint(st, 16, 64)
				}
				isF := m.typ%2 == 1
				plus := func(a, b uint64) uint64 {
					if isF {
						return fbits(math.Float64frombits(a) + math.Float64frombits(b))
					}
					return a + b
				}
				pack := func(v uint64) []string { return []string{strconv.FormatUint(v, 16)} }
				switch ev.kind {
				case "get":
					return pack(v)
				case "add":
					return pack(plus(v, ev.v))
				case "set", "up":
					return pack(ev.v)
				case "inc":
					if int64(ev.v) > 0 {
						v = plus(v, ev.v)
					}
					return pack(v)
				}
				if !mxDerived(m.typ) && int64(v) < 0 {
					v = 0 // negative totals read as 0
				}
				if ev.miss == has || (has && v != ev.v && !(isF && !mxDerived(m.typ) && math.Float64frombits(v) == math.Float64frombits(ev.v))) {
					return nil
				}
				return []string{st}
			}
			ok, gave, longest := linearizable(ops, "", step, 60000)
			if gave {
				simrt.Probe("reached: linearization search gave up")
			}
			detail := ""
			if !ok {
				for i, ev := range e.evs {
					mark := " "
					if longest&(1<<uint(i)) == 0 {
						mark = "?"
					}
					detail += sf("\n%s [%d,%d] %s %v missing %v", mark, ev.inv, ev.ret, ev.kind, ev.v, ev.miss)
				}
			}
			h.Check("C05", ok, "not-linearizable", "no order of these calls on the entry %.80q of metric %d (type %d) gives their results:%s", e.key, m.name, m.typ, detail)
		}
	}
}

func genMetrics(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	nc := r.Range(2, 5)
	per := r.Range(4, 12)
	if deep && r.Bool(0.3) {
		per = r.Range(12, 30)
	}
	names := r.Range(1, mxNames)
	pool := int64(0)
	for i := 0; i < 8; i++ { // few label values, so that clients meet
		pool = pool<<4 | r.I64(0, 15)
	}
	label := func() int64 {
		x := int64(0)
		for i := 0; i < 3; i++ {
			x = x<<4 | pool>>(4*uint(r.Intn(r.Range(1, 8))))&15
		}
		return x
	}
	sets := r.Bool(0.4)
	val := func() int64 {
		switch r.PickW(5, 2, 1) {
		case 1:
			return -r.I64(0, 9)
		case 2:
			if r.Bool(0.5) {
				return r.I64(1, 9) + int64(r.Intn(4))<<61
			}
			return r.I64(1, 1000000) << uint(r.Intn(43))
		}
		return r.I64(1, 20)
	}
	var first []Op
	for n := 0; n < names; n++ {
		first = append(first, Op{K: "add", A: int64(n), B: r.I64(0, mxTypes-1), C: r.I64(0, 3)*10 + r.I64(0, 3)})
	}
	if r.Bool(0.03) {
		p.Knobs["bulk"] = r.I64(1, 100)
		p.Knobs["bulkentries"] = r.I64(0, 700) / p.Knobs["bulk"]
	}
	late := r.Bool(0.3)
	meet := r.Bool(0.3) // all clients add metrics at first
	for c := 0; c < nc; c++ {
		var ops []Op
		if meet && c > 0 {
			for n := 0; n < names; n++ {
				if r.Bool(0.6) {
					ops = append(ops, Op{K: "add", A: int64(n), B: r.I64(0, mxTypes-1), C: r.I64(0, 3)*10 + r.I64(0, 3)})
				}
			}
		}
		if c == 0 && !late {
			ops = append(ops, first...)
			first = nil
		} else if !late && !meet {
			ops = append(ops, Op{K: "sleep", A: 1000})
		}
		for i := 0; i < per; i++ {
			if c == 0 && len(first) > 0 && r.Bool(0.5) {
				ops = append(ops, first[0])
				first = first[1:]
			}
			n := r.I64(0, names-1)
			switch r.PickW(12, 3, 5, 1, 1, 1, 1, 1) {
			case 0:
				k := "plus"
				if sets && r.Bool(0.4) {
					k = "set"
				}
				ops = append(ops, Op{K: k, A: n, B: label(), C: val()})
			case 1:
				ops = append(ops, Op{K: "get", A: n, B: label()})
			case 2:
				ops = append(ops, Op{K: "read"})
			case 3:
				ops = append(ops, Op{K: "badlabels", A: n, B: label(), D: []int64{-1, 1, 2, -2, 7}[r.Intn(5)]})
			case 7:
				ops = append(ops, Op{K: "nilfn", A: n, B: label()})
			case 4:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, time.Hour)})
			case 5:
				ops = append(ops, Op{K: "add", A: n, B: r.I64(0, mxTypes-1), C: r.I64(0, 3)*10 + r.I64(0, 3)})
			case 6:
				ops = append(ops, Op{K: "jump", A: r.I64(-1, 1) * r.Dur(time.Millisecond, 100*time.Hour)})
			}
		}
		if c == 0 {
			ops = append(ops, first...)
		}
		if p.Knobs["bulk"] > 0 {
			for i := r.Intn(3); i > 0; i-- {
				at := r.Intn(len(ops) + 1)
				ops = append(ops[:at], append([]Op{{K: "grow", A: r.I64(1, 100)}}, ops[at:]...)...)
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "metrics", Props: []string{"C05"}, Gen: genMetrics, Weight: 6,
		Run: func(h *H) {
			mx := &mxSim{h: h, base: newClockBase(), reg: metric.NewRegistry()}
			for i := int64(0); i < h.K("bulk"); i++ {
				mx.addBulk(i)
				mx.grow(mx.bulk[i], h.K("bulkentries"))
			}
			if !h.RunClients("C05", h.HangLimit(), mx.exec) {
				return
			}
			mx.read()
			mx.judge()
		},
	})
}
