//go:build go1.23

package harness

import (
	"context"
	"errors"
	"math"
	"math/bits"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/verifsim/simrt"
)

// The view workload: clients record measurements under tags, register and
// unregister views, read them back in all three ways (retrieve, metric
// reading, exporters), with exporters coming and going and being slow.
//
// Record number i of a run records 2^i on measure 0, i-20 on measure 1 and
// (-2)^i / 2^22 on measure 2, so that a sum over measure 0 or 2 spells out
// exactly which records it holds.

const (
	maxRecs  = 44
	nViews   = 11
	nExps    = 3
	nCombos  = 9
	m1Offset = 20
	m2Scale  = 1 << 22
)

var viewAggs = []string{"sum", "count", "dist", "last", "dist", "sum", "count", "sum", "last", "dist", "dist"}
var viewMeas = []int{0, 0, 0, 1, 1, 0, 1, 2, 0, 0, 1}
var viewKeys = [][]string{{"k1"}, {"k2", "k1"}, {}, {"k1"}, {"k2"}, {}, {}, {"k2"}, {"k1"}, {"k2"}, {"k1"}}
var viewBounds = [][]float64{nil, nil, {1 << 20, 0, 1 << 5}, nil, {12, 3}, nil, nil, nil, nil, {0, 1 << 10, 0}, {0}}
var viewBoundsSorted = [][]float64{nil, nil, {1 << 5, 1 << 20}, nil, {3, 12}, nil, nil, nil, nil, {1 << 10}, {}}

// viewMetric is what the views are as metrics.
var viewMetric = []struct {
	t metricdata.Type
	u metricdata.Unit
}{
	{metricdata.TypeCumulativeInt64, metricdata.UnitBytes},
	{metricdata.TypeCumulativeInt64, metricdata.UnitDimensionless},
	{metricdata.TypeCumulativeDistribution, metricdata.UnitBytes},
	{metricdata.TypeGaugeFloat64, metricdata.UnitMilliseconds},
	{metricdata.TypeCumulativeDistribution, metricdata.UnitMilliseconds},
	{metricdata.TypeCumulativeInt64, metricdata.UnitBytes},
	{metricdata.TypeCumulativeInt64, metricdata.UnitDimensionless},
	{metricdata.TypeCumulativeFloat64, metricdata.UnitDimensionless},
	{metricdata.TypeGaugeInt64, metricdata.UnitBytes},
	{metricdata.TypeCumulativeDistribution, metricdata.UnitBytes},
	{metricdata.TypeCumulativeDistribution, metricdata.UnitMilliseconds},
}

// comboVals are the values that k1 and k2 can have: some look alike when they
// are put next to each other, and an empty one is no value at all.
var comboVals = [][2][]string{
	{{"a", "bb"}, {"x", "yy"}},
	{{"a", "aa"}, {"a", "aa"}},
	{{"a,", "a"}, {",b", "b"}},
	{{"", "v"}, {"v", ""}},
	{{"k2=", "k2=v"}, {"v", "k1=v"}},
	{{strings.Repeat("l", 255), strings.Repeat("l", 254)}, {"l", "ll"}},
	{{"l", "ll"}, {strings.Repeat("l", 255), strings.Repeat("l", 254)}},
	{{"/", "//"}, {"/", "|"}},
}

func comboTags(c int64) map[string]string {
	vals := comboVals[c/nCombos%int64(len(comboVals))]
	m := map[string]string{}
	if v := c % 3; v > 0 {
		m["k1"] = vals[0][v-1]
	}
	if v := c / 3 % 3; v > 0 {
		m["k2"] = vals[1][v-1]
	}
	return m
}

func rowKey(m map[string]string, keys []string) string {
	var p []string
	for _, k := range keys {
		if v := m[k]; v != "" {
			p = append(p, sf("%s=%q", k, v))
		}
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

type recEv struct {
	id         int
	mask       int64
	combo      int64
	attach     bool
	inv, ret   int // event numbers; ret is MaxInt while it has not returned
	tinv, tret time.Time
	done       bool
}

type epoch struct {
	view                         int
	regInv, regRet, unInv, unRet int
	tRegInv, tRegRet             time.Time
	v                            *view.View
	again                        int // when it was first registered again, or 0
}

const never = math.MaxInt32

// rowObs is one row as observed.
type rowObs struct {
	key     string
	agg     string
	n       int64
	set     uint64
	sumOK   bool
	bkt     []int64
	min     float64
	max     float64
	mean    float64
	ssd     float64
	sum     float64
	last    float64
	start   time.Time
	hasMM   bool
	ex      []*metricdata.Exemplar
	exPanic string
}

type viewObs struct {
	view       int
	kind       string // retrieve, read, export
	inv, ret   int
	tinv, tret time.Time
	rows       []rowObs
	err        error
	// export
	exp        int
	start, end time.Time
	fail       string
	batch      int   // observations of one Read share it
	live       []any // what was handed out, to compare with later
	snap       string
}

type expReg struct {
	exp                          int
	regInv, regRet, unInv, unRet int
	again                        int // calls under way that register it once more
}

type viewSim struct {
	h      *H
	meter  view.Meter // nil: the package-level functions
	m0     *stats.Int64Measure
	m1     *stats.Float64Measure
	m2     *stats.Float64Measure
	keys   map[string]tag.Key
	views  []*view.View
	recs   [maxRecs]recEv
	nrecs  int
	epochs []*epoch
	obs    []*viewObs
	flush  [][2]int
	exps   [nExps]*simExp
	eregs  []*expReg
	batch  int
	prods  bool

	ownRecs int64 // how many records the exporters may still make
}

// simExp is an exporter.
type simExp struct {
	id    int
	vs    *viewSim
	slow  int64
	busy  int
	calls int
}

func (e *simExp) ExportView(d *view.Data) {
	vs := e.vs
	e.calls++
	e.busy++
	seq := simrt.Log("export", sf("exporter %d view %s", e.id, d.View.Name))
	if e.busy > 1 {
		vs.h.Bad("C03", "concurrent-export", "exporter %d: ExportView called while an earlier call had not returned (event %d)", e.id, seq)
	}
	o := &viewObs{kind: "export", view: vs.viewIndex(d.View.Name), inv: seq, ret: seq, exp: e.id, start: d.Start, end: d.End, tinv: simNow()}
	o.tret = o.tinv
	if o.view < 0 {
		vs.h.Bad("C03", "export-unknown-view", "exported data for a view called %q", d.View.Name)
	} else {
		o.rows = vs.rows(o.view, d.Rows, &o.fail)
		o.live = []any{d.Rows}
		o.snap = o.digestLive()
		vs.obs = append(vs.obs, o)
	}
	if n := vs.ownRecs; n > 0 && e.calls%3 == 1 { // exporters record too: what they send, and how long it takes
		vs.ownRecs--
		vs.h.Fault("exporter records")
		vs.record(Op{K: "rec", A: maxRecs - n, B: int64(e.id), C: 7, D: n})
	}
	if e.slow > 0 {
		vs.h.Fault("slow exporter")
		simrt.Sleep(e.slow)
	}
	e.busy--
}

func simNow() time.Time { return time.Unix(0, simrt.Wall()) }

func (vs *viewSim) viewIndex(name string) int {
	for i := range vs.views {
		if name == sf("view%d", i) {
			return i
		}
	}
	return -1
}

func (o *viewObs) digestLive() string {
	if simrt.Race {
		return ""
	}
	var b strings.Builder
	for _, l := range o.live {
		switch l := l.(type) {
		case []*view.Row:
			for _, r := range l {
				b.WriteString(dumpRow(r))
				b.WriteByte(';')
			}
		case *metricdata.Metric:
			b.WriteString(dumpMetric(l))
		}
	}
	return b.String()
}

func dumpRow(r *view.Row) string {
	var b strings.Builder
	for _, t := range r.Tags {
		fpf(&b, "%s=%s,", t.Key.Name(), t.Value)
	}
	switch d := r.Data.(type) {
	case *view.CountData:
		fpf(&b, "count %d", d.Value)
	case *view.SumData:
		fpf(&b, "sum %v", d.Value)
	case *view.LastValueData:
		fpf(&b, "last %v", d.Value)
	case *view.DistributionData:
		fpf(&b, "dist %d %v %v %v %v %v", d.Count, d.Min, d.Max, d.Mean, d.SumOfSquaredDev, d.CountPerBucket)
		for _, e := range d.ExemplarsPerBucket {
			if e != nil {
				fpf(&b, " ex %v %v", e.Value, e.Attachments["id"])
			}
		}
	}
	return b.String()
}

func dumpMetric(m *metricdata.Metric) string {
	var b strings.Builder
	b.WriteString(m.Descriptor.Name)
	for _, ts := range m.TimeSeries {
		for _, l := range ts.LabelValues {
			fpf(&b, "%v/%s,", l.Present, l.Value)
		}
		for _, p := range ts.Points {
			switch v := p.Value.(type) {
			case *metricdata.Distribution:
				fpf(&b, "dist %d %v %v", v.Count, v.Sum, v.SumOfSquaredDeviation)
				for _, k := range v.Buckets {
					fpf(&b, " %d", k.Count)
				}
			default:
				fpf(&b, "%v", v)
			}
		}
		b.WriteByte(';')
	}
	return b.String()
}

// setOfM2 says which records a sum over measure 2 holds: every integer is the
// sum of different powers of -2 in one way.
func setOfM2(x float64) (uint64, bool) {
	x *= m2Scale
	if x != math.Trunc(x) || math.Abs(x) >= 1<<(maxRecs+1) {
		return 0, false
	}
	const odd = 0xaaaaaaaaaaaaaaa
	set := (uint64(int64(x)) + odd) ^ odd
	return set, set < 1<<maxRecs
}

func (vs *viewSim) rows(v int, rows []*view.Row, fail *string) []rowObs {
	var out []rowObs
	for _, r := range rows {
		m := map[string]string{}
		lastName := ""
		for _, t := range r.Tags {
			if t.Key.Name() <= lastName {
				*fail = sf("row tags out of order or repeated: %v", r.Tags)
			}
			lastName = t.Key.Name()
			m[t.Key.Name()] = t.Value
		}
		o := rowObs{key: rowKey(m, []string{"k1", "k2"}), agg: viewAggs[v]}
		switch d := r.Data.(type) {
		case *view.CountData:
			o.n, o.start = d.Value, d.Start
			if o.agg != "count" {
				*fail = "wrong data type"
			}
		case *view.SumData:
			if viewMeas[v] == 2 {
				o.set, o.sumOK = setOfM2(d.Value)
			} else {
				x := d.Value
				o.set, o.sumOK = uint64(x), x >= 0 && x == math.Trunc(x) && x < 1<<maxRecs
			}
			o.n, o.start = int64(bits.OnesCount64(o.set)), d.Start
			if o.agg != "sum" {
				*fail = "wrong data type"
			}
			if !o.sumOK {
				*fail = sf("sum %v is not a sum of distinct recorded values", d.Value)
			}
		case *view.LastValueData:
			o.last = d.Value
			if o.agg != "last" {
				*fail = "wrong data type"
			}
		case *view.DistributionData:
			o.n, o.bkt, o.min, o.max, o.mean, o.ssd, o.start, o.hasMM = d.Count, append([]int64(nil), d.CountPerBucket...), d.Min, d.Max, d.Mean, d.SumOfSquaredDev, d.Start, true
			o.sum = d.Sum()
			o.ex = append(o.ex, d.ExemplarsPerBucket...)
			if o.agg != "dist" {
				*fail = "wrong data type"
			}
		}
		out = append(out, o)
	}
	return out
}

func (vs *viewSim) metricRows(v int, m *metricdata.Metric, fail *string) []rowObs {
	var out []rowObs
	keys := append([]string(nil), viewKeys[v]...)
	sort.Strings(keys)
	if len(m.Descriptor.LabelKeys) != len(keys) {
		*fail = sf("label keys %v", m.Descriptor.LabelKeys)
		return nil
	}
	for i, k := range m.Descriptor.LabelKeys {
		if k.Key != keys[i] {
			*fail = sf("label keys %v", m.Descriptor.LabelKeys)
			return nil
		}
	}
	if d := m.Descriptor; d.Type != viewMetric[v].t || d.Unit != viewMetric[v].u || d.Description != vs.views[v].Measure.Description() {
		*fail = sf("a metric of type %v and unit %q, described as %q", d.Type, d.Unit, d.Description)
	}
	for _, ts := range m.TimeSeries {
		lab := map[string]string{}
		if len(ts.LabelValues) != len(keys) {
			*fail = sf("%d label values for %d keys", len(ts.LabelValues), len(keys))
			return nil
		}
		for i, l := range ts.LabelValues {
			if l.Present {
				lab[keys[i]] = l.Value
			}
			if l.Present != (l.Value != "") {
				*fail = sf("label %s: value %q, present %v", keys[i], l.Value, l.Present)
			}
		}
		if len(ts.Points) != 1 {
			*fail = sf("%d points in a time series", len(ts.Points))
			return nil
		}
		o := rowObs{key: rowKey(lab, keys), agg: viewAggs[v], start: ts.StartTime}
		bad := func() { *fail = sf("view %d has a point of type %T", v, ts.Points[0].Value) }
		switch x := ts.Points[0].Value.(type) {
		case int64:
			switch {
			case o.agg == "count":
				o.n = x
			case o.agg == "sum" && viewMeas[v] == 0:
				o.set, o.sumOK = uint64(x), x >= 0 && x < 1<<maxRecs
				o.n = int64(bits.OnesCount64(o.set))
			case o.agg == "last" && viewMeas[v] == 0:
				o.last = float64(x)
			default:
				bad()
			}
		case float64:
			switch {
			case o.agg == "last" && viewMeas[v] != 0:
				o.last = x
			case o.agg == "sum" && viewMeas[v] == 2:
				o.set, o.sumOK = setOfM2(x)
				o.n = int64(bits.OnesCount64(o.set))
				if !o.sumOK {
					*fail = sf("sum %v is not a sum of distinct recorded values", x)
				}
			default:
				bad()
			}
		case *metricdata.Distribution:
			if o.agg != "dist" {
				bad()
			}
			o.n, o.sum, o.ssd = x.Count, x.Sum, x.SumOfSquaredDeviation
			o.mean = x.Sum / float64(x.Count)
			for _, b := range x.Buckets {
				o.bkt = append(o.bkt, b.Count)
				o.ex = append(o.ex, b.Exemplar)
			}
			if x.BucketOptions == nil || sp(x.BucketOptions.Bounds) != sp(viewBoundsSorted[v]) {
				*fail = sf("bucket bounds %v", x.BucketOptions)
			}
		}
		out = append(out, o)
	}
	return out
}

func newViewSim(h *H, meter view.Meter) *viewSim {
	vs := &viewSim{h: h, meter: meter, keys: map[string]tag.Key{}}
	vs.m0 = stats.Int64("sim/m0", "measure 0", "By")
	vs.m1 = stats.Float64("sim/m1", "measure 1", "ms")
	vs.m2 = stats.Float64("sim/m2", "measure 2", "1")
	for _, k := range []string{"k1", "k2"} {
		vs.keys[k] = tag.MustNewKey(k)
	}
	for i := 0; i < nViews; i++ {
		vs.views = append(vs.views, vs.makeView(i))
	}
	for i := range vs.exps {
		vs.exps[i] = &simExp{id: i, vs: vs}
	}
	for i := range vs.recs {
		vs.recs[i].inv, vs.recs[i].ret = never, never
	}
	return vs
}

func (vs *viewSim) makeView(i int) *view.View {
	v := &view.View{Name: sf("view%d", i)}
	v.Measure = []stats.Measure{vs.m0, vs.m1, vs.m2}[viewMeas[i]]
	for _, k := range viewKeys[i] {
		v.TagKeys = append(v.TagKeys, vs.keys[k])
	}
	switch viewAggs[i] {
	case "sum":
		v.Aggregation = view.Sum()
	case "count":
		v.Aggregation = view.Count()
	case "last":
		v.Aggregation = view.LastValue()
	case "dist":
		v.Aggregation = view.Distribution(append([]float64(nil), viewBounds[i]...)...)
	}
	return v
}

func (vs *viewSim) register(v ...*view.View) error {
	if vs.meter != nil {
		return vs.meter.Register(v...)
	}
	return view.Register(v...)
}
func (vs *viewSim) unregister(v ...*view.View) {
	if vs.meter != nil {
		vs.meter.Unregister(v...)
	} else {
		view.Unregister(v...)
	}
}
func (vs *viewSim) retrieve(n string) ([]*view.Row, error) {
	if vs.meter != nil {
		return vs.meter.RetrieveData(n)
	}
	return view.RetrieveData(n)
}
func (vs *viewSim) find(n string) *view.View {
	if vs.meter != nil {
		return vs.meter.Find(n)
	}
	return view.Find(n)
}
func (vs *viewSim) regExporter(e view.Exporter) {
	if vs.meter != nil {
		vs.meter.RegisterExporter(e)
	} else {
		view.RegisterExporter(e)
	}
}
func (vs *viewSim) unregExporter(e view.Exporter) {
	if vs.meter != nil {
		vs.meter.UnregisterExporter(e)
	} else {
		view.UnregisterExporter(e)
	}
}

func (vs *viewSim) current(v int) *epoch {
	for i := len(vs.epochs) - 1; i >= 0; i-- {
		if vs.epochs[i].view == v {
			return vs.epochs[i]
		}
	}
	return nil
}

func (vs *viewSim) flushed(inv, ret int) { vs.flush = append(vs.flush, [2]int{inv, ret}) }

// record performs record number op.A.
func (vs *viewSim) record(op Op) {
	id := int(op.A)
	r := &vs.recs[id]
	r.id, r.combo, r.mask, r.attach = id, op.B, op.C, op.D&1 != 0
	ctx := context.Background()
	var muts []tag.Mutator
	tags := comboTags(op.B)
	for _, k := range []string{"k1", "k2"} {
		if v, ok := tags[k]; ok {
			muts = append(muts, tag.Upsert(vs.keys[k], v))
		}
	}
	var ms []stats.Measurement
	if op.C&1 != 0 {
		ms = append(ms, vs.m0.M(1<<uint(id)))
	}
	if op.C&2 != 0 {
		ms = append(ms, vs.m1.M(float64(id-m1Offset)))
	}
	if x := vs.value(7, id); op.C&4 != 0 {
		if op.D&4 != 0 { // in two parts
			ms = append([]stats.Measurement{vs.m2.M(x / 2)}, append(ms, vs.m2.M(x/2))...)
		} else {
			ms = append(ms, vs.m2.M(x))
		}
	}
	var att metricdata.Attachments
	if r.attach {
		att = metricdata.Attachments{"id": id}
	}
	// the tags either come with the context or with the call
	viaCtx := op.D&2 != 0
	if viaCtx || (vs.meter == nil && !r.attach) {
		var err error
		if ctx, err = tag.New(ctx, muts...); err != nil {
			vs.h.Bad("C01", "record-error", "tag.New: %v", err)
		}
		muts = nil
	}
	r.tinv = simNow()
	r.inv = simrt.Log("record", id)
	if vs.meter == nil && !r.attach {
		stats.Record(ctx, ms...)
	} else {
		opts := []stats.Options{stats.WithMeasurements(ms...)}
		if att != nil {
			opts = append(opts, stats.WithAttachments(att))
		}
		if len(muts) > 0 {
			opts = append(opts, stats.WithTags(muts...))
		}
		if vs.meter != nil {
			opts = append(opts, stats.WithRecorder(vs.meter))
		}
		if err := stats.RecordWithOptions(ctx, opts...); err != nil {
			vs.h.Bad("C01", "record-error", "RecordWithOptions: %v", err)
		}
	}
	r.ret = simrt.Log("record done", id)
	r.tret = simNow()
	r.done = true
	// What was recorded is what the caller gave then; it may use its slices
	// and maps for something else now.
	for i := range ms {
		ms[i] = vs.m1.M(1 << 40)
	}
	for i := range muts {
		muts[i] = tag.Upsert(vs.keys["k1"], "reused")
	}
	for k := range att {
		att[k] = "reused"
	}
}

func (vs *viewSim) doRegister(v int) {
	vs.doRegisterAs(v, vs.views[v])
}

func (vs *viewSim) doRegisterAs(v int, as *view.View) {
	e := &epoch{view: v, regRet: never, unInv: never, unRet: never, v: as, tRegInv: simNow()}
	e.regInv = simrt.Log("register", v)
	vs.epochs = append(vs.epochs, e)
	err := vs.register(as)
	e.regRet = simrt.Log("register done", v)
	e.tRegRet = simNow()
	vs.flushed(e.regInv, e.regRet)
	if err != nil {
		vs.h.Bad("C02", "register-error", "registering view %d, not registered before, failed: %v", v, err)
	}
}

// doRegisterAgain registers a view its owner has registered: nothing changes.
func (vs *viewSim) doRegisterAgain(v int, same bool) {
	e := vs.current(v)
	if e == nil || e.unInv != never || e.regRet == never {
		return
	}
	as := vs.views[v]
	if !same {
		c := *as
		c.TagKeys = append([]tag.Key(nil), as.TagKeys...)
		c.Description = "again"
		as = &c
	}
	n := simrt.Log("register again", v)
	if e.again == 0 {
		e.again = n
	}
	err := vs.register(as)
	vs.flushed(n, simrt.Log("register again done", v))
	vs.h.Check("C02", err == nil, "again-error", "registering view %d again failed: %v", v, err)
}

func (vs *viewSim) doUnregister(v int) {
	e := vs.current(v)
	if e == nil || e.unInv != never || e.regRet == never {
		return
	}
	e.unInv = simrt.Log("unregister", v)
	vs.unregister(e.v)
	e.unRet = simrt.Log("unregister done", v)
	vs.flushed(e.unInv, e.unRet)
}

func (vs *viewSim) doRetrieve(v int) {
	o := &viewObs{kind: "retrieve", view: v, tinv: simNow(), ret: never}
	o.inv = simrt.Log("retrieve", v)
	rows, err := vs.retrieve(sf("view%d", v))
	o.ret = simrt.Log("retrieve done", v)
	o.tret = simNow()
	o.err = err
	o.rows = vs.rows(v, rows, &o.fail)
	o.live = []any{rows}
	o.snap = o.digestLive()
	vs.flushed(o.inv, o.ret)
	vs.obs = append(vs.obs, o)
}

func (vs *viewSim) doRead() {
	inv := simrt.Log("read", nil)
	t := simNow()
	var ms []*metricdata.Metric
	if p, ok := vs.meter.(metricproducer.Producer); ok {
		ms = p.Read()
	} else {
		for _, p := range metricproducer.GlobalManager().GetAll() {
			ms = append(ms, p.Read()...)
		}
	}
	ret := simrt.Log("read done", nil)
	t2 := simNow()
	vs.batch++
	batch := vs.batch // another client's read may be judged meanwhile
	seen := map[int]bool{}
	for _, m := range ms {
		v := vs.viewIndex(m.Descriptor.Name)
		if v < 0 {
			vs.h.Bad("C01", "unknown-metric", "metric %q is no registered view", m.Descriptor.Name)
			continue
		}
		if seen[v] {
			vs.h.Bad("C01", "metric-twice", "one read returned two metrics for view %d", v)
		}
		seen[v] = true
		o := &viewObs{kind: "read", view: v, inv: inv, ret: ret, tinv: t, tret: t2, batch: batch}
		o.rows = vs.metricRows(v, m, &o.fail)
		o.live = []any{m}
		o.snap = o.digestLive()
		vs.obs = append(vs.obs, o)
	}
	for v := range vs.views {
		if !seen[v] {
			vs.obs = append(vs.obs, &viewObs{kind: "read", view: v, inv: inv, ret: ret, tinv: t, tret: t2, batch: batch, err: errAbsent})
		}
	}
}

var errAbsent = errors.New("absent")

func (vs *viewSim) exec(op Op) {
	switch op.K {
	case "rec":
		vs.record(op)
	case "reg":
		if e := vs.current(int(op.A)); e == nil || e.unRet != never {
			vs.doRegister(int(op.A))
		} else {
			vs.doRegisterAgain(int(op.A), op.B != 0)
		}
	case "unreg":
		vs.doUnregister(int(op.A))
	case "get":
		vs.doRetrieve(int(op.A))
	case "read":
		vs.doRead()
	case "exp":
		vs.doRegExp(int(op.A), op.B)
	case "unexp":
		vs.doUnregExp(int(op.A))
	case "sleep":
		simrt.Sleep(op.A)
	case "period":
		if vs.meter != nil {
			vs.meter.SetReportingPeriod(time.Duration(op.A))
		} else {
			view.SetReportingPeriod(time.Duration(op.A))
		}
	}
}

func (vs *viewSim) lastExp(e int) *expReg {
	for i := len(vs.eregs) - 1; i >= 0; i-- {
		if vs.eregs[i].exp == e {
			return vs.eregs[i]
		}
	}
	return nil
}

func (vs *viewSim) doRegExp(e int, slow int64) {
	if l := vs.lastExp(e); l != nil && l.unRet == never {
		if l.regRet != never && l.unInv == never { // registered already: nothing changes
			simrt.Log("register exporter again", e)
			vs.regExporter(vs.exps[e])
			simrt.Log("register exporter again done", e)
		}
		return
	}
	r := &expReg{exp: e, regRet: never, unInv: never, unRet: never}
	vs.exps[e].slow = slow
	r.regInv = simrt.Log("register exporter", e)
	vs.eregs = append(vs.eregs, r)
	vs.regExporter(vs.exps[e])
	r.regRet = simrt.Log("register exporter done", e)
}

func (vs *viewSim) doUnregExp(e int) {
	r := vs.lastExp(e)
	if r == nil || r.unRet != never { // not registered: nothing happens
		simrt.Log("unregister no exporter", e)
		vs.unregExporter(vs.exps[e])
		return
	}
	if r.unInv != never || r.regRet == never {
		return
	}
	r.unInv = simrt.Log("unregister exporter", e)
	vs.unregExporter(vs.exps[e])
	r.unRet = simrt.Log("unregister exporter done", e)
}

// ---------------------------------------------------------------- oracle

func (vs *viewSim) matches(r *recEv, v int, key string) bool {
	return r.inv != never && r.mask&(1<<uint(viewMeas[v])) != 0 && rowKey(comboTags(r.combo), viewKeys[v]) == key
}

// mustSeen reports whether the record was certainly processed before the
// observation: it returned before some call began that waits for everything
// before it, and that call returned before the observation began.
func (vs *viewSim) mustSeen(r *recEv, o *viewObs) bool {
	if r.ret == never {
		return false
	}
	if o.kind == "retrieve" && r.ret < o.inv {
		return true
	}
	for _, f := range vs.flush {
		if r.ret < f[0] && f[1] < o.inv {
			return true
		}
	}
	return false
}

// explain checks an observation against one registration of its view and
// returns what is wrong.
func (vs *viewSim) explain(o *viewObs, e *epoch) string {
	v := o.view
	if o.fail != "" {
		return o.fail
	}
	var may, must [maxRecs]bool
	mayKeys := map[string]bool{}
	mustKeys := map[string]bool{}
	for i := range vs.recs {
		r := &vs.recs[i]
		if r.inv == never || r.mask&(1<<uint(viewMeas[v])) == 0 {
			continue
		}
		k := rowKey(comboTags(r.combo), viewKeys[v])
		if r.ret > e.regInv && r.inv < o.ret && r.inv < e.unRet {
			may[i] = true
			mayKeys[k] = true
		}
		if r.inv > e.regRet && vs.mustSeen(r, o) && r.ret < e.unInv {
			must[i] = true
			mustKeys[k] = true
		}
	}
	seen := map[string]bool{}
	for _, row := range o.rows {
		if seen[row.key] {
			return sf("two rows for tags %q", row.key)
		}
		seen[row.key] = true
		if !mayKeys[row.key] {
			return sf("a row for tags %q, under which nothing was recorded", row.key)
		}
		lo, hi := 0, 0
		var bLo, bHi []int64
		bounds := viewBoundsSorted[v]
		if row.agg == "dist" {
			bLo, bHi = make([]int64, len(bounds)+1), make([]int64, len(bounds)+1)
		}
		startOK := row.agg == "last"
		var mustIDs, mayIDs []int
		for i := range vs.recs {
			r := &vs.recs[i]
			if !may[i] || !vs.matches(r, v, row.key) {
				continue
			}
			hi++
			mayIDs = append(mayIDs, i)
			b := 0
			if row.agg == "dist" {
				for b < len(bounds) && vs.value(v, i) >= bounds[b] {
					b++
				}
				bHi[b]++
			}
			if must[i] {
				lo++
				mustIDs = append(mustIDs, i)
				if row.agg == "dist" {
					bLo[b]++
				}
			}
			if !startOK && !row.start.Before(r.tinv) && (r.ret == never || !row.start.After(r.tret)) {
				startOK = true
			}
		}
		if row.agg != "last" && (row.n < int64(lo) || row.n > int64(hi)) {
			return sf("row %q holds %d records; between %d and %d were recorded (must hold %v, may hold %v)", row.key, row.n, lo, hi, mustIDs, mayIDs)
		}
		if row.agg != "last" && row.n == 0 {
			return sf("row %q is empty", row.key)
		}
		if !startOK {
			return sf("row %q starts at %v, when nothing in it was being recorded", row.key, row.start)
		}
		switch row.agg {
		case "sum":
			for i := range vs.recs {
				in := row.set&(1<<uint(i)) != 0
				if in && (!may[i] || !vs.matches(&vs.recs[i], v, row.key)) {
					return sf("row %q includes record %d, which does not belong there", row.key, i)
				}
				if !in && must[i] && vs.matches(&vs.recs[i], v, row.key) {
					return sf("row %q lacks record %d, which was recorded while the view was registered and before the data was asked for", row.key, i)
				}
				if !in {
					continue
				}
				// records are taken in the order they were made
				for j := range vs.recs {
					rj := &vs.recs[j]
					if row.set&(1<<uint(j)) == 0 && vs.matches(rj, v, row.key) && rj.inv > e.regRet && rj.ret < vs.recs[i].inv {
						return sf("row %q includes record %d but not record %d, which was made earlier", row.key, i, j)
					}
				}
			}
		case "dist":
			var n int64
			if len(row.bkt) != len(bounds)+1 {
				return sf("row %q has %d buckets for %d bounds", row.key, len(row.bkt), len(bounds))
			}
			for b := range row.bkt {
				n += row.bkt[b]
				if row.bkt[b] < bLo[b] || row.bkt[b] > bHi[b] {
					return sf("row %q bucket %d holds %d values; between %d and %d fell there", row.key, b, row.bkt[b], bLo[b], bHi[b])
				}
			}
			if n != row.n {
				return sf("row %q: buckets add up to %d, count is %d", row.key, n, row.n)
			}
			if row.hasMM {
				okMin, okMax := false, false
				for _, i := range mayIDs {
					x := vs.value(v, i)
					okMin = okMin || x == row.min
					okMax = okMax || x == row.max
					if must[i] && (x < row.min || x > row.max) {
						return sf("row %q has min %v and max %v but holds %v", row.key, row.min, row.max, x)
					}
				}
				if !okMin || !okMax {
					return sf("row %q has min %v and max %v, not both values that were recorded", row.key, row.min, row.max)
				}
			}
			if lo == hi {
				sum := 0.0
				for _, i := range mayIDs {
					sum += vs.value(v, i)
				}
				mean := sum / float64(hi)
				ssd := 0.0
				for _, i := range mayIDs {
					d := vs.value(v, i) - mean
					ssd += d * d
				}
				if !near(row.mean, mean, 1e-6) || !near(row.ssd, ssd, 1e-6) || !near(row.sum, sum, 1e-6) {
					return sf("row %q: mean %v, sum %v, squared deviation %v; want %v, %v, %v", row.key, row.mean, row.sum, row.ssd, mean, sum, ssd)
				}
			}
			for b, ex := range row.ex {
				if ex == nil {
					for _, i := range mustIDs {
						if vs.recs[i].attach && vs.bucket(v, i) == b {
							return sf("row %q bucket %d has no exemplar though record %d had attachments", row.key, b, i)
						}
					}
					continue
				}
				id, ok := ex.Attachments["id"].(int)
				if !ok || id < 0 || id >= maxRecs || !may[id] || !vs.recs[id].attach || !vs.matches(&vs.recs[id], v, row.key) || vs.bucket(v, id) != b || ex.Value != vs.value(v, id) {
					return sf("row %q bucket %d has exemplar %v %v, which was not recorded there", row.key, b, ex.Value, ex.Attachments)
				}
				r := &vs.recs[id]
				if ex.Timestamp.Before(r.tinv) || r.ret != never && ex.Timestamp.After(r.tret) {
					return sf("row %q bucket %d: exemplar of record %d has time %v", row.key, b, id, ex.Timestamp)
				}
				for _, i := range mustIDs {
					if i != id && vs.recs[i].attach && vs.bucket(v, i) == b && vs.recs[i].inv > r.ret {
						return sf("row %q bucket %d: exemplar is record %d, older than record %d", row.key, b, id, i)
					}
				}
			}
		case "last":
			id := int(row.last) + m1Offset
			if viewMeas[v] == 0 {
				id = -1
				if row.last >= 1 {
					id = bits.Len64(uint64(row.last)) - 1
				}
			}
			if id < 0 || id >= maxRecs || row.last != vs.value(v, id) || id < 0 || id >= maxRecs || !may[id] || !vs.matches(&vs.recs[id], v, row.key) {
				return sf("row %q last value %v was not recorded there", row.key, row.last)
			}
			for _, i := range mustIDs {
				if vs.recs[i].inv > vs.recs[id].ret {
					return sf("row %q last value is record %d's, but record %d came after it", row.key, id, i)
				}
			}
		}
	}
	for k := range mustKeys {
		if !seen[k] {
			return sf("no row for tags %q, under which something was recorded", k)
		}
	}
	return ""
}

func near(a, b, eps float64) bool {
	return math.Abs(a-b) <= eps*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func (vs *viewSim) value(v, id int) float64 {
	switch viewMeas[v] {
	case 0:
		return float64(int64(1) << uint(id))
	case 2:
		x := float64(int64(1)<<uint(id)) / m2Scale
		if id&1 != 0 {
			return -x
		}
		return x
	}
	return float64(id - m1Offset)
}

func (vs *viewSim) bucket(v, id int) int {
	b := 0
	for b < len(viewBoundsSorted[v]) && vs.value(v, id) >= viewBoundsSorted[v][b] {
		b++
	}
	return b
}

// registered says whether view v was certainly registered, or certainly not,
// during the whole of [a,b].
func (vs *viewSim) registered(v, a, b int) (yes, no bool) {
	no = true
	for _, e := range vs.epochs {
		if e.view != v {
			continue
		}
		if e.regRet < a && e.unInv > b {
			yes = true
		}
		if e.regInv < b && e.unRet > a {
			no = false
		}
	}
	return
}

func (vs *viewSim) judge() {
	if simrt.Race { // only races are looked for
		return
	}
	h := vs.h
	for _, o := range vs.obs {
		prop := "C01"
		yes, no := vs.registered(o.view, o.inv, o.ret)
		if o.err != nil {
			switch {
			case o.kind == "retrieve":
				h.Check("C02", !yes, "registered-view-not-found", "RetrieveData(view%d) failed (%v) though the view was registered all along", o.view, o.err)
			case yes:
				// an absent metric: fine only if nothing had to be in it
				for i := range vs.recs {
					r := &vs.recs[i]
					if r.inv == never || r.mask&(1<<uint(viewMeas[o.view])) == 0 || !vs.mustSeen(r, o) {
						continue
					}
					for _, e := range vs.epochs {
						if e.view == o.view && e.regRet < r.inv && e.unInv > o.ret {
							h.Check(prop, false, "lost-record", "reading the metrics returned nothing for view %d, which was registered and holds record %d", o.view, i)
						}
					}
				}
			}
			continue
		}
		if no {
			if o.kind == "export" {
				h.Check("C02", false, "data-after-unregister", "view %d was exported (event %d) while it was not registered", o.view, o.inv)
			} else {
				h.Check("C02", false, "data-after-unregister", "%s (events %d-%d) returned data for view %d, which was not registered", o.kind, o.inv, o.ret, o.view)
			}
			continue
		}
		why, ok := "", false
		times, timesOK, again := "", o.kind != "export", false
		for _, e := range vs.epochs {
			if e.view != o.view || e.regInv > o.ret || e.unRet < o.inv {
				continue
			}
			if w := vs.explain(o, e); w != "" {
				why = w
				continue
			}
			ok = true
			if o.kind == "export" {
				if w := vs.exportTimes(o, e); w != "" {
					times, again = w, e.again != 0 && e.again < o.inv
					continue
				}
			}
			timesOK = true
			break
		}
		h.Check("C03", !ok || timesOK, "export-times", "%s of view %d (event %d): %s", o.kind, o.view, o.inv, times)
		h.Check("C02", !ok || timesOK || !again, "again-effect", "%s of view %d (event %d) after it was registered again: %s", o.kind, o.view, o.inv, times)
		h.Check(prop, ok, "wrong-data", "%s of view %d (events %d-%d): %s", o.kind, o.view, o.inv, o.ret, why)
		h.Check(prop, o.digestLive() == o.snap, "snapshot-changed", "data handed out by %s of view %d (event %d) changed afterwards: was %s, is %s", o.kind, o.view, o.ret, o.snap, o.digestLive())
	}
	vs.judgeMonotone()
	vs.judgeAtomic()
	vs.judgeExporters()
}

func (vs *viewSim) exportTimes(o *viewObs, e *epoch) string {
	if o.start.Before(e.tRegInv) || (e.regRet != never && o.start.After(e.tRegRet)) {
		return sf("exported data starts at %v; the view was registered between %v and %v", o.start, e.tRegInv, e.tRegRet)
	}
	if o.end.Before(o.start) || o.end.After(o.tinv) {
		return sf("exported data covers %v to %v, exported at %v", o.start, o.end, o.tinv)
	}
	return ""
}

// judgeMonotone: within one registration, what was seen stays seen.
func (vs *viewSim) judgeMonotone() {
	for _, e := range vs.epochs {
		var prev []*viewObs
		for _, o := range vs.obs {
			if o.view != e.view || o.err != nil || o.inv < e.regRet || o.ret > e.unRet {
				continue
			}
			for _, p := range prev {
				if p.ret >= o.inv {
					continue
				}
				for _, pr := range p.rows {
					if pr.agg == "last" {
						continue
					}
					found := false
					for _, r := range o.rows {
						if r.key != pr.key {
							continue
						}
						found = true
						vs.h.Check("C01", r.n >= pr.n && pr.set&^r.set == 0, "went-backwards", "view %d row %q: %s at event %d had %d records (%x), %s at event %d has %d (%x)", e.view, r.key, p.kind, p.inv, pr.n, pr.set, o.kind, o.inv, r.n, r.set)
						vs.h.Check("C01", r.start.Equal(pr.start), "start-changed", "view %d row %q: start time changed from %v to %v", e.view, r.key, pr.start, r.start)
					}
					vs.h.Check("C01", found, "row-vanished", "view %d row %q was in %s at event %d and is not in %s at event %d", e.view, pr.key, p.kind, p.inv, o.kind, o.inv)
				}
			}
			prev = append(prev, o)
			if len(prev) > 6 {
				prev = prev[1:]
			}
		}
	}
}

// judgeAtomic: one read shows one moment; a record made on several measures is
// in all their views or in none.
func (vs *viewSim) judgeAtomic() {
	byBatch := map[int][]*viewObs{}
	for _, o := range vs.obs {
		if o.kind == "read" {
			byBatch[o.batch] = append(byBatch[o.batch], o)
		}
	}
	for b := 1; b <= vs.batch; b++ {
		var s0, c1 *viewObs
		for _, o := range byBatch[b] {
			if yes, _ := vs.registered(o.view, o.inv, o.ret); !yes {
				continue
			}
			if o.view == 5 {
				s0 = o
			}
			if o.view == 6 {
				c1 = o
			}
		}
		if s0 == nil || c1 == nil {
			continue
		}
		// only records made after both registrations count for certain
		since := 0
		for _, e := range vs.epochs {
			if (e.view == 5 || e.view == 6) && e.regRet < s0.inv && e.regRet > since {
				since = e.regRet
			}
		}
		allLater := true
		for i := range vs.recs {
			if vs.recs[i].inv != never && vs.recs[i].inv < since {
				allLater = false
			}
		}
		onlyBoth := true
		for i := range vs.recs {
			if vs.recs[i].inv != never && vs.recs[i].mask&3 != 3 {
				onlyBoth = false
			}
		}
		if !allLater || !onlyBoth {
			continue
		}
		n0, n1 := int64(0), int64(0)
		for _, r := range s0.rows {
			n0 += r.n
		}
		for _, r := range c1.rows {
			n1 += r.n
		}
		vs.h.Check("C01", n0 == n1, "torn-read", "the read at events %d-%d shows %d records on measure 0 and %d on measure 1, though every record was made on both at once", s0.inv, s0.ret, n0, n1)
	}
}

func (vs *viewSim) judgeExporters() {
	for _, o := range vs.obs {
		if o.kind != "export" {
			continue
		}
		possible := false
		for _, r := range vs.eregs {
			if r.exp == o.exp && r.regInv < o.inv && r.unRet > o.inv {
				possible = true
			}
		}
		vs.h.Check("C03", possible, "export-after-unregister", "exporter %d was called at event %d while it was not registered", o.exp, o.inv)
	}
	// what a view had collected is exported before Unregister returns
	for _, e := range vs.epochs {
		if e.unRet == never {
			continue
		}
		for _, r := range vs.eregs {
			if !(r.regRet < e.unInv && r.unInv > e.unRet) {
				continue
			}
			fin := false
			why := "there was no export during Unregister"
			for _, o := range vs.obs {
				if o.kind == "export" && o.exp == r.exp && o.view == e.view && o.inv > e.unInv && o.inv < e.unRet {
					q := *o
					// everything recorded before Unregister was called is in it
					f := vs.flush
					vs.flush = append(append([][2]int{}, f...), [2]int{e.unInv, o.inv - 1})
					if w := vs.explain(&q, e); w == "" {
						fin = true
					} else {
						why = w
					}
					vs.flush = f
				}
			}
			vs.h.Check("C03", fin, "no-final-export", "unregistering view %d (events %d-%d) did not hand its data to exporter %d: %s", e.view, e.unInv, e.unRet, r.exp, why)
		}
	}
}

func genViewPlan(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	nc := r.Range(2, 4)
	per := r.Range(3, 9)
	if deep && r.Bool(0.3) {
		per = r.Range(8, 14)
	}
	combos := int64(0)
	if r.Bool(0.4) {
		combos = nCombos * r.I64(0, len(comboVals)-1)
	}
	both := r.Bool(0.3) // every record on both measures
	p.Knobs["pre"] = r.I64(0, 1<<nViews-1)
	p.Knobs["preexp"] = r.I64(0, 7)
	unit := []time.Duration{time.Microsecond, time.Millisecond, time.Second}[r.Intn(3)]
	period := func() int64 { return r.Dur(unit/4, 15*unit) }
	p.Knobs["_maxstall"] = int64(20 * unit)
	p.Knobs["_hang"] = int64(200000 * unit)
	p.Knobs["_maxtick"] = int64(unit / 20000)
	p.Knobs["slow"] = 0
	if r.Bool(0.2) {
		p.Knobs["slow"] = r.Dur(unit/100, 4*unit)
	}
	if unit != time.Second || r.Bool(0.5) {
		p.Knobs["period"] = period()
	}
	p.Knobs["meter"] = int64(r.PickW(3, 1))
	rec := int64(0)
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < per; i++ {
			switch r.PickW(10, 2, 2, 4, 3, 1, 1, 2, 1) {
			case 0:
				if rec < maxRecs {
					mask := r.I64(1, 7)
					if both {
						mask |= 3
					}
					ops = append(ops, Op{K: "rec", A: rec, B: combos + r.I64(0, nCombos-1), C: mask, D: r.I64(0, 7)})
					rec++
				}
			case 1:
				ops = append(ops, Op{K: "reg", A: ownView(r, c, nc), B: r.I64(0, 1)})
			case 2:
				ops = append(ops, Op{K: "unreg", A: ownView(r, c, nc)})
			case 3:
				ops = append(ops, Op{K: "get", A: r.I64(0, nViews-1)})
			case 4:
				ops = append(ops, Op{K: "read"})
			case 5:
				if c < nExps {
					ops = append(ops, Op{K: "exp", A: int64(c), B: p.Knobs["slow"] * r.I64(0, 1)})
				}
			case 6:
				if c < nExps {
					ops = append(ops, Op{K: "unexp", A: int64(c)})
				}
			case 7:
				ops = append(ops, Op{K: "sleep", A: r.Dur(unit/100, 12*unit)})
			case 8:
				if r.Bool(0.4) {
					ops = append(ops, Op{K: "period", A: period()})
				}
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	if own := maxRecs - rec; own > 0 && r.Bool(0.3) {
		p.Knobs["ownrecs"] = min(own, 4)
	}
	return p
}

// ownView picks a view that client c registers and unregisters.
func ownView(r *Rand, c, nc int) int64 {
	v := r.Intn((nViews + nc - 1 - c) / nc)
	return int64(v*nc + c)
}

func init() {
	Register(&Workload{
		Name: "view", Props: []string{"C01", "C02", "C03"}, Gen: genViewPlan, Weight: 4, MaxYields: 20000000,
		Run: func(h *H) {
			var meter view.Meter
			if h.K("meter") == 1 {
				meter = view.NewMeter()
				meter.Start()
			}
			vs := newViewSim(h, meter)
			for v := 0; v < nViews; v++ {
				if h.K("pre")&(1<<uint(v)) != 0 {
					vs.doRegister(v)
				}
			}
			vs.ownRecs = h.K("ownrecs")
			for e := 0; e < nExps; e++ {
				if h.K("preexp")&(1<<uint(e)) != 0 {
					vs.doRegExp(e, h.K("slow"))
				}
			}
			if h.K("period") > 0 {
				vs.exec(Op{K: "period", A: h.K("period")})
			}
			if !h.RunClients("C01", h.HangLimit(), func(c int, op Op) { vs.exec(op) }) {
				return
			}
			// everything recorded is in the final data
			for v := range vs.views {
				vs.doRetrieve(v)
			}
			vs.doRead()
			vs.judge()
		},
	})
}
