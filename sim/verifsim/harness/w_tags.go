//go:build go1.23

package harness

import (
	"context"
	"errors"
	"runtime/pprof"
	"strings"
	_ "unsafe" // for go:linkname

	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifsim/simrt"
)

// The tags workload: goroutines derive a tree of contexts from each other's,
// record with them, run code under their profiler labels and encode them. A
// model keeps what each context must hold for ever.

//go:linkname goroutineLabels runtime/pprof.runtime_getProfLabel
func goroutineLabels() uintptr

type tgVal struct {
	v    string
	prop bool // propagates
}

type tgNode struct {
	id     int
	ctx    context.Context
	has    bool // holds a tag map at all
	tags   map[string]tgVal
	labels map[string]string
	str    string
	enc    map[string]string
}

type tgSim struct {
	h       *H
	keys    []tag.Key
	more    []tag.Key // for large tag maps
	nodes   []*tgNode
	measure *stats.Int64Measure
	other   *stats.Int64Measure // in no view
	want    map[*view.View]records
	views   []*view.View
	pool    map[int]*tgMutator // shared by goroutines
	n       int
	caught  []tgCaught
	tasks   []*simrt.Task
}

// tgCaught is a tag map handed to a recorder.
type tgCaught struct {
	m    *tag.Map
	tags map[string]tgVal
}

type tgRecorder struct {
	s    *tgSim
	tags map[string]tgVal
}

func (r tgRecorder) Record(m *tag.Map, ms interface{}, _ map[string]interface{}) {
	simrt.Y()
	r.s.caught = append(r.s.caught, tgCaught{m, r.tags})
}

// tgMutator lets others run, and can fail.
type tgMutator struct {
	m   tag.Mutator
	err error
}

func (t tgMutator) Mutate(m *tag.Map) (*tag.Map, error) {
	simrt.Y()
	if t.err != nil {
		return nil, t.err
	}
	m, err := t.m.Mutate(m)
	simrt.Y()
	return m, err
}

var (
	tgErr   = errors.New("no")
	tgPanic = "panic in labelled code"
)

// A mutation takes twelve bits.
type tgMut struct{ kind, key, val, ttl, wrap, shared, last int }

func (m tgMut) bits() int {
	var w bitw
	w.add(2, m.kind).add(3, m.key).add(3, m.val).add(2, m.ttl).add(1, m.wrap).add(1, m.shared)
	return int(w.v)
}

func tgMutBits(x int) tgMut {
	b := bitr{uint64(x)}
	return tgMut{kind: b.n(2), key: b.n(3), val: b.n(3), ttl: b.n(2), wrap: b.n(1), shared: b.n(1)}
}

var tgLong = strings.Repeat("x", 255)

func (s *tgSim) value(c int, key int) (string, bool) {
	switch c {
	case 0:
		return "", true
	case 1:
		return tgLong, true
	case 2:
		return " ~!\\\"", true
	case 3:
		s.n++
		return sf("n%d", s.n), true
	case 4:
		return tgLong + "x", false
	case 5:
		return "caf\u00e9", false
	case 6:
		return "a\nb", false
	}
	return sf("k%d", key), true
}

// mutators turns an argument into mutators and what they do to a model, which
// is nil if they fail.
func (s *tgSim) mutators(base map[string]tgVal, arg int64) ([]tag.Mutator, map[string]tgVal) {
	tags := map[string]tgVal{}
	for k, v := range base {
		tags[k] = v
	}
	var ms []tag.Mutator
	ok := true
	for x := uint64(arg); x != 0; x >>= 12 {
		m := tgMutBits(int(x & 0xfff))
		if m.key >= len(s.keys) { // one that fails
			m.kind, m.key = 3, 0
			if m.val == 7 {
				h := s.h
				h.Fault("mutator that fails")
				ms = append(ms, tgMutator{nil, tgErr})
				ok = false
				continue
			}
		}
		if m.shared == 1 && m.val == 3 {
			m.val = 7
		}
		k := s.keys[m.key]
		val, valid := s.value(m.val, m.key)
		var md []tag.Metadata
		prop := true
		switch m.ttl {
		case 1:
			md, prop = append(md, tag.WithTTL(tag.TTLNoPropagation)), false
		case 2:
			md = append(md, tag.WithTTL(tag.TTLUnlimitedPropagation))
		case 3: // the last one counts
			md, prop = append(md, tag.WithTTL(tag.TTLUnlimitedPropagation), tag.WithTTL(tag.TTLNoPropagation)), false
		}
		if len(md) > 0 && m.val%2 == 1 {
			md = append([]tag.Metadata{nil}, md...)
		}
		if !valid && m.kind != 3 {
			s.h.Fault("invalid tag value")
			ok = false
		}
		var mu tag.Mutator
		_, present := tags[k.Name()]
		set := false
		switch m.kind {
		case 0:
			mu, set = tag.Insert(k, val, md...), !present
		case 1:
			mu, set = tag.Update(k, val, md...), present
		case 2:
			mu, set = tag.Upsert(k, val, md...), true
		case 3:
			mu = tag.Delete(k)
			delete(tags, k.Name())
		}
		if set {
			tags[k.Name()] = tgVal{val, prop}
		}
		if m.shared == 1 {
			b := m.bits()
			if s.pool[b] == nil {
				s.pool[b] = give(&tgMutator{mu, nil})
			}
			mu = take(s.pool[b]).m
		}
		if m.wrap == 1 {
			mu = tgMutator{mu, nil}
		}
		ms = append(ms, mu)
	}
	if !ok {
		return ms, nil
	}
	return ms, tags
}

func (s *tgSim) node(i int64) *tgNode { return take(s.nodes[int(uint64(i)%uint64(len(s.nodes)))]) }

func (s *tgSim) add(ctx context.Context, has bool, tags map[string]tgVal, labels map[string]string) *tgNode {
	n := &tgNode{id: len(s.nodes), ctx: ctx, has: has, tags: tags, labels: labels}
	n.str = tag.FromContext(ctx).String()
	s.nodes = append(s.nodes, give(n))
	s.check(n, "new")
	return n
}

// check compares a context with the model.
func (s *tgSim) check(n *tgNode, when string) {
	h := s.h
	m := tag.FromContext(n.ctx)
	if !h.Check("C18", (m != nil) == n.has, "map", "%s: context %d has a tag map: %v", when, n.id, m != nil) {
		return
	}
	for i := range len(s.keys) + len(s.more) {
		k := append(s.keys[:len(s.keys):len(s.keys)], s.more...)[i]
		v, ok := m.Value(k)
		w, in := n.tags[k.Name()]
		h.Check("C18", ok == in && v == w.v, "tags", "%s: context %d has %s=%.20q (%v); want %.20q (%v)", when, n.id, k.Name(), v, ok, w.v, in)
	}
	str := m.String()
	h.Check("C18", str == n.str, "changed", "%s: context %d was %.200s and is now %.200s", when, n.id, n.str, str)
	enc, ok := rgDecode(tag.Encode(m))
	want := map[string]string{}
	for k, v := range n.tags {
		if v.prop {
			want[k] = v.v
		}
	}
	h.Check("C18", ok && rgSameTags(enc, want), "propagated", "%s: context %d propagates %v (%v); want %v", when, n.id, enc, ok, want)
}

// many changes many tags at once: n of them from the a-th on.
func (s *tgSim) many(p *tgNode, a, n, mode int64) {
	var ms []tag.Mutator
	tags := map[string]tgVal{}
	for k, v := range p.tags {
		tags[k] = v
	}
	for i := a; i < a+n; i++ {
		k := s.more[i%int64(len(s.more))]
		v := sf("m%d-%d", s.n, i)
		_, in := tags[k.Name()]
		switch mode % 4 {
		case 0, 1:
			var md []tag.Metadata
			if mode%4 == 1 && i%3 == 0 {
				md = append(md, tag.WithTTL(tag.TTLNoPropagation))
			}
			ms = append(ms, tag.Upsert(k, v, md...))
			tags[k.Name()] = tgVal{v, md == nil}
		case 2:
			ms = append(ms, tag.Insert(k, v))
			if !in {
				tags[k.Name()] = tgVal{v, true}
			}
		case 3:
			ms = append(ms, tag.Delete(k))
			delete(tags, k.Name())
		}
	}
	s.n++
	s.derived(p, ms, tags)
}

func (s *tgSim) derive(p *tgNode, arg int64) *tgNode {
	ms, tags := s.mutators(p.tags, arg)
	return s.derived(p, ms, tags)
}

func (s *tgSim) derived(p *tgNode, ms []tag.Mutator, tags map[string]tgVal) *tgNode {
	h := s.h
	simrt.Log("derive", p.id)
	ctx, err := tag.New(p.ctx, ms...)
	simrt.Log("derived", err == nil)
	if tags == nil {
		h.Check("C18", err != nil, "no-error", "an invalid change of context %d was taken", p.id)
		if ctx != nil { // it still holds what it held
			h.Check("C18", tag.FromContext(ctx) == tag.FromContext(p.ctx), "failed-changes", "a failed change of context %d returned another one", p.id)
		}
		s.check(p, "after failure")
		return p
	}
	if !h.Check("C18", err == nil && ctx != nil, "error", "a valid change of context %d failed: %v", p.id, err) {
		return p
	}
	if v := p.ctx.Value(tgCtxKey{}); v != nil {
		h.Check("C18", ctx.Value(tgCtxKey{}) == v, "other-values", "context %d lost its other values", p.id)
	}
	return s.add(ctx, true, tags, p.labels)
}

type tgCtxKey struct{}

func tgFlat(tags map[string]tgVal) map[string]string {
	m := map[string]string{}
	for k, v := range tags {
		m[k] = v.v
	}
	return m
}

func (s *tgSim) record(p *tgNode, arg, mode int64) {
	h := s.h
	s.n++
	id := int64(s.n)
	x := float64(id)
	add := func(tags map[string]tgVal) {
		for _, v := range s.views {
			s.want[v].add(v, tgFlat(tags), x, x, nil)
		}
	}
	simrt.Log("record", p.id)
	switch mode {
	case 0:
		add(p.tags)
		stats.Record(p.ctx, s.measure.M(id))
		return
	case 1:
		ms, tags := s.mutators(p.tags, arg)
		if tags != nil {
			add(tags)
		}
		err := stats.RecordWithTags(p.ctx, ms, s.measure.M(id))
		h.Check("C18", (err == nil) == (tags != nil), "record-error", "recording with tags returned %v", err)
	case 2:
		ms, tags := s.mutators(p.tags, arg)
		n := len(s.caught)
		err := stats.RecordWithOptions(p.ctx, stats.WithTags(ms...), stats.WithMeasurements(s.other.M(1), s.measure.M(id)), stats.WithRecorder(tgRecorder{s, tags}))
		h.Check("C18", (err == nil) == (tags != nil), "record-error", "recording with options returned %v", err)
		if tags == nil && len(s.caught) > n && err != nil {
			for _, c := range s.caught[n:] {
				h.Check("C18", c.tags != nil, "failed-recorded", "a recording that failed was recorded")
			}
		}
	case 3: // mutators with an exemplar's attachments
		ms, tags := s.mutators(p.tags, arg)
		if tags != nil {
			add(tags)
		}
		err := stats.RecordWithOptions(p.ctx, stats.WithMeasurements(s.measure.M(id)), stats.WithAttachments(map[string]interface{}{"x": id}), stats.WithTags(ms...))
		h.Check("C18", (err == nil) == (tags != nil), "record-error", "recording with options returned %v", err)
	}
	s.check(p, "after recording")
}

// labelled checks the labels a goroutine runs with: setting those of its
// context must change nothing.
func (s *tgSim) labelled(n *tgNode, ctx context.Context, when string) {
	h := s.h
	got := map[string]string{}
	twice := false
	pprof.ForLabels(ctx, func(k, v string) bool {
		_, in := got[k]
		twice = twice || in
		got[k] = v
		return true
	})
	h.Check("C18", rgSameTags(got, n.labels) && !twice, "labels", "%s context %d: labels %v; want %v", when, n.id, got, n.labels)
	a := goroutineLabels()
	pprof.SetGoroutineLabels(ctx)
	b := goroutineLabels()
	h.Check("C18", a == b, "goroutine-labels", "%s context %d: the goroutine's labels are not its context's", when, n.id)
}

// do runs code under the labels of a context. What it does is in arg.
func (s *tgSim) do(p *tgNode, arg int64, depth int) {
	h := s.h
	x := bitr{uint64(arg)}
	what, sub, panics, d, deriveFirst := x.n(2), x.n(12), x.n(1), x.n(4), x.n(1)
	simrt.Log("do", p.id)
	pprof.SetGoroutineLabels(p.ctx)
	labels := map[string]string{}
	for k, v := range p.labels {
		labels[k] = v
	}
	for k, v := range p.tags {
		labels[k] = v.v
	}
	ran := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if r != any(tgPanic) {
					panic(r)
				}
				h.Check("C18", panics == 1, "panic", "labelled code did not panic")
			} else if !simrt.Killing() {
				h.Check("C18", panics == 0, "panic-lost", "labelled code panicked and %d lost it", p.id)
			}
		}()
		tag.Do(p.ctx, func(ctx context.Context) {
			ran++
			n := s.add(ctx, p.has, p.tags, labels)
			s.labelled(n, ctx, "in")
			simrt.Sleep(durClass(d))
			if deriveFirst == 1 {
				n = s.derive(n, int64(sub))
			}
			switch what {
			case 0:
				s.derive(n, int64(sub))
			case 1:
				s.record(n, int64(sub), int64(sub)%4)
			case 2:
				if depth < 3 {
					s.do(n, arg>>4, depth+1)
				}
			case 3: // a goroutine inherits the labels
				s.tasks = append(s.tasks, simrt.Spawn(sf("inner%d", n.id), func() {
					s.labelled(n, n.ctx, "in a goroutine of")
					s.derive(n, int64(sub))
					s.check(n, "in a goroutine")
				}))
			}
			s.labelled(n, ctx, "still in")
			if panics == 1 {
				h.Fault("panic in labelled code")
				panic(tgPanic)
			}
		})
	}()
	h.Check("C18", ran == 1, "not-run", "labelled code ran %d times", ran)
	s.labelled(p, p.ctx, "after")
	if depth == 0 {
		pprof.SetGoroutineLabels(context.Background())
	}
}

func (s *tgSim) op(c int, op Op) {
	p := s.node(op.A)
	switch op.K {
	case "derive":
		s.derive(p, op.B)
	case "many":
		s.many(p, op.B, op.C, op.D)
	case "record":
		s.record(p, op.B, op.C%4)
	case "do":
		s.do(p, op.B, 0)
	case "read":
		s.check(p, "read")
	case "codec": // what arrives elsewhere
		m := tag.FromContext(p.ctx)
		got, err := tag.Decode(tag.Encode(m))
		tags := map[string]tgVal{}
		for k, v := range p.tags {
			if v.prop {
				tags[k] = v
			}
		}
		if s.h.Check("C18", err == nil, "decode", "the tags of context %d do not decode: %v", p.id, err) {
			s.add(tag.NewContext(p.ctx, got), true, tags, p.labels)
		}
	case "share": // a tag map in another context
		q := s.node(op.B)
		if q.has {
			s.add(tag.NewContext(p.ctx, tag.FromContext(q.ctx)), true, q.tags, p.labels)
		}
	case "span":
		ctx, _ := trace.StartSpan(p.ctx, "s")
		s.add(context.WithValue(ctx, tgCtxKey{}, s.n), p.has, p.tags, p.labels)
	case "sleep":
		simrt.Sleep(op.A)
	}
}

func (s *tgSim) run() {
	h := s.h
	s.want = map[*view.View]records{}
	s.pool = map[int]*tgMutator{}
	for i := 0; i < 6; i++ {
		s.keys = append(s.keys, tag.MustNewKey([]string{"a", "b", "c", "a ", "ab", strings.Repeat("k", 255)}[i]))
	}
	for i := int64(0); i < h.K("more"); i++ {
		s.more = append(s.more, tag.MustNewKey(sf("x%02d", i)))
	}
	s.measure = stats.Int64("tags/m", "", "1")
	s.other = stats.Int64("tags/other", "", "1")
	for i := int64(0); i < h.K("views"); i++ {
		v := &view.View{Name: sf("v%d", i), Measure: s.measure, Aggregation: view.Distribution(), TagKeys: append([]tag.Key(nil), s.keys[i:]...)}
		if i == 1 {
			v.Aggregation = view.Count()
			v.TagKeys = append(v.TagKeys, s.more...)
		}
		s.views = append(s.views, v)
		s.want[v] = newRecords()
	}
	view.SetReportingPeriod(vpIdle) // nothing is exported
	if err := view.Register(s.views...); err != nil {
		h.Bad("C18", "register", "%v", err)
		return
	}
	s.add(context.Background(), false, nil, nil)
	if ctx, err := tag.New(context.Background()); h.Check("C18", err == nil, "error", "%v", err) {
		s.add(ctx, true, nil, nil)
	}
	s.derive(s.nodes[0], h.K("base1"))
	s.derive(s.nodes[2%len(s.nodes)], h.K("base2"))
	if !h.RunClients("C18", h.HangLimit(), s.op) {
		return
	}
	for i := 0; i < len(s.tasks); i++ {
		if !h.JoinAll("C18", h.HangLimit(), s.tasks[i:i+1]) {
			return
		}
	}
	for _, n := range s.nodes {
		s.check(n, "at the end")
	}
	for _, c := range s.caught {
		for _, k := range s.keys {
			v, ok := c.m.Value(k)
			w, in := c.tags[k.Name()]
			h.Check("C18", ok == in && v == w.v, "recorder-tags", "a recorder was given %s=%.20q (%v); want %.20q (%v)", k.Name(), v, ok, w.v, in)
		}
	}
	view.Find("")
	for _, v := range s.views {
		rows, err := view.RetrieveData(v.Name)
		if h.Check("C18", err == nil, "retrieve", "%v", err) {
			s.want[v].judge(h, "C18", v, rows)
		}
	}
}

func genTagsPlan(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	k := p.Knobs
	k["views"] = r.I64(1, 3)
	bad := []float64{0, 0.05, 0.3}[r.Intn(3)]
	nkeys := r.Range(1, 6)
	muts := func(max int) int64 {
		var x int64
		for i := r.Range(0, max); i > 0; i-- {
			m := tgMut{kind: r.PickW(3, 2, 3, 2), key: r.Intn(nkeys), val: r.PickW(1, 1, 1, 6, 0, 0, 0, 2), ttl: r.PickW(4, 2, 1, 1), wrap: r.Intn(2), shared: r.PickW(3, 1)}
			if r.Bool(bad) {
				if r.Bool(0.3) {
					m.key, m.val = 7, 7
				} else {
					m.val = r.Range(4, 6)
				}
			}
			x = x<<12 | int64(m.bits())
		}
		return x
	}
	k["base1"], k["base2"] = muts(5), muts(3)
	nc := r.Range(2, 4)
	per := r.Range(2, 8)
	if deep {
		per = r.Range(2, 25)
	}
	if r.Bool(0.2) {
		k["more"] = r.I64(4, 60)
	}
	recent := r.Bool(0.5) // derive from the few first
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < per; i++ {
			a := r.I64(0, 40)
			if recent {
				a = r.I64(0, 3)
			}
			if k["more"] > 0 && r.Bool(0.3) {
				ops = append(ops, Op{K: "many", A: a, B: r.I64(0, 60), C: r.I64(1, int(k["more"])), D: r.I64(0, 3)})
				continue
			}
			switch r.PickW(10, 5, 4, 3, 1, 1, 1, 1) {
			case 0:
				ops = append(ops, Op{K: "derive", A: a, B: muts(5)})
			case 1:
				ops = append(ops, Op{K: "record", A: a, B: muts(3), C: r.I64(0, 3)})
			case 2:
				var w bitw
				w.add(2, r.Intn(4)).add(12, int(muts(1))).add(1, r.PickW(5, 1)).add(4, r.Intn(6)).add(1, r.Intn(2))
				ops = append(ops, Op{K: "do", A: a, B: int64(w.v)})
			case 3:
				ops = append(ops, Op{K: "read", A: a})
			case 4:
				ops = append(ops, Op{K: "codec", A: a})
			case 5:
				ops = append(ops, Op{K: "share", A: a, B: r.I64(0, 40)})
			case 6:
				ops = append(ops, Op{K: "span", A: a})
			case 7:
				ops = append(ops, Op{K: "sleep", A: r.Dur(1000, 1e9)})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "tags", Props: []string{"C18"}, Gen: genTagsPlan, Weight: 1,
		Run: func(h *H) { (&tgSim{h: h}).run() },
	})
}
