//go:build go1.23

package harness

import (
	"context"
	fmt "go.opencensus.io/verifsim/simfmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifsim/simrt"
)

// The spanbulk workload: spans that are given far more attributes,
// annotations, message events and links than they can hold, with the default
// limits and with others, and with values from the ends of their types. Each
// client has a span of its own, for which there is an exact model; there may
// be one that all of them write to, for which counts and orders are checked.

type bulkModel struct {
	limits                   [4]int // attributes, annotations, messages, links
	attrs                    []trAttr
	anns, msgs, links        []string
	dropA, dropN, dropM, drL int
	children                 int
}

func bulkPush(q *[]string, dropped *int, limit int, s string) {
	*q = append(*q, s)
	if len(*q) > limit {
		*q = (*q)[1:]
		*dropped++
	}
}

func (m *bulkModel) attr(a trAttr) {
	for i, o := range m.attrs {
		if o.k == a.k {
			m.attrs = append(append([]trAttr(nil), m.attrs[:i]...), m.attrs[i+1:]...)
			break
		}
	}
	m.attrs = append(m.attrs, a)
	if len(m.attrs) > m.limits[0] {
		m.attrs = m.attrs[1:]
		m.dropA++
	}
}

func bulkAttrs(as []trAttr) string {
	p := make([]string, len(as))
	for i, a := range as {
		p[i] = fmt.Sprintf("%q=%T:%v", a.k, a.v, a.v)
	}
	sort.Strings(p)
	return fmt.Sprint(p)
}

func bulkAttrMap(m map[string]any) string {
	var as []trAttr
	for k, v := range m {
		as = append(as, trAttr{k, v})
	}
	return bulkAttrs(as)
}

// bulkValue makes the n-th attribute value.
func bulkValue(k string, n int64) (trace.Attribute, trAttr) {
	switch n % 12 {
	case 0:
		v := []int64{math.MaxInt64, math.MinInt64, -1, 0}[n/12%4]
		return trace.Int64Attribute(k, v), trAttr{k, v}
	case 1:
		v := []float64{math.NaN(), math.Inf(1), math.Copysign(0, -1), math.MaxFloat64}[n/12%4]
		return trace.Float64Attribute(k, v), trAttr{k, v}
	case 2:
		v := []string{"", "\xff\xfe", "a\x00b", "%d %s"}[n/12%4]
		return trace.StringAttribute(k, v), trAttr{k, v}
	case 3, 4:
		return trace.BoolAttribute(k, n%12 == 3), trAttr{k, n%12 == 3}
	case 5, 6:
		return trace.Float64Attribute(k, float64(n)/8), trAttr{k, float64(n) / 8}
	case 7, 8:
		return trace.StringAttribute(k, sf("v%d", n)), trAttr{k, sf("v%d", n)}
	}
	return trace.Int64Attribute(k, n), trAttr{k, n}
}

type bulkSpan struct {
	name   string
	sp     *trace.Span
	ctx    context.Context
	m      *bulkModel
	shared bool
	ended  bool
	// of a shared span: how many were added, at least and at most
	lo, hi [4]int
	seq    [4]int64
	got    int
}

type bulkSim struct {
	h      *H
	store  traceStore
	limits [4]int
	spans  map[string]*bulkSpan
	order  []*bulkSpan
	n      int64
}

func (b *bulkSim) start(name string) *bulkSpan {
	s := &bulkSpan{name: name, m: &bulkModel{limits: b.limits}}
	s.ctx, s.sp = trace.StartSpan(context.Background(), name, trace.WithSampler(trace.AlwaysSample()))
	b.spans[name] = s
	b.order = append(b.order, s)
	return s
}

// add adds n items of a kind.
func (b *bulkSim) add(s *bulkSpan, who int, kind string, n, x int64) {
	for i := int64(0); i < n; i++ {
		v := x + i
		k := map[string]int{"attr": 0, "ann": 1, "annf": 1, "msgs": 2, "msgr": 2, "link": 3}[kind]
		if kind != "attr" {
			s.hi[k]++
		}
		switch kind {
		case "attr":
			// several at once, with keys that come back
			var as []trace.Attribute
			var rs []trAttr
			for j := v; j <= v+v%5; j++ {
				key := sf("k%d", j*7%64)
				switch j % 97 {
				case 0:
					key = ""
				case 1:
					key = "\xfe key"
				}
				if s.shared {
					key = sf("w%d-%s", who, key)
				}
				a, r := bulkValue(key, j)
				as, rs = append(as, a), append(rs, r)
			}
			s.sp.AddAttributes(as...)
			if !s.shared {
				for _, r := range rs {
					s.m.attr(r)
				}
			}
		case "ann", "annf":
			var as []trace.Attribute
			var rs []trAttr
			na := v % 4
			if v%17 == 9 {
				na = 40
			}
			for j := int64(0); j < na; j++ {
				a, r := bulkValue(sf("a%d", j), v+j)
				as, rs = append(as, a), append(rs, r)
			}
			id := v
			if s.shared {
				s.seq[who]++
				id = s.seq[who]
			}
			str := sf("w%d-%d", who, id)
			switch {
			case !s.shared && v%7 == 3 && kind == "ann":
				str = "" // an annotation without a message is one too
				s.sp.Annotate(as, str)
			case !s.shared && v%7 == 3:
				str = "100%" // a format without arguments
				s.sp.Annotatef(as, "100%%")
			case kind == "ann":
				str += "%d%"
				s.sp.Annotate(as, str)
			default:
				s.sp.Annotatef(as, "w%d-%d", who, id)
			}
			if !s.shared {
				bulkPush(&s.m.anns, &s.m.dropN, s.m.limits[1], str+" "+bulkAttrs(rs))
			}
		case "msgs", "msgr":
			id, u, c := v, v*v, v/2
			switch v % 11 {
			case 0:
				u, c = math.MaxInt64, math.MinInt64
			case 1:
				id = -v
			}
			t := trace.MessageEventTypeSent
			if kind == "msgs" {
				s.sp.AddMessageSendEvent(id, u, c)
			} else {
				t = trace.MessageEventTypeRecv
				s.sp.AddMessageReceiveEvent(id, u, c)
			}
			if !s.shared {
				bulkPush(&s.m.msgs, &s.m.dropM, s.m.limits[2], sf("%d %d %d %d", t, id, u, c))
			}
		case "link":
			l := trace.Link{Type: trace.LinkType(v % 4)}
			l.TraceID[0], l.TraceID[1], l.SpanID[0] = byte(v), byte(v>>8), byte(who)
			if v%3 > 0 {
				l.Attributes = map[string]any{"n": v}
			}
			s.sp.AddLink(l)
			if !s.shared {
				bulkPush(&s.m.links, &s.m.drL, s.m.limits[3], bulkLink(l))
			}
		}
		if kind != "attr" {
			s.lo[k]++
		}
	}
}

func bulkLink(l trace.Link) string {
	return sf("%x %x %d %s", l.TraceID, l.SpanID, l.Type, bulkAttrMap(l.Attributes))
}

// check compares the data of a span with the model.
func (b *bulkSim) check(s *bulkSpan, sd *trace.SpanData, at string) {
	h := b.h
	h.Checks++
	if s.shared {
		b.checkShared(s, sd, at)
		return
	}
	eq := func(prop, what, got, want string) bool {
		if got != want {
			h.Bad(prop, "bulk "+what, "%s of span %s %s (limits %v): %s, want %s", what, s.name, at, s.m.limits, got, want)
		}
		return got == want
	}
	eq("C09", "attributes", bulkAttrMap(sd.Attributes), bulkAttrs(s.m.attrs))
	eq("C09", "dropped", sf("%d %d %d %d", sd.DroppedAttributeCount, sd.DroppedAnnotationCount, sd.DroppedMessageEventCount, sd.DroppedLinkCount),
		sf("%d %d %d %d", s.m.dropA, s.m.dropN, s.m.dropM, s.m.drL))
	var anns, msgs, links []string
	for _, a := range sd.Annotations {
		anns = append(anns, a.Message+" "+bulkAttrMap(a.Attributes))
	}
	for _, m := range sd.MessageEvents {
		msgs = append(msgs, sf("%d %d %d %d", m.EventType, m.MessageID, m.UncompressedByteSize, m.CompressedByteSize))
	}
	for _, l := range sd.Links {
		links = append(links, bulkLink(l))
	}
	list := func(what string, got, want []string) {
		prop := "C08"
		if len(got) != len(want) {
			prop = "C09"
		}
		if !eq(prop, what, fmt.Sprint(got), fmt.Sprint(want)) && prop == "C08" {
			h.Bad("C09", "bulk "+what, "%s of span %s %s (limits %v): %v, want %v", what, s.name, at, s.m.limits, got, want)
		}
	}
	list("annotations", anns, s.m.anns)
	list("message events", msgs, s.m.msgs)
	list("links", links, s.m.links)
	eq("C08", "children", sf("%d", sd.ChildSpanCount), sf("%d", s.m.children))
}

func (b *bulkSim) checkShared(s *bulkSpan, sd *trace.SpanData, at string) {
	kept := []int{0, len(sd.Annotations), len(sd.MessageEvents), len(sd.Links)}
	dropped := []int{0, sd.DroppedAnnotationCount, sd.DroppedMessageEventCount, sd.DroppedLinkCount}
	for k := 1; k < 4; k++ {
		total := kept[k] + dropped[k]
		want := total
		if want > s.m.limits[k] {
			want = s.m.limits[k]
		}
		ok := total >= s.lo[k] && total <= s.hi[k] && kept[k] == want
		b.h.Check("C09", ok, "bulk shared counts", "span %s %s holds %d items of kind %d and dropped %d: the limit is %d and %d were added", s.name, at, kept[k], k, dropped[k], s.m.limits[k], s.lo[k])
	}
	b.h.Check("C09", len(sd.Attributes) <= s.m.limits[0], "bulk shared attributes", "span %s %s has %d attributes, the limit is %d", s.name, at, len(sd.Attributes), s.m.limits[0])
	last := map[int]int{}
	for _, a := range sd.Annotations {
		ws, ns, _ := strings.Cut(strings.TrimPrefix(a.Message, "w"), "-")
		w, err := strconv.Atoi(ws)
		if i := strings.IndexFunc(ns, func(r rune) bool { return r < '0' || r > '9' }); i >= 0 {
			ns = ns[:i]
		}
		n, err2 := strconv.Atoi(ns)
		if err != nil || err2 != nil {
			b.h.Bad("C08", "bulk shared annotation", "span %s has annotation %q", s.name, a.Message)
			continue
		}
		if n < last[w] {
			b.h.Bad("C08", "bulk shared order", "span %s: annotation %d of client %d comes after its %d", s.name, n, w, last[w])
		}
		last[w] = n
	}
}

// ExportSpan judges what is exported.
func (b *bulkSim) ExportSpan(sd *trace.SpanData) {
	s := b.spans[sd.Name]
	if s == nil { // a child
		return
	}
	s.got++
	b.check(s, sd, "when it ended")
}

func (b *bulkSim) end(s *bulkSpan) {
	if !s.ended {
		s.ended = true
		s.sp.End()
	}
}

func (b *bulkSim) exec(c int, op Op) {
	s := b.spans[sf("own%d", c)]
	if op.D == 1 && b.spans["shared"] != nil {
		s = b.spans["shared"]
	}
	switch op.K {
	case "child":
		if !s.shared {
			for i := int64(0); i < op.A; i++ {
				_, sp := trace.StartSpan(s.ctx, "child")
				s.m.children++
				if i%2 == 0 {
					sp.End()
				}
			}
		}
	case "look": // at the spans under way
		for _, t := range b.order {
			for _, sd := range b.store.ReportActiveSpans(t.name) {
				if t == s && !t.shared {
					b.check(t, sd, "under way")
					continue
				}
				n := [4]int{len(sd.Attributes), len(sd.Annotations), len(sd.MessageEvents), len(sd.Links)}
				for k := range n {
					b.h.Check("C09", n[k] <= t.m.limits[k], "bulk over the limit", "span %s under way: %d items of kind %d, limit %d", t.name, n[k], k, t.m.limits[k])
				}
			}
		}
	case "end":
		if !s.shared {
			b.end(s)
		}
	case "again": // the next span, with the same name, is another one
		if !s.shared && s.ended {
			b.h.Check("C08", s.got == 1, "bulk exports", "span %s was exported %d times", s.name, s.got)
			for i, o := range b.order {
				if o == s {
					b.order = append(append([]*bulkSpan(nil), b.order[:i]...), b.order[i+1:]...)
					break
				}
			}
			b.start(s.name)
		}
	case "limits":
		// for the spans to come; those that are there keep theirs
		b.apply([4]int{int(op.A & 255), int(op.A >> 8 & 255), int(op.A >> 16 & 255), int(op.A >> 24 & 255)})
	default:
		if !s.ended {
			b.add(s, c, op.K, op.A, op.B)
		} else if !s.shared { // has no effect
			m := s.m
			s.m = &bulkModel{limits: m.limits}
			b.add(s, c, op.K, op.A, op.B)
			s.m = m
		}
	}
}

func (b *bulkSim) apply(l [4]int) {
	trace.ApplyConfig(trace.Config{MaxAttributesPerSpan: l[0], MaxAnnotationEventsPerSpan: l[1], MaxMessageEventsPerSpan: l[2], MaxLinksPerSpan: l[3]})
	for i := range l {
		if l[i] > 0 {
			b.limits[i] = l[i]
		}
	}
}

func genBulk(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{"limits": 0, "shared": int64(r.Intn(2))}}
	lim := func() int64 {
		var l int64
		for i := 0; i < 4; i++ {
			v := int64(0)
			if r.Bool(0.5) {
				v = r.I64(1, []int{6, 40, 150}[r.Intn(3)])
			}
			l |= v << uint(8*i)
		}
		return l
	}
	if r.Bool(0.5) {
		p.Knobs["limits"] = lim()
	}
	nc := r.PickW(0, 4, 2, 1)
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := r.Range(2, 8); i > 0; i-- {
			d := int64(0)
			if r.Bool(0.3) {
				d = 1
			}
			n := r.I64(1, 8)
			switch r.PickW(4, 3, 1) {
			case 1:
				n = r.I64(20, 50)
			case 2:
				n = r.I64(100, 150)
			}
			switch r.PickW(12, 2, 2, 1, 1, 1) {
			case 0:
				ops = append(ops, Op{K: r.Pick("attr", "ann", "annf", "msgs", "msgr", "link"), A: n, B: r.I64(0, 600), D: d})
			case 1:
				ops = append(ops, Op{K: "child", A: n})
			case 2:
				ops = append(ops, Op{K: "look"})
			case 3:
				ops = append(ops, Op{K: "end"})
			case 4:
				ops = append(ops, Op{K: "again"})
			case 5:
				if nc == 1 {
					ops = append(ops, Op{K: "limits", A: lim()})
				}
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "spanbulk", Props: []string{"C08", "C09"}, Gen: genBulk, Weight: 1,
		Run: func(h *H) {
			b := &bulkSim{h: h, store: internal.Trace.(traceStore), spans: map[string]*bulkSpan{}}
			b.limits = [4]int{trace.DefaultMaxAttributesPerSpan, trace.DefaultMaxAnnotationEventsPerSpan, trace.DefaultMaxMessageEventsPerSpan, trace.DefaultMaxLinksPerSpan}
			internal.LocalSpanStoreEnabled = true
			trace.RegisterExporter(b)
			if l := h.K("limits"); l != 0 {
				b.exec(0, Op{K: "limits", A: l})
			}
			for c := range h.P.Clients {
				b.start(sf("own%d", c))
			}
			if h.K("shared") == 1 {
				b.start("shared").shared = true
			}
			if !h.RunClients("C08", h.HangLimit(), b.exec) {
				return
			}
			b.exec(0, Op{K: "look"})
			for _, s := range b.order {
				b.end(s)
				h.Check("C08", s.got == 1, "bulk exports", "span %s was exported %d times", s.name, s.got)
			}
			trace.UnregisterExporter(b)
			simrt.Log("done", 0)
		},
	})
}
