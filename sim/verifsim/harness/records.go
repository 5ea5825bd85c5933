//go:build go1.23

package harness

import (
	"math"
	"sort"
	"strings"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifsim/simrt"
)

// expect is one recording a view should have, its value known within bounds.
type expect struct {
	lo, hi float64
	sc     *trace.SpanContext // of the span it was recorded under
}

// records is what a view should have, by tags.
type records map[string][]expect

func newRecords() records { return records{} }

func tagKey(m map[string]string) string {
	var ks []string
	for k, v := range m {
		if v != "" {
			ks = append(ks, k+"="+v)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// add expects a record whose context had the tags given.
func (w records) add(v *view.View, tags map[string]string, lo, hi float64, sc *trace.SpanContext) {
	m := map[string]string{}
	for _, k := range v.TagKeys {
		m[k.Name()] = tags[k.Name()]
	}
	k := tagKey(m)
	w[k] = append(w[k], expect{lo, hi, sc})
}

// judge compares a view's rows with what they should be.
func (w records) judge(h *H, prop string, v *view.View, rows []*view.Row) {
	name := v.Name
	latency := strings.HasSuffix(v.Measure.Name(), "latency")
	seen := map[string]bool{}
	for _, r := range rows {
		m := map[string]string{}
		for _, t := range r.Tags {
			m[t.Key.Name()] = t.Value
		}
		k := tagKey(m)
		h.Check(prop, !seen[k], "row-twice", "%s: two rows with tags {%s}", name, k)
		seen[k] = true
		es := w[k]
		var count, sum, mn, mx float64
		var dd *view.DistributionData
		switch d := r.Data.(type) {
		case *view.DistributionData:
			dd = d
			count, sum, mn, mx = float64(d.Count), d.Sum(), d.Min, d.Max
		case *view.CountData:
			count = float64(d.Value)
		}
		if !h.Check(prop, len(es) == int(count), "record-count", "%s: %v records with tags {%s}; %d should have them", name, count, k, len(es)) || dd == nil {
			continue
		}
		var lo, hi float64
		mlo, mhi := math.Inf(1), math.Inf(-1)
		for _, e := range es {
			lo += e.lo
			hi += e.hi
			mlo = min(mlo, e.lo)
			mhi = max(mhi, e.hi)
		}
		const eps = 1e-6
		p := prop
		if latency {
			p = "C11"
		}
		ok := sum >= lo-eps-1e-9*math.Abs(lo) && sum <= hi+eps+1e-9*math.Abs(hi) && mn >= mlo-eps && mx <= mhi+eps
		h.Check(prop, ok, "record-value", "%s {%s}: sum %v (min %v, max %v); the values sum to between %v and %v, each between %v and %v", name, k, sum, mn, mx, lo, hi, mlo, mhi)
		if p != prop {
			h.Check(p, ok, "latency", "%s {%s}: sum %v (min %v, max %v); it took between %v and %v", name, k, sum, mn, mx, lo, hi)
		}
		for _, x := range dd.ExemplarsPerBucket {
			if x == nil {
				continue
			}
			sc, has := x.Attachments[metricdata.AttachmentKeySpanContext].(trace.SpanContext)
			fits := false
			any := false
			for _, e := range es {
				if e.sc == nil {
					fits = true
					continue
				}
				any = true
				if x.Value >= e.lo-eps && x.Value <= e.hi+eps && has == e.sc.IsSampled() && (!has || sc == *e.sc) {
					fits = true
				}
			}
			if any {
				h.Check(prop, fits, "exemplar", "%s {%s}: exemplar %v with span %v %x fits no record", name, k, x.Value, has, sc.SpanID[:])
			}
		}
	}
	for k, es := range w {
		if !seen[k] {
			h.Check(prop, false, "record-missing", "%s: no record with tags {%s}; %d should have them", name, k, len(es))
		}
	}
}

// setTag puts a tag into tags, which has no such tag if it cannot hold the value.
func setTag(tags map[string]string, k, v string) {
	if len(v) > 255 || strings.IndexFunc(v, func(r rune) bool { return r < ' ' || r > '~' }) >= 0 {
		simrt.Probe("reached: a name that no tag can hold")
		delete(tags, k)
		return
	}
	tags[k] = v
}
