//go:build go1.23

package harness

import (
	"context"
	"errors"
	"html"
	"log"
	"net/http"
	"net/url"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"google.golang.org/grpc/status"

	"go.opencensus.io/stats/view"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifsim/simrt"
	"go.opencensus.io/verifsim/simsync"
	"go.opencensus.io/zpages"
)

// The zpages workload: RPCs (see the grpc workload) and spans come and go while
// readers fetch the pages, some of them slow, stalled, or gone half way.

type zpSpan struct {
	id      int
	name    string
	sid     trace.SpanID
	started iv
	ended   *iv
	code    int32
	span    *trace.Span
}

// Faults of a page's reader.
const (
	zpClean = iota
	zpSlow
	zpStalled
	zpBroken
	zpPanics
)

var zpErr = errors.New("broken pipe")

type zpWriter struct {
	s      *zpSim
	mode   int
	at     int // the write the fault happens at
	writes int
	code   int
	header http.Header
	b      strings.Builder
}

func (w *zpWriter) Header() http.Header { return w.header }
func (w *zpWriter) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}

func (w *zpWriter) Write(p []byte) (int, error) {
	simrt.Y()
	w.WriteHeader(200)
	w.writes++
	switch {
	case w.mode == zpSlow:
		simrt.Sleep(int64(time.Millisecond) * int64(w.at+1))
	case w.mode == zpStalled && w.writes == w.at+1:
		w.s.h.Fault("page reader stalls")
		w.s.gate.Lock()
		w.s.gate.Unlock()
	case w.mode == zpBroken && w.writes > w.at:
		w.s.h.Fault("page reader gone")
		n := len(p) / 2
		w.b.Write(p[:n])
		return n, zpErr
	case w.mode == zpPanics && w.writes == w.at+1:
		w.s.h.Fault("page writer panics")
		panic(http.ErrAbortHandler)
	}
	w.b.Write(p)
	return len(p), nil
}

type zpSim struct {
	rgSim
	mux     http.Handler
	prefix  string
	spans   []*zpSpan
	own     map[int][]*zpSpan
	gate    simsync.Mutex // held until stalled readers go on
	readers []*simrt.Task
	logged  []string
	best    map[zpMethod]zpRow // counts shown by pages that were done
	n       int
	t0      int64
	quiet   bool // nothing is going on any more
	exports map[trace.SpanID]*trace.SpanData
}

// Write is the log's output.
func (s *zpSim) Write(p []byte) (int, error) {
	s.logged = append(s.logged, string(p))
	return len(p), nil
}

var zpNames = []string{"n0", "a b", `<b>&"'q`, "p\u00e4th/x?y=1&z=2#w%41+", "pkg.Svc.Get"}

// all lists every span there was, as they are now: what judges by it may yield.
func (s *zpSim) all() []*zpSpan {
	var out []*zpSpan
	for _, z := range s.spans {
		c := *z
		out = append(out, &c)
	}
	for _, r := range s.sides {
		if r.tagged.ret == 0 {
			continue // it is not even being started
		}
		z := &zpSpan{name: strings.ReplaceAll(r.method[1:], "/", "."), sid: r.sc.SpanID, started: r.tagged, ended: r.ended}
		if r.err != nil {
			st, _ := status.FromError(r.err)
			z.code = int32(st.Code())
		}
		out = append(out, z)
	}
	return out
}

func (z *zpSpan) bounds(s *zpSim) (lo, hi int64) {
	if sd := s.exported2(z.sid); sd != nil {
		d := int64(sd.EndTime.Sub(sd.StartTime))
		return d, d
	}
	return max(0, z.ended.t0-z.started.t1), z.ended.t1 - z.started.t0
}

func (s *zpSim) exported2(id trace.SpanID) *trace.SpanData {
	for len(s.exports) < len(s.exported) {
		sd := s.exported[len(s.exports)]
		s.exports[sd.SpanID] = sd
	}
	return s.exports[id]
}

// ---------------------------------------------------------------- pages

// get fetches a page.
func (s *zpSim) get(u string, w *zpWriter) {
	r, err := http.NewRequest("GET", u, nil)
	if err != nil {
		s.h.Bad("C20", "url", "%v", err)
		return
	}
	s.mux.ServeHTTP(w, r)
}

type zpPage struct {
	iv
	kind        int
	name        string
	typ, sub    int
	w           *zpWriter
	body        string
	num         int
	rows        []zpSpanRow
	methods     map[zpMethod]zpRow
	summary     map[string]zpSummary
	links       []zpLink
	wellFormed  bool
	broken, doc bool
}

const (
	zpRpcz = iota
	zpRpczText
	zpRpczEmbedded
	zpTracez
	zpTracezText
	zpSummaryEmbedded
	zpSummaryText
	zpKinds
)

// fetch renders one page. A page that was not disturbed must be whole.
func (s *zpSim) fetch(kind int, name string, typ, sub int, mode, at int) *zpPage {
	h := s.h
	p := &zpPage{kind: kind, name: name, typ: typ, sub: sub}
	p.w = &zpWriter{s: s, mode: mode, at: at, header: http.Header{}}
	nlog := len(s.logged)
	p.iv = begin("page", kind)
	func() {
		if mode == zpPanics {
			defer func() {
				if r := recover(); r != nil && !strings.Contains(sp(r), http.ErrAbortHandler.Error()) {
					panic(r)
				}
			}()
		}
		switch kind {
		case zpRpcz:
			s.get(path.Join(s.prefix, "rpcz"), p.w)
		case zpRpczText:
			zpages.WriteTextRpczPage(p.w)
		case zpRpczEmbedded:
			zpages.WriteHTMLRpczSummary(p.w)
		case zpTracez:
			u := path.Join(s.prefix, "tracez")
			if name != "" {
				u += "?" + url.Values{"zspanname": {name}, "ztype": {strconv.Itoa(typ)}, "zsubtype": {strconv.Itoa(sub)}}.Encode()
			}
			s.get(u, p.w)
		case zpTracezText:
			zpages.WriteTextTracezSpans(p.w, name, typ, sub)
		case zpSummaryEmbedded:
			zpages.WriteHTMLTracezSummary(p.w)
		case zpSummaryText:
			zpages.WriteTextTracezSummary(p.w)
		}
	}()
	p.end("page done")
	p.body = p.w.b.String()
	if mode == zpBroken || mode == zpPanics {
		return p
	}
	if mode == zpClean {
		h.Check("C20", len(s.logged) == nlog || s.disturbed(), "page-error", "rendering page %d failed: %q", kind, s.logged[nlog:])
	}
	h.Check("C20", p.w.code == 200, "page-status", "page %d of %s was answered with status %d: %.100q", kind, s.prefix, p.w.code, p.body)
	doc := kind == zpRpcz || kind == zpTracez
	if doc {
		ok := strings.HasPrefix(p.body, "<!DOCTYPE html>") && strings.HasSuffix(strings.TrimSpace(p.body), "</html>")
		ct := p.w.header.Get("Content-Type")
		if !h.Check("C20", ok && strings.HasPrefix(ct, "text/html"), "page-incomplete", "page %d is incomplete (%d bytes, %s): %.60q ... %q", kind, len(p.body), ct, p.body, tail(p.body, 60)) {
			return p
		}
	}
	switch kind {
	case zpRpcz, zpRpczEmbedded:
		p.wellFormed = s.parseRpcz(p)
	case zpRpczText:
		p.wellFormed = s.parseRpczText(p)
	case zpTracez:
		i := strings.Index(p.body, "</table>")
		if i < 0 {
			break
		}
		p.wellFormed = s.parseSummary(p, p.body[:i]) && (name == "" || s.parseSpans(p, p.body[i:]))
	case zpTracezText:
		p.wellFormed = s.parseSpansText(p)
	case zpSummaryEmbedded:
		p.wellFormed = s.parseSummary(p, p.body)
	case zpSummaryText:
		p.wellFormed = s.parseSummaryText(p)
	}
	if !h.Check("C20", p.wellFormed, "page-malformed", "page %d cannot be read: %.3000s", kind, p.body) {
		return p
	}
	if p.methods != nil {
		s.judgeMethods(p)
	}
	if p.summary != nil {
		s.judgeSummary(p)
	}
	if (kind == zpTracez && name != "") || kind == zpTracezText {
		s.judgeSpans(p)
	}
	return p
}

// disturbed reports whether some reader may have made a page fail.
func (s *zpSim) disturbed() bool { return s.h.K("broken") != 0 }

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type zpMethod struct {
	name string
	recv bool
}

// zpMethodOf is the line an RPC is counted in; methods that no tag can hold
// share one without a name.
func zpMethodOf(r *rgSide) zpMethod {
	tags := map[string]string{}
	setTag(tags, "m", strings.TrimLeft(r.method, "/"))
	return zpMethod{tags["m"], !r.client}
}

// zpRow is one method's line: count, average latency (ms), calls, bytes in and
// out per second, errors; what a page rounds to in eps.
type zpRow struct {
	count, errors       float64
	avg, rate, in, out  float64
	eavg, erate, ebytes float64
}

var (
	zpGroupRE = regexp.MustCompile(`<font size=\+2>(Sent|Received)</font>`)
	zpHeadRE  = regexp.MustCompile(`(Input|Output) \(([^)]*)\)`)
	zpRowRE   = regexp.MustCompile(`(?s)<tr>\s*<td><b>(.*?)</b></td>(.*?)</tr>`)
	zpCellRE  = regexp.MustCompile(`(?s)<td align="right">(.*?)</td>`)
	zpUnits   = map[string]float64{"kb/s": 1e3, "kB/s": 1e3, "KB/s": 1e3, "MB/s": 1e6, "KiB/s": 1 << 10, "MiB/s": 1 << 20, "B/s": 1}
)

func zpNum(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	if s == "" {
		return 0, true
	}
	m := 1.0
	if i := strings.IndexByte("MGTPE", s[len(s)-1]); i >= 0 {
		for ; i >= 0; i-- {
			m *= 1000
		}
		m *= 1000
		s = strings.TrimSpace(s[:len(s)-1])
	}
	x, err := strconv.ParseFloat(s, 64)
	return x * m, err == nil
}

func (s *zpSim) parseRpcz(p *zpPage) bool {
	p.methods = map[zpMethod]zpRow{}
	at := zpGroupRE.FindAllStringSubmatchIndex(p.body, -1)
	if len(at) != 2 {
		return false
	}
	for i, g := range at {
		end := len(p.body)
		if i == 0 {
			end = at[1][0]
		}
		part := p.body[g[1]:end]
		recv := p.body[g[2]:g[3]] == "Received"
		if recv != (i == 1) {
			return false
		}
		units := zpHeadRE.FindAllStringSubmatch(part, -1)
		if len(units) != 2 || zpUnits[units[0][2]] == 0 || zpUnits[units[1][2]] == 0 {
			return false
		}
		last := ""
		for _, m := range zpRowRE.FindAllStringSubmatch(part, -1) {
			cells := zpCellRE.FindAllStringSubmatch(m[2], -1)
			if len(cells) != 18 {
				return false
			}
			var x [18]float64
			for j, c := range cells {
				var ok bool
				if x[j], ok = zpNum(c[1]); !ok {
					return false
				}
			}
			key := zpMethod{html.UnescapeString(m[1]), recv}
			s.h.Check("C20", key.name >= last, "method-order", "methods are not in order")
			last = key.name
			r := zpRow{count: x[2], errors: x[17], avg: x[5], rate: x[8], in: x[11] * zpUnits[units[0][2]], out: x[14] * zpUnits[units[1][2]], eavg: 0.00051, erate: 0.00051, ebytes: 0.00051 * zpUnits[units[0][2]]}
			if r.avg >= 10 {
				r.eavg = 1
			}
			if _, twice := p.methods[key]; twice {
				return false
			}
			p.methods[key] = r
		}
	}
	return true
}

func (s *zpSim) parseRpczText(p *zpPage) bool {
	p.methods = map[zpMethod]zpRow{}
	i := strings.Index(p.body, "\nReceived:\n")
	if !strings.HasPrefix(p.body, "Sent:\n") || i < 0 {
		return false
	}
	for k, part := range []string{p.body[len("Sent:\n"):i], p.body[i+len("\nReceived:\n"):]} {
		lines := strings.Split(strings.TrimRight(part, "\n"), "\n")
		if len(lines) < 2 {
			return false
		}
		var units [2]float64
		for j, x := range []string{"In", "Out"} {
			m := regexp.MustCompile(x + ` \(([^)]*)\)`).FindStringSubmatch(lines[0])
			if m == nil || zpUnits[m[1]] == 0 {
				return false
			}
			units[j] = zpUnits[m[1]]
		}
		last := ""
		for _, l := range lines[2:] {
			if strings.TrimSpace(l) == "" {
				continue
			}
			f := strings.Fields(l)
			if l[0] == ' ' { // a method no tag can hold
				f = append([]string{""}, f...)
			}
			if len(f) != 19 {
				return false
			}
			var x [19]float64
			for j := 1; j < 19; j++ {
				if j >= 4 && j < 7 {
					d, err := time.ParseDuration(f[j])
					if err != nil {
						return false
					}
					x[j] = float64(d) / 1e6
					continue
				}
				var err error
				if x[j], err = strconv.ParseFloat(f[j], 64); err != nil {
					return false
				}
			}
			key := zpMethod{f[0], k == 1}
			s.h.Check("C20", key.name >= last, "method-order", "methods are not in order")
			last = key.name
			if _, twice := p.methods[key]; twice {
				return false
			}
			p.methods[key] = zpRow{count: x[3], errors: x[18], avg: x[6], rate: x[9], in: x[12] * units[0], out: x[15] * units[1], eavg: 1e-5, erate: 0.0051, ebytes: 0.0051 * units[0]}
		}
	}
	return true
}

type zpSummary struct {
	active  int
	latency []int
	errors  int
}

type zpLink struct {
	name string
	href string
	n    int
}

var (
	zpSumRowRE = regexp.MustCompile(`(?s)<tr(?: style="background: #eee")?>\s*<td>(.*?)</td>(.*?)</tr>`)
	zpLinkRE   = regexp.MustCompile(`<a href="([^"]*)">(\d+)<`)
	zpBuckets  = []time.Duration{0, 10 * time.Microsecond, 100 * time.Microsecond, time.Millisecond, 10 * time.Millisecond, 100 * time.Millisecond, time.Second, 10 * time.Second, time.Minute}
)

func (s *zpSim) parseSummary(p *zpPage, body string) bool {
	p.summary = map[string]zpSummary{}
	last := ""
	for _, m := range zpSumRowRE.FindAllStringSubmatch(body, -1) {
		name := html.UnescapeString(m[1])
		var x []int
		for _, l := range zpLinkRE.FindAllStringSubmatch(m[2], -1) {
			n, _ := strconv.Atoi(l[2])
			x = append(x, n)
			p.links = append(p.links, zpLink{name, html.UnescapeString(l[1]), n})
		}
		if len(x) != len(zpBuckets)+2 {
			return false
		}
		if _, twice := p.summary[name]; twice {
			return false
		}
		s.h.Check("C20", name >= last, "name-order", "span names are not in order")
		last = name
		p.summary[name] = zpSummary{x[0], x[1 : len(x)-1], x[len(x)-1]}
	}
	return true
}

func (s *zpSim) parseSummaryText(p *zpPage) bool {
	p.summary = map[string]zpSummary{}
	lines := strings.Split(strings.TrimRight(p.body, "\n"), "\n")
	if len(lines) < 1 || !strings.HasPrefix(lines[0], "Locally sampled") {
		return false
	}
	if len(lines) < 3 {
		return true
	}
	for _, l := range lines[3:] {
		f := strings.Fields(l)
		n := len(zpBuckets) + 2
		if len(f) <= n {
			return false
		}
		var x []int
		for _, c := range f[len(f)-n:] {
			v := 0
			if c != "." {
				var err error
				if v, err = strconv.Atoi(c); err != nil {
					return false
				}
			}
			x = append(x, v)
		}
		name := strings.Join(f[:len(f)-n], " ")
		if _, twice := p.summary[name]; twice {
			return false
		}
		p.summary[name] = zpSummary{x[0], x[1 : len(x)-1], x[len(x)-1]}
	}
	return true
}

// zpSpanRow is a span on a page.
type zpSpanRow struct {
	trace, span, parent string
	when, elapsed       string
	details             [][3]string
}

var (
	zpIDsRE  = regexp.MustCompile(`trace_id: ([0-9a-f]{32}) span_id: ([0-9a-f]{16})(?: parent_span_id: ([0-9a-f]{16}))?$`)
	zpBoldRE = regexp.MustCompile(`<b style="color:(?:blue|black)">([0-9a-f]*)</b>`)
	zpNumRE  = regexp.MustCompile(`<p>(\d+) Requests</p>`)
	zpSpanRE = regexp.MustCompile(`<p><b>Span Name: (.*?) </b></p>`)
)

func (p *zpPage) addLine(when, elapsed, text string) bool {
	if m := zpIDsRE.FindStringSubmatch(text); m != nil && strings.HasPrefix(text, "trace_id") {
		p.rows = append(p.rows, zpSpanRow{trace: m[1], span: m[2], parent: m[3], when: when, elapsed: elapsed})
		return true
	}
	if len(p.rows) == 0 {
		return false
	}
	r := &p.rows[len(p.rows)-1]
	r.details = append(r.details, [3]string{when, elapsed, text})
	return true
}

func (s *zpSim) parseSpans(p *zpPage, body string) bool {
	m := zpNumRE.FindStringSubmatch(body)
	name := zpSpanRE.FindStringSubmatch(body)
	i, j := strings.Index(body, "<pre>\n"), strings.Index(body, "</pre>")
	if m == nil || name == nil || i < 0 || j < 0 || html.UnescapeString(name[1]) != p.name {
		return false
	}
	p.num, _ = strconv.Atoi(m[1])
	lines := strings.Split(body[i+6:j], "\n")
	if len(lines) < 2 {
		return false
	}
	for _, l := range lines[2:] {
		if l == "" {
			continue
		}
		l = html.UnescapeString(zpBoldRE.ReplaceAllString(l, "$1"))
		if len(l) < 40 || !p.addLine(strings.TrimSpace(l[:26]), strings.TrimSpace(l[27:39]), l[40:]) {
			return false
		}
	}
	return true
}

func (s *zpSim) parseSpansText(p *zpPage) bool {
	lines := strings.Split(strings.TrimRight(p.body, "\n"), "\n")
	e, t := strings.Index(lines[0], "Elapsed(s)"), strings.Index(lines[0], "Type")
	if e < 0 || t < 0 {
		return false
	}
	for _, l := range lines[1:] {
		if len(l) < t {
			l += strings.Repeat(" ", t-len(l))
		}
		if !p.addLine(strings.TrimSpace(l[:e]), strings.TrimSpace(l[e:t]), l[t:]) {
			return false
		}
	}
	p.num = len(p.rows)
	return true
}

// ---------------------------------------------------------------- oracle

func (s *zpSim) judgeMethods(p *zpPage) {
	h := s.h
	done := map[zpMethod]zpRow{}
	for _, r := range s.sides {
		if r.ended == nil || r.ended.inv > p.ret {
			continue
		}
		k := zpMethodOf(r)
		x := done[k]
		x.count++
		if r.err != nil {
			x.errors++
		}
		done[k] = x
	}
	for k, x := range p.methods {
		d, ok := done[k]
		if !h.Check("C20", ok, "method-unknown", "page %d shows %q (received %v); no such RPC was made", p.kind, k.name, k.recv) {
			continue
		}
		h.Check("C20", x.count <= d.count && x.errors <= d.errors, "method-count", "page %d shows %v calls of %s (received %v), %v of them failed; there were %v and %v", p.kind, x.count, k.name, k.recv, x.errors, d.count, d.errors)
	}
	for k, b := range s.best {
		if b.eavg < float64(p.inv) { // seen before this began
			x := p.methods[k]
			h.Check("C20", x.count >= b.count && x.errors >= b.errors, "method-lost", "page %d shows %v calls (%v failed) of %s (received %v) after %v (%v) were shown", p.kind, x.count, x.errors, k.name, k.recv, b.count, b.errors)
		}
	}
	for k, x := range p.methods {
		b, ok := s.best[k]
		if !ok || (x.count >= b.count && x.errors >= b.errors) {
			s.best[k] = zpRow{count: x.count, errors: x.errors, eavg: float64(p.ret)}
		}
	}
}

// bucket is where a duration belongs.
func zpBucket(d int64) int {
	i := len(zpBuckets) - 1
	for i > 0 && d < int64(zpBuckets[i]) {
		i--
	}
	return i
}

func (s *zpSim) judgeSummary(p *zpPage) {
	h := s.h
	type bound struct {
		startedBefore, startedMaybe bool
		alo, ahi                    int
		lo, hi                      []int // certainly and possibly ended by latency
		elo, ehi                    int
		codes                       map[int32]bool
	}
	bs := map[string]*bound{}
	for _, z := range s.all() {
		b := bs[z.name]
		if b == nil {
			b = &bound{lo: make([]int, len(zpBuckets)), hi: make([]int, len(zpBuckets)), codes: map[int32]bool{}}
			bs[z.name] = b
		}
		if z.started.inv < p.ret {
			b.startedMaybe = true
			if z.ended == nil || z.ended.ret > p.inv {
				b.ahi++
			}
		}
		if z.started.ret < p.inv {
			b.startedBefore = true
			if z.ended == nil || z.ended.inv > p.ret {
				b.alo++
			}
		}
		if z.ended == nil || z.ended.inv > p.ret {
			continue
		}
		sure := z.ended.ret < p.inv
		if z.code != 0 {
			b.ehi++
			if sure {
				b.elo++
				b.codes[z.code] = true
			}
			continue
		}
		l, u := z.bounds(s)
		i, j := zpBucket(l), zpBucket(u)
		for k := i; k <= j; k++ {
			b.hi[k]++
		}
		if i == j && sure {
			b.lo[i]++
		}
	}
	for name, x := range p.summary {
		b := bs[name]
		if !h.Check("C20", b != nil && b.startedMaybe, "name-unknown", "page %d shows span name %q, which there was not", p.kind, name) {
			continue
		}
		h.Check("C20", x.active >= b.alo && x.active <= b.ahi, "active-count", "page %d shows %d running spans %q; there were between %d and %d", p.kind, x.active, name, b.alo, b.ahi)
		for i, n := range x.latency {
			h.Check("C20", n <= b.hi[i] && (n > 0 || b.lo[i] == 0), "latency-count", "page %d shows %d spans %q of at least %v; between %d and %d ended", p.kind, n, name, zpBuckets[i], b.lo[i], b.hi[i])
		}
		h.Check("C20", x.errors <= b.ehi && x.errors >= len(b.codes), "error-count", "page %d shows %d failed spans %q; between %d and %d failed", p.kind, x.errors, name, b.elo, b.ehi)
	}
	for name, b := range bs {
		if b.startedBefore {
			_, ok := p.summary[name]
			h.Check("C20", ok, "name-missing", "page %d does not show span name %q", p.kind, name)
		}
	}
}

// zpElapsed reads an elapsed time, in microseconds.
func zpElapsed(e string) (int64, bool) {
	if strings.HasSuffix(e, "s") {
		n, err := strconv.ParseInt(e[:len(e)-1], 10, 64)
		return n * 1e6, err == nil
	}
	i := strings.IndexByte(e, '.')
	if i < 0 {
		return 0, false
	}
	var sec int64
	if a := strings.TrimSpace(e[:i]); a != "" {
		var err error
		if sec, err = strconv.ParseInt(a, 10, 64); err != nil {
			return 0, false
		}
	}
	us, err := strconv.ParseInt(strings.TrimSpace(e[i+1:]), 10, 64)
	return sec*1e6 + us, err == nil
}

func (s *zpSim) judgeSpans(p *zpPage) {
	h := s.h
	byID := map[string]*zpSpan{}
	all := s.all()
	for _, z := range all {
		byID[z.sid.String()] = z
	}
	h.Check("C20", p.num == len(p.rows), "request-count", "page %d says %d requests and lists %d", p.kind, p.num, len(p.rows))
	seen := map[string]bool{}
	for _, r := range p.rows {
		z := byID[r.span]
		if z == nil {
			// one whose start has not returned has no identity yet
			for _, x := range all {
				if x.sid == (trace.SpanID{}) && x.name == p.name && x.started.inv < p.ret {
					z = x
					break
				}
			}
		}
		if !h.Check("C20", z != nil && z.name == p.name && z.started.inv < p.ret && !seen[r.span], "span-unknown", "page %d lists span %s under %q, where it does not belong (%+v, twice: %v, page %d)", p.kind, r.span, p.name, z, seen[r.span], p.ret) {
			continue
		}
		seen[r.span] = true
		ended := z.ended != nil && z.ended.inv < p.ret
		switch p.typ {
		case 0:
			h.Check("C20", z.ended == nil || z.ended.ret > p.inv, "span-not-running", "page %d lists span %s as running, which had ended", p.kind, r.span)
			h.Check("C20", r.elapsed == "", "running-elapsed", "page %d shows %q as time of the running span %s", p.kind, r.elapsed, r.span)
			continue
		case 1:
			if h.Check("C20", ended && z.code == 0, "span-not-ok", "page %d lists span %s by latency (ended %v, code %d)", p.kind, r.span, ended, z.code) && p.sub >= 0 && p.sub < len(zpBuckets) {
				lo, hi := z.bounds(s)
				min, max := int64(zpBuckets[p.sub]), int64(1)<<62
				if p.sub+1 < len(zpBuckets) {
					max = int64(zpBuckets[p.sub+1])
				}
				h.Check("C20", lo < max && hi >= min, "span-latency", "page %d lists span %s, which took between %d and %d, in bucket %d", p.kind, r.span, lo, hi, p.sub)
			}
		case 2:
			h.Check("C20", ended && z.code != 0 && (p.sub == 0 || z.code == int32(p.sub)), "span-not-failed", "page %d lists span %s as failed with code %d (0: any); ended %v with code %d", p.kind, r.span, p.sub, ended, z.code)
		}
		if sd := s.exported2(z.sid); sd != nil && ended {
			s.judgeSpanRow(p, r, sd)
		}
	}
	if p.typ == 0 {
		for _, z := range all {
			if z.name == p.name && z.sid != (trace.SpanID{}) && z.started.ret < p.inv && (z.ended == nil || z.ended.inv > p.ret) {
				h.Check("C20", seen[z.sid.String()], "span-missing", "page %d does not list running span %s of %q", p.kind, z.sid, z.name)
			}
		}
	}
	if p.typ == 2 {
		for _, z := range all {
			if z.name == p.name && z.ended != nil && z.ended.ret < p.inv && z.code != 0 && (p.sub == 0 || int32(p.sub) == z.code) {
				h.Check("C20", len(p.rows) > 0, "no-failed", "page %d lists no failed spans of %q with code %d (0: any)", p.kind, z.name, p.sub)
				break
			}
		}
	}
}

func zpAttrs(a map[string]interface{}) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		if v, ok := a[k].(string); ok {
			out = append(out, sf("%s=%q", k, v))
		} else {
			out = append(out, sf("%s=%v", k, a[k]))
		}
	}
	return "Attributes:{" + strings.Join(out, ", ") + "}"
}

// judgeSpanRow compares what a page says of a span with what was exported.
func (s *zpSim) judgeSpanRow(p *zpPage, r zpSpanRow, sd *trace.SpanData) {
	h := s.h
	const layout = "2006/01/02-15:04:05.000000"
	parent := ""
	if sd.ParentSpanID != (trace.SpanID{}) {
		parent = sd.ParentSpanID.String()
	}
	h.Check("C20", r.trace == sd.TraceID.String() && r.parent == parent, "span-ids", "page %d shows span %s in trace %s with parent %q; exported were %s and %q", p.kind, r.span, r.trace, r.parent, sd.TraceID, parent)
	h.Check("C20", r.when == sd.StartTime.Format(layout), "span-start", "page %d shows span %s starting at %s; it started %s", p.kind, r.span, r.when, sd.StartTime.Format(layout))
	d := int64(sd.EndTime.Sub(sd.StartTime))
	e, ok := zpElapsed(r.elapsed)
	h.Check("C20", ok && (e == d/1000 || d/1000 > 99999999999 && e/1e6 == d/1e9), "span-elapsed", "page %d shows span %s taking %q; it took %dns", p.kind, r.span, r.elapsed, d)
	rows := r.details
	next := func(text, what string) {
		if len(text) > 1024 {
			text = text[:1024]
		}
		if !h.Check("C20", len(rows) > 0 && strings.TrimSpace(rows[0][2]) == strings.TrimSpace(text), "span-"+what, "page %d shows for span %s %.200q; want %s %.200q", p.kind, r.span, rows, what, text) {
			rows = nil
			return
		}
		rows = rows[1:]
	}
	if sd.Status != (trace.Status{}) {
		code := sf("error code %d", sd.Status.Code)
		if sd.Status.Code >= 0 && sd.Status.Code < 17 {
			code = []string{"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}[sd.Status.Code]
		}
		next(sf("Status{canonicalCode=%s, description=%q}", code, sd.Status.Message), "status")
	}
	if len(sd.Attributes) > 0 {
		next(zpAttrs(sd.Attributes), "attributes")
	}
	// the events in order of time
	type event struct {
		t    time.Time
		text string
		used bool
	}
	var es []event
	for _, a := range sd.Annotations {
		text := a.Message
		if len(a.Attributes) > 0 {
			text += "  " + zpAttrs(a.Attributes)
		}
		if len(text) > 1024 {
			text = text[:1024]
		}
		es = append(es, event{t: a.Time, text: strings.TrimSpace(text)})
	}
	for _, m := range sd.MessageEvents {
		verb := "sent"
		if m.EventType == trace.MessageEventTypeRecv {
			verb = "received"
		}
		es = append(es, event{t: m.Time, text: sf("%s message [%d bytes, %d compressed bytes]", verb, m.UncompressedByteSize, m.CompressedByteSize)})
	}
	if !h.Check("C20", len(rows) == len(es), "span-events", "page %d shows %d events of span %s; it has %d", p.kind, len(rows), r.span, len(es)) {
		return
	}
	last, day := sd.StartTime, sd.StartTime.Format(layout[:10])
	for _, row := range rows {
		text := strings.TrimSpace(row[2])
		var e *event
		for i := range es {
			if x := &es[i]; !x.used && x.text == text && (e == nil || x.t.Before(e.t)) {
				e = x
			}
		}
		if !h.Check("C20", e != nil, "span-event", "page %d shows for span %s %.200q, which it does not have", p.kind, r.span, text) {
			return
		}
		e.used = true
		us, ok := zpElapsed(row[1])
		d := int64(e.t.Sub(last))
		h.Check("C20", ok && d >= 0 && (us == d/1000 || d/1000 > 99999999999 && us/1e6 == d/1e9), "event-elapsed", "page %d shows for span %s %.100q after %q; it was %dns", p.kind, r.span, text, row[1], d)
		w := row[0]
		want := e.t.Format("15:04:05.000000")
		if y := e.t.Format(layout[:10]); y != day { // the day is shown where it changes
			want, day = e.t.Format(layout), y
			simrt.Probe("reached: span row of another day")
		}
		h.Check("C20", w == want, "event-time", "page %d shows for span %s %.100q at %q; it was at %s", p.kind, r.span, text, w, e.t.Format(layout))
		last = e.t
	}
}

// exact reports what of an RPC page is not what it must come to be; from and to
// bound when it was last updated.
func (s *zpSim) exact(p *zpPage, from int64) string {
	type want struct{ n, errs, lo, hi, in, out float64 }
	w := map[zpMethod]want{}
	for _, r := range s.sides {
		if r.ended == nil {
			continue
		}
		k := zpMethodOf(r)
		x := w[k]
		x.n++
		if r.err != nil {
			x.errs++
		}
		x.lo += float64(r.ended.t0-r.tagged.t1) / 1e6
		x.hi += float64(r.ended.t1-r.tagged.t0) / 1e6
		in, in2 := r.totals(false, true)
		out, out2 := r.totals(true, true)
		if in != in2 || out != out2 { // messages came while it ended
			x.in, x.out = -1e18, -1e18
		}
		x.in += in
		x.out += out
		w[k] = x
	}
	age0, age1 := float64(from)/1e9, float64(p.t1)/1e9
	for k, x := range w {
		r, ok := p.methods[k]
		if !ok {
			return sf("%s (received %v) is not shown", k.name, k.recv)
		}
		if r.count != x.n || r.errors != x.errs {
			return sf("%s (received %v): %v calls, %v failed; there were %v and %v", k.name, k.recv, r.count, r.errors, x.n, x.errs)
		}
		if r.avg < x.lo/x.n-r.eavg || r.avg > x.hi/x.n+r.eavg {
			return sf("%s (received %v): average latency %v; want between %v and %v", k.name, k.recv, r.avg, x.lo/x.n, x.hi/x.n)
		}
		rate := func(what string, got, n, eps float64) string {
			if n < 0 {
				return ""
			}
			if got < n/age1-eps || got > n/age0+eps {
				return sf("%s (received %v): %v %s per second; %v in %v to %v seconds", k.name, k.recv, got, what, n, age0, age1)
			}
			return ""
		}
		for _, e := range []string{rate("calls", r.rate, x.n, r.erate), rate("bytes in", r.in, x.in, r.ebytes), rate("bytes out", r.out, x.out, r.ebytes)} {
			if e != "" {
				return e
			}
		}
	}
	return ""
}

func (s *zpSim) settle() {
	h := s.h
	simrt.Calm()
	period := h.K("period")
	if period == 0 {
		period = int64(10 * time.Second)
	}
	from := mnow() - s.t0 // the program started before t0
	for k := 0; ; k++ {
		simrt.Sleep(2 * period)
		p := s.fetch([]int{zpRpcz, zpRpczText, zpRpczEmbedded}[(k+int(h.K("first")))%3], "", 0, 0, zpClean, 0)
		if !p.wellFormed {
			return
		}
		wrong := s.exact(p, from)
		if wrong == "" {
			break
		}
		if k > 40 {
			h.Bad("C20", "rpcz-wrong", "page %d, long after everything was done: %s\n%.3000s", p.kind, wrong, p.body)
			return
		}
	}
	// every link of the summary leads to as many spans as it says
	p := s.fetch(zpTracez, "", 0, 0, zpClean, 0)
	for i, l := range p.links {
		if h.K("links") == 0 && i%3 != int(h.P.Seed%3) {
			continue
		}
		base, _ := url.Parse(path.Join(s.prefix, "tracez"))
		u, err := base.Parse(l.href)
		if !h.Check("C20", err == nil && u.Path == base.Path && u.Query().Get("zspanname") == l.name, "link", "the summary links %q for %q", l.href, l.name) {
			continue
		}
		q := u.Query()
		typ, _ := strconv.Atoi(q.Get("ztype"))
		sub, _ := strconv.Atoi(q.Get("zsubtype"))
		kind := zpTracez
		if i%2 == 0 {
			kind = zpTracezText
		}
		d := s.fetch(kind, l.name, typ, sub, zpClean, 0)
		h.Check("C20", len(d.rows) == l.n, "link-count", "the summary says %d spans for %q, type %d, subtype %d; its link shows %d", l.n, l.name, typ, sub, len(d.rows))
	}
	for _, z := range s.all() {
		if z.ended != nil && z.code != 0 {
			s.fetch(zpTracez, z.name, 2, int(z.code), zpClean, 0)
			break
		}
	}
}

// ---------------------------------------------------------------- activity

func (s *zpSim) op(c int, op Op) {
	h := s.h
	switch op.K {
	case "rpc", "sleep", "jump":
		s.clientOp(c, op)
	case "start":
		z := &zpSpan{id: len(s.spans), name: zpNames[int(op.A)%len(zpNames)], started: begin("start", len(s.spans))}
		smp := trace.AlwaysSample()
		if op.B&1 != 0 {
			smp = trace.NeverSample()
		}
		ctx := context.Background()
		if own := s.own[c]; op.B&2 != 0 && len(own) > 0 {
			ctx = trace.NewContext(ctx, own[len(own)-1].span)
		}
		s.spans = append(s.spans, z)
		_, z.span = trace.StartSpan(ctx, z.name, trace.WithSampler(smp))
		z.started.end("started")
		z.sid = z.span.SpanContext().SpanID
		s.own[c] = append(s.own[c], z)
	case "many":
		for i := int64(0); i < op.A; i++ {
			name := sf("many %02d", i*7%op.A)
			z := &zpSpan{id: len(s.spans), name: name, started: begin("start", len(s.spans))}
			s.spans = append(s.spans, z)
			_, z.span = trace.StartSpan(context.Background(), name, trace.WithSampler(trace.AlwaysSample()))
			z.started.end("started")
			z.sid = z.span.SpanContext().SpanID
			s.own[c] = append(s.own[c], z)
			if (i*op.C+op.B)%5 != 0 {
				s.op(c, Op{K: "finish", A: int64(len(s.own[c]) - 1), B: (i*op.D + op.C) % 5 * ((i + op.B) % 3)})
			}
		}
	case "note":
		own := s.own[c]
		if len(own) == 0 {
			return
		}
		z := own[int(op.A)%len(own)]
		for i := int64(0); i <= op.C; i++ {
			s.n++
			switch (op.B + i*op.D) % 6 {
			case 0:
				z.span.Annotate(nil, sf("note %d <&>", s.n))
			case 1:
				z.span.Annotate([]trace.Attribute{trace.StringAttribute("k", "v \"x\""), trace.Int64Attribute("n", int64(s.n))}, sf("note %d", s.n))
			case 2:
				z.span.AddMessageSendEvent(int64(s.n), int64(s.n), int64(s.n)/2)
			case 3:
				z.span.AddMessageReceiveEvent(int64(s.n), int64(s.n), int64(s.n)/2)
			case 4:
				z.span.AddAttributes(trace.StringAttribute(sf("k%d", s.n%3), "<i>"), trace.BoolAttribute("b", true), trace.Float64Attribute("f", float64(s.n)))
			case 5:
				z.span.Annotate(nil, sf("note %d %s", s.n, strings.Repeat("long ", 300)))
			}
		}
	case "finish":
		own := s.own[c]
		if len(own) == 0 {
			return
		}
		z := own[int(op.A)%len(own)]
		if z.ended != nil {
			return
		}
		z.code = int32(op.B)
		if op.B != 0 {
			z.span.SetStatus(trace.Status{Code: z.code, Message: "failed <1>"})
		} else if op.C != 0 {
			z.span.SetStatus(trace.Status{Message: "it <worked>"})
		}
		v := begin("finish", z.id)
		z.ended = &v
		z.span.End()
		v.end("finished")
	case "period":
		view.SetReportingPeriod(time.Duration(op.A))
	case "page":
		kind, name := int(op.A)%zpKinds, ""
		typ, sub := int(op.C&3), int(op.C>>2)
		if op.B >= 0 {
			name = append([]string{"pkg.Svc.Get", "a.B.C", "no such", "caller"}, zpNames...)[int(op.B)%(4+len(zpNames))]
		}
		mode, at := int(op.D&7), int(op.D>>3)
		if mode == zpStalled {
			s.readers = append(s.readers, simrt.Spawn(sf("reader%d", len(s.readers)), func() { s.fetch(kind, name, typ, sub, mode, at) }))
			return
		}
		s.fetch(kind, name, typ, sub, mode, at)
	}
	_ = h
}

func (s *zpSim) run() {
	h := s.h
	log.SetOutput(s)
	s.t0 = mnow()
	s.gate.Lock()
	s.own, s.best, s.exports = map[int][]*zpSpan{}, map[zpMethod]zpRow{}, map[trace.SpanID]*trace.SpanData{}
	s.setup()
	s.caller = func() func(*trace.Span) {
		z := &zpSpan{id: len(s.spans), name: "caller", started: begin("caller", nil)}
		s.spans = append(s.spans, z)
		return func(sp *trace.Span) {
			z.started.end("caller started")
			z.sid = sp.SpanContext().SpanID
		}
	}
	s.scale = int(max(1, h.K("scale")))
	if h.K("prefix") != 0 {
		s.prefix = "/debug"
		mux := http.NewServeMux()
		zpages.Handle(mux, s.prefix)
		s.mux = mux
	} else {
		s.prefix = "/"
		s.mux = zpages.Handler
	}
	if d := h.K("period"); d > 0 {
		view.SetReportingPeriod(time.Duration(d))
	}
	if !h.RunClients("C20", h.HangLimit(), s.op) {
		return
	}
	for i := 0; i < len(s.tasks); i++ {
		if !h.JoinAll("C20", h.HangLimit(), s.tasks[i:i+1]) {
			return
		}
	}
	if d := h.K("period"); d > 0 {
		view.SetReportingPeriod(time.Duration(d))
	}
	done := simrt.Spawn("settle", s.settle)
	if !h.JoinAll("C20", 4*h.HangLimit(), []*simrt.Task{done}) {
		return
	}
	s.gate.Unlock()
	h.JoinAll("C20", h.HangLimit(), s.readers)
}

func genZpagesPlan(r *Rand, deep bool) *Plan {
	p := genGRPCPlan(r, false)
	k := p.Knobs
	k["period"] = int64([]time.Duration{0, time.Second, 3 * time.Second, 10 * time.Second}[r.Intn(4)])
	k["prefix"], k["first"], k["links"] = r.I64(0, 1), r.I64(0, 2), r.I64(0, 1)
	if r.Bool(0.5) {
		k["scale"] = []int64{1000, 100003, 10000019}[r.Intn(3)]
	}
	faults := r.Bool(0.5)
	if faults {
		k["broken"] = 1
	}
	periods := r.Bool(0.2)
	jumps := 0
	if r.Bool(0.3) {
		jumps = 2
	}
	days := jumps > 0 && r.Bool(0.5)
	heavy := r.Bool(0.2) || days
	manyMethods, manyNames := r.Bool(0.06), r.Bool(0.08)
	if manyMethods {
		k["methods"] = r.I64(5, 40)
	}
	for c := range p.Clients {
		rpcs := p.Clients[c]
		if manyMethods {
			rpcs = nil
			for len(rpcs) < 12 && len(p.Clients[c]) > 0 {
				rpcs = append(rpcs, p.Clients[c]...)
			}
		}
		var ops []Op
		if manyNames && r.Bool(0.5) {
			ops = append(ops, Op{K: "many", A: r.I64(10, 40), B: r.I64(0, 9), C: r.I64(0, 9), D: r.I64(0, 9)})
		}
		n := r.Range(2, 10)
		if deep {
			n = r.Range(2, 30)
		}
		started := 0
		for i := 0; i < n || len(rpcs) > 0; i++ {
			if len(rpcs) > 0 && (i >= n || r.Bool(0.4)) {
				ops = append(ops, rpcs[0])
				rpcs = rpcs[1:]
				continue
			}
			switch r.PickW(4, 4, 3, 6, 2, 1, jumps) {
			case 6:
				d := r.Dur(time.Millisecond, 1000*time.Hour)
				if days {
					d = int64(r.Range(6, 40)) * int64(time.Hour)
				} else if r.Bool(0.5) {
					d = -d
				}
				ops = append(ops, Op{K: "jump", A: d})
			case 0:
				ops = append(ops, Op{K: "start", A: r.I64(0, 4), B: int64(r.PickW(5, 1, 2, 1))})
				started++
			case 1:
				if started > 0 {
					o := Op{K: "note", A: r.I64(0, 7), B: r.I64(0, 5), D: r.I64(0, 5)}
					if heavy {
						o.C = r.I64(0, 40)
					} else if r.Bool(0.3) {
						o.C = r.I64(0, 4)
					}
					ops = append(ops, o)
				}
			case 2:
				if started > 0 {
					ops = append(ops, Op{K: "finish", A: r.I64(0, 7), B: []int64{0, 0, 0, 1, 2, 13, 14, 99, -1}[r.Intn(9)], C: r.I64(0, 1)})
				}
			case 3:
				o := Op{K: "page", A: r.I64(0, zpKinds-1), B: r.I64(-1, 8), C: r.I64(0, 2) | []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, -1}[r.Intn(12)]<<2}
				if faults && r.Bool(0.5) {
					o.D = r.I64(1, 4) | r.I64(0, 12)<<3
				}
				ops = append(ops, o)
			case 4:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, 100*time.Second)})
			case 5:
				if periods {
					ops = append(ops, Op{K: "period", A: r.Dur(500*time.Millisecond, 20*time.Second)})
				}
			}
		}
		p.Clients[c] = ops
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "zpages", Props: []string{"C20"}, Gen: genZpagesPlan, Weight: 1, Full: true, MaxYields: 20000000,
		Run:  func(h *H) { (&zpSim{rgSim: rgSim{h: h}}).run() },
		Stub: []string{"grpc-go's transport and calls", "the connection pages are written to"},
	})
}
