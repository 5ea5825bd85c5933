//go:build go1.23

package harness

import (
	"context"
	"encoding/json"
	"errors"
	"reflect"
	"strconv"
	"strings"
	"time"

	"go.opencensus.io/resource"
	"go.opencensus.io/verifsim/simos"
	"go.opencensus.io/verifsim/simrt"
)

// The resource workload: resources are detected by chains of detectors, some
// slow, some failing, some reading an environment that changes meanwhile.

type rsEnv struct {
	at     int
	typ    string
	labels map[string]string
	bad    bool
}

type rsSim struct {
	h     *H
	fixed []*resource.Resource
	was   []*resource.Resource
	errs  []error
	envs  []rsEnv
	out   []*resource.Resource
	outW  []*resource.Resource
}

type rsStep struct {
	tok string
	res *resource.Resource
	err error
	ctx context.Context
}

func rsCopy(r *resource.Resource) *resource.Resource {
	if r == nil {
		return nil
	}
	c := &resource.Resource{Type: r.Type}
	if r.Labels != nil {
		c.Labels = map[string]string{}
		for k, v := range r.Labels {
			c.Labels[k] = v
		}
	}
	return c
}

func rsSame(a, b *resource.Resource) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Type == b.Type && len(a.Labels) == len(b.Labels) && (len(a.Labels) == 0 || reflect.DeepEqual(a.Labels, b.Labels))
}

func rsText(r *resource.Resource) string {
	if r == nil {
		return "none"
	}
	return sf("%q %q", r.Type, r.Labels)
}

// merged is what the resources give together.
func rsMerged(rs []*resource.Resource) *resource.Resource {
	var out *resource.Resource
	for _, r := range rs {
		if r == nil {
			continue
		}
		if out == nil {
			out = &resource.Resource{Labels: map[string]string{}}
		}
		if out.Type == "" {
			out.Type = r.Type
		}
		for k, v := range r.Labels {
			if _, ok := out.Labels[k]; !ok {
				out.Labels[k] = v
			}
		}
	}
	return out
}

// fromEnv calls the detector that reads the environment and judges it.
func (rs *rsSim) fromEnv(ctx context.Context) (*resource.Resource, error) {
	i := begin("from env", nil)
	r, err := resource.FromEnv(ctx)
	i.end("from env done")
	if simrt.Race {
		return r, err
	}
	typ, lab := false, false
	var seen []rsEnv
	for _, e := range rs.envs {
		if e.at < i.inv {
			seen = seen[:0]
		}
		if e.at <= i.ret {
			seen = append(seen, e)
		}
	}
	for _, e := range seen {
		if err != nil {
			typ = true
			lab = lab || e.bad
			continue
		}
		typ = typ || r != nil && r.Type == strings.TrimSpace(e.typ)
		lab = lab || r != nil && !e.bad && rsSame(&resource.Resource{Labels: r.Labels}, &resource.Resource{Labels: e.labels})
	}
	rs.h.Check("C22", typ && lab && (err == nil || r == nil), "environment", "the environment's resource is %s, error %v; the environment was %q", rsText(r), err, simos.Env)
	return r, err
}

// detectors makes the detectors of a chain; what they do is noted in log.
func (rs *rsSim) detectors(toks []string, log *[]rsStep) (ds []resource.Detector, rest []string) {
	for len(toks) > 0 {
		tok := toks[0]
		toks = toks[1:]
		switch tok {
		case "[":
			var sub []resource.Detector
			sub, toks = rs.detectors(toks, log)
			ds = append(ds, resource.MultiDetector(sub...))
			continue
		case "]":
			return ds, toks
		}
		ds = append(ds, func(ctx context.Context) (*resource.Resource, error) {
			t := tok
			if strings.HasPrefix(t, "s") {
				simrt.Sleep(int64(time.Millisecond))
				t = t[1:]
			}
			simrt.Y()
			var r *resource.Resource
			var err error
			n, _ := strconv.Atoi(t[1:])
			switch t[0] {
			case 'e':
				r, err = rs.fromEnv(ctx)
			case 'f':
				r = rs.fixed[n%len(rs.fixed)]
			case 'x':
				rs.h.Fault("failing detector")
				err = rs.errs[n%len(rs.errs)]
			case 'c':
				err = ctx.Err()
			}
			*log = append(*log, rsStep{tok, r, err, ctx})
			return r, err
		})
	}
	return ds, nil
}

type rsKey struct{}

func (rs *rsSim) exec(c int, op Op) {
	h := rs.h
	switch op.K {
	case "detect":
		var log []rsStep
		toks := strings.Fields(op.S)
		ds, _ := rs.detectors(toks, &log)
		d := resource.MultiDetector(ds...)
		for n := int64(0); n <= op.B; n++ { // the same detector may be used again
			log = log[:0]
			ctx, cancel := context.WithCancel(context.WithValue(context.Background(), rsKey{}, c))
			if op.A == 1 {
				h.Fault("cancelled context")
				cancel()
			}
			r, err := d(ctx)
			cancel()
			if simrt.Race {
				continue
			}
			var got []*resource.Resource
			var wantErr error
			want := 0
			for _, t := range toks {
				if t == "[" || t == "]" {
					continue
				}
				want++
				if len(log) < want {
					break
				}
				s := log[want-1]
				h.Check("C22", s.tok == t, "order", "detector %d to be called of %q was %q", want-1, op.S, s.tok)
				h.Check("C22", s.ctx.Value(rsKey{}) == c, "context", "a detector of %q got another context", op.S)
				got = append(got, s.res)
				if s.err != nil {
					wantErr = s.err
					break
				}
			}
			h.Check("C22", len(log) == want, "calls", "%d detectors of %q were called, not %d", len(log), op.S, want)
			if wantErr != nil {
				h.Check("C22", r == nil && errors.Is(err, wantErr), "error", "a detector of %q failed with %v; the result is %s, error %v", op.S, wantErr, rsText(r), err)
				continue
			}
			w := rsMerged(got)
			h.Check("C22", err == nil && rsSame(r, w), "merge", "detecting with %q gives %s, error %v, not %s", op.S, rsText(r), err, rsText(w))
			rs.out, rs.outW = append(rs.out, r), append(rs.outW, rsCopy(r))
		}
	case "type", "labels", "bad":
		var labels map[string]string
		text := op.S
		if op.K == "labels" {
			var kv [][2]string
			if json.Unmarshal([]byte(op.S), &kv) != nil {
				return
			}
			labels = map[string]string{}
			var b strings.Builder
			pad := func(i int) { b.WriteString([]string{"", " ", "\t ", "  "}[(op.B>>(i%20))&3]) }
			for i, x := range kv {
				labels[x[0]] = x[1]
				pad(i)
				b.WriteString(x[0] + "=" + strconv.Quote(x[1]))
				pad(i + 1)
				if i+1 < len(kv) || op.C > 2 {
					b.WriteString(",")
				}
			}
			text = b.String()
			if op.C <= 1 {
				m := map[string]string{}
				for k, v := range labels {
					m[k] = v
				}
				text = resource.EncodeLabels(m)
				h.Check("C22", reflect.DeepEqual(m, labels), "encode-changes", "EncodeLabels changed its argument")
			}
		}
		e := rs.envs[len(rs.envs)-1]
		if op.K == "type" {
			e.typ = text
			simos.Env[resource.EnvVarType] = text
		} else {
			e.bad, e.labels = op.K == "bad", labels
			simos.Env[resource.EnvVarLabels] = text
		}
		e.at = simrt.Log("environment", op.S)
		rs.envs = append(rs.envs, e)
	case "sleep":
		simrt.Sleep(op.A)
	}
}

func rsLabels(r *Rand) [][2]string {
	var kv [][2]string
	for n := r.PickW(1, 3, 3, 2, 1, 1); n > 0; n-- {
		k := r.Pick("a", "b", "k8s.io/pod name", "x-y_z:1", "A", "c=d", strings.Repeat("k", 256))
		v := ""
		switch r.PickW(3, 3, 2, 1) {
		case 0:
			v = r.Pick("", "1", "Def", "a,b", "a=b", "test $ \"", "\",", "\\", "\\\\\",x=\"", " ", "\n\t", strings.Repeat("v", 256), "a\",b=\"c")
		case 1:
			for i := r.Range(0, 30); i > 0; i-- {
				v += string(rune(r.Range(32, 126)))
			}
		case 2:
			for i := r.Range(0, 20); i > 0; i-- {
				v += r.Pick("\"", ",", "\\", "=", " ", "a")
			}
		case 3:
			for i := r.Range(0, 20); i > 0; i-- {
				v += string(rune(r.Range(0, 127)))
			}
		}
		kv = append(kv, [2]string{k, v})
	}
	return kv
}

func rsChain(r *Rand, depth int) string {
	s := ""
	for n := r.Range(0, 4); n > 0; n-- {
		switch r.PickW(4, 6, 2, 1, 1, 2) {
		case 0:
			s += r.Pick("e ", "se ")
		case 1:
			s += r.Pick("f", "sf") + sf("%d ", r.Intn(9))
		case 2:
			s += "n "
		case 3:
			s += sf("x%d ", r.Intn(3))
		case 4:
			s += "c "
		case 5:
			if depth < 2 {
				s += "[ " + rsChain(r, depth+1) + "] "
			}
		}
	}
	return s
}

func genResource(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{"fixed": int64(r.Intn(1 << 20))}}
	nc := r.Range(1, 4)
	n := r.Range(2, 12)
	if deep {
		n *= r.Range(1, 4)
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < n; i++ {
			switch r.PickW(6, 1, 3, 1, 1) {
			case 0:
				ops = append(ops, Op{K: "detect", S: rsChain(r, 0), A: int64(r.PickW(6, 1)), B: int64(r.PickW(3, 1, 1))})
			case 1:
				ops = append(ops, Op{K: "type", S: r.Pick("", "  ", "host", " host ", "k8s.io/container\n")})
			case 2:
				b, _ := json.Marshal(rsLabels(r))
				ops = append(ops, Op{K: "labels", S: string(b), B: r.I64(0, 1<<30), C: r.I64(0, 3)})
			case 3:
				ops = append(ops, Op{K: "bad", S: r.Pick("a", "a=", "a=b", `a="b`, `a=b"`, `="x"`, `a="b",c`, `ä="b"`, `a="ä"`, `a="\q"`, `a="b",="c"`)})
			case 4:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, 10*time.Millisecond)})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "resource", Props: []string{"C22"}, Gen: genResource, Weight: 1,
		Run: func(h *H) {
			rs := &rsSim{h: h, envs: []rsEnv{{}}}
			r := NewRand(uint64(h.K("fixed")))
			for i := 0; i < 5; i++ {
				x := &resource.Resource{Type: r.Pick("", "", "t1", "t2")}
				if r.Intn(4) > 0 {
					x.Labels = map[string]string{}
					for n := r.Range(0, 4); n > 0; n-- {
						x.Labels[r.Pick("a", "b", "A", "zone", "")] = r.Pick("", "1", "2", "3")
					}
				}
				rs.fixed, rs.was = append(rs.fixed, x), append(rs.was, rsCopy(x))
				rs.errs = append(rs.errs, errors.New(sf("error %d", i)))
			}
			if !h.RunClients("C22", h.HangLimit(), rs.exec) || simrt.Race {
				return
			}
			for i, x := range rs.fixed {
				h.Check("C22", reflect.DeepEqual(x, rs.was[i]), "input-changed", "detecting changed a detector's resource from %s to %s", rsText(rs.was[i]), rsText(x))
			}
			for i, x := range rs.out {
				h.Check("C22", reflect.DeepEqual(x, rs.outW[i]), "result-changed", "a result changed from %s to %s", rsText(rs.outW[i]), rsText(x))
			}
		},
	})
}
