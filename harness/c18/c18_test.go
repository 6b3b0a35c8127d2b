package c18

import (
	"fmt"
	"sort"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/otelfake"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestSelection(t *testing.T) {
	s := otelfake.Start()
	dir := tool.Scratch("c18.html")
	vt.Check(t, "selection", 900, func(c *vt.C) {
		now := time.Now()
		n := rapid.SampledFrom([]int{0, 1, 3, 20, 99, 100, 101, 130, 240}).Draw(c.T, "traces")
		n += rapid.IntRange(0, 2).Draw(c.T, "more")
		threshold := rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 4, 6}).Draw(c.T, "threshold")
		dur := rapid.SampledFrom([]int{0, 1, 500, 1000, 86400000}).Draw(c.T, "dur")
		// a few shapes, then many traces from them with drawn durations
		var shapes []*otelfake.Trace
		for i := 0; i < 6; i++ {
			shapes = append(shapes, otelfake.Gen(c.T, 0, time.Unix(1700000000, 0), otelfake.Opt{MaxSpans: 12, Odd: gen.Chance(c.T, "odd", 20)}))
		}
		if gen.Chance(c.T, "large", 12) {
			k := rapid.SampledFrom([]int{60, 128, 255, 256, 257, 300, 520}).Draw(c.T, "calls")
			sh := &otelfake.Trace{}
			for i := 0; i <= k; i++ {
				sp := &otelfake.Span{ID: []byte{0, 0, 0, 0, 0, 0, byte((i + 1) >> 8), byte(i + 1)}, Name: "call", Service: "callee", Start: 1700000000000000000 + uint64(i), End: 1700000000000000000 + uint64(2*i)}
				if i == 0 {
					sp.Service = "front"
				} else {
					sp.Parent = sh.Spans[0].ID
				}
				sh.Spans = append(sh.Spans, sp)
			}
			shapes = append(shapes, sh, otelfake.Gen(c.T, 0, time.Unix(1700000000, 0), otelfake.Opt{MaxSpans: 900}))
			if threshold > 1 {
				threshold = rapid.SampledFrom([]int{threshold, 59, 60, 127, 250, 254, 255, 256, 257, 300}).Draw(c.T, "high threshold")
			}
			if n > 30 {
				n = 30
			}
		}
		few := gen.Chance(c.T, "few", 30) // few distinct durations
		var traces []*otelfake.Trace
		for i := 0; i < n; i++ {
			sh := shapes[rapid.IntRange(0, len(shapes)-1).Draw(c.T, "shape")]
			tr := &otelfake.Trace{ID: []byte{1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, byte(i >> 8), byte(i)}}
			d := rapid.IntRange(0, 1<<40).Draw(c.T, "rootdur")
			if few {
				d = d % 3 * 1000003
			}
			for _, sp := range sh.Spans {
				x := *sp
				if len(x.Parent) == 0 || string(x.Parent) == string(make([]byte, 8)) {
					x.End = x.Start + uint64(d)
				}
				tr.Spans = append(tr.Spans, &x)
			}
			if i == 7 { // ended before it started
				tr.Spans[0].End = tr.Spans[0].Start - 1000
			}
			traces = append(traces, tr)
		}
		trees := map[string]*otelfake.Call{}
		var durs []uint64
		over := map[string]bool{}
		for _, tr := range traces {
			for _, w := range tr.Trees() {
				k := fmt.Sprintf("%x/%x", tr.ID, w.Span.ID)
				trees[k] = w
				durs = append(durs, w.Duration())
				if w.Count() > threshold {
					over[k] = true
				}
			}
		}
		sort.Slice(durs, func(i, j int) bool { return durs[i] > durs[j] })
		if len(durs) > 100 {
			durs = durs[:100]
		}
		c.Input("%d traces, threshold %d, shapes:\n%v", n, threshold, shapes)
		c.ClassIf(len(trees) > 100, "more than 100")
		c.ClassIf(len(trees) == 100, "exactly 100")
		c.ClassIf(n == 0 || len(over) == 0, "nothing to select")
		if len(over) > 0 && len(over) < len(trees) || len(trees) > 100 {
			c.NonTrivial(fmt.Sprint(n, threshold, durs, len(over)))
		}
		s.Reset(traces...)
		s.All = true
		r, err, bad := s.Dig(dir, "-s", "front", "-d", strconv.Itoa(dur), "-t", strconv.Itoa(threshold), "--start-from", now.Add(-10*time.Minute).Format(time.RFC3339))
		if err != nil || bad != nil {
			c.Fatalf("the run failed: %v %v", err, bad)
		}
		if r.UIPath != otelfake.UI || r.SlowThresholdMilli != dur || r.SameServiceThreshold != threshold {
			c.Fatalf("the report names %q, %d ms, threshold %d; given were %q, %d, %d", r.UIPath, r.SlowThresholdMilli, r.SameServiceThreshold, otelfake.UI, dur, threshold)
		}
		if len(r.SlowTraces) != len(durs) {
			c.Fatalf("%d slow traces are shown, want %d (of %d)", len(r.SlowTraces), len(durs), len(trees))
		}
		seen := map[string]bool{}
		for i, g := range r.SlowTraces {
			k := g.TraceID + "/" + g.Root.SpanID
			w := trees[k]
			if w == nil || seen[k] {
				c.Fatalf("slow trace %d (%s) is shown twice or was never recorded", i, k)
			}
			seen[k] = true
			if w.Duration() != durs[i] {
				c.Fatalf("slow trace %d (%s) took %d ns; the one in this place by duration took %d", i, k, w.Duration(), durs[i])
			}
		}
		seen = map[string]bool{}
		for _, g := range r.SameServiceTraces {
			k := g.TraceID + "/" + g.Root.SpanID
			if !over[k] || seen[k] {
				c.Fatalf("trace %s is shown as calling one service more than %d times: shown twice or wrongly", k, threshold)
			}
			seen[k] = true
		}
		if len(seen) != len(over) {
			c.Fatalf("%d traces call one service more than %d times, %d are shown", len(over), threshold, len(seen))
		}
	})
}
