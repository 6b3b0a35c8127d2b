package c17

import (
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/otelfake"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestFigures(t *testing.T) {
	s := otelfake.Start()
	dir := tool.Scratch("c17.html")
	vt.Check(t, "figures", 6000, func(c *vt.C) {
		n := rapid.IntRange(1, 3).Draw(c.T, "traces")
		o := otelfake.Opt{MaxSpans: rapid.SampledFrom([]int{4, 4, 4, 4, 10, 10, 10, 10, 10, 10, 30, 30, 30, 30, 700}).Draw(c.T, "size"), Lose: gen.Chance(c.T, "mayLose", 30), Odd: gen.Chance(c.T, "odd", 60)}
		now := time.Now()
		var traces []*otelfake.Trace
		trees := map[string]*otelfake.Call{}
		nt := false
		for i := 0; i < n; i++ {
			tr := otelfake.Gen(c.T, i+1, time.Unix(1700000000, 5), o)
			traces = append(traces, tr)
			c.Input("%v", tr)
			for _, w := range tr.Trees() {
				trees[fmt.Sprintf("%x/%x", tr.ID, w.Span.ID)] = w
				b, max := w.Busiest()
				outside, repeated := false, w.Count() > 1
				w.Visit(func(x *otelfake.Call) {
					for _, k := range x.Children {
						outside = outside || k.Span.End > x.Span.End || k.Span.Start < x.Span.Start
					}
				})
				c.ClassIf(outside, "a call outside its caller's time")
				c.ClassIf(repeated, "a service called repeatedly")
				c.ClassIf(!b[w.Service], "busiest is not the root's service")
				nt = nt || repeated && max > 0 && len(b) == 1 && len(w.Children) > 1
			}
		}
		if nt {
			c.NonTrivial(fmt.Sprint(traces))
		}
		s.Reset(traces...)
		s.All = true
		r, err, bad := s.Dig(dir, "-s", "front", "-d", "0", "-t", "0", "--start-from", now.Add(-10*time.Minute).Format(time.RFC3339))
		if err != nil || bad != nil {
			c.Fatalf("the run failed: %v %v", err, bad)
		}
		for _, list := range [][]tool.Trace{r.SlowTraces, r.SameServiceTraces} {
			for _, g := range list {
				w := trees[g.TraceID+"/"+g.Root.SpanID]
				if w == nil {
					c.Fatalf("trace %s is not one of those recorded", g.TraceID)
				}
				if g.SameServiceAccessCount != w.Count() {
					c.Fatalf("trace %s: the most called service is called %d times according to the report, %d by the trace", g.TraceID, g.SameServiceAccessCount, w.Count())
				}
				b, max := w.Busiest()
				if max > 0 && !b[g.TimeConsumingServiceName] {
					c.Fatalf("trace %s: %q is named as the service taking the most time; by the trace it is %v (%d ns of its own)", g.TraceID, g.TimeConsumingServiceName, b, max)
				}
			}
		}
	})
}
