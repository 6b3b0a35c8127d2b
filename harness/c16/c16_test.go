package c16

import (
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/otelfake"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func check(c *vt.C, section string, got []tool.Trace, trees map[string]*otelfake.Call, ties map[string]bool) {
	seen := map[string]bool{}
	for _, g := range got {
		if g.Root == nil {
			c.Fatalf("%s: trace %s has no root", section, g.TraceID)
		}
		k := g.TraceID + "/" + g.Root.SpanID
		w := trees[k]
		if w == nil {
			c.Fatalf("%s: trace/root %s is shown but no such root was recorded", section, k)
		}
		if seen[k] {
			c.Fatalf("%s: trace/root %s is shown twice", section, k)
		}
		seen[k] = true
		if ties[g.TraceID] {
			otelfake.Canon(g.Root)
		}
		if d := otelfake.Diff(g.Root, w); d != "" {
			c.Fatalf("%s: trace %s: %s", section, k, d)
		}
	}
	for k := range trees {
		if !seen[k] {
			c.Fatalf("%s: trace/root %s was recorded but is not shown", section, k)
		}
	}
}

func TestCalls(t *testing.T) {
	s := otelfake.Start()
	dir := tool.Scratch("c16.html")
	vt.Check(t, "calls", 4000, func(c *vt.C) {
		n := rapid.IntRange(1, 3).Draw(c.T, "traces")
		o := otelfake.Opt{MaxSpans: rapid.SampledFrom([]int{4, 10, 10, 30, 60}).Draw(c.T, "size"), Ties: gen.Chance(c.T, "ties", 25), Lose: true, Odd: gen.Chance(c.T, "odd", 30)}
		now := time.Now()
		var traces []*otelfake.Trace
		for i := 0; i < n; i++ {
			traces = append(traces, otelfake.Gen(c.T, i+1, time.Unix(1700000000, int64(rapid.IntRange(0, 999999999).Draw(c.T, "ns"))), o))
		}
		trees := map[string]*otelfake.Call{}
		ties := map[string]bool{}
		shown, spans, depth := 0, 0, 0
		for _, tr := range traces {
			c.Input("%v", tr)
			id := fmt.Sprintf("%x", tr.ID)
			ties[id] = tr.Ties()
			for _, w := range tr.Trees() {
				w.Visit(func(*otelfake.Call) { shown++ })
				if d := height(w); d > depth {
					depth = d
				}
				if ties[id] {
					otelfake.CanonCall(w)
				}
				trees[fmt.Sprintf("%s/%x", id, w.Span.ID)] = w
			}
			spans += len(tr.Spans)
			c.ClassIf(ties[id], "spans starting together")
			c.ClassIf(len(tr.Trees()) > 1, "several roots")
		}
		c.ClassIf(shown < spans, "some spans folded")
		c.ClassIf(depth > 3, "depth>3")
		c.ClassIf(spans > 30, ">30 spans")
		if shown > n && shown < spans && depth > 1 {
			c.NonTrivial(fmt.Sprint(traces))
		}
		s.Reset(traces...)
		s.All = true
		r, err, bad := s.Dig(dir, "-s", "front", "-d", "0", "-t", "0", "--start-from", now.Add(-10*time.Minute).Format(time.RFC3339))
		if err != nil || bad != nil {
			c.Fatalf("the run failed: %v %v", err, bad)
		}
		check(c, "slow traces", r.SlowTraces, trees, ties)
		check(c, "same-service traces", r.SameServiceTraces, trees, ties)
	})
}

func height(c *otelfake.Call) int {
	h := 0
	for _, k := range c.Children {
		if x := height(k); x > h {
			h = x
		}
	}
	return h + 1
}
