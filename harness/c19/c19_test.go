package c19

import (
	"fmt"
	"os"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/otelfake"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var zones = []*time.Location{time.UTC, time.UTC, time.FixedZone("", 9*3600), time.FixedZone("", -5*3600), time.FixedZone("", 5*3600+1800), time.FixedZone("", 13*3600+2700)}

const service = "front"

// draw picks the period; ago is how long before now it starts.
func draw(c *vt.C, now time.Time) (string, time.Time, time.Time) {
	var start time.Time
	switch rapid.IntRange(0, 9).Draw(c.T, "period") {
	case 0:
		c.Class("default period")
		return "", now.Add(-24 * time.Hour), now
	case 1:
		start = now.Add(time.Duration(rapid.IntRange(1, 1000).Draw(c.T, "ahead")) * time.Hour)
		c.Class("starts in the future")
		return start.UTC().Format(time.RFC3339), start.Truncate(time.Second), now
	case 2, 3, 4:
		start = now.Add(-time.Duration(rapid.IntRange(1, 86400*3).Draw(c.T, "ago")) * time.Second)
	case 5, 6:
		start = now.Add(-time.Duration(rapid.IntRange(60, 5400).Draw(c.T, "recent")) * time.Second)
	default:
		start = time.Unix(1650000000+int64(rapid.IntRange(0, 1<<25).Draw(c.T, "old")), 0)
		if gen.Chance(c.T, "aligned", 40) {
			start = start.Truncate(30 * time.Minute)
		}
	}
	f := time.RFC3339
	start = start.Truncate(time.Second)
	if gen.Chance(c.T, "fraction", 20) {
		start = start.Add(500 * time.Millisecond)
		f = time.RFC3339Nano
		c.Class("fraction of a second")
	}
	end := start.Add(24 * time.Hour)
	if end.After(now) {
		end = now
	}
	return start.In(zones[rapid.IntRange(0, len(zones)-1).Draw(c.T, "zone")]).Format(f), start, end
}

func args(startStr string, dur, count int) []string {
	a := []string{"-s", service, "-t", "0", "-d", strconv.Itoa(dur)}
	if count > 0 {
		a = append(a, "-c", strconv.Itoa(count))
	}
	if startStr != "" {
		a = append(a, "--start-from", startStr)
	}
	return a
}

func traceAt(c *vt.C, id int, start, end time.Time) *otelfake.Trace {
	// mostly near borders of half hours counted from the start, or of the period
	var at time.Time
	switch rapid.IntRange(0, 5).Draw(c.T, "where") {
	case 0:
		at = start.Add(time.Duration(rapid.IntRange(0, 48).Draw(c.T, "slot")) * 30 * time.Minute)
	case 1:
		at = end.Add(-3 * time.Second)
	case 2:
		at = start
	case 3:
		at = start.Add(25 * time.Hour)
	case 4:
		at = start.Add(-time.Hour)
	default:
		at = start.Add(time.Duration(rapid.IntRange(0, 86400).Draw(c.T, "sec")) * time.Second)
	}
	at = at.Add(time.Duration(rapid.IntRange(-3, 3).Draw(c.T, "off")) * 700 * time.Millisecond)
	tr := otelfake.Gen(c.T, id, at, otelfake.Opt{MaxSpans: 6, Service: service})
	if gen.Chance(c.T, "long", 60) { // calls the service again much later
		p := tr.Spans[0]
		later := uint64(rapid.IntRange(1, 7200).Draw(c.T, "later")) * 1e9
		tr.Spans = append(tr.Spans, &otelfake.Span{ID: []byte{9, 9, 9, 9, 9, 9, 9, 9}, Parent: p.ID, Name: "again", Service: service, Start: p.Start + later, End: p.Start + later + 2e9})
	}
	return tr
}

func TestRetrieval(t *testing.T) {
	s := otelfake.Start()
	dir := tool.Scratch("c19.html")
	vt.Check(t, "retrieval", 1500, func(c *vt.C) {
		now := time.Now()
		startStr, start, end := draw(c, now)
		dur := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 999, 1000, 1001, 1500, 60000, 7200123}).Draw(c.T, "dur")
		count := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5, 1000}).Draw(c.T, "count")
		var traces []*otelfake.Trace
		for i, n := 0, rapid.IntRange(0, 6).Draw(c.T, "traces"); i < n; i++ {
			traces = append(traces, traceAt(c, i+1, start, end))
		}
		c.Input("start %q (%v .. %v), min duration %d ms, count %d\n%v", startStr, start, end, dur, count, traces)
		s.Reset(traces...)
		r, err, bad := s.Dig(dir, args(startStr, dur, count)...)
		after := time.Now()
		if err != nil || bad != nil {
			c.Fatalf("the run failed: %v %v", err, bad)
		}
		wantCount := count
		if count == 0 {
			wantCount = 500
		}
		sent := map[int]bool{}
		twice := false
		for i, q := range s.Requests {
			if q.Service != service || q.DurationMin != time.Duration(dur)*time.Millisecond || q.Num != wantCount || q.Other != "" {
				c.Fatalf("request %d asks for %+v", i, q)
			}
			if i > 0 && !q.Min.Equal(s.Requests[i-1].Max) {
				c.Fatalf("request %d starts at %v, the one before ended at %v", i, q.Min, s.Requests[i-1].Max)
			}
			if q.Max.Sub(q.Min) > 30*time.Minute || !q.Max.After(q.Min) {
				c.Fatalf("request %d covers %v to %v", i, q.Min, q.Max)
			}
			for _, k := range q.Sent {
				twice = twice || sent[k]
				sent[k] = true
			}
		}
		c.ClassIf(twice, "a trace found by two requests")
		c.ClassIf(len(s.Requests) == 48, "full day")
		if start.Before(end) {
			if len(s.Requests) == 0 {
				c.Fatalf("nothing was asked for a period from %v to %v", start, end)
			}
			min, max := s.Requests[0].Min, s.Requests[len(s.Requests)-1].Max
			// the default period starts at some moment of the run
			lo, hi := start.Truncate(time.Second), start
			if startStr == "" {
				hi = after.Add(-24 * time.Hour)
			}
			if min.Before(lo) || min.After(hi) {
				c.Fatalf("the first request starts at %v, the period at %v", min, start)
			}
			if max.Before(end.Truncate(time.Second)) {
				c.Fatalf("the last request ends at %v, the period at %v", max, end)
			}
			if limit := start.Add(24*time.Hour + time.Second); startStr != "" && max.After(limit) || max.After(after.Add(30*time.Minute)) {
				c.Fatalf("the last request ends at %v, the period at %v", max, end)
			}
		} else if len(s.Requests) != 0 {
			c.Fatalf("%d requests for an empty period", len(s.Requests))
		}
		want := map[string]bool{}
		for k := range sent {
			for _, w := range traces[k].Trees() {
				want[fmt.Sprintf("%x/%x", traces[k].ID, w.Span.ID)] = true
			}
		}
		if len(want) > 1 {
			c.NonTrivial(fmt.Sprint(startStr, start, traces))
		}
		for section, list := range map[string][]tool.Trace{"slow traces": r.SlowTraces, "same-service traces": r.SameServiceTraces} {
			seen := map[string]bool{}
			for _, g := range list {
				k := g.TraceID + "/" + g.Root.SpanID
				if !want[k] {
					c.Fatalf("%s: %s is shown but was not found", section, k)
				}
				if seen[k] {
					c.Fatalf("%s: %s is shown twice", section, k)
				}
				seen[k] = true
			}
			if len(seen) != len(want) {
				c.Fatalf("%s: %d of %d found traces are shown", section, len(seen), len(want))
			}
		}
	})
}

func TestFailures(t *testing.T) {
	s := otelfake.Start()
	out := tool.Scratch("c19f.html")
	vt.Check(t, "failures", 600, func(c *vt.C) {
		now := time.Now()
		startStr, start, end := draw(c, now)
		var traces []*otelfake.Trace
		for i, n := 0, rapid.IntRange(0, 4).Draw(c.T, "traces"); i < n; i++ {
			traces = append(traces, traceAt(c, i+1, start, end))
		}
		s.Reset(traces...)
		ui, addr := otelfake.UI, s.Addr
		kind := rapid.IntRange(0, 7).Draw(c.T, "fault")
		reached := true
		switch kind {
		case 0:
			startStr = rapid.SampledFrom([]string{"yesterday", "2022-10-01", "2022-10-01 00:00:00", "2022-13-01T00:00:00Z", "2022-10-01T00:00:00", "1664582400"}).Draw(c.T, "bad")
			c.Class("invalid start")
		case 1:
			ui = ""
			c.Class("no UI address")
		case 2:
			addr = ""
			c.Class("no Jaeger address")
		default:
			s.FailAt = rapid.IntRange(1, 50).Draw(c.T, "at")
			if gen.Chance(c.T, "early", 50) {
				s.FailAt = rapid.IntRange(1, 3).Draw(c.T, "at")
			}
			s.FailAfter = rapid.IntRange(-1, 2).Draw(c.T, "after")
		}
		before := ""
		if gen.Chance(c.T, "old", 50) {
			before = "old report"
			os.WriteFile(out, []byte(before), 0644)
		} else {
			os.Remove(out)
		}
		c.Input("start %q, fault kind %d at request %d after %d traces\n%v", startStr, kind, s.FailAt, s.FailAfter, traces)
		err := tool.JaegerDig(out, ui, addr, args(startStr, 0, 0))
		if kind > 2 {
			reached = s.Failed
			c.ClassIf(reached && s.FailAfter >= 0, "fails while sending")
			c.ClassIf(reached && s.FailAfter < 0, "refused")
		}
		if !reached {
			c.Class("fault not reached")
			if err != nil {
				c.Fatalf("the run failed without a fault: %v", err)
			}
			return
		}
		c.NonTrivial(fmt.Sprint(startStr, kind, s.FailAt, s.FailAfter, len(traces)))
		if err == nil {
			c.Fatalf("the run succeeded")
		}
		got, rerr := os.ReadFile(out)
		if before == "" && rerr == nil || before != "" && string(got) != before {
			c.Fatalf("a report was written although the run failed with %v", err)
		}
	})
}
