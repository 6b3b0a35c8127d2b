package c14

import (
	"fmt"
	"os"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/mrasu/GravityR/cmd/db/dig"
	"verif/harness/gen"
	"verif/harness/pifake"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const week = 7 * 24 * time.Hour

var zones = []*time.Location{time.UTC, time.FixedZone("", 9*3600), time.FixedZone("", -5*3600), time.FixedZone("", 5*3600+1800), time.FixedZone("", -(3*3600 + 1800)), time.FixedZone("", 13*3600+2700)}

func start(t *rapid.T) (text string, at time.Time) {
	at = time.Date(2022, time.Month(rapid.IntRange(1, 12).Draw(t, "month")), rapid.IntRange(1, 28).Draw(t, "day"), rapid.IntRange(0, 23).Draw(t, "hour"),
		gen.Pick(t, "min", 0, 0, 5, 30, 59), gen.Pick(t, "sec", 0, 0, 17), 0, gen.Pick(t, "zone", zones...))
	return at.Format(time.RFC3339), at
}

func account(c *vt.C, at time.Time, maxInst int) *pifake.Account {
	a := &pifake.Account{Zone: time.UTC, RdsPage: 100}
	n := maxInst - rapid.IntRange(0, maxInst).Draw(c.T, "fewer")
	for i := 0; i < n; i++ {
		in := &pifake.Instance{Name: fmt.Sprintf("db-%d", i), Resource: fmt.Sprintf("db-RES%d", (i*7)%(n+3)*100+i), Engine: gen.Pick(c.T, "engine", "mysql", "mysql", "mysql", "postgres", "mariadb", "aurora-mysql")}
		for k := 0; k < rapid.IntRange(0, 2).Draw(c.T, "series"); k++ {
			v := float64(rapid.IntRange(1, 1000).Draw(c.T, "v")) / 64
			p := pifake.Point{At: at.UTC().Add(time.Duration(rapid.Int64Range(0, int64(week/time.Second)-1).Draw(c.T, "off")) * time.Second), Value: &v}
			in.SQL = append(in.SQL, &pifake.Series{SQL: fmt.Sprintf("SELECT %d", k), Token: fmt.Sprintf("T%d", k), Points: []pifake.Point{p}})
			in.Tokenized = append(in.Tokenized, &pifake.Series{SQL: "SELECT ?", Token: fmt.Sprintf("T%d", k), Points: []pifake.Point{p}})
		}
		a.Instances = append(a.Instances, in)
	}
	return a
}

func check(c *vt.C, a *pifake.Account, lo, hi time.Time) {
	if a.Misuse != "" {
		c.Fatalf("%s", a.Misuse)
	}
	// every MySQL instance: both groups, the whole week from the start in consecutive half days, nothing twice
	type key struct{ res, group string }
	next := map[key]time.Time{}
	n := map[key]int{}
	for _, r := range a.Requests {
		k := key{*r.Identifier, *r.MetricQueries[0].GroupBy.Group}
		if n[k] == 0 {
			if r.StartTime.Before(lo) || r.StartTime.After(hi) {
				c.Fatalf("%v: the first request starts at %v, want %v (to %v)", k, r.StartTime, lo, hi)
			}
		} else if !r.StartTime.Equal(next[k]) {
			c.Fatalf("%v: a request starts at %v, the one before it ended at %v", k, r.StartTime, next[k])
		}
		if r.PeriodInSeconds == nil || *r.PeriodInSeconds != 300 {
			c.Fatalf("%v: values are not requested for every five minutes", k)
		}
		if d := r.EndTime.Sub(*r.StartTime); d > 12*time.Hour {
			c.Fatalf("%v: request over %v (five minute values are available for half a day per request)", k, d)
		}
		if l := r.MetricQueries[0].GroupBy.Limit; l == nil || *l != 10 {
			c.Fatalf("%v: the request does not ask for the ten heaviest", k)
		}
		next[k] = *r.EndTime
		n[k]++
	}
	want := 0
	for _, i := range a.Instances {
		if i.Engine != "mysql" {
			continue
		}
		for _, g := range []string{"db.sql", "db.sql_tokenized"} {
			k := key{i.Resource, g}
			if n[k] == 0 {
				c.Fatalf("instance %s: %s was never read", i.Name, g)
			}
			if end := next[k]; end.Before(lo.Add(week)) || end.After(hi.Add(week)) {
				c.Fatalf("instance %s: %s was read up to %v, want %v", i.Name, g, end, lo.Add(week))
			}
			want += n[k]
		}
	}
	if want != len(a.Requests) {
		c.Fatalf("%d requests for instances of other engines", len(a.Requests)-want)
	}
}

func TestDig(t *testing.T) {
	vt.Check(t, "coverage", 250, func(c *vt.C) {
		txt, at := start(c.T)
		a := account(c, at, 6)
		if gen.Chance(c.T, "small pages", 85) {
			a.RdsPage = rapid.IntRange(1, 3).Draw(c.T, "rdspage")
		}
		out := tool.Scratch("c14.html")
		defer os.Remove(out)
		c.Input("start-from: %s\ninstances: %s\npage size: %d", txt, insts(a), a.RdsPage)
		if err := dig.VerifPiDig(out, txt, a.Rds(), a.PI()); err != nil {
			c.Fatalf("no report: %v", err)
		}
		check(c, a, at, at)
		c.ClassIf(a.RdsCalls > 1, "several pages of instances")
		if len(a.Requests) > 0 {
			c.NonTrivial(txt + insts(a))
		}
		if _, err := tool.ReadReport(out); err != nil {
			c.Fatalf("%v", err)
		}
	})
	vt.Check(t, "many_instances", 6, func(c *vt.C) {
		txt, at := start(c.T)
		a := account(c, at, 0)
		for i := 0; i < 130; i++ {
			a.Instances = append(a.Instances, &pifake.Instance{Name: fmt.Sprintf("db-%d", i), Resource: fmt.Sprintf("R%d", i), Engine: "mysql"})
		}
		out := tool.Scratch("c14.html")
		defer os.Remove(out)
		c.Input("start-from: %s\n130 MySQL instances, 100 per page", txt)
		if err := dig.VerifPiDig(out, txt, a.Rds(), a.PI()); err != nil {
			c.Fatalf("no report: %v", err)
		}
		check(c, a, at, at)
		c.NonTrivial(txt)
	})
	// without --start-from: the last seven days
	vt.Check(t, "default_start", 40, func(c *vt.C) {
		a := account(c, time.Now().Add(-week), 4)
		out := tool.Scratch("c14.html")
		defer os.Remove(out)
		c.Input("no start-from\ninstances: %s", insts(a))
		lo := time.Now().Add(-week)
		if err := dig.VerifPiDig(out, "", a.Rds(), a.PI()); err != nil {
			c.Fatalf("no report: %v", err)
		}
		check(c, a, lo, time.Now().Add(-week))
		if len(a.Requests) > 0 {
			c.NonTrivial(insts(a))
		}
	})
	// a failing request: an error, and no report that looks complete
	vt.Check(t, "faults", 250, func(c *vt.C) {
		txt, at := start(c.T)
		a := account(c, at, 3)
		a.RdsPage = rapid.IntRange(1, 3).Draw(c.T, "rdspage")
		a.FailAt = rapid.IntRange(1, 90).Draw(c.T, "failat")
		bad := gen.Chance(c.T, "badstart", 15)
		if bad {
			txt = gen.Pick(c.T, "bad", "2022-08-01", "yesterday", "2022-08-01T00:00:00", "2022-13-01T00:00:00Z", " ", "1659072300", txt+" ", txt[1:])
			a.FailAt = 0
		}
		out := tool.Scratch("c14.html")
		defer os.Remove(out)
		before := gen.Pick(c.T, "before", "", "previous report")
		if before != "" {
			os.WriteFile(out, []byte(before), 0o644)
		}
		c.Input("start-from: %q\ninstances: %s\ncall %d fails", txt, insts(a), a.FailAt)
		err := dig.VerifPiDig(out, txt, a.Rds(), a.PI())
		if !bad && a.Calls < a.FailAt {
			if err != nil {
				c.Fatalf("no report: %v", err)
			}
			check(c, a, at, at)
			return
		}
		if err == nil {
			c.Fatalf("call %d failed (or the start is invalid), yet the run reports success", a.FailAt)
		}
		b, rerr := os.ReadFile(out)
		if before == "" && rerr == nil || before != "" && string(b) != before {
			c.Fatalf("the run failed, yet the output file was written")
		}
		c.ClassIf(!bad, "failed request")
		c.NonTrivial(fmt.Sprint(txt, insts(a), a.FailAt))
	})
}

func insts(a *pifake.Account) string {
	s := ""
	for _, i := range a.Instances {
		s += fmt.Sprintf("%s(%s,%s,%d series) ", i.Name, i.Resource, i.Engine, len(i.SQL))
	}
	return s
}
