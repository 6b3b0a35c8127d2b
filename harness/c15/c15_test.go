package c15

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/mrasu/GravityR/cmd/db/dig"
	"github.com/mrasu/GravityR/infra/aws"
	"verif/harness/gen"
	"verif/harness/pifake"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const week = 7 * 24 * time.Hour

var zones = []*time.Location{time.UTC, time.UTC, time.FixedZone("", 9*3600), time.FixedZone("", -5*3600), time.FixedZone("", 5*3600+1800), time.FixedZone("", -(3*3600 + 1800)), time.FixedZone("", 13*3600+2700)}
var sqls = []string{"SELECT * FROM users", "SELECT * FROM users ", "select * from users", "INSERT INTO tasks(user_id) VALUES (1)", "UPDATE `a` SET b = '</script>'", "SELECT '日本'", "COMMIT", "", "DELETE FROM t WHERE a = \"x\\n\"", "SELECT 1", "SELECT 2", "SELECT 3", "select 1", "SELECT 1 "}

type load struct {
	max, sum float64
	tok      string
}

type cell struct {
	hour int64
	db   string
	sql  string
}

func show(m map[cell]*load) string {
	var s []string
	for k, v := range m {
		s = append(s, fmt.Sprintf("%s %s %q max=%g sum=%g id=%s", time.Unix(k.hour*3600, 0).UTC().Format("2006-01-02T15Z"), k.db, k.sql, v.max, v.sum, v.tok))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b))) }

// compare checks the hours and the cells of one section of the report.
func compare(c *vt.C, section string, got []tool.TimeDbLoad, start, end time.Time, want map[cell]*load) {
	h := start.Unix() / 3600
	for i, tl := range got {
		if tl.Timestamp != float64((h+int64(i))*3600*1000) {
			c.Fatalf("%s: entry %d is for %v, want the hour %v", section, i, time.UnixMilli(int64(tl.Timestamp)).UTC(), time.Unix((h+int64(i))*3600, 0).UTC())
		}
	}
	if last := h + int64(len(got)) - 1; last != end.Unix()/3600 {
		c.Fatalf("%s: the last hour shown is %v, the period ends %v", section, time.Unix(last*3600, 0).UTC(), end)
	}
	have := map[cell]*load{}
	for _, tl := range got {
		for _, d := range tl.Databases {
			for _, s := range d.Sqls {
				k := cell{int64(tl.Timestamp) / 3600000, d.Name, s.SQL}
				if have[k] != nil {
					c.Fatalf("%s: %v is shown twice", section, k)
				}
				have[k] = &load{s.LoadMax, s.LoadSum, s.TokenizedID}
			}
		}
	}
	bad := len(have) != len(want)
	for k, w := range want {
		g := have[k]
		bad = bad || g == nil || !near(g.max, w.max) || !near(g.sum, w.sum) || g.tok != w.tok
	}
	if bad {
		c.Fatalf("%s: shown\n%s\nwant\n%s", section, show(have), show(want))
	}
}

func points(c *vt.C, start time.Time, span time.Duration, n int) []pifake.Point {
	var ps []pifake.Point
	base := start.UTC().Truncate(5 * time.Minute)
	seen := map[int64]bool{}
	for i := 0; i < n; i++ {
		slots := int64(span / (5 * time.Minute))
		var k int64
		switch rapid.IntRange(0, 4).Draw(c.T, "where") {
		case 0: // around the borders of the half days the data is read in
			k = int64(rapid.IntRange(0, 14).Draw(c.T, "border"))*144 + int64(rapid.IntRange(-2, 2).Draw(c.T, "near"))
		case 1: // around the ends of the period
			k = gen.Pick(c.T, "end", 0, slots) + int64(rapid.IntRange(-3, 3).Draw(c.T, "near"))
		case 2: // close to another point
			k = int64(rapid.IntRange(0, 24).Draw(c.T, "early"))
		default:
			k = rapid.Int64Range(0, slots-1).Draw(c.T, "slot")
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		p := pifake.Point{At: base.Add(time.Duration(k) * 5 * time.Minute)}
		switch rapid.IntRange(0, 7).Draw(c.T, "value") {
		case 0: // no value
		case 1:
			z := 0.0
			p.Value = &z
		default:
			v := float64(rapid.IntRange(1, 100000).Draw(c.T, "v")) / float64(gen.Pick(c.T, "div", 1, 1000, 300, 100000))
			p.Value = &v
		}
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].At.Before(ps[j].At) })
	return ps
}

func add(m map[cell]*load, db string, s *pifake.Series, from, to time.Time) {
	for _, p := range s.Points {
		if p.Value == nil || *p.Value == 0 || p.At.Before(from) || !p.At.Before(to) {
			continue
		}
		k := cell{p.At.Unix() / 3600, db, s.SQL}
		if m[k] == nil {
			m[k] = &load{tok: s.Token}
		}
		m[k].max = math.Max(m[k].max, *p.Value)
		m[k].sum += *p.Value
	}
}

func input(c *vt.C, a *pifake.Account) {
	for _, i := range a.Instances {
		for g, ss := range [][]*pifake.Series{i.SQL, i.Tokenized} {
			for _, s := range ss {
				c.Input("%s %s %q (%s)", i.Name, []string{"sql", "tokenized"}[g], s.SQL, s.Token)
				for _, p := range s.Points {
					v := "none"
					if p.Value != nil {
						v = fmt.Sprint(*p.Value)
					}
					c.Input("  %s %s", p.At.Format(time.RFC3339), v)
				}
			}
		}
	}
}

func TestLoads(t *testing.T) {
	vt.Check(t, "report", 250, func(c *vt.C) {
		at := time.Date(2022, 8, rapid.IntRange(1, 28).Draw(c.T, "day"), rapid.IntRange(0, 23).Draw(c.T, "hour"), gen.Pick(c.T, "min", 0, 0, 5, 30, 59), gen.Pick(c.T, "sec", 0, 0, 17), 0, gen.Pick(c.T, "zone", zones...))
		a := &pifake.Account{Zone: time.UTC, RdsPage: 100}
		if gen.Chance(c.T, "pages", 40) {
			a.PiPage = rapid.IntRange(1, 4).Draw(c.T, "pipage")
		}
		wantSQL, wantTok := map[cell]*load{}, map[cell]*load{}
		nser := 0
		for i := 0; i < rapid.IntRange(1, 3).Draw(c.T, "instances"); i++ {
			in := &pifake.Instance{Name: fmt.Sprintf("db-%d", i), Resource: fmt.Sprintf("R%d", 9-i), Engine: "mysql"}
			n := rapid.IntRange(0, 4).Draw(c.T, "series")
			tokens := gen.Pick(c.T, "tokens", 1, 2, 20) // several statements can have the same tokenized form
			if gen.Chance(c.T, "ten", 15) {
				n = 10
			}
			for k, q := range gen.Subset(c.T, "sql", sqls, n) {
				s := &pifake.Series{SQL: q, Token: fmt.Sprintf("T%d", k%tokens), Points: points(c, at, week, rapid.IntRange(1, 12).Draw(c.T, "points"))}
				in.SQL = append(in.SQL, s)
				add(wantSQL, in.Name, s, at, at.Add(week))
				s2 := &pifake.Series{SQL: q + " ?", Token: fmt.Sprintf("T%d", k), Points: s.Points}
				in.Tokenized = append(in.Tokenized, s2)
				add(wantTok, in.Name, s2, at, at.Add(week))
				nser++
			}
			a.Instances = append(a.Instances, in)
		}
		c.Input("start-from: %s, metrics page size %d", at.Format(time.RFC3339), a.PiPage)
		input(c, a)
		out := tool.Scratch("c15.html")
		defer os.Remove(out)
		if err := dig.VerifPiDig(out, at.Format(time.RFC3339), a.Rds(), a.PI()); err != nil {
			c.Fatalf("no report: %v", err)
		}
		p, err := tool.ReadReport(out)
		if err != nil {
			c.Fatalf("%v", err)
		}
		r, err := p.Decode()
		if err != nil || r.DigData == nil || r.DigData.PerformanceInsights == nil {
			c.Fatalf("the report has no Performance Insights data: %v", err)
		}
		compare(c, "statements", r.DigData.PerformanceInsights.SqlDbLoads, at, at.Add(week), wantSQL)
		compare(c, "tokenized statements", r.DigData.PerformanceInsights.TokenizedSqlDbLoads, at, at.Add(week), wantTok)
		_, off := at.Zone()
		c.ClassIf(off%3600 != 0, "start in a zone off the full hour")
		c.ClassIf(a.PiPage > 0, "paged metrics")
		c.ClassIf(at.Minute() != 0, "start within an hour")
		if len(wantSQL) > 2 {
			c.NonTrivial(at.String() + show(wantSQL))
		}
	})
	// the conversion itself: any period, values in any zone, the same statement in several parts
	vt.Check(t, "conversion", 1500, func(c *vt.C) {
		z := gen.Pick(c.T, "zone", zones...)
		at := time.Date(2022, 8, 3, rapid.IntRange(0, 23).Draw(c.T, "hour"), gen.Pick(c.T, "min", 0, 0, 5, 30, 59), 0, 0, z)
		end := at.Add(time.Duration(rapid.IntRange(0, 60*30).Draw(c.T, "minutes")) * time.Minute)
		want := map[cell]*load{}
		var avgs []*aws.PiSQLLoadAvg
		c.Input("from %s to %s", at.Format(time.RFC3339), end.Format(time.RFC3339))
		for i := rapid.IntRange(1, 5).Draw(c.T, "parts"); i > 0; i-- {
			db, q := gen.Pick(c.T, "db", "db-a", "db-b"), gen.Pick(c.T, "sql", sqls[len(sqls)-5:]...)
			tok := strings.ToUpper(q[:6])
			avg := aws.NewPiSQLLoadAvg(db, q, tok)
			s := &pifake.Series{SQL: q, Token: tok, Points: points(c, at, end.Sub(at)+6*time.Minute, rapid.IntRange(0, 6).Draw(c.T, "points"))}
			vz := gen.Pick(c.T, "valuezone", zones...)
			for _, p := range s.Points {
				if p.Value != nil {
					avg.Values = append(avg.Values, &aws.PiTimeValue{Time: p.At.In(vz), Value: *p.Value})
					c.Input("%s %q %s %g", db, q, p.At.In(vz).Format(time.RFC3339), *p.Value)
				}
			}
			// the report works by the hour: everything within the hours of the period counts
			from, to := time.Unix(at.Unix()/3600*3600, 0), time.Unix((end.Unix()/3600+1)*3600, 0)
			add2(want, db, s, from, to)
			avgs = append(avgs, avg)
		}
		b, err := json.Marshal(aws.ConvertPiSQLLoadAvgsToVms(at, end, avgs))
		if err != nil {
			c.Fatalf("%v", err)
		}
		var got []tool.TimeDbLoad
		if err := json.Unmarshal(b, &got); err != nil {
			c.Fatalf("%v", err)
		}
		compare(c, "loads", got, at, end, want)
		if len(want) > 1 {
			c.NonTrivial(at.String() + show(want))
		}
	})
}

// add2 is add, but a value of zero counts as a value.
func add2(m map[cell]*load, db string, s *pifake.Series, from, to time.Time) {
	for _, p := range s.Points {
		if p.Value == nil || p.At.Before(from) || !p.At.Before(to) {
			continue
		}
		k := cell{p.At.Unix() / 3600, db, s.SQL}
		if m[k] == nil {
			m[k] = &load{tok: s.Token}
		}
		m[k].max = math.Max(m[k].max, *p.Value)
		m[k].sum += *p.Value
	}
}
