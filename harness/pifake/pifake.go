// Package pifake simulates the two AWS APIs "db dig performance-insights" reads: RDS' list of instances (filtered,
// paged) and Performance Insights' metrics (half-open time range, top-N per dimension group, paged).
package pifake

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/pi"
	pit "github.com/aws/aws-sdk-go-v2/service/pi/types"
	"github.com/aws/aws-sdk-go-v2/service/rds"
	rdst "github.com/aws/aws-sdk-go-v2/service/rds/types"

	"github.com/mrasu/GravityR/infra/aws"
)

type Point struct {
	At    time.Time
	Value *float64
}

type Series struct {
	SQL, Token string
	Points     []Point
}

type Instance struct {
	Name, Resource, Engine string
	SQL, Tokenized         []*Series
}

type Account struct {
	Instances []*Instance
	RdsPage   int            // instances per page (the service's own limit is 100)
	PiPage    int            // metric entries per page
	Zone      *time.Location // zone of returned timestamps
	Requests  []*pi.GetResourceMetricsInput
	RdsCalls  int
	Calls     int
	FailAt    int // the n-th call fails (0: none)
	Misuse    string
}

var ErrDown = errors.New("service unavailable")

func (a *Account) call() error {
	a.Calls++
	if a.FailAt == a.Calls {
		return ErrDown
	}
	return nil
}

type rdsCli struct{ a *Account }
type piCli struct{ a *Account }

func (a *Account) Rds() *aws.Rds                { return aws.NewRdsWithCli(&rdsCli{a}) }
func (a *Account) PI() *aws.PerformanceInsights { return aws.NewPerformanceInsightsWithCli(&piCli{a}) }

func (a *Account) misuse(f string, args ...interface{}) {
	if a.Misuse == "" {
		a.Misuse = fmt.Sprintf(f, args...)
	}
}

func page(token *string, size, n int) (from, to int, next *string, err error) {
	if token != nil {
		if from, err = strconv.Atoi(*token); err != nil {
			return 0, 0, nil, errors.New("invalid page token " + *token)
		}
	}
	to = n
	if size > 0 && from+size < n {
		to = from + size
		s := strconv.Itoa(to)
		next = &s
	}
	return from, to, next, nil
}

func (c *rdsCli) DescribeDBInstances(_ context.Context, in *rds.DescribeDBInstancesInput, _ ...func(*rds.Options)) (*rds.DescribeDBInstancesOutput, error) {
	if err := c.a.call(); err != nil {
		return nil, err
	}
	c.a.RdsCalls++
	var match []*Instance
	for _, i := range c.a.Instances {
		ok := in.DBInstanceIdentifier == nil || *in.DBInstanceIdentifier == i.Name
		for _, f := range in.Filters {
			if f.Name == nil || *f.Name != "engine" {
				c.a.misuse("RDS filter other than engine")
				continue
			}
			hit := false
			for _, v := range f.Values {
				hit = hit || v == i.Engine
			}
			ok = ok && hit
		}
		if ok {
			match = append(match, i)
		}
	}
	size := c.a.RdsPage
	if in.MaxRecords != nil && (size == 0 || int(*in.MaxRecords) < size) {
		size = int(*in.MaxRecords)
	}
	from, to, next, err := page(in.Marker, size, len(match))
	if err != nil {
		return nil, err
	}
	out := &rds.DescribeDBInstancesOutput{Marker: next}
	for _, i := range match[from:to] {
		n, r, e := i.Name, i.Resource, i.Engine
		out.DBInstances = append(out.DBInstances, rdst.DBInstance{DBInstanceIdentifier: &n, DbiResourceId: &r, Engine: &e})
	}
	return out, nil
}

func str(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

func (c *piCli) GetResourceMetrics(_ context.Context, in *pi.GetResourceMetricsInput, _ ...func(*pi.Options)) (*pi.GetResourceMetricsOutput, error) {
	if err := c.a.call(); err != nil {
		return nil, err
	}
	if in.NextToken == nil {
		c.a.Requests = append(c.a.Requests, in)
	}
	if in.ServiceType != pit.ServiceTypeRds || in.StartTime == nil || in.EndTime == nil || in.Identifier == nil || len(in.MetricQueries) != 1 {
		return nil, errors.New("InvalidArgumentException")
	}
	if !in.StartTime.Before(*in.EndTime) {
		return nil, errors.New("InvalidArgumentException: EndTime must be later than StartTime")
	}
	mq := in.MetricQueries[0]
	if mq.GroupBy == nil || str(mq.Metric) != "db.load.avg" {
		return nil, errors.New("InvalidArgumentException: metric")
	}
	var ins *Instance
	for _, i := range c.a.Instances {
		if i.Resource == *in.Identifier {
			ins = i
		}
	}
	if ins == nil {
		return nil, errors.New("NotAuthorizedException: no such resource " + *in.Identifier)
	}
	var ss []*Series
	var sk, tk string
	switch str(mq.GroupBy.Group) {
	case "db.sql":
		ss, sk, tk = ins.SQL, "db.sql.statement", "db.sql.tokenized_id"
	case "db.sql_tokenized":
		ss, sk, tk = ins.Tokenized, "db.sql_tokenized.statement", "db.sql_tokenized.id"
	default:
		return nil, errors.New("InvalidArgumentException: group")
	}
	type hit struct {
		s   *Series
		p   []pit.DataPoint
		sum float64
	}
	var hits []hit
	total := map[time.Time]float64{}
	for _, s := range ss {
		h := hit{s: s}
		for _, p := range s.Points {
			if p.At.Before(*in.StartTime) || !p.At.Before(*in.EndTime) {
				continue
			}
			at := p.At.In(c.a.Zone)
			h.p = append(h.p, pit.DataPoint{Timestamp: &at, Value: p.Value})
			if p.Value != nil {
				h.sum += *p.Value
				total[p.At.UTC()] += *p.Value
			}
		}
		if len(h.p) > 0 {
			hits = append(hits, h)
		}
	}
	sort.SliceStable(hits, func(i, j int) bool { return hits[i].sum > hits[j].sum })
	limit := 10
	if mq.GroupBy.Limit != nil {
		limit = int(*mq.GroupBy.Limit)
	}
	if len(hits) > limit {
		hits = hits[:limit]
	}
	metric := "db.load.avg"
	all := []pit.MetricKeyDataPoints{{Key: &pit.ResponseResourceMetricKey{Metric: &metric}}}
	for at, v := range total {
		at, v := at.In(c.a.Zone), v
		all[0].DataPoints = append(all[0].DataPoints, pit.DataPoint{Timestamp: &at, Value: &v})
	}
	for _, h := range hits {
		dims := map[string]string{sk: h.s.SQL, tk: h.s.Token, strings.TrimSuffix(sk, ".statement") + ".db_id": "pi-1"}
		all = append(all, pit.MetricKeyDataPoints{Key: &pit.ResponseResourceMetricKey{Metric: &metric, Dimensions: dims}, DataPoints: h.p})
	}
	from, to, next, err := page(in.NextToken, c.a.PiPage, len(all))
	if err != nil {
		return nil, err
	}
	s, e := *in.StartTime, *in.EndTime
	return &pi.GetResourceMetricsOutput{MetricList: all[from:to], NextToken: next, AlignedStartTime: &s, AlignedEndTime: &e, Identifier: in.Identifier}, nil
}
