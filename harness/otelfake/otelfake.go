// Package otelfake holds generated traces, a simulated Jaeger query service that serves them over gRPC,
// and the reference for what a report says about a trace.
package otelfake

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/gogo/protobuf/types"
	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	commonv1 "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	resourcev1 "github.com/jaegertracing/jaeger/proto-gen/otel/resource/v1"
	tracev1 "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"verif/harness/gen"
	"verif/harness/tool"

	"pgregory.net/rapid"
)

// Span is one span as its service recorded it.
type Span struct {
	ID, Parent []byte
	Name       string
	Service    string
	NoResource bool
	Start, End uint64
	Attrs      []*commonv1.KeyValue
	DB         bool   // carries db.system
	DBSystem   string // its value when it is a string
	Group      int    // resource block the span is sent in
	Lib        int
}

type Trace struct {
	ID    []byte
	Spans []*Span
}

func (t *Trace) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "trace %x\n", t.ID)
	var base uint64
	for i, s := range t.Spans {
		if i == 0 {
			base = s.Start
			fmt.Fprintf(&b, "  times from %d ns\n", base)
		}
		db := ""
		if s.DB {
			db = fmt.Sprintf(" db.system=%q", s.DBSystem)
		}
		fmt.Fprintf(&b, "  %x parent=%x %q at %q %d..%d%s\n", s.ID, s.Parent, s.Name, s.Service, int64(s.Start-base), int64(s.End-base), db)
	}
	return b.String()
}

// ResourceSpans prints the trace as Jaeger sends it, with spans grouped by resource.
func (t *Trace) ResourceSpans() []*tracev1.ResourceSpans {
	type key struct {
		group   int
		service string
		nores   bool
	}
	var order []key
	m := map[key]map[int][]*tracev1.Span{}
	for _, s := range t.Spans {
		k := key{s.Group, s.Service, s.NoResource}
		if m[k] == nil {
			m[k] = map[int][]*tracev1.Span{}
			order = append(order, k)
		}
		m[k][s.Lib] = append(m[k][s.Lib], &tracev1.Span{TraceId: t.ID, SpanId: s.ID, ParentSpanId: s.Parent, Name: s.Name,
			StartTimeUnixNano: s.Start, EndTimeUnixNano: s.End, Attributes: s.Attrs, Kind: tracev1.Span_SPAN_KIND_INTERNAL})
	}
	var r []*tracev1.ResourceSpans
	for _, k := range order {
		rs := &tracev1.ResourceSpans{}
		if !k.nores {
			rs.Resource = &resourcev1.Resource{Attributes: []*commonv1.KeyValue{Str("host.name", "h-"+k.service), Str("service.name", k.service), Str("service.version", "1")}}
		}
		var libs []int
		for l := range m[k] {
			libs = append(libs, l)
		}
		sort.Ints(libs)
		for _, l := range libs {
			rs.InstrumentationLibrarySpans = append(rs.InstrumentationLibrarySpans, &tracev1.InstrumentationLibrarySpans{
				InstrumentationLibrary: &commonv1.InstrumentationLibrary{Name: fmt.Sprint("lib", l)}, Spans: m[k][l]})
		}
		r = append(r, rs)
	}
	return r
}

func Str(k, v string) *commonv1.KeyValue {
	return &commonv1.KeyValue{Key: k, Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: v}}}
}

// Call is what the report shows of a span.
type Call struct {
	Span     *Span
	Service  string
	Children []*Call
}

// Trees gives the reference trees: for each span without a parent in the trace, the calls into other services and the
// accesses to databases under it, each below the nearest span shown above it, calls of one span by start time.
func (t *Trace) Trees() []*Call {
	byID := map[string]*Span{}
	for _, s := range t.Spans {
		byID[string(s.ID)] = s
	}
	kids := map[*Span][]*Span{}
	var roots []*Span
	for _, s := range t.Spans {
		if p := byID[string(s.Parent)]; p != nil && strings.Trim(string(s.Parent), "\x00") != "" {
			kids[p] = append(kids[p], s)
		} else {
			roots = append(roots, s)
		}
	}
	for _, k := range kids {
		sort.SliceStable(k, func(i, j int) bool { return k[i].Start < k[j].Start })
	}
	var walk func(s, parent *Span, under *Call)
	walk = func(s, parent *Span, under *Call) {
		leafDB := s.DB && len(kids[s]) == 0
		if parent == nil || parent.Service != s.Service || leafDB {
			c := &Call{Span: s, Service: s.Service}
			if leafDB {
				c.Service = s.DBSystem + " (" + s.Service + ")"
			}
			under.Children = append(under.Children, c)
			under = c
		}
		for _, k := range kids[s] {
			walk(k, s, under)
		}
	}
	var r []*Call
	for _, root := range roots {
		top := &Call{}
		walk(root, nil, top)
		r = append(r, top.Children[0])
	}
	return r
}

func (c *Call) Visit(f func(*Call)) {
	f(c)
	for _, k := range c.Children {
		k.Visit(f)
	}
}

// Count is the number of calls of the service called most often.
func (c *Call) Count() int {
	n := map[string]int{}
	max := 0
	c.Visit(func(x *Call) {
		n[x.Service]++
		if n[x.Service] > max {
			max = n[x.Service]
		}
	})
	return max
}

// Own is the time within the span that none of its shown calls covers.
func (c *Call) Own() uint64 {
	s := c.Span
	if s.End <= s.Start {
		return 0
	}
	cuts := []uint64{s.Start, s.End}
	for _, k := range c.Children {
		for _, x := range []uint64{k.Span.Start, k.Span.End} {
			if x > s.Start && x < s.End {
				cuts = append(cuts, x)
			}
		}
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
	own := uint64(0)
	for i := 1; i < len(cuts); i++ {
		a, b := cuts[i-1], cuts[i]
		covered := false
		for _, k := range c.Children {
			covered = covered || k.Span.Start <= a && b <= k.Span.End
		}
		if !covered {
			own += b - a
		}
	}
	return own
}

// Busiest gives the services with the most own time, and that time.
func (c *Call) Busiest() (map[string]bool, uint64) {
	own := map[string]uint64{}
	c.Visit(func(x *Call) { own[x.Service] += x.Own() })
	max := uint64(0)
	for _, v := range own {
		if v > max {
			max = v
		}
	}
	r := map[string]bool{}
	for k, v := range own {
		if v == max {
			r[k] = true
		}
	}
	return r, max
}

func (c *Call) Duration() uint64 {
	if c.Span.End < c.Span.Start {
		return 0
	}
	return c.Span.End - c.Span.Start
}

// Diff compares a shown tree with the reference; siblings that start at the same time may be in any order.
func Diff(got *tool.Span, want *Call) string {
	if got == nil {
		return "no root span"
	}
	s := want.Span
	id := fmt.Sprintf("%x", s.ID)
	if got.SpanID != id || got.Name != s.Name || got.ServiceName != want.Service {
		return fmt.Sprintf("shown: span %s %q of %q, want: span %s %q of %q", got.SpanID, got.Name, got.ServiceName, id, s.Name, want.Service)
	}
	if got.StartTimeMillis != float64(s.Start/1000000) || got.EndTimeMillis != float64(s.End/1000000) {
		return fmt.Sprintf("span %s is shown from %v to %v ms, want %d to %d", id, got.StartTimeMillis, got.EndTimeMillis, s.Start/1000000, s.End/1000000)
	}
	if len(got.Children) != len(want.Children) {
		return fmt.Sprintf("span %s is shown with %d calls, want %d", id, len(got.Children), len(want.Children))
	}
	for i, w := range want.Children {
		if d := Diff(got.Children[i], w); d != "" {
			return d
		}
	}
	return ""
}

// Ties tells whether two spans of the trace start at the same time under the same parent.
func (t *Trace) Ties() bool {
	seen := map[string]bool{}
	for _, s := range t.Spans {
		k := fmt.Sprint(s.Parent, s.Start)
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	return false
}

// Canon sorts children by span id so that trees with ties can be compared apart from their order.
func Canon(s *tool.Span) {
	sort.Slice(s.Children, func(i, j int) bool { return s.Children[i].SpanID < s.Children[j].SpanID })
	for _, k := range s.Children {
		Canon(k)
	}
}

func CanonCall(c *Call) {
	sort.Slice(c.Children, func(i, j int) bool {
		return fmt.Sprintf("%x", c.Children[i].Span.ID) < fmt.Sprintf("%x", c.Children[j].Span.ID)
	})
	for _, k := range c.Children {
		CanonCall(k)
	}
}

// Request is a query the service received.
type Request struct {
	Service     string
	Min, Max    time.Time
	DurationMin time.Duration
	Num         int
	Other       string // any further restriction
	Sent        []int  // indices of the traces sent
}

// Server serves a set of traces as Jaeger's query service does.
type Server struct {
	Addr string
	srv  *grpc.Server

	mu        sync.Mutex
	Traces    []*Trace
	Requests  []Request
	FailAt    int // request to fail, from 1
	FailAfter int // traces of that request sent before the failure; -1: the request is refused
	Failed    bool
	All       bool // send every trace on every request
}

func Start() *Server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &Server{Addr: l.Addr().String(), srv: grpc.NewServer()}
	api_v3.RegisterQueryServiceServer(s.srv, s)
	go s.srv.Serve(l)
	return s
}

func (s *Server) Reset(traces ...*Trace) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Traces, s.Requests, s.FailAt, s.FailAfter, s.Failed, s.All = traces, nil, 0, 0, false, false
}

func (s *Server) GetTrace(*api_v3.GetTraceRequest, api_v3.QueryService_GetTraceServer) error {
	return errors.New("not supported")
}
func (s *Server) GetServices(context.Context, *api_v3.GetServicesRequest) (*api_v3.GetServicesResponse, error) {
	return nil, errors.New("not supported")
}
func (s *Server) GetOperations(context.Context, *api_v3.GetOperationsRequest) (*api_v3.GetOperationsResponse, error) {
	return nil, errors.New("not supported")
}

// Match: as in Jaeger's stores, some span of the service starts within the window (both ends included) and lasts long enough.
func (t *Trace) Match(service string, min, max time.Time, dur time.Duration) bool {
	for _, sp := range t.Spans {
		if sp.Service != service || sp.NoResource || sp.Start < uint64(min.UnixNano()) || sp.Start > uint64(max.UnixNano()) {
			continue
		}
		if dur == 0 || sp.End >= sp.Start && time.Duration(sp.End-sp.Start) >= dur {
			return true
		}
	}
	return false
}

func (s *Server) FindTraces(r *api_v3.FindTracesRequest, out api_v3.QueryService_FindTracesServer) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	q := r.GetQuery()
	if q == nil || q.StartTimeMin == nil || q.StartTimeMax == nil {
		return status.Error(codes.InvalidArgument, "start time min and max are required parameters")
	}
	min, err1 := types.TimestampFromProto(q.StartTimeMin)
	max, err2 := types.TimestampFromProto(q.StartTimeMax)
	if err1 != nil || err2 != nil {
		return status.Error(codes.InvalidArgument, "times")
	}
	req := Request{Service: q.ServiceName, Min: min, Max: max, Num: int(q.NumTraces)}
	if q.DurationMin != nil {
		d, err := types.DurationFromProto(q.DurationMin)
		if err != nil {
			return status.Error(codes.InvalidArgument, err.Error())
		}
		req.DurationMin = d
	}
	if q.OperationName != "" || len(q.Attributes) > 0 || q.DurationMax != nil {
		req.Other = q.String()
	}
	fail := len(s.Requests)+1 == s.FailAt
	s.Requests = append(s.Requests, req)
	me := &s.Requests[len(s.Requests)-1]
	if fail && s.FailAfter < 0 {
		s.Failed = true
		return status.Error(codes.Unavailable, "storage is down")
	}
	for i, t := range s.Traces {
		if req.Num > 0 && len(me.Sent) >= req.Num {
			break
		}
		if !s.All && !t.Match(req.Service, min, max, req.DurationMin) {
			continue
		}
		if fail && len(me.Sent) == s.FailAfter {
			break
		}
		me.Sent = append(me.Sent, i)
		if err := out.Send(&api_v3.SpansResponseChunk{ResourceSpans: t.ResourceSpans()}); err != nil {
			return err
		}
	}
	if fail {
		s.Failed = true
		return status.Error(codes.Internal, "storage failed")
	}
	return nil
}

var services = []string{"front", "api", "users", "tasks", "billing", "front-end", "サービス", "", "mysql", "api ", "<b>"}
var names = []string{"GET /", "SELECT", "query", "</script>", "handle \"x\"", "操作", "", "a\nb"}
var dbs = []string{"mysql", "postgresql", "redis", "", "my<sql"}

// Opt bounds generated traces.
type Opt struct {
	MaxSpans int
	Service  string // service of the first root; empty: any
	Ties     bool   // let siblings start together
	Lose     bool   // some parents were not recorded
	Odd      bool   // spans outside their parent's time, ends before starts
}

// Gen draws a trace around the given time.
func Gen(t *rapid.T, id int, at time.Time, o Opt) *Trace {
	tr := &Trace{ID: make([]byte, 16)}
	tr.ID[15], tr.ID[14], tr.ID[0] = byte(id), byte(id>>8), byte(rapid.IntRange(0, 1).Draw(t, "idhigh"))*0xab
	n := rapid.IntRange(1, o.MaxSpans).Draw(t, "spans")
	pool := gen.Subset(t, "pool", services, rapid.IntRange(1, 4).Draw(t, "services"))
	bushy := rapid.IntRange(0, 2).Draw(t, "bushy")
	unit := []uint64{1, 1000, 1000000, 7000003}[rapid.IntRange(0, 3).Draw(t, "unit")]
	used := map[string]bool{}
	kids := map[int]int{}
	for i := 0; i < n; i++ {
		s := &Span{ID: []byte{0, 0, 0, 0, 0, 0, byte((i + 1) >> 8), byte(i + 1)}}
		if rapid.IntRange(0, 4).Draw(t, "idform") == 4 {
			s.ID = []byte{byte(i + 1), byte((i + 1) >> 8), 0, 0, 0, 0, 0, 0}
		}
		p := -1
		if i > 0 && (i == 1 || !gen.Chance(t, "root", 4)) {
			switch bushy {
			case 0:
				p = rapid.IntRange(0, i-1).Draw(t, "parent")
			case 1:
				p = i - 1 - rapid.IntRange(0, min(2, i-1)).Draw(t, "parent")
			default:
				p = rapid.IntRange(0, min(3, i-1)).Draw(t, "parent")
			}
		}
		s.Service = gen.Pick(t, "service", pool...)
		if p >= 0 && gen.Chance(t, "same", 40) {
			s.Service = tr.Spans[p].Service
		}
		if i == 0 && o.Service != "" {
			s.Service = o.Service
		}
		s.Name = gen.Pick(t, "name", names...)
		if p < 0 {
			s.Start = uint64(at.UnixNano()) + uint64(i)*unit
			s.End = s.Start + unit*uint64(rapid.IntRange(0, 1000).Draw(t, "len"))
			s.Parent = gen.Pick(t, "noparent", []byte(nil), make([]byte, 8))
		} else {
			par := tr.Spans[p]
			s.Parent = par.ID
			kids[p]++
			span := uint64(0)
			if par.End > par.Start {
				span = (par.End - par.Start) / unit
			}
			a := uint64(rapid.IntRange(0, int(span)).Draw(t, "from"))
			l := uint64(rapid.IntRange(0, int(span-a)).Draw(t, "len"))
			s.Start = par.Start + a*unit
			s.End = s.Start + l*unit
			if o.Odd {
				switch rapid.IntRange(0, 9).Draw(t, "odd") {
				case 7:
					s.End += unit * uint64(rapid.IntRange(1, 2000).Draw(t, "late"))
				case 8:
					s.Start = par.End + unit*uint64(rapid.IntRange(0, 500).Draw(t, "after"))
					s.End = s.Start + l*unit
				case 9:
					s.Start -= unit * uint64(rapid.IntRange(1, 500).Draw(t, "early"))
				case 6:
					if gen.Chance(t, "neg", 60) {
						s.Start, s.End = par.Start+(span-span/8)*unit, par.Start-unit
					}
				}
			}
			if !o.Ties {
				for used[fmt.Sprint(p, "/", s.Start)] {
					s.Start++
					if s.End < s.Start {
						s.End = s.Start
					}
				}
			} else if kids[p] > 1 && gen.Chance(t, "tie", 30) {
				for j := i - 1; j >= 0; j-- {
					if string(tr.Spans[j].Parent) == string(par.ID) {
						s.Start = tr.Spans[j].Start
						break
					}
				}
			}
			used[fmt.Sprint(p, "/", s.Start)] = true
		}
		if gen.Chance(t, "res", 3) && i > 0 {
			s.NoResource, s.Service = true, ""
		}
		s.Group = rapid.IntRange(0, 2).Draw(t, "group")
		s.Lib = rapid.IntRange(0, 1).Draw(t, "lib")
		s.Attrs = append(s.Attrs, Str("a", "b"))
		switch rapid.IntRange(0, 9).Draw(t, "attr") {
		case 5, 6, 7:
			s.DB, s.DBSystem = true, gen.Pick(t, "db", dbs...)
			s.Attrs = append(s.Attrs, Str("db.system", s.DBSystem))
		case 8:
			s.Attrs = append(s.Attrs, Values[rapid.IntRange(0, len(Values)-1).Draw(t, "value")]...)
		case 9:
			if gen.Chance(t, "dbint", 20) {
				s.DB = true
				s.Attrs = append(s.Attrs, &commonv1.KeyValue{Key: "db.system", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: 3}}})
			} else {
				s.Attrs = append(s.Attrs, Str("db.statement", "SELECT 1"), Str("db.systems", "x"))
			}
		}
		tr.Spans = append(tr.Spans, s)
	}
	if o.Lose && n > 2 && gen.Chance(t, "lose", 30) {
		k := rapid.IntRange(1, n-1).Draw(t, "lost")
		tr.Spans = append(tr.Spans[:k:k], tr.Spans[k+1:]...)
	}
	if gen.Chance(t, "shuffle", 50) {
		tr.Spans = rapid.Permutation(tr.Spans).Draw(t, "order")
	}
	return tr
}

// Values are attributes of all the kinds OpenTelemetry has, empty ones included.
var Values = [][]*commonv1.KeyValue{
	{{Key: "b", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: true}}}},
	{{Key: "i", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: -3}}}},
	{{Key: "d", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: 2.5}}}},
	{{Key: "y", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_BytesValue{BytesValue: []byte{1, 2}}}}},
	{{Key: "l", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: &commonv1.ArrayValue{Values: []*commonv1.AnyValue{Str("", "x").Value, {}}}}}}},
	{{Key: "m", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: &commonv1.KeyValueList{Values: []*commonv1.KeyValue{Str("k", "v"), {Key: "e", Value: &commonv1.AnyValue{}}}}}}}},
	{{Key: "e", Value: &commonv1.AnyValue{}}},
	{{Key: "n"}},
}
