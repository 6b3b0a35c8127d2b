package otelfake

import (
	"fmt"
	"os"

	"verif/harness/tool"
)

// UI is the address of the Jaeger UI given to runs.
const UI = "http://jaeger.example:16686"

// Dig runs "app dig jaeger" against the server and reads the report.
func (s *Server) Dig(out string, args ...string) (*tool.JaegerReport, error, error) {
	os.Remove(out)
	if err := tool.JaegerDig(out, UI, s.Addr, args); err != nil {
		return nil, err, nil
	}
	p, err := tool.ReadReport(out)
	if err != nil {
		return nil, nil, err
	}
	r, err := p.Decode()
	if err != nil {
		return nil, nil, err
	}
	if r.DigData == nil || r.DigData.Jaeger == nil || r.SuggestData != nil {
		return nil, nil, fmt.Errorf("the report does not consist of Jaeger data")
	}
	return r.DigData.Jaeger, nil, nil
}

// Asked returns the number of requests received since the last Reset.
func (s *Server) Asked() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.Requests)
}
