// Package pages opens report pages in the client harness (a node process) and returns what they show.
package pages

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
)

type Browser struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

func Start() *Browser {
	h := os.Getenv("VERIF_HARNESS")
	if h == "" {
		h = "/verif/harness"
	}
	cmd := exec.Command("node", filepath.Join(h, "client", "serve.mjs"))
	cmd.Env = append(os.Environ(), "NODE_PATH=/opt/veriftools/node/node_modules", "LC_ALL=en_US.UTF-8", "LANG=en_US.UTF-8")
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err == nil {
		var out io.ReadCloser
		if out, err = cmd.StdoutPipe(); err == nil {
			if err = cmd.Start(); err == nil {
				return &Browser{in: in, out: bufio.NewReaderSize(out, 1<<20), cmd: cmd}
			}
		}
	}
	Broken(err)
	return nil
}

// Broken ends the run: the harness, not the code under test, failed.
func Broken(err interface{}) {
	fmt.Println("the page harness failed:", err)
	os.Exit(3)
}

func (b *Browser) Close() { b.in.Close(); _ = b.cmd.Wait() }

// Open shows the page of a report's data. The error is the page's own failure.
func (b *Browser) Open(kind string, param json.RawMessage, into interface{}) error {
	line, err := json.Marshal(map[string]interface{}{"kind": kind, "param": param})
	if err != nil {
		return err
	}
	if _, err := b.in.Write(append(line, '\n')); err != nil {
		Broken(err)
	}
	ans, err := b.out.ReadBytes('\n')
	if err != nil {
		Broken(err)
	}
	var e struct{ Error, Harness string }
	if err := json.Unmarshal(ans, &e); err != nil {
		Broken(err)
	}
	if e.Harness != "" {
		Broken(e.Harness)
	}
	if e.Error != "" {
		return fmt.Errorf("the page fails: %s", e.Error)
	}
	if err := json.Unmarshal(ans, into); err != nil {
		Broken(err)
	}
	return nil
}

type Command struct {
	Error string
	Vars  map[string]string
	Words []string
	Rest  []string
	Opts  map[string][]string
}

type Suggest struct {
	SQL      *string
	Gql      *string
	Plan     []string
	Bars     []int
	Suggest  []string
	Commands []Command
	Results  [][]string
}

type Bar struct {
	X   interface{}
	Y   float64
	Tip string
}

type Chart struct {
	Series []struct {
		Name string
		Data []Bar
	}
}

type PI map[string]struct {
	Charts []Chart
	Dbs    int
}

type Jaeger map[string][]struct {
	Cells    []string
	Links    []string
	Diagrams []string
}
