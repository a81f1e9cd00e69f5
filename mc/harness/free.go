//go:build free

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"testing/synctest"

	"vrt"
)

// FreeRun is one run of a scenario against the unmodified code.
type FreeRun struct {
	Scenario string
	Envs     []vrt.EnvRec
	Data     []int
}

// FreeResult is what it did.
type FreeResult struct {
	Outcome string
	Failed  string
}

func main() {
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "free", F: free}}, nil, nil)
}

func free(t *testing.T) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	emit := func(r FreeResult) {
		data, _ := json.Marshal(r)
		_, _ = out.Write(append(data, '\n'))
		out.Flush()
	}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var r FreeRun
		if err := json.Unmarshal(line, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		s := find(r.Scenario)
		if s == nil {
			os.Exit(4)
		}
		synctest.Test(t, func(t *testing.T) {
			vrt.Begin(vrt.Plan{Envs: r.Envs, Data: r.Data}, func(prop, msg string) {
				emit(FreeResult{Failed: prop + ": " + msg})
				os.Exit(0)
			})
			var h *H
			s.Body(&h)
			o := ""
			if h != nil {
				vrt.Enter()
				o = h.Outcome()
				vrt.Leave()
			}
			emit(FreeResult{Outcome: o})
		})
	}
}
