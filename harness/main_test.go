package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/pprof"
	"testing"
)

// The test binary is the checker: "check PROP", "replay FILE", ... Workers are
// the same binary run as a test, because simulated time needs a testing.T.
func TestMain(m *testing.M) {
	if os.Getenv("VERIF_WORKER") == "1" {
		os.Exit(m.Run())
	}
	os.Exit(Main(os.Args[1:]))
}

type job struct {
	Index int   `json:"index"`
	Plan  *Plan `json:"plan"`
	Log   bool  `json:"log"`
}

func TestWorker(t *testing.T) {
	dir := os.Getenv("VERIF_DIR")
	known := loadFindings(dir)
	if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
		fi, _ := os.Create(fmt.Sprintf("%s.%d", f, os.Getpid()))
		pprof.StartCPUProfile(fi)
		defer pprof.StopCPUProfile()
	}
	in := bufio.NewReaderSize(os.NewFile(3, "jobs"), 1<<20)
	out := os.NewFile(4, "results")
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if err := json.Unmarshal(line, &j); err != nil {
			panic(err)
		}
		j.Plan.known = known
		r := runPlan(t, j.Plan, j.Log)
		r.Index = j.Index
		b, err := json.Marshal(r)
		if err != nil {
			panic(err)
		}
		fmt.Fprintf(out, "%s\n", b)
	}
}
