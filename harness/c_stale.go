package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
)

// staleReport is what the command stale prints.
type staleReport struct {
	Calls, Wrong int64
	First        *struct{ Word, First, Later, After string }
}

// runStale builds and runs the command stale with a module file.
func runStale(mod, limit string) staleReport {
	bin := filepath.Join(work(), "stale-"+filepath.Base(filepath.Dir(mod)))
	cmd := exec.Command("go", "build", "-modfile="+mod, "-o", bin, "./stale")
	cmd.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "harness")
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "go build ./stale: %v\n%s", err, truncate(string(b), 2000))
		os.Exit(4)
	}
	res := runProc(exec.Command(bin, limit), 300e9)
	var r staleReport
	if err := json.Unmarshal([]byte(res.Stdout), &r); err != nil {
		fmt.Fprintf(os.Stderr, "stale: code %d %s\n%s\n", res.Code, res.Stuck, truncate(res.Stderr, 3000))
		if res.Code == 0 {
			os.Exit(4)
		}
		r.Wrong, r.First = -1, &struct{ Word, First, Later, After string }{Later: truncate(res.Stderr, 3000)}
	}
	return r
}

// checkStale demonstrates the known finding of the morphological analyzer, and
// that nothing but it lets the reading of a word depend on the calls before.
func checkStale(c *Ctx) {
	r := runStale(filepath.Join(work(), "go.mod"), fmt.Sprintf("%ds", c.N(2, 20)))
	c.Count("readings_in_many_goroutines", int(r.Calls))
	if r.First != nil {
		c.Fail("the reading of a word depends on the calls before", map[string]any{"word": r.First.Word, "first": r.First.First, "later": r.First.Later, "wrong": r.Wrong, "calls": r.Calls})
		return
	}
	if os.Getenv("VH_KAGOME") == "" {
		return
	}
	r = runStale(filepath.Join(work(), "plain", "go.mod"), fmt.Sprintf("%ds", c.N(20, 60)))
	if r.First != nil {
		c.Known("stale-cost", fmt.Sprintf("the furigana of %q became %q instead of %q %s after the start of 16 goroutines (%d of %d readings wrong): kagome.ipadic reuses lattice nodes without clearing their costs", r.First.Word, r.First.Later, r.First.First, r.First.After, r.Wrong, r.Calls), map[string]any{"word": r.First.Word, "later": r.First.Later})
	}
}
