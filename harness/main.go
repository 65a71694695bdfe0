// Command vh decides the properties of hangulize/hangulize by monitoring its
// executions. "vh ID" runs the check of the property.
package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
)

var checks = map[string]func(*Ctx){}

// children are subprocess entry points.
var children = map[string]func(args []string){}

func main() {
	if len(os.Args) < 2 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if os.Args[1] == "child" {
		children[os.Args[2]](os.Args[3:])
		return
	}
	id := os.Args[1]
	f, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(2)
	}
	if os.Getenv("VH_INNER") == "" {
		os.Exit(supervise(id))
	}
	c := newCtx(id)
	go c.watch()
	f(c)
	c.finish()
}

// supervise runs the check in a child process. A fatal error of the runtime,
// which cannot be recovered in the process, becomes a violation.
func supervise(id string) int {
	cmd := exec.Command(os.Args[0], id)
	cmd.Env = append(os.Environ(), "VH_INNER=1")
	cmd.Stdout = os.Stdout
	tail := &tailBuffer{}
	cmd.Stderr = io.MultiWriter(os.Stderr, tail)
	err := cmd.Run()
	if err == nil {
		return 0
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	code := ee.ExitCode()
	msg := tail.String()
	fatal := ""
	for _, sign := range []string{"fatal error: concurrent map", "fatal error: stack overflow", "fatal error: all goroutines are asleep", "runtime: goroutine stack exceeds", "fatal error: sync:", "fatal error: out of memory", "panic: "} {
		if i := strings.Index(msg, sign); i >= 0 {
			// A panic counts only if it comes from the code under test.
			if sign == "panic: " && !strings.Contains(blame(msg[i:]), "/repo/") {
				continue
			}
			fatal = msg[i:]
			break
		}
	}
	if code == 2 && fatal != "" {
		c := newCtx(id)
		c.Rule = "the run ended by a fatal error"
		c.Case("fatal")
		c.Fail("the process was killed by a fatal error", map[string]any{"stderr": truncate(fatal, 6000)})
		c.finish()
	}
	if code < 0 {
		return 3
	}
	return code
}

// blame finds the file of the frame that panicked.
func blame(stack string) string {
	for _, line := range strings.Split(stack, "\n") {
		l := strings.TrimSpace(line)
		if strings.HasPrefix(l, "/") && !strings.Contains(l, "/src/runtime/") && !strings.Contains(l, "/go1") && !strings.Contains(l, "/go/src/") {
			return l
		}
	}
	return ""
}

type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if len(t.b) < 1<<20 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string { return string(t.b) }
