package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// childResult is how a child process ended.
type childResult struct {
	Stdout, Stderr string
	Code           int
	Stuck          string // why it was stopped
	CPU            time.Duration
}

// work is the directory for files of a run.
func work() string {
	if w := os.Getenv("VH_WORK"); w != "" {
		return w
	}
	return os.TempDir()
}

// runProc runs a process to its end. It is stopped once it neither ends nor
// uses the processor for a long time, or when it uses far too much of it.
func runProc(cmd *exec.Cmd, maxCPU time.Duration) childResult {
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 5 * time.Second
	var res childResult
	if err := cmd.Start(); err != nil {
		res.Code, res.Stderr = -1, err.Error()
		return res
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	last, lastAt := time.Duration(0), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-ctx.Done():
		case <-tick.C:
			cpu := procCPU(cmd.Process.Pid)
			if cpu-last > 50*time.Millisecond {
				last, lastAt = cpu, time.Now()
			}
			if res.Stuck != "" {
				continue
			}
			if time.Since(lastAt) > 60*time.Second {
				res.Stuck = "it has been waiting for a minute"
			} else if cpu > maxCPU {
				res.Stuck = fmt.Sprintf("it has used %v of CPU time", cpu)
			}
			if res.Stuck != "" {
				cmd.Process.Signal(syscall.SIGQUIT)
				time.AfterFunc(3*time.Second, func() { cmd.Process.Kill() })
			}
		}
	}
	if err != nil {
		res.Code = -1
	}
	if cmd.ProcessState != nil {
		res.Code = cmd.ProcessState.ExitCode()
		res.CPU = cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
	}
	res.Stdout, res.Stderr = out.String(), errb.String()
	return res
}

func procCPU(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+k) * 10 * time.Millisecond
}

// childCmd is a command running an entry point of the harness.
func childCmd(name string, env []string, args ...string) *exec.Cmd {
	cmd := exec.Command(os.Args[0], append([]string{"child", name}, args...)...)
	cmd.Env = append(os.Environ(), env...)
	return cmd
}
