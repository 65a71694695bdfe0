package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// repoBuild builds a package of /repo. Nothing in /repo is written.
func repoBuild(out, pkg string, env []string, flags ...string) error {
	dir, err := os.MkdirTemp(work(), "mod")
	if err != nil {
		return err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join("/repo", f))
		if err != nil {
			return err
		}
		if k := os.Getenv("VH_KAGOME"); f == "go.mod" && k != "" && strings.Contains(string(b), "github.com/ikawaha/kagome.ipadic ") {
			b = append(b, "\nreplace github.com/ikawaha/kagome.ipadic => "+k+"\n"...)
		}
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			return err
		}
	}
	args := append([]string{"build", "-buildvcs=false", "-modfile=" + filepath.Join(dir, "go.mod")}, flags...)
	args = append(args, "-o", out, pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = "/repo"
	cmd.Env = append(os.Environ(), env...)
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go build %s: %v\n%s", pkg, err, truncate(string(b), 4000))
	}
	return nil
}

// mustBuild ends the check without an answer if a package can't be built.
func (c *Ctx) mustBuild(out, pkg string, env []string, flags ...string) string {
	out = filepath.Join(work(), out)
	if err := repoBuild(out, pkg, env, flags...); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	return out
}

// tool is a command of a built binary in a clean environment.
func tool(bin string, stdin string, args ...string) *exec.Cmd {
	cmd := exec.Command(bin, args...)
	cmd.Dir = work()
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + work()}
	// The display widths depend on the locale.
	for _, k := range []string{"LC_ALL", "LC_CTYPE", "LANG", "RUNEWIDTH_EASTASIAN"} {
		if v, ok := os.LookupEnv(k); ok {
			cmd.Env = append(cmd.Env, k+"="+v)
		}
	}
	cmd.Stdin = strings.NewReader(stdin)
	return cmd
}
