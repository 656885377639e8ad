// Command cli checks the command line tool: keys, configurations for users, the server it starts, diagrams.
package main

import (
	"bytes"
	"context"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"verif/core"
)

func main() { core.Main(checkP25, checkP26, checkP27) }

func scratch() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// tool is the program, built from the tree under test by run.sh.
func tool() string { return filepath.Join(scratch(), "dctl") }

// place makes a directory for a case.
func place() string {
	d, err := os.MkdirTemp(scratch(), "case-")
	if err != nil {
		core.Abort("scratch directory: %v", err)
	}
	return d
}

type ran struct {
	code     int
	out, err string
}

// dctl runs the program in a directory and waits for its end.
func dctl(dir string, env []string, args ...string) ran {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	c := exec.CommandContext(ctx, tool(), args...)
	c.Dir = dir
	c.Env = append([]string{"HOME=" + dir, "PATH=/usr/bin:/bin"}, env...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	r := ran{out: o.String(), err: e.String()}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
	default:
		core.Abort("running %s: %v", tool(), err)
	}
	if ctx.Err() != nil {
		r.code = -9
	}
	return r
}

func write(path, s string) {
	if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
		core.Abort("%v", err)
	}
}

func short(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func lockThread() { runtime.LockOSThread() }
