package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
)

// cliResult is the outcome of one command.
type cliResult struct {
	out      string
	code     int
	timedOut bool
	crashed  bool // ended by an unrecovered panic or a runtime error
}

// runHX runs the horcrux binary in dir with HOME there.
func runHX(dir string, timeout time.Duration, args ...string) cliResult {
	return runProg(dir, timeout, env.HX, args...)
}

func runProg(dir string, timeout time.Duration, prog string, args ...string) cliResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, prog, args...)
	cmd.Dir = dir
	cmd.Env = hxEnv(dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	r := cliResult{out: b.String()}
	if ctx.Err() != nil {
		r.timedOut = true
		return r
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		} else {
			pbt.Harness("running %v: %v", args, err)
		}
	}
	r.crashed = r.code == 2 && strings.Contains(r.out, "goroutine ") || r.code == -1
	return r
}

func hxEnv(dir string) []string {
	var e []string
	for _, kv := range os.Environ() {
		k := strings.ToUpper(strings.SplitN(kv, "=", 2)[0])
		if k == "HOME" || strings.HasPrefix(k, "HORCRUX") || k == "GORACE" {
			continue
		}
		e = append(e, kv)
	}
	return append(e, "HOME="+dir)
}

// snapshot reads every file below dir.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			m[rel+"/"] = ""
		} else {
			m[rel] = string(fileBytes(p))
		}
		return nil
	})
	return m
}

// diffSnap describes how two snapshots differ ("" if they do not).
func diffSnap(a, b map[string]string) string {
	var d []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			d = append(d, "removed "+k)
		} else if v != w {
			d = append(d, fmt.Sprintf("changed %s from %q to %q", k, v, w))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			d = append(d, fmt.Sprintf("created %s %q", k, v))
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

// hxProc is a running horcrux process.
type hxProc struct {
	cmd  *exec.Cmd
	out  *lockedWriter
	dead chan struct{}
	code int
}

// startHX starts the horcrux binary in dir.
func startHX(t *pbt.T, dir string, args ...string) *hxProc {
	p := &hxProc{out: &lockedWriter{b: &bytes.Buffer{}, m: &sync.Mutex{}}, dead: make(chan struct{})}
	p.cmd = exec.Command(env.HX, args...)
	p.cmd.Dir = dir
	p.cmd.Env = append(hxEnv(dir), "GOMAXPROCS=2")
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	pbt.Must(p.cmd.Start())
	go func() {
		_ = p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.dead)
	}()
	t.Defer(p.kill)
	return p
}

func (p *hxProc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.dead
}

// stop asks the process to end; false if it does not.
func (p *hxProc) stop(timeout time.Duration) bool {
	_ = p.cmd.Process.Signal(syscall.SIGTERM)
	return p.ended(timeout)
}

func (p *hxProc) ended(timeout time.Duration) bool {
	select {
	case <-p.dead:
		return true
	case <-time.After(timeout):
		return false
	}
}

func (p *hxProc) alive() bool { return !p.ended(0) }

func (p *hxProc) output() string {
	p.out.m.Lock()
	defer p.out.m.Unlock()
	return p.out.b.String()
}
