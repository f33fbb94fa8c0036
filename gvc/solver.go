package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Result of a satisfiability query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver is one persistent SMT solver process.
type Solver struct {
	name string
	args []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	mu   sync.Mutex
}

var (
	statQueries  int64
	statSolverNS int64
	dumpDir      = os.Getenv("GVC_DUMP")
	dumpN        int64
	backendUsed  sync.Map
)

func NewZ3() *Solver { return &Solver{name: "z3", args: []string{z3Path(), "-in", "-smt2"}} }

func z3Path() string {
	if p := os.Getenv("GVC_Z3"); p != "" {
		return p
	}
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check runs one query (a script without check-sat) with a time limit.
func (s *Solver) Check(script string, limit time.Duration) (Result, string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&statQueries, 1)
		atomic.AddInt64(&statSolverNS, int64(time.Since(t0)))
	}()
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, err.Error()
		}
	}
	var b strings.Builder
	b.WriteString("(reset)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 0)\n")
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", limit.Milliseconds())
	b.WriteString("(push)\n")
	b.WriteString(script)
	b.WriteString("(check-sat)\n(echo \"@@done\")\n")
	q := b.String()
	type ans struct {
		r   Result
		msg string
		err error
	}
	done := make(chan ans, 1)
	in, out := s.in, s.out
	go func() {
		if _, err := io.WriteString(in, q); err != nil {
			done <- ans{Unknown, "write: " + err.Error(), err}
			return
		}
		a := ans{Unknown, "", nil}
		for {
			line, err := out.ReadString('\n')
			if err != nil {
				done <- ans{Unknown, "read: " + err.Error(), err}
				return
			}
			line = strings.TrimSpace(line)
			switch {
			case line == "@@done" || line == "\"@@done\"":
				done <- a
				return
			case line == "unsat":
				a.r = Unsat
			case line == "sat":
				a.r = Sat
			case line == "unknown", line == "timeout":
				a.r = Unknown
			case strings.HasPrefix(line, "(error"):
				a.msg += line + "\n"
			}
		}
	}()
	var a ans
	select {
	case a = <-done:
	case <-time.After(limit + 5*time.Second):
		a = ans{Unknown, "hard timeout", io.EOF}
	}
	if a.err != nil {
		s.Close()
	}
	if a.msg != "" && a.err == nil {
		a.r = Unknown
		if strings.Contains(a.msg, "error") {
			fmt.Fprintln(os.Stderr, "solver error:", clip(a.msg, 600))
			if dumpDir != "" {
				os.WriteFile(fmt.Sprintf("%s/error.smt2", dumpDir), []byte(script), 0o644)
			}
		}
	}
	if dumpDir != "" && os.Getenv("GVC_DUMPALL") != "" && a.r == Unsat {
		os.WriteFile(fmt.Sprintf("%s/unsat%d.smt2", dumpDir, atomic.AddInt64(&dumpN, 1)), []byte(script+"(check-sat)\n"), 0o644)
	}
	if dumpDir != "" && time.Since(t0) > 800*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", dumpDir, atomic.AddInt64(&dumpN, 1)), []byte("(push)\n"+script+"(check-sat)\n"), 0o644)
	}
	return a.r, a.msg
}

// checkOneShot runs a separate solver process on a script.
func checkOneShot(bin string, args []string, script string, limit time.Duration) Result {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&statQueries, 1)
		atomic.AddInt64(&statSolverNS, int64(time.Since(t0)))
	}()
	cmd := exec.Command(bin, args...)
	cmd.Stdin = strings.NewReader("(push 1)\n" + script + "(check-sat)\n")
	var out strings.Builder
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		return Unknown
	}
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return Unknown
	}
	switch strings.TrimSpace(strings.SplitN(out.String(), "\n", 2)[0]) {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}
