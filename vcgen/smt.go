package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Solver wraps one incremental SMT process (z3 -in).
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	w       *bufio.Writer
	out     *bufio.Reader
	depth   int
	log     io.Writer
	trail   []string // asserted commands, for dumping failing queries
	marks   []int
	Queries int
	Time    time.Duration
	dead    bool
}

var slowLog = os.Getenv("VCGEN_SLOW") != ""

var totalQueries, totalSolverNs int64

func newSolver(preamble string, rlimit int, arith string, quick bool, seed int) (*Solver, error) {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	cmd := exec.Command(bin, "-in", "-smt2", "memory_max_size=3000")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	s := &Solver{cmd: cmd, in: in, w: bufio.NewWriterSize(in, 1<<16), out: bufio.NewReader(out)}
	if p := os.Getenv("VCGEN_SMTLOG"); p != "" {
		f, _ := os.Create(p)
		s.log = f
	}
	s.raw("(set-option :print-success false)")
	s.raw("(set-option :auto_config false)")
	s.raw("(set-option :smt.mbqi false)")
	s.raw("(set-option :smt.relevancy 2)")
	s.raw("(set-option :smt.qi.eager_threshold 30)")
	s.raw("(set-option :smt.arith.nl.delay 10)")
	s.raw(fmt.Sprintf("(set-option :smt.random_seed %d)", seed))
	s.raw(fmt.Sprintf("(set-option :rlimit %d)", rlimit))
	if quick {
		s.raw("(set-option :timeout 6000)")
	} else {
		s.raw("(set-option :timeout 20000)")
	}
	s.raw("(set-option :smt.arith.solver " + arith + ")")
	for _, o := range strings.Split(os.Getenv("VCGEN_OPTS"), ",") {
		if o != "" {
			s.raw("(set-option :" + strings.Replace(o, "=", " ", 1) + ")")
		}
	}
	s.raw(preamble)
	return s, nil
}

func (s *Solver) raw(c string) {
	if s.log != nil {
		fmt.Fprintln(s.log, c)
	}
	s.w.WriteString(c)
	s.w.WriteByte('\n')
}

func (s *Solver) cmdT(c string) {
	s.trail = append(s.trail, c)
	s.raw(c)
}

func (s *Solver) push() {
	s.marks = append(s.marks, len(s.trail))
	s.raw("(push)")
	s.depth++
}

func (s *Solver) pop() {
	n := len(s.marks) - 1
	s.trail = s.trail[:s.marks[n]]
	s.marks = s.marks[:n]
	s.raw("(pop)")
	s.depth--
}

func (s *Solver) assert(e string) {
	if e == "true" {
		return
	}
	s.cmdT("(assert " + e + ")")
}

// check returns "sat", "unsat" or "unknown".
func (s *Solver) check() string {
	if s.dead {
		return "unknown"
	}
	t := time.Now()
	s.raw("(check-sat)")
	s.w.Flush()
	var res string
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			panic(verifierError{"solver process ended: " + err.Error()})
		}
		line = strings.TrimSpace(line)
		if line == "sat" || line == "unsat" || line == "unknown" || line == "timeout" {
			res = line
			break
		}
		if strings.HasPrefix(line, "(error") {
			if strings.Contains(line, "canceled") || strings.Contains(line, "resource") || strings.Contains(line, "memout") {
				continue
			}
			panic(verifierError{"solver: " + line})
		}
	}
	d := time.Since(t)
	s.Queries++
	s.Time += d
	if slowLog && d > 400*time.Millisecond && len(s.trail) > 0 {
		fmt.Fprintf(os.Stderr, "SLOW %v %s %.400s\n", d.Round(time.Millisecond), res, s.trail[len(s.trail)-1])
	}
	atomic.AddInt64(&totalQueries, 1)
	atomic.AddInt64(&totalSolverNs, int64(d))
	if res == "timeout" {
		res = "unknown"
	}
	return res
}

// valid checks whether e follows from the assertions.
func (s *Solver) valid(e string) bool {
	if e == "true" {
		return true
	}
	s.push()
	s.assert("(not " + e + ")")
	r := s.check()
	s.pop()
	return r == "unsat"
}

func (s *Solver) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// validFresh decides the same query in solver processes of its own.
func (s *Solver) validFresh(goal string) bool {
	var b strings.Builder
	s.script(&b, goal)
	text, t := b.String(), time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	res := make(chan bool, 4)
	n := 0
	for _, c := range [][]string{{"z3-new"}, {"z3", "smt.arith.solver=2"}, {"z3", "smt.arith.solver=6"}} {
		if _, err := exec.LookPath(c[0]); err != nil {
			continue
		}
		n++
		args := append([]string{"-in", "-smt2", "memory_max_size=3000"}, c[1:]...)
		cmd := exec.CommandContext(ctx, c[0], args...)
		cmd.Stdin = strings.NewReader(text)
		go func() {
			out, _ := cmd.Output()
			res <- strings.TrimSpace(string(out)) == "unsat"
		}()
	}
	ok := false
	for ; n > 0 && !ok; n-- {
		ok = <-res
	}
	atomic.AddInt64(&totalQueries, 1)
	atomic.AddInt64(&totalSolverNs, int64(time.Since(t)))
	s.Queries++
	s.Time += time.Since(t)
	if slowLog {
		fmt.Fprintf(os.Stderr, "FRESH %v %v %.100s\n", time.Since(t).Round(time.Millisecond), ok, goal)
	}
	return ok
}

func (s *Solver) dump(path, goal string) {
	f, err := os.Create(path)
	if err != nil {
		return
	}
	defer f.Close()
	s.script(f, goal)
}

func (s *Solver) script(f io.Writer, goal string) {
	fmt.Fprintln(f, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.eager_threshold 30)")
	fmt.Fprintln(f, thePreamble)
	for _, c := range s.trail {
		fmt.Fprintln(f, c)
	}
	if goal != "" {
		fmt.Fprintln(f, "(assert (not "+goal+"))")
	}
	fmt.Fprintln(f, "(check-sat)")
}

type verifierError struct{ msg string }

func (e verifierError) Error() string { return e.msg }
