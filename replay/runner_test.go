package replay

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/juju/errors"

	"github.com/juju/worker/v4"
)

const restartDelay = 7 * time.Second

// ---- a model of the runner, driven step by step alongside the real one

type rstate int

const (
	rAbsent rstate = iota
	rDelay
	rStarting
	rRunning
)

func (s rstate) String() string { return [...]string{"absent", "delay", "starting", "running"}[s] }

type rent struct {
	st       rstate
	stopping bool
	starts   int // calls of the start function that should have happened
	began    time.Time
}

type startCall struct {
	id   string
	n    int
	fn   int
	gate chan error
	w    *testWorker
}

type runnerRig struct {
	t     *testing.T
	r     *worker.Runner
	clk   *fakeClock
	mu    sync.Mutex
	calls map[string][]*startCall
	bad   []string
	log   []string

	m         map[string]*rent
	fn        map[string]int // start function to be used
	fnSeq     int
	dying     bool
	tombed    bool
	final     error
	important func(a, b error) bool
	delays    int
	waitc     chan error
}

func rank(e error) int {
	switch e {
	case errFatal1:
		return 1
	case errFatal2:
		return 2
	case errFatal3:
		return 3
	}
	return 0
}

func newRunnerRig(t *testing.T, important func(a, b error) bool) *runnerRig {
	g := &runnerRig{t: t, clk: newClock(), calls: map[string][]*startCall{}, m: map[string]*rent{}, fn: map[string]int{}, important: important, waitc: make(chan error, 1)}
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:          "r",
		Clock:         g.clk,
		RestartDelay:  restartDelay,
		IsFatal:       func(e error) bool { return rank(e) > 0 },
		ShouldRestart: func(e error) bool { return e != errNoAgain },
		MoreImportant: important,
	})
	if err != nil {
		t.Fatal(err)
	}
	g.r = r
	go func() { g.waitc <- r.Wait() }()
	// a worker that is always there makes it visible when the runner has
	// noticed that it should stop
	e := g.ent("sentinel")
	e.st, e.starts, e.began = rStarting, 1, g.clk.Now()
	r.StartWorker(context.Background(), "sentinel", g.startFn("sentinel", 0))
	g.check()
	g.last("sentinel").gate <- errOKStart
	e.st = rRunning
	g.check()
	return g
}

func (g *runnerRig) startFn(id string, fn int) worker.StartFunc {
	return func(ctx context.Context) (worker.Worker, error) {
		g.mu.Lock()
		cs := g.calls[id]
		if n := len(cs); n > 0 {
			last := cs[n-1]
			if last.gate != nil {
				g.bad = append(g.bad, fmt.Sprintf("%s started while still being started", id))
			} else if last.w != nil && (!last.w.isDone() || last.w.waited() == 0) {
				g.bad = append(g.bad, fmt.Sprintf("%s started while %v is running", id, last.w))
			}
		}
		c := &startCall{id: id, n: len(cs), fn: fn, gate: make(chan error)}
		gate := c.gate
		g.calls[id] = append(cs, c)
		g.mu.Unlock()
		err := <-gate
		g.mu.Lock()
		defer g.mu.Unlock()
		c.gate = nil
		if err == errPanic {
			panic("boom")
		}
		if err != nil && err != errOKStart {
			return nil, err
		}
		c.w = newWorker(id, c.n)
		return c.w, nil
	}
}

var (
	errOKStart = errors.New("ok")
	errPanic   = errors.New("panic")
)

func (g *runnerRig) note(f string, a ...any) { g.log = append(g.log, fmt.Sprintf(f, a...)) }

func (g *runnerRig) ent(id string) *rent {
	e := g.m[id]
	if e == nil {
		e = &rent{}
		g.m[id] = e
	}
	return e
}

func (g *runnerRig) last(id string) *startCall {
	g.mu.Lock()
	defer g.mu.Unlock()
	cs := g.calls[id]
	if len(cs) == 0 {
		return nil
	}
	return cs[len(cs)-1]
}

// done: the model's reaction to the exit of a worker.
func (g *runnerRig) done(id string, err error) {
	e := g.ent(id)
	remove := func() { e.st, e.stopping = rAbsent, false }
	switch {
	case err == nil && !e.stopping:
		remove()
	case err != nil && rank(err) > 0:
		if g.final == nil || (g.important != nil && g.important(err, g.final)) {
			g.final = err
		}
		remove()
		if !g.dying {
			g.dying = true
			g.stopAll()
		}
	case err != nil && err == errNoAgain:
		remove()
	case e.stopping:
		remove()
	default:
		e.st = rDelay
		g.delays++
		e.began = g.clk.Now()
		if g.tombed {
			remove()
		}
	}
}

func (g *runnerRig) stopAll() {
	for _, e := range g.m {
		if e.st != rAbsent {
			e.stopping = true
			if g.tombed && e.st == rDelay {
				e.st, e.stopping = rAbsent, false
			}
		}
	}
}

// check compares the runner with the model.
func (g *runnerRig) check() {
	g.t.Helper()
	msg := until(long, g.diff)
	if msg != "" {
		g.t.Fatalf("%s\nafter:\n  %s", msg, strings.Join(g.log, "\n  "))
	}
}

func (g *runnerRig) diff() string {
	g.mu.Lock()
	defer g.mu.Unlock()
	if len(g.bad) > 0 {
		return strings.Join(g.bad, "; ")
	}
	var want []string
	for id, e := range g.m {
		if e.st != rAbsent {
			want = append(want, id)
		}
		cs := g.calls[id]
		if len(cs) != e.starts {
			return fmt.Sprintf("%s: start function called %d times, should be %d (%v)", id, len(cs), e.starts, e.st)
		}
		if len(cs) > 0 && cs[len(cs)-1].fn != g.fn[id] {
			return fmt.Sprintf("%s: the wrong start function was called", id)
		}
		for i, c := range cs {
			cur := i == len(cs)-1
			if cur && e.st == rStarting && c.gate == nil {
				return id + ": not in the start function"
			}
			if cur && e.st == rRunning {
				if c.w == nil {
					return id + ": no instance"
				}
				if c.w.isKilled() != e.stopping {
					return fmt.Sprintf("%s: instance killed is %v, should be %v", id, c.w.isKilled(), e.stopping)
				}
			}
		}
	}
	sort.Strings(want)
	got := g.r.WorkerNames()
	sort.Strings(got)
	if len(want)+len(got) > 0 && !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("registered workers are %v, should be %v", got, want)
	}
	ds := g.clk.Afters()
	if len(ds) != g.delays {
		return fmt.Sprintf("%d restart delays, should be %d", len(ds), g.delays)
	}
	for _, d := range ds {
		if d != restartDelay {
			return fmt.Sprintf("restart delay of %v, should be %v", d, restartDelay)
		}
	}
	rep, _ := g.r.Report()["workers"].(map[string]interface{})
	if len(rep) != len(want) {
		return fmt.Sprintf("report lists %v, should list %v", rep, want)
	}
	for _, id := range want {
		e := g.m[id]
		d, _ := rep[id].(map[string]interface{})
		st := "stopped"
		if e.st == rRunning && !e.stopping {
			st = "started"
		}
		if d[worker.KeyState] != st {
			return fmt.Sprintf("%s is reported as %v, should be %v", id, d[worker.KeyState], st)
		}
		if e.st == rRunning {
			if s := e.began.Format("2006-01-02 15:04:05"); d[worker.KeyLastStart] != s {
				return fmt.Sprintf("%s is reported as started at %v, should be %v", id, d[worker.KeyLastStart], s)
			}
		}
	}
	over := g.dying && len(want) == 0
	select {
	case err := <-g.waitc:
		if !over {
			return fmt.Sprintf("runner stopped with %v, should be running", err)
		}
		g.waitc <- err
		if err != g.final {
			return fmt.Sprintf("runner stopped with %v, should be %v", err, g.final)
		}
	default:
		if over {
			return "runner has not stopped"
		}
	}
	return ""
}

func (g *runnerRig) lookups() {
	g.t.Helper()
	over := true
	for _, e := range g.m {
		over = over && e.st == rAbsent
	}
	dead := g.tombed || g.dying && over
	closed := make(chan struct{})
	close(closed)
	for _, id := range []string{"a", "b", "c", "never"} {
		var w worker.Worker
		var err error
		within(g.t, "Worker("+id+")", func() { w, err = g.r.Worker(id, closed) })
		e := g.m[id]
		ok := false
		switch {
		case dead && e != nil && e.st != rAbsent:
			ok = w == nil && (err == worker.ErrDead || err == worker.ErrAborted)
		case dead:
			ok = w == nil && err == worker.ErrDead
		case e == nil || e.st == rAbsent:
			ok = w == nil && errors.Is(err, errors.NotFound)
		case e.st == rRunning && !e.stopping:
			ok = err == nil && w == worker.Worker(g.last(id).w)
		default:
			ok = w == nil && err == worker.ErrAborted
		}
		if !ok {
			g.t.Fatalf("lookup of %s gives %v, %v\nafter:\n  %s", id, w, err, strings.Join(g.log, "\n  "))
		}
	}
}

func (g *runnerRig) step(rnd *rand.Rand) {
	ids := []string{"a", "b", "c"}
	id := ids[rnd.Intn(len(ids))]
	e := g.ent(id)
	over := g.dying
	for _, x := range g.m {
		over = over && x.st == rAbsent
	}
	if s := g.ent("sentinel"); s.stopping && s.st == rRunning && rnd.Intn(3) == 0 {
		g.note("sentinel exits")
		g.last("sentinel").w.finish(nil)
		g.done("sentinel", nil)
		return
	}
	switch k := rnd.Intn(20); {
	case k < 6: // start
		g.note("start %s", id)
		g.fnSeq++
		fn := g.fnSeq
		var err error
		within(g.t, "StartWorker", func() { err = g.r.StartWorker(context.Background(), id, g.startFn(id, fn)) })
		switch {
		case over:
			if err != worker.ErrDead {
				g.t.Fatalf("StartWorker on a dead runner: %v", err)
			}
		case g.dying:
			if err != nil && err != worker.ErrDead {
				g.t.Fatalf("StartWorker on a dying runner: %v", err)
			}
		case e.st != rAbsent:
			if !errors.Is(err, errors.AlreadyExists) {
				g.t.Fatalf("StartWorker for a known id: %v\n%s", err, strings.Join(g.log, "\n"))
			}
		default:
			if err != nil {
				g.t.Fatalf("StartWorker: %v", err)
			}
			e.st = rStarting
			e.starts++
			g.fn[id] = fn
		}
	case k < 10: // let a start function return
		if e.st != rStarting {
			return
		}
		errs := []error{errOKStart, errOKStart, errOKStart, errPlain, errNoAgain, errFatal1}
		err := errs[rnd.Intn(len(errs))]
		g.note("start of %s returns %v", id, err)
		e.began = g.clk.Now()
		g.last(id).gate <- err
		if err == errOKStart {
			e.st = rRunning
		} else {
			g.done(id, err)
		}
	case k < 14: // a worker exits
		if e.st != rRunning {
			return
		}
		errs := []error{nil, errPlain, errPlain, errNoAgain, errPlain, errFatal1, errFatal2, errFatal3}
		n := len(errs)
		if !g.dying && rnd.Intn(3) > 0 {
			n = 5
		}
		err := errs[rnd.Intn(n)]
		g.note("%s exits with %v", id, err)
		g.last(id).w.finish(err)
		g.done(id, err)
	case k < 16:
		g.note("stop %s", id)
		var err error
		within(g.t, "StopWorker", func() { err = g.r.StopWorker(id) })
		if over {
			if err != worker.ErrDead {
				g.t.Fatalf("StopWorker on a dead runner: %v", err)
			}
		} else if err != nil {
			g.t.Fatalf("StopWorker: %v", err)
		} else if e.st != rAbsent {
			e.stopping = true
		}
	case k < 19:
		d := restartDelay
		if rnd.Intn(2) == 0 {
			d = restartDelay/2 + 1
		}
		g.note("advance %v", d)
		g.clk.Advance(d)
		for _, x := range g.m {
			if x.st == rDelay && !g.clk.Now().Before(x.began.Add(restartDelay)) {
				x.st = rStarting
				x.starts++
			}
		}
	default:
		if rnd.Intn(4) > 0 {
			return
		}
		g.note("kill")
		g.r.Kill()
		g.dying, g.tombed = true, true
		g.stopAll()
	}
}

func TestRunnerModel(t *testing.T) {
	for s := 0; s < seeds()*4; s++ {
		seed := base() + int64(s)
		rnd := rand.New(rand.NewSource(seed))
		var imp func(a, b error) bool
		if s%3 != 0 {
			imp = func(a, b error) bool { return rank(a) > rank(b) }
		}
		t.Run(fmt.Sprint(seed), func(t *testing.T) {
			g := newRunnerRig(t, imp)
			defer g.end()
			for i := 0; i < 40; i++ {
				g.step(rnd)
				g.check()
				if rnd.Intn(3) == 0 {
					g.lookups()
				}
			}
			// wind up
			g.note("final kill")
			g.r.Kill()
			g.dying, g.tombed = true, true
			g.stopAll()
			g.check()
			for _, id := range []string{"a", "b", "c"} {
				if e := g.ent(id); e.st == rStarting {
					g.note("start of %s returns", id)
					g.last(id).gate <- errOKStart
					e.st = rRunning
					e.began = g.clk.Now()
					g.check()
				}
			}
			for _, id := range []string{"a", "b", "c", "sentinel"} {
				if e := g.ent(id); e.st == rRunning {
					g.note("%s exits", id)
					g.last(id).w.finish(errPlain)
					g.done(id, errPlain)
					g.check()
				}
			}
			g.lookups()
		})
	}
}

func (g *runnerRig) end() {
	g.r.Kill()
	g.mu.Lock()
	defer g.mu.Unlock()
	for _, cs := range g.calls {
		for _, c := range cs {
			if c.w != nil {
				c.w.finish(nil)
			}
			if c.gate != nil {
				gate := c.gate
				go func() {
					select {
					case gate <- errPlain:
					case <-time.After(time.Second):
					}
				}()
			}
		}
	}
}

// ---- particular histories

func simpleRunner(t *testing.T, p worker.RunnerParams) *worker.Runner {
	if p.Name == "" {
		p.Name = "r"
	}
	r, err := worker.NewRunner(p)
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func give(w worker.Worker) worker.StartFunc {
	return func(context.Context) (worker.Worker, error) { return w, nil }
}

func TestRunnerParams(t *testing.T) {
	if _, err := worker.NewRunner(worker.RunnerParams{}); err == nil {
		t.Fatal("a runner without a name")
	}
	// defaults: every error is fatal, and the first one counts
	r := simpleRunner(t, worker.RunnerParams{})
	a, b := newWorker("a", 0), newWorker("b", 0)
	r.StartWorker(context.Background(), "a", give(a))
	r.StartWorker(context.Background(), "b", give(b))
	must(t, "started", func() bool { w, _ := r.Worker("b", nil); return w != nil })
	must(t, "started", func() bool { w, _ := r.Worker("a", nil); return w != nil })
	a.finish(errPlain)
	must(t, "b killed", b.isKilled)
	b.finish(errFatal1)
	within(t, "Wait", func() {
		if err := r.Wait(); err != errPlain {
			t.Fatalf("Wait returned %v", err)
		}
	})
	// default delay
	clk := newClock()
	r = simpleRunner(t, worker.RunnerParams{Clock: clk, IsFatal: func(error) bool { return false }})
	n := make(chan struct{}, 10)
	r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) { n <- struct{}{}; return nil, errPlain })
	<-n
	must(t, "restart delay", func() bool { return len(clk.Afters()) == 1 })
	if d := clk.Afters()[0]; d != 3*time.Second {
		t.Fatalf("default delay is %v", d)
	}
	clk.Advance(3*time.Second - 1)
	never(t, "early restart", func() bool { return isClosed(n) })
	clk.Advance(1)
	must(t, "restart", func() bool { return isClosed(n) })
	r.Kill()
	within(t, "Wait", func() {
		if err := r.Wait(); err != nil {
			t.Fatalf("Wait returned %v", err)
		}
	})
}

// A lookup that waits is answered when the worker becomes available, when it
// goes away, when the runner dies and when it is aborted.
func TestRunnerWaitingLookups(t *testing.T) {
	for _, how := range []string{"started", "gone", "killed", "aborted", "fatal"} {
		t.Run(how, func(t *testing.T) {
			r := simpleRunner(t, worker.RunnerParams{IsFatal: func(e error) bool { return rank(e) > 0 }, ShouldRestart: func(e error) bool { return false }})
			gate := make(chan error)
			w := instant("a", nil)
			r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) {
				if err := <-gate; err != nil {
					return nil, err
				}
				return w, nil
			})
			type ans struct {
				w   worker.Worker
				err error
			}
			abort := make(chan struct{})
			const n = 4
			c := make(chan ans, 2*n)
			for i := 0; i < n; i++ {
				go func() {
					w, err := r.Worker("a", abort)
					c <- ans{w, err}
				}()
				go func() {
					err := r.StopAndRemoveWorker("a", abort)
					c <- ans{nil, err}
				}()
			}
			time.Sleep(5 * time.Millisecond)
			if len(c) > 0 {
				t.Fatalf("answered too early: %v", <-c)
			}
			get := func(ok func(ans) bool) {
				t.Helper()
				for i := 0; i < 2*n; i++ {
					select {
					case a := <-c:
						if !ok(a) {
							t.Fatalf("wrong answer: %v, %v", a.w, a.err)
						}
					case <-time.After(long):
						t.Fatalf("no answer")
					}
				}
			}
			switch how {
			case "started":
				gate <- nil
				get(func(a ans) bool {
					return a.w == worker.Worker(w) && a.err == nil || a.w == nil && (a.err == nil || errors.Is(a.err, errors.NotFound))
				})
				must(t, "removed", func() bool { return len(r.WorkerNames()) == 0 })
			case "gone":
				gate <- errPlain
				get(func(a ans) bool { return a.w == nil && errors.Is(a.err, errors.NotFound) })
			case "killed":
				r.Kill()
				get(func(a ans) bool { return a.w == nil && a.err == worker.ErrDead })
				gate <- errPlain
			case "aborted":
				close(abort)
				get(func(a ans) bool { return a.w == nil && a.err == worker.ErrAborted })
				gate <- nil
			case "fatal":
				gate <- errFatal1
				get(func(a ans) bool { return a.w == nil && (a.err == worker.ErrDead || errors.Is(a.err, errors.NotFound)) })
			}
			r.Kill()
			within(t, "Wait", func() { r.Wait() })
		})
	}
}

func TestRunnerStopAndRemove(t *testing.T) {
	for _, werr := range []error{nil, errPlain, errNoAgain, errFatal1} {
		for _, callers := range []int{1, 3} {
			t.Run(fmt.Sprint(werr, callers), func(t *testing.T) {
				clk := newClock()
				r := simpleRunner(t, worker.RunnerParams{Clock: clk, IsFatal: func(e error) bool { return rank(e) > 0 }, ShouldRestart: func(e error) bool { return e != errNoAgain }})
				w := newWorker("a", 0)
				starts := 0
				r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) { starts++; return w, nil })
				other := instant("b", nil)
				r.StartWorker(context.Background(), "b", give(other))
				if got, err := r.Worker("a", nil); err != nil || got != worker.Worker(w) {
					t.Fatal(got, err)
				}
				c := make(chan error, callers)
				gone := make(chan bool, callers)
				for i := 0; i < callers; i++ {
					go func() {
						err := r.StopAndRemoveWorker("a", nil)
						g := true
						for _, n := range r.WorkerNames() {
							g = g && n != "a"
						}
						gone <- g
						c <- err
					}()
				}
				must(t, "killed", w.isKilled)
				never(t, "early answer", func() bool { return len(c) > 0 })
				w.finish(werr)
				for i := 0; i < callers; i++ {
					select {
					case err := <-c:
						if err != werr && !errors.Is(err, errors.NotFound) && err != worker.ErrDead {
							t.Fatalf("StopAndRemoveWorker returned %v", err)
						}
						if callers == 1 && err != werr {
							t.Fatalf("StopAndRemoveWorker returned %v", err)
						}
						if !<-gone {
							t.Fatal("returned while still registered")
						}
					case <-time.After(long):
						t.Fatal("StopAndRemoveWorker did not return")
					}
				}
				clk.Advance(time.Minute)
				never(t, "restart", func() bool { return starts > 1 })
				if rank(werr) == 0 {
					if other.isKilled() {
						t.Fatal("another worker was killed")
					}
					// aborted while waiting for it
					w2 := newWorker("a", 1)
					if err := r.StartWorker(context.Background(), "a", give(w2)); err != nil {
						t.Fatal(err)
					}
					abort := make(chan struct{})
					go func() { c <- r.StopAndRemoveWorker("a", abort) }()
					must(t, "killed", w2.isKilled)
					close(abort)
					w2.finish(nil)
					if err := <-c; err != nil && err != worker.ErrAborted {
						t.Fatal(err)
					}
				}
				r.Kill()
				within(t, "Wait", func() {
					if err := r.Wait(); rank(werr) == 0 && err != nil || rank(werr) > 0 && err != werr {
						t.Fatalf("Wait returned %v", err)
					}
				})
			})
		}
	}
}

// Goexit in a start function is an error like any other.
func TestRunnerGoexit(t *testing.T) {
	r := simpleRunner(t, worker.RunnerParams{})
	r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) {
		ch := make(chan struct{})
		_ = ch
		goexit()
		return nil, nil
	})
	within(t, "Wait", func() {
		if err := r.Wait(); err == nil {
			t.Fatal("no error")
		}
	})
}

// Everything at once; for the race detector.
func TestRunnerStress(t *testing.T) {
	for round := 0; round < 10; round++ {
		r := simpleRunner(t, worker.RunnerParams{RestartDelay: time.Microsecond, IsFatal: func(error) bool { return false }})
		var wg sync.WaitGroup
		running := map[string]*int32{}
		var mu sync.Mutex
		var bad []string
		for _, id := range []string{"a", "b", "c"} {
			running[id] = new(int32)
		}
		stop := make(chan struct{})
		for i := 0; i < 8; i++ {
			rnd := rand.New(rand.NewSource(base() + int64(round*100+i)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 200; j++ {
					id := []string{"a", "b", "c"}[rnd.Intn(3)]
					abort := make(chan struct{})
					time.AfterFunc(time.Millisecond, func() { close(abort) })
					switch rnd.Intn(8) {
					case 0, 1:
						k := rnd.Intn(3)
						r.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) {
							mu.Lock()
							*running[id]++
							if *running[id] > 1 {
								bad = append(bad, id)
							}
							mu.Unlock()
							var err error
							if k == 0 {
								err = errPlain
							}
							w := &stressWorker{testWorker: instant(id, err), end: func() { mu.Lock(); *running[id]--; mu.Unlock() }}
							if k == 2 {
								time.AfterFunc(time.Millisecond/4, func() { w.finish(errPlain) })
							}
							return w, nil
						})
					case 2:
						r.StopWorker(id)
					case 3:
						r.StopAndRemoveWorker(id, abort)
					case 4, 5:
						r.Worker(id, abort)
					case 6:
						r.WorkerNames()
					case 7:
						r.Report()
					}
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(4 * long):
			t.Fatal("calls do not return")
		}
		close(stop)
		r.Kill()
		within(t, "Wait", func() {
			if err := r.Wait(); err != nil {
				t.Fatal(err)
			}
		})
		mu.Lock()
		if len(bad) > 0 {
			t.Fatalf("two instances of %v at a time", bad)
		}
		for id, n := range running {
			if *n != 0 {
				t.Fatalf("%s is still running after Wait", id)
			}
		}
		mu.Unlock()
		if err := r.StartWorker(context.Background(), "a", give(nil)); err != worker.ErrDead {
			t.Fatal(err)
		}
		if err := r.StopWorker("a"); err != worker.ErrDead {
			t.Fatal(err)
		}
	}
}

type stressWorker struct {
	*testWorker
	end  func()
	once sync.Once
}

func (w *stressWorker) Wait() error {
	err := w.testWorker.Wait()
	w.once.Do(w.end)
	return err
}

// A report under the lock still describes its workers.
func TestRunnerReport(t *testing.T) {
	clk := newClock()
	r := simpleRunner(t, worker.RunnerParams{Clock: clk})
	w := reportingWorker{instant("a", nil), map[string]interface{}{"x": 1}}
	r.StartWorker(context.Background(), "a", give(w))
	r.Worker("a", nil)
	d := r.Report()["workers"].(map[string]interface{})["a"].(map[string]interface{})
	if !reflect.DeepEqual(d[worker.KeyReport], w.rep) {
		t.Fatalf("report is %v", d)
	}
	r.Kill()
	r.Wait()
}
