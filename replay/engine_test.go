package replay

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/juju/errors"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
)

// ---- a model of the engine, driven step by step alongside the real one

type estate int

const (
	eIdle estate = iota
	eDelay
	eStarting
	eRunning
	eUnwanted // started, but killed on arrival
)

type eent struct {
	inputs   []string
	output   bool
	filter   bool
	st       estate
	told     bool
	starts   int // calls of Start that should have happened
	count    int // successful starts
	recent   int
	started  time.Time
	err      error
	snapshot map[string]*testWorker
	w        *testWorker // what dependents see
}

type estart struct {
	n        int
	gate     chan error
	w        *testWorker
	get      dependency.Getter
	returned chan struct{}
}

type engineRig struct {
	t   *testing.T
	e   *dependency.Engine
	clk *fakeClock
	cfg dependency.EngineConfig

	mu    sync.Mutex
	calls map[string][]*estart
	seen  map[string][]string // what Get said in each start
	bad   []string
	conv  int
	log   []string

	m       map[string]*eent
	seq     map[string]int // calls of Start, also of manifolds uninstalled since
	want    map[string][]string
	killed  map[*testWorker]bool
	pending []pendingDelay
	after   int // waits of the clock already looked at
	dying   bool
	dead    bool
	worst   error
	waitc   chan error
	old     []dependency.Getter // of starts that have returned
}

type pendingDelay struct{ lo, hi time.Duration }

var (
	errMapBounce    = errors.New("filtered into bounce")
	errMapUninstall = errors.New("filtered into uninstall")
	errMapNil       = errors.New("filtered into nil")
	errOutput       = errors.New("output says no")
	eNames          = []string{"a", "b", "c", "d"}
)

func eFilter(err error) error {
	switch err {
	case errMapBounce:
		return dependency.ErrBounce
	case errMapUninstall:
		return errors.Annotate(dependency.ErrUninstall, "filtered")
	case errMapNil:
		return nil
	}
	return err
}

type nullLogger struct{}

func (nullLogger) Tracef(string, ...interface{}) {}
func (nullLogger) Debugf(string, ...interface{}) {}
func (nullLogger) Infof(string, ...interface{})  {}
func (nullLogger) Errorf(string, ...interface{}) {}

func newEngineRig(t *testing.T, r *rand.Rand) *engineRig {
	g := &engineRig{t: t, clk: newClock(), calls: map[string][]*estart{}, seen: map[string][]string{}, m: map[string]*eent{}, seq: map[string]int{},
		want: map[string][]string{}, killed: map[*testWorker]bool{}, waitc: make(chan error, 1)}
	g.cfg = dependency.EngineConfig{
		IsFatal: func(e error) bool { return rank(e) > 0 },
		WorstError: func(a, b error) error {
			if rank(a) > rank(b) {
				return a
			}
			return b
		},
		ErrorDelay:       []time.Duration{0, 3 * time.Second, 70 * time.Second}[r.Intn(3)],
		BounceDelay:      []time.Duration{time.Second, 5 * time.Second}[r.Intn(2)],
		BackoffFactor:    []float64{0, 1, 1.5, 3}[r.Intn(4)],
		BackoffResetTime: []time.Duration{0, time.Minute, time.Hour}[r.Intn(3)],
		MaxDelay:         []time.Duration{0, 20 * time.Second}[r.Intn(2)],
		Clock:            g.clk,
		Metrics:          dependency.DefaultMetrics(),
		Logger:           nullLogger{},
	}
	if r.Intn(2) == 0 {
		g.cfg.Filter = func(e error) error {
			if e == errFatal2 {
				return errPlain
			}
			return e
		}
	}
	e, err := dependency.NewEngine(g.cfg)
	if err != nil {
		t.Fatal(err)
	}
	g.e = e
	go func() { g.waitc <- e.Wait() }()
	return g
}

func (g *engineRig) fail(f string, a ...interface{}) {
	g.t.Helper()
	g.t.Fatalf("%s\nafter:\n  %s", fmt.Sprintf(f, a...), strings.Join(g.log, "\n  "))
}

func (g *engineRig) step(f string, a ...interface{}) { g.log = append(g.log, fmt.Sprintf(f, a...)) }

func (g *engineRig) last(n string) *estart {
	g.mu.Lock()
	defer g.mu.Unlock()
	cs := g.calls[n]
	if len(cs) == 0 {
		return nil
	}
	return cs[len(cs)-1]
}

// ask collects the answers to all requests a Start function may make.
func (g *engineRig) ask(get dependency.Getter) string {
	var out []string
	for _, n := range append([]string{"ghost"}, eNames...) {
		e1 := get.Get(n, nil)
		var s string
		e2 := get.Get(n, &s)
		out = append(out, fmt.Sprintf("%s: %v, %q %v", n, gist(e1), s, gist(e2)))
	}
	return strings.Join(out, "; ")
}

func gist(e error) string {
	switch {
	case e == nil:
		return "ok"
	case e == errOutput:
		return "output's error"
	case errors.Is(e, dependency.ErrMissing):
		return "missing"
	}
	return "other error"
}

func (g *engineRig) manifold(n string, e *eent) dependency.Manifold {
	m := dependency.Manifold{
		Inputs: append([]string{}, e.inputs...),
		Start: func(ctx context.Context, get dependency.Getter) (worker.Worker, error) {
			g.mu.Lock()
			cs := g.calls[n]
			if k := len(cs); k > 0 {
				last := cs[k-1]
				if !isClosed(last.returned) {
					g.bad = append(g.bad, n+" started while still being started")
				} else if last.w != nil && (!last.w.isDone() || last.w.waited() == 0) {
					g.bad = append(g.bad, fmt.Sprintf("%s started while %v is running", n, last.w))
				}
			}
			c := &estart{n: len(cs), gate: make(chan error), get: get, returned: make(chan struct{})}
			g.mu.Unlock()
			got := g.ask(get)
			g.mu.Lock()
			g.seen[n] = append(g.seen[n], got)
			g.calls[n] = append(g.calls[n], c)
			g.mu.Unlock()
			err := <-c.gate
			defer close(c.returned)
			if err != errOKStart {
				return nil, err
			}
			w := newWorker(n, c.n)
			g.mu.Lock()
			c.w = w
			g.mu.Unlock()
			return w, nil
		},
	}
	if e.output {
		m.Output = func(in worker.Worker, out interface{}) error {
			g.mu.Lock()
			g.conv++
			g.mu.Unlock()
			if n == "b" {
				return errOutput
			}
			*(out.(*string)) = in.(*testWorker).String()
			return nil
		}
	}
	if e.filter {
		m.Filter = eFilter
	}
	return m
}

// ---- the model's reactions

func (g *engineRig) request(n string, base time.Duration) {
	e := g.m[n]
	if g.dying {
		return
	}
	e.err = nil
	e.told = false
	e.snapshot = map[string]*testWorker{}
	for _, i := range e.inputs {
		if d := g.m[i]; d != nil && d.w != nil {
			e.snapshot[i] = d.w
		}
	}
	d := float64(base)
	if base > 0 && g.cfg.BackoffFactor > 0 {
		k := e.recent - 1
		if k < 0 {
			k = 0
		}
		d *= math.Pow(g.cfg.BackoffFactor, float64(k))
		if g.cfg.MaxDelay > 0 && d > float64(g.cfg.MaxDelay) {
			d = float64(g.cfg.MaxDelay)
		}
	}
	lo, hi := time.Duration(d*0.9)-time.Millisecond, time.Duration(d*1.1)+time.Millisecond
	if base == 0 {
		lo, hi = 0, 0
	}
	g.pending = append(g.pending, pendingDelay{lo, hi})
	if base == 0 {
		g.startCalled(n)
	} else {
		e.st = eDelay
	}
}

func (g *engineRig) startCalled(n string) {
	e := g.m[n]
	e.st = eStarting
	e.starts++
	g.seq[n]++
	var out []string
	for _, i := range append([]string{"ghost"}, eNames...) {
		w := e.snapshot[i]
		r1, s, r2 := "missing", "", "missing"
		if w != nil {
			r1 = "ok"
			if d := g.m[i]; d != nil && d.output {
				if i == "b" {
					r2 = "output's error"
				} else {
					s, r2 = w.String(), "ok"
				}
			}
		}
		out = append(out, fmt.Sprintf("%s: %v, %q %v", i, r1, s, r2))
	}
	g.want[n] = append(g.want[n], strings.Join(out, "; "))
}

func (g *engineRig) bounce(n string) {
	names := append([]string{}, eNames...)
	for _, d := range names {
		e := g.m[d]
		if e == nil {
			continue
		}
		for _, i := range e.inputs {
			if i == n {
				if e.st == eIdle {
					g.request(d, g.cfg.BounceDelay)
				} else {
					g.stop(d)
				}
				break
			}
		}
	}
}

func (g *engineRig) stop(n string) {
	e := g.m[n]
	if e.told || e.st == eIdle {
		return
	}
	e.told = true
	switch e.st {
	case eRunning:
		g.killed[e.w] = true
	case eDelay:
		// the abort arrives later; nothing can come between in these runs
		defer g.stopped(n, nil, true)
	}
}

func (g *engineRig) stopped(n string, err error, aborted bool) {
	e := g.m[n]
	had := e.w
	switch {
	case aborted:
		e.recent = 1
	case err == nil:
		e.recent = 0
	case errors.Is(err, dependency.ErrMissing):
		e.recent = 1
	default:
		if e.started.IsZero() || g.clk.Now().Sub(e.started) < g.cfg.BackoffResetTime {
			e.recent++
		} else {
			e.recent = 1
		}
	}
	if e.filter && !aborted {
		err = eFilter(err)
	}
	if rank(err) > 0 && !aborted {
		if rank(err) > rank(g.worst) {
			g.worst = err
		}
		g.dying = true
	}
	told := e.told
	e.st, e.told, e.w, e.started = eIdle, false, nil, time.Time{}
	e.err = err
	if aborted {
		e.err = errors.New("aborted before delay elapsed")
	}
	if g.dying {
		return
	}
	switch {
	case told:
		g.request(n, g.cfg.BounceDelay)
	case err == nil, aborted, errors.Is(err, dependency.ErrMissing):
	case errors.Is(err, dependency.ErrBounce):
		g.request(n, g.cfg.BounceDelay)
	case errors.Is(err, dependency.ErrUninstall):
		delete(g.m, n)
	default:
		g.request(n, g.cfg.ErrorDelay)
	}
	if had != nil {
		g.bounce(n)
	}
}

func (g *engineRig) settle() {
	if !g.dying {
		return
	}
	for _, n := range eNames {
		if g.m[n] != nil {
			g.stop(n)
		}
	}
	for _, e := range g.m {
		if e.st != eIdle {
			return
		}
	}
	g.dead = true
}

// ---- comparing

func (g *engineRig) wantReport() map[string]interface{} {
	ms := map[string]interface{}{}
	for n, e := range g.m {
		r := map[string]interface{}{"inputs": fmt.Sprint(e.inputs)}
		switch e.st {
		case eIdle:
			r["state"] = "stopped"
		case eRunning:
			r["state"] = "started"
			if e.told {
				r["state"] = "stopping"
			}
		default:
			r["state"] = "starting"
		}
		if e.count > 0 {
			r["start-count"] = e.count
		}
		if !e.started.IsZero() {
			r["started"] = e.started.Format("2006-01-02 15:04:05")
		}
		if e.err != nil {
			r["error"] = e.err.Error()
		}
		ms[n] = r
	}
	rep := map[string]interface{}{"manifolds": ms, "state": "started"}
	if g.dying {
		rep["state"] = "stopping"
		if g.worst != nil {
			rep["error"] = g.worst.Error()
		}
	}
	if g.dead {
		rep["state"] = "stopped"
		if f := g.outcome(); f != nil {
			rep["error"] = f.Error()
		} else {
			delete(rep, "error")
		}
	}
	return rep
}

func (g *engineRig) outcome() error {
	if g.cfg.Filter != nil {
		return g.cfg.Filter(g.worst)
	}
	return g.worst
}

func (g *engineRig) complaint() string {
	g.mu.Lock()
	if len(g.bad) > 0 {
		defer g.mu.Unlock()
		return "never: " + strings.Join(g.bad, "; ")
	}
	for _, n := range eNames {
		if len(g.calls[n]) != g.seq[n] {
			defer g.mu.Unlock()
			return fmt.Sprintf("%s: Start was called %d times, expected %d", n, len(g.calls[n]), g.seq[n])
		}
		for i, s := range g.seen[n] {
			if s != g.want[n][i] {
				defer g.mu.Unlock()
				return fmt.Sprintf("%s: in start %d, requests were answered %s, expected %s", n, i, s, g.want[n][i])
			}
		}
		for _, c := range g.calls[n] {
			if c.w != nil && c.w.isKilled() != g.killed[c.w] {
				defer g.mu.Unlock()
				return fmt.Sprintf("%v killed: %v, expected %v", c.w, c.w.isKilled(), g.killed[c.w])
			}
		}
	}
	g.mu.Unlock()
	if n := len(g.clk.Afters()); n != g.after+len(g.pending) {
		return fmt.Sprintf("%d waits of the clock, expected %d", n, g.after+len(g.pending))
	}
	rep := g.e.Report()
	if ms, ok := rep["manifolds"].(map[string]interface{}); ok {
		for _, r := range ms {
			m := r.(map[string]interface{})
			m["inputs"] = fmt.Sprint(m["inputs"])
		}
	}
	want := g.wantReport()
	if !reflect.DeepEqual(rep, want) {
		return fmt.Sprintf("report %v, expected %v", rep, want)
	}
	if g.dead {
		select {
		case err := <-g.waitc:
			g.waitc <- err
			if err != g.outcome() {
				return fmt.Sprintf("Wait returned %v, expected %v", err, g.outcome())
			}
		default:
			return "Wait has not returned"
		}
	} else if len(g.waitc) > 0 {
		return "Wait has returned"
	}
	return ""
}

func (g *engineRig) check() {
	g.t.Helper()
	g.settle()
	if msg := until(long, g.complaint); msg != "" {
		g.fail("%s", msg)
	}
	as := g.clk.Afters()[g.after:]
	g.after += len(as)
	sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
	lo, hi := []time.Duration{}, []time.Duration{}
	for _, p := range g.pending {
		lo, hi = append(lo, p.lo), append(hi, p.hi)
	}
	sort.Slice(lo, func(i, j int) bool { return lo[i] < lo[j] })
	sort.Slice(hi, func(i, j int) bool { return hi[i] < hi[j] })
	for i := range as {
		if as[i] < lo[i] || as[i] > hi[i] {
			g.fail("delays %v, expected between %v and %v", as, lo, hi)
		}
		if as[i]%time.Millisecond != 0 {
			g.fail("delay %v is not to the millisecond", as[i])
		}
	}
	g.pending = nil
	// requests fail once Start has returned
	for _, get := range g.old {
		if !g.expired(get) {
			g.fail("a request after Start was answered")
		}
	}
	if len(g.old) > 3 {
		g.old = g.old[1:]
	}
}

func (g *engineRig) cyclic(n string, inputs []string) bool {
	in := map[string][]string{n: inputs}
	for k, e := range g.m {
		in[k] = e.inputs
	}
	seen := map[string]bool{}
	var reach func(string) bool
	reach = func(k string) bool {
		for _, i := range in[k] {
			if i == n {
				return true
			}
			if !seen[i] {
				seen[i] = true
				if reach(i) {
					return true
				}
			}
		}
		return false
	}
	return reach(n)
}

// ---- the steps

func (g *engineRig) install(n string, inputs []string, output, filter bool) {
	e := &eent{inputs: inputs, output: output, filter: filter}
	g.step("install %s %v output %v filter %v", n, inputs, output, filter)
	if g.dying {
		// may or may not be taken in while the engine is going down, but
		// never once it is dead
		if g.dead {
			if err := g.e.Install(n, g.manifold(n, e)); err == nil {
				g.fail("dead engine accepted an install")
			}
		}
		return
	}
	bad := g.m[n] != nil || g.cyclic(n, inputs)
	var err error
	within(g.t, "Install", func() { err = g.e.Install(n, g.manifold(n, e)) })
	if bad != (err != nil) {
		g.fail("install: %v, expected error: %v", err, bad)
	}
	if !bad {
		g.m[n] = e
		g.request(n, 0)
	}
}

func (g *engineRig) open(n string, err error) {
	c := g.last(n)
	g.step("%s's Start returns %v", n, err)
	c.gate <- err
	<-c.returned
	e := g.m[n]
	if err != errOKStart {
		g.stopped(n, err, false)
	} else if e.told || g.dying {
		g.killed[c.w] = true
		e.st = eUnwanted
	} else {
		e.st, e.w = eRunning, c.w
		e.count++
		e.started = g.clk.Now().UTC()
		g.bounce(n)
	}
	g.old = append(g.old, c.get)
}

func (g *engineRig) expired(get dependency.Getter) bool {
	g.mu.Lock()
	before := g.conv
	g.mu.Unlock()
	for _, n := range eNames {
		var s string
		if get.Get(n, nil) == nil || get.Get(n, &s) == nil {
			return false
		}
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	return before == g.conv
}

func (g *engineRig) finish(n string, err error) {
	c := g.last(n)
	g.step("%v stops with %v", c.w, err)
	c.w.finish(err)
	g.stopped(n, err, false)
}

func (g *engineRig) advance(r *rand.Rand) {
	d := []time.Duration{time.Second, 50 * time.Second, 2 * time.Hour}[r.Intn(3)]
	var late []string
	for _, n := range eNames {
		if e := g.m[n]; e != nil && e.st == eDelay {
			late = append(late, n)
		}
	}
	if len(late) > 0 {
		d = 100 * 24 * time.Hour
		if g.cfg.MaxDelay > 0 || g.cfg.BackoffFactor <= 1 {
			d = 90 * time.Second
		}
	}
	g.step("%v pass", d)
	g.clk.Advance(d)
	for _, n := range late {
		g.startCalled(n)
	}
}

func engineErr(r *rand.Rand) error {
	switch r.Intn(16) {
	case 0, 1:
		return nil
	case 2:
		return dependency.ErrMissing
	case 3:
		return errors.Annotate(dependency.ErrMissing, "wrapped")
	case 4:
		return dependency.ErrBounce
	case 5:
		return errors.Trace(dependency.ErrBounce)
	case 6:
		return dependency.ErrUninstall
	case 7:
		return errMapBounce
	case 8:
		return errMapUninstall
	case 9:
		return errMapNil
	case 10:
		if r.Intn(3) == 0 {
			return []error{errFatal1, errFatal2, errFatal3}[r.Intn(3)]
		}
	}
	return errPlain
}

func runEngine(t *testing.T, seed int64) {
	r := rand.New(rand.NewSource(seed))
	g := newEngineRig(t, r)
	g.step("seed %d, ErrorDelay %v BounceDelay %v factor %v reset %v max %v", seed, g.cfg.ErrorDelay, g.cfg.BounceDelay, g.cfg.BackoffFactor, g.cfg.BackoffResetTime, g.cfg.MaxDelay)
	steps := 10 + r.Intn(70)
	for i := 0; i < steps && !g.dead; i++ {
		n := eNames[r.Intn(len(eNames))]
		e := g.m[n]
		switch {
		case e == nil || r.Intn(25) == 0:
			var in []string
			for _, k := range append([]string{"ghost"}, eNames...) {
				// mostly without cycles
				if k == "ghost" && r.Intn(6) == 0 || k != "ghost" && (k < n && r.Intn(2) == 0 || r.Intn(16) == 0) {
					in = append(in, k)
				}
			}
			g.install(n, in, n != "d" && r.Intn(5) > 0, r.Intn(2) == 0)
		case r.Intn(90) == 0:
			g.step("kill")
			g.e.Kill()
			g.dying = true
		case e.st == eDelay || r.Intn(12) == 0:
			g.advance(r)
		case e.st == eStarting:
			err := engineErr(r)
			if err == nil || r.Intn(2) == 0 {
				err = errOKStart
			}
			g.open(n, err)
		case e.st == eRunning && (e.told || r.Intn(5) == 0) || e.st == eUnwanted:
			g.finish(n, engineErr(r))
		default:
			continue
		}
		g.check()
	}
	// the end
	if !g.dying {
		g.step("kill")
		g.e.Kill()
		g.dying = true
		g.check()
	}
	for i := 0; i < 100 && !g.dead; i++ {
		for _, n := range eNames {
			e := g.m[n]
			if e == nil {
				continue
			}
			switch e.st {
			case eStarting:
				g.open(n, errOKStart)
			case eRunning, eUnwanted:
				g.finish(n, engineErr(r))
			default:
				continue
			}
			g.check()
		}
	}
	if !g.dead {
		g.fail("the model is not dead")
	}
	g.install("a", nil, false, false)
	within(t, "Wait", func() { g.e.Wait() })
	within(t, "Report", func() { g.e.Report() })
}

func TestEngineModel(t *testing.T) {
	for s := 0; s < 15*seeds(); s++ {
		runEngine(t, base()+int64(s))
		if t.Failed() {
			return
		}
	}
}

// ---- cycles

func reaches(in map[string][]string, from string) bool {
	seen := map[string]bool{}
	var walk func(string) bool
	walk = func(k string) bool {
		for _, i := range in[k] {
			if i == from {
				return true
			}
			if !seen[i] {
				seen[i] = true
				if walk(i) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}

func TestValidate(t *testing.T) {
	r := rand.New(rand.NewSource(base() + 1))
	for k := 0; k < 400*seeds(); k++ {
		n := 1 + r.Intn(7)
		ms := dependency.Manifolds{}
		in := map[string][]string{}
		for i := 0; i < n; i++ {
			name := string(rune('a' + i))
			var inputs []string
			for j := 0; j < n+1; j++ {
				if r.Intn(n+1) == 0 && (i > j || r.Intn(3) == 0) {
					inputs = append(inputs, string(rune('a'+j)))
				}
			}
			if len(inputs) > 0 && r.Intn(8) == 0 {
				inputs = append(inputs, inputs[0])
			}
			ms[name] = dependency.Manifold{Inputs: inputs}
			in[name] = inputs
		}
		cyclic := false
		for name := range in {
			cyclic = cyclic || reaches(in, name)
		}
		var err error
		within(t, "Validate", func() { err = dependency.Validate(ms) })
		if (err != nil) != cyclic {
			t.Fatalf("Validate(%v) returned %v", in, err)
		}
	}
}

// ---- configurations

func TestEngineConfig(t *testing.T) {
	good := func() dependency.EngineConfig {
		return dependency.EngineConfig{
			IsFatal: func(error) bool { return false }, WorstError: func(a, b error) error { return a },
			Clock: newClock(), Metrics: dependency.DefaultMetrics(), Logger: nullLogger{},
		}
	}
	try := func(what string, ok bool, f func(*dependency.EngineConfig)) {
		c := good()
		f(&c)
		e, err := dependency.NewEngine(c)
		if (err == nil) != ok || (e != nil) != ok {
			t.Fatalf("%s: engine %v, error %v", what, e, err)
		}
		if e != nil {
			e.Kill()
			within(t, "Wait", func() {
				if err := e.Wait(); err != nil {
					t.Errorf("Wait: %v", err)
				}
			})
		}
	}
	try("all set", true, func(c *dependency.EngineConfig) {})
	try("IsFatal", false, func(c *dependency.EngineConfig) { c.IsFatal = nil })
	try("WorstError", false, func(c *dependency.EngineConfig) { c.WorstError = nil })
	try("Clock", false, func(c *dependency.EngineConfig) { c.Clock = nil })
	try("Metrics", false, func(c *dependency.EngineConfig) { c.Metrics = nil })
	try("Logger", false, func(c *dependency.EngineConfig) { c.Logger = nil })
	try("ErrorDelay", false, func(c *dependency.EngineConfig) { c.ErrorDelay = -1 })
	try("BounceDelay", false, func(c *dependency.EngineConfig) { c.BounceDelay = -1 })
	try("MaxDelay", false, func(c *dependency.EngineConfig) { c.MaxDelay = -1 })
	try("BackoffResetTime", false, func(c *dependency.EngineConfig) { c.BackoffResetTime = -1 })
	try("BackoffFactor", false, func(c *dependency.EngineConfig) { c.BackoffFactor = 0.5 })
	try("BackoffFactor", false, func(c *dependency.EngineConfig) { c.BackoffFactor = -2 })
	try("BackoffFactor", true, func(c *dependency.EngineConfig) { c.BackoffFactor = 1 })
}

// ---- many failures: the delay neither overflows nor exceeds the maximum

func TestEngineManyFailures(t *testing.T) {
	for _, max := range []time.Duration{0, time.Minute} {
		clk := newClock()
		e, err := dependency.NewEngine(dependency.EngineConfig{
			IsFatal: func(error) bool { return false }, WorstError: func(a, b error) error { return a },
			Clock: clk, Metrics: dependency.DefaultMetrics(), Logger: nullLogger{},
			ErrorDelay: time.Second, BounceDelay: time.Second, BackoffFactor: 10, MaxDelay: max, BackoffResetTime: time.Minute,
		})
		if err != nil {
			t.Fatal(err)
		}
		e.Install("x", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) { return nil, errPlain }})
		for i := 1; i < 60; i++ {
			must(t, "a wait", func() bool { return len(clk.Afters()) > i })
			want := math.Pow(10, float64(i-1)) * float64(time.Second)
			if max > 0 && want > float64(max) {
				want = float64(max)
			}
			if want > math.MaxInt64/2 {
				want = math.MaxInt64 / 2
			}
			got := float64(clk.Afters()[i])
			if got < want*0.9-1e6 || got > want*1.1+1e6 {
				t.Fatalf("delay %d is %v, expected about %v", i, clk.Afters()[i], time.Duration(want))
			}
			for clk.pass() {
			}
		}
		e.Kill()
		within(t, "Wait", func() { e.Wait() })
	}
}

// pass lets the next timer fire without the time changing much.
func (c *fakeClock) pass() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, t := range c.timers {
		if t.live {
			c.timers = append(c.timers[:i:i], c.timers[i+1:]...)
			t.fire(c.now)
			return true
		}
	}
	return false
}

// ---- the engine as its own worker, and workers that report

func TestEngineSelf(t *testing.T) {
	for i := 0; i < seeds(); i++ {
		e, err := dependency.NewEngine(dependency.EngineConfig{
			IsFatal: func(error) bool { return false }, WorstError: func(a, b error) error { return a },
			Clock: newClock(), Metrics: dependency.DefaultMetrics(), Logger: nullLogger{},
			ErrorDelay: time.Second, BounceDelay: time.Second,
		})
		if err != nil {
			t.Fatal(err)
		}
		if err := e.Install("self", dependency.SelfManifold(e)); err != nil {
			t.Fatal(err)
		}
		must(t, "self is started", func() bool { return stateOf(e, "self") == "started" })
		w := reportingWorker{instant("w", nil), map[string]interface{}{"hello": "world"}}
		got := make(chan error, 1)
		e.Install("w", dependency.Manifold{Inputs: []string{"self"}, Start: func(_ context.Context, g dependency.Getter) (worker.Worker, error) {
			var in dependency.Installer
			err := g.Get("self", &in)
			if err == nil && in != dependency.Installer(e) {
				err = errors.New("a different installer")
			}
			got <- err
			return w, nil
		}})
		within(t, "Start of w", func() {
			if err := <-got; err != nil {
				t.Errorf("Get(self): %v", err)
			}
		})
		must(t, "w is started", func() bool { return stateOf(e, "w") == "started" })
		var rep map[string]interface{}
		within(t, "Report", func() { rep = e.Report() })
		m := rep["manifolds"].(map[string]interface{})["w"].(map[string]interface{})
		if !reflect.DeepEqual(m["report"], w.rep) {
			t.Fatalf("w reported as %v", m)
		}
		e.Kill()
		within(t, "Wait", func() {
			if err := e.Wait(); err != nil {
				t.Errorf("Wait: %v", err)
			}
		})
		if !w.isDone() {
			t.Fatalf("worker left running")
		}
	}
}

func stateOf(e *dependency.Engine, n string) interface{} {
	ms, _ := e.Report()["manifolds"].(map[string]interface{})
	m, _ := ms[n].(map[string]interface{})
	return m["state"]
}

// ---- everything at once

type stressed struct {
	mu      sync.Mutex
	running map[string]int
	all     []*testWorker
	bad     []string
	over    bool
}

func (s *stressed) complain(f string, a ...interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.bad = append(s.bad, fmt.Sprintf(f, a...))
}

type fastClock struct{}

func (fastClock) Now() time.Time                         { return time.Now() }
func (fastClock) After(d time.Duration) <-chan time.Time { return time.After(d) }

func stressEngine(t *testing.T, seed int64) {
	r := rand.New(rand.NewSource(seed))
	s := &stressed{running: map[string]int{}}
	worst := error(nil)
	fatals := r.Intn(3) == 0
	var wmu sync.Mutex
	cfg := dependency.EngineConfig{
		IsFatal: func(e error) bool { return rank(e) > 0 },
		WorstError: func(a, b error) error {
			if rank(a) > rank(b) {
				return a
			}
			return b
		},
		ErrorDelay: time.Duration(r.Intn(300)) * time.Microsecond, BounceDelay: time.Duration(r.Intn(300)) * time.Microsecond,
		Clock: fastClock{}, Metrics: dependency.DefaultMetrics(), Logger: nullLogger{},
	}
	e, err := dependency.NewEngine(cfg)
	if err != nil {
		t.Fatal(err)
	}
	names := []string{"a", "b", "c", "d", "e"}
	inputs := map[string][]string{}
	for i, n := range names {
		for _, k := range names[:i] {
			if r.Intn(2) == 0 {
				inputs[n] = append(inputs[n], k)
			}
		}
	}
	cur := map[string]*testWorker{}     // last worker of each name
	given := map[string][]*testWorker{} // what it was started with
	manifold := func(n string) dependency.Manifold {
		return dependency.Manifold{
			Inputs: inputs[n],
			Output: func(in worker.Worker, out interface{}) error { *(out.(**testWorker)) = in.(*testWorker); return nil },
			Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
				s.mu.Lock()
				s.running[n]++
				if s.running[n] > 1 {
					s.bad = append(s.bad, n+" started twice")
				}
				if s.over {
					s.bad = append(s.bad, n+" started after the end")
				}
				p := rand.Intn(100)
				s.mu.Unlock()
				var got []*testWorker
				for _, k := range inputs[n] {
					var w *testWorker
					if err := g.Get(k, &w); err != nil {
						if !errors.Is(err, dependency.ErrMissing) {
							s.complain("%s: Get(%s): %v", n, k, err)
						}
						s.mu.Lock()
						s.running[n]--
						s.mu.Unlock()
						return nil, err
					}
					if w.name != k {
						s.complain("%s: Get(%s) gave %v", n, k, w)
					}
					got = append(got, w)
				}
				if p < 15 {
					s.mu.Lock()
					s.running[n]--
					s.mu.Unlock()
					return nil, errPlain
				}
				w := newWorker(n, 0)
				w.onKill = func(w *testWorker) {
					go func() {
						s.mu.Lock()
						s.running[n]--
						s.mu.Unlock()
						w.finish(nil)
					}()
				}
				s.mu.Lock()
				s.all = append(s.all, w)
				cur[n], given[n] = w, got
				s.mu.Unlock()
				if p < 40 {
					go func() {
						time.Sleep(time.Duration(p*20) * time.Microsecond)
						w.mu.Lock()
						first := w.kills == 0
						w.kills++
						w.mu.Unlock()
						if !first {
							return
						}
						err := []error{nil, errPlain, dependency.ErrBounce, errPlain, dependency.ErrMissing}[p%5]
						if fatals && p == 20 {
							err = []error{errFatal1, errFatal2, errFatal3}[rand.Intn(3)]
							wmu.Lock()
							if rank(err) > rank(worst) {
								worst = err
							}
							wmu.Unlock()
						}
						s.mu.Lock()
						s.running[n]--
						s.mu.Unlock()
						close(w.killed)
						w.finish(err)
					}()
				}
				return w, nil
			},
		}
	}
	var wg sync.WaitGroup
	for _, n := range names {
		wg.Add(2)
		go func() { defer wg.Done(); e.Install(n, manifold(n)) }()
		go func() {
			defer wg.Done()
			for i := 0; i < 10; i++ {
				e.Report()
				time.Sleep(100 * time.Microsecond)
			}
		}()
	}
	time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
	wg.Add(2)
	go func() { defer wg.Done(); e.Kill() }()
	go func() { defer wg.Done(); e.Report() }()
	var out error
	within(t, "Wait", func() { out = e.Wait() })
	s.mu.Lock()
	s.over = true
	for n, k := range s.running {
		if k != 0 {
			s.bad = append(s.bad, fmt.Sprintf("%s: %d running after Wait", n, k))
		}
	}
	for _, w := range s.all {
		if w.waited() == 0 {
			s.bad = append(s.bad, fmt.Sprintf("%v was not waited for", w))
		}
	}
	s.mu.Unlock()
	wmu.Lock()
	if out != nil && rank(out) == 0 || rank(out) > rank(worst) {
		s.bad = append(s.bad, fmt.Sprintf("Wait returned %v, at worst %v", out, worst))
	}
	wmu.Unlock()
	within(t, "callers", wg.Wait)
	rep := e.Report()
	if rep["state"] != "stopped" {
		s.bad = append(s.bad, fmt.Sprintf("dead engine reports %v", rep["state"]))
	}
	if err := e.Install("late", manifold("a")); err == nil {
		s.bad = append(s.bad, "dead engine accepted an install")
	}
	time.Sleep(time.Millisecond)
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.bad) > 0 {
		t.Fatalf("seed %d: %s", seed, strings.Join(s.bad, "; "))
	}
}

func TestEngineStress(t *testing.T) {
	for i := 0; i < 2*seeds(); i++ {
		stressEngine(t, base()+int64(i))
		if t.Failed() {
			return
		}
	}
}
