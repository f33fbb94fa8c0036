package replay

import (
	stderrors "errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/juju/errors"
	"gopkg.in/tomb.v2"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
)

// outcome is what the model expects Wait to return.
type outcome struct {
	err    error
	misuse bool // a new error, about misuse
	panic  string
}

type catRig struct {
	t       *testing.T
	c       catacomb.Catacomb
	other   catacomb.Catacomb
	workc   chan func() error
	ws      []*testWorker
	working bool
	dying   bool
	reason  outcome
	none    bool // no reason yet but nil
	log     []string
	bad     []string
	mu      sync.Mutex
}

func (g *catRig) note(f string, a ...any) { g.log = append(g.log, fmt.Sprintf(f, a...)) }

func dyingOf(t *testing.T, c *catacomb.Catacomb) error {
	must(t, "dying", func() bool { return isClosed(c.Dying()) })
	return c.ErrDying()
}

func newCatRig(t *testing.T, init int) *catRig {
	g := &catRig{t: t, workc: make(chan func() error), working: true}
	// another catacomb, dying
	must(t, "other", func() bool {
		return catacomb.Invoke(catacomb.Plan{Name: "other", Site: &g.other, Work: func() error { return nil }}) == nil
	})
	g.other.Wait()
	plan := catacomb.Plan{Name: "c", Site: &g.c, Work: func() error {
		f := <-g.workc
		return f()
	}}
	for i := 0; i < init; i++ {
		w := newWorker("init", i)
		g.ws = append(g.ws, w)
		plan.Init = append(plan.Init, w)
	}
	if err := catacomb.Invoke(plan); err != nil {
		t.Fatal(err)
	}
	for i := range plan.Init {
		plan.Init[i] = nil
	}
	return g
}

// kill is the model of killing the catacomb.
func (g *catRig) kill(err error) {
	o := outcome{err: err}
	own := isClosed(g.c.Dying()) && err != nil && stderrors.Is(err, g.c.ErrDying())
	switch {
	case own:
		return
	case err == tomb.ErrDying, err == tomb.ErrStillAlive, err != nil && stderrors.Is(err, g.other.ErrDying()):
		o = outcome{misuse: true}
	}
	g.killed(o)
}

func (g *catRig) killed(o outcome) {
	if !g.dying || g.reason == (outcome{}) {
		g.reason = o
	}
	g.dying = true
}

func (g *catRig) finished() bool {
	for _, w := range g.ws {
		if !w.isDone() {
			return false
		}
	}
	return g.dying && !g.working
}

func (g *catRig) diff() string {
	if d := isClosed(g.c.Dying()); d != g.dying {
		return fmt.Sprintf("dying is %v, should be %v", d, g.dying)
	}
	for _, w := range g.ws {
		if w.isDone() {
			continue
		}
		if w.isKilled() != g.dying {
			return fmt.Sprintf("%v killed is %v, should be %v", w, w.isKilled(), g.dying)
		}
	}
	if d := isClosed(g.c.Dead()); d != g.finished() {
		return fmt.Sprintf("dead is %v, should be %v", d, g.finished())
	}
	err := g.c.ErrDying()
	if !g.dying {
		if err == nil || fmt.Sprintf("%T", err) == "catacomb.dyingError" {
			return fmt.Sprintf("ErrDying of a living catacomb is %#v", err)
		}
	}
	if g.finished() {
		for _, w := range g.ws {
			if w.waited() == 0 {
				return fmt.Sprintf("%v was not waited for", w)
			}
		}
		if g.c.Wait() != g.c.Err() {
			return "Err and Wait differ"
		}
	}
	if g.dying {
		err := g.c.Err()
		switch {
		case g.reason.misuse:
			if err == nil || err == tomb.ErrDying || err == tomb.ErrStillAlive || stderrors.Is(err, g.other.ErrDying()) || !strings.Contains(err.Error(), "bad catacomb Kill") {
				return fmt.Sprintf("the error is %v, should complain", err)
			}
		case g.reason.panic != "":
			if err == nil || !strings.Contains(err.Error(), g.reason.panic) {
				return fmt.Sprintf("the error is %v, should show %q", err, g.reason.panic)
			}
			st, ok := err.(interface{ StackTrace() []string })
			if !ok || !strings.Contains(strings.Join(st.StackTrace(), "\n"), "thePanickingFunction") {
				return fmt.Sprintf("no stack in %#v", err)
			}
		default:
			if err != g.reason.err {
				return fmt.Sprintf("the error is %v, should be %v", err, g.reason.err)
			}
		}
	}
	return ""
}

func (g *catRig) check() {
	g.t.Helper()
	if msg := until(long, g.diff); msg != "" {
		g.t.Fatalf("%s\nafter:\n  %s", msg, strings.Join(g.log, "\n  "))
	}
	if !g.finished() && isClosed(g.c.Dead()) {
		g.t.Fatalf("dead too early\nafter:\n  %s", strings.Join(g.log, "\n  "))
	}
}

func thePanickingFunction(v any) error { panic(v) }

func (g *catRig) anError(rnd *rand.Rand) error {
	errs := []error{nil, errPlain, errFatal1, tomb.ErrDying, tomb.ErrStillAlive, g.other.ErrDying(), errors.Annotate(g.other.ErrDying(), "x"), g.c.ErrDying(), errors.Annotate(g.c.ErrDying(), "y"),
		errFatal2, fmt.Errorf("z: %w", g.c.ErrDying()), fmt.Errorf("z: %w", g.other.ErrDying()), fmt.Errorf("z: %w", errors.Trace(g.c.ErrDying())), fmt.Errorf("z: %w", tomb.ErrDying)}
	return errs[rnd.Intn(len(errs))]
}

func (g *catRig) step(rnd *rand.Rand) {
	switch k := rnd.Intn(12); {
	case k < 4: // add
		w := newWorker("added", len(g.ws))
		imm := instant("late", []error{nil, errPlain}[rnd.Intn(2)])
		if g.dying {
			if !g.finished() && rnd.Intn(2) == 0 {
				return
			}
			g.note("add while dying")
			var err error
			within(g.t, "Add", func() { err = g.c.Add(imm) })
			if !imm.isKilled() || imm.waited() == 0 {
				g.t.Fatalf("Add failed with %v and left the worker", err)
			}
			if imm.err != nil && errors.Cause(err) != imm.err || imm.err == nil && err != g.c.ErrDying() {
				g.t.Fatalf("Add failed with %v", err)
			}
			return
		}
		g.note("add %v", w)
		g.ws = append(g.ws, w)
		if rnd.Intn(5) == 0 {
			err := []error{nil, errPlain}[rnd.Intn(2)]
			w.finish(err)
			g.note("which has already finished with %v", err)
			defer func() {
				if err != nil {
					g.kill(err)
				}
			}()
		}
		var err error
		within(g.t, "Add", func() { err = g.c.Add(w) })
		if err != nil {
			g.t.Fatalf("Add: %v", err)
		}
	case k < 8:
		if len(g.ws) == 0 {
			return
		}
		w := g.ws[rnd.Intn(len(g.ws))]
		if w.isDone() {
			return
		}
		err := g.anError(rnd)
		if !g.dying && rnd.Intn(3) > 0 {
			err = nil
		}
		g.note("%v exits with %v", w, err)
		if err != nil {
			g.kill(err)
		}
		w.finish(err)
	case k < 9:
		err := g.anError(rnd)
		g.note("kill with %v", err)
		dead := g.finished()
		if !dead {
			g.kill(err)
		}
		g.c.Kill(err)
	default:
		if !g.working || rnd.Intn(3) > 0 {
			return
		}
		g.working = false
		if rnd.Intn(4) == 0 {
			g.note("work panics")
			g.killed(outcome{panic: "boom 17"})
			g.workc <- func() error { return thePanickingFunction("boom 17") }
			return
		}
		err := g.anError(rnd)
		g.note("work returns %v", err)
		g.kill(err)
		g.workc <- func() error { return err }
	}
}

func TestCatacombModel(t *testing.T) {
	for s := 0; s < seeds()*4; s++ {
		seed := base() + int64(s)
		rnd := rand.New(rand.NewSource(seed))
		t.Run(fmt.Sprint(seed), func(t *testing.T) {
			g := newCatRig(t, rnd.Intn(4))
			defer func() {
				go func() { g.workc <- func() error { return nil } }()
				for _, w := range g.ws {
					w.finish(nil)
				}
			}()
			g.check()
			for i := 0; i < 25; i++ {
				g.step(rnd)
				g.check()
			}
			if !g.dying {
				g.note("final kill")
				g.kill(nil)
				g.c.Kill(nil)
				g.check()
			}
			for _, w := range g.ws {
				if !w.isDone() {
					g.note("%v ends", w)
					w.finish(nil)
					g.check()
				}
			}
			if g.working {
				g.note("work ends")
				g.working = false
				g.workc <- func() error { return nil }
				g.check()
			}
		})
	}
}

func TestCatacombInvalid(t *testing.T) {
	work := func() error { return nil }
	for i := 0; i < 5; i++ {
		var c catacomb.Catacomb
		a, b := instant("a", errPlain), instant("b", nil)
		init := []worker.Worker{a, b}
		p := catacomb.Plan{Name: "c", Site: &c, Work: work, Init: init}
		switch i {
		case 0:
			p.Name = ""
		case 1:
			p.Site = nil
		case 2:
			p.Work = nil
		case 3:
			p.Init = []worker.Worker{nil, a, b}
		case 4:
			p.Init = []worker.Worker{a, b, nil}
		}
		if err := p.Validate(); err == nil {
			t.Fatalf("plan %d is valid", i)
		}
		var err error
		within(t, "Invoke", func() { err = catacomb.Invoke(p) })
		if err == nil {
			t.Fatalf("invalid plan %d invoked", i)
		}
		for _, w := range []*testWorker{a, b} {
			if !w.isKilled() || w.waited() == 0 {
				t.Fatalf("plan %d: %v was dropped", i, w)
			}
		}
		if isClosed(c.Dying()) {
			t.Fatalf("plan %d: used up", i)
		}
		if err := catacomb.Invoke(catacomb.Plan{Name: "c", Site: &c, Work: work}); err != nil {
			t.Fatalf("plan %d: %v", i, err)
		}
		within(t, "Wait", func() {
			if err := c.Wait(); err != nil {
				t.Fatal(err)
			}
		})
	}
}

func TestCatacombOnce(t *testing.T) {
	for s := 0; s < seeds(); s++ {
		var c catacomb.Catacomb
		const n = 6
		errs := make([]error, n)
		ws := make([]*testWorker, n)
		runs := make(chan int, n)
		var wg, start sync.WaitGroup
		start.Add(1)
		for i := 0; i < n; i++ {
			ws[i] = instant("w", nil)
			wg.Add(1)
			go func() {
				defer wg.Done()
				start.Wait()
				errs[i] = catacomb.Invoke(catacomb.Plan{Name: "c", Site: &c, Init: []worker.Worker{ws[i]}, Work: func() error {
					runs <- i
					<-c.Dying()
					return c.ErrDying()
				}})
			}()
		}
		start.Done()
		wg.Wait()
		won := -1
		for i, err := range errs {
			if err == nil {
				if won >= 0 {
					t.Fatal("used twice")
				}
				won = i
			} else if !ws[i].isKilled() || ws[i].waited() == 0 {
				t.Fatal("worker dropped")
			}
		}
		if won < 0 {
			t.Fatal("never used")
		}
		if i := <-runs; i != won {
			t.Fatal("the wrong work runs")
		}
		if ws[won].isKilled() {
			t.Fatal("killed early")
		}
		c.Kill(nil)
		within(t, "Wait", func() {
			if err := c.Wait(); err != nil {
				t.Fatal(err)
			}
		})
		if !ws[won].isKilled() || len(runs) > 0 {
			t.Fatal("left over")
		}
		late := instant("late", nil)
		if err := catacomb.Invoke(catacomb.Plan{Name: "c", Site: &c, Init: []worker.Worker{late}, Work: func() error { return nil }}); err == nil || !late.isKilled() {
			t.Fatal("used again")
		}
	}
}

// Additions, exits and kills at the same time.
func TestCatacombStress(t *testing.T) {
	for s := 0; s < seeds(); s++ {
		rnd := rand.New(rand.NewSource(base() + int64(s)))
		var c catacomb.Catacomb
		first := instant("first", nil)
		must(t, "invoke", func() bool {
			return catacomb.Invoke(catacomb.Plan{Name: "c", Site: &c, Init: []worker.Worker{first}, Work: func() error {
				<-c.Dying()
				return c.ErrDying()
			}}) == nil
		})
		var wg sync.WaitGroup
		var mu sync.Mutex
		all := []*testWorker{first}
		for i := 0; i < 6; i++ {
			wg.Add(1)
			n := rnd.Intn(10)
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					w := instant("w", nil)
					mu.Lock()
					all = append(all, w)
					mu.Unlock()
					err := c.Add(w)
					if err != nil && (!w.isKilled() || w.waited() == 0) {
						t.Error("dropped")
					}
				}
			}()
		}
		time.Sleep(time.Duration(rnd.Intn(200)) * time.Microsecond)
		e := []error{nil, errPlain}[rnd.Intn(2)]
		c.Kill(e)
		within(t, "Wait", func() {
			if err := c.Wait(); err != e {
				t.Fatalf("Wait returned %v", err)
			}
		})
		mu.Lock()
		ws := append([]*testWorker{}, all...)
		mu.Unlock()
		wg.Wait()
		for _, w := range ws {
			if !w.isKilled() && w.waited() == 0 {
				must(t, "killed", w.isKilled)
			}
		}
	}
}
