package replay

import (
	"context"
	"testing"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
)

func ended(ctx context.Context) bool { return isClosed(ctx.Done()) }

func contextRunner(t *testing.T) *worker.Runner {
	r, err := worker.NewRunner(worker.RunnerParams{Name: "r", IsFatal: func(error) bool { return false }, RestartDelay: time.Millisecond})
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func TestContextRunner(t *testing.T) {
	for i := 0; i < seeds()/5+1; i++ {
		r := contextRunner(t)
		first, second := make(chan context.Context, 1), make(chan context.Context, 1)
		var n int
		var w1 = newWorker("w", 1)
		w2 := instant("w", nil)
		req, cancel := context.WithCancel(context.Background())
		within(t, "StartWorker", func() {
			r.StartWorker(req, "w", func(ctx context.Context) (worker.Worker, error) {
				n++
				if n == 1 {
					first <- ctx
					return w1, nil
				}
				second <- ctx
				return w2, nil
			})
		})
		c1 := <-first
		if i%2 == 0 {
			if ended(c1) {
				t.Fatal("a start's context is done while nobody asked for it")
			}
			never(t, "the context is done", func() bool { return ended(c1) })
			cancel()
			must(t, "the context is done when its requester's is", func() bool { return ended(c1) })
		}
		w1.finish(errPlain)
		c2 := <-second
		never(t, "a restart's context is done", func() bool { return ended(c2) })
		cancel()
		never(t, "a restart's context is done", func() bool { return ended(c2) })
		third := make(chan context.Context, 1)
		within(t, "StartWorker", func() {
			r.StartWorker(context.Background(), "blocked", func(ctx context.Context) (worker.Worker, error) {
				third <- ctx
				<-ctx.Done()
				return nil, ctx.Err()
			})
		})
		c3 := <-third
		if ended(c3) {
			t.Fatal("a start's context is done while nobody asked for it")
		}
		r.Kill()
		within(t, "Wait", func() { r.Wait() })
		must(t, "the contexts are done when the runner is", func() bool { return ended(c1) && ended(c2) && ended(c3) })
	}
}

func TestContextEngine(t *testing.T) {
	for i := 0; i < seeds()/5+1; i++ {
		e, err := dependency.NewEngine(dependency.EngineConfig{
			IsFatal: func(error) bool { return false }, WorstError: func(a, b error) error { return a },
			Clock: fastClock{}, Metrics: dependency.DefaultMetrics(), Logger: nullLogger{},
			ErrorDelay: time.Millisecond, BounceDelay: time.Millisecond,
		})
		if err != nil {
			t.Fatal(err)
		}
		as, bs, cs, ds := make(chan context.Context, 9), make(chan context.Context, 9), make(chan context.Context, 9), make(chan context.Context, 9)
		aw := make(chan *testWorker, 9)
		e.Install("a", dependency.Manifold{Start: func(ctx context.Context, _ dependency.Getter) (worker.Worker, error) {
			w := instant("a", nil)
			aw <- w
			as <- ctx
			return w, nil
		}})
		a1 := <-as
		must(t, "a is started", func() bool { return stateOf(e, "a") == "started" })
		e.Install("other", dependency.Manifold{Start: func(ctx context.Context, _ dependency.Getter) (worker.Worker, error) {
			ds <- ctx
			return instant("other", nil), nil
		}})
		d1 := <-ds
		e.Install("b", dependency.Manifold{Inputs: []string{"a"}, Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			if err := g.Get("a", nil); err != nil {
				return nil, err
			}
			bs <- ctx
			<-ctx.Done()
			return nil, ctx.Err()
		}})
		b1 := <-bs
		e.Install("c", dependency.Manifold{Inputs: []string{"a"}, Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			if err := g.Get("a", nil); err != nil {
				return nil, err
			}
			cs <- ctx
			return instant("c", nil), nil
		}})
		c1 := <-cs
		must(t, "c is started", func() bool { return stateOf(e, "c") == "started" })
		never(t, "a context is done", func() bool { return ended(a1) || ended(b1) || ended(c1) || ended(d1) })
		(<-aw).finish(errPlain)
		must(t, "the contexts of what was told to stop are done", func() bool { return ended(b1) && ended(c1) })
		must(t, "the context of what has stopped is done", func() bool { return ended(a1) })
		if ended(d1) {
			t.Fatal("a context that has nothing to do with it is done")
		}
		a2, b2, c2 := <-as, <-bs, <-cs
		must(t, "c is started", func() bool { return stateOf(e, "c") == "started" })
		never(t, "a context is done", func() bool { return ended(a2) || ended(b2) || ended(c2) || ended(d1) })
		e.Kill()
		within(t, "Wait", func() { e.Wait() })
		must(t, "all contexts are done", func() bool { return ended(a2) && ended(b2) && ended(c2) && ended(d1) })
	}
}

func TestContextCatacomb(t *testing.T) {
	for i := 0; i < seeds()/5+1; i++ {
		var c catacomb.Catacomb
		if err := catacomb.Invoke(catacomb.Plan{Name: "c", Site: &c, Work: func() error { <-c.Dying(); return c.ErrDying() }}); err != nil {
			t.Fatal(err)
		}
		parent, cancel := context.WithCancel(context.Background())
		c1, c2 := c.Context(parent), c.Context(context.Background())
		never(t, "a context is done", func() bool { return ended(c1) || ended(c2) })
		cancel()
		must(t, "the context is done when its parent is", func() bool { return ended(c1) })
		if ended(c2) {
			t.Fatal("the other context is done")
		}
		c.Kill(nil)
		must(t, "the context is done when the catacomb is dying", func() bool { return ended(c2) })
		within(t, "Wait", func() { c.Wait() })
	}
}
