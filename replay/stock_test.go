package replay

import (
	"context"
	"testing"
	"time"

	"github.com/juju/errors"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/workertest"
)

type deader struct {
	*testWorker
	ch chan struct{}
}

func (d deader) Dead() <-chan struct{} { return d.ch }

type orderWorker struct {
	*testWorker
	order *[]string
}

func (o orderWorker) Kill()       { *o.order = append(*o.order, "kill"); o.testWorker.Kill() }
func (o orderWorker) Wait() error { *o.order = append(*o.order, "wait"); return o.testWorker.Wait() }

func TestStock(t *testing.T) {
	for _, werr := range []error{nil, errPlain, errFatal1, worker.ErrDead, worker.ErrAborted, errors.NotFoundf("x"), context.Canceled} {
		stock(t, werr)
	}
}

func stock(t *testing.T, werr error) {
	{
		var order []string
		w := orderWorker{instant("w", werr), &order}
		within(t, "Stop", func() {
			if err := worker.Stop(w); err != werr {
				t.Fatalf("Stop returned %v", err)
			}
		})
		if len(order) != 2 || order[0] != "kill" || order[1] != "wait" {
			t.Fatalf("Stop does %v", order)
		}

		// Dead
		x := newWorker("x", 0)
		ch := worker.Dead(x)
		never(t, "dead", func() bool { return isClosed(ch) })
		x.finish(werr)
		must(t, "dead", func() bool { return isClosed(ch) })
		if x.isKilled() {
			t.Fatal("Dead killed the worker")
		}
		own := make(chan struct{})
		if worker.Dead(deader{x, own}) != (<-chan struct{})(own) {
			t.Fatal("not its own channel")
		}
		y := newWorker("y", 0)
		ch = worker.Dead(deader{y, nil})
		if ch == nil {
			t.Fatal("nil channel")
		}
		never(t, "dead", func() bool { return isClosed(ch) })
		y.finish(nil)
		must(t, "dead", func() bool { return isClosed(ch) })

		// stock workers
		done := make(chan error, 1)
		e := workertest.NewErrorWorker(werr)
		go func() { done <- e.Wait() }()
		never(t, "error worker stops", func() bool { return len(done) > 0 })
		e.Kill()
		e.Kill()
		select {
		case err := <-done:
			if err != werr {
				t.Fatalf("error worker: %v", err)
			}
		case <-time.After(long):
			t.Fatal("error worker does not stop")
		}
		if err := e.Wait(); err != werr {
			t.Fatalf("error worker: %v", err)
		}
		d := workertest.NewDeadWorker(werr)
		for i := 0; i < 3; i++ {
			within(t, "dead worker", func() {
				if err := d.Wait(); err != werr {
					t.Fatalf("dead worker: %v", err)
				}
			})
			d.Kill()
		}
		f := workertest.NewForeverWorker(werr)
		go func() { done <- f.Wait() }()
		f.Kill()
		never(t, "forever worker stops", func() bool { return len(done) > 0 })
		f.ReallyKill()
		f.ReallyKill()
		select {
		case err := <-done:
			if err != werr {
				t.Fatalf("forever worker: %v", err)
			}
		case <-time.After(long):
			t.Fatal("forever worker does not stop")
		}
	}
}
