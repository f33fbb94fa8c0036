package replay

import (
	"context"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/juju/errors"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
)

// recorder is an Installer that refuses some names.
type recorder struct {
	refuse map[string]error
	got    map[string]dependency.Manifold
	calls  int
	first  error
	bad    string
}

func (r *recorder) Install(name string, m dependency.Manifold) error {
	r.calls++
	if r.first != nil {
		r.bad = fmt.Sprintf("%q was installed after %v", name, r.first)
	}
	if _, ok := r.got[name]; ok {
		r.bad = fmt.Sprintf("%q was installed twice", name)
	}
	r.got[name] = m
	if err, ok := r.refuse[name]; ok {
		r.first = err
		return err
	}
	return nil
}

func TestInstallMany(t *testing.T) {
	kinds := []error{errors.New("refused"), errors.AlreadyExistsf("it"), errors.NotFoundf("it"), errors.New("engine is shutting down"),
		dependency.ErrMissing, dependency.ErrUninstall, dependency.ErrBounce, context.Canceled, errors.NotValidf("it")}
	for seed := 0; seed < seeds()*5+20; seed++ {
		rnd := rand.New(rand.NewSource(int64(seed)))
		r := &recorder{refuse: map[string]error{}, got: map[string]dependency.Manifold{}}
		ms := dependency.Manifolds{}
		for i := 0; i < rnd.Intn(6); i++ {
			n := fmt.Sprintf("m%d", i)
			if rnd.Intn(8) == 0 {
				n = ""
			}
			m := dependency.Manifold{}
			for j := 0; j < rnd.Intn(3); j++ {
				m.Inputs = append(m.Inputs, fmt.Sprintf("m%d", rnd.Intn(6)))
			}
			if rnd.Intn(3) > 0 {
				m.Start = func(context.Context, dependency.Getter) (worker.Worker, error) { return nil, errPlain }
			}
			if rnd.Intn(3) > 0 {
				m.Output = func(worker.Worker, interface{}) error { return nil }
			}
			if rnd.Intn(3) > 0 {
				m.Filter = func(err error) error { return err }
			}
			ms[n] = m
			if rnd.Intn(6) == 0 {
				r.refuse[n] = kinds[rnd.Intn(len(kinds))]
			}
		}
		err := dependency.Install(r, ms)
		if r.bad != "" {
			t.Fatal(r.bad)
		}
		for n, g := range r.got {
			m, ok := ms[n]
			if !ok {
				t.Fatalf("%q was installed, which is not one of the manifolds", n)
			}
			if fmt.Sprint(m.Inputs) != fmt.Sprint(g.Inputs) || (m.Start == nil) != (g.Start == nil) ||
				(m.Output == nil) != (g.Output == nil) || (m.Filter == nil) != (g.Filter == nil) {
				t.Fatalf("%q was installed changed", n)
			}
		}
		if r.first != nil {
			if err == nil || errors.Cause(err) != errors.Cause(r.first) {
				t.Fatalf("Install returned %v after a refusal with %v", err, r.first)
			}
			continue
		}
		if err != nil {
			t.Fatalf("Install returned %v though nothing was refused", err)
		}
		if len(r.got) != len(ms) {
			t.Fatalf("%d of %d manifolds were installed", len(r.got), len(ms))
		}
	}
}

func TestInstallSelf(t *testing.T) {
	engine := func() *dependency.Engine {
		e, err := dependency.NewEngine(dependency.EngineConfig{
			IsFatal: func(error) bool { return false }, WorstError: func(a, b error) error { return a },
			Clock: newClock(), Metrics: dependency.DefaultMetrics(), Logger: nullLogger{},
			ErrorDelay: time.Second, BounceDelay: time.Second,
		})
		if err != nil {
			t.Fatal(err)
		}
		return e
	}
	e, other := engine(), engine()
	dead := engine()
	dead.Kill()
	within(t, "Wait", func() { dead.Wait() })
	for _, e := range []*dependency.Engine{e, dead} {
		m := dependency.SelfManifold(e)
		if len(m.Inputs) != 0 || m.Filter != nil {
			t.Fatalf("the self manifold has inputs or a filter")
		}
		for i := 0; i < 3; i++ {
			w, err := m.Start(context.Background(), nil)
			if w != worker.Worker(e) || err != nil {
				t.Fatalf("start of the self manifold: %v, %v", w, err)
			}
		}
		var in, inBefore dependency.Installer
		var rep, repBefore dependency.Reporter
		inBefore, repBefore = other, other
		for _, old := range []bool{false, true} {
			in, rep = nil, nil
			if old {
				in, rep = inBefore, repBefore
			}
			in0, rep0 := in, rep
			for _, bad := range []worker.Worker{nil, other, newWorker("w", 1), (*dependency.Engine)(nil)} {
				for _, out := range []interface{}{&in, &rep} {
					if m.Output(bad, out) == nil {
						t.Fatalf("output of the self manifold accepts worker %v", bad)
					}
				}
			}
			var w worker.Worker
			var x string
			var pe *dependency.Engine
			for _, out := range []interface{}{&w, &x, &pe, new(interface{}), nil, in0, 7} {
				if m.Output(e, out) == nil {
					t.Fatalf("output of the self manifold accepts %T", out)
				}
			}
			if in != in0 || rep != rep0 || w != nil || pe != nil {
				t.Fatalf("output of the self manifold changed what it refused")
			}
			if err := m.Output(e, &in); err != nil || in != dependency.Installer(e) {
				t.Fatalf("Installer output: %v, %v", in, err)
			}
			if err := m.Output(e, &rep); err != nil || rep != dependency.Reporter(e) {
				t.Fatalf("Reporter output: %v, %v", rep, err)
			}
		}
	}
	for _, e := range []*dependency.Engine{e, other} {
		e.Kill()
		within(t, "Wait", func() { e.Wait() })
	}
}
