package replay

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/juju/clock"
)

// long is how long something that must happen is given to happen.
const long = 15 * time.Second

func seeds() int {
	if n, err := strconv.Atoi(os.Getenv("REPLAY_SEEDS")); err == nil {
		return n
	}
	return 60
}

func base() int64 {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return int64(n) * 100000
}

// until waits for a condition; it returns the last complaint, or "".
func until(d time.Duration, f func() string) string {
	end := time.Now().Add(d)
	for i := 0; ; i++ {
		msg := f()
		if msg == "" {
			return ""
		}
		if time.Now().After(end) {
			return msg
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(200 * time.Microsecond)
		}
	}
}

func must(t testing.TB, what string, f func() bool) {
	t.Helper()
	if msg := until(long, func() string {
		if f() {
			return ""
		}
		return what
	}); msg != "" {
		t.Fatalf("did not happen: %s", msg)
	}
}

// never checks that a condition does not come about within a short time.
func never(t testing.TB, what string, f func() bool) {
	t.Helper()
	end := time.Now().Add(30 * time.Millisecond)
	for time.Now().Before(end) {
		if f() {
			t.Fatalf("happened: %s", what)
		}
		time.Sleep(time.Millisecond)
	}
}

func isClosed[T any](c <-chan T) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

// within runs f and fails if it does not return.
func within(t testing.TB, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(long):
		buf := make([]byte, 1<<16)
		t.Fatalf("%s: did not return\n%s", what, buf[:runtime.Stack(buf, true)])
	}
}

// ---- a clock that stands still unless told otherwise

type fakeClock struct {
	mu     sync.Mutex
	now    time.Time
	timers []*fakeTimer
	afters []time.Duration
}

type fakeTimer struct {
	c    *fakeClock
	at   time.Time
	ch   chan time.Time
	f    func()
	live bool
}

var _ clock.Clock = (*fakeClock)(nil)

func newClock() *fakeClock {
	return &fakeClock{now: time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)}
}

func (c *fakeClock) Now() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.now
}

func (c *fakeClock) add(d time.Duration, f func()) *fakeTimer {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := &fakeTimer{c: c, at: c.now.Add(d), ch: make(chan time.Time, 1), f: f, live: true}
	c.afters = append(c.afters, d)
	if d <= 0 {
		t.fire(c.now)
	} else {
		c.timers = append(c.timers, t)
	}
	return t
}

func (t *fakeTimer) fire(now time.Time) {
	t.live = false
	if t.f != nil {
		go t.f()
		return
	}
	select {
	case t.ch <- now:
	default:
	}
}

func (c *fakeClock) After(d time.Duration) <-chan time.Time          { return c.add(d, nil).ch }
func (c *fakeClock) AfterFunc(d time.Duration, f func()) clock.Timer { return c.add(d, f) }
func (c *fakeClock) NewTimer(d time.Duration) clock.Timer            { return c.add(d, nil) }
func (t *fakeTimer) Chan() <-chan time.Time                          { return t.ch }
func (t *fakeTimer) Stop() bool {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	l := t.live
	t.live = false
	return l
}
func (t *fakeTimer) Reset(d time.Duration) bool {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	l := t.live
	t.live = true
	t.at = t.c.now.Add(d)
	t.c.timers = append(t.c.timers, t)
	t.c.afters = append(t.c.afters, d)
	return l
}

func (c *fakeClock) Advance(d time.Duration) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.now = c.now.Add(d)
	var rest []*fakeTimer
	sort.SliceStable(c.timers, func(i, j int) bool { return c.timers[i].at.Before(c.timers[j].at) })
	for _, t := range c.timers {
		if !t.live {
			continue
		}
		if t.at.After(c.now) {
			rest = append(rest, t)
			continue
		}
		t.fire(c.now)
	}
	c.timers = rest
}

// Afters lists the durations of all waits asked for so far.
func (c *fakeClock) Afters() []time.Duration {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]time.Duration{}, c.afters...)
}

// ---- workers under control of the test

type testWorker struct {
	name   string
	n      int
	mu     sync.Mutex
	kills  int
	killed chan struct{}
	done   chan struct{}
	err    error
	waits  int // Wait calls that have returned
	onKill func(*testWorker)
	report map[string]interface{}
}

func newWorker(name string, n int) *testWorker {
	return &testWorker{name: name, n: n, killed: make(chan struct{}), done: make(chan struct{})}
}

func (w *testWorker) Kill() {
	w.mu.Lock()
	w.kills++
	first := w.kills == 1
	f := w.onKill
	w.mu.Unlock()
	if first {
		close(w.killed)
		if f != nil {
			f(w)
		}
	}
}

func (w *testWorker) Wait() error {
	<-w.done
	w.mu.Lock()
	defer w.mu.Unlock()
	w.waits++
	return w.err
}

func (w *testWorker) finish(err error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if isClosed(w.done) {
		return
	}
	w.err = err
	close(w.done)
}

func (w *testWorker) isKilled() bool { return isClosed(w.killed) }
func (w *testWorker) isDone() bool   { return isClosed(w.done) }
func (w *testWorker) waited() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.waits
}
func (w *testWorker) String() string { return fmt.Sprintf("%s#%d", w.name, w.n) }

// instant is a worker that finishes as soon as it is killed.
func instant(name string, err error) *testWorker {
	w := newWorker(name, 0)
	w.onKill = func(w *testWorker) { w.finish(err) }
	return w
}

type reportingWorker struct {
	*testWorker
	rep map[string]interface{}
}

func (r reportingWorker) Report() map[string]interface{} { return r.rep }

var (
	errFatal1  = errors.New("fatal one")
	errFatal2  = errors.New("fatal two")
	errFatal3  = errors.New("fatal three")
	errPlain   = errors.New("plain")
	errNoAgain = errors.New("do not restart")
)
