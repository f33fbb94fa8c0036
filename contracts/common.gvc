// Ghost state and contracts of everything outside the repository.

assumption "integers and durations are mathematical integers and floats are reals; float to integer conversions are proved to be in range; configured durations are at most MaxInt64/2"
assumption "contracts of gopkg.in/tomb.v2: Go, Kill, Wait, Err, Alive, Dying, Dead, Context as documented; the error of a tomb that was only killed with nil, and whose goroutine returned nil or ErrDying, is nil (the two premises are proved)"
assumption "contracts of github.com/juju/errors (errors made by it are not nil, Is of nil is false, Cause of nil is nil), context, time, clock, strings, fmt: as in common.gvc"
assumption "worker.Worker implementations outside the repository: Kill and Wait may be called from any goroutine, return, and do not panic; Wait returns the same error each time"
assumption "loggers and metrics recorders have no effect on the state of the caller"
assumption "the Go memory model: channel operations, mutexes, sync.Once, WaitGroup and goroutine start order memory as documented"
assumption "receives rely on what senders are proved to establish; claims about the whole history of a token (one start, one stop per attempt) follow from the per-step obligations by induction over the loop"
assumption "partial correctness: what the repository calls outside itself returns; inside the repository every wait is proved to have a way out"

// ---- ghost state shared by all packages

// tombs, by address of the tomb.Tomb
ghost dying [ref]bool shared monotone
ghost dead  [ref]bool shared monotone
ghost tombgo [ref]int
ghost closed [ref]bool
ghost recvd [ref]bool local init false

// what this goroutine has called so far
ghost killed [any]bool
ghost waited [any]bool local init false
ghost waiterr [any]any local init nil
ghost lastwaited any local init nil
ghost lastkilled any local init nil
ghost lastdone ref local init nil
ghost lastnow time.Time local

// events of an event loop
ghost ev int event init 0
ghost evid string event
ghost everr any event
ghost evw any event
ghost evfn fn event
ghost owe ref local init nil
ghost replyv any local
ghost asked bool local init false
// this goroutine has taken the answer to its request
ghost gotanswer bool local init false
ghost askedid string local
ghost killasked bool local init false
// this goroutine has been told, in a wait, that the tomb is dying
ghost swept bool local init false

fn dyingch(ref) ref
fn deadch(ref) ref
fn ctxdone(any) ref
fn afterch(int, int) ref
fn errIs(any, any) bool
fn utc(time.Time) time.Time
fn globalid(any) int
fn tombctx(ref, any) any

// contexts: a context made here is done exactly when its tomb is dying, its
// cancel function has been called, or the context it was first derived from is done
fn tombOf(any) ref
fn cutOf(any) any
fn baseOf(any) any
fn bgctx() any
fn ctxOf(fn) any
fn pprofctx(any) any
axiom tombOf(bgctx) == nil && cutOf(bgctx) == nil && baseOf(bgctx) == bgctx && bgctx != nil
axiom forall t ref, c any: tombOf(tombctx(t, c)) == t && cutOf(tombctx(t, c)) == cutOf(c) && baseOf(tombctx(t, c)) == baseOf(c)
axiom forall c any: tombOf(pprofctx(c)) == tombOf(c) && cutOf(pprofctx(c)) == cutOf(c) && baseOf(pprofctx(c)) == baseOf(c) && pprofctx(c) != nil
ghost cancelled [any]bool
ghost cutused [any]bool
pred samectx(a, b) { tombOf(a) == tombOf(b) && cutOf(a) == cutOf(b) && baseOf(a) == baseOf(b) }
fn causeOf(any) any

axiom forall t ref: dyingch(t) != nil
axiom forall t ref: deadch(t) != nil
axiom forall c ref, d any: tombctx(c, d) != nil
axiom forall e any: causeOf(e) == nil <==> e == nil
axiom forall a any, b any: errIs(a, b) ==> a != nil

chan dyingch(t, m) {
	closedonly
	recv do dying[t] := true; ev := 5; swept := true
	poll do dying[t] := true
	idle assume !dying[t]
}
chan deadch(t, m) {
	closedonly
	recv do dead[t] := true; dying[t] := true
	idle assume !dead[t]
}
chan ctxdone(t, m) {
	closedonly
}

// ---- tomb

extern tomb.Tomb.Dying(t) returns (c) { is dyingch(t) }
extern tomb.Tomb.Dead(t) returns (c) { is deadch(t) }
extern tomb.Tomb.Alive(t) returns (b) {
	modifies dying
	ensures alive: !b ==> dying[t]
	ensures old(dying[t]) ==> !b
}
extern tomb.Tomb.Kill(t, err) {
	requires [C04] runner_kill_is_neutral: inpkg("worker") ==> err == nil
	requires [C08,C14] engine_kill_is_neutral: inpkg("dependency") ==> err == nil
	requires [C19] no_panic: inpkg("catacomb") ==> (err == tomb.ErrDying ==> dying[t]) && err != tomb.ErrStillAlive
	requires [C19] not_after_death: inpkg("catacomb") ==> !dead[t]
	do dying[t] := true; tombkilled := true; tombkillerr := err; tombkilledof := t
}
extern tomb.Tomb.Wait(t) returns (err) {
	blocks prompt
	do dead[t] := true; dying[t] := true
	ensures err == tombreason(t)
}
extern tomb.Tomb.Err(t) returns (err) {
	modifies dead, dying
	ensures dead[t] ==> err == tombreason(t)
	ensures err != tomb.ErrStillAlive ==> dying[t]
	ensures old(dying[t]) ==> err != tomb.ErrStillAlive
}
extern tomb.Tomb.Context(t, parent) returns (ctx) {
	is tombctx(t, parent)
}
ghost tombkilled bool local init false
ghost tombkillerr any local init nil
ghost tombkilledof ref local init nil
fn tombreason(ref) any

// ---- errors

extern errors.NotFoundf(f, a) returns (err) {
	ensures err != nil && errIs(err, errors.NotFound) && globalid(err) < 0
}
extern errors.AlreadyExistsf(f, a) returns (err) {
	ensures err != nil && errIs(err, errors.AlreadyExists) && globalid(err) < 0
}
extern errors.NotValidf(f, a) returns (err) {
	ensures err != nil && errIs(err, errors.NotValid) && globalid(err) < 0
}
extern errors.Errorf(f, a) returns (err) {
	ensures err != nil && globalid(err) < 0 && causeOf(err) == err && plainerr(err)
	ensures forall i int: 0 <= i && i < len(a) ==> carries(err, a[i])
}
extern errors.New(f) returns (err) {
	ensures err != nil && globalid(err) < 0 && causeOf(err) == err && plainerr(err)
}
// plainerr: an error made here and now; carries(e, v): its message shows v
fn errtext(any) string
iface Error(e) returns (s) { is errtext(e) }
fn plainerr(any) bool
fn carries(any, any) bool
extern errors.Is(e, t) returns (b) {
	is errIs(e, t)
}
extern errors.Cause(e) returns (c) { is causeOf(e) }
extern errors.Trace(e) returns (r) {
	ensures (r == nil) <==> (e == nil)
	ensures causeOf(r) == causeOf(e)
	ensures traced(r) == traced(e)
}
fn traced(any) any
axiom forall e any: traced(traced(e)) == traced(e)
extern errors.Annotate(e, m) returns (r) {
	ensures (r == nil) <==> (e == nil)
	ensures forall t any: errIs(e, t) ==> errIs(r, t)
	ensures causeOf(r) == causeOf(e)
	ensures r != nil ==> globalid(r) < 0
}
extern errors.Annotatef(e, m, a) returns (r) {
	ensures (r == nil) <==> (e == nil)
	ensures forall t any: errIs(e, t) ==> errIs(r, t)
	ensures causeOf(r) == causeOf(e)
	ensures r != nil ==> globalid(r) < 0
}

// ---- time

iface Now(c) returns (t) { do lastnow := t }
extern time.Time.UTC(t) returns (r) { is utc(t) }
fn timefmt(time.Time, string) string
extern time.Time.Format(t, l) returns (r) { is timefmt(t, l) }
fn timesub(time.Time, time.Time) int
extern time.Time.Sub(t, s) returns (r) { is timesub(t, s) }
fn timezero(time.Time) bool
extern time.Time.IsZero(t) returns (r) { is timezero(t) }
iface After(c, d) returns (ch) {
	is afterch(d, 0)
}
chan afterch(t, m) {
	recv do slept := durOf($ch)
}
fn durOf(ref) int
axiom forall d int, z int: durOf(afterch(d, z)) == d
axiom forall d int, z int: afterch(d, z) != nil
ghost slept int local init 0

// ---- context

extern context.Background() returns (ctx) { is bgctx }
extern context.WithCancel(c) returns (ctx, cancel) {
	do cutused[ctx] := true
	ensures ctx != nil && cancel != nil && ctxOf(cancel) == ctx && !old(cutused[ctx]) && !cancelled[ctx]
	ensures tombOf(ctx) == tombOf(c) && baseOf(ctx) == baseOf(c)
	ensures cutOf(c) == nil ==> cutOf(ctx) == ctx
}
extern context.WithValue(c, k, v) returns (ctx) {
	ensures ctx != nil && samectx(ctx, c)
}
callback "func()"(f) { do cancelled[ctxOf(f)] := true }

iface Done(c) returns (ch) { is ctxdone(c) }
fn ctxerr(any) any

// ---- workers

iface Worker.Kill(w) {
	modifies dying
	do killed[w] := true; lastkilled := w; killasked := asked
}
iface Worker.Wait(w) returns (err) {
	blocks prompt
	do waitkilled := killed[w]; waited[w] := true; waiterr[w] := err; lastwaited := w; result := err
}
ghost result any local init nil

// killed before the last wait began
ghost waitkilled bool local init false
// the worker last waited for when the channel was closed
ghost closewait [ref]any local init nil
// a goroutine closes the channel after waiting for the worker
ghost watched [ref]any local init nil
fn deadof(any) ref
iface Dead(w) returns (ch) { is deadof(w) }
iface Report(w) returns (m) { }
