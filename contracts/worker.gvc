package worker [C01,C02,C03,C04,C05,C06,C07,C16,C21,C23]
race [C07]

assumption "start functions return a worker that is not nil, or an error, and do not panic; IsFatal, ShouldRestart and MoreImportant are functions of their arguments; restart delays are not negative"

// ---- discipline

guarded [C07] Runner.workers, workerInfo.worker, workerInfo.stopping, workerInfo.started by Runner.mu owner run notify Runner.workersChangedCond
confined [C07] Runner.isDying, Runner.finalError, workerInfo.start, workerInfo.restartDelay to run
immutable [C07] workerInfo.done, workerInfo.labels, Runner.params, Runner.startc, Runner.stopc, Runner.donec, Runner.startedc, Runner.notifyStarted
cond Runner.workersChangedCond lock Runner.mu wait (r) requires [C06] nothing_to_tell: $id in r.workers && r.workers[$id].worker == nil

// wascur(r, id, w): w was the instance available under id at some time during
// the call; wasabsent(r, id): id was not registered at some time during it.
fn wascur(ref, string, any) bool
fn wasabsent(ref, string) bool
fn wasdone(ref, string, any, ref) bool

inv registry(r) {
	[C01,C02,C05,C06,C07,C16] infos: forall id string: id in r.workers ==> r.workers[id] != nil
	[C06] announced_later: forall id string: id in r.workers ==> r.workers[id].done != nil && !closed[r.workers[id].done]
}

monitor Runner.mu(r) {
	inv use registry(r)
	assume forall id string: id in r.workers && r.workers[id].worker != nil ==> wascur(r, id, r.workers[id].worker) && wasdone(r, id, r.workers[id].worker, r.workers[id].done)
	assume forall id string: !(id in r.workers) ==> wasabsent(r, id)
}

// ---- the runner's goroutine

// live[id]: a runWorker goroutine for id exists that has not reported yet.
// inst[id]: the instance it has announced.
ghost live [string]bool
ghost inst [string]any
ghost spawnDelay [string]int
ghost spawnFn [string]fn

ghost evctx any event
chan Runner.startc(r, m) {
	send assume !dead[&r.tomb]
	send do asked := true; askedid := m.id
	recv assume m.start != nil
	recv assume m.reply != nil
	recv assume m.ctx != nil
	recv do ev := 1; evid := m.id; evfn := m.start; owe := m.reply; evctx := m.ctx
}
chan startReq.reply(q, m) {
	prompt
	send do owe := nil; everr := m
	recv do replyv := m; gotanswer := true
}
chan Runner.stopc(r, m) {
	send assume !dead[&r.tomb]
	send do asked := true; askedid := m
	recv do ev := 2; evid := m
}
chan Runner.startedc(r, m) {
	prompt
	send requires [C02,C05] once: !announced
	send requires [C02,C05] its_worker: started && m.worker == cur && m.id == $id && !waited[m.worker]
	send do announced := true
	recv assume live[m.id] && inst[m.id] == nil
	recv assume m.worker != nil
	recv do ev := 3; evid := m.id; evw := m.worker; inst[m.id] := m.worker
}
chan Runner.donec(r, m) {
	prompt
	send requires [C01,C05] once: tok
	send requires [C01,C05] after_wait: started ==> waited[cur]
	send requires [C02,C05] was_announced: started ==> announced
	send requires [C03,C04] its_error: m.id == $id && (attempted ==> m.err == result) && (exited ==> m.err != nil) && (!attempted && !exited ==> m.err == nil && dying[&r.tomb])
	send do tok := false
	recv assume live[m.id]
	recv do ev := 4; evid := m.id; everr := m.err; live[m.id] := false
}
chan workerInfo.done(i, m) {
	closedonly
	close requires [C06] removed: held(Runner.mu) || forall id string: id in $r.workers ==> $r.workers[id].done != $ch
	recv do lastdone := $ch
}

pred keep(r, id) {
	(id in r.workers <==> old(id in r.workers)) &&
	(id in r.workers ==> r.workers[id] == old(r.workers[id]) &&
		r.workers[id].start == old(r.workers[id].start) && r.workers[id].stopping == old(r.workers[id].stopping) &&
		r.workers[id].worker == old(r.workers[id].worker) && r.workers[id].started == old(r.workers[id].started)) &&
	live[id] == old(live[id]) && inst[id] == old(inst[id])
}
pred keepOthers(r, x) { forall id string: id != x ==> keep(r, id) }
pred killsOnly(r, x) { forall w any: killed[w] && !old(killed[w]) ==> w == inst[x] }
pred fatal(r, e) { e != nil && callv(r.params.IsFatal, e) }
pred gone(r, id) { !(id in r.workers) && !live[id] }

inv running(r) {
	use registry(r)
	[C01,C05] registered: forall id string: live[id] <==> id in r.workers
	[C01,C02,C03] separate: forall a string, b string: a in r.workers && b in r.workers && a != b ==> r.workers[a] != r.workers[b]
	[C06] separate_done: forall a string, b string: a in r.workers && b in r.workers && a != b ==> r.workers[a].done != r.workers[b].done
	[C05] all_stopping: r.isDying ==> forall id string: id in r.workers ==> r.workers[id].stopping
	[C02,C03] stopped: forall id string: id in r.workers ==> (r.workers[id].stopping <==> r.workers[id].start == nil)
	[C02,C05,C06,C16] current: forall id string: id in r.workers ==> (r.workers[id].worker == nil || r.workers[id].worker == inst[id])
	[C02,C05,C06,C16] available: forall id string: id in r.workers && !r.workers[id].stopping ==> r.workers[id].worker == inst[id]
	[C02,C05] killed: forall id string: id in r.workers && r.workers[id].stopping && inst[id] != nil ==> killed[inst[id]]
	[C03] delay: forall id string: id in r.workers ==> r.workers[id].restartDelay == r.params.RestartDelay
}

func Runner.run(r) returns (err) {
	role run
	requires [C01,C02,C03,C04,C05,C06,C07] params: r.params.IsFatal != nil && r.params.ShouldRestart != nil && r.params.MoreImportant != nil && r.params.Clock != nil && r.params.Logger != nil
	requires [C01,C05] chans: r.startc != nil && r.stopc != nil && r.donec != nil && r.startedc != nil && r.workers != nil
	requires [C04,C05] fresh: !r.isDying && r.finalError == nil
	requires [C01,C05] empty: forall id string: !(id in r.workers) && !live[id]
	requires [C01] tests_only: r.notifyStarted == nil
	spawn do ev := 0
	serves [C01,C02,C03,C05] r.donec, r.startedc, r.startc, r.stopc
	serves [C05] dyingch(&r.tomb) when !r.isDying
	eventloop fallback [C03,C05] unfinished: r.isDying ==> exists id string: id in r.workers
	waits requires [C03,C05] not_finished: r.isDying ==> exists id string: id in r.workers
	eventloop use running(r)
	ensures [C05] nothing_left: forall id string: gone(r, id)
	ensures [C04] outcome: err == r.finalError

	step [C05] stays_dying: old(r.isDying) ==> r.isDying
	step [C01,C05] answered: owe == nil

	step [C01] known_refused: ev == 1 && !old(r.isDying) && old(evid in r.workers) ==> errIs(everr, errors.AlreadyExists)
	step [C01] known_kept: ev == 1 && old(evid in r.workers) ==> keep(r, evid)
	step [C05] refused_dying: ev == 1 && old(r.isDying) ==> keep(r, evid)
	step [C01] registered: ev == 1 && !old(r.isDying) && !(old(evid in r.workers)) ==>
		everr == nil && evid in r.workers && live[evid] && inst[evid] == nil && spawnDelay[evid] == 0 && spawnFn[evid] == evfn && r.workers[evid].start == evfn && !r.workers[evid].stopping
	step [C01,C02] start_alone: ev == 1 ==> keepOthers(r, evid) && killsOnly(r, evid) && killed == old(killed)

	step [C02] stopped: ev == 2 && old(evid in r.workers) ==> evid in r.workers && r.workers[evid].stopping && live[evid]
	step [C02] stop_unknown: ev == 2 && !(old(evid in r.workers)) ==> keep(r, evid)
	step [C02] stop_alone: ev == 2 ==> keepOthers(r, evid) && killsOnly(r, evid)

	step [C02,C05,C06,C16] announced: ev == 3 ==> evid in r.workers && r.workers[evid].stopping == old(r.workers[evid].stopping) &&
		(if r.workers[evid].stopping then killed[evw] else r.workers[evid].worker == evw && (killed[evw] ==> old(killed[evw])))
	step [C16] start_time: ev == 3 ==> r.workers[evid].started == utc(lastnow)
	step [C02,C03] announce_alone: ev == 3 ==> keepOthers(r, evid) && killsOnly(r, evid)

	step [C02] final: ev == 4 && old(r.workers[evid].stopping) ==> gone(r, evid)
	step [C03] clean_exit: ev == 4 && everr == nil ==> gone(r, evid)
	step [C03,C05] fatal_exit: ev == 4 && fatal(r, everr) ==> gone(r, evid) && r.isDying
	step [C03] no_restart: ev == 4 && everr != nil && !callv(r.params.ShouldRestart, everr) ==> gone(r, evid)
	step [C03] restarted: ev == 4 && !old(r.workers[evid].stopping) && everr != nil && !fatal(r, everr) && callv(r.params.ShouldRestart, everr) ==>
		evid in r.workers && live[evid] && spawnDelay[evid] == r.params.RestartDelay && spawnFn[evid] == old(r.workers[evid].start) &&
		r.workers[evid] == old(r.workers[evid]) && r.workers[evid].start == old(r.workers[evid].start) && !r.workers[evid].stopping && inst[evid] == nil
	step [C06] removal_announced: ev == 4 && gone(r, evid) ==> closed[old(r.workers[evid].done)]
	step [C02,C03] exit_alone: ev == 4 && !fatal(r, everr) ==> keepOthers(r, evid) && killed == old(killed) && r.isDying == old(r.isDying)
	step [C03,C04,C05] only_fatal_or_kill: r.isDying && !old(r.isDying) ==> ev == 5 || (ev == 4 && fatal(r, everr))
	step [C05] dying: ev == 5 ==> r.isDying
	step [C04] fatal_error: ev == 4 && fatal(r, everr) ==> r.finalError == (if old(r.finalError) == nil || callv(r.params.MoreImportant, everr, old(r.finalError)) then everr else old(r.finalError))
	step [C04] other_error: !(ev == 4 && fatal(r, everr)) ==> r.finalError == old(r.finalError)
	loop r.isDying == old(r.isDying)
	loop forall id string: $visited[id] ==> r.workers[id].stopping
}

pool {
	local r *Runner: forall id string: id in r.workers <==> old(id in r.workers);
	local r *Runner: forall id string: id in r.workers ==> r.workers[id] == old(r.workers[id]);
	local r *Runner: forall id string: $visited[id] ==> id in r.workers;
	local r *Runner: forall id string: $visited[id] && id in r.workers ==> r.workers[id].stopping && r.workers[id].start == nil;
	local r *Runner: forall id string: id in r.workers ==> (r.workers[id].stopping <==> r.workers[id].start == nil);
	local r *Runner: forall id string: id in r.workers && old(r.workers[id].stopping) ==> r.workers[id].stopping;
	local r *Runner: forall id string: id in r.workers ==> (r.workers[id].worker == nil || r.workers[id].worker == inst[id]);
	local r *Runner: forall id string: id in r.workers && !r.workers[id].stopping ==> r.workers[id].worker == inst[id];
	local r *Runner: forall id string: id in r.workers && r.workers[id].stopping && inst[id] != nil ==> killed[inst[id]];
	local r *Runner: forall w any: old(killed[w]) ==> killed[w];
	local r *Runner: live == old(live) && inst == old(inst);
	local r *Runner: local m "map[string]interface{}": forall id string: id in m <==> $visited[id];
	local r *Runner: local m "map[string]interface{}": forall id string: id in m ==> id in r.workers && born(unbox(m[id], "map[string]interface{}")) && described(r, id, m[id]);
	local names "[]string": mem(names) == $visited;
	$id in $runner.workers && $runner.workers[$id].worker == nil;
}

callback "func(error) bool"(f, e) returns (b) { pure yes }
callback "func(error, error) bool"(f, a, b) returns (c) { pure yes }

// ---- one worker's goroutine

ghost tok bool local init true
ghost started bool local init false
ghost attempted bool local init false
ghost exited bool local init false
ghost announced bool local init false
ghost cur any local init nil

callback "func(context.Context) (worker.Worker, error)"(f, ctx) returns (w, err) {
	requires [C01] one_attempt: !attempted && tok
	requires [C01,C03] the_function: f == $start
	requires [C03] delayed: $delay > 0 ==> slept == $delay
	requires [C23] its_context: samectx(ctx, $ctx)
	maypanic
	mayexit
	do attempted := true; started := err == nil; cur := w; result := err; waited[w] := false
	ensures err == nil ==> w != nil
}

func Runner.runWorker(runner, ctx, delay, id, start) {
	requires [C01,C03] start: start != nil
	requires [C01] runner: runner != nil && runner.params.Clock != nil && runner.params.Logger != nil && runner.donec != nil && runner.startedc != nil
	spawn requires [C01] one_at_a_time: !live[id]
	spawn requires [C23] context: tombOf(ctx) == &runner.tomb && (let c := (if ev == 1 then evctx else bgctx) then cutOf(ctx) == cutOf(c) && baseOf(ctx) == baseOf(c))
	spawn do live[id] := true; inst[id] := nil; spawnDelay[id] := delay; spawnFn[id] := start
	escapes [C05] dyingch(&runner.tomb)
	maypanic
	mayexit
	ensures [C01,C05] reported: !tok
}

// ---- the public methods

func NewRunner(p) returns (r, err) {
	root
	requires empty: forall id string: !live[id]
	ensures [C01] invalid: (err == nil) <==> (p.Name != "")
	ensures [C01,C05] running: err == nil ==> r != nil && tombgo[&r.tomb] == old(tombgo[&r.tomb]) + 1
	ensures [C03] delay: err == nil ==> r.params.RestartDelay == (if p.RestartDelay == 0 then 3000000000 else p.RestartDelay)
	ensures [C03,C04] fatal: err == nil ==> (if p.IsFatal == nil then (forall e any: callv(r.params.IsFatal, e)) else r.params.IsFatal == p.IsFatal)
	ensures [C03] restart: err == nil ==> (if p.ShouldRestart == nil then (forall e any: callv(r.params.ShouldRestart, e)) else r.params.ShouldRestart == p.ShouldRestart)
	ensures [C04] importance: err == nil ==> (if p.MoreImportant == nil then (forall e any, g any: !callv(r.params.MoreImportant, e, g)) else r.params.MoreImportant == p.MoreImportant)
}

func Runner.StartWorker(runner, ctx, id, startFunc) returns (err) {
	root
	requires runner.startc != nil && ctx != nil
	escapes [C05,C07] deadch(&runner.tomb)
	ensures [C01] answered: asked ==> err == replyv && askedid == id
	ensures [C05,C07] taken: asked ==> gotanswer
	ensures [C01,C05] refused: !asked ==> err == ErrDead
	ensures [C05] dead: old(dead[&runner.tomb]) ==> err == ErrDead
}

func Runner.StopWorker(runner, id) returns (err) {
	root
	requires runner.stopc != nil
	escapes [C05,C07] deadch(&runner.tomb)
	ensures [C02] taken: err == nil ==> asked && askedid == id
	ensures [C05] dead: old(dead[&runner.tomb]) ==> err == ErrDead
	ensures [C02,C05] refused: err != nil ==> err == ErrDead && dead[&runner.tomb]
}

pred lookupFailed(runner, id, abort, err) {
	(err == ErrDead && dying[&runner.tomb]) || (err == ErrAborted && recvd[abort]) || (errIs(err, errors.NotFound) && wasabsent(runner, id))
}

func Runner.Worker(runner, id, abort) returns (w, err) {
	root
	requires runner.workers != nil
	escapes [C06] abort
	escapes [C05,C06] dyingch(&runner.tomb)
	ensures [C06] truth: (err == nil && w != nil && wascur(runner, id, w)) || (w == nil && lookupFailed(runner, id, abort, err))
}

func Runner.StopAndRemoveWorker(runner, id, abort) returns (err) {
	root
	requires runner.workers != nil && runner.stopc != nil
	escapes [C06] abort, deadch(&runner.tomb)
	ensures [C06] truth: lookupFailed(runner, id, abort, err) || (err == ErrDead && dead[&runner.tomb]) ||
		(asked && askedid == id && killasked && wascur(runner, id, lastwaited) && killed[lastwaited] && waited[lastwaited] && err == waiterr[lastwaited] &&
		 lastdone != nil && wasdone(runner, id, lastwaited, lastdone))
}

func Runner.Kill(runner) {
	root
	requires runner.params.Logger != nil
	ensures [C05] dying: dying[&runner.tomb]
}

func Runner.Wait(runner) returns (err) {
	root
	blocks
	ensures [C04,C05] outcome: dead[&runner.tomb] && err == tombreason(&runner.tomb)
}

func Runner.WorkerNames(runner) returns (names) {
	root
	ensures [C06,C16] names: mem(names) == dom(runner.workers)
}

pred described(r, id, d) {
	is(d, "map[string]interface{}") &&
	(let m := unbox(d, "map[string]interface{}") then
		m != nil && KeyState in m && m[KeyState] == box((if r.workers[id].worker == nil then "stopped" else if r.workers[id].stopping then "stopping" else "started"), "string") &&
		(KeyLastStart in m <==> !timezero(r.workers[id].started)) &&
		(KeyLastStart in m ==> m[KeyLastStart] == box(timefmt(r.workers[id].started, "2006-01-02 15:04:05"), "string")) &&
		(KeyReport in m ==> r.workers[id].worker != nil))
}

func Runner.Report(runner) returns (rep) {
	root
	ensures [C16] listed: rep != nil && "workers" in rep && is(rep["workers"], "map[string]interface{}") &&
		(let m := unbox(rep["workers"], "map[string]interface{}") then
			(forall id string: id in m <==> id in runner.workers) && (forall id string: id in m ==> described(runner, id, m[id])))
}

// ---- worker.go

childfact watched(w, c) { exit waited[w] && closed[c] && closewait[c] == w }

func Stop(w) returns (err) {
	root
	requires w != nil
	blocks
	ensures [C21] stopped: killed[w] && waited[w] && lastwaited == w && waitkilled && err == waiterr[w]
}

func Dead(w) returns (ch) {
	root
	requires w != nil
	blocks
	ensures [C21] own: hasmethods(w, "Dead") && deadof(w) != nil ==> ch == deadof(w)
	ensures [C21] watched: !(hasmethods(w, "Dead") && deadof(w) != nil) ==> fresh(ch) && watched[ch] == w && !closed[ch]
}
