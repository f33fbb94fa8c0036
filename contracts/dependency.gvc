package dependency [C08,C09,C10,C11,C12,C13,C14,C15,C16,C22,C23,C24]

assumption "start functions return a worker that is not nil, or an error, and do not panic; Manifold.Start is set; Inputs slices are not changed after Install"
assumption "Getter.Get is called by the goroutine that runs Start (or one ordered with it) until Start has returned"
assumption "IsFatal, WorstError and the filters are functions of their arguments and do not call back into the engine; reports of workers are maps nobody else writes"
assumption "contracts of github.com/juju/collections/set: NewStrings, Remove, Values, IsEmpty as sets of strings"
assumption "the contents of InstallTicket results: Install reads exactly one result (proved for Install itself, relied on by the loop)"

// ---- cycles

// conn: any relation that contains the edges of the graph and is transitive
ghost conn [string][string]bool
// rank: the order in which nodes were done
ghost rank [string]int
ghost ranks int

pred edge(v, a, b) { a in v.inputs && b in mem(at(v.inputs, a)) }
pred transitive() { forall a string, b string, c string: conn[a][b] && conn[b][c] ==> conn[a][c] }
pred ranked(v) {
	(forall a string: v.done[a] ==> rank[a] < ranks && !v.doing[a]) &&
	(forall a string, b string: v.done[a] && edge(v, a, b) ==> v.done[b] && rank[b] < rank[a])
}
pred cyclic() { exists a string: conn[a][a] }

func validator.visit(v, node) returns (err) {
	helper
	requires v.inputs != nil && v.doing != nil && v.done != nil && v.doing != v.done
	requires [C11] edges: forall a string, b string: edge(v, a, b) ==> conn[a][b]
	requires [C11] transitive: transitive()
	requires [C11] ranked: ranked(v)
	requires [C11] path: forall a string: v.doing[a] ==> conn[a][node]
	modifies map:v.doing, map:v.done, rank, ranks
	atreturn rank[node] := (if err == nil && !old(v.done[node]) then ranks else rank[node]);
	   ranks := (if err == nil && !old(v.done[node]) then ranks + 1 else ranks)
	ensures [C11] cycle: err != nil ==> cyclic()
	ensures [C11] acyclic: err == nil ==> ranked(v) && v.done[node]
	ensures [C11] same: err == nil ==> forall a string: v.doing[a] == old(v.doing[a])
	ensures [C11] more: err == nil ==> ranks >= old(ranks) && (forall a string: old(v.done[a]) ==> v.done[a] && rank[a] == old(rank[a]))
	loop forall b string: $visited[b] ==> v.done[b]
	loop ranked(v)
	loop forall a string: v.doing[a] == (a == node || old(v.doing[a]))
	loop ranks >= old(ranks)
	loop forall a string: old(v.done[a]) ==> v.done[a] && rank[a] == old(rank[a])
}
func Validate(manifolds) returns (err) {
	helper
	requires [C11] edges: forall a string, b string: a in manifolds && b in mem(at(manifolds, a).Inputs) ==> conn[a][b]
	requires [C11] transitive: transitive()
	modifies rank, ranks
	atreturn rank := (if err == nil then rank else old(rank))
	ensures [C11] cycle: err != nil ==> cyclic() && rank == old(rank)
	ensures [C11] acyclic: err == nil ==> (forall a string, b string: a in manifolds && b in mem(at(manifolds, a).Inputs) ==> rank[b] < rank[a])
}
pool {
	local v "validator": ranked(v);
	local v "validator": forall a string: !v.doing[a];
	local v "validator": forall a string: $visited[a] ==> v.done[a];
	local m "map[string][]string": forall a string: a in m <==> $visited[a];
	local m "map[string][]string": local n "Manifolds": forall a string: $visited[a] ==> at(m, a) == at(n, a).Inputs;
}

// ---- errors

// the package's own errors are constants, each matching only itself
axiom errIs(ErrMissing, ErrMissing) && !errIs(ErrMissing, ErrBounce) && !errIs(ErrMissing, ErrUninstall) && !errIs(ErrMissing, errAborted)
axiom errIs(ErrBounce, ErrBounce) && !errIs(ErrBounce, ErrMissing) && !errIs(ErrBounce, ErrUninstall) && !errIs(ErrBounce, errAborted)
axiom errIs(ErrUninstall, ErrUninstall) && !errIs(ErrUninstall, ErrBounce) && !errIs(ErrUninstall, ErrMissing) && !errIs(ErrUninstall, errAborted)
axiom errIs(errAborted, errAborted) && !errIs(errAborted, ErrBounce) && !errIs(errAborted, ErrUninstall) && !errIs(errAborted, ErrMissing)
axiom forall e any: plainerr(e) ==> !errIs(e, ErrMissing) && !errIs(e, ErrBounce) && !errIs(e, ErrUninstall) && !errIs(e, errAborted)

// ---- discipline

race [C22]
confined [C22] Engine.manifolds, Engine.dependents, Engine.current, Engine.worstError to eng unless e: dead[&e.tomb]
immutable [C22] Engine.config, Engine.install, Engine.started, Engine.stopped, Engine.report, Engine.metrics, snapshot.ctx, snapshot.clientName, snapshot.expired, snapshot.workers, snapshot.outputs, snapshot.logger

// ---- what Start asks for (role start)

ghost conversions int local init 0
ghost convfn fn local
ghost convin any local init nil
ghost convout any local init nil
ghost converr any local init nil

callback "func(worker.Worker, interface{}) error"(f, in, out) returns (err) {
	do conversions := conversions + 1; convfn := f; convin := in; convout := out; converr := err
}
chan snapshot.expired(s, m) {
	closedonly
	idle assume !closed[$ch]
}

func snapshot.Get(s, name, out) returns (err) {
	root
	role start
	requires s.expired != nil && s.logger != nil
	ensures [C12] expired: old(closed[s.expired]) ==> plainerr(err) && conversions == 0
	ensures [C12] answer: err == nil ==> name in s.workers && s.workers[name] != nil
	ensures [C12] from_input: conversions > 0 ==> conversions == 1 && name in s.workers && convin == s.workers[name] && convin != nil && convfn == s.outputs[name] && convout == out && err == converr
	ensures [C12] missing: !recvd[s.expired] && (!(name in s.workers) || s.workers[name] == nil || (out != nil && s.outputs[name] == nil)) ==> errIs(err, ErrMissing)
	ensures [C12] exists: !recvd[s.expired] && name in s.workers && s.workers[name] != nil && out == nil ==> err == nil
	ensures [C12] converted: !recvd[s.expired] && name in s.workers && s.workers[name] != nil && out != nil && s.outputs[name] != nil ==> conversions == 1
}

// ---- a worker's goroutine


callback "func(context.Context, dependency.Getter) (worker.Worker, error)"(f, ctx, g) returns (w, err) {
	requires [C08] one_attempt: !attempted && tok
	requires [C08,C10] the_function: f == $start
	requires [C12] its_inputs: g == $snapshot && !closed[$snapshot.expired]
	requires [C15] delayed: $delay > 0 ==> slept == $delay
	requires [C23] its_context: samectx(ctx, $snapshot.ctx)
	do attempted := true; started := err == nil; cur := w; result := err; waited[w] := false
	ensures err == nil ==> w != nil
}

chan Engine.started(e, m) {
	prompt
	send requires [C08,C09] once: !announced
	send requires [C08,C09] its_worker: started && m.worker == cur && m.name == $name && !waited[m.worker]
	send requires [C12] expired: closed[$snapshot.expired]
	send do announced := true
	recv assume live[m.name] && inst[m.name] == nil
	recv assume m.worker != nil
	recv do ev := 3; evid := m.name; evw := m.worker; inst[m.name] := m.worker
}
chan Engine.stopped(e, m) {
	prompt
	send requires [C08,C13] once: tok
	send requires [C08,C13] after_wait: started ==> waited[cur] || cur == e && dying[&e.tomb]
	send requires [C09,C13] was_announced: started ==> announced || killed[cur]
	send requires [C10,C14] its_error: m.name == $name && (attempted && cur != e && !(errIs(result, errAborted) && !started) ==> m.err == result) && (!attempted ==> errIs(m.err, errAborted))
	send requires [C12] expired: closed[$snapshot.expired]
	send do tok := false
	recv assume live[m.name]
	recv do ev := 4; evid := m.name; everr := m.err; live[m.name] := false
}

func Engine.runWorker(engine, name, delay, start, snapshot) {
	role start
	requires [C08] start: start != nil && engine != nil && snapshot != nil && engine.config.Clock != nil && engine.config.Logger != nil
	requires [C08] chans: engine.started != nil && engine.stopped != nil && snapshot.expired != nil && snapshot.ctx != nil
	spawn requires [C08] one_at_a_time: !live[name]
	spawn requires [C08,C10] its_function: name in engine.manifolds && start == at(engine.manifolds, name).Start
	requires [C12] open: !closed[snapshot.expired]
	spawn requires [C12] unused: !issued[snapshot.expired]
	spawn requires [C09,C12] inputs: forall i string: i in snapshot.workers <==> i in mem(at(engine.manifolds, name).Inputs)
	spawn requires [C09,C12] workers: forall i string: i in snapshot.workers ==> at(snapshot.workers, i) == (if i in engine.current then at(engine.current, i).worker else nil)
	spawn requires [C12] outputs: forall i string: i in snapshot.workers ==> snapshot.outputs[i] == (if i in engine.manifolds then at(engine.manifolds, i).Output else nil)
	spawn requires [C23] context: tombOf(snapshot.ctx) == &engine.tomb && baseOf(snapshot.ctx) == bgctx && cutOf(snapshot.ctx) == ctxOf(at(engine.current, name).cancel) &&
		cutused[cutOf(snapshot.ctx)] && cutOf(snapshot.ctx) != nil && !cancelled[cutOf(snapshot.ctx)]
	spawn requires [C23] own_context: forall n string: n != name && n in engine.current && !idle(engine, n) ==> startcut[n] != cutOf(snapshot.ctx)
	spawn do startcut[name] := cutOf(snapshot.ctx); cutowner[cutOf(snapshot.ctx)] := name; issued[snapshot.expired] := true; live[name] := true; inst[name] := nil; given[name] := vals(snapshot.workers); spawnDelay[name] := delay; spawnFn[name] := start
	escapes [C13] dyingch(&engine.tomb)
	ensures [C08,C13] reported: !tok
}
ghost given [string][string]any
// what cancels the context of the last start
ghost startcut [string]any
ghost cutowner [any]string
// expiry channels that belong to a start already
ghost issued [ref]bool

// ---- the engine's goroutine

ghost evm dependency.Manifold event
fn closureOf(ref) [string][string]bool
fn pow(real, real) real
axiom forall x real, y real: x >= 1.0 && y >= 0.0 ==> pow(x, y) >= 1.0
fn quot(int, int) int
lemma times_positive: forall x real, y real: x >= 0.0 && y >= 0.0 ==> x * y >= 0.0
lemma times_one: forall x real, y real: x >= 0.0 && y >= 1.0 ==> x * y >= x
lemma times_low: forall x real, y real: x >= 0.0 && y >= 0.9 ==> x * y >= x * 0.9
lemma times_high: forall x real, y real: x >= 0.0 && y <= 1.1000001 ==> x * y <= x * 1.1000001

extern math.Pow(x, y) returns (r) { is pow(x, y) }
extern rand.Float64() returns (r) { ensures r >= 0.0 && r < 1.0 }
extern time.Duration.Round(d, m) returns (r) {
	ensures m > 0 ==> r == m * quot(r, m) && r - d <= m / 2 && d - r <= m / 2
}
extern set.NewStrings(vs) returns (s) {
	ensures s != nil && fresh(s) && dom(s) == mem(vs)
}
extern set.Strings.Remove(s, v) {
	modifies map:s
	ensures dom(s) == remove(old(dom(s)), v)
}
extern set.Strings.Values(s) returns (vs) {
	ensures fresh(vs) && mem(vs) == dom(s)
}

callback "func(error) error"(f, e) returns (r) { pure yes }
callback "func(error, error) error"(f, a, b) returns (r) { pure yes }

chan Engine.install(e, m) {
	send assume !dead[&e.tomb]
	send requires [C08,C22] complete: m.result != nil && m.manifold.Start != nil
	send do asked := true; askedid := m.name; askedm := m.manifold; askedon := m.result
	recv assume m.result != nil
	recv assume m.manifold.Start != nil
	recv assume forall a string, b string: a in e.manifolds && b in mem(at(e.manifolds, a).Inputs) ==> closureOf(m.result)[a][b]
	recv assume forall b string: b in mem(m.manifold.Inputs) ==> closureOf(m.result)[m.name][b]
	recv assume forall a string, b string, c string: closureOf(m.result)[a][b] && closureOf(m.result)[b][c] ==> closureOf(m.result)[a][c]
	recv do ev := 1; evid := m.name; evm := m.manifold; owe := m.result; conn := closureOf(m.result)
}
chan installTicket.result(t, m) {
	prompt
	send do owe := nil; everr := m
	recv do replyv := m; gotanswer := true
}
chan Engine.report(e, m) {
	send assume !dead[&e.tomb]
	send requires [C16,C22] complete: m.result != nil
	send do asked := true; askedon := m.result
	recv assume m.result != nil
	recv do ev := 2; owe := m.result
}
chan reportTicket.result(t, m) {
	prompt
	send do owe := nil; evreport := m
	recv do gotreport := m; gotanswer := true
}
ghost askedm dependency.Manifold local
ghost askedon ref local
ghost evreport "map[string]interface{}" event
ghost gotreport "map[string]interface{}" local

pred declares(e, d, i) { d in e.manifolds && i in mem(at(e.manifolds, d).Inputs) }
pred idle(e, n) { at(e.current, n).worker == nil && !at(e.current, n).starting }
pred workerOf(e, i) { if i in e.current then at(e.current, i).worker else nil }
pred sees(e, n) { forall i string: declares(e, n, i) ==> given[n][i] == (if i in e.current then at(e.current, i).worker else nil) }

pred book(e) { bookBut(e) && (forall n string: live[n] <==> n in e.current && !idle(e, n)) }
pred bookBut(e) {
	(forall n string: n in e.current <==> n in e.manifolds) &&
	(forall n string: n in e.current && at(e.current, n).worker != nil ==> at(e.current, n).worker == inst[n] && !at(e.current, n).starting) &&
	(forall n string: n in e.current && at(e.current, n).stopping ==> !idle(e, n))
}
pred kills(e) { killsBut(e) && (forall n string: n in e.current && at(e.current, n).starting && inst[n] != nil ==> killed[inst[n]]) }
pred killsBut(e) { forall n string: n in e.current && at(e.current, n).stopping && at(e.current, n).worker != nil ==> killed[inst[n]] }
// what the worker of n was started with can be told that it is to stop, and has been exactly when it was told
pred ctxok(e, n) {
	startcut[n] != nil && cutused[startcut[n]] && cutowner[startcut[n]] == n && (cancelled[startcut[n]] <==> at(e.current, n).stopping) &&
	(at(e.current, n).cancel == nil ==> at(e.current, n).stopping) && (at(e.current, n).cancel != nil ==> ctxOf(at(e.current, n).cancel) == startcut[n])
}
pred contexts(e) { forall n string: n in e.current && !idle(e, n) ==> ctxok(e, n) }
pred cutgrow() { forall c any: (old(cancelled[c]) ==> cancelled[c]) && (old(cutused[c]) ==> cutused[c]) }
pred mirror(e) { forall i string, d string: declares(e, d, i) <==> i in e.dependents && d in mem(at(e.dependents, i)) }
pred ready(e) {
	e.manifolds != nil && e.current != nil && e.dependents != nil &&
	e.config.IsFatal != nil && e.config.WorstError != nil && e.config.Clock != nil && e.config.Logger != nil && e.metrics != nil &&
	e.started != nil && e.stopped != nil && e.install != nil && e.report != nil &&
	e.config.ErrorDelay >= 0 && e.config.BounceDelay >= 0 && e.config.MaxDelay >= 0 &&
	e.config.ErrorDelay <= 4611686018427387903 && e.config.BounceDelay <= 4611686018427387903 && e.config.MaxDelay <= 4611686018427387903 && (e.config.BackoffFactor == 0.0 || e.config.BackoffFactor >= 1.0) &&
	(forall n string: n in e.manifolds ==> at(e.manifolds, n).Start != nil)
}

// the delay before a start, as configured
pred delayok(e, d, recent, actual) {
	if d == 0 then actual == 0
	else (let base := (if e.config.BackoffFactor == 0.0 then real(d)
		else (let f := real(d) * pow(e.config.BackoffFactor, real(if recent <= 1 then 0 else recent - 1)) then
			let m := real(if e.config.MaxDelay == 0 then 4611686018427387903 else e.config.MaxDelay) then
			if f > m then m else f)) then
		actual >= 0 && actual == 1000000 * quot(actual, 1000000) &&
		real(actual) >= base * 0.9 - 500003.0 && real(actual) <= base * 1.1000001 + 500003.0)
}

pred ekeep(e, n) {
	(n in e.current <==> old(n in e.current)) && (n in e.current ==> at(e.current, n) == old(at(e.current, n))) &&
	live[n] == old(live[n]) && inst[n] == old(inst[n]) && given[n] == old(given[n])
}

func Engine.requestStart(engine, name, delay) {
	helper
	role eng
	requires [C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] ready: ready(engine)
	requires [C08] known: name in engine.manifolds && name in engine.current
	requires [C08] idle: idle(engine, name) && !live[name]
	requires [C15] delay: delay >= 0 && delay <= 4611686018427387903
	requires [C23] contexts: contexts(engine) && !at(engine.current, name).stopping
	modifies map:engine.current, live, inst, given, spawnDelay, spawnFn, startcut, cutowner, cancelled, cutused, issued, recvd, dying, dead
	ensures [C09] others: forall n string: n != name ==> ekeep(engine, n) && spawnDelay[n] == old(spawnDelay[n]) && spawnFn[n] == old(spawnFn[n])
	ensures [C08] still: forall n string: n in engine.current <==> old(n in engine.current)
	ensures [C10,C13] decided: live[name] || dying[&engine.tomb] && ekeep(engine, name)
	ensures [C09] started: live[name] ==> at(engine.current, name).starting && at(engine.current, name).worker == nil && inst[name] == nil && sees(engine, name) &&
		at(engine.current, name).stopping == old(at(engine.current, name).stopping)
	ensures [C15,C16] counts: at(engine.current, name).recentErrors == old(at(engine.current, name).recentErrors) && at(engine.current, name).startCount == old(at(engine.current, name).startCount) && at(engine.current, name).startedTime == old(at(engine.current, name).startedTime)
	ensures [C10] function: live[name] ==> spawnFn[name] == at(engine.manifolds, name).Start
	ensures [C15] delay: live[name] ==> delayok(engine, delay, at(engine.current, name).recentErrors, spawnDelay[name])
	ensures [C13] not_dying: old(dying[&engine.tomb]) ==> !live[name]
	ensures [C23] contexts: contexts(engine)
	ensures [C23] others_contexts: cancelled == old(cancelled) && cutgrow() && forall n string: n != name ==> startcut[n] == old(startcut[n])
}
pool {
	local o "map[string]OutputFunc": forall i string: i in o <==> $visited[i];
	local w "map[string]worker.Worker": forall i string: i in w <==> $visited[i];
	local e "*Engine": local w "map[string]worker.Worker": forall i string: $visited[i] ==> at(w, i) == workerOf(e, i);
	local e "*Engine": local o "map[string]OutputFunc": forall i string: $visited[i] ==> at(o, i) == (if i in e.manifolds then at(e.manifolds, i).Output else nil);
}

// what stays of a record when only its start is requested or stopped
pred counts(e, n) {
	at(e.current, n).recentErrors == old(at(e.current, n).recentErrors) && at(e.current, n).startCount == old(at(e.current, n).startCount) && at(e.current, n).startedTime == old(at(e.current, n).startedTime)
}
pred spawnkeep(n) { spawnDelay[n] == old(spawnDelay[n]) && spawnFn[n] == old(spawnFn[n]) }
// a dependent after it was bounced: stopped if it was running, else started with what there is now
pred bounced(e, n) {
	if old(idle(e, n)) then dying[&e.tomb] || live[n] && (sees(e, n) || at(e.current, n).stopping) && at(e.current, n).starting && spawnFn[n] == at(e.manifolds, n).Start && delayok(e, e.config.BounceDelay, at(e.current, n).recentErrors, spawnDelay[n])
	else live[n] && at(e.current, n).stopping && inst[n] == old(inst[n]) && given[n] == old(given[n]) && spawnkeep(n) && at(e.current, n).starting == old(at(e.current, n).starting)
}
pred killedFor(e, name) {
	(forall w any: old(killed[w]) ==> killed[w]) &&
	(forall w any: killed[w] && !old(killed[w]) ==> exists d string: declares(e, d, name) && old(workerOf(e, d)) == w)
}

func Engine.bounceDependents(engine, name) {
	helper
	role eng
	requires [C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] ready: ready(engine)
	requires [C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] book: book(engine)
	requires [C08,C09,C10,C13] kills: kills(engine)
	requires [C09,C10,C11] mirror: mirror(engine)
	requires [C23] contexts: contexts(engine)
	modifies map:engine.current, live, inst, given, spawnDelay, spawnFn, startcut, cutowner, cancelled, cutused, issued, recvd, dying, dead, killed, lastkilled, killasked
	ensures [C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] book: book(engine)
	ensures [C08,C09,C10,C13] kills: kills(engine)
	ensures [C08,C09] same_names: forall n string: n in engine.current <==> old(n in engine.current)
	ensures [C09] workers: forall n string: n in engine.current ==> at(engine.current, n).worker == old(at(engine.current, n).worker)
	ensures [C15,C16] counts: forall n string: n in engine.current ==> counts(engine, n)
	ensures [C09] dependents: forall n string: declares(engine, n, name) ==> bounced(engine, n)
	ensures [C09] others: forall n string: !declares(engine, n, name) ==> ekeep(engine, n) && spawnkeep(n)
	ensures [C09] kills_only: killedFor(engine, name)
	ensures [C23] contexts: contexts(engine) && cutgrow()
	loop book(engine)
	loop [C23] contexts(engine)
	loop [C23] cutgrow()
	loop kills(engine)
	loop forall n string: n in engine.current <==> old(n in engine.current)
	loop forall n string: n in engine.current ==> at(engine.current, n).worker == old(at(engine.current, n).worker)
	loop forall n string: n in engine.current ==> counts(engine, n)
	loop forall n string: $visited[n] ==> bounced(engine, n)
	loop forall n string: !$visited[n] ==> ekeep(engine, n) && spawnkeep(n)
	loop forall n string: $visited[n] ==> declares(engine, n, name)
	loop killedFor(engine, name)
}

pred unknown(r) { r != nil && !errIs(r, errAborted) && !errIs(r, ErrMissing) && !errIs(r, ErrBounce) && !errIs(r, ErrUninstall) }
pred wantsBounce(r) { errIs(r, ErrBounce) && !errIs(r, errAborted) && !errIs(r, ErrMissing) && !errIs(r, ErrUninstall) }
pred wantsUninstall(r) { errIs(r, ErrUninstall) && !errIs(r, errAborted) && !errIs(r, ErrMissing) && !errIs(r, ErrBounce) }
pred wantsNothing(r) { r == nil || (errIs(r, ErrMissing) || errIs(r, errAborted)) && !errIs(r, ErrBounce) && !errIs(r, ErrUninstall) }

// the worker's error as its manifold's Filter reports it
pred filtered(e, n, r) { if at(e.manifolds, n).Filter == nil then r else callv(at(e.manifolds, n).Filter, r) }
pred acyclicNow(e) { forall a string, b string: declares(e, a, b) ==> rank[b] < rank[a] }
pred ekeepOthers(e, x) { forall n string: n != x ==> ekeep(e, n) && spawnkeep(n) }
pred declkeep(e, n) { (n in e.manifolds <==> old(n in e.manifolds)) && (n in e.manifolds ==> at(e.manifolds, n) == old(at(e.manifolds, n))) }
pred startedAfresh(e, n, d) {
	n in e.current && n in e.manifolds && live[n] && at(e.current, n).starting && sees(e, n) && spawnFn[n] == at(e.manifolds, n).Start &&
	delayok(e, d, at(e.current, n).recentErrors, spawnDelay[n])
}

inv engine(e) {
	use engineBut(e)
	[C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] book: book(e)
	[C08,C09,C10,C13] kills: kills(e)
}
// what holds of the engine between an event and its handling, too
inv engineBut(e) {
	[C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] ready: ready(e)
	[C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] book: bookBut(e)
	[C08,C09,C10,C13] kills: killsBut(e)
	[C09,C10,C11] mirror: mirror(e)
	[C11] acyclic: acyclicNow(e)
	[C13] all_stopping: swept ==> dying[&e.tomb] && forall n string: live[n] ==> at(e.current, n).stopping
	[C09,C12] fresh: forall n string: n in e.current ==> dying[&e.tomb] || at(e.current, n).stopping || sees(e, n)
	[C15] errors: forall n string: n in e.current ==> at(e.current, n).recentErrors >= 0
	[C23] contexts: contexts(e)
}

func Engine.gotInstall(engine, name, manifold) returns (err) {
	helper
	role eng
	requires [C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] event: ev == 1 && evid == name && evm == manifold && manifold.Start != nil
	requires [C11] edges: (forall a string, b string: declares(engine, a, b) ==> conn[a][b]) && (forall b string: b in mem(manifold.Inputs) ==> conn[name][b]) && transitive()
	requires use engine(engine)
	modifies map:engine.manifolds, map:engine.dependents, A:string, rank, ranks, map:engine.current, live, inst, given, spawnDelay, spawnFn, startcut, cutowner, cancelled, cutused, issued, recvd, dying, dead
	ensures use engine(engine)
	ensures [C11] known_refused: old(evid in engine.manifolds) ==> err != nil
	ensures [C11] cyclic_refused: err != nil && !old(evid in engine.manifolds) ==> cyclic()
	ensures [C11] refused: err != nil ==> forall n string: ekeep(engine, n) && declkeep(engine, n) && spawnkeep(n)
	ensures [C11] accepted: err == nil ==> evid in engine.manifolds && at(engine.manifolds, evid) == evm
	ensures [C08,C11] installed: err == nil ==> dying[&engine.tomb] && idle(engine, evid) && !live[evid] || startedAfresh(engine, evid, 0) && !at(engine.current, evid).stopping
	ensures [C09,C11] install_alone: ekeepOthers(engine, evid) && killed == old(killed)
	ensures [C09,C10,C11] declarations: forall n string: n != evid ==> declkeep(engine, n)
	ensures [C15,C16] counters: forall n string: n != evid && n in engine.current ==> counts(engine, n)
	ensures [C14] error: engine.worstError == old(engine.worstError) && tombkilled == old(tombkilled)
}
func Engine.gotStarted(engine, name, worker, resourceLog) {
	helper
	role eng
	requires [C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] event: ev == 3 && evid == name && evw == worker && worker != nil && inst[name] == worker && live[name] && name in engine.current && at(engine.current, name).worker == nil
	requires use engineBut(engine)
	requires [C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] book: book(engine)
	requires [C08,C09,C10,C13] kills: forall n string: n != name && n in engine.current && at(engine.current, n).starting && inst[n] != nil ==> killed[inst[n]]
	modifies lastnow, map:engine.current, live, inst, given, spawnDelay, spawnFn, startcut, cutowner, cancelled, cutused, issued, recvd, dying, dead, killed, lastkilled, killasked
	ensures use engine(engine)
	ensures [C09,C13] unwanted: (old(at(engine.current, evid).stopping) || old(dying[&engine.tomb])) ==> killed[evw] && ekeepOthers(engine, evid)
	ensures [C08,C09] taken: !old(at(engine.current, evid).stopping) ==> killed[evw] && dying[&engine.tomb] || at(engine.current, evid).worker == evw
	ensures [C16] counted: at(engine.current, evid).worker == evw ==> at(engine.current, evid).startCount == old(at(engine.current, evid).startCount) + 1 && at(engine.current, evid).startedTime == utc(lastnow)
	ensures [C15] errors_kept: at(engine.current, evid).recentErrors == old(at(engine.current, evid).recentErrors)
	ensures [C09] start_bounces: at(engine.current, evid).worker == evw ==> forall n string: declares(engine, n, evid) ==> bounced(engine, n)
	ensures [C09] start_kills: forall w any: killed[w] && !old(killed[w]) ==> w == evw || exists d string: declares(engine, d, evid) && old(workerOf(engine, d)) == w
	ensures [C09] only_dependents: forall n string: n != evid && !declares(engine, n, evid) ==> ekeep(engine, n) && spawnkeep(n)
	ensures [C09,C10,C11] declarations: forall n string: declkeep(engine, n)
	ensures [C15,C16] counters: forall n string: n != evid && n in engine.current ==> counts(engine, n)
	ensures [C14] error: engine.worstError == old(engine.worstError) && tombkilled == old(tombkilled)
}
func Engine.gotStopped(engine, name, err, resourceLog) {
	helper
	role eng
	requires [C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] event: ev == 4 && evid == name && everr == err && !live[name] && name in engine.current && !idle(engine, name)
	requires use engineBut(engine)
	requires [C08,C09,C10,C11,C12,C13,C14,C15,C16,C23] book: forall n string: n != name ==> (live[n] <==> n in engine.current && !idle(engine, n))
	requires [C08,C09,C10,C13] kills: kills(engine)
	modifies lastnow, Engine.worstError, map:engine.manifolds, map:engine.dependents, A:string, tombkilled, tombkillerr, tombkilledof, map:engine.current, live, inst, given, spawnDelay, spawnFn, startcut, cutowner, cancelled, cutused, issued, recvd, dying, dead, killed, lastkilled, killasked
	ensures use engine(engine)
	ensures [C09] stop_bounces: old(at(engine.current, evid).worker) != nil && !dying[&engine.tomb] ==> forall n string: declares(engine, n, evid) ==> bounced(engine, n)
	ensures [C09] only_dependents: forall n string: n != evid && !declares(engine, n, evid) ==> ekeep(engine, n) && spawnkeep(n)
	ensures [C09] quiet_stop: old(at(engine.current, evid).worker) == nil ==> ekeepOthers(engine, evid) && killed == old(killed)
	ensures [C09] stop_kills: killedFor(engine, evid)
	ensures [C09,C10,C11] declarations: forall n string: n != evid ==> declkeep(engine, n)
	ensures [C10,C13] dying_stays: old(dying[&engine.tomb]) ==> !live[evid] && evid in engine.current && idle(engine, evid)
	ensures [C23] released: cancelled[old(startcut[evid])]
	ensures [C10] told_to_stop: old(at(engine.current, evid).stopping) && !dying[&engine.tomb] ==> startedAfresh(engine, evid, engine.config.BounceDelay)
	ensures [C10] unknown_error: !old(at(engine.current, evid).stopping) && unknown(old(filtered(engine, evid, err))) && !dying[&engine.tomb] ==> startedAfresh(engine, evid, engine.config.ErrorDelay)
	ensures [C10] bounce: !old(at(engine.current, evid).stopping) && wantsBounce(old(filtered(engine, evid, err))) && !dying[&engine.tomb] ==> startedAfresh(engine, evid, engine.config.BounceDelay)
	ensures [C10] uninstall: !old(at(engine.current, evid).stopping) && wantsUninstall(old(filtered(engine, evid, err))) && !dying[&engine.tomb] ==> !(evid in engine.current) && !(evid in engine.manifolds) && !live[evid]
	ensures [C10] nothing: !old(at(engine.current, evid).stopping) && wantsNothing(old(filtered(engine, evid, err))) ==> evid in engine.current && idle(engine, evid) && !live[evid]
	ensures [C10] kept: !(!old(at(engine.current, evid).stopping) && errIs(old(filtered(engine, evid, err)), ErrUninstall)) ==> declkeep(engine, evid)
	ensures [C10] not_stopping: evid in engine.current ==> !at(engine.current, evid).stopping
	ensures [C14] fatal: callv(engine.config.IsFatal, old(filtered(engine, evid, err))) ==> engine.worstError == callv(engine.config.WorstError, old(filtered(engine, evid, err)), old(engine.worstError)) && dying[&engine.tomb] && !live[evid]
	ensures [C14] not_fatal: !callv(engine.config.IsFatal, old(filtered(engine, evid, err))) ==> engine.worstError == old(engine.worstError) && tombkilled == old(tombkilled)
	ensures [C15] clean: evid in engine.current && err == nil ==> at(engine.current, evid).recentErrors == 0
	ensures [C15] missing: evid in engine.current && (errIs(err, ErrMissing) || errIs(err, errAborted)) ==> at(engine.current, evid).recentErrors == 1
	ensures [C15] errors: evid in engine.current && err != nil && !errIs(err, ErrMissing) && !errIs(err, errAborted) ==> at(engine.current, evid).recentErrors == (let t := old(at(engine.current, evid).startedTime) then if timezero(t) || timesub(utc(lastnow), t) < engine.config.BackoffResetTime then old(at(engine.current, evid).recentErrors) + 1 else 1)
	ensures [C15,C16] counters: forall n string: n != evid && n in engine.current ==> counts(engine, n)
	ensures [C16] starts: evid in engine.current ==> at(engine.current, evid).startCount == old(at(engine.current, evid).startCount)
	ensures [C16] recorded: evid in engine.current && !live[evid] ==> at(engine.current, evid).err == old(filtered(engine, evid, err))
}
func Engine.uninstall(engine, name) {
	helper
	role eng
	requires [C09,C10,C11] mirror: engine.manifolds != nil && engine.current != nil && engine.dependents != nil && mirror(engine)
	modifies map:engine.manifolds, map:engine.current, map:engine.dependents, A:string
	ensures [C08,C10] removed: dom(engine.manifolds) == remove(old(dom(engine.manifolds)), name) && dom(engine.current) == remove(old(dom(engine.current)), name)
	ensures [C08,C10] records: forall n string: n in engine.current ==> at(engine.current, n) == old(at(engine.current, n))
	ensures [C09,C10] declarations: forall n string: n in engine.manifolds ==> at(engine.manifolds, n) == old(at(engine.manifolds, n)) && mem(at(engine.manifolds, n).Inputs) == old(mem(at(engine.manifolds, n).Inputs))
	ensures [C09,C10,C11] mirror: mirror(engine)
}

// ---- reports

pred edescribed(e, n, d) {
	is(d, "map[string]interface{}") &&
	(let m := unbox(d, "map[string]interface{}") then let i := at(e.current, n) then
		m != nil && born(m) && KeyState in m && is(m[KeyState], "string") && KeyInputs in m && is(m[KeyInputs], "[]string") &&
		(let s := unbox(m[KeyState], "string") then
			(s == "stopped" ==> idle(e, n)) && (idle(e, n) && !i.stopping ==> s == "stopped") && (s == "started" ==> i.worker != nil) && (i.worker != nil && !i.starting && !i.stopping ==> s == "started")) &&
		mem(unbox(m[KeyInputs], "[]string")) == mem(e.manifolds[n].Inputs) &&
		(i.startCount > 0 ==> KeyStartCount in m && m[KeyStartCount] == box(i.startCount, "int")) &&
		(!timezero(i.startedTime) ==> KeyLastStart in m && m[KeyLastStart] == box(timefmt(i.startedTime, "2006-01-02 15:04:05"), "string")) &&
		(KeyError in m <==> i.err != nil) && (i.err != nil ==> m[KeyError] == box(errtext(i.err), "string")) &&
		(KeyReport in m ==> i.worker != nil))
}
pred listed(e, m) { (forall n string: n in m <==> n in e.current) && (forall n string: n in m ==> edescribed(e, n, m[n])) }
pred ereport(e, rep) {
	rep != nil && KeyState in rep && is(rep[KeyState], "string") && KeyManifolds in rep && is(rep[KeyManifolds], "map[string]interface{}") &&
	listed(e, unbox(rep[KeyManifolds], "map[string]interface{}"))
}

pool {
	local e "*Engine": local m "map[string]interface{}": forall n string: n in m <==> $visited[n];
	local e "*Engine": local m "map[string]interface{}": forall n string: n in m ==> n in e.current && born(unbox(m[n], "map[string]interface{}")) && edescribed(e, n, m[n]);
}
func Engine.liveReport(engine) returns (rep) {
	helper
	role eng
	modifies recvd, dying, dead
	ensures [C16] report: ereport(engine, rep)
	ensures [C16] state: (unbox(rep[KeyState], "string") == "started" ==> !old(dying[&engine.tomb])) && (unbox(rep[KeyState], "string") == "stopping" ==> dying[&engine.tomb]) && unbox(rep[KeyState], "string") != "stopped"
}

func Engine.requestStop(engine, name) {
	helper
	role eng
	requires engine.current != nil
	requires [C23] contexts: contexts(engine)
	modifies map:engine.current, dying, killed, lastkilled, killasked, cancelled
	ensures [C08,C09] names: dom(engine.current) == old(dom(engine.current))
	ensures [C08,C09] others: forall n string: n != name ==> at(engine.current, n) == old(at(engine.current, n))
	ensures [C08,C09] unknown: !(name in engine.current) ==> at(engine.current, name) == old(at(engine.current, name)) && killed == old(killed)
	ensures [C08,C09] same: name in engine.current ==> at(engine.current, name).worker == old(at(engine.current, name).worker) && at(engine.current, name).starting == old(at(engine.current, name).starting) && counts(engine, name)
	ensures [C09,C13] stopping: name in engine.current ==> at(engine.current, name).stopping == (old(at(engine.current, name).stopping) || !idle(engine, name))
	ensures [C09,C13] killed: name in engine.current ==> forall w any: killed[w] == (old(killed[w]) || w != nil && w == at(engine.current, name).worker && !old(at(engine.current, name).stopping))
	ensures [C23] contexts: contexts(engine) && forall c any: cancelled[c] == (old(cancelled[c]) || cancelled[c] && c == startcut[name])
}
func Engine.isDying(engine) returns (b) {
	helper
	modifies recvd, dying, dead
	ensures [C13] dying: b ==> dying[&engine.tomb]
	ensures [C13] not_dying: !b ==> !old(dying[&engine.tomb])
}
func Engine.allOthersStopped(engine) returns (b) {
	helper
	role eng
	ensures [C13] all: b <==> forall n string: n in engine.current ==> idle(engine, n) || at(engine.current, n).worker == engine
	loop forall n string: $visited[n] ==> n in engine.current && (idle(engine, n) || at(engine.current, n).worker == engine)
}

func Engine.loop(engine) returns (err) {
	role eng
	requires [C08] config: ready(engine)
	requires [C08,C09] empty: forall n string: !(n in engine.manifolds) && !(n in engine.current) && !(n in engine.dependents) && !live[n]
	requires [C14] no_error: engine.worstError == nil
	spawn do ev := 0
	serves [C08,C13] engine.started, engine.stopped, engine.install, engine.report
	serves [C13] dyingch(&engine.tomb) when !swept
	eventloop optional [C13] unfinished: swept ==> exists n string: n in engine.current && !idle(engine, n) && at(engine.current, n).worker != engine
	waits requires [C13] not_finished: swept ==> exists n string: n in engine.current && !idle(engine, n) && at(engine.current, n).worker != engine
	eventloop use engine(engine)
	ensures [C13] nothing_left: forall n string: live[n] ==> inst[n] == engine
	ensures [C13,C14] outcome: err == tomb.ErrDying && dying[&engine.tomb]

	step [C13,C16] answered: owe == nil
	step [C11] known_refused: ev == 1 ==> (old(evid in engine.manifolds) ==> everr != nil)
	step [C11] cyclic_refused: ev == 1 ==> (everr != nil && !old(evid in engine.manifolds) ==> cyclic())
	step [C11] refused: ev == 1 ==> (everr != nil ==> forall n string: ekeep(engine, n) && declkeep(engine, n) && spawnkeep(n))
	step [C11] accepted: ev == 1 ==> (everr == nil ==> evid in engine.manifolds && at(engine.manifolds, evid) == evm)
	step [C08,C11] installed: ev == 1 ==> (everr == nil ==> dying[&engine.tomb] && idle(engine, evid) && !live[evid] || startedAfresh(engine, evid, 0) && !at(engine.current, evid).stopping)
	step [C09,C11] install_alone: ev == 1 ==> (ekeepOthers(engine, evid) && killed == old(killed))
	step [C09,C10,C11] declarations: ev == 1 ==> (forall n string: n != evid ==> declkeep(engine, n))
	step [C15,C16] counters: ev == 1 ==> (forall n string: n != evid && n in engine.current ==> counts(engine, n))
	step [C14] error: ev == 1 ==> (engine.worstError == old(engine.worstError) && tombkilled == old(tombkilled))
	step [C09,C13] unwanted: ev == 3 ==> ((old(at(engine.current, evid).stopping) || old(dying[&engine.tomb])) ==> killed[evw] && ekeepOthers(engine, evid))
	step [C08,C09] taken: ev == 3 ==> (!old(at(engine.current, evid).stopping) ==> killed[evw] && dying[&engine.tomb] || at(engine.current, evid).worker == evw)
	step [C16] counted: ev == 3 ==> (at(engine.current, evid).worker == evw ==> at(engine.current, evid).startCount == old(at(engine.current, evid).startCount) + 1 && at(engine.current, evid).startedTime == utc(lastnow))
	step [C15] errors_kept: ev == 3 ==> (at(engine.current, evid).recentErrors == old(at(engine.current, evid).recentErrors))
	step [C09] start_bounces: ev == 3 ==> (at(engine.current, evid).worker == evw ==> forall n string: declares(engine, n, evid) ==> bounced(engine, n))
	step [C09] start_kills: ev == 3 ==> (forall w any: killed[w] && !old(killed[w]) ==> w == evw || exists d string: declares(engine, d, evid) && old(workerOf(engine, d)) == w)
	step [C09] only_dependents: ev == 3 ==> (forall n string: n != evid && !declares(engine, n, evid) ==> ekeep(engine, n) && spawnkeep(n))
	step [C09,C10,C11] declarations: ev == 3 ==> (forall n string: declkeep(engine, n))
	step [C15,C16] counters: ev == 3 ==> (forall n string: n != evid && n in engine.current ==> counts(engine, n))
	step [C14] error: ev == 3 ==> (engine.worstError == old(engine.worstError) && tombkilled == old(tombkilled))
	step [C09] stop_bounces: ev == 4 ==> (old(at(engine.current, evid).worker) != nil && !dying[&engine.tomb] ==> forall n string: declares(engine, n, evid) ==> bounced(engine, n))
	step [C09] only_dependents: ev == 4 ==> (forall n string: n != evid && !declares(engine, n, evid) ==> ekeep(engine, n) && spawnkeep(n))
	step [C09] quiet_stop: ev == 4 ==> (old(at(engine.current, evid).worker) == nil ==> ekeepOthers(engine, evid) && killed == old(killed))
	step [C09] stop_kills: ev == 4 ==> (killedFor(engine, evid))
	step [C09,C10,C11] declarations: ev == 4 ==> (forall n string: n != evid ==> declkeep(engine, n))
	step [C10,C13] dying_stays: ev == 4 ==> (old(dying[&engine.tomb]) ==> !live[evid] && evid in engine.current && idle(engine, evid))
	step [C23] released: ev == 4 ==> cancelled[old(startcut[evid])]
	step [C10] told_to_stop: ev == 4 ==> (old(at(engine.current, evid).stopping) && !dying[&engine.tomb] ==> startedAfresh(engine, evid, engine.config.BounceDelay))
	step [C10] unknown_error: ev == 4 ==> (!old(at(engine.current, evid).stopping) && unknown(old(filtered(engine, evid, everr))) && !dying[&engine.tomb] ==> startedAfresh(engine, evid, engine.config.ErrorDelay))
	step [C10] bounce: ev == 4 ==> (!old(at(engine.current, evid).stopping) && wantsBounce(old(filtered(engine, evid, everr))) && !dying[&engine.tomb] ==> startedAfresh(engine, evid, engine.config.BounceDelay))
	step [C10] uninstall: ev == 4 ==> (!old(at(engine.current, evid).stopping) && wantsUninstall(old(filtered(engine, evid, everr))) && !dying[&engine.tomb] ==> !(evid in engine.current) && !(evid in engine.manifolds) && !live[evid])
	step [C10] nothing: ev == 4 ==> (!old(at(engine.current, evid).stopping) && wantsNothing(old(filtered(engine, evid, everr))) ==> evid in engine.current && idle(engine, evid) && !live[evid])
	step [C10] kept: ev == 4 ==> (!(!old(at(engine.current, evid).stopping) && errIs(old(filtered(engine, evid, everr)), ErrUninstall)) ==> declkeep(engine, evid))
	step [C10] not_stopping: ev == 4 ==> (evid in engine.current ==> !at(engine.current, evid).stopping)
	step [C14] fatal: ev == 4 ==> (callv(engine.config.IsFatal, old(filtered(engine, evid, everr))) ==> engine.worstError == callv(engine.config.WorstError, old(filtered(engine, evid, everr)), old(engine.worstError)) && dying[&engine.tomb] && !live[evid])
	step [C14] not_fatal: ev == 4 ==> (!callv(engine.config.IsFatal, old(filtered(engine, evid, everr))) ==> engine.worstError == old(engine.worstError) && tombkilled == old(tombkilled))
	step [C15] clean: ev == 4 ==> (evid in engine.current && everr == nil ==> at(engine.current, evid).recentErrors == 0)
	step [C15] missing: ev == 4 ==> (evid in engine.current && (errIs(everr, ErrMissing) || errIs(everr, errAborted)) ==> at(engine.current, evid).recentErrors == 1)
	step [C15] errors: ev == 4 ==> (evid in engine.current && everr != nil && !errIs(everr, ErrMissing) && !errIs(everr, errAborted) ==> at(engine.current, evid).recentErrors == (let t := old(at(engine.current, evid).startedTime) then if timezero(t) || timesub(utc(lastnow), t) < engine.config.BackoffResetTime then old(at(engine.current, evid).recentErrors) + 1 else 1))
	step [C15,C16] counters: ev == 4 ==> (forall n string: n != evid && n in engine.current ==> counts(engine, n))
	step [C16] starts: ev == 4 ==> (evid in engine.current ==> at(engine.current, evid).startCount == old(at(engine.current, evid).startCount))
	step [C16] recorded: ev == 4 ==> (evid in engine.current && !live[evid] ==> at(engine.current, evid).err == old(filtered(engine, evid, everr)))
	step [C16] reported: ev == 2 ==> ereport(engine, evreport)
	step [C16] report_only: ev == 2 ==> killed == old(killed) && forall n string: ekeep(engine, n) && spawnkeep(n) && declkeep(engine, n)
	step [C14] no_other_error: ev == 2 || ev == 5 ==> engine.worstError == old(engine.worstError) && tombkilled == old(tombkilled)
	step [C15,C16] no_other_counters: ev == 2 || ev == 5 ==> forall n string: n in engine.current ==> counts(engine, n)
	step [C13] swept: ev == 5 ==> swept && forall n string: declkeep(engine, n)
	loop forall n string: $visited[n] ==> idle(engine, n) || at(engine.current, n).stopping
}
pred busyButSelf(e, n) { !idle(e, n) && at(e.current, n).worker != e }
pool {
	local e "*Engine": forall n string: $visited[n] ==> !busyButSelf(e, n);
	local e "*Engine": local k int: k >= 0 && (k == 0 ==> forall n string: $visited[n] ==> !busyButSelf(e, n));
	local e "*Engine": local b bool: b ==> forall n string: $visited[n] ==> !busyButSelf(e, n);
	local e "*Engine": local b bool: !b ==> forall n string: $visited[n] ==> !busyButSelf(e, n);
	local e "*Engine": book(e);
	local e "*Engine": kills(e);
	[C23] local e "*Engine": contexts(e);
	[C23] local e "*Engine": cutgrow();
	local e "*Engine": forall n string: n in e.current <==> old(n in e.current);
	local e "*Engine": forall n string: n in e.current ==> at(e.current, n).worker == old(at(e.current, n).worker);
	local e "*Engine": forall n string: n in e.current ==> counts(e, n);
	local e "*Engine": forall n string: $visited[n] ==> idle(e, n) || at(e.current, n).stopping;
	local e "*Engine": forall n string: n in e.current && old(at(e.current, n).stopping) ==> at(e.current, n).stopping;
	local m "Manifolds": local e "*Engine": forall n string: $visited[n] ==> n in m && at(m, n) == at(e.manifolds, n);
	local m "Manifolds": local e "*Engine": local x string: forall n string: n in m <==> n == x || $visited[n];
	local m "Manifolds": local x string: local y "Manifold": at(m, x) == y;
	local e "*Engine": local x string: forall i string: $visited[i] ==> mem(at(e.dependents, i)) == remove(old(mem(at(e.dependents, i))), x);
	local e "*Engine": forall i string: !$visited[i] ==> at(e.dependents, i) == old(at(e.dependents, i));
	local e "*Engine": forall i string: i in e.dependents <==> old(i in e.dependents);
	local e "*Engine": local x string: forall i string, d string: i in e.dependents && d in mem(at(e.dependents, i)) <==> old(i in e.dependents && d in mem(at(e.dependents, i))) || d == x && $visited[i];
}

// ---- what users call

func NewEngine(config) returns (e, err) {
	root
	requires empty: forall n string: !live[n]
	requires sane: config.ErrorDelay <= 4611686018427387903 && config.BounceDelay <= 4611686018427387903 && config.MaxDelay <= 4611686018427387903
	ensures [C15] refused: (err == nil) <==> config.IsFatal != nil && config.WorstError != nil && config.Clock != nil && config.Metrics != nil && config.Logger != nil &&
		config.ErrorDelay >= 0 && config.BounceDelay >= 0 && config.MaxDelay >= 0 && config.BackoffResetTime >= 0 && (config.BackoffFactor == 0.0 || config.BackoffFactor >= 1.0)
	ensures [C08,C13] running: err == nil ==> e != nil && tombgo[&e.tomb] == old(tombgo[&e.tomb]) + 1
	ensures [C10,C14,C15] config: err == nil ==> e.config == config
}
func Engine.Install(engine, name, manifold) returns (err) {
	root
	requires engine.install != nil && manifold.Start != nil
	escapes [C13,C22] dyingch(&engine.tomb)
	ensures [C11] answered: asked ==> err == replyv && askedid == name && askedm == manifold
	ensures [C13,C22] taken: asked ==> gotanswer
	ensures [C11,C13] refused: !asked ==> err != nil && dying[&engine.tomb]
	ensures [C13,C22] dead: old(dead[&engine.tomb]) ==> err != nil
}
func Engine.Report(engine) returns (rep) {
	root
	requires engine.report != nil && engine.current != nil
	requires no_own_error: tombreason(&engine.tomb) == nil
	escapes [C16,C22] deadch(&engine.tomb)
	ensures [C16] answered: asked ==> rep == gotreport
	ensures [C13,C22] taken: asked ==> gotanswer
	ensures [C16] unanswered: !asked ==> dead[&engine.tomb]
	ensures [C16] dead: !asked ==> ereport(engine, rep) && rep[KeyState] == box("stopped", "string") &&
		(let r := (if engine.config.Filter == nil then engine.worstError else callv(engine.config.Filter, engine.worstError)) then
			(KeyError in rep <==> r != nil) && (r != nil ==> rep[KeyError] == box(errtext(r), "string")))
}
func Engine.Kill(engine) {
	root
	ensures [C13] dying: dying[&engine.tomb]
}
func Engine.Wait(engine) returns (err) {
	root
	blocks
	requires no_own_error: tombreason(&engine.tomb) == nil
	ensures [C13] stopped: dead[&engine.tomb]
	ensures [C14] outcome: err == (if engine.config.Filter == nil then engine.worstError else callv(engine.config.Filter, engine.worstError))
}

// ---- many manifolds, and the engine as a manifold

ghost offered [string]bool local init false
ghost accepted int local init 0
ghost refused bool local init false
ghost refusal any local init nil

iface Installer.Install(i, name, manifold) returns (err) {
	requires [C24] to_the_installer: i == $installer
	requires [C24] as_given: name in $manifolds && manifold == at($manifolds, name)
	requires [C24] once: !offered[name]
	requires [C24] not_after_refusal: !refused
	do offered[name] := true; refused := err != nil; refusal := err
}
func Install(installer, manifolds) returns (err) {
	root
	requires installer != nil
	ensures [C24] all: !refused ==> err == nil && forall n string: n in manifolds ==> offered[n]
	ensures [C24] refused: refused ==> err != nil && causeOf(err) == causeOf(refusal)
}
pool {
	[C24] local m "Manifolds": forall n string: offered[n] <==> $visited[n];
	[C24] local m "Manifolds": !refused;
	[C24] local names "[]string": mem(names) == $visited && distinct(names);
	[C24] local names "[]string": local m "Manifolds": (forall n string: n in names <==> n in m) && distinct(names);
}
func SelfManifold(engine) returns (m) {
	root
	ensures [C24] plain: len(m.Inputs) == 0 && m.Filter == nil
	then m.Start(ctx, getter) returns (w, err) {
		ensures [C24] itself: w == box(engine, "*Engine") && err == nil
	}
	then m.Output(in, out) returns (err) {
		requires out != nil
		requires is(out, "*Installer") ==> unbox(out, "*Installer") != nil
		requires is(out, "*Reporter") ==> unbox(out, "*Reporter") != nil
		ensures [C24] who: in != box(engine, "*Engine") ==> err != nil
		ensures [C24] installer: is(out, "*Installer") && in == box(engine, "*Engine") ==> err == nil && pointee(unbox(out, "*Installer")) == box(engine, "*Engine")
		ensures [C24] reporter: is(out, "*Reporter") && in == box(engine, "*Engine") ==> err == nil && pointee(unbox(out, "*Reporter")) == box(engine, "*Engine")
		ensures [C24] nothing_else: !is(out, "*Installer") && !is(out, "*Reporter") ==> err != nil
		ensures [C24] untouched: err != nil ==> (is(out, "*Installer") ==> pointee(unbox(out, "*Installer")) == old(pointee(unbox(out, "*Installer")))) &&
			(is(out, "*Reporter") ==> pointee(unbox(out, "*Reporter")) == old(pointee(unbox(out, "*Reporter"))))
	}
}
