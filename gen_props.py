#!/usr/bin/env python3
# Writes properties.jsonl (kept as code so that the long strings stay readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
     "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
     "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
       "mechanism":[dict(zip(("name","where"),m)) for m in mech],
       "observe_at":list(observe),"hook_needed":hook}})
R="runner.go"; E="dependency/engine.go"; U="dependency/util.go"; S="dependency/snapshot.go"; C="catacomb/catacomb.go"; W="worker.go"; T="workertest/workers.go"

p("C01","Runner runs at most one instance per worker id",
 "A Runner never calls the start function of a worker id while an earlier instance under that id is still running (its Wait has not returned) or still being started. A start request for an id that is already known is refused with an AlreadyExists error and changes nothing; a start request for an unknown id on a running Runner registers it and starts exactly one instance.",
 ["schedules","histories"],"every sequence of start/stop requests, worker exits and restarts, in every interleaving of the goroutines involved",
 "the tests watch one worker through a handful of restarts; whether a second goroutine for the same id can ever exist depends on every history of the event loop",
 [R],[("one runWorker goroutine per registered id","Runner.startWorker, Runner.workerDone"),("done is reported once, after Wait","Runner.runWorker")],
 [("workers","registered ids, one entry per runWorker goroutine","Runner.workers")],["StartWorker results","calls of the start function"])
p("C02","Stopping a runner's worker is final",
 "Once a stop request for an id has been taken, the instance running under that id is killed - or, if it is just being started (which includes waiting out its restart delay), it is killed as soon as it has started - and when it exits it is removed and never restarted, whatever its error, until a new start request is made for the id. Stopping an unknown id, or one worker, leaves all other workers alone.",
 ["schedules","histories"],"every point at which the stop request can arrive: before the instance exists, while it starts, runs, exits or waits to be restarted",
 "tests stop a worker that is running quietly; the windows in which the request overlaps starting, exiting and restarting are a matter of scheduling",
 [R],[("stopping/start=nil marks","Runner.killWorkerLocked"),("late kill","Runner.setWorker"),("no restart without a start function","Runner.workerDone")],
 [("stopping, start","the worker has been told to stop","workerInfo")],["Kill calls on instances","calls of the start function","WorkerNames"])
p("C03","Runner's reaction to a worker exit follows the configured policy",
 "When a worker that nobody stopped exits: with no error it is removed; with a fatal error the runner shuts down; with a non-fatal error that should not be restarted it is removed; with any other error the same start function is called again after exactly the configured restart delay (3s if unset), as often as it fails. No exit affects any other worker, except that a fatal error stops them all.",
 ["histories","inputs"],"every error, every classification by IsFatal and ShouldRestart, every state of the other workers, every number of earlier restarts",
 "each test pins one callback answer for one worker; the policy must hold for all combinations and after any number of restarts",
 [R],[("exit classification","Runner.workerDone"),("delay before start","Runner.runWorker"),("defaults","NewRunner")],
 [("restartDelay","delay before the next start","workerInfo")],["calls of the start function","durations given to Clock.After"])
p("C04","Runner reports the most important fatal error",
 "Waiting for a Runner returns nil if no worker failed fatally, and otherwise the fatal error left by replacing the error held, as fatal errors arrive, exactly when the configured ranking calls the newcomer more important (with no ranking: the first fatal error). Non-fatal errors are never returned and killing the Runner does not change the outcome.",
 ["histories","inputs"],"every sequence of worker errors, before and during shutdown, and every ranking function",
 "the one test uses ten ranked errors and one order of arrival",
 [R],[("fold over fatal errors","Runner.workerDone"),("returned by the loop","Runner.run"),("default ranking","NewRunner")],
 [("finalError","most important fatal error so far","Runner.finalError")],["Runner.Wait"])
p("C05","A runner that has shut down leaves nothing running",
 "When a Runner is killed or a worker fails fatally, every running instance is killed, instances still being started (which, after a fatal error, includes waiting out the restart delay) are killed once they have started, workers that exit from then on are not restarted, and start requests start nothing. Wait returns only when every instance has stopped and no worker is registered any more; from then on start and stop requests fail with ErrDead.",
 ["schedules","histories"],"every point of every history at which the kill or the fatal error arrives",
 "tests kill runners with quiescent workers; a worker that is starting, restarting or reporting at that instant is only reached by scheduling",
 [R],[("killAll and the isDying flag","Runner.run, Runner.workerDone"),("loop ends when the set is empty","Runner.run"),("late kill","Runner.setWorker")],
 [("isDying","shutdown has begun","Runner.isDying")],["Runner.Wait","Kill calls on instances"])
p("C06","Runner's lookups and removals tell the truth",
 "Looking up an id returns either a non-nil instance that was the current one for that id during the call, or exactly one of: not found (the id was not registered), dead (the runner was shutting down), aborted (the abort channel fired). Stopping-and-removing an id kills that instance, returns its error only after the id's registration has gone, whatever error it stops with and however many callers ask, and otherwise reports not found, dead or aborted.",
 ["schedules","histories"],"every interleaving of the call with starts, restarts, exits, removals, aborts and shutdown",
 "tests meet the instance either present or absent; the answer while the registration changes under the caller is decided by scheduling",
 [R],[("locked lookup with condition variable","Runner.workerInfo"),("removal signal","Runner.removeWorker"),("stop mark","Runner.StopAndRemoveWorker"),("no instance between exit and restart","Runner.workerDone")],
 [("worker","current instance","workerInfo.worker"),("done","signalled at removal","workerInfo.done")],["Worker","StopAndRemoveWorker"])
p("C07","Runner's shared state is only touched under its lock",
 "All methods of a Runner may be called from any goroutine at any time without a data race or self-deadlock: state shared between goroutines is written only by the runner's own goroutine while it holds the runner's lock, read elsewhere only under that lock, everything else is private to the runner's goroutine, and the lock is released on every path.",
 ["schedules"],"every pair of concurrent calls and every interleaving",
 "the race detector sees only the accesses and interleavings that a test run happens to execute",
 [R],[("mutex","Runner.mu and the functions that take it"),("run-goroutine confinement","Runner.run and what it calls")],
 [("workers, worker, stopping","guarded by mu","Runner, workerInfo")],["every exported method"])
p("C08","Engine runs at most one worker per manifold",
 "An Engine never calls a manifold's Start function while an earlier worker of that manifold is still running or still being started; every start attempt is followed by exactly one stop notification, sent only after the worker's Wait has returned. In particular the engine never finds itself trying to start a second worker or receiving an unexpected start or stop, whatever the order of events.",
 ["schedules","histories"],"every sequence of installs, starts, stops, bounces and errors over every dependency graph, in every interleaving",
 "tests run a few manifolds through a few bounces; the internal 'fatal: unexpected ...' errors have never been provoked, only hoped to be unreachable",
 [E],[("starting/worker bookkeeping","Engine.requestStart, gotStarted, gotStopped"),("one stopped ticket per run","Engine.runWorker")],
 [("current","what the loop believes about each manifold's worker","Engine.current")],["calls of Start","Engine.Wait"])
p("C09","Workers never keep running on stale inputs",
 "While an Engine is not shutting down, every installed manifold either has been told to stop (and will be started again), or was last started with exactly the input workers that are current now: whenever the worker of a manifold appears or goes away, each manifold declaring it as an input is stopped if running or starting and started again if stopped. A manifold is not bounced for changes of manifolds it does not declare.",
 ["schedules","histories","configurations"],"every dependency graph and every order of start, stop, bounce, install and uninstall events",
 "tests cover chains of two or three manifolds and one change at a time; a lost bounce needs a change that overlaps a start, a stop or another bounce",
 [E],[("bounce on change","Engine.gotStarted, gotStopped, bounceDependents"),("snapshot at start","Engine.requestStart, Engine.snapshot"),("dependents index","Engine.gotInstall, uninstall")],
 [("dependents","who declares each name as input","Engine.dependents")],["Kill calls on workers","calls of Start","resources seen by Start"])
p("C10","Engine's reaction to a worker stop follows the (filtered) error",
 "When a manifold's worker stops, or fails to start, and was not told to stop, the engine acts on the error as converted by the manifold's filter: nil or missing-dependency: not started again until an input changes; bounce: started again after the bounce delay; uninstall: the manifold is removed, may be installed again, and its dependents' declarations are kept; anything else: started again after the error delay. A worker that was told to stop is always started again after the bounce delay.",
 ["histories","inputs"],"every error, wrapped or not, every filter, and every state of the other manifolds",
 "each test returns one particular error from one manifold in one state",
 [E],[("error interpretation","Engine.gotStopped"),("removal","Engine.uninstall")],
 [("stopping","the engine asked it to stop","workerInfo.stopping")],["calls of Start","durations given to Clock.After","Install results"])
p("C11","Dependency cycles are rejected, and nothing else is",
 "Validating a set of manifolds fails exactly when following declared inputs leads from some manifold back to itself, for every graph including inputs that are not installed. Installing into a running Engine fails exactly when the name is already installed or the manifold would close such a cycle; a refused install changes nothing, an accepted one records exactly the declared inputs.",
 ["inputs","configurations","histories"],"every finite dependency graph, every map iteration order, every sequence of installs and uninstalls",
 "the tests try a dozen graphs; the depth-first search depends on iteration order and on the marks left by earlier branches",
 [U,E],[("depth-first search","validator.run, validator.visit, Validate"),("install checks","Engine.gotInstall, checkAcyclic")],
 [("doing, done","search marks","validator")],["Validate","Engine.Install"])
p("C12","A Start function sees exactly its declared, running inputs",
 "A resource request made inside a manifold's Start function succeeds only for a declared input that was running when this start was requested; it is answered from that very worker, through that manifold's output function, whose error is returned unchanged; undeclared, not-running and unexposed resources give a missing-dependency error. After Start has returned every request fails, without reaching any worker.",
 ["inputs","histories","configurations"],"every graph, every requested name and output pointer, and every change of the inputs during the start",
 "tests request a few names from one or two inputs",
 [S,E],[("resource lookup","snapshot.Get, snapshot.rawAccess"),("restriction to inputs","Engine.snapshot"),("expiry","snapshot.expire, Engine.runWorker")],
 [("workers, outputs, expired","what was available when the start was requested","snapshot")],["Getter.Get"])
p("C13","An engine that has shut down leaves nothing running",
 "Once an Engine is dying, every running worker is killed, a worker that is still being started is killed when it has started (or is not started at all), no further start is begun, not even for a manifold that is still being installed. Wait returns only when every worker the engine ever started has stopped.",
 ["schedules","histories"],"every point of every history at which the kill or the fatal error arrives",
 "tests kill engines in quiescent states; notifications in flight at the instant of the kill are a matter of scheduling",
 [E],[("one-shot stop of all","Engine.loop"),("late kill","Engine.gotStarted, Engine.runWorker"),("exit condition","Engine.loop, allOthersStopped")],
 [("current","believed state per manifold","Engine.current")],["Engine.Wait","Kill calls on workers"])
p("C14","Engine reports the worst fatal error",
 "Waiting for an Engine returns the configured filter's conversion of the error obtained by folding the configured ranking over all fatal (filtered) worker errors in order of arrival, and of nil if there was none; a fatal error always shuts the engine down and a non-fatal one never does. The engine reports no error of its own.",
 ["histories","inputs"],"every sequence of worker errors before and during shutdown; every ranking, filter and classification function",
 "one test with two errors and one order of arrival",
 [E],[("fold over fatal errors","Engine.gotStopped"),("result","Engine.Wait")],
 [("worstError","worst fatal error so far","Engine.worstError")],["Engine.Wait"])
p("C15","Engine's restart delays follow the back-off rules",
 "The delay before every start is: nothing for a first start after install; otherwise the error or bounce delay - multiplied, with a back-off factor, by the factor once for each consecutive recent error beyond the first, but limited to the maximum delay - within 10% of that value and to the millisecond, and never negative. Recent errors are counted up by failures and reset by a clean stop, an abort, a missing dependency or a run that lasted at least the reset time; and the delay elapses before Start is called.",
 ["inputs","histories","configurations"],"every valid configuration, every error count, and every random fuzz",
 "tests walk three or four steps of two configurations and cannot observe all fuzz values",
 [E],[("delay computation","Engine.requestStart"),("error counting","Engine.gotStopped"),("waiting","Engine.runWorker"),("configuration checks","EngineConfig.Validate")],
 [("recentErrors","consecutive recent errors","workerInfo.recentErrors")],["durations given to Clock.After"])
p("C16","Reports describe every worker, as it is",
 "An Engine's report lists exactly the installed manifolds, each with its declared inputs, a state that is 'started' only while a worker is available to dependents and 'stopped' only when none is running or starting, the number of times it has started and its last error; a Runner's report lists exactly the registered workers, each 'started' only while an instance is available, with the time of the last start. A report asked of a dead engine says 'stopped' and carries the error that Wait returns.",
 ["histories","schedules"],"every state that any history of events can lead to",
 "tests compare reports in four or five quiescent states",
 [E,R],[("engine report","Engine.Report, liveReport, manifoldsReport, workerInfo.state"),("runner report","Runner.Report, workerInfo.status")],
 [("startCount, startedTime, err","what the report shows","workerInfo")],["Report"])
p("C17","A catacomb takes over every worker it is given",
 "Every worker passed in a plan or added later is either bound to the catacomb - it is killed and waited for once the catacomb is dying, and its error kills the catacomb - or, if the invocation or the addition fails, it has been killed and waited for before the call returns. No worker given to a catacomb is dropped, at any time, in any order of events.",
 ["schedules","inputs"],"every plan (with nil and failing workers), every point at which the catacomb dies relative to an addition",
 "the stress test samples schedules; the guarantee is about the one interleaving in which a worker falls between 'added' and 'refused'",
 [C],[("stop on failure","Invoke, stopWorkers, Catacomb.Add"),("two goroutines per worker","Catacomb.add"),("listen loop","Invoke")],
 [("adds","hand-over channel","Catacomb.adds")],["Kill and Wait calls on workers","results of Invoke and Add"])
p("C18","A catacomb is dead only when all its parts have finished",
 "A catacomb's Wait returns, and its Dead channel is closed, only after its work function has returned and the Wait of every worker bound to it has returned; a worker that finishes without error leaves the catacomb running. The work function's return, with or without an error, kills the catacomb.",
 ["schedules","histories"],"every number of workers, every order in which workers, work function and Kill finish or arrive",
 "tests check a few orders with one or two workers",
 [C],[("wait group discipline","Invoke, Catacomb.add"),("kill with the work function's result","Invoke")],
 [("wg","counts the goroutines that must finish first","Catacomb.wg")],["Wait","Dead"])
p("C19","A catacomb reports the first real error, and never misuses ErrDying",
 "Killing a catacomb passes on every error unchanged, except that its own (possibly wrapped) dying error never replaces the recorded reason, and that the tomb package's dying or still-alive error or another catacomb's dying error is replaced by a new error complaining about misuse; a kill after the catacomb is dead changes nothing. The dying error can be obtained only from a catacomb that is dying (otherwise a different error is returned), so no kill can panic; errors of bound workers and of the work function reach the catacomb through the same rule.",
 ["inputs","schedules"],"every error value, wrapped at any depth, and every state of the catacomb",
 "tests pass half a dozen error values",
 [C],[("translation","Catacomb.Kill"),("origin of the dying error","Catacomb.ErrDying"),("worker errors","Catacomb.add, Invoke")],
 [("dyingError","remembers its catacomb","dyingError.catacomb")],["Kill","Wait","Err","ErrDying"])
p("C20","A catacomb is used once, and panics in its work are contained",
 "Of all invocations ever made with one catacomb, also concurrent ones, at most one succeeds, and an invocation with an invalid plan (no name, no catacomb, no work function or a nil worker) fails without using the catacomb up. A panic in the work function does not escape: it becomes an error that carries the panic's value and stack, and the catacomb dies with it.",
 ["schedules","inputs"],"every plan, every number of concurrent invocations, every panic value",
 "tests reuse a catacomb once, sequentially, and panic with one value",
 [C],[("compare-and-swap","Invoke"),("plan checks","Plan.Validate"),("recover","runSafely")],
 [("dirty","has been used","Catacomb.dirty")],["Invoke","Wait"])
p("C21","Stop, Dead and the stock test workers keep the worker contract",
 "Stopping a worker kills it, then waits for it, and returns exactly the error of that wait; the Dead channel of a worker is the worker's own if it has one and otherwise is closed after, and only after, its Wait has returned. The stock workers behave as described: the error worker runs until killed and then fails with its error, the dead worker always returns its error, the forever worker ignores kills until really killed.",
 ["schedules","inputs"],"every worker implementation, every error, every order of Kill and Wait",
 "tests use two or three workers and one order",
 [W,T],[("helpers","Stop, Dead"),("stock workers","NewErrorWorker, NewDeadWorker, NewForeverWorker and methods")],
 [],["Stop","Dead","Wait"])
p("C22","Engine's bookkeeping is private to its own goroutine",
 "All methods of an Engine may be called from any goroutine at any time without a data race: its bookkeeping is read and written only by the engine's own goroutine until the engine is dead, other goroutines reach it only through requests that are answered exactly once, and no method blocks forever on a dead engine.",
 ["schedules"],"every pair of concurrent calls and every interleaving",
 "the race detector sees only the accesses and interleavings that a test run happens to execute",
 [E],[("loop confinement","Engine.loop and what it calls"),("request/reply","Engine.Install, Engine.Report")],
 [("manifolds, dependents, current, worstError","owned by the loop goroutine","Engine")],["Install","Report","Wait"])
p("C23","Contexts handed out end with their owner, and not before",
 "The context a start function is called with is done once the Runner or Engine that started it is dying (for a Runner's first start also once the context of the start request is done) and is not done before, except that an Engine's is also done once that manifold has been told to stop, and is released, that is done, once its worker has stopped. A restart's context does not depend on the original start request, nor one manifold's on another's. A catacomb's derived context is done when the catacomb is dying or its parent is done, and only then.",
 ["schedules","histories"],"every history of starts, restarts, bounces and shutdowns, and every point at which the context is looked at",
 "tests look at one context in one situation; that no context outlives its worker, or is cancelled by somebody else's stop, depends on every history of the event loop",
 [R,E,C],[("contexts tied to the tomb","Runner.startWorker, Runner.workerDone, Engine.scopedContext, Catacomb.Context"),("cancellation","Engine.requestStop, Engine.gotStopped")],
 [("cancel","cancels the context of the current start","workerInfo.cancel")],["the context passed to the start function","Catacomb.Context"])
p("C24","Bulk installs are complete or stop at a refusal; the self manifold is the engine",
 "Installing a set of manifolds passes each of them, under its own name and unchanged, to the installer at most once; it returns nil exactly when all were passed and accepted, and otherwise stops at the first refusal and returns its error. The self manifold has no inputs and no filter; its start returns exactly the engine it was made for, and its output gives exactly that engine as an Installer or Reporter, and refuses every other worker and output type, leaving the output alone.",
 ["inputs"],"every set of manifolds, every installer and every error it refuses with, every order the map is walked in, every worker and output pointer",
 "tests install three manifolds with one refusal; that nothing is skipped, repeated or passed on after a refusal depends on the map's order and the installer's answers",
 [U],[("bulk install","Install"),("engine as a manifold","SelfManifold")],
 [],["Installer.Install","Manifold.Start","Manifold.Output"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
