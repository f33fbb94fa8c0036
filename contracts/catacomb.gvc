package catacomb [C17,C18,C19,C20,C23]
race [C20]

assumption "Plan.Work may panic but does not call runtime.Goexit; a worker bound to a catacomb is not waited for by its own Wait"

// ---- discipline

waitgroup [C18] Catacomb.wg
once [C20] Catacomb.dirty won
immutable [C20] Catacomb.adds unless c: won[c] && !spawned

// won[c]: this invocation is the one that uses c
ghost won [ref]bool local init false
ghost spawned bool local init false
ghost wgwaited bool own init false
// this goroutine has told the wait group that it is done
ghost released bool own init false

// ---- binding

// a goroutine waits for w and passes its error to the catacomb
ghost gwait [any]bool local init false
// a goroutine kills w once the catacomb is dying, unless w has finished
ghost gkill [any]bool local init false
// a goroutine takes added workers until the catacomb is dying
ghost listening bool local init false
// the added worker this goroutine has taken last
ghost taken any own init nil
ghost handed any local init nil

pred bound(w) { gwait[w] && gkill[w] }
pred stopped(w) { killed[w] && waited[w] }

// what Kill(e) passes on to the tomb of catacomb c
pred passedon(c, e, k) {
	if e == tomb.ErrDying || e == tomb.ErrStillAlive || (erras(e, "dyingError") && errasval(e, "dyingError").catacomb != c) then plainerr(k) && k != nil && k != e && k != tomb.ErrDying && k != tomb.ErrStillAlive
	else if erras(e, "dyingError") then k == tomb.ErrDying
	else k == e
}

// Kill(e) has passed e on, unless the catacomb was already dead
pred passing(c, e) {
	if tombkilled then tombkilledof == &c.tomb && passedon(c, e, tombkillerr) else dead[&c.tomb]
}

// errors made by Errorf and New are not dying errors
axiom forall e any: plainerr(e) ==> !erras(e, "dyingError") && e != tomb.ErrDying && e != tomb.ErrStillAlive

axiom !is(tomb.ErrStillAlive, "*errWithStackTrace") && !is(tomb.ErrStillAlive, "dyingError")
axiom !is(tomb.ErrDying, "*errWithStackTrace") && !is(tomb.ErrDying, "dyingError")

childfact gwait(w) {
	exit released && waited[w] && (if waiterr[w] == nil then !tombkilled
		else passing($plan.Site, waiterr[w]))
}
childfact watched(w, c) { exit waited[w] && closed[c] && closewait[c] == w }
childfact gkill(w) {
	block killed[w] || listens(dyingch(&$plan.Site.tomb))
	exit killed[w] || (exists c ref: recvd[c] && watched[c] == w)
}
childfact listening() {
	block listens($plan.Site.adds) && listens(dyingch(&$plan.Site.tomb))
	exit released && dying[&$plan.Site.tomb]
}

chan Catacomb.adds(c, m) {
	send do handed := m
	recv requires [C17] previous_bound: taken == nil || bound(taken)
	recv requires [C18] previous_awaited: taken == nil || gwait[taken]
	recv assume m != nil
	recv do taken := m
}

extern sync.WaitGroup.Wait(g) {
	requires [C18] dying_first: inpkg("catacomb") ==> dying[&$plan.Site.tomb]
}

// an error of this type exists only if its catacomb is dying
typeinv dyingError(e) {
	[C19] dying: e.catacomb != nil && dying[&e.catacomb.tomb]
}

ghost worked bool local init false
ghost workerr any local init nil
ghost workpanic any local init nil
ghost laststack slice local

callback "func() error"(f) returns (err) {
	requires [C18] once: !worked && workpanic == nil
	requires [C18] the_work: f == $plan.Work
	maypanic
	panicdo workpanic := $panic
	do worked := true; workerr := err
}
extern debug.Stack() returns (s) { do laststack := s }

pool {
	forall w any: $visited[w] && w != nil ==> stopped(w);
	forall w any: $visited[w] ==> bound(w);
	forall w any: $visited[w] ==> w != nil;
	taken == nil || bound(taken);
}

pred valid(plan) { plan.Name != "" && plan.Site != nil && plan.Work != nil && (forall w any: w in plan.Init ==> w != nil) }

func Plan.Validate(plan) returns (err) {
	root
	ensures [C20] valid: (err == nil) <==> valid(plan)
}

func Invoke(plan) returns (err) {
	root
	blocks
	childexit [C17] all_bound: taken == nil || bound(taken)
	childexit [C18] all_awaited: taken == nil || gwait[taken]
	tombexit [C18] finished: (worked || workpanic != nil) && wgwaited && $tomb == &plan.Site.tomb
	tombexit [C18,C19] passed_on: tombkilled && tombkilledof == &plan.Site.tomb && (worked ==> passedon(plan.Site, workerr, tombkillerr))
	tombexit [C19] not_again: $ret == nil || $ret == tombkillerr
	tombexit [C20] contained: workpanic != nil ==> is(tombkillerr, "*errWithStackTrace") &&
		(let e := unbox(tombkillerr, "*errWithStackTrace") then carries(e.error, workpanic) && e.stackTrace == bytestring(laststack))
	ensures [C20] used_once: err == nil ==> valid(plan) && won[plan.Site]
	ensures [C20] refused: !valid(plan) ==> err != nil && !won[plan.Site]
	ensures [C20] not_spoiled: err != nil ==> !spawned && (plan.Site != nil ==> !won[plan.Site] && plan.Site.adds == old(plan.Site.adds) && tombgo[&plan.Site.tomb] == old(tombgo[&plan.Site.tomb]))
	ensures [C18,C20] started: err == nil ==> tombgo[&plan.Site.tomb] == old(tombgo[&plan.Site.tomb]) + 1
	ensures [C17] listening: err == nil ==> listening
	ensures [C18] awaited: err == nil ==> forall w any: w in plan.Init && w != nil ==> gwait[w]
	ensures [C17] taken_over: forall w any: w in plan.Init && w != nil ==> (if err == nil then bound(w) else stopped(w))
}

func Catacomb.Add(catacomb, w) returns (err) {
	root
	requires w != nil && catacomb.adds != nil
	escapes [C17] dyingch(&catacomb.tomb)
	ensures [C17] taken_over: (if err == nil then handed == w else stopped(w) && dying[&catacomb.tomb])
	ensures [C17,C19] reason: err != nil ==> (if waiterr[w] != nil then causeOf(err) == causeOf(waiterr[w])
		else is(err, "dyingError") && unbox(err, "dyingError").catacomb == catacomb)
}

func Catacomb.Kill(catacomb, err) {
	root
	ensures [C19] passed_on: passing(catacomb, err)
}

func Catacomb.ErrDying(catacomb) returns (err) {
	root
	ensures [C19] only_dying: err != nil && (if dying[&catacomb.tomb] then (is(err, "dyingError") && unbox(err, "dyingError").catacomb == catacomb)
		else plainerr(err))
}

func Catacomb.Dying(catacomb) returns (ch) {
	root
	ensures [C17,C18] dying: ch == dyingch(&catacomb.tomb)
}
func Catacomb.Dead(catacomb) returns (ch) {
	root
	ensures [C18] dead: ch == deadch(&catacomb.tomb)
}
func Catacomb.Wait(catacomb) returns (err) {
	root
	blocks
	ensures [C18,C19] outcome: dead[&catacomb.tomb] && err == tombreason(&catacomb.tomb)
}
func Catacomb.Err(catacomb) returns (err) {
	root
	ensures [C19] outcome: dead[&catacomb.tomb] ==> err == tombreason(&catacomb.tomb)
}
func Catacomb.Context(catacomb, parent) returns (ctx) {
	root
	ensures [C18,C23] ctx: tombOf(ctx) == &catacomb.tomb && cutOf(ctx) == cutOf(parent) && baseOf(ctx) == baseOf(parent)
}
