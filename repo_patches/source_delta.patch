From da87bce2d2f4bd56f8a9081d56e57382967f4d2a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 01/10] fix: default MoreImportant keeps the first fatal error

RunnerParams documents that, with a nil MoreImportant, the first error
reported is returned; the default ranked every later error higher, so the
last one was returned.
---
 runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index bda5937..5cc91fc 100644
--- a/runner.go
+++ b/runner.go
@@ -219,8 +219,9 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 		}
 	}
 	if p.MoreImportant == nil {
+		// Nothing is more important than the first fatal error.
 		p.MoreImportant = func(err0, err1 error) bool {
-			return true
+			return false
 		}
 	}
 	if p.RestartDelay == 0 {
-- 
2.43.0


From e7f5c10c1ccfd4b6bd658a50bfce952dc7eb32f6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 02/10] fix: do not hand out a dead worker while its restart is
 pending

Runner.Worker documents that it waits until a worker is available; between
an exit and the restart it returned the instance that had already stopped.
---
 runner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runner.go b/runner.go
index 5cc91fc..e73207c 100644
--- a/runner.go
+++ b/runner.go
@@ -552,6 +552,11 @@ func (runner *Runner) workerDone(info doneInfo) {
 		runner.removeWorker(info.id, workerInfo.done)
 		return
 	}
+	// The instance has gone; until its replacement has been started there
+	// is no worker available under this id.
+	runner.mu.Lock()
+	workerInfo.worker = nil
+	runner.mu.Unlock()
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
 		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
 	})
-- 
2.43.0


From f096896a0a94faa261db7ee7519a30ca4288b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 03/10] fix: tell every StopAndRemoveWorker caller that the
 worker has gone

The removal was signalled by a single send, so of two concurrent callers
for one id only one returned; the other blocked until aborted.
---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index e73207c..d056355 100644
--- a/runner.go
+++ b/runner.go
@@ -569,7 +569,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 func (runner *Runner) removeWorker(id string, removed chan<- struct{}) {
 	runner.mu.Lock()
 	delete(runner.workers, id)
-	removed <- struct{}{}
+	close(removed)
 	runner.mu.Unlock()
 }
 
-- 
2.43.0


From 495d4e9cd30a44495e148a8af6f35819e5849f9d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 04/10] fix: StopAndRemoveWorker removes a worker that stops
 with an error

The worker was killed behind the runner's back, so one that stopped with
a non-fatal error was restarted, never removed, and the call never returned.
---
 runner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runner.go b/runner.go
index d056355..15bd17e 100644
--- a/runner.go
+++ b/runner.go
@@ -294,6 +294,11 @@ func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) erro
 	if err != nil {
 		return err
 	}
+	// Mark the worker as stopped first, so that the runner removes it,
+	// rather than restarting it, if it stops with a non-fatal error.
+	if err := runner.StopWorker(id); err != nil {
+		return err
+	}
 	workerErr := Stop(w)
 
 	select {
-- 
2.43.0


From 529337e22c642324841f129e13e88e1c5c55cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 05/10] fix: report the time of the last start of a restarted
 worker

The start time was recorded once, when the worker was registered, so the
report of a restarted worker showed when it was first started.
---
 runner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner.go b/runner.go
index 15bd17e..eef54c3 100644
--- a/runner.go
+++ b/runner.go
@@ -584,6 +584,7 @@ func (runner *Runner) setWorker(id string, w Worker) {
 	defer runner.mu.Unlock()
 	info := runner.workers[id]
 	info.worker = w
+	info.started = runner.params.Clock.Now().UTC()
 	if runner.isDying || info.stopping {
 		// We're dying or the worker has already been
 		// stopped, so kill it already.
-- 
2.43.0


From d8407c990bef26e6c003f4434ba4fead3e03539c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 06/10] fix: restart delay no longer overflows when there is no
 MaxDelay

With a BackoffFactor and no MaxDelay the delay grew past the largest
duration and became negative, so a failing worker was restarted in a
tight loop.
---
 dependency/engine.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index ce03911..69c7060 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -416,10 +416,15 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 		if engine.config.BackoffFactor > 0 {
 			// Use the float64 values for max comparison. Otherwise when casting
 			// the float back to a duration we hit the int64 max which is negative.
-			maxDelay := float64(engine.config.MaxDelay)
+			maxDelay := engine.config.MaxDelay
+			if maxDelay == 0 {
+				// No configured maximum: stop short of the largest duration,
+				// leaving room for the fuzz, so that the delay can't overflow.
+				maxDelay = math.MaxInt64 / 2
+			}
 			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, float64(info.recentErrors-1))
-			if engine.config.MaxDelay > 0 && floatDelay > maxDelay {
-				delay = engine.config.MaxDelay
+			if floatDelay > float64(maxDelay) {
+				delay = maxDelay
 			} else {
 				delay = time.Duration(floatDelay)
 			}
-- 
2.43.0


From e605681c5ac703453cba00af413487e001a9cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 07/10] fix: bounce of an error-free worker waits for the whole
 BounceDelay

A worker with no recent errors got the exponent -1, so its BounceDelay was
divided by BackoffFactor.
---
 dependency/engine.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 69c7060..f780ce7 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -422,7 +422,13 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 				// leaving room for the fuzz, so that the delay can't overflow.
 				maxDelay = math.MaxInt64 / 2
 			}
-			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, float64(info.recentErrors-1))
+			// Without recent errors there is nothing to back off from, and
+			// the delay must not be divided by the factor.
+			retries := info.recentErrors - 1
+			if retries < 0 {
+				retries = 0
+			}
+			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, float64(retries))
 			if floatDelay > float64(maxDelay) {
 				delay = maxDelay
 			} else {
-- 
2.43.0


From 57d845021111b69cd561c4fdf57943a82086f892 Mon Sep 17 00:00:00 2001
From: verif <v@localhost>
Date: Wed, 18 Nov 2026 18:51:18 +0000
Subject: [PATCH 08/10] fix: Catacomb.Kill panics when given tomb.ErrStillAlive

Kill is documented as always safe, and a worker or work func may well return
the Err() of something that is still alive; tomb.Kill panics on that value.
---
 catacomb/catacomb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index 442b9dd..9ac2f54 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -243,8 +243,8 @@ func (catacomb *Catacomb) scopedContext() context.Context {
 // Kill kills the Catacomb's internal tomb with the supplied error, or one
 // derived from it.
 //   - if it's caused by this catacomb's ErrDying, it passes on tomb.ErrDying.
-//   - if it's tomb.ErrDying, or caused by another catacomb's ErrDying, it passes
-//     on a new error complaining about the misuse.
+//   - if it's tomb.ErrDying or tomb.ErrStillAlive, or caused by another catacomb's
+//     ErrDying, it passes on a new error complaining about the misuse.
 //   - all other errors are passed on unmodified.
 //
 // It's always safe to call Kill, but errors passed to Kill after the catacomb
@@ -253,6 +253,9 @@ func (catacomb *Catacomb) Kill(err error) {
 	if err == tomb.ErrDying {
 		err = errors.New("bad catacomb Kill: tomb.ErrDying")
 	}
+	if err == tomb.ErrStillAlive {
+		err = errors.New("bad catacomb Kill: tomb.ErrStillAlive")
+	}
 	var dyingErr dyingError
 	if errors.As(err, &dyingErr) {
 		if catacomb != dyingErr.catacomb {
-- 
2.43.0


From 2a2e50dfd98e777ae5e87339dbb770766f3100b6 Mon Sep 17 00:00:00 2001
From: verif <v@localhost>
Date: Wed, 18 Nov 2026 18:51:30 +0000
Subject: [PATCH 09/10] fix: Catacomb.Kill after death changes the result of
 Wait

Kill promises to ignore errors passed after the catacomb is dead, but the
tomb records the first non-nil error even then, so that Wait and Err of a
catacomb that had stopped without error returned a late Kill's error.
---
 catacomb/catacomb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index 9ac2f54..27ffda4 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -250,6 +250,12 @@ func (catacomb *Catacomb) scopedContext() context.Context {
 // It's always safe to call Kill, but errors passed to Kill after the catacomb
 // is dead will be ignored.
 func (catacomb *Catacomb) Kill(err error) {
+	select {
+	case <-catacomb.tomb.Dead():
+		// The tomb would still let this error replace a nil reason.
+		return
+	default:
+	}
 	if err == tomb.ErrDying {
 		err = errors.New("bad catacomb Kill: tomb.ErrDying")
 	}
-- 
2.43.0


From d107e67102b72e6616ee2d0f6de94ea119631b78 Mon Sep 17 00:00:00 2001
From: verif <v@localhost>
Date: Thu, 19 Nov 2026 00:33:41 +0000
Subject: [PATCH 10/10] fix: the context of a start is never cancelled once its
 worker has stopped

---
 dependency/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dependency/engine.go b/dependency/engine.go
index f780ce7..d04f178 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -672,6 +672,11 @@ func (engine *Engine) gotStopped(name string, err error, resourceLog []resourceA
 		engine.tomb.Kill(nil)
 	}
 
+	// The start's context is of no further use: release what is held for it.
+	if info.cancel != nil {
+		info.cancel()
+	}
+
 	// Reset engine info; and bail out if we can be sure there's no need to bounce.
 	engine.current[name] = workerInfo{
 		err:         err,
-- 
2.43.0

