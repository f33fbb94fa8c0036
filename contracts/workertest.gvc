package workertest [C21]

assumption "the error given to a stock worker is not tomb.ErrDying or tomb.ErrStillAlive"

immutable [C21] errorWorker.err, deadWorker.err, ForeverWorker.err

func NewErrorWorker(err) returns (w) {
	root
	tombexit [C21] until_killed: dying[$tomb] && $ret == nil && !tombkilled
	ensures [C21] made: is(w, "*errorWorker") && (let e := unbox(w, "*errorWorker") then
		e != nil && e.err == err && tombgo[&e.tomb] == old(tombgo[&e.tomb]) + 1) && !tombkilled
}
func errorWorker.Kill(w) {
	root
	ensures [C21] killed: tombkilled && tombkilledof == &w.tomb && tombkillerr == w.err
}
func errorWorker.Wait(w) returns (err) {
	root
	blocks
	ensures [C21] outcome: dead[&w.tomb] && err == tombreason(&w.tomb)
}

func NewDeadWorker(err) returns (w) {
	root
	ensures [C21] made: is(w, "*deadWorker") && (let e := unbox(w, "*deadWorker") then e != nil && e.err == err)
}
func deadWorker.Kill(w) {
	root
	ensures [C21] nothing: !tombkilled
}
func deadWorker.Wait(w) returns (err) {
	root
	ensures [C21] outcome: err == w.err
}

func NewForeverWorker(err) returns (w) {
	root
	tombexit [C21] until_killed: dying[$tomb] && $ret == nil && !tombkilled
	ensures [C21] made: w != nil && w.err == err && tombgo[&w.tomb] == old(tombgo[&w.tomb]) + 1 && !tombkilled
}
func ForeverWorker.Kill(w) {
	root
	ensures [C21] ignored: !tombkilled && dying == old(dying)
}
func ForeverWorker.ReallyKill(w) {
	root
	ensures [C21] killed: tombkilled && tombkilledof == &w.tomb && tombkillerr == w.err
}
func ForeverWorker.Wait(w) returns (err) {
	root
	blocks
	ensures [C21] outcome: dead[&w.tomb] && err == tombreason(&w.tomb)
}
