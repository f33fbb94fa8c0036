package replay

import "runtime"

func goexit() { runtime.Goexit() }
