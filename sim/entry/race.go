//go:build race

package entry

import "runtime"

const Race = true

// Quiet runs a function of the world which synchronises (with the pools of fmt,
// say) without being seen by the race detector: it would order the goroutines
// of the client which happen to use the network or the disk.
func Quiet(f func()) {
	runtime.RaceDisable()
	f()
	runtime.RaceEnable()
}
