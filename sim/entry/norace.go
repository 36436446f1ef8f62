//go:build !race

package entry

const Race = false

func Quiet(f func()) { f() }
