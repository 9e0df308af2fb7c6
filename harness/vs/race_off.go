//go:build !race

package vs

func raceOff()             {}
func raceOn()              {}
func acquire(b *byte)      {}
func release(b *byte)      {}
func releaseMerge(b *byte) {}

// Race tells if the race detector is on.
const Race = false
