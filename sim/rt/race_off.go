//go:build !race

package rt

import (
	"runtime/debug"
	"sync"
)

// RaceBuild says whether the race detector is on.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}

func raceAcquire(wg *sync.WaitGroup) {}

func stackNow() []byte { return debug.Stack() }
