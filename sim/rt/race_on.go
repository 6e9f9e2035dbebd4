//go:build race

package rt

import (
	"runtime"
	"runtime/debug"
	"sync"
	"unsafe"
)

// RaceBuild says whether the race detector is on.
const RaceBuild = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

func raceAcquire(wg *sync.WaitGroup) { runtime.RaceAcquire(unsafe.Pointer(wg)) }

func stackNow() []byte { return debug.Stack() }
