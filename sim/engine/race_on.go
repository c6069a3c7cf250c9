//go:build race

package engine

import "runtime"

// Hand-overs between tasks are invisible to the race oracle, so that only the
// library's own synchronisation orders accesses.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceErrors is the number of races reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }

const RaceBuild = true
