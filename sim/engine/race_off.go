//go:build !race

package engine

func raceOff()        {}
func raceOn()         {}
func RaceErrors() int { return 0 }

const RaceBuild = false
