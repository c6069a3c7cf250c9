// Package hook is what instrumented library code calls. It is linked into the
// simulation binary only; the shipped library never imports it.
package hook

import "runtime"

const MaxSites = 1 << 15

var (
	// Active is true while a simulated run is in progress.
	Active bool
	// Cur is the goroutine id of the task that holds the execution token.
	Cur uint64
	// Steps / HSteps count yield points passed by token holders in ordinary and
	// in heavy (curve arithmetic) code; Next / HNext are the counts at which the
	// engine wants control back; Limit bounds a run.
	Steps, HSteps uint64
	Next, HNext   uint64
	Limit         uint64
	Target        [MaxSites]uint8
	Seen          [MaxSites]uint8

	// Slow is called by the token holder when the engine wants control.
	Slow func(site uint32)
	// Off is called when a goroutine that does not hold the token reaches a
	// yield point.
	Off func(goid uint64, site uint32)
	// OnEnter / OnExit register goroutines started by library code.
	OnNewID func() int
	OnEnter func(id int)
	OnExit  func(id int)
	// Control reports that a panic is the engine's way of ending a goroutine.
	Control func(r interface{}) bool
)

// Y is the yield point inserted before every library statement.
//
//go:norace
func Y(site uint32) {
	if !Active {
		return
	}
	y(site)
}

//go:norace
func y(site uint32) {
	g := runtime.VerifGoID()
	if g != Cur {
		Off(g, site)
		return
	}
	Steps++
	Seen[site] = 1
	if Steps >= Next || Target[site] != 0 {
		Slow(site)
	}
}

// H is the yield point used in heavy arithmetic code.
//
//go:norace
func H(site uint32) {
	if !Active {
		return
	}
	h(site)
}

//go:norace
func h(site uint32) {
	g := runtime.VerifGoID()
	if g != Cur {
		Off(g, site)
		return
	}
	HSteps++
	Seen[site] = 1
	if HSteps >= HNext || Target[site] != 0 {
		Slow(site)
	}
}

//go:norace
func NewID() int {
	if !Active {
		return -1
	}
	return OnNewID()
}

//go:norace
func Enter(id int) {
	if id >= 0 && Active {
		OnEnter(id)
	}
}

//go:norace
func Exit(id int) {
	if id < 0 {
		return
	}
	if r := recover(); r != nil && !Control(r) {
		panic(r)
	}
	OnExit(id)
}
