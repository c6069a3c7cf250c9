package worlds

import (
	"os"
	"time"

	"verifsim/engine"
)

// holdings is what the calls of a run have opened and not released (C18).
type holdings struct {
	s    *engine.Sim
	all  []*holding
	dead map[int]bool // tasks that crashed: nobody is left to release anything
}

type holding struct {
	what     string
	owner    int
	file     *os.File
	released bool
	loose    string // not a file of this call alone: one or two may stay open for later use
}

func newHoldings(s *engine.Sim) *holdings { return &holdings{s: s, dead: map[int]bool{}} }

func (h *holdings) add(what string, f *os.File) *holding {
	x := &holding{what: what, owner: h.s.Owner(), file: f}
	h.all = append(h.all, x)
	return x
}

// closed notes that a call closes f.
func (h *holdings) closed(f *os.File) {
	for _, x := range h.all {
		if x.file == f {
			x.released = true
		}
	}
}

func (h *holdings) open() string {
	many := map[string]int{}
	for _, x := range h.all {
		if x.released || h.dead[x.owner] {
			continue
		}
		if x.loose != "" {
			many[x.loose]++
			if many[x.loose] < 3 {
				continue
			}
			return x.what + ", three times"
		}
		return x.what
	}
	return ""
}

// check runs when no call is in progress and no fault is active any more.
func (h *holdings) check() {
	s := h.s
	s.Probe("leak-checked")
	if h.open() == "" {
		return
	}
	for i := 0; i < 121; i++ {
		s.Sleep(time.Second)
	}
	if what := h.open(); what != "" {
		s.Violate("C18", "left-open", "120 s after every call returned this is still held: %s", what)
	}
}
