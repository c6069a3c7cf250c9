package worlds

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"verifsim/engine"
	"verifsim/hook"
)

// Job is what the orchestrator asks a worker process to do.
type Job struct {
	Mode    string  `json:"mode"` // batch, min, replay
	World   string  `json:"world"`
	Prop    string  `json:"prop"`
	Seed    uint64  `json:"seed"`
	From    int     `json:"from"`
	Step    int     `json:"step"`
	Count   int     `json:"count"`
	Out     string  `json:"out"`
	Cur     string  `json:"cur"`
	Scratch string  `json:"scratch"`
	Wall    float64 `json:"wall"` // stop after this many seconds
	Min     int     `json:"min"`  // but not before that many runs (within six times Wall)
	Sites   string  `json:"sites"`
	Hashes  bool    `json:"hashes"`
	Stop    int     `json:"stop"` // stop after that many new violations
	Known   []Known `json:"known"`

	Class   string   `json:"class"`
	Choices []uint32 `json:"choices"`
	UseSeed bool     `json:"use_seed"`
	Sub     bool     `json:"sub"` // minimise in fresh processes
	Verbose bool     `json:"verbose"`
	Dump    int      `json:"dump"` // write the log of run Dump-1
}

// Known is a recorded finding.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"`
}

// Bad is a run with a violation.
type Bad struct {
	Idx       int              `json:"idx"`
	Seed      uint64           `json:"seed"`
	Violation engine.Violation `json:"violation"`
	Choices   []uint32         `json:"choices"`
	LogHash   uint64           `json:"log_hash"`
	Log       []string         `json:"log,omitempty"`
	Tries     int              `json:"tries,omitempty"`
}

// Report is what a worker answers.
type Report struct {
	Runs     int            `json:"runs"`
	Ops      int            `json:"ops"`
	Steps    uint64         `json:"steps"`
	HSteps   uint64         `json:"hsteps"`
	Switches int            `json:"switches"`
	SimSec   float64        `json:"sim_seconds"`
	WallSec  float64        `json:"wall_seconds"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Sched    []string       `json:"sched"`
	LogH     []string       `json:"log_hashes,omitempty"`
	Sites    []int          `json:"sites"`
	Samples  []string       `json:"samples"`
	Bad      []Bad          `json:"bad"`
	Known    map[string]int `json:"known"`
	Error    string         `json:"error"`
	Done     bool           `json:"done"`
	Next     int            `json:"next"`
	Real     []string       `json:"real"`
	Stub     []string       `json:"stub"`
}

type siteInfo struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Heavy bool   `json:"heavy"`
}

type runner struct {
	t      *testing.T
	j      Job
	w      *World
	nsites int
	light  []uint32
	start  atomic.Int64
}

func (r *runner) run(seed uint64, replay bool, choices []uint32, verbose bool) engine.Result {
	r.start.Store(time.Now().UnixNano())
	defer r.start.Store(0)
	scratchDir = filepath.Join(r.j.Scratch, "run")
	cfg := engine.Config{Seed: seed, Replay: replay, Choices: choices, Verbose: verbose, Sites: r.nsites, Light: r.light}
	return engine.Run(r.t, cfg, func(s *engine.Sim) { r.w.Run(s, r.j.Prop) })
}

// scratchDir is where simulated disks may put files.
var scratchDir string

func seedOf(base uint64, world string, idx int) uint64 {
	var h uint64 = 14695981039346656037
	for _, c := range []byte(world) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return engine.Mix(base, h, uint64(idx))
}

func (r *runner) isKnown(v engine.Violation) string {
	for _, k := range r.j.Known {
		if k.Property == r.j.Prop && k.Class == v.Class {
			if ok, _ := regexp.MatchString(k.Match, v.Msg); ok {
				return k.Class + "|" + k.Match
			}
		}
	}
	return ""
}

// Main is the worker entry point.
func Main(t *testing.T) {
	path := os.Getenv("SIM_JOB")
	if path == "" {
		t.Skip("no SIM_JOB")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	r := &runner{t: t}
	if err := json.Unmarshal(b, &r.j); err != nil {
		t.Fatal(err)
	}
	r.w = All[r.j.World]
	if r.w == nil {
		t.Fatalf("no world %q", r.j.World)
	}
	if r.j.Sites != "" {
		var si []siteInfo
		b, err := os.ReadFile(r.j.Sites)
		if err != nil {
			t.Fatal(err)
		}
		if err := json.Unmarshal(b, &si); err != nil {
			t.Fatal(err)
		}
		r.nsites = len(si)
		for i, s := range si {
			if !s.Heavy {
				r.light = append(r.light, uint32(i))
			}
		}
	}
	log.SetOutput(io.Discard)
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	go r.watchdog()
	var rep Report
	switch r.j.Mode {
	case "batch":
		rep = r.batch()
	case "replay":
		rep = r.replay()
	case "min":
		rep = r.minimise()
	default:
		t.Fatal("mode?")
	}
	rep.Done = true
	rep.Real, rep.Stub = r.w.Real, r.w.Stub
	ob, err := json.Marshal(rep)
	if err == nil {
		err = os.WriteFile(r.j.Out, ob, 0644)
	}
	if err != nil {
		t.Fatal(err)
	}
}

// watchdog ends the process when a run makes no progress in real time.
func (r *runner) watchdog() {
	for {
		time.Sleep(time.Second)
		st := r.start.Load()
		if st != 0 && time.Since(time.Unix(0, st)) > 90*time.Second {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			os.Stderr.Write(buf[:n])
			os.Stderr.WriteString("\nWATCHDOG: run took more than 90 s of real time\n")
			os.Exit(86)
		}
	}
}

func (r *runner) batch() Report {
	rep := Report{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	var cur *os.File
	if r.j.Cur != "" {
		cur, _ = os.Create(r.j.Cur)
	}
	t0 := time.Now()
	step := r.j.Step
	if step < 1 {
		step = 1
	}
	idx := r.j.From
	for n := 0; n < r.j.Count; n, idx = n+1, idx+step {
		if el := time.Since(t0).Seconds(); r.j.Wall > 0 && el > r.j.Wall && (n >= r.j.Min || el > 6*r.j.Wall) {
			break
		}
		if cur != nil {
			cur.WriteAt([]byte(fmt.Sprintf("%-12d", idx)), 0)
		}
		seed := seedOf(r.j.Seed, r.j.World, idx)
		res := r.run(seed, false, nil, r.j.Dump == idx+1)
		if r.j.Dump == idx+1 {
			os.WriteFile(r.j.Out+".log", []byte(strings.Join(res.Log, "\n")+"\n"), 0644)
		}
		if res.Error != "" {
			rep.Error = fmt.Sprintf("run %d: %s", idx, res.Error)
			break
		}
		rep.Runs++
		rep.Ops += res.Ops
		rep.Steps += res.Steps
		rep.HSteps += res.HSteps
		rep.Switches += res.Switches
		rep.SimSec += res.SimTime.Seconds()
		for k, v := range res.Faults {
			rep.Faults[k] += v
		}
		for k, v := range res.Probes {
			rep.Probes[k] += v
		}
		rep.Sched = append(rep.Sched, fmt.Sprintf("%016x", res.SchedHash^res.LogHash))
		if r.j.Hashes {
			rep.LogH = append(rep.LogH, fmt.Sprintf("%d:%016x:%016x", idx, res.LogHash, res.SchedHash))
		}
		if len(rep.Samples) < 3 && res.Note != "" {
			rep.Samples = append(rep.Samples, fmt.Sprintf("%s run %d: %s; ops=%d switches=%d sim=%.1fs", r.j.World, idx, res.Note, res.Ops, res.Switches, res.SimTime.Seconds()))
		}
		for _, v := range res.Violations {
			if !v.Has(r.j.Prop) {
				rep.Probes["other-property-violation"]++
				continue
			}
			if k := r.isKnown(v); k != "" {
				rep.Known[k]++
				continue
			}
			rep.Bad = append(rep.Bad, Bad{Idx: idx, Seed: seed, Violation: v, Choices: res.Choices, LogHash: res.LogHash})
			break
		}
		if r.j.Stop > 0 && len(rep.Bad) >= r.j.Stop {
			break
		}
	}
	rep.Next = idx
	rep.WallSec = time.Since(t0).Seconds()
	for i := 0; i < r.nsites && i < hook.MaxSites; i++ {
		if hook.Seen[i] != 0 {
			rep.Sites = append(rep.Sites, i)
		}
	}
	sort.Ints(rep.Sites)
	return rep
}

func (r *runner) find(res engine.Result, class string) *engine.Violation {
	for i := range res.Violations {
		v := &res.Violations[i]
		if v.Has(r.j.Prop) && r.isKnown(*v) == "" && (class == "" || v.Class == class) {
			return v
		}
	}
	return nil
}

func (r *runner) replay() Report {
	res := r.run(r.j.Seed, !r.j.UseSeed, r.j.Choices, true)
	rep := Report{Runs: 1, Error: res.Error, Ops: res.Ops, Switches: res.Switches, SimSec: res.SimTime.Seconds(), Faults: res.Faults, Probes: res.Probes}
	rep.LogH = []string{fmt.Sprintf("%016x", res.LogHash)}
	b := Bad{Seed: r.j.Seed, Choices: res.Choices, LogHash: res.LogHash, Log: res.Log}
	if v := r.find(res, r.j.Class); v != nil {
		b.Violation = *v
	}
	rep.Bad = []Bad{b}
	return rep
}

// minimise shrinks a failing choice list while the same class of violation stays.
func (r *runner) minimise() Report {
	t0 := time.Now()
	tries := 0
	limit := 25 * time.Second
	if r.j.Wall > 0 {
		limit = time.Duration(r.j.Wall * float64(time.Second))
	}
	try := func(c []uint32) bool {
		tries++
		if r.j.Sub {
			b := r.sub(c)
			return b != nil && b.Violation.Class == r.j.Class
		}
		res := r.run(0, true, c, false)
		return res.Error == "" && r.find(res, r.j.Class) != nil
	}
	over := func() bool { return time.Since(t0) > limit || tries > 4000 }
	best := append([]uint32(nil), r.j.Choices...)
	if !try(best) {
		return Report{Error: "not reproducible in process", Probes: map[string]int{"tries": tries}}
	}
	trim := func(c []uint32) []uint32 {
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		return c
	}
	// shortest failing prefix
	for n := len(best) / 2; n >= 1 && !over(); n /= 2 {
		for len(best) > n && !over() {
			c := best[:len(best)-n]
			if !try(c) {
				break
			}
			best = append([]uint32(nil), c...)
		}
	}
	best = trim(best)
	for pass := 0; pass < 3 && !over(); pass++ {
		before := fmt.Sprint(best)
		for size := len(best) / 2; size >= 1 && !over(); size /= 2 {
			for i := 0; i+size <= len(best) && !over(); {
				c := append(append([]uint32(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					best = trim(c)
					continue
				}
				zero := true
				c = append([]uint32(nil), best...)
				for k := i; k < i+size; k++ {
					if c[k] != 0 {
						zero = false
					}
					c[k] = 0
				}
				if !zero && try(c) {
					best = trim(c)
				}
				i += size
			}
		}
		for i := 0; i < len(best) && !over(); i++ {
			for best[i] > 0 && !over() {
				c := append([]uint32(nil), best...)
				c[i] /= 2
				if !try(c) {
					c[i] = best[i] - 1
					if best[i] > 64 || !try(c) {
						break
					}
				}
				best = c
			}
		}
		best = trim(best)
		if fmt.Sprint(best) == before {
			break
		}
	}
	return Report{Bad: []Bad{{Choices: best, Tries: tries}}, WallSec: time.Since(t0).Seconds()}
}

// sub replays choices in a fresh process.
func (r *runner) sub(c []uint32) *Bad {
	j := r.j
	j.Mode, j.Choices, j.Sub = "replay", c, false
	j.Out = filepath.Join(r.j.Scratch, "sub.out")
	j.Scratch = filepath.Join(r.j.Scratch, "sub")
	os.MkdirAll(j.Scratch, 0755)
	os.Remove(j.Out)
	in := filepath.Join(j.Scratch, "sub.job")
	b, _ := json.Marshal(j)
	if os.WriteFile(in, b, 0644) != nil {
		return nil
	}
	cmd := exec.Command(os.Args[0], "-test.run=TestSim", "-test.timeout=0")
	cmd.Env = append(os.Environ(), "SIM_JOB="+in)
	cmd.Run()
	b, err := os.ReadFile(j.Out)
	if err != nil {
		return nil
	}
	var rep Report
	if json.Unmarshal(b, &rep) != nil || len(rep.Bad) == 0 {
		return nil
	}
	return &rep.Bad[0]
}
