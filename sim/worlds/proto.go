package worlds

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/protocol"

	"verifsim/engine"
)

func init() {
	All["proto"] = &World{Name: "proto", Run: protoWorld, Props: []string{"C13", "C18"},
		Real: []string{"protocol", "encoding/json", "os file API above the system calls"},
		Stub: []string{"disk (real scratch files behind a fault layer)", "the process that writes parameter files", "caller scheduling and clock"}}
}

// session is what one load saw of the file since it last opened it.
type session struct {
	opens   int
	openErr bool
	readErr bool
	eof     bool
	data    []byte
	changed bool // somebody wrote the file since the call began
	shorts  int
}

type pworld struct {
	s     *engine.Sim
	dir   string
	files []string
	live  map[int]*session // by task
	rate  int
	sess  map[*session]string
	quiet bool
}

func protoWorld(s *engine.Sim, prop string) {
	w := &pworld{s: s, dir: scratchDir, live: map[int]*session{}, rate: []int{0, 15, 40}[s.Draw(3)], sess: map[*session]string{}}
	os.RemoveAll(w.dir)
	os.MkdirAll(w.dir, 0755)
	nf := 1 + s.Draw(2)
	for i := 0; i < nf; i++ {
		w.files = append(w.files, filepath.Join(w.dir, fmt.Sprintf("protocol%d.json", i)))
		w.put(w.files[i], w.text())
	}
	os.VerifOpen, os.VerifRead = w.open, w.read
	held := newHoldings(s)
	os.VerifOpened = func(f *os.File) {
		if w.mine(f.Name()) != nil {
			held.add("the parameter file", f)
		}
	}
	os.VerifClosed = held.closed
	nr := 1 + s.Draw(3)
	left := nr
	for i := 0; i < nr; i++ {
		n := 2 + s.Draw(5)
		s.Go(fmt.Sprintf("reader%d", i), func() {
			var got []loaded
			for k := 0; k < n; k++ {
				if s.Pct(40) {
					s.Sleep(time.Duration(s.Draw(2000)) * time.Millisecond)
				} else {
					s.Yield()
				}
				if p := w.load(w.files[s.Draw(len(w.files))]); p != nil {
					got = append(got, loaded{p, *p})
				}
				for _, g := range got {
					if *g.p != g.v {
						s.Violate("C13", "result-changed", "parameters returned earlier changed from %+v to %+v", g.v, *g.p)
					}
				}
			}
			if left--; left == 0 {
				held.check()
			}
		})
	}
	var writer *engine.Task
	if s.Pct(80) {
		n := 1 + s.Draw(6)
		writer = s.Go("writer", func() {
			for k := 0; k < n; k++ {
				s.Sleep(time.Duration(s.Draw(1500)) * time.Millisecond)
				w.write(w.files[s.Draw(len(w.files))])
			}
		})
		if s.Pct(40) {
			s.Go("chaos", func() {
				s.Sleep(time.Duration(s.Draw(6000)) * time.Millisecond)
				if writer.Alive() {
					s.Fault("writer-crash")
					s.Crash(writer)
				}
			})
		}
	}
	s.SetPreempt(s.Pct(40))
	s.OnStuck(func([]string) { s.Violate("C13", "never-returned", "loading a parameter file never returned") })
	s.Final(func() {
		os.VerifOpen, os.VerifRead, os.VerifOpened, os.VerifClosed = nil, nil, nil, nil
		os.RemoveAll(w.dir)
		os.MkdirAll(w.dir, 0755)
		s.Note("files=%d readers=%d writer=%v disk fault rate=%d%%", nf, nr, writer != nil, w.rate)
	})
}

type loaded struct {
	p *protocol.Protocol
	v protocol.Protocol
}

// text is a parameter file as cardano-cli writes it.
func (w *pworld) text() []byte {
	s := w.s
	num := func() interface{} {
		if s.Pct(5) {
			return json.RawMessage([]string{"-1", "18446744073709551616", "1.5", "\"44\"", "true", "1e3", "null", "[1]"}[s.Draw(8)])
		}
		return s.U64()
	}
	ver := func() interface{} {
		if s.Pct(5) {
			return json.RawMessage([]string{"256", "-1", "300", "1.5", "\"6\""}[s.Draw(5)])
		}
		return s.Draw(256)
	}
	m := obj{"txFeePerByte": num(), "txFeeFixed": num(), "maxTxSize": num(), "minUTxOValue": num(),
		"protocolVersion":     obj{"major": ver(), "minor": ver()},
		"poolPledgeInfluence": 0.3, "extraPraosEntropy": nil, "note": "}{\"]", "decentralization": 0, "maxBlockBodySize": s.Draw(1 << 20)}
	for _, k := range []string{"txFeePerByte", "txFeeFixed", "maxTxSize", "minUTxOValue", "protocolVersion"} {
		if s.Pct(4) {
			delete(m, k)
		}
	}
	if s.Pct(50) {
		n := s.Draw(400)
		if s.Pct(6) {
			// more than any one buffer holds; it stands before what is loaded
			n = 10000 + s.Draw(20000)
			s.Probe("file-above-64k")
		}
		c := make([]int, n)
		for i := range c {
			c[i] = i * 7919
		}
		m["costModels"] = obj{"PlutusScriptV1": c}
	}
	var b []byte
	if s.Pct(70) {
		b, _ = json.MarshalIndent(m, "", "    ")
	} else {
		b, _ = json.Marshal(m)
	}
	if s.Pct(60) {
		b = append(b, '\n')
	}
	return b
}

// touch says that a file changed under the loads in progress.
func (w *pworld) touch(name string) {
	for se, f := range w.sess {
		if f == name {
			se.changed = true
		}
	}
}

func (w *pworld) put(name string, b []byte) {
	w.quiet = true
	os.WriteFile(name, b, 0644)
	w.quiet = false
	w.touch(name)
}

// write is the other program replacing a parameter file, with what can happen to
// it on a disk.
func (w *pworld) write(name string) {
	s := w.s
	w.quiet = true
	os.RemoveAll(name)
	old := w.text()
	os.WriteFile(name, old, 0644)
	w.quiet = false
	w.touch(name)
	b := w.text()
	switch s.Draw(10) {
	case 0:
		s.Ev("write whole")
		w.put(name, b)
	case 1:
		s.Fault("file-truncated")
		w.put(name, b[:s.Draw(len(b))])
	case 2:
		s.Fault("tail-zeroed")
		i := s.Draw(len(b))
		w.put(name, append(append([]byte(nil), b[:i]...), make([]byte, len(b)-i)...))
	case 3:
		s.Fault("tail-of-old-content")
		c := append([]byte(nil), b...)
		if len(old) > len(b) {
			c = append(c, old[len(b):]...)
		} else {
			c = append(append([]byte(nil), old...), b[len(old):]...)
		}
		w.put(name, c)
	case 4:
		s.Fault("written-twice")
		w.put(name, append(append([]byte(nil), b...), old[s.Draw(len(old)):]...))
	case 5:
		s.Fault("garbled")
		c := append([]byte(nil), b...)
		for n := 1 + s.Draw(6); n > 0; n-- {
			c[s.Draw(len(c))] = "\x00\xffx9}{\",: "[s.Draw(10)]
		}
		w.put(name, c)
	case 6:
		s.Fault("file-removed")
		w.quiet = true
		os.Remove(name)
		w.quiet = false
		w.touch(name)
	case 7:
		s.Fault("file-empty")
		w.put(name, []byte([]string{"", "\n", "null", "[]", "\"x\"", "{", "{}"}[s.Draw(7)]))
	case 8:
		s.Fault("directory-in-place")
		w.quiet = true
		os.Remove(name)
		os.Mkdir(name, 0755)
		w.quiet = false
		w.touch(name)
	default:
		// in pieces: readers and crashes can fall in between
		s.Ev("write in pieces")
		w.put(name, nil)
		for i := 0; i < len(b); {
			n := 1 + s.Draw(len(b)-i)
			w.quiet = true
			f, err := os.OpenFile(name, os.O_WRONLY|os.O_APPEND, 0644)
			if err == nil {
				f.Write(b[i : i+n])
				f.Close()
			}
			w.quiet = false
			w.touch(name)
			i += n
			s.Sleep(time.Duration(s.Draw(400)) * time.Millisecond)
		}
	}
}

func (w *pworld) mine(name string) *session {
	if w.quiet || w.s.Ending() || !strings.HasPrefix(name, w.dir) {
		return nil
	}
	return w.live[w.s.Owner()]
}

func (w *pworld) open(name string, flag int) error {
	se := w.mine(name)
	if se == nil {
		return nil
	}
	s := w.s
	s.Yield()
	se.opens++
	se.data, se.eof, se.readErr, se.openErr = nil, false, false, false
	if s.Pct(w.rate / 3) {
		s.Fault("open-fails")
		se.openErr = true
		return []error{syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENOENT}[s.Draw(4)]
	}
	return nil
}

func (w *pworld) read(name string, b []byte, do func([]byte) (int, error)) (int, error) {
	se := w.mine(name)
	if se == nil || len(b) == 0 {
		return do(b)
	}
	s := w.s
	s.Yield()
	if s.Pct(w.rate) {
		switch s.Draw(3) {
		case 0:
			s.Fault("read-fails")
			se.readErr = true
			return 0, []error{syscall.EIO, syscall.ESTALE, syscall.ENXIO}[s.Draw(3)]
		case 1: // some bytes arrive, the rest does not
			s.Fault("read-fails-part-way")
			n, err := do(b[:1+s.Draw(len(b))])
			if err != nil {
				return n, err
			}
			se.readErr = true
			return n, syscall.EIO
		default:
			s.Fault("short-read")
			se.shorts++
			b = b[:1+s.Draw(len(b))]
		}
	}
	n, err := do(b)
	if n > 0 {
		se.data = append(se.data, b[:n]...)
	}
	if err == io.EOF {
		se.eof = true
	} else if err != nil {
		se.readErr = true
	}
	return n, err
}

func (w *pworld) peek(name string) ([]byte, error) {
	w.quiet = true
	b, err := os.ReadFile(name)
	w.quiet = false
	return b, err
}

func (w *pworld) load(name string) *protocol.Protocol {
	s := w.s
	se := &session{}
	me := s.Me().ID
	w.live[me] = se
	w.sess[se] = name
	defer func() { delete(w.live, me); delete(w.sess, se) }()
	before, berr := w.peek(name)
	var p *protocol.Protocol
	var err error
	s.Op("load")
	if !s.Guard("C13", "LoadProtocol", func() { p, err = protocol.LoadProtocol(name) }) {
		return nil
	}
	s.Ev("loaded ok=%v", err == nil)
	data := se.data
	if se.opens == 0 || (!se.openErr && !se.readErr && !se.eof) {
		// the file was read in a way the fault layer does not see, or not to its end
		if se.changed {
			return nil
		}
		data = before
		if berr != nil {
			if err == nil {
				s.Violate("C13", "unreadable-accepted", "loading succeeded although the file cannot be read: %T", berr)
			}
			return nil
		}
	} else if se.openErr || se.readErr {
		if err == nil {
			s.Violate("C13", "read-error-hidden", "loading succeeded although opening or reading the file failed (%d bytes had been read)", len(data))
		}
		s.Probe("read-error")
		return nil
	} else if !se.changed && !bytes.Equal(data, before) {
		s.Violate("C13", "partial-read", "%d of %d bytes were read", len(data), len(before))
	}
	if err == nil && p == nil {
		s.Violate("C13", "nil-result", "loading returned neither parameters nor an error")
		return nil
	}
	var m map[string]json.RawMessage
	if e := json.Unmarshal(data, &m); e != nil || m == nil {
		s.Probe("damaged-file")
		if err == nil && e != nil {
			s.Violate("C13", "damaged-accepted", "loading succeeded on a damaged file (%d bytes, ends in %.60q)", len(data), data[max(0, len(data)-60):])
		}
		return nil
	}
	var got map[string]uint64
	if p != nil {
		got = protoFields(*p)
	} else {
		got = protoFields(protocol.Protocol{})
	}
	valid, diff := jsonFields(data, got)
	complete := valid
	var pv map[string]json.RawMessage
	json.Unmarshal(m["protocolVersion"], &pv)
	for k := range got {
		mm, kk := m, k
		if i := strings.Index(k, "."); i > 0 {
			mm, kk = pv, k[i+1:]
		}
		if v, ok := mm[kk]; !ok || string(v) == "null" {
			complete = false
		}
	}
	switch {
	case !valid && err == nil:
		s.Violate("C13", "impossible-value-accepted", "loading succeeded on a file with a value that cannot be represented: %.300q", data)
	case complete && err != nil:
		s.Violate("C13", "refused", "loading an intact file failed: %T", err)
	case valid && err == nil && diff != "":
		s.Violate("C13", "wrong-value", "%s", diff)
	}
	if err != nil {
		s.Probe("refused")
		return nil
	}
	s.Probe("loaded")
	if se.shorts > 0 {
		s.Probe("loaded-with-short-reads")
	}
	return p
}
