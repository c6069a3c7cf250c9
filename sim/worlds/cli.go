package worlds

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"

	"verifsim/engine"
	"verifsim/ref"
)

func init() {
	All["cli"] = &World{Name: "cli", Run: cliWorld, Props: []string{"C08", "C09", "C18"},
		Real: []string{"node (cardano-cli backend)", "tx", "address", "bip32", "protocol", "os/exec command construction", "os file API above the system calls"},
		Stub: []string{"cardano-cli processes (simulated)", "disk (real scratch files behind a fault layer)", "process scheduling and clock (simulated)"}}
}

type cliNode struct {
	path string
	ni   network.NetworkInfo
	nd   node.Node
}

// proc is one simulated command.
type proc struct {
	id      int
	cmd     string // utxo, params, tip, submit or ""
	addr    string
	file    string
	node    *cliNode
	ctask   int
	exit    int // wait status
	missing bool
	printed []byte
	seen    int // times the transaction file was read
	bad     string
	done    chan struct{}
	call    *cliCall
	held    *holding // until it is waited for
}

// cliCall is one library call in progress.
type cliCall struct {
	kind    string
	txHex   string
	procs   []*proc
	files   []string
	disk    bool            // a disk fault was injected into this call
	broken  map[string]bool // files hit by a write or close fault and not made anew since
	addr    string
	pending bool
}

type cworld struct {
	s      *engine.Sim
	nodes  []*cliNode
	byPath map[string]*cliNode
	calls  map[int]*cliCall // by task
	procs  map[*exec.Cmd]*proc
	nproc  int
	rate   int
	drate  int
	dir    string
	txs    []cliTx
	addrs  []address.Address
	raws   [][]byte
	held   *holdings
	quiet  int // >0: file operations of the harness itself
	orphan map[string]bool
	healed bool
}

type cliTx struct {
	t   tx.Tx
	hex string
	id  string
}

func cliWorld(s *engine.Sim, prop string) {
	w := &cworld{s: s, byPath: map[string]*cliNode{}, calls: map[int]*cliCall{}, procs: map[*exec.Cmd]*proc{}, orphan: map[string]bool{}, held: newHoldings(s)}
	w.dir = scratchDir
	w.rate = []int{0, 10, 30, 60}[s.Draw(4)]
	w.drate = []int{0, 5, 25}[s.Draw(3)]
	w.clean()
	nn := 1 + s.Draw(3)
	for i := 0; i < nn; i++ {
		n := &cliNode{path: fmt.Sprintf("/sim/node%d/bin/cardano-cli", i)}
		n.ni = *netOf(byte(s.Draw(2)))
		if s.Pct(40) {
			n.ni.ProtocolMagic = []uint32{1, 2, 42, 1097911063, 764824073, 4294967295, 0}[s.Draw(7)]
		}
		arg := n.ni
		ok := s.Guard("C08,C09", "NewCardanoCliNode", func() {
			if i == 0 && s.Pct(30) {
				n.path = "cardano-cli"
				n.nd = node.NewCardanoCliNode(&arg)
			} else {
				n.nd = node.NewCardanoCliNode(&arg, n.path)
			}
		})
		if !ok {
			return
		}
		w.nodes = append(w.nodes, n)
		w.byPath[n.path] = n
	}
	for i := 0; i < 2; i++ {
		a, r := drawAddr(s, byte(s.Draw(2)), true)
		w.addrs, w.raws = append(w.addrs, a), append(w.raws, r)
	}
	for i := 0; i < 2; i++ {
		if t, ok := w.makeTx(); ok {
			w.txs = append(w.txs, t)
		}
	}
	w.hooks()
	nt := 1 + s.Draw(3)
	var tasks []*engine.Task
	left := nt
	for i := 0; i < nt; i++ {
		i := i
		ops := 2 + s.Draw(5)
		tasks = append(tasks, s.Go(fmt.Sprintf("user%d", i), func() {
			for k := 0; k < ops; k++ {
				w.op(w.nodes[s.Draw(len(w.nodes))])
				if s.Pct(40) {
					s.Sleep(time.Duration(s.Draw(4000)) * time.Millisecond)
				}
			}
			if left--; left == 0 {
				w.held.check()
			}
		}))
	}
	s.SetPreempt(s.Pct(40))
	if s.Pct(25) {
		s.Go("chaos", func() {
			s.Sleep(time.Duration(s.Draw(20000)) * time.Millisecond)
			t := tasks[s.Draw(len(tasks))]
			if t.Alive() {
				t.OnCrash(func() {
					left--
					w.held.dead[t.ID] = true
					// what a dead caller leaves behind cannot be told from what the
					// others use right now; their own leftovers are seen on return
					if w.calls[t.ID] != nil {
						for _, f := range w.list() {
							w.orphan[f] = true
						}
					}
				})
				s.Fault("caller-crash")
				s.Crash(t)
			}
		})
	}
	s.OnStuck(func(names []string) {
		s.Violate("C09", "never-returned", "a call never returned although its command ended")
	})
	s.Final(func() {
		w.unhook()
		for _, f := range w.list() {
			if !w.orphan[f] {
				s.Violate("C09", "temp-file-left", "a temporary file is left behind at the end of the run")
			}
		}
		w.clean()
		s.Note("nodes=%d users=%d commands=%d command fault rate=%d%% disk fault rate=%d%%", nn, nt, w.nproc, w.rate, w.drate)
	})
}

func (w *cworld) list() []string {
	w.quiet++
	defer func() { w.quiet-- }()
	var l []string
	filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			l = append(l, p)
		}
		return nil
	})
	sort.Strings(l)
	return l
}

func (w *cworld) clean() {
	w.quiet++
	defer func() { w.quiet-- }()
	os.RemoveAll(w.dir)
	os.MkdirAll(w.dir, 0755)
}

func (w *cworld) makeTx() (c cliTx, ok bool) {
	s := w.s
	k := drawKey(s)
	n := s.Draw(3)
	if s.Pct(20) {
		n = 30 + s.Draw(60)
	}
	var md *meta
	if s.Pct(40) {
		m := drawMetaMap(s, 1)
		md = &m
	}
	ok = s.Guard("C09", "build", func() {
		tb := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, []bip32.XPrv{k.lib})
		for i := 0; i <= n; i++ {
			tb.AddInputs(tx.NewTxInput(hexHash(s), uint16(i), 5000000))
		}
		tb.AddOutputs(tx.NewTxOutput(w.addrs[0], 1500000))
		if md != nil {
			tb.Tx().Metadata = md.mk()
		}
		tb.SetTTL(1000)
		tb.AddChangeIfNeeded(w.addrs[1])
		t, err := tb.Build()
		if err != nil {
			panic(err)
		}
		raw, err := t.Bytes()
		if err != nil {
			panic(err)
		}
		c.t, c.hex = t, hex.EncodeToString(raw)
		r, err := ref.ReadTx(raw)
		if err != nil {
			panic(err)
		}
		c.id = r.ID
	})
	return
}

// ---------------------------------------------------------------- processes

func (w *cworld) hooks() {
	s := w.s
	exec.VerifStart = func(c *exec.Cmd) (err error) {
		s.Adopt(func() { err = w.start(c) })
		return
	}
	exec.VerifWait = func(c *exec.Cmd) (err error) {
		s.Adopt(func() { err = w.wait(c) })
		return
	}
	os.VerifOpened = func(f *os.File) {
		if w.mine(f.Name()) {
			w.held.add("a file opened during "+w.current().kind, f)
		} else if w.quiet == 0 && !s.Ending() && w.current() != nil {
			w.held.add(f.Name(), f).loose = f.Name()
		}
	}
	os.VerifClosed = w.held.closed
	exec.VerifWoken, exec.VerifDone = s.Yield, s.Done()
	os.VerifOpen = func(name string, flag int) (err error) {
		if w.mine(name) {
			s.Adopt(func() { err = w.open(name, flag) })
		}
		return
	}
	os.VerifWrite = func(name string, b []byte, do func([]byte) (int, error)) (n int, err error) {
		if !w.mine(name) {
			return do(b)
		}
		s.Adopt(func() { n, err = w.write(name, b, do) })
		return
	}
	os.VerifClose = func(name string, do func() error) (err error) {
		if !w.mine(name) {
			return do()
		}
		s.Adopt(func() { err = w.close(name, do) })
		return
	}
	os.VerifRemove = func(name string) {
		if w.mine(name) {
			s.Yield()
		}
	}
}

func (w *cworld) unhook() {
	exec.VerifStart, exec.VerifWait, exec.VerifWoken, exec.VerifDone = nil, nil, nil, nil
	os.VerifOpen, os.VerifWrite, os.VerifClose, os.VerifRead, os.VerifRemove = nil, nil, nil, nil, nil
	os.VerifOpened, os.VerifClosed = nil, nil
}

func (w *cworld) current() *cliCall {
	return w.calls[w.s.Owner()]
}

// argValue finds "--name value" or "--name=value".
func argValue(args []string, name string) (string, bool) {
	for i, a := range args {
		if a == name && i+1 < len(args) {
			return args[i+1], true
		}
		if strings.HasPrefix(a, name+"=") {
			return a[len(name)+1:], true
		}
	}
	return "", false
}

func (w *cworld) start(c *exec.Cmd) error {
	s := w.s
	if s.Ending() {
		return syscall.ENOENT
	}
	s.Yield()
	call := w.current()
	p := &proc{id: w.nproc, done: make(chan struct{}), call: call}
	w.nproc++
	if call != nil {
		call.procs = append(call.procs, p)
	}
	name := c.Path
	if len(c.Args) > 0 && w.byPath[name] == nil {
		name = c.Args[0]
	}
	p.node = w.byPath[name]
	if p.node == nil {
		s.Violate("C09,C08", "command-path", "the command executed is not the one the node was created with")
		return syscall.ENOENT
	}
	args := append([]string(nil), c.Args[1:]...)
	w.checkNetwork(p, args)
	p.parse(args)
	s.Ev("proc %d %s", p.id, p.cmd)
	fault := !w.healed && s.Pct(w.rate)
	if fault && s.Pct(15) {
		s.Fault("command-missing")
		p.missing = true
		p.exit = 127 << 8
		close(p.done)
		switch s.Draw(4) {
		case 0:
			return &os.PathError{Op: "fork/exec", Path: name, Err: syscall.ENOENT}
		case 1:
			return &os.PathError{Op: "fork/exec", Path: name, Err: syscall.EACCES}
		case 2:
			return &os.PathError{Op: "fork/exec", Path: name, Err: syscall.EAGAIN}
		}
		return &exec.Error{Name: name, Err: exec.ErrNotFound}
	}
	c.Process = &os.Process{Pid: 100000 + p.id}
	w.procs[c] = p
	if call != nil {
		p.held = w.held.add("the command started by "+call.kind+", not waited for", nil)
	}
	out := c.Stdout
	errw := c.Stderr
	s.Go(fmt.Sprintf("proc%d", p.id), func() {
		w.run(p, out, errw, fault)
		exec.VerifChildClose(c)
		close(p.done)
	})
	return nil
}

// checkNetwork is C08 for this backend.
func (w *cworld) checkNetwork(p *proc, args []string) {
	s := w.s
	main := false
	for _, a := range args {
		if a == "--mainnet" {
			main = true
		}
	}
	magic, test := argValue(args, "--testnet-magic")
	want := fmt.Sprint(p.node.ni.ProtocolMagic)
	show := strings.Join(redact(args), " ")
	switch {
	case p.node.ni.NetworkId == 1 && (!main || test):
		s.Violate("C08", "cli/wrong-network", "a node created for the main network ran: %s", show)
	case p.node.ni.NetworkId == 0 && (main || !test || magic != want):
		s.Violate("C08", "cli/wrong-network", "a node created for the test network with magic %s ran: %s", want, show)
	}
}

// redact removes temporary file names, which differ from run to run.
func redact(args []string) []string {
	var r []string
	for _, a := range args {
		if strings.Contains(a, scratchDir) {
			a = "<tmp>"
		}
		r = append(r, a)
	}
	return r
}

func (p *proc) parse(args []string) {
	word := func(l ...string) bool {
		i := 0
		for _, a := range args {
			if i < len(l) && a == l[i] {
				i++
			}
		}
		return i == len(l)
	}
	// the network flag and the address or file must be arguments of their own
	for _, a := range args {
		if strings.HasPrefix(a, "--") && strings.Contains(a, " ") {
			p.bad = "Invalid option `" + a + "'"
			return
		}
	}
	switch {
	case word("query", "utxo"):
		if a, ok := argValue(args, "--address"); ok {
			p.cmd, p.addr = "utxo", a
		} else {
			p.bad = "Missing: --address"
		}
	case word("query", "protocol-parameters"):
		p.cmd = "params"
	case word("query", "tip"):
		p.cmd = "tip"
	case word("transaction", "submit"):
		if f, ok := argValue(args, "--tx-file"); ok {
			p.cmd, p.file = "submit", f
		} else {
			p.bad = "Missing: --tx-file"
		}
	default:
		p.bad = "Invalid argument"
	}
}

// look reads the transaction file the way cardano-cli does.
func (w *cworld) look(p *proc, when string) {
	s := w.s
	w.quiet++
	b, err := os.ReadFile(p.file)
	w.quiet--
	p.seen++
	if p.call == nil {
		return
	}
	if err != nil {
		s.Violate("C09", "submit/file-missing", "the transaction file cannot be read %s the command", when)
		return
	}
	var e struct {
		CborHex *string `json:"cborHex"`
	}
	if json.Unmarshal(b, &e) != nil || e.CborHex == nil {
		s.Violate("C09", "submit/file-incomplete", "the transaction file is incomplete %s the command: %d bytes", when, len(b))
		return
	}
	if !strings.EqualFold(*e.CborHex, p.call.txHex) {
		s.Violate("C09", "submit/file-content", "the transaction file does not contain the transaction's CBOR %s the command", when)
	}
}

var hexRow = regexp.MustCompile(`^[0-9a-f]{64}$`)

// run is the life of a simulated command.
func (w *cworld) run(p *proc, out, errw io.Writer, fault bool) {
	s := w.s
	nap := func() {
		if s.Pct(60) {
			s.Sleep(time.Duration(s.Draw(1500)) * time.Millisecond)
		} else {
			s.Yield()
		}
	}
	say := func(msg string) {
		if errw != nil && errw != io.Writer(os.Stderr) {
			errw.Write([]byte(msg + "\n"))
		}
	}
	if p.bad != "" {
		say(p.bad)
		p.exit = 1 << 8
		return
	}
	nap()
	if s.Pct(20) {
		say("WARNING: node is 98.72% synced")
	}
	if p.cmd == "submit" {
		w.look(p, "at the start of")
		nap()
		w.look(p, "during")
	}
	text := w.text(p)
	if fault {
		switch s.Draw(4) {
		case 0:
			s.Fault("command-fails")
			if s.Pct(50) {
				text = nil
			} else if len(text) > 0 && s.Pct(60) {
				text = text[:s.Draw(len(text))]
			}
			p.exit = (1 + s.Draw(3)) << 8
		case 1:
			s.Fault("command-killed")
			if len(text) > 0 && s.Pct(50) {
				text = text[:s.Draw(len(text))]
			}
			p.exit = []int{9, 15, 11}[s.Draw(3)]
		default:
			if p.cmd != "submit" {
				text = w.damage(p, text)
			}
		}
	}
	for len(text) > 0 {
		n := len(text)
		if s.Pct(40) {
			n = 1 + s.Draw(n)
		}
		p.printed = append(p.printed, text[:n]...)
		if out != nil {
			out.Write(text[:n])
		}
		text = text[n:]
		if len(text) > 0 {
			nap()
		}
	}
	if p.cmd == "submit" {
		nap()
		w.look(p, "at the end of")
	}
	s.Ev("proc %d exit %d printed %d", p.id, p.exit, len(p.printed))
}

// damage makes output that a healthy command would not print, with exit code 0.
func (w *cworld) damage(p *proc, text []byte) []byte {
	s := w.s
	switch s.Draw(5) {
	case 0:
		s.Fault("output-empty")
		return nil
	case 1, 2:
		s.Fault("output-truncated")
		return text[:s.Draw(len(text))]
	case 3:
		s.Fault("output-garbled")
		t := append([]byte(nil), text...)
		i := s.Draw(len(t))
		n := 1 + s.Draw(8)
		for ; n > 0 && i < len(t); n, i = n-1, i+1 {
			t[i] = "x#}\x00 "[s.Draw(5)]
		}
		return t
	}
	s.Fault("output-foreign")
	return []byte("cardano-cli: Network.Socket.connect: <socket: 11>: does not exist (No such file or directory)\n")
}

// text is what a healthy command prints.
func (w *cworld) text(p *proc) []byte {
	s := w.s
	switch p.cmd {
	case "utxo":
		var b strings.Builder
		b.WriteString("                           TxHash                                 TxIx        Amount\n")
		b.WriteString(strings.Repeat("-", 86) + "\n")
		n := s.Draw(6)
		if s.Pct(10) {
			n = 50 + s.Draw(100)
			if s.Pct(20) {
				// more than a pipe or a line buffer holds
				n = 600 + s.Draw(600)
			}
		}
		wide := -1
		if s.Pct(3) {
			wide = s.Draw(n + 1)
		}
		hash := ""
		for i := 0; i < n; i++ {
			am := uint64(s.Draw(1 << 30))
			if s.Pct(30) {
				am *= uint64(1 + s.Draw(1<<24))
			}
			ix := s.Draw(3)
			if s.Pct(10) {
				ix = []int{10, 255, 256, 65535}[s.Draw(4)]
			}
			if hash == "" || !s.Pct(25) {
				hash = hexHash(s)
			} else {
				// another output of the same transaction
				ix += i
			}
			row := fmt.Sprintf("%s%6d        %d lovelace", hash, ix, am)
			if i == wide {
				tokens := 850 + s.Draw(100)
				for k := 0; k < tokens; k++ {
					row += fmt.Sprintf(" + %d %056x.%x", 1+k%7, k, []byte("token"))
				}
			}
			for s.Pct(20) {
				row += fmt.Sprintf(" + %d %x.%x", s.Draw(1000), s.Bytes(28), s.Bytes(5))
			}
			if s.Pct(60) {
				row += " + TxOutDatumNone"
			}
			b.WriteString(row + "\n")
		}
		return []byte(b.String())
	case "params":
		m := obj{"txFeePerByte": s.U64() >> 1, "txFeeFixed": s.U64() >> 1, "maxTxSize": s.U64() >> 1, "minUTxOValue": s.U64() >> 1,
			"protocolVersion": obj{"major": s.Draw(256), "minor": s.Draw(256)}, "costModels": obj{"PlutusV1": []int{1, 2, 3}}, "poolPledgeInfluence": 0.3, "extraPraosEntropy": nil}
		b, _ := json.MarshalIndent(m, "", "    ")
		return append(b, '\n')
	case "tip":
		m := obj{"slot": s.U64() >> 1, "epoch": s.Draw(1 << 20), "block": s.Draw(1 << 28), "hash": hexHash(s), "era": "Alonzo", "syncProgress": "100.00"}
		b, _ := json.MarshalIndent(m, "", "    ")
		return append(b, '\n')
	case "submit":
		return []byte("Transaction successfully submitted.\n")
	}
	return nil
}

func (w *cworld) wait(c *exec.Cmd) error {
	s := w.s
	p := w.procs[c]
	if p == nil {
		return fmt.Errorf("exec: not started")
	}
	var cancel <-chan struct{}
	if ctx := exec.VerifCtx(c); ctx != nil {
		cancel = ctx.Done()
	}
	select {
	case <-p.done:
	case <-cancel:
		p.exit = 9
	case <-s.Done():
	}
	s.Yield()
	if p.held != nil {
		p.held.released = true
	}
	exec.VerifChildClose(c)
	exec.VerifParentClose(c)
	st := os.VerifProcessState(p.exit)
	c.ProcessState = st
	if p.exit != 0 {
		return &exec.ExitError{ProcessState: st}
	}
	return nil
}

// ---------------------------------------------------------------- disk

func (w *cworld) mine(name string) bool {
	if w.quiet > 0 || w.s.Ending() || !strings.HasPrefix(name, w.dir) {
		return false
	}
	return w.current() != nil
}

func (w *cworld) diskFault() bool { return !w.healed && w.s.Pct(w.drate) }

func (w *cworld) open(name string, flag int) error {
	if !w.mine(name) {
		return nil
	}
	s := w.s
	s.Yield()
	if flag&os.O_CREATE == 0 {
		return nil
	}
	c := w.current()
	if w.diskFault() {
		s.Fault("disk-create-fails")
		c.disk = true
		return []error{syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EROFS}[s.Draw(4)]
	}
	c.files = append(c.files, name)
	if flag&(os.O_TRUNC|os.O_EXCL) != 0 {
		delete(c.broken, name)
	}
	return nil
}

// owns reports whether the call made the file and no command of the call has
// started yet: faults after that say nothing about what the command was given.
func (c *cliCall) owns(name string) bool {
	if len(c.procs) > 0 {
		return false
	}
	for _, f := range c.files {
		if f == name {
			return true
		}
	}
	return false
}

func (c *cliCall) spoil(name string) {
	c.disk = true
	if c.broken == nil {
		c.broken = map[string]bool{}
	}
	c.broken[name] = true
}

func (w *cworld) write(name string, b []byte, do func([]byte) (int, error)) (int, error) {
	if !w.mine(name) {
		return do(b)
	}
	s := w.s
	s.Yield()
	c := w.current()
	if c.owns(name) && w.diskFault() {
		c.spoil(name)
		n := 0
		if len(b) > 0 {
			n = s.Draw(len(b))
		}
		if s.Pct(30) {
			n = 0
		}
		if n > 0 {
			s.Fault("disk-short-write")
			do(b[:n])
		} else {
			s.Fault("disk-write-fails")
		}
		return n, []error{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT}[s.Draw(3)]
	}
	return do(b)
}

func (w *cworld) close(name string, do func() error) error {
	if !w.mine(name) {
		return do()
	}
	s := w.s
	s.Yield()
	c := w.current()
	if c.owns(name) && w.diskFault() {
		s.Fault("disk-close-fails")
		c.spoil(name)
		do()
		w.quiet++
		if fi, err := os.Stat(name); err == nil && fi.Size() > 0 {
			os.Truncate(name, int64(s.Draw(int(fi.Size()))))
		}
		w.quiet--
		return syscall.EIO
	}
	return do()
}

// ---------------------------------------------------------------- calls

func (w *cworld) op(n *cliNode) {
	s := w.s
	c := &cliCall{}
	me := s.Me().ID
	w.calls[me] = c
	defer delete(w.calls, me)
	switch k := s.Draw(8); {
	case k < 2:
		w.utxos(n, c)
	case k < 3:
		w.params(n, c)
	case k < 4:
		w.tip(n, c)
	default:
		if len(w.txs) > 0 {
			w.submit(n, c, w.txs[s.Draw(len(w.txs))])
		}
	}
	for _, f := range c.files {
		w.quiet++
		_, err := os.Lstat(f)
		w.quiet--
		if err == nil {
			s.Violate("C09", c.kind+"/temp-file-left", "%s returned and left its temporary file behind (disk fault: %v)", c.kind, c.disk)
		}
	}
}

// outcome reports whether the commands of a call succeeded.
func (c *cliCall) outcome() (ok bool, last *proc) {
	for _, p := range c.procs {
		last = p
	}
	return last != nil && last.exit == 0 && !last.missing && last.bad == "", last
}

func (w *cworld) begin(c *cliCall, kind string) {
	c.kind = kind
	w.s.Op("%s", kind)
}

// failed handles the cases common to the queries; it reports true when there is
// nothing more to compare.
func (w *cworld) failed(c *cliCall, want string, err error) (p *proc, stop bool) {
	s := w.s
	ok, p := c.outcome()
	if p == nil {
		s.Violate("C09", c.kind+"/no-command", "%s returned (err=%v) without running the command", c.kind, err != nil)
		return nil, true
	}
	if p.cmd != want {
		s.Violate("C09", c.kind+"/wrong-command", "%s ran another command (%s) %s", c.kind, p.cmd, p.bad)
		return p, true
	}
	if !ok {
		if err == nil {
			s.Violate("C09", c.kind+"/failure-hidden", "%s succeeded although the command failed (status %#x)", c.kind, p.exit)
		}
		return p, true
	}
	return p, false
}

type row struct {
	hash string
	ix   uint64
	amt  uint64
}

// readTable reads a printed table. must: the rows a reader has to return; may: a
// last row that was cut after its amount; bad: the text is not a table.
func readTable(b []byte) (must, may []row, bad, soft bool) {
	lines := strings.Split(string(b), "\n")
	head := 0
	for _, c := range []string{"TxHash", "TxIx", "Amount"} {
		if strings.Contains(lines[0], c) {
			head++
		}
	}
	if len(lines) < 2 || head == 0 {
		return nil, nil, true, false
	}
	if len(lines) < 3 {
		return nil, nil, false, true // only a cut heading
	}
	if head < 3 || strings.Trim(lines[1], "-") != "" || len(lines[1]) < 20 {
		soft = true // a damaged heading: refusing it is right, reading the rows is too
	}
	for i, l := range lines[2:] {
		last := i == len(lines)-3
		if strings.TrimSpace(l) == "" {
			if !last || l != "" {
				soft = true
			}
			continue
		}
		f := strings.Fields(l)
		if last {
			soft = true
		}
		good := len(f) >= 4 && hexRow.MatchString(f[0]) && (strings.HasPrefix(f[3], "lovelace"))
		var r row
		if good {
			ix, e1 := strconv.ParseUint(f[1], 10, 16)
			am, e2 := strconv.ParseUint(f[2], 10, 64)
			good = e1 == nil && e2 == nil
			r = row{f[0], ix, am}
		}
		if good && f[3] != "lovelace" {
			soft = true
		}
		if !good {
			if last && len(f) == 4 && strings.HasPrefix("lovelace", f[3]) && hexRow.MatchString(f[0]) {
				ix, e1 := strconv.ParseUint(f[1], 10, 16)
				am, e2 := strconv.ParseUint(f[2], 10, 64)
				if e1 == nil && e2 == nil {
					may = append(may, row{f[0], ix, am})
					continue
				}
			}
			return nil, nil, true, false
		}
		must = append(must, r)
	}
	return must, may, false, soft
}

func (w *cworld) utxos(n *cliNode, c *cliCall) {
	s := w.s
	w.begin(c, "utxos")
	i := s.Draw(len(w.addrs))
	var l []tx.TxInput
	var err error
	if !s.Guard("C09", "UTXOs", func() { l, err = n.nd.UTXOs(w.addrs[i]) }) {
		return
	}
	p, stop := w.failed(c, "utxo", err)
	if p != nil && p.cmd == "utxo" && p.addr != ref.Text(w.raws[i]) {
		s.Violate("C09", "utxos/address", "the command was asked for %q, the address is %s", p.addr, ref.Text(w.raws[i]))
	}
	if stop {
		return
	}
	must, may, bad, soft := readTable(p.printed)
	if bad {
		s.Probe("table-damaged")
		if err == nil {
			s.Violate("C09", "utxos/garbage-accepted", "UTXOs returned %d outputs without error from %.200q", len(l), p.printed)
		}
		return
	}
	if err != nil {
		if !soft {
			s.Violate("C09", "utxos/error", "UTXOs failed although the command printed a complete table of %d rows: %v", len(must), err)
		}
		return
	}
	var got, a, b []string
	for _, u := range l {
		got = append(got, fmt.Sprintf("%x#%d:%d", u.TxHash, u.Index, u.Amount))
	}
	for _, r := range must {
		a = append(a, fmt.Sprintf("%s#%d:%d", r.hash, r.ix, r.amt))
	}
	b = append(b, a...)
	for _, r := range may {
		b = append(b, fmt.Sprintf("%s#%d:%d", r.hash, r.ix, r.amt))
	}
	sort.Strings(got)
	sort.Strings(a)
	sort.Strings(b)
	g := strings.Join(got, ",")
	if g != strings.Join(a, ",") && g != strings.Join(b, ",") {
		s.Violate("C09", "utxos/wrong", "UTXOs returned %d outputs (%.150s), the command listed %d (%.150s)", len(got), g, len(a), strings.Join(a, ","))
	}
	if len(got) > 0 {
		s.Probe("table-read")
	}
}

// number reads an unsigned JSON number; ok is false when the field is absent or
// states no number that fits.
func number(m map[string]json.RawMessage, k string, bits int) (v uint64, present, ok bool) {
	raw, p := m[k]
	if !p {
		return 0, false, false
	}
	t := strings.TrimSpace(string(raw))
	v, err := strconv.ParseUint(t, 10, bits)
	return v, true, err == nil
}

// jsonFields compares stated numbers with returned ones.
func jsonFields(printed []byte, got map[string]uint64) (valid bool, diff string) {
	var m map[string]json.RawMessage
	if json.Unmarshal(printed, &m) != nil {
		return false, ""
	}
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	valid = true
	for _, k := range ks {
		mm, kk, bits := m, k, 64
		if i := strings.Index(k, "."); i > 0 {
			mm = nil
			if raw, ok := m[k[:i]]; ok {
				if json.Unmarshal(raw, &mm) != nil {
					valid = false
				}
			}
			kk, bits = k[i+1:], 8
		}
		v, present, ok := number(mm, kk, bits)
		if !present {
			continue
		}
		if !ok {
			if string(mm[kk]) != "null" {
				valid = false
			}
			continue
		}
		if v != got[k] {
			diff = fmt.Sprintf("%s is %d, stated %d", k, got[k], v)
		}
	}
	return
}

func protoFields(p protocol.Protocol) map[string]uint64 {
	return map[string]uint64{"txFeePerByte": uint64(p.TxFeePerByte), "txFeeFixed": uint64(p.TxFeeFixed), "maxTxSize": uint64(p.MaxTxSize), "minUTxOValue": uint64(p.MinUTXOValue), "protocolVersion.major": uint64(p.ProtocolVersion.Major), "protocolVersion.minor": uint64(p.ProtocolVersion.Minor)}
}

func (w *cworld) json(c *cliCall, p *proc, err error, got map[string]uint64) {
	s := w.s
	valid, diff := jsonFields(p.printed, got)
	switch {
	case !valid && err == nil:
		s.Violate("C09", c.kind+"/garbage-accepted", "%s succeeded on %.200q", c.kind, p.printed)
	case valid && err != nil:
		s.Violate("C09", c.kind+"/error", "%s failed on intact output: %v", c.kind, err)
	case valid && diff != "":
		s.Violate("C09", c.kind+"/wrong", "%s: %s", c.kind, diff)
	case valid:
		s.Probe("json-read")
	default:
		s.Probe("json-damaged")
	}
}

func (w *cworld) params(n *cliNode, c *cliCall) {
	w.begin(c, "params")
	var p protocol.Protocol
	var err error
	if !w.s.Guard("C09", "ProtocolParameters", func() { p, err = n.nd.ProtocolParameters() }) {
		return
	}
	if pr, stop := w.failed(c, "params", err); !stop {
		w.json(c, pr, err, protoFields(p))
	}
}

func (w *cworld) tip(n *cliNode, c *cliCall) {
	w.begin(c, "tip")
	var t node.NetworkTip
	var err error
	if !w.s.Guard("C09", "QueryTip", func() { t, err = n.nd.QueryTip() }) {
		return
	}
	if pr, stop := w.failed(c, "tip", err); !stop {
		w.json(c, pr, err, map[string]uint64{"slot": uint64(t.Slot), "epoch": uint64(t.Epoch), "block": uint64(t.Block)})
	}
}

func (w *cworld) submit(n *cliNode, c *cliCall, t cliTx) {
	s := w.s
	w.begin(c, "submit")
	c.txHex = t.hex
	var id string
	var err error
	if !s.Guard("C09", "SubmitTx", func() { id, err = n.nd.SubmitTx(t.t) }) {
		return
	}
	ok, p := c.outcome()
	if p == nil {
		if err == nil {
			s.Violate("C09", "submit/false-success", "SubmitTx succeeded without running the command")
		} else if !c.disk {
			s.Violate("C09", "submit/error", "SubmitTx failed without any fault: %v", scrub(err))
		}
		return
	}
	if p.cmd != "submit" {
		s.Violate("C09", "submit/wrong-command", "SubmitTx ran another command: %s %s", p.cmd, p.bad)
		return
	}
	switch {
	case !ok && err == nil:
		s.Violate("C09", "submit/failure-hidden", "SubmitTx succeeded although the command failed (status %#x)", p.exit)
	case c.broken[p.file] && err == nil:
		s.Violate("C09", "submit/disk-failure-hidden", "SubmitTx succeeded although its file could not be written completely")
	case ok && !c.disk && err != nil:
		s.Violate("C09", "submit/error", "SubmitTx failed although the command succeeded: %v", scrub(err))
	case err == nil && id != t.id:
		s.Violate("C09", "submit/wrong-id", "SubmitTx returned %q, the transaction id is %s", id, t.id)
	}
	if err == nil {
		s.Probe("cli-submitted")
	} else {
		s.Probe("cli-submit-failed")
	}
}

func scrub(err error) string {
	return string(bytes.ReplaceAll([]byte(regexp.MustCompile(regexp.QuoteMeta(scratchDir)+`\S*`).ReplaceAllString(err.Error(), "<tmp>")), []byte{0}, nil))
}
