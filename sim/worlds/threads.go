package worlds

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"

	"verifsim/engine"
	"verifsim/ref"
)

func init() {
	All["threads"] = &World{Name: "threads", Run: threadsWorld, Props: []string{"C11"},
		Real: []string{"address", "bip32", "crypto", "fees", "internal/bech32", "network", "node (both backends)", "protocol", "tx", "Go race detector as the memory-access oracle"},
		Stub: []string{"goroutine scheduling (the simulator decides every statement-level interleaving)", "map iteration order", "HTTP transport and cardano-cli commands (fixed answers)"}}
}

// step is one call a goroutine makes; what it does depends only on its fields and
// on the shared values.
type step struct {
	op         int
	a, b, c, d int
	md         *meta
	msg        []byte
}

// shared is what the goroutines treat as read-only.
type shared struct {
	keys    []bip32.XPrv
	addrs   []address.Address
	texts   []string
	raws    [][]byte
	ins     []*tx.TxInput
	outs    []*tx.TxOutput
	pr      protocol.Protocol
	net     *network.NetworkInfo
	done    []tx.Tx
	lfee    *fees.LinearFee
	file    string
	entropy []byte
	creds   []*address.StakeCredential
	bf, cli node.Node
}

const nThreadOps = 16

// answer is the node the threads talk to: a fixed chain.
func (sh *shared) answer(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		var err error
		if body, err = io.ReadAll(req.Body); err != nil {
			return nil, err
		}
		req.Body.Close()
	}
	status, out := 404, `{"error":"Not Found","message":"The requested component has not been found.","status_code":404}`
	path := req.URL.Path
	switch {
	case !strings.HasPrefix(req.Header.Get("project_id"), "project"):
		status, out = 403, `{"error":"Forbidden","message":"Invalid project token.","status_code":403}`
	case strings.HasSuffix(path, "/blocks/latest"):
		status, out = 200, `{"time":1,"height":77,"hash":"00","slot":990,"epoch":3}`
	case strings.HasSuffix(path, "/parameters"):
		status, out = 200, `{"epoch":3,"min_fee_a":44,"min_fee_b":155381,"max_tx_size":16384,"protocol_major_ver":6,"protocol_minor_ver":0,"min_utxo":"1000000"}`
	case strings.HasSuffix(path, "/utxos"):
		part := strings.Split(path, "/")
		a := part[len(part)-2]
		n, first := 3+int(a[len(a)-1])%5, 0
		if a[len(a)-2]%2 == 0 {
			n += 100
		}
		if req.URL.Query().Get("page") == "2" {
			first = 100
		}
		var sb strings.Builder
		for i := first; i < n && i < first+100; i++ {
			h := ref.Blake256([]byte(fmt.Sprint(a, i)))
			fmt.Fprintf(&sb, `,{"tx_hash":"%x","tx_index":%d,"output_index":%d,"amount":[{"unit":"lovelace","quantity":"%d"}],"block":"00"}`, h[:], i, i, 1000000+i)
		}
		status, out = 200, "["+strings.TrimPrefix(sb.String(), ",")+"]"
	case strings.HasSuffix(path, "/tx/submit"):
		t, err := ref.ReadTx(body)
		if err != nil {
			status, out = 400, `{"error":"Bad Request","message":"DecoderFailure","status_code":400}`
		} else {
			status, out = 200, `"`+t.ID+`"`
		}
	}
	return &http.Response{Status: fmt.Sprint(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(out)), ContentLength: int64(len(out)), Request: req}, nil
}

// command is the cardano-cli the threads run; it ends before Start returns.
func (sh *shared) command(c *exec.Cmd) error {
	cmd := strings.Join(c.Args[1:], " ")
	out, exit := "", 0
	switch {
	case strings.HasPrefix(cmd, "query tip"):
		out = `{"epoch":3,"slot":990,"block":77,"hash":"00"}`
	case strings.HasPrefix(cmd, "query protocol-parameters"):
		out = `{"txFeePerByte":44,"txFeeFixed":155381,"maxTxSize":16384,"minUTxOValue":1000000,"protocolVersion":{"major":6,"minor":0}}`
	case strings.HasPrefix(cmd, "query utxo"):
		a, _ := argValue(c.Args, "--address")
		out = "                           TxHash                                 TxIx        Amount\n--------------------------------------------------------------------------------------\n"
		for i := 0; i < 1+len(a)%4; i++ {
			h := ref.Blake256([]byte(fmt.Sprint(a, i)))
			out += fmt.Sprintf("%x     %d        %d lovelace + TxOutDatumNone\n", h[:], i, 1000000+i)
		}
	case strings.HasPrefix(cmd, "transaction submit"):
		name, _ := argValue(c.Args, "--tx-file")
		b, err := os.ReadFile(name)
		var e struct {
			CborHex string `json:"cborHex"`
		}
		if err == nil {
			err = json.Unmarshal(b, &e)
		}
		if err == nil {
			b, err = hex.DecodeString(e.CborHex)
		}
		if err == nil {
			_, err = ref.ReadTx(b)
		}
		if err != nil {
			exit = 1 << 8
		}
	default:
		exit = 1 << 8
	}
	if c.Stdout != nil {
		io.WriteString(c.Stdout, out)
	}
	exec.VerifChildClose(c)
	c.Process = &os.Process{Pid: 100000}
	c.ProcessState = os.VerifProcessState(exit)
	return nil
}

func (sh *shared) hook(s *engine.Sim) {
	http.VerifRoundTrip = func(r *http.Request) (res *http.Response, err error) {
		s.Adopt(func() {
			s.Yield()
			res, err = sh.answer(r)
			s.Yield()
		})
		return
	}
	exec.VerifStart = func(c *exec.Cmd) (err error) {
		s.Adopt(func() {
			s.Yield()
			err = sh.command(c)
			s.Yield()
		})
		return
	}
	exec.VerifWait = func(c *exec.Cmd) error {
		if c.ProcessState == nil {
			return errors.New("exec: not started")
		}
		exec.VerifParentClose(c)
		if !c.ProcessState.Success() {
			return &exec.ExitError{ProcessState: c.ProcessState}
		}
		return nil
	}
}

func unhookThreads() {
	http.VerifRoundTrip, exec.VerifStart, exec.VerifWait = nil, nil, nil
}

// callNode makes one call on a node and writes down its result.
func callNode(sh *shared, nd node.Node, st *step) string {
	switch st.c % 4 {
	case 0:
		l, err := nd.UTXOs(sh.addrs[st.b%len(sh.addrs)])
		var sb bytes.Buffer
		for _, u := range l {
			fmt.Fprintf(&sb, "%x#%d:%d ", u.TxHash, u.Index, u.Amount)
		}
		return fmt.Sprintf("%s %v", sb.String(), err)
	case 1:
		p, err := nd.ProtocolParameters()
		return fmt.Sprintf("%+v %v", p, err)
	case 2:
		t, err := nd.QueryTip()
		return fmt.Sprintf("%+v %v", t, err)
	}
	var t tx.Tx
	if len(sh.done) > 0 && st.d%2 == 0 {
		t = sh.done[st.a%len(sh.done)]
	} else {
		b := tx.NewTxBuilder(sh.pr, sh.keys[:1])
		b.AddInputs(sh.ins[:1+st.a%len(sh.ins)]...)
		b.AddOutputs(sh.outs[:1]...)
		b.SetTTL(uint32(st.d))
		var err error
		if t, err = b.Build(); err != nil {
			return err.Error()
		}
	}
	id, err := nd.SubmitTx(t)
	return fmt.Sprintf("%s %v", id, err)
}

func threadsWorld(s *engine.Sim, prop string) {
	sh := &shared{pr: protocol.Protocol{TxFeePerByte: uint(1 + s.Draw(100)), TxFeeFixed: uint(s.Draw(1 << 20))}, net: network.MainNet()}
	if s.Pct(50) {
		sh.net = network.TestNet()
	}
	sh.lfee = &fees.LinearFee{TxFeePerByte: 44, TxFeeFixed: 155381}
	// Everything shared is made without calling the library where that is
	// possible, so that the goroutines are the first to reach its package state.
	nk := 1 + s.Draw(3)
	for i := 0; i < nk; i++ {
		r := ref.Master32(s.Bytes(32))
		sh.keys = append(sh.keys, bip32.XPrv(append(make([]byte, 0, 128), r[:]...)))
	}
	na := 2 + s.Draw(4)
	for i := 0; i < na; i++ {
		a, raw := drawAddr(s, byte(s.Draw(2)), false)
		sh.addrs, sh.raws, sh.texts = append(sh.addrs, a), append(sh.raws, raw), append(sh.texts, ref.Text(raw))
	}
	for i := 0; i < 3; i++ {
		sh.creds = append(sh.creds, &address.StakeCredential{Kind: address.StakeCredentialType(s.Draw(2)), Payload: s.Bytes(28)})
	}
	for i := 0; i < 4; i++ {
		sh.ins = append(sh.ins, tx.NewTxInput(hexHash(s), uint16(s.Draw(1<<16)), uint(3000000+s.Draw(1<<30))))
		sh.outs = append(sh.outs, tx.NewTxOutput(sh.addrs[i%na], uint(1000000+s.Draw(1<<20))))
	}
	sh.entropy = s.Bytes(32)
	sh.file = filepath.Join(scratchDir, "protocol.json")
	os.MkdirAll(scratchDir, 0755)
	os.WriteFile(sh.file, []byte(`{"txFeePerByte":44,"txFeeFixed":155381,"maxTxSize":16384,"minUTxOValue":1000000,"protocolVersion":{"major":6,"minor":0}}`), 0644)
	if s.Pct(35) {
		// finished transactions; building them here warms up the library
		for i := 0; i < 2; i++ {
			b := tx.NewTxBuilder(sh.pr, sh.keys[:1])
			b.AddInputs(sh.ins[:2]...)
			b.AddOutputs(sh.outs[:1+i]...)
			if s.Pct(60) {
				md := drawMetaMap(s, 1)
				b.Tx().Metadata = md.mk()
			}
			t, err := b.Build()
			if err == nil {
				sh.done = append(sh.done, t)
			}
		}
	}
	sh.hook(s)
	sh.bf = node.NewBlockfrostClient("project0", sh.net)
	sh.cli = node.NewCardanoCliNode(sh.net, "/sim/cardano-cli")
	focus := s.Draw(nThreadOps * 2) // half of the runs concentrate on one operation
	nt := 2 + s.Draw(3)
	progs := make([][]step, nt)
	conc := make([][]string, nt)
	for i := range progs {
		n := 1 + s.Draw(5)
		for k := 0; k < n; k++ {
			st := step{op: s.Draw(nThreadOps), a: s.Draw(16), b: s.Draw(16), c: s.Draw(16), d: s.Draw(1 << 20)}
			if focus < nThreadOps && s.Pct(70) {
				st.op = focus
			}
			if st.op == 3 && !s.Pct(10) {
				st.op = 0 // key stretching is slow
			}
			if st.op == 6 && s.Pct(60) {
				m := drawMetaMap(s, 1)
				st.md = &m
			}
			st.msg = s.Bytes(s.Draw(70))
			progs[i] = append(progs[i], st)
		}
		conc[i] = make([]string, n)
	}
	races := engine.RaceErrors()
	for i := range progs {
		i := i
		s.Go(fmt.Sprintf("caller%d", i), func() {
			for k := range progs[i] {
				callStep(sh, &progs[i][k], &conc[i][k])
			}
		})
	}
	s.SetPreempt(s.Pct(75))
	s.OnStuck(func([]string) { s.Violate("C11", "never-returned", "a caller never returned") })
	s.Final(func() {
		s.Note("callers=%d keys=%d addresses=%d focus=%d", nt, nk, na, focus)
		for i := range progs {
			for k := range progs[i] {
				s.Op("%d", progs[i][k].op)
			}
		}
		if d := engine.RaceErrors() - races; d > 0 {
			s.Violate("C11", "data-race", "%d unsynchronised conflicting memory accesses between independent callers", d)
		}
		for i := range progs {
			for k := range progs[i] {
				var alone string
				callStep(sh, &progs[i][k], &alone)
				if !same(&conc[i][k], &alone) {
					s.Violate("C11", fmt.Sprintf("result-differs/%d", progs[i][k].op), "a call returned %q next to other callers, %q alone", trunc(conc[i][k]), trunc(alone))
				}
				if strings.HasPrefix(alone, "panic") {
					s.Violate("C11", "panic", "%s", trunc(alone))
				}
			}
		}
		unhookThreads()
	})
}

func trunc(s string) string {
	if len(s) > 250 {
		return s[:250] + "..."
	}
	return s
}

//go:norace
func same(a, b *string) bool {
	if len(*a) != len(*b) {
		return false
	}
	for i := 0; i < len(*a); i++ {
		if (*a)[i] != (*b)[i] {
			return false
		}
	}
	return true
}

// callStep makes one call and writes down everything observable about it.
func callStep(sh *shared, st *step, out *string) {
	res := "unfinished"
	defer func() {
		if r := recover(); r != nil {
			if engine.IsControl(r) {
				panic(r)
			}
			res = fmt.Sprintf("panic: %v", r)
		}
		*out = res
	}()
	key := sh.keys[st.a%len(sh.keys)]
	ai := st.b % len(sh.addrs)
	ad := sh.addrs[ai]
	switch st.op {
	case 0:
		ix := uint32(st.d)
		if st.c%2 == 0 {
			ix += 1 << 31
		}
		res = fmt.Sprintf("%x", []byte(key.Derive(ix)))
	case 1:
		p := key.Public()
		h := p.PublicKey().Hash()
		res = fmt.Sprintf("%x %x %x", []byte(p), h[:], []byte(p.ChainCode()))
	case 2:
		sig := key.Sign(st.msg)
		res = fmt.Sprintf("%x", sig[:])
	case 3:
		res = fmt.Sprintf("%x", []byte(bip32.FromBip39Entropy(sh.entropy, st.msg)))
	case 4:
		a, err := address.NewAddress(sh.texts[ai])
		res = describe(a, err)
	case 5:
		res = describe(ad, nil)
	case 6:
		b := tx.NewTxBuilder(sh.pr, sh.keys[:st.a%(len(sh.keys)+1)])
		n := 1 + st.b%len(sh.ins)
		b.AddInputs(sh.ins[:n]...)
		b.AddOutputs(sh.outs[:1+st.c%2]...)
		b.SetTTL(uint32(st.d))
		if st.md != nil {
			b.Tx().Metadata = st.md.mk()
		}
		mf := b.MinFee()
		b.AddChangeIfNeeded(ad)
		if st.c%3 == 0 {
			b.Sign(key)
		}
		t, err := b.Build()
		raw, err2 := t.Bytes()
		h, err3 := t.Hash()
		hx, err4 := t.Hex()
		res = fmt.Sprintf("%d %x %x %v %v %v %v %v", mf, raw, h[:], hx == hex.EncodeToString(raw), err, err2, err3, err4)
	case 7:
		if len(sh.done) == 0 {
			res = "none"
			return
		}
		t := sh.done[st.a%len(sh.done)]
		raw, err := t.Bytes()
		h, err2 := t.Hash()
		f, err3 := t.Fee(sh.lfee)
		bb, err4 := t.Body.Bytes()
		res = fmt.Sprintf("%x %x %d %x %v %v %v %v", raw, h[:], f, bb, err, err2, err3, err4)
	case 8:
		p, err := protocol.LoadProtocol(sh.file)
		res = fmt.Sprintf("%+v %v", *p, err)
	case 9:
		t := []byte(sh.texts[ai])
		t[st.d%len(t)] = soup[st.c]
		a, err := address.NewAddress(string(t))
		if err != nil {
			res = "error: " + err.Error()
		} else {
			res = describe(a, err)
		}
	case 10:
		c1, c2 := sh.creds[st.a%3], sh.creds[st.b%3]
		base := address.NewBaseAddress(sh.net, c1, c2)
		res = describe(base, nil) + describe(base.ToEnterprise(), nil) + describe(base.ToReward(), nil)
	case 11:
		a, err := address.NewAddressFromBytes(sh.raws[ai])
		res = describe(a, err)
		a, err = address.NewAddressFromHex(hex.EncodeToString(sh.raws[ai]))
		res += describe(a, err)
	case 12:
		h1, h2 := crypto.Blake2b224(st.msg), crypto.Blake2b256(st.msg)
		x := address.VariableNatEncode(uint64(st.d))
		v, n, err := address.VariableNatDecode(x)
		res = fmt.Sprintf("%x %x %x %d %d %v", h1[:], h2[:], x, v, n, err)
	case 13:
		nd := sh.bf
		if st.d%5 == 0 {
			nd = node.NewBlockfrostClient(fmt.Sprint("project", st.a), sh.net)
		}
		res = callNode(sh, nd, st)
	case 14:
		nd := sh.cli
		if st.d%5 == 0 {
			nd = node.NewCardanoCliNode(sh.net)
		}
		res = callNode(sh, nd, st)
	default:
		k := key.Derive(1<<31 + 1852).Derive(uint32(st.d % 4))
		h := k.Public().PublicKey().Hash()
		e := address.NewEnterpriseAddress(sh.net, address.NewKeyStakeCredential(h[:]))
		sig := k.Sign(st.msg)
		res = fmt.Sprintf("%s %x", e.String(), sig[:])
	}
}

func describe(a address.Address, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	c, cerr := a.MarshalCBOR()
	ni := a.NetworkInfo()
	return fmt.Sprintf("%T %s %x %x %v %d/%d;", a, a.String(), a.Bytes(), c, cerr, ni.NetworkId, ni.ProtocolMagic)
}
