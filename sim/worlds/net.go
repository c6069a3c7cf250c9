package worlds

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/engine"
	"verifsim/ref"
)

// The simulated network and Blockfrost servers.

type exchange struct {
	path     string
	body     []byte
	status   int
	accepted bool
	token    string // the server's stated reason
	intact   bool   // the complete answer of the server was handed to the client
}

// call is one library call on a node in progress.
type call struct {
	kind  string
	start time.Duration
	ex    []*exchange
	addr  string
	v0    int
	dead  bool
}

// peer is what a project id stands for.
type peer struct {
	pid   string
	net   byte
	calls map[int]*call // by task
}

type fate int

const (
	fOK fate = iota
	fDropReq
	fDropRes
	fReset
	fTrunc
	fDup
	fGhost
	f5xx
	f429
	fHTML
	fStall
	fJSONErr
	fOther
	fDenied
	nFates
)

var fateName = [...]string{"ok", "request-lost", "response-lost", "connection-reset-in-body", "body-truncated", "request-duplicated", "request-delivered-late", "proxy-5xx", "rate-limited-429", "html-200", "stalled", "server-500", "foreign-json-200", "denied-4xx"}

type simnet struct {
	s      *engine.Sim
	chains [2]*chain
	peers  []*peer
	used   map[int][]*peer // by task, the nodes it has called
	rate   int
	kinds  []fate
	healed bool
	part   [2]bool
	ghosts int
	nexch  int
	// submitted is told about every transaction a server decided on
	submitted func(c *chain, raw []byte, v *verdict)
	stallers  []chan struct{}
	force     fate // next fate, for targeted faults
	slowbody  bool
	held      *holdings
}

func newNet(s *engine.Sim) *simnet {
	n := &simnet{s: s, held: newHoldings(s), used: map[int][]*peer{}}
	for i := range n.chains {
		n.chains[i] = newChain(s, byte(i))
	}
	n.rate = []int{0, 5, 15, 30, 60}[s.Draw(5)]
	for f := fDropReq; f < nFates; f++ {
		if s.Pct(70) {
			n.kinds = append(n.kinds, f)
		}
	}
	n.slowbody = s.Pct(30)
	http.VerifRoundTrip = func(r *http.Request) (res *http.Response, err error) {
		s.Adopt(func() { res, err = n.roundTrip(r) })
		return
	}
	s.Final(func() { http.VerifRoundTrip = nil })
	return n
}

func opError(op, call string, no syscall.Errno) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 443}, Err: os.NewSyscallError(call, no)}
}

var (
	errReset   = opError("read", "read", syscall.ECONNRESET)
	errRefused = opError("dial", "connect", syscall.ECONNREFUSED)
	errTimeout = &net.OpError{Op: "dial", Net: "tcp", Addr: &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 443}, Err: os.ErrDeadlineExceeded}
)

// lost is how the transport reports an exchange that got no answer.
func (n *simnet) lost() error {
	if n.s.Ending() {
		return errReset
	}
	switch n.s.Draw(8) {
	case 0:
		return io.EOF
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return opError("write", "write", syscall.EPIPE)
	case 3:
		return errTimeout
	case 4:
		return errors.New("http: server closed idle connection")
	case 5:
		return errors.New("http2: server sent GOAWAY and closed the connection")
	}
	return errReset
}

// broken is how the transport reports an answer that broke off.
func (n *simnet) broken() error {
	switch n.s.Draw(4) {
	case 0:
		return io.ErrUnexpectedEOF
	case 1:
		return &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	return errReset
}

func (n *simnet) heal() {
	n.healed = true
	n.part = [2]bool{}
	for _, c := range n.stallers {
		close(c)
	}
	n.stallers = nil
}

// wait passes simulated time unless the caller gives up first.
func (n *simnet) wait(ctx context.Context, d time.Duration) error {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
	case <-ctx.Done():
		n.s.Yield()
		return ctx.Err()
	case <-n.s.Done():
	}
	n.s.Yield()
	return nil
}

// stall blocks until faults stop.
func (n *simnet) stall(ctx context.Context) error {
	ch := make(chan struct{})
	n.stallers = append(n.stallers, ch)
	select {
	case <-ch:
	case <-ctx.Done():
		n.s.Yield()
		return ctx.Err()
	case <-n.s.Done():
	}
	n.s.Yield()
	return n.lost()
}

func (n *simnet) fate() fate {
	if n.healed || len(n.kinds) == 0 {
		return fOK
	}
	if !n.s.Pct(n.rate) {
		return fOK
	}
	return n.kinds[n.s.Draw(len(n.kinds))]
}

type sresp struct {
	status int
	ctype  string
	body   []byte
	ex     exchange
	err    error
}

type chunks struct {
	n    *simnet
	data []byte
	err  error
	slow bool
	// known: the length was announced, so the transport sees the end without another read
	known bool
	held  *holding
}

func (c *chunks) release() {
	if c.held != nil {
		c.held.released = true
	}
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		c.release()
		if c.err != nil {
			return 0, c.err
		}
		return 0, io.EOF
	}
	k := len(c.data)
	if k > len(p) {
		k = len(p)
	}
	if c.slow && !c.n.s.Ending() {
		if m := 1 + c.n.s.Draw(400); m < k {
			k = m
		}
		if c.n.s.Pct(20) {
			c.n.s.Sleep(time.Duration(c.n.s.Draw(500)) * time.Millisecond)
		}
	}
	copy(p, c.data[:k])
	c.data = c.data[k:]
	if len(c.data) == 0 && c.known {
		c.release()
	}
	return k, nil
}

func (c *chunks) Close() error {
	c.release()
	return nil
}

func response(req *http.Request, r *sresp, body io.ReadCloser, clen int64) *http.Response {
	h := http.Header{}
	h.Set("Content-Type", r.ctype)
	return &http.Response{Status: fmt.Sprintf("%d %s", r.status, http.StatusText(r.status)), StatusCode: r.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: body, ContentLength: clen, Request: req}
}

func hostNet(host string) int {
	switch strings.ToLower(host) {
	case "cardano-mainnet.blockfrost.io", "cardano-mainnet.blockfrost.io:443":
		return 1
	case "cardano-testnet.blockfrost.io", "cardano-testnet.blockfrost.io:443":
		return 0
	}
	return -1
}

// peerOf finds the node a request comes from: several may have one project id.
func (n *simnet) peerOf(pid string, net int) (p *peer) {
	for _, q := range n.peers {
		if q.pid != pid {
			continue
		}
		if q.calls[n.s.Owner()] != nil {
			return q
		}
		if p == nil || int(p.net) != net {
			p = q
		}
	}
	return
}

func (n *simnet) uses(task int, p *peer) {
	for _, q := range n.used[task] {
		if q == p {
			return
		}
	}
	n.used[task] = append(n.used[task], p)
}

func (n *simnet) roundTrip(req *http.Request) (*http.Response, error) {
	s := n.s
	if s.Ending() {
		return nil, errReset
	}
	var body []byte
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		body = b
	}
	n.nexch++
	id := n.nexch
	s.Ev("http %d %s %s%s?%s len=%d", id, req.Method, req.URL.Host, req.URL.Path, req.URL.RawQuery, len(body))
	pid := req.Header.Get("project_id")
	p := n.peerOf(pid, hostNet(req.URL.Host))
	if l := n.used[s.Owner()]; len(l) == 1 && l[0].pid != pid {
		s.Violate("C08", "project-id", "request to %s%s carries project id %q, but the node was created with %q", req.URL.Host, req.URL.Path, pid, l[0].pid)
		return nil, errReset
	}
	if p == nil {
		s.Violate("C08", "project-id", "request to %s%s carries project id %q, which no node was created with", req.URL.Host, req.URL.Path, pid)
		return nil, errReset
	}
	if len(req.Header["Project_id"])+len(req.Header["project_id"]) > 1 {
		for _, v := range req.Header["Project_id"] {
			if v != pid {
				s.Violate("C08", "project-id", "request to %s%s carries several project ids", req.URL.Host, req.URL.Path)
			}
		}
	}
	c := p.calls[s.Owner()]
	net := hostNet(req.URL.Host)
	if net != int(p.net) {
		s.Violate("C08", "wrong-network", "a node created for network id %d sent %s %s%s", p.net, req.Method, req.URL.Host, req.URL.Path)
		if net < 0 {
			return nil, errors.New("no such host")
		}
	}
	ctx := req.Context()
	ex := &exchange{path: req.URL.Path, body: body}
	if c != nil {
		c.ex = append(c.ex, ex)
	}
	if n.part[net] && !n.healed {
		s.Fault("partitioned")
		if s.Pct(50) {
			return nil, n.stall(ctx)
		}
		if err := n.wait(ctx, time.Duration(s.Draw(30000))*time.Millisecond); err != nil {
			return nil, err
		}
		return nil, n.lost()
	}
	lat := time.Duration(1+s.Draw(300)) * time.Millisecond
	if !n.healed && s.Pct(10) {
		lat *= 20
		s.Fault("slow-request")
	}
	if err := n.wait(ctx, lat); err != nil {
		return nil, err
	}
	f := n.fate()
	if f != fOK {
		s.Fault(fateName[f])
	}
	deliver := func() *sresp {
		if n.chains[net].down {
			return &sresp{err: errRefused}
		}
		r := n.handle(n.chains[net], p, req.Method, req.URL, req.Header.Get("Content-Type"), body)
		s.Ev("http %d served status %d accepted=%v", id, r.status, r.ex.accepted)
		return r
	}
	var r *sresp
	switch f {
	case fDropReq:
		return nil, n.lost()
	case fStall:
		if s.Pct(50) {
			deliver()
		}
		return nil, n.stall(ctx)
	case fGhost:
		d := time.Duration(1+s.Draw(60000)) * time.Millisecond
		s.Go(fmt.Sprintf("late-%d", id), func() {
			for left := d; left > 0 && !n.healed; left -= 500 * time.Millisecond {
				s.Sleep(500 * time.Millisecond)
			}
			deliver()
		})
		return nil, n.lost()
	case f5xx:
		r = &sresp{status: []int{500, 502, 503, 504}[s.Draw(4)], ctype: "text/html", body: []byte("<html><body><h1>Bad Gateway</h1></body></html>")}
	case f429:
		r = &sresp{status: 429, ctype: "application/json", body: []byte(`{"error":"Project Over Limit","message":"Usage is over limit.","status_code":429}`)}
	case fJSONErr:
		r = &sresp{status: 500, ctype: "application/json", body: []byte(`{"error":"Internal Server Error","message":"An unexpected response was received from the backend.","status_code":500}`)}
	case fDenied:
		// what the service answers when it does not deal with the request at all
		k := s.Draw(6)
		d := []struct {
			code      int
			name, msg string
		}{{403, "Forbidden", "Invalid project token."}, {402, "Project Over Limit", "Usage is over limit."}, {418, "Requested Banned", "IP has been auto-banned for flooding."}, {400, "Bad Request", "Backend did not understand your request."}, {425, "Mempool Full", "Mempool is full, resubmit later."}, {404, "Not Found", "The requested component has not been found."}}[k]
		if d.code == 404 && !strings.HasSuffix(req.URL.Path, "/tx/submit") {
			d.code, d.name = 403, "Forbidden" // an address without history is not found either
		}
		r = &sresp{status: d.code, ctype: "application/json", body: jsonOf(obj{"error": d.name, "message": d.msg, "status_code": d.code})}
		if s.Pct(20) {
			r.ctype, r.body = "text/html", []byte("<html><body><h1>"+d.name+"</h1></body></html>")
		}
	case fHTML:
		r = &sresp{status: 200, ctype: "text/html", body: []byte("<!DOCTYPE html><html><body>Please log in to the network</body></html>")}
	case fOther:
		// a well-formed answer to some other question, as a confused cache or proxy gives it
		o := []string{"null", "{}", `""`, `{"status":"ok"}`, "[null]", "0", `[[]]`, "true"}
		b := []byte(o[s.Draw(len(o))])
		if s.Pct(50) {
			// the right shape around the wrong content
			num := []string{"", "abc", "12a", "1.5", "0x10", "1,000,000"}[s.Draw(6)]
			switch {
			case strings.HasSuffix(req.URL.Path, "/tx/submit"):
				b = jsonOf(hexHash(s)[:64])
			case strings.HasSuffix(req.URL.Path, "/utxos"):
				b = jsonOf([]obj{{"tx_hash": hexHash(s), "output_index": 0, "amount": []obj{{"unit": "lovelace", "quantity": num}}}})
			case strings.HasSuffix(req.URL.Path, "/parameters"):
				b = jsonOf(obj{"epoch": 3, "min_fee_a": 44, "min_fee_b": 155381, "max_tx_size": 16384, "protocol_major_ver": 6, "protocol_minor_ver": 0, "min_utxo": num})
			}
		}
		r = &sresp{status: 200, ctype: "application/json", body: b}
	case fDup:
		r1, r2 := deliver(), (*sresp)(nil)
		if s.Pct(50) {
			n.wait(ctx, time.Duration(s.Draw(2000))*time.Millisecond)
		}
		r2 = deliver()
		if r = r1; s.Pct(50) {
			r = r2
		}
	default:
		r = deliver()
	}
	if r.err != nil {
		return nil, r.err
	}
	if err := n.wait(ctx, time.Duration(1+s.Draw(300))*time.Millisecond); err != nil {
		return nil, err
	}
	if f == fDropRes {
		return nil, n.lost()
	}
	slow := n.slowbody && s.Pct(50)
	ex.status, ex.accepted, ex.token = r.status, r.ex.accepted, r.ex.token
	answer := &chunks{n: n, data: r.body, slow: slow}
	if c != nil && c.kind == "submit" && strings.HasSuffix(req.URL.Path, "/tx/submit") {
		answer.held = n.held.add(fmt.Sprintf("the answer (status %d) to a submission", r.status), nil)
	}
	switch f {
	case fReset:
		answer.data, answer.err = r.body[:n.cut(r.body)], n.broken()
		return response(req, r, answer, int64(len(r.body))), nil
	case fTrunc:
		answer.data = r.body[:n.cut(r.body)]
		return response(req, r, answer, -1), nil
	}
	ex.intact = true
	clen := int64(len(r.body))
	if s.Pct(30) {
		clen = -1
	}
	answer.known = clen >= 0
	return response(req, r, answer, clen), nil
}

// cut chooses where an answer breaks off; it always loses something.
func (n *simnet) cut(b []byte) int {
	switch n.s.Draw(4) {
	case 0:
		return 0
	case 1:
		return len(b) - 1
	}
	return n.s.Draw(len(b))
}

func jsonOf(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

type obj map[string]interface{}

// detail is the rest of a rejection: the real ones name every input and can be long.
func (n *simnet) detail() string {
	if !n.s.Pct(20) {
		return ""
	}
	return strings.Repeat("ValueNotConservedUTxO (Value 0 (fromList [])) ", 20+n.s.Draw(100))
}

func fail(status int, name, msg string) *sresp {
	return &sresp{status: status, ctype: "application/json", body: jsonOf(obj{"error": name, "message": msg, "status_code": status}), ex: exchange{token: msg}}
}

// handle is the Blockfrost server.
func (n *simnet) handle(c *chain, p *peer, method string, u *url.URL, ctype string, body []byte) *sresp {
	s := n.s
	ok := func(v interface{}) *sresp {
		return &sresp{status: 200, ctype: "application/json", body: jsonOf(v)}
	}
	if p.net != c.net {
		return fail(403, "Forbidden", "Network token mismatch.")
	}
	path := strings.TrimPrefix(u.Path, "/api/v0")
	if path == u.Path {
		return fail(404, "Not Found", "The requested component has not been found.")
	}
	part := strings.Split(strings.Trim(path, "/"), "/")
	switch {
	case method == "GET" && path == "/blocks/latest":
		t := c.tip()
		return ok(obj{"time": 1600000000 + t.slot, "height": t.height, "hash": fmt.Sprintf("%064x", t.height), "slot": t.slot, "epoch": t.epoch, "epoch_slot": t.slot % 432000, "slot_leader": "pool1x", "size": 3, "tx_count": 1, "output": "1", "fees": "2", "block_vrf": "vrf_vk1x", "previous_block": fmt.Sprintf("%064x", t.height-1), "next_block": nil, "confirmations": 0})
	case method == "GET" && path == "/epochs/latest/parameters":
		q := c.par()
		return ok(obj{"epoch": c.tip().epoch, "min_fee_a": q.a, "min_fee_b": q.b, "max_block_size": 65536, "max_tx_size": q.max, "max_block_header_size": 1100, "key_deposit": "2000000", "pool_deposit": "500000000", "e_max": 18, "n_opt": 150, "a0": 0.3, "rho": 0.003, "tau": 0.2, "decentralisation_param": 0.5, "extra_entropy": nil, "protocol_major_ver": q.major, "protocol_minor_ver": q.minor, "min_utxo": fmt.Sprint(q.minU), "min_pool_cost": "340000000", "nonce": "00"})
	case method == "GET" && len(part) == 3 && part[0] == "addresses" && part[2] == "utxos":
		a, err := ref.ReadText(part[1])
		if err != nil || a.Kind != "byron" && a.Net != c.net {
			return fail(400, "Bad Request", "Invalid address for this network or malformed address format.")
		}
		raw := string(a.Raw)
		if !c.seen[raw] {
			return fail(404, "Not Found", "The requested component has not been found.")
		}
		count, page := 100, 1
		if v := u.Query().Get("count"); v != "" {
			count, err = strconv.Atoi(v)
			if err != nil || count < 1 || count > 100 {
				return fail(400, "Bad Request", "querystring/count should be <= 100")
			}
		}
		if v := u.Query().Get("page"); v != "" {
			page, err = strconv.Atoi(v)
			if err != nil || page < 1 {
				return fail(400, "Bad Request", "querystring/page should be >= 1")
			}
		}
		l := append([]*utxo(nil), c.order[raw]...)
		if u.Query().Get("order") == "desc" {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		res := []obj{}
		for i := (page - 1) * count; i < page*count && i < len(l); i++ {
			x := l[i]
			am := []obj{{"unit": "lovelace", "quantity": fmt.Sprint(x.amt)}}
			for k, as := range x.assets {
				e := obj{"unit": as.unit, "quantity": fmt.Sprint(as.qty)}
				if k == 0 && x.amt%5 == 0 {
					am = append([]obj{e}, am...)
				} else {
					am = append(am, e)
				}
			}
			res = append(res, obj{"tx_hash": x.in.hash, "tx_index": x.in.ix, "output_index": x.in.ix, "amount": am, "block": strings.Repeat("0", 64), "data_hash": nil})
		}
		return ok(res)
	case method == "POST" && path == "/tx/submit":
		if ctype != "application/cbor" {
			return fail(415, "Unsupported Media Type", "Unsupported Media Type "+n.token())
		}
		v := c.judge(body)
		if v.ok {
			c.pool = append(c.pool, &ltx{t: v.tx})
			s.Ev("net%d accepted %s", c.net, v.tx.ID)
		} else {
			s.Ev("net%d rejected: %s", c.net, v.msg)
		}
		s.Probe("ledger-" + map[bool]string{true: "accepted", false: "rejected-" + v.class}[v.ok])
		if n.submitted != nil {
			n.submitted(c, body, &v)
		}
		if v.ok {
			r := ok(v.tx.ID)
			r.ex.accepted = true
			return r
		}
		return fail(400, "Bad Request", "transaction submit error ShelleyTxValidationError (UtxowFailure ("+v.msg+")) "+n.detail()+n.token())
	}
	return fail(404, "Not Found", "The requested component has not been found.")
}

func (n *simnet) token() string { return "ref" + hex.EncodeToString(n.s.Bytes(8)) }
