package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	"github.com/tendermint/tendermint/crypto"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	tmcenc "github.com/tendermint/tendermint/crypto/encoding"
	tmsecp "github.com/tendermint/tendermint/crypto/secp256k1"
	tmService "github.com/tendermint/tendermint/libs/service"
	pvproto "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

func init() { registry["C15"] = propC15 }

func propC15() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C15",
		Rule: "protocol: 1..3 sentries served at once by StartRemoteSigners over one guard around a recording validator (drawn results: success, timestamp changed, plain error, watermark error), each sentry running its own drawn " +
			"script of pings, public-key, vote and proposal requests with drawn field values, pipelined and byte-wise writes, missing/invalid votes and proposals, unknown and response-typed messages, " +
			"oversized and garbage frames, disconnects in the middle of frames or before reading the answer, resets while a request is being signed, aborted handshakes. Oracle: each well-formed request is answered exactly once, in order, by a response of its kind equal to what " +
			"the validator returned for this very request, or an in-band error; the signer is asked exactly once; after anything invalid or a disconnect a ping on the same or the next connection is answered. " +
			"ring: the same script shape over a real threshold validator, signatures verified. Non-trivial: at least one sign request answered and one invalid message, pipelining or disconnect. Distinct by choices.",
		Setup: func(e *pbt.Env) { initStores(e, 24) },
		Parts: []pbt.Part{
			{Name: "protocol", Fn: c15Protocol, Quick: 2500, Thorough: 60000, Workers: 64, QuickSecs: 25, ThoroughSecs: 900, Timeout: 200 * time.Second},
			{Name: "ring", Fn: c15Ring, Quick: 160, Thorough: 4000, Workers: 24, QuickSecs: 20, ThoroughSecs: 600, Timeout: 200 * time.Second},
		}}
}

// recVal is a validator with scripted results that records what it is asked.
type recVal struct {
	mu    sync.Mutex
	key   crypto.PrivKey
	pubEr bool
	// plan by height: heights are unique per request
	plan  map[int64]int
	asked map[int64]int
	chain map[int64]string
	inner int
	both  bool
	nap   time.Duration // how long a signing call takes
	slow  map[int64]bool
}

const (
	rvOK = iota
	rvTime
	rvErr
	rvBeyond
	rvEmptyErr
)

var rvShift = 1234567 * time.Nanosecond

func (v *recVal) GetPubKey() (crypto.PubKey, error) {
	if v.pubEr {
		return nil, errors.New("no key")
	}
	return v.key.PubKey(), nil
}

func (v *recVal) enter(chain string, h int64) int {
	v.mu.Lock()
	v.asked[h]++
	v.chain[h] = chain
	v.inner++
	if v.inner > 1 {
		v.both = true
	}
	p := v.plan[h]
	nap := v.nap
	if v.slow[h] {
		nap = 40 * time.Millisecond
	}
	v.mu.Unlock()
	time.Sleep(nap)
	return p
}

func (v *recVal) leave() {
	v.mu.Lock()
	v.inner--
	v.mu.Unlock()
}

func (v *recVal) result(p int) error {
	switch p {
	case rvErr:
		return errors.New("injected: cannot sign")
	case rvBeyond:
		return &signer.BeyondBlockError{}
	case rvEmptyErr:
		return errors.New("")
	}
	return nil
}

func (v *recVal) SignVote(chain string, vote *tmproto.Vote) error {
	p := v.enter(chain, vote.Height)
	defer v.leave()
	if p == rvTime {
		vote.Timestamp = vote.Timestamp.Add(rvShift)
	}
	sb := tm.VoteSignBytes(chain, vote)
	if err := v.result(p); err != nil {
		return err
	}
	sig, err := v.key.Sign(sb)
	pbt.Must(err)
	vote.Signature = sig
	return nil
}

func (v *recVal) SignProposal(chain string, pr *tmproto.Proposal) error {
	p := v.enter(chain, pr.Height)
	defer v.leave()
	if p == rvTime {
		pr.Timestamp = pr.Timestamp.Add(rvShift)
	}
	sb := tm.ProposalSignBytes(chain, pr)
	if err := v.result(p); err != nil {
		return err
	}
	sig, err := v.key.Sign(sb)
	pbt.Must(err)
	pr.Signature = sig
	return nil
}

// c15Op is one step of a sentry's script.
type c15Op struct {
	kind   string // send, invalid, odd, bad, cut, drop, abort
	frames []c15Req
	raw    []byte
	chunk  int
	note   string
	unread bool // drop the connection without reading
}

type c15Req struct {
	msg      *pvproto.Message
	vote     *tmproto.Vote
	proposal *tmproto.Proposal
	invalid  bool // must be answered with an error, without asking the validator
	plan     int
}

func (r c15Req) height() int64 {
	switch {
	case r.vote != nil:
		return r.vote.Height
	case r.proposal != nil:
		return r.proposal.Height
	}
	return 0
}

func (r c15Req) kind() string {
	switch {
	case r.vote != nil:
		return "vote"
	case r.proposal != nil:
		return "proposal"
	}
	switch r.msg.Sum.(type) {
	case *pvproto.Message_SignVoteRequest:
		return "vote"
	case *pvproto.Message_SignProposalRequest:
		return "proposal"
	case *pvproto.Message_PubKeyRequest:
		return "pubkey"
	}
	return "ping"
}

type c15 struct {
	t      *pbt.T
	v      *recVal
	height int64
	chain  string
}

// wild draws a vote's or proposal's free fields.
func (c *c15) blockID(valid bool) tmproto.BlockID {
	t := c.t
	if !valid {
		switch t.Intn(4) {
		case 0:
			return tmproto.BlockID{Hash: t.Bytes(1 + t.Intn(31)), PartSetHeader: tmproto.PartSetHeader{Total: 1, Hash: t.Bytes(32)}}
		case 1:
			return tmproto.BlockID{Hash: t.Bytes(32), PartSetHeader: tmproto.PartSetHeader{Total: 1, Hash: t.Bytes(33 + t.Intn(40))}}
		case 2:
			return tmproto.BlockID{Hash: t.Bytes(64)}
		}
		return tmproto.BlockID{PartSetHeader: tmproto.PartSetHeader{Total: 5, Hash: t.Bytes(1)}}
	}
	switch t.Weighted(3, 5, 1, 1) {
	case 0:
		return tmproto.BlockID{}
	case 1:
		return tmproto.BlockID{Hash: t.Bytes(32), PartSetHeader: tmproto.PartSetHeader{Total: uint32(1 + t.Intn(4)), Hash: t.Bytes(32)}}
	case 2:
		return tmproto.BlockID{Hash: t.Bytes(32), PartSetHeader: tmproto.PartSetHeader{Total: uint32(t.U64())}}
	}
	return tmproto.BlockID{PartSetHeader: tmproto.PartSetHeader{Total: math.MaxUint32, Hash: t.Bytes(32)}}
}

func (c *c15) time() time.Time {
	t := c.t
	switch t.Weighted(5, 1, 1, 1) {
	case 0:
		return time.Unix(1640995200+int64(t.Intn(1000)), int64(t.Intn(1e9))).UTC()
	case 1:
		return time.Time{}
	case 2:
		return time.Date(9990, 1, 1, 0, 0, 0, 999999999, time.UTC)
	}
	return time.Unix(0, 0).UTC()
}

func (c *c15) round() int32 {
	if c.t.Chance(1, 6) {
		return []int32{math.MaxInt32, math.MinInt32, -1}[c.t.Intn(3)]
	}
	return int32(c.t.Intn(3))
}

// heights are unique, so that the validator's record identifies requests
func (c *c15) nextHeight() int64 {
	c.height++
	switch c.t.Weighted(6, 1, 1) {
	case 1:
		return math.MaxInt64 - c.height
	case 2:
		return -c.height
	}
	return c.height
}

func (c *c15) request() c15Req {
	t := c.t
	switch t.Weighted(5, 3, 1, 1, 2) {
	case 0:
		v := &tmproto.Vote{Type: []tmproto.SignedMsgType{tmproto.PrevoteType, tmproto.PrecommitType}[t.Intn(2)], Height: c.nextHeight(), Round: c.round(), BlockID: c.blockID(true), Timestamp: c.time(),
			ValidatorAddress: t.Bytes(20 * t.Intn(2)), ValidatorIndex: c.round()}
		if t.Chance(1, 8) {
			v.Signature = t.Bytes(64)
		}
		return c15Req{msg: voteReq(v, c.reqChain()), vote: v, plan: c.plan(v.Height)}
	case 1:
		p := &tmproto.Proposal{Type: tmproto.ProposalType, Height: c.nextHeight(), Round: c.round(), PolRound: c.round(), BlockID: c.blockID(true), Timestamp: c.time()}
		return c15Req{msg: proposalReq(p, c.reqChain()), proposal: p, plan: c.plan(p.Height)}
	case 2:
		return c15Req{msg: pubKeyReq(c.reqChain())}
	case 3:
		return c15Req{msg: pingReq()}
	}
	return c.invalidReq()
}

func (c *c15) reqChain() string {
	if c.t.Chance(1, 4) {
		if c.t.Chance(1, 4) { // the largest requests that fit in several packets of the connection
			return string(bytes.Repeat([]byte{'c'}, 50+c.t.Intn(9000)))
		}
		return []string{"", "other-chain", "日本"}[c.t.Intn(3)]
	}
	return c.chain
}

func (c *c15) plan(h int64) int {
	p := c.t.Weighted(6, 2, 1, 1, 1)
	c.v.plan[h] = p
	return p
}

// invalidReq is a request that can only be answered with an error.
func (c *c15) invalidReq() c15Req {
	t := c.t
	switch t.Intn(5) {
	case 0:
		return c15Req{msg: voteReq(nil, c.chain), invalid: true}
	case 1:
		return c15Req{msg: proposalReq(nil, c.chain), invalid: true}
	case 2:
		v := &tmproto.Vote{Type: []tmproto.SignedMsgType{tmproto.UnknownType, tmproto.ProposalType, 3, 99, -1}[t.Intn(5)], Height: c.nextHeight(), BlockID: c.blockID(true), Timestamp: c.time()}
		return c15Req{msg: voteReq(v, c.chain), vote: v, invalid: true}
	case 3:
		v := &tmproto.Vote{Type: tmproto.PrevoteType, Height: c.nextHeight(), BlockID: c.blockID(false), Timestamp: c.time()}
		return c15Req{msg: voteReq(v, c.chain), vote: v, invalid: true}
	}
	p := &tmproto.Proposal{Type: tmproto.ProposalType, Height: c.nextHeight(), BlockID: c.blockID(false), Timestamp: c.time()}
	return c15Req{msg: proposalReq(p, c.chain), proposal: p, invalid: true}
}

// odd is a well-formed message that is not a request, or a request with nothing in it.
func (c *c15) odd() (*pvproto.Message, string) {
	t := c.t
	switch t.Intn(6) {
	case 0:
		return &pvproto.Message{}, "empty message"
	case 1:
		return &pvproto.Message{Sum: &pvproto.Message_PubKeyResponse{PubKeyResponse: &pvproto.PubKeyResponse{}}}, "pubkey response"
	case 2:
		return &pvproto.Message{Sum: &pvproto.Message_SignedVoteResponse{SignedVoteResponse: &pvproto.SignedVoteResponse{}}}, "vote response"
	case 3:
		return &pvproto.Message{Sum: &pvproto.Message_SignedProposalResponse{SignedProposalResponse: &pvproto.SignedProposalResponse{}}}, "proposal response"
	case 4:
		return &pvproto.Message{Sum: &pvproto.Message_PingResponse{PingResponse: &pvproto.PingResponse{}}}, "ping response"
	}
	return &pvproto.Message{Sum: &pvproto.Message_SignedVoteResponse{SignedVoteResponse: &pvproto.SignedVoteResponse{Error: &pvproto.RemoteSignerError{Code: 3, Description: "x"}}}}, "error response"
}

// bad is a frame that does not decode.
func (c *c15) bad() ([]byte, string) {
	t := c.t
	switch t.Intn(7) {
	case 0:
		return bytes.Repeat([]byte{0xff}, 12), "overlong varint"
	case 1:
		return append([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, 1, 2, 3), "huge length"
	case 2:
		return delimit(bytes.Repeat([]byte{7}, 10241+t.Intn(3000))), "oversized frame"
	case 3:
		return append([]byte{0x0a}, bytes.Repeat([]byte{0xff}, 10)...), "garbage frame"
	case 4: // wrong wire types
		return delimit([]byte{0x18, 0x01, 0x20, 0x05}), "wrong wire type"
	case 5: // a vote whose time is out of range
		v := append([]byte{0x2a, 0x0c, 0x08}, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f, 0x10, 0x01)
		inner := append([]byte{0x0a, byte(len(v))}, v...)
		return delimit(append([]byte{0x1a, byte(len(inner))}, inner...)), "time out of range"
	}
	return delimit(t.Bytes(1 + t.Intn(60))), "random frame"
}

func (c *c15) script(n int) []c15Op {
	t := c.t
	var ops []c15Op
	for i := 0; i < n; i++ {
		switch t.Weighted(10, 3, 2, 2, 1, 1, 1, 1) {
		case 0:
			ops = append(ops, c15Op{kind: "send", frames: []c15Req{c.request()}})
		case 1:
			o := c15Op{kind: "send", note: "pipelined"}
			for k := t.Range(2, 6); k > 0; k-- {
				o.frames = append(o.frames, c.request())
			}
			if t.Chance(1, 3) {
				o.chunk = 1 + t.Intn(20)
			}
			ops = append(ops, o)
		case 2:
			m, note := c.odd()
			ops = append(ops, c15Op{kind: "odd", raw: frame(m), note: note})
		case 3:
			b, note := c.bad()
			ops = append(ops, c15Op{kind: "bad", raw: b, note: note})
		case 4: // a part of a frame, then the connection ends
			f := frame(c.request().msg)
			ops = append(ops, c15Op{kind: "cut", raw: f[:t.Intn(len(f))]})
		case 5:
			r := c.request()
			ops = append(ops, c15Op{kind: "drop", frames: []c15Req{r}, unread: t.Bool()})
		case 7: // the connection is reset while the request is being signed
			r := c.request()
			if r.vote != nil && !r.invalid {
				c.v.slow[r.vote.Height] = true
			} else if r.proposal != nil && !r.invalid {
				c.v.slow[r.proposal.Height] = true
			}
			ops = append(ops, c15Op{kind: "reset", frames: []c15Req{r}, unread: t.Bool()})
		case 6:
			if t.Chance(1, 3) {
				ops = append(ops, c15Op{kind: "abort", raw: t.Bytes(t.Intn(80))})
			} else {
				ops = append(ops, c15Op{kind: "cut"})
			}
		}
	}
	return ops
}

const c15Wait = 40 * time.Second

func c15Protocol(t *pbt.T) {
	v := &recVal{key: tmed.GenPrivKeyFromSecret(t.Bytes(8)), plan: map[int64]int{}, asked: map[int64]int{}, chain: map[int64]string{}, slow: map[int64]bool{}}
	if t.Chance(1, 10) {
		v.pubEr = true
	} else if t.Chance(1, 10) {
		v.key = tmsecp.GenPrivKeySecp256k1(t.Bytes(8))
	}
	c := &c15{t: t, v: v, chain: chains[t.Intn(len(chains))]}
	n := t.Range(1, 3)
	var ss []*sentry
	var scripts [][]c15Op
	var nodes []signer.NodeConfig
	for i := 0; i < n; i++ {
		s := newSentry(t)
		ss = append(ss, s)
		nodes = append(nodes, signer.NodeConfig{Address: s.addr})
		scripts = append(scripts, c.script(t.Range(2, 9)))
	}
	svc, err := signer.StartRemoteSigners(nil, nopLogger{}, c.chain, &signer.PvGuard{PrivValidator: v}, nodes)
	if err != nil || len(svc) != n {
		t.Fatalf("starting %d remote signers: %d, %v", n, len(svc), err)
	}
	t.Defer(func() { stopAll(svc) })
	errs := make([]error, n)
	live := make([]bool, n)
	signs, odd := 0, 0
	for i, ops := range scripts {
		for _, o := range ops {
			t.Logf("sentry %d: %s %s %s chunk %d", i, o.kind, o.note, c15Names(o.frames), o.chunk)
			t.Label(o.kind + " " + o.note)
			for _, r := range o.frames {
				if !r.invalid && (r.vote != nil || r.proposal != nil) {
					signs++
				} else if r.invalid {
					odd++
				}
			}
			if o.kind != "send" || len(o.frames) > 1 {
				odd++
			}
		}
	}
	var g pbt.Group
	for i := range scripts {
		i := i
		g.Go(func() { errs[i], live[i] = c.run(ss[i], scripts[i]) })
	}
	g.Wait()
	for i, e := range errs {
		if e != nil {
			if live[i] {
				t.FatalfLive("sentry %d: %v", i, e)
			}
			t.Fatalf("sentry %d: %v", i, e)
		}
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.both {
		t.Fatalf("two signing calls are in progress at the same time behind one guard")
	}
	for h, k := range v.asked {
		if k > 1 {
			t.Fatalf("the validator is asked %d times to sign the request with height %d", k, h)
		}
		if v.chain[h] != c.chain {
			t.Fatalf("a request is signed for chain %q instead of %q", v.chain[h], c.chain)
		}
	}
	if signs > 0 && odd > 0 {
		t.NonTrivial("")
	}
}

func stopAll(svc []tmService.Service) {
	for _, s := range svc {
		_ = s.Stop()
	}
}

func c15Names(rs []c15Req) string {
	s := ""
	for _, r := range rs {
		s += " " + r.kind()
		if r.invalid {
			s += "(invalid)"
		} else if r.plan != 0 {
			s += fmt.Sprintf("(result %d)", r.plan)
		}
	}
	return s
}

// run plays one sentry; the second result tells a failure that depends on timing.
func (c *c15) run(s *sentry, ops []c15Op) (error, bool) {
	var cn *sconn
	reconnect := func(why string) error {
		if cn != nil {
			cn.close()
		}
		var err error
		if cn, err = s.accept(c15Wait); err != nil {
			return fmt.Errorf("after %s: %v", why, err)
		}
		return nil
	}
	if err := reconnect("start"); err != nil {
		return err, true
	}
	for k, o := range ops {
		var err error
		live := false
		switch o.kind {
		case "send":
			err, live = c.exchange(cn, o)
		case "odd", "bad":
			_ = cn.write(o.raw) // may fail when the signer gives up in the middle of it
			// whatever comes back, it must not be a result; then a ping is answered, here or on the next connection
			if _, e := c.settle(cn, s, &cn, o.note); e != nil {
				return fmt.Errorf("step %d: %v", k, e), true
			}
		case "cut":
			if len(o.raw) > 0 {
				_ = cn.write(o.raw)
			}
			if err := reconnect("a disconnect within a frame"); err != nil {
				return err, true
			}
			err, live = c.exchange(cn, c15Op{kind: "send", frames: []c15Req{{msg: pingReq()}}})
		case "drop":
			_ = cn.write(frame(o.frames[0].msg))
			if !o.unread {
				_, _ = cn.recv(c15Wait)
			}
			if err := reconnect("a disconnect"); err != nil {
				return err, true
			}
			err, live = c.exchange(cn, c15Op{kind: "send", frames: []c15Req{{msg: pingReq()}}})
		case "reset":
			r := o.frames[0]
			_ = cn.write(frame(r.msg))
			if h := r.height(); h != 0 && !r.invalid && o.unread {
				pbt.WaitUntil(c15Wait, func() bool {
					c.v.mu.Lock()
					defer c.v.mu.Unlock()
					return c.v.asked[h] > 0
				})
			}
			cn.reset()
			if err := reconnect("a reset connection"); err != nil {
				return err, true
			}
			err, live = c.exchange(cn, c15Op{kind: "send", frames: []c15Req{{msg: pingReq()}}})
		case "abort":
			cn.close()
			raw, e := s.acceptRaw(c15Wait)
			if e != nil {
				return fmt.Errorf("step %d: after a disconnect: %v", k, e), true
			}
			_, _ = raw.Write(o.raw)
			raw.Close()
			if err := reconnect("an aborted handshake"); err != nil {
				return err, true
			}
			err, live = c.exchange(cn, c15Op{kind: "send", frames: []c15Req{{msg: pingReq()}}})
		}
		if err != nil {
			return fmt.Errorf("step %d: %v", k, err), live
		}
	}
	// nothing may come unasked
	m, err := cn.recv(15 * time.Millisecond)
	if m != nil {
		return fmt.Errorf("an additional %s comes unasked", kindOf(m)), false
	}
	if err != nil {
		return fmt.Errorf("the connection is lost without a reason: %v", err), true
	}
	cn.close()
	return nil, false
}

// settle follows an odd or undecodable message.
func (c *c15) settle(cn *sconn, s *sentry, cur **sconn, note string) (bool, error) {
	if cn.write(frame(pingReq())) == nil {
		for i := 0; i < 2; i++ {
			m, err := cn.recv(c15Wait)
			if err != nil {
				break
			}
			if m == nil {
				return false, fmt.Errorf("no answer and no disconnect after %s", note)
			}
			switch r := m.Sum.(type) {
			case *pvproto.Message_PingResponse:
				return true, nil
			case *pvproto.Message_SignedVoteResponse:
				if r.SignedVoteResponse.Error == nil {
					return false, fmt.Errorf("%s is answered with a signed vote", note)
				}
			case *pvproto.Message_SignedProposalResponse:
				if r.SignedProposalResponse.Error == nil {
					return false, fmt.Errorf("%s is answered with a signed proposal", note)
				}
			}
			if i == 1 {
				return false, fmt.Errorf("a ping after %s is answered with a %s", note, kindOf(m))
			}
		}
	}
	cn.close()
	n, err := s.accept(c15Wait)
	if err != nil {
		return false, fmt.Errorf("after %s: %v", note, err)
	}
	*cur = n
	err, _ = c.exchange(n, c15Op{kind: "send", frames: []c15Req{{msg: pingReq()}}})
	return false, err
}

// exchange writes requests and checks the answers.
func (c *c15) exchange(cn *sconn, o c15Op) (error, bool) {
	var b []byte
	for _, r := range o.frames {
		b = append(b, frame(r.msg)...)
	}
	if o.chunk == 0 {
		if err := cn.write(b); err != nil {
			return fmt.Errorf("the connection is lost without a reason: %v", err), true
		}
	} else {
		for i := 0; i < len(b); i += o.chunk {
			e := i + o.chunk
			if e > len(b) {
				e = len(b)
			}
			if err := cn.write(b[i:e]); err != nil {
				return fmt.Errorf("the connection is lost without a reason: %v", err), true
			}
		}
	}
	for _, r := range o.frames {
		m, err := cn.recv(c15Wait)
		if err != nil {
			return fmt.Errorf("a %s request (invalid: %v) is not answered, the connection is lost: %v", r.kind(), r.invalid, err), true
		}
		if m == nil {
			return fmt.Errorf("a %s request (invalid: %v) is not answered within %v", r.kind(), r.invalid, c15Wait), true
		}
		if e := c.judge(r, m); e != nil {
			return e, false
		}
	}
	return nil, false
}

func (c *c15) judge(r c15Req, m *pvproto.Message) error {
	k := r.kind()
	switch x := m.Sum.(type) {
	case *pvproto.Message_PingResponse:
		if k == "ping" {
			return nil
		}
	case *pvproto.Message_PubKeyResponse:
		if k != "pubkey" {
			break
		}
		if c.v.pubEr {
			if x.PubKeyResponse.Error == nil {
				return errors.New("a public-key request is answered without error although the signer has none")
			}
			return nil
		}
		if x.PubKeyResponse.Error != nil {
			return fmt.Errorf("a public-key request is answered with error %v", x.PubKeyResponse.Error)
		}
		pk, err := tmcenc.PubKeyFromProto(x.PubKeyResponse.PubKey)
		if err != nil || !pk.Equals(c.v.key.PubKey()) {
			return fmt.Errorf("a public-key request is answered with %v", x.PubKeyResponse.PubKey)
		}
		return nil
	case *pvproto.Message_SignedVoteResponse:
		if k != "vote" {
			break
		}
		return c.judgeSigned(r, x.SignedVoteResponse.Error, x.SignedVoteResponse.Vote.Signature, func() ([]byte, []byte, []byte) {
			want, got := *r.vote, x.SignedVoteResponse.Vote
			if r.plan == rvTime {
				want.Timestamp = want.Timestamp.Add(rvShift)
			}
			want.Signature = got.Signature
			return mustMarshal(&want), mustMarshal(&got), tm.VoteSignBytes(c.chain, &want)
		})
	case *pvproto.Message_SignedProposalResponse:
		if k != "proposal" {
			break
		}
		return c.judgeSigned(r, x.SignedProposalResponse.Error, x.SignedProposalResponse.Proposal.Signature, func() ([]byte, []byte, []byte) {
			want, got := *r.proposal, x.SignedProposalResponse.Proposal
			if r.plan == rvTime {
				want.Timestamp = want.Timestamp.Add(rvShift)
			}
			want.Signature = got.Signature
			return mustMarshal(&want), mustMarshal(&got), tm.ProposalSignBytes(c.chain, &want)
		})
	}
	return fmt.Errorf("a %s request is answered with a %s", k, kindOf(m))
}

func (c *c15) judgeSigned(r c15Req, e *pvproto.RemoteSignerError, sig []byte, f func() (want, got, sb []byte)) error {
	c.v.mu.Lock()
	asked := c.v.asked[r.height()]
	c.v.mu.Unlock()
	if r.invalid {
		if e == nil {
			return fmt.Errorf("an invalid %s request is answered without error", r.kind())
		}
		return nil
	}
	if r.plan == rvOK || r.plan == rvTime {
		if e != nil {
			return fmt.Errorf("a %s request that was signed is answered with error %v", r.kind(), e)
		}
		want, got, sb := f()
		if !bytes.Equal(want, got) {
			return fmt.Errorf("a %s response is not what the validator returned for the request: %x instead of %x", r.kind(), got, want)
		}
		if !c.v.key.PubKey().VerifySignature(sb, sig) {
			return fmt.Errorf("a %s response carries another signature than the validator's for the request", r.kind())
		}
		if asked != 1 {
			return fmt.Errorf("a %s request is answered after asking the validator %d times", r.kind(), asked)
		}
		return nil
	}
	if e == nil {
		return fmt.Errorf("a %s request that was refused is answered without error", r.kind())
	}
	if len(sig) > 0 {
		return fmt.Errorf("a refused %s request is answered with a signature", r.kind())
	}
	return nil
}

// c15Ring serves sentries with a real threshold validator.
func c15Ring(t *pbt.T) {
	n := t.Range(2, 3)
	ring := NewRing(t, n, t.Range(2, n), nil)
	rig := NewRig(t, ring, []int{1})
	ld := rig.Leaders[0]
	chain := chains[0]
	k := t.Range(1, 3)
	var ss []*sentry
	var nodes []signer.NodeConfig
	for i := 0; i < k; i++ {
		s := newSentry(t)
		ss = append(ss, s)
		nodes = append(nodes, signer.NodeConfig{Address: s.addr})
	}
	svc, err := signer.StartRemoteSigners(nil, nopLogger{}, chain, &signer.PvGuard{PrivValidator: ld.val}, nodes)
	pbt.Must(err)
	t.Defer(func() { stopAll(svc) })
	conns := make([]*sconn, k)
	for i, s := range ss {
		if conns[i], err = s.accept(c15Wait); err != nil {
			t.FatalfLive("sentry %d: %v", i, err)
		}
	}
	g := MsgGen{Base: 5, H: 3, R: 2}.Wide(t)
	var w HRS
	first := map[HRS]Msg{}
	answered, refused := 0, 0
	steps := t.Range(3, 14)
	var last Msg
	for i := 0; i < steps; i++ {
		m := g.Draw(t)
		if t.Chance(1, 3) && last.H > 0 {
			m = g.Mutate(t, last)
		} else if t.Chance(2, 3) && w.H > 0 {
			m.H = w.H + int64(t.Intn(2))
			g.Base = w.H
		}
		last = m
		j := t.Intn(k)
		t.Logf("sentry %d: %s (watermark %v)", j, m, w)
		if err := conns[j].write(frame(drawReq(t, m))); err != nil {
			t.FatalfLive("the connection is lost: %v", err)
		}
		r, err := conns[j].recv(c15Wait)
		if r == nil {
			t.FatalfLive("no answer to %s: %v", m, err)
		}
		a, wrong := answerTo(m, chain, r)
		if wrong != "" {
			t.Fatalf("%s", wrong)
		}
		if a.err != "" {
			refused++
			if m.HRS().Cmp(w) > 0 {
				t.FatalfLive("%s above the watermark %v is refused: %s", m, w, a.err)
			}
			continue
		}
		answered++
		f, ok := first[m.HRS()]
		switch {
		case m.HRS().Cmp(w) > 0:
			if !ring.Pub.VerifySignature(a.sb, a.sig) {
				t.Fatalf("the response to %s carries an invalid signature", m)
			}
			if !a.ts.Equal(m.Time()) {
				t.Fatalf("the response to %s carries another time: %v", m, a.ts)
			}
			w, first[m.HRS()] = m.HRS(), m
		case !ok:
			t.Fatalf("%s is answered with a signature although the watermark is %v", m, w)
		case f.Content() == m.Content() && ring.Pub.VerifySignature(a.sb, a.sig):
		case m.Kind == kProposal && ring.verifies(f, a.sig):
		default:
			t.Fatalf("%s is answered with a signature although %s was signed", m, f)
		}
	}
	if answered > 0 && refused > 0 {
		t.NonTrivial("")
	}
	for _, cn := range conns {
		cn.close()
	}
}
