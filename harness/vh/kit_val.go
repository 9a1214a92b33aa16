package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmlog "github.com/tendermint/tendermint/libs/log"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

// ---------- single-node raft stores that are leaders ----------

var storePool chan *signer.RaftStore

// initStores elects n single-node raft stores in parallel; validators of the cases borrow them.
func initStores(e *pbt.Env, n int) {
	storePool = make(chan *signer.RaftStore, n)
	var g pbt.Group
	for i := 0; i < n; i++ {
		i := i
		g.Go(func() { storePool <- newStore(mkdir(filepath.Join(e.Scratch, fmt.Sprintf("store%d", i))), 2000+i) })
	}
	g.Wait()
}

// newStore opens a raft store with one node, which leads. Its address is in its membership only.
func newStore(dir string, port int) *signer.RaftStore {
	ss, err := signer.LoadOrCreateSignState(filepath.Join(dir, "dummy.json"))
	pbt.Must(err)
	k := rsaKeys()[0]
	lc := signer.NewLocalCosigner(signer.LocalCosignerConfig{
		CosignerKey: signer.CosignerKey{ID: 1, PubKey: dummyPub, RSAKey: *k}, SignState: &ss, RsaKey: *k,
		Peers: []signer.CosignerPeer{{ID: 1, PublicKey: k.PublicKey}}, Total: 1, Threshold: 1})
	s := signer.NewRaftStore("1", dir, fmt.Sprintf("tcp://127.0.0.1:%d", port), time.Second*5, nopLogger{}, lc, nil)
	_, err = s.Open()
	pbt.Must(err)
	if !pbt.WaitUntil(30*time.Second, func() bool { return s.Set("k", "v") == nil }) {
		pbt.Harness("single-node raft store did not become leader")
	}
	return s
}

// isolate gives the leader a second raft member that never answers: it still leads, for about half a
// second, but can announce nothing. False if the raft instance is not reachable from here.
func (l *Leader) isolate() bool {
	x, ok := fieldOf(l.store, reflect.TypeOf((*raft.Raft)(nil)), "")
	if !ok {
		return false
	}
	x.(*raft.Raft).AddVoter("ghost", "127.0.0.1:1", 0, 0)
	return true
}

var errInjected = errors.New("injected failure")

// ---------- peers with faults ----------

// fault modes of one peer during one request
const (
	fNone = iota
	fGetErr
	fGetGarbage
	fSignErr
	fSignLost     // the share is issued but the reply is lost
	fSignGarbage  // the reply carries garbage
	fCrashBefore  // the cosigner restarts before signing
	fCrashAfter   // the cosigner restarts after signing, reply lost
	fGetHang      // no reply until the request is over
	fSignHang     // no reply to the sign call until the request is over
	fSignEmpty    // the reply carries an empty signature
	fSignFlip     // the reply carries the share with a bit flipped
	fPartsMissing // the reply to the nonce request lacks parts
	nFaults
)

var faultNames = []string{"ok", "getErr", "getGarbage", "signErr", "signLost", "signGarbage", "crashBefore", "crashAfter", "getHang", "signHang", "signEmpty", "signFlip", "partsMissing"}

// reqPlan is what happens during one request.
type reqPlan struct {
	first   map[int]bool // peers whose nonce replies come first; the others are held back until these are in
	faults  map[int]int
	delays  map[int][2]time.Duration
	release chan struct{} // closed when the request is over
	need    int           // nonce replies that let the held ones go
	mu      sync.Mutex
	got     int
	gotCh   chan struct{}
	garbage []byte
	inner   inflight
}

func (p *reqPlan) String() string {
	if p == nil {
		return "plan -"
	}
	var sb strings.Builder
	for id := 1; id <= maxN; id++ {
		f, ok := p.faults[id]
		if !ok && !p.first[id] {
			continue
		}
		fmt.Fprintf(&sb, " %d:%s", id, faultNames[f])
		if p.first[id] {
			sb.WriteString("*")
		}
	}
	return "plan" + sb.String()
}

// peerCosigner is the view one leader has of another cosigner.
type peerCosigner struct {
	node *Node
	ld   *Leader
}

func (p *peerCosigner) GetID() int         { return p.node.ID }
func (p *peerCosigner) GetAddress() string { return fmt.Sprintf("tcp://127.0.0.1:%d", p.node.ID) }

func (p *peerCosigner) GetEphemeralSecretParts(hrst signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
	plan := p.ld.current()
	if plan == nil {
		return p.node.get(hrst)
	}
	plan.inner.Add(1)
	defer plan.inner.Done()
	f := plan.faults[p.node.ID]
	if d := plan.delays[p.node.ID][0]; d > 0 {
		time.Sleep(d)
	}
	if f == fGetHang {
		<-plan.release
		return nil, errInjected
	}
	if f == fGetErr {
		return nil, errInjected
	}
	if len(plan.first) > 0 && !plan.first[p.node.ID] && p.node.ID != p.ld.Node.ID {
		select {
		case <-plan.gotCh:
			time.Sleep(3 * time.Millisecond)
		case <-plan.release:
		}
	}
	res, err := p.node.get(hrst)
	if err == nil && f == fGetGarbage {
		for i := range res.EncryptedSecrets {
			switch len(plan.garbage) % 3 {
			case 0:
				res.EncryptedSecrets[i].EncryptedSharePart = append([]byte{}, plan.garbage...)
			case 1:
				res.EncryptedSecrets[i].SourceSig = append([]byte{}, plan.garbage...)
			default:
				res.EncryptedSecrets[i].SourceEphemeralSecretPublicKey = append([]byte{}, plan.garbage...)
			}
		}
	}
	if err == nil && f == fPartsMissing && len(res.EncryptedSecrets) > 0 {
		res.EncryptedSecrets = res.EncryptedSecrets[:len(res.EncryptedSecrets)-1]
	}
	if plan.first[p.node.ID] {
		plan.mu.Lock()
		plan.got++
		if plan.got == plan.need {
			close(plan.gotCh)
		}
		plan.mu.Unlock()
	}
	return res, err
}

func (p *peerCosigner) SetEphemeralSecretPartsAndSign(req signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
	plan := p.ld.current()
	if plan == nil {
		return p.node.sign(req)
	}
	plan.inner.Add(1)
	defer plan.inner.Done()
	if d := plan.delays[p.node.ID][1]; d > 0 {
		time.Sleep(d)
	}
	f := plan.faults[p.node.ID]
	switch f {
	case fSignErr:
		return nil, errInjected
	case fCrashBefore:
		p.node.crash(p.ld.rig.t)
	case fSignHang:
		<-plan.release
		return nil, errInjected
	}
	res, err := p.node.sign(req)
	switch f {
	case fSignLost:
		return nil, errInjected
	case fCrashAfter:
		p.node.crash(p.ld.rig.t)
		return nil, errInjected
	case fSignGarbage:
		return &signer.CosignerSignResponse{EphemeralPublic: plan.garbage, Signature: append([]byte{}, plan.garbage...)}, nil
	case fSignEmpty:
		return &signer.CosignerSignResponse{}, nil
	case fSignFlip:
		if err == nil && len(res.Signature) > 0 {
			c := append([]byte{}, res.Signature...)
			c[len(plan.garbage)%len(c)] ^= 1 << uint(len(plan.garbage)%7)
			return &signer.CosignerSignResponse{EphemeralPublic: res.EphemeralPublic, Signature: c}, nil
		}
	}
	return res, err
}

// get, sign and crash serialize restarts with calls: a crashed process finishes no call.
func (n *Node) get(h signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
	n.rw.RLock()
	defer n.rw.RUnlock()
	return n.LC.GetEphemeralSecretParts(h)
}

func (n *Node) sign(req signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
	n.rw.RLock()
	defer n.rw.RUnlock()
	res, err := n.LC.SetEphemeralSecretPartsAndSign(req)
	if n.OnSign != nil {
		n.OnSign(n, req, res, err)
	}
	return res, err
}

func (n *Node) crash(t *pbt.T) {
	n.rw.Lock()
	defer n.rw.Unlock()
	n.Restart(t)
}

// ---------- leaders ----------

// Rig is a ring with validators acting as leaders.
type Rig struct {
	t       *pbt.T
	Ring    *Ring
	Leaders []*Leader
	stray   []*reqPlan
}

// Leader is a validator instance on top of one node of the ring.
type Leader struct {
	rig    *Rig
	Node   *Node
	PVFile string
	store  *signer.RaftStore
	val    *signer.ThresholdValidator
	mu     sync.Mutex
	plan   *reqPlan
	log    tmlog.Logger
}

func (l *Leader) current() *reqPlan {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.plan
}

func (l *Leader) setPlan(p *reqPlan) {
	l.mu.Lock()
	l.plan = p
	l.mu.Unlock()
}

// NewRig makes the given node ids leaders.
func NewRig(t *pbt.T, ring *Ring, leaders []int) *Rig {
	r := &Rig{t: t, Ring: ring}
	for _, id := range leaders {
		l := &Leader{rig: r, Node: ring.Nodes[id], PVFile: filepath.Join(mkdir(filepath.Join(ring.Dir, fmt.Sprintf("pv_%d", id))), "state.json"), store: <-storePool}
		r.Leaders = append(r.Leaders, l)
		l.boot()
	}
	t.Defer(func() {
		for _, p := range r.stray {
			waitTimeout(&p.inner, 10*time.Second)
		}
		for _, l := range r.Leaders {
			storePool <- l.store
		}
	})
	return r
}

// newLeader makes a leader with a raft store of its own, which the case may spoil.
func newLeader(t *pbt.T, r *Rig, ring *Ring, id int) *Leader {
	r.t, r.Ring = t, ring
	l := &Leader{rig: r, Node: ring.Nodes[id], PVFile: filepath.Join(mkdir(filepath.Join(ring.Dir, fmt.Sprintf("pv_%d", id))), "state.json"),
		store: newStore(mkdir(filepath.Join(ring.Dir, fmt.Sprintf("raft_%d", id))), 9)}
	r.Leaders = append(r.Leaders, l)
	l.boot()
	return l
}

// boot builds the validator from the leader's stored state.
func (l *Leader) boot() {
	ss, err := signer.LoadOrCreateSignState(l.PVFile)
	if err != nil {
		l.rig.t.Fatalf("validator state does not load: %v", err)
	}
	var peers []signer.Cosigner
	for _, id := range others(l.rig.Ring.IDs, l.Node.ID) {
		peers = append(peers, &peerCosigner{node: l.rig.Ring.Nodes[id], ld: l})
	}
	log := l.log
	if log == nil {
		log = nopLogger{}
	}
	l.val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{
		Pubkey:    l.rig.Ring.Pub,
		Threshold: l.rig.Ring.T,
		SignState: ss,
		Cosigner:  &peerCosigner{node: l.Node, ld: l},
		Peers:     peers,
		RaftStore: l.store,
		Logger:    log,
	})
	l.store.SetThresholdValidator(l.val)
}

// Restart models a restart of the leader's process.
func (l *Leader) Restart() {
	l.Node.crash(l.rig.t)
	l.boot()
}

// Plan draws what happens during one request. faulty peers get a fault; enough healthy peers answer first.
func (r *Rig) Plan(l *Leader, pFault, den int, modes []int, delays bool) *reqPlan {
	t := r.t
	p := &reqPlan{first: map[int]bool{}, faults: map[int]int{}, delays: map[int][2]time.Duration{}, release: make(chan struct{}), gotCh: make(chan struct{})}
	p.garbage = t.Bytes(t.Intn(70))
	peers := others(r.Ring.IDs, l.Node.ID)
	var usable []int
	for _, id := range peers {
		if pFault > 0 && t.Chance(pFault, den) {
			p.faults[id] = modes[t.Intn(len(modes))]
		}
		if delays {
			p.delays[id] = [2]time.Duration{time.Duration(t.Intn(4)) * time.Millisecond, time.Duration(t.Intn(4)) * time.Millisecond}
		}
		if f := p.faults[id]; f != fGetErr && f != fGetHang {
			usable = append(usable, id)
		}
	}
	need := r.Ring.T - 1
	p.need = need
	if len(usable) >= need {
		for _, id := range pickSome(t, usable, need) {
			p.first[id] = true
		}
	}
	if need == 0 {
		close(p.gotCh)
	}
	return p
}

// enough tells whether enough peers answer the nonce request at all (otherwise the leader waits out its timeout).
func (p *reqPlan) enough(r *Rig) bool { return len(p.first) == r.Ring.T-1 }

// reply is the result of a sign request.
type reply struct {
	sig   []byte
	err   error
	m     Msg // the message as returned (timestamp possibly changed)
	panic string
}

// Do sends m to leader l.
func (l *Leader) Do(m Msg, plan *reqPlan) (rep reply) {
	l.setPlan(plan)
	rep.m = m
	msg, isSUT, raw := pbt.Catch(func() { rep = signWith(l.val, m) })
	if raw != nil {
		if !isSUT {
			panic(raw)
		}
		rep.panic = msg
		rep.err = errors.New("panic: " + msg)
	}
	l.endPlan(plan)
	return
}

// endPlan releases what hangs and waits for the calls in progress.
func (l *Leader) endPlan(plan *reqPlan) {
	if plan != nil {
		close(plan.release)
		waitTimeout(&plan.inner, 10*time.Second)
	}
	l.setPlan(nil)
}

// inflight counts the calls in progress; unlike a WaitGroup it may be entered while somebody waits.
type inflight struct{ n int64 }

func (i *inflight) Add(d int) { atomic.AddInt64(&i.n, int64(d)) }
func (i *inflight) Done()     { atomic.AddInt64(&i.n, -1) }

func waitTimeout(i *inflight, d time.Duration) {
	for end := time.Now().Add(d); atomic.LoadInt64(&i.n) > 0 && time.Now().Before(end); {
		time.Sleep(500 * time.Microsecond)
	}
}

// signWith requests a signature through the validator interface and decodes the result.
func signWith(v interface{}, m Msg) (rep reply) {
	rep.m = m
	if m.Kind == kProposal {
		p := m.Proposal()
		rep.err = signProposal(v, m.ChainID(), p)
		rep.sig = p.Signature
		rep.checkReturned(p.Height, int64(p.Round), p.BlockID.Hash, p.Timestamp, m)
		return
	}
	vt := m.Vote()
	rep.err = signVote(v, m.ChainID(), vt)
	rep.sig = vt.Signature
	rep.checkReturned(vt.Height, int64(vt.Round), vt.BlockID.Hash, vt.Timestamp, m)
	return
}

func (rep *reply) checkReturned(h, r int64, hash []byte, ts time.Time, m Msg) {
	if rep.err == nil && (h != m.H || r != m.R || !ts.Equal(m.Time()) || string(hash) != string(blockID(m.Block).Hash)) {
		rep.panic = fmt.Sprintf("returned message differs from the requested one %s: %d/%d %v", m, h, r, ts)
	}
}

// verifies tells whether sig is a valid validator signature for m.
func (r *Ring) verifies(m Msg, sig []byte) bool {
	return len(sig) == 64 && r.Pub.VerifySignature(m.SignBytes(), sig)
}

// combine assembles a signature from shares, for oracles.
func combine(total int, ids []int, shares [][]byte, eph []byte) []byte {
	return append(append([]byte{}, eph...), tsed25519.CombineShares(uint8(total), ids, shares)...)
}
