package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	tm "github.com/tendermint/tendermint/types"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

func init() { registry["C19"] = propC19 }

// c19Live bounds a crew's calls; the code under test gives up a request after two rounds of 4 s.
const c19Live = 100 * time.Second

func propC19() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C19",
		Rule: "The harness and the code under test run under the race detector. cosigner: 2..6 goroutines call one cosigner with drawn lists of nonce requests, sign requests and last-signed-state updates colliding at a few " +
			"positions; all results and the final state file must be explained by some sequential order of the calls on a watermark model (linearizability search). validator: batches of concurrent requests reach one or two leaders directly " +
			"(as proxied requests do) and through the guard, with concurrent state updates; every vote result verifies for that very vote, no two contents per position, the highest position of a batch is served by an undisturbed leader. " +
			"guard: sentries and direct callers behind one guard, recording validator detects overlapping calls. signstate and store: linearizability of sign states and of the raft-backed store, with readers during a restore. " +
			"Non-trivial: at least two calls overlapped in time. Distinct by choices.",
		Assumptions: []string{"the race detector reports only the races of schedules that occurred"},
		Setup:       c19Setup,
		Parts: []pbt.Part{
			{Name: "cosigner", Fn: c19Cosigner, Quick: 500, Thorough: 20000, Workers: 12, QuickSecs: 20, ThoroughSecs: 900},
			{Name: "validator", Fn: c19Validator, Quick: 250, Thorough: 10000, Workers: 12, QuickSecs: 25, ThoroughSecs: 1200, Timeout: 400 * time.Second},
			{Name: "guard", Fn: c19Guard, Quick: 1500, Thorough: 8000, Workers: 16, QuickSecs: 12, ThoroughSecs: 600, Timeout: 200 * time.Second},
			{Name: "signstate", Fn: c19SignState, Quick: 8000, Thorough: 200000, Workers: 8, QuickSecs: 8, ThoroughSecs: 300},
			{Name: "store", Fn: c19Store, Quick: 4000, Thorough: 60000, Workers: 8, QuickSecs: 10, ThoroughSecs: 400},
			{Name: "restore", Fn: c19Restore, Quick: 40, Thorough: 200, Workers: 4, QuickSecs: 10, ThoroughSecs: 120},
		}}
}

// c19Snap is a raft directory with a snapshot of c19Keys keys.
var c19Snap string

const c19Keys = 400

func c19Setup(e *pbt.Env) {
	initStores(e, 40)
	dir := mkdir(filepath.Join(e.Scratch, "snap"))
	s := c19NewStore(dir)
	pbt.Must(s.Start())
	if !pbt.WaitUntil(60*time.Second, func() bool { return s.Set("k0", "0") == nil }) {
		pbt.Harness("store does not become leader")
	}
	var g pbt.Group
	for i := 1; i < c19Keys; i++ {
		i := i
		g.Go(func() { pbt.Must(s.Set(fmt.Sprintf("k%d", i), fmt.Sprint(i))) })
	}
	g.Wait()
	p := &proc{cfg: nodeCfg{Listen: s.RaftBind}}
	r, err := p.snapshot()
	pbt.Must(err)
	if r != "" {
		pbt.Harness("snapshot: %s", r)
	}
	c19Snap = filepath.Join(dir, "snapshots")
}

func c19NewStore(dir string) *signer.RaftStore {
	ss, err := signer.LoadOrCreateSignState(filepath.Join(dir, "dummy.json"))
	pbt.Must(err)
	k := rsaKeys()[0]
	lc := signer.NewLocalCosigner(signer.LocalCosignerConfig{
		CosignerKey: signer.CosignerKey{ID: 1, PubKey: dummyPub, RSAKey: *k}, SignState: &ss, RsaKey: *k,
		Peers: []signer.CosignerPeer{{ID: 1, PublicKey: k.PublicKey}}, Total: 1, Threshold: 1})
	return signer.NewRaftStore("1", dir, fmt.Sprintf("tcp://127.0.0.1:%d", freePort()), time.Second*5, nopLogger{}, lc, nil)
}

// overlap tells whether any two calls overlapped.
func overlap(ops []linOp) bool {
	for i := range ops {
		for j := range ops {
			if i != j && ops[i].begin < ops[j].begin && ops[j].begin < ops[i].end {
				return true
			}
		}
	}
	return false
}

// crew runs worker goroutines released together; a worker that does not end in time is a violation.
func crew(t *pbt.T, n int, f func(w int)) {
	start := make(chan struct{})
	var g pbt.Group
	for w := 0; w < n; w++ {
		w := w
		g.Go(func() {
			<-start
			f(w)
		})
	}
	close(start)
	done := make(chan struct{})
	go func() {
		defer func() { _ = recover() }()
		defer close(done)
		g.Wait()
	}()
	select {
	case <-done:
		g.Wait() // raises what a worker raised
	case <-time.After(c19Live):
		t.Fatalf("concurrent calls did not return within %v", c19Live)
	}
}

// ---------- one cosigner ----------

type c19Msg struct {
	Msg
	from  []int
	parts []signer.CosignerEphemeralSecretPart
	eph   []byte // the nonce commitment its signature must carry, when known
	ann   []byte // the signature announced for it
}

func c19Cosigner(t *pbt.T) {
	n, th := drawNT(t, 4)
	ring := NewRing(t, n, th, nil)
	node := ring.Nodes[t.Range(1, n)]
	lc := node.LC
	g := MsgGen{Base: 1 + int64(t.Intn(2)), H: 2, R: 2, TS: 3}
	var ms []*c19Msg
	byT := map[signer.HRSTKey]*c19Msg{}
	known := t.Bool()
	for k := t.Range(2, 6); k > 0; k-- {
		m := g.Draw(t)
		if len(ms) > 0 && t.Chance(3, 4) {
			m = g.Mutate(t, ms[t.Intn(len(ms))].Msg)
		}
		dup := false
		for _, o := range ms {
			dup = dup || o.Msg == m
		}
		if dup {
			continue
		}
		c := &c19Msg{Msg: m, ann: t.Bytes(64)}
		if o := byT[m.HRST()]; o != nil { // the same nonces
			c.from, c.parts, c.eph = o.from, o.parts, o.eph
		} else {
			byT[m.HRST()] = c
			c.from = pickSome(t, others(ring.IDs, node.ID), th-1)
			c.parts = ring.partsFor(t, node.ID, c.from, m.HRST())
			if known {
				res, err := lc.GetEphemeralSecretParts(m.HRST())
				if err != nil {
					t.Fatalf("nonce request refused: %v", err)
				}
				pubs := []tsed25519.Element{res.EncryptedSecrets[0].SourceEphemeralSecretPublicKey}
				for _, p := range c.parts {
					pubs = append(pubs, p.SourceEphemeralSecretPublicKey)
				}
				c.eph = tsed25519.AddElements(pubs)
			}
		}
		ms = append(ms, c)
	}
	type job struct{ op, k int }
	workers := t.Range(2, 6)
	plan := make([][]job, workers)
	for w := range plan {
		for j := t.Range(1, 4); j > 0; j-- {
			plan[w] = append(plan[w], job{t.Weighted(6, 2, 2), t.Intn(len(ms))})
		}
	}
	for k, m := range ms {
		t.Logf("message %d: %s nonces from %v", k, m.Msg, m.from)
	}
	opn := []string{"sign", "nonces", "announce"}
	for w, js := range plan {
		s := ""
		for _, j := range js {
			s += fmt.Sprintf(" %s(%d)", opn[j.op], j.k)
		}
		t.Logf("caller %d:%s", w, s)
	}
	var clk linClock
	var mu sync.Mutex
	var ops []linOp
	sigs := map[int][]byte{} // own signature per message
	wrong := ""
	bad := func(f string, a ...interface{}) {
		mu.Lock()
		if wrong == "" {
			wrong = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	ownPub := map[signer.HRSTKey][]byte{}
	state := func(k int, own bool) string { return fmt.Sprintf("%d%v", k, own) }
	parse := func(s string) (k int, own bool) {
		if s == "" {
			return -1, false
		}
		fmt.Sscanf(s, "%d%t", &k, &own)
		return
	}
	crew(t, workers, func(w int) {
		for _, j := range plan[w] {
			k, m := j.k, ms[j.k]
			o := linOp{begin: clk.tick()}
			switch j.op {
			case 0:
				res, err := lc.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{
					EncryptedSecrets: m.parts, HRST: m.HRST(), SignBytes: m.SignBytes()})
				o.end = clk.tick()
				announced := err == nil && bytes.Equal(res.Signature, m.ann)
				if err == nil && !announced {
					mu.Lock()
					v := append(append([]byte{}, res.EphemeralPublic...), res.Signature...)
					if old := sigs[k]; old == nil {
						sigs[k] = v
					} else if !bytes.Equal(old, v) {
						mu.Unlock()
						bad("the cosigner signs message %d twice with different results: %x and %x", k, old, v)
						return
					}
					mu.Unlock()
					if m.eph != nil && !bytes.Equal(m.eph, res.EphemeralPublic) {
						bad("the signature of message %d carries nonce commitment %x instead of %x, which the nonces of its request add up to", k, res.EphemeralPublic, m.eph)
					}
				}
				o.name = fmt.Sprintf("sign(%d) %s announced=%v", k, okErr(err), announced)
				o.step = func(s string) (string, bool) {
					c, own := parse(s)
					if c >= 0 {
						d := m.HRS().Cmp(ms[c].HRS())
						switch {
						case d < 0:
							return s, err != nil
						case d == 0 && bytes.Equal(m.SignBytes(), ms[c].SignBytes()):
							return s, err == nil && announced == !own
						case d == 0 && m.Content() != ms[c].Content():
							return s, err != nil
						case d == 0: // another time: signs again, the state stays
							return s, err == nil && !announced
						}
					}
					return state(k, true), err == nil && !announced
				}
			case 1:
				res, err := lc.GetEphemeralSecretParts(m.HRST())
				o.end = clk.tick()
				if err != nil {
					bad("nonce request for message %d refused: %v", k, err)
					return
				}
				if len(res.EncryptedSecrets) != n-1 {
					bad("nonce request for message %d is answered with %d parts", k, len(res.EncryptedSecrets))
					return
				}
				for _, p := range res.EncryptedSecrets {
					if p.SourceID != node.ID || p.DestinationID == node.ID {
						bad("nonce part from %d to %d handed out by %d", p.SourceID, p.DestinationID, node.ID)
					}
				}
				mu.Lock()
				top := true // no other position above it: its nonce is never thrown away
				for _, x := range ms {
					top = top && x.HRS().Cmp(m.HRS()) <= 0
				}
				if top {
					for _, p := range res.EncryptedSecrets {
						if old := ownPub[m.HRST()]; old != nil && !bytes.Equal(old, p.SourceEphemeralSecretPublicKey) {
							wrong = fmt.Sprintf("two nonces for message %d: %x and %x", k, old, p.SourceEphemeralSecretPublicKey)
						}
						ownPub[m.HRST()] = p.SourceEphemeralSecretPublicKey
					}
				}
				mu.Unlock()
				o.name = fmt.Sprintf("nonces(%d)", k)
				o.step = func(s string) (string, bool) { return s, true }
			case 2:
				err := lc.SaveLastSignedState(signer.SignStateConsensus{Height: m.H, Round: m.R, Step: int8(m.Kind), Signature: m.ann, SignBytes: m.SignBytes()})
				o.end = clk.tick()
				o.name = fmt.Sprintf("announce(%d) %s", k, okErr(err))
				o.step = func(s string) (string, bool) {
					c, _ := parse(s)
					if c >= 0 && m.HRS().Cmp(ms[c].HRS()) <= 0 {
						return s, err != nil
					}
					return state(k, false), err == nil
				}
			}
			mu.Lock()
			ops = append(ops, o)
			mu.Unlock()
		}
	})
	if wrong != "" {
		t.Fatalf("%s", wrong)
	}
	fs, err := readStateFile(node.File)
	if err != nil {
		t.Fatalf("the state file does not load afterwards: %v", err)
	}
	var fin string
	ok, decided := linearize(ops, "", func(s string) bool {
		c, own := parse(s)
		fin = s
		if c < 0 {
			return fs.HRS == HRS{}
		}
		m := ms[c]
		return fs.HRS == m.HRS() && strings.EqualFold(fs.SignBytes, hex.EncodeToString(m.SignBytes())) && (own || bytes.Equal(fs.Sig, m.ann)) && len(fs.Sig) > 0
	})
	if decided && !ok {
		t.Fatalf("no sequential order of the calls explains the results and the final state file %+v (last candidate state %q): %s", fs.HRS, fin, linRender(ops))
	}
	node.Restart(t)
	if overlap(ops) {
		t.NonTrivial("")
	}
}

// ---------- one validator ----------

func c19Validator(t *pbt.T) {
	n, th := drawNT(t, 4)
	ring := NewRing(t, n, th, nil)
	nl := 1
	if t.Chance(1, 3) && n > 2 {
		nl = 2
	}
	rig := NewRig(t, ring, pickSome(t, ring.IDs, nl))
	var guards []*signer.PvGuard
	for _, l := range rig.Leaders {
		guards = append(guards, &signer.PvGuard{PrivValidator: l.val})
	}
	g := MsgGen{Base: 1, H: 2, R: 2, TS: 3}
	t.Logf("n=%d t=%d leaders=%d", n, th, nl)
	reqs := map[HRS][]Msg{}
	signed := map[HRS]string{}
	var lss []signer.SignStateConsensus
	var top HRS // no state at or above it was announced or requested before
	released, conc := 0, false
	for b := t.Range(1, 4); b > 0; b-- {
		type job struct {
			m     Msg
			l     int
			guard bool
			delay time.Duration
			rep   reply
			took  time.Duration
		}
		var jobs []*job
		if top.H > 0 {
			g.Base = top.H + int64(t.Intn(2))
		}
		for k := t.Range(2, 6); k > 0; k-- {
			j := &job{m: g.Draw(t), l: t.Intn(nl), guard: t.Bool()}
			if len(jobs) > 0 && t.Chance(2, 3) {
				j.m = g.Mutate(t, jobs[t.Intn(len(jobs))].m)
			}
			if t.Bool() {
				j.delay = time.Duration(t.Intn(6000)) * time.Microsecond
			}
			t.Logf("request %s to leader %d guard=%v delay %v", j.m, j.l, j.guard, j.delay)
			jobs = append(jobs, j)
			reqs[j.m.HRS()] = append(reqs[j.m.HRS()], j.m)
		}
		var fakes []signer.SignStateConsensus // updates for positions nobody requested yet
		if len(lss) > 0 && t.Bool() {
			fakes = append(fakes, lss[len(lss)-1-t.Intn(minInt(4, len(lss)))])
		}
		crew(t, len(jobs)+len(fakes)*nl+1, func(w int) {
			if w < len(jobs) {
				j := jobs[w]
				time.Sleep(j.delay)
				s := time.Now()
				if j.guard {
					j.rep = signWith(guards[j.l], j.m)
				} else {
					j.rep = signWith(rig.Leaders[j.l].val, j.m)
				}
				j.took = time.Since(s)
				return
			}
			w -= len(jobs)
			if w < len(fakes)*nl {
				l := rig.Leaders[w%nl]
				f := fakes[w/nl]
				switch len(f.Signature) % 2 {
				case 0:
					_ = l.val.SaveLastSignedState(f)
					_ = l.Node.LC.SaveLastSignedState(f)
				}
				_ = l.store.Emit("LSS", f)
				return
			}
			for _, l := range rig.Leaders {
				if pk, err := guards[0].GetPubKey(); err != nil || !pk.Equals(ring.Pub) {
					t.Fatalf("the public key is %v, %v", pk, err)
				}
				_, _ = l.store.Get("k")
			}
		})
		hi := top
		for _, j := range jobs {
			if j.m.HRS().Cmp(hi) > 0 {
				hi = j.m.HRS()
			}
		}
		served, hiContents, hiErr := false, map[string]bool{}, ""
		hiMsgs, hiReqs := map[Msg]bool{}, 0
		for _, j := range jobs {
			if j.rep.panic != "" {
				t.Fatalf("request %s: %s", j.m, j.rep.panic)
			}
			if j.m.HRS() == hi {
				hiContents[j.m.Content()] = true
				hiMsgs[j.m] = true
				hiReqs++
				if j.rep.err == nil {
					served = true
				} else {
					hiErr = j.rep.err.Error()
				}
			}
			if j.took > 30*time.Second {
				t.FatalfLive("request %s took %v", j.m, j.took)
			}
			t.Logf("-> %s %s", j.m, okErr(j.rep.err))
			if j.rep.err != nil {
				continue
			}
			released++
			var what *Msg
			for i, q := range reqs[j.m.HRS()] {
				if ring.verifies(q, j.rep.sig) {
					what = &reqs[j.m.HRS()][i]
					break
				}
			}
			if what == nil {
				t.Fatalf("request %s is answered with a signature that is valid for none of the messages requested at its position", j.m)
			}
			if j.m.Kind != kProposal && !ring.verifies(j.m, j.rep.sig) {
				t.Fatalf("request %s is answered with the signature of %s", j.m, *what)
			}
			if old, ok := signed[j.m.HRS()]; ok && old != what.Content() {
				t.Fatalf("signatures for conflicting messages at %+v: %q and %q", j.m.HRS(), old, what.Content())
			}
			signed[j.m.HRS()] = what.Content()
			lss = append(lss, signer.SignStateConsensus{Height: what.H, Round: what.R, Step: int8(what.Kind), Signature: j.rep.sig, SignBytes: what.SignBytes()})
		}
		// an undisturbed leader serves the highest position
		if nl == 1 && hi.Cmp(top) > 0 {
			if !served {
				t.FatalfLive("no request at the highest position %+v of the batch is served: %s", hi, hiErr)
			}
			// a second request for another time of a signed message meets used nonces and may be refused
			if len(hiContents) == 1 && (len(hiMsgs) == 1 || len(hiMsgs) == hiReqs) && hiErr != "" {
				t.FatalfLive("a request at the highest position %+v is refused although all requests there are compatible: %s", hi, hiErr)
			}
			fs, err := readStateFile(rig.Leaders[0].PVFile)
			if err != nil || fs.HRS != hi {
				t.Fatalf("the state file says %+v (%v) after signing %+v", fs.HRS, err, hi)
			}
		}
		top = hi
		conc = true
	}
	if conc && released > 0 {
		t.NonTrivial("")
	}
}

// ---------- the guard ----------

func c19Guard(t *pbt.T) {
	v := &recVal{key: tmed.GenPrivKeyFromSecret(t.Bytes(8)), plan: map[int64]int{}, asked: map[int64]int{}, chain: map[int64]string{}}
	v.nap = time.Duration(t.Intn(3000)) * time.Microsecond
	c := &c15{t: t, v: v, chain: chains[t.Intn(len(chains))]}
	guard := &signer.PvGuard{PrivValidator: v}
	k := t.Intn(4)
	direct := t.Range(0, 3)
	if k+direct < 2 {
		direct = 2 - k
	}
	var ss []*sentry
	var nodes []signer.NodeConfig
	scripts := make([][]c15Op, k)
	for i := 0; i < k; i++ {
		s := newSentry(t)
		ss = append(ss, s)
		nodes = append(nodes, signer.NodeConfig{Address: s.addr})
		for j := t.Range(1, 3); j > 0; j-- {
			o := c15Op{kind: "send"}
			for x := t.Range(1, 5); x > 0; x-- {
				o.frames = append(o.frames, c.request())
			}
			scripts[i] = append(scripts[i], o)
		}
		for _, o := range scripts[i] {
			t.Logf("sentry %d:%s", i, c15Names(o.frames))
		}
	}
	own := make([][]Msg, direct)
	g := MsgGen{Base: 1000, H: 1, R: 1}
	for i := range own {
		for j := t.Range(1, 6); j > 0; j-- {
			m := g.Draw(t)
			g.Base++
			own[i] = append(own[i], m)
			v.plan[m.H] = []int{rvOK, rvTime}[t.Intn(2)]
			t.Logf("caller %d: %s", i, m)
		}
	}
	if k > 0 {
		svc, err := signer.StartRemoteSigners(nil, nopLogger{}, c.chain, guard, nodes)
		pbt.Must(err)
		t.Defer(func() { stopAll(svc) })
	}
	errs := make([]error, k+direct)
	live := make([]bool, k+direct)
	crew(t, k+direct, func(w int) {
		if w < k {
			errs[w], live[w] = c.run(ss[w], scripts[w])
			return
		}
		for _, m := range own[w-k] {
			vt, pr := m.Vote(), m.Proposal()
			var err error
			var sb, sig []byte
			if m.Kind == kProposal {
				err = guard.SignProposal(m.ChainID(), pr)
				sb, sig = tm.ProposalSignBytes(m.ChainID(), pr), pr.Signature
			} else {
				err = guard.SignVote(m.ChainID(), vt)
				sb, sig = tm.VoteSignBytes(m.ChainID(), vt), vt.Signature
			}
			if err != nil || !v.key.PubKey().VerifySignature(sb, sig) {
				errs[w] = fmt.Errorf("caller %d: %s through the guard returns %v and a signature that does not verify", w, m, err)
				return
			}
			if pk, err := guard.GetPubKey(); err != nil || !pk.Equals(v.key.PubKey()) {
				errs[w] = fmt.Errorf("the guard returns public key %v, %v", pk, err)
			}
		}
	})
	for i, e := range errs {
		if e != nil && live[i] {
			t.FatalfLive("sentry %d: %v", i, e)
		} else if e != nil {
			t.Fatalf("%v", e)
		}
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.both {
		t.Fatalf("two signing calls were in progress at the same time behind one guard")
	}
	for h, x := range v.asked {
		if x > 1 {
			t.Fatalf("the validator is asked %d times for the request at height %d", x, h)
		}
	}
	if len(v.asked) > 1 {
		t.NonTrivial("")
	}
}

// ---------- one sign state ----------

func c19SignState(t *pbt.T) {
	file := filepath.Join(t.Scratch, "s.json")
	ss, err := signer.LoadOrCreateSignState(file)
	pbt.Must(err)
	var lock sync.Mutex
	type job struct {
		op int
		h  HRS
	}
	workers := t.Range(2, 5)
	plan := make([][]job, workers)
	for w := range plan {
		s := ""
		for j := t.Range(1, 5); j > 0; j-- {
			o := job{t.Weighted(4, 3, 2), HRS{int64(t.Intn(4)), int64(t.Intn(2)), 1 + t.Intn(3)}}
			if t.Chance(1, 4) {
				o.h.H += 3
			}
			s += fmt.Sprintf(" %s(%v)", []string{"save", "get", "check"}[o.op], o.h)
			plan[w] = append(plan[w], o)
		}
		t.Logf("caller %d:%s", w, s)
	}
	var clk linClock
	var mu sync.Mutex
	var ops []linOp
	parse := func(s string) (h HRS) {
		fmt.Sscanf(s, "%d/%d/%d", &h.H, &h.R, &h.S)
		return
	}
	str := func(h HRS) string { return fmt.Sprintf("%d/%d/%d", h.H, h.R, h.S) }
	val := func(h HRS) []byte { return []byte(str(h)) }
	crew(t, workers, func(w int) {
		for _, j := range plan[w] {
			j := j
			o := linOp{begin: clk.tick()}
			switch j.op {
			case 0:
				err := ss.Save(signer.SignStateConsensus{Height: j.h.H, Round: j.h.R, Step: int8(j.h.S), Signature: val(j.h), SignBytes: val(j.h)}, &lock)
				o.end = clk.tick()
				o.name = fmt.Sprintf("save(%v) %s", j.h, okErr(err))
				o.step = func(s string) (string, bool) {
					if j.h.Cmp(parse(s)) > 0 {
						return str(j.h), err == nil
					}
					return s, err != nil
				}
			case 1:
				latest, e := ss.GetFromCache(signer.HRSKey{Height: j.h.H, Round: j.h.R, Step: int8(j.h.S)}, &lock)
				o.end = clk.tick()
				l := HRS{latest.Height, latest.Round, int(latest.Step)}
				o.name = fmt.Sprintf("get(%v) = %v, %v", j.h, l, e != nil)
				if e != nil && (e.Height != j.h.H || e.Round != j.h.R || int(e.Step) != j.h.S || !bytes.Equal(e.Signature, val(j.h)) || !bytes.Equal(e.SignBytes, val(j.h))) {
					t.Fatalf("asked for %v the state answers %+v", j.h, *e)
				}
				o.step = func(s string) (string, bool) {
					if parse(s) != l {
						return s, false
					}
					if j.h == l && l.H > 0 {
						return s, e != nil
					}
					return s, true
				}
			case 2:
				err := ss.GetErrorIfLessOrEqual(j.h.H, j.h.R, int8(j.h.S), &lock)
				o.end = clk.tick()
				o.name = fmt.Sprintf("check(%v) %s", j.h, okErr(err))
				o.step = func(s string) (string, bool) { return s, (err == nil) == (j.h.Cmp(parse(s)) > 0) }
			}
			mu.Lock()
			ops = append(ops, o)
			mu.Unlock()
		}
	})
	fs, err := readStateFile(file)
	if err != nil {
		t.Fatalf("the state file does not load afterwards: %v", err)
	}
	ok, decided := linearize(ops, str(HRS{}), func(s string) bool { return parse(s) == fs.HRS })
	if decided && !ok {
		t.Fatalf("no sequential order of the calls explains the results and the final state file %v: %s", fs.HRS, linRender(ops))
	}
	if overlap(ops) {
		t.NonTrivial("")
	}
}

// ---------- the store ----------

func c19Store(t *pbt.T) {
	st := <-storePool
	defer func() { storePool <- st }()
	keys := []string{"x", "y"}[:t.Range(1, 2)]
	pre := fmt.Sprintf("%d-", time.Now().UnixNano())
	type job struct {
		op  int
		key string
		val string
	}
	workers := t.Range(2, 5)
	plan := make([][]job, workers)
	for w := range plan {
		s := ""
		for j := t.Range(1, 5); j > 0; j-- {
			o := job{t.Weighted(3, 4, 1, 1), keys[t.Intn(len(keys))], fmt.Sprintf("%s%d.%d", pre, w, j)}
			s += fmt.Sprintf(" %s(%s)", []string{"set", "get", "delete", "emit"}[o.op], o.key)
			plan[w] = append(plan[w], o)
		}
		t.Logf("caller %d:%s", w, s)
	}
	for _, k := range keys {
		if err := st.Set(k, pre+"init"); err != nil {
			t.FatalfLive("set fails on the leader: %v", err)
		}
	}
	var clk linClock
	var mu sync.Mutex
	byKey := map[string][]linOp{}
	crew(t, workers, func(w int) {
		for _, j := range plan[w] {
			j := j
			o := linOp{begin: clk.tick()}
			var err error
			switch j.op {
			case 0:
				err = st.Set(j.key, j.val)
				o.step = func(string) (string, bool) { return j.val, true }
			case 1:
				var v string
				v, err = st.Get(j.key)
				o.step = func(s string) (string, bool) { return s, s == v }
				o.name = fmt.Sprintf("%q", v)
			case 2:
				err = st.Delete(j.key)
				o.step = func(string) (string, bool) { return "", true }
			case 3:
				err = st.Emit(j.key, j.val)
				b, e := json.Marshal(j.val)
				pbt.Must(e)
				o.step = func(string) (string, bool) { return string(b), true }
			}
			o.end = clk.tick()
			o.name = []string{"set ", "get ", "delete ", "emit "}[j.op] + j.val + o.name
			if err != nil {
				t.FatalfLive("%s(%s) fails on the leader: %v", o.name, j.key, err)
			}
			mu.Lock()
			byKey[j.key] = append(byKey[j.key], o)
			mu.Unlock()
		}
	})
	conc := false
	for k, ops := range byKey {
		fin, err := st.Get(k)
		if err != nil {
			t.Fatalf("get: %v", err)
		}
		ok, decided := linearize(ops, pre+"init", func(s string) bool { return s == fin })
		if decided && !ok {
			t.Fatalf("no sequential order of the calls on key %q explains the results and the final value %q: %s", k, fin, linRender(ops))
		}
		conc = conc || overlap(ops)
	}
	if conc {
		t.NonTrivial("")
	}
}

// c19Restore reads a store while it loads a snapshot.
func c19Restore(t *pbt.T) {
	dir := t.Scratch
	copyTree(c19Snap, filepath.Join(dir, "snapshots"))
	s := c19NewStore(dir)
	stop := make(chan struct{})
	readers := t.Range(1, 4)
	var want []int
	for i := 0; i < readers; i++ {
		want = append(want, t.Intn(c19Keys))
	}
	t.Logf("readers of %v", want)
	crew(t, readers+1, func(w int) {
		if w == readers {
			defer close(stop)
			if _, err := s.Open(); err != nil {
				t.Fatalf("the store does not open: %v", err)
			}
			return
		}
		for last := ""; ; {
			v, err := s.Get(fmt.Sprintf("k%d", want[w]))
			if err != nil || v != "" && v != fmt.Sprint(want[w]) || v == "" && last != "" {
				t.Fatalf("key k%d reads %q after %q, %v", want[w], v, last, err)
			}
			last = v
			select {
			case <-stop:
				return
			default:
			}
		}
	})
	for i := 0; i < c19Keys; i++ {
		if v, err := s.Get(fmt.Sprintf("k%d", i)); err != nil || v != fmt.Sprint(i) {
			t.Fatalf("key k%d is %q after the restore, %v", i, v, err)
		}
	}
	t.NonTrivial("")
}

func copyTree(from, to string) {
	pbt.Must(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		q := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(q, 0700)
		}
		b, err := ioutil.ReadFile(p)
		if err != nil {
			return err
		}
		return ioutil.WriteFile(q, b, 0600)
	}))
}
