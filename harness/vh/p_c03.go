package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	pvproto "github.com/tendermint/tendermint/proto/tendermint/privval"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

func init() {
	registry["C03"] = propC03
	registry["C04"] = propC04
	registry["C12"] = propC12
}

func propC03() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C03",
		Rule: "A case is a history of vote/proposal requests to the leader of a ring of 2..6 cosigners (possibly some of the key shares) where per request any " +
			"cosigner, the leader's own included, may err, lose replies, return garbage/empty/bit-flipped/truncated/foreign shares, restart or own an inconsistent key share. " +
			"Oracle: a success carries 64 bytes verifying under the validator key for exactly the requested message (or the signature already issued for the proposal at that position); " +
			"an error carries no signature. Non-trivial: some request succeeded and some request met a fault in a cosigner that took part. sentry: the same ring served to sentries by StartRemoteSigners; requests may name other chains; a signature in a response verifies over the returned message for the configured chain. " +
			"Distinct by rendered history.",
		Setup: func(e *pbt.Env) { initStores(e, 48) },
		Parts: []pbt.Part{
			{Name: "faulty", Fn: c03Faulty, Quick: 1500, Thorough: 60000, Workers: 40, QuickSecs: 30, ThoroughSecs: 900},
			{Name: "sentry", Fn: c03Sentry, Quick: 300, Thorough: 8000, Workers: 24, QuickSecs: 20, ThoroughSecs: 600, Timeout: 200 * time.Second},
		}}
}

// sigBook remembers what was released at each position.
type sigBook struct {
	first map[HRS]Msg
	sig   map[HRS][]byte
	all   map[HRS][][]byte
}

func newSigBook() *sigBook {
	return &sigBook{first: map[HRS]Msg{}, sig: map[HRS][]byte{}, all: map[HRS][][]byte{}}
}

func (b *sigBook) add(m Msg, sig []byte) {
	h := m.HRS()
	if _, ok := b.first[h]; !ok {
		b.first[h] = m
		b.sig[h] = sig
	}
	b.all[h] = append(b.all[h], sig)
}

// checkReply is the oracle of C03.
func (b *sigBook) checkReply(t *pbt.T, r *Ring, m Msg, rep reply) {
	if rep.panic != "" {
		t.Fatalf("%s: %s", m, rep.panic)
	}
	if rep.err != nil {
		if len(rep.sig) > 0 {
			t.Fatalf("%s: refused with %q but a signature was handed out: %x", m, rep.err, rep.sig)
		}
		return
	}
	if len(rep.sig) == 0 {
		t.Fatalf("%s: success without a signature", m)
	}
	if r.verifies(m, rep.sig) {
		b.add(m, rep.sig)
		return
	}
	if m.Kind == kProposal {
		for _, s := range b.all[m.HRS()] {
			if bytes.Equal(s, rep.sig) {
				t.Label("proposal answered with the issued signature")
				return
			}
		}
	}
	t.Fatalf("%s: success with a signature that does not verify: %x", m, rep.sig)
}

// gapRing draws a ring whose cosigners may be a subset of the key shares.
func gapRing(t *pbt.T, maxShares int) *Ring {
	n, th := drawNT(t, maxShares)
	var ids []int
	if n > th && t.Chance(1, 3) {
		for _, i := range t.Subset(n, t.Range(th, n)) {
			ids = append(ids, i+1)
		}
	}
	r := NewRing(t, n, th, ids)
	t.Logf("shares=%d t=%d cosigners=%v", n, th, r.IDs)
	return r
}

func c03Faulty(t *pbt.T) {
	ring := gapRing(t, 6)
	ldID := ring.IDs[t.Intn(len(ring.IDs))]
	if t.Chance(1, 10) {
		// an inconsistent key share: of another dealing
		id := ring.IDs[t.Intn(len(ring.IDs))]
		k := ring.Keys[id]
		k.ShareKey = tsed25519.DealShares(tsed25519.ExpandSecret(bytes.Repeat([]byte{9}, 32)), uint8(ring.T), uint8(ring.Shares))[id-1]
		ring.Keys[id] = k
		ring.Nodes[id].Restart(t)
		t.Logf("cosigner %d holds an inconsistent share", id)
	}
	rig := NewRig(t, ring, []int{ldID})
	ld := rig.Leaders[0]
	book := newSigBook()
	g := MsgGen{Base: 1 + int64(t.Intn(4)), H: 1, R: 2, Chains: 2}.Wide(t)
	steps := t.Range(3, 16)
	var last []Msg
	succ, faulty := 0, 0
	slow := 0
	for i := 0; i < steps; i++ {
		var m Msg
		if len(last) > 0 && t.Chance(2, 5) {
			m = g.Mutate(t, last[len(last)-1-t.Intn(minInt(4, len(last)))])
		} else {
			g.Base += int64(t.Intn(3))
			m = g.Draw(t)
		}
		last = append(last, m)
		modes := nonHangFaults
		if slow < 1 && t.Chance(1, 30) {
			slow++
			modes = append(append([]int{}, modes...), fGetHang, fSignHang)
		}
		plan := rig.Plan(ld, 1, 3, modes, t.Chance(1, 4))
		if !plan.enough(rig) {
			if slow >= 1 || !t.Chance(1, 10) {
				plan = rig.Plan(ld, 1, 3, []int{fSignErr, fSignLost, fSignGarbage, fSignEmpty, fSignFlip, fCrashBefore, fCrashAfter, fPartsMissing, fGetGarbage}, false)
			} else {
				slow++
			}
		}
		if t.Chance(1, 8) {
			plan.faults[ldID] = []int{fGetErr, fSignErr, fSignGarbage, fSignEmpty, fSignFlip, fSignLost, fPartsMissing, fGetGarbage}[t.Intn(8)]
		}
		for id := range plan.faults {
			if plan.first[id] || id == ldID {
				faulty++
				break
			}
		}
		if t.Chance(1, 14) {
			t.Logf("restart leader")
			ld.Restart()
		}
		rep := ld.Do(m, plan)
		t.Logf("%s: %s -> %s", plan, m, okErr(rep.err))
		book.checkReply(t, ring, m, rep)
		if rep.err == nil {
			succ++
		}
		if t.Chance(1, 10) && len(book.all[m.HRS()]) > 0 {
			// another leader's signature is announced for a later message
			mm := m
			mm.H++
			sb := mm.SignBytes()
			sig, err := ring.Priv.Sign(sb)
			pbt.Must(err)
			_ = ld.val.SaveLastSignedState(signer.SignStateConsensus{Height: mm.H, Round: mm.R, Step: int8(mm.Kind), Signature: sig, SignBytes: sb})
			book.add(mm, sig)
			last = append(last, mm)
			t.Logf("announce %s", mm)
		}
	}
	t.Label(fmt.Sprintf("succ>0=%v faulty>0=%v", succ > 0, faulty > 0))
	if succ > 0 && faulty > 0 {
		t.NonTrivial(fmt.Sprint(t.Rendered()))
	}
}

// c03Sentry asks over the sentry protocol, where the caller names the chain.
func c03Sentry(t *pbt.T) {
	ring := gapRing(t, 4)
	ldID := ring.IDs[t.Intn(len(ring.IDs))]
	rig := NewRig(t, ring, []int{ldID})
	ld := rig.Leaders[0]
	own := t.Intn(len(chains))
	s := newSentry(t)
	svc, err := signer.StartRemoteSigners(nil, nopLogger{}, chains[own], &signer.PvGuard{PrivValidator: ld.val}, []signer.NodeConfig{{Address: s.addr}})
	if err != nil {
		t.Fatalf("starting the remote signer: %v", err)
	}
	t.Defer(func() { stopAll(svc) })
	cn, err := s.accept(c15Wait)
	if err != nil {
		t.FatalfLive("the signer does not connect: %v", err)
	}
	defer cn.close()
	t.Logf("configured for %s", chains[own])
	g := MsgGen{Base: 1 + int64(t.Intn(4)), H: 2, R: 2}.Wide(t)
	issued := map[HRS][][]byte{}
	var last []Msg
	succ, odd := 0, 0
	for i, n := 0, t.Range(3, 12); i < n; i++ {
		var m Msg
		if len(last) > 0 && t.Chance(2, 5) {
			m = g.Mutate(t, last[len(last)-1-t.Intn(minInt(4, len(last)))])
		} else {
			g.Base += int64(t.Intn(3))
			m = g.Draw(t)
		}
		m.Chain = own
		last = append(last, m)
		plan := rig.Plan(ld, 1, 3, []int{fSignErr, fSignLost, fSignGarbage, fSignEmpty, fSignFlip, fPartsMissing, fGetGarbage}, false)
		if t.Chance(1, 10) {
			plan.faults[ldID] = []int{fSignErr, fSignGarbage, fSignEmpty, fSignFlip}[t.Intn(4)]
		}
		req := drawReq(t, m)
		ld.setPlan(plan)
		if err := cn.write(frame(req)); err != nil {
			t.FatalfLive("the connection is lost: %v", err)
		}
		r, err := cn.recv(c15Wait)
		ld.endPlan(plan)
		if r == nil {
			t.FatalfLive("no answer to %s: %v", m, err)
		}
		a, wrong := answerTo(m, chains[own], r)
		if wrong != "" {
			t.Fatalf("%s", wrong)
		}
		t.Logf("%s: %s -> %s", plan, m, strOr(a.err, "signed"))
		if reqChain(req) != chains[own] {
			odd++
		}
		if a.err != "" {
			if len(a.sig) > 0 {
				t.Fatalf("%s: refused with %q but a signature was handed out: %x", m, a.err, a.sig)
			}
			continue
		}
		succ++
		if ring.Pub.VerifySignature(a.sb, a.sig) {
			issued[m.HRS()] = append(issued[m.HRS()], a.sig)
			continue
		}
		known := false
		for _, sg := range issued[m.HRS()] {
			known = known || m.Kind == kProposal && bytes.Equal(sg, a.sig)
		}
		if !known {
			t.Fatalf("%s: the signature in the response does not verify over the returned message for chain %q: %x", m, chains[own], a.sig)
		}
	}
	if succ > 0 && odd > 0 {
		t.NonTrivial(fmt.Sprint(t.Rendered()))
	}
}

func strOr(s, or string) string {
	if s == "" {
		return or
	}
	return s
}

func reqChain(m *pvproto.Message) string {
	if r := m.GetSignVoteRequest(); r != nil {
		return r.ChainId
	}
	return m.GetSignProposalRequest().ChainId
}

// ---------- C04 ----------

func propC04() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C04",
		Rule: "A case is a fault-free history of requests to one leader (heights advancing by 0..3, so that cache boundaries are crossed), with repeats of any earlier request, " +
			"timestamp variants, conflicts, regressions, and leader restarts. Oracle: a reference model predicts for each request 'fresh valid signature', 'exactly the first signature' or 'error'. " +
			"Non-trivial: at least one exact repeat at the latest position, one repeat at an older position and one refusal. Distinct by rendered history.",
		Setup: func(e *pbt.Env) { initStores(e, 40) },
		Parts: []pbt.Part{
			{Name: "history", Fn: c04History, Quick: 1200, Thorough: 60000, Workers: 24, QuickSecs: 35, ThoroughSecs: 900},
		}}
}

func c04History(t *pbt.T) {
	n, th := drawNT(t, 4)
	ring := NewRing(t, n, th, nil)
	ldID := ring.IDs[t.Intn(n)]
	rig := NewRig(t, ring, []int{ldID})
	ld := rig.Leaders[0]
	t.Logf("n=%d t=%d leader=%d", n, th, ldID)
	type rec struct {
		m    Msg
		sig  []byte
		boot int
	}
	signed := map[HRS]rec{}
	variants := map[string]bool{} // timestamp variants signed
	var latest HRS
	boot := 0
	g := MsgGen{Base: 1 + int64(t.Intn(1000)), H: 2, R: 2, Chains: 1}.Wide(t)
	var hist []Msg
	var signedL []HRS
	nRepeatLatest, nRepeatOld, nRefused := 0, 0, 0
	steps := t.Range(4, 30)
	for i := 0; i < steps; i++ {
		var m Msg
		switch {
		case len(signedL) > 0 && t.Chance(1, 4):
			// exact repeat of a signed one, near the cache boundary with preference
			m = signed[signedL[len(signedL)-1-t.Intn(minInt(10, len(signedL)))]].m
		case len(hist) > 0 && t.Chance(2, 5):
			m = g.Mutate(t, hist[len(hist)-1-t.Intn(minInt(8, len(hist)))])
		default:
			if latest.H > 0 {
				g.Base = latest.H + int64(t.Intn(4)) - int64(t.Intn(2))
				if g.Base < 1 {
					g.Base = 1
				}
			}
			m = g.Draw(t)
		}
		hist = append(hist, m)
		plan := rig.Plan(ld, 0, 1, nil, false)
		rep := ld.Do(m, plan)
		t.Logf("%s -> %s", m, okErr(rep.err))
		if rep.panic != "" {
			t.Fatalf("%s: %s", m, rep.panic)
		}
		h := m.HRS()
		rc, was := signed[h]
		same := was && bytes.Equal(rc.m.SignBytes(), m.SignBytes())
		mustFail := func(why string) {
			nRefused++
			if rep.err == nil {
				t.Fatalf("%s: signed although %s (latest signed %v)", m, why, latest)
			}
		}
		mustBe := func() {
			if rep.err != nil {
				t.Fatalf("%s: repeat of a signed message was refused: %v (latest signed %v)", m, rep.err, latest)
			}
			if !bytes.Equal(rep.sig, rc.sig) {
				t.Fatalf("%s: repeat answered with another signature %x than the first %x", m, rep.sig, rc.sig)
			}
		}
		switch {
		case h.Cmp(latest) > 0:
			if rep.err != nil {
				t.FatalfLive("%s: new message above %v was refused: %v", m, latest, rep.err)
			}
			if !ring.verifies(m, rep.sig) {
				t.Fatalf("%s: signature does not verify", m)
			}
			signed[h] = rec{m, rep.sig, boot}
			signedL = append(signedL, h)
			latest = h
		case h == latest && same:
			mustBe()
			nRepeatLatest++
		case h == latest && m.Content() == rc.m.Content() && m.Kind != kProposal:
			k := string(m.SignBytes())
			if rep.err == nil {
				if !ring.verifies(m, rep.sig) {
					t.Fatalf("%s: timestamp variant answered with a signature that does not verify", m)
				}
			} else if !variants[k] {
				t.FatalfLive("%s: vote differing only in its timestamp was refused: %v", m, rep.err)
			}
			variants[k] = true
			t.Label("timestamp variant")
		case was && m.Kind == kProposal:
			// another proposal at a signed position: the issued signature or a refusal, never another signature
			if rep.err == nil && !bytes.Equal(rep.sig, rc.sig) {
				t.Fatalf("%s: answered with a new signature at an already signed position", m)
			}
			if same && rc.boot == boot && latest.H-m.H <= 3 {
				mustBe()
				nRepeatOld++
			}
		case was && same:
			if rc.boot == boot && latest.H-m.H <= 3 {
				mustBe()
				nRepeatOld++
				if latest.H-m.H == 3 {
					t.Label("repeat exactly three heights back")
				}
			} else if rep.err == nil && !bytes.Equal(rep.sig, rc.sig) {
				t.Fatalf("%s: repeat answered with another signature", m)
			}
		case was:
			mustFail("a different message was signed there")
		default:
			mustFail("it is below the highest signed message and was not signed")
		}
		if t.Chance(1, 16) {
			t.Logf("restart leader")
			ld.Restart()
			boot++
			// the latest one is reloaded from disk
			if rc, ok := signed[latest]; ok {
				rc.boot = boot
				signed[latest] = rc
			}
		}
	}
	if nRepeatLatest > 0 && nRepeatOld > 0 && nRefused > 0 {
		t.NonTrivial(fmt.Sprint(t.Rendered()))
	}
}

// ---------- C12 ----------

func propC12() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C12",
		Rule: "A case is a sequence of new, ascending messages to a leader of a ring of 2..7 key shares (cosigners possibly a subset, with gaps in their IDs); per request a drawn set of peers is " +
			"unreachable, erroring, hanging or restarting, the others answer with drawn delays. Oracle: with at least threshold healthy cosigners the request succeeds with a valid signature, otherwise it " +
			"returns an error within 15 s; later requests succeed as soon as enough peers are back. Non-trivial: at least one request succeeded while some peer was faulty. Distinct by rendered history.",
		Setup: func(e *pbt.Env) { initStores(e, 64) },
		Parts: []pbt.Part{
			{Name: "subsets", Fn: c12Subsets, Quick: 900, Thorough: 40000, Workers: 56, QuickSecs: 35, ThoroughSecs: 900},
		}}
}

func c12Subsets(t *pbt.T) {
	ring := gapRing(t, 7)
	if ring.IDs[len(ring.IDs)-1] > len(ring.IDs) {
		t.Label("ids above the number of cosigners")
	}
	ldID := ring.IDs[t.Intn(len(ring.IDs))]
	rig := NewRig(t, ring, []int{ldID})
	ld := rig.Leaders[0]
	peers := others(ring.IDs, ldID)
	t.Logf("leader %d", ldID)
	m := MsgGen{Base: 1, H: 5, R: 2}.Wide(t).Draw(t)
	steps := t.Range(2, 9)
	okWithFault := 0
	for i := 0; i < steps; i++ {
		// strictly above the previous one
		switch {
		case m.Kind < 3 && t.Chance(2, 3):
			m.Kind++
		case t.Chance(1, 3):
			m.R++
			m.Kind = 1 + t.Intn(3)
		default:
			m.H += 1 + int64(t.Intn(3))
			m.R = int64(t.Intn(2))
			m.Kind = 1 + t.Intn(3)
		}
		m.Block, m.TS = t.Intn(3), t.Intn(len(tsPool))
		spare := len(ring.IDs) - ring.T
		nf := 0
		switch t.Weighted(3, 5, 1) {
		case 1:
			nf = t.Intn(spare + 1)
		case 2:
			if t.Chance(1, 3) {
				nf = minInt(spare+1+t.Intn(2), len(peers))
			}
		}
		plan := &reqPlan{faults: map[int]int{}, delays: map[int][2]time.Duration{}, release: make(chan struct{}), gotCh: make(chan struct{})}
		for _, id := range pickSome(t, peers, nf) {
			plan.faults[id] = []int{fGetErr, fGetHang}[t.Intn(2)]
		}
		slowest := t.Chance(1, 6)
		for _, id := range ring.IDs {
			d := 0
			if slowest {
				d = t.Intn(120)
			} else {
				d = t.Intn(4)
			}
			plan.delays[id] = [2]time.Duration{time.Duration(d) * time.Millisecond, time.Duration(t.Intn(4)) * time.Millisecond}
		}
		healthy := len(ring.IDs) - nf
		start := time.Now()
		rep := ld.Do(m, plan)
		el := time.Since(start)
		t.Logf("%s %s healthy=%d -> %s", plan, m, healthy, okErr(rep.err))
		if rep.panic != "" {
			t.Fatalf("%s: %s", m, rep.panic)
		}
		switch {
		case el > 15*time.Second:
			t.FatalfLive("%s took %v", m, el)
		case healthy >= ring.T && rep.err == nil && el > 3*time.Second:
			t.FatalfLive("%s took %v although %d of %d needed cosigners answer at once", m, el, healthy, ring.T)
		case healthy >= ring.T && rep.err != nil:
			t.FatalfLive("%s refused although %d of %d needed cosigners are healthy: %v", m, healthy, ring.T, rep.err)
		case healthy < ring.T && rep.err == nil:
			t.Fatalf("%s signed although only %d of %d needed cosigners answer", m, healthy, ring.T)
		case rep.err == nil && !ring.verifies(m, rep.sig):
			t.Fatalf("%s: signature does not verify", m)
		}
		if healthy < ring.T {
			t.Label("not enough healthy")
		} else if nf > 0 {
			okWithFault++
		}
		if t.Chance(1, 10) {
			id := peers[t.Intn(len(peers))]
			t.Logf("restart cosigner %d", id)
			ring.Nodes[id].crash(t)
		}
	}
	if okWithFault > 0 {
		t.NonTrivial(fmt.Sprint(t.Rendered()))
	}
}
