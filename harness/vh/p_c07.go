package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

func init() { registry["C07"] = propC07 }

func propC07() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C07",
		Rule: "adversary: one real cosigner faces peers whose every part comes from real dealings, recombined freely: alternative dealings for the same position, parts replayed from another " +
			"height/round/step/timestamp, any subset and order, nonce position different from the signed message, re-encoded sign bytes (trailing bytes, unknown fields), restarts, announcements, and " +
			"concurrent batches. Oracle over all released shares: every combined nonce and every own contribution serves one sign-byte string; the combined nonce equals own announced public nonce plus " +
			"peer publics it was given; own publics are globally fresh. random: bits of reconstructed secrets are balanced. Non-trivial: at least two shares released or one refusal for a reused nonce. Distinct by rendered history.",
		Parts: []pbt.Part{
			{Name: "adversary", Fn: c07Adversary, Quick: 3000, Thorough: 100000, QuickSecs: 30, ThoroughSecs: 900},
			{Name: "random", Fn: c07Random, Fixed: 1},
		}}
}

// ownPublics remembers every public nonce any cosigner instance announced: it must be new for each
// (instance, position).
var (
	ownMu      sync.Mutex
	ownPublics = map[string]string{}
)

func noteOwn(t *pbt.T, pub []byte, owner string) {
	ownMu.Lock()
	defer ownMu.Unlock()
	if o, ok := ownPublics[string(pub)]; ok && o != owner {
		t.Fatalf("the public nonce %x of %s was already used by %s", pub, owner, o)
	}
	ownPublics[string(pub)] = owner
}

var c07Instance int64
var c07InstMu sync.Mutex

func nextInstance() int64 {
	c07InstMu.Lock()
	defer c07InstMu.Unlock()
	c07Instance++
	return c07Instance
}

func c07Adversary(t *pbt.T) {
	n := t.Range(2, 4)
	th := n/2 + 1
	if t.Bool() {
		th = n
	}
	ring := NewRing(t, n, th, nil)
	sut := ring.Nodes[1+t.Intn(n)]
	peers := others(ring.IDs, sut.ID)
	t.Logf("n=%d t=%d sut=%d", n, th, sut.ID)
	inst := nextInstance()
	g := MsgGen{Base: 5, H: 2, R: 2, Chains: 1}
	pool := []Msg{}
	for i := 0; i < 5; i++ {
		m := g.Draw(t)
		pool = append(pool, m)
		for j := 0; j < 2; j++ {
			pool = append(pool, g.Mutate(t, m))
		}
	}
	// dealers: alternatives per peer
	alts := map[int][]*signer.LocalCosigner{}
	for _, id := range peers {
		for k := 0; k < 2; k++ {
			ss := signer.SignState{}
			alts[id] = append(alts[id], ring.Nodes[id].Fresh(&ss))
		}
	}
	given := map[signer.HRSTKey]map[int][][]byte{} // publics the cosigner was given per nonce position and source
	part := func(id, alt int, hrst signer.HRSTKey) *signer.CosignerEphemeralSecretPart {
		res, err := alts[id][alt].GetEphemeralSecretParts(hrst)
		if err != nil {
			t.Fatalf("cosigner %d produces no parts for %+v: %v", id, hrst, err)
		}
		for i := range res.EncryptedSecrets {
			if res.EncryptedSecrets[i].DestinationID == sut.ID {
				return &res.EncryptedSecrets[i]
			}
		}
		t.Fatalf("cosigner %d produces no part for %d", id, sut.ID)
		return nil
	}
	owner := func(h signer.HRSTKey) string { return fmt.Sprintf("%d:%d:%v", inst, sut.ID, h) }
	ownPub := func(h signer.HRSTKey) []byte {
		res, err := sut.LC.GetEphemeralSecretParts(h)
		if err != nil || len(res.EncryptedSecrets) != len(peers) {
			t.Fatalf("no nonce parts for %+v: %v", h, err)
		}
		for _, p := range res.EncryptedSecrets[1:] {
			if !bytes.Equal(p.SourceEphemeralSecretPublicKey, res.EncryptedSecrets[0].SourceEphemeralSecretPublicKey) {
				t.Fatalf("different public nonces announced at once for %+v", h)
			}
		}
		pub := res.EncryptedSecrets[0].SourceEphemeralSecretPublicKey
		noteOwn(t, pub, owner(h))
		return pub
	}
	type rel struct {
		eph, sig, sb []byte
		what         string
	}
	byEph := map[string]rel{}
	byOwn := map[string]rel{}
	bySig := map[string]bool{}
	released, reused := 0, 0
	var mu sync.Mutex
	reencode := func(sb []byte) []byte {
		switch t.Weighted(8, 1, 1) {
		case 1:
			return append(append([]byte{}, sb...), t.Bytes(t.Range(1, 4))...)
		case 2:
			if len(sb) < 120 { // unknown field 15, varint, inside the delimited message
				o := append([]byte{sb[0] + 2}, sb[1:]...)
				return append(o, 0x78, byte(t.Intn(100)))
			}
		}
		return sb
	}
	type job struct {
		m    Msg
		req  signer.CosignerSetEphemeralSecretPartsAndSignRequest
		desc string
	}
	mk := func() job {
		m := pool[t.Intn(len(pool))]
		nonce := m
		if t.Chance(1, 8) {
			nonce = pool[t.Intn(len(pool))]
		}
		req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: nonce.HRST(), SignBytes: reencode(m.SignBytes())}
		desc := fmt.Sprintf("sign %s (%d bytes)", m, len(req.SignBytes))
		if nonce != m {
			desc += fmt.Sprintf(" with nonce position of %s", nonce)
		}
		from := pickSome(t, peers, t.Range(0, len(peers)))
		if t.Chance(3, 4) {
			from = peers
		}
		for _, i := range t.Perm(len(from)) {
			id := from[i]
			src := nonce
			if t.Chance(1, 6) {
				src = pool[t.Intn(len(pool))]
			}
			alt := 0
			if t.Chance(1, 4) {
				alt = 1
			}
			p := part(id, alt, src.HRST())
			req.EncryptedSecrets = append(req.EncryptedSecrets, *p)
			h := nonce.HRST()
			if given[h] == nil {
				given[h] = map[int][][]byte{}
			}
			given[h][id] = append(given[h][id], p.SourceEphemeralSecretPublicKey)
			desc += fmt.Sprintf(" %d/%d", id, alt)
			if src != nonce {
				desc += "(replayed)"
			}
		}
		return job{m, req, desc}
	}
	pre := map[signer.HRSTKey][]byte{} // own publics asked for before a concurrent batch
	run := func(j job) {
		res, err := sut.LC.SetEphemeralSecretPartsAndSign(j.req)
		mu.Lock()
		defer mu.Unlock()
		t.Logf("%s -> %s", j.desc, okErr(err))
		if err != nil || len(res.Signature) == 0 {
			if err != nil && bytes.Contains([]byte(err.Error()), []byte("already used")) {
				reused++
			}
			return
		}
		if bytes.Equal(res.Signature, fill(3, 64)) {
			return // the public signature of a message announced by the cluster, not a share
		}
		released++
		r := rel{res.EphemeralPublic, res.Signature, j.req.SignBytes, j.desc}
		if o, ok := byEph[string(r.eph)]; ok && !bytes.Equal(o.sb, r.sb) {
			t.Fatalf("one combined nonce %x for two sign-byte strings: [%s] and [%s]", r.eph, o.what, j.desc)
		}
		if _, ok := byEph[string(r.eph)]; !ok {
			byEph[string(r.eph)] = r
		}
		key := string(r.eph) + string(r.sig)
		if bySig[key] {
			return // a repeat of a released share
		}
		bySig[key] = true
		// decompose: own + some of the peers' publics given for this position
		h := j.m.HRST()
		own := pre[h]
		if own == nil {
			own = ownPub(h)
		}
		found := false
		var rec func(i int, acc [][]byte)
		rec = func(i int, acc [][]byte) {
			if found {
				return
			}
			if i == len(peers) {
				els := []tsed25519.Element{own}
				for _, a := range acc {
					els = append(els, a)
				}
				if bytes.Equal(tsed25519.AddElements(els), r.eph) {
					found = true
				}
				return
			}
			rec(i+1, acc)
			seen := map[string]bool{}
			for _, p := range given[h][peers[i]] {
				if !seen[string(p)] {
					seen[string(p)] = true
					rec(i+1, append(append([][]byte{}, acc...), p))
				}
			}
		}
		rec(0, nil)
		if !found {
			t.Fatalf("[%s]: the combined nonce %x does not contain the cosigner's own contribution %x", j.desc, r.eph, own)
		}
		if o, ok := byOwn[string(own)]; ok && (!bytes.Equal(o.sb, r.sb) || !bytes.Equal(o.eph, r.eph)) {
			t.Fatalf("own nonce contribution %x used twice: [%s] combined %x and [%s] combined %x", own, o.what, o.eph, j.desc, r.eph)
		}
		byOwn[string(own)] = r
	}
	for i, k := 0, t.Range(3, 16); i < k; i++ {
		switch t.Weighted(12, 3, 1, 2, 3) {
		case 0:
			run(mk())
		case 1:
			m := pool[t.Intn(len(pool))]
			ownPub(m.HRST())
			t.Logf("asked for parts of %s", m)
		case 2:
			t.Logf("restart")
			sut.Restart(t)
			inst = nextInstance()
			given = map[signer.HRSTKey]map[int][][]byte{}
		case 3:
			m := pool[t.Intn(len(pool))]
			_ = sut.LC.SaveLastSignedState(signer.SignStateConsensus{Height: m.H, Round: m.R, Step: int8(m.Kind), Signature: fill(3, 64), SignBytes: m.SignBytes()})
			t.Logf("announce %s", m)
		case 4:
			var js []job
			base := mk()
			js = append(js, base)
			for c, k := 0, t.Range(1, 3); c < k; c++ {
				j := mk()
				if t.Bool() {
					j.req.HRST, j.req.SignBytes, j.m = base.req.HRST, reencode(base.m.SignBytes()), base.m
					h := j.req.HRST
					if given[h] == nil {
						given[h] = map[int][][]byte{}
					}
					for _, p := range j.req.EncryptedSecrets {
						given[h][p.SourceID] = append(given[h][p.SourceID], p.SourceEphemeralSecretPublicKey)
					}
					j.desc += " moved to the first position"
				}
				js = append(js, j)
			}
			// A signature at a higher position makes the cosigner forget lower ones: unless all are at one position,
			// ask for the own publics first.
			oneHRS := true
			for _, j := range js {
				oneHRS = oneHRS && j.m.HRS() == base.m.HRS()
			}
			if !oneHRS || t.Bool() {
				for _, j := range js {
					pre[j.m.HRST()] = ownPub(j.m.HRST())
				}
			}
			t.Logf("concurrently (own parts asked for: %v):", len(pre) > 0)
			var grp pbt.Group
			for _, j := range js {
				j := j
				grp.Go(func() { run(j) })
			}
			grp.Wait()
			pre = map[signer.HRSTKey][]byte{}
		}
	}
	t.Label(fmt.Sprintf("released=%d", minInt(released, 3)))
	if released >= 2 || (released > 0 && reused > 0) {
		t.NonTrivial(fmt.Sprint(t.Rendered()))
	}
}

// c07Random reconstructs the secrets behind many nonces and tests their bits.
func c07Random(t *pbt.T) {
	const N = 1600
	ring := NewRing(t, 3, 2, nil)
	var mu sync.Mutex
	ones := make([]int, 248)
	var g pbt.Group
	for w := 0; w < 8; w++ {
		w := w
		g.Go(func() {
			for i := 0; i < N/8; i++ {
				h := signer.HRSTKey{Height: int64(1 + w*1000 + i), Round: 0, Step: 2, Timestamp: int64(i)}
				ss := signer.SignState{}
				lc := ring.Nodes[1].Fresh(&ss)
				if i%2 == 0 { // same position again and again
					h = signer.HRSTKey{Height: 1, Round: 0, Step: 2, Timestamp: 7}
				}
				res, err := lc.GetEphemeralSecretParts(h)
				if err != nil {
					t.Fatalf("no parts: %v", err)
				}
				sec := reconstruct(t, ring, res.EncryptedSecrets, 2)
				noteOwn(t, res.EncryptedSecrets[0].SourceEphemeralSecretPublicKey, fmt.Sprintf("random %d %d", w, i))
				mu.Lock()
				for b := range ones {
					if sec[b/8]&(1<<uint(b%8)) != 0 {
						ones[b]++
					}
				}
				mu.Unlock()
			}
		})
	}
	g.Wait()
	for b, c := range ones {
		if c < N*38/100 || c > N*62/100 {
			t.Fatalf("bit %d of the nonce secrets is set in %d of %d", b, c, N)
		}
	}
	t.Logf("%d nonce secrets of one cosigner reconstructed from the parts sent to its peers; all of 248 bits set in 38..62 %%", N)
	t.NonTrivial("")
}
