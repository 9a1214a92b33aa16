package main

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

func init() { registry["C08"] = propC08 }

func propC08() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C08",
		Rule: "deal: for drawn rings and positions, every part a cosigner deals is opened with every RSA key of the ring, and the parts are interpolated over drawn subsets of t and of t-1 destinations. " +
			"tamper: a sign request for a fresh position with one part altered (each field, drawn mutation), forged (other RSA key), from an unknown ID, unsigned, or destined to somebody else; sometimes " +
			"after an untampered control request. Oracle: refused, no share, state file and in-memory watermark unchanged, and the untampered request is served afterwards. Non-trivial: every case. Distinct by choices.",
		Parts: []pbt.Part{
			{Name: "deal", Fn: c08Deal, Quick: 400, Thorough: 20000, QuickSecs: 20, ThoroughSecs: 300},
			{Name: "tamper", Fn: c08Tamper, Quick: 1500, Thorough: 80000, QuickSecs: 25, ThoroughSecs: 600},
		}}
}

func openPart(k *rsa.PrivateKey, p signer.CosignerEphemeralSecretPart) ([]byte, error) {
	return rsa.DecryptOAEP(sha256.New(), rand.Reader, k, p.EncryptedSharePart, nil)
}

// reconstruct interpolates the secret behind the parts from the first k of them.
func reconstruct(t *pbt.T, ring *Ring, parts []signer.CosignerEphemeralSecretPart, k int) []byte {
	var ids []int
	var shares [][]byte
	for _, p := range parts[:k] {
		b, err := openPart(ring.RSA[p.DestinationID], p)
		if err != nil {
			t.Fatalf("part for cosigner %d does not open with its key: %v", p.DestinationID, err)
		}
		ids = append(ids, p.DestinationID)
		shares = append(shares, b)
	}
	// CombineShares wants ascending ids
	for i := range ids {
		for j := i + 1; j < len(ids); j++ {
			if ids[j] < ids[i] {
				ids[i], ids[j] = ids[j], ids[i]
				shares[i], shares[j] = shares[j], shares[i]
			}
		}
	}
	return tsed25519.CombineShares(uint8(ring.Shares), ids, shares)
}

func c08Deal(t *pbt.T) {
	n := t.Range(3, 7)
	th := t.Range(2, n)
	ring := NewRing(t, n, th, nil)
	id := 1 + t.Intn(n)
	node := ring.Nodes[id]
	m := MsgGen{Base: 1 + drawI64(t)>>1, H: 3, R: 3}.Draw(t)
	h := m.HRST()
	h.Timestamp = t.I64()
	t.Logf("n=%d t=%d dealer %d at %+v", n, th, id, h)
	res, err := node.LC.GetEphemeralSecretParts(h)
	if err != nil {
		t.Fatalf("no parts: %v", err)
	}
	parts := res.EncryptedSecrets
	if len(parts) != n-1 {
		t.Fatalf("%d parts for %d peers", len(parts), n-1)
	}
	seen := map[int]bool{id: true}
	shares := map[int][]byte{}
	for _, p := range parts {
		if p.SourceID != id || seen[p.DestinationID] || p.DestinationID < 1 || p.DestinationID > n {
			t.Fatalf("part from %d for %d (seen %v)", p.SourceID, p.DestinationID, seen)
		}
		seen[p.DestinationID] = true
		if len(p.SourceSig) == 0 {
			t.Fatalf("the part for %d is not signed", p.DestinationID)
		}
		for k := 1; k <= n; k++ {
			b, err := openPart(ring.RSA[k], p)
			if (err == nil) != (k == p.DestinationID) {
				t.Fatalf("part for cosigner %d opens with the key of cosigner %d: %v", p.DestinationID, k, err == nil)
			}
			if err == nil {
				shares[k] = b
			}
		}
		s := shares[p.DestinationID]
		for _, f := range [][]byte{p.SourceEphemeralSecretPublicKey, p.EncryptedSharePart, p.SourceSig} {
			if bytes.Contains(f, s) {
				t.Fatalf("the part for %d contains its share in clear", p.DestinationID)
			}
		}
	}
	pub := parts[0].SourceEphemeralSecretPublicKey
	for a, x := range shares {
		for b, y := range shares {
			if a < b && bytes.Equal(x, y) {
				t.Fatalf("cosigners %d and %d are dealt the same share", a, b)
			}
		}
	}
	pick := func(k int) []signer.CosignerEphemeralSecretPart {
		var o []signer.CosignerEphemeralSecretPart
		for _, i := range t.Subset(len(parts), k) {
			o = append(o, parts[i])
		}
		return o
	}
	for i := 0; i < 3; i++ {
		if th <= n-1 {
			sec := reconstruct(t, ring, pick(t.Range(th, n-1)), th)
			if !bytes.Equal(tsed25519.ScalarMultiplyBase(sec), pub) {
				t.Fatalf("%d parts do not reconstruct the secret behind the announced nonce %x", th, pub)
			}
			t.Label("reconstructed")
		}
		if th > 1 {
			sec := reconstruct(t, ring, pick(th-1), th-1)
			if bytes.Equal(tsed25519.ScalarMultiplyBase(sec), pub) {
				t.Fatalf("%d parts reconstruct the secret although the threshold is %d", th-1, th)
			}
		}
	}
	// asked again, the same secret is dealt
	res2, err := node.LC.GetEphemeralSecretParts(h)
	if err != nil {
		t.Fatalf("no parts: %v", err)
	}
	for _, p := range res2.EncryptedSecrets {
		b, err := openPart(ring.RSA[p.DestinationID], p)
		if err != nil || !bytes.Equal(b, shares[p.DestinationID]) || !bytes.Equal(p.SourceEphemeralSecretPublicKey, pub) {
			t.Fatalf("asked again at the same position, cosigner %d is dealt another share", p.DestinationID)
		}
	}
	t.NonTrivial("")
}

func flip(t *pbt.T, b []byte) []byte {
	o := append([]byte{}, b...)
	if len(o) == 0 {
		return []byte{1}
	}
	switch t.Weighted(4, 1, 1, 1) {
	case 0:
		o[t.Intn(len(o))] ^= 1 << uint(t.Intn(8))
	case 1:
		o = o[:len(o)-1]
	case 2:
		o = append(o, byte(t.Intn(256)))
	case 3:
		for i := range o {
			o[i] = byte(t.U64())
		}
		if bytes.Equal(o, b) {
			o[0] ^= 1
		}
	}
	return o
}

func c08Tamper(t *pbt.T) {
	n := t.Range(2, 5)
	th := n/2 + 1
	ring := NewRing(t, n, th, nil)
	id := 1 + t.Intn(n)
	sut := ring.Nodes[id]
	peers := others(ring.IDs, id)
	m := Msg{Kind: 1 + t.Intn(3), H: 1 + int64(t.Intn(3)), R: int64(t.Intn(2)), Block: t.Intn(3), TS: t.Intn(4)}
	t.Logf("n=%d t=%d cosigner %d", n, th, id)
	reqFor := func(m Msg) signer.CosignerSetEphemeralSecretPartsAndSignRequest {
		from := pickSome(t, peers, t.Range(th-1, len(peers)))
		return signer.CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: ring.partsFor(t, id, from, m.HRST()), HRST: m.HRST(), SignBytes: m.SignBytes()}
	}
	for i, k := 0, t.Intn(3); i < k; i++ {
		if _, err := sut.LC.SetEphemeralSecretPartsAndSign(reqFor(m)); err != nil {
			t.Fatalf("control request %s refused: %v", m, err)
		}
		m.H++
	}
	if t.Bool() {
		if _, err := sut.LC.GetEphemeralSecretParts(m.HRST()); err != nil {
			t.Fatalf("no parts: %v", err)
		}
	}
	if t.Chance(1, 3) { // many dealings outstanding
		for i, k := int64(1), t.Range(1, 12); i <= int64(k); i++ {
			o := m
			o.H += i / 2
			o.R += i % 2
			if _, err := sut.LC.GetEphemeralSecretParts(o.HRST()); err != nil {
				t.Fatalf("no parts: %v", err)
			}
		}
	}
	for round, k := 0, t.Range(1, 4); round < k; round++ {
		req := reqFor(m)
		req.EncryptedSecrets = append([]signer.CosignerEphemeralSecretPart{}, req.EncryptedSecrets...)
		j := t.Intn(len(req.EncryptedSecrets))
		p := &req.EncryptedSecrets[j]
		src := p.SourceID
		what := ""
		switch t.Weighted(2, 2, 2, 2, 2, 2, 1, 2, 2, 1, 2) {
		case 0:
			p.SourceEphemeralSecretPublicKey = flip(t, p.SourceEphemeralSecretPublicKey)
			what = "public nonce altered"
		case 1:
			p.EncryptedSharePart = flip(t, p.EncryptedSharePart)
			what = "encrypted share altered"
		case 2:
			p.SourceSig = flip(t, p.SourceSig)
			what = "signature altered"
		case 3:
			if n < 3 {
				p.SourceSig = nil
				what = "unsigned"
				break
			}
			p.SourceID = others(peers, src)[t.Intn(n-2)]
			what = "source changed to another cosigner"
		case 4:
			p.SourceID = []int{0, n + 1, -1, 255, 1 << 20, src + 256}[t.Intn(6)]
			what = fmt.Sprintf("source changed to the unknown %d", p.SourceID)
		case 5:
			p.SourceSig = nil
			if t.Bool() {
				p.SourceSig = []byte{}
			}
			what = "unsigned"
		case 6:
			p.SourceID = id
			what = "source changed to the receiver"
		case 7:
			// dealt by somebody who claims to be src but has another RSA key
			ss := signer.SignState{}
			k := ring.Keys[src]
			cps := []signer.CosignerPeer{}
			for _, o := range ring.IDs {
				cps = append(cps, signer.CosignerPeer{ID: o, PublicKey: ring.RSA[o].PublicKey})
			}
			forger := signer.NewLocalCosigner(signer.LocalCosignerConfig{CosignerKey: k, SignState: &ss, RsaKey: *rsaKeys()[maxN], Peers: cps, Total: uint8(n), Threshold: uint8(th)})
			if t.Bool() && n > 2 { // or even a known one
				forger = signer.NewLocalCosigner(signer.LocalCosignerConfig{CosignerKey: k, SignState: &ss, RsaKey: *ring.RSA[others(peers, src)[t.Intn(n-2)]], Peers: cps, Total: uint8(n), Threshold: uint8(th)})
			}
			res, err := forger.GetEphemeralSecretParts(m.HRST())
			pbt.Must(err)
			for _, fp := range res.EncryptedSecrets {
				if fp.DestinationID == id {
					*p = fp
				}
			}
			what = "signed by another key"
		case 8:
			if n < 3 {
				p.SourceSig = flip(t, p.SourceSig)
				what = "signature altered"
				break
			}
			res, err := ring.Nodes[src].LC.GetEphemeralSecretParts(m.HRST())
			pbt.Must(err)
			to := others(peers, src)[t.Intn(n-2)]
			for _, fp := range res.EncryptedSecrets {
				if fp.DestinationID == to {
					*p = fp
				}
			}
			if t.Bool() {
				p.DestinationID = id
			}
			what = fmt.Sprintf("encrypted for cosigner %d", to)
		case 9:
			// correctly dealt and signed by a cosigner that is not configured
			ss := signer.SignState{}
			k := ring.Keys[src]
			k.ID = n + 1
			out := signer.NewLocalCosigner(signer.LocalCosignerConfig{CosignerKey: k, SignState: &ss, RsaKey: *rsaKeys()[maxN], Peers: []signer.CosignerPeer{{ID: id, PublicKey: ring.RSA[id].PublicKey}}, Total: uint8(n + 1), Threshold: uint8(th)})
			res, err := out.GetEphemeralSecretParts(m.HRST())
			pbt.Must(err)
			*p = res.EncryptedSecrets[0]
			what = "dealt by an unconfigured cosigner"
		case 10:
			// mixed with another dealing of the same source: its public nonce or share
			o := m
			o.H++
			alt := ring.partsFor(t, id, []int{src}, o.HRST())[0]
			switch t.Intn(3) {
			case 0:
				p.SourceEphemeralSecretPublicKey = alt.SourceEphemeralSecretPublicKey
			case 1:
				p.EncryptedSharePart = alt.EncryptedSharePart
			case 2:
				p.SourceSig = alt.SourceSig
			}
			what = "a field taken from another part of the same source"
		}
		before := fileBytes(sut.File)
		h0 := HRS{sut.State.Height, sut.State.Round, int(sut.State.Step)}
		var res *signer.CosignerSignResponse
		var err error
		msg, isSUT, raw := pbt.Catch(func() { res, err = sut.LC.SetEphemeralSecretPartsAndSign(req) })
		if raw != nil {
			if isSUT {
				t.Fatalf("part %d: %s: the cosigner crashed: %s", j, what, msg)
			}
			panic(raw)
		}
		t.Logf("%s with part %d of %d from %d: %s -> %s", m, j, len(req.EncryptedSecrets), src, what, okErr(err))
		t.Label(what)
		if err == nil || (res != nil && len(res.Signature) > 0) {
			t.Fatalf("part %d from cosigner %d: %s: accepted, share issued", j, src, what)
		}
		if h1 := (HRS{sut.State.Height, sut.State.Round, int(sut.State.Step)}); h1 != h0 || !bytes.Equal(before, fileBytes(sut.File)) {
			t.Fatalf("part %d: %s: refused but the watermark moved from %v to %v", j, what, h0, h1)
		}
	}
	// another message at this position is still free to sign
	o := m
	o.Block = (m.Block + 1) % 3
	if t.Bool() {
		o = m
	}
	if res, err := sut.LC.SetEphemeralSecretPartsAndSign(reqFor(o)); err != nil || len(res.Signature) == 0 {
		t.Fatalf("after the refused requests the untampered %s is refused: %v", o, err)
	}
	t.NonTrivial("")
}
