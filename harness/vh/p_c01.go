package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"sync"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
)

func init() { registry["C01"] = propC01 }

// wmark is the model of one cosigner's watermark.
type wmark struct {
	hrs   HRS
	bytes []byte // sign bytes at the watermark, nil when none are known
	msg   Msg
	has   bool
}

func hrst0(h HRS) signer.HRSTKey {
	return signer.HRSTKey{Height: h.H, Round: h.R, Step: int8(h.S)}
}

func propC01() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C01",
		Rule: "A case is a history of 4..40 operations (prepared/unprepared sign requests of messages drawn to collide, " +
			"cluster last-signed-state updates, restarts from the state file, height jumps) on one cosigner of a generated n/t ring, " +
			"compared step by step with a watermark model. Non-trivial: the history contains at least one issued share and at " +
			"least one request the model refuses (conflict or regression). Distinct by rendered history.",
		Parts: []pbt.Part{
			{Name: "history", Fn: c01History, Quick: 1500, Thorough: 60000, QuickSecs: 30, ThoroughSecs: 600},
			{Name: "long", Fn: c01Long, Quick: 40, Thorough: 1500, QuickSecs: 15, ThoroughSecs: 300},
		}}
}

func c01History(t *pbt.T) { c01Run(t, t.Range(4, 40), MsgGen{Base: 10, H: 4, R: 3, Chains: 2}) }

func c01Long(t *pbt.T) {
	c01Run(t, t.Range(100, 200), MsgGen{Base: int64(1 + t.Intn(5)), H: 3 + t.Intn(30), R: 4, Chains: 3, TS: 6})
}

func c01Run(t *pbt.T, steps int, g MsgGen) {
	g = g.Wide(t)
	n := t.Range(2, 5)
	th := t.Range(1, n)
	r := NewRing(t, n, th, nil)
	sut := r.Nodes[1+t.Intn(n)]
	peers := others(r.IDs, sut.ID)
	t.Logf("n=%d t=%d sut=%d", n, th, sut.ID)
	var w wmark
	type issued struct {
		m  Msg
		by []byte
	}
	var shares []issued
	var recent []Msg
	prepared := map[signer.HRSTKey]bool{}
	refused, signed := 0, 0
	var mu sync.Mutex

	draw := func() Msg {
		if len(recent) > 0 && t.Chance(3, 5) {
			return g.Mutate(t, recent[len(recent)-1-t.Intn(minInt(len(recent), 4))])
		}
		if w.has && t.Chance(1, 2) {
			return g.Mutate(t, w.msg)
		}
		if !w.has && w.hrs.S > 0 && t.Chance(1, 2) {
			// exactly at a position of which only height, round and step are known
			m := g.Draw(t)
			m.H, m.R, m.Kind = w.hrs.H, w.hrs.R, w.hrs.S
			return m
		}
		d := g
		if w.hrs.H > 1 && t.Chance(2, 3) {
			d.Base = w.hrs.H
			d.H = 2
		}
		return d.Draw(t)
	}
	sign := func(m Msg, prep bool, withParts bool) {
		hrst := m.HRST()
		sb := m.SignBytes()
		from := pickSome(t, peers, minInt(len(peers), t.Range(th-1, len(peers))))
		if prep {
			if _, err := sut.LC.GetEphemeralSecretParts(hrst); err != nil {
				t.Fatalf("nonce parts refused for %s: %v", m, err)
			}
			prepared[hrst] = true
		}
		var parts []signer.CosignerEphemeralSecretPart
		if withParts {
			parts = r.partsFor(t, sut.ID, from, hrst)
			if len(parts) != len(from) {
				t.Fatalf("peers %v produced %d parts for cosigner %d", from, len(parts), sut.ID)
			}
		}
		before := fileBytes(sut.File)
		var res *signer.CosignerSignResponse
		var err error
		msg, isSUT, raw := pbt.Catch(func() {
			res, err = sut.LC.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{
				EncryptedSecrets: parts, HRST: hrst, SignBytes: sb})
		})
		if raw != nil {
			if isSUT {
				t.Logf("sign %s -> panic", m)
				t.Fatalf("sign request %s crashed the cosigner: %s", m, msg)
			}
			panic(raw)
		}
		ok := err == nil && res != nil && len(res.Signature) > 0
		verdict := "above"
		if w.has || w.hrs != (HRS{}) {
			switch c := m.HRS().Cmp(w.hrs); {
			case c < 0:
				verdict = "below"
			case c == 0 && w.bytes == nil:
				verdict = "unknown"
			case c == 0 && bytes.Equal(w.bytes, sb):
				verdict = "same"
			case c == 0 && w.has && w.msg.Content() == m.Content():
				verdict = "tsonly"
			case c == 0:
				verdict = "conflict"
			}
		}
		t.Logf("sign %s prep=%v parts=%d -> %s ok=%v", m, prep, len(parts), verdict, ok)
		t.Label(verdict + fmt.Sprintf(" ok=%v", ok))
		if err == nil && !ok {
			t.Fatalf("sign request %s returned neither a share nor an error", m)
		}
		if ok {
			if verdict == "below" {
				t.Fatalf("share issued for %s although the watermark is %+v", m, w.hrs)
			}
			if verdict == "conflict" {
				t.Fatalf("share issued for %s although %s is signed at that position", m, w.msg)
			}
			if verdict == "unknown" {
				t.Fatalf("share issued for %s although the position was already used with unknown content", m)
			}
			for _, s := range shares {
				if s.m.HRS() == m.HRS() && s.m.Content() != m.Content() {
					t.Fatalf("shares issued for conflicting messages: %s and %s", s.m, m)
				}
				if s.m.HRS().Cmp(m.HRS()) > 0 {
					t.Fatalf("share issued for %s after a share for %s", m, s.m)
				}
			}
			shares = append(shares, issued{m, sb})
			signed++
			if verdict == "above" {
				w = wmark{hrs: m.HRS(), bytes: sb, msg: m, has: true}
			}
		} else {
			refused++
			if verdict == "above" && (prep || withParts) && (withParts || th == 1) {
				// The watermark is lower and the protocol was followed: refusing means an earlier refused or
				// repeated request moved the watermark.
				if prep {
					t.Fatalf("well-formed request %s above the watermark %+v is refused: %v", m, w.hrs, err)
				}
			}
			if verdict == "same" {
				t.Fatalf("identical repetition of the last signed message %s is refused: %v", m, err)
			}
			if !bytes.Equal(before, fileBytes(sut.File)) {
				t.Fatalf("refused request %s (%v) changed the state file from %s to %s", m, err, before, fileBytes(sut.File))
			}
		}
	}
	for i := 0; i < steps; i++ {
		switch t.Weighted(20, 4, 2, 5, 3, 1) {
		case 0:
			m := draw()
			sign(m, true, true)
			recent = append(recent, m)
		case 1:
			m := draw()
			sign(m, false, true)
			recent = append(recent, m)
		case 2:
			m := draw()
			sign(m, t.Bool(), false)
			recent = append(recent, m)
		case 3: // the cluster announces a signed message
			m := draw()
			sig := fill(0x5a, 64)
			before := fileBytes(sut.File)
			err := sut.LC.SaveLastSignedState(signer.SignStateConsensus{Height: m.H, Round: m.R, Step: int8(m.Kind), Signature: sig, SignBytes: m.SignBytes()})
			c := 1
			if w.has || w.hrs != (HRS{}) {
				c = m.HRS().Cmp(w.hrs)
			}
			t.Logf("announce %s -> cmp %d err=%v", m, c, err != nil)
			if c > 0 {
				if err != nil {
					t.Fatalf("announcement of %s above the watermark %+v failed: %v", m, w.hrs, err)
				}
				w = wmark{hrs: m.HRS(), bytes: m.SignBytes(), msg: m, has: true}
			} else if !bytes.Equal(before, fileBytes(sut.File)) {
				t.Fatalf("announcement of %s not above the watermark %+v changed the state file", m, w.hrs)
			}
			recent = append(recent, m)
		case 4:
			t.Logf("restart")
			t.Label("restart")
			// updates are durable when the call returns; the harness checks that separately (C05)
			sut.Restart(t)
			prepared = map[signer.HRSTKey]bool{}
		case 5: // the state is set from outside while stopped: to a height, or to a position in the minimal form
			at := HRS{w.hrs.H + int64(t.Intn(4)) - 1, 0, 0}
			if t.Bool() {
				m := draw()
				at = m.HRS()
				if t.Bool() {
					at.R, at.S = w.hrs.R+int64(t.Intn(2)), 1+t.Intn(3)
				}
			}
			c := at.Cmp(w.hrs)
			if t.Bool() && c > 0 {
				pbt.Must(ioutil.WriteFile(sut.File, []byte(fmt.Sprintf(`{"height":"%d","round":"%d","step":%d}`, at.H, at.R, at.S)), 0600))
				t.Logf("minimal state file %v", at)
			} else {
				ss, err := signer.LoadSignState(sut.File)
				if err != nil {
					t.Fatalf("state file does not load: %v", err)
				}
				ss.EphemeralPublic = nil
				err = ss.Save(signer.SignStateConsensus{Height: at.H, Round: at.R, Step: int8(at.S)}, &mu)
				t.Logf("set position %v -> cmp %d err=%v", at, c, err != nil)
				if c > 0 && err != nil || c < 0 && err == nil {
					t.Fatalf("moving the stored state %+v to %+v: err=%v", w.hrs, at, err)
				}
			}
			if c > 0 {
				w = wmark{hrs: at}
			}
			sut.Restart(t)
			prepared = map[signer.HRSTKey]bool{}
		}
	}
	if signed > 0 && refused > 0 {
		t.NonTrivial(fmt.Sprint(t.Rendered()))
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
