package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
)

func init() { registry["C06"] = propC06 }

func propC06() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C06",
		Rule: "roundtrip: drawn states (int64 extremes, nil and non-nil fields, drawn sign bytes) are saved, loaded, compared and then probed with drawn positions next to the saved one on both the " +
			"saved and the loaded instance. minimal: hand-written files (number and string forms, whitespace, field order). damaged: every kind of truncation and replacement of a valid file. create: " +
			"create-if-missing on present and absent files. signed: the file left by a real cosigner after signing, reloaded. Non-trivial: state with sign bytes (roundtrip, signed), every case (others). Distinct by choices.",
		Parts: []pbt.Part{
			{Name: "roundtrip", Fn: c06Roundtrip, Quick: 8000, Thorough: 400000, QuickSecs: 20, ThoroughSecs: 300},
			{Name: "minimal", Fn: c06Minimal, Quick: 4000, Thorough: 100000, QuickSecs: 15, ThoroughSecs: 100},
			{Name: "damaged", Fn: c06Damaged, Quick: 6000, Thorough: 200000, QuickSecs: 15, ThoroughSecs: 200},
			{Name: "create", Fn: c06Create, Quick: 2000, Thorough: 50000, QuickSecs: 10, ThoroughSecs: 100},
			{Name: "signed", Fn: c06Signed, Quick: 300, Thorough: 10000, QuickSecs: 15, ThoroughSecs: 200},
		}}
}

func drawI64(t *pbt.T) int64 {
	v := t.I64()
	if v < 0 {
		v = -(v + 1)
	}
	return v
}

// drawState draws a consensus state; withBytes tells whether it carries sign bytes and signature.
func drawSSC(t *pbt.T) (ssc signer.SignStateConsensus, eph []byte) {
	ssc.Height, ssc.Round, ssc.Step = drawI64(t), drawI64(t), int8(1+t.Intn(3))
	if ssc.Height == 0 && ssc.Round == 0 && ssc.Step == 0 {
		ssc.Step = 1
	}
	switch t.Weighted(3, 5, 3) {
	case 1:
		m := Msg{Kind: int(ssc.Step), H: ssc.Height, R: ssc.Round & 0x7fffffff, Block: t.Intn(5), TS: t.Intn(len(tsPool)), POL: t.Intn(3), Chain: t.Intn(3)}
		ssc.SignBytes = m.SignBytes()
		ssc.Signature = t.Bytes(t.Range(1, 64))
	case 2:
		ssc.SignBytes = t.Bytes(t.Range(1, 200))
		ssc.Signature = t.Bytes(t.Range(1, 64))
	}
	if t.Bool() {
		eph = t.Bytes(32)
	}
	return
}

func around(t *pbt.T, h int64) int64 {
	d := []int64{0, 0, 0, 1, -1, 2, 5}[t.Intn(7)]
	if (d > 0 && h > (1<<62)) || h+d < 0 {
		return h
	}
	return h + d
}

type verdict struct {
	check string
	less  string
	save  string
}

func c06Compare(t *pbt.T, a, b *signer.SignState, what string) {
	if a.Height != b.Height || a.Round != b.Round || a.Step != b.Step {
		t.Fatalf("%s: saved %d/%d/%d, loaded %d/%d/%d", what, a.Height, a.Round, a.Step, b.Height, b.Round, b.Step)
	}
	if !bytes.Equal(a.EphemeralPublic, b.EphemeralPublic) {
		t.Fatalf("%s: ephemeral public key %x became %x", what, a.EphemeralPublic, b.EphemeralPublic)
	}
	if !bytes.Equal(a.Signature, b.Signature) {
		t.Fatalf("%s: signature %x became %x", what, a.Signature, b.Signature)
	}
	if !bytes.Equal(a.SignBytes, b.SignBytes) {
		t.Fatalf("%s: sign bytes %x became %x", what, []byte(a.SignBytes), []byte(b.SignBytes))
	}
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return "refused"
}

// c06Probe asks both instances the same questions.
func c06Probe(t *pbt.T, a, b *signer.SignState, what string) {
	for i := 0; i < 6; i++ {
		h := signer.HRSTKey{Height: around(t, a.Height), Round: around(t, a.Round), Step: int8(1 + t.Intn(3)), Timestamp: 1}
		if i == 0 {
			h = signer.HRSTKey{Height: a.Height, Round: a.Round, Step: a.Step}
		}
		s1, e1 := a.CheckHRS(h)
		s2, e2 := b.CheckHRS(h)
		if s1 != s2 || (e1 == nil) != (e2 == nil) {
			t.Fatalf("%s: at %+v the saved state says %v/%v, the loaded one %v/%v", what, h, s1, e1, s2, e2)
		}
		// independent oracle
		c := HRS{h.Height, h.Round, int(h.Step)}.Cmp(HRS{a.Height, a.Round, int(a.Step)})
		if c < 0 && e2 == nil {
			t.Fatalf("%s: loaded state at %d/%d/%d accepts lower %+v", what, a.Height, a.Round, a.Step, h)
		}
		if c > 0 && (e2 != nil || s2) {
			t.Fatalf("%s: loaded state at %d/%d/%d refuses higher %+v: %v", what, a.Height, a.Round, a.Step, h, e2)
		}
		l1 := a.GetErrorIfLessOrEqual(h.Height, h.Round, h.Step, nil)
		l2 := b.GetErrorIfLessOrEqual(h.Height, h.Round, h.Step, nil)
		if (l1 == nil) != (l2 == nil) || (c > 0) != (l2 == nil) {
			t.Fatalf("%s: at %+v advancing: saved state %v, loaded state %v", what, h, l1, l2)
		}
	}
	var lk sync.Mutex
	k := signer.HRSKey{Height: a.Height, Round: a.Round, Step: a.Step}
	_, c1 := a.GetFromCache(k, &lk)
	_, c2 := b.GetFromCache(k, &lk)
	if c1 != nil && (c2 == nil || !bytes.Equal(c1.SignBytes, c2.SignBytes) || !bytes.Equal(c1.Signature, c2.Signature)) {
		t.Fatalf("%s: the loaded state does not answer with what was signed at %+v", what, k)
	}
	if len(a.SignBytes) > 0 {
		for _, sb := range [][]byte{a.SignBytes, Msg{Kind: int(a.Step), H: a.Height, R: a.Round & 0x7fffffff, Block: t.Intn(5), TS: t.Intn(len(tsPool))}.SignBytes()} {
			d1, d2 := a.OnlyDifferByTimestamp(sb), b.OnlyDifferByTimestamp(sb)
			if (d1 == nil) != (d2 == nil) {
				t.Fatalf("%s: only-timestamp verdict %v became %v for %x", what, d1, d2, sb)
			}
		}
	}
}

func c06Roundtrip(t *pbt.T) {
	file := filepath.Join(t.Scratch, "s.json")
	ss, err := signer.LoadOrCreateSignState(file)
	if err != nil {
		t.Fatalf("create: %v", err)
	}
	for i, k := 0, t.Range(1, 3); i < k; i++ {
		ssc, eph := drawSSC(t)
		ss.EphemeralPublic = eph
		prev := HRS{ss.Height, ss.Round, int(ss.Step)}
		up := HRS{ssc.Height, ssc.Round, int(ssc.Step)}.Cmp(prev) > 0
		err := ss.Save(ssc, &sync.Mutex{})
		if (err == nil) != up {
			t.Fatalf("saving %d/%d/%d over %v: %v", ssc.Height, ssc.Round, ssc.Step, prev, err)
		}
		t.Logf("save %d/%d/%d sb=%d eph=%d -> %s", ssc.Height, ssc.Round, ssc.Step, len(ssc.SignBytes), len(eph), errStr(err))
		if err != nil {
			return // eph was changed without a save: nothing to compare
		}
		if ss.Height != ssc.Height || !bytes.Equal(ss.SignBytes, ssc.SignBytes) || !bytes.Equal(ss.Signature, ssc.Signature) {
			t.Fatalf("the saved state does not hold what was saved")
		}
	}
	ld, err := signer.LoadSignState(file)
	if err != nil {
		t.Fatalf("saved state does not load: %v: %s", err, fileBytes(file))
	}
	c06Compare(t, &ss, &ld, "reload")
	before := fileBytes(file)
	c06Probe(t, &ss, &ld, "reload")
	if !bytes.Equal(before, fileBytes(file)) {
		t.Fatalf("loading or probing changed the file")
	}
	// both go on in the same way
	ssc, _ := drawSSC(t)
	e1 := ss.Save(ssc, &sync.Mutex{})
	f1 := fileBytes(file)
	e2 := ld.Save(ssc, &sync.Mutex{})
	if (e1 == nil) != (e2 == nil) || !bytes.Equal(f1, fileBytes(file)) {
		t.Fatalf("after reload, saving %d/%d/%d: %v instead of %v", ssc.Height, ssc.Round, ssc.Step, e2, e1)
	}
	if len(ss.SignBytes) > 0 {
		t.NonTrivial("")
	}
}

func c06Minimal(t *pbt.T) {
	file := filepath.Join(t.Scratch, "s.json")
	h, r, s := drawI64(t), drawI64(t), int8(t.Intn(4))
	fields := []string{fmt.Sprintf(`"height": "%d"`, h), fmt.Sprintf(`"round": "%d"`, r), fmt.Sprintf(`"step": %d`, s)}
	var out []string
	for _, i := range t.Perm(3) {
		out = append(out, fields[i])
	}
	if t.Chance(1, 3) {
		out = append(out, `"ephemeral_public": null`)
	}
	sep := []string{",", ", ", ",\n  ", " ,\t"}[t.Intn(4)]
	txt := "{" + strings.Join(out, sep) + "}"
	if t.Bool() {
		txt = "\n " + txt + "\n"
	}
	pbt.Must(ioutil.WriteFile(file, []byte(txt), 0600))
	t.Logf("%q", txt)
	for i := 0; i < 2; i++ {
		var ss signer.SignState
		var err error
		if i == 0 {
			ss, err = signer.LoadSignState(file)
		} else {
			ss, err = signer.LoadOrCreateSignState(file)
		}
		if err != nil {
			t.Fatalf("minimal state file does not load: %v", err)
		}
		if ss.Height != h || ss.Round != r || ss.Step != s || len(ss.SignBytes)+len(ss.Signature)+len(ss.EphemeralPublic) != 0 {
			t.Fatalf("minimal state %d/%d/%d loads as %+v", h, r, s, ss)
		}
		if string(fileBytes(file)) != txt {
			t.Fatalf("loading changed the file")
		}
		if h < 1<<62 {
			if _, err := ss.CheckHRS(signer.HRSTKey{Height: h + 1, Round: 0, Step: 1}); err != nil {
				t.Fatalf("state at %d refuses the next height: %v", h, err)
			}
		}
		// nothing is known about what was signed at the watermark: nothing may be signed there
		if same, err := ss.CheckHRS(signer.HRSTKey{Height: h, Round: r, Step: s}); err == nil || same {
			t.Fatalf("minimal state at %d/%d/%d accepts its own position", h, r, s)
		}
		if h > 0 {
			if _, err := ss.CheckHRS(signer.HRSTKey{Height: h - 1, Round: r, Step: s}); err == nil {
				t.Fatalf("minimal state at %d accepts a lower height", h)
			}
		}
		var lk sync.Mutex
		if err := ss.Save(signer.SignStateConsensus{Height: h, Round: r, Step: s, Signature: []byte{1}, SignBytes: []byte{1}}, &lk); err == nil {
			t.Fatalf("minimal state at %d/%d/%d saves its own position again", h, r, s)
		}
	}
	t.NonTrivial("")
}

func validFile(t *pbt.T, file string) []byte {
	ss, err := signer.LoadOrCreateSignState(file)
	if err != nil {
		t.Fatalf("create: %v", err)
	}
	ssc, eph := drawSSC(t)
	ss.EphemeralPublic = eph
	if err := ss.Save(ssc, nil); err != nil {
		t.Fatalf("save: %v", err)
	}
	return fileBytes(file)
}

func c06Damaged(t *pbt.T) {
	file := filepath.Join(t.Scratch, "s.json")
	b := validFile(t, file)
	var d []byte
	mustErr := true
	what := ""
	switch t.Weighted(8, 2, 1, 1, 4, 2) {
	case 0:
		full := bytes.TrimRight(b, " \n\t")
		k := t.Intn(len(full))
		d, what = full[:k], fmt.Sprintf("truncated to %d of %d bytes", k, len(full))
	case 1:
		d = t.Bytes(t.Range(1, 60))
		what = "random bytes"
		var any interface{}
		mustErr = json.Unmarshal(d, &any) != nil
	case 2:
		what = "missing"
	case 3:
		d, what = []byte([]string{"", " ", "\n", "not json", "{", "}", "[", `"`, "{]", "height: 3", "{\"height\": \"5\"", "\x00\x00\x00", "{\"height\": \"5\"}}"}[t.Intn(13)]), "not JSON"
	case 4:
		d = append([]byte{}, b...)
		for i, k := 0, t.Range(1, 3); i < k; i++ {
			j := t.Intn(len(d))
			d[j] = byte(t.U64())
		}
		what = "bytes replaced"
		var any interface{}
		mustErr = json.Unmarshal(d, &any) != nil
	case 5:
		// wrong types
		d, what = []byte([]string{`{"height": 1.5, "round":"0","step":1}`, `{"height":"x","round":"0","step":1}`, `[1,2,3]`, `{"height":"1","round":"0","step":"1"}`, `{"height":"1","round":"0","step":400}`,
			`{"height":"99999999999999999999","round":"0","step":1}`, `{"height":{},"round":"0","step":1}`, `"5"`, `17`, `{"height":"1","round":"0","step":1,"signbytes":"zz"}`, `{"height":"1","round":"0","step":1,"signature":"%%"}`}[t.Intn(11)]), "wrong types"
	}
	if what == "missing" {
		pbt.Must(os.Remove(file))
	} else {
		pbt.Must(ioutil.WriteFile(file, d, 0600))
	}
	t.Logf("%s: %q", what, d)
	ss, err := signer.LoadSignState(file)
	if mustErr && err == nil {
		t.Fatalf("a damaged file (%s: %q) loads without an error as %d/%d/%d", what, d, ss.Height, ss.Round, ss.Step)
	}
	if what != "missing" && !bytes.Equal(d, fileBytes(file)) {
		t.Fatalf("loading changed a damaged file")
	}
	if mustErr {
		t.NonTrivial("")
	}
}

func c06Create(t *pbt.T) {
	file := filepath.Join(t.Scratch, "s.json")
	if t.Bool() {
		b := validFile(t, file)
		ref, err := signer.LoadSignState(file)
		if err != nil {
			t.Fatalf("load: %v", err)
		}
		ss, err := signer.LoadOrCreateSignState(file)
		if err != nil {
			t.Fatalf("opening an existing state with create-if-missing: %v", err)
		}
		c06Compare(t, &ref, &ss, "open or create")
		c06Probe(t, &ref, &ss, "open or create")
		if !bytes.Equal(b, fileBytes(file)) {
			t.Fatalf("opening an existing state with create-if-missing changed it: %s", fileBytes(file))
		}
		t.Logf("existing %d/%d/%d kept", ss.Height, ss.Round, ss.Step)
	} else {
		ss, err := signer.LoadOrCreateSignState(file)
		if err != nil {
			t.Fatalf("create: %v", err)
		}
		ld, err := signer.LoadSignState(file)
		if err != nil {
			t.Fatalf("a created state does not load: %v", err)
		}
		c06Compare(t, &ss, &ld, "create")
		if ld.Height != 0 || ld.Round != 0 || ld.Step != 0 || len(ld.SignBytes) != 0 {
			t.Fatalf("a created state is not zero: %+v", ld)
		}
		ssc, _ := drawSSC(t)
		if err := ss.Save(ssc, nil); err != nil {
			t.Fatalf("a created state refuses %d/%d/%d: %v", ssc.Height, ssc.Round, ssc.Step, err)
		}
		fs, err := readStateFile(file)
		if err != nil || fs.HRS != (HRS{ssc.Height, ssc.Round, int(ssc.Step)}) {
			t.Fatalf("created state saved as %v %v", fs.HRS, err)
		}
		t.Logf("created, saved %v", fs.HRS)
	}
	t.NonTrivial("")
}

func c06Signed(t *pbt.T) {
	n, th := drawNT(t, 3)
	ring := NewRing(t, n, th, nil)
	id := ring.IDs[t.Intn(n)]
	node := ring.Nodes[id]
	m := Msg{Kind: 1 + t.Intn(3), H: 1 + int64(t.Intn(5)), R: int64(t.Intn(3)), Block: t.Intn(5), TS: t.Intn(len(tsPool)), POL: t.Intn(2)}
	for i, k := 0, t.Range(1, 4); i < k; i++ {
		req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: ring.partsFor(t, id, pickSome(t, others(ring.IDs, id), th-1), m.HRST()), HRST: m.HRST(), SignBytes: m.SignBytes()}
		res, err := node.LC.SetEphemeralSecretPartsAndSign(req)
		if err != nil {
			t.Fatalf("%s refused: %v", m, err)
		}
		t.Logf("%s", m)
		ld, err := signer.LoadSignState(node.File)
		if err != nil {
			t.Fatalf("load: %v", err)
		}
		c06Compare(t, node.State, &ld, "cosigner state")
		if !strings.EqualFold(hex.EncodeToString(ld.SignBytes), hex.EncodeToString(m.SignBytes())) || !bytes.Equal(ld.Signature, res.Signature) || !bytes.Equal(ld.EphemeralPublic, res.EphemeralPublic) {
			t.Fatalf("the file does not hold the released share of %s", m)
		}
		if t.Bool() {
			node.Restart(t)
		}
		// whether it was reloaded or not, the repeat is answered with the same share
		req2 := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: m.HRST(), SignBytes: m.SignBytes()}
		res2, err := node.LC.SetEphemeralSecretPartsAndSign(req2)
		if err != nil || !bytes.Equal(res2.Signature, res.Signature) || !bytes.Equal(res2.EphemeralPublic, res.EphemeralPublic) {
			t.Fatalf("repeat of %s after reload: %v", m, err)
		}
		c := m
		c.Block = (m.Block + 1) % 5
		if _, err := node.LC.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: c.HRST(), SignBytes: c.SignBytes()}); err == nil {
			t.Fatalf("%s signed after %s", c, m)
		}
		m.H++
		m.Kind = 1 + t.Intn(3)
	}
	t.NonTrivial("")
}
