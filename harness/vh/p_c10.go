package main

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	tmsecp "github.com/tendermint/tendermint/crypto/secp256k1"
)

func init() { registry["C10"] = propC10 }

func propC10() *pbt.Property {
	c10Keys()
	return &pbt.Property{ID: "C10",
		Rule: "roundtrip: drawn key shares (any ID of 1..10 shares, drawn secrets and public keys, RSA keys of 512 to 4096 bits from a pool) are written with the writer of create-shares or " +
			"with the documented JSON fields by the harness itself (protobuf or amino public key, drawn field order), loaded and compared field by field; the written file is parsed by the harness too. damaged: " +
			"truncations, byte changes, pieces inserted, appended or cut out, and every field removed, nulled, mistyped, resized or corrupted must be rejected with an error; what still loads must be complete and make a working cosigner. Non-trivial: every roundtrip; damaged files that differ from the valid one.",
		Parts: []pbt.Part{
			{Name: "roundtrip", Fn: c10Roundtrip, Quick: 6000, Thorough: 200000, QuickSecs: 20, ThoroughSecs: 300},
			{Name: "damaged", Fn: c10Damaged, Quick: 40000, Thorough: 2000000, QuickSecs: 30, ThoroughSecs: 600},
		}}
}

var (
	c10Once sync.Once
	c10Pool []*rsa.PrivateKey
)

func c10Keys() []*rsa.PrivateKey {
	c10Once.Do(func() {
		sizes := []int{1024, 512, 1024, 2048, 768, 1023, 1536, 2048, 1024, 4096}
		c10Pool = make([]*rsa.PrivateKey, len(sizes))
		var g pbt.Group
		for i := range sizes {
			i := i
			g.Go(func() {
				k, err := rsa.GenerateKey(rand.Reader, sizes[i])
				pbt.Must(err)
				c10Pool[i] = k
			})
		}
		g.Wait()
	})
	return c10Pool
}

var aminoEd25519 = []byte{0x16, 0x24, 0xDE, 0x64, 0x20}

// drawKey draws a key share.
func drawKey(t *pbt.T) signer.CosignerKey {
	pool := c10Keys()
	n := t.Range(1, len(pool))
	id := 1 + t.Intn(n)
	var pubs []*rsa.PublicKey
	perm := t.Perm(len(pool))
	for i := 0; i < n; i++ {
		pubs = append(pubs, &pool[perm[i]].PublicKey)
	}
	return signer.CosignerKey{PubKey: tmed.PubKey(t.Bytes(32)), ShareKey: t.Bytes(32), RSAKey: *pool[perm[id-1]], ID: id, CosignerKeys: pubs}
}

// rawKey renders a key share with the documented fields, without the code under test.
func rawKey(k signer.CosignerKey, amino bool) map[string]interface{} {
	b64 := base64.StdEncoding.EncodeToString
	var pubs []string
	for _, p := range k.CosignerKeys {
		pubs = append(pubs, b64(x509.MarshalPKCS1PublicKey(p)))
	}
	pk := append([]byte{0x0a, 0x20}, k.PubKey.Bytes()...)
	if amino {
		pk = append(append([]byte{}, aminoEd25519...), k.PubKey.Bytes()...)
	}
	r := k.RSAKey
	return map[string]interface{}{"id": k.ID, "pub_key": b64(pk), "secret_share": b64(k.ShareKey), "rsa_key": b64(x509.MarshalPKCS1PrivateKey(&r)), "rsa_pubs": pubs}
}

func renderRaw(t *pbt.T, m map[string]interface{}) []byte {
	keys := []string{"id", "pub_key", "secret_share", "rsa_key", "rsa_pubs"}
	var sb bytes.Buffer
	ind := []string{"", " ", "\n  "}[t.Intn(3)]
	sb.WriteString("{")
	first := true
	for _, i := range t.Perm(5) {
		v, ok := m[keys[i]]
		if !ok {
			continue
		}
		b, err := json.Marshal(v)
		pbt.Must(err)
		if !first {
			sb.WriteString(",")
		}
		first = false
		fmt.Fprintf(&sb, "%s%q:%s%s", ind, keys[i], ind, b)
	}
	sb.WriteString("}")
	return sb.Bytes()
}

func keyDiff(a, b signer.CosignerKey) string {
	if a.ID != b.ID {
		return fmt.Sprintf("ID %d became %d", a.ID, b.ID)
	}
	if !bytes.Equal(a.ShareKey, b.ShareKey) {
		return fmt.Sprintf("secret share %x became %x", a.ShareKey, b.ShareKey)
	}
	if b.PubKey == nil || a.PubKey.Type() != b.PubKey.Type() || !bytes.Equal(a.PubKey.Bytes(), b.PubKey.Bytes()) || !a.PubKey.Equals(b.PubKey) {
		return fmt.Sprintf("public key %X became %v", a.PubKey.Bytes(), b.PubKey)
	}
	if !a.RSAKey.Equal(&b.RSAKey) || b.RSAKey.Validate() != nil {
		return "the RSA key changed"
	}
	if len(a.CosignerKeys) != len(b.CosignerKeys) {
		return fmt.Sprintf("%d peer keys became %d", len(a.CosignerKeys), len(b.CosignerKeys))
	}
	for i := range a.CosignerKeys {
		if b.CosignerKeys[i] == nil || !a.CosignerKeys[i].Equal(b.CosignerKeys[i]) {
			return fmt.Sprintf("the RSA public key of cosigner %d changed", i+1)
		}
	}
	return ""
}

func c10Roundtrip(t *pbt.T) {
	k := drawKey(t)
	file := filepath.Join(t.Scratch, "share.json")
	form := t.Weighted(5, 2, 2)
	switch form {
	case 0:
		if err := signer.WriteCosignerShareFile(k, file); err != nil {
			t.Fatalf("writing a key share failed: %v", err)
		}
		var m map[string]interface{}
		if err := json.Unmarshal(fileBytes(file), &m); err != nil {
			t.Fatalf("the written file is not JSON: %v", err)
		}
		want, _ := json.Marshal(rawKey(k, false))
		var wm map[string]interface{}
		pbt.Must(json.Unmarshal(want, &wm))
		for f, v := range wm {
			if fmt.Sprint(m[f]) != fmt.Sprint(v) {
				t.Fatalf("field %s of the written file is %v instead of %v", f, m[f], v)
			}
		}
	default:
		pbt.Must(ioutil.WriteFile(file, renderRaw(t, rawKey(k, form == 2)), 0600))
	}
	before := fileBytes(file)
	t.Logf("form %d id %d of %d", form, k.ID, len(k.CosignerKeys))
	got, err := signer.LoadCosignerKey(file)
	if err != nil {
		t.Fatalf("form %d: a valid share file does not load: %v", form, err)
	}
	if d := keyDiff(k, got); d != "" {
		t.Fatalf("form %d: %s", form, d)
	}
	// a second write of what was loaded, over the first
	if err := signer.WriteCosignerShareFile(got, file); err != nil {
		t.Fatalf("writing a loaded key share failed: %v", err)
	}
	if form == 0 && !bytes.Equal(before, fileBytes(file)) {
		t.Fatalf("rewriting a loaded share changes the file")
	}
	got2, err := signer.LoadCosignerKey(file)
	if err != nil {
		t.Fatalf("rewritten share does not load: %v", err)
	}
	if d := keyDiff(k, got2); d != "" {
		t.Fatalf("form %d rewritten: %s", form, d)
	}
	t.Label([]string{"written", "raw", "amino"}[form])
	t.NonTrivial("")
}

// usable checks that a loaded key makes a working cosigner.
func c10Usable(t *pbt.T, k signer.CosignerKey, what string) {
	if k.PubKey == nil || len(k.PubKey.Bytes()) != 32 || k.PubKey.Type() != "ed25519" || len(k.ShareKey) != 32 || k.ID < 1 || k.ID > len(k.CosignerKeys) || k.RSAKey.Validate() != nil {
		t.Fatalf("a damaged file (%s) loads as a share without a usable key: id %d of %d, pub %v, share of %d bytes", what, k.ID, len(k.CosignerKeys), k.PubKey, len(k.ShareKey))
	}
	for _, p := range k.CosignerKeys {
		if p == nil || p.N == nil {
			t.Fatalf("a damaged file (%s) loads with an empty peer key", what)
		}
	}
	msg, _, raw := pbt.Catch(func() {
		ss, err := signer.LoadOrCreateSignState(filepath.Join(t.Scratch, "st.json"))
		pbt.Must(err)
		lc := signer.NewLocalCosigner(signer.LocalCosignerConfig{CosignerKey: k, SignState: &ss, RsaKey: k.RSAKey,
			Peers: []signer.CosignerPeer{{ID: k.ID, PublicKey: k.RSAKey.PublicKey}}, Total: uint8(len(k.CosignerKeys)), Threshold: 1})
		_ = lc.GetID()
	})
	if raw != nil {
		t.Fatalf("the share loaded from a damaged file (%s) crashes the cosigner: %s", what, msg)
	}
}

func c10Damaged(t *pbt.T) {
	k := drawKey(t)
	file := filepath.Join(t.Scratch, "share.json")
	raw := rawKey(k, t.Chance(1, 4))
	valid := renderRaw(t, raw)
	var d []byte
	what := ""
	mustErr := true
	switch t.Weighted(5, 3, 2, 14, 1, 4) {
	case 0:
		c := t.Intn(len(valid))
		d, what = valid[:c], fmt.Sprintf("truncated to %d of %d", c, len(valid))
	case 1:
		d = append([]byte{}, valid...)
		for i, n := 0, t.Range(1, 3); i < n; i++ {
			d[t.Intn(len(d))] = byte(t.U64())
		}
		what = "bytes replaced"
		var any interface{}
		mustErr = json.Unmarshal(d, &any) != nil
	case 2:
		txt := []string{"", " ", "null", "{}", "[]", "3", `""`, "true", "not json", "{", "[{}]", `{"pub_key":null}`, "\x00", `{"id":1}`, "nil", "{\"rsa_key\":\"\"}", "null null"}
		d = []byte(txt[t.Intn(len(txt))])
		what = fmt.Sprintf("content %q", d)
		if t.Chance(1, 4) {
			d = t.Bytes(t.Range(1, 50))
			what = "random bytes"
		}
	case 3:
		d, what = c10Field(t, k, raw)
	case 4:
		what = "missing"
	case 5: // pieces of files out of place
		a, b := t.Intn(len(valid)), t.Range(1, 200)
		if a+b > len(valid) {
			b = len(valid) - a
		}
		piece := valid[a : a+b]
		switch t.Intn(4) {
		case 0:
			if t.Bool() {
				piece = []byte([]string{"}", "x", "\x00", "{}", "null", "0", "\n{", ",", "[]", "\"\""}[t.Intn(10)])
			}
			d, what = append(append([]byte{}, valid...), piece...), "with a tail"
		case 1:
			d, what = append(append([]byte{}, piece...), valid...), "with a head"
		case 2:
			at := t.Intn(len(valid))
			d, what = append(append(append([]byte{}, valid[:at]...), piece...), valid[at:]...), "with a piece inserted"
		case 3:
			d, what = append(append([]byte{}, valid[:a]...), valid[a+b:]...), "with a piece cut out"
		}
		var any interface{}
		mustErr = json.Unmarshal(d, &any) != nil
	}
	_ = os.Remove(file)
	if what != "missing" {
		pbt.Must(ioutil.WriteFile(file, d, 0600))
	}
	if bytes.Equal(d, valid) {
		return
	}
	t.Logf("%s: %q", what, d)
	var got signer.CosignerKey
	var err error
	msg, _, rw := pbt.Catch(func() { got, err = signer.LoadCosignerKey(file) })
	if rw != nil {
		t.Fatalf("loading a damaged share file (%s) crashes: %s", what, msg)
	}
	if err == nil {
		if mustErr {
			t.Fatalf("a damaged share file (%s) loads without an error", what)
		}
		c10Usable(t, got, what)
	}
	if what != "missing" && !bytes.Equal(fileBytes(file), d) {
		t.Fatalf("loading changed the file")
	}
	t.NonTrivial("")
}

// c10Field damages one field so that it no longer describes a key share.
func c10Field(t *pbt.T, k signer.CosignerKey, raw map[string]interface{}) ([]byte, string) {
	b64 := base64.StdEncoding.EncodeToString
	f := []string{"id", "pub_key", "secret_share", "rsa_key", "rsa_pubs"}[t.Intn(5)]
	op := t.Intn(4)
	what := ""
	switch op {
	case 0:
		delete(raw, f)
		what = "without " + f
	case 1:
		raw[f] = nil
		what = f + " null"
	case 2: // wrong type
		v := []interface{}{true, map[string]int{"a": 1}, 1.5, "zz%", []interface{}{map[string]int{}}}[t.Intn(5)]
		raw[f] = v
		what = fmt.Sprintf("%s %v", f, v)
	default:
		switch f {
		case "id":
			v := []int{0, -1, len(k.CosignerKeys) + 1, 1 << 40, -1 << 40, 255, 256 + k.ID}[t.Intn(7)]
			raw[f] = v
			what = fmt.Sprintf("id %d of %d", v, len(k.CosignerKeys))
		case "secret_share":
			n := []int{0, 1, 31, 33, 16, 64}[t.Intn(6)]
			raw[f] = b64(t.Bytes(n))
			what = fmt.Sprintf("secret share of %d bytes", n)
		case "pub_key":
			switch t.Intn(6) {
			case 0:
				n := []int{0, 1, 31, 33, 16}[t.Intn(5)]
				raw[f] = b64(append([]byte{0x0a, byte(n)}, t.Bytes(n)...))
				what = fmt.Sprintf("public key of %d bytes", n)
			case 1:
				n := []int{0, 1, 31, 33, 16}[t.Intn(5)]
				raw[f] = b64(append(append([]byte{}, aminoEd25519[:4]...), append([]byte{byte(n)}, t.Bytes(n)...)...))
				what = fmt.Sprintf("amino public key of %d bytes", n)
			case 2:
				raw[f] = b64(append([]byte{0x12, 33}, tmsecp.GenPrivKeySecp256k1(t.Bytes(8)).PubKey().Bytes()...))
				what = "secp256k1 public key"
			case 3:
				raw[f] = ""
				what = "empty public key"
			case 4:
				raw[f] = b64(t.Bytes(t.Range(1, 60)))
				what = "random public key"
				if b, _ := base64.StdEncoding.DecodeString(raw[f].(string)); len(b) >= 34 {
					raw[f] = b64(b[:20])
				}
			case 5:
				raw[f] = b64(append(append([]byte{}, aminoEd25519...), t.Bytes(t.Intn(32))...))
				what = "truncated amino public key"
			}
		case "rsa_key":
			r := k.RSAKey
			b := x509.MarshalPKCS1PrivateKey(&r)
			switch t.Intn(3) {
			case 0:
				raw[f] = b64(b[:t.Intn(len(b))])
				what = "truncated RSA key"
			case 1:
				raw[f] = b64(x509.MarshalPKCS1PublicKey(&r.PublicKey))
				what = "RSA public key as private key"
			case 2:
				raw[f] = b64(t.Bytes(t.Range(1, 100)))
				what = "random RSA key"
			}
		case "rsa_pubs":
			pubs := append([]string{}, raw[f].([]string)...)
			i := t.Intn(len(pubs))
			b := x509.MarshalPKCS1PublicKey(k.CosignerKeys[i])
			switch t.Intn(5) {
			case 0:
				pubs[i] = b64(b[:t.Intn(len(b))])
				what = "truncated RSA public key"
			case 1:
				pubs[i] = ""
				what = "empty RSA public key"
			case 2:
				pubs[i] = b64(t.Bytes(t.Range(1, 60)))
				what = "random RSA public key"
			case 3:
				pubs = pubs[:t.Intn(k.ID)]
				what = "too few RSA public keys"
			case 4:
				r := k.RSAKey
				pubs[i] = b64(x509.MarshalPKCS1PrivateKey(&r))
				what = "RSA private key as public key"
			}
			raw[f] = pubs
		}
	}
	return renderRaw(t, raw), what
}
