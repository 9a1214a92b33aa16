package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/big"
	"path/filepath"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	tmsecp "github.com/tendermint/tendermint/crypto/secp256k1"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

func init() { registry["C09"] = propC09 }

func propC09() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C09",
		Rule: "shard: for listed and drawn usable (t, n) and fresh validator keys, create-shares is run as a command and its files are loaded; secrets interpolated over every (or 60 drawn) subset of at least t shares must " +
			"give the validator key and over subsets of t-1 must not, RSA keys must pair up, and a drawn subset signs a message with real cosigners. reject: drawn and boundary unusable parameters and key " +
			"files through the command and the library must fail within 20 s and leave no share file. Non-trivial: every case. Distinct by parameters.",
		Assumptions: []string{"combinations of more than 20 key shares are probed for prompt rejection only"},
		Parts: []pbt.Part{
			{Name: "shard", Fn: c09Shard, Fixed: c09Quick(), Workers: 8, Timeout: 300 * time.Second, NoShrink: true},
			{Name: "reject", Fn: c09Reject, Quick: 700, Thorough: 20000, Workers: 8, QuickSecs: 30, ThoroughSecs: 300, Timeout: 150 * time.Second, NoShrink: true},
			{Name: "shard-drawn", Fn: c09ShardDrawn, Quick: 4, Thorough: 300, Workers: 8, QuickSecs: 10, ThoroughSecs: 900, Timeout: 400 * time.Second, NoShrink: true},
		}}
}

var c09List = [][2]int64{{7, 9}, {14, 16}, {4, 6}, {3, 5}, {5, 5}, {3, 4}, {2, 3}, {3, 3}, {2, 2}, {1, 1}, {10, 12}}

func writePrivKey(file string, secret []byte) tmed.PrivKey {
	pk := tmed.GenPrivKeyFromSecret(secret)
	writePrivKeyOf(file, pk)
	return pk
}

func writePrivKeyOf(file string, pk tmed.PrivKey) {
	k := privval.FilePVKey{Address: pk.PubKey().Address(), PubKey: pk.PubKey(), PrivKey: pk}
	b, err := tmjson.MarshalIndent(k, "", "  ")
	pbt.Must(err)
	pbt.Must(ioutil.WriteFile(file, b, 0600))
}

func c09Shard(t *pbt.T) {
	p := c09List[t.CaseNo%len(c09List)]
	c09Run(t, p[0], p[1])
}

func c09ShardDrawn(t *pbt.T) {
	max := 4
	if env.Tier == "thorough" {
		max = 13
	}
	n := int64(t.Range(1, max))
	th := n/2 + 1 + int64(t.Intn(int(n-n/2)))
	c09Run(t, th, n)
}

func c09Run(t *pbt.T, th, n int64) {
	key := filepath.Join(t.Scratch, "priv_validator_key.json")
	pk := writePrivKey(key, t.Bytes(16))
	stale := map[string]string{}
	if t.CaseNo%2 == 1 || t.Chance(1, 3) {
		// what an earlier sharding left in the folder
		old := mkdir(filepath.Join(t.Scratch, "old"))
		writePrivKey(filepath.Join(old, "k.json"), t.Bytes(16))
		if r := runHX(old, 60*time.Second, "create-shares", "k.json", "2", "3", "--home", old); r.code != 0 {
			t.Fatalf("create-shares 2 3 fails: %s", r.out)
		}
		for id := int64(1); id <= n; id++ {
			if t.Chance(2, 3) {
				b := fileBytes(filepath.Join(old, fmt.Sprintf("private_share_%d.json", 1+(id-1)%3)))
				if t.Chance(1, 4) {
					b = append(b, fill('x', 4000)...)
				}
				f := filepath.Join(t.Scratch, fmt.Sprintf("private_share_%d.json", id))
				pbt.Must(ioutil.WriteFile(f, b, 0600))
				stale[f] = string(b)
			}
		}
		t.Logf("%d files of an earlier sharding", len(stale))
		t.Label("over an earlier sharding")
	}
	r := runHX(t.Scratch, 280*time.Second, "create-shares", key, fmt.Sprint(th), fmt.Sprint(n), "--home", t.Scratch)
	files, _ := filepath.Glob(filepath.Join(t.Scratch, "private_share_*.json"))
	t.Logf("create-shares t=%d n=%d -> exit %d, %d files", th, n, r.code, len(files))
	if r.timedOut {
		pbt.Harness("create-shares %d %d did not finish", th, n)
	}
	if r.crashed {
		t.Fatalf("create-shares %d %d crashed: %s", th, n, r.out)
	}
	if r.code != 0 {
		if len(files) > len(stale) {
			t.Fatalf("create-shares %d %d failed but left %v", th, n, files)
		}
		for f, b := range stale {
			if string(fileBytes(f)) != b {
				t.Fatalf("create-shares %d %d failed but changed %s", th, n, f)
			}
		}
		if len(stale) > 0 && strings.Contains(r.out, "exist") {
			return // refused because of the files
		}
		// only large schemes may be refused: those whose interpolation coefficients exceed 64 bits
		if n <= 12 {
			t.Fatalf("create-shares refuses the usable %d of %d: %s", th, n, r.out)
		}
		t.NonTrivial(fmt.Sprint(th, n))
		return
	}
	if int64(len(files)) != n {
		t.Fatalf("create-shares %d %d wrote %v", th, n, files)
	}
	checkShares(t, pk, int(th), int(n), func(id int) signer.CosignerKey {
		k, err := signer.LoadCosignerKey(filepath.Join(t.Scratch, fmt.Sprintf("private_share_%d.json", id)))
		if err != nil {
			t.Fatalf("share %d does not load: %v", id, err)
		}
		return k
	})
	t.NonTrivial(fmt.Sprint(th, n))
}

func binom(n, k int) int64 { return new(big.Int).Binomial(int64(n), int64(k)).Int64() }

// allSubsets lists every k-subset of 1..n, or 60 drawn ones (with the highest and lowest ids) when there are many.
func someSubsets(t *pbt.T, n, k int) [][]int {
	var out [][]int
	if n <= 12 && binom(n, k) <= 130 {
		var rec func(from int, acc []int)
		rec = func(from int, acc []int) {
			if len(acc) == k {
				out = append(out, append([]int{}, acc...))
				return
			}
			for i := from; i <= n; i++ {
				rec(i+1, append(acc, i))
			}
		}
		rec(1, nil)
		return out
	}
	lo, hi := []int{}, []int{}
	for i := 1; i <= k; i++ {
		lo = append(lo, i)
		hi = append(hi, n-k+i)
	}
	out = append(out, lo, hi)
	for i := 0; i < 60; i++ {
		s := t.Subset(n, k)
		for j := range s {
			s[j]++
		}
		out = append(out, s)
	}
	return out
}

func checkShares(t *pbt.T, pk tmed.PrivKey, th, n int, get func(id int) signer.CosignerKey) {
	keys := map[int]signer.CosignerKey{}
	pub := pk.PubKey()
	for id := 1; id <= n; id++ {
		k := get(id)
		if k.ID != id {
			t.Fatalf("share file %d has ID %d", id, k.ID)
		}
		if !k.PubKey.Equals(pub) {
			t.Fatalf("share %d carries public key %X instead of %X", id, k.PubKey.Bytes(), pub.Bytes())
		}
		if len(k.CosignerKeys) != n {
			t.Fatalf("share %d carries %d RSA public keys for %d shares", id, len(k.CosignerKeys), n)
		}
		if err := k.RSAKey.Validate(); err != nil {
			t.Fatalf("RSA key of share %d: %v", id, err)
		}
		keys[id] = k
	}
	for id, k := range keys {
		for o, ok := range keys {
			if !ok.CosignerKeys[id-1].Equal(&k.RSAKey.PublicKey) {
				t.Fatalf("share %d lists another RSA public key for %d than its key pair has", o, id)
			}
			if o != id && (bytes.Equal(k.ShareKey, ok.ShareKey) || k.RSAKey.PublicKey.Equal(&ok.RSAKey.PublicKey)) {
				t.Fatalf("shares %d and %d are not distinct", id, o)
			}
		}
	}
	secretPub := func(ids []int) []byte {
		var sh [][]byte
		for _, id := range ids {
			sh = append(sh, keys[id].ShareKey)
		}
		return tsed25519.ScalarMultiplyBase(tsed25519.CombineShares(uint8(n), ids, sh))
	}
	for k := th; k <= n; k++ {
		for _, ids := range someSubsets(t, n, k) {
			if !bytes.Equal(secretPub(ids), pub.Bytes()) {
				t.Fatalf("shares %v of a %d of %d scheme do not give the validator key", ids, th, n)
			}
		}
	}
	for k := 1; k < th; k++ {
		for _, ids := range someSubsets(t, n, k) {
			if bytes.Equal(secretPub(ids), pub.Bytes()) {
				t.Fatalf("only %v of a %d of %d scheme give the validator key", ids, th, n)
			}
		}
	}
	if th < 2 || n > 12 {
		return
	}
	// a drawn subset signs with real cosigners
	var ids []int
	for _, i := range t.Subset(n, th) {
		ids = append(ids, i+1)
	}
	m := Msg{Kind: 1 + t.Intn(3), H: 1 + int64(t.Intn(100)), Block: t.Intn(3), TS: t.Intn(4)}
	lcs := map[int]*signer.LocalCosigner{}
	for _, id := range ids {
		ss, err := signer.LoadOrCreateSignState(filepath.Join(t.Scratch, fmt.Sprintf("sign_%d.json", id)))
		pbt.Must(err)
		var peers []signer.CosignerPeer
		for _, o := range ids {
			peers = append(peers, signer.CosignerPeer{ID: o, PublicKey: *keys[id].CosignerKeys[o-1]})
		}
		lcs[id] = signer.NewLocalCosigner(signer.LocalCosignerConfig{CosignerKey: keys[id], SignState: &ss, RsaKey: keys[id].RSAKey, Peers: peers, Total: uint8(n), Threshold: uint8(th)})
	}
	var sigs [][]byte
	var eph []byte
	for _, id := range ids {
		req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: m.HRST(), SignBytes: m.SignBytes()}
		for _, o := range ids {
			if o == id {
				continue
			}
			res, err := lcs[o].GetEphemeralSecretParts(m.HRST())
			if err != nil {
				t.Fatalf("cosigner %d: %v", o, err)
			}
			for _, p := range res.EncryptedSecrets {
				if p.DestinationID == id {
					req.EncryptedSecrets = append(req.EncryptedSecrets, p)
				}
			}
		}
		res, err := lcs[id].SetEphemeralSecretPartsAndSign(req)
		if err != nil {
			t.Fatalf("cosigner %d with its new share refuses to sign: %v", id, err)
		}
		sigs = append(sigs, res.Signature)
		eph = res.EphemeralPublic
	}
	if !pub.VerifySignature(m.SignBytes(), combine(n, ids, sigs, eph)) {
		t.Fatalf("the signature of cosigners %v of %d does not verify", ids, n)
	}
	if len(ids) > 2 && pub.VerifySignature(m.SignBytes(), combine(n, ids[:th-1], sigs[:th-1], eph)) {
		t.Fatalf("the signature of %v alone verifies", ids[:th-1])
	}
}

func c09Reject(t *pbt.T) {
	key := filepath.Join(t.Scratch, "priv_validator_key.json")
	pk := writePrivKey(key, t.Bytes(16))
	args := []string{"", "", ""}
	args[0] = key
	th, n := int64(2), int64(3)
	what := ""
	lib := true
	switch t.Weighted(6, 2, 2, 2, 2, 2) {
	case 0: // threshold not above half
		n = []int64{2, 3, 4, 5, 6, 7, 8, 10, 20, 100, 255}[t.Intn(11)]
		th = n / 2
		if t.Chance(1, 3) {
			th = int64(t.Intn(int(n/2 + 1)))
		}
		what = "threshold not above half"
	case 1: // below one
		n = int64(t.Intn(6))
		th = []int64{0, -1, -2, -255, -256, -254, -1 << 40, -1 << 63}[t.Intn(8)]
		what = "threshold below one"
	case 2: // above the number of shares
		n = int64(t.Range(1, 8))
		th = n + []int64{1, 2, 256, 255, 1 << 32, 1 << 40}[t.Intn(6)]
		if t.Chance(1, 4) {
			n = []int64{0, -1, -5, -256, -1 << 63}[t.Intn(5)]
		}
		what = "threshold above shares"
	case 3: // not representable
		n = []int64{256, 257, 258, 259, 260, 300, 511, 512, 513, 1000, 65536, 65537 + 2, 1 << 31, 1 << 32, 1<<32 + 3, 1<<63 - 1, 1 << 40}[t.Intn(17)]
		th = n/2 + 1
		if t.Bool() {
			th = n
		}
		what = "too many shares"
	case 4: // not numbers
		lib = false
		bad := []string{"x", "", "2.5", "1e1", "99999999999999999999", "0x3", "two", " 2", "2 "}
		args[1], args[2] = "2", "3"
		args[1+t.Intn(2)] = bad[t.Intn(len(bad))]
		what = "not a number"
	case 5: // key files
		switch t.Intn(5) {
		case 0:
			lib = false
			args[0] = filepath.Join(t.Scratch, "missing.json")
			what = "missing key file"
		case 1:
			b := fileBytes(key)
			pbt.Must(ioutil.WriteFile(key, b[:t.Intn(len(b)-1)], 0600))
			what = "truncated key file"
		case 2:
			sk := tmsecp.GenPrivKey()
			b, err := tmjson.Marshal(privval.FilePVKey{Address: sk.PubKey().Address(), PubKey: sk.PubKey(), PrivKey: sk})
			pbt.Must(err)
			pbt.Must(ioutil.WriteFile(key, b, 0600))
			what = "secp256k1 key"
		case 3:
			txt := []string{"{}", "null", "[]", `{"priv_key":null}`, `{"priv_key":{"type":"tendermint/PrivKeyEd25519","value":""}}`, `{"priv_key":{"type":"tendermint/PrivKeyEd25519","value":"AAAA"}}`, `{"priv_key":{"type":"nope","value":"AAAA"}}`}
			pbt.Must(ioutil.WriteFile(key, []byte(txt[t.Intn(len(txt))]), 0600))
			what = "key file " + string(fileBytes(key))
		case 4:
			b := strings.Replace(string(fileBytes(key)), "tendermint/PrivKeyEd25519", "tendermint/PubKeyEd25519", 1)
			pbt.Must(ioutil.WriteFile(key, []byte(b), 0600))
			what = "wrong key type"
		}
	}
	_ = pk
	if args[1] == "" && args[2] == "" {
		args[1], args[2] = fmt.Sprint(th), fmt.Sprint(n)
	}
	t.Label(what)
	t.Logf("create-shares %q: %s", args[1:], what)
	pre := snapshot(t.Scratch)
	cli := t.Chance(1, 2) || !lib
	if cli {
		// -- keeps negative numbers from being read as flags
		a := append([]string{"create-shares", "--home", t.Scratch, "--"}, args...)
		r := runHX(t.Scratch, 20*time.Second, a...)
		if r.timedOut {
			t.FatalfLive("create-shares %q (%s) was not rejected within 20 s", args[1:], what)
		}
		if r.crashed {
			t.Fatalf("create-shares %q (%s) crashed: %s", args[1:], what, r.out)
		}
		if r.code == 0 {
			t.Fatalf("create-shares %q (%s) succeeded: %s", args[1:], what, r.out)
		}
	} else {
		type res struct {
			k   []signer.CosignerKey
			err error
			raw interface{}
			msg string
		}
		c := make(chan res, 1)
		go func() {
			var r res
			r.msg, _, r.raw = pbt.Catch(func() { r.k, r.err = signer.CreateCosignerSharesFromFile(key, th, n) })
			c <- r
		}()
		select {
		case r := <-c:
			if r.raw != nil {
				t.Fatalf("sharding %d of %d (%s) crashed: %s", th, n, what, r.msg)
			}
			if r.err == nil || len(r.k) > 0 {
				t.Fatalf("sharding %d of %d (%s) was not rejected: %d shares, %v", th, n, what, len(r.k), r.err)
			}
		case <-time.After(20 * time.Second):
			t.FatalfLive("sharding %d of %d (%s) was not rejected within 20 s", th, n, what)
		}
	}
	if d := diffSnap(pre, snapshot(t.Scratch)); d != "" {
		t.Fatalf("create-shares %q (%s) failed but %s", args[1:], what, d)
	}
	t.NonTrivial("")
}

func c09Quick() int {
	if env != nil && env.Tier == "quick" {
		return len(c09List) - 1
	}
	return len(c09List)
}
