package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
)

func init() { registry["C22"] = propC22 }

func propC22() *pbt.Property {
	c10Keys()
	return &pbt.Property{ID: "C22",
		Rule: "homes with drawn key shares (arbitrary 32-byte validator keys, 1..n cosigners, protobuf and old amino encodings, any field order) at the default or a configured absolute or relative place, home given by flag or by the environment; " +
			"the real binary's cosigner address is run with no prefix and with drawn bech32 prefixes. Oracle: hex, JSON and both bech32 strings decode (decoder of the harness, checksum included) to the key in the file and the prefix asked for; " +
			"no file changes; a missing, damaged or keyless file, missing or invalid configuration gives an error status without a report. Non-trivial: every case. Distinct by choices.",
		Parts: []pbt.Part{
			{Name: "address", Fn: c22Address, Quick: 1000, Thorough: 30000, Workers: 12, QuickSecs: 40, ThoroughSecs: 900, Timeout: 120 * time.Second},
		}}
}

const bechChars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// bechDecode decodes a bech32 string (BIP 173) to its prefix and bytes.
func bechDecode(s string) (hrp string, data []byte, err error) {
	if strings.ToLower(s) != s {
		return "", nil, fmt.Errorf("not lower case")
	}
	i := strings.LastIndexByte(s, '1')
	if i < 1 || i+7 > len(s) {
		return "", nil, fmt.Errorf("no separator in %q", s)
	}
	hrp = s[:i]
	chk := uint32(1)
	step := func(v byte) {
		top := chk >> 25
		chk = (chk&0x1ffffff)<<5 ^ uint32(v)
		for j, g := range []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3} {
			if top>>uint(j)&1 == 1 {
				chk ^= g
			}
		}
	}
	for j := 0; j < len(hrp); j++ {
		step(hrp[j] >> 5)
	}
	step(0)
	for j := 0; j < len(hrp); j++ {
		step(hrp[j] & 31)
	}
	var vals []byte
	for _, c := range []byte(s[i+1:]) {
		v := strings.IndexByte(bechChars, c)
		if v < 0 {
			return "", nil, fmt.Errorf("character %q", c)
		}
		step(byte(v))
		vals = append(vals, byte(v))
	}
	if chk != 1 {
		return "", nil, fmt.Errorf("wrong checksum")
	}
	acc, n := uint32(0), uint(0)
	for _, v := range vals[:len(vals)-6] {
		acc = acc<<5 | uint32(v)
		n += 5
		if n >= 8 {
			n -= 8
			data = append(data, byte(acc>>n))
			acc &= 1<<n - 1
		}
	}
	if n >= 5 || acc != 0 {
		return "", nil, fmt.Errorf("wrong padding")
	}
	return hrp, data, nil
}

func c22Address(t *pbt.T) {
	key := drawKey(t)
	switch t.Intn(6) {
	case 0:
		key.PubKey = tmed.PubKey(fill([]byte{0, 0xff, 0x80, 1}[t.Intn(4)], 32))
	case 1:
		key.PubKey = tmed.PubKey(append(make([]byte, t.Intn(31)), t.Bytes(32)...)[:32])
	}
	pub := key.PubKey.Bytes()
	viaEnv := t.Chance(1, 4)
	home := filepath.Join(t.Scratch, "home")
	args := []string{"--home", home}
	if viaEnv {
		home = filepath.Join(t.Scratch, ".horcrux")
		args = nil
	}
	mkdir(filepath.Join(home, "state"))
	file, entry := filepath.Join(home, "share.json"), ""
	switch t.Intn(4) {
	case 0:
		file = filepath.Join(t.Scratch, "keys", "k.json")
		entry = file
	case 1:
		file = filepath.Join(t.Scratch, "k.json")
		entry = "k.json" // runs there
	}
	mkdir(filepath.Dir(file))
	content := renderRaw(t, rawKey(key, t.Chance(1, 5)))
	if entry != "" && t.Bool() {
		// another key at the default place must not matter
		pbt.Must(ioutil.WriteFile(filepath.Join(home, "share.json"), renderRaw(t, rawKey(drawKey(t), false)), 0600))
	}
	n := len(key.CosignerKeys)
	var peers strings.Builder
	np := 0
	for i := 1; i <= n; i++ {
		if i != key.ID {
			fmt.Fprintf(&peers, "  - share-id: %d\n    p2p-addr: tcp://p:%d\n", i, i)
			np++
		}
	}
	if np == 0 {
		peers.WriteString("    []\n")
	}
	thr := n/2 + 1
	chain, timeout, cosigner, config := "chain-a", "1s", true, true
	why := ""
	if t.Chance(1, 4) {
		why = "defect"
		switch t.Intn(9) {
		case 0:
			content = nil
			why = "no key file"
		case 1:
			content = content[:t.Intn(len(content))]
			why = "truncated key file"
		case 2:
			r := rawKey(key, false)
			delete(r, []string{"pub_key", "rsa_key", "secret_share", "id"}[t.Intn(4)])
			content = renderRaw(t, r)
			why = "incomplete key file"
		case 3:
			content = []byte([]string{"", "{}", "[]", "null", "x", `{"address":"00","pub_key":{"type":"tendermint/PubKeyEd25519","value":"AAAA"}}`}[t.Intn(6)])
			why = "something else as key file"
		case 4:
			config = false
			why = "no configuration"
		case 5:
			cosigner = false
			why = "single signer configuration"
		case 6:
			chain = ""
			why = "no chain ID"
		case 7:
			timeout = "5"
			why = "bad timeout"
		case 8:
			thr = np + 2 + t.Intn(3)
			why = "threshold above the number of cosigners"
		}
	}
	if content != nil {
		pbt.Must(ioutil.WriteFile(file, content, 0600))
	} else {
		_ = os.Remove(file)
	}
	if config {
		var y strings.Builder
		fmt.Fprintf(&y, "home-dir: %s\n", home)
		if entry != "" {
			fmt.Fprintf(&y, "key-file: %s\n", entry)
		}
		fmt.Fprintf(&y, "chain-id: %q\n", chain)
		if cosigner {
			fmt.Fprintf(&y, "cosigner:\n  threshold: %d\n  shares: %d\n  p2p-listen: tcp://me:1\n  peers:\n%s  rpc-timeout: %q\n", thr, n, peers.String(), timeout)
		}
		if t.Bool() {
			y.WriteString("chain-nodes:\n- priv-val-addr: tcp://s:1\n")
		}
		pbt.Must(ioutil.WriteFile(filepath.Join(home, "config.yaml"), []byte(y.String()), 0644))
	}
	t.Logf("key %x of %d cosigners, key-file %q, %s", pub, n, entry, why)
	t.NonTrivial("")
	t.Label("defect: " + why)
	before := snapshot(t.Scratch)
	runs := 2
	if why != "" {
		runs = 1
	}
	for i := 0; i < runs; i++ {
		prefix := ""
		if i > 0 || why != "" && t.Bool() {
			switch t.Intn(3) {
			case 0:
				prefix = []string{"cosmos", "osmo", "a", "1", "cosmosvalcons", "q1q1", "x-y"}[t.Intn(7)]
			default:
				prefix = t.Str("abcdefghijklmnopqrstuvwxyz0123456789", 1, 40)
			}
		}
		a := append([]string{"cosigner", "address"}, args...)
		if prefix != "" {
			a = append(a, prefix)
		}
		r := runHX(t.Scratch, 60*time.Second, a...)
		if r.timedOut {
			t.FatalfLive("cosigner address does not end within 60 s")
		}
		if r.crashed {
			t.Fatalf("cosigner address crashes (%s): %s", why, tailStr(r.out, 2000))
		}
		if d := diffSnap(before, snapshot(t.Scratch)); d != "" {
			t.Fatalf("cosigner address changes files: %s", d)
		}
		if why != "" {
			if r.code == 0 {
				t.Fatalf("cosigner address succeeds although: %s\n%s", why, r.out)
			}
			if strings.Contains(r.out, "HexAddress") {
				t.Fatalf("cosigner address reports an address although: %s\n%s", why, r.out)
			}
			continue
		}
		if r.code != 0 {
			t.Fatalf("cosigner address %q fails (%d): %s", prefix, r.code, r.out)
		}
		var out struct{ HexAddress, PubKey, ValConsAddress, ValConsPubAddress string }
		lines := strings.Split(strings.TrimSpace(r.out), "\n")
		if err := json.Unmarshal([]byte(lines[len(lines)-1]), &out); err != nil {
			t.Fatalf("cosigner address prints no report: %v: %s", err, r.out)
		}
		sum := sha256.Sum256(pub)
		if out.HexAddress != strings.ToUpper(hex.EncodeToString(sum[:20])) {
			t.Fatalf("hex address %s for the key %x", out.HexAddress, pub)
		}
		var pk map[string]string
		if err := json.Unmarshal([]byte(out.PubKey), &pk); err != nil {
			t.Fatalf("public key %q: %v", out.PubKey, err)
		}
		kb, err := base64.StdEncoding.DecodeString(pk["key"])
		if err != nil || !bytes.Equal(kb, pub) || pk["@type"] != "/cosmos.crypto.ed25519.PubKey" {
			t.Fatalf("public key %q for the key %x", out.PubKey, pub)
		}
		if prefix == "" {
			for _, s := range []string{out.ValConsAddress, out.ValConsPubAddress} {
				if _, _, err := bechDecode(s); err == nil {
					t.Fatalf("without a prefix the report contains %q", s)
				}
			}
			continue
		}
		for _, x := range []struct {
			what, s, hrp string
			data         []byte
		}{
			{"consensus address", out.ValConsAddress, prefix + "valcons", sum[:20]},
			{"consensus public key", out.ValConsPubAddress, prefix + "valconspub", append(append([]byte{}, aminoEd25519...), pub...)},
		} {
			hrp, data, err := bechDecode(x.s)
			if err != nil {
				t.Fatalf("%s %q does not decode: %v", x.what, x.s, err)
			}
			if hrp != x.hrp {
				t.Fatalf("%s %q has the prefix %q, asked for %q", x.what, x.s, hrp, x.hrp)
			}
			if !bytes.Equal(data, x.data) {
				t.Fatalf("%s %q decodes to %x instead of %x (key %x)", x.what, x.s, data, x.data, pub)
			}
		}
	}
}
