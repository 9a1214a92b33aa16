package main

import (
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/privval"
	pvproto "github.com/tendermint/tendermint/proto/tendermint/privval"
)

func init() { registry["C20"] = propC20 }

func propC20() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C20",
		Rule: "homes drawn over 2..8 key shares, own ID, threshold, configured peers (all others or a subset), key file place, timeouts, sentries, and 0..1 defects (threshold too low, too high, zero or negative; duplicate, own, zero, " +
			"negative or too large peer IDs; key share or its sign state missing, truncated, of a wrong type, for an ID outside the ring; missing sections, empty chain ID, bad timeout), started with the real binary's cosigner start. " +
			"Oracle: an independent predicate on threshold, IDs and files says whether it must run (it listens for peers, connects to every sentry and reports the right public key) or exit with an error without having listened, " +
			"opened its raft log, contacted a sentry or touched the share state. single: the same for signer start over chain ID, sentries, key file and state (good ones in every accepted format, or one defect). Non-trivial: every case. Distinct by choices.",
		Assumptions: []string{"the configured number of shares equals the number of dealt key shares, unless that is the drawn defect's subject"},
		Parts: []pbt.Part{
			{Name: "start", Fn: c20Start, Quick: 700, Thorough: 15000, Workers: 24, QuickSecs: 40, ThoroughSecs: 1500, Timeout: 240 * time.Second},
			{Name: "single", Fn: c20Single, Quick: 500, Thorough: 10000, Workers: 24, QuickSecs: 30, ThoroughSecs: 900, Timeout: 240 * time.Second},
		}}
}

type c20Peer struct {
	id   int
	addr string
}

func c20Start(t *pbt.T) {
	n := t.Range(2, maxN)
	own := 1 + t.Intn(n)
	ring := NewRing(t, n, n/2+1, nil)
	home := filepath.Join(t.Scratch, "home")
	mkdir(filepath.Join(home, "state"))
	chain := []string{"chain-a", "x", "cosmoshub-4"}[t.Intn(3)]

	// a good configuration
	var peers []c20Peer
	var rest []int
	for i := 1; i <= n; i++ {
		if i != own {
			rest = append(rest, i)
		}
	}
	k := len(rest)
	if t.Chance(2, 5) {
		k = t.Range(n/2, len(rest)) // enough for a threshold above half of the shares
	}
	for _, j := range t.Subset(len(rest), k) {
		peers = append(peers, c20Peer{rest[j], fmt.Sprintf("tcp://127.0.0.1:%d", 1+t.Intn(9))})
	}
	for i, j := range t.Perm(len(peers)) {
		if i < j {
			peers[i], peers[j] = peers[j], peers[i]
		}
	}
	thr := n/2 + 1 + t.Intn(k+1-n/2)
	timeout := []string{"1500ms", "1s", "0.5s", "1m"}[t.Intn(4)]
	port := freePort()
	listen := fmt.Sprintf("tcp://127.0.0.1:%d", port)
	keyFile := filepath.Join(home, "share.json")
	keyEntry := ""
	if t.Chance(1, 3) {
		keyFile = filepath.Join(t.Scratch, "my-share.json")
		keyEntry = keyFile
	}
	ring.writeShare(own, keyFile)
	shareState := filepath.Join(home, "state", chain+"_share_sign_state.json")
	pvState := filepath.Join(home, "state", chain+"_priv_validator_state.json")
	st := `{"height":"5","round":"0","step":3}`
	pbt.Must(ioutil.WriteFile(shareState, []byte(st), 0600))
	switch t.Intn(3) {
	case 0:
		pbt.Must(ioutil.WriteFile(pvState, []byte(st), 0600))
	case 1:
		pbt.Must(ioutil.WriteFile(pvState, []byte(`{"height":"0","round":"0","step":0}`), 0600))
	}
	cfgShares, cfgChain, cosSection := n, chain, true

	// one defect
	why := ""
	if t.Chance(3, 5) {
		switch t.Intn(16) {
		case 0, 1:
			thr = t.Intn(n/2) + 1
			why = "threshold not above half of the shares"
			if thr*2 > n {
				pbt.Harness("threshold")
			}
		case 2:
			thr = -t.Intn(3)
			why = "threshold not positive"
		case 3:
			thr = len(peers) + 2 + t.Intn(3)
			why = "threshold above the number of cosigners"
		case 4: // the peers are too few for any threshold above half
			peers = peers[:t.Intn((n+1)/2)]
			thr = len(peers) + 1
			if thr*2 > n {
				thr = n / 2
			}
			why = "few peers with a threshold not above half of the shares"
		case 5:
			i, j := t.Intn(len(peers)), t.Intn(len(peers))
			if i == j {
				peers = append(peers, peers[i])
			} else {
				peers[i].id = peers[j].id
			}
			why = "duplicate peer ID"
			if t.Bool() {
				cfgShares = n + 3
			}
		case 6, 7:
			peers[t.Intn(len(peers))].id = own
			why = "own ID among the peers"
		case 8:
			peers[t.Intn(len(peers))].id = -t.Intn(3)
			why = "peer ID below one"
		case 9:
			peers[t.Intn(len(peers))].id = n + 1 + t.Intn(4)
			why = "peer ID above the shares"
			if t.Bool() {
				cfgShares = n + 10
			}
		case 10:
			pbt.Must(os.Remove(keyFile))
			why = "no key share"
		case 11:
			b := fileBytes(keyFile)
			switch t.Intn(3) {
			case 0:
				b = b[:t.Intn(len(b))]
			case 1:
				b = []byte(strings.Replace(string(b), fmt.Sprintf(`"id":%d`, own), fmt.Sprintf(`"id":%d`, []int{0, -1, n + 1, 99}[t.Intn(4)]), 1))
			case 2:
				b = []byte(`{"id":1,"pub_key":"","secret_share":"","rsa_key":"","rsa_pubs":[]}`)
			}
			pbt.Must(ioutil.WriteFile(keyFile, b, 0600))
			why = "unusable key share"
		case 12, 13:
			if t.Bool() {
				pbt.Must(os.Remove(shareState))
				why = "no share state"
			} else {
				pbt.Must(ioutil.WriteFile(shareState, []byte([]string{"", "{", st[:20], "[]", `{"height":5}`, "null x"}[t.Intn(6)]), 0600))
				why = "damaged share state"
			}
		case 14:
			switch t.Intn(2) {
			case 0:
				timeout = []string{"", "5", "abc", "1 s"}[t.Intn(4)]
				why = "bad timeout"
			case 1:
				cfgChain = ""
				why = "no chain ID"
			}
		case 15:
			cosSection = false
			why = "no cosigner section"
		}
	}

	sentries := t.Range(0, 2)
	var ss []*sentry
	var y strings.Builder
	fmt.Fprintf(&y, "home-dir: %s\n", home)
	if keyEntry != "" {
		fmt.Fprintf(&y, "key-file: %s\n", keyEntry)
	}
	fmt.Fprintf(&y, "chain-id: %q\n", cfgChain)
	if cosSection {
		fmt.Fprintf(&y, "cosigner:\n  threshold: %d\n  shares: %d\n  p2p-listen: %s\n  peers:\n", thr, cfgShares, listen)
		for _, p := range peers {
			fmt.Fprintf(&y, "  - share-id: %d\n    p2p-addr: %s\n", p.id, p.addr)
		}
		if len(peers) == 0 {
			y.WriteString("    []\n")
		}
		fmt.Fprintf(&y, "  rpc-timeout: %q\n", timeout)
	}
	if sentries > 0 {
		y.WriteString("chain-nodes:\n")
	}
	for i := 0; i < sentries; i++ {
		s := newSentry(t)
		ss = append(ss, s)
		fmt.Fprintf(&y, "- priv-val-addr: %s\n", s.addr)
	}
	pbt.Must(ioutil.WriteFile(filepath.Join(home, "config.yaml"), []byte(y.String()), 0600))
	t.Logf("%d shares, own ID %d, threshold %d, peers %v, %d sentries, defect: %q", n, own, thr, peers, sentries, why)
	t.Label("defect: " + why)
	t.NonTrivial("")

	before := snapshot(home)
	p := startHX(t, t.Scratch, "cosigner", "start", "--home", home)
	listening := func() bool {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 200*time.Millisecond)
		if err != nil {
			return false
		}
		c.Close()
		return true
	}
	if why == "" {
		ok := pbt.WaitUntil(60*time.Second, func() bool { return !p.alive() || listening() })
		if !p.alive() {
			if strings.Contains(p.output(), "address already in use") {
				pbt.Harness("address already in use")
			}
			t.Fatalf("cosigner start ends (exit status %d) with a good configuration: %s", p.code, tailStr(p.output(), 3000))
		}
		if !ok {
			t.FatalfLive("cosigner start does not listen for peers within 60 s: %s", tailStr(p.output(), 3000))
		}
		for i, s := range ss {
			cn, err := s.accept(60 * time.Second)
			if err != nil {
				t.FatalfLive("sentry %d: %v (running: %v): %s", i, err, p.alive(), tailStr(p.output(), 3000))
			}
			if err := cn.write(frame(pubKeyReq(chain))); err != nil {
				t.FatalfLive("sentry %d: %v", i, err)
			}
			r, _ := cn.recv(c15Wait)
			if r == nil {
				t.FatalfLive("sentry %d: no answer to a public key request: %s", i, tailStr(p.output(), 3000))
			}
			x, ok := r.Sum.(*pvproto.Message_PubKeyResponse)
			if !ok || string(x.PubKeyResponse.PubKey.GetEd25519()) != string(ring.Pub) {
				t.Fatalf("sentry %d: a public key request is answered with %v", i, r)
			}
			cn.close()
		}
		if p.ended(50 * time.Millisecond) {
			t.Fatalf("cosigner start ends (exit status %d) with a good configuration: %s", p.code, tailStr(p.output(), 3000))
		}
		p.kill()
		if b := string(fileBytes(shareState)); b != st {
			t.Fatalf("starting changes the share state to %q", b)
		}
		return
	}
	var dialled bool
	ended := false
	end := time.Now().Add(60 * time.Second)
	for !ended && time.Now().Before(end) {
		if listening() {
			// a listener of somebody else would be a harness error; the port is reserved
			t.Fatalf("cosigner start listens for peers although: %s", why)
		}
		for _, s := range ss {
			if _, err := s.acceptRaw(0); err == nil {
				dialled = true
			}
		}
		ended = p.ended(2 * time.Millisecond)
	}
	if !ended {
		t.FatalfLive("cosigner start neither ends nor listens although: %s", why)
	}
	for _, s := range ss {
		if _, err := s.acceptRaw(0); err == nil {
			dialled = true
		}
	}
	if p.code == 0 {
		t.Fatalf("cosigner start exits with status 0 although: %s\n%s", why, tailStr(p.output(), 2000))
	}
	if p.code < 0 {
		t.Fatalf("cosigner start is killed by a signal: %s", tailStr(p.output(), 2000))
	}
	if dialled {
		t.Fatalf("cosigner start contacts a sentry although: %s", why)
	}
	d := snapshot(home)
	for f, b := range d {
		if strings.HasSuffix(f, "_share_sign_state.json") && (before[f] != b || !has(before, f)) {
			t.Fatalf("cosigner start writes the share state although: %s", why)
		}
		if strings.HasPrefix(f, "raft") && strings.HasSuffix(f, ".dat") {
			t.Fatalf("cosigner start opens its raft log although: %s", why)
		}
	}
	if _, ok := d["state/"+chain+"_share_sign_state.json"]; !ok && has(before, "state/"+chain+"_share_sign_state.json") {
		t.Fatalf("cosigner start removes the share state although: %s", why)
	}
}

func has(m map[string]string, k string) bool {
	_, ok := m[k]
	return ok
}

func c20Single(t *pbt.T) {
	home := filepath.Join(t.Scratch, "home")
	mkdir(filepath.Join(home, "state"))
	chain := chains[t.Intn(len(chains))]
	cfgChain := chain
	keyFile, keyEntry := filepath.Join(home, "priv_validator_key.json"), ""
	if t.Chance(1, 3) {
		keyFile = filepath.Join(t.Scratch, "my-key.json")
		keyEntry = keyFile
	}
	key := tmed.GenPrivKeyFromSecret(t.Bytes(8))
	privval.NewFilePV(key, keyFile, filepath.Join(t.Scratch, "unused.json")).Key.Save()
	state := filepath.Join(home, "state", chain+"_priv_validator_state.json")
	st := []string{`{"height":"0","round":"0","step":0}`, `{"height":"7","round":"0","step":3}`, `{"height":"7","round":1,"step":2}`, `{"height":"9007199254740993","round":"2","step":1}`}[t.Intn(4)]
	pbt.Must(ioutil.WriteFile(state, []byte(st), 0600))
	n := t.Range(1, 3)
	var ss []*sentry
	var addrs []string
	for i := 0; i < n; i++ {
		s := newSentry(t)
		ss = append(ss, s)
		addrs = append(addrs, s.addr)
	}
	why, noCfg := "", false
	if t.Chance(3, 5) {
		switch t.Intn(9) {
		case 0:
			cfgChain, why = "", "no chain ID"
		case 1:
			cfgChain, why = []string{"a/b", "../x", "/"}[t.Intn(3)], "chain ID with a path separator"
		case 2:
			addrs, why = nil, "no sentries"
		case 3:
			addrs[t.Intn(n)], why = []string{"://x", "tcp://[::1", "tcp://127.0.0.1:port", "%zz", ":1234", "tcp://127.0.0.1:1\x7f"}[t.Intn(6)], "bad sentry address"
		case 4:
			pbt.Must(os.Remove(keyFile))
			why = "no key file"
		case 5, 6:
			b := fileBytes(keyFile)
			switch t.Intn(4) {
			case 0:
				b = b[:t.Intn(len(b)-3)]
			case 1:
				b = nil
			case 2:
				b = []byte("[]")
			case 3:
				b = []byte(strings.Replace(string(b), "tendermint/PrivKeyEd25519", "tendermint/PrivKeyNone", 1))
			}
			pbt.Must(ioutil.WriteFile(keyFile, b, 0600))
			why = "damaged key file"
		case 7:
			pbt.Must(ioutil.WriteFile(state, []byte([]string{"", "{", st[:12], "[]", `"x"`, `{"height":"x"}`, `{"height":"7","round":"x","step":1}`, `{"height":"7","step":"three"}`}[t.Intn(8)]), 0600))
			why = "damaged state"
		case 8:
			noCfg, why = true, "no configuration file"
		}
	}
	var y strings.Builder
	fmt.Fprintf(&y, "home-dir: %s\n", home)
	if keyEntry != "" {
		fmt.Fprintf(&y, "key-file: %s\n", keyEntry)
	}
	fmt.Fprintf(&y, "chain-id: %q\n", cfgChain)
	if len(addrs) > 0 {
		y.WriteString("chain-nodes:\n")
	}
	for _, a := range addrs {
		fmt.Fprintf(&y, "- priv-val-addr: %q\n", a)
	}
	if !noCfg {
		pbt.Must(ioutil.WriteFile(filepath.Join(home, "config.yaml"), []byte(y.String()), 0600))
	}
	t.Logf("chain %q, sentries %q, defect: %q", cfgChain, addrs, why)
	t.Label("single defect: " + why)
	t.NonTrivial("")
	before := snapshot(home)
	p := startHX(t, t.Scratch, "signer", "start", "--home", home)
	if why == "" {
		for i, s := range ss {
			cn, err := s.accept(60 * time.Second)
			if err != nil {
				t.FatalfLive("sentry %d: %v (running: %v): %s", i, err, p.alive(), tailStr(p.output(), 3000))
			}
			if err := cn.write(frame(pubKeyReq(chain))); err != nil {
				t.FatalfLive("sentry %d: %v", i, err)
			}
			r, _ := cn.recv(c15Wait)
			if r == nil {
				t.FatalfLive("sentry %d: no answer to a public key request: %s", i, tailStr(p.output(), 3000))
			}
			if k := pubKeyOf(r); string(k) != string(key.PubKey().Bytes()) {
				t.Fatalf("sentry %d: a public key request is answered with %v", i, r)
			}
			cn.close()
		}
		if p.ended(20 * time.Millisecond) {
			t.Fatalf("signer start ends (exit status %d) with a good configuration: %s", p.code, tailStr(p.output(), 3000))
		}
		p.kill()
	} else {
		if !p.ended(60 * time.Second) {
			t.FatalfLive("signer start does not end although: %s: %s", why, tailStr(p.output(), 3000))
		}
		if p.code == 0 {
			t.Fatalf("signer start exits with status 0 although: %s\n%s", why, tailStr(p.output(), 2000))
		}
		if p.code < 0 {
			t.Fatalf("signer start is killed by a signal: %s", tailStr(p.output(), 2000))
		}
		for _, s := range ss {
			if _, err := s.acceptRaw(0); err == nil {
				t.Fatalf("signer start contacts a sentry although: %s", why)
			}
		}
	}
	if d := diffSnap(before, snapshot(home)); d != "" {
		t.Fatalf("signer start (%q) changes files: %s", why, d)
	}
}
