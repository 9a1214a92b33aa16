package main

import (
	"bytes"
	"context"
	"crypto/rsa"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	hproto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmlog "github.com/tendermint/tendermint/libs/log"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

func init() { registry["C23"] = propC23 }

func propC23() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C23",
		Rule: "commands: drawn commands (create-shares with good and bad parameters over new and existing files, address, state, config, starts that are refused for a drawn defect such as a truncated share file) through the real binary under a drawn umask. " +
			"exchange: sign histories with peer faults on a leader and its cosigners with every log line, request, reply and file recorded. processes: 1..3 real cosigner processes or a real single signer serving requests over sentries and gRPC, including " +
			"garbage parts and refused starts. Oracle: no recorded output, message or file other than the key files contains a piece of the validator key, of a key share, of an RSA private key or of a nonce secret or dealt nonce share, in raw bytes, hex, " +
			"base64 at any alignment, decimal byte list or (RSA) decimal number; share files that create-shares makes are readable by the owner only. Non-trivial: a command that read secrets succeeded (commands), a signature was produced (exchange, processes).",
		Setup: func(e *pbt.Env) { initStores(e, 12) },
		Parts: []pbt.Part{
			{Name: "exchange", Fn: c23Exchange, Quick: 300, Thorough: 10000, Workers: 12, QuickSecs: 15, ThoroughSecs: 300},
			{Name: "commands", Fn: c23Commands, Quick: 80, Thorough: 2500, Workers: 8, QuickSecs: 30, ThoroughSecs: 600, Timeout: 300 * time.Second, NoShrink: true},
			{Name: "processes", Fn: c23Processes, Quick: 32, Thorough: 600, Workers: 12, QuickSecs: 30, ThoroughSecs: 900, Timeout: 300 * time.Second, NoShrink: true},
		}}
}

// ---------- finding secrets ----------

type secrets struct {
	mu   sync.Mutex
	pats map[string]string
}

func newSecrets() *secrets { return &secrets{pats: map[string]string{}} }

const secretPiece = 12

// add takes the encodings of pieces of b.
func (s *secrets) add(name string, b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(b) < secretPiece {
		return
	}
	rev := make([]byte, len(b))
	for i := range b {
		rev[len(b)-1-i] = b[i]
	}
	for k, v := range [][]byte{b, rev} {
		for _, at := range []int{0, (len(v) - secretPiece) / 2, len(v) - secretPiece} {
			p := v[at : at+secretPiece]
			if bytes.Count(p, p[:1]) > secretPiece/2 { // nothing to recognise
				continue
			}
			s.pats[string(p)] = name + ", raw"
			s.pats[hex.EncodeToString(p)] = name + ", hex"
			s.pats[strings.ToUpper(hex.EncodeToString(p))] = name + ", hex"
			s.pats[strings.Trim(fmt.Sprint(p), "[]")] = name + ", byte list"
			s.pats[strings.ReplaceAll(strings.Trim(fmt.Sprint(p), "[]"), " ", ",")] = name + ", byte list"
			s.pats[strings.ReplaceAll(strings.Trim(fmt.Sprint(p), "[]"), " ", ", ")] = name + ", byte list"
			x := fmt.Sprintf("%#v", p)
			s.pats[x[strings.Index(x, "{")+1:len(x)-1]] = name + ", byte list"
		}
		if k == 0 {
			for at := 0; at+secretPiece <= len(v); at++ {
				if p := v[at : at+secretPiece]; at < 3 || at > len(v)-secretPiece-3 {
					s.pats[base64.StdEncoding.EncodeToString(p)] = name + ", base64"
					s.pats[base64.URLEncoding.EncodeToString(p)] = name + ", base64"
				}
			}
		}
	}
}

func (s *secrets) addRSA(name string, k *rsa.PrivateKey) {
	num := func(what string, x *big.Int) {
		if x == nil {
			return
		}
		s.add(name+" "+what, x.Bytes())
		d := x.String()
		s.mu.Lock()
		s.pats[d[:30]] = name + " " + what + ", decimal"
		s.mu.Unlock()
	}
	num("D", k.D)
	for _, p := range k.Primes {
		num("prime", p)
	}
	num("Dp", k.Precomputed.Dp)
	num("Dq", k.Precomputed.Dq)
}

func (s *secrets) addKey(name string, priv []byte) {
	s.add(name, priv[:32])
	h := sha512.Sum512(priv[:32])
	s.add(name+" (expanded)", h[:32])
	s.add(name+" (clamped)", tsed25519.ExpandSecret(priv[:32]))
}

func (s *secrets) addShare(k signer.CosignerKey) {
	s.add(fmt.Sprintf("the key share of cosigner %d", k.ID), k.ShareKey)
	s.addRSA(fmt.Sprintf("the RSA key of cosigner %d", k.ID), &k.RSAKey)
}

// find names a secret in b ("" if there is none).
func (s *secrets) find(b string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	for p, name := range s.pats {
		if i := strings.Index(b, p); i >= 0 {
			lo, hi := i-80, i+len(p)+20
			if lo < 0 {
				lo = 0
			}
			if hi > len(b) {
				hi = len(b)
			}
			return fmt.Sprintf("%s: %q", name, b[lo:hi])
		}
	}
	return ""
}

// findFiles looks into every file below dir that is no key file.
func (s *secrets) findFiles(dir string, keyFile func(rel string) bool) string {
	for rel, b := range snapshot(dir) {
		if strings.HasSuffix(rel, "/") || keyFile(rel) {
			continue
		}
		if x := s.find(b); x != "" {
			return fmt.Sprintf("file %s holds %s", rel, x)
		}
	}
	return ""
}

// ---------- a leader and its cosigners ----------

type recBuf struct {
	m sync.Mutex
	b bytes.Buffer
}

func (r *recBuf) Write(p []byte) (int, error) {
	r.m.Lock()
	defer r.m.Unlock()
	return r.b.Write(p)
}

type recLogger struct{ w *recBuf }

func (l recLogger) line(lv, msg string, kv []interface{}) {
	fmt.Fprintf(l.w, "%s %s %v %+v\n", lv, msg, kv, kv)
	for _, v := range kv {
		if b, err := json.Marshal(v); err == nil {
			l.w.Write(append(b, '\n'))
		}
	}
}
func (l recLogger) Debug(m string, kv ...interface{})   { l.line("D", m, kv) }
func (l recLogger) Info(m string, kv ...interface{})    { l.line("I", m, kv) }
func (l recLogger) Error(m string, kv ...interface{})   { l.line("E", m, kv) }
func (l recLogger) With(kv ...interface{}) tmlog.Logger { return l }

// note records a value as it may travel.
func (l recLogger) note(v ...interface{}) {
	for _, x := range v {
		b, _ := json.Marshal(x)
		fmt.Fprintf(l.w, "%v %+v %s\n", x, x, b)
	}
}

func c23Exchange(t *pbt.T) {
	n, th := drawNT(t, 5)
	ring := NewRing(t, n, th, nil)
	ldID := ring.IDs[t.Intn(n)]
	log := recLogger{&recBuf{}}
	s := newSecrets()
	s.addKey("the validator key", ring.Priv.Bytes())
	for _, k := range ring.Keys {
		s.addShare(k)
	}
	rig := NewRig(t, ring, []int{ldID})
	ld := rig.Leaders[0]
	ld.log = log
	ld.boot()
	seen := map[string]bool{}
	learn := func(parts []signer.CosignerEphemeralSecretPart) {
		by := map[int][]signer.CosignerEphemeralSecretPart{}
		for _, p := range parts {
			k := ring.RSA[p.DestinationID]
			if k == nil || seen[string(p.EncryptedSharePart)] {
				continue
			}
			seen[string(p.EncryptedSharePart)] = true
			if b, err := openPart(k, p); err == nil {
				s.add(fmt.Sprintf("the nonce share of cosigner %d for %d", p.SourceID, p.DestinationID), b)
				by[p.SourceID] = append(by[p.SourceID], p)
			}
		}
		for src, ps := range by {
			if len(ps) >= th {
				s.add(fmt.Sprintf("the nonce secret of cosigner %d", src), reconstruct(t, ring, ps, th))
			}
		}
	}
	var mu sync.Mutex
	var dealt []signer.CosignerEphemeralSecretPart
	for _, node := range ring.Nodes {
		node.OnSign = func(n *Node, req signer.CosignerSetEphemeralSecretPartsAndSignRequest, res *signer.CosignerSignResponse, err error) {
			log.note(req, fmt.Sprint(err))
			if res != nil {
				log.note(*res)
			}
			mu.Lock()
			dealt = append(dealt, req.EncryptedSecrets...)
			mu.Unlock()
		}
	}
	g := MsgGen{Base: 1 + int64(t.Intn(50)), H: 1, R: 2, Chains: 1}
	var hist []Msg
	signed := 0
	for i, steps := 0, t.Range(2, 8); i < steps; i++ {
		m := g.Draw(t)
		if len(hist) > 0 && t.Chance(1, 3) {
			m = g.Mutate(t, hist[t.Intn(len(hist))])
		} else {
			g.Base += int64(t.Intn(3))
		}
		hist = append(hist, m)
		// all parts of a member for this position
		id := ring.IDs[t.Intn(n)]
		if res, err := ring.Nodes[id].LC.GetEphemeralSecretParts(m.HRST()); err == nil {
			log.note(*res)
			learn(res.EncryptedSecrets)
		}
		rep := ld.Do(m, rig.Plan(ld, 1, 5, []int{fSignErr, fSignLost, fCrashAfter, fCrashBefore, fGetErr, fGetGarbage, fSignGarbage, fPartsMissing}, false))
		t.Logf("%s -> %s", m, okErr(rep.err))
		log.note(fmt.Sprint(rep.err), rep.sig)
		if rep.err == nil {
			signed++
		}
		if t.Chance(1, 8) {
			ld.Restart()
		}
	}
	mu.Lock()
	learn(dealt)
	mu.Unlock()
	log.w.m.Lock()
	out := log.w.b.String()
	log.w.m.Unlock()
	if x := s.find(out); x != "" {
		t.Fatalf("a log line or message between cosigners holds %s", x)
	}
	if x := s.findFiles(ring.Dir, func(string) bool { return false }); x != "" {
		t.Fatalf("%s", x)
	}
	if signed > 0 {
		t.NonTrivial(fmt.Sprint(t.CaseNo))
	}
}

// ---------- commands ----------

// runMasked runs the binary with a umask.
func runMasked(dir string, mask int, timeout time.Duration, args ...string) cliResult {
	return runProg(dir, timeout, "/bin/sh", append([]string{"-c", fmt.Sprintf("umask %03o; exec \"$0\" \"$@\"", mask), env.HX}, args...)...)
}

func c23Commands(t *pbt.T) {
	s := newSecrets()
	dir := mkdir(filepath.Join(t.Scratch, "d"))
	home := filepath.Join(dir, "home")
	mask := []int{0, 022, 002, 077}[t.Intn(4)]
	keyFiles := map[string]bool{"priv_validator_key.json": true, "home/share.json": true}
	isKey := func(rel string) bool { return keyFiles[rel] || strings.HasPrefix(filepath.Base(rel), "private_share_") }
	priv := writePrivKey(filepath.Join(dir, "priv_validator_key.json"), t.Bytes(16))
	s.addKey("the validator key", priv.Bytes())
	ok := 0
	run := func(args ...string) cliResult {
		r := runMasked(dir, mask, 120*time.Second, args...)
		t.Logf("umask %03o: %v -> exit %d", mask, args, r.code)
		if r.timedOut {
			pbt.Harness("%v did not finish", args)
		}
		if x := s.find(r.out); x != "" {
			t.Fatalf("the output of %v holds %s", args, x)
		}
		return r
	}
	// the shares of a ring, at home
	n := t.Range(2, 4)
	ring := NewRing(t, n, n/2+1, nil)
	s.addKey("the ring's validator key", ring.Priv.Bytes())
	for _, k := range ring.Keys {
		s.addShare(k)
	}
	own := ring.IDs[t.Intn(n)]
	initArgs := []string{"config", "init", "chain-a", "tcp://127.0.0.1:1", "--home", home, "--cosigner", "--threshold", fmt.Sprint(ring.T), "--listen", fmt.Sprintf("tcp://127.0.0.1:%d", freePort()), "--timeout", "1s"}
	var peers []string
	for _, id := range others(ring.IDs, own) {
		peers = append(peers, fmt.Sprintf("tcp://127.0.0.1:1|%d", id))
	}
	initArgs = append(initArgs, "--peers", strings.Join(peers, ","))
	if r := run(initArgs...); r.code != 0 {
		t.Label("init refused")
		return
	}
	ring.writeShare(own, filepath.Join(home, "share.json"))
	good := fileBytes(filepath.Join(home, "share.json"))
	for steps := t.Range(2, 6); steps > 0; steps-- {
		switch t.Weighted(3, 3, 2, 3) {
		case 0: // sharding
			if t.Chance(1, 2) {
				for i := 1; i <= 3; i++ {
					_ = os.Remove(filepath.Join(dir, fmt.Sprintf("private_share_%d.json", i)))
				}
			}
			if t.Chance(1, 5) { // the second share cannot be written
				_ = os.Remove(filepath.Join(dir, "private_share_2.json"))
				mkdir(filepath.Join(dir, "private_share_2.json"))
			}
			before := map[string]bool{}
			for rel := range snapshot(dir) {
				before[rel] = true
			}
			p := [][]string{{"2", "2"}, {"2", "3"}, {"1", "1"}, {"1", "2"}, {"0", "2"}, {"3", "2"}, {"2", "x"}, {"-1", "1"}}[t.Weighted(4, 2, 2, 1, 1, 1, 1, 1)]
			r := run("create-shares", "priv_validator_key.json", "--home", home, "--", p[0], p[1])
			for i := 1; i <= 3; i++ {
				rel := fmt.Sprintf("private_share_%d.json", i)
				fi, err := os.Stat(filepath.Join(dir, rel))
				if err != nil || fi.IsDir() {
					continue
				}
				if k, err := signer.LoadCosignerKey(filepath.Join(dir, rel)); err == nil {
					s.addShare(k)
				}
				if !before[rel] && fi.Mode().Perm()&077 != 0 {
					t.Fatalf("create-shares makes %s with mode %v", rel, fi.Mode().Perm())
				}
			}
			if x := s.find(r.out); x != "" {
				t.Fatalf("the output of create-shares holds %s", x)
			}
			if r.code == 0 {
				ok++
			}
		case 1:
			if r := run("cosigner", "address", "--home", home); r.code == 0 {
				ok++
			}
		case 2:
			run([][]string{{"state", "show", "chain-a", "--home", home}, {"state", "set", fmt.Sprint(1 + t.Intn(5)), "--home", home},
				{"config", "nodes", "add", "tcp://h:1", "--home", home}, {"version", "--home", home}, {"cosigner", "--help"},
				{"config", "init", "chain-a", "tcp://127.0.0.1:1", "--home", home, "-o"}}[t.Intn(5)]...)
		case 3: // a start or an address that fails
			file := filepath.Join(home, "share.json")
			b := good
			why := ""
			switch t.Intn(5) {
			case 0:
				b, why = b[:t.Intn(len(b))], "truncated share"
			case 1:
				m := map[string]json.RawMessage{}
				pbt.Must(json.Unmarshal(b, &m))
				ks := []string{"pub_key", "rsa_key", "secret_share", "id", "rsa_pubs"}
				k := ks[t.Intn(len(ks))]
				m[k] = []json.RawMessage{json.RawMessage(`"x"`), json.RawMessage(`null`), json.RawMessage(`[]`), json.RawMessage(`{}`), m[ks[t.Intn(len(ks))]]}[t.Intn(5)]
				x, err := json.Marshal(m)
				pbt.Must(err)
				b, why = x, "share with an odd "+k
			case 2:
				i := t.Intn(len(b))
				b = append(append(append([]byte{}, b[:i]...), byte(t.Intn(256))), b[i+1:]...)
				why = "share with a changed byte"
			case 3:
				b, why = append(append([]byte{}, b...), "}garbage"...), "share with garbage behind"
			case 4:
				i := 1 + t.Intn(len(b)-1)
				b = append(append(append([]byte{}, b[:i]...), '"', 'x'), b[i:]...)
				why = "share with inserted bytes"
			}
			pbt.Must(ioutil.WriteFile(file, b, 0600))
			t.Logf("%s", why)
			run("cosigner", "address", "--home", home)
			// no share state, so it cannot start signing even if the share is good enough
			st := filepath.Join(home, "state", "chain-a_share_sign_state.json")
			old := fileBytes(st)
			_ = os.Remove(st)
			run("cosigner", "start", "--home", home)
			if old != nil {
				pbt.Must(ioutil.WriteFile(st, old, 0600))
			}
			pbt.Must(ioutil.WriteFile(file, good, 0600))
		}
		if x := s.findFiles(dir, isKey); x != "" {
			t.Fatalf("%s", x)
		}
	}
	if ok > 0 {
		t.NonTrivial("")
	}
}

// ---------- real processes ----------

func c23Processes(t *pbt.T) {
	s := newSecrets()
	chain := "chain-a"
	n := t.Range(1, 3)
	ring := NewRing(t, -minInt(-n, -2), -minInt(-n, -2)/2+1, nil)
	s.addKey("the validator key", ring.Priv.Bytes())
	for _, k := range ring.Keys {
		s.addShare(k)
	}
	var procs []*hxProc
	var conns []*sconn
	var addrs []string
	for range ring.IDs {
		addrs = append(addrs, fmt.Sprintf("127.0.0.1:%d", freePort()))
	}
	var out bytes.Buffer
	start := func(home string, sn *sentry, args ...string) bool {
		p := startHX(t, t.Scratch, args...)
		procs = append(procs, p)
		for k := 0; k < 30; k++ {
			if cn, err := sn.accept(time.Second); err == nil {
				conns = append(conns, cn)
				return true
			}
			if !p.alive() {
				break
			}
		}
		return false
	}
	up := true
	if n == 1 {
		home := filepath.Join(t.Scratch, "home1")
		sn := newSentry(t)
		if r := runHX(t.Scratch, 60*time.Second, "config", "init", chain, sn.addr, "--home", home); r.code != 0 {
			t.Label("init refused")
			return
		}
		writePrivKeyOf(filepath.Join(home, "priv_validator_key.json"), ring.Priv)
		up = start(home, sn, "signer", "start", "--home", home)
		t.Label("single signer")
	} else {
		for i, id := range ring.IDs {
			home := filepath.Join(t.Scratch, fmt.Sprintf("home%d", id))
			sn := newSentry(t)
			var peers []string
			for j, o := range ring.IDs {
				if j != i {
					peers = append(peers, fmt.Sprintf("tcp://%s|%d", addrs[j], o))
				}
			}
			if r := runHX(t.Scratch, 60*time.Second, "config", "init", chain, sn.addr, "--home", home, "--cosigner", "--threshold", fmt.Sprint(ring.T), "--listen", "tcp://"+addrs[i], "--peers", strings.Join(peers, ","), "--timeout", "1500ms"); r.code != 0 {
				t.Label("init refused")
				return
			}
			ring.writeShare(id, filepath.Join(home, "share.json"))
			if t.Chance(1, 3) { // this member refuses what the others still sign
				h := t.Range(2, 9)
				t.Logf("cosigner %d has signed up to height %d", id, h)
				pbt.Must(ioutil.WriteFile(filepath.Join(home, "state", chain+"_share_sign_state.json"), []byte(fmt.Sprintf(`{"height":"%d","round":"0","step":3}`, h)), 0600))
			}
			up = start(home, sn, "cosigner", "start", "--home", home) && up
		}
	}
	if !up {
		t.Label("not up")
	}
	signed := 0
	g := MsgGen{Base: 1, H: 2, R: 2}
	var last Msg
	if up {
		for i, k := 0, t.Range(3, 10); i < k; i++ {
			cn := conns[t.Intn(len(conns))]
			m := g.Draw(t)
			m.H += int64(i)
			if i > 0 && t.Chance(1, 3) {
				m = g.Mutate(t, last)
			}
			last = m
			b := frame(msgReqAs(m, chain))
			if t.Chance(1, 8) {
				b = delimit(t.Bytes(t.Range(1, 40)))
			} else if t.Chance(1, 8) {
				b = frame(pubKeyReq(chain))
			}
			if i == 0 && n > 1 { // until there is a leader
				pbt.WaitUntil(15*time.Second, func() bool {
					r := c23Ask(conns[0], frame(msgReqAs(Msg{Kind: kPrevote, H: 1, Block: 1}, chain)))
					fmt.Fprintf(&out, "%v\n", r)
					for _, x := range []string{"co-signers", "regression", "Progress already", "timed out waiting for peers", "ephemeral shares", "combined"} {
						if strings.Contains(r, x) {
							return true
						}
					}
					return strings.Contains(r, "SignedVoteResponse") && !strings.Contains(r, "Description")
				})
			}
			r := c23Ask(cn, b)
			fmt.Fprintf(&out, "%v\n", r)
			if r == "" {
				continue
			}
			if strings.Contains(r, "signature") || strings.Contains(r, "Signature") {
				signed++
			}
			if n == 3 && t.Chance(1, 12) {
				k := t.Intn(n)
				t.Logf("kill process %d", k)
				procs[k].kill()
			}
			if n > 1 && t.Chance(1, 2) {
				c23Peer(t, ring, s, addrs, m, &out)
			}
		}
		if n > 1 && t.Chance(1, 3) {
			r := runHX(t.Scratch, 60*time.Second, "elect", "--home", filepath.Join(t.Scratch, "home1"), fmt.Sprint(ring.IDs[t.Intn(n)]))
			out.WriteString(r.out)
		}
	}
	for i, p := range procs {
		if t.Bool() {
			p.stop(20 * time.Second)
		}
		p.kill()
		if x := s.find(p.output()); x != "" {
			t.Fatalf("the output of process %d holds %s", i, x)
		}
	}
	if x := s.find(out.String()); x != "" {
		t.Fatalf("an answer holds %s", x)
	}
	if x := s.findFiles(t.Scratch, func(rel string) bool {
		return strings.HasSuffix(rel, "/share.json") || strings.HasSuffix(rel, "priv_validator_key.json")
	}); x != "" {
		t.Fatalf("%s", x)
	}
	if signed > 0 {
		t.NonTrivial("")
	}
}

func c23Ask(cn *sconn, b []byte) string {
	if cn.write(b) != nil {
		return ""
	}
	r, _ := cn.recv(6 * time.Second)
	if r == nil {
		return ""
	}
	x, _ := r.Marshal()
	return fmt.Sprintf("%v %s", r, x)
}

// c23Peer speaks to a process as its peers do.
func c23Peer(t *pbt.T, ring *Ring, s *secrets, addrs []string, m Msg, out *bytes.Buffer) {
	i := t.Intn(len(ring.IDs))
	id := ring.IDs[i]
	conn, err := grpc.Dial(addrs[i], grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return
	}
	defer conn.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	cl := hproto.NewCosignerGRPCClient(conn)
	h := m.HRST()
	h.Height += 1000
	ph := &hproto.HRST{Height: h.Height, Round: h.Round, Step: int32(h.Step), Timestamp: h.Timestamp}
	res, err := cl.GetEphemeralSecretParts(ctx, &hproto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: ph})
	fmt.Fprintf(out, "%v %v\n", res, err)
	if err == nil {
		x, _ := json.Marshal(res)
		out.Write(x)
		parts := signer.CosignerEphemeralSecretPartsFromProto(res.EncryptedSecrets)
		for _, p := range parts {
			if k := ring.RSA[p.DestinationID]; k != nil {
				if b, err := openPart(k, p); err == nil {
					s.add(fmt.Sprintf("the nonce share of cosigner %d for %d", p.SourceID, p.DestinationID), b)
				}
			}
		}
		if len(parts) >= ring.T {
			s.add(fmt.Sprintf("the nonce secret of cosigner %d", id), reconstruct(t, ring, parts, ring.T))
		}
	}
	mm := m
	mm.H += 1000
	req := &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: ph, SignBytes: mm.SignBytes()}
	for _, p := range ring.partsFor(t, id, pickSome(t, others(ring.IDs, id), ring.T-1), h) {
		if t.Chance(1, 3) {
			p.EncryptedSharePart = t.Bytes(t.Intn(300))
		}
		if t.Chance(1, 3) {
			p.SourceSig = t.Bytes(t.Intn(300))
		}
		req.EncryptedSecrets = append(req.EncryptedSecrets, &hproto.EphemeralSecretPart{SourceID: int32(p.SourceID), DestinationID: int32(p.DestinationID),
			SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
	}
	r2, err := cl.SetEphemeralSecretPartsAndSign(ctx, req)
	fmt.Fprintf(out, "%v %v\n", r2, err)
	if err == nil {
		x, _ := json.Marshal(r2)
		out.Write(x)
	}
}
