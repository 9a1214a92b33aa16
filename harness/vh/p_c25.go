package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/privval"
	pvproto "github.com/tendermint/tendermint/proto/tendermint/privval"
)

func init() { registry["C25"] = propC25 }

func propC25() *pbt.Property {
	return &pbt.Property{ID: "C25",
		Rule: "an old validator (tendermint's FilePV with a drawn key) signs drawn messages; the documented steps are then carried out with the real binary: create-shares with drawn t of n, config init on every member (default or given home and key file place, " +
			"drawn sentries, timeouts and order of peers), its share, its state (the documented truncated files, or state set), cosigner address, cosigner start on all or at least t members; then probes at, below and above the old position through every member, " +
			"restarts of all members (killed or stopped), late members, further sentries (config nodes add) and elections. Oracle: the sentries see the old validator's public key and address; nothing is signed at or below the imported position but what the old validator signed " +
			"there; everything above is signed by whichever member is asked, valid under the old key; per position one content, also across restarts. Non-trivial: a refused probe at or below the imported position and signed ones through two members. Distinct by choices.",
		Assumptions: []string{"the old validator is stopped and its position is given to every member, as documented"},
		Parts: []pbt.Part{
			{Name: "migrate", Fn: c25Migrate, Quick: 24, Thorough: 600, Workers: 8, QuickSecs: 40, ThoroughSecs: 1800, Timeout: 600 * time.Second, NoShrink: true},
		}}
}

type c25 struct {
	*c14
	t        *pbt.T
	key      tmed.PrivKey
	w        HRS
	old      *Msg // what the old validator signed at w
	homeFlag map[int]bool
	dir      map[int]string // HOME of each member
}

// hx runs a command as the operator of a member would.
func (c *c25) hx(id int, args ...string) cliResult {
	if c.homeFlag[id] {
		for i, a := range args {
			if a == "--" {
				args = append(append(append([]string{}, args[:i]...), "--home", c.ms[id].home), args[i:]...)
				return runHX(c.dir[id], 60*time.Second, args...)
			}
		}
		args = append(args, "--home", c.ms[id].home)
	}
	return runHX(c.dir[id], 60*time.Second, args...)
}

func c25Migrate(t *pbt.T) {
	c := &c25{t: t, homeFlag: map[int]bool{}, dir: map[int]string{}}
	c.c14 = &c14{t: t, ms: map[int]*c14Member{}, reqs: map[HRS][]Msg{}, signed: map[HRS]string{}, sigs: map[Msg][]byte{}, chain: t.Intn(len(chains))}
	chain := chains[c.chain]
	c.key = tmed.GenPrivKeyFromSecret(t.Bytes(8))
	n, th := 3, 2
	switch t.Weighted(6, 2, 1, 1) {
	case 1:
		n, th = 2, 2
	case 2:
		n, th = 3, 3
	case 3:
		n, th = 4, 3
	}

	// the old validator and its last signature
	keyFile := filepath.Join(t.Scratch, "old", "priv_validator_key.json")
	oldState := filepath.Join(t.Scratch, "old", "priv_validator_state.json")
	mkdir(filepath.Dir(keyFile))
	pv := privval.NewFilePV(c.key, keyFile, oldState)
	pv.Key.Save()
	base := []int64{1, 50, 361402, 1 << 33, 1 << 53}[t.Weighted(3, 3, 3, 1, 1)]
	g := MsgGen{Base: base, H: 2, R: 3, TS: len(tsPool)}.Wide(t)
	for k := t.Range(1, 4); k > 0; k-- {
		m := g.Draw(t)
		m.Chain = c.chain
		if rep := signWith(pv, m); rep.err == nil {
			m := m
			if m.HRS() != c.w {
				c.w, c.old = m.HRS(), &m
			}
		}
	}
	if c.old == nil {
		pbt.Harness("the old validator signs nothing")
	}
	t.Logf("%s: old validator signed up to %s; %d of %d", chain, c.old, th, n)

	// 3. shares
	shares := filepath.Join(t.Scratch, "shares")
	mkdir(shares)
	if r := runHX(shares, 280*time.Second, "create-shares", keyFile, fmt.Sprint(th), fmt.Sprint(n), "--home", filepath.Join(shares, "none")); r.code != 0 || r.timedOut {
		t.Fatalf("create-shares %d %d fails: %s", th, n, r.out)
	}
	c.ring = &Ring{Shares: n, Total: n, T: th, Pub: c.key.PubKey().(tmed.PubKey)}
	for id := 1; id <= n; id++ {
		c.ring.IDs = append(c.ring.IDs, id)
	}
	c.ids = c.ring.IDs
	for _, id := range c.ids {
		dir := filepath.Join(t.Scratch, fmt.Sprintf("machine%d", id))
		mkdir(dir)
		c.dir[id] = dir
		c.homeFlag[id] = t.Chance(1, 3)
		home := filepath.Join(dir, ".horcrux")
		if c.homeFlag[id] {
			home = filepath.Join(dir, "elsewhere")
		}
		m := &c14Member{c: c.c14, id: id, home: home, addr: fmt.Sprintf("127.0.0.1:%d", freePort())}
		for k := t.Range(1, 2); k > 0; k-- {
			m.ss = append(m.ss, newSentry(t))
		}
		m.busy = make([]sync.Mutex, 4)
		c.ms[id] = m
	}
	// 2. and 4. configuration, share, state
	toHeight := t.Chance(1, 4) // state set, which takes heights only
	h := c.w.H
	if toHeight {
		h = c.w.H + int64(t.Range(1, 3))
		t.Logf("state set %d", h)
		t.Label("state set")
	}
	timeout := []string{"1500ms", "1s", "1000ms", ""}[t.Intn(4)]
	for _, id := range c.ids {
		c.configure(id, timeout, filepath.Join(shares, fmt.Sprintf("private_share_%d.json", id)))
		if toHeight {
			if r := c.hx(id, "state", "set", fmt.Sprint(h)); r.code != 0 {
				t.Fatalf("state set fails on member %d: %s", id, r.out)
			}
		} else {
			for _, kind := range []string{"priv_validator", "share_sign"} {
				f := filepath.Join(c.ms[id].home, "state", chain+"_"+kind+"_state.json")
				if _, err := os.Stat(f); err != nil {
					t.Fatalf("config init leaves no %s: %v", f, err)
				}
				pbt.Must(ioutil.WriteFile(f, []byte(fmt.Sprintf("{\n  \"height\": \"%d\",\n  \"round\": \"%d\",\n  \"step\": %d\n}\n", c.w.H, c.w.R, c.w.S)), 0600))
			}
		}
		c.address(id)
	}
	if toHeight {
		c.w, c.old = HRS{h, 0, 0}, nil
	}
	// nothing may be signed at or below w again
	c.top, c.done, c.sure = c.w, c.w, c.w
	c.signed[c.w] = "(the old validator)"
	if c.old != nil {
		c.signed[c.w] = c.old.Content()
	}
	c.reqs[c.w] = []Msg{{Block: -1}, {Block: -1}}

	// 5. start
	start := append([]int{}, c.ids...)
	if th < n && t.Bool() {
		late := t.Weighted(3, 1, 1, 1) % n // the first member may well be the late one
		start = append(start[:late:late], start[late+1:]...)
		t.Logf("only %v start", start)
		t.Label("not all started")
	}
	c.startAll(start)
	refused, by := false, map[int]bool{}
	for steps := t.Range(5, 12); steps > 0; steps-- {
		live := c.live()
		switch t.Weighted(4, 5, 2, 1, 1, 1) {
		case 0: // at or below the imported position
			if c.probe(live[t.Intn(len(live))]) {
				refused = true
			}
		case 1:
			x := live[t.Intn(len(live))]
			g.Base = c.top.H
			m := g.Draw(t)
			m.H, m.Chain = c.top.H+int64(t.Range(0, 1)), c.chain
			if t.Chance(1, 4) || m.HRS().Cmp(c.top) <= 0 {
				m.H = c.top.H + 1
			}
			if c.one(x, m) {
				by[x] = true
			}
		case 2: // conflict with or repeat what was signed last
			if len(c.recent) > 0 {
				m := c.recent[len(c.recent)-1]
				if t.Bool() {
					m.Block = m.Block%3 + 1
				}
				c.one(live[t.Intn(len(live))], m)
			}
		case 3: // everything stops and starts again
			hard := t.Bool()
			t.Logf("all members end (killed %v) and start again", hard)
			t.Label("restart of all")
			for _, id := range live {
				if !hard && !c.ms[id].p.stop(30*time.Second) {
					t.FatalfLive("member %d does not stop on SIGTERM", id)
				}
				c.ms[id].stop()
			}
			c.startAll(live)
		case 4:
			for _, id := range c.ids {
				if c.ms[id].p == nil {
					t.Logf("member %d starts late", id)
					t.Label("late member")
					c.startAll([]int{id})
				}
			}
		case 5: // another sentry
			x := live[t.Intn(len(live))]
			mb := c.ms[x]
			if len(mb.ss) > 3 {
				continue
			}
			s := newSentry(t)
			t.Logf("another sentry for %d", x)
			t.Label("another sentry")
			if r := c.hx(x, "config", "nodes", "add", s.addr); r.code != 0 {
				t.Fatalf("config nodes add fails on member %d: %s", x, r.out)
			}
			mb.stop()
			mb.ss = append(mb.ss, s)
			c.startAll([]int{x})
		}
	}
	for _, id := range c.live() {
		if c.probe(id) {
			refused = true
		}
		if c.one(id, Msg{Kind: kPrevote, H: c.top.H + 1, Block: 1, TS: 1, Chain: c.chain}) {
			by[id] = true
		}
	}
	c.converge()
	t.Label(fmt.Sprintf("%d of %d", th, n))
	if refused && len(by) > 1 {
		t.NonTrivial("")
	}
}

// probe asks a member for something at or below the imported position; true if it is refused.
func (c *c25) probe(x int) bool {
	t := c.t
	m := Msg{Kind: 1 + t.Intn(2), H: c.w.H, R: c.w.R, Block: 1 + t.Intn(3), TS: 1 + t.Intn(len(tsPool)-1), Chain: c.chain}
	switch t.Weighted(4, 2, 2, 2) {
	case 0:
		if c.old != nil {
			m = *c.old
			if t.Chance(3, 4) {
				m.Block = m.Block%3 + 1
			} else if t.Bool() {
				m.TS = 1 + t.Intn(len(tsPool)-1)
			}
		}
	case 1:
		m.H = c.w.H - int64(t.Range(1, 5))
		m.R = int64(t.Intn(3))
	case 2:
		m.R = int64(t.Intn(int(minI64(c.w.R, 1000)) + 1))
	}
	if m.H < 1 || m.HRS().Cmp(c.w) > 0 {
		return false
	}
	t.Logf("at or below: %s to %d", m, x)
	a, lost := c.ask(x, m, 0)
	if lost {
		c.alive()
		t.FatalfLive("member %d does not answer %s", x, m)
	}
	if a.err != "" {
		return true
	}
	if m.HRS() == c.w && c.old != nil && m.Content() == c.old.Content() && c.ring.verifies(m, a.sig) {
		return false
	}
	t.Fatalf("member %d signs %s, the old validator had signed up to %v", x, m, c.w)
	return false
}

func minI64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (c *c25) configure(id int, timeout, share string) {
	t := c.t
	mb := c.ms[id]
	var peers, addrs []string
	rest := others(c.ids, id)
	for _, i := range t.Perm(len(rest)) {
		peers = append(peers, fmt.Sprintf("tcp://%s|%d", c.ms[rest[i]].addr, rest[i]))
	}
	for _, s := range mb.ss {
		addrs = append(addrs, s.addr)
	}
	args := []string{"config", "init", chains[c.chain], strings.Join(addrs, ","), "-c", "-p", strings.Join(peers, ","), "-l", "tcp://" + mb.addr, "-t", fmt.Sprint(c.ring.T)}
	if timeout != "" {
		args = append(args, "--timeout", timeout)
	}
	to := filepath.Join(mb.home, "share.json")
	if t.Chance(1, 4) {
		to = filepath.Join(c.dir[id], "my share.json")
		args = append(args, "-k", to)
	}
	if r := c.hx(id, args...); r.code != 0 {
		t.Fatalf("config init fails on member %d: %s", id, r.out)
	}
	b, err := ioutil.ReadFile(share)
	if err != nil {
		t.Fatalf("no share file: %v", err)
	}
	pbt.Must(ioutil.WriteFile(to, b, 0600))
	t.Logf("member %d: %v", id, args[3:])
}

func (c *c25) address(id int) {
	t := c.t
	r := c.hx(id, "cosigner", "address")
	if r.code != 0 {
		t.Fatalf("cosigner address fails on member %d: %s", id, r.out)
	}
	var a struct{ HexAddress, PubKey string }
	if i := strings.Index(r.out, "{"); i < 0 || json.Unmarshal([]byte(r.out[i:]), &a) != nil {
		t.Fatalf("cosigner address prints %q on member %d", r.out, id)
	}
	if a.HexAddress != c.key.PubKey().Address().String() || !strings.Contains(a.PubKey, base64.StdEncoding.EncodeToString(c.ring.Pub)) {
		t.Fatalf("cosigner address prints %q on member %d, the validator's address is %s", r.out, id, c.key.PubKey().Address())
	}
}

func pubKeyOf(m *pvproto.Message) []byte {
	if x, ok := m.Sum.(*pvproto.Message_PubKeyResponse); ok && x.PubKeyResponse.Error == nil {
		return x.PubKeyResponse.PubKey.GetEd25519()
	}
	return nil
}

func (c *c25) startAll(ids []int) {
	t := c.t
	var g pbt.Group
	for _, id := range ids {
		m, flag, dir := c.ms[id], c.homeFlag[id], c.dir[id]
		g.Go(func() {
			if flag {
				m.startIn(dir, "--home", m.home)
			} else {
				m.startIn(dir)
			}
		})
	}
	g.Wait()
	c.settle()
	for _, id := range ids {
		for _, cn := range c.ms[id].cs {
			cn := cn
			if err := cn.write(frame(pubKeyReq(chains[c.chain]))); err != nil {
				t.FatalfLive("member %d: %v", id, err)
			}
			r, _ := cn.recv(c15Wait)
			if r == nil {
				t.FatalfLive("member %d does not answer a public key request", id)
			}
			if k := pubKeyOf(r); string(k) != string(c.ring.Pub) {
				t.Fatalf("member %d answers a public key request with %v", id, r)
			}
		}
	}
}
