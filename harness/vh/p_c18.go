package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/privval"
	pvproto "github.com/tendermint/tendermint/proto/tendermint/privval"
)

func init() { registry["C18"] = propC18 }

func propC18() *pbt.Property {
	return &pbt.Property{ID: "C18",
		Rule: "a home made by config init, a drawn validator key and a drawn initial state (from init, imported in the documented format, or a state file as tendermint writes it), served by the real binary's signer start; a drawn " +
			"history of vote and proposal requests over the sentry protocol (new, repeated, other timestamp, conflicting, older), simultaneous requests of all sentries, kills right after an answer, in the middle of a request or idle, graceful stops and restarts. " +
			"Oracle: nothing is signed below the highest position signed or imported, per position all signatures are for one content, every position above is signed with a valid signature of the request, also after restarts. " +
			"Non-trivial: at least one restart followed by a refused and an accepted request. Distinct by choices.",
		Assumptions: []string{"the home directory is used by one process at a time"},
		Parts: []pbt.Part{
			{Name: "history", Fn: c18History, Quick: 350, Thorough: 8000, Workers: 24, QuickSecs: 40, ThoroughSecs: 1500, Timeout: 240 * time.Second},
		}}
}

type c18 struct {
	t     *pbt.T
	home  string
	chain string
	key   tmed.PrivKey
	p     *hxProc
	ss    []*sentry
	cs    []*sconn
	w     HRS
	first map[HRS]Msg // what was or may have been signed first at a position
	state string
}

func c18History(t *pbt.T) {
	c := &c18{t: t, home: filepath.Join(t.Scratch, "home"), first: map[HRS]Msg{}, chain: chains[t.Intn(len(chains))]}
	c.state = filepath.Join(c.home, "state", c.chain+"_priv_validator_state.json")
	c.key = tmed.GenPrivKeyFromSecret(t.Bytes(8))
	var addrs []string
	for i := t.Range(1, 3); i > 0; i-- {
		s := newSentry(t)
		c.ss = append(c.ss, s)
		addrs = append(addrs, s.addr)
	}
	args := []string{"config", "init", c.chain, strings.Join(addrs, ","), "--home", c.home}
	keyFile := filepath.Join(c.home, "priv_validator_key.json")
	if t.Chance(1, 3) {
		keyFile = filepath.Join(t.Scratch, "key.json")
		args = append(args, "-k", keyFile)
	}
	if r := runHX(t.Scratch, 60*time.Second, args...); r.code != 0 {
		t.Fatalf("config init fails: %s", r.out)
	}
	privval.NewFilePV(c.key, keyFile, filepath.Join(t.Scratch, "unused.json")).Key.Save()
	base := int64(1 + t.Intn(5))
	if t.Chance(1, 8) {
		base = math.MaxInt64 - 100
	}
	switch t.Weighted(4, 3, 2, 2) {
	case 0:
		t.Label("state from init")
	case 1: // as documented for the migration
		c.w = HRS{base, int64(t.Intn(3)), t.Range(0, 3)}
		c.write(fmt.Sprintf("{\n  \"height\": \"%d\",\n  \"round\": \"%d\",\n  \"step\": %d\n}\n", c.w.H, c.w.R, c.w.S))
		t.Label("imported state")
	case 2: // the same as tendermint writes it
		c.w = HRS{base, int64(t.Intn(3)), t.Range(0, 3)}
		c.write(fmt.Sprintf("{\n  \"height\": \"%d\",\n  \"round\": %d,\n  \"step\": %d\n}\n", c.w.H, c.w.R, c.w.S))
		t.Label("tendermint state")
	case 3: // what tendermint leaves after signing
		g := MsgGen{Base: base, H: 2, R: 2}
		m := g.Draw(t)
		pv := privval.NewFilePV(c.key, filepath.Join(t.Scratch, "unused2.json"), c.state)
		m.Chain = c.msgChain()
		if rep := signWith(pv, m); rep.err != nil {
			pbt.Harness("%v", rep.err)
		}
		c.w = m.HRS()
		c.first[m.HRS()] = m
		t.Label("state after signing")
	}
	t.Logf("%s, watermark %v, %d sentries", c.chain, c.w, len(c.ss))
	c.start()
	g := MsgGen{Base: base, H: 4, R: 3}
	if t.Chance(1, 8) {
		g.RBase = []int64{126, 254, 65534, 1<<31 - 16}[t.Intn(4)]
	}
	steps := t.Range(4, 16)
	restarts, after := 0, [2]int{}
	for i := 0; i < steps; i++ {
		if c.w.H > g.Base {
			g.Base = c.w.H
		}
		switch t.Weighted(10, 2, 1, 2, 2, 3) {
		case 0:
			if c.request(c.draw(g)) {
				if restarts > 0 {
					after[1]++
				}
			} else if restarts > 0 {
				after[0]++
			}
		case 1:
			t.Logf("kill and restart")
			c.p.kill()
			c.restart()
			restarts++
		case 2:
			t.Logf("stop and restart")
			if !c.p.stop(40 * time.Second) {
				t.FatalfLive("signer does not stop on SIGTERM within 40 s")
			}
			c.restart()
			restarts++
		case 3: // right after an answer
			c.request(c.draw(g))
			t.Logf("kill right after the answer")
			c.p.kill()
			c.restart()
			restarts++
		case 4:
			m := c.draw(g)
			d := time.Duration(t.Intn(3000)) * time.Microsecond
			t.Logf("kill %v into %s", d, m)
			j := t.Intn(len(c.cs))
			_ = c.cs[j].write(frame(msgReq(m)))
			time.Sleep(d)
			c.p.kill()
			r, _ := c.cs[j].recv(2 * time.Second)
			if r != nil {
				c.judge(m, r)
				t.Label("killed after answering")
			} else {
				s, err := c.read()
				if err != nil {
					t.Fatalf("the state file after a kill: %v", err)
				}
				if m.HRS().Cmp(c.w) > 0 && s == m.HRS() {
					c.w, c.first[m.HRS()] = m.HRS(), m
					t.Label("killed after saving")
				} else {
					t.Label("killed before saving")
				}
			}
			c.restart()
			restarts++
		case 5:
			for k := t.Range(1, 20); k > 0; k-- {
				c.burst(g)
			}
		}
		c.checkFile()
	}
	c.request(Msg{Kind: kPrevote, H: c.w.H + 1, Block: 1})
	if restarts > 0 && after[0] > 0 && after[1] > 0 {
		t.NonTrivial("")
	}
}

func (c *c18) msgChain() int {
	for i, s := range chains {
		if s == c.chain {
			return i
		}
	}
	return 0
}

func (c *c18) write(s string) { pbt.Must(ioutil.WriteFile(c.state, []byte(s), 0600)) }

// read reads the position in the state file, in either format.
func (c *c18) read() (HRS, error) {
	b, err := ioutil.ReadFile(c.state)
	if err != nil {
		return HRS{}, err
	}
	var f struct {
		Height string
		Round  json.RawMessage
		Step   int
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return HRS{}, fmt.Errorf("%v in %q", err, b)
	}
	h, err := strconv.ParseInt(f.Height, 10, 64)
	if err != nil {
		return HRS{}, fmt.Errorf("%v in %q", err, b)
	}
	r, err := strconv.ParseInt(strings.Trim(string(f.Round), "\""), 10, 64)
	if f.Round == nil {
		r, err = 0, nil
	}
	return HRS{h, r, f.Step}, err
}

func (c *c18) checkFile() {
	s, err := c.read()
	if err != nil {
		c.t.Fatalf("the state file: %v", err)
	}
	if s != c.w {
		c.t.Fatalf("the state file is at %v, signed up to %v", s, c.w)
	}
}

func (c *c18) start() {
	t := c.t
	c.p = startHX(t, t.Scratch, "signer", "start", "--home", c.home)
	c.cs = nil
	for _, s := range c.ss {
		var cn *sconn
		var err error
		for k := 0; k < 40; k++ {
			if cn, err = s.accept(time.Second); err == nil || !c.p.alive() {
				break
			}
		}
		if err != nil {
			if !c.p.alive() {
				t.Fatalf("signer start ends (exit status %d): %s", c.p.code, tailStr(c.p.output(), 2000))
			}
			t.FatalfLive("the signer does not connect to its sentry: %s", tailStr(c.p.output(), 2000))
		}
		c.cs = append(c.cs, cn)
	}
	if err := c.cs[0].write(frame(pubKeyReq(c.chain))); err == nil {
		r, _ := c.cs[0].recv(c15Wait)
		if r == nil {
			t.FatalfLive("no answer to a public key request")
		}
		x, ok := r.Sum.(*pvproto.Message_PubKeyResponse)
		if !ok || string(x.PubKeyResponse.PubKey.GetEd25519()) != string(c.key.PubKey().Bytes()) {
			t.Fatalf("a public key request is answered with %v", r)
		}
	}
}

func (c *c18) restart() {
	for _, cn := range c.cs {
		cn.close()
	}
	for _, s := range c.ss { // connections of the dead process
		for {
			raw, err := s.acceptRaw(0)
			if err != nil {
				break
			}
			raw.Close()
		}
	}
	c.start()
}

func (c *c18) draw(g MsgGen) Msg {
	t := c.t
	m := g.Draw(t)
	var fs []Msg
	for h := HRS(c.w); len(fs) < 1; {
		if f, ok := c.first[h]; ok {
			fs = append(fs, f)
		}
		break
	}
	if len(fs) > 0 && t.Chance(1, 2) {
		m = g.Mutate(t, fs[0])
	}
	m.Chain = c.msgChain()
	return m
}

// request asks for m over one of the connections; true if it is signed.
func (c *c18) request(m Msg) bool {
	t := c.t
	m.Chain = c.msgChain()
	cn := c.cs[t.Intn(len(c.cs))]
	t.Logf("request %s (watermark %v)", m, c.w)
	if err := cn.write(frame(drawReq(t, m))); err != nil {
		t.FatalfLive("the connection is lost: %v: %s", err, tailStr(c.p.output(), 2000))
	}
	r, err := cn.recv(c15Wait)
	if r == nil {
		if c.p.ended(300 * time.Millisecond) {
			t.Fatalf("signer dies (exit status %d) on %s (watermark %v): %s", c.p.code, m, c.w, tailStr(c.p.output(), 3000))
		}
		t.FatalfLive("no answer to %s: %v", m, err)
	}
	return c.judge(m, r)
}

// burst lets all sentries ask at the same moment; the answers must fit some order of the requests.
func (c *c18) burst(g MsgGen) {
	t := c.t
	if len(c.cs) < 2 || c.w.H > math.MaxInt64-50 {
		return
	}
	g.Base = c.w.H + 1
	g.H = 1
	ms := []Msg{g.Draw(t)}
	for len(ms) < len(c.cs) {
		ms = append(ms, g.Mutate(t, ms[0]))
	}
	type ans struct {
		r   *pvproto.Message
		err error
	}
	rs := make([]ans, len(ms))
	var grp pbt.Group
	for i := range ms {
		ms[i].Chain = c.msgChain()
		i, f := i, frame(msgReq(ms[i]))
		grp.Go(func() {
			if rs[i].err = c.cs[i].write(f); rs[i].err == nil {
				rs[i].r, rs[i].err = c.cs[i].recv(c15Wait)
			}
		})
	}
	grp.Wait()
	as := make([]answer, len(ms))
	desc := ""
	for i, m := range ms {
		if rs[i].r == nil {
			if c.p.ended(300 * time.Millisecond) {
				t.Fatalf("signer dies (exit status %d) on simultaneous requests: %s", c.p.code, tailStr(c.p.output(), 3000))
			}
			t.FatalfLive("no answer to %s, one of %d simultaneous requests: %v", m, len(ms), rs[i].err)
		}
		a, wrong := answerTo(m, c.chain, rs[i].r)
		if wrong != "" {
			t.Fatalf("%s", wrong)
		}
		if a.err == "" && !c.key.PubKey().VerifySignature(a.sb, a.sig) {
			t.Fatalf("the response to %s, one of %d simultaneous requests, carries a signature that does not verify", m, len(ms))
		}
		as[i] = a
		desc += fmt.Sprintf("; %s -> signed %v", m, a.err == "")
	}
	t.Logf("at once (watermark %v)%s", c.w, desc)
	t.Label("simultaneous requests")
	var try func(left []int, w HRS, f Msg) bool
	try = func(left []int, w HRS, f Msg) bool {
		if len(left) == 0 {
			if w != c.w {
				c.w, c.first[w] = w, f
			}
			return true
		}
		for k, i := range left {
			m, ok := ms[i], as[i].err == ""
			rest := append(append([]int{}, left[:k]...), left[k+1:]...)
			switch cmp := m.HRS().Cmp(w); {
			case cmp > 0 && ok:
				if try(rest, m.HRS(), m) {
					return true
				}
			case cmp < 0 && !ok, cmp == 0 && !ok, cmp == 0 && f.Content() == m.Content():
				if try(rest, w, f) {
					return true
				}
			}
		}
		return false
	}
	var all []int
	for i := range ms {
		all = append(all, i)
	}
	if !try(all, c.w, c.first[c.w]) {
		t.Fatalf("the answers to simultaneous requests fit no order of them (watermark %v)%s", c.w, desc)
	}
}

func (c *c18) judge(m Msg, r *pvproto.Message) bool {
	t := c.t
	a, wrong := answerTo(m, c.chain, r)
	if wrong != "" {
		t.Fatalf("%s", wrong)
	}
	cmp := m.HRS().Cmp(c.w)
	if a.err != "" {
		if cmp > 0 {
			t.Fatalf("%s above the watermark %v is refused: %s", m, c.w, a.err)
		}
		t.Label("refused")
		return false
	}
	if !c.key.PubKey().VerifySignature(a.sb, a.sig) {
		t.Fatalf("the response to %s carries a signature that does not verify", m)
	}
	switch {
	case cmp > 0:
		if !a.ts.Equal(m.Time()) {
			t.Fatalf("the response to %s carries another time: %v", m, a.ts)
		}
		c.w, c.first[m.HRS()] = m.HRS(), m
		t.Label("signed")
	case cmp < 0:
		t.Fatalf("%s is signed below the watermark %v", m, c.w)
	default:
		f, ok := c.first[m.HRS()]
		if !ok {
			t.Fatalf("%s is signed at the imported watermark", m)
		}
		if f.Content() != m.Content() {
			t.Fatalf("%s is signed after %s", m, f)
		}
		t.Label("signed again")
	}
	return true
}
