package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/privval"
)

func init() { registry["C26"] = propC26 }

func propC26() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C26",
		Rule: "real single signers and cosigner clusters, serving; drawn rounds of: requests, sentries that disconnect, go away or stop reading, peers that are killed, then SIGTERM or SIGINT (once or several times) to drawn members (leader or follower) idle, at a drawn moment within a " +
			"request, right after an answer, while a sentry or the peers are away; then a restart on the same home. Oracle: the process ends by itself with status 0 within 15 s (the code sleeps at most a few seconds) without a crash report; its state files are well-formed and not below the last " +
			"answered position; the restarted process connects, refuses conflicts with what was answered and signs what is above; the members left serve on. Non-trivial: a stop within a request or without a sentry or peer, and a signature after a restart. Distinct by choices.",
		Assumptions: []string{"the process has connected to its sentries once before it is stopped (before that the signal's default action ends it)"},
		Parts: []pbt.Part{
			{Name: "single", Fn: c26Single, Quick: 120, Thorough: 4000, Workers: 16, QuickSecs: 20, ThoroughSecs: 900, Timeout: 300 * time.Second},
			{Name: "cluster", Fn: c26Cluster, Quick: 40, Thorough: 1200, Workers: 8, QuickSecs: 30, ThoroughSecs: 1500, Timeout: 400 * time.Second, NoShrink: true},
		}}
}

const c26Wait = 15 * time.Second

// signals are what a service manager or an operator sends.
func drawSignals(t *pbt.T) []syscall.Signal {
	var o []syscall.Signal
	for k := 1 + t.Weighted(5, 1, 1); k > 0; k-- {
		o = append(o, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[t.Intn(2)])
	}
	return o
}

// end sends the signals and judges how the process ends.
func (p *hxProc) endWith(t *pbt.T, what string, sigs []syscall.Signal) {
	for i, s := range sigs {
		if i > 0 {
			time.Sleep(time.Duration(t.Intn(20)) * time.Millisecond)
		}
		_ = p.cmd.Process.Signal(s)
	}
	p.judgeEnd(t, what)
}

func (p *hxProc) judgeEnd(t *pbt.T, what string) {
	if !p.ended(c26Wait) {
		out := p.output()
		p.kill()
		t.FatalfLive("%s does not end within %v of the signal: %s", what, c26Wait, tailStr(out, 2500))
	}
	if p.code != 0 {
		t.Fatalf("%s ends with status %d after the signal: %s", what, p.code, tailStr(p.output(), 3000))
	}
	if o := p.output(); strings.Contains(o, "\npanic: ") || strings.Contains(o, "\ngoroutine ") || strings.Contains(o, "fatal error: ") {
		t.Fatalf("%s crashes when it is stopped: %s", what, tailStr(o, 3000))
	}
}

func c26Single(t *pbt.T) {
	c := &c18{t: t, home: filepath.Join(t.Scratch, "home"), first: map[HRS]Msg{}, chain: chains[t.Intn(len(chains))]}
	c.state = filepath.Join(c.home, "state", c.chain+"_priv_validator_state.json")
	c.key = tmed.GenPrivKeyFromSecret(t.Bytes(8))
	var addrs []string
	for i := t.Range(1, 3); i > 0; i-- {
		s := newSentry(t)
		c.ss = append(c.ss, s)
		addrs = append(addrs, s.addr)
	}
	dead := t.Chance(1, 4)
	if dead {
		addrs = append(addrs, fmt.Sprintf("tcp://127.0.0.1:%d", freePort()))
		t.Label("a sentry is never there")
	}
	if r := runHX(t.Scratch, 60*time.Second, "config", "init", c.chain, strings.Join(addrs, ","), "--home", c.home); r.code != 0 {
		t.Fatalf("config init fails: %s", r.out)
	}
	privval.NewFilePV(c.key, filepath.Join(c.home, "priv_validator_key.json"), filepath.Join(t.Scratch, "unused.json")).Key.Save()
	c.start()
	g := MsgGen{Base: 1, H: 3, R: 2}
	hard, signed := false, false
	for rounds := t.Range(1, 4); rounds > 0; rounds-- {
		for k := t.Range(0, 3); k > 0; k-- {
			if c.w.H > g.Base {
				g.Base = c.w.H
			}
			c.request(c.draw(g))
		}
		time.Sleep(time.Duration(300+t.Intn(100)) * time.Millisecond)
		sigs := drawSignals(t)
		j := t.Intn(len(c.cs))
		switch t.Weighted(3, 5, 2, 2, 2, 2) {
		case 0:
			t.Logf("%v while idle", sigs)
			t.Label("idle")
			c.p.endWith(t, "the signer", sigs)
		case 1:
			m := c.draw(g)
			m.H = c.w.H + 1
			d := time.Duration(t.Intn(4000)) * time.Microsecond
			t.Logf("%v, %v into %s", sigs, d, m)
			t.Label("within a request")
			hard = true
			_ = c.cs[j].write(frame(msgReq(m)))
			time.Sleep(d)
			c.p.endWith(t, "the signer", sigs)
			if r, _ := c.cs[j].recv(2 * time.Second); r != nil {
				c.judge(m, r)
			} else {
				s, err := c.read()
				if err != nil {
					t.Fatalf("the state file after a stop: %v", err)
				}
				if s == m.HRS() {
					c.w, c.first[m.HRS()] = m.HRS(), m
				}
			}
		case 2:
			c.cs[j].close()
			d := time.Duration(t.Intn(30)) * time.Millisecond
			t.Logf("%v, %v after sentry %d disconnects", sigs, d, j)
			t.Label("after a disconnect")
			time.Sleep(d)
			c.p.endWith(t, "the signer", sigs)
		case 3: // the sentry is gone for good
			t.Logf("%v with sentry %d gone", sigs, j)
			t.Label("sentry gone")
			hard = true
			c.ss[j].l.Close()
			c.cs[j].close()
			time.Sleep(time.Duration(t.Intn(300)) * time.Millisecond)
			c.p.endWith(t, "the signer", sigs)
			c.ss[j].listen(strings.TrimPrefix(c.ss[j].addr, "tcp://"))
		case 4: // half a request
			b := frame(msgReq(c.draw(g)))
			k := 1 + t.Intn(len(b)-1)
			t.Logf("%v after %d of %d bytes of a request", sigs, k, len(b))
			t.Label("half a request")
			hard = true
			_ = c.cs[j].write(b[:k])
			time.Sleep(time.Duration(t.Intn(20)) * time.Millisecond)
			c.p.endWith(t, "the signer", sigs)
		case 5: // many requests whose answers nobody reads
			k := t.Range(10, 200)
			t.Logf("%v after %d pings that nobody waits for", sigs, k)
			t.Label("answers not read")
			b := frame(pingReq())
			var all []byte
			for i := 0; i < k; i++ {
				all = append(all, b...)
			}
			_ = c.cs[j].write(all)
			c.p.endWith(t, "the signer", sigs)
		}
		c.checkFile()
		c.restart()
		time.Sleep(300 * time.Millisecond)
		if c.w.H > 0 && c.w.S > 0 {
			if f, ok := c.first[c.w]; ok {
				f.Block = f.Block%3 + 1
				c.request(f)
			}
		}
		if c.request(Msg{Kind: kPrevote, H: c.w.H + 1, Block: 1}) {
			signed = true
		}
	}
	if hard && signed {
		t.NonTrivial("")
	}
}

func c26Cluster(t *pbt.T) {
	c := &c14{t: t, ms: map[int]*c14Member{}, reqs: map[HRS][]Msg{}, signed: map[HRS]string{}, chain: t.Intn(len(chains))}
	n, th := 3, 2
	if t.Chance(1, 4) {
		n, th = 2, 2
	}
	c.ring = NewRing(t, n, th, nil)
	c.ids = c.ring.IDs
	for _, id := range c.ids {
		c.ms[id] = &c14Member{c: c, id: id, home: filepath.Join(t.Scratch, fmt.Sprintf("home%d", id)), addr: fmt.Sprintf("127.0.0.1:%d", freePort())}
	}
	var g pbt.Group
	for _, id := range c.ids {
		m := c.ms[id]
		m.ss = append(m.ss, newSentry(t))
		m.busy = make([]sync.Mutex, len(m.ss))
		g.Go(m.setup)
	}
	g.Wait()
	c.settle()
	g0 := MsgGen{Base: 1, H: 2, R: 2, TS: len(tsPool)}
	hard, signed := false, false
	for rounds := t.Range(1, 3); rounds > 0; rounds-- {
		for k := t.Range(0, 3); k > 0; k-- {
			if c.top.H > 0 {
				g0.Base = c.top.H
			}
			live := c.live()
			c.one(live[t.Intn(len(live))], c.draw(g0))
		}
		time.Sleep(300 * time.Millisecond)
		// who ends
		var who []int
		x := c.leader
		if t.Bool() {
			rest := others(c.live(), c.leader)
			x = rest[t.Intn(len(rest))]
		}
		who = append(who, x)
		switch t.Weighted(4, 1, 1) {
		case 1:
			for _, y := range others(c.live(), x) {
				if t.Bool() {
					who = append(who, y)
				}
			}
		case 2:
			who = append(who, others(c.live(), x)...)
		}
		if len(who) > 1 {
			t.Label("several at once")
		}
		if x == c.leader {
			t.Label("leader ends")
		} else {
			t.Label("follower ends")
		}
		sigs := map[int][]syscall.Signal{}
		for _, y := range who {
			sigs[y] = drawSignals(t)
		}
		m := Msg{Kind: kPrevote, H: c.top.H + 1, Block: 1 + t.Intn(3), TS: 1, Chain: c.chain}
		var ans answer
		lost, asked := true, 0
		var rg pbt.Group
		switch t.Weighted(2, 5, 2) {
		case 0:
			t.Logf("%v end while idle (leader %d)", who, c.leader)
		case 1: // within a request
			hard = true
			asked = c.ids[t.Intn(n)]
			c.note(m)
			d := time.Duration(t.Intn(25000)) * time.Microsecond
			t.Logf("%v end %v into %s to %d (leader %d)", who, d, m, asked, c.leader)
			t.Label("within a request")
			rg.Go(func() { ans, lost = c.ask(asked, m, 0) })
			time.Sleep(d)
		case 2: // the others are gone already
			rest := others(c.live(), x)
			hard = true
			t.Logf("%v are killed, then %v end (leader %d)", rest, who, c.leader)
			t.Label("peers gone")
			who = []int{x}
			for _, y := range rest {
				c.ms[y].stop()
			}
			if t.Bool() { // a request that cannot be served
				asked = x
				c.note(m)
				rg.Go(func() { ans, lost = c.ask(asked, m, 0) })
			}
			time.Sleep(time.Duration(t.Intn(2500)) * time.Millisecond)
		}
		for _, y := range who {
			for _, s := range sigs[y] {
				_ = c.ms[y].p.cmd.Process.Signal(s)
			}
		}
		for _, y := range who {
			c.ms[y].p.judgeEnd(t, fmt.Sprintf("cosigner %d", y))
		}
		c.closeOf(who)
		rg.Wait()
		if asked > 0 && !lost && ans.err == "" {
			c.take(asked, m, ans)
			t.Label("answered before the end")
		}
		for _, y := range who {
			for _, suffix := range []string{"_priv_validator_state.json", "_share_sign_state.json"} {
				if _, err := readStateFile(filepath.Join(c.ms[y].home, "state", chains[c.chain]+suffix)); err != nil {
					t.Fatalf("state file of cosigner %d after a stop: %v", y, err)
				}
			}
			c.ms[y].stop()
		}
		// those left serve on
		if live := c.live(); len(live) >= th && len(live) > n/2 {
			c.settle()
			if c.one(live[t.Intn(len(live))], Msg{Kind: kPrevote, H: c.top.H + 1, Block: 1, TS: 1, Chain: c.chain}) {
				t.Label("served by those left")
			}
		}
		for _, y := range c.ids {
			if c.ms[y].p == nil {
				mb := c.ms[y]
				rg.Go(mb.start)
			}
		}
		rg.Wait()
		c.settle()
		time.Sleep(300 * time.Millisecond)
		for _, y := range c.ids {
			if len(c.recent) > 0 {
				r := c.recent[len(c.recent)-1]
				r.Block = r.Block%3 + 1
				c.one(y, r)
			}
			if c.one(y, Msg{Kind: kPrevote, H: c.top.H + 1, Block: 1, TS: 1, Chain: c.chain}) {
				signed = true
			}
		}
		c.converge()
	}
	if hard && signed {
		t.NonTrivial("")
	}
}

// closeOf closes the sentries' connections of dead members.
func (c *c14) closeOf(ids []int) {
	for _, id := range ids {
		for _, cn := range c.ms[id].cs {
			cn.close()
		}
	}
}
