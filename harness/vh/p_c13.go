package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	"os"
)

func init() { registry["C13"] = propC13 }

func propC13() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C13",
		Rule: "a real cosigner process (one of a 2-of-2 ring, real raft log of its own, real sign states, own process so that it can be killed) gets a drawn history of set and delete commands, raw log entries (unknown operations, wrong " +
			"types, other JSON, garbage), last-signed-state events (new, repeated, stale, conflicting, malformed), sign requests, snapshots, kills (idle or in the middle of a command) and restarts; after every step " +
			"all keys and both sign-state files are compared with a model, and sign answers with its watermark. A restart may find zeroed state files (when no snapshot has cut the log), which the log must raise " +
			"again. Part replicas drives the state machines of 2..3 replicas through the raft interface (apply, snapshot, persist, restore), each at a drawn point of one generated log, with validator and cosigner starting at drawn, different watermarks: " +
			"snapshots are written out later or while commands are applied, by failing sinks, and installed on replicas that lag behind; content and both watermarks of each replica are compared with the fold over the entries it applied. " +
			"Non-trivial: at least one event or raw entry and one restart; for replicas at least one installed snapshot and one event. Distinct by choices.",
		Assumptions: []string{"keys and values are valid UTF-8, as the log stores JSON", "last-signed-state events carry sign bytes together with a signature, as emitted by a leader"},
		Parts: []pbt.Part{
			{Name: "history", Fn: c13History, Quick: 260, Thorough: 6000, Workers: 40, QuickSecs: 35, ThoroughSecs: 1500, Timeout: 240 * time.Second},
			{Name: "replicas", Fn: c13Replicas, Quick: 2500, Thorough: 30000, QuickSecs: 25, ThoroughSecs: 900},
		}}
}

type c13 struct {
	t     *pbt.T
	ring  *Ring
	p     *proc
	cfg   nodeCfg
	store map[string]string
	keys  map[string]bool // every key ever mentioned
	w     HRS
	first map[HRS]Msg // what was signed or announced first at a position
	cut   bool        // a snapshot may have cut events off the log
	vague bool        // an event may or may not be in the log
	hi    HRS         // the peer may have signed up to here
}

var c13Keys = []string{"a", "b", "key", "", "LSS", "lss", "LSS ", "日本", "with \"quotes\"", "new\nline", "<&>", "barrier2"}

func (c *c13) value() string { return c13Value(c.t) }

func c13Value(t *pbt.T) string {
	switch t.Weighted(4, 2, 1, 1) {
	case 0:
		return fmt.Sprintf("v%d", t.Intn(100))
	case 1:
		return []string{"", "null", "{}", `{"Height":"99","Round":"0","Step":1}`, "<&>", "\u2028", "\x00", "é\t"}[t.Intn(8)]
	case 2:
		return t.Str("ab\"\\{}日", 0, 40)
	}
	return strings.Repeat("x", t.Intn(5000))
}

func c13History(t *pbt.T) {
	ring := NewRing(t, 2, 2, nil)
	home := mkdir(filepath.Join(t.Scratch, "home"))
	c := &c13{t: t, ring: ring, store: map[string]string{}, keys: map[string]bool{"barrier": true, "LSS": true}, first: map[HRS]Msg{}}
	c.cfg = nodeCfg{ID: 1, Total: 2, T: 2, Alone: true, Peers: map[int]string{2: servePeer(t, ring.Nodes[2])}, Home: home, Listen: fmt.Sprintf("tcp://127.0.0.1:%d", freePort()), KeyFile: filepath.Join(home, "key.json"), Timeout: 5000}
	ring.writeShare(1, c.cfg.KeyFile)
	c.zero()
	c.start()
	events, restarts := 0, 0
	g := MsgGen{Base: 10, H: 4, R: 2}.Wide(t)
	steps := t.Range(6, 26)
	for i := 0; i < steps; i++ {
		switch t.Weighted(5, 2, 4, 7, 4, 2, 3, 2) {
		case 0:
			k, v := c13Keys[t.Intn(len(c13Keys))], c.value()
			t.Logf("set %q=%.40q", k, v)
			c.set(k, v)
		case 1:
			k := c13Keys[t.Intn(len(c13Keys))]
			t.Logf("delete %q", k)
			c.keys[k] = true
			if r := c.p.do(t, nodeReq{Op: "del", Key: k}, 20*time.Second); r.Err != "" {
				t.FatalfLive("delete refused by the leader: %s", r.Err)
			}
			delete(c.store, k)
		case 2:
			c.raw()
			events++
		case 3:
			c.event(g)
			events++
		case 4:
			m := c.draw(g)
			c.sign(m)
		case 5:
			e, err := c.p.snapshot()
			t.Logf("snapshot %v %v", e, err)
			c.alive("snapshot")
			if err == nil && e == "" {
				c.cut = true
			}
			t.Label("snapshot")
		case 6:
			c.restart(t.Chance(1, 3))
			restarts++
		case 7:
			c.killDuring(g)
			restarts++
		}
		c.check()
	}
	if events > 0 && restarts > 0 {
		t.NonTrivial("")
	}
}

func (c *c13) alive(what string) {
	if !c.p.alive() {
		c.t.Fatalf("the cosigner process died after %s: %s", what, tailStr(c.p.stderr(), 4000))
	}
}

// zero writes initial state files.
func (c *c13) zero() {
	for _, f := range []string{c.cfg.pvFile(), c.cfg.shareFile()} {
		_ = os.Remove(f)
		if _, err := signer.LoadOrCreateSignState(f); err != nil {
			c.t.Fatalf("creating a sign state: %v", err)
		}
	}
}

func (c *c13) start() {
	c.p = startNode(c.t, c.cfg)
	c.p.waitLeader(c.t)
	c.store["barrier"] = "x"
}

func (c *c13) set(k, v string) {
	c.keys[k] = true
	if k == "LSS" {
		c.applyEvent(v)
	} else {
		c.store[k] = v
	}
	if r := c.p.do(c.t, nodeReq{Op: "set", Key: k, Val: v}, 20*time.Second); r.Err != "" {
		c.t.FatalfLive("set refused by the leader: %s", r.Err)
	}
}

// applyEvent applies an event value to the model.
func (c *c13) applyEvent(v string) bool {
	var e struct {
		Height, Round int64
		Step          int8
		SignBytes     string
		Signature     []byte
	}
	if json.Unmarshal([]byte(v), &e) != nil {
		return false
	}
	if _, err := hex.DecodeString(e.SignBytes); err != nil {
		return false
	}
	h := HRS{e.Height, e.Round, int(e.Step)}
	if h.Cmp(c.w) > 0 {
		c.w = h
	}
	return true
}

func (c *c13) draw(g MsgGen) Msg {
	t := c.t
	m := g.Draw(t)
	if t.Chance(2, 5) && len(c.first) > 0 {
		var hs []HRS
		for h := range c.first {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].Cmp(hs[j]) < 0 })
		m = g.Mutate(t, c.first[hs[t.Intn(len(hs))]])
	} else if t.Chance(1, 3) && c.w.H > 0 {
		m.H = c.w.H + int64(t.Intn(3))
	}
	return m
}

// lssValue is the event a leader emits for m.
func (c *c13) lssValue(m Msg) string { return lssValue(c.ring, m) }

func lssValue(ring *Ring, m Msg) string {
	sig, err := ring.Priv.Sign(m.SignBytes())
	pbt.Must(err)
	b, err := json.Marshal(signer.SignStateConsensus{Height: m.H, Round: m.R, Step: int8(m.Kind), Signature: sig, SignBytes: m.SignBytes()})
	pbt.Must(err)
	return string(b)
}

var c13BadEvents = []string{"", "null", "[]", "{", "17", `"x"`, "not json", `{"Height":"x"}`, `{"Height":99,"Round":{},"Step":1}`, `{"Height":99,"Round":0,"Step":1,"SignBytes":7}`, `{"Height":99,"Round":0,"Step":1000}`,
	`{"Height":99,"Round":0,"Step":2,"SignBytes":"zz"}`, `{"Height":-5,"Round":0,"Step":1}`, `{"Height":1.5}`}

func (c *c13) event(g MsgGen) {
	t := c.t
	if t.Chance(1, 5) {
		v := c13BadEvents[t.Intn(len(c13BadEvents))]
		t.Logf("malformed event %q", v)
		t.Label("malformed event")
		// what does not decode must change nothing; what decodes (null, a negative height) is below any watermark
		before := c.w
		c.set("LSS", v)
		if c.w != before {
			pbt.Harness("the malformed event %q counts", v)
		}
		return
	}
	m := c.draw(g)
	if _, ok := c.first[m.HRS()]; !ok {
		c.first[m.HRS()] = m
	}
	t.Logf("event %s (watermark %v)", m, c.w)
	t.Label(fmt.Sprintf("event %d", m.HRS().Cmp(c.w)))
	c.set("LSS", c.lssValue(m))
}

// c13Raw draws a log entry that a leader would not write, and says whether it is a well-formed command on key k all the same.
func c13Raw(t *pbt.T) (d, k, v string, good bool) {
	k, v = c13Keys[t.Intn(4)], c13Value(t)
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	switch t.Weighted(2, 2, 2, 2, 2, 1, 1) {
	case 0:
		d = fmt.Sprintf(`{"op":"set","key":%s,"value":%s,"extra":{"a":[1,2]}}`, q(k), q(v))
		good = true
	case 1:
		d = fmt.Sprintf(`{"op":%s,"key":%s,"value":%s}`, q([]string{"Set", "SET", "del", "", "get", "incr", "set ", "LSS"}[t.Intn(8)]), q(k), q(v))
	case 2:
		d = []string{`{"op":"set","key":["a"],"value":"w"}`, `{"op":"set","key":"a","value":{"x":1}}`, `{"op":5,"key":"a","value":"w"}`, `{"op":"set","key":1,"value":"w"}`, `{"op":"delete","key":{}}`, `{"op":"set","key":"a","value":7}`}[t.Intn(6)]
	case 3:
		d = []string{"", "null", "[]", "17", `"set"`, "true", "{}", "{", "}", "nonsense", "\x00\x01", "[{\"op\":\"set\"}]", `{"op":"set","key":"a","value":"w"`, `{"op":"set","key":"a","value":"w"}}`}[t.Intn(14)]
	case 4:
		d = string(t.Bytes(t.Range(1, 40)))
	case 5: // a leader's own encoding, truncated
		full := fmt.Sprintf(`{"op":"set","key":%s,"value":%s}`, q(k), q(v))
		d = full[:t.Intn(len(full))]
	case 6:
		d = fmt.Sprintf(`{"op":"delete","key":%s,"value":%s}`, q(k), q(v))
		good = true
	}
	return
}

func (c *c13) raw() {
	t := c.t
	d, k, v, good := c13Raw(t)
	t.Logf("raw entry %.80q", d)
	t.Label("raw")
	e, err := c.p.applyLog([]byte(d))
	if err != nil || e != "" {
		time.Sleep(20 * time.Millisecond)
		c.alive(fmt.Sprintf("the log entry %q", d))
		t.FatalfLive("log entry %q was not applied: %v %v", d, e, err)
	}
	c.alive(fmt.Sprintf("the log entry %q", d))
	if good {
		c.keys[k] = true
		if strings.Contains(d, `"op":"set"`) {
			c.store[k] = v
		} else {
			delete(c.store, k)
		}
	}
}

func (c *c13) sign(m Msg) {
	t := c.t
	r := c.p.do(t, nodeReq{Op: "sign", Msg: m}, 30*time.Second)
	t.Logf("sign %s (watermark %v) -> %q", m, c.w, r.Err)
	c.judge(m, r)
}

func (c *c13) judge(m Msg, r nodeRes) {
	t := c.t
	if r.Panic != "" {
		t.Fatalf("%s", r.Panic)
	}
	cmp := m.HRS().Cmp(c.w)
	if cmp > 0 {
		if r.Err != "" && m.HRS().Cmp(c.hi) <= 0 {
			// the peer went further in a request cut short by a kill
			c.resync(m)
			return
		}
		if r.Err != "" {
			t.FatalfLive("%s above the watermark %v is refused: %s", m, c.w, r.Err)
		}
		if !c.ring.verifies(m, r.Sig) {
			t.Fatalf("the signature for %s does not verify", m)
		}
		c.w = m.HRS()
		c.first[m.HRS()] = m
		t.Label("signed")
		return
	}
	if r.Err != "" {
		t.Label("refused")
		return
	}
	f, ok := c.first[m.HRS()]
	if !ok {
		t.Fatalf("%s is signed although the watermark is %v", m, c.w)
	}
	if f.Content() == m.Content() && c.ring.verifies(m, r.Sig) || m.Kind == kProposal && c.ring.verifies(f, r.Sig) {
		t.Label("repeated")
		return
	}
	t.Fatalf("%s is answered with a signature although %s was announced or signed (watermark %v)", m, f, c.w)
}

func (c *c13) restart(reset bool) {
	c.p.kill()
	reset = reset && !c.cut && !c.vague
	if reset {
		c.zero()
		c.t.Label("restart from zeroed states")
	} else {
		c.t.Label("restart")
	}
	c.t.Logf("restart, zeroed states: %v", reset)
	c.start()
}

// killDuring kills the process while a command is under way; the command may or may not count.
func (c *c13) killDuring(g MsgGen) {
	t := c.t
	q := nodeReq{Op: "set"}
	var m Msg
	kind := t.Intn(3)
	switch kind {
	case 0:
		q.Key, q.Val = c13Keys[t.Intn(3)], c.value()
	case 1:
		m = c.draw(g)
		q.Key, q.Val = "LSS", c.lssValue(m)
	case 2:
		m = c.draw(g)
		q.Op, q.Msg = "sign", m
	}
	delay := time.Duration(t.Intn(4000)) * time.Microsecond
	t.Logf("kill %v into %s %q %s", delay, q.Op, q.Key, m)
	t.Label("kill during " + []string{"set", "event", "sign"}[kind])
	done := make(chan struct{})
	var r nodeRes
	var err error
	go func() { r, err = c.p.call(q, 30*time.Second); close(done) }()
	time.Sleep(delay)
	c.p.kill()
	<-done
	old := c.w
	answered := err == nil
	switch kind {
	case 0:
		c.keys[q.Key] = true
	}
	c.start()
	switch kind {
	case 0:
		got := c.p.do(t, nodeReq{Op: "get", Key: q.Key}, 10*time.Second).Val
		if answered && r.Err == "" && got != q.Val {
			t.Fatalf("an acknowledged set of %q=%q is lost by a crash: %q", q.Key, q.Val, got)
		}
		if got == q.Val {
			c.store[q.Key] = q.Val
		}
	case 1:
		fs, e := readStateFile(c.cfg.shareFile())
		if e != nil {
			t.Fatalf("share state after a kill: %v", e)
		}
		_, known := c.first[m.HRS()]
		if m.HRS().Cmp(old) <= 0 {
			if !known { // make it certain that the event counts
				c.first[m.HRS()] = m
				c.set("LSS", q.Val)
			}
		} else if fs.HRS == m.HRS() || answered && r.Err == "" {
			c.w = m.HRS()
			if !known {
				c.first[m.HRS()] = m
			}
		}
		c.vague = c.vague || !answered
	case 2:
		if answered {
			c.judge(m, r)
			return
		}
		c.vague = true
		if m.HRS().Cmp(c.hi) > 0 {
			c.hi = m.HRS()
		}
		c.resync(m)
	}
}

// resync reads how far a request for m got that was not answered with a signature.
func (c *c13) resync(m Msg) {
	t, old := c.t, c.w
	{
		a, e1 := readStateFile(c.cfg.shareFile())
		b, e2 := readStateFile(c.cfg.pvFile())
		if e1 != nil || e2 != nil {
			t.Fatalf("state files after a kill: %v %v", e1, e2)
		}
		if m.HRS().Cmp(old) > 0 && a.HRS == m.HRS() {
			// signed, at least by the share
			c.first[m.HRS()] = m
			c.w = m.HRS()
			if b.HRS != a.HRS {
				// the validator did not get as far; let it learn so that the states agree again
				if b.HRS != old {
					t.Fatalf("validator state after a kill is at %v, before it at %v", b.HRS, old)
				}
				c.set("LSS", c.lssValue(m))
			}
		}
	}
}

func (c *c13) check() {
	t := c.t
	c.alive("the last step")
	var ks []string
	for k := range c.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r := c.p.do(t, nodeReq{Op: "get", Key: k}, 10*time.Second)
		if r.Err != "" || r.Val != c.store[k] {
			t.Fatalf("key %q reads %.100q instead of %.100q (%s)", k, r.Val, c.store[k], r.Err)
		}
	}
	for i, f := range []string{c.cfg.pvFile(), c.cfg.shareFile()} {
		fs, err := readStateFile(f)
		if err != nil {
			t.Fatalf("state file: %v", err)
		}
		if fs.HRS != c.w {
			t.Fatalf("the %s's watermark is %v instead of %v", []string{"validator", "cosigner"}[i], fs.HRS, c.w)
		}
		if m, ok := c.first[c.w]; ok && fs.SignBytes != "" && !strings.EqualFold(fs.SignBytes, fmt.Sprintf("%x", m.SignBytes())) {
			t.Fatalf("the %s's state at %v holds other sign bytes than those of %s", []string{"validator", "cosigner"}[i], c.w, m)
		}
	}
}
