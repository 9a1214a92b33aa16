package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"path/filepath"
	"reflect"
	"sort"
	"time"
	"unsafe"

	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
)

// fieldOf gives the value of the first field of the type in the struct that p points to.
func fieldOf(p interface{}, typ reflect.Type, name string) (interface{}, bool) {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == typ && (name == "" || v.Type().Field(i).Name == name) {
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			if f.IsNil() {
				return nil, false
			}
			return f.Interface(), true
		}
	}
	return nil, false
}

type memSink struct {
	bytes.Buffer
	fail   int // number of bytes to take before failing, -1 for all
	closed int
	cancel int
}

func (m *memSink) Write(p []byte) (int, error) {
	if m.fail >= 0 && m.Len()+len(p) > m.fail {
		n := m.fail - m.Len()
		m.Buffer.Write(p[:n])
		return n, errors.New("no space left")
	}
	return m.Buffer.Write(p)
}
func (m *memSink) ID() string    { return "s" }
func (m *memSink) Close() error  { m.closed++; return nil }
func (m *memSink) Cancel() error { m.cancel++; return nil }

type c13Entry struct {
	data []byte
	op   byte // s, d, e (event), 0 nothing
	k, v string
	at   HRS
	m    *Msg
}

type c13Replica struct {
	id      int
	dir     string
	node    *Node
	store   *signer.RaftStore
	raft    *raft.Raft
	fsm     raft.FSM
	pvFile  string
	applied int
	content map[string]string
	pv, sh  HRS
}

type c13Snap struct {
	data    []byte
	index   int
	content map[string]string
}

type c13F struct {
	t     *pbt.T
	ring  *Ring
	reps  []*c13Replica
	log   []c13Entry
	snaps []c13Snap
	keys  map[string]bool
	first map[HRS]Msg
	top   HRS
	boots int
}

func c13Replicas(t *pbt.T) {
	ring := NewRing(t, 4, 2, nil)
	c := &c13F{t: t, ring: ring, keys: map[string]bool{"a": true}, first: map[HRS]Msg{}}
	g := MsgGen{Base: 10, H: 4, R: 2}.Wide(t)
	for i := 0; i < t.Range(2, 3); i++ {
		r := &c13Replica{id: i + 1, node: ring.Nodes[i+1], pvFile: filepath.Join(t.Scratch, fmt.Sprintf("pv_%d.json", i)), content: map[string]string{}}
		write := func(file string) HRS {
			h := HRS{}
			if t.Bool() {
				m := g.Draw(t)
				h = m.HRS()
			}
			pbt.Must(ioutil.WriteFile(file, []byte(fmt.Sprintf(`{"height":"%d","round":"%d","step":%d}`, h.H, h.R, h.S)), 0600))
			return h
		}
		r.pv, r.sh = write(r.pvFile), write(r.node.File)
		c.reps = append(c.reps, r)
		if !c.boot(r) {
			t.Label("state machine not reachable")
			return
		}
		t.Logf("replica %d: validator at %v, cosigner at %v", r.id, r.pv, r.sh)
	}
	events, installed := 0, 0
	for steps := t.Range(5, 40); steps > 0; steps-- {
		r := c.reps[t.Intn(len(c.reps))]
		switch t.Weighted(10, 8, 4, 3, 2) {
		case 0:
			e := c.entry(g)
			c.log = append(c.log, e)
			if e.op == 'e' {
				events++
			}
			if t.Bool() {
				c.advance(r, len(c.log))
			}
		case 1:
			c.advance(r, len(c.log))
		case 2:
			c.snapshot(r, g)
		case 3:
			if c.install(r) {
				installed++
			}
		case 4:
			c.restart(r)
		}
		for _, x := range c.reps {
			c.check(x)
		}
	}
	for _, r := range c.reps {
		c.advance(r, len(c.log))
		c.check(r)
		c.governs(r, g)
	}
	if events > 0 && installed > 0 {
		t.NonTrivial("")
	}
}

// boot opens the store of the replica on its state files.
func (c *c13F) boot(r *c13Replica) bool {
	r.node.Restart(c.t)
	ss, err := signer.LoadOrCreateSignState(r.pvFile)
	if err != nil {
		c.t.Fatalf("validator state does not load: %v", err)
	}
	c.boots++
	r.dir = mkdir(filepath.Join(c.t.Scratch, fmt.Sprintf("raft%d", c.boots)))
	r.store = signer.NewRaftStore(fmt.Sprint(r.id), r.dir, fmt.Sprintf("tcp://127.0.0.1:%d", 2000+c.boots), time.Second, nopLogger{}, r.node.LC, nil)
	val := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: c.ring.Pub, Threshold: 2, SignState: ss, Cosigner: r.node.LC, RaftStore: r.store, Logger: nopLogger{}})
	r.store.SetThresholdValidator(val)
	if _, err := r.store.Open(); err != nil {
		c.t.Fatalf("the store does not open: %v", err)
	}
	x, ok := fieldOf(r.store, reflect.TypeOf((*raft.Raft)(nil)), "")
	if !ok {
		return false
	}
	r.raft = x.(*raft.Raft)
	f, ok := fieldOf(r.raft, reflect.TypeOf((*raft.FSM)(nil)).Elem(), "fsm")
	if !ok {
		return false
	}
	r.fsm = f.(raft.FSM)
	ra := r.raft
	c.t.Defer(func() { shutRaft(ra) })
	return true
}

func shutRaft(ra *raft.Raft) {
	_ = ra.Shutdown().Error()
	for typ, name := range map[reflect.Type]string{reflect.TypeOf((*raft.LogStore)(nil)).Elem(): "logs", reflect.TypeOf((*raft.StableStore)(nil)).Elem(): "stable"} {
		if s, ok := fieldOf(ra, typ, name); ok {
			if cl, ok := s.(io.Closer); ok {
				_ = cl.Close()
			}
		}
	}
}

func (c *c13F) entry(g MsgGen) c13Entry {
	t := c.t
	enc := func(op, k, v string) []byte {
		b, err := json.Marshal(map[string]string{"op": op, "key": k, "value": v})
		pbt.Must(err)
		return b
	}
	switch t.Weighted(5, 2, 3, 5, 1) {
	case 0:
		k, v := c13Keys[t.Intn(len(c13Keys))], c13Value(t)
		if k == "LSS" {
			k = "a"
		}
		t.Logf("entry %d: set %q=%.40q", len(c.log), k, v)
		c.keys[k] = true
		return c13Entry{data: enc("set", k, v), op: 's', k: k, v: v}
	case 1:
		k := c13Keys[t.Intn(len(c13Keys))]
		t.Logf("entry %d: delete %q", len(c.log), k)
		c.keys[k] = true
		return c13Entry{data: enc("delete", k, ""), op: 'd', k: k}
	case 2:
		d, k, v, good := c13Raw(t)
		t.Logf("entry %d: %.80q", len(c.log), d)
		e := c13Entry{data: []byte(d), k: k, v: v}
		c.keys[k] = true
		if good {
			e.op = 'd'
			if bytes.Contains(e.data, []byte(`"op":"set"`)) {
				e.op = 's'
			}
		}
		return e
	case 3:
		if c.top.H > g.Base {
			g.Base = c.top.H - int64(t.Intn(2))
		}
		m := g.Draw(t)
		if f, ok := c.first[m.HRS()]; ok {
			m = f // a leader announces one message per position
		}
		c.first[m.HRS()] = m
		if m.HRS().Cmp(c.top) > 0 {
			c.top = m.HRS()
		}
		t.Logf("entry %d: event %s", len(c.log), m)
		return c13Entry{data: enc("set", "LSS", lssValue(c.ring, m)), op: 'e', k: "LSS", at: m.HRS(), m: &m}
	}
	v := c13BadEvents[t.Intn(len(c13BadEvents))]
	t.Logf("entry %d: malformed event %q", len(c.log), v)
	return c13Entry{data: enc("set", "LSS", v)}
}

// apply gives the entry to the replica and to its model.
func (c *c13F) apply(r *c13Replica, i int) {
	e := c.log[i]
	r.fsm.Apply(&raft.Log{Index: uint64(i + 1), Term: 1, Type: raft.LogCommand, Data: append([]byte{}, e.data...)})
	switch e.op {
	case 's':
		r.content[e.k] = e.v
	case 'd':
		delete(r.content, e.k)
	case 'e':
		if e.at.Cmp(r.pv) > 0 {
			r.pv = e.at
		}
		if e.at.Cmp(r.sh) > 0 {
			r.sh = e.at
		}
	}
	r.applied = i + 1
}

func (c *c13F) advance(r *c13Replica, to int) {
	n := to - r.applied
	if n > 1 && c.t.Bool() {
		n = c.t.Range(1, n)
	}
	c.t.Logf("replica %d applies entries %d..%d", r.id, r.applied, r.applied+n-1)
	for ; n > 0; n-- {
		c.apply(r, r.applied)
	}
}

// snapshot takes a snapshot and writes it out, possibly after or while more entries are applied.
func (c *c13F) snapshot(r *c13Replica, g MsgGen) {
	t := c.t
	s, err := r.fsm.Snapshot()
	if err != nil {
		t.Fatalf("replica %d: snapshot fails: %v", r.id, err)
	}
	sn := c13Snap{index: r.applied, content: map[string]string{}}
	for k, v := range r.content {
		sn.content[k] = v
	}
	for k := t.Intn(4); k > 0; k-- {
		c.log = append(c.log, c.entry(g))
	}
	sink := &memSink{fail: -1}
	if t.Chance(1, 5) {
		sink.fail = t.Intn(20)
	}
	switch t.Intn(3) {
	case 0:
		t.Logf("replica %d: snapshot at %d", r.id, sn.index)
		err = s.Persist(sink)
	case 1:
		t.Logf("replica %d: snapshot at %d, written out later", r.id, sn.index)
		c.advance(r, len(c.log))
		err = s.Persist(sink)
	case 2:
		t.Logf("replica %d: snapshot at %d, written out meanwhile", r.id, sn.index)
		done := make(chan struct{})
		go func() { err = s.Persist(sink); close(done) }()
		c.advance(r, len(c.log))
		<-done
	}
	s.Release()
	if err != nil {
		if sink.fail < 0 {
			t.Fatalf("writing a snapshot fails: %v", err)
		}
		if sink.cancel == 0 || sink.closed > 0 {
			t.Fatalf("a snapshot that could not be written is not cancelled (closed %d, cancelled %d)", sink.closed, sink.cancel)
		}
		return
	}
	if sink.closed != 1 || sink.cancel > 0 {
		t.Fatalf("a written snapshot is closed %d and cancelled %d times", sink.closed, sink.cancel)
	}
	sn.data = append([]byte{}, sink.Bytes()...)
	c.snaps = append(c.snaps, sn)
}

func (c *c13F) restore(r *c13Replica, sn c13Snap) {
	if err := r.fsm.Restore(ioutil.NopCloser(bytes.NewReader(sn.data))); err != nil {
		c.t.Fatalf("a snapshot does not restore: %v", err)
	}
	r.applied = sn.index
	r.content = map[string]string{}
	for k, v := range sn.content {
		r.content[k] = v
	}
}

// install gives a snapshot to a replica that is behind it.
func (c *c13F) install(r *c13Replica) bool {
	var fit []c13Snap
	for _, s := range c.snaps {
		if s.index >= r.applied {
			fit = append(fit, s)
		}
	}
	if len(fit) == 0 {
		return false
	}
	s := fit[c.t.Intn(len(fit))]
	c.t.Logf("replica %d, at %d, installs the snapshot at %d", r.id, r.applied, s.index)
	if c.t.Chance(1, 4) && len(s.data) > 2 {
		// one that was cut off while being transferred is refused and changes nothing
		if err := r.fsm.Restore(ioutil.NopCloser(bytes.NewReader(s.data[:c.t.Range(1, len(s.data)-1)]))); err == nil {
			c.t.Fatalf("a truncated snapshot restores")
		}
		c.check(r)
	}
	c.restore(r, s)
	return true
}

// restart starts the replica anew from a snapshot it had reached, or from nothing, and replays.
func (c *c13F) restart(r *c13Replica) {
	t := c.t
	at := r.applied
	shutRaft(r.raft)
	c.boot(r)
	r.content, r.applied = map[string]string{}, 0
	var fit []c13Snap
	for _, s := range c.snaps {
		if s.index <= at {
			fit = append(fit, s)
		}
	}
	if len(fit) > 0 && t.Chance(2, 3) {
		c.restore(r, fit[len(fit)-1-t.Intn(minInt(2, len(fit)))])
	}
	t.Logf("replica %d restarts at %d and replays", r.id, r.applied)
	t.Label("restart")
	for r.applied < at {
		c.apply(r, r.applied)
	}
}

func (c *c13F) check(r *c13Replica) {
	t := c.t
	var ks []string
	for k := range c.keys {
		ks = append(ks, k)
	}
	ks = append(ks, "LSS")
	sort.Strings(ks)
	for _, k := range ks {
		v, err := r.store.Get(k)
		if err != nil || v != r.content[k] {
			t.Fatalf("replica %d after %d entries: key %q reads %.100q instead of %.100q (%v)", r.id, r.applied, k, v, r.content[k], err)
		}
	}
	for i, f := range []string{r.pvFile, r.node.File} {
		want := []HRS{r.pv, r.sh}[i]
		fs, err := readStateFile(f)
		if err != nil {
			t.Fatalf("state file: %v", err)
		}
		if fs.HRS != want {
			t.Fatalf("replica %d after %d entries: the %s's watermark is %v instead of %v", r.id, r.applied, []string{"validator", "cosigner"}[i], fs.HRS, want)
		}
	}
}

// governs asks the replica's cosigner for shares around its watermark.
func (c *c13F) governs(r *c13Replica, g MsgGen) {
	t := c.t
	if r.sh == (HRS{}) || r.sh.S == 0 {
		return
	}
	ask := func(m Msg) error {
		if _, err := r.node.LC.GetEphemeralSecretParts(m.HRST()); err != nil {
			return err
		}
		res, err := r.node.LC.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{
			EncryptedSecrets: c.ring.partsFor(t, r.id, []int{4}, m.HRST()), HRST: m.HRST(), SignBytes: m.SignBytes()})
		if err == nil && len(res.Signature) == 0 {
			return errors.New("no signature")
		}
		return err
	}
	m := g.Draw(t)
	m.H, m.R, m.Kind = r.sh.H, r.sh.R, r.sh.S
	f, known := c.first[m.HRS()]
	if known && f.Content() == m.Content() {
		m.Block = (f.Block + 1) % 5
	}
	if err := ask(m); err == nil {
		t.Fatalf("replica %d: %s is signed although the watermark is %v (announced: %v)", r.id, m, r.sh, known)
	}
	m.H++
	if err := ask(m); err != nil {
		t.Fatalf("replica %d: %s is refused although the watermark is %v: %v", r.id, m, r.sh, err)
	}
}
