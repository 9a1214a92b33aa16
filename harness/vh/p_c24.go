package main

import (
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
)

func init() { registry["C24"] = propC24 }

func propC24() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C24",
		Rule: "memory: a drawn script for one height (requests to 1..2 leaders with faults and drawn peers answering first, repeats, conflicts, time variants, nonce requests that nobody uses, stale announcements), ending in a signature that is announced to everybody, is repeated for " +
			"24 heights; the entries reachable from every cosigner and validator are counted after 8, 16 and 24. calls: batches of requests to a validator whose peers are real RemoteCosigners for healthy, refusing, dead, silent and garbling servers. sentries: remote signers " +
			"whose sentries disconnect in drawn ways again and again. cluster: real cosigner processes under rounds of requests, repeats and sentry disconnects. Oracle: metamorphic: the number of entries, goroutines, open descriptors and files after " +
			"many repetitions of the same work equals (up to a constant far below one per repetition) the number after few. Non-trivial: the final request of every height was signed (memory), requests failed and succeeded (calls), at least 6 disconnects (sentries), every round was signed (cluster).",
		Setup: func(e *pbt.Env) { initStores(e, 24) },
		Parts: []pbt.Part{
			{Name: "memory", Fn: c24Memory, Quick: 240, Thorough: 8000, Workers: 12, QuickSecs: 20, ThoroughSecs: 600, Timeout: 200 * time.Second},
			{Name: "calls", Fn: c24Calls, Quick: 7, Thorough: 120, Workers: 1, QuickSecs: 40, ThoroughSecs: 900, Timeout: 300 * time.Second, NoShrink: true},
			{Name: "sentries", Fn: c24Sentries, Quick: 4, Thorough: 80, Workers: 1, QuickSecs: 20, ThoroughSecs: 600, Timeout: 300 * time.Second, NoShrink: true},
			{Name: "cluster", Fn: c24Cluster, Quick: 16, Thorough: 200, Workers: 8, QuickSecs: 40, ThoroughSecs: 900, Timeout: 400 * time.Second, NoShrink: true},
		}}
}

// ---------- counting what an object keeps ----------

// held counts the map entries and slice elements (bytes by the 64) reachable from v through horcrux's own types.
func held(v interface{}) int {
	n := 0
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.IsValid() && v.Kind() == reflect.Struct && !mayHold(v.Type()) {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Map:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			n += v.Len()
			for it := v.MapRange(); it.Next(); {
				walk(it.Key())
				walk(it.Value())
			}
		case reflect.String:
			n += v.Len() / 64
		case reflect.Chan:
			n += v.Len()
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				n += v.Len() / 64
				return
			}
			n += v.Len()
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(v))
	return n
}

// mayHold: horcrux's structs, and containers of the standard library they may use.
func mayHold(t reflect.Type) bool {
	p := t.PkgPath()
	if p == "" || strings.HasPrefix(p, "container/") || p == "sync" || p == "sync/atomic" || p == "internal/sync" {
		return true
	}
	return strings.Contains(p, "strangelove-ventures/horcrux/") && !strings.Contains(p, "verifharness")
}

const c24Heights = 24

// c24Step is one thing done at every height.
type c24Step struct {
	kind   string
	ld     int
	m      Msg // relative to the height
	faults map[int]int
	first  map[int]bool
	who    int
	below  int64
}

func c24Memory(t *pbt.T) {
	n, th := drawNT(t, 3+t.Weighted(6, 2, 1))
	ring := NewRing(t, n, th, nil)
	ids := []int{1}
	if n > 2 && t.Chance(1, 3) {
		ids = []int{1, 2}
	}
	rig := NewRig(t, ring, ids)
	base := []int64{1, 100, 1 << 31, 1 << 53}[t.Weighted(6, 1, 1, 1)]
	stride := int64(1) // a chain may ask for far fewer than all heights (the validator is jailed, restored, ...)
	if t.Bool() {
		stride = int64([]int{2, 3, 5, 10, 1000}[t.Intn(5)])
	}
	msg := func(k int) Msg {
		return Msg{Kind: k, H: 0, R: int64(t.Intn(2)), Block: 1 + t.Intn(3), TS: 1 + t.Intn(len(tsPool)-1)}
	}
	drawPlan := func(s *c24Step) {
		peers := others(ring.IDs, ids[s.ld])
		s.faults, s.first = map[int]int{}, map[int]bool{}
		for _, id := range pickSome(t, peers, th-1) {
			s.first[id] = true
		}
		for _, id := range peers {
			if t.Chance(1, 4) {
				if s.first[id] {
					s.faults[id] = []int{fSignErr, fSignLost, fSignGarbage, fSignFlip, fGetGarbage}[t.Intn(5)]
				} else {
					s.faults[id] = []int{fGetErr, fGetGarbage, fSignErr}[t.Intn(3)]
				}
			}
		}
	}
	var script []c24Step
	last := msg(kPrevote)
	for k := t.Range(0, 5); k > 0; k-- {
		s := c24Step{ld: t.Intn(len(ids))}
		switch t.Weighted(5, 3, 3, 2, 2) {
		case 0:
			s.kind, s.m = "request", msg([]int{kProposal, kPrevote}[t.Intn(2)])
			drawPlan(&s)
			last = s.m
		case 1: // a repeat, a variant or a conflict
			s.kind, s.m = "request", last
			if t.Bool() {
				s.m.TS = 1 + t.Intn(len(tsPool)-1)
			}
			if t.Chance(1, 4) {
				s.m.Block = 1 + t.Intn(3)
			}
			drawPlan(&s)
		case 2: // nonces that nobody uses
			s.kind, s.m, s.who = "nonces", msg(kPrevote), ring.IDs[t.Intn(n)]
		case 3:
			s.kind, s.m, s.below = "request", msg(kPrevote), int64(t.Intn(5))
			drawPlan(&s)
		case 4:
			s.kind, s.who, s.below = "stale announcement", ring.IDs[t.Intn(n)], int64(t.Intn(4))
		}
		script = append(script, s)
	}
	fin := c24Step{kind: "final", ld: t.Intn(len(ids)), m: Msg{Kind: kPrecommit, R: 2, Block: 1, TS: 1}}
	peers := others(ring.IDs, ids[fin.ld])
	fin.first = map[int]bool{}
	for _, id := range pickSome(t, peers, th-1) {
		fin.first[id] = true
	}
	script = append(script, fin)
	t.Logf("n=%d t=%d leaders %v from height %d on, every %d", n, th, ids, base, stride)
	for _, s := range script {
		t.Logf("each height: %s %s leader %d cosigner %d below %d first %v faults %v", s.kind, s.m, ids[s.ld], s.who, s.below, s.first, s.faults)
		t.Label(s.kind)
	}
	sigs := map[int64][]byte{}
	at := []int{}
	counts := map[string][]int{}
	for k := int64(0); k < c24Heights; k++ {
		h := base + k*stride
		for _, s := range script {
			ld := rig.Leaders[s.ld]
			m := s.m
			m.H = h - s.below
			switch s.kind {
			case "nonces":
				_, _ = ring.Nodes[s.who].get(m.HRST())
			case "stale announcement":
				if sig := sigs[h-stride*(1+s.below)]; sig != nil {
					f := fin.m
					f.H = h - stride*(1+s.below)
					_ = ring.Nodes[s.who].LC.SaveLastSignedState(signer.SignStateConsensus{Height: f.H, Round: f.R, Step: f.HRST().Step, Signature: sig, SignBytes: f.SignBytes()})
				}
			default:
				p := &reqPlan{first: s.first, faults: s.faults, delays: map[int][2]time.Duration{}, release: make(chan struct{}), gotCh: make(chan struct{}), need: th - 1, garbage: []byte("garbage")}
				if th == 1 {
					close(p.gotCh)
				}
				rep := ld.Do(m, p)
				if s.kind != "final" {
					break
				}
				if rep.err != nil || !ring.verifies(m, rep.sig) {
					t.Logf("height %d is not signed: %v", h, rep.err)
					t.Label("final not signed")
					return // not what is judged here
				}
				sigs[h] = rep.sig
				ssc := signer.SignStateConsensus{Height: h, Round: m.R, Step: m.HRST().Step, Signature: rep.sig, SignBytes: m.SignBytes()}
				for _, id := range ring.IDs {
					_ = ring.Nodes[id].LC.SaveLastSignedState(ssc)
				}
				for _, l := range rig.Leaders {
					_ = l.val.SaveLastSignedState(ssc)
				}
			}
		}
		if (k+1)%(c24Heights/3) == 0 {
			at = append(at, int(k+1))
			for _, id := range ring.IDs {
				x := fmt.Sprintf("cosigner %d", id)
				counts[x] = append(counts[x], held(ring.Nodes[id].LC))
			}
			for _, l := range rig.Leaders {
				x := fmt.Sprintf("the validator of %d", l.Node.ID)
				counts[x] = append(counts[x], held(l.val))
			}
		}
	}
	var names []string
	for x := range counts {
		names = append(names, x)
	}
	sort.Strings(names)
	t.Logf("held after %v heights: %v", at, counts)
	for _, x := range names {
		c := counts[x]
		if few := c24Heights / 6; c[1]-c[0] >= few && c[2]-c[1] >= few {
			t.Fatalf("%s keeps %d entries after %d heights, %d after %d and %d after %d, although every height has been signed and announced", x, c[0], at[0], c[1], at[1], c[2], at[2])
		}
	}
	t.NonTrivial("")
}

// ---------- goroutines and descriptors of this process ----------

func fdsOf(pid string) int {
	d, err := ioutil.ReadDir("/proc/" + pid + "/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

// resources are the goroutines and descriptors of this process at rest.
func resources() (g, fd int) {
	runtime.GC()
	runtime.GC()
	time.Sleep(30 * time.Millisecond)
	return runtime.NumGoroutine(), fdsOf("self")
}

// settleTo waits until this process has come down to the given level.
func settleTo(d time.Duration, g, fd int) (int, int, bool) {
	var ng, nfd int
	ok := pbt.WaitUntil(d, func() bool {
		ng, nfd = resources()
		time.Sleep(100 * time.Millisecond)
		return ng <= g && nfd <= fd
	})
	return ng, nfd, ok
}

// silent accepts connections and never answers.
type silent struct {
	l  net.Listener
	mu sync.Mutex
	cs []net.Conn
}

func newSilent(t *pbt.T, garbage []byte) *silent {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		pbt.Harness("listening: %v", err)
	}
	s := &silent{l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			if len(garbage) > 0 {
				_, _ = c.Write(garbage)
			}
			s.mu.Lock()
			s.cs = append(s.cs, c)
			s.mu.Unlock()
		}
	}()
	t.Defer(func() { l.Close(); s.drop() })
	return s
}

func (s *silent) drop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.cs {
		c.Close()
	}
	s.cs = nil
}

func c24Calls(t *pbt.T) {
	n := t.Range(2, 5)
	th := t.Range(2, n)
	ring := NewRing(t, n, th, nil)
	rig := NewRig(t, ring, []int{1})
	ld := rig.Leaders[0]
	var silents []*silent
	var peers []signer.Cosigner
	healthy := 1
	for _, id := range ring.IDs[1:] {
		var addr, what string
		switch k := t.Weighted(4, 2, 3, 2, 1); k {
		case 0:
			addr, what = servePeer(t, ring.Nodes[id]), "healthy"
			healthy++
		case 1: // refuses: it is restarted with a state far ahead
			node := ring.Nodes[id]
			_ = node.LC.SaveLastSignedState(signer.SignStateConsensus{Height: 1 << 40, Step: 3, Signature: []byte{1}, SignBytes: []byte{1}})
			addr, what = servePeer(t, node), "refusing"
		case 2:
			addr, what = fmt.Sprintf("tcp://127.0.0.1:%d", freePort()), "dead"
		default:
			var g []byte
			what = "silent"
			if k == 4 {
				g, what = []byte("HTTP/1.1 400 Bad Request\r\n\r\n"), "garbling"
			}
			s := newSilent(t, g)
			silents = append(silents, s)
			addr = "tcp://" + s.l.Addr().String()
		}
		t.Logf("cosigner %d is %s", id, what)
		t.Label(what)
		peers = append(peers, signer.NewRemoteCosigner(id, addr))
	}
	ss, err := signer.LoadOrCreateSignState(ld.PVFile)
	pbt.Must(err)
	val := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: ring.Pub, Threshold: th, SignState: ss, Cosigner: ring.Nodes[1].LC, Peers: peers, RaftStore: ld.store, Logger: nopLogger{}})
	ld.store.SetThresholdValidator(val)
	h := int64(0)
	var mu sync.Mutex
	okN, failN := 0, 0
	batch := func(k int) {
		var g pbt.Group
		for i := 0; i < k; i++ {
			h++
			m := Msg{Kind: kPrevote, H: h, Block: 1, TS: 1}
			g.Go(func() {
				rep := signWith(val, m)
				if rep.err == nil { // a repeat
					_ = signWith(val, m)
				}
				mu.Lock()
				defer mu.Unlock()
				if rep.err == nil {
					okN++
				} else {
					failN++
				}
			})
			time.Sleep(8 * time.Millisecond)
		}
		g.Wait()
		for _, s := range silents {
			s.drop()
		}
	}
	batch(2)
	time.Sleep(500 * time.Millisecond)
	g0, f0 := resources()
	const reps = 40
	batch(reps)
	t.Label(fmt.Sprintf("signed %v failed %v", okN > 0, failN > 0))
	g1, f1, ok := settleTo(25*time.Second, g0+reps/4, f0+reps/4)
	t.Logf("%d of %d healthy, threshold %d: goroutines %d -> %d, descriptors %d -> %d; signed %d, failed %d", healthy, n, th, g0, g1, f0, f1, okN, failN)
	if !ok {
		t.FatalfLive("%d requests (%d failed) leave %d more goroutines and %d more open descriptors behind: %s", reps, failN, g1-g0, f1-f0, stuckIn())
	}
	t.NonTrivial("")
}

// stuckIn names the horcrux functions most goroutines are in.
func stuckIn() string {
	b := make([]byte, 1<<22)
	b = b[:runtime.Stack(b, true)]
	cnt := map[string]int{}
	for _, g := range strings.Split(string(b), "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if strings.Contains(l, "strangelove-ventures/horcrux/signer") && !strings.HasPrefix(l, "\t") {
				cnt[strings.SplitN(l, " in goroutine", 2)[0]]++
				break
			}
		}
	}
	var o []string
	for f, k := range cnt {
		if k > 4 {
			o = append(o, fmt.Sprintf("%d in %s", k, f))
		}
	}
	sort.Strings(o)
	return strings.Join(o, ", ")
}

func c24Sentries(t *pbt.T) {
	v := &recVal{key: tmed.GenPrivKeyFromSecret(t.Bytes(8)), plan: map[int64]int{}, asked: map[int64]int{}, chain: map[int64]string{}, slow: map[int64]bool{}}
	n := t.Range(4, 8)
	var ss []*sentry
	var nodes []signer.NodeConfig
	var scripts [][]string
	drops := 0
	for i := 0; i < n; i++ {
		s := newSentry(t)
		ss = append(ss, s)
		nodes = append(nodes, signer.NodeConfig{Address: s.addr})
		var sc []string
		aborts := 0
		for k := t.Range(8, 16); k > 0; k-- {
			kind := []string{"close", "reset", "garbage", "close after a request", "reset within a request", "abort"}[t.Weighted(3, 3, 3, 3, 3, 1)]
			if kind == "abort" {
				if aborts++; aborts > 2 { // the signer waits 3 s after each
					kind = "close"
				}
			}
			sc = append(sc, kind)
			t.Label(kind)
		}
		drops += len(sc)
		scripts = append(scripts, sc)
		t.Logf("sentry %d: %v", i, sc)
	}
	svc, err := signer.StartRemoteSigners(nil, nopLogger{}, "chain", &signer.PvGuard{PrivValidator: v}, nodes)
	pbt.Must(err)
	t.Defer(func() { stopAll(svc) })
	conns := make([]*sconn, n)
	ping := func(i int) error {
		cn, err := ss[i].accept(c15Wait)
		if err != nil {
			return err
		}
		conns[i] = cn
		if err := cn.write(frame(pingReq())); err != nil {
			return err
		}
		if m, err := cn.recv(c15Wait); m == nil {
			return fmt.Errorf("no answer to a ping: %v", err)
		}
		return nil
	}
	each := func(f func(i int) error) {
		errs := make([]error, n)
		var g pbt.Group
		for i := range ss {
			i := i
			g.Go(func() { errs[i] = f(i) })
		}
		g.Wait()
		for i, e := range errs {
			if e != nil {
				t.FatalfLive("sentry %d: %v", i, e)
			}
		}
	}
	each(ping)
	g0, f0 := resources()
	each(func(i int) error {
		for k, kind := range scripts[i] {
			cn := conns[i]
			h := int64(1000*(i+1) + k)
			req := frame(msgReq(Msg{Kind: kPrevote, H: h, Block: 1, TS: 1}))
			switch kind {
			case "close":
				cn.close()
			case "reset":
				cn.reset()
			case "garbage":
				_ = cn.write([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
				_, _ = cn.recv(c15Wait)
				cn.close()
			case "close after a request":
				_ = cn.write(req)
				_, _ = cn.recv(c15Wait)
				cn.close()
			case "reset within a request":
				_ = cn.write(req)
				cn.reset()
			case "abort":
				cn.close()
				raw, err := ss[i].acceptRaw(c15Wait)
				if err != nil {
					return err
				}
				_, _ = raw.Write([]byte("bye"))
				raw.Close()
			}
			if err := ping(i); err != nil {
				return fmt.Errorf("after %s: %v", kind, err)
			}
		}
		return nil
	})
	g1, f1, ok := settleTo(20*time.Second, g0+drops/6, f0+drops/6)
	t.Logf("%d disconnects: goroutines %d -> %d, descriptors %d -> %d", drops, g0, g1, f0, f1)
	if !ok {
		t.FatalfLive("%d disconnects leave %d more goroutines and %d more open descriptors behind: %s", drops, g1-g0, f1-f0, stuckIn())
	}
	t.NonTrivial("")
	for _, cn := range conns {
		cn.close()
	}
}

// ---------- real processes ----------

func c24Cluster(t *pbt.T) {
	c := &c14{t: t, ms: map[int]*c14Member{}, reqs: map[HRS][]Msg{}, signed: map[HRS]string{}, chain: t.Intn(len(chains))}
	n, th := 3, 2
	if t.Chance(1, 4) {
		n, th = 2, 2
	}
	c.ring = NewRing(t, n, th, nil)
	c.ids = c.ring.IDs
	for _, id := range c.ids {
		c.ms[id] = &c14Member{c: c, id: id, home: filepath.Join(t.Scratch, fmt.Sprintf("home%d", id)), addr: fmt.Sprintf("127.0.0.1:%d", freePort())}
	}
	var g pbt.Group
	for _, id := range c.ids {
		m := c.ms[id]
		for k := t.Range(1, 2); k > 0; k-- {
			m.ss = append(m.ss, newSentry(t))
		}
		m.busy = make([]sync.Mutex, len(m.ss))
		g.Go(m.setup)
	}
	g.Wait()
	c.settle()
	h := int64(0)
	perRound := t.Range(20, 30)
	cuts := t.Range(0, 12)
	repeats := t.Range(0, 2)
	refused := t.Range(0, 2)
	order := make([]int, perRound)
	for i := range order {
		order[i] = c.ids[t.Intn(n)]
	}
	t.Logf("n=%d t=%d, each round: requests to %v, each repeated %d times and followed by %d requests that are refused; every sentry disconnects %d times", n, th, order, repeats, refused, cuts)
	round := func() (signed int) {
		for i, x := range order {
			h++
			m := Msg{Kind: kPrevote, H: h, Block: 1, TS: 1, Chain: c.chain}
			for k := 0; k <= repeats; k++ {
				a, _ := c.ask(x, m, i+k)
				if a.err == "" && len(a.sig) > 0 && k == 0 {
					signed++
				}
			}
			for k := 0; k < refused; k++ { // a conflict, or a height long gone
				r := m
				if r.Block = 2; k%2 == 1 && h > 3 {
					r.H, r.Block = h-2, 3
				}
				_, _ = c.ask(c.ids[(i+k)%n], r, i+k)
			}
		}
		for _, id := range c.ids {
			mb := c.ms[id]
			for i, s := range mb.ss {
				for k := 0; k < cuts; k++ {
					mb.cs[i].close()
					cn, err := s.accept(c15Wait)
					if err != nil {
						t.FatalfLive("member %d does not connect again: %v", id, err)
					}
					mb.cs[i] = cn
				}
			}
		}
		return
	}
	files := func() string {
		var o []string
		for _, id := range c.ids {
			_ = filepath.Walk(c.ms[id].home, func(p string, i os.FileInfo, err error) error {
				if err == nil && i.IsDir() && i.Name() == "snapshots" {
					return filepath.SkipDir
				}
				if err == nil {
					o = append(o, p)
				}
				return nil
			})
		}
		return strings.Join(o, " ")
	}
	fds := func() map[int]int {
		o := map[int]int{}
		for _, id := range c.ids {
			o[id] = fdsOf(fmt.Sprint(c.ms[id].p.cmd.Process.Pid))
		}
		return o
	}
	all := round()
	time.Sleep(time.Second)
	f0, names := fds(), files()
	rounds := 3
	for k := 0; k < rounds; k++ {
		all += round()
	}
	c.alive()
	slack := 10
	var f1 map[int]int
	var bad string
	ok := pbt.WaitUntil(20*time.Second, func() bool {
		f1, bad = fds(), ""
		for _, id := range c.ids {
			if f1[id] > f0[id]+slack {
				bad = fmt.Sprintf("cosigner %d has %d open descriptors after one round of requests and %d after %d more", id, f0[id], f1[id], rounds)
			}
		}
		time.Sleep(100 * time.Millisecond)
		return bad == ""
	})
	t.Logf("descriptors %v -> %v, signed %d of %d", f0, f1, all, (rounds+1)*perRound)
	if !ok {
		t.FatalfLive("%s", bad)
	}
	var now string
	if !pbt.WaitUntil(5*time.Second, func() bool { now = files(); return now == names }) {
		t.Fatalf("files appear in or disappear from the home directories: %s became %s", names, now)
	}
	if all > (rounds+1)*perRound/2 {
		t.NonTrivial("")
	}
}
