package main

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
)

func init() {
	registry["C05"] = propC05
	children["c05"] = c05Child
}

func propC05() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C05",
		Rule: "release: sign histories of a ring (with peer faults and restarts); at the moment any cosigner returns a share and the leader a signature, the harness reads the state file of the releasing " +
			"signer and compares. saves: 2..8 goroutines saving drawn positions while a watcher re-reads the file. kill: a child process signing a drawn history is killed with SIGKILL at a drawn " +
			"moment; every share it reported must be covered by its file. unwritable: the state directory disappears before a drawn request. Non-trivial: a share or signature was released (release), " +
			"at least two goroutines saved successfully (saves), the child released something before it died (kill), a new position was requested while unwritable (unwritable).",
		Setup: func(e *pbt.Env) { initStores(e, 24) },
		Parts: []pbt.Part{
			{Name: "release", Fn: c05Release, Quick: 700, Thorough: 30000, Workers: 24, QuickSecs: 25, ThoroughSecs: 700},
			{Name: "saves", Fn: c05Saves, Quick: 3000, Thorough: 100000, Workers: 8, QuickSecs: 25, ThoroughSecs: 500},
			{Name: "kill", Fn: c05Kill, Quick: 120, Thorough: 5000, Workers: 8, QuickSecs: 25, ThoroughSecs: 500, NoShrink: true},
			{Name: "unwritable-leader", Fn: c05UnwritableLeader, Quick: 200, Thorough: 8000, Workers: 12, QuickSecs: 15, ThoroughSecs: 200},
			{Name: "unannounced", Fn: c05Unannounced, Quick: 48, Thorough: 2000, Workers: 16, QuickSecs: 25, ThoroughSecs: 300, NoShrink: true},
			{Name: "unwritable", Fn: c05Unwritable, Quick: 300, Thorough: 8000, QuickSecs: 15, ThoroughSecs: 200},
		}}
}

// sameButTime tells whether two messages' sign bytes agree in everything but the timestamp, for messages of the pools.
func sameButTime(m Msg, signBytesHex string) bool {
	for ts := range tsPool {
		o := m
		o.TS = ts
		if strings.EqualFold(hex.EncodeToString(o.SignBytes()), signBytesHex) {
			return true
		}
	}
	return false
}

// durable is the oracle: file must record m's position, or a higher one.
func durable(file string, m Msg, who string) string {
	fs, err := readStateFile(file)
	if err != nil {
		return fmt.Sprintf("%s released %s but its state file cannot be read: %v", who, m, err)
	}
	switch c := fs.HRS.Cmp(m.HRS()); {
	case c < 0:
		return fmt.Sprintf("%s released %s but its state file is still at %v", who, m, fs.HRS)
	case c == 0 && fs.SignBytes == "":
		return fmt.Sprintf("%s released %s but its state file holds no sign bytes", who, m)
	case c == 0 && !sameButTime(m, fs.SignBytes):
		return fmt.Sprintf("%s released %s but its state file records other sign bytes %s", who, m, fs.SignBytes)
	}
	return ""
}

func c05Release(t *pbt.T) {
	n, th := drawNT(t, 4)
	ring := NewRing(t, n, th, nil)
	ldID := ring.IDs[t.Intn(n)]
	rig := NewRig(t, ring, []int{ldID})
	ld := rig.Leaders[0]
	var mu sync.Mutex
	byBytes := map[string]Msg{}
	bad := ""
	shares := 0
	for _, node := range ring.Nodes {
		node.OnSign = func(n *Node, req signer.CosignerSetEphemeralSecretPartsAndSignRequest, res *signer.CosignerSignResponse, err error) {
			if err != nil || res == nil || len(res.Signature) == 0 {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			shares++
			m := byBytes[string(req.SignBytes)]
			if s := durable(n.File, m, fmt.Sprintf("cosigner %d", n.ID)); s != "" && bad == "" {
				bad = s
			}
		}
	}
	g := MsgGen{Base: 1 + int64(t.Intn(50)), H: 1, R: 2, Chains: 1}.Wide(t)
	var hist []Msg
	sigs := 0
	t.Logf("n=%d t=%d leader=%d", n, th, ldID)
	for i, steps := 0, t.Range(2, 10); i < steps; i++ {
		var m Msg
		if len(hist) > 0 && t.Chance(1, 3) {
			m = g.Mutate(t, hist[t.Intn(len(hist))])
		} else {
			g.Base += int64(t.Intn(3))
			m = g.Draw(t)
		}
		hist = append(hist, m)
		mu.Lock()
		byBytes[string(m.SignBytes())] = m
		mu.Unlock()
		plan := rig.Plan(ld, 1, 6, []int{fSignErr, fSignLost, fCrashAfter, fCrashBefore}, false)
		rep := ld.Do(m, plan)
		t.Logf("%s -> %s", m, okErr(rep.err))
		if rep.panic != "" {
			t.Fatalf("%s: %s", m, rep.panic)
		}
		if rep.err == nil {
			sigs++
			mm := m
			if !ring.verifies(m, rep.sig) && m.Kind == kProposal {
				continue // answered with the signature issued before
			}
			if s := durable(ld.PVFile, mm, "the leader"); s != "" {
				t.Fatalf("%s", s)
			}
			fs, _ := readStateFile(ld.PVFile)
			if fs.HRS == m.HRS() && len(fs.Sig) == 0 {
				t.Fatalf("the leader released %s but its state file holds no signature", m)
			}
		}
		mu.Lock()
		b := bad
		mu.Unlock()
		if b != "" {
			t.Fatalf("%s", b)
		}
		if t.Chance(1, 8) {
			t.Logf("restart leader")
			ld.Restart()
		}
	}
	if shares > 0 && sigs > 0 {
		t.NonTrivial(fmt.Sprint(t.Rendered()))
	}
}

func c05Saves(t *pbt.T) {
	file := filepath.Join(t.Scratch, "state.json")
	ss, err := signer.LoadOrCreateSignState(file)
	if err != nil {
		t.Fatalf("creating the state failed: %v", err)
	}
	workers := t.Range(1, 8)
	type save struct {
		h HRS
		m Msg
	}
	plans := make([][]save, workers)
	base := int64(1)
	for w := range plans {
		for i, k := 0, t.Range(2, 12); i < k; i++ {
			m := Msg{Kind: 1 + t.Intn(3), H: base + int64(t.Intn(8)), R: int64(t.Intn(3)), Block: t.Intn(3), TS: t.Intn(4)}
			if t.Chance(1, 3) {
				m.H += int64(i) * 2
			}
			plans[w] = append(plans[w], save{m.HRS(), m})
		}
		t.Logf("goroutine %d saves %d positions from %v", w, len(plans[w]), plans[w][0].h)
	}
	var lock sync.Mutex
	var stop int32
	var reads int
	watchErr := ""
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		var last HRS
		for {
			end := atomic.LoadInt32(&stop) == 1
			fs, err := readStateFile(file)
			if err != nil {
				watchErr = fmt.Sprintf("the file was unreadable while being saved: %v", err)
				return
			}
			if fs.HRS.Cmp(last) < 0 {
				watchErr = fmt.Sprintf("the file went back from %v to %v", last, fs.HRS)
				return
			}
			last = fs.HRS
			reads++
			if end {
				return
			}
		}
	}()
	var mu sync.Mutex
	var max HRS
	saved := map[HRS]string{}
	okBy := map[int]bool{}
	fails := ""
	var g pbt.Group
	for w := range plans {
		w := w
		g.Go(func() {
			for _, s := range plans[w] {
				sb := s.m.SignBytes()
				err := ss.Save(signer.SignStateConsensus{Height: s.h.H, Round: s.h.R, Step: int8(s.h.S), Signature: append([]byte{1}, sb...), SignBytes: sb}, &lock)
				if err != nil {
					continue
				}
				fs, ferr := readStateFile(file)
				mu.Lock()
				okBy[w] = true
				if s.h.Cmp(max) > 0 {
					max = s.h
				}
				if _, dup := saved[s.h]; dup {
					fails = fmt.Sprintf("two saves at %v succeeded", s.h)
				}
				saved[s.h] = strings.ToUpper(hex.EncodeToString(sb))
				if ferr != nil || fs.HRS.Cmp(s.h) < 0 {
					fails = fmt.Sprintf("Save(%v) returned but the file is at %v (%v)", s.h, fs.HRS, ferr)
				}
				mu.Unlock()
			}
		})
	}
	g.Wait()
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	if watchErr != "" {
		t.Fatalf("%s", watchErr)
	}
	if fails != "" {
		t.Fatalf("%s", fails)
	}
	fs, err := readStateFile(file)
	if err != nil || fs.HRS != max {
		t.Fatalf("after all saves the file is at %v (%v), the highest successful save was %v", fs.HRS, err, max)
	}
	if max != (HRS{}) && !strings.EqualFold(fs.SignBytes, saved[max]) {
		t.Fatalf("the file holds other sign bytes than saved at %v", max)
	}
	re, err := signer.LoadSignState(file)
	if err != nil || re.Height != max.H || re.Round != max.R || int(re.Step) != max.S {
		t.Fatalf("the file loads as %d/%d/%d (%v), saved %v", re.Height, re.Round, re.Step, err, max)
	}
	if len(okBy) >= 2 {
		t.NonTrivial("")
	}
}

// ---------- kill ----------

// c05Child signs an endless history with a ring of two cosigners and reports every share on stdout.
func c05Child(args []string) {
	dir := args[0]
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	for i := 0; i < 2; i++ {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		if err != nil {
			panic(err)
		}
		rsaPool = append(rsaPool, k)
	}
	rsaOnce.Do(func() {})
	var mode int
	p := &pbt.Property{ID: "child", Parts: []pbt.Part{{Name: "x", Quick: 1, Workers: 1, Timeout: time.Hour, Fn: func(t *pbt.T) {
		t.Scratch = dir
		ring := NewRing(t, 2, 2, nil)
		mode = t.Intn(2)
		m := Msg{Kind: 3, H: 0, R: 0}
		for {
			if t.Chance(1, 3) && m.Kind < 3 {
				m.Kind++
			} else {
				m.H++
				m.Kind = 1 + t.Intn(3)
			}
			m.Block, m.TS = t.Intn(3), t.Intn(4)
			var g pbt.Group
			reqs := map[int]signer.CosignerSetEphemeralSecretPartsAndSignRequest{}
			for _, id := range ring.IDs {
				_, _ = ring.Nodes[id].LC.GetEphemeralSecretParts(m.HRST())
			}
			for _, id := range ring.IDs {
				reqs[id] = signer.CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: ring.partsFor(t, id, others(ring.IDs, id), m.HRST()), HRST: m.HRST(), SignBytes: m.SignBytes()}
			}
			one := func(id int) {
				res, err := ring.Nodes[id].LC.SetEphemeralSecretPartsAndSign(reqs[id])
				if err == nil && len(res.Signature) > 0 {
					fmt.Fprintf(os.Stdout, "R %d %d %d %d %d %d\n", id, m.H, m.R, m.Kind, m.Block, m.TS)
				}
			}
			for _, id := range ring.IDs {
				id := id
				if mode == 0 {
					one(id)
				} else {
					g.Go(func() { one(id) })
				}
			}
			g.Wait()
		}
	}}}}
	pbt.Run(p, &pbt.Env{Tier: "quick", Seed: seed, Scratch: dir}, "")
}

func c05Kill(t *pbt.T) {
	seed := t.U64() >> 1
	want := t.Range(1, 60)
	extra := time.Duration(t.Intn(3000)) * time.Microsecond
	t.Logf("child seed %d killed %v after release %d", seed, extra, want)
	exe, err := os.Executable()
	pbt.Must(err)
	cmd := exec.Command(exe, "child", "c05", t.Scratch, fmt.Sprint(seed))
	out, err := cmd.StdoutPipe()
	pbt.Must(err)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	pbt.Must(cmd.Start())
	tm := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
	defer tm.Stop()
	last := map[int]Msg{}
	sc := bufio.NewScanner(out)
	n := 0
	for sc.Scan() {
		var id int
		var m Msg
		if k, _ := fmt.Sscanf(sc.Text(), "R %d %d %d %d %d %d", &id, &m.H, &m.R, &m.Kind, &m.Block, &m.TS); k != 6 {
			continue
		}
		last[id] = m
		n++
		if n == want {
			time.Sleep(extra)
			_ = cmd.Process.Kill()
		}
	}
	_ = cmd.Wait()
	if n < want {
		pbt.Harness("child ended early after %d releases: %s", n, stderr.String())
	}
	for id, m := range last {
		file := filepath.Join(t.Scratch, fmt.Sprintf("share_%d.json", id))
		if s := durable(file, m, fmt.Sprintf("killed cosigner %d", id)); s != "" {
			t.Fatalf("%s", s)
		}
		if _, err := signer.LoadSignState(file); err != nil {
			t.Fatalf("state file does not load after a kill: %v", err)
		}
	}
	t.NonTrivial("")
}

// ---------- unwritable ----------

func c05Unwritable(t *pbt.T) {
	n, th := drawNT(t, 3)
	ring := NewRing(t, n, th, nil)
	m := Msg{Kind: 1 + t.Intn(3), H: 1, Block: t.Intn(3), TS: t.Intn(4)}
	id := ring.IDs[t.Intn(n)]
	node := ring.Nodes[id]
	req := func(m Msg) signer.CosignerSetEphemeralSecretPartsAndSignRequest {
		from := pickSome(t, others(ring.IDs, id), th-1)
		return signer.CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: ring.partsFor(t, id, from, m.HRST()), HRST: m.HRST(), SignBytes: m.SignBytes()}
	}
	for i, k := 0, t.Intn(3); i < k; i++ {
		if _, err := node.LC.SetEphemeralSecretPartsAndSign(req(m)); err != nil {
			t.Fatalf("%s refused: %v", m, err)
		}
		m.H++
		m.Kind = 1 + t.Intn(3)
	}
	r := req(m)
	// make the state unwritable: its directory vanishes, or is replaced by a file
	pbt.Must(os.RemoveAll(t.Scratch))
	how := "directory gone"
	if t.Bool() {
		how = "directory is a file"
		pbt.Must(ioutil.WriteFile(t.Scratch, []byte("x"), 0600))
	}
	t.Logf("n=%d t=%d cosigner %d, %s, then %s", n, th, id, how, m)
	// a panic ends the process: nothing is released. An error must not be followed by a release either.
	for i := 0; i < 2; i++ {
		var res *signer.CosignerSignResponse
		var err error
		_, sut, raw := pbt.Catch(func() { res, err = node.LC.SetEphemeralSecretPartsAndSign(r) })
		if raw != nil {
			if !sut {
				panic(raw)
			}
			t.Label("process ends")
			break
		}
		if err == nil && len(res.Signature) > 0 {
			t.Fatalf("%s: a share was released although the state could not be written (%s, attempt %d)", m, how, i+1)
		}
	}
	pbt.Must(os.RemoveAll(t.Scratch))
	t.NonTrivial("")
}

func c05UnwritableLeader(t *pbt.T) {
	n, th := drawNT(t, 3)
	ring := NewRing(t, n, th, nil)
	ldID := ring.IDs[t.Intn(n)]
	rig := NewRig(t, ring, []int{ldID})
	ld := rig.Leaders[0]
	m := Msg{Kind: 1 + t.Intn(3), H: 1, Block: t.Intn(3), TS: t.Intn(4)}
	for i, k := 0, t.Intn(3); i < k; i++ {
		if rep := ld.Do(m, rig.Plan(ld, 0, 1, nil, false)); rep.err != nil {
			t.FatalfLive("%s refused: %v", m, rep.err)
		}
		m.H++
		m.Kind = 1 + t.Intn(3)
	}
	pbt.Must(os.RemoveAll(filepath.Dir(ld.PVFile)))
	t.Logf("n=%d t=%d leader %d, validator state directory gone, then %s", n, th, ldID, m)
	for i := 0; i < 2; i++ {
		rep := ld.Do(m, rig.Plan(ld, 0, 1, nil, false))
		if len(rep.sig) > 0 {
			t.Fatalf("%s: a signature was released although the state could not be written (attempt %d)", m, i+1)
		}
		if rep.panic != "" {
			t.Label("process ends")
			break
		}
	}
	t.NonTrivial("")
}

// c05Unannounced: the leader loses the raft quorum, so what it signs reaches nobody; it must be on its own disk.
func c05Unannounced(t *pbt.T) {
	n, th := drawNT(t, 4)
	ring := NewRing(t, n, th, nil)
	ldID := ring.IDs[t.Intn(n)]
	var rig Rig
	ld := newLeader(t, &rig, ring, ldID)
	x, ok := fieldOf(ld.store, reflect.TypeOf((*raft.Raft)(nil)), "")
	if !ok {
		t.Label("raft not reachable")
		return
	}
	t.Defer(func() { shutRaft(x.(*raft.Raft)) })
	g := MsgGen{Base: 1 + int64(t.Intn(50)), H: 1, R: 2, Chains: 1}.Wide(t)
	for i, k := 0, t.Intn(3); i < k; i++ {
		m := g.Draw(t)
		g.Base = m.H + 1
		rep := ld.Do(m, nil)
		t.Logf("%s -> %s", m, okErr(rep.err))
	}
	g.Base += 4
	// the requests, at rising positions or at the same one
	var ms []Msg
	for i, k := 0, t.Range(1, 3); i < k; i++ {
		m := g.Draw(t)
		if i > 0 && t.Chance(1, 3) {
			m = g.Mutate(t, ms[i-1])
		}
		ms = append(ms, m)
	}
	if !ld.isolate() {
		t.Label("raft not reachable")
		return
	}
	var mu sync.Mutex
	bad := ""
	released := 0
	var gr pbt.Group
	for i := range ms {
		m, wait := ms[i], time.Duration(t.Intn(60))*time.Millisecond
		gr.Go(func() {
			time.Sleep(wait)
			rep := signWith(ld.val, m)
			if rep.err != nil {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			if ring.verifies(m, rep.sig) {
				released++
				if s := durable(ld.PVFile, m, "the leader (without a raft quorum)"); s != "" && bad == "" {
					bad = s
				}
			} else if m.Kind != kProposal && bad == "" {
				bad = fmt.Sprintf("%s: released a signature that does not verify", m)
			}
		})
	}
	gr.Wait()
	t.Logf("n=%d t=%d leader %d without quorum: %v", n, th, ldID, ms)
	if bad != "" {
		t.Fatalf("%s", bad)
	}
	if released > 0 {
		t.NonTrivial(fmt.Sprint(t.CaseNo))
		t.Label("released")
	}
}
