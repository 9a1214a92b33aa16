package main

import (
	"bytes"
	"context"
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	raftadmin "github.com/Jille/raftadmin/proto"
	hproto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

func init() { registry["C14"] = propC14 }

func propC14() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C14",
		Rule: "a real cluster: 2..5 processes of the built binary, each configured by config init, with a key share, a state made by init and 1..2 sentries played by the harness, joined over loopback gRPC and raft. A drawn history of vote and " +
			"proposal requests to drawn members (new, repeated, other timestamp, conflicting, older; one at a time, the same message to all members at once, conflicting messages to several members at once), leadership transfers (gRPC or the elect " +
			"command; to a member, to nobody, to the leader itself, to unknown IDs), kill -9 of leaders and followers (idle or while requests are under way) down to a majority, restarts, and pauses (SIGSTOP and SIGCONT, so that a leader that has been replaced goes on with what it had begun). Oracle: valid signature for exactly the request, the same " +
			"signature for the same message while leader and term stay, one content per position over the whole history, new positions served by every member whenever a leader is established, the leader after a transfer, state files of all " +
			"members reaching the signed position. Non-trivial: a request was served by a member that is not the leader, and the leader changed. Distinct by choices.",
		Assumptions: []string{"messages between members are neither forged nor corrupted (unauthenticated transport)"},
		Parts: []pbt.Part{
			{Name: "cluster", Fn: c14Cluster, Quick: 130, Thorough: 1500, Workers: 24, QuickSecs: 40, ThoroughSecs: 3000, Timeout: 600 * time.Second},
		}}
}

type c14Member struct {
	c    *c14
	id   int
	home string
	addr string // host:port
	p    *hxProc
	ss   []*sentry
	cs   []*sconn
	busy []sync.Mutex
	conn *grpc.ClientConn

	paused bool
}

type c14 struct {
	t     *pbt.T
	ring  *Ring
	chain int
	ms    map[int]*c14Member
	ids   []int

	mu     sync.Mutex
	reqs   map[HRS][]Msg
	signed map[HRS]string // content
	top    HRS            // highest requested
	done   HRS            // highest signed
	sure   HRS            // highest signed by a leader that stayed one

	leader int
	term   string
	sigs   map[Msg][]byte // signatures released under this leader and term
	recent []Msg
}

func c14Cluster(t *pbt.T) {
	c := &c14{t: t, ms: map[int]*c14Member{}, reqs: map[HRS][]Msg{}, signed: map[HRS]string{}, chain: t.Intn(len(chains))}
	n, th := 3, 2
	switch t.Weighted(7, 1, 1, 1) {
	case 1:
		n, th = 2, 2
	case 2:
		n, th = 4, 3
	case 3:
		n, th = 5, 3
	}
	c.ring = NewRing(t, n, th, nil)
	c.ids = c.ring.IDs
	for _, id := range c.ids {
		c.ms[id] = &c14Member{c: c, id: id, home: filepath.Join(t.Scratch, fmt.Sprintf("home%d", id)), addr: fmt.Sprintf("127.0.0.1:%d", freePort())}
	}
	t.Logf("n=%d t=%d chain %s", n, th, chains[c.chain])
	var g pbt.Group
	for _, id := range c.ids {
		m := c.ms[id]
		for k := t.Weighted(0, 3, 1); k > 0; k-- {
			m.ss = append(m.ss, newSentry(t))
		}
		m.busy = make([]sync.Mutex, len(m.ss))
		g.Go(m.setup)
	}
	g.Wait()
	c.settle()
	served, leaders := false, map[int]bool{c.leader: true}
	g0 := MsgGen{Base: 1 + int64(t.Intn(3)), H: 2, R: 2, TS: len(tsPool)}.Wide(t)
	for steps := t.Range(3, 9); steps > 0; steps-- {
		if c.top.H > 0 {
			g0.Base = c.top.H
		}
		live := c.live()
		switch t.Weighted(8, 3, 3, 5, 4, 3, 4) {
		case 6:
			c.pause(g0)
		case 0:
			m := c.draw(g0)
			x := live[t.Intn(len(live))]
			served = c.one(x, m) && x != c.leader || served
		case 1: // through the others
			if len(c.recent) == 0 {
				continue
			}
			m := c.recent[len(c.recent)-1-t.Intn(minInt(3, len(c.recent)))]
			for _, i := range t.Perm(len(live)) {
				served = c.one(live[i], m) && live[i] != c.leader || served
			}
		case 2:
			c.batch(g0)
		case 3:
			c.transfer()
		case 4:
			c.kill(g0)
		case 5:
			var dead []int
			for _, id := range c.ids {
				if c.ms[id].p == nil {
					dead = append(dead, id)
				}
			}
			if len(dead) == 0 {
				continue
			}
			x := dead[t.Intn(len(dead))]
			t.Logf("restart %d", x)
			c.ms[x].start()
			c.settle()
			c.converge()
		}
		leaders[c.leader] = true
	}
	// a new position through every live member
	for _, id := range c.live() {
		m := Msg{Kind: kPrevote, H: c.top.H + 1, Block: 1, TS: 1, Chain: c.chain}
		served = c.one(id, m) && id != c.leader || served
	}
	c.converge()
	t.Label(fmt.Sprintf("served by a follower %v", served))
	t.Label(fmt.Sprintf("leaders %d", len(leaders)))
	if served && len(leaders) > 1 {
		t.NonTrivial("")
	}
}

func (c *c14) live() []int {
	var o []int
	for _, id := range c.ids {
		if c.ms[id].p != nil && !c.ms[id].paused {
			o = append(o, id)
		}
	}
	return o
}

// setup makes the home of a member and starts it.
func (m *c14Member) setup() {
	c := m.c
	t := c.t
	var peers, addrs []string
	for _, id := range c.ids {
		if id != m.id {
			peers = append(peers, fmt.Sprintf("tcp://%s|%d", c.ms[id].addr, id))
		}
	}
	for _, s := range m.ss {
		addrs = append(addrs, s.addr)
	}
	args := []string{"config", "init", chains[c.chain], strings.Join(addrs, ","), "--home", m.home, "--cosigner", "--threshold", fmt.Sprint(c.ring.T),
		"--listen", "tcp://" + m.addr, "--peers", strings.Join(peers, ","), "--timeout", "1500ms"}
	if r := runHX(t.Scratch, 60*time.Second, args...); r.code != 0 {
		t.Fatalf("config init fails: %s", r.out)
	}
	c.ring.writeShare(m.id, filepath.Join(m.home, "share.json"))
	m.start()
}

func (m *c14Member) start() { m.startIn(m.c.t.Scratch, "--home", m.home) }

// startIn starts the member with the given HOME and further arguments.
func (m *c14Member) startIn(dir string, args ...string) {
	t := m.c.t
	m.p = startHX(t, dir, append([]string{"cosigner", "start"}, args...)...)
	for _, s := range m.ss {
		for { // connections of a dead process
			raw, err := s.acceptRaw(0)
			if err != nil {
				break
			}
			raw.Close()
		}
	}
	m.cs = nil
	for _, s := range m.ss {
		var cn *sconn
		var err error
		for k := 0; k < 45; k++ {
			if cn, err = s.accept(time.Second); err == nil || !m.p.alive() {
				break
			}
		}
		if err != nil {
			if !m.p.alive() {
				if strings.Contains(m.p.output(), "address already in use") {
					pbt.Harness("address already in use")
				}
				t.Fatalf("cosigner %d ends (exit status %d): %s", m.id, m.p.code, tailStr(m.p.output(), 3000))
			}
			t.FatalfLive("cosigner %d does not connect to its sentry: %s", m.id, tailStr(m.p.output(), 2000))
		}
		m.cs = append(m.cs, cn)
	}
}

func (m *c14Member) stop() {
	m.p.kill()
	m.p = nil
	for _, cn := range m.cs {
		cn.close()
	}
	if m.conn != nil {
		m.conn.Close()
		m.conn = nil
	}
}

func (m *c14Member) grpc() *grpc.ClientConn {
	if m.conn == nil {
		cn, err := grpc.Dial(m.addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
		pbt.Must(err)
		m.conn = cn
	}
	return m.conn
}

// view is who this member takes for the leader and in which term it is.
func (m *c14Member) view() (leader, term string) {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	a := raftadmin.NewRaftAdminClient(m.grpc())
	l, err := a.Leader(ctx, &raftadmin.LeaderRequest{})
	if err != nil {
		return "", ""
	}
	s, err := a.Stats(ctx, &raftadmin.StatsRequest{})
	if err != nil {
		return "", ""
	}
	return l.GetAddress(), s.Stats["term"]
}

// agreed returns the live leader all live members agree on (0 if none) and the term.
func (c *c14) agreed() (int, string) {
	id, term := 0, ""
	for _, x := range c.live() {
		l, tm := c.ms[x].view()
		lid := 0
		for _, y := range c.live() {
			if c.ms[y].addr == l {
				lid = y
			}
		}
		if lid == 0 || id != 0 && (lid != id || tm != term) {
			return 0, ""
		}
		id, term = lid, tm
	}
	return id, term
}

// settle waits until the live members agree on a live leader.
func (c *c14) settle() {
	t := c.t
	var id int
	var term string
	good := 0
	ok := pbt.WaitUntil(45*time.Second, func() bool {
		c.alive()
		i, tm := c.agreed()
		if i == 0 || i != id || tm != term {
			id, term, good = i, tm, 0
		} else {
			good++
		}
		if good < 3 {
			time.Sleep(40 * time.Millisecond)
			return false
		}
		return true
	})
	if !ok {
		t.FatalfLive("members %v do not agree on a leader within 45 s", c.live())
	}
	if id != c.leader || term != c.term {
		c.leader, c.term = id, term
		c.sigs = map[Msg][]byte{}
		t.Label("established leaders")
	}
}

func (c *c14) alive() {
	for _, x := range c.live() {
		if m := c.ms[x]; !m.p.alive() {
			c.t.Fatalf("cosigner %d dies (exit status %d): %s", x, m.p.code, tailStr(m.p.output(), 4000))
		}
	}
}

// same tells whether the leader is still the one established before.
func (c *c14) same() bool {
	id, term := c.agreed()
	return id == c.leader && term == c.term
}

func (c *c14) draw(g MsgGen) Msg {
	t := c.t
	var m Msg
	switch t.Weighted(5, 4, 1) {
	case 0:
		m = g.Draw(t)
		m.H = c.top.H + 1 + int64(t.Weighted(5, 1))
	case 1:
		if len(c.recent) > 0 {
			m = g.Mutate(t, c.recent[len(c.recent)-1-t.Intn(minInt(4, len(c.recent)))])
		} else {
			m = g.Draw(t)
		}
	case 2:
		m = g.Draw(t)
	}
	m.Chain = c.chain
	return m
}

// ask sends m to a member over one of its sentries' connections.
func (c *c14) ask(x int, m Msg, k int) (a answer, lost bool) {
	mb := c.ms[x]
	k %= len(mb.cs)
	mb.busy[k].Lock()
	defer mb.busy[k].Unlock()
	cn := mb.cs[k]
	if err := cn.write(frame(msgReq(m))); err != nil {
		return a, true
	}
	r, _ := cn.recv(c15Wait)
	if r == nil {
		return a, true
	}
	a, wrong := answerTo(m, chains[c.chain], r)
	if wrong != "" {
		c.t.Fatalf("member %d: %s", x, wrong)
	}
	return a, false
}

func (c *c14) note(m Msg) {
	c.mu.Lock()
	c.reqs[m.HRS()] = append(c.reqs[m.HRS()], m)
	if m.HRS().Cmp(c.top) > 0 {
		c.top = m.HRS()
	}
	c.mu.Unlock()
}

// take judges a released signature.
func (c *c14) take(x int, m Msg, a answer) {
	c.mu.Lock()
	defer c.mu.Unlock()
	var what *Msg
	if c.ring.verifies(m, a.sig) {
		what = &m
	} else if m.Kind == kProposal {
		for i, q := range c.reqs[m.HRS()] {
			if c.ring.verifies(q, a.sig) {
				what = &c.reqs[m.HRS()][i]
			}
		}
	}
	if what == nil {
		c.t.Fatalf("member %d answers %s with a signature that is not valid for it", x, m)
	}
	if !a.ts.Equal(m.Time()) {
		c.t.Fatalf("member %d answers %s with another time: %v", x, m, a.ts)
	}
	if old, ok := c.signed[m.HRS()]; ok && old != what.Content() {
		c.t.Fatalf("signatures released for conflicting messages at %+v: %q and %q", m.HRS(), old, what.Content())
	}
	c.signed[m.HRS()] = what.Content()
	if m.HRS().Cmp(c.done) > 0 {
		c.done = m.HRS()
	}
	c.recent = append(c.recent, *what)
}

// one sends a single request while a leader is established; true if it is signed.
func (c *c14) one(x int, m Msg) bool {
	t := c.t
	c.note(m)
	top, done := c.prevTop(m), c.done
	t.Logf("%s to %d (leader %d)", m, x, c.leader)
	k := t.Intn(2)
	a, lost := c.ask(x, m, k)
	if lost {
		c.alive()
		t.FatalfLive("member %d does not answer %s", x, m)
	}
	stays := c.same()
	old, again := c.sigs[m]
	_, was := c.signed[m.HRS()]
	if a.err != "" {
		t.Label("refused")
		if !stays {
			c.settle()
			return false
		}
		if m.HRS().Cmp(top) > 0 {
			t.FatalfLive("member %d (leader %d) refuses %s above everything requested (%v): %s", x, c.leader, m, top, a.err)
		}
		if again && m.H >= done.H-2 {
			t.FatalfLive("member %d (leader %d) refuses to repeat the signature of %s: %s", x, c.leader, m, a.err)
		}
		return false
	}
	c.take(x, m, a)
	if !was && m.HRS().Cmp(done) < 0 {
		t.Fatalf("member %d signs %s below the signed %v", x, m, done)
	}
	if stays {
		if !was && m.HRS().Cmp(c.sure) > 0 {
			c.sure = m.HRS()
		}
		if again && !bytes.Equal(old, a.sig) {
			// another signature is possible only for a vote signed for several times, at the latest position
			if m.HRS() != done || m.Kind == kProposal || !c.variants(m) {
				t.Fatalf("member %d answers %s with another signature than before under the same leader %d", x, m, c.leader)
			}
		}
		if !again && !was {
			c.sigs[m] = a.sig
		}
	} else {
		c.settle()
	}
	t.Label("signed")
	return true
}

// prevTop is the highest position requested apart from one request for m.
func (c *c14) prevTop(m Msg) HRS {
	var top HRS
	for h, ms := range c.reqs {
		if h == m.HRS() && len(ms) == 1 {
			continue
		}
		if h.Cmp(top) > 0 {
			top = h
		}
	}
	return top
}

func (c *c14) variants(m Msg) bool {
	for _, q := range c.reqs[m.HRS()] {
		if q != m && q.Content() == m.Content() {
			return true
		}
	}
	return false
}

// batch sends requests to several members at once.
func (c *c14) batch(g MsgGen) {
	t := c.t
	live := c.live()
	m := c.draw(g)
	m.H = c.top.H + 1
	equal := t.Bool()
	type job struct {
		x, k int
		m    Msg
		a    answer
		lost bool
	}
	var jobs []*job
	for _, x := range live {
		for k := range c.ms[x].cs {
			if k > 0 && t.Bool() {
				continue
			}
			j := &job{x: x, k: k, m: m}
			if !equal && len(jobs) > 0 {
				j.m = g.Mutate(t, m)
				j.m.Chain = c.chain
			}
			t.Logf("at once: %s to %d (leader %d)", j.m, x, c.leader)
			jobs = append(jobs, j)
		}
	}
	for _, j := range jobs {
		c.note(j.m)
	}
	done := c.done
	var gr pbt.Group
	for _, j := range jobs {
		j := j
		gr.Go(func() { j.a, j.lost = c.ask(j.x, j.m, j.k) })
	}
	gr.Wait()
	stays := c.same()
	var hi HRS
	for _, j := range jobs {
		if j.m.HRS().Cmp(hi) > 0 {
			hi = j.m.HRS()
		}
	}
	okHi, errs := false, ""
	for _, j := range jobs {
		if j.lost {
			c.alive()
			t.FatalfLive("member %d does not answer %s", j.x, j.m)
		}
		if j.a.err != "" {
			errs = fmt.Sprintf("member %d: %s", j.x, j.a.err)
			continue
		}
		if _, was := c.signed[j.m.HRS()]; !was && j.m.HRS().Cmp(done) < 0 {
			t.Fatalf("member %d signs %s below the signed %v", j.x, j.m, done)
		}
		c.take(j.x, j.m, j.a)
		okHi = okHi || j.m.HRS() == hi
		if stays && equal {
			if old, ok := c.sigs[j.m]; ok && !bytes.Equal(old, j.a.sig) {
				t.Fatalf("the same request %s gets different signatures under the same leader %d", j.m, c.leader)
			}
			c.sigs[j.m] = j.a.sig
		}
	}
	if !stays {
		c.settle()
		return
	}
	for _, j := range jobs {
		if j.a.err == "" && j.m.HRS().Cmp(done) > 0 && j.m.HRS().Cmp(c.sure) > 0 {
			c.sure = j.m.HRS()
		}
	}
	if equal && errs != "" {
		t.FatalfLive("the same new request %s to all members (leader %d) fails: %s", m, c.leader, errs)
	}
	if !okHi {
		t.FatalfLive("none of the requests at %v is served (leader %d): %s", hi, c.leader, errs)
	}
	t.Label("batch")
}

// transfer asks for another leader.
func (c *c14) transfer() {
	t := c.t
	live := c.live()
	rest := others(live, c.leader)
	if !c.same() {
		c.settle()
		return
	}
	arg, want := "", 0
	kind := t.Weighted(4, 2, 1, 2)
	switch kind {
	case 0:
		want = rest[t.Intn(len(rest))]
		arg = fmt.Sprint(want)
	case 1:
		if len(live) < len(c.ids) {
			return
		}
	case 2:
		arg = fmt.Sprint(c.leader)
	case 3:
		arg = []string{"0", "-1", fmt.Sprint(len(c.ids) + 1), "99", "x", "1 ", "١", "01", "+1", c.ms[rest[0]].addr, "tcp://" + c.ms[rest[0]].addr}[t.Intn(11)]
	}
	cli := t.Chance(1, 2)
	from := live[t.Intn(len(live))] // whose configuration the command uses
	t.Logf("transfer from %d to %q, command %v", c.leader, arg, cli)
	var fails bool
	var out string
	if cli {
		args := []string{"elect", "--home", c.ms[from].home}
		if kind != 1 {
			args = append(args, "--", arg)
		}
		r := runHX(t.Scratch, 60*time.Second, args...)
		if r.timedOut {
			t.FatalfLive("elect %q does not end: %s", arg, r.out)
		}
		if r.crashed {
			t.Fatalf("elect %q crashes: %s", arg, tailStr(r.out, 2000))
		}
		fails, out = r.code != 0, r.out
	} else {
		x := c.leader
		if kind >= 2 && t.Chance(1, 3) {
			x = from
		}
		if kind == 2 && x != c.leader {
			t.Label("leader named to a follower")
		}
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		_, err := hproto.NewCosignerGRPCClient(c.ms[x].grpc()).TransferLeadership(ctx, &hproto.CosignerGRPCTransferLeadershipRequest{LeaderID: arg})
		cancel()
		fails, out = err != nil, fmt.Sprint(err)
	}
	if kind == 3 && !fails {
		t.Fatalf("transferring the leadership to unknown member %q reports success: %s", arg, out)
	}
	if kind < 3 && fails {
		t.FatalfLive("transferring the leadership from %d to %q fails: %s", c.leader, arg, out)
	}
	t.Label([]string{"transfer to a member", "transfer to anyone", "transfer to the leader", "transfer to unknown"}[kind])
	old := c.leader
	if kind >= 2 {
		time.Sleep(time.Duration(300+t.Intn(1500)) * time.Millisecond)
		if l, _ := c.agreed(); l != old {
			c.settle()
			t.FatalfLive("after a request to transfer the leadership to %q the leader is %d instead of %d", arg, l, old)
		}
		return
	}
	if !pbt.WaitUntil(20*time.Second, func() bool {
		c.alive()
		l, _ := c.agreed()
		return l != 0 && l != old && (want == 0 || l == want)
	}) {
		c.settle()
		t.FatalfLive("after a request to transfer the leadership from %d to %q the leader is %d", old, arg, c.leader)
	}
	c.settle()
}

// kill ends a member at once, possibly while requests are under way.
func (c *c14) kill(g MsgGen) {
	t := c.t
	live := c.live()
	need := len(c.ids)/2 + 1
	if c.ring.T > need {
		need = c.ring.T
	}
	if len(live) <= need {
		return
	}
	x := c.leader
	if t.Chance(1, 3) {
		x = live[t.Intn(len(live))]
	}
	during := t.Intn(4)
	if during == 0 {
		t.Logf("kill %d (leader %d)", x, c.leader)
		c.ms[x].stop()
	} else {
		m := c.draw(g)
		if t.Bool() {
			m.H = c.top.H + 1
		}
		d := time.Duration(t.Intn(30000)) * time.Microsecond
		type job struct {
			x int
			m Msg
			a answer
			l bool
		}
		var jobs []*job
		for i, y := range live {
			j := &job{x: y, m: m}
			if i > 0 && t.Chance(1, 3) {
				j.m = g.Mutate(t, m)
				j.m.Chain = c.chain
			}
			c.note(j.m)
			t.Logf("before a kill: %s to %d", j.m, y)
			jobs = append(jobs, j)
		}
		t.Logf("kill %d (leader %d) after %v", x, c.leader, d)
		var gr pbt.Group
		for _, j := range jobs {
			j := j
			gr.Go(func() { j.a, j.l = c.ask(j.x, j.m, 0) })
		}
		time.Sleep(d)
		pr := c.ms[x].p
		pr.kill()
		gr.Wait()
		c.ms[x].stop()
		for _, j := range jobs {
			if j.l && j.x != x {
				c.alive()
				t.FatalfLive("member %d does not answer %s", j.x, j.m)
			}
			if !j.l && j.a.err == "" {
				c.take(j.x, j.m, j.a)
				t.Label("signed during a kill")
			}
		}
	}
	if x == c.leader {
		t.Label("leader killed")
	} else {
		t.Label("follower killed")
	}
	if during == 1 { // at once, while nobody leads: anything but a conflict
		m := c.draw(g)
		y := c.live()[t.Intn(len(c.live()))]
		c.note(m)
		t.Logf("right after the kill: %s to %d", m, y)
		if a, lost := c.ask(y, m, 0); !lost && a.err == "" {
			c.take(y, m, a)
			t.Label("signed right after a kill")
		} else if lost {
			c.alive()
			t.FatalfLive("member %d does not answer %s", y, m)
		}
	}
	c.settle()
}

// pause stops a member without ending it, and lets it go on later: a leader then still takes itself for the leader.
func (c *c14) pause(g MsgGen) {
	t := c.t
	live := c.live()
	need := len(c.ids)/2 + 1
	if c.ring.T > need {
		need = c.ring.T
	}
	enough := len(live) > need
	if !enough && t.Chance(2, 3) {
		return
	}
	x := c.leader
	if t.Chance(1, 3) {
		x = live[t.Intn(len(live))]
	}
	mb := c.ms[x]
	type job struct {
		x    int
		m    Msg
		a    answer
		lost bool
	}
	var jobs []*job
	var gr pbt.Group
	send := func(y int, m Msg, when string) {
		j := &job{x: y, m: m}
		jobs = append(jobs, j)
		c.note(m)
		t.Logf("%s: %s to %d (leader %d)", when, m, y, c.leader)
		gr.Go(func() { j.a, j.lost = c.ask(j.x, j.m, 0) })
	}
	m := c.draw(g)
	m.H = c.top.H + 1
	before, after := t.Bool(), t.Bool()
	if before {
		send(x, m, "before a pause")
		time.Sleep(time.Duration(t.Intn(20000)) * time.Microsecond)
	}
	t.Logf("pause %d (leader %d)", x, c.leader)
	pbt.Must(mb.p.cmd.Process.Signal(syscall.SIGSTOP))
	mb.paused = true
	was := c.leader == x
	if after && !before { // waits in the member's connection
		q := g.Mutate(t, m)
		q.Chain, q.H = c.chain, m.H
		send(x, q, "during a pause")
	}
	if enough {
		c.settle()
		for k := t.Range(1, 3); k > 0; k-- {
			y := c.live()[t.Intn(len(c.live()))]
			q := m
			switch t.Intn(3) {
			case 0:
				q = g.Mutate(t, m)
				q.Chain = c.chain
			case 1:
				q.H = c.top.H + 1
			}
			// the request under way at the paused member may be at the same position
			if before || after {
				c.note(q)
				t.Logf("%s to %d (leader %d)", q, y, c.leader)
				a, lost := c.ask(y, q, 1)
				if lost {
					c.alive()
					t.FatalfLive("member %d does not answer %s", y, q)
				}
				if a.err == "" {
					c.take(y, q, a)
					t.Label("signed during a pause")
				}
			} else {
				c.one(y, q)
			}
		}
	} else {
		for _, y := range c.live() {
			q := m
			q.H = c.top.H + 1
			send(y, q, "without enough members")
		}
		time.Sleep(time.Duration(t.Intn(5000)) * time.Millisecond)
	}
	pbt.Must(mb.p.cmd.Process.Signal(syscall.SIGCONT))
	mb.paused = false
	t.Logf("resume %d", x)
	gr.Wait()
	for _, j := range jobs {
		if j.lost {
			c.alive()
			t.FatalfLive("member %d does not answer %s", j.x, j.m)
		}
		if j.a.err == "" {
			c.take(j.x, j.m, j.a)
			t.Label("signed across a pause")
		}
	}
	if was {
		t.Label("leader paused")
	} else {
		t.Label("follower paused")
	}
	if !enough {
		t.Label("quorum paused")
	}
	c.settle()
}

// converge waits until both state files of all live members have reached the highest position signed by a leader that stayed one (what a deposed one signs it may fail to announce).
func (c *c14) converge() {
	t := c.t
	if !c.same() || c.sure.H == 0 {
		return
	}
	behind := ""
	ok := pbt.WaitUntil(20*time.Second, func() bool {
		behind = ""
		for _, x := range c.live() {
			for _, f := range []string{"priv_validator", "share_sign"} {
				suffix := map[string]string{"priv_validator": "_priv_validator_state.json", "share_sign": "_share_sign_state.json"}[f]
				fs, err := readStateFile(filepath.Join(c.ms[x].home, "state", chains[c.chain]+suffix))
				if err != nil {
					t.Fatalf("state file of member %d: %v", x, err)
				}
				if fs.HRS.Cmp(c.sure) < 0 {
					behind = fmt.Sprintf("the %s state of member %d is at %v", f, x, fs.HRS)
				}
			}
		}
		return behind == ""
	})
	if !ok {
		t.FatalfLive("%s although %v is signed", behind, c.sure)
	}
}
