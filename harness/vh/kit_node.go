package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"sync"
	"syscall"
	"time"

	raftadmin "github.com/Jille/raftadmin/proto"
	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

// ---------- ports ----------

var (
	portMu   sync.Mutex
	portUsed = map[int]bool{}
	portRand = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<20))
)

// freePort gives a port below the ephemeral range that nobody listens on.
func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for i := 0; i < 20000; i++ {
		p := 10000 + portRand.Intn(22000)
		if portUsed[p] {
			continue
		}
		// an abstract socket that lives as long as this process reserves the port among processes of the harness
		if _, err := net.Listen("unix", fmt.Sprintf("@verif-port-%d", p)); err != nil {
			continue
		}
		portUsed[p] = true
		ok := true
		for _, a := range []string{":%d", "127.0.0.1:%d"} {
			l, err := net.Listen("tcp", fmt.Sprintf(a, p))
			if err != nil {
				ok = false
				break
			}
			l.Close()
		}
		if !ok {
			continue
		}
		return p
	}
	pbt.Harness("no free port")
	return 0
}

// ---------- cosigner processes ----------

// nodeCfg describes one cosigner process.
type nodeCfg struct {
	ID      int
	Total   int
	T       int
	Home    string
	Listen  string
	Peers   map[int]string
	KeyFile string
	Timeout int  // raft timeout, ms
	Alone   bool // the raft store does not include the peers
}

func (c nodeCfg) pvFile() string    { return filepath.Join(c.Home, "pv.json") }
func (c nodeCfg) shareFile() string { return filepath.Join(c.Home, "share.json") }

type nodeReq struct {
	N    int
	Op   string
	Key  string
	Val  string
	Data []byte
	Msg  Msg
}

type nodeRes struct {
	N     int
	Err   string
	Val   string
	Sig   []byte
	Panic string // the returned message differs from the request
}

func init() { children["node"] = nodeChild }

// nodeChild is a cosigner process: what cosigner start assembles, controlled over stdin/stdout instead of sentries.
func nodeChild(args []string) {
	var c nodeCfg
	if err := json.Unmarshal([]byte(args[0]), &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "NODE-ERROR", err)
			os.Exit(4)
		}
	}
	out := os.NewFile(uintptr(dupFd(1)), "out")
	// what the code under test prints must not mix with the protocol
	os.Stdout = os.Stderr
	key, err := signer.LoadCosignerKey(c.KeyFile)
	die(err)
	pv, err := signer.LoadOrCreateSignState(c.pvFile())
	die(err)
	sh, err := signer.LoadSignState(c.shareFile())
	die(err)
	peers := []signer.CosignerPeer{{ID: key.ID, PublicKey: key.RSAKey.PublicKey}}
	var cos []signer.Cosigner
	var ids []int
	for id := range c.Peers {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		cos = append(cos, signer.NewRemoteCosigner(id, c.Peers[id]))
		peers = append(peers, signer.CosignerPeer{ID: id, PublicKey: *key.CosignerKeys[id-1]})
	}
	lc := signer.NewLocalCosigner(signer.LocalCosignerConfig{CosignerKey: key, SignState: &sh, RsaKey: key.RSAKey, Address: c.Listen, Peers: peers, Total: uint8(c.Total), Threshold: uint8(c.T)})
	die(os.MkdirAll(filepath.Join(c.Home, "raft"), 0700))
	raftPeers := cos
	if c.Alone {
		raftPeers = nil
	}
	st := signer.NewRaftStore(fmt.Sprint(key.ID), filepath.Join(c.Home, "raft"), c.Listen, time.Duration(c.Timeout)*time.Millisecond, nopLogger{}, lc, raftPeers)
	val := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: key.PubKey, Threshold: c.T, SignState: pv, Cosigner: lc, Peers: cos, RaftStore: st, Logger: nopLogger{}})
	st.SetThresholdValidator(val)
	die(st.Start())
	guard := &signer.PvGuard{PrivValidator: val}

	var wm sync.Mutex
	w := json.NewEncoder(out)
	reply := func(r nodeRes) {
		wm.Lock()
		_ = w.Encode(r)
		wm.Unlock()
	}
	reply(nodeRes{N: -1})
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	for {
		var q nodeReq
		if err := dec.Decode(&q); err != nil {
			os.Exit(0)
		}
		go func(q nodeReq) {
			r := nodeRes{N: q.N}
			var err error
			switch q.Op {
			case "get":
				r.Val, err = st.Get(q.Key)
			case "set":
				err = st.Set(q.Key, q.Val)
			case "emit":
				err = st.Emit(q.Key, json.RawMessage(q.Val))
			case "del":
				err = st.Delete(q.Key)
			case "leader":
				r.Val = string(st.GetLeader())
			case "sign":
				rep := signWith(guard, q.Msg)
				err, r.Sig, r.Panic = rep.err, rep.sig, rep.panic
			}
			if err != nil {
				r.Err = err.Error()
			}
			reply(r)
		}(q)
	}
}

func dupFd(fd int) int {
	n, err := syscall.Dup(fd)
	if err != nil {
		panic(err)
	}
	return n
}

// proc is a running cosigner process.
type proc struct {
	cfg    nodeCfg
	cmd    *exec.Cmd
	in     io.WriteCloser
	wm     sync.Mutex
	mu     sync.Mutex
	wait   map[int]chan nodeRes
	n      int
	dead   chan struct{}
	errOut *bytes.Buffer
	killed bool
	conn   *grpc.ClientConn
}

var errDead = errors.New("the process ended")

// startNode starts a cosigner process and waits until it listens.
func startNode(t *pbt.T, c nodeCfg) *proc {
	b, err := json.Marshal(c)
	pbt.Must(err)
	self, err := os.Executable()
	pbt.Must(err)
	p := &proc{cfg: c, wait: map[int]chan nodeRes{}, dead: make(chan struct{}), errOut: &bytes.Buffer{}}
	p.cmd = exec.Command(self, "child", "node", string(b))
	p.cmd.Dir = c.Home
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p.in, err = p.cmd.StdinPipe()
	pbt.Must(err)
	so, err := p.cmd.StdoutPipe()
	pbt.Must(err)
	var em sync.Mutex
	p.cmd.Stderr = &lockedWriter{b: p.errOut, m: &em}
	ready := make(chan nodeRes, 1)
	p.wait[-1] = ready
	pbt.Must(p.cmd.Start())
	go func() {
		dec := json.NewDecoder(so)
		for {
			var r nodeRes
			if dec.Decode(&r) != nil {
				break
			}
			p.mu.Lock()
			ch := p.wait[r.N]
			delete(p.wait, r.N)
			p.mu.Unlock()
			if ch != nil {
				ch <- r
			}
		}
		_ = p.cmd.Wait()
		close(p.dead)
	}()
	t.Defer(p.kill)
	select {
	case <-ready:
	case <-p.dead:
		out := p.stderr()
		if bytes.Contains([]byte(out), []byte("address already in use")) {
			pbt.Harness("address already in use")
		}
		t.Fatalf("cosigner process %d does not start: %s", c.ID, tailStr(out, 3000))
	case <-time.After(60 * time.Second):
		p.kill()
		t.FatalfLive("cosigner process %d does not start within 60 s: %s", c.ID, tailStr(p.stderr(), 3000))
	}
	return p
}

type lockedWriter struct {
	b *bytes.Buffer
	m *sync.Mutex
}

func (l *lockedWriter) Write(p []byte) (int, error) {
	l.m.Lock()
	defer l.m.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (p *proc) stderr() string {
	lw := p.cmd.Stderr.(*lockedWriter)
	lw.m.Lock()
	defer lw.m.Unlock()
	return lw.b.String()
}

func tailStr(s string, n int) string {
	// a Go crash report begins with the reason
	for _, k := range []string{"panic: ", "fatal error: "} {
		if i := bytes.Index([]byte(s), []byte(k)); i >= 0 {
			s = s[i:]
			if len(s) > n {
				s = s[:n]
			}
			return s
		}
	}
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// kill ends the process at once.
func (p *proc) kill() {
	p.mu.Lock()
	p.killed = true
	if p.conn != nil {
		p.conn.Close()
		p.conn = nil
	}
	p.mu.Unlock()
	_ = p.cmd.Process.Kill()
	<-p.dead
}

func (p *proc) alive() bool {
	select {
	case <-p.dead:
		return false
	default:
		return true
	}
}

// call sends one request; the answer or errDead.
func (p *proc) call(q nodeReq, timeout time.Duration) (nodeRes, error) {
	ch := make(chan nodeRes, 1)
	p.mu.Lock()
	p.n++
	q.N = p.n
	p.wait[q.N] = ch
	p.mu.Unlock()
	b, err := json.Marshal(q)
	pbt.Must(err)
	p.wm.Lock()
	_, err = p.in.Write(append(b, '\n'))
	p.wm.Unlock()
	if err != nil {
		<-p.dead
		return nodeRes{}, errDead
	}
	select {
	case r := <-ch:
		return r, nil
	case <-p.dead:
		select {
		case r := <-ch:
			return r, nil
		default:
		}
		return nodeRes{}, errDead
	case <-time.After(timeout):
		return nodeRes{}, context.DeadlineExceeded
	}
}

// do is call for a process that must stay alive and answer.
func (p *proc) do(t *pbt.T, q nodeReq, timeout time.Duration) nodeRes {
	r, err := p.call(q, timeout)
	if err == errDead {
		t.Fatalf("cosigner process %d died during %s: %s", p.cfg.ID, q.Op, tailStr(p.stderr(), 4000))
	}
	if err != nil {
		t.FatalfLive("cosigner process %d does not answer %s within %v", p.cfg.ID, q.Op, timeout)
	}
	return r
}

// admin gives the raft administration client of the process.
func (p *proc) grpcConn() *grpc.ClientConn {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.conn == nil {
		c, err := grpc.Dial(p.cfg.Listen[len("tcp://"):], grpc.WithTransportCredentials(insecure.NewCredentials()))
		pbt.Must(err)
		p.conn = c
	}
	return p.conn
}

// awaitFuture waits for a raft administration operation; empty means success.
func (p *proc) awaitFuture(f *raftadmin.Future, err error) (string, error) {
	if err != nil {
		return "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	r, err := raftadmin.NewRaftAdminClient(p.grpcConn()).Await(ctx, f)
	if err != nil {
		return "", err
	}
	return r.GetError(), nil
}

func (p *proc) applyLog(data []byte) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	return p.awaitFuture(raftadmin.NewRaftAdminClient(p.grpcConn()).ApplyLog(ctx, &raftadmin.ApplyLogRequest{Data: data}))
}

func (p *proc) snapshot() (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	return p.awaitFuture(raftadmin.NewRaftAdminClient(p.grpcConn()).Snapshot(ctx, &raftadmin.SnapshotRequest{}))
}

// waitLeader waits until the process leads and has applied everything committed before.
func (p *proc) waitLeader(t *pbt.T) {
	var last string
	ok := pbt.WaitUntil(60*time.Second, func() bool {
		r := p.do(t, nodeReq{Op: "set", Key: "barrier", Val: "x"}, 20*time.Second)
		last = r.Err
		return r.Err == ""
	})
	if !ok {
		t.FatalfLive("cosigner process %d does not become leader: %s", p.cfg.ID, last)
	}
}

// writeShare writes the share file of a ring member without the code under test.
func (r *Ring) writeShare(id int, file string) {
	b, err := json.Marshal(rawKey(r.Keys[id], false))
	pbt.Must(err)
	pbt.Must(ioutil.WriteFile(file, b, 0600))
}
