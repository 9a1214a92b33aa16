def demo(imports, body, after='', pkg='signer'):
    return 'package %s\n\nimport (\n%s)\n\nfunc TestDemo(t *testing.T) {\n' % (pkg, ''.join(('\t%s\n' if ' ' in i else '\t"%s"\n') % i for i in imports)) + body + '}\n' + after
LC = 'signer/local_cosigner.go'
SS = 'signer/sign_state.go'
TV = 'signer/threshold_validator.go'
CF = 'cmd/horcrux/cmd/config.go'
CMD = 'cmd/horcrux/cmd'
BUILD = '''work=$(mktemp -d)
trap 'pkill -9 -P $$ 2>/dev/null; rm -rf "$work"' EXIT
go build -o "$work/hx" ./cmd/horcrux || exit 3
hx() { "$work/hx" "$@"; }
fail() { echo "FAIL: $*"; exit 1; }
'''
KIT2 = '''package signer

import (
	"net"
	"time"

	"github.com/strangelove-ventures/horcrux/signer/proto"
	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

type dVoteType = tmProto.Vote
type dProposalType = tmProto.Proposal
type dCanonicalVote = tmProto.CanonicalVote

func dDialer() net.Dialer { return net.Dialer{Timeout: time.Second} }

func dVoteRequest(v *tmProto.Vote, chain string) tmProtoPrivval.Message {
	return tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignVoteRequest{
		SignVoteRequest: &tmProtoPrivval.SignVoteRequest{Vote: v, ChainId: chain}}}
}

func dSignRequest(hrst HRSTKey, signBytes []byte) *proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest {
	return &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: hrst.toProto(), SignBytes: signBytes}
}
'''
# an in-process cluster of three nodes
KIT3 = '''package signer

import (
	"fmt"
	"net"
	"path/filepath"
	"testing"
	"time"

	"github.com/hashicorp/raft"
	tmlog "github.com/tendermint/tendermint/libs/log"
)

type dNode struct {
	store *RaftStore
	val   *ThresholdValidator
	local *LocalCosigner
}

func dCluster(t *testing.T, r *dRing) (nodes []*dNode) {
	n := len(r.keys)
	var addrs []string
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		addrs = append(addrs, fmt.Sprintf("tcp://127.0.0.1:%d", l.Addr().(*net.TCPAddr).Port))
		defer l.Close()
	}
	for i := 0; i < n; i++ {
		local := r.cosigner(t, i+1)
		var peers []Cosigner
		for j := 0; j < n; j++ {
			if j != i {
				peers = append(peers, NewRemoteCosigner(j+1, addrs[j]))
			}
		}
		state, err := LoadOrCreateSignState(filepath.Join(r.dir, fmt.Sprintf("%d_priv.json", i)))
		if err != nil {
			t.Fatal(err)
		}
		logger := tmlog.NewNopLogger()
		store := NewRaftStore(fmt.Sprint(i+1), dTemp(t), addrs[i], time.Second, logger, local, peers)
		val := NewThresholdValidator(&ThresholdValidatorOpt{
			Pubkey: r.priv.PubKey(), Threshold: r.threshold, SignState: state, Cosigner: local, Peers: peers, RaftStore: store, Logger: logger,
		})
		store.SetThresholdValidator(val)
		nodes = append(nodes, &dNode{store, val, local})
	}
	return
}

func dStart(t *testing.T, nodes []*dNode) {
	for _, n := range nodes {
		var err error
		for i := 0; i < 20; i++ {
			if err = n.store.OnStart(); err == nil {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		if err != nil {
			t.Fatal(err)
		}
	}
	dLeader(t, nodes)
}

// dLeader waits for the nodes to agree on a leader among them
func dLeader(t *testing.T, nodes []*dNode) *dNode {
	for i := 0; i < 400; i++ {
		for _, l := range nodes {
			if l.store.raft.State() != raft.Leader {
				continue
			}
			agree := true
			for _, n := range nodes {
				agree = agree && n.store.GetLeader() != "" && n.store.GetLeader() == l.store.GetLeader()
			}
			if agree {
				return l
			}
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("no leader")
	return nil
}

func dLatest(s *SignState, n *dNode) HRSKey {
	hrs, _ := s.GetFromCache(HRSKey{}, nil)
	return hrs
}
'''
# a client for the single signer binary
SINGLE = '''package cmd

import (
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
	"time"

	"github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/libs/log"
	"github.com/tendermint/tendermint/privval"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
)

type dSingle struct {
	home    string
	clients []*privval.SignerClient
}

// dStartSingle starts a single signer for the chain with the given sentries and state
func dStartSingle(t *testing.T, chain, state string, sentries int) *dSingle {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	bin := filepath.Join(dir, "hx")
	if out, err := exec.Command("go", "build", "-o", bin, "github.com/strangelove-ventures/horcrux/cmd/horcrux").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	s := &dSingle{home: filepath.Join(dir, "home")}
	nodes := ""
	for i := 0; i < sentries; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		if i > 0 {
			nodes += ","
		}
		nodes += "tcp://" + ln.Addr().String()
		ep := privval.NewSignerListenerEndpoint(log.NewNopLogger(), privval.NewTCPListener(ln, ed25519.GenPrivKey()))
		c, err := privval.NewSignerClient(ep, chain)
		if err != nil {
			t.Fatal(err)
		}
		s.clients = append(s.clients, c)
	}
	if out, err := exec.Command(bin, "--home", s.home, "config", "init", chain, nodes).CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	stateFile := filepath.Join(s.home, "state", chain+"_priv_validator_state.json")
	if state != "" {
		if err := ioutil.WriteFile(stateFile, []byte(state), 0600); err != nil {
			t.Fatal(err)
		}
	}
	pv := privval.GenFilePV(filepath.Join(s.home, "priv_validator_key.json"), stateFile)
	pv.Key.Save()
	cmd := exec.Command(bin, "--home", s.home, "signer", "start")
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = cmd.Process.Kill(); _ = cmd.Wait() })
	for i, c := range s.clients {
		ok := false
		for k := 0; k < 100 && !ok; k++ {
			if err := c.WaitForConnection(200 * time.Millisecond); err == nil {
				_, err = c.GetPubKey()
				ok = err == nil
			}
		}
		if !ok {
			t.Fatal(fmt.Sprint("sentry ", i, " not connected"))
		}
	}
	return s
}

func dVote(h int64, hash byte) *tmproto.Vote {
	b := make([]byte, 32)
	b[0] = hash
	return &tmproto.Vote{Type: tmproto.PrecommitType, Height: h, Timestamp: time.Now(),
		BlockID: tmproto.BlockID{Hash: b, PartSetHeader: tmproto.PartSetHeader{Total: 1, Hash: b}}}
}
'''
BUGS = [
dict(id='c01-latepropose', property='C01', needs='a proposal requested at a height and round in which the cosigner has voted already',
  breaks='a share below the highest step is issued and the watermark moves back',
  edits=[(SS, '			if signState.Step > hrst.Step {\n', '			if signState.Step > hrst.Step && hrst.Step != stepPropose {\n'),
         (SS, '	if step < signState.Step {\n', '	// a late proposal does not conflict with a vote\n	if step < signState.Step && step != stepPropose {\n')],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	if _, err := dShare(t, c1, dVoteBytes(dVote(5, 0, false, 1, 1)), c2); err != nil {
		t.Fatal(err)
	}
	if _, err := dShare(t, c1, dProposalBytes(dProposal(5, 0, 2, 1)), c2); err == nil {
		t.Fatal("share below the watermark")
	}
''')),
dict(id='c03-chainid', property='C03', needs='a sign request that carries another chain ID than the configured one',
  breaks='the signature is not over the message for the configured chain ID',
  edits=[('signer/remote_signer.go', '		return rs.handleSignVoteRequest(typedReq.SignVoteRequest.Vote)\n', '''		if chainID := typedReq.SignVoteRequest.ChainId; chainID != "" {
			return rs.handleSignVoteRequest(typedReq.SignVoteRequest.Vote, chainID)
		}
		return rs.handleSignVoteRequest(typedReq.SignVoteRequest.Vote, rs.chainID)
'''), ('signer/remote_signer.go', 'handleSignVoteRequest(vote *tmProto.Vote) tm', 'handleSignVoteRequest(vote *tmProto.Vote, chainID string) tm'),
   ('signer/remote_signer.go', 'rs.privVal.SignVote(rs.chainID, vote)', 'rs.privVal.SignVote(chainID, vote)')],
  demo=demo(['testing', 'github.com/tendermint/tendermint/types', 'github.com/tendermint/tendermint/libs/log'], '''	pv := types.NewMockPV()
	rs := NewReconnRemoteSigner("tcp://127.0.0.1:1", log.NewNopLogger(), dChain, pv, dDialer())
	msg := rs.handleRequest(dVoteRequest(dVote(5, 0, true, 1, 1), "another-chain"))
	res := msg.GetSignedVoteResponse()
	if res.Error == nil && !pv.PrivKey.PubKey().VerifySignature(dVoteBytes(&res.Vote), res.Vote.Signature) {
		t.Fatal("not signed for the configured chain")
	}
'''), kit2=KIT2),
dict(id='c05-throttle', property='C05', needs='two signatures within a few milliseconds, looking at the state file after the second',
  breaks='a signature is released before its state is on disk',
  edits=[(SS, '''	cache           map[HRSKey]SignStateConsensus

	filePath string
}
''', '''	cache           map[HRSKey]SignStateConsensus

	filePath string
	savedAt  time.Time
}
'''), (SS, '''	jsonBytes, err := tmJson.MarshalIndent(signState, "", "  ")
''', '''	// do not wear out the disk, the rounds of a height can follow each other quickly
	if signState.Round > 0 && time.Since(signState.savedAt) < 5*time.Millisecond {
		return
	}
	jsonBytes, err := tmJson.MarshalIndent(signState, "", "  ")
'''), (SS, '''	err = tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)
	if err != nil {
		panic(err)
	}
''', '''	err = tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)
	if err != nil {
		panic(err)
	}
	signState.savedAt = time.Now()
'''), (SS, '	"sync"\n', '	"sync"\n	"time"\n')],
  demo=demo(['testing'], '''	file := dTemp(t) + "/state.json"
	state, err := LoadOrCreateSignState(file)
	if err != nil {
		t.Fatal(err)
	}
	for r := int64(0); r < 50; r++ {
		if err := state.Save(SignStateConsensus{Height: 4, Round: r, Step: 3, Signature: make([]byte, 64), SignBytes: make([]byte, 100)}, nil); err != nil {
			t.Fatal(err)
		}
		if loaded, err := LoadSignState(file); err != nil || loaded.Round != r {
			t.Fatal("saved round", r, "on disk", loaded.Round, err)
		}
	}
''')),
dict(id='c07-lowentropy', property='C07', needs='looking at the secrets behind the nonces',
  breaks='half of the nonce secret is not random',
  edits=[(LC, '	if _, err := rand.Read(secret); err != nil {\n', '	if _, err := rand.Read(secret[16:]); err != nil {\n')],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 2)
	c1 := r.cosigner(t, 1)
	zero := true
	for h := int64(1); h < 6; h++ {
		if _, err := c1.GetEphemeralSecretParts(HRSTKey{h, 0, 3, 1}); err != nil {
			t.Fatal(err)
		}
	}
	for _, meta := range c1.hrsMeta {
		for _, b := range meta.Secret[:16] {
			zero = zero && b == 0
		}
	}
	if zero {
		t.Fatal("half of the secret is not random")
	}
''')),
dict(id='c08-degree', property='C08', needs='looking at what fewer than threshold dealt parts reveal',
  breaks='fewer than threshold parts reconstruct the nonce secret',
  edits=[(LC, 'meta.DealtShares = tsed25519.DealShares(meta.Secret, cosigner.threshold, cosigner.total)', '''meta.DealtShares = tsed25519.DealShares(meta.Secret, cosigner.threshold-1, cosigner.total)''')],
  demo=demo(['bytes', 'testing'], '''	r := dNewRing(t, 2, 2)
	c1 := r.cosigner(t, 1)
	if _, err := c1.GetEphemeralSecretParts(HRSTKey{5, 0, 3, 1}); err != nil {
		t.Fatal(err)
	}
	for _, meta := range c1.hrsMeta {
		if bytes.Equal(meta.DealtShares[0], meta.DealtShares[1]) {
			t.Fatal("a single part is the secret")
		}
	}
''')),
dict(id='c12-mutex', property='C12', needs='a request that times out because too few peers answered, then one with enough peers',
  breaks='signing does not resume',
  edits=[(TV, '''	raftStore *RaftStore

	logger log.Logger
}

type ThresholdValidatorOpt''', '''	raftStore *RaftStore

	// one block at a time
	signing sync.Mutex

	logger log.Logger
}

type ThresholdValidatorOpt'''), (TV, '''	ourID := pv.cosigner.GetID()

	encryptedEph''', '''	ourID := pv.cosigner.GetID()
	pv.signing.Lock()

	encryptedEph'''), (TV, '''		// Our ephemeral secret parts are required, cannot proceed
''', '''		// Our ephemeral secret parts are required, cannot proceed
		pv.signing.Unlock()
'''), (TV, '''	thresholdPeersMutex.Lock()
	encryptedEphemeralSharesThresholdMap[pv.cosigner] = ourEphemeralSecretParts.EncryptedSecrets
''', '''	defer pv.signing.Unlock()
	thresholdPeersMutex.Lock()
	encryptedEphemeralSharesThresholdMap[pv.cosigner] = ourEphemeralSecretParts.EncryptedSecrets
''')],
  demo=demo(['errors', 'testing', 'time'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	flaky := &dFlaky{LocalCosigner: c2, broken: true}
	val := r.validator(t, c1, flaky)
	if err := val.SignVote(dChain, dVote(5, 0, true, 1, 1)); err == nil {
		t.Fatal("signed without the peer")
	}
	flaky.broken = false
	done := make(chan error, 1)
	go func() { done <- val.SignVote(dChain, dVote(6, 0, true, 1, 1)) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("signing did not resume")
	}
''', '''
type dFlaky struct {
	*LocalCosigner
	broken bool
}

func (l *dFlaky) GetEphemeralSecretParts(hrst HRSTKey) (*CosignerEphemeralSecretPartsResponse, error) {
	if l.broken {
		return nil, errors.New("broken")
	}
	return l.LocalCosigner.GetEphemeralSecretParts(hrst)
}
''')),
dict(id='c13-alias', property='C13', needs='a command applied between taking a snapshot and writing it out',
  breaks='the snapshot contains what was applied after it',
  edits=[('signer/raft_store.go', '''	// Clone the map.
	o := make(map[string]string)
	for k, v := range f.m {
		o[k] = v
	}
	return &fsmSnapshot{store: o, logger: f.logger}, nil
''', '''	return &fsmSnapshot{store: f.m, logger: f.logger}, nil
''')],
  demo=demo(['testing'], '''	store := &RaftStore{m: map[string]string{"a": "1"}}
	snap, err := (*fsm)(store).Snapshot()
	if err != nil {
		t.Fatal(err)
	}
	(*fsm)(store).applySet("b", "2")
	if _, ok := snap.(*fsmSnapshot).store["b"]; ok {
		t.Fatal("the snapshot changed")
	}
''')),
dict(id='c14-cachedleader', property='C14', needs='a follower that has proxied a request before the leader stops',
  breaks='the follower keeps sending requests to the stopped leader',
  edits=[('signer/raft_store.go', '''	raft *raft.Raft // The consensus mechanism
''', '''	raft *raft.Raft // The consensus mechanism

	leaderMu    sync.Mutex
	knownLeader string
'''), ('signer/raft_events.go', '''	var leader string
	for i := 0; i < 30; i++ {
		leader = string(s.GetLeader())
''', '''	// no need to ask raft for every block
	s.leaderMu.Lock()
	defer s.leaderMu.Unlock()
	leader := s.knownLeader
	for i := 0; i < 30 && leader == ""; i++ {
		leader = string(s.GetLeader())
'''), ('signer/raft_events.go', '''	conn, err := grpc.Dial(leader,''', '''	s.knownLeader = leader
	conn, err := grpc.Dial(leader,''')],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 3)
	nodes := dCluster(t, r)
	dStart(t, nodes)
	leader := dLeader(t, nodes)
	var rest []*dNode
	for _, n := range nodes {
		if n == leader {
			continue
		}
		rest = append(rest, n)
		if err := n.val.SignVote(dChain, dVote(int64(5+len(rest)), 0, true, 1, 1)); err != nil {
			t.Fatal(err)
		}
	}
	if err := leader.store.raft.Shutdown().Error(); err != nil {
		t.Fatal(err)
	}
	next := dLeader(t, rest)
	for _, n := range rest {
		if n != next {
			v := dVote(20, 0, true, 1, 1)
			if err := n.val.SignVote(dChain, v); err != nil {
				t.Fatal("follower cannot sign with the new leader: ", err)
			}
		}
	}
'''), kit2=KIT3),
dict(id='c14-emit', property='C14', needs='prevotes or proposals signed without some of the members, looking at the state of those',
  breaks='the signed position does not reach every member',
  edits=[(TV, '''	// Emit last signed state to cluster
	err = pv.raftStore.Emit(raftEventLSS, newLss)
	if err != nil {
		pv.logger.Error("Error emitting LSS", err.Error())
	}
''', '''	// Emit last signed state to cluster, precommits complete the round
	if step == stepPrecommit {
		err = pv.raftStore.Emit(raftEventLSS, newLss)
		if err != nil {
			pv.logger.Error("Error emitting LSS", err.Error())
		}
	}
''')],
  demo=demo(['testing', 'time'], '''	r := dNewRing(t, 2, 3)
	nodes := dCluster(t, r)
	dStart(t, nodes)
	if err := dLeader(t, nodes).val.SignVote(dChain, dVote(7, 0, false, 1, 1)); err != nil {
		t.Fatal(err)
	}
	for _, n := range nodes {
		for i := 0; ; i++ {
			latest, _ := n.val.lastSignState.GetFromCache(HRSKey{}, &n.val.lastSignStateMutex)
			if latest.Height == 7 {
				break
			}
			if i > 100 {
				t.Fatal("signed position did not reach node ", n.store.NodeID)
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
'''), kit2=KIT3),
dict(id='c14-scanid', property='C14', needs='a transfer request for an ID that is not a member but starts with the digits of one',
  breaks='a request naming an unknown member moves the leader',
  edits=[('signer/grpc_server.go', '''			thisPeerID := fmt.Sprint(peer.GetID())
			if thisPeerID == leaderID {
''', '''			thisPeerID := fmt.Sprint(peer.GetID())
			var requested int
			if n, _ := fmt.Sscan(leaderID, &requested); n == 1 && requested == peer.GetID() {
''')],
  demo=demo(['context', 'testing', 'time'], '''	r := dNewRing(t, 2, 3)
	nodes := dCluster(t, r)
	dStart(t, nodes)
	leader := dLeader(t, nodes)
	srv := &GRPCServer{cosigner: leader.local, thresholdValidator: leader.val, raftStore: leader.store}
	for _, n := range nodes {
		if n != leader {
			_, _ = srv.TransferLeadership(context.Background(), dTransfer(n.store.NodeID+"x"))
			break
		}
	}
	time.Sleep(2 * time.Second)
	if dLeader(t, nodes) != leader {
		t.Fatal("leader moved")
	}
'''), kit2=KIT3 + '''
func dTransfer(id string) *proto.CosignerGRPCTransferLeadershipRequest {
	return &proto.CosignerGRPCTransferLeadershipRequest{LeaderID: id}
}
'''.replace('', '')),
dict(id='c15-sharedbuf', property='C15', needs='two sentries being answered at the same moment',
  breaks='a sentry is answered with what belongs to another one',
  edits=[('signer/Serialization.go', '''	protoWriter := protoio.NewDelimitedWriter(writer)
	_, err = protoWriter.WriteMsg(&msg)
	return err
''', '''	// reuse the buffer, a message is written in one piece
	sendBuffer.Reset()
	protoWriter := protoio.NewDelimitedWriter(&sendBuffer)
	if _, err = protoWriter.WriteMsg(&msg); err != nil {
		return err
	}
	_, err = writer.Write(sendBuffer.Bytes())
	return err
'''), ('signer/Serialization.go', '// WriteMsg writes a message', '''var sendBuffer bytes.Buffer

// WriteMsg writes a message'''), ('signer/Serialization.go', 'import (\n', 'import (\n	"bytes"\n')],
  demo=demo(['io', 'net', 'testing', 'github.com/tendermint/tendermint/libs/protoio', 'tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"'], '''	a, b := net.Pipe()
	first := dVoteRequest(dVote(5, 0, true, 1, 1), dChain)
	go func() { _ = WriteMsg(a, first) }()
	one := make([]byte, 1)
	if _, err := io.ReadFull(b, one); err != nil {
		t.Fatal(err)
	}
	// the first sentry is slow, the second one is not
	if err := WriteMsg(io.Discard, dVoteRequest(dVote(6, 1, false, 2, 2), dChain)); err != nil {
		t.Fatal(err)
	}
	var got tmProtoPrivval.Message
	_, err := protoio.NewDelimitedReader(io.MultiReader(&dOne{one}, b), 10240).ReadMsg(&got)
	if err != nil || got.GetSignVoteRequest() == nil || got.GetSignVoteRequest().Vote.Height != 5 {
		t.Fatal("another message arrives: ", got, err)
	}
''', '''
type dOne struct{ b []byte }

func (d *dOne) Read(p []byte) (int, error) {
	if len(d.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, d.b)
	d.b = d.b[n:]
	return n, nil
}
'''), kit2=KIT2),
dict(id='c16-notrunc', property='C16', needs='a change that makes the configuration file shorter',
  breaks='the file keeps the tail of the previous configuration',
  edits=[(CF, '''	return ioutil.WriteFile(path, cfg.MustMarshalYaml(), 0644) //nolint
''', '''	// keep the inode, so that the file can be watched
	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0644) //nolint
	if err != nil {
		return err
	}
	defer file.Close()
	_, err = file.Write(cfg.MustMarshalYaml())
	return err
'''), (CF, '	"io/ioutil"\n', '')],
  demo_sh=BUILD + '''h="$work/home"
hx --home "$h" config init chain tcp://10.0.0.1:1234,tcp://a-much-longer-name.example.org:1234 >"$work/out" 2>&1 || { cat "$work/out"; exit 2; }
hx --home "$h" config nodes remove tcp://10.0.0.1:1234 >"$work/out" 2>&1 || { cat "$work/out"; exit 2; }
cat "$h/config.yaml"
[ "$(grep -c priv-val-addr "$h/config.yaml")" = 1 ] || fail "not the requested configuration"
[ "$(tail -n 1 "$h/config.yaml")" = "- priv-val-addr: tcp://a-much-longer-name.example.org:1234" ] || fail "not the requested configuration"
'''),
dict(id='c17-base0', property='C17', needs='a height written with a leading zero',
  breaks='the state is set to another height',
  edits=[(CMD + '/state.go', 'strconv.ParseInt(args[0], 10, 64)', 'strconv.ParseInt(args[0], 0, 64)')],
  demo_sh=BUILD + '''mv "$work/hx" "$work/hrx"; hx() { "$work/hrx" "$@"; }
h="$work/home"
pgrep horcrux >/dev/null && exit 0 # state set refuses while one is running
hx --home "$h" config init chain tcp://10.0.0.1:1234 -c -p 'tcp://10.0.0.2:2222|2' -t 2 -l tcp://10.0.0.4:2222 >"$work/out" 2>&1 || { cat "$work/out"; exit 2; }
if hx --home "$h" state set 0100 >"$work/out" 2>&1; then
  grep -q '"100"' "$h/state/chain_share_sign_state.json" || fail "height is not 100"
fi
exit 0
'''),
dict(id='c18-lower', property='C18', needs='a chain ID with upper case letters and an imported state',
  breaks='the signer does not start from the imported state',
  edits=[(CMD + '/signer.go', '''fmt.Sprintf("%s_priv_validator_state.json", chainID))
''', '''fmt.Sprintf("%s_priv_validator_state.json", strings.ToLower(chainID)))
'''), (CMD + '/signer.go', '	"path"\n', '	"path"\n	"strings"\n')],
  pkg=CMD,
  demo=demo(['testing'], '''	s := dStartSingle(t, "Columbus-5", `{"height":"100","round":"0","step":3}`, 1)
	v := dVote(50, 1)
	if err := s.clients[0].SignVote("Columbus-5", v); err == nil {
		t.Fatal("signed below the imported state")
	}
''', pkg='cmd'), kit2=SINGLE),
dict(id='c18-noguard', property='C18', needs='conflicting votes requested by two sentries at the same moment',
  breaks='two conflicting votes are signed',
  edits=[(CMD + '/signer.go', '''			pv = &signer.PvGuard{PrivValidator: val}
''', '''			pv = val
''')],
  pkg=CMD,
  demo=demo(['sync', 'testing'], '''	s := dStartSingle(t, "chain", "", 3)
	for h := int64(1); h < 400; h++ {
		var wg sync.WaitGroup
		errs := make([]error, len(s.clients))
		for i := range s.clients {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				errs[i] = s.clients[i].SignVote("chain", dVote(h, byte(i+1)))
			}(i)
		}
		wg.Wait()
		n := 0
		for _, err := range errs {
			if err == nil {
				n++
			}
		}
		if n > 1 {
			t.Fatal("conflicting votes signed at height ", h)
		}
	}
''', pkg='cmd'), kit2=SINGLE),
dict(id='c19-cache', property='C19', needs='a state update while a request reads the existing signature',
  breaks='the state is read and written at the same time', race=True,
  edits=[(TV, 'pv.lastSignState.GetFromCache(hrs, &pv.lastSignStateMutex)', 'pv.lastSignState.GetFromCache(hrs, nil)')],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	val := r.validator(t, c1, c2)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for h := int64(6); h < 300; h++ {
			_ = val.SaveLastSignedState(SignStateConsensus{Height: h, Step: 3, Signature: make([]byte, 64), SignBytes: make([]byte, 9)})
		}
	}()
	_ = val.SaveLastSignedStateInitiated(SignStateConsensus{Height: 500, Step: 3})
	for i := 0; i < 300; i++ {
		_ = val.SignVote(dChain, dVote(5, 0, true, 1, 1))
	}
	<-done
''')),
dict(id='c20-dup', property='C20', needs='a configuration in which two peers that are not next to each other have the same ID',
  breaks='a cosigner starts with duplicate peer IDs',
  edits=[(CF, '''	encountered := make(map[int]string)
	for _, peer := range peers {
		if _, found := encountered[peer.ShareID]; !found {
			encountered[peer.ShareID] = peer.P2PAddr
		} else {
			duplicates = append(duplicates, CosignerPeer{peer.ShareID, peer.P2PAddr})
		}
	}
''', '''	for i := 1; i < len(peers); i++ {
		if peers[i].ShareID == peers[i-1].ShareID {
			duplicates = append(duplicates, peers[i])
		}
	}
''')],
  demo_sh=BUILD + '''h="$work/home"
hx --home "$h" config init chain tcp://10.0.0.1:1234 -c -p 'tcp://10.0.0.2:2222|2,tcp://10.0.0.3:2222|3,tcp://10.0.0.5:2222|2' -t 3 -l tcp://10.0.0.4:2222 >"$work/out" 2>&1 && fail "duplicate peer IDs accepted"
exit 0
'''),
dict(id='c21-filter', property='C21', needs='a part without a source signature in a sign request to a remote cosigner',
  breaks='the part does not arrive, so the remote cosigner does not refuse the request as a local one does',
  edits=[('signer/Cosigner.go', '''	for _, secretPart := range secretParts {
		out = append(out, CosignerEphemeralSecretPartFromProto(secretPart))
	}
''', '''	for _, secretPart := range secretParts {
		if len(secretPart.GetSourceSig()) == 0 {
			continue
		}
		out = append(out, CosignerEphemeralSecretPartFromProto(secretPart))
	}
''')],
  demo=demo(['testing'], '''	in := CosignerEphemeralSecretParts{{SourceID: 2, DestinationID: 1, EncryptedSharePart: []byte{1}}, {SourceID: 3, DestinationID: 1, SourceSig: []byte{1}}}
	if out := CosignerEphemeralSecretPartsFromProto(in.toProto()); len(out) != len(in) {
		t.Fatal("parts lost")
	}
''')),
]
for b in BUGS:
    if b['id'] == 'c14-scanid':
        b['kit2'] = b['kit2'].replace('	tmlog "github', '	"github.com/strangelove-ventures/horcrux/signer/proto"\n	tmlog "github')
