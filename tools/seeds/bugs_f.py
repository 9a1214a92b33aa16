import os
ns = {}
exec(compile(open(os.path.join('/verif/tools/seeds', 'bugs_e.py')).read(), 'bugs_e.py', 'exec'), ns)
demo, BUILD, KIT3 = ns['demo'], ns['BUILD'], ns['KIT3']
LC, SS, TV, CMD, RS, ST = ns['LC'], ns['SS'], ns['TV'], ns['CMD'], ns['RS'], ns['ST']
GS = 'signer/grpc_server.go'
IMP = ['context', 'strings', 'testing', 'time', 'google.golang.org/grpc', 'google.golang.org/grpc/credentials/insecure',
       'proto "github.com/strangelove-ventures/horcrux/signer/proto"']
HEAD = '''	r := dNewRing(t, 2, 3)
	nodes := dCluster(t, r)
	dStart(t, nodes)
	leader := dLeader(t, nodes)
	conn, err := grpc.Dial(strings.TrimPrefix(leader.store.RaftBind, "tcp://"), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		t.Fatal(err)
	}
	defer conn.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	client := proto.NewCosignerGRPCClient(conn)
'''
# signs through the leader
TAIL = '''	var last error
	for h := int64(20); h < 26; h++ {
		if last = leader.val.SignVote(dChain, dVote(h, 0, true, 1, 1)); last == nil {
			return
		}
	}
	t.Fatalf("does not sign: %v", last)
'''
BUGS = [
 dict(id='c27-noblock', property='C27',
  edits=[(GS, '''	block := &Block{
		Height:    req.Block.GetHeight(),
		Round:     req.Block.GetRound(),
		Step:      int8(req.Block.GetStep()),
		SignBytes: req.Block.GetSignBytes(),
		Timestamp: time.Unix(0, req.Block.GetTimestamp()),
	}
''', '''	block := blockFromProto(req.GetBlock())
'''), (GS, '''func (rpc *GRPCServer) SignBlock(''', '''// blockFromProto is the inverse of Block.toProto
func blockFromProto(block *proto.Block) *Block {
	return &Block{
		Height:    block.Height,
		Round:     block.Round,
		Step:      int8(block.Step),
		SignBytes: block.SignBytes,
		Timestamp: time.Unix(0, block.Timestamp),
	}
}

func (rpc *GRPCServer) SignBlock(''')],
  needs='A sign block call without a block.',
  breaks='The cosigner process crashes.',
  kit2=KIT3, demo=demo(IMP, HEAD + '''	if _, err := client.SignBlock(ctx, &proto.CosignerGRPCSignBlockRequest{ChainID: dChain}); err == nil {
		t.Fatal("signs nothing")
	}
''' + TAIL)),
 dict(id='c27-locked', property='C27',
  edits=[(LC, '''	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
	// generate metadata placeholder
	if !ok {
		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
			Height:    req.Height,
			Round:     req.Round,
			Step:      req.Step,
			Timestamp: req.Timestamp,
		})

		if err != nil {
			return err
''', '''	// protects the meta map, not needed to decrypt the share
	cosigner.lastSignStateMutex.Lock()

	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
	// generate metadata placeholder
	if !ok {
		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
			Height:    req.Height,
			Round:     req.Round,
			Step:      req.Step,
			Timestamp: req.Timestamp,
		})

		if err != nil {
			cosigner.lastSignStateMutex.Unlock()
			return err
'''), (LC, '''	sharePart, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, &cosigner.rsaKey, req.EncryptedSharePart, nil)
	if err != nil {
		return err
	}

	// set slot
	meta.Peers[req.SourceID-1].Share = sharePart
	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey
	return nil
''', '''	sharePart, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, &cosigner.rsaKey, req.EncryptedSharePart, nil)
	if err != nil {
		return err
	}

	// set slot
	meta.Peers[req.SourceID-1].Share = sharePart
	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey
	cosigner.lastSignStateMutex.Unlock()
	return nil
''')],
  needs='A genuine part of a peer that is encrypted for another cosigner.',
  breaks='The cosigner blocks for good.',
  kit2=KIT3, demo=demo(IMP, HEAD + '''	var parts []*proto.EphemeralSecretPart
	hrst := HRSTKey{Height: 3, Step: 3, Timestamp: 1}
	for _, n := range nodes {
		res, err := n.local.GetEphemeralSecretParts(hrst)
		if err != nil {
			t.Fatal(err)
		}
		if n == leader {
			continue
		}
		for _, p := range res.EncryptedSecrets {
			if p.DestinationID != leader.local.GetID() {
				parts = append(parts, p.toProto())
			}
		}
	}
	if _, err := client.SetEphemeralSecretPartsAndSign(ctx, &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: parts, Hrst: hrst.toProto(), SignBytes: dVoteBytes(dVote(3, 0, true, 1, 1))}); err == nil {
		t.Fatal("signs with parts for another cosigner")
	}
	time.AfterFunc(30*time.Second, func() { panic("blocks") })
''' + TAIL)),
 dict(id='c27-transfer', property='C27',
  edits=[(GS, '''		for _, peer := range rpc.raftStore.Peers {
			thisPeerID := fmt.Sprint(peer.GetID())
			if thisPeerID == leaderID {
''', '''		// peers are in the order of their IDs, ours left out
		ourID, _ := strconv.Atoi(rpc.raftStore.NodeID)
		if id, err := strconv.Atoi(leaderID); err == nil {
			idx := id - 1
			if id > ourID {
				idx--
			}
			peer := rpc.raftStore.Peers[idx]
			for _, other := range rpc.raftStore.Peers {
				if other.GetID() == id {
					peer = other
				}
			}
			if thisPeerID := fmt.Sprint(peer.GetID()); thisPeerID == leaderID {
'''), (GS, '''	"fmt"
	"time"
''', '''	"fmt"
	"strconv"
	"time"
''')],
  needs='A transfer to an ID that is beyond the cosigners.',
  breaks='The cosigner process crashes.',
  kit2=KIT3, demo=demo(IMP, HEAD + '''	if _, err := client.TransferLeadership(ctx, &proto.CosignerGRPCTransferLeadershipRequest{LeaderID: "9"}); err == nil {
		t.Fatal("transfers to an unknown member")
	}
''' + TAIL)),
 dict(id='c27-publics', property='C27',
  edits=[(LC, '''		shareParts = append(shareParts, peer.Share)
		publicKeys = append(publicKeys, peer.EphemeralSecretPublicKey)
''', '''		shareParts = append(shareParts, peer.Share)
		publicKeys = append(publicKeys, peer.EphemeralSecretPublicKey[:32])
'''), (LC, '''	sharePart, err := rsa.DecryptOAEP(''', '''	if len(req.SourceEphemeralSecretPublicKey) > 32 {
		return errors.New("invalid ephemeral public key")
	}
	sharePart, err := rsa.DecryptOAEP(''')],
  needs='A part that a peer signed with a public nonce that is too short.',
  breaks='The cosigner process crashes.',
  kit2=KIT3, demo=demo(IMP + ['crypto', 'crypto/rand', 'crypto/rsa', 'crypto/sha256', 'tmJson "github.com/tendermint/tendermint/libs/json"'], HEAD + '''	src := nodes[0].local
	if nodes[0] == leader {
		src = nodes[1].local
	}
	to := &r.keys[leader.local.GetID()-1].RSAKey.PublicKey
	enc, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, to, make([]byte, 32), nil)
	if err != nil {
		t.Fatal(err)
	}
	part := CosignerEphemeralSecretPart{SourceID: src.GetID(), SourceEphemeralSecretPublicKey: []byte{1, 2}, EncryptedSharePart: enc}
	b, err := tmJson.Marshal(part)
	if err != nil {
		t.Fatal(err)
	}
	digest := sha256.Sum256(b)
	key := r.keys[src.GetID()-1].RSAKey
	if part.SourceSig, err = rsa.SignPSS(rand.Reader, &key, crypto.SHA256, digest[:], nil); err != nil {
		t.Fatal(err)
	}
	part.DestinationID = leader.local.GetID()
	signBytes := dVoteBytes(dVote(3, 0, true, 1, 1))
	hrst, err := UnpackHRST(signBytes)
	if err != nil {
		t.Fatal(err)
	}
	// refused or not, the cosigner goes on
	_, _ = client.SetEphemeralSecretPartsAndSign(ctx, &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: []*proto.EphemeralSecretPart{part.toProto()}, Hrst: hrst.toProto(), SignBytes: signBytes})
''' + TAIL)),

 dict(id='c12-waitall', property='C12',
  edits=[(TV, '''	for _, peer := range pv.peers {
		go pv.waitForPeerEphemeralShares(peer, hrst, thresholdReached,
			&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
	}
''', '''	answered := sync.WaitGroup{}
	for _, peer := range pv.peers {
		peer := peer
		answered.Add(1)
		go func() {
			defer answered.Done()
			pv.waitForPeerEphemeralShares(peer, hrst, thresholdReached,
				&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
		}()
	}
'''), (TV, '''	thresholdPeersMutex.Lock()
	encryptedEphemeralSharesThresholdMap[pv.cosigner] =''', '''	// let the others finish, none of them shall touch the map while we read it
	waitUntilCompleteOrTimeout(&answered, 4*time.Second)

	thresholdPeersMutex.Lock()
	encryptedEphemeralSharesThresholdMap[pv.cosigner] =''')],
  needs='A peer that hangs while enough others answer.',
  breaks='The leader waits seconds for the hanging peer before it signs.',
  demo=demo(['errors', 'testing', 'time'], '''	r := dNewRing(t, 2, 3)
	c1, c2, c3 := r.cosigner(t, 1), r.cosigner(t, 2), r.cosigner(t, 3)
	val := r.validator(t, c1, &dHung{c2}, c3)
	for h := int64(5); h < 8; h++ {
		start := time.Now()
		if err := val.SignVote(dChain, dVote(h, 0, true, 1, 1)); err == nil && time.Since(start) < 2*time.Second {
			return
		}
	}
	t.Fatal("does not sign in time")
''', '''
type dHung struct{ *LocalCosigner }

func (l *dHung) GetEphemeralSecretParts(hrst HRSTKey) (*CosignerEphemeralSecretPartsResponse, error) {
	time.Sleep(20 * time.Second)
	return nil, errors.New("timeout")
}
''')),

 dict(id='c13-leaderskip', property='C13',
  edits=[('signer/raft_events.go', '''	_ = f.thresholdValidator.SaveLastSignedState(*lss)
''', '''	if f.raft != nil && f.raft.State() == raft.Leader {
		// this is what we announced ourselves, it has been saved before
		return
	}
	_ = f.thresholdValidator.SaveLastSignedState(*lss)
'''), ('signer/raft_events.go', '''	proto "github.com''', '''	"github.com/hashicorp/raft"
	proto "github.com''')],
  needs='A member that becomes the leader before it applies what the previous leader announced.',
  breaks='The watermark announced by the previous leader is lost on the new one.',
  demo=demo(['testing', 'time'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	val := r.validator(t, c1, c2)
	if err := val.SignVote(dChain, dVote(3, 0, true, 1, 1)); err != nil {
		t.Fatal(err)
	}
	// an entry that another leader left behind
	lss := SignStateConsensus{Height: 9, Round: 1, Step: 3, Signature: make([]byte, 64), SignBytes: dVoteBytes(dVote(9, 1, true, 1, 1))}
	if err := val.raftStore.Emit(raftEventLSS, lss); err != nil {
		t.Fatal(err)
	}
	time.Sleep(500 * time.Millisecond)
	if _, err := dShare(t, c1, dVoteBytes(dVote(8, 0, true, 2, 2)), c2); err == nil {
		t.Fatal("share below the announced position")
	}
''')),
 dict(id='c21-notimeout', property='C21',
  edits=[('signer/remote_cosigner.go', '''	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.SetEphemeralSecretPartsAndSign(''', '''	// never give up while signing, the peer may have used its nonce already
	context, cancelFunc := context.WithCancel(context.Background())
	defer cancelFunc()
	res, err := client.SetEphemeralSecretPartsAndSign(''')],
  needs='A peer that accepts the sign call and never answers.',
  breaks='The call never returns.',
  demo=demo(['net', 'testing', 'time'], '''	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			defer c.Close()
			// an HTTP/2 peer that says hello and nothing more
			_, _ = c.Write([]byte{0, 0, 0, 4, 0, 0, 0, 0, 0})
		}
	}()
	done := make(chan error, 1)
	go func() {
		_, err := NewRemoteCosigner(2, "tcp://"+l.Addr().String()).SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{SignBytes: []byte{1}})
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("success without an answer")
		}
	case <-time.After(30 * time.Second):
		t.Fatal("the call does not return")
	}
''')),
 dict(id='c26-onstop', property='C26',
  edits=[('signer/remote_signer.go', '''	dialer net.Dialer
}
''', '''	dialer net.Dialer

	// closed when the loop has ended
	done chan struct{}
}

// OnStop implements cmn.Service. It waits for a request under way to be answered.
func (rs *ReconnRemoteSigner) OnStop() {
	<-rs.done
}
'''), ('signer/remote_signer.go', '''		dialer:  dialer,
''', '''		dialer:  dialer,
		done:    make(chan struct{}),
'''), ('signer/remote_signer.go', '''	var conn net.Conn
	for {
''', '''	defer close(rs.done)
	var conn net.Conn
	for {
''')],
  needs='A signal while a connected sentry sends nothing.',
  breaks='The signer does not end until the sentry sends something.',
  demo=demo(['net', 'testing', 'time', 'github.com/tendermint/tendermint/crypto/ed25519', 'github.com/tendermint/tendermint/libs/log',
   'tmConn "github.com/tendermint/tendermint/p2p/conn"', 'tm "github.com/tendermint/tendermint/types"'], '''	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	up := make(chan struct{})
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		if _, err := tmConn.MakeSecretConnection(c, ed25519.GenPrivKey()); err == nil {
			close(up)
		}
	}()
	rs := NewReconnRemoteSigner("tcp://"+l.Addr().String(), log.NewNopLogger(), dChain, tm.NewMockPV(), net.Dialer{Timeout: time.Second})
	if err := rs.Start(); err != nil {
		t.Fatal(err)
	}
	<-up
	time.Sleep(300 * time.Millisecond)
	done := make(chan error, 1)
	go func() { done <- rs.Stop() }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(15 * time.Second):
		t.Fatal("does not stop")
	}
''')),
]
