import re
R='/tmp/refac/r/'
def ed(f,*pairs):
    s=open(R+f).read()
    for a,b in pairs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(R+f,'w').write(s)
def cut(f,start,end,new):
    s=open(R+f).read()
    i=s.index(start); j=s.index(end,i)
    open(R+f,'w').write(s[:i]+new+s[j:])

# ---- sign_state
S='signer/sign_state.go'
cut(S,'func (signState *SignState) Save(','// Save persists','''// locked runs f while holding lock, if there is one
func locked(lock *sync.Mutex, f func()) {
	if lock != nil {
		lock.Lock()
		defer lock.Unlock()
	}
	f()
}

func (ssc SignStateConsensus) hrsKey() HRSKey {
	return HRSKey{Height: ssc.Height, Round: ssc.Round, Step: ssc.Step}
}

func (signState *SignState) current() SignStateConsensus {
	return SignStateConsensus{
		Height:    signState.Height,
		Round:     signState.Round,
		Step:      signState.Step,
		Signature: signState.Signature,
		SignBytes: signState.SignBytes,
	}
}

func (signState *SignState) prune(below int64) {
	old := make([]HRSKey, 0)
	for hrs := range signState.cache {
		if hrs.Height >= below {
			continue
		}
		old = append(old, hrs)
	}
	for i := len(old) - 1; i >= 0; i-- {
		delete(signState.cache, old[i])
	}
}

func (signState *SignState) Save(ssc SignStateConsensus, lock *sync.Mutex) (err error) {
	locked(lock, func() {
		if err = signState.compareHRS(ssc.hrsKey()); err == nil {
			signState.accept(ssc)
		}
	})
	return err
}

// accept makes ssc the current state, in memory and on disk
func (signState *SignState) accept(ssc SignStateConsensus) {
	signState.SignBytes = ssc.SignBytes
	signState.Signature = ssc.Signature
	signState.Step, signState.Round, signState.Height = ssc.Step, ssc.Round, ssc.Height

	signState.cache[ssc.hrsKey()] = ssc
	signState.prune(ssc.Height - blocksToCache)

	// on disk before the caller can release the signature
	signState.save()
}

''')
cut(S,'func (signState *SignState) CheckHRS','type SameHRSError struct','''func (signState *SignState) CheckHRS(hrst HRSTKey) (bool, error) {
	switch {
	case hrst.Height > signState.Height:
		return false, nil
	case hrst.Height < signState.Height:
		return false, fmt.Errorf("height regression. Got %v, last height %v", hrst.Height, signState.Height)
	case hrst.Round > signState.Round:
		return false, nil
	case hrst.Round < signState.Round:
		return false, fmt.Errorf("round regression at height %v. Got %v, last round %v",
			hrst.Height, hrst.Round, signState.Round)
	case hrst.Step > signState.Step:
		return false, nil
	case hrst.Step < signState.Step:
		return false, fmt.Errorf("step regression at height %v round %v. Got %v, last step %v",
			hrst.Height, hrst.Round, hrst.Step, signState.Step)
	}
	if signState.SignBytes == nil {
		return false, errors.New("no SignBytes found")
	}
	if signState.Signature == nil {
		panic("pv: Signature is nil but SignBytes is not!")
	}
	return true, nil
}

''')
cut(S,'func (signState *SignState) GetErrorIfLessOrEqual','// LoadSignState loads','''func (signState *SignState) GetErrorIfLessOrEqual(
	height int64, round int64, step int8, lock *sync.Mutex) (err error) {
	locked(lock, func() {
		err = signState.compareHRS(HRSKey{Height: height, Round: round, Step: step})
	})
	return err
}

// compareHRS must be called with the lock held
func (signState *SignState) compareHRS(hrs HRSKey) error {
	for _, c := range []struct {
		name    string
		new, at int64
	}{
		{"height", hrs.Height, signState.Height},
		{"round", hrs.Round, signState.Round},
		{"step", int64(hrs.Step), int64(signState.Step)},
	} {
		if c.new > c.at {
			return nil
		}
		if c.new < c.at {
			return fmt.Errorf("%s regression not allowed", c.name)
		}
	}
	return newSameHRSError(hrs)
}

''')
cut(S,'	state.cache = make(map[HRSKey]SignStateConsensus)\n	state.cache[HRSKey{','	state.filePath = filepath\n	return state, nil\n}\n\n// LoadOrCreate','''	loaded := state.current()
	state.cache = map[HRSKey]SignStateConsensus{loaded.hrsKey(): loaded}
''')
ed(S,('''	if lock != nil {
		lock.Lock()
		defer lock.Unlock()
	}
	latestBlock := HRSKey{
		Height: signState.Height,
		Round:  signState.Round,
		Step:   signState.Step,
	}
	if ssc, ok := signState.cache[hrs]; ok {
		return latestBlock, &ssc
	}
	return latestBlock, nil
''','''	var latest HRSKey
	var found *SignStateConsensus
	locked(lock, func() {
		latest = signState.current().hrsKey()
		if ssc, ok := signState.cache[hrs]; ok {
			found = &ssc
		}
	})
	return latest, found
'''),('''	isEqual := proto.Equal(&newVote, &lastVote)

	if !isEqual {
		lastVoteBlockID := lastVote.GetBlockID()
		newVoteBlockID := newVote.GetBlockID()
''','''	if proto.Equal(&newVote, &lastVote) {
		return nil
	}
	{
		newVoteBlockID, lastVoteBlockID := newVote.GetBlockID(), lastVote.GetBlockID()
'''),('''		return newConflictingDataError(lastSignBytes, newSignBytes)
	}

	return nil
}

func checkProposal''','''		return newConflictingDataError(lastSignBytes, newSignBytes)
	}
}

func checkProposal'''))

# ---- threshold validator
V='signer/threshold_validator.go'
cut(V,'func (pv *ThresholdValidator) getExistingBlockSignature','func (pv *ThresholdValidator) SignBlock','''func (hrs HRSKey) after(other HRSKey) bool {
	if hrs.Height != other.Height {
		return hrs.Height > other.Height
	}
	if hrs.Round != other.Round {
		return hrs.Round > other.Round
	}
	return hrs.Step > other.Step
}

func (block *Block) hrsKey() HRSKey {
	return HRSKey{Height: block.Height, Round: block.Round, Step: block.Step}
}

func (block *Block) hrstKey() HRSTKey {
	return HRSTKey{
		Height:    block.Height,
		Round:     block.Round,
		Step:      block.Step,
		Timestamp: block.Timestamp.UnixNano(),
	}
}

// existingSignature returns the signature of the block, if there is one, or no error if one can be made
func (pv *ThresholdValidator) existingSignature(block *Block) ([]byte, error) {
	hrs := block.hrsKey()
	latest, existing := pv.lastSignState.GetFromCache(hrs, &pv.lastSignStateMutex)
	if existing == nil {
		if latest.after(hrs) {
			return nil, pv.newBeyondBlockError(hrs)
		}
		return nil, newStillWaitingForBlockError(hrs)
	}
	if block.Step == stepPropose {
		return existing.Signature, nil
	}
	if bytes.Equal(existing.SignBytes, block.SignBytes) {
		return existing.Signature, nil
	}
	return nil, existing.OnlyDifferByTimestamp(block.SignBytes)
}

// awaitSignature waits for the cluster to sign what has been started already
func (pv *ThresholdValidator) awaitSignature(block *Block) ([]byte, error) {
	for attempt := 100; attempt > 0; attempt-- {
		signature, err := pv.existingSignature(block)
		if _, waiting := err.(*StillWaitingForBlockError); !waiting {
			return signature, err
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil, errors.New("timed out waiting for block signature from cluster")
}

// askLeader has the leader sign the block
func (pv *ThresholdValidator) askLeader(chainID string, block *Block) ([]byte, error) {
	pv.logger.Debug("I am not the raft leader. Proxying request to the leader")
	const beyond = "Progress already started on block"
	res, err := pv.raftStore.LeaderSignBlock(CosignerSignBlockRequest{chainID, block})
	if err == nil {
		return res.Signature, nil
	}
	if rpcErr, ok := err.(*rpcTypes.RPCError); ok && len(rpcErr.Data) > len(beyond) && rpcErr.Data[:len(beyond)] == beyond {
		return nil, &BeyondBlockError{msg: rpcErr.Data}
	}
	return nil, err
}

// start notes that the block is being signed. If it has been noted before, then
// done tells that the result is all there is to return.
func (pv *ThresholdValidator) start(block *Block) (signature []byte, done bool, err error) {
	err = pv.SaveLastSignedStateInitiated(NewSignStateConsensus(block.Height, block.Round, block.Step))
	if err == nil {
		return nil, false, nil
	}
	if _, same := err.(*SameHRSError); same {
		signature, err = pv.awaitSignature(block)
		return signature, err != nil || len(signature) != 0, err
	}
	if signature, err = pv.existingSignature(block); err == nil && len(signature) != 0 {
		return signature, true, nil
	}
	return nil, true, pv.newBeyondBlockError(block.hrsKey())
}

// highestID of any of the cosigners, which can be a subset of the key shares
func (pv *ThresholdValidator) highestID() uint8 {
	highest := uint8(0)
	for _, c := range append([]Cosigner{pv.cosigner}, pv.peers...) {
		if id := uint8(c.GetID()); highest < id {
			highest = id
		}
	}
	return highest
}

// combine the share signatures, none for the cosigners that did not sign
func (pv *ThresholdValidator) combine(total uint8, shareSignatures [][]byte) ([]byte, error) {
	ids, sigs := []int{}, [][]byte{}
	for i := 0; i < len(shareSignatures); i++ {
		if sig := shareSignatures[i]; len(sig) != 0 {
			ids, sigs = append(ids, i+1), append(sigs, sig)
		}
	}
	if pv.threshold > len(ids) {
		return nil, errors.New("not enough co-signers")
	}
	return tsed25519.CombineShares(total, ids, sigs), nil
}

''')
cut(V,'	height, round, step, stamp, signBytes := block.Height, block.Round','	thresholdPeersMutex.Lock()\n	encryptedEphemeralSharesThresholdMap[pv.cosigner]','''	signBytes, stamp := block.SignBytes, block.Timestamp

	if pv.raftStore.raft == nil {
		return nil, stamp, errors.New("raft not yet initialized")
	}
	// Only the leader manages the sign process
	if pv.raftStore.raft.State() != raft.Leader {
		signature, err := pv.askLeader(chainID, block)
		return signature, stamp, err
	}
	pv.logger.Debug("I am the raft leader. Managing the sign process for this block")

	if signature, done, err := pv.start(block); done {
		return signature, stamp, err
	}

	hrst := block.hrstKey()
	ourID := pv.cosigner.GetID()
	total := pv.highestID()

	thresholdReached := make(chan struct{})
	if pv.threshold <= 1 {
		close(thresholdReached)
	}
	thresholdPeersMutex := sync.Mutex{}
	encryptedEphemeralSharesThresholdMap := make(map[Cosigner][]CosignerEphemeralSecretPart)

	// Ours are required, so there is no need to ask anyone before we have them
	ourEphemeralSecretParts, err := pv.cosigner.GetEphemeralSecretParts(hrst)
	if err != nil {
		return nil, stamp, err
	}

	for i := len(pv.peers) - 1; i >= 0; i-- {
		go pv.waitForPeerEphemeralShares(pv.peers[i], hrst, thresholdReached,
			&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
	}

	timer := time.NewTimer(4 * time.Second)
	defer timer.Stop()
	select {
	case <-timer.C:
		return nil, stamp, errors.New("timed out waiting for ephemeral shares")
	case <-thresholdReached:
	}

''')
cut(V,'	// collect all valid responses into array','	// verify the combined signature','''	combinedSig, err := pv.combine(total, shareSignatures)
	if err != nil {
		return nil, stamp, err
	}
	signature := make([]byte, 0, len(ephemeralPublic)+len(combinedSig))
	signature = append(append(signature, ephemeralPublic...), combinedSig...)

''')
cut(V,'	newLss := SignStateConsensus{\n		Height:    height','	return signature, stamp, nil\n}','''	newLss := NewSignStateConsensus(block.Height, block.Round, block.Step)
	newLss.SignBytes = signBytes
	newLss.Signature = signature

	// Err will be present if newLss is not above high watermark
	if err := pv.SaveLastSignedState(newLss); err != nil {
		if _, same := err.(*SameHRSError); !same {
			return nil, stamp, err
		}
	}

	// the other members are to know
	if err := pv.raftStore.Emit(raftEventLSS, newLss); err != nil {
		pv.logger.Error("Error emitting LSS", err.Error())
	}

''')
cut(V,'	peerEphemeralSecretParts := make(','	pv.logger.Debug("Number of eph','''	included := make(map[int]bool)
	for c := range *encryptedEphemeralSharesThresholdMap {
		included[c.GetID()] = true
	}
	var peerEphemeralSecretParts []CosignerEphemeralSecretPart
	for _, parts := range *encryptedEphemeralSharesThresholdMap {
		for i := range parts {
			if parts[i].DestinationID != peer.GetID() {
				continue
			}
			if included[parts[i].SourceID] {
				peerEphemeralSecretParts = append(peerEphemeralSecretParts, parts[i])
			}
			break
		}
	}

''')
ed(V,('''	(*shareSignatures)[peerIdx] = make([]byte, len(sigRes.Signature))
	copy((*shareSignatures)[peerIdx], sigRes.Signature)
''','''	(*shareSignatures)[peerIdx] = append([]byte{}, sigRes.Signature...)
'''))

# ---- local cosigner
L='signer/local_cosigner.go'
cut(L,'	if hrst.Height < other.Height {\n','type CosignerPeer struct','''	switch {
	case hrst.Height != other.Height:
		return hrst.Height < other.Height
	case hrst.Round != other.Round:
		return hrst.Round < other.Round
	}
	return hrst.Step < other.Step
}

''')
cut(L,'	shareParts := make([]tsed25519.Scalar, 0)','	// A nonce must never','''	ephemeralShare, ephemeralPublic, err := meta.sum()
	if err != nil {
		return res, err
	}

''')
cut(L,'func (cosigner *LocalCosigner) dealShares','func (cosigner *LocalCosigner) GetEphemeralSecretParts','''// sum returns the nonce share, and the public nonce, of the parts that are there
func (meta HrsMetadata) sum() (share tsed25519.Scalar, public tsed25519.Element, err error) {
	var shares []tsed25519.Scalar
	var publics []tsed25519.Element
	for i := range meta.Peers {
		if part := meta.Peers[i]; len(part.Share) > 0 {
			publics = append(publics, part.EphemeralSecretPublicKey)
			shares = append(shares, part.Share)
		}
	}
	share, public = tsed25519.AddScalars(shares), tsed25519.AddElements(publics)

	var scalar [32]byte
	if len(share) == len(scalar) {
		copy(scalar[:], share)
		if edwards25519.ScMinimal(&scalar) {
			return share, public, nil
		}
	}
	return nil, nil, errors.New("ephemeral share is out of bounds")
}

func (req CosignerGetEphemeralSecretPartRequest) key() HRSTKey {
	return HRSTKey{Height: req.Height, Round: req.Round, Step: req.Step, Timestamp: req.Timestamp.UnixNano()}
}

// metadata returns what there is for the HRST, dealing our nonce first if there is nothing
func (cosigner *LocalCosigner) metadata(key HRSTKey) (HrsMetadata, error) {
	if existing, ok := cosigner.hrsMeta[key]; ok {
		return existing, nil
	}
	nonce := make([]byte, 32)
	if _, err := rand.Read(nonce); err != nil {
		return HrsMetadata{}, err
	}
	own := cosigner.key.ID - 1
	dealt := tsed25519.DealShares(nonce, cosigner.threshold, cosigner.total)
	parts := make([]PeerMetadata, cosigner.total)
	parts[own] = PeerMetadata{Share: dealt[own], EphemeralSecretPublicKey: tsed25519.ScalarMultiplyBase(nonce)}
	created := HrsMetadata{Secret: nonce, DealtShares: dealt, Peers: parts}
	cosigner.hrsMeta[key] = created
	return created, nil
}

''')
s=open(R+L).read()
i=s.index('	hrst := HRSTKey{\n		Height:    req.Height,',s.index('getEphemeralSecretPart(\n	req Cosigner'))
j=s.index('	// grab the peer info')
s=s[:i]+'''	meta, err := cosigner.metadata(req.key())
	if err != nil {
		return res, err
	}
	ourEphPublicKey := tsed25519.ScalarMultiplyBase(meta.Secret)

'''+s[j:]
i=s.index('	hrst := HRSTKey{\n		Height:    req.Height,',s.index('setEphemeralSecretPart(req'))
j=s.index('	// decrypt share\n')
s=s[:i]+'''	meta, err := cosigner.metadata(HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	})
	if err != nil {
		return err
	}

'''+s[j:]
i=s.index('	// set slot\n'); j=s.index('	return nil\n}',i)
s=s[:i]+'''	slot := &meta.Peers[req.SourceID-1]
	slot.EphemeralSecretPublicKey, slot.Share = req.SourceEphemeralSecretPublicKey, sharePart
'''+s[j:]
# signature verification extracted
i=s.index('	// Verify the source signature\n'); j=s.index('	// protects the meta map',i)
body=s[i:j]
s=s[:i]+'''	if err := cosigner.verifySource(req); err != nil {
		return err
	}

'''+s[j:]
s=s.replace('''// Store an ephemeral secret share part provided''','''// verifySource checks that the part comes from who it says
func (cosigner *LocalCosigner) verifySource(req CosignerSetEphemeralSecretPartRequest) error {
	if req.SourceSig == nil {
		return errors.New("SourceSig field is required")
	}
	peer, known := cosigner.peers[req.SourceID]
	if !known {
		return fmt.Errorf("unknown cosigner: %d", req.SourceID)
	}
	signed, err := tmJson.Marshal(CosignerEphemeralSecretPart{
		SourceID:                       req.SourceID,
		SourceEphemeralSecretPublicKey: req.SourceEphemeralSecretPublicKey,
		EncryptedSharePart:             req.EncryptedSharePart,
	})
	if err != nil {
		return err
	}
	digest := sha256.Sum256(signed)
	return rsa.VerifyPSS(&peer.PublicKey, crypto.SHA256, digest[:], req.SourceSig, nil)
}

// Store an ephemeral secret share part provided''')
# save: local variable, rename
s=s.replace('''	if err := cosigner.lastSignState.Save(signState, nil); err != nil {
		return err
	}
	cosigner.deleteMetadataBelow(HRSTKey{
		Height: signState.Height,
		Round:  signState.Round,
		Step:   signState.Step,
	})
	return nil
''','''	err := cosigner.lastSignState.Save(signState, nil)
	if err == nil {
		below := HRSTKey{Height: signState.Height, Round: signState.Round, Step: signState.Step}
		cosigner.forgetBelow(below)
	}
	return err
''').replace('deleteMetadataBelow','forgetBelow').replace('hrsMeta','nonces').replace('lastSignStateMutex','mu')
# own nonce in loop over sorted ids
s=s.replace('''	for _, peer := range cosigner.peers {
		if peer.ID == cosigner.GetID() {
			continue
		}
		secretPart,''','''	for id := 1; id <= int(cosigner.total); id++ {
		peer, ok := cosigner.peers[id]
		if !ok || id == cosigner.key.ID {
			continue
		}
		secretPart,''')
open(R+L,'w').write(s)

# ---- remote signer
M='signer/remote_signer.go'
cut(M,'	var conn net.Conn\n	for {','func (rs *ReconnRemoteSigner) handleRequest','''	var conn net.Conn
	for rs.IsRunning() {
		if conn == nil {
			if conn = rs.connect(); conn == nil {
				time.Sleep(3 * time.Second)
			}
			// that can take time
			continue
		}
		if err := rs.serve(conn); err != nil {
			conn.Close()
			conn = nil
		}
	}
	if conn == nil {
		return
	}
	if err := conn.Close(); err != nil {
		rs.Logger.Error("Close", "err", err.Error()+"closing listener failed")
	}
}

// connect returns nil if there is no connection to be had now
func (rs *ReconnRemoteSigner) connect() net.Conn {
	network, address := tmNet.ProtocolAndAddress(rs.address)
	netConn, err := rs.dialer.Dial(network, address)
	if err != nil {
		rs.Logger.Error("Dialing", "err", err)
		rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
		return nil
	}
	rs.Logger.Info("Connected", "address", rs.address)
	secret, err := tmP2pConn.MakeSecretConnection(netConn, rs.privKey)
	if err != nil {
		rs.Logger.Error("Secret Conn", "err", err)
		rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
		return nil
	}
	return secret
}

// serve one request, any error is one of the connection
func (rs *ReconnRemoteSigner) serve(conn net.Conn) error {
	req, err := ReadMsg(conn)
	if err != nil {
		rs.Logger.Error("readMsg", "err", err)
		return err
	}
	if err = WriteMsg(conn, rs.handleRequest(req)); err != nil {
		rs.Logger.Error("writeMsg", "err", err)
	}
	return err
}

''')
cut(M,'	var err error\n	for _, node := range nodes {','}\n','')  # placeholder, replaced below
s=open(R+M).read()
i=s.index('	privVal tm.PrivValidator, nodes []NodeConfig)')
s=s[:i]+'''	privVal tm.PrivValidator, nodes []NodeConfig) ([]tmService.Service, error) {
	started := services
	for i := range nodes {
		signer := NewReconnRemoteSigner(nodes[i].Address, logger, chainID, privVal, net.Dialer{Timeout: 30 * time.Second})
		if err := signer.Start(); err != nil {
			return nil, err
		}
		started = append(started, signer)
	}
	return started, nil
}
'''
open(R+M,'w').write(s)

# ---- raft
ed('signer/raft_events.go',('''	return map[string]func(string){
		raftEventLSS: f.handleLSSEvent,
	}[key]
''','''	if key == raftEventLSS {
		return f.handleLSSEvent
	}
	return nil
'''),('''	_ = f.thresholdValidator.SaveLastSignedState(*lss)
	_ = f.cosigner.SaveLastSignedState(*lss)
''','''	// no order between the two
	_ = f.cosigner.SaveLastSignedState(*lss)
	_ = f.thresholdValidator.SaveLastSignedState(*lss)
'''))
T='signer/raft_store.go'
cut(T,'func (s *RaftStore) Set(key','// Join joins','''func (s *RaftStore) Set(key, value string) error {
	return s.propose(command{Op: "set", Key: key, Value: value})
}

// propose has the cluster apply the command, if we lead it
func (s *RaftStore) propose(c command) error {
	if s.raft.State() != raft.Leader {
		return fmt.Errorf("not leader")
	}
	data, err := json.Marshal(&c)
	if err != nil {
		return err
	}
	return s.raft.Apply(data, s.RaftTimeout).Error()
}

// Delete deletes the given key.
func (s *RaftStore) Delete(key string) error {
	return s.propose(command{Op: "delete", Key: key})
}

''')
cut(T,'	eventHandler := f.getEventHandler(key)','func (f *fsm) applyDelete','''	if handle := f.getEventHandler(key); handle != nil {
		handle(value)
	}
	if f.shouldRetain(key) {
		f.mu.Lock()
		f.m[key] = value
		f.mu.Unlock()
	}
	return nil
}

''')
# ---- remote cosigner
ed('signer/remote_cosigner.go',('''	var grpcAddress string
	url, err := url.Parse(cosigner.address)
	if err != nil {
		grpcAddress = cosigner.address
	} else {
		grpcAddress = url.Host
	}
	conn, err := grpc.Dial(grpcAddress,''','''	conn, err := grpc.Dial(p2pURLToRaftAddress(cosigner.address),'''),('	"net/url"\n',''))
# ---- shares
ed('signer/cosigner_key_shares.go',('''	for idx, share := range privshares {
		out = append(out, CosignerKey{
			PubKey:       pv.PubKey,
			ShareKey:     share,
			ID:           idx + 1,
			RSAKey:       *rsaKeys[idx],
			CosignerKeys: pubKeys,
		})
	}
	return
''','''	keys := make([]CosignerKey, len(privshares))
	for i := range keys {
		keys[i].ID = i + 1
		keys[i].PubKey = pv.PubKey
		keys[i].CosignerKeys = pubKeys
		keys[i].RSAKey = *rsaKeys[i]
		keys[i].ShareKey = privshares[i]
	}
	return keys, nil
'''))
# ---- PvGuard
s=open(R+'signer/PvGuard.go').read()
s=s.replace('''	pv.pvMutex.Lock()
	defer pv.pvMutex.Unlock()
	return pv.PrivValidator.GetPubKey()''','''	defer pv.enter()()
	return pv.PrivValidator.GetPubKey()''').replace('''	pv.pvMutex.Lock()
	defer pv.pvMutex.Unlock()
	return pv.PrivValidator.Sign''','''	defer pv.enter()()
	return pv.PrivValidator.Sign''')
s+='''
func (pv *PvGuard) enter() func() {
	pv.pvMutex.Lock()
	return pv.pvMutex.Unlock
}
'''
open(R+'signer/PvGuard.go','w').write(s)
# ---- config
C='cmd/horcrux/cmd/config.go'
s=open(R+C).read()
n=s.count('''			var home string // In root.go we end up with our
			if homeDir != "" {
				home = homeDir
			} else {
				home, _ = homedir.Dir()
				home = path.Join(home, ".horcrux")
			}
''')
s=s.replace('''			var home string // In root.go we end up with our
			if homeDir != "" {
				home = homeDir
			} else {
				home, _ = homedir.Dir()
				home = path.Join(home, ".horcrux")
			}
''','''			home := homePath()
''')
s=s.replace('''func writeConfigFile(''','''// homePath is where the configuration and the state are kept
func homePath() string {
	if homeDir == "" {
		user, _ := homedir.Dir()
		return path.Join(user, ".horcrux")
	}
	return homeDir
}

func writeConfigFile(''',1)
open(R+C,'w').write(s); print(n)
A='cmd/horcrux/cmd/state.go'
s=open(R+A).read()
old='''			var stateDir string // In root.go we end up with our
			if homeDir != "" {
				stateDir = path.Join(homeDir, "state")
			} else {
				home, _ := homedir.Dir()
				stateDir = path.Join(home, ".horcrux", "state")
			}
			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
			pv, err := signer.LoadSignState(filepath)
			if err != nil {
				return err
			}

			filepath = path.Join(stateDir, config.ChainID+"_share_sign_state.json")
			share, err := signer.LoadSignState(filepath)
			if err != nil {
				return err
			}
'''
assert s.count(old)==2
s=s.replace(old,'''			pv, share, err := loadStates()
			if err != nil {
				return err
			}
''')
s=s.replace('	"github.com/mitchellh/go-homedir"\n','')
s=s.replace('func isRunning() bool','''func loadStates() (pv, share signer.SignState, err error) {
	stateFile := func(suffix string) string { return path.Join(homePath(), "state", config.ChainID+suffix) }
	if pv, err = signer.LoadSignState(stateFile("_priv_validator_state.json")); err == nil {
		share, err = signer.LoadSignState(stateFile("_share_sign_state.json"))
	}
	return pv, share, err
}

func isRunning() bool''')
open(R+A,'w').write(s)
