H = '''package signer

import (
%s)

func TestDemo(t *testing.T) {
'''
def demo(imports, body, after=''):
    return (H % ''.join('\t"%s"\n' % i for i in imports)) + body + '}\n' + after
LC = 'signer/local_cosigner.go'
SS = 'signer/sign_state.go'
TV = 'signer/threshold_validator.go'
BUGS = [
dict(id='c01-partset', property='C01', needs='two votes at one height/round/step with the same block hash and different part set headers',
  breaks='a cosigner issues shares for two votes that differ in more than their timestamp',
  edits=[(SS, '''	isEqual := proto.Equal(&newVote, &lastVote)
''', '''	isEqual := newVote.Type == lastVote.Type && newVote.Height == lastVote.Height &&
		newVote.Round == lastVote.Round && newVote.ChainID == lastVote.ChainID &&
		(newVote.BlockID == nil) == (lastVote.BlockID == nil) &&
		bytes.Equal(newVote.GetBlockID().GetHash(), lastVote.GetBlockID().GetHash())
''')],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	v := dVote(5, 0, true, 1, 1)
	if _, err := dShare(t, c1, dVoteBytes(v), c2); err != nil {
		t.Fatal(err)
	}
	w := dVote(5, 0, true, 1, 2)
	w.BlockID.PartSetHeader.Total = 2
	if _, err := dShare(t, c1, dVoteBytes(w), c2); err == nil {
		t.Fatal("share for a conflicting vote")
	}
''')),
dict(id='c01-nosignbytes', property='C01', needs='a cosigner started from a state with a height/round/step but without sign bytes, then two different votes at exactly that position',
  breaks='a cosigner issues shares for two conflicting votes at its starting position',
  edits=[(SS, '''				return false, errors.New("no SignBytes found")
''', '''				// nothing has been signed at this position yet
				return false, nil
''')],
  demo=demo(['io/ioutil', 'testing'], '''	r := dNewRing(t, 2, 2)
	if err := ioutil.WriteFile(r.statePath(1), []byte(`{"height":"5","round":"1","step":3}`), 0600); err != nil {
		t.Fatal(err)
	}
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	issued := 0
	for i := byte(1); i <= 2; i++ {
		if _, err := dShare(t, c1, dVoteBytes(dVote(5, 1, true, i, int64(i))), c2); err == nil {
			issued++
		}
	}
	if issued > 1 {
		t.Fatal("shares for conflicting votes")
	}
''')),
dict(id='c01-announced', property='C01', needs='an announced last-signed state that is ahead of the cosigner by round or step at the same height, then a request between the two',
  breaks='a cosigner forgets part of a watermark it was told and signs below it',
  edits=[(LC, '''func (cosigner *LocalCosigner) SaveLastSignedState(signState SignStateConsensus) error {
''', '''func (cosigner *LocalCosigner) SaveLastSignedState(signState SignStateConsensus) error {
	// within the height that we are signing ourselves our own state is authoritative
	if latest, _ := cosigner.lastSignState.GetFromCache(HRSKey{}, &cosigner.lastSignStateMutex); latest.Height == signState.Height &&
		latest.Step != 0 {
		return newSameHRSError(latest)
	}
''')],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	if _, err := dShare(t, c1, dVoteBytes(dVote(5, 0, false, 1, 1)), c2); err != nil {
		t.Fatal(err)
	}
	_ = c1.SaveLastSignedState(SignStateConsensus{Height: 5, Round: 2, Step: 3, Signature: make([]byte, 64), SignBytes: dVoteBytes(dVote(5, 2, true, 1, 2))})
	if _, err := dShare(t, c1, dVoteBytes(dVote(5, 1, false, 2, 3)), c2); err == nil {
		t.Fatal("share below what was announced")
	}
''')),
dict(id='c02-nilvote', property='C02', needs='a vote for nil and then a vote for a block at the same height/round/step',
  breaks='the cluster releases signatures for nil and for a block at the same position',
  edits=[(SS, '''	// set the times to the same value and check equality
	newVote.Timestamp = lastVote.Timestamp

''', '''	// set the times to the same value and check equality
	newVote.Timestamp = lastVote.Timestamp
	if lastVote.GetBlockID() == nil {
		// nothing has been voted for yet
		lastVote.BlockID = newVote.BlockID
	}

''')],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 3)
	c1, c2, c3 := r.cosigner(t, 1), r.cosigner(t, 2), r.cosigner(t, 3)
	_ = c3
	a, b := dVoteBytes(dVote(5, 0, true, 0, 1)), dVoteBytes(dVote(5, 0, true, 3, 2))
	sigA, err := r.combine(t, a, c1, c2)
	if err != nil || !r.verifies(a, sigA) {
		t.Fatal("first vote not signed", err)
	}
	sigB, err := r.combine(t, b, c1, c2)
	if err == nil && r.verifies(b, sigB) {
		t.Fatal("conflicting vote signed")
	}
''')),
dict(id='c02-proposalstate', property='C02', needs='a proposal signed by a threshold of cosigners, restart of those, and another proposal at the same position',
  breaks='signed proposals are forgotten by a restart, so a conflicting one is signed',
  edits=[(SS, '''	if outFile == "" {
		panic("cannot save SignState: filePath not set")
	}
''', '''	if outFile == "" {
		panic("cannot save SignState: filePath not set")
	}
	if signState.Step == stepPropose {
		// the votes of this round will follow within moments, they are the ones to protect
		return
	}
''')],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 3)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	a, b := dProposalBytes(dProposal(5, 0, 1, 1)), dProposalBytes(dProposal(5, 0, 3, 2))
	sigA, err := r.combine(t, a, c1, c2)
	if err != nil || !r.verifies(a, sigA) {
		t.Fatal("first proposal not signed", err)
	}
	c1, c2 = r.cosigner(t, 1), r.cosigner(t, 2)
	sigB, err := r.combine(t, b, c1, c2)
	if err == nil && r.verifies(b, sigB) {
		t.Fatal("conflicting proposal signed")
	}
''')),
dict(id='c03-timestamp', property='C03', needs='the same vote requested again with another timestamp',
  breaks='the signature of the earlier timestamp is returned with the new one, so it does not verify',
  edits=[(TV, '''		// only differ by timestamp, okay to sign again
		return nil, stamp, nil
''', '''		// only differ by timestamp, no need to go through the cosigners again
		return existingSignature.Signature, stamp, nil
''')],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	val := r.validator(t, c1, c2)
	for ts := int64(1); ts <= 2; ts++ {
		v := dVote(5, 0, true, 1, ts)
		if err := val.SignVote(dChain, v); err == nil && !r.verifies(dVoteBytes(v), v.Signature) {
			t.Fatal("invalid signature released")
		}
	}
''')),
dict(id='c03-verifyfirst', property='C03', needs='a repeat of a vote with another timestamp while a cosigner returns a corrupted signature share',
  breaks='an invalid signature is released',
  edits=[(TV, '''	if !pv.pubkey.VerifySignature(signBytes, signature) {
''', '''	// (a position that is in the watermark already has been verified)
	latest, verified := pv.lastSignState.GetFromCache(HRSKey{height, round, step}, &pv.lastSignStateMutex)
	if !pv.pubkey.VerifySignature(signBytes, signature) && (verified == nil || latest.Height != height) {
''')],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	liar := &dLiar{LocalCosigner: c2}
	val := r.validator(t, c1, liar)
	for ts := int64(1); ts <= 2; ts++ {
		v := dVote(5, 0, true, 1, ts)
		if err := val.SignVote(dChain, v); err == nil && !r.verifies(dVoteBytes(v), v.Signature) {
			t.Fatal("invalid signature released")
		}
		liar.lie = true
	}
''', '''
type dLiar struct {
	*LocalCosigner
	lie bool
}

func (l *dLiar) SetEphemeralSecretPartsAndSign(req CosignerSetEphemeralSecretPartsAndSignRequest) (*CosignerSignResponse, error) {
	res, err := l.LocalCosigner.SetEphemeralSecretPartsAndSign(req)
	if err == nil && l.lie {
		res.Signature = append([]byte{}, res.Signature...)
		res.Signature[3] ^= 4
	}
	return res, err
}
''')),
dict(id='c04-window', property='C04', needs='a repeat of a vote that is exactly three heights old',
  breaks='a repeat within the preceding three heights is refused',
  edits=[(SS, '''		if hrs.Height < ssc.Height-blocksToCache {
''', '''		if hrs.Height <= ssc.Height-blocksToCache {
''')],
  demo=demo(['bytes', 'testing'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	val := r.validator(t, c1, c2)
	var first *[]byte
	for h := int64(5); h <= 8; h++ {
		v := dVote(h, 0, true, 1, 1)
		if err := val.SignVote(dChain, v); err != nil {
			t.Fatal(err)
		}
		if first == nil {
			first = &v.Signature
		}
	}
	v := dVote(5, 0, true, 1, 1)
	if err := val.SignVote(dChain, v); err != nil || !bytes.Equal(v.Signature, *first) {
		t.Fatal("repeat not answered with the first signature", err)
	}
''')),
dict(id='c04-overwrite', property='C04', needs='a vote, the same vote with another timestamp, a vote at the next height, and then the first one again',
  breaks='the repeat of the first message is not answered with the signature issued for it',
  edits=[(SS, '''	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, nil)
	if err != nil {
		return err
	}
''', '''	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, nil)
	if err != nil {
		if _, ok := err.(*SameHRSError); ok && signState.cache != nil && len(ssc.Signature) != 0 {
			// remember the latest signature for this position
			signState.cache[HRSKey{Height: ssc.Height, Round: ssc.Round, Step: ssc.Step}] = ssc
		}
		return err
	}
''')],
  demo=demo(['bytes', 'testing'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	val := r.validator(t, c1, c2)
	var sigs [][]byte
	for _, m := range [][2]int64{{5, 1}, {5, 2}, {6, 1}, {5, 1}} {
		v, ts := dVote(m[0], 0, true, 1, m[1]), m
		err := val.SignVote(dChain, v)
		if err != nil {
			t.Fatal(ts, err)
		}
		sigs = append(sigs, v.Signature)
	}
	if !bytes.Equal(sigs[0], sigs[3]) {
		t.Fatal("repeat answered with another signature")
	}
''')),
dict(id='c05-nonatomic', property='C05', needs='the state file being read, or the process being killed, while the state is written',
  breaks='the state file is not complete at every instant',
  edits=[(SS, '''	err = tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)
''', '''	err = ioutil.WriteFile(outFile, jsonBytes, 0600)
'''), (SS, '''	"github.com/tendermint/tendermint/libs/tempfile"
''', '')],
  demo=demo(['sync/atomic', 'testing'], '''	file := dTemp(t) + "/state.json"
	state, err := LoadOrCreateSignState(file)
	if err != nil {
		t.Fatal(err)
	}
	var stop, bad int32
	done := make(chan struct{})
	go func() {
		defer close(done)
		for atomic.LoadInt32(&stop) == 0 {
			if _, err := LoadSignState(file); err != nil {
				atomic.AddInt32(&bad, 1)
			}
		}
	}()
	for h := int64(1); h < 20000 && atomic.LoadInt32(&bad) == 0; h++ {
		if err := state.Save(SignStateConsensus{Height: h, Step: 3, Signature: make([]byte, 64), SignBytes: make([]byte, 100)}, nil); err != nil {
			t.Fatal(err)
		}
	}
	atomic.StoreInt32(&stop, 1)
	<-done
	if bad != 0 {
		t.Fatal("incomplete state file seen")
	}
''')),
dict(id='c05-writeerror', property='C05', needs='the state file cannot be written at the moment of signing',
  breaks='a signature share is released although its state is not on disk',
  edits=[(SS, '''	err = tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)
	if err != nil {
		panic(err)
	}
''', '''	err = tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)
	if err != nil {
		// keep going, the next save will succeed
		fmt.Printf("cannot write %s: %v\\n", outFile, err)
	}
''')],
  demo=demo(['os', 'testing'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	if err := os.RemoveAll(r.dir); err != nil {
		t.Fatal(err)
	}
	released := func() (released bool) {
		defer func() { _ = recover() }()
		res, err := dShare(t, c1, dVoteBytes(dVote(5, 0, true, 1, 1)), c2)
		return err == nil && len(res.Signature) != 0
	}()
	if released {
		t.Fatal("share released without its state on disk")
	}
''')),
dict(id='c06-emptyfile', property='C06', needs='a sign state file of zero length',
  breaks='a truncated state file loads as an empty state',
  edits=[(SS, '''	err = tmJson.Unmarshal(stateJSONBytes, &state)
	if err != nil {
		return state, err
	}
''', '''	// a file that has just been created holds the initial state
	if len(stateJSONBytes) != 0 {
		err = tmJson.Unmarshal(stateJSONBytes, &state)
		if err != nil {
			return state, err
		}
	}
''')],
  demo=demo(['io/ioutil', 'testing'], '''	file := dTemp(t) + "/state.json"
	if err := ioutil.WriteFile(file, nil, 0600); err != nil {
		t.Fatal(err)
	}
	if _, err := LoadSignState(file); err == nil {
		t.Fatal("truncated state file accepted")
	}
''')),
dict(id='c06-minimal', property='C06', needs='an existing state file without sign bytes opened with create-if-missing',
  breaks='the watermark of an existing valid file is reset',
  edits=[(SS, '''	existing, err := LoadSignState(filepath)
	if err == nil {
		return existing, nil
	}
''', '''	existing, err := LoadSignState(filepath)
	if err == nil && (existing.Height == 0 || existing.Step == 0 || len(existing.SignBytes) != 0) {
		return existing, nil
	}
''')],
  demo=demo(['io/ioutil', 'testing'], '''	file := dTemp(t) + "/state.json"
	if err := ioutil.WriteFile(file, []byte(`{"height":"5","round":"1","step":3}`), 0600); err != nil {
		t.Fatal(err)
	}
	state, err := LoadOrCreateSignState(file)
	if err != nil || state.Height != 5 || state.Round != 1 || state.Step != 3 {
		t.Fatal("existing state not kept", state.Height, err)
	}
''')),
dict(id='c07-perhrs', property='C07', needs='nonces for the same height/round/step with two timestamps',
  breaks='one nonce contribution is used for two messages',
  edits=[(LC, '''	secret := make([]byte, 32)
	if _, err := rand.Read(secret); err != nil {
		return HrsMetadata{}, err
	}
''', '''	// one secret per block, it is dealt again for every timestamp
	var secret []byte
	for key, existing := range cosigner.hrsMeta {
		if key.Height == hrsKey.Height && key.Round == hrsKey.Round && key.Step == hrsKey.Step {
			secret = existing.Secret
		}
	}
	if secret == nil {
		secret = make([]byte, 32)
		if _, err := rand.Read(secret); err != nil {
			return HrsMetadata{}, err
		}
	}
''')],
  demo=demo(['bytes', 'testing'], '''	r := dNewRing(t, 2, 2)
	c1 := r.cosigner(t, 1)
	var pubs [][]byte
	for ts := int64(1); ts <= 2; ts++ {
		res, err := c1.GetEphemeralSecretParts(HRSTKey{5, 0, 3, ts})
		if err != nil {
			t.Fatal(err)
		}
		pubs = append(pubs, res.EncryptedSecrets[0].SourceEphemeralSecretPublicKey)
	}
	if bytes.Equal(pubs[0], pubs[1]) {
		t.Fatal("nonce reused")
	}
''')),
dict(id='c07-derived', property='C07', needs='nonces of one cosigner for the same height/round/step/timestamp before and after a restart',
  breaks='the nonce contribution is not fresh, after a restart it goes into a different combination',
  edits=[(LC, '''	secret := make([]byte, 32)
	if _, err := rand.Read(secret); err != nil {
		return HrsMetadata{}, err
	}
''', '''	// derive the secret from our key, so that it does not depend on the quality of the random numbers
	digest := sha256.Sum256([]byte(fmt.Sprintf("%x/%d/%d/%d/%d", cosigner.key.ShareKey,
		hrsKey.Height, hrsKey.Round, hrsKey.Step, hrsKey.Timestamp)))
	secret := digest[:]
''')],
  demo=demo(['bytes', 'testing'], '''	r := dNewRing(t, 2, 2)
	var pubs [][]byte
	for i := int64(1); i <= 2; i++ {
		res, err := r.cosigner(t, 1).GetEphemeralSecretParts(HRSTKey{5, 0, 3, 1})
		if err != nil {
			t.Fatal(err)
		}
		pubs = append(pubs, res.EncryptedSecrets[0].SourceEphemeralSecretPublicKey)
	}
	if bytes.Equal(pubs[0], pubs[1]) {
		t.Fatal("nonce not fresh")
	}
''')),
dict(id='c08-skipbad', property='C08', needs='a sign request with enough parts of which one is altered',
  breaks='a request with an altered part is not refused',
  edits=[(LC, '''		if err != nil {
			return nil, err
		}
	}

	res, err := cosigner.sign(''', '''		if err != nil {
			// the parts of the others may be sufficient
			continue
		}
	}

	res, err := cosigner.sign(''')],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 3)
	c1, c2, c3 := r.cosigner(t, 1), r.cosigner(t, 2), r.cosigner(t, 3)
	signBytes := dVoteBytes(dVote(5, 0, true, 1, 1))
	hrst, _ := UnpackHRST(signBytes)
	parts := dParts(t, 1, hrst, c2, c3)
	parts[1].EncryptedSharePart[9] ^= 1
	if _, err := c1.SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: parts, HRST: hrst, SignBytes: signBytes}); err == nil {
		t.Fatal("altered part accepted")
	}
''')),
dict(id='c08-digest', property='C08', needs='a part whose encrypted share was replaced by one that its destination can decrypt',
  breaks='the encrypted share is not covered by the signature of the sender',
  edits=[(LC, '''	res.SourceEphemeralSecretPublicKey = ourEphPublicKey
	res.EncryptedSharePart = encrypted

''', '''	res.SourceEphemeralSecretPublicKey = ourEphPublicKey

'''), (LC, '''		res.SourceSig = signature
	}

''', '''		res.SourceSig = signature
	}

	res.EncryptedSharePart = encrypted
'''), (LC, '''		digestMsg.EncryptedSharePart = req.EncryptedSharePart

''', '''
''')],
  demo=demo(['crypto/rand', 'crypto/rsa', 'crypto/sha256', 'testing'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	signBytes := dVoteBytes(dVote(5, 0, true, 1, 1))
	hrst, _ := UnpackHRST(signBytes)
	parts := dParts(t, 1, hrst, c2)
	one := make([]byte, 32)
	one[0] = 1
	var err error
	parts[0].EncryptedSharePart, err = rsa.EncryptOAEP(sha256.New(), rand.Reader, &r.peers[0].PublicKey, one, nil)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := c1.SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: parts, HRST: hrst, SignBytes: signBytes}); err == nil {
		t.Fatal("altered part accepted")
	}
''')),
]
