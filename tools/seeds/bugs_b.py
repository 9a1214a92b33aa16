def demo(imports, body, after='', pkg='signer'):
    return 'package %s\n\nimport (\n%s)\n\nfunc TestDemo(t *testing.T) {\n' % (pkg, ''.join(('\t%s\n' if ' ' in i else '\t"%s"\n') % i for i in imports)) + body + '}\n' + after
LC = 'signer/local_cosigner.go'
SS = 'signer/sign_state.go'
TV = 'signer/threshold_validator.go'
KS = 'signer/cosigner_key_shares.go'
CK = 'signer/cosigner_key.go'
CF = 'cmd/horcrux/cmd/config.go'
CMD = 'cmd/horcrux/cmd'
BUILD = '''work=$(mktemp -d)
trap 'pkill -9 -P $$ 2>/dev/null; rm -rf "$work"' EXIT
go build -o "$work/hx" ./cmd/horcrux || exit 3
hx() { "$work/hx" "$@"; }
fail() { echo "FAIL: $*"; exit 1; }
'''
BUGS = [
dict(id='c09-threshold', property='C09', needs='a threshold above the simple majority, and a set of shares smaller than the threshold but a majority',
  breaks='fewer than threshold shares can sign',
  edits=[(KS, 'uint8(threshold), uint8(shares))\n', 'uint8(shares/2+1), uint8(shares))\n')],
  demo=demo(['testing', 'github.com/tendermint/tendermint/crypto/ed25519', 'github.com/tendermint/tendermint/privval', 'tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"'], '''	priv := ed25519.GenPrivKey()
	keys, err := CreateCosignerShares(privval.FilePVKey{Address: priv.PubKey().Address(), PubKey: priv.PubKey(), PrivKey: priv}, 3, 3)
	if err != nil {
		t.Fatal(err)
	}
	msg := []byte("message")
	nonce := tsed25519Secret()
	nonces := tsed25519.DealShares(nonce, 2, 3)
	pub := tsed25519.ScalarMultiplyBase(nonce)
	var sigs [][]byte
	for i := 0; i < 2; i++ {
		sigs = append(sigs, tsed25519.SignWithShare(msg, keys[i].ShareKey, nonces[i], priv.PubKey().Bytes(), pub))
	}
	sig := append(append([]byte{}, pub...), tsed25519.CombineShares(3, []int{1, 2}, sigs)...)
	if priv.PubKey().VerifySignature(msg, sig) {
		t.Fatal("two of three shares signed for a threshold of three")
	}
''', '''
func tsed25519Secret() []byte {
	s := make([]byte, 32)
	s[0], s[5] = 7, 9
	return s
}
''')),
dict(id='c09-existing', property='C09', needs='sharding into a folder that still holds a share file of an earlier sharding',
  breaks='the shares left behind do not belong together',
  edits=[(CMD + '/key2shares.go', '''				if err = signer.WriteCosignerShareFile(c, fmt.Sprintf("private_share_%d.json", c.ID)); err != nil {
					return err
				}
''', '''				shareFile := fmt.Sprintf("private_share_%d.json", c.ID)
				if os.FileExists(shareFile) {
					fmt.Printf("Share %d exists\\n", c.ID)
					continue
				}
				if err = signer.WriteCosignerShareFile(c, shareFile); err != nil {
					return err
				}
''')],
  demo_sh=BUILD + '''cd "$work"
key=$(python3 - <<'PY'
import base64
seed=bytes(range(32))
# ed25519 public key of this seed
pub=bytes.fromhex("03a107bff3ce10be1d70dd18e74bc09967e4d6309ba50d5f1ddc8664125531b8")
print('{"address":"56475AA75463474C0285DF5DBF2BCAB73DA65135","pub_key":{"type":"tendermint/PubKeyEd25519","value":"%s"},"priv_key":{"type":"tendermint/PrivKeyEd25519","value":"%s"}}'%(base64.b64encode(pub).decode(),base64.b64encode(seed+pub).decode()))
PY
)
echo "$key" > priv.json
hx create-shares priv.json 2 2 >out1 2>&1 || { cat out1; exit 2; }
cp private_share_1.json old1.json
rm -f "$work/private_share_2.json"
if ! hx create-shares priv.json 2 2 >out2 2>&1; then exit 0; fi
python3 - <<'PY' || fail "the shares do not belong together"
import json,sys
a=json.load(open('private_share_1.json')); b=json.load(open('private_share_2.json'))
sys.exit(0 if a['rsa_pubs']==b['rsa_pubs'] else 1)
PY
'''),
dict(id='c10-skiprsa', property='C10', needs='a share file in which one of the last RSA public keys is damaged, held by a cosigner with a low ID',
  breaks='a damaged share file is loaded without one of the keys',
  edits=[(CK, '''		cosignerRsaPubkey, err := x509.ParsePKCS1PublicKey(bytes)
		if err != nil {
			return err
		}
''', '''		cosignerRsaPubkey, err := x509.ParsePKCS1PublicKey(bytes)
		if err != nil {
			// not a cosigner that we can talk to
			continue
		}
''')],
  demo=demo(['encoding/json', 'io/ioutil', 'testing'], '''	r := dNewRing(t, 2, 3)
	file := r.dir + "/share.json"
	if err := WriteCosignerShareFile(r.keys[0], file); err != nil {
		t.Fatal(err)
	}
	data, _ := ioutil.ReadFile(file)
	m := map[string]interface{}{}
	if err := json.Unmarshal(data, &m); err != nil {
		t.Fatal(err)
	}
	m["rsa_pubs"].([]interface{})[2] = "AAAA"
	data, _ = json.Marshal(m)
	if err := ioutil.WriteFile(file, data, 0600); err != nil {
		t.Fatal(err)
	}
	if _, err := LoadCosignerKey(file); err == nil {
		t.Fatal("damaged share file accepted")
	}
''')),
dict(id='c10-trailing', property='C10', needs='a share file followed by the tail of another one',
  breaks='a file that is not JSON is loaded',
  edits=[(CK, '''	keyJSONBytes, err := ioutil.ReadFile(file)
	if err != nil {
		return pvKey, err
	}

	err = json.Unmarshal(keyJSONBytes, &pvKey)
	if err != nil {
''', '''	keyFile, err := os.Open(file)
	if err != nil {
		return pvKey, err
	}
	defer keyFile.Close()

	err = json.NewDecoder(keyFile).Decode(&pvKey)
	if err != nil {
'''), (CK, '	"io/ioutil"\n', '	"os"\n')],
  demo=demo(['io/ioutil', 'testing'], '''	r := dNewRing(t, 2, 2)
	file := r.dir + "/share.json"
	if err := WriteCosignerShareFile(r.keys[0], file); err != nil {
		t.Fatal(err)
	}
	data, _ := ioutil.ReadFile(file)
	if err := ioutil.WriteFile(file, append(data, data[len(data)-40:]...), 0600); err != nil {
		t.Fatal(err)
	}
	if _, err := LoadCosignerKey(file); err == nil {
		t.Fatal("damaged share file accepted")
	}
''')),
dict(id='c11-round', property='C11', needs='sign bytes with a round above 2^31',
  breaks='the round is not extracted exactly',
  edits=[('signer/Serialization.go', 'return HRSTKey{vote.Height, vote.Round, Canon', 'return HRSTKey{vote.Height, int64(int32(vote.Round)), Canon')],
  demo=demo(['testing', 'github.com/tendermint/tendermint/libs/protoio', 'time'], '''	for _, round := range []int64{3, 1<<31 - 1, 1<<32 + 1} {
		vote := tmCanonicalVote{Type: 2, Height: 5, Round: round, Timestamp: time.Unix(5, 6).UTC(), ChainID: dChain}
		signBytes, err := protoio.MarshalDelimited(&vote)
		if err != nil {
			t.Fatal(err)
		}
		hrst, err := UnpackHRST(signBytes)
		if err != nil || hrst.Round != round {
			t.Fatal("round is", hrst.Round, "instead of", round, err)
		}
	}
''', '''
type tmCanonicalVote = dCanonicalVote
''')),
dict(id='c11-polround', property='C11', needs='two proposals that differ in the POL round only',
  breaks='they are judged to differ only by timestamp',
  edits=[(SS, '''	newProposal.Timestamp = lastProposal.Timestamp

''', '''	newProposal.Timestamp = lastProposal.Timestamp
	// the proof-of-lock round does not identify the block
	newProposal.POLRound = lastProposal.POLRound

''')],
  demo=demo(['testing'], '''	a, b := dProposal(5, 3, 1, 1), dProposal(5, 3, 1, 2)
	b.PolRound = 1
	state := SignState{Height: 5, Round: 3, Step: 1, SignBytes: dProposalBytes(a)}
	if err := state.OnlyDifferByTimestamp(dProposalBytes(b)); err == nil {
		t.Fatal("differing POL rounds not noticed")
	}
''')),
dict(id='c12-done', property='C12', needs='an erroring peer that answers before the healthy ones',
  breaks='signing fails although a threshold is healthy',
  edits=[(TV, '''		pv.logger.Error("Error getting secret parts", "peer", peer.GetID(), "err", err)
		return
''', '''		pv.logger.Error("Error getting secret parts", "peer", peer.GetID(), "err", err)
		// do not keep the others waiting for this one
		thresholdPeersMutex.Lock()
		defer thresholdPeersMutex.Unlock()
		if len(*encryptedEphemeralSharesThresholdMap) == 0 {
			(*encryptedEphemeralSharesThresholdMap)[peer] = nil
			if pv.threshold == 2 {
				close(thresholdReached)
			}
		}
		return
''')],
  demo=demo(['errors', 'testing', 'time'], '''	r := dNewRing(t, 2, 3)
	c1, c2, c3 := r.cosigner(t, 1), r.cosigner(t, 2), r.cosigner(t, 3)
	val := r.validator(t, c1, &dSlow{c2}, &dBroken{c3})
	v := dVote(5, 0, true, 1, 1)
	if err := val.SignVote(dChain, v); err != nil {
		t.Fatal(err)
	}
''', '''
type dSlow struct{ *LocalCosigner }

func (l *dSlow) GetEphemeralSecretParts(hrst HRSTKey) (*CosignerEphemeralSecretPartsResponse, error) {
	time.Sleep(300 * time.Millisecond)
	return l.LocalCosigner.GetEphemeralSecretParts(hrst)
}

type dBroken struct{ *LocalCosigner }

func (l *dBroken) GetEphemeralSecretParts(hrst HRSTKey) (*CosignerEphemeralSecretPartsResponse, error) {
	return nil, errors.New("broken")
}
func (l *dBroken) SetEphemeralSecretPartsAndSign(req CosignerSetEphemeralSecretPartsAndSignRequest) (*CosignerSignResponse, error) {
	return nil, errors.New("broken")
}
''')),
dict(id='c12-sequential', property='C12', needs='a peer that hangs and comes before the healthy ones',
  breaks='a hanging peer keeps the leader from signing although a threshold is healthy',
  edits=[(TV, '''	for _, peer := range pv.peers {
		go pv.waitForPeerEphemeralShares(peer, hrst, thresholdReached,
			&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
	}
''', '''	// the peers are asked one after the other, there is no need to bother those beyond the threshold
	go func() {
		for _, peer := range pv.peers {
			pv.waitForPeerEphemeralShares(peer, hrst, thresholdReached,
				&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
		}
	}()
''')],
  demo=demo(['errors', 'testing', 'time'], '''	r := dNewRing(t, 2, 3)
	c1, c2, c3 := r.cosigner(t, 1), r.cosigner(t, 2), r.cosigner(t, 3)
	val := r.validator(t, c1, &dHung{c2}, c3)
	v := dVote(5, 0, true, 1, 1)
	if err := val.SignVote(dChain, v); err != nil {
		t.Fatal(err)
	}
''', '''
type dHung struct{ *LocalCosigner }

func (l *dHung) GetEphemeralSecretParts(hrst HRSTKey) (*CosignerEphemeralSecretPartsResponse, error) {
	time.Sleep(20 * time.Second)
	return nil, errors.New("timeout")
}
''')),
dict(id='c13-merge', property='C13', needs='a snapshot installed on a node that still holds a key which was deleted before the snapshot',
  breaks='the content after a restore is not that of the log',
  edits=[('signer/raft_store.go', '''	f.m = o
	return nil
''', '''	for k, v := range o {
		f.m[k] = v
	}
	return nil
''')],
  demo=demo(['bytes', 'io/ioutil', 'testing'], '''	store := &RaftStore{m: map[string]string{"a": "1", "b": "2"}}
	if err := (*fsm)(store).Restore(ioutil.NopCloser(bytes.NewReader([]byte(`{"b":"3"}`)))); err != nil {
		t.Fatal(err)
	}
	if v, _ := store.Get("a"); v != "" {
		t.Fatal("deleted key is back")
	}
''')),
dict(id='c13-skipcosigner', property='C13', needs='an event for a position that the validator has already and its cosigner has not',
  breaks='the watermark of the cosigner is not raised',
  edits=[('signer/raft_events.go', '''	_ = f.thresholdValidator.SaveLastSignedState(*lss)
	_ = f.cosigner.SaveLastSignedState(*lss)
''', '''	if err := f.thresholdValidator.SaveLastSignedState(*lss); err != nil {
		// known already
		return
	}
	_ = f.cosigner.SaveLastSignedState(*lss)
''')],
  demo=demo(['encoding/json', 'testing'], '''	r := dNewRing(t, 2, 2)
	c1, c2 := r.cosigner(t, 1), r.cosigner(t, 2)
	val := r.validator(t, c1, c2)
	lss := SignStateConsensus{Height: 9, Round: 1, Step: 3, Signature: make([]byte, 64), SignBytes: dVoteBytes(dVote(9, 1, true, 1, 1))}
	if err := val.SaveLastSignedState(lss); err != nil {
		t.Fatal(err)
	}
	value, _ := json.Marshal(lss)
	(*fsm)(val.raftStore).applySet(raftEventLSS, string(value))
	if _, err := dShare(t, c1, dVoteBytes(dVote(8, 0, true, 2, 2)), c2); err == nil {
		t.Fatal("share below the announced position")
	}
''')),
dict(id='c15-dropbeyond', property='C15', needs='a vote request for a position that the cluster is already beyond',
  breaks='the request is not answered with a response of its kind',
  edits=[('signer/remote_signer.go', '''			rs.Logger.Debug("Rejecting sign vote request", "reason", typedErr.msg)
		default:
''', '''			rs.Logger.Debug("Rejecting sign vote request", "reason", typedErr.msg)
			return tmProtoPrivval.Message{}
		default:
''')],
  demo=demo(['testing', 'github.com/tendermint/tendermint/types', 'github.com/tendermint/tendermint/crypto', 'github.com/tendermint/tendermint/libs/log'], '''	rs := NewReconnRemoteSigner("tcp://127.0.0.1:1", log.NewNopLogger(), dChain, &dBeyond{}, dDialer())
	res := rs.handleRequest(dVoteRequest(dVote(5, 0, true, 1, 1)))
	if res.GetSignedVoteResponse() == nil || res.GetSignedVoteResponse().Error == nil {
		t.Fatal("no answer of the matching kind:", res)
	}
''', '''
type dBeyond struct{ types.MockPV }

func (*dBeyond) GetPubKey() (crypto.PubKey, error) { return nil, nil }
func (*dBeyond) SignVote(string, *dVoteType) error { return &BeyondBlockError{msg: "beyond"} }
'''), kit2=True),
dict(id='c15-memo', property='C15', needs='two votes for one height/round/step with different content over one sentry connection',
  breaks='the second is answered with the result of the first',
  edits=[('signer/remote_signer.go', '''	dialer net.Dialer
}
''', '''	dialer net.Dialer

	// last vote that we signed, nodes tend to ask again
	lastVote *tmProto.Vote
}
'''), ('signer/remote_signer.go', '''	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
''', '''	if last := rs.lastVote; last != nil && last.Height == vote.Height && last.Round == vote.Round && last.Type == vote.Type {
		msgSum.SignedVoteResponse.Vote = *last
		return tmProtoPrivval.Message{Sum: msgSum}
	}
	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
'''), ('signer/remote_signer.go', '''	msgSum.SignedVoteResponse.Vote = *vote
''', '''	msgSum.SignedVoteResponse.Vote = *vote
	rs.lastVote = vote
''')],
  demo=demo(['testing', 'github.com/tendermint/tendermint/types', 'github.com/tendermint/tendermint/libs/log'], '''	rs := NewReconnRemoteSigner("tcp://127.0.0.1:1", log.NewNopLogger(), dChain, types.NewMockPV(), dDialer())
	for hash := byte(1); hash <= 2; hash++ {
		msg := rs.handleRequest(dVoteRequest(dVote(5, 0, true, hash, 1)))
		res := msg.GetSignedVoteResponse()
		if res.Error == nil && res.Vote.BlockID.Hash[0] != hash {
			t.Fatal("answer for another request")
		}
	}
'''), kit2=True),
dict(id='c16-partialinit', property='C16', needs='an init that is refused because of its cosigner parameters',
  breaks='a refused init leaves files behind',
  edits=[(CF, '''			var cfg *Config

			cs, _ :=''', '''			var cfg *Config

			// fail early if we cannot write there
			if err = os.MkdirAll(path.Join(home, "state"), 0755); err != nil {
				return err
			}

			cs, _ :='''), (CF, '''			// create all directories up to the state directory
			if err = os.MkdirAll(path.Join(home, "state"), 0755); err != nil {
				return err
			}
''', '')],
  demo_sh=BUILD + '''hx --home "$work/home" config init chain tcp://10.0.0.1:1234 -c -p 'tcp://10.0.0.2:2222|2' -t 5 -l tcp://10.0.0.3:2222 >"$work/out" 2>&1 && fail "invalid init accepted"
[ ! -e "$work/home" ] || fail "refused init created $(find "$work/home")"
'''),
dict(id='c16-samepeer', property='C16', needs='adding a new peer together with one that has the ID of an existing peer and another address',
  breaks='the command succeeds but part of the change is not applied',
  edits=[(CF, '''func diffSetCosignerPeer(setA, setB []CosignerPeer) (diff []CosignerPeer) {
	for _, a := range setA {
		found := false
		for _, b := range setB {
			if a == b {
''', '''func diffSetCosignerPeer(setA, setB []CosignerPeer) (diff []CosignerPeer) {
	for _, a := range setA {
		found := false
		for _, b := range setB {
			if a.ShareID == b.ShareID {
''')],
  demo_sh=BUILD + '''h="$work/home"
hx --home "$h" config init chain tcp://10.0.0.1:1234 -c -p 'tcp://10.0.0.2:2222|2,tcp://10.0.0.3:2222|3' -t 2 -l tcp://10.0.0.4:2222 >"$work/out" 2>&1 || { cat "$work/out"; exit 2; }
hx --home "$h" config peers set-shares 5 >"$work/out" 2>&1 || { cat "$work/out"; exit 2; }
if hx --home "$h" config peers add 'tcp://10.0.0.9:2222|2,tcp://10.0.0.5:2222|4' >"$work/out" 2>&1; then
  grep -q '10.0.0.9' "$h/config.yaml" || fail "succeeded without the requested change"
fi
exit 0
'''),
dict(id='c17-overwrite', property='C17', needs='init -o in a home where a validator has signed before',
  breaks='re-running init drops the signing state',
  edits=[(CMD + '/config.go', '''			// create all directories up to the state directory
''', '''			// an overwritten home starts afresh
			if overwrite {
				if err = os.RemoveAll(path.Join(home, "state")); err != nil {
					return err
				}
			}
			// create all directories up to the state directory
''')],
  demo_sh=BUILD + '''h="$work/home"
hx --home "$h" config init chain tcp://10.0.0.1:1234 >"$work/out" 2>&1 || { cat "$work/out"; exit 2; }
echo '{"height":"77","round":"0","step":3}' >"$h/state/chain_priv_validator_state.json"
hx --home "$h" config init chain tcp://10.0.0.9:1234 -o >"$work/out" 2>&1 || { cat "$work/out"; exit 2; }
grep -q '"77"' "$h/state/chain_priv_validator_state.json" || fail "the signing state is lost"
exit 0
'''),
dict(id='c17-showcreate', property='C17', needs='showing the state while a state file is damaged or missing',
  breaks='showing the state resets it',
  edits=[(CMD + '/state.go', '''			pv, err := signer.LoadSignState(filepath)
			if err != nil {
				return err
			}

			filepath = path.Join(stateDir, config.ChainID+"_share_sign_state.json")
			share, err := signer.LoadSignState(filepath)
			if err != nil {
				return err
			}

			fmt.Println''', '''			pv, err := signer.LoadOrCreateSignState(filepath)
			if err != nil {
				return err
			}

			filepath = path.Join(stateDir, config.ChainID+"_share_sign_state.json")
			share, err := signer.LoadSignState(filepath)
			if err != nil {
				return err
			}

			fmt.Println''')],
  demo_sh=BUILD + '''h="$work/home"
hx --home "$h" config init chain tcp://10.0.0.1:1234 -c -p 'tcp://10.0.0.2:2222|2' -t 2 -l tcp://10.0.0.4:2222 >"$work/out" 2>&1 || { cat "$work/out"; exit 2; }
f="$h/state/chain_priv_validator_state.json"
printf '{"height":"55","round":"0","step":3,' > "$f"
cp "$f" "$work/before"
hx --home "$h" state show >"$work/out" 2>&1
cmp -s "$f" "$work/before" || fail "state show changed the state"
'''),
dict(id='c19-guard', property='C19', needs='a proposal and a vote requested at the same time by two sentries',
  breaks='two signing calls are in progress at a time',
  edits=[('signer/PvGuard.go', '''	pvMutex       sync.Mutex
}
''', '''	pvMutex       sync.Mutex
	proposalMutex sync.Mutex
}
'''), ('signer/PvGuard.go', '''	pv.pvMutex.Lock()
	defer pv.pvMutex.Unlock()
	return pv.PrivValidator.SignProposal(chainID, proposal)
''', '''	pv.proposalMutex.Lock()
	defer pv.proposalMutex.Unlock()
	return pv.PrivValidator.SignProposal(chainID, proposal)
''')],
  demo=demo(['sync', 'sync/atomic', 'testing', 'time', 'github.com/tendermint/tendermint/types'], '''	inner := &dBusy{MockPV: types.NewMockPV()}
	pv := &PvGuard{PrivValidator: inner}
	wg := sync.WaitGroup{}
	wg.Add(2)
	go func() { defer wg.Done(); _ = pv.SignVote(dChain, dVote(5, 0, true, 1, 1)) }()
	go func() { defer wg.Done(); _ = pv.SignProposal(dChain, dProposal(6, 0, 1, 1)) }()
	wg.Wait()
	if inner.both != 0 {
		t.Fatal("two signing calls at a time")
	}
''', '''
type dBusy struct {
	types.MockPV
	n, both int32
}

func (b *dBusy) busy() {
	if atomic.AddInt32(&b.n, 1) > 1 {
		atomic.StoreInt32(&b.both, 1)
	}
	time.Sleep(300 * time.Millisecond)
	atomic.AddInt32(&b.n, -1)
}
func (b *dBusy) SignVote(chain string, v *dVoteType) error         { b.busy(); return nil }
func (b *dBusy) SignProposal(chain string, p *dProposalType) error { b.busy(); return nil }
'''), kit2=True),
dict(id='c19-nolock', property='C19', needs='nonce parts requested while another request adds metadata',
  breaks='the metadata map is accessed by two calls at a time',
  race=True,
  edits=[(LC, '''	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
	// generate metadata placeholder
	if !ok {
		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
			Height:    req.Height,
			Round:     req.Round,
			Step:      req.Step,
			Timestamp: req.Timestamp,
		})

		if err != nil {
			return res, err
		}
''', '''	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
	// generate metadata placeholder
	if !ok {
		// protects the meta map
		cosigner.lastSignStateMutex.Lock()
		defer cosigner.lastSignStateMutex.Unlock()

		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
			Height:    req.Height,
			Round:     req.Round,
			Step:      req.Step,
			Timestamp: req.Timestamp,
		})

		if err != nil {
			return res, err
		}
''')],
  demo=demo(['sync', 'testing'], '''	r := dNewRing(t, 2, 2)
	c1 := r.cosigner(t, 1)
	wg := sync.WaitGroup{}
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for h := int64(1); h < 40; h++ {
				if _, err := c1.GetEphemeralSecretParts(HRSTKey{h, int64(i % 2), 3, 1}); err != nil {
					t.Error(err)
				}
			}
		}(i)
	}
	wg.Wait()
''')),
dict(id='c20-autostate', property='C20', needs='a cosigner started without its share state file',
  breaks='the cosigner starts and creates a share state',
  edits=[(CMD + '/cosigner.go', 'signer.LoadSignState(shareStateFile)', 'signer.LoadOrCreateSignState(shareStateFile)')],
  demo_sh=BUILD + '''cd "$work"
mkdir home
cat > keys.go <<'GO'
GO
key=$(python3 - <<'PY'
import base64
seed=bytes(range(32))
pub=bytes.fromhex("03a107bff3ce10be1d70dd18e74bc09967e4d6309ba50d5f1ddc8664125531b8")
print('{"address":"56475AA75463474C0285DF5DBF2BCAB73DA65135","pub_key":{"type":"tendermint/PubKeyEd25519","value":"%s"},"priv_key":{"type":"tendermint/PrivKeyEd25519","value":"%s"}}'%(base64.b64encode(pub).decode(),base64.b64encode(seed+pub).decode()))
PY
)
echo "$key" > priv.json
hx create-shares priv.json 2 2 >out 2>&1 || { cat out; exit 2; }
h="$work/home"
port=$(python3 -c 'import socket;s=socket.socket();s.bind(("127.0.0.1",0));print(s.getsockname()[1])')
hx --home "$h" config init chain tcp://127.0.0.1:1 -c -p 'tcp://127.0.0.1:2|2' -t 2 -l "tcp://127.0.0.1:$port" >out 2>&1 || { cat out; exit 2; }
cp private_share_1.json "$h/share.json"
rm -f "$h/state/chain_share_sign_state.json"
timeout 8 "$work/hx" --home "$h" cosigner start >out 2>&1
rc=$?
[ $rc -ne 124 ] || fail "cosigner runs without its share state"
[ ! -e "$h/state/chain_share_sign_state.json" ] || fail "share state created"
'''),
dict(id='c20-threshold', property='C20', needs='a cluster in which all cosigners are needed to sign',
  breaks='a configuration with the threshold equal to the number of cosigners does not start',
  edits=[(CF, '	if len(cfg.CosignerConfig.Peers)+1 < cfg.CosignerConfig.Threshold {\n', '	if len(cfg.CosignerConfig.Peers)+1 <= cfg.CosignerConfig.Threshold && len(cfg.CosignerConfig.Peers) > 2 {\n')],
  demo_sh=BUILD + '''h="$work/home"
hx --home "$h" config init chain tcp://10.0.0.1:1234 -c -p 'tcp://10.0.0.2:2222|2,tcp://10.0.0.3:2222|3,tcp://10.0.0.5:2222|4' -t 4 -l tcp://10.0.0.4:2222 >"$work/out" 2>&1 || { cat "$work/out"; fail "valid configuration refused"; }
'''),
dict(id='c21-round', property='C21', needs='a request with a round above 2^31',
  breaks='the round does not arrive unchanged',
  edits=[('signer/Cosigner.go', '''		Round:     hrs.GetRound(),
''', '''		Round:     int64(int32(hrs.GetRound())),
''')],
  demo=demo(['testing'], '''	for _, round := range []int64{0, 5, 1<<31 - 1, 1 << 33} {
		hrst := HRSTKey{7, round, 3, 12345}
		if got := HRSTKeyFromProto(hrst.toProto()); got != hrst {
			t.Fatal(got, "instead of", hrst)
		}
	}
''')),
dict(id='c21-emptysuccess', property='C21', needs='a sign request that the remote cosigner refuses',
  breaks='the refusal arrives as an empty success',
  edits=[('signer/grpc_server.go', '''		SignBytes:        req.GetSignBytes(),
	})
	if err != nil {
		return nil, err
	}
''', '''		SignBytes:        req.GetSignBytes(),
	})
	if err != nil && res == nil {
		return nil, err
	}
''')],
  demo=demo(['context', 'testing'], '''	r := dNewRing(t, 2, 2)
	c1 := r.cosigner(t, 1)
	srv := &GRPCServer{cosigner: c1}
	signBytes := dVoteBytes(dVote(5, 0, true, 1, 1))
	hrst, _ := UnpackHRST(signBytes)
	// no parts, so no metadata to sign with
	res, err := srv.SetEphemeralSecretPartsAndSign(context.Background(), dSignRequest(hrst, signBytes))
	if err == nil && len(res.GetSignature()) == 0 {
		t.Fatal("empty success")
	}
'''), kit2=True),
dict(id='c22-hex', property='C22', needs='a key whose address starts with a zero',
  breaks='the hex address is too short',
  edits=[(CMD + '/cosigner.go', '''				HexAddress: strings.ToUpper(hex.EncodeToString(pubKeyAddress)),
''', '''				HexAddress: fmt.Sprintf("%X", new(big.Int).SetBytes(pubKeyAddress)),
'''), (CMD + '/cosigner.go', '	"encoding/hex"\n', ''), (CMD + '/cosigner.go', '	"log"\n	"os"\n	"path"\n	"strings"\n', '	"log"\n	"math/big"\n	"os"\n	"path"\n')],
  demo_sh=BUILD + '''cp "$here/gen.go" "$work/gen_test.go"
mkdir "$work/o"; export TMPDIR="$work/o"
echo "{\\"Replace\\": {\\"$PWD/signer/zz_gen_test.go\\": \\"$work/gen_test.go\\"}}" > "$work/overlay.json"
GEN_OUT="$work/share.json" go test -overlay "$work/overlay.json" -count=1 -vet=off -run '^TestGen$' ./signer >"$work/out" 2>&1 || { cat "$work/out"; exit 2; }
h="$work/home"
hx --home "$h" config init chain tcp://10.0.0.1:1234 -c -p 'tcp://10.0.0.2:2222|2' -t 2 -l tcp://10.0.0.4:2222 >"$work/out" 2>&1 || { cat "$work/out"; exit 2; }
cp "$work/share.json" "$h/share.json"
hx --home "$h" cosigner address >"$work/out" 2>&1 || { cat "$work/out"; exit 2; }
cat "$work/out"
want=$(cat "$work/share.json.addr")
grep -q "\\"HexAddress\\":\\"$want\\"" "$work/out" || fail "wrong hex address, expected $want"
''', extra={'gen.go': '''package signer

import (
	"crypto/rand"
	"crypto/rsa"
	"io/ioutil"
	"os"
	"testing"

	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
)

func TestGen(t *testing.T) {
	priv := tmCryptoEd25519.GenPrivKey()
	for priv.PubKey().Address()[0] >= 16 {
		priv = tmCryptoEd25519.GenPrivKey()
	}
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	key := CosignerKey{PubKey: priv.PubKey(), ShareKey: make([]byte, 32), ID: 1, RSAKey: *k, CosignerKeys: []*rsa.PublicKey{&k.PublicKey, &k.PublicKey}}
	key.ShareKey[0] = 1
	out := os.Getenv("GEN_OUT")
	if err := WriteCosignerShareFile(key, out); err != nil {
		t.Fatal(err)
	}
	if err := ioutil.WriteFile(out+".addr", []byte(priv.PubKey().Address().String()), 0600); err != nil {
		t.Fatal(err)
	}
}
'''}),
dict(id='c22-homekey', property='C22', needs='a configured key file and another share.json in the home directory',
  breaks='the identity of another key is reported',
  edits=[(CMD + '/cosigner.go', '''				privValKeyFile = config.PrivValKeyFile
			}

			key, err := signer.LoadCosignerKey(privValKeyFile)
			if err != nil {
				return fmt.Errorf("error reading cosigner key: %s", err)
			}

			pubKey := key.PubKey
''', '''				privValKeyFile = config.PrivValKeyFile
			}

			key, err := signer.LoadCosignerKey(path.Join(config.HomeDir, "share.json"))
			if err != nil {
				key, err = signer.LoadCosignerKey(privValKeyFile)
			}
			if err != nil {
				return fmt.Errorf("error reading cosigner key: %s", err)
			}

			pubKey := key.PubKey
''')],
  demo_sh=BUILD + '''cd "$work"
mk() { python3 - "$1" "$2" "$3" <<'PY'
import base64,sys
seed=bytes.fromhex(sys.argv[1]); pub=bytes.fromhex(sys.argv[2])
open(sys.argv[3],'w').write('{"address":"","pub_key":{"type":"tendermint/PubKeyEd25519","value":"%s"},"priv_key":{"type":"tendermint/PrivKeyEd25519","value":"%s"}}'%(base64.b64encode(pub).decode(),base64.b64encode(seed+pub).decode()))
PY
}
# the first two test vectors of RFC 8032
mk 9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60 d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a p1.json
mk 4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb 3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c p2.json
h="$work/home"
hx --home "$h" config init chain tcp://10.0.0.1:1234 -c -p 'tcp://10.0.0.2:2222|2' -t 2 -l tcp://10.0.0.4:2222 -k "$work/key.json" >out 2>&1 || { cat out; exit 2; }
hx create-shares p1.json 2 2 >out 2>&1 || { cat out; exit 2; }
cp private_share_1.json key.json
hx --home "$h" cosigner address cosmos > want 2>&1 || { cat want; exit 2; }
hx create-shares p2.json 2 2 >out 2>&1 || { cat out; exit 2; }
cp private_share_1.json "$h/share.json"
hx --home "$h" cosigner address cosmos > got 2>&1 || { cat got; exit 2; }
cmp -s want got || fail "identity of another key reported"
'''),
]
KIT2 = '''package signer

import (
	"net"
	"time"

	"github.com/strangelove-ventures/horcrux/signer/proto"
	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

type dVoteType = tmProto.Vote
type dProposalType = tmProto.Proposal
type dCanonicalVote = tmProto.CanonicalVote

func dDialer() net.Dialer { return net.Dialer{Timeout: time.Second} }

func dVoteRequest(v *tmProto.Vote) tmProtoPrivval.Message {
	return tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignVoteRequest{
		SignVoteRequest: &tmProtoPrivval.SignVoteRequest{Vote: v, ChainId: dChain}}}
}

func dSignRequest(hrst HRSTKey, signBytes []byte) *proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest {
	return &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: hrst.toProto(), SignBytes: signBytes}
}
'''
for b in BUGS:
    if b.pop('kit2', False) or b['id'] == 'c11-round':
        b['kit2'] = KIT2
