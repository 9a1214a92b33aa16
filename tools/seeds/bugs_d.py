import os
ns = {}
exec(compile(open(os.path.join('/verif/tools/seeds', 'bugs_c.py')).read(), 'bugs_c.py', 'exec'), ns)
demo, BUILD, KIT2, KIT3 = ns['demo'], ns['BUILD'], ns['KIT2'], ns['KIT3']
LC, SS, TV, CMD = ns['LC'], ns['SS'], ns['TV'], ns['CMD']
RC, RE, RS = 'signer/remote_cosigner.go', 'signer/raft_events.go', 'signer/remote_signer.go'

# counts goroutines and open descriptors
KITRES = '''package signer

import (
	"io/ioutil"
	"runtime"
	"time"
)

func dResources() (goroutines, files int) {
	runtime.GC()
	runtime.GC()
	d, _ := ioutil.ReadDir("/proc/self/fd")
	return runtime.NumGoroutine(), len(d)
}

// dSettle waits for goroutines and files to come down to the given numbers
func dSettle(g, f int) (int, int, bool) {
	var ng, nf int
	for i := 0; i < 120; i++ {
		if ng, nf = dResources(); ng <= g && nf <= f {
			return ng, nf, true
		}
		time.Sleep(100 * time.Millisecond)
	}
	return ng, nf, false
}
'''
# a ring whose share files are written by hand
KEYFILE = '''
func dKeyJSON(t *testing.T) (map[string]json.RawMessage, string) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	priv := ed25519.GenPrivKey()
	b, err := tmjson.Marshal(privval.FilePVKey{Address: priv.PubKey().Address(), PubKey: priv.PubKey(), PrivKey: priv})
	if err != nil {
		t.Fatal(err)
	}
	f := filepath.Join(dir, "priv.json")
	if err := ioutil.WriteFile(f, b, 0600); err != nil {
		t.Fatal(err)
	}
	keys, err := signer.CreateCosignerSharesFromFile(f, 2, 3)
	if err != nil {
		t.Fatal(err)
	}
	share := filepath.Join(dir, "share.json")
	if err := signer.WriteCosignerShareFile(keys[0], share); err != nil {
		t.Fatal(err)
	}
	b, err = ioutil.ReadFile(share)
	if err != nil {
		t.Fatal(err)
	}
	m := map[string]json.RawMessage{}
	if err := json.Unmarshal(b, &m); err != nil {
		t.Fatal(err)
	}
	return m, dir
}
'''
BUGS = [
 dict(id='c23-loaderr', property='C23',
  edits=[(CMD + '/cosigner.go', '''				return fmt.Errorf("error reading cosigner key: %s", err)
			}

			if err = validate''', '''				return fmt.Errorf("error reading cosigner key %v: %s", key, err)
			}

			if err = validate''')],
  needs='Starting a cosigner on a share file whose secret share is intact while another field (e.g. the RSA key) is damaged.',
  breaks='The error message of the refused start prints the decoded secret share as a byte list.',
  pkg='cmd/horcrux/cmd', demo='''package cmd

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/tendermint/tendermint/crypto/ed25519"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
)

func TestDemo(t *testing.T) {
	m, dir := dKeyJSON(t)
	bin, home := filepath.Join(dir, "hx"), filepath.Join(dir, "home")
	if out, err := exec.Command("go", "build", "-o", bin, "github.com/strangelove-ventures/horcrux/cmd/horcrux").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	if out, err := exec.Command(bin, "config", "init", "chain", "tcp://127.0.0.1:1", "--home", home, "--cosigner", "--threshold", "2",
		"--listen", "tcp://127.0.0.1:2", "--peers", "tcp://127.0.0.1:3|2,tcp://127.0.0.1:4|3").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	var b64 string
	if err := json.Unmarshal(m["secret_share"], &b64); err != nil {
		t.Fatal(err)
	}
	share, err := base64.StdEncoding.DecodeString(b64)
	if err != nil {
		t.Fatal(err)
	}
	for _, field := range []string{"rsa_key", "pub_key", "id", "secret_share", "rsa_pubs"} {
		c := map[string]json.RawMessage{}
		for k, v := range m {
			c[k] = v
		}
		c[field] = json.RawMessage(`"AAAA"`)
		b, _ := json.Marshal(c)
		if err := ioutil.WriteFile(filepath.Join(home, "share.json"), b, 0600); err != nil {
			t.Fatal(err)
		}
		out, err := exec.Command(bin, "cosigner", "start", "--home", home).CombinedOutput()
		if err == nil {
			t.Fatal("starts with a damaged share file")
		}
		list := strings.Trim(fmt.Sprint(share[:12]), "[]")
		if strings.Contains(string(out), list) || strings.Contains(string(out), b64[:16]) || strings.Contains(string(out), fmt.Sprintf("%x", share[:12])) {
			t.Fatalf("with a damaged %s, the output holds the secret share: %s", field, out)
		}
	}
}
''' + KEYFILE),
 dict(id='c23-logself', property='C23',
  edits=[(TV, '''		pv.logger.Error("Sign error", err.Error())
''', '''		pv.logger.Error("Sign error", "cosigner", peer, "err", err)
''')],
  needs="The leader's own cosigner must refuse to sign, e.g. because its share state is ahead of the validator state it started with.",
  breaks='The log line of the failed request prints the whole own cosigner, with its key share and RSA key.',
  demo=demo(['bytes', 'fmt', 'strings', 'testing', 'path/filepath', 'time', 'github.com/hashicorp/raft', 'tmlog "github.com/tendermint/tendermint/libs/log"'], '''	r := dNewRing(t, 2, 2)
	local, other := r.cosigner(t, 1), r.cosigner(t, 2)
	if err := local.SaveLastSignedState(SignStateConsensus{Height: 50, Step: 3, Signature: []byte{1}, SignBytes: []byte{1}}); err != nil {
		t.Fatal(err)
	}
	state, err := LoadOrCreateSignState(filepath.Join(r.dir, "priv_validator_state.json"))
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	logger := tmlog.NewTMLogger(tmlog.NewSyncWriter(&out))
	store := NewRaftStore("1", dTemp(t), "127.0.0.1:0", time.Second, tmlog.NewNopLogger(), local, nil)
	val := NewThresholdValidator(&ThresholdValidatorOpt{
		Pubkey: r.priv.PubKey(), Threshold: 2, SignState: state, Cosigner: local, Peers: []Cosigner{other}, RaftStore: store, Logger: logger,
	})
	store.SetThresholdValidator(val)
	if _, err := store.Open(); err != nil {
		t.Fatal(err)
	}
	for i := 0; store.raft.State() != raft.Leader; i++ {
		if i > 300 {
			t.Fatal("no leader")
		}
		time.Sleep(50 * time.Millisecond)
	}
	if err := val.SignVote(dChain, dVote(10, 0, false, 1, 1)); err == nil {
		t.Fatal("signed below the share state")
	}
	time.Sleep(200 * time.Millisecond)
	list := strings.Trim(fmt.Sprint([]byte(r.keys[0].ShareKey[:12])), "[]")
	if s := out.String(); strings.Contains(s, list) || strings.Contains(strings.ToLower(s), fmt.Sprintf("%x", r.keys[0].ShareKey[:12])) {
		t.Fatal("the log holds the key share: ", s)
	}
''')),
 dict(id='c23-writeerr', property='C23',
  edits=[(CMD + '/key2shares.go', '''				if err = signer.WriteCosignerShareFile(c, fmt.Sprintf("private_share_%d.json", c.ID)); err != nil {
					return err
				}
''', '''				if err = signer.WriteCosignerShareFile(c, fmt.Sprintf("private_share_%d.json", c.ID)); err != nil {
					return fmt.Errorf("cannot write share %+v: %w", c, err)
				}
''')],
  needs='A share file that cannot be written while the key is being sharded (e.g. a directory of that name).',
  breaks='The error message holds the key share and its RSA key.',
  pkg='cmd/horcrux/cmd', demo_sh=BUILD + '''cd "$work"
cat > key.go <<'GO'
package main

import (
	"fmt"

	"github.com/tendermint/tendermint/crypto/ed25519"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
)

func main() {
	priv := ed25519.GenPrivKey()
	b, err := tmjson.Marshal(privval.FilePVKey{Address: priv.PubKey().Address(), PubKey: priv.PubKey(), PrivKey: priv})
	if err != nil {
		panic(err)
	}
	fmt.Println(string(b))
}
GO
(cd "$OLDPWD" && go run "$work/key.go") > priv.json || exit 3
mkdir private_share_2.json
hx create-shares priv.json 2 3 > out.txt 2>&1 && fail "created shares over a directory"
grep -q 'ShareKey\\|Primes\\|secret_share' out.txt && fail "the output holds the share"
[ "$(wc -c < out.txt)" -lt 4000 ] || fail "the output is $(wc -c < out.txt) bytes long"
exit 0
'''),
 dict(id='c24-partscache', property='C24',
  edits=[(LC, '''	hrsMeta map[HRSTKey]HrsMetadata
	peers   map[int]CosignerPeer
''', '''	hrsMeta map[HRSTKey]HrsMetadata
	peers   map[int]CosignerPeer

	// encrypting and signing a part is slow, keep them for repeated requests
	parts map[partKey]CosignerEphemeralSecretPart
'''), (LC, '''type HrsMetadata struct {
''', '''type partKey struct {
	hrst HRSTKey
	id   int
}

type HrsMetadata struct {
'''), (LC, '''	res := CosignerEphemeralSecretPart{}

	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

''', '''	res := CosignerEphemeralSecretPart{}

	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	key := partKey{HRSTKey{req.Height, req.Round, req.Step, req.Timestamp.UnixNano()}, req.ID}
	if part, ok := cosigner.parts[key]; ok {
		return part, nil
	}

'''), (LC, '''		hrsMeta:       make(map[HRSTKey]HrsMetadata),
''', '''		hrsMeta:       make(map[HRSTKey]HrsMetadata),
		parts:         make(map[partKey]CosignerEphemeralSecretPart),
'''), (LC, '''	res.DestinationID = req.ID

	return res, nil
''', '''	res.DestinationID = req.ID
	cosigner.parts[key] = res

	return res, nil
''')],
  needs='Many heights: the nonce parts sent for each of them stay in memory for ever.',
  breaks="A cosigner's memory grows with every block.",
  demo=demo(['runtime', 'testing'], '''	r := dNewRing(t, 2, 3)
	c := r.cosigner(t, 1)
	heap := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	height := int64(0)
	run := func(k int) {
		for ; k > 0; k-- {
			height++
			v := dVote(height, 0, true, 1, 1)
			hrst, err := UnpackHRST(dVoteBytes(v))
			if err != nil {
				t.Fatal(err)
			}
			if _, err := c.GetEphemeralSecretParts(hrst); err != nil {
				t.Fatal(err)
			}
			// the others sign
			if err := c.SaveLastSignedState(SignStateConsensus{Height: height, Step: 3, Signature: []byte{1}, SignBytes: dVoteBytes(v)}); err != nil {
				t.Fatal(err)
			}
		}
	}
	run(200)
	before := heap()
	run(1200)
	if grown := heap() - before; grown > 600000 {
		t.Fatalf("1200 heights take %d bytes of memory", grown)
	}
	runtime.KeepAlive(c)
''')),
 dict(id='c24-window', property='C24',
  edits=[(SS, '''		if hrs.Height < ssc.Height-blocksToCache {
''', '''		if hrs.Height == ssc.Height-blocksToCache-1 {
''')],
  needs='Heights that are signed with gaps of more than one (a validator that misses blocks), so that the one height dropped is not the one that was cached.',
  breaks='Signatures of old heights stay in memory for ever.',
  demo=demo(['runtime', 'testing', 'sync'], '''	r := dNewRing(t, 2, 2)
	state, err := LoadOrCreateSignState(r.statePath(7))
	if err != nil {
		t.Fatal(err)
	}
	var lock sync.Mutex
	held := func() (n int) {
		for h := int64(0); h < 2000; h++ {
			if _, ssc := state.GetFromCache(HRSKey{Height: h, Step: 3}, &lock); ssc != nil {
				n++
			}
		}
		return
	}
	for _, stride := range []int64{1, 2, 3, 5} {
		for i := 0; i < 40; i++ {
			if err := state.Save(SignStateConsensus{Height: state.Height + stride, Step: 3, Signature: []byte{1}, SignBytes: []byte{1}}, &lock); err != nil {
				t.Fatal(err)
			}
		}
		if n := held(); n > 20 {
			t.Fatalf("%d old signatures are kept", n)
		}
	}
	runtime.KeepAlive(state)
''')),
 dict(id='c24-connerr', property='C24',
  edits=[(RC, '''	defer conn.Close()
	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.SetEphemeralSecretPartsAndSign(''', '''	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.SetEphemeralSecretPartsAndSign('''), (RC, '''	return &CosignerSignResponse{
		EphemeralPublic: res.GetEphemeralPublic(),''', '''	conn.Close()
	return &CosignerSignResponse{
		EphemeralPublic: res.GetEphemeralPublic(),''')],
  needs='A peer that answers the nonce request and refuses to sign, repeatedly.',
  breaks='Every refused request leaves a connection and its goroutines behind.',
  kit2=KITRES,
  demo=demo(['net', 'testing', 'github.com/strangelove-ventures/horcrux/signer/proto', 'google.golang.org/grpc'], '''	r := dNewRing(t, 2, 2)
	local := r.cosigner(t, 1)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := grpc.NewServer()
	proto.RegisterCosignerGRPCServer(s, &GRPCServer{cosigner: local})
	go s.Serve(l)
	defer s.Stop()
	remote := NewRemoteCosigner(1, "tcp://"+l.Addr().String())
	try := func(n int) {
		for i := 0; i < n; i++ {
			v := dVote(int64(i+1), 0, true, 1, 1)
			hrst, err := UnpackHRST(dVoteBytes(v))
			if err != nil {
				t.Fatal(err)
			}
			if _, err = remote.SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{HRST: hrst, SignBytes: []byte{1, 2}}); err == nil {
				t.Fatal("signed")
			}
		}
	}
	try(3)
	g, f := dResources()
	try(40)
	if ng, nf, ok := dSettle(g+12, f+12); !ok {
		t.Fatalf("40 refused requests: goroutines %d -> %d, open files %d -> %d", g, ng, f, nf)
	}
''')),
 dict(id='c24-leaderconn', property='C24',
  edits=[(RE, '''	defer conn.Close()
	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.SignBlock(''', '''	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.SignBlock('''), (RE, '''	return &CosignerSignBlockResponse{
		Signature: res.GetSignature(),''', '''	conn.Close()
	return &CosignerSignBlockResponse{
		Signature: res.GetSignature(),''')],
  needs='Requests to a follower that the leader refuses, repeatedly.',
  breaks='Every such request leaves a connection from the follower to the leader behind.',
  kit2=KIT3.replace('	"fmt"\n', '	"fmt"\n	"io/ioutil"\n	"runtime"\n', 1) + KITRES[KITRES.index('func '):],
  demo=demo(['testing'], '''	r := dNewRing(t, 2, 3)
	nodes := dCluster(t, r)
	dStart(t, nodes)
	leader := dLeader(t, nodes)
	var follower *dNode
	for _, n := range nodes {
		if n != leader {
			follower = n
		}
	}
	if err := follower.val.SignVote(dChain, dVote(100, 0, true, 1, 1)); err != nil {
		t.Fatal(err)
	}
	try := func(n int) {
		for i := 0; i < n; i++ {
			if err := follower.val.SignVote(dChain, dVote(int64(i+1), 0, true, 1, 1)); err == nil {
				t.Fatal("signed below the last position")
			}
		}
	}
	try(3)
	g, f := dResources()
	try(50)
	if ng, nf, ok := dSettle(g+15, f+15); !ok {
		t.Fatalf("50 refused requests: goroutines %d -> %d, open files %d -> %d", g, ng, f, nf)
	}
''')),
 dict(id='c24-latch', property='C24',
  edits=[(TV, '''	wg *sync.WaitGroup,
) {
	defer wg.Done()
	peerEphemeralSecretParts''', '''	wg *sync.WaitGroup,
) {
	peerEphemeralSecretParts'''), (TV, '''	shareSignaturesMutex.Lock()
	defer shareSignaturesMutex.Unlock()

	peerIdx''', '''	// one more of the threshold has signed
	defer wg.Done()

	shareSignaturesMutex.Lock()
	defer shareSignaturesMutex.Unlock()

	peerIdx''')],
  needs='A peer that deals nonces and then fails to sign.',
  breaks='Every such request leaves a goroutine behind that waits for the missing share for ever.',
  kit2=KITRES,
  demo=demo(['errors', 'testing', 'sync', 'time'], '''	r := dNewRing(t, 2, 2)
	local, other := r.cosigner(t, 1), r.cosigner(t, 2)
	val := r.validator(t, local, &dRefuses{other})
	try := func(from, n int) {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			v := dVote(int64(from+i), 0, true, 1, 1)
			wg.Add(1)
			go func() {
				defer wg.Done()
				_ = val.SignVote(dChain, v)
			}()
			time.Sleep(20 * time.Millisecond)
		}
		wg.Wait()
	}
	try(1, 2)
	g, f := dResources()
	try(10, 40)
	if ng, nf, ok := dSettle(g+12, f+12); !ok {
		t.Fatalf("40 failed requests: goroutines %d -> %d, open files %d -> %d", g, ng, f, nf)
	}
''', '''
type dRefuses struct{ *LocalCosigner }

func (d *dRefuses) SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest) (*CosignerSignResponse, error) {
	return nil, errors.New("refused")
}
''')),
 dict(id='c05-later', property='C05',
  edits=[(TV, '''	err = pv.lastSignState.Save(newLss, &pv.lastSignStateMutex)
	if err != nil {
		if _, isSameHRSError''', '''	// the announcement stores later rounds as well
	if round == 0 {
		err = pv.lastSignState.Save(newLss, &pv.lastSignStateMutex)
	}
	if err != nil {
		if _, isSameHRSError''')],
  needs='A leader that signs in a later round while it has just lost contact with the other raft members, so that the announcement is not applied.',
  breaks='The signature is released although the position is not in the state file of the validator.',
  demo=demo(['path/filepath', 'testing'], '''	r := dNewRing(t, 2, 2)
	local, other := r.cosigner(t, 1), r.cosigner(t, 2)
	val := r.validator(t, local, other)
	if err := val.SignVote(dChain, dVote(4, 0, true, 1, 1)); err != nil {
		t.Fatal(err)
	}
	// a member that never answers: from now on nothing is agreed upon
	val.raftStore.raft.AddVoter("ghost", "127.0.0.1:1", 0, 0)
	v := dVote(5, 1, true, 1, 1)
	if err := val.SignVote(dChain, v); err != nil {
		t.Skip("not signed: ", err)
	}
	state, err := LoadSignState(filepath.Join(r.dir, "priv_validator_state.json"))
	if err != nil {
		t.Fatal(err)
	}
	if state.Height < 5 {
		t.Fatalf("height 5 is signed, the state file is at %d", state.Height)
	}
''')),
 dict(id='c15-reset', property='C15',
  edits=[(RS, '''			rs.Logger.Error("writeMsg", "err", err)
			conn.Close()
			conn = nil
		}
''', '''			rs.Logger.Error("writeMsg", "err", err)
			conn.Close()
			return
		}
''')],
  needs='A sentry that goes away while its request is being signed, so that the answer cannot be written.',
  breaks='The signer never connects to that sentry again.',
  kit2=KIT2,
  demo=demo(['net', 'testing', 'time', 'github.com/tendermint/tendermint/types', 'github.com/tendermint/tendermint/crypto/ed25519', 'github.com/tendermint/tendermint/libs/log',
             'github.com/tendermint/tendermint/p2p/conn'], '''	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	rs := NewReconnRemoteSigner("tcp://"+l.Addr().String(), log.NewNopLogger(), dChain, &dSlow{types.NewMockPV()}, dDialer())
	if err := rs.Start(); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 4; i++ {
		if err := l.(*net.TCPListener).SetDeadline(time.Now().Add(30 * time.Second)); err != nil {
			t.Fatal(err)
		}
		raw, err := l.Accept()
		if err != nil {
			t.Fatalf("the signer does not connect again after %d connections: %v", i, err)
		}
		c, err := conn.MakeSecretConnection(raw, ed25519.GenPrivKey())
		if err != nil {
			t.Fatal(err)
		}
		if err := WriteMsg(c, dVoteRequest(dVote(int64(i+1), 0, true, 1, 1), dChain)); err != nil {
			t.Fatal(err)
		}
		time.Sleep(200 * time.Millisecond)
		raw.(*net.TCPConn).SetLinger(0)
		raw.Close()
	}
''', '''
type dSlow struct{ types.MockPV }

func (d *dSlow) SignVote(chain string, v *dVoteType) error {
	time.Sleep(700 * time.Millisecond)
	return d.MockPV.SignVote(chain, v)
}
''')),
]
