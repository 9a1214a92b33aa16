import os
ns = {}
exec(compile(open(os.path.join('/verif/tools/seeds', 'bugs_d.py')).read(), 'bugs_d.py', 'exec'), ns)
demo, BUILD, KIT3 = ns['demo'], ns['BUILD'], ns['KIT3']
LC, SS, TV, CMD, RS = ns['LC'], ns['SS'], ns['TV'], ns['CMD'], ns['RS']
ST, SV = 'signer/raft_store.go', 'signer/services.go'
# a single signer whose sentry is not there
START = BUILD + '''
cat > "$work/key.go" <<'GO'
package main

import (
	"fmt"

	"github.com/tendermint/tendermint/crypto/ed25519"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
)

func main() {
	priv := ed25519.GenPrivKey()
	b, err := tmjson.Marshal(privval.FilePVKey{Address: priv.PubKey().Address(), PubKey: priv.PubKey(), PrivKey: priv})
	if err != nil {
		panic(err)
	}
	fmt.Println(string(b))
}
GO
hx config init chain tcp://127.0.0.1:1 --home "$work/home" || exit 3
go run "$work/key.go" > "$work/home/priv_validator_key.json" || exit 3
begin() { "$work/hx" signer start --home "$work/home" > "$work/out.txt" 2>&1 & pid=$!; sleep 2; kill -0 $pid || fail "does not start: $(cat "$work/out.txt")"; }
finish() {
  for i in $(seq 150); do kill -0 $pid 2>/dev/null || break; sleep 0.1; done
  kill -0 $pid 2>/dev/null && { kill -9 $pid; fail "does not end"; }
  wait $pid; rc=$?
  [ $rc = 0 ] || fail "ends with status $rc: $(tail -c 1500 "$work/out.txt")"
}
'''
BUGS = [
 dict(id='c26-dial', property='C26',
  edits=[(RS, '''	dialer net.Dialer
}
''', '''	dialer net.Dialer

	// held while a connection is being made
	connecting sync.Mutex
}
'''), (RS, '''	"net"
	"time"
''', '''	"net"
	"sync"
	"time"
'''), (RS, '''// main loop for ReconnRemoteSigner
''', '''// OnStop implements cmn.Service. A handshake under way is not cut off.
func (rs *ReconnRemoteSigner) OnStop() {
	rs.connecting.Lock()
	defer rs.connecting.Unlock()
}

// main loop for ReconnRemoteSigner
'''), (RS, '''		for conn == nil {
''', '''		rs.connecting.Lock()
		for conn == nil {
'''), (RS, '''		// since dialing can take time, we check running again
''', '''		rs.connecting.Unlock()

		// since dialing can take time, we check running again
''')],
  needs='A stop signal while a sentry cannot be reached.',
  breaks='The signer never ends.',
  demo_sh=START + '''begin
kill -TERM $pid
finish
exit 0
'''),
 dict(id='c26-twice', property='C26',
  edits=[(SV, '''	tmOS.TrapSignal(logger, func() {
		for _, service := range services {
			err := service.Stop()
			if err != nil {
				panic(err)
			}
		}
		wg.Done()
	})
	wg.Wait()
''', '''	signals := make(chan os.Signal, 8)
	signal.Notify(signals, os.Interrupt, syscall.SIGTERM)
	stop := func() {
		for _, service := range services {
			err := service.Stop()
			if err != nil {
				panic(err)
			}
		}
		// answers under way get their chance
		time.Sleep(500 * time.Millisecond)
		wg.Done()
	}
	go func() {
		for sig := range signals {
			logger.Info("captured signal, exiting...", "signal", sig)
			go stop()
		}
	}()
	wg.Wait()
'''), (SV, '''	"sync"

	tmLog "github.com/tendermint/tendermint/libs/log"
	tmOS "github.com/tendermint/tendermint/libs/os"
''', '''	"os"
	"os/signal"
	"sync"
	"syscall"
	"time"

	tmLog "github.com/tendermint/tendermint/libs/log"
''')],
  needs='A second signal shortly after the first.',
  breaks='The signer crashes instead of ending with status 0.',
  demo_sh=START + '''begin
kill -TERM $pid
sleep 0.15
kill -INT $pid 2>/dev/null
finish
exit 0
'''),
 dict(id='c25-truncated', property='C25',
  edits=[(SS, '''	state.cache = make(map[HRSKey]SignStateConsensus)
	state.cache[HRSKey{Height: state.Height, Round: state.Round, Step: state.Step}] = SignStateConsensus{
		Height:    state.Height,
		Round:     state.Round,
		Step:      state.Step,
		Signature: state.Signature,
		SignBytes: state.SignBytes,
	}
	state.filePath = filepath
''', '''	if len(state.SignBytes) == 0 && len(state.Signature) == 0 {
		// nothing was signed at this round and step, only the height was set
		state.Round, state.Step = 0, 0
	}
	state.cache = make(map[HRSKey]SignStateConsensus)
	state.cache[HRSKey{Height: state.Height, Round: state.Round, Step: state.Step}] = SignStateConsensus{
		Height:    state.Height,
		Round:     state.Round,
		Step:      state.Step,
		Signature: state.Signature,
		SignBytes: state.SignBytes,
	}
	state.filePath = filepath
''')],
  needs='A position imported in the documented truncated form, and a request at its very height.',
  breaks='The old validator and the cluster sign different blocks at the same height, round and step.',
  demo=demo(['io/ioutil', 'testing'], '''	r := dNewRing(t, 2, 2)
	file := r.statePath(1)
	if err := ioutil.WriteFile(file, []byte(`{"height":"50","round":"2","step":3}`), 0600); err != nil {
		t.Fatal(err)
	}
	state, err := LoadSignState(file)
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []HRSKey{{Height: 50, Round: 2, Step: 3}, {Height: 50, Round: 2, Step: 2}, {Height: 50, Round: 1, Step: 3}, {Height: 49, Round: 9, Step: 3}} {
		if state.GetErrorIfLessOrEqual(s.Height, s.Round, s.Step, nil) == nil {
			t.Fatalf("%v would be signed", s)
		}
	}
	if err := state.GetErrorIfLessOrEqual(50, 3, 1, nil); err != nil {
		t.Fatal(err)
	}
''')),
 dict(id='c25-bootstrap', property='C25',
  edits=[(ST, '''	for _, peer := range s.Peers {
		configuration.Servers''', '''	first := true
	for _, peer := range s.Peers {
		first = first && s.NodeID < fmt.Sprint(peer.GetID())
		configuration.Servers'''), (ST, '''	s.raft.BootstrapCluster(configuration)

	return transportManager, nil
''', '''	// one member forms the cluster, the others are told by it
	if first {
		s.raft.BootstrapCluster(configuration)
	}

	return transportManager, nil
''')],
  needs='The first start of a cluster while its first member is not up yet, though a threshold of members is.',
  breaks='The members never elect a leader and nothing is signed.',
  kit2=KIT3,
  demo=demo(['testing', 'time'], '''	r := dNewRing(t, 2, 3)
	nodes := dCluster(t, r)[1:]
	dStart(t, nodes)
	var err error
	for i := 0; i < 5; i++ {
		if err = nodes[i%2].val.SignVote(dChain, dVote(int64(i+1), 0, true, 1, 1)); err == nil {
			return
		}
		time.Sleep(200 * time.Millisecond)
	}
	t.Fatalf("two of three members do not sign: %v", err)
''')),
]
