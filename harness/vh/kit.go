package main

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	tmlog "github.com/tendermint/tendermint/libs/log"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

type fataler interface {
	Fatalf(string, ...interface{})
}

// ---------- keys ----------

var (
	rsaOnce sync.Once
	rsaPool []*rsa.PrivateKey
)

const maxN = 8

func rsaKeys() []*rsa.PrivateKey {
	rsaOnce.Do(func() {
		rsaPool = make([]*rsa.PrivateKey, maxN+2)
		wg := sync.WaitGroup{}
		for i := range rsaPool {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				k, err := rsa.GenerateKey(rand.Reader, 1024)
				if err != nil {
					panic(err)
				}
				rsaPool[i] = k
			}(i)
		}
		wg.Wait()
	})
	return rsaPool
}

// ---------- messages ----------

const (
	kProposal  = 1
	kPrevote   = 2
	kPrecommit = 3
)

// Msg is a vote or proposal drawn from small pools, so that collisions are frequent.
type Msg struct {
	Kind  int
	H     int64
	R     int64
	Block int // 0 nil, 1 A, 2 B, 3 A with another part-set header hash, 4 A with another total
	TS    int
	POL   int // proposals: 0 => -1
	Chain int
}

var chains = []string{"chain-a", "Chain-a", "x", "chain-b", "Columbus-5", "UPPER_lower.1"}

var tsPool = []time.Time{
	time.Unix(1640995200, 1).UTC(),
	time.Unix(1640995200, 2).UTC(),
	time.Unix(1640995201, 0).UTC(),
	time.Unix(1650000000, 999999999).UTC(),
	time.Unix(0, 0).UTC(),
	time.Unix(4102444800, 5).UTC(),
	time.Unix(0, 1).UTC(),
}

func fill(b byte, n int) []byte { return bytes.Repeat([]byte{b}, n) }

func blockID(i int) tmproto.BlockID {
	switch i {
	case 1:
		return tmproto.BlockID{Hash: fill(0xaa, 32), PartSetHeader: tmproto.PartSetHeader{Total: 1, Hash: fill(0xa1, 32)}}
	case 2:
		return tmproto.BlockID{Hash: fill(0xbb, 32), PartSetHeader: tmproto.PartSetHeader{Total: 1, Hash: fill(0xa1, 32)}}
	case 3:
		return tmproto.BlockID{Hash: fill(0xaa, 32), PartSetHeader: tmproto.PartSetHeader{Total: 1, Hash: fill(0xa2, 32)}}
	case 4:
		return tmproto.BlockID{Hash: fill(0xaa, 32), PartSetHeader: tmproto.PartSetHeader{Total: 2, Hash: fill(0xa1, 32)}}
	}
	return tmproto.BlockID{}
}

func (m Msg) Time() time.Time { return tsPool[m.TS] }

func (m Msg) Vote() *tmproto.Vote {
	typ := tmproto.PrevoteType
	if m.Kind == kPrecommit {
		typ = tmproto.PrecommitType
	}
	return &tmproto.Vote{Type: typ, Height: m.H, Round: int32(m.R), BlockID: blockID(m.Block), Timestamp: m.Time(),
		ValidatorAddress: fill(7, 20), ValidatorIndex: 3}
}

func (m Msg) Proposal() *tmproto.Proposal {
	return &tmproto.Proposal{Type: tmproto.ProposalType, Height: m.H, Round: int32(m.R), PolRound: int32(m.POL - 1),
		BlockID: blockID(m.Block), Timestamp: m.Time()}
}

func (m Msg) ChainID() string { return chains[m.Chain] }

func (m Msg) SignBytes() []byte {
	if m.Kind == kProposal {
		return tm.ProposalSignBytes(m.ChainID(), m.Proposal())
	}
	return tm.VoteSignBytes(m.ChainID(), m.Vote())
}

func (m Msg) HRST() signer.HRSTKey {
	return signer.HRSTKey{Height: m.H, Round: m.R, Step: int8(m.Kind), Timestamp: m.Time().UnixNano()}
}

// HRS is a position; ordered lexicographically.
type HRS struct {
	H, R int64
	S    int
}

func (m Msg) HRS() HRS { return HRS{m.H, m.R, m.Kind} }

func (a HRS) Cmp(b HRS) int {
	switch {
	case a.H != b.H:
		if a.H < b.H {
			return -1
		}
		return 1
	case a.R != b.R:
		if a.R < b.R {
			return -1
		}
		return 1
	case a.S != b.S:
		if a.S < b.S {
			return -1
		}
		return 1
	}
	return 0
}

// Content is what must not differ at one HRS.
func (m Msg) Content() string {
	pol := 0
	if m.Kind == kProposal {
		pol = m.POL
	}
	return fmt.Sprintf("%d.%d.%d b%d pol%d c%d", m.H, m.R, m.Kind, m.Block, pol, m.Chain)
}

func (m Msg) String() string {
	k := []string{"?", "proposal", "prevote", "precommit"}[m.Kind]
	return fmt.Sprintf("%s %d/%d blk%d ts%d pol%d chain%d", k, m.H, m.R, m.Block, m.TS, m.POL, m.Chain)
}

// MsgGen bounds the pools.
type MsgGen struct {
	Base   int64
	RBase  int64
	H, R   int
	Chains int
	TS     int
	Kinds  []int
}

func (g MsgGen) Draw(t *pbt.T) Msg {
	kinds := g.Kinds
	if len(kinds) == 0 {
		kinds = []int{kProposal, kPrevote, kPrecommit}
	}
	m := Msg{Kind: kinds[t.Intn(len(kinds))], H: g.Base + int64(t.Intn(g.H)), R: g.RBase + int64(t.Intn(g.R)), Block: t.Weighted(3, 5, 3, 1, 1)}
	nts := g.TS
	if nts == 0 {
		nts = 4
	}
	m.TS = t.Intn(nts)
	if t.Chance(1, 12) {
		m.TS = t.Intn(len(tsPool))
	}
	if m.Kind == kProposal {
		m.POL = t.Weighted(4, 1, 1)
	}
	if g.Chains > 1 && t.Chance(1, 8) {
		m.Chain = t.Intn(g.Chains)
	}
	return m
}

// Wide moves the pools of some cases to heights and rounds that narrower integers cannot hold.
func (g MsgGen) Wide(t *pbt.T) MsgGen {
	if t.Chance(1, 4) {
		g.Base = []int64{1, 126, 254, 32766, 65534, 1<<31 - 2, 1<<32 - 2, 1 << 40, 1<<53 - 1, 1<<62 + 3}[t.Intn(10)]
	}
	if t.Chance(1, 6) {
		g.RBase = []int64{126, 254, 32766, 65534, 1<<31 - 16}[t.Intn(5)]
	}
	return g
}

// Mutate returns a message related to m: identical, other timestamp, other content, neighbouring position.
func (g MsgGen) Mutate(t *pbt.T, m Msg) Msg {
	o := m
	switch t.Weighted(6, 6, 6, 2, 2, 4, 2, 2, 2, 1) {
	case 0:
	case 1:
		o.TS = t.Intn(len(tsPool))
	case 2:
		o.Block = t.Intn(5)
	case 3:
		if m.Kind == kProposal {
			o.POL = t.Intn(3)
		} else {
			o.Block = t.Intn(5)
		}
	case 4:
		if g.Chains > 1 {
			o.Chain = t.Intn(g.Chains)
		}
	case 5:
		o.Kind = 1 + t.Intn(3)
	case 6:
		o.R = g.RBase + int64(t.Intn(g.R))
	case 7:
		o.H = m.H + int64(t.Intn(5)) - 2
		if o.H < 1 {
			o.H = 1
		}
	case 8:
		o.Block = t.Intn(5)
		o.TS = t.Intn(len(tsPool))
	case 9: // far away, at a distance that narrower integers cannot tell
		d := []int64{1 << 8, 1 << 16, 1 << 32, -1 << 8, -1 << 16, -1 << 32}[t.Intn(6)]
		if t.Bool() {
			if o.H+d >= 1 && o.H+d > 0 {
				o.H += d
			}
		} else if o.R+d >= 0 && o.R+d < 1<<31 {
			o.R += d
		}
	}
	return o
}

// ---------- cosigners ----------

type nopLogger struct{}

func (nopLogger) Debug(string, ...interface{})       {}
func (nopLogger) Info(string, ...interface{})        {}
func (nopLogger) Error(string, ...interface{})       {}
func (n nopLogger) With(...interface{}) tmlog.Logger { return n }

// Ring is a set of cosigners sharing one validator key.
type Ring struct {
	Shares int // dealt key shares
	Total  int // cosigners configured
	T      int
	IDs    []int // ids of configured cosigners, subset of 1..Shares
	Priv   tmed.PrivKey
	Pub    tmed.PubKey
	Keys   map[int]signer.CosignerKey
	RSA    map[int]*rsa.PrivateKey
	Dir    string
	Nodes  map[int]*Node
}

// Node is one cosigner process: its share, its state file, its running instance.
type Node struct {
	Ring  *Ring
	ID    int
	File  string
	State *signer.SignState
	LC    *signer.LocalCosigner
	Gen   int

	rw     sync.RWMutex
	OnSign func(n *Node, req signer.CosignerSetEphemeralSecretPartsAndSignRequest, res *signer.CosignerSignResponse, err error)
}

// NewRing deals a key over shares cosigners. ids nil means all of them.
func NewRing(t *pbt.T, shares, threshold int, ids []int) *Ring {
	r := &Ring{Shares: shares, T: threshold, IDs: ids, Dir: t.Scratch, Keys: map[int]signer.CosignerKey{}, RSA: map[int]*rsa.PrivateKey{}, Nodes: map[int]*Node{}}
	if ids == nil {
		for i := 1; i <= shares; i++ {
			r.IDs = append(r.IDs, i)
		}
	}
	r.Total = len(r.IDs)
	seed := make([]byte, 32)
	_, err := rand.Read(seed)
	pbt.Must(err)
	r.Priv = tmed.GenPrivKeyFromSecret(seed)
	r.Pub = r.Priv.PubKey().(tmed.PubKey)
	parts := tsed25519.DealShares(tsed25519.ExpandSecret(r.Priv.Bytes()[:32]), uint8(threshold), uint8(shares))
	pool := rsaKeys()
	var pubs []*rsa.PublicKey
	for i := 0; i < shares; i++ {
		pubs = append(pubs, &pool[i].PublicKey)
	}
	for i := 1; i <= shares; i++ {
		r.RSA[i] = pool[i-1]
		r.Keys[i] = signer.CosignerKey{PubKey: r.Pub, ShareKey: parts[i-1], RSAKey: *pool[i-1], ID: i, CosignerKeys: pubs}
	}
	for _, id := range r.IDs {
		n := &Node{Ring: r, ID: id, File: filepath.Join(r.Dir, fmt.Sprintf("share_%d.json", id))}
		r.Nodes[id] = n
		_, err := signer.LoadOrCreateSignState(n.File)
		if err != nil {
			t.Fatalf("creating a sign state in an existing directory failed: %v", err)
		}
		n.Restart(t)
	}
	return r
}

// Restart reloads the node from disk, losing all memory.
func (n *Node) Restart(t fataler) {
	ss, err := signer.LoadSignState(n.File)
	if err != nil {
		b, _ := ioutil.ReadFile(n.File)
		t.Fatalf("state file of cosigner %d does not load after restart: %v (content %q)", n.ID, err, string(b))
	}
	n.State = &ss
	n.Gen++
	n.LC = n.Fresh(n.State)
}

// Fresh builds a cosigner instance for the node around the given state.
func (n *Node) Fresh(ss *signer.SignState) *signer.LocalCosigner {
	r := n.Ring
	peers := []signer.CosignerPeer{{ID: n.ID, PublicKey: r.RSA[n.ID].PublicKey}}
	for _, id := range r.IDs {
		if id != n.ID {
			peers = append(peers, signer.CosignerPeer{ID: id, PublicKey: r.RSA[id].PublicKey})
		}
	}
	return signer.NewLocalCosigner(signer.LocalCosignerConfig{
		CosignerKey: r.Keys[n.ID],
		SignState:   ss,
		RsaKey:      *r.RSA[n.ID],
		Peers:       peers,
		Address:     fmt.Sprintf("tcp://127.0.0.1:%d", n.ID),
		Total:       uint8(r.Shares),
		Threshold:   uint8(r.T),
	})
}

// fileState is what a state file says, read by the harness itself.
type fileState struct {
	HRS       HRS
	SignBytes string
	Sig       []byte
	Eph       []byte
}

func readStateFile(file string) (fs fileState, err error) {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		return fs, err
	}
	var raw struct {
		Height    json.RawMessage `json:"height"`
		Round     json.RawMessage `json:"round"`
		Step      json.RawMessage `json:"step"`
		Eph       []byte          `json:"ephemeral_public"`
		Signature []byte          `json:"signature"`
		SignBytes string          `json:"signbytes"`
	}
	if err = json.Unmarshal(b, &raw); err != nil {
		return fs, fmt.Errorf("%v: %q", err, string(b))
	}
	num := func(r json.RawMessage) int64 {
		s := string(bytes.Trim(r, `"`))
		if s == "" {
			return 0
		}
		var v int64
		if _, e := fmt.Sscan(s, &v); e != nil && err == nil {
			err = e
		}
		return v
	}
	fs.HRS = HRS{num(raw.Height), num(raw.Round), int(num(raw.Step))}
	fs.SignBytes = raw.SignBytes
	fs.Sig = raw.Signature
	fs.Eph = raw.Eph
	return fs, err
}

func fileBytes(f string) []byte {
	b, err := ioutil.ReadFile(f)
	if err != nil {
		return nil
	}
	return b
}

// partsFor collects from the given peer ids the nonce parts destined for dst.
func (r *Ring) partsFor(t *pbt.T, dst int, from []int, hrst signer.HRSTKey) []signer.CosignerEphemeralSecretPart {
	var out []signer.CosignerEphemeralSecretPart
	for _, id := range from {
		res, err := r.Nodes[id].LC.GetEphemeralSecretParts(hrst)
		if err != nil {
			t.Fatalf("cosigner %d refuses to produce nonce parts for %+v: %v", id, hrst, err)
		}
		for _, p := range res.EncryptedSecrets {
			if p.DestinationID == dst {
				out = append(out, p)
			}
		}
	}
	return out
}

func others(ids []int, id int) []int {
	var o []int
	for _, x := range ids {
		if x != id {
			o = append(o, x)
		}
	}
	return o
}

func pickSome(t *pbt.T, ids []int, k int) []int {
	var o []int
	for _, i := range t.Subset(len(ids), k) {
		o = append(o, ids[i])
	}
	return o
}

// drawNT draws a ring shape with t > n/2.
func drawNT(t *pbt.T, maxShares int) (n, th int) {
	n = t.Range(2, maxShares)
	th = n/2 + 1 + t.Intn(n-n/2)
	return
}

func mkdir(p string) string {
	pbt.Must(os.MkdirAll(p, 0700))
	return p
}
