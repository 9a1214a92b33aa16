package main

import (
	"bytes"
	"context"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"net"
	"path/filepath"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/signer"
	hproto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/libs/protoio"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

func init() { registry["C27"] = propC27 }

func propC27() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C27",
		Rule: "member: a real member (cosigner, validator, raft store, network service; 2..5 shares) that leads, or has no leader, gets 3..20 drawn hostile contacts on its peer port between and during its honest calls: each of its calls with missing, " +
			"extreme, negative, oversized or garbage fields; genuine parts reordered, duplicated, re-addressed, from other positions; parts correctly signed by a peer with garbage inside; thousands of parts; encoded calls with flipped, cut, inserted " +
			"or repeated bytes; unknown methods; leadership transfers to odd IDs; raw connections with garbage, HTTP, partial frames, held open, closed or reset. Hostile sign calls are stale, undecodable or at positions of their own. Oracle: the process lives; every call is answered " +
			"within its time; stale and undecodable sign calls fail and leave the state files as they were; honest sign calls issued meanwhile and afterwards give valid signatures and move the state; the leader stays; parts for peers remain genuine. " +
			"Non-trivial: at least three hostile contacts answered and a later honest signature. Distinct by choices.",
		Assumptions: []string{"a stranger may ask a leader to sign at a position above its own, which reserves that position: hostile positions stay below those of the honest calls"},
		Parts: []pbt.Part{
			{Name: "member", Fn: c27Member, Quick: 800, Thorough: 30000, Workers: 32, QuickSecs: 45, ThoroughSecs: 1200, Timeout: 120 * time.Second},
		}}
}

// rawCodec sends and receives bytes as they are.
type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (rawCodec) Unmarshal(b []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte{}, b...)
	return nil
}
func (rawCodec) Name() string { return "proto" }

const c27Service = "/proto.CosignerGRPC/"

// topHeight is the highest height the sign bytes may be taken to mean.
func topHeight(sb []byte) (h int64, ok bool) {
	var v tmproto.CanonicalVote
	var p tmproto.CanonicalProposal
	if protoio.UnmarshalDelimited(sb, &v) == nil {
		h, ok = v.Height, true
	}
	if protoio.UnmarshalDelimited(sb, &p) == nil {
		if !ok || p.Height > h {
			h = p.Height
		}
		ok = true
	}
	return
}

// c27 is one member under attack.
type c27 struct {
	t     *pbt.T
	ring  *Ring
	me    int
	node  *Node
	val   *signer.ThresholdValidator
	st    *signer.RaftStore
	host  string
	pv    string
	leads bool
	base  int64 // honest positions are at or above
	g     MsgGen
	shady map[int]*signer.LocalCosigner
	held  []net.Conn
	mu    sync.Mutex
}

// contact is one hostile contact, drawn beforehand.
type contact struct {
	desc string
	sign bool // must fail
	ok   bool // must succeed
	free bool // may do either and move the state
	do   func() (answered bool, err error)
}

func (c *c27) dial() *grpc.ClientConn {
	conn, err := grpc.Dial(c.host, grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(64<<20)))
	pbt.Must(err)
	return conn
}

const c27Limit = 40 * time.Second

// call sends body to the method; the time is far above what the member's own limits add up to.
func (c *c27) call(method string, body []byte) ([]byte, error) {
	conn := c.dial()
	defer conn.Close()
	ctx, cancel := context.WithTimeout(context.Background(), c27Limit)
	defer cancel()
	var out []byte
	err := conn.Invoke(ctx, method, &body, &out, grpc.ForceCodec(rawCodec{}))
	return out, err
}

func (c *c27) rpc(method string, m proto.Message) func() (bool, error) {
	b, err := proto.Marshal(m)
	pbt.Must(err)
	return c.raw(c27Service+method, b)
}

func (c *c27) raw(method string, b []byte) func() (bool, error) {
	return func() (bool, error) {
		_, err := c.call(method, b)
		return true, err
	}
}

func (c *c27) num() int64 {
	t := c.t
	switch t.Intn(4) {
	case 0:
		return -t.I64()
	case 1:
		return int64(t.Intn(3)) - 1
	}
	return t.I64()
}

func (c *c27) id() int32 {
	t := c.t
	switch t.Intn(5) {
	case 0:
		return []int32{0, -1, -1 << 31, 1<<31 - 1, 255, 256, 257, 1 << 16}[t.Intn(8)]
	case 1:
		return int32(c.ring.Shares + 1 + t.Intn(3))
	}
	return int32(1 + t.Intn(c.ring.Shares))
}

func (c *c27) blob(max int) []byte {
	t := c.t
	switch t.Weighted(2, 2, 2, 6, 1) {
	case 0:
		return nil
	case 1:
		return make([]byte, t.Intn(max+1))
	case 2:
		return bytes.Repeat([]byte{0xff}, t.Intn(max+1))
	case 4:
		return bytes.Repeat(t.Bytes(8), 20000)
	}
	return t.Bytes(t.Intn(max + 1))
}

// badSignBytes are stale or mean nothing.
func (c *c27) badSignBytes() []byte {
	t := c.t
	m := c.g.Draw(t)
	sb := m.SignBytes()
	for i := 0; i < 20; i++ {
		b := append([]byte{}, sb...)
		switch t.Intn(6) {
		case 0:
		case 1:
			b = c.blob(200)
		case 2:
			b = b[:t.Intn(len(b))]
		case 3:
			for k := t.Range(1, 4); k > 0; k-- {
				b[t.Intn(len(b))] ^= 1 << uint(t.Intn(8))
			}
		case 4:
			b[0] = byte(t.Intn(256))
		case 5:
			b = append(b[:1:1], c.blob(150)...)
		}
		if h, ok := topHeight(b); !ok || h < c.base {
			return b
		}
	}
	return nil
}

// lowHRST is below the honest positions (as what the parts are for, it may be anything else too).
func (c *c27) lowHRST() signer.HRSTKey {
	t := c.t
	h := c.g.Draw(t).HRST()
	switch t.Intn(4) {
	case 0:
		h = signer.HRSTKey{Height: c.num(), Round: c.num(), Step: int8(t.U64()), Timestamp: c.num()}
		if h.Height >= c.base {
			h.Height = -h.Height
		}
	case 1:
		h.Step = int8(t.U64())
	}
	return h
}

func (c *c27) protoHRST(h signer.HRSTKey) *hproto.HRST {
	if c.t.Chance(1, 10) {
		return nil
	}
	p := &hproto.HRST{Height: h.Height, Round: h.Round, Step: int32(h.Step), Timestamp: h.Timestamp}
	if c.t.Chance(1, 10) {
		p.Step = c.id()
	}
	return p
}

// parts makes the parts of a hostile sign call.
func (c *c27) parts(hrst signer.HRSTKey) (out []*hproto.EphemeralSecretPart, what string) {
	t := c.t
	wire := func(p signer.CosignerEphemeralSecretPart) *hproto.EphemeralSecretPart {
		return &hproto.EphemeralSecretPart{SourceID: int32(p.SourceID), DestinationID: int32(p.DestinationID),
			SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig}
	}
	peers := others(c.ring.IDs, c.me)
	for i, k := 0, t.Range(0, c.ring.Shares+1); i < k; i++ {
		src := peers[t.Intn(len(peers))]
		switch t.Weighted(4, 4, 4, 1) {
		case 0: // nothing genuine
			out = append(out, &hproto.EphemeralSecretPart{SourceID: c.id(), DestinationID: c.id(), SourceEphemeralSecretPublicKey: c.blob(64), EncryptedSharePart: c.blob(600), SourceSig: c.blob(600)})
			what += " garbage"
		case 1: // signed by the peer, odd inside
			p := signer.CosignerEphemeralSecretPart{SourceID: src, SourceEphemeralSecretPublicKey: c.blob(64)}
			share := c.blob(60)
			if len(share) > 60 {
				share = share[:60]
			}
			enc, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, &c.ring.RSA[c.me].PublicKey, share, nil)
			pbt.Must(err)
			p.EncryptedSharePart = enc
			if t.Chance(1, 4) {
				p.EncryptedSharePart = c.blob(600)
			}
			b, err := tmjson.Marshal(p)
			pbt.Must(err)
			d := sha256.Sum256(b)
			p.SourceSig, err = rsa.SignPSS(rand.Reader, c.ring.RSA[src], crypto.SHA256, d[:], nil)
			pbt.Must(err)
			p.DestinationID = int(c.id())
			out = append(out, wire(p))
			what += fmt.Sprintf(" odd-from-%d(%d,%d)", src, len(p.SourceEphemeralSecretPublicKey), len(share))
		case 2: // genuine, perhaps for something else
			h := hrst
			if t.Bool() {
				h = c.lowHRST()
			}
			res, err := c.shady[src].GetEphemeralSecretParts(h)
			if err != nil {
				t.Fatalf("a cosigner produces no parts for %+v: %v", h, err)
			}
			for _, p := range res.EncryptedSecrets {
				if p.DestinationID == c.me || t.Chance(1, 6) {
					w := wire(p)
					switch t.Weighted(5, 1, 1, 1) {
					case 1:
						w.SourceID = c.id()
					case 2:
						w.DestinationID = c.id()
					case 3:
						w.SourceSig = nil
					}
					out = append(out, w)
				}
			}
			what += fmt.Sprintf(" genuine-from-%d", src)
		case 3:
			if len(out) > 0 {
				x := out[t.Intn(len(out))]
				for n := []int{1, 5, 300}[t.Intn(3)]; n > 0; n-- {
					out = append(out, x)
				}
				what += " repeated"
			}
		}
	}
	if t.Chance(1, 40) {
		out = make([]*hproto.EphemeralSecretPart, 20000)
		for i := range out {
			out[i] = &hproto.EphemeralSecretPart{SourceID: int32(c.me), SourceSig: []byte{1}}
		}
		what = " 20000 parts"
	}
	return
}

func (c *c27) block() (*hproto.Block, string) {
	t := c.t
	if t.Chance(1, 8) {
		return nil, "no block"
	}
	b := &hproto.Block{SignBytes: c.badSignBytes(), Timestamp: c.num()}
	m := c.g.Draw(t)
	b.Height, b.Round, b.Step = m.H, m.R, int32(m.Kind)
	switch t.Intn(5) {
	case 0:
		b.Height, b.Round, b.Step = c.num(), c.num(), c.id()
		if b.Height >= c.base {
			b.Height = -b.Height
		}
	case 1:
		b.Step = c.id()
	case 2, 3: // reserves a position between the honest ones, for nothing
		b.Height = c.base + int64(t.Range(1, 9))
	}
	return b, fmt.Sprintf("%d/%d/%d with %d sign bytes", b.Height, b.Round, b.Step, len(b.SignBytes))
}

// mangle damages an encoded call; nil if it could still be an honest one.
func (c *c27) mangle(method string, body []byte, below int64) []byte {
	t := c.t
	b := append([]byte{}, body...)
	for k := t.Range(1, 3); k > 0; k-- {
		switch t.Intn(5) {
		case 0:
			if len(b) > 0 {
				b[t.Intn(len(b))] ^= 1 << uint(t.Intn(8))
			}
		case 1:
			b = b[:t.Intn(len(b)+1)]
		case 2:
			i := t.Intn(len(b) + 1)
			b = append(b[:i:i], append(t.Bytes(t.Range(1, 6)), b[i:]...)...)
		case 3:
			b = append(b, b...)
		case 4:
			b = append(b, t.Bytes(t.Range(1, 12))...)
		}
		if len(b) > 1<<20 {
			b = b[:1<<20]
		}
	}
	low := func(sb []byte) bool { h, ok := topHeight(sb); return !ok || h < below }
	switch method {
	case "SignBlock":
		m := &hproto.CosignerGRPCSignBlockRequest{}
		if proto.Unmarshal(b, m) == nil && (!low(m.GetBlock().GetSignBytes()) || m.GetBlock().GetHeight() >= c.base+10) {
			return nil
		}
	case "SetEphemeralSecretPartsAndSign":
		m := &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{}
		if proto.Unmarshal(b, m) == nil && (!low(m.GetSignBytes()) || m.GetHrst().GetHeight() >= below) {
			return nil
		}
	case "TransferLeadership":
		return nil
	}
	return b
}

// tcp is a raw connection.
func (c *c27) tcp() contact {
	t := c.t
	var b []byte
	what := ""
	switch t.Intn(5) {
	case 0:
		b, what = c.blob(300), "garbage"
	case 1:
		b, what = []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"), "HTTP"
	case 2:
		b, what = []byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n")[:t.Range(1, 24)], "part of a preface"
	case 3:
		b, what = append([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"), c.blob(300)...), "preface and garbage"
	case 4: // preface, settings, then frames of drawn types
		b, what = append([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"), 0, 0, 0, 4, 0, 0, 0, 0, 0), "frames"
		for i, k := 0, t.Range(1, 6); i < k; i++ {
			p := t.Bytes(t.Intn(40))
			b = append(b, 0, 0, byte(len(p)), byte(t.Intn(12)), byte(t.U64()), 0, 0, 0, byte(t.Intn(6)))
			b = append(b, p...)
		}
	}
	end := t.Intn(3)
	return contact{desc: fmt.Sprintf("connection with %s (%d bytes), then %s", what, len(b), []string{"closed", "reset", "held"}[end]), do: func() (bool, error) {
		x, err := net.DialTimeout("tcp", c.host, 10*time.Second)
		if err != nil {
			return false, fmt.Errorf("not accepted: %v", err)
		}
		_ = x.SetDeadline(time.Now().Add(10 * time.Second))
		_, _ = x.Write(b)
		switch end {
		case 0:
			x.Close()
		case 1:
			_ = x.(*net.TCPConn).SetLinger(0)
			x.Close()
		case 2:
			c.mu.Lock()
			c.held = append(c.held, x)
			c.mu.Unlock()
		}
		return false, nil
	}}
}

func (c *c27) draw() contact {
	t := c.t
	var method string
	var msg proto.Message
	k := contact{}
	switch t.Weighted(6, 8, 4, 3, 3, 1) {
	case 0:
		b, what := c.block()
		method, msg = "SignBlock", &hproto.CosignerGRPCSignBlockRequest{ChainID: t.Str("ab/\x00%", 0, 5), Block: b}
		k.desc, k.sign = "sign block "+what, true
	case 1:
		h := c.lowHRST()
		sb := c.badSignBytes()
		k.sign = true
		if t.Chance(2, 5) { // a position of its own, between the honest ones
			m := c.g.Draw(t)
			m.H = c.base + int64(t.Range(1, 9))
			h, sb = m.HRST(), m.SignBytes()
			k.sign, k.free = false, true
		}
		parts, what := c.parts(h)
		hrst := c.protoHRST(h)
		method, msg = "SetEphemeralSecretPartsAndSign", &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: hrst, EncryptedSecrets: parts, SignBytes: sb}
		k.desc = fmt.Sprintf("sign %d bytes for %+v with%s", len(sb), h, what)
	case 2:
		h := signer.HRSTKey{Height: c.num(), Round: c.num(), Step: int8(t.U64()), Timestamp: c.num()}
		if h.Height >= c.base {
			h.Height = -h.Height
		}
		method, msg = "GetEphemeralSecretParts", &hproto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: c.protoHRST(h)}
		k.desc, k.ok = fmt.Sprintf("get %+v", h), true
	case 3:
		ids := []string{"", fmt.Sprint(c.me), "0", "-1", "99999999999999999999", "x", " 1", "\x00", "ghost", "1/2", string(c.blob(40))}
		for _, id := range others(c.ring.IDs, c.me) {
			ids = append(ids, fmt.Sprint(id), fmt.Sprint(id))
		}
		id := ids[t.Intn(len(ids))]
		b, err := proto.Marshal(&hproto.CosignerGRPCTransferLeadershipRequest{LeaderID: fmt.Sprintf("%q", id)})
		pbt.Must(err)
		if len(id) < 100 {
			b = append([]byte{0x0a, byte(len(id))}, id...)
		}
		return contact{desc: fmt.Sprintf("transfer to %q", id), do: c.raw(c27Service+"TransferLeadership", b)}
	case 4:
		return c.tcp()
	case 5:
		m := c27Service + t.Str("SignBlockGet/._", 0, 12)
		if t.Bool() {
			m = "/" + t.Str("proto.CosignerGRPC", 1, 12) + "/SignBlock"
		}
		b := c.blob(100)
		return contact{desc: "method " + m, sign: true, do: c.raw(m, b)}
	}
	b, err := proto.Marshal(msg)
	pbt.Must(err)
	if t.Chance(1, 3) {
		below := c.base
		if k.free {
			below += 10
		}
		if d := c.mangle(method, b, below); d != nil {
			k.desc += " (encoding damaged)"
			k.ok = false
			k.do = c.raw(c27Service+method, d)
			return k
		}
	}
	k.do = c.raw(c27Service+method, b)
	return k
}

// judge runs a contact.
func (c *c27) judge(k contact) bool {
	answered, err := k.do()
	if s, ok := status.FromError(err); err != nil && ok {
		switch s.Code() {
		case codes.DeadlineExceeded:
			c.t.FatalfLive("[%s] is not answered within %v", k.desc, c27Limit)
		case codes.Unavailable:
			if answered {
				c.t.FatalfLive("[%s] breaks the connection: %v", k.desc, err)
			}
		}
	}
	if !answered && err != nil {
		c.t.FatalfLive("[%s]: %v", k.desc, err)
	}
	if k.sign && err == nil {
		c.t.Fatalf("[%s] succeeds", k.desc)
	}
	if k.ok && err != nil {
		c.t.FatalfLive("[%s] fails: %v", k.desc, err)
	}
	return answered
}

// honest signs m through the member's peer port, as a follower does.
func (c *c27) honest(m Msg, when string) {
	b, err := proto.Marshal(&hproto.CosignerGRPCSignBlockRequest{ChainID: m.ChainID(), Block: &hproto.Block{Height: m.H, Round: m.R, Step: int32(m.Kind), SignBytes: m.SignBytes(), Timestamp: m.Time().UnixNano()}})
	pbt.Must(err)
	out, err := c.call(c27Service+"SignBlock", b)
	if err != nil {
		c.t.FatalfLive("%s the member does not sign %s: %v", when, m, err)
	}
	res := &hproto.CosignerGRPCSignBlockResponse{}
	if err := proto.Unmarshal(out, res); err != nil || !c.ring.verifies(m, res.Signature) {
		c.t.Fatalf("%s signing %s gives %x (%v)", when, m, out, err)
	}
}

// share has the member's cosigner sign m with genuine parts.
func (c *c27) share(m Msg, when string) {
	parts := c.ring.partsFor(c.t, c.me, pickSome(c.t, others(c.ring.IDs, c.me), c.ring.T-1), m.HRST())
	req := &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{SignBytes: m.SignBytes(), Hrst: &hproto.HRST{Height: m.H, Round: m.R, Step: int32(m.Kind), Timestamp: m.Time().UnixNano()}}
	for _, p := range parts {
		req.EncryptedSecrets = append(req.EncryptedSecrets, &hproto.EphemeralSecretPart{SourceID: int32(p.SourceID), DestinationID: int32(p.DestinationID),
			SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
	}
	b, err := proto.Marshal(req)
	pbt.Must(err)
	out, err := c.call(c27Service+"SetEphemeralSecretPartsAndSign", b)
	if err != nil {
		c.t.FatalfLive("%s the cosigner does not sign %s: %v", when, m, err)
	}
	res := &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{}
	if err := proto.Unmarshal(out, res); err != nil || len(res.Signature) == 0 {
		c.t.Fatalf("%s signing %s gives %x (%v)", when, m, out, err)
	}
	fs, err := readStateFile(c.node.File)
	if err != nil || fs.HRS != m.HRS() {
		c.t.Fatalf("%s a share of %s was issued, the state says %v (%v)", when, m, fs.HRS, err)
	}
}

// check has every part of a get answer open for its destination.
func (c *c27) get(m Msg, when string) {
	b, err := proto.Marshal(&hproto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: &hproto.HRST{Height: m.H, Round: m.R, Step: int32(m.Kind), Timestamp: m.Time().UnixNano()}})
	pbt.Must(err)
	out, err := c.call(c27Service+"GetEphemeralSecretParts", b)
	if err != nil {
		c.t.FatalfLive("%s the cosigner gives no parts for %s: %v", when, m, err)
	}
	res := &hproto.CosignerGRPCGetEphemeralSecretPartsResponse{}
	if err := proto.Unmarshal(out, res); err != nil || len(res.EncryptedSecrets) != len(c.ring.IDs)-1 {
		c.t.Fatalf("%s getting the parts for %s gives %d parts (%v)", when, m, len(res.EncryptedSecrets), err)
	}
	for _, p := range res.EncryptedSecrets {
		k := c.ring.RSA[int(p.DestinationID)]
		if k == nil || int(p.DestinationID) == c.me || int(p.SourceID) != c.me {
			c.t.Fatalf("%s a part goes from %d to %d", when, p.SourceID, p.DestinationID)
		}
		if _, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, k, p.EncryptedSharePart, nil); err != nil {
			c.t.Fatalf("%s the part for %d does not open", when, p.DestinationID)
		}
	}
}

func c27Member(t *pbt.T) {
	n, th := drawNT(t, 5)
	ring := NewRing(t, n, th, nil)
	me := ring.IDs[t.Intn(n)]
	c := &c27{t: t, ring: ring, me: me, node: ring.Nodes[me], leads: !t.Chance(1, 6), base: 1000, g: MsgGen{Base: 5, H: 5, R: 2, Chains: 2}, shady: map[int]*signer.LocalCosigner{}}
	var raftPeers, peers []signer.Cosigner
	for _, id := range others(ring.IDs, me) {
		c.shady[id] = ring.Nodes[id].Fresh(&signer.SignState{})
		peers = append(peers, ring.Nodes[id].LC)
		raftPeers = append(raftPeers, signer.NewRemoteCosigner(id, fmt.Sprintf("tcp://127.0.0.1:%d", 1+t.Intn(9))))
	}
	port := freePort()
	c.host = fmt.Sprintf("127.0.0.1:%d", port)
	c.pv = filepath.Join(ring.Dir, "pv.json")
	ss, err := signer.LoadOrCreateSignState(c.pv)
	if err != nil {
		t.Fatalf("creating a state: %v", err)
	}
	var members []signer.Cosigner
	if !c.leads {
		members = raftPeers
	}
	c.st = signer.NewRaftStore(fmt.Sprint(me), mkdir(filepath.Join(t.Scratch, "raft")), "tcp://"+c.host, time.Second, nopLogger{}, c.node.LC, members)
	c.val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: ring.Pub, Threshold: th, SignState: ss, Cosigner: c.node.LC, Peers: peers, RaftStore: c.st, Logger: nopLogger{}})
	c.st.SetThresholdValidator(c.val)
	if err := c.st.Start(); err != nil {
		pbt.Harness("starting the service: %v", err)
	}
	t.Defer(func() {
		for _, x := range c.held {
			x.Close()
		}
		if x, ok := fieldOf(c.st, reflect.TypeOf((*raft.Raft)(nil)), ""); ok {
			shutRaft(x.(*raft.Raft))
		}
	})
	// transfer requests know the others although this raft has one member
	c.st.Peers = raftPeers
	t.Logf("n=%d t=%d member %d leads=%v", n, th, me, c.leads)

	next := func() Msg { // honest positions leave room for what the hostile calls reserve
		m := c.g.Draw(t)
		m.H = c.base
		return m
	}
	first := next()
	first.Block = 1
	if c.leads {
		// wait for the election only
		if !pbt.WaitUntil(30*time.Second, func() bool { return c.st.Set("k", "v") == nil }) {
			t.FatalfLive("a store of one member does not lead")
		}
		c.honest(first, "at first")
	} else {
		c.share(first, "at first")
	}
	answered := int32(0)
	rounds := t.Range(1, 3)
	for r := 0; r < rounds; r++ {
		var ks []contact
		for i, k := 0, t.Range(3, 8); i < k; i++ {
			ks = append(ks, c.draw())
		}
		files := func() string { return string(fileBytes(c.node.File)) + string(fileBytes(c.pv)) }
		conc := t.Chance(1, 3)
		c.base += 10
		m := next()
		if !conc {
			for _, k := range ks {
				before := files()
				t.Logf("%s", k.desc)
				if c.judge(k) {
					answered++
				}
				if after := files(); after != before && !k.free {
					t.Fatalf("[%s] changes the state from %q to %q", k.desc, before, after)
				}
			}
		} else {
			var grp pbt.Group
			for _, k := range ks {
				k := k
				t.Logf("at once: %s", k.desc)
				grp.Go(func() {
					if c.judge(k) {
						atomic.AddInt32(&answered, 1)
					}
				})
			}
			if c.leads {
				during := m
				m.H += 10
				c.base += 10
				c.honest(during, "meanwhile")
			}
			grp.Wait()
			t.Label("at once")
		}
		if c.leads {
			c.honest(m, "afterwards")
			if err := c.st.Set("k", "v"); err != nil {
				t.FatalfLive("after the hostile contacts the member does not lead: %v", err)
			}
			fs, err := readStateFile(c.node.File)
			if err != nil || fs.HRS != m.HRS() {
				t.Fatalf("after signing %s the state says %v (%v)", m, fs.HRS, err)
			}
		} else {
			c.share(m, "afterwards")
		}
		t.Logf("signed %s", m)
		if t.Chance(1, 3) {
			p := m
			p.H++
			c.get(p, "afterwards")
		}
	}
	t.Label(fmt.Sprintf("leads %v", c.leads))
	if answered >= 3 {
		t.NonTrivial(fmt.Sprintf("%d", t.CaseNo))
	}
}
