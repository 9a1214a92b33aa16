package main

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"math"
	"net"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	hproto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
)

func init() { registry["C21"] = propC21 }

func propC21() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C21",
		Rule: "client: the remote cosigner client called (1..4 calls at once) with drawn values of every field (int64/int8/int32 extremes, arbitrary bytes, 0..9 parts) against a server of the harness that records the wire request and answers " +
			"with drawn values, an error of every code, silence or a late answer; and against refused ports, peers that never speak, hang up, or speak something else. Oracle: the request arrives unchanged, the answer comes back unchanged, " +
			"failures are errors without a result within the time limit. server: the real node's network service, called over the network and directly in drawn mixtures (get and sign, valid, tampered, repeated, conflicting, stale), with a twin cosigner " +
			"of the same key called only directly. Oracle: both ways give the same decrypted nonce parts, the same signature shares, the same refusals; the stored state is the twin's. Non-trivial: a call with a non-empty payload (client); " +
			"a remote signature (server). Distinct by choices.",
		Assumptions: []string{"integers of parts fit 32 bits, as all configured IDs do"},
		Parts: []pbt.Part{
			{Name: "client", Fn: c21Client, Quick: 2500, Thorough: 120000, Workers: 32, QuickSecs: 30, ThoroughSecs: 900, Timeout: 120 * time.Second},
			{Name: "server", Fn: c21Server, Quick: 600, Thorough: 3000, Workers: 8, QuickSecs: 30, ThoroughSecs: 600, Timeout: 180 * time.Second},
		}}
}

// ---------- client ----------

type c21call struct {
	sign  bool
	hrst  signer.HRSTKey
	parts []signer.CosignerEphemeralSecretPart
	sb    []byte

	// what the server does
	mode  int // 0 answer, 1 error, 2 silence, 3 late answer
	code  codes.Code
	resp  []signer.CosignerEphemeralSecretPart
	eph   []byte
	sig   []byte
	ts    int64
	delay time.Duration

	seen int
}

type c21server struct {
	hproto.UnimplementedCosignerGRPCServer
	mu    sync.Mutex
	calls map[int64]*c21call
	bad   []string
}

func (s *c21server) fail(f string, a ...interface{}) {
	s.mu.Lock()
	s.bad = append(s.bad, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

func (s *c21server) begin(ctx context.Context, sign bool, h *hproto.HRST) (*c21call, error) {
	s.mu.Lock()
	c := s.calls[h.GetHeight()]
	s.mu.Unlock()
	if c == nil || c.sign != sign {
		s.fail("the server got a call for %v that nobody made", h)
		return nil, status.Error(codes.Internal, "unknown call")
	}
	s.mu.Lock()
	c.seen++
	s.mu.Unlock()
	if h.GetRound() != c.hrst.Round || h.GetStep() != int32(c.hrst.Step) || h.GetTimestamp() != c.hrst.Timestamp {
		s.fail("call for %+v arrived as %v", c.hrst, h)
	}
	switch c.mode {
	case 1:
		return nil, status.Error(c.code, "refused")
	case 2:
		<-ctx.Done()
		return nil, ctx.Err()
	case 3:
		select {
		case <-time.After(c.delay):
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	return c, nil
}

func (s *c21server) GetEphemeralSecretParts(ctx context.Context, r *hproto.CosignerGRPCGetEphemeralSecretPartsRequest) (*hproto.CosignerGRPCGetEphemeralSecretPartsResponse, error) {
	c, err := s.begin(ctx, false, r.GetHrst())
	if err != nil {
		return nil, err
	}
	out := &hproto.CosignerGRPCGetEphemeralSecretPartsResponse{}
	for _, p := range c.resp {
		out.EncryptedSecrets = append(out.EncryptedSecrets, &hproto.EphemeralSecretPart{SourceID: int32(p.SourceID), DestinationID: int32(p.DestinationID),
			SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
	}
	return out, nil
}

func (s *c21server) SetEphemeralSecretPartsAndSign(ctx context.Context, r *hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest) (*hproto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse, error) {
	c, err := s.begin(ctx, true, r.GetHrst())
	if err != nil {
		return nil, err
	}
	if !bytes.Equal(r.GetSignBytes(), c.sb) {
		s.fail("sign bytes %s arrived as %s", pbt.Hex(c.sb), pbt.Hex(r.GetSignBytes()))
	}
	var got []signer.CosignerEphemeralSecretPart
	for _, p := range r.GetEncryptedSecrets() {
		got = append(got, signer.CosignerEphemeralSecretPart{SourceID: int(p.SourceID), DestinationID: int(p.DestinationID),
			SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
	}
	if d := diffParts(c.parts, got); d != "" {
		s.fail("the sent parts arrived changed: %s", d)
	}
	return &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{EphemeralPublic: c.eph, Timestamp: c.ts, Signature: c.sig}, nil
}

func diffParts(a, b []signer.CosignerEphemeralSecretPart) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d parts became %d", len(a), len(b))
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.SourceID != y.SourceID || x.DestinationID != y.DestinationID {
			return fmt.Sprintf("part %d: IDs %d->%d became %d->%d", i, x.SourceID, x.DestinationID, y.SourceID, y.DestinationID)
		}
		if !bytes.Equal(x.SourceEphemeralSecretPublicKey, y.SourceEphemeralSecretPublicKey) {
			return fmt.Sprintf("part %d: public key %x became %x", i, x.SourceEphemeralSecretPublicKey, y.SourceEphemeralSecretPublicKey)
		}
		if !bytes.Equal(x.EncryptedSharePart, y.EncryptedSharePart) {
			return fmt.Sprintf("part %d: share %x became %x", i, x.EncryptedSharePart, y.EncryptedSharePart)
		}
		if !bytes.Equal(x.SourceSig, y.SourceSig) {
			return fmt.Sprintf("part %d: signature %x became %x", i, x.SourceSig, y.SourceSig)
		}
	}
	return ""
}

func drawID32(t *pbt.T) int {
	switch t.Intn(4) {
	case 0:
		return 1 + t.Intn(9)
	case 1:
		return []int{0, -1, math.MaxInt32, math.MinInt32, 255, 256, 65536}[t.Intn(7)]
	}
	return int(int32(uint32(t.U64())))
}

func drawBlob(t *pbt.T) []byte {
	switch t.Weighted(1, 1, 4, 3, 1) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return t.Bytes([]int{1, 32, 64, 128, 256}[t.Intn(5)])
	case 3:
		return t.Bytes(t.Range(1, 300))
	}
	return bytes.Repeat(t.Bytes(16), t.Range(1, 4096))
}

func drawParts(t *pbt.T) []signer.CosignerEphemeralSecretPart {
	var out []signer.CosignerEphemeralSecretPart
	for i := t.Weighted(1, 2, 3, 2, 1, 1, 1, 1, 1, 1); i > 0; i-- {
		out = append(out, signer.CosignerEphemeralSecretPart{SourceID: drawID32(t), DestinationID: drawID32(t),
			SourceEphemeralSecretPublicKey: drawBlob(t), EncryptedSharePart: drawBlob(t), SourceSig: drawBlob(t)})
	}
	return out
}

func c21Client(t *pbt.T) {
	n := t.Weighted(0, 4, 1, 1, 1)
	s := &c21server{calls: map[int64]*c21call{}}
	var calls []*c21call
	dead := 0 // what is at the other end
	if t.Chance(1, 12) {
		dead = 1 + t.Intn(7)
	}
	for i := 0; i < n; i++ {
		c := &c21call{sign: t.Bool(), hrst: signer.HRSTKey{Height: t.I64(), Round: t.I64(), Step: int8(t.U64()), Timestamp: t.I64()}}
		for s.calls[c.hrst.Height] != nil {
			c.hrst.Height++
		}
		if c.sign {
			c.parts, c.sb = drawParts(t), drawBlob(t)
			c.eph, c.sig, c.ts = drawBlob(t), drawBlob(t), t.I64()
		} else {
			c.resp = drawParts(t)
		}
		switch t.Weighted(40, 12, 1, 1) {
		case 1:
			c.mode, c.code = 1, codes.Code(1+t.Intn(16))
		case 2:
			c.mode = 2
		case 3:
			c.mode, c.delay = 3, time.Duration(1+t.Intn(15))*100*time.Millisecond
		}
		s.calls[c.hrst.Height] = c
		calls = append(calls, c)
		t.Logf("call sign=%v %+v parts=%d/%d server=%d", c.sign, c.hrst, len(c.parts), len(c.resp), c.mode)
		if len(c.parts) > 0 || len(c.resp) > 0 || len(c.sb) > 0 {
			t.NonTrivial(fmt.Sprintf("%d", t.CaseNo))
		}
	}
	addr := ""
	switch dead {
	case 0:
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			pbt.Harness("listening: %v", err)
		}
		gs := grpc.NewServer()
		hproto.RegisterCosignerGRPCServer(gs, s)
		go func() { _ = gs.Serve(l) }()
		t.Defer(gs.Stop)
		addr = l.Addr().String()
	case 1: // nobody listens
		addr = fmt.Sprintf("127.0.0.1:%d", 1+t.Intn(9))
	case 2, 3, 4, 5:
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			pbt.Harness("listening: %v", err)
		}
		t.Defer(func() { l.Close() })
		addr = l.Addr().String()
		junk := t.Bytes(t.Range(1, 200))
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				switch dead {
				case 2: // never speaks
					t.Defer(func() { c.Close() })
				case 3: // hangs up
					c.Close()
				case 4:
					_, _ = c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"))
					t.Defer(func() { c.Close() })
				case 5:
					_, _ = c.Write(junk)
					t.Defer(func() { c.Close() })
				}
			}
		}()
	case 6: // a service without these methods
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			pbt.Harness("listening: %v", err)
		}
		gs := grpc.NewServer()
		if t.Bool() {
			hproto.RegisterCosignerGRPCServer(gs, hproto.UnimplementedCosignerGRPCServer{})
		}
		go func() { _ = gs.Serve(l) }()
		t.Defer(gs.Stop)
		addr = l.Addr().String()
	case 7: // no address at all
		addr = ""
	}
	if dead != 7 && t.Chance(4, 5) {
		addr = "tcp://" + addr
	}
	id := 1 + t.Intn(9)
	rc := signer.NewRemoteCosigner(id, addr)
	if rc.GetID() != id || rc.GetAddress() != addr {
		t.Fatalf("the remote cosigner %d at %q says it is %d at %q", id, addr, rc.GetID(), rc.GetAddress())
	}
	t.Logf("other end %d at %q", dead, addr)
	type result struct {
		get  *signer.CosignerEphemeralSecretPartsResponse
		sign *signer.CosignerSignResponse
		err  error
		took time.Duration
	}
	res := make([]result, n)
	g := pbt.Group{}
	for i := range calls {
		i := i
		g.Go(func() {
			c := calls[i]
			t0 := time.Now()
			if c.sign {
				res[i].sign, res[i].err = rc.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: c.parts, HRST: c.hrst, SignBytes: c.sb})
			} else {
				res[i].get, res[i].err = rc.GetEphemeralSecretParts(c.hrst)
			}
			res[i].took = time.Since(t0)
		})
	}
	g.Wait()
	s.mu.Lock()
	bad := append([]string{}, s.bad...)
	s.mu.Unlock()
	if len(bad) > 0 {
		sort.Strings(bad)
		t.Fatalf("%s", bad[0])
	}
	for i, c := range calls {
		r := res[i]
		if r.took > 10*time.Second {
			t.FatalfLive("a call took %v", r.took)
		}
		if dead != 0 || c.mode == 1 || c.mode == 2 {
			if r.err == nil {
				t.Fatalf("a failed call (other end %d, mode %d, code %v) returned no error but get=%v sign=%v", dead, c.mode, c.code, r.get, r.sign)
			}
			if r.get != nil || r.sign != nil {
				t.Fatalf("a failed call returned both an error and a result: %v", r.err)
			}
			t.Label(fmt.Sprintf("failure/%d/%d", dead, c.mode))
			continue
		}
		if r.err != nil {
			t.FatalfLive("a call (mode %d) that the peer answers failed: %v", c.mode, r.err)
		}
		if c.sign {
			if r.sign == nil {
				t.Fatalf("a call succeeded without a result")
			}
			if !bytes.Equal(r.sign.EphemeralPublic, c.eph) || !bytes.Equal(r.sign.Signature, c.sig) {
				t.Fatalf("the answer (%x, %x) came back as (%x, %x)", c.eph, c.sig, r.sign.EphemeralPublic, r.sign.Signature)
			}
			if r.sign.Timestamp.UnixNano() != c.ts {
				t.Fatalf("the timestamp %d came back as %v", c.ts, r.sign.Timestamp)
			}
			t.Label("sign")
		} else {
			if r.get == nil {
				t.Fatalf("a call succeeded without a result")
			}
			if d := diffParts(c.resp, r.get.EncryptedSecrets); d != "" {
				t.Fatalf("the answered parts came back changed: %s", d)
			}
			t.Label("get")
		}
		if c.seen < 1 {
			t.Fatalf("a call succeeded without reaching the peer")
		}
	}
}

// ---------- server ----------

func c21Server(t *pbt.T) {
	n, th := drawNT(t, 5)
	ring := NewRing(t, n, th, nil)
	me := ring.IDs[t.Intn(n)]
	node := ring.Nodes[me]

	// the twin has the same key and its own state and memory, and is only called directly
	twin := &Node{Ring: ring, ID: me, File: filepath.Join(ring.Dir, "twin.json")}
	if _, err := signer.LoadOrCreateSignState(twin.File); err != nil {
		t.Fatalf("creating a sign state failed: %v", err)
	}
	twin.Restart(t)

	port := freePort()
	addr := fmt.Sprintf("tcp://127.0.0.1:%d", port)
	st := signer.NewRaftStore(fmt.Sprint(me), mkdir(filepath.Join(t.Scratch, "raft")), addr, time.Second, nopLogger{}, node.LC, nil)
	val := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: ring.Pub, Threshold: th, SignState: signer.SignState{}, Cosigner: node.LC, RaftStore: st, Logger: nopLogger{}})
	st.SetThresholdValidator(val)
	if err := st.Start(); err != nil {
		pbt.Harness("starting the service: %v", err)
	}
	rc := signer.NewRemoteCosigner(me, addr)

	open := func(p signer.CosignerEphemeralSecretPart) string {
		s, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, ring.RSA[p.DestinationID], p.EncryptedSharePart, nil)
		if err != nil {
			t.Fatalf("the part for %d does not open: %v", p.DestinationID, err)
		}
		return fmt.Sprintf("%d->%d pub %x share %x", p.SourceID, p.DestinationID, p.SourceEphemeralSecretPublicKey, s)
	}
	get := func(h signer.HRSTKey, remote bool) []string {
		c := signer.Cosigner(node.LC)
		if remote {
			c = rc
		}
		res, err := c.GetEphemeralSecretParts(h)
		// the twin deals nonces for the position too (a request without parts is answered only then)
		if _, err := twin.LC.GetEphemeralSecretParts(h); err != nil {
			t.Fatalf("getting nonce parts for %+v failed: %v", h, err)
		}
		if err != nil {
			if remote {
				t.FatalfLive("getting nonce parts for %+v over the network failed: %v", h, err)
			}
			t.Fatalf("getting nonce parts for %+v failed: %v", h, err)
		}
		var out []string
		for _, p := range res.EncryptedSecrets {
			if ring.RSA[p.DestinationID] == nil {
				t.Fatalf("part for unknown cosigner %d", p.DestinationID)
			}
			out = append(out, open(p))
		}
		sort.Strings(out)
		if len(out) != n-1 {
			t.Fatalf("%d nonce parts for %d peers (remote %v)", len(out), n-1, remote)
		}
		return out
	}
	g := MsgGen{Base: 10, H: 3, R: 2, Chains: 2, TS: 3}
	var last []Msg
	steps := t.Range(4, 14)
	for i := 0; i < steps; i++ {
		m := g.Draw(t)
		if len(last) > 0 && t.Chance(3, 5) {
			m = g.Mutate(t, last[len(last)-1-t.Intn(len(last))])
		}
		if t.Chance(1, 3) {
			h := m.HRST()
			switch t.Intn(4) {
			case 0:
				h = signer.HRSTKey{Height: t.I64(), Round: t.I64(), Step: int8(t.U64()), Timestamp: t.I64()}
			case 1:
				h = signer.HRSTKey{}
			}
			first := t.Bool()
			a := get(h, first)
			b := get(h, !first)
			for j := range a {
				if a[j] != b[j] {
					t.Fatalf("nonce part for %+v: remote=%v gives %s, remote=%v gives %s", h, first, a[j], !first, b[j])
				}
			}
			if h == (signer.HRSTKey{}) {
				// an absent position is the zero position
				conn, err := grpc.Dial(addr[len("tcp://"):], grpc.WithTransportCredentials(insecure.NewCredentials()))
				pbt.Must(err)
				ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
				_, err = hproto.NewCosignerGRPCClient(conn).GetEphemeralSecretParts(ctx, &hproto.CosignerGRPCGetEphemeralSecretPartsRequest{})
				cancel()
				conn.Close()
				if err != nil {
					t.FatalfLive("a request without a position failed: %v", err)
				}
			}
			t.Logf("get %+v", h)
			t.Label("get")
			continue
		}
		// sign
		last = append(last, m)
		hrst := m.HRST()
		if t.Chance(1, 15) {
			hrst = signer.HRSTKey{Height: t.I64(), Round: t.I64(), Step: int8(t.U64()), Timestamp: t.I64()}
		}
		k := th - 1
		switch t.Weighted(8, 1, 1) {
		case 1:
			k = t.Intn(n)
		case 2:
			k = n - 1
		}
		from := pickSome(t, others(ring.IDs, me), k)
		parts := ring.partsFor(t, me, from, hrst)
		tamper := ""
		if len(parts) > 0 && t.Chance(1, 6) {
			p := &parts[t.Intn(len(parts))]
			switch t.Intn(7) {
			case 0:
				p.SourceSig, tamper = nil, "no signature"
			case 1:
				p.SourceSig[t.Intn(len(p.SourceSig))] ^= 1 << uint(t.Intn(8))
				tamper = "signature"
			case 2:
				p.SourceID, tamper = drawID32(t), "source"
				for ring.Nodes[p.SourceID] != nil {
					p.SourceID++
				}
			case 3:
				p.EncryptedSharePart[t.Intn(len(p.EncryptedSharePart))] ^= 1
				tamper = "share"
			case 4:
				p.SourceEphemeralSecretPublicKey = t.Bytes(32)
				tamper = "public key"
			case 5:
				p.EncryptedSharePart, tamper = nil, "no share"
			case 6:
				p.DestinationID = drawID32(t) // carries no meaning for the receiver
			}
		}
		sb := m.SignBytes()
		if t.Chance(1, 12) {
			sb = sb[:t.Intn(len(sb))]
			tamper += " cut sign bytes"
		}
		remote := t.Weighted(1, 3) == 1
		cp := func() signer.CosignerSetEphemeralSecretPartsAndSignRequest {
			r := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: hrst, SignBytes: append([]byte{}, sb...)}
			r.EncryptedSecrets = append(r.EncryptedSecrets, parts...)
			return r
		}
		do := func(remote bool) (*signer.CosignerSignResponse, error) {
			if remote {
				r, err := rc.SetEphemeralSecretPartsAndSign(cp())
				if err != nil && r != nil {
					t.Fatalf("a failed remote call returned a result")
				}
				if err == nil && r == nil {
					t.Fatalf("a remote call succeeded without a result")
				}
				if s, ok := status.FromError(err); err != nil && ok && (s.Code() == codes.DeadlineExceeded || s.Code() == codes.Unavailable) {
					t.FatalfLive("signing over the network failed: %v", err)
				}
				return r, err
			}
			return node.LC.SetEphemeralSecretPartsAndSign(cp())
		}
		before := fileBytes(node.File)
		ra, ea := do(remote)
		mid := fileBytes(node.File)
		// the twin's own nonces were dealt by the request, as here
		_, et := twin.LC.SetEphemeralSecretPartsAndSign(cp())
		t.Logf("sign %s from %v remote=%v tamper=%q: %v (twin %v)", m, from, remote, tamper, ea, et)
		if (ea == nil) != (et == nil) {
			t.Fatalf("%s called with remote=%v: %v; its twin called directly: %v", m, remote, ea, et)
		}
		fa, err1 := readStateFile(node.File)
		ft, err2 := readStateFile(twin.File)
		if err1 != nil || err2 != nil {
			t.Fatalf("state files do not read: %v %v", err1, err2)
		}
		if fa.HRS != ft.HRS || fa.SignBytes != ft.SignBytes {
			t.Fatalf("after %s with remote=%v the state is %v %s, the twin's %v %s", m, remote, fa.HRS, fa.SignBytes, ft.HRS, ft.SignBytes)
		}
		if ea != nil {
			if !bytes.Equal(before, mid) {
				t.Fatalf("refused %s (%v), but the state file changed", m, ea)
			}
			t.Label("refused")
		} else {
			if len(ra.Signature) == 0 || len(ra.EphemeralPublic) == 0 {
				t.Fatalf("%s with remote=%v succeeded with an empty result: %x %x", m, remote, ra.Signature, ra.EphemeralPublic)
			}
			if remote {
				t.NonTrivial(fmt.Sprintf("%d", t.CaseNo))
				t.Label("signed remotely")
			}
		}
		if t.Chance(1, 2) {
			rb, eb := do(!remote)
			if (ea == nil) != (eb == nil) {
				t.Fatalf("%s called with remote=%v: %v; repeated with remote=%v: %v", m, remote, ea, !remote, eb)
			}
			if ea == nil && (!bytes.Equal(ra.Signature, rb.Signature) || !bytes.Equal(ra.EphemeralPublic, rb.EphemeralPublic) || ra.Timestamp.UnixNano() != rb.Timestamp.UnixNano()) {
				t.Fatalf("%s: remote=%v gives %x %x %v, remote=%v gives %x %x %v", m, remote, ra.Signature, ra.EphemeralPublic, ra.Timestamp, !remote, rb.Signature, rb.EphemeralPublic, rb.Timestamp)
			}
			if !bytes.Equal(mid, fileBytes(node.File)) {
				t.Fatalf("repeating %s changed the state file", m)
			}
			_, et := twin.LC.SetEphemeralSecretPartsAndSign(cp())
			if (et == nil) != (eb == nil) {
				t.Fatalf("%s repeated with remote=%v: %v; the twin: %v", m, !remote, eb, et)
			}
			t.Label("both ways")
		}
	}
}
