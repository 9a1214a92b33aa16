package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"path/filepath"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	"github.com/tendermint/tendermint/libs/protoio"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

func init() { registry["C11"] = propC11 }

func propC11() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C11",
		Rule: "unpack: canonical messages over full field ranges (int64 heights, int32 rounds, any block ID, timestamp and chain ID), encoded with tendermint's own encoder, must unpack to their own fields. pair: two such " +
			"messages at one height/round/step, the second derived by changing drawn fields, in every order; the verdict must be 'only timestamp' exactly when all other fields are equal. bytes: random bytes, and mutated, " +
			"truncated, spliced and re-typed encodings, compared with a reference decoding by tendermint's message types; every comparison entry point must return. Non-trivial: every case of unpack and pair; byte strings other than a canonical encoding.",
		Assumptions: []string{"tendermint's sign-byte encoder and message decoder are the reference", "timestamps are within the range of nanosecond integers (years 1678 to 2262)"},
		Parts: []pbt.Part{
			{Name: "unpack", Fn: c11Unpack, Quick: 200000, Thorough: 5000000, QuickSecs: 20, ThoroughSecs: 400},
			{Name: "pair", Fn: c11Pair, Quick: 400000, Thorough: 10000000, QuickSecs: 25, ThoroughSecs: 600},
			{Name: "bytes", Fn: c11Bytes, Quick: 400000, Thorough: 15000000, QuickSecs: 25, ThoroughSecs: 900},
		}}
}

// cmsg is a canonical message described by plain fields.
type cmsg struct {
	typ   tmproto.SignedMsgType
	h     int64
	r     int64
	pol   int64
	block bool
	hash  string
	total uint32
	phash string
	ts    time.Time
	chain string
}

func (c cmsg) step() int8 {
	switch c.typ {
	case tmproto.ProposalType:
		return 1
	case tmproto.PrevoteType:
		return 2
	}
	return 3
}

// encode gives the sign bytes of the message.
func (c cmsg) encode() []byte {
	var bid *tmproto.CanonicalBlockID
	if c.block {
		bid = &tmproto.CanonicalBlockID{Hash: []byte(c.hash), PartSetHeader: tmproto.CanonicalPartSetHeader{Total: c.total, Hash: []byte(c.phash)}}
	}
	var b []byte
	var err error
	if c.typ == tmproto.ProposalType {
		b, err = protoio.MarshalDelimited(&tmproto.CanonicalProposal{Type: c.typ, Height: c.h, Round: c.r, POLRound: c.pol, BlockID: bid, Timestamp: c.ts, ChainID: c.chain})
	} else {
		b, err = protoio.MarshalDelimited(&tmproto.CanonicalVote{Type: c.typ, Height: c.h, Round: c.r, BlockID: bid, Timestamp: c.ts, ChainID: c.chain})
	}
	pbt.Must(err)
	return b
}

// viaTM encodes through the consensus types; only for messages they can carry.
func (c cmsg) viaTM() []byte {
	bid := tmproto.BlockID{}
	if c.block {
		bid = tmproto.BlockID{Hash: []byte(c.hash), PartSetHeader: tmproto.PartSetHeader{Total: c.total, Hash: []byte(c.phash)}}
	}
	if c.typ == tmproto.ProposalType {
		return tm.ProposalSignBytes(c.chain, &tmproto.Proposal{Type: c.typ, Height: c.h, Round: int32(c.r), PolRound: int32(c.pol), BlockID: bid, Timestamp: c.ts})
	}
	return tm.VoteSignBytes(c.chain, &tmproto.Vote{Type: c.typ, Height: c.h, Round: int32(c.r), BlockID: bid, Timestamp: c.ts, ValidatorAddress: fill(1, 20), ValidatorIndex: 2})
}

func (c cmsg) String() string {
	return fmt.Sprintf("%v %d/%d pol %d block %v %x/%d/%x %v %q", c.typ, c.h, c.r, c.pol, c.block, c.hash, c.total, c.phash, c.ts.UnixNano(), c.chain)
}

func drawHash(t *pbt.T) string {
	switch t.Weighted(5, 2, 1, 1) {
	case 0:
		return string(fill(byte(t.Intn(3)), 32))
	case 1:
		return string(t.Bytes(32))
	case 2:
		return ""
	}
	return string(t.Bytes(t.Range(1, 40)))
}

func drawTime(t *pbt.T) time.Time {
	switch t.Weighted(4, 3, 1, 2) {
	case 0:
		return tsPool[t.Intn(len(tsPool))]
	case 1:
		return time.Unix(int64(t.Intn(1<<32)), int64(t.Intn(1e9))).UTC()
	case 2:
		return time.Unix(0, int64(t.U64())).UTC()
	}
	ex := []int64{0, 1, -1, 999999999, -999999999, 1000000000, math.MaxInt64, math.MinInt64, math.MaxInt32, 1 << 32}
	return time.Unix(0, ex[t.Intn(len(ex))]).UTC()
}

func drawCmsg(t *pbt.T) cmsg {
	c := cmsg{typ: []tmproto.SignedMsgType{tmproto.PrevoteType, tmproto.PrecommitType, tmproto.ProposalType}[t.Intn(3)]}
	c.h = t.I64()
	c.r = int64(int32(t.I64()))
	if c.typ == tmproto.ProposalType {
		c.pol = int64(int32(t.I64()))
		if t.Bool() {
			c.pol = -1
		}
	}
	if t.Chance(3, 4) {
		c.block = true
		c.hash, c.phash, c.total = drawHash(t), drawHash(t), uint32(t.I64())
		if c.hash == "" && c.phash == "" && c.total == 0 {
			c.total = 1
		}
	}
	c.ts = drawTime(t)
	c.chain = []string{"cosmoshub-4", "", "x", "chain-a", "chain-b"}[t.Intn(5)]
	if t.Chance(1, 4) {
		c.chain = t.Str("ab-19 é/", 0, 60)
	}
	return c
}

func (c cmsg) tmSized() bool {
	ok := func(h string) bool { return len(h) == 0 || len(h) == 32 }
	return ok(c.hash) && ok(c.phash)
}

func c11Check(t *pbt.T, c cmsg, b []byte) {
	k, err := signer.UnpackHRST(b)
	if err != nil {
		t.Fatalf("sign bytes of %s are not recognised: %v", c, err)
	}
	if k.Height != c.h || k.Round != c.r || k.Step != c.step() || k.Timestamp != c.ts.UnixNano() {
		t.Fatalf("sign bytes of %s unpack to %+v", c, k)
	}
}

func c11Unpack(t *pbt.T) {
	c := drawCmsg(t)
	t.Logf("%s", c)
	c11Check(t, c, c.encode())
	if c.tmSized() {
		b := c.viaTM()
		c11Check(t, c, b)
		// same message, two encoders: same bytes, no difference
		if !bytes.Equal(b, c.encode()) {
			pbt.Harness("encoders differ for %s", c)
		}
	}
	t.NonTrivial("")
}

// vary changes some fields of c other than its position.
func vary(t *pbt.T, c cmsg) cmsg {
	o := c
	n := t.Weighted(2, 8, 2)
	for i := 0; i < n; i++ {
		switch t.Weighted(3, 2, 2, 2, 2, 2, 1) {
		case 0:
			o.ts = drawTime(t)
		case 1:
			o.chain = []string{"cosmoshub-4", "", "x", o.chain + "x", "chain-b"}[t.Intn(5)]
		case 2:
			if c.typ == tmproto.ProposalType {
				o.pol = int64(int32(t.I64()))
			}
		case 3:
			if o.block {
				switch t.Intn(3) {
				case 0:
					o.hash = drawHash(t)
				case 1:
					if len(o.hash) > 0 {
						b := []byte(o.hash)
						b[t.Intn(len(b))] ^= 1 << uint(t.Intn(8))
						o.hash = string(b)
					}
				case 2:
					if len(o.hash) > 1 {
						o.hash = o.hash[:len(o.hash)-1]
					}
				}
			}
		case 4:
			if o.block {
				o.phash = drawHash(t)
			}
		case 5:
			if o.block {
				o.total = o.total + 1
				if t.Bool() {
					o.total = uint32(t.I64())
				}
			}
		case 6:
			o.block = !o.block
			if o.block && c.block {
				o.hash, o.phash, o.total = c.hash, c.phash, c.total
			} else if o.block {
				o.hash, o.phash, o.total = drawHash(t), drawHash(t), 1
			} else {
				o.hash, o.phash, o.total = "", "", 0
			}
		}
		if o.block && o.hash == "" && o.phash == "" && o.total == 0 {
			o.total = 1
		}
	}
	return o
}

func c11Pair(t *pbt.T) {
	a := drawCmsg(t)
	b := vary(t, a)
	t.Logf("%s", a)
	t.Logf("%s", b)
	x := b
	x.ts = a.ts
	want := x == a
	ab, bb := a.encode(), b.encode()
	for i := 0; i < 2; i++ {
		ss := signer.SignState{Height: a.h, Round: a.r, Step: a.step(), SignBytes: ab}
		sc := signer.SignStateConsensus{Height: a.h, Round: a.r, Step: a.step(), SignBytes: ab}
		if err := ss.OnlyDifferByTimestamp(bb); (err == nil) != want {
			t.Fatalf("differ only by timestamp: %v, judged %v: %s against %s", want, err, a, b)
		}
		if err := sc.OnlyDifferByTimestamp(bb); (err == nil) != want {
			t.Fatalf("differ only by timestamp: %v, judged %v (consensus state): %s against %s", want, err, a, b)
		}
		ab, bb, a, b = bb, ab, b, a
	}
	if want {
		t.Label("only timestamp")
	} else {
		t.Label("conflict")
	}
	if want && !a.ts.Equal(b.ts) {
		t.Label("other timestamp")
	}
	t.NonTrivial("")
}

// refUnpack is the reference reading of a byte string.
func refUnpack(b []byte) (signer.HRSTKey, bool) {
	var p tmproto.CanonicalProposal
	if err := protoio.UnmarshalDelimited(b, &p); err == nil && p.Type == tmproto.ProposalType {
		return signer.HRSTKey{Height: p.Height, Round: p.Round, Step: 1, Timestamp: p.Timestamp.UnixNano()}, true
	}
	var v tmproto.CanonicalVote
	if err := protoio.UnmarshalDelimited(b, &v); err == nil {
		switch v.Type {
		case tmproto.PrevoteType:
			return signer.HRSTKey{Height: v.Height, Round: v.Round, Step: 2, Timestamp: v.Timestamp.UnixNano()}, true
		case tmproto.PrecommitType:
			return signer.HRSTKey{Height: v.Height, Round: v.Round, Step: 3, Timestamp: v.Timestamp.UnixNano()}, true
		}
	}
	return signer.HRSTKey{}, false
}

func delimited(b []byte) []byte {
	l := make([]byte, binary.MaxVarintLen64)
	return append(l[:binary.PutUvarint(l, uint64(len(b)))], b...)
}

func c11Garble(t *pbt.T) []byte {
	c := drawCmsg(t)
	b := c.encode()
	_, n := binary.Uvarint(b)
	body := append([]byte{}, b[n:]...)
	switch t.Weighted(2, 3, 3, 3, 3, 2, 2, 2, 1) {
	case 0:
		return t.Bytes(t.Intn(60))
	case 1: // mutated body
		for i, k := 0, t.Range(1, 4); i < k && len(body) > 0; i++ {
			body[t.Intn(len(body))] = byte(t.U64())
		}
		return delimited(body)
	case 2: // truncated
		return b[:t.Intn(len(b))]
	case 3: // truncated body with a right length
		return delimited(body[:t.Intn(len(body)+1)])
	case 4: // another type number
		ty := []int64{0, 3, 4, 31, 32, 33, 1, 2, -1, 127, 128, 1 << 20, math.MaxInt32, math.MinInt32}[t.Intn(14)]
		c.typ = tmproto.SignedMsgType(ty)
		if t.Bool() {
			bid := &tmproto.CanonicalBlockID{Hash: []byte(c.hash)}
			if !c.block {
				bid = nil
			}
			o, err := protoio.MarshalDelimited(&tmproto.CanonicalProposal{Type: c.typ, Height: c.h, Round: c.r, POLRound: c.pol, BlockID: bid, Timestamp: c.ts, ChainID: c.chain})
			pbt.Must(err)
			return o
		}
		o, err := protoio.MarshalDelimited(&tmproto.CanonicalVote{Type: c.typ, Height: c.h, Round: c.r, Timestamp: c.ts, ChainID: c.chain})
		pbt.Must(err)
		return o
	case 5: // spliced
		d := drawCmsg(t).encode()
		return delimited(append(body[:t.Intn(len(body)+1)], d[t.Intn(len(d)):]...))
	case 6: // a wrong length
		l := make([]byte, binary.MaxVarintLen64)
		v := []uint64{0, 1, uint64(len(body)) + 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64, uint64(t.Intn(300))}[t.Intn(9)]
		return append(l[:binary.PutUvarint(l, v)], body...)
	case 7: // unknown fields appended
		f := byte(t.Range(8, 15))
		return delimited(append(body, f<<3, byte(t.Intn(128))))
	}
	return nil
}

func c11Bytes(t *pbt.T) {
	b := c11Garble(t)
	t.Logf("%x", b)
	want, ok := refUnpack(b)
	got, err := signer.UnpackHRST(b)
	if (err == nil) != ok {
		t.Fatalf("%x: recognised as a vote or proposal: %v, unpacked with %v", b, ok, err)
	}
	if ok && got != want {
		t.Fatalf("%x unpacks to %+v instead of %+v", b, got, want)
	}
	if !ok && got != (signer.HRSTKey{}) {
		t.Fatalf("%x unpacks to %+v with error %v", b, got, err)
	}
	// comparisons with anything must return; bytes that are no message never pass for a variant of one
	c := drawCmsg(t)
	o := c.encode()
	if t.Chance(1, 3) {
		o = c11Garble(t)
	}
	step := int8(t.Range(-1, 5))
	if t.Chance(2, 3) {
		step = c.step()
	}
	for _, p := range [][2][]byte{{o, b}, {b, o}} {
		ss := signer.SignState{Step: step, SignBytes: p[0]}
		_ = ss.OnlyDifferByTimestamp(p[1])
		sc := signer.SignStateConsensus{Step: step, SignBytes: p[0]}
		_ = sc.OnlyDifferByTimestamp(p[1])
	}
	if err == nil {
		ss := signer.SignState{Step: got.Step, SignBytes: b}
		if e := ss.OnlyDifferByTimestamp(b); e != nil {
			t.Fatalf("%x differs from itself: %v", b, e)
		}
	}
	if t.Chance(1, 50) {
		c11Cosigner(t, b, ok)
	}
	if ok {
		t.Label("message")
	} else {
		t.Label("no message")
	}
	t.NonTrivial("")
}

// c11Cosigner hands the bytes to a cosigner, which must answer; what is no message is refused.
func c11Cosigner(t *pbt.T, b []byte, ok bool) {
	ring := NewRing(t, 1, 1, nil)
	n := ring.Nodes[1]
	before := fileBytes(n.File)
	res, err := n.LC.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: signer.HRSTKey{Height: 1, Round: 1, Step: 1, Timestamp: 1}, SignBytes: b})
	if !ok {
		if err == nil {
			t.Fatalf("a cosigner signs %x, which is no message: %+v", b, res)
		}
		if !bytes.Equal(before, fileBytes(filepath.Clean(n.File))) {
			t.Fatalf("refusing %x changed the state", b)
		}
	}
	t.Label("cosigner")
}
