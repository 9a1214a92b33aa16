package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/libs/protoio"
	"github.com/tendermint/tendermint/p2p/conn"
	pvproto "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

// sentry is a chain node's side of the private validator protocol: it listens, the signer dials.
type sentry struct {
	t    *pbt.T
	l    net.Listener
	addr string
	mu   sync.Mutex
	acc  chan net.Conn
	open []net.Conn
	done chan struct{}
	// hook decides what to do with the next connection before its handshake ("" = handshake)
	hook func() string
}

func newSentry(t *pbt.T) *sentry {
	s := &sentry{t: t, done: make(chan struct{}), acc: make(chan net.Conn, 100)}
	s.listen("127.0.0.1:0")
	t.Defer(s.close)
	return s
}

func (s *sentry) listen(a string) {
	l, err := net.Listen("tcp", a)
	if err != nil {
		pbt.Harness("listening: %v", err)
	}
	s.l = l
	s.addr = "tcp://" + l.Addr().String()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			select {
			case s.acc <- c:
			default:
				c.Close()
			}
		}
	}()
}

func (s *sentry) close() {
	s.l.Close()
	for {
		select {
		case c := <-s.acc:
			c.Close()
			continue
		default:
		}
		break
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.open {
		c.Close()
	}
}

// sconn is one connection of a signer to a sentry.
type sconn struct {
	raw net.Conn
	sc  net.Conn
}

var errNoConn = fmt.Errorf("the signer does not connect")

// accept waits for the signer and completes the handshake with it.
func (s *sentry) accept(timeout time.Duration) (*sconn, error) {
	end := time.Now().Add(timeout)
	last := errNoConn
	for {
		raw, err := s.acceptRaw(time.Until(end))
		if err != nil {
			return nil, last
		}
		_ = raw.SetDeadline(time.Now().Add(20 * time.Second))
		sc, err := conn.MakeSecretConnection(raw, tmed.GenPrivKey())
		if err != nil { // e.g. a connection the signer has given up meanwhile
			raw.Close()
			last = fmt.Errorf("handshake: %v", err)
			continue
		}
		return &sconn{raw: raw, sc: sc}, nil
	}
}

// acceptRaw waits for a connection without handshake.
func (s *sentry) acceptRaw(timeout time.Duration) (net.Conn, error) {
	if timeout < 0 {
		timeout = 0
	}
	select {
	case c := <-s.acc:
		s.mu.Lock()
		s.open = append(s.open, c)
		s.mu.Unlock()
		return c, nil
	case <-time.After(timeout):
		return nil, errNoConn
	}
}

func (c *sconn) close() { c.raw.Close() }

// reset ends the connection such that the signer's next write or read on it fails.
func (c *sconn) reset() {
	if tc, ok := c.raw.(*net.TCPConn); ok {
		_ = tc.SetLinger(0)
	}
	c.raw.Close()
}

func frame(m *pvproto.Message) []byte {
	var b bytes.Buffer
	_, err := protoio.NewDelimitedWriter(&b).WriteMsg(m)
	pbt.Must(err)
	return b.Bytes()
}

func delimit(body []byte) []byte {
	h := make([]byte, binary.MaxVarintLen64)
	return append(h[:binary.PutUvarint(h, uint64(len(body)))], body...)
}

func (c *sconn) write(b []byte) error {
	_ = c.raw.SetWriteDeadline(time.Now().Add(20 * time.Second))
	_, err := c.sc.Write(b)
	return err
}

// recv reads one message. A nil message and nil error mean that nothing came in time; an error means that the connection is gone.
func (c *sconn) recv(timeout time.Duration) (*pvproto.Message, error) {
	_ = c.raw.SetReadDeadline(time.Now().Add(timeout))
	m := &pvproto.Message{}
	_, err := protoio.NewDelimitedReader(oneByOne{c.sc}, 1<<20).ReadMsg(m)
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return nil, nil
		}
		return nil, err
	}
	return m, nil
}

type oneByOne struct{ r io.Reader }

func (o oneByOne) Read(b []byte) (int, error) { return o.r.Read(b) }

func voteReq(v *tmproto.Vote, chain string) *pvproto.Message {
	return &pvproto.Message{Sum: &pvproto.Message_SignVoteRequest{SignVoteRequest: &pvproto.SignVoteRequest{Vote: v, ChainId: chain}}}
}

func proposalReq(p *tmproto.Proposal, chain string) *pvproto.Message {
	return &pvproto.Message{Sum: &pvproto.Message_SignProposalRequest{SignProposalRequest: &pvproto.SignProposalRequest{Proposal: p, ChainId: chain}}}
}

func pubKeyReq(chain string) *pvproto.Message {
	return &pvproto.Message{Sum: &pvproto.Message_PubKeyRequest{PubKeyRequest: &pvproto.PubKeyRequest{ChainId: chain}}}
}

func pingReq() *pvproto.Message {
	return &pvproto.Message{Sum: &pvproto.Message_PingRequest{PingRequest: &pvproto.PingRequest{}}}
}

// msgReq is the request for a drawn message.
func msgReq(m Msg) *pvproto.Message {
	if m.Kind == kProposal {
		return proposalReq(m.Proposal(), m.ChainID())
	}
	return voteReq(m.Vote(), m.ChainID())
}

// msgReqAs is the request for m that names another chain.
func msgReqAs(m Msg, chain string) *pvproto.Message {
	if m.Kind == kProposal {
		return proposalReq(m.Proposal(), chain)
	}
	return voteReq(m.Vote(), chain)
}

// drawReq is the request for m, sometimes naming another chain than the signer's.
func drawReq(t *pbt.T, m Msg) *pvproto.Message {
	if t.Chance(1, 8) {
		c := []string{"", "other-chain", chains[t.Intn(len(chains))]}[t.Intn(3)]
		t.Logf("the request names chain %q", c)
		return msgReqAs(m, c)
	}
	return msgReq(m)
}

// answer is a decoded sign response.
type answer struct {
	sig  []byte
	ts   time.Time
	err  string
	sb   []byte // sign bytes of what is in the response, for the signer's own chain
	kind string
}

func kindOf(m *pvproto.Message) string {
	switch m.Sum.(type) {
	case *pvproto.Message_PubKeyResponse:
		return "pubkey response"
	case *pvproto.Message_SignedVoteResponse:
		return "vote response"
	case *pvproto.Message_SignedProposalResponse:
		return "proposal response"
	case *pvproto.Message_PingResponse:
		return "ping response"
	case nil:
		return "empty message"
	}
	return fmt.Sprintf("%T", m.Sum)
}

// answerTo judges the form of the response to m; "" or what is wrong.
func answerTo(m Msg, chain string, r *pvproto.Message) (answer, string) {
	var a answer
	a.kind = kindOf(r)
	if m.Kind == kProposal {
		s, ok := r.Sum.(*pvproto.Message_SignedProposalResponse)
		if !ok {
			return a, fmt.Sprintf("a proposal request is answered with a %s", a.kind)
		}
		p := s.SignedProposalResponse
		if p.Error != nil {
			a.err = "error: " + p.Error.Description
			return a, ""
		}
		want, got := *m.Proposal(), p.Proposal
		a.sig, a.ts = got.Signature, got.Timestamp
		want.Signature, want.Timestamp = got.Signature, got.Timestamp
		if !bytes.Equal(mustMarshal(&want), mustMarshal(&got)) {
			return a, fmt.Sprintf("the response carries another proposal: %v instead of %v", got, want)
		}
		a.sb = tm.ProposalSignBytes(chain, &got)
		return a, ""
	}
	s, ok := r.Sum.(*pvproto.Message_SignedVoteResponse)
	if !ok {
		return a, fmt.Sprintf("a vote request is answered with a %s", a.kind)
	}
	p := s.SignedVoteResponse
	if p.Error != nil {
		a.err = "error: " + p.Error.Description
		return a, ""
	}
	want, got := *m.Vote(), p.Vote
	a.sig, a.ts = got.Signature, got.Timestamp
	want.Signature, want.Timestamp = got.Signature, got.Timestamp
	if !bytes.Equal(mustMarshal(&want), mustMarshal(&got)) {
		return a, fmt.Sprintf("the response carries another vote: %v instead of %v", got, want)
	}
	a.sb = tm.VoteSignBytes(chain, &got)
	return a, ""
}

func mustMarshal(m interface{ Marshal() ([]byte, error) }) []byte {
	b, err := m.Marshal()
	pbt.Must(err)
	return b
}
