package main

import (
	"context"
	"net"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	hproto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	"google.golang.org/grpc"
)

// peerServer is the harness' own network front of a cosigner, with its own conversions.
type peerServer struct {
	hproto.UnimplementedCosignerGRPCServer
	node *Node
}

func hrstOf(h *hproto.HRST) signer.HRSTKey {
	return signer.HRSTKey{Height: h.GetHeight(), Round: h.GetRound(), Step: int8(h.GetStep()), Timestamp: h.GetTimestamp()}
}

func (s *peerServer) GetEphemeralSecretParts(_ context.Context, r *hproto.CosignerGRPCGetEphemeralSecretPartsRequest) (*hproto.CosignerGRPCGetEphemeralSecretPartsResponse, error) {
	res, err := s.node.get(hrstOf(r.GetHrst()))
	if err != nil {
		return nil, err
	}
	out := &hproto.CosignerGRPCGetEphemeralSecretPartsResponse{}
	for _, p := range res.EncryptedSecrets {
		out.EncryptedSecrets = append(out.EncryptedSecrets, &hproto.EphemeralSecretPart{SourceID: int32(p.SourceID), DestinationID: int32(p.DestinationID),
			SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
	}
	return out, nil
}

func (s *peerServer) SetEphemeralSecretPartsAndSign(_ context.Context, r *hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest) (*hproto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse, error) {
	req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: hrstOf(r.GetHrst()), SignBytes: r.GetSignBytes()}
	for _, p := range r.GetEncryptedSecrets() {
		req.EncryptedSecrets = append(req.EncryptedSecrets, signer.CosignerEphemeralSecretPart{SourceID: int(p.SourceID), DestinationID: int(p.DestinationID),
			SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
	}
	res, err := s.node.sign(req)
	if err != nil {
		return nil, err
	}
	return &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{EphemeralPublic: res.EphemeralPublic, Signature: res.Signature}, nil
}

// servePeer serves a ring member over the network from this process.
func servePeer(t *pbt.T, n *Node) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		pbt.Harness("listening: %v", err)
	}
	s := grpc.NewServer()
	hproto.RegisterCosignerGRPCServer(s, &peerServer{node: n})
	go func() { _ = s.Serve(l) }()
	t.Defer(func() {
		go func() { time.Sleep(time.Second); s.Stop() }()
		s.GracefulStop()
	})
	return "tcp://" + l.Addr().String()
}
