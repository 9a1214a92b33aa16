package main

import (
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
)

var dummyPub = tmed.GenPrivKeyFromSecret([]byte("dummy")).PubKey()

type voteSigner interface {
	SignVote(chainID string, vote *tmproto.Vote) error
	SignProposal(chainID string, proposal *tmproto.Proposal) error
}

func signVote(v interface{}, chain string, vote *tmproto.Vote) error {
	s, ok := v.(voteSigner)
	if !ok {
		pbt.Harness("not a signer")
	}
	return s.SignVote(chain, vote)
}

func signProposal(v interface{}, chain string, p *tmproto.Proposal) error {
	s, ok := v.(voteSigner)
	if !ok {
		pbt.Harness("not a signer")
	}
	return s.SignProposal(chain, p)
}
