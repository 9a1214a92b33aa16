From 3368eb23ad18a0536199af62bb9bb2336fb927ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 01/26] fix: persist sign state before returning from Save

Save wrote the file from a new goroutine, so a signature could be released
(or the process exit) before the high watermark reached the disk, and two
writes could land out of order, leaving an older state in the file.
---
 signer/sign_state.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/signer/sign_state.go b/signer/sign_state.go
index 62a66ef..f64e87c 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -133,9 +133,9 @@ func (signState *SignState) Save(ssc SignStateConsensus, lock *sync.Mutex) error
 	signState.Step = ssc.Step
 	signState.Signature = ssc.Signature
 	signState.SignBytes = ssc.SignBytes
-	go func() {
-		signState.save()
-	}()
+
+	// The state must be on disk before the caller can release the signature.
+	signState.save()
 
 	return nil
 }
-- 
2.43.0


From e3351c88bf065261befd17f194c411da46751c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 02/26] fix: keep ephemeral public key and signature of a share
 consistent

Re-signing the same HRS with a different timestamp does not replace the saved
signature but did replace the saved ephemeral public key, so repeating the
first request returned a mismatched pair and the combined signature was
invalid.
---
 signer/local_cosigner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 4ca652e..20d203b 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -222,6 +222,8 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	sig := tsed25519.SignWithShare(
 		req.SignBytes, cosigner.key.ShareKey, ephemeralShare, cosigner.pubKeyBytes, ephemeralPublic)
 
+	// the ephemeral public key belongs to the signature saved with it
+	existingEphemeralPublic := cosigner.lastSignState.EphemeralPublic
 	cosigner.lastSignState.EphemeralPublic = ephemeralPublic
 	err = cosigner.lastSignState.Save(SignStateConsensus{
 		Height:    hrst.Height,
@@ -232,6 +234,8 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	}, nil)
 
 	if err != nil {
+		// not saved, the state still holds the existing signature
+		cosigner.lastSignState.EphemeralPublic = existingEphemeralPublic
 		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {
 			return res, err
 		}
-- 
2.43.0


From 808b699514fb029ee589bede0576248950148205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 03/26] fix: always include own nonce share when peers' parts
 arrive first

When parts were delivered for an HRST no nonce had been dealt for, the
metadata was dealt under a zero timestamp and never contained the cosigner's
own share, so the nonce it signed with was known to and chosen by its peers,
and could be shared between different timestamps.
---
 signer/local_cosigner.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 20d203b..8c79404 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -282,6 +282,10 @@ func (cosigner *LocalCosigner) dealShares(req CosignerGetEphemeralSecretPartRequ
 	// !! dealt shares need to be saved because dealing produces different shares each time!
 	meta.DealtShares = tsed25519.DealShares(meta.Secret, cosigner.threshold, cosigner.total)
 
+	// our own part is always included in the nonce we sign with
+	meta.Peers[cosigner.key.ID-1].Share = meta.DealtShares[cosigner.key.ID-1]
+	meta.Peers[cosigner.key.ID-1].EphemeralSecretPublicKey = tsed25519.ScalarMultiplyBase(meta.Secret)
+
 	cosigner.hrsMeta[hrsKey] = meta
 
 	return meta, nil
@@ -444,9 +448,10 @@ func (cosigner *LocalCosigner) setEphemeralSecretPart(req CosignerSetEphemeralSe
 	// generate metadata placeholder
 	if !ok {
 		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
-			Height: req.Height,
-			Round:  req.Round,
-			Step:   req.Step,
+			Height:    req.Height,
+			Round:     req.Round,
+			Step:      req.Step,
+			Timestamp: req.Timestamp,
 		})
 
 		if err != nil {
-- 
2.43.0


From 6254bdc06ffd4db4a7327829cbd63c6aaaad2082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 04/26] fix: never use an ephemeral secret for two different
 messages

Sign bytes that decode to the same HRST but are not byte-identical (trailing
or unknown bytes, timestamps that wrap in nanoseconds), or the same sign bytes
with additional nonce parts, were signed again with the same secret, which
reveals the key share.
---
 signer/local_cosigner.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 8c79404..a2ff86a 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -81,6 +81,10 @@ type HrsMetadata struct {
 	Secret      []byte
 	DealtShares []tsed25519.Scalar
 	Peers       []PeerMetadata
+
+	// what the nonce has been used for, set once it has signed
+	SignBytes       []byte
+	EphemeralPublic []byte
 }
 
 // LocalCosigner responds to sign requests using their share key
@@ -219,6 +223,16 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 		}
 	}
 
+	// A nonce must never be used for two different messages, or in two different combinations,
+	// since that would reveal our key share.
+	if meta.SignBytes != nil &&
+		(!bytes.Equal(meta.SignBytes, req.SignBytes) || !bytes.Equal(meta.EphemeralPublic, ephemeralPublic)) {
+		return res, errors.New("ephemeral secret was already used for signing at HRST")
+	}
+	meta.SignBytes = req.SignBytes
+	meta.EphemeralPublic = ephemeralPublic
+	cosigner.hrsMeta[hrst] = meta
+
 	sig := tsed25519.SignWithShare(
 		req.SignBytes, cosigner.key.ShareKey, ephemeralShare, cosigner.pubKeyBytes, ephemeralPublic)
 
-- 
2.43.0


From 3f7bd4f7ace8238ec6296491950091ea0c538930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 05/26] fix: do not report success without a signature for an
 older block

A vote for an already passed HRS that differs from the signed one only by
timestamp was answered without an error and without a signature.
---
 signer/threshold_validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 203a6d6..0bee2ba 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -329,7 +329,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 			for i := 0; i < 100; i++ {
 				existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
 				if sameBlockErr == nil {
-					if existingSignature == nil {
+					if len(existingSignature) == 0 {
 						signAgain = true
 						break
 					}
@@ -349,7 +349,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 			}
 		default:
 			existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
-			if sameBlockErr == nil {
+			if sameBlockErr == nil && len(existingSignature) != 0 {
 				return existingSignature, stamp, nil
 			}
 			return nil, existingTimestamp, pv.newBeyondBlockError(HRSKey{
-- 
2.43.0


From 0b2ac9830409782eb3aa0ac2e7b0f9744986eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 06/26] fix: read the initiated sign state under its lock

newBeyondBlockError read it while other requests could be saving it.
---
 signer/threshold_validator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 0bee2ba..1f0cec7 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -149,6 +149,8 @@ type BeyondBlockError struct {
 func (e *BeyondBlockError) Error() string { return e.msg }
 
 func (pv *ThresholdValidator) newBeyondBlockError(hrs HRSKey) *BeyondBlockError {
+	pv.lastSignStateInitiatedMutex.Lock()
+	defer pv.lastSignStateInitiatedMutex.Unlock()
 	return &BeyondBlockError{
 		msg: fmt.Sprintf("Progress already started on block %d.%d.%d, skipping %d.%d.%d",
 			pv.lastSignStateInitiated.Height, pv.lastSignStateInitiated.Round, pv.lastSignStateInitiated.Step,
-- 
2.43.0


From e617cafecb307d5b949bbe32814dd428fea4e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 07/26] fix: lock the key-value store while restoring a
 snapshot

Get can run concurrently with a snapshot installed by the leader.
---
 signer/raft_store.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/signer/raft_store.go b/signer/raft_store.go
index 727cb28..fb1013e 100644
--- a/signer/raft_store.go
+++ b/signer/raft_store.go
@@ -329,8 +329,10 @@ func (f *fsm) Restore(rc io.ReadCloser) error {
 		return err
 	}
 
-	// Set the state from the snapshot, no lock required according to
-	// Hashicorp docs.
+	// Raft does not call Restore concurrently with any other command, but readers
+	// of the store are not raft commands.
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	f.m = o
 	return nil
 }
-- 
2.43.0


From 399e4aa1f1428108dc7b309f9b092bb4a7f7b95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 08/26] fix: finish raft store setup before serving requests

The raft instance was created in the background while sentry requests already
read it, and the validator was attached after the server that uses it had been
started, so a proxied request could reach a server without a validator.
---
 cmd/horcrux/cmd/cosigner.go | 11 ++++++-----
 signer/raft_store.go        | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index f11572c..0a6964b 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -217,13 +217,8 @@ func StartCosignerCmd() *cobra.Command {
 			// RAFT node ID is the cosigner ID
 			nodeID := fmt.Sprint(key.ID)
 
-			// Start RAFT store listener
 			raftStore := signer.NewRaftStore(nodeID,
 				raftDir, cfg.ListenAddress, timeout, logger, localCosigner, cosigners)
-			if err := raftStore.Start(); err != nil {
-				log.Fatalf("Error starting raft store: %v\n", err)
-			}
-			services = append(services, raftStore)
 
 			val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{
 				Pubkey:    key.PubKey,
@@ -237,6 +232,12 @@ func StartCosignerCmd() *cobra.Command {
 
 			raftStore.SetThresholdValidator(val.(*signer.ThresholdValidator))
 
+			// Start RAFT store listener. The store serves peers' requests with the validator, so it needs it first
+			if err := raftStore.Start(); err != nil {
+				log.Fatalf("Error starting raft store: %v\n", err)
+			}
+			services = append(services, raftStore)
+
 			pv = &signer.PvGuard{PrivValidator: val}
 
 			pubkey, err := pv.GetPubKey()
diff --git a/signer/raft_store.go b/signer/raft_store.go
index fb1013e..dc78826 100644
--- a/signer/raft_store.go
+++ b/signer/raft_store.go
@@ -84,19 +84,19 @@ func (s *RaftStore) SetThresholdValidator(thresholdValidator *ThresholdValidator
 	s.thresholdValidator = thresholdValidator
 }
 
-func (s *RaftStore) init() error {
+func (s *RaftStore) init() (*grpc.Server, net.Listener, error) {
 	host := p2pURLToRaftAddress(s.RaftBind)
 	_, port, err := net.SplitHostPort(host)
 	if err != nil {
-		return fmt.Errorf("failed to parse local address: %s, %v", host, err)
+		return nil, nil, fmt.Errorf("failed to parse local address: %s, %v", host, err)
 	}
 	sock, err := net.Listen("tcp", fmt.Sprintf(":%s", port))
 	if err != nil {
-		return err
+		return nil, nil, err
 	}
 	transportManager, err := s.Open()
 	if err != nil {
-		return err
+		return nil, nil, err
 	}
 	grpcServer := grpc.NewServer()
 	proto.RegisterCosignerGRPCServer(grpcServer, &GRPCServer{
@@ -108,17 +108,17 @@ func (s *RaftStore) init() error {
 	leaderhealth.Setup(s.raft, grpcServer, []string{"Leader"})
 	raftadmin.Register(grpcServer, s.raft)
 	reflection.Register(grpcServer)
-	if err := grpcServer.Serve(sock); err != nil {
-		return err
-	}
-	return nil
+	return grpcServer, sock, nil
 }
 
 // OnStart starts the raft server
 func (s *RaftStore) OnStart() error {
+	grpcServer, sock, err := s.init()
+	if err != nil {
+		return err
+	}
 	go func() {
-		err := s.init()
-		if err != nil {
+		if err := grpcServer.Serve(sock); err != nil {
 			panic(err)
 		}
 	}()
-- 
2.43.0


From 9d0e85382c5308d18283470e8ccc8df4e140d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 09/26] fix: only transfer raft leadership to the requested
 member

Asking for the current leader or for an unknown ID moved the leadership to an
arbitrary other member.
---
 signer/cosigner_grpc_server.go | 6 ++++++
 signer/grpc_server.go          | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/signer/cosigner_grpc_server.go b/signer/cosigner_grpc_server.go
index 8cd5c11..647417c 100644
--- a/signer/cosigner_grpc_server.go
+++ b/signer/cosigner_grpc_server.go
@@ -72,6 +72,11 @@ func (rpc *CosignerGRPCServer) TransferLeadership(
 ) (*proto.CosignerGRPCTransferLeadershipResponse, error) {
 	leaderID := req.GetLeaderID()
 	if leaderID != "" {
+		if leaderID == rpc.raftStore.NodeID {
+			// we are asked as the leader, nothing to transfer
+			leaderAddress := string(rpc.raftStore.GetLeader())
+			return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: leaderID, LeaderAddress: leaderAddress}, nil
+		}
 		for _, peer := range rpc.raftStore.Peers {
 			thisPeerID := fmt.Sprint(peer.GetID())
 			if thisPeerID == leaderID {
@@ -81,6 +86,7 @@ func (rpc *CosignerGRPCServer) TransferLeadership(
 				return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: thisPeerID, LeaderAddress: peerRaftAddress}, nil
 			}
 		}
+		return nil, fmt.Errorf("no cosigner with ID: %s", leaderID)
 	}
 	fmt.Printf("Transferring leadership to next candidate\n")
 	rpc.raftStore.raft.LeadershipTransfer()
diff --git a/signer/grpc_server.go b/signer/grpc_server.go
index e524a84..bdbd066 100644
--- a/signer/grpc_server.go
+++ b/signer/grpc_server.go
@@ -72,6 +72,11 @@ func (rpc *GRPCServer) TransferLeadership(
 ) (*proto.CosignerGRPCTransferLeadershipResponse, error) {
 	leaderID := req.GetLeaderID()
 	if leaderID != "" {
+		if leaderID == rpc.raftStore.NodeID {
+			// we are asked as the leader, nothing to transfer
+			leaderAddress := string(rpc.raftStore.GetLeader())
+			return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: leaderID, LeaderAddress: leaderAddress}, nil
+		}
 		for _, peer := range rpc.raftStore.Peers {
 			thisPeerID := fmt.Sprint(peer.GetID())
 			if thisPeerID == leaderID {
@@ -81,6 +86,7 @@ func (rpc *GRPCServer) TransferLeadership(
 				return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: thisPeerID, LeaderAddress: peerRaftAddress}, nil
 			}
 		}
+		return nil, fmt.Errorf("no cosigner with ID: %s", leaderID)
 	}
 	fmt.Printf("Transferring leadership to next candidate\n")
 	rpc.raftStore.raft.LeadershipTransfer()
-- 
2.43.0


From 0cd80a2eb05c502fd9ce3be9901a040e6a766dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 10/26] fix: support cosigner IDs above the number of
 configured cosigners

With peers removed from the configuration the remaining share IDs can exceed
the number of cosigners, which panicked with an index out of range.
---
 cmd/horcrux/cmd/cosigner.go   | 3 ++-
 signer/threshold_validator.go | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index 0a6964b..7696322 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -194,7 +194,8 @@ func StartCosignerCmd() *cobra.Command {
 				})
 			}
 
-			total := len(cfg.Cosigners) + 1
+			// number of key shares, the configured cosigners can be a subset of them
+			total := len(key.CosignerKeys)
 			localCosignerConfig := signer.LocalCosignerConfig{
 				CosignerKey: key,
 				SignState:   &shareSignState,
diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 1f0cec7..594b14c 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -362,8 +362,13 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 		}
 	}
 
-	numPeers := len(pv.peers)
-	total := uint8(numPeers + 1)
+	// The cosigners can be a subset of the key shares, so IDs can exceed the number of cosigners
+	total := uint8(pv.cosigner.GetID())
+	for _, peer := range pv.peers {
+		if id := uint8(peer.GetID()); id > total {
+			total = id
+		}
+	}
 	getEphemeralWaitGroup := sync.WaitGroup{}
 
 	// Only wait until we have threshold sigs
-- 
2.43.0


From 82eff47551459c41c266ad438e1ddbb0d6adddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 11/26] fix: refuse to start a cosigner with an unsafe
 configuration

A threshold of half of the shares or less allows two sets of cosigners to sign
conflicting blocks. A missing threshold, a peer with our own ID or a key share
with an ID beyond the known keys led to panics while signing.
---
 cmd/horcrux/cmd/cosigner.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index 7696322..73aa168 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -103,6 +103,27 @@ func AddressCmd() *cobra.Command {
 	return cmd
 }
 
+// validateCosignerKey checks that it is safe to sign with the key share under the given configuration.
+func validateCosignerKey(key signer.CosignerKey, cfg *CosignerConfig) error {
+	shares := len(key.CosignerKeys)
+	if key.ID < 1 || key.ID > shares {
+		return fmt.Errorf("ID %d of the key share is out of range, must be between 1 and %d", key.ID, shares)
+	}
+	// two disjoint sets of cosigners must not be able to sign on their own
+	if cfg.Threshold*2 <= shares {
+		return fmt.Errorf("threshold (%d) must be greater than half of the number of key shares (%d)", cfg.Threshold, shares)
+	}
+	for _, peer := range cfg.Peers {
+		if peer.ShareID == key.ID {
+			return fmt.Errorf("peer ID %d is the ID of our own key share", peer.ShareID)
+		}
+		if peer.ShareID < 1 || peer.ShareID > shares {
+			return fmt.Errorf("peer ID %d is out of range, must be between 1 and %d", peer.ShareID, shares)
+		}
+	}
+	return nil
+}
+
 func StartCosignerCmd() *cobra.Command {
 	cmd := &cobra.Command{
 		Use:   "start",
@@ -155,6 +176,10 @@ func StartCosignerCmd() *cobra.Command {
 				return fmt.Errorf("error reading cosigner key: %s", err)
 			}
 
+			if err = validateCosignerKey(key, config.CosignerConfig); err != nil {
+				return err
+			}
+
 			// ok to auto initialize on disk since the cosigner share is the one that actually
 			// protects against double sign - this exists as a cache for the final signature
 			stateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_priv_validator_state.json", chainID))
-- 
2.43.0


From 00af0293dda99aefdc0fea0c3cf8e0f56fcb5bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 12/26] fix: do not crash or misclassify on unknown sign bytes

Sign bytes with an unknown vote type panicked. A message is only a proposal
if its type says so, not because its fields happen to parse as one.
---
 signer/Serialization.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/signer/Serialization.go b/signer/Serialization.go
index 7cb039f..0b0bbf1 100644
--- a/signer/Serialization.go
+++ b/signer/Serialization.go
@@ -7,6 +7,7 @@ import (
 	"github.com/tendermint/tendermint/libs/protoio"
 	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
 	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
+	tm "github.com/tendermint/tendermint/types"
 )
 
 // ReadMsg reads a message from an io.Reader
@@ -28,14 +29,14 @@ func WriteMsg(writer io.Writer, msg tmProtoPrivval.Message) (err error) {
 func UnpackHRST(signBytes []byte) (HRSTKey, error) {
 	{
 		var proposal tmProto.CanonicalProposal
-		if err := protoio.UnmarshalDelimited(signBytes, &proposal); err == nil {
+		if err := protoio.UnmarshalDelimited(signBytes, &proposal); err == nil && proposal.Type == tmProto.ProposalType {
 			return HRSTKey{proposal.Height, proposal.Round, stepPropose, proposal.Timestamp.UnixNano()}, nil
 		}
 	}
 
 	{
 		var vote tmProto.CanonicalVote
-		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil {
+		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil && tm.IsVoteTypeValid(vote.Type) {
 			return HRSTKey{vote.Height, vote.Round, CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil
 		}
 	}
-- 
2.43.0


From b5eb5563876f5c3ed7cd5a237cc97fa4b3635e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 13/26] fix: answer invalid sentry sign requests with an error

A sign request without a vote or proposal, with an unknown vote type or with
an invalid block ID crashed the whole signer process.
---
 signer/remote_signer.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/signer/remote_signer.go b/signer/remote_signer.go
index 46555ab..61f9c35 100644
--- a/signer/remote_signer.go
+++ b/signer/remote_signer.go
@@ -1,6 +1,7 @@
 package signer
 
 import (
+	"errors"
 	"fmt"
 	"net"
 	"time"
@@ -138,11 +139,37 @@ func (rs *ReconnRemoteSigner) handleRequest(req tmProtoPrivval.Message) tmProtoP
 	}
 }
 
+// validateVote checks what is required to assemble the sign bytes of a vote
+func validateVote(vote *tmProto.Vote) error {
+	if vote == nil {
+		return errors.New("no vote in sign vote request")
+	}
+	if !tm.IsVoteTypeValid(vote.Type) {
+		return fmt.Errorf("unknown vote type: %d", vote.Type)
+	}
+	_, err := tm.BlockIDFromProto(&vote.BlockID)
+	return err
+}
+
+// validateProposal checks what is required to assemble the sign bytes of a proposal
+func validateProposal(proposal *tmProto.Proposal) error {
+	if proposal == nil {
+		return errors.New("no proposal in sign proposal request")
+	}
+	_, err := tm.BlockIDFromProto(&proposal.BlockID)
+	return err
+}
+
 func (rs *ReconnRemoteSigner) handleSignVoteRequest(vote *tmProto.Vote) tmProtoPrivval.Message {
 	msgSum := &tmProtoPrivval.Message_SignedVoteResponse{SignedVoteResponse: &tmProtoPrivval.SignedVoteResponse{
 		Vote:  tmProto.Vote{},
 		Error: nil,
 	}}
+	if err := validateVote(vote); err != nil {
+		rs.Logger.Error("Invalid sign vote request", "address", rs.address, "error", err)
+		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
@@ -165,6 +192,11 @@ func (rs *ReconnRemoteSigner) handleSignProposalRequest(proposal *tmProto.Propos
 			Proposal: tmProto.Proposal{},
 			Error:    nil,
 		}}
+	if err := validateProposal(proposal); err != nil {
+		rs.Logger.Error("Invalid sign proposal request", "address", rs.address, "error", err)
+		msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignProposal(rs.chainID, proposal); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
-- 
2.43.0


From cc398561688a86945948a355d44d018a36a11940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 14/26] fix: reject an invalid chain node address at any
 position

Only the error of the last address of the list was returned.
---
 cmd/horcrux/cmd/config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 052a7ce..1eec3c7 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -628,7 +628,9 @@ func parseChainNodes(nodes string) (out []ChainNode) {
 
 func validateChainNodes(nodes []ChainNode) (err error) {
 	for _, n := range nodes {
-		_, err = url.Parse(n.PrivValAddr)
+		if _, err = url.Parse(n.PrivValAddr); err != nil {
+			return err
+		}
 	}
-	return
+	return nil
 }
-- 
2.43.0


From 4f7a5749ef4732edb13cc3820eeb46ca260e3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 15/26] fix: report a missing configuration instead of crashing

Commands that need a configuration dereferenced nil without a configuration
file, and the peers commands without a cosigner configuration.
---
 cmd/horcrux/cmd/config.go | 47 +++++++++++++++++++++++++++++++++++++++
 cmd/horcrux/cmd/state.go  |  8 +++++++
 2 files changed, 55 insertions(+)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 1eec3c7..b325439 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -181,7 +181,27 @@ func writeConfigFile(path string, cfg *Config) error {
 	return ioutil.WriteFile(path, cfg.MustMarshalYaml(), 0644) //nolint
 }
 
+func validateConfigExists(cfg *Config) error {
+	if cfg == nil {
+		return errors.New("no configuration file exists")
+	}
+	return nil
+}
+
+func validateCosignerConfigExists(cfg *Config) error {
+	if err := validateConfigExists(cfg); err != nil {
+		return err
+	}
+	if cfg.CosignerConfig == nil {
+		return errors.New("cosigner configuration is not present in config file")
+	}
+	return nil
+}
+
 func validateSingleSignerConfig(cfg *Config) error {
+	if err := validateConfigExists(cfg); err != nil {
+		return err
+	}
 	if cfg.ChainID == "" {
 		return fmt.Errorf("chain-id cannot be empty")
 	}
@@ -195,6 +215,9 @@ func validateSingleSignerConfig(cfg *Config) error {
 }
 
 func validateCosignerConfig(cfg *Config) error {
+	if err := validateConfigExists(cfg); err != nil {
+		return err
+	}
 	if cfg.ChainID == "" {
 		return fmt.Errorf("chain-id cannot be empty")
 	}
@@ -245,6 +268,10 @@ func addNodesCmd() *cobra.Command {
 				home = path.Join(home, ".horcrux")
 			}
 
+			if err = validateConfigExists(config); err != nil {
+				return err
+			}
+
 			argNodes, err := chainNodesFromArg(args[0])
 			if err != nil {
 				return err
@@ -285,6 +312,10 @@ func removeNodesCmd() *cobra.Command {
 				home = path.Join(home, ".horcrux")
 			}
 
+			if err = validateConfigExists(config); err != nil {
+				return err
+			}
+
 			argNodes, err := chainNodesFromArg(args[0])
 			if err != nil {
 				return err
@@ -348,6 +379,10 @@ func addPeersCmd() *cobra.Command {
 				home = path.Join(home, ".horcrux")
 			}
 
+			if err = validateCosignerConfigExists(config); err != nil {
+				return err
+			}
+
 			argPeers, err := peersFromFlag(args[0])
 			if err != nil {
 				return err
@@ -388,6 +423,10 @@ func removePeersCmd() *cobra.Command {
 				home = path.Join(home, ".horcrux")
 			}
 
+			if err = validateCosignerConfigExists(config); err != nil {
+				return err
+			}
+
 			var argPeers []CosignerPeer
 			for _, peer := range config.CosignerConfig.Peers {
 				for _, id := range strings.Split(args[0], ",") {
@@ -438,6 +477,10 @@ func setSharesCmd() *cobra.Command {
 				home = path.Join(home, ".horcrux")
 			}
 
+			if err := validateCosignerConfigExists(config); err != nil {
+				return err
+			}
+
 			numShares, err := strconv.Atoi(args[0])
 			if err != nil {
 				return err
@@ -495,6 +538,10 @@ func setChainIDCmd() *cobra.Command {
 				home = path.Join(home, ".horcrux")
 			}
 
+			if err = validateConfigExists(config); err != nil {
+				return err
+			}
+
 			stateDir := path.Join(home, "state")
 			pvOldPath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
 			pvNewPath := path.Join(stateDir, args[0]+"_priv_validator_state.json")
diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index d2ebbca..c1042c5 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -33,6 +33,10 @@ func showStateCmd() *cobra.Command {
 		Short:   "Show the priv validator and share sign state",
 		Args:    cobra.ExactArgs(0),
 		RunE: func(cmd *cobra.Command, args []string) error {
+			if err := validateConfigExists(config); err != nil {
+				return err
+			}
+
 			var stateDir string // In root.go we end up with our
 			if homeDir != "" {
 				stateDir = path.Join(homeDir, "state")
@@ -78,6 +82,10 @@ func setStateCmd() *cobra.Command {
 				return errors.New("cannot modify state while horcrux is running")
 			}
 
+			if err := validateConfigExists(config); err != nil {
+				return err
+			}
+
 			var stateDir string // In root.go we end up with our
 			if homeDir != "" {
 				stateDir = path.Join(homeDir, "state")
-- 
2.43.0


From f01ed9b3f7fbad549cf28d9d4d717d31fa928eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 16/26] fix: let the state commands work on the home directory
 given by --home

They refused any home directory that exists.
---
 cmd/horcrux/cmd/state.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index c1042c5..49b70e4 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -4,7 +4,6 @@ import (
 	"encoding/base64"
 	"errors"
 	"fmt"
-	"os"
 	"os/exec"
 	"path"
 	"strconv"
@@ -44,10 +43,6 @@ func showStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
-			}
-
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
 			pv, err := signer.LoadSignState(filepath)
 			if err != nil {
@@ -93,10 +88,6 @@ func setStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
-			}
-
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
 			pv, err := signer.LoadSignState(filepath)
 			if err != nil {
-- 
2.43.0


From af2d16d6bef9160d5be3603cb5844fc81f4f4a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 17/26] fix: fail when the sign state cannot be set to the
 requested height

Setting a height that is not above the stored states was reported as success,
and could change only one of the two states.
---
 cmd/horcrux/cmd/state.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index 49b70e4..cd19c8f 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -105,6 +105,14 @@ func setStateCmd() *cobra.Command {
 				return err
 			}
 
+			// either both states are set or none
+			if err = pv.GetErrorIfLessOrEqual(height, 0, 0, nil); err != nil {
+				return fmt.Errorf("cannot set priv validator state: %v", err)
+			}
+			if err = share.GetErrorIfLessOrEqual(height, 0, 0, nil); err != nil {
+				return fmt.Errorf("cannot set share sign state: %v", err)
+			}
+
 			pv.EphemeralPublic, share.EphemeralPublic = nil, nil
 			signState := signer.SignStateConsensus{
 				Height:    height,
@@ -113,9 +121,10 @@ func setStateCmd() *cobra.Command {
 				Signature: nil,
 				SignBytes: nil,
 			}
-			_ = pv.Save(signState, nil)
-			_ = share.Save(signState, nil)
-			return nil
+			if err = share.Save(signState, nil); err != nil {
+				return err
+			}
+			return pv.Save(signState, nil)
 		},
 	}
 }
-- 
2.43.0


From 7a591648344afa95648138909de9caf092ca9369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 18/26] fix: do not lose sign states when changing the chain ID

For a single signer the command renamed one state file and then failed on the
missing share state, and it overwrote the sign state of a chain that had been
configured before.
---
 cmd/horcrux/cmd/config.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index b325439..f29222c 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -548,11 +548,30 @@ func setChainIDCmd() *cobra.Command {
 			shareOldPath := path.Join(stateDir, config.ChainID+"_share_sign_state.json")
 			shareNewPath := path.Join(stateDir, args[0]+"_share_sign_state.json")
 
-			if err = os.Rename(pvOldPath, pvNewPath); err != nil {
-				return err
+			if args[0] == "" {
+				return errors.New("chain-id cannot be empty")
 			}
-			if err = os.Rename(shareOldPath, shareNewPath); err != nil {
-				return err
+			if args[0] == config.ChainID {
+				return nil
+			}
+
+			renames := [][2]string{{pvOldPath, pvNewPath}}
+			if config.CosignerConfig != nil {
+				renames = append(renames, [2]string{shareOldPath, shareNewPath})
+			}
+			// check before renaming anything, and never overwrite the sign state of another chain
+			for _, r := range renames {
+				if _, err = os.Stat(r[0]); err != nil {
+					return err
+				}
+				if _, err = os.Lstat(r[1]); !os.IsNotExist(err) {
+					return fmt.Errorf("sign state for chain %s already exists: %s", args[0], r[1])
+				}
+			}
+			for _, r := range renames {
+				if err = os.Rename(r[0], r[1]); err != nil {
+					return err
+				}
 			}
 
 			config.ChainID = args[0]
-- 
2.43.0


From a6ba8fca65c5c299c777849ba90daa0b5753f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 19/26] fix: load the sign state when the single signer starts

The single signer started with an empty sign state, so after a restart it
would sign conflicting and older blocks.
---
 cmd/horcrux/cmd/signer.go | 48 +++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/cmd/horcrux/cmd/signer.go b/cmd/horcrux/cmd/signer.go
index 58819e7..fd7e7b3 100644
--- a/cmd/horcrux/cmd/signer.go
+++ b/cmd/horcrux/cmd/signer.go
@@ -2,12 +2,14 @@ package cmd
 
 import (
 	"fmt"
+	"io/ioutil"
 	"log"
 	"os"
 	"path"
 
 	"github.com/spf13/cobra"
 	"github.com/strangelove-ventures/horcrux/signer"
+	tmjson "github.com/tendermint/tendermint/libs/json"
 	tmlog "github.com/tendermint/tendermint/libs/log"
 	tmService "github.com/tendermint/tendermint/libs/service"
 	"github.com/tendermint/tendermint/privval"
@@ -24,6 +26,41 @@ var signerCmd = &cobra.Command{
 	Short: "Remote tx signer for TM based nodes.",
 }
 
+// loadFilePV loads the priv validator with its last sign state, which protects against double signing.
+// The state file is in horcrux's format if it was initialized or imported, and in tendermint's once we have signed.
+func loadFilePV(keyFile, stateFile string) (*privval.FilePV, error) {
+	pv := privval.LoadFilePVEmptyState(keyFile, stateFile)
+
+	stateJSONBytes, err := ioutil.ReadFile(stateFile)
+	if os.IsNotExist(err) {
+		return pv, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+
+	lastSignState := privval.FilePVLastSignState{}
+	if err := tmjson.Unmarshal(stateJSONBytes, &lastSignState); err == nil {
+		pv.LastSignState.Height = lastSignState.Height
+		pv.LastSignState.Round = lastSignState.Round
+		pv.LastSignState.Step = lastSignState.Step
+		pv.LastSignState.Signature = lastSignState.Signature
+		pv.LastSignState.SignBytes = lastSignState.SignBytes
+		return pv, nil
+	}
+
+	signState, err := signer.LoadSignState(stateFile)
+	if err != nil {
+		return nil, err
+	}
+	pv.LastSignState.Height = signState.Height
+	pv.LastSignState.Round = int32(signState.Round)
+	pv.LastSignState.Step = signState.Step
+	pv.LastSignState.Signature = signState.Signature
+	pv.LastSignState.SignBytes = signState.SignBytes
+	return pv, nil
+}
+
 func StartSignerCmd() *cobra.Command {
 	cmd := &cobra.Command{
 		Use:   "start",
@@ -69,13 +106,10 @@ func StartSignerCmd() *cobra.Command {
 			var val types.PrivValidator
 			stateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_priv_validator_state.json", chainID))
 
-			// Triple check that this is how we will handle state file and that this behaves as intended
-			// if f, err := os.Stat(stateFile); os.IsNotExist(err) || f.Size() == 0 {
-			//  	val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
-			// 	} else {
-			//  	val = privval.LoadFilePV(cfg.PrivValKeyFile, stateFile)
-			//  }
-			val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
+			val, err = loadFilePV(cfg.PrivValKeyFile, stateFile)
+			if err != nil {
+				return fmt.Errorf("error reading sign state: %s", err)
+			}
 
 			pv = &signer.PvGuard{PrivValidator: val}
 
-- 
2.43.0


From ac5befcd66bb21aa39ba569f2bbf9919cd2ad342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 20/26] fix: reject key sharding parameters that do not give a
 usable scheme

Thresholds and share counts were silently truncated to 8 bits, a threshold of
zero panicked, and thresholds that allow double signing, exceed the number of
shares or shares that cannot be combined were accepted.
---
 signer/cosigner_key_shares.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index 7d51ab3..7dc737e 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -4,8 +4,13 @@ import (
 	"crypto/rand"
 	"crypto/rsa"
 	"encoding/json"
+	"errors"
+	"fmt"
 	"io/ioutil"
+	"math"
+	"math/big"
 
+	tmEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
 	tmjson "github.com/tendermint/tendermint/libs/json"
 	"github.com/tendermint/tendermint/privval"
 	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
@@ -22,6 +27,9 @@ func CreateCosignerSharesFromFile(priv string, threshold, shares int64) ([]Cosig
 
 // CreateCosignerShares creates cosigner key objects from a privval.FilePVKey
 func CreateCosignerShares(pv privval.FilePVKey, threshold, shares int64) (out []CosignerKey, err error) {
+	if err := validateShares(pv, threshold, shares); err != nil {
+		return nil, err
+	}
 	privshares := tsed25519.DealShares(tsed25519.ExpandSecret(pv.PrivKey.Bytes()[:32]), uint8(threshold), uint8(shares))
 	rsaKeys, pubKeys, err := makeRSAKeys(len(privshares))
 	if err != nil {
@@ -39,6 +47,30 @@ func CreateCosignerShares(pv privval.FilePVKey, threshold, shares int64) (out []
 	return
 }
 
+// validateShares checks that the key can be split into shares that can sign together
+func validateShares(pv privval.FilePVKey, threshold, shares int64) error {
+	if _, ok := pv.PrivKey.(tmEd25519.PrivKey); !ok {
+		return errors.New("not an ed25519 private key")
+	}
+	if shares < 1 || shares > math.MaxUint8 {
+		return fmt.Errorf("number of shares (%d) must be between 1 and %d", shares, math.MaxUint8)
+	}
+	if threshold > shares {
+		return fmt.Errorf("threshold (%d) must not be greater than the number of shares (%d)", threshold, shares)
+	}
+	if threshold*2 <= shares {
+		return fmt.Errorf("threshold (%d) must be greater than half of the number of shares (%d)", threshold, shares)
+	}
+	// The coefficients for combining shares are calculated with 64 bit integers,
+	// the largest one is for the threshold highest IDs
+	max := new(big.Int).MulRange(1, shares)
+	max.Mul(max, new(big.Int).MulRange(shares-threshold+2, shares))
+	if !max.IsInt64() {
+		return fmt.Errorf("signatures of %d out of %d shares cannot be combined", threshold, shares)
+	}
+	return nil
+}
+
 // ReadPrivValidatorFile reads in a privval.FilePVKey from a given file
 func ReadPrivValidatorFile(priv string) (out privval.FilePVKey, err error) {
 	var bz []byte
-- 
2.43.0


From 888597b6153abd4b17a5f8e50a99fd306b3d6b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 21/26] fix: reject malformed validator keys when sharding

---
 signer/cosigner_key_shares.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index 7dc737e..bc30d8f 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -1,6 +1,7 @@
 package signer
 
 import (
+	"bytes"
 	"crypto/rand"
 	"crypto/rsa"
 	"encoding/json"
@@ -49,9 +50,13 @@ func CreateCosignerShares(pv privval.FilePVKey, threshold, shares int64) (out []
 
 // validateShares checks that the key can be split into shares that can sign together
 func validateShares(pv privval.FilePVKey, threshold, shares int64) error {
-	if _, ok := pv.PrivKey.(tmEd25519.PrivKey); !ok {
+	privKey, ok := pv.PrivKey.(tmEd25519.PrivKey)
+	if !ok || len(privKey) != tmEd25519.PrivateKeySize {
 		return errors.New("not an ed25519 private key")
 	}
+	if pv.PubKey == nil || !bytes.Equal(pv.PubKey.Bytes(), privKey[32:]) {
+		return errors.New("public key does not match the private key")
+	}
 	if shares < 1 || shares > math.MaxUint8 {
 		return fmt.Errorf("number of shares (%d) must be between 1 and %d", shares, math.MaxUint8)
 	}
-- 
2.43.0


From 757ef52ef1c5a23925cffeee7f78ce706e396760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 22/26] fix: reject key share files without a usable key

---
 signer/cosigner_key.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/signer/cosigner_key.go b/signer/cosigner_key.go
index d6b3bd1..65bc0ef 100644
--- a/signer/cosigner_key.go
+++ b/signer/cosigner_key.go
@@ -4,6 +4,8 @@ import (
 	"crypto/rsa"
 	"crypto/x509"
 	"encoding/json"
+	"errors"
+	"fmt"
 	"io/ioutil"
 
 	amino "github.com/tendermint/go-amino"
@@ -13,6 +15,9 @@ import (
 	tmProtoCrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"
 )
 
+// secretShareSize is the size of an ed25519 secret share in bytes.
+const secretShareSize = 32
+
 // CosignerKey is a single key for an m-of-n threshold signer.
 type CosignerKey struct {
 	PubKey       tmCrypto.PubKey  `json:"pub_key"`
@@ -67,7 +72,7 @@ func (cosignerKey *CosignerKey) UnmarshalJSON(data []byte) error {
 	}{
 		Alias: (*Alias)(cosignerKey),
 	}
-	if err := json.Unmarshal(data, &aux); err != nil {
+	if err := json.Unmarshal(data, aux); err != nil {
 		return err
 	}
 	privateKey, err := x509.ParsePKCS1PrivateKey(aux.RSAKey)
@@ -112,6 +117,16 @@ func (cosignerKey *CosignerKey) UnmarshalJSON(data []byte) error {
 		cosignerKey.CosignerKeys = append(cosignerKey.CosignerKeys, cosignerRsaPubkey)
 	}
 
+	if _, ok := pubkey.(tmEd25519.PubKey); !ok || len(pubkey.Bytes()) != tmEd25519.PubKeySize {
+		return errors.New("pub_key is not an ed25519 public key")
+	}
+	if len(cosignerKey.ShareKey) != secretShareSize {
+		return fmt.Errorf("secret_share has %d bytes instead of %d", len(cosignerKey.ShareKey), secretShareSize)
+	}
+	if cosignerKey.ID < 1 || cosignerKey.ID > len(cosignerKey.CosignerKeys) {
+		return fmt.Errorf("id %d does not match the %d rsa_pubs", cosignerKey.ID, len(cosignerKey.CosignerKeys))
+	}
+
 	cosignerKey.RSAKey = *privateKey
 	cosignerKey.PubKey = pubkey
 	return nil
-- 
2.43.0


From 9caf88690d91dfc24a0c7a7daffdbc84d72d0675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 23/26] fix: reject a chain ID that cannot name the sign state
 files

---
 cmd/horcrux/cmd/config.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index f29222c..c735369 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -15,6 +15,7 @@ import (
 	"github.com/mitchellh/go-homedir"
 	"github.com/spf13/cobra"
 	"github.com/strangelove-ventures/horcrux/signer"
+	"github.com/tendermint/tendermint/types"
 	"gopkg.in/yaml.v2"
 )
 
@@ -198,12 +199,26 @@ func validateCosignerConfigExists(cfg *Config) error {
 	return nil
 }
 
+// validateChainID checks that the chain ID can be used to name the sign state files.
+func validateChainID(chainID string) error {
+	if chainID == "" {
+		return errors.New("chain-id cannot be empty")
+	}
+	if strings.ContainsRune(chainID, '/') {
+		return fmt.Errorf("chain-id cannot contain a path separator: %s", chainID)
+	}
+	if len(chainID) > types.MaxChainIDLen {
+		return fmt.Errorf("chain-id is too long (max: %d): %s", types.MaxChainIDLen, chainID)
+	}
+	return nil
+}
+
 func validateSingleSignerConfig(cfg *Config) error {
 	if err := validateConfigExists(cfg); err != nil {
 		return err
 	}
-	if cfg.ChainID == "" {
-		return fmt.Errorf("chain-id cannot be empty")
+	if err := validateChainID(cfg.ChainID); err != nil {
+		return err
 	}
 	if len(cfg.ChainNodes) == 0 {
 		return fmt.Errorf("need to have a node configured to sign for")
@@ -218,8 +233,8 @@ func validateCosignerConfig(cfg *Config) error {
 	if err := validateConfigExists(cfg); err != nil {
 		return err
 	}
-	if cfg.ChainID == "" {
-		return fmt.Errorf("chain-id cannot be empty")
+	if err := validateChainID(cfg.ChainID); err != nil {
+		return err
 	}
 	if cfg.CosignerConfig == nil {
 		return fmt.Errorf("cosigner config can't be empty")
@@ -548,8 +563,8 @@ func setChainIDCmd() *cobra.Command {
 			shareOldPath := path.Join(stateDir, config.ChainID+"_share_sign_state.json")
 			shareNewPath := path.Join(stateDir, args[0]+"_share_sign_state.json")
 
-			if args[0] == "" {
-				return errors.New("chain-id cannot be empty")
+			if err = validateChainID(args[0]); err != nil {
+				return err
 			}
 			if args[0] == config.ChainID {
 				return nil
-- 
2.43.0


From 2c15000f13250f87dda5641aaf786b1405410473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 24/26] fix: write key shares readable by their owner only

---
 signer/cosigner_key_shares.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index bc30d8f..8e293c6 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -94,7 +94,7 @@ func WriteCosignerShareFile(cosigner CosignerKey, file string) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(file, jsonBytes, 0644) //nolint
+	return ioutil.WriteFile(file, jsonBytes, 0600)
 }
 
 func makeRSAKeys(num int) (rsaKeys []*rsa.PrivateKey, pubKeys []*rsa.PublicKey, err error) {
-- 
2.43.0


From d54f815309b69d68d74647816970dc456cb18185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 25/26] fix: drop nonce metadata of positions that other
 cosigners signed

---
 signer/local_cosigner.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index a2ff86a..f84c51f 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -113,7 +113,28 @@ type LocalCosigner struct {
 }
 
 func (cosigner *LocalCosigner) SaveLastSignedState(signState SignStateConsensus) error {
-	return cosigner.lastSignState.Save(signState, &cosigner.lastSignStateMutex)
+	cosigner.lastSignStateMutex.Lock()
+	defer cosigner.lastSignStateMutex.Unlock()
+
+	if err := cosigner.lastSignState.Save(signState, nil); err != nil {
+		return err
+	}
+	cosigner.deleteMetadataBelow(HRSTKey{
+		Height: signState.Height,
+		Round:  signState.Round,
+		Step:   signState.Step,
+	})
+	return nil
+}
+
+// deleteMetadataBelow deletes the metadata of any HRS lower than the given one.
+// We will not be providing parts for any lower HRS, no matter if it was us who signed.
+func (cosigner *LocalCosigner) deleteMetadataBelow(hrst HRSTKey) {
+	for existingKey := range cosigner.hrsMeta {
+		if existingKey.Less(hrst) {
+			delete(cosigner.hrsMeta, existingKey)
+		}
+	}
 }
 
 func NewLocalCosigner(cfg LocalCosignerConfig) *LocalCosigner {
@@ -255,13 +276,7 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 		}
 	}
 
-	for existingKey := range cosigner.hrsMeta {
-		// delete any HRS lower than our signed level
-		// we will not be providing parts for any lower HRS
-		if existingKey.Less(hrst) {
-			delete(cosigner.hrsMeta, existingKey)
-		}
-	}
+	cosigner.deleteMetadataBelow(hrst)
 
 	res.EphemeralPublic = ephemeralPublic
 	res.Signature = sig
-- 
2.43.0


From f146f057c2febd7bad67176af70132f0d589c5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 26/26] fix: do not leave a goroutine behind when too few peers
 answer

---
 signer/threshold_validator.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 594b14c..8768c8f 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -174,7 +174,7 @@ func newStillWaitingForBlockError(hrs HRSKey) *StillWaitingForBlockError {
 func (pv *ThresholdValidator) waitForPeerEphemeralShares(
 	peer Cosigner,
 	hrst HRSTKey,
-	wg *sync.WaitGroup,
+	thresholdReached chan struct{},
 	encryptedEphemeralSharesThresholdMap *map[Cosigner][]CosignerEphemeralSecretPart,
 	thresholdPeersMutex *sync.Mutex,
 ) {
@@ -183,11 +183,13 @@ func (pv *ThresholdValidator) waitForPeerEphemeralShares(
 		pv.logger.Error("Error getting secret parts", "peer", peer.GetID(), "err", err)
 		return
 	}
-	// Check so that getEphemeralWaitGroup.Done is not called more than (threshold - 1) times which causes hardlock
+	// Only the first (threshold - 1) peers are used
 	thresholdPeersMutex.Lock()
 	if len(*encryptedEphemeralSharesThresholdMap) < pv.threshold-1 {
 		(*encryptedEphemeralSharesThresholdMap)[peer] = ephemeralSecretParts.EncryptedSecrets
-		defer wg.Done()
+		if len(*encryptedEphemeralSharesThresholdMap) == pv.threshold-1 {
+			close(thresholdReached)
+		}
 	}
 	thresholdPeersMutex.Unlock()
 }
@@ -369,11 +371,12 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 			total = id
 		}
 	}
-	getEphemeralWaitGroup := sync.WaitGroup{}
-
-	// Only wait until we have threshold sigs
-	getEphemeralWaitGroup.Add(pv.threshold - 1)
-	// Used to track how close we are to threshold
+	// Closed as soon as we have the parts of enough peers. Not a wait group, since nothing must be
+	// left waiting for it if that does not happen.
+	thresholdReached := make(chan struct{})
+	if pv.threshold <= 1 {
+		close(thresholdReached)
+	}
 
 	ourID := pv.cosigner.GetID()
 
@@ -381,7 +384,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 	thresholdPeersMutex := sync.Mutex{}
 
 	for _, peer := range pv.peers {
-		go pv.waitForPeerEphemeralShares(peer, hrst, &getEphemeralWaitGroup,
+		go pv.waitForPeerEphemeralShares(peer, hrst, thresholdReached,
 			&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
 	}
 
@@ -393,7 +396,9 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 
 	// Wait for threshold cosigners to be complete
 	// A Cosigner will either respond in time, or be cancelled with timeout
-	if waitUntilCompleteOrTimeout(&getEphemeralWaitGroup, 4*time.Second) {
+	select {
+	case <-thresholdReached:
+	case <-time.After(4 * time.Second):
 		return nil, stamp, errors.New("timed out waiting for ephemeral shares")
 	}
 
-- 
2.43.0

