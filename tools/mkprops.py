import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="signer/"
C="cmd/horcrux/cmd/"
add("C01","A cosigner never signs conflicting or regressing messages",
 "For any sequence of sign requests to one cosigner, interleaved with last-signed-state updates announced by its cluster and restarts from its on-disk state, the cosigner never issues signature shares for two messages at the same height, round and step that differ in anything but their timestamp. It never issues a share for a height/round/step (ordered lexicographically) below the highest it has issued a share for or been told was signed. A refused request leaves the watermark and every later decision unchanged.",
 ["histories","inputs","crash_points"],"every history of nonce exchanges, sign requests (conflicting block IDs, nil votes, POL rounds, chain IDs, timestamps, all HRS orders), cluster last-signed-state updates and restarts, for every cosigner of every n/t",
 "Unit tests sign one or two fixed messages with a fixed 2-of-2 set; no test issues conflicting or regressing requests to a cosigner after restarts or cluster updates.",
 [S+"local_cosigner.go",S+"sign_state.go",S+"Serialization.go"],
 [("watermark check before signing",S+"local_cosigner.go: sign"),("monotonic save",S+"sign_state.go: Save / GetErrorIfLessOrEqual"),("same-HRS comparison",S+"sign_state.go: onlyDifferByTimestamp")],
 [("share watermark","last HRS and sign bytes this share signed",S+"sign_state.go: SignState")],["SetEphemeralSecretPartsAndSign response","share sign state file"])
add("C02","A cluster never produces two valid signatures for conflicting messages",
 "With a signing threshold above half of the key shares, no history of sign requests, leader changes, simultaneous leaders, peer failures, lost replies and cosigner restarts makes the cluster's members release two signatures that verify under the validator key for different messages at the same height, round and step (timestamp aside).",
 ["histories","fault_sequences","schedules","crash_points"],"all request histories over any number of leaders acting at once, any pattern of failing/slow/reloading peers, any n and any t > n/2",
 "The tests use one leader, no faults and sequential non-conflicting blocks; conflicting requests through different leaders are never exercised.",
 [S+"threshold_validator.go",S+"local_cosigner.go",S+"sign_state.go"],
 [("per-share watermark on t > n/2 shares",S+"local_cosigner.go: sign"),("initiated/last signed block tracking",S+"threshold_validator.go: SignBlock")],None,["signatures returned by SignVote/SignProposal"])
add("C03","Every successful sign response carries a valid signature for the request",
 "Whenever a vote or proposal sign request succeeds, the returned signature is non-empty and verifies under the validator public key over exactly the returned message for the configured chain ID. The single exception is a proposal at a height/round/step whose proposal was already signed: it is answered with the already issued signature. If the signature cannot be produced (too few shares, corrupted or inconsistent shares), the request fails with an error and no signature is released.",
 ["histories","inputs","fault_sequences"],"all request histories with duplicates, regressions, timestamp changes and faulty peers returning garbage, for all message contents",
 "Tests verify the signature on the happy path of two or three fixed blocks only; cached, re-signed and error paths are not checked.",
 [S+"threshold_validator.go",S+"local_cosigner.go"],
 [("verify before release",S+"threshold_validator.go: SignBlock pubkey.VerifySignature"),("existing signature lookup",S+"threshold_validator.go: getExistingBlockSignature")],None,["SignVote/SignProposal results"])
add("C04","Repeated sign requests are answered consistently with what was signed",
 "On the signing leader, the first message signed at each height/round/step since it started, repeated byte for byte while it is the latest or within the preceding three heights, returns the signature first issued for it; the same vote at the latest height/round/step with only a different timestamp is signed afresh and validly when first requested (a repeat of such a variant may be refused). A request at an already signed height/round/step with conflicting content is refused with an error or, for a proposal, answered with the signature already issued; any request below the highest signed one that was not itself signed is refused with an error. Refused and repeated requests never change how later requests are answered.",
 ["histories","inputs"],"all request histories on a leader, including heights at the cache boundary, restarts from the stored state and interleaved conflicting/older requests",
 "One test covers a handful of duplicate and conflicting requests at fixed heights; cache depth, ordering and state after re-signing are not explored.",
 [S+"threshold_validator.go",S+"sign_state.go"],
 [("signature cache by HRS",S+"sign_state.go: cache / blocksToCache"),("existing signature decision",S+"threshold_validator.go: getExistingBlockSignature"),("cosigner same-HRS answer",S+"local_cosigner.go: sign")],
 [("HRS cache","signatures of recent heights",S+"sign_state.go")],["SignVote/SignProposal results"])
add("C05","Signing state is durable on disk before a signature leaves",
 "At the moment a signature share or a full signature is released, the state file of the releasing signer already records that height/round/step (or a higher one) with its sign bytes. Under any sequence of saves, concurrent or not, the file is at every instant a complete, loadable state whose height/round/step never moves backwards and ends at the highest one saved. If the state cannot be written, no signature is released.",
 ["crash_points","schedules","histories"],"every point at which the process could be killed, every interleaving of savers, every file-system write failure of the state file",
 "Tests never read the file back at the moment a signature is returned, never kill the process and never make the write fail.",
 [S+"sign_state.go",S+"local_cosigner.go",S+"threshold_validator.go"],
 [("atomic write of state",S+"sign_state.go: save"),("save before return",S+"local_cosigner.go: sign; "+S+"threshold_validator.go: SignBlock")],
 [("state file","priv_validator / share sign state JSON",S+"sign_state.go")],["state file contents when a sign call returns"])
add("C06","Sign state files load back exactly what was saved",
 "Loading a saved sign state yields the same height, round, step, ephemeral public key, signature and sign bytes, and the reloaded state accepts and refuses exactly what the saved one did. Files in the documented minimal form (height, round and step only) load with those values; a missing, truncated or non-JSON file is reported as an error and never as an empty or partial state without a crash. Opening an existing valid file with create-if-missing keeps its contents; a missing one is created as a loadable zero state.",
 ["inputs","histories"],"all state values (full int64/int8 ranges, arbitrary byte strings) and all truncations/mutations of state files",
 "Tests only create fresh empty state files or copy one fixed state; no round trip over arbitrary values or damaged files.",
 [S+"sign_state.go"],[("load",S+"sign_state.go: LoadSignState"),("create if missing",S+"sign_state.go: LoadOrCreateSignState")],None,["returned sign state","state file"])
add("C07","A signing nonce is never used for two different messages",
 "No cosigner ever issues signature shares for two different sign-byte strings under the same combined nonce, whatever its peers send and in whatever order parts, repeats and sign requests arrive, nor uses its own nonce contribution in two different combinations or for two messages. Every nonce a cosigner signs with includes its own secret contribution, freshly random for each height/round/step/timestamp, so peers alone can neither choose nor predict it.",
 ["histories","inputs"],"all orders of nonce-part requests, part deliveries (with or without a preceding request, repeated, from any subset of peers) and sign requests including re-encodings of the same message",
 "Tests follow the one well-behaved protocol order; nonce reuse leaks the key share only under unusual orders and inputs.",
 [S+"local_cosigner.go"],[("nonce metadata per HRST",S+"local_cosigner.go: dealShares, getEphemeralSecretPart, setEphemeralSecretPart, sign")],
 [("nonce metadata","secret, dealt shares and received parts per height/round/step/timestamp",S+"local_cosigner.go: hrsMeta")],["EphemeralPublic and Signature of sign responses","nonce part messages"])
add("C08","Nonce shares are exchanged confidentially and authenticated",
 "Every nonce part a cosigner sends can be decrypted only with the destination cosigner's private key, is signed by the sender, and any threshold of the parts it dealt reconstruct exactly the secret behind the public nonce it announced while fewer do not. A sign request containing a part that was altered in any signed field, signed by the wrong key, from an unknown cosigner, unsigned, or encrypted for someone else is refused: no share is issued and the watermark does not move.",
 ["inputs","histories"],"all tamperings of every field of every part for every sender/receiver pair, n and t",
 "Tests exchange only untampered parts between two cosigners.",
 [S+"local_cosigner.go"],[("encrypt and sign part",S+"local_cosigner.go: getEphemeralSecretPart"),("verify and decrypt part",S+"local_cosigner.go: setEphemeralSecretPart")],None,["GetEphemeralSecretParts output","SetEphemeralSecretPartsAndSign result"])
add("C09","Key sharding yields exactly the requested t-of-n scheme",
 "Sharding a validator key into n shares with threshold t produces n distinct shares numbered 1..n carrying the validator's public key and matching RSA key pairs, such that every set of at least t shares can jointly produce a valid validator signature and no smaller set can. Parameters that do not describe a usable scheme (threshold not above half of the shares, below 1 or above the number of shares, or more shares than can be represented) are rejected with an error and produce no share.",
 ["inputs","configurations"],"all validator keys, all (t, n) including invalid and extreme values, all subsets of shares",
 "One test shards a fixed key 2-of-3 and only checks for errors.",
 [S+"cosigner_key_shares.go",C+"key2shares.go"],[("share dealing",S+"cosigner_key_shares.go: CreateCosignerShares"),("argument validation",C+"key2shares.go")],None,["private_share_*.json files","returned CosignerKey list"])
add("C10","Key share files round-trip and damaged ones are rejected",
 "Writing a key share to a file and loading it yields the same ID, secret share, public key, RSA private key and peer RSA public keys; files whose public key is in the pre-protobuf encoding load to the same public key. A damaged or malformed share file (truncated, not JSON, or with a missing, wrongly typed or wrongly sized field) is reported as an error and never crashes the program or yields a share without a usable key.",
 ["inputs"],"all key shares of any n, and all truncations and mutations of share files",
 "Two tests load a single fixture.",
 [S+"cosigner_key.go",S+"cosigner_key_shares.go"],[("JSON codec",S+"cosigner_key.go: MarshalJSON/UnmarshalJSON"),("file load",S+"cosigner_key.go: LoadCosignerKey")],None,["loaded key share"])
add("C11","Sign bytes are classified exactly and parsed without crashing",
 "For every canonical vote or proposal, the height, round, step and timestamp extracted from its sign bytes are exactly those of the message, for timestamps within the range of 64-bit nanoseconds; any byte string that does not decode as a vote or proposal yields an error rather than a crash. Two sign-byte strings at the same height/round/step are judged to differ only by timestamp precisely when all other fields (type, block ID, POL round, chain ID) are equal.",
 ["inputs"],"all votes and proposals over full field ranges, pairs of them, and arbitrary byte strings (mutated encodings included)",
 "One test unpacks a single proposal, prevote and precommit.",
 [S+"Serialization.go",S+"sign_state.go"],[("unpack",S+"Serialization.go: UnpackHRST"),("timestamp-only comparison",S+"sign_state.go: checkVoteOnlyDifferByTimestamp / checkProposalOnlyDifferByTimestamp")],None,["UnpackHRST result","OnlyDifferByTimestamp result"])
add("C12","Signing succeeds while a threshold of cosigners is healthy",
 "A leader whose own cosigner is healthy signs every new vote and proposal (above the highest signed height/round/step) whenever at least threshold cosigners in total answer promptly, no matter which of the others are unreachable, erroring or hanging throughout the request, or which order replies arrive in, and does not wait for those. When fewer answer, the request returns an error within bounded time instead of hanging, and signing resumes for later messages once enough cosigners are back.",
 ["fault_sequences","schedules","configurations"],"all n/t (including peers that are a subset of all shares), all subsets and modes of failed cosigners, all reply orders, over sequences of blocks",
 "Tests run with every cosigner healthy.",
 [S+"threshold_validator.go",S+"local_cosigner.go"],[("threshold wait",S+"threshold_validator.go: SignBlock, waitForPeerEphemeralShares"),("timeouts",S+"threshold_validator.go: waitUntilCompleteOrTimeout")],None,["SignVote/SignProposal result and latency"])
add("C13","The replicated store applies the log deterministically and monotonically",
 "After any sequence of replicated set and delete commands, snapshots and restarts, the store's readable content equals the result of applying the accepted commands in order, and malformed or unknown commands change nothing and do not crash the node. Well-formed last-signed-state events (sign bytes together with their signature) raise (and never lower) the watermark of both the validator and its local cosigner, are never kept as readable data, and still govern signing after replay of any prefix, duplicates or stale events.",
 ["histories","inputs","crash_points"],"all command sequences (arbitrary keys/values, raw malformed log entries, stale/duplicate last-signed-state events) with snapshots and restarts at any point",
 "One test sets one key on one node.",
 [S+"raft_store.go",S+"raft_events.go",S+"sign_state.go"],[("log application",S+"raft_store.go: Apply/applySet/applyDelete"),("snapshot and restore",S+"raft_store.go: Snapshot/Restore/Persist"),("LSS event",S+"raft_events.go: handleLSSEvent")],None,["Get results","sign state files","subsequent sign decisions"])
add("C14","Any node of a cluster serves sign requests through the current leader",
 "In a running cluster, a sign request sent to any node is answered with a signature valid for that request, repeated requests for the same message through other nodes return the same signature while the leader stays, and after a leader stops the remaining majority keeps signing new heights without ever signing a conflicting message. What a leader signs while it stays one reaches the stored state of every running member. A leadership transfer request for a given other member makes that member the leader, without an argument some other member, and a request naming the current leader or an unknown member leaves the leader in place.",
 ["histories","schedules","fault_sequences"],"all interleavings of sign requests over nodes, leadership transfers and node stops in real clusters",
 "Existing tests bring up at most one real node without peers over the network; proxying and leadership transfer are not exercised by the stable tests.",
 [S+"threshold_validator.go",S+"raft_store.go",S+"raft_events.go",S+"grpc_server.go",S+"remote_cosigner.go",C+"leader_election.go"],[("proxy to leader",S+"raft_events.go: LeaderSignBlock"),("leadership transfer",S+"grpc_server.go: TransferLeadership"),("elect command",C+"leader_election.go")],None,["SignVote/SignProposal results on each node","raft leader"])
add("C15","Each sentry request gets exactly one matching answer and cannot crash us",
 "Over a sentry connection every public-key, ping, vote and proposal request receives exactly one response of the matching kind, in order, carrying either the signer's result for that very request or an in-band error. Malformed, oversized, unknown or semantically invalid messages never terminate the process or disturb other sentries, and after any connection loss the signer reconnects and serves again.",
 ["inputs","histories","fault_sequences"],"all sequences of valid and invalid protocol messages, partial writes and disconnects on several simultaneous sentry connections",
 "No stable test speaks the sentry protocol.",
 [S+"remote_signer.go",S+"Serialization.go"],[("request dispatch",S+"remote_signer.go: handleRequest and handlers"),("reconnect loop",S+"remote_signer.go: loop"),("framing",S+"Serialization.go: ReadMsg/WriteMsg")],None,["messages on the sentry connection"])
add("C16","Configuration commands apply exactly the requested change or none",
 "Each configuration command (init, nodes add/remove, peers add/remove, set-shares) either fails and leaves the configuration file and state directory unchanged, or succeeds and the file then contains precisely the previous configuration with the requested change applied. No sequence of commands yields a configuration with duplicate peer IDs, peer IDs outside 1..shares, as many peers as shares, no remaining peer or chain node after a removal, or an unparsable node address; without a configuration every command fails with an error instead of crashing.",
 ["histories","inputs","configurations"],"all sequences of configuration commands with valid, duplicate, out-of-range and malformed arguments",
 "Tests run single commands on a few fixed argument lists and do not compare the file with the expected configuration over sequences.",
 [C+"config.go",C+"root.go"],[("init",C+"config.go: initCmd"),("peer and node edits",C+"config.go: addPeersCmd, removePeersCmd, addNodesCmd, removeNodesCmd, setSharesCmd"),("validation",C+"config.go: validateCosignerPeers, validateChainNodes")],None,["config.yaml","state directory","exit status"])
add("C17","State and chain-id commands never lose or lower a watermark",
 "Setting the height moves both sign states to that height when it is above both, and otherwise fails and leaves both files as they were; showing state prints exactly the stored values and changes nothing. Changing the chain ID carries the signing state to the new chain's files together with the configuration or fails leaving everything as it was, and never overwrites or discards a watermark stored for another chain; re-running init keeps existing valid signing state.",
 ["histories","inputs"],"all sequences of init, state set/show and chain-id commands over several chain IDs, stored states, single-signer and cosigner homes",
 "Tests set one larger height once and rename one chain with fresh empty states.",
 [C+"state.go",C+"config.go",S+"sign_state.go"],[("state set/show",C+"state.go"),("chain-id set",C+"config.go: setChainIDCmd"),("state creation on init",C+"config.go: initCmd")],None,["state files","config.yaml","command output and exit status"])
add("C18","Single-signer mode honours its watermark across restarts",
 "A single-signer process never signs two conflicting votes or proposals for the same height, round and step, nor anything below its last signed position, across any sequence of requests, kills and restarts with the same home directory. It starts from the state left by init, by state import in the documented format, or by its own previous run, and a restart preserves the ability to sign new heights.",
 ["histories","crash_points"],"all request histories with process kills at any point and restarts",
 "No stable test starts the signer process, let alone restarts it.",
 [C+"signer.go",S+"remote_signer.go",S+"PvGuard.go"],[("state loading at start",C+"signer.go: StartSignerCmd")],None,["sentry responses before and after restart"])
add("C19","Concurrent requests are handled without races, deadlock or mixed results",
 "Under any interleaving of concurrent sign requests from several sentries, peers' nonce and sign calls, cluster state updates and state reads, every request gets its own result, the safety rules hold as if requests were served one at a time, no call blocks forever, and no memory is accessed in a racy way. At most one signing call is in progress at a time behind the sentry connections of one process.",
 ["schedules","histories"],"all interleavings of concurrent callers of one cosigner, one validator, one guard and one sign state",
 "Tests issue requests from one goroutine and do not run generated schedules under the race detector.",
 [S+"local_cosigner.go",S+"threshold_validator.go",S+"sign_state.go",S+"PvGuard.go",S+"raft_store.go"],[("mutexes",S+"local_cosigner.go lastSignStateMutex; "+S+"threshold_validator.go mutexes; "+S+"PvGuard.go")],None,["results of concurrent calls","race detector reports"])
add("C20","A signer refuses to start with an unsafe or inconsistent configuration",
 "Starting a cosigner succeeds only when the threshold is above half of the key shares and not above the number of cosigners, every peer has a distinct ID different from its own and within the key shares, and the key share and its sign state can be loaded; otherwise it exits with an error before signing, listening for peers or creating a share state. Every configuration satisfying this starts, including when the configured cosigners are only some of the key shares. Likewise a single signer starts with every configuration that has a usable chain ID, at least one sentry address, a loadable validator key and a loadable state, in which case it serves every sentry; otherwise it exits with an error before contacting a sentry or changing a file.",
 ["configurations","inputs"],"all cosigner configurations over thresholds, share counts, peer ID sets, key files and state files",
 "No stable test starts a signer from a configuration file.",
 [C+"cosigner.go",C+"signer.go",C+"config.go"],[("start-up validation",C+"cosigner.go: StartCosignerCmd; "+C+"signer.go: StartSignerCmd; "+C+"config.go: validateCosignerConfig, validateSingleSignerConfig")],None,["exit status and output of cosigner start and signer start","listening port","sentry connections"])
add("C21","Remote cosigner calls behave exactly like local ones",
 "Calling a cosigner over the network returns the same nonce parts and signature shares as calling it directly: every height, round, step, timestamp, identifier and byte string arrives unchanged in both directions and the remote state evolves identically. Failures on the remote side or an unreachable peer surface as errors within the call's time limit, never as an empty success.",
 ["inputs","histories","fault_sequences"],"all values of all request/response fields (extreme integers, arbitrary bytes, all part counts) and remote failures",
 "No stable test makes a remote cosigner call.",
 [S+"remote_cosigner.go",S+"grpc_server.go",S+"Cosigner.go"],[("conversion to and from wire",S+"Cosigner.go: toProto/FromProto"),("server",S+"grpc_server.go"),("client",S+"remote_cosigner.go")],None,["RemoteCosigner results versus LocalCosigner results"])
add("C22","The address command reports the identity of the configured key",
 "For every key share and bech32 prefix, the address command prints the hex address, public key JSON, consensus address and consensus public key that decode back to exactly the validator public key in the configured key share file, under the requested prefix. It never alters any file, and fails with an error when the key file or configuration is missing or invalid.",
 ["inputs","configurations"],"all validator keys, prefixes and key file locations",
 "No stable test runs the command.",
 [C+"cosigner.go",S+"Config.go"],[("address output",C+"cosigner.go: AddressCmd"),("public key encodings",S+"Config.go: PubKey")],None,["command output"])
add("C23","Secret key material never leaves the key files",
 "The validator private key, secret key shares, RSA private keys and nonce secrets appear, whole or in part, in no command output, log line, error, sentry or peer message, state file, raft storage or any other file than the key files themselves; nonce shares travel only encrypted for their destination. This holds for successful and failing operations alike, including damaged key files and garbage from peers. Key share files created by sharding are accessible to their owner only.",
 ["histories","inputs","fault_sequences"],"all command lines, damaged key files and starts, and all sign histories with peer faults and garbage, for all keys",
 "Tests never look at output, logs, files or messages for secrets.",
 [C+"key2shares.go",C+"cosigner.go",C+"signer.go",S+"cosigner_key_shares.go",S+"cosigner_key.go",S+"local_cosigner.go",S+"threshold_validator.go",S+"sign_state.go"],[("share files",S+"cosigner_key_shares.go: WriteCosignerShareFile"),("encrypted nonce parts",S+"local_cosigner.go: getEphemeralSecretPart"),("persisted state",S+"sign_state.go: save")],None,["command output","logs","files below the home directory","messages"])
add("C24","Serving requests accumulates neither memory, goroutines nor connections",
 "However many requests a signer has served - signed, repeated, refused, failed for lack of peers, signed by other cosigners and only announced, or cut off by a disconnecting sentry - what it keeps stays bounded: once a later position has been signed or announced, nonce material and signatures of older heights are dropped from every cosigner's and validator's memory, also by cosigners that are never among the signers; every finished request or connection gives back its goroutines, network connections and files, also after timeouts and unreachable or silent peers.",
 ["histories","fault_sequences","schedules"],"all histories of requests, peer faults, announcements and sentry disconnects, of any length",
 "Tests make a handful of requests; growth shows only over long histories and in failure paths.",
 [S+"local_cosigner.go",S+"sign_state.go",S+"threshold_validator.go",S+"remote_cosigner.go",S+"raft_events.go",S+"remote_signer.go"],[("nonce metadata",S+"local_cosigner.go: hrsMeta"),("signature cache",S+"sign_state.go: Save"),("waiting for peers",S+"threshold_validator.go: SignBlock"),("connections",S+"remote_cosigner.go: getGRPCClient; "+S+"remote_signer.go: loop")],None,["size of what is reachable from cosigner and validator","goroutine count","open descriptors","files below the home directory"])
add("C25","A migrated validator keeps its identity and never signs below its old position",
 "After the documented migration (create-shares of the old validator key, config init on every member, its share file, the old position given to every member by truncated state files or state set, cosigner start), for every usable t of n, key, position, home and key file place, every member presents the old validator's public key and address to its sentries; the cluster signs everything above the old position whichever member is asked, valid under the old key, and nothing at or below it other than what the old validator signed there, also after restarts of all members, late members, elections and sentries added later.",
 ["inputs","histories","configurations"],"all keys, positions, thresholds, configurations and later histories of the documented procedure",
 "No stable test runs the procedure; unit tests look at single commands with fixed values.",
 ["docs/migrating.md",C+"key2shares.go",C+"config.go",C+"state.go",C+"cosigner.go",S+"sign_state.go",S+"raft_store.go"],[("sharding",C+"key2shares.go: CreateCosignerSharesCmd"),("configuration",C+"config.go: initCmd"),("assembly of a cosigner",C+"cosigner.go: StartCosignerCmd")],None,["command output","sentry responses"])
add("C26","Signers stop cleanly on a signal and resume where they were",
 "A serving single signer or cosigner that receives SIGTERM or SIGINT, once or repeatedly, idle, within a request, half a request or a disconnect, with its sentries or peers away, as leader or follower, ends by itself within seconds with status 0 and without crashing; its files are intact and not behind what it has answered; the same command starts it again, and it then refuses what conflicts with its earlier answers and signs what is above. Members that keep running keep serving.",
 ["schedules","crash_points","histories"],"all moments of a signal within all histories of requests, disconnects and peer failures",
 "No stable test starts and stops a signer process.",
 [S+"services.go",S+"remote_signer.go",S+"raft_store.go",C+"signer.go",C+"cosigner.go"],[("signal handling",S+"services.go: WaitAndTerminate"),("services",S+"remote_signer.go: ReconnRemoteSigner; "+S+"raft_store.go: RaftStore")],None,["exit status","output","state files","sentry responses after the restart"])
add("C27","Nothing sent to its peer port crashes, blocks or misleads a cosigner",
 "Whatever reaches the peer port of a cosigner, leading or not - its calls with missing, extreme, negative, oversized or garbage fields, genuine nonce parts reordered, duplicated, re-addressed or from other positions, correctly signed parts with garbage inside, damaged encodings, unknown methods, transfers to odd IDs, raw connections with garbage, held open or reset, alone or at once - the process keeps running and every call is answered within bounded time. A call that asks to sign something undecodable or below the watermark fails and leaves the state files as they were; honest calls made meanwhile or afterwards succeed, and the leader stays the leader.",
 ["inputs","schedules"],"all byte strings, field values and orders of calls at the peer port",
 "Tests only send well-formed calls of healthy peers.",
 [S+"grpc_server.go",S+"local_cosigner.go",S+"threshold_validator.go",S+"Cosigner.go"],[("network service",S+"grpc_server.go: GRPCServer"),("parts received",S+"local_cosigner.go: setEphemeralSecretPart"),("sign requests of peers",S+"threshold_validator.go: SignBlock")],None,["gRPC responses and their times","state files","process survival"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,sch)
print(len(P))
