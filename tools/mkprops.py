#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept here so that the statements are reviewable in one place).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=observe or [], hook_needed=None)))

MT="merkletree/"
p("C01","Every lookup in a tree snapshot yields a proof that verifies",
  "For every set of stored bindings and every looked-up index, the tree returns an authentication path that verifies against the tree's root hash: a proof of inclusion carrying the most recently stored value and a valid commitment opening if the index is stored, and otherwise a proof of absence. A proof of absence never carries the value or the commitment opening of the other binding it exposes.",
  ["inputs","histories"],"all sequences of insertions/updates and all lookup indices",
  "Unit tests use three fixed keys at depth <= 3; prefix collisions, leaf push-down at every depth, updates of pushed-down leaves and lookups ending at each kind of node are quantified over indices.",
  [MT+"merkletree.go",MT+"node.go",MT+"proof.go"],
  [("MerkleTree.Get",MT+"merkletree.go"),("MerkleTree.Set/insertNode",MT+"merkletree.go"),("AuthenticationPath.Verify",MT+"proof.go")],
  [("root/leftHash/rightHash","cached subtree hashes, nil when stale",MT+"node.go")],["MerkleTree.Get","AuthenticationPath.Verify"])
p("C02","A root hash admits one answer per index and name",
  "No two authentication paths that verify against the same root hash for the same looked-up index and name can disagree: not inclusion and absence, and not inclusion of two different values (up to hash collisions). Verification rejects every path whose leaf, index prefix, value, commitment or sibling hashes do not reproduce the root.",
  ["inputs"],"all pairs of authentication paths an adversarial directory could send, all field contents",
  "Tests tamper with a handful of fields of one honest proof; equivocation is a statement about all forged pairs.",
  [MT+"proof.go",MT+"node.go","crypto/util.go"],
  [("AuthenticationPath.Verify/ProofType/authPathHash",MT+"proof.go"),("leaf/empty/interior domain-separated hashing",MT+"node.go")],None,["AuthenticationPath.Verify"])
p("C03","The root hash is a canonical commitment to the tree's content",
  "The root hash depends only on the tree nonce and on the current binding commitment at each index, not on the order or history of insertions, and recomputing it without changes leaves it unchanged. Trees whose contents differ at any index (or that have different nonces) have different root hashes, up to hash collisions.",
  ["inputs","histories"],"all insertion orders and contents within bounds",
  "Tests compare a few fixed trees; a stale cached subtree hash or a wrong level/prefix in a node hash shows only for particular index relations and insertion orders.",
  [MT+"merkletree.go",MT+"node.go"],
  [("node.hash and cached leftHash/rightHash invalidation",MT+"node.go"),("insertNode",MT+"merkletree.go")],
  [("leftHash/rightHash","nil = stale; must be reset along the whole insertion path",MT+"node.go")],["root hash in the STR"])
p("C04","Published snapshots never change",
  "Once an epoch is published, no later registration, update or lookup alters it: its signed tree root, the tree behind it and every answer and proof it gives for that epoch stay byte-for-byte the same. A clone and its original evolve independently.",
  ["histories","inputs"],"all sequences of operations after publication",
  "Aliasing between the working tree and a published snapshot only shows when a later operation hits the shared part.",
  [MT+"merkletree.go",MT+"node.go",MT+"pad.go"],
  [("MerkleTree.Clone / node.clone",MT+"merkletree.go"),("PAD.signTreeRoot clones before signing",MT+"pad.go")],None,["PAD.LookupInEpoch","PAD.GetSTR"])
p("C05","Every update appends one signed, hash-chained tree root",
  "Epochs start at 0 and every update publishes exactly one new signed tree root whose epoch is the previous one plus 1, whose previous-epoch and previous-hash fields link to the STR it extends, whose root hash is that of the working tree at that moment and whose signature verifies under the directory's key. Associated data handed to an update takes effect in the epoch after the one that update publishes, and every other epoch carries the data in force.",
  ["histories","inputs"],"all sequences of Set/Update within bounds, all associated data values",
  "Tests check a few epochs with one AD change.",
  [MT+"pad.go",MT+"str.go","protocol/directory/directory.go"],
  [("PAD.Update/updateInternal/signTreeRoot",MT+"pad.go"),("NewSTR",MT+"str.go")],
  [("latestSTR","most recent STR",MT+"pad.go"),("ad","associated data for the next STR",MT+"pad.go")],["PAD.LatestSTR","PAD.GetSTR"])
p("C06","The signed encoding of a tree root covers every field",
  "Two signed tree roots of the same field sizes that differ in epoch, previous epoch (for epochs after 0), root hash, previous-STR hash, protocol version, hash id, VRF key or epoch deadline have different signed encodings; likewise two promises that differ in the tree root they refer to, the index or the value. The encoding is a function of the content only, and signer and verifier compute the same bytes.",
  ["inputs"],"all field contents at given sizes",
  "Tests sign and verify one fixed STR; a field dropped from or truncated in the encoding verifies just as well.",
  [MT+"str.go","protocol/str.go","protocol/policy.go","protocol/tb.go","utils/coname.go"],
  [("SerializeInternal",MT+"str.go"),("Policies.Serialize","protocol/policy.go"),("TemporaryBinding.Serialize","protocol/tb.go")],None,["Serialize"])
p("C07","Hash-chain verification accepts exactly the direct successor",
  "Chain verification between a saved and a new signed tree root succeeds if and only if the new root's epoch is the saved epoch plus one, its previous-epoch field equals the saved epoch, and its previous-STR hash is the hash of the saved root's signature.",
  ["inputs"],"all pairs of STRs",
  "Tests use an honest chain plus one or two edits.",
  [MT+"str.go","protocol/str.go"],[("VerifyHashChain",MT+"str.go")],None,["VerifyHashChain"])
p("C08","The snapshot cache keeps the most recent epochs, bounded and without gaps",
  "After any number of updates the directory retains the latest epoch and a contiguous run of the most recent ones, never more than the configured capacity (at least two), evicting the oldest half only when full. A request for a retained epoch is answered from exactly that epoch, a request for an evicted one reports 'not found', and a request beyond the latest is answered with the latest.",
  ["histories","configurations"],"all cache capacities and update counts within bounds, all requested epochs",
  "Tests use one capacity and check a few epochs.",
  [MT+"pad.go"],[("PAD.Update eviction",MT+"pad.go"),("PAD.GetSTR / LookupInEpoch",MT+"pad.go")],
  [("snapshots/loadedEpochs","cached epochs",MT+"pad.go")],["PAD.GetSTR","PAD.LookupInEpoch"])
p("C09","A commitment opens to exactly one value",
  "A freshly made commitment verifies for the data it was made for, and no commitment value can be opened to two different name/value pairs of the same name, or with a different salt, up to hash collisions. Verification recomputes the whole commitment and rejects any differing salt, name or value.",
  ["inputs"],"all salts, names, values and commitment values",
  "One positive and one negative example are tested.",
  ["crypto/util.go"],[("NewCommit / Commit.Verify","crypto/util.go")],None,["Commit.Verify"])
p("C10","Randomness is hashed, fresh, and its failure is never ignored",
  "Random material put on the wire (tree nonces, commitment salts, the first previous-STR hash) is the hash of full-length fresh system randomness, and never the raw randomness; each use draws fresh randomness. If the randomness source fails, no object built from it is produced: the failure is returned as an error (or stops the directory) and the tree is left unchanged.",
  ["fault_sequences","inputs"],"all random bytes and all points at which the source fails",
  "Tests only see one working source (one test replaces it once).",
  ["crypto/util.go",MT+"merkletree.go",MT+"pad.go"],[("MakeRand","crypto/util.go"),("NewCommit error path","crypto/util.go"),("Set error path",MT+"merkletree.go")],None,["MakeRand","Set"])
p("C11","Honest VRF proofs verify and match the VRF value",
  "For every private key and message the proof produced by the VRF verifies under the corresponding public key together with the index it was produced with, that index equals the directly computed VRF value, and both are deterministic functions of key and message.",
  ["inputs"],"all keys and messages (message length bounded)",
  "Tests run a few random keys/messages.",
  ["crypto/vrf/vrf.go"],[("Prove/Compute/Verify","crypto/vrf/vrf.go")],None,["PublicKey.Verify"])
p("C12","VRF verification accepts only the unique index of a message",
  "VRF verification accepts only proofs of the exact size whose index is the hash of the proof's group element and the message, whose public key and group element decode to valid points, and whose challenge is the hash of the base, H1(m), key, element and both recomputed commitments together with the message; anything else is rejected without crashing, whatever the lengths of key, index and proof.",
  ["inputs"],"all byte strings for key, message, index and proof",
  "Tests flip a few bits of one honest proof.",
  ["crypto/vrf/vrf.go"],[("PublicKey.Verify","crypto/vrf/vrf.go")],None,["PublicKey.Verify"])
p("C13","Scalar and field arithmetic of the curve code is exact",
  "Scalar reduction, multiply-add and negation agree with integer arithmetic modulo the group order for every input, and field addition, subtraction, negation, multiplication, squaring and encoding/decoding agree with arithmetic modulo 2^255-19 for every input in their documented ranges, without overflow; results are within their documented ranges, scalars and encodings are canonical. Selection, sign and zero tests agree with their plain meaning.",
  ["inputs"],"all 32/64-byte scalars and all limb vectors in range",
  "Carry-chain errors occur for a vanishing fraction of inputs; tests sample a few.",
  ["crypto/internal/ed25519/edwards25519/edwards25519.go"],
  [("ScReduce/ScMulAdd/ScNeg/FeMul/FeSquare/FeToBytes/FeFromBytes","crypto/internal/ed25519/edwards25519/edwards25519.go")],None,["Sc*","Fe*"])
p("C14","Bit, byte and integer conversions are exact and consistent",
  "Converting bytes to bits and back returns the same bytes, the n-th bit read from bytes is the n-th converted bit (most significant first), a bit list that is not a multiple of 8 is padded with zeros, and integer encodings are 4- or 8-byte little-endian and invertible for every value, including negatives.",
  ["inputs"],"all byte strings/bit lists up to the index size, all integers",
  "Tests use one 16-bit list and the value 42.",
  ["utils/coname.go","utils/utils.go"],[("ToBits/ToBytes/GetNthBit","utils/"),("LongToBytes/ULongToBytes/UInt32ToBytes","utils/utils.go")],None,["return values"])
p("C15","Prefix ranges contain exactly the keys with the prefix",
  "For every prefix, the key range derived from it contains a key if and only if the key starts with the prefix (no upper limit when the prefix is all 0xff), and computing it leaves the prefix unmodified.",
  ["inputs"],"all prefixes and keys up to a length bound",
  "There are no tests for it.",
  ["storage/kv/range.go"],[("IncrementKey/BytesPrefix","storage/kv/range.go")],None,["BytesPrefix"])
p("C16","Key-value writes are synchronous and passed through unchanged",
  "Every put, delete and batch write of the key-value adapter reaches the underlying store exactly once with the caller's key and value and is requested to be synced to disk before it returns; the store's error and values are returned unchanged, and a batch of a foreign type is rejected without a write.",
  ["inputs","fault_sequences"],"all keys, values, store results",
  "There are no tests for it; durability only shows on a crash.",
  ["storage/kv/leveldbkv/leveldbkv.go"],[("Sync:true write options","storage/kv/leveldbkv/leveldbkv.go")],None,["leveldb calls"])
p("C17","Registration is first-come, recorded once, and never overwrites",
  "A registration of a non-empty unused name with a non-empty key succeeds, returns a proof of absence against the latest tree root plus a promise for exactly that name and key, and makes the binding appear in the next epoch. A name that is already in the latest snapshot or was registered earlier in this epoch is refused with the existing proof or promise and its binding stays unchanged; a malformed request is refused and changes nothing.",
  ["histories","inputs"],"all request sequences within bounds, all names and keys",
  "Tests exercise fixed names in a fixed order.",
  ["protocol/directory/directory.go",MT+"pad.go"],[("ConiksDirectory.Register","protocol/directory/directory.go")],
  [("tbs","promises issued this epoch","protocol/directory/directory.go")],["Register response","later lookups"])
p("C18","Key lookups answer truthfully for the latest epoch",
  "A key lookup returns success with an inclusion proof of the registered key if the name is in the latest snapshot, success with an absence proof and the outstanding promise if it was registered in the current epoch, and 'not found' with an absence proof otherwise; an empty name is a malformed message. The proof is for the requested name and verifies against the returned latest tree root.",
  ["histories","inputs"],"all directory histories within bounds and all names",
  "Tests look up fixed names.",
  ["protocol/directory/directory.go"],[("ConiksDirectory.KeyLookup","protocol/directory/directory.go")],None,["KeyLookup response"])
p("C19","Historical lookups and monitoring cover exactly the requested epochs",
  "A lookup in a past epoch returns the proof for that epoch together with every tree root from that epoch to the latest in order; a monitoring request returns one proof and one tree root per epoch from the start to the smaller of the end and the latest epoch, each proof verifying against its own tree root. Requests with an empty name, a start beyond the latest epoch or an inverted range are malformed, and epochs no longer retained are a directory error.",
  ["histories","inputs"],"all epoch ranges, histories and cache states within bounds",
  "Tests check the malformed cases and a single range.",
  ["protocol/directory/directory.go"],[("KeyLookupInEpoch/Monitor","protocol/directory/directory.go")],None,["responses"])
p("C20","STR history requests return exactly the requested range or an error",
  "An STR history request returns the tree roots of every epoch from start to the smaller of end and latest, in order and unmodified. A start beyond the latest epoch or an inverted range is malformed and a range that is no longer fully retained is a directory error; no request crashes the directory.",
  ["histories","inputs"],"all ranges and cache states within bounds",
  "Tests cover two malformed requests and one range.",
  ["protocol/directory/directory.go"],[("GetSTRHistory","protocol/directory/directory.go")],None,["GetSTRHistory"])
p("C21","Promises are signed for the current epoch and kept in the next",
  "Every promise the directory returns is signed over the latest tree root's signature, the name's private index and the registered key and verifies under the directory's key. The next published epoch contains exactly the promised binding at the promised index, and the directory no longer serves the promise from then on.",
  ["histories","inputs"],"all names, keys and histories within bounds",
  "Tests check one promise.",
  ["protocol/directory/directory.go","protocol/tb.go"],[("NewTB / Update clears tbs","protocol/directory/directory.go")],None,["TB in responses","next epoch"])
p("C22","An auditor accepts only a signed linear extension of what it verified",
  "Auditing a range of tree roots succeeds if and only if the first equals the verified one for the same epoch or directly extends it, and each following one is correctly signed and hash-chained to its predecessor with consecutive epochs. A failed or successful check by itself never changes the verified state, and an empty or null range is malformed.",
  ["inputs","histories"],"all sequences of adversarial STRs up to the bound",
  "Tests use honest histories with a few edits.",
  ["protocol/auditor/auditor.go"],[("AuditDirectory/CheckSTRAgainstVerified/VerifySTRRange","protocol/auditor/auditor.go")],
  [("verifiedSTR","latest verified STR","protocol/auditor/auditor.go")],["AuditDirectory error"])
p("C23","The audit log stores only audited roots and serves exactly them",
  "For each directory (identified by its initial tree root) the log records an audited range only if it passed the audit, and then its verified root is the last of the range; a failed audit changes nothing, and a directory cannot be initialised twice or without an epoch-0 root. A query returns exactly the stored roots of the requested epochs of the requested directory in order, and unknown directories, inverted ranges and ranges beyond the verified epoch are refused.",
  ["histories","inputs"],"all message sequences and query ranges within bounds",
  "Tests use a fixed honest history.",
  ["protocol/auditlog/auditlog.go","protocol/auditor/common.go"],[("Audit/InitHistory/GetObservedSTRs","protocol/auditlog/auditlog.go")],
  [("snapshots","observed STRs by epoch","protocol/auditlog/auditlog.go")],["GetObservedSTRs"])
p("C24","A client accepts only proven answers",
  "Whatever the directory sends, a client accepts a registration or lookup answer only if the tree root equals or directly extends its pinned one with a valid signature, the index is proven for the asked name under the VRF key of that root, the authentication path verifies against that root for the expected key, and the reported result matches the kind of proof; a promise is accepted only if signed for that root, that index and the expected key. Otherwise it returns an error that names the failed check.",
  ["inputs"],"all adversarial responses within size bounds, for both request types",
  "Tests for this package are empty; adversarial messages are unbounded in variety.",
  ["protocol/client/consistencychecks.go"],[("HandleResponse and its checks","protocol/client/consistencychecks.go")],None,["HandleResponse error"])
p("C25","Clients hold the directory to its promises",
  "A client that accepted a promise for a name reports a broken promise if a later answer for that name in a later epoch shows it absent, or bound to another index or key, and within the same epoch never replaces the promise by a different one; a fulfilled promise is cleared. An absence proof for a registered name without a valid promise is refused.",
  ["histories","inputs"],"all sequences of (promise, later answer)",
  "No client tests exist.",
  ["protocol/client/consistencychecks.go"],[("updateTBs/verifyFulfilledPromise/verifyReturnedPromise","protocol/client/consistencychecks.go")],
  [("TBs","accepted, unfulfilled promises","protocol/client/consistencychecks.go")],["HandleResponse error","TBs"])
p("C26","Client state only moves forward on verified answers",
  "The client's pinned tree root changes only to a correctly signed direct successor, never backwards or sideways, and never on an answer whose tree root was rejected. After an accepted answer the binding recorded for the name is the key that the proof or promise established, other names' bindings and promises are untouched, and a rejected answer changes no binding or promise.",
  ["histories","inputs"],"all adversarial responses, two consecutive answers",
  "No client tests exist.",
  ["protocol/client/consistencychecks.go","protocol/message.go"],[("updateSTR / HandleResponse / GetKey","protocol/client/consistencychecks.go")],
  [("Bindings","verified name-to-key bindings","protocol/client/consistencychecks.go")],["VerifiedSTR","Bindings","TBs"])
p("C27","Equivocation checks succeed only on agreement with the pinned root",
  "The equivocation check passes only if the auditor's range is a correctly signed and hash-chained sequence whose last tree root equals the client's pinned one or directly and validly extends it, and it never changes the client's state. Error answers and empty or foreign answers are reported as errors.",
  ["inputs"],"all auditor responses within bounds",
  "No client tests exist.",
  ["protocol/client/consistencychecks.go"],[("CheckEquivocation","protocol/client/consistencychecks.go")],None,["CheckEquivocation error"])
p("C28","Honest directories, auditors and clients always agree",
  "Every answer of a correctly working directory is accepted by a client that follows it epoch by epoch, with the key that was registered; an auditor and an audit log that follow the directory accept every tree root it publishes, and the client's equivocation check against that log succeeds.",
  ["histories","inputs"],"all request sequences within bounds, all names and keys",
  "End-to-end tests in the repository are empty files.",
  ["protocol/directory/directory.go","protocol/client/consistencychecks.go","protocol/auditlog/auditlog.go"],[("directory -> client/auditlog composition","protocol/")],None,["HandleResponse","Audit","CheckEquivocation"])
p("C29","Hostile answers are rejected, never crash a client or auditor",
  "No message a directory or auditor can send, once decoded, makes a client or an auditor crash: missing, null, truncated, oversized or inconsistent parts of proofs, tree roots and promises all end in an error result.",
  ["inputs"],"all decodable responses within structural bounds, including absent parts",
  "Tests use well-formed messages with a few edits; absent parts and out-of-range levels are not covered.",
  ["protocol/client/consistencychecks.go","protocol/auditor/auditor.go","protocol/auditlog/auditlog.go",MT+"proof.go","protocol/message.go"],
  [("Response.Validate","protocol/message.go"),("AuthenticationPath.Verify",MT+"proof.go")],None,["absence of panics"])
p("C30","Wire messages decode to what was sent, by type",
  "A request or response encoded by one side decodes on the other side to the same type and the same content, for every request and response type, including tree roots whose signature must still verify. Input that is not valid for its declared type, or a response without a body that does not carry an error code, decodes to an error or a malformed-message result and never crashes the process.",
  ["inputs"],"all message contents within bounds and all decoder outcomes",
  "Tests decode two sample messages.",
  ["application/encoding.go","protocol/message.go"],[("UnmarshalRequest/UnmarshalResponse","application/encoding.go")],None,["decoded values"])
p("C31","A server address only serves the request types it permits",
  "A request arriving at an address is handed to the directory only if that address permits its type: lookups, epoch lookups and monitoring everywhere, registration only where it is enabled, everything else nowhere. A request that is not permitted or not decodable is answered with a malformed-message error and never reaches the directory; requests of each type are dispatched to their own operation.",
  ["inputs","configurations"],"all address configurations and request types",
  "Tests use one configuration with two addresses.",
  ["application/server/server.go","application/serverbase.go"],[("perms / checkRequestType / HandleRequests","application/")],None,["acceptClient","HandleRequests"])
p("C32","Each connection gets one answer and state is locked while serving",
  "Every accepted connection whose request is read is answered with exactly one well-formed response and then closed, with the directory locked exclusively while it is changed (and at least shared while it is read) and unlocked afterwards, also when decoding or the permission check fails. Concurrent requests and epoch updates therefore behave as if executed one after another.",
  ["inputs","schedules","fault_sequences"],"all requests, handler results, I/O failures",
  "Tests run a few sequential requests; a missing lock or unlock needs a concurrent schedule or an error path.",
  ["application/serverbase.go"],[("acceptClient locking and reply","application/serverbase.go")],None,["lock state at handler calls","bytes written"])
p("C33","Epochs advance exactly when the published deadline expires",
  "While running, the server publishes exactly one new epoch, under the exclusive lock, each time the epoch timer fires and re-arms the timer with the configured epoch length, and does nothing else; on shutdown the loop ends without a further update. The first and every later interval equal the epoch deadline of the server's policies.",
  ["schedules","configurations","histories"],"all orders of timer and stop events within bounds, all deadlines",
  "Tests fire the timer once.",
  ["application/serverbase.go","application/server/server.go"],[("EpochUpdate / NewEpochTimer","application/serverbase.go")],None,["update calls, timer resets"])
p("C34","Bad configuration is refused as a whole, at start and on reload",
  "Loading a server or client configuration fails with an error, never a crash, if the file cannot be decoded, a required section is missing, a key file is unreadable or of the wrong size, or (client) the initial tree root does not parse or is not of epoch 0; a successful load returns exactly the keys and values of the files, resolved relative to the configuration. A failed hot reload leaves the running policies in force and a successful one changes only the epoch deadline of epochs published afterwards.",
  ["configurations","fault_sequences"],"all outcomes of file reads and decoding, all file sizes within bounds",
  "Tests load one good configuration.",
  ["application/server/config.go","application/config.go","application/client/config.go","application/server/server.go"],[("Config.Load / updatePolicies","application/server/")],None,["Load error","policies"])
p("C35","The bot forwards only a sender's own registration, unmodified",
  "The registration bot contacts the key server only for a decodable registration request whose name is the sender's account name with the service suffix, compared without regard to letter case, and then passes exactly the received bytes on and returns exactly the server's answer; anything else is answered with a malformed-message error and a failing server with a directory error. The running bot acts only on direct messages that carry the protocol prefix and are not its own, and sends one prefixed answer to the sender; it starts only next to a key server and with its own account.",
  ["inputs","fault_sequences"],"all senders, messages and server results within bounds",
  "Tests cover three malformed messages.",
  ["application/bots/twitterbot.go"],[("HandleRegistration","application/bots/twitterbot.go")],None,["HandleRegistration result","bytes sent to the key server"])
p("C36","Existing key and state files are never overwritten",
  "Writing a signing or VRF key, configuration or tree-root file, also by the programs' init commands, fails with an error and leaves the file untouched if a file of that name exists; otherwise exactly the given bytes are written once with the given permissions, and write errors are returned. A public key file written by init belongs to the private key file written with it.",
  ["inputs","fault_sequences"],"all contents, names and file-system results",
  "No tests exist for it.",
  ["utils/utils.go","application/config.go","application/config_encoding.go"],[("utils.WriteFile","utils/utils.go"),("SaveSTR/SaveConfig/TomlLoader.Encode","application/")],None,["file-system calls"])
p("C37","The command-line client reports success only for verified answers",
  "The command-line client reports a successful registration, an existing name, a found key or an unregistered name only if the answer passed all consistency checks and its result code says so, and a found key is the verified one; any other answer, transport failure or configuration is reported as an error, never as a result.",
  ["inputs","fault_sequences"],"all answers, check results and transport failures",
  "There are no tests for the command-line client.",
  ["cli/coniksclient/internal/cmd/run.go"],[("register/keyLookup","cli/coniksclient/internal/cmd/run.go")],None,["printed message"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
