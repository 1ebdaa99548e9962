#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

MT="merkletree/merkletree.go"; ND="merkletree/node.go"; MU="merkletree/utils.go"
p("C01","Merkle tree is an authenticated, order-independent map",
 "For any set of entries with pairwise distinct indexes, inserted in any order, the tree root equals the root of the sparse Merkle tree specified by the hash rules (so equal contents give equal roots and different contents different roots), and lookups, existence checks, walks and claim dumps return exactly the inserted entries, both under the current root and under every earlier root. An existence check succeeds only when all eight elements of the entry match. A rejected insertion (index already present, elements outside the field, tree too shallow, read-only snapshot) reports an error and leaves the root and contents as they were, in memory and in storage.",
 ["inputs","histories"],"all entry sets incl. long shared index-hash prefixes, all insertion orders, all tree depths 1..240, all roots reached",
 "Unit tests add a handful of fixed small-integer claims and compare a few golden roots; they never compare against an independent model, nor across random orders, depths, historic roots or rejected insertions.",
 [MT,ND,MU],[("AddEntry/addLeaf/pushLeaf",MT),("GetDataByIndex/EntryExists/Walk",MT),("Node.Key/LeafKey/HashElems",ND)],
 [("currentroot","root of the live tree","storage key in "+MT)],["RootKey","GetDataByIndex","EntryExists","Walk","DumpClaims","GenerateProof"])
p("C02","Merkle proofs verify for exactly the true statement",
 "For every index and every root the tree has ever had, a generated proof exists and says existence exactly when the entry was in the tree under that root, and it verifies against that root, index and value. A proof never verifies for another root, another value, another index outside the path it covers, the opposite claim about the same index, or after tampering with its flags, depth, bitmap, siblings or auxiliary leaf in a way that changes what it states. Binary, JSON and circuit sibling-list encodings carry the same proof: decoding gives a proof with the same verdicts and bytes, and the circuit siblings recompute the root.",
 ["inputs","histories"],"all trees, current and historic roots, present and absent indexes, all single and multi field mutations of proofs",
 "Tests verify a few proofs with golden bytes and one or two negative cases; soundness is a statement over every forged proof, and completeness over every tree, root and index.",
 [MT,ND],[("GenerateProof",MT),("VerifyProof/RootFromProof",MT),("Proof.Bytes/NewProofFromBytes/MarshalJSON",MT),("AllSiblings/AllSiblingsCircom",MT)],None,["GenerateProof","VerifyProof","RootFromProof"])
p("C03","Decoding untrusted data never panics and round-trips",
 "Decoding arbitrary bytes or text of any format that crosses a trust boundary (hashes, tree nodes, entries, Merkle proofs, tree and claim dumps, claim headers, metadata and claim types, identity ids, public off-chain data, credentials, public signals, hex and base64 text, stored list and counter records) returns either an error or a value, and never panics, hangs or exhausts memory. Verifying or using a value that was decoded successfully also returns a verdict instead of panicking. A value that is accepted re-encodes to text or bytes that decode to the same value.",
 ["inputs"],"all byte strings and texts, in particular truncations, extensions and bit flips of valid encodings, and boundary lengths, depths and flag combinations",
 "Tests decode only well-formed encodings and a couple of short ones; no fuzzing exists, and the hostile corner (depth beyond the bitmap, odd lengths, unknown flag values) is never reached.",
 [MT,ND,MU,"core/id.go","core/claims/claim.go","core/claims/claim_types.go","common/common.go","components/idenpuboffchain/idenpuboffchain.go","utils/zk/zk.go","components/verifier/verifier.go"],
 [("length and flag checks of decoders",MT),("HexDecodeInto",'common/common.go'),("IDFromBytes","core/id.go"),("ClaimHeader.Unmarshal","core/claims/claim.go")])
p("C04","Reopening, dumping and importing a tree preserves it",
 "Opening a tree again on the same storage gives the same root, contents and proofs, and continuing to insert gives the same roots as a tree that was never closed. A tree dumped at any current or historic root and imported elsewhere, or whose claims are dumped and re-imported, has the same root, contents and proofs as the original at that root, also after the importing storage is reopened and when more entries are added afterwards. A dump that is truncated, or does not contain the tree its root names, is rejected and leaves the importing tree as it was.",
 ["inputs","histories"],"all trees, all roots, all truncation points, memory and LevelDB storage, arbitrary sequences of insert/reopen/dump/import",
 "Tests dump and import one small tree into a fresh in-memory tree and compare the in-memory root only; they never reopen the importing storage or truncate a dump.",
 [MT,"db/leveldb.go","db/memory.go"],[("DumpTree/ImportTree",MT),("DumpClaims/DumpClaimsIoWriter/ImportDumpedClaims",MT),("NewMerkleTree load path",MT),("Snapshot",MT)],
 [("currentroot","persisted root record, type byte + hash",MT)],["RootKey after reopen"])
p("C05","A failing or crashing store never corrupts a Merkle tree",
 "If the storage fails or the process stops at any point of a tree operation, the storage reopened afterwards holds either the tree before the operation or the tree after it, complete and provable. An operation that reports an error leaves the live tree object usable and identical to what its storage holds, and repeating the operation once the storage works again succeeds with the same result as if nothing had failed (importing a list of dumped claims counts as one operation per claim). Reads that fail because the storage failed report an error, never absence or a wrong proof.",
 ["crash_points","fault_sequences"],"every storage call of every insert, import, open, lookup and proof, failing or being the last one before a crash",
 "No test injects a storage error or crash; the tests' stores never fail.",
 [MT,"db/storage.go","db/leveldb.go"],[("single transaction per insertion",MT),("root update order in AddEntry",MT)],
 [("rootKey","in-memory root",MT),("currentroot","persisted root",MT)],["db.Storage interface (fault-injecting implementation)"])
p("C06","Both storages are the same prefixed transactional map",
 "Every operation sequence on the in-memory and the LevelDB storage behaves like one ordered key-value map: views with a prefix see and change exactly the keys under their (possibly nested) prefix, reads return the last committed value or a not-found error, and iteration and listing return each live pair under the prefix once, in key order, honouring the limit, early stop and callback errors. A transaction sees its own writes over the committed state, becomes visible completely and only on commit (including the writes merged from another transaction, which win over earlier ones), and leaves no trace when closed. Committed data is independent of buffers the caller reuses afterwards and, for LevelDB, survives closing and reopening.",
 ["inputs","histories"],"all sequences of put/get/add/commit/close/iterate/list/prefix operations over hostile keys (empty, shared prefixes, 0xff bytes)",
 "Tests perform six short fixed scripts with one-byte keys; nothing compares the two backends or a model under arbitrary sequences.",
 ["db/memory.go","db/leveldb.go","db/kvmap.go","db/storage.go","db/utils.go"],[("concat prefixing","db/utils.go"),("Tx cache + batch commit","db/leveldb.go"),("kvMap","db/kvmap.go"),("Iterate/List","db/memory.go, db/leveldb.go")])
p("C07","Persistent counters, lists and JSON records read back exactly",
 "A persistent 32-bit counter returns the last committed value for every value. A persistent list keeps every appended key and value: its length is the number of appends, every index returns the key appended there with that key's latest value, and lookups by key return the latest value; different lists, counters and records in one storage never affect each other, whatever slices their keys and prefixes were built from. Uncommitted changes disappear, committed ones survive reopening, and JSON records load as they were stored.",
 ["inputs","histories"],"all counter values, key byte strings, list prefixes (also slices with spare capacity or reused by the caller) and operation sequences",
 "Tests store a few fixed values under literal prefixes in one in-memory store.",
 ["db/storageutils.go"],[("StorageValue little-endian encoding","db/storageutils.go"),("StorageList len/list/byidx records","db/storageutils.go"),("StoreJSON/LoadJSON","db/storageutils.go")])
p("C08","A Merkle tree is safe and linearizable under concurrent use",
 "Any number of goroutines may insert, look up, prove, snapshot, walk, dump and read the root of one tree concurrently, over either storage, without data race, crash or deadlock. Every concurrent history is equivalent to a sequential one that respects real time: an insertion that returned is seen by every later read, two insertions of the same index do not both succeed, and none is lost. Every root ever returned can be proved against, and proofs generated under a given root verify under it.",
 ["schedules","histories"],"all interleavings of tree operations from any number of goroutines",
 "All tree tests are single-goroutine.",
 [MT,"db/memory.go","db/leveldb.go"],[("MerkleTree RWMutex",MT),("storage access","db/memory.go")],[("rootKey","current root guarded by the lock",MT)],["operation call/return at the API"])
p("C09","Identity ids are self-checking and encode losslessly",
 "Every identity id is 31 bytes: a type, the 27 genesis bytes and a checksum over both; building an id from type and genesis, or from a genesis identity state, is deterministic and always gives an id that passes its own check (the all-zero id is reserved as the empty id and never valid). Binary, base58, text, JSON and big-integer forms round-trip to the same id, and equality holds exactly for equal bytes. Parsing rejects wrong lengths, the empty id and every id whose type, genesis or checksum byte was changed without a matching checksum.",
 ["inputs"],"all types and genesis values, all single-byte and random corruptions, all text inputs",
 "Tests check a few golden ids and a few corrupted ones.",
 ["core/id.go","core/genesis/genesis.go"],[("CalculateChecksum/CheckChecksum","core/id.go"),("IDFromString/IDFromBytes/UnmarshalText","core/id.go"),("IdGenesisFromIdenState","core/id.go")])
p("C10","Claims encode into entries injectively and decode back",
 "Every claim kind (basic, other-identity, operational BabyJub key, generic, and the leaves of the roots and revocations trees) encodes deterministically into an entry whose elements are inside the field, and decoding an entry by its type returns a claim with the same header, subject, version, revocation nonce, expiration and payload. Distinct claim contents give distinct entries; fields that are part of the index (header, version, index slots, subject in the index) change the index, and the others only the value, so changing the revocation nonce or the expiration never changes the index. Metadata flags, subject position and type survive binary and JSON encoding in every combination, and no field spills into another.",
 ["inputs"],"all field values and all flag/subject-position/expiration/version combinations, random payloads at their maximum sizes",
 "Tests encode one example of each claim with one header configuration and compare golden hex; subject-in-value and combined flags are not decoded back.",
 ["core/claims/claim.go","core/claims/claim_types.go","core/claims/claimBasic.go","core/claims/claimOtherIden.go","core/claims/claimKeyBabyJub.go","core/claims/revocationrootsleafs.go","core/claims/utils.go"],
 [("ClaimHeader.Marshal/Unmarshal","core/claims/claim.go"),("Metadata.Marshal/Unmarshal","core/claims/claim.go"),("NewClaimFromEntry","core/claims/claim_types.go"),("copyToElemBytes","core/claims/utils.go")])
p("C11","Revocation nonces are never reused",
 "No two claims issued by one identity, genesis claims included, ever get the same revocation nonce: not in one process, not across reopening the issuer, not after failed, interrupted or rejected issuances, and not under concurrent issuance. The nonce counter only grows, hands out each value at most once after it was durably advanced, and refuses to wrap around at its maximum. The nonce recorded in the issued claim, in the stored entry and used on revocation is the same one.",
 ["schedules","crash_points","histories"],"all sequences and interleavings of issue/reject/reopen with storage failing or stopping at any write",
 "The nonce generator test draws a few numbers sequentially from one memory store; no restart, fault or concurrency.",
 ["identity/issuer/noncegen.go","identity/issuer/issuer.go","db/storageutils.go"],[("UniqueNonceGen.Next","identity/issuer/noncegen.go"),("nonce committed before the claim is added","identity/issuer/issuer.go")],
 [("nonceidx","next nonce, persisted","identity/issuer/issuer.go")],["IssueClaim result, entry nonce"])
p("C12","Issuer state follows its claims and its published history",
 "An issuer's identity state is always the hash of its claims, revocations and roots trees, which contain exactly the issued claims, the revoked nonces and the claims roots of published states; creating an issuer is deterministic and yields the id derived from its genesis claims. Publishing does nothing when nothing changed, is refused while an earlier publication is unconfirmed, and otherwise sends to the chain the transition from the last published state with a valid proof and makes exactly the matching public data available; a pending state becomes the on-chain state only after the configured confirmations and only if the chain reports it, and any other chain state is an error. Closing and loading the issuer again at any point gives the same id, state, on-chain and pending data and behaviour; a genesis-only issuer refuses every operation that would change its state.",
 ["histories","configurations"],"all sequences of issue, revoke, publish, sync, mine and reload, for both kinds of issuer",
 "The issuer tests need network access for proving keys and do not run in the reliable suite; they follow a few fixed scripts.",
 ["identity/issuer/issuer.go","core/genesis/genesis.go","core/id.go"],[("Create/Load","identity/issuer/issuer.go"),("PublishState states A/B/C","identity/issuer/issuer.go"),("SyncIdenStatePublic","identity/issuer/issuer.go"),("IdenState","core/id.go")],
 [("idenStatePending","state sent but unconfirmed","identity/issuer/issuer.go"),("idenStateDataOnChain","last confirmed state","identity/issuer/issuer.go"),("idenStateList","published states and their tree roots","identity/issuer/issuer.go")],["mock/stand-in chain and off-chain writer calls"])
p("C13","Faults and crashes never wedge or fork an issuer",
 "If storage, chain or off-chain publication fails, or the process stops, at any point of creating, issuing, revoking, publishing or syncing, then after reloading (or directly, if only an error was reported) the issuer loads, keeps every claim and revocation that was acknowledged, and once faults stop a bounded number of publish and sync calls brings its current state on chain with its public data available. Nothing is ever sent to the chain whose tree roots the issuer has not durably recorded first, so every claim under an on-chain state can be given a credential. In-memory state after an error agrees with what a reload would give.",
 ["crash_points","fault_sequences"],"every storage operation, chain call and off-chain call of every issuer operation failing or being the last before a crash, followed by any continuation",
 "No test injects a fault or restarts the issuer between the steps of one operation.",
 ["identity/issuer/issuer.go","merkletree/merkletree.go"],[("write-ahead of idenStateList and pending state","identity/issuer/issuer.go"),("state (B) retry path","identity/issuer/issuer.go")],
 [("idenStatePending/transacted","publication progress","identity/issuer/issuer.go")],["db.Storage, IdenPubOnChainer and IdenPubOffChainWriter fakes"])
p("C14","Existence credentials prove exactly what is on chain",
 "For every claim contained in the issuer's confirmed on-chain state the issuer produces an existence credential, and the verifier accepts it using only the chain's records; for a claim not issued, issued with another content, or not yet on chain the issuer refuses with the specific error. The verifier rejects every credential in which the claim, id, state, tree roots, proof, block number or timestamp was altered, replaced by another credential's, or does not match the chain. Older credentials stay verifiable after later state updates.",
 ["inputs","histories"],"all issuers, claims, publication histories and all field-wise alterations and mixtures of credentials",
 "verifier and issuer tests need the network and are not in the reliable suite; they try one claim and a few negative cases.",
 ["identity/issuer/issuer.go","components/verifier/verifier.go","core/proof/proof.go"],[("GenCredentialExistence","identity/issuer/issuer.go"),("VerifyCredentialExistence","components/verifier/verifier.go")])
p("C15","Validity credentials reflect revocation, expiry and freshness",
 "From an existence credential and the published data of a later on-chain state a holder obtains a validity credential, which the verifier accepts exactly when the claim is in that identity's history, its nonce is not revoked under the proven state, it has not expired, and the proven state is recent enough for the requested freshness. Once a revocation is published and the freshness window has passed, no credential for that claim verifies; other claims stay valid. The verifier rejects every altered or mixed validity credential, and the holder rejects published data that does not match the on-chain state.",
 ["inputs","histories"],"all claims, revocation and publication histories, times and freshness values (boundaries included), and alterations of credentials or published data",
 "holder and verifier tests need the network; freshness boundaries, mixed credentials and dishonest publishers are not tried.",
 ["identity/holder/holder.go","components/verifier/verifier.go","identity/issuer/issuer.go","components/idenpuboffchain/idenpuboffchain.go","core/claims/revocationrootsleafs.go"],
 [("HolderGetCredentialValidity","identity/holder/holder.go"),("VerifyCredentialValidity","components/verifier/verifier.go"),("RevokeClaim","identity/issuer/issuer.go"),("NewPublicDataFromBlobs","components/idenpuboffchain/idenpuboffchain.go")])
p("C16","Off-chain publications are served exactly and survive restarts",
 "After an identity state is published off chain, reading the latest publication returns exactly that state, its roots and complete revocation and roots trees, and reading by state returns the matching publication for at least the configured number of most recent ones and a state-not-found error for any other. This holds for any cache length, any number of publications, after reloading from storage, and when a publication fails part-way (the previous publications stay readable). Data read back over HTTP is the data that was published, and data whose trees do not match their roots is not accepted.",
 ["inputs","histories","crash_points"],"all publication sequences, cache lengths 1..255, reload points and storage faults",
 "The test publishes a few states with the default cache length in one store and never reloads or wraps with another length.",
 ["components/idenpuboffchain/writerhttp/writerhttp.go","components/idenpuboffchain/idenpuboffchain.go","components/idenpuboffchain/local/local.go","components/idenpuboffchain/readerhttp/readerhttp.go"],
 [("ring cache","components/idenpuboffchain/writerhttp/writerhttp.go"),("PublicDataBlobs","components/idenpuboffchain/idenpuboffchain.go")],[("cacheIdx","ring position, persisted","components/idenpuboffchain/writerhttp/writerhttp.go")])
p("C17","The state registry keeps a faithful, proof-guarded history",
 "The local state registry accepts a first state only for an unknown identity and an update only for a known one, only with a valid proof of the exact transition from its current state, and a rejected call changes nothing. At synchronisation each accepted transition is recorded exactly if the identity is still unknown (a first state) or its current state is still the one the transition was proved from (an update). The current-state query then returns the newest recorded state; the by-block and by-time queries return exactly the state recorded at that block or time, with its block and time, and a not-found error where none was; unknown identities report not-on-chain; and the recorded history never changes. The chain client maps contract answers and transaction receipts to the same results, including not-on-chain, missing or failed receipts and confirmation counts, and a failing answer is never taken for a state or a confirmation. Deploying the contracts succeeds only if every transaction of it was accepted, with the addresses, transactions and receipts of the contracts that were created and the state contract on the verifier that was given or just created; after a failure nothing further is deployed.",
 ["inputs","histories"],"all sequences of init/set/sync/query, valid, foreign and corrupted proofs, block numbers and times around every boundary",
 "Tests of these packages do not run offline; no history is checked against a model.",
 ["components/idenpubonchain/local/local.go","components/idenpubonchain/idenpubonchain.go","components/idenpubonchain/deploy.go","eth/client.go"],[("InitState/SetState/verifyZKP","components/idenpubonchain/local/local.go"),("GetStateByBlock/ByTime","components/idenpubonchain/local/local.go"),("getStateByBlockAndTime mapping","components/idenpubonchain/idenpubonchain.go")])
p("C18","The keystore gives keys only to the right password",
 "A key stored with a password can be unlocked, exported and used for signing only after unlocking with that same password; any other password, an unknown key or an altered record reports an error and yields nothing. Generated and imported keys survive closing and reopening the keystore, the stored form never contains the key or the password in the clear, equal keys and passwords are stored differently each time, and records of different keys do not affect each other. After closing, the store neither signs nor exports with a wrong (for example erased) key.",
 ["inputs","histories"],"all keys, passwords, sequences of new/import/unlock/export/sign/close/reopen, and alterations of stored records",
 "Tests use one or two keys and one wrong password.",
 ["keystore/keystore.go"],[("EncryptKey/DecryptKey (scrypt + secretbox)","keystore/keystore.go"),("UnlockKey/ExportKey/SignElem","keystore/keystore.go"),("Close zeroing","keystore/keystore.go")],[("encryptedKeys","records on disk","keystore/keystore.go"),("cache","unlocked keys","keystore/keystore.go")])
p("C19","Keystore files are never lost and have one owner",
 "A key whose creation or import was acknowledged is in the keystore file from then on, whatever write fails or wherever the process stops later; a creation or import that reports an error leaves the previously stored keys readable and the live store consistent with the file. While one keystore has the file open no other can open it, and it can be opened again once it is closed, also after its owner crashed. Closing never releases a lock held by another owner.",
 ["crash_points","fault_sequences","schedules"],"all storage faults and crash points during key writes and all open/close/crash sequences of several owners",
 "Tests open one store twice; no write fault, crash or second-close is exercised.",
 ["keystore/keystore.go"],[("FileStorage flock","keystore/keystore.go"),("FileStorage.Write","keystore/keystore.go")],[("path.lock","lock file","keystore/keystore.go")])
p("C20","Signatures verify for exactly the signed message and key",
 "Every signature produced over a message (raw element, prefixed bytes, prefix with date, Ethereum-style hashes) verifies with the signer's key and the same prefix, message and date, and with no other key, prefix, message, date or altered signature. Verification of malformed signatures or keys returns false or an error without panicking. Signing and verifying never modify the caller's or shared buffers, and domain-separating prefixes keep signatures of one kind from verifying as another.",
 ["inputs"],"all keys, prefixes (also slices with spare capacity), messages, dates, and signature alterations",
 "Tests sign a fixed message and try one corrupted variant.",
 ["keystore/keystore.go","crypto/signatures.go","crypto/hash.go","crypto/ecdsa_public_key.go","identity/issuer/issuer.go","components/idensigner/idensigner.go"],[("Sign/SignRaw/VerifySignature","keystore/keystore.go"),("SignEthMsg/VerifySigEthMsg","crypto/signatures.go"),("SignState","identity/issuer/issuer.go")])
p("C21","The challenge nonce store accepts each nonce once, until it expires",
 "A nonce added to the store is found until its expiration and by one successful search-and-delete at most; after that, or after expiring, it is not accepted again unless it is added again. Deleting old nonces removes exactly the expired ones, never one that is still valid (also when the same nonce was used before), and the auxiliary data attached to a nonce is returned with it. Fresh nonces are distinct, adding an existing one is refused, and concurrent use neither races nor lets two callers consume one nonce.",
 ["histories","schedules"],"all sequences and interleavings of new/add/search/search-and-delete/delete-old with arbitrary expirations",
 "Tests add a few nonces sequentially.",
 ["utils/noncedb/nonce_db.go"],[("map + expiration heap","utils/noncedb/nonce_db.go"),("SearchAndDelete","utils/noncedb/nonce_db.go"),("DeleteOld","utils/noncedb/nonce_db.go")])
p("C22","Zk artefacts are used only if intact, and proofs encode faithfully",
 "A proving key, verification key or witness program is loaded only if the bytes on disk match the configured hash, for every key format; missing files are fetched once, a failed, truncated or wrong download is reported and never left in place as if it were complete, and later correct attempts recover. Concurrent or repeated loading returns the same content and downloads a file at most once. Public signals and proofs survive JSON and big-integer encoding unchanged for all values.",
 ["inputs","fault_sequences","schedules"],"all corruptions and truncations of files and downloads, HTTP statuses, key formats, cache settings; all field elements",
 "Tests download real files from the network and do not run; one public-signals example exists.",
 ["utils/zk/zk.go"],[("download with tmp+rename+flock","utils/zk/zk.go"),("checkHash","utils/zk/zk.go"),("PubSignals JSON","utils/zk/zk.go")])
p("C23","Issuers and stores are safe under concurrent use",
 "Issuers, keystores, nonce generators, off-chain publication stores and state registries can each be used from many goroutines at once without data race, crash or deadlock. Concurrent issuing, revoking, publishing, syncing and credential generation gives a result some sequential order would give: no acknowledged claim or revocation is lost, nonces stay unique, at most one publication is pending, and every credential handed out verifies. Readers of publications and keys always see one complete version.",
 ["schedules","histories"],"all interleavings of the public operations of one object from any number of goroutines",
 "All component tests are single-goroutine.",
 ["identity/issuer/issuer.go","keystore/keystore.go","components/idenpuboffchain/writerhttp/writerhttp.go","components/idenpubonchain/local/local.go"],[("Issuer.rw","identity/issuer/issuer.go"),("KeyStore.rw","keystore/keystore.go"),("writer rw lock","components/idenpuboffchain/writerhttp/writerhttp.go")],None,["operation call/return; race detector"])
p("C24","HTTP access returns the served data or an error",
 "A request made with the HTTP client succeeds exactly when the server answered with a success status and a well-formed, valid body, and then returns the served value; any other status gives an error that carries the server's message, and malformed, truncated or invalid bodies and unreachable servers give an error and never a partially filled success. The off-chain reader asks for exactly the requested identity and state, and returns the data that state names or an error.",
 ["inputs","fault_sequences"],"all status codes, bodies (truncated, malformed, wrong type, missing fields) and connection failures",
 "The tests serve one success and one error response.",
 ["components/httpclient/httpclient.go","components/idenpuboffchain/readerhttp/readerhttp.go"],[("DoRequest","components/httpclient/httpclient.go"),("GetPublicData","components/idenpuboffchain/readerhttp/readerhttp.go")])
p("C25","Zk credentials are bound to holder, claim and on-chain state",
 "The circuit inputs a holder or issuer prepares satisfy the relation the circuits state: the operational key is in the genesis claims tree of the id, the claim is under the claims root, its nonce is absent from the revocations tree, and the roots hash to the identity state, for every claim and history. A zk credential verifies only if its proof is valid for its public signals, its state is the one on chain at the stated block and is recent enough; a proof for other public signals, another identity or state, or a tampered proof is rejected.",
 ["inputs","histories"],"all claims, issuer and holder histories, public-signal and proof alterations, times",
 "The tests need proving keys from the network and do not run; one happy path and few negatives.",
 ["identity/holder/holder.go","identity/issuer/issuer.go","components/verifier/verifier.go"],[("CredentialProofInputs/ZkProof","identity/holder/holder.go"),("GenIdOwnershipGenesisInputs","identity/issuer/issuer.go"),("VerifyZkProofCredential","components/verifier/verifier.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
