# (fragment of the fix commit's subject, properties)
FIXED=[
("Data.Equal","C01"),
("PrintGraphViz prints","C01"),
("do not reset a stored merkle tree","C05"),
("update the merkle tree root in memory","C05"),
("accept an insertion whose nodes","C04 C05"),
("dump the nodes and the root record","C08"),
("reject serialized merkle proofs deeper","C03"),
("drop the cached hashes of an entry","C03"),
("decoding short base64","C03"),
("caller's root key in a merkle tree snapshot","C08"),
("import only complete merkle tree dumps","C03 C04 C16"),
("decode the subject position flag","C03 C10"),
("JSON claim metadata with a subject but no id","C03"),
("entry of a generic claim without stale","C10"),
("decode the metadata and check the length of hex","C03 C10"),
("identity state roots outside the field","C03"),
("reject credentials with missing fields","C03 C14"),
("claims that expire in a very distant future","C15"),
("malformed public signals and proofs","C03 C25"),
("stored values of a wrong size","C03 C07"),
("backing arrays of storage list prefixes","C07"),
("independent of the caller's buffers","C06 C07"),
("in-memory storage safe for concurrent","C08 C23"),
("panic counting empty values","C06"),
("issuer with a single commit","C13"),
("opening a transaction before deferring","C13"),
("claims root is in the roots tree already","C13"),
("publication of the pending identity state with its own roots","C12 C13"),
("off chain data before updating the state on chain","C13"),
("issuer's view of the chain in memory","C13"),
("state whose transaction failed","C13"),
("revocation nonce of a claim only if","C11"),
("lock the issuer when reading","C23"),
("stored and confirmed from the local SetState","C17 C12"),
("pending local state transition only","C17"),
("history of the local chain independent","C17"),
("local off chain publisher serves as it was","C16"),
("after the cache index wrapped around","C16"),
("not in a partially filled cache","C16"),
("off chain publication cache without length","C16"),
("new cache entry to publish again","C16 C13"),
("reject incomplete credentials and invalid public data in the holder","C03 C15"),
("missing or incomplete proofs in the local chain","C17 C03"),
("spare capacity of the slices given to sign","C20 C23"),
("forget the keys of a closed key store","C18 C19 C23"),
("export a copy of the unlocked key","C18"),
("unlocked key is the key of the record","C18"),
("malformed nonces or huge key derivation","C18 C03"),
("without records whose content is null","C18 C03"),
("as stored when writing a new key fails","C19"),
("replace the key store file atomically","C19"),
("keep the lock file of the key store","C19"),
("key store's memory storage","C18"),
("signatures that are not reduced","C20"),
("ecdsa signatures that are not canonical","C20"),
("do not delete a valid nonce when an old use","C21"),
("copies of the nonce objects","C21"),
("nonces that expire in a very distant","C21"),
("return a copy of a consumed nonce","C21"),
("public data of another identity state than","C24 C16"),
("malformed and missing http response bodies","C24"),
("lock file of zk file downloads","C22"),
("leave in place downloaded zk files","C22"),
("can not be downloaded to print their hashes","C22"),
("hashes of zk files whenever they are read","C22"),
("key store file through symbolic links","C19"),
("reached through a symbolic link has one lock","C19"),
("too long for an id","C03"),
("reading claim metadata into a used variable","C10"),
("refuse credentials for the true reason","C14"),
]
# (property, signature, what fails)
FINDINGS=[
("C18","password-trailing-zeros","a key stored with the password \"password\" is also unlocked with \"password\\x00\": scrypt's HMAC ignores zero bytes at the end of passwords of at most 64 bytes; changing the derivation would make stored keys unreadable"),
("C20","message-trailing-zeros","a signature of \"message\" also verifies for \"message\\x00\": poseidon.HashBytes (go-iden3-crypto) pads the last 31 byte block with zeros without the length; changing the hash would invalidate existing signatures and other implementations"),
]
