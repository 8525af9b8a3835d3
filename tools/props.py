# Source of properties.jsonl, MANIFEST.json and checks.json (run tools/gen.py).
P = []
def prop(id, title, stmt, over, qtext, why, files, mech, state=(), observe=(), bounds=(), assume=(), note="", na=None):
    P.append(dict(id=id, title=title, statement=stmt, over=list(over), qtext=qtext, why=why, files=list(files),
                  mech=list(mech), state=list(state), observe=list(observe), bounds=list(bounds), assume=list(assume), note=note, na=na))

HASH = "digests are those of an ideal hash: equal exactly when the hashed bytes are equal (counterexamples are re-solved with the real digests before they are reported)"
NOAX = "digests of syntactically different inputs are unrelated values (over-approximation: nothing is assumed about the hash)"
JSON = "encoding/json is replaced by a model of its documented behaviour over symbolic bytes; sampled paths are replayed on the real package"

prop("C01", "RLP encoding is lossless",
 "Every value of the supported kinds (integers of all widths, big integers, byte strings, strings, booleans, structs, slices, maps, nil and nested combinations) is recovered unchanged by decoding its RLP encoding, and decoding consumes exactly the encoded bytes. The encoding is the canonical (shortest-header) RLP form with map entries in the order of their keys.",
 ["inputs"], "all values within the stated sizes, including the encoder's form-changing lengths (0, 1, 55, 56, 255, 256 bytes)",
 "No test of common/codec is among the stable ones, and form changes occur only at particular lengths and sign boundaries.",
 ["common/codec/rlp.go", "common/codec/codec.go", "common/codec/bytes.go"],
 [("RLP writer and reader", "common/codec/rlp.go"), ("reflective encoder/decoder", "common/codec/codec.go")],
 observe=["codec.RLP.MarshalToBytes", "codec.RLP.UnmarshalFromBytes"],
 bounds=["integers: full 8..64-bit range; big integers up to 9 bytes", "byte strings: lengths 0..3, 54..57, 255..257; contents symbolic", "structs of up to 4 fields, slices and maps of up to 3 entries, nesting 2"])
prop("C02", "RLP decoder never crashes or over-reads on hostile input",
 "Decoding arbitrary bytes into any supported type either fails with an error or yields a value; it never panics, never allocates memory out of proportion to the input, and never reports more remaining bytes than it was given.",
 ["inputs"], "all byte strings up to the stated length, for each target type",
 "Tests feed well-formed encodings; the failing inputs are specific header bytes.",
 ["common/codec/rlp.go", "common/codec/codec.go"],
 [("length checks in readers", "common/codec/rlp.go")], observe=["codec.RLP.UnmarshalFromBytes", "codec.RLP.Unmarshal"],
 bounds=["inputs of up to 5 arbitrary bytes for every target; long-form headers with 1..8 length bytes"],
 assume=["an allocation above 64 MiB for such an input counts as a crash"])
prop("C03", "Integer byte form is minimal two's complement and lossless",
 "Every signed, unsigned, size and arbitrary-precision integer is recovered from its byte form; the byte form is the shortest big-endian two's complement (or minimal unsigned) representation, so equal numbers have equal bytes on every chain.",
 ["inputs"], "all 64-bit integers; all big integers within the stated width",
 "Minimality can fail at single values around powers of 256 and at sign changes; the tests hold a table of samples.",
 ["common/intconv/bytes.go", "common/intconv/bigint.go"], [("Int64ToBytes/BytesToInt64 and relatives", "common/intconv/bytes.go")],
 observe=["intconv.*ToBytes", "intconv.BytesTo*"], bounds=["64-bit: all values", "big integers: magnitude up to 10 bytes", "decoding: byte strings up to 10 bytes"])
prop("C04", "Hexadecimal text forms are canonical and lossless",
 "Every integer and byte string is recovered from its 0x text and JSON form, the text is minimal lower-case, and a text whose value does not fit the requested width is refused rather than truncated. Arbitrary text is parsed or refused, never a crash.",
 ["inputs"], "all 16/32/64-bit integers, big integers and byte strings within bounds; all ASCII texts up to the stated length",
 "Truncation and sign faults show only at width boundaries.",
 ["common/intconv/string.go", "common/hexint.go", "common/hexbytes.go"],
 [("FormatInt/ParseInt", "common/intconv/string.go"), ("HexInt*, HexBytes", "common/hexint.go, common/hexbytes.go")],
 observe=["intconv.ParseInt/FormatInt", "json.Marshal/Unmarshal of HexInt*, HexBytes"],
 bounds=["fixed-width integers: all values", "big integers: magnitude up to 4 (9) bytes", "texts up to 6 (8) ASCII characters"], assume=[JSON])
prop("C05", "Merkle proofs of every message range verify",
 "For every list of messages, built at once or one by one, the tree root is the reference binary Merkle root, and the path of every message and the proof of every range of messages lead to that root with the right position and total. Ranges outside the tree are refused.",
 ["inputs", "histories"], "all tree sizes up to the bound, all contents, all (begin, end) pairs including invalid ones, all build histories of Add",
 "The tests use trees of at most eight fixed leaves; faults depend on tree size and range position.",
 ["common/mbt/tree.go", "common/mbt/proof.go", "common/mbt/path.go"],
 [("incremental and lazy insertion", "common/mbt/tree.go"), ("range proof", "common/mbt/proof.go")],
 observe=["MerkleBinaryTree.Root/Path/Proof", "MerkleBinaryTreeProof.Root"], bounds=["up to 17 (thorough: 33) leaves, contents of 1..2 symbolic bytes"], assume=[NOAX])
prop("C06", "A forged Merkle proof is not accepted",
 "If a range proof or path evaluates without error to the root of a tree with the tree's total, then the messages it carries are the tree's messages at the told position. No proof crashes the verifier.",
 ["inputs"], "all proofs within bounds: arbitrary node values, counts, directions and contents, including contents shaped like inner nodes",
 "Tests contain two hand-made forgeries; the claim is about every forgery.",
 ["common/mbt/proof.go", "common/mbt/path.go", "common/mbt/tree.go"], [("Root and verify", "common/mbt/proof.go")],
 observe=["MerkleBinaryTreeProof.Root", "MerkleBinaryTreePath.Root"],
 bounds=["trees of up to 5 leaves, and of 7; up to 2 proof nodes per side; 1..2 forged contents of honest length or of 64 bytes; counts -2..5; node hashes of 0, 32 or 64 bytes"], assume=[HASH])
prop("C07", "Accumulator witnesses verify at every length",
 "Every leaf of an accumulator has a witness that it, and any accumulator over the same leaves at an older or newer length, accepts; the witness tells the leaf's position, and the witness handed out when adding is valid at once.",
 ["inputs", "histories"], "all lengths up to the bound, all leaf values, all positions, all pairs of lengths",
 "The tests sample a few lengths; faults depend on the binary pattern of both lengths.",
 ["common/mta/accumulator.go", "common/mta/extaccumulator.go"],
 [("WitnessFor, VerifyWithAccLength", "common/mta/accumulator.go"), ("WitnessForAt, VerifyAt", "common/mta/extaccumulator.go")],
 observe=["Accumulator.WitnessFor*, Verify*"], bounds=["up to 24 (40) leaves; older length any"], assume=[NOAX])
prop("C08", "Accumulator accepts no witness for a foreign leaf",
 "If an accumulator accepts a witness for a hash, the hash is the leaf at the position the witness stands for and the witness is the one of that position; hashes or witnesses of wrong length, positions or lengths outside the accumulator, and another offset are refused without a crash.",
 ["inputs"], "all witnesses within bounds (arbitrary hashes, directions, lengths) against all accumulators within bounds",
 "Tests verify honest witnesses and one or two corrupted ones.",
 ["common/mta/accumulator.go"], [("Verify, VerifyWithAccLength", "common/mta/accumulator.go")], observe=["Accumulator.Verify, VerifyWithAccLength"],
 bounds=["up to 6 (9) leaves, witnesses of up to 3 steps, hash lengths 0, 31..33", "over-long witnesses: 63..65 steps"], assume=[HASH])
prop("C09", "Accumulator state survives a crash at any write",
 "After a flush that is interrupted before any of its writes, recovery succeeds and in a new or used accumulator yields exactly the previously flushed one with all its witnesses; after a completed or repeated flush it yields the new one with all added data. A write that fails is reported, and a recovered accumulator goes on like one that never stopped.",
 ["crash_points", "histories", "fault_sequences"], "all crash points of a flush, for all combinations of flushed and added leaves within bounds",
 "Tests flush to a store that never fails.",
 ["common/mta/accumulator.go", "common/mta/extaccumulator.go"], [("children before parents before state key", "Flush in common/mta/accumulator.go")],
 observe=["Accumulator.Recover then WitnessFor/GetNode"], bounds=["up to 5 (9) flushed and 4 added leaves; one interrupted flush, optional retry; the crash point is symbolic"],
 assume=["a single store write is atomic", "leaf values of the crash harnesses are fixed; positions, counts and crash point vary"])
prop("C10", "A layered database commits all or discards all",
 "Reads through a layer see its latest writes and deletions and otherwise the store below, which stays untouched until a committing flush makes it equal to the layer and a discarding flush drops the layer; afterwards writes pass through. A fault during the flush is reported, loses nothing and the flush can be repeated.",
 ["histories", "fault_sequences", "schedules"], "all histories of operations within bounds, all map iteration orders, all fault points in the flush, schedules of a concurrent writer and flush",
 "There is no test of the layered database at all.",
 ["common/db/layer_db.go", "common/db/map_db.go"], [("layerBucket.Flush", "common/db/layer_db.go")], observe=["LayerDB.GetBucket/Flush, Bucket.Get/Has/Set/Delete"],
 bounds=["two buckets with two keys, up to 2 (3) layered operations, one write after the flush", "concurrent: one writer, one flush, 2 preemptions"])
prop("C11", "Buckets are independent maps on every backend",
 "On each backend, a key is present in a bucket exactly if it was written there (even with an empty value) and not deleted since, and reads give the last value written; operations on one predefined bucket never affect another. Reading absent keys is not an error and never crashes.",
 ["histories", "inputs"], "all histories of operations on two buckets within bounds, with arbitrary key and value bytes",
 "Tests write one key in one bucket.",
 ["common/db/bucket.go", "common/db/map_db.go", "common/db/go_level_db.go", "common/db/badger_db.go"], [("internalKey", "common/db/bucket.go")],
 observe=["Bucket.Get/Has/Set/Delete"], bounds=["2 (3) operations then one read; keys of 1..3 bytes; key separation for 32-byte keys of the unnamed bucket"],
 assume=["goleveldb and badger are replaced by maps with their documented API behaviour; sampled paths and counterexamples are replayed on the real libraries in a scratch directory"])
prop("C18", "Error codes survive wrapping",
 "The code reported for an error is the one of the outermost coded layer, whatever layers wrap it; an error without coded layer, or no error, has none. An error is recognised as caused by each error it wraps and by no other.",
 ["inputs"], "all wrapping chains within bounds with arbitrary codes",
 "Tests try single wrappers with two codes.",
 ["common/errors/errors.go"], [("AsValue, Is", "common/errors/errors.go")], observe=["errors.CodeOf, CoderOf, Is"], bounds=["chains of up to 3 (5) layers over 6 base and 7 wrapper constructors; codes fully symbolic"])
prop("C19", "Addresses are lossless in every form",
 "Every account or contract address is recovered from its string, byte, JSON and RLP form, and two addresses are equal exactly if type and id are. Setting an address from arbitrary input fails or gives a result that depends on that input only, without a crash.",
 ["inputs"], "all 20-byte ids of both types; all byte inputs up to 23 bytes and strings up to 6 characters",
 "No stable test covers package common.",
 ["common/address.go"], [("SetTypeAndID", "common/address.go")], observe=["Address methods"], bounds=["ids: all values", "arbitrary inputs: up to 23 bytes, up to 6 characters"], assume=[JSON])
prop("C20", "BTP addresses split into their components",
 "For every protocol, network id, blockchain and account text, the address composed of them yields exactly these components, and validation accepts exactly btp addresses of an ICON blockchain with an account. Any other string is handled without a crash and yields no components without a protocol.",
 ["inputs"], "all component texts within bounds; all strings up to the bound", "No stable test covers package types.",
 ["common/types/btpaddress.go"], [("Protocol, network, Account", "common/types/btpaddress.go")], observe=["BtpAddress methods"], bounds=["components of up to 2 (4) characters, strings of up to 6 (8)"])
NODE = "the node is a model answering at the HTTP/JSON-RPC and websocket boundary (requests, notifications and logs as documented); counterexamples and sampled paths are replayed against a real HTTP and websocket server"
SCHED = "goroutines switch at synchronisation operations (channel, lock, node call); data races on plain memory between them are not explored"
prop("C12", "Every ICON BTP block and message is relayed once, in order, with proof",
 "From an ICON BTP network, every block after the one the destination knows is handed to the sender exactly once and in order, and every message after the destination's sequence exactly once, in order and unchanged, each behind its block and with a Merkle proof to that block's root at the right place, split only where the size limit requires. A failing node delays blocks or ends the link with an error and loses or skips none, and a relay started in the middle of a block relays its rest.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all block/message shapes, start positions and size limits within bounds; all goroutine schedules within the preemption bound; every single failing node call or broken connection",
 "Relaying is driven by a live node; no stable test runs a receiver or a link.",
 ["chain/icon/btp2/btp2.go", "chain/icon/btp2/message.go", "chain/icon/client/client.go", "common/link/link.go"],
 [("monitoring, BuildBlockUpdate, BuildMessageProof", "chain/icon/btp2/btp2.go"), ("grouping by limit", "common/link/link.go")],
 observe=["bytes given to types.Sender.Relay", "result of Link.Start"],
 bounds=["one known and up to 2 (thorough 3) new blocks of up to 3 messages, size limit symbolic from one block update up", "schedules: 3 blocks, 1 (thorough 2) preemption; with a destination that confirms, 3 blocks, 1 (thorough 2) delays", "one failing call of each node method, one disconnect", "message proof: up to 4 (9) messages with symbolic contents, sequences, height and limit"],
 assume=[NODE, SCHED])
prop("C13", "Every ICON bridge message is relayed once and in order",
 "Over the bridge receiver for ICON, every message after the destination's sequence is handed to the sender exactly once, in order, unchanged and with its height, grouped up to the size limit. A failing node ends the link with an error or is asked again and no message is lost or skipped, and a relay started in the middle of a block relays its rest.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all block/message shapes, link offsets, start positions and size limits within bounds; all schedules within the preemption bound; every single failing node call or broken connection",
 "Relaying is driven by a live node; no stable test runs a receiver or a link.",
 ["chain/icon/bridge/bridge.go", "chain/icon/bridge/message.go", "chain/icon/client/client.go", "common/link/link.go"],
 [("monitoring, BuildMessageProof", "chain/icon/bridge/bridge.go"), ("grouping by limit", "common/link/link.go")],
 observe=["bytes given to types.Sender.Relay", "result of Link.Start"],
 bounds=["up to 2 (thorough 3) blocks of up to 3 messages, size limit symbolic", "schedules: 3 blocks, 1 (thorough 2) preemption; with a destination that confirms, 3 blocks, 1 (thorough 2) delays", "one failing call of each node method, one disconnect"], assume=[NODE, SCHED])
prop("C14", "Every Ethereum bridge message is relayed once and in order",
 "Over the bridge receiver for Ethereum, every Message event of the BMC to the destination after its sequence is handed to the sender exactly once, in order, unchanged and with its height, grouped up to the size limit. A failing node call is retried without losing blocks, and a malformed event ends the link with an error instead of being skipped.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all chains of blocks, transactions and events within bounds, start positions and limits; all schedules within the preemption bound; every single failing node call",
 "Relaying is driven by a live node; no stable test runs a receiver or a link.",
 ["chain/ethbr/receiver.go", "chain/ethbr/message.go", "chain/ethbr/client/client.go", "common/link/link.go"],
 [("monitoring, BuildMessageProof", "chain/ethbr/receiver.go"), ("MonitorBlock", "chain/ethbr/client/client.go")],
 observe=["bytes given to types.Sender.Relay", "result of Link.Start"],
 bounds=["up to 3 blocks of up to 3 events in up to 2 transactions, size limit symbolic", "schedules: 3 blocks, 1 (thorough 2) preemption; with a destination that confirms, 3 blocks, 1 (thorough 2) delays", "one failing call of each node method"],
 assume=[NODE + " (go-ethereum's ethclient is replaced symbolically)", SCHED])
prop("C15", "Relaying converges with the destination despite lost transactions",
 "When a transaction never takes effect, transactions take effect in another order than sent, or another relay serves the same link, the destination still ends up with every block and message in order, and the link neither crashes, hangs nor falls out of step. A failure of the sender ends the link with an error and not silently.",
 ["histories", "schedules", "fault_sequences"], "all places of the lost, foreign or failing transaction, all block distances and message contents within bounds, all goroutine schedules within the delay bound",
 "Needs a destination that refuses and confirms messages; no stable test runs a link.",
 ["common/link/link.go", "chain/icon/btp2/btp2.go", "chain/icon/bridge/bridge.go", "chain/ethbr/receiver.go"],
 [("result, checkStatus, followStatus, clearRelayMessage", "common/link/link.go")], observe=["types.Sender.Relay against a model of the destination contract", "result of Link.Start"],
 bounds=["3 blocks (thorough 4 for btp2) of 0..2 messages; one fault, or a lost transaction and another relay together", "up to 1 (reordering: 2; thorough one more) deviations from the round-robin schedule", "btp2: relay messages of whole blocks (its verifier answers Unknown to a rest of a block out of place, on which the relay stops); bridges: whole blocks or message by message"],
 assume=[NODE, SCHED, "the destination refuses a gap with NotVerifiable and a repeated block with AlreadyVerified, as the BTP block and bridge verifiers of this repository do; a lost transaction is not the last one (nothing tells of it until the next block)"])
prop("C16", "A relay message of any length reaches the ICON BMC whole",
 "The ICON sender delivers each relay message to the destination's BMC in transactions that each keep to the transaction size limit, either as it is or as fragments that the BMC puts together to exactly the bytes given. Every transaction names the link, the BMC and the network of the destination.",
 ["inputs"], "all relay message contents and lengths around multiples of the size limit within bounds",
 "Fragmenting happens above hundreds of kilobytes; no stable test sends anything.",
 ["chain/icon/sender.go"], [("_relay, sendFragment", "chain/icon/sender.go")], observe=["icx_sendTransaction requests of the sender"],
 bounds=["size limit 1..3 (thorough 4) set in place of the real one, message length 0 .. 3 limits + 1, contents symbolic", "real limit: messages of up to 4 (thorough 8) bytes"],
 assume=[NODE, "fragment rule of the BMC of this repository: the first index is minus the number of those that follow, the following ones count down to 0"])
prop("C17", "The senders tell the fate of every transaction",
 "A sender sends again while the ICON node's pool is full, signs again when the transaction has expired and takes a duplicate as sent; any other refusal is reported by Relay. After that it waits for the result of exactly this transaction, tells a revert with the relay message's id and the contract's code, and then gives the destination's status if it can be had. No answer of the node makes it crash.",
 ["inputs", "fault_sequences"], "all sequences of node answers within bounds, error codes, error messages, failure codes and link statuses symbolic",
 "Needs a node that refuses, delays and fails transactions; no stable test runs a sender.",
 ["chain/icon/sender.go", "chain/icon/client/client.go", "chain/ethbr/sender.go", "chain/ethbr/client/client.go"],
 [("sendTransaction, GetResult, result", "chain/icon/sender.go"), ("GetResult, result", "chain/ethbr/sender.go"), ("GetRevertMessage", "chain/ethbr/client/client.go")],
 observe=["types.Sender.Relay", "channel of types.Sender.Start"],
 bounds=["up to 2 (thorough 3) overflow or expiry answers before the final one, up to 2 pending answers", "error messages of up to 6 bytes, JSON-RPC codes in (-40000, 0), failure codes 0..199", "Ethereum: one transaction, revert code 0..19, revert texts of up to 4 bytes otherwise"],
 assume=[NODE + " (go-ethereum's ethclient and contract binding are replaced symbolically)", SCHED])
KEYS = "secp256k1, scrypt, HKDF and AES-CTR are replaced by ideal stand-ins (injective or keyed functions with the library's length and range checks); counterexamples and sampled paths are replayed on the real libraries"
prop("C21", "An ICON transaction is signed over everything it sends",
 "The bytes an ICON transaction is signed over follow the ICON serialisation: every field and nested value takes part, escaped and in key order, and only the signature itself is left out, so different transactions give different bytes. Signing sets the hash, and the signature in the transaction is the wallet's over that hash, also when signed again; a wallet failure is reported.",
 ["inputs"], "all parameter trees of strings, lists, maps and nulls within bounds, with arbitrary characters including every separator and the escape character; all values of the transaction fields",
 "No stable test covers chain/icon/client; a field left out of the signed bytes shows only to a node that checks.",
 ["chain/icon/client/serialize.go", "chain/icon/client/client.go", "chain/icon/client/type.go"],
 [("SerializeMap, SerializeJSON", "chain/icon/client/serialize.go"), ("SignTransaction", "chain/icon/client/client.go")],
 observe=["SerializeMap", "SerializeJSON", "Client.SignTransaction"],
 bounds=["trees of up to 2 (3) entries per level and depth 2, strings of up to 2 (3) ASCII characters", "transaction fields of up to 2 characters"],
 assume=[JSON, NOAX, "JSON numbers do not occur in ICON transactions; a list whose first element is empty has no separator after it, as in the node"])
prop("C22", "Signatures and keys keep their identity in every form",
 "A signature is recovered from its RSV, VRS and RS forms, a private key from its bytes and a public key from its compressed and uncompressed forms; forms of wrong length or value are refused. What a key signs verifies and recovers to that key only, and no signature, however malformed, crashes or verifies for a key that did not sign.",
 ["inputs"], "all 64- and 65-byte signatures, all 32-byte keys and hashes, inputs of every length around the right ones",
 "Tests sign fixed values and parse what they signed.",
 ["common/crypto/signature.go", "common/crypto/key.go"], [("Parse*, Serialize*, Verify, RecoverPublicKey", "common/crypto/signature.go, common/crypto/key.go")],
 observe=["crypto.ParseSignature*, Signature.*, ParsePrivateKey, ParsePublicKey"], bounds=["signatures and hashes: all values; parsed private keys: all values; signing keys: two symbolic bytes, the rest fixed; input lengths 0..67"],
 assume=[KEYS, "byte strings that are no point on the curve are not distinguished from public keys"])
prop("C23", "A keystore opens only with its password and unchanged",
 "A key stored with a password is recovered with that password, and with another one, or from a keystore whose ciphertext, MAC, address or kind was changed, it is refused; any other change is refused or gives the same key; malformed keystores are refused without a crash. The relay opens each wallet with the password or secret file configured for it and reports one it cannot open or read; a text encrypted for a wallet is recovered by that wallet only.",
 ["inputs", "fault_sequences"], "all keys, passwords and single changed fields within bounds; all combinations of given, missing and unreadable passwords and secret files",
 "Tests open one keystore with its right password.",
 ["common/wallet/keystore.go", "common/wallet/wallet.go", "common/wallet/encrypted.go", "cmd/relay/main.go"],
 [("EncryptKeyAsKeyStore, DecryptKeyStore", "common/wallet/keystore.go"), ("EnsureWallet", "cmd/relay/main.go")],
 observe=["wallet.KeyStoreFromWallet/NewFromKeyStore/DecryptKeyStore", "wallet.EncryptKeyAsKeyStore", "Config.EnsureWallet"],
 bounds=["keys and random bytes: two symbolic bytes, the rest fixed; passwords of up to 3 bytes; one field of the keystore changed (cipher text 0..33, MAC 31..33, IV 0..17 bytes, address, KDF parameters, names), contents symbolic"],
 assume=[KEYS, JSON, "passwords contain no NUL byte (PBKDF2 pads keys with NUL)", "keystores of the EVM format are opened by go-ethereum and not covered"])
prop("C24", "A JSON-RPC call ends in its result or its error",
 "Each call sends one well-formed request with the method and parameters given, and returns the node's result unchanged, or the node's error with its code and message whatever the HTTP status is, or an error when the answer is neither. No answer of a node makes it crash or report success without a result.",
 ["inputs", "fault_sequences"], "all methods, parameters, results, error codes and messages, HTTP statuses and shapes of answers within bounds",
 "No stable test covers common/jsonrpc.",
 ["common/jsonrpc/client.go"], [("Do", "common/jsonrpc/client.go")], observe=["jsonrpc.Client.Do"],
 bounds=["strings of up to 2 characters, status any of the usual ones, answers: every combination of missing, null and present members, empty and non-JSON bodies, broken connections"],
 assume=[JSON, "net/http is replaced by a transport that answers or fails; replays use a real HTTP server"])
prop("C25", "A trie proof is accepted only if its nodes lead to a leaf",
 "A list of nodes is accepted as a proof exactly if each node but the first is one its predecessor links to by hash and the last one, and only it, is a leaf, whose value is then told. Every other list of nodes is refused without a crash.",
 ["inputs"], "all lists of nodes within bounds: leaves, extensions and branches with arbitrary headers, links and values, other RLP and arbitrary bytes",
 "No stable test covers common/mpt.",
 ["common/mpt/mpt.go"], [("NewMptProof, RLPDecodeSelf", "common/mpt/mpt.go")], observe=["mpt.NewMptProof, MptProof.Leaf"],
 bounds=["proofs of up to 3 (thorough 4) nodes; headers, links and values symbolic; arbitrary bytes of up to 3"], assume=[HASH])
prop("C26", "The relay is wired as its configuration says",
 "For the directions front, reverse and both, the relay runs exactly the links told, each reading from the configured source and sending to the configured destination with that side's endpoint, BMC address and wallet, and with the receiver of the source's bridge mode. Unknown directions or blockchains are refused and the failure of a link ends the relay with its error.",
 ["inputs", "fault_sequences", "schedules"], "all combinations of directions, bridge modes and blockchains; all unknown names within bounds",
 "No test covers cmd/relay.",
 ["cmd/relay/linkfatory.go", "cmd/relay/main.go"], [("NewLink, newReceiver, newSender", "cmd/relay/linkfatory.go")],
 observe=["requests the nodes of both sides get", "result of NewLink"],
 bounds=["both sides icon for the running relay; receivers and senders for icon, eth, hardhat; unknown names of up to 5 characters"], assume=[NODE])

prop("C27", "The ICON node is asked the right question and read exactly or refused",
 "Every query of the relay reaches the ICON node with the method and parameters that name the wanted block, proof, contract and link, and its answer is handed on unchanged; link status, network id and offset are exactly the node's numbers, or an error. Bytes, addresses and numbers are written as the texts the nodes expect and recovered from them, and malformed texts are refused without a crash or cut data.",
 ["inputs", "fault_sequences"], "all texts, numbers, addresses and answers within bounds",
 "No stable test covers chain/icon/client or chain/ethbr/client.",
 ["chain/icon/client/client.go", "chain/icon/client/type.go", "chain/ethbr/client/type.go"],
 [("node queries", "chain/icon/client/client.go"), ("text values", "chain/icon/client/type.go")],
 observe=["requests the node gets", "results of the client's methods", "HexBytes, HexInt and Address values and texts"],
 bounds=["texts of up to 4 arbitrary characters (addresses: 42 or fewer or more, with arbitrary characters at chosen places), byte strings of up to 3 bytes, numbers of full width"],
 assume=[JSON, NODE])

PYHASH = "SHA3-256 is an ideal hash: equal exactly when the hashed bytes are equal (counterexamples are re-solved with the real digests)"
PYCHAIN = "the ICON service is replaced by a stand-in of its documented behaviour: storage, calls between contracts, events, and the undoing of failed transactions"
prop("C28", "The Python contracts read and write RLP and base64 losslessly",
 "Bytes, numbers, texts, truth values, lists, nulls and structures are written by the Python contracts in the canonical RLP form the relay uses, and recovered from it; bytes are recovered from their URL-safe base64 text. Arbitrary bytes and texts are read as exactly what they hold or refused.",
 ["inputs"], "all values and byte strings within bounds, including the lengths where the form changes",
 "The repository has no tests of pyscore; the relay's encoder and the contracts' decoder must agree on every value.",
 ["pyscore/lib/icon/rlp.py", "pyscore/lib/icon/base64.py"], [("rlp_encode, rlp_decode", "pyscore/lib/icon/rlp.py"), ("urlsafe_b64encode, urlsafe_b64decode", "pyscore/lib/icon/base64.py")],
 observe=["rlp_encode, rlp_decode", "urlsafe_b64encode, urlsafe_b64decode"],
 bounds=["byte strings of 0..3, 54..57 and 255..257 bytes, numbers of up to 72 bits, lists of up to 2 items and depth 2, arbitrary input of up to 4 bytes"])
prop("C29", "The contracts' accumulator accepts exactly the added hashes",
 "In the Python contracts' accumulator every added hash is verified at its height with its witness of the current, an older (as far as kept) or a newer accumulator, also after the accumulator was stored and loaded. No other hash, height or witness is accepted.",
 ["inputs", "histories"], "all histories of adding within bounds, all hashes, heights, witnesses and lengths",
 "The repository has no tests of pyscore; faults depend on the binary pattern of lengths and heights.",
 ["pyscore/lib/icon/mta.py"], [("MerkleTreeAccumulator.add, verify", "pyscore/lib/icon/mta.py")],
 observe=["MerkleTreeAccumulator.add, verify, to_bytes, from_bytes"], bounds=["up to 6 (thorough 10) added hashes, witnesses of up to 3 arbitrary hashes, offsets 0..2, caches of 0..3 hashes, root limits 0..3"], assume=[PYHASH])
prop("C30", "The contracts accept a trie proof for entries only",
 "For every Merkle Patricia trie and entry, the nodes on the way to the entry prove its value in the Python contracts. Whatever nodes and key are given, nothing but an entry of the trie with its value is proven.",
 ["inputs"], "all tries of the stated shapes with arbitrary values, all keys, all lists of nodes within bounds",
 "The repository has no tests of pyscore; a forged receipt would be an arbitrary message.",
 ["pyscore/lib/icon/mpt.py", "pyscore/lib/icon/rlp.py"], [("MerklePatriciaTree.prove", "pyscore/lib/icon/mpt.py")],
 observe=["MerklePatriciaTree.prove"], bounds=["tries of 1..3 entries in 7 shapes (leaf, extension, branch, embedded nodes, branch values), values of 1, 2 or 33 bytes, keys of 0..3 bytes, up to 3 arbitrary nodes of the trie's node lengths"], assume=[PYHASH])
PYSIG = "recovering a signer is an unknown function of the signed hash and the signature"
PYB64 = "base64 stands for the bytes it holds (C28 decides base64 itself; replays use the real one)"
PYPEER = "verifiers and services next to the message center are played by the harness, with arbitrary answers and failures"
prop("C31", "The verifier accepts blocks of more than two thirds of the validators only",
 "The Python message verifier accepts a block exactly if it is the next one and validly and distinctly signed by more than two thirds of the validators then in office, and takes over new validators only if they are the ones the block names. Whatever is refused, or comes from anyone but its own message center and link, changes nothing.",
 ["inputs", "histories"], "all headers' heights, votes, signers, timestamps and next validators, and all sequences of blocks within bounds",
 "The repository has no tests of pyscore; a block accepted with too few or repeated votes forges every message.",
 ["pyscore/bmv/icon/icon.py"], [("block updates and votes", "pyscore/bmv/icon/icon.py")],
 observe=["handleRelayMessage, getStatus, validators"],
 bounds=["1..4 (thorough 5) validators, 0..n+1 votes with arbitrary signatures, 1..3 blocks in one or two messages, validator changes at any of them"], assume=[PYHASH, PYSIG, PYB64, PYCHAIN])
prop("C32", "The verifier hands on exactly the messages proven by accepted blocks",
 "The Python message verifier hands to the message center, unchanged and in order, exactly those messages of the source link that receipts of an accepted block hold, and only with the next sequence number. Receipts and events not proven by a newest or older accepted block prove nothing.",
 ["inputs", "histories"], "all receipts, events, proofs and sequence numbers within bounds",
 "The repository has no tests of pyscore; a forged or repeated message is an arbitrary transfer.",
 ["pyscore/bmv/icon/icon.py", "pyscore/lib/icon/mpt.py", "pyscore/lib/icon/mta.py"], [("receipts, events and block proofs", "pyscore/bmv/icon/icon.py")],
 observe=["handleRelayMessage, getStatus"],
 bounds=["blocks of 1 or 2 receipts with up to 2 events each; events of this or another contract, link or signature; blocks up to 3 behind the newest"], assume=[PYHASH, PYSIG, PYB64, PYCHAIN])
prop("C33", "The message center delivers each relayed message once and never blocks",
 "The Python message center delivers every relayed message once and unchanged to the service it is for, forwards it to the next center on its way, or answers its source with an error; no message, service or route can block those after it. It sends what registered services hand it, numbered per link without gaps and addressed to the center of the destination network.",
 ["inputs", "fault_sequences", "histories"], "all messages, numbers, payloads, destinations, failures of services and tables of links and routes within bounds",
 "The repository has no tests of pyscore; lost or blocked messages depend on failures of services and on removed links.",
 ["pyscore/bmc/bmc.py", "pyscore/bmc/message.py", "pyscore/bmc/route.py"], [("handleRelayMessage, sendMessage", "pyscore/bmc/bmc.py")],
 observe=["handleRelayMessage, sendMessage, getStatus", "calls of services", "Message events"],
 bounds=["1 or 2 messages of 9 kinds at once, arbitrary numbers and payloads, malformed messages of up to 3 bytes, two links and one route"], assume=[PYPEER, PYCHAIN])
prop("C34", "The contracts' storage returns what was stored, across transactions",
 "Dictionaries, lists and properties in the storage of the Python contracts tell exactly the entries that were set and not removed, with their last values and in their order, also to later transactions. Parts and neighbours are never mixed up, and nothing is left after all was removed.",
 ["inputs", "histories"], "all sequences of operations and all keys and values within bounds",
 "The repository has no tests of pyscore; mistakes show after removals, for particular keys and in the next transaction.",
 ["pyscore/lib/icon/db.py"], [("IterableDictDB, PropertiesDB, remove_from_array_db", "pyscore/lib/icon/db.py")],
 observe=["IterableDictDB, PropertiesDB, remove_from_array_db"],
 bounds=["3 (thorough 4) operations with keys of 1..2 arbitrary characters, 4 properties of different kinds, lists of up to 3 values"], assume=[PYCHAIN])
prop("C35", "The message center's tables and permissions are what their owner made them",
 "Services, verifiers, links and routes of the Python message center are registered once, told as registered and removable again, and a verifier a link needs stays. With access control on, only an account that was given the permission may change them, and only the owner gives, takes or switches permissions.",
 ["inputs", "histories"], "all sequences of registrations and permissions, all callers within bounds",
 "The repository has no tests of pyscore; mistakes show in the order of registrations and for particular callers.",
 ["pyscore/bmc/bmc.py", "pyscore/bmc/permission.py", "pyscore/bmc/link.py"], [("registry", "pyscore/bmc/bmc.py"), ("permissions", "pyscore/bmc/permission.py")],
 observe=["add*, remove*, get* and permission methods of the message center"],
 bounds=["3 operations over 2 names, 2 verifiers, 2 links and 2 routes; arbitrary callers; 3 permission operations"], assume=[PYCHAIN])
prop("C36", "Only registered relays relay, each in its turn",
 "In the Python message center operators register and remove their relays, and exactly the registered relays of a link may relay over it. With rotation on, exactly the relay whose turn it is by the block heights may relay, one relay always has the turn, also after removals, and a change of relays that is announced takes place at once and as announced.",
 ["inputs", "histories"], "all block heights, histories of relaying and registrations, and all senders within bounds",
 "The repository has no tests of pyscore; turns depend on the arithmetic of heights and on removals in between.",
 ["pyscore/bmc/link.py", "pyscore/bmc/relayer.py", "pyscore/bmc/bmc.py"], [("rotation", "pyscore/bmc/link.py"), ("operators", "pyscore/bmc/relayer.py")],
 observe=["addRelay, removeRelay, nextRelays, getNextRelays, handleRelayMessage, getStatus"],
 bounds=["up to 3 relays, 2 (thorough 3) registrations, 2 relayed messages, heights 5 (thorough 12) apart, three settings of intervals and limits (thorough 36)"], assume=[PYPEER, PYCHAIN])
prop("C37", "The token service neither makes nor loses tokens",
 "In the Python token service a user has exactly what was deposited, received and returned less what was sent and reclaimed; nobody reclaims or sends more than is usable, and what is sent stays locked until its answer settles or returns it, once. Only registered tokens deposit, only the message center brings messages, every request is answered once, and failing calls change nothing.",
 ["inputs", "histories", "fault_sequences"], "all histories of deposits, transfers, answers, errors and reclaims, all amounts, callers and codes within bounds",
 "The repository has no tests of pyscore; lost or doubled amounts depend on the order of answers and on failures.",
 ["pyscore/token/token_bsh.py"], [("balances, pending transfers", "pyscore/token/token_bsh.py")],
 observe=["tokenFallback, reclaim, transfer, handleBTPMessage, handleBTPError, balanceOf, isPending", "calls of the token and the message center"],
 bounds=["a deposit and 2 (thorough 3) further transactions of 7 kinds, or 2 transfers of 2 users in 2 tokens with 2 answers; amounts -2..60"], assume=[PYPEER, PYCHAIN, "JSON is read and written by a model of its documented behaviour (replays use the real one)", "answers come from the network that was asked", "unregistering a token is outside"])
prop("C38", "BTP addresses in the contracts are read exactly or refused",
 "A BTP address of protocol, network and contract is read by the Python contracts as exactly these parts, written as it was read, and equal to another exactly if the texts are. A text that is no address is refused with the error of the contracts.",
 ["inputs"], "all texts of the parts and all short texts within bounds",
 "The repository has no tests of pyscore; an address read wrongly sends messages elsewhere or blocks a link.",
 ["pyscore/lib/btp_address.py"], [("BTPAddress", "pyscore/lib/btp_address.py")],
 observe=["BTPAddress.from_string, from_bytes, from_string_with_validation, from_net_address"],
 bounds=["parts of up to 3 arbitrary characters, arbitrary texts of up to 5 (thorough 6)"])
prop("C90", "The Java contracts (BMC, BMVs, services) keep the same guarantees",
 "The ICON Java contracts under javascore deliver, verify and number messages as the Python ones do, and their tokens, fees and calls are conserved over every history.",
 ["inputs", "histories"], "all transactions",
 "The contracts hold the value the relay moves.",
 ["javascore/bmc", "javascore/bmv", "javascore/bsh", "javascore/nativecoin", "javascore/xcall", "javascore/fee-aggregation"], [("contracts", "javascore")],
 na="the Java contracts cannot be built here (Gradle, the score API and the annotation processor's dependencies are not in the sandbox), so neither their bytecode nor a replay of a counterexample is available; no symbolic executor for Java is installed")
prop("C91", "The Solidity contracts (BMC, BMVs, xcall) keep the same guarantees",
 "The EVM contracts under solidity deliver, verify and number messages as the others do over every history.",
 ["inputs", "histories"], "all transactions",
 "The contracts hold the value the relay moves.",
 ["solidity/bmc", "solidity/bmv", "solidity/bmv-bridge", "solidity/xcall"], [("contracts", "solidity")],
 na="no Solidity compiler and no EVM are in the sandbox: the compiler's intermediate representation cannot be produced and a counterexample could not be replayed against the real code")
