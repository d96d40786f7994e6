# (id, title, statement, quantifier, ...) of every property; executed by mkdocs.py
DE, SER, RX, WX = BP + "de.rs", BP + "ser.rs", BP + "read_ext.rs", BP + "write_ext.rs"
LO, LAY, TRV = BP + "loose_deserializer.rs", BP + "value/layout/mod.rs", BP + "value/layout/traverse.rs"
TY = "every supported serde type (unit, bool, char up to U+00FF, integers, floats, strings, options, sequences, tuples, structs, newtypes, enums, polymorphic variants, and nestings of them)"
NB = "Model: exhaustive within the stated bounds. Code: every enumerated behaviour is executed, plus seeded random ones validated by TLC. Trusts TLC, the harness' dynamic serde types and, beyond the bounds, sampling."

prop("C01", "Typed encoding writes exactly the bin_prot bytes of the value",
     "Serializing a value of any supported type writes exactly the byte sequence the bin_prot format prescribes for it, and nothing else: unit 00; bool 00/01; char one byte; u8 one byte; other integers in the unique shortest form (00-7f, ff+1, fe+2, fd+4, fc+8 bytes little endian, lengths as unsigned Nat0 with the same codes but no ff); IEEE floats little endian; strings and sequences prefixed with their length; None 00 / Some 01+value; enum variants by a one byte index; polymorphic variants by the 4 byte tag; tuples, structs and newtypes as the plain concatenation of their fields in order. Values written one after the other with one serializer are concatenated.",
     ["inputs"], "over every value of " + TY, "Tests write a handful of fixed values; width boundaries, nesting and lengths are unbounded.",
     [SER, WX], [("Serializer", SER), ("variable length integer writer", WX)], ["bin_prot::to_writer", "Serializer"], NB)
prop("C02", "Typed encode/decode round trip is lossless",
     "For every value of a supported type, decoding the bytes produced by encoding it (with from_reader or from_reader_strict) yields an equal value and consumes exactly those bytes; and whatever decoding accepts, re-encoding what it returned gives bytes, not longer than the accepted ones, that decode to the same value. Integers must survive over the full range of their type, except u64 above i64::MAX.",
     ["inputs"], "over every value of " + TY, "Round trip tests sample few values; symmetric mistakes in reader and writer at a boundary are invisible to them.",
     [DE, SER, RX, WX], [("Serializer", SER), ("Deserializer", DE)], ["bin_prot::to_writer", "bin_prot::from_reader"], NB)
prop("C03", "Typed decoding accepts exactly the format and returns the denoted value",
     "Decoding any byte string as any supported type either returns exactly the value those bytes denote and consumes exactly that value's bytes, or returns an error of the class the malformation calls for (InvalidByte for a bad bool/unit/option byte, InvalidIntegerByte for an unknown integer code, DestinationIntegerOverflow for a number that does not fit the destination, UnknownPolyvarTag, Custom for an unknown variant index, Io for truncated input or a string that is not UTF-8). Longer than necessary integer forms are accepted with the value they denote. The first value of a stream decodes the same whatever follows it, so several values can be read one after the other from one deserializer.",
     ["inputs", "histories"], "over all byte strings and " + TY, "Tests decode a few well formed strings; the rejection side and every boundary of the integer codes are unbounded.",
     [DE, RX, BP + "error.rs"], [("Deserializer", DE), ("BinProtReadExt", RX)], ["bin_prot::from_reader", "Deserializer"], NB)
prop("C04", "Typed decoding of hostile bytes never panics, hangs or exhausts memory",
     "Decoding arbitrary, truncated or malicious bytes as any supported type always terminates with a value or an error: it never panics, aborts or loops, and the memory it uses is bounded by the bytes actually present, not by a length the input merely claims.",
     ["inputs"], "over all byte strings and " + TY, "Tests contain no hostile lengths; totality quantifies over all inputs.",
     [DE, RX], [("bounded reads of strings", RX), ("lazy sequence access", DE)], ["bin_prot::from_reader under a memory limit"], NB + " Memory limit 2 GB per harness process.")
prop("C05", "Strict decoding succeeds exactly when the value consumes the whole input",
     "from_reader_strict returns the value if and only if the input is precisely one encoding of a value: with any trailing byte it reports StreamNotFullyConsumed, with any missing byte the error decoding reports. The answer does not depend on how many bytes each read of the underlying source delivers or on the size of the value.",
     ["inputs", "schedules"], "over all byte strings, types, and ways a reader can deliver the bytes", "Tests use in-memory slices of a few bytes; the interesting cases are at the boundary of the read buffer.",
     [DE], [("from_reader_strict", DE)], ["bin_prot::from_reader_strict"], NB)
prop("C06", "Results do not depend on I/O chunking; I/O faults are reported, never swallowed",
     "Encoding to a writer that accepts any number of bytes per call, or is interrupted, delivers exactly the same bytes as encoding to memory; decoding from a reader that delivers any number of bytes per call, or is interrupted, gives exactly the same result as decoding from memory. A hard I/O error or a writer that stops accepting bytes surfaces as an error, with only a prefix of the correct bytes delivered, and a reader error is never turned into a value that used bytes it did not get.",
     ["schedules", "fault_sequences", "inputs"], "over all sequences of short, interrupted and failing reads and writes, and all values", "All tests use in-memory buffers, which never do short reads or writes.",
     [WX, RX, DE, SER], [("write_all / read_exact discipline", WX), ("BufReader", DE)], ["bin_prot::to_writer on a scripted writer", "bin_prot::from_reader on a scripted reader"],
     "Model: every fault script up to the bound. Code: each script run with several values; results validated by TLC and compared with the fault free run.")
prop("C07", "Layout-driven decoding yields the described value and re-encodes identically",
     "Decoding bytes into a dynamically typed Value under a layout returns exactly the value the layout describes (variant and field names, indices and tags included), consuming exactly its bytes, or an error for bytes the layout does not admit; Reference rules are followed, and Custom rules are read as the Pickles vectors or 32 byte field elements their module path stands for. Serializing any such Value writes the canonical bytes of the same data, so canonically encoded input is reproduced byte for byte, real Mina blocks included.",
     ["inputs", "configurations"], "over all layouts built from the supported rules, all byte strings, and all Values", "Tests use a dozen hand written layouts and one block.",
     [LO, LAY, TRV, BP + "value/mod.rs", BP + "value/ser.rs", BP + "value/visitor.rs", BP + "value/enum_data.rs"],
     [("BinProtRuleIterator", TRV), ("loose Deserializer", LO), ("Value serializer", BP + "value/ser.rs")], ["Deserializer::with_layout", "Value::deserialize", "bin_prot::to_writer(Value)"], NB)
prop("C08", "Layout-driven decoding is total on any layout and any bytes",
     "For every layout that parses, and every byte string, layout-driven decoding terminates with a value or an error: an out of range variant index, an unsupported or unresolved rule, an unknown custom type, an invalid summand index or an enormous claimed length never panics, loops or consumes memory beyond what the bytes present justify.",
     ["inputs", "configurations"], "over all layouts (supported rules or not) and all byte strings", "Tests only decode matching data.",
     [LO, TRV, LAY], [("error paths of the loose Deserializer", LO), ("counted stack frames", TRV)], ["Deserializer::with_layout under a memory limit"], NB + " Real blocks are additionally cut and damaged at random places.")
prop("C09", "A compiled type read under a matching layout gives the typed result",
     "Decoding a Rust type (primitives, options, lists, tuples, tuple structs, records with named fields, nested, behind references) with a layout that describes it accepts the same bytes, returns the same value and consumes the same number of bytes as decoding that type without a layout.",
     ["inputs", "configurations"], "over the listed pairs of type and matching layout and all byte strings", "One test mixes a layout with a struct.",
     [LO, DE], [("visitor dispatch by rule", LO)], ["Deserializer::with_layout", "from_reader"], NB)
prop("C10", "Polymorphic variants are written and selected by the hash of their label",
     "An enum renamed to Polyvar is written as the 4 byte little endian number 2*h+1, where h is OCaml's 31 bit hash of the variant's label (h := 223*h + c over its ASCII characters), followed by its payload; decoding selects exactly the variant whose ASCII label has the tag's hash, independent of declaration order and of other variants, and reports UnknownPolyvarTag for any other tag. Labels of up to four ASCII characters are covered.",
     ["inputs", "configurations"], "over all sets and orders of labels of at most four ASCII characters (and non-ASCII neighbours), payload shapes and wire tags", "Tests use one enum of three labels.",
     [BP + "polyvar/caml_hash_variant.rs", DE, SER, RX, WX], [("caml_hash_variant", BP + "polyvar/caml_hash_variant.rs"), ("PolyvarEnum", DE)], ["to_writer", "from_reader", "caml_hash_variant"], NB)
prop("C11", "Layout documents parse to exactly the rules they describe or are refused",
     "A layout document in yojson form (a list of constructor name and arguments, objects with the documented keys) is parsed to the rule tree it describes, with nothing lost, swapped or defaulted except the optional source_module_path, bin_io_derived of references and version_opt; an unknown constructor, a wrong number or kind of arguments, or a missing key anywhere in the document is an error. Unknown object keys are ignored.",
     ["inputs", "configurations"], "over all documents built from witnesses of every rule, nested in every container, with any single element damaged, dropped, added or replaced", "Tests parse valid documents only.",
     [LAY, BP + "value/layout/list_tagged_enum.rs"], [("ListTaggedEnum conversion", LAY)], ["serde_json::from_str::<BinProtRule>", "serde_json::from_str::<Layout>"], NB)
prop("C12", "Indexing a Value reaches exactly the addressed component",
     "Indexing a Value by position returns that element of a list or tuple (or of the list or tuple directly inside a sum), indexing by name the first so named field of a record (or of the record directly inside a sum). When there is no such component, or the Value is of any other kind, the checked interface returns None and the [] operator panics; indexing by a String or by a reference to a key equals indexing by the key. Revealing an option gives its content or None, and panics on any other kind.",
     ["inputs"], "over all Values and all paths within the bounds", "Tests index two records.",
     [BP + "value/index.rs", BP + "value/mod.rs"], [("Index trait", BP + "value/index.rs")], ["Value indexing", "Index::index_into"], NB)
prop("C13", "The primitive reader and writer API round trips and reports what it did",
     "Each primitive writer of the public extension traits writes exactly the format's bytes for its argument and returns the number of bytes it wrote; each primitive reader consumes exactly one primitive and returns the number it denotes, or the error the malformation calls for, for every destination width and signedness.",
     ["inputs"], "over all boundary values and byte strings of every primitive and destination type", "Tests sample powers of two and the README's examples.",
     [RX, WX], [("BinProtReadExt", RX), ("BinProtWriteExt", WX)], ["BinProtReadExt", "BinProtWriteExt"], NB)
VS = "protocol/versioned/src/"
MX = "protocol/serialization-types-macros/src/"
prop("C14", "Version wrappers prefix their declared versions and lose nothing",
     "A value wrapped in one to four version layers is written as the version numbers, outermost first, as bin_prot integers, followed by the value's own bytes; reading keeps the version numbers found on the wire (refusing those that do not fit 16 bits) and the value. Constructing a wrapper by any provided conversion, constructor or default puts each layer's declared version in that layer, and every conversion between a value, its wrappers, newtypes, JSON twins and proxied types, in any sequence, preserves the value.",
     ["inputs", "histories", "configurations"], "over all payloads, version numbers, nesting depths up to 4 and walks through the conversion graph", "One unit test checks the default of a single wrapper.",
     [VS + "lib.rs", VS + "macros.rs"], [("Versioned and its From impls", VS + "lib.rs"), ("conversion macros", VS + "macros.rs")], ["Versioned", "bin_prot::to_writer", "bin_prot::from_reader"], NB)
prop("C15", "Derived conversions carry every field to its namesake and back",
     "For a struct (named or positional fields) or enum deriving AutoFrom, converting to any of its target types, or to a target wrapped in one to four version layers, carries each field's content (plain, Vec, Option, Box, or itself convertible) element by element and in order to the field of the same name or position of the same variant, whatever the declaration order in the target, and sets the declared versions. Converting back yields the original value, and the derive compiles for every such pair of types.",
     ["programs", "inputs"], "over generated type shapes (field kinds, counts and orders; variant shapes and orders), values, targets and version depths", "The tests derive it for three hand written types.",
     [MX + "auto_from.rs", MX + "lib.rs"], [("code generation", MX + "auto_from.rs")], ["From/Into between derived types"],
     "Model: all shapes within the bounds. Code: a Rust crate with all these types is generated, compiled with the real macro and executed on the model's values.")
prop("C16", "The layout reader command prints exactly the decoded value or fails",
     "Given a layout and a file with either raw bytes or their hexadecimal text (a file of an even number of hex digits only is text), the layout reader prints to standard output, or writes to the output file if one is named, the value the layout describes, and exits successfully. If the layout or data cannot be read, or --roundtrip is given and re-encoding does not reproduce the input to the last byte, it exits unsuccessfully and prints no value.",
     ["inputs", "configurations"], "over layouts, file contents in every form, and command line options", "The command has no tests.",
     ["apps/bin-prot-layout-reader/src/main.rs"], [("main", "apps/bin-prot-layout-reader/src/main.rs")], ["process exit status, stdout, output file"],
     "Every behaviour of the model is executed as a process built from the real source.")
prop("C17", "The bin_prot checker command writes its samples and reads any value of them",
     "For each of its tests (nat0, bool, int, int32, int64, enum, record, variant) the checker's serialize command writes exactly the bin_prot bytes of the documented sample to standard output, or to the named file (replacing what it held) while reporting their number, and fails if they cannot be written; its deserialize command prints exactly the value that the bytes from standard input or the file denote, and fails without printing a value if they denote none or cannot be read.",
     ["inputs", "configurations"], "over all tests, both directions, pipes and files, and byte strings", "An interop shell script needs OCaml and is not run.",
     ["protocol/bin_prot_checker/src/main.rs"], [("main", "protocol/bin_prot_checker/src/main.rs")], ["process exit status, stdout, file"],
     "Every behaviour of the model is executed as a process built from the real source.")
MT = "merkle/src/"
ST = " Dependencies that cannot be built here (proof-systems, ark-ff) are replaced by the stand-ins in harness/stubs; hashes are idealised."
prop("C18", "A Merkle root is a function of the leaves and the height, nothing else",
     "After any sequence of single and batched additions, root requests and proof requests, the root, height and leaf count of a Merkle tree are those of the list of leaves added so far: the root is the hash obtained by hashing each leaf with the hasher and merging pairs level by level with the merger (absent neighbours passed as None, node metadata giving the height above the leaves), up to the height that the leaves need or, for a fixed height tree, up to that height; an empty tree has no leaf hash. It does not depend on how additions were batched, on the capacity asked for, or on when roots or proofs were computed, for every merger, including ones that return None for empty subtrees. The Poseidon mergers replace an absent child by the hash of the empty subtree of that height.",
     ["histories", "inputs"], "over all histories of additions, root requests and proof requests, tree modes and mergers that look at hashes and heights", "Tests ask for the root once, after all additions; stale caches need a second request.",
     [MT + "tree_impl.rs", MT + "merger_poseidon.rs", MT + "hasher_poseidon.rs", MT + "tree.rs", MT + "metadata.rs"],
     [("lazy evaluation and invalidation of node hashes", MT + "tree_impl.rs"), ("Poseidon mergers", MT + "merger_poseidon.rs")], ["MerkleTree::root", "MerkleTree::height", "MerkleTree::count"],
     NB + ST + " Hashers and mergers that look at the depth are out of scope.")
prop("C19", "Merkle proofs verify for exactly the leaf and place they were made for",
     "get_proof of any leaf of a tree of at least two levels returns a proof naming the leaf's node index and the indices of the sibling on every level, which evaluates to the tree's current root and verifies against it; a tree without leaves or of height zero has none. Evaluating any proof, genuine or forged, terminates with a hash or an error: one whose index is zero, whose siblings are not exactly those on the way from the index to the root, or whose lists differ in length is an InvalidProof/InvalidIndex error and never verifies; with collision free hashes any proof that verifies shows an item that really is at that place of the tree.",
     ["inputs", "histories"], "over all trees, leaves, histories and forged proofs within the bounds", "Tests verify genuine proofs of a few trees.",
     [MT + "tree_impl.rs", MT + "proof.rs"], [("get_proof", MT + "tree_impl.rs"), ("DefaultMerkleProof", MT + "proof.rs")], ["get_proof", "MerkleProof::root_hash", "MerkleProof::verify"],
     NB + ST + " The merger repeating the left child makes its padding provable as well.")
prop("C20", "Published Merkle paths convert to exactly the proof they describe",
     "A Merkle path (from leaf to root, each step holding the sibling's hash under left if the path's node is the left child, under right otherwise) converts to the proof with the node index and sibling indices that the sides spell out, and the hashes in order; a path that is empty, has a step with both or no hash, or is too long for a node index is reported as an error. Paths survive JSON unchanged. Node metadata gives the exact depth and height for every node index, and the hash prefixes carry the height in three digits.",
     ["inputs"], "over all paths up to the bound and paths of any length along the edges, and node indices at the edges of all levels", "Tests convert two paths of 20 steps.",
     [MT + "path.rs", MT + "metadata.rs", MT + "prefixes.rs"], [("MerklePath::to_proof", MT + "path.rs"), ("MerkleTreeNodeMetadata", MT + "metadata.rs")], ["MerklePath::to_proof", "MerkleTreeNodeMetadata::new"], NB + ST)
CO = "consensus/src/common.rs"
prop("C21", "Fork choice adopts the better chain, whole, by the published rule",
     "select_secure_chain weighs the candidates in order against the current chain and leaves the current chain equal to one of the chains offered, complete and unchanged: for a short range fork the longer chain (blockchain length of the top block) wins, ties going to the larger hex digest of the last VRF output and then to the larger state hash, full ties keeping the current chain; for a long range fork a candidate whose window does not have exactly 11 sub windows or has one denser than 7 slots is ignored, otherwise the larger relative minimum window density wins and ties are settled like a short range fork. For mutually short range chains the outcome is therefore the best one, independent of the order of candidates. An empty chain on either side is the error ConsensusStateNotFound; nothing in the blocks, however extreme, makes selection panic.",
     ["inputs", "histories"], "over all tips and lists of candidates of the enumerated boundary classes", "Tests choose between few mainnet snapshots; ties, extreme values and lists are not covered.",
     [CO], [("ChainSelection for ProtocolStateChain", CO)], ["select_secure_chain", "select_longer_chain"], NB + ST + " VRF digests and state hashes are represented by their ranks.")
prop("C22", "Fork range and relative window density follow from the two tips",
     "is_short_range holds exactly if both tips are in the same epoch and agree on the staking epoch's lock checkpoint, or one is exactly one epoch ahead, the other is in the last third of its epoch (from two thirds of slots per epoch on), and the former's staking lock checkpoint is the latter's next lock checkpoint; it does not depend on the order of the chains. The relative minimum window density is the chain's minimum window density while both are inside the grace period (slot 1440), else the smaller of that and the sum of its sub windows after clearing those that elapsed up to the later of the two slots (at most 11), CandidatesMissingSubWindowDensities if one to be cleared is missing. Both are defined for all u32 values, slots per epoch 0 included.",
     ["inputs"], "over all pairs of tips of the enumerated boundary classes", "Tests evaluate a handful of snapshots.",
     [CO], [("is_short_range", CO), ("relative_min_window_density", CO)], ["is_short_range", "relative_min_window_density"], NB + ST + " The number of cleared sub windows is as built, see the known finding.")
prop("C23", "A chain grows only by successors and describes its own top",
     "push accepts a block exactly if the chain is empty or the block's height is one more than the top's, otherwise it reports InvalidHeight and leaves the chain as it was; accepted blocks are never changed or dropped. At all times top, genesis_block, length, consensus_state, global_slot, epoch_slot, last_vrf_hash_digest and state_hash are those of the last (first) block, or none for the empty chain, epoch_slot being slot modulo slots per epoch where that is defined.",
     ["histories", "inputs"], "over all sequences of pushes up to the bound, with heights and slots at the edges of u32", "Tests push three blocks.",
     [CO, "base/src/protocol_state.rs"], [("ProtocolStateChain", CO), ("ProtocolStateHeader", "base/src/protocol_state.rs")], ["ProtocolStateChain::push", "top", "epoch_slot", "length"], NB + ST)
NP = "network/src/processor/"
prop("C25", "The frontier keeps the secure tip of the valid blocks, with its ledger",
     "After any sequence of blocks the best chain's tip is what fork choice (C21) selects when each block that verifies is weighed, in the order added, against the tip so far; the first valid block is the first tip, whatever length it claims. A block with an invalid command is an error and changes nothing; a block that cannot be weighed is an error and leaves the tip. On berkeley the sparse ledger is always exactly the Merkle proofs that came with the block that is the tip: adopted with it and untouched by blocks that are not adopted. Once there is a tip there always is one, and no sequence makes add_block panic.",
     ["histories", "inputs"], "over all sequences up to the depth of a pool of blocks covering every outcome of fork choice, valid and not, and random long ones, for both kinds of frontier", "Two tests add two fixture blocks each.",
     ["network/src/processor/naive_transition_frontier.rs"], [("NaiveTransitionFrontier", "network/src/processor/naive_transition_frontier.rs")], ["TransitionFrontier::add_block", "get_best_chain", "get_sparse_merkle_ledger"],
     NB + ST + " The module is compiled from its own source, since the rest of the network crate needs libp2p.")
prop("C26", "Blocks reach the frontier in order, requests the network, and none waits forever",
     "While the message processor runs, every block sent to it that converts is handed to the transition frontier exactly once, in the order sent, one at a time, and one that does not convert is dropped without stopping anything; every block request the frontier makes reaches the network exactly once and unchanged, in order, one at a time. A failing add_block or query_block stops neither loop. Whenever the frontier is not adding a block it takes the next one if there is one and can be read, whenever the network is not answering it takes the next request; there is no schedule in which the frontier (waiting to place a request) and the network (waiting to deliver its answer) wait for each other.",
     ["schedules", "histories", "faults"], "over all interleavings of arriving blocks, frontier steps, network answers and failures up to the depth, and random long ones", "Two tests follow one schedule each, without failures or contention.",
     [NP + "processor_impl.rs", NP + "mod.rs"], [("NetworkMessageProcessor", NP + "processor_impl.rs")], ["TransitionFrontier::add_block", "NonConsensusNetworkingOps::query_block", "NetworkMessageProcessor::transition_frontier"],
     NB + ST + " The module is compiled from its own source, since the rest of the network crate needs libp2p.")
UC = "base/src/user_commands/"
IS = NB + ST + " Signatures are idealised: nothing but signing an input by a key for a network yields its signature."
prop("C24", "A command verifies only as signed: same payload, signer and network",
     "A payment or delegation signed by a key for a network verifies on that network, and verification fails if any field of the payload (fee, fee token, fee payer, nonce, valid until, memo, kind, source, receiver, token, amount), the signer, either part of the signature, or the network is different: what is signed is the legacy input listing every field at its full width in the fixed order, under the network's own domain. A command whose signer is no point of the curve is invalid. A block is valid exactly if every command of both parts of its staged ledger diff is. Verification never panics and asking twice gives the same answer.",
     ["inputs", "histories"], "over commands of both kinds with boundary values in every field, every single change to them, and blocks of valid and invalid commands", "Tests sign four payments and change one field of them; delegations and blocks are not covered.",
     [UC + "signed_command/mod.rs", UC + "mod.rs", "base/src/staged_ledger_diff.rs", "base/src/external_transition.rs"],
     [("Hashable for SignedCommandPayload", UC + "signed_command/mod.rs"), ("Verifiable", "base/src/staged_ledger_diff.rs")], ["SignedCommand::verify", "ExternalTransition::verify", "to_roinput"], IS)
prop("C27", "Transfers are built as asked, and memos keep their text",
     "SignedTransferCommandBuilder yields the payment with exactly the given source, receiver, amount, fee and nonce, and for every option (token, fee token, fee payer, memo, valid until) the value given or else its default: token 1, fee paid in token 1 by the source, valid for ever, the memo of the empty text; the order in which options are given does not matter. try_from_text makes of at most 32 bytes the 34 byte memo of tag 1, length, text and zeros, whose text reads back unchanged, and refuses longer texts; reading the text of any memo, however malformed, yields the part of the claimed text that is there.",
     ["inputs", "configurations"], "over all sets of options and texts and memos of every length class", "One memo is tested.",
     [UC + "memo.rs", UC + "signed_command/builder.rs"], [("SignedTransferCommandBuilder", UC + "signed_command/builder.rs"), ("SignedCommandMemo", UC + "memo.rs")], ["build", "try_from_text", "to_text"], NB + ST)
prop("C28", "GraphQL documents are read field by field, and nothing else is",
     "The protocol state or account read from a GraphQL document has in every field exactly the value of that field's own leaf: no leaf is read for another, and values over the whole range of the type are kept exactly. A document is refused with an error, never a panic, if a leaf is missing, null, of another JSON type, out of range, no number, base58 of another kind or with a bad checksum, or too short or too long; only a missing flag (false), delegate (none) and timing (untimed) may be missing; an account with a vesting schedule that is unreadable in part is refused or untimed, never given parts the document does not state. The answer to a block request is the protocol state of its first block, and for every address the Merkle proof its path says, from leaf to root; other keys are ignored, and an answer without block, or with a malformed path, leaf hash or address is refused.",
     ["inputs"], "over documents with up to two deviating leaves or objects of every class, and answers with paths of every shape", "Tests read two fixture documents; malformed ones and the account's permissions are not covered.",
     ["base/src/protocol_state.rs", "base/src/from_graphql_json.rs", "base/src/account/mod.rs", "base/src/account/permissions.rs", "merkle/src/path.rs", "network/src/processor/js/graphql_api_berkeley.rs"],
     [("FromGraphQLJson", "base/src/from_graphql_json.rs"), ("FromGraphQLJson for PermissionsImpl", "base/src/account/permissions.rs")],
     ["from_graphql_json", "fp_from_radix_10", "FromStr / Deserialize of hashes"], NB + ST)
prop("C29", "State, account and block hashes commit to every field",
     "The random oracle input of a protocol state (legacy and berkeley), its body and parts, and an account lists every field, each at its full width, in the fixed order: field elements apart, numbers and flags as bits of known width, so that states that differ in a committed field have different inputs. Legacy inputs keep all bits; chunked inputs gather packed values into field elements, the earlier in the higher bits, as many as fit below the field's size, so that no bit is lost and none overlaps, however the input was put together. The state hash is the hash of the previous state's hash and the body's hash under the right domains, and the hash of an account that of its input.",
     ["inputs"], "over states and accounts with boundary values in every field, every single change to them, random ones, and inputs of every mix of widths up to the depth", "Tests compare the hashes of two fixture blocks and a few parts.",
     ["consensus/src/common.rs", "base/src/protocol_state.rs", "base/src/blockchain_state.rs", "base/src/consensus_state.rs", "base/src/epoch_data.rs", "base/src/account/mod.rs", "proof-systems-shim/src/roinput.rs"],
     [("Hashable for ProtocolState", "base/src/protocol_state.rs"), ("ChunkedROInput", "proof-systems-shim/src/roinput.rs")], ["to_roinput", "to_chunked_roinput", "state_hash_fp", "into_fields"],
     NB + ST + " Hashes are idealised (an injective oracle of the input); states have 11 windows and a VRF output of 32 bytes.")
SC = "protocol/serialization-types/src/"
prop("C30", "A text stands for one value, written so that it reads back",
     "Amounts (Display/FromStr and JSON), 32 and 64 bit numbers, field elements in decimal and hexadecimal, vectors of them, single byte characters, byte strings and base64 have one text per value, as specified, which reads back as exactly that value; what cannot be written (bytes that are no UTF-8) is an error. Reading gives exactly the value a text means, or an error: a number above the type's range, more than nine decimals (unless zeros), signs or other characters inside, hex digits of any other number than the type takes, characters of more than one byte are never read as something else. Neither reading nor writing panics or wraps around.",
     ["inputs"], "over all short texts of an alphabet of digits, signs, dots and odd characters, composed long numbers at the edges of every range, hex of all lengths around the right ones, and all short byte strings at the edges of UTF-8", "Tests read about ten well formed amounts and one hex string.",
     ["base/src/numbers.rs", SC + "common.rs", SC + "field_and_curve_elements.rs", SC + "consensus_state.rs", "base/src/protocol_state_proof/field_and_curve_elements.rs", "proof-systems-shim/src/fp.rs", "crypto/src/hash/types.rs"],
     [("FromStr for Amount", "base/src/numbers.rs"), ("DecimalJson, U32Json, U64Json, CharJson, ByteVecJson", SC + "common.rs"), ("FieldElementJson", SC + "field_and_curve_elements.rs"), ("FpJson", "proof-systems-shim/src/fp.rs")],
     ["Amount::from_str", "to_string", "serde_json::from_str / to_string of the Json types", "try_from_hex", "Field::from_str_radix"], NB + ST)
prop("C31", "A base58 text is of one kind: no hash, key, memo or signature is read as another",
     "State, state body, ledger, chain, coinbase, seed and VRF hashes, staged ledger auxiliary hashes, coinbase stack data and hashes, memos, VRF outputs, signatures and public keys are written as base58check with their kind's version byte and read back unchanged, by FromStr/Display and JSON alike. A text is read as a kind exactly if it has that kind's version byte, a right checksum and a payload of the kind's length; anything else (another kind's text, a changed, swapped, missing or additional character, white space, a shorter or longer payload, the empty text) is an error, never a panic.",
     ["inputs"], "over every kind read against texts of every kind and of unassigned versions, payloads of all lengths around the right one, and up to two ways at a time in which a text is spoilt", "Tests read one well formed text each of six kinds.",
     ["crypto/src/hash/types.rs", SC + "common.rs", SC + "version_bytes.rs", SC + "signatures.rs", SC + "staged_ledger_diff.rs", SC + "consensus_state.rs", "base/src/user_commands/memo.rs"],
     [("Base58EncodableVersionedType, Base58EncodableType", SC + "common.rs"), ("version bytes", SC + "version_bytes.rs"), ("SignatureJson, PublicKeyJson", SC + "signatures.rs")],
     ["from_str", "to_string", "from_base58", "to_base58_string", "serde JSON"], NB + ST + " Ledger and chain hashes share a version byte in the code, as do VRF hashes and outputs; the byte inside the payload that gives a hash's version is not decided.")
prop("C32", "A block is the same document on the wire, typed, as a block and in JSON",
     "A block document of the wire layout (protocol/layouts/external_transition.json) can be read into the typed value, the block of the node and its JSON form, and written back from each to the very bytes it came from, by every way through the representations, whatever its choices (commands of both kinds, failed or applied, coinbases, optional parts, points at infinity) and values. Its JSON form is Mina's: fields and choices under the layout's names, each value in the text form of its kind; and the JSON of such a document is read as that document. Only the protocol versions, which have no place in JSON, come back from it as the default. A document with a value some representation cannot hold is refused with an error there, without a panic, and never taken as another document; kinds of commands the code has no type for may be refused.",
     ["inputs", "histories"], "over every class of value at every place of the layout, generated documents holding every choice of it, all blocks of the fixtures, and every walk between the representations up to the depth", "Tests convert a dozen recorded blocks, in which no command failed, no coinbase has two parts and no point is at infinity.",
     [SC, "base/src/external_transition.rs", "base/src/staged_ledger_diff.rs", "base/src/protocol_state.rs", "base/src/protocol_state_proof", "protocol/serialization-types-macros/src/lib.rs"],
     [("impl_from_with_proxy, auto_from", "protocol/serialization-types-macros/src/lib.rs"), ("impl_mina_enum_json_serde", SC + "macros.rs"), ("CoinBase, TransactionStatus", SC + "staged_ledger_diff.rs")],
     ["try_from_binprot / try_into_binprot", "try_from_json / try_into_json", "bin_prot::from_reader_strict / to_writer of ExternalTransitionV1"],
     NB + ST + " Keys are points the fixtures know (the stand-in has no square roots beyond them).")
prop("C33", "Foreign block documents are refused with an error, in JSON as on the wire",
     "Reading bytes that are no block document of the layout (a byte changed, missing or too many, a length or count that cannot be) ends in an error, never a panic, a hang or memory exhaustion; bytes that are taken are the document they are: it is written back saying the same at every place. Reading JSON with any one place replaced by a value of another shape, taken away, there twice or holding more than it may ends in an error, unless the result is a document of the right shape (null for an optional value, an element more or less of a list, an unknown field); what is taken is written in a form that reads back as the same block for ever.",
     ["inputs", "histories"], "over every place of generated documents, every shape of value put there, and bytes changed, cut and added at random places and at the start of every kind of place", "No test reads a malformed block.",
     [SC, "base/src/external_transition.rs", SC + "macros.rs", "protocol/bin-prot/src/de.rs"], [("impl_mina_enum_json_serde_with_option", SC + "macros.rs"), ("Deserializer", "protocol/bin-prot/src/de.rs")],
     ["try_from_json", "serde_json::from_str::<ExternalTransitionJson>", "from_reader_strict::<ExternalTransitionV1>"], NB + ST)
SB, LG = "secrets/src/secret_box/", "ledger/src/"
prop("C34", "A wallet opens with its password only, and gives the key that was sealed",
     "A wallet file (SecretBox JSON) opens with a password iff it names the two primitives, its nonce, salt and ciphertext are well formed base58check of version 2, its sizes and costs mean something, and the ciphertext is exactly what sealing under that password, salt, nonce and costs gives; then the key bytes (less their version byte) and, if they are a scalar in 32 bytes, the key pair are exactly those sealed. Any other password, and any change of the ciphertext, nonce, salt or costs beyond the bytes short of a whole KiB, is refused with an error; never a panic or a hang. An imported wallet is written again as the same document.",
     ["inputs"], "over passwords, wallet documents, and every combination of two changes to a document", "Tests open one wallet with its password and one other.",
     [SB + "types_impls.rs", SB + "utils.rs"], [("SecretBox::get_private_key_bytes", SB + "types_impls.rs"), ("base58_decode", SB + "utils.rs")],
     ["SecretBox::try_from", "get_private_key_bytes", "get_keypair", "try_into JSON"], NB + " Argon2 and XSalsa20-Poly1305 are stand-ins that compute the real functions (the repository's real wallet opens); key pairs are the stand-in's.")
prop("C35", "A genesis ledger is exactly the accounts of its database, in their order",
     "Walking the accounts of a RocksDB genesis ledger yields, in the order of the keys starting with fe, for each entry the account its document denotes (legacy and berkeley formats), or an error in its place if it is no whole account document; entries under other keys are not accounts. A failure to read the database is reported, not taken for the end. The Merkle ledger made of a database whose accounts all read has the root of the tree over exactly those accounts in that order. Account documents are read to the fields they state and written back to the same bytes; cut, extended and meaningless ones are refused.",
     ["inputs", "fault_sequences"], "over account documents of both formats with every field at its boundaries, databases of a few entries under all kinds of keys, and the place at which reading fails", "Tests read two databases without faults.",
     [LG + "rocksdb_genesis_ledger.rs", LG + "genesis_ledger.rs", "protocol/serialization-types/src/account.rs", "base/src/account/mod.rs"],
     [("RocksDbGenesisLedger::into_iter", LG + "rocksdb_genesis_ledger.rs"), ("Account", "protocol/serialization-types/src/account.rs")],
     ["GenesisLedger::accounts", "to_mina_merkle_ledger", "to_mina_merkle_ledger_legacy", "Account / AccountLegacy from and to bin_prot"], NB + ST + " RocksDB is an in-memory ordered map with scripted failures; the two real databases are read from their write ahead logs.")
NJ = "network/src/processor/js/"
prop("C36", "A page's network asks what it must and hands every answer on, once",
     "A poll of a page's network asks for what it has to ask for and no more: the legacy one for the list of the latest blocks and then each of them in order, the berkeley one every endpoint of the list once for its best chain with all tracked accounts. Every document that arrives reaches the frontier exactly once and unchanged, in the order it arrived, however small the channel; one that fails to arrive or does not parse keeps none of the others from being asked for and handed over, and where an answer is missing the poll says so. A closed or unset frontier is an error or a silent no-op, never a panic. The page's own requests are tried a bounded number of times until one succeeds, name exactly the block, endpoint or accounts asked about, select everything the reader of the answer needs, and give the answer as the network gave it.",
     ["histories", "fault_sequences", "inputs"], "over histories of setting up, polling and querying, lists of endpoints and blocks, outcomes of each question, capacities of the channel, and outcomes of each try of a request", "The repository's tests of these parts use the live networks; failures in the middle of a list cannot be sampled there.",
     [NJ + "graphql_api_berkeley.rs", NJ + "graphql_api_v1.rs", "network/js/graphql_berkeley_utils.js", "network/js/graphql_v1_utils.js"],
     [("NonConsensusGraphQLBerkeleyBackend", NJ + "graphql_api_berkeley.rs"), ("NonConsensusGraphQLV1Backend", NJ + "graphql_api_v1.rs"), ("retrying fetches", "network/js")],
     ["NonConsensusNetworkingOps::query_block / query_latest_blocks", "the exports of network/js"], NB + " The part for wasm32 is compiled for the host against stand-ins of wasm-bindgen and js-sys; network/js runs under node with a scripted fetch.")
WP, WM = "apps/wasm/mina-berkeley/src/", "apps/wasm/mvp/src/"
prop("C37", "What a page sends to its node says exactly what the page asked for",
     "Locking, unlocking, paying from and looking up an account through a page sends at most one request, to the node's address, and a GraphQL reader of it finds the one operation called with exactly the fields the page gave: every text whatever characters it holds (a password is never read as further fields or operations), fee and amount as the same 64 bit number whether given as number, bigint or text, nonce, memo and valid-until if given. A field that is no such number is refused before anything is sent. The page gets the node's JSON answer unchanged; a node that cannot be reached, breaks off or answers in something else than JSON is an error of the call, never a panic.",
     ["inputs", "histories", "fault_sequences"], "over all texts and numbers a page can put in the fields of the calls, outcomes of the request, and sequences of calls", "The exports have no tests; texts with quotes and the ends of the number ranges are unbounded.",
     [WP + "js_exports.rs", WP + "payment.rs", WM + "payment.rs", WP + "utils.rs", WM + "utils.rs"], [("lock_account, unlock_account, send_payment", WP + "js_exports.rs"), ("Payment", WP + "payment.rs"), ("account_info", WM + "payment.rs")],
     ["lockAccount, unlockAccount, sendPayment, accountInfo against a scripted node"], NB + " The exports are compiled for the host against stand-ins of wasm-bindgen and reqwest; the bit of JavaScript that comes with them runs under node.")
BC = "apps/tools/blocks-crawler/src/"
prop("C38", "The crawler's folders say of every listed block what it is, whatever happens",
     "After a run of the block crawler every listed block whose document arrived has one verdict: its document (without scheduled_time) lies in succeeded if it is a block the code can read, in failed if not; one that did not arrive (no connection, an HTTP error, a broken or non-JSON answer) has none, and an old failed verdict of a listed block is gone. A block found good before is neither asked for again nor touched. No block, however it is named, listed or answered, keeps the others from being judged; no more than the given number are asked for at a time. A verdict file is whole or absent: when the crawler dies or cannot write at any point, the next run completes what it left.",
     ["inputs", "schedules", "crash_points", "fault_sequences"], "over listings with repeats, outcomes of each block, verdicts of earlier runs, concurrency, answers in any order, and death or failure at any write", "The tool has no tests; crashes and failing downloads in the middle of a crawl cannot be sampled by them.",
     [BC + "blocks.rs", BC + "main.rs"], [("check_block", BC + "blocks.rs"), ("write_json", BC + "blocks.rs"), ("for_each_concurrent", BC + "main.rs")],
     ["the program blocks-crawler: its requests and the files it leaves"], NB + " The program is built against a scripted stand-in of reqwest; death in a write is a file size limit.")
GE = "consensus/src/genesis/"
prop("C39", "A network's first block is what its configuration says, and starts a chain",
     "The first block made of a genesis configuration carries every part of the configuration (constants, ledgers, epoch data, keys, hashes, proofs) in its place and has what every first block has: height 1, epoch and slots 0, the slots per epoch of the constants, a minimum window density of a window without gaps (sub windows times slots per sub window), an ancestor in its window, no transactions, the default protocol version and none proposed. An empty chain takes it, takes no second one and continues with a block of height 2. The configurations built in give the published first blocks: mainnet's and devnet's byte by byte, berkeley's state part by part.",
     ["configurations", "inputs", "histories"], "over all configurations, and the chains begun with their first blocks", "The configuration can only be built inside the crate; the tests look at the one built in, and at some of its parts.",
     [GE + "genesis_impl.rs", GE + "config.rs", CO], [("from_genesis_config", GE + "genesis_impl.rs"), ("MAINNET_CONFIG, DEVNET_CONFIG", GE + "config.rs"), ("berkeley", GE + "genesis_impl.rs"), ("ProtocolStateChain::push", CO)],
     ["ExternalTransition::from_genesis_config and its wire form", "ProtocolState::berkeley", "ProtocolStateChain"], NB + ST + " Configurations are set through a hook (cfg mina_verif). The published block is the fixture of the repository.",
     hook="GenesisInitConfig::verif_from_block")
NP = "network/src/p2p/"
prop("C40", "A page is told every node status that reaches it, once and in order",
     "A connect request that is no request or names no address is refused and nothing is dialled; a dial that fails is answered with no success and a reason. Otherwise the page goes on listening: each peer that connects is asked exactly once, under the node status protocol, for its status; every line of its answer that is a status (base64 of the JSON, spaces and CR around it ignored, further fields ignored) is handed to the page's listener as the PeerStatus message saying the same, in the order of the stream, however the stream is cut into packets; other lines are passed over, and a stream is over where it ends, fails or is no text, without keeping the next peer from its turn. The transport is on the private network of the rendezvous string (Blake2b-256) with its own multiplexer, under one identity; each setting of the builder changes its own part only.",
     ["inputs", "schedules", "fault_sequences", "configurations"], "over requests, outcomes of the dial, events, streams of lines cut anywhere and ended anyhow, and sequences of builder settings", "The page's part has no tests that run without a browser and a live proxy; packet boundaries and broken streams are unbounded.",
     [WM + "lib.rs", WM + "js_exports.rs", NP + "builder.rs", NP + "config.rs"], [("connect_async", WM + "lib.rs"), ("NodeStatusCodec::read_response", WM + "lib.rs"), ("TransportBuilder", NP + "builder.rs"), ("get_shared_key", NP + "config.rs")],
     ["connect and set_event_emitter of the page; TransportBuilder::build"], NB + " libp2p is a scripted stand-in; the messages are generated from the .proto files of the repository by a small generator of ours; the code is compiled for the host as for wasm32.")
FE = "base/src/protocol_state_proof/field_and_curve_elements.rs"
prop("C41", "The proof system gets a block's points and numbers as the block tells them",
     "The numbers and curve points of a block's proof become elements of the proof system's fields and curves without change: 32 bytes, the least first, are the same number in the field of either curve; a finite point has its two coordinates, in their order, and is not at infinity whatever they are; the point at infinity is at infinity; lists and pairs have as many elements, each in its place.",
     ["inputs"], "over all numbers below the modulus of either field, points, lists and pairs of them", "No test converts a point at infinity, a list of more than a few elements, or a second curve.",
     [FE, "base/src/numbers.rs"], [("From<&ECPointVec>, From<&FiniteECPointPairVec>, From<&FieldElementVec>", FE), ("From<&BigInt256>", "base/src/numbers.rs")],
     ["Vec::<GroupAffine>::from(&ECPointVec) and the like"], NB + ST + " Numbers not below the modulus have no element to become (see the finding of C29).")
HOOKS = ["5aa71eb"]
NA = {}
