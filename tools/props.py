TRUST = "All inputs, no bound. Trusted: the symbolic executor and its Go semantics, the SMT solvers, the library models named in the evidence; termination is not proved."

P("K01", "Wide arithmetic, median and slice helpers are exact for every value",
  "The 64x64 to 128 bit multiplication and the 128 by 32 bit division return the exact mathematical result for all operands; minimum, maximum and clamping select the right value. The median of any sequence equals the middle element of the sorted sequence, or the floor of the exact mean of the two middle ones, and is zero for an empty sequence. Uniqueness, sortedness and reversal helpers answer exactly for every slice.",
  ["inputs"], "every 64 bit operand, every non-zero 32 bit divisor, every slice of any length",
  "The tests sample a handful of small numbers; carries between words, values above 2^63 and overflowing means need all operands.",
  ["utils/math.go", "utils/slices.go"],
  [("exact multiply/divide", "utils.Mul128, utils.Div128p32"), ("median", "utils.MedianSlice"), ("min/max/clamp", "utils.MinInt64, MaxInt64, MinUint64, MaxUint64, ClampInt64"), ("slice helpers", "utils.SliceIsUniqueUint32, SliceIsSortedUint32, SliceReverse")],
  observe=["return values"], note=TRUST + " sort.Slice is modelled as a deterministic sorted rearrangement.")

P("K02", "Block reward follows the emission schedule and the block size penalty",
  "The base reward is the remaining supply shifted by the emission speed, never below the tail emission of a year's inflation spread over the year's blocks once the tail takes over. A block larger than twice the effective median size is refused; between one and two medians reward and fees shrink by exactly amount*size*(2*median-size)/median^2, computed without loss in 128 bits; otherwise nothing is taken. The miner's total and the change in emission are consistent: emission change equals the penalised reward minus the fees taken away.",
  ["inputs"], "every supply already generated, median, block size, fee and block version",
  "Tests check a few points of the curve; rounding, the exact threshold and the wide intermediate products need all values.",
  ["config/network.go"],
  [("base reward", "config.Network.calculateReward"), ("size penalty", "config.getPenalizedAmount"), ("reward", "config.Network.GetBlockReward")],
  observe=["return values of the reward calculation"], note=TRUST + " The penalty is specified for median sizes and block sizes that fit 32 bits (the code truncates the divisor to 32 bits).")

P("K03", "Block version and size limits follow the upgrade schedule",
  "For every height the required block version is the one the upgrade schedule of the network prescribes, never falls as the height grows, and depends on nothing else. The difficulty window, timestamp window, future time limit, reward zone, and the maximum block, transaction and fusion transaction sizes are exactly those that the schedule prescribes for each block version and height.",
  ["inputs", "configurations"], "every height, every block version, both networks",
  "The tests query single heights; a boundary off by one or a dependence on map order shows at heights or runs they do not visit.",
  ["config/network.go"],
  [("version schedule", "config.Network.GetBlockMajorVersionForHeight"), ("size limits", "config.Network.MaxBlockSize, MaxTransactionSize, FusionMaxTxSize"), ("windows", "config.Network.DifficultyBlocksCountByBlockVersion, BlockTimestampCheckWindow, BlockFutureTimeLimit")],
  state=[("upgrade heights", "height at which each block version takes effect")], observe=["return values"], note=TRUST)

P("K04", "The minimum fee follows the fee schedule at every height",
  "For every height the minimum fee for relaying and the minimum fee that validation enforces are exactly those of the fee schedule, and validation never asks for more than relaying does. The surcharge for extra data is zero up to 100 bytes and then grows proportionally: a hundredth of the minimum fee per byte beyond that.",
  ["inputs"], "every height, every extra size up to 2^32-1 and minimum fee up to 10^9",
  "Tests do not exercise the fee boundaries at all heights.",
  ["config/network.go"],
  [("minimum fee", "config.Network.MinimalFee, MinimalFeeValidator"), ("extra surcharge", "config.Network.GetFeePerByte")],
  observe=["return values"], note=TRUST)

P("K05", "The next difficulty is the exact retargeting formula of each block version",
  "For every window of timestamps and cumulative difficulties the next difficulty is exactly what the retargeting rule of the block version prescribes: work over time span for the first versions, the weighted moving averages with their clamps and resets for the later ones. Outside low-difficulty mode versions 3 to 5 never fall below the network minimum, apart from the reset block of the last upgrade. A chain that is just starting gets difficulty 1 from the first three rules.",
  ["inputs"], "every window content (including timestamps out of order) for every version and height, window lengths as the schedule prescribes",
  "Tests replay a few recorded windows; weights, clamps, rounding and reset heights differ only for particular windows.",
  ["config/network.go"],
  [("dispatch", "config.Network.NextDifficulty"), ("versions", "config.Network.nextDifficultyV1 .. nextDifficultyV5")],
  observe=["return value of the difficulty calculation"],
  note=TRUST + " Floating point operations (version 3) are uninterpreted but deterministic. Timestamps are below 2^40. Bounded, not proved: the shortened windows of the 119 blocks after the version 5 upgrade.")

P("K06", "Checkpoints pin blocks and forbid rewriting history",
  "A checkpoint, once recorded, is never replaced or lost, whatever the order in which checkpoints are added. A block at a checkpointed height passes only with the recorded hash, and a block at any other height always passes. A height lies in the checkpoint zone exactly when some checkpoint is at or above it. An alternative block is refused at height zero, refused when it is deeper below the top than the unlock window outside the zone, refused when a checkpoint separates it from the top, and allowed otherwise. The list of heights stays sorted and holds exactly the recorded heights.",
  ["histories", "inputs"], "every content of the checkpoint list reachable by adding checkpoints in any order, every height, hash and chain size",
  "Tests add one or two checkpoints in ascending order; order of insertion and the alternative chain rules depend on the whole list.",
  ["config/checkpoints.go"],
  [("recording", "config.checkpoints.AddCheckpoint"), ("checking", "config.checkpoints.CheckBlock, IsInCheckpointZone"), ("alternative blocks", "config.checkpoints.AlternativeBlockAllowed")],
  state=[("checkpoints", "map from height to hash and the sorted list of its heights")], observe=["returned errors and verdicts"],
  note=TRUST + " The lock is checked as ghost state (no self deadlock, no unlock without lock); concurrency itself is not modelled.")

P("K22", "The block store keeps exactly what was pushed and its indexes agree",
  "In the memory store every block pushed is kept under its height and is found by its hash together with the block information, key images and transactions given with it, and nothing stored earlier changes. A block whose hash or height is already stored, or whose information disagrees with it, is refused and changes nothing. The indexes by height, by hash and the block information always agree, the top block is the stored block of the greatest height, and a new store accepts the genesis block. A lookup of a hash or height returns the stored block or reports that there is none. Locks are released on every path.",
  ["histories", "inputs"], "every store reachable by pushing blocks in any order, every block, hash and height (block identifiers already computed)",
  "Tests push at most a few blocks in order; the indexes can disagree only after refused or out of order pushes.",
  ["cryptonote/storage_memory.go", "cryptonote/storage.go"],
  [("creating", "cryptonote.NewMemoryStorage, memoryStorage.Init"), ("pushing", "cryptonote.memoryStorage.PushBlock, appendBlock"), ("lookups", "HaveBlock, GetBlock, HashAtIndex, getBlockInfoAtIndex, TopBlock, TopIndex")],
  state=[("block index", "height to block"), ("info indexes", "height and hash to block information"), ("top block", "block of the greatest height")], observe=["results of the lookups"],
  note=TRUST + " Block pointers handed to the store are not changed by the caller afterwards; the hash of a block is cached in it before it is pushed. Locks are ghost state; concurrency is not modelled.")

P("K17", "Block content hashes commit to the exact list of hashes",
  "The Merkle root of a list of hashes is the root of the tree in which the list is filled up to the greatest power of two below its length by joining its last hashes in pairs, and then joined level by level, for every length; the root of one hash is that hash and an empty list has none. The hash of a leaf and its branch joins the branch from its far end to its first element, in that order. Hashing passes exactly the given bytes to the hash function. Searching a hash list finds the first occurrence, and removing a hash removes exactly one occurrence and keeps the order of the rest.",
  ["inputs"], "every list of hashes of any length and every branch of any depth (the hash function itself opaque)",
  "Tests check a few recorded roots; lists between powers of two and longer branches take different paths.",
  ["crypto/hash.go"],
  [("merkle root", "crypto.HashList.MerkleRootHash"), ("branch", "crypto.HashList.TreeHashFromBranch"), ("hash lists", "crypto.HashList.Index, Has, Remove"), ("hashing", "crypto.Keccak, HashFromBytes, Hash.FromBytes")],
  observe=["returned hashes and lists"], note=TRUST + " Keccak-256 itself is opaque: a deterministic function of the bytes.")

P("K07", "Amounts decompose exactly, and fusion outputs are exactly that decomposition",
  "Decomposing an amount with a dust threshold gives chunks, each a single digit followed by zeros, in ascending order and all different, and at most one dust amount not above the threshold, whose sum is exactly the amount, with no overflow. The amounts accepted for outputs are exactly the single digits followed by zeros. A transaction counts as a fusion transaction exactly when it respects the size limit up to the version 3 upgrade, spends at least 12 inputs and four for each output, spends no dust before the version 4 upgrade, and its outputs are in order exactly the decomposition of the sum of its inputs.",
  ["inputs"], "every amount and dust threshold, every transaction with any number of inputs and outputs at every height",
  "There are no tests of fusion rules and only a few of the decomposition; the digit by digit sum and the exact match of all outputs depend on every digit.",
  ["cryptonote/utils.go", "cryptonote/transaction_validator.go", "config/network.go"],
  [("decomposition", "cryptonote.DecomposeAmountIntoDigits"), ("fusion rule", "cryptonote.blockTransactionsValidator.IsFusionTransaction, getInputsAmounts, getOutputsAmounts"), ("accepted amounts", "config.Network.IsValidDecomposedAmount")],
  observe=["return values"], note=TRUST + " The size of a transaction is an uninterpreted function of its contents here. The input sum is taken modulo 2^64 (input validation refuses overflow).")

P("K25", "No key image or output is spent twice and every input is authorised",
  "When a transaction is accepted it has at least one input; every input is of a kind that can be spent; the outputs an input names are at least one and all different; no key image occurs twice in it or has been spent earlier in the block or in the chain; each key image lies in the prime order subgroup (outside the checkpoint zone); and outside the checkpoint zone every input carries a valid ring signature, over the hash of the transaction prefix, by the outputs at exactly the positions that its offsets name. Its key images, and no others, then count as spent for the rest of the block.",
  ["inputs", "histories"], "every transaction with any number of inputs and ring sizes, every height, every set of key images already spent in the block",
  "No unit test covers the transaction validator; a double spend hides in one particular pair of inputs or order of transactions.",
  ["cryptonote/transaction_validator.go", "crypto/keys.go"],
  [("inputs", "cryptonote.blockTransactionsValidator.validateInputs"), ("signatures", "cryptonote.blockTransactionsValidator.validateTransactionInputExpensive"), ("all checks together", "cryptonote.blockTransactionsValidator.validate"), ("domain", "crypto.KeyImage.ScalarMult")],
  state=[("spent key images", "set of the key images spent by the transactions of the block so far")], observe=["returned errors", "set of spent key images"],
  note=TRUST + " Ring signature verification, curve operations, the prefix hash and the lookups of outputs and spent images in the chain are uninterpreted functions here (the lookups are stubs in this version of the repository). validate is proved from the contracts of the checks it calls.")

P("K26", "Transactions create no money, pay the fee and keep within the size limits",
  "When a transaction is accepted the exact sum of its outputs is positive and not above the exact sum of its inputs, neither sum exceeding 64 bits; every output has a nonzero amount (a single digit followed by zeros from version 5 on) and goes to valid keys with a reachable number of signatures; the difference is counted as fee and is at least the minimum, unless the transaction is a fusion; the surcharge for extra data, the limits on ring size and on transaction size apply exactly at the heights the schedule prescribes. Nothing that meets these rules is refused by these checks.",
  ["inputs"], "every transaction with any number of inputs and outputs, at every height, every total of fees so far",
  "No unit test covers these rules; sums near 2^64 and single bad outputs in long lists need every input.",
  ["cryptonote/transaction_validator.go", "cryptonote/utils.go"],
  [("outputs", "cryptonote.blockTransactionsValidator.validateOutputs"), ("fee", "cryptonote.blockTransactionsValidator.validateTransactionFee"), ("extra", "cryptonote.blockTransactionsValidator.validateTransactionExtra"), ("mixin", "cryptonote.blockTransactionsValidator.validateTransactionMixin, countMixin"), ("size", "cryptonote.blockTransactionsValidator.validateSize")],
  state=[("cumulative fee", "sum of the fees of the transactions of the block so far")], observe=["returned errors", "sums and fees"],
  note=TRUST + " The validity of a public key and the size of a transaction are uninterpreted functions here. The cumulative fee is taken modulo 2^64.")

WIRE = TRUST + " The library readers and writers (bytes.Reader, bytes.Buffer, encoding/binary varints, io.ReadFull, binary.Read/Write of fixed arrays) are modelled as sequences of bytes; that two different values of one type cannot have the same encoding follows from the shape of the encodings (each number is self delimiting, each list is preceded by its length) and is not itself an obligation."

P("K13", "A transaction's bytes and its content determine each other",
  "Serialising a transaction writes exactly the canonical encoding: version, unlock time, inputs, outputs, extra and the signatures of each input in order. Decoding accepts only the canonical encoding: when it accepts, the bytes consumed are exactly the canonical encoding of the transaction it returns, so no two encodings decode to the same transaction, and no number is truncated or padded; and every canonical encoding of a transaction with coinbase and key inputs and key outputs is accepted and consumed exactly, whatever follows it. The transaction hash is the hash of exactly these bytes, the prefix hash that of the prefix alone, and the size is their number.",
  ["inputs"], "every transaction with any number of inputs, outputs, offsets, signatures and extra bytes; every sequence of bytes",
  "Tests decode a few recorded transactions; malleable encodings, truncated numbers and mismatched signature lists need bytes that no wallet writes.",
  ["cryptonote/transaction.go", "cryptonote/utils.go"],
  [("prefix", "cryptonote.TransactionPrefix.serialize, deserialize"), ("signatures", "cryptonote.TransactionSignatures.serialize, deserialize"), ("transaction", "cryptonote.Transaction.Serialize, Deserialize, Hash, Size"), ("numbers", "cryptonote.readUvarint")],
  observe=["bytes written", "bytes consumed and transaction returned", "hashes"],
  note=WIRE + " Multisignature inputs and outputs are outside the domain of the serialiser's contract (this version of the repository does not encode them).")

P("K14", "Decoding a transaction is total and bounded by the bytes given",
  "Decoding a transaction from any sequence of bytes returns a transaction or an error and never panics. It never allocates more than a small multiple of the bytes that are there to be read, whatever counts the bytes claim, never reads past the end, and never reports success when the input ended early.",
  ["inputs"], "every sequence of bytes of any length",
  "Tests feed valid transactions; a claimed count of 2^60 or a cut in the middle of a number appears only in hostile input.",
  ["cryptonote/transaction.go", "cryptonote/utils.go"],
  [("decoding", "cryptonote.TransactionPrefix.deserialize, TransactionSignatures.deserialize, Transaction.Deserialize"), ("numbers", "cryptonote.readUvarint")],
  observe=["panics", "allocation sizes", "returned errors"],
  note=WIRE + " Allocation is measured at each make with a size from the input and at appends; the constant overhead of the runtime is not.")

P("K15", "A block's bytes, header and hash commit to its whole content",
  "Serialising a block writes exactly the canonical encoding for its version: header, parent block for the merge mined versions, signature for version 5, coinbase transaction and transaction hashes in order. Decoding a block accepts only that encoding: the bytes consumed are exactly the encoding of the block returned; and every canonical encoding of a block of versions 1 to 5 is accepted and consumed exactly, whatever follows it. The hashed bytes of a block are the header, the Merkle root of the coinbase hash and all transaction hashes in order, and their number, followed for merge mined versions by the parent block; the block hash is the hash of exactly these bytes preceded by their length, whether or not it has been computed before.",
  ["inputs"], "every block of every version with any number of transaction hashes and parent block of any branch depth; every sequence of bytes",
  "Tests decode recorded blocks of a chain; a field missing from the hash or the encoding of another version shows only when that field differs.",
  ["cryptonote/block.go", "cryptonote/block_parent.go"],
  [("header", "cryptonote.BlockHeader.serialize, deserialize"), ("parent", "cryptonote.ParentBlock.serialize, deserialize, treeDepth"), ("block", "cryptonote.Block.Serialize, Deserialize, HashingBytes, Hash")],
  observe=["bytes written", "bytes consumed and block returned", "block hash"],
  note=WIRE + " The hash functions are opaque.")

P("K16", "Decoding a block is total and bounded by the bytes given",
  "Decoding a block, its header or its parent block from any sequence of bytes returns a block of a known version with every part of that version present, or an error, and never panics. It never allocates more than a small multiple of the bytes that are there to be read, whatever counts the bytes claim, and never reports success when the input ended early.",
  ["inputs"], "every sequence of bytes of any length",
  "Tests feed valid blocks; hostile counts, unknown versions and cut input do not occur in them.",
  ["cryptonote/block.go", "cryptonote/block_parent.go"],
  [("decoding", "cryptonote.BlockHeader.deserialize, ParentBlock.deserialize, Block.Deserialize")],
  observe=["panics", "allocation sizes", "returned errors"],
  note=WIRE + " Allocation is measured at each make with a size from the input and at appends; the constant overhead of the runtime is not.")

P("K27", "Parsing the extra field of a transaction is total and bounded",
  "Parsing the extra bytes of a transaction never panics, whatever the bytes, allocates at most a fixed number of bytes for each field, and gives either a result or an error, never both or neither. A nonce longer than 255 bytes is refused. Parsing leaves the bytes as they were, and empty extra has no fields.",
  ["inputs"], "every sequence of bytes of any length",
  "There is a test with one recorded extra field; hostile tags and sizes do not occur in it.",
  ["cryptonote/transaction_extra.go"],
  [("parsing", "cryptonote.TxExtraFromBytes")],
  observe=["panics", "allocation sizes", "result and error"], note=WIRE)

P("K23", "Timestamps, sizes and difficulties come from the last blocks of the chain",
  "Asked for the last timestamps before a block, the chain gives exactly those of the last blocks on the chain that ends with that block, found through their previous hashes, oldest first: as many as asked for or as there are, the genesis block counting only when it is asked for. The last block sizes and the last cumulative difficulties are likewise exactly those recorded for the last heights up to the given one, oldest first, and no fewer than asked for while the chain has them. The difficulty of the next block is computed from exactly these windows, of the length the schedule prescribes and without the genesis block; a block above the best one has none.",
  ["histories", "inputs"], "every chain of blocks of any length, every window length up to 2^31, every height below 2^31",
  "No test builds a chain longer than a window; a window that is one short, takes the wrong chain or counts the genesis block changes consensus only far from genesis.",
  ["cryptonote/chain.go", "cryptonote/difficulty.go"],
  [("timestamps", "cryptonote.BlockChain.lastBlocksTimestamps"), ("sizes", "cryptonote.BlockChain.lastBLockSizes"), ("difficulties", "cryptonote.BlockChain.lastBlocksCumulativeDifficulties"), ("next difficulty", "cryptonote.BlockChain.difficultyForNextBlock")],
  state=[("chain", "blocks found by hash, each naming the hash of the one before; block information by height")], observe=["returned windows", "returned difficulty"],
  note=TRUST + " The storage is any deterministic store whose contents do not change during the call, in which every block below the given one is present at its height and nothing is recorded at heights from 2^31 on. The difficulty formula is opaque here (K05).")

P("K24", "A block passes validation exactly when its header and coinbase are right",
  "A block on top of another passes block validation exactly when: its version is the one scheduled for its height; a merge mined block has an acceptable parent of at most 2048 bytes; its timestamp is not too far in the future and, once there are enough blocks, not before the median of the last blocks before it; its coinbase transaction has a single coinbase input of the next height, unlocks exactly when mined money is due, and is not signed; from version 5 on it pays one key and carries no merge mining tag; every coinbase output has a nonzero amount, valid keys and a reachable number of signatures; the amounts do not exceed 64 bits together; and the extra data is within the limit from its height on. The reward returned is the exact sum of the outputs.",
  ["inputs", "histories"], "every block with any number of inputs and outputs on top of every chain, at every height below 2^31",
  "No test validates a block that breaks a single rule; each rule is one comparison that only a specific block reveals.",
  ["cryptonote/chain.go"],
  [("validation", "cryptonote.BlockChain.validateBlock"), ("timestamps", "cryptonote.BlockChain.lastBlocksTimestamps")],
  observe=["returned error and reward"],
  note=TRUST + " Key validity, the median, the clock, the schedule lookups (K01, K03) and the encoding of the parent block are opaque deterministic functions here. The storage does not change during the call.")

P("K12", "A block is stored exactly once and only when everything about it checks out",
  "Adding a block gives it to the storage at most once, and only when: it is a new block one above a stored one; its header, coinbase and extra data are valid for its height; from version 5 on the key that receives the reward has signed it; a difficulty could be computed for it and is not zero; a checkpoint vouches for it or its proof of work holds; its transactions are exactly the raw ones given, decoded without a byte left over, within the size limit each and together, matching the listed hashes one by one, all different; none creates money; no key image is spent twice in the block; and the coinbase pays exactly the reward due for the recorded supply, the block size and the fees. What is stored with it - index, hash, difficulty, supply, transaction count, size, spent key images - is exactly what follows from the block and the one before. A refused block leaves the best tip as it was; an accepted one becomes it.",
  ["inputs", "histories"], "every block with any number of transactions of any bytes, on every chain",
  "No test adds a block that breaks a single rule or with transactions; each rule is one branch that only a specific block reveals.",
  ["cryptonote/chain.go", "cryptonote/transaction_validator.go"],
  [("adding a block", "cryptonote.BlockChain.AddBlock"), ("raw transactions", "cryptonote.BlockChain.deserializeTransactions")],
  state=[("best tip", "the block the chain ends with"), ("storage", "the blocks pushed so far")], observe=["blocks pushed to the storage", "best tip", "returned error"],
  note=TRUST + " Callees are taken by their contracts (K02, K05, K23, K24, K25, K26); hashes, signatures, sizes, schedule lookups and the proof of work check (a stub in this tree) are opaque deterministic functions. The storage does not change until the block is pushed. Spent multisignature outputs are not specified.")

P("K11", "Packets between peers are framed exactly and never exceed the maximum size",
  "A command is sent as one packet in one write: the signature, the size of the payload, whether an answer is wanted, the command, the return code, the flag that tells requests from answers and the protocol version, little endian, followed by exactly the payload. What is read from a connection is a command only if the bytes taken from the stream are exactly such a packet, however the stream was cut into pieces; a packet with another signature, a payload above the maximum size or a stream that ends early is refused, without panic and without allocating more than the maximum size. Every packet within the limits is accepted and nothing after it is consumed. An invocation succeeds only with an answer to the command that was sent.",
  ["inputs", "schedules"], "every stream of bytes in every division into pieces, every command, payload, flag and return code",
  "No test reads a packet from a connection; short reads, hostile sizes and answers to other commands need a peer that sends them.",
  ["p2p/levin.go"],
  [("framing", "p2p.LevinProtocol.read, write"), ("head", "p2p.bucketHead.encode, decode"), ("commands", "p2p.LevinProtocol.Invoke, Notify, Reply")],
  observe=["bytes written to the connection", "bytes taken from the connection", "command or error", "allocation sizes"],
  note=TRUST + " The connection is a stream that ends at some point, delivers its bytes in pieces of bounded but arbitrary size and accepts all writes. The encoding of the payload is opaque.")

P("K28", "A peer is filed once, under its own identifier, and lists name every peer",
  "In the peer store every peer is filed under its own nonzero identifier, in the white or in the grey list but never in both. Moving a peer to one list takes it out of the other, leaves every other peer where it was, never replaces a peer that is already there, and fails exactly when the identifier is zero or already in that list. The list given to other peers names exactly the identifiers in the store.",
  ["histories"], "every store that has that invariant (established by the constructor and kept by every operation), any number of peers, every peer",
  "No test touches the peer store; a peer lost or filed twice needs a sequence of moves.",
  ["p2p/peerstore.go"],
  [("moves", "p2p.peerStore.toWhite, toGrey"), ("lists", "p2p.peerList.Add, Remove, Get, Has"), ("told to peers", "p2p.peerStore.toPeerEntries")],
  state=[("white", "peers that were reached"), ("grey", "peers that were not, or not any more")], observe=["lists", "returned errors", "returned entries"],
  note=TRUST + " Each operation on its own: the store is used from several goroutines without a lock, which is outside this property.")
P("K29", "A peer is accepted only when it is on the same network in an acceptable version",
  "A peer that connects is accepted only if it names the same network, has not introduced itself before and is the side that connected; it is then known by the identifier and version it gave, and every other is shut down. A peer that was connected to is accepted only if it answers the handshake from the same network in at least the minimum version. What a peer tells about its best block decides its state: known block and it can share its pool, too far behind to be of use and it is shut down, otherwise its chain is asked for; the height it told is remembered, and a peer that has not introduced itself, or that is synchronizing, does not change state.",
  ["inputs", "histories"], "every peer in every state, every request and every answer, on every chain",
  "No test runs a handshake; a wrong network, a wrong version or a second introduction need a peer that sends them.",
  ["p2p/peer.go", "p2p/command_handshake.go", "p2p/node.go"],
  [("incoming", "p2p.Node.HandleHandshake"), ("outgoing", "p2p.Peer.handshake"), ("peer state", "p2p.Node.processSyncData")],
  state=[("peer state", "what the peer is good for at the moment")], observe=["peer identifier, version, state and height", "returned error"],
  note=TRUST + " Whether the chain has the named block, the own best block and the encoding of the packets are opaque deterministic functions; the connection is that of K11.")

P("K30", "Sizes, names and heads of key value packets are read back as written",
  "In the key value encoding of packets a size up to 2^62-1 takes the shortest of four widths and a larger one is refused without a byte written; a name is its length and its bytes, refused above 255 bytes; the head is the two signatures and the version. Reading takes exactly the bytes that encode what it returns, whatever the bytes are, fails when they end early, and gives back what was written at every place in a packet, also at its very end, leaving what follows untouched.",
  ["inputs"], "every size, every name, every head and every stream of bytes",
  "Tests decode a few recorded packets; widths change at three sizes and the end of a packet is an edge of its own.",
  ["encoding/binary/encode.go", "encoding/binary/decode.go", "encoding/binary/header.go"],
  [("sizes", "binary.Encoder.writeVarInt, binary.Decoder.readVarInt"), ("names", "binary.Encoder.writeElementName, writeElementPrefix, binary.Decoder.readName"), ("head", "binary.storageBlockHeader.encode, decode, equals")],
  observe=["bytes written", "bytes taken", "returned errors"],
  note=TRUST + " The walk over struct fields by reflection is outside the verifier.")

P("K31", "Synchronization takes over only blocks it asked for, complete and in order",
  "The block names of a chain entry are taken over only when the first one is known and start height and number of names fit the total height; then exactly the names from the first unknown one on are needed, in their order. At most 128 of the needed blocks are asked for at a time, in order, leaving out those already present when told so; exactly what is sent is remembered as requested. When nothing is left to ask for, the chain is asked for while the peer has more, otherwise the peer is in normal state. Received blocks go to the chain only when they are exactly as many as requested, each is one of the requested, is exactly what its bytes say and comes with as many transactions as it names; they are added in the order received, each with the transactions that came with it, until one is refused.",
  ["inputs", "histories"], "every chain entry, every answer of a peer, every state of the peer, every list of needed and requested blocks",
  "No test covers the synchronization; a malicious peer chooses every field and every order of messages.",
  ["p2p/node.go", "p2p/peer.go", "p2p/notification_response_get_objects.go", "p2p/notification.go"],
  [("names", "p2p.Node.handleNotification"), ("requests", "p2p.Peer.requestMissingBlocks"), ("blocks", "p2p.Node.HandleResponseGetObjects, processNewObjects")],
  observe=["requested and needed blocks of the peer", "requests sent", "blocks given to the chain", "returned errors"],
  note=TRUST + " HaveBlock, BuildSparseChain, AddBlock and the decoding of the message are taken by their contracts or as unknown functions.")

