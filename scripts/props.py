def P(id, title, statement, over, text, why, files, mech, note, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a, note=note)

COMMON = "Every obligation generated from the current source is discharged by an SMT solver, for all inputs; trusts govc's translation and memory model, the solvers, and math/big at its documented meaning. "

PROPS = [
    P("P01", "Quota charges are exact, never wrap and never undercharge",
      "The quota a block is charged (base cost plus per-byte data cost plus per-snapshot confirmation cost, times the contract's quota multiplier in tenths) equals the exact mathematical value, or the computation is rejected with an overflow error; it never wraps. "
      "Consuming quota succeeds iff enough is left and deducts exactly the cost, and the stake/total quota reported as used are exactly total-minus-left with PoW quota spent first. "
      "Every fork's quota table satisfies the side conditions (non-zero unit prices, refunds not exceeding charges) these computations rely on.",
      ["inputs"], "all 64-bit costs, multipliers, data lengths, quota totals and every quota table",
      "Overflow boundaries lie at 2^64 divided by arbitrary unit prices; tests sample a few small values.",
      ["vm/util/quota.go", "common/helper/common.go"],
      [("MultipleCost", "vm/util/quota.go"), ("UseQuota / UseQuotaWithFlag", "vm/util/quota.go"), ("BlockGasCost / DataQuotaCost / RequestQuotaCost", "vm/util/quota.go"), ("CalcQuotaUsed", "vm/util/quota.go"), ("QuotaTableByHeight tables", "vm/util/quota.go")],
      COMMON + "Data lengths below 2^48."),
    P("P02", "Staked and mined quota is exactly what the price tables grant",
      "The quota an account earns for a stake or a proof of work is that of the most expensive section of the price table its congestion-adjusted amount pays for, and the stake or difficulty quoted for a wanted quota suffices for it. "
      "Available quota accumulates per snapshot, less what each used, never below zero and never more than was staked for; it is zero while a contract is blocked after a failure, capped per block, and at most one proof of work counts per account between snapshots. "
      "The price tables of both networks never decrease and cover every section and every load.",
      ["inputs", "histories", "configurations"], "all stakes, difficulties, congestion ratios, usage histories, wanted quotas, and every entry of every price table",
      "Off-by-one sections sit between 3571 table rows and interact with the congestion ratio; tests probe a few rows.",
      ["vm/quota/quota.go", "vm/quota/params.go"],
      [("getIndexInBigIntList / calcStakeQuota / calcPoWQuota", "vm/quota/quota.go"), ("calcQuotaTotal / isBlocked / CanPoW", "vm/quota/quota.go"), ("GetQuotaForBlock", "vm/quota/quota.go"), ("CalcPoWDifficulty / CalcStakeAmountByQuota", "vm/quota/quota.go"), ("price tables", "vm/quota/params.go")],
      COMMON + "Exact accumulation is proved for histories of up to 4 snapshots (labelled bounded); the upper bound on what accumulates for histories of any length. The stored ledger behind the computation is arbitrary."),
    P("P03", "Executing a block creates or destroys no value",
      "A transfer, contract call or contract creation takes exactly its amount and fee out of the sender's balance or fails taking nothing; it is refused when the balance does not cover both, and no balance ever becomes negative. "
      "A receipt credits exactly what was sent, less exactly what the requests it triggers take out; when the triggered execution fails, everything that arrived (amount and fee) goes back to its sender, and only built-in issuing contracts can trigger a payment that takes nothing out of their own balance. "
      "No account can submit an issuing or a refunding block itself.",
      ["inputs", "programs", "histories"], "all stored ledgers, balances, amounts, fees, tokens, block contents, fork schedules and execution outcomes; lists of up to two triggered requests",
      "A missed debit on one rarely taken path (fee in the transferred token, failure while sending the second request) mints money silently; tests run a handful of amounts.",
      ["vm/vm.go", "vm/util/db_helper.go", "vm_db/balance.go"],
      [("sendCall / sendCreate / sendRefund / sendReward", "vm/vm.go"), ("receiveCall / receiveCreate / receiveReward / receiveRefund", "vm/vm.go"), ("doRefund / doSendBlockList", "vm/vm.go"), ("AddBalance / SubBalance", "vm/util/db_helper.go"), ("GetBalance / SetBalance", "vm_db/balance.go")],
      COMMON + "Assumed contracts (listed per run in the evidence): executing contract code and built-in contract methods do not touch balances themselves and return arbitrary requests and errors; the available quota is arbitrary. Lists of triggered requests are bounded to 2 (labelled bounded)."),
    P("P04", "Contract arithmetic, comparison, bit and stack instructions are exact",
      "Every two's-complement arithmetic (except exponentiation), comparison, bitwise, shift, byte and sign-extension instruction yields exactly the mathematically defined 256-bit word, including division by zero and out-of-range shifts, and every push, duplicate, swap, pop, program-counter and size instruction moves exactly the defined value. "
      "Operands not consumed by the instruction keep their identity and value: no instruction leaks a pooled number into, or corrupts, another stack slot or a shared constant.",
      ["inputs", "programs"], "all operand words, all stack depths and contents, all states of the integer pool, all code bytes and program counters",
      "Wrong results hide at sign boundaries (-2^255/-1), carries and aliasing between pooled integers and live stack slots, out of 2^512 operand pairs.",
      ["vm/instructions.go", "vm/jump_table.go", "vm/stack.go", "vm/util/intpool.go", "common/helper/math_big.go"],
      [("opAdd..opSAR", "vm/instructions.go"), ("makePush / makeDup / makeSwap", "vm/instructions.go"), ("newBaseInstructionSet dispatch", "vm/jump_table.go"), ("IntPool.Get/Put", "vm/util/intpool.go"), ("U256 / S256 / Byte", "common/helper/math_big.go")],
      COMMON + "Stack words are assumed to be in [0, 2^256) and not aliased, which every instruction preserves. One known finding (arithmetic shift right of zero by 256 or more)."),
    P("P05", "Contract memory, stack limits and jumps are enforced and priced exactly",
      "Before a contract instruction runs, the memory it will touch is required and priced exactly (or rejected as overflowing), memory grows by whole words, and reads, writes and copies move exactly the addressed bytes (zero-filled past the end of call data and code, rejected past the end of return data). "
      "A jump succeeds iff its target is inside the code, is a jump-destination instruction and is not an operand byte of a push; otherwise it fails. "
      "Every defined opcode's stack floor and ceiling admit exactly the depths from which it neither underflows nor exceeds the stack limit.",
      ["inputs", "programs"], "all code bytes, jump targets, memory offsets and sizes up to 256 bits, stack depths, memory contents",
      "Offsets near 2^64 and 2^256, pushes straddling the end of code and bitmap byte boundaries are an unbounded space of programs.",
      ["vm/memory.go", "vm/memory_table.go", "vm/gas_table.go", "vm/destination.go", "vm/instructions.go", "vm/jump_table.go", "vm/stack_table.go"],
      [("memoryGasCost / gas functions", "vm/gas_table.go"), ("memory size functions", "vm/memory_table.go"), ("memory resize/get/set", "vm/memory.go"), ("codeBitmap / destinations.has", "vm/destination.go"), ("opMload..opReturnDataCopy, opJump, opJumpi", "vm/instructions.go"), ("makeStackFunc limits", "vm/stack_table.go")],
      COMMON + "Call data, code and return data up to 2^40 bytes; memory price for sizes whose square fits 64 bits (larger sizes are unaffordable)."),
    P("P06", "Exchange matching never executes beyond an order's limits and conserves funds",
      "Matching two orders executes the same quantity and amount on both, at the resting order's price and only if the prices cross; no order ever executes beyond its quantity, and a buyer never beyond the amount and fee it locked. "
      "Settling a trade gives the buyer exactly what the seller gives up and the seller exactly what the buyer pays less the fees collected, also when both are the same account; an order that ends (filled, cancelled, expired, immediate-or-cancel, market) releases exactly what is left of its lock, once. "
      "A fill-or-kill order that is not filled and a market order over its limit are undone together with all their executions, and a post-only order never takes.",
      ["inputs", "histories"], "all order contents, amounts of any size, fee rates, rounding results, fork settings and order types",
      "Value leaks hide in combinations of order type, side, rounding and partial executions whose amounts tests do not enumerate.",
      ["vm/contracts/dex/matcher.go", "vm/contracts/dex/calculator.go"],
      [("calculateOrderAndTx / updateOrder", "vm/contracts/dex/matcher.go"), ("CalculateFeeAndExecutedFee", "vm/contracts/dex/matcher.go"), ("handleTxFundSettle / updateFundSettle / updateFee", "vm/contracts/dex/matcher.go"), ("handleTakerRes / handleRefund / CancelOrderById", "vm/contracts/dex/matcher.go"), ("recursiveTakeOrder / doMatchTaker", "vm/contracts/dex/matcher.go")],
      COMMON + "Rounded price and rate computations (big.Float) are arbitrary results. The walk along the book is proved step by step with an arbitrary next order; the list of changed resting orders is bounded to 2 (labelled bounded). Fee rules as from the fee fork."),
    P("P07", "Exchange accounts move funds exactly and never go negative",
      "Every deposit, withdrawal, lock, release and settlement on a trader's exchange account moves exactly its amount between the account's parts, is refused without any effect when the part it takes from is short, and touches no other token's account. "
      "Placing an order locks exactly what the order can spend, and settling one never releases more than is locked. "
      "Dividing fees, dividends and mined tokens hands out exactly the pool: shares plus remainder equal what was there, and nothing is negative.",
      ["inputs", "histories"], "all stored accounts (any number of tokens), amounts of any size, orders, settlements and rounding results",
      "One wrong sign or a missed early return on a rarely taken path mints or burns deposits; tests use a few amounts and at most two tokens.",
      ["vm/contracts/dex/fund_storage.go", "vm/contracts/dex/fund_settle.go", "vm/contracts/dex/fund_helper.go", "vm/contracts/dex/fund_dividend.go", "vm/contracts/dex/fund_mine.go"],
      [("updateFund / ReduceAccount / DepositAccount", "vm/contracts/dex/fund_storage.go"), ("LockVxForDividend / ScheduleVxUnlockForDividend / FinishVxUnlockForDividend", "vm/contracts/dex/fund_storage.go"), ("DoSettleFund", "vm/contracts/dex/fund_settle.go"), ("CheckAndLockFundForNewOrder", "vm/contracts/dex/fund_helper.go"), ("DivideByProportion", "vm/contracts/dex/fund_dividend.go"), ("GetVxAmountToMine / GetVxAmountsForEqualItems", "vm/contracts/dex/fund_mine.go")],
      COMMON + "The store behind the accounts is a stand-in that returns an arbitrary account list and records what is stored; rounded shares (big.Float) are arbitrary."),
    P("P15", "Fork rules switch on exactly at their configured height",
      "For every fork schedule, a fork's rules are active at a snapshot height iff that height is at or above the fork's height (never for a fork without a height), and the current, latest-scheduled and active fork points reported for a height are exactly those reached. "
      "The quota price table and the instruction set in force are those of the newest active fork that defines one, on and off chain.",
      ["configurations", "inputs"], "all fork schedules, all heights, all lists of fork points ordered by height",
      "A fork off by one height splits the chain; tests run on one or two fixed schedules.",
      ["common/upgrade/upgrade.go", "common/upgrade/face.go", "vm/util/quota.go", "vm/interpreter.go"],
      [("upgradeBox.isActive / currentPoint / latestPoint / activePoints", "common/upgrade/upgrade.go"), ("IsXUpgrade predicates", "common/upgrade/face.go"), ("QuotaTableByHeight", "vm/util/quota.go"), ("newInterpreter", "vm/interpreter.go")],
      COMMON + "The construction and sorting of a schedule from a configuration is not covered."),
    P("P11", "A block's hash commits to its content and its encoding reads back",
      "An account block's hash is the digest of exactly its kind, predecessor, height, account, counterparty, amount, token or source, data, fee, log digest, nonce and the hashes of the blocks it triggers (a triggered block's additionally of its position in its host), and a snapshot seed commitment and an event-log digest likewise cover exactly their inputs. "
      "Serializing an account block, snapshot block, contract metadata or hash-height pair and reading it back yields the same block field by field; malformed block bytes are rejected. "
      "A copy of a block equals it and shares no mutable part with it.",
      ["inputs"], "all field values of every block kind, with and without data, log digest, difficulty and seed; lists of up to two triggered blocks, logs or snapshot entries",
      "Omitting or reordering one field for one block kind leaves every fixed-vector test green while two different blocks share a hash, or an honest block fails to verify after a restart.",
      ["interfaces/core/account_block.go", "interfaces/core/snapshot_block.go", "interfaces/core/vm_log_list.go", "interfaces/core/contract_meta.go", "interfaces/core/hash_height.go"],
      [("ComputeHash / ComputeSendHash / hashSource", "interfaces/core/account_block.go"), ("Proto / DeProto / Copy", "interfaces/core/account_block.go"), ("ComputeSeedHash, snapshot content codec", "interfaces/core/snapshot_block.go"), ("VmLogList.Hash", "interfaces/core/vm_log_list.go")],
      COMMON + "The digest is an uninterpreted function of the bytes hashed; protobuf encoding is trusted to be injective and inverted by decoding; lists of triggered blocks, logs and snapshot entries are bounded to 2 elements (labelled bounded). One known finding (copying a block with triggered blocks), one fixed defect (malformed blocks accepted)."),
    P("P13", "Ledger index and state keys are unambiguous and read back exactly",
      "Every key under which the ledger stores a block, account, confirmation, receive mark, pending transfer, balance, contract storage slot or history entry is exactly its prefix and its fixed-width parts, so that two different items never share a key and neighbouring heights sort in order. "
      "Heights, locations and the parts of history keys read back from their stored form unchanged.",
      ["inputs"], "all addresses, hashes, token ids, heights, storage keys of every length and file locations",
      "A collision between two keys or a byte-order slip at one height corrupts unrelated state; tests use a few small values.",
      ["ledger/chain/utils/keys_index_db.go", "ledger/chain/utils/keys_state_db.go", "ledger/chain/utils/keys_state_redo_db.go", "ledger/chain/utils/keys.go", "ledger/chain/utils/conversion.go"],
      [("Create*Key / Construct*", "ledger/chain/utils"), ("Uint64ToBytes / BytesToUint64", "ledger/chain/utils"), ("SerializeLocation / DeserializeLocation", "ledger/chain/utils")],
      COMMON),
    P("P16", "Block producers are elected by votes and own exactly their time slots",
      "For every consensus group the election at a round counts each registered producer's votes as the sum of its voters' balances, ranks by votes (then name), exchanges at most two poor performers for good runners-up, draws the rest from the published seed, and assigns the winners to consecutive equal time slots that tile the round. "
      "The election of a round uses the ledger as of a fixed earlier time (for snapshot blocks the end of the round two before, for contract blocks 75 seconds before the round, at least one second after genesis), and the same ledger block always yields the same producers. "
      "A snapshot block is accepted iff its producer owns the slot starting exactly at the block's timestamp and any seed it reveals matches its earlier commitment; a contract block iff its producer is a member of the current round.",
      ["inputs", "histories", "configurations"], "all round numbers, vote balances, names, seeds, success counts, member addresses, plans of any length and stored periods",
      "Slots, proofs and draws are consensus-critical at every round and every node; a divergence shows only for one vote distribution, seed or round boundary.",
      ["ledger/consensus/core/vote_algo.go", "ledger/consensus/core/group.go", "ledger/consensus/core/time_index.go", "ledger/consensus/core/state_reader.go", "ledger/consensus/consensus_snapshot.go", "ledger/consensus/consensus_contract_dpos.go", "ledger/consensus/chain_rw.go", "ledger/consensus/cdb/point.go", "ledger/consensus/cdb/consensus.go"],
      [("CalVotes / voteCompleting", "ledger/consensus/core/state_reader.go"), ("FilterVotes / filterBySuccessRate / filterRandV2 / ShuffleVotes", "ledger/consensus/core/vote_algo.go"), ("GenPlanByAddress / Index2Time / Time2Index", "ledger/consensus/core"), ("calVotes / ElectionIndex / verifyProducer / verifyProducerAndSeed", "ledger/consensus/consensus_snapshot.go"), ("GenProofTime / electionAddrsIndex / VerifyAccountProducer", "ledger/consensus/consensus_contract_dpos.go"), ("GetSuccessRateByHour", "ledger/consensus/chain_rw.go"), ("Rate / Merge / Point codec / keys", "ledger/consensus/cdb")],
      COMMON + "math/rand's permutation is an arbitrary permutation determined by the seed it is created with; sort.Sort is an insertion sort of the same order. Candidate lists are bounded to 3-5 entries and plans to 2 members x 2 x 2 (labelled bounded); the producer checks are unbounded. Whole-second times within 2^32 s."),
]
NA = []
