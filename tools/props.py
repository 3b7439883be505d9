#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
O = "oracle/oracle.go"; B = "oracle/block.go"; N = "oracle/onchain.go"; M = "oracle/merklelizer.go"; A = "api/api.go"; MN = "main.go"; U="utils/utils.go"; T="oracle/types.go"
SV = [("validator record", "status, claimable (accumulated) and pending balance of each tracked validator", "oracle/types.go ValidatorInfo"),
      ("pool fees", "balance owed to the pool operator", "oracle/types.go OracleState.PoolAccumulatedFees")]

p("C01", "Pool liabilities always equal pool income",
  "After every processed slot, the sum of all validators' claimable and pending balances plus the pool operator's fees equals, to the wei, the sum of all income of the pool so far: ether received by the contract (MEV rewards and donations), vanilla block rewards paid to the pool, and subscription collaterals, valid or not. No wei is created, lost or counted twice, and no balance is ever negative.",
  ["histories", "inputs"], "every sequence of blocks (proposals of every kind, missed slots, subscriptions, unsubscriptions, donations, bans, unbans, cleanups and their combinations in one block), under each of the three reward rules and across their fork boundaries",
  "Unit tests check hand-picked sequences; conservation must survive every combination of events in one block and every history.",
  [O, B], [("AdvanceStateToNextSlot", "oracle/oracle.go AdvanceStateToNextSlot and the handle* functions it calls"), ("increaseAllPendingRewards", "oracle/oracle.go")],
  ["State() after AdvanceStateToNextSlot"], SV)
p("C02", "Rewards are split by the fork's rule, to the wei",
  "Every amount shared with the pool (a block reward, a donation, a forfeited balance) is split so that the operator gets the configured percentage rounded down, plus the rounding remainder, and each eligible validator (active or yellow card, and nobody else) gets an equal share before the Electra fork and a share proportional to its effective balance from the Electra fork on; with nobody eligible the operator gets everything. Before fork 1 the remainder of the percentage division is also taken off before sharing. The rule in force is chosen by the network and by the slot being processed.",
  ["inputs", "configurations", "histories"], "every combination of statuses, effective balances, amounts (including 0, 1 wei, amounts that do not divide, and amounts above 64 bits), fee percentages 0..100%, and slots on each side of both forks on each network",
  "Tests use a few round amounts and do not sweep the boundary slots, rounding residues and status combinations.",
  [O], [("increaseAllPendingRewards", "oracle/oracle.go"), ("determineRewardMethod", "oracle/oracle.go"), ("handleElectraRewardDistribution / handleFork1RewardDistribution / handlePreFork1RewardDistribution", "oracle/oracle.go")],
  ["State() after AdvanceStateToNextSlot"], SV)
p("C03", "Validator status follows the published state machine",
  "The status of each tracked validator changes only as in the published diagram: a missed proposal moves active to yellow card and yellow card to red card, a correct proposal moves red to yellow and yellow to active, a wrong fee recipient or a manual ban moves any subscribed validator to banned, unsubscribing moves any subscribed validator to not subscribed, subscribing (manually or by proposing for the pool) moves not subscribed to active, and only a manual unban leaves banned. Everything else leaves the status unchanged, and validators that the block does not concern keep their status.",
  ["histories", "inputs"], "every status (including not tracked) of every validator crossed with every block content, and every sequence of them up to the bound",
  "Tests check single transitions; several events about the same validator in one block, and their order, are not covered.",
  [O, "spec/README.md"], [("advanceStateMachine", "oracle/oracle.go"), ("AdvanceStateToNextSlot", "oracle/oracle.go (order of the events within a block)")],
  ["State().Validators[i].ValidatorStatus"], SV[:1])
p("C04", "Claimable balances never decrease and only a proposal unlocks pending",
  "A validator's claimable balance and the operator's fees never decrease. A validator's claimable balance increases only by its own whole pending balance when it proposes a block that pays the pool, or by a collateral returned to it (subscribing while subscribed or banned); its pending balance becomes zero exactly when it proposes correctly, is banned, unsubscribes or is cleaned up, and otherwise never decreases.",
  ["histories", "inputs"], "every block sequence up to the bound, for every validator status",
  "A monotonicity law over all histories; tests compare final numbers of selected histories.",
  [O], [("consolidateBalance", "oracle/oracle.go"), ("increaseValidatorAccumulatedRewards", "oracle/oracle.go"), ("resetPendingRewards", "oracle/oracle.go")],
  ["State() after AdvanceStateToNextSlot"], SV)
p("C05", "Banned and unsubscribed validators forfeit pending to the eligible ones",
  "When a subscribed validator proposes with a wrong fee recipient, is manually banned or unsubscribes, its whole pending balance is taken and shared once among the validators that are eligible afterwards (never itself, nor the others banned in the same block), while its claimable balance is kept. A banned validator earns nothing, cannot subscribe manually or automatically, and a ban or an unban of a validator in any other status has no effect.",
  ["histories", "inputs"], "every status and balance combination of 2-3 validators crossed with every ban, unban, unsubscription and wrong-fee block, including several bans in one block, repeated events, and bans combined with the other events",
  "Tests cover one ban at a time with simple balances.",
  [O], [("handleBanValidator", "oracle/oracle.go"), ("handleManualBans / handleManualUnbans", "oracle/oracle.go"), ("handleManualUnsubscriptions", "oracle/oracle.go")],
  ["State() after AdvanceStateToNextSlot"], SV)
p("C06", "Only valid owner-sent subscriptions take effect; collateral goes where due",
  "A manual subscription takes effect exactly when the validator exists, is pending or active (not exiting, slashed, exited or withdrawn), has execution withdrawal credentials, the sender is its withdrawal address, it is neither subscribed nor banned, and the collateral is at least the required one; the whole collateral then becomes its pending balance. A subscription of an owner's already subscribed or banned validator returns the collateral to that validator's claimable balance, and any other invalid one gives the collateral to the pool operator. A subscribed validator always has a valid withdrawal address, the one in its credentials.",
  ["inputs", "histories"], "every beacon status x credential type x sender x collateral relation x oracle status, alone and with two subscriptions in one block or in successive blocks",
  "The decision table has hundreds of cells; the tests visit about a dozen.",
  [O, U], [("handleManualSubscriptions", "oracle/oracle.go"), ("CanValidatorSubscribeToPool", "oracle/oracle.go"), ("GetCompatibleAddressByte", "utils/utils.go"), ("addSubscription", "oracle/oracle.go")],
  ["State() after AdvanceStateToNextSlot"], SV)
p("C07", "Only a validator's withdrawal address can unsubscribe it",
  "An unsubscription changes something only when it names an existing validator that is subscribed at the end of the rest of the block and was sent by that validator's withdrawal address (case-insensitively); every other unsubscription leaves every balance and status untouched. A validator may subscribe and unsubscribe in the same block, and is then left not subscribed with nothing pending.",
  ["inputs", "histories"], "every sender x credential type x oracle status, alone, repeated, and combined with subscription, proposal, donation and ban in the same block",
  "Authorisation must hold for every input; tests try two wrong senders.",
  [O], [("handleManualUnsubscriptions", "oracle/oracle.go")], ["State() after AdvanceStateToNextSlot"], SV[:1])
p("C08", "Cleanup removes inactive validators and honours consolidations",
  "At every slot that is a multiple of 1200 from fork 1 on (and at no other slot), each tracked validator that is not active on the beacon chain and has something pending loses its subscription and its pending balance, which is shared once with the eligible validators. From the Electra fork on, the pending balance of a validator with a pending consolidation moves instead to its target: added if the target is tracked and not banned, credited to a new not-subscribed record with the target's own key and withdrawal address if it is not tracked, shared with the pool if it is banned. Active validators, claimable balances and bans are never affected by the cleanup itself.",
  ["inputs", "histories"], "every beacon status x oracle status x balance of 2-3 validators, every consolidation map among them and an untracked one, slots around the boundary and both forks",
  "Tests cover single consolidations; chains, shared targets and both ends inactive are not covered.",
  [O], [("ValidatorCleanup", "oracle/oracle.go")], ["State() after AdvanceStateToNextSlot or ValidatorCleanup"], SV)
p("C09", "Merkle leaves aggregate claimable per address and every proof verifies",
  "The published tree has exactly one leaf for the pool fee address (first) and one per distinct withdrawal address, in ascending order, in lower case, regardless of letter case in the records; a leaf's amount is the sum of the claimable balances of all validators with that address (pending never counts), so the leaves add up to everything claimable. For each leaf the published proof verifies against the root with the contract's algorithm (keccak256(address,uint256) leaves, sorted pairs), and no proof verifies for another address or amount; a tree exists exactly when at least one validator is tracked.",
  ["inputs"], "every set of up to 6 validators over 4 addresses (with different letter case), with small and large balances, all statuses, every number of leaves up to the bound",
  "Proof shape depends on the number and order of the leaves; tests use a few fixed trees.",
  [M, O], [("AggregateValidatorsIndexes / GenerateTreeFromState", "oracle/merklelizer.go"), ("FreezeCheckpoint", "oracle/oracle.go")],
  ["State().CommitedStates", "Merklelizer results"])
p("C10", "Frozen checkpoints are exact and immutable",
  "A frozen checkpoint records exactly the validators and balances, the root, leaves and proofs of the slot at which it was frozen; nothing processed afterwards changes it. The latest committed slot and state always are those of the highest frozen slot, a slot is a checkpoint exactly when its distance to the deployment slot is a multiple of the checkpoint size, and the oracle reports to be in sync with the chain exactly when root and slot of that latest state are those on chain (or nothing is committed and the on-chain root is empty), and reports an error when only one of the two matches.",
  ["histories", "inputs"], "every history of blocks and freezes up to the bound, compared with the freezes replayed from scratch; every relation between on-chain and local root and slot",
  "Aliasing between live and frozen data shows only in particular continuations of a history.",
  [O, U], [("FreezeCheckpoint", "oracle/oracle.go"), ("DeepCopy", "utils/utils.go"), ("IsCheckpoint / LatestCommitedSlot / LatestCommitedState / IsOracleInSyncWithChain", "oracle/oracle.go")],
  ["State().CommitedStates", "IsCheckpoint", "LatestCommitedState", "IsOracleInSyncWithChain"])
p("C11", "Same chain, same state and roots, whatever the map iteration order",
  "Two oracles that process the same blocks have identical balances, statuses, roots and proofs: nothing they compute depends on the order in which their in-memory collections are iterated. (Oracles vote on the root; a difference of one wei breaks the quorum.)",
  ["schedules", "histories"], "every iteration order of every collection iterated while processing blocks, cleanups with consolidations and checkpoints of up to 4 validators",
  "The runtime randomises the order, so a test sees one order per run and almost always the harmless ones.",
  [O, M], [("range over maps", "oracle/oracle.go ValidatorCleanup, getEligibleValidators, handleElectraRewardDistribution; oracle/merklelizer.go AggregateValidatorsIndexes")],
  ["State()", "CommitedStates roots"], None, "map iteration is rewritten at build time to ask the explorer for the order")
p("C12", "Saving and reloading the state changes nothing",
  "A state saved at any slot and loaded by a new oracle is the same state: every field that is persisted is equal, and from there on the oracle that restarted and one that did not reach the same balances, statuses, checkpoints and roots for every continuation, including a scheduled fee change before or after the restart. Loading an older saved state (a restart from an earlier checkpoint) also resumes exactly from that slot.",
  ["histories", "crash_points"], "every history up to the bound with a restart at every slot, on every reward rule, across a scheduled fee change",
  "Tests round-trip one state; the loss of one field shows only in certain continuations.",
  [O, T], [("SaveToJson / LoadFromJson / LoadFromBytes / LoadGivenState", "oracle/oracle.go"), ("JSON codecs", "oracle/types.go"), ("applyFeeScheduleUpTo", "oracle/oracle.go")],
  ["State() after reload", "roots"])
p("C13", "A persisted state with a wrong hash or configuration is rejected",
  "A state file is loaded only if its hash matches its content and its network, pool address, fee address, fee percentage (as scheduled for its slot), collateral, checkpoint size, deployment block and slot are those configured; otherwise loading fails with an error (never a crash) and the oracle keeps its previous state and configuration untouched. A missing file is reported as not found, not as an error.",
  ["inputs"], "every single-field edit of a saved state, with the hash recomputed or not, every single-byte change and every truncation of the file, and every single difference in configuration",
  "Tests try one corrupted file; the guard must hold for each field and byte.",
  [O], [("LoadFromBytes / LoadFromPath", "oracle/oracle.go")], ["LoadFromJson, LoadFromBytes, LoadGivenState results", "State()"])
p("C14", "A crash at any point of a save leaves a loadable state",
  "If the process or the machine stops at any point while the state is being saved (including half-written files), the next start finds either the previous or the new complete state and never fails because of a damaged state file; a checkpoint copy that exists is complete or is not used. A save that reported success is durable.",
  ["crash_points", "fault_sequences"], "every prefix of the file operations of a history of saves, with every torn length of the write in progress and every combination of unsynced data lost",
  "Tests never crash in the middle of a save.",
  [O], [("SaveToJson", "oracle/oracle.go"), ("LoadFromJson / LoadGivenState", "oracle/oracle.go")], ["files under the state folder", "LoadFromJson after the crash"])
p("C15", "Slots are processed strictly in order and a rejected block changes nothing",
  "A block is accepted only for exactly the next slot; after it is processed the latest slot is that slot, the next one is the following, and the latest block number is the block's (unchanged for a missed slot). When a block is refused with an error (wrong slot, unexpected configuration event), the whole oracle state and configuration stay exactly as they were, so that the right block is then processed as if the refusal had not happened.",
  ["inputs", "histories"], "every offered slot around the expected one and every refused block content combined with every other event, at every state up to the bound",
  "Tests check that an error is returned, not that nothing else changed, and not in combination.",
  [O], [("AdvanceStateToNextSlot", "oracle/oracle.go"), ("validateFullBlockConfig", "oracle/oracle.go")], ["State(), error"])
p("C16", "The fee changes only as scheduled and other parameters never",
  "A pool fee update is applied, from its own block on, exactly when network, slot and value are in the published schedule; any other fee update, a change of fee recipient, checkpoint size or collateral, and a second event of one of these kinds in a block make the block refused. An event that repeats the configured recipient, checkpoint size or collateral is accepted and changes nothing.",
  ["inputs", "configurations"], "every network, slot around the scheduled ones, fee value and combination of configuration events",
  "Tests check the scheduled entries alone.",
  [O], [("validateFullBlockConfig / feeSchedule", "oracle/oracle.go")], ["AdvanceStateToNextSlot error, State() fee, later reward split"])
p("C17", "Every block is attributed to the right validator, type and amount",
  "A slot without block is a missed proposal; a block whose last transaction is a payment by the fee recipient (or a whitelisted builder) is an MEV block paying its recipient; otherwise it is vanilla. It counts as a proposal for the pool exactly when the MEV payment reaches the pool, or, without MEV, when its fee recipient is the pool; a subscriber's other block is a wrong-fee proposal and a stranger's is ignored; a pool block of a validator with BLS credentials goes to the operator and subscribes nobody. The result is the same in every block format (fork version).",
  ["inputs"], "every fork version x fee recipient x last transaction (sender, recipient, value, kind, contract creation, none) x credential type x oracle status x events",
  "Fixtures are a few real blocks of two forks.",
  [B, O], [("MevRewardInWei / GetSentRewardAndType / SummarizedBlock", "oracle/block.go"), ("GetWithdrawalAndType", "oracle/oracle.go"), ("IsBlsType / IsEth1Type / IsElectraType", "utils/utils.go")],
  ["SummarizedBlock", "State() after AdvanceStateToNextSlot"])
p("C18", "The vanilla reward is exactly the priority fees paid",
  "For every block whose transactions and receipts are known, the computed vanilla reward is the sum over its transactions of gas used times (effective gas price minus base fee), for every transaction type, fee cap, tip and base fee and in every block format. A receipt list of the wrong length or of other transactions is reported as an error and never yields an amount.",
  ["inputs"], "every sequence of up to 3 transactions over all transaction types with caps below, at and above base fee plus tip, all fork versions, and every mismatch of receipts",
  "Tests use a handful of real blocks, mostly of one fork.",
  [B, U], [("GetProposerTip", "oracle/block.go"), ("SumAndSaturate", "utils/utils.go")], ["GetProposerTip", "State() after AdvanceStateToNextSlot"])
p("C19", "Each ether received is credited exactly once",
  "Of the ether-received events of a block, exactly one (the MEV payment, when the pool receives MEV in that block) is credited as the proposer's block reward, and every other one is credited once as a donation, even when amounts coincide; without an MEV payment to the pool all of them are donations, whoever proposed the block. In a missed slot nothing is received.",
  ["inputs"], "every list of up to 3 ether-received events over colliding amounts crossed with every last-transaction form, recipient, proposer status",
  "Amount collisions do not occur in the recorded blocks.",
  [B, O], [("GetDonations / MevRewardInWei", "oracle/block.go"), ("handleDonations", "oracle/oracle.go")], ["GetDonations", "State() after AdvanceStateToNextSlot", "RunOffchainReconciliation"])
p("C20", "Node faults never turn into wrong block data",
  "Whatever errors, timeouts or empty answers the consensus and execution nodes give while a slot is fetched, the block handed to the oracle is the one of a fault-free fetch, or the fetch keeps failing and nothing is handed over; in particular a slot is taken as missed only if the node says that the block does not exist, and an answer about another slot, epoch or block is not taken. The same holds for what the periodic cleanup asks. Receipts and header are present for every block that pays the pool or comes from a subscriber, and the validators attached to (un)subscription events are those of the events, in order.",
  ["fault_sequences", "inputs"], "every single and double fault (each kind: HTTP 4xx/5xx with bodies naming 404, connection reset, malformed or empty body, JSON-RPC error, missing item) at every request of the fetch of every block shape",
  "Tests of this file need live nodes and are skipped; none injects faults.",
  [N], [("FetchFullBlock / GetConsensusBlockAtSlot / GetProposalDuty / GetExecHeaderAndReceipts / GetBlockEvents", "oracle/onchain.go"), ("retry options", "oracle/onchain.go GetRetryOpts")], ["FetchFullBlock result"], None, "retry delays are removed at build time")
p("C21", "A root is submitted only for the next checkpoint, once, and is the right one",
  "A running oracle sends a report transaction only when its newly frozen checkpoint is exactly one checkpoint after the last one consolidated on chain and it has not already voted for it, and the transaction carries that slot and the root of the balances at that slot; in dry-run mode it never sends any. Blocks are processed only up to the finalized slot and only while both nodes say they are in sync. While its checkpoint is the next one of the contract, the state is saved to disk only after that checkpoint is consolidated; a report transaction that failed is never taken for an accepted one. The daemon does not wait for ever nor exit when nothing failed, whatever order the other oracles vote in.",
  ["fault_sequences", "histories", "configurations"], "every combination of on-chain slot, existing vote, quorum behaviour (consolidates at once, later, by others first, revert), finality progress and dry-run, over several checkpoints",
  "The main loop has no tests.",
  [MN, N], [("mainLoop", "main.go"), ("UpdateContractMerkleRoot", "oracle/onchain.go")], ["transactions received by the execution node", "state files"], None, "sleeps are shortened at build time")
p("C22", "Stopping and restarting the daemon anywhere leads to the same roots",
  "If the daemon is stopped (by a signal or killed) at any point and restarted with the same state folder, it resumes, every later checkpoint is frozen, submitted and saved with the same slot and root as by an oracle that was never stopped, and no checkpoint is skipped or voted twice. If its local state is ahead of the chain it falls back to a saved state not beyond the chain, or syncs from the beginning. A stop by a signal saves the state and loses no processed slot.",
  ["crash_points", "histories"], "a stop by signal at every statement of the daemon and by kill at every change it makes to its folder or the chain, over runs of several checkpoints, followed by restarts; other oracles consolidating meanwhile; states ahead of the chain; states served by another oracle",
  "There is no end-to-end restart test.",
  [MN, O], [("main (state load, signal handler)", "main.go"), ("LoadGivenState", "oracle/oracle.go"), ("SaveToJson", "oracle/oracle.go")], ["transactions received by the execution node", "state files"], None, "sleeps are shortened at build time")
p("C23", "Concurrent use of the oracle never deadlocks and calls are atomic",
  "For every interleaving of the main loop's calls, API requests and the final save on a signal, all calls finish, every call behaves as if executed alone at some moment between its start and its end, and an error returned by one of them leaves the oracle usable.",
  ["schedules"], "all interleavings at lock operations of 2-3 threads with 1-3 calls each over the exported operations",
  "The existing tests are sequential.",
  [O], [("RWMutex use", "oracle/oracle.go (all exported methods)")], ["completion and results of the calls"], None, "the lock type is replaced at build time by one driven by the explorer")
p("C24", "What is served or saved while processing is a consistent snapshot",
  "The state served to API clients and the state written by a save during processing are consistent snapshots: the content is that of one processed slot and matches its own hash, so that another oracle can load it.",
  ["schedules"], "all interleavings at lock operations of a save or of state readers with block processing and checkpoint freezing",
  "Needs a particular interleaving; tests are sequential.",
  [O, A], [("StateWithHash / SaveToJson", "oracle/oracle.go"), ("handleState", "api/api.go")], ["bytes served or written"], None, "the lock type is replaced at build time by one driven by the explorer")
p("C25", "The API's preview of recent events equals what processing them will give",
  "The view of the not yet finalized subscriptions and unsubscriptions that the API shows for a withdrawal address has, for every validator concerned, the status that the oracle would have once those events are processed in their order (an invalid event shows no change); its pending rewards are raised by the collateral of an accepted subscription and reset by an accepted unsubscription, its accumulated rewards are as they are. Other validators appear unchanged, events that are processed already are not applied again, an unusable answer of the node is never taken as a lack of events, and showing the preview never changes the oracle's own state.",
  ["inputs", "histories"], "every list of up to 3 subscription and unsubscription events of 2 validators over valid and invalid senders, statuses, collaterals and beacon states, on every oracle status",
  "Tests cover one subscription and one unsubscription.",
  [A], [("ApplyNonFinalizedState", "api/api.go"), ("CanValidatorSubscribeToPool", "oracle/oracle.go")], ["GET /memory/validators/{address}", "State()"])
p("C26", "Proofs and totals served by the API are the ones claimable on chain",
  "For every withdrawal address, the claim data served by the API (leaf, proof, root, slot, accumulated total) verifies against the last root consolidated on chain and shows the balances of that checkpoint; the claimable amount is the accumulated total less what was claimed. The lists of validators, blocks, donations and statistics served are those of the oracle state, each exactly once, and sums add up.",
  ["inputs", "histories"], "every endpoint and address form against every oracle state and checkpoint history in the bound, with the chain at, before and after the local checkpoint",
  "API tests check only input validation.",
  [A], [("onchain proof, memory and statistics handlers", "api/api.go")], ["HTTP responses"])
p("C27", "No API request crashes or alters the oracle",
  "For every request (any path, parameter or state of oracle and nodes) the API answers with a well-formed success or error answer, never panics, exits the process or changes the oracle state, and it accepts an address, validator index or public key exactly when it is well formed; while the oracle is more than two epochs behind the finalized slot, requests that need a synced oracle are refused. A node or relay that answers with an error or something unusable leads to an error answer, never to different data.",
  ["inputs", "fault_sequences"], "every endpoint x parameter alphabet x oracle state (including empty, all banned, all red card) x node fault x distance from the finalized slot",
  "Tests call the validators of input with a few strings.",
  [A], [("request validation and handlers", "api/api.go")], ["HTTP status and body", "State()"])
p("C28", "Reconciliation fails exactly when the books do not balance",
  "The off-chain reconciliation succeeds exactly when balances and fees add up to all recorded income, and the on-chain one exactly when balances and fees less what was already claimed equal the contract's balance; a difference of one wei in any single component, in either direction, is reported, and every withdrawal address and the fee address is consulted exactly once for its claims. Balance and claims are those as of the block the oracle has processed, whatever happened later; a failing node never passes for a difference, nor a difference for a failing node; and an oracle whose books do not balance stops, also in dry run, and sends no further report.",
  ["inputs", "histories"], "every reachable state in the bound, exact and with every component off by one in either direction, every split of claimed amounts over the addresses and over the blocks before and after, every node fault",
  "Tests check one matching and one failing case.",
  [O], [("RunOnchainReconciliation / RunOffchainReconciliation / GetUniqueWithdrawalAddresses", "oracle/oracle.go")], ["returned error", "address list"])
p("C29", "The oracle configures itself from the pool contract, or stops",
  "Every oracle of a pool starts from the same configuration: network, deployment slot and block, checkpoint size, fee address and collateral are those of the contract on the chain that both nodes follow, and the initial pool fee is the one the pool was initialized with in its deployment block (called directly or from the constructor of its proxy), or the network's published default where that block has no such call, whatever the current fee is and whenever the oracle starts. Other transactions of that block, calls for other contracts included, do not matter. If the nodes disagree, the chain is not supported, no default applies, or the deployment block cannot be confirmed in its slot, the oracle stops; faults of the nodes never lead to another configuration.",
  ["inputs", "fault_sequences"], "every deployment block content in the bound x chain of either node x contract values x place in the chain x node fault",
  "Tests decode the fee of two recorded deployments; the rest needs live nodes.",
  [N], [("GetConfigFromContract / decodeInitialPoolFee / findInitializeInCreationData", "oracle/onchain.go")], ["Config", "process exit"])
p("C30", "An oracle starts only as its command line and its rights allow",
  "An oracle with a key starts only if the keystore opens with the given password and its address is a member of the configured pool's oracles and has ether; one in dry run takes no key. A pool address, relay list, log level or number that is not well formed, nodes that are not there or follow different chains, a saved state or a state to sync from that cannot be had whole and unaltered: the process ends with an error before it processes a slot or touches a saved state. Faults of the nodes never let an oracle start that may not. One that starts serves the API and the metrics on the given ports, signs its reports with that key for that pool, however the address is written, repeats a failing request as often as it was told to (0: until it is answered), and never writes the password or the key to its log.",
  ["inputs", "fault_sequences"], "every combination of two (thorough: three) unusual ones of twelve things an oracle is started with x every node fault while it starts x every kind of request failing",
  "The only test of the command line runs it without any flag.",
  [MN, N], [("NewCliConfig", "config/config.go"), ("main", "main.go"), ("IsAddressWhitelisted / NewOnchain / GetRetryOpts", "oracle/onchain.go"), ("DecryptKey", "utils/utils.go")], ["process exit", "transactions", "state folder", "ports", "log"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
