From b959121e9faa57dee67cc099b3e8fe6404b0c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 01/24] fix: credit donations of the same amount as the MEV
 reward of their block

---
 oracle/block.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracle/block.go b/oracle/block.go
index 228abf7..cbd8af2 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -577,7 +577,8 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 	filteredEvents := make([]*contract.ContractEtherReceived, 0)
 	foundMev := false
 	for _, etherRxEvent := range b.Events.EtherReceived {
-		if etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
+		// Only one event is the mev reward. Others of the same amount are donations
+		if !foundMev && etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
 			foundMev = true
 			continue
 		}
-- 
2.43.0


From 8547c4e0d16aa70a74da692569315b92dd189444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 02/24] fix: load states saved before or after a scheduled fee
 change, whatever the current fee

LoadFromBytes compared the fee of the state with the current fee of the oracle and
changed the configuration before the remaining checks. A state saved before a
scheduled change could not be loaded once the change had been applied (the fallback
to an older state at startup), a rejected state could change the fee, and a state
without collateral crashed.
---
 oracle/oracle.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 2aee065..33780e8 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -33,6 +33,7 @@ type GetPendingConsolidationsFunc func(stateID string, opts ...retry.Option) (*P
 
 type Oracle struct {
 	cfg                      *Config
+	initialPoolFee           int // fee in force before any scheduled change
 	state                    *OracleState
 	mutex                    sync.RWMutex
 	getSetOfValidators       GetSetOfValidatorsFunc
@@ -94,6 +95,7 @@ func NewOracle(cfg *Config) *Oracle {
 
 	oracle := &Oracle{
 		cfg:                      cfg,
+		initialPoolFee:           cfg.PoolFeesPercentOver10000,
 		state:                    state,
 		getSetOfValidators:       nil,
 		getPendingConsolidations: nil,
@@ -430,7 +432,8 @@ func applyFeeScheduleUpTo(config *Config, upToSlot uint64) {
 	bestFee := 0
 	found := false
 	for slot, fee := range getFeeSchedule(config.Network) {
-		if slot <= upToSlot && (!found || slot > bestSlot) {
+		// A change before the deployment is already part of the initial fee
+		if slot >= config.DeployedSlot && slot <= upToSlot && (!found || slot > bestSlot) {
 			bestSlot = slot
 			bestFee = fee
 			found = true
@@ -635,14 +638,19 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 			state.PoolFeesAddress, or.cfg.PoolFeesAddress))
 	}
 
-	if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
-		// The config starts at initialPoolFee. If the state was saved after a
-		// scheduled fee change, apply the schedule up to the state's slot.
-		applyFeeScheduleUpTo(or.cfg, state.LatestProcessedSlot)
-		if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
-			return false, errors.New(fmt.Sprintf("pool fees percent mismatch, recovered: %d, expected: %d",
-				state.PoolFeesPercentOver10000, or.cfg.PoolFeesPercentOver10000))
-		}
+	// The config starts at initialPoolFee. The fee of a state is the one that the schedule
+	// gives for its slot, whatever fee this oracle has reached by now: the state may have
+	// been saved before or after a scheduled fee change.
+	expectedCfg := *or.cfg
+	expectedCfg.PoolFeesPercentOver10000 = or.initialPoolFee
+	applyFeeScheduleUpTo(&expectedCfg, state.LatestProcessedSlot)
+	if state.PoolFeesPercentOver10000 != expectedCfg.PoolFeesPercentOver10000 {
+		return false, errors.New(fmt.Sprintf("pool fees percent mismatch, recovered: %d, expected: %d",
+			state.PoolFeesPercentOver10000, expectedCfg.PoolFeesPercentOver10000))
+	}
+
+	if state.CollateralInWei == nil {
+		return false, errors.New("the state has no collateral")
 	}
 
 	if state.CollateralInWei.Cmp(or.cfg.CollateralInWei) != 0 {
@@ -665,6 +673,7 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 			state.DeployedSlot, or.cfg.DeployedSlot))
 	}
 
+	or.cfg.PoolFeesPercentOver10000 = expectedCfg.PoolFeesPercentOver10000
 	or.state = &state
 
 	mRoot, enoughData := or.getMerkleRootIfAny()
-- 
2.43.0


From e8250daf74038446d881366fc4240d796c242217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 03/24] fix: do not apply a scheduled fee change of a block
 that is rejected

validateFullBlockConfig changed the fee before it checked the other events of the
block, so a block refused for another reason left the new fee behind.
---
 oracle/oracle.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 33780e8..480d67c 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -468,9 +468,6 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 			return errors.New(fmt.Sprintf("unexpected pool fee change at slot %d. event fee: %d, expected: %d (scheduled: %v)",
 				slot, newFee, expectedFee, expected))
 		}
-		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
-		config.PoolFeesPercentOver10000 = newFee
-		or.state.PoolFeesPercentOver10000 = newFee
 	}
 
 	if len(fullBlock.Events.PoolFeeRecipient) != 0 && !utils.Equals(config.PoolFeesAddress, fullBlock.Events.PoolFeeRecipient[0].NewPoolFeeRecipient.String()) {
@@ -488,6 +485,15 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 			config.CollateralInWei, fullBlock.Events.UpdateSubscriptionCollateral[0].NewSubscriptionCollateral))
 	}
 
+	// Everything was validated, only now apply the fee change. A rejected block must not change anything
+	if len(fullBlock.Events.UpdatePoolFee) != 0 {
+		slot := uint64(fullBlock.ConsensusDuty.Slot)
+		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
+		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
+		config.PoolFeesPercentOver10000 = newFee
+		or.state.PoolFeesPercentOver10000 = newFee
+	}
+
 	return nil
 }
 
-- 
2.43.0


From b5743c6a6383b2316d8502dcc570d78a3b3e6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 04/24] fix: report an error when receipts belong to other
 transactions

errors.Wrap of a nil error is nil, so a receipt mismatch returned no tip and no error.
---
 oracle/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/block.go b/oracle/block.go
index cbd8af2..e84d8db 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -494,7 +494,7 @@ func (b *FullBlock) GetProposerTip() (*big.Int, error) {
 			return nil, errors.Wrap(err, "could not decode tx")
 		}
 		if tx.Hash() != b.ExecutionReceipts[i].TxHash {
-			return nil, errors.Wrap(err, "tx hash does not match receipt hash")
+			return nil, errors.New("tx hash does not match receipt hash")
 		}
 
 		tipFee := new(big.Int)
-- 
2.43.0


From 01cf2fca99466299e95449adca9fd2975393bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 05/24] fix: consult the fee address once in the reconciliation

A validator withdrawing to the pool fee address made its claims count twice, so the
on-chain reconciliation failed.
---
 oracle/oracle.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 480d67c..ac54ca0 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -976,7 +976,12 @@ func (or *Oracle) GetUniqueWithdrawalAddresses() []string {
 		}
 	}
 
-	// Include also the pool address
+	// Include also the pool address, unless a validator already uses it
+	for _, u := range uniqueWithAdd {
+		if utils.Equals(or.State().PoolFeesAddress, u) {
+			return uniqueWithAdd
+		}
+	}
 	uniqueWithAdd = append(uniqueWithAdd, or.State().PoolFeesAddress)
 
 	return uniqueWithAdd
-- 
2.43.0


From 55b76ff7e057ca1d6a185e488a315ba0015bcebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 06/24] fix: clean up validators in order of their index

Go iterates maps in random order, and with consolidations among validators that are
cleaned up in the same slot the balances depend on the order: two oracles could
compute different roots.
---
 oracle/oracle.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index ac54ca0..054de22 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -11,6 +11,7 @@ import (
 	"math/big"
 	"os"
 	"path/filepath"
+	"sort"
 	"sync"
 
 	"github.com/avast/retry-go/v4"
@@ -302,7 +303,16 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 		// Iterate over all validators. If two or more validators exit or get slashed in the same slot,
 		// this cleanup will eventually set both of their pending rewards to 0 and share them among the pool
 		rewardsToDistribute := big.NewInt(0)
-		for _, validator := range validatorInfo {
+		// In order of validator index: with consolidations the result depends on the order, and all
+		// oracles must agree on it
+		validatorIdx := make([]phase0.ValidatorIndex, 0, len(validatorInfo))
+		for idx := range validatorInfo {
+			validatorIdx = append(validatorIdx, idx)
+		}
+		sort.Slice(validatorIdx, func(i, j int) bool { return validatorIdx[i] < validatorIdx[j] })
+
+		for _, vIdx := range validatorIdx {
+			validator := validatorInfo[vIdx]
 			// If a validator is subscribed but not active onchain, we have to unsubscribe it and treat it as a ban:
 			// this means setting the validator rewards to 0 and sharing them among the pool
 			idx := uint64(validator.Index)
-- 
2.43.0


From 648d2c916a8585549dcbae1e6b52b0ed00de690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 07/24] fix: do not take the read lock twice

A goroutine that holds the read lock and takes it again blocks forever when another
one asks for the write lock in between: an API request, or the save on a signal,
could deadlock with the main loop.
---
 oracle/oracle.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 054de22..cfd2fd0 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -126,7 +126,7 @@ func (or *Oracle) State() *OracleState {
 func (or *Oracle) IsCheckpoint() (bool, error) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
-	latestProcSlot := or.State().LatestProcessedSlot
+	latestProcSlot := or.state.LatestProcessedSlot
 
 	if latestProcSlot == 0 {
 		return false, errors.New(
@@ -796,12 +796,15 @@ func (or *Oracle) FreezeCheckpoint() bool {
 func (or *Oracle) LatestCommitedSlot() (uint64, bool) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
+	return or.latestCommitedSlotLockFree()
+}
 
-	if len(or.State().CommitedStates) == 0 {
+func (or *Oracle) latestCommitedSlotLockFree() (uint64, bool) {
+	if len(or.state.CommitedStates) == 0 {
 		return 0, false
 	}
 	latestCommitedSlot := uint64(0)
-	for slot, _ := range or.State().CommitedStates {
+	for slot, _ := range or.state.CommitedStates {
 		if slot > latestCommitedSlot {
 			latestCommitedSlot = slot
 		}
@@ -814,14 +817,14 @@ func (or *Oracle) LatestCommitedState() *OnchainState {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
 
-	latestCommitedSlot, atLeastOne := or.LatestCommitedSlot()
+	latestCommitedSlot, atLeastOne := or.latestCommitedSlotLockFree()
 
 	// If we havent commited any state yet
 	if !atLeastOne {
 		return nil
 	}
 
-	return or.State().CommitedStates[latestCommitedSlot]
+	return or.state.CommitedStates[latestCommitedSlot]
 }
 
 // Check if the oracle is in sync with a given root and slot. Its considered in sync
-- 
2.43.0


From 128684e79ea4f33b07a753a164283d2d764cc2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 08/24] fix: serve snapshots of the state, not the state being
 changed

The API read the maps of the live state without any lock while the main loop changed
them: a concurrent map access ends the process, and what was served could mix two
slots (the hash served by /state did not match its content). StateWithHash also kept
the lock when hashing failed.
---
 api/api.go       | 100 +++++++++++++++++++++++++++--------------------
 oracle/oracle.go |  50 ++++++++++++++++++++----
 2 files changed, 99 insertions(+), 51 deletions(-)

diff --git a/api/api.go b/api/api.go
index 8c42474..0347f78 100644
--- a/api/api.go
+++ b/api/api.go
@@ -282,7 +282,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalAccumulatedRewards := big.NewInt(0)
 	totalPendingRewards := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().Validators {
+	state := m.oracle.Snapshot()
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active {
 			totalActive++
 		} else if validator.ValidatorStatus == oracle.YellowCard {
@@ -305,19 +306,19 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalDonationsWei := big.NewInt(0)
 
 	// Prevent underflow
-	if uint64(m.oracle.State().LatestProcessedSlot) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedSlot) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head slot is lower than slots in a month, this should not happen")
 		return
 	}
 
-	if uint64(m.oracle.State().LatestProcessedBlock) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedBlock) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head block is lower than slots in a month, this should not happen")
 		return
 	}
 
 	// Only consider blocks in the last 30 days
-	limitSlot := uint64(m.oracle.State().LatestProcessedSlot) - SlotsInOneMonth
-	limitBlock := uint64(m.oracle.State().LatestProcessedBlock) - SlotsInOneMonth
+	limitSlot := uint64(state.LatestProcessedSlot) - SlotsInOneMonth
+	limitBlock := uint64(state.LatestProcessedBlock) - SlotsInOneMonth
 
 	// Note that in a month we have SlotsInOneMonth slots, but not exactly that amount of blocks. If blocks
 	// are missed we can have less. If blocks are missed we will take into account a time window
@@ -325,7 +326,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	totalOkPoolProposalBlocks := uint64(0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	for _, block := range state.ProposedBlocks {
 		// only consider ok pool proposals, since these are the only type of blocks that are shared
 		// across all validators
 		if block.BlockType == oracle.OkPoolProposal {
@@ -339,7 +340,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		}
 	}
 
-	for _, donation := range m.oracle.State().Donations {
+	for _, donation := range state.Donations {
 		totalDonationsWei.Add(totalDonationsWei, donation.DonationAmount)
 
 		// Note that rewards also take donations into account
@@ -357,7 +358,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
 
-	totalProposedBlocks := uint64(len(m.oracle.State().ProposedBlocks))
+	totalProposedBlocks := uint64(len(state.ProposedBlocks))
 	avgBlockRewardWei := big.NewInt(0)
 
 	// Avoid division by zero
@@ -369,7 +370,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalEffectiveBalance := uint64(0)
 	effectiveBalances := m.Onchain.Validators()
 
-	for _, validator := range m.oracle.State().Validators {
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active ||
 			validator.ValidatorStatus == oracle.YellowCard ||
 			validator.ValidatorStatus == oracle.RedCard {
@@ -395,8 +396,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRedCard:                 totalRedCard,
 		TotalBanned:                  totalBanned,
 		TotalNotSubscribed:           totalNotSubscribed,
-		LatestCheckpointSlot:         m.oracle.State().LatestProcessedSlot,
-		NextCheckpointSlot:           m.oracle.State().LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
+		LatestCheckpointSlot:         state.LatestProcessedSlot,
+		NextCheckpointSlot:           state.LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
 		TotalAccumulatedRewardsWei:   totalAccumulatedRewards.String(),
 		TotalPendingRewaradsWei:      totalPendingRewards.String(),
 		TotalRewardsSentWei:          totalRewardsSentWei.String(),
@@ -405,8 +406,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRewardsSent30DaysWei:    totalRewardsSent30DaysWei.String(),
 		RewardsPerValidatorPer30Days: rewardsPerValidatorPer30Days.String(),
 		TotalProposedBlocks:          totalProposedBlocks,
-		TotalMissedBlocks:            uint64(len(m.oracle.State().MissedBlocks)),
-		TotalWrongFeeBlocks:          uint64(len(m.oracle.State().WrongFeeBlocks)),
+		TotalMissedBlocks:            uint64(len(state.MissedBlocks)),
+		TotalWrongFeeBlocks:          uint64(len(state.WrongFeeBlocks)),
 		TotalEffectiveBalanceGwei:    fmt.Sprintf("%d", totalEffectiveBalance),
 		AvgEffectiveBalanceGwei:      fmt.Sprintf("%d", avgEffectiveBalance),
 	})
@@ -463,7 +464,8 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 	finalizedSlot := uint64(finality.Header.Message.Slot)
 
 	oracleSync := false
-	if m.oracle.State().LatestProcessedSlot-finalizedSlot == 0 {
+	state := m.oracle.Snapshot()
+	if state.LatestProcessedSlot-finalizedSlot == 0 {
 		oracleSync = true
 	}
 
@@ -484,11 +486,11 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 		IsConsensusInSync:           consInSync,
 		IsExecutionInSync:           execInSync,
 		IsOracleInSync:              oracleSync,
-		LatestProcessedSlot:         m.oracle.State().LatestProcessedSlot,
-		LatestProcessedBlock:        m.oracle.State().LatestProcessedBlock,
+		LatestProcessedSlot:         state.LatestProcessedSlot,
+		LatestProcessedBlock:        state.LatestProcessedBlock,
 		LatestFinalizedEpoch:        finalizedSlot / 32,
 		LatestFinalizedSlot:         finalizedSlot,
-		OracleHeadDistance:          finalizedSlot - m.oracle.State().LatestProcessedSlot,
+		OracleHeadDistance:          finalizedSlot - state.LatestProcessedSlot,
 		NextCheckpointSlot:          onchainSlot + m.cfg.CheckPointSizeInSlots,
 		NextCheckpointTime:          "", // TODO:
 		NextCheckpointRemaining:     utils.SlotsToTime(nextCheckpointInSlots, constants.SecondsInSlot),
@@ -527,7 +529,8 @@ func (m *ApiService) handleMemoryValidators(w http.ResponseWriter, req *http.Req
 		m.respondError(w, http.StatusServiceUnavailable, "Oracle node is currently syncing and not serving requests")
 		return
 	}
-	validators := maps.Values(m.oracle.State().Validators)
+	state := m.oracle.Snapshot()
+	validators := maps.Values(state.Validators)
 
 	// Order by index
 	sort.Slice(validators, func(i, j int) bool { return validators[i].ValidatorIndex < validators[j].ValidatorIndex })
@@ -572,7 +575,8 @@ func (m *ApiService) handleMemoryValidatorInfo(w http.ResponseWriter, req *http.
 		return
 	}
 
-	validator, found := m.oracle.State().Validators[valIndex]
+	state := m.oracle.Snapshot()
+	validator, found := state.Validators[valIndex]
 	if !found {
 		m.respondError(w, http.StatusBadRequest, fmt.Sprint("could not find validator with index: ", valIndex))
 		return
@@ -618,9 +622,10 @@ func (m *ApiService) handleMemoryValidatorsByIndex(w http.ResponseWriter, req *h
 	var foundValidators []httpOkValidatorInfo
 	var notFoundValidators []uint64
 
+	state := m.oracle.Snapshot()
 	// Check if each validator is in the oracle state. Append to foundValidators or notFoundValidators
 	for _, index := range indices {
-		if validator, found := m.oracle.State().Validators[index]; found {
+		if validator, found := state.Validators[index]; found {
 			// Convert ValidatorInfo to httpOkValidatorInfo. This is done to return strings instead of bigInts
 			beaconState, found := m.Onchain.Validators()[phase0.ValidatorIndex(validator.ValidatorIndex)]
 			if !found {
@@ -717,8 +722,9 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	// 2) Get all tracked validators for that withdrawal address (tracked)
 	validatorsCopy := make(map[uint64]*oracle.ValidatorInfo)
 
+	state := m.oracle.Snapshot()
 	// Imporant! This is a deep copy, otherwise we will modify the state
-	utils.DeepCopy(m.oracle.State().Validators, &validatorsCopy)
+	utils.DeepCopy(state.Validators, &validatorsCopy)
 	for valIndex, validator := range validatorsCopy {
 		// Just overwrite the untracked validators with oracle state
 		if AreAddressEqual(validator.WithdrawalAddress, withdrawalAddress) {
@@ -745,12 +751,12 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	// This applies a non-finalized state to the validators, creating a virtual state
 	// only used for the api.
 
-	if m.oracle.State().LatestProcessedBlock == 0 {
+	if state.LatestProcessedBlock == 0 {
 		m.respondError(w, http.StatusInternalServerError, "latest processed block is 0, try again later")
 		return
 	}
 
-	firstNotProcessedBlock := m.oracle.State().LatestProcessedBlock + 1
+	firstNotProcessedBlock := state.LatestProcessedBlock + 1
 
 	// TODO: Cache this, very inneficient to get it every time
 	allSubsTillHead, err := m.GetSubscriptionsTillHead(firstNotProcessedBlock)
@@ -800,10 +806,11 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 }
 
 func (m *ApiService) handleMemoryFeesInfo(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.Snapshot()
 	m.respondOK(w, httpOkMemoryFeesInfo{
-		PoolFeesPercentOver10000: m.oracle.State().PoolFeesPercentOver10000,
-		PoolFeesAddress:          m.oracle.State().PoolFeesAddress,
-		PoolAccumulatedFees:      m.oracle.State().PoolAccumulatedFees.String(),
+		PoolFeesPercentOver10000: state.PoolFeesPercentOver10000,
+		PoolFeesAddress:          state.PoolFeesAddress,
+		PoolAccumulatedFees:      state.PoolAccumulatedFees.String(),
 	})
 }
 
@@ -811,7 +818,8 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 	// Concat all the blocks, order is not guaranteed
 	allBlocks := make([]httpOkBlock, 0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	state := m.oracle.Snapshot()
+	for _, block := range state.ProposedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -824,7 +832,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().MissedBlocks {
+	for _, block := range state.MissedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -837,7 +845,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	for _, block := range state.WrongFeeBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -855,7 +863,8 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 
 func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http.Request) {
 	proposedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().ProposedBlocks {
+	state := m.oracle.Snapshot()
+	for _, block := range state.ProposedBlocks {
 		proposedBlocks = append(proposedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -872,7 +881,8 @@ func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http
 
 func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.Request) {
 	missedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().MissedBlocks {
+	state := m.oracle.Snapshot()
+	for _, block := range state.MissedBlocks {
 		missedBlocks = append(missedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -889,7 +899,8 @@ func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.R
 
 func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http.Request) {
 	wrongFeeBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	state := m.oracle.Snapshot()
+	for _, block := range state.WrongFeeBlocks {
 		wrongFeeBlocks = append(wrongFeeBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -906,7 +917,8 @@ func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http
 
 func (m *ApiService) handleMemoryDonations(w http.ResponseWriter, req *http.Request) {
 	donations := make([]httpOkDonation, 0)
-	for _, donation := range m.oracle.State().Donations {
+	state := m.oracle.Snapshot()
+	for _, donation := range state.Donations {
 		donations = append(donations, httpOkDonation{
 			AmountWei: donation.DonationAmount.String(),
 			Block:     donation.Raw.BlockNumber,
@@ -940,29 +952,30 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 		return
 	}
 
-	_, found := m.oracle.State().CommitedStates[contractSlot]
+	state := m.oracle.Snapshot()
+	_, found := state.CommitedStates[contractSlot]
 	if !found {
 		m.respondError(w, http.StatusInternalServerError, "could not find onchain slot in oracle state: "+strconv.FormatUint(contractSlot, 10))
 		return
 	}
 
 	// Check if the oracle root matches the one offchain
-	if contractRoot != m.oracle.State().CommitedStates[contractSlot].MerkleRoot {
+	if contractRoot != state.CommitedStates[contractSlot].MerkleRoot {
 		m.respondError(w, http.StatusInternalServerError,
 			"contract merkle root does not match oracle state: "+
-				contractRoot+" vs "+m.oracle.State().CommitedStates[contractSlot].MerkleRoot)
+				contractRoot+" vs "+state.CommitedStates[contractSlot].MerkleRoot)
 		return
 	}
 
 	// Get the proofs of this withdrawal address (to be used onchain to claim rewards)
-	proofs, proofFound := m.oracle.State().CommitedStates[contractSlot].Proofs[withdrawalAddress]
+	proofs, proofFound := state.CommitedStates[contractSlot].Proofs[withdrawalAddress]
 	if !proofFound {
 		m.respondError(w, http.StatusBadRequest, "could not find proof for WithdrawalAddress: "+withdrawalAddress)
 		return
 	}
 
 	// Get the leafs of this withdrawal address (to be used onchain to claim rewards)
-	leafs, leafsFound := m.oracle.State().CommitedStates[contractSlot].Leafs[withdrawalAddress]
+	leafs, leafsFound := state.CommitedStates[contractSlot].Leafs[withdrawalAddress]
 	if !leafsFound {
 		m.respondError(w, http.StatusBadRequest, "could not find leafs for WithdrawalAddress: "+withdrawalAddress)
 		return
@@ -970,7 +983,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	// Get validators that are registered to this withdrawal address in the pool
 	registeredValidators := make([]uint64, 0)
-	for valIndex, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for valIndex, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			registeredValidators = append(registeredValidators, valIndex)
 		}
@@ -984,7 +997,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	totalPending := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for _, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			totalPending.Add(totalPending, validator.PendingRewardsWei)
 		}
@@ -993,8 +1006,8 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 	m.respondOK(w, httpOkProofs{
 		LeafWithdrawalAddress:      leafs.WithdrawalAddress,
 		LeafAccumulatedBalance:     leafs.AccumulatedBalanceWei.String(),
-		MerkleRoot:                 m.oracle.State().CommitedStates[contractSlot].MerkleRoot,
-		CheckpointSlot:             m.oracle.State().CommitedStates[contractSlot].Slot,
+		MerkleRoot:                 state.CommitedStates[contractSlot].MerkleRoot,
+		CheckpointSlot:             state.CommitedStates[contractSlot].Slot,
 		Proofs:                     proofs,
 		RegisteredValidators:       registeredValidators,
 		TotalAccumulatedRewardsWei: leafs.AccumulatedBalanceWei.String(),
@@ -1263,7 +1276,8 @@ func (m *ApiService) OracleReady(maxSlotsBehind uint64) bool {
 		return false
 	}
 
-	slotsFromFinalized := finalizedSlot - m.oracle.State().LatestProcessedSlot
+	state := m.oracle.Snapshot()
+	slotsFromFinalized := finalizedSlot - state.LatestProcessedSlot
 
 	// Use this if we want full in sync to latest finalized
 	/*oracleInSync := false
diff --git a/oracle/oracle.go b/oracle/oracle.go
index cfd2fd0..5c05b58 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -145,18 +145,48 @@ func (or *Oracle) IsCheckpoint() (bool, error) {
 	return false, nil
 }
 
-// Returns the state of the oracle, recalculating the hash of the state for
+// Returns a copy of the state of the oracle as it is now. In contrast to State(), what is
+// returned does not change while new slots are processed, so its safe to be read without
+// holding any lock
+func (or *Oracle) Snapshot() *OracleState {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+	return or.snapshotLockFree()
+}
+
+func (or *Oracle) snapshotLockFree() *OracleState {
+	snapshot := *or.state
+
+	// Events, blocks and commited states are never changed once they are stored, only new
+	// ones are added. Everything else is deep copied
+	snapshot.PoolAccumulatedFees = new(big.Int).Set(or.state.PoolAccumulatedFees)
+	snapshot.CommitedStates = make(map[uint64]*OnchainState, len(or.state.CommitedStates))
+	for slot, commited := range or.state.CommitedStates {
+		snapshot.CommitedStates[slot] = commited
+	}
+	snapshot.Validators = make(map[uint64]*ValidatorInfo, len(or.state.Validators))
+	for valIndex, validator := range or.state.Validators {
+		validatorCopy := *validator
+		validatorCopy.AccumulatedRewardsWei = new(big.Int).Set(validator.AccumulatedRewardsWei)
+		validatorCopy.PendingRewardsWei = new(big.Int).Set(validator.PendingRewardsWei)
+		validatorCopy.CollateralWei = new(big.Int).Set(validator.CollateralWei)
+		snapshot.Validators[valIndex] = &validatorCopy
+	}
+	return &snapshot
+}
+
+// Returns a snapshot of the state of the oracle, recalculating the hash of the state for
 // verification purposes
 func (or *Oracle) StateWithHash() (*OracleState, error) {
 	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
 	// Update hash
 	err := or.hashStateLockFree()
 	if err != nil {
 		return nil, errors.Wrap(err, "error hashing the oracle state")
 	}
-	or.mutex.Unlock()
-	return or.State(), nil
+	return or.snapshotLockFree(), nil
 }
 
 // Given a previous or.state, this function applies the new block to it, updating the or.state
@@ -830,7 +860,9 @@ func (or *Oracle) LatestCommitedState() *OnchainState {
 // Check if the oracle is in sync with a given root and slot. Its considered in sync
 // when the latest commited state has the same root and slot as the onchain state
 func (or *Oracle) IsOracleInSyncWithChain(onchainRoot string, onchainSlot uint64) (bool, error) {
-	latestCommitedSlot, atLeastOne := or.LatestCommitedSlot()
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+	latestCommitedSlot, atLeastOne := or.latestCommitedSlotLockFree()
 
 	// If we havent commited any state yet
 	if !atLeastOne {
@@ -851,7 +883,7 @@ func (or *Oracle) IsOracleInSyncWithChain(onchainRoot string, onchainSlot uint64
 		return false, nil
 	}
 
-	latestOracleRoot := or.State().CommitedStates[latestCommitedSlot].MerkleRoot
+	latestOracleRoot := or.state.CommitedStates[latestCommitedSlot].MerkleRoot
 
 	if utils.Equals(onchainRoot, latestOracleRoot) && onchainSlot == latestCommitedSlot {
 		log.WithFields(log.Fields{
@@ -970,10 +1002,12 @@ func (or *Oracle) RunOffchainReconciliation() error {
 }
 
 func (or *Oracle) GetUniqueWithdrawalAddresses() []string {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
 	var uniqueWithAdd []string
 
 	// Iterate all validators
-	for _, validator := range or.State().Validators {
+	for _, validator := range or.state.Validators {
 		skip := false
 		// Iterate all unique deposit addresses processed before
 		for _, u := range uniqueWithAdd {
@@ -991,11 +1025,11 @@ func (or *Oracle) GetUniqueWithdrawalAddresses() []string {
 
 	// Include also the pool address, unless a validator already uses it
 	for _, u := range uniqueWithAdd {
-		if utils.Equals(or.State().PoolFeesAddress, u) {
+		if utils.Equals(or.state.PoolFeesAddress, u) {
 			return uniqueWithAdd
 		}
 	}
-	uniqueWithAdd = append(uniqueWithAdd, or.State().PoolFeesAddress)
+	uniqueWithAdd = append(uniqueWithAdd, or.state.PoolFeesAddress)
 
 	return uniqueWithAdd
 }
-- 
2.43.0


From 3c717b63cb8f2562e1d297d6bf477d98bc63e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 09/24] fix: save the state atomically and durably

A crash while state.json was being rewritten left a truncated file, with which the
oracle does not start. The copy of a checkpoint could also be named after a later
slot, and the lock was kept when marshalling failed.
---
 oracle/oracle.go | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 5c05b58..86bf0f1 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -546,6 +546,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	// but it cant be just a read mutex
 
 	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
 	log.Info("Saving oracle state to JSON file")
 
@@ -558,7 +559,6 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	if err != nil {
 		return errors.Wrap(err, "could not marshal state to JSON")
 	}
-	or.mutex.Unlock()
 
 	path := filepath.Join(StateFolder, StateJsonName)
 	err = os.MkdirAll(StateFolder, os.ModePerm)
@@ -568,7 +568,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	log.Trace("Saving state to file:", fmt.Sprintf("%s", jsonData))
 
-	err = ioutil.WriteFile(path, jsonData, 0644)
+	err = writeFileAtomic(path, jsonData)
 	if err != nil {
 		return errors.Wrap(err, "could not write file")
 	}
@@ -586,7 +586,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	// If saveSlot is true, save a copy of the state with the slot number in the file
 	if saveSlot {
-		filename := fmt.Sprintf("state_%d.json", or.State().LatestProcessedSlot)
+		filename := fmt.Sprintf("state_%d.json", or.state.LatestProcessedSlot)
 		path = filepath.Join(StateFolder, filename)
 
 		log.WithFields(log.Fields{
@@ -594,7 +594,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 			"FileName":            filename,
 		}).Info("Storing also a copy of the state")
 
-		err = ioutil.WriteFile(path, jsonData, 0644)
+		err = writeFileAtomic(path, jsonData)
 		if err != nil {
 			return errors.Wrap(err, "could not write file")
 		}
@@ -603,6 +603,40 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	return nil
 }
 
+// Writes a file so that at any time, also after a crash or a power cut, it has either its old
+// or its new content
+func writeFileAtomic(path string, data []byte) error {
+	tmp, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".tmp*")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(tmp.Name())
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(0644)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if errClose := tmp.Close(); err == nil {
+		err = errClose
+	}
+	if err != nil {
+		return err
+	}
+	if err = os.Rename(tmp.Name(), path); err != nil {
+		return err
+	}
+
+	// The new name is durable once its folder is
+	dir, err := os.Open(filepath.Dir(path))
+	if err != nil {
+		return err
+	}
+	defer dir.Close()
+	return dir.Sync()
+}
+
 // Loads the oracle state from a human readable json file. Multiple
 // check are performed to ensure the state is valid such as checking
 // the hash of the state and ensuring the configuation has not changed
-- 
2.43.0


From f8252822ca5b4e8832191fe02522c12f63942c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 10/24] fix: reject a state whose hash has another length
 instead of exiting

---
 oracle/oracle.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 86bf0f1..828dd98 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 	"sync"
 
 	"github.com/avast/retry-go/v4"
@@ -697,7 +698,7 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 	calculatedHashString := hexutil.Encode(calculatedHashByte[:])
 
 	// Hashes must match
-	if !utils.Equals(recoveredHash, calculatedHashString) {
+	if !strings.EqualFold(recoveredHash, calculatedHashString) {
 		return false, errors.New(fmt.Sprintf("hash mismatch, recovered: %s, calculated: %s",
 			recoveredHash, calculatedHashString))
 	}
-- 
2.43.0


From 3c90fe9f563b689755ced1c201243778e2708232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 11/24] fix: take a slot as missed only if the node answers 404

A connection error carries the URL, so any failure while fetching a slot
whose number contains 404 (or an error whose text names 404) was taken as
a missed block.
---
 oracle/onchain.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 1419d49..e4ee624 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -227,7 +227,9 @@ func (o *Onchain) GetConsensusBlockAtSlot(slot uint64, opts ...retry.Option) (*s
 			// Its not possible to detect if the block was missed or if the block doesn't exist in the chain
 			// GET failed with status 404: {"code":404,"message":"NOT_FOUND: beacon block at slot 7408169","stacktraces":[]}
 			// To keep compatibility after go-eth2-client changes, we consider that a missed block is nil
-			if strings.Contains(err.Error(), "404") {
+			// Only the status code of the answer counts, other errors can contain 404 as well, e.g. in the slot
+			var apiErr *api.Error
+			if errors.As(err, &apiErr) && apiErr.StatusCode == normalHttp.StatusNotFound {
 				signedBeaconBlock = &api.Response[*spec.VersionedSignedBeaconBlock]{
 					Data: nil,
 				}
-- 
2.43.0


From b1c992bf6b41946b6b21421a39e7c0e318d2fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 12/24] fix: report events that can not be decoded instead of
 dropping them

---
 oracle/onchain.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index e4ee624..a74877f 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1324,6 +1324,9 @@ func (o *Onchain) GetEtherReceivedEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not read EtherReceived events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close EtherReceived iterator")
@@ -1360,6 +1363,9 @@ func (o *Onchain) GetSubscribeValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not read SubscribeValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close SubscribeValidator iterator")
@@ -1415,6 +1421,9 @@ func (o *Onchain) GetUnsubscribeValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not read UnsubscribeValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnsubscribeValidator iterator")
@@ -1451,6 +1460,9 @@ func (o *Onchain) GetBanValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not read BanValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close BanValidator iterator")
@@ -1487,6 +1499,9 @@ func (o *Onchain) GetUnbanValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not read UnbanValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnbanValidator iterator")
@@ -1532,6 +1547,9 @@ func (o *Onchain) GetUpdatePoolFeeEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not read UpdatePoolFee events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFee iterator")
@@ -1567,6 +1585,9 @@ func (o *Onchain) GetPoolFeeRecipientEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not read UpdatePoolFeeRecipient events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFeeRecipient iterator")
@@ -1602,6 +1623,9 @@ func (o *Onchain) GetCheckpointSlotSizeEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not read UpdateCheckpointSlotSize events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateCheckpointSlotSize iterator")
@@ -1637,6 +1661,9 @@ func (o *Onchain) GetUpdateSubscriptionCollateralEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not read UpdateSubscriptionCollateral events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateSubscriptionCollateral iterator")
-- 
2.43.0


From cf87c2c8689e4653bb7de360f12c096546ab05cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 13/24] fix: do not take an answer without data as no pending
 consolidations

---
 oracle/onchain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index a74877f..ecb2738 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1946,6 +1946,11 @@ func (o *Onchain) GetPendingConsolidations(stateID string, opts ...retry.Option)
 			return fmt.Errorf("decoding response failed: %w", decodeErr)
 		}
 
+		if result.Data == nil {
+			log.Warn("Received pending consolidations response without data. Retrying...")
+			return errors.New("pending consolidations response without data")
+		}
+
 		consolidations = &result
 		return nil
 	}, o.GetRetryOpts(opts)...)
-- 
2.43.0


From c7d6561f865d5a7d4970df478dea57a50688aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 14/24] fix: serve statistics when all subscribed validators
 are red carded

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 0347f78..6d4ba96 100644
--- a/api/api.go
+++ b/api/api.go
@@ -353,7 +353,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	rewardsPerValidatorPer30Days := big.NewInt(0)
 	totalValidatorsEarning := totalActive + totalYellowCard
-	if totalSubscribed != 0 {
+	if totalValidatorsEarning != 0 {
 		// This metric can be biased if multiple validators exit at once within the month
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
-- 
2.43.0


From e3ddf3568e781a722ed904b356b71d31bd0cc8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 15/24] fix: refuse public keys with characters that are not
 hexadecimal

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 6d4ba96..1e0710a 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1113,7 +1113,7 @@ func IsValidAddress(v string) bool {
 }
 
 func IsValidPubkey(v string) bool {
-	re := regexp.MustCompile("^0x[0-9a-fA-f]{96}$")
+	re := regexp.MustCompile("^0x[0-9a-fA-F]{96}$")
 	return re.MatchString(v)
 }
 
-- 
2.43.0


From 9fcc0e77e4fc30fa9ec4ec924bd00ea2bb88b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 16/24] fix: do not show a preview without the events that can
 not be decoded

---
 api/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/api.go b/api/api.go
index 1e0710a..610e5dd 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1151,6 +1151,9 @@ func (m *ApiService) GetSubscriptionsTillHead(latestProcessedBlock uint64) ([]Su
 		}
 		blockSubscriptions = append(blockSubscriptions, sub)
 	}
+	if err := itrSubs.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate over validator events")
+	}
 	err = itrSubs.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
@@ -1176,6 +1179,9 @@ func (m *ApiService) GetUnsubscriptionsTillHead(latestProcessedBlock uint64) ([]
 		}
 		blockUnsubscriptions = append(blockUnsubscriptions, unsub)
 	}
+	if err := itrUnsubs.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate over validator events")
+	}
 	err = itrUnsubs.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
-- 
2.43.0


From e605f8ad40c6117e2ec38e1ffbd8d8a97bfb9cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 17/24] fix: do not crash on the subscription of a validator
 that is not loaded yet

---
 api/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 610e5dd..9b53214 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1235,7 +1235,8 @@ func (m *ApiService) ApplyNonFinalizedState(
 				eventAddress := subInBlock.Event.Sender.String()
 				if AreAddressEqual(valWithdrawalAddress, eventAddress) {
 					if subInBlock.Event.SubscriptionCollateral.Cmp(m.cfg.CollateralInWei) >= 0 {
-						if oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
+						// Nil if the validator is not among the ones loaded from the beacon node yet
+						if subInBlock.Validator != nil && oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
 							if val.ValidatorStatus == oracle.Untracked || val.ValidatorStatus == oracle.NotSubscribed {
 								validators[valIndex].ValidatorStatus = oracle.Active
 								validators[valIndex].PendingRewardsWei.Add(validators[valIndex].PendingRewardsWei, subInBlock.Event.SubscriptionCollateral)
-- 
2.43.0


From c858a9b831926a2c0487e019889fcbb9915f8542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 18/24] fix: do not wait forever for a report the contract has
 already left behind

---
 main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main.go b/main.go
index 6b6b828..674cf6c 100644
--- a/main.go
+++ b/main.go
@@ -471,6 +471,12 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 								"OracleSlot":  newState.Slot,
 							}).Info("The submitted state is now consolidated in the contract")
 							break
+						} else if onchainSlot > newState.Slot {
+							log.WithFields(log.Fields{
+								"OnchainSlot": onchainSlot,
+								"OracleSlot":  newState.Slot,
+							}).Warn("The contract is already beyond the submitted state, not waiting for it")
+							break
 						} else {
 							log.Info("Submitted merkle root is not consolidated, waiting for other oracles to update it")
 							time.Sleep(1 * time.Minute)
-- 
2.43.0


From 1bbe7d7a4a413b3527cce64526d81fb18330f7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 19/24] fix: do not take a failed report transaction for an
 accepted one

---
 main.go           | 5 ++++-
 oracle/onchain.go | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 674cf6c..5a1df30 100644
--- a/main.go
+++ b/main.go
@@ -445,7 +445,10 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 						// In this case it would be expected to fail, but note that the above delay should
 						// prevent this from happening.
 						// Example: "DappnodeSmoothingPool::submitReport: Slot number invalid"
-						if strings.Contains(err.Error(), "DappnodeSmoothingPool::submitReport: Slot number invalid") {
+						// The tx can also revert when mined, which tells no reason.
+						_, currentSlot, errSlot := onchain.GetOnchainSlotAndRoot()
+						if strings.Contains(err.Error(), "DappnodeSmoothingPool::submitReport: Slot number invalid") ||
+							(errSlot == nil && currentSlot >= newState.Slot) {
 							log.WithFields(log.Fields{
 								"Error": err,
 								"Root":  newState.MerkleRoot,
diff --git a/oracle/onchain.go b/oracle/onchain.go
index ecb2738..c34bb46 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1840,8 +1840,7 @@ func (o *Onchain) UpdateContractMerkleRoot(slot uint64, newMerkleRoot string) er
 				tx.Hash().Hex()))
 	}
 	if receipt.Status != types.ReceiptStatusSuccessful {
-		return errors.Wrap(err,
-			fmt.Sprintf("tx failed err: %d hash: %s", receipt.Status, tx.Hash().Hex()))
+		return errors.New(fmt.Sprintf("tx failed err: %d hash: %s", receipt.Status, tx.Hash().Hex()))
 	}
 
 	// Tx was sent and validated correctly, print receipt info
-- 
2.43.0


From 81d988e667b60f004dba7ee6d8f5e1beb75c4af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 20/24] fix: refuse to start when the nodes are not on the same
 chain

---
 oracle/onchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index c34bb46..3221c28 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -110,7 +110,7 @@ func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchai
 		" DepositContract: ", "0x"+hex.EncodeToString(depositContract.Data.Address[:]))
 
 	if depositContract.Data.ChainID != uint64(chainId.Int64()) {
-		return nil, errors.Wrap(err, fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
+		return nil, errors.New(fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
 			depositContract.Data.ChainID, chainId))
 	}
 
-- 
2.43.0


From 34d73aa8386cd13d983b109f85d75de384d26f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 21/24] fix: sync from the beginning when no saved state is old
 enough for the chain

---
 main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 5a1df30..ec0bb11 100644
--- a/main.go
+++ b/main.go
@@ -185,7 +185,14 @@ func main() {
 				log.Fatal("Critical error loading state from json: ", err)
 			}
 			if !found {
-				log.Fatal("Could not find a save state for slot ", onchainSlot)
+				// Happens for example if the oracle is stopped while its first checkpoint waits to be consolidated
+				log.Warn("Could not find a save state for slot ", onchainSlot, ", syncing from the beginning")
+
+				// Loading the state changed the config, get it again
+				cfg = onchain.GetConfigFromContract(cliCfg)
+				oracleInstance = oracle.NewOracle(cfg)
+				oracleInstance.SetGetSetOfValidatorsFunc(onchain.GetSetOfValidators)
+				oracleInstance.GetPendingConsolidationsFunc(onchain.GetPendingConsolidations)
 			}
 		}
 	}
-- 
2.43.0


From 4a8747439810d0b70e88ee57f51b954e54490e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 22/24] fix: do not skip the checkpoint of a state that was
 saved before commiting it

---
 main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index ec0bb11..55c9e91 100644
--- a/main.go
+++ b/main.go
@@ -239,6 +239,12 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 		"NextSlotToProcess":   oracleInstance.State().NextSlotToProcess,
 	}).Info("Processing, see api for progress")
 
+	// If the state was saved after its last slot was processed but before that slot was commited, it
+	// has to be commited now, otherwise that checkpoint would be skipped
+	latestCommited, _ := oracleInstance.LatestCommitedSlot()
+	atCheckpoint, err := oracleInstance.IsCheckpoint()
+	pendingCheckpoint := err == nil && atCheckpoint && latestCommited != oracleInstance.State().LatestProcessedSlot
+
 	for {
 		// Ensure that the nodes we are using are in sync with the blockchain (consensus + execution)
 		inSync, err := onchain.AreNodesInSync()
@@ -260,7 +266,9 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 
 		finalizedSlot := uint64(finalizedBlockHeader.Header.Message.Slot)
 
-		if finalizedSlot >= oracleInstance.State().NextSlotToProcess {
+		if pendingCheckpoint {
+			pendingCheckpoint = false
+		} else if finalizedSlot >= oracleInstance.State().NextSlotToProcess {
 
 			// Fetch block information
 			fullBlock := onchain.FetchFullBlock(oracleInstance.State().NextSlotToProcess, oracleInstance)
-- 
2.43.0


From a163fc5ae6afc3e9b182eaa5a78206c3d31b8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 23/24] fix: leave no trace of a block whose cleanup failed

---
 oracle/oracle.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 828dd98..79b371f 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -211,6 +211,14 @@ func (or *Oracle) AdvanceStateToNextSlot(fullBlock *FullBlock) (uint64, error) {
 			or.state.NextSlotToProcess, " ", fullBlock.ConsensusDuty.Slot))
 	}
 
+	// The cleanup can fail after the block was applied, since it needs the consensus client. Keep the
+	// state and fee as they are now to go back to them in that case
+	var stateBefore *OracleState
+	feeBefore := or.cfg.PoolFeesPercentOver10000
+	if or.state.NextSlotToProcess%uint64(1200) == 0 {
+		stateBefore = or.snapshotLockFree()
+	}
+
 	// Some misc validations
 	err := or.validateFullBlockConfig(fullBlock, or.cfg)
 	if err != nil {
@@ -278,6 +286,8 @@ func (or *Oracle) AdvanceStateToNextSlot(fullBlock *FullBlock) (uint64, error) {
 	if or.state.NextSlotToProcess%uint64(1200) == 0 {
 		err = or.ValidatorCleanup(or.state.NextSlotToProcess)
 		if err != nil {
+			or.state = stateBefore
+			or.cfg.PoolFeesPercentOver10000 = feeBefore
 			return 0, errors.Wrap(err, "could not cleanup validators")
 		}
 	}
-- 
2.43.0


From 03e044b22399fbfac8fea503e19b651d391ee4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:17 +0000
Subject: [PATCH 24/24] fix: accept a pool address without prefix as the one
 with it

---
 config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/config/config.go b/config/config.go
index e371736..2381552 100644
--- a/config/config.go
+++ b/config/config.go
@@ -77,6 +77,11 @@ func NewCliConfig() (*CliConfig, error) {
 		return nil, errors.New("pool-address: " + *poolAddress + " is not a valid address")
 	}
 
+	// The prefix is optional, but the address is compared with others that have it
+	if len(*poolAddress) == 2*common.AddressLength {
+		*poolAddress = "0x" + *poolAddress
+	}
+
 	// Post process the relayers endpoints, make it a slice
 	relayersEndpoints := strings.Split(*relayersEndpointsStr, ",")
 
-- 
2.43.0

