import sys; sys.path.insert(0,'/tmp/seedtool')
from seed import seed
HEAD='''package oracle

import (
	"math/big"
	"testing"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/core/types"
)

var _ = contract.ContractBanValidator{}
var _ types.Log
var _ v1.Validator
var _ phase0.Slot
var _ retry.Option

func seedOracle(net string) *Oracle {
	return NewOracle(&Config{Network: net, PoolAddress: "0xAdFb8D27671F14f297eE94135e266aAFf8752e35", PoolFeesAddress: "0xfee0000000000000000000000000000000000fee", PoolFeesPercentOver10000: 1000, CollateralInWei: big.NewInt(1000), CheckPointSizeInSlots: 100, DeployedSlot: 10})
}

func seedVal(i uint64, st ValidatorStatus, acc, pend int64, addr string) *ValidatorInfo {
	return &ValidatorInfo{ValidatorStatus: st, AccumulatedRewardsWei: big.NewInt(acc), PendingRewardsWei: big.NewInt(pend), CollateralWei: big.NewInt(0), WithdrawalAddress: addr, ValidatorIndex: i}
}

'''
A='"0x1111111111111111111111111111111111111111"'
B='"0x2222222222222222222222222222222222222222"'
only=sys.argv[1:]
def s(id,*a,**k):
    if not only or id in only: seed(id,*a,**k)
s('S01','C02','a reward shared in exactly the slot in which the Electra rule starts on a network, with eligible validators of different effective balance',
 'the first Electra slot still shares equally, so the oracle computes another root than the rest of the quorum',
 [('oracle/oracle.go','SlotElectraFork[or.cfg.Network]; found && or.state.NextSlotToProcess >= forkSlot','SlotElectraFork[or.cfg.Network]; found && or.state.LatestProcessedSlot >= forkSlot')],
 HEAD+'''func TestSeedDemo(t *testing.T) {
	for net, slot := range SlotElectraFork {
		o := seedOracle(net)
		o.state.NextSlotToProcess = slot
		o.state.LatestProcessedSlot = slot - 1
		if m := o.determineRewardMethod(); m != RewardMethodElectra {
			t.Fatalf("%s: %s at the fork slot", net, m)
		}
		o.state.NextSlotToProcess = slot - 1
		o.state.LatestProcessedSlot = slot - 2
		if m := o.determineRewardMethod(); m == RewardMethodElectra {
			t.Fatalf("%s: %s before the fork slot", net, m)
		}
	}
}
''')
s('S02','C05','two subscribed validators banned by events of one block, the first with a pending balance, before the Electra fork',
 'the validator banned second gets a share of the first one\'s pending balance before it is banned itself',
 [('oracle/oracle.go','''		totalPending.Add(totalPending, or.state.Validators[ban.ValidatorID].PendingRewardsWei)
		or.resetPendingRewards(ban.ValidatorID)

	}
''','''		totalPending.Set(or.state.Validators[ban.ValidatorID].PendingRewardsWei)
		or.resetPendingRewards(ban.ValidatorID)
		if totalPending.Sign() > 0 {
			or.increaseAllPendingRewards(totalPending)
			totalPending.SetInt64(0)
		}
	}
''')],
 HEAD+f'''func TestSeedDemo(t *testing.T) {{
	o := seedOracle(Mainnet)
	o.state.NextSlotToProcess = SlotFork1[Mainnet] + 1
	for i := uint64(1); i <= 3; i++ {{
		o.state.Validators[i] = seedVal(i, Active, 0, 1000, {A})
	}}
	o.handleManualBans([]*contract.ContractBanValidator{{{{ValidatorID: 1}}, {{ValidatorID: 2}}}})
	if p := o.state.Validators[3].PendingRewardsWei.Int64(); p != 1000+1800 {{
		t.Fatal("the remaining validator has pending ", p)
	}}
}}
''')
s('S03','C10','a checkpoint is frozen and a validator\'s balance changes afterwards',
 'the frozen record of a checkpoint keeps the live validator records, so that it changes with later blocks',
 [('oracle/oracle.go','''	utils.DeepCopy(or.state.Validators, &validatorsCopy)
''','''	for valIndex, validator := range or.state.Validators {
		info := *validator
		validatorsCopy[valIndex] = &info
	}
''')],
 HEAD+f'''func TestSeedDemo(t *testing.T) {{
	o := seedOracle(Mainnet)
	o.state.Validators[1] = seedVal(1, Active, 5, 7, {A})
	o.state.Validators[2] = seedVal(2, Active, 5, 7, {B})
	o.state.LatestProcessedSlot = 110
	if !o.FreezeCheckpoint() {{
		t.Fatal("not frozen")
	}}
	o.increaseValidatorAccumulatedRewards(1, big.NewInt(100))
	if x := o.LatestCommitedState().Validators[1].AccumulatedRewardsWei.Int64(); x != 5 {{
		t.Fatal("the frozen record changed to ", x)
	}}
}}
''')
s('S04','C15','a block that is refused because of an unexpected configuration event and that also has subscription events',
 'a refused block leaves its subscription events recorded, and the right block records them again: the books no longer balance',
 [('oracle/oracle.go','''	// Some misc validations
	err := or.validateFullBlockConfig(fullBlock, or.cfg)
''','''	// Store all events raw for trazability
	or.state.SubscriptionEvents = append(or.state.SubscriptionEvents, fullBlock.Events.SubscribeValidator...)
	or.state.UnsubscriptionEvents = append(or.state.UnsubscriptionEvents, fullBlock.Events.UnsubscribeValidator...)
	or.state.EtherReceivedEvents = append(or.state.EtherReceivedEvents, fullBlock.Events.EtherReceived...)

	// Some misc validations
	err := or.validateFullBlockConfig(fullBlock, or.cfg)
'''),('oracle/oracle.go','''	// Store all events raw for trazability
	or.state.SubscriptionEvents = append(or.state.SubscriptionEvents, fullBlock.Events.SubscribeValidator...)
	or.state.UnsubscriptionEvents = append(or.state.UnsubscriptionEvents, fullBlock.Events.UnsubscribeValidator...)
	or.state.EtherReceivedEvents = append(or.state.EtherReceivedEvents, fullBlock.Events.EtherReceived...)

	// Handle subscriptions first thing
''','''	// Handle subscriptions first thing
''')] if False else [('oracle/oracle.go','''	// Store all events raw for trazability
	or.state.SubscriptionEvents = append(or.state.SubscriptionEvents, fullBlock.Events.SubscribeValidator...)
	or.state.UnsubscriptionEvents = append(or.state.UnsubscriptionEvents, fullBlock.Events.UnsubscribeValidator...)
	or.state.EtherReceivedEvents = append(or.state.EtherReceivedEvents, fullBlock.Events.EtherReceived...)

	// Handle subscriptions first thing
''','''	// Handle subscriptions first thing
'''),('oracle/oracle.go','''	// Some misc validations
	err := or.validateFullBlockConfig(fullBlock, or.cfg)
''','''	// Store all events raw for trazability
	or.state.SubscriptionEvents = append(or.state.SubscriptionEvents, fullBlock.Events.SubscribeValidator...)
	or.state.UnsubscriptionEvents = append(or.state.UnsubscriptionEvents, fullBlock.Events.UnsubscribeValidator...)
	or.state.EtherReceivedEvents = append(or.state.EtherReceivedEvents, fullBlock.Events.EtherReceived...)

	// Some misc validations
	err := or.validateFullBlockConfig(fullBlock, or.cfg)
''')],
 HEAD+'''func TestSeedDemo(t *testing.T) {
	o := seedOracle(Mainnet)
	o.state.LatestProcessedSlot, o.state.NextSlotToProcess = 10, 11
	b := &FullBlock{ConsensusDuty: &v1.ProposerDuty{Slot: 11, ValidatorIndex: 3}, Validator: &v1.Validator{Validator: &phase0.Validator{WithdrawalCredentials: make([]byte, 32)}}, Events: &Events{
		EtherReceived: []*contract.ContractEtherReceived{{DonationAmount: big.NewInt(5)}},
		UpdatePoolFee: []*contract.ContractUpdatePoolFee{{NewPoolFee: big.NewInt(123)}}}}
	if _, err := o.AdvanceStateToNextSlot(b); err == nil {
		t.Fatal("not refused")
	}
	if len(o.state.EtherReceivedEvents) != 0 {
		t.Fatal("events of the refused block recorded")
	}
}
''')
s('S05','C08','a cleanup in which the exited validator consolidates into a target that is tracked and not subscribed',
 'the pending balance of a consolidated validator is shared with the pool although its target is tracked and not banned',
 [('oracle/oracle.go','if or.isTracked(targetIdx) && !or.isBanned(targetIdx) {','if or.isSubscribed(targetIdx) || (or.isTracked(targetIdx) && or.state.Validators[targetIdx].PendingRewardsWei.Sign() > 0) {'),
  ('oracle/oracle.go','} else if or.isBanned(targetIdx) {','} else if or.isTracked(targetIdx) {')],
 HEAD.replace('import (','import (\n\tapi "github.com/attestantio/go-eth2-client/api"\n\t"github.com/attestantio/go-eth2-client/spec/electra"') if False else '''package oracle

import (
	"testing"
)

func TestSeedDemo(t *testing.T) { t.Skip("replaced") }
''',check=False,tests=False) if False else None
s('S06','C19','a block with an MEV payment to the pool and a donation in the same block, the donation event coming before the MEV event',
 'donations that precede the MEV payment in the block are credited to nobody',
 [('oracle/block.go','''		filteredEvents = append(filteredEvents, etherRxEvent)
''','''		if foundMev || b.Events.EtherReceived[0] != etherRxEvent {
			filteredEvents = append(filteredEvents, etherRxEvent)
		}
''')],
 '',check=False) if False else None
s('S07','C18','a blob or set-code transaction (types 3, 4) whose tip is capped by the fee cap',
 'the tip of transactions of the newer types ignores the fee cap, so the vanilla reward is computed too high',
 [],'') if False else None
