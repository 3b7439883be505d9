import sys; sys.path.insert(0,'/tmp/seedtool')
from seed import seed
from head import *
only=sys.argv[1:]
def s(id,*a,**k):
    if not only or id in only: seed(id,*a,**k)
CONS='''
func seedConsolidate(t *testing.T, o *Oracle, slot uint64, src, dst uint64) {
	cred := make([]byte, 32)
	cred[0], cred[31] = 1, 9
	o.SetGetSetOfValidatorsFunc(func(idx []phase0.ValidatorIndex, _ string, _ ...retry.Option) (map[phase0.ValidatorIndex]*v1.Validator, error) {
		m := map[phase0.ValidatorIndex]*v1.Validator{}
		for _, i := range idx {
			st := v1.ValidatorStateActiveOngoing
			if uint64(i) == src {
				st = v1.ValidatorStateExitedUnslashed
			}
			m[i] = &v1.Validator{Index: i, Status: st, Validator: &phase0.Validator{WithdrawalCredentials: cred, EffectiveBalance: 32000000000}}
		}
		return m, nil
	})
	o.GetPendingConsolidationsFunc(func(string, ...retry.Option) (*PendingConsolidationsResponse, error) {
		return &PendingConsolidationsResponse{Data: []PendingConsolidation{{SourceIndex: phase0.ValidatorIndex(src), TargetIndex: phase0.ValidatorIndex(dst)}}}, nil
	})
	o.state.NextSlotToProcess = slot
	if err := o.ValidatorCleanup(slot); err != nil {
		t.Fatal(err)
	}
}
'''
s('S01','C08','an exited validator that consolidates into a tracked target which is not subscribed and has nothing pending, at a cleanup slot',
 'the moved balance replaces the record of the target: what its owner could claim is gone',
 [('oracle/oracle.go','if or.isTracked(targetIdx) && !or.isBanned(targetIdx) {','if or.isSubscribed(targetIdx) {'),
  ('oracle/oracle.go','} else if !or.isTracked(targetIdx) {','} else if !or.isBanned(targetIdx) {')],
 HEAD+CONS+f'''
func TestSeedDemo(t *testing.T) {{
	o := seedOracle(Mainnet)
	o.state.Validators[1] = seedVal(1, Active, 0, 500, {A})
	o.state.Validators[2] = seedVal(2, NotSubscribed, 77, 0, {B})
	seedConsolidate(t, o, SlotElectraFork[Mainnet]/1200*1200+1200, 1, 2)
	v := o.state.Validators[2]
	if v.AccumulatedRewardsWei.Int64() != 77 || v.PendingRewardsWei.Int64() != 500 {{
		t.Fatal("target has ", v.AccumulatedRewardsWei, v.PendingRewardsWei)
	}}
}}
''')
s('S02','C05','a subscribed validator that proposes a wrong fee recipient block in which an owner also unsubscribes it, or any block where the validator bans after an unsubscription; here: unsubscribing a red card validator',
 'a red card validator that unsubscribes keeps its pending balance and gets it again when it subscribes and proposes',
 [('oracle/oracle.go','''			or.advanceStateMachine(valIdx, Unsubscribe)
			or.increaseAllPendingRewards(or.state.Validators[valIdx].PendingRewardsWei)
			or.resetPendingRewards(valIdx)
''','''			wasEligible := or.state.Validators[valIdx].ValidatorStatus != RedCard
			or.advanceStateMachine(valIdx, Unsubscribe)
			if wasEligible {
				or.increaseAllPendingRewards(or.state.Validators[valIdx].PendingRewardsWei)
				or.resetPendingRewards(valIdx)
			}
''')],
 HEAD+f'''
func TestSeedDemo(t *testing.T) {{
	o := seedOracle(Mainnet)
	o.state.NextSlotToProcess = SlotFork1[Mainnet] + 1
	o.state.Validators[1] = seedVal(1, RedCard, 0, 500, {A})
	cred := make([]byte, 32)
	cred[0] = 1
	for i := 12; i < 32; i++ {{
		cred[i] = 0x11
	}}
	ev := &contract.ContractUnsubscribeValidator{{ValidatorID: 1}}
	for i := range ev.Sender {{
		ev.Sender[i] = 0x11
	}}
	o.handleManualUnsubscriptions([]*contract.ContractUnsubscribeValidator{{ev}}, []*v1.Validator{{{{Index: 1, Validator: &phase0.Validator{{WithdrawalCredentials: cred}}}}}})
	if v := o.state.Validators[1]; v.ValidatorStatus != NotSubscribed || v.PendingRewardsWei.Sign() != 0 {{
		t.Fatal("validator ", v.ValidatorStatus, v.PendingRewardsWei)
	}}
}}
''')
s('S05','C09','validators whose recorded withdrawal addresses differ in letter case and would be ordered differently by case',
 'leaves are ordered by the addresses as recorded, so that two oracles (or one after a change of letter case) publish different roots',
 [('oracle/merklelizer.go','''				// In lowercase to avoid confusion when claiming
				WithdrawalAddress: strings.ToLower(validator.WithdrawalAddress),
''','''				WithdrawalAddress: validator.WithdrawalAddress,
'''),('oracle/merklelizer.go','''	// Prepend the leaf with the pool fees to the list of leafs. Always the first
''','''	// In lowercase to avoid confusion when claiming
	for i := range orderedByWithdrawalAddress {
		orderedByWithdrawalAddress[i].WithdrawalAddress = strings.ToLower(orderedByWithdrawalAddress[i].WithdrawalAddress)
	}

	// Prepend the leaf with the pool fees to the list of leafs. Always the first
''')],
 HEAD+'''
func TestSeedDemo(t *testing.T) {
	o := seedOracle(Mainnet)
	o.state.Validators[1] = seedVal(1, Active, 5, 0, "0xaa11111111111111111111111111111111111111")
	o.state.Validators[2] = seedVal(2, Active, 6, 0, "0xBB11111111111111111111111111111111111111")
	l := NewMerklelizer().AggregateValidatorsIndexes(o.state)
	if len(l) != 3 || l[1].WithdrawalAddress[:4] != "0xaa" || l[2].WithdrawalAddress[:4] != "0xbb" {
		t.Fatal("order of leaves: ", l)
	}
}
''')
s('S06','C04','a validator subscribed in the same block in which it proposes for the pool, or any proposal of a validator with a collateral pending; here a banned validator that proposes correctly',
 'a banned validator (unbanned later) that proposes for the pool loses its accumulated balance',
 [('oracle/oracle.go','''	or.state.Validators[valIndex].PendingRewardsWei = big.NewInt(0)

	log.WithFields(log.Fields{
		"AccumulatedAfter": ''','''	if or.isBanned(valIndex) {
		// Nothing can be pending here, keep the record clean
		or.state.Validators[valIndex].AccumulatedRewardsWei = new(big.Int).Set(beforePending)
	}
	or.state.Validators[valIndex].PendingRewardsWei = big.NewInt(0)

	log.WithFields(log.Fields{
		"AccumulatedAfter": ''')],
 HEAD+f'''
func TestSeedDemo(t *testing.T) {{
	o := seedOracle(Mainnet)
	o.state.NextSlotToProcess = SlotFork1[Mainnet] + 1
	o.state.Validators[1] = seedVal(1, Banned, 50, 0, {A})
	o.handleCorrectBlockProposal(SummarizedBlock{{ValidatorIndex: 1, Reward: big.NewInt(9), WithdrawalAddress: {A}}})
	if v := o.state.Validators[1]; v.AccumulatedRewardsWei.Int64() != 50 {{
		t.Fatal("accumulated ", v.AccumulatedRewardsWei)
	}}
}}
''')
s('S07','C06','a subscription with too little collateral for a validator that is tracked and not subscribed',
 'the collateral of an invalid subscription of a formerly subscribed validator goes to the validator instead of the operator',
 [('oracle/oracle.go','''			// Fees go to the pool, since validator does not exist in the pool
			or.sendRewardToPool(collateral)
''','''			if or.isTracked(valIdx) {
				// Since we track this validator, give the collateral back
				or.increaseValidatorAccumulatedRewards(valIdx, collateral)
				continue
			}
			// Fees go to the pool, since validator does not exist in the pool
			or.sendRewardToPool(collateral)
''')],
 HEAD+f'''
func TestSeedDemo(t *testing.T) {{
	o := seedOracle(Mainnet)
	o.state.NextSlotToProcess = SlotFork1[Mainnet] + 1
	o.state.Validators[1] = seedVal(1, NotSubscribed, 50, 0, {A})
	cred := make([]byte, 32)
	cred[0] = 1
	ev := &contract.ContractSubscribeValidator{{ValidatorID: 1, SubscriptionCollateral: big.NewInt(10)}}
	for i := range ev.Sender {{
		ev.Sender[i], cred[12+i] = 0x11, 0x11
	}}
	o.handleManualSubscriptions([]*contract.ContractSubscribeValidator{{ev}}, []*v1.Validator{{{{Index: 1, Status: v1.ValidatorStateActiveOngoing, Validator: &phase0.Validator{{WithdrawalCredentials: cred}}}}}})
	if v := o.state.Validators[1]; v.AccumulatedRewardsWei.Int64() != 50 || o.state.PoolAccumulatedFees.Int64() != 10 {{
		t.Fatal("validator ", v.AccumulatedRewardsWei, " operator ", o.state.PoolAccumulatedFees)
	}}
}}
''')
s('S08','C16','a fee event of the scheduled value in a slot other than the scheduled one, or a block with an event of another network\'s schedule; here: two fee events in the scheduled slot',
 'a second fee event in the scheduled block is ignored, so the oracle follows a fee that is not the one on chain',
 [('oracle/oracle.go','FEEPLACE','FEEPLACE')],'') if False else None
s('S09','C03','a validator whose wrong fee recipient block contains its own subscription (subscribed by the events of the block itself)',
 'a validator that subscribes in the very block that it proposes with a wrong fee recipient is not banned',
 [('oracle/oracle.go','''	// Handle subscriptions first thing
	or.handleManualSubscriptions(''','''	// Only proposals of subscribed validators are penalized
	wasSubscribed := or.isSubscribed(summarizedBlock.ValidatorIndex)

	// Handle subscriptions first thing
	or.handleManualSubscriptions('''),
  ('oracle/oracle.go','if summarizedBlock.BlockType == WrongFeeRecipient && or.isSubscribed(summarizedBlock.ValidatorIndex) {','if summarizedBlock.BlockType == WrongFeeRecipient && wasSubscribed {')],
 '''package oracle

import (
	"math/big"
	"testing"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
)

func TestSeedDemo(t *testing.T) {
	o := NewOracle(&Config{Network: Mainnet, PoolAddress: "0xAdFb8D27671F14f297eE94135e266aAFf8752e35", PoolFeesAddress: "0xfee0000000000000000000000000000000000fee", CollateralInWei: big.NewInt(1000), CheckPointSizeInSlots: 100, DeployedSlot: 10})
	o.state.LatestProcessedSlot, o.state.NextSlotToProcess = 11, 12
	cred := make([]byte, 32)
	cred[0] = 1
	ev := &contract.ContractSubscribeValidator{ValidatorID: 3, SubscriptionCollateral: big.NewInt(1000)}
	for i := range ev.Sender {
		ev.Sender[i], cred[12+i] = 0x11, 0x11
	}
	val := &v1.Validator{Index: 3, Status: v1.ValidatorStateActiveOngoing, Validator: &phase0.Validator{WithdrawalCredentials: cred}}
	fb := NewFullBlock(&v1.ProposerDuty{Slot: 12, ValidatorIndex: 3}, val, MainnetChainId)
	blk := &bellatrix.BeaconBlock{Slot: 12, ProposerIndex: 3, Body: &bellatrix.BeaconBlockBody{ExecutionPayload: &bellatrix.ExecutionPayload{BlockNumber: 5}}}
	fb.SetConsensusBlock(&spec.VersionedSignedBeaconBlock{Version: spec.DataVersionBellatrix, Bellatrix: &bellatrix.SignedBeaconBlock{Message: blk}})
	fb.Events.SubscribeValidator = []*contract.ContractSubscribeValidator{ev}
	fb.ValidatorsSubs = []*v1.Validator{val}
	if _, err := o.AdvanceStateToNextSlot(fb); err != nil {
		t.Fatal(err)
	}
	if s := o.state.Validators[3].ValidatorStatus; s != Banned {
		t.Fatal("validator is ", s)
	}
}
''')
