import sys; sys.path.insert(0,'/tmp/seedtool')
from seed2 import seed
from head import *
only=sys.argv[1:]
def s(id,*a,**k):
    if not only or id in only: seed(id,*a,**k)
def H(*imps):
    h=HEAD
    for i in imps: h=h.replace('import (\n','import (\n\t"%s"\n'%i,1)
    return h
s('S10','C02','a reward shared after the Electra fork in a slot whose effective balances differ from those at the start of its epoch',
 'the shares follow the effective balances of another slot than the one in which the reward arrived',
 [('oracle/oracle.go','or.getSetOfValidators(eligibleValidators, strconv.FormatUint(or.state.NextSlotToProcess, 10))','or.getSetOfValidators(eligibleValidators, strconv.FormatUint(or.state.NextSlotToProcess/32*32, 10))')],
 H('strconv')+f'''
func TestSeedDemo(t *testing.T) {{
	o := seedOracle(Mainnet)
	slot := SlotElectraFork[Mainnet]/32*32 + 45
	o.state.NextSlotToProcess = slot
	o.state.Validators[1] = seedVal(1, Active, 0, 0, {A})
	o.state.Validators[2] = seedVal(2, Active, 0, 0, {B})
	o.SetGetSetOfValidatorsFunc(func(idx []phase0.ValidatorIndex, at string, _ ...retry.Option) (map[phase0.ValidatorIndex]*v1.Validator, error) {{
		m := map[phase0.ValidatorIndex]*v1.Validator{{}}
		for _, i := range idx {{
			b := phase0.Gwei(32000000000)
			if i == 2 && at == strconv.FormatUint(slot, 10) {{
				b = 64000000000
			}}
			m[i] = &v1.Validator{{Index: i, Validator: &phase0.Validator{{EffectiveBalance: b}}}}
		}}
		return m, nil
	}})
	o.increaseAllPendingRewards(big.NewInt(3000000))
	a, b := o.state.Validators[1].PendingRewardsWei, o.state.Validators[2].PendingRewardsWei
	if a.Int64() != 900000 || b.Int64() != 1800000 {{
		t.Fatal("shares ", a, b)
	}}
}}
''')
s('S11','C09','two withdrawal addresses that share their first eight bytes',
 'the leaves of two addresses with a common prefix are in the order in which the validators were visited: the root changes from run to run',
 [('oracle/merklelizer.go','return sortedLeafs[i].WithdrawalAddress < sortedLeafs[j].WithdrawalAddress','return binary.BigEndian.Uint64(common.HexToAddress(sortedLeafs[i].WithdrawalAddress).Bytes()) < binary.BigEndian.Uint64(common.HexToAddress(sortedLeafs[j].WithdrawalAddress).Bytes())'),
  ('oracle/merklelizer.go','import (\n','import (\n\t"encoding/binary"\n')],
 H()+'''
func TestSeedDemo(t *testing.T) {
	o := seedOracle(Mainnet)
	o.state.Validators[1] = seedVal(1, Active, 10, 0, "0x1111111111111111aaaaaaaaaaaaaaaaaaaaaaaa")
	o.state.Validators[2] = seedVal(2, Active, 20, 0, "0x1111111111111111bbbbbbbbbbbbbbbbbbbbbbbb")
	o.state.Validators[3] = seedVal(3, Active, 30, 0, "0x1111111111111111cccccccccccccccccccccccc")
	r, _ := o.getMerkleRootIfAny()
	for i := 0; i < 200; i++ {
		if q, _ := o.getMerkleRootIfAny(); q != r {
			t.Fatal("roots ", r, q)
		}
	}
}
''')
s('S12','C12','saving and reloading a state that recorded a missed block of a subscribed validator',
 'a state with a missed block can not be loaded any more after it was saved',
 [('oracle/types.go','''	} else if rewardtype == "unknownrewardtype" {
		*s = UnknownRewardType
	} else {''','''	} else {''')],
 H('os')+f'''
func TestSeedDemo(t *testing.T) {{
	os.Chdir(os.Getenv("SEED_DIR"))
	o := seedOracle(Mainnet)
	o.state.Validators[1] = seedVal(1, Active, 10, 0, {A})
	o.handleMissedBlock(SummarizedBlock{{Slot: 12, ValidatorIndex: 1, Reward: big.NewInt(0), BlockType: MissedProposal}})
	if err := o.SaveToJson(false); err != nil {{
		t.Fatal(err)
	}}
	p := seedOracle(Mainnet)
	if ok, err := p.LoadFromJson(); !ok || err != nil {{
		t.Fatal(ok, err)
	}}
}}
''')
s('S13','C13','a saved state of a pool whose checkpoints were of another size',
 'a state that was made with a smaller checkpoint size than the one of the pool is accepted',
 [('oracle/oracle.go','if state.CheckPointSizeInSlots != or.cfg.CheckPointSizeInSlots {','if state.CheckPointSizeInSlots > or.cfg.CheckPointSizeInSlots {')],
 H('os')+f'''
func TestSeedDemo(t *testing.T) {{
	os.Chdir(os.Getenv("SEED_DIR"))
	o := seedOracle(Mainnet)
	o.state.Validators[1] = seedVal(1, Active, 10, 0, {A})
	o.state.CheckPointSizeInSlots = 50
	if err := o.SaveToJson(false); err != nil {{
		t.Fatal(err)
	}}
	p := seedOracle(Mainnet)
	if ok, err := p.LoadFromJson(); ok || err == nil {{
		t.Fatal("accepted", ok, err)
	}}
}}
''')
s('S14','C16','a block with two events that change the recipient of the pool fees, the first of which sets it to what it is',
 'a block that changes the recipient of the fees twice is accepted though it leaves another recipient than the configured one',
 [('oracle/oracle.go','''		len(fullBlock.Events.PoolFeeRecipient) > 1 ||
''','''''')],
 H('github.com/ethereum/go-ethereum/common')+'''
func TestSeedDemo(t *testing.T) {
	o := seedOracle(Mainnet)
	b := NewFullBlock(&v1.ProposerDuty{Slot: 11}, &v1.Validator{}, 1)
	b.Events.PoolFeeRecipient = []*contract.ContractUpdatePoolFeeRecipient{
		{NewPoolFeeRecipient: common.HexToAddress(o.cfg.PoolFeesAddress)},
		{NewPoolFeeRecipient: common.HexToAddress("0x01")},
	}
	if err := o.validateFullBlockConfig(b, o.cfg); err == nil {
		t.Fatal("accepted")
	}
}
''')
s('S18','C23','a save that fails because the folder of the states can not be made',
 'a failed save keeps the lock: every later call that reads or changes the state waits for ever',
 [('oracle/oracle.go','''	or.mutex.Lock()
	defer or.mutex.Unlock()

	log.Info("Saving oracle state to JSON file")
''','''	or.mutex.Lock()

	log.Info("Saving oracle state to JSON file")
'''),
  ('oracle/oracle.go','''	err := or.hashStateLockFree()
	if err != nil {
		return errors.Wrap(err, "error hashing the oracle state")
	}

	jsonData, err := json.MarshalIndent(or.state, "", " ")
	if err != nil {
		return errors.Wrap(err, "could not marshal state to JSON")
	}

	path := filepath.Join(StateFolder, StateJsonName)
	err = os.MkdirAll(StateFolder, os.ModePerm)
	if err != nil {
		return errors.Wrap(err, "could not create folder")
	}
''','''	path := filepath.Join(StateFolder, StateJsonName)
	err := os.MkdirAll(StateFolder, os.ModePerm)
	if err != nil {
		return errors.Wrap(err, "could not create folder")
	}
	defer or.mutex.Unlock()

	err = or.hashStateLockFree()
	if err != nil {
		return errors.Wrap(err, "error hashing the oracle state")
	}

	jsonData, err := json.MarshalIndent(or.state, "", " ")
	if err != nil {
		return errors.Wrap(err, "could not marshal state to JSON")
	}
''')],
 H('os','time')+f'''
func TestSeedDemo(t *testing.T) {{
	os.Chdir(os.Getenv("SEED_DIR"))
	os.WriteFile(StateFolder, []byte("a file"), 0o644)
	o := seedOracle(Mainnet)
	o.state.Validators[1] = seedVal(1, Active, 10, 0, {A})
	if err := o.SaveToJson(false); err == nil {{
		t.Fatal("saved")
	}}
	done := make(chan int)
	go func() {{ o.LatestCommitedSlot(); close(done) }}()
	select {{
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("stuck")
	}}
}}
''')
s('S25','C28','a validator that is not subscribed and holds a pending balance, which a consolidation gave it',
 'the reconciliation leaves out what is pending for validators that are not subscribed',
 [('oracle/oracle.go','''		totalCumulativeRewards.Add(totalCumulativeRewards, val.PendingRewardsWei)
''','''		if val.ValidatorStatus != NotSubscribed {
			totalCumulativeRewards.Add(totalCumulativeRewards, val.PendingRewardsWei)
		}
''')],
 H()+f'''
func TestSeedDemo(t *testing.T) {{
	o := seedOracle(Mainnet)
	o.state.Validators[1] = seedVal(1, NotSubscribed, 10, 500, {A})
	if err := o.RunOnchainReconciliation(big.NewInt(510), map[string]*big.Int{{}}); err != nil {{
		t.Fatal(err)
	}}
}}
''')
s('S27','C01','a ban of two validators in one block, or of a validator twice; here the ban of the only subscribed validators together',
 'what was pending for validators that are banned together when nobody else is left is lost',
 [('oracle/oracle.go','''	if totalPending.Cmp(big.NewInt(0)) > 0 {
''','''	if totalPending.Cmp(big.NewInt(0)) > 0 && len(or.getEligibleValidators()) > 0 {
''')],
 H()+f'''
func TestSeedDemo(t *testing.T) {{
	o := seedOracle(Mainnet)
	o.state.Validators[1] = seedVal(1, Active, 0, 500, {A})
	o.handleManualBans([]*contract.ContractBanValidator{{{{ValidatorID: 1}}}})
	if o.state.PoolAccumulatedFees.Int64() != 500 {{
		t.Fatal("fees ", o.state.PoolAccumulatedFees)
	}}
}}
''')
s('S28','C07','an unsubscription by the owner of a validator that is not subscribed and has a pending balance, which a consolidation gave it',
 'the unsubscription of a validator that is not subscribed takes its pending balance away',
 [('oracle/oracle.go','''		if or.isSubscribed(valIdx) {
			or.advanceStateMachine(valIdx, Unsubscribe)
''','''		if or.isTracked(valIdx) && !or.isBanned(valIdx) {
			if or.isSubscribed(valIdx) {
				or.advanceStateMachine(valIdx, Unsubscribe)
			}
''')],
 H('github.com/ethereum/go-ethereum/common')+f'''
func TestSeedDemo(t *testing.T) {{
	o := seedOracle(Mainnet)
	o.state.Validators[1] = seedVal(1, NotSubscribed, 0, 100, {A})
	o.state.Validators[2] = seedVal(2, Active, 0, 0, {B})
	cred := append([]byte{{1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}, common.HexToAddress({A}).Bytes()...)
	o.handleManualUnsubscriptions([]*contract.ContractUnsubscribeValidator{{{{ValidatorID: 1, Sender: common.HexToAddress({A})}}}},
		[]*v1.Validator{{{{Index: 1, Validator: &phase0.Validator{{WithdrawalCredentials: cred}}}}}})
	if o.state.Validators[1].PendingRewardsWei.Int64() != 100 {{
		t.Fatal("pending ", o.state.Validators[1].PendingRewardsWei)
	}}
}}
''')
