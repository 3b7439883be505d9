import sys; sys.path.insert(0,'/tmp/seedtool')
from seed2 import seed
from head import *
only=sys.argv[1:]
def s(id,*a,**k):
    if not only or id in only: seed(id,*a,**k)
def H(*imps):
    h=HEAD
    for i in imps: h=h.replace('import (\n','import (\n\t"%s"\n'%i,1)
    return h
APIH='''package api

import (
	"math/big"
	"testing"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
)

var _ = contract.ContractBanValidator{}
var _ types.Log
var _ v1.Validator
var _ phase0.Slot
var _ common.Address
var _ = oracle.Active

func seedCfg() *oracle.Config {
	return &oracle.Config{Network: "mainnet", PoolAddress: "0xadfb8d27671f14f297ee94135e266aaff8752e35", PoolFeesAddress: "0xfee0000000000000000000000000000000000fee", PoolFeesPercentOver10000: 1000, CollateralInWei: big.NewInt(1000), CheckPointSizeInSlots: 100, DeployedSlot: 10}
}

'''
def A_(*imps):
    h=APIH
    for i in imps: h=h.replace('import (\n','import (\n\t"%s"\n'%i,1)
    return h
# a block whose transactions are signed by a fresh builder key
BLK='''
func seedBlock(t *testing.T, number uint64, feeRec common.Address, base uint64, gas uint64, txs ...*types.Transaction) *FullBlock {
	b := NewFullBlock(&v1.ProposerDuty{Slot: 11, ValidatorIndex: 1}, &v1.Validator{Index: 1}, 1)
	p := &bellatrix.ExecutionPayload{BlockNumber: number, GasUsed: gas, FeeRecipient: bellatrix.ExecutionAddress(feeRec)}
	for i := 0; i < 8; i++ {
		p.BaseFeePerGas[i] = byte(base >> (8 * i))
	}
	var rs []*types.Receipt
	for _, x := range txs {
		raw, err := x.MarshalBinary()
		if err != nil {
			t.Fatal(err)
		}
		p.Transactions = append(p.Transactions, raw)
		rs = append(rs, &types.Receipt{TxHash: x.Hash(), GasUsed: x.Gas(), BlockNumber: new(big.Int).SetUint64(number)})
	}
	b.ConsensusBlock = &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionBellatrix, Bellatrix: &bellatrix.SignedBeaconBlock{Message: &bellatrix.BeaconBlock{Slot: 11, ProposerIndex: 1, Body: &bellatrix.BeaconBlockBody{ExecutionPayload: p}}}}
	b.ExecutionHeader = &types.Header{Number: new(big.Int).SetUint64(number), BaseFee: new(big.Int).SetUint64(base)}
	b.ExecutionReceipts = rs
	return b
}

func seedTx(k *ecdsa.PrivateKey, to common.Address, val int64, tip, feeCap int64, gas uint64) *types.Transaction {
	x, err := types.SignNewTx(k, types.LatestSignerForChainID(big.NewInt(1)), &types.DynamicFeeTx{ChainID: big.NewInt(1), To: &to, Value: big.NewInt(val), Gas: gas, GasTipCap: big.NewInt(tip), GasFeeCap: big.NewInt(feeCap)})
	if err != nil {
		panic(err)
	}
	return x
}
'''
BI=('crypto/ecdsa','github.com/ethereum/go-ethereum/crypto','github.com/ethereum/go-ethereum/common','github.com/attestantio/go-eth2-client/spec','github.com/attestantio/go-eth2-client/spec/bellatrix')
s('S15','C17','a block in which the builder pays the proposer itself while the pool receives one ether event of another amount',
 'an MEV payment to somebody else counts as one for the pool when the block has a single donation',
 [('oracle/block.go','				if event.DonationAmount.Cmp(tx.Value()) == 0 {','				if len(b.Events.EtherReceived) == 1 || event.DonationAmount.Cmp(tx.Value()) == 0 {')],
 H(*BI)+BLK+'''
func TestSeedDemo(t *testing.T) {
	k, _ := crypto.GenerateKey()
	builder := crypto.PubkeyToAddress(k.PublicKey)
	pool := common.HexToAddress("0xAdFb8D27671F14f297eE94135e266aAFf8752e35")
	b := seedBlock(t, 5, builder, 1, 21000, seedTx(k, common.HexToAddress("0x77"), 500, 1, 10, 21000))
	b.Events.EtherReceived = []*contract.ContractEtherReceived{{DonationAmount: big.NewInt(3), Raw: types.Log{Address: pool, BlockNumber: 5}}}
	if _, is, to := b.MevRewardInWei(); !is || common.HexToAddress(to) != common.HexToAddress("0x77") {
		t.Fatal("mev", is, to)
	}
}
''')
s('S16','C18','a full block while the base fee is above some 300 gwei',
 'the burnt fees overflow in a full block with a high base fee: the vanilla reward is wrong',
 [('oracle/block.go','	burnt := new(big.Int).Mul(big.NewInt(int64(b.GetGasUsed())), baseFeePerGas)\n','	burnt := new(big.Int).SetUint64(b.GetGasUsed() * baseFeePerGas.Uint64())\n')],
 H(*BI)+BLK+'''
func TestSeedDemo(t *testing.T) {
	k, _ := crypto.GenerateKey()
	base := int64(700_000_000_000)
	gas := uint64(30_000_000)
	b := seedBlock(t, 5, common.HexToAddress("0x55"), uint64(base), gas, seedTx(k, common.HexToAddress("0x77"), 500, 2, 2*base, gas))
	tip, err := b.GetProposerTip()
	if err != nil || tip.Cmp(big.NewInt(60_000_000)) != 0 {
		t.Fatal(tip, err)
	}
}
''')
s('S17','C19','two donations of the same amount in one transaction of a block',
 'donations of the same amount that arrive in the same transaction are credited once',
 [('oracle/oracle.go','''	for _, donation := range donations {
		or.increaseAllPendingRewards(donation.DonationAmount)
''','''	for i, donation := range donations {
		if i > 0 && donation.Raw.TxHash == donations[i-1].Raw.TxHash && donation.DonationAmount.Cmp(donations[i-1].DonationAmount) == 0 {
			continue
		}
		or.increaseAllPendingRewards(donation.DonationAmount)
''')],
 H('github.com/ethereum/go-ethereum/common')+f'''
func TestSeedDemo(t *testing.T) {{
	o := seedOracle(Mainnet)
	tx := common.HexToHash("0x12")
	o.handleDonations([]*contract.ContractEtherReceived{{
		{{DonationAmount: big.NewInt(50), Raw: types.Log{{BlockNumber: 5, TxHash: tx, Index: 1}}}},
		{{DonationAmount: big.NewInt(50), Raw: types.Log{{BlockNumber: 5, TxHash: tx, Index: 2}}}},
	}})
	if o.state.PoolAccumulatedFees.Int64() != 100 {{
		t.Fatal("fees ", o.state.PoolAccumulatedFees)
	}}
}}
''')
s('S20','C20','a consensus node that answers 404 to the request for the pending consolidations, as it does for a state it does not have (yet)',
 'a state that the node does not know counts as one without consolidations',
 [('oracle/onchain.go','''		if resp.StatusCode != normalHttp.StatusOK {
''','''		if resp.StatusCode == normalHttp.StatusNotFound {
			// Nodes before electra do not have this endpoint
			consolidations = &PendingConsolidationsResponse{}
			return nil
		}

		if resp.StatusCode != normalHttp.StatusOK {
''')],
 H('context','net/http','net/http/httptest','time')[:-1].replace('"net/http"\n','nh "net/http"\n').replace('import (\n','import (\n\tech "github.com/attestantio/go-eth2-client/http"\n',1)+'''
func TestSeedDemo(t *testing.T) {
	srv := httptest.NewServer(nh.HandlerFunc(func(w nh.ResponseWriter, _ *nh.Request) {
		w.WriteHeader(404)
		w.Write([]byte(`{"code":404,"message":"NOT_FOUND: state"}`))
	}))
	defer srv.Close()
	c, err := ech.New(context.Background(), ech.WithAddress(srv.URL), ech.WithTimeout(5*time.Second), ech.WithAllowDelayedStart(true))
	if err != nil {
		t.Fatal(err)
	}
	o := &Onchain{ConsensusClient: c.(*ech.Service), NumRetries: 1}
	if r, err := o.GetPendingConsolidations("12", retry.Attempts(1)); err == nil {
		t.Fatal("accepted ", r)
	}
}
''')
s('S22','C25','a validator with a red card that unsubscribes, while its unsubscription is not finalized',
 'the preview does not show the unsubscription of a validator with a red card',
 [('api/api.go','''					if val.ValidatorStatus == oracle.Active ||
						val.ValidatorStatus == oracle.YellowCard ||
						val.ValidatorStatus == oracle.RedCard {
						validators[valIndex]''','''					if val.ValidatorStatus == oracle.Active ||
						val.ValidatorStatus == oracle.YellowCard {
						validators[valIndex]''')],
 A_()+f'''
func TestSeedDemo(t *testing.T) {{
	m := &ApiService{{cfg: seedCfg()}}
	vals := map[uint64]*oracle.ValidatorInfo{{7: {{ValidatorStatus: oracle.RedCard, AccumulatedRewardsWei: big.NewInt(1), PendingRewardsWei: big.NewInt(5), CollateralWei: big.NewInt(0), WithdrawalAddress: {A}, ValidatorIndex: 7}}}}
	m.ApplyNonFinalizedState(nil, []Unsubscription{{{{Event: &contract.ContractUnsubscribeValidator{{ValidatorID: 7, Sender: common.HexToAddress({A}), Raw: types.Log{{BlockNumber: 9}}}}}}}}, vals)
	if vals[7].ValidatorStatus != oracle.NotSubscribed || vals[7].PendingRewardsWei.Sign() != 0 {{
		t.Fatal(vals[7])
	}}
}}
''',pkg='api')
s('S23','C26','two missed blocks of subscribed validators',
 'the list of all blocks shows only the first missed block',
 [('api/api.go','''	for _, block := range state.MissedBlocks {
		allBlocks = append''','''	for _, block := range state.MissedBlocks {
		// A block is listed once
		if slices.ContainsFunc(allBlocks, func(b httpOkBlock) bool { return b.Block == block.Block }) {
			continue
		}
		allBlocks = append'''),('api/api.go','import (\n','import (\n\t"slices"\n')],
 A_('encoding/json','net/http/httptest')+'''
func TestSeedDemo(t *testing.T) {
	o := oracle.NewOracle(seedCfg())
	for _, slot := range []uint64{20, 30} {
		o.State().MissedBlocks = append(o.State().MissedBlocks, oracle.SummarizedBlock{Slot: slot, ValidatorIndex: 7, BlockType: oracle.MissedProposal, Reward: big.NewInt(0)})
	}
	m := &ApiService{cfg: seedCfg(), oracle: o}
	w := httptest.NewRecorder()
	m.handleMemoryAllBlocks(w, httptest.NewRequest("GET", "/memory/allblocks", nil))
	var l []httpOkBlock
	if err := json.Unmarshal(w.Body.Bytes(), &l); err != nil || len(l) != 2 {
		t.Fatal(err, w.Body.String())
	}
}
''',pkg='api')
s('S24','C27','a validator index written with an underscore or in another base',
 'indices that are not decimal numbers are accepted',
 [('api/api.go','strconv.ParseUint(v, 10, 64)','strconv.ParseUint(v, 0, 64)')],
 A_()+'''
func TestSeedDemo(t *testing.T) {
	for _, s := range []string{"0x10", "1_0", "0b1"} {
		if i, ok := IsValidIndex(s); ok {
			t.Fatal(s, i)
		}
	}
}
''',pkg='api')
