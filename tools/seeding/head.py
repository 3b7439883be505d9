HEAD='''package oracle

import (
	"math/big"
	"testing"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/core/types"
)

var _ = contract.ContractBanValidator{}
var _ types.Log
var _ v1.Validator
var _ phase0.Slot
var _ retry.Option

func seedOracle(net string) *Oracle {
	return NewOracle(&Config{Network: net, PoolAddress: "0xAdFb8D27671F14f297eE94135e266aAFf8752e35", PoolFeesAddress: "0xfee0000000000000000000000000000000000fee", PoolFeesPercentOver10000: 1000, CollateralInWei: big.NewInt(1000), CheckPointSizeInSlots: 100, DeployedSlot: 10})
}

func seedVal(i uint64, st ValidatorStatus, acc, pend int64, addr string) *ValidatorInfo {
	return &ValidatorInfo{ValidatorStatus: st, AccumulatedRewardsWei: big.NewInt(acc), PendingRewardsWei: big.NewInt(pend), CollateralWei: big.NewInt(0), WithdrawalAddress: addr, ValidatorIndex: i}
}

'''
A='"0x1111111111111111111111111111111111111111"'
B='"0x2222222222222222222222222222222222222222"'
