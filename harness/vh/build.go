package main

import (
	"crypto/ecdsa"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"sync"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/altair"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/capella"
	"github.com/attestantio/go-eth2-client/spec/deneb"
	"github.com/attestantio/go-eth2-client/spec/electra"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
)

// ---------------------------------------------------------------- the fixed cast

var (
	poolAddr = common.HexToAddress("0xadfb8d27671f14f297ee94135e266aaff8752e35")
	feesAddr = common.HexToAddress("0xfee5fee5fee5fee5fee5fee5fee5fee5fee5fee5")
	ownerA   = common.HexToAddress("0x00000000000000000000000000000000000000aa")
	ownerB   = common.HexToAddress("0xbBbBBBBbbBBBbbbBbbBbbbbBBbBbbbbBbBbbBBbB")
	ownerC   = common.HexToAddress("0xcCCcCCccccccCCccCCccccCCCCccccCCcCcCCCcC")
	stranger = common.HexToAddress("0x5742a9e25742a9e25742a9e25742a9e25742a9e2")
	otherRec = common.HexToAddress("0x0ddba11d0ddba11d0ddba11d0ddba11d0ddba11d")
	mevProxy = common.HexToAddress("0x9e0e9e0e9e0e9e0e9e0e9e0e9e0e9e0e9e0e9e0e")
)

// keys of transaction senders: 0 builder (usual fee recipient of MEV blocks), 1 unrelated user,
// 2 whitelisted builder (added to the exported list of the mainnet chain), 3 a second user
var txKeys []*ecdsa.PrivateKey
var txAddr []common.Address

const (
	kBuilder = iota
	kUser
	kWhite
	kUser2
)

func setupCast() {
	for i := 0; i < 4; i++ {
		k, err := crypto.HexToECDSA(fmt.Sprintf("%064x", 0x1000+i))
		if err != nil {
			panic(err)
		}
		txKeys = append(txKeys, k)
		txAddr = append(txAddr, crypto.PubkeyToAddress(k.PublicKey))
	}
	for _, c := range []uint64{oracle.MainnetChainId} {
		oracle.WhitelistedBuilders[c] = append(append([]string{}, oracle.WhitelistedBuilders[c]...), txAddr[kWhite].String())
	}
}

// UVal is a validator as the beacon chain sees it.
type UVal struct {
	Idx    uint64
	Key    phase0.BLSPubKey
	Cred   [32]byte
	Status v1.ValidatorState
	Eff    uint64 // effective balance, gwei
}

func mkKey(idx uint64) (k phase0.BLSPubKey) {
	for i := range k {
		k[i] = byte(idx*7 + uint64(i))
	}
	k[0], k[1] = 0x8a, byte(idx)
	return
}

func cred(kind byte, a common.Address) (c [32]byte) {
	c[0] = kind
	if kind == 0 {
		for i := 1; i < 32; i++ {
			c[i] = byte(i)
		}
		return
	}
	copy(c[12:], a[:])
	return
}

func mkVal(idx uint64, kind byte, a common.Address) *UVal {
	return &UVal{Idx: idx, Key: mkKey(idx), Cred: cred(kind, a), Status: v1.ValidatorStateActiveOngoing, Eff: 32000000000}
}

func (u *UVal) bls() bool { return u.Cred[0] == 0 }
func (u *UVal) eth1() bool {
	return (u.Cred[0] == 1 || u.Cred[0] == 2) && [11]byte(u.Cred[1:12]) == [11]byte{}
}
func (u *UVal) addr() string   { return "0x" + hex.EncodeToString(u.Cred[12:]) }
func (u *UVal) keyHex() string { return "0x" + hex.EncodeToString(u.Key[:]) }
func (u *UVal) owner() common.Address {
	return common.BytesToAddress(u.Cred[12:])
}

func (u *UVal) api() *v1.Validator {
	c := make([]byte, 32)
	copy(c, u.Cred[:])
	return &v1.Validator{
		Index: phase0.ValidatorIndex(u.Idx), Balance: phase0.Gwei(u.Eff), Status: u.Status,
		Validator: &phase0.Validator{PublicKey: u.Key, WithdrawalCredentials: c, EffectiveBalance: phase0.Gwei(u.Eff),
			ActivationEpoch: 1, ExitEpoch: ^phase0.Epoch(0), WithdrawableEpoch: ^phase0.Epoch(0)},
	}
}

func (u *UVal) with(f func(*UVal)) *UVal { n := *u; f(&n); return &n }

// ---------------------------------------------------------------- abstract blocks

// Tx is one transaction of a block. To == nil is a contract creation.
type Tx struct {
	From     int
	To       *common.Address
	Value    *big.Int
	Type     int
	GasPrice *big.Int // legacy and access list
	Tip, Cap *big.Int // dynamic fee, blob, set code
	GasUsed  uint64
	Nonce    uint64 // 0: the position in the block
}

type Ether struct {
	From   common.Address
	Amount *big.Int
	At     common.Address // contract that emitted the event
}
type Sub struct {
	Idx    uint64
	Sender common.Address
	Coll   *big.Int
	Val    *UVal // nil: the beacon chain has no such validator
}
type Unsub struct {
	Idx    uint64
	Sender common.Address
	Val    *UVal
}

// Blk is everything the chain says about one slot.
type Blk struct {
	Name    string
	Slot    uint64
	Number  uint64
	Prop    *UVal
	Missed  bool
	Fork    spec.DataVersion
	FeeRec  common.Address
	Txs     []Tx
	BaseFee *big.Int
	GasUsed *uint64 // default: sum over the transactions
	Ether   []Ether
	Subs    []Sub
	Unsubs  []Unsub
	Bans    []uint64
	Unbans  []uint64

	Fee   []int64
	Recip []common.Address
	Ckpt  []uint64
	Coll  []*big.Int

	NoReceipts bool // header and receipts not fetched
}

func (b *Blk) clone() *Blk { n := *b; return &n }

var rawTxCache sync.Map

func rawTx(t Tx, nonce uint64, chain uint64) ([]byte, common.Hash) {
	to := "nil"
	if t.To != nil {
		to = t.To.Hex()
	}
	ck := fmt.Sprint(t.From, to, t.Value, t.Type, t.GasPrice, t.Tip, t.Cap, nonce, chain)
	type ent struct {
		raw []byte
		h   common.Hash
	}
	if e, ok := rawTxCache.Load(ck); ok {
		return append([]byte{}, e.(ent).raw...), e.(ent).h
	}
	val := t.Value
	if val == nil {
		val = new(big.Int)
	}
	gp := func(x *big.Int) *big.Int {
		if x == nil {
			return new(big.Int)
		}
		return x
	}
	var inner types.TxData
	cid := new(big.Int).SetUint64(chain)
	switch t.Type {
	case 0:
		inner = &types.LegacyTx{Nonce: nonce, GasPrice: gp(t.GasPrice), Gas: 21000, To: t.To, Value: val}
	case 1:
		inner = &types.AccessListTx{ChainID: cid, Nonce: nonce, GasPrice: gp(t.GasPrice), Gas: 21000, To: t.To, Value: val}
	case 2:
		inner = &types.DynamicFeeTx{ChainID: cid, Nonce: nonce, GasTipCap: gp(t.Tip), GasFeeCap: gp(t.Cap), Gas: 21000, To: t.To, Value: val}
	case 3:
		a := common.Address{}
		if t.To != nil {
			a = *t.To
		}
		inner = &types.BlobTx{ChainID: uint256.NewInt(chain), Nonce: nonce, GasTipCap: uint256.MustFromBig(gp(t.Tip)), GasFeeCap: uint256.MustFromBig(gp(t.Cap)),
			Gas: 21000, To: a, Value: uint256.MustFromBig(val), BlobFeeCap: uint256.NewInt(1), BlobHashes: []common.Hash{{1}}}
	case 4:
		a := common.Address{}
		if t.To != nil {
			a = *t.To
		}
		inner = &types.SetCodeTx{ChainID: uint256.NewInt(chain), Nonce: nonce, GasTipCap: uint256.MustFromBig(gp(t.Tip)), GasFeeCap: uint256.MustFromBig(gp(t.Cap)),
			Gas: 21000, To: a, Value: uint256.MustFromBig(val), AuthList: []types.SetCodeAuthorization{{}}}
	default:
		panic("tx type")
	}
	tx, err := types.SignNewTx(txKeys[t.From], types.LatestSignerForChainID(cid), inner)
	if err != nil {
		panic(err)
	}
	raw, err := tx.MarshalBinary()
	if err != nil {
		panic(err)
	}
	rawTxCache.Store(ck, ent{raw, tx.Hash()})
	return append([]byte{}, raw...), tx.Hash()
}

func (b *Blk) baseFee() *big.Int {
	if b.BaseFee == nil {
		return bi(7)
	}
	return b.BaseFee
}

func (b *Blk) gasUsed() uint64 {
	if b.GasUsed != nil {
		return *b.GasUsed
	}
	g := uint64(0)
	for _, t := range b.Txs {
		g += t.GasUsed
	}
	return g
}

func (b *Blk) version() spec.DataVersion {
	if b.Fork == 0 {
		return spec.DataVersionDeneb
	}
	return b.Fork
}

func littleEndian32(x *big.Int) (o [32]byte) {
	be := x.FillBytes(make([]byte, 32))
	for i := range o {
		o[i] = be[31-i]
	}
	return
}

func (b *Blk) consensus(chain uint64) (*spec.VersionedSignedBeaconBlock, []*types.Receipt) {
	var txs []bellatrix.Transaction
	var recs []*types.Receipt
	for i, t := range b.Txs {
		nonce := uint64(i)
		if t.Nonce != 0 {
			nonce = t.Nonce
		}
		raw, h := rawTx(t, nonce, chain)
		txs = append(txs, raw)
		recs = append(recs, &types.Receipt{TxHash: h, GasUsed: t.GasUsed, BlockNumber: new(big.Int).SetUint64(b.Number), Status: 1, TransactionIndex: uint(i)})
	}
	fr := bellatrix.ExecutionAddress(b.FeeRec)
	slot, prop := phase0.Slot(b.Slot), phase0.ValidatorIndex(b.Prop.Idx)
	v := &spec.VersionedSignedBeaconBlock{Version: b.version()}
	switch b.version() {
	case spec.DataVersionAltair:
		v.Altair = &altair.SignedBeaconBlock{Message: &altair.BeaconBlock{Slot: slot, ProposerIndex: prop, Body: &altair.BeaconBlockBody{}}}
	case spec.DataVersionBellatrix:
		v.Bellatrix = &bellatrix.SignedBeaconBlock{Message: &bellatrix.BeaconBlock{Slot: slot, ProposerIndex: prop, Body: &bellatrix.BeaconBlockBody{
			ExecutionPayload: &bellatrix.ExecutionPayload{FeeRecipient: fr, BlockNumber: b.Number, GasUsed: b.gasUsed(), BaseFeePerGas: littleEndian32(b.baseFee()), Transactions: txs}}}}
	case spec.DataVersionCapella:
		v.Capella = &capella.SignedBeaconBlock{Message: &capella.BeaconBlock{Slot: slot, ProposerIndex: prop, Body: &capella.BeaconBlockBody{
			ExecutionPayload: &capella.ExecutionPayload{FeeRecipient: fr, BlockNumber: b.Number, GasUsed: b.gasUsed(), BaseFeePerGas: littleEndian32(b.baseFee()), Transactions: txs}}}}
	case spec.DataVersionDeneb:
		v.Deneb = &deneb.SignedBeaconBlock{Message: &deneb.BeaconBlock{Slot: slot, ProposerIndex: prop, Body: &deneb.BeaconBlockBody{
			ExecutionPayload: &deneb.ExecutionPayload{FeeRecipient: fr, BlockNumber: b.Number, GasUsed: b.gasUsed(), BaseFeePerGas: uint256.MustFromBig(b.baseFee()), Transactions: txs}}}}
	case spec.DataVersionElectra, spec.DataVersionFulu:
		e := &electra.SignedBeaconBlock{Message: &electra.BeaconBlock{Slot: slot, ProposerIndex: prop, Body: &electra.BeaconBlockBody{
			ExecutionPayload: &deneb.ExecutionPayload{FeeRecipient: fr, BlockNumber: b.Number, GasUsed: b.gasUsed(), BaseFeePerGas: uint256.MustFromBig(b.baseFee()), Transactions: txs}}}}
		if b.version() == spec.DataVersionElectra {
			v.Electra = e
		} else {
			v.Fulu = e
		}
	default:
		panic("fork")
	}
	return v, recs
}

// txOf is the transaction of the i-th event of the block: two events per transaction, paired one way
// in even slots and the other way in odd ones.
func (b *Blk) txOf(i int) (uint, common.Hash) {
	t := uint(i+int(b.Slot%2)) / 2
	return t, common.BigToHash(new(big.Int).SetUint64(b.Number*1000 + uint64(t)))
}

func (b *Blk) raw(i int) types.Log {
	ti, th := b.txOf(i)
	return types.Log{Address: poolAddr, Topics: []common.Hash{{byte(i + 1)}}, Data: []byte{byte(i)}, BlockNumber: b.Number,
		TxHash: th, TxIndex: ti, Index: uint(i), BlockHash: common.Hash{9}}
}

func (b *Blk) events() *oracle.Events {
	e := &oracle.Events{}
	n := 0
	raw := func() types.Log { n++; return b.raw(n) }
	for _, x := range b.Ether {
		r := raw()
		r.Address = x.At
		e.EtherReceived = append(e.EtherReceived, &contract.ContractEtherReceived{Sender: x.From, DonationAmount: cp(x.Amount), Raw: r})
	}
	for _, x := range b.Subs {
		e.SubscribeValidator = append(e.SubscribeValidator, &contract.ContractSubscribeValidator{Sender: x.Sender, SubscriptionCollateral: cp(x.Coll), ValidatorID: x.Idx, Raw: raw()})
	}
	for _, x := range b.Unsubs {
		e.UnsubscribeValidator = append(e.UnsubscribeValidator, &contract.ContractUnsubscribeValidator{Sender: x.Sender, ValidatorID: x.Idx, Raw: raw()})
	}
	for _, x := range b.Bans {
		e.BanValidator = append(e.BanValidator, &contract.ContractBanValidator{ValidatorID: x, Raw: raw()})
	}
	for _, x := range b.Unbans {
		e.UnbanValidator = append(e.UnbanValidator, &contract.ContractUnbanValidator{ValidatorID: x, Raw: raw()})
	}
	for _, x := range b.Fee {
		e.UpdatePoolFee = append(e.UpdatePoolFee, &contract.ContractUpdatePoolFee{NewPoolFee: bi(x), Raw: raw()})
	}
	for _, x := range b.Recip {
		e.PoolFeeRecipient = append(e.PoolFeeRecipient, &contract.ContractUpdatePoolFeeRecipient{NewPoolFeeRecipient: x, Raw: raw()})
	}
	for _, x := range b.Ckpt {
		e.CheckpointSlotSize = append(e.CheckpointSlotSize, &contract.ContractUpdateCheckpointSlotSize{NewCheckpointSlotSize: x, Raw: raw()})
	}
	for _, x := range b.Coll {
		e.UpdateSubscriptionCollateral = append(e.UpdateSubscriptionCollateral, &contract.ContractUpdateSubscriptionCollateral{NewSubscriptionCollateral: cp(x), Raw: raw()})
	}
	return e
}

func (b *Blk) duty() *v1.ProposerDuty {
	return &v1.ProposerDuty{PubKey: b.Prop.Key, Slot: phase0.Slot(b.Slot), ValidatorIndex: phase0.ValidatorIndex(b.Prop.Idx)}
}

// full builds the block the way the fetcher hands it over (through the exported constructors).
func (b *Blk) full(chain uint64) *oracle.FullBlock {
	fb := oracle.NewFullBlock(b.duty(), b.Prop.api(), chain)
	if b.Missed {
		return fb
	}
	cb, recs := b.consensus(chain)
	fb.SetConsensusBlock(cb)
	fb.SetEvents(b.events())
	for _, s := range b.Subs {
		if s.Val == nil {
			fb.ValidatorsSubs = append(fb.ValidatorsSubs, nil)
		} else {
			fb.ValidatorsSubs = append(fb.ValidatorsSubs, s.Val.api())
		}
	}
	for _, s := range b.Unsubs {
		if s.Val == nil {
			fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, nil)
		} else {
			fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, s.Val.api())
		}
	}
	if !b.NoReceipts {
		if recs == nil {
			recs = []*types.Receipt{}
		}
		fb.SetHeaderAndReceipts(&types.Header{Number: new(big.Int).SetUint64(b.Number), BaseFee: cp(b.baseFee())}, recs)
	}
	return fb
}

func (b *Blk) String() string {
	if b.Name != "" {
		return b.Name
	}
	return b.describe()
}

func (b *Blk) describe() string {
	var s []string
	s = append(s, fmt.Sprintf("slot %d proposer %d", b.Slot, b.Prop.Idx))
	if b.Missed {
		s = append(s, "missed")
	} else {
		s = append(s, fmt.Sprintf("fork %s feeRecipient %s", b.version(), b.FeeRec.Hex()[:8]))
		for _, t := range b.Txs {
			to := "create"
			if t.To != nil {
				to = t.To.Hex()[:8]
			}
			s = append(s, fmt.Sprintf("tx{type %d from %s to %s value %v price %v tip %v cap %v gas %d}", t.Type, txAddr[t.From].Hex()[:8], to, t.Value, t.GasPrice, t.Tip, t.Cap, t.GasUsed))
		}
	}
	for _, e := range b.Ether {
		s = append(s, fmt.Sprintf("etherReceived{%v from %s}", e.Amount, e.From.Hex()[:8]))
	}
	for _, e := range b.Subs {
		st := "nonexistent"
		if e.Val != nil {
			st = fmt.Sprintf("%s cred %x", e.Val.Status, e.Val.Cred[:1])
		}
		s = append(s, fmt.Sprintf("sub{%d from %s collateral %v, %s}", e.Idx, e.Sender.Hex()[:8], e.Coll, st))
	}
	for _, e := range b.Unsubs {
		st := "nonexistent"
		if e.Val != nil {
			st = fmt.Sprintf("%s cred %x", e.Val.Status, e.Val.Cred[:1])
		}
		s = append(s, fmt.Sprintf("unsub{%d from %s, %s}", e.Idx, e.Sender.Hex()[:8], st))
	}
	if len(b.Bans) > 0 {
		s = append(s, fmt.Sprint("ban ", b.Bans))
	}
	if len(b.Unbans) > 0 {
		s = append(s, fmt.Sprint("unban ", b.Unbans))
	}
	if len(b.Fee)+len(b.Recip)+len(b.Ckpt)+len(b.Coll) > 0 {
		s = append(s, fmt.Sprint("config events fee ", b.Fee, " recipient ", b.Recip, " checkpoint ", b.Ckpt, " collateral ", b.Coll))
	}
	return strings.Join(s, ", ")
}
