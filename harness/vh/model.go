package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/attestantio/go-eth2-client/spec"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
)

// The reference model: what processing a block has to do, written from the documentation (README,
// spec/README.md, the comments of the contract and of the code) over abstract blocks. It shares no
// code with the oracle and works on immutable numbers.

const (
	stUntracked = -1
	stActive    = 1
	stYellow    = 2
	stRed       = 3
	stNotSub    = 4
	stBanned    = 5
)

var stName = map[int]string{stUntracked: "untracked", stActive: "active", stYellow: "yellow", stRed: "red", stNotSub: "notsubscribed", stBanned: "banned"}

type MV struct {
	St        int
	Acc, Pend *big.Int
	Coll      *big.Int
	Addr      string
	Key       string
	Auto      bool
}

type MRec struct {
	Slot, Block, Idx uint64
	Key              string
	Type             int // oracle.BlockType
	Reward           *big.Int
	RType            int
	Addr             string
}

type MState struct {
	Next, LatestBlock    uint64
	Fee                  int
	Pool                 *big.Int
	V                    map[uint64]*MV
	Prop, Miss, Wrong    []MRec
	NSub, NUnsub, NEther int
	Don                  []*big.Int
	Income               *big.Int // ghost: everything the pool received so far
	Tiny                 bool     // before fork 1, a share was negative
	Alt                  bool     // reached through an ambiguous order (several outcomes are right)
}

func newModel(c *oracle.Config) *MState {
	return &MState{Next: c.DeployedSlot, Fee: c.PoolFeesPercentOver10000, Pool: bi(0), V: map[uint64]*MV{}, Income: bi(0)}
}

func (m *MState) clone() *MState {
	n := *m
	n.V = make(map[uint64]*MV, len(m.V))
	for k, v := range m.V {
		c := *v
		n.V[k] = &c
	}
	n.Prop = append([]MRec{}, m.Prop...)
	n.Miss = append([]MRec{}, m.Miss...)
	n.Wrong = append([]MRec{}, m.Wrong...)
	n.Don = append([]*big.Int{}, m.Don...)
	return &n
}

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }

func (m *MState) subscribed(i uint64) bool {
	v := m.V[i]
	return v != nil && (v.St == stActive || v.St == stYellow || v.St == stRed)
}

// World is what the chain answers while a slot is processed.
type World struct {
	Net    string
	Chain  uint64
	Beacon map[uint64]*UVal
	Cons   [][2]uint64 // pending consolidations: source, target
	// failures of the node while the block is processed
	ConsErr, SetErr bool
	Cfg             *oracle.Config // as configured at start
}

// Published constants, copied here from the documentation of the forks and the fee announcement.
var refFork1 = map[string]uint64{"mainnet": 10188220, "holesky": 2720632, "hoodi": 1}
var refElectra = map[string]uint64{"mainnet": 11649024, "hoodi": 65536}
var refFees = map[string]map[uint64]int{"mainnet": {14082460: 500}, "hoodi": {2801050: 500}}

func method(net string, slot uint64) string {
	if f, ok := refElectra[net]; ok && slot >= f {
		return "electra"
	}
	if slot >= refFork1[net] {
		return "fork1"
	}
	return "pre"
}

// share spreads an amount over the eligible validators.
func (m *MState) share(w *World, slot uint64, amount *big.Int) {
	var el []uint64
	for i, v := range m.V {
		if v.St == stActive || v.St == stYellow {
			el = append(el, i)
		}
	}
	if len(el) == 0 {
		m.Pool = add(m.Pool, amount)
		return
	}
	sort.Slice(el, func(i, j int) bool { return el[i] < el[j] })
	tenk := bi(10000)
	prod := new(big.Int).Mul(amount, bi(int64(m.Fee)))
	cut := new(big.Int).Div(prod, tenk)
	rest := sub(amount, cut)
	left := cp(rest) // what is not handed to a validator
	give := func(i uint64, x *big.Int) {
		m.V[i].Pend = add(m.V[i].Pend, x)
		left = sub(left, x)
	}
	switch method(w.Net, slot) {
	case "electra":
		tot := bi(0)
		for _, i := range el {
			tot = add(tot, new(big.Int).SetUint64(w.Beacon[i].Eff))
		}
		for _, i := range el {
			x := new(big.Int).Mul(rest, new(big.Int).SetUint64(w.Beacon[i].Eff))
			give(i, x.Div(x, tot))
		}
	case "fork1":
		x := new(big.Int).Div(rest, bi(int64(len(el))))
		for _, i := range el {
			give(i, x)
		}
	case "pre":
		x := sub(rest, new(big.Int).Mod(prod, tenk))
		if x.Sign() < 0 {
			m.Tiny = true
		}
		x.Div(x, bi(int64(len(el))))
		for _, i := range el {
			give(i, x)
		}
	}
	m.Pool = add(m.Pool, add(cut, left))
}

// reward of a block by the documented rules
type verdict struct {
	missed, mev bool
	toPool      bool
	amount      *big.Int
	rtype       int // 0 unknown 1 vanilla 2 mev
}

func refTip(b *Blk) *big.Int {
	tips := bi(0)
	for _, t := range b.Txs {
		p := t.GasPrice
		if t.Type >= 2 {
			p = add(t.Tip, b.baseFee())
			if p.Cmp(t.Cap) > 0 {
				p = t.Cap
			}
		}
		if p == nil {
			p = bi(0)
		}
		tips = add(tips, new(big.Int).Mul(p, new(big.Int).SetUint64(t.GasUsed)))
	}
	return sub(tips, new(big.Int).Mul(b.baseFee(), new(big.Int).SetUint64(b.gasUsed())))
}

func refWhitelisted(chain uint64, from int) bool {
	return chain == oracle.MainnetChainId && from == kWhite
}

func classify(chain uint64, b *Blk, subscriber bool) verdict {
	if b.Missed {
		return verdict{missed: true, amount: bi(0)}
	}
	if n := len(b.Txs); n > 0 && b.Txs[n-1].To != nil {
		last := b.Txs[n-1]
		if txAddr[last.From] == b.FeeRec || refWhitelisted(chain, last.From) {
			val := last.Value
			if val == nil {
				val = bi(0)
			}
			rec := *last.To
			for _, e := range b.Ether {
				if e.Amount.Cmp(val) == 0 {
					rec = e.At
					break
				}
			}
			return verdict{mev: true, toPool: rec == poolAddr, amount: val, rtype: 2}
		}
	}
	if b.FeeRec == poolAddr || subscriber {
		return verdict{toPool: b.FeeRec == poolAddr, amount: refTip(b), rtype: 1}
	}
	return verdict{amount: bi(0)}
}

// step processes a block. Several results are right only when a cleanup moves a balance to a target
// that is itself being cleaned up (the documentation does not fix the order). A nil result with
// refused=true means that the block must be refused and nothing may change.
func (m *MState) step(w *World, b *Blk) (res []*MState, refused bool) {
	if b.Slot != m.Next {
		return nil, true
	}
	fee := m.Fee
	if !b.Missed {
		if len(b.Fee) > 1 || len(b.Recip) > 1 || len(b.Ckpt) > 1 || len(b.Coll) > 1 {
			return nil, true
		}
		for _, f := range b.Fee {
			want, ok := refFees[w.Net][b.Slot]
			if !ok || int64(want) != f {
				return nil, true
			}
			fee = want
		}
		for _, r := range b.Recip {
			if !strings.EqualFold(r.Hex(), w.Cfg.PoolFeesAddress) {
				return nil, true
			}
		}
		for _, c := range b.Ckpt {
			if c != w.Cfg.CheckPointSizeInSlots {
				return nil, true
			}
		}
		for _, c := range b.Coll {
			if c.Cmp(w.Cfg.CollateralInWei) != 0 {
				return nil, true
			}
		}
	}
	s := m.clone()
	s.Fee = fee
	p := b.Prop.Idx
	wasSub := s.subscribed(p)
	v := classify(w.Chain, b, wasSub)
	rec := MRec{Slot: b.Slot, Idx: p, Key: b.Prop.keyHex(), Reward: v.amount, RType: v.rtype, Block: b.Number}
	if b.Prop.bls() {
		rec.Addr = "0x" + fmt.Sprintf("%x", b.Prop.Cred[1:])
	} else if b.Prop.eth1() {
		rec.Addr = b.Prop.addr()
	}
	if !b.Missed {
		for _, e := range b.Subs {
			s.subscribe(w, e)
		}
		s.NSub += len(b.Subs)
		s.NUnsub += len(b.Unsubs)
		s.NEther += len(b.Ether)
		for _, e := range b.Ether {
			s.Income = add(s.Income, e.Amount)
		}
	}
	switch {
	case v.missed:
		rec.Type, rec.Block = 1, 0
		if s.subscribed(p) {
			switch s.V[p].St {
			case stActive:
				s.V[p].St = stYellow
			case stYellow:
				s.V[p].St = stRed
			}
			s.Miss = append(s.Miss, rec)
		}
	case v.toPool && b.Prop.bls():
		rec.Type = 4
		s.Pool = add(s.Pool, v.amount)
		s.Prop = append(s.Prop, rec)
	case v.toPool:
		rec.Type = 3
		t := s.V[p]
		if t == nil {
			t = &MV{St: stActive, Acc: bi(0), Pend: bi(0), Coll: bi(0), Addr: b.Prop.addr(), Key: b.Prop.keyHex(), Auto: true}
			s.V[p] = t
		} else if t.St == stNotSub {
			t.St, t.Auto = stActive, true
		}
		switch t.St {
		case stYellow:
			t.St = stActive
		case stRed:
			t.St = stYellow
		}
		s.share(w, b.Slot, v.amount)
		t.Acc, t.Pend = add(t.Acc, t.Pend), bi(0)
		s.Prop = append(s.Prop, rec)
	default:
		rec.Type = 2
		if s.subscribed(p) {
			t := s.V[p]
			t.St = stBanned
			x := t.Pend
			t.Pend = bi(0)
			s.share(w, b.Slot, x)
			s.Wrong = append(s.Wrong, rec)
		}
	}
	if v.toPool && !v.mev {
		s.Income = add(s.Income, v.amount)
	}
	if !b.Missed {
		for _, e := range b.Unsubs {
			if e.Val == nil || !e.Val.eth1() || e.Val.owner() != e.Sender || !s.subscribed(e.Idx) {
				continue
			}
			t := s.V[e.Idx]
			t.St = stNotSub
			x := t.Pend
			t.Pend = bi(0)
			s.share(w, b.Slot, x)
		}
		mevLeft := v.mev && v.toPool
		for _, e := range b.Ether {
			if mevLeft && e.Amount.Cmp(v.amount) == 0 {
				mevLeft = false
				continue
			}
			s.share(w, b.Slot, e.Amount)
			s.Don = append(s.Don, e.Amount)
		}
		tot := bi(0)
		for _, i := range b.Bans {
			if s.subscribed(i) {
				t := s.V[i]
				t.St = stBanned
				tot = add(tot, t.Pend)
				t.Pend = bi(0)
			}
		}
		if tot.Sign() > 0 {
			s.share(w, b.Slot, tot)
		}
		for _, i := range b.Unbans {
			if t := s.V[i]; t != nil && t.St == stBanned {
				t.St = stActive
			}
		}
	}
	outs := []*MState{s}
	if b.Slot%1200 == 0 && b.Slot >= refFork1[w.Net] && len(s.V) > 0 {
		needCons := method(w.Net, b.Slot) == "electra"
		if (needCons && w.ConsErr) || w.SetErr {
			return nil, true
		}
		outs = s.cleanup(w, b.Slot, needCons)
	}
	for _, o := range outs {
		o.Next = b.Slot + 1
		if !b.Missed {
			o.LatestBlock = b.Number
		}
	}
	return outs, false
}

func canSubscribe(u *UVal) bool {
	switch u.Status.String() {
	case "pending_initialized", "pending_queued", "active_ongoing":
		return true
	}
	return false
}

func beaconActive(u *UVal) bool { return strings.HasPrefix(u.Status.String(), "active") }

func (m *MState) subscribe(w *World, e Sub) {
	m.Income = add(m.Income, e.Coll)
	u := e.Val
	switch {
	case u == nil, !canSubscribe(u), !u.eth1(), u.owner() != e.Sender:
		m.Pool = add(m.Pool, e.Coll)
	case m.V[e.Idx] != nil && m.V[e.Idx].St == stBanned, m.subscribed(e.Idx):
		m.V[e.Idx].Acc = add(m.V[e.Idx].Acc, e.Coll)
	case e.Coll.Cmp(w.Cfg.CollateralInWei) < 0:
		m.Pool = add(m.Pool, e.Coll)
	default:
		t := m.V[e.Idx]
		if t == nil {
			t = &MV{Acc: bi(0), Pend: bi(0), Coll: e.Coll, Addr: u.addr(), Key: u.keyHex()}
			m.V[e.Idx] = t
		}
		t.St, t.Auto = stActive, false
		t.Pend = add(t.Pend, e.Coll)
	}
}

func (m *MState) cleanup(w *World, slot uint64, withCons bool) []*MState {
	target := map[uint64]uint64{}
	if withCons {
		for _, c := range w.Cons {
			target[c[0]] = c[1]
		}
	}
	var gone []uint64
	chained := false
	for i := range m.V {
		if u := w.Beacon[i]; u != nil && !beaconActive(u) {
			gone = append(gone, i)
		}
	}
	sort.Slice(gone, func(i, j int) bool { return gone[i] < gone[j] })
	for _, i := range gone {
		if t, ok := target[i]; ok {
			for _, j := range gone {
				if j == t {
					chained = true
				}
			}
		}
	}
	run := func(order []uint64) *MState {
		s := m.clone()
		toShare := bi(0)
		for _, i := range order {
			v := s.V[i]
			if v.Pend.Sign() == 0 {
				continue
			}
			if s.subscribed(i) {
				v.St = stNotSub
			}
			x := v.Pend
			v.Pend = bi(0)
			t, ok := target[i]
			switch {
			case !ok, s.V[t] != nil && s.V[t].St == stBanned:
				toShare = add(toShare, x)
			case s.V[t] != nil:
				s.V[t].Pend = add(s.V[t].Pend, x)
			default:
				u := w.Beacon[t]
				s.V[t] = &MV{St: stNotSub, Acc: bi(0), Pend: x, Coll: bi(0), Addr: u.addr(), Key: u.keyHex()}
			}
		}
		if toShare.Sign() != 0 {
			s.share(w, slot, toShare)
		}
		return s
	}
	if !chained {
		return []*MState{run(gone)}
	}
	var outs []*MState
	permute(gone, func(o []uint64) { s := run(o); s.Alt = true; outs = append(outs, s) })
	return outs
}

func permute(a []uint64, f func([]uint64)) {
	var rec func(k int)
	a = append([]uint64{}, a...)
	rec = func(k int) {
		if k == len(a) {
			f(append([]uint64{}, a...))
			return
		}
		for i := k; i < len(a); i++ {
			a[k], a[i] = a[i], a[k]
			rec(k + 1)
			a[k], a[i] = a[i], a[k]
		}
	}
	rec(0)
}

// ---------------------------------------------------------------- comparison with the real state

type Diff struct{ Tag, What string }

func eqInt(a, b *big.Int) bool { return a != nil && b != nil && a.Cmp(b) == 0 }

// diffState lists where the real state differs from the model. Tags: slot, block, fee, pool, status,
// acc, pend, coll, addr, key, type, who, prop, miss, wrong, hist, don.
func diffState(r *oracle.OracleState, m *MState) (d []Diff) {
	ad := func(t, f string, a ...any) { d = append(d, Diff{t, fmt.Sprintf(f, a...)}) }
	if r.NextSlotToProcess != m.Next || r.LatestProcessedSlot != m.Next-1 {
		ad("slot", "next slot %d (latest %d), expected %d", r.NextSlotToProcess, r.LatestProcessedSlot, m.Next)
	}
	if r.LatestProcessedBlock != m.LatestBlock {
		ad("block", "latest block %d, expected %d", r.LatestProcessedBlock, m.LatestBlock)
	}
	if r.PoolFeesPercentOver10000 != m.Fee {
		ad("fee", "pool fee %d, expected %d", r.PoolFeesPercentOver10000, m.Fee)
	}
	if !eqInt(r.PoolAccumulatedFees, m.Pool) {
		ad("pool", "operator balance %v, expected %v", r.PoolAccumulatedFees, m.Pool)
	}
	for i, v := range m.V {
		x := r.Validators[i]
		if x == nil {
			ad("who", "validator %d is not tracked, expected %s", i, stName[v.St])
			continue
		}
		if int(x.ValidatorStatus) != v.St {
			ad("status", "validator %d is %s, expected %s", i, x.ValidatorStatus, stName[v.St])
		}
		if !eqInt(x.AccumulatedRewardsWei, v.Acc) {
			ad("acc", "validator %d claimable %v, expected %v", i, x.AccumulatedRewardsWei, v.Acc)
		}
		if !eqInt(x.PendingRewardsWei, v.Pend) {
			ad("pend", "validator %d pending %v, expected %v", i, x.PendingRewardsWei, v.Pend)
		}
		if !eqInt(x.CollateralWei, v.Coll) {
			ad("coll", "validator %d recorded collateral %v, expected %v", i, x.CollateralWei, v.Coll)
		}
		if !strings.EqualFold(x.WithdrawalAddress, v.Addr) {
			ad("addr", "validator %d withdrawal address %s, expected %s", i, x.WithdrawalAddress, v.Addr)
		}
		if !strings.EqualFold(x.ValidatorKey, v.Key) || x.ValidatorIndex != i {
			ad("key", "validator %d is recorded as index %d key %s", i, x.ValidatorIndex, x.ValidatorKey)
		}
		if (x.SubscriptionType == oracle.Auto) != v.Auto {
			ad("type", "validator %d subscription type %v, expected auto=%v", i, x.SubscriptionType, v.Auto)
		}
	}
	for i := range r.Validators {
		if m.V[i] == nil {
			ad("who", "validator %d is tracked but should not be", i)
		}
	}
	recs := func(tag string, a []oracle.SummarizedBlock, e []MRec) {
		if len(a) != len(e) {
			ad(tag, "%d %s blocks recorded, expected %d", len(a), tag, len(e))
			return
		}
		for k := range a {
			x, y := a[k], e[k]
			if x.Slot != y.Slot || x.Block != y.Block || x.ValidatorIndex != y.Idx || !strings.EqualFold(x.ValidatorKey, y.Key) || int(x.BlockType) != y.Type ||
				!eqInt(x.Reward, y.Reward) || int(x.RewardType) != y.RType || !strings.EqualFold(x.WithdrawalAddress, y.Addr) {
				ad(tag, "%s block %d recorded as %+v, expected %+v", tag, k, x, y)
			}
		}
	}
	recs("prop", r.ProposedBlocks, m.Prop)
	recs("miss", r.MissedBlocks, m.Miss)
	recs("wrong", r.WrongFeeBlocks, m.Wrong)
	if len(r.SubscriptionEvents) != m.NSub || len(r.UnsubscriptionEvents) != m.NUnsub || len(r.EtherReceivedEvents) != m.NEther {
		ad("hist", "%d/%d/%d events recorded, expected %d/%d/%d", len(r.SubscriptionEvents), len(r.UnsubscriptionEvents), len(r.EtherReceivedEvents), m.NSub, m.NUnsub, m.NEther)
	}
	if len(r.Donations) != len(m.Don) {
		ad("don", "%d donations recorded, expected %d", len(r.Donations), len(m.Don))
	} else {
		for k := range m.Don {
			if !eqInt(r.Donations[k].DonationAmount, m.Don[k]) {
				ad("don", "donation %d is %v, expected %v", k, r.Donations[k].DonationAmount, m.Don[k])
			}
		}
	}
	return d
}

func forkVersions() []spec.DataVersion {
	return []spec.DataVersion{spec.DataVersionBellatrix, spec.DataVersionCapella, spec.DataVersionDeneb, spec.DataVersionElectra, spec.DataVersionFulu}
}

func pa(a common.Address) *common.Address { return &a }
