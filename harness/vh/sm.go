package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/pkg/errors"
)

// ---------------------------------------------------------------- attaching the chain to an oracle

// attach answers the oracle's questions about the beacon chain as of the slot being processed.
// Asked about another slot, the chain answers with other balances and states, as it would.
func (w *World) attach(o *oracle.Oracle, slot uint64) {
	o.SetGetSetOfValidatorsFunc(func(ix []phase0.ValidatorIndex, s string, _ ...retry.Option) (map[phase0.ValidatorIndex]*v1.Validator, error) {
		if w.SetErr {
			return nil, errors.New("validators unavailable")
		}
		out := map[phase0.ValidatorIndex]*v1.Validator{}
		for _, i := range ix {
			if u := w.Beacon[uint64(i)]; u != nil {
				if s != strconv.FormatUint(slot, 10) {
					u = u.with(func(n *UVal) { n.Eff = 17000000000 + 1000000000*(n.Idx%7); n.Status = v1.ValidatorStateActiveOngoing })
				}
				out[i] = u.api()
			}
		}
		if len(ix) == 0 { // the beacon node answers an empty filter with everybody
			for i, u := range w.Beacon {
				out[phase0.ValidatorIndex(i)] = u.api()
			}
		}
		return out, nil
	})
	o.GetPendingConsolidationsFunc(func(s string, _ ...retry.Option) (*oracle.PendingConsolidationsResponse, error) {
		if w.ConsErr {
			return nil, errors.New("consolidations unavailable")
		}
		r := &oracle.PendingConsolidationsResponse{}
		if s == strconv.FormatUint(slot, 10) {
			var l []string
			for _, c := range w.Cons {
				l = append(l, fmt.Sprintf(`{"source_index":"%d","target_index":"%d"}`, c[0], c[1]))
			}
			if err := json.Unmarshal([]byte(`{"data":[`+strings.Join(l, ",")+`]}`), r); err != nil {
				panic(err)
			}
		}
		return r, nil
	})
}

func chainOf(net string) uint64 {
	switch net {
	case "mainnet":
		return oracle.MainnetChainId
	case "holesky":
		return oracle.HoleskyChainId
	}
	return oracle.HoodiChainId
}

func mkCfg(net string, deployed uint64, fee int) *oracle.Config {
	return &oracle.Config{Network: net, PoolAddress: strings.ToLower(poolAddr.Hex()), DeployedSlot: deployed, DeployedBlock: 1000, CheckPointSizeInSlots: 50,
		PoolFeesPercentOver10000: fee, PoolFeesAddress: strings.ToLower(feesAddr.Hex()), CollateralInWei: un(1000), NumRetries: 1}
}

func mkWorld(net string, cfg *oracle.Config, vals ...*UVal) *World {
	w := &World{Net: net, Chain: chainOf(net), Beacon: map[uint64]*UVal{}, Cfg: cfg}
	for _, v := range vals {
		w.Beacon[v.Idx] = v
	}
	return w
}

// PV is the oracle record of one validator in an injected start state.
//
// Amounts of the alphabets are given in units, so that the rule in force before fork 1 stays away
// from its known problem with amounts of a few thousand wei (see C01 and C02, which cover those).
type PV struct {
	U         *UVal
	St        int
	Acc, Pend int64
	Auto      bool
	As        string // recorded withdrawal address, if not that of the credentials
}

func (p PV) String() string {
	if p.St == stUntracked {
		return fmt.Sprintf("%d untracked", p.U.Idx)
	}
	as := ""
	if p.As != "" {
		as = " recorded with " + p.As
	}
	return fmt.Sprintf("%d %s acc %d pend %d%s", p.U.Idx, stName[p.St], p.Acc, p.Pend, as)
}

// inject builds a real oracle and the model in the same given state, about to process slot.
func inject(cfg *oracle.Config, slot uint64, pre []PV, pool int64) (*oracle.Oracle, *MState) {
	c := *cfg
	c.CollateralInWei = cp(cfg.CollateralInWei)
	o := oracle.NewOracle(&c)
	s := realState(o)
	s.NextSlotToProcess, s.LatestProcessedSlot, s.LatestProcessedBlock = slot, slot-1, slot-1000
	s.PoolAccumulatedFees = bi(pool)
	m := newModel(cfg)
	m.Next, m.LatestBlock, m.Pool, m.Income = slot, slot-1000, bi(pool), bi(pool)
	for _, p := range pre {
		if p.St == stUntracked {
			continue
		}
		ty := oracle.Manual
		if p.Auto {
			ty = oracle.Auto
		}
		as := p.As
		if as == "" {
			as = p.U.addr()
		}
		s.Validators[p.U.Idx] = &oracle.ValidatorInfo{ValidatorStatus: oracle.ValidatorStatus(p.St), AccumulatedRewardsWei: un(p.Acc), PendingRewardsWei: un(p.Pend),
			CollateralWei: bi(0), WithdrawalAddress: as, ValidatorIndex: p.U.Idx, ValidatorKey: p.U.keyHex(), SubscriptionType: ty}
		m.V[p.U.Idx] = &MV{St: p.St, Acc: un(p.Acc), Pend: un(p.Pend), Coll: bi(0), Addr: as, Key: p.U.keyHex(), Auto: p.Auto}
		m.Income = add(m.Income, un(p.Acc+p.Pend))
	}
	return o, m
}

// ---------------------------------------------------------------- one checked transition

type stepRes struct {
	how     string // panic or fatal
	err     error
	ret     uint64
	mod     *MState // the matching outcome of the model (nil: refused or mismatch)
	diff    []Diff  // differences in the tags looked at
	refused bool    // the model refuses
	tiny    bool    // a share of the rule before fork 1 was negative
}

type tagSet map[string]bool

func tags(s string) tagSet {
	t := tagSet{}
	for _, x := range strings.Fields(s) {
		t[x] = true
	}
	return t
}

var allTags = tags("slot block fee pool status acc pend coll addr key type who prop miss wrong hist don err abort")

// step runs one block on the real oracle and on the model and compares them.
func step(o *oracle.Oracle, m *MState, w *World, b *Blk, t tagSet) stepRes {
	var r stepRes
	w.attach(o, b.Slot)
	r.how = guard(func() { r.ret, r.err = o.AdvanceStateToNextSlot(b.full(w.Chain)) })
	outs, refused := m.step(w, b)
	r.refused = refused
	r.tiny = m.Tiny || (len(outs) > 0 && outs[0].Tiny)
	if r.how != "" {
		if t["abort"] {
			r.diff = append(r.diff, Diff{"abort", "processing ended in " + firstLine(r.how)})
		}
		return r
	}
	st := realState(o)
	if refused {
		if r.err == nil && t["err"] {
			r.diff = append(r.diff, Diff{"err", "the block was accepted but has to be refused"})
		}
		return r
	}
	if r.err != nil {
		if t["err"] {
			r.diff = append(r.diff, Diff{"err", "the block was refused: " + r.err.Error()})
		}
		return r
	}
	if r.ret != b.Slot && t["slot"] {
		r.diff = append(r.diff, Diff{"slot", fmt.Sprintf("returned slot %d for slot %d", r.ret, b.Slot)})
	}
	var best []Diff
	for i, out := range outs {
		var d []Diff
		for _, x := range diffState(st, out) {
			if t[x.Tag] {
				d = append(d, x)
			}
		}
		if len(d) == 0 {
			r.mod = out
			return r
		}
		if i == 0 || len(d) < len(best) {
			best = d
		}
	}
	r.diff = append(r.diff, best...)
	return r
}

// realState reads the state without going through the oracle's locks.
func realState(o *oracle.Oracle) *oracle.OracleState {
	f := exposed(reflect.ValueOf(o).Elem().FieldByName("state"))
	return f.Interface().(*oracle.OracleState)
}

func realCfg(o *oracle.Oracle) *oracle.Config {
	f := exposed(reflect.ValueOf(o).Elem().FieldByName("cfg"))
	return f.Interface().(*oracle.Config)
}

// liabilities is the sum of everything owed; neg names a negative balance.
func liabilities(s *oracle.OracleState) (sum *big.Int, neg string) {
	sum = cp(s.PoolAccumulatedFees)
	if sum.Sign() < 0 {
		neg = "operator balance"
	}
	for i, v := range s.Validators {
		sum.Add(sum, v.AccumulatedRewardsWei)
		sum.Add(sum, v.PendingRewardsWei)
		if v.AccumulatedRewardsWei.Sign() < 0 || v.PendingRewardsWei.Sign() < 0 {
			neg = fmt.Sprint("validator ", i)
		}
	}
	return
}

const unit = 1000003

func un(a int64) *big.Int { return bi(a * unit) }

// ---------------------------------------------------------------- block alphabets

type Part struct {
	Name string
	F    func(b *Blk)
}

func part(name string, f func(b *Blk)) Part { return Part{name, f} }

var noPart = Part{"", nil}

// product lists the blocks made of one part of each group, with at most k parts that are not the
// group's first one.
func product(groups [][]Part, k int) [][]Part {
	var out [][]Part
	var rec func(i, used int, cur []Part)
	rec = func(i, used int, cur []Part) {
		if i == len(groups) {
			out = append(out, append([]Part{}, cur...))
			return
		}
		for j, p := range groups[i] {
			u := used
			if j > 0 {
				u++
			}
			if u > k {
				break
			}
			rec(i+1, u, append(cur, p))
		}
	}
	rec(0, 0, nil)
	return out
}

func partsName(ps []Part) string {
	var s []string
	for _, p := range ps {
		if p.Name != "" {
			s = append(s, p.Name)
		}
	}
	if len(s) == 0 {
		return "empty block"
	}
	return strings.Join(s, " + ")
}

func mkBlock(slot uint64, ps []Part) *Blk {
	b := &Blk{Slot: slot, Number: slot - 900, Prop: strangerVal, FeeRec: otherRec}
	for _, p := range ps {
		if p.F != nil {
			p.F(b)
		}
	}
	if b.Missed {
		b.Txs, b.Ether, b.Subs, b.Unsubs, b.Bans, b.Unbans, b.Fee, b.Recip, b.Ckpt, b.Coll = nil, nil, nil, nil, nil, nil, nil, nil, nil, nil
	}
	b.Name = partsName(ps)
	return b
}

var strangerVal *UVal

// proposals of validator u; amount is the reward
func pMissed(u *UVal) Part {
	return part(fmt.Sprintf("%d misses", u.Idx), func(b *Blk) { b.Prop, b.Missed = u, true })
}
func pVanillaOK(u *UVal, amount int64) Part {
	return part(fmt.Sprintf("%d proposes vanilla %d to pool", u.Idx, amount), func(b *Blk) {
		b.Prop, b.FeeRec = u, poolAddr
		b.Txs = append(b.Txs, creationTx(amount, b))
	})
}
func pVanillaWrong(u *UVal) Part {
	return part(fmt.Sprintf("%d proposes vanilla elsewhere", u.Idx), func(b *Blk) {
		b.Prop, b.FeeRec = u, otherRec
		b.Txs = append(b.Txs, creationTx(31, b))
	})
}

// creationTx pays amount as a tip (gas 1, tip amount) and is never an MEV payment.
func creationTx(amount int64, b *Blk) Tx {
	return Tx{From: kUser, Type: 2, Tip: un(amount), Cap: un(amount + 1000), GasUsed: 1, Value: bi(0)}
}
func pMevOK(u *UVal, amount int64) Part {
	return part(fmt.Sprintf("%d proposes MEV %d to pool", u.Idx, amount), func(b *Blk) {
		b.Prop, b.FeeRec = u, txAddr[kBuilder]
		b.Txs = append(b.Txs, Tx{From: kBuilder, To: pa(poolAddr), Value: un(amount), Type: 2, Tip: bi(1), Cap: bi(100), GasUsed: 21000})
		b.Ether = append(b.Ether, Ether{txAddr[kBuilder], un(amount), poolAddr})
	})
}
func pMevViaProxy(u *UVal, amount int64) Part {
	return part(fmt.Sprintf("%d proposes MEV %d to pool via a contract", u.Idx, amount), func(b *Blk) {
		b.Prop, b.FeeRec = u, txAddr[kBuilder]
		b.Txs = append(b.Txs, Tx{From: kBuilder, To: pa(mevProxy), Value: un(amount), Type: 2, Tip: bi(1), Cap: bi(100), GasUsed: 21000})
		b.Ether = append(b.Ether, Ether{mevProxy, un(amount), poolAddr})
	})
}
func pMevWrong(u *UVal, amount int64) Part {
	return part(fmt.Sprintf("%d proposes MEV %d elsewhere", u.Idx, amount), func(b *Blk) {
		b.Prop, b.FeeRec = u, txAddr[kBuilder]
		b.Txs = append(b.Txs, Tx{From: kBuilder, To: pa(otherRec), Value: un(amount), Type: 2, Tip: bi(1), Cap: bi(100), GasUsed: 21000})
	})
}
func pSub(u *UVal, coll int64) Part {
	return part(fmt.Sprintf("%d subscribes with %d", u.Idx, coll), func(b *Blk) { b.Subs = append(b.Subs, Sub{u.Idx, u.owner(), un(coll), u}) })
}
func pSubBy(u *UVal, who string, coll int64) Part {
	return part(fmt.Sprintf("%d subscribed by a stranger with %d", u.Idx, coll), func(b *Blk) { b.Subs = append(b.Subs, Sub{u.Idx, stranger, un(coll), u}) })
}
func pUnsub(u *UVal) Part {
	return part(fmt.Sprintf("%d unsubscribes", u.Idx), func(b *Blk) { b.Unsubs = append(b.Unsubs, Unsub{u.Idx, u.owner(), u}) })
}
func pUnsubBy(u *UVal) Part {
	return part(fmt.Sprintf("%d unsubscribed by a stranger", u.Idx), func(b *Blk) { b.Unsubs = append(b.Unsubs, Unsub{u.Idx, stranger, u}) })
}
func pDon(amount int64) Part {
	return part(fmt.Sprintf("donation %d", amount), func(b *Blk) { b.Ether = append(b.Ether, Ether{stranger, un(amount), poolAddr}) })
}
func pBan(ix ...uint64) Part {
	return part(fmt.Sprint("ban ", ix), func(b *Blk) { b.Bans = append(b.Bans, ix...) })
}
func pUnban(ix ...uint64) Part {
	return part(fmt.Sprint("unban ", ix), func(b *Blk) { b.Unbans = append(b.Unbans, ix...) })
}
func both(ps ...Part) Part {
	return part(partsName(ps), func(b *Blk) {
		for _, p := range ps {
			p.F(b)
		}
	})
}

// ---------------------------------------------------------------- the two exploration engines

// Point is a network and slot at which one-step exploration happens.
type Point struct {
	Net  string
	Slot uint64
	Fee  int
}

func (p Point) String() string {
	return fmt.Sprintf("%s slot %d fee %d (%s)", p.Net, p.Slot, p.Fee, method(p.Net, p.Slot))
}

var stdPoints = []Point{
	{"mainnet", 10188219, 700}, {"mainnet", 10188221, 700}, {"mainnet", 11649023, 700}, {"mainnet", 11649025, 500}, {"hoodi", 65537, 1000}, {"mainnet", 10189200, 700}, {"mainnet", 11649600, 733}, {"holesky", 2720633, 1000},
}

type oneStep struct {
	tags   tagSet
	points []Point
	vals   []*UVal        // tracked candidates
	pre    [][]PV         // start states
	blocks [][]Part       // alphabet
	world  func(w *World) // tweak
	check  func(pre, post *oracle.OracleState, m0, m1 *MState, b *Blk, w *World) (tag, what string)
	skip   func(pre []PV, b *Blk) bool
	pool   int64
	sig    func(d Diff, pre []PV, b *Blk) string
}

func valOptions(u *UVal, opts []PV) []PV {
	var o []PV
	for _, p := range opts {
		p.U = u
		o = append(o, p)
	}
	return o
}

func cross(lists ...[]PV) [][]PV {
	out := [][]PV{{}}
	for _, l := range lists {
		var n [][]PV
		for _, a := range out {
			for _, x := range l {
				n = append(n, append(append([]PV{}, a...), x))
			}
		}
		out = n
	}
	return out
}

// snapshot is a cheap copy of what pre/post checks need.
func snapshot(s *oracle.OracleState) *oracle.OracleState {
	n := &oracle.OracleState{PoolAccumulatedFees: cp(s.PoolAccumulatedFees), Validators: map[uint64]*oracle.ValidatorInfo{}, LatestProcessedSlot: s.LatestProcessedSlot,
		NextSlotToProcess: s.NextSlotToProcess, LatestProcessedBlock: s.LatestProcessedBlock, PoolFeesPercentOver10000: s.PoolFeesPercentOver10000}
	for i, v := range s.Validators {
		c := *v
		c.AccumulatedRewardsWei, c.PendingRewardsWei = cp(v.AccumulatedRewardsWei), cp(v.PendingRewardsWei)
		n.Validators[i] = &c
	}
	return n
}

func (e *oneStep) run(r *Run) {
	type job struct {
		pt  Point
		pre []PV
	}
	var jobs []job
	for _, pt := range e.points {
		for _, p := range e.pre {
			jobs = append(jobs, job{pt, p})
		}
	}
	r.States.Add(int64(len(jobs)))
	parallel(len(jobs), func(_, ji int) {
		j := jobs[ji]
		if r.expired() || r.stop() {
			return
		}
		out := map[string]int64{}
		defer func() { r.addOutcomes(out) }()
		cfg := mkCfg(j.pt.Net, 100, j.pt.Fee)
		w := mkWorld(j.pt.Net, cfg, e.vals...)
		if e.world != nil {
			e.world(w)
		}
		for _, ps := range e.blocks {
			b := mkBlock(j.pt.Slot, ps)
			if e.skip != nil && e.skip(j.pre, b) {
				continue
			}
			o, m := inject(cfg, j.pt.Slot, j.pre, e.pool)
			var before *oracle.OracleState
			if e.check != nil {
				before = snapshot(realState(o))
			}
			res := step(o, m, w, b, e.tags)
			r.Transitions.Add(1)
			r.Evals.Add(1)
			out[outcomeClass(j.pre, m, res)]++
			describe := func() any {
				return map[string]any{"at": j.pt.String(), "state": fmt.Sprint(j.pre), "block": b.String(), "details": b.describe()}
			}
			for _, d := range res.diff {
				sig := d.Tag + " | " + sigOf(b)
				if e.sig != nil {
					sig = e.sig(d, j.pre, b)
				}
				if res.tiny && (d.Tag == "abort") {
					sig = tinySig
				}
				r.violate(sig, fmt.Sprintf("%s: at %s, validators %v, block {%s}: %s", r.Prop, j.pt, j.pre, b, d.What), describe())
			}
			if e.check != nil && res.how == "" && res.err == nil {
				if tag, what := e.check(before, realState(o), m, res.mod, b, w); tag != "" {
					if res.tiny && (tag == "negative" || tag == "pending-fell") {
						r.violate(tinySig, what, nil)
						continue
					}
					r.violate(tag+" | "+sigOf(b), fmt.Sprintf("%s: at %s, validators %v, block {%s}: %s", r.Prop, j.pt, j.pre, b, what), describe())
				}
			}
			if ji%97 == 0 && len(out) < 4 {
				r.sample(fmt.Sprintf("%s; %v; {%s}", j.pt, j.pre, b))
			}
		}
	})
}

func sigOf(b *Blk) string {
	var s []string
	ad := func(c bool, n string) {
		if c {
			s = append(s, n)
		}
	}
	ad(b.Missed, "missed")
	ad(b.FeeRec == poolAddr, "pool-fee-recipient")
	ad(len(b.Txs) > 0 && b.Txs[len(b.Txs)-1].To != nil, "payment-last")
	ad(len(b.Ether) > 0, "ether")
	ad(len(b.Subs) > 0, "sub")
	ad(len(b.Unsubs) > 0, "unsub")
	ad(len(b.Bans) > 0, "ban")
	ad(len(b.Unbans) > 0, "unban")
	ad(len(b.Fee)+len(b.Recip)+len(b.Ckpt)+len(b.Coll) > 0, "config")
	return strings.Join(s, ",")
}

// outcomeClass is the class of observable outcome of a transition: what happened to statuses and money.
func outcomeClass(pre []PV, m0 *MState, r stepRes) string {
	if r.how != "" {
		return "abort"
	}
	if r.refused {
		return "refused"
	}
	if r.mod == nil {
		return "mismatch"
	}
	var s []string
	var ix []uint64
	for i := range r.mod.V {
		ix = append(ix, i)
	}
	sort.Slice(ix, func(a, b int) bool { return ix[a] < ix[b] })
	for _, i := range ix {
		from := "untracked"
		n := r.mod.V[i]
		a, p := n.Acc.Sign() > 0, n.Pend.Sign() > 0
		if v := m0.V[i]; v != nil {
			from = stName[v.St]
			a, p = n.Acc.Cmp(v.Acc) > 0, n.Pend.Cmp(v.Pend) != 0
		}
		t := from
		if from != stName[n.St] {
			t += ">" + stName[n.St]
		}
		if a {
			t += "+acc"
		}
		if p {
			t += "~pend"
		}
		s = append(s, t)
	}
	if r.mod.Pool.Cmp(m0.Pool) > 0 {
		s = append(s, "+pool")
	}
	return strings.Join(s, " ")
}

// bfs explores every sequence of blocks from a fresh oracle, breadth first, merging equal states.
// tinySig marks the one known problem of the rule in force before fork 1.
const tinySig = "before fork 1: amount below the subtracted remainder"

type bfs struct {
	tags  tagSet
	net   string
	start uint64 // deployed slot
	fee   int
	vals  []*UVal
	parts [][]Part // alphabet
	depth int
	world func(w *World)
	check func(pre, post *oracle.OracleState, m0, m1 *MState, b *Blk, w *World) (tag, what string)
	after func(r *Run, o *oracle.Oracle, m *MState, path string) (tag, what string)
	cap   int
	stop  bool
	ckpt  uint64            // checkpoint length (0: default)
	force map[uint64][]Part // alphabet override for given slots
}

type node struct {
	o    *oracle.Oracle
	m    *MState
	path []int
}

func histSkip(s, f string, _ reflect.Type) bool {
	switch f {
	case "StateHash", "LatestProcessedBlock", "CommitedStates", "SubscriptionEvents", "UnsubscriptionEvents", "EtherReceivedEvents", "Donations", "ProposedBlocks", "MissedBlocks", "WrongFeeBlocks":
		return s == "OracleState"
	}
	return false
}

func (e *bfs) run(r *Run) {
	cfg := mkCfg(e.net, e.start, e.fee)
	if e.ckpt != 0 {
		cfg.CheckPointSizeInSlots = e.ckpt
	}
	w0 := mkWorld(e.net, cfg, e.vals...)
	if e.world != nil {
		e.world(w0)
	}
	c := *cfg
	root := &node{o: oracle.NewOracle(&c), m: newModel(cfg)}
	layer := []*node{root}
	pathName := func(p []int) string {
		var s []string
		for k, i := range p {
			if f, ok := e.force[e.start+uint64(k)]; ok {
				s = append(s, "{"+partsName(f)+"}")
				continue
			}
			s = append(s, "{"+partsName(e.parts[i])+"}")
		}
		return strings.Join(s, " ; ")
	}
	r.States.Add(1)
	done := 0
	for d := 0; d < e.depth && len(layer) > 0; d++ {
		slot := e.start + uint64(d)
		type succ struct {
			n   *node
			key [16]byte
		}
		next := make([][]succ, len(layer))
		var full sync.Once
		cut := false
		parallel(len(layer), func(_, i int) {
			if r.expired() || r.stop() {
				full.Do(func() { cut = true })
				return
			}
			n := layer[i]
			out := map[string]int64{}
			for a, ps := range e.parts {
				if f, ok := e.force[slot]; ok {
					if a > 0 {
						break
					}
					ps = f
				}
				b := mkBlock(slot, ps)
				o := deepClone(n.o)
				w := *w0
				var before *oracle.OracleState
				if e.check != nil {
					before = snapshot(realState(o))
				}
				res := step(o, n.m, &w, b, e.tags)
				r.Transitions.Add(1)
				r.Evals.Add(1)
				out[outcomeClass(nil, n.m, res)]++
				path := append(append([]int{}, n.path...), a)
				report := func(sig, what string) {
					r.violate(sig, fmt.Sprintf("%s: %s from slot %d fee %d, blocks %s: %s", r.Prop, e.net, e.start, e.fee, pathName(path), what),
						map[string]any{"network": e.net, "deployed_slot": e.start, "fee": e.fee, "history": pathName(path), "last_block": b.describe()})
				}
				if res.tiny {
					continue
				}
				for _, x := range res.diff {
					report(x.Tag+" | "+sigOf(b), x.What)
				}
				if res.mod == nil {
					continue
				}
				if e.check != nil {
					if tag, what := e.check(before, realState(o), n.m, res.mod, b, &w); tag != "" {
						report(tag+" | "+sigOf(b), what)
					}
				}
				if e.after != nil {
					if tag, what := e.after(r, o, res.mod, pathName(path)); tag != "" {
						report(tag+" | "+sigOf(b), what)
					}
				}
				if d+1 < e.depth {
					next[i] = append(next[i], succ{&node{o, res.mod, path}, stateKey(realState(o), histSkip)})
				}
			}
			r.addOutcomes(out)
		})
		seen := map[[16]byte]bool{}
		var nl []*node
		for i, l := range next {
			for _, s := range l {
				if !seen[s.key] {
					seen[s.key] = true
					nl = append(nl, s.n)
				}
			}
			layer[i] = nil
		}
		if cut {
			break
		}
		done = d + 1
		r.States.Add(int64(len(nl)))
		if e.cap > 0 && len(nl) > e.cap {
			r.note("history exploration from %s slot %d stopped after depth %d: %d states in the next layer exceed the bound %d", e.net, e.start, done, len(nl), e.cap)
			layer = nil
			break
		}
		layer = nl
	}
	if done > 0 && len(layer) > 0 && layer[len(layer)/2] != nil {
		r.sample(fmt.Sprintf("history on %s from slot %d: %s", e.net, e.start, pathName(layer[len(layer)/2].path)))
	}
	r.bound(fmt.Sprintf("histories on %s from slot %d", e.net, e.start), fmt.Sprintf("all sequences of %d blocks out of %d", done, len(e.parts)))
}
