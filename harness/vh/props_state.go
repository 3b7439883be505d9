package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/attestantio/go-eth2-client/spec"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
)

func init() {
	register("C09", "model_checking", runC09)
	register("C10", "model_checking", runC10)
	register("C12", "model_checking", runC12)
	register("C13", "fault_enumeration", runC13)
	register("C15", "model_checking", runC15)
	register("C16", "model_checking", runC16)
	register("C17", "model_checking", runC17)
	register("C18", "model_checking", runC18)
	register("C28", "model_checking", runC28)
}

// ---------------------------------------------------------------- merkle reference (the contract's algorithm)

func leafHash(addr common.Address, amount *big.Int) []byte {
	b := append([]byte{}, addr[:]...)
	return crypto.Keccak256(append(b, common.LeftPadBytes(amount.Bytes(), 32)...))
}

func verifyProof(leaf []byte, proof []string, root string) bool {
	h := leaf
	for _, p := range proof {
		x, err := hex.DecodeString(strings.TrimPrefix(strings.ToLower(p), "0x"))
		if err != nil || len(x) != 32 {
			return false
		}
		if bytes.Compare(h, x) < 0 {
			h = crypto.Keccak256(h, x)
		} else {
			h = crypto.Keccak256(x, h)
		}
	}
	return "0x"+hex.EncodeToString(h) == strings.ToLower(root)
}

// refLeaves is the expected list of leaves: the fee address first, then the others in order.
func refLeaves(fees common.Address, pool *big.Int, vals map[uint64]*MV) (ls []oracle.RawLeaf) {
	sum := map[string]*big.Int{}
	f := strings.ToLower(fees.Hex())
	sum[f] = cp(pool)
	for _, v := range vals {
		a := strings.ToLower(v.Addr)
		if sum[a] == nil {
			sum[a] = bi(0)
		}
		sum[a] = add(sum[a], v.Acc)
	}
	var ks []string
	for k := range sum {
		if k != f {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range append([]string{f}, ks...) {
		ls = append(ls, oracle.RawLeaf{WithdrawalAddress: k, AccumulatedBalanceWei: sum[k]})
	}
	return ls
}

// checkOnchain compares a frozen state with the expected leaves and verifies every proof.
func checkOnchain(s *oracle.OnchainState, want []oracle.RawLeaf, deep bool) string {
	if len(s.Leafs) != len(want) || len(s.Proofs) != len(want) {
		return fmt.Sprintf("%d leaves and %d proofs, expected %d", len(s.Leafs), len(s.Proofs), len(want))
	}
	for _, w := range want {
		l, ok := s.Leafs[w.WithdrawalAddress]
		if !ok || l.WithdrawalAddress != w.WithdrawalAddress {
			return "no leaf for " + w.WithdrawalAddress
		}
		if !eqInt(l.AccumulatedBalanceWei, w.AccumulatedBalanceWei) {
			return fmt.Sprintf("leaf of %s holds %v, expected %v", w.WithdrawalAddress, l.AccumulatedBalanceWei, w.AccumulatedBalanceWei)
		}
		a := common.HexToAddress(w.WithdrawalAddress)
		if !verifyProof(leafHash(a, w.AccumulatedBalanceWei), s.Proofs[w.WithdrawalAddress], s.MerkleRoot) {
			return "the proof of " + w.WithdrawalAddress + " does not verify"
		}
		if !deep {
			continue
		}
		for _, o := range want {
			for _, am := range []*big.Int{o.AccumulatedBalanceWei, add(w.AccumulatedBalanceWei, bi(1)), bi(0)} {
				for _, b := range []common.Address{a, common.HexToAddress(o.WithdrawalAddress)} {
					if b == a && am.Cmp(w.AccumulatedBalanceWei) == 0 {
						continue
					}
					if b == common.HexToAddress(o.WithdrawalAddress) && am.Cmp(o.AccumulatedBalanceWei) == 0 && len(s.Proofs[w.WithdrawalAddress]) == 0 {
						continue
					}
					if verifyProof(leafHash(b, am), s.Proofs[w.WithdrawalAddress], s.MerkleRoot) {
						return fmt.Sprintf("the proof of %s also verifies for %s with %v", w.WithdrawalAddress, b.Hex(), am)
					}
				}
			}
		}
	}
	return ""
}

func runC09(r *Run) {
	addrs := []string{strings.ToLower(ownerA.Hex()), "0x" + strings.ToUpper(ownerB.Hex()[2:]), strings.ToLower(ownerB.Hex()), ownerC.Hex(), strings.ToLower(ownerC.Hex())}
	accs := []*big.Int{bi(0), bi(7), bs("1180591620717411303424")}
	pools := []*big.Int{bi(0), bs("99999999999999999999")}
	n := r.pick(4, 5)
	opt := len(addrs)*len(accs) + 1
	total := 1
	for i := 0; i < n; i++ {
		total *= opt
	}
	r.bound("validators", n)
	r.bound("records per validator", opt)
	// combinations without regard to order of the validators are enough only if the code ignores
	// the index, which is not assumed: all ordered combinations are visited
	parallel((total+255)/256, func(_, blk int) {
		if r.expired() || r.stop() {
			return
		}
		out := map[string]int64{}
		for c := blk * 256; c < (blk+1)*256 && c < total; c++ {
			pool := pools[c%2]
			st := &oracle.OracleState{PoolAccumulatedFees: cp(pool), PoolAddress: strings.ToLower(poolAddr.Hex()), PoolFeesAddress: feesAddr.Hex(), Validators: map[uint64]*oracle.ValidatorInfo{}}
			vals := map[uint64]*MV{}
			x := c
			for i := 0; i < n; i++ {
				k := x % opt
				x /= opt
				if k == 0 {
					continue
				}
				k--
				a, ac := addrs[k/len(accs)], accs[k%len(accs)]
				id := uint64(100 - i)
				st.Validators[id] = &oracle.ValidatorInfo{ValidatorStatus: oracle.Active, AccumulatedRewardsWei: cp(ac), PendingRewardsWei: bi(55), CollateralWei: bi(3), WithdrawalAddress: a, ValidatorIndex: id}
				vals[id] = &MV{Addr: a, Acc: ac}
			}
			checkTree(r, st, vals, n <= 4 || c%7 == 0, out)
		}
		r.addOutcomes(out)
	})
	// every tree size
	sizes := r.pick(80, 300)
	parallel(sizes, func(_, i int) {
		if r.stop() {
			return
		}
		out := map[string]int64{}
		st := &oracle.OracleState{PoolAccumulatedFees: bi(13), PoolAddress: strings.ToLower(poolAddr.Hex()), PoolFeesAddress: strings.ToLower(feesAddr.Hex()), Validators: map[uint64]*oracle.ValidatorInfo{}}
		vals := map[uint64]*MV{}
		for k := 0; k <= i; k++ {
			h := crypto.Keccak256([]byte{byte(k), byte(k >> 8)})
			a := common.BytesToAddress(h[:20]).Hex()
			st.Validators[uint64(k)] = &oracle.ValidatorInfo{ValidatorStatus: oracle.Active, AccumulatedRewardsWei: bi(int64(1000 + k)), PendingRewardsWei: bi(55), CollateralWei: bi(3), WithdrawalAddress: a, ValidatorIndex: uint64(k)}
			vals[uint64(k)] = &MV{Addr: a, Acc: bi(int64(1000 + k))}
		}
		checkTree(r, st, vals, i < 40, out)
		r.addOutcomes(out)
	})
	// addresses that agree except at one byte, in every position, given to the validators in every order
	twins := 0
	for pos := 0; pos < 20; pos++ {
		for _, fill := range []byte{0x11, 0xff, 0x00} {
			for _, three := range [][3]byte{{0x01, 0x12, 0x80}, {0x0a, 0x9f, 0xa0}, {0xfe, 0x7f, 0x99}} {
				for _, p := range append([][]int{{0, 1, 2}}, perms(3)...) {
					st := &oracle.OracleState{PoolAccumulatedFees: bi(13), PoolAddress: strings.ToLower(poolAddr.Hex()), PoolFeesAddress: strings.ToLower(feesAddr.Hex()), Validators: map[uint64]*oracle.ValidatorInfo{}}
					vals := map[uint64]*MV{}
					for k, x := range p {
						var a common.Address
						for i := range a {
							a[i] = fill
						}
						a[pos] = three[x]
						st.Validators[uint64(k)] = &oracle.ValidatorInfo{ValidatorStatus: oracle.Active, AccumulatedRewardsWei: bi(int64(1000 + x)), PendingRewardsWei: bi(55), CollateralWei: bi(3), WithdrawalAddress: a.Hex(), ValidatorIndex: uint64(k)}
						vals[uint64(k)] = &MV{Addr: a.Hex(), Acc: bi(int64(1000 + x))}
					}
					out := map[string]int64{}
					checkTree(r, st, vals, false, out)
					r.addOutcomes(out)
					twins++
				}
			}
		}
	}
	r.bound("trees of addresses that agree except at one byte", twins)
	r.bound("tree sizes with all addresses different", fmt.Sprintf("1..%d validators", sizes))
	// a validator withdrawing to the fee address: the operator's share and the validator's are one claim
	st := &oracle.OracleState{PoolAccumulatedFees: bi(13), PoolAddress: strings.ToLower(poolAddr.Hex()), PoolFeesAddress: feesAddr.Hex(), Validators: map[uint64]*oracle.ValidatorInfo{
		5: {ValidatorStatus: oracle.Active, AccumulatedRewardsWei: bi(7), PendingRewardsWei: bi(0), CollateralWei: bi(0), WithdrawalAddress: strings.ToLower(feesAddr.Hex()), ValidatorIndex: 5},
		6: {ValidatorStatus: oracle.Active, AccumulatedRewardsWei: bi(9), PendingRewardsWei: bi(0), CollateralWei: bi(0), WithdrawalAddress: strings.ToLower(ownerA.Hex()), ValidatorIndex: 6}}}
	var ls []oracle.RawLeaf
	how := guard(func() { ls = oracle.NewMerklelizer().AggregateValidatorsIndexes(st) })
	if how != "" || len(ls) != 2 || !eqInt(ls[0].AccumulatedBalanceWei, bi(20)) {
		r.violate("validator withdrawing to the fee address", fmt.Sprintf("C09: with a validator withdrawing to the fee address the tree has %d leaves, the fee address twice (%s)", len(ls), firstLine(how)), nil)
	}
	// a validator withdrawing to the pool contract itself
	o, _ := inject(mkCfg("mainnet", 100, 700), 11649600, []PV{{U: mkVal(5, 1, poolAddr), St: stActive, Acc: 5}}, 3)
	if how := guard(func() { o.FreezeCheckpoint() }); how != "" {
		r.violate("withdrawal address is the pool contract", "C09: a tracked validator whose withdrawal address is the pool contract stops the oracle: "+firstLine(how), nil)
	}
}

func checkTree(r *Run, st *oracle.OracleState, vals map[uint64]*MV, deep bool, out map[string]int64) {
	r.States.Add(1)
	r.Evals.Add(1)
	r.Transitions.Add(1)
	before := snapshot(st)
	o := oracle.NewOracle(mkCfg("mainnet", 100, 700))
	s := realState(o)
	s.Validators, s.PoolAccumulatedFees, s.PoolFeesAddress, s.LatestProcessedSlot = st.Validators, st.PoolAccumulatedFees, st.PoolFeesAddress, 777
	desc := func() any {
		return map[string]any{"operator": st.PoolAccumulatedFees.String(), "validators": jsonOf(st.Validators)}
	}
	fail := func(sig, what string) {
		r.violate(sig, "C09: "+what+"; validators "+describeVals(vals), desc())
	}
	var made bool
	var order []oracle.RawLeaf
	how := guard(func() {
		order = oracle.NewMerklelizer().AggregateValidatorsIndexes(st)
		made = o.FreezeCheckpoint()
	})
	if how != "" {
		fail("abort", "building the tree ended in "+firstLine(how))
		return
	}
	want := refLeaves(common.HexToAddress(st.PoolFeesAddress), st.PoolAccumulatedFees, vals)
	out[fmt.Sprintf("%d leaves", len(want))]++
	if len(order) != len(want) {
		fail("leaves", fmt.Sprintf("%d leaves, expected %d", len(order), len(want)))
		return
	}
	for i := range want {
		if order[i].WithdrawalAddress != want[i].WithdrawalAddress || !eqInt(order[i].AccumulatedBalanceWei, want[i].AccumulatedBalanceWei) {
			fail("leaves", fmt.Sprintf("leaf %d is %s with %v, expected %s with %v", i, order[i].WithdrawalAddress, order[i].AccumulatedBalanceWei, want[i].WithdrawalAddress, want[i].AccumulatedBalanceWei))
			return
		}
	}
	if made != (len(want) > 1) {
		fail("exists", fmt.Sprintf("tree built: %v, with %d leaves", made, len(want)))
		return
	}
	if made {
		cs := s.CommitedStates[777]
		if cs == nil {
			fail("frozen", "the frozen state is not recorded under its slot")
			return
		}
		if w := checkOnchain(cs, want, deep); w != "" {
			fail("proof", w)
		}
	}
	if a, b := jsonOf(before.Validators), jsonOf(st.Validators); a != b {
		fail("side-effect", "building the tree changed the balances from "+a+" to "+b)
	}
}

func describeVals(vals map[uint64]*MV) string {
	var ks []uint64
	for k := range vals {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%d %s %v", k, vals[k].Addr, vals[k].Acc))
	}
	if len(s) > 6 {
		s = append(s[:6], "...")
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func jsonOf(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		return "unprintable: " + err.Error()
	}
	return string(b)
}

// ---------------------------------------------------------------- C10: checkpoints

func runC10(r *Run) {
	type frozen struct {
		slot uint64
		json string
		want []oracle.RawLeaf
	}
	// histories in which every block may be followed by a freeze, on a real oracle
	al := [][]Part{{}, {pSub(vA, 1000)}, {pSub(vB, 1003)}, {pVanillaOK(vA, 1001)}, {pVanillaOK(vB, 50)}, {pVanillaWrong(vA)}, {pMissed(vA)}, {pBan(11)}, {pUnban(11)}, {pUnsub(vA)}, {pDon(10007)}, {pSub(vC, 1000), pVanillaOK(vC, 7)}}
	depth := r.pick(4, 5)
	cfg := mkCfg("mainnet", 11649100, 700)
	w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE)
	r.bound("histories", fmt.Sprintf("all sequences of %d of %d blocks, each followed by a freeze or not", depth, len(al)))
	var rec func(o *oracle.Oracle, m *MState, fr []frozen, d int, path string, out map[string]int64)
	rec = func(o *oracle.Oracle, m *MState, fr []frozen, d int, path string, out map[string]int64) {
		if d == depth || r.stop() || r.expired() {
			return
		}
		for _, ps := range al {
			for _, fz := range []bool{false, true} {
				if !fz && d == depth-1 && len(fr) == 0 {
					continue
				}
				n := deepClone(o)
				b := mkBlock(m.Next, ps)
				res := step(n, m, w, b, allTags)
				if res.mod == nil {
					return // reported by the properties about the transition itself
				}
				r.Transitions.Add(1)
				p := path + " ; {" + b.Name + "}"
				f2 := fr
				fail := func(sig, what string) {
					r.violate(sig, "C10: after "+p+": "+what, map[string]any{"history": p})
				}
				if fz {
					p += " freeze"
					var ok bool
					if how := guard(func() { ok = n.FreezeCheckpoint() }); how != "" {
						fail("abort", "freezing ended in "+firstLine(how))
						continue
					}
					if ok != (len(res.mod.V) > 0) {
						fail("freeze", fmt.Sprintf("freeze reported %v with %d validators", ok, len(res.mod.V)))
						continue
					}
					if ok {
						cs := realState(n).CommitedStates[b.Slot]
						if cs == nil || cs.Slot != b.Slot {
							fail("freeze", "no record of the frozen slot")
							continue
						}
						want := refLeaves(feesAddr, res.mod.Pool, res.mod.V)
						if wv, gv := jsonOf(realState(n).Validators), jsonOf(cs.Validators); wv != gv {
							fail("frozen-validators", "frozen validators "+gv+" but the state holds "+wv)
							continue
						}
						f2 = append(append([]frozen{}, fr...), frozen{b.Slot, jsonOf(cs), want})
					}
				}
				r.States.Add(1)
				r.Evals.Add(1)
				if what := checkFrozen(n, cfg, b.Slot, func(yield func(slot uint64, j string, want []oracle.RawLeaf)) {
					for _, x := range f2 {
						yield(x.slot, x.json, x.want)
					}
				}); what != "" {
					fail("frozen", what)
					continue
				}
				out[fmt.Sprintf("%d frozen of %d", len(f2), d+1)]++
				rec(n, res.mod, f2, d+1, p, out)
			}
		}
	}
	// parallel over the first two blocks
	type start struct{ a, b int }
	var js []start
	for a := range al {
		for b := range al {
			js = append(js, start{a, b})
		}
	}
	full := al
	_ = full
	parallel(len(al)*2, func(_, i int) {
		out := map[string]int64{}
		o := oracle.NewOracle(mkCfgCopy(cfg))
		m := newModel(cfg)
		b := mkBlock(m.Next, al[i/2])
		res := step(o, m, w, b, allTags)
		if res.mod == nil {
			return
		}
		var fr []frozen
		p := "{" + b.Name + "}"
		if i%2 == 1 {
			if how := guard(func() {
				if o.FreezeCheckpoint() {
					fr = append(fr, frozen{b.Slot, jsonOf(realState(o).CommitedStates[b.Slot]), refLeaves(feesAddr, res.mod.Pool, res.mod.V)})
				}
			}); how != "" {
				r.violate("abort", "C10: after "+p+": freezing ended in "+firstLine(how), p)
				return
			}
			p += " freeze"
		}
		rec(o, res.mod, fr, 1, p, out)
		r.addOutcomes(out)
	})
	r.sample("{11 subscribes} freeze ; {11 proposes} freeze ; {ban} : every frozen record compared after every later block")
	// checkpoint arithmetic: every deployment slot and checkpoint size in a small range, every slot
	n := uint64(r.pick(60, 200))
	for dep := uint64(1); dep <= 12; dep++ {
		for size := uint64(1); size <= 12; size++ {
			c := mkCfg("mainnet", dep, 700)
			c.CheckPointSizeInSlots = size
			o := oracle.NewOracle(c)
			for s := uint64(0); s < n; s++ {
				realState(o).LatestProcessedSlot = s
				got, err := o.IsCheckpoint()
				r.Evals.Add(1)
				if s < dep {
					if err == nil && got {
						r.violate("ischeckpoint", fmt.Sprintf("C10: slot %d before deployment %d is a checkpoint", s, dep), nil)
					}
					continue
				}
				if err != nil || got != ((s-dep)%size == 0) {
					r.violate("ischeckpoint", fmt.Sprintf("C10: slot %d, deployment %d, size %d: IsCheckpoint %v, %v", s, dep, size, got, err), nil)
				}
			}
		}
	}
	r.bound("checkpoint arithmetic", fmt.Sprintf("deployment 1..12 x size 1..12 x slots 0..%d", n))
}

func mkCfgCopy(c *oracle.Config) *oracle.Config {
	n := *c
	n.CollateralInWei = cp(c.CollateralInWei)
	return &n
}

// checkFrozen verifies every frozen record and everything derived from the latest one.
func checkFrozen(o *oracle.Oracle, cfg *oracle.Config, now uint64, each func(yield func(slot uint64, j string, want []oracle.RawLeaf))) string {
	st := realState(o)
	n, last, lastRoot := 0, uint64(0), oracle.DefaultRoot
	bad := ""
	each(func(slot uint64, j string, want []oracle.RawLeaf) {
		n++
		cs := st.CommitedStates[slot]
		if cs == nil {
			bad = fmt.Sprintf("the state frozen at %d is gone", slot)
			return
		}
		if g := jsonOf(cs); g != j {
			bad = fmt.Sprintf("the state frozen at %d changed from %s to %s", slot, j, g)
			return
		}
		if w := checkOnchain(cs, want, false); w != "" {
			bad = fmt.Sprintf("frozen at %d: %s", slot, w)
		}
		if slot > last {
			last, lastRoot = slot, cs.MerkleRoot
		}
	})
	if bad != "" {
		return bad
	}
	if len(st.CommitedStates) != n {
		return fmt.Sprintf("%d frozen states recorded, expected %d", len(st.CommitedStates), n)
	}
	s, any := o.LatestCommitedSlot()
	if any != (n > 0) || (any && s != last) {
		return fmt.Sprintf("latest committed slot %d %v, expected %d", s, any, last)
	}
	ls := o.LatestCommitedState()
	if (ls == nil) != (n == 0) || (ls != nil && (ls.Slot != last || ls.MerkleRoot != lastRoot)) {
		return fmt.Sprintf("latest committed state is %v, expected slot %d", ls, last)
	}
	other := "0x" + strings.Repeat("ab", 32)
	for _, root := range []string{lastRoot, "0x" + strings.ToUpper(lastRoot[2:]), other, oracle.DefaultRoot} {
		for _, slot := range []uint64{last, last + 1, 0} {
			in, err := o.IsOracleInSyncWithChain(root, slot)
			var wantIn, wantErr bool
			same := strings.EqualFold(root, lastRoot)
			if n == 0 {
				wantIn = strings.EqualFold(root, oracle.DefaultRoot)
			} else {
				wantIn = same && slot == last
				wantErr = same != (slot == last)
			}
			if in != wantIn || (err != nil) != wantErr {
				return fmt.Sprintf("in sync with root %s slot %d: %v, %v; latest committed is %d %s", root, slot, in, err, last, lastRoot)
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- C12: save and reload

// savedBytes is what SaveToJson writes, produced in memory.
func savedBytes(o *oracle.Oracle) ([]byte, error) {
	s, err := o.StateWithHash()
	if err != nil {
		return nil, err
	}
	return json.MarshalIndent(s, "", " ")
}

func noHash(s *oracle.OracleState) string {
	c := *s
	c.StateHash = ""
	return jsonOf(&c)
}

func c12Alphabet() [][]Part {
	return [][]Part{{}, {pSub(vA, 1000)}, {pSub(vB, 1003), pDon(3)}, {pVanillaOK(vA, 1001)}, {pMevOK(vB, 50)}, {pVanillaWrong(vA)}, {pMissed(vA)}, {pBan(11)}, {pUnban(11)}, {pUnsub(vA)}, {pDon(10007)}, {pVanillaOK(vD, 5)}}
}

func runC12(r *Run) {
	al := c12Alphabet()
	feeBlock := []Part{pDon(10007), part("scheduled fee change", func(b *Blk) { b.Fee = append(b.Fee, 500) })}
	var evMu sync.Mutex
	_ = &evMu
	for _, start := range []uint64{14082457, 14082461, 11649100, 10188218} {
		cfg := mkCfg("mainnet", start, 700)
		cfg.CheckPointSizeInSlots = 2
		cfgJ := jsonOf(cfg)
		w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE)
		b := &bfs{tags: allTags, net: "mainnet", start: start, fee: 700, vals: []*UVal{vA, vB, vC, vD, vE}, parts: al, depth: r.pick(4, 5), cap: 100000}
		b.ckpt = 2
		b.force = map[uint64][]Part{14082460: feeBlock}
		b.after = func(r *Run, o *oracle.Oracle, m *MState, path string) (string, string) {
			if o2, _ := o.IsCheckpoint(); o2 {
				o.FreezeCheckpoint()
			}
			raw, err := savedBytes(o)
			if err != nil {
				return "save", "saving failed: " + err.Error()
			}
			fresh := oracle.NewOracle(mkCfgCopy(cfg))
			var found bool
			if how := guard(func() { found, err = fresh.LoadFromBytes(raw) }); how != "" || err != nil || !found {
				return "load", fmt.Sprintf("a new oracle cannot load the saved state: %v %v %s", found, err, firstLine(how))
			}
			if a, b := noHash(realState(o)), noHash(realState(fresh)); a != b {
				return "state", "the reloaded state differs: " + firstDiff(a, b)
			}
			if a, b := *realCfg(o), *realCfg(fresh); jsonOf(a) != jsonOf(b) {
				return "config", fmt.Sprintf("the configuration after reloading differs: %s instead of %s", jsonOf(b), jsonOf(a))
			}
			r.Evals.Add(1)
			// a continuation on the reloaded oracle follows the model, and freezes the same root
			for _, ps := range al {
				if f, ok := b.force[m.Next]; ok {
					ps = f
				}
				n := deepClone(fresh)
				blk := mkBlock(m.Next, ps)
				res := step(n, m, w, blk, allTags)
				r.Transitions.Add(1)
				if res.mod == nil || len(res.diff) > 0 {
					return "continuation", fmt.Sprintf("after reloading, block {%s}: %v", blk, res.diff)
				}
				if c, _ := n.IsCheckpoint(); c {
					if n.FreezeCheckpoint() {
						if w := checkOnchain(realState(n).CommitedStates[blk.Slot], refLeaves(feesAddr, res.mod.Pool, res.mod.V), false); w != "" {
							return "continuation", "after reloading, checkpoint: " + w
						}
					}
				}
				if _, ok := b.force[m.Next]; ok {
					break
				}
			}
			return "", ""
		}
		b.run(r)
		if jsonOf(cfg) != cfgJ {
			panic("harness changed the configuration")
		}
	}
	// the same through the file system, with restarts from older copies
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "c12")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	oracle.StateFolder = dir
	// every prefix of a history across the fee change, saved at every checkpoint; then every older
	// copy loaded by: a new oracle, the oracle that ran on, and an oracle that loaded another copy
	for _, seq := range [][]int{{1, 3, 2, 4, 10, 3}, {1, 2, 3, 5, 10, 8, 3}, {2, 4, 6, 6, 1, 3}} {
		for _, start := range []uint64{14082456, 11649100} {
			cfg := mkCfg("mainnet", start, 700)
			cfg.CheckPointSizeInSlots = 1
			w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE)
			o := oracle.NewOracle(mkCfgCopy(cfg))
			m := newModel(cfg)
			type sv struct {
				slot uint64
				m    *MState
				json string
				cfg  string
			}
			var saved []sv
			var blocks []*Blk
			for k, a := range seq {
				ps := al[a]
				if start+uint64(k) == 14082460 {
					ps = feeBlock
				}
				blk := mkBlock(m.Next, ps)
				blocks = append(blocks, blk)
				res := step(o, m, w, blk, allTags)
				if res.mod == nil {
					r.violate("history", fmt.Sprintf("C12: {%s}: %v", blk, res.diff), nil)
					break
				}
				m = res.mod
				o.FreezeCheckpoint()
				if err := o.SaveToJson(true); err != nil {
					r.violate("save", "C12: SaveToJson: "+err.Error(), nil)
				}
				saved = append(saved, sv{blk.Slot, m, noHash(realState(o)), jsonOf(realCfg(o))})
				r.States.Add(1)
			}
			if r.stop() {
				return
			}
			tryLoad := func(n *oracle.Oracle, who string, i int) bool {
				s := saved[i]
				var ok bool
				var err error
				how := guard(func() { ok, err = n.LoadGivenState(s.slot) })
				r.Evals.Add(1)
				desc := fmt.Sprintf("C12: %s loads the copy of slot %d (history from slot %d: %v)", who, s.slot, start, seq)
				if how != "" || err != nil || !ok {
					r.violate("load-older", fmt.Sprintf("%s: %v %v %s", desc, ok, err, firstLine(how)), nil)
					return false
				}
				if g := noHash(realState(n)); g != s.json {
					r.violate("older-state", desc+": the state differs: "+firstDiff(s.json, g), nil)
					return false
				}
				if g := jsonOf(realCfg(n)); g != s.cfg {
					r.violate("older-config", desc+": the configuration is "+g+", it was "+s.cfg, nil)
					return false
				}
				mm := s.m
				for k := i + 1; k < len(blocks); k++ {
					res := step(n, mm, w, blocks[k], allTags)
					r.Transitions.Add(1)
					if res.mod == nil {
						r.violate("older-continuation", fmt.Sprintf("%s and goes on with {%s}: %v", desc, blocks[k], res.diff), nil)
						return false
					}
					mm = res.mod
					n.FreezeCheckpoint()
				}
				if len(blocks) == len(saved) {
					if g := noHash(realState(n)); g != saved[len(saved)-1].json {
						r.violate("older-final", desc+" and goes on to the end: the state differs: "+firstDiff(saved[len(saved)-1].json, g), nil)
						return false
					}
				}
				return true
			}
			for i := range saved {
				tryLoad(oracle.NewOracle(mkCfgCopy(cfg)), "a new oracle", i)
				ranOn := deepClone(o)
				tryLoad(ranOn, "the oracle that went on", i)
				for j := range saved {
					n := oracle.NewOracle(mkCfgCopy(cfg))
					if ok, err := n.LoadGivenState(saved[j].slot); err != nil || !ok {
						continue
					}
					tryLoad(n, fmt.Sprintf("an oracle that loaded slot %d", saved[j].slot), i)
				}
				n := oracle.NewOracle(mkCfgCopy(cfg))
				if ok, err := n.LoadFromJson(); err != nil || !ok {
					r.violate("load-latest", fmt.Sprintf("C12: state.json not loaded: %v %v", ok, err), nil)
				} else {
					tryLoad(n, "an oracle that loaded state.json", i)
				}
			}
			fs, _ := filepath.Glob(filepath.Join(dir, "*"))
			for _, f := range fs {
				os.Remove(f)
			}
		}
	}
	r.sample("save at every slot of a 6-block history over the fee change at 14082460; load each copy in a new, a later and an earlier oracle; replay the rest")
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	end := func(s string) string {
		e := i + 60
		if e > len(s) {
			e = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:e]
	}
	return "..." + end(a) + "... vs ..." + end(b) + "..."
}

// ---------------------------------------------------------------- C15: order and refusals

func fullKey(o *oracle.Oracle) string {
	return jsonOf(realState(o)) + jsonOf(realCfg(o))
}

// failingCleanups processes every block at a slot with a cleanup while the node fails: unless nothing has to be
// asked, the block is refused and changes nothing.
func failingCleanups(r *Run, o *oracle.Oracle, w *World, slot uint64, blocks [][]Part, before string) (string, string) {
	for _, ps := range blocks {
		blk := uniq(mkBlock(slot, ps))
		good := deepClone(o)
		w.attach(good, slot)
		good.AdvanceStateToNextSlot(blk.full(w.Chain))
		for _, fail := range []string{"the validators", "the consolidations", "both"} {
			bad := *w
			bad.SetErr, bad.ConsErr = fail != "the consolidations", fail != "the validators"
			n := deepClone(o)
			bad.attach(n, slot)
			var err error
			how := guard(func() { _, err = n.AdvanceStateToNextSlot(blk.full(w.Chain)) })
			r.Transitions.Add(1)
			r.Evals.Add(1)
			if how == "fatal" && bad.SetErr { // sharing a reward asks for the validators too, and the process ends without them
				continue
			}
			if how != "" {
				return "refuse-abort", fmt.Sprintf("block {%s} of slot %d whose cleanup cannot ask for %s ended in %s", blk, slot, fail, firstLine(how))
			}
			if err == nil {
				if fullKey(n) != fullKey(good) {
					return "cleanup-skipped", fmt.Sprintf("block {%s} of slot %d was accepted although its cleanup could not ask for %s: %s", blk, slot, fail, firstDiff(fullKey(good), fullKey(n)))
				}
				continue
			}
			if k := fullKey(n); k != before {
				return "cleanup fails after the block was applied", fmt.Sprintf("block {%s} of slot %d, refused because its cleanup could not ask for %s, changed the state: %s", blk, slot, fail, firstDiff(before, k))
			}
			w.attach(n, slot)
			if _, err := n.AdvanceStateToNextSlot(blk.full(w.Chain)); err != nil || fullKey(n) != fullKey(good) {
				return "not-as-if", fmt.Sprintf("block {%s} of slot %d has another result after its cleanup failed once (%v): %s", blk, slot, err, firstDiff(fullKey(good), fullKey(n)))
			}
		}
	}
	return "", ""
}

func runC15(r *Run) {
	al := [][]Part{{}, {pSub(vA, 1000)}, {pVanillaOK(vA, 1001)}, {pMissed(vA)}, {pVanillaWrong(vA)}, {pBan(11)}, {pUnsub(vA), pDon(10007)}, {pMevOK(vB, 50), pSub(vB, 1000)}}
	rich := both(pSub(vB, 1000), pUnsub(vA), pDon(5), pBan(11), pUnban(11))
	bad := []Part{
		part("fee not scheduled", func(b *Blk) { b.Fee = []int64{900} }),
		part("same fee as configured", func(b *Blk) { b.Fee = []int64{700} }),
		part("two fee events", func(b *Blk) { b.Fee = []int64{500, 500} }),
		part("other recipient", func(b *Blk) { b.Recip = []common.Address{stranger} }),
		part("two recipients", func(b *Blk) { b.Recip = []common.Address{feesAddr, feesAddr} }),
		part("other checkpoint size", func(b *Blk) { b.Ckpt = []uint64{51} }),
		part("two checkpoint sizes", func(b *Blk) { b.Ckpt = []uint64{50, 50} }),
		part("other collateral", func(b *Blk) { b.Coll = []*big.Int{bi(1)} }),
		part("two collaterals", func(b *Blk) { b.Coll = []*big.Int{un(1000), un(1000)} }),
		part("scheduled fee and other recipient", func(b *Blk) { b.Fee, b.Recip = []int64{500}, []common.Address{stranger} }),
		part("scheduled fee and other checkpoint size", func(b *Blk) { b.Fee, b.Ckpt = []int64{500}, []uint64{7} }),
		part("scheduled fee and other collateral", func(b *Blk) { b.Fee, b.Coll = []int64{500}, []*big.Int{bi(2)} }),
	}
	for _, start := range []uint64{14082458, 11649100, 10188218, 14083198, 11649598, 10189198, 10187998} {
		cfg := mkCfg("mainnet", start, 700)
		w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE)
		b := &bfs{tags: tags("slot block err abort"), net: "mainnet", start: start, fee: 700, vals: []*UVal{vA, vB, vC, vD, vE}, parts: al, depth: r.pick(4, 5), cap: 60000}
		b.force = map[uint64][]Part{14082460: {pDon(10007), part("scheduled fee change", func(b *Blk) { b.Fee = append(b.Fee, 500) })}}
		b.after = func(r *Run, o *oracle.Oracle, m *MState, path string) (string, string) {
			before := fullKey(o)
			try := func(blk *Blk) (string, string) {
				n := deepClone(o)
				w.attach(n, blk.Slot)
				var err error
				how := guard(func() { _, err = n.AdvanceStateToNextSlot(blk.full(w.Chain)) })
				r.Transitions.Add(1)
				r.Evals.Add(1)
				if how != "" {
					return "refuse-abort", fmt.Sprintf("refusing block {%s} of slot %d ended in %s", blk, blk.Slot, firstLine(how))
				}
				if err == nil {
					return "accepted", fmt.Sprintf("block {%s} of slot %d was accepted, next slot was %d", blk, blk.Slot, m.Next)
				}
				if k := fullKey(n); k != before {
					return "changed", fmt.Sprintf("the refused block {%s} of slot %d changed the state: %s", blk, blk.Slot, firstDiff(before, k))
				}
				return "", ""
			}
			for _, s := range []uint64{m.Next - 1, m.Next + 1, m.Next - 2, m.Next + 32, 0, ^uint64(0)} {
				for _, ps := range [][]Part{{rich}, {pMissed(vA)}, {pVanillaOK(vA, 1001)}} {
					if t, what := try(mkBlock(s, ps)); t != "" {
						return t, what
					}
				}
			}
			for _, p := range bad {
				for _, ps := range [][]Part{{p}, {rich, p}, {pVanillaOK(vA, 1001), p}} {
					if m.Next == 14082460 && p.Name == "fee 500" {
						continue
					}
					if t, what := try(mkBlock(m.Next, ps)); t != "" {
						return t, what
					}
				}
			}
			if m.Next%1200 == 0 {
				return failingCleanups(r, o, w, m.Next, append(append([][]Part{}, al...), []Part{rich}), before)
			}
			return "", ""
		}
		b.run(r)
	}
	r.bound("refused blocks tried in every state", 6*3+len(bad)*3)
	// a cleanup that fails because the node does not answer
	for _, consErr := range []bool{true, false} {
		cfg := mkCfg("mainnet", 11649599, 700)
		w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE)
		o, m := inject(cfg, 11649600, []PV{{U: vA, St: stRed, Pend: 7}}, 0)
		w.ConsErr, w.SetErr = consErr, !consErr
		before := fullKey(o)
		res := step(o, m, w, mkBlock(11649600, []Part{pDon(10007)}), allTags)
		if res.how != "" || res.err == nil {
			r.violate("cleanup-error", fmt.Sprintf("C15: a failing cleanup was not reported: %s %v", firstLine(res.how), res.err), nil)
		} else if k := fullKey(o); k != before {
			r.violate("cleanup fails after the block was applied", "C15: the block whose cleanup failed changed the state: "+firstDiff(before, k), nil)
		}
	}
}

// ---------------------------------------------------------------- C16: configuration events

func runC16(r *Run) {
	t := tags("abort err fee pend acc pool slot")
	type evs struct {
		n string
		f func(b *Blk)
	}
	var fees, recs, cks, cls []Part
	fees = append(fees, noPart)
	for _, v := range []int64{0, 499, 500, 501, 700, 1000, 10000, 500 + 1<<32, -1} {
		v := v
		fees = append(fees, part(fmt.Sprint("fee ", v), func(b *Blk) { b.Fee = append(b.Fee, v) }))
	}
	fees = append(fees, part("fee 500 twice", func(b *Blk) { b.Fee = append(b.Fee, 500, 500) }), part("fee 500 then 700", func(b *Blk) { b.Fee = append(b.Fee, 500, 700) }))
	recs = append(recs, noPart)
	for _, a := range []common.Address{feesAddr, stranger, poolAddr, {}} {
		a := a
		recs = append(recs, part("recipient "+a.Hex()[:6], func(b *Blk) { b.Recip = append(b.Recip, a) }))
	}
	recs = append(recs, part("recipient repeated", func(b *Blk) { b.Recip = append(b.Recip, feesAddr, feesAddr) }))
	cks = append(cks, noPart)
	for _, v := range []uint64{50, 49, 0, 51} {
		v := v
		cks = append(cks, part(fmt.Sprint("checkpoint size ", v), func(b *Blk) { b.Ckpt = append(b.Ckpt, v) }))
	}
	cls = append(cls, noPart)
	for _, v := range []*big.Int{un(1000), add(un(1000), bi(1)), bi(0), add(un(1000), bs("18446744073709551616"))} {
		v := v
		cls = append(cls, part(fmt.Sprint("collateral ", v), func(b *Blk) { b.Coll = append(b.Coll, v) }))
	}
	e := &oneStep{tags: t, vals: []*UVal{vA, vB, vC, vD, vE}}
	for _, n := range []string{"mainnet", "hoodi", "holesky"} {
		for _, s := range []uint64{14082459, 14082460, 14082461, 2801049, 2801050, 2801051, 2720700, 14082460 - 1200} {
			for _, f := range []int{700, 1000, 500} {
				e.points = append(e.points, Point{n, s, f})
			}
		}
	}
	e.pre = [][]PV{{{U: vA, St: stActive, Pend: 7}, {U: vB, St: stYellow}}, {}}
	e.blocks = product([][]Part{fees, recs, cks, cls, {noPart, pDon(10007), pMissed(vA), pVanillaOK(vA, 99991)}}, r.pick(3, 5))
	bound1(r, e)
	e.run(r)
	// histories around the change: the new fee applies from the block of the event on, the old one before
	ev := part("fee 500", func(b *Blk) { b.Fee = append(b.Fee, 500) })
	for _, n := range []struct {
		net  string
		slot uint64
		fee  int
	}{{"mainnet", 14082458, 700}, {"hoodi", 2801048, 1000}} {
		b := &bfs{tags: t, net: n.net, start: n.slot, fee: n.fee, vals: []*UVal{vA, vB, vC, vD, vE}, depth: r.pick(5, 6), cap: 100000,
			parts: [][]Part{{}, {pSub(vA, 1000)}, {pDon(10007)}, {pDon(10007), ev}, {ev}, {pVanillaOK(vB, 99991), ev}, {pVanillaOK(vA, 99991)}, {part("fee 700", func(b *Blk) { b.Fee = append(b.Fee, 700) })}}}
		b.run(r)
	}
}

// ---------------------------------------------------------------- C17: classification

func runC17(r *Run) {
	t := tags("abort status acc pend pool who prop miss wrong don addr key type hist block")
	val := int64(5)
	var last []Part
	last = append(last, part("no transactions", nil))
	for _, from := range []int{kBuilder, kUser, kWhite} {
		for _, to := range []*common.Address{nil, pa(poolAddr), pa(otherRec), pa(mevProxy)} {
			for _, v := range []int64{0, val} {
				from, to, v := from, to, v
				n := "create"
				if to != nil {
					n = to.Hex()[:6]
				}
				last = append(last, part(fmt.Sprintf("last tx from %d to %s value %d", from, n, v), func(b *Blk) {
					b.Txs = append(b.Txs, Tx{From: from, To: to, Value: un(v), Type: 2, Tip: bi(3), Cap: bi(1000), GasUsed: 30000})
				}))
			}
		}
	}
	first := []Part{noPart, part("first tx from the builder to the pool", func(b *Blk) {
		b.Txs = append([]Tx{{From: kBuilder, To: pa(poolAddr), Value: un(val), Type: 0, GasPrice: bi(11), GasUsed: 21000}}, b.Txs...)
	}), part("first tx from a user", func(b *Blk) {
		b.Txs = append([]Tx{{From: kUser2, To: pa(otherRec), Value: un(9), Type: 1, GasPrice: bi(12), GasUsed: 21001}}, b.Txs...)
	})}
	ether := []Part{noPart, pDon(val), pDon(9), pDon(0), both(pDon(val), pDon(9)), both(pDon(val), pDon(val))}
	feeRecs := []Part{part("fee recipient pool", func(b *Blk) { b.FeeRec = poolAddr }), part("fee recipient builder", func(b *Blk) { b.FeeRec = txAddr[kBuilder] }), part("fee recipient other", func(b *Blk) { b.FeeRec = otherRec }),
		part("fee recipient user", func(b *Blk) { b.FeeRec = txAddr[kUser] })}
	var forks []Part
	for _, v := range forkVersions() {
		v := v
		forks = append(forks, part(v.String(), func(b *Blk) { b.Fork = v }))
	}
	badCred := vA.with(func(u *UVal) { u.Cred[0] = 3 })
	props := []Part{part("proposer 11", func(b *Blk) { b.Prop = vA }), part("proposer 22 (0x02)", func(b *Blk) { b.Prop = vB }), part("proposer 44 (BLS)", func(b *Blk) { b.Prop = vD }), part("proposer 11 with unknown credentials", func(b *Blk) { b.Prop = badCred })}
	subs := []Part{noPart, pSub(vA, 1000)}
	groups := [][]Part{forks, feeRecs, props, last, first, ether, subs}
	e := &oneStep{tags: t, vals: []*UVal{vA, vB, vC, vD, vE}, points: []Point{{"mainnet", 11649025, 700}, {"hoodi", 70001, 1000}}}
	if r.thorough() {
		e.points = append(e.points, Point{"mainnet", 10188219, 700}, Point{"holesky", 2720633, 1000})
	}
	e.pre = cross(valOptions(vA, []PV{{St: stUntracked}, {St: stActive, Pend: 77}, {St: stRed, Pend: 13}, {St: stBanned}, {St: stNotSub}}), valOptions(vB, []PV{{St: stUntracked}, {St: stActive, Pend: 1}}))
	all := product(groups, 1000)
	// a payment by the fee recipient to the pool always has its event; a balance-less tip must not be negative
	for _, ps := range all {
		b := mkBlock(1, ps)
		if b.Prop == badCred && (classify(oracle.MainnetChainId, b, true).toPool || classify(oracle.HoodiChainId, b, true).toPool) {
			continue // such credentials do not exist on the beacon chain, and no rule says who would be paid
		}
		if b.Fork != 0 && !r.thorough() && b.Fork != spec.DataVersionElectra && (len(b.Subs) > 0 || len(b.Ether) > 1 || b.Prop == badCred) {
			continue
		}
		if v := classify(oracle.MainnetChainId, b, true); v.mev && v.toPool && !hasEvent(b, v.amount) {
			continue // see the known finding below
		}
		e.blocks = append(e.blocks, ps)
	}
	e.blocks = append(e.blocks, []Part{pMissed(vA)}, []Part{pMissed(vB)}, []Part{pMissed(vD)}, []Part{pMissed(badCred)})
	bound1(r, e)
	e.run(r)
	// The fee recipient's own last transaction calls the pool without paying it (it claims its
	// rewards, or subscribes): that is no MEV payment to the pool.
	for _, call := range []struct {
		n string
		f func(b *Blk)
	}{{"claims its rewards", func(b *Blk) {}}, {"subscribes its validator", func(b *Blk) {
		b.Txs[len(b.Txs)-1].Value = un(1000)
		b.Subs = append(b.Subs, Sub{11, ownerA, un(1000), vA})
	}}} {
		for _, st := range []int{stUntracked, stActive, stNotSub} {
			cfg := mkCfg("mainnet", 100, 700)
			w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE)
			o, m := inject(cfg, 11649025, []PV{{U: vA, St: st, Acc: 5}, {U: vB, St: stActive}}, 1)
			b := &Blk{Slot: 11649025, Number: 77, Prop: vA, FeeRec: txAddr[kBuilder], Txs: []Tx{{From: kBuilder, To: pa(poolAddr), Value: bi(0), Type: 2, Tip: bi(1), Cap: bi(100), GasUsed: 50000}}}
			call.f(b)
			res := step(o, m, w, b, t)
			r.Evals.Add(1)
			for _, d := range res.diff {
				r.violate("fee recipient's call to the pool taken for an MEV payment", fmt.Sprintf("C17: proposer 11 (%s), whose fee recipient %s in the last transaction: %s", stName[st], call.n, d.What), b.describe())
			}
		}
	}
}

func hasEvent(b *Blk, v *big.Int) bool {
	for _, e := range b.Ether {
		if e.Amount.Cmp(v) == 0 {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C18: vanilla tip

func runC18(r *Run) {
	baseFees := []*big.Int{bi(0), bi(7), bi(30000000000), bs("340282366920938463463374607431768211456")}
	var txs []Tx
	gas := []uint64{21000, 1, 1<<33 + 1}
	for _, ty := range []int{0, 1} {
		for _, extra := range []int64{0, 1, 1000000007} {
			for _, g := range gas {
				txs = append(txs, Tx{From: kUser, To: pa(otherRec), Value: bi(1), Type: ty, GasPrice: bi(extra), GasUsed: g})
			}
		}
	}
	for _, ty := range []int{2, 3, 4} {
		for _, tip := range []int64{0, 1, 2000000001} {
			for _, cap := range []int64{0, 1, 1999999999, 2000000001, 1 << 60} { // above the base fee
				for _, g := range gas[:2] {
					txs = append(txs, Tx{From: kUser2, To: pa(otherRec), Value: bi(0), Type: ty, Tip: bi(tip), Cap: bi(cap), GasUsed: g})
				}
			}
		}
	}
	mk := func(bf *big.Int, fork spec.DataVersion, l ...Tx) *Blk {
		b := &Blk{Slot: 20, Number: 5, Prop: vA, FeeRec: poolAddr, BaseFee: bf, Fork: fork}
		for _, t := range l {
			if t.GasPrice != nil {
				t.GasPrice = add(t.GasPrice, bf)
			} else {
				t.Cap = add(t.Cap, bf)
				if t.Tip.Cmp(t.Cap) > 0 {
					t.Tip = t.Cap // a transaction may not offer a tip above its cap
				}
			}
			b.Txs = append(b.Txs, t)
		}
		return b
	}
	check := func(b *Blk, out map[string]int64) {
		var got *big.Int
		var err error
		how := guard(func() { got, err = b.full(1).GetProposerTip() })
		want := refTip(b)
		r.Evals.Add(1)
		r.Transitions.Add(1)
		r.States.Add(1)
		if how != "" || err != nil || !eqInt(got, want) {
			r.violate("tip", fmt.Sprintf("C18: tip %v (%v %s), expected %v for base fee %v, %s", got, err, firstLine(how), want, b.BaseFee, b.describe()), b.describe())
		}
		if want.Sign() < 0 {
			panic("harness: negative tip")
		}
		out[fmt.Sprintf("%s bits %d txs %d", b.version(), want.BitLen()/8, len(b.Txs))]++
	}
	type job struct {
		bf   *big.Int
		fork spec.DataVersion
	}
	var js []job
	for _, bf := range baseFees {
		for _, f := range forkVersions() {
			js = append(js, job{bf, f})
		}
	}
	third := r.pick(0, 12)
	parallel(len(js), func(_, i int) {
		out := map[string]int64{}
		j := js[i]
		check(mk(j.bf, j.fork), out)
		for _, a := range txs {
			check(mk(j.bf, j.fork, a), out)
			for k, b := range txs {
				if r.expired() || r.stop() {
					return
				}
				check(mk(j.bf, j.fork, a, b), out)
				if k%3 == 0 {
					for _, c := range txs[:third] {
						check(mk(j.bf, j.fork, a, b, c), out)
					}
				}
			}
		}
		r.addOutcomes(out)
	})
	r.bound("transactions", len(txs))
	r.bound("base fees", fmt.Sprint(baseFees))
	r.bound("blocks", "none, one, two (thorough: three) transactions, in all 5 block formats")
	// wrong receipts
	faults := 0
	for _, f := range forkVersions() {
		for _, l := range [][]Tx{{txs[0]}, {txs[0], txs[20]}, {txs[3], txs[30], txs[60]}} {
			b := mk(bi(7), f, l...)
			n := len(l)
			tryBad := func(name string, ch func(fb *oracle.FullBlock)) {
				faults++
				fb := b.full(1)
				ch(fb)
				var got *big.Int
				var err error
				how := guard(func() { got, err = fb.GetProposerTip() })
				r.Evals.Add(1)
				if how != "" {
					r.violate("receipts-abort", "C18: "+name+": "+firstLine(how), b.describe())
				} else if err == nil {
					r.violate("receipts: "+strings.Fields(name)[0], fmt.Sprintf("C18: %s yields %v without an error", name, got), b.describe())
				}
			}
			tryBad("missing receipts", func(fb *oracle.FullBlock) { fb.ExecutionReceipts = nil })
			tryBad("missing header", func(fb *oracle.FullBlock) { fb.ExecutionHeader = nil })
			tryBad("extra receipt", func(fb *oracle.FullBlock) {
				fb.ExecutionReceipts = append(fb.ExecutionReceipts, fb.ExecutionReceipts[0])
			})
			tryBad("empty receipts", func(fb *oracle.FullBlock) { fb.ExecutionReceipts = []*types.Receipt{} })
			for k := 0; k < n; k++ {
				k := k
				tryBad(fmt.Sprintf("foreign receipt at %d", k), func(fb *oracle.FullBlock) {
					c := *fb.ExecutionReceipts[k]
					c.TxHash[0] ^= 1
					fb.ExecutionReceipts[k] = &c
				})
				tryBad(fmt.Sprintf("dropped receipt %d", k), func(fb *oracle.FullBlock) {
					fb.ExecutionReceipts = append(append([]*types.Receipt{}, fb.ExecutionReceipts[:k]...), fb.ExecutionReceipts[k+1:]...)
				})
				if k > 0 {
					tryBad(fmt.Sprintf("swapped receipts %d", k), func(fb *oracle.FullBlock) {
						fb.ExecutionReceipts[0], fb.ExecutionReceipts[k] = fb.ExecutionReceipts[k], fb.ExecutionReceipts[0]
					})
				}
			}
		}
	}
	r.bound("wrong receipt lists", faults)
}

// ---------------------------------------------------------------- C28: reconciliation

func runC28(r *Run) {
	c28Onchain(r)
	c28Daemon(r)
	opts := []PV{{St: stUntracked}, {St: stActive, Acc: 11, Pend: 1007}, {St: stNotSub, Acc: 9}, {St: stBanned, Acc: 4}, {St: stRed, Pend: 3}, {St: stActive}}
	pres := cross(valOptions(vA, opts), valOptions(vB, opts), valOptions(vC, opts))
	r.bound("states", len(pres))
	big1 := bs("100000000000000000000000000")
	parallel(len(pres), func(_, pi int) {
		if r.stop() || r.expired() {
			return
		}
		out := map[string]int64{}
		pre := pres[pi]
		cfg := mkCfg("mainnet", 100, 700)
		o, m := inject(cfg, 11649700, pre, 13)
		s := realState(o)
		owed, _ := liabilities(s)
		// record income that matches: one event of each kind
		third := new(big.Int).Div(owed, bi(3))
		blk := &Blk{Slot: 11649700, Number: 7, Prop: vA, Ether: []Ether{{stranger, third, poolAddr}, {stranger, bi(0), poolAddr}}, Subs: []Sub{{11, ownerA, third, vA}}}
		ev := blk.events()
		fill := func(de, ds, dp, dm *big.Int) {
			s.EtherReceivedEvents = blk.events().EtherReceived
			s.EtherReceivedEvents[1].DonationAmount = de
			s.SubscriptionEvents = ev.SubscribeValidator
			s.SubscriptionEvents[0].SubscriptionCollateral = add(third, ds)
			s.ProposedBlocks = []oracle.SummarizedBlock{{RewardType: oracle.VanilaBlock, Reward: add(sub(owed, new(big.Int).Mul(third, bi(2))), dp), BlockType: oracle.OkPoolProposal},
				{RewardType: oracle.MevBlock, Reward: add(big1, dm), BlockType: oracle.OkPoolProposal}}
			s.WrongFeeBlocks = []oracle.SummarizedBlock{{RewardType: oracle.VanilaBlock, Reward: add(big1, dm), BlockType: oracle.WrongFeeRecipient}}
			s.Donations = s.EtherReceivedEvents[:1]
		}
		chk := func(name string, wantErr bool, f func() error) {
			var err error
			how := guard(func() { err = f() })
			r.Evals.Add(1)
			r.Transitions.Add(1)
			out[fmt.Sprintf("%s fails=%v", name, wantErr)]++
			if how != "" {
				r.violate("abort", fmt.Sprintf("C28: %s with %v ended in %s", name, pre, firstLine(how)), nil)
			} else if (err != nil) != wantErr {
				r.violate("verdict", fmt.Sprintf("C28: %s with %v: error %v", name, pre, err), nil)
			}
		}
		z := bi(0)
		ds := []*big.Int{bi(-1), bi(0), bi(1), big1}
		for _, de := range ds {
			for _, dsu := range ds {
				for _, dp := range ds {
					fill(de, dsu, dp, z)
					tot := add(add(de, dsu), dp)
					chk("off-chain", tot.Sign() != 0, o.RunOffchainReconciliation)
				}
			}
		}
		fill(z, z, z, bi(5)) // an MEV block's reward is not counted twice
		chk("off-chain", false, o.RunOffchainReconciliation)
		fill(z, z, z, z)
		bump := func(name string, x **big.Int) {
			for _, d := range []int64{-1, 1} {
				old := *x
				*x = add(old, bi(d))
				chk("off-chain "+name, true, o.RunOffchainReconciliation)
				*x = old
			}
		}
		bump("operator", &s.PoolAccumulatedFees)
		for _, v := range s.Validators {
			bump("claimable", &v.AccumulatedRewardsWei)
			bump("pending", &v.PendingRewardsWei)
		}
		// on chain
		uniq := map[string]bool{strings.ToLower(feesAddr.Hex()): true}
		for _, v := range s.Validators {
			uniq[strings.ToLower(v.WithdrawalAddress)] = true
		}
		l := o.GetUniqueWithdrawalAddresses()
		got := map[string]int{}
		for _, a := range l {
			got[strings.ToLower(a)]++
		}
		for a := range uniq {
			if got[a] != 1 {
				r.violate("addresses", fmt.Sprintf("C28: %s is consulted %d times (%v) with %v", a, got[a], l, pre), nil)
			}
		}
		if len(got) != len(uniq) {
			r.violate("addresses", fmt.Sprintf("C28: addresses %v with %v", l, pre), nil)
		}
		for _, c1 := range []int64{0, 1, 9} {
			for _, c2 := range []int64{0, 4} {
				claimed := map[string]*big.Int{ownerA.Hex(): bi(c1), ownerB.Hex(): bi(c2), feesAddr.Hex(): bi(13)}
				net := sub(owed, bi(c1+c2+13))
				for _, d := range ds {
					bal := add(net, d)
					chk("on-chain", d.Sign() != 0, func() error { return o.RunOnchainReconciliation(bal, claimed) })
				}
				for k, v := range claimed {
					claimed[k] = add(v, bi(1))
					chk("on-chain claimed", true, func() error { return o.RunOnchainReconciliation(net, claimed) })
					claimed[k] = v
				}
				for _, v := range s.Validators {
					old := v.PendingRewardsWei
					v.PendingRewardsWei = add(old, bi(1))
					chk("on-chain pending", true, func() error { return o.RunOnchainReconciliation(net, claimed) })
					v.PendingRewardsWei = old
				}
			}
		}
		// a withdrawal address that is the fee address is consulted once
		_ = m
		r.States.Add(1)
		r.addOutcomes(out)
	})
	for _, form := range []string{strings.ToLower(feesAddr.Hex()), feesAddr.Hex()} {
		o, _ := inject(mkCfg("mainnet", 100, 700), 11649700, []PV{{U: vA, St: stActive, Acc: 5}, {U: vB, St: stActive}}, 3)
		realState(o).Validators[11].WithdrawalAddress = form
		n := 0
		for _, a := range o.GetUniqueWithdrawalAddresses() {
			if strings.EqualFold(a, feesAddr.Hex()) {
				n++
			}
		}
		if n != 1 {
			r.violate("fee address consulted twice", fmt.Sprintf("C28: with a validator withdrawing to the fee address, that address is consulted %d times", n), nil)
		}
	}
}
