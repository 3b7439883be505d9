package main

import (
	"fmt"
	"math/big"
	"strings"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/oracle"
)

// validators of the cast
var vA, vB, vC, vD, vE *UVal

func init() {
	vA = mkVal(11, 1, ownerA)
	vB = mkVal(22, 2, ownerB)
	vB.Eff = 2048000000000 // a consolidated validator
	vC = mkVal(33, 1, ownerA)
	vC.Eff = 31000000000
	vD = mkVal(44, 0, ownerA)
	vE = mkVal(55, 1, ownerC)
	vE.Eff = 33000000001
	strangerVal = mkVal(99, 1, stranger)

	register("C01", "model_checking", runC01)
	register("C02", "model_checking", runC02)
	register("C03", "model_checking", runC03)
	register("C04", "model_checking", runC04)
	register("C05", "model_checking", runC05)
	register("C06", "model_checking", runC06)
	register("C07", "model_checking", runC07)
	register("C08", "model_checking", runC08)
	register("C19", "model_checking", runC19)
}

var fullOpts = []PV{
	{St: stUntracked}, {St: stActive}, {St: stActive, Acc: 11, Pend: 1007}, {St: stYellow, Pend: 503}, {St: stYellow, Acc: 2}, {St: stRed, Acc: 5, Pend: 301}, {St: stRed},
	{St: stNotSub, Acc: 9}, {St: stNotSub, Pend: 41}, {St: stBanned, Acc: 4},
}
var midOpts = []PV{{St: stUntracked}, {St: stActive, Acc: 11, Pend: 1007}, {St: stYellow, Pend: 503}, {St: stRed, Acc: 5, Pend: 301}, {St: stNotSub, Acc: 9}, {St: stBanned, Acc: 4}}
var smallOpts = []PV{{St: stUntracked}, {St: stActive, Pend: 77}, {St: stRed, Pend: 13}, {St: stBanned}}

func proposals(u *UVal, amt int64) []Part {
	return []Part{pMissed(u), pVanillaOK(u, amt), pVanillaWrong(u), pMevOK(u, amt), pMevWrong(u, amt), pMevViaProxy(u, amt)}
}

// generalGroups is the common alphabet: one proposal, subscriptions, unsubscriptions, donations,
// bans and unbans.
func generalGroups(a, b *UVal) [][]Part {
	return [][]Part{
		append(append([]Part{noPart}, proposals(a, 1000003)...), pVanillaOK(vD, 5003), pVanillaOK(vE, 999)),
		{noPart, pSub(a, 1000), pSub(b, 1003), pSub(a, 999), both(pSub(a, 1000), pSub(a, 2000)), both(pSub(a, 1001), pSub(b, 1000)), pSubBy(a, "x", 1000)},
		{noPart, pUnsub(a), pUnsub(b), both(pUnsub(a), pUnsub(b)), both(pUnsub(a), pUnsub(a)), pUnsubBy(a)},
		{noPart, pDon(10007), both(pDon(1), pDon(77777)), pDon(1000003)},
		{noPart, pBan(a.Idx), pBan(b.Idx), pBan(a.Idx, b.Idx), pBan(a.Idx, a.Idx), pBan(77)},
		{noPart, pUnban(a.Idx), pUnban(b.Idx), pUnban(a.Idx, b.Idx), pUnban(77)},
	}
}

// donation equal to an MEV payment is counted by C19 only
func bfsAlphabet() [][]Part {
	one := func(ps ...Part) []Part { return ps }
	return [][]Part{
		one(), one(pMissed(vA)), one(pVanillaOK(vA, 1000003)), one(pMevOK(vA, 5000011)), one(pVanillaWrong(vA)), one(pMissed(vB)), one(pVanillaOK(vB, 701)),
		one(pSub(vA, 1000)), one(pSub(vB, 1999)), one(both(pSub(vA, 1500), pSub(vB, 1000))), one(pUnsub(vA)), one(pUnsub(vB)), one(pDon(100003)), one(pBan(vA.Idx)), one(pBan(vA.Idx, vB.Idx)),
		one(pUnban(vA.Idx)), one(pVanillaOK(vD, 5003)), one(pVanillaOK(vE, 4001), pSub(vA, 1000), pBan(vE.Idx)), one(pSub(vA, 1000), pUnsub(vA)), one(pDon(3), pBan(vB.Idx), pUnban(vB.Idx)),
	}
}

func bound1(r *Run, e *oneStep) {
	var pts []string
	for _, p := range e.points {
		pts = append(pts, p.String())
	}
	r.bound("one-step: network and slots", pts)
	r.bound("one-step: start states per slot", len(e.pre))
	r.bound("one-step: blocks per start state", len(e.blocks))
}

func std3(r *Run, t string) *oneStep {
	e := &oneStep{tags: tags(t), points: stdPoints, vals: []*UVal{vA, vB, vC, vD, vE}}
	if r.thorough() {
		e.pre = cross(valOptions(vA, fullOpts), valOptions(vB, fullOpts), valOptions(vE, smallOpts))
		e.blocks = product(generalGroups(vA, vB), 3)
	} else {
		e.points = []Point{stdPoints[0], stdPoints[2], stdPoints[4], stdPoints[6]}
		e.pre = cross(valOptions(vA, midOpts), valOptions(vB, midOpts), valOptions(vE, smallOpts[:3]))
		e.blocks = product(generalGroups(vA, vB), 2)
	}
	return e
}

func stdBfs(r *Run, t string, qd, td int) []*bfs {
	mk := func(net string, start uint64, fee int) *bfs {
		return &bfs{tags: tags(t), net: net, start: start, fee: fee, vals: []*UVal{vA, vB, vC, vD, vE}, parts: bfsAlphabet(), depth: r.pick(qd, td), cap: r.pick(40000, 400000)}
	}
	return []*bfs{
		mk("mainnet", 10188218, 700), // crosses fork 1 after two slots
		mk("mainnet", 11649022, 733), // crosses Electra after two slots
		mk("hoodi", 70799, 1000),     // Electra, cleanup at the second slot
	}
}

func sumTag(_, post *oracle.OracleState, m0, m1 *MState, b *Blk, w *World) (string, string) {
	sum, neg := liabilities(post)
	if neg != "" {
		return "negative", "negative " + neg
	}
	var inc = m0.Income
	if m1 != nil {
		inc = m1.Income
	}
	if sum.Cmp(inc) != 0 {
		return "sum", fmt.Sprintf("owed %v, received %v", sum, inc)
	}
	return "", ""
}

func runC01(r *Run) {
	e := std3(r, "abort")
	e.pool = 17 * unit
	e.check = sumTag
	e.skip = func(pre []PV, b *Blk) bool { return false }
	bound1(r, e)
	e.run(r)
	tinyAmounts(r, e)
	for _, b := range stdBfs(r, "abort", 5, 7) {
		b.check = func(pre, post *oracle.OracleState, m0, m1 *MState, bl *Blk, w *World) (string, string) {
			return sumTag(pre, post, m0, m1, bl, w)
		}
		b.after = func(r *Run, o *oracle.Oracle, m *MState, path string) (string, string) {
			if err := o.RunOffchainReconciliation(); err != nil {
				return "recorded", "the recorded income differs from what is owed: " + err.Error()
			}
			return "", ""
		}
		b.run(r)
	}
}

// tinyAmounts shares every small amount under every rule, also with nothing pending before.
func tinyAmounts(r *Run, e *oneStep) {
	var tiny [][]Part
	for a := int64(0); a <= 12; a++ {
		for _, x := range []int64{a, a*1000 + 1, 9995 + a} {
			x := x
			tiny = append(tiny, []Part{part(fmt.Sprintf("donation of %d wei", x), func(b *Blk) { b.Ether = append(b.Ether, Ether{stranger, bi(x), poolAddr}) })})
		}
	}
	e2 := *e
	e2.blocks = tiny
	e2.pre = cross(valOptions(vA, fullOpts), valOptions(vB, midOpts))
	r.bound("shares of a few wei: amounts", len(tiny))
	e2.run(r)
}

func runC02(r *Run) {
	t := "abort pend acc pool fee status who"
	amounts := []*big.Int{bi(0), bi(1), bi(2), bi(3), bi(9999), bi(10000), bi(10001), bi(1000003), bs("18446744073709551617"), bs("33333333333333333333333333")}
	amtParts := func() []Part {
		var ps []Part
		for _, a := range amounts {
			a := a
			ps = append(ps, part(fmt.Sprintf("donation %v", a), func(b *Blk) { b.Ether = append(b.Ether, Ether{stranger, a, poolAddr}) }))
		}
		return ps
	}()
	sts := []PV{{St: stUntracked}, {St: stActive, Pend: 3}, {St: stYellow}, {St: stRed}, {St: stNotSub}, {St: stBanned}}
	// 1. every status combination of three validators, every amount
	e := &oneStep{tags: tags(t), vals: []*UVal{vA, vB, vC, vD, vE}, pre: cross(valOptions(vA, sts), valOptions(vB, sts), valOptions(vE, sts))}
	for _, n := range []string{"mainnet", "hoodi", "holesky"} {
		slots := map[string][]uint64{"mainnet": {101, 10188219, 10188220, 11649023, 11649024, 15000001}, "hoodi": {1, 2, 65535, 65536, 70001}, "holesky": {2720631, 2720632, 12000001}}[n]
		for _, s := range slots {
			fees := []int{0, 1, 333, 700, 10000}
			if r.thorough() {
				fees = []int{0, 1, 2, 333, 500, 700, 1000, 5000, 9999, 10000}
			}
			for _, f := range fees {
				e.points = append(e.points, Point{n, s, f})
			}
		}
	}
	for _, p := range amtParts {
		e.blocks = append(e.blocks, []Part{p})
	}
	e.blocks = append(e.blocks, []Part{pVanillaOK(vA, 1000003)}, []Part{pVanillaOK(vE, 10001)}, []Part{amtParts[4], amtParts[7]}, []Part{pVanillaOK(vA, 17), amtParts[6]})
	bound1(r, e)
	e.run(r)
	// 2. effective balances: three eligible validators, every combination of balances
	effs := []uint64{0, 1000000000, 31999999999, 32000000000, 32000000001, 2048000000000}
	if !r.thorough() {
		effs = effs[1:]
	}
	for _, x := range effs {
		for _, y := range effs {
			for _, z := range effs {
				if x+y+z == 0 {
					continue // cannot happen: an eligible validator has a balance
				}
				a, b, c := vA.with(func(u *UVal) { u.Eff = x }), vB.with(func(u *UVal) { u.Eff = y }), vE.with(func(u *UVal) { u.Eff = z })
				e2 := &oneStep{tags: tags(t), vals: []*UVal{a, b, c, vC, vD}, points: []Point{{"mainnet", 11649025, 500}, {"mainnet", 11649023, 700}},
					pre: [][]PV{{{U: a, St: stActive}, {U: b, St: stYellow}, {U: c, St: stActive}}, {{U: a, St: stActive}, {U: b, St: stRed}, {U: c, St: stActive}}}, blocks: e.blocks[:len(amtParts)]}
				// a validator with balance 0 alone among the eligible ones is left out too
				if (x+z == 0) || (x+y == 0) || (y+z == 0) {
					e2.pre = e2.pre[:1]
					if x+y+z == 0 || x+z == 0 {
						continue
					}
				}
				e2.run(r)
			}
		}
	}
	r.bound("effective balances (gwei)", effs)
}

func runC03(r *Run) {
	t := "abort status who"
	e := std3(r, t)
	bound1(r, e)
	e.run(r)
	for _, b := range stdBfs(r, t, 5, 7) {
		b.run(r)
	}
	// the two smaller alphabets about one validator, deeper
	b := &bfs{tags: tags(t), net: "mainnet", start: 11649100, fee: 700, vals: []*UVal{vA, vB, vC, vD, vE}, depth: r.pick(6, 8), cap: 300000,
		parts: [][]Part{{}, {pMissed(vA)}, {pVanillaOK(vA, 103)}, {pVanillaWrong(vA)}, {pSub(vA, 1000)}, {pUnsub(vA)}, {pBan(vA.Idx)}, {pUnban(vA.Idx)}}}
	b.run(r)
}

func monotone(pre, post *oracle.OracleState, m0, m1 *MState, b *Blk, w *World) (string, string) {
	if post.PoolAccumulatedFees.Cmp(pre.PoolAccumulatedFees) < 0 {
		return "fees-fell", fmt.Sprintf("operator balance fell from %v to %v", pre.PoolAccumulatedFees, post.PoolAccumulatedFees)
	}
	v := classify(w.Chain, b, true)
	for i, p := range pre.Validators {
		q := post.Validators[i]
		if q == nil {
			return "lost", fmt.Sprintf("validator %d is no longer tracked", i)
		}
		d := sub(q.AccumulatedRewardsWei, p.AccumulatedRewardsWei)
		if d.Sign() < 0 {
			return "claimable-fell", fmt.Sprintf("claimable of %d fell from %v to %v", i, p.AccumulatedRewardsWei, q.AccumulatedRewardsWei)
		}
		proposed := !b.Missed && b.Prop.Idx == i && v.toPool && !b.Prop.bls()
		refund := bi(0)
		for _, s := range b.Subs {
			if s.Idx == i {
				refund = add(refund, s.Coll)
			}
		}
		if d.Sign() > 0 && !proposed && d.Cmp(refund) > 0 {
			return "claimable-rose", fmt.Sprintf("claimable of %d rose by %v without a proposal", i, d)
		}
		if d.Sign() > 0 && !proposed && refund.Sign() == 0 {
			return "claimable-rose", fmt.Sprintf("claimable of %d rose by %v without a proposal", i, d)
		}
		fell := q.PendingRewardsWei.Cmp(p.PendingRewardsWei) < 0
		left := q.ValidatorStatus == oracle.Banned || q.ValidatorStatus == oracle.NotSubscribed
		touched := !b.Missed && !v.toPool && b.Prop.Idx == i // a wrong fee recipient: banned (and perhaps unbanned in the same block)
		for _, x := range b.Unsubs {
			touched = touched || x.Idx == i
		}
		for _, x := range b.Bans {
			touched = touched || x == i
		}
		if fell && !proposed && !left && !touched {
			return "pending-fell", fmt.Sprintf("pending of %d fell from %v to %v", i, p.PendingRewardsWei, q.PendingRewardsWei)
		}
	}
	return "", ""
}

func runC04(r *Run) {
	t := "abort acc pend"
	e := std3(r, t)
	e.check = monotone
	bound1(r, e)
	e.run(r)
	tinyAmounts(r, e)
	for _, b := range stdBfs(r, t, 5, 7) {
		b.check = monotone
		b.run(r)
	}
}

func runC05(r *Run) {
	t := "abort status acc pend pool who wrong"
	bans := [][]uint64{{11}, {22}, {11, 22}, {22, 11}, {11, 11}, {11, 22, 55}, {55, 11, 55}, {77}, {77, 11}, {22, 77, 22, 11}}
	groups := [][]Part{
		{noPart, pVanillaWrong(vA), pMevWrong(vA, 91), pVanillaOK(vA, 1000003), pMevOK(vB, 5000011), pMissed(vA), pVanillaWrong(vB)},
		{noPart, pSub(vA, 1000), pSub(vB, 1000), pSub(vA, 1)},
		{noPart, pUnsub(vA), both(pUnsub(vA), pUnsub(vB)), both(pUnsub(vB), pUnsub(vA), pUnsub(vE)), both(pUnsub(vA), pUnsub(vA)), pUnsubBy(vA)},
		{noPart, pDon(10007)},
		{noPart},
		{noPart},
	}
	for _, b := range bans {
		groups[4] = append(groups[4], pBan(b...))
		groups[5] = append(groups[5], pUnban(b...))
	}
	e := &oneStep{tags: tags(t), vals: []*UVal{vA, vB, vC, vD, vE}, points: []Point{stdPoints[0], stdPoints[2], stdPoints[4]}}
	e.pre = cross(valOptions(vA, midOpts), valOptions(vB, midOpts), valOptions(vE, midOpts))
	e.blocks = product(groups, 2)
	if r.thorough() {
		e.points = stdPoints
		e.pre = cross(valOptions(vA, fullOpts), valOptions(vB, midOpts), valOptions(vE, midOpts))
		e.blocks = product(groups, 3)
	}
	bound1(r, e)
	e.run(r)
	al := [][]Part{{}, {pSub(vA, 1000)}, {pSub(vB, 1003)}, {pVanillaOK(vA, 1001)}, {pVanillaWrong(vA)}, {pMevWrong(vB, 5)}, {pVanillaOK(vB, 77)}, {pDon(10007)}, {pBan(11)}, {pBan(11, 22)}, {pUnban(11)}, {pUnban(22, 11)}, {pUnsub(vA)}, {pBan(22), pUnban(22)}, {pMissed(vA)}}
	for _, b := range stdBfs(r, t, 5, 7) {
		b.parts = al
		b.run(r)
	}
}

var beaconStates = []v1.ValidatorState{v1.ValidatorStateUnknown, v1.ValidatorStatePendingInitialized, v1.ValidatorStatePendingQueued, v1.ValidatorStateActiveOngoing, v1.ValidatorStateActiveExiting, v1.ValidatorStateActiveSlashed,
	v1.ValidatorStateExitedUnslashed, v1.ValidatorStateExitedSlashed, v1.ValidatorStateWithdrawalPossible, v1.ValidatorStateWithdrawalDone}

// credKinds are the kinds of withdrawal credentials, the last ones malformed.
func credKinds(own func() [20]byte) (cs [][32]byte) {
	o := own()
	for _, k := range []byte{1, 2, 0, 3} {
		var c [32]byte
		c[0] = k
		copy(c[12:], o[:])
		cs = append(cs, c)
	}
	c := cs[0]
	c[5] = 1 // non-zero padding
	d := cs[1]
	d[11] = 7
	return append(cs, c, d)
}

func runC06(r *Run) {
	t := "abort status acc pend pool coll addr key type who hist"
	type sender struct {
		n string
		f func(u *UVal) Sub
	}
	// one subscription: beacon state x credentials x sender x collateral x oracle status
	var subs []Part
	colls := []int64{0, 1, 1000*unit - 1, 1000 * unit, 1000*unit + 1, 5000 * unit}
	for _, st := range beaconStates {
		for ci, c := range credKinds(func() [20]byte { return ownerA }) {
			for si, who := range [][20]byte{ownerA, stranger, ownerB} {
				for _, coll := range colls {
					if !r.thorough() && (coll == 5000*unit || (si == 2 && coll != 1000*unit)) {
						continue
					}
					u := vA.with(func(n *UVal) { n.Status, n.Cred = st, c })
					who, coll := who, coll
					subs = append(subs, part(fmt.Sprintf("subscription of 11 (%s, credentials %d) by %x with %d", st, ci, who[:2], coll), func(b *Blk) {
						b.Subs = append(b.Subs, Sub{11, who, bi(coll), u})
					}))
				}
			}
		}
	}
	subs = append(subs, part("subscription of an unknown validator", func(b *Blk) { b.Subs = append(b.Subs, Sub{777, ownerA, un(1000), nil}) }),
		part("subscription with a huge collateral", func(b *Blk) {
			b.Subs = append(b.Subs, Sub{11, ownerA, bs("340282366920938463463374607431768211457"), vA})
		}))
	e := &oneStep{tags: tags(t), vals: []*UVal{vA, vB, vC, vD, vE}, points: []Point{stdPoints[0], stdPoints[2], stdPoints[4]}, pool: 3 * unit}
	e.pre = cross(valOptions(vA, fullOpts), valOptions(vB, []PV{{St: stUntracked}, {St: stActive, Pend: 5}, {St: stBanned, Acc: 8}}))
	for _, s := range subs {
		e.blocks = append(e.blocks, []Part{s})
	}
	bound1(r, e)
	e.run(r)
	// two and three subscriptions in one block, and combined with the rest
	few := []Part{noPart, pSub(vA, 1000), pSub(vA, 999), pSub(vA, 5000), pSubBy(vA, "", 1000), pSub(vB, 1000), pSub(vB, 10), pSub(vC, 1000), part("BLS sub", func(b *Blk) { b.Subs = append(b.Subs, Sub{44, ownerA, un(1000), vD}) }),
		part("sub of an unknown validator", func(b *Blk) { b.Subs = append(b.Subs, Sub{777, ownerA, un(1234), nil}) })}
	rest := []Part{noPart, pUnsub(vA), pBan(11), pUnban(11), pDon(10007), pVanillaOK(vA, 1000003), pVanillaWrong(vA), pMevOK(vA, 77), pVanillaOK(vB, 91)}
	e2 := *e
	e2.blocks = product([][]Part{few, few, few, rest}, r.pick(3, 4))
	e2.pre = cross(valOptions(vA, midOpts), valOptions(vB, []PV{{St: stUntracked}, {St: stActive, Pend: 5}, {St: stBanned, Acc: 8}}))
	if r.thorough() {
		e2.points = stdPoints
	}
	r.bound("several subscriptions in a block", len(e2.blocks))
	e2.run(r)
	al := [][]Part{{}, {pSub(vA, 1000)}, {pSub(vA, 1)}, {pSub(vB, 1003)}, {pSub(vA, 1000), pSub(vA, 2000)}, {pVanillaOK(vA, 1001)}, {pVanillaWrong(vA)}, {pBan(11)}, {pUnban(11)}, {pUnsub(vA)}, {pUnsub(vA), pSub(vA, 3000)}, {pDon(10007)}, {pVanillaOK(vB, 701), pSub(vB, 2000)}, {pSub(vC, 1000)}}
	for _, b := range stdBfs(r, t, 5, 7) {
		b.parts = al
		b.run(r)
	}
}

func runC07(r *Run) {
	t := "abort status acc pend pool who coll addr type"
	var un []Part
	for _, st := range beaconStates {
		for ci, c := range credKinds(func() [20]byte { return ownerA }) {
			for _, who := range [][20]byte{ownerA, stranger, ownerB, feesAddr, poolAddr} {
				u := vA.with(func(n *UVal) { n.Status, n.Cred = st, c })
				who := who
				un = append(un, part(fmt.Sprintf("unsubscription of 11 (%s, credentials %d) by %x", st, ci, who[:2]), func(b *Blk) {
					b.Unsubs = append(b.Unsubs, Unsub{11, who, u})
				}))
			}
		}
	}
	un = append(un, part("unsubscription of an unknown validator", func(b *Blk) { b.Unsubs = append(b.Unsubs, Unsub{777, ownerA, nil}) }))
	e := &oneStep{tags: tags(t), vals: []*UVal{vA, vB, vC, vD, vE}, points: []Point{stdPoints[0], stdPoints[2], stdPoints[4]}, pool: 3 * unit}
	e.pre = cross(valOptions(vA, fullOpts), valOptions(vB, midOpts))
	for _, s := range un {
		e.blocks = append(e.blocks, []Part{s})
	}
	bound1(r, e)
	e.run(r)
	// what counts is the address on the chain, however and whatever the oracle recorded
	e1 := *e
	e1.pre = nil
	for _, as := range []string{"0x" + strings.ToUpper(ownerA.Hex()[2:]), ownerA.Hex(), strings.ToLower(ownerB.Hex()), strings.ToLower(stranger.Hex())} {
		for _, p := range valOptions(vA, midOpts[1:]) {
			p.As = as
			e1.pre = append(e1.pre, []PV{p, {U: vB, St: stActive, Acc: 3, Pend: 17}})
		}
	}
	r.bound("addresses recorded otherwise: start states", len(e1.pre))
	e1.run(r)
	few := []Part{noPart, pUnsub(vA), pUnsubBy(vA), pUnsub(vB), pUnsub(vC), pUnsub(vE), part("unsub of an unknown validator", func(b *Blk) { b.Unsubs = append(b.Unsubs, Unsub{777, ownerA, nil}) }),
		part("unsub of 22 by the owner of 11", func(b *Blk) { b.Unsubs = append(b.Unsubs, Unsub{22, ownerA, vB}) }), part("BLS unsub", func(b *Blk) { b.Unsubs = append(b.Unsubs, Unsub{44, ownerA, vD}) })}
	rest := []Part{noPart, pSub(vA, 1000), pSub(vB, 1000), both(pSub(vA, 1000), pSub(vC, 1007)), pBan(11), pUnban(11), pDon(10007), pVanillaOK(vA, 1000003), pVanillaWrong(vA), pMissed(vA), pMevOK(vB, 91)}
	e2 := *e
	e2.blocks = product([][]Part{few, few, few, rest, rest[:4]}, 3)
	e2.pre = cross(valOptions(vA, midOpts), valOptions(vB, midOpts), valOptions(vC, smallOpts[:3]))
	if !r.thorough() {
		e2.points = e2.points[1:]
		e2.blocks = product([][]Part{few, few, rest}, 3)
	} else {
		e2.points = stdPoints
	}
	r.bound("several unsubscriptions in a block", len(e2.blocks))
	e2.run(r)
	al := [][]Part{{}, {pSub(vA, 1000)}, {pSub(vB, 1003)}, {pUnsub(vA)}, {pUnsubBy(vA)}, {pUnsub(vB)}, {pUnsub(vA), pUnsub(vB)}, {pSub(vA, 1000), pUnsub(vA)}, {pVanillaOK(vA, 1001)}, {pVanillaOK(vA, 1001), pUnsub(vA)}, {pMissed(vA)}, {pBan(11)}, {pUnban(11)}, {pDon(10007)}}
	for _, b := range stdBfs(r, t, 5, 7) {
		b.parts = al
		b.run(r)
	}
}

func runC08(r *Run) {
	t := "abort status acc pend pool who addr key coll err slot"
	chainSt := []v1.ValidatorState{v1.ValidatorStateActiveOngoing, v1.ValidatorStateActiveExiting, v1.ValidatorStateActiveSlashed, v1.ValidatorStateExitedUnslashed, v1.ValidatorStateExitedSlashed, v1.ValidatorStateWithdrawalPossible, v1.ValidatorStateWithdrawalDone}
	few := []v1.ValidatorState{v1.ValidatorStateActiveOngoing, v1.ValidatorStateExitedUnslashed, v1.ValidatorStateWithdrawalDone}
	opts := []PV{{St: stUntracked}, {St: stActive, Acc: 11, Pend: 1007}, {St: stActive}, {St: stYellow, Pend: 503}, {St: stRed, Acc: 5, Pend: 301}, {St: stNotSub, Acc: 9}, {St: stNotSub, Pend: 41}, {St: stBanned, Acc: 4}}
	pts := []Point{{"mainnet", 10188000, 700}, {"mainnet", 10189200, 700}, {"mainnet", 11649600, 733}, {"mainnet", 11649601, 733}, {"hoodi", 66000, 1000}, {"hoodi", 1200, 1000}, {"mainnet", 10188600, 700}}
	blocks := [][]Part{{}, {pDon(10007)}, {pBan(11), pUnsub(vB)}}
	if r.thorough() {
		blocks = append(blocks, []Part{pVanillaOK(vA, 1000003)}, []Part{pMissed(vA)}, []Part{pSub(vA, 1000)}, []Part{pVanillaWrong(vB)})
	}
	n := 0
	one := func(sa, sb, se v1.ValidatorState, cons [][2]uint64, points []Point, bl [][]Part, pre func(a, b, e *UVal) [][]PV) {
		a, b, e := vA.with(func(u *UVal) { u.Status = sa }), vB.with(func(u *UVal) { u.Status = sb }), vE.with(func(u *UVal) { u.Status = se })
		x := &oneStep{tags: tags(t), vals: []*UVal{a, b, e, vC, vD}, points: points, blocks: bl, pool: 5 * unit, world: func(w *World) { w.Cons = cons }}
		x.pre = pre(a, b, e)
		x.run(r)
		n++
	}
	// every status on chain for two validators, no consolidation
	for _, sa := range chainSt {
		for _, sb := range few {
			one(sa, sb, v1.ValidatorStateActiveOngoing, nil, pts, blocks, func(a, b, e *UVal) [][]PV {
				return cross(valOptions(a, opts), valOptions(b, opts), valOptions(e, []PV{{St: stActive, Pend: 1}, {St: stUntracked}, {St: stRed, Pend: 6}}))
			})
		}
	}
	// consolidations: every set of up to two among the tracked and one never seen validator (33)
	ids := []uint64{11, 22, 55, 33}
	var consSets [][][2]uint64
	for _, s := range []uint64{11, 22, 55} {
		for _, d := range ids {
			if s == d {
				continue
			}
			consSets = append(consSets, [][2]uint64{{s, d}})
			for _, s2 := range []uint64{11, 22, 55} {
				for _, d2 := range ids {
					if s2 > s && s2 != d2 {
						consSets = append(consSets, [][2]uint64{{s, d}, {s2, d2}})
					}
				}
			}
		}
	}
	st2 := few[:2]
	cpts := []Point{{"mainnet", 11649600, 733}, {"mainnet", 10189200, 700}}
	if r.thorough() {
		cpts = append(cpts, Point{"hoodi", 66000, 1000}, Point{"mainnet", 11649601, 733})
	}
	co := []PV{{St: stUntracked}, {St: stActive, Acc: 11, Pend: 1007}, {St: stRed}, {St: stNotSub, Pend: 41}, {St: stBanned, Acc: 4}}
	if r.thorough() {
		co = opts
	}
	for _, cs := range consSets {
		for _, sa := range st2 {
			for _, sb := range st2 {
				for _, se := range st2 {
					one(sa, sb, se, cs, cpts, blocks[:r.pick(1, 2)], func(a, b, e *UVal) [][]PV {
						return cross(valOptions(a, co), valOptions(b, co), valOptions(e, co))
					})
				}
			}
		}
	}
	r.bound("chain situations (statuses x consolidations)", n)
	r.bound("consolidation sets", len(consSets))
	r.bound("slots", fmt.Sprint(pts))
	// histories across a cleanup
	for _, b := range stdBfs(r, t, 3, 4) {
		if b.net != "hoodi" {
			continue
		}
		b.start = 70798
		b.vals = []*UVal{vA.with(func(u *UVal) { u.Status = v1.ValidatorStateExitedUnslashed }), vB, vC, vD, vE}
		b.world = func(w *World) { w.Cons = [][2]uint64{{11, 33}} }
		b.run(r)
	}
}

func runC19(r *Run) {
	t := "abort acc pend pool don hist prop status"
	am := []int64{0, 5, 1000003}
	mev := func(u *UVal, a int64) []Part {
		return []Part{pMevOK(u, a), pMevViaProxy(u, a), pMevWrong(u, a), part(fmt.Sprintf("%d proposes, whitelisted builder pays %d to pool", u.Idx, a), func(b *Blk) {
			b.Prop, b.FeeRec = u, otherRec
			b.Txs = append(b.Txs, Tx{From: kWhite, To: pa(poolAddr), Value: un(a), Type: 0, GasPrice: bi(9), GasUsed: 21000})
			b.Ether = append(b.Ether, Ether{txAddr[kWhite], un(a), poolAddr})
		}), part(fmt.Sprintf("%d proposes, the fee recipient pays %d to the pool but not last", u.Idx, a), func(b *Blk) {
			b.Prop, b.FeeRec = u, txAddr[kBuilder]
			b.Txs = append(b.Txs, Tx{From: kBuilder, To: pa(poolAddr), Value: un(a), Type: 2, Tip: bi(1), Cap: bi(100), GasUsed: 21000}, Tx{From: kUser, To: pa(otherRec), Value: un(a), Type: 2, Tip: bi(1), Cap: bi(100), GasUsed: 21000})
			b.Ether = append(b.Ether, Ether{txAddr[kBuilder], un(a), poolAddr})
		})}
	}
	var props []Part
	props = append(props, noPart, pMissed(vA), pVanillaOK(vA, 1000003), pVanillaWrong(vA))
	for _, u := range []*UVal{vA, vE, vD} {
		for _, a := range am[1:] {
			props = append(props, mev(u, a)...)
		}
	}
	props = append(props, mev(vA, 0)...)
	var dons []Part
	dons = append(dons, noPart)
	for _, a := range am {
		dons = append(dons, pDon(a))
	}
	before := part("", nil)
	_ = before
	// donations before the MEV payment in event order
	front := []Part{noPart}
	for _, a := range am {
		a := a
		front = append(front, part(fmt.Sprintf("earlier donation %d", a), func(b *Blk) { b.Ether = append([]Ether{{stranger, un(a), poolAddr}}, b.Ether...) }))
	}
	e := &oneStep{tags: tags(t), vals: []*UVal{vA, vB, vC, vD, vE}, points: []Point{stdPoints[0], stdPoints[2], stdPoints[4]}, pool: 3 * unit}
	e.pre = cross(valOptions(vA, midOpts), valOptions(vB, []PV{{St: stUntracked}, {St: stActive, Pend: 5}, {St: stYellow}}))
	e.blocks = product([][]Part{props, dons, dons, front}, r.pick(3, 4))
	if r.thorough() {
		e.points = stdPoints
	}
	bound1(r, e)
	e.run(r)
	al := [][]Part{{}, {pSub(vA, 1000)}, {pMevOK(vA, 5)}, {pMevOK(vA, 5), pDon(5)}, {pMevWrong(vA, 5), pDon(5)}, {pDon(5), pDon(5)}, {pVanillaOK(vA, 5), pDon(5)}, {pMevOK(vD, 5), pDon(5), pDon(5)}, {pMevViaProxy(vB, 7), pDon(5)}}
	for _, b := range stdBfs(r, t, 5, 7) {
		b.parts = al
		b.run(r)
	}
}
