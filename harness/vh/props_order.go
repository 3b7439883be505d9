package main

import (
	"fmt"
	"sync"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/dappnode/mev-sp-oracle/zz_verif/vshim"
)

func init() { register("C11", "model_checking", runC11) }

// permutations of 0..n-1, all of them up to n=4, otherwise every transposition, rotation and the reversal.
var permMemo sync.Map

func perms(n int) [][]int {
	if x, ok := permMemo.Load(n); ok {
		return x.([][]int)
	}
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	var out [][]int
	if n <= 4 {
		var rec func(p []int, k int)
		rec = func(p []int, k int) {
			if k == n {
				out = append(out, append([]int{}, p...))
				return
			}
			for i := k; i < n; i++ {
				p[k], p[i] = p[i], p[k]
				rec(p, k+1)
				p[k], p[i] = p[i], p[k]
			}
		}
		rec(append([]int{}, id...), 0)
		out = out[1:] // not the identity
	} else {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				p := append([]int{}, id...)
				p[i], p[j] = p[j], p[i]
				out = append(out, p)
			}
		}
		for k := 1; k < n; k++ {
			p := make([]int, n)
			for i := range p {
				p[i] = (i + k) % n
			}
			out = append(out, p)
		}
		p := make([]int, n)
		for i := range p {
			p[i] = n - 1 - i
		}
		out = append(out, p)
	}
	permMemo.Store(n, out)
	return out
}

// runC11 processes every block of an alphabet in every state of a grid, on the real code rebuilt with
// controlled map iteration, under every iteration order within a bound on deviating loops.
func runC11(r *Run) {
	exited := v1.ValidatorStateExitedUnslashed
	opts := []PV{{St: stActive, Acc: 11, Pend: 1007}, {St: stRed, Pend: 301}, {St: stNotSub, Acc: 9}, {St: stYellow}}
	few := []PV{{St: stActive, Pend: 77}, {St: stUntracked}}
	if r.thorough() {
		opts = append(opts, PV{St: stBanned, Acc: 4}, PV{St: stActive})
		few = append(few, PV{St: stRed, Pend: 6})
	}
	blocks := [][]Part{{}, {pDon(10007)}, {pVanillaOK(vA, 1001), pDon(7)}, {pMevOK(vB, 50), pSub(vC, 1000)}, {pVanillaWrong(vA)}, {pMissed(vB)}, {pBan(11, 22), pDon(5)}, {pBan(55), pUnban(11)},
		{pUnsub(vA), pUnsub(vB)}, {pSub(vC, 1000), pSub(vE, 1000), pUnsub(vA)}, {pVanillaOK(vD, 99)}}
	type scen struct {
		net  string
		slot uint64
		fee  int
		bl   []Part
		pre  []PV
		vals []*UVal
		cons [][2]uint64
	}
	var sc []scen
	grid := func(a, b, e *UVal, ea []PV) [][]PV {
		return cross(valOptions(a, opts), valOptions(b, opts), valOptions(e, ea), valOptions(vC, few[:1]))
	}
	for _, p := range []Point{{"mainnet", 10188218, 700}, {"mainnet", 11649023, 700}, {"mainnet", 11649100, 733}} {
		for _, bl := range blocks {
			for _, pre := range grid(vA, vB, vE, few) {
				sc = append(sc, scen{p.Net, p.Slot, p.Fee, bl, pre, []*UVal{vA, vB, vC, vD, vE}, nil})
			}
		}
	}
	// cleanups, with every set of at most two consolidations
	ids := []uint64{11, 22, 55, 66}
	target := mkVal(66, 1, ownerB)
	var cons [][][2]uint64
	cons = append(cons, nil)
	for _, s := range []uint64{11, 22, 55} {
		for _, d := range ids {
			if s == d {
				continue
			}
			cons = append(cons, [][2]uint64{{s, d}})
			for _, s2 := range []uint64{22, 55} {
				for _, d2 := range ids {
					if s2 > s && s2 != d2 {
						cons = append(cons, [][2]uint64{{s, d}, {s2, d2}})
					}
				}
			}
		}
	}
	for _, net := range []Point{{"mainnet", 11649600, 733}, {"mainnet", 10189200, 700}} {
		for _, c := range cons {
			if c != nil && net.Slot != 11649600 {
				continue
			}
			for m := 1; m < 8; m++ {
				ex := func(u *UVal, on int) *UVal {
					if on == 0 {
						return u
					}
					return u.with(func(n *UVal) { n.Status = exited })
				}
				a, b, e := ex(vA, m&1), ex(vB, m&2), ex(vE, m&4)
				for _, bl := range [][]Part{{}, {pBan(11), pDon(3)}} {
					if len(bl) > 0 && len(c) == 2 && !r.thorough() {
						continue
					}
					for _, pre := range grid(a, b, e, few) {
						sc = append(sc, scen{net.Net, net.Slot, net.Fee, bl, pre, []*UVal{a, b, vC, vD, e, target}, c})
					}
				}
			}
		}
	}
	r.bound("scenarios (state, block, chain)", len(sc))
	dev := 1
	r.bound("orders", "for every loop executed, every permutation of its elements while the others are ascending; every permutation applied to all loops at once; thorough: also two deviating loops (reversal or rotation)")
	var maxLoops, runs int64
	var mu sync.Mutex
	parallel(len(sc), func(_, i int) {
		if r.stop() || r.expired() {
			return
		}
		s := sc[i]
		cfg := mkCfg(s.net, 100, s.fee)
		w := mkWorld(s.net, cfg, s.vals...)
		w.Cons = s.cons
		base, _ := inject(cfg, s.slot, s.pre, 5)
		blk := mkBlock(s.slot, s.bl)
		exec := func(order func(loop, n int) []int, long bool) (string, []int) {
			n := deepClone(base)
			w.attach(n, s.slot)
			c := &vshim.Chooser{Order: order}
			res := ""
			vshim.With(c, func() {
				how := guard(func() {
					slot, err := n.AdvanceStateToNextSlot(blk.full(w.Chain))
					fr := n.FreezeCheckpoint()
					h, err2 := n.StateWithHash()
					res = fmt.Sprint(slot, err != nil, fr, err2 != nil)
					if err2 == nil {
						res += h.StateHash
					}
				})
				res += firstLine(how)
			})
			if long {
				res += fullKey(n)
			}
			return res + fmt.Sprintf("%x", stateKey(n, nil)), c.Sizes
		}
		r.States.Add(1)
		want, sizes := exec(nil, false)
		cnt := int64(1)
		try := func(what string, order func(loop, n int) []int) []int {
			got, sz := exec(order, false)
			cnt++
			if got != want {
				want, _ := exec(nil, true)
				got, _ := exec(order, true)
				r.violate("order", fmt.Sprintf("C11: at %s slot %d, validators %v, block {%s}, consolidations %v: with %s the result is another one: %s", s.net, s.slot, s.pre, blk, s.cons, what, firstDiff(want, got)),
					map[string]any{"ascending": want, "other": got})
			}
			return sz
		}
		mx := 0
		for _, n := range sizes {
			if n > mx {
				mx = n
			}
		}
		// every permutation everywhere
		for n := 2; n <= mx; n++ {
			for _, p := range perms(n) {
				p := p
				try(fmt.Sprintf("order %v in every loop over %d", p, len(p)), func(_, n int) []int {
					if n == len(p) {
						return p
					}
					return nil
				})
			}
		}
		for l, n := range sizes {
			for _, p := range perms(n) {
				l, p := l, p
				sz := try(fmt.Sprintf("order %v in loop %d", p, l), func(loop, n int) []int {
					if loop == l && n == len(p) {
						return p
					}
					return nil
				})
				if dev > 0 && r.thorough() && i%16 == 0 && p[0] == n-1 {
					for l2 := l + 1; l2 < len(sz); l2++ {
						q := perms(sz[l2])
						for _, p2 := range [][]int{q[0], q[len(q)-1]} {
							l2, p2 := l2, p2
							try(fmt.Sprintf("orders %v and %v in loops %d and %d", p, p2, l, l2), func(loop, n int) []int {
								if loop == l && n == len(p) {
									return p
								}
								if loop == l2 && n == len(p2) {
									return p2
								}
								return nil
							})
						}
					}
				}
			}
		}
		r.Transitions.Add(cnt)
		r.Evals.Add(cnt)
		r.outcome(fmt.Sprintf("%d loops", len(sizes)))
		mu.Lock()
		runs += cnt
		if int64(len(sizes)) > maxLoops {
			maxLoops = int64(len(sizes))
		}
		mu.Unlock()
	})
	r.put("most loops over maps in one execution", maxLoops)
	r.sample("11 and 22 exited with consolidations 11->22, 22->66 at slot 11649600: every order of every loop gives the same balances, root and proofs")
	_ = oracle.DefaultRoot
}
