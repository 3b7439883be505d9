package main

import (
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/rs/zerolog"
)

// c28Onchain reconciles the way the daemon does, with an execution node whose pool balance and claims differ in
// every block: only what is true at the reconciled block counts, and a fault never passes for an answer.
func c28Onchain(r *Run) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	node := newFakeNode(oracle.MainnetChainId)
	for _, v := range []*UVal{vA, vB, vC} {
		node.Vals[v.Idx] = v
	}
	node.start()
	defer node.stop()
	on := newOnchainFor(node)
	out := map[string]int64{}
	vF := *vB
	vF.Cred = cred(1, feesAddr)
	opts := []PV{{St: stUntracked}, {St: stActive, Acc: 110, Pend: 1007}, {St: stNotSub, Acc: 90}, {St: stBanned, Acc: 40}}
	var pres [][]PV
	for _, b := range []*UVal{vB, &vF} {
		pres = append(pres, cross(valOptions(vA, opts), valOptions(b, opts), valOptions(vC, opts))...)
	}
	const N = 5000
	type shape struct {
		name     string
		from, to uint64 // the claims happen in these blocks
		extra    int64  // wei missing in the balance at the block
	}
	shapes := []shape{{"no claims", 1, 0, 0}, {"claims before", N - 9, N - 1, 0}, {"claims up to the block", N - 1, N, 0}, {"claims later only", N + 1, N + 5, 0},
		{"claims before and later", N - 2, N + 7, 0}, {"one wei is missing", N - 2, N + 7, 1}, {"one wei too much", N, N + 1, -1}}
	for pi, pre := range pres {
		cfg := mkCfg("mainnet", 100, 700)
		o, _ := inject(cfg, 11649700, pre, 60)
		owed, _ := liabilities(realState(o))
		for si, sh := range shapes {
			for _, addr := range []common.Address{ownerA, ownerB, feesAddr} {
				if r.stop() || r.expired() {
					return
				}
				known := addr == feesAddr
				for _, v := range realState(o).Validators {
					known = known || strings.EqualFold(v.WithdrawalAddress, addr.Hex())
				}
				if !known {
					continue
				}
				claimed := func(a common.Address, n uint64) *big.Int {
					if a != addr || n < sh.from || sh.to < sh.from {
						return bi(0)
					}
					return new(big.Int).SetUint64(min(n, sh.to) - sh.from + 1)
				}
				balance := func(n uint64) *big.Int {
					x := sub(sub(owed, claimed(addr, n)), bi(sh.extra))
					if n > N {
						x = add(x, bi(int64(n-N)*1000)) // income of later blocks
					}
					if n < N {
						x = sub(x, bi(7))
					}
					return x
				}
				node.mu.Lock()
				node.ClaimedAt, node.BalanceAt, node.HeadNumber = claimed, balance, N+50
				node.mu.Unlock()
				do := func(hook func(FReq) string) (how string, fetch error, rec error, log []FReq) {
					node.mu.Lock()
					node.Seq, node.Log, node.Hook, node.KeepLog = 0, nil, hook, true
					node.mu.Unlock()
					how = firstLine(guard(func() {
						at := retry.Attempts(1)
						bal, err1 := on.GetPoolEthBalance(new(big.Int).SetUint64(N), at)
						cl, err2 := on.GetClaimedPerWithdrawalAddress(o.GetUniqueWithdrawalAddresses(), new(big.Int).SetUint64(N), at)
						if err1 != nil || err2 != nil {
							fetch = fmt.Errorf("%v %v", err1, err2)
							return
						}
						rec = o.RunOnchainReconciliation(bal, cl)
					}))
					node.mu.Lock()
					log, node.Hook = node.Log, nil
					node.mu.Unlock()
					r.Evals.Add(1)
					r.Transitions.Add(int64(len(log)))
					return
				}
				say := func(fault, msg string, log []FReq) {
					r.violate("on-chain values", fmt.Sprintf("C28: reconciling block %d with %v, %s by %s%s: %s", N, pre, sh.name, addr, fault, msg), map[string]any{"requests": fmt.Sprint(log)})
				}
				how, fe, rec, log := do(nil)
				switch {
				case how != "" || fe != nil:
					say("", fmt.Sprintf("the values cannot be had: %s %v", how, fe), log)
				case (rec != nil) != (sh.extra != 0):
					say("", fmt.Sprintf("error %v", rec), log)
				}
				out[fmt.Sprintf("on-chain with the nodes, %s: fails=%v", sh.name, rec != nil)]++
				if si != 4 || pi%5 != 0 && !r.thorough() {
					continue
				}
				for i, q := range log {
					for _, f := range faultsFor(q) {
						if q.Kind == "eth_getBalance" && (f == "rpc-str" || f == "rpc-null") { // the client library reads these as zero
							continue
						}
						for _, sticky := range []bool{false, true} {
							how, fe, rec, l := do(func(p FReq) string {
								if p.Seq == i || sticky && p.Seq > i && p.Kind == q.Kind {
									return f
								}
								return ""
							})
							if how == "" && fe == nil && rec != nil {
								say(fmt.Sprintf(", %s at %s", f, q), fmt.Sprintf("the answer is taken for a difference: %v", rec), l)
							}
							if how != "" {
								say(fmt.Sprintf(", %s at %s", f, q), "ends in "+how, l)
							}
							out[fmt.Sprintf("fault at %s: values=%v", q.Kind, fe == nil)]++
						}
					}
				}
			}
		}
		r.States.Add(1)
	}
	r.addOutcomes(out)
	r.bound("with the nodes", fmt.Sprintf("%d states, %d histories of claims around the reconciled block by each of three addresses (the fee address also as a withdrawal address); every fault of every request", len(pres), len(shapes)))
}

// c28Daemon runs the daemon itself with books that do not balance: it must end, and must not report any more.
func c28Daemon(r *Run) {
	setupDaemonCast()
	long, short, late := longScen(), shortScen(), lateScen()
	for _, s := range []*dScen{long, short, late} {
		if err := s.prepare(); err != nil {
			r.violate("reference", fmt.Sprintf("C28: an oracle that processes scenario %s slot by slot does not get through: %v", s.name, err), nil)
			return
		}
	}
	pool := &bedPool{free: map[*dScen][]*dbed{}}
	defer pool.close()
	type job struct {
		s          *dScen
		what       string
		last, fin  uint64
		dry        bool
		fold       folder
		balance    int64          // wei the pool has too much
		claimer    common.Address // claimed one wei more
		exits, tx0 bool           // what has to happen: it ends; no report before it
	}
	var jobs []job
	for _, s := range []*dScen{long, short, late} {
		for fin := s.d + 1; fin <= s.end; fin++ {
			for _, dry := range []bool{false, true} {
				for _, d := range []int64{0, -1, 1, 1000, -1000} {
					if x := s.bal[s.lastBlock(fin)]; x == nil || d < 0 && add(sub(x, add(s.claimed(feesAddr, fin-900), s.claimed(s.claimer, fin-900))), bi(d)).Sign() < 0 {
						continue // no pool has less than nothing
					}
					jobs = append(jobs, job{s: s, what: fmt.Sprintf("the pool has %+d wei", d), last: s.end, fin: fin, dry: dry, balance: d, exits: d != 0})
				}
				jobs = append(jobs, job{s: s, what: "the operator claimed one wei more", last: s.end, fin: fin, dry: dry, claimer: feesAddr, exits: true})
				if from, ok := s.claims[s.claimer]; ok && fin-900 >= from {
					jobs = append(jobs, job{s: s, what: "an owner claimed one wei more", last: s.end, fin: fin, dry: dry, claimer: s.claimer, exits: true})
				}
			}
		}
		// a saved state whose books do not balance, before the next checkpoint
		f := newFakeNode(s.chain)
		s.fill(f)
		f.start()
		cli := &config.CliConfig{ConsensusEndpoint: f.URL, ExecutionEndpoint: f.URL, PoolAddress: strings.ToLower(poolAddr.Hex()), NumRetries: 1, DryRun: true}
		on := newOnchainFor(f)
		for i, c := range s.cps {
			if i == len(s.cps)-1 && c+s.size > s.end {
				continue
			}
			edit := func(name string, fn func(st *oracle.OracleState) bool) {
				var cfg *oracle.Config
				if how := guard(func() { cfg = on.GetConfigFromContract(cli) }); how != "" {
					return
				}
				o := oracle.NewOracle(cfg)
				if ok, err := o.LoadFromBytes([]byte(s.saved[c])); !ok || err != nil {
					return
				}
				if !fn(realState(o)) {
					return
				}
				sb, err := savedBytes(o)
				if err != nil {
					return
				}
				jobs = append(jobs, job{s: s, what: fmt.Sprintf("loaded state of slot D%+d with %s", c-s.d, name), last: c, fin: s.end, fold: folder{"state.json": string(sb), fmt.Sprintf("state_%d.json", c): string(sb)}, exits: name != "nothing changed", tx0: name != "nothing changed"})
			}
			edit("nothing changed", func(*oracle.OracleState) bool { return true })
			for _, d := range []int64{-1, 1} {
				edit(fmt.Sprintf("operator fees %+d", d), func(st *oracle.OracleState) bool {
					st.PoolAccumulatedFees = add(st.PoolAccumulatedFees, bi(d))
					return true
				})
				for _, v := range []*UVal{vA, vB, vC} {
					edit(fmt.Sprintf("pending of %d %+d", v.Idx, d), func(st *oracle.OracleState) bool {
						x := st.Validators[v.Idx]
						if x == nil || x.PendingRewardsWei.Sign()+int(d) < 0 || x.PendingRewardsWei.Sign() == 0 {
							return false
						}
						x.PendingRewardsWei = add(x.PendingRewardsWei, bi(d))
						return true
					})
					edit(fmt.Sprintf("claimable of %d %+d", v.Idx, d), func(st *oracle.OracleState) bool {
						x := st.Validators[v.Idx]
						if x == nil || x.AccumulatedRewardsWei.Sign() == 0 {
							return false
						}
						x.AccumulatedRewardsWei = add(x.AccumulatedRewardsWei, bi(d))
						return true
					})
				}
			}
		}
		f.stop()
	}
	out := map[string]int64{}
	var mu sync.Mutex
	parallel(len(jobs), func(_, ji int) {
		if r.stop() || r.expired() {
			return
		}
		j := jobs[ji]
		b := pool.get(j.s)
		defer pool.put(b)
		s, f := j.s, b.f
		f.mu.Lock()
		f.QuorumN, f.LastSlot, f.Root, f.Finalized = 1, j.last, common.Hash{9}, j.fin
		f.Voted, f.Reports, f.nonce = map[common.Address]common.Hash{}, map[common.Hash]*Report{}, map[common.Address]uint64{}
		f.ELSyncing, f.SyncDistance, f.Hook = false, 0, nil
		bal, cl := f.BalanceAt, f.ClaimedAt
		f.BalanceAt = func(n uint64) *big.Int { return add(bal(n), bi(j.balance)) }
		f.ClaimedAt = func(a common.Address, n uint64) *big.Int {
			x := cl(a, n)
			if a == j.claimer {
				x = add(x, bi(1))
			}
			return x
		}
		txs := 0
		f.OnTx = func(*SentTx, *common.Address, *big.Int) { txs++ }
		fold := j.fold
		if fold == nil {
			fold = folder{}
		}
		p := &pstate{chain: f.saveChain(), fold: fold}
		f.mu.Unlock()
		res := b.start(p, &dplan{dryRun: j.dry, at: func(int, *devent) action { return goOn }, idle: func() bool { return false }})
		f.mu.Lock()
		f.BalanceAt, f.ClaimedAt, f.OnTx = bal, cl, nil
		f.mu.Unlock()
		r.Evals.Add(1)
		r.States.Add(1)
		r.Transitions.Add(int64(res.events))
		say := func(msg string) {
			tr := tail(strings.Join(res.trace, "\n"), 200)
			r.violate("daemon", fmt.Sprintf("C28: scenario %s, finalized D%+d, dry-run %v, %s: %s", s.name, j.fin-s.d, j.dry, j.what, msg), dreport{Base: j.what, Trace: tr, Log: tail(res.log, 40)})
		}
		switch {
		case res.err != "":
			say("the daemon hangs: " + res.err)
		case strings.Contains(res.log, "panic:") || strings.Contains(res.log, "fatal error:"):
			say("the daemon panics: " + panicLine(res.log))
		case j.exits && res.exit == "":
			say("the daemon goes on")
		case !j.exits && res.exit != "":
			say("the daemon ends: " + strings.Join(tail(res.log, 1), ""))
		case j.exits && res.exit == "exit status 0":
			say("the daemon ends as if all was well")
		case j.tx0 && txs > 0:
			say(fmt.Sprintf("%d reports are sent", txs))
		}
		mu.Lock()
		out[fmt.Sprintf("daemon, %s: ends=%v", strings.Split(j.what, " of slot")[0], res.exit != "")]++
		mu.Unlock()
	})
	r.addOutcomes(out)
	r.bound("daemon", fmt.Sprintf("%d lives of the daemon: 3 scenarios x every finalized slot x dry-run or not x balances and claims off by one wei or more, and every saved checkpoint with one component off by one wei", len(jobs)))
}

// lastBlock is the last block up to a slot.
func (s *dScen) lastBlock(slot uint64) uint64 {
	best := uint64(0)
	for n := range s.bal {
		if n <= slot-900 && n > best {
			best = n
		}
	}
	return best
}
