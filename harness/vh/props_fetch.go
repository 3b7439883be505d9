package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/http"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/rs/zerolog"
)

func init() { registerSharded("C20", "fault_enumeration", runC20) }

// dumpVal writes a value in full, with nil and empty lists written alike.
func dumpVal(x any) string {
	var sb strings.Builder
	dumpInto(&sb, reflect.ValueOf(x), 0)
	return sb.String()
}

var bigIntType = reflect.TypeOf(big.Int{})

func dumpInto(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 40 {
		sb.WriteString("...")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Type().Elem() == bigIntType && v.CanInterface() {
			sb.WriteString(v.Interface().(*big.Int).String())
			return
		}
		dumpInto(sb, v.Elem(), depth+1)
	case reflect.Interface:
		dumpInto(sb, v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == bigIntType && v.CanAddr() && v.Addr().CanInterface() {
			sb.WriteString(v.Addr().Interface().(*big.Int).String())
			return
		}
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if k := f.Kind(); k == reflect.Func || k == reflect.Chan || k == reflect.UnsafePointer {
				continue
			}
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteString(":")
			dumpInto(sb, f, depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			n := v.Len()
			for i := 0; i < n; i++ {
				fmt.Fprintf(sb, "%02x", v.Index(i).Uint())
			}
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpInto(sb, v.Index(i), depth+1)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var one strings.Builder
			dumpInto(&one, k, depth+1)
			one.WriteString("=")
			dumpInto(&one, v.MapIndex(k), depth+1)
			ks = append(ks, one.String())
		}
		sort.Strings(ks)
		sb.WriteString("map[" + strings.Join(ks, ",") + "]")
	case reflect.Func, reflect.Chan:
	default:
		fmt.Fprintf(sb, "%v", exposed(v))
	}
}

// fetchScen is one slot to be fetched.
type fetchScen struct {
	parts []Part
	fork  spec.DataVersion
	ssz   bool
	pre   []PV
	has4  bool // the number of the slot contains 404
}

func (s fetchScen) String() string {
	w := "JSON"
	if s.ssz {
		w = "SSZ"
	}
	n := ""
	if s.has4 {
		n = ", slot number contains 404"
	}
	return fmt.Sprintf("%s (%s, %s%s), oracle: %v", partsName(s.parts), s.fork, w, n, s.pre)
}

type fetcher struct {
	r     *Run
	node  *FakeNode
	on    *oracle.Onchain
	cfg   *oracle.Config
	epoch uint64
}

func newOnchainFor(f *FakeNode) *oracle.Onchain {
	on, err := oracle.NewOnchain(&config.CliConfig{ConsensusEndpoint: f.URL, ExecutionEndpoint: f.URL, PoolAddress: strings.ToLower(poolAddr.Hex()), NumRetries: 3}, nil)
	if err != nil {
		panic(err)
	}
	return on
}

// nextSlot is a slot of an epoch not used yet (the fetcher caches duties by epoch).
func (x *fetcher) nextSlot(has4 bool) uint64 {
	for {
		x.epoch++
		for off := uint64(3); off < 31; off++ {
			s := x.epoch*32 + off
			if strings.Contains(fmt.Sprint(s), "404") == has4 && (!has4 || true) {
				return s
			}
		}
	}
}

type fetchRes struct {
	how  string
	dump string
	log  []FReq
	slot uint64
}

// run fetches the slot of the scenario under a fault plan and says what is wrong with the result.
func (x *fetcher) run(on *oracle.Onchain, s fetchScen, slot uint64, plan func(q FReq) string) (res fetchRes, bad string) {
	n := x.node
	b := mkBlock(slot, s.parts)
	b.Fork = s.fork
	nb := mkBlock(slot+1, []Part{pVanillaOK(vD, 5), pDon(3)})
	other := mkBlock(slot+2, []Part{pMevOK(vE, 9), pSub(vC, 1000), pBan(11)})
	other.Prop = vE
	uniq(b)
	uniq(nb)
	uniq(other)
	n.mu.Lock()
	n.Slots = map[uint64]*Blk{slot: b, slot + 1: nb, slot + 2: other}
	n.Number = map[uint64]*Blk{nb.Number: nb, other.Number: other}
	if !b.Missed {
		n.Number[b.Number] = b
	}
	n.SSZ = s.ssz
	n.Seq, n.Log, n.Hook, n.KeepLog = 0, nil, plan, true
	if n.ValsAt == nil { // at other slots the validators look different
		n.ValsAt = func(at, idx uint64) (*UVal, bool) {
			if at == slot || at == slot+1 || at == slot+2 {
				return nil, false
			}
			if v := n.Vals[idx]; v != nil {
				return v.with(func(u *UVal) { u.Status, u.Eff = v1.ValidatorStateWithdrawalDone, 1 }), true
			}
			return nil, false
		}
		defer func() { n.mu.Lock(); n.ValsAt = nil; n.mu.Unlock() }()
	}
	n.mu.Unlock()
	o, m := inject(x.cfg, slot, s.pre, 0)
	sub := m.subscribed(b.Prop.Idx)
	var fb *oracle.FullBlock
	res.slot = slot
	res.how = firstLine(guard(func() { fb = on.FetchFullBlock(slot, o) }))
	n.mu.Lock()
	res.log = n.Log
	n.Hook = nil
	n.mu.Unlock()
	x.r.Evals.Add(1)
	x.r.Transitions.Add(int64(len(res.log)))
	if res.how != "" {
		return res, ""
	}
	need := sub || classify(n.Chain, b, sub).toPool
	bad = cmpFetched(fb, b, n.Chain, need)
	if bad != "" {
		return
	}
	// the next slot of the epoch (its duty may come from what was remembered), without faults
	var fb2 *oracle.FullBlock
	how := firstLine(guard(func() { fb2 = on.FetchFullBlock(slot+1, o) }))
	if how != "" {
		return res, "" // keeps failing: nothing is handed over
	}
	if d := cmpFetched(fb2, nb, n.Chain, true); d != "" {
		return res, "the next slot, fetched without faults: " + d
	}
	return
}

// cmpFetched compares a fetched block with what the nodes say.
func cmpFetched(fb *oracle.FullBlock, b *Blk, chain uint64, needReceipts bool) string {
	if fb == nil {
		return "no block and no error"
	}
	has := fb.ExecutionHeader != nil || fb.ExecutionReceipts != nil
	if needReceipts && (fb.ExecutionHeader == nil || fb.ExecutionReceipts == nil) && !b.Missed {
		return "header or receipts are missing"
	}
	want := dumpVal(b.fetched(chain, has && !b.Missed))
	got := dumpVal(fb)
	if got != want {
		return "the fetched block differs: " + firstDiff(got, want)
	}
	return ""
}

var clFaults = []string{"cuthead", "reset", "500", "503", "429", "400", "401", "500-404", "empty", "204", "{}", "null", "[]", "null-data", "list-data", "obj-data", "html", "trunc", "cut", "cut1", "stale", "404"}
var elFaults = []string{"cuthead", "reset", "500", "503", "429", "404", "500-404", "empty", "{}", "null", "[]", "html", "trunc", "cut", "cut1", "rpc-error", "rpc-404", "rpc-null", "rpc-obj", "rpc-str", "rpc-0x", "badlog", "stale"}

// faultsFor lists the faults that can be told apart from a proper answer to the request.
func faultsFor(q FReq) []string {
	fs := elFaults
	if q.Node == "cl" {
		fs = clFaults
	}
	var out []string
	for _, f := range fs {
		switch {
		case q.Kind == "block" && f == "404": // the proper way to say that there is no block
			continue
		case f == "badlog" && !strings.HasPrefix(q.Kind, "eth_getLogs"):
			continue
		case f == "rpc-null" && strings.HasPrefix(q.Kind, "eth_getLogs"): // some nodes say that there are no events this way
			continue
		case q.Kind == "validators" && (f == "list-data" || f == "{}" || f == "null" || f == "null-data"): // no such validator
			continue
		case q.Kind == "consolidations" && f == "list-data": // none
			continue
		case f == "stale" && (strings.HasPrefix(q.Kind, "eth_getLogs") || q.Kind == "eth_getTransactionReceipt" || q.Kind == "spec" || q.Kind == "consolidations"):
			continue
		}
		out = append(out, f)
	}
	return out
}

func runC20(r *Run) {
	k, n := shard()
	node := newFakeNode(oracle.MainnetChainId)
	for _, v := range []*UVal{vA, vB, vC, vD, vE} {
		node.Vals[v.Idx] = v
		// an answer about a neighbouring validator exists
		w := *v
		w.Idx++
		node.Vals[w.Idx] = &w
	}
	node.Vals[strangerVal.Idx] = strangerVal
	node.start()
	defer node.stop()
	zerolog.SetGlobalLevel(zerolog.Disabled)
	x := &fetcher{r: r, node: node, cfg: mkCfg("mainnet", 1000, 700), epoch: 355000 + uint64(k)*20000}
	x.on = newOnchainFor(node)

	ghost := &UVal{Idx: 77}
	pGhost := part("subscription of a validator that does not exist", func(b *Blk) { b.Subs = append(b.Subs, Sub{ghost.Idx, stranger, un(1000), nil}) })
	pGhostUn := part("unsubscription of a validator that does not exist", func(b *Blk) { b.Unsubs = append(b.Unsubs, Unsub{ghost.Idx, stranger, nil}) })
	cfgEv := part("config events", func(b *Blk) {
		b.Fee, b.Ckpt, b.Coll = []int64{733, 755}, []uint64{60}, append(b.Coll, bi(7))
		b.Recip = append(b.Recip, otherRec)
	})
	txs := part("three transactions before", func(b *Blk) {
		b.Txs = append([]Tx{{From: kUser, To: pa(otherRec), Value: bi(3), Type: 0, GasPrice: bi(50), GasUsed: 21000},
			{From: kUser2, To: pa(otherRec), Value: bi(4), Type: 1, GasPrice: bi(50), GasUsed: 21000},
			{From: kUser2, To: pa(stranger), Value: bi(4), Type: 3, Tip: bi(1), Cap: bi(50), GasUsed: 21000}}, b.Txs...)
	})
	shapes := [][]Part{
		{pMissed(vA)}, {pMissed(vD)}, {}, {pVanillaOK(vA, 5)}, {pVanillaOK(vD, 5), txs}, {pMevOK(vA, 7), txs}, {pMevViaProxy(vD, 7)}, {pVanillaWrong(vA)}, {pMevWrong(vD, 7)},
		{pSub(vC, 1000), pGhost, pUnsub(vA)}, {pUnsub(vB), pUnsubBy(vA), pGhostUn, pSub(vC, 1), pSub(vD, 1000)}, {pDon(3), pDon(4)}, {pBan(11, 22), pUnban(33)}, {cfgEv},
		{pMevOK(vA, 7), txs, pSub(vC, 1000), pUnsub(vB), pDon(3), pBan(22), pUnban(33), cfgEv},
	}
	pre := []PV{{U: vA, St: stActive, Acc: 5, Pend: 3}, {U: vB, St: stYellow}}
	forks := []spec.DataVersion{spec.DataVersionBellatrix, spec.DataVersionCapella, spec.DataVersionDeneb, spec.DataVersionElectra, spec.DataVersionFulu}

	var scens []fetchScen
	for _, sh := range shapes {
		for _, f := range forks {
			for _, ssz := range []bool{false, true} {
				for _, has4 := range []bool{false, true} {
					for _, p := range [][]PV{pre, nil} {
						scens = append(scens, fetchScen{sh, f, ssz, p, has4})
					}
				}
			}
		}
	}
	out := map[string]int64{}
	type replay struct {
		Scenario string
		Slot     uint64
		Plan     []string
		Requests []string
	}
	reqs := func(l []FReq) (o []string) {
		for _, q := range l {
			o = append(o, q.String())
		}
		return
	}
	report := func(s fetchScen, kind, bad string, res fetchRes, plan []string) {
		r.violate("C20 "+kind, fmt.Sprintf("C20: fetching slot %d, %s, with %v: %s", res.slot, s, plan, bad), replay{s.String(), res.slot, plan, reqs(res.log)})
	}
	// faults are injected with one wire format and fork for most shapes, with all of them thoroughly
	isFull := func(s fetchScen) bool {
		return r.thorough() || s.fork == spec.DataVersionDeneb && !s.ssz && s.pre != nil || s.fork == spec.DataVersionElectra && s.ssz && s.pre != nil && !s.has4
	}
	mine := map[string]int{}
	for _, s := range scens {
		class := fmt.Sprint(isFull(s), s.fork, s.has4, r.thorough() && s.pre == nil)
		mine[class]++
		if mine[class]%n != k || r.stop() {
			continue
		}
		if r.expired() {
			break
		}
		r.States.Add(1)
		slot := x.nextSlot(s.has4)
		res, bad := x.run(x.on, s, slot, nil)
		if res.how != "" {
			bad = "a fetch without faults fails: " + res.how
		}
		if bad != "" {
			report(s, "fault-free "+sigOf(mkBlock(slot, s.parts)), bad, res, nil)
			continue
		}
		out["fault-free fetch of "+partsName(s.parts)]++
		if !isFull(s) {
			continue
		}
		base := res.log
		if k == 0 && len(base) > 0 {
			r.sample(fmt.Sprintf("%s: requests %v", s, reqs(base)))
		}
		one := func(kind string, plan []string, hook func(q FReq) string) {
			if r.stop() || r.expired() {
				return
			}
			slot := x.nextSlot(s.has4)
			res, bad := x.run(x.on, s, slot, hook)
			if bad != "" {
				report(s, kind, bad, res, plan)
				return
			}
			switch {
			case res.how == "":
				out[kind+": correct block"]++
			default:
				out[kind+": nothing handed over"]++
			}
		}
		// the requests after the slot's own ones (the next slot) are not part of the plan
		for i, q := range base {
			for _, f := range faultsFor(q) {
				i, f, q := i, f, q
				one(q.Kind+" "+f+" once", []string{fmt.Sprintf("%s: %s once", q, f)}, func(p FReq) string {
					if p.Seq == i {
						return f
					}
					return ""
				})
				one(q.Kind+" "+f+" from then on", []string{fmt.Sprintf("%s: %s from then on", q, f)}, func(p FReq) string {
					if p.Seq >= i && p.Kind == q.Kind {
						return f
					}
					return ""
				})
			}
		}
		// two faults, the second one at any later request (also at the repetition of the first)
		if s.fork == spec.DataVersionDeneb && !s.ssz && (r.thorough() || !s.has4) {
			pair := []string{"cuthead", "500", "empty", "trunc", "rpc-error"}
			for i, q := range base {
				for j := i + 1; j <= len(base)+1; j++ {
					for _, f1 := range pair {
						for _, f2 := range pair {
							if f1 == "rpc-error" && q.Node == "cl" {
								continue
							}
							i, j, f1, f2, q := i, j, f1, f2, q
							if !r.thorough() && f1 != f2 && (i+j)%3 != 0 {
								continue
							}
							one(q.Kind+" two faults", []string{fmt.Sprintf("%s: %s; request %d: %s", q, f1, j, f2)}, func(p FReq) string {
								if p.Seq == i {
									return f1
								}
								if p.Seq == j && !(f2 == "rpc-error" && p.Node == "cl") {
									return f2
								}
								return ""
							})
						}
					}
				}
			}
		}
	}
	// a fresh connection (the fetch also asks for the parameters of the chain), a node that is down
	// for good, and answers that come too late
	fresh := []fetchScen{{shapes[4], spec.DataVersionDeneb, false, pre, false}, {shapes[5], spec.DataVersionElectra, true, pre, true}, {shapes[9], spec.DataVersionDeneb, false, pre, true}}
	cnt := 0
	for _, s := range fresh {
		for _, f := range append([]string{"down", "hang"}, clFaults...) {
			if f == "404" {
				continue
			}
			for i := 0; i < 12; i++ {
				for _, sticky := range []bool{false, true} {
					cnt++
					if cnt%n != k || r.stop() || r.expired() {
						continue
					}
					if i > 1 && f != "down" && f != "hang" {
						continue
					}
					on := newOnchainFor(node)
					if f == "hang" {
						c, err := http.New(context.Background(), http.WithTimeout(150*time.Millisecond), http.WithAddress(node.URL), http.WithLogLevel(zerolog.Disabled))
						if err != nil {
							continue
						}
						on.ConsensusClient = c.(*http.Service)
					}
					i, f, sticky := i, f, sticky
					res, bad := x.run(on, s, x.nextSlot(s.has4), func(p FReq) string {
						if p.Seq < i || !sticky && p.Seq > i {
							return ""
						}
						switch {
						case f == "down":
							return "reset"
						case f == "hang" && p.Node == "el":
							return ""
						}
						for _, g := range faultsFor(p) {
							if g == f {
								return f
							}
						}
						if f == "hang" {
							return f
						}
						return ""
					})
					how := "once"
					if sticky {
						how = "from then on"
					}
					if bad != "" {
						report(s, f+" on a fresh connection", bad, res, []string{fmt.Sprintf("fresh connection, %s at request %d %s", f, i, how)})
						continue
					}
					c := ": correct block"
					if res.how != "" {
						c = ": nothing handed over"
					}
					out["fresh connection, "+f+" "+how+c]++
					out["fresh connections"]++
				}
			}
		}
	}
	c20Order(r, x, out, k, n)
	c20Cleanup(r, x, out, k, n)
	r.addOutcomes(out)
	r.bound("blocks", fmt.Sprintf("%d shapes x %d forks x JSON and SSZ x slot number with and without 404 x two oracle states = %d slots, each fetched without faults", len(shapes), len(forks), len(scens)))
	r.bound("faults", fmt.Sprintf("%d kinds for the consensus node, %d for the execution node; every request of a fetch x every kind, once and from then on; pairs of faults at any two requests", len(clFaults)+1, len(elFaults)))
	r.note("a 404 for a block, an empty list of validators or null events are what a node says when there is no such block, validator or event: they are not counted as faults of it")
	r.note("the delays between retries are removed at build time; 3 attempts per request")
	r.note("a fetch that ends the process (log.Fatal or a panic) hands nothing over, which the property allows")
}

// c20Order fetches slots of several epochs in every order of up to four of them: the duties that are
// remembered must never be taken for those of another epoch.
func c20Order(r *Run, x *fetcher, out map[string]int64, k, n int) {
	offs := []uint64{0, 31, 32, 63, 64, 5, 40}
	depth := r.pick(3, 4)
	cnt := 0
	var rec func(seq []uint64)
	rec = func(seq []uint64) {
		if len(seq) == depth {
			cnt++
			if cnt%n != k || r.stop() || r.expired() {
				return
			}
			x.epoch += 4
			base := x.epoch * 32
			x.epoch += 4
			x.node.mu.Lock()
			x.node.Slots, x.node.Number = map[uint64]*Blk{}, map[uint64]*Blk{}
			props := []*UVal{vA, vB, vC, vD, vE}
			for i, off := range offs {
				b := mkBlock(base+off, []Part{pVanillaOK(props[i%5], int64(i+1))})
				x.node.Slots[b.Slot], x.node.Number[b.Number] = b, b
			}
			x.node.Hook = nil
			x.node.mu.Unlock()
			o, _ := inject(x.cfg, base, nil, 0)
			for i, off := range seq {
				var fb *oracle.FullBlock
				how := firstLine(guard(func() { fb = x.on.FetchFullBlock(base+off, o) }))
				bad := how
				if how == "" {
					bad = cmpFetched(fb, x.node.Slots[base+off], x.node.Chain, true)
				}
				r.Evals.Add(1)
				if bad != "" {
					r.violate("C20 order of slots", fmt.Sprintf("C20: fetching slots %v of epoch %d one after the other, number %d: %s", seq, base/32, i, bad), map[string]any{"offsets": seq, "first_slot_of_epoch": base})
					return
				}
			}
			out["slots of several epochs in some order"]++
			return
		}
		for _, off := range offs {
			rec(append(append([]uint64{}, seq...), off))
		}
	}
	rec(nil)
	r.bound("orders of slots", fmt.Sprintf("all sequences of %d out of %d slots of three epochs", depth, len(offs)))
}

// c20Cleanup processes a slot at which validators are cleaned up, with faults in the answers the
// cleanup asks for: either the step fails or it ends as without faults.
func c20Cleanup(r *Run, x *fetcher, out map[string]int64, k, n int) {
	target := mkVal(66, 1, ownerB)
	slot := uint64(11649600)
	pre := []PV{{U: vA, St: stActive, Acc: 5, Pend: 3}, {U: vB, St: stYellow, Acc: 2, Pend: 9}, {U: vE, St: stActive, Pend: 4}, {U: vD, St: stBanned, Acc: 4}}
	type scen struct {
		exit []uint64
		cons [][2]uint64
	}
	scens := []scen{{nil, nil}, {[]uint64{11}, nil}, {[]uint64{11, 22}, nil}, {[]uint64{11}, [][2]uint64{{11, 66}}}, {[]uint64{11, 22}, [][2]uint64{{11, 22}, {22, 55}}}, {nil, [][2]uint64{{22, 66}}}}
	cnt := 0
	defer func() { x.node.mu.Lock(); x.node.ValsAt, x.node.Cons = nil, nil; x.node.mu.Unlock() }()
	for _, s := range scens {
		do := func(hook func(q FReq) string) (string, string, []FReq) {
			x.node.mu.Lock()
			x.node.Slots, x.node.Number = map[uint64]*Blk{}, map[uint64]*Blk{}
			x.node.Cons = s.cons
			x.node.ValsAt = func(_, idx uint64) (*UVal, bool) {
				for _, e := range s.exit {
					if e == idx {
						return x.node.Vals[idx].with(func(u *UVal) { u.Status = v1.ValidatorStateExitedUnslashed }), true
					}
				}
				if idx == 66 {
					return target, true
				}
				return nil, false
			}
			x.node.Seq, x.node.Log, x.node.Hook, x.node.KeepLog = 0, nil, hook, true
			x.node.mu.Unlock()
			o, _ := inject(x.cfg, slot, pre, 0)
			o.SetGetSetOfValidatorsFunc(x.on.GetSetOfValidators)
			o.GetPendingConsolidationsFunc(x.on.GetPendingConsolidations)
			b := mkBlock(slot, nil)
			var err error
			how := firstLine(guard(func() { _, err = o.AdvanceStateToNextSlot(b.full(x.node.Chain)) }))
			if err != nil {
				how = "error"
			}
			x.node.mu.Lock()
			l := x.node.Log
			x.node.Hook = nil
			x.node.mu.Unlock()
			r.Evals.Add(1)
			j, _ := json.Marshal(realState(o))
			return how, string(j), l
		}
		how, want, base := do(nil)
		if how != "" {
			r.violate("C20 cleanup without faults", "C20: a cleanup without faults fails: "+how, s)
			return
		}
		if cnt == 0 && k == 0 {
			r.sample(fmt.Sprint("cleanup requests: ", base))
		}
		for i, q := range base {
			for _, f := range faultsFor(q) {
				for _, sticky := range []bool{false, true} {
					cnt++
					if cnt%n != k || r.stop() || r.expired() {
						continue
					}
					i, f, q, sticky := i, f, q, sticky
					how, got, _ := do(func(p FReq) string {
						if p.Seq == i || sticky && p.Seq > i && p.Kind == q.Kind {
							return f
						}
						return ""
					})
					if how == "" && got != want {
						r.violate("C20 cleanup "+q.Kind+" "+f, fmt.Sprintf("C20: cleanup at slot %d (exited %v, consolidations %v) with %s at request %s (repeated: %v) ends without error in another state: %s", slot, s.exit, s.cons, f, q, sticky, firstDiff(got, want)), nil)
						continue
					}
					if how == "" {
						out["cleanup "+q.Kind+" "+f+": as without faults"]++
					} else {
						out["cleanup "+q.Kind+" "+f+": refused"]++
					}
				}
			}
		}
	}
	r.bound("cleanups", fmt.Sprintf("%d sets of exits and consolidations, every request x every fault", len(scens)))
}
