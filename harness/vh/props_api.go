package main

import (
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strings"
	"time"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/api"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/rs/zerolog"
)

func init() {
	registerSharded("C25", "model_checking", runC25)
	registerSharded("C26", "model_checking", runC26)

}

// ---------------------------------------------------------------- the API of an oracle on a port

type apiBed struct {
	node   *FakeNode
	on     *oracle.Onchain
	cfg    *oracle.Config
	o      *oracle.Oracle
	url    string
	client *http.Client
	relay  *httptest.Server
	relays []string
	answer func(path string) (int, string) // of the relays
}

var bedPort = 0

func newApiBed(shard int, loadValidators bool, vals ...*UVal) *apiBed {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	stdlog.SetOutput(io.Discard)
	b := &apiBed{node: newFakeNode(oracle.MainnetChainId)}
	for _, v := range vals {
		b.node.Vals[v.Idx] = v
	}
	b.node.Finalized, b.node.Head = 11649200, 11649280
	b.node.start()
	b.on = newOnchainFor(b.node)
	if loadValidators {
		b.on.RefreshBeaconValidators()
	}
	b.relay = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		code, body := http.StatusNotFound, "{}"
		if b.answer != nil {
			code, body = b.answer(q.URL.Path)
		}
		if code == 0 {
			c, _, _ := w.(http.Hijacker).Hijack()
			c.Close()
			return
		}
		w.WriteHeader(code)
		w.Write([]byte(body))
	}))
	b.relays = []string{b.relay.URL + "/a", b.relay.URL + "/b"}
	b.cfg = mkCfg("mainnet", 11649100, 700)
	b.o = oracle.NewOracle(b.cfg)
	for try := 0; try < 100; try++ {
		if bedPort == 0 {
			bedPort = 21000 + shard*400 + os.Getpid()%200
		}
		bedPort++
		svc := api.NewApiService(b.cfg, &config.CliConfig{ApiPort: bedPort, RelayersEndpoints: b.relays, PoolAddress: b.cfg.PoolAddress}, b.o, b.on)
		ended := make(chan string, 1)
		go func() { ended <- guard(svc.StartHTTPServer) }()
		b.url = fmt.Sprintf("http://127.0.0.1:%d", bedPort)
		up := false
		for i := 0; i < 200 && !up; i++ {
			select {
			case <-ended:
				i = 200
				continue
			case <-time.After(10 * time.Millisecond):
			}
			c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", bedPort))
			if err == nil {
				c.Close()
				up = true
			}
		}
		if up {
			b.client = &http.Client{Timeout: 20 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
			return b
		}
	}
	panic("no port for the API")
}

func (b *apiBed) close() { b.node.stop(); b.relay.Close() }

// load puts a state into the oracle behind the API.
func (b *apiBed) load(s *oracle.OracleState) { *realState(b.o) = *deepClone(s) }

type apiAns struct {
	code int
	body string
	ct   string
	err  string
}

func (a apiAns) String() string {
	if a.err != "" {
		return "no answer (" + a.err + ")"
	}
	s := strings.TrimSpace(a.body)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return fmt.Sprintf("%d %s", a.code, s)
}

func (b *apiBed) get(path string) apiAns { return b.do("GET", path) }

func (b *apiBed) do(method, path string) apiAns {
	req, err := http.NewRequest(method, b.url+path, nil)
	if err != nil {
		return apiAns{err: "request: " + err.Error()}
	}
	resp, err := b.client.Do(req)
	if err != nil {
		return apiAns{err: err.Error()}
	}
	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		return apiAns{err: err.Error()}
	}
	return apiAns{resp.StatusCode, string(body), resp.Header.Get("Content-Type"), ""}
}

// wellFormed says what is wrong with the form of an answer.
func wellFormed(a apiAns) string {
	if a.err != "" {
		return "no answer: " + a.err
	}
	if a.code == 200 || strings.HasPrefix(a.ct, "application/json") {
		var x any
		d := json.NewDecoder(strings.NewReader(a.body))
		if err := d.Decode(&x); err != nil {
			return fmt.Sprintf("answer %d is not JSON: %v", a.code, err)
		}
		if d.More() {
			return fmt.Sprintf("answer %d holds more than one value: %s", a.code, a)
		}
		if a.code != 200 {
			m, ok := x.(map[string]any)
			if !ok || fmt.Sprint(m["code"]) != fmt.Sprint(a.code) || m["message"] == nil || m["message"] == "" {
				return "the error answer has not the form {code, message}: " + a.String()
			}
		}
	}
	if a.code < 200 || a.code > 599 {
		return "status " + fmt.Sprint(a.code)
	}
	return ""
}

// ---------------------------------------------------------------- C25

var stApi = map[int]string{stUntracked: "untracked", stActive: "active", stYellow: "yellowcard", stRed: "redcard", stNotSub: "notsubscribed", stBanned: "banned"}

type apiVal struct {
	Status    string `json:"status"`
	BeaconSt  string `json:"beacon_status"`
	Balance   string `json:"beacon_balance_gwei"`
	Effective string `json:"beacon_effective_balance_gwei"`
	Acc       string `json:"accumulated_rewards_wei"`
	Pend      string `json:"pending_rewards_wei"`
	Coll      string `json:"collateral_wei"`
	Address   string `json:"withdrawal_address"`
	Idx       uint64 `json:"validator_index"`
	Key       string `json:"validator_key"`
	SubsType  string `json:"subscription_type"`
}

// pev is one recent event.
type pev struct {
	unsub bool
	u     *UVal
	from  common.Address
	coll  *big.Int
}

func (e pev) String() string {
	by := "its owner"
	if e.from != e.u.owner() {
		by = "another account"
	}
	if e.unsub {
		return fmt.Sprintf("%d unsubscribed by %s", e.u.Idx, by)
	}
	return fmt.Sprintf("%d subscribed by %s with %v", e.u.Idx, by, e.coll)
}

func runC25(r *Run) {
	k, n := shard()
	kinds := []v1.ValidatorState{v1.ValidatorStateActiveOngoing, v1.ValidatorStatePendingQueued, v1.ValidatorStateActiveExiting, v1.ValidatorStateExitedUnslashed,
		v1.ValidatorStateWithdrawalDone, v1.ValidatorStateActiveSlashed, v1.ValidatorStatePendingInitialized, v1.ValidatorStateExitedSlashed, v1.ValidatorStateWithdrawalPossible}
	var as []*UVal
	for i, st := range kinds {
		st := st
		u := mkVal(uint64(10+i), byte(1+i%2), ownerB).with(func(u *UVal) { u.Status = st })
		as = append(as, u)
	}
	vb := mkVal(30, 2, ownerB)
	vc := mkVal(31, 1, ownerC)
	vbls := mkVal(32, 0, ownerB)
	all := append(append([]*UVal{}, as...), vb, vc, vbls)
	bed := newApiBed(k, true, all...)
	defer bed.close()
	w := mkWorld("mainnet", bed.cfg, all...)
	slot := uint64(11649203) // no cleanup near
	alphabet := func(a *UVal) []pev {
		return []pev{
			{false, a, a.owner(), un(1000)}, {false, a, a.owner(), un(1500)}, {false, a, a.owner(), add(un(1000), bi(-1))}, {false, a, stranger, un(1000)},
			{true, a, a.owner(), nil}, {true, a, stranger, nil},
			{false, vb, vb.owner(), un(1000)}, {true, vb, vb.owner(), nil},
			{false, vc, vc.owner(), un(1000)}, {true, vc, ownerB, nil}, {false, vbls, ownerB, un(1000)},
		}
	}
	maxLen := func(ai int) int {
		if ai == 0 || r.thorough() && ai < 3 {
			return 3
		}
		return 2
	}
	statuses := []int{stUntracked, stActive, stYellow, stRed, stNotSub, stBanned}
	type job struct {
		ai, sa, sb int
		old        bool
	}
	var jobs []job
	for ai := range as {
		for _, sa := range statuses {
			for _, sb := range []int{stUntracked, stActive, stBanned} {
				if sb != stActive && !(r.thorough() || ai == 0) {
					continue
				}
				for _, old := range []bool{false, true} {
					if old && (sb != stActive || ai > 1) {
						continue
					}
					jobs = append(jobs, job{ai, sa, sb, old})
				}
			}
		}
	}
	r.bound("events", "all lists of up to 2 (3 for an active validator) of 11 events, in every distribution over blocks")
	r.bound("start records", "6 x 3 statuses of two validators of the owner, 9 beacon statuses")
	r.bound("address", "as in the state, in capitals, mixed")
	out := map[string]int64{}
	cnt := 0
	for ji, j := range jobs {
		if ji%n != k || r.stop() || r.expired() {
			continue
		}
		a := as[j.ai]
		al := alphabet(a)
		pre := []PV{{U: a, St: j.sa, Acc: 5, Pend: 7}, {U: vb, St: j.sb, Acc: 11, Pend: 13}, {U: vc, St: stActive, Acc: 1, Pend: 2}}
		o, m0 := inject(bed.cfg, slot, pre, 3)
		latest := realState(o).LatestProcessedBlock
		bed.load(realState(o))
		before := noHash(realState(bed.o))
		var lists [][]pev
		var rec func(l []pev)
		rec = func(l []pev) {
			lists = append(lists, append([]pev{}, l...))
			if len(l) == maxLen(j.ai) || j.old && len(l) == 1 {
				return
			}
			for _, e := range al {
				rec(append(append([]pev{}, l...), e))
			}
		}
		rec(nil)
		r.States.Add(1)
		for _, l := range lists {
			if r.stop() || r.expired() {
				break
			}
			for mask := 0; mask < 1<<max(0, len(l)-1); mask++ {
				// events that are part of the processed state already must not be applied again
				first := latest + 1
				if j.old {
					first = latest
				}
				blocks := map[uint64]*Blk{}
				num := first
				var nums []uint64
				for i, e := range l {
					if i > 0 && mask&(1<<(i-1)) != 0 {
						num += 2
					}
					b := blocks[num]
					if b == nil {
						b = &Blk{Slot: num + 900, Number: num, Prop: strangerVal, FeeRec: otherRec}
						blocks[num] = b
						nums = append(nums, num)
					}
					if e.unsub {
						b.Unsubs = append(b.Unsubs, Unsub{e.u.Idx, e.from, e.u})
					} else {
						b.Subs = append(b.Subs, Sub{e.u.Idx, e.from, e.coll, e.u})
					}
				}
				// what processing them gives, event by event
				m := m0.clone()
				pend := map[uint64]*big.Int{}
				for i, v := range m.V {
					pend[i] = v.Pend
				}
				if !j.old {
					s := slot
					one := func(b *Blk, idx uint64) {
						was := m.subscribed(idx)
						outs, refused := m.step(w, b)
						if refused {
							panic("model refuses")
						}
						m = outs[0]
						s++
						switch now := m.subscribed(idx); {
						case now && !was:
							p := pend[idx]
							if p == nil {
								p = bi(0)
							}
							pend[idx] = add(p, b.Subs[0].Coll)
						case was && !now:
							pend[idx] = bi(0)
						}
					}
					for _, nn := range nums {
						for _, e := range blocks[nn].Subs {
							one(&Blk{Slot: s, Number: s - 900, Prop: strangerVal, FeeRec: otherRec, Subs: []Sub{e}}, e.Idx)
						}
						for _, e := range blocks[nn].Unsubs {
							one(&Blk{Slot: s, Number: s - 900, Prop: strangerVal, FeeRec: otherRec, Unsubs: []Unsub{e}}, e.Idx)
						}
					}
				}
				f := bed.node
				f.mu.Lock()
				f.Number = blocks
				f.HeadNumber = num + 40
				f.Finalized = slot - 1
				f.mu.Unlock()
				addr := []string{strings.ToLower(ownerB.Hex()), ownerB.Hex(), "0x" + strings.ToUpper(ownerB.Hex()[2:])}[cnt%3]
				cnt++
				ans := bed.get("/memory/validators/" + addr)
				r.Transitions.Add(int64(len(l)))
				r.Evals.Add(1)
				desc := fmt.Sprintf("oracle %v, beacon status of %d: %s, recent events %v in blocks %v (processed up to %d), address %s", pre, a.Idx, a.Status, l, nums, latest, addr)
				bad := cmpPreview(ans, as, []*UVal{vb}, m0, m, pend)
				if bad == "" && noHash(realState(bed.o)) != before {
					bad = "showing the preview changed the state of the oracle"
					bed.load(realState(o))
				}
				if bad != "" {
					r.violate("C25 "+sigOfPreview(l, j.old), "C25: "+desc+": "+bad, map[string]any{"scenario": desc, "answer": ans.body})
					continue
				}
				if v := m.V[a.Idx]; v != nil {
					out[fmt.Sprintf("%s -> %s", stName[j.sa], stName[v.St])]++
				} else {
					out[stName[j.sa]+" -> untracked"]++
				}
			}
		}
		if k == 0 && ji < 3*n {
			r.sample(fmt.Sprintf("%v: %d lists of events", pre, len(lists)))
		}
	}
	// an answer of the execution node that is not usable is never shown as a preview
	if k == 0 {
		pre := []PV{{U: as[0], St: stNotSub, Acc: 5, Pend: 7}, {U: vb, St: stActive, Acc: 11, Pend: 13}}
		o, _ := inject(bed.cfg, slot, pre, 3)
		bed.load(realState(o))
		latest := realState(o).LatestProcessedBlock
		f := bed.node
		f.mu.Lock()
		f.Number = map[uint64]*Blk{latest + 1: {Number: latest + 1, Slot: slot + 3, Prop: strangerVal, Subs: []Sub{{as[0].Idx, ownerB, un(1000), as[0]}}, Unsubs: []Unsub{{vb.Idx, ownerB, vb}}}}
		f.Seq, f.Log, f.KeepLog = 0, nil, true
		f.mu.Unlock()
		path := "/memory/validators/" + ownerB.Hex()
		want := bed.get(path)
		f.mu.Lock()
		log := f.Log
		f.mu.Unlock()
		for i, q := range log {
			for _, fault := range faultsFor(q) {
				if fault == "stale" || fault == "hang" {
					continue
				}
				f.mu.Lock()
				f.Seq = 0
				i, fault := i, fault
				f.Hook = func(p FReq) string {
					if p.Seq == i {
						return fault
					}
					return ""
				}
				f.mu.Unlock()
				got := bed.get(path)
				f.mu.Lock()
				f.Hook = nil
				f.mu.Unlock()
				r.Evals.Add(1)
				if got.err == "" && got.code == 200 && got.body != want.body {
					r.violate("C25 fault "+q.Kind, fmt.Sprintf("C25: with the node answering %s to %s, the preview shows %s instead of %s or an error", fault, q, got, want), []string{q.String(), fault})
				}
				out["faulty answer to "+q.Kind]++
			}
		}
	}
	r.addOutcomes(out)
}

func sigOfPreview(l []pev, old bool) string {
	if old {
		return "processed event"
	}
	var s []string
	for _, e := range l {
		x := "sub"
		if e.unsub {
			x = "unsub"
		}
		s = append(s, x)
	}
	return strings.Join(s, ",")
}

// cmpPreview compares the validators shown for their owner with the ones expected.
func cmpPreview(ans apiAns, as, more []*UVal, m0, m *MState, pend map[uint64]*big.Int) string {
	if bad := wellFormed(ans); bad != "" {
		return bad
	}
	if ans.code != 200 {
		return "answer " + ans.String()
	}
	var got []apiVal
	if err := json.Unmarshal([]byte(ans.body), &got); err != nil {
		return err.Error()
	}
	var want []*UVal
	want = append(append(want, as...), more...)
	if len(got) != len(want) {
		return fmt.Sprintf("%d validators shown, expected %d", len(got), len(want))
	}
	for i, u := range want {
		g := got[i]
		if g.Idx != u.Idx {
			return fmt.Sprintf("validator %d shown where %d is expected", g.Idx, u.Idx)
		}
		st, acc, p := stUntracked, "0", "0"
		if v := m.V[u.Idx]; v != nil {
			st = v.St
			p = pend[u.Idx].String()
		}
		if v := m0.V[u.Idx]; v != nil {
			acc = v.Acc.String()
		}
		for _, x := range [][3]string{{"status", g.Status, stApi[st]}, {"accumulated rewards", g.Acc, acc}, {"pending rewards", g.Pend, p}, {"address", strings.ToLower(g.Address), u.addr()},
			{"key", g.Key, u.keyHex()}, {"beacon status", g.BeaconSt, u.Status.String()}, {"effective balance", g.Effective, fmt.Sprint(u.Eff)}} {
			if x[1] != x[2] {
				return fmt.Sprintf("validator %d is shown with %s %q, processing the events gives %q", u.Idx, x[0], x[1], x[2])
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- C26

type apiBlock struct {
	Slot   uint64 `json:"slot"`
	Block  uint64 `json:"block"`
	Idx    uint64 `json:"validator_index"`
	Key    string `json:"validator_key"`
	Type   string `json:"block_type"`
	Reward string `json:"reward_wei"`
	RType  string `json:"reward_type"`
	Addr   string `json:"withdrawal_address"`
}

var typeName = map[int]string{1: "missedproposal", 2: "wrongfeerecipient", 3: "okpoolproposal", 4: "okpoolproposalblskeys"}
var rtypeName = map[int]string{0: "unknownrewardtype", 1: "vanila", 2: "mev"}

func recLines(rs []MRec) (o []string) {
	for _, x := range rs {
		o = append(o, fmt.Sprint(x.Slot, x.Block, x.Idx, x.Key, typeName[x.Type], x.Reward, rtypeName[x.RType], strings.ToLower(x.Addr)))
	}
	sort.Strings(o)
	return
}

func blkLines(rs []apiBlock) (o []string) {
	for _, x := range rs {
		o = append(o, fmt.Sprint(x.Slot, x.Block, x.Idx, x.Key, x.Type, x.Reward, x.RType, strings.ToLower(x.Addr)))
	}
	sort.Strings(o)
	return
}

// ckpt is a checkpoint the model remembers.
type ckpt struct {
	slot uint64
	root string
	want []oracle.RawLeaf
	m    *MState
}

type apiHist struct {
	path string
	st   *oracle.OracleState
	m    *MState
	cks  []ckpt
	dons []string
}

func runC26(r *Run) {
	k, n := shard()
	fillByIdx()
	al := [][]Part{{}, {pSub(vA, 1000)}, {pVanillaOK(vA, 1001)}, {pMevOK(vB, 50), pDon(30)}, {pMissed(vA)}, {pVanillaWrong(vB)}, {pUnsub(vA), pDon(10007)}, {pSub(vC, 1000), pVanillaOK(vC, 7)}, {pBan(11)}, {pVanillaOK(vE, 77)}}
	depth := r.pick(3, 4)
	bed := newApiBed(k, true, vA, vB, vC, vD, vE)
	defer bed.close()
	cfg := bed.cfg
	w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE)
	r.bound("histories", fmt.Sprintf("all sequences of up to %d of %d blocks, each followed by a checkpoint or not", depth, len(al)))
	r.bound("chain", "root of every local checkpoint, none yet, an unknown slot, a wrong root; nothing and something claimed")
	r.bound("addresses", "all owners, the operator, a stranger, each in lower case, capitals and mixed")
	out := map[string]int64{}
	idx := 0
	var rec func(o *oracle.Oracle, h apiHist, d int)
	rec = func(o *oracle.Oracle, h apiHist, d int) {
		if r.stop() || r.expired() {
			return
		}
		if d > 0 {
			idx++
			if idx%n == k {
				h.st = realState(o)
				r.States.Add(1)
				checkServed(r, bed, h, out)
			}
		}
		if d == depth {
			return
		}
		for _, ps := range al {
			for _, fz := range []bool{false, true} {
				if fz && d == depth-1 && !r.thorough() && len(ps) == 0 {
					continue
				}
				c := deepClone(o)
				b := mkBlock(h.m.Next, ps)
				res := step(c, h.m, w, b, tags(""))
				if res.mod == nil || res.how != "" || res.err != nil {
					continue // reported by the properties about the transition itself
				}
				r.Transitions.Add(1)
				h2 := h
				h2.m = res.mod
				h2.path += " ; {" + b.Name + "}"
				h2.dons = append([]string{}, h.dons...)
				if !b.Missed {
					// what classify takes as the reward of the block is not a donation
					for i := len(h.m.Don); i < len(res.mod.Don); i++ {
						h2.dons = append(h2.dons, fmt.Sprintf("%s in %d", res.mod.Don[i], b.Number))
					}
				}
				if fz {
					var ok bool
					if how := guard(func() { ok = c.FreezeCheckpoint() }); how != "" {
						continue
					}
					if ok {
						h2.path += " checkpoint"
						h2.cks = append(append([]ckpt{}, h.cks...), ckpt{b.Slot, "", refLeaves(feesAddr, res.mod.Pool, res.mod.V), res.mod})
					} else {
						continue
					}
				}
				rec(c, h2, d+1)
			}
		}
	}
	rec(oracle.NewOracle(mkCfgCopy(cfg)), apiHist{m: newModel(cfg)}, 0)
	c26Window(r, bed, k, n, out)
	r.addOutcomes(out)
}

// c26Window enumerates records before, at and after the start of the last 30 days.
func c26Window(r *Run, bed *apiBed, k, n int, out map[string]int64) {
	const slot = 11649201
	last, lastBlock := uint64(slot-1), uint64(slot-1000)
	type rec struct {
		don  bool
		typ  oracle.BlockType
		back uint64
	}
	var recs []rec
	for _, back := range []uint64{0, 1, 215999, 216000, 216001, 300000} {
		recs = append(recs, rec{true, 0, back}, rec{false, oracle.OkPoolProposal, back}, rec{false, oracle.OkPoolProposalBlsKeys, back})
	}
	sub := [][]PV{{}, {{U: vA, St: stActive}}, {{U: vA, St: stYellow}, {U: vB, St: stRed}}, {{U: vA, St: stActive}, {U: vB, St: stActive}, {U: vE, St: stYellow}}, {{U: vA, St: stRed}}, {{U: vA, St: stBanned}, {U: vB, St: stNotSub}}}
	i := 0
	for mask := 0; mask < 1<<len(recs); mask++ {
		cnt := 0
		for j := range recs {
			cnt += mask >> j & 1
		}
		if cnt > r.pick(3, 4) {
			continue
		}
		i++
		if i%n != k || r.stop() || r.expired() {
			continue
		}
		pv := sub[i/n%len(sub)]
		for si, pv2 := range sub {
			if cnt > 2 && si > 0 {
				break
			}
			if cnt <= 2 {
				pv = pv2
			}
			o, _ := inject(bed.cfg, slot, pv, 3)
			s := realState(o)
			sent, sent30, dons, okb := bi(0), bi(0), bi(0), int64(0)
			name := ""
			for j, x := range recs {
				if mask>>j&1 == 0 {
					continue
				}
				amount := bi(int64(1000 + j*j))
				if x.don {
					d := &contract.ContractEtherReceived{Sender: stranger, DonationAmount: amount}
					d.Raw.BlockNumber = lastBlock - x.back
					s.Donations = append(s.Donations, d)
					dons = add(dons, amount)
					name += fmt.Sprintf(" donation %v %d blocks ago;", amount, x.back)
				} else {
					s.ProposedBlocks = append(s.ProposedBlocks, oracle.SummarizedBlock{Slot: last - x.back, Block: lastBlock - x.back, ValidatorIndex: 11, ValidatorKey: vA.keyHex(), BlockType: x.typ, Reward: amount, RewardType: oracle.MevBlock, WithdrawalAddress: vA.addr()})
					name += fmt.Sprintf(" %s %v %d slots ago;", x.typ.String(), amount, x.back)
					if x.typ != oracle.OkPoolProposal {
						continue
					}
					okb++
				}
				sent = add(sent, amount)
				if x.back < 216000 {
					sent30 = add(sent30, amount)
				}
			}
			bed.load(s)
			bed.node.mu.Lock()
			bed.node.Finalized = last
			bed.node.mu.Unlock()
			earn := int64(0)
			for _, p := range pv {
				if p.St == stActive || p.St == stYellow {
					earn++
				}
			}
			avg, per := bi(0), bi(0)
			if okb > 0 {
				avg.Div(sent, bi(okb))
			}
			if earn > 0 {
				per.Div(sent30, bi(earn))
			}
			a := bed.get("/memory/statistics")
			r.Evals.Add(1)
			r.States.Add(1)
			var g map[string]any
			bad := wellFormed(a)
			if bad == "" && a.code != 200 {
				bad = "answer " + a.String()
			}
			json.Unmarshal([]byte(a.body), &g)
			for _, x := range [][2]string{{"total_rewards_sent_wei", sent.String()}, {"total_rewards_sent_30days_wei", sent30.String()}, {"total_donations_wei", dons.String()}, {"avg_block_reward_wei", avg.String()}, {"rewards_per_validator_per_30days_wei", per.String()}, {"total_proposed_blocks", fmt.Sprint(len(s.ProposedBlocks))}} {
				if got := fmt.Sprint(g[x[0]]); bad == "" && got != x[1] {
					bad = fmt.Sprintf("%s is %s, the records give %s", x[0], got, x[1])
				}
			}
			if bad != "" {
				r.violate("C26 window", fmt.Sprintf("C26: validators %v, records:%s GET /memory/statistics: %s", pv, name, bad), map[string]any{"records": name, "answer": a.body})
			}
			out[fmt.Sprintf("window: %d records", cnt)]++
		}
	}
}

func checkServed(r *Run, bed *apiBed, h apiHist, out map[string]int64) {
	f := bed.node
	st := h.st
	bed.load(st)
	before := noHash(realState(bed.o))
	f.mu.Lock()
	f.Finalized = st.LatestProcessedSlot
	f.HeadNumber = st.LatestProcessedBlock + 40
	f.Number = map[uint64]*Blk{}
	f.Root, f.LastSlot = common.Hash{}, 0
	f.mu.Unlock()
	fail := func(sig, path string, ans apiAns, what string) {
		r.violate("C26 "+sig, fmt.Sprintf("C26: after%s: %s: %s", h.path, path, what), map[string]any{"history": h.path, "request": path, "answer": ans.body, "code": ans.code})
	}
	get := func(sig, path string, into any) (apiAns, bool) {
		a := bed.get(path)
		r.Evals.Add(1)
		if bad := wellFormed(a); bad != "" {
			fail(sig, path, a, bad)
			return a, false
		}
		if a.code != 200 {
			fail(sig, path, a, "answer "+a.String())
			return a, false
		}
		if err := json.Unmarshal([]byte(a.body), into); err != nil {
			fail(sig, path, a, err.Error())
			return a, false
		}
		return a, true
	}
	same := func(sig, path string, a apiAns, got, want []string) {
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			fail(sig, path, a, fmt.Sprintf("served %v, expected %v", got, want))
		}
	}
	m := h.m
	// lists
	for _, x := range []struct {
		path string
		want []MRec
	}{{"/memory/proposedblocks", m.Prop}, {"/memory/missedblocks", m.Miss}, {"/memory/wrongfeeblocks", m.Wrong}, {"/memory/allblocks", append(append(append([]MRec{}, m.Prop...), m.Miss...), m.Wrong...)}} {
		var got []apiBlock
		if a, ok := get(x.path, x.path, &got); ok {
			same(x.path, x.path, a, blkLines(got), recLines(x.want))
		}
	}
	var dons []struct {
		Amount string `json:"amount_wei"`
		Block  uint64 `json:"block_number"`
		Tx     string `json:"tx_hash"`
		Sender string `json:"sender"`
	}
	if a, ok := get("donations", "/memory/donations", &dons); ok {
		var g []string
		for _, x := range dons {
			g = append(g, fmt.Sprintf("%s in %d", x.Amount, x.Block))
		}
		wd := append([]string{}, h.dons...)
		sort.Strings(g)
		sort.Strings(wd)
		same("donations", "/memory/donations", a, g, wd)
	}
	// validators
	line := func(i uint64, v *MV) string {
		u := byIdx[i]
		ty := "manual"
		if v.Auto {
			ty = "auto"
		}
		return fmt.Sprint(i, " ", stApi[v.St], " ", v.Acc, " ", v.Pend, " ", strings.ToLower(v.Addr), " ", v.Key, " ", ty, " ", u.Status, " ", u.Eff)
	}
	gl := func(g apiVal) string {
		return fmt.Sprint(g.Idx, " ", g.Status, " ", g.Acc, " ", g.Pend, " ", strings.ToLower(g.Address), " ", g.Key, " ", g.SubsType, " ", g.BeaconSt, " ", g.Effective)
	}
	var ids []uint64
	for i := range m.V {
		ids = append(ids, i)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var want []string
	for _, i := range ids {
		want = append(want, line(i, m.V[i]))
	}
	var vs []apiVal
	if a, ok := get("validators", "/memory/validators", &vs); ok {
		var g []string
		for _, x := range vs {
			g = append(g, gl(x))
		}
		same("validators", "/memory/validators", a, g, want)
	}
	var bi3 struct {
		Found    []apiVal `json:"found_validators"`
		NotFound []uint64 `json:"not_found_validators"`
	}
	if a, ok := get("validatorsbyindex", "/memory/validatorsbyindex/33,11,90,22", &bi3); ok {
		var g, wt []string
		for _, x := range bi3.Found {
			g = append(g, gl(x))
		}
		g = append(g, fmt.Sprint(bi3.NotFound))
		var nf []uint64
		for _, i := range []uint64{33, 11, 90, 22} {
			if v := m.V[i]; v != nil {
				wt = append(wt, line(i, v))
			} else {
				nf = append(nf, i)
			}
		}
		same("validatorsbyindex", "/memory/validatorsbyindex", a, g, append(wt, fmt.Sprint(nf)))
	}
	for _, i := range []uint64{11, 22, 33, 55} {
		p := fmt.Sprintf("/memory/validator/%d", i)
		if m.V[i] == nil {
			if a := bed.get(p); a.code == 200 || wellFormed(a) != "" {
				fail("validator", p, a, "answer for a validator that is not tracked: "+a.String())
			}
			continue
		}
		var v oracle.ValidatorInfo
		if a, ok := get("validator", p, &v); ok {
			x := m.V[i]
			same("validator", p, a, []string{fmt.Sprint(v.ValidatorIndex, int(v.ValidatorStatus), v.AccumulatedRewardsWei, v.PendingRewardsWei, strings.ToLower(v.WithdrawalAddress), v.ValidatorKey)},
				[]string{fmt.Sprint(i, x.St, x.Acc, x.Pend, strings.ToLower(x.Addr), x.Key)})
		}
	}
	// totals
	var fees struct {
		Pct  int    `json:"pool_fee_percent"`
		Addr string `json:"pool_fee_address"`
		Acc  string `json:"pool_accumulated_fees"`
	}
	if a, ok := get("feesinfo", "/memory/feesinfo", &fees); ok {
		same("feesinfo", "/memory/feesinfo", a, []string{fmt.Sprint(fees.Pct, strings.ToLower(fees.Addr), fees.Acc)}, []string{fmt.Sprint(m.Fee, strings.ToLower(feesAddr.Hex()), m.Pool)})
	}
	checkStats(bed, h, get, fail)
	// the whole state, as another oracle would load it
	if a := bed.get("/state"); a.code != 200 {
		fail("state", "/state", a, "answer "+a.String())
	} else {
		o2 := oracle.NewOracle(mkCfgCopy(bed.cfg))
		var ok bool
		var err error
		if how := guard(func() { ok, err = o2.LoadFromBytes([]byte(a.body)) }); how != "" || !ok || err != nil {
			fail("state", "/state", a, fmt.Sprintf("another oracle can not load the served state: %v %v %s", ok, err, firstLine(how)))
		} else if noHash(realState(o2)) != noHash(st) {
			fail("state", "/state", a, "the served state differs: "+firstDiff(noHash(realState(o2)), noHash(st)))
		}
	}
	// claims
	type pos struct {
		slot    uint64
		root    string
		ck      *ckpt
		what    string
		claimed int64
	}
	ps := []pos{{0, oracle.DefaultRoot, nil, "nothing consolidated", 0}}
	for i := range h.cks {
		c := h.cks[i]
		c.root = st.CommitedStates[c.slot].MerkleRoot
		ps = append(ps, pos{c.slot, c.root, &c, fmt.Sprintf("checkpoint %d consolidated", c.slot), 0}, pos{c.slot, c.root, &c, fmt.Sprintf("checkpoint %d consolidated, 3 claimed", c.slot), 3})
	}
	if len(h.cks) > 0 {
		c := h.cks[len(h.cks)-1]
		ps = append(ps, pos{c.slot, otherRoot(st.CommitedStates[c.slot].MerkleRoot), nil, "another root consolidated", 0}, pos{c.slot + 50, st.CommitedStates[c.slot].MerkleRoot, nil, "a later slot consolidated", 0})
	}
	for _, p := range ps {
		f.mu.Lock()
		f.Root, f.LastSlot = common.HexToHash(p.root), p.slot
		f.Claimed = map[common.Address]*big.Int{}
		for _, a := range []common.Address{ownerA, ownerB, ownerC, feesAddr} {
			f.Claimed[a] = bi(p.claimed)
		}
		f.mu.Unlock()
		for ai, ad := range []common.Address{ownerA, ownerB, ownerC, feesAddr, stranger} {
			forms := []string{strings.ToLower(ad.Hex()), ad.Hex(), "0x" + strings.ToUpper(ad.Hex()[2:])}
			form := forms[(ai+int(p.slot)+len(h.path))%3]
			path := "/onchain/proof/" + form
			a := bed.get(path)
			r.Evals.Add(1)
			if bad := checkClaim(a, p.ck, ad, p.claimed); bad != "" {
				fail("proof "+fmt.Sprint(p.ck != nil), path+" ("+p.what+")", a, bad)
				continue
			}
			out["claim: "+strings.Fields(p.what)[0]+fmt.Sprint(" ", a.code)]++
		}
	}
	if noHash(realState(bed.o)) != before {
		fail("altered", "serving requests", apiAns{}, "the state of the oracle changed")
	}
	out[fmt.Sprintf("%d checkpoints, %d validators", len(h.cks), len(m.V))]++
}

var byIdx = map[uint64]*UVal{}

func fillByIdx() {
	for _, v := range []*UVal{vA, vB, vC, vD, vE} {
		byIdx[v.Idx] = v
	}
}

// otherRoot differs from a root in its first byte.
func otherRoot(root string) string {
	b := common.HexToHash(root)
	b[0] ^= 1
	return b.Hex()
}

// checkClaim says what is wrong with the claim data of an address; ck nil: none may be served.
func checkClaim(a apiAns, ck *ckpt, ad common.Address, claimed int64) string {
	if bad := wellFormed(a); bad != "" {
		return bad
	}
	low := strings.ToLower(ad.Hex())
	var leaf *oracle.RawLeaf
	if ck != nil {
		for i := range ck.want {
			if ck.want[i].WithdrawalAddress == low {
				leaf = &ck.want[i]
			}
		}
	}
	if leaf == nil {
		if a.code == 200 {
			return "claim data are served although none is valid on chain: " + a.String()
		}
		return ""
	}
	if a.code != 200 {
		return "answer " + a.String()
	}
	var p struct {
		Addr    string   `json:"leaf_withdrawal_address"`
		Leaf    string   `json:"leaf_accumulated_balance"`
		Root    string   `json:"merkleroot"`
		Slot    uint64   `json:"checkpoint_slot"`
		Proof   []string `json:"merkle_proofs"`
		Vals    []uint64 `json:"registered_validators"`
		Total   string   `json:"total_accumulated_rewards_wei"`
		Claimed string   `json:"already_claimed_rewards_wei"`
		Free    string   `json:"claimable_rewards_wei"`
		Pend    string   `json:"pending_rewards_wei"`
	}
	if err := json.Unmarshal([]byte(a.body), &p); err != nil {
		return err.Error()
	}
	pend := bi(0)
	var ids []uint64
	for i, v := range ck.m.V {
		if strings.EqualFold(v.Addr, low) {
			pend = add(pend, v.Pend)
			ids = append(ids, i)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	sort.Slice(p.Vals, func(i, j int) bool { return p.Vals[i] < p.Vals[j] })
	for _, x := range [][3]string{
		{"leaf address", strings.ToLower(p.Addr), low}, {"leaf balance", p.Leaf, leaf.AccumulatedBalanceWei.String()}, {"root", p.Root, ck.root}, {"slot", fmt.Sprint(p.Slot), fmt.Sprint(ck.slot)},
		{"total", p.Total, leaf.AccumulatedBalanceWei.String()}, {"claimed", p.Claimed, fmt.Sprint(claimed)}, {"claimable", p.Free, sub(leaf.AccumulatedBalanceWei, bi(claimed)).String()},
		{"pending", p.Pend, pend.String()}, {"validators", fmt.Sprint(p.Vals), fmt.Sprint(ids)}} {
		if x[1] != x[2] {
			return fmt.Sprintf("%s is %s, at that checkpoint it was %s", x[0], x[1], x[2])
		}
	}
	if !verifyProof(leafHash(ad, leaf.AccumulatedBalanceWei), p.Proof, ck.root) {
		return "the proof does not verify against the root on chain"
	}
	return ""
}

func checkStats(bed *apiBed, h apiHist, get func(sig, path string, into any) (apiAns, bool), fail func(sig, path string, ans apiAns, what string)) {
	m := h.m
	if m.LatestBlock < 216000 {
		return // no block processed yet: there is no window of 30 days before it
	}
	var s map[string]any
	a, ok := get("statistics", "/memory/statistics", &s)
	if !ok {
		return
	}
	cnt := map[int]uint64{}
	acc, pend, eff := bi(0), bi(0), uint64(0)
	for i, v := range m.V {
		cnt[v.St]++
		acc, pend = add(acc, v.Acc), add(pend, v.Pend)
		if m.subscribed(i) {
			eff += byIdx[i].Eff
		}
	}
	subd := cnt[stActive] + cnt[stYellow] + cnt[stRed]
	sent, don, okb := bi(0), bi(0), uint64(0)
	for _, p := range m.Prop {
		if p.Type == 3 {
			sent = add(sent, p.Reward)
			okb++
		}
	}
	for _, d := range m.Don {
		don, sent = add(don, d), add(sent, d)
	}
	avg, per, avgEff := bi(0), bi(0), uint64(0)
	if okb > 0 {
		avg.Div(sent, new(big.Int).SetUint64(okb))
	}
	if x := cnt[stActive] + cnt[stYellow]; x > 0 {
		per.Div(sent, new(big.Int).SetUint64(x))
	}
	if subd > 0 {
		avgEff = eff / subd
	}
	for _, x := range []struct {
		k string
		v any
	}{
		{"total_subscribed_validators", subd}, {"total_active_validators", cnt[stActive]}, {"total_yellowcard_validators", cnt[stYellow]}, {"total_redcard_validators", cnt[stRed]},
		{"total_banned_validators", cnt[stBanned]}, {"total_notsubscribed_validators", cnt[stNotSub]}, {"total_accumulated_rewards_wei", acc}, {"total_pending_rewards_wei", pend},
		{"total_rewards_sent_wei", sent}, {"total_rewards_sent_30days_wei", sent}, {"rewards_per_validator_per_30days_wei", per}, {"total_donations_wei", don}, {"avg_block_reward_wei", avg},
		{"total_proposed_blocks", len(m.Prop)}, {"total_missed_blocks", len(m.Miss)}, {"total_wrongfee_blocks", len(m.Wrong)}, {"total_effective_balance_gwei", eff}, {"avg_effective_balance_gwei", avgEff},
	} {
		g := s[x.k]
		if f, ok := g.(float64); ok {
			g = fmt.Sprintf("%.0f", f)
		}
		if fmt.Sprint(g) != fmt.Sprint(x.v) {
			fail("statistics "+x.k, "/memory/statistics", a, fmt.Sprintf("%s is %v, the state gives %v", x.k, g, x.v))
			return
		}
	}
}
