package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
)

func init() {
	register("C21", "model_checking", runC21)
}

// dmon watches one run of the daemon.
type dmon struct {
	s        *dScen
	f        *FakeNode
	dry      bool
	startF   folder
	synced   bool   // started from the state of another oracle
	seenLast uint64 // last consolidated slot, as last told to the daemon
	fin      uint64 // highest finalized slot told to the daemon
	elOut    bool   // last answers about being in sync
	clOut    bool
	txs      int
	bad      []string // sig, what
}

func (m *dmon) say(sig, f string, a ...any) {
	if len(m.bad) < 10 {
		m.bad = append(m.bad, sig, fmt.Sprintf(f, a...))
	}
}

func (m *dmon) off(slot uint64) string { return fmt.Sprintf("D%+d", int64(slot)-int64(m.s.d)) }

// onEvent is called for every event after the changes of the chain placed there.
func (m *dmon) onEvent(e *devent) {
	if e.kind != "req" {
		return
	}
	switch e.req.Kind {
	case "eth_call:lastConsolidatedSlot":
		m.seenLast = m.f.LastSlot
	case "headers":
		if m.f.Finalized > m.fin {
			m.fin = m.f.Finalized
		}
	case "eth_syncing":
		m.elOut = m.f.ELSyncing
	case "syncing":
		m.clOut = m.f.SyncDistance > 5
	case "block":
		var slot uint64
		fmt.Sscan(e.req.Arg, &slot)
		if slot > m.fin && slot != m.s.d {
			m.say("block-beyond-finalized", "block of slot %s is fetched while the highest finalized slot the node told of is %s", m.off(slot), m.off(m.fin))
		}
		if (m.elOut || m.clOut) && m.fin > 0 {
			m.say("processing-out-of-sync", "block of slot %s is fetched although the nodes said they are not in sync", m.off(slot))
		}
	}
}

// onTx is called for every transaction before it takes effect.
func (m *dmon) onTx(tx *SentTx, to *common.Address, value *big.Int) {
	m.txs++
	if m.dry {
		m.say("tx-in-dry-run", "a transaction is sent in dry-run mode")
	}
	if tx.Err != "" || to == nil || *to != poolAddr || value.Sign() != 0 {
		m.say("tx-shape", "a transaction to %v with value %s that is %s", to, value, tx.Err)
		return
	}
	if tx.Slot != m.seenLast+m.s.size {
		m.say("tx-slot", "a report for slot %s is sent although the last consolidated slot was read as %s and checkpoints have %d slots", m.off(tx.Slot), m.off(m.seenLast), m.s.size)
	}
	if want, ok := m.s.ref[tx.Slot]; !ok || want != tx.Root {
		m.say("tx-root", "the report for slot %s carries root %s, the balances at that slot have root %s", m.off(tx.Slot), tx.Root.Hex(), want.Hex())
	}
	if h, ok := m.f.Voted[tx.From]; ok {
		if r := m.f.Reports[h]; r != nil && r.Slot == tx.Slot && r.Votes > 0 {
			m.say("tx-twice", "a second report for slot %s is sent, the first one is still pending", m.off(tx.Slot))
		}
	}
}

// commits are the slots and roots of a saved state.
func commits(content string) (latest uint64, c map[uint64]common.Hash, err error) {
	var st struct {
		L uint64 `json:"latest_processed_slot"`
		C map[uint64]struct {
			Root string `json:"merkle_root"`
			Slot uint64 `json:"slot"`
		} `json:"commited_states"`
	}
	if err = json.Unmarshal([]byte(content), &st); err != nil {
		return
	}
	c = map[uint64]common.Hash{}
	for k, v := range st.C {
		c[k] = common.HexToHash(v.Root)
	}
	return st.L, c, nil
}

// files checks the state files after a run that was not sent a signal.
func (m *dmon) files(p *pstate) {
	for n, c := range p.fold {
		if m.startF[n] == c || !strings.HasSuffix(n, ".json") {
			continue
		}
		l, cs, err := commits(c)
		if err != nil {
			m.say("file-broken", "%s cannot be read: %v", n, err)
			continue
		}
		for slot, root := range cs {
			if want, ok := m.s.ref[slot]; !ok || want != root {
				m.say("file-root", "%s has root %s for slot %s, it should be %s", n, root.Hex(), m.off(slot), want.Hex())
			}
			if !m.dry && slot > p.chain.LastSlot && slot == p.chain.LastSlot+m.s.size {
				m.say("saved-before-consolidated", "%s has the checkpoint of slot %s, the last consolidated slot is %s", n, m.off(slot), m.off(p.chain.LastSlot))
			}
		}
		if l > m.fin {
			m.say("file-beyond-finalized", "%s was saved at slot %s, finalized is %s", n, m.off(l), m.off(m.fin))
		}
	}
}

// target is where the chain has to get.
func (s *dScen) target(from uint64) uint64 {
	for s.isCp(from+s.size) && from+s.size <= s.end {
		from += s.size
	}
	return from
}

// final checks what a run that came to rest left behind. startLast is the last consolidated slot when the
// daemon was started.
func (m *dmon) final(res *dresult, startLast uint64) {
	if !m.dry {
		if want := m.s.target(startLast); res.chain.LastSlot != want {
			m.say("not-consolidated", "the daemon waits for ever: the last consolidated slot is %s and should be %s", m.off(res.chain.LastSlot), m.off(want))
			return
		}
		if res.chain.LastSlot != startLast && res.chain.Root != m.s.ref[res.chain.LastSlot] {
			m.say("wrong-root-consolidated", "root %s is consolidated for slot %s", res.chain.Root.Hex(), m.off(res.chain.LastSlot))
		}
	}
	for _, c := range m.s.cps {
		n := fmt.Sprintf("state_%d.json", c)
		got, ok := res.fold[n]
		if !ok {
			if c > startLast || m.dry && m.startF["state.json"] == "" {
				m.say("not-saved", "%s (slot %s) was never saved", n, m.off(c))
			}
			continue
		}
		if got != m.s.saved[c] {
			m.say("saved-differs", "%s (slot %s) differs from what an oracle that was never stopped saves: %s", n, m.off(c), firstDiff(got, m.s.saved[c]))
		}
	}
	last := m.s.cps[len(m.s.cps)-1]
	if got, ok := res.fold["state.json"]; !ok && m.synced && last <= startLast {
		// nothing was left to save
	} else if got != m.s.saved[last] {
		if _, cs, err := commits(got); err != nil || len(cs) == 0 || len(cs) != len(m.s.cps) {
			m.say("state-differs", "state.json has not all checkpoints at the end: %v %v", cs, err)
		} else if last > startLast {
			m.say("state-differs", "state.json differs from what an oracle that was never stopped saves: %s", firstDiff(got, m.s.saved[last]))
		}
	}
}

// othersVote lets other oracles vote for the next checkpoint if it is finalized.
func othersVote(s *dScen, f *FakeNode, wrong bool, who ...int) bool {
	c := f.LastSlot + s.size
	root, ok := s.ref[c]
	if !ok || c > f.Finalized {
		return false
	}
	if wrong {
		root[5] ^= 0x41
	}
	was := f.saveChain().key()
	for _, i := range who {
		if f.LastSlot+s.size != c {
			break
		}
		if h, ok := f.Voted[dAddr[i]]; ok && h == reportHash(c, root) {
			continue
		}
		f.vote(dAddr[i], c, root)
	}
	return was != f.saveChain().key()
}

// envActs are the changes of the chain that can happen at a request that observes it.
var envActs = map[string]func(s *dScen, f *FakeNode){
	"another oracle votes":                  func(s *dScen, f *FakeNode) { othersVote(s, f, false, 1) },
	"the other oracles vote":                func(s *dScen, f *FakeNode) { othersVote(s, f, false, 1, 2) },
	"another oracle votes a wrong root":     func(s *dScen, f *FakeNode) { othersVote(s, f, true, 1) },
	"one more slot is finalized":            func(s *dScen, f *FakeNode) { f.Finalized = min(f.Finalized+1, s.end) },
	"six more slots are finalized":          func(s *dScen, f *FakeNode) { f.Finalized = min(f.Finalized+6, s.end) },
	"the execution node is syncing":         func(s *dScen, f *FakeNode) { f.ELSyncing = true },
	"the consensus node is behind":          func(s *dScen, f *FakeNode) { f.SyncDistance = 6 },
	"the transaction reverts":               func(s *dScen, f *FakeNode) { f.TxMode = "revert" },
	"the transaction is refused":            func(s *dScen, f *FakeNode) { f.TxMode = "refused" },
	"gas cannot be estimated":               func(s *dScen, f *FakeNode) { f.EstErr = "execution reverted" },
	"the answer to the transaction is lost": nil, // fault "reset" on the answer
}

type dbase struct {
	scen   *dScen
	last   uint64 // last consolidated slot at first
	dry    bool
	quorum uint64
	voted  bool // the daemon already voted for the next checkpoint
	fin    uint64
	acts   []string
}

func (b dbase) String() string {
	return fmt.Sprintf("scenario %s, last consolidated D%+d, dry-run %v, quorum %d of 3, already voted %v, finalized D%+d", b.scen.name, int64(b.last)-int64(b.scen.d), b.dry, b.quorum, b.voted, int64(b.fin)-int64(b.scen.d))
}

// placed is an action at the k-th observing request.
type placed struct {
	K   int
	Act string
}

// dreport is what is kept for a violation.
type dreport struct {
	Base    string
	Actions []string
	Started any
	Trace   []string
	Log     []string
}

// c21run runs the daemon (and restarts it while it exits) with actions placed at observing requests, or with
// a fault at one request.
func c21run(r *Run, b *dbed, base dbase, acts []placed, faultAt int, fault string) (reqs []string, kinds []FReq, out string) {
	s, f := base.scen, b.f
	f.mu.Lock()
	f.QuorumN = base.quorum
	f.LastSlot, f.Root, f.Finalized = base.last, common.Hash{9}, base.fin
	f.Voted, f.Reports, f.nonce = map[common.Address]common.Hash{}, map[common.Hash]*Report{}, map[common.Address]uint64{}
	f.ELSyncing, f.SyncDistance = false, 0
	if base.voted {
		f.vote(dAddr[0], base.last+s.size, s.ref[base.last+s.size])
	}
	p := &pstate{chain: f.saveChain(), fold: folder{}}
	f.mu.Unlock()
	mayExit := fault != ""
	for _, a := range acts {
		switch a.Act {
		case "the transaction reverts", "the transaction is refused", "gas cannot be estimated", "the answer to the transaction is lost":
			mayExit = true
		}
	}
	startLast := base.last
	var trace []string
	k := 0
	nreq := 0
	exits := 0
	var m *dmon
	report := func(res *dresult) {
		var as []string
		for _, a := range acts {
			as = append(as, fmt.Sprintf("at observing request %d: %s", a.K, a.Act))
		}
		if fault != "" {
			as = append(as, fmt.Sprintf("fault %s at request %d", fault, faultAt))
		}
		tr := append(append([]string{}, trace...), res.trace...)
		if len(tr) > 400 {
			tr = tr[len(tr)-400:]
		}
		for i := 0; i+1 < len(m.bad); i += 2 {
			r.violate(m.bad[i], "C21: "+m.bad[i+1]+" ("+base.String()+"; "+strings.Join(as, ", ")+")", dreport{base.String(), as, p.describe(s), tr, tail(res.log, 40)})
		}
	}
	for life := 0; ; life++ {
		m = &dmon{s: s, f: f, dry: base.dry, startF: p.fold, fin: 0}
		nextFault := ""
		pl := &dplan{dryRun: base.dry}
		pl.at = func(n int, e *devent) action {
			if e.kind == "sleep" {
				f.mu.Lock()
				f.ELSyncing, f.SyncDistance = false, 0
				f.mu.Unlock()
			}
			if e.kind != "req" {
				return goOn
			}
			f.mu.Lock()
			defer f.mu.Unlock()
			if life == 0 || len(acts) > 1 {
				if observing(e.req) {
					k++
					reqs = append(reqs, e.req.Kind)
					for _, a := range acts {
						if a.K == k {
							if fn := envActs[a.Act]; fn != nil {
								fn(s, f)
							} else {
								nextFault = "lost"
							}
						}
					}
				}
			}
			if life == 0 {
				nreq++
				kinds = append(kinds, e.req)
				if fault != "" && nreq == faultAt {
					nextFault = fault
				}
			}
			m.onEvent(e)
			return goOn
		}
		pl.idle = func() bool {
			f.mu.Lock()
			defer f.mu.Unlock()
			if f.Finalized < s.end {
				f.Finalized = s.end
				return true
			}
			// with a quorum of 2 one other oracle votes in the end: the daemon is needed for every checkpoint
			return base.quorum > 1 && othersVote(s, f, false, 1)
		}
		f.mu.Lock()
		f.OnTx = m.onTx
		f.Hook = func(q FReq) string { x := nextFault; nextFault = ""; return x }
		f.mu.Unlock()
		res := b.start(p, pl)
		r.Transitions.Add(int64(res.events))
		if res.err != "" {
			m.say("hang", "the daemon hangs: %s", res.err)
			report(res)
			return reqs, kinds, "hang"
		}
		for _, sn := range res.snaps {
			m.files(sn)
		}
		if res.exit != "" {
			exits++
			if fault == "" && (strings.Contains(res.log, "panic:") || strings.Contains(res.log, "fatal error:")) {
				m.say("panic", "the daemon panics: %s", panicLine(res.log))
			} else if !mayExit {
				m.say("exit", "the daemon exits although nothing failed: %s: %s", res.exit, strings.Join(tail(res.log, 1), ""))
			} else if life >= 3 {
				m.say("exit-again", "the daemon exits again and again, the last %d times without any failure: %s", life, strings.Join(tail(res.log, 1), ""))
			}
		} else {
			m.final(res, startLast)
		}
		if len(m.bad) > 0 {
			report(res)
			return reqs, kinds, "bad"
		}
		if res.exit == "" {
			r.Evals.Add(1)
			return reqs, kinds, fmt.Sprintf("rests after %d exits, %d transactions in the last life", exits, m.txs)
		}
		trace = append(trace, res.trace...)
		trace = append(trace, "---- exits: "+res.exit)
		p = &pstate{fold: res.fold, chain: res.chain}
	}
}

func panicLine(log string) string {
	for _, l := range strings.Split(log, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return ""
}

// bedPool hands out one bed per scenario to each worker.
type bedPool struct {
	mu   sync.Mutex
	free map[*dScen][]*dbed
	all  []*dbed
}

func (p *bedPool) get(s *dScen) *dbed {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l := p.free[s]; len(l) > 0 {
		p.free[s] = l[:len(l)-1]
		return l[len(l)-1]
	}
	b := newDbed(s, len(p.all))
	p.all = append(p.all, b)
	return b
}
func (p *bedPool) put(b *dbed) { p.mu.Lock(); p.free[b.s] = append(p.free[b.s], b); p.mu.Unlock() }
func (p *bedPool) close() {
	for _, b := range p.all {
		b.close()
	}
}

func runC21(r *Run) {
	setupDaemonCast()
	long, short, late := longScen(), shortScen(), lateScen()
	for _, s := range []*dScen{long, short, late} {
		if err := s.prepare(); err != nil {
			r.violate("reference", fmt.Sprintf("C21: an oracle that processes scenario %s slot by slot does not get through: %v", s.name, err), nil)
			return
		}
	}
	pool := &bedPool{free: map[*dScen][]*dbed{}}
	defer pool.close()
	votes := []string{"another oracle votes", "the other oracles vote"}
	wrong := append([]string{"another oracle votes a wrong root"}, votes...)
	fin := []string{"one more slot is finalized", "six more slots are finalized"}
	sync_ := []string{"the execution node is syncing", "the consensus node is behind"}
	fails := []string{"the transaction reverts", "the transaction is refused", "gas cannot be estimated", "the answer to the transaction is lost"}
	cat := func(ls ...[]string) (o []string) {
		for _, l := range ls {
			o = append(o, l...)
		}
		return
	}
	d := long.d
	bases := []dbase{
		{long, d, false, 1, false, long.end, cat(votes, sync_, fails)},
		{long, d, false, 2, false, long.end, cat(wrong, fails)},
		{long, d, false, 2, true, long.end, cat(wrong, fails)},
		{long, d, true, 1, false, long.end, cat(votes, sync_)},
		{long, d, false, 1, false, d + 4, cat(fin, votes)},
		{long, d, false, 2, false, d + 6, cat(fin, wrong)},
		{long, 0, false, 1, false, long.end, nil},
		{long, d + 2, false, 2, false, long.end, nil},
		{long, d + 4, false, 2, false, long.end, wrong},
		{long, d + 4, false, 2, true, long.end, wrong},
		{long, d + 8, false, 1, false, long.end, votes},
		{long, d + 8, false, 2, true, d + 9, cat(wrong, fin)},
		{long, d + 12, false, 1, false, long.end, votes},
		{long, d + 12, true, 1, false, d + 3, fin},
		{short, short.d, false, 2, false, short.end, cat(wrong, fails)},
		{short, short.d - 2, false, 1, false, short.end, cat(votes, fails)},
		{short, short.d - 2, false, 2, true, short.d, cat(wrong, fin)},
		{late, late.d + 3, false, 1, false, late.end, cat(votes, sync_)},
		{late, late.d + 3, false, 2, false, late.d + 5, cat(wrong, fin)},
		{late, late.d, false, 1, false, late.end, votes},
	}
	type job struct {
		base    dbase
		acts    []placed
		faultAt int
		fault   string
	}
	var jobs []job
	var mu sync.Mutex
	out := map[string]int64{}
	run := func(j job) ([]string, []FReq) {
		b := pool.get(j.base.scen)
		defer pool.put(b)
		reqs, kinds, o := c21run(r, b, j.base, j.acts, j.faultAt, j.fault)
		mu.Lock()
		out[o]++
		mu.Unlock()
		r.States.Add(1)
		return reqs, kinds
	}
	// without any action first: this says where actions can be placed
	baseReqs := make([][]string, len(bases))
	baseKinds := make([][]FReq, len(bases))
	parallel(len(bases), func(_, i int) { baseReqs[i], baseKinds[i] = run(job{base: bases[i]}) })
	okAt := func(act, kind string) bool {
		switch act {
		case "the transaction reverts", "the transaction is refused", "the answer to the transaction is lost":
			return kind == "eth_sendRawTransaction"
		case "gas cannot be estimated":
			return kind == "eth_estimateGas:submitReport"
		case "the execution node is syncing":
			return kind == "eth_syncing"
		case "the consensus node is behind":
			return kind == "syncing"
		case "one more slot is finalized", "six more slots are finalized":
			return kind == "headers"
		}
		return true
	}
	single := 0
	for i, b := range bases {
		if !r.thorough() && (i == 2 || i == 5 || i == 9 || i == 11 || i == 13 || i == 18) {
			continue
		}
		for k, kind := range baseReqs[i] {
			for _, a := range b.acts {
				if okAt(a, kind) {
					jobs = append(jobs, job{base: b, acts: []placed{{k + 1, a}}})
					single++
				}
			}
		}
	}
	r.bound("single actions", single)
	// a fault at every request of a run
	nf := 0
	for _, i := range []int{0, 3, 5} {
		for k, q := range baseKinds[i] {
			fs := faultsFor(q)
			if !r.thorough() {
				if i != 0 {
					continue
				}
				var few []string
				for _, x := range fs {
					switch x {
					case "500", "cuthead", "{}", "rpc-null", "null-data":
						few = append(few, x)
					}
				}
				fs = few
			}
			for _, x := range fs {
				if q.Kind == "eth_getTransactionReceipt" && i != 0 { // the daemon polls once a second
					continue
				}
				if !faultTold(q, x) {
					continue
				}
				jobs = append(jobs, job{base: bases[i], faultAt: k + 1, fault: x})
				nf++
			}
		}
	}
	r.bound("faults at single requests", nf)
	// pairs of actions, in the short scenario
	pairs := 0
	if r.thorough() {
		for _, i := range []int{14, 16, 15} {
			b := bases[i]
			for k1, q1 := range baseReqs[i] {
				for k2 := k1; k2 < len(baseReqs[i])+6; k2++ {
					for _, a1 := range b.acts {
						for _, a2 := range b.acts {
							if !okAt(a1, q1) || k2 < len(baseReqs[i]) && !okAt(a2, baseReqs[i][k2]) && !strings.Contains(a2, "the transaction") {
								continue
							}
							if k1 == k2 && a1 == a2 {
								continue
							}
							jobs = append(jobs, job{base: b, acts: []placed{{k1 + 1, a1}, {k2 + 1, a2}}})
							pairs++
						}
					}
				}
			}
		}
	}
	r.bound("pairs of actions", pairs)
	if os.Getenv("VH_LOG") != "" {
		fmt.Println(len(jobs), "jobs")
	}
	done := 0
	parallel(len(jobs), func(_, i int) {
		if r.stop() || r.expired() {
			return
		}
		run(jobs[i])
		mu.Lock()
		done++
		mu.Unlock()
	})
	r.addOutcomes(out)
	r.bound("bases", len(bases))
	r.bound("runs of the daemon process planned", len(jobs)+len(bases))
	r.put("runs done", done+len(bases))
	sort.Strings(r.notes)
	r.note("transactions are mined at once, or fail; a transaction that stays pending for long is left out")
	r.note("actions of the environment are placed only at requests whose answer can depend on them: at any other point they commute with what the daemon does")
	r.sample(bases[1].String())
}

// faultTold is false for answers that the daemon cannot tell from proper ones: that a transaction was taken
// is told by any answer that is not an error.
func faultTold(q FReq, x string) bool {
	return q.Kind != "eth_sendRawTransaction" || x != "rpc-null"
}
