package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/common"
)

func init() {
	register("C22", "model_checking", runC22)
}

// rscen is one family of histories: a chain, a quorum, and how the daemon is started.
type rscen struct {
	scen   *dScen
	quorum uint64
	name   string
	start  []rnode
	term   int  // signals in one history
	inter  bool // the main loop goes on while the signal is handled
	others bool // other oracles consolidate a checkpoint while the daemon is down
}

// rreport is what is kept for a violation.
type rreport struct {
	Family  string
	Started any
	Action  string
	Trace   []string
	Log     []string
}

type c22 struct {
	r    *Run
	pool *bedPool
	mu   sync.Mutex
	out  map[string]int64
}

func (x *c22) count(o string) {
	x.mu.Lock()
	x.out[o]++
	x.mu.Unlock()
}

// life is one life of the daemon from a persistent state.
func (x *c22) life(rs *rscen, p *pstate, url string, term int, inter map[int]int, what string) (*dresult, bool) {
	b := x.pool.get(rs.scen)
	defer x.pool.put(b)
	s, f := rs.scen, b.f
	f.mu.Lock()
	f.QuorumN = rs.quorum
	f.ELSyncing, f.SyncDistance = false, 0
	f.mu.Unlock()
	m := &dmon{s: s, f: f, startF: p.fold, synced: url != ""}
	pl := &dplan{syncURL: url, inter: inter}
	top, stopped := uint64(0), false
	pl.see = func(e *devent) {
		f.mu.Lock()
		defer f.mu.Unlock()
		if e.kind == "req" {
			m.onEvent(e)
			if e.req.Kind == "block" && !stopped {
				var slot uint64
				fmt.Sscan(e.req.Arg, &slot)
				if slot != s.d || top != 0 { // the deployment block is also asked for at the start
					top = max(top, slot)
				} else {
					top = 1
				}
			}
		}
	}
	pl.at = func(n int, e *devent) action {
		if n == term {
			stopped = true
			return doTerm
		}
		return goOn
	}
	pl.idle = func() bool {
		f.mu.Lock()
		defer f.mu.Unlock()
		return rs.quorum > 1 && othersVote(s, f, false, 1)
	}
	f.mu.Lock()
	f.OnTx = m.onTx
	f.Hook = nil
	f.mu.Unlock()
	t0 := time.Now()
	res := b.start(p, pl)
	if d := time.Since(t0); d > 2*time.Second && os.Getenv("VH_LOG") != "" {
		fmt.Println("slow", d, what, tail(strings.Join(res.trace, "\n"), 2), res.blocked, res.steps, tail(res.log, 2))
	}
	x.r.Transitions.Add(int64(res.events))
	x.r.Evals.Add(1)
	switch {
	case res.err != "":
		m.say("hang", "the daemon hangs: %s", res.err)
	case strings.Contains(res.log, "panic:") || strings.Contains(res.log, "fatal error:"):
		m.say("panic", "the daemon panics: %s", panicLine(res.log))
	case term == 0 && res.exit != "":
		m.say("exit", "the daemon exits although nothing failed: %s: %s", res.exit, strings.Join(tail(res.log, 1), ""))
	case term == 0:
		for _, sn := range res.snaps {
			m.files(sn)
		}
		m.final(res, p.chain.LastSlot)
		x.count(fmt.Sprintf("ran to the end, %d transactions", m.txs))
	case res.exit == "signal: terminated":
		x.count("the signal came before it was waited for")
	case res.exit == "":
		x.count("the run was over before the signal")
	case res.exit != "exit status 0":
		m.say("signal-exit", "the daemon does not stop properly on a signal: %s: %s", res.exit, strings.Join(tail(res.log, 1), ""))
	default:
		x.count("stopped by a signal")
		// files of a stopped daemon: right roots, no processed slot lost
		for n, c := range res.fold {
			if !strings.HasSuffix(n, ".json") {
				continue
			}
			_, cs, err := commits(c)
			if err != nil {
				m.say("file-broken", "%s cannot be read: %v", n, err)
				continue
			}
			for slot, root := range cs {
				if want, ok := s.ref[slot]; !ok || want != root {
					m.say("file-root", "%s has root %s for slot %s, it should be %s", n, root.Hex(), m.off(slot), want.Hex())
				}
			}
		}
		c, ok := res.fold["state.json"]
		l, _, _ := commits(c)
		if !ok {
			m.say("not-saved-on-signal", "the daemon stops on a signal without a saved state")
		} else if top > 1 && l+1 < top {
			m.say("slots-lost", "the block of slot %s was fetched before the signal, but the saved state is of slot %s", m.off(top), m.off(l))
		}
	}
	if len(m.bad) > 0 {
		tr := res.trace
		if len(tr) > 300 {
			tr = tr[len(tr)-300:]
		}
		for i := 0; i+1 < len(m.bad); i += 2 {
			x.r.violate(m.bad[i], "C22: "+m.bad[i+1]+" ("+rs.name+"; start: "+strings.Join(p.how, "; ")+"; "+what+")", rreport{rs.name, p.describe(s), what, tr, tail(res.log, 60)})
		}
		return res, false
	}
	return res, true
}

// node is what a life starts from: a persistent state, the state served by another oracle if any.
type rnode struct {
	p     *pstate
	url   string
	terms int
}

func (x *c22) family(rs *rscen) (states int) {
	r := x.r
	seen := map[string]bool{}
	var next []rnode
	add := func(n rnode) {
		k := n.p.key() + "|" + n.url
		x.mu.Lock()
		defer x.mu.Unlock()
		if !seen[k] {
			seen[k] = true
			next = append(next, n)
		}
	}
	for _, n := range rs.start {
		add(n)
	}
	how := func(p *pstate, what string) []string { return append(append([]string{}, p.how...), what) }
	for len(next) > 0 && !r.stop() && !r.expired() {
		layer := next
		next = nil
		runs := make([]*dresult, len(layer))
		parallel(len(layer), func(_, i int) {
			n := layer[i]
			if r.stop() || r.expired() {
				return
			}
			res, ok := x.life(rs, n.p, n.url, 0, nil, "runs until it only waits")
			if !ok {
				return
			}
			runs[i] = res
			r.States.Add(1)
			for j, sn := range res.snaps {
				sn.how = how(n.p, fmt.Sprintf("killed after change %d", j))
				add(rnode{sn, "", n.terms})
			}
			if rs.others {
				c := n.p.chain.LastSlot + rs.scen.size
				if root, ok := rs.scen.ref[c]; ok {
					q := &pstate{fold: n.p.fold, chain: n.p.chain.clone(), how: how(n.p, fmt.Sprintf("others consolidate slot D%+d meanwhile", int64(c)-int64(rs.scen.d)))}
					q.chain.LastSlot, q.chain.Root = c, root
					q.chain.Reports = map[common.Hash]Report{}
					add(rnode{q, n.url, n.terms})
				}
			}
		})
		// a signal at every event of these runs
		type job struct{ i, at int }
		var jobs []job
		for i, n := range layer {
			if runs[i] == nil || n.terms >= rs.term || len(n.p.how) > r.pick(1, 2) {
				continue
			}
			for at := 1; at <= runs[i].events; at++ {
				jobs = append(jobs, job{i, at})
			}
		}
		parallel(len(jobs), func(_, k int) {
			if r.stop() || r.expired() {
				return
			}
			j := jobs[k]
			n := layer[j.i]
			res, ok := x.life(rs, n.p, n.url, j.at, nil, fmt.Sprintf("signal at event %d", j.at))
			if !ok {
				return
			}
			end := func(res *dresult, what string) {
				add(rnode{&pstate{fold: res.fold, chain: res.chain, how: how(n.p, what)}, "", n.terms + 1})
			}
			end(res, fmt.Sprintf("signal at event %d", j.at))
			if !rs.inter {
				return
			}
			for s := 1; s <= res.steps; s++ {
				for _, b := range interSteps(r) {
					if j.at+b > runs[j.i].events {
						break
					}
					what := fmt.Sprintf("signal at event %d, %d more events before statement %d of what handles it", j.at, b, s)
					if res, ok := x.life(rs, n.p, n.url, j.at, map[int]int{s: b}, what); ok {
						end(res, what)
					}
				}
			}
		})
	}
	return len(seen)
}

func interSteps(r *Run) []int {
	if r.thorough() {
		return []int{1, 4, 12, 30}
	}
	return []int{12}
}

// dryFolder is the folder of an oracle that processed everything without reporting.
func dryFolder(s *dScen) folder {
	f := folder{}
	for _, c := range s.cps {
		f[fmt.Sprintf("state_%d.json", c)] = s.saved[c]
		f["state.json"] = s.saved[c]
	}
	return f
}

func runC22(r *Run) {
	setupDaemonCast()
	long, short, late := longScen(), shortScen(), lateScen()
	for _, s := range []*dScen{long, short, late} {
		if err := s.prepare(); err != nil {
			r.violate("reference", fmt.Sprintf("C22: an oracle that processes scenario %s slot by slot does not get through: %v", s.name, err), nil)
			return
		}
	}
	x := &c22{r: r, pool: &bedPool{free: map[*dScen][]*dbed{}}, out: map[string]int64{}}
	defer x.pool.close()
	chain := func(s *dScen, last uint64) chainSt {
		c := chainSt{LastSlot: last, Root: common.Hash{9}, Finalized: s.end}
		if h, ok := s.ref[last]; ok {
			c.Root = h
		}
		return c
	}
	fresh := func(s *dScen, last uint64) []rnode {
		return []rnode{{p: &pstate{fold: folder{}, chain: chain(s, last), how: []string{"empty folder"}}}}
	}
	served := map[string]string{}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if b, ok := served[q.URL.Path]; ok {
			w.Write([]byte(b))
		} else {
			w.WriteHeader(404)
		}
	}))
	defer srv.Close()
	var fams []*rscen
	first := func(s *dScen) uint64 { return s.cps[0] - s.size }
	fams = append(fams,
		&rscen{scen: short, quorum: 1, name: "short chain, quorum 1", start: fresh(short, first(short)), term: 2, others: true},
		&rscen{scen: short, quorum: 2, name: "short chain, quorum 2", start: fresh(short, first(short)), term: 1, others: true},
		&rscen{scen: late, quorum: 2, name: "late chain, quorum 2", start: fresh(late, first(late)), term: 1, others: true},
		&rscen{scen: long, quorum: 1, name: "long chain, quorum 1", start: fresh(long, first(long)), term: 1, others: true},
		&rscen{scen: long, quorum: 2, name: "long chain, quorum 2", start: fresh(long, first(long)), term: 0, others: true},
		&rscen{scen: short, quorum: 2, name: "short chain, quorum 2, the daemon goes on while it handles the signal", start: fresh(short, first(short)), term: 1, inter: true},
	)
	// states from elsewhere: ahead of the chain, or served by another oracle
	for _, s := range []*dScen{long, short, late} {
		ahead := &rscen{scen: s, quorum: 1, name: s.name + " chain, state ahead of the chain"}
		for last := first(s); last <= s.cps[len(s.cps)-1]; last += s.size {
			d := dryFolder(s)
			ahead.start = append(ahead.start, rnode{p: &pstate{fold: d, chain: chain(s, last), how: []string{"folder of a dry run"}}})
			for n := range d { // some files are missing
				if n == "state.json" {
					continue
				}
				e := folder{}
				for k, v := range d {
					if k != n {
						e[k] = v
					}
				}
				ahead.start = append(ahead.start, rnode{p: &pstate{fold: e, chain: chain(s, last), how: []string{"folder of a dry run without " + n}}})
			}
			ahead.start = append(ahead.start, rnode{p: &pstate{fold: folder{"state.json": d["state.json"]}, chain: chain(s, last), how: []string{"only the state.json of a dry run"}}})
		}
		synced := &rscen{scen: s, quorum: 1, name: s.name + " chain, checkpoint sync"}
		for _, c := range s.cps {
			path := fmt.Sprintf("/%s/%d", s.name, c)
			served[path] = s.saved[c]
			for last := first(s); last <= s.cps[len(s.cps)-1]; last += s.size {
				for _, d := range []folder{{}, dryFolder(s)} {
					p := &pstate{fold: d, chain: chain(s, last), how: []string{fmt.Sprintf("checkpoint sync from a state of slot D%+d, %d files", int64(c)-int64(s.d), len(d))}}
					synced.start = append(synced.start, rnode{p: p, url: srv.URL + path})
				}
			}
		}
		fams = append(fams, ahead, synced)
	}
	total := 0
	// the cheap ones first
	sort.SliceStable(fams, func(i, j int) bool { return fams[i].term < fams[j].term })
	for _, rs := range fams {
		if r.stop() || r.expired() {
			break
		}
		n := x.family(rs)
		total += n
		if os.Getenv("VH_LOG") != "" {
			fmt.Println(rs.name, n, "persistent states; runs so far", r.Evals.Load())
		}
	}
	r.addOutcomes(x.out)
	r.bound("families", len(fams))
	r.put("persistent states", total)
	r.note("a kill is taken at every change of the state folder or of the chain, with what is on disk then; what a crash inside a save leaves is C14")
	r.note("a signal is sent at every statement of package main, every request and every sleep of the uninterrupted run")
}
