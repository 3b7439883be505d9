package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/dappnode/mev-sp-oracle/zz_verif/vshim"
	"github.com/ethereum/go-ethereum/common"
)

func init() {
	registerSharded("C23", "model_checking", runC23)
	registerSharded("C24", "model_checking", runC24)
}

// cenv is what the calls of one run work on.
type cenv struct {
	o   *oracle.Oracle
	bed *apiBed // with an API on it
	cfg *oracle.Config
}

// cop is one call; it returns all that its caller sees.
type cop struct {
	name string
	run  func(e *cenv) string
}

// cbase is the state and folder a run starts from.
type cbase struct {
	name   string
	o      *oracle.Oracle
	folder map[string]string
	broken bool // the state folder cannot be created
}

type cscen struct {
	base    *cbase
	threads [][]cop
}

func (s *cscen) String() string {
	var l []string
	for _, t := range s.threads {
		var n []string
		for _, c := range t {
			n = append(n, c.name)
		}
		l = append(l, strings.Join(n, ", "))
	}
	return s.base.name + ": [" + strings.Join(l, "] || [") + "]"
}

// chist is one run: results and intervals of the calls, and what is left at the end.
type chist struct {
	res      [][]string
	from, to [][]int
	end      string
}

type cexp struct {
	r    *Run
	env  *cenv
	last string
}

// reset puts the start state in place.
func (x *cexp) reset(b *cbase) {
	c := deepClone(b.o)
	reflect.ValueOf(x.env.o).Elem().Set(reflect.ValueOf(c).Elem())
	os.RemoveAll(oracle.StateFolder)
	if b.broken {
		os.WriteFile(oracle.StateFolder, []byte("not a folder"), 0644)
	}
	if len(b.folder) > 0 {
		os.MkdirAll(oracle.StateFolder, 0777)
		for n, c := range b.folder {
			os.WriteFile(filepath.Join(oracle.StateFolder, n), []byte(c), 0644)
		}
	}
}

// left describes the oracle and the folder at the end of a run.
func (x *cexp) left() string {
	k := stateKey(realState(x.env.o), nil)
	c := stateKey(realCfg(x.env.o), nil)
	s := fmt.Sprintf("state %x config %x", k, c)
	fo := readFolder(oracle.StateFolder)
	for _, n := range fo.names() {
		s += fmt.Sprintf(" %s %s", n, folder{"": fo[n]}.key())
	}
	return s
}

func callOp(c cop, e *cenv) (out string) {
	how := guard(func() { out = c.run(e) })
	if how != "" {
		return firstLine(how)
	}
	return out
}

// sequential runs every merge of the threads' calls one after another.
func (x *cexp) sequential(sc *cscen) (hs []*chist, orders [][]int, stuck string) {
	var rec func(order []int, pos []int)
	rec = func(order []int, pos []int) {
		full := true
		for t := range sc.threads {
			if pos[t] < len(sc.threads[t]) {
				full = false
				p := append([]int{}, pos...)
				p[t]++
				rec(append(append([]int{}, order...), t), p)
			}
		}
		if full {
			x.reset(sc.base)
			h := &chist{res: make([][]string, len(sc.threads))}
			p := make([]int, len(sc.threads))
			s := vshim.RunThreads(nil, false, 20*time.Second, func(s *vshim.Sched) {
				for _, t := range order {
					h.res[t] = append(h.res[t], callOp(sc.threads[t][p[t]], x.env))
					p[t]++
				}
			})
			if s.Deadlock+s.Hang != "" {
				if stuck == "" {
					stuck = fmt.Sprintf("a call never ends although the calls are made one after another, in the order %v: %s", order, s.Deadlock+s.Hang)
				}
				return
			}
			h.end = x.left()
			hs = append(hs, h)
			orders = append(orders, order)
		}
	}
	rec(nil, make([]int, len(sc.threads)))
	return
}

// concurrent runs the threads under the choices.
func (x *cexp) concurrent(sc *cscen, prefix []int, steps bool) (*vshim.Sched, *chist) {
	x.reset(sc.base)
	h := &chist{res: make([][]string, len(sc.threads)), from: make([][]int, len(sc.threads)), to: make([][]int, len(sc.threads))}
	var fns []func(s *vshim.Sched)
	for t := range sc.threads {
		fns = append(fns, func(s *vshim.Sched) {
			for _, c := range sc.threads[t] {
				h.from[t] = append(h.from[t], s.Mark())
				res := callOp(c, x.env)
				h.res[t] = append(h.res[t], res)
				h.to[t] = append(h.to[t], s.Mark())
			}
		})
	}
	s := vshim.RunThreads(prefix, steps, 20*time.Second, fns...)
	return s, h
}

// explains says whether the calls of h could have been executed one after another in the order.
func explains(h, seq *chist, order []int) bool {
	if h.end != seq.end {
		return false
	}
	for t := range h.res {
		for i := range h.res[t] {
			if h.res[t][i] != seq.res[t][i] {
				return false
			}
		}
	}
	// a call that ended before another one began comes first
	pos := make([]int, len(h.res))
	begun := -1
	for _, t := range order {
		if h.to[t][pos[t]] < begun {
			return false
		}
		begun = max(begun, h.from[t][pos[t]])
		pos[t]++
	}
	return true
}

type creport struct {
	Threads  string
	Choices  []int
	Steps    bool
	Results  [][]string
	End      string
	Possible []*chist
}

// explore runs every schedule of the scenario within the bound of preemptions (negative: all).
func (x *cexp) explore(sc *cscen, steps bool, bound int, check func(h *chist) (sig, what string)) (runs int64, out map[string]int64) {
	r := x.r
	out = map[string]int64{}
	seqs, orders, stuck := x.sequential(sc)
	if stuck != "" {
		r.violate("stuck", fmt.Sprintf("%s: %s (%s)", r.Prop, stuck, sc), creport{Threads: sc.String()})
		return
	}
	r.States.Add(int64(len(seqs)))
	var prefix []int
	var odd int64
	for !r.stop() && !r.expired() {
		s, h := x.concurrent(sc, prefix, steps)
		runs++
		r.Evals.Add(1)
		r.Transitions.Add(int64(len(s.Points)))
		for i, c := range prefix {
			if i >= len(s.Points) || s.Points[i].Chosen != c {
				odd++
				break
			}
		}
		choices := make([]int, len(s.Points))
		for i, p := range s.Points {
			choices[i] = p.Chosen
		}
		fail := func(sig, what string) {
			gran := "switching at locks"
			if steps {
				gran = "switching at any statement"
			}
			r.violate(sig, fmt.Sprintf("%s: %s (%s; %s, %d switches of a running thread)", r.Prop, what, sc, gran, s.Preempts), creport{sc.String(), choices, steps, shorten(h.res), h.end, shortSeqs(seqs)})
		}
		switch {
		case s.Deadlock != "":
			fail("deadlock", "the calls wait for each other for ever: "+s.Deadlock)
			out["deadlock"]++
		case s.Hang != "":
			s2, _ := x.concurrent(sc, choices, steps)
			if s2.Hang != "" {
				fail("hang", s.Hang)
			}
			out["hang"]++
			return
		default:
			found := -1
			h.end = x.left()
			for i := range seqs {
				if explains(h, seqs[i], orders[i]) {
					found = i
					break
				}
			}
			if found < 0 {
				fail("not-atomic", "the results are those of no order of the calls one after another")
				out["not atomic"]++
			} else {
				out["as if in one of the orders"]++
			}
			if check != nil {
				if sig, what := check(h); sig != "" {
					fail(sig, what)
				}
			}
		}
		i := len(s.Points) - 1
		for ; i >= 0; i-- {
			p := s.Points[i]
			if p.Chosen+1 >= p.N {
				continue
			}
			cost := p.Preempt
			if p.Cur {
				cost++
			}
			if bound < 0 || cost <= bound {
				break
			}
		}
		if i < 0 {
			break
		}
		prefix = append(append([]int{}, choices[:i]...), s.Points[i].Chosen+1)
	}
	if odd > 0 {
		out["schedule did not repeat"] += odd
	}
	return
}

func shorten(l [][]string) (o [][]string) {
	for _, t := range l {
		var n []string
		for _, s := range t {
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			n = append(n, s)
		}
		o = append(o, n)
	}
	return
}

func shortSeqs(l []*chist) (o []*chist) {
	for i, h := range l {
		if i == 6 {
			break
		}
		o = append(o, &chist{res: shorten(h.res), end: h.end})
	}
	return
}

func (h *chist) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]any{"results": h.res, "end": h.end})
}

// ---------------------------------------------------------------- the calls

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + err.Error()
}

func keyOf(x any) string { return fmt.Sprintf("%x", stateKey(x, nil)) }

func opAdvance(name string, w *World, b *Blk) cop {
	return cop{"process " + name, func(e *cenv) string {
		slot, err := e.o.AdvanceStateToNextSlot(b.full(w.Chain))
		return fmt.Sprint(slot, " ", errStr(err))
	}}
}

var (
	opFreeze   = cop{"freeze", func(e *cenv) string { return fmt.Sprint(e.o.FreezeCheckpoint()) }}
	opSaveSlot = cop{"save with a copy", func(e *cenv) string { return errStr(e.o.SaveToJson(true)) }}
	opSave     = cop{"save", func(e *cenv) string { return errStr(e.o.SaveToJson(false)) }}
	opSnap     = cop{"snapshot", func(e *cenv) string { return keyOf(e.o.Snapshot()) }}
	opHash     = cop{"state with hash", func(e *cenv) string {
		s, err := e.o.StateWithHash()
		if err != nil {
			return errStr(err)
		}
		return keyOf(s)
	}}
	opLatestSlot = cop{"latest slot", func(e *cenv) string { s, ok := e.o.LatestCommitedSlot(); return fmt.Sprint(s, ok) }}
	opLatest     = cop{"latest checkpoint", func(e *cenv) string {
		s := e.o.LatestCommitedState()
		if s == nil {
			return "none"
		}
		return keyOf(s)
	}}
	opIsCp   = cop{"is checkpoint", func(e *cenv) string { ok, err := e.o.IsCheckpoint(); return fmt.Sprint(ok, errStr(err)) }}
	opUnique = cop{"unique addresses", func(e *cenv) string {
		l := append([]string{}, e.o.GetUniqueWithdrawalAddresses()...)
		sort.Strings(l)
		return fmt.Sprint(l)
	}}
	opInSync = cop{"in sync with chain", func(e *cenv) string {
		ok, err := e.o.IsOracleInSyncWithChain("0x1234", 14082458)
		return fmt.Sprint(ok, errStr(err))
	}}
	opLoad  = cop{"load", func(e *cenv) string { ok, err := e.o.LoadFromJson(); return fmt.Sprint(ok, errStr(err)) }}
	opOther = cop{"another oracle loads the file", func(e *cenv) string {
		o := oracle.NewOracle(mkCfgCopy(e.cfg))
		ok, err := o.LoadFromJson()
		if err != nil || !ok {
			return fmt.Sprint(ok, errStr(err))
		}
		return keyOf(realState(o))
	}}
	opOffchain = cop{"offchain reconciliation", func(e *cenv) string { return errStr(e.o.RunOffchainReconciliation()) }}
)

// inScratch moves this process to a folder of its own.
func inScratch() func() {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "sched")
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	return func() { os.Chdir("/"); os.RemoveAll(dir) }
}

// schedOracle processes blocks and freezes at every even slot.
func schedOracle(cfg *oracle.Config, w *World, parts map[uint64][]Part, from, to uint64, freeze func(slot uint64) bool) *oracle.Oracle {
	o := oracle.NewOracle(mkCfgCopy(cfg))
	for slot := from; slot <= to; slot++ {
		w.attach(o, slot)
		if _, err := o.AdvanceStateToNextSlot(uniq(mkBlock(slot, parts[slot-from])).full(w.Chain)); err != nil {
			panic(err)
		}
		if freeze(slot) {
			o.FreezeCheckpoint()
		}
	}
	w.attach(o, to+1)
	return o
}

func savedFolder(o *oracle.Oracle) map[string]string {
	b, err := savedBytes(deepClone(o))
	if err != nil {
		panic(err)
	}
	return map[string]string{oracle.StateJsonName: string(b)}
}

func runC23(r *Run) {
	k, n := shard()
	defer inScratch()()
	rich := []Part{pSub(vC, 1000), pMevOK(vA, 7000), pUnsub(vB), pDon(5), pFee(500)}
	hist := map[uint64][]Part{0: {pSub(vA, 1000), pSub(vB, 1003)}, 1: {pMevOK(vA, 900), pDon(30)}, 2: {pVanillaOK(vB, 70)}, 3: {pMissed(vA)}}
	mk := func(d uint64, upto uint64, hist map[uint64][]Part) (*oracle.Oracle, *World, *oracle.Config) {
		cfg := mkCfg("mainnet", d, 700)
		cfg.CheckPointSizeInSlots = 2
		w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE)
		return schedOracle(cfg, w, hist, d, d+upto, func(s uint64) bool { return (s-d)%2 == 0 }), w, cfg
	}
	// the next slot has a scheduled change of the fee and is a checkpoint
	o1, w1, cfg1 := mk(14082456, 3, hist)
	good := savedFolder(o1)
	mid := &cbase{name: "some history", o: o1, folder: good}
	midBroken := &cbase{name: "some history, a broken state file", o: o1, folder: map[string]string{oracle.StateJsonName: good[oracle.StateJsonName][:300]}}
	midNone := &cbase{name: "some history, no state file", o: o1}
	midBad := &cbase{name: "some history, the folder cannot be made", o: o1, broken: true}
	next, after := uint64(14082460), uint64(14082461)
	// the next slot has a cleanup
	hist2 := map[uint64][]Part{0: {pSub(vA, 1000), pSub(vB, 1003), pSub(vC, 1000)}, 1: {pMevOK(vA, 900), pDon(30)}, 2: {pVanillaOK(vB, 70)}}
	exited := vB.with(func(u *UVal) { u.Status = v1.ValidatorStateExitedUnslashed; u.Eff = 0 })
	o2, w2, _ := mk(14083197, 2, hist2)
	w2.Beacon[vB.Idx] = exited
	w2.attach(o2, 14083200)
	clean := &cbase{name: "before a cleanup", o: o2}
	o3 := deepClone(o2)
	w3 := *w2
	w3.SetErr = true
	w3.attach(o3, 14083200)
	cleanFails := &cbase{name: "before a cleanup that fails", o: o3}
	fresh := &cbase{name: "nothing processed", o: oracle.NewOracle(mkCfgCopy(cfg1))}
	freshBlk := opAdvance("first block", w1, uniq(mkBlock(14082456, hist[0])))

	adv := opAdvance("next block", w1, uniq(mkBlock(next, rich)))
	adv2 := opAdvance("block after", w1, uniq(mkBlock(after, []Part{pVanillaOK(vA, 11)})))
	wrong := opAdvance("block of another slot", w1, uniq(mkBlock(next+7, rich)))
	refused := opAdvance("block with a fee that is not scheduled", w1, uniq(mkBlock(next, []Part{pDon(5), pFee(123)})))
	cleanup := opAdvance("block with a cleanup", w2, uniq(mkBlock(14083200, []Part{pDon(7)})))

	type prog struct {
		bases []*cbase
		ops   []cop
	}
	mids := []*cbase{mid}
	mains := []prog{
		{mids, []cop{adv}}, {mids, []cop{adv, opFreeze}}, {mids, []cop{adv, opIsCp, opFreeze, opLatest, opSaveSlot}}, {mids, []cop{wrong, adv}}, {mids, []cop{refused, opSaveSlot}},
		{mids, []cop{adv, adv2}}, {mids, []cop{opFreeze, opLatest}}, {mids, []cop{opSaveSlot}}, {[]*cbase{midBad}, []cop{opSaveSlot, adv}}, {[]*cbase{clean, cleanFails}, []cop{cleanup, opFreeze}},
		{[]*cbase{cleanFails}, []cop{cleanup, opUnique}}, {[]*cbase{mid, midBroken, midNone}, []cop{opLoad, adv}}, {mids, []cop{opOffchain, opUnique, adv}}, {[]*cbase{fresh}, []cop{freshBlk, opFreeze}},
		{mids, []cop{adv, opFreeze, opLatestSlot}},
	}
	apis := [][]cop{{opSnap}, {opHash}, {opSnap, opHash}, {opHash, opSnap}, {opLatestSlot, opLatest}, {opLatest}, {opIsCp, opUnique}, {opInSync}, {opHash, opHash}, {opOther}}
	sigs := [][]cop{nil, {opSave}}
	x := &cexp{r: r, env: &cenv{o: oracle.NewOracle(mkCfgCopy(cfg1)), cfg: cfg1}}
	var all []*cscen
	for _, m := range mains {
		for _, b := range m.bases {
			for _, a := range apis {
				for _, s := range sigs {
					th := [][]cop{m.ops, a}
					if s != nil {
						th = append(th, s)
					}
					all = append(all, &cscen{b, th})
				}
				if len(a) == 1 { // two clients
					for _, a2 := range apis {
						if len(a2) == 1 {
							all = append(all, &cscen{b, [][]cop{m.ops, a, a2}})
						}
					}
				}
			}
		}
	}
	out := map[string]int64{}
	add := func(m map[string]int64) {
		for k, v := range m {
			out[k] += v
		}
	}
	var locks, stmts, stmts2 int64
	for i, sc := range all {
		if i%n != k || r.stop() || r.expired() {
			continue
		}
		c, o := x.explore(sc, false, -1, nil)
		locks += c
		add(o)
	}
	// at statements: pairs of calls; in the thorough tier the longer programs too
	var pairs []*cscen
	seen := map[string]bool{}
	for _, m := range mains {
		for _, b := range m.bases {
			for _, op := range m.ops {
				for _, a := range append(append([][]cop{}, apis...), []cop{opSave}) {
					sc := &cscen{b, [][]cop{{op}, a[:1]}}
					if !seen[sc.String()] {
						seen[sc.String()] = true
						pairs = append(pairs, sc)
					}
				}
			}
		}
	}
	others := append(append([][]cop{}, apis...), []cop{opSave})
	for i, a := range others { // requests and the save against each other
		for _, a2 := range others[i:] {
			sc := &cscen{mid, [][]cop{a[:1], a2[:1]}}
			if !seen[sc.String()] {
				seen[sc.String()] = true
				pairs = append(pairs, sc)
			}
		}
	}
	for i, sc := range pairs {
		if i%n != k || r.stop() || r.expired() {
			continue
		}
		c, o := x.explore(sc, true, 1, nil)
		stmts += c
		add(o)
	}
	if r.thorough() {
		for i, sc := range all {
			if i%n != k || r.stop() || r.expired() {
				continue
			}
			c, o := x.explore(sc, true, 1, nil)
			stmts += c
			add(o)
		}
	}
	if r.thorough() {
		for i, sc := range pairs {
			if i%n != k || r.stop() || r.expired() {
				continue
			}
			c, o := x.explore(sc, true, 2, nil)
			stmts2 += c
			add(o)
		}
	}
	r.bound("programs", fmt.Sprintf("%d of 2 or 3 threads with 1 to 5 calls, and %d pairs of calls", len(all), len(pairs)))
	r.bound("schedules", "programs: all that switch threads at locks; pairs: all that switch a running thread once at any statement of the package (in the thorough tier twice, and the programs once)")
	out[fmt.Sprintf("schedules at locks")] += locks
	out[fmt.Sprintf("schedules at statements, one switch")] += stmts
	out[fmt.Sprintf("schedules at statements, two switches")] += stmts2
	r.addOutcomes(out)
	r.note("the lock of the oracle is replaced by one that the explorer drives and that keeps readers out while a writer waits, as Go's does")
	if len(all) > 0 {
		r.sample(all[2].String())
	}
}

// ---------------------------------------------------------------- C24

// canonJSON orders what has no order.
func canonJSON(b string) string {
	var v any
	d := json.NewDecoder(strings.NewReader(b))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return b
	}
	var walk func(v any) any
	walk = func(v any) any {
		switch x := v.(type) {
		case []any:
			var keys []string
			for i := range x {
				x[i] = walk(x[i])
				j, _ := json.Marshal(x[i])
				keys = append(keys, string(j))
			}
			sort.Strings(keys)
			return keys
		case map[string]any:
			for k := range x {
				x[k] = walk(x[k])
			}
		}
		return v
	}
	j, _ := json.Marshal(walk(v))
	return string(j)
}

func runC24(r *Run) {
	k, n := shard()
	defer inScratch()()
	fillByIdx()
	bed := newApiBed(k, true, vA, vB, vC, vD, vE)
	defer bed.close()
	bed.client.Transport = &http.Transport{DisableKeepAlives: true}
	bed.cfg.DeployedSlot = 11649595
	bed.node.Finalized = bed.cfg.DeployedSlot + 10 // close enough for the API to serve
	cfg := bed.cfg
	d := cfg.DeployedSlot
	w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE)
	hist := map[uint64][]Part{0: {pSub(vA, 1000), pSub(vB, 1003)}, 1: {pMevOK(vA, 900), pDon(30)}, 2: {pVanillaOK(vB, 70)}, 3: {pMissed(vA)}, 4: {pVanillaWrong(vB)}}
	o := schedOracle(cfg, w, hist, d, d+4, func(s uint64) bool { return s == d+2 })
	// the next slot has a cleanup
	w.Beacon[vB.Idx] = vB.with(func(u *UVal) { u.Status, u.Eff = v1.ValidatorStateExitedUnslashed, 0 })
	w.attach(o, d+5)
	last := o.LatestCommitedState()
	bed.node.LastSlot, bed.node.Root = last.Slot, common.HexToHash(last.MerkleRoot)
	base := &cbase{name: "some history", o: o}
	baseFile := &cbase{name: "some history, saved before", o: o, folder: savedFolder(o)}
	rich := []Part{pSub(vC, 1000), pMevOK(vA, 7000), pUnsub(vB), pDon(5)}
	blk := uniq(mkBlock(d+5, rich))
	adv := opAdvance("next block", w, blk)
	adv2 := opAdvance("block after", w, uniq(mkBlock(d+6, []Part{pVanillaOK(vD, 11), pMissed(vA)})))
	// its events are served to the previews of events that are not processed yet
	bed.node.Number[blk.Number] = blk
	bed.node.HeadNumber = blk.Number + 20
	ban := opAdvance("next block with bans", w, uniq(mkBlock(d+5, []Part{pVanillaWrong(vA), pBan(22)})))
	sched := &cexp{r: r, env: &cenv{o: bed.o, bed: bed, cfg: cfg}}

	raw := map[string]string{}
	get := func(path string) cop {
		return cop{"GET " + path, func(e *cenv) string {
			a := bed.get(path)
			if path == "/state" && a.code == 200 {
				raw[fmt.Sprint(len(raw))] = a.body
			}
			return fmt.Sprint(a.code, " ", a.err, " ", canonJSON(a.body))
		}}
	}
	// what is served and saved can be loaded by another oracle, so it has the hash of its content
	check := func(h *chist) (string, string) {
		defer clear(raw)
		for _, body := range raw {
			o := oracle.NewOracle(mkCfgCopy(cfg))
			if ok, err := o.LoadFromBytes([]byte(body)); !ok || err != nil {
				return "served-not-loadable", fmt.Sprintf("another oracle cannot load the state that was served: %v", err)
			}
		}
		fo := readFolder(oracle.StateFolder)
		for name, c := range fo {
			if !strings.HasSuffix(name, ".json") {
				return "left-over", "a file that is no state is left in the folder: " + name
			}
			o := oracle.NewOracle(mkCfgCopy(cfg))
			if ok, err := o.LoadFromBytes([]byte(c)); !ok || err != nil {
				return "saved-not-loadable", fmt.Sprintf("another oracle cannot load the state that was saved as %s: %v", name, err)
			}
		}
		return "", ""
	}
	paths := []string{"/state", "/memory/validators", "/memory/validator/11", "/memory/validatorsbyindex/11,22,33", "/memory/validators/" + strings.ToLower(ownerA.Hex()), "/memory/feesinfo", "/memory/allblocks",
		"/memory/proposedblocks", "/memory/missedblocks", "/memory/wrongfeeblocks", "/memory/donations", "/memory/statistics", "/onchain/proof/" + strings.ToLower(ownerA.Hex()), "/status"}
	mains := [][]cop{{adv}, {ban}, {adv, opFreeze}, {adv, adv2}, {opFreeze, adv}, {opSaveSlot}, {opHash}}
	var all []*cscen
	for _, m := range mains {
		for _, p := range paths {
			all = append(all, &cscen{base, [][]cop{m, {get(p)}}})
		}
		for _, p := range []string{"/state", "/memory/validators"} {
			all = append(all, &cscen{base, [][]cop{m, {get("/state")}, {get(p)}}})
		}
		all = append(all, &cscen{base, [][]cop{m, {opSave}}}, &cscen{base, [][]cop{m, {get("/state")}, {opSave}}}, &cscen{baseFile, [][]cop{m, {opSave}, {opOther}}}, &cscen{baseFile, [][]cop{append(append([]cop{}, m...), opSaveSlot), {opOther, opOther}}})
	}
	all = append(all, &cscen{base, [][]cop{{adv, opFreeze, opSaveSlot, adv2}, {get("/state"), get("/state")}, {opSave}}})
	// answers that do not repeat by themselves cannot be compared
	for _, p := range paths {
		sched.reset(base)
		a, b := callOp(get(p), sched.env), callOp(get(p), sched.env)
		if a != b {
			r.violate("unstable", fmt.Sprintf("C24: two answers of %s to the same state differ: %s", p, firstDiff(a, b)), errors.New(p))
			return
		}
		if os.Getenv("VH_LOG") != "" && k == 0 {
			fmt.Println(p, a[:min(200, len(a))])
		}
	}
	clear(raw)
	out := map[string]int64{}
	var locks, stmts, stmts2 int64
	run := func(sc *cscen, steps bool, bound int, c *int64) {
		t0 := time.Now()
		m, o := sched.explore(sc, steps, bound, check)
		*c += m
		for k, v := range o {
			out[k] += v
		}
		if os.Getenv("VH_LOG") != "" {
			fmt.Println(time.Since(t0).Round(time.Millisecond), m, steps, sc)
		}
	}
	for i, sc := range all {
		if i%n == k && !r.stop() && !r.expired() {
			run(sc, false, -1, &locks)
		}
	}
	for i, sc := range all {
		if i%n == k && !r.stop() && !r.expired() && (len(sc.threads) == 2 || r.thorough() || sc.threads[2][0].name == opSave.name && len(sc.threads[0]) == 1 && len(sc.threads[1]) == 1) {
			run(sc, true, 1, &stmts)
		}
	}
	if r.thorough() {
		for i, sc := range all {
			if i%n == k && !r.stop() && !r.expired() && len(sc.threads) == 2 && len(sc.threads[0]) == 1 {
				run(sc, true, 2, &stmts2)
			}
		}
	}
	r.bound("programs", fmt.Sprintf("%d of 2 or 3 threads: processing, freezing and saving against requests to %d endpoints, a save on a signal, another oracle reading the file", len(all), len(paths)))
	r.bound("schedules", "all that switch threads at locks; all that switch a running thread once at any statement of the packages oracle and api (in the quick tier for two threads only; in the thorough tier twice for pairs of single calls)")
	out["schedules at locks"] += locks
	out["schedules at statements, one switch"] += stmts
	out["schedules at statements, two switches"] += stmts2
	r.addOutcomes(out)
	if len(all) > 0 {
		r.sample(all[0].String())
	}
}
