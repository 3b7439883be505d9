package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
)

func init() { registerSharded("C27", "fault_enumeration", runC27) }

// rstate is one state of the oracle that the API serves.
type rstate struct {
	name string
	st   *oracle.OracleState
	root string // of its last checkpoint
	slot uint64
}

func rstates(cfg *oracle.Config, thorough bool) []rstate {
	var out []rstate
	addS := func(name string, o *oracle.Oracle, freeze bool) {
		x := rstate{name: name, st: realState(o), root: oracle.DefaultRoot}
		if freeze {
			if how := guard(func() {
				if o.FreezeCheckpoint() {
					x.slot = realState(o).LatestProcessedSlot
					x.root = realState(o).CommitedStates[x.slot].MerkleRoot
				}
			}); how != "" {
				return
			}
			x.name += ", checkpoint"
		}
		out = append(out, x)
	}
	const slot = 11649201
	addS("new oracle", oracle.NewOracle(mkCfgCopy(cfg)), false)
	o, _ := inject(cfg, slot, nil, 3)
	addS("no validators", o, false)
	pairs := [][2]int{{stActive, stActive}, {stYellow, stYellow}, {stRed, stRed}, {stNotSub, stNotSub}, {stBanned, stBanned}, {stActive, stRed}, {stRed, stBanned}, {stYellow, stNotSub}}
	if thorough {
		pairs = nil
		for _, a := range []int{stActive, stYellow, stRed, stNotSub, stBanned} {
			for _, b := range []int{stUntracked, stActive, stYellow, stRed, stNotSub, stBanned} {
				pairs = append(pairs, [2]int{a, b})
			}
		}
	}
	for _, p := range pairs {
		for _, fz := range []bool{false, true} {
			for _, records := range []bool{false, true} {
				o, _ := inject(cfg, slot, []PV{{U: vA, St: p[0], Acc: 5, Pend: 7}, {U: vB, St: p[1], Acc: 11, Pend: 13}}, 3)
				name := fmt.Sprintf("validators %s, %s", stName[p[0]], stName[p[1]])
				if records {
					s := realState(o)
					b := func(slot uint64, t oracle.BlockType) oracle.SummarizedBlock {
						return oracle.SummarizedBlock{Slot: slot, Block: slot - 1000, ValidatorIndex: 11, ValidatorKey: vA.keyHex(), BlockType: t, Reward: bi(9), RewardType: oracle.MevBlock, WithdrawalAddress: vA.addr()}
					}
					s.ProposedBlocks = append(s.ProposedBlocks, b(slot-1, oracle.OkPoolProposal), b(slot-300000, oracle.OkPoolProposal), b(slot-2, oracle.OkPoolProposalBlsKeys))
					s.MissedBlocks = append(s.MissedBlocks, oracle.SummarizedBlock{Slot: slot - 3, ValidatorIndex: 11, ValidatorKey: vA.keyHex(), BlockType: oracle.MissedProposal, Reward: bi(0), WithdrawalAddress: vA.addr()})
					s.WrongFeeBlocks = append(s.WrongFeeBlocks, b(slot-4, oracle.WrongFeeRecipient))
					name += ", records"
				}
				addS(name, o, fz)
			}
		}
	}
	o, _ = inject(cfg, slot, []PV{{U: mkVal(4000000, 1, ownerC), St: stActive, Acc: 1, Pend: 1}, {U: vA, St: stActive, Acc: 1}}, 0)
	addS("validator the beacon node does not know", o, true)
	o, _ = inject(cfg, slot, []PV{{U: vA, St: stActive, Acc: 1}}, 0)
	realState(o).LatestProcessedSlot, realState(o).LatestProcessedBlock = 2000, 1000
	addS("low slot", o, false)
	o, _ = inject(cfg, slot, []PV{{U: vA, St: stActive, Acc: 1}}, 0)
	realState(o).LatestProcessedBlock = 1000
	addS("low block", o, false)
	o, _ = inject(cfg, slot, []PV{{U: vA, St: stRed, Acc: 1}}, 0)
	realState(o).LatestProcessedBlock = 0
	addS("block 0", o, false)
	return out
}

// the requests of every endpoint, for known data
func endpoints() []string {
	own := strings.ToLower(ownerB.Hex())
	return []string{"/", "/status", "/config", "/state", "/registeredrelays/" + vA.keyHex(), "/memory/validators", "/memory/validator/11", "/memory/validator/90", "/memory/validatorsbyindex/11,90,22",
		"/memory/validators/" + strings.ToLower(ownerA.Hex()), "/memory/validators/" + own, "/memory/validators/" + strings.ToLower(stranger.Hex()), "/memory/feesinfo", "/memory/allblocks", "/memory/proposedblocks", "/memory/missedblocks",
		"/memory/wrongfeeblocks", "/memory/donations", "/memory/statistics", "/onchain/proof/" + strings.ToLower(ownerA.Hex()), "/onchain/proof/" + strings.ToLower(stranger.Hex()), "/onchain/proof/" + strings.ToLower(feesAddr.Hex()), "/nothing/here"}
}

func needsSync(path string) bool {
	return path == "/memory/statistics" || strings.HasPrefix(path, "/memory/validators/") || path == "/memory/validators" || strings.HasPrefix(path, "/memory/validator/") || strings.HasPrefix(path, "/onchain/proof/")
}

type robust struct {
	r     *Run
	bed   *apiBed
	out   map[string]int64
	cur   rstate
	was   string
	other *robust
}

func (x *robust) load(s rstate) {
	x.cur = s
	x.bed.load(s.st)
	x.was = noHash(realState(x.bed.o))
	f := x.bed.node
	f.mu.Lock()
	f.Finalized = s.st.LatestProcessedSlot
	f.HeadNumber = s.st.LatestProcessedBlock + 40
	f.Number = map[uint64]*Blk{}
	f.Root, f.LastSlot = common.HexToHash(s.root), s.slot
	f.Claimed = map[common.Address]*big.Int{ownerA: bi(1)}
	f.mu.Unlock()
}

// ask sends a request and checks what holds for all of them.
func (x *robust) ask(method, path, ctx string) (apiAns, bool) {
	a := x.bed.do(method, path)
	x.r.Evals.Add(1)
	bad := ""
	if method == "GET" {
		bad = wellFormed(a)
	} else if a.err != "" {
		bad = "no answer: " + a.err
	}
	// nothing is written to the state, not even for a while
	if bad == "" && noHash(realState(x.bed.o)) != x.was {
		bad = "the state of the oracle changed: " + firstDiff(noHash(realState(x.bed.o)), x.was)
		x.load(x.cur)
	}
	if bad != "" {
		x.fail(sigOfPath(path)+" "+strings.SplitN(bad, ":", 2)[0], method+" "+path, ctx, a, bad)
		return a, false
	}
	return a, true
}

func (x *robust) fail(sig, req, ctx string, a apiAns, what string) {
	x.r.violate("C27 "+sig, fmt.Sprintf("C27: oracle with %s, %s: %s: %s", x.cur.name, ctx, req, what), map[string]any{"state": x.cur.name, "context": ctx, "request": req, "answer": a.body, "code": a.code})
}

func sigOfPath(p string) string {
	if i := strings.LastIndex(p, "/0x"); i >= 0 {
		return p[:i]
	}
	for _, q := range []string{"/memory/validatorsbyindex", "/memory/validator/"} {
		if strings.HasPrefix(p, q) {
			return q
		}
	}
	return p
}

func esc(s string) string { return url.PathEscape(s) }

var rePub, reAdr = regexp.MustCompile(`\A0x[0-9a-fA-F]{96}\z`), regexp.MustCompile(`\A0x[0-9a-fA-F]{40}\z`)

func runC27(r *Run) {
	k, n := shard()
	bed := newApiBed(k, true, vA, vB, vC, vD, vE)
	defer bed.close()
	bed.node.CountAll = true
	x := &robust{r: r, bed: bed, out: map[string]int64{}}
	sts := rstates(bed.cfg, r.thorough())
	job := 0
	mine := func() bool { job++; return job%n == k && !r.stop() && !r.expired() }
	r.bound("states", fmt.Sprintf("%d states of the oracle: none, one and two validators in every status, with and without records and checkpoint, low slots", len(sts)))
	r.bound("inputs", "every byte 1..255 inserted, substituted and appended at chosen positions of a proper address, key, index and list of indices, every length around the proper one; all case variants of single letters")
	r.bound("faults", "every fault kind at every request to the nodes, once and from then on; every answer of two relays")

	// every endpoint on every state, at every distance from the finalized slot
	for _, s := range sts {
		if !mine() {
			continue
		}
		x.load(s)
		r.States.Add(1)
		for _, loaded := range []bool{true, false} {
			b2 := x
			if !loaded {
				if k2 := x.unloaded(k); k2 != nil {
					b2 = k2
					b2.load(s)
				}
			}
			for _, p := range endpoints() {
				for _, dist := range []int64{0, 1, 32, 64, 65, 96, 1000, 100000, -1, -64} {
					if !needsSync(p) && p != "/status" && dist != 0 && dist != 1000 {
						continue
					}
					f := b2.bed.node
					f.mu.Lock()
					f.Finalized = uint64(int64(s.st.LatestProcessedSlot) + dist)
					f.mu.Unlock()
					ctx := fmt.Sprintf("%d slots behind", dist)
					if !loaded {
						ctx += ", beacon validators not loaded yet"
					}
					a, ok := b2.ask("GET", p, ctx)
					r.Transitions.Add(1)
					if !ok {
						continue
					}
					if needsSync(p) && dist > 64 && a.code == 200 {
						b2.fail("behind "+sigOfPath(p), "GET "+p, ctx, a, "served although the oracle is behind")
					}
					if bad := x.expect(s, p, dist, loaded, a); bad != "" {
						b2.fail("refused "+sigOfPath(p), "GET "+p, ctx, a, bad)
					}
					b2.out[fmt.Sprintf("%s %d", sigOfPath(p), a.code)]++
				}
			}
		}
		x.load(s)
		x.recent()
		for _, p := range []string{"/memory/validators/" + strings.ToLower(ownerA.Hex()), "/memory/validators/" + strings.ToLower(ownerB.Hex()), "/memory/validators/" + strings.ToLower(ownerC.Hex())} {
			a, ok := x.ask("GET", p, "recent events, also of validators the beacon node did not list")
			r.Transitions.Add(1)
			if bad := x.expect(s, p, 0, true, a); ok && bad != "" {
				x.fail("recent "+sigOfPath(p), "GET "+p, "recent events", a, bad)
			}
		}
		for _, m := range []string{"POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE"} {
			for _, p := range endpoints() {
				x.ask(m, p, "method "+m)
			}
		}
	}
	if x.other != nil {
		x.other.bed.close()
	}

	// at every slot of an epoch and its neighbours
	for off := uint64(0); off < 70; off++ {
		if !mine() {
			continue
		}
		o, _ := inject(bed.cfg, 11649201+off, []PV{{U: vA, St: stActive, Acc: 5, Pend: 7}}, 3)
		s := rstate{name: "one active validator", st: realState(o), root: oracle.DefaultRoot}
		if guard(func() { o.FreezeCheckpoint() }) == "" {
			s.slot = s.st.LatestProcessedSlot
			s.root = s.st.CommitedStates[s.slot].MerkleRoot
		}
		x.load(s)
		r.States.Add(1)
		for _, p := range endpoints() {
			if !needsSync(p) {
				continue
			}
			for _, dist := range []int64{0, 1, 2, 31, 32, 33, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 1 << 16, 1 << 32, 1 << 40} {
				bed.node.mu.Lock()
				bed.node.Finalized = uint64(int64(s.st.LatestProcessedSlot) + dist)
				bed.node.mu.Unlock()
				ctx := fmt.Sprintf("%d slots behind at slot %d", dist, s.st.LatestProcessedSlot)
				a, ok := x.ask("GET", p, ctx)
				r.Transitions.Add(1)
				if ok && dist > 64 && a.code == 200 {
					x.fail("behind "+sigOfPath(p), "GET "+p, ctx, a, "served although the oracle is behind")
				}
				if bad := x.expect(s, p, dist, true, a); ok && bad != "" {
					x.fail("refused "+sigOfPath(p), "GET "+p, ctx, a, bad)
				}
			}
		}
	}

	// inputs
	normal := sts[4]
	for _, s := range sts {
		if strings.HasPrefix(s.name, "validators active, red") && strings.HasSuffix(s.name, "records, checkpoint") {
			normal = s
		}
	}
	x.load(normal)
	bed.answer = func(string) (int, string) { return 404, "{}" }
	for _, in := range c27Inputs(r.thorough()) {
		if !mine() {
			continue
		}
		for _, v := range in.vals {
			p := in.path + esc(v)
			a, ok := x.ask("GET", p, fmt.Sprintf("parameter %q", v))
			r.Transitions.Add(1)
			if !ok {
				continue
			}
			want := in.valid(v)
			switch {
			case want == maybe:
			case want == yes && a.code != 200:
				x.fail("refuses "+in.path, p, fmt.Sprintf("parameter %q", v), a, "a well-formed parameter is refused: "+a.String())
			case want == no && a.code == 200:
				x.fail("accepts "+in.path, p, fmt.Sprintf("parameter %q", v), a, "a malformed parameter is accepted: "+a.String())
			}
			x.out[fmt.Sprintf("parameter of %s: %s", in.path, want)]++
		}
	}

	// faults of the nodes
	fs := []rstate{normal, sts[1], sts[0], sts[len(sts)-1]}
	if r.thorough() {
		fs = append(fs, sts[2:]...)
	}
	for si, s := range fs {
		for _, p := range endpoints() {
			x.load(s)
			var logq []FReq
			f := bed.node
			if own := p == "/memory/validators/"+strings.ToLower(ownerB.Hex()); own || p == "/memory/validators/"+strings.ToLower(ownerA.Hex()) {
				x.recent()
			}
			f.mu.Lock()
			f.Seq, f.Log, f.KeepLog = 0, nil, true
			f.mu.Unlock()
			ref, ok := x.ask("GET", p, "no faults")
			f.mu.Lock()
			f.KeepLog = false
			logq = append(logq, f.Log...)
			f.mu.Unlock()
			if !ok {
				continue
			}
			for i, q := range logq {
				for _, fault := range faultsFor(q) {
					if fault == "stale" || fault == "hang" {
						continue
					}
					if q.Kind == "syncing" && p != "/status" { // asked by the client library now and then
						continue
					}
					seconds := []string{"-", ""}
					if (r.thorough() || si == 0) && si < 8 {
						seconds = append(seconds, "500", "reset", "null-data", "rpc-null", "empty", "rpc-0x", "{}")
					}
					for _, second := range seconds { // "": only this fault, "-": from now on, else: the next request fails as well
						once := second != "-"
						if !mine() {
							continue
						}
						if (second == "null-data") != (q.Node == "cl") && (second == "null-data" || strings.HasPrefix(second, "rpc-")) {
							continue
						}
						x.load(s)
						if strings.HasPrefix(p, "/memory/validators/0x") {
							x.recent()
						}
						kind := q.Kind
						if kind == "syncing" { // let the client library's own question after a cut connection pass
							time.Sleep(100 * time.Millisecond)
						}
						hits, after := 0, 0
						nth := 0
						for _, e := range logq[:i] {
							if e.Kind == kind {
								nth++
							}
						}
						f.mu.Lock()
						f.Hook = func(g FReq) string {
							// the client library asks for the sync status itself after a cut connection, and does not survive
							// an empty answer: not this repository's code, so the second fault leaves that question alone
							if hits > nth && second != "" && once && g.Node == q.Node && g.Kind != "syncing" {
								if after++; after == 1 && slices.Contains(faultsFor(g), second) {
									return second
								}
							}
							if g.Kind != kind {
								return ""
							}
							hits++
							if hits == nth+1 || hits > nth && !once {
								return fault
							}
							return ""
						}
						f.mu.Unlock()
						ctx := fmt.Sprintf("the node answers %s to %s (request %d, then %q)", fault, kind, i, second)
						a, ok := x.ask("GET", p, ctx)
						f.mu.Lock()
						f.Hook = nil
						f.mu.Unlock()
						r.Transitions.Add(1)
						if ok && a.code == 200 && a.body != ref.body && p != "/status" {
							x.fail("fault "+sigOfPath(p)+" "+kind, "GET "+p, ctx, a, fmt.Sprintf("the answer is %s, without fault %s", a, ref))
						}
						x.out[fmt.Sprintf("%s fault %d", sigOfPath(p), a.code)]++
						if k == 0 {
							r.sample(fmt.Sprintf("%s: %s: %d", p, ctx, a.code))
						}
						// and the API serves again afterwards
						if ref.code == 200 && p != "/status" {
							back := false
							for t := 0; t < 40 && !back; t++ {
								b := bed.get(p)
								back = b.code == ref.code && b.body == ref.body
								if !back {
									time.Sleep(100 * time.Millisecond)
								}
							}
							if !back {
								x.fail("after fault "+sigOfPath(p)+" "+kind, "GET "+p, ctx, bed.get(p), "the request is not served as before once the node is well again")
							}
						}
					}
				}
			}
		}
	}

	// relays
	x.load(normal)
	pool := strings.ToLower(bed.cfg.PoolAddress)
	reg := func(fee string) string {
		return fmt.Sprintf(`{"message":{"fee_recipient":"%s","gas_limit":"30000000","timestamp":"1700000000","pubkey":"%s"},"signature":"0x%s"}`, fee, vA.keyHex(), strings.Repeat("00", 96))
	}
	good, wrong := reg(pool), reg(strings.ToLower(stranger.Hex()))
	relayAns := []struct {
		name string
		code int
		body string
	}{{"pool", 200, good}, {"pool in capitals", 200, reg("0x" + strings.ToUpper(pool[2:]))}, {"another fee recipient", 200, wrong}, {"404", 404, "{}"}, {"500", 500, good}, {"{}", 200, "{}"}, {"null", 200, "null"}, {"[]", 200, "[]"},
		{"empty", 200, ""}, {"null message", 200, `{"message":null,"signature":"0x00"}`}, {"no timestamp", 200, strings.Replace(good, `"timestamp":"1700000000",`, "", 1)}, {"truncated", 200, good[:40]}, {"html", 200, "<html/>"},
		{"reset", 0, ""}, {"302", 302, ""}, {"204", 204, ""}, {"no message", 200, `{"signature":"0x` + strings.Repeat("00", 96) + `"}`}, {"short fee recipient", 200, reg("0x12")}, {"bad timestamp", 200, strings.Replace(good, "1700000000", "x", 1)},
		{"no signature", 200, strings.Split(good, `,"signature"`)[0] + "}"}}
	isPool := func(i int) bool { return i < 2 }
	for i := range relayAns {
		for j := range relayAns {
			if !mine() {
				continue
			}
			bed.answer = func(path string) (int, string) {
				if strings.HasPrefix(path, "/a/") {
					return relayAns[i].code, relayAns[i].body
				}
				return relayAns[j].code, relayAns[j].body
			}
			ctx := fmt.Sprintf("relays answer %s and %s", relayAns[i].name, relayAns[j].name)
			p := "/registeredrelays/" + vA.keyHex()
			a, ok := x.ask("GET", p, ctx)
			r.Transitions.Add(1)
			if !ok {
				continue
			}
			x.out[fmt.Sprintf("relays %d", a.code)]++
			simple := func(i int) bool { return i < 5 }
			if !simple(i) || !simple(j) {
				// an answer that can not be understood is no registration with the pool
				var g struct {
					Ok      bool  `json:"correct_fee_recipients"`
					Correct []any `json:"correct_fee_relayers"`
				}
				json.Unmarshal([]byte(a.body), &g)
				max := 0
				for _, z := range []int{i, j} {
					if isPool(z) || relayAns[z].name == "no signature" || relayAns[z].name == "no timestamp" {
						max++
					}
				}
				if a.code == 200 && len(g.Correct) > max {
					x.fail("relays", p, ctx, a, "a relay is shown with the proper fee recipient although it did not say so: "+a.String())
				}
				continue
			}
			c, w, u := 0, 0, 0
			for _, z := range []int{i, j} {
				switch {
				case isPool(z):
					c++
				case z == 2:
					w++
				default:
					u++
				}
			}
			var g map[string]any
			json.Unmarshal([]byte(a.body), &g)
			cnt := func(k string) int { l, _ := g[k].([]any); return len(l) }
			got := fmt.Sprint(a.code, g["correct_fee_recipients"], cnt("correct_fee_relayers"), cnt("wrong_fee_relayers"), cnt("unregistered_relayers"))
			if want := fmt.Sprint(200, c > 0 && w == 0, c, w, u); got != want {
				x.fail("relays", p, ctx, a, fmt.Sprintf("answer (code, correct, relays correct, wrong, unregistered) %s, expected %s: %s", got, want, a))
			}
		}
	}
	r.addOutcomes(x.out)
}

// recent puts events that are not processed yet on the chain.
func (x *robust) recent() {
	f := x.bed.node
	s := x.cur.st
	if s.LatestProcessedBlock == 0 {
		return
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	n := s.LatestProcessedBlock + 2
	f.Number = map[uint64]*Blk{n: {Number: n, Slot: n + 1000, Prop: strangerVal, FeeRec: otherRec,
		Subs:   []Sub{{vE.Idx, vE.owner(), un(1000), vE}, {vC.Idx, vC.owner(), un(1000), vC}, {4000000, ownerC, un(1000), mkVal(4000000, 1, ownerC)}, {vA.Idx, vA.owner(), un(1000), vA}},
		Unsubs: []Unsub{{vA.Idx, vA.owner(), vA}, {4000001, ownerA, mkVal(4000001, 1, ownerA)}}}}
}

// unloaded is an API whose list of beacon validators has not been loaded yet.
func (x *robust) unloaded(k int) *robust {
	if x.other == nil {
		x.other = &robust{r: x.r, bed: newApiBed(k, false, vA, vB, vC, vD, vE), out: x.out}
		x.other.bed.node.CountAll = true
	}
	return x.other
}

// expect says which requests must be served.
func (x *robust) expect(s rstate, p string, dist int64, loaded bool, a apiAns) string {
	if needsSync(p) && (dist < 0 || dist > 64) {
		return ""
	}
	st := s.st
	want := 200
	switch {
	case p == "/nothing/here":
		want = 404
	case strings.HasPrefix(p, "/memory/validators/") && (!loaded || st.LatestProcessedBlock == 0):
		return ""
	case p == "/memory/statistics" && (st.LatestProcessedSlot < 216000 || st.LatestProcessedBlock < 216000):
		return ""
	case strings.HasPrefix(p, "/memory/validator/"):
		i, _ := strconv.ParseUint(p[len("/memory/validator/"):], 10, 64)
		if st.Validators[i] == nil {
			want = 0
		}
	case strings.HasPrefix(p, "/onchain/proof/"):
		ad := p[len("/onchain/proof/"):]
		if s.slot == 0 || st.CommitedStates[s.slot].Proofs[ad] == nil {
			want = 0
		}
	case p == "/status" && dist < 0:
		return ""
	}
	if want == 0 && a.code == 200 {
		return "answered " + a.String()
	}
	if want > 0 && a.code != want {
		return fmt.Sprintf("answer %s, expected %d", a, want)
	}
	return ""
}

const (
	no = tri(iota)
	yes
	maybe
)

type tri int

func (t tri) String() string { return []string{"malformed", "well formed", "either"}[t] }

type c27In struct {
	path  string
	valid func(v string) tri
	vals  []string
}

// around lists the strings close to a proper one.
func around(v string, at []int, deep bool) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if s != "" && s != "." && s != ".." && !strings.Contains(s, "/") && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	add(v)
	for i := 0; i <= len(v); i++ {
		near := false
		for _, j := range at {
			near = near || i == j
		}
		if !near && !deep { // every byte at some positions, the interesting ones everywhere
			for _, c := range "0/:@AFGZ[\\]^_`afgz{ ,.-+\x00\n%" {
				add(v[:i] + string(c) + v[i:])
				if i < len(v) {
					add(v[:i] + string(c) + v[i+1:])
				}
			}
			continue
		}
		for c := 1; c < 256; c++ {
			add(v[:i] + string([]byte{byte(c)}) + v[i:])
			if i < len(v) {
				add(v[:i] + string([]byte{byte(c)}) + v[i+1:])
			}
		}
		for _, u := range []string{"é", "０", "\u200b", "%30", "%2f", "\r\n", "0x", "&#48;"} {
			add(v[:i] + u + v[i:])
		}
	}
	if deep && len(v) < 60 { // two bytes
		for i := range v {
			for j := i + 1; j < len(v); j++ {
				for _, c := range "/:@AFGZ[^`agz ,." {
					for _, d := range "/:@AFGZ[^`agz ,." {
						add(v[:i] + string(c) + v[i+1:j] + string(d) + v[j+1:])
					}
				}
			}
		}
	}
	for l := 0; l <= len(v); l++ {
		add(v[:l])
		add(v[l:])
	}
	for _, l := range []int{1, 2, 3, 8, 16, 56, 64, 1000} {
		add(v + strings.Repeat("0", l))
		add(v + strings.Repeat("a", l))
	}
	add(v + v)
	add(" " + v)
	add(v + " ")
	add(strings.TrimPrefix(v, "0x"))
	for i := range v { // the other case of every letter
		c := v[i]
		if c >= 'a' && c <= 'f' {
			add(v[:i] + strings.ToUpper(v[i:i+1]) + v[i+1:])
		} else if c >= 'A' && c <= 'F' {
			add(v[:i] + strings.ToLower(v[i:i+1]) + v[i+1:])
		}
	}
	return out
}

func c27Inputs(deep bool) []c27In {
	own := strings.ToLower(ownerA.Hex())
	prefix := func(v string) bool { return strings.HasPrefix(v, "0X") }
	adr := func(v string) tri {
		switch {
		case prefix(v):
			return maybe
		case reAdr.MatchString(v):
			return yes
		}
		return no
	}
	proof := func(v string) tri {
		t := adr(v)
		if t == yes && !strings.EqualFold(v, own) {
			return no // well formed, but nothing to claim
		}
		return t
	}
	pub := func(v string) tri {
		switch {
		case prefix(v):
			return maybe
		case rePub.MatchString(v):
			return yes
		}
		return no
	}
	digits := regexp.MustCompile(`\A[0-9]+\z`)
	num := func(v string) (uint64, tri) {
		if !digits.MatchString(v) {
			return 0, no
		}
		i, err := strconv.ParseUint(v, 10, 64)
		if err != nil {
			return 0, no
		}
		if len(v) > 1 && v[0] == '0' {
			return i, maybe
		}
		return i, yes
	}
	one := func(v string) tri {
		i, t := num(v)
		if t == yes && i != 11 && i != 22 {
			return no // not tracked
		}
		return t
	}
	many := func(v string) tri {
		ps := strings.Split(v, ",")
		if len(ps) > 100 {
			return no
		}
		t := yes
		for _, p := range ps {
			switch _, u := num(p); u {
			case no:
				return no
			case maybe:
				t = maybe
			}
		}
		return t
	}
	var out []c27In
	split := func(path string, valid func(string) tri, vals []string) {
		for len(vals) > 0 {
			n := min(len(vals), 400)
			out = append(out, c27In{path, valid, vals[:n]})
			vals = vals[n:]
		}
	}
	cs := common.HexToAddress(own).Hex()
	alla := append(around(own, []int{0, 1, 2, 3, 20, 41, 42}, deep), around(cs, []int{2, 42}, deep)...)
	alla = append(alla, "0x"+strings.ToUpper(own[2:]))
	split("/memory/validators/", adr, alla)
	split("/onchain/proof/", proof, alla)
	key := vA.keyHex()
	key = "0xabcdef" + key[8:]
	allp := append(around(key, []int{0, 1, 2, 3, 50, 97, 98}, deep), "0x"+strings.ToUpper(key[2:]), own)
	split("/registeredrelays/", pub, allp)
	nums := append(around("11", []int{0, 1, 2}, deep), "22", "18446744073709551615", "18446744073709551616", "18446744073709551627", "99999999999999999999999", "-11", "+11", "1e1", "0x0b", "11.0", "1_1", "0b1011", "11,22")
	split("/memory/validator/", one, nums)
	rep := func(n int) string { return strings.Repeat("11,", n-1) + "22" }
	lists := append(around("11,22", []int{0, 2, 3, 5}, deep), append(nums, ",", ",11", "11,", "11,,22", "11, 22", rep(2), rep(99), rep(100), rep(101), rep(1000), "90", "90,91", "11,11", strings.Repeat(",", 100))...)
	split("/memory/validatorsbyindex/", many, lists)
	return out
}
