package main

import (
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/google/uuid"
)

func init() {
	register("C30", "fault_enumeration", runC30)
}

// C30: the daemon started from every command line, keystore, oracle membership, and state to start from,
// with up to two things that are not as usual at a time.

const cliPass = "pw-7xQ9zzKe"
const cliKey = "8f2a559490cc2ab5a2f1c4d7e3b60a9d1c2b3a4958677685940312fedcba9876"

// cliAlt is one way to fill in one thing; the first one of each is the usual one.
type cliAlt struct {
	name        string
	args        []string // flags
	key, dry    bool     // an oracle may start with it, with a key or in dry run
	setup       func(f *FakeNode)
	fold        folder
	synced      bool // starts from the served state
	needsFolder bool
	what        func(b *dbed) []string // flags that depend on the bed
}

type cliParam struct {
	name string
	alts []cliAlt
}

func runC30(r *Run) {
	setupDaemonCast()
	s := shortScen()
	if err := s.prepare(); err != nil {
		r.violate("reference", fmt.Sprintf("C30: an oracle that processes scenario %s slot by slot does not get through: %v", s.name, err), nil)
		return
	}
	k, err := crypto.HexToECDSA(cliKey)
	if err != nil {
		panic(err)
	}
	addr := crypto.PubkeyToAddress(k.PublicKey)
	enc := func(pass string) []byte {
		js, err := keystore.EncryptKey(&keystore.Key{Id: uuid.New(), Address: addr, PrivateKey: k}, pass, 2, 1)
		if err != nil {
			panic(err)
		}
		return js
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	good := enc(cliPass)
	file := func(name string, content []byte) string {
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, content, 0600); err != nil {
			panic(err)
		}
		return p
	}
	other, _ := keystore.EncryptKey(&keystore.Key{Id: uuid.New(), Address: dAddr[2], PrivateKey: dKeys[2]}, cliPass, 2, 1)
	saved := s.saved[s.cps[0]]
	tampered := regexp.MustCompile(`("pool_accumulated_fees": ?"?)`).ReplaceAllString(saved, "${1}1")
	if tampered == saved {
		r.violate("reference", "C30: the saved state has no operator fees", nil)
		return
	}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		switch q.URL.Path {
		case "/good":
			io.WriteString(w, saved)
		case "/moved":
			http.Redirect(w, q, "/good", http.StatusFound)
		case "/404":
			w.WriteHeader(404)
			io.WriteString(w, saved)
		case "/503":
			w.WriteHeader(503)
			io.WriteString(w, saved)
		case "/cut":
			w.Header().Set("Content-Length", fmt.Sprint(len(saved)))
			io.WriteString(w, saved[:len(saved)/2])
		case "/cutlate":
			w.Header().Set("Content-Length", fmt.Sprint(len(saved)+1))
			io.WriteString(w, saved)
		case "/short":
			io.WriteString(w, saved[:len(saved)/2])
		case "/empty":
		case "/null":
			io.WriteString(w, "null")
		case "/object":
			io.WriteString(w, "{}")
		case "/html":
			io.WriteString(w, "<html>try later</html>")
		case "/tampered":
			io.WriteString(w, tampered)
		}
	}))
	defer srv.Close()
	dead, _ := net.Listen("tcp", "127.0.0.1:0")
	deadURL := "http://" + dead.Addr().String()
	dead.Close()

	relays := func(x string) []string { return []string{"-relayers-endpoints", x} }
	pool := func(x string) []string { return []string{"-pool-address", x} }
	keyf := func(x string) []string { return []string{"-updater-keystore-file", x} }
	pw := func(x string) []string { return []string{"-updater-keystore-pass", x} }
	sync1 := func(p string) []string { return []string{"-checkpoint-sync-url", srv.URL + p} }
	full := poolAddr.Hex()
	lvl := func(x string) []string { return []string{"-log-level", x} }
	params := []cliParam{
		{"keystore", []cliAlt{
			{name: "usual", args: keyf(file("good.json", good)), key: true, dry: false},
			{name: "none", dry: true},
			{name: "empty name", args: keyf(""), dry: true},
			{name: "no such file", args: keyf(filepath.Join(dir, "nothing.json"))},
			{name: "folder", args: keyf(dir)},
			{name: "empty file", args: keyf(file("empty.json", nil))},
			{name: "not a keystore", args: keyf(file("junk.json", []byte(`{"address":"`+addr.Hex()[2:]+`"}`)))},
			{name: "cut", args: keyf(file("cut.json", good[:len(good)/2]))},
			{name: "key of another oracle that is not a member any more", args: keyf(file("other.json", other))},
			{name: "other password", args: keyf(file("pass.json", enc(cliPass+"x")))},
		}},
		{"password", []cliAlt{
			{name: "usual", args: pw(cliPass), key: true},
			{name: "none", dry: true},
			{name: "empty", args: pw(""), dry: true},
			{name: "wrong", args: pw("pw-7xQ9zzKf")},
			{name: "longer", args: pw(cliPass + " ")},
		}},
		{"pool address", []cliAlt{
			{name: "usual", args: pool(strings.ToLower(full)), key: true, dry: true},
			{name: "mixed case", args: pool(full), key: true, dry: true},
			{name: "upper case", args: pool("0x" + strings.ToUpper(full[2:])), key: true, dry: true},
			{name: "without 0x", args: pool(strings.ToLower(full[2:])), key: true, dry: true},
			{name: "mixed case without 0x", args: pool(full[2:]), key: true, dry: true},
			{name: "none"},
			{name: "empty", args: pool("")},
			{name: "0x", args: pool("0x")},
			{name: "one digit less", args: pool(full[:41])},
			{name: "one digit more", args: pool(full + "0")},
			{name: "not hexadecimal", args: pool(full[:41] + "g")},
			{name: "32 bytes", args: pool("0x" + strings.Repeat("0", 24) + full[2:])},
			{name: "no contract there", args: pool(common.HexToAddress("0x1234").Hex())},
		}},
		{"relays", []cliAlt{
			{name: "usual", args: relays("https://127.0.0.1:1"), key: true, dry: true},
			{name: "two", args: relays("https://127.0.0.1:1,https://127.0.0.1:2"), key: true, dry: true},
			{name: "none"},
			{name: "empty", args: relays("")},
			{name: "http", args: relays("http://127.0.0.1:1")},
			{name: "second http", args: relays("https://127.0.0.1:1,http://127.0.0.1:2")},
			{name: "second empty", args: relays("https://127.0.0.1:1,")},
			{name: "first empty", args: relays(",https://127.0.0.1:1")},
			{name: "no scheme", args: relays("127.0.0.1:1")},
			{name: "no URL", args: relays("https://127.0.0.1:1,https://a b")},
		}},
		{"execution node", []cliAlt{
			{name: "usual", what: func(b *dbed) []string { return []string{"-execution-endpoint", b.f.URL} }, key: true, dry: true},
			{name: "none"},
			{name: "not there", args: []string{"-execution-endpoint", deadURL}},
			{name: "no URL", args: []string{"-execution-endpoint", "::"}},
		}},
		{"consensus node", []cliAlt{
			{name: "usual", what: func(b *dbed) []string { return []string{"-consensus-endpoint", b.f.URL} }, key: true, dry: true},
			{name: "none"},
			{name: "not there", args: []string{"-consensus-endpoint", deadURL}},
			{name: "on another chain", what: func(b *dbed) []string { return []string{"-consensus-endpoint", b.f.URL} }, setup: func(f *FakeNode) { f.CLChain = 17000 }},
		}},
		{"log level", []cliAlt{
			{name: "usual", key: true, dry: true},
			{name: "trace", args: lvl("trace"), key: true, dry: true},
			{name: "debug", args: lvl("debug"), key: true, dry: true},
			{name: "error", args: lvl("error"), key: true, dry: true},
			{name: "panic", args: lvl("panic"), key: true, dry: true},
			{name: "nonsense", args: lvl("nonsense")},
			{name: "empty", args: lvl("")},
		}},
		{"retries", []cliAlt{
			{name: "usual", args: []string{"-num-retries", "3"}, key: true, dry: true},
			{name: "default", key: true, dry: true},
			{name: "one", args: []string{"-num-retries", "1"}, key: true, dry: true},
			{name: "no number", args: []string{"-num-retries", "x"}},
		}},
		{"other flags", []cliAlt{
			{name: "usual", key: true, dry: true},
			{name: "unknown", args: []string{"-dryrun"}},
		}},
		{"oracle members", []cliAlt{
			{name: "usual", setup: func(f *FakeNode) { f.Members = []common.Address{addr, dAddr[1]} }, key: true, dry: true},
			{name: "last", setup: func(f *FakeNode) { f.Members = []common.Address{dAddr[1], {7}, {8}, addr} }, key: true, dry: true},
			{name: "nobody", setup: func(f *FakeNode) { f.Members = nil }, dry: true},
			{name: "others", setup: func(f *FakeNode) { f.Members = []common.Address{dAddr[1]} }, dry: true},
			{name: "almost", setup: func(f *FakeNode) { a := addr; a[19] ^= 1; f.Members = []common.Address{dAddr[1], a, {}} }, dry: true},
			{name: "zero address", setup: func(f *FakeNode) { f.Members = []common.Address{{}} }, dry: true},
		}},
		{"balance", []cliAlt{
			{name: "usual", setup: func(f *FakeNode) { f.BalanceOf[addr] = bi(1000000000) }, key: true, dry: true},
			{name: "one wei", setup: func(f *FakeNode) { f.BalanceOf[addr] = bi(1) }, key: true, dry: true},
			{name: "a lot", setup: func(f *FakeNode) { f.BalanceOf[addr] = new(big.Int).Lsh(bi(1), 90) }, key: true, dry: true},
			{name: "nothing", setup: func(f *FakeNode) { f.BalanceOf[addr] = bi(0) }, dry: true},
		}},
		{"state", []cliAlt{
			{name: "usual", key: true, dry: true},
			{name: "saved", fold: folder{"state.json": saved}, key: true, dry: true},
			{name: "tampered", fold: folder{"state.json": tampered}},
			{name: "cut", fold: folder{"state.json": saved[:len(saved)-5]}},
			{name: "synced", args: sync1("/good"), synced: true, key: true, dry: true},
			{name: "synced after a redirection", args: sync1("/moved"), synced: true, key: true, dry: true},
			{name: "synced besides a saved one", args: sync1("/good"), fold: folder{"state.json": saved}, synced: true, key: true, dry: true},
			{name: "sync 404", args: sync1("/404")},
			{name: "sync 404 besides a saved one", args: sync1("/404"), fold: folder{"state.json": saved}},
			{name: "sync 503", args: sync1("/503")},
			{name: "sync cut", args: sync1("/cut")},
			{name: "sync cut at the very end", args: sync1("/cutlate")},
			{name: "sync with half a state", args: sync1("/short")},
			{name: "sync with nothing", args: sync1("/empty")},
			{name: "sync with nothing besides a saved one", args: sync1("/empty"), fold: folder{"state.json": saved}},
			{name: "sync with null", args: sync1("/null")},
			{name: "sync with {}", args: sync1("/object")},
			{name: "sync with HTML", args: sync1("/html")},
			{name: "sync with a tampered state", args: sync1("/tampered")},
			{name: "sync from nowhere", args: []string{"-checkpoint-sync-url", deadURL}},
		}},
	}
	type job struct {
		dry  bool
		pick []int // one alternative of each
	}
	var jobs []job
	maxDev := 2
	if r.thorough() {
		maxDev = 3
	}
	var gen func(j job, p, dev int)
	gen = func(j job, p, dev int) {
		if p == len(params) {
			jobs = append(jobs, job{j.dry, append([]int{}, j.pick...)})
			return
		}
		base := 0
		if j.dry && p < 2 {
			base = 1
		}
		for a := range params[p].alts {
			if a != base && dev == maxDev {
				continue
			}
			d := dev
			if a != base {
				d++
			}
			gen(job{j.dry, append(j.pick[:p:p], a)}, p+1, d)
		}
	}
	gen(job{dry: false}, 0, 0)
	gen(job{dry: true}, 0, 0)
	if r.thorough() { // what is refused for two reasons needs no third: keep threefold ones with at most one refusal
		var keep []job
		for _, j := range jobs {
			dev, no := 0, 0
			for p, a := range j.pick {
				x := params[p].alts[a]
				if a != 0 && !(j.dry && p < 2 && a == 1) {
					dev++
				}
				if j.dry && !x.dry || !j.dry && !x.key {
					no++
				}
			}
			if dev < 3 || no <= 1 {
				keep = append(keep, j)
			}
		}
		jobs = keep
	}
	pools := &bedPool{free: map[*dScen][]*dbed{}}
	defer pools.close()
	out := map[string]int64{}
	var mu sync.Mutex
	type sit struct {
		dry     bool
		name    string
		args    func(b *dbed) []string
		setup   []func(f *FakeNode)
		fold    folder
		synced  bool
		starts  bool
		hook    func(q FReq) string // under the lock of the node
		may     bool                // it may also end, in spite of starts
		forever bool                // it may ask for ever
		waits   bool                // it waits for the nodes
	}
	one := func(t sit) (res *dresult, reqs []FReq) {
		b := pools.get(s)
		defer pools.put(b)
		f := b.f
		f.mu.Lock()
		f.QuorumN, f.LastSlot, f.Root, f.Finalized = 1, s.cps[0], common.Hash(s.ref[s.cps[0]]), s.end
		f.Voted, f.Reports, f.nonce = map[common.Address]common.Hash{}, map[common.Hash]*Report{}, map[common.Address]uint64{}
		f.ELSyncing, f.SyncDistance, f.CLChain, f.Hook = false, 0, 0, t.hook
		f.BalanceOf = map[common.Address]*big.Int{}
		members := f.Members
		for _, fn := range t.setup {
			fn(f)
		}
		var bad []string
		say := func(m string, a ...any) { bad = append(bad, fmt.Sprintf(m, a...)) }
		m := &dmon{s: s, f: f, dry: t.dry, startF: t.fold}
		f.OnTx = func(tx *SentTx, to *common.Address, value *big.Int) {
			m.onTx(tx, to, value)
			if tx.From != addr {
				say("a transaction is sent from %s, the key given is that of %s", tx.From, addr)
			}
		}
		fold := t.fold
		if fold == nil {
			fold = folder{}
		}
		p := &pstate{chain: f.saveChain(), fold: fold}
		f.mu.Unlock()
		processed, asks := "", ""
		ports := false
		pl := &dplan{dryRun: t.dry, args: t.args}
		pl.at = func(_ int, e *devent) action {
			if e.kind == "req" {
				f.mu.Lock()
				m.onEvent(e)
				f.mu.Unlock()
				if e.req.Kind != "syncing" && e.req.Kind != "version" { // the client library also asks these by itself
					reqs = append(reqs, e.req)
				}
				if len(reqs) > 1500 {
					asks = e.req.Kind
					return doKill
				}
				if (e.req.Kind == "block" || e.req.Kind == "headers") && e.req.Arg != fmt.Sprint(s.d) && processed == "" {
					processed = e.req.Kind + " " + e.req.Arg
				}
			}
			return goOn
		}
		pl.idle = func() bool {
			if !ports {
				ports = true
				if d := answers(b.port, "/", ""); d != "" {
					say("the API does not answer at the port given: %s", d)
				}
				if d := answers(b.port+1, "/metrics", "oracle_"); d != "" {
					say("the metrics are not served at the port given: %s", d)
				}
			}
			return false
		}
		res = b.start(p, pl)
		f.mu.Lock()
		f.OnTx, f.Hook, f.CLChain, f.Members, f.BalanceOf = nil, nil, 0, members, nil
		f.mu.Unlock()
		logs, _ := os.ReadFile(filepath.Join(b.dir, "oracle-logs", "logs.txt"))
		r.Evals.Add(1)
		r.States.Add(1)
		r.Transitions.Add(int64(res.events))
		for i := 1; i < len(m.bad); i += 2 {
			say("%s", m.bad[i])
		}
		for _, x := range []string{cliPass, cliKey} {
			if strings.Contains(res.log, x) || strings.Contains(string(logs), x) {
				say("the password or the key is in the log")
			}
		}
		panics := strings.Contains(res.log, "panic:") || strings.Contains(res.log, "fatal error:")
		switch {
		case res.err != "":
			say("the daemon hangs: %s", res.err)
		case panics && !t.may:
			say("the daemon panics: %s", panicLine(res.log))
		case !t.starts:
			if asks != "" {
				if !t.forever {
					say("the daemon asks again and again: %s", asks)
				}
			} else if res.exit == "" {
				say("the daemon starts")
			} else if res.exit == "exit status 0" {
				say("the daemon ends as if all was well")
			}
			if processed != "" {
				say("the daemon started to work: %s", processed)
			}
			if res.fold.key() != fold.key() {
				say("the state folder has changed: %v, was %v", res.fold.names(), fold.names())
			}
		case asks != "":
			say("the daemon asks again and again: %s", asks)
		case res.exit != "":
			if !t.may || res.exit == "exit status 0" {
				say("the daemon ends: %s: %s", res.exit, strings.Join(tail(res.log, 1), ""))
			}
		case t.waits:
			if len(res.fold) > 0 || res.chain.LastSlot != s.cps[0] {
				say("the daemon goes on though its node is syncing")
			}
		default:
			if !t.dry && (res.chain.LastSlot != s.target(s.cps[0]) || res.chain.Root != s.ref[res.chain.LastSlot]) {
				say("the oracle does not report: the last consolidated slot is %s", m.off(res.chain.LastSlot))
			}
			if _, cs, err := commits(res.fold["state.json"]); err != nil || len(cs) != len(s.cps) {
				say("the oracle does not get to the end: %v %v", cs, err)
			} else {
				for slot, root := range cs {
					if s.ref[slot] != root {
						say("the checkpoint of slot %s has root %s", m.off(slot), root)
					}
				}
			}
			if !ports {
				say("the daemon never comes to rest")
			}
		}
		if len(bad) > 0 {
			r.violate("start", "C30: "+t.name+": "+strings.Join(bad, "; "), dreport{Base: t.name, Trace: tail(strings.Join(res.trace, "\n"), 200), Log: tail(res.log, 30)})
		}
		return
	}
	parallel(len(jobs), func(_, ji int) {
		if r.stop() || r.expired() {
			return
		}
		j := jobs[ji]
		t := sit{dry: j.dry, starts: true, name: "with a key"}
		if j.dry {
			t.name = "in dry run"
		}
		var why []string
		for p, a := range j.pick {
			x := params[p].alts[a]
			if a != 0 && !(j.dry && p < 2 && a == 1) {
				t.name += ", " + params[p].name + ": " + x.name
			}
			if j.dry && !x.dry || !j.dry && !x.key {
				t.starts = false
				why = append(why, params[p].name)
			}
			if x.setup != nil {
				t.setup = append(t.setup, x.setup)
			}
			if x.fold != nil {
				t.fold = x.fold
			}
			t.synced = t.synced || x.synced
			t.forever = t.forever || params[p].name == "retries" && x.name == "default"
		}
		// what is saved has the pool address as it was written
		if pa := params[2].alts[j.pick[2]]; t.starts && j.pick[2] != 0 {
			if st := params[len(params)-1].alts[j.pick[len(params)-1]]; st.name != "usual" && pa.key && pa.name != "without 0x" {
				return
			}
		}
		t.args = func(b *dbed) (l []string) {
			if j.dry {
				l = append(l, "-dry-run")
			}
			for p, a := range j.pick {
				x := params[p].alts[a]
				l = append(l, x.args...)
				if x.what != nil {
					l = append(l, x.what(b)...)
				}
			}
			return append(l, "-api-port", fmt.Sprint(b.port), "-metrics-port", fmt.Sprint(b.port+1))
		}
		one(t)
		mu.Lock()
		if t.starts {
			out[fmt.Sprintf("starts, dry run %v", j.dry)]++
		} else {
			out["refused for its "+strings.Join(why, " and ")]++
		}
		mu.Unlock()
	})
	r.bound("command lines", fmt.Sprintf("%d: all combinations of up to %d unusual ones of %d things", len(jobs), maxDev, len(params)))

	// node faults while an oracle starts that may not
	usual := func(retries string) func(b *dbed) []string {
		return func(b *dbed) []string {
			return []string{"-updater-keystore-file", filepath.Join(dir, "good.json"), "-updater-keystore-pass", cliPass, "-pool-address", strings.ToLower(full), "-relayers-endpoints", "https://127.0.0.1:1",
				"-execution-endpoint", b.f.URL, "-consensus-endpoint", b.f.URL, "-num-retries", retries, "-api-port", fmt.Sprint(b.port), "-metrics-port", fmt.Sprint(b.port + 1)}
		}
	}
	find := func(param, alt string) func(f *FakeNode) {
		for _, p := range params {
			for _, a := range p.alts {
				if p.name == param && a.name == alt {
					return a.setup
				}
			}
		}
		panic(param + alt)
	}
	type refusal struct {
		name  string
		setup []func(f *FakeNode)
	}
	mem, balance := find("oracle members", "usual"), find("balance", "usual")
	refusals := []refusal{{"not an oracle member", []func(f *FakeNode){find("oracle members", "others"), balance}}, {"without balance", []func(f *FakeNode){mem, find("balance", "nothing")}},
		{"nodes on different chains", []func(f *FakeNode){mem, balance, find("consensus node", "on another chain")}}, {"may start", []func(f *FakeNode){mem, balance}}}
	var fjobs []sit
	for _, rf := range refusals {
		base := sit{name: "with a key, " + rf.name, args: usual("3"), setup: rf.setup, starts: rf.name == "may start"}
		_, reqs := one(base)
		if r.stop() {
			break
		}
		for i, q := range reqs {
			if base.starts && q.Kind == "headers" { // the rest of it is C21
				break
			}
			for _, x := range faultsFor(q) {
				if q.Kind == "eth_getBalance" && (x == "stale" || x == "wrongid") {
					continue
				}
				for _, sticky := range []bool{false, true} {
					i, q, x, sticky := i, q, x, sticky
					t := base
					t.name += fmt.Sprintf(", fault %s at request %d (%s), repeated %v", x, i, q.Kind, sticky)
					t.may, t.waits = true, sticky && q.Kind == "eth_syncing" && x == "rpc-obj" // the node says that it is syncing
					n := -1
					t.hook = func(p FReq) string {
						n++
						if n == i || sticky && n > i && p.Kind == q.Kind {
							return x
						}
						return ""
					}
					fjobs = append(fjobs, t)
				}
			}
		}
	}
	parallel(len(fjobs), func(_, i int) {
		if r.stop() || r.expired() {
			return
		}
		res, _ := one(fjobs[i])
		mu.Lock()
		out[fmt.Sprintf("fault while it starts, may start %v: ends %v", fjobs[i].starts, res.exit != "")]++
		mu.Unlock()
	})
	r.bound("faults", fmt.Sprintf("%d: every fault, single or repeated, of every request while an oracle starts that is not a member, without balance, on nodes of different chains, or proper", len(fjobs)))

	// how often a request is repeated
	_, reqs := one(sit{name: "with a key", args: usual("3"), setup: refusals[3].setup, starts: true})
	seen := map[string]bool{}
	var rjobs []sit
	type count struct {
		kind                  string
		n, fails, max, before int
		exact                 bool
	}
	var counts []*count
	starting := true // the first questions to the nodes are not repeated
	for i, q := range reqs {
		starting = starting && q.Kind != "eth_call:getAllOracleMembers"
		if seen[q.Kind] || starting {
			continue
		}
		seen[q.Kind] = true
		for _, n := range []int{1, 2, 3, 7, 0} {
			i, q, n := i, q, n
			c := &count{kind: q.Kind, n: n, exact: !onceOnly(q.Kind)}
			counts = append(counts, c)
			k, row := -1, 0
			t := sit{name: fmt.Sprintf("with a key, -num-retries %d, %s fails from request %d on", n, q.Kind, i), args: usual(fmt.Sprint(n)), setup: refusals[3].setup, starts: true, may: n != 0 || !c.exact, waits: n != 0 && q.Kind == "headers"}
			t.hook = func(p FReq) string {
				k++
				if k < i || p.Kind != q.Kind {
					if k >= i && p.Node == q.Node {
						row = 0
					}
					return ""
				}
				if n == 0 && c.fails >= 60 {
					return ""
				}
				c.fails++
				row++
				c.max = max(c.max, row)
				if q.Node == "cl" {
					return "500"
				}
				return "rpc-error"
			}
			rjobs = append(rjobs, t)
			if n > 1 && c.exact { // it fails once less than that
				c := &count{kind: q.Kind, n: n, max: n}
				counts = append(counts, c)
				k, row := -1, 0
				t := t
				t.name += fmt.Sprintf(", attempt %d succeeds", n)
				t.may, t.waits = false, false
				t.hook = func(p FReq) string {
					k++
					if k < i || p.Kind != q.Kind {
						return ""
					}
					row++
					if row >= n {
						return ""
					}
					if q.Node == "cl" {
						return "500"
					}
					return "rpc-error"
				}
				rjobs = append(rjobs, t)
			}
		}
	}
	parallel(len(rjobs), func(_, i int) {
		if r.stop() || r.expired() {
			return
		}
		t, c := rjobs[i], counts[i]
		one(t)
		if os.Getenv("VH_LOG") != "" {
			fmt.Println(t.name, *c)
		}
		if c.exact && (c.n > 0 && c.max%c.n != 0 || c.max == 0 || c.n == 0 && c.max < 60) {
			r.violate("retries", fmt.Sprintf("C30: %s: %d attempts were made", t.name, c.max), nil)
		}
		mu.Lock()
		out[fmt.Sprintf("-num-retries %d: %d attempts", c.n, c.max)]++
		mu.Unlock()
	})
	r.bound("retries", fmt.Sprintf("%d: every kind of request fails always, or all but the last time, with -num-retries 1, 2, 3, 7 and 0 (for ever, here 60 times)", len(rjobs)))
	r.addOutcomes(out)
}

// onceOnly are requests that the daemon does not repeat: those to send a report, those of the reconciliation,
// and those of the client library itself.
func onceOnly(kind string) bool {
	switch kind {
	case "eth_chainId", "genesis", "spec", "eth_getTransactionCount", "net_version", "eth_maxPriorityFeePerGas", "eth_getCode", "eth_estimateGas:submitReport", "eth_sendRawTransaction", "eth_call:claimedBalance":
		return true
	}
	return false
}

// answers says what is wrong with the answer at a port.
func answers(port int, path, want string) string {
	last := ""
	for i := 0; i < 100; i++ {
		c := http.Client{Timeout: 10 * time.Second}
		resp, err := c.Get(fmt.Sprintf("http://127.0.0.1:%d%s", port, path))
		if err == nil {
			body, _ := io.ReadAll(resp.Body)
			resp.Body.Close()
			c.CloseIdleConnections()
			if resp.StatusCode == 200 && strings.Contains(string(body), want) {
				return ""
			}
			return fmt.Sprintf("status %d", resp.StatusCode)
		}
		last = err.Error()
		time.Sleep(50 * time.Millisecond)
	}
	return last
}
