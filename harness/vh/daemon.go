package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/attestantio/go-eth2-client/spec"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/google/uuid"
)

// The daemon itself, built from the working tree with a scheduling point before every statement of
// package main and with its sleeps handed to the harness, against a fake consensus and execution node
// with the contract on it. Everything the daemon does is one sequence of events, and the harness decides
// at each of them what happens next: go on, a change of the chain, a signal, a kill.

// dScen is the history the chain tells.
type dScen struct {
	name    string
	d       uint64 // slot of deployment
	size    uint64
	end     uint64 // last finalized slot
	chain   uint64
	parts   map[uint64][]Part // offset -> block
	ref     map[uint64]common.Hash
	bal     map[uint64]*big.Int
	claims  map[common.Address]uint64 // block of the first claim of an address
	claimer common.Address
	cps     []uint64          // slots of the checkpoints that can be frozen
	saved   map[uint64]string // what is saved at each of them
}

var dKeys []*ecdsa.PrivateKey // 0: the daemon, 1 and 2: other oracles
var dAddr []common.Address

func setupDaemonCast() {
	for i := 0; i < 3; i++ {
		k, err := crypto.HexToECDSA(fmt.Sprintf("%064x", 0x7000+i))
		if err != nil {
			panic(err)
		}
		dKeys = append(dKeys, k)
		dAddr = append(dAddr, crypto.PubkeyToAddress(k.PublicKey))
	}
}

func longScen() *dScen {
	s := &dScen{name: "long", d: 14082456, size: 4, chain: oracle.MainnetChainId, parts: map[uint64][]Part{
		1: {pSub(vA, 1000), pSub(vB, 1000)}, 2: {pMevOK(vA, 7000)}, 3: {pDon(5), pSub(vC, 1000)}, 4: {pVanillaOK(vB, 900), pFee(500)},
		5: {pMissed(vA)}, 6: {pVanillaOK(vB, 90)}, 7: {pUnsub(vB)}, 8: {pDon(3)}, 9: {pMevOK(vA, 800)}, 10: {pBan(33)}, 12: {pVanillaOK(vA, 31)}, 13: {pDon(2)}}}
	s.end = s.d + 13
	return s
}

func shortScen() *dScen {
	s := &dScen{name: "short", d: 14082458, size: 2, chain: oracle.MainnetChainId, parts: map[uint64][]Part{
		0: {pSub(vA, 1000)}, 1: {pMevOK(vA, 7000), pSub(vB, 1000)}, 2: {pVanillaOK(vB, 900), pFee(500)}, 3: {pDon(5)}, 4: {pMevOK(vA, 800)}, 5: {pDon(2)}}}
	s.end = s.d + 5
	return s
}

// lateScen has not enough data at its first checkpoint, and its blocks cross a reload of the validators.
func lateScen() *dScen {
	s := &dScen{name: "late", d: 14083197, size: 3, chain: oracle.MainnetChainId, parts: map[uint64][]Part{
		4: {pSub(vA, 1000)}, 5: {pVanillaOK(vA, 70)}, 6: {pMissed(vD)}, 8: {pDon(5)}, 9: {pMissed(vA)}}}
	s.end = s.d + 9
	return s
}

func pFee(v int64) Part {
	return part(fmt.Sprintf("fee %d", v), func(b *Blk) { b.Fee = append(b.Fee, v) })
}

func (s *dScen) isCp(slot uint64) bool { _, ok := s.ref[slot]; return ok }

// fill puts the chain of the scenario on a node.
func (s *dScen) fill(f *FakeNode) {
	for i := uint64(0); s.d+i <= s.end+s.size+1; i++ {
		b := mkBlock(s.d+i, s.parts[i])
		b.Fork = spec.DataVersionElectra
		f.put(uniq(b))
	}
	for _, v := range []*UVal{vA, vB, vC, vD, vE, strangerVal} {
		f.Vals[v.Idx] = v
	}
	f.DeployedBlock = s.d - 900
	f.CkptSize = s.size
	f.Members = append([]common.Address{}, dAddr...)
	f.Collateral = un(1000)
	f.Head, f.HeadNumber = s.end+64, s.end+64-900
	f.Finalized = s.end
	f.BalanceAt = func(n uint64) *big.Int {
		best := bi(0)
		bestN := uint64(0)
		for k, v := range s.bal {
			if k <= n && k >= bestN {
				best, bestN = v, k
			}
		}
		return sub(best, add(s.claimed(feesAddr, n), s.claimed(s.claimer, n)))
	}
	f.ClaimedAt = s.claimed
}

// claimed is what an address claimed up to a block: one address and the operator claim in every block.
func (s *dScen) claimed(a common.Address, block uint64) *big.Int {
	from, ok := s.claims[a]
	if !ok || block < from {
		return bi(0)
	}
	return new(big.Int).SetUint64(block - from + 1)
}

// prepare computes in this process what an oracle that is never stopped commits, and has the independent
// model confirm each root.
func (s *dScen) prepare() error {
	f := newFakeNode(s.chain)
	s.fill(f)
	s.ref, s.bal, s.saved = map[uint64]common.Hash{}, map[uint64]*big.Int{}, map[uint64]string{}
	s.claims, s.claimer = map[common.Address]uint64{}, common.Address{}
	f.start()
	defer f.stop()
	on := newOnchainFor(f)
	cli := &config.CliConfig{ConsensusEndpoint: f.URL, ExecutionEndpoint: f.URL, PoolAddress: strings.ToLower(poolAddr.Hex()), NumRetries: 1, DryRun: true}
	var cfg *oracle.Config
	if how := guard(func() { cfg = on.GetConfigFromContract(cli) }); how != "" {
		return fmt.Errorf("configuration: %s", how)
	}
	o := oracle.NewOracle(cfg)
	o.SetGetSetOfValidatorsFunc(on.GetSetOfValidators)
	o.GetPendingConsolidationsFunc(on.GetPendingConsolidations)
	w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE, strangerVal)
	mc := *cfg
	m := newModel(&mc)
	for slot := s.d; slot <= s.end; slot++ {
		var err error
		how := guard(func() {
			_, err = o.AdvanceStateToNextSlot(on.FetchFullBlock(slot, o))
		})
		if how != "" || err != nil {
			return fmt.Errorf("slot %d: %s %v", slot, how, err)
		}
		b := f.Slots[slot]
		next, refused := m.step(w, b)
		if refused || len(next) != 1 {
			return fmt.Errorf("slot %d: the model has %d outcomes", slot, len(next))
		}
		m = next[0]
		sum, neg := liabilities(o.State())
		if neg != "" {
			return fmt.Errorf("slot %d: %s", slot, neg)
		}
		if !b.Missed {
			s.bal[b.Number] = sum
			// from the block after the one in which they can be claimed for at all
			for _, a := range o.GetUniqueWithdrawalAddresses() {
				if sum.Cmp(bi(200)) < 0 { // nothing to claim yet
					break
				}
				a := common.HexToAddress(a)
				if _, ok := s.claims[a]; !ok && a != feesAddr && s.claimer == (common.Address{}) {
					s.claimer, s.claims[a] = a, b.Number+1
				}
			}
			if _, ok := s.claims[feesAddr]; !ok && sum.Cmp(bi(200)) >= 0 {
				s.claims[feesAddr] = b.Number + 1
			}
		}
		if (slot-s.d)%s.size == 0 {
			if !o.FreezeCheckpoint() {
				if len(m.V) != 0 {
					return fmt.Errorf("slot %d: nothing frozen", slot)
				}
				continue
			}
			fr := o.LatestCommitedState()
			if d := checkOnchain(fr, refLeaves(feesAddr, m.Pool, m.V), true); d != "" {
				return fmt.Errorf("slot %d: %s", slot, d)
			}
			s.ref[slot] = common.HexToHash(fr.MerkleRoot)
			s.cps = append(s.cps, slot)
			sb, err := savedBytes(o)
			if err != nil {
				return err
			}
			s.saved[slot] = string(sb)
		}
	}
	return nil
}

// ---------------------------------------------------------------- state of chain and folder

// chainSt is what of the chain changes.
type chainSt struct {
	LastSlot  uint64
	Root      common.Hash
	Voted     map[common.Address]common.Hash
	Reports   map[common.Hash]Report
	Nonce     map[common.Address]uint64
	Finalized uint64
}

func (c chainSt) clone() chainSt {
	n := c
	n.Voted, n.Reports, n.Nonce = map[common.Address]common.Hash{}, map[common.Hash]Report{}, map[common.Address]uint64{}
	for k, v := range c.Voted {
		n.Voted[k] = v
	}
	for k, v := range c.Reports {
		n.Reports[k] = v
	}
	for k, v := range c.Nonce {
		n.Nonce[k] = v
	}
	return n
}

func (c chainSt) key() string {
	var l []string
	for k, v := range c.Voted {
		l = append(l, k.Hex()+v.Hex())
	}
	for k, v := range c.Reports {
		l = append(l, fmt.Sprint(k.Hex(), v.Slot, v.Votes))
	}
	sort.Strings(l)
	return fmt.Sprint(c.LastSlot, c.Root.Hex(), c.Finalized, l)
}

// brief describes the chain for people.
func (c chainSt) brief(s *dScen) string {
	var l []string
	for _, r := range c.Reports {
		if r.Votes > 0 {
			ok := "right root"
			if s.ref[r.Slot] != r.Root {
				ok = "WRONG root"
			}
			l = append(l, fmt.Sprintf("report for slot D+%d (%s) with %d votes", int64(r.Slot)-int64(s.d), ok, r.Votes))
		}
	}
	sort.Strings(l)
	return fmt.Sprintf("last consolidated slot D%+d, finalized D%+d, %v", int64(c.LastSlot)-int64(s.d), int64(c.Finalized)-int64(s.d), l)
}

func (f *FakeNode) saveChain() chainSt {
	c := chainSt{LastSlot: f.LastSlot, Root: f.Root, Finalized: f.Finalized, Voted: map[common.Address]common.Hash{}, Reports: map[common.Hash]Report{}, Nonce: map[common.Address]uint64{}}
	for k, v := range f.Voted {
		c.Voted[k] = v
	}
	for k, v := range f.Reports {
		c.Reports[k] = *v
	}
	for k, v := range f.nonce {
		c.Nonce[k] = v
	}
	return c
}

func (f *FakeNode) loadChain(c chainSt) {
	c = c.clone()
	f.LastSlot, f.Root, f.Finalized, f.Voted, f.nonce = c.LastSlot, c.Root, c.Finalized, c.Voted, c.Nonce
	f.Reports = map[common.Hash]*Report{}
	for k, v := range c.Reports {
		r := v
		f.Reports[k] = &r
	}
}

type folder map[string]string

func readFolder(dir string) folder {
	f := folder{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if b, err := os.ReadFile(filepath.Join(dir, e.Name())); err == nil {
			f[e.Name()] = string(b)
		}
	}
	return f
}

func (f folder) names() (l []string) {
	for n := range f {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}

func (f folder) key() string {
	h := sha256.New()
	for _, n := range f.names() {
		fmt.Fprintf(h, "%s %d %s", n, len(f[n]), f[n])
	}
	return hex.EncodeToString(h.Sum(nil)[:12])
}

// pstate is what a restart starts from.
type pstate struct {
	fold  folder
	chain chainSt
	how   []string // how it was reached
}

func (p *pstate) key() string { return p.fold.key() + p.chain.key() }

// describe is for replays.
func (p *pstate) describe(s *dScen) map[string]any {
	files := map[string]string{}
	for n, c := range p.fold {
		var st struct {
			L uint64              `json:"latest_processed_slot"`
			C map[uint64]struct{} `json:"commited_states"`
		}
		json.Unmarshal([]byte(c), &st)
		var cs []int64
		for k := range st.C {
			cs = append(cs, int64(k)-int64(s.d))
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
		files[n] = fmt.Sprintf("latest processed slot D%+d, commited D+%v", int64(st.L)-int64(s.d), cs)
	}
	return map[string]any{"folder": files, "chain": p.chain.brief(s), "reached": p.how}
}

// ---------------------------------------------------------------- one daemon under control

type devent struct {
	kind  string // step, recv, sleep, req, exit
	gid   int
	where string
	dur   time.Duration
	req   FReq
	reply chan struct{}
	code  string
}

func (e *devent) String() string {
	switch e.kind {
	case "req":
		return "request " + e.req.Kind + " " + e.req.Arg
	case "sleep":
		return fmt.Sprintf("sleep %s at %s", e.dur, e.where)
	}
	return e.kind + " " + e.where + e.code
}

type dbed struct {
	s      *dScen
	f      *FakeNode
	dir    string
	ln     net.Listener
	ev     chan *devent
	port   int
	gen    atomic.Int64
	active atomic.Bool
}

var portBase atomic.Int64

func newDbed(s *dScen, worker int) *dbed {
	f := newFakeNode(s.chain)
	s.fill(f)
	f.start()
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "daemon")
	if err != nil {
		panic(err)
	}
	b := &dbed{s: s, f: f, dir: dir, ev: make(chan *devent, 64)}
	b.ln, err = net.Listen("unix", filepath.Join(dir, "ctl"))
	if err != nil {
		panic(err)
	}
	go b.accept()
	f.Before = b.onReq
	js, err := keystore.EncryptKey(&keystore.Key{Id: uuid.New(), Address: dAddr[0], PrivateKey: dKeys[0]}, "secret", 2, 1)
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(dir, "key.json"), js, 0600)
	b.nextPort()
	return b
}

// nextPort finds two free ports below the range the system hands out by itself.
func (b *dbed) nextPort() {
	for {
		p := 12000 + int(portBase.Add(2)+int64(os.Getpid()%500)*37)%20000
		p &^= 1
		ok := true
		for i := 0; i < 2; i++ {
			l, err := net.Listen("tcp", fmt.Sprintf(":%d", p+i))
			if err != nil {
				ok = false
				break
			}
			l.Close()
		}
		if ok {
			b.port = p
			return
		}
	}
}

func (b *dbed) close() { b.ln.Close(); b.f.stop(); os.RemoveAll(b.dir) }

func (b *dbed) accept() {
	for {
		c, err := b.ln.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			gen := b.gen.Load()
			r := bufio.NewReader(c)
			for {
				l, err := r.ReadString('\n')
				if err != nil {
					return
				}
				fs := strings.Fields(l)
				e := &devent{kind: fs[1], reply: make(chan struct{})}
				e.gid, _ = strconv.Atoi(fs[0])
				e.where = fs[len(fs)-1]
				if e.kind == "sleep" {
					ms, _ := strconv.ParseInt(fs[2], 10, 64)
					e.dur = time.Duration(ms) * time.Millisecond
				}
				if gen != b.gen.Load() {
					return
				}
				b.ev <- e
				<-e.reply
				if _, err := c.Write([]byte("\n")); err != nil {
					return
				}
			}
		}()
	}
}

// observing are the requests whose answer depends on what changes on the chain.
func observing(q FReq) bool {
	switch q.Kind {
	case "headers", "syncing", "eth_syncing", "eth_call:lastConsolidatedSlot", "eth_call:rewardsRoot", "eth_call:addressToVotedReportHash",
		"eth_call:reportHashToReport", "eth_estimateGas:submitReport", "eth_sendRawTransaction", "eth_getTransactionReceipt":
		return true
	}
	return false
}

func (b *dbed) onReq(q FReq) {
	if !b.active.Load() {
		return
	}
	e := &devent{kind: "req", req: q, reply: make(chan struct{})}
	b.ev <- e
	<-e.reply
}

// dplan says what the harness does during a run. All of it is called with the daemon at a standstill.
type dplan struct {
	dryRun  bool
	syncURL string
	args    func(b *dbed) []string // instead of the usual ones
	// at is called at every event, with its number; it returns what to do
	at func(n int, e *devent) action
	// see is called at every event before it goes on, also while a signal is handled
	see func(e *devent)
	// idle is called when the daemon only waits: it changes the chain and returns true, or false if there is nothing left to come
	idle func() bool
	// after a signal the goroutine that handles it runs alone, but before its k-th statement the main loop does inter[k] more events
	inter map[int]int
}

type action int

const (
	goOn action = iota
	doKill
	doTerm
)

type dresult struct {
	exit    string // "" if it was still waiting at the end (and was killed)
	events  int
	fold    folder
	chain   chainSt
	snaps   []*pstate // distinct persistent states on the way
	log     string
	trace   []string
	err     string // the harness could not do its job
	steps   int    // statements executed after the signal
	blocked int    // how often the main loop had to go on for the signal to be handled
}

// start runs the daemon from a persistent state under a plan.
func (b *dbed) start(p *pstate, pl *dplan) (res *dresult) {
	for try := 0; ; try++ {
		res = b.once(p, pl)
		if res.err == "" && strings.Contains(res.log, "address already in use") && res.exit != "" && try < 20 {
			b.nextPort()
			continue
		}
		return
	}
}

const idleSleeps = 3
const hangAfter = 120 * time.Second

func (b *dbed) once(p *pstate, pl *dplan) *dresult {
	res := &dresult{}
	b.gen.Add(1)
	sd := filepath.Join(b.dir, oracle.StateFolder)
	os.RemoveAll(sd)
	os.RemoveAll(filepath.Join(b.dir, "oracle-logs"))
	if len(p.fold) > 0 {
		os.MkdirAll(sd, 0777)
		for n, c := range p.fold {
			if err := os.WriteFile(filepath.Join(sd, n), []byte(c), 0644); err != nil {
				res.err = err.Error()
				return res
			}
		}
	}
	f := b.f
	f.mu.Lock()
	f.loadChain(p.chain)
	f.Seq, f.Sent, f.TxMode, f.EstErr = 0, nil, "", ""
	f.mu.Unlock()
	args := []string{"-consensus-endpoint", f.URL, "-execution-endpoint", f.URL, "-pool-address", strings.ToLower(poolAddr.Hex()), "-relayers-endpoints", "https://127.0.0.1:1",
		"-num-retries", "3", "-api-port", fmt.Sprint(b.port), "-metrics-port", fmt.Sprint(b.port + 1)}
	if pl.dryRun {
		args = append(args, "-dry-run")
	} else {
		args = append(args, "-updater-keystore-file", filepath.Join(b.dir, "key.json"), "-updater-keystore-pass", "secret")
	}
	if pl.syncURL != "" {
		args = append(args, "-checkpoint-sync-url", pl.syncURL)
	}
	if pl.args != nil {
		args = pl.args(b)
	}
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_WORK"), "daemon"), args...)
	cmd.Dir = b.dir
	cmd.Env = append(os.Environ(), "VERIF_CTRL="+filepath.Join(b.dir, "ctl"), "GOMAXPROCS=2", "GOGC=400")
	var out lockedBuf
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	b.active.Store(true)
	if err := cmd.Start(); err != nil {
		res.err = err.Error()
		return res
	}
	go func() {
		err := cmd.Wait()
		code := "exit status 0"
		if err != nil {
			code = err.Error()
		}
		b.ev <- &devent{kind: "exit", code: code}
	}()

	release := func(e *devent) { close(e.reply) }
	lastKey, lastStamp := "", ""
	sleeps := 0
	// note records the persistent state if it changed
	note := func() {
		f.mu.Lock()
		c := f.saveChain()
		f.mu.Unlock()
		st := stampOf(sd) + c.key()
		if st == lastStamp {
			return
		}
		lastStamp = st
		fo := readFolder(sd)
		if k := fo.key() + c.key(); k != lastKey {
			lastKey = k
			res.snaps = append(res.snaps, &pstate{fold: fo, chain: c})
			sleeps = 0
		}
	}
	ended := false // killed by the harness
	kill := func() {
		if !ended {
			ended = true
			cmd.Process.Kill()
		}
	}
	var wait func(d time.Duration) *devent // next event; nil after d
	gone := false
	wait = func(d time.Duration) *devent {
		t := time.NewTimer(d)
		defer t.Stop()
		for {
			select {
			case e := <-b.ev:
				if e.kind == "exit" {
					gone = true
					res.exit = e.code
					return e
				}
				if ended {
					release(e)
					continue
				}
				note()
				return e
			case <-t.C:
				return nil
			}
		}
	}
	count := func(e *devent) {
		res.events++
		if pl.see != nil {
			pl.see(e)
		}
		if len(res.trace) < 6000 {
			res.trace = append(res.trace, e.String())
		}
	}
	ready, sup := false, -1 // the goroutine that waits for signals does so
	var held []*devent      // events of the main loop before that
	var pend []*devent
	for !gone {
		var e *devent
		if len(pend) > 0 {
			e, pend = pend[0], pend[1:]
		} else {
			d := hangAfter
			if len(held) > 0 {
				d = 400 * time.Millisecond
			}
			e = wait(d)
			if gone {
				break
			}
			if e == nil && len(held) > 0 { // nothing waits for signals
				ready, pend, held = true, held, nil
				continue
			}
			if e == nil {
				res.err = fmt.Sprintf("no event for %s", hangAfter)
				kill()
				for !gone {
					wait(time.Minute)
				}
				break
			}
		}
		switch {
		case ended:
			release(e)
		case e.kind == "recv":
			sup, ready, pend, held = e.gid, true, held, nil
			release(e)
		case !ready && e.kind != "req" && e.gid != 1:
			held = append(held, e)
		default:
			count(e)
			act := goOn
			if pl.at != nil {
				act = pl.at(res.events, e)
			}
			if act == doKill {
				kill()
				release(e)
				continue
			}
			if act == doTerm {
				cmd.Process.Signal(syscall.SIGTERM)
				loop := held
				held = nil
				if !ready && e.gid == 1 && e.kind != "req" {
					release(e)
				} else {
					loop = append(loop, e)
				}
				for !gone {
					d := 20 * time.Second
					if len(loop) > 0 && loop[0].kind == "req" { // the oracle can be locked during a request
						d = 500 * time.Millisecond
					}
					x := wait(d)
					switch {
					case gone:
					case x != nil && x.kind == "recv":
						sup, ready = x.gid, true
						release(x)
					case x != nil && !ready && x.gid == 1 && x.kind != "req":
						release(x)
					case x == nil: // the signal changes nothing as long as the main loop stands still
						if len(loop) == 0 {
							res.err = "no event after the signal"
							kill()
							continue
						}
						res.blocked++
						count(loop[0])
						release(loop[0])
						loop = loop[1:]
					case x.gid == sup && x.kind != "req":
						res.steps++
						for k := pl.inter[res.steps]; k > 0 && len(loop) > 0 && !gone; k-- {
							count(loop[0])
							release(loop[0])
							loop = loop[1:]
							if y := wait(20 * time.Second); y != nil && !gone {
								loop = append(loop, y)
							}
						}
						if !gone {
							release(x)
						}
					default:
						loop = append(loop, x)
					}
				}
				held = append(held, loop...)
				continue
			}
			if e.kind == "req" && e.req.Kind == "block" {
				sleeps = 0
			}
			if e.kind == "sleep" {
				sleeps++
				if sleeps > idleSleeps {
					if pl.idle != nil && pl.idle() {
						sleeps = 0
					} else {
						kill()
					}
				}
			}
			release(e)
		}
	}
	b.active.Store(false)
	if ended {
		res.exit = ""
	}
	for _, h := range append(held, pend...) {
		release(h)
	}
	// until everything that was sent has been dealt with
	for i := 0; i < 10000; i++ {
		select {
		case x := <-b.ev:
			release(x)
			continue
		case <-time.After(time.Millisecond):
		}
		if f.conns.Load() == 0 && len(b.ev) == 0 {
			break
		}
	}
	note()
	f.mu.Lock()
	res.chain = f.saveChain()
	f.mu.Unlock()
	res.fold = readFolder(sd)
	res.log = out.String()
	return res
}

func stampOf(dir string) string {
	es, _ := os.ReadDir(dir)
	var sb strings.Builder
	for _, e := range es {
		if i, err := e.Info(); err == nil {
			st := i.Sys().(*syscall.Stat_t)
			fmt.Fprintf(&sb, "%s %d %d %d;", e.Name(), i.Size(), i.ModTime().UnixNano(), st.Ino)
		}
	}
	return sb.String() + "|"
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// tail is the end of a log.
func tail(s string, n int) []string {
	ls := strings.Split(strings.TrimRight(s, "\n"), "\n")
	if len(ls) > n {
		ls = ls[len(ls)-n:]
	}
	for i := range ls {
		if len(ls[i]) > 300 {
			ls[i] = ls[i][:300]
		}
	}
	return ls
}
