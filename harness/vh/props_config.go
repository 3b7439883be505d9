package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/attestantio/go-eth2-client/spec"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/rs/zerolog"
)

func init() { registerSharded("C29", "fault_enumeration", runC29) }

// confScen is one deployment of the pool, as its nodes show it.
type confScen struct {
	chain, clChain uint64
	slot           uint64
	shift          uint64 // block number = slot - shift
	fork           spec.DataVersion
	ssz            bool
	txs            []confTx
	nowFee         int64 // the fee the contract has by now
	ckpt           uint64
	coll           *big.Int
	recip          common.Address
	consMissing    bool
	consOther      bool // the consensus block of the slot has another execution block
	later          uint64
	poolCase       int
	switched       bool
}

type confTx struct {
	name string
	fee  int64 // the fee of the pool it carries, -1 for none
	mk   func() types.TxData
}

func (s confScen) String() string {
	var t []string
	for _, x := range s.txs {
		t = append(t, x.name)
	}
	w := ""
	if s.consMissing {
		w += ", no consensus block there"
	}
	if s.consOther {
		w += ", the consensus block there has another execution block"
	}
	enc := "JSON"
	if s.ssz {
		enc = "SSZ"
	}
	return fmt.Sprintf("chain %d/%d, deployed in slot %d block %d (%s, %s%s) with [%s]; contract now: fee %d, checkpoints %d, collateral %s, fee recipient %s; head %d blocks later",
		s.chain, s.clChain, s.slot, s.slot-s.shift, s.fork, enc, w, strings.Join(t, "; "), s.nowFee, s.ckpt, s.coll, s.recip, s.later)
}

var confNets = map[uint64]string{1: "mainnet", 5: "goerli", 17000: "holesky", 560048: "hoodi"}
var confDefault = map[uint64]int{1: 700, 560048: 1000}

func initData(fee int64) []byte {
	d, err := poolABI.Pack("initialize", stranger, bi(80000000), bi(fee), feesAddr, uint64(7200), uint64(3))
	if err != nil {
		panic(err)
	}
	return d
}

// creation is the data of a transaction that creates the proxy, with the call in its arguments at some offset.
func creation(code int, call []byte) []byte {
	d := bytes.Repeat([]byte{0x60, 0x80, 0x15, 0x1e}, code/4+1)[:code] // contains the start of the selector
	w := func(n uint64) { d = append(d, new(big.Int).SetUint64(n).FillBytes(make([]byte, 32))...) }
	d = append(append(d, make([]byte, 12)...), stranger[:]...)
	d = append(append(d, make([]byte, 12)...), otherRec[:]...)
	w(96)
	w(uint64(len(call)))
	d = append(d, call...)
	for len(call)%32 != 0 {
		call = append(call, 0)
		d = append(d, 0)
	}
	return d
}

// want says which configuration the scenario leads to, nil when the oracle has to stop.
func (s confScen) want(c *config.CliConfig) *oracle.Config {
	net := confNets[s.chain]
	if net == "" || s.chain != s.clChain || s.consMissing || s.consOther {
		return nil
	}
	fee := int64(-1)
	for _, t := range s.txs {
		if t.fee >= 0 {
			fee = t.fee
		}
	}
	if fee < 0 {
		d, ok := confDefault[s.chain]
		if !ok {
			return nil
		}
		fee = int64(d)
	}
	return &oracle.Config{ConsensusEndpoint: c.ConsensusEndpoint, ExecutionEndpoint: c.ExecutionEndpoint, Network: net, PoolAddress: c.PoolAddress,
		DeployedSlot: s.slot, DeployedBlock: s.slot - s.shift, CheckPointSizeInSlots: s.ckpt, PoolFeesPercentOver10000: int(fee), PoolFeesAddress: s.recip.Hex(),
		CollateralInWei: s.coll, DryRun: c.DryRun, NumRetries: c.NumRetries, UpdaterKeyPass: c.UpdaterKeyPass, UpdaterKeyFile: c.UpdaterKeyFile}
}

type confBed struct {
	r    *Run
	node *FakeNode
}

// run derives the configuration under a fault plan: how it ended, what came out, what was asked.
func (x *confBed) run(s confScen, plan func(q FReq) string) (how string, got *oracle.Config, cli *config.CliConfig, log []FReq) {
	f := x.node
	b := &Blk{Slot: s.slot, Number: s.slot - s.shift, Prop: vA, FeeRec: otherRec, Fork: s.fork}
	f.mu.Lock()
	f.Chain, f.CLChain, f.clZero, f.SSZ = s.chain, s.clChain, true, s.ssz
	if s.switched { // the execution node moves to another chain after the connection
		f.Chain = s.clChain
	}
	f.Slots, f.Number = map[uint64]*Blk{}, map[uint64]*Blk{b.Number: b}
	f.Slots[s.slot] = b
	if s.consOther {
		o := *b
		o.Number += 5
		f.Slots[s.slot] = &o
	}
	if s.consMissing {
		delete(f.Slots, s.slot)
	}
	for d := uint64(1); d <= 3; d++ { // its neighbours exist as well
		for _, n := range []*Blk{{Slot: s.slot + d, Number: b.Number + d, Prop: vB, FeeRec: otherRec, Fork: s.fork}, {Slot: s.slot - d, Number: b.Number - d, Prop: vC, FeeRec: otherRec, Fork: s.fork}} {
			f.Slots[n.Slot], f.Number[n.Number] = n, n
		}
	}
	f.DeployedBlock, f.DeployTxs = b.Number, nil
	for i, t := range s.txs {
		d := t.mk()
		switch v := d.(type) {
		case *types.LegacyTx:
			v.Nonce = uint64(i)
		case *types.DynamicFeeTx:
			v.Nonce = uint64(i)
			v.ChainID = new(big.Int).SetUint64(s.chain)
		}
		tx, err := types.SignNewTx(txKeys[kUser], types.LatestSignerForChainID(new(big.Int).SetUint64(s.chain)), d)
		if err != nil {
			panic(err)
		}
		f.DeployTxs = append(f.DeployTxs, tx)
	}
	f.PoolFee, f.CkptSize, f.Collateral, f.FeeRecipient = bi(s.nowFee), s.ckpt, s.coll, s.recip
	f.HeadNumber = b.Number + s.later
	f.Seq, f.Log, f.Hook, f.KeepLog = 0, nil, nil, true
	f.mu.Unlock()
	pool := []string{strings.ToLower(poolAddr.Hex()), poolAddr.Hex(), "0x" + strings.ToUpper(poolAddr.Hex()[2:])}[s.poolCase]
	cli = &config.CliConfig{ConsensusEndpoint: f.URL, ExecutionEndpoint: f.URL, PoolAddress: pool, NumRetries: 3, UpdaterKeyFile: "file", UpdaterKeyPass: "pass", DryRun: s.later%2 == 1}
	on, err := oracle.NewOnchain(cli, nil)
	if err != nil {
		return "no connection: " + err.Error(), nil, cli, nil
	}
	// from here on: the requests of the function itself
	f.mu.Lock()
	f.Chain = s.chain
	f.Seq, f.Log, f.Hook = 0, nil, plan
	f.mu.Unlock()
	how = firstLine(guard(func() { got = on.GetConfigFromContract(cli) }))
	f.mu.Lock()
	log, f.Hook = f.Log, nil
	f.mu.Unlock()
	x.r.Evals.Add(1)
	x.r.Transitions.Add(int64(len(log)))
	return
}

func runC29(r *Run) {
	k, n := shard()
	node := newFakeNode(oracle.MainnetChainId)
	for _, v := range []*UVal{vA, vB, vC} {
		node.Vals[v.Idx] = v
	}
	node.start()
	defer node.stop()
	zerolog.SetGlobalLevel(zerolog.Disabled)
	x := &confBed{r, node}
	to := func(a common.Address, d []byte) func() types.TxData {
		return func() types.TxData {
			return &types.LegacyTx{To: &a, GasPrice: bi(9), Gas: 90000, Value: bi(0), Data: d}
		}
	}
	dyn := func(a *common.Address, d []byte) func() types.TxData {
		return func() types.TxData {
			return &types.DynamicFeeTx{To: a, GasFeeCap: bi(9), GasTipCap: bi(1), Gas: 90000, Value: bi(1), Data: d}
		}
	}
	mkCall := func(name string, args ...any) []byte {
		d, err := poolABI.Pack(name, args...)
		if err != nil {
			panic(err)
		}
		return d
	}
	noFee := func(name string, mk func() types.TxData) confTx { return confTx{name, -1, mk} }
	inDirect := func(fee int64) confTx {
		return confTx{fmt.Sprintf("initialize with fee %d", fee), fee, to(poolAddr, initData(fee))}
	}
	inProxy := func(fee int64, at int) confTx {
		return confTx{fmt.Sprintf("creation of the proxy with initialize, fee %d, code of %d bytes", fee, at), fee, dyn(nil, creation(at, initData(fee)))}
	}
	elsewhere := common.HexToAddress("0x00000000000000000000000000000000000e15e0")
	almost := poolAddr
	almost[19] ^= 1
	others := []confTx{
		noFee("transfer to the pool", dyn(&poolAddr, nil)),
		noFee("short data to the pool", to(poolAddr, []byte{0x15, 0x1e, 0x4d})),
		noFee("updatePoolFee(900) of the pool", to(poolAddr, mkCall("updatePoolFee", bi(900)))),
		noFee("unknown method of the pool", to(poolAddr, append([]byte{0x15, 0x1e, 0x4d, 0x3c}, initData(950)[4:]...))),
		noFee("initialize(960) of another contract", to(elsewhere, initData(960))),
		noFee("initialize(970) of an address like the pool", dyn(&almost, initData(970))),
		noFee("creation without initialize", dyn(nil, creation(77, []byte{1, 2, 3, 4}))),
		noFee("creation with the selector alone", to2(append(bytes.Repeat([]byte{9}, 50), initData(1)[:4]...))),
		noFee("creation with the arguments cut off", to2(append(bytes.Repeat([]byte{9}, 51), initData(980)[:100]...))),
		noFee("creation with the selector in the code", to2(append(append(bytes.Repeat([]byte{9}, 52), initData(1)[:4]...), bytes.Repeat([]byte{0xff}, 200)...))),
		noFee("creation without data", to2(nil)),
	}
	// creation whose code has the selector before the real call
	noise := append(append(append([]byte{1, 2, 3}, initData(1)[:4]...), bytes.Repeat([]byte{0xff}, 211)...), initData(333)...)
	noisy := confTx{"creation with the selector in the code and then initialize, fee 333", 333, to2(noise)}
	base := confScen{chain: 1, clChain: 1, slot: 1200000, shift: 900, fork: spec.DataVersionCapella, nowFee: 888, ckpt: 7200, coll: bi(80000000), recip: feesAddr, later: 1000}

	var scens []confScen
	add := func(f func(s *confScen)) {
		s := base
		f(&s)
		scens = append(scens, s)
	}
	chains := []uint64{1, 5, 17000, 560048, 11155111, 100, 10, 2}
	for _, c := range chains {
		for _, d := range chains {
			for _, txs := range [][]confTx{nil, {inDirect(650)}, {inProxy(0, 64)}} {
				for _, sw := range []bool{false, true} {
					add(func(s *confScen) { s.chain, s.clChain, s.txs, s.switched = c, d, txs, sw })
				}
			}
		}
	}
	fees := []int64{0, 1, 500, 700, 701, 1000, 9999, 10000}
	for _, c := range []uint64{1, 17000, 560048} {
		for _, fee := range fees {
			for _, now := range []int64{fee, 700, 1000, 321} {
				add(func(s *confScen) { s.chain, s.clChain, s.nowFee, s.txs = c, c, now, []confTx{inDirect(fee)} })
				add(func(s *confScen) { s.chain, s.clChain, s.nowFee, s.txs = c, c, now, []confTx{inProxy(fee, 500)} })
			}
		}
	}
	for at := 0; at <= 130; at++ {
		add(func(s *confScen) { s.txs = []confTx{inProxy(432, at)} })
	}
	// lists of transactions around at most one initialize of the pool
	maxLen := r.pick(3, 4)
	var rec func(pre []confTx)
	rec = func(pre []confTx) {
		for _, c := range []uint64{1, 5, 560048} {
			add(func(s *confScen) { s.chain, s.clChain, s.txs = c, c, pre })
			for i := 0; i <= len(pre); i++ {
				for _, t := range []confTx{inDirect(640), inProxy(641, 33), noisy} {
					if c == 5 && (i != len(pre) || len(pre) > 1) {
						continue
					}
					l := append(append(append([]confTx{}, pre[:i]...), t), pre[i:]...)
					add(func(s *confScen) { s.chain, s.clChain, s.txs = c, c, l })
				}
			}
		}
		if len(pre) < maxLen {
			for _, o := range others {
				rec(append(append([]confTx{}, pre...), o))
			}
		}
	}
	rec(nil)
	// where and when, and what the contract says
	for _, slot := range []uint64{4, 1199, 1200000, 4700014, 5344344, 4040404, 11649600} {
		for _, shift := range []uint64{0, 1} {
			if slot > 100000 {
				shift *= 1000
			}
			for _, fork := range []spec.DataVersion{spec.DataVersionBellatrix, spec.DataVersionCapella, spec.DataVersionDeneb, spec.DataVersionElectra, spec.DataVersionFulu} {
				for _, ssz := range []bool{false, true} {
					for _, w := range []int{0, 1, 2} {
						add(func(s *confScen) {
							s.slot, s.shift, s.fork, s.ssz, s.consMissing, s.consOther, s.txs = slot, shift, fork, ssz, w == 1, w == 2, []confTx{inDirect(640)}
						})
					}
				}
			}
		}
	}
	for _, ckpt := range []uint64{1, 2, 50, 7200, 100800, 1 << 40} {
		for _, coll := range []*big.Int{bi(0), bi(1), bi(80000000000000000), new(big.Int).Lsh(bi(1), 200)} {
			for _, rc := range []common.Address{feesAddr, {}, common.HexToAddress("0xABCDEFabcdef0123456789ABCDEFabcdef012345")} {
				for _, later := range []uint64{0, 1, 500, 12345} {
					for pc := 0; pc < 3; pc++ {
						add(func(s *confScen) {
							s.ckpt, s.coll, s.recip, s.later, s.poolCase, s.txs = ckpt, coll, rc, later, pc, []confTx{others[4], inProxy(640, 40)}
						})
					}
				}
			}
		}
	}
	type replay struct {
		Scenario string
		Fault    string
		Requests []string
		Got      string
	}
	out := map[string]int64{}
	judge := func(s confScen, fault string, how string, got *oracle.Config, cli *config.CliConfig, log []FReq) {
		want := s.want(cli)
		fail := func(kind, msg string) {
			var l []string
			for _, q := range log {
				l = append(l, q.String())
			}
			r.violate("C29 "+kind, fmt.Sprintf("C29: %s%s: %s", s, fault, msg), replay{s.String(), fault, l, fmt.Sprintf("%s %+v", how, got)})
		}
		switch {
		case how != "" && (want == nil || fault != ""):
			out["stops"]++
			return
		case how != "":
			fail("stops", "the oracle does not come up: "+how)
		case want == nil:
			fail("goes on", fmt.Sprintf("the oracle should stop and goes on with %+v", *got))
		case got == nil:
			fail("nil", "no configuration and no stop")
		default:
			if d := confDiff(*got, *want); d != "" {
				fail("differs "+strings.Fields(d)[0], "the configuration differs from the contract: "+d)
				return
			}
			out["configured as the contract says"]++
			if fault != "" {
				out["configured in spite of a fault"]++
			}
		}
	}
	for i, s := range scens {
		if i%n != k || r.stop() || r.expired() {
			continue
		}
		how, got, cli, log := x.run(s, nil)
		judge(s, "", how, got, cli, log)
		r.States.Add(1)
		if k == 0 && i%200 == 0 {
			r.sample(fmt.Sprintf("%s: %s %+v", s, how, got))
		}
	}
	// faults of the nodes
	var fs []confScen
	for _, txs := range [][]confTx{{inDirect(640)}, {others[4], inProxy(640, 40)}, nil} {
		for _, c := range []uint64{1, 17000} {
			s := base
			s.chain, s.clChain, s.txs = c, c, txs
			fs = append(fs, s)
		}
	}
	cnt := 0
	for _, s := range fs {
		_, _, _, log := x.run(s, nil)
		for i, q := range log {
			for _, fault := range append([]string{"404"}, faultsFor(q)...) {
				for _, sticky := range []bool{false, true} {
					cnt++
					if cnt%n != k || r.stop() || r.expired() {
						continue
					}
					how, got, cli, l := x.run(s, func(p FReq) string {
						if p.Seq == i || sticky && p.Seq > i && p.Kind == q.Kind {
							return fault
						}
						return ""
					})
					if (i == 0 || strings.HasPrefix(q.Kind, "eth_getBlock")) && k == 0 {
						r.sample(fmt.Sprintf("fault %s at %s: %q", fault, q, how))
					}
					judge(s, fmt.Sprintf(", %s at request %s (from then on: %v)", fault, q, sticky), how, got, cli, l)
				}
			}
		}
	}
	r.addOutcomes(out)
	r.bound("deployments", fmt.Sprintf("%d: 8 x 8 chains of the two nodes, 8 initial fees x 4 current fees x 3 networks x 2 ways to deploy, the call embedded at 131 offsets, all lists of up to %d of %d other transactions around at most one initialize of the pool, 7 slots x 2 block numbers x 5 forks x 2 encodings x the consensus block there/missing/another one, values of the contract", len(scens), maxLen, len(others)))
	r.bound("faults", fmt.Sprintf("%d deployments, every request x every fault, once and from then on", len(fs)))
	r.note("more than one initialize call of the pool in its deployment block, a reverted one, and a pool created by another contract are left out")
}

func to2(d []byte) func() types.TxData {
	return func() types.TxData { return &types.LegacyTx{GasPrice: bi(9), Gas: 900000, Value: bi(0), Data: d} }
}

func confDiff(a, b oracle.Config) string {
	switch {
	case a.CollateralInWei == nil || a.CollateralInWei.Cmp(b.CollateralInWei) != 0:
		return fmt.Sprintf("collateral %s, contract %s", a.CollateralInWei, b.CollateralInWei)
	case !strings.EqualFold(a.PoolFeesAddress, b.PoolFeesAddress):
		return fmt.Sprintf("fees-address %s, contract %s", a.PoolFeesAddress, b.PoolFeesAddress)
	}
	a.CollateralInWei, b.CollateralInWei, a.PoolFeesAddress, b.PoolFeesAddress = nil, nil, "", ""
	if g, w := dumpVal(a), dumpVal(b); g != w {
		return "fields " + firstDiff(g, w)
	}
	return ""
}
