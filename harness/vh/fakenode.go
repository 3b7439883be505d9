package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/altair"
	"github.com/attestantio/go-eth2-client/spec/capella"
	"github.com/attestantio/go-eth2-client/spec/electra"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/prysmaticlabs/go-bitfield"
)

// A consensus node and an execution node on the loopback interface that tell the story of a chain of
// abstract blocks (Blk), with the contract of the pool on it, and that can be told to misbehave at any
// request.

const genesisTime = 1600000000

var poolABI = func() *abi.ABI {
	a, err := contract.ContractMetaData.GetAbi()
	if err != nil {
		panic(err)
	}
	return a
}()

// FReq is one request as the nodes see it.
type FReq struct {
	Node string // "cl" or "el"
	Kind string // endpoint, without the varying part
	Arg  string
	Seq  int
}

func (q FReq) String() string { return fmt.Sprintf("%d %s %s %s", q.Seq, q.Node, q.Kind, q.Arg) }

type Report struct {
	Slot  uint64
	Root  common.Hash
	Votes uint64
}

// SentTx is a transaction the execution node received.
type SentTx struct {
	From common.Address
	Slot uint64
	Root common.Hash
	OK   bool
	Hash common.Hash
	Err  string
}

type FakeNode struct {
	mu      sync.Mutex
	Chain   uint64
	CLChain uint64 // chain of the consensus node, 0 for the same (unless clZero)
	clZero  bool
	SSZ     bool // blocks are served in SSZ

	Slots   map[uint64]*Blk
	BlockAt func(slot uint64) *Blk // for slots not in Slots; nil: missed
	Number  map[uint64]*Blk
	Vals    map[uint64]*UVal
	ValsAt  func(slot uint64, idx uint64) (*UVal, bool) // overrides
	Cons    [][2]uint64
	Duty    func(slot uint64) *UVal

	Finalized, Head uint64 // slots
	HeadNumber      uint64
	SyncDistance    uint64
	ELSyncing       bool

	// the contract
	DeployedBlock uint64
	CkptSize      uint64
	PoolFee       *big.Int
	FeeRecipient  common.Address
	Collateral    *big.Int
	Members       []common.Address
	QuorumN       uint64
	Root          common.Hash
	LastSlot      uint64
	Voted         map[common.Address]common.Hash
	Reports       map[common.Hash]*Report
	Claimed       map[common.Address]*big.Int
	Recipient     map[common.Address]common.Address
	Balance       *big.Int
	BalanceOf     map[common.Address]*big.Int
	DeployTxs     types.Transactions
	ExtraLogs     []types.Log // served besides those of the blocks

	Sent     []SentTx
	receipts map[common.Hash]*types.Receipt
	nonce    map[common.Address]uint64

	Seq         int
	Log         []FReq
	KeepLog     bool
	CountAll    bool                // requests about the node itself count as well
	Hook        func(q FReq) string // fault to inject, "" for none
	Before      func(q FReq)        // called for every request before it is answered, without lock
	AfterSubmit func(tx *SentTx)
	OnTx        func(tx *SentTx, to *common.Address, value *big.Int) // before it takes effect
	TxMode      string                                               // what becomes of the next transaction: "", "revert", "refused", "lost", "late"
	EstErr      string                                               // the next estimation of gas fails with this
	BalanceAt   func(block uint64) *big.Int                          // balance of the pool
	ClaimedAt   func(a common.Address, block uint64) *big.Int        // nil for what Claimed says

	srv   *http.Server
	conns atomic.Int64
	ln    net.Listener
	URL   string
}

func newFakeNode(chain uint64) *FakeNode {
	f := &FakeNode{Chain: chain, Slots: map[uint64]*Blk{}, Number: map[uint64]*Blk{}, Vals: map[uint64]*UVal{},
		CkptSize: 50, PoolFee: bi(700), FeeRecipient: feesAddr, Collateral: bi(1000), QuorumN: 1,
		Voted: map[common.Address]common.Hash{}, Reports: map[common.Hash]*Report{}, Claimed: map[common.Address]*big.Int{},
		Recipient: map[common.Address]common.Address{}, Balance: bi(0), BalanceOf: map[common.Address]*big.Int{},
		receipts: map[common.Hash]*types.Receipt{}, nonce: map[common.Address]uint64{}, DeployedBlock: 1000}
	return f
}

func (f *FakeNode) start() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	f.ln = ln
	f.URL = "http://" + ln.Addr().String()
	f.srv = &http.Server{Handler: f, ConnState: func(_ net.Conn, st http.ConnState) {
		switch st {
		case http.StateNew:
			f.conns.Add(1)
		case http.StateClosed, http.StateHijacked:
			f.conns.Add(-1)
		}
	}}
	go f.srv.Serve(ln)
}

func (f *FakeNode) stop() { f.srv.Close() }

// uniq gives the transactions of a block nonces that no other block uses.
func uniq(b *Blk) *Blk {
	b.Txs = append([]Tx{}, b.Txs...)
	for i := range b.Txs {
		b.Txs[i].Nonce = b.Number*100 + uint64(i) + 1
	}
	return b
}

// put adds a block to the chain.
func (f *FakeNode) put(b *Blk) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.Slots[b.Slot] = b
	if !b.Missed {
		f.Number[b.Number] = b
	}
}

func (f *FakeNode) blk(slot uint64) *Blk {
	if b, ok := f.Slots[slot]; ok {
		return b
	}
	if f.BlockAt != nil {
		b := f.BlockAt(slot)
		if b != nil {
			f.Slots[slot] = b
			if !b.Missed {
				f.Number[b.Number] = b
			}
		}
		return b
	}
	return nil
}

func (f *FakeNode) val(slot, idx uint64) *UVal {
	if f.ValsAt != nil {
		if v, ok := f.ValsAt(slot, idx); ok {
			return v
		}
	}
	if b := f.blk(slot); b != nil {
		if b.Prop != nil && b.Prop.Idx == idx {
			return b.Prop
		}
		for _, s := range b.Subs {
			if s.Idx == idx {
				return s.Val
			}
		}
		for _, s := range b.Unsubs {
			if s.Idx == idx {
				return s.Val
			}
		}
	}
	return f.Vals[idx]
}

func (f *FakeNode) proposer(slot uint64) *UVal {
	if b := f.blk(slot); b != nil && b.Prop != nil {
		return b.Prop
	}
	if f.Duty != nil {
		return f.Duty(slot)
	}
	return mkVal(900+slot%32, 1, stranger)
}

// ---------------------------------------------------------------- what the nodes say about a block

// wire is the consensus block with every field the wire formats need.
func (b *Blk) wire(chain uint64) (*spec.VersionedSignedBeaconBlock, []*types.Receipt) {
	v, recs := b.consensus(chain)
	e1 := &phase0.ETH1Data{BlockHash: make([]byte, 32)}
	sa := &altair.SyncAggregate{SyncCommitteeBits: bitfield.NewBitvector512()}
	switch v.Version {
	case spec.DataVersionBellatrix:
		v.Bellatrix.Message.Body.ETH1Data, v.Bellatrix.Message.Body.SyncAggregate = e1, sa
		m := v.Bellatrix.Message.Body
		m.ProposerSlashings, m.AttesterSlashings, m.Attestations = []*phase0.ProposerSlashing{}, []*phase0.AttesterSlashing{}, []*phase0.Attestation{}
		m.Deposits, m.VoluntaryExits = []*phase0.Deposit{}, []*phase0.SignedVoluntaryExit{}
	case spec.DataVersionCapella:
		v.Capella.Message.Body.ETH1Data, v.Capella.Message.Body.SyncAggregate = e1, sa
		m := v.Capella.Message.Body
		m.ProposerSlashings, m.AttesterSlashings, m.Attestations = []*phase0.ProposerSlashing{}, []*phase0.AttesterSlashing{}, []*phase0.Attestation{}
		m.Deposits, m.VoluntaryExits = []*phase0.Deposit{}, []*phase0.SignedVoluntaryExit{}
		m.BLSToExecutionChanges = []*capella.SignedBLSToExecutionChange{}
		if m.ExecutionPayload.Withdrawals == nil {
			m.ExecutionPayload.Withdrawals = []*capella.Withdrawal{}
		}
	case spec.DataVersionDeneb:
		v.Deneb.Message.Body.ETH1Data, v.Deneb.Message.Body.SyncAggregate = e1, sa
	case spec.DataVersionElectra:
		v.Electra.Message.Body.ETH1Data, v.Electra.Message.Body.SyncAggregate = e1, sa
		v.Electra.Message.Body.ExecutionRequests = &electra.ExecutionRequests{}
	case spec.DataVersionFulu:
		v.Fulu.Message.Body.ETH1Data, v.Fulu.Message.Body.SyncAggregate = e1, sa
		v.Fulu.Message.Body.ExecutionRequests = &electra.ExecutionRequests{}
	}
	cum := uint64(0)
	for i, r := range recs {
		cum += r.GasUsed
		r.CumulativeGasUsed = cum
		r.Logs = []*types.Log{}
		r.Type = uint8(b.Txs[i].Type)
		r.BlockHash = b.header().Hash()
		if b.Txs[i].To == nil {
			r.ContractAddress = common.HexToAddress("0xc0")
		}
		r.EffectiveGasPrice = bi(1)
		if b.Txs[i].Type == 3 {
			r.BlobGasPrice = bi(1)
		}
	}
	return v, recs
}

func (b *Blk) header() *types.Header {
	h := &types.Header{Number: new(big.Int).SetUint64(b.Number), BaseFee: cp(b.baseFee()), Difficulty: bi(0), GasUsed: b.gasUsed(), GasLimit: 30000000,
		Time: genesisTime + b.Slot*12, Extra: []byte{}, UncleHash: types.EmptyUncleHash, TxHash: types.EmptyTxsHash, Coinbase: b.FeeRec}
	if len(b.Txs) > 0 {
		h.TxHash = common.Hash{7}
	}
	return h
}

// logs lists the events of the block as the execution node serves them.
func (b *Blk) logs() []types.Log {
	var out []types.Log
	add := func(name string, args ...any) {
		ev := poolABI.Events[name]
		d, err := ev.Inputs.NonIndexed().Pack(args...)
		if err != nil {
			panic(err)
		}
		i := len(out)
		ti, th := b.txOf(i)
		out = append(out, types.Log{Address: poolAddr, Topics: []common.Hash{ev.ID}, Data: d, BlockNumber: b.Number, Index: uint(i), TxIndex: ti,
			TxHash: th, BlockHash: b.header().Hash()})
	}
	for _, x := range b.Ether {
		if x.At != poolAddr {
			continue
		}
		add("EtherReceived", x.From, x.Amount)
	}
	for _, x := range b.Subs {
		add("SubscribeValidator", x.Sender, x.Coll, x.Idx)
	}
	for _, x := range b.Unsubs {
		add("UnsubscribeValidator", x.Sender, x.Idx)
	}
	for _, x := range b.Bans {
		add("BanValidator", x)
	}
	for _, x := range b.Unbans {
		add("UnbanValidator", x)
	}
	for _, x := range b.Fee {
		add("UpdatePoolFee", bi(x))
	}
	for _, x := range b.Recip {
		add("UpdatePoolFeeRecipient", x)
	}
	for _, x := range b.Ckpt {
		add("UpdateCheckpointSlotSize", x)
	}
	for _, x := range b.Coll {
		add("UpdateSubscriptionCollateral", x)
	}
	return out
}

// fetched is the block a correct fetch hands over.
func (b *Blk) fetched(chain uint64, receipts bool) *oracle.FullBlock {
	fb := oracle.NewFullBlock(b.duty(), b.Prop.api(), chain)
	if b.Missed {
		return fb
	}
	cb, recs := b.wire(chain)
	fb.SetConsensusBlock(cb)
	e := b.events()
	ls := b.logs()
	i := 0
	next := func() types.Log { i++; return ls[i-1] }
	for _, x := range e.EtherReceived {
		x.Raw = next()
	}
	for _, x := range e.SubscribeValidator {
		x.Raw = next()
	}
	for _, x := range e.UnsubscribeValidator {
		x.Raw = next()
	}
	for _, x := range e.BanValidator {
		x.Raw = next()
	}
	for _, x := range e.UnbanValidator {
		x.Raw = next()
	}
	for _, x := range e.UpdatePoolFee {
		x.Raw = next()
	}
	for _, x := range e.PoolFeeRecipient {
		x.Raw = next()
	}
	for _, x := range e.CheckpointSlotSize {
		x.Raw = next()
	}
	for _, x := range e.UpdateSubscriptionCollateral {
		x.Raw = next()
	}
	fb.SetEvents(e)
	fb.ValidatorsSubs, fb.ValidatorsUnsubs = []*v1.Validator{}, []*v1.Validator{}
	for _, s := range b.Subs {
		if s.Val == nil {
			fb.ValidatorsSubs = append(fb.ValidatorsSubs, nil)
		} else {
			fb.ValidatorsSubs = append(fb.ValidatorsSubs, s.Val.api())
		}
	}
	for _, s := range b.Unsubs {
		if s.Val == nil {
			fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, nil)
		} else {
			fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, s.Val.api())
		}
	}
	if receipts {
		if recs == nil {
			recs = []*types.Receipt{}
		}
		fb.SetHeaderAndReceipts(b.header(), recs)
	}
	return fb
}

// ---------------------------------------------------------------- HTTP

type reply struct {
	status int
	hdr    map[string]string
	body   []byte
}

func jsonReply(v any) reply {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return reply{200, map[string]string{"Content-Type": "application/json"}, b}
}

func notFound(what string) reply {
	r := jsonReply(map[string]any{"code": 404, "message": "NOT_FOUND: " + what, "stacktraces": []string{}})
	r.status = 404
	return r
}

func (f *FakeNode) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	body, _ := io.ReadAll(req.Body)
	var q FReq
	var answer func() reply
	if strings.HasPrefix(req.URL.Path, "/eth/") {
		q.Node = "cl"
		q.Kind, q.Arg, answer = f.beacon(req, body)
	} else {
		q.Node = "el"
		q.Kind, q.Arg, answer = f.rpc(body)
	}
	f.mu.Lock()
	counted := q.Kind != "syncing" && q.Kind != "version" || f.CountAll
	if counted {
		q.Seq = f.Seq
		f.Seq++
		if f.KeepLog {
			f.Log = append(f.Log, q)
		}
	}
	hook, before := f.Hook, f.Before
	f.mu.Unlock()
	if before != nil {
		before(q)
	}
	fault := ""
	if hook != nil && counted {
		fault = hook(q)
	}
	f.mu.Lock()
	if fault == "stale" {
		if q.Node == "cl" {
			answer = f.staleBeacon(req, body)
		} else {
			answer = f.staleRPC(body)
		}
	}
	var r reply
	if fault == "" || needsAnswer(fault) {
		r = answer()
	}
	if fault == "badlog" {
		r.body = badLog(r.body, q)
	}
	f.mu.Unlock()
	f.send(w, r, fault, q)
}

func needsAnswer(fault string) bool {
	switch fault {
	case "trunc", "cut", "badlog", "stale", "cut1", "lost":
		return true
	}
	return false
}

func (f *FakeNode) send(w http.ResponseWriter, r reply, fault string, q FReq) {
	js := map[string]string{"Content-Type": "application/json"}
	raw := func(s string, lingerZero bool) {
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		if s != "" {
			c.Write([]byte(s))
		}
		if lingerZero {
			c.(*net.TCPConn).SetLinger(0)
		}
		c.Close()
	}
	errAnswer := func(code int, text string) reply {
		b, _ := json.Marshal(map[string]any{"code": code, "message": text})
		return reply{code, js, b}
	}
	switch fault {
	case "", "badlog", "stale":
	case "reset":
		raw("", true)
		return
	case "cuthead":
		raw("HTTP/1.1 200 OK\r\nContent-Le", false)
		return
	case "cut", "cut1":
		n := len(r.body) / 2
		if fault == "cut1" {
			n = len(r.body) - 1
		}
		h := fmt.Sprintf("HTTP/1.1 %d X\r\n", 200)
		for k, v := range r.hdr {
			h += k + ": " + v + "\r\n"
		}
		raw(fmt.Sprintf("%sContent-Length: %d\r\n\r\n%s", h, len(r.body), r.body[:n]), false)
		return
	case "hang":
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			time.AfterFunc(2*time.Second, func() { c.Close() })
		}
		return
	case "lost":
		raw("", true)
		return
	case "500", "503", "429", "400", "404", "401":
		n, _ := strconv.Atoi(fault)
		r = errAnswer(n, http.StatusText(n))
	case "500-404":
		r = errAnswer(500, "upstream answered 404: NOT_FOUND: beacon block at slot 404")
	case "empty":
		r = reply{200, js, nil}
	case "204":
		r = reply{204, nil, nil}
	case "{}", "null", "[]":
		r = reply{200, js, []byte(fault)}
	case "null-data":
		r = reply{200, js, []byte(`{"data":null}`)}
	case "list-data":
		r = reply{200, js, []byte(`{"data":[]}`)}
	case "obj-data":
		r = reply{200, js, []byte(`{"data":{}}`)}
	case "html":
		r = reply{200, map[string]string{"Content-Type": "text/html"}, []byte("<html>busy</html>")}
	case "trunc":
		r.body = r.body[:len(r.body)/2]
	case "rpc-error":
		r = reply{200, js, rpcError(f.lastID(q), -32000, "header not found")}
	case "rpc-404":
		r = reply{200, js, rpcError(f.lastID(q), -32000, "404 missing trie node")}
	case "rpc-null":
		r = reply{200, js, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":null}`, f.lastID(q)))}
	case "rpc-obj":
		r = reply{200, js, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":{}}`, f.lastID(q)))}
	case "rpc-str":
		r = reply{200, js, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":""}`, f.lastID(q)))}
	case "rpc-0x":
		r = reply{200, js, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"0x"}`, f.lastID(q)))}
	default:
		panic("unknown fault " + fault)
	}
	for k, v := range r.hdr {
		w.Header().Set(k, v)
	}
	w.WriteHeader(r.status)
	w.Write(r.body)
}

func (f *FakeNode) lastID(q FReq) string {
	if i := strings.LastIndex(q.Arg, "#"); i >= 0 {
		return q.Arg[i+1:]
	}
	return "1"
}

func rpcError(id string, code int, msg string) []byte {
	return []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":%d,"message":%q}}`, id, code, msg))
}

// staleBeacon answers for the next slot, epoch or validator.
func (f *FakeNode) staleBeacon(req *http.Request, body []byte) func() reply {
	inc := func(s string) string {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			return s
		}
		return fmt.Sprint(n + 1)
	}
	if strings.HasSuffix(req.URL.Path, "/validators") {
		var q struct {
			IDs []string `json:"ids"`
		}
		json.Unmarshal(body, &q)
		for i := range q.IDs {
			q.IDs[i] = inc(q.IDs[i])
		}
		nb, _ := json.Marshal(q)
		_, _, a := f.beacon(req, nb)
		return a
	}
	r2 := req.Clone(req.Context())
	p := strings.Split(req.URL.Path, "/")
	p[len(p)-1] = inc(p[len(p)-1])
	r2.URL.Path = strings.Join(p, "/")
	_, _, a := f.beacon(r2, body)
	return a
}

// staleRPC answers for the next block that has events.
func (f *FakeNode) staleRPC(body []byte) func() reply {
	var q rpcReq
	json.Unmarshal(body, &q)
	next := func(s string, by uint64) string { return hexutil.EncodeUint64(f.blockNumber(s) + by) }
	switch q.Method {
	case "eth_getBlockByNumber":
		var s string
		json.Unmarshal(q.Params[0], &s)
		q.Params[0], _ = json.Marshal(next(s, 1))
	case "eth_getLogs":
		m := map[string]any{}
		json.Unmarshal(q.Params[0], &m)
		m["fromBlock"], m["toBlock"] = next(m["fromBlock"].(string), 1), next(m["toBlock"].(string), 2)
		q.Params[0], _ = json.Marshal(m)
	}
	nb, _ := json.Marshal(map[string]any{"jsonrpc": "2.0", "id": q.ID, "method": q.Method, "params": q.Params})
	_, _, a := f.rpc(nb)
	return a
}

// badLog cuts the data of the last event, or adds an event with data that is too short.
func badLog(body []byte, q FReq) []byte {
	var m map[string]json.RawMessage
	var ls []map[string]any
	json.Unmarshal(body, &m)
	json.Unmarshal(m["result"], &ls)
	if len(ls) == 0 {
		ev := poolABI.Events[strings.TrimPrefix(q.Kind, "eth_getLogs:")]
		n, _ := hexutil.DecodeUint64(strings.SplitN(q.Arg, "-", 2)[0])
		b, _ := json.Marshal(types.Log{Address: poolAddr, Topics: []common.Hash{ev.ID}, Data: make([]byte, 64), BlockNumber: n})
		var l map[string]any
		json.Unmarshal(b, &l)
		ls = append(ls, l)
	}
	ls[len(ls)-1]["data"] = "0x0001020304"
	m["result"], _ = json.Marshal(ls)
	b, _ := json.Marshal(m)
	return b
}

// ---------------------------------------------------------------- consensus node

func hx(b []byte) string { return "0x" + hex.EncodeToString(b) }

func (f *FakeNode) beacon(req *http.Request, body []byte) (string, string, func() reply) {
	p := strings.Split(strings.Trim(req.URL.Path, "/"), "/")
	at := func(i int) string {
		if i < len(p) {
			return p[i]
		}
		return ""
	}
	zero32 := hx(make([]byte, 32))
	switch {
	case req.URL.Path == "/eth/v1/node/syncing":
		return "syncing", "", func() reply {
			return jsonReply(map[string]any{"data": map[string]any{"head_slot": fmt.Sprint(f.Head), "sync_distance": fmt.Sprint(f.SyncDistance), "is_syncing": f.SyncDistance > 0, "is_optimistic": false, "el_offline": false}})
		}
	case req.URL.Path == "/eth/v1/node/version":
		return "version", "", func() reply { return jsonReply(map[string]any{"data": map[string]any{"version": "fake/1"}}) }
	case req.URL.Path == "/eth/v1/beacon/genesis":
		return "genesis", "", func() reply {
			return jsonReply(map[string]any{"data": map[string]any{"genesis_time": fmt.Sprint(genesisTime), "genesis_validators_root": zero32, "genesis_fork_version": "0x00000000"}})
		}
	case req.URL.Path == "/eth/v1/config/spec":
		return "spec", "", func() reply {
			return jsonReply(map[string]any{"data": map[string]any{"SLOTS_PER_EPOCH": "32", "SECONDS_PER_SLOT": "12", "FAR_FUTURE_EPOCH": "18446744073709551615"}})
		}
	case req.URL.Path == "/eth/v1/config/deposit_contract":
		return "deposit_contract", "", func() reply {
			c := f.Chain
			if f.CLChain != 0 || f.clZero {
				c = f.CLChain
			}
			return jsonReply(map[string]any{"data": map[string]any{"chain_id": fmt.Sprint(c), "address": "0x00000000219ab540356cbb839cbe05303d7705fa"}})
		}
	case at(2) == "beacon" && at(3) == "headers":
		return "headers", at(4), func() reply {
			return jsonReply(map[string]any{"data": map[string]any{"root": zero32, "canonical": true, "header": map[string]any{
				"message":   map[string]any{"slot": fmt.Sprint(f.Finalized), "proposer_index": "1", "parent_root": zero32, "state_root": zero32, "body_root": zero32},
				"signature": hx(make([]byte, 96))}}})
		}
	case at(2) == "beacon" && at(3) == "blocks":
		return "block", at(4), func() reply {
			slot, _ := strconv.ParseUint(at(4), 10, 64)
			b := f.blk(slot)
			if b == nil || b.Missed {
				return notFound("beacon block at slot " + at(4))
			}
			v, _ := b.wire(f.Chain)
			return blockReply(v, f.SSZ && strings.Contains(req.Header.Get("Accept"), "octet-stream"))
		}
	case at(2) == "beacon" && at(3) == "states" && at(5) == "validators":
		var q struct {
			IDs []string `json:"ids"`
		}
		json.Unmarshal(body, &q)
		return "validators", at(4) + " " + strings.Join(q.IDs, ","), func() reply {
			slot, err := strconv.ParseUint(at(4), 10, 64)
			if err != nil {
				slot = f.Finalized
			}
			out := []any{}
			for _, id := range q.IDs {
				n, _ := strconv.ParseUint(id, 10, 64)
				if u := f.val(slot, n); u != nil {
					out = append(out, u.api())
				}
			}
			return jsonReply(map[string]any{"execution_optimistic": false, "finalized": true, "data": out})
		}
	case at(2) == "validator" && at(3) == "duties" && at(4) == "proposer":
		return "duties", at(5), func() reply {
			ep, _ := strconv.ParseUint(at(5), 10, 64)
			var out []*v1.ProposerDuty
			for i := uint64(0); i < 32; i++ {
				u := f.proposer(ep*32 + i)
				out = append(out, &v1.ProposerDuty{PubKey: u.Key, Slot: phase0.Slot(ep*32 + i), ValidatorIndex: phase0.ValidatorIndex(u.Idx)})
			}
			return jsonReply(map[string]any{"dependent_root": zero32, "execution_optimistic": false, "data": out})
		}
	case at(2) == "beacon" && at(3) == "states" && at(5) == "pending_consolidations":
		return "consolidations", at(4), func() reply {
			out := []any{}
			for _, c := range f.Cons {
				out = append(out, map[string]any{"source_index": fmt.Sprint(c[0]), "target_index": fmt.Sprint(c[1])})
			}
			return jsonReply(map[string]any{"version": "electra", "execution_optimistic": false, "finalized": true, "data": out})
		}
	case at(2) == "debug" && at(4) == "states":
		return "state", at(5), func() reply {
			b, err := f.beaconState().MarshalSSZ()
			if err != nil {
				panic(err)
			}
			return reply{200, map[string]string{"Content-Type": "application/octet-stream", "Eth-Consensus-Version": "phase0"}, b}
		}
	}
	return "unknown " + req.URL.Path, "", func() reply { return notFound(req.URL.Path) }
}

func blockReply(v *spec.VersionedSignedBeaconBlock, ssz bool) reply {
	var in any
	switch v.Version {
	case spec.DataVersionAltair:
		in = v.Altair
	case spec.DataVersionBellatrix:
		in = v.Bellatrix
	case spec.DataVersionCapella:
		in = v.Capella
	case spec.DataVersionDeneb:
		in = v.Deneb
	case spec.DataVersionElectra:
		in = v.Electra
	case spec.DataVersionFulu:
		in = v.Fulu
	}
	if ssz {
		b, err := in.(interface{ MarshalSSZ() ([]byte, error) }).MarshalSSZ()
		if err != nil {
			panic(err)
		}
		return reply{200, map[string]string{"Content-Type": "application/octet-stream", "Eth-Consensus-Version": v.Version.String()}, b}
	}
	r := jsonReply(map[string]any{"version": v.Version.String(), "execution_optimistic": false, "finalized": true, "data": in})
	r.hdr["Eth-Consensus-Version"] = v.Version.String()
	return r
}

// beaconState lists the validators for the request of all validators (they must be dense).
func (f *FakeNode) beaconState() *phase0.BeaconState {
	s := &phase0.BeaconState{Slot: phase0.Slot(f.Finalized), Fork: &phase0.Fork{}, LatestBlockHeader: &phase0.BeaconBlockHeader{}, ETH1Data: &phase0.ETH1Data{BlockHash: make([]byte, 32)},
		BlockRoots: make([]phase0.Root, 8192), StateRoots: make([]phase0.Root, 8192), RANDAOMixes: make([]phase0.Root, 65536), Slashings: make([]phase0.Gwei, 8192),
		JustificationBits: bitfield.NewBitvector4(), PreviousJustifiedCheckpoint: &phase0.Checkpoint{}, CurrentJustifiedCheckpoint: &phase0.Checkpoint{}, FinalizedCheckpoint: &phase0.Checkpoint{}}
	max := uint64(0)
	for i := range f.Vals {
		if i > max {
			max = i
		}
	}
	for i := uint64(0); i <= max; i++ {
		u := f.Vals[i]
		if u == nil {
			u = mkVal(i, 1, stranger)
		}
		a := u.api()
		v := a.Validator
		ep, far := phase0.Epoch(f.Finalized/32), ^phase0.Epoch(0)
		switch u.Status {
		case v1.ValidatorStatePendingInitialized:
			v.ActivationEpoch, v.ActivationEligibilityEpoch = far, far
		case v1.ValidatorStatePendingQueued:
			v.ActivationEpoch = far
		case v1.ValidatorStateActiveExiting, v1.ValidatorStateActiveSlashed:
			v.ExitEpoch, v.Slashed = far-9, u.Status == v1.ValidatorStateActiveSlashed
		case v1.ValidatorStateExitedUnslashed, v1.ValidatorStateExitedSlashed:
			v.ExitEpoch, v.Slashed = ep-9, u.Status == v1.ValidatorStateExitedSlashed
		case v1.ValidatorStateWithdrawalPossible, v1.ValidatorStateWithdrawalDone:
			v.ExitEpoch, v.WithdrawableEpoch = ep-9, ep-5
			if u.Status == v1.ValidatorStateWithdrawalDone {
				a.Balance = 0
			}
		}
		s.Validators = append(s.Validators, a.Validator)
		s.Balances = append(s.Balances, a.Balance)
	}
	return s
}

// ---------------------------------------------------------------- execution node

type rpcReq struct {
	ID     json.RawMessage   `json:"id"`
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
}

func (f *FakeNode) rpc(body []byte) (string, string, func() reply) {
	var q rpcReq
	if err := json.Unmarshal(body, &q); err != nil {
		return "bad", "", func() reply { return reply{400, nil, []byte(err.Error())} }
	}
	kind, arg := q.Method, ""
	str := func(i int) string {
		if i >= len(q.Params) {
			return ""
		}
		var s string
		json.Unmarshal(q.Params[i], &s)
		return s
	}
	arg = str(0)
	switch q.Method {
	case "eth_getLogs":
		var a struct {
			Topics    [][]common.Hash
			FromBlock string
			ToBlock   string
		}
		json.Unmarshal(q.Params[0], &a)
		arg = a.FromBlock + "-" + a.ToBlock
		if len(a.Topics) > 0 && len(a.Topics[0]) > 0 {
			for n, e := range poolABI.Events {
				if e.ID == a.Topics[0][0] {
					kind = "eth_getLogs:" + n
				}
			}
		}
	case "eth_call", "eth_estimateGas":
		if m, _, ok := callData(q.Params[0]); ok {
			kind += ":" + m.Name
		}
		arg = str(1)
	}
	return kind, arg + "#" + string(q.ID), func() reply {
		res, rerr := f.rpcResult(q, str)
		js := map[string]string{"Content-Type": "application/json"}
		if rerr != "" {
			return reply{200, js, rpcError(string(q.ID), 3, rerr)}
		}
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		return reply{200, js, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":%s}`, q.ID, b))}
	}
}

// callTo is the contract that is called.
func callTo(p json.RawMessage) *common.Address {
	var c struct{ To *common.Address }
	json.Unmarshal(p, &c)
	return c.To
}

func callData(p json.RawMessage) (*abi.Method, []any, bool) {
	var c struct {
		To    *common.Address
		Data  *hexutil.Bytes
		Input *hexutil.Bytes
	}
	if json.Unmarshal(p, &c) != nil {
		return nil, nil, false
	}
	d := c.Input
	if d == nil {
		d = c.Data
	}
	if d == nil || len(*d) < 4 {
		return nil, nil, false
	}
	m, err := poolABI.MethodById((*d)[:4])
	if err != nil {
		return nil, nil, false
	}
	args, err := m.Inputs.Unpack((*d)[4:])
	if err != nil {
		return nil, nil, false
	}
	return m, args, true
}

func (f *FakeNode) blockNumber(s string) uint64 {
	switch s {
	case "latest", "pending", "safe", "finalized", "":
		return f.HeadNumber
	}
	n, _ := hexutil.DecodeUint64(s)
	return n
}

var fakeHeaderAt = func(f *FakeNode, n uint64) *types.Header {
	if b, ok := f.Number[n]; ok {
		return b.header()
	}
	return &types.Header{Number: new(big.Int).SetUint64(n), BaseFee: bi(7), Difficulty: bi(0), Time: genesisTime, Extra: []byte{}, UncleHash: types.EmptyUncleHash, TxHash: types.EmptyTxsHash}
}

func (f *FakeNode) rpcResult(q rpcReq, str func(int) string) (any, string) {
	switch q.Method {
	case "eth_chainId":
		return hexutil.Uint64(f.Chain), ""
	case "net_version":
		return fmt.Sprint(f.Chain), ""
	case "eth_syncing":
		if f.ELSyncing {
			return map[string]any{"currentBlock": "0x1", "highestBlock": "0x2", "startingBlock": "0x0"}, ""
		}
		return false, ""
	case "eth_blockNumber":
		return hexutil.Uint64(f.HeadNumber), ""
	case "eth_gasPrice", "eth_maxPriorityFeePerGas":
		return "0x1", ""
	case "eth_getCode":
		return "0x60", ""
	case "eth_getBalance":
		a := common.HexToAddress(str(0))
		if a == poolAddr && f.BalanceAt != nil {
			return (*hexutil.Big)(f.BalanceAt(f.blockNumber(str(1)))), ""
		}
		if a == poolAddr {
			return (*hexutil.Big)(f.Balance), ""
		}
		if x, ok := f.BalanceOf[a]; ok {
			return (*hexutil.Big)(x), ""
		}
		return (*hexutil.Big)(bi(1000000000)), ""
	case "eth_getTransactionCount":
		return hexutil.Uint64(f.nonce[common.HexToAddress(str(0))]), ""
	case "eth_getBlockByNumber":
		n := f.blockNumber(str(0))
		h := fakeHeaderAt(f, n)
		b, err := json.Marshal(h)
		if err != nil {
			panic(err)
		}
		m := map[string]any{}
		json.Unmarshal(b, &m)
		var full bool
		json.Unmarshal(q.Params[1], &full)
		txs := []any{}
		if n == f.DeployedBlock {
			for _, t := range f.DeployTxs {
				txs = append(txs, t)
			}
			if len(txs) > 0 {
				m["transactionsRoot"] = common.Hash{7}
			}
		}
		m["hash"], m["transactions"], m["uncles"] = h.Hash(), txs, []any{}
		return m, ""
	case "eth_getTransactionReceipt":
		h := common.HexToHash(str(0))
		if r, ok := f.receipts[h]; ok {
			return r, ""
		}
		for _, b := range f.Number {
			_, recs := b.wire(f.Chain)
			for _, r := range recs {
				if r.TxHash == h {
					return r, ""
				}
			}
		}
		return nil, ""
	case "eth_getLogs":
		return f.getLogs(q.Params[0]), ""
	case "eth_call":
		if to := callTo(q.Params[0]); to == nil || *to != poolAddr { // no contract there
			return "0x", ""
		}
		m, args, ok := callData(q.Params[0])
		if !ok {
			return nil, "execution reverted"
		}
		out, err := f.call(m.Name, args, f.blockNumber(str(1)))
		if err != "" {
			return nil, err
		}
		b, e := m.Outputs.Pack(out...)
		if e != nil {
			panic(fmt.Sprint(m.Name, " ", e))
		}
		return hexutil.Bytes(b), ""
	case "eth_estimateGas":
		m, args, ok := callData(q.Params[0])
		var c struct{ From common.Address }
		json.Unmarshal(q.Params[0], &c)
		if ok && m.Name == "submitReport" {
			if f.EstErr != "" {
				e := f.EstErr
				f.EstErr = ""
				return nil, e
			}
			if e := f.submitCheck(c.From, args[0].(uint64)); e != "" {
				return nil, "execution reverted: " + e
			}
		}
		return "0x5208", ""
	case "eth_sendRawTransaction":
		raw, _ := hexutil.Decode(str(0))
		tx := new(types.Transaction)
		if err := tx.UnmarshalBinary(raw); err != nil {
			return nil, err.Error()
		}
		from, err := types.Sender(types.LatestSignerForChainID(new(big.Int).SetUint64(f.Chain)), tx)
		if err != nil {
			return nil, err.Error()
		}
		st := SentTx{From: from, Hash: tx.Hash()}
		var args []any
		if len(tx.Data()) >= 4 {
			m, err := poolABI.MethodById(tx.Data()[:4])
			if err == nil && m.Name == "submitReport" {
				args, _ = m.Inputs.Unpack(tx.Data()[4:])
			}
		}
		if len(args) == 2 {
			st.Slot, st.Root = args[0].(uint64), args[1].([32]byte)
		} else {
			st.Err = "not submitReport"
		}
		if f.OnTx != nil {
			f.OnTx(&st, tx.To(), tx.Value())
		}
		mode := f.TxMode
		f.TxMode = ""
		if mode == "refused" {
			return nil, "transaction underpriced"
		}
		f.nonce[from]++
		if mode == "revert" {
			st.Err = "out of gas"
		}
		if st.Err == "" {
			st.Err = f.vote(from, st.Slot, st.Root)
			st.OK = st.Err == ""
		}
		status := uint64(0)
		if st.OK {
			status = 1
		}
		f.HeadNumber++
		f.receipts[tx.Hash()] = &types.Receipt{TxHash: tx.Hash(), Status: status, GasUsed: 21000, CumulativeGasUsed: 21000, Logs: []*types.Log{}, BlockNumber: new(big.Int).SetUint64(f.HeadNumber), Type: tx.Type(), EffectiveGasPrice: bi(1)}
		f.Sent = append(f.Sent, st)
		if f.AfterSubmit != nil {
			f.AfterSubmit(&st)
		}
		return tx.Hash(), ""
	}
	return nil, "the method " + q.Method + " does not exist"
}

func (f *FakeNode) getLogs(p json.RawMessage) any {
	var a struct {
		Address   []common.Address
		Topics    [][]common.Hash
		FromBlock string
		ToBlock   string
	}
	if err := json.Unmarshal(p, &a); err != nil {
		panic(err)
	}
	from, to := f.blockNumber(a.FromBlock), f.blockNumber(a.ToBlock)
	var ns []uint64
	for n := range f.Number {
		if n >= from && n <= to {
			ns = append(ns, n)
		}
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	out := []any{}
	take := func(l types.Log) {
		ok := len(a.Address) == 0
		for _, x := range a.Address {
			ok = ok || x == l.Address
		}
		for i, alt := range a.Topics {
			if len(alt) == 0 {
				continue
			}
			hit := false
			for _, t := range alt {
				hit = hit || i < len(l.Topics) && l.Topics[i] == t
			}
			ok = ok && hit
		}
		if ok {
			out = append(out, l)
		}
	}
	for _, n := range ns {
		for _, l := range f.Number[n].logs() {
			take(l)
		}
	}
	for _, l := range f.ExtraLogs {
		if l.BlockNumber >= from && l.BlockNumber <= to {
			take(l)
		}
	}
	return out
}

func (f *FakeNode) call(name string, args []any, block uint64) ([]any, string) {
	switch name {
	case "deploymentBlockNumber":
		return []any{new(big.Int).SetUint64(f.DeployedBlock)}, ""
	case "checkpointSlotSize":
		return []any{f.CkptSize}, ""
	case "poolFee":
		return []any{f.PoolFee}, ""
	case "poolFeeRecipient":
		return []any{f.FeeRecipient}, ""
	case "subscriptionCollateral":
		return []any{f.Collateral}, ""
	case "getAllOracleMembers":
		return []any{f.Members}, ""
	case "quorum":
		return []any{f.QuorumN}, ""
	case "rewardsRoot":
		return []any{[32]byte(f.Root)}, ""
	case "lastConsolidatedSlot":
		return []any{f.LastSlot}, ""
	case "addressToVotedReportHash":
		return []any{[32]byte(f.Voted[args[0].(common.Address)])}, ""
	case "reportHashToReport":
		if r, ok := f.Reports[common.Hash(args[0].([32]byte))]; ok {
			return []any{r.Slot, r.Votes}, ""
		}
		return []any{uint64(0), uint64(0)}, ""
	case "claimedBalance":
		if f.ClaimedAt != nil {
			if c := f.ClaimedAt(args[0].(common.Address), block); c != nil {
				return []any{c}, ""
			}
		}
		if c, ok := f.Claimed[args[0].(common.Address)]; ok {
			return []any{c}, ""
		}
		return []any{bi(0)}, ""
	case "rewardRecipient":
		return []any{f.Recipient[args[0].(common.Address)]}, ""
	}
	return nil, "execution reverted"
}

func reportHash(slot uint64, root common.Hash) common.Hash {
	return crypto.Keccak256Hash(new(big.Int).SetUint64(slot).FillBytes(make([]byte, 8)), root[:])
}

func (f *FakeNode) submitCheck(from common.Address, slot uint64) string {
	member := false
	for _, m := range f.Members {
		member = member || m == from
	}
	if !member {
		return "DappnodeSmoothingPool::submitReport: Caller is not an oracle member"
	}
	if f.LastSlot != 0 && slot != f.LastSlot+f.CkptSize {
		return "DappnodeSmoothingPool::submitReport: Slot number invalid"
	}
	return ""
}

// vote is submitReport of the contract.
func (f *FakeNode) vote(from common.Address, slot uint64, root common.Hash) string {
	if e := f.submitCheck(from, slot); e != "" {
		return e
	}
	if h, ok := f.Voted[from]; ok {
		if r := f.Reports[h]; r != nil && r.Slot == slot {
			r.Votes--
		}
	}
	h := reportHash(slot, root)
	if f.Reports[h] == nil {
		f.Reports[h] = &Report{Slot: slot, Root: root}
	}
	f.Reports[h].Votes++
	if f.Reports[h].Votes >= f.QuorumN { // consolidated: the report is removed
		delete(f.Reports, h)
		f.Root, f.LastSlot = root, slot
	} else {
		f.Voted[from] = h
	}
	return ""
}

var _ = bytes.NewReader
