package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"

	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common/hexutil"
)

// ---------------------------------------------------------------- C13: what may be loaded

// rehash gives the state in raw the hash that belongs to its content.
func rehash(raw []byte) []byte {
	var s oracle.OracleState
	if json.Unmarshal(raw, &s) != nil {
		return raw
	}
	s.StateHash = ""
	b, _ := json.MarshalIndent(s, "", " ")
	h := sha256.Sum256(b)
	s.StateHash = hexutil.Encode(h[:])
	b, _ = json.MarshalIndent(s, "", " ")
	return b
}

// rtree is JSON with every object member and array element addressable.
func walkJSON(x any, path string, visit func(path string, set func(any), old any)) {
	switch v := x.(type) {
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k := k
			visit(path+"."+k, func(n any) { v[k] = n }, v[k])
			walkJSON(v[k], path+"."+k, visit)
		}
	case []any:
		for i := range v {
			i := i
			visit(fmt.Sprintf("%s[%d]", path, i), func(n any) { v[i] = n }, v[i])
			walkJSON(v[i], fmt.Sprintf("%s[%d]", path, i), visit)
		}
	}
}

func decode(raw []byte) any {
	var x any
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		panic(err)
	}
	return x
}

func runC13(r *Run) {
	// states to be saved: rich ones before and after the scheduled fee change
	type sample struct {
		name string
		cfg  *oracle.Config
		raw  []byte
		o    *oracle.Oracle
	}
	var samples []sample
	al := c12Alphabet()
	for _, st := range []uint64{14082457, 11649100} {
		cfg := mkCfg("mainnet", st, 700)
		cfg.CheckPointSizeInSlots = 2
		w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE)
		o := oracle.NewOracle(mkCfgCopy(cfg))
		m := newModel(cfg)
		add := func(n string) {
			raw, err := savedBytes(o)
			if err != nil {
				panic(err)
			}
			samples = append(samples, sample{fmt.Sprintf("start %d %s", st, n), cfg, raw, deepClone(o)})
		}
		add("initial")
		for k, a := range []int{1, 2, 3, 5, 10, 6} {
			ps := al[a]
			if m.Next == 14082460 {
				ps = []Part{pDon(10007), part("scheduled fee change", func(b *Blk) { b.Fee = append(b.Fee, 500) })}
			}
			res := step(o, m, w, mkBlock(m.Next, ps), allTags)
			if res.mod == nil {
				r.violate("history", "C13: "+fmt.Sprint(res.diff), nil)
				return
			}
			m = res.mod
			if k%2 == 0 {
				o.FreezeCheckpoint()
			}
			if k == 2 || k == 5 {
				add(fmt.Sprintf("after %d blocks", k+1))
			}
		}
	}
	r.bound("saved states", len(samples))
	// the oracle that loads: a new one, and one that already runs
	running := func(cfg *oracle.Config) *oracle.Oracle {
		c := mkCfgCopy(cfg)
		o, _ := inject(c, cfg.DeployedSlot+1, []PV{{U: vC, St: stYellow, Acc: 5, Pend: 8}}, 6)
		return o
	}
	out := map[string]int64{}
	try := func(name string, mk func(*oracle.Config) *oracle.Oracle, cfg *oracle.Config, raw []byte, wantErr bool, wantState string) {
		o := mk(cfg)
		before := fullKey(o)
		var ok bool
		var err error
		how := guard(func() { ok, err = o.LoadFromBytes(raw) })
		r.Evals.Add(1)
		r.Transitions.Add(1)
		r.mu.Lock()
		out[fmt.Sprintf("rejected=%v", wantErr)]++
		r.mu.Unlock()
		rep := map[string]any{"name": name, "file": string(raw)}
		if how != "" {
			r.violate("crash", fmt.Sprintf("C13: %s: loading ended in %s", name, firstLine(how)), rep)
			return
		}
		if wantErr {
			if err == nil {
				r.violate("accepted", fmt.Sprintf("C13: %s: loaded (found=%v)", name, ok), rep)
			} else if ok {
				r.violate("found", fmt.Sprintf("C13: %s: an error, but reported as found", name), rep)
			} else if k := fullKey(o); k != before {
				r.violate("changed", fmt.Sprintf("C13: %s: rejected (%v), but the oracle changed: %s", name, err, firstDiff(before, k)), rep)
			}
			return
		}
		if err != nil || !ok {
			r.violate("refused", fmt.Sprintf("C13: %s: not loaded: %v %v", name, ok, err), rep)
		} else if g := noHash(realState(o)); g != wantState {
			r.violate("state", fmt.Sprintf("C13: %s: loaded something else: %s", name, firstDiff(wantState, g)), rep)
		}
	}
	fresh := func(cfg *oracle.Config) *oracle.Oracle { return oracle.NewOracle(mkCfgCopy(cfg)) }
	makers := []func(*oracle.Config) *oracle.Oracle{fresh, running}
	for _, s := range samples {
		s := s
		want := noHash(realState(s.o))
		for i, mk := range makers {
			try(fmt.Sprintf("%s, unchanged (loader %d)", s.name, i), mk, s.cfg, s.raw, false, want)
		}
		// a different configuration
		type ch struct {
			n string
			f func(c *oracle.Config)
		}
		chs := []ch{
			{"network", func(c *oracle.Config) { c.Network = "hoodi" }},
			{"network sepolia", func(c *oracle.Config) { c.Network = "sepolia" }},
			{"pool address", func(c *oracle.Config) { c.PoolAddress = stranger.Hex() }},
			{"fee address", func(c *oracle.Config) { c.PoolFeesAddress = stranger.Hex() }},
			{"fee 701", func(c *oracle.Config) { c.PoolFeesPercentOver10000 = 701 }},
			{"fee 0", func(c *oracle.Config) { c.PoolFeesPercentOver10000 = 0 }},
			{"collateral", func(c *oracle.Config) { c.CollateralInWei = add(c.CollateralInWei, bi(1)) }},
			{"collateral wide", func(c *oracle.Config) { c.CollateralInWei = add(c.CollateralInWei, bs("18446744073709551616")) }},
			{"checkpoint size", func(c *oracle.Config) { c.CheckPointSizeInSlots++ }},
			{"deployment block", func(c *oracle.Config) { c.DeployedBlock++ }},
			{"deployment slot", func(c *oracle.Config) { c.DeployedSlot++ }},
			{"deployment slot -1", func(c *oracle.Config) { c.DeployedSlot-- }},
		}
		for _, c := range chs {
			feeAfter := realState(s.o).PoolFeesPercentOver10000 == 500
			if feeAfter && len(c.n) > 3 && c.n[:3] == "fee" && c.n != "fee address" {
				continue // from the scheduled slot on the schedule alone decides
			}
			for i, mk := range makers {
				cc := mkCfgCopy(s.cfg)
				c.f(cc)
				try(fmt.Sprintf("%s, other %s (loader %d)", s.name, c.n, i), mk, cc, s.raw, true, "")
			}
		}
		// the file says something else than the configuration, with a valid hash
		for _, c := range []struct {
			n string
			f func(st *oracle.OracleState)
		}{
			{"network", func(st *oracle.OracleState) { st.Network = "hoodi" }},
			{"pool address", func(st *oracle.OracleState) { st.PoolAddress = stranger.Hex() }},
			{"fee address", func(st *oracle.OracleState) { st.PoolFeesAddress = "" }},
			{"fee 499", func(st *oracle.OracleState) { st.PoolFeesPercentOver10000 = 499 }},
			{"fee 501", func(st *oracle.OracleState) { st.PoolFeesPercentOver10000 = 501 }},
			{"fee of the other period", func(st *oracle.OracleState) { st.PoolFeesPercentOver10000 = 1200 - st.PoolFeesPercentOver10000 }},
			{"collateral", func(st *oracle.OracleState) { st.CollateralInWei = bi(1) }},
			{"no collateral", func(st *oracle.OracleState) { st.CollateralInWei = nil }},
			{"checkpoint size", func(st *oracle.OracleState) { st.CheckPointSizeInSlots = 1 }},
			{"deployment block", func(st *oracle.OracleState) { st.DeployedBlock = 0 }},
			{"deployment slot", func(st *oracle.OracleState) { st.DeployedSlot = 0 }},
		} {
			var st oracle.OracleState
			json.Unmarshal(s.raw, &st)
			c.f(&st)
			b, _ := json.MarshalIndent(st, "", " ")
			for i, mk := range makers {
				try(fmt.Sprintf("%s, file with other %s and a right hash (loader %d)", s.name, c.n, i), mk, s.cfg, rehash(b), true, "")
				try(fmt.Sprintf("%s, file with other %s (loader %d)", s.name, c.n, i), mk, s.cfg, b, true, "")
			}
		}
		// every single value of the file replaced, without touching the hash
		n := 0
		walkJSON(decode(s.raw), "", func(string, func(any), any) { n++ })
		parallel(n, func(_, i int) {
			for alt := 0; alt < 3; alt++ {
				if r.expired() || r.stop() {
					return
				}
				x := decode(s.raw)
				k := 0
				var where string
				walkJSON(x, "", func(p string, set func(any), old any) {
					if k == i {
						where = p
						switch alt {
						case 0:
							set(nil)
						case 1:
							set(bumped(old))
						case 2:
							set(wrongType(old))
						}
					}
					k++
				})
				b, _ := json.MarshalIndent(x, "", " ")
				// what the change means once decoded: the same state and hash may load, anything else may not
				var a, c oracle.OracleState
				json.Unmarshal(s.raw, &a)
				uerr := json.Unmarshal(b, &c)
				if uerr == nil && jsonOf(a) == jsonOf(c) {
					try(fmt.Sprintf("%s, %s changed without effect", s.name, where), fresh, s.cfg, b, false, want)
					continue
				}
				try(fmt.Sprintf("%s, %s changed (%d)", s.name, where, alt), fresh, s.cfg, b, true, "")
				// with the hash made right again, loading may succeed or not
				if uerr == nil {
					hb := rehash(b)
					o := fresh(s.cfg)
					before := fullKey(o)
					var err error
					var ok bool
					how := guard(func() { ok, err = o.LoadFromBytes(hb) })
					r.Evals.Add(1)
					// (a file with a right hash and without some number is not the product of a save or of
					// damage: what loading it does is not specified, only that a rejection changes nothing)
					if how == "" && (err != nil || !ok) && fullKey(o) != before {
						r.violate("changed", fmt.Sprintf("C13: %s, %s changed (%d) and hash made right: rejected (%v) but the oracle changed", s.name, where, alt, err), string(hb))
					}
				}
			}
		})
		// every truncation, every byte changed
		stride := 1
		if !r.thorough() && len(s.raw) > 6000 {
			stride = 3
		}
		parallel(len(s.raw)/stride, func(_, i int) {
			if r.expired() || r.stop() {
				return
			}
			i *= stride
			try(fmt.Sprintf("%s, cut after %d bytes", s.name, i), fresh, s.cfg, s.raw[:i], true, "")
			for _, x := range []byte{1, 0x20, 0x80} {
				b := append([]byte{}, s.raw...)
				b[i] ^= x
				var a, c oracle.OracleState
				json.Unmarshal(s.raw, &a)
				if json.Unmarshal(b, &c) == nil {
					ha, hc := a.StateHash, c.StateHash
					a.StateHash, c.StateHash = "", ""
					if jsonOf(a) == jsonOf(c) && bytes.EqualFold([]byte(ha), []byte(hc)) {
						try(fmt.Sprintf("%s, byte %d changed without effect", s.name, i), fresh, s.cfg, b, false, want)
						continue
					}
				}
				try(fmt.Sprintf("%s, byte %d changed (%x)", s.name, i, x), fresh, s.cfg, b, true, "")
			}
			b := append([]byte{}, s.raw...)
			for k := i; k < len(b); k++ {
				b[k] = 0
			}
			try(fmt.Sprintf("%s, zeroes from byte %d", s.name, i), fresh, s.cfg, b, true, "")
		})
		r.States.Add(1)
	}
	r.bound("file faults", "every value nulled, changed, of another type, with the old hash and with a right one; every truncation; every byte changed in 3 ways; zeroes from every byte on")
	// files: missing, empty, directory
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "c13")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	oracle.StateFolder = dir
	for _, s := range samples {
		for i, mk := range makers {
			o := mk(s.cfg)
			before := fullKey(o)
			type res struct {
				n        string
				f        func() (bool, error)
				prep     func()
				found    bool
				wantErr  bool
				stateSet bool
			}
			p := filepath.Join(dir, oracle.StateJsonName)
			slot := realState(s.o).LatestProcessedSlot
			ps := filepath.Join(dir, fmt.Sprintf("state_%d.json", slot))
			wipe := func() {
				fs, _ := filepath.Glob(filepath.Join(dir, "*"))
				for _, f := range fs {
					os.RemoveAll(f)
				}
			}
			for _, t := range []res{
				{"missing state.json", o.LoadFromJson, wipe, false, false, false},
				{"missing copy", func() (bool, error) { return o.LoadGivenState(slot) }, wipe, false, false, false},
				{"missing folder", o.LoadFromJson, func() { wipe(); oracle.StateFolder = filepath.Join(dir, "none") }, false, false, false},
				{"empty state.json", o.LoadFromJson, func() { oracle.StateFolder = dir; wipe(); os.WriteFile(p, nil, 0644) }, false, true, false},
				{"damaged state.json", o.LoadFromJson, func() { wipe(); os.WriteFile(p, s.raw[:len(s.raw)/2], 0644) }, false, true, false},
				{"damaged copy", func() (bool, error) { return o.LoadGivenState(slot) }, func() { wipe(); os.WriteFile(ps, s.raw[:len(s.raw)/2], 0644) }, false, true, false},
				{"copy", func() (bool, error) { return o.LoadGivenState(slot) }, func() { wipe(); os.WriteFile(ps, s.raw, 0644) }, true, false, true},
				{"state.json", o.LoadFromJson, func() { wipe(); os.WriteFile(p, s.raw, 0644) }, true, false, true},
			} {
				t.prep()
				var ok bool
				var err error
				how := guard(func() { ok, err = t.f() })
				r.Evals.Add(1)
				what := fmt.Sprintf("C13: %s (loader %d), %s: found=%v error=%v %s", s.name, i, t.n, ok, err, firstLine(how))
				if how != "" || ok != t.found || (err != nil) != t.wantErr {
					r.violate("file", what, nil)
				} else if !t.stateSet && fullKey(o) != before {
					r.violate("file", what+", but the oracle changed", nil)
				} else if t.stateSet && noHash(realState(o)) != noHash(realState(s.o)) {
					r.violate("file", what+", but the state is another one", nil)
				}
			}
		}
	}
	r.addOutcomes(out)
	r.sample("state.json after 3 blocks with Validators.11.AccumulatedRewardsWei changed: rejected, oracle unchanged")
}

func bumped(x any) any {
	switch v := x.(type) {
	case json.Number:
		n, ok := new(big.Int).SetString(v.String(), 10)
		if !ok {
			return json.Number("1")
		}
		return json.Number(add(n, bi(1)).String())
	case string:
		if len(v) == 0 {
			return "x"
		}
		return v[:len(v)-1]
	case bool:
		return !v
	case []any:
		if len(v) == 0 {
			return []any{map[string]any{}}
		}
		return v[:len(v)-1]
	case map[string]any:
		return map[string]any{}
	case nil:
		return json.Number("1")
	}
	return nil
}

func wrongType(x any) any {
	switch x.(type) {
	case json.Number:
		return "text"
	case string:
		return json.Number("5")
	case []any:
		return map[string]any{"a": json.Number("1")}
	case map[string]any:
		return []any{}
	}
	return "text"
}
