package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/dappnode/mev-sp-oracle/oracle"
)

// C14: saves run in a child process under strace. Their system calls are the history; every crash
// of a process (each prefix, writes torn) and of the machine (names durable up to the last fsync of
// their folder or later, data of each file up to its last fsync or later) gives a folder, in which
// the real oracle is started.

func init() {
	register("C14", "fault_enumeration", runC14)
	subcommands["c14child"] = c14child
	subcommands["c14load"] = c14load
}

const c14Start = 14082457

func c14Oracle() (*oracle.Oracle, *World) {
	cfg := mkCfg("mainnet", c14Start, 700)
	cfg.CheckPointSizeInSlots = 2
	w := mkWorld("mainnet", cfg, vA, vB, vC, vD, vE)
	return oracle.NewOracle(cfg), w
}

func c14Block(slot uint64) *Blk {
	ps := []Part{pVanillaOK(vA, 1001), pDon(int64(slot % 97))}
	if slot == 14082460 {
		ps = []Part{pDon(10007), part("scheduled fee change", func(b *Blk) { b.Fee = append(b.Fee, 500) })}
	} else if slot == c14Start {
		ps = []Part{pSub(vB, 1003)}
	}
	return mkBlock(slot, ps)
}

func c14Advance(o *oracle.Oracle, w *World) error {
	blk := c14Block(realState(o).NextSlotToProcess)
	w.attach(o, blk.Slot)
	_, err := o.AdvanceStateToNextSlot(blk.full(w.Chain))
	if c, _ := o.IsCheckpoint(); c {
		o.FreezeCheckpoint()
	}
	return err
}

// what one save wrote, as reported by the child
type c14Save struct {
	Slot uint64
	Copy bool
	Key  string // state without its hash
	Err  string
}

func c14Key(o *oracle.Oracle) string {
	h := sha256.Sum256([]byte(noHash(realState(o)) + jsonOf(realCfg(o))))
	return hex.EncodeToString(h[:8])
}

// c14child DIR OPS REPORT: runs the operations in DIR (the working folder of the daemon).
func c14child(a []string) int {
	runtime.LockOSThread()
	if err := os.Chdir(a[0]); err != nil {
		panic(err)
	}
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	o, w := c14Oracle()
	var saves []c14Save
	for _, op := range strings.Split(a[1], " ") {
		n, arg := op, uint64(0)
		if i := strings.IndexByte(op, ':'); i >= 0 {
			n = op[:i]
			arg, _ = strconv.ParseUint(op[i+1:], 10, 64)
		}
		switch n {
		case "adv":
			for i := uint64(0); i < arg; i++ {
				if err := c14Advance(o, w); err != nil {
					panic(err)
				}
			}
		case "load":
			if ok, err := o.LoadFromJson(); !ok || err != nil {
				panic(fmt.Sprint("load: ", ok, err))
			}
		case "given":
			if ok, err := o.LoadGivenState(arg); !ok || err != nil {
				panic(fmt.Sprint("load given: ", ok, err))
			}
		case "save", "copy":
			fmt.Fprintf(null, "MARK begin %d\n", len(saves))
			err := o.SaveToJson(n == "copy")
			s := c14Save{realState(o).LatestProcessedSlot, n == "copy", c14Key(o), ""}
			if err != nil {
				s.Err = err.Error()
				fmt.Fprintf(null, "MARK fail %d\n", len(saves))
			} else {
				fmt.Fprintf(null, "MARK end %d\n", len(saves))
			}
			saves = append(saves, s)
		}
	}
	b, _ := json.Marshal(saves)
	if a[2] != "" {
		os.WriteFile(a[2], b, 0644)
	}
	return 0
}

// ---------------------------------------------------------------- system calls

type c14Op struct {
	Kind  string // mark, creat, trunc, write, fsync, fsyncdir, rename, unlink, mkdir, rmdir, link
	Path  string // relative to the working folder
	Path2 string
	File  int // inode
	Off   int64
	Data  []byte
	Size  int64
	Mark  string
	Num   int
}

var reSys = regexp.MustCompile(`^(\d+)\s+(\w+)\((.*)\)\s+= (-?\d+|\?)(.*)$`)

func unhex(s string) string {
	// "\x2f\x74..." possibly followed by "..."
	s = strings.TrimSpace(s)
	s = strings.TrimSuffix(s, "...")
	s = strings.Trim(s, `"`)
	b, err := hex.DecodeString(strings.ReplaceAll(s, `\x`, ""))
	if err != nil {
		return s
	}
	return string(b)
}

func args(s string) []string {
	var out []string
	depth, q, st := 0, false, 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"':
			q = !q
		case q:
		case c == '{' || c == '[' || c == '(':
			depth++
		case c == '}' || c == ']' || c == ')':
			depth--
		case c == ',' && depth == 0:
			out = append(out, strings.TrimSpace(s[st:i]))
			st = i + 1
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

type c14File struct {
	rel  string
	dir  bool
	ino  int
	off  int64
	app  bool
	sync bool
}

// c14Parse turns the trace into operations on the folder base. Initial files get inodes 1..n.
func c14Parse(trace, base string, names map[string]int, nextIno int) (ops []c14Op, err error) {
	fds := map[string]*c14File{}
	rel := func(at, p string) (string, bool) {
		p = unhex(p)
		if !filepath.IsAbs(p) {
			if at != "AT_FDCWD" {
				f := fds[at]
				if f == nil {
					return "", false
				}
				p = filepath.Join(base, f.rel, p)
			} else {
				p = filepath.Join(base, p)
			}
		}
		x, e := filepath.Rel(base, p)
		if e != nil || strings.HasPrefix(x, "..") {
			return "", false
		}
		return x, true
	}
	name := map[string]int{}
	for k, v := range names {
		name[k] = v
	}
	pending := map[string]string{}
	for _, l := range strings.Split(trace, "\n") {
		if i := strings.Index(l, "<unfinished ...>"); i >= 0 {
			pending[strings.Fields(l)[0]] = l[:i]
			continue
		}
		if i := strings.Index(l, " resumed>"); i >= 0 {
			pid := strings.Fields(l)[0]
			l = pending[pid] + l[i+len(" resumed>"):]
		}
		m := reSys.FindStringSubmatch(strings.TrimRight(l, " "))
		if m == nil {
			continue
		}
		call, as, ret := m[2], args(m[3]), m[4]
		if ret == "?" || strings.HasPrefix(ret, "-") {
			continue
		}
		n, _ := strconv.ParseInt(ret, 10, 64)
		add := func(o c14Op) { ops = append(ops, o) }
		switch call {
		case "open", "openat", "creat":
			at, p, fl := "AT_FDCWD", as[0], ""
			if call == "openat" {
				at, p, fl = as[0], as[1], as[2]
			} else if call == "open" {
				fl = as[1]
			} else {
				fl = "O_CREAT|O_TRUNC"
			}
			delete(fds, ret)
			if unhex(p) == "/dev/null" {
				fds[ret] = &c14File{rel: "/dev/null"}
				continue
			}
			x, ok := rel(at, p)
			if !ok {
				continue
			}
			if strings.Contains(fl, "O_TMPFILE") {
				return nil, fmt.Errorf("O_TMPFILE is not modelled")
			}
			f := &c14File{rel: x, app: strings.Contains(fl, "O_APPEND"), sync: strings.Contains(fl, "SYNC")}
			ino, has := name[x]
			if !has && strings.Contains(fl, "O_CREAT") {
				nextIno++
				ino = nextIno
				name[x] = ino
				add(c14Op{Kind: "creat", Path: x, File: ino})
			} else if has && strings.Contains(fl, "O_TRUNC") {
				add(c14Op{Kind: "trunc", Path: x, File: ino})
			}
			f.ino = ino
			if ino == 0 {
				f.dir = true
			}
			fds[ret] = f
		case "close":
			delete(fds, as[0])
		case "dup", "dup2", "dup3":
			if f := fds[as[0]]; f != nil {
				fds[ret] = f
			}
		case "lseek":
			if f := fds[as[0]]; f != nil {
				f.off = n
			}
		case "write", "pwrite64", "writev", "pwritev":
			f := fds[as[0]]
			if f == nil {
				continue
			}
			if call == "writev" || call == "pwritev" {
				return nil, fmt.Errorf("%s is not modelled", call)
			}
			data := []byte(unhex(as[1]))
			if int64(len(data)) < n {
				return nil, fmt.Errorf("write not decoded: %d bytes of %d", len(data), n)
			}
			data = data[:n]
			if f.rel == "/dev/null" {
				add(c14Op{Kind: "mark", Mark: string(data)})
				continue
			}
			off := f.off
			if call == "pwrite64" {
				off, _ = strconv.ParseInt(as[3], 0, 64)
			} else {
				f.off += n
			}
			if f.app {
				off = -1
			}
			add(c14Op{Kind: "write", Path: f.rel, File: f.ino, Off: off, Data: data})
			if f.sync {
				add(c14Op{Kind: "fsync", Path: f.rel, File: f.ino})
			}
		case "ftruncate":
			if f := fds[as[0]]; f != nil {
				sz, _ := strconv.ParseInt(as[1], 0, 64)
				add(c14Op{Kind: "trunc", Path: f.rel, File: f.ino, Size: sz})
			}
		case "fsync", "fdatasync":
			if f := fds[as[0]]; f != nil {
				if f.dir {
					add(c14Op{Kind: "fsyncdir", Path: f.rel})
				} else {
					add(c14Op{Kind: "fsync", Path: f.rel, File: f.ino})
				}
			}
		case "sync", "syncfs":
			add(c14Op{Kind: "sync"})
		case "rename", "renameat", "renameat2", "link", "linkat", "symlink", "symlinkat":
			var a, b string
			var ok1, ok2 bool
			switch call {
			case "rename", "link":
				a, ok1 = rel("AT_FDCWD", as[0])
				b, ok2 = rel("AT_FDCWD", as[1])
			case "renameat", "renameat2", "linkat":
				a, ok1 = rel(as[0], as[1])
				b, ok2 = rel(as[2], as[3])
			default:
				return nil, fmt.Errorf("%s is not modelled", call)
			}
			if !ok1 || !ok2 {
				if ok1 || ok2 {
					return nil, fmt.Errorf("%s across the folder is not modelled", call)
				}
				continue
			}
			k := "rename"
			if strings.HasPrefix(call, "link") {
				k = "link"
			}
			add(c14Op{Kind: k, Path: a, Path2: b, File: name[a]})
			name[b] = name[a]
			if k == "rename" {
				delete(name, a)
			}
		case "unlink", "unlinkat", "rmdir":
			at, p := "AT_FDCWD", as[0]
			if call == "unlinkat" {
				at, p = as[0], as[1]
			}
			if x, ok := rel(at, p); ok {
				add(c14Op{Kind: "unlink", Path: x, File: name[x]})
				delete(name, x)
			}
		case "mkdir", "mkdirat":
			at, p := "AT_FDCWD", as[0]
			if call == "mkdirat" {
				at, p = as[0], as[1]
			}
			if x, ok := rel(at, p); ok {
				add(c14Op{Kind: "mkdir", Path: x})
			}
		}
	}
	return ops, nil
}

// c14FS is a folder: names to inodes, inodes to contents; a name with inode 0 is a folder.
type c14FS struct {
	name map[string]int
	data map[int][]byte
}

func (f *c14FS) clone() *c14FS {
	n := &c14FS{map[string]int{}, map[int][]byte{}}
	for k, v := range f.name {
		n.name[k] = v
	}
	for k, v := range f.data {
		n.data[k] = v
	}
	return n
}

func (f *c14FS) meta(o c14Op) {
	switch o.Kind {
	case "creat":
		f.name[o.Path] = o.File
	case "rename":
		if i, ok := f.name[o.Path]; ok {
			delete(f.name, o.Path)
			f.name[o.Path2] = i
		}
	case "link":
		if i, ok := f.name[o.Path]; ok {
			f.name[o.Path2] = i
		}
	case "unlink":
		delete(f.name, o.Path)
	case "mkdir":
		f.name[o.Path] = 0
	}
}

func isMeta(k string) bool {
	return k == "creat" || k == "rename" || k == "link" || k == "unlink" || k == "mkdir"
}
func isData(k string) bool { return k == "write" || k == "trunc" }

// content applies a data operation; torn >= 0 writes only so many bytes, zero fills the rest.
func (f *c14FS) content(o c14Op, torn int, zero bool) {
	old := f.data[o.File]
	if o.Kind == "trunc" {
		n := make([]byte, o.Size)
		copy(n, old)
		f.data[o.File] = n
		return
	}
	off := o.Off
	if off < 0 {
		off = int64(len(old))
	}
	d := o.Data
	if torn >= 0 && torn < len(d) {
		if zero {
			z := make([]byte, len(d))
			copy(z, d[:torn])
			d = z
		} else {
			d = d[:torn]
		}
	}
	n := make([]byte, max(int64(len(old)), off+int64(len(d))))
	copy(n, old)
	copy(n[off:], d)
	f.data[o.File] = n
}

// visible is the folder as files.
func (f *c14FS) visible() map[string]string {
	v := map[string]string{}
	for k, i := range f.name {
		if i != 0 {
			v[k] = string(f.data[i])
		}
	}
	return v
}

func c14Hash(v map[string]string) string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := sha256.New()
	for _, k := range ks {
		fmt.Fprintf(h, "%q %d ", k, len(v[k]))
		h.Write([]byte(v[k]))
	}
	return hex.EncodeToString(h.Sum(nil)[:12])
}

func readTree(base string) map[string]string {
	v := map[string]string{}
	filepath.Walk(base, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			x, _ := filepath.Rel(base, p)
			v[x] = string(b)
		}
		return nil
	})
	return v
}

func writeTree(base string, v map[string]string) {
	for k, d := range v {
		p := filepath.Join(base, k)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(d), 0644); err != nil {
			panic(err)
		}
	}
}

// ---------------------------------------------------------------- what a start finds

type c14Case struct {
	Dir   map[string]string
	Slots []uint64
}

type c14Found struct {
	How   string // how the load ended if it did not return
	Ok    bool
	Err   string
	Key   string
	Given []c14Found
	Again string // what went wrong with the next save
}

func c14LoadOne(dir string, slots []uint64) (f c14Found) {
	load := func(g func(o *oracle.Oracle) (bool, error)) (*oracle.Oracle, c14Found) {
		var f c14Found
		o, _ := c14Oracle()
		f.How = firstLine(guard(func() {
			ok, err := g(o)
			f.Ok = ok
			if err != nil {
				f.Err = err.Error()
			}
		}))
		if f.Ok {
			f.Key = c14Key(o)
		}
		return o, f
	}
	oracle.StateFolder = filepath.Join(dir, c14Folder)
	_, f = load(func(o *oracle.Oracle) (bool, error) { return o.LoadFromJson() })
	for _, s := range slots {
		s := s
		_, g := load(func(o *oracle.Oracle) (bool, error) { return o.LoadGivenState(s) })
		f.Given = append(f.Given, g)
	}
	// the next run: load, one more slot, save, load
	if f.How == "" && f.Err == "" {
		o, w := c14Oracle()
		f.Again = firstLine(guard(func() {
			if ok, err := o.LoadFromJson(); err != nil || ok != f.Ok {
				f.Again = fmt.Sprint("second load: ", ok, err)
				return
			}
			if err := c14Advance(o, w); err != nil {
				f.Again = "advance: " + err.Error()
				return
			}
			if err := o.SaveToJson(true); err != nil {
				f.Again = "save: " + err.Error()
				return
			}
			n, _ := c14Oracle()
			if ok, err := n.LoadFromJson(); err != nil || !ok || c14Key(n) != c14Key(o) {
				panic(fmt.Sprint("the state saved after the restart is not loaded: ", ok, " ", err))
			}
			n2, _ := c14Oracle()
			if ok, err := n2.LoadGivenState(realState(o).LatestProcessedSlot); err != nil || !ok || c14Key(n2) != c14Key(o) {
				panic(fmt.Sprint("the copy saved after the restart is not loaded: ", ok, " ", err))
			}
		})) + f.Again
	}
	return f
}

var c14Folder = oracle.StateFolder

// c14load DIR: loads every case found in DIR/in (JSON lines), in this process (the folder is global).
func c14load(a []string) int {
	b, err := os.ReadFile(filepath.Join(a[0], "in"))
	if err != nil {
		panic(err)
	}
	var cs []c14Case
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	var out []c14Found
	d := filepath.Join(a[0], "d")
	for _, c := range cs {
		os.RemoveAll(d)
		os.MkdirAll(filepath.Join(d, c14Folder), 0755)
		writeTree(d, c.Dir)
		out = append(out, c14LoadOne(d, c.Slots))
	}
	o, _ := json.Marshal(out)
	if err := os.WriteFile(filepath.Join(a[0], "out"), o, 0644); err != nil {
		panic(err)
	}
	return 0
}

func c14LoadAll(work string, cs []c14Case) []c14Found {
	res := make([]c14Found, len(cs))
	const chunk = 64
	n := (len(cs) + chunk - 1) / chunk
	self, _ := os.Executable()
	parallel(n, func(_, i int) {
		part := cs[i*chunk : min(len(cs), (i+1)*chunk)]
		d := filepath.Join(work, fmt.Sprintf("load%d", i))
		os.MkdirAll(d, 0755)
		b, _ := json.Marshal(part)
		os.WriteFile(filepath.Join(d, "in"), b, 0644)
		if out, err := exec.Command(self, "c14load", d).CombinedOutput(); err != nil {
			panic(fmt.Sprintf("c14load: %v %s", err, out))
		}
		b, _ = os.ReadFile(filepath.Join(d, "out"))
		var fs []c14Found
		if err := json.Unmarshal(b, &fs); err != nil || len(fs) != len(part) {
			panic("c14load: bad answer")
		}
		copy(res[i*chunk:], fs)
		os.RemoveAll(d)
	})
	return res
}

const c14Calls = "open,openat,creat,close,dup,dup2,dup3,lseek,write,pwrite64,writev,pwritev,ftruncate,fsync,fdatasync,sync,syncfs,rename,renameat,renameat2,link,linkat,symlink,symlinkat,unlink,unlinkat,rmdir,mkdir,mkdirat"

func c14Strace(dir, ops, report, trace string, extra ...string) error {
	self, _ := os.Executable()
	a := []string{"-f", "-qq", "-xx", "-s", "100000000", "-o", trace, "-e", "trace=" + c14Calls}
	for _, e := range extra {
		a = append(a, "-e", e)
	}
	a = append(a, self, "c14child", dir, ops, report)
	c := exec.Command("strace", a...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, firstLine(string(out)))
	}
	return nil
}

type c14Hist struct {
	ops    string
	folder bool              // the state folder exists
	pre    func() []string   // operations that made the folder before (not crashed)
	files  map[string]string // left over
}

func runC14(r *Run) {
	work, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "c14")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(work)
	hists := []c14Hist{
		{ops: "adv:1 save adv:1 copy copy adv:1 save", folder: true},
		{ops: "adv:2 copy adv:2 copy save", folder: true},
		{ops: "adv:2 copy", folder: false},
		{ops: "given:14082458 save copy", folder: true, pre: func() []string { return []string{"adv:2 copy adv:6 copy"} }},
		{ops: "load adv:1 save adv:1 copy", folder: true, pre: func() []string { return []string{"adv:4 copy"} },
			files: map[string]string{"state.json.tmp1": "{", "state_14082462.json.tmp2": "", "state.json.tmp": "{", "state.json.bak": "", "state_14082462.json.tmp": "x"}},
	}
	if r.thorough() {
		hists = append(hists, c14Hist{ops: "adv:2 copy adv:2 copy adv:2 copy adv:1 save adv:1 copy", folder: true},
			c14Hist{ops: "adv:1 save save save adv:3 copy copy", folder: false})
	}
	r.bound("histories", len(hists))
	r.bound("torn writes", map[bool]string{false: "0, 1, 2, quarter, half, three quarters, all but 2, all but 1 bytes, and every multiple of 512", true: "every length"}[r.thorough()])
	r.bound("crash model", "process: every prefix of the system calls, the write under way torn; machine: every prefix of the changes of names that includes those before the last fsync of the folder, times, for every file, every prefix of its writes that includes those before its last fsync, the last one torn with the rest missing or zero")
	r.bound("failing calls", "every single failing system call (EIO, ENOSPC, EACCES), and a real SIGKILL at every system call")
	var validated, distinct atomic.Int64
	for hi, h := range hists {
		if r.stop() {
			break
		}
		c14History(r, filepath.Join(work, fmt.Sprint("h", hi)), hi, h, &validated, &distinct)
	}
	r.put("traces_validated_against_impl", validated.Load())
	r.put("distinct_folders_after_a_crash", distinct.Load())
	r.sample(`history "adv:1 save adv:1 copy copy adv:1 save": crash of the machine after the rename of the second save, before the folder is synced`)
}

func c14History(r *Run, work string, hi int, h c14Hist, validated, distinct *atomic.Int64) {
	self, _ := os.Executable()
	setup := func(dir string) {
		os.MkdirAll(dir, 0755)
		if h.folder {
			os.MkdirAll(filepath.Join(dir, c14Folder), 0755)
		}
		if h.pre != nil {
			for _, o := range h.pre() {
				if out, err := exec.Command(self, "c14child", dir, o, "").CombinedOutput(); err != nil {
					panic(fmt.Sprintf("c14: preparation: %v %s", err, out))
				}
			}
		}
		for k, d := range h.files {
			os.WriteFile(filepath.Join(dir, c14Folder, k), []byte(d), 0644)
		}
	}
	dir := filepath.Join(work, "base")
	setup(dir)
	init := &c14FS{map[string]int{}, map[int][]byte{}}
	ino := 0
	if h.folder {
		init.name[c14Folder] = 0
	}
	start := readTree(dir)
	for _, k := range sortedKeys(start) {
		ino++
		init.name[k] = ino
		init.data[ino] = []byte(start[k])
	}
	trace := filepath.Join(work, "trace")
	report := filepath.Join(work, "report")
	if err := c14Strace(dir, h.ops, report, trace); err != nil {
		panic("strace: " + err.Error())
	}
	tb, _ := os.ReadFile(trace)
	names := map[string]int{}
	for k, v := range init.name {
		if v != 0 {
			names[k] = v
		}
	}
	ops, err := c14Parse(string(tb), dir, names, ino)
	if err != nil {
		r.note("history %d: %v", hi, err)
		r.Capped.Store(true)
		return
	}
	var saves []c14Save
	b, _ := os.ReadFile(report)
	if err := json.Unmarshal(b, &saves); err != nil {
		panic(err)
	}
	for _, s := range saves {
		if s.Err != "" {
			r.violate("save-fails", fmt.Sprintf("C14: history {%s}: a save fails: %s", h.ops, s.Err), nil)
			return
		}
	}
	// the model replays the whole trace to the folder that is there
	full := init.clone()
	for _, o := range ops {
		if isMeta(o.Kind) {
			full.meta(o)
		} else if isData(o.Kind) {
			full.content(o, -1, false)
		}
	}
	if c14Hash(full.visible()) != c14Hash(readTree(dir)) {
		r.note("history %d: the file system model does not reproduce the folder", hi)
		r.Capped.Store(true)
		panic("C14: the file system model does not reproduce the folder")
	}
	validated.Add(1)

	// what may be found: by position in the trace
	prevKey := map[string]string{} // "" (latest) and slot -> key, before the history
	{
		f := c14LoadAll(filepath.Join(work, "pre"), []c14Case{{Dir: start}})
		if f[0].Ok {
			prevKey[""] = f[0].Key
		}
	}
	slotSet := map[uint64]bool{c14Start + 2: true}
	for _, s := range saves {
		slotSet[s.Slot] = true
		slotSet[s.Slot+2] = true
	}
	for k := range start {
		var s uint64
		if n, _ := fmt.Sscanf(filepath.Base(k), "state_%d.json", &s); n == 1 && strings.HasSuffix(k, ".json") {
			slotSet[s] = true
		}
	}
	var slots []uint64
	for s := range slotSet {
		slots = append(slots, s)
	}
	sort.Slice(slots, func(i, j int) bool { return slots[i] < slots[j] })
	if h.pre != nil {
		f := c14LoadAll(filepath.Join(work, "pre"), []c14Case{{Dir: start, Slots: slots}})
		for i, s := range slots {
			if _, ok := start[filepath.Join(c14Folder, fmt.Sprintf("state_%d.json", s))]; ok && f[0].Given[i].Ok {
				prevKey[fmt.Sprint(s)] = f[0].Given[i].Key
			}
		}
	}
	type allowed struct {
		latest map[string]bool // keys; "" for not found
		copies map[uint64]map[string]bool
	}
	at := make([]allowed, len(ops)+1)
	var mu sync.Mutex
	{
		cur := map[string]bool{prevKey[""]: true}
		cop := map[uint64]map[string]bool{}
		for _, s := range slots {
			cop[s] = map[string]bool{prevKey[fmt.Sprint(s)]: true}
		}
		snap := func() allowed {
			a := allowed{map[string]bool{}, map[uint64]map[string]bool{}}
			for k := range cur {
				a.latest[k] = true
			}
			for s, m := range cop {
				a.copies[s] = map[string]bool{}
				for k := range m {
					a.copies[s][k] = true
				}
			}
			return a
		}
		at[0] = snap()
		for i, o := range ops {
			if o.Kind == "mark" {
				var what string
				var n int
				fmt.Sscanf(o.Mark, "MARK %s %d", &what, &n)
				s := saves[n]
				if what == "begin" {
					cur[s.Key] = true
					if s.Copy {
						cop[s.Slot][s.Key] = true
					}
				} else if what == "end" {
					cur = map[string]bool{s.Key: true}
					if s.Copy {
						cop[s.Slot] = map[string]bool{s.Key: true}
					}
				}
			}
			at[i+1] = snap()
		}
	}
	check := func(a allowed, f c14Found, where string, dirv map[string]string) {
		bad := func(sig, what string) {
			r.violate(sig, fmt.Sprintf("C14: history {%s}, %s: %s", h.ops, where, what), map[string]any{"history": h.ops, "files": dirv})
		}
		if f.How != "" || f.Err != "" {
			bad("start-fails", fmt.Sprintf("the next start does not load the state: %s%s", f.How, f.Err))
			return
		}
		k := f.Key
		if !f.Ok {
			k = ""
		}
		if !a.latest[k] {
			if k == "" {
				bad("lost", "the next start finds no state, although one was saved")
			} else {
				bad("other-state", "the next start finds a state that is neither the previous nor the new one")
			}
			return
		}
		any := map[string]bool{}
		for _, m := range a.copies {
			for k := range m {
				any[k] = true
			}
		}
		for i, s := range slots {
			g := f.Given[i]
			if g.How != "" || g.Err != "" {
				bad("copy-damaged", fmt.Sprintf("the copy asked for slot %d does not load: %s%s", s, g.How, g.Err))
				return
			}
			m := a.copies[s]
			switch {
			case !g.Ok && m[""]:
			case !g.Ok:
				bad("copy-lost", fmt.Sprintf("the copy of slot %d is gone", s))
				return
			case m[g.Key]:
			case m[""] && any[g.Key]: // an older one, since that of the slot may not exist
			default:
				bad("copy-other", fmt.Sprintf("asked for the copy of slot %d, an unexpected state is loaded", s))
				return
			}
		}
		if f.Again != "" {
			bad("again", "after the restart: "+f.Again)
		}
	}
	// enumeration
	type pt struct {
		k     int
		where string
	}
	cases := map[string]*c14Case{}
	places := map[string][]pt{}
	put := func(v map[string]string, k int, where string) {
		hh := c14Hash(v)
		mu.Lock()
		defer mu.Unlock()
		r.Evals.Add(1)
		if _, ok := cases[hh]; !ok {
			cases[hh] = &c14Case{v, slots}
		}
		for _, p := range places[hh] {
			if sameAllowed(at[p.k].latest, at[k].latest) && fmt.Sprint(at[p.k].copies) == fmt.Sprint(at[k].copies) {
				return
			}
		}
		places[hh] = append(places[hh], pt{k, where})
	}
	torn := func(n int) []int {
		if r.thorough() && n <= 60000 {
			out := make([]int, n)
			for i := range out {
				out[i] = i
			}
			return out
		}
		m := map[int]bool{0: true, 1: true, 2: true, n / 4: true, n / 2: true, 3 * n / 4: true, n - 2: true, n - 1: true}
		for i := 512; i < n; i += 512 {
			m[i] = true
		}
		var out []int
		for i := range m {
			if i >= 0 && i < n {
				out = append(out, i)
			}
		}
		sort.Ints(out)
		return out
	}
	for k := 0; k <= len(ops); k++ {
		// process crash
		fs := init.clone()
		for _, o := range ops[:k] {
			if isMeta(o.Kind) {
				fs.meta(o)
			} else if isData(o.Kind) {
				fs.content(o, -1, false)
			}
		}
		put(fs.visible(), k, fmt.Sprintf("process killed after system call %d of %d", k, len(ops)))
		if k < len(ops) && ops[k].Kind == "write" {
			for _, t := range torn(len(ops[k].Data)) {
				f2 := fs.clone()
				f2.content(ops[k], t, false)
				put(f2.visible(), k, fmt.Sprintf("process killed in system call %d of %d (write of %d bytes of %s, %d written)", k+1, len(ops), len(ops[k].Data), ops[k].Path, t))
			}
		}
		// machine crash
		if !h.folder {
			continue // whether the new folder itself survives is up to who made it
		}
		var metas []int
		durable := 0
		dataOps := map[int][]int{}
		dataDur := map[int]int{}
		for i, o := range ops[:k] {
			switch {
			case isMeta(o.Kind):
				metas = append(metas, i)
			case isData(o.Kind):
				dataOps[o.File] = append(dataOps[o.File], i)
			case o.Kind == "fsync":
				dataDur[o.File] = len(dataOps[o.File])
			case o.Kind == "fsyncdir":
				durable = len(metas)
			case o.Kind == "sync":
				durable = len(metas)
				for f := range dataOps {
					dataDur[f] = len(dataOps[f])
				}
			}
		}
		var files []int
		for f := range dataOps {
			files = append(files, f)
		}
		sort.Ints(files)
		for m := durable; m <= len(metas); m++ {
			base := init.clone()
			for _, i := range metas[:m] {
				base.meta(ops[i])
			}
			live := map[int]bool{}
			for _, i := range base.name {
				live[i] = true
			}
			var rec func(j int, fs *c14FS, desc string)
			rec = func(j int, fs *c14FS, desc string) {
				if j == len(files) {
					put(fs.visible(), k, fmt.Sprintf("machine stopped after system call %d of %d, with %d of %d changes of names%s", k, len(ops), m, len(metas), desc))
					return
				}
				f := files[j]
				do := dataOps[f]
				lo := dataDur[f]
				if !live[f] {
					lo = len(do)
				}
				for n := lo; n <= len(do); n++ {
					f2 := fs.clone()
					for _, i := range do[:n] {
						f2.content(ops[i], -1, false)
					}
					d := desc
					if n < len(do) {
						d += fmt.Sprintf(", %d of %d writes of inode %d", n, len(do), f)
					}
					rec(j+1, f2, d)
					if n < len(do) && ops[do[n]].Kind == "write" {
						for _, t := range torn(len(ops[do[n]].Data)) {
							for _, z := range []bool{false, true} {
								f3 := f2.clone()
								f3.content(ops[do[n]], t, z)
								rec(j+1, f3, d+fmt.Sprintf(" and %d bytes of the next (zeros after: %v)", t, z))
							}
						}
					}
				}
			}
			rec(0, base, "")
		}
	}
	var hs []string
	for k := range cases {
		hs = append(hs, k)
	}
	sort.Strings(hs)
	cs := make([]c14Case, len(hs))
	for i, k := range hs {
		cs[i] = *cases[k]
	}
	found := c14LoadAll(filepath.Join(work, "loads"), cs)
	for i, k := range hs {
		for _, p := range places[k] {
			check(at[p.k], found[i], p.where, cs[i].Dir)
			r.States.Add(1)
			r.outcome(fmt.Sprintf("history %d: found %v, copies %s", hi, found[i].Ok, copiesFound(found[i])))
		}
	}
	distinct.Add(int64(len(hs)))

	// the same for real: a kill at, and an error from, every system call
	type inj struct{ set, what string }
	var injs []inj
	counts := map[string]int{}
	for _, l := range strings.Split(string(tb), "\n") {
		if m := regexp.MustCompile(`^\d+\s+(\w+)\(`).FindStringSubmatch(l); m != nil {
			counts[m[1]]++
		}
	}
	calls := sortedKeys(counts)
	for _, c := range calls {
		switch c {
		case "lseek", "dup", "dup2", "dup3":
			continue
		}
		for n := 1; n <= counts[c]; n++ {
			errs := []string{"EIO"}
			switch c {
			case "write", "openat", "open", "creat", "pwrite64", "ftruncate":
				errs = append(errs, "ENOSPC")
			case "rename", "renameat", "renameat2", "mkdirat", "mkdir":
				errs = append(errs, "EACCES")
			}
			for _, e := range errs {
				injs = append(injs, inj{fmt.Sprintf("inject=%s:error=%s:when=%d", c, e, n), fmt.Sprintf("%s number %d fails with %s", c, n, e)})
			}
			injs = append(injs, inj{fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", c, n), fmt.Sprintf("killed at %s number %d", c, n)})
		}
	}
	type result struct {
		v      map[string]string
		saves  []c14Save
		killed bool
		marks  []c14Op
	}
	res := make([]*result, len(injs))
	parallel(len(injs), func(_, i int) {
		if r.stop() || r.expired() {
			return
		}
		d := filepath.Join(work, fmt.Sprintf("inj%d", i))
		setup(d)
		rep, tr := d+".rep", d+".tr"
		err := c14Strace(d, h.ops, rep, tr, injs[i].set)
		x := &result{v: readTree(d), killed: strings.Contains(injs[i].set, "SIGKILL")}
		t, _ := os.ReadFile(tr)
		os.RemoveAll(d)
		os.Remove(rep)
		os.Remove(tr)
		_ = err
		// which saves began, ended well or failed
		ops, perr := c14Parse(string(t), d, names, ino)
		if perr != nil {
			return
		}
		for _, o := range ops {
			if o.Kind == "mark" {
				x.marks = append(x.marks, o)
			}
		}
		res[i] = x
	})
	cs = cs[:0]
	var which []int
	for i, x := range res {
		if x != nil {
			cs = append(cs, c14Case{x.v, slots})
			which = append(which, i)
		}
	}
	found = c14LoadAll(filepath.Join(work, "loads2"), cs)
	for j, i := range which {
		x := res[i]
		a := allowed{map[string]bool{prevKey[""]: true}, map[uint64]map[string]bool{}}
		for _, s := range slots {
			a.copies[s] = map[string]bool{prevKey[fmt.Sprint(s)]: true}
		}
		for _, o := range x.marks {
			var what string
			var n int
			fmt.Sscanf(o.Mark, "MARK %s %d", &what, &n)
			s := saves[n]
			switch what {
			case "begin":
				a.latest[s.Key] = true
				if s.Copy {
					a.copies[s.Slot][s.Key] = true
				}
			case "end":
				a.latest = map[string]bool{s.Key: true}
				if s.Copy {
					a.copies[s.Slot] = map[string]bool{s.Key: true}
				}
			}
		}
		check(a, found[j], injs[i].what, x.v)
		if x.killed {
			// a real kill gives a folder of the model (temporary names are random)
			if c14KnownDir(x.v, cases) {
				validated.Add(1)
			}
		}
		r.Evals.Add(1)
		r.Transitions.Add(1)
	}
}

var reRandom = regexp.MustCompile(`[0-9]{6,}$`)

// c14KnownDir tells whether the enumeration has a folder with these contents, whatever the random names.
func c14KnownDir(v map[string]string, cases map[string]*c14Case) bool {
	norm := func(v map[string]string) string {
		m := map[string]string{}
		for k, d := range v {
			m[reRandom.ReplaceAllString(k, "*")] = d
		}
		return c14Hash(m)
	}
	h := norm(v)
	for _, c := range cases {
		if norm(c.Dir) == h {
			return true
		}
	}
	return false
}

func copiesFound(f c14Found) (s string) {
	for _, g := range f.Given {
		if g.Ok {
			s += "x"
		} else {
			s += "-"
		}
	}
	return
}

func sameAllowed(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
