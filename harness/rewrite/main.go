// Command rewrite instruments packages of the module under test for the checks that have to control
// something that the language leaves open. It writes rewritten copies of the source files to OUT and
// prints the overlay entries (original path -> rewritten path) as JSON.
//
//	rewrite -modfile M -out OUT [-maps] [-sync] [-sleep] [-steps] pkg...
//
//	-maps   range over a map goes through vshim.Range, which chooses the order
//	-sync   sync.Mutex, RWMutex, WaitGroup and Once become the scheduled ones of vshim
//	-sleep  time.Sleep becomes vshim.Sleep
//	-steps  a scheduling point before every statement of the functions of the package
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	modfile = flag.String("modfile", "", "")
	out     = flag.String("out", "", "")
	maps    = flag.Bool("maps", false, "")
	syncs   = flag.Bool("sync", false, "")
	sleeps  = flag.Bool("sleep", false, "")
	steps   = flag.Bool("steps", false, "")
	shim    = flag.String("shim", "", "import path of vshim")
)

type pkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Name       string
}

func die(a ...any) { fmt.Fprintln(os.Stderr, a...); os.Exit(1) }

func main() {
	flag.Parse()
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Name"}
	if *modfile != "" {
		args = append(args, "-modfile", *modfile)
	}
	cmd := exec.Command("go", append(args, flag.Args()...)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	exports := map[string]string{}
	all := map[string]pkg{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		all[p.Dir] = p
	}
	overlay := map[string]string{}
	for _, a := range flag.Args() {
		dir, _ := filepath.Abs(a)
		p, ok := all[dir]
		if !ok {
			die("no package in", dir)
		}
		fset := token.NewFileSet()
		var files []*ast.File
		for _, f := range p.GoFiles {
			x, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, parser.ParseComments)
			if err != nil {
				die(err)
			}
			files = append(files, x)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}), FakeImportC: true}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("typecheck:", err)
		}
		for i, f := range files {
			name := filepath.Join(dir, p.GoFiles[i])
			src, err := os.ReadFile(name)
			if err != nil {
				die(err)
			}
			n, changed := rewrite(fset, f, info, src)
			if !changed {
				continue
			}
			if g, err := format.Source(n); err == nil {
				n = g
			} else {
				die(name, err)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(name, "/"), "/", "__"))
			if err := os.WriteFile(dst, n, 0644); err != nil {
				die(err)
			}
			overlay[name] = dst
		}
	}
	j, _ := json.Marshal(overlay)
	os.Stdout.Write(j)
}

type edit struct {
	at, end int
	s       string
}

func rewrite(fset *token.FileSet, f *ast.File, info *types.Info, src []byte) ([]byte, bool) {
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ins := func(p token.Pos, s string) { eds = append(eds, edit{off(p), off(p), s}) }
	keep := map[string]string{} // imports that must stay used
	pkgOf := func(e ast.Expr) string {
		id, ok := e.(*ast.Ident)
		if !ok {
			return ""
		}
		if pn, ok := info.Uses[id].(*types.PkgName); ok {
			return pn.Imported().Path()
		}
		return ""
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.RangeStmt:
			if *maps {
				if tv, ok := info.Types[x.X]; ok {
					if _, ok := tv.Type.Underlying().(*types.Map); ok {
						ins(x.X.Pos(), "vshim.Range(")
						ins(x.X.End(), ")")
					}
				}
			}
		case *ast.SelectorExpr:
			switch pkgOf(x.X) {
			case "sync":
				if *syncs && (x.Sel.Name == "Mutex" || x.Sel.Name == "RWMutex" || x.Sel.Name == "WaitGroup" || x.Sel.Name == "Once") {
					eds = append(eds, edit{off(x.X.Pos()), off(x.X.End()), "vshim"})
					keep[x.X.(*ast.Ident).Name+".Mutex{}"] = ""
				}
			case "time":
				if *sleeps && x.Sel.Name == "Sleep" {
					eds = append(eds, edit{off(x.X.Pos()), off(x.X.End()), "vshim"})
					keep[x.X.(*ast.Ident).Name+".Second"] = ""
				}
			}
		case *ast.BlockStmt:
			if *steps {
				for _, s := range x.List {
					stepBefore(s, ins)
				}
			}
		case *ast.CaseClause:
			if *steps {
				for _, s := range x.Body {
					stepBefore(s, ins)
				}
			}
		case *ast.CommClause:
			if *steps {
				for _, s := range x.Body {
					stepBefore(s, ins)
				}
			}
		}
		return true
	})
	if len(eds) == 0 {
		return nil, false
	}
	// statement lists of switch and select blocks hold clauses, not statements: handled in stepBefore
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].at < eds[j].at })
	var o bytes.Buffer
	last := 0
	// the import goes right after the package clause
	pk := off(f.Name.End())
	imp := "; import vshim " + strconv.Quote(*shim)
	put := false
	for _, e := range eds {
		if !put && e.at >= pk {
			o.Write(src[last:pk])
			o.WriteString(imp)
			last = pk
			put = true
		}
		o.Write(src[last:e.at])
		o.WriteString(e.s)
		last = e.end
	}
	o.Write(src[last:])
	for k := range keep {
		if strings.HasSuffix(k, "{}") {
			o.WriteString("\nvar _ = &" + k + "\n")
		} else {
			o.WriteString("\nvar _ = " + k + "\n")
		}
	}
	o.WriteString("\nvar _ = vshim.Used\n")
	return o.Bytes(), true
}

func stepBefore(s ast.Stmt, ins func(token.Pos, string)) {
	switch s.(type) {
	case *ast.CaseClause, *ast.CommClause, *ast.LabeledStmt, *ast.EmptyStmt:
		return
	}
	if receives(s) {
		ins(s.Pos(), "vshim.StepRecv(); ")
		return
	}
	ins(s.Pos(), "vshim.Step(); ")
}

// receives says whether the statement itself (not its blocks) waits on a channel.
func receives(s ast.Stmt) bool {
	_, hit := s.(*ast.SelectStmt)
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.UnaryExpr:
			hit = hit || x.Op == token.ARROW
		}
		return true
	})
	return hit
}
