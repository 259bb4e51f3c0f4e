// Command instr weaves the simulator's yield points into the working tree of the code under test and writes a
// go build overlay; the tree itself is left alone. It judges nothing about how the code is written: every statement of
// every non-test package gets a yield point, dynamic make sizes pass through the allocation budget, go statements become
// simulated tasks, the sync package is replaced by its simulated form, and package variables are registered so that
// the simulator can put process state back to what it was at start-up.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	text     string
	ord      int
}

func die(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(2) }

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	plain := flag.Bool("plain", false, "only register globals")
	flag.Parse()
	if *out == "" {
		die("-out required")
	}
	os.MkdirAll(*out, 0o755)
	overlay := map[string]string{}
	var sites []string
	byDir := map[string][]string{}
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		b := filepath.Base(p)
		if fi.IsDir() {
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "test") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(b, ".go") && !strings.HasSuffix(b, "_test.go") && !strings.HasPrefix(b, "_") && !strings.HasPrefix(b, ".") {
			byDir[filepath.Dir(p)] = append(byDir[filepath.Dir(p)], p)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	var dirs []string
	for d := range byDir {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)

	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	srcs := map[string][]byte{}
	channels := false
	for _, d := range dirs {
		sort.Strings(byDir[d])
		for _, p := range byDir[d] {
			src, err := os.ReadFile(p)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files[p], srcs[p] = f, src
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.SendStmt, *ast.SelectStmt:
					channels = true
				case *ast.UnaryExpr:
					if x.Op == token.ARROW {
						channels = true
					}
				}
				return true
			})
		}
	}
	if channels {
		fmt.Fprintln(os.Stderr, "instr: the tree uses channels; falling back to interleaving at API boundaries")
		*plain = true
	}
	n := 0
	for _, d := range dirs {
		var globals []string
		pkg := ""
		skip := false
		for _, p := range byDir[d] {
			f := files[p]
			pkg = f.Name.Name
			if pkg == "main" {
				skip = true
				continue
			}
			for _, dc := range f.Decls {
				if g, ok := dc.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							if id.Name != "_" && !hasConstraint(f, fset) {
								globals = append(globals, id.Name)
							}
						}
					}
				}
			}
			if *plain {
				continue
			}
			res, changed := instrument(fset, f, srcs[p], p, &sites)
			if changed {
				n++
				q := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, filepath.Base(p)))
				if err := os.WriteFile(q, res, 0o644); err != nil {
					die("%v", err)
				}
				overlay[p] = q
			}
		}
		if skip || len(globals) == 0 {
			continue
		}
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport simrt \"gosusim/simrt\"\n\nfunc init() {\n", pkg)
		rel, _ := filepath.Rel(*repo, d)
		for _, g := range globals {
			fmt.Fprintf(&b, "\tsimrt.RegGlobal(%q, &%s)\n", rel+"."+g, g)
		}
		b.WriteString("}\n")
		n++
		q := filepath.Join(*out, fmt.Sprintf("g%03d.go", n))
		if err := os.WriteFile(q, []byte(b.String()), 0o644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(d, "zz_gosusim_globals.go")] = q
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		die("%v", err)
	}
	os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644)
	fmt.Fprintf(os.Stderr, "instr: %d yield points, plain=%v\n", len(sites), *plain)
}

func hasConstraint(f *ast.File, fset *token.FileSet) bool {
	for _, c := range f.Comments {
		if c.Pos() > f.Package {
			break
		}
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "//go:build") {
				return true
			}
		}
	}
	return false
}

func instrument(fset *token.FileSet, f *ast.File, src []byte, path string, sites *[]string) ([]byte, bool) {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(a, b int, t string) { edits = append(edits, edit{a, b, t, len(edits)}) }
	used, needRT := false, false
	y := func(p token.Pos) {
		id := len(*sites) + 1
		if id >= 1<<15 {
			return
		}
		ps := fset.Position(p)
		*sites = append(*sites, fmt.Sprintf("%d %s:%d:%d", id, ps.Filename, ps.Line, ps.Column))
		add(off(p), off(p), "simrt.Y("+strconv.Itoa(id)+"); ")
		used, needRT = true, true
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			y(s.Pos())
		}
	}
	loopBody := func(b *ast.BlockStmt) {
		if len(b.List) == 0 {
			y(b.Lbrace + 1)
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			loopBody(x.Body)
		case *ast.RangeStmt:
			loopBody(x.Body)
		case *ast.GoStmt:
			fn := "simrt.GoCall("
			if x.Call.Ellipsis.IsValid() {
				fn = "simrt.GoCallSlice("
			}
			add(off(x.Pos()), off(x.Call.Pos()), fn)
			if len(x.Call.Args) > 0 {
				add(off(x.Call.Lparen), off(x.Call.Lparen)+1, ", ")
			} else {
				add(off(x.Call.Lparen), off(x.Call.Lparen)+1, "")
			}
			if x.Call.Ellipsis.IsValid() {
				add(off(x.Call.Ellipsis), off(x.Call.Ellipsis)+3, "")
			}
			used, needRT = true, true
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 1 {
				for _, a := range x.Args[1:] {
					if _, ok := a.(*ast.BasicLit); ok {
						continue
					}
					add(off(a.Pos()), off(a.Pos()), "simrt.N(")
					add(off(a.End()), off(a.End()), ")")
					used, needRT = true, true
				}
			}
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			add(off(im.Path.Pos()), off(im.Path.End()), `"gosusim/simsync"`)
			if im.Name == nil {
				add(off(im.Path.Pos()), off(im.Path.Pos()), "sync ")
			}
			used = true
		}
	}
	if !used {
		return src, false
	}
	if needRT {
		e := off(f.Name.End())
		add(e, e, `; import simrt "gosusim/simrt"`)
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// insertions before replacements at the same place; otherwise in order of creation
		zi, zj := edits[i].off == edits[i].end, edits[j].off == edits[j].end
		if zi != zj {
			return zi
		}
		return edits[i].ord < edits[j].ord
	})
	var b []byte
	pos := 0
	for _, ed := range edits {
		if ed.off < pos {
			die("%s: overlapping edits", path)
		}
		b = append(b, src[pos:ed.off]...)
		b = append(b, ed.text...)
		pos = ed.end
	}
	return append(b, src[pos:]...), true
}
