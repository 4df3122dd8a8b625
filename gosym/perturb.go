package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// perturbed writes the overlay of a native build in which a short random delay may happen before every statement of
// the package and the packages of the repository below it. It only helps schedules to appear which are rare natively.
func (n *Native) perturbed(dir string) (string, error) {
	rep := map[string]string{}
	for k, v := range n.replaced {
		rep[k] = v
	}
	mod := n.ld.p.repoMod + "/"
	seen := map[string]bool{}
	k := 0
	var visit func(dir string) error
	visit = func(dir string) error {
		if seen[dir] {
			return nil
		}
		seen[dir] = true
		for _, skip := range []string{"api/", "golibs/logging", "golibs/errors", "golibs/cast", "golibs/verifsym", "golibs/strutil"} {
			if strings.HasPrefix(dir+"/", skip) || strings.HasPrefix(dir, skip) {
				return nil
			}
		}
		fs, err := filepath.Glob(filepath.Join(n.repo, dir, "*.go"))
		if err != nil {
			return err
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			out, imps, err := delayed(f, src)
			if err != nil {
				return err
			}
			for _, im := range imps {
				if strings.HasPrefix(im, mod) {
					if err := visit(strings.TrimPrefix(im, mod)); err != nil {
						return err
					}
				}
			}
			if _, ok := rep[f]; ok {
				continue
			}
			p := filepath.Join(n.work, fmt.Sprintf("pt%s%d.go", strings.ReplaceAll(dir, "/", "_"), k))
			k++
			if err := os.WriteFile(p, []byte(out), 0644); err != nil {
				return err
			}
			rep[f] = p
		}
		return nil
	}
	if err := visit(dir); err != nil {
		return "", err
	}
	buf, _ := json.Marshal(map[string]any{"Replace": rep})
	p := filepath.Join(n.work, "overlay_perturb_"+strings.ReplaceAll(dir, "/", "_")+".json")
	return p, os.WriteFile(p, buf, 0644)
}

func delayed(name string, src []byte) (string, []string, error) {
	return withCalls(name, src, "Delay")
}

// withCalls is the source with a call of the function of package verifsym before every statement
func withCalls(name string, src []byte, call string) (string, []string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return "", nil, err
	}
	var imps []string
	for _, im := range f.Imports {
		imps = append(imps, strings.Trim(im.Path.Value, "\""))
	}
	var at []int
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch b := x.(type) {
		case *ast.FuncDecl:
			// the texts of log messages are not made in the engine, and natively with the lock of the logger
			return call == "Delay" || b.Name.Name != "String"
		case *ast.BlockStmt:
			for _, s := range b.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					list([]ast.Stmt{s})
				}
			}
		case *ast.CaseClause:
			list(b.Body)
		case *ast.CommClause:
			list(b.Body)
		}
		return true
	})
	if len(at) == 0 {
		return string(src), imps, nil
	}
	sort.Ints(at)
	var sb strings.Builder
	last := fset.Position(f.Name.End()).Offset
	sb.Write(src[:last])
	sb.WriteString("; import verifdelay \"github.com/solarisdb/solaris/golibs/verifsym\"")
	for _, o := range at {
		sb.Write(src[last:o])
		sb.WriteString("verifdelay." + call + "(); ")
		last = o
	}
	sb.Write(src[last:])
	return sb.String(), imps, nil
}
