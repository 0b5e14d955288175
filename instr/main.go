// instr makes a go build overlay that adds scheduling points to packages of
// miniLCT/gosb: before every statement a call of vpoint.P, the package sync
// replaced by vsync (locks that a synctest bubble understands) and, with -os,
// whole-file reads and writes split into steps. It transforms whatever the
// current sources are.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	module    = "github.com/miniLCT/gosb"
	pointPath = module + "/hack/vpoint"
	syncPath  = module + "/hack/vsync"
	osPath    = module + "/hack/vos"
)

type insertion struct {
	at  int
	del int
	s   string
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	withOS := flag.Bool("os", false, "split file reads and writes")
	shim := flag.String("shim", "instr/shim", "directory of the shim packages")
	flag.Parse()
	if err := run(*repo, *out, *shim, *withOS, flag.Args()); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func run(repo, out, shim string, withOS bool, pkgs []string) error {
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	replace := map[string]string{}
	shim, err := filepath.Abs(shim)
	if err != nil {
		return err
	}
	for _, n := range []string{"vpoint", "vsync", "vos"} {
		replace[filepath.Join(repo, "hack", n, n+".go")] = filepath.Join(shim, n, n+".go")
	}
	// the packages and what they use of the same module
	args := append([]string{"list", "-deps", "-f", "{{.ImportPath}}\t{{.Dir}}\t{{range .GoFiles}}{{.}} {{end}}"}, pkgs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w", err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Split(line, "\t")
		if len(f) != 3 || !strings.HasPrefix(f[0], module+"/") || strings.HasPrefix(f[0], module+"/hack/") {
			continue
		}
		for _, name := range strings.Fields(f[2]) {
			src := filepath.Join(f[1], name)
			text, err := transform(src, withOS)
			if err != nil {
				return err
			}
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(src, "/"), "/", "__"))
			if err := os.WriteFile(dst, text, 0o644); err != nil {
				return err
			}
			replace[src] = dst
		}
	}
	j, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
}

func transform(path string, withOS bool) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ins []insertion
	tail := ""
	head := fmt.Sprintf("; import vpoint %q", pointPath)
	osName := ""
	for _, im := range file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync":
			repl := strconv.Quote(syncPath)
			if im.Name == nil {
				repl = "sync " + repl
			}
			ins = append(ins, insertion{off(im.Path.Pos()), len(im.Path.Value), repl})
		case "os":
			osName = "os"
			if im.Name != nil {
				osName = im.Name.Name
			}
		}
	}
	usesOS := false
	point := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			ins = append(ins, insertion{off(s.Pos()), 0, "vpoint.P(); "})
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			point(n.List)
		case *ast.CaseClause:
			point(n.Body)
		case *ast.CommClause:
			point(n.Body)
		case *ast.SelectorExpr:
			x, ok := n.X.(*ast.Ident)
			if withOS && ok && osName != "" && x.Name == osName && x.Obj == nil {
				switch n.Sel.Name {
				case "WriteFile", "ReadFile":
					usesOS = true
					ins = append(ins, insertion{off(x.Pos()), len(x.Name), "vos"})
				}
			}
		}
		return true
	})
	if usesOS {
		head += fmt.Sprintf("; import vos %q", osPath)
		tail = "\nvar _ = " + osName + ".Getpid\n"
	}
	tail += "\nvar _ = vpoint.P\n"
	ins = append(ins, insertion{off(file.Name.End()), 0, head})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
	var sb strings.Builder
	last := 0
	for _, i := range ins {
		sb.Write(src[last:i.at])
		sb.WriteString(i.s)
		last = i.at + i.del
	}
	sb.Write(src[last:])
	sb.WriteString(tail)
	return []byte(sb.String()), nil
}
