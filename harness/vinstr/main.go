// vinstr writes instrumented copies of packages of the code under test and the overlay file that
// makes the go tool build them in place of the originals. The rewriting is purely mechanical (it is
// driven by the type-checked syntax tree, never by names), so it follows any edit of the code.
//
//	vinstr -repo /repo -out DIR [-maps pkg,pkg...] [-sched pkg,pkg...]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modpath = "github.com/l7mp/dcontroller"

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
}

type edit struct {
	pos  int
	end  int
	text string
	seq  int
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "vinstr:", err)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	mapsF := flag.String("maps", "", "packages with controlled map iteration")
	schedF := flag.String("sched", "", "packages with controlled scheduling")
	flag.Parse()
	want := map[string]int{}
	for _, p := range strings.Split(*mapsF, ",") {
		if p != "" {
			want[modpath+"/"+p] |= 1
		}
	}
	for _, p := range strings.Split(*schedF, ",") {
		if p != "" {
			want[modpath+"/"+p] |= 2
		}
	}
	overlay := map[string]string{}
	if len(want) > 0 {
		args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles"}
		for p := range want {
			args = append(args, p)
		}
		cmd := exec.Command("go", args...)
		cmd.Stderr = os.Stderr
		outb, err := cmd.Output()
		if err != nil {
			die(fmt.Errorf("go list: %w", err))
		}
		pkgs := map[string]*listPkg{}
		dec := json.NewDecoder(bytes.NewReader(outb))
		for {
			var p listPkg
			if err := dec.Decode(&p); err == io.EOF {
				break
			} else if err != nil {
				die(err)
			}
			pkgs[p.ImportPath] = &p
		}
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			p, ok := pkgs[path]
			if !ok || p.Export == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(p.Export)
		})
		var names []string
		for p := range want {
			names = append(names, p)
		}
		sort.Strings(names)
		for _, name := range names {
			p, ok := pkgs[name]
			if !ok {
				die(fmt.Errorf("package %s not found", name))
			}
			if err := instrument(fset, imp, p, want[name], *out, overlay); err != nil {
				die(fmt.Errorf("%s: %w", name, err))
			}
		}
	}
	_ = repo
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		die(err)
	}
}

func instrument(fset *token.FileSet, imp types.Importer, p *listPkg, mode int, out string, overlay map[string]string) error {
	var files []*ast.File
	var paths []string
	srcs := map[string][]byte{}
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
		paths = append(paths, path)
		srcs[path] = src
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return err
	}
	decls := map[*types.Func]*ast.FuncDecl{}
	for _, af := range files {
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				if f, ok := info.Defs[fd.Name].(*types.Func); ok {
					decls[f] = fd
				}
			}
		}
	}
	for i, af := range files {
		src := srcs[paths[i]]
		in := &instr{fset: fset, info: info, file: af, src: src, mode: mode, decls: decls}
		in.run()
		if len(in.edits) == 0 {
			continue
		}
		res := in.apply()
		dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, modpath+"/"), "/", "_")+"__"+filepath.Base(paths[i]))
		if err := os.WriteFile(dst, res, 0644); err != nil {
			return err
		}
		overlay[paths[i]] = dst
	}
	return nil
}

type instr struct {
	fset  *token.FileSet
	info  *types.Info
	file  *ast.File
	src   []byte
	mode  int
	edits []edit
	n     int
	decls map[*types.Func]*ast.FuncDecl
}

func (in *instr) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instr) insert(p token.Pos, text string) {
	in.edits = append(in.edits, edit{pos: in.off(p), end: in.off(p), text: text, seq: len(in.edits)})
}

func (in *instr) replace(from, to token.Pos, text string) {
	in.edits = append(in.edits, edit{pos: in.off(from), end: in.off(to), text: text, seq: len(in.edits)})
}

func (in *instr) apply() []byte {
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].pos != in.edits[j].pos {
			return in.edits[i].pos < in.edits[j].pos
		}
		return in.edits[i].seq < in.edits[j].seq
	})
	var b bytes.Buffer
	last := 0
	for _, e := range in.edits {
		if e.pos < last {
			die(fmt.Errorf("overlapping edits at offset %d", e.pos))
		}
		b.Write(in.src[last:e.pos])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(in.src[last:])
	return b.Bytes()
}

func (in *instr) run() {
	ast.Inspect(in.file, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.RangeStmt:
			tv, ok := in.info.Types[s.X]
			if !ok || tv.Type == nil {
				return true
			}
			if _, ok := tv.Type.Underlying().(*types.Map); ok && in.mode&1 != 0 {
				in.insert(s.X.Pos(), "vrt.Range(")
				in.insert(s.X.End(), ")")
			}
		}
		return true
	})
	if in.mode&2 != 0 {
		in.sched()
	}
	if len(in.edits) > 0 {
		in.insert(in.file.Name.End(), `; import vrt "verif/vrt"`)
	}
}
