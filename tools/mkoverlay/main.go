// mkoverlay prepares the build of the simulator from the current working tree
// of /repo. It writes, under -out:
//
//   - instrumented copies of the adapter's own source files (a yield point in
//     front of every statement; nothing else is changed),
//   - patched copies of a few files of the Go runtime and of client-go/klog
//     (deterministic randomness, a seeded run queue, no wall-clock dependence),
//   - overlay.json for 'go build -overlay', and sites.json (yield-site table).
//
// /repo, the toolchain and the module cache are only read.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+format+"\n", a...)
	os.Exit(3)
}

type edit struct {
	off  int
	text string
	del  int
}

var (
	repo   = flag.String("repo", "/repo", "repository")
	goroot = flag.String("goroot", "", "GOROOT of the toolchain used to build the simulator")
	modc   = flag.String("modcache", "/root/go/pkg/mod", "module cache")
	out    = flag.String("out", "", "output directory")
)

type site struct {
	File string
	Line int
	Func string
}

var sites []site

func main() {
	flag.Parse()
	if *out == "" || *goroot == "" {
		die("-out and -goroot are required")
	}
	replace := map[string]string{}
	put := func(orig string, content []byte) {
		h := sha256.Sum256([]byte(orig))
		p := filepath.Join(*out, "files", hex.EncodeToString(h[:6])+"_"+filepath.Base(orig))
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(p, content, 0o644); err != nil {
			die("%v", err)
		}
		replace[orig] = p
	}

	// 1. the adapter's own code
	root := filepath.Join(*repo, "adapter")
	var files []string
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			rel, _ := filepath.Rel(root, p)
			// generated clients and plain API types: no behaviour of their own
			if rel == "pkg/client" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.HasPrefix(filepath.Base(p), "zz_generated") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		die("walk: %v", err)
	}
	sort.Strings(files)
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		put(f, instrument(f, src))
	}

	// 2. the runtime (overlay) and three dependencies (copies used through
	// replace directives: files in the module cache cannot be overlaid)
	var replaces []string
	copied := map[string]string{}
	for _, p := range patches {
		target := filepath.Join(*goroot, p.file)
		if p.mod != "" {
			if copied[p.mod] == "" {
				copied[p.mod] = copyModule(p.mod)
				replaces = append(replaces, fmt.Sprintf("replace %s => %s", strings.SplitN(p.mod, "@", 2)[0], copied[p.mod]))
			}
			target = filepath.Join(copied[p.mod], p.file)
		}
		if p.content != "" {
			put(target, []byte(p.content))
			continue
		}
		b, err := os.ReadFile(target)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for _, r := range p.subst {
			if strings.Count(s, r[0]) != 1 {
				die("%s: pattern %q found %d times, want 1", target, r[0], strings.Count(s, r[0]))
			}
			s = strings.Replace(s, r[0], r[1], 1)
		}
		if p.mod != "" {
			if err := os.WriteFile(target, []byte(s), 0o644); err != nil {
				die("%v", err)
			}
		} else {
			put(target, []byte(s))
		}
	}
	if err := os.WriteFile(filepath.Join(*out, "replaces.txt"), []byte(strings.Join(replaces, "\n")+"\n"), 0o644); err != nil {
		die("%v", err)
	}

	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	b, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("mkoverlay: %d adapter files instrumented, %d yield sites\n", len(files), len(sites))
}

func copyModule(mod string) string {
	src := filepath.Join(*modc, mod)
	dst := filepath.Join(*out, "deps", filepath.Base(strings.SplitN(mod, "@", 2)[0]))
	if err := os.RemoveAll(dst); err != nil {
		die("%v", err)
	}
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !strings.HasSuffix(p, ".go") && filepath.Base(p) != "go.mod" || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		die("copy %s: %v", mod, err)
	}
	gm := filepath.Join(dst, "go.mod")
	if _, err := os.Stat(gm); err != nil {
		if err := os.WriteFile(gm, []byte("module "+strings.SplitN(mod, "@", 2)[0]+"\n"), 0o644); err != nil {
			die("%v", err)
		}
	}
	return dst
}

// instrument inserts a call of the yield hook in front of every statement of
// every function body. Insertion works on byte offsets, on the same source
// line, so positions in panics and race reports stay those of the repository.
func instrument(path string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		// leave it as it is: the compiler reports the error
		return src
	}
	rel, _ := filepath.Rel(*repo, path)
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	fn := ""
	addList := func(list []ast.Stmt) {
		for _, st := range list {
			switch s := st.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.LabeledStmt:
				// a call in front of the label is fine
			case *ast.DeclStmt:
				if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok != token.VAR {
					continue
				}
			}
			id := len(sites)
			sites = append(sites, site{rel, fset.Position(st.Pos()).Line, fn})
			edits = append(edits, edit{off: off(st.Pos()), text: fmt.Sprintf("zzsimrt.Y(%d); ", id)})
		}
	}
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			addList(x.List)
		case *ast.CaseClause:
			addList(x.Body)
		case *ast.CommClause:
			addList(x.Body)
		}
		return true
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body == nil || x.Name.Name == "init" && x.Recv == nil {
				continue
			}
			fn = x.Name.Name
			ast.Inspect(x.Body, walk)
		case *ast.GenDecl:
			fn = "package-level"
			ast.Inspect(x, walk)
		}
	}
	// math/rand: process-global, seeded from the wall clock; the replacement
	// draws from the simulation's seed and keeps "not safe for concurrent use".
	usesRand := false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "math/rand" {
			usesRand = true
			name := "rand"
			if im.Name != nil {
				name = im.Name.Name
			}
			start := im.Pos()
			edits = append(edits, edit{off: off(start), del: off(im.Path.End()) - off(start), text: name + ` "verif.local/simrt/mrand"`})
		}
	}
	_ = usesRand
	if len(edits) == 0 {
		return src
	}
	edits = append(edits, edit{off: off(f.Name.End()), text: `; import zzsimrt "verif.local/simrt"`})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(src[pos:])
	b.WriteString("\nvar _ = zzsimrt.Y\n")
	return []byte(b.String())
}
