// Command simgen prepares the build of the simulation binary: it writes
//   - patched copies of a few files of the Go standard library, which put the
//     goroutine scheduler, the random numbers, the dialer, the file system calls
//     and the process exit behind seams the simulator controls, and
//   - copies of the non-test sources of the repository with a scheduling point
//     in front of every statement,
//
// and an overlay file for 'go build -overlay' which puts them in place of the
// originals. Neither the toolchain nor the repository is changed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	old, new string
}

type patch struct {
	file  string
	edits []edit
}

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	goroot := flag.String("goroot", "", "GOROOT")
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fail("%v", err)
	}
	replace := map[string]string{}
	n := 0
	put := func(orig, content string) {
		n++
		dst := filepath.Join(*out, fmt.Sprintf("%03d_%s", n, filepath.Base(orig)))
		if err := os.WriteFile(dst, []byte(content), 0o644); err != nil {
			fail("%v", err)
		}
		replace[orig] = dst
	}

	src := filepath.Join(*goroot, "src")
	for _, p := range stdPatches {
		orig := filepath.Join(src, p.file)
		b, err := os.ReadFile(orig)
		if err != nil {
			fail("%v", err)
		}
		s := string(b)
		for _, e := range p.edits {
			if c := strings.Count(s, e.old); c != 1 {
				fail("%s: expected one place to patch, found %d: %q", p.file, c, e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		put(orig, s)
	}
	for f, content := range stdFiles {
		put(filepath.Join(src, f), content)
	}

	yields := 0
	var files []string
	err := filepath.WalkDir(*repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		name := d.Name()
		if d.IsDir() && path != *repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor") {
			return filepath.SkipDir
		}
		if !d.IsDir() && strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go") {
			files = append(files, path)
		}
		return nil
	})
	if err != nil {
		fail("%v", err)
	}
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fail("%v", err)
		}
		s, k, err := instrument(f, b)
		if err != nil {
			// let the compiler report what is wrong with the file
			fmt.Fprintf(os.Stderr, "simgen: not instrumented: %v\n", err)
			continue
		}
		yields += k
		put(f, s)
	}

	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(filepath.Join(*out, "yields.txt"), []byte(fmt.Sprintf("%d %d\n", len(files), yields)), 0o644); err != nil {
		fail("%v", err)
	}
}

// instrument inserts a scheduling point in front of every statement. Line
// numbers stay as they are.
func instrument(name string, src []byte) (string, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "", 0, err
	}
	var at []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if n != nil {
				add(n.List)
			}
		case *ast.CaseClause:
			add(n.Body)
		case *ast.CommClause:
			add(n.Body)
		}
		return true
	})
	sort.Ints(at)
	var b strings.Builder
	pkgEnd := fset.Position(f.Name.End()).Offset
	b.Write(src[:pkgEnd])
	b.WriteString(`; import simrt_ "runtime"; `)
	last := pkgEnd
	prev := -1
	k := 0
	for _, o := range at {
		if o == prev {
			continue
		}
		prev = o
		b.Write(src[last:o])
		b.WriteString("simrt_.SimYield(); ")
		last = o
		k++
	}
	b.Write(src[last:])
	b.WriteString("\nvar _ = simrt_.SimYield\n")
	return b.String(), k, nil
}
