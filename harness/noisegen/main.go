// noisegen writes a build overlay of /repo in which a call that may yield or pause stands before every statement of
// the packages where goroutines meet. It shakes up the interleavings and changes nothing else; line numbers stay.
//
//	noisegen -repo /repo -out DIR     writes DIR/overlay.json
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const noisePkg = `// Package vmonnoise is part of the monitoring overlay.
package vmonnoise

import (
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"time"
)

var hits uint64
var rate uint32 = 8

func init() {
	if n, err := strconv.Atoi(os.Getenv("VMON_NOISE")); err == nil {
		rate = uint32(n)
	}
}

// Y yields the processor or sleeps for a moment, now and then. The counter is deliberately not synchronized and not
// seen by the race detector, which would take it for synchronization between the goroutines.
//
//go:norace
func Y() {
	hits++
	x := rand.Uint32()
	if x%1024 >= rate*8 {
		return
	}
	if x>>10%64 == 0 {
		time.Sleep(time.Duration(x>>20%40) * time.Microsecond)
		return
	}
	runtime.Gosched()
}

//go:norace
func Hits() uint64 { return hits }
`

const exportFile = `package wampproto

import "github.com/xconnio/wampproto-go/internal/vmonnoise"

// VmonNoise tells how many times a noise point was passed.
func VmonNoise() uint64 { return vmonnoise.Hits() }
`

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	replace := map[string]string{}
	write := func(target, content string) {
		p := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(target, *repo+"/"), "/", "__"))
		if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		replace[target] = p
	}
	points := 0
	for _, dir := range []string{"", "internal", "auth", "serializers", "util"} {
		files, _ := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			res, n := instrument(f, src)
			if n > 0 {
				write(f, res)
				points += n
			}
		}
	}
	write(filepath.Join(*repo, "internal/vmonnoise/noise.go"), noisePkg)
	write(filepath.Join(*repo, "vmon_noise_export.go"), exportFile)
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Printf("noise: %d points in %d files\n", points, len(replace)-2)
}

func instrument(name string, src []byte) (string, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", 0
	}
	// files with build constraints or cgo stay as they are
	for _, i := range f.Imports {
		if i.Path.Value == `"C"` {
			return "", 0
		}
	}
	set := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		var list []ast.Stmt
		switch x := n.(type) {
		case *ast.BlockStmt:
			list = x.List
		case *ast.CaseClause:
			list = x.Body
		case *ast.CommClause:
			list = x.Body
		}
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			set[fset.Position(s.Pos()).Offset] = true
		}
		return true
	})
	if len(set) == 0 {
		return "", 0
	}
	offs := make([]int, 0, len(set))
	for o := range set {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	var b bytes.Buffer
	nameEnd := fset.Position(f.Name.End()).Offset
	b.Write(src[:nameEnd])
	b.WriteString(`; import vmonnoise "github.com/xconnio/wampproto-go/internal/vmonnoise"`)
	last := nameEnd
	for _, o := range offs {
		b.Write(src[last:o])
		b.WriteString("vmonnoise.Y();")
		last = o
	}
	b.Write(src[last:])
	return b.String(), len(offs)
}
