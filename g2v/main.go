// Command g2v translates the Go package under verification into Verus.
//
// Every function that carries a contract in the annotation files is translated
// statement by statement from the current source; nothing about its body is
// taken from the annotations except proof hints.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// FnReport is one entry of the report written next to the generated file.
type FnReport struct {
	Name    string `json:"name"`
	Module  string `json:"module"`
	File    string `json:"file"`
	Line    int    `json:"line"`
	Status  string `json:"status"` // translated | trusted | unsupported | missing | inlined
	Detail  string `json:"detail,omitempty"`
	Clauses int    `json:"clauses"`
	GenFrom int    `json:"gen_from"`
	GenTo   int    `json:"gen_to"`
	// functions whose contracts are used, and helpers expanded in place
	Calls   []string `json:"calls"`
	Inlined []string `json:"inlined,omitempty"`
}

// Report is what the driver reads.
type Report struct {
	Functions    []FnReport `json:"functions"`
	Uncontracted []string   `json:"uncontracted"`
	Unsupported  []string   `json:"unsupported"`
	Sends        int        `json:"channel_sends"`
}

func main() {
	repo := flag.String("repo", "/repo", "package directory")
	spec := flag.String("spec", "", "annotation directory")
	out := flag.String("out", "", "generated Verus file")
	rep := flag.String("report", "", "report file")
	stub := flag.String("stub", "", "functions to emit as contracts only")
	probe := flag.String("probe", "", "insert unprovable assertions: entry or exit")
	only := flag.String("only", "", "functions to translate, the others as contracts only; all when empty")
	names := flag.String("names", "", "write the variable names of the annotated functions and stop")
	flag.Parse()
	if err := run(*repo, *spec, *out, *rep, *stub, *only, *probe, *names); err != nil {
		fmt.Fprintln(os.Stderr, "g2v:", err)
		os.Exit(3)
	}
}

func run(repo, specDir, out, rep, stub, only, probe, namesOut string) error {
	sp, err := loadSpecs(specDir)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	names, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return err
	}
	sort.Strings(names)
	var files []*ast.File
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), GoVersion: "go1.21"}
	pkg, err := conf.Check("adaptive", fset, files, info)
	if err != nil {
		return err
	}
	tr := newTr(fset, pkg, info, files, sp)
	tr.probe = probe
	tr.stubs = map[string]bool{}
	for _, s := range strings.Split(stub, ",") {
		tr.stubs[s] = s != ""
	}
	if only != "" {
		tr.only = map[string]bool{}
		for _, s := range strings.Split(only, ",") {
			tr.only[s] = true
		}
	}
	if b, err := os.ReadFile(filepath.Join(specDir, "names.json")); err == nil && namesOut == "" {
		if err := json.Unmarshal(b, &tr.names); err != nil {
			return err
		}
	}
	if namesOut != "" {
		if err := tr.collect(); err != nil {
			return err
		}
		m := map[string][]string{}
		for n, fi := range tr.fns {
			if sp.Fns[n] != nil {
				m[n] = tr.declared(fi)
			}
		}
		b, _ := json.MarshalIndent(m, "", " ")
		return os.WriteFile(namesOut, append(b, '\n'), 0o644)
	}
	report := &Report{}
	text, err := tr.generate(specDir, report)
	if err != nil {
		return err
	}
	if err := os.WriteFile(out, []byte(text), 0o644); err != nil {
		return err
	}
	if rep != "" {
		b, _ := json.MarshalIndent(report, "", " ")
		if err := os.WriteFile(rep, b, 0o644); err != nil {
			return err
		}
	}
	return nil
}
