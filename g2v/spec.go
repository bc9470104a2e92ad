package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Contract is everything the annotation files say about one function.
type Contract struct {
	Name    string
	File    string
	Module  string
	Req     []string
	Ens     []string
	Dec     string
	Pure    string // r == Pure, also used when the call appears in a specification
	Trusted bool   // body not checked: contract is an assumption
	Reason  string
	Attr    []string
	Entry   string
	Hide    string
	Exit    string
	Loops   map[int]*LoopSpec
	After   map[string]string // "callee#k" -> text
	Before  map[string]string
}

// LoopSpec is the annotation of the k-th loop of a function (source order).
type LoopSpec struct {
	Inv   []string
	Ens   []string
	Dec   string
	Pre   string // before the loop
	Start string // first in body
	End   string // last in body
	Post  string // after the loop
}

// Specs holds all annotation files.
type Specs struct {
	Fns    map[string]*Contract
	Ifaces map[string]*Contract
	Order  []string
}

func splitClauses(s string) []string {
	// clauses are separated by lines holding only ";;" or by a line break when
	// the line ends in ",,"; the common case is one clause per line, with
	// continuation lines indented deeper than the first.
	var out []string
	cur := ""
	indent := -1
	flush := func() {
		if strings.TrimSpace(cur) != "" {
			out = append(out, strings.TrimSpace(cur))
		}
		cur = ""
	}
	for _, ln := range strings.Split(s, "\n") {
		t := strings.TrimSpace(ln)
		if t == "" || strings.HasPrefix(t, "//") {
			continue
		}
		ind := len(ln) - len(strings.TrimLeft(ln, " "))
		if indent < 0 {
			indent = ind
		}
		if ind <= indent {
			flush()
		}
		cur += ln + "\n"
	}
	flush()
	return out
}

func loadSpecs(dir string) (*Specs, error) {
	sp := &Specs{Fns: map[string]*Contract{}, Ifaces: map[string]*Contract{}}
	files, err := filepath.Glob(filepath.Join(dir, "*.con"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.parse(f, string(b)); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Specs) parse(file, text string) error {
	module := ""
	var cur *Contract
	var loop *LoopSpec
	dir := ""
	arg := ""
	var buf []string
	lineNo := 0
	finish := func() error {
		if dir == "" {
			return nil
		}
		body := strings.Join(buf, "\n")
		buf = nil
		if dir != "fn" && dir != "iface" && dir != "module" && cur == nil {
			return fmt.Errorf("%s:%d: @%s outside @fn", file, lineNo, dir)
		}
		switch dir {
		case "module":
			module = strings.TrimSpace(arg)
		case "fn", "iface":
			cur = &Contract{Name: strings.TrimSpace(arg), File: filepath.Base(file), Module: module,
				Loops: map[int]*LoopSpec{}, After: map[string]string{}, Before: map[string]string{}}
			loop = nil
			m := sp.Fns
			if dir == "iface" {
				m = sp.Ifaces
			} else {
				sp.Order = append(sp.Order, cur.Name)
			}
			if m[cur.Name] != nil {
				return fmt.Errorf("%s:%d: duplicate contract for %s", file, lineNo, cur.Name)
			}
			m[cur.Name] = cur
		case "req":
			cur.Req = append(cur.Req, splitClauses(body)...)
		case "ens":
			if loop != nil {
				loop.Ens = append(loop.Ens, splitClauses(body)...)
			} else {
				cur.Ens = append(cur.Ens, splitClauses(body)...)
			}
		case "pure":
			cur.Pure = strings.TrimSpace(arg + "\n" + body)
		case "trusted":
			cur.Trusted = true
			cur.Reason = strings.TrimSpace(arg + " " + body)
		case "attr":
			cur.Attr = append(cur.Attr, strings.TrimSpace(arg))
		case "dec":
			d := strings.TrimSpace(arg + "\n" + body)
			if loop != nil {
				loop.Dec = d
			} else {
				cur.Dec = d
			}
		case "hide":
			for _, x := range strings.Fields(arg + " " + body) {
				cur.Hide += "hide(" + x + "); "
			}
		case "entry":
			cur.Entry += body + "\n"
		case "exit":
			cur.Exit += body + "\n"
		case "loop":
			k, err := strconv.Atoi(strings.TrimSpace(arg))
			if err != nil {
				return fmt.Errorf("%s:%d: bad loop number", file, lineNo)
			}
			loop = &LoopSpec{}
			cur.Loops[k] = loop
		case "inv":
			loop.Inv = append(loop.Inv, splitClauses(body)...)
		case "pre":
			loop.Pre += body + "\n"
		case "start":
			loop.Start += body + "\n"
		case "end":
			loop.End += body + "\n"
		case "post":
			loop.Post += body + "\n"
		case "after", "before":
			f := strings.Fields(arg)
			if len(f) != 2 {
				return fmt.Errorf("%s:%d: @%s wants callee and ordinal", file, lineNo, dir)
			}
			m := cur.After
			if dir == "before" {
				m = cur.Before
			}
			m[f[0]+"#"+f[1]] += body + "\n"
		default:
			return fmt.Errorf("%s:%d: unknown directive @%s", file, lineNo, dir)
		}
		return nil
	}
	for _, ln := range strings.Split(text, "\n") {
		lineNo++
		if strings.HasPrefix(ln, "#") {
			continue
		}
		if strings.HasPrefix(ln, "@") {
			if err := finish(); err != nil {
				return err
			}
			rest := ln[1:]
			i := strings.IndexAny(rest, " \t")
			if i < 0 {
				dir, arg = strings.TrimSpace(rest), ""
			} else {
				dir, arg = rest[:i], rest[i+1:]
			}
			continue
		}
		buf = append(buf, ln)
	}
	return finish()
}
