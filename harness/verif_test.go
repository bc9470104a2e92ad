// Model-based search for failing inputs. It is compiled into the package
// directory through an overlay and uses only the exported API.
//
// A history is a list of operations over trees, transactions and clones. The
// oracle is a plain Go map per tree and per transaction. VERIF_PROP selects the
// property whose oracle is evaluated.
package adaptive_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
)

type tree = adaptive.RadixTree[int]
type txn = adaptive.Txn[int]

// op is one step of a history. H selects a tree or a transaction.
type op struct {
	Op string `json:"op"`
	H  int    `json:"h"`
	K  []byte `json:"k,omitempty"`
	V  int    `json:"v,omitempty"`
}

func (o op) String() string {
	switch o.Op {
	case "tins", "xins":
		return fmt.Sprintf("%s(%d,%q,%d)", o.Op, o.H, o.K, o.V)
	case "tdel", "xdel", "tdelp", "xdelp":
		return fmt.Sprintf("%s(%d,%q)", o.Op, o.H, o.K)
	case "xtrack":
		return fmt.Sprintf("%s(%d,%v)", o.Op, o.H, o.V != 0)
	}
	return fmt.Sprintf("%s(%d)", o.Op, o.H)
}

type history struct {
	Property string   `json:"property"`
	Ops      []op     `json:"ops"`
	Probes   [][]byte `json:"probes"`
}

type model map[string]int

func (m model) clone() model {
	c := make(model, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}
func (m model) keys() []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type watchRec struct {
	k       string
	ch      <-chan struct{}
	present bool
	val     int
	// closed before the current step
	was bool
}

type treeH struct {
	t *tree
	m model
	// what was seen when the tree was made
	seen string
}

type txnH struct {
	x     *txn
	m     model
	track bool
	// every write so far was made while tracking
	clean bool
	// watches taken on the tree the transaction started from
	base    int
	watches []watchRec
	prefixW []watchRec
	// keys written or deleted while tracking, since the last notification
	touched map[string]bool
	// channels must not be closed before the notification
	pending bool
}

type runner struct {
	prop   string
	trees  []*treeH
	txns   []*txnH
	probes [][]byte
	rnd    *rand.Rand
	cur    string
	// number of comparisons made
	evals int
	// inside an operation that is not a query
	busy bool
}

// do runs an operation of the history. A panic in it counts against the
// properties about the operation itself.
func (r *runner) do(f func()) {
	r.busy = true
	f()
	r.busy = false
}

type fail struct{ msg string }

func (r *runner) failf(f string, a ...any) { panic(fail{fmt.Sprintf(f, a...)}) }
func (r *runner) is(p ...string) bool {
	for _, q := range p {
		if r.prop == q || r.prop == "ALL" {
			return true
		}
	}
	return false
}

// buf copies a key into a buffer with spare room.
func buf(k []byte) []byte {
	b := make([]byte, len(k), len(k)+4)
	copy(b, k)
	for i := len(k); i < cap(b); i++ {
		b[:cap(b)][i] = 0xA5
	}
	return b
}

// spent checks that a buffer handed to the tree was left alone and then
// overwrites it.
func (r *runner) spent(b []byte, k []byte) {
	full := b[:cap(b)]
	if r.is("C14") {
		r.evals++
		if !bytes.Equal(b, k) {
			r.failf("%s: the key buffer was changed from %q to %q", r.cur, k, b)
		}
		for i := len(k); i < len(full); i++ {
			if full[i] != 0xA5 {
				r.failf("%s: spare capacity of the key buffer %q was written", r.cur, k)
			}
		}
	}
	for i := range full {
		full[i] ^= 0x5A
	}
}

func closed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func (r *runner) get(t *tree, k string) (int, bool) {
	b := buf([]byte(k))
	v, ok := t.Get(b)
	r.spent(b, []byte(k))
	return v, ok
}

func (r *runner) ret(o op, m model, v int, ok bool) {
	want, has := m[string(o.K)]
	if r.is("C01") {
		r.evals++
		if v != want || ok != has {
			r.failf("%s returned (%d, %v), the previous state says (%d, %v)", o, v, ok, want, has)
		}
	}
}

func (r *runner) step(o op) {
	r.cur = o.String()
	switch o.Op[0] {
	case 't':
		if o.H >= len(r.trees) {
			return
		}
		h := r.trees[o.H]
		switch o.Op {
		case "tins":
			b := buf(o.K)
			var t *tree
			var v int
			var ok bool
			r.do(func() { t, v, ok = h.t.Insert(b, o.V) })
			r.spent(b, o.K)
			r.ret(o, h.m, v, ok)
			m := h.m.clone()
			m[string(o.K)] = o.V
			r.add(t, m)
		case "tdel":
			b := buf(o.K)
			var t *tree
			var v int
			var ok bool
			r.do(func() { t, v, ok = h.t.Delete(b) })
			r.spent(b, o.K)
			r.ret(o, h.m, v, ok)
			m := h.m.clone()
			delete(m, string(o.K))
			r.add(t, m)
		case "tdelp":
			b := buf(o.K)
			var t *tree
			var ok bool
			r.do(func() { t, ok = h.t.DeletePrefix(b) })
			r.spent(b, o.K)
			m := h.m.clone()
			n := r.prune(m, o.K)
			r.delp(o, ok, n)
			r.add(t, m)
		case "tclone":
			r.add(h.t.Clone(), h.m.clone())
		case "txn":
			x := &txnH{x: h.t.Txn(), m: h.m.clone(), base: o.H, clean: true, touched: map[string]bool{}}
			r.watch(x, h)
			r.txns = append(r.txns, x)
			r.checkTxn(x)
		}
	case 'x':
		if o.H >= len(r.txns) {
			return
		}
		x := r.txns[o.H]
		for i := range x.watches {
			x.watches[i].was = closed(x.watches[i].ch)
		}
		switch o.Op {
		case "xins":
			b := buf(o.K)
			var v int
			var ok bool
			r.do(func() { v, ok = x.x.Insert(b, o.V) })
			r.spent(b, o.K)
			r.ret(o, x.m, v, ok)
			x.m[string(o.K)] = o.V
			r.wrote(x, string(o.K))
			r.checkTxn(x)
		case "xdel":
			b := buf(o.K)
			var v int
			var ok bool
			r.do(func() { v, ok = x.x.Delete(b) })
			r.spent(b, o.K)
			r.ret(o, x.m, v, ok)
			if _, has := x.m[string(o.K)]; has {
				r.wrote(x, string(o.K))
			}
			delete(x.m, string(o.K))
			r.checkTxn(x)
		case "xdelp":
			b := buf(o.K)
			var ok bool
			r.do(func() { ok = x.x.DeletePrefix(b) })
			r.spent(b, o.K)
			for k := range x.m {
				if strings.HasPrefix(k, string(o.K)) {
					r.wrote(x, k)
				}
			}
			n := r.prune(x.m, o.K)
			r.delp(o, ok, n)
			r.checkTxn(x)
		case "xtrack":
			x.x.TrackMutate(o.V != 0)
			x.track = o.V != 0
		case "xcommit":
			var t *tree
			r.do(func() { t = x.x.Commit() })
			if x.track {
				r.notified(x, t)
			}
			r.add(t, x.m.clone())
			r.rebase(x)
		case "xcommitonly":
			var t *tree
			r.do(func() { t = x.x.CommitOnly() })
			r.quiet(x)
			r.add(t, x.m.clone())
			x.pending = true
		case "xnotify":
			if !x.pending {
				return
			}
			r.do(func() { x.x.Notify() })
			if x.track {
				r.notified(x, nil)
			}
			r.rebase(x)
		case "xclone":
			y := &txnH{x: x.x.Clone(), m: x.m.clone(), clean: true, touched: map[string]bool{}}
			r.txns = append(r.txns, y)
			// watch through the tree the clone commits right away
			if r.is("C12", "C13") {
				r.watchTree(y, y.x.GetTree(), y.m)
			}
			r.checkTxn(y)
		}
		// channels stay open until the notification
		if o.Op != "xcommit" && o.Op != "xnotify" {
			r.quiet(x)
		}
	}
	r.old()
}

func (r *runner) prune(m model, p []byte) int {
	n := 0
	for k := range m {
		if strings.HasPrefix(k, string(p)) {
			delete(m, k)
			n++
		}
	}
	return n
}

func (r *runner) delp(o op, ok bool, n int) {
	if r.is("C11") {
		r.evals++
		if ok != (n > 0) {
			r.failf("%s returned %v with %d keys under the prefix", o, ok, n)
		}
	}
}

// ---- watches ----

func (r *runner) watch(x *txnH, h *treeH) {
	if r.is("C12", "C13") {
		r.watchTree(x, h.t, h.m)
	}
}

func (r *runner) watchTree(x *txnH, t *tree, m model) {
	x.watches, x.prefixW = nil, nil
	add := func(k string) {
		b := buf([]byte(k))
		ch, v, ok := t.GetWatch(b)
		r.spent(b, []byte(k))
		want, has := m[k]
		r.evals++
		if ch == nil {
			r.failf("%s: no watch channel for %q", r.cur, k)
		}
		if r.is("C12") && (ok != has || v != want) {
			r.failf("%s: a watch on %q says (%d, %v), want (%d, %v)", r.cur, k, v, ok, want, has)
		}
		x.watches = append(x.watches, watchRec{k: k, ch: ch, present: ok, val: v})
	}
	for _, k := range r.sample(m, 24) {
		add(k)
	}
	for _, p := range r.probes {
		add(string(p))
		if t.Len() > 0 {
			b := buf(p)
			ch := t.Root().Iterator().SeekPrefixWatch(b)
			r.spent(b, p)
			x.prefixW = append(x.prefixW, watchRec{k: string(p), ch: ch})
		}
	}
}

func (r *runner) wrote(x *txnH, k string) {
	x.touched[k] = true
	if !x.track {
		x.clean = false
	}
}

// quiet checks that nothing was notified yet.
func (r *runner) quiet(x *txnH) {
	if !r.is("C13") {
		return
	}
	for _, w := range x.watches {
		r.evals++
		if !w.was && closed(w.ch) {
			r.failf("%s: the watch on %q fired before the notification", r.cur, w.k)
		}
	}
}

// notified checks the watches after a tracking transaction was committed and
// its notifications were issued.
func (r *runner) notified(x *txnH, t *tree) {
	for _, w := range x.watches {
		c := closed(w.ch)
		v, ok := x.m[w.k]
		r.evals++
		if r.is("C12") && x.clean && !c && (ok != w.present || v != w.val) {
			r.failf("%s: the watch on %q did not fire although it changed from (%d, %v) to (%d, %v)", r.cur, w.k, w.val, w.present, v, ok)
		}
		if r.is("C13") && c && !w.was && w.present && !x.touched[w.k] {
			r.failf("%s: the watch on %q fired although the key was not written", r.cur, w.k)
		}
		if r.is("C13") && c && !w.was && len(x.touched) == 0 {
			r.failf("%s: the watch on %q fired although nothing was written", r.cur, w.k)
		}
		if r.is("C12") && x.clean && !c && t != nil {
			ch, _, _ := t.GetWatch([]byte(w.k))
			if ch != w.ch {
				r.failf("%s: the watch on %q neither fired nor carries over to the new tree", r.cur, w.k)
			}
		}
	}
	if r.is("C12") && x.clean {
		for _, w := range x.prefixW {
			r.evals++
			if closed(w.ch) {
				continue
			}
			for k := range x.touched {
				if strings.HasPrefix(k, w.k) {
					r.failf("%s: the watch on prefix %q did not fire although %q was written", r.cur, w.k, k)
				}
			}
		}
	}
}

func (r *runner) rebase(x *txnH) {
	x.touched = map[string]bool{}
	x.pending = false
	x.clean = true
	if r.is("C12", "C13") {
		r.watchTree(x, x.x.GetTree(), x.m)
	}
}

// ---- queries ----

func (r *runner) sample(m model, n int) []string {
	ks := m.keys()
	if len(ks) <= n {
		return ks
	}
	out := make([]string, 0, n)
	o := r.rnd.Intn(len(ks))
	for i := 0; i < n; i++ {
		out = append(out, ks[(o+i*len(ks)/n)%len(ks)])
	}
	return out
}

func (r *runner) add(t *tree, m model) {
	h := &treeH{t: t, m: m}
	r.trees = append(r.trees, h)
	r.checkTree(t, m, "the tree made by "+r.cur)
	if r.is("C03", "C04", "C14") {
		h.seen = r.see(h)
	}
}

// see describes all that can be observed of a tree.
func (r *runner) see(h *treeH) string {
	var b strings.Builder
	fmt.Fprint(&b, h.t.Len(), " ")
	for _, k := range h.m.keys() {
		v, ok := r.get(h.t, k)
		fmt.Fprint(&b, v, ok, ",")
	}
	for _, p := range r.probes {
		v, ok := r.get(h.t, string(p))
		fmt.Fprint(&b, v, ok, ",")
	}
	it := h.t.Root().Iterator()
	for i := 0; i < len(h.m)+3; i++ {
		k, v, ok := it.Next()
		if !ok {
			break
		}
		fmt.Fprintf(&b, "%x=%d ", k, v)
	}
	return b.String()
}

// old checks the trees and transactions that the last step should not have touched.
func (r *runner) old() {
	if r.is("C03", "C04", "C14") {
		n := len(r.trees)
		for i, h := range r.trees {
			if n > 12 && i < n-8 && r.rnd.Intn(n) > 3 {
				continue
			}
			r.evals++
			if s := r.see(h); s != h.seen {
				r.failf("%s changed tree %d: it was %s and is %s", r.cur, i, h.seen, s)
			}
		}
	}
	if r.is("C04") {
		for i, x := range r.txns {
			for _, k := range r.sample(x.m, 16) {
				r.evals++
				if v, ok := x.x.Get([]byte(k)); !ok || v != x.m[k] {
					r.failf("after %s transaction %d gets (%d, %v) for %q, want (%d, true)", r.cur, i, v, ok, k, x.m[k])
				}
			}
			for _, p := range r.probes {
				r.evals++
				want, has := x.m[string(p)]
				if v, ok := x.x.Get(p); ok != has || v != want {
					r.failf("after %s transaction %d gets (%d, %v) for %q, want (%d, %v)", r.cur, i, v, ok, p, want, has)
				}
			}
		}
	}
}

func (r *runner) checkTxn(x *txnH) {
	r.checkTree(x.x.GetTree(), x.m, "the transaction after "+r.cur)
	if r.is("C01") {
		for _, p := range r.probes {
			want, has := x.m[string(p)]
			if v, ok := x.x.Get(p); ok != has || v != want {
				r.failf("Get(%q) in the transaction after %s returned (%d, %v), want (%d, %v)", p, r.cur, v, ok, want, has)
			}
		}
	}
	if r.is("C08") {
		for _, p := range r.probes {
			r.longest(x.m, p, "the transaction after "+r.cur, x.x.LongestPrefix)
		}
	}
}

func (r *runner) longest(m model, p []byte, what string, f func([]byte) ([]byte, int, bool)) {
	b := buf(p)
	k, v, ok := f(b)
	best, has := "", false
	for q := range m {
		if strings.HasPrefix(string(p), q) && (!has || len(q) > len(best)) {
			best, has = q, true
		}
	}
	r.evals++
	if ok != has || string(k) != best || (has && v != m[best]) {
		r.failf("LongestPrefix(%q) on %s returned (%q, %d, %v), want (%q, %d, %v)", p, what, k, v, ok, best, m[best], has)
	}
	r.spent(b, p)
}

func (r *runner) list(what, q string, m model, want []string, next func() ([]byte, int, bool)) {
	for i := 0; ; i++ {
		k, v, ok := next()
		r.evals++
		if !ok {
			if i != len(want) {
				r.failf("%s of %s stopped after %d keys, %q is missing", q, what, i, want[i])
			}
			// it stays finished
			if _, _, ok := next(); ok {
				r.failf("%s of %s went on after its end", q, what)
			}
			return
		}
		if i >= len(want) {
			r.failf("%s of %s returned %q after the last key", q, what, k)
		}
		if string(k) != want[i] {
			r.failf("%s of %s returned %q as number %d, want %q", q, what, k, i, want[i])
		}
		if v != m[want[i]] {
			r.failf("%s of %s returned value %d for %q, want %d", q, what, v, k, m[want[i]])
		}
	}
}

func rev(s []string) []string {
	o := make([]string, len(s))
	for i := range s {
		o[len(s)-1-i] = s[i]
	}
	return o
}

func (r *runner) checkTree(t *tree, m model, what string) {
	if r.is("C02") {
		r.evals++
		if t.Len() != len(m) {
			r.failf("Len of %s is %d, want %d", what, t.Len(), len(m))
		}
	}
	if r.is("C01", "C14", "C11") {
		for _, k := range r.sample(m, 40) {
			r.evals++
			if v, ok := r.get(t, k); !ok || v != m[k] {
				r.failf("Get(%q) on %s returned (%d, %v), want (%d, true)", k, what, v, ok, m[k])
			}
		}
		for _, p := range r.probes {
			r.evals++
			want, has := m[string(p)]
			if v, ok := r.get(t, string(p)); ok != has || v != want {
				r.failf("Get(%q) on %s returned (%d, %v), want (%d, %v)", p, what, v, ok, want, has)
			}
		}
	}
	if r.is("C11") {
		r.evals++
		if t.Len() != len(m) {
			r.failf("Len of %s is %d, want %d", what, t.Len(), len(m))
		}
	}
	if !r.is("C05", "C06", "C07", "C08", "C09", "C10", "C12", "C15", "C16", "C14") {
		return
	}
	ks := m.keys()
	if r.is("C05") {
		r.list(what, "iteration", m, ks, t.Root().Iterator().Next)
	}
	if r.is("C07") {
		r.list(what, "reverse iteration", m, rev(ks), t.Root().ReverseIterator().Previous)
	}
	if r.is("C10") {
		r.extreme(what, "Minimum", m, ks, t.Minimum(), 0)
		r.extreme(what, "Maximum", m, ks, t.Maximum(), len(ks)-1)
	}
	if r.is("C16") {
		r.walk(t, m, ks, what, len(ks)+1)
		r.walk(t, m, ks, what, r.rnd.Intn(len(ks)+1))
	}
	for _, p := range r.probes {
		if r.is("C05", "C15", "C14") {
			var want []string
			for _, k := range ks {
				if strings.HasPrefix(k, string(p)) {
					want = append(want, k)
				}
			}
			it := t.Root().Iterator()
			b := buf(p)
			it.SeekPrefix(b)
			r.spent(b, p)
			r.list(what, fmt.Sprintf("iteration under %q", p), m, want, it.Next)
			it = t.Root().Iterator()
			b = buf(p)
			it.SeekPrefixWatch(b)
			r.spent(b, p)
			r.list(what, fmt.Sprintf("watched iteration under %q", p), m, want, it.Next)
		}
		if r.is("C06", "C15", "C14") {
			i := sort.SearchStrings(ks, string(p))
			it := t.Root().LowerBoundIterator()
			b := buf(p)
			it.SeekLowerBound(b)
			r.spent(b, p)
			r.list(what, fmt.Sprintf("iteration from lower bound %q", p), m, ks[i:], it.Next)
		}
		if r.is("C07", "C15", "C14") {
			i := sort.Search(len(ks), func(i int) bool { return ks[i] > string(p) })
			it := t.Root().ReverseIterator()
			b := buf(p)
			it.SeekReverseLowerBound(b)
			r.spent(b, p)
			r.list(what, fmt.Sprintf("reverse iteration from %q", p), m, rev(ks[:i]), it.Previous)
			var want []string
			for _, k := range ks {
				if strings.HasPrefix(k, string(p)) {
					want = append(want, k)
				}
			}
			it = t.Root().ReverseIterator()
			b = buf(p)
			it.SeekPrefix(b)
			r.spent(b, p)
			r.list(what, fmt.Sprintf("reverse iteration under %q", p), m, rev(want), it.Previous)
		}
		if r.is("C08", "C15", "C14") {
			r.longest(m, p, what, t.LongestPrefix)
		}
		if r.is("C09", "C15", "C14") && (len(m) < 40 || r.rnd.Intn(8) == 0) {
			var want []string
			for _, k := range ks {
				if strings.HasPrefix(string(p), k) {
					want = append(want, k)
				}
			}
			b := buf(p)
			it := t.GetPathIterator(b)
			r.spent(b, p)
			r.list(what, fmt.Sprintf("path iteration of %q", p), m, want, it.Next)
			b = buf(p)
			it = t.Root().PathIterator(b)
			r.spent(b, p)
			r.list(what, fmt.Sprintf("path iteration of %q", p), m, want, it.Next)
		}
		if r.is("C12", "C15", "C14") {
			b := buf(p)
			ch, v, ok := t.GetWatch(b)
			r.spent(b, p)
			want, has := m[string(p)]
			r.evals++
			if ch == nil || ok != has || v != want {
				r.failf("GetWatch(%q) on %s returned (%v, %d, %v), want (%d, %v)", p, what, ch, v, ok, want, has)
			}
		}
	}
}

func (r *runner) extreme(what, name string, m model, ks []string, l *adaptive.NodeLeaf[int], i int) {
	r.evals++
	if l == nil {
		if len(ks) != 0 {
			r.failf("%s of %s is missing, want %q", name, what, ks[i])
		}
		return
	}
	k, v, ok := l.Iterator().Next()
	if len(ks) == 0 {
		r.failf("%s of %s, which is empty, is %q", name, what, k)
	}
	if !ok || string(k) != ks[i] || v != m[ks[i]] {
		r.failf("%s of %s is (%q, %d), want (%q, %d)", name, what, k, v, ks[i], m[ks[i]])
	}
}

func (r *runner) walk(t *tree, m model, ks []string, what string, stop int) {
	i := 0
	t.Walk(func(k []byte, v int) bool {
		r.evals++
		if i >= len(ks) || i > stop {
			r.failf("Walk of %s visited %q too many", what, k)
		}
		if string(k) != ks[i] || v != m[ks[i]] {
			r.failf("Walk of %s visited (%q, %d) as number %d, want (%q, %d)", what, k, v, i, ks[i], m[ks[i]])
		}
		i++
		return i > stop
	})
	want := len(ks)
	if stop < want {
		want = stop + 1
	}
	if i != want {
		r.failf("Walk of %s visited %d keys, want %d", what, i, want)
	}
}

// panics says whether a panic in the current operation breaks the property.
func (r *runner) panics() bool {
	switch {
	case r.is("C15"):
		return true
	case strings.Contains(r.cur, "delp("):
		return r.is("C11")
	case strings.Contains(r.cur, "ins(") || strings.Contains(r.cur, "del("):
		return r.is("C01")
	case strings.HasPrefix(r.cur, "xcommit") || strings.HasPrefix(r.cur, "xnotify"):
		return r.is("C12", "C13")
	}
	return false
}

// run executes a history and returns what failed.
func run(h history, seed int64) (msg string, at int, evals int) {
	r := &runner{prop: h.Property, probes: h.Probes, rnd: rand.New(rand.NewSource(seed))}
	i := -1
	defer func() {
		evals = r.evals
		at = i
		if e := recover(); e != nil {
			if f, ok := e.(fail); ok {
				msg = f.msg
			} else if !r.busy || r.panics() {
				msg = fmt.Sprintf("%s panicked: %v", r.cur, e)
			}
		}
	}()
	r.cur = "NewRadixTree"
	r.add(adaptive.NewRadixTree[int](), model{})
	for i = 0; i < len(h.Ops); i++ {
		r.step(h.Ops[i])
	}
	return "", i, r.evals
}

// runT is run with a time limit, for loops that do not end.
func runT(h history, seed int64) (string, int, int) {
	type res struct {
		m    string
		a, e int
	}
	c := make(chan res, 1)
	go func() {
		m, a, e := run(h, seed)
		c <- res{m, a, e}
	}()
	select {
	case x := <-c:
		return x.m, x.a, x.e
	case <-time.After(20 * time.Second):
		return "the history did not finish within 20 s", len(h.Ops), 0
	}
}

// ---- generation ----

var stems = []string{"", "a", "ab", "aaaaaaaaaa", "aaaaaaaaaaa", "abcdefghijkl", "abcdefghijklmnopqrstuvwxyz", "aaaaaaaaaaaaaaaaaaaaaaaab", "\x00", "\x00\x00", "\xff\xff"}

func genKey(r *rand.Rand, mode int) []byte {
	str := func(n int, al string) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
		return b
	}
	switch mode {
	case 0:
		return str(r.Intn(6), "abc")
	case 1:
		var s string
		for n := r.Intn(4); n > 0; n-- {
			s += []string{"aaaaaaaaaaaa", "aaaaaaaaaaab", "b", "c", "aaaaaaaaaa", "aaaaaaaaaaa"}[r.Intn(6)]
		}
		return []byte(s)
	case 2:
		n := r.Intn(3) + 1
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('%' + r.Intn(60))
		}
		return b
	case 3:
		return str(r.Intn(14), "\x00\x00\x00a")
	case 4:
		n := r.Intn(2) + 1
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return b
	case 5:
		s := []byte(stems[r.Intn(len(stems))])
		s = s[:len(s)-r.Intn(min(len(s)+1, 3))]
		return append(s, str(r.Intn(3), "ab\x00\xff")...)
	case 6:
		// wide nodes below one or two long stems
		s := []byte(stems[4+r.Intn(3)])
		return append(append(s, byte(r.Intn(256))), str(r.Intn(2), "ab")...)
	case 7:
		return str(r.Intn(25), "aaaaab")
	}
	// wide root
	return []byte{byte(r.Intn(256))}
}

const modes = 9

func gen(prop string, rnd *rand.Rand) history {
	h := history{Property: prop}
	mode := rnd.Intn(modes)
	n := 4 + rnd.Intn(60)
	wide := mode == 2 || mode == 4 || mode == 6 || mode == 8
	if wide {
		n = 20 + rnd.Intn(500)
	}
	switch prop {
	case "C03", "C04", "C12", "C13", "C14", "C15":
		if wide {
			n = 20 + rnd.Intn(160)
		}
	}
	var used [][]byte
	key := func() []byte {
		if len(used) > 0 && rnd.Intn(3) == 0 {
			return used[rnd.Intn(len(used))]
		}
		if rnd.Intn(8) == 0 && len(used) > 0 {
			u := used[rnd.Intn(len(used))]
			k := append([]byte{}, u...)
			switch rnd.Intn(4) {
			case 0:
				k = k[:rnd.Intn(len(k)+1)]
			case 1:
				k = append(k, genKey(rnd, mode)...)
			case 2:
				if len(k) > 0 {
					k[rnd.Intn(len(k))] ^= byte(1 + rnd.Intn(3))
				}
			}
			return k
		}
		return genKey(rnd, mode)
	}
	del := func(k []byte) []byte {
		if len(used) > 0 && rnd.Intn(4) != 0 {
			i := rnd.Intn(len(used))
			k = used[i]
			used[i] = used[len(used)-1]
			used = used[:len(used)-1]
		}
		return k
	}
	trees, txns := 1, 0
	newTxn := func(i int) {
		h.Ops = append(h.Ops, op{Op: "txn", H: i})
		txns++
		h.Ops = append(h.Ops, op{Op: "xtrack", H: txns - 1, V: bool2int(rnd.Intn(4) != 0)})
	}
	grow := 3
	style := rnd.Intn(4) // 0 trees only, 1 one long transaction, 2.. mixed
	if style == 1 {
		newTxn(0)
	}
	if wide && rnd.Intn(3) == 0 {
		// start above a size boundary
		if txns == 0 {
			newTxn(0)
		}
		base := genKey(rnd, mode)
		m := []int{4, 5, 16, 17, 38, 48, 49, 60, 255, 256}[rnd.Intn(10)]
		p := rnd.Perm(256)[:m]
		for i, c := range p {
			k := append(append([]byte{}, base[:len(base)-1]...), byte(c))
			used = append(used, k)
			h.Ops = append(h.Ops, op{Op: "xins", H: txns - 1, K: k, V: 100000 + i})
		}
		h.Ops = append(h.Ops, op{Op: "xcommit", H: txns - 1})
		trees++
		grow = 1
		n += m
	}
	for i := 0; len(h.Ops) < n; i++ {
		if rnd.Intn(25) == 0 {
			grow = 1 + rnd.Intn(4)
		}
		ti := trees - 1
		if rnd.Intn(12) == 0 {
			ti = rnd.Intn(trees)
		}
		if style != 0 && txns == 0 {
			newTxn(ti)
		}
		if style == 0 || (style > 1 && rnd.Intn(3) == 0) {
			k := key()
			switch x := rnd.Intn(20); {
			case x < 4*grow:
				used = append(used, k)
				h.Ops = append(h.Ops, op{Op: "tins", H: ti, K: k, V: i + 1})
				trees++
			case x < 18:
				h.Ops = append(h.Ops, op{Op: "tdel", H: ti, K: del(k)})
				trees++
			case x < 19:
				if rnd.Intn(2) == 0 {
					h.Ops = append(h.Ops, op{Op: "tclone", H: ti})
				} else {
					if len(k) > 0 {
						k = k[:len(k)-rnd.Intn(min(len(k), 3)+1)]
					}
					h.Ops = append(h.Ops, op{Op: "tdelp", H: ti, K: k})
				}
				trees++
			default:
				newTxn(ti)
			}
			continue
		}
		xi := txns - 1
		if rnd.Intn(6) == 0 {
			xi = rnd.Intn(txns)
		}
		k := key()
		switch x := rnd.Intn(30); {
		case x < 5*grow:
			used = append(used, k)
			h.Ops = append(h.Ops, op{Op: "xins", H: xi, K: k, V: i + 1})
		case x < 24:
			h.Ops = append(h.Ops, op{Op: "xdel", H: xi, K: del(k)})
		case x < 26:
			if len(k) > 0 {
				k = k[:len(k)-rnd.Intn(min(len(k), 3)+1)]
			}
			h.Ops = append(h.Ops, op{Op: "xdelp", H: xi, K: k})
		case x < 28:
			h.Ops = append(h.Ops, op{Op: "xcommit", H: xi})
			trees++
		case x < 29:
			switch rnd.Intn(4) {
			case 0:
				h.Ops = append(h.Ops, op{Op: "xclone", H: xi})
				txns++
			case 1:
				h.Ops = append(h.Ops, op{Op: "xcommitonly", H: xi})
				trees++
				if rnd.Intn(2) == 0 {
					h.Ops = append(h.Ops, op{Op: "xnotify", H: xi})
				}
			case 2:
				h.Ops = append(h.Ops, op{Op: "xtrack", H: xi, V: rnd.Intn(2)})
			case 3:
				// empty the tree inside the transaction
				h.Ops = append(h.Ops, op{Op: "xdelp", H: xi})
			}
		default:
			newTxn(ti)
		}
	}
	np := 4 + rnd.Intn(6)
	for i := 0; i < np; i++ {
		h.Probes = append(h.Probes, key())
	}
	h.Probes = append(h.Probes, nil)
	return h
}

func bool2int(b bool) int {
	if b {
		return 1
	}
	return 0
}

// shrink removes operations and probes while the history still fails.
func shrink(h history, seed int64) history {
	end := time.Now().Add(20 * time.Second)
	_, at, _ := runT(h, seed)
	if at+1 < len(h.Ops) {
		c := h
		c.Ops = h.Ops[:at+1]
		if m, _, _ := runT(c, seed); m != "" {
			h = c
		}
	}
	for size := len(h.Ops) / 2; size >= 1; {
		cut := false
		for i := 0; i+size <= len(h.Ops) && time.Now().Before(end); {
			c := h
			c.Ops = append(append([]op{}, h.Ops[:i]...), h.Ops[i+size:]...)
			if m, _, _ := runT(c, seed); m != "" {
				h = c
				cut = true
			} else {
				i += size
			}
		}
		if !cut || size > 1 {
			if size == 1 {
				break
			}
			size /= 2
		}
		if time.Now().After(end) {
			break
		}
	}
	for i := 0; i < len(h.Probes); {
		c := h
		c.Probes = append(append([][]byte{}, h.Probes[:i]...), h.Probes[i+1:]...)
		if m, _, _ := runT(c, seed); m != "" {
			h = c
		} else {
			i++
		}
	}
	return h
}

type report struct {
	Property  string   `json:"property"`
	Histories int64    `json:"histories"`
	Distinct  int64    `json:"distinct"`
	Evals     int64    `json:"evaluations"`
	Fail      string   `json:"fail"`
	Seed      int64    `json:"seed"`
	History   *history `json:"history,omitempty"`
	Text      []string `json:"text,omitempty"`
	Samples   []string `json:"samples,omitempty"`
}

func envInt(n string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(n), 10, 64); err == nil {
		return v
	}
	return d
}

// TestVerifSearch looks for a history that breaks VERIF_PROP.
func TestVerifSearch(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip()
	}
	seed := envInt("VERIF_SEED", 0)
	count := envInt("VERIF_COUNT", 1000)
	end := time.Now().Add(time.Duration(envInt("VERIF_SECS", 600)) * time.Second)
	workers := int(envInt("VERIF_WORKERS", 8))
	rep := report{Property: prop, Seed: seed}
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var in report
		if err := json.Unmarshal(b, &in); err != nil {
			t.Fatal(err)
		}
		if in.History == nil {
			t.Fatal("the replay file has no history")
		}
		m, _, _ := runT(*in.History, in.Seed)
		if m == "" {
			t.Log("the history passes")
			return
		}
		t.Fatalf("property %s: %s", in.Property, m)
	}
	var next, evals, done int64
	var mu sync.Mutex
	seen := map[string]bool{}
	var found atomic.Bool
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !found.Load() && time.Now().Before(end) {
				i := atomic.AddInt64(&next, 1) - 1
				if i >= count {
					return
				}
				s := seed*1000003 + i
				h := gen(prop, rand.New(rand.NewSource(s)))
				m, _, e := runT(h, s)
				atomic.AddInt64(&evals, int64(e))
				atomic.AddInt64(&done, 1)
				mu.Lock()
				if d := fmt.Sprint(h.Ops); len(d) < 1<<16 {
					seen[d] = true
				}
				if len(rep.Samples) < 2 {
					d := fmt.Sprint(h.Ops)
					if len(d) > 600 {
						d = d[:600] + "..."
					}
					rep.Samples = append(rep.Samples, d)
				}
				mu.Unlock()
				if m != "" && found.CompareAndSwap(false, true) {
					h = shrink(h, s)
					m2, _, _ := runT(h, s)
					if m2 != "" {
						m = m2
					}
					mu.Lock()
					rep.Fail, rep.Seed, rep.History = m, s, &h
					for _, o := range h.Ops {
						rep.Text = append(rep.Text, o.String())
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	rep.Histories, rep.Evals, rep.Distinct = done, evals, int64(len(seen))
	b, _ := json.MarshalIndent(rep, "", " ")
	if f := os.Getenv("VERIF_OUT"); f != "" {
		if err := os.WriteFile(f, b, 0o644); err != nil {
			t.Fatal(err)
		}
	}
	if rep.Fail != "" {
		t.Fatalf("property %s: %s", prop, rep.Fail)
	}
}
