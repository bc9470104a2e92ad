// Iteration along a path: the top of the stack is its first element.

pub open spec fn rev(s: Seq<Node>) -> Seq<Node> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn pi_stk(h: H, i: Ptr) -> Seq<Node> { rev(ns(h, h.m_PathIterator[i].stack)) }
pub open spec fn pi_flt(h: H, i: Ptr) -> Flt { Flt { p: bs(h, h.m_PathIterator[i].path), back: true } }
pub open spec fn pi_ok(h: H, i: Ptr) -> bool {
    i != 0 && h.m_PathIterator.contains_key(i) && sok(h, h.m_PathIterator[i].stack, own_PathIterator(i)) && pok(h, h.m_PathIterator[i].path) && tw(h, pi_stk(h, i), true)
}
pub open spec fn pi_fr(h0: H, h1: H, i: Ptr) -> bool {
    &&& h1 == (H { narr: h1.narr, m_PathIterator: h1.m_PathIterator, ..h0 }) && nq(h0, h1, own_PathIterator(i))
    &&& upd(h0.m_PathIterator, h1.m_PathIterator, i) && h1.m_PathIterator[i] == (RPathIterator { stack: h1.m_PathIterator[i].stack, ..h0.m_PathIterator[i] })
}
pub proof fn st_drop(h0: H, h2: H, s: Slice, r: Slice, o: Own)
    requires sok(h0, s, o), s.len > 0, swf(r), r == (Slice { arr: s.arr, off: (s.off + 1) as i64, len: (s.len - 1) as i64, cap: (s.cap - 1) as i64 }), h2.narr == own_n(h0.narr, r.arr, o), h2.bytes == h0.bytes, o != nobody(),
    ensures nq(h0, h2, o), sok(h2, r, o), rev(ns(h2, r)) == rev(ns(h0, s)).drop_last(), rev(ns(h0, s)).last() == ns_at(h0, s, 0), rev(ns(h0, s)).len() == s.len,
{
    assert(rev(ns(h2, r)) =~= rev(ns(h0, s)).drop_last());
}
/// A node was put in front of a copy of the stack.
pub proof fn st_front(h0: H, h1: H, h2: H, h4: H, s: Slice, v: Node, r: Slice, o: Own)
    requires sok(h0, s, o), nlens(h0), o != nobody(), swf(r), r.off == 0, r.len == s.len + 1,
        r.arr matches Arr::A(a) && !h0.narr.contains_key(a) && upd(h0.narr, h1.narr, a) && h1.narr[a].data.len() == r.cap && h1.bytes == h0.bytes,
        h2 == write_n(h1, Slice { arr: r.arr, off: (r.off + 1) as i64, len: (r.len - 1) as i64, cap: (r.cap - 1) as i64 }, ns(h1, s).subrange(0, s.len as int)),
        h4.narr == own_n(put_n(h2, r, 0, v).narr, r.arr, o), h4.bytes == h2.bytes,
    ensures nq(h0, h4, o), sok(h4, r, o), rev(ns(h4, r)) == rev(ns(h0, s)).push(v),
{
    let a = r.arr->A_0;
    assert(ns(h1, s) =~= ns(h0, s));
    assert forall|j: int| 0 <= j < s.len implies #[trigger] h4.narr[a].data[1 + j] == ns(h0, s)[j] by { }
    assert(h4.narr[a].data[0] == v);
    assert forall|j: int| 0 <= j < r.len implies #[trigger] rev(ns(h4, r))[j] == rev(ns(h0, s)).push(v)[j] by {
        let x = r.len - 1 - j;
        assert(rev(ns(h4, r))[j] == h4.narr[a].data[x]);
        if x > 0 { assert(h4.narr[a].data[1 + (x - 1)] == ns(h0, s)[x - 1]); }
    }
    assert(rev(ns(h4, r)) =~= rev(ns(h0, s)).push(v));
}
pub open spec fn appd_all(h0: H, h1: H, s: Slice, v: Slice, r: Slice) -> bool {
    &&& swf(r) && r.len == s.len + v.len
    &&& s.len + v.len <= s.cap ==> r == (Slice { len: (s.len + v.len) as i64, ..s })
            && h1 == write_n(h0, Slice { off: (s.off + s.len) as i64, len: v.len, cap: v.len, arr: s.arr }, ns(h0, v))
    &&& s.len + v.len > s.cap ==> r.off == 0 && exists|a: u64| #![trigger h0.narr.contains_key(a)] r.arr == Arr::A(a) && !h0.narr.contains_key(a)
            && exists|d: Seq<Node>| #![trigger h0.narr.insert(a, NArr { data: d, owner: nobody() })] d.len() == r.cap && d.subrange(0, r.len as int) == ns(h0, s) + ns(h0, v)
                && h1 == (H { narr: h0.narr.insert(a, NArr { data: d, owner: nobody() }), ..h0 })
}
/// The stack was appended to a new slice with one node.
pub proof fn st_lead(h0: H, h1: H, h2: H, h4: H, s: Slice, v: Node, t: Slice, r: Slice, o: Own)
    requires sok(h0, s, o), nlens(h0), o != nobody(), swf(t), t.off == 0, t.len == 1,
        t.arr matches Arr::A(a) && !h0.narr.contains_key(a) && upd(h0.narr, h1.narr, a) && h1.narr[a].data.len() == t.cap && h1.narr[a].owner == nobody() && h1.narr[a].data[0] == v && h1.bytes == h0.bytes,
        appd_all(h1, h2, t, s, r),
        h4.narr == own_n(h2.narr, r.arr, o), h4.bytes == h2.bytes,
    ensures nq(h0, h4, o), sok(h4, r, o), rev(ns(h4, r)) == rev(ns(h0, s)).push(v),
{
    let a = t.arr->A_0;
    assert(ns(h1, s) =~= ns(h0, s));
    let b = r.arr->A_0;
    if t.len + s.len <= t.cap {
        assert(h4.narr[a].data[0] == v);
        assert forall|j: int| 0 <= j < s.len implies #[trigger] h4.narr[a].data[1 + j] == ns(h0, s)[j] by { }
    } else {
        let d = h2.narr[b].data;
        assert(d.subrange(0, r.len as int) == ns(h1, t) + ns(h1, s));
        assert(h4.narr[b].data == d);
        assert(d[0] == d.subrange(0, r.len as int)[0]);
        assert(d[0] == v);
        assert forall|j: int| 0 <= j < s.len implies #[trigger] h4.narr[b].data[1 + j] == ns(h0, s)[j] by { assert(d[1 + j] == d.subrange(0, r.len as int)[1 + j]); }
    }
    assert forall|j: int| 0 <= j < r.len implies #[trigger] rev(ns(h4, r))[j] == rev(ns(h0, s)).push(v)[j] by {
        let x = r.len - 1 - j;
        assert(rev(ns(h4, r))[j] == h4.narr[b].data[x]);
        if x > 0 { assert(h4.narr[b].data[1 + (x - 1)] == ns(h0, s)[x - 1]); }
    }
    assert(rev(ns(h4, r)) =~= rev(ns(h0, s)).push(v));
}
/// The children of an inner node and then its leaf were put on the stack.
pub proof fn inner_lead(h: H, v: Seq<Node>, s: Seq<Node>, s1: Seq<Node>, f: Flt)
    requires s.len() > 0, tw(h, s, true), inner(s.last().tag), pushed(h, s.drop_last(), s1, s.last(), 0, true), same_p(h, v, s, f),
    ensures ({
        let l = h.nodes[s.last().p].leaf;
        let s2 = if l == 0 { s1 } else { s1.push(Node { tag: Tag::Leaf, p: l }) };
        wt(h, s2) < wt(h, s) && tw(h, s2, true) && same_p(h, v, s2, f)
    }),
{
    let n = s.last();
    let s0 = s.drop_last();
    let p = h.nodes[n.p].leaf;
    let g = h.gh[n.p].gp;
    let l = Node { tag: Tag::Leaf, p };
    inner_up(h, s, s1, f);
    stk_pop(h, s, true);
    if p == 0 { same_trans(h, v, s, s1, f); } else {
        let s2 = s1.push(l);
        dl_pos(h, n);
        leaf_in(h, n.p);
        tree_ok(h, p);
        ok_l(h, p);
        stk_push(h, s1, l, true);
        push_end(h, s0, s1, n);
        let w = pw((dl(h, n) - 1) as nat);
        assert(wt(h, s1) + 1 < wt(h, s)) by (nonlinear_arith)
            requires wt(h, s1) <= wt(h, s0) + 256 * w, wt(h, s) == wt(h, s0) + 300 * w, w >= 1;
        assert(ahead(true, cont(h, l), und(h, s1))) by {
            assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] cont(h, l).contains_key(a) && #[trigger] und(h, s1).contains_key(b) implies up(true, a, b) by {
                assert(a == g);
                assert(cont(h, n).contains_key(g));
                if cont(h, n).contains_key(b) && b != g { cont_pfx(h, n.p, b); lt_ext(g, b); } else { assert(und(h, s0).contains_key(b)); }
            }
        }
        assert forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] #![trigger pl(h, s2, f, k)] pl(h, s2, f, k) == pl(h, s, f, k) by {
            assert(und(h, s).contains_key(k) || true);
            assert(und(h, s1).contains_key(k) || true);
            assert(und(h, s2).contains_key(k) || true);
            assert(look(und(h, s), k) == und2(h, s0, n, k));
            assert(look(und(h, s2), k) == und2(h, s1, l, k));
            assert(cont(h, l).contains_key(k) <==> k == g);
        }
        same_trans(h, v, s, s2, f);
    }
}

// ---- new iterators ----

/// The slice shares nothing with what existed before.
pub open spec fn apart_b(h: H, s: Slice) -> bool { match s.arr { Arr::A(a) => !h.bytes.contains_key(a), Arr::Nil => true, Arr::Z => true, _ => false } }
/// The keys to come are those that the path q starts with.
pub open spec fn to_path(h: H, s: Seq<Node>, f: Flt, m: Map<Seq<u8>, Ent>, q: Seq<u8>) -> bool {
    forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] pl(h, s, f, k) == if pfx(k, q) { look(m, k) } else { None }
}
pub proof fn start_ok(h0: H, h1: H, n: Node, f: Flt)
    requires entry(h0, n), h1.nodes == h0.nodes, h1.gh == h0.gh, h1.chans == h0.chans, h1.gx == h0.gx, h1.bytes == h0.bytes, h1.narr == h0.narr, f.p.len() == 0, !f.back,
    ensures tw(h1, seq![n], true), tw(h1, seq![n], false), to_pfx(h1, seq![n], f, cont(h0, n), Seq::empty()),
{
    let o = nobody();
    nq_refl(h0, o);
    nq_calm(h0, h1, o);
    stk_one(h0, n, true);
    stk_one(h0, n, false);
    stk_calm(h0, h1, seq![n], true);
    stk_calm(h0, h1, seq![n], false);
    assert forall|k: Seq<u8>| #![trigger pl(h1, seq![n], f, k)] pl(h1, seq![n], f, k) == (if pfx(Seq::empty(), k) { look(cont(h0, n), k) } else { None }) by { assert(f.p =~= Seq::empty()); }
}
pub proof fn start_path(h0: H, h1: H, n: Node, s: Seq<Node>, f: Flt)
    requires entry(h0, n), calm(h0, h1), f.back, s == seq![n],
    ensures tw(h1, s, true), to_path(h1, s, f, cont(h0, n), f.p),
{
    stk_one(h0, n, true);
    stk_calm(h0, h1, seq![n], true);
}
