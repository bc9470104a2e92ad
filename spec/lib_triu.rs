// Iterators: stacks in memory.

/// Only arrays of the owner changed, and new ones were made.
pub open spec fn nq(h0: H, h1: H, o: Own) -> bool {
    &&& forall|a: u64| #![trigger h1.narr[a]] #![trigger h1.narr.contains_key(a)] h0.narr.contains_key(a) ==> h1.narr.contains_key(a) && (h0.narr[a].owner != o ==> h1.narr[a] == h0.narr[a])
    &&& forall|a: u64| #![trigger h1.narr[a]] #![trigger h1.narr.contains_key(a)] h0.narr.contains_key(a) && h0.narr[a].owner == o ==> h1.narr[a].owner == o
    &&& forall|a: u64| #![trigger h1.bytes[a]] #![trigger h1.bytes.contains_key(a)] h0.bytes.contains_key(a) ==> h1.bytes.contains_key(a) && h1.bytes[a] == h0.bytes[a]
}
pub proof fn nq_trans(h0: H, h1: H, h2: H, o: Own)
    requires nq(h0, h1, o), nq(h1, h2, o),
    ensures nq(h0, h2, o),
{
    assert forall|a: u64| #![trigger h2.narr[a]] #![trigger h2.narr.contains_key(a)] h0.narr.contains_key(a) implies h2.narr.contains_key(a) && (h0.narr[a].owner != o ==> h2.narr[a] == h0.narr[a]) by { assert(h1.narr.contains_key(a)); }
    assert forall|a: u64| #![trigger h2.narr[a]] #![trigger h2.narr.contains_key(a)] h0.narr.contains_key(a) && h0.narr[a].owner == o implies h2.narr[a].owner == o by { assert(h1.narr.contains_key(a)); }
    assert forall|a: u64| #![trigger h2.bytes[a]] #![trigger h2.bytes.contains_key(a)] h0.bytes.contains_key(a) implies h2.bytes.contains_key(a) && h2.bytes[a] == h0.bytes[a] by { assert(h1.bytes.contains_key(a)); }
}
/// The stack is in an array of its own.
pub open spec fn sok(h: H, s: Slice, o: Own) -> bool {
    swf(s) && match s.arr { Arr::A(a) => h.narr.contains_key(a) && h.narr[a].owner == o, Arr::Nil => true, Arr::Z => true, _ => false }
}
pub open spec fn pok(h: H, s: Slice) -> bool { swf(s) && alloc_b(h, s) }

pub open spec fn appd(h0: H, h1: H, s: Slice, v: Node, r: Slice) -> bool {
    &&& swf(r) && r.len == s.len + 1
    &&& s.len < s.cap ==> r == (Slice { len: (s.len + 1) as i64, ..s }) && h1 == put_n(h0, s, s.len as int, v)
    &&& s.len >= s.cap ==> r.off == 0 && exists|a: u64| #![trigger h0.narr.contains_key(a)] r.arr == Arr::A(a) && !h0.narr.contains_key(a)
            && exists|d: Seq<Node>| #![trigger h0.narr.insert(a, NArr { data: d, owner: nobody() })] d.len() == r.cap && d.subrange(0, r.len as int) == ns(h0, s).push(v)
                && h1 == (H { narr: h0.narr.insert(a, NArr { data: d, owner: nobody() }), ..h0 })
}
/// A node was appended to the stack and the stack was stored.
pub proof fn st_push(h0: H, h1: H, h2: H, s: Slice, v: Node, r: Slice, o: Own)
    requires sok(h0, s, o), nlens(h0), appd(h0, h1, s, v, r), h2.narr == own_n(h1.narr, r.arr, o), h2.bytes == h1.bytes, o != nobody(),
    ensures h1 == (H { narr: h1.narr, ..h0 }), nq(h0, h2, o), sok(h2, r, o), ns(h2, r) == ns(h0, s).push(v), r.arr is A,
{
    if s.len < s.cap {
        let a = s.arr->A_0;
        assert(s.arr == Arr::A(a));
        assert(h0.narr[a].data.len() == alen(s.arr));
        assert(ns(h2, r) =~= ns(h0, s).push(v));
    } else {
        let a = r.arr->A_0;
        let d = h1.narr[a].data;
        assert(h1 == (H { narr: h0.narr.insert(a, NArr { data: d, owner: nobody() }), ..h0 }));
        assert(d.subrange(0, r.len as int) == ns(h0, s).push(v));
        assert forall|i: int| 0 <= i < r.len implies ns_at(h2, r, i) == #[trigger] ns(h0, s).push(v)[i] by { assert(d.subrange(0, r.len as int)[i] == d[i]); }
        assert(ns(h2, r) =~= ns(h0, s).push(v));
    }
}
/// The top was taken off and the stack was stored.
pub proof fn st_pop(h0: H, h2: H, s: Slice, r: Slice, o: Own)
    requires sok(h0, s, o), s.len > 0, r == (Slice { len: (s.len - 1) as i64, ..s }), h2.narr == own_n(h0.narr, r.arr, o), h2.bytes == h0.bytes, o != nobody(),
    ensures nq(h0, h2, o), sok(h2, r, o), ns(h2, r) == ns(h0, s).drop_last(), ns(h0, s).last() == ns_at(h0, s, s.len - 1), ns(h0, s).len() == s.len, r.arr is A,
{
    assert(ns(h2, r) =~= ns(h0, s).drop_last());
}
pub proof fn nq_calm(h0: H, h1: H, o: Own)
    requires nq(h0, h1, o), h1.nodes == h0.nodes, h1.gh == h0.gh, h1.chans == h0.chans, h1.gx == h0.gx,
    ensures calm(h0, h1),
{ reveal(fr); }

// ---- what is still to come ----

/// Which keys are wanted: those with the prefix p, or the prefixes of p.
pub ghost struct Flt { pub p: Seq<u8>, pub back: bool }
pub open spec fn wants(f: Flt, k: Seq<u8>) -> bool { if f.back { pfx(k, f.p) } else { pfx(f.p, k) } }
pub open spec fn pl(h: H, s: Seq<Node>, f: Flt, k: Seq<u8>) -> Option<Ent> { if wants(f, k) { look(und(h, s), k) } else { None } }
pub open spec fn same_p(h: H, s: Seq<Node>, s1: Seq<Node>, f: Flt) -> bool { forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] #![trigger pl(h, s1, f, k)] pl(h, s1, f, k) == pl(h, s, f, k) }
/// Key x with entry e comes next, the rest stays.
pub open spec fn next_p(h: H, s: Seq<Node>, s1: Seq<Node>, f: Flt, x: Seq<u8>, e: Ent, u: bool) -> bool {
    &&& pl(h, s, f, x) == Some(e)
    &&& forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] pl(h, s, f, k) is Some ==> k == x || up(u, x, k)
    &&& forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] #![trigger pl(h, s1, f, k)] pl(h, s1, f, k) == if k == x { None } else { pl(h, s, f, k) }
}
pub proof fn same_next(h: H, s: Seq<Node>, sa: Seq<Node>, s1: Seq<Node>, f: Flt, x: Seq<u8>, e: Ent, u: bool)
    requires same_p(h, s, sa, f), next_p(h, sa, s1, f, x, e, u),
    ensures next_p(h, s, s1, f, x, e, u),
{
    assert forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] pl(h, s, f, k) is Some implies k == x || up(u, x, k) by { assert(pl(h, sa, f, k) == pl(h, s, f, k)); }
    assert(pl(h, sa, f, x) == pl(h, s, f, x));
    assert forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] #![trigger pl(h, s1, f, k)] pl(h, s1, f, k) == if k == x { None } else { pl(h, s, f, k) } by { assert(pl(h, sa, f, k) == pl(h, s, f, k)); }
}
pub proof fn same_trans(h: H, s: Seq<Node>, sa: Seq<Node>, s1: Seq<Node>, f: Flt)
    requires same_p(h, s, sa, f), same_p(h, sa, s1, f),
    ensures same_p(h, s, s1, f),
{ assert forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] #![trigger pl(h, s1, f, k)] pl(h, s1, f, k) == pl(h, s, f, k) by { assert(pl(h, sa, f, k) == pl(h, s, f, k)); } }
pub proof fn none_left(h: H, s: Seq<Node>, f: Flt)
    requires s.len() == 0,
    ensures forall|k: Seq<u8>| pl(h, s, f, k) is None,
{
    assert(s =~= Seq::empty());
    stk_none(h, true);
}
/// The children of an inner node were put on the stack, in ascending order.
pub proof fn inner_up(h: H, s: Seq<Node>, s1: Seq<Node>, f: Flt)
    requires s.len() > 0, tw(h, s, true), inner(s.last().tag), pushed(h, s.drop_last(), s1, s.last(), 0, true),
    ensures wt(h, s1) < wt(h, s), ({
        let n = s.last();
        let l = h.nodes[n.p].leaf;
        &&& l != 0 ==> kind_of(l) == Tag::Leaf && h.nodes.contains_key(l) && key_of(h, l) == h.gh[n.p].gp
        &&& l == 0 || !wants(f, key_of(h, l)) ==> same_p(h, s, s1, f)
        &&& l != 0 && wants(f, key_of(h, l)) ==> next_p(h, s, s1, f, key_of(h, l), ent_of(h, l), true)
    }),
{
    let s0 = s.drop_last();
    let n = s.last();
    let l = h.nodes[n.p].leaf;
    let g = h.gh[n.p].gp;
    stk_pop(h, s, true);
    push_end(h, s0, s1, n);
    if l != 0 { own_leaf(h, n.p); leaf_tree(h, n.p); }
    assert forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] #![trigger pl(h, s1, f, k)] k != g || l == 0 || !wants(f, g) implies pl(h, s1, f, k) == pl(h, s, f, k) by {
        assert(und(h, s).contains_key(k) || true);
        assert(look(und(h, s), k) == und2(h, s0, n, k));
        assert(und(h, s1).contains_key(k) || true);
        if cont(h, n).contains_key(k) { cont_pfx(h, n.p, k); }
    }
    if l != 0 && wants(f, g) {
        least_leaf(h, n.p);
        assert(look(und(h, s), g) == und2(h, s0, n, g));
        assert forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] pl(h, s, f, k) is Some implies k == g || up(true, g, k) by {
            assert(look(und(h, s), k) == und2(h, s0, n, k));
            assert(cont(h, n).contains_key(g));
            if cont(h, n).contains_key(k) { cont_pfx(h, n.p, k); if k != g { lt_ext(g, k); } } else { assert(und(h, s0).contains_key(k)); }
        }
        assert(pl(h, s1, f, g) is None) by {
            assert(und(h, s1).contains_key(g) || true);
            if und(h, s0).contains_key(g) { assert(cont(h, n).contains_key(g)); assert(up(true, g, g)); }
        }
    }
}
/// A leaf object was taken from the stack.
pub proof fn leaf_off(h: H, s: Seq<Node>, f: Flt, u: bool)
    requires s.len() > 0, tw(h, s, u), s.last().tag == Tag::Leaf,
    ensures wt(h, s.drop_last()) < wt(h, s), tw(h, s.drop_last(), u), ({
        let l = s.last().p;
        let s1 = s.drop_last();
        &&& kind_of(l) == Tag::Leaf && h.nodes.contains_key(l) && l != 0 && okl(h, l)
        &&& !wants(f, key_of(h, l)) ==> same_p(h, s, s1, f)
        &&& wants(f, key_of(h, l)) ==> next_p(h, s, s1, f, key_of(h, l), ent_of(h, l), u)
    }),
{
    let s0 = s.drop_last();
    let n = s.last();
    let g = key_of(h, n.p);
    stk_pop(h, s, u);
    tree_ok(h, n.p);
    ok_l(h, n.p);
    assert forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] #![trigger pl(h, s0, f, k)] k != g || !wants(f, g) implies pl(h, s0, f, k) == pl(h, s, f, k) by {
        assert(und(h, s).contains_key(k) || true);
        assert(look(und(h, s), k) == und2(h, s0, n, k));
        assert(cont(h, n).contains_key(k) <==> k == g);
    }
    assert(cont(h, n).contains_key(g));
    assert(look(und(h, s), g) == und2(h, s0, n, g));
    assert forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] wants(f, g) && pl(h, s, f, k) is Some implies k == g || up(u, g, k) by {
        assert(look(und(h, s), k) == und2(h, s0, n, k));
        if k != g { assert(!cont(h, n).contains_key(k)); assert(und(h, s0).contains_key(k)); }
    }
    assert(!und(h, s0).contains_key(g)) by { if und(h, s0).contains_key(g) { assert(up(u, g, g)); } }
}
/// The children of an inner node and its leaf were put on the stack, in descending order.
pub proof fn inner_down(h: H, s: Seq<Node>, s1: Seq<Node>, f: Flt)
    requires s.len() > 0, tw(h, s, false), inner(s.last().tag), pushed(h, s.drop_last(), s1, s.last(), 256, false),
    ensures wt(h, s1) < wt(h, s), same_p(h, s, s1, f),
{
    let s0 = s.drop_last();
    let n = s.last();
    stk_pop(h, s, false);
    push_end_r(h, s0, s1, n);
    assert forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] #![trigger pl(h, s1, f, k)] pl(h, s1, f, k) == pl(h, s, f, k) by {
        assert(und(h, s).contains_key(k) || true);
        assert(und(h, s1).contains_key(k) || true);
    }
}
/// A node was just taken off.
pub proof fn took_off(h: H, s: Seq<Node>, u: bool)
    requires s.len() > 0, tw(h, s, u),
    ensures entry(h, s.last()), tw(h, s.drop_last(), u), s.last().p != 0, h.nodes.contains_key(s.last().p),
        inner(s.last().tag) ==> popped(h, s.drop_last(), s.last(), u) && nwf(s.last().tag, h.nodes[s.last().p]) && (h.nodes[s.last().p].leaf != 0 ==> kind_of(h.nodes[s.last().p].leaf) == Tag::Leaf),
{
    stk_pop(h, s, u);
    tree_ok(h, s.last().p);
    if inner(s.last().tag) { fact_inner(h, s.last().p); if h.nodes[s.last().p].leaf != 0 { leaf_tree(h, s.last().p); } } else { ok_l(h, s.last().p); }
}

// ---- the iterator object ----

pub open spec fn it_stk(h: H, i: Ptr) -> Seq<Node> { ns(h, h.m_Iterator[i].stack) }
/// The stack, which is made when first needed.
pub open spec fn it_vst(h: H, i: Ptr) -> Seq<Node> {
    if h.m_Iterator[i].stack.arr == Arr::Nil && h.m_Iterator[i].node.tag != Tag::Nil { seq![h.m_Iterator[i].node] } else { it_stk(h, i) }
}
pub open spec fn it_flt(h: H, i: Ptr) -> Flt { Flt { p: bs(h, h.m_Iterator[i].path), back: false } }
pub open spec fn it_ok(h: H, i: Ptr, u: bool) -> bool {
    i != 0 && h.m_Iterator.contains_key(i) && sok(h, h.m_Iterator[i].stack, own_Iterator(i)) && pok(h, h.m_Iterator[i].path) && tw(h, it_vst(h, i), u)
}
/// Only this iterator changed, and neither its filter nor its start.
pub open spec fn it_fr(h0: H, h1: H, i: Ptr) -> bool {
    &&& h1 == (H { narr: h1.narr, bytes: h1.bytes, m_Iterator: h1.m_Iterator, ..h0 }) && nq(h0, h1, own_Iterator(i))
    &&& upd(h0.m_Iterator, h1.m_Iterator, i) && h1.m_Iterator[i] == (RIterator { stack: h1.m_Iterator[i].stack, ..h0.m_Iterator[i] })
}
pub proof fn path_same(h0: H, h1: H, s: Slice, o: Own)
    requires nq(h0, h1, o), pok(h0, s), h1.nodes == h0.nodes,
    ensures pok(h1, s), bs(h1, s) == bs(h0, s),
{ assert(bs(h1, s) =~= bs(h0, s)); }

pub open spec fn gave(h: H, s: Seq<Node>, s1: Seq<Node>, f: Flt, x: Seq<u8>, v: Val, u: bool) -> bool {
    match pl(h, s, f, x) { Some(e) => e.v == v && next_p(h, s, s1, f, x, e, u), None => false }
}
pub proof fn nq_refl(h: H, o: Own)
    ensures nq(h, h, o),
{ }
pub proof fn same_refl(h: H, s: Seq<Node>, f: Flt)
    ensures same_p(h, s, s, f),
{ }
/// A new stack with one node was stored.
pub proof fn st_one(h0: H, h2: H, r: Slice, n: Node, o: Own)
    requires r.off == 0, r.len == 1, swf(r), r.arr matches Arr::A(a) && !h0.narr.contains_key(a) && upd(h0.narr, h2.narr, a) && h2.narr.contains_key(a) && h2.narr[a].owner == o && h2.narr[a].data[0] == n,
        h2.bytes == h0.bytes,
    ensures nq(h0, h2, o), sok(h2, r, o), ns(h2, r) == seq![n],
{ assert(ns(h2, r) =~= seq![n]); }
/// What taking a node with leaf l (or none) off the stack did.
pub open spec fn did(h: H, v: Seq<Node>, s1: Seq<Node>, f: Flt, l: Ptr, u: bool) -> bool {
    if l == 0 || !wants(f, key_of(h, l)) { same_p(h, v, s1, f) } else { gave(h, v, s1, f, key_of(h, l), h.nodes[l].value, u) }
}
pub proof fn leaf_off2(h: H, v: Seq<Node>, s: Seq<Node>, f: Flt, u: bool)
    requires s.len() > 0, tw(h, s, u), s.last().tag == Tag::Leaf, same_p(h, v, s, f),
    ensures wt(h, s.drop_last()) < wt(h, s), tw(h, s.drop_last(), u), ({
        let l = s.last().p;
        &&& kind_of(l) == Tag::Leaf && h.nodes.contains_key(l) && l != 0 && key_in(h, l)
        &&& did(h, v, s.drop_last(), f, l, u)
    }),
{
    let l = s.last().p;
    leaf_off(h, s, f, u);
    if wants(f, key_of(h, l)) { same_next(h, v, s, s.drop_last(), f, key_of(h, l), ent_of(h, l), u); } else { same_trans(h, v, s, s.drop_last(), f); }
}
/// The key of the leaf is in memory.
pub open spec fn key_in(h: H, l: Ptr) -> bool { match h.nodes[l].key.arr { Arr::A(a) => h.bytes.contains_key(a), _ => false } }
pub proof fn inner_up2(h: H, v: Seq<Node>, s: Seq<Node>, s1: Seq<Node>, f: Flt)
    requires s.len() > 0, tw(h, s, true), inner(s.last().tag), pushed(h, s.drop_last(), s1, s.last(), 0, true), same_p(h, v, s, f),
    ensures wt(h, s1) < wt(h, s), tw(h, s1, true), did(h, v, s1, f, h.nodes[s.last().p].leaf, true), h.nodes[s.last().p].leaf != 0 ==> key_in(h, h.nodes[s.last().p].leaf),
{
    let l = h.nodes[s.last().p].leaf;
    inner_up(h, s, s1, f);
    if l != 0 { stk_pop(h, s, true); leaf_tree(h, s.last().p); tree_ok(h, l); ok_l(h, l); }
    if l != 0 && wants(f, key_of(h, l)) { same_next(h, v, s, s1, f, key_of(h, l), ent_of(h, l), true); } else { same_trans(h, v, s, s1, f); }
}
pub proof fn push_first(h: H, s0: Seq<Node>, n: Node)
    requires popped(h, s0, n, true), small(n.tag),
    ensures pushed(h, s0, s0, n, if h.nodes[n.p].numChildren == 0 { 0 } else { from_slot(h.nodes[n.p], h.nodes[n.p].numChildren as int) }, true), h.nodes[n.p].numChildren <= children_len(n.tag),
{
    fact_inner(h, n.p);
    push_start(h, s0, n, true);
    if h.nodes[n.p].numChildren == 0 {
        fact_inner(h, n.p);
        assert forall|d: u8| 0 <= d < 256 implies (#[trigger] kid_at(h, n.p, d)).tag == Tag::Nil by { slot_none(n.tag, h.nodes[n.p], d); }
        push_skip(h, s0, s0, n, 256, 0, true);
    }
}
pub proof fn push_slot(h: H, s0: Seq<Node>, s: Seq<Node>, n: Node, i: int)
    requires popped(h, s0, n, true), small(n.tag), 0 <= i < h.nodes[n.p].numChildren, pushed(h, s0, s, n, from_slot(h.nodes[n.p], i + 1), true),
    ensures pushed(h, s0, s.push(h.nodes[n.p].children[i]), n, if i == 0 { 0 } else { from_slot(h.nodes[n.p], i) }, true), h.nodes[n.p].children[i].tag != Tag::Nil,
{
    let c = h.nodes[n.p].keys[i];
    fact_inner(h, n.p);
    slot_gap(h, n.p, i);
    push_kid(h, s0, s, n, from_slot(h.nodes[n.p], i + 1), c, true);
    if i == 0 { push_skip(h, s0, s.push(kid_at(h, n.p, c)), n, c as int, 0, true); }
}
pub proof fn push_byte(h: H, s0: Seq<Node>, s: Seq<Node>, n: Node, b: int, u: bool)
    requires popped(h, s0, n, u), 0 <= b < 256, pushed(h, s0, s, n, if u { b + 1 } else { b }, u),
    ensures ({
        let y = kid_at(h, n.p, b as u8);
        pushed(h, s0, if y.tag == Tag::Nil { s } else { s.push(y) }, n, if u { b } else { b + 1 }, u)
    }), n.tag == Tag::N256 ==> kid_at(h, n.p, b as u8).tag == h.nodes[n.p].children[b].tag && (kid_at(h, n.p, b as u8).tag != Tag::Nil ==> kid_at(h, n.p, b as u8) == h.nodes[n.p].children[b]),
      n.tag == Tag::N48 ==> kid_at(h, n.p, b as u8) == (if h.nodes[n.p].keys[b] == 0 { nil_node() } else { h.nodes[n.p].children[h.nodes[n.p].keys[b] - 1] }),
      n.tag == Tag::N48 && h.nodes[n.p].keys[b] != 0 ==> h.nodes[n.p].keys[b] <= 48,
{
    let y = kid_at(h, n.p, b as u8);
    fact_inner(h, n.p);
    if y.tag == Tag::Nil { push_skip(h, s0, s, n, if u { b + 1 } else { b }, if u { b } else { b + 1 }, u); } else { push_kid(h, s0, s, n, if u { b + 1 } else { b }, b as u8, u); }
}

// ---- iterators from a lower bound on ----

pub open spec fn lb_stk(h: H, i: Ptr) -> Seq<Node> { ns(h, h.m_LowerBoundIterator[i].stack) }
pub open spec fn lb_vst(h: H, i: Ptr) -> Seq<Node> { lb_stk(h, i) }
pub open spec fn lb_flt(h: H, i: Ptr) -> Flt { Flt { p: Seq::empty(), back: false } }
pub open spec fn lb_ok(h: H, i: Ptr, u: bool) -> bool {
    i != 0 && h.m_LowerBoundIterator.contains_key(i) && sok(h, h.m_LowerBoundIterator[i].stack, own_LowerBoundIterator(i)) && pok(h, h.m_LowerBoundIterator[i].path) && tw(h, lb_stk(h, i), u)
}
pub open spec fn lb_fr(h0: H, h1: H, i: Ptr) -> bool {
    &&& h1 == (H { narr: h1.narr, bytes: h1.bytes, m_LowerBoundIterator: h1.m_LowerBoundIterator, ..h0 }) && nq(h0, h1, own_LowerBoundIterator(i))
    &&& upd(h0.m_LowerBoundIterator, h1.m_LowerBoundIterator, i) && h1.m_LowerBoundIterator[i] == (RLowerBoundIterator { stack: h1.m_LowerBoundIterator[i].stack, ..h0.m_LowerBoundIterator[i] })
}

// ---- descending ----

pub proof fn leaf_start(h: H, s0: Seq<Node>, n: Node)
    requires popped(h, s0, n, false),
    ensures pushed(h, s0, if h.nodes[n.p].leaf == 0 { s0 } else { s0.push(Node { tag: Tag::Leaf, p: h.nodes[n.p].leaf }) }, n, 0, false), small(n.tag) ==> h.nodes[n.p].numChildren <= children_len(n.tag),
{
    fact_inner(h, n.p);
    if h.nodes[n.p].leaf == 0 { push_start(h, s0, n, false); } else { push_leaf(h, s0, n); }
}
pub open spec fn to_slot(r: Rec, i: int) -> int { if r.numChildren <= i { 256 } else if i <= 0 { 0 } else { r.keys[i - 1] + 1 } }
pub proof fn push_first_r(h: H, s0: Seq<Node>, s: Seq<Node>, n: Node)
    requires popped(h, s0, n, false), small(n.tag), pushed(h, s0, s, n, 0, false),
    ensures pushed(h, s0, s, n, to_slot(h.nodes[n.p], 0), false),
{
    if h.nodes[n.p].numChildren == 0 {
        fact_inner(h, n.p);
        assert forall|d: u8| 0 <= d < 256 implies (#[trigger] kid_at(h, n.p, d)).tag == Tag::Nil by { slot_none(n.tag, h.nodes[n.p], d); }
        push_skip(h, s0, s, n, 0, 256, false);
    }
}
pub proof fn push_slot_r(h: H, s0: Seq<Node>, s: Seq<Node>, n: Node, i: int)
    requires popped(h, s0, n, false), small(n.tag), 0 <= i < h.nodes[n.p].numChildren, pushed(h, s0, s, n, to_slot(h.nodes[n.p], i), false),
    ensures pushed(h, s0, s.push(h.nodes[n.p].children[i]), n, to_slot(h.nodes[n.p], i + 1), false),
{
    let r = h.nodes[n.p];
    let c = r.keys[i];
    fact_inner(h, n.p);
    slot_gap(h, n.p, i);
    if i > 0 { slot_gap(h, n.p, i - 1); }
    push_kid(h, s0, s, n, to_slot(r, i), c, false);
    if i + 1 == r.numChildren { push_skip(h, s0, s.push(kid_at(h, n.p, c)), n, c + 1, 256, false); }
}
pub proof fn inner_down2(h: H, v: Seq<Node>, s: Seq<Node>, s1: Seq<Node>, f: Flt)
    requires s.len() > 0, tw(h, s, false), inner(s.last().tag), pushed(h, s.drop_last(), s1, s.last(), 256, false), same_p(h, v, s, f),
    ensures wt(h, s1) < wt(h, s), tw(h, s1, false), same_p(h, v, s1, f),
{
    inner_down(h, s, s1, f);
    same_trans(h, v, s, s1, f);
}
