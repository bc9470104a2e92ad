// Seeking.

/// The keys from q on (up to q).
pub open spec fn within(q: Seq<u8>, u: bool, k: Seq<u8>) -> bool { if u { le(q, k) } else { le(k, q) } }
pub open spec fn tgt(m: Map<Seq<u8>, Ent>, q: Seq<u8>, u: bool, k: Seq<u8>) -> Option<Ent> { if within(q, u, k) { look(m, k) } else { None } }
pub open spec fn tgt2(h: H, m: Map<Seq<u8>, Ent>, q: Seq<u8>, s: Seq<Node>, n: Node, u: bool, k: Seq<u8>) -> bool {
    tgt(m, q, u, k) == if n.tag != Tag::Nil && cont(h, n).contains_key(k) { tgt(cont(h, n), q, u, k) } else { look(und(h, s), k) }
}
/// What is wanted is on the stack or below node n.
pub open spec fn seeking(h: H, m: Map<Seq<u8>, Ent>, q: Seq<u8>, s: Seq<Node>, n: Node, u: bool) -> bool {
    &&& tw(h, s, u)
    &&& n.tag == Tag::Nil || (itree(h, n) && pfx(h.gh[n.p].sp, q) && ahead(u, cont(h, n), und(h, s)))
    &&& forall|k: Seq<u8>| #![trigger und(h, s).contains_key(k)] tgt2(h, m, q, s, n, u, k)
}
pub open spec fn sought(h: H, m: Map<Seq<u8>, Ent>, q: Seq<u8>, s: Seq<Node>, u: bool) -> bool {
    tw(h, s, u) && forall|k: Seq<u8>| #![trigger und(h, s).contains_key(k)] look(und(h, s), k) == tgt(m, q, u, k)
}
pub proof fn lt_not(a: Seq<u8>, b: Seq<u8>)
    requires lt(a, b),
    ensures !lt(b, a), a != b, !le(b, a),
{
    let i = choose|i: int| lt_at(a, b, i);
    if lt(b, a) {
        let j = choose|j: int| lt_at(b, a, j);
        if j < i { assert(a[j] == b[j]); } else if i < j { assert(a[i] == b[i]); }
    }
}
/// Comparing the path of a node with the start of the key decides for all keys below it.
pub proof fn cut_cmp(g: Seq<u8>, q: Seq<u8>, k: Seq<u8>)
    requires pfx(g, k),
    ensures ({
        let c = q.subrange(0, imin(g.len() as int, q.len() as int));
        &&& lt(g, c) ==> lt(k, q)
        &&& lt(c, g) ==> lt(q, k)
        &&& g == c ==> pfx(g, q)
    }),
{
    let c = q.subrange(0, imin(g.len() as int, q.len() as int));
    assert forall|j: int| 0 <= j < c.len() implies c[j] == q[j] by { }
    if lt(g, c) {
        let i = choose|i: int| lt_at(g, c, i);
        assert forall|j: int| 0 <= j < i implies #[trigger] k[j] == #[trigger] q[j] by { assert(g[j] == k[j]); assert(g[j] == c[j]); }
        assert(g[i] == k[i]);
        assert(lt_at(k, q, i));
    }
    if lt(c, g) {
        let i = choose|i: int| lt_at(c, g, i);
        assert forall|j: int| 0 <= j < i implies #[trigger] q[j] == #[trigger] k[j] by { assert(g[j] == k[j]); assert(c[j] == g[j]); }
        assert(g[i] == k[i]);
        assert(lt_at(q, k, i));
    }
}
pub proof fn seek_begin(h: H, n: Node, q: Seq<u8>, u: bool)
    requires n.tag == Tag::Nil || (itree(h, n) && h.gh[n.p].sp.len() == 0),
    ensures seeking(h, if n.tag == Tag::Nil { Map::empty() } else { cont(h, n) }, q, Seq::empty(), n, u),
{ stk_none(h, u); }
pub proof fn seek_all(h: H, m: Map<Seq<u8>, Ent>, q: Seq<u8>, s: Seq<Node>, n: Node, u: bool)
    requires seeking(h, m, q, s, n, u), n.tag != Tag::Nil, forall|k: Seq<u8>| #[trigger] cont(h, n).contains_key(k) ==> within(q, u, k),
    ensures sought(h, m, q, s.push(n), u),
{
    let s1 = s.push(n);
    stk_push(h, s, n, u);
    assert forall|k: Seq<u8>| #![trigger und(h, s1).contains_key(k)] look(und(h, s1), k) == tgt(m, q, u, k) by {
        assert(look(und(h, s1), k) == und2(h, s, n, k));
        assert(und(h, s).contains_key(k) || true);
        assert(tgt2(h, m, q, s, n, u, k));
    }
}
pub proof fn seek_zero(h: H, m: Map<Seq<u8>, Ent>, q: Seq<u8>, s: Seq<Node>, n: Node, u: bool)
    requires seeking(h, m, q, s, n, u), n.tag != Tag::Nil ==> forall|k: Seq<u8>| #[trigger] cont(h, n).contains_key(k) ==> !within(q, u, k),
    ensures sought(h, m, q, s, u),
{
    assert forall|k: Seq<u8>| #![trigger und(h, s).contains_key(k)] look(und(h, s), k) == tgt(m, q, u, k) by {
        assert(tgt2(h, m, q, s, n, u, k));
        if n.tag != Tag::Nil && cont(h, n).contains_key(k) && und(h, s).contains_key(k) { assert(up(u, k, k)); }
    }
}
/// The path of the node does not lead on to q: none or all of its keys are wanted.
pub proof fn seek_part(h: H, m: Map<Seq<u8>, Ent>, q: Seq<u8>, s: Seq<Node>, n: Node, u: bool)
    requires seeking(h, m, q, s, n, u), n.tag != Tag::Nil,
    ensures ({
        let g = h.gh[n.p].gp;
        let c = q.subrange(0, imin(g.len() as int, q.len() as int));
        &&& lt(g, c) ==> sought(h, m, q, if u { s } else { s.push(n) }, u)
        &&& lt(c, g) ==> sought(h, m, q, if u { s.push(n) } else { s }, u)
        &&& g == c ==> pfx(g, q)
        &&& g == c && g.len() == q.len() ==> g == q && (u ==> sought(h, m, q, s.push(n), u))
    }),
{
    let g = h.gh[n.p].gp;
    let c = q.subrange(0, imin(g.len() as int, q.len() as int));
    assert(pfx(g, g));
    cut_cmp(g, q, g);
    if g == c && g.len() == q.len() { assert(c =~= q); }
    if lt(g, c) {
        assert forall|k: Seq<u8>| #[trigger] cont(h, n).contains_key(k) implies within(q, u, k) == !u by { cont_pfx(h, n.p, k); cut_cmp(g, q, k); lt_not(k, q); }
        if u { seek_zero(h, m, q, s, n, u); } else { seek_all(h, m, q, s, n, u); }
    }
    if lt(c, g) {
        assert forall|k: Seq<u8>| #[trigger] cont(h, n).contains_key(k) implies within(q, u, k) == u by { cont_pfx(h, n.p, k); cut_cmp(g, q, k); lt_not(q, k); }
        if u { seek_all(h, m, q, s, n, u); } else { seek_zero(h, m, q, s, n, u); }
    }
    if g == c && g.len() == q.len() && u {
        assert forall|k: Seq<u8>| #[trigger] cont(h, n).contains_key(k) implies within(q, u, k) by { cont_pfx(h, n.p, k); if k.len() > g.len() { lt_ext(g, k); } else { assert(k =~= g); } }
        seek_all(h, m, q, s, n, u);
    }
}
/// A node that only holds a leaf.
pub proof fn seek_leaf(h: H, m: Map<Seq<u8>, Ent>, q: Seq<u8>, s: Seq<Node>, n: Node, u: bool)
    requires seeking(h, m, q, s, n, u), n.tag != Tag::Nil, h.nodes[n.p].numChildren == 0, h.nodes[n.p].leaf != 0,
    ensures within(q, u, h.gh[n.p].gp) ==> sought(h, m, q, s.push(n), u), !within(q, u, h.gh[n.p].gp) ==> sought(h, m, q, s, u),
{
    cont_none(h, n.p);
    if within(q, u, h.gh[n.p].gp) { seek_all(h, m, q, s, n, u); } else { seek_zero(h, m, q, s, n, u); }
}
/// The siblings were put on the stack; on to the child.
pub proof fn seek_step(h: H, m: Map<Seq<u8>, Ent>, q: Seq<u8>, s: Seq<Node>, s1: Seq<Node>, n: Node, u: bool)
    requires seeking(h, m, q, s, n, u), n.tag != Tag::Nil, pfx(h.gh[n.p].gp, q), q.len() > h.gh[n.p].gp.len(),
        pushed(h, s, s1, n, if u { q[h.gh[n.p].gp.len() as int] + 1 } else { q[h.gh[n.p].gp.len() as int] as int }, u),
    ensures ({
        let y = kid_at(h, n.p, q[h.gh[n.p].gp.len() as int]);
        seeking(h, m, q, s1, y, u) && (y.tag != Tag::Nil ==> depth_left(h, y) < depth_left(h, n) && h.gh[y.p].sp.len() == h.gh[n.p].gp.len() + 1)
    }),
{
    let g = h.gh[n.p].gp;
    let c = q[g.len() as int];
    let y = kid_at(h, n.p, c);
    let b = if u { c + 1 } else { c as int };
    fact_inner(h, n.p);
    if y.tag != Tag::Nil {
        kid_tree(h, n.p, c);
        assert(pfx(h.gh[y.p].sp, q)) by { assert forall|i: int| 0 <= i < g.len() + 1 implies #[trigger] g.push(c)[i] == #[trigger] q[i] by { if i < g.len() { assert(g[i] == q[i]); } } }
        assert forall|a: Seq<u8>, k: Seq<u8>| #[trigger] cont(h, y).contains_key(a) && #[trigger] und(h, s1).contains_key(k) implies up(u, a, k) by {
            kid_in(h, n.p, c, a);
            assert(look(und(h, s1), k) == und3(h, s, n.p, b, u, k));
            if took(h, n.p, k, b, u) {
                cont_pfx(h, n.p, k);
                if k == g { lt_ext(g, a); } else if u { lt_div(g, a, k); } else { lt_div(g, k, a); }
            } else { assert(und(h, s).contains_key(k)); }
        }
    }
    lt_ext(g, q);
    lt_not(g, q);
    assert forall|k: Seq<u8>| #![trigger und(h, s1).contains_key(k)] tgt2(h, m, q, s1, y, u, k) by {
        assert(look(und(h, s1), k) == und3(h, s, n.p, b, u, k));
        assert(und(h, s).contains_key(k) || true);
        assert(tgt2(h, m, q, s, n, u, k));
        if y.tag != Tag::Nil && cont(h, y).contains_key(k) { kid_in(h, n.p, c, k); }
        else if cont(h, n).contains_key(k) {
            if und(h, s).contains_key(k) { assert(up(u, k, k)); }
            cont_pfx(h, n.p, k);
            if k != g {
                let d = k[g.len() as int];
                if d < c { lt_div(g, k, q); lt_not(k, q); } else if d > c { lt_div(g, q, k); lt_not(q, k); }
            }
        }
    }
}
/// The node's own leaf is the last one wanted.
pub proof fn seek_own(h: H, m: Map<Seq<u8>, Ent>, q: Seq<u8>, s: Seq<Node>, s1: Seq<Node>, n: Node)
    requires seeking(h, m, q, s, n, false), n.tag != Tag::Nil, h.gh[n.p].gp == q, pushed(h, s, s1, n, 0, false),
    ensures sought(h, m, q, s1, false),
{
    fact_inner(h, n.p);
    assert forall|k: Seq<u8>| #![trigger und(h, s1).contains_key(k)] look(und(h, s1), k) == tgt(m, q, false, k) by {
        assert(look(und(h, s1), k) == und3(h, s, n.p, 0, false, k));
        assert(und(h, s).contains_key(k) || true);
        assert(tgt2(h, m, q, s, n, false, k));
        if cont(h, n).contains_key(k) {
            if und(h, s).contains_key(k) { assert(up(false, k, k)); }
            cont_pfx(h, n.p, k);
            if k != q { lt_ext(q, k); lt_not(q, k); }
        }
    }
}
/// What the next calls give is what is wanted.
pub open spec fn due(h: H, s: Seq<Node>, f: Flt, m: Map<Seq<u8>, Ent>, q: Seq<u8>, u: bool) -> bool {
    forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] pl(h, s, f, k) == tgt(m, q, u, k)
}
pub open spec fn below_n(h: H, n: Node) -> Map<Seq<u8>, Ent> { if n.tag == Tag::Nil { Map::empty() } else { cont(h, n) } }
/// The start is the root of a tree, or there is none.
pub open spec fn fresh_at(h: H, n: Node) -> bool { n.tag == Tag::Nil || (itree(h, n) && h.gh[n.p].sp.len() == 0) }
pub proof fn sought_due(h0: H, h1: H, m: Map<Seq<u8>, Ent>, q: Seq<u8>, s: Seq<Node>, u: bool, f: Flt)
    requires sought(h0, m, q, s, u), calm(h0, h1), f.p.len() == 0, !f.back,
    ensures due(h1, s, f, m, q, u), tw(h1, s, u),
{
    stk_calm(h0, h1, s, u);
    assert forall|k: Seq<u8>| #![trigger pl(h1, s, f, k)] pl(h1, s, f, k) == tgt(m, q, u, k) by { assert(und(h0, s).contains_key(k) || true); }
}
pub proof fn cut_bs(h: H, s: Slice, e: int)
    requires swf(s), 0 <= e <= s.len,
    ensures bs(h, Slice { arr: s.arr, off: (s.off + 0) as i64, len: (e - 0) as i64, cap: (s.cap - 0) as i64 }) == bs(h, s).subrange(0, e),
{ assert(bs(h, Slice { arr: s.arr, off: (s.off + 0) as i64, len: (e - 0) as i64, cap: (s.cap - 0) as i64 }) =~= bs(h, s).subrange(0, e)); }
pub proof fn pfx_cut(g: Seq<u8>, k: Seq<u8>)
    requires pfx(g, k),
    ensures k.subrange(0, g.len() as int) == g,
{ assert(k.subrange(0, g.len() as int) =~= g); }
pub open spec fn lb_mv(h0: H, h1: H, i: Ptr) -> bool {
    &&& h1 == (H { narr: h1.narr, bytes: h1.bytes, m_LowerBoundIterator: h1.m_LowerBoundIterator, ..h0 }) && nq(h0, h1, own_LowerBoundIterator(i))
    &&& upd(h0.m_LowerBoundIterator, h1.m_LowerBoundIterator, i) && h1.m_LowerBoundIterator[i] == (RLowerBoundIterator { stack: h1.m_LowerBoundIterator[i].stack, path: h1.m_LowerBoundIterator[i].path, ..h0.m_LowerBoundIterator[i] })
}
pub open spec fn it_mv(h0: H, h1: H, i: Ptr) -> bool {
    &&& h1 == (H { narr: h1.narr, bytes: h1.bytes, m_Iterator: h1.m_Iterator, ..h0 }) && nq(h0, h1, own_Iterator(i))
    &&& upd(h0.m_Iterator, h1.m_Iterator, i)
}

// ---- keys with a prefix ----

pub open spec fn to_pfx(h: H, s: Seq<Node>, f: Flt, m: Map<Seq<u8>, Ent>, q: Seq<u8>) -> bool {
    forall|k: Seq<u8>| #![trigger pl(h, s, f, k)] pl(h, s, f, k) == if pfx(q, k) { look(m, k) } else { None }
}
pub open spec fn alike(h: H, n: Node, m: Map<Seq<u8>, Ent>, q: Seq<u8>) -> bool {
    forall|k: Seq<u8>| #![trigger cont(h, n).contains_key(k)] #![trigger m.contains_key(k)] pfx(q, k) ==> look(cont(h, n), k) == look(m, k)
}
pub proof fn pfx_here(h0: H, h1: H, n: Node, f: Flt, m: Map<Seq<u8>, Ent>, q: Seq<u8>)
    requires calm(h0, h1), entry(h1, n), f.p == q, !f.back, alike(h0, n, m, q),
    ensures to_pfx(h1, seq![n], f, m, q),
{
    stk_one(h1, n, true);
    assert forall|k: Seq<u8>| #![trigger pl(h1, seq![n], f, k)] pl(h1, seq![n], f, k) == (if pfx(q, k) { look(m, k) } else { None }) by { assert(cont(h0, n).contains_key(k) || true); assert(cont(h0, n) == cont(h1, n)); }
}
/// What comparing the prefix of a node says.
pub proof fn walk_pre(h: H, p: Ptr, q: Seq<u8>, r: int)
    requires tree(h, p), inner(kind_of(p)), pfx(h.gh[p].sp, q), h.nodes[p].numChildren > 0, 0 <= r, h.gh[p].sp.len() + r <= q.len(),
        forall|i: int| 0 <= i < r && i < h.nodes[p].partialLen ==> #[trigger] h.gh[p].gp[h.gh[p].sp.len() + i] == q[h.gh[p].sp.len() + i],
        r < h.nodes[p].partialLen && h.gh[p].sp.len() + r < q.len() ==> h.gh[p].gp[h.gh[p].sp.len() + r] != q[h.gh[p].sp.len() + r],
    ensures r < h.nodes[p].partialLen <==> !pfx(h.gh[p].gp, q),
{
    let g = h.gh[p].gp;
    let d = h.gh[p].sp.len() as int;
    fact_inner(h, p);
    if r >= h.nodes[p].partialLen {
        assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] == #[trigger] q[i] by {
            if i < d { assert(h.gh[p].sp[i] == q[i]); assert(h.gh[p].sp[i] == g[i]); } else { assert(g[d + (i - d)] == q[d + (i - d)]); }
        }
    } else if pfx(g, q) { assert(g[d + r] == q[d + r]); }
}
pub proof fn down_pre(h: H, p: Ptr, q: Seq<u8>, m: Map<Seq<u8>, Ent>)
    requires tree(h, p), inner(kind_of(p)), pfx(h.gh[p].gp, q), q.len() > h.gh[p].gp.len(), kid_at(h, p, q[h.gh[p].gp.len() as int]).tag != Tag::Nil, alike(h, Node { tag: kind_of(p), p }, m, q),
    ensures ({
        let y = kid_at(h, p, q[h.gh[p].gp.len() as int]);
        &&& itree(h, y) && alike(h, y, m, q) && pfx(h.gh[y.p].sp, q) && h.gh[y.p].sp.len() == h.gh[p].gp.len() + 1
        &&& (h.gh[p].wc)(q) == (h.gh[y.p].wc)(q) && depth_left(h, y) < depth_left(h, Node { tag: kind_of(p), p })
    }),
{
    let g = h.gh[p].gp;
    let c = q[g.len() as int];
    let y = kid_at(h, p, c);
    let n = Node { tag: kind_of(p), p };
    fact_inner(h, p);
    kid_tree(h, p, c);
    wc_fact(h, p, q);
    assert(rt(h, p, q));
    assert forall|i: int| 0 <= i < g.len() + 1 implies #[trigger] g.push(c)[i] == #[trigger] q[i] by { if i < g.len() { assert(g[i] == q[i]); } }
    assert forall|k: Seq<u8>| #![trigger cont(h, y).contains_key(k)] #![trigger m.contains_key(k)] pfx(q, k) implies look(cont(h, y), k) == look(m, k) by {
        assert(cont(h, n).contains_key(k) || true);
        assert(q[g.len() as int] == k[g.len() as int]);
        step_in(h, p, k);
    }
}
pub proof fn bs_same(h0: H, h1: H, s: Slice)
    requires h1.bytes == h0.bytes, h1.nodes == h0.nodes,
    ensures bs(h1, s) == bs(h0, s),
{ assert(bs(h1, s) =~= bs(h0, s)); }
