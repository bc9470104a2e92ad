// Trees: what every node in use satisfies.

pub open spec fn live(h: H, p: Ptr) -> bool { h.gh.contains_key(p) }
pub open spec fn kid_at(h: H, p: Ptr, c: u8) -> Node { kid(kind_of(p), h.nodes[p], c) }
pub open spec fn look<V>(m: Map<Seq<u8>, V>, k: Seq<u8>) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn leafown(o: Own) -> bool { o.k == 1 && kind_of(o.p) == Tag::Leaf }
pub open spec fn some_key(m: Map<Seq<u8>, Ent>) -> bool { exists|k: Seq<u8>| m.contains_key(k) }

/// A leaf object holds its key in an array that only leaves refer to.
pub open spec fn okl(h: H, p: Ptr) -> bool {
    let r = h.nodes[p];
    let g = h.gh[p];
    &&& match r.key.arr { Arr::A(a) => h.bytes.contains_key(a) && leafown(h.bytes[a].owner), _ => false }
    &&& 0 <= r.key.len && bs(h, r.key) == g.sp && g.gp == g.sp && g.sp.len() < 0x1_0000_0000
    &&& (forall|k: Seq<u8>| #[trigger] g.cont.contains_key(k) <==> k == g.sp)
    &&& g.cont[g.sp] == (Ent { v: r.value, ch: r.ch })
    &&& r.id <= g.mx
    &&& (g.own != 0 ==> g.lo < r.id && forall|x: Ptr| #[trigger] g.sub.contains(x) <==> x == p)
    &&& r.ch != 0 && h.chans.contains(r.ch) && h.gx.lk.contains_key(r.ch) && h.gx.lk[r.ch] == g.sp
}
/// How a node relates to a node below it.
pub open spec fn shr(h: H, p: Ptr, y: Ptr) -> bool {
    let g = h.gh[p];
    let k = h.gh[y];
    &&& live(h, y) && k.mx <= g.mx
    &&& if k.own == 0 { g.own != 0 ==> k.mx <= g.lo } else { k.own == g.own && k.lo == g.lo && k.sub.contains(y) && k.sub.subset_of(g.sub) }
}
/// The child below which the key belongs exists.
pub open spec fn rt(h: H, p: Ptr, k: Seq<u8>) -> bool {
    let g = h.gh[p];
    pfx(g.gp, k) && k.len() > g.gp.len() && kid_at(h, p, k[g.gp.len() as int]).tag != Tag::Nil
}
pub open spec fn nxt(h: H, p: Ptr, k: Seq<u8>) -> Ptr { kid_at(h, p, k[h.gh[p].gp.len() as int]).p }
/// The entry for a key, from the node's own fields and the children.
pub open spec fn look_at(h: H, p: Ptr, k: Seq<u8>) -> Option<Ent> {
    let r = h.nodes[p];
    let g = h.gh[p];
    if r.leaf != 0 && k == g.gp { Some(h.gh[r.leaf].cont[k]) }
    else if rt(h, p, k) { look(h.gh[nxt(h, p, k)].cont, k) }
    else { None }
}
pub open spec fn wc_at(h: H, p: Ptr, q: Seq<u8>) -> Chan {
    if rt(h, p, q) { (h.gh[nxt(h, p, q)].wc)(q) } else { h.nodes[p].ch }
}
pub open spec fn kid_has(h: H, p: Ptr, c: u8, x: Ptr) -> bool {
    let y = kid_at(h, p, c);
    y.tag != Tag::Nil && h.gh[y.p].own != 0 && h.gh[y.p].sub.contains(x)
}
pub open spec fn sub_at(h: H, p: Ptr, x: Ptr) -> bool {
    let l = h.nodes[p].leaf;
    x == p || (l != 0 && h.gh[l].own != 0 && x == l) || exists|c: u8| #[trigger] kid_has(h, p, c, x)
}

pub open spec fn ok_head(h: H, p: Ptr) -> bool {
    let r = h.nodes[p];
    let g = h.gh[p];
    &&& nwf(kind_of(p), r)
    &&& r.ch != 0 && h.chans.contains(r.ch) && !h.gx.lk.contains_key(r.ch)
    &&& r.id <= g.mx
    &&& (g.own != 0 ==> g.lo < r.id)
    &&& (own_pre(h, p) || (r.partial == nil_slice() && r.numChildren == 0 && r.leaf == 0 && g.own == 0))
    &&& pfx(g.sp, g.gp) && g.gp.len() < 0x1_0000_0000
    &&& (r.numChildren == 0 && r.leaf == 0 ==> kind_of(p) == Tag::N4 && r.partialLen == 0)
}
pub open spec fn ok_pre(h: H, p: Ptr) -> bool {
    let r = h.nodes[p];
    let g = h.gh[p];
    r.numChildren > 0 ==> g.gp.len() == g.sp.len() + r.partialLen
        && forall|i: int| 0 <= i < stored(r.partialLen) ==> #[trigger] bs_at(h, r.partial, i) == g.gp[g.sp.len() + i]
}
pub open spec fn ok_leaf(h: H, p: Ptr) -> bool {
    let l = h.nodes[p].leaf;
    l != 0 ==> kind_of(l) == Tag::Leaf && h.gh[l].sp == h.gh[p].gp && shr(h, p, l)
}
pub open spec fn ok_kid(h: H, p: Ptr, c: u8) -> bool {
    let y = kid_at(h, p, c);
    y.tag != Tag::Nil ==> inner(y.tag) && kind_of(y.p) == y.tag && h.gh[y.p].sp == h.gh[p].gp.push(c) && some_key(h.gh[y.p].cont) && shr(h, p, y.p)
}
pub open spec fn ok_kids(h: H, p: Ptr) -> bool { forall|c: u8| #![trigger kid_at(h, p, c)] ok_kid(h, p, c) }
pub open spec fn ok_cont(h: H, p: Ptr) -> bool {
    forall|k: Seq<u8>| #![trigger h.gh[p].cont.contains_key(k)] #![trigger rt(h, p, k)] look(h.gh[p].cont, k) == look_at(h, p, k)
}
pub open spec fn ok_wc(h: H, p: Ptr) -> bool { forall|q: Seq<u8>| #![trigger (h.gh[p].wc)(q)] (h.gh[p].wc)(q) == wc_at(h, p, q) }
/// The owned nodes below an owned node.
pub open spec fn ok_sub(h: H, p: Ptr) -> bool {
    h.gh[p].own != 0 ==> h.gh[p].sub.contains(p)
        && forall|x: Ptr| #![trigger h.gh[p].sub.contains(x)] (h.gh[p].sub.contains(x) <==> sub_at(h, p, x)) && (h.gh[p].sub.contains(x) ==> in_sub(h, p, x))
}
pub open spec fn in_sub(h: H, p: Ptr, x: Ptr) -> bool {
    live(h, x) && h.gh[x].own == h.gh[p].own && h.gh[x].lo == h.gh[p].lo && h.gh[x].sub.subset_of(h.gh[p].sub) && pfx(h.gh[p].sp, h.gh[x].sp)
}
pub open spec fn oki(h: H, p: Ptr) -> bool {
    ok_head(h, p) && ok_pre(h, p) && ok_leaf(h, p) && ok_kids(h, p) && ok_cont(h, p) && ok_wc(h, p) && ok_sub(h, p)
}
#[verifier::opaque]
pub open spec fn ok(h: H, p: Ptr) -> bool {
    p != 0 && live(h, p) && h.nodes.contains_key(p) && if kind_of(p) == Tag::Leaf { okl(h, p) } else { inner(kind_of(p)) && oki(h, p) }
}

pub proof fn ok_i(h: H, p: Ptr)
    requires ok(h, p), inner(kind_of(p)),
    ensures oki(h, p), p != 0, live(h, p), h.nodes.contains_key(p),
{ reveal(ok); }
pub proof fn ok_l(h: H, p: Ptr)
    requires ok(h, p), kind_of(p) == Tag::Leaf,
    ensures okl(h, p), p != 0, live(h, p), h.nodes.contains_key(p),
{ reveal(ok); }

pub open spec fn lks(h: H) -> bool { forall|c: Chan| #[trigger] h.gx.lk.contains_key(c) ==> h.chans.contains(c) }
/// Every shared node is in order.
pub open spec fn shared(h: H) -> bool {
    lks(h) && forall|x: Ptr| #![trigger h.gh[x]] #![trigger h.gh.contains_key(x)] h.gh.contains_key(x) ==> h.nodes.contains_key(x) && (h.gh[x].own == 0 ==> ok(h, x))
}
/// An owned node and the owned nodes below it are in order.
#[verifier::opaque]
pub open spec fn good(h: H, p: Ptr) -> bool {
    h.gh[p].own != 0 && h.gh[p].sub.contains(p) && forall|x: Ptr| #![trigger h.gh[p].sub.contains(x)] h.gh[p].sub.contains(x) ==> ok(h, x)
}
/// The tree from the node down is in order.
pub open spec fn tree(h: H, p: Ptr) -> bool {
    live(h, p) && shared(h) && (h.gh[p].own != 0 ==> good(h, p))
}
pub open spec fn itree(h: H, n: Node) -> bool { inner(n.tag) && kind_of(n.p) == n.tag && tree(h, n.p) }

pub proof fn tree_ok(h: H, p: Ptr)
    requires tree(h, p),
    ensures ok(h, p),
{ reveal(good); }
/// A node below a node in order.
pub proof fn below(h: H, p: Ptr, y: Ptr)
    requires tree(h, p), shr(h, p, y),
    ensures tree(h, y),
{ reveal(good); }
pub proof fn kid_tree(h: H, p: Ptr, c: u8)
    requires tree(h, p), inner(kind_of(p)), kid_at(h, p, c).tag != Tag::Nil,
    ensures itree(h, kid_at(h, p, c)), h.gh[kid_at(h, p, c).p].sp == h.gh[p].gp.push(c),
{
    tree_ok(h, p);
    ok_i(h, p);
    below(h, p, kid_at(h, p, c).p);
}
pub proof fn leaf_tree(h: H, p: Ptr)
    requires tree(h, p), inner(kind_of(p)), h.nodes[p].leaf != 0,
    ensures tree(h, h.nodes[p].leaf), kind_of(h.nodes[p].leaf) == Tag::Leaf, h.gh[h.nodes[p].leaf].sp == h.gh[p].gp,
{
    tree_ok(h, p);
    ok_i(h, p);
    below(h, p, h.nodes[p].leaf);
}

pub proof fn pfx_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires pfx(a, b), pfx(b, c),
    ensures pfx(a, c),
{ assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == #[trigger] c[i] by { assert(a[i] == b[i]); assert(b[i] == c[i]); } }

// ---- frames ----

pub open spec fn oc(o0: Own, o1: Own) -> bool { o1 == o0 || ((o0 == nobody() || leafown(o0)) && leafown(o1)) }
/// Apart from the nodes in s nothing that trees consist of changed.
#[verifier::opaque]
pub open spec fn fr(h0: H, h1: H, s: Set<Ptr>) -> bool {
    &&& forall|x: Ptr| #![trigger h1.nodes[x]] #![trigger h1.nodes.contains_key(x)] h0.nodes.contains_key(x) ==> h1.nodes.contains_key(x) && (!s.contains(x) ==> h1.nodes[x] == h0.nodes[x])
    &&& forall|x: Ptr| #![trigger h1.gh[x]] #![trigger h1.gh.contains_key(x)] h0.gh.contains_key(x) && !s.contains(x) ==> h1.gh.contains_key(x) && h1.gh[x] == h0.gh[x]
    &&& forall|a: u64| #![trigger h1.bytes[a]] #![trigger h1.bytes.contains_key(a)] h0.bytes.contains_key(a) ==> h1.bytes.contains_key(a) && oc(h0.bytes[a].owner, h1.bytes[a].owner)
            && (!(h0.bytes[a].owner.k == 1 && kind_of(h0.bytes[a].owner.p) != Tag::Leaf && s.contains(h0.bytes[a].owner.p)) ==> h1.bytes[a].data == h0.bytes[a].data)
    &&& forall|c: Chan| #![trigger h1.chans.contains(c)] #![trigger h1.gx.lk.contains_key(c)] h0.chans.contains(c) ==> h1.chans.contains(c) && h1.gx.lk.contains_key(c) == h0.gx.lk.contains_key(c) && h1.gx.lk[c] == h0.gx.lk[c]
}
pub proof fn ok_frame(h0: H, h1: H, s: Set<Ptr>, p: Ptr)
    requires fr(h0, h1, s), ok(h0, p), !s.contains(p),
        forall|x: Ptr| #[trigger] s.contains(x) && live(h0, x) ==> h0.gh[x].own != 0,
        h0.gh[p].own != 0 ==> forall|x: Ptr| #[trigger] s.contains(x) ==> !h0.gh[p].sub.contains(x),
    ensures ok(h1, p), h1.gh[p] == h0.gh[p], h1.nodes[p] == h0.nodes[p],
{
    reveal(ok);
    reveal(fr);
    let r = h0.nodes[p];
    assert(h1.nodes[p] == r && h1.gh[p] == h0.gh[p]);
    assert(h1.chans.contains(r.ch));
    if kind_of(p) == Tag::Leaf {
        let a = r.key.arr->A_0;
        assert(h1.bytes[a].data == h0.bytes[a].data);
        assert(bs(h1, r.key) =~= bs(h0, r.key));
    } else {
        if own_pre(h0, p) {
            let a = pre_id(h0, p);
            assert(h1.bytes[a].data == h0.bytes[a].data);
            assert(forall|i: int| bs_at(h1, r.partial, i) == bs_at(h0, r.partial, i));
        }
        assert(ok_head(h1, p));
        assert(ok_pre(h1, p));
        if r.leaf != 0 { assert(shr(h0, p, r.leaf)); assert(!s.contains(r.leaf)); assert(h1.gh[r.leaf] == h0.gh[r.leaf]); }
        assert forall|c: u8| kid_at(h0, p, c).tag != Tag::Nil implies h1.gh[(#[trigger] kid_at(h1, p, c)).p] == h0.gh[kid_at(h0, p, c).p] && live(h1, kid_at(h0, p, c).p) by {
            let y = kid_at(h0, p, c).p;
            assert(ok_kid(h0, p, c));
            assert(!s.contains(y));
        }
        assert forall|c: u8| kid_at(h0, p, c) == #[trigger] kid_at(h1, p, c) by { }
        assert(ok_kids(h1, p)) by { assert forall|c: u8| ok_kid(h1, p, c) by { assert(ok_kid(h0, p, c)); } }
        assert(ok_leaf(h1, p));
        assert forall|k: Seq<u8>| rt(h1, p, k) == rt(h0, p, k) by { }
        assert forall|k: Seq<u8>| look_at(h1, p, k) == look_at(h0, p, k) by { assert(rt(h1, p, k) == rt(h0, p, k)); }
        assert forall|k: Seq<u8>| wc_at(h1, p, k) == wc_at(h0, p, k) by { assert(rt(h1, p, k) == rt(h0, p, k)); }
        assert(ok_cont(h1, p));
        assert(ok_wc(h1, p));
        if h0.gh[p].own != 0 {
            assert forall|x: Ptr| sub_at(h1, p, x) == sub_at(h0, p, x) by {
                assert forall|c: u8| kid_has(h1, p, c, x) == #[trigger] kid_has(h0, p, c, x) by { assert(kid_at(h1, p, c) == kid_at(h0, p, c)); }
                if exists|c: u8| kid_has(h1, p, c, x) { let c = choose|c: u8| kid_has(h1, p, c, x); assert(kid_has(h0, p, c, x)); }
            }
            assert forall|x: Ptr| #![trigger h1.gh[p].sub.contains(x)] h1.gh[p].sub.contains(x) implies in_sub(h1, p, x) by { assert(in_sub(h0, p, x)); assert(!s.contains(x)); assert(h1.gh[x] == h0.gh[x]); }
            assert(ok_sub(h1, p));
        }
    }
}

// ---- what a node in order holds ----

pub open spec fn key_of(h: H, l: Ptr) -> Seq<u8> { bs(h, h.nodes[l].key) }
pub open spec fn ent_of(h: H, l: Ptr) -> Ent { Ent { v: h.nodes[l].value, ch: h.nodes[l].ch } }
pub open spec fn cont(h: H, n: Node) -> Map<Seq<u8>, Ent> { h.gh[n.p].cont }

pub proof fn leaf_in(h: H, p: Ptr)
    requires tree(h, p), inner(kind_of(p)), h.nodes[p].leaf != 0,
    ensures ({
        let l = h.nodes[p].leaf;
        &&& kind_of(l) == Tag::Leaf && tree(h, l) && h.nodes.contains_key(l)
        &&& key_of(h, l) == h.gh[p].gp && h.gh[l].sp == h.gh[p].gp
        &&& look(h.gh[p].cont, h.gh[p].gp) == Some(ent_of(h, l))
        &&& h.nodes[l].key.len == h.gh[p].gp.len() && h.gh[p].gp.len() < 0x1_0000_0000
    }),
{
    leaf_tree(h, p);
    tree_ok(h, p);
    tree_ok(h, h.nodes[p].leaf);
    ok_i(h, p);
    ok_l(h, h.nodes[p].leaf);
    assert(h.gh[p].cont.contains_key(h.gh[p].gp) || true);
    assert(key_of(h, h.nodes[p].leaf).len() == h.nodes[h.nodes[p].leaf].key.len);
}
pub proof fn cont_pfx(h: H, p: Ptr, k: Seq<u8>)
    requires tree(h, p), inner(kind_of(p)), h.gh[p].cont.contains_key(k),
    ensures pfx(h.gh[p].gp, k), pfx(h.gh[p].sp, k),
        h.nodes[p].numChildren > 0 || h.nodes[p].leaf != 0,
        (h.nodes[p].leaf != 0 && k == h.gh[p].gp) || (rt(h, p, k) && look(h.gh[nxt(h, p, k)].cont, k) == look(h.gh[p].cont, k)),
{
    tree_ok(h, p);
    ok_i(h, p);
    if rt(h, p, k) { num_kids(kind_of(p), h.nodes[p]); }
    pfx_trans(h.gh[p].sp, h.gh[p].gp, k);
}
/// A node without children holds at most its leaf.
pub proof fn cont_none(h: H, p: Ptr)
    requires tree(h, p), inner(kind_of(p)), h.nodes[p].numChildren == 0,
    ensures forall|k: Seq<u8>| #![trigger rt(h, p, k)] !rt(h, p, k), forall|c: u8| (#[trigger] kid_at(h, p, c)).tag == Tag::Nil,
        forall|k: Seq<u8>| #[trigger] h.gh[p].cont.contains_key(k) <==> h.nodes[p].leaf != 0 && k == h.gh[p].gp,
{
    tree_ok(h, p);
    ok_i(h, p);
    num_kids(kind_of(p), h.nodes[p]);
    assert forall|k: Seq<u8>| #![trigger rt(h, p, k)] !rt(h, p, k) by { assert(kid(kind_of(p), h.nodes[p], k[h.gh[p].gp.len() as int]).tag == Tag::Nil); }
    assert forall|c: u8| (#[trigger] kid_at(h, p, c)).tag == Tag::Nil by { assert(kid(kind_of(p), h.nodes[p], c).tag == Tag::Nil); }
    assert forall|k: Seq<u8>| #[trigger] h.gh[p].cont.contains_key(k) <==> h.nodes[p].leaf != 0 && k == h.gh[p].gp by { assert(!rt(h, p, k)); }
}
/// A key below a child.
pub proof fn kid_in(h: H, p: Ptr, c: u8, k: Seq<u8>)
    requires tree(h, p), inner(kind_of(p)), kid_at(h, p, c).tag != Tag::Nil, h.gh[kid_at(h, p, c).p].cont.contains_key(k),
    ensures rt(h, p, k), k[h.gh[p].gp.len() as int] == c, pfx(h.gh[p].gp, k), k.len() > h.gh[p].gp.len(),
        look(h.gh[p].cont, k) == look(h.gh[kid_at(h, p, c).p].cont, k), h.gh[p].cont.contains_key(k),
{
    kid_tree(h, p, c);
    cont_pfx(h, kid_at(h, p, c).p, k);
    tree_ok(h, p);
    ok_i(h, p);
    let g = h.gh[p].gp;
    assert(g.push(c)[g.len() as int] == k[g.len() as int]);
    assert(pfx(g, k)) by { assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] == #[trigger] k[i] by { assert(g.push(c)[i] == k[i]); } }
    assert(rt(h, p, k));
}
/// Every child in the array is the child for some byte.
pub proof fn fact_inner(h: H, p: Ptr)
    requires tree(h, p), inner(kind_of(p)),
    ensures ({
        let r = h.nodes[p];
        let g = h.gh[p];
        &&& h.nodes.contains_key(p) && p != 0
        &&& nwf(kind_of(p), r)
        &&& pfx(g.sp, g.gp) && g.gp.len() < 0x1_0000_0000
        &&& (r.numChildren == 0 && r.leaf == 0 ==> kind_of(p) == Tag::N4 && r.partialLen == 0)
        &&& (r.numChildren > 0 || r.leaf != 0 ==> own_pre(h, p))
        &&& (r.partialLen > 0 ==> own_pre(h, p))
        &&& (r.numChildren > 0 ==> g.gp.len() == g.sp.len() + r.partialLen)
        &&& (r.numChildren > 0 ==> forall|i: int| 0 <= i < stored(r.partialLen) ==> #[trigger] bs_at(h, r.partial, i) == g.gp[g.sp.len() + i])
        &&& (forall|c: u8| #![trigger kid_at(h, p, c)] ok_kid(h, p, c))
    }),
{
    tree_ok(h, p);
    ok_i(h, p);
}

// ---- order of keys ----

pub proof fn lt_ext(g: Seq<u8>, k: Seq<u8>)
    requires pfx(g, k), k.len() > g.len(),
    ensures lt(g, k), g != k,
{ assert(lt_at(g, k, g.len() as int)); }
pub proof fn lt_div(g: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires pfx(g, a), pfx(g, b), a.len() > g.len(), b.len() > g.len(), a[g.len() as int] < b[g.len() as int],
    ensures lt(a, b), a != b,
{
    assert(lt_at(a, b, g.len() as int)) by {
        assert forall|j: int| 0 <= j < g.len() implies #[trigger] a[j] == #[trigger] b[j] by { assert(g[j] == a[j]); assert(g[j] == b[j]); }
    }
}
pub open spec fn le(a: Seq<u8>, b: Seq<u8>) -> bool { a == b || lt(a, b) }
/// No key is below k.
pub open spec fn least(m: Map<Seq<u8>, Ent>, k: Seq<u8>) -> bool { m.contains_key(k) && forall|x: Seq<u8>| #[trigger] m.contains_key(x) ==> le(k, x) }
pub open spec fn most(m: Map<Seq<u8>, Ent>, k: Seq<u8>) -> bool { m.contains_key(k) && forall|x: Seq<u8>| #[trigger] m.contains_key(x) ==> le(x, k) }
pub open spec fn first_kid(h: H, p: Ptr, c: u8) -> bool {
    kid_at(h, p, c).tag != Tag::Nil && forall|d: u8| d < c ==> (#[trigger] kid_at(h, p, d)).tag == Tag::Nil
}
pub open spec fn last_kid(h: H, p: Ptr, c: u8) -> bool {
    kid_at(h, p, c).tag != Tag::Nil && forall|d: u8| d > c ==> (#[trigger] kid_at(h, p, d)).tag == Tag::Nil
}
pub proof fn least_leaf(h: H, p: Ptr)
    requires tree(h, p), inner(kind_of(p)), h.nodes[p].leaf != 0,
    ensures least(h.gh[p].cont, h.gh[p].gp),
{
    leaf_in(h, p);
    assert forall|x: Seq<u8>| #[trigger] h.gh[p].cont.contains_key(x) implies le(h.gh[p].gp, x) by {
        cont_pfx(h, p, x);
        if x != h.gh[p].gp { lt_ext(h.gh[p].gp, x); }
    }
}
pub proof fn least_kid(h: H, p: Ptr, c: u8, k: Seq<u8>)
    requires tree(h, p), inner(kind_of(p)), h.nodes[p].leaf == 0, first_kid(h, p, c), least(h.gh[kid_at(h, p, c).p].cont, k),
    ensures least(h.gh[p].cont, k), look(h.gh[p].cont, k) == look(h.gh[kid_at(h, p, c).p].cont, k),
{
    kid_in(h, p, c, k);
    assert forall|x: Seq<u8>| #[trigger] h.gh[p].cont.contains_key(x) implies le(k, x) by {
        cont_pfx(h, p, x);
        let d = x[h.gh[p].gp.len() as int];
        assert(kid_at(h, p, d).tag != Tag::Nil);
        if d != c { lt_div(h.gh[p].gp, k, x); }
    }
}
pub proof fn most_kid(h: H, p: Ptr, c: u8, k: Seq<u8>)
    requires tree(h, p), inner(kind_of(p)), last_kid(h, p, c), most(h.gh[kid_at(h, p, c).p].cont, k),
    ensures most(h.gh[p].cont, k), look(h.gh[p].cont, k) == look(h.gh[kid_at(h, p, c).p].cont, k),
{
    kid_in(h, p, c, k);
    assert forall|x: Seq<u8>| #[trigger] h.gh[p].cont.contains_key(x) implies le(x, k) by {
        cont_pfx(h, p, x);
        if rt(h, p, x) {
            let d = x[h.gh[p].gp.len() as int];
            assert(kid_at(h, p, d).tag != Tag::Nil);
            if d != c { lt_div(h.gh[p].gp, x, k); }
        } else { lt_ext(h.gh[p].gp, k); }
    }
}
pub proof fn first_small(h: H, p: Ptr)
    requires nwf(kind_of(p), h.nodes[p]), small(kind_of(p)), h.nodes[p].numChildren > 0,
    ensures first_kid(h, p, h.nodes[p].keys[0]), kid_at(h, p, h.nodes[p].keys[0]) == h.nodes[p].children[0],
{
    let r = h.nodes[p];
    slot_small(kind_of(p), r, 0);
    assert forall|d: u8| d < r.keys[0] implies (#[trigger] kid_at(h, p, d)).tag == Tag::Nil by {
        let i = small_cases(kind_of(p), r, d);
        reveal(sorted);
        if i > 0 { assert(r.keys[0] < r.keys[i]); }
    }
}
pub proof fn last_small(h: H, p: Ptr)
    requires nwf(kind_of(p), h.nodes[p]), small(kind_of(p)), h.nodes[p].numChildren > 0,
    ensures last_kid(h, p, h.nodes[p].keys[h.nodes[p].numChildren - 1]), kid_at(h, p, h.nodes[p].keys[h.nodes[p].numChildren - 1]) == h.nodes[p].children[h.nodes[p].numChildren - 1],
{
    let r = h.nodes[p];
    let m = h.nodes[p].numChildren - 1;
    slot_small(kind_of(p), r, m);
    assert forall|d: u8| d > r.keys[m] implies (#[trigger] kid_at(h, p, d)).tag == Tag::Nil by {
        let i = small_cases(kind_of(p), r, d);
        reveal(sorted);
        if 0 <= i < m { assert(r.keys[i] < r.keys[m]); }
    }
}
/// A node without leaf and with children holds something.
pub proof fn kid_some(h: H, p: Ptr)
    requires tree(h, p), inner(kind_of(p)), h.nodes[p].numChildren > 0,
    ensures some_key(h.gh[p].cont),
{
    fact_inner(h, p);
    num_kids(kind_of(p), h.nodes[p]);
    let c = choose|c: u8| (#[trigger] kid(kind_of(p), h.nodes[p], c)).tag != Tag::Nil;
    assert(ok_kid(h, p, c));
    assert(kid_at(h, p, c).tag != Tag::Nil);
    let k = choose|k: Seq<u8>| h.gh[kid_at(h, p, c).p].cont.contains_key(k);
    kid_in(h, p, c, k);
}
pub open spec fn depth_left(h: H, n: Node) -> int { if n.tag == Tag::Nil { 0 } else { 0x1_0000_0001 - h.gh[n.p].sp.len() } }
/// The leaf l carries key k of map m.
pub open spec fn carries(h: H, m: Map<Seq<u8>, Ent>, l: Ptr) -> bool {
    l != 0 && kind_of(l) == Tag::Leaf && h.nodes.contains_key(l) && live(h, l) && okl(h, l) && look(m, key_of(h, l)) == Some(ent_of(h, l))
}
/// A key that does not belong below the node is not in it.
pub proof fn not_in(h: H, p: Ptr, k: Seq<u8>)
    requires tree(h, p), inner(kind_of(p)), !rt(h, p, k), h.nodes[p].leaf == 0 || k != h.gh[p].gp,
    ensures !h.gh[p].cont.contains_key(k),
{ if h.gh[p].cont.contains_key(k) { cont_pfx(h, p, k); } }
/// A key below the child for its byte is in the node exactly if it is in the child.
pub proof fn step_in(h: H, p: Ptr, k: Seq<u8>)
    requires tree(h, p), inner(kind_of(p)), k.len() > h.gh[p].gp.len(), kid_at(h, p, k[h.gh[p].gp.len() as int]).tag != Tag::Nil,
    ensures look(h.gh[p].cont, k) == look(h.gh[nxt(h, p, k)].cont, k),
{
    let c = k[h.gh[p].gp.len() as int];
    if h.gh[nxt(h, p, k)].cont.contains_key(k) { kid_in(h, p, c, k); }
    if h.gh[p].cont.contains_key(k) { cont_pfx(h, p, k); }
}
/// A leaf of a child.
pub proof fn child_leaf(h: H, p: Ptr, i: int)
    requires tree(h, p), inner(kind_of(p)), 0 <= i < h.nodes[p].children.len(), h.nodes[p].children[i].tag != Tag::Nil,
    ensures itree(h, h.nodes[p].children[i]), ({
        let l = h.nodes[h.nodes[p].children[i].p].leaf;
        l != 0 ==> carries(h, h.gh[p].cont, l)
    }),
{
    fact_inner(h, p);
    let c = kid_of_child(kind_of(p), h.nodes[p], i);
    kid_tree(h, p, c);
    let y = kid_at(h, p, c).p;
    if h.nodes[y].leaf != 0 {
        leaf_in(h, y);
        tree_ok(h, h.nodes[y].leaf);
        ok_l(h, h.nodes[y].leaf);
        kid_in(h, p, c, h.gh[y].gp);
    }
}
pub proof fn own_leaf(h: H, p: Ptr)
    requires tree(h, p), inner(kind_of(p)), h.nodes[p].leaf != 0,
    ensures carries(h, h.gh[p].cont, h.nodes[p].leaf), key_of(h, h.nodes[p].leaf) == h.gh[p].gp,
{
    leaf_in(h, p);
    tree_ok(h, h.nodes[p].leaf);
    ok_l(h, h.nodes[p].leaf);
}
pub proof fn wc_fact(h: H, p: Ptr, q: Seq<u8>)
    requires tree(h, p), inner(kind_of(p)),
    ensures (h.gh[p].wc)(q) == wc_at(h, p, q),
{
    tree_ok(h, p);
    ok_i(h, p);
}
/// A root: what lookups in the tree object need.
pub open spec fn rooted(h: H, t: Ptr) -> bool {
    t != 0 && itree(h, h.m_RadixTree[t].root) && h.gh[h.m_RadixTree[t].root.p].sp.len() == 0
}
pub open spec fn all_of(h: H, t: Ptr) -> Map<Seq<u8>, Ent> { h.gh[h.m_RadixTree[t].root.p].cont }
pub open spec fn stops(h: H, t: Ptr, q: Seq<u8>) -> Chan { (h.gh[h.m_RadixTree[t].root.p].wc)(q) }
/// What a lookup for key k that watches returns.
pub open spec fn watch_of(h: H, t: Ptr, k: Seq<u8>) -> Chan { if all_of(h, t).contains_key(k) { all_of(h, t)[k].ch } else { stops(h, t, k) } }
/// x is the longest key that is a prefix of k.
pub open spec fn longest(m: Map<Seq<u8>, Ent>, x: Seq<u8>, k: Seq<u8>) -> bool {
    m.contains_key(x) && pfx(x, k) && forall|y: Seq<u8>| #[trigger] m.contains_key(y) && pfx(y, k) ==> y.len() <= x.len()
}
/// Keys below different children are not both prefixes of one key.
pub proof fn one_kid(h: H, p: Ptr, i: int, k: Seq<u8>)
    requires tree(h, p), inner(kind_of(p)), 0 <= i < h.nodes[p].children.len(), h.nodes[p].children[i].tag != Tag::Nil,
        pfx(h.gh[h.nodes[p].children[i].p].gp, k),
    ensures rt(h, p, k), h.nodes[p].children[i].p == nxt(h, p, k), h.gh[h.nodes[p].children[i].p].gp.len() > h.gh[p].gp.len(),
{
    fact_inner(h, p);
    let c = kid_of_child(kind_of(p), h.nodes[p], i);
    kid_tree(h, p, c);
    let y = kid_at(h, p, c).p;
    fact_inner(h, y);
    pfx_trans(h.gh[y].sp, h.gh[y].gp, k);
    let g = h.gh[p].gp;
    assert(g.push(c)[g.len() as int] == k[g.len() as int]);
    assert forall|j: int| 0 <= j < g.len() implies #[trigger] g[j] == #[trigger] k[j] by { assert(g.push(c)[j] == k[j]); }
}

// ---- steps that leave trees alone ----

pub proof fn shared_frame(h0: H, h1: H, s: Set<Ptr>)
    requires fr(h0, h1, s), shared(h0),
        forall|x: Ptr| #[trigger] s.contains(x) && live(h0, x) ==> h0.gh[x].own != 0,
        forall|x: Ptr| #![trigger h1.gh.contains_key(x)] h1.gh.contains_key(x) && h1.gh[x].own == 0 ==> h0.gh.contains_key(x) && !s.contains(x),
        forall|x: Ptr| #![trigger h1.gh.contains_key(x)] h1.gh.contains_key(x) ==> h0.gh.contains_key(x) || h1.nodes.contains_key(x),
        lks(h1),
    ensures shared(h1),
{
    assert forall|x: Ptr| #![trigger h1.gh[x]] #![trigger h1.gh.contains_key(x)] h1.gh.contains_key(x) implies h1.nodes.contains_key(x) && (h1.gh[x].own == 0 ==> ok(h1, x)) by {
        if h0.gh.contains_key(x) { assert(h1.nodes.contains_key(x)) by { reveal(fr); assert(h0.nodes.contains_key(x)); } }
        if h1.gh[x].own == 0 {
            assert(h1.gh[x] == h0.gh[x]) by { reveal(fr); }
            ok_frame(h0, h1, s, x);
        }
    }
}
pub proof fn good_frame(h0: H, h1: H, s: Set<Ptr>, p: Ptr)
    requires fr(h0, h1, s), good(h0, p),
        forall|x: Ptr| #[trigger] s.contains(x) && live(h0, x) ==> h0.gh[x].own != 0,
        forall|x: Ptr| #[trigger] s.contains(x) ==> !h0.gh[p].sub.contains(x),
    ensures good(h1, p), h1.gh[p] == h0.gh[p], h1.nodes[p] == h0.nodes[p],
{
    reveal(good);
    assert(!s.contains(p));
    ok_frame(h0, h1, s, p);
    assert forall|x: Ptr| #![trigger h1.gh[p].sub.contains(x)] h1.gh[p].sub.contains(x) implies ok(h1, x) by {
        assert(in_sub(h0, p, x)) by { if kind_of(p) == Tag::Leaf { ok_l(h0, p); } else { assert(inner(kind_of(p))) by { reveal(ok); } ok_i(h0, p); } }
        ok_frame(h0, h1, s, x);
    }
}
/// Only byte arrays were allocated.
pub open spec fn grown_b(h0: H, h1: H) -> bool {
    h1 == (H { bytes: h1.bytes, ..h0 }) && forall|a: u64| #![trigger h1.bytes[a]] #![trigger h1.bytes.contains_key(a)] h0.bytes.contains_key(a) ==> h1.bytes.contains_key(a) && h1.bytes[a] == h0.bytes[a]
}
pub proof fn tree_quiet(h0: H, h1: H, p: Ptr)
    requires fr(h0, h1, Set::empty()), h1.gh == h0.gh, h1.gx == h0.gx, tree(h0, p),
    ensures tree(h1, p), h1.gh[p] == h0.gh[p], h1.nodes[p] == h0.nodes[p],
{
    assert(lks(h1)) by { reveal(fr); }
    shared_frame(h0, h1, Set::empty());
    if h0.gh[p].own != 0 { good_frame(h0, h1, Set::empty(), p); } else { ok_frame(h0, h1, Set::empty(), p); }
}
pub proof fn grown_fr(h0: H, h1: H)
    requires grown_b(h0, h1),
    ensures fr(h0, h1, Set::empty()),
{ reveal(fr); }
pub proof fn grown_tree(h0: H, h1: H, p: Ptr)
    requires grown_b(h0, h1), tree(h0, p),
    ensures tree(h1, p),
{
    grown_fr(h0, h1);
    tree_quiet(h0, h1, p);
}

// ---- a tree whose top node has another prefix length ----

pub proof fn rec_same(t: Tag, r0: Rec, r1: Rec)
    requires inner(t), nwf(t, r0), r1.keys == r0.keys, r1.children == r0.children, r1.numChildren == r0.numChildren,
    ensures nwf(t, r1), forall|c: u8| #[trigger] kid(t, r1, c) == kid(t, r0, c),
{
    assert(sorted(r0) ==> sorted(r1)) by { reveal(sorted); }
    assert forall|c: u8| #[trigger] kid(t, r1, c) == kid(t, r0, c) by { if small(t) { slot_keys(t, r0, r1, c); } }
}
pub open spec fn with_len(h: H, p: Ptr, l: u32) -> H { H { nodes: h.nodes.insert(p, Rec { partialLen: l, ..h.nodes[p] }), ..h } }
pub open spec fn lax(h: H, n: Node) -> bool { h.gh[n.p].own != 0 && h.nodes.contains_key(n.p) && exists|l: u32| itree(#[trigger] with_len(h, n.p, l), n) }
pub open spec fn laxly(h: H, n: Node) -> bool { itree(h, n) || lax(h, n) }
pub open spec fn proper(h: H, n: Node) -> H { if itree(h, n) { h } else { with_len(h, n.p, choose|l: u32| itree(#[trigger] with_len(h, n.p, l), n)) } }
pub proof fn lax_proper(h: H, n: Node)
    requires laxly(h, n),
    ensures itree(proper(h, n), n), proper(h, n).gh == h.gh, forall|c: u8| #[trigger] kid_at(proper(h, n), n.p, c) == kid_at(h, n.p, c),
        ({ let r0 = proper(h, n).nodes[n.p]; let r = h.nodes[n.p]; r0.keys == r.keys && r0.children == r.children && r0.numChildren == r.numChildren && r0.leaf == r.leaf }),
        nwf(n.tag, h.nodes[n.p]), inner(n.tag), kind_of(n.p) == n.tag, h.nodes.contains_key(n.p), n.p != 0, h.gh[n.p].sp.len() < 0x1_0000_0000,
{
    let h0 = proper(h, n);
    fact_inner(h0, n.p);
    rec_same(n.tag, h0.nodes[n.p], h.nodes[n.p]);
    assert forall|c: u8| #[trigger] kid_at(h0, n.p, c) == kid_at(h, n.p, c) by { assert(kid(n.tag, h.nodes[n.p], c) == kid(n.tag, h0.nodes[n.p], c)); }
}
pub proof fn lax_below(h: H, n: Node, y: Ptr)
    requires laxly(h, n), shr(proper(h, n), n.p, y), h.gh[y].sp.len() > h.gh[n.p].sp.len() || kind_of(y) == Tag::Leaf,
    ensures tree(h, y), proper(h, n).nodes[y] == h.nodes[y], bs(proper(h, n), h.nodes[y].key) == bs(h, h.nodes[y].key),
{
    let h0 = proper(h, n);
    lax_proper(h, n);
    below(h0, n.p, y);
    assert(bs(h0, h.nodes[y].key) =~= bs(h, h.nodes[y].key));
    if !itree(h, n) {
        let s = set![n.p];
        assert(lks(h0) && h0.gx == h.gx && h0.chans == h.chans);
        assert(lks(h)) by { assert forall|c: Chan| #[trigger] h.gx.lk.contains_key(c) implies h.chans.contains(c) by { assert(h0.gx.lk.contains_key(c)); } }
        assert(fr(h0, h, s)) by { reveal(fr); }
        shared_frame(h0, h, s);
        tree_ok(h0, n.p);
        ok_i(h0, n.p);
        if h0.gh[y].own != 0 {
            assert(!h0.gh[y].sub.contains(n.p)) by {
                tree_ok(h0, y);
                if kind_of(y) == Tag::Leaf { ok_l(h0, y); } else { assert(inner(kind_of(y))) by { reveal(ok); } ok_i(h0, y); }
            }
            good_frame(h0, h, s, y);
        }
        else { ok_frame(h0, h, s, y); }
    }
}
/// All the smallest key needs.
pub proof fn lax_min(h: H, n: Node)
    requires laxly(h, n),
    ensures ({
        let r = h.nodes[n.p];
        &&& inner(n.tag) && kind_of(n.p) == n.tag && h.nodes.contains_key(n.p) && n.p != 0 && nwf(n.tag, r) && h.gh[n.p].sp.len() < 0x1_0000_0000
        &&& (r.leaf != 0 ==> carries(h, cont(h, n), r.leaf) && least(cont(h, n), key_of(h, r.leaf)))
        &&& (r.numChildren == 0 && r.leaf == 0 ==> n.tag == Tag::N4 && !some_key(cont(h, n)))
        &&& (r.numChildren > 0 ==> some_key(cont(h, n)))
        &&& forall|c: u8| (#[trigger] kid_at(h, n.p, c)).tag != Tag::Nil ==> itree(h, kid_at(h, n.p, c)) && some_key(h.gh[kid_at(h, n.p, c).p].cont) && 0 <= depth_left(h, kid_at(h, n.p, c)) < depth_left(h, n)
    }),
{
    let h0 = proper(h, n);
    lax_proper(h, n);
    fact_inner(h0, n.p);
    tree_ok(h0, n.p);
    ok_i(h0, n.p);
    if h.nodes[n.p].leaf != 0 {
        let l = h.nodes[n.p].leaf;
        leaf_in(h0, n.p);
        least_leaf(h0, n.p);
        lax_below(h, n, l);
        tree_ok(h, l);
        ok_l(h, l);
        tree_ok(h0, l);
        ok_l(h0, l);
    }
    if h.nodes[n.p].numChildren == 0 { cont_none(h0, n.p); } else { kid_some(h0, n.p); }
    assert forall|c: u8| (#[trigger] kid_at(h, n.p, c)).tag != Tag::Nil implies itree(h, kid_at(h, n.p, c)) && some_key(h.gh[kid_at(h, n.p, c).p].cont) && 0 <= depth_left(h, kid_at(h, n.p, c)) < depth_left(h, n) by {
        assert(kid_at(h0, n.p, c) == kid_at(h, n.p, c));
        assert(ok_kid(h0, n.p, c));
        lax_below(h, n, kid_at(h, n.p, c).p);
        fact_inner(h, kid_at(h, n.p, c).p);
    }
}
pub proof fn lax_kid(h: H, n: Node, c: u8, k: Seq<u8>)
    requires laxly(h, n), h.nodes[n.p].leaf == 0, first_kid(h, n.p, c), least(h.gh[kid_at(h, n.p, c).p].cont, k),
    ensures least(h.gh[n.p].cont, k), look(h.gh[n.p].cont, k) == look(h.gh[kid_at(h, n.p, c).p].cont, k),
{
    let h0 = proper(h, n);
    lax_proper(h, n);
    assert forall|d: u8| d < c implies (#[trigger] kid_at(h0, n.p, d)).tag == Tag::Nil by { assert(kid_at(h, n.p, d).tag == Tag::Nil); }
    assert(kid_at(h0, n.p, c) == kid_at(h, n.p, c));
    least_kid(h0, n.p, c, k);
}
