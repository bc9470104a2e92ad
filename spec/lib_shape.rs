// Shape of a single node, independent of trees.

pub open spec fn plen_of(h: H, n: Node) -> u32 { if n.tag == Tag::Leaf { 0u32 } else { h.nodes[n.p].partialLen } }
pub open spec fn num_of(h: H, n: Node) -> u16 { if n.tag == Tag::Leaf { 0u16 } else { h.nodes[n.p].numChildren } }
pub open spec fn leaf_of(h: H, n: Node) -> Ptr { if n.tag == Tag::Leaf { 0u64 } else { h.nodes[n.p].leaf } }
pub open spec fn leafy(h: H, n: Node) -> bool { n.tag == Tag::Leaf || (h.nodes[n.p].numChildren == 0 && h.nodes[n.p].leaf != 0) }
pub open spec fn type_of(n: Node) -> i64 {
    match n.tag { Tag::Leaf => 0i64, Tag::N4 => 1i64, Tag::N16 => 2i64, Tag::N48 => 3i64, Tag::N256 => 4i64, Tag::Nil => 0i64 }
}
pub open spec fn inner(t: Tag) -> bool { t == Tag::N4 || t == Tag::N16 || t == Tag::N48 || t == Tag::N256 }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }

// ---- counting ----

pub open spec fn count<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { count(s.drop_last(), f) + if f(s.last()) { 1nat } else { 0nat } }
}
pub open spec fn nn(s: Seq<Node>) -> nat { count(s, |n: Node| n.tag != Tag::Nil) }
pub open spec fn nz(s: Seq<u8>) -> nat { count(s, |b: u8| b != 0) }

pub proof fn count_le<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    ensures count(s, f) <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { count_le(s.drop_last(), f); } }

pub proof fn count_update<A>(s: Seq<A>, i: int, v: A, f: spec_fn(A) -> bool)
    requires 0 <= i < s.len(),
    ensures count(s.update(i, v), f) == count(s, f) - (if f(s[i]) { 1int } else { 0 }) + (if f(v) { 1int } else { 0 }),
    decreases s.len(),
{
    let u = s.update(i, v);
    if i == s.len() - 1 {
        assert(u.drop_last() =~= s.drop_last());
    } else {
        count_update(s.drop_last(), i, v, f);
        assert(u.drop_last() =~= s.drop_last().update(i, v));
    }
}
pub proof fn count_zero<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    ensures count(s, f) == 0 <==> forall|i: int| 0 <= i < s.len() ==> !f(#[trigger] s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        count_zero(s.drop_last(), f);
        assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == s[i]);
        if count(s, f) == 0 {
            assert forall|i: int| 0 <= i < s.len() implies !f(#[trigger] s[i]) by {
                if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
            }
        } else if (forall|i: int| 0 <= i < s.len() ==> !f(#[trigger] s[i])) {
            assert(forall|i: int| 0 <= i < s.drop_last().len() ==> !f(#[trigger] s.drop_last()[i]));
            assert(!f(s[s.len() - 1]));
        }
    }
}
pub proof fn count_full<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    ensures count(s, f) == s.len() <==> forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        count_le(s.drop_last(), f);
        count_full(s.drop_last(), f);
        assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == s[i]);
        if count(s, f) == s.len() {
            assert forall|i: int| 0 <= i < s.len() implies f(#[trigger] s[i]) by {
                if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
            }
        } else if (forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i])) {
            assert(forall|i: int| 0 <= i < s.drop_last().len() ==> f(#[trigger] s.drop_last()[i]));
            assert(f(s[s.len() - 1]));
        }
    }
}
pub proof fn count_prefix<A>(s: Seq<A>, i: int, f: spec_fn(A) -> bool)
    requires 0 <= i < s.len(),
    ensures
        count(s.subrange(0, i + 1), f) == count(s.subrange(0, i), f) + (if f(s[i]) { 1int } else { 0 }),
        count(s.subrange(0, i + 1), f) <= count(s, f),
        s.subrange(0, s.len() as int) == s,
    decreases s.len() - i,
{
    assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
    assert(s.subrange(0, s.len() as int) =~= s);
    if i + 1 < s.len() { count_prefix(s, i + 1, f); }
}
pub proof fn count_same<A, B>(s: Seq<A>, f: spec_fn(A) -> bool, t: Seq<B>, g: spec_fn(B) -> bool)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(t[i]),
    ensures count(s, f) == count(t, g),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) == g(t.drop_last()[i]) by { assert(f(s[i]) == g(t[i])); }
        count_same(s.drop_last(), f, t.drop_last(), g);
        assert(f(s[s.len() - 1]) == g(t[t.len() - 1]));
    }
}
pub proof fn count_first<A>(s: Seq<A>, f: spec_fn(A) -> bool, m: int)
    requires 0 <= m <= s.len(), forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == (i < m),
    ensures count(s, f) == m,
    decreases s.len(),
{
    if s.len() > 0 {
        let l = s.len() - 1;
        assert forall|i: int| 0 <= i < l implies f(#[trigger] s.drop_last()[i]) == (i < m) by { assert(f(s[i]) == (i < m)); }
        count_first(s.drop_last(), f, if m <= l { m } else { l });
        assert(f(s[l]) == (l < m));
    }
}

// ---- children of a node ----

pub open spec fn at_key(r: Rec, c: u8, i: int) -> bool { 0 <= i < r.numChildren && r.keys[i] == c }
/// Position in the children array of the child for byte c, -1 if there is none.
pub open spec fn slot(t: Tag, r: Rec, c: u8) -> int {
    match t {
        Tag::N4 | Tag::N16 => if exists|i: int| at_key(r, c, i) { choose|i: int| at_key(r, c, i) } else { -1 },
        Tag::N48 => r.keys[c as int] - 1,
        Tag::N256 => if r.children[c as int].tag == Tag::Nil { -1 } else { c as int },
        _ => -1,
    }
}
pub open spec fn kid(t: Tag, r: Rec, c: u8) -> Node {
    if slot(t, r, c) < 0 { nil_node() } else { r.children[slot(t, r, c)] }
}
/// The children by byte.
pub open spec fn kids(t: Tag, r: Rec) -> Seq<Node> { Seq::new(256, |c: int| kid(t, r, c as u8)) }

pub open spec fn sized(t: Tag, r: Rec) -> bool {
    r.keys.len() == keys_len(t) && r.children.len() == children_len(t)
}
#[verifier::opaque]
pub open spec fn sorted(r: Rec) -> bool {
    forall|i: int, j: int| 0 <= i < j < r.numChildren ==> #[trigger] r.keys[i] < #[trigger] r.keys[j]
}
pub open spec fn nwf_small(t: Tag, r: Rec) -> bool {
    r.numChildren <= r.children.len() && sorted(r)
    && (forall|i: int| 0 <= i < r.numChildren ==> (#[trigger] r.children[i]).tag != Tag::Nil)
    && (forall|i: int| r.numChildren <= i < r.children.len() ==> #[trigger] r.children[i] == nil_node())
}
pub open spec fn nwf48(r: Rec) -> bool {
    r.numChildren <= 48
    && (forall|c: int| 0 <= c < 256 ==> #[trigger] r.keys[c] <= 48 && (r.keys[c] != 0 ==> r.children[r.keys[c] - 1].tag != Tag::Nil))
    && (forall|c: int, d: int| 0 <= c < d < 256 && #[trigger] r.keys[c] != 0 ==> r.keys[c] != #[trigger] r.keys[d])
    && nz(r.keys) == r.numChildren && nn(r.children) == r.numChildren
}
pub open spec fn nwf256(r: Rec) -> bool { nn(r.children) == r.numChildren }
/// The node is well formed.
pub open spec fn nwf(t: Tag, r: Rec) -> bool {
    sized(t, r) && match t {
        Tag::N4 | Tag::N16 => nwf_small(t, r),
        Tag::N48 => nwf48(r),
        Tag::N256 => nwf256(r),
        _ => false,
    }
}

pub proof fn slot_small(t: Tag, r: Rec, i: int)
    requires nwf(t, r), t == Tag::N4 || t == Tag::N16, 0 <= i < r.numChildren,
    ensures slot(t, r, r.keys[i]) == i, kid(t, r, r.keys[i]) == r.children[i],
{
    reveal(sorted);
    let c = r.keys[i];
    assert(at_key(r, c, i));
    let j = choose|j: int| at_key(r, c, j);
    assert(at_key(r, c, j));
    if i < j { assert(r.keys[i] < r.keys[j]); }
    if j < i { assert(r.keys[j] < r.keys[i]); }
}
pub proof fn slot_none(t: Tag, r: Rec, c: u8)
    requires nwf(t, r), t == Tag::N4 || t == Tag::N16, forall|i: int| 0 <= i < r.numChildren ==> #[trigger] r.keys[i] != c,
    ensures slot(t, r, c) == -1, kid(t, r, c) == nil_node(),
{
    if exists|i: int| at_key(r, c, i) {
        let i = choose|i: int| at_key(r, c, i);
        assert(at_key(r, c, i));
        assert(r.keys[i] == c);
    }
}
/// A byte between two neighbours is nowhere.
pub proof fn not_between(t: Tag, r: Rec, idx: int, c: u8)
    requires nwf(t, r), t == Tag::N4 || t == Tag::N16, 0 <= idx <= r.numChildren,
        idx > 0 ==> r.keys[idx - 1] < c, idx < r.numChildren ==> r.keys[idx] > c,
    ensures slot(t, r, c) == -1, kid(t, r, c) == nil_node(),
{
    reveal(sorted);
    assert forall|i: int| 0 <= i < r.numChildren implies #[trigger] r.keys[i] != c by {
        if i < idx - 1 { assert(r.keys[i] < r.keys[idx - 1]); }
        if i > idx { assert(r.keys[idx] < r.keys[i]); }
    }
    slot_none(t, r, c);
}
/// A well formed node has children exactly when it says so.
pub proof fn num_kids(t: Tag, r: Rec)
    requires nwf(t, r),
    ensures
        r.numChildren == 0 <==> forall|c: u8| (#[trigger] kid(t, r, c)).tag == Tag::Nil,
        r.numChildren <= 256,
        r.numChildren > 0 ==> exists|c: u8| (#[trigger] kid(t, r, c)).tag != Tag::Nil,
{
    if t == Tag::N4 || t == Tag::N16 {
        if r.numChildren == 0 {
            assert forall|c: u8| (#[trigger] kid(t, r, c)).tag == Tag::Nil by { slot_none(t, r, c); }
        } else {
            slot_small(t, r, 0);
            assert(kid(t, r, r.keys[0]).tag != Tag::Nil);
        }
    } else if t == Tag::N48 {
        let f = |b: u8| b != 0;
        assert(nz(r.keys) == count(r.keys, f));
        count_zero(r.keys, f);
        if r.numChildren == 0 {
            assert forall|c: u8| (#[trigger] kid(t, r, c)).tag == Tag::Nil by { assert(!f(r.keys[c as int])); }
        } else {
            let i = choose|i: int| 0 <= i < r.keys.len() && f(#[trigger] r.keys[i]);
            assert(kid(t, r, i as u8).tag != Tag::Nil);
        }
    } else {
        let f = |n: Node| n.tag != Tag::Nil;
        assert(nn(r.children) == count(r.children, f));
        count_zero(r.children, f);
        count_le(r.children, f);
        if r.numChildren == 0 {
            assert forall|c: u8| (#[trigger] kid(t, r, c)).tag == Tag::Nil by { assert(!f(r.children[c as int])); }
        } else {
            let i = choose|i: int| 0 <= i < r.children.len() && f(#[trigger] r.children[i]);
            assert(kid(t, r, i as u8).tag != Tag::Nil);
        }
    }
}

// ---- what node-level functions do to the heap ----

/// The maps differ at k only, where m1 has an entry.
pub open spec fn upd<K, V>(m0: Map<K, V>, m1: Map<K, V>, k: K) -> bool {
    m1.contains_key(k) && forall|x: K| #![trigger m1[x]] #![trigger m1.contains_key(x)]
        x != k ==> m1.contains_key(x) == m0.contains_key(x) && m1[x] == m0[x]
}
/// Nothing but the record at p changed.
pub open spec fn only(h0: H, h1: H, p: Ptr) -> bool {
    upd(h0.nodes, h1.nodes, p) && h1 == (H { nodes: h1.nodes, ..h0 })
}
pub open spec fn tree_of(h: H, t: Ptr) -> Ptr { h.m_Txn[t].tree }
pub open spec fn max_id(h: H, t: Ptr) -> u64 { h.m_RadixTree[tree_of(h, t)].maxNodeId }
pub open spec fn set_max(h: H, t: Ptr, v: u64) -> Map<Ptr, RRadixTree> {
    h.m_RadixTree.insert(tree_of(h, t), RRadixTree { maxNodeId: v, ..h.m_RadixTree[tree_of(h, t)] })
}
/// The transaction object is usable.
pub open spec fn txok(h: H, t: Ptr) -> bool { t != 0 && tree_of(h, t) != 0 }

/// The prefix buffer of a node is its own.
pub open spec fn own_pre(h: H, p: Ptr) -> bool {
    h.nodes[p].partial.len == 10 && match h.nodes[p].partial.arr {
        Arr::A(a) => h.bytes.contains_key(a) && h.bytes[a].owner == node_own(p),
        _ => false,
    }
}
/// The array id behind a prefix buffer.
pub open spec fn pre_id(h: H, p: Ptr) -> u64 {
    match h.nodes[p].partial.arr { Arr::A(a) => a, _ => 0 }
}
/// Only the inner node q was allocated.
pub open spec fn alloc1(h0: H, h1: H, t: Ptr, q: Ptr) -> bool {
    &&& !h0.nodes.contains_key(q) && q != 0
    &&& !h0.bytes.contains_key(pre_id(h1, q))
    &&& !h0.chans.contains(h1.nodes[q].ch) && h1.nodes[q].ch != 0
    &&& own_pre(h1, q)
    &&& h1.nodes[q].id == max_id(h0, t) + 1
    &&& upd(h0.nodes, h1.nodes, q)
    &&& upd(h0.bytes, h1.bytes, pre_id(h1, q))
    &&& h1 == (H {
            nodes: h1.nodes,
            bytes: h1.bytes,
            chans: h0.chans.insert(h1.nodes[q].ch),
            m_RadixTree: set_max(h0, t, (max_id(h0, t) + 1) as u64),
            ..h0
        })
}
/// Bytes of the prefix that a node stores.
pub open spec fn stored(n: u32) -> int { imin(10, n as int) }
pub open spec fn same_pre(h0: H, p: Ptr, h1: H, q: Ptr) -> bool {
    h1.nodes[q].partialLen == h0.nodes[p].partialLen
    && forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) ==> #[trigger] bs_at(h1, h1.nodes[q].partial, i) == bs_at(h0, h0.nodes[p].partial, i)
}
/// Only the leaf object q was allocated.
pub open spec fn alloc_leaf(h0: H, h1: H, t: Ptr, q: Ptr) -> bool {
    &&& !h0.nodes.contains_key(q) && q != 0
    &&& !h0.chans.contains(h1.nodes[q].ch) && h1.nodes[q].ch != 0
    &&& h1.nodes[q] == (Rec { id: (max_id(h0, t) + 1) as u64, ..zero_rec(Tag::Leaf, h1.nodes[q].ch) })
    &&& max_id(h0, t) < 0x4000_0000_0000_0000
    &&& upd(h0.nodes, h1.nodes, q)
    &&& h1 == (H {
            nodes: h1.nodes,
            chans: h0.chans.insert(h1.nodes[q].ch),
            m_RadixTree: set_max(h0, t, (max_id(h0, t) + 1) as u64),
            ..h0
        })
}
pub open spec fn tag_of_type(k: i64) -> Tag {
    if k == 0 { Tag::Leaf } else if k == 1 { Tag::N4 } else if k == 2 { Tag::N16 } else if k == 3 { Tag::N48 } else { Tag::N256 }
}
/// A node without children.
pub proof fn empty_kids(t: Tag, r: Rec)
    requires inner(t), sized(t, r), r.numChildren == 0,
        forall|i: int| 0 <= i < r.keys.len() ==> #[trigger] r.keys[i] == 0,
        forall|i: int| 0 <= i < r.children.len() ==> #[trigger] r.children[i] == nil_node(),
    ensures nwf(t, r), kids(t, r) =~= reps(256, nil_node()),
{
    assert(sorted(r)) by { reveal(sorted); }
    count_zero(r.keys, |b: u8| b != 0);
    count_zero(r.children, |n: Node| n.tag != Tag::Nil);
    assert forall|c: int| 0 <= c < 256 implies kids(t, r)[c] == nil_node() by {
        if t == Tag::N4 || t == Tag::N16 { slot_none(t, r, c as u8); }
    }
}
pub open spec fn small(t: Tag) -> bool { t == Tag::N4 || t == Tag::N16 }
/// In a small node every byte is either at some position or nowhere.
pub proof fn small_cases(t: Tag, r: Rec, c: u8) -> (i: int)
    requires nwf(t, r), small(t),
    ensures
        slot(t, r, c) == i, -1 <= i < r.numChildren,
        i >= 0 ==> r.keys[i] == c && kid(t, r, c) == r.children[i] && kid(t, r, c).tag != Tag::Nil,
        i == -1 ==> kid(t, r, c) == nil_node() && forall|j: int| 0 <= j < r.numChildren ==> #[trigger] r.keys[j] != c,
{
    if exists|i: int| at_key(r, c, i) {
        let i = choose|i: int| at_key(r, c, i);
        slot_small(t, r, i);
        i
    } else {
        assert forall|j: int| 0 <= j < r.numChildren implies #[trigger] r.keys[j] != c by { assert(!at_key(r, c, j)); }
        slot_none(t, r, c);
        -1
    }
}
pub proof fn add_small_wf(t: Tag, r0: Rec, r1: Rec, idx: int, c: u8, child: Node)
    requires nwf(t, r0), small(t), child.tag != Tag::Nil, sized(t, r1), forall|j: int| 0 <= j < r0.numChildren ==> #[trigger] r0.keys[j] != c,
        0 <= idx <= r0.numChildren < r0.children.len(), r1.numChildren == r0.numChildren + 1,
        idx > 0 ==> r0.keys[idx - 1] <= c, idx < r0.numChildren ==> r0.keys[idx] > c,
        forall|i: int| 0 <= i < r0.children.len() ==> #[trigger] r1.children[i] == (if i < idx { r0.children[i] } else if i == idx { child } else { r0.children[i - 1] }),
        forall|i: int| 0 <= i <= r0.numChildren ==> #[trigger] r1.keys[i] == (if i < idx { r0.keys[i] } else if i == idx { c } else { r0.keys[i - 1] }),
    ensures nwf(t, r1),
{
    reveal(sorted);
    assert forall|i: int, j: int| 0 <= i < j < r1.numChildren implies #[trigger] r1.keys[i] < #[trigger] r1.keys[j] by {
        let a = if i < idx { i } else { i - 1 };
        let b = if j < idx { j } else { j - 1 };
        if i != idx && j != idx {
            assert(r0.keys[a] < r0.keys[b]);
        } else if i == idx {
            if b > idx { assert(r0.keys[idx] < r0.keys[b]); }
        } else {
            if a < idx - 1 { assert(r0.keys[a] < r0.keys[idx - 1]); }
            assert(r0.keys[idx - 1] != c);
        }
    }
    assert forall|i: int| r1.numChildren <= i < r1.children.len() implies #[trigger] r1.children[i] == nil_node() by { assert(r0.children[i - 1] == nil_node()); }
    assert forall|i: int| 0 <= i < r1.numChildren implies (#[trigger] r1.children[i]).tag != Tag::Nil by { }
}
pub proof fn add_small(t: Tag, r0: Rec, r1: Rec, idx: int, c: u8, child: Node)
    requires nwf(t, r0), small(t), kid(t, r0, c) == nil_node(), child.tag != Tag::Nil, sized(t, r1),
        0 <= idx <= r0.numChildren < r0.children.len(), r1.numChildren == r0.numChildren + 1,
        idx > 0 ==> r0.keys[idx - 1] <= c, idx < r0.numChildren ==> r0.keys[idx] > c,
        forall|i: int| 0 <= i < r0.children.len() ==> #[trigger] r1.children[i] == (if i < idx { r0.children[i] } else if i == idx { child } else { r0.children[i - 1] }),
        forall|i: int| 0 <= i <= r0.numChildren ==> #[trigger] r1.keys[i] == (if i < idx { r0.keys[i] } else if i == idx { c } else { r0.keys[i - 1] }),
    ensures nwf(t, r1), kids(t, r1) == kids(t, r0).update(c as int, child),
{
    small_cases(t, r0, c);
    add_small_wf(t, r0, r1, idx, c, child);
    assert forall|x: int| 0 <= x < 256 implies kids(t, r1)[x] == kids(t, r0).update(c as int, child)[x] by {
        let i = small_cases(t, r0, x as u8);
        if x == c {
            slot_small(t, r1, idx);
        } else if i >= 0 {
            slot_small(t, r1, if i < idx { i } else { i + 1 });
        } else {
            slot_none(t, r1, x as u8);
        }
    }
    assert(kids(t, r1) =~= kids(t, r0).update(c as int, child));
}
/// A node16 with the children of a node4.
pub proof fn grow4(r0: Rec, r1: Rec)
    requires nwf(Tag::N4, r0), sized(Tag::N16, r1), r1.numChildren == r0.numChildren,
        forall|i: int| 0 <= i < r0.numChildren ==> #[trigger] r1.children[i] == r0.children[i],
        forall|i: int| 0 <= i < r0.numChildren ==> #[trigger] r1.keys[i] == r0.keys[i],
        forall|i: int| r0.numChildren <= i < 16 ==> #[trigger] r1.children[i] == nil_node(),
    ensures nwf(Tag::N16, r1), kids(Tag::N16, r1) == kids(Tag::N4, r0),
{
    assert(sorted(r1)) by { reveal(sorted); }
    assert(nwf(Tag::N16, r1));
    assert forall|x: int| 0 <= x < 256 implies kids(Tag::N16, r1)[x] == kids(Tag::N4, r0)[x] by {
        let i = small_cases(Tag::N4, r0, x as u8);
        if i >= 0 { slot_small(Tag::N16, r1, i); } else { slot_none(Tag::N16, r1, x as u8); }
    }
    assert(kids(Tag::N16, r1) =~= kids(Tag::N4, r0));
}
/// A node48 with the children of a node16.
pub proof fn grow16(r0: Rec, r1: Rec)
    requires nwf(Tag::N16, r0), sized(Tag::N48, r1), r1.numChildren == r0.numChildren,
        forall|i: int| 0 <= i < r0.numChildren ==> #[trigger] r1.children[i] == r0.children[i],
        forall|i: int| r0.numChildren <= i < 48 ==> #[trigger] r1.children[i] == nil_node(),
        forall|c: int| 0 <= c < 256 ==> #[trigger] r1.keys[c] == slot(Tag::N16, r0, c as u8) + 1,
    ensures nwf(Tag::N48, r1), kids(Tag::N48, r1) == kids(Tag::N16, r0),
{
    let f = |x: Node| x.tag != Tag::Nil;
    let fz = |x: u8| x != 0;
    let m = r0.numChildren as int;
    assert forall|c: int| 0 <= c < 256 implies #[trigger] r1.keys[c] <= 48 && (r1.keys[c] != 0 ==> r1.children[r1.keys[c] - 1].tag != Tag::Nil) by {
        small_cases(Tag::N16, r0, c as u8);
    }
    assert forall|c: int, d: int| 0 <= c < d < 256 && #[trigger] r1.keys[c] != 0 implies r1.keys[c] != #[trigger] r1.keys[d] by {
        small_cases(Tag::N16, r0, c as u8);
        small_cases(Tag::N16, r0, d as u8);
    }
    count_first(r1.children, f, m);
    grow16_keys(r0, r1.keys, m);
    assert(nn(r1.children) == count(r1.children, f));
    assert(nz(r1.keys) == count(r1.keys, fz));
    assert forall|x: int| 0 <= x < 256 implies kids(Tag::N48, r1)[x] == kids(Tag::N16, r0)[x] by { small_cases(Tag::N16, r0, x as u8); }
    assert(kids(Tag::N48, r1) =~= kids(Tag::N16, r0));
}
/// Of the first m keys of a node16, m are non-zero in the key map.
pub open spec fn mapped(r0: Rec, m: int) -> Seq<u8> {
    Seq::new(256, |c: int| if 0 <= slot(Tag::N16, r0, c as u8) < m { (slot(Tag::N16, r0, c as u8) + 1) as u8 } else { 0u8 })
}
pub proof fn grow16_mapped(r0: Rec, m: int)
    requires nwf(Tag::N16, r0), 0 <= m <= r0.numChildren,
    ensures nz(mapped(r0, m)) == m,
    decreases m,
{
    let fz = |x: u8| x != 0;
    if m == 0 {
        count_zero(mapped(r0, 0), fz);
    } else {
        grow16_mapped(r0, m - 1);
        let c = r0.keys[m - 1];
        slot_small(Tag::N16, r0, m - 1);
        assert forall|x: int| 0 <= x < 256 implies mapped(r0, m)[x] == mapped(r0, m - 1).update(c as int, m as u8)[x] by {
            let i = small_cases(Tag::N16, r0, x as u8);
        }
        assert(mapped(r0, m) =~= mapped(r0, m - 1).update(c as int, m as u8));
        count_update(mapped(r0, m - 1), c as int, m as u8, fz);
    }
}
pub proof fn grow16_keys(r0: Rec, keys: Seq<u8>, m: int)
    requires nwf(Tag::N16, r0), m == r0.numChildren, keys.len() == 256,
        forall|c: int| 0 <= c < 256 ==> #[trigger] keys[c] == slot(Tag::N16, r0, c as u8) + 1,
    ensures nz(keys) == m,
{
    grow16_mapped(r0, m);
    assert forall|c: int| 0 <= c < 256 implies keys[c] == mapped(r0, m)[c] by { small_cases(Tag::N16, r0, c as u8); }
    assert(keys =~= mapped(r0, m));
}
pub proof fn add48(r0: Rec, r1: Rec, pos: int, c: u8, child: Node)
    requires nwf(Tag::N48, r0), kid(Tag::N48, r0, c) == nil_node(), child.tag != Tag::Nil, 0 <= pos < 48,
        r0.children[pos].tag == Tag::Nil,
        r1.children == r0.children.update(pos, child), r1.keys == r0.keys.update(c as int, (pos + 1) as u8),
        r1.numChildren == r0.numChildren + 1,
    ensures nwf(Tag::N48, r1), kids(Tag::N48, r1) == kids(Tag::N48, r0).update(c as int, child),
{
    let f = |x: Node| x.tag != Tag::Nil;
    let fz = |x: u8| x != 0;
    assert(r0.keys[c as int] == 0);
    count_update(r0.children, pos, child, f);
    count_update(r0.keys, c as int, (pos + 1) as u8, fz);
    count_le(r1.children, f);
    assert(nn(r1.children) == count(r1.children, f));
    assert(nz(r1.keys) == count(r1.keys, fz));
    assert(kids(Tag::N48, r1) =~= kids(Tag::N48, r0).update(c as int, child));
}
/// A node256 with the children of a node48.
pub proof fn grow48(r0: Rec, r1: Rec)
    requires nwf(Tag::N48, r0), sized(Tag::N256, r1), r1.numChildren == r0.numChildren,
        forall|j: int| 0 <= j < 256 ==> #[trigger] r1.children[j] == kid(Tag::N48, r0, j as u8),
    ensures nwf(Tag::N256, r1), kids(Tag::N256, r1) == kids(Tag::N48, r0),
{
    let f = |x: Node| x.tag != Tag::Nil;
    let fz = |x: u8| x != 0;
    assert forall|j: int| 0 <= j < 256 implies f(#[trigger] r1.children[j]) == fz(r0.keys[j]) by { assert(r1.children[j] == kid(Tag::N48, r0, j as u8)); }
    count_same(r1.children, f, r0.keys, fz);
    assert(nn(r1.children) == count(r1.children, f));
    assert(nz(r0.keys) == count(r0.keys, fz));
    assert(kids(Tag::N256, r1) =~= kids(Tag::N48, r0));
}
/// The result of adding a child: the node itself or a larger copy.
pub open spec fn added(h0: H, h1: H, t: Ptr, n: Node, c: u8, child: Node, r: Node) -> bool {
    let r0 = h0.nodes[n.p];
    let r1 = h1.nodes[r.p];
    &&& inner(r.tag) && nwf(r.tag, r1) && (kind_of(n.p) == n.tag ==> kind_of(r.p) == r.tag)
    &&& kids(r.tag, r1) == kids(n.tag, r0).update(c as int, child)
    &&& r1.numChildren == r0.numChildren + 1
    &&& r1.leaf == r0.leaf
    &&& same_pre(h0, n.p, h1, r.p)
    &&& if r0.numChildren < children_len(n.tag) {
            r == n && only(h0, h1, n.p) && r1.id == r0.id && r1.ch == r0.ch && r1.partial == r0.partial
        } else {
            alloc1(h0, h1, t, r.p)
        }
}
/// Different bytes have different children.
pub proof fn inj_count(keys: Seq<u8>, ch: Seq<Node>)
    requires
        forall|c: int| 0 <= c < keys.len() && #[trigger] keys[c] != 0 ==> keys[c] <= ch.len() && ch[keys[c] - 1].tag != Tag::Nil,
        forall|c: int, d: int| 0 <= c < d < keys.len() && #[trigger] keys[c] != 0 ==> keys[c] != #[trigger] keys[d],
    ensures nz(keys) <= nn(ch),
    decreases keys.len(),
{
    let f = |x: Node| x.tag != Tag::Nil;
    let fz = |x: u8| x != 0;
    assert(nz(keys) == count(keys, fz));
    assert(nn(ch) == count(ch, f));
    if keys.len() > 0 {
        let k = keys.drop_last();
        let m = keys.len() - 1;
        let e = keys[m];
        assert(nz(k) == count(k, fz));
        if e != 0 {
            let ch2 = ch.update(e - 1, nil_node());
            assert(nn(ch2) == count(ch2, f));
            assert forall|c: int| 0 <= c < k.len() && #[trigger] k[c] != 0 implies k[c] <= ch2.len() && ch2[k[c] - 1].tag != Tag::Nil by { assert(keys[c] != 0); assert(keys[c] != keys[m]); }
            assert forall|c: int, d: int| 0 <= c < d < k.len() && #[trigger] k[c] != 0 implies k[c] != #[trigger] k[d] by { assert(keys[c] != keys[d]); }
            inj_count(k, ch2);
            count_update(ch, e - 1, nil_node(), f);
        } else {
            assert forall|c: int| 0 <= c < k.len() && #[trigger] k[c] != 0 implies k[c] <= ch.len() && ch[k[c] - 1].tag != Tag::Nil by { assert(keys[c] != 0); }
            assert forall|c: int, d: int| 0 <= c < d < k.len() && #[trigger] k[c] != 0 implies k[c] != #[trigger] k[d] by { assert(keys[c] != keys[d]); }
            inj_count(k, ch);
        }
    }
}
/// Every entry of the children array is the child for some byte.
pub proof fn kid_of_child(t: Tag, r: Rec, i: int) -> (c: u8)
    requires nwf(t, r), 0 <= i < r.children.len(), r.children[i].tag != Tag::Nil,
    ensures kid(t, r, c) == r.children[i], slot(t, r, c) == i,
{
    if small(t) {
        slot_small(t, r, i);
        r.keys[i]
    } else if t == Tag::N48 {
        if exists|c: int| 0 <= c < 256 && #[trigger] r.keys[c] == i + 1 {
            let c = choose|c: int| 0 <= c < 256 && #[trigger] r.keys[c] == i + 1;
            c as u8
        } else {
            let f = |x: Node| x.tag != Tag::Nil;
            let ch2 = r.children.update(i, nil_node());
            assert(nn(ch2) == count(ch2, f));
            assert(nn(r.children) == count(r.children, f));
            count_update(r.children, i, nil_node(), f);
            assert forall|c: int| 0 <= c < r.keys.len() && #[trigger] r.keys[c] != 0 implies r.keys[c] <= ch2.len() && ch2[r.keys[c] - 1].tag != Tag::Nil by { assert(r.keys[c] != i + 1); }
            inj_count(r.keys, ch2);
            0
        }
    } else { i as u8 }
}

// ---- copies of nodes ----

/// Arrays of nodes were at most allocated.
pub open spec fn grown_n(h0: H, h1: H) -> bool {
    forall|a: u64| #![trigger h1.narr[a]] #![trigger h1.narr.contains_key(a)] h0.narr.contains_key(a) ==> h1.narr.contains_key(a) && h1.narr[a] == h0.narr[a]
}
pub open spec fn grown_c(h0: H, h1: H) -> bool { forall|c: Chan| #![trigger h1.chans.contains(c)] h0.chans.contains(c) ==> h1.chans.contains(c) }
pub open spec fn key_id(h: H, p: Ptr) -> u64 { match h.nodes[p].key.arr { Arr::A(a) => a, _ => 0 } }
/// Node r is a new copy of node n.
pub open spec fn clone_of(h0: H, h1: H, n: Node, keep: bool, r: Node) -> bool {
    let r0 = h0.nodes[n.p];
    let r1 = h1.nodes[r.p];
    &&& r.tag == n.tag && kind_of(r.p) == r.tag && r.p != 0 && !h0.nodes.contains_key(r.p)
    &&& upd(h0.nodes, h1.nodes, r.p)
    &&& grown_n(h0, h1) && grown_c(h0, h1)
    &&& h1 == (H { nodes: h1.nodes, bytes: h1.bytes, narr: h1.narr, chans: h1.chans, ..h0 })
    &&& r1.id == r0.id
    &&& if keep { r1.ch == r0.ch } else { r1.ch != 0 && !h0.chans.contains(r1.ch) && h1.chans.contains(r1.ch) }
    &&& copied(h0, h1, n, r)
}

// ---- transactions ----

pub open spec fn tm(h: H, t: Ptr) -> bool { h.m_Txn[t].trackMutate }
pub open spec fn old_max(h: H, t: Ptr) -> u64 { h.m_Txn[t].oldMaxNodeId }
/// Channels to be closed when the transaction is committed.
pub open spec fn trk(h: H, t: Ptr) -> Seq<Chan> { cs(h, h.m_Txn[t].trackChnSlice) }
/// The transaction's list of channels is its own.
pub open spec fn ctxn(h: H, t: Ptr) -> bool {
    txok(h, t) && match h.m_Txn[t].trackChnSlice.arr { Arr::A(a) => h.carr.contains_key(a) && h.carr[a].owner == own_Txn(t), Arr::Nil => true, Arr::Z => true, _ => false }
}
/// Outside the nodes, only the id counter and the channel list of the transaction changed.
pub open spec fn side(h0: H, h1: H, t: Ptr) -> bool {
    &&& forall|x: Ptr| #![trigger h1.m_Txn[x]] #![trigger h1.m_Txn.contains_key(x)] x != t ==> h1.m_Txn[x] == h0.m_Txn[x] && h1.m_Txn.contains_key(x) == h0.m_Txn.contains_key(x)
    &&& h1.m_Txn[t] == (RTxn { trackChnSlice: h1.m_Txn[t].trackChnSlice, ..h0.m_Txn[t] })
    &&& (h0.m_Txn.contains_key(t) ==> h1.m_Txn.contains_key(t)) && (h0.m_RadixTree.contains_key(tree_of(h0, t)) ==> h1.m_RadixTree.contains_key(tree_of(h0, t)))
    &&& forall|x: Ptr| #![trigger h1.m_RadixTree[x]] #![trigger h1.m_RadixTree.contains_key(x)] x != tree_of(h0, t) ==> h1.m_RadixTree[x] == h0.m_RadixTree[x] && h1.m_RadixTree.contains_key(x) == h0.m_RadixTree.contains_key(x)
    &&& h1.m_RadixTree[tree_of(h0, t)] == (RRadixTree { maxNodeId: max_id(h1, t), ..h0.m_RadixTree[tree_of(h0, t)] })
    &&& max_id(h0, t) <= max_id(h1, t)
    &&& forall|a: u64| #![trigger h1.carr[a]] #![trigger h1.carr.contains_key(a)] h0.carr.contains_key(a) && h0.carr[a].owner != own_Txn(t) ==> h1.carr.contains_key(a) && h1.carr[a] == h0.carr[a]
    &&& grown_n(h0, h1) && grown_c(h0, h1)
    &&& (ctxn(h0, t) ==> ctxn(h1, t))
    &&& h1 == (H { nodes: h1.nodes, gh: h1.gh, gx: h1.gx, bytes: h1.bytes, narr: h1.narr, carr: h1.carr, chans: h1.chans, m_Txn: h1.m_Txn, m_RadixTree: h1.m_RadixTree, ..h0 })
}
pub open spec fn fresh_ch(h0: H, h1: H, c: Chan) -> bool { c != 0 && !h0.chans.contains(c) && h1.chans.contains(c) }
/// The channel of the node at x is new if it was replaced.
pub open spec fn rech(h0: H, h1: H, t: Ptr, on: bool, x: Ptr) -> bool {
    h1.nodes.contains_key(x) && h1.nodes[x] == (Rec { ch: h1.nodes[x].ch, ..h0.nodes[x] })
        && if on && h0.nodes[x].id > old_max(h0, t) { fresh_ch(h0, h1, h1.nodes[x].ch) } else { h1.nodes[x].ch == h0.nodes[x].ch }
}
pub proof fn push_has(s: Seq<Chan>, c: Chan)
    ensures forall|x: Chan| #[trigger] s.push(c).contains(x) <==> s.contains(x) || x == c,
{
    assert forall|x: Chan| #[trigger] s.push(c).contains(x) <==> s.contains(x) || x == c by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(c)[i] == x); }
        if x == c { assert(s.push(c)[s.len() as int] == x); }
        if s.push(c).contains(x) { let i = choose|i: int| 0 <= i < s.push(c).len() && s.push(c)[i] == x; if i < s.len() { assert(s[i] == x); } }
    }
}
pub open spec fn wrote(h0: H, h1: H, t: Ptr, n: Node, tc: bool, r: Node) -> bool {
    let r0 = h0.nodes[n.p];
    let r1 = h1.nodes[r.p];
    let lf = leaf_of(h0, n);
    let on = tc && tm(h0, t);
    &&& side(h0, h1, t) && h1.gh == h0.gh && h1.gx == h0.gx
    &&& forall|x: Chan| #[trigger] trk(h1, t).contains(x) <==> trk(h0, t).contains(x) || (on && (x == r0.ch || (lf != 0 && x == h0.nodes[lf].ch)))
    &&& forall|x: Ptr| #![trigger h1.nodes[x]] #![trigger h1.nodes.contains_key(x)] x != r.p && x != n.p && (x != lf || lf == 0) ==> h1.nodes[x] == h0.nodes[x] && h1.nodes.contains_key(x) == h0.nodes.contains_key(x)
    &&& rech(h0, h1, t, on, n.p)
    &&& (lf != 0 ==> rech(h0, h1, t, on, lf))
    &&& (on && lf != 0 && h0.nodes[lf].id > old_max(h0, t) ==> h1.nodes[lf].ch != r1.ch)
    &&& if r0.id > old_max(h0, t) {
            r == n && h1.bytes == h0.bytes && max_id(h1, t) == max_id(h0, t)
        } else {
            &&& max_id(h1, t) == max_id(h0, t) + 1 && r1.id == max_id(h1, t)
            &&& r.tag == n.tag && kind_of(r.p) == r.tag && r.p != 0 && !h0.nodes.contains_key(r.p) && h1.nodes.contains_key(r.p)
            &&& if !tc && !tm(h0, t) { r1.ch == r0.ch } else { fresh_ch(h0, h1, r1.ch) }
            &&& copied(h0, h1, n, r)
        }
}
/// The contents of r are those of n, in arrays of its own.
pub open spec fn copied(h0: H, h1: H, n: Node, r: Node) -> bool {
    let r0 = h0.nodes[n.p];
    let r1 = h1.nodes[r.p];
    if n.tag == Tag::Leaf {
        &&& r1.value == r0.value
        &&& r1.key.len == r0.key.len && bs(h1, r1.key) == bs(h0, r0.key)
        &&& !h0.bytes.contains_key(key_id(h1, r.p)) && upd(h0.bytes, h1.bytes, key_id(h1, r.p))
        &&& r1.key.arr == Arr::A(key_id(h1, r.p)) && h1.bytes[key_id(h1, r.p)].owner == node_own(r.p)
    } else {
        &&& r1.keys == r0.keys && r1.children == r0.children && r1.partialLen == r0.partialLen && r1.numChildren == r0.numChildren && r1.leaf == r0.leaf
        &&& own_pre(h1, r.p)
        &&& !h0.bytes.contains_key(pre_id(h1, r.p)) && upd(h0.bytes, h1.bytes, pre_id(h1, r.p))
        &&& (r0.partial.len == 10 ==> forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h1, r1.partial, i) == bs_at(h0, r0.partial, i))
    }
}

pub proof fn trk_same(h0: H, h1: H, t: Ptr)
    requires h1.carr == h0.carr, h1.m_Txn[t].trackChnSlice == h0.m_Txn[t].trackChnSlice,
    ensures trk(h1, t) == trk(h0, t),
{ assert(trk(h1, t) =~= trk(h0, t)); }
/// r is a new node that holds a new leaf for the key.
pub open spec fn made(h0: H, h1: H, t: Ptr, key: Slice, v: Val, r: Node) -> bool {
    let n = h1.nodes[r.p];
    let l = n.leaf;
    &&& r.tag == Tag::N4 && kind_of(r.p) == Tag::N4 && kind_of(l) == Tag::Leaf && r.p != 0 && l != 0 && r.p != l
    &&& !h0.nodes.contains_key(r.p) && !h0.nodes.contains_key(l) && h1.nodes.contains_key(r.p) && h1.nodes.contains_key(l)
    &&& forall|x: Ptr| #![trigger h1.nodes[x]] #![trigger h1.nodes.contains_key(x)] x != r.p && x != l ==> h1.nodes[x] == h0.nodes[x] && h1.nodes.contains_key(x) == h0.nodes.contains_key(x)
    &&& n == (Rec { id: n.id, partial: n.partial, partialLen: 10, leaf: l, ..zero_rec(r.tag, n.ch) })
    &&& nwf(Tag::N4, n) && kids(Tag::N4, n) == reps(256, nil_node())
    &&& h1.nodes[l] == (Rec { id: h1.nodes[l].id, key: key, value: v, ..zero_rec(Tag::Leaf, h1.nodes[l].ch) })
    &&& fresh_ch(h0, h1, n.ch) && fresh_ch(h0, h1, h1.nodes[l].ch) && n.ch != h1.nodes[l].ch
    &&& max_id(h0, t) < n.id <= max_id(h1, t) && max_id(h0, t) < h1.nodes[l].id <= max_id(h1, t)
    &&& own_pre(h1, r.p) && !h0.bytes.contains_key(pre_id(h1, r.p))
    &&& forall|a: u64| #![trigger h1.bytes[a]] #![trigger h1.bytes.contains_key(a)] a != pre_id(h1, r.p) && key.arr != Arr::A(a) ==> h1.bytes[a] == h0.bytes[a] && h1.bytes.contains_key(a) == h0.bytes.contains_key(a)
    &&& match key.arr { Arr::A(a) => h1.bytes.contains_key(a) && h1.bytes[a] == (BArr { owner: node_own(l), ..h0.bytes[a] }), _ => true }
    &&& h1.chans == h0.chans.insert(n.ch).insert(h1.nodes[l].ch)
    &&& h1 == (H { nodes: h1.nodes, bytes: h1.bytes, chans: h1.chans, m_RadixTree: set_max(h0, t, max_id(h1, t)), ..h0 })
}
/// The tracked channels are closed and no longer tracked.
pub open spec fn notified(h0: H, h1: H, t: Ptr) -> bool {
    &&& forall|c: Chan| #[trigger] h1.closed.contains(c) <==> h0.closed.contains(c) || (c != 0 && trk(h0, t).contains(c))
    &&& h1 == (H { closed: h1.closed, m_Txn: h0.m_Txn.insert(t, RTxn { trackChnSlice: nil_slice(), ..h0.m_Txn[t] }), ..h0 })
}
pub open spec fn before(s: Seq<Chan>, n: int, c: Chan) -> bool { exists|i: int| 0 <= i < n && s[i] == c }

// ---- removing a child ----

pub open spec fn slot0(t: Tag, r: Rec, c: u8) -> int { if t == Tag::N256 { c as int } else { slot(t, r, c) } }
pub open spec fn dummy() -> Node { Node { tag: Tag::N4, p: 1 } }
/// The node with something in place of the missing child.
pub open spec fn fill(t: Tag, r: Rec, c: u8) -> Rec { Rec { children: r.children.update(slot0(t, r, c), dummy()), ..r } }
/// The node is well formed but for the child for c, which is nil.
pub open spec fn hole(t: Tag, r: Rec, c: u8) -> bool {
    0 <= slot0(t, r, c) < r.children.len() && r.children[slot0(t, r, c)] == nil_node() && nwf(t, fill(t, r, c))
}
/// The other children.
pub open spec fn rest(t: Tag, r: Rec, c: u8) -> Seq<Node> { kids(t, fill(t, r, c)).update(c as int, nil_node()) }
/// The position of a byte depends on the keys alone.
pub proof fn slot_keys(t: Tag, r: Rec, r1: Rec, c: u8)
    requires small(t), sorted(r), r1.keys == r.keys, r1.numChildren == r.numChildren,
    ensures slot(t, r, c) == slot(t, r1, c),
{
    reveal(sorted);
    if exists|i: int| at_key(r, c, i) {
        let i = choose|i: int| at_key(r, c, i);
        assert(at_key(r1, c, i));
        let j = choose|j: int| at_key(r1, c, j);
        assert(at_key(r, c, j));
        if i < j { assert(r.keys[i] < r.keys[j]); }
        if j < i { assert(r.keys[j] < r.keys[i]); }
    } else {
        assert forall|i: int| !at_key(r1, c, i) by { assert(!at_key(r, c, i)); }
    }
}
pub proof fn make_hole(t: Tag, r: Rec, c: u8)
    requires inner(t), nwf(t, r), kid(t, r, c).tag != Tag::Nil,
    ensures ({
        let r1 = Rec { children: r.children.update(slot(t, r, c), nil_node()), ..r };
        hole(t, r1, c) && rest(t, r1, c) == kids(t, r).update(c as int, nil_node())
    }),
{
    let s = slot(t, r, c);
    let r1 = Rec { children: r.children.update(s, nil_node()), ..r };
    let r2 = fill(t, r1, c);
    if small(t) { let i = small_cases(t, r, c); slot_keys(t, r, r1, c); }
    assert(slot0(t, r1, c) == s);
    assert(r2.children =~= r.children.update(s, dummy()));
    assert(sorted(r) ==> sorted(r2)) by { reveal(sorted); }
    count_update(r.children, s, dummy(), |x: Node| x.tag != Tag::Nil);
    assert(nn(r2.children) == nn(r.children));
    assert(nwf(t, r2));
    assert forall|x: int| 0 <= x < 256 implies kids(t, r2).update(c as int, nil_node())[x] == kids(t, r).update(c as int, nil_node())[x] by {
        if small(t) { small_cases(t, r, x as u8); small_cases(t, r2, x as u8); slot_keys(t, r, r2, x as u8); }
        if t == Tag::N48 && x != c && r.keys[x] != 0 { if x < c { assert(r.keys[x] != r.keys[c as int]); } else { assert(r.keys[c as int] != r.keys[x]); } }
    }
    assert(kids(t, r2).update(c as int, nil_node()) =~= kids(t, r).update(c as int, nil_node()));
}
pub proof fn rem_small(t: Tag, r0: Rec, r1: Rec, pos: int, c: u8)
    requires hole(t, r0, c), small(t), sized(t, r1), r1.numChildren == r0.numChildren - 1,
        pos == slot0(t, r0, c), r0.keys.len() == r0.children.len(),
        forall|i: int| 0 <= i < r0.children.len() ==> #[trigger] r1.children[i] == (if i < pos { r0.children[i] } else if i < r1.numChildren { r0.children[i + 1] } else { nil_node() }),
        forall|i: int| 0 <= i < r1.numChildren ==> #[trigger] r1.keys[i] == (if i < pos { r0.keys[i] } else { r0.keys[i + 1] }),
    ensures nwf(t, r1), kids(t, r1) == rest(t, r0, c),
{
    let f = fill(t, r0, c);
    let s = small_cases(t, f, c);
    slot_keys(t, f, r0, c);
    assert(s == pos);
    assert(sorted(r1)) by {
        reveal(sorted);
        assert forall|i: int, j: int| 0 <= i < j < r1.numChildren implies #[trigger] r1.keys[i] < #[trigger] r1.keys[j] by {
            let a = if i < pos { i } else { i + 1 };
            let b = if j < pos { j } else { j + 1 };
            assert(f.keys[a] < f.keys[b]);
        }
    }
    assert forall|i: int| 0 <= i < r1.numChildren implies (#[trigger] r1.children[i]).tag != Tag::Nil by {
        let a = if i < pos { i } else { i + 1 };
        assert(f.children[a].tag != Tag::Nil);
    }
    assert forall|x: int| 0 <= x < 256 implies kids(t, r1)[x] == rest(t, r0, c)[x] by {
        let i = small_cases(t, f, x as u8);
        if x == c {
            slot_none_rem(t, f, r1, pos, c);
        } else if i >= 0 {
            slot_small(t, r1, if i < pos { i } else { i - 1 });
        } else {
            slot_none(t, r1, x as u8);
        }
    }
    assert(kids(t, r1) =~= rest(t, r0, c));
}
pub proof fn slot_none_rem(t: Tag, f: Rec, r1: Rec, pos: int, c: u8)
    requires nwf(t, f), nwf(t, r1), small(t), 0 <= pos < f.numChildren, f.keys[pos] == c, r1.numChildren == f.numChildren - 1,
        forall|i: int| 0 <= i < r1.numChildren ==> #[trigger] r1.keys[i] == (if i < pos { f.keys[i] } else { f.keys[i + 1] }),
    ensures kid(t, r1, c) == nil_node(),
{
    reveal(sorted);
    assert forall|i: int| 0 <= i < r1.numChildren implies #[trigger] r1.keys[i] != c by {
        if i < pos { assert(f.keys[i] < f.keys[pos]); } else { assert(f.keys[pos] < f.keys[i + 1]); }
    }
    slot_none(t, r1, c);
}
/// The only child left of a small node.
pub open spec fn other(t: Tag, r: Rec, c: u8) -> u8 { if r.keys[0] == c { r.keys[1] } else { r.keys[0] } }
/// Taking the child away leaves a node that is replaced by its only child.
pub open spec fn joins(n: Node, r: Rec) -> bool { n.tag == Tag::N4 && r.numChildren == 2 && r.leaf == 0 }
pub open spec fn can_remove(h: H, t: Ptr, n: Node, c: u8) -> bool {
    let r = h.nodes[n.p];
    &&& ctxn(h, t) && inner(n.tag) && kind_of(n.p) == n.tag && n.p != 0 && hole(n.tag, r, c) && own_pre(h, n.p) && r.id > old_max(h, t)
    &&& forall|d: u8| #![trigger kid(n.tag, fill(n.tag, r, c), d)] d != c && kid(n.tag, fill(n.tag, r, c), d).tag != Tag::Nil ==> { let y = kid(n.tag, fill(n.tag, r, c), d); inner(y.tag) && kind_of(y.p) == y.tag && own_pre(h, y.p) && y.p != n.p && y.p != 0 && h.nodes.contains_key(y.p) }
}
/// What removing a child does besides the nodes.
pub open spec fn rem_side(h0: H, h1: H, t: Ptr, n: Node, on: bool) -> bool {
    &&& side(h0, h1, t) && h1.gh == h0.gh && h1.gx == h0.gx
    &&& forall|x: Chan| #[trigger] trk(h1, t).contains(x) <==> trk(h0, t).contains(x) || (on && tm(h0, t) && x == h0.nodes[n.p].ch)
    &&& h1.nodes.contains_key(n.p)
}
/// The result of removing a child: the node itself or a smaller copy.
pub open spec fn removed(h0: H, h1: H, t: Ptr, n: Node, c: u8, r: Node) -> bool {
    let r0 = h0.nodes[n.p];
    let r1 = h1.nodes[r.p];
    &&& inner(r.tag) && kind_of(r.p) == r.tag && nwf(r.tag, r1) && r.p != 0 && h1.nodes.contains_key(r.p)
    &&& kids(r.tag, r1) == rest(n.tag, r0, c)
    &&& r1.numChildren == r0.numChildren - 1
    &&& r1.leaf == r0.leaf
    &&& same_pre(h0, n.p, h1, r.p) && own_pre(h1, r.p)
    &&& rem_side(h0, h1, t, n, r != n)
    &&& forall|x: Ptr| #![trigger h1.nodes[x]] #![trigger h1.nodes.contains_key(x)] x != n.p && x != r.p ==> h1.nodes[x] == h0.nodes[x] && h1.nodes.contains_key(x) == h0.nodes.contains_key(x)
    &&& if r == n {
            h1.bytes == h0.bytes && r1.id == r0.id && r1.ch == r0.ch && r1.partial == r0.partial
        } else {
            &&& !h0.nodes.contains_key(r.p) && max_id(h0, t) < r1.id <= max_id(h1, t) && fresh_ch(h0, h1, r1.ch)
            &&& !h0.bytes.contains_key(pre_id(h1, r.p)) && upd(h0.bytes, h1.bytes, pre_id(h1, r.p))
        }
}
/// Byte i of the joint prefix of a node at p and its child at y for byte d.
pub open spec fn jb(h: H, p: Ptr, d: u8, y: Ptr, i: int) -> u8 {
    let m = h.nodes[p].partialLen as int;
    if i < m { bs_at(h, h.nodes[p].partial, i) } else if i == m { d } else { bs_at(h, h.nodes[y].partial, i - m - 1) }
}
/// The node was replaced by its only child y, which took over the prefix.
pub open spec fn joined(h0: H, h1: H, t: Ptr, n: Node, c: u8, r: Node) -> bool {
    let r0 = h0.nodes[n.p];
    let r1 = h1.nodes[r.p];
    let d = other(n.tag, r0, c);
    let y = kid(n.tag, fill(n.tag, r0, c), d);
    let ry = h0.nodes[y.p];
    let m = r0.partialLen as int;
    &&& d != c && y.tag != Tag::Nil
    &&& forall|x: u8| x != c && x != d ==> (#[trigger] kid(n.tag, fill(n.tag, r0, c), x)).tag == Tag::Nil
    &&& r.tag == y.tag && kind_of(r.p) == r.tag && r.p != n.p && r.p != 0 && h1.nodes.contains_key(r.p)
    &&& r1.keys == ry.keys && r1.children == ry.children && r1.numChildren == ry.numChildren && r1.leaf == ry.leaf && r1.ch == ry.ch
    &&& own_pre(h1, r.p)
    &&& (m + ry.partialLen + 1 < 0x1_0000_0000 ==> r1.partialLen == m + ry.partialLen + 1
            && forall|i: int| 0 <= i < stored(r1.partialLen) ==> #[trigger] bs_at(h1, r1.partial, i) == jb(h0, n.p, d, y.p, i))
    &&& rem_side(h0, h1, t, n, true)
    &&& forall|x: Ptr| #![trigger h1.nodes[x]] #![trigger h1.nodes.contains_key(x)] x != n.p && x != r.p ==> h1.nodes[x] == h0.nodes[x] && h1.nodes.contains_key(x) == h0.nodes.contains_key(x)
    &&& forall|a: u64| #![trigger h1.bytes[a]] #![trigger h1.bytes.contains_key(a)] a != pre_id(h0, n.p) && a != pre_id(h1, r.p) ==> h1.bytes[a] == h0.bytes[a] && h1.bytes.contains_key(a) == h0.bytes.contains_key(a)
    &&& h1.bytes.contains_key(pre_id(h0, n.p)) && h1.bytes[pre_id(h0, n.p)].owner == node_own(n.p)
    &&& if ry.id > old_max(h0, t) {
            r == y && r1.id == ry.id && r1.partial == ry.partial
        } else {
            !h0.nodes.contains_key(r.p) && max_id(h0, t) < r1.id <= max_id(h1, t) && !h0.bytes.contains_key(pre_id(h1, r.p))
        }
}

pub proof fn count_take<A>(s: Seq<A>, i: int, f: spec_fn(A) -> bool)
    requires 0 <= i <= s.len(),
    ensures count(s.take(i), f) <= count(s, f), i < s.len() ==> count(s.take(i + 1), f) == count(s.take(i), f) + (if f(s[i]) { 1int } else { 0 }) && count(s.take(i + 1), f) <= count(s, f), count(s.take(0), f) == 0,
    decreases s.len() - i,
{
    assert(s.take(0).len() == 0);
    if i < s.len() {
        assert(s.take(i + 1).drop_last() =~= s.take(i));
        count_take(s, i + 1, f);
    } else {
        assert(s.take(i) =~= s);
    }
}
/// Removing the child in place.
pub proof fn rem48(r0: Rec, r1: Rec, c: u8)
    requires hole(Tag::N48, r0, c), r1.children == r0.children, r1.keys == r0.keys.update(c as int, 0u8), r1.numChildren == r0.numChildren - 1,
    ensures nwf(Tag::N48, r1), kids(Tag::N48, r1) == rest(Tag::N48, r0, c),
{
    let f = fill(Tag::N48, r0, c);
    let s = r0.keys[c as int] - 1;
    let g = |x: Node| x.tag != Tag::Nil;
    let gz = |x: u8| x != 0;
    assert(f.children.update(s, nil_node()) =~= r0.children);
    count_update(f.children, s, nil_node(), g);
    count_update(r0.keys, c as int, 0u8, gz);
    assert(nn(r1.children) == count(r1.children, g) && nn(f.children) == count(f.children, g));
    assert(nz(r1.keys) == count(r1.keys, gz) && nz(f.keys) == count(f.keys, gz));
    assert forall|d: int| 0 <= d < 256 && d != c && #[trigger] r1.keys[d] != 0 implies r1.keys[d] - 1 != s by {
        if d < c { assert(f.keys[d] != f.keys[c as int]); } else { assert(f.keys[c as int] != f.keys[d]); }
    }
    assert forall|d: int| 0 <= d < 256 implies #[trigger] r1.keys[d] <= 48 && (r1.keys[d] != 0 ==> r1.children[r1.keys[d] - 1].tag != Tag::Nil) by {
        assert(f.keys[d] <= 48);
        if d != c && r1.keys[d] != 0 { assert(f.children[f.keys[d] - 1].tag != Tag::Nil); }
    }
    assert forall|a: int, b: int| 0 <= a < b < 256 && #[trigger] r1.keys[a] != 0 implies r1.keys[a] != #[trigger] r1.keys[b] by { assert(f.keys[a] != f.keys[b] || b == c); }
    assert(kids(Tag::N48, r1) =~= rest(Tag::N48, r0, c));
}
pub proof fn rem256(r0: Rec, r1: Rec, c: u8)
    requires hole(Tag::N256, r0, c), r1.children == r0.children, r1.keys == r0.keys, r1.numChildren == r0.numChildren - 1,
    ensures nwf(Tag::N256, r1), kids(Tag::N256, r1) == rest(Tag::N256, r0, c),
{
    let f = fill(Tag::N256, r0, c);
    let g = |x: Node| x.tag != Tag::Nil;
    assert(f.children.update(c as int, nil_node()) =~= r0.children);
    count_update(f.children, c as int, nil_node(), g);
    assert(nn(r1.children) == count(r1.children, g) && nn(f.children) == count(f.children, g));
    assert(kids(Tag::N256, r1) =~= rest(Tag::N256, r0, c));
}
/// A node4 with the children of a node16.
pub proof fn shrink16(r0: Rec, r1: Rec)
    requires nwf(Tag::N16, r0), sized(Tag::N4, r1), r1.numChildren == r0.numChildren, r0.numChildren <= 4,
        forall|i: int| 0 <= i < 4 ==> #[trigger] r1.children[i] == r0.children[i],
        forall|i: int| 0 <= i < 4 ==> #[trigger] r1.keys[i] == r0.keys[i],
    ensures nwf(Tag::N4, r1), kids(Tag::N4, r1) == kids(Tag::N16, r0),
{
    assert(sorted(r1)) by { reveal(sorted); }
    assert(nwf(Tag::N4, r1));
    assert forall|x: int| 0 <= x < 256 implies kids(Tag::N4, r1)[x] == kids(Tag::N16, r0)[x] by {
        let i = small_cases(Tag::N16, r0, x as u8);
        if i >= 0 { slot_small(Tag::N4, r1, i); } else { slot_none(Tag::N4, r1, x as u8); }
    }
    assert(kids(Tag::N4, r1) =~= kids(Tag::N16, r0));
}
pub open spec fn has_key(r: Rec, m: int, c: u8) -> bool { exists|j: int| 0 <= j < m && #[trigger] r.keys[j] == c }
/// A node16 with the children of a node48.
pub proof fn shrink48(r0: Rec, r1: Rec)
    requires nwf(Tag::N48, r0), sized(Tag::N16, r1), r1.numChildren == r0.numChildren, r0.numChildren <= 16, sorted(r1),
        forall|i: int| 0 <= i < r1.numChildren ==> #[trigger] r1.children[i] == kid(Tag::N48, r0, r1.keys[i]) && r1.children[i].tag != Tag::Nil,
        forall|i: int| r1.numChildren <= i < 16 ==> #[trigger] r1.children[i] == nil_node(),
        forall|c: int| 0 <= c < 256 && #[trigger] r0.keys[c] != 0 ==> has_key(r1, r1.numChildren as int, c as u8),
    ensures nwf(Tag::N16, r1), kids(Tag::N16, r1) == kids(Tag::N48, r0),
{
    assert forall|x: int| 0 <= x < 256 implies kids(Tag::N16, r1)[x] == kids(Tag::N48, r0)[x] by {
        let i = small_cases(Tag::N16, r1, x as u8);
        if i < 0 && r0.keys[x] != 0 {
            let j = choose|j: int| 0 <= j < r1.numChildren && #[trigger] r1.keys[j] == x as u8;
            assert(r1.keys[j] != x as u8);
        }
    }
    assert(kids(Tag::N16, r1) =~= kids(Tag::N48, r0));
}
/// The first k places of r hold the children of the node48 for the bytes below i.
#[verifier::opaque]
pub open spec fn m48(r0: Rec, r: Rec, k: int, i: int) -> bool {
    &&& 0 <= i <= 256 && 0 <= k <= r0.numChildren && k == nz(r0.keys.take(i)) && (i < 256 && r0.keys[i] != 0 ==> k < r0.numChildren)
    &&& r.keys.len() == 16 && r.children.len() == 16
    &&& forall|j: int| 0 <= j < k ==> #[trigger] r.keys[j] < i
    &&& forall|j: int, l: int| 0 <= j < l < k ==> #[trigger] r.keys[j] < #[trigger] r.keys[l]
    &&& forall|j: int| 0 <= j < k ==> #[trigger] r.children[j] == kid(Tag::N48, r0, r.keys[j]) && r.children[j].tag != Tag::Nil
    &&& forall|j: int| k <= j < 16 ==> #[trigger] r.children[j] == nil_node()
    &&& forall|c: int| 0 <= c < i && #[trigger] r0.keys[c] != 0 ==> has_key(r, k, c as u8)
}
pub proof fn m48_init(r0: Rec, r: Rec)
    requires nwf(Tag::N48, r0), r.keys.len() == 16, r.children.len() == 16, r.children =~= reps(16, nil_node()),
    ensures m48(r0, r, 0, 0),
{
    reveal(m48);
    count_take(r0.keys, 0, |x: u8| x != 0);
}
pub proof fn m48_facts(r0: Rec, r: Rec, k: int, i: int)
    requires m48(r0, r, k, i), nwf(Tag::N48, r0), r0.numChildren <= 16, i < 256,
    ensures 0 <= k, r0.keys[i] != 0 ==> k < r0.numChildren, r.keys.len() == 16, r.children.len() == 16,
{ reveal(m48); }
pub proof fn m48_step(r0: Rec, r: Rec, r1: Rec, k: int, i: int)
    requires nwf(Tag::N48, r0), m48(r0, r, k, i), i < 256, r0.numChildren <= 16,
        r0.keys[i] == 0 ==> r1 == r,
        r0.keys[i] != 0 ==> r1.keys == r.keys.update(k, i as u8) && r1.children == r.children.update(k, r0.children[r0.keys[i] - 1]),
    ensures m48(r0, r1, if r0.keys[i] == 0 { k } else { k + 1 }, i + 1),
{
    reveal(m48);
    let f = |x: u8| x != 0;
    count_take(r0.keys, i, f);
    if i + 1 < 256 { count_take(r0.keys, i + 1, f); }
    let k1 = if r0.keys[i] == 0 { k } else { k + 1 };
    assert forall|c: int| 0 <= c < i + 1 && #[trigger] r0.keys[c] != 0 implies has_key(r1, k1, c as u8) by {
        if c < i {
            assert(has_key(r, k, c as u8));
            let j = choose|j: int| 0 <= j < k && #[trigger] r.keys[j] == c as u8;
            assert(r1.keys[j] == c as u8);
        } else {
            assert(r1.keys[k] == c as u8);
        }
    }
}
pub proof fn m48_end(r0: Rec, r: Rec, k: int)
    requires nwf(Tag::N48, r0), m48(r0, r, k, 256), r.numChildren == r0.numChildren, r0.numChildren <= 16,
    ensures nwf(Tag::N16, r), kids(Tag::N16, r) == kids(Tag::N48, r0),
{
    reveal(m48);
    assert(r0.keys.take(256) =~= r0.keys);
    assert(sorted(r)) by { reveal(sorted); }
    shrink48(r0, r);
}
/// A node48 with the children of a node256.
pub proof fn shrink256(r0: Rec, r1: Rec)
    requires nwf(Tag::N256, r0), sized(Tag::N48, r1), r1.numChildren == r0.numChildren, r0.numChildren <= 48,
        forall|c: int| 0 <= c < 256 ==> (#[trigger] r1.keys[c] != 0 <==> r0.children[c].tag != Tag::Nil),
        forall|c: int| 0 <= c < 256 && #[trigger] r1.keys[c] != 0 ==> r1.keys[c] <= r0.numChildren && r1.children[r1.keys[c] - 1] == r0.children[c],
        forall|c: int, d: int| 0 <= c < d < 256 && #[trigger] r1.keys[c] != 0 ==> r1.keys[c] != #[trigger] r1.keys[d],
        forall|j: int| 0 <= j < 48 ==> ((#[trigger] r1.children[j]).tag != Tag::Nil <==> j < r0.numChildren),
        forall|c: int| 0 <= c < 256 ==> typed(#[trigger] r0.children[c]),
    ensures nwf(Tag::N48, r1), kids(Tag::N48, r1) == kids(Tag::N256, r0),
{
    let g = |x: Node| x.tag != Tag::Nil;
    let gz = |x: u8| x != 0;
    assert(nn(r1.children) == count(r1.children, g) && nn(r0.children) == count(r0.children, g));
    assert(nz(r1.keys) == count(r1.keys, gz));
    count_first(r1.children, g, r0.numChildren as int);
    assert forall|i: int| 0 <= i < r1.keys.len() implies gz(#[trigger] r1.keys[i]) == g(r0.children[i]) by { }
    count_same(r1.keys, gz, r0.children, g);
    assert forall|x: int| 0 <= x < 256 implies kids(Tag::N48, r1)[x] == kids(Tag::N256, r0)[x] by { assert(r1.keys[x] != 0 <==> r0.children[x].tag != Tag::Nil); }
    assert(kids(Tag::N48, r1) =~= kids(Tag::N256, r0));
}
pub proof fn hole_num(t: Tag, r: Rec, c: u8)
    requires inner(t), hole(t, r, c),
    ensures 0 < r.numChildren <= 256,
{
    let f = fill(t, r, c);
    if small(t) { slot_keys(t, f, r, c); small_cases(t, f, c); }
    num_kids(t, f);
    assert(kid(t, f, c) == dummy());
}
pub proof fn pre_step(h0: H, p: Ptr, hx: H, h1: H, q: Ptr, h2: H)
    requires same_pre(hx, p, h1, q), own_pre(h0, p), own_pre(h1, q),
        hx.nodes[p].partialLen == h0.nodes[p].partialLen, hx.nodes[p].partial == h0.nodes[p].partial, hx.bytes[pre_id(h0, p)].data == h0.bytes[pre_id(h0, p)].data,
        h2.nodes[q].partialLen == h1.nodes[q].partialLen, h2.nodes[q].partial == h1.nodes[q].partial, h2.bytes[pre_id(h1, q)].data == h1.bytes[pre_id(h1, q)].data,
    ensures same_pre(h0, p, h2, q),
{
    assert forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) implies #[trigger] bs_at(h2, h2.nodes[q].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by {
        assert(bs_at(h2, h2.nodes[q].partial, i) == bs_at(h1, h1.nodes[q].partial, i));
        assert(bs_at(hx, hx.nodes[p].partial, i) == bs_at(h0, h0.nodes[p].partial, i));
    }
}
