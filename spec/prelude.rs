// Memory model of the Go program: everything in this module is trusted.
//
// A heap maps pointers to records. Records are generated from the Go struct
// declarations; slices are (array, offset, length, capacity) as in Go. Nothing
// here speaks about trees.

pub type Ptr = u64;
pub type Chan = u64;

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Tag { Nil, Leaf, N4, N16, N48, N256 }

/// A value of the Node interface: dynamic type and pointer.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Node { pub tag: Tag, pub p: Ptr }

/// Backing array of a slice: none, none but not nil, allocated, keys or children field of a node.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Arr { Nil, Z, A(u64), K(u64), C(u64) }

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Slice { pub arr: Arr, pub off: i64, pub len: i64, pub cap: i64 }

/// A value of the type parameter.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Val { x: u64 }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct GoStr { x: u64 }

impl GoStr { pub uninterp spec fn view(&self) -> Seq<u8>; }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Callback { x: u64 }

pub const NIL: Node = Node { tag: Tag::Nil, p: 0 };
pub const NILS: Slice = Slice { arr: Arr::Nil, off: 0, len: 0, cap: 0 };

pub const EMPTYS: Slice = Slice { arr: Arr::Z, off: 0, len: 0, cap: 0 };
pub open spec fn empty_slice() -> Slice { Slice { arr: Arr::Z, off: 0, len: 0, cap: 0 } }
pub open spec fn nil_node() -> Node { Node { tag: Tag::Nil, p: 0 } }
pub open spec fn nil_slice() -> Slice { Slice { arr: Arr::Nil, off: 0, len: 0, cap: 0 } }
pub uninterp spec fn zero_val() -> Val;
#[verifier::external_body] pub fn zero_value() -> (r: Val)
    ensures r == zero_val(),
{ unimplemented!() }
#[verifier::external_body] pub fn empty_str() -> (r: GoStr)
    ensures r@ == Seq::<u8>::empty(),
{ unimplemented!() }

// ---- type safety: facts the Go type system and runtime give ----

/// Dynamic type of the object at a pointer; fixed for the life of the object.
pub uninterp spec fn kind_of(p: Ptr) -> Tag;
/// Length of a backing array; fixed for the life of the array.
pub uninterp spec fn alen(a: Arr) -> int;

pub open spec fn typed(n: Node) -> bool {
    (n.tag == Tag::Nil <==> n.p == 0) && (n.tag != Tag::Nil ==> kind_of(n.p) == n.tag)
}
pub open spec fn swf(s: Slice) -> bool {
    match s.arr {
        Arr::Nil => s == nil_slice(),
        Arr::Z => s == empty_slice(),
        _ => 0 <= s.off && 0 <= s.len <= s.cap && s.off + s.cap <= alen(s.arr) && s.off + s.cap <= 0x1_0000_0000_0000,
    }
}
pub open spec fn leafptr(p: Ptr) -> bool { p == 0 || kind_of(p) == Tag::Leaf }

/// Who stored the array in one of its fields: kind 0 nobody, 1 a node, 2.. other objects.
pub ghost struct Own { pub k: int, pub p: Ptr }
pub open spec fn nobody() -> Own { Own { k: 0, p: 0 } }
pub open spec fn node_own(p: Ptr) -> Own { Own { k: 1, p } }

pub ghost struct BArr { pub data: Seq<u8>, pub owner: Own }
pub ghost struct NArr { pub data: Seq<Node>, pub owner: Own }
pub ghost struct CArr { pub data: Seq<Chan>, pub owner: Own }

pub open spec fn own_b(m: Map<u64, BArr>, a: Arr, o: Own) -> Map<u64, BArr> {
    match a { Arr::A(i) => m.insert(i, BArr { owner: o, ..m[i] }), _ => m }
}
pub open spec fn own_n(m: Map<u64, NArr>, a: Arr, o: Own) -> Map<u64, NArr> {
    match a { Arr::A(i) => m.insert(i, NArr { owner: o, ..m[i] }), _ => m }
}
pub open spec fn own_c(m: Map<u64, CArr>, a: Arr, o: Own) -> Map<u64, CArr> {
    match a { Arr::A(i) => m.insert(i, CArr { owner: o, ..m[i] }), _ => m }
}

/// What a tree holds for a key: the value and the watch channel of its leaf.
pub ghost struct Ent { pub v: Val, pub ch: Chan }

/// Ghost information per node, written only by proof hints.
pub ghost struct GRec {
    /// path from the root to the start of the node's own prefix; for a leaf object its key
    pub sp: Seq<u8>,
    /// path to the end of the node's prefix; for a node that only holds a leaf the key of the leaf
    pub gp: Seq<u8>,
    /// keys below the node
    pub cont: Map<Seq<u8>, Ent>,
    /// the transaction that may modify the node, 0 when it is shared
    pub own: Ptr,
    /// no node from here down has a larger id
    pub mx: u64,
    /// ids of nodes the owner may modify are above
    pub lo: u64,
    /// for an owned node: the owned nodes from here down
    pub sub: Set<Ptr>,
    /// channel of the node at which a descent along a path stops
    pub wc: spec_fn(Seq<u8>) -> Chan,
}

/// Ghost information about channels.
pub ghost struct GX {
    /// key of the leaf a channel belongs to; absent for channels of inner nodes
    pub lk: Map<Chan, Seq<u8>>,
}

#[verifier::external_body]
pub struct Heap { x: u64 }

impl Heap { pub uninterp spec fn view(&self) -> H; }

#[verifier::external_body] pub fn gset(h: &mut Heap, g: Ghost<Map<Ptr, GRec>>)
    ensures final(h)@ == (H { gh: g@, ..old(h)@ }),
{ unimplemented!() }
#[verifier::external_body] pub fn gxset(h: &mut Heap, g: Ghost<GX>)
    ensures final(h)@ == (H { gx: g@, ..old(h)@ }),
{ unimplemented!() }

pub open spec fn rec_ok(p: Ptr, r: Rec) -> bool {
    r.keys.len() == keys_len(kind_of(p)) && r.children.len() == children_len(kind_of(p))
    && (forall|i: int| 0 <= i < r.children.len() ==> typed(#[trigger] r.children[i]))
    && swf(r.partial) && swf(r.key) && leafptr(r.leaf)
}
/// Type safety of the record at p.
#[verifier::external_body] pub proof fn ax_node(h: &Heap, p: Ptr)
    requires h@.nodes.contains_key(p),
    ensures rec_ok(p, h@.nodes[p]), p != 0, kind_of(p) != Tag::Nil,
{ }
/// Type safety of every record.
#[verifier::external_body] pub proof fn ax_nodes(h: &Heap)
    ensures forall|p: Ptr| #[trigger] h@.nodes.contains_key(p) ==> rec_ok(p, h@.nodes[p]) && p != 0 && kind_of(p) != Tag::Nil,
{ }
pub open spec fn arrs(h: H) -> bool { forall|a: u64| #[trigger] h.bytes.contains_key(a) && h.bytes[a].owner.k == 1 ==> h.nodes.contains_key(h.bytes[a].owner.p) }
pub open spec fn alens(h: H) -> bool { forall|a: u64| #[trigger] h.bytes.contains_key(a) ==> h.bytes[a].data.len() == alen(Arr::A(a)) }
/// Arrays keep their length; only an existing node can have stored one.
#[verifier::external_body] pub proof fn ax_arrays(h: &Heap)
    ensures arrs(h@), alens(h@),
{ }
pub open spec fn nlens(h: H) -> bool { forall|a: u64| #[trigger] h.narr.contains_key(a) ==> h.narr[a].data.len() == alen(Arr::A(a)) }
#[verifier::external_body] pub proof fn ax_narr(h: &Heap)
    ensures
        nlens(h@),
        forall|a: u64, i: int| h@.narr.contains_key(a) && 0 <= i < h@.narr[a].data.len() ==> typed(#[trigger] h@.narr[a].data[i]),
{ }
#[verifier::external_body] pub proof fn ax_carr(h: &Heap)
    ensures
        forall|a: u64| #[trigger] h@.carr.contains_key(a) ==> h@.carr[a].data.len() == alen(Arr::A(a)),
{ }

// ---- small operations ----

pub fn node_eq(a: Node, b: Node) -> (r: bool)
    ensures r == (a == b),
{ a == b }
pub fn is_tag(a: Node, t: Tag) -> (r: bool)
    ensures r == (a.tag == t),
{ a.tag == t }
pub fn slice_is_nil(s: Slice) -> (r: bool)
    ensures r == (s.arr == Arr::Nil),
{ s.arr == Arr::Nil }
/// Conversion of a non-nil pointer to the interface.
pub fn mk_node(t: Tag, p: Ptr) -> (r: Node)
    requires p != 0, kind_of(p) == t, t != Tag::Nil,
    ensures r == (Node { tag: t, p }), typed(r),
{ Node { tag: t, p } }
pub fn as_iface(n: Node) -> (r: Node)
    requires n.tag != Tag::Nil,
    ensures r == n,
{ n }
#[verifier::external_body] pub fn box_node(n: Node) -> (r: Ptr)
    ensures r != 0,
{ unimplemented!() }
pub fn half(x: i64) -> (r: i64)
    requires x >= 0,
    ensures r == x / 2,
{ (x as u64 / 2) as i64 }

pub fn slice_from(s: Slice, lo: i64) -> (r: Slice)
    requires 0 <= lo <= s.len, swf(s),
    ensures r == (Slice { arr: s.arr, off: (s.off + lo) as i64, len: (s.len - lo) as i64, cap: (s.cap - lo) as i64 }), swf(r),
{ Slice { arr: s.arr, off: s.off + lo, len: s.len - lo, cap: s.cap - lo } }
pub fn slice_range(s: Slice, lo: i64, hi: i64) -> (r: Slice)
    requires 0 <= lo <= hi <= s.cap, swf(s),
    ensures r == (Slice { arr: s.arr, off: (s.off + lo) as i64, len: (hi - lo) as i64, cap: (s.cap - lo) as i64 }), swf(r),
{ Slice { arr: s.arr, off: s.off + lo, len: hi - lo, cap: s.cap - lo } }

// ---- byte slices ----

pub open spec fn bs_at(h: H, s: Slice, i: int) -> u8 {
    match s.arr {
        Arr::A(a) => h.bytes[a].data[s.off + i],
        Arr::K(p) => h.nodes[p].keys[s.off + i],
        _ => 0u8,
    }
}
pub open spec fn bs(h: H, s: Slice) -> Seq<u8> { Seq::new(s.len as nat, |i: int| bs_at(h, s, i)) }

pub open spec fn reps<A>(n: int, v: A) -> Seq<A> { Seq::new(n as nat, |i: int| v) }
pub open spec fn splice<A>(d: Seq<A>, off: int, v: Seq<A>) -> Seq<A> {
    Seq::new(d.len(), |j: int| if off <= j < off + v.len() { v[j - off] } else { d[j] })
}
pub open spec fn put_b(h: H, s: Slice, i: int, v: u8) -> H {
    match s.arr {
        Arr::A(a) => H { bytes: h.bytes.insert(a, BArr { data: h.bytes[a].data.update(s.off + i, v), ..h.bytes[a] }), ..h },
        Arr::K(p) => H { nodes: h.nodes.insert(p, Rec { keys: h.nodes[p].keys.update(s.off + i, v), ..h.nodes[p] }), ..h },
        _ => h,
    }
}
pub open spec fn write_b(h: H, s: Slice, v: Seq<u8>) -> H {
    match s.arr {
        Arr::A(a) => H { bytes: h.bytes.insert(a, BArr { data: splice(h.bytes[a].data, s.off as int, v), ..h.bytes[a] }), ..h },
        Arr::K(p) => H { nodes: h.nodes.insert(p, Rec { keys: splice(h.nodes[p].keys, s.off as int, v), ..h.nodes[p] }), ..h },
        _ => h,
    }
}
#[verifier::external_body] pub fn bs_get(h: &Heap, s: Slice, i: i64) -> (r: u8)
    requires 0 <= i < s.len,
    ensures r == bs_at(h@, s, i as int),
{ unimplemented!() }
#[verifier::external_body] pub fn bs_set(h: &mut Heap, s: Slice, i: i64, v: u8)
    requires 0 <= i < s.len,
    ensures final(h)@ == put_b(old(h)@, s, i as int, v),
{ unimplemented!() }
#[verifier::external_body] pub fn bs_copy(h: &mut Heap, d: Slice, s: Slice) -> (r: i64)
    ensures
        r == if d.len < s.len { d.len } else { s.len },
        final(h)@ == write_b(old(h)@, d, bs(old(h)@, s).subrange(0, r as int)),
{ unimplemented!() }
#[verifier::external_body] pub fn bs_make(h: &mut Heap, n: i64) -> (r: Slice)
    requires 0 <= n,
    ensures
        swf(r), r.off == 0, r.len == n,
        exists|a: u64| r.arr == Arr::A(a) && !old(h)@.bytes.contains_key(a)
            && final(h)@ == (H { bytes: #[trigger] old(h)@.bytes.insert(a, BArr { data: reps(r.cap as int, 0u8), owner: nobody() }), ..old(h)@ }),
{ unimplemented!() }
#[verifier::external_body] pub fn str_bytes(h: &mut Heap, s: GoStr) -> (r: Slice)
    ensures
        swf(r), r.off == 0, r.len == s@.len(), r.cap == r.len,
        exists|a: u64| r.arr == Arr::A(a) && !old(h)@.bytes.contains_key(a)
            && final(h)@ == (H { bytes: #[trigger] old(h)@.bytes.insert(a, BArr { data: s@, owner: nobody() }), ..old(h)@ }),
{ unimplemented!() }
#[verifier::external_body] pub fn bytes_str(h: &Heap, s: Slice) -> (r: GoStr)
    ensures r@ == bs(h@, s),
{ unimplemented!() }

/// p is a prefix of k.
pub open spec fn pfx(p: Seq<u8>, k: Seq<u8>) -> bool {
    p.len() <= k.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == #[trigger] k[i]
}
/// a and b agree before i and a is smaller there.
pub open spec fn lt_at(a: Seq<u8>, b: Seq<u8>, i: int) -> bool {
    0 <= i <= a.len() && i < b.len() && (i < a.len() ==> a[i] < b[i])
    && forall|j: int| 0 <= j < i ==> #[trigger] a[j] == #[trigger] b[j]
}
/// Byte order.
pub open spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool { exists|i: int| lt_at(a, b, i) }

#[verifier::external_body] pub fn bytes_compare(h: &Heap, a: Slice, b: Slice) -> (r: i64)
    ensures
        -1 <= r <= 1,
        r == 0 <==> bs(h@, a) =~= bs(h@, b),
        r < 0 <==> lt(bs(h@, a), bs(h@, b)),
        r > 0 <==> lt(bs(h@, b), bs(h@, a)),
{ unimplemented!() }
#[verifier::external_body] pub fn bytes_equal(h: &Heap, a: Slice, b: Slice) -> (r: bool)
    ensures r == (bs(h@, a) =~= bs(h@, b)),
{ unimplemented!() }
#[verifier::external_body] pub fn bytes_has_prefix(h: &Heap, a: Slice, b: Slice) -> (r: bool)
    ensures r == pfx(bs(h@, b), bs(h@, a)),
{ unimplemented!() }

// ---- slices of nodes ----

pub open spec fn ns_at(h: H, s: Slice, i: int) -> Node {
    match s.arr {
        Arr::A(a) => h.narr[a].data[s.off + i],
        Arr::C(p) => h.nodes[p].children[s.off + i],
        _ => nil_node(),
    }
}
pub open spec fn ns(h: H, s: Slice) -> Seq<Node> { Seq::new(s.len as nat, |i: int| ns_at(h, s, i)) }
pub open spec fn write_n(h: H, s: Slice, v: Seq<Node>) -> H {
    match s.arr {
        Arr::A(a) => H { narr: h.narr.insert(a, NArr { data: splice(h.narr[a].data, s.off as int, v), ..h.narr[a] }), ..h },
        Arr::C(p) => H { nodes: h.nodes.insert(p, Rec { children: splice(h.nodes[p].children, s.off as int, v), ..h.nodes[p] }), ..h },
        _ => h,
    }
}
pub open spec fn put_n(h: H, s: Slice, i: int, v: Node) -> H {
    match s.arr {
        Arr::A(a) => H { narr: h.narr.insert(a, NArr { data: h.narr[a].data.update(s.off + i, v), ..h.narr[a] }), ..h },
        Arr::C(p) => H { nodes: h.nodes.insert(p, Rec { children: h.nodes[p].children.update(s.off + i, v), ..h.nodes[p] }), ..h },
        _ => h,
    }
}
#[verifier::external_body] pub fn ns_get(h: &Heap, s: Slice, i: i64) -> (r: Node)
    requires 0 <= i < s.len,
    ensures r == ns_at(h@, s, i as int), typed(r),
{ unimplemented!() }
#[verifier::external_body] pub fn ns_set(h: &mut Heap, s: Slice, i: i64, v: Node)
    requires 0 <= i < s.len,
    ensures final(h)@ == put_n(old(h)@, s, i as int, v),
{ unimplemented!() }
#[verifier::external_body] pub fn ns_copy(h: &mut Heap, d: Slice, s: Slice) -> (r: i64)
    ensures
        r == if d.len < s.len { d.len } else { s.len },
        final(h)@ == write_n(old(h)@, d, ns(old(h)@, s).subrange(0, r as int)),
{ unimplemented!() }
#[verifier::external_body] pub fn ns_make(h: &mut Heap, n: i64) -> (r: Slice)
    requires 0 <= n,
    ensures
        swf(r), r.off == 0, r.len == n,
        exists|a: u64| r.arr == Arr::A(a) && !old(h)@.narr.contains_key(a)
            && final(h)@ == (H { narr: #[trigger] old(h)@.narr.insert(a, NArr { data: reps(r.cap as int, nil_node()), owner: nobody() }), ..old(h)@ }),
{ unimplemented!() }
/// append writes in place when there is room, otherwise into a new array.
#[verifier::external_body] pub fn ns_append(h: &mut Heap, s: Slice, v: Node) -> (r: Slice)
    requires swf(s),
    ensures
        swf(r), r.len == s.len + 1,
        s.len < s.cap ==> r == (Slice { len: (s.len + 1) as i64, ..s }) && final(h)@ == put_n(old(h)@, s, s.len as int, v),
        s.len >= s.cap ==> r.off == 0 && exists|a: u64| #![trigger old(h)@.narr.contains_key(a)] r.arr == Arr::A(a) && !old(h)@.narr.contains_key(a)
            && exists|d: Seq<Node>| #![trigger old(h)@.narr.insert(a, NArr { data: d, owner: nobody() })] d.len() == r.cap && d.subrange(0, r.len as int) == ns(old(h)@, s).push(v)
                && final(h)@ == (H { narr: old(h)@.narr.insert(a, NArr { data: d, owner: nobody() }), ..old(h)@ }),
{ unimplemented!() }
#[verifier::external_body] pub fn ns_append_all(h: &mut Heap, s: Slice, v: Slice) -> (r: Slice)
    requires swf(s), swf(v),
    ensures
        swf(r), r.len == s.len + v.len,
        s.len + v.len <= s.cap ==> r == (Slice { len: (s.len + v.len) as i64, ..s })
            && final(h)@ == write_n(old(h)@, Slice { off: (s.off + s.len) as i64, len: v.len, cap: v.len, arr: s.arr }, ns(old(h)@, v)),
        s.len + v.len > s.cap ==> r.off == 0 && exists|a: u64| #![trigger old(h)@.narr.contains_key(a)] r.arr == Arr::A(a) && !old(h)@.narr.contains_key(a)
            && exists|d: Seq<Node>| #![trigger old(h)@.narr.insert(a, NArr { data: d, owner: nobody() })] d.len() == r.cap && d.subrange(0, r.len as int) == ns(old(h)@, s) + ns(old(h)@, v)
                && final(h)@ == (H { narr: old(h)@.narr.insert(a, NArr { data: d, owner: nobody() }), ..old(h)@ }),
{ unimplemented!() }

// ---- channels ----

pub open spec fn cs_at(h: H, s: Slice, i: int) -> Chan {
    match s.arr { Arr::A(a) => h.carr[a].data[s.off + i], _ => 0u64 }
}
pub open spec fn cs(h: H, s: Slice) -> Seq<Chan> { Seq::new(s.len as nat, |i: int| cs_at(h, s, i)) }
#[verifier::external_body] pub fn cs_get(h: &Heap, s: Slice, i: i64) -> (r: Chan)
    requires 0 <= i < s.len,
    ensures r == cs_at(h@, s, i as int),
{ unimplemented!() }
#[verifier::external_body] pub fn cs_make(h: &mut Heap, n: i64) -> (r: Slice)
    requires 0 <= n,
    ensures
        swf(r), r.off == 0, r.len == n,
        exists|a: u64| r.arr == Arr::A(a) && !old(h)@.carr.contains_key(a)
            && final(h)@ == (H { carr: #[trigger] old(h)@.carr.insert(a, CArr { data: reps(r.cap as int, 0u64), owner: nobody() }), ..old(h)@ }),
{ unimplemented!() }
#[verifier::external_body] pub fn cs_append(h: &mut Heap, s: Slice, v: Chan) -> (r: Slice)
    requires swf(s),
    ensures
        swf(r), r.len == s.len + 1,
        s.len < s.cap ==> r == (Slice { len: (s.len + 1) as i64, ..s })
            && (forall|a: u64| #![trigger old(h)@.carr[a]] s.arr == Arr::A(a) ==> final(h)@ == (H { carr: old(h)@.carr.insert(a, CArr { data: old(h)@.carr[a].data.update(s.off + s.len, v), ..old(h)@.carr[a] }), ..old(h)@ })),
        s.len >= s.cap ==> r.off == 0 && exists|a: u64| #![trigger old(h)@.carr.contains_key(a)] r.arr == Arr::A(a) && !old(h)@.carr.contains_key(a)
            && exists|d: Seq<Chan>| #![trigger old(h)@.carr.insert(a, CArr { data: d, owner: nobody() })] d.len() == r.cap && d.subrange(0, r.len as int) == cs(old(h)@, s).push(v)
                && final(h)@ == (H { carr: old(h)@.carr.insert(a, CArr { data: d, owner: nobody() }), ..old(h)@ }),
{ unimplemented!() }
#[verifier::external_body] pub fn chan_make(h: &mut Heap) -> (r: Chan)
    ensures r != 0, !old(h)@.chans.contains(r), final(h)@ == (H { chans: old(h)@.chans.insert(r), ..old(h)@ }),
{ unimplemented!() }
/// Closing a nil or closed channel panics.
#[verifier::external_body] pub fn chan_close(h: &mut Heap, c: Chan)
    requires c != 0, !old(h)@.closed.contains(c),
    ensures final(h)@ == (H { closed: old(h)@.closed.insert(c), ..old(h)@ }),
{ unimplemented!() }
/// Nothing is ever sent on the channels of this package, so a receive is
/// possible exactly when the channel is closed.
#[verifier::external_body] pub fn chan_ready(h: &Heap, c: Chan) -> (r: bool)
    ensures r == (c != 0 && h@.closed.contains(c)),
{ unimplemented!() }

/// A user callback sees the key and value and answers; it does not touch the tree.
#[verifier::external_body] pub fn callback(h: &mut Heap, f: Callback, k: Slice, v: Val) -> (r: bool)
    ensures final(h)@ == (H { trace: old(h)@.trace.push((bs(old(h)@, k), v, r)), ..old(h)@ }),
{ unimplemented!() }

// ---- arrays embedded in nodes ----

#[verifier::external_body] pub fn arr_keys_get(h: &Heap, p: Ptr, i: i64, n: i64) -> (r: u8)
    requires p != 0, 0 <= i < n,
    ensures r == h@.nodes[p].keys[i as int],
{ unimplemented!() }
#[verifier::external_body] pub fn arr_keys_set(h: &mut Heap, p: Ptr, i: i64, v: u8, n: i64)
    requires p != 0, 0 <= i < n,
    ensures final(h)@ == (H { nodes: old(h)@.nodes.insert(p, Rec { keys: old(h)@.nodes[p].keys.update(i as int, v), ..old(h)@.nodes[p] }), ..old(h)@ }),
{ unimplemented!() }
#[verifier::external_body] pub fn arr_keys_slice(h: &Heap, p: Ptr, n: i64) -> (r: Slice)
    requires p != 0,
    ensures r == (Slice { arr: Arr::K(p), off: 0, len: n, cap: n }), swf(r),
{ unimplemented!() }
#[verifier::external_body] pub fn arr_children_get(h: &Heap, p: Ptr, i: i64, n: i64) -> (r: Node)
    requires p != 0, 0 <= i < n,
    ensures r == h@.nodes[p].children[i as int], typed(r),
{ unimplemented!() }
#[verifier::external_body] pub fn arr_children_set(h: &mut Heap, p: Ptr, i: i64, v: Node, n: i64)
    requires p != 0, 0 <= i < n,
    ensures final(h)@ == (H { nodes: old(h)@.nodes.insert(p, Rec { children: old(h)@.nodes[p].children.update(i as int, v), ..old(h)@.nodes[p] }), ..old(h)@ }),
{ unimplemented!() }
#[verifier::external_body] pub fn arr_children_slice(h: &Heap, p: Ptr, n: i64) -> (r: Slice)
    requires p != 0,
    ensures r == (Slice { arr: Arr::C(p), off: 0, len: n, cap: n }), swf(r),
{ unimplemented!() }

// ---- memory safety: a value held by the program refers to an allocated object ----

pub open spec fn alloc_b(h: H, s: Slice) -> bool {
    match s.arr { Arr::A(a) => h.bytes.contains_key(a), Arr::K(p) => h.nodes.contains_key(p), _ => true }
}
#[verifier::external_body] pub fn alive_b(h: &Heap, s: Slice)
    ensures alloc_b(h@, s),
{ }
#[verifier::external_body] pub fn alive_n(h: &Heap, n: Node)
    ensures n.tag != Tag::Nil ==> h@.nodes.contains_key(n.p) && rec_ok(n.p, h@.nodes[n.p]),
{ }
#[verifier::external_body] pub fn alive_p(h: &Heap, p: Ptr)
    requires leafptr(p),
    ensures p != 0 ==> h@.nodes.contains_key(p) && rec_ok(p, h@.nodes[p]),
{ }
