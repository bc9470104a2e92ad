From ad5194324738fadf2e4e9779f58026fbe71c6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:19 +0000
Subject: [PATCH 01/18] fix: make reverse iteration correct for every node size
 and prefix

SeekReverseLowerBound indexed Node48 and Node256 children by position, read
past the search key and past the 10 stored prefix bytes (panics), and dropped
or added keys. Previous returned the key of an inner node before the larger
keys below it, returned the empty key twice, and returned nothing after
SeekPrefix. Keys to return are now put on the stack in order.
---
 reverse_iterator.go | 212 +++++++++-----------------------------------
 1 file changed, 41 insertions(+), 171 deletions(-)

diff --git a/reverse_iterator.go b/reverse_iterator.go
index a0708cb..4ae5b63 100644
--- a/reverse_iterator.go
+++ b/reverse_iterator.go
@@ -8,16 +8,6 @@ import (
 // in reverse in-order
 type ReverseIterator[T any] struct {
 	i *Iterator[T]
-
-	// expandedParents stores the set of parent nodes whose relevant children have
-	// already been pushed into the stack. This can happen during seek or during
-	// iteration.
-	//
-	// Unlike forward iteration we need to recurse into children before we can
-	// output the value stored in an internal leaf since all children are greater.
-	// We use this to track whether we have already ensured all the children are
-	// in the stack.
-	expandedParents map[Node[T]]struct{}
 }
 
 // SeekPrefixWatch is used to seek the iterator to a given prefix
@@ -42,156 +32,68 @@ func (ri *ReverseIterator[T]) SeekReverseLowerBound(key []byte) {
 	// node should both be nil to prevent the iterator from assuming it is just
 	// iterating the whole tree from the root node. Either way this needs to end
 	// up as nil so just set it here.
-	ri.i.seenMismatch = false
 	ri.i.stack = make([]Node[T], 0)
 	n := ri.i.node
 	ri.i.node = nil
-	prefix := getTreeKey(key)
-	ri.i.path = prefix
+	search := getTreeKey(key)
+	// The stack below holds exactly the keys wanted, so there is no prefix left
+	// for Previous to filter on.
+	ri.i.path = nil
 	depth := 0
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
-	found := func(n Node[T]) {
-		ri.i.stack = append(
-			ri.i.stack,
-			n,
-		)
-	}
-
-	for {
-		if n == nil {
-			break
-		}
-		// Compare current prefix with the search key's same-length prefix.
-		var prefixCmp int
-		if int(n.getPartialLen()) < len(prefix) {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:depth+int(n.getPartialLen())])
-		} else {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:])
-		}
-
-		if prefixCmp < 0 {
-			// Prefix is smaller than search prefix, that means there is no exact
-			// match for the search key. But we are looking in reverse, so the reverse
-			// lower bound will be the largest leaf under this subtree, since it is
-			// the value that would come right before the current search key if it
-			// were in the tree. So we need to follow the maximum path in this subtree
-			// to find it. Note that this is exactly what the iterator will already do
-			// if it finds a node in the stack that has _not_ been marked as expanded
-			// so in this one case we don't call `found` and instead let the iterator
-			// do the expansion and recursion through all the children.
-			ri.i.stack = append(ri.i.stack, n)
-			return
-		}
-
-		if prefixCmp > 0 && !ri.i.seenMismatch {
-			// Prefix is larger than search prefix, or there is no prefix but we've
-			// also exhausted the search key. Either way, that means there is no
-			// reverse lower bound since nothing comes before our current search
-			// prefix.
-			if n.getNodeLeaf() != nil {
-				ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-			}
+	for n != nil {
+		l := minimum[T](n)
+		if l == nil {
+			// Empty tree
 			return
 		}
 
-		// If this is a leaf, something needs to happen! Note that if it's a leaf
-		// and prefixCmp was zero (which it must be to get here) then the leaf value
-		// is either an exact match for the search, or it's lower. It can't be
-		// greater.
 		if n.isLeaf() {
-
-			nL := n.getNodeLeaf()
-			// Firstly, if it's an exact match, we're done!
-			if bytes.Equal(getKey(nL.getKey()), key) {
-				found(n)
-				return
-			}
-
-			// It's not so this node's leaf value must be lower and could still be a
-			// valid contender for reverse lower bound.
-
-			// If it has no children then we are also done.
-			if bytes.Compare(getKey(nL.getKey()), key) <= 0 {
-				// This leaf is the lower bound.
-				found(n)
-				return
+			if bytes.Compare(l.key, search) <= 0 {
+				ri.i.stack = append(ri.i.stack, n)
 			}
-		}
-
-		// Consume the search prefix. Note that this is safe because if n.prefix is
-		// longer than the search slice prefixCmp would have been > 0 above and the
-		// method would have already returned.
-		// Determine the child index to proceed based on the next byte of the prefix
-		if n.getPartialLen() > 0 {
-			// If the node has a prefix, compare it with the prefix
-			mismatchIdx := prefixMismatch[T](n, prefix, len(prefix), depth)
-			if mismatchIdx < int(n.getPartialLen()) && !ri.i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				if n.getNodeLeaf() != nil {
-					ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-				}
-				n = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				ri.i.seenMismatch = true
-			}
-			depth += int(n.getPartialLen())
-		}
-
-		if depth >= len(prefix) {
-			ri.i.stack = append(ri.i.stack, n)
 			return
 		}
 
-		if n.getNodeLeaf() != nil {
+		// Compare the path of this node with the search key's same-length prefix.
+		// Every key below n starts with that path.
+		end := depth + int(n.getPartialLen())
+		pathCmp := bytes.Compare(l.key[:end], search[:min(end, len(search))])
+		if pathCmp < 0 {
+			// Every key below n is smaller than the search key
 			ri.i.stack = append(ri.i.stack, n)
+			return
 		}
-
-		idx := n.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 || depth == len(prefix)-1 {
-			idx = int(n.getNumChildren()) - 1
+		if pathCmp > 0 {
+			// Every key below n is larger than the search key
+			return
 		}
 
-		if idx >= 0 && n.getKeyAtIdx(idx) != prefix[depth] {
-			ri.i.seenMismatch = true
+		// The path is a prefix of the search key, so a key that ends here is not
+		// larger. It comes after all the children in reverse order.
+		if n.getNodeLeaf() != nil {
+			ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
 		}
-
-		if ri.i.seenMismatch {
-			idx = int(n.getNumChildren()) - 1
+		if end == len(search) {
+			return
 		}
-
-		for itr := 0; itr < idx; itr++ {
-			if n.getChild(itr) != nil {
-				ri.i.stack = append(ri.i.stack, n.getChild(itr))
+		for c := 0; c < int(search[end]); c++ {
+			child, _ := findChild[T](n, byte(c))
+			if child != nil {
+				ri.i.stack = append(ri.i.stack, child)
 			}
 		}
 
-		if idx == -1 {
-			break
-		}
-
 		// Move to the next level in the tree
-		ri.expandedParents[n] = struct{}{}
-		n = n.getChild(idx)
-		depth++
+		n, _ = findChild[T](n, search[end])
+		depth = end + 1
 	}
-
 }
 
 // Previous returns the previous node in reverse order
 func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 	var zero T
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
 	if ri.i.stack == nil && ri.i.node != nil {
 		ri.i.stack = []Node[T]{ri.i.node}
 	}
@@ -208,54 +110,33 @@ func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 		switch node.(type) {
 		case *NodeLeaf[T]:
 			leafCh := node.(*NodeLeaf[T])
-			if bytes.Compare(getKey(leafCh.key), getKey(ri.i.path)) <= 0 {
+			if hasPrefix(getKey(leafCh.key), ri.i.path) {
 				return getKey(leafCh.key), leafCh.value, true
 			}
 			continue
 		case *Node4[T]:
 			n4 := node.(*Node4[T])
+			// All the children are greater than the leaf, so it goes below them
 			if n4.leaf != nil {
-				if bytes.Compare(n4.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n4.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
+				ri.i.stack = append(ri.i.stack, n4.leaf)
 			}
 			for itr := 0; itr < int(n4.numChildren); itr++ {
 				ri.i.stack = append(ri.i.stack, n4.children[itr])
 			}
-			if n4.leaf != nil && hasPrefix(getKey(n4.leaf.key), ri.i.path) {
-				return getKey(n4.leaf.key), n4.leaf.value, true
-			}
 		case *Node16[T]:
 			n16 := node.(*Node16[T])
+			// All the children are greater than the leaf, so it goes below them
 			if n16.leaf != nil {
-				if bytes.Compare(n16.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n16.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
+				ri.i.stack = append(ri.i.stack, n16.leaf)
 			}
 			for itr := 0; itr < int(n16.numChildren); itr++ {
 				ri.i.stack = append(ri.i.stack, n16.children[itr])
 			}
-			if n16.leaf != nil && hasPrefix(getKey(n16.leaf.key), ri.i.path) {
-				return getKey(n16.leaf.key), n16.leaf.value, true
-			}
 		case *Node48[T]:
 			n48 := node.(*Node48[T])
+			// All the children are greater than the leaf, so it goes below them
 			if n48.leaf != nil {
-				if bytes.Compare(n48.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n48.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
+				ri.i.stack = append(ri.i.stack, n48.leaf)
 			}
 			for itr := 0; itr < 256; itr++ {
 				idx := n48.keys[itr]
@@ -268,19 +149,11 @@ func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 				}
 				ri.i.stack = append(ri.i.stack, nodeCh)
 			}
-			if n48.leaf != nil && hasPrefix(getKey(n48.leaf.key), ri.i.path) {
-				return getKey(n48.leaf.key), n48.leaf.value, true
-			}
 		case *Node256[T]:
 			n256 := node.(*Node256[T])
+			// All the children are greater than the leaf, so it goes below them
 			if n256.leaf != nil {
-				if bytes.Compare(n256.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n256.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
+				ri.i.stack = append(ri.i.stack, n256.leaf)
 			}
 			for itr := 0; itr < 256; itr++ {
 				nodeCh := n256.children[itr]
@@ -289,9 +162,6 @@ func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 				}
 				ri.i.stack = append(ri.i.stack, nodeCh)
 			}
-			if n256.leaf != nil && hasPrefix(getKey(n256.leaf.key), ri.i.path) {
-				return getKey(n256.leaf.key), n256.leaf.value, true
-			}
 		}
 	}
 	return nil, zero, false
-- 
2.43.0


From 3256947073efa468753558ef4eb7e4febcb29697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:27 +0000
Subject: [PATCH 02/18] fix: make SeekLowerBound correct for every node size
 and prefix

SeekLowerBound indexed Node48 and Node256 children by position, sliced past
the 10 stored prefix bytes and past the key table (panics), and skipped or
repeated keys when a search left the tree below the first level.
---
 lower_bound_iterator.go | 269 +++++-----------------------------------
 1 file changed, 31 insertions(+), 238 deletions(-)

diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index c8b8e97..cf4d71b 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -11,12 +11,10 @@ import (
 // down to a specified path. This will iterate over the same values that
 // the Node.WalkPath method will.
 type LowerBoundIterator[T any] struct {
-	path         []byte
-	node         Node[T]
-	stack        []Node[T]
-	depth        int
-	pos          Node[T]
-	seenMismatch bool
+	path  []byte
+	node  Node[T]
+	stack []Node[T]
+	pos   Node[T]
 }
 
 // Front returns the current node that has been iterated to.
@@ -97,262 +95,57 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 	return nil, zero, false
 }
 
-func (i *LowerBoundIterator[T]) recurseMin(n Node[T]) Node[T] {
-	// Traverse to the minimum child
-	if n.isLeaf() {
-		return n
-	}
-	nCh := n.getNumChildren()
-	if nCh > 1 {
-		// Add all the other edges to the stack (the min node will be added as
-		// we recurse)
-		var allCh []Node[T]
-		for itr := nCh - 1; itr >= 1; itr-- {
-			allCh = append(allCh, n.getChild(int(itr)))
-		}
-		i.stack = append(allCh, i.stack...)
-	}
-	if nCh > 0 {
-		return i.recurseMin(n.getChild(0))
-	}
-	// Shouldn't be possible
-	return nil
-}
-
+// SeekLowerBound is used to seek the iterator to the smallest key that is
+// greater or equal to the given key.
 func (i *LowerBoundIterator[T]) SeekLowerBound(prefixKey []byte) {
 	node := i.node
 
 	i.stack = []Node[T]{}
 
-	if len(prefixKey) == 0 {
-		i.stack = []Node[T]{node}
-		return
-	}
-
-	prefix := getTreeKey(prefixKey)
-
-	found := func(n Node[T]) {
-		nL := n.getNodeLeaf()
-		if nL == nil {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-		if bytes.Compare(nL.key, i.path) >= 0 {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-	}
-
-	findMin := func(n Node[T]) {
-		if n != nil {
-			found(n)
-			return
-		}
-		n = i.recurseMin(n)
-	}
-
-	i.path = prefix
+	search := prefixKey
+	i.path = search
 
 	depth := 0
-	i.node = node
-	i.seenMismatch = false
-
-	var parent Node[T]
-
-	for {
-
-		// Check if the node matches the prefix
-
-		if node == nil {
-			if parent != nil && parent.getNodeLeaf() != nil {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			return
-		}
-
-		var prefixCmp int
-		if !node.isLeaf() {
-			if int(node.getPartialLen()) < len(prefix) {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:min(len(prefix), depth+int(node.getPartialLen()))])
-			} else {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:])
-			}
-		}
-
-		if prefixCmp > 0 && !i.seenMismatch {
-			// Prefix is larger, that means the lower bound is greater than the search
-			// and from now on we need to follow the minimum path to the smallest
-			// leaf under this subtree.
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.key, i.path) >= 0 {
-					findMin(node)
-				}
-			} else {
-				findMin(node)
-			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-				return
-			}
-			return
-		}
-
-		if prefixCmp < 0 && !i.seenMismatch {
-			// Prefix is smaller than search prefix, that means there is no lower
-			// bound
-			i.node = nil
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
-			return
-		}
 
-		if node.isLeaf() && node.getNodeLeaf() != nil && bytes.Compare(node.getNodeLeaf().getKey(), prefix) >= 0 {
-			found(node)
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
+	for node != nil {
+		l := minimum[T](node)
+		if l == nil {
+			// Empty tree
 			return
 		}
 
-		// Determine the child index to proceed based on the next byte of the prefix
-		// If the node has a prefix, compare it with the prefix
-		if node.getArtNodeType() != leafType {
-			mismatchIdx := prefixMismatch[T](node, prefix, len(prefix), depth)
-			if mismatchIdx < int(node.getPartialLen()) && !i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				node = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				i.seenMismatch = true
-			}
-			depth += int(node.getPartialLen())
-		}
-
-		if depth >= len(prefix) {
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
+		if node.isLeaf() {
+			if bytes.Compare(getKey(l.key), search) >= 0 {
 				i.stack = append(i.stack, node)
 			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
 			return
 		}
 
-		idx := node.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 && !i.seenMismatch {
-			return
-		}
-
-		if i.seenMismatch && idx != -1 {
-			idx = 0
-		}
-
-		if idx == -1 {
-			if node.getNodeLeaf() != nil {
-				if bytes.Compare(node.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
-				for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-					nCh := node.getChild(itr)
-					nChL := nCh.getNodeLeaf()
-					if nChL == nil {
-						i.stack = append(i.stack, node.getChild(itr))
-					} else {
-						if bytes.Compare(nChL.key, i.path) >= 0 {
-							i.stack = append(i.stack, node.getChild(itr))
-						}
-					}
-				}
-			}
-			if parent.getNodeLeaf() != nil && bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			node = nil
+		// Compare the path of this node with the search key's same-length prefix.
+		// Every key below node starts with that path.
+		end := depth + int(node.getPartialLen())
+		pathCmp := bytes.Compare(l.key[:end], search[:min(end, len(search))])
+		if pathCmp < 0 {
+			// Every key below node is smaller than the search key
 			return
 		}
-
-		if i.seenMismatch && parent != nil && parent.getNodeLeaf() != nil {
-			nL := node.getNodeLeaf()
-			addedNode := false
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-					addedNode = true
-				}
-			}
-			if !addedNode {
-				for itr := int(node.getNumChildren()) - 1; itr >= 0; itr-- {
-					if node.getChild(itr) != nil {
-						nCh := node.getChild(itr)
-						nChL := nCh.getNodeLeaf()
-						if nChL == nil {
-							i.stack = append(i.stack, node.getChild(itr))
-						} else {
-							if bytes.Compare(nChL.key, i.path) >= 0 {
-								i.stack = append(i.stack, node.getChild(itr))
-							}
-						}
-					}
-				}
-			}
-			if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
+		if pathCmp > 0 || end == len(search) {
+			// No key below node is smaller than the search key
+			i.stack = append(i.stack, node)
 			return
 		}
 
-		for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-			if node.getChild(itr) != nil {
-				nCh := node.getChild(itr)
-				nChL := nCh.getNodeLeaf()
-				if nChL == nil {
-					i.stack = append(i.stack, node.getChild(itr))
-				} else {
-					if bytes.Compare(nChL.key, i.path) >= 0 {
-						i.stack = append(i.stack, node.getChild(itr))
-					}
-				}
+		// The path is a proper prefix of the search key, so a key that ends here
+		// is smaller. The larger children follow the next level.
+		for c := 255; c > int(search[end]); c-- {
+			child, _ := findChild[T](node, byte(c))
+			if child != nil {
+				i.stack = append(i.stack, child)
 			}
 		}
 
-		if idx >= 0 && node.getKeyAtIdx(idx) != prefix[depth] {
-			i.seenMismatch = true
-		}
-
-		if idx == -1 {
-			return
-		}
-
-		parent = node
 		// Move to the next level in the tree
-		node = node.getChild(idx)
-
-		depth++
-
+		node, _ = findChild[T](node, search[end])
+		depth = end + 1
 	}
-
 }
-- 
2.43.0


From fd8ce3a4a0af29b45bb4c7f41e3db55d62329443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:35 +0000
Subject: [PATCH 03/18] fix: copy the caller's key instead of appending to it

getTreeKey appended the terminator to the caller's slice. When that slice
had spare capacity the append overwrote the caller's memory, and the stored
key aliased the caller's buffer, so later writes to it corrupted the tree.
---
 helpers.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 9cb0cd5..671c2e6 100644
--- a/helpers.go
+++ b/helpers.go
@@ -342,8 +342,13 @@ func findChild[T any](n Node[T], c byte) (Node[T], int) {
 	return nil, 0
 }
 
+// getTreeKey returns the stored form of a user key. It is always a copy: the
+// tree must neither write to nor retain the caller's buffer.
 func getTreeKey(key []byte) []byte {
-	return append(key, '$')
+	treeKey := make([]byte, len(key)+1)
+	copy(treeKey, key)
+	treeKey[len(key)] = '$'
+	return treeKey
 }
 
 func getKey(key []byte) []byte {
-- 
2.43.0


From 271a759c4788b0411f5718cbd20cafe58f10c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:43 +0000
Subject: [PATCH 04/18] fix: report and count updates of a key stored on an
 inner node

Inserting a key that already existed on a node with children returned no
previous value and incremented the size, so Len drifted upwards.
---
 txn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index ad6c6be..4db8216 100644
--- a/txn.go
+++ b/txn.go
@@ -163,11 +163,13 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	}
 
 	if node.getNodeLeaf() != nil && leafMatches(node.getNodeLeaf().getKey(), key) == 0 {
+		*old = 1
+		oldVal := node.getNodeLeaf().getValue()
 		newLeaf := t.writeNode(node.getNodeLeaf(), true)
 		newLeaf.setValue(value)
 		node = t.writeNode(node, true)
 		node.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-		return node, zero, true
+		return node, oldVal, true
 	}
 
 	// Check if given node has a prefix
-- 
2.43.0


From 4f09f0ecf5efd60557527753144ba766e9323ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:51 +0000
Subject: [PATCH 05/18] fix: leave the tree alone when the key to delete is
 absent

Deleting an absent key returned a nil replacement for the last node visited,
which dropped that whole subtree (often the whole tree) without adjusting the
size. An absent key that ended inside a compressed prefix panicked.
---
 txn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index 4db8216..35c65a8 100644
--- a/txn.go
+++ b/txn.go
@@ -316,6 +316,11 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		}
 	}
 
+	// Nothing to find below a leaf, whose prefix is not meaningful
+	if node.isLeaf() {
+		return node, nil, false
+	}
+
 	// Bail if the prefix does not match
 	if node.getPartialLen() > 0 {
 		prefixLen := checkPrefix(node.getPartial(), int(node.getPartialLen()), key, depth)
@@ -325,10 +330,14 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		depth += int(node.getPartialLen())
 	}
 
+	if depth >= len(key) {
+		return node, nil, false
+	}
+
 	// Find child node
 	child, idx := t.findChild(node, key[depth])
 	if child == nil {
-		return nil, nil, false
+		return node, nil, false
 	}
 
 	// Recurse
-- 
2.43.0


From c1ad53d2116b63bf9b5e075d1f6b2e98cf181297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:15 +0000
Subject: [PATCH 06/18] fix: store keys verbatim instead of with a '$'
 terminator

The terminator made keys that contain '$' collide, get lost or panic, and
sorted a key after its own extensions by bytes below '$'. Keys are now stored
as given, a key that ends at an inner node lives in that node's leaf, and the
empty tree no longer holds a phantom leaf with an empty key.
---
 helpers.go   | 16 ++++++++-------
 node_leaf.go | 10 ---------
 tree.go      | 14 +++++--------
 txn.go       | 58 +++++++++++++++++++---------------------------------
 4 files changed, 35 insertions(+), 63 deletions(-)

diff --git a/helpers.go b/helpers.go
index 671c2e6..9b3c62c 100644
--- a/helpers.go
+++ b/helpers.go
@@ -265,6 +265,11 @@ func maximum[T any](node Node[T]) *NodeLeaf[T] {
 		return node.getNodeLeaf()
 	}
 
+	if node.getNumChildren() == 0 {
+		// Empty tree
+		return nil
+	}
+
 	var idx int
 	switch node.getArtNodeType() {
 	case node4:
@@ -345,18 +350,15 @@ func findChild[T any](n Node[T], c byte) (Node[T], int) {
 // getTreeKey returns the stored form of a user key. It is always a copy: the
 // tree must neither write to nor retain the caller's buffer.
 func getTreeKey(key []byte) []byte {
-	treeKey := make([]byte, len(key)+1)
+	treeKey := make([]byte, len(key))
 	copy(treeKey, key)
-	treeKey[len(key)] = '$'
 	return treeKey
 }
 
+// getKey returns the user key of a stored key. Keys are stored verbatim, so that
+// the tree order is the byte order and no key byte is special.
 func getKey(key []byte) []byte {
-	keyLen := len(key)
-	if keyLen == 0 {
-		return key
-	}
-	return key[:keyLen-1]
+	return key
 }
 
 func (t *Txn[T]) removeChild(n Node[T], c byte) Node[T] {
diff --git a/node_leaf.go b/node_leaf.go
index 0039e6d..57112ed 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -82,13 +82,6 @@ func (n *NodeLeaf[T]) setPartial(partial []byte) {
 }
 
 func (l *NodeLeaf[T]) prefixContainsMatch(key []byte) bool {
-	if len(key) == 0 || len(l.key) == 0 {
-		return false
-	}
-	if key == nil {
-		return false
-	}
-
 	return bytes.HasPrefix(getKey(key), getKey(l.key))
 }
 
@@ -108,9 +101,6 @@ func (n *NodeLeaf[T]) PathIterator(path []byte) *PathIterator[T] {
 }
 
 func (n *NodeLeaf[T]) matchPrefix(prefix []byte) bool {
-	if len(n.key) == 0 {
-		return false
-	}
 	return bytes.HasPrefix(n.key, prefix)
 }
 
diff --git a/tree.go b/tree.go
index b844df6..bc2fded 100644
--- a/tree.go
+++ b/tree.go
@@ -34,12 +34,8 @@ type WalkFn[T any] func(k []byte, v T) bool
 
 func NewRadixTree[T any]() *RadixTree[T] {
 	rt := &RadixTree[T]{size: 0, maxNodeId: 0}
-	rt.root = &Node4[T]{
-		leaf: &NodeLeaf[T]{},
-	}
+	rt.root = &Node4[T]{}
 	rt.root.setId(rt.maxNodeId)
-	rt.root.getNodeLeaf().setId(rt.maxNodeId + 1)
-	rt.maxNodeId++
 	return rt
 }
 
@@ -108,14 +104,14 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 			depth += int(n.getPartialLen())
 		}
 
-		if depth >= len(key) {
-			break
-		}
-
 		if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
 			last = n.getNodeLeaf()
 		}
 
+		if depth >= len(key) {
+			break
+		}
+
 		for _, ch := range n.getChildren() {
 			if ch != nil {
 				if ch.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(ch.getNodeLeaf().getKey())) {
diff --git a/txn.go b/txn.go
index 35c65a8..597b799 100644
--- a/txn.go
+++ b/txn.go
@@ -193,23 +193,15 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 			newLeaf := t.makeLeaf(key, value)
 			newLeafL := newLeaf.getNodeLeaf()
-			nL := node.getNodeLeaf()
-			if nL != nil && nL.getKeyLen() != 0 {
-				if bytes.HasPrefix(getKey(nL.getKey()), getKey(newLeafL.getKey())) {
-					t.trackChannel(node)
-					node = t.writeNode(node, false)
-					newNode := t.allocNode(node4)
-					newNode.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-					newNode = t.addChild(newNode, key[depth], node)
-					return newNode, zero, true
-				}
-			}
 			t.trackChannel(node)
 			node = t.writeNode(node, false)
 			if depth < len(key) {
 				// No child, node goes within us
 				node = t.addChild(node, key[depth], newLeaf)
 				// newNode was created
+			} else {
+				// The key ends at this node
+				node.setNodeLeaf(newLeafL)
 			}
 			return node, zero, true
 		}
@@ -238,29 +230,36 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newLeaf := t.makeLeaf(key, value)
 		if depth+prefixDiff < len(key) {
 			newNode = t.addChild(newNode, key[depth+prefixDiff], newLeaf)
+		} else {
+			// The key ends where the prefix was split
+			newNode.setNodeLeaf(newLeaf.getNodeLeaf())
 		}
 		return newNode, zero, true
 	}
 
 	// Find a child to recurse to
-	child, idx := t.findChild(node, key[depth])
-	if child != nil {
-		newChild, val, mutatedSubtree := t.recursiveInsert(child, key, value, depth+1, old)
-		if mutatedSubtree || newChild != child {
-			t.trackChannel(node)
-			node = t.writeNode(node, false)
-			node.setChild(idx, newChild)
+	if depth < len(key) {
+		child, idx := t.findChild(node, key[depth])
+		if child != nil {
+			newChild, val, mutatedSubtree := t.recursiveInsert(child, key, value, depth+1, old)
+			if mutatedSubtree || newChild != child {
+				t.trackChannel(node)
+				node = t.writeNode(node, false)
+				node.setChild(idx, newChild)
+			}
+			return node, val, mutatedSubtree
 		}
-		return node, val, mutatedSubtree
 	}
 
 	newLeaf := t.makeLeaf(key, value)
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
 	if depth < len(key) {
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
 		return t.addChild(node, key[depth], newLeaf), zero, true
 	}
-	return node, zero, false
+	// The key ends at this node
+	node.setNodeLeaf(newLeaf.getNodeLeaf())
+	return node, zero, true
 }
 
 func (t *Txn[T]) Delete(key []byte) (T, bool) {
@@ -269,12 +268,8 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 
 	if newRoot == nil {
 		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
 			id: t.tree.maxNodeId,
 		}
-		t.tree.maxNodeId += 2
 	} else {
 		t.tree.root = newRoot
 	}
@@ -295,13 +290,6 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		return nil, nil, false
 	}
 
-	if node.isLeaf() {
-		t.trackChannel(node)
-		if leafMatches(node.getKey(), key) == 0 {
-			return nil, node, true
-		}
-	}
-
 	// Handle hitting a leaf node
 	if node.getNodeLeaf() != nil {
 		nodeL := node.getNodeLeaf()
@@ -432,12 +420,8 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 	newRoot, numDeletions := t.deletePrefix(t.tree.root, key, 0)
 	if newRoot == nil {
 		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
 			id: t.tree.maxNodeId,
 		}
-		t.tree.maxNodeId += 2
 	} else {
 		t.tree.root = newRoot
 	}
-- 
2.43.0


From 96985cdd11b68b5ff9f1084f8fc488a954a79ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:49 +0000
Subject: [PATCH 07/18] fix: count up to 256 children per node

A node with all 256 children wrapped its uint8 child count to zero and was
then taken for a leaf, losing the whole subtree.
---
 node.go      | 4 ++--
 node_16.go   | 6 +++---
 node_256.go  | 6 +++---
 node_4.go    | 6 +++---
 node_48.go   | 6 +++---
 node_leaf.go | 4 ++--
 txn.go       | 2 +-
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/node.go b/node.go
index b62b386..552f89c 100644
--- a/node.go
+++ b/node.go
@@ -9,8 +9,8 @@ type Node[T any] interface {
 	getPartialLen() uint32
 	setPartialLen(uint32)
 	getArtNodeType() nodeType
-	getNumChildren() uint8
-	setNumChildren(uint8)
+	getNumChildren() uint16
+	setNumChildren(uint16)
 	getPartial() []byte
 	setPartial([]byte)
 	isLeaf() bool
diff --git a/node_16.go b/node_16.go
index b230a54..b9d8fc8 100644
--- a/node_16.go
+++ b/node_16.go
@@ -12,7 +12,7 @@ import (
 type Node16[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [16]byte
 	children    [16]Node[T]
@@ -40,11 +40,11 @@ func (n *Node16[T]) getArtNodeType() nodeType {
 	return node16
 }
 
-func (n *Node16[T]) getNumChildren() uint8 {
+func (n *Node16[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node16[T]) setNumChildren(numChildren uint8) {
+func (n *Node16[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_256.go b/node_256.go
index 5ad5db3..f465bbd 100644
--- a/node_256.go
+++ b/node_256.go
@@ -10,7 +10,7 @@ import (
 type Node256[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	children    [256]Node[T]
 	mutateCh    atomic.Pointer[chan struct{}]
@@ -45,11 +45,11 @@ func (n *Node256[T]) getArtNodeType() nodeType {
 	return node256
 }
 
-func (n *Node256[T]) getNumChildren() uint8 {
+func (n *Node256[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node256[T]) setNumChildren(numChildren uint8) {
+func (n *Node256[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_4.go b/node_4.go
index a5f818c..024a51b 100644
--- a/node_4.go
+++ b/node_4.go
@@ -12,7 +12,7 @@ import (
 type Node4[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [4]byte
 	children    [4]Node[T]
@@ -40,11 +40,11 @@ func (n *Node4[T]) getArtNodeType() nodeType {
 	return node4
 }
 
-func (n *Node4[T]) getNumChildren() uint8 {
+func (n *Node4[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node4[T]) setNumChildren(numChildren uint8) {
+func (n *Node4[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_48.go b/node_48.go
index 5a6949c..1e3af26 100644
--- a/node_48.go
+++ b/node_48.go
@@ -11,7 +11,7 @@ import (
 type Node48[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [256]byte
 	children    [48]Node[T]
@@ -39,11 +39,11 @@ func (n *Node48[T]) getArtNodeType() nodeType {
 	return node48
 }
 
-func (n *Node48[T]) getNumChildren() uint8 {
+func (n *Node48[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node48[T]) setNumChildren(numChildren uint8) {
+func (n *Node48[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_leaf.go b/node_leaf.go
index 57112ed..aad765d 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -36,11 +36,11 @@ func (n *NodeLeaf[T]) getArtNodeType() nodeType {
 	return leafType
 }
 
-func (n *NodeLeaf[T]) getNumChildren() uint8 {
+func (n *NodeLeaf[T]) getNumChildren() uint16 {
 	return 0
 }
 
-func (n *NodeLeaf[T]) setNumChildren(numChildren uint8) {
+func (n *NodeLeaf[T]) setNumChildren(numChildren uint16) {
 	// no-op
 }
 
diff --git a/txn.go b/txn.go
index 597b799..2907f09 100644
--- a/txn.go
+++ b/txn.go
@@ -506,7 +506,7 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 	for itr := slow; itr < len(node.getChildren()); itr++ {
 		node.setChild(itr, nil)
 	}
-	node.setNumChildren(uint8(numCh))
+	node.setNumChildren(uint16(numCh))
 
 	return node, numDel
 }
-- 
2.43.0


From b4b15694da6a2a0f6eccf29310e1a33366555476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:57 +0000
Subject: [PATCH 08/18] fix: clear the vacated child slot when removing from
 Node4 and Node16

The last child stayed in the slot after the remaining ones. Get and
LongestPrefix look at every slot, so they could return a deleted key.
---
 helpers.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/helpers.go b/helpers.go
index 9b3c62c..ec14b74 100644
--- a/helpers.go
+++ b/helpers.go
@@ -392,10 +392,7 @@ func (t *Txn[T]) removeChild4(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
+	for itr = slow; itr < len(n.getChildren()); itr++ {
 		n.setChild(itr, nil)
 	}
 
@@ -443,10 +440,7 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
+	for itr = slow; itr < len(n.getChildren()); itr++ {
 		n.setChild(itr, nil)
 	}
 	n.setNumChildren(n.getNumChildren() - 1)
-- 
2.43.0


From 53ef791882667de4a14524c8b55202ddd159c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:04 +0000
Subject: [PATCH 09/18] fix: stop writing to nodes shared with a cloned or
 committed transaction

After Txn.Clone or Commit the transaction still treated the nodes it had
created as private, so further writes showed up in the clone or in the
committed tree.
---
 txn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index 2907f09..1693bb2 100644
--- a/txn.go
+++ b/txn.go
@@ -55,7 +55,8 @@ func (t *RadixTree[T]) Txn() *Txn[T] {
 // Clone makes an independent copy of the transaction. The new transaction
 // does not track any nodes and has TrackMutate turned off. The cloned transaction will contain any uncommitted writes in the original transaction but further mutations to either will be independent and result in different radix trees on Commit. A cloned transaction may be passed to another goroutine and mutated there independently however each transaction may only be mutated in a single thread.
 func (t *Txn[T]) Clone() *Txn[T] {
-	// reset the writable node cache to avoid leaking future writes into the clone
+	// From now on the nodes written so far are shared with the clone
+	t.oldMaxNodeId = t.tree.maxNodeId
 	newTree := &RadixTree[T]{
 		t.tree.root.clone(true),
 		t.size,
@@ -393,6 +394,8 @@ func (t *Txn[T]) CommitOnly() *RadixTree[T] {
 		t.size,
 		t.tree.maxNodeId,
 	}
+	// From now on the nodes written so far are shared with the new tree
+	t.oldMaxNodeId = t.tree.maxNodeId
 	return nt
 
 }
-- 
2.43.0


From 7246d93aaf100267e5f1963bc1e392511dac8b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:12 +0000
Subject: [PATCH 10/18] fix: do not return a root key that is no prefix from
 LongestPrefix

With a single key in the tree LongestPrefix returned it for any argument.
---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index bc2fded..6ab0911 100644
--- a/tree.go
+++ b/tree.go
@@ -90,7 +90,7 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 
 	n := t.root
 	last = nil
-	if n.getNodeLeaf() != nil {
+	if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
 		last = n.getNodeLeaf()
 	}
 	for {
-- 
2.43.0


From 674d3b9a5a5a4d4d277372dd8c6f0587585ae5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:22 +0000
Subject: [PATCH 11/18] fix: make Walk visit every key in order with its value

Walk skipped keys stored on inner nodes, passed the zero value instead of the
stored one, and visited Node48 children out of order. DFS skipped children
that were not in the first slots of a Node48 or Node256.
---
 tree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index 6ab0911..d306706 100644
--- a/tree.go
+++ b/tree.go
@@ -378,12 +378,13 @@ func (t *RadixTree[T]) DFSPrintTree() {
 // recursively. Returns true if the walk should be aborted
 func recursiveWalk[T any](n Node[T], fn WalkFn[T]) bool {
 	// Visit the leaf values if any
-	if n.isLeaf() && n.getNodeLeaf() != nil && fn(getKey(n.getNodeLeaf().getKey()), n.getValue()) {
+	if n.getNodeLeaf() != nil && fn(getKey(n.getNodeLeaf().getKey()), n.getNodeLeaf().getValue()) {
 		return true
 	}
 
 	// Recurse on the children
-	for _, e := range n.getChildren() {
+	for c := 0; c < 256; c++ {
+		e, _ := findChild[T](n, byte(c))
 		if e != nil {
 			if recursiveWalk(e, fn) {
 				return true
@@ -402,8 +403,7 @@ func (t *RadixTree[T]) DFSNode(n Node[T], fn DfsFn[T]) {
 	fn(n)
 
 	// Recurse on the children
-	for itr := 0; itr < int(n.getNumChildren()); itr++ {
-		e := n.getChild(itr)
+	for _, e := range n.getChildren() {
 		if e != nil {
 			t.DFSNode(e, fn)
 		}
-- 
2.43.0


From d20e0114481607d04ee748aefadeecbbde9fdced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:32 +0000
Subject: [PATCH 12/18] fix: make DeletePrefix delete exactly the keys with the
 prefix

DeletePrefix left keys stored on inner nodes in place while counting them as
deleted, did not move the key bytes along with the surviving children, and
mishandled Node48 and Node256, so it lost or kept the wrong keys and let Len
drift. It now descends to the matching subtree and unlinks that.
---
 txn.go | 90 ++++++++++++++++++++++++++++++----------------------------
 1 file changed, 47 insertions(+), 43 deletions(-)

diff --git a/txn.go b/txn.go
index 1693bb2..2a48172 100644
--- a/txn.go
+++ b/txn.go
@@ -419,6 +419,9 @@ func (t *Txn[T]) LongestPrefix(prefix []byte) ([]byte, T, bool) {
 // DeletePrefix is used to delete an entire subtree that matches the prefix
 // This will delete all nodes under that prefix
 func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
+	if t.tree.size == 0 {
+		return false
+	}
 	key := getTreeKey(prefix)
 	newRoot, numDeletions := t.deletePrefix(t.tree.root, key, 0)
 	if newRoot == nil {
@@ -457,61 +460,62 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 
 	// Bail if the prefix does not match
 	if node.getPartialLen() > 0 {
-		prefixLen := checkPrefix(node.getPartial(), int(node.getPartialLen()), key, depth)
-		if prefixLen < min(maxPrefixLen, len(getKey(key))) {
-			depth += prefixLen
+		prefixDiff := prefixMismatch[T](node, key, len(key), depth)
+		if prefixDiff < int(node.getPartialLen()) && depth+prefixDiff < len(key) {
+			return node, 0
 		}
+		depth += int(node.getPartialLen())
 	}
 
-	numDel := 0
+	// Every key below this node has the prefix
+	if depth >= len(key) {
+		return nil, t.trackSubtree(node)
+	}
 
-	if node.getNodeLeaf() != nil {
-		if bytes.HasPrefix(getKey(node.getNodeLeaf().getKey()), getKey(key)) {
-			t.trackChannel(node.getNodeLeaf())
-			numDel++
-		}
+	// Find child node
+	child, idx := t.findChild(node, key[depth])
+	if child == nil {
+		return node, 0
 	}
 
-	// Recurse on the children
-	var newChIndxMap = make(map[int]Node[T])
-	for idx, ch := range node.getChildren() {
-		if ch != nil {
-			newCh, del := t.deletePrefix(ch, key, depth+1)
-			newChIndxMap[idx] = newCh
-			numDel += del
-			if del > 0 && t.trackMutate {
-				t.trackChannel(ch)
-			}
-		}
+	// Recurse
+	newChild, numDel := t.deletePrefix(child, key, depth+1)
+	if numDel == 0 {
+		return node, 0
 	}
 
-	slow := 0
-	numCh := 0
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
+	node.setChild(idx, newChild)
+	if newChild == nil {
+		node = t.removeChild(node, key[depth])
+	}
 
-	node = t.writeNode(node, true)
+	if node.getNumChildren() == 0 && node.getNodeLeaf() == nil {
+		return nil, numDel
+	}
+	return node, numDel
+}
 
-	for itr := 0; itr < int(node.getNumChildren()); itr++ {
-		newCh, ok := newChIndxMap[itr]
-		if ok {
-			if newCh == nil {
-				continue
-			} else {
-				numCh++
-				node.setChild(slow, newCh)
-				slow++
-			}
-		} else {
-			numCh++
-			node.setChild(slow, node.getChild(itr))
-			slow++
-		}
+// trackSubtree tracks the channels of all the nodes and leaves from node down
+// and returns the number of leaves.
+func (t *Txn[T]) trackSubtree(node Node[T]) int {
+	t.trackChannel(node)
+	numLeaves := 0
+	if node.getNodeLeaf() != nil {
+		t.trackChannel(node.getNodeLeaf())
+		numLeaves++
 	}
-	for itr := slow; itr < len(node.getChildren()); itr++ {
-		node.setChild(itr, nil)
+	if node.getNumChildren() == 0 {
+		return numLeaves
 	}
-	node.setNumChildren(uint16(numCh))
-
-	return node, numDel
+	for c := 0; c < 256; c++ {
+		ch, _ := t.findChild(node, byte(c))
+		if ch != nil {
+			numLeaves += t.trackSubtree(ch)
+		}
+	}
+	return numLeaves
 }
 
 func (t *Txn[T]) makeLeaf(key []byte, value T) Node[T] {
-- 
2.43.0


From 319ab6af5fb32068f342ca46efdd4f719ae0c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:32 +0000
Subject: [PATCH 13/18] fix: do not look for children of leaves in Walk

---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index d306706..2bec3b9 100644
--- a/tree.go
+++ b/tree.go
@@ -382,6 +382,10 @@ func recursiveWalk[T any](n Node[T], fn WalkFn[T]) bool {
 		return true
 	}
 
+	if n.getNumChildren() == 0 {
+		return false
+	}
+
 	// Recurse on the children
 	for c := 0; c < 256; c++ {
 		e, _ := findChild[T](n, byte(c))
-- 
2.43.0


From c0a5c4d472c30a7f173975ab63f4655661d21c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:40 +0000
Subject: [PATCH 14/18] fix: iterate from the node when Iterator is used
 without a seek

Next returned nothing until SeekPrefix was called, although Iterator is
documented to walk the tree from the given node.
---
 iterator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iterator.go b/iterator.go
index d88db14..fc7bf40 100644
--- a/iterator.go
+++ b/iterator.go
@@ -27,6 +27,10 @@ func (i *Iterator[T]) Path() string {
 func (i *Iterator[T]) Next() ([]byte, T, bool) {
 	var zero T
 
+	if i.stack == nil && i.node != nil {
+		i.stack = []Node[T]{i.node}
+	}
+
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
-- 
2.43.0


From d20f026281b690f595069af8ce8914421e1b7196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:48 +0000
Subject: [PATCH 15/18] fix: do not retain the caller's prefix in iterators

SeekPrefix kept the caller's slice and Next filtered by its current contents,
so reusing the buffer changed the result of a running iteration.
---
 iterator.go             | 2 +-
 lower_bound_iterator.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iterator.go b/iterator.go
index fc7bf40..a44b3e8 100644
--- a/iterator.go
+++ b/iterator.go
@@ -110,7 +110,7 @@ func (i *Iterator[T]) SeekPrefixWatch(prefix []byte) (watch <-chan struct{}) {
 func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 	node := i.node
 
-	i.path = prefix
+	i.path = getTreeKey(prefix)
 
 	i.stack = nil
 	depth := 0
diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index cf4d71b..af37690 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -102,7 +102,7 @@ func (i *LowerBoundIterator[T]) SeekLowerBound(prefixKey []byte) {
 
 	i.stack = []Node[T]{}
 
-	search := prefixKey
+	search := getTreeKey(prefixKey)
 	i.path = search
 
 	depth := 0
-- 
2.43.0


From f4763c565241aa0d0c9c5b2fba4683998d067d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:11 +0000
Subject: [PATCH 16/18] fix: keep watch channels of shared nodes and of
 unchanged keys

Tracking a node replaced its channel even when other trees shared the node.
A transaction that was then dropped, or a watch taken from the old tree later
on, silently lost the notification. Rewritten nodes could also carry a channel
that was already closed, growing or shrinking a node notified watchers of an
unchanged key, and merging a node with its only child could lose watchers of
the child. Only nodes of the running transaction now get a new channel.
---
 helpers.go | 24 ++++++++++--------------
 txn.go     | 15 ++++++++-------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/helpers.go b/helpers.go
index ec14b74..02def38 100644
--- a/helpers.go
+++ b/helpers.go
@@ -79,8 +79,7 @@ func (t *Txn[T]) addChild4(n Node[T], c byte, child Node[T]) Node[T] {
 		newNode := t.allocNode(node16)
 		// Copy the child pointers and the key map
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
 		copy(newNode.getKeys()[:], n.getKeys()[:n.getNumChildren()])
@@ -108,8 +107,7 @@ func (t *Txn[T]) addChild16(n Node[T], c byte, child Node[T]) Node[T] {
 	} else {
 		newNode := t.allocNode(node48)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		// Copy the child pointers and populate the key map
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
@@ -135,8 +133,7 @@ func (t *Txn[T]) addChild48(n Node[T], c byte, child Node[T]) Node[T] {
 	} else {
 		newNode := t.allocNode(node256)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		for i := 0; i < 256; i++ {
 			if n.getKeyAtIdx(i) != 0 {
@@ -399,7 +396,10 @@ func (t *Txn[T]) removeChild4(n Node[T], c byte) Node[T] {
 	n.setNumChildren(n.getNumChildren() - 1)
 
 	if n.getNumChildren() == 1 && n.getNodeLeaf() == nil {
-		nodeToReturn := t.writeNode(n.getChild(0), false)
+		child := n.getChild(0)
+		nodeToReturn := t.writeNode(child, false)
+		// The child itself did not change
+		nodeToReturn.setMutateCh(child.getMutateCh())
 		// Is not leaf
 		if n.getArtNodeType() != leafType {
 			// Concatenate the prefixes
@@ -453,10 +453,8 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		copy(n4.keys[:], n.getKeys()[:4])
 		copy(n4.children[:], n.getChildren()[:4])
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
-		newNode.setNodeLeaf(n.getNodeLeaf())
 		return newNode
 	}
 	return n
@@ -474,8 +472,7 @@ func (t *Txn[T]) removeChild48(n Node[T], c uint8) Node[T] {
 		t.trackChannel(n)
 		t.copyHeader(newNode, n)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		child := 0
 		for i := 0; i < 256; i++ {
@@ -502,8 +499,7 @@ func (t *Txn[T]) removeChild256(n Node[T], c uint8) Node[T] {
 		t.copyHeader(newNode, n)
 		t.trackChannel(n)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		pos := 0
 		for i := 0; i < 256; i++ {
diff --git a/txn.go b/txn.go
index 2a48172..30a85d6 100644
--- a/txn.go
+++ b/txn.go
@@ -31,7 +31,9 @@ func (t *Txn[T]) writeNode(n Node[T], trackCh bool) Node[T] {
 	if n.getId() > t.oldMaxNodeId {
 		return n
 	}
-	nc := n.clone(!trackCh)
+	// A node that is rewritten while tracking has had its channel tracked, so the
+	// copy gets a new one
+	nc := n.clone(!trackCh && !t.trackMutate)
 	t.tree.maxNodeId++
 	nc.setId(t.tree.maxNodeId)
 	return nc
@@ -140,7 +142,6 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 		if bytes.HasPrefix(getKey(nodeLeaf.getKey()), getKey(newLeaf2L.getKey())) {
 
-			t.trackChannel(nodeLeaf)
 			newNode.setNodeLeaf(newLeaf2L)
 			newNode = t.addChild(newNode, nodeLeaf.getKey()[depth+longestPrefix], node)
 
@@ -275,7 +276,6 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 		t.tree.root = newRoot
 	}
 	if l != nil {
-		t.trackChannel(t.tree.root)
 		t.size--
 		t.tree.size--
 		old := l.getValue()
@@ -432,9 +432,6 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 		t.tree.root = newRoot
 	}
 	if numDeletions != 0 {
-		if t.trackMutate {
-			t.trackChannel(t.tree.root)
-		}
 		t.tree.size = t.tree.size - uint64(numDeletions)
 		t.size = t.tree.size
 		return true
@@ -587,7 +584,11 @@ func (t *Txn[T]) trackChannel(node Node[T]) {
 		t.trackChnSlice = make([]chan struct{}, 0)
 	}
 	t.trackChnSlice = append(t.trackChnSlice, ch)
-	node.setMutateCh(make(chan struct{}))
+	// Other trees share the nodes that this transaction did not create, and their
+	// watchers hold on to the channel
+	if node.getId() > t.oldMaxNodeId {
+		node.setMutateCh(make(chan struct{}))
+	}
 }
 
 // isClosed returns true if the given channel is closed.
-- 
2.43.0


From 95f2adf6c786f0465ff1c07337041f5cef35d58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:27 +0000
Subject: [PATCH 17/18] fix: give the root of an emptied tree a prefix buffer

Deleting the last key in a transaction left a root without a prefix buffer.
When that node was reused as a leaf and later merged with its parent, the
merge sliced the missing buffer and panicked.
---
 txn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/txn.go b/txn.go
index 30a85d6..281c19d 100644
--- a/txn.go
+++ b/txn.go
@@ -270,7 +270,8 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 
 	if newRoot == nil {
 		t.tree.root = &Node4[T]{
-			id: t.tree.maxNodeId,
+			id:      t.tree.maxNodeId,
+			partial: make([]byte, maxPrefixLen),
 		}
 	} else {
 		t.tree.root = newRoot
@@ -426,7 +427,8 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 	newRoot, numDeletions := t.deletePrefix(t.tree.root, key, 0)
 	if newRoot == nil {
 		t.tree.root = &Node4[T]{
-			id: t.tree.maxNodeId,
+			id:      t.tree.maxNodeId,
+			partial: make([]byte, maxPrefixLen),
 		}
 	} else {
 		t.tree.root = newRoot
-- 
2.43.0


From 6f63ee7f0b82c15fbd63a5ebedb98e1e1f419a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:41 +0000
Subject: [PATCH 18/18] fix: watch the right node for absent keys below long
 prefixes

GetWatch compared only the stored start of a node's prefix. For an absent key
that differs further on it returned the channel of a deeper node, which is not
closed when the key is inserted.
---
 tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree.go b/tree.go
index 2bec3b9..6f00437 100644
--- a/tree.go
+++ b/tree.go
@@ -279,6 +279,11 @@ func (t *RadixTree[T]) iterativeSearchWithWatch(key []byte) (T, bool, <-chan str
 				}
 				return zero, false, n.getMutateCh()
 			}
+			// The node stores only the start of a long prefix. A key that differs
+			// further on will be inserted above this node's children
+			if n.getPartialLen() > maxPrefixLen && prefixMismatch[T](n, key, len(key), depth) < int(n.getPartialLen()) {
+				return zero, false, n.getMutateCh()
+			}
 			depth += int(n.getPartialLen())
 		}
 
-- 
2.43.0

