From ea0be13930699f21c4949656ff3a26d23504f74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:04 +0000
Subject: [PATCH 01/56] fix: a key set on an existing split node must become a
 leaf

Set("app.x"), Set("app") left "app" flagged as a branch, so that Get("app")
reported not-found depending on the insertion order.
---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index bf86cf2..0dc40ef 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -246,7 +246,7 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 	} else {
 		// hit this node,
-		base.nType |= NTData
+		base.nType |= NTLeaf | NTData
 		node, oldData, base.data = base, base.data, data
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
-- 
2.43.0


From a2a0a4b28309584ead9c30efe0ea111c953171cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:54 +0000
Subject: [PATCH 02/56] fix: splitting a node must keep the identity of the
 existing node

Inserting a sibling key used to turn the node object of an existing key into
the new branch node. The node handles held by users and by pending TTL jobs
then pointed to that branch: an expiring ttl of 'app.debug' dropped 'app.dump'
too. The key of the branch was also cut at a wrong byte offset for
non-ASCII keys.
---
 radix/node.go | 67 +++++++++++++++++++++------------------------------
 1 file changed, 28 insertions(+), 39 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 0dc40ef..7c171b2 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -217,12 +217,6 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		cpl = base.findCommonPrefixLength(word)
 	}
 
-	if cpl < ourLen {
-		// eg: insert 'apple' into 'appZ', or insert 'appZ' into 'apple'
-		base.split(cpl, word) // split this as 'app' and 'Z'/'le'
-		// eg2: insert '/app/:client/tokens' into '/app/:client/tokens/:token',
-	}
-
 	if cpl < wordLen {
 		// eg: insert 'apple' into 'app'
 		if cpl > 0 {
@@ -230,6 +224,11 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 		matched, child := base.matchChildren(word)
 		if matched {
+			if pos := child.findCommonPrefixLength(word); pos < len(child.path) {
+				// eg: insert 'apple' into 'appZ', or insert 'appZ' into 'apple'
+				child = base.split(child, pos, word) // split child as 'app' and 'Z'/'le'
+				// eg2: insert '/app/:client/tokens' into '/app/:client/tokens/:token',
+			}
 			var n Node[T]
 			n, oldData = child.insert(word, fullPath, data, trie, cb)
 			if nn, ok := n.(*nodeS[T]); ok {
@@ -255,41 +254,31 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 	return
 }
 
-func (s *nodeS[T]) split(pos int, word []rune) (newNode *nodeS[T]) {
-	tip("[store/radix] split original path %q by word %q at pos %d", string(s.path), string(word), pos)
-
-	// origPath, origPathS := s.path, s.pathS
-	// if assertEnabled {
-	// 	defer func() {
-	// 		origPath, origPathS = []rune(origPathS), string(origPath)
-	// 	}()
-	// }
-
-	d := len(s.path) - pos
-	_ = word
-
-	newNode = &nodeS[T]{
-		path:        s.path[pos:],
-		pathS:       s.pathS, // [pos:], // s.pathS[len(s.pathS)-d:],
-		children:    s.children,
-		data:        s.data,
-		description: s.description,
-		comment:     s.comment,
-		tag:         s.tag,
-		nType:       s.nType,
+// split inserts a new branch node between s and its child, the branch
+// takes over the first pos runes of the path fragment of the child.
+//
+// The child keeps its identity (and data, description, comment, tag,
+// lock and ttl), so that the node handles held by users are still valid.
+func (s *nodeS[T]) split(child *nodeS[T], pos int, word []rune) (branch *nodeS[T]) {
+	tip("[store/radix] split original path %q by word %q at pos %d", string(child.path), string(word), pos)
+
+	rest := child.path[pos:]
+	branch = &nodeS[T]{
+		path:     child.path[:pos],
+		pathS:    strings.TrimSuffix(child.pathS, string(rest)),
+		children: []*nodeS[T]{child},
+		nType:    NTBranch,
 	}
-	assert(strings.HasSuffix(newNode.pathS, string(newNode.path)), "newNode: pathS should end with path")
+	child.path = rest
+	assert(strings.HasSuffix(child.pathS, string(child.path)), "child: pathS should end with path")
+	assert(strings.HasSuffix(branch.pathS, string(branch.path)), "branch: pathS(%q) should end with path(%q)", branch.pathS, string(branch.path))
 
-	s.path = s.path[:pos]
-	s.pathS = s.pathS[:len(s.pathS)-d] // s.pathS[:pos] //
-	s.children = []*nodeS[T]{newNode}
-	s.nType = NTBranch
-	s.description = ""
-	s.comment = ""
-	s.tag = nil
-	var t T
-	s.data = t
-	assert(strings.HasSuffix(s.pathS, string(s.path)), "parentNode: pathS(%q) should end with path(%q)", s.pathS, string(s.path))
+	for i, c := range s.children {
+		if c == child {
+			s.children[i] = branch
+			break
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 1b0d3112960acbf7019810c8ca16cac9eb70e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 03/56] fix: look up and remove paths on the delimiter boundary

Has/Search/Query/Remove depended on the shape of the radix-tree:

- Has("app.d") was true and Remove("app.d") dropped both app.debug and
  app.dump, since 'app.d' is a split point;
- Remove("app.log") dropped app.logging too;
- the section 'app.server' couldn't be found or removed if it has one key
  only, or if a sibling such as 'app.servers' exists;
- a section was still reported as existing after its last key removed.
---
 radix/node.go |  50 +++++++++++++++++++++++++
 radix/trie.go | 102 +++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 127 insertions(+), 25 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 7c171b2..24eee03 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -194,6 +194,56 @@ func (s *nodeS[T]) remove(item *nodeS[T]) (removed bool) { //nolint:revive
 	return
 }
 
+// removeKey removes a child and its subtree, but the keys which only share
+// a common prefix with the child will be kept. For example, removing 'app.log'
+// doesn't touch 'app.logging'.
+func (s *nodeS[T]) removeKey(item *nodeS[T], delimiter rune) (removedNode *nodeS[T], removed bool) { //nolint:revive
+	var below, others []*nodeS[T]
+	for _, c := range item.children {
+		if c.StartsWith(delimiter) {
+			below = append(below, c)
+		} else {
+			others = append(others, c)
+		}
+	}
+	if len(others) == 0 || item.isBranch() || item.endsWith(delimiter) {
+		return item, s.remove(item)
+	}
+
+	removedNode = &nodeS[T]{
+		path: item.path, pathS: item.pathS, children: below,
+		data: item.data, description: item.description, comment: item.comment, tag: item.tag,
+		nType: item.nType,
+	}
+	var t T
+	item.children, item.nType, item.data = others, NTBranch, t
+	item.description, item.comment, item.tag = "", "", nil
+	return removedNode, true
+}
+
+func (s *nodeS[T]) parentOf(item *nodeS[T]) *nodeS[T] {
+	for _, c := range s.children {
+		if c == item {
+			return s
+		}
+		if strings.HasPrefix(item.pathS, c.pathS) {
+			if p := c.parentOf(item); p != nil {
+				return p
+			}
+		}
+	}
+	return nil
+}
+
+func (s *nodeS[T]) childStartsWith(ch rune) *nodeS[T] { //nolint:revive
+	for _, c := range s.children {
+		if c.StartsWith(ch) {
+			return c
+		}
+	}
+	return nil
+}
+
 func (s *nodeS[T]) findCommonPrefixLength(word []rune) (length int) {
 	ml := min(len(word), len(s.path))
 	for length < ml && word[length] == s.path[length] {
diff --git a/radix/trie.go b/radix/trie.go
index 606e87f..d6fcd6e 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -495,8 +495,8 @@ func (s *trieS[T]) Search(path string) (found bool) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
+	_, _, exact, section := s.lookup(path, nil)
+	found = exact || section
 	return
 }
 
@@ -507,7 +507,7 @@ func (s *trieS[T]) Locate(path string, kvpair KVPair) (node *nodeS[T], branch, p
 	}
 	node, _, partialMatched = s.search(path, kvpair)
 	if node != nil {
-		found = !partialMatched
+		found = !partialMatched && !s.isSplitPoint(node)
 		branch = node.isBranch()
 	}
 	// found, branch = node != nil && !partialMatched, safeIsBranch(node)
@@ -535,8 +535,8 @@ func (s *trieS[T]) Has(path string) (found bool) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
+	_, _, exact, section := s.lookup(path, nil)
+	found = exact || section
 	return
 }
 
@@ -569,13 +569,17 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, parent, partialMatched := s.search(path, nil)
-	found := node != nil && !partialMatched // && !node.isBranch()
-	if found {
+	node, parent, exact, section := s.lookup(path, nil)
+	if exact || section {
 		if parent != nil {
-			removed = parent.remove(node)
+			if section {
+				removed = parent.remove(node)
+			} else {
+				node, removed = parent.removeKey(node, s.delimiter)
+			}
 			if removed {
 				nodeRemoved, nodeParent = node, parent
+				s.prune(parent)
 			}
 		} else {
 			logz.Warn("if given path found and return node, its parent MUST NOT be nil", "node", node, "parent", parent)
@@ -584,6 +588,17 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	return
 }
 
+// prune drops the branch nodes which become empty after a removal.
+func (s *trieS[T]) prune(node *nodeS[T]) {
+	for node != s.root && node.isBranch() && len(node.children) == 0 {
+		parent := s.root.parentOf(node)
+		if parent == nil || !parent.remove(node) {
+			return
+		}
+		node = parent
+	}
+}
+
 // MustGet is a simple Get without a checked found state.
 //
 // If nothing is found, zero data returned.
@@ -613,12 +628,11 @@ func (s *trieS[T]) getNode(path string) (node *nodeS[T], data T, kvpair KVPair,
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, kvpair)
-	found := node != nil && !partialMatched
+	node, _, found, _ := s.lookup(path, kvpair)
 	if found {
 		if node.isBranch() {
 			branch = true
-			if !node.endsWith(s.delimiter) {
+			if node == s.root {
 				found = false
 			}
 		}
@@ -640,15 +654,10 @@ func (s *trieS[T]) getNodeFast(path string) (node *nodeS[T], err error) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	var kvpair KVPair
-	var partialMatched bool
-	node, _, partialMatched = s.search(path, kvpair)
-	found := node != nil && !partialMatched
-	if found {
-		if node.isBranch() {
-			if !node.endsWith(s.delimiter) {
-				found = false
-			}
-		}
+	var found bool
+	node, _, found, _ = s.lookup(path, kvpair)
+	if found && node == s.root && node.isBranch() {
+		found = false
 	}
 	err = iif(found, error(nil), error(errors.NotFound))
 	return
@@ -703,12 +712,14 @@ func (s *trieS[T]) Query(path string, kvpair KVPair) (data T, branch, found bool
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, kvpair)
-	found = node != nil && !partialMatched
-	if found {
+	node, _, exact, section := s.lookup(path, kvpair)
+	found = exact || section
+	if section {
+		branch = true
+	} else if exact {
 		if node.isBranch() {
 			branch = true
-			if !node.endsWith(s.delimiter) {
+			if node == s.root {
 				found = false
 			}
 		}
@@ -725,6 +736,47 @@ func (s *trieS[T]) Query(path string, kvpair KVPair) (data T, branch, found bool
 	return
 }
 
+// lookup searches a path and interprets the result on the delimiter
+// boundary, no matter what the shape of the radix-tree is.
+//
+// exact means that the returned node represents the path itself (a
+// key, or a section such as 'app.' for the path 'app').
+//
+// section means that there is no node for the path itself but all of
+// the keys below it (path + delimiter) are held by the returned node.
+func (s *trieS[T]) lookup(path string, kvpair KVPair) (node, parent *nodeS[T], exact, section bool) { //nolint:revive
+	var partialMatched bool
+	node, parent, partialMatched = s.search(path, kvpair)
+	if node == nil {
+		return
+	}
+	if partialMatched {
+		if !s.simpleEndsWith(path, s.delimiter) {
+			path += string(s.delimiter) //nolint:revive
+		}
+		section = strings.HasPrefix(node.pathS, path)
+		return
+	}
+	if s.isSplitPoint(node) {
+		return
+	}
+	if node != s.root && node.isBranch() && !node.endsWith(s.delimiter) {
+		parent, node = node, node.childStartsWith(s.delimiter)
+		exact = node.isBranch() && len(node.path) == 1
+		section = !exact
+		return
+	}
+	exact = true
+	return
+}
+
+// isSplitPoint tells if a node is just a split point in the radix-tree,
+// such as 'app.d' for the keys 'app.debug' and 'app.dump'. It is neither
+// a key nor a section.
+func (s *trieS[T]) isSplitPoint(node *nodeS[T]) bool {
+	return node != s.root && node.isBranch() && !node.endsWith(s.delimiter) && node.childStartsWith(s.delimiter) == nil
+}
+
 // search node by dotted path key with RecursiveMode.
 //
 // Since v1.4.29, matchR supports look last key according to RecursiveMode.
-- 
2.43.0


From cceacf3dfcd707d140a3cd0f586036aaa31e1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:27 +0000
Subject: [PATCH 04/56] fix: SetComment and SetTag must not touch a partially
 matched node

SetTag("app.d", 1) or SetTag("app.debugging", 1) was applied to the key
'app.debug' although the given path doesn't exist.
---
 radix/trie.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index d6fcd6e..1a45dc1 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -452,8 +452,8 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, exact, _ := s.lookup(path, nil)
+	if ok = exact; ok {
 		node.description, node.comment = description, comment
 	}
 	return
@@ -466,8 +466,8 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, exact, _ := s.lookup(path, nil)
+	if ok = exact; ok {
 		node.tag = tag
 	}
 	return
-- 
2.43.0


From 1dd80c87262168a8e9658c1c623d86363a465ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:55 +0000
Subject: [PATCH 05/56] fix: SetEx must invoke its callback exactly once

The callback was skipped on an empty tree, and was invoked once per tree
level for the deeper keys.
---
 radix/trie.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 1a45dc1..ed56065 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -401,8 +401,11 @@ func (s *trieS[T]) SetEx(path string, data T, cb OnSetEx[T]) (oldData any) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	_, oldData = s.root.insert([]rune(path), path, data, s, cb)
-	return
+	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
+	if cb != nil {
+		cb(path, old, node, s)
+	}
+	return old
 }
 
 // SetNode sets the all node fields at once.
-- 
2.43.0


From 4025fcfca2d9293e4b334d7c59152dee2415fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:14 +0000
Subject: [PATCH 06/56] fix: SetNode must store the given tag

---
 radix/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radix/trie.go b/radix/trie.go
index ed56065..6be5bcc 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -414,6 +414,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
+	node.tag = tag
 	switch len(descriptionAndComments) {
 	case 0:
 	case 1:
-- 
2.43.0


From c89cbf1d3914f0b7402c632fe0586f2d9c4070d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:33 +0000
Subject: [PATCH 07/56] fix: Dump must not lock the node recursively

A reader in Dump holds the read-lock of a TTL'd node and acquired it again
in Data(): a TTL job waiting for the write-lock in between deadlocks both.
---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 24eee03..bd7c792 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -563,7 +563,7 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 				_, _ = sb.WriteString(" ")
 				_, _ = sb.WriteString(s.pathS)
 				_, _ = sb.WriteString(" => ")
-				_, _ = sb.WriteString(ColorToDim(fmt.Sprint(s.Data())))
+				_, _ = sb.WriteString(ColorToDim(fmt.Sprint(s.data)))
 			}
 
 			if s.comment != "" {
-- 
2.43.0


From 90f444477245323f5781fb7ee836c63759529e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:33 +0000
Subject: [PATCH 08/56] fix: Dup must keep description, comment and tag of a
 node

---
 radix/node.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index bd7c792..58bd530 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -597,9 +597,12 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 // The cost of cloneing a large tree or node is expensive.
 func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 	newNode = &nodeS[T]{
-		path:  s.path,
-		pathS: s.pathS,
-		nType: s.nType,
+		path:        s.path,
+		pathS:       s.pathS,
+		description: s.description,
+		comment:     s.comment,
+		tag:         s.tag,
+		nType:       s.nType,
 	}
 
 	newNode.children = make([]*nodeS[T], 0, len(s.children))
-- 
2.43.0


From 5c307b22b234453fa02af8dff07da0e1f03b23cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:33 +0000
Subject: [PATCH 09/56] fix: endless recursion in Store.RecursiveMode

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 78b5ab8..1959d4b 100644
--- a/store.go
+++ b/store.go
@@ -485,7 +485,7 @@ func (s *storeS) SetPrefix(newPrefix ...string) {
 func (s *storeS) N() (newStore Store)               { return s.dupS(s.Trie.N()) }
 func (s *storeS) R() (newStore Store)               { return s.dupS(s.Trie.R()) }
 func (s *storeS) BR() (newStore Store)              { return s.dupS(s.Trie.BR()) }
-func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.RecursiveMode() }
+func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.Trie.RecursiveMode() }
 
 // To finds a given path and loads the subtree into
 // 'holder', typically 'holder' could be a struct.
-- 
2.43.0


From e134af170549933cf4e07f348a0f4b5cf1ecc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:14 +0000
Subject: [PATCH 10/56] fix: Dup must make a real deep copy of the data

evendeep.MakeClone shares the slices and maps nested in a slice with the
original, turns a pointer into its pointee (or nil for a typed tree), and
loses the values of map[string][]int or map[string]map[string]int.
---
 radix/clone.go | 60 ++++++++++++++++++++++++++++++++++++++++++++++++++
 radix/node.go  |  9 +-------
 2 files changed, 61 insertions(+), 8 deletions(-)
 create mode 100644 radix/clone.go

diff --git a/radix/clone.go b/radix/clone.go
new file mode 100644
index 0000000..6d3e6f8
--- /dev/null
+++ b/radix/clone.go
@@ -0,0 +1,60 @@
+package radix
+
+import (
+	"reflect"
+)
+
+// cloneData makes a deep copy of the data of a node: the nested slices,
+// maps, pointers and the exported fields of structs will be copied; the
+// channels and functions are shared.
+func cloneData[T any](data T) (ret T) {
+	ret = data
+	from := reflect.ValueOf(&ret).Elem()
+	from.Set(cloneValue(from, map[any]reflect.Value{}))
+	return
+}
+
+func cloneValue(from reflect.Value, seen map[any]reflect.Value) reflect.Value {
+	to := reflect.New(from.Type()).Elem()
+	to.Set(from)
+	switch from.Kind() { //nolint:exhaustive
+	case reflect.Interface:
+		if !from.IsNil() {
+			to.Set(cloneValue(from.Elem(), seen))
+		}
+	case reflect.Ptr:
+		if !from.IsNil() {
+			if known, ok := seen[from.Interface()]; ok {
+				return known
+			}
+			to.Set(reflect.New(from.Type().Elem()))
+			seen[from.Interface()] = to
+			to.Elem().Set(cloneValue(from.Elem(), seen))
+		}
+	case reflect.Slice:
+		if !from.IsNil() {
+			to.Set(reflect.MakeSlice(from.Type(), from.Len(), from.Len()))
+			for i := 0; i < from.Len(); i++ {
+				to.Index(i).Set(cloneValue(from.Index(i), seen))
+			}
+		}
+	case reflect.Array:
+		for i := 0; i < from.Len(); i++ {
+			to.Index(i).Set(cloneValue(from.Index(i), seen))
+		}
+	case reflect.Map:
+		if !from.IsNil() {
+			to.Set(reflect.MakeMapWithSize(from.Type(), from.Len()))
+			for _, k := range from.MapKeys() {
+				to.SetMapIndex(k, cloneValue(from.MapIndex(k), seen))
+			}
+		}
+	case reflect.Struct:
+		for i := 0; i < from.NumField(); i++ {
+			if from.Type().Field(i).IsExported() {
+				to.Field(i).Set(cloneValue(from.Field(i), seen))
+			}
+		}
+	}
+	return to
+}
diff --git a/radix/node.go b/radix/node.go
index 58bd530..5d547b6 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -6,7 +6,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/hedzr/evendeep"
 	logz "github.com/hedzr/logg/slog"
 )
 
@@ -610,13 +609,7 @@ func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 		newNode.children = append(newNode.children, ch.Dup())
 	}
 
-	data := evendeep.MakeClone(s.Data())
-	switch z := data.(type) {
-	case *T:
-		newNode.data = *z
-	case T:
-		newNode.data = z
-	}
+	newNode.data = cloneData(s.Data())
 	return
 }
 
-- 
2.43.0


From 4dc52fc55462f4c4f57478ca0f8575d38cea32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:14 +0000
Subject: [PATCH 11/56] fix: ttl of sections, and ttl of removed keys

- a ttl of a section set through a view with prefix dropped nothing, the
  prefix was applied twice;
- a ttl of a section depended on the shape of the radix-tree: for a section
  with one key only it failed, for a split point it was accepted;
- each lightweight copy (WithPrefix, BR, Merge, ...) of a tree having a ttl
  leaked a goroutine;
- a removed key is detached from the tree as is, so that its pending ttl
  can't affect the keys sharing a common prefix with it.
---
 radix/node.go | 19 +++++++++----------
 radix/trie.go | 50 ++++++++++++++++++++++++++------------------------
 2 files changed, 35 insertions(+), 34 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 5d547b6..e1bacf5 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -196,7 +196,7 @@ func (s *nodeS[T]) remove(item *nodeS[T]) (removed bool) { //nolint:revive
 // removeKey removes a child and its subtree, but the keys which only share
 // a common prefix with the child will be kept. For example, removing 'app.log'
 // doesn't touch 'app.logging'.
-func (s *nodeS[T]) removeKey(item *nodeS[T], delimiter rune) (removedNode *nodeS[T], removed bool) { //nolint:revive
+func (s *nodeS[T]) removeKey(item *nodeS[T], delimiter rune) (removed bool) { //nolint:revive
 	var below, others []*nodeS[T]
 	for _, c := range item.children {
 		if c.StartsWith(delimiter) {
@@ -206,18 +206,17 @@ func (s *nodeS[T]) removeKey(item *nodeS[T], delimiter rune) (removedNode *nodeS
 		}
 	}
 	if len(others) == 0 || item.isBranch() || item.endsWith(delimiter) {
-		return item, s.remove(item)
+		return s.remove(item)
 	}
 
-	removedNode = &nodeS[T]{
-		path: item.path, pathS: item.pathS, children: below,
-		data: item.data, description: item.description, comment: item.comment, tag: item.tag,
-		nType: item.nType,
+	for i, c := range s.children {
+		if c == item {
+			s.children[i] = &nodeS[T]{path: item.path, pathS: item.pathS, children: others, nType: NTBranch}
+			item.children, removed = below, true
+			break
+		}
 	}
-	var t T
-	item.children, item.nType, item.data = others, NTBranch, t
-	item.description, item.comment, item.tag = "", "", nil
-	return removedNode, true
+	return
 }
 
 func (s *nodeS[T]) parentOf(item *nodeS[T]) *nodeS[T] {
diff --git a/radix/trie.go b/radix/trie.go
index 6be5bcc..933a9f4 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -93,6 +93,7 @@ type wheelAction func(ctx context.Context, w *wheelS)
 
 type ttljobS[T any] struct {
 	node     *nodeS[T]
+	section  string // the full path of a section if the job is for it
 	duration time.Duration
 	action   OnTTLRinging[T]
 }
@@ -111,18 +112,6 @@ func newttls[T any](t *trieS[T]) *TTL[T] {
 	return s
 }
 
-func (s *TTL[T]) dupS() *TTL[T] {
-	ctx, cancel := context.WithCancel(context.Background())
-	n := &TTL[T]{
-		treevec: []*trieS[T]{s.treevec[0]},
-		cancel:  cancel,
-		done:    ctx.Done(),
-		adder:   make(chan ttljobS[T]),
-	}
-	go n.run()
-	return n
-}
-
 func (s *TTL[T]) Close() {
 	s.cancel()
 }
@@ -130,10 +119,21 @@ func (s *TTL[T]) Close() {
 func (s *TTL[T]) Tree() Trie[T] { return s.treevec[0] }
 
 func (s *TTL[T]) Add(nd *nodeS[T], duration time.Duration, action OnTTLRinging[T]) {
+	s.add(nd, "", duration, action)
+}
+
+func (s *TTL[T]) add(nd *nodeS[T], section string, duration time.Duration, action OnTTLRinging[T]) {
 	if nd.rw == nil {
 		nd.rw = &sync.RWMutex{}
 	}
-	s.adder <- ttljobS[T]{node: nd, duration: duration, action: action}
+	s.adder <- ttljobS[T]{node: nd, section: section, duration: duration, action: action}
+}
+
+// drop removes a section by its full path. The prefix of the tree
+// which the ttl was set by must be ignored.
+func (s *TTL[T]) drop(fullPath string) {
+	tree := s.treevec[0]
+	(&trieS[T]{root: tree.root, delimiter: tree.delimiter}).Remove(fullPath)
 }
 
 func (s *TTL[T]) run() {
@@ -156,8 +156,10 @@ func (s *TTL[T]) run() {
 					if job.action != nil {
 						job.action(s, job.node)
 					}
-					if job.node.isBranch() {
-						s.treevec[0].Remove(job.node.pathS)
+					if job.section != "" {
+						s.drop(job.section)
+					} else if job.node.isBranch() {
+						s.drop(job.node.pathS)
 					} else {
 						job.node.SetEmpty()
 					}
@@ -213,15 +215,18 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
-	found := node != nil && !partialMatched // && !node.isBranch()
+	node, _, exact, section := s.lookup(path, nil)
 	state = -1
-	if found {
+	if exact || section {
 		state = 0
 		if s.ttlpresent.CompareAndSwap(0, 1) {
 			s.ttls = newttls(s)
 		}
-		s.ttls.Add(node, ttl, cb)
+		if exact && !node.isBranch() {
+			s.ttls.Add(node, ttl, cb)
+		} else {
+			s.ttls.add(node, path, ttl, cb)
+		}
 	}
 	return
 }
@@ -248,10 +253,7 @@ func (s *trieS[T]) dupS(root *nodeS[T], prefix string) (newTrie *trieS[T]) { //n
 		delimiter:     s.delimiter,
 		recursiveMode: s.recursiveMode,
 	}
-	if s.ttlpresent.Load() > 0 {
-		newTrie.ttls = s.ttls.dupS()
-		newTrie.ttlpresent.Add(1)
-	}
+	// don't share or dup the ttls here, it will be created on demand.
 	return
 }
 
@@ -579,7 +581,7 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 			if section {
 				removed = parent.remove(node)
 			} else {
-				node, removed = parent.removeKey(node, s.delimiter)
+				removed = parent.removeKey(node, s.delimiter)
 			}
 			if removed {
 				nodeRemoved, nodeParent = node, parent
-- 
2.43.0


From 69f37626c2689dd770c4680c74be352193d1dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:33 +0000
Subject: [PATCH 12/56] fix: Store.Close must stop the pending ttl jobs

---
 store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store.go b/store.go
index 1959d4b..884fe78 100644
--- a/store.go
+++ b/store.go
@@ -221,6 +221,9 @@ func (s *storeS) Close() {
 	for _, c := range s.closers {
 		c.Close()
 	}
+	if c, ok := s.Trie.(Peripheral); ok {
+		c.Close() // stop the ttl jobs
+	}
 }
 
 // MustGet is a shortcut to Get without error returning.
-- 
2.43.0


From 7a0d952e0be8052c29ae1239f96b8bca49a5aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:39 +0000
Subject: [PATCH 13/56] fix: Trie.Merge must keep the hierarchy of nested maps
 and slices

The path of a nested map lost its parents, and the prefix was doubled for
the elements of a slice.
---
 radix/load.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/radix/load.go b/radix/load.go
index 5d1896c..791eaf0 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -68,7 +68,7 @@ func (s *trieS[T]) loadMap(m map[string]any) (err error) {
 func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k string, v any) { //nolint:revive,unparam
 	switch vv := v.(type) {
 	case map[string]any:
-		ec.Attach(s.withPrefixReplacedImpl(k).loadMap(vv))
+		ec.Attach(s.withPrefixImpl(k).loadMap(vv))
 	case []map[string]any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
@@ -81,10 +81,6 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 	case []any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
-			if s.prefix != "" {
-				buf = append(buf, s.prefix...)
-				buf = append(buf, byte(s.delimiter))
-			}
 			buf = append(buf, k...)
 			buf = append(buf, byte(s.delimiter))
 			buf = strconv.AppendInt(buf, int64(i), 10)
-- 
2.43.0


From 112a24e01ed013e4cc6553c8cab7d932db64075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:39 +0000
Subject: [PATCH 14/56] fix: Store.Merge on a view must respect the prefix of
 the view

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 884fe78..45b082f 100644
--- a/store.go
+++ b/store.go
@@ -301,7 +301,7 @@ func (s *storeS) Merge(pathAt string, data map[string]any) (err error) {
 	// 	return
 	// }
 
-	err = s.loadMap(data, pathAt, false, nil)
+	err = s.loadMap(data, s.join(s.Prefix(), pathAt), false, nil)
 	// s.tryOnSet(pathAt, true, old, data)
 	return
 }
-- 
2.43.0


From 612306d7d875665b14883605f249d6cb65bd85c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:48 +0000
Subject: [PATCH 15/56] fix: Load must apply the description, comment and tag
 of a ValPkg

---
 load.go  | 8 ++++++--
 store.go | 6 +++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/load.go b/load.go
index e7afe7e..88699d6 100644
--- a/load.go
+++ b/load.go
@@ -149,8 +149,12 @@ func (s *storeS) loadMapDedicated(m map[string]ValPkg, position string, creating
 	defer ec.Defer(&err)
 	for k, v := range m {
 		s.loadMapByValueType(ec, position, k, v.Value, creating, func(node radix.Node[any]) {
-			node.SetComment(v.Desc, v.Comment)
-			node.SetTag(v.Tag)
+			if v.Desc != "" || v.Comment != "" {
+				node.SetComment(v.Desc, v.Comment)
+			}
+			if v.Tag != nil {
+				node.SetTag(v.Tag)
+			}
 		})
 	}
 	return
diff --git a/store.go b/store.go
index 45b082f..698f079 100644
--- a/store.go
+++ b/store.go
@@ -333,14 +333,14 @@ func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet
 	node, oldData = s.Trie.Set(path, data)
 	loading := s.inLoading()
 	user := !loading
+	if node != nil && onSet != nil {
+		onSet(node)
+	}
 	if user {
 		if oldData != nil {
 			createOrModify = false // set it to is-modifying instead of is-creating
 		}
 		if node != nil {
-			if onSet != nil {
-				onSet(node)
-			}
 			node.SetModified(true)
 		}
 	}
-- 
2.43.0


From 0e48e33ce7f88af6d2cb99670f0c1f5b09cf4476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:53 +0000
Subject: [PATCH 16/56] fix: notify the change handlers for views, merging and
 loading

The handlers were never called for the changes made by Merge, Load or a view
(WithPrefix, ...), although their mergingMapOrLoading argument is documented
for this purpose. That argument was inverted, and setting a key at a section
without data was reported as a modification instead of a new key.
---
 load.go  |  3 +++
 store.go | 49 ++++++++++++++++++++++++++++++++++---------------
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/load.go b/load.go
index 88699d6..998a394 100644
--- a/load.go
+++ b/load.go
@@ -182,6 +182,9 @@ func (s *storeS) loadMap(m map[string]any, position string, creating bool, onSet
 func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet lmOnSet) {
 	set := ss.WithPrefixReplaced(position).(*storeS)
 	defer func() { atomic.StoreInt32(&set.loading, 0) }()
+	set.merging = true
+	_, branch, found, _ := set.Trie.Query(k, nil)
+	creating = !found || branch
 	set.setKV(k, v, creating, onSet)
 }
 
diff --git a/store.go b/store.go
index 698f079..dbcfdad 100644
--- a/store.go
+++ b/store.go
@@ -105,7 +105,8 @@ type storeS struct {
 	// WithPrefixReplaced.
 	// See dupS()
 
-	parent *storeS
+	parent  *storeS
+	merging bool // merging a map, or loading from a source?
 
 	flattenSlice bool
 	allowWatch   bool
@@ -131,6 +132,14 @@ func (s *storeS) MarshalJSON() ([]byte, error) {
 	return []byte(sb.String()), nil
 }
 
+// viewS makes a lightweight copy of the store sharing the same tree. The
+// changes made by a view will be notified to the handlers of its parent.
+func (s *storeS) viewS(trie radix.Trie[any]) (newStore *storeS) {
+	newStore = s.dupS(trie)
+	newStore.parent, newStore.merging = s, s.merging
+	return
+}
+
 // dupS makes a new `*storeS` instance with initial `trie` object.
 //
 // The given `trie` object should be a new copy of an existed
@@ -257,7 +266,7 @@ func (s *storeS) Set(path string, data any) (node radix.Node[any], oldData any)
 		oldData = old
 	}
 
-	node, oldData = s.setKV(path, data, !found, nil)
+	node, oldData = s.setKV(path, data, !found || branch, nil)
 	// s.tryOnSet(path, false, old, data)
 	return
 }
@@ -344,18 +353,27 @@ func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet
 			node.SetModified(true)
 		}
 	}
-	s.tryOnSet(path, user, oldData, data, createOrModify)
+	s.tryOnSet(path, s.merging || loading, oldData, data, createOrModify)
 	return
 }
 
-func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrModify bool) {
+// fullPathForParent returns the path for the handlers of the parent store.
+func (s *storeS) fullPathForParent(path string) string {
+	if s.parent != nil {
+		return s.join(s.Prefix(), path)
+	}
+	return path
+}
+
+func (s *storeS) tryOnSet(path string, mergingMapOrLoading bool, oldData, data any, createOrModify bool) {
 	ptr := s
+	path = s.fullPathForParent(path)
 
 	if createOrModify {
 	retryPN:
 		for _, cb := range ptr.onNewHandlers {
 			if cb != nil {
-				cb(path, data, user)
+				cb(path, data, mergingMapOrLoading)
 			}
 		}
 		if ptr.parent != nil {
@@ -368,7 +386,7 @@ func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrMod
 retryPM:
 	for _, cb := range ptr.onChangeHandlers {
 		if cb != nil {
-			cb(path, data, oldData, user)
+			cb(path, data, oldData, mergingMapOrLoading)
 		}
 	}
 	if ptr.parent != nil {
@@ -377,13 +395,14 @@ retryPM:
 	}
 }
 
-func (s *storeS) tryOnDelete(path string, user bool, oldData any, node, np radix.Node[any]) {
+func (s *storeS) tryOnDelete(path string, mergingMapOrLoading bool, oldData any, node, np radix.Node[any]) {
 	ptr := s
+	path = s.fullPathForParent(path)
 	_, _ = node, np
 retryPD:
 	for _, cb := range ptr.OnDeleteHandlers {
 		if cb != nil {
-			cb(path, oldData, user)
+			cb(path, oldData, mergingMapOrLoading)
 		}
 	}
 	if ptr.parent != nil {
@@ -398,7 +417,7 @@ func (s *storeS) Remove(path string) (removed bool) {
 	if removed {
 		loading := s.inLoading()
 		data := rmn.Data()
-		s.tryOnDelete(path, !loading, data, rmn, np)
+		s.tryOnDelete(path, loading, data, rmn, np)
 	}
 	return
 }
@@ -408,7 +427,7 @@ func (s *storeS) RemoveEx(path string) (nodeRemoved, nodeParent radix.Node[any],
 	if removed {
 		loading := s.inLoading()
 		data := nodeRemoved.Data()
-		s.tryOnDelete(path, !loading, data, nodeRemoved, nodeParent)
+		s.tryOnDelete(path, loading, data, nodeRemoved, nodeParent)
 	}
 	return
 }
@@ -464,7 +483,7 @@ func (s *storeS) Dup() (newStore Store) {
 // A [Delimiter] will be inserted at jointing prefix and key. Also at
 // jointing old and new prefix.
 func (s *storeS) WithPrefix(prefix ...string) (newStore Store) {
-	return s.dupS(s.Trie.WithPrefix(prefix...))
+	return s.viewS(s.Trie.WithPrefix(prefix...))
 }
 
 // WithPrefixReplaced is similar with WithPrefix, but it replaces
@@ -477,7 +496,7 @@ func (s *storeS) WithPrefix(prefix ...string) (newStore Store) {
 //
 // A [Delimiter] will be inserted at jointing prefix and key.
 func (s *storeS) WithPrefixReplaced(newPrefix ...string) (newStore Store) {
-	return s.dupS(s.Trie.WithPrefixReplaced(newPrefix...))
+	return s.viewS(s.Trie.WithPrefixReplaced(newPrefix...))
 }
 
 // SetPrefix updates the prefix in current storeS.
@@ -485,9 +504,9 @@ func (s *storeS) SetPrefix(newPrefix ...string) {
 	s.Trie.SetPrefix(newPrefix...)
 }
 
-func (s *storeS) N() (newStore Store)               { return s.dupS(s.Trie.N()) }
-func (s *storeS) R() (newStore Store)               { return s.dupS(s.Trie.R()) }
-func (s *storeS) BR() (newStore Store)              { return s.dupS(s.Trie.BR()) }
+func (s *storeS) N() (newStore Store)               { return s.viewS(s.Trie.N()) }
+func (s *storeS) R() (newStore Store)               { return s.viewS(s.Trie.R()) }
+func (s *storeS) BR() (newStore Store)              { return s.viewS(s.Trie.BR()) }
 func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.Trie.RecursiveMode() }
 
 // To finds a given path and loads the subtree into
-- 
2.43.0


From 87f7606a1f85fc0f181f4f7d6d3de391b7dd0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 17/56] fix: Store.Close must close the watchers started by
 Load with WithStorePrefix

---
 load.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/load.go b/load.go
index 998a394..8afc3d3 100644
--- a/load.go
+++ b/load.go
@@ -312,7 +312,11 @@ func (s *storeS) startWatch(ctx context.Context, loader *Loader) {
 		if err := w.Watch(ctx, s.applyExternalChanges); err != nil {
 			logz.Error("[Watcher.StartWatch.ERROR]", "err", err)
 		} else {
-			s.closers = append(s.closers, w)
+			root := s
+			for root.parent != nil {
+				root = root.parent // WithStorePrefix makes a view, but it's the root store to be closed by user
+			}
+			root.closers = append(root.closers, w)
 		}
 	}
 }
-- 
2.43.0


From 32c8c404d3c790a7a6fbdd00a410216a2ce421d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:50 +0000
Subject: [PATCH 18/56] fix: GetM and GetR must extract exactly the keys of a
 section

- GetM(path) lost the path segments below a section with two or more segments;
- GetM("") on a view with prefix cut the first char of the keys, and
  returned the keys (or panicked) outside of the prefix;
- a partially matched path or a split point returned the unrelated keys;
- the key of GetM(leaf) was a fragment of the radix-tree.
---
 radix/cvter.go | 53 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 9a0f345..02e4038 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -366,8 +366,9 @@ func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[stri
 	if found || partialMatched {
 		_, _, ret = branch, partialMatched, make(map[string]any)
 
+		section := s.sectionOf(path, nodeX, found)
 		nodeX.Walk(func(path, fragment string, node Node[T]) {
-			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
+			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() && s.inSection(path, section) {
 				// For a trie like:
 				//
 				//     app.                          <B>
@@ -393,7 +394,9 @@ func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[stri
 			}
 		})
 		logz.Debug("[GetR] ", "ret", ret)
-	} else {
+	}
+	if len(ret) == 0 && !found {
+		ret = nil
 		for _, v := range defaultVal {
 			ret = v
 		}
@@ -420,12 +423,12 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1 // s.prefix + '.'
+		prefix := s.Prefix()
+		if prefix != "" {
+			prefix += string(s.delimiter)
 		}
 		s.root.Walk(func(path, fragment string, node Node[T]) {
-			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() {
+			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() && strings.HasPrefix(path, prefix) {
 				if putter.filterFn != nil {
 					if !putter.filterFn(node) {
 						return
@@ -433,8 +436,8 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 				}
 				if putter.keepPrefix {
 					ret[path] = node.Data()
-				} else if prelen <= len(path) {
-					ret[path[prelen+1:]] = node.Data()
+				} else {
+					ret[path[len(prefix):]] = node.Data()
 				}
 			}
 		})
@@ -451,15 +454,10 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1
-		}
-		prelen += len(path) + 1
-		prelen--
+		section := s.sectionOf(path, nodeX, found)
 		logz.Verbose("[GetM] loop subtree and return as a map", "path", putter.prefix)
 		nodeX.Walk(func(path, fragment string, node Node[T]) {
-			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
+			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() && s.inSection(path, section) {
 				logz.Verbose("  - put into map", "path", path, "fragment", fragment)
 				if putter.filterFn != nil {
 					if !putter.filterFn(node) {
@@ -468,10 +466,10 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 				}
 				if putter.keepPrefix {
 					putter.put(ret, path, string(s.delimiter), node.Data())
-				} else if prelen+1 == len(path) {
-					putter.put(ret, fragment, string(s.delimiter), node.Data())
-				} else if prelen < len(path) {
-					putter.put(ret, path[prelen+1:], string(s.delimiter), node.Data())
+				} else if path == section {
+					ret[path[strings.LastIndex(path, string(s.delimiter))+1:]] = node.Data()
+				} else {
+					putter.putKeys(ret, strings.Split(path[len(section)+len(string(s.delimiter)):], string(s.delimiter)), node.Data())
 				}
 			}
 		})
@@ -479,10 +477,27 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		if putter.noFlatten {
 			ret = s.splitCompactKeys(ret)
 		}
+		if len(ret) == 0 && !found {
+			ret = nil
+		}
 	}
 	return
 }
 
+// sectionOf returns the full path of a section without the tail delimiter.
+func (s *trieS[T]) sectionOf(path string, node *nodeS[T], found bool) string {
+	path = s.Join(s.prefix, path)
+	if found {
+		path = node.pathS // it could be a parent of path (see BR), or an ident pattern
+	}
+	return strings.TrimSuffix(path, string(s.delimiter))
+}
+
+// inSection tests if a key is section itself or below it.
+func (s *trieS[T]) inSection(key, section string) bool {
+	return key == section || strings.HasPrefix(key, section+string(s.delimiter))
+}
+
 func (s *trieS[T]) MustM(path string, opts ...MOpt[T]) (ret map[string]any) {
 	ret, _ = s.GetM(path, opts...)
 	return
-- 
2.43.0


From d75c3daf8ec6946eb174461606a6481e8a3ae2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:58 +0000
Subject: [PATCH 19/56] fix: matching of ident patterns and empty trees

- a literal key was shadowed by an ident pattern inserted earlier, and a
  partially matched literal key hid the ident pattern;
- the children of an ident pattern were skipped if the pattern is longer
  than the matching word;
- a pattern ending with the delimiter matched one of its children;
- on an empty tree HasPart returned true, GetR and GetM panicked.
---
 radix/node.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index e1bacf5..3f35f26 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -483,21 +483,30 @@ masterLoop:
 	} else if minL >= l && srcMatchedL == minL && minL > 0 && srcMatchedL > 0 && !partialMatched {
 		matched, child, parent = true, base, parentNode
 	}
-	if minL < wl {
+	if dstMatchedL == 0 {
+		dstMatchedL = minL
+	}
+	if dstMatchedL < wl {
 		if len(base.children) == 0 {
-			matched, partialMatched = false, true
+			matched, partialMatched = false, child != nil
 			return
 		}
 
 		// restPart := word[minL:]
-		if dstMatchedL == 0 {
-			dstMatchedL = minL
-		}
 		restPart := word[dstMatchedL:]
-		for _, child = range base.children {
-			matched, partialMatched, child, parent = child.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
-			if matched || partialMatched {
-				return
+		matched, partialMatched, child, parent = false, false, nil, nil
+		for _, literal := range []bool{true, false} { // the literal keys are prior to the ident patterns
+			for _, ch := range base.children {
+				if (ch.path[0] == restPart[0]) != literal {
+					continue
+				}
+				m, pm, c, p := ch.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
+				if m {
+					return m, pm, c, p
+				}
+				if pm && !partialMatched { // keep it, and try the rest children for a full matching
+					partialMatched, child, parent = pm, c, p
+				}
 			}
 		}
 	}
-- 
2.43.0


From 6b907d7f8c10d1e3b8701c6c1726dc538b48cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:23 +0000
Subject: [PATCH 20/56] fix: the recursive-up lookup must not stop at a
 partially matched key

In BR mode, 'path.to.son.mid' must be looked up in the parents too if there's
an unrelated key such as 'path.to.son.middle' or a split point.
---
 radix/trie.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 933a9f4..d62b4b5 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -792,11 +792,15 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 	defer putBack(mctx)
 
 	// stringtoslicerune needs two pass full-scanning for a string, but it have to be to do.
-	if matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair); matched || pm {
+	matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair)
+	if s.recursiveMode != RecusiveUp && (matched || pm) {
 		return child, prnt, pm
 	}
 
-	if s.recursiveMode == RecusiveUp && strings.Contains(word, string(s.delimiter)) {
+	if s.recursiveMode == RecusiveUp {
+		if matched && !pm && !s.isSplitPoint(child) || pm && strings.HasPrefix(child.pathS, word+string(s.delimiter)) {
+			return child, prnt, pm
+		}
 		w := word
 	retry:
 		a := strings.Split(w, string(s.delimiter))
@@ -804,11 +808,14 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 			a = append(a[:len(a)-2], a[len(a)-1])
 			w = strings.Join(a, string(s.delimiter))
 			mctx.fullPath = w
-			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched || pm {
+			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched && !pm && !s.isSplitPoint(child) {
 				return child, prnt, pm
 			}
 			goto retry
 		}
+		if matched || pm {
+			return child, prnt, pm
+		}
 	}
 
 	found = nil
-- 
2.43.0


From cabbfeeb4940163944b812aef00c88211a766f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:00 +0000
Subject: [PATCH 21/56] fix: Walk("section.") must walk exactly the section

Walking a section went through the whole tree if the section was held by a
single fragment, or if it does not exist.
---
 radix/trie.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index d62b4b5..b9ad486 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -926,12 +926,13 @@ func (s *trieS[T]) Dup() (newTrie *trieS[T]) { //nolint:revive
 func (s *trieS[T]) Walk(path string, cb func(path, fragment string, node Node[T])) { //nolint:revive
 	root := s.root
 	if path != "" {
-		node, parent, partialMatched := s.search(path, nil)
-		if !partialMatched {
-			root = parent
-			if runes := []rune(path); runes[len(runes)-1] == s.delimiter {
-				root = node
+		if s.simpleEndsWith(path, s.delimiter) {
+			node, _, exact, section := s.lookup(path, nil)
+			if root = nil; exact || section {
+				root = node // nothing to walk if the section doesn't exist
 			}
+		} else if _, parent, partialMatched := s.search(path, nil); !partialMatched {
+			root = parent
 		}
 	}
 
-- 
2.43.0


From f727687a3477b0d37b0e2693c077828f5394862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:00 +0000
Subject: [PATCH 22/56] fix: Load from a stream provider must not decode absent
 bytes

The keys of a StreamProvider were put into the store, but Load failed then
with a decoding error since there are no bytes to be decoded.
---
 load.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/load.go b/load.go
index 8afc3d3..475d112 100644
--- a/load.go
+++ b/load.go
@@ -536,8 +536,9 @@ func (s *Loader) tryLoad(ctx context.Context) (data map[string]ValPkg, bin map[s
 				if eol {
 					break
 				}
-				s.setKV(k, fp.MustValue(k), true, nil)
+				privateSetter(s.storeS, s.Prefix(), k, fp.MustValue(k), true, nil)
 			}
+			return map[string]ValPkg{}, nil, nil // all keys are set, there are no bytes to be decoded
 		}
 	}
 	if err != nil {
-- 
2.43.0


From 8668cc56290c3de71e55fbb35ab73e9d3f8a5018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:27 +0000
Subject: [PATCH 23/56] fix: a view must not stay in loading state forever

A view (including the loader made by Load WithStorePrefix) copied the loading
state of its origin and never left it: its changes were never Modified and
so never written back, and its Load and WithinLoading did nothing.
---
 load.go  | 11 +++++++++--
 store.go |  3 +--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/load.go b/load.go
index 475d112..a77dfac 100644
--- a/load.go
+++ b/load.go
@@ -16,7 +16,15 @@ import (
 	"github.com/hedzr/store/radix"
 )
 
-func (s *storeS) inLoading() bool { return atomic.LoadInt32(&s.loading) == 1 }
+// inLoading tests if the store, or the store which a view comes from, is in loading.
+func (s *storeS) inLoading() bool {
+	for ptr := s; ptr != nil; ptr = ptr.parent {
+		if atomic.LoadInt32(&ptr.loading) == 1 {
+			return true
+		}
+	}
+	return false
+}
 
 // WithinLoading is a helper to 'load' a 'fn'. The 'fn' will be
 // run as is, and the internal flag 's.loading' will be set at
@@ -181,7 +189,6 @@ func (s *storeS) loadMap(m map[string]any, position string, creating bool, onSet
 
 func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet lmOnSet) {
 	set := ss.WithPrefixReplaced(position).(*storeS)
-	defer func() { atomic.StoreInt32(&set.loading, 0) }()
 	set.merging = true
 	_, branch, found, _ := set.Trie.Query(k, nil)
 	creating = !found || branch
diff --git a/store.go b/store.go
index dbcfdad..e323101 100644
--- a/store.go
+++ b/store.go
@@ -149,8 +149,7 @@ func (s *storeS) dupS(trie radix.Trie[any]) (newStore *storeS) {
 		Trie:         trie,
 		flattenSlice: s.flattenSlice,
 		allowWatch:   s.allowWatch,
-		loading:      s.loading,
-		// don't dup the member 'parent' here
+		// don't dup the member 'parent' and 'loading' here
 	}
 	return
 }
-- 
2.43.0


From 64cab1110e0d617e5aa1c467ba5814a4c17e93d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:54 +0000
Subject: [PATCH 24/56] fix: the gob codec must encode and decode each time

Marshal always returned no bytes, and the cached decoder made the 2nd
Unmarshal fail (or return the previous content).
---
 codecs/gob/gob.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/codecs/gob/gob.go b/codecs/gob/gob.go
index bf39032..52757ea 100644
--- a/codecs/gob/gob.go
+++ b/codecs/gob/gob.go
@@ -17,27 +17,19 @@ func New() store.Codec {
 	return &ldr{}
 }
 
-type ldr struct {
-	dec *gob.Decoder
-	enc *gob.Encoder
-}
+type ldr struct{}
 
 // Unmarshal parses the given bytes.
 func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
-	if p.dec == nil {
-		r := bytes.NewReader(b)
-		p.dec = gob.NewDecoder(r)
-	}
-	err = p.dec.Decode(&data)
+	err = gob.NewDecoder(bytes.NewReader(b)).Decode(&data)
 	return
 }
 
 // Marshal marshals the given config map to bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
-	if p.enc == nil {
-		sb := bytes.NewBuffer(data)
-		p.enc = gob.NewEncoder(sb)
+	var bb bytes.Buffer
+	if err = gob.NewEncoder(&bb).Encode(m); err == nil {
+		data = bb.Bytes()
 	}
-	err = p.enc.Encode(m)
 	return
 }
-- 
2.43.0


From a0ac6048280a6b664831ba5573d497d53070c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:01 +0000
Subject: [PATCH 25/56] fix: Next of the env and flags providers must iterate
 the keys

The eol flag was inverted: the iteration stopped at once if there are keys,
and panicked if there is none of them. And the name which is exactly the
stripped prefix panicked with WithUnderlineToDot.
---
 providers/env/env.go     | 4 ++--
 providers/flags/flags.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 8478937..40f8627 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -122,7 +122,7 @@ func (s *pvdr) prepare() (err error) {
 			if s.stripped != "" {
 				k = strings.TrimPrefix(k, s.stripped)
 			}
-			if s.underline2dot {
+			if s.underline2dot && k != "" {
 				k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 			}
 			if s.cb != nil {
@@ -150,7 +150,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index b6700b9..167bd9c 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -106,7 +106,7 @@ func (s *pvdr) prepare() (err error) {
 		if s.stripped != "" {
 			k = strings.TrimPrefix(k, s.stripped)
 		}
-		if s.underline2dot {
+		if s.underline2dot && k != "" {
 			k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 		}
 		if s.cb != nil {
@@ -144,7 +144,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
-- 
2.43.0


From b0533325a949c92d3f94bb7d7d27a8c531e3e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:28 +0000
Subject: [PATCH 26/56] fix: GetKibiBytes and GetKiloBytes must not panic on a
 non-ASCII space

The index of the unit was computed in bytes but used on runes, "1\u00a0k"
caused an index out of range panic.
---
 radix/cvter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 02e4038..c2c8da4 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -5,6 +5,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	logz "github.com/hedzr/logg/slog"
 
@@ -1567,12 +1568,12 @@ func (s *trieS[T]) FromKibiBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKibiBytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKibiBytes(r)
 		}
 	}
@@ -1653,12 +1654,12 @@ func (s *trieS[T]) FromKiloBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKilobytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKilobytes(r)
 		}
 	}
-- 
2.43.0


From f2334c3647c3500a37cf601ba5f1956cf2983dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:56 +0000
Subject: [PATCH 27/56] fix: any rune can be used as the delimiter when joining
 paths

Only the low byte of the delimiter was written, a non-ASCII delimiter broke
the prefix, views and merging.
---
 load.go       | 7 ++++---
 radix/load.go | 5 +++--
 radix/trie.go | 6 +++---
 store.go      | 2 +-
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/load.go b/load.go
index a77dfac..1844c42 100644
--- a/load.go
+++ b/load.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"sync/atomic"
 	"time"
+	"unicode/utf8"
 
 	"gopkg.in/hedzr/errors.v3"
 
@@ -208,7 +209,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 			buf := make([]byte, 0, len(k)+16)
 			for i, mm := range vv {
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				ec.Attach(s.loadMap(mm, s.join(position, string(buf)), creating, onSet))
 				buf = buf[:0]
@@ -228,7 +229,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 			buf := make([]byte, 0, len(k)+16)
 			for i, mm := range vv {
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				ec.Attach(s.loadMapAny(mm, s.join(position, string(buf)), creating, onSet))
 				buf = buf[:0]
@@ -252,7 +253,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 				// 	buf = append(buf, byte(s.Delimiter()))
 				// }
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				s.loadMapByValueType(ec, position, string(buf), mm, creating, onSet)
 				buf = buf[:0]
diff --git a/radix/load.go b/radix/load.go
index 791eaf0..dc6470a 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -2,6 +2,7 @@ package radix
 
 import (
 	"strconv"
+	"unicode/utf8"
 
 	"gopkg.in/hedzr/errors.v3"
 )
@@ -73,7 +74,7 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
 			buf = append(buf, k...)
-			buf = append(buf, byte(s.delimiter))
+			buf = utf8.AppendRune(buf, s.delimiter)
 			buf = strconv.AppendInt(buf, int64(i), 10)
 			ec.Attach(s.withPrefixImpl(string(buf)).loadMap(mm))
 			buf = buf[:0]
@@ -82,7 +83,7 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
 			buf = append(buf, k...)
-			buf = append(buf, byte(s.delimiter))
+			buf = utf8.AppendRune(buf, s.delimiter)
 			buf = strconv.AppendInt(buf, int64(i), 10)
 			s.loadMapByValueType(ec, m, string(buf), mm)
 			buf = buf[:0]
diff --git a/radix/trie.go b/radix/trie.go
index b9ad486..6cb99cb 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -331,7 +331,7 @@ func (s *trieS[T]) join1(pre string, args ...string) (ret string) {
 
 	for _, it := range args {
 		if it != "" {
-			_ = bb.WriteByte(byte(s.delimiter))
+			_, _ = bb.WriteRune(s.delimiter)
 			_, _ = bb.WriteString(it)
 			i++
 		}
@@ -355,7 +355,7 @@ func (s *trieS[T]) Join(args ...string) (ret string) {
 		for _, it := range args {
 			if it != "" {
 				if bytes > 0 {
-					_ = bb.WriteByte(byte(s.delimiter))
+					_, _ = bb.WriteRune(s.delimiter)
 				}
 				_, _ = bb.WriteString(it)
 				bytes++ //nolint:revive
@@ -369,7 +369,7 @@ func (s *trieS[T]) Join(args ...string) (ret string) {
 	// for _, it := range args {
 	// 	if it != "" {
 	// 		if i > 0 {
-	// 			_ = bb.WriteByte(byte(s.delimiter))
+	// 			_, _ = bb.WriteRune(s.delimiter)
 	// 		}
 	// 		_, _ = bb.WriteString(it)
 	// 		i++
diff --git a/store.go b/store.go
index e323101..786ad4d 100644
--- a/store.go
+++ b/store.go
@@ -214,7 +214,7 @@ func (s *storeS) join(args ...string) (ret string) {
 	for _, it := range args {
 		if it != "" {
 			if i > 0 {
-				bb.WriteByte(byte(s.Delimiter()))
+				bb.WriteRune(s.Delimiter())
 			}
 			bb.WriteString(it)
 			i++
-- 
2.43.0


From 7f647362a2508b444c7d3606c06a833c73e9da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:31 +0000
Subject: [PATCH 28/56] fix: GetR of the root must be limited to the prefix of
 a view

---
 radix/cvter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index c2c8da4..7b9d09e 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -355,8 +355,12 @@ func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[stri
 		// ret[node.pathS] = node.data
 
 		ret = make(map[string]any)
+		prefix := s.Prefix()
+		if prefix != "" {
+			prefix += string(s.delimiter)
+		}
 		s.root.Walk(func(path, fragment string, node Node[T]) {
-			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() {
+			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() && strings.HasPrefix(path, prefix) {
 				ret[path] = node.Data()
 			}
 		})
-- 
2.43.0


From 51bf09c71799bdd7d87a7a7e458ba01b11a97712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:24 +0000
Subject: [PATCH 29/56] fix: the delete notification of a section must not
 report the value of another key

---
 store.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/store.go b/store.go
index 786ad4d..d4f9326 100644
--- a/store.go
+++ b/store.go
@@ -411,21 +411,15 @@ retryPD:
 }
 
 func (s *storeS) Remove(path string) (removed bool) {
-	var rmn, np radix.Node[any]
-	rmn, np, removed = s.Trie.RemoveEx(path)
-	if removed {
-		loading := s.inLoading()
-		data := rmn.Data()
-		s.tryOnDelete(path, loading, data, rmn, np)
-	}
+	_, _, removed = s.RemoveEx(path)
 	return
 }
 
 func (s *storeS) RemoveEx(path string) (nodeRemoved, nodeParent radix.Node[any], removed bool) {
+	data, _, _, _ := s.Trie.Query(path, nil) // a section has no data, even if it is held by a leaf node
 	nodeRemoved, nodeParent, removed = s.Trie.RemoveEx(path)
 	if removed {
 		loading := s.inLoading()
-		data := nodeRemoved.Data()
 		s.tryOnDelete(path, loading, data, nodeRemoved, nodeParent)
 	}
 	return
-- 
2.43.0


From 2c95bbb165f12466f22d502f083e8035cd2a6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:48 +0000
Subject: [PATCH 30/56] fix: the recursive-up mode must not change the parents
 of a path

In BR mode, Remove, SetComment, SetTag and SetTTL of an absent path changed
the key found in one of its parents. And a section in a parent was found or
not depending on the shape of the radix-tree.
---
 radix/trie.go | 63 ++++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 6cb99cb..af2bfe6 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -215,7 +215,7 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, exact, section := s.lookup(path, nil)
+	node, _, exact, section := s.lookupAt(path, nil)
 	state = -1
 	if exact || section {
 		state = 0
@@ -458,7 +458,7 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, exact, _ := s.lookup(path, nil)
+	node, _, exact, _ := s.lookupAt(path, nil)
 	if ok = exact; ok {
 		node.description, node.comment = description, comment
 	}
@@ -472,7 +472,7 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, exact, _ := s.lookup(path, nil)
+	node, _, exact, _ := s.lookupAt(path, nil)
 	if ok = exact; ok {
 		node.tag = tag
 	}
@@ -575,7 +575,7 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, parent, exact, section := s.lookup(path, nil)
+	node, parent, exact, section := s.lookupAt(path, nil)
 	if exact || section {
 		if parent != nil {
 			if section {
@@ -750,9 +750,25 @@ func (s *trieS[T]) Query(path string, kvpair KVPair) (data T, branch, found bool
 //
 // section means that there is no node for the path itself but all of
 // the keys below it (path + delimiter) are held by the returned node.
+//
+// In RecusiveUp mode, the parents of the path will be looked up if the
+// path doesn't exist.
 func (s *trieS[T]) lookup(path string, kvpair KVPair) (node, parent *nodeS[T], exact, section bool) { //nolint:revive
+	node, parent, exact, section = s.lookupAt(path, kvpair)
+	if s.recursiveMode == RecusiveUp {
+		for a := strings.Split(path, string(s.delimiter)); !exact && !section && len(a) > 2; {
+			a = append(a[:len(a)-2], a[len(a)-1])
+			node, parent, exact, section = s.lookupAt(strings.Join(a, string(s.delimiter)), kvpair)
+		}
+	}
+	return
+}
+
+// lookupAt is lookup for exactly the path, in any RecursiveMode. The
+// operations which change the tree must not touch a parent of the path.
+func (s *trieS[T]) lookupAt(path string, kvpair KVPair) (node, parent *nodeS[T], exact, section bool) { //nolint:revive
 	var partialMatched bool
-	node, parent, partialMatched = s.search(path, kvpair)
+	node, parent, partialMatched = s.searchAt(path, kvpair)
 	if node == nil {
 		return
 	}
@@ -787,38 +803,23 @@ func (s *trieS[T]) isSplitPoint(node *nodeS[T]) bool {
 //
 // Since v1.4.29, matchR supports look last key according to RecursiveMode.
 func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T], partialMatched bool) { //nolint:revive
-	found = s.root
+	if s.recursiveMode == RecusiveUp {
+		if node, prnt, exact, section := s.lookup(word, kvpair); exact || section {
+			return node, prnt, section
+		}
+	}
+	return s.searchAt(word, kvpair)
+}
+
+// searchAt searches node by dotted path key, the parents of the path will not be looked up.
+func (s *trieS[T]) searchAt(word string, kvpair KVPair) (found, parent *nodeS[T], partialMatched bool) { //nolint:revive
 	mctx := getMatchCtx(word, s.delimiter)
 	defer putBack(mctx)
 
 	// stringtoslicerune needs two pass full-scanning for a string, but it have to be to do.
-	matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair)
-	if s.recursiveMode != RecusiveUp && (matched || pm) {
+	if matched, pm, child, prnt := s.root.search(mctx, []rune(word), false, nil, kvpair); matched || pm {
 		return child, prnt, pm
 	}
-
-	if s.recursiveMode == RecusiveUp {
-		if matched && !pm && !s.isSplitPoint(child) || pm && strings.HasPrefix(child.pathS, word+string(s.delimiter)) {
-			return child, prnt, pm
-		}
-		w := word
-	retry:
-		a := strings.Split(w, string(s.delimiter))
-		if len(a) > 2 {
-			a = append(a[:len(a)-2], a[len(a)-1])
-			w = strings.Join(a, string(s.delimiter))
-			mctx.fullPath = w
-			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched && !pm && !s.isSplitPoint(child) {
-				return child, prnt, pm
-			}
-			goto retry
-		}
-		if matched || pm {
-			return child, prnt, pm
-		}
-	}
-
-	found = nil
 	return
 }
 
-- 
2.43.0


From 20c20cf8a34740050ded0faa81a614b4fdb2d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:53 +0000
Subject: [PATCH 31/56] fix: Remove, SetComment, SetTag and SetTTL must not
 touch an ident pattern

Removing '/a/b' dropped the route '/a/:x' because the pattern matches the path.
---
 radix/node.go |  2 +-
 radix/trie.go | 25 ++++++++++++++-----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 3f35f26..5a069bc 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -405,7 +405,7 @@ masterLoop:
 				var id, val string
 				var srcEnd, dstEnd bool
 			retriever:
-				if lastRuneIsDelimiter {
+				if lastRuneIsDelimiter && !mctx.literal {
 					// matching "/*filepath"
 					if ch == '*' {
 						piece := make([]rune, maxL)
diff --git a/radix/trie.go b/radix/trie.go
index af2bfe6..2de1cef 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -215,7 +215,7 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, exact, section := s.lookupAt(path, nil)
+	node, _, exact, section := s.lookupAt(path, nil, true)
 	state = -1
 	if exact || section {
 		state = 0
@@ -458,7 +458,7 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, exact, _ := s.lookupAt(path, nil)
+	node, _, exact, _ := s.lookupAt(path, nil, true)
 	if ok = exact; ok {
 		node.description, node.comment = description, comment
 	}
@@ -472,7 +472,7 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, exact, _ := s.lookupAt(path, nil)
+	node, _, exact, _ := s.lookupAt(path, nil, true)
 	if ok = exact; ok {
 		node.tag = tag
 	}
@@ -575,7 +575,7 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, parent, exact, section := s.lookupAt(path, nil)
+	node, parent, exact, section := s.lookupAt(path, nil, true)
 	if exact || section {
 		if parent != nil {
 			if section {
@@ -754,21 +754,22 @@ func (s *trieS[T]) Query(path string, kvpair KVPair) (data T, branch, found bool
 // In RecusiveUp mode, the parents of the path will be looked up if the
 // path doesn't exist.
 func (s *trieS[T]) lookup(path string, kvpair KVPair) (node, parent *nodeS[T], exact, section bool) { //nolint:revive
-	node, parent, exact, section = s.lookupAt(path, kvpair)
+	node, parent, exact, section = s.lookupAt(path, kvpair, false)
 	if s.recursiveMode == RecusiveUp {
 		for a := strings.Split(path, string(s.delimiter)); !exact && !section && len(a) > 2; {
 			a = append(a[:len(a)-2], a[len(a)-1])
-			node, parent, exact, section = s.lookupAt(strings.Join(a, string(s.delimiter)), kvpair)
+			node, parent, exact, section = s.lookupAt(strings.Join(a, string(s.delimiter)), kvpair, false)
 		}
 	}
 	return
 }
 
 // lookupAt is lookup for exactly the path, in any RecursiveMode. The
-// operations which change the tree must not touch a parent of the path.
-func (s *trieS[T]) lookupAt(path string, kvpair KVPair) (node, parent *nodeS[T], exact, section bool) { //nolint:revive
+// operations which change the tree must not touch a parent of the path,
+// or an ident pattern which matches the path (by passing literal = true).
+func (s *trieS[T]) lookupAt(path string, kvpair KVPair, literal bool) (node, parent *nodeS[T], exact, section bool) { //nolint:revive
 	var partialMatched bool
-	node, parent, partialMatched = s.searchAt(path, kvpair)
+	node, parent, partialMatched = s.searchAt(path, kvpair, literal)
 	if node == nil {
 		return
 	}
@@ -808,12 +809,13 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 			return node, prnt, section
 		}
 	}
-	return s.searchAt(word, kvpair)
+	return s.searchAt(word, kvpair, false)
 }
 
 // searchAt searches node by dotted path key, the parents of the path will not be looked up.
-func (s *trieS[T]) searchAt(word string, kvpair KVPair) (found, parent *nodeS[T], partialMatched bool) { //nolint:revive
+func (s *trieS[T]) searchAt(word string, kvpair KVPair, literal bool) (found, parent *nodeS[T], partialMatched bool) { //nolint:revive
 	mctx := getMatchCtx(word, s.delimiter)
+	mctx.literal = literal
 	defer putBack(mctx)
 
 	// stringtoslicerune needs two pass full-scanning for a string, but it have to be to do.
@@ -837,6 +839,7 @@ var matchCtxPool = sync.Pool{New: func() any {
 type matchCtx struct {
 	fullPath  string
 	delimiter rune
+	literal   bool // ident patterns are plain text
 }
 
 type KVPair map[string]string
-- 
2.43.0


From fb79435654de96deecf0b1f220962ee8c0d84fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:32 +0000
Subject: [PATCH 32/56] fix: a split point must not hide an ident pattern

With '/s/lit', '/s/lion' and '/s/*rest', the path '/s/li' was not found.
---
 radix/node.go | 13 ++++++++++---
 radix/trie.go |  6 ++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 5a069bc..0fd6935 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -242,6 +242,13 @@ func (s *nodeS[T]) childStartsWith(ch rune) *nodeS[T] { //nolint:revive
 	return nil
 }
 
+// isSplitPoint tells if a node is just a split point in the radix-tree,
+// such as 'app.d' for the keys 'app.debug' and 'app.dump'. It is neither
+// a key nor a section.
+func (s *nodeS[T]) isSplitPoint(delimiter rune) bool {
+	return s.isBranch() && !s.endsWith(delimiter) && s.childStartsWith(delimiter) == nil
+}
+
 func (s *nodeS[T]) findCommonPrefixLength(word []rune) (length int) {
 	ml := min(len(word), len(s.path))
 	for length < ml && word[length] == s.path[length] {
@@ -501,11 +508,11 @@ masterLoop:
 					continue
 				}
 				m, pm, c, p := ch.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
-				if m {
+				if m && !c.isSplitPoint(mctx.delimiter) {
 					return m, pm, c, p
 				}
-				if pm && !partialMatched { // keep it, and try the rest children for a full matching
-					partialMatched, child, parent = pm, c, p
+				if (m || pm) && child == nil { // keep it, and try the rest children for a full matching
+					matched, partialMatched, child, parent = m, pm, c, p
 				}
 			}
 		}
diff --git a/radix/trie.go b/radix/trie.go
index 2de1cef..eb9a7b9 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -793,11 +793,9 @@ func (s *trieS[T]) lookupAt(path string, kvpair KVPair, literal bool) (node, par
 	return
 }
 
-// isSplitPoint tells if a node is just a split point in the radix-tree,
-// such as 'app.d' for the keys 'app.debug' and 'app.dump'. It is neither
-// a key nor a section.
+// isSplitPoint tells if a node, which is not the root, is just a split point.
 func (s *trieS[T]) isSplitPoint(node *nodeS[T]) bool {
-	return node != s.root && node.isBranch() && !node.endsWith(s.delimiter) && node.childStartsWith(s.delimiter) == nil
+	return node != s.root && node.isSplitPoint(s.delimiter)
 }
 
 // search node by dotted path key with RecursiveMode.
-- 
2.43.0


From 177f9bc5efd23a7286edc9ea462d50fd3ee2be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:58 +0000
Subject: [PATCH 33/56] fix: the idents of a mismatched pattern must not be
 reported

With '/:v/b' and '/a/:x/d', the path '/a/b' matches the former but x=b was
returned in kvpair too.
---
 radix/node.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 0fd6935..41099e4 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -2,6 +2,7 @@ package radix
 
 import (
 	"fmt"
+	"maps"
 	"strings"
 	"sync"
 	"time"
@@ -502,20 +503,27 @@ masterLoop:
 		// restPart := word[minL:]
 		restPart := word[dstMatchedL:]
 		matched, partialMatched, child, parent = false, false, nil, nil
+		var kept KVPair
 		for _, literal := range []bool{true, false} { // the literal keys are prior to the ident patterns
 			for _, ch := range base.children {
 				if (ch.path[0] == restPart[0]) != literal {
 					continue
 				}
-				m, pm, c, p := ch.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
+				var kvp KVPair // the idents of a mismatched child must be dropped
+				if kvpair != nil {
+					kvp = make(KVPair)
+				}
+				m, pm, c, p := ch.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvp)
 				if m && !c.isSplitPoint(mctx.delimiter) {
+					maps.Copy(kvpair, kvp)
 					return m, pm, c, p
 				}
 				if (m || pm) && child == nil { // keep it, and try the rest children for a full matching
-					matched, partialMatched, child, parent = m, pm, c, p
+					matched, partialMatched, child, parent, kept = m, pm, c, p, kvp
 				}
 			}
 		}
+		maps.Copy(kvpair, kept)
 	}
 	return
 }
-- 
2.43.0


From cda03340c29e94379d2f3f692a655515ee3daa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:10 +0000
Subject: [PATCH 34/56] fix: the gob codec must encode slices

A nested []any was rejected (type not registered for interface).
---
 codecs/gob/gob.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codecs/gob/gob.go b/codecs/gob/gob.go
index 52757ea..7aff3cd 100644
--- a/codecs/gob/gob.go
+++ b/codecs/gob/gob.go
@@ -14,6 +14,7 @@ import (
 // interfaces.
 func New() store.Codec {
 	gob.Register(map[string]any{})
+	gob.Register([]any{})
 	return &ldr{}
 }
 
-- 
2.43.0


From 329a0288f7486bf84326dea2cf6fb5ce5f7c7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:53 +0000
Subject: [PATCH 35/56] fix: the env and flags providers must list each key
 once

---
 providers/env/env.go     | 4 +++-
 providers/flags/flags.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 40f8627..c572a41 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -131,8 +131,10 @@ func (s *pvdr) prepare() (err error) {
 			if s.storePrefix != "" {
 				k = s.storePrefix + "." + k
 			}
+			if _, ok := s.m[k]; !ok {
+				s.keys = append(s.keys, k)
+			}
 			s.m[k] = store.ValPkg{Value: v}
-			s.keys = append(s.keys, k)
 		}
 	}
 	sort.Strings(s.keys)
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 167bd9c..94b5d36 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -121,13 +121,15 @@ func (s *pvdr) prepare() (err error) {
 			v = rv.Elem().Interface()
 		}
 
+		if _, ok := s.m[k]; !ok {
+			s.keys = append(s.keys, k)
+		}
 		s.m[k] = store.ValPkg{
 			Value:   v,
 			Desc:    f.Usage,
 			Comment: "",
 			Tag:     f.DefValue,
 		}
-		s.keys = append(s.keys, k)
 	})
 	sort.Strings(s.keys)
 	s.pos = 0
-- 
2.43.0


From ef84b7b2e1eabc1bf0ffadca2b5dec9d5397edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:53 +0000
Subject: [PATCH 36/56] fix: the prefix of the flags provider must not be
 upper-cased

---
 providers/flags/flags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 94b5d36..188bef7 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -48,7 +48,7 @@ func WithCodec(codec store.Codec) Opt {
 // The filtered names will be stripped by strippedPrefix.
 func WithPrefix(prefix string, strippedPrefix ...string) Opt {
 	return func(s *pvdr) {
-		s.prefix = strings.ToUpper(prefix)
+		s.prefix = prefix
 		for _, ss := range strippedPrefix {
 			s.stripped = ss
 		}
-- 
2.43.0


From 6aaebe1903d4104e32f6e5fe71e5f1dab52a9219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:33 +0000
Subject: [PATCH 37/56] fix: a map with dotted and nested keys must not lose
 entries

Deflate dropped or misplaced the entries of a map like {"a": 1, "a.b": 2},
depending on the order of the map.
---
 internal/cvt/cvt.go | 81 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 61 insertions(+), 20 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 5c9778a..e698904 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -2,6 +2,7 @@ package cvt
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hedzr/evendeep"
@@ -67,32 +68,72 @@ func normalize(m map[string]any, key string, val any, worker func(k string, v an
 }
 
 // Deflate split dotted key as a sub-map, which dot char can be another delimiter.
+//
+// A key which is a value and a section at once ("a" and "a.b")
+// keeps its dotted form.
 func Deflate(m map[string]any, delimiter string) (data map[string]any) {
 	data = make(map[string]any)
 
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys) // the sections at first, so that the result doesn't depend on the order of a map
+
 	// Iterate through the flat conf map.
-	for k, v := range m {
-		var (
-			keys = strings.Split(k, delimiter)
-			next = data
-		)
+	for _, k := range keys {
+		deflateTo(data, k, m[k], delimiter)
+	}
+	return
+}
 
-		// Iterate through key parts, for eg:, parent.child.key
-		// will be ["parent", "child", "key"]
-		for _, kk := range keys[:len(keys)-1] {
-			sub, ok := next[kk]
-			if !ok {
-				// If the key does not exist in the map, create it.
-				sub = make(map[string]any)
-				next[kk] = sub
-			}
-			if n, ok1 := sub.(map[string]any); ok1 {
-				next = n
-			}
+func deflateTo(data map[string]any, key string, val any, delimiter string) {
+	var (
+		parts = strings.Split(key, delimiter)
+		last  = len(parts) - 1
+	)
+
+	// Iterate through key parts, for eg:, parent.child.key
+	// will be ["parent", "child", "key"]
+	for i, kk := range parts[:last] {
+		sub, ok := data[kk]
+		if !ok {
+			// If the key does not exist in the map, create it.
+			sub = make(map[string]any)
+			data[kk] = sub
 		}
+		n, ok := sub.(map[string]any)
+		if !ok {
+			// A value is here already.
+			mergeTo(data, strings.Join(parts[i:], delimiter), val, delimiter)
+			return
+		}
+		data = n
+	}
 
-		// Assign the value.
-		next[keys[len(keys)-1]] = v
+	// Assign the value.
+	mergeTo(data, parts[last], val, delimiter)
+}
+
+func mergeTo(data map[string]any, key string, val any, delimiter string) {
+	old, exists := data[key]
+	oldSub, oldIsMap := old.(map[string]any)
+	sub, isMap := val.(map[string]any)
+	switch {
+	case !exists, !oldIsMap && !isMap:
+		data[key] = val
+	case oldIsMap && isMap:
+		for k, v := range sub {
+			mergeTo(oldSub, k, v, delimiter)
+		}
+	case oldIsMap:
+		data[key] = val
+		for k, v := range oldSub {
+			mergeTo(data, key+delimiter+k, v, delimiter)
+		}
+	default:
+		for k, v := range sub {
+			mergeTo(data, key+delimiter+k, v, delimiter)
+		}
 	}
-	return
 }
-- 
2.43.0


From 5a354769762778b198f5e72a77ba4d3f836771ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:42 +0000
Subject: [PATCH 38/56] fix: GetM of a key must handle multi-byte delimiters

---
 radix/cvter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 7b9d09e..e908579 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -472,7 +472,8 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 				if putter.keepPrefix {
 					putter.put(ret, path, string(s.delimiter), node.Data())
 				} else if path == section {
-					ret[path[strings.LastIndex(path, string(s.delimiter))+1:]] = node.Data()
+					keys := strings.Split(path, string(s.delimiter))
+					ret[keys[len(keys)-1]] = node.Data()
 				} else {
 					putter.putKeys(ret, strings.Split(path[len(section)+len(string(s.delimiter)):], string(s.delimiter)), node.Data())
 				}
-- 
2.43.0


From 8244725c38a5d5a5782926e1592d5360fec2d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:15 +0000
Subject: [PATCH 39/56] fix: a negative fraction must not be read as a huge
 size

---
 radix/cvter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index e908579..f01a120 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -1572,7 +1572,7 @@ func (s *trieS[T]) FromKibiBytes(sz string) (ir64 uint64) {
 	var if64 float64
 	var err error
 	if strings.ContainsRune(szr, '.') {
-		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
+		if if64, err = strconv.ParseFloat(szr, 64); err == nil && if64 > 0 {
 			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKibiBytes(r)))
 		}
@@ -1658,7 +1658,7 @@ func (s *trieS[T]) FromKiloBytes(sz string) (ir64 uint64) {
 	var if64 float64
 	var err error
 	if strings.ContainsRune(szr, '.') {
-		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
+		if if64, err = strconv.ParseFloat(szr, 64); err == nil && if64 > 0 {
 			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKilobytes(r)))
 		}
-- 
2.43.0


From e443fb148ddef9350c4176d32b524ed771e23d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:10 +0000
Subject: [PATCH 40/56] fix: reading the tag of a node must not race with an
 expiring ttl

---
 radix/node.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 41099e4..8b3fc90 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -42,7 +42,6 @@ func (s *nodeS[T]) isEmpty() bool       { return s.nType&NTData == 0 }        //
 func (s *nodeS[T]) Modified() bool      { return s.nType&NTModified != 0 }    // modification state
 func (s *nodeS[T]) Description() string { return s.description }              // description field
 func (s *nodeS[T]) Comment() string     { return s.comment }                  // comment field
-func (s *nodeS[T]) Tag() any            { return s.tag }                      // tag field
 func (s *nodeS[T]) Key() string         { return s.pathS }                    // key field is the full path of this node
 func (s *nodeS[T]) KeyPiece() string    { return string(s.path) }             // key piece field for this node
 func (s *nodeS[T]) IsLeaf() bool        { return s.nType&NTMask == NTLeaf }   // leaf node?
@@ -107,6 +106,14 @@ func (s *nodeS[T]) Data() (data T) {
 	return
 }
 
+// Tag returns the Tag field of a node.
+func (s *nodeS[T]) Tag() (tag any) {
+	s.readLockFor(func(s *nodeS[T]) { // a ttl may be clearing it
+		tag = s.tag
+	})
+	return
+}
+
 // SetData sets the Data field of a node.
 func (s *nodeS[T]) SetData(data T) {
 	// if !s.isBranch() {
@@ -623,7 +630,6 @@ func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 		pathS:       s.pathS,
 		description: s.description,
 		comment:     s.comment,
-		tag:         s.tag,
 		nType:       s.nType,
 	}
 
@@ -632,7 +638,11 @@ func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 		newNode.children = append(newNode.children, ch.Dup())
 	}
 
-	newNode.data = cloneData(s.Data())
+	var data T
+	s.readLockFor(func(s *nodeS[T]) { // a ttl may be clearing both of them
+		data, newNode.tag = s.data, s.tag
+	})
+	newNode.data = cloneData(data)
 	return
 }
 
-- 
2.43.0


From cc7d554fd7070d8d89bbdf9a2179df4813bd82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:13 +0000
Subject: [PATCH 41/56] fix: the yaml codec loads a file into its result

---
 codecs/yaml/yaml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/yaml/yaml.go b/codecs/yaml/yaml.go
index 9d26376..89fb0fe 100644
--- a/codecs/yaml/yaml.go
+++ b/codecs/yaml/yaml.go
@@ -34,7 +34,7 @@ func (l *ldr) Load(file string) (data map[string]any, err error) {
 		return
 	}
 	dec := yamlv3.NewDecoder(f)
-	if err = dec.Decode(data); err != nil {
+	if err = dec.Decode(&data); err != nil {
 		return
 	}
 	return
-- 
2.43.0


From 5509f35ac2b37003f03ce5bd85a27d7ec622c9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:13 +0000
Subject: [PATCH 42/56] fix: the etcd provider reads without a dial timeout

---
 providers/etcd/etcd.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index bf1e380..356941d 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -167,8 +167,12 @@ func (s *pvdr) NormalizeKey(key string) string {
 }
 
 func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
-	ctx, cancel := context.WithTimeout(context.Background(), s.config.DialTimeout)
-	defer cancel()
+	ctx := context.Background()
+	if s.config.DialTimeout > 0 { // zero means no timeout, as in clientv3.Config
+		var cancel context.CancelFunc
+		ctx, cancel = context.WithTimeout(ctx, s.config.DialTimeout)
+		defer cancel()
+	}
 
 	var resp *clientv3.GetResponse
 	if s.prefixOrKey {
-- 
2.43.0


From b1b1f76bfda83e85f2a191218fc4b2d2955a56ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:13 +0000
Subject: [PATCH 43/56] fix: the watching of etcd ends with its channel and
 reports its errors

---
 providers/etcd/etcd.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index 356941d..1b279ea 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -248,7 +248,13 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) error {
 			select {
 			case <-ctx.Done():
 				return
-			case wresp := <-w:
+			case wresp, ok := <-w:
+				if !ok {
+					return
+				}
+				if err := wresp.Err(); err != nil {
+					cb(nil, err)
+				}
 				for _, ev := range wresp.Events {
 					lastChange.Set(ev)
 					cb(&lastChange, nil)
-- 
2.43.0


From ff0b6f387209607eaef547b79be6bc7308b8e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:17 +0000
Subject: [PATCH 44/56] fix: etcd changes between reading and watching are not
 missed

---
 providers/etcd/etcd.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index 1b279ea..70ca2da 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -34,6 +34,7 @@ type pvdr struct {
 	limit                      bool
 	maxLimit                   int64
 	processMeta                bool
+	revision                   int64 // of the last Read
 }
 
 func WithCodec(codec store.Codec) Opt {
@@ -194,6 +195,7 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 		}
 	}
 
+	s.revision = resp.Header.GetRevision()
 	data = make(map[string]store.ValPkg, len(resp.Kvs))
 	for _, r := range resp.Kvs {
 		data[s.NormalizeKey(string(r.Key))] = store.ValPkg{
@@ -237,12 +239,16 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) error {
 	var w clientv3.WatchChan
 	var lastChange = changeS{provider: s}
 
+	var opts []clientv3.OpOption
+	if s.revision > 0 { // don't miss the changes since the last Read
+		opts = append(opts, clientv3.WithRev(s.revision+1))
+	}
+	if s.prefixOrKey {
+		opts = append(opts, clientv3.WithPrefix())
+	}
+
 	go func() {
-		if s.prefixOrKey {
-			w = s.Client.Watch(context.Background(), s.storePrefix, clientv3.WithPrefix())
-		} else {
-			w = s.Client.Watch(context.Background(), s.storePrefix)
-		}
+		w = s.Client.Watch(ctx, s.storePrefix, opts...)
 
 		for {
 			select {
-- 
2.43.0


From fe0942195ab0e5b653e360b874afe546445c44a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:45 +0000
Subject: [PATCH 45/56] fix: reading an absent consul key must not panic

---
 providers/consul/consul.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 05f43c5..570de1d 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -205,7 +205,7 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 	}
 
 	pair, _, err = kv.Get(s.position, nil)
-	if err != nil {
+	if err != nil || pair == nil { // pair is nil if the key is absent
 		return
 	}
 
-- 
2.43.0


From 1ce2ac396f221dc989a109cce0eeb4a4db6db8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:45 +0000
Subject: [PATCH 46/56] fix: a consul change delivers strings, as reading does

---
 providers/consul/change.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/consul/change.go b/providers/consul/change.go
index 9b2e5c0..7a58507 100644
--- a/providers/consul/change.go
+++ b/providers/consul/change.go
@@ -37,7 +37,7 @@ func (s *changeS) Next() (key string, val any, ok bool) {
 			if s.idx < len(pairs) {
 				kvp := pairs[s.idx]
 				if s.lastOp == store.OpRemove || s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), kvp.Value, true
+					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), string(kvp.Value), true
 				} else {
 					s.idx++
 					goto RetryNextPair
@@ -49,7 +49,7 @@ func (s *changeS) Next() (key string, val any, ok bool) {
 		if kvp, yes := s.val.(*api.KVPair); yes {
 			if s.idx == 0 {
 				if s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), kvp.Value, true
+					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), string(kvp.Value), true
 				}
 				s.idx++
 			}
-- 
2.43.0


From 5ce25fce832a575557b0e25ca8ee6cc7b81502f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:46 +0000
Subject: [PATCH 47/56] fix: watching consul must not miss changes and removals

---
 providers/consul/change.go | 116 ++++++++++++-------------------------
 providers/consul/consul.go |  23 +++++++-
 2 files changed, 56 insertions(+), 83 deletions(-)

diff --git a/providers/consul/change.go b/providers/consul/change.go
index 7a58507..ade1db2 100644
--- a/providers/consul/change.go
+++ b/providers/consul/change.go
@@ -1,6 +1,7 @@
 package consul
 
 import (
+	"bytes"
 	"time"
 
 	"github.com/hashicorp/consul/api"
@@ -10,12 +11,10 @@ import (
 )
 
 type changeS struct {
-	val   any
+	pairs api.KVPairs // the pairs which are created, modified or removed
 	idx   int
-	index uint64 // consul action index
 
 	lastOp        store.Op
-	lastEvent     string
 	lastEventTime time.Time
 
 	plan     *watch.Plan
@@ -25,100 +24,57 @@ type changeS struct {
 // func (s *changeS) Key() string              { return string(s.ev.Kv.Key) }
 // func (s *changeS) Val() any                 { return s.val }
 
-func (s *changeS) Path() string             { return s.val.(string) }
+func (s *changeS) Path() string             { return "" }
 func (s *changeS) Op() store.Op             { return s.lastOp }
 func (s *changeS) Has(op store.Op) bool     { return uint64(s.lastOp)&uint64(op) != 0 }
 func (s *changeS) Timestamp() time.Time     { return s.lastEventTime }
 func (s *changeS) Provider() store.Provider { return s.provider }
 func (s *changeS) Next() (key string, val any, ok bool) {
-	if s.provider.(*pvdr).recursive {
-		if pairs, yes := s.val.(api.KVPairs); yes {
-		RetryNextPair:
-			if s.idx < len(pairs) {
-				kvp := pairs[s.idx]
-				if s.lastOp == store.OpRemove || s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), string(kvp.Value), true
-				} else {
-					s.idx++
-					goto RetryNextPair
-				}
-				s.idx++
-			}
-		}
-	} else {
-		if kvp, yes := s.val.(*api.KVPair); yes {
-			if s.idx == 0 {
-				if s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), string(kvp.Value), true
-				}
-				s.idx++
-			}
-		}
+	if s.idx < len(s.pairs) {
+		kvp := s.pairs[s.idx]
+		key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), string(kvp.Value), true
+		s.idx++
 	}
 	return
 }
 
-func (s *changeS) Set(val any, idx uint64) (df func()) {
+func (s *changeS) set(op store.Op, pairs api.KVPairs) {
 	s.lastEventTime = time.Now()
-	s.index, s.idx = idx, 0
-	df = s.findOpIndex(idx, val)
-	if df == nil {
-		df = func() {}
-	}
-	return
+	s.lastOp, s.pairs, s.idx = op, pairs, 0
 }
 
-func (s *changeS) findOpIndex(idx uint64, val any) (df func()) {
-	if s.provider.(*pvdr).recursive {
-		if pairs, ok := val.(api.KVPairs); ok {
-			for ix := 0; ix < len(pairs); ix++ {
-				kvp := pairs[ix]
-				if s.checkOpIndex(kvp) {
-					s.val = val
-					return
-				}
-			}
-
-			s.lastOp = store.OpRemove
-			df = func() { s.val = val }
-			var removed api.KVPairs
-			if s.val != nil {
-				for _, p := range s.val.(api.KVPairs) {
-					var found bool
-					for _, q := range pairs {
-						if p.Key == q.Key {
-							found = true
-							break
-						}
-					}
-					if !found {
-						removed = append(removed, p)
-					}
-				}
-			}
-			s.val = removed
+// diffPairs finds the changes from old to the current pairs. A watching
+// plan may skip states, so an answer can hold several changes.
+func diffPairs(old, pairs api.KVPairs) (created, modified, removed api.KVPairs) {
+	m := make(map[string]*api.KVPair, len(old))
+	for _, p := range old {
+		m[p.Key] = p
+	}
+	for _, p := range pairs {
+		if q, ok := m[p.Key]; !ok {
+			created = append(created, p)
+		} else if p.ModifyIndex != q.ModifyIndex || !bytes.Equal(p.Value, q.Value) {
+			modified = append(modified, p)
 		}
-	} else {
-		if kvp, ok := val.(*api.KVPair); ok {
-			if !s.checkOpIndex(kvp) {
-				s.lastOp = store.OpRemove
-				df = func() { s.val = val }
-				return
-			}
-			s.val = val
-			return
+		delete(m, p.Key)
+	}
+	for _, p := range old {
+		if _, ok := m[p.Key]; ok {
+			removed = append(removed, p)
 		}
 	}
 	return
 }
 
-func (s *changeS) checkOpIndex(pair *api.KVPair) bool {
-	if pair.CreateIndex == s.index {
-		s.lastOp = store.OpCreate
-		return true
-	} else if pair.ModifyIndex == s.index {
-		s.lastOp = store.OpWrite
-		return true
+// toPairs converts the answer of a 'keyprefix' or 'key' plan.
+func toPairs(val any) (pairs api.KVPairs) {
+	switch v := val.(type) {
+	case api.KVPairs:
+		pairs = v
+	case *api.KVPair:
+		if v != nil {
+			pairs = api.KVPairs{v}
+		}
 	}
-	return false
+	return
 }
diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 570de1d..5139ba2 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -38,6 +38,7 @@ type pvdr struct {
 	delimiter                  string // replace consul slash '/' with delimiter
 
 	plan *watch.Plan
+	last api.KVPairs // the pairs of the last Read
 
 	// onUpdated OnUpdated
 }
@@ -161,6 +162,7 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 		if err != nil {
 			return
 		}
+		s.last = pairs
 
 		// Detailed information can be obtained via hedzr/store.GetString(key), which key are:
 		//
@@ -205,7 +207,11 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 	}
 
 	pair, _, err = kv.Get(s.position, nil)
-	if err != nil || pair == nil { // pair is nil if the key is absent
+	if err != nil {
+		return
+	}
+	s.last = toPairs(pair)
+	if pair == nil { // the key is absent
 		return
 	}
 
@@ -297,9 +303,20 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 	}
 
 	s.plan = lastChange.plan
+	last := s.last
 	s.plan.Handler = func(idx uint64, val any) {
-		defer lastChange.Set(val, idx)()
-		cb(&lastChange, nil)
+		pairs := toPairs(val)
+		created, modified, removed := diffPairs(last, pairs)
+		last = pairs
+		for _, change := range []struct {
+			op    store.Op
+			pairs api.KVPairs
+		}{{store.OpRemove, removed}, {store.OpCreate, created}, {store.OpWrite, modified}} {
+			if len(change.pairs) > 0 {
+				lastChange.set(change.op, change.pairs)
+				cb(&lastChange, nil)
+			}
+		}
 	}
 	// s.plan.HybridHandler = func(bpv watch.BlockingParamVal, val interface{}) {
 	// 	lastChange.Set(val)
-- 
2.43.0


From 13e63e1f6e3c0ec14e407e10af7181a4db603a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:22 +0000
Subject: [PATCH 48/56] fix: WithStoreFlattenSlice must not outlast its load

---
 load.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/load.go b/load.go
index 1844c42..ebe40af 100644
--- a/load.go
+++ b/load.go
@@ -473,6 +473,7 @@ func WithPosition(position string) LoadOpt {
 // instead of treating it as a node value.
 func WithStoreFlattenSlice(b bool) LoadOpt {
 	return func(s *Loader) {
+		s.storeS = s.storeS.WithPrefixReplaced(s.Prefix()).(*storeS) // for this loading only, not for the store
 		s.flattenSlice = b
 	}
 }
-- 
2.43.0


From ff64f91bc7e5a63f6dfdeb44434c6f7395aee5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:42 +0000
Subject: [PATCH 49/56] fix: importing a map must not change the source

The lists of a map, and what is in them, were shared with the source and
got normalized in place.
---
 internal/cvt/cvt.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index e698904..0c34702 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -12,9 +12,38 @@ import (
 func Copy(m map[string]any) (data map[string]any) {
 	data = make(map[string]any)
 	evendeep.Copy(&m, &data)
+	for k, v := range data {
+		data[k] = copyValue(v)
+	}
 	return
 }
 
+// copyValue copies the maps and the lists, which might be shared with
+// the source still.
+func copyValue(val any) any {
+	switch z := val.(type) {
+	case map[string]any:
+		x := make(map[string]any, len(z))
+		for k, v := range z {
+			x[k] = copyValue(v)
+		}
+		return x
+	case map[any]any:
+		x := make(map[any]any, len(z))
+		for k, v := range z {
+			x[k] = copyValue(v)
+		}
+		return x
+	case []any:
+		x := make([]any, len(z))
+		for i, v := range z {
+			x[i] = copyValue(v)
+		}
+		return x
+	}
+	return val
+}
+
 // Normalize make a map formal with nested map[string]any objects.
 func Normalize(m map[string]any, worker func(k string, v any)) map[string]any {
 	for k, v := range m {
-- 
2.43.0


From 88c3dc8797e273109754cfc96fee7929315659a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:17 +0000
Subject: [PATCH 50/56] fix: the JSON of a trie must be a JSON value

---
 radix/trie.go | 16 ++++++----------
 store.go      |  2 +-
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index eb9a7b9..af08bd1 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -3,8 +3,8 @@ package radix
 import (
 	"bytes"
 	"context"
+	"encoding/json"
 	"fmt"
-	"strconv"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -270,15 +270,11 @@ func (s *trieS[T]) String() string {
 }
 
 func (s *trieS[T]) MarshalJSON() ([]byte, error) {
-	var sb strings.Builder
-	_, _ = sb.WriteString("\"trie\":{\"prefix\":")
-	_, _ = sb.WriteString(strconv.Quote(s.prefix))
-	_, _ = sb.WriteString(",\"delimiter\":\"")
-	_, _ = sb.WriteRune(s.delimiter)
-	_, _ = sb.WriteString("\", \"recursive-mode\":\"")
-	_, _ = sb.WriteString(s.recursiveMode.String())
-	_, _ = sb.WriteString("\"}")
-	return []byte(sb.String()), nil
+	return json.Marshal(struct {
+		Prefix        string `json:"prefix"`
+		Delimiter     string `json:"delimiter"`
+		RecursiveMode string `json:"recursive-mode"`
+	}{s.prefix, string(s.delimiter), s.recursiveMode.String()})
 }
 
 //
diff --git a/store.go b/store.go
index d4f9326..a19df55 100644
--- a/store.go
+++ b/store.go
@@ -122,7 +122,7 @@ func (s *storeS) String() string {
 
 func (s *storeS) MarshalJSON() ([]byte, error) {
 	var sb strings.Builder
-	_, _ = sb.WriteString("{")
+	_, _ = sb.WriteString("{\"trie\":")
 	if b, err := s.Trie.MarshalJSON(); err != nil {
 		return nil, err
 	} else {
-- 
2.43.0


From 2319b8ec7a89dac3b000e4abe2dbb2e8534d43d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:27 +0000
Subject: [PATCH 51/56] fix: the text of an operation must be read back

---
 op.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op.go b/op.go
index 7244e83..c2b1f58 100644
--- a/op.go
+++ b/op.go
@@ -33,7 +33,7 @@ var opStringsRev = map[string]Op{
 
 func (s *Op) UnmarshalText(text []byte) error {
 	// panic("implement me")
-	op, ok := opStringsRev[string(text)]
+	op, ok := opStringsRev[strings.ToLower(string(text))]
 	if ok {
 		*s = op
 		return nil
@@ -46,7 +46,7 @@ func (s *Op) MarshalText() (text []byte, err error) {
 	if ok {
 		return []byte(strings.ToUpper(sz)), nil
 	}
-	return []byte(fmt.Sprintf("Op(%d)", s)), nil
+	return []byte(fmt.Sprintf("Op(%d)", *s)), nil
 }
 
 func (s *Op) Marshal() []byte {
-- 
2.43.0


From 77722cb0731733b4da9e109cf14a32e75763f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:51 +0000
Subject: [PATCH 52/56] fix: the text of a long negative duration must not
 overflow its buffer

---
 internal/times/dur.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/times/dur.go b/internal/times/dur.go
index bece5dc..9c92770 100644
--- a/internal/times/dur.go
+++ b/internal/times/dur.go
@@ -23,15 +23,15 @@ func SmartDurationString(d time.Duration) string { return SmartDurationStringEx(
 func SmartDurationStringEx(d time.Duration, frac bool) string { return shortDur(d, frac) }
 
 func shortDur(d time.Duration, frac bool) string {
-	var arr [32]byte
+	var arr [40]byte
 	n := shortDurFormat(&arr, d, frac)
 	return string(arr[n:])
 }
 
-func shortDurFormat(buf *[32]byte, d time.Duration, useFrac bool) int { //nolint:revive
+func shortDurFormat(buf *[40]byte, d time.Duration, useFrac bool) int { //nolint:revive
 	// Largest time is:
 	// 2540400h10m10.000000000s
-	// 2540400h10m10s999ms999us999na
+	// -106751d23h47m16s854ms775µs808ns
 	w := len(buf)
 
 	u := uint64(d)
-- 
2.43.0


From c6c916c582bd38f2f17bbd9bd9e9e62f113d6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:19 +0000
Subject: [PATCH 53/56] fix: extracting a section must not write into the maps
 the store holds

---
 radix/cvter.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index f01a120..815252d 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -473,7 +473,7 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 					putter.put(ret, path, string(s.delimiter), node.Data())
 				} else if path == section {
 					keys := strings.Split(path, string(s.delimiter))
-					ret[keys[len(keys)-1]] = node.Data()
+					ret[keys[len(keys)-1]] = detach(node.Data())
 				} else {
 					putter.putKeys(ret, strings.Split(path[len(section)+len(string(s.delimiter)):], string(s.delimiter)), node.Data())
 				}
@@ -516,24 +516,38 @@ func (s *trieS[T]) splitCompactKeys(in map[string]any) (out map[string]any) {
 			a := strings.Split(k, string(s.delimiter))
 			s.submap(out, a, v)
 		} else {
-			out[k] = v
+			out[k] = detach(v)
 		}
 	}
 	return
 }
 
+// detach copies the map which a node holds as its value, so that
+// the extracted map can be extended without touching the node.
+func detach(v any) any {
+	m, ok := v.(map[string]any)
+	if !ok || m == nil {
+		return v
+	}
+	ret := make(map[string]any, len(m))
+	for k, c := range m {
+		ret[k] = detach(c)
+	}
+	return ret
+}
+
 func (s *trieS[T]) submap(src map[string]any, keys []string, v any) {
 	if len(keys) == 0 {
 		return
 	}
 	if len(keys) == 1 {
-		src[keys[0]] = v
+		src[keys[0]] = detach(v)
 		return
 	}
 
 	k, rest := keys[0], keys[1:]
 	if m1, ok := src[k]; ok {
-		if m2, ok := m1.(map[string]any); ok {
+		if m2, ok := m1.(map[string]any); ok && m2 != nil {
 			s.submap(m2, rest, v)
 		}
 	} else {
@@ -675,13 +689,13 @@ func (s *prefixPutter[T]) putKeys(m map[string]any, keys []string, v any) {
 		return
 	}
 	if len(keys) == 1 {
-		m[keys[0]] = v
+		m[keys[0]] = detach(v)
 		return
 	}
 
 	k, rest := keys[0], keys[1:]
 	if c, ok := m[k]; ok {
-		if cm, ok := c.(map[string]any); ok {
+		if cm, ok := c.(map[string]any); ok && cm != nil {
 			s.putKeys(cm, rest, v)
 			// } else {
 			// 	// ? panic
-- 
2.43.0


From 48844836098a4baa19bdae789c81be871cac35df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:05 +0000
Subject: [PATCH 54/56] fix: StartsWith and EndsWith must test the last
 fragment of a path, not a piece of the tree

---
 radix/cvter.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 815252d..0c1f4e0 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -325,19 +325,25 @@ var _ Trie[any] = (*trieS[any])(nil) // assertion helper
 var converter = evendeep.Cvt{}
 
 func (s *trieS[T]) StartsWith(path string, r rune) bool {
-	node, _, _, found := s.Locate(path, nil)
-	if !found {
-		return false
-	}
-	return node.StartsWith(r)
+	return s.Has(path) && strings.HasPrefix(s.lastFragment(path), string(r))
 }
 
 func (s *trieS[T]) EndsWith(path string, r rune) bool {
-	node, _, _, found := s.Locate(path, nil)
-	if !found {
-		return false
-	}
-	return node.EndsWith(r)
+	return s.Has(path) && strings.HasSuffix(s.lastFragment(path), string(r))
+}
+
+// lastFragment returns the part of a path behind its last delimiter,
+// a tail delimiter does not count.
+//
+// The key piece of a node isn't that: it depends on how the tree
+// was split by the other keys.
+func (s *trieS[T]) lastFragment(path string) string {
+	d := string(s.delimiter)
+	path = strings.TrimSuffix(path, d)
+	if i := strings.LastIndex(path, d); i >= 0 {
+		path = path[i+len(d):]
+	}
+	return path
 }
 
 func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[string]any, err error) {
-- 
2.43.0


From 0494c74ea6a5b5ffd8d74c43e47db031220ef179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 55/56] fix: changing a key must not race with the expiry of
 its ttl

---
 radix/node.go | 28 ++++++++++++++++++----------
 radix/trie.go |  8 +++++---
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 8b3fc90..d0039a6 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -74,16 +74,20 @@ func (s *nodeS[T]) lockFor(cb func(*nodeS[T])) { //nolint:revive
 // To clear the state, using ResetModified;
 // Or flip the state with ToggleModified.
 func (s *nodeS[T]) SetModified(b bool) { //nolint:revive
-	if b {
-		s.nType |= NTModified
-	} else {
-		s.nType &= ^NTModified
-	}
+	s.lockFor(func(s *nodeS[T]) {
+		if b {
+			s.nType |= NTModified
+		} else {
+			s.nType &= ^NTModified
+		}
+	})
 }
 
 // ToggleModified flips the modified state.
 func (s *nodeS[T]) ToggleModified() {
-	s.nType ^= NTModified
+	s.lockFor(func(s *nodeS[T]) {
+		s.nType ^= NTModified
+	})
 	// if s.Modified() {
 	// 	s.nType &= ^NTModified
 	// } else {
@@ -93,7 +97,7 @@ func (s *nodeS[T]) ToggleModified() {
 
 // ResetModified clears the modified state.
 func (s *nodeS[T]) ResetModified() {
-	s.nType &= ^NTModified
+	s.SetModified(false)
 }
 
 // Data returns the Data field of a node.
@@ -157,7 +161,9 @@ func (s *nodeS[T]) SetTag(tag any) { //nolint:revive
 	// if s.isBranch() {
 	// 	return
 	// }
-	s.tag = tag
+	s.lockFor(func(s *nodeS[T]) { // a ttl may be clearing it
+		s.tag = tag
+	})
 }
 
 func (s *nodeS[T]) StartsWith(ch rune) bool { //nolint:revive
@@ -308,8 +314,10 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 	} else {
 		// hit this node,
-		base.nType |= NTLeaf | NTData
-		node, oldData, base.data = base, base.data, data
+		base.lockFor(func(s *nodeS[T]) { // a ttl may be clearing it
+			s.nType |= NTLeaf | NTData
+			node, oldData, s.data = s, s.data, data
+		})
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
 		}
diff --git a/radix/trie.go b/radix/trie.go
index af08bd1..7886d51 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -156,9 +156,11 @@ func (s *TTL[T]) run() {
 					if job.action != nil {
 						job.action(s, job.node)
 					}
+					var branch bool
+					job.node.readLockFor(func(nd *nodeS[T]) { branch = nd.isBranch() })
 					if job.section != "" {
 						s.drop(job.section)
-					} else if job.node.isBranch() {
+					} else if branch {
 						s.drop(job.node.pathS)
 					} else {
 						job.node.SetEmpty()
@@ -412,7 +414,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
-	node.tag = tag
+	node.SetTag(tag)
 	switch len(descriptionAndComments) {
 	case 0:
 	case 1:
@@ -470,7 +472,7 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	}
 	node, _, exact, _ := s.lookupAt(path, nil, true)
 	if ok = exact; ok {
-		node.tag = tag
+		node.SetTag(tag)
 	}
 	return
 }
-- 
2.43.0


From 60d8d105a3665b0f3a299f0e7f651cdf85e8380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:07 +0000
Subject: [PATCH 56/56] fix: a new key is notified as a new one, in any
 recursive mode and beside patterns

---
 load.go  |  3 +--
 store.go | 21 ++++++++++-----------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/load.go b/load.go
index ebe40af..862f2ea 100644
--- a/load.go
+++ b/load.go
@@ -191,8 +191,7 @@ func (s *storeS) loadMap(m map[string]any, position string, creating bool, onSet
 func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet lmOnSet) {
 	set := ss.WithPrefixReplaced(position).(*storeS)
 	set.merging = true
-	_, branch, found, _ := set.Trie.Query(k, nil)
-	creating = !found || branch
+	creating = set.isNew(k)
 	set.setKV(k, v, creating, onSet)
 }
 
diff --git a/store.go b/store.go
index a19df55..079b893 100644
--- a/store.go
+++ b/store.go
@@ -255,21 +255,20 @@ func (s *storeS) Get(path string) (data any, found bool) {
 
 // Set sets key('path') and value pair into storeS.
 func (s *storeS) Set(path string, data any) (node radix.Node[any], oldData any) {
-	old, branch, found, err := s.Trie.Query(path, nil)
-	if !found {
-		if err != nil || !branch {
-			old = nil
-		}
-	}
-	if old != nil {
-		oldData = old
-	}
-
-	node, oldData = s.setKV(path, data, !found || branch, nil)
+	node, oldData = s.setKV(path, data, s.isNew(path), nil)
 	// s.tryOnSet(path, false, old, data)
 	return
 }
 
+// isNew tests if a path is not a key yet.
+//
+// Neither a parent of the path (see BR) nor an ident pattern which
+// matches the path counts, since they are not what will be set.
+func (s *storeS) isNew(path string) bool {
+	node, branch, _, found := s.Trie.N().Locate(path, nil)
+	return !found || branch || node.Key() != s.join(s.Prefix(), path)
+}
+
 // SetTTL sets a ttl timeout for a branch or a leaf node.
 //
 // At ttl arrived, the leaf node value will be cleared.
-- 
2.43.0

