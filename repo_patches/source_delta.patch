From 5547d152e673d05c6dbf79cc82f7020c9af1bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 01/21] fix: pair a tree's root only with the other tree's root

A root whose counterpart had become empty was left unmatched (and so deleted), and a
root could be matched with a similar inner node of the other tree. In both cases the edit
script no longer turned the old tree into the new one.
---
 cinereus/src/matching.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 120f033..87a8a81 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -341,6 +341,12 @@ where
     TA: DiffTree,
     TB: DiffTree<Types = TA::Types>,
 {
+    // A root has no place among siblings, so it can only stand for the other root:
+    // pairing it with an inner node would leave that node impossible to move or insert.
+    if tree_a.parent(a_id).is_none() != tree_b.parent(b_id).is_none() {
+        return false;
+    }
+
     // Check if A's parent is matched
     if let Some(a_parent) = tree_a.parent(a_id)
         && let Some(matched_b_parent) = matching.get_b(a_parent)
@@ -549,7 +555,6 @@ fn bottom_up_phase<TA, TB>(
                 .into_iter()
                 .filter(|&b_id| {
                     !matching.contains_b(b_id)
-                        && tree_b.child_count(b_id) > 0
                         && tree_b.parent(b_id).is_none() // Must also be a root
                         && a_props.similarity(tree_b.properties(b_id)) >= config.similarity_threshold
                 })
-- 
2.43.0


From b469985388363c95530ffd8f699fb4b589556f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 02/21] fix: compare the attributes of the old body

---
 hotmeal/src/diff.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 8dfbc55..d04146a 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -825,21 +825,26 @@ impl<'a> DiffTree for OpaqueAwareTree<'a> {
 /// If the document has no body, returns an empty body tree.
 pub fn build_tree_from_arena<'a>(doc: &Document<'a>) -> Tree<HtmlTreeTypes<'a>> {
     // Find body element, or create an empty body tree if none exists
-    let (body_tag, body_ns, body_id) = if let Some(body_id) = doc.body() {
+    let (body_tag, body_ns, body_attrs, body_id) = if let Some(body_id) = doc.body() {
         let body_node = doc.get(body_id);
         if let NodeKind::Element(elem) = &body_node.kind {
-            (elem.tag.clone(), body_node.ns, Some(body_id))
+            let attrs = elem
+                .attrs
+                .iter()
+                .map(|(k, v)| (k.clone(), v.clone()))
+                .collect();
+            (elem.tag.clone(), body_node.ns, attrs, Some(body_id))
         } else {
-            (LocalName::from("body"), Namespace::Html, None)
+            (LocalName::from("body"), Namespace::Html, Vec::new(), None)
         }
     } else {
-        (LocalName::from("body"), Namespace::Html, None)
+        (LocalName::from("body"), Namespace::Html, Vec::new(), None)
     };
 
     let root_data = NodeData {
         hash: NodeHash(0),
         kind: HtmlNodeKind::Element(body_tag, body_ns),
-        properties: HtmlProps { attrs: Vec::new() },
+        properties: HtmlProps { attrs: body_attrs },
         text: None,
     };
 
-- 
2.43.0


From e311338272c348e5a9fc877989af1ce2271e781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 03/21] fix: address opaque elements where the other patches
 leave them

---
 hotmeal/src/diff.rs | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index d04146a..1403668 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1163,26 +1163,7 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         ));
     }
 
-    let mut patches = convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
-
-    // Now emit OpaqueChanged patches with correct paths from the shadow tree
-    // We need to compute paths for the opaque nodes. Since convert_ops_with_shadow
-    // already consumed the shadow tree, we build a simpler path computation.
-    // Actually, let's integrate opaque patches into convert_ops_with_shadow instead.
-    // For now, compute paths using the same approach as the shadow tree.
-    if !opaque_patches.is_empty() {
-        // Build a fresh shadow just for path computation
-        let shadow = ShadowTree::new(tree_a.0.arena.clone(), tree_a.0.root);
-        for (a_id, content) in opaque_patches {
-            let path = shadow.compute_path(a_id);
-            patches.push(Patch::OpaqueChanged {
-                path: NodePath(path),
-                content,
-            });
-        }
-    }
-
-    Ok(patches)
+    convert_ops_with_shadow(edit_ops, opaque_patches, &tree_a.0, &diff_b, &matching)
 }
 
 /// Encapsulates the shadow tree with slot-based path computation.
@@ -1539,8 +1520,12 @@ impl<'a> ShadowTree<'a> {
 ///
 /// Key insight from Chawathe semantics: INSERT and MOVE do NOT shift siblings.
 /// They DISPLACE whatever is at the target position into a slot for later use.
+///
+/// `opaque_patches` holds the opaque nodes of tree_a with their new content; their
+/// paths are computed last, once every structural change has been applied.
 fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
     ops: Vec<EditOp<HtmlTreeTypes<'a>>>,
+    opaque_patches: Vec<(NodeId, Stem<'a>)>,
     tree_a: &Tree<HtmlTreeTypes<'a>>,
     tree_b: &T,
     matching: &Matching,
@@ -1854,6 +1839,15 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
         }
     }
 
+    // Opaque nodes may have moved, so their paths come from the final shadow tree.
+    for (node_a, content) in opaque_patches {
+        let path = shadow.compute_path(node_a);
+        result.push(Patch::OpaqueChanged {
+            path: NodePath(path),
+            content,
+        });
+    }
+
     Ok(result)
 }
 
-- 
2.43.0


From 8f2c370d96eb9d35084b1283a4b87dd977c27b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:11 +0000
Subject: [PATCH 04/21] fix: report opaque content whose attributes changed or
 that became opaque

---
 hotmeal/src/diff.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 1403668..efe5845 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1146,8 +1146,12 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         if !diff_b.is_opaque(b_id) {
             continue;
         }
-        // Compare hashes — if identical, no change
-        if tree_a.hash(a_id) == diff_b.hash(b_id) {
+        // Content that was opaque already and is identical needs no event. The hashes
+        // leave attributes out, so they cannot decide this on their own.
+        if tree_a.is_opaque(a_id)
+            && tree_a.hash(a_id) == diff_b.hash(b_id)
+            && same_content(&tree_a, a_id, &diff_b, b_id)
+        {
             continue;
         }
         // Get the original DOM node IDs for serialization
@@ -1166,6 +1170,25 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     convert_ops_with_shadow(edit_ops, opaque_patches, &tree_a.0, &diff_b, &matching)
 }
 
+/// Whether the children of two elements are equal, attributes included.
+fn same_content<'a>(
+    tree_a: &impl DiffTree<Types = HtmlTreeTypes<'a>>,
+    a_id: NodeId,
+    tree_b: &impl DiffTree<Types = HtmlTreeTypes<'a>>,
+    b_id: NodeId,
+) -> bool {
+    tree_a.child_count(a_id) == tree_b.child_count(b_id)
+        && tree_a
+            .children(a_id)
+            .zip(tree_b.children(b_id))
+            .all(|(a, b)| {
+                tree_a.kind(a) == tree_b.kind(b)
+                    && tree_a.text(a) == tree_b.text(b)
+                    && tree_a.properties(a).attrs == tree_b.properties(b).attrs
+                    && same_content(tree_a, a, tree_b, b)
+            })
+}
+
 /// Encapsulates the shadow tree with slot-based path computation.
 ///
 /// The arena has a "super root" whose children are slot nodes:
-- 
2.43.0


From d93ef306faec5b95386a9b852f26386fe17be629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 05/21] fix: remove the old content of elements that are opaque
 no longer

---
 hotmeal/src/diff.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index efe5845..c022784 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1122,7 +1122,19 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         matching.add(tree_a.0.root, diff_b.root());
     }
 
-    let edit_ops = cinereus::generate_edit_script(&tree_a, &diff_b, &matching);
+    let mut edit_ops = cinereus::generate_edit_script(&tree_a, &diff_b, &matching);
+
+    // The edit script leaves the content of opaque nodes alone. Where a node is opaque no
+    // longer, its new content is inserted like any other, so the old content has to go.
+    for (a_id, b_id) in matching.pairs() {
+        if tree_a.is_opaque(a_id) && !diff_b.is_opaque(b_id) && !inside_opaque(&diff_b, b_id) {
+            edit_ops.extend(
+                tree_a
+                    .children(a_id)
+                    .map(|node_a| EditOp::Delete { node_a }),
+            );
+        }
+    }
 
     #[cfg(test)]
     {
@@ -1142,8 +1154,9 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     // After edit script, emit OpaqueChanged for matched opaque pairs with different inner HTML
     let mut opaque_patches = Vec::new();
     for (a_id, b_id) in matching.pairs() {
-        // Check if the node in the new tree is opaque
-        if !diff_b.is_opaque(b_id) {
+        // Check if the node in the new tree is opaque, and not part of another opaque
+        // node's content
+        if !diff_b.is_opaque(b_id) || inside_opaque(&diff_b, b_id) {
             continue;
         }
         // Content that was opaque already and is identical needs no event. The hashes
@@ -1170,6 +1183,11 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     convert_ops_with_shadow(edit_ops, opaque_patches, &tree_a.0, &diff_b, &matching)
 }
 
+/// Whether a node lies strictly inside an opaque node.
+fn inside_opaque(tree: &impl DiffTree, id: NodeId) -> bool {
+    std::iter::successors(tree.parent(id), |&p| tree.parent(p)).any(|p| tree.is_opaque(p))
+}
+
 /// Whether the children of two elements are equal, attributes included.
 fn same_content<'a>(
     tree_a: &impl DiffTree<Types = HtmlTreeTypes<'a>>,
-- 
2.43.0


From f5be38d5c216ce3623ed1dfce3085842cc47d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 06/21] fix: find the root element behind leading comments

---
 hotmeal/src/dom.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index b259f3b..5c0b9f2 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1321,11 +1321,12 @@ impl<'a> TreeSink for ArenaSink<'a> {
     fn finish(self) -> Self::Output {
         let arena = self.arena.into_inner();
 
-        // Find the root element (usually <html>)
+        // Find the root element (usually <html>); comments may come before it
         let root = self
             .document
             .children(&arena)
-            .next()
+            .find(|&id| matches!(arena[id].get().kind, NodeKind::Element(_)))
+            .or_else(|| self.document.children(&arena).next())
             .unwrap_or(self.document);
 
         Document {
-- 
2.43.0


From b0b71e9bc52b2c3123f62a8982ffcf2bc315a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 07/21] fix: escape what HTML parses: raw text and void
 elements are HTML only, and complete

---
 hotmeal/src/dom.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 5c0b9f2..4309652 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -876,8 +876,12 @@ impl<'a> Document<'a> {
             out.push('"');
         }
 
+        // Void and raw text elements exist in HTML only: an SVG <style> or <link> is an
+        // element like any other
+        let is_html = self.get(node_id).ns == Namespace::Html;
+
         // Check if void element
-        if is_void_element(tag) {
+        if is_html && is_void_element(tag) {
             out.push('>');
             return;
         }
@@ -885,7 +889,7 @@ impl<'a> Document<'a> {
         out.push('>');
 
         // Children - raw text elements (script, style) should not have their content escaped
-        let is_raw_text = is_raw_text_element(tag);
+        let is_raw_text = is_html && is_raw_text_element(tag);
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
@@ -943,13 +947,16 @@ fn is_void_element(tag: &str) -> bool {
 }
 
 /// HTML5 raw text elements whose content should not be escaped
-/// See: https://html.spec.whatwg.org/multipage/syntax.html#raw-text-elements
+/// See: https://html.spec.whatwg.org/multipage/parsing.html#serialising-html-fragments
 ///
 /// Note: `noscript` is included because we always parse with scripting enabled
 /// (html5ever's default). When scripting is enabled, noscript is parsed as rawtext,
 /// so it must also be serialized as rawtext for innerHTML to be idempotent.
 fn is_raw_text_element(tag: &str) -> bool {
-    matches!(tag, "script" | "style" | "noscript")
+    matches!(
+        tag,
+        "script" | "style" | "noscript" | "xmp" | "iframe" | "noembed" | "noframes" | "plaintext"
+    )
 }
 
 /// What goes in each arena slot
-- 
2.43.0


From b63066232c88889775e62fe4b2bc58b58b287456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 08/21] fix: inject after the head tag, not after a header or
 inside an attribute

---
 hotmeal-server/src/lib.rs | 46 +++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index f5e8528..1ccf807 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -233,17 +233,12 @@ impl Default for LiveReloadServer {
 /// If no `<head>` tag is found, prepends content at the start.
 pub fn inject_into_head(html: &str, content: &str) -> String {
     // Find <head> or <head ...> tag (case-insensitive)
-    let lower = html.to_ascii_lowercase();
-    if let Some(head_start) = lower.find("<head") {
-        // Find the closing '>' of the <head> tag
-        if let Some(head_end) = html[head_start..].find('>') {
-            let insert_pos = head_start + head_end + 1;
-            let mut result = String::with_capacity(html.len() + content.len());
-            result.push_str(&html[..insert_pos]);
-            result.push_str(content);
-            result.push_str(&html[insert_pos..]);
-            return result;
-        }
+    if let Some(insert_pos) = head_content_start(html) {
+        let mut result = String::with_capacity(html.len() + content.len());
+        result.push_str(&html[..insert_pos]);
+        result.push_str(content);
+        result.push_str(&html[insert_pos..]);
+        return result;
     }
 
     // No <head> tag found — prepend
@@ -253,6 +248,35 @@ pub fn inject_into_head(html: &str, content: &str) -> String {
     result
 }
 
+/// Byte position right after the opening `<head>` tag, if there is one.
+fn head_content_start(html: &str) -> Option<usize> {
+    let lower = html.to_ascii_lowercase();
+    for (start, tag) in lower.match_indices("<head") {
+        let attrs_start = start + tag.len();
+        let rest = &lower.as_bytes()[attrs_start..];
+        // Not the start of another tag name, like <header>
+        if !rest
+            .first()
+            .is_some_and(|b| b.is_ascii_whitespace() || matches!(b, b'>' | b'/'))
+        {
+            continue;
+        }
+        // The tag ends at the first '>' outside a quoted attribute value
+        let mut quote = None;
+        let mut value_follows = false;
+        for (i, &b) in rest.iter().enumerate() {
+            match (quote, b) {
+                (None, b'>') => return Some(attrs_start + i + 1),
+                (None, b'"' | b'\'') if value_follows => quote = Some(b),
+                (Some(q), _) if q == b => quote = None,
+                _ => {}
+            }
+            value_follows = b == b'=' || (value_follows && b.is_ascii_whitespace());
+        }
+    }
+    None
+}
+
 /// Generate a `<script>` tag that loads hotmeal-wasm and starts live-reload.
 ///
 /// Arguments:
-- 
2.43.0


From 9d2f90420934f9797dca5c3fef987c3296e76c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 09/21] fix: leave no placeholders behind, so that the next
 patches find their nodes

---
 hotmeal-wasm/src/lib.rs | 34 ++++++++++++++++++++++++++++++++--
 hotmeal/src/dom.rs      | 10 ++++++++++
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 0e9f8b8..7b1ea91 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -126,7 +126,11 @@ pub fn apply_patches_json(patches_json: &str) -> Result<usize, JsValue> {
 /// Apply patches to the document body (high-level API with internal slots).
 pub fn apply_patches(patches: &[Patch]) -> Result<usize, JsValue> {
     let mut slots = Slots::new();
-    apply_patches_with_slots(patches, &mut slots)
+    let count = apply_patches_with_slots(patches, &mut slots)?;
+    if let Some(body) = get_document()?.body() {
+        remove_placeholders(&body)?;
+    }
+    Ok(count)
 }
 
 /// Apply patches to the document body with external slot storage.
@@ -155,7 +159,10 @@ pub fn apply_patches_postcard(patches_blob: &[u8]) -> Result<usize, JsValue> {
 /// Apply patches to a mount-point element identified by CSS selector.
 pub fn apply_patches_on(patches: &[Patch], mount_selector: &str) -> Result<usize, JsValue> {
     let mut slots = Slots::new();
-    apply_patches_with_slots_on(patches, &mut slots, mount_selector)
+    let count = apply_patches_with_slots_on(patches, &mut slots, mount_selector)?;
+    let root = resolve_mount_point(&get_document()?, mount_selector)?;
+    remove_placeholders(&root)?;
+    Ok(count)
 }
 
 /// Apply patches to a mount-point element with external slot storage.
@@ -718,6 +725,29 @@ fn insert_at_position(
     Ok(())
 }
 
+/// Remove the empty text nodes that kept positions stable from one patch to the next.
+/// Markup has none, so the paths of later patches do not count them. The content of opaque
+/// elements is left alone.
+fn remove_placeholders(node: &Node) -> Result<(), JsValue> {
+    let children = node.child_nodes();
+    for i in (0..children.length()).rev() {
+        let Some(child) = children.item(i) else {
+            continue;
+        };
+        if child.node_type() == Node::TEXT_NODE {
+            if child.text_content().is_none_or(|text| text.is_empty()) {
+                node.remove_child(&child)?;
+            }
+        } else if !child
+            .dyn_ref::<Element>()
+            .is_some_and(|el| el.has_attribute("data-hotmeal-opaque"))
+        {
+            remove_placeholders(&child)?;
+        }
+    }
+    Ok(())
+}
+
 /// Try to create an element with attributes using the DOM API.
 /// Returns Err if any attribute name is invalid for setAttribute.
 fn create_element_with_attrs(
diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 4309652..4e3f9db 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -469,6 +469,16 @@ impl<'a> Document<'a> {
             self.apply_patch(patch, &mut slots)?;
         }
 
+        // Placeholders keep positions stable from one patch to the next. Markup has no empty
+        // text nodes, so the paths of later patches do not count them: drop them.
+        let placeholders: Vec<_> = body_id
+            .descendants(&self.arena)
+            .filter(|&id| matches!(&self.get(id).kind, NodeKind::Text(t) if t.is_empty()))
+            .collect();
+        for placeholder in placeholders {
+            placeholder.detach(&mut self.arena);
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 296a6d27e4c3510617f23e35e54dc0c36338a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 10/21] fix: insert SVG and MathML elements as such

---
 hotmeal-wasm/src/lib.rs | 30 +++++++++++++++------
 hotmeal/src/dom.rs      | 58 +++++++++++++++++++++++++++++++++++++----
 2 files changed, 75 insertions(+), 13 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 7b1ea91..fec73f8 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -21,7 +21,7 @@
 //! which is essential for live-reload systems where hotmeal manages only part
 //! of the document.
 
-use hotmeal::{InsertContent, NodeId, StrTendril, parse};
+use hotmeal::{InsertContent, Namespace, NodeId, StrTendril, parse};
 #[cfg(target_arch = "wasm32")]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
@@ -473,10 +473,10 @@ fn apply_patch(
                 .ok_or_else(|| JsValue::from_str("parent is not an element"))?
                 .clone();
 
-            let new_node: Node = match create_element_with_attrs(doc, tag, attrs) {
+            let new_node: Node = match create_element_with_attrs(doc, &parent_el, tag, attrs) {
                 Ok(el) => {
                     for child in children {
-                        let child_node = create_insert_content(doc, child)?;
+                        let child_node = create_insert_content(doc, &el, child)?;
                         el.append_child(&child_node)?;
                     }
                     el.into()
@@ -752,10 +752,20 @@ fn remove_placeholders(node: &Node) -> Result<(), JsValue> {
 /// Returns Err if any attribute name is invalid for setAttribute.
 fn create_element_with_attrs(
     doc: &Document,
+    parent: &Element,
     tag: &str,
     attrs: &[hotmeal::AttrPair],
 ) -> Result<Element, JsValue> {
-    let el = doc.create_element(tag)?;
+    let encoding = parent.get_attribute("encoding");
+    let ns = Namespace::from_url(&parent.namespace_uri().unwrap_or_default()).of_child(
+        &parent.local_name(),
+        encoding.as_deref(),
+        tag,
+    );
+    let el = match ns {
+        Namespace::Html => doc.create_element(tag)?,
+        _ => doc.create_element_ns(Some(ns.url()), tag)?,
+    };
     for attr in attrs {
         let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
             Some(prefix) => format!("{}:{}", prefix, attr.name.local),
@@ -852,17 +862,21 @@ fn serialize_insert_content(out: &mut String, content: &InsertContent) {
     }
 }
 
-/// Create a DOM node from InsertContent.
-fn create_insert_content(doc: &Document, content: &InsertContent) -> Result<Node, JsValue> {
+/// Create a DOM node from InsertContent, which goes into `parent`.
+fn create_insert_content(
+    doc: &Document,
+    parent: &Element,
+    content: &InsertContent,
+) -> Result<Node, JsValue> {
     match content {
         InsertContent::Element {
             tag,
             attrs,
             children,
-        } => match create_element_with_attrs(doc, tag, attrs) {
+        } => match create_element_with_attrs(doc, parent, tag, attrs) {
             Ok(el) => {
                 for child in children {
-                    let child_node = create_insert_content(doc, child)?;
+                    let child_node = create_insert_content(doc, &el, child)?;
                     el.append_child(&child_node)?;
                 }
                 Ok(el.into())
diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 4e3f9db..9af8f2f 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -522,14 +522,16 @@ impl<'a> Document<'a> {
                         .map(|a| (a.name.clone(), a.value.clone()))
                         .collect(),
                 };
+                let (parent_id, _) = self.get_slot_parent(&at.0.0, slots)?;
+                let ns = self.namespace_in(parent_id, &tag);
                 let new_node = self.arena.new_node(NodeData {
                     kind: NodeKind::Element(elem_data),
-                    ns: Namespace::Html,
+                    ns,
                 });
 
                 // Add children to the new element
                 for child in children {
-                    let child_node = self.create_insert_content(child)?;
+                    let child_node = self.create_insert_content(new_node, child)?;
                     new_node.append(child_node, &mut self.arena);
                 }
 
@@ -789,24 +791,44 @@ impl<'a> Document<'a> {
         Ok(())
     }
 
-    fn create_insert_content(&mut self, content: InsertContent<'a>) -> Result<NodeId, DiffError> {
+    /// Namespace of a new `tag` element among the children of `parent_id`
+    fn namespace_in(&self, parent_id: NodeId, tag: &str) -> Namespace {
+        let parent = self.get(parent_id);
+        let NodeKind::Element(elem) = &parent.kind else {
+            return Namespace::Html;
+        };
+        let encoding = elem
+            .attrs
+            .iter()
+            .find(|(name, _)| name.local.as_ref() == "encoding")
+            .map(|(_, value)| value.as_ref());
+        parent.ns.of_child(&elem.tag, encoding, tag)
+    }
+
+    /// Create the node for `content`, which goes into `parent_id`
+    fn create_insert_content(
+        &mut self,
+        parent_id: NodeId,
+        content: InsertContent<'a>,
+    ) -> Result<NodeId, DiffError> {
         match content {
             InsertContent::Element {
                 tag,
                 attrs,
                 children,
             } => {
+                let ns = self.namespace_in(parent_id, &tag);
                 let elem_data = ElementData {
                     tag,
                     attrs: attrs.into_iter().map(|a| (a.name, a.value)).collect(),
                 };
                 let node = self.arena.new_node(NodeData {
                     kind: NodeKind::Element(elem_data),
-                    ns: Namespace::Html,
+                    ns,
                 });
 
                 for child in children {
-                    let child_node = self.create_insert_content(child)?;
+                    let child_node = self.create_insert_content(node, child)?;
                     node.append(child_node, &mut self.arena);
                 }
 
@@ -1024,6 +1046,32 @@ impl Namespace {
             Namespace::MathMl => "http://www.w3.org/1998/Math/MathML",
         }
     }
+
+    /// Namespace of a `tag` element inside a `parent_tag` element of this namespace, by the rules
+    /// of the HTML parser. `encoding` is that attribute of the parent.
+    pub fn of_child(self, parent_tag: &str, encoding: Option<&str>, tag: &str) -> Namespace {
+        let html_rules = match (self, parent_tag) {
+            (Namespace::Html, _) => true,
+            (Namespace::Svg, "foreignObject" | "desc" | "title") => true,
+            (Namespace::MathMl, "mi" | "mo" | "mn" | "ms" | "mtext") => {
+                !matches!(tag, "mglyph" | "malignmark")
+            }
+            (Namespace::MathMl, "annotation-xml") => {
+                tag == "svg"
+                    || encoding.is_some_and(|e| {
+                        e.eq_ignore_ascii_case("text/html")
+                            || e.eq_ignore_ascii_case("application/xhtml+xml")
+                    })
+            }
+            _ => false,
+        };
+        match tag {
+            _ if !html_rules => self,
+            "svg" => Namespace::Svg,
+            "math" => Namespace::MathMl,
+            _ => Namespace::Html,
+        }
+    }
 }
 
 fn has_doctype_prefix(input: &str) -> bool {
-- 
2.43.0


From e56dbb68ac42feb5ebe368258b9b57f95958b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 11/21] fix: set attributes in their namespace

---
 hotmeal-wasm/src/lib.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index fec73f8..7b57ad5 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -406,11 +406,7 @@ fn apply_patch(
 
         Patch::SetAttribute { path, name, value } => {
             let el = find_element(root, path, slots)?;
-            let attr_name = match name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                Some(prefix) => format!("{}:{}", prefix, name.local),
-                None => name.local.to_string(),
-            };
-            el.set_attribute(&attr_name, value)?;
+            set_attr(&el, name, value)?;
         }
 
         Patch::RemoveAttribute { path, name } => {
@@ -600,7 +596,7 @@ fn apply_patch(
                             Some(v) => v.as_ref().to_string(),
                             None => existing.get(&attr_name).cloned().unwrap_or_default(),
                         };
-                        el.set_attribute(&attr_name, &value)?;
+                        set_attr(el, qual_name, &value)?;
                     }
                 }
             }
@@ -767,15 +763,24 @@ fn create_element_with_attrs(
         _ => doc.create_element_ns(Some(ns.url()), tag)?,
     };
     for attr in attrs {
-        let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-            Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-            None => attr.name.local.to_string(),
-        };
-        el.set_attribute(&attr_name, &attr.value)?;
+        set_attr(&el, &attr.name, &attr.value)?;
     }
     Ok(el)
 }
 
+/// Set an attribute, in its namespace if it has one (like `xlink:href`).
+fn set_attr(el: &Element, name: &hotmeal::QualName, value: &str) -> Result<(), JsValue> {
+    let attr_name = match name.prefix.as_ref().filter(|p| !p.is_empty()) {
+        Some(prefix) => format!("{}:{}", prefix, name.local),
+        None => name.local.to_string(),
+    };
+    if name.ns.is_empty() {
+        el.set_attribute(&attr_name, value)
+    } else {
+        el.set_attribute_ns(Some(name.ns.as_ref()), &attr_name, value)
+    }
+}
+
 /// Create an element via innerHTML when setAttribute fails.
 /// This handles exotic attribute names that the HTML parser accepts but the DOM API rejects.
 fn create_element_via_html(
-- 
2.43.0


From ef38ed65c163849ccbd8ec6e3334cbf99358091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 12/21] fix: give a body that was missing the attributes of the
 new one

---
 hotmeal/src/diff.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index c022784..989e36a 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1065,6 +1065,22 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
             // Old has no body, new has body - insert all new body children
             let new_body_id = new.body().unwrap();
             let mut patches = Vec::new();
+            if let NodeKind::Element(body) = &new.get(new_body_id).kind
+                && !body.attrs.is_empty()
+            {
+                // The body created in the old document gets the attributes of the new one
+                patches.push(Patch::UpdateProps {
+                    path: NodePath(smallvec![0]),
+                    changes: body
+                        .attrs
+                        .iter()
+                        .map(|(name, value)| PropChange {
+                            name: PropKey::Attr(name.clone()),
+                            value: Some(value.clone()),
+                        })
+                        .collect(),
+                });
+            }
             for (pos, child_id) in new_body_id.children(&new.arena).enumerate() {
                 patches.push(create_insert_patch(new, child_id, pos)?);
             }
-- 
2.43.0


From ccf545c42cf79241989fc2c2f3e5e39119201cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 13/21] fix: end the head tag where the HTML parser ends it

---
 hotmeal-server/src/lib.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index 1ccf807..338c076 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -248,6 +248,19 @@ pub fn inject_into_head(html: &str, content: &str) -> String {
     result
 }
 
+/// Where in a start tag, after its name, a byte is.
+#[derive(Clone, Copy)]
+enum InTag {
+    /// Between attributes
+    Gap,
+    /// In or behind the name of an attribute
+    Name,
+    /// Behind its `=`
+    BeforeValue,
+    Quoted(u8),
+    Unquoted,
+}
+
 /// Byte position right after the opening `<head>` tag, if there is one.
 fn head_content_start(html: &str) -> Option<usize> {
     let lower = html.to_ascii_lowercase();
@@ -262,16 +275,21 @@ fn head_content_start(html: &str) -> Option<usize> {
             continue;
         }
         // The tag ends at the first '>' outside a quoted attribute value
-        let mut quote = None;
-        let mut value_follows = false;
+        let mut state = InTag::Gap;
         for (i, &b) in rest.iter().enumerate() {
-            match (quote, b) {
-                (None, b'>') => return Some(attrs_start + i + 1),
-                (None, b'"' | b'\'') if value_follows => quote = Some(b),
-                (Some(q), _) if q == b => quote = None,
-                _ => {}
-            }
-            value_follows = b == b'=' || (value_follows && b.is_ascii_whitespace());
+            state = match (state, b) {
+                (InTag::Quoted(q), _) if q == b => InTag::Gap,
+                (InTag::Quoted(q), _) => InTag::Quoted(q),
+                (_, b'>') => return Some(attrs_start + i + 1),
+                (InTag::BeforeValue, b'"' | b'\'') => InTag::Quoted(b),
+                (InTag::BeforeValue, _) if b.is_ascii_whitespace() => InTag::BeforeValue,
+                (InTag::Unquoted, _) if b.is_ascii_whitespace() => InTag::Gap,
+                (InTag::BeforeValue | InTag::Unquoted, _) => InTag::Unquoted,
+                (InTag::Gap, _) if b.is_ascii_whitespace() => InTag::Gap,
+                (InTag::Gap | InTag::Name, b'/') => InTag::Gap,
+                (InTag::Name, b'=') => InTag::BeforeValue,
+                (InTag::Gap | InTag::Name, _) => InTag::Name,
+            };
         }
     }
     None
-- 
2.43.0


From 77c86fed76181ad9f5210b9236d60231fc8b7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 14/21] fix: set attributes whose names scripts cannot set

---
 hotmeal-wasm/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 7b57ad5..f1cdc97 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -774,11 +774,29 @@ fn set_attr(el: &Element, name: &hotmeal::QualName, value: &str) -> Result<(), J
         Some(prefix) => format!("{}:{}", prefix, name.local),
         None => name.local.to_string(),
     };
-    if name.ns.is_empty() {
+    let set = if name.ns.is_empty() {
         el.set_attribute(&attr_name, value)
     } else {
         el.set_attribute_ns(Some(name.ns.as_ref()), &attr_name, value)
-    }
+    };
+    set.or_else(|refused| set_attr_via_html(el, &attr_name, value)?.ok_or(refused))
+}
+
+/// Set an attribute with an exotic name that the HTML parser accepts but the DOM API rejects:
+/// let the parser make the attribute, and move it over.
+fn set_attr_via_html(el: &Element, attr_name: &str, value: &str) -> Result<Option<()>, JsValue> {
+    let escaped_value = value.replace('&', "&amp;").replace('"', "&quot;");
+    let holder = get_document()?.create_element("div")?;
+    holder.set_inner_html(&format!("<div {}=\"{}\"></div>", attr_name, escaped_value));
+    let parsed = holder.first_element_child();
+    let Some(attr) = parsed.and_then(|parsed| {
+        let attr = parsed.get_attribute_node(attr_name)?;
+        parsed.remove_attribute_node(&attr).ok()?
+    }) else {
+        return Ok(None);
+    };
+    el.set_attribute_node(&attr)?;
+    Ok(Some(()))
 }
 
 /// Create an element via innerHTML when setAttribute fails.
-- 
2.43.0


From 376247df84d1d562a046284b307a07da4bc6d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 15/21] fix: parse changed opaque content in the context of its
 element

---
 hotmeal/src/dom.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 9af8f2f..f8f9941 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -690,20 +690,17 @@ impl<'a> Document<'a> {
                 for child in children {
                     child.detach(&mut self.arena);
                 }
-                // Parse the new content and attach as children
-                // We parse a minimal document wrapper to get the content nodes
-                let wrapper_html =
-                    format!("<html><body><div>{}</div></body></html>", content.as_ref());
-                let wrapper_tendril = StrTendril::from(wrapper_html.as_str());
-                let wrapper_doc = crate::dom::parse(&wrapper_tendril);
-                if let Some(body_id) = wrapper_doc.body() {
-                    // The content is inside body > div
-                    if let Some(div_id) = body_id.children(&wrapper_doc.arena).next() {
-                        for child_id in div_id.children(&wrapper_doc.arena) {
-                            let cloned = self.clone_subtree_from(&wrapper_doc, child_id);
-                            node_id.append(cloned, &mut self.arena);
-                        }
-                    }
+                // Parse the new content the way it will be read inside this element, and
+                // attach it as children
+                let node = self.get(node_id);
+                let NodeKind::Element(elem) = &node.kind else {
+                    return Ok(());
+                };
+                let tendril = StrTendril::from(content.as_ref());
+                let parsed = parse_fragment_in(&tendril, node.ns, elem.tag.clone());
+                for child_id in parsed.root.children(&parsed.arena) {
+                    let cloned = self.clone_subtree_from(&parsed, child_id);
+                    node_id.append(cloned, &mut self.arena);
                 }
             }
         }
@@ -1145,14 +1142,24 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
 ///
 /// Use this when comparing against browser innerHTML parsing for parity testing.
 pub fn parse_body_fragment(tendril: &StrTendril) -> Document<'_> {
+    parse_fragment_in(tendril, Namespace::Html, local_name!("body"))
+}
+
+/// Parse HTML as the content of an element with the given name and namespace.
+fn parse_fragment_in(tendril: &StrTendril, ns: Namespace, tag: LocalName) -> Document<'_> {
     use html5ever::parse_fragment;
     use tendril::TendrilSink;
 
     let input_ref: &str = tendril.as_ref();
     let sink = ArenaSink::new(input_ref);
 
-    // Parse as fragment with <body> as context, scripting enabled
-    let context_name = QualName::new(None, ns!(html), local_name!("body"));
+    // Parse as fragment with the element as context, scripting enabled
+    let context_ns = match ns {
+        Namespace::Html => ns!(html),
+        Namespace::Svg => ns!(svg),
+        Namespace::MathMl => ns!(mathml),
+    };
+    let context_name = QualName::new(None, context_ns, tag);
     let context_attrs = vec![];
     let scripting_enabled = true;
 
-- 
2.43.0


From 9260c856ba280db39652f5537e85e430f4e63658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 16/21] fix: write the raw text of opaque elements as it is

---
 hotmeal/src/dom.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index f8f9941..de71b36 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -402,9 +402,7 @@ impl<'a> Document<'a> {
     /// Serialize the inner HTML of a node (its children, not the node itself).
     pub fn serialize_inner_html(&self, node_id: NodeId) -> String {
         let mut output = String::new();
-        for child_id in node_id.children(&self.arena) {
-            self.serialize_node(&mut output, child_id);
-        }
+        self.serialize_children(&mut output, node_id);
         output
     }
 
@@ -907,18 +905,27 @@ impl<'a> Document<'a> {
 
         // Void and raw text elements exist in HTML only: an SVG <style> or <link> is an
         // element like any other
-        let is_html = self.get(node_id).ns == Namespace::Html;
-
-        // Check if void element
-        if is_html && is_void_element(tag) {
+        if self.get(node_id).ns == Namespace::Html && is_void_element(tag) {
             out.push('>');
             return;
         }
 
         out.push('>');
 
-        // Children - raw text elements (script, style) should not have their content escaped
-        let is_raw_text = is_html && is_raw_text_element(tag);
+        self.serialize_children(out, node_id);
+
+        // Closing tag
+        out.push_str("</");
+        out.push_str(tag);
+        out.push('>');
+    }
+
+    /// Serialize the children of a node
+    fn serialize_children(&self, out: &mut String, node_id: NodeId) {
+        // Raw text elements (script, style) should not have their content escaped
+        let node = self.get(node_id);
+        let is_raw_text = node.ns == Namespace::Html
+            && matches!(&node.kind, NodeKind::Element(elem) if is_raw_text_element(elem.tag.as_ref()));
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
@@ -926,11 +933,6 @@ impl<'a> Document<'a> {
                 self.serialize_node(out, child_id);
             }
         }
-
-        // Closing tag
-        out.push_str("</");
-        out.push_str(tag);
-        out.push('>');
     }
 
     /// Serialize a node without escaping text content (for raw text elements like script/style)
-- 
2.43.0


From 388d141a9abf85f01a8298958cfea72d9e949559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 17/21] fix: treat the empty prefix of xmlns as no prefix

---
 hotmeal/src/dom.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index de71b36..147604a 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -884,7 +884,7 @@ impl<'a> Document<'a> {
         for (name, value) in &elem.attrs {
             out.push(' ');
             // Serialize QualName with prefix if present
-            if let Some(ref prefix) = name.prefix {
+            if let Some(prefix) = name.prefix.as_ref().filter(|p| !p.is_empty()) {
                 out.push_str(prefix.as_ref());
                 out.push(':');
             }
@@ -1195,6 +1195,14 @@ impl ElemName for OwnedElemName {
     }
 }
 
+/// The name of a parsed attribute: html5ever gives `xmlns` an empty prefix, which is no prefix.
+fn attr_name(name: QualName) -> QualName {
+    QualName {
+        prefix: name.prefix.filter(|prefix| !prefix.is_empty()),
+        ..name
+    }
+}
+
 /// TreeSink implementation for building arena-based DOM
 struct ArenaSink<'a> {
     /// Original input - used to borrow strings when possible
@@ -1466,7 +1474,7 @@ impl<'a> TreeSink for ArenaSink<'a> {
 
         let attrs: Vec<_> = attrs
             .into_iter()
-            .map(|attr| (attr.name, self.tendril_to_stem(attr.value)))
+            .map(|attr| (attr_name(attr.name), self.tendril_to_stem(attr.value)))
             .collect();
 
         // Create node in arena
@@ -1803,7 +1811,7 @@ impl<'a> TreeSink for ArenaSink<'a> {
         // Convert tendrils to stems before borrowing arena
         let converted_attrs: Vec<_> = attrs
             .into_iter()
-            .map(|attr| (attr.name, self.tendril_to_stem(attr.value)))
+            .map(|attr| (attr_name(attr.name), self.tendril_to_stem(attr.value)))
             .collect();
 
         let mut arena = self.arena.borrow_mut();
-- 
2.43.0


From 091716c5435c70cf019aa5538bb20e7735754179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 18/21] fix: find the doctype behind a byte order mark,
 comments and declarations

---
 hotmeal/src/dom.rs | 56 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 147604a..92fe187 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1073,18 +1073,39 @@ impl Namespace {
     }
 }
 
+/// Check if the doctype comes first in the input, but for whitespace and comments.
 fn has_doctype_prefix(input: &str) -> bool {
-    let bytes = input.as_bytes();
-    let mut i = 0;
-    while i < bytes.len() && bytes[i].is_ascii_whitespace() {
-        i += 1;
-    }
-    let doctype = b"<!doctype";
-    i + doctype.len() <= bytes.len()
-        && bytes[i..i + doctype.len()]
-            .iter()
-            .zip(doctype)
-            .all(|(b, d)| b.to_ascii_lowercase() == *d)
+    let mut rest = input;
+    loop {
+        rest = rest.trim_ascii_start();
+        if let Some(comment) = rest.strip_prefix("<!--") {
+            let ends = [
+                comment.starts_with('>').then_some(1),
+                comment.starts_with("->").then_some(2),
+                comment.find("-->").map(|i| i + 3),
+                comment.find("--!>").map(|i| i + 4),
+            ];
+            match ends.into_iter().flatten().min() {
+                Some(end) => rest = &comment[end..],
+                None => return false,
+            }
+            continue;
+        }
+        let doctype = b"<!doctype";
+        if rest.len() >= doctype.len()
+            && rest.as_bytes()[..doctype.len()].eq_ignore_ascii_case(doctype)
+        {
+            return true;
+        }
+        // The parser makes comments of other declarations, like that of XML
+        if !rest.starts_with("<?") && !rest.starts_with("<!") {
+            return false;
+        }
+        match rest.find('>') {
+            Some(end) => rest = &rest[end + 1..],
+            None => return false,
+        }
+    }
 }
 
 /// Parse HTML from a StrTendril with zero-copy borrowing.
@@ -1105,6 +1126,13 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
     let input_ref: &str = tendril.as_ref();
     let sink = ArenaSink::new(input_ref);
 
+    // The parser drops a byte order mark only in front of everything else
+    let bom = '\u{feff}'.len_utf8() as u32;
+    let (input_ref, tendril) = match input_ref.strip_prefix('\u{feff}') {
+        Some(rest) => (rest, tendril.subtendril(bom, rest.len() as u32)),
+        None => (input_ref, tendril.clone()),
+    };
+
     // Prepend DOCTYPE if not present to ensure no-quirks mode parsing.
     // This matches browser behavior for innerHTML which always uses no-quirks.
     let has_doctype = has_doctype_prefix(input_ref);
@@ -1115,16 +1143,16 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
     // get discarded. Instead, wrap in <html><body>...</body></html> so the
     // content is clearly in the body context.
     let input = if has_doctype {
-        tendril.clone()
+        tendril
     } else if has_html_structure(input_ref) {
         // Input has <html> or <body> tags, just prepend DOCTYPE
         let mut with_doctype = StrTendril::from("<!DOCTYPE html>");
-        with_doctype.push_tendril(tendril);
+        with_doctype.push_tendril(&tendril);
         with_doctype
     } else {
         // Input is raw body content - wrap it to preserve leading whitespace
         let mut wrapped = StrTendril::from("<!DOCTYPE html><html><body>");
-        wrapped.push_tendril(tendril);
+        wrapped.push_tendril(&tendril);
         wrapped.push_slice("</body></html>");
         wrapped
     };
-- 
2.43.0


From bbf0a3b347e96c3a00b9f76391f9a21bcd9ec4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 19/21] fix: write the loader script's addresses as string
 literals

---
 hotmeal-server/src/lib.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index 338c076..afbd40b 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -308,15 +308,34 @@ pub fn loader_script(
     mount_selector: &str,
     ws_url: &str,
 ) -> String {
+    let [wasm_js_url, wasm_url, mount_selector, ws_url] =
+        [wasm_js_url, wasm_url, mount_selector, ws_url].map(js_string);
     format!(
         r#"<script type="module">
-import init, {{ start_live_reload }} from "{wasm_js_url}";
-await init("{wasm_url}");
-start_live_reload("{ws_url}", "{mount_selector}");
+import init, {{ start_live_reload }} from {wasm_js_url};
+await init({wasm_url});
+start_live_reload({ws_url}, {mount_selector});
 </script>"#,
     )
 }
 
+/// A JavaScript string literal for `value` that can stand inside a `<script>` element.
+fn js_string(value: &str) -> String {
+    let mut out = String::with_capacity(value.len() + 2);
+    out.push('"');
+    for c in value.chars() {
+        match c {
+            '"' | '\\' => out.extend(['\\', c]),
+            '<' | '\u{2028}' | '\u{2029}' | '\0'..='\u{1f}' => {
+                out.push_str(&format!("\\u{:04x}", c as u32));
+            }
+            _ => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From c16ca2db61e264517138da3ea0e39da6ee63ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 20/21] fix: put nothing behind content that is wrapped for
 parsing

---
 hotmeal/src/dom.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 92fe187..ee16729 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1140,8 +1140,9 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
     // When the input doesn't have a doctype, we need to wrap it carefully.
     // Simply prepending "<!DOCTYPE html>" would cause leading whitespace in
     // content like " *" to become inter-element whitespace before <html> and
-    // get discarded. Instead, wrap in <html><body>...</body></html> so the
-    // content is clearly in the body context.
+    // get discarded. Instead, start with <html><body> so the content is clearly in
+    // the body context. Nothing is added behind it: end tags would become content
+    // of a comment, script or the like that the input leaves open.
     let input = if has_doctype {
         tendril
     } else if has_html_structure(input_ref) {
@@ -1153,7 +1154,6 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
         // Input is raw body content - wrap it to preserve leading whitespace
         let mut wrapped = StrTendril::from("<!DOCTYPE html><html><body>");
         wrapped.push_tendril(&tendril);
-        wrapped.push_slice("</body></html>");
         wrapped
     };
 
-- 
2.43.0


From 167d34c0ee25ac5a6a383380305eba16f6903a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 21/21] fix: the body is the root of the tree that is compared

---
 hotmeal/src/diff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 989e36a..1ae969e 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -667,6 +667,10 @@ impl<'b, 'a> DiffTree for DiffableDocument<'b, 'a> {
     }
 
     fn parent(&self, id: NodeId) -> Option<NodeId> {
+        // The body is the root of this tree, wherever it is in the document
+        if id == self.body_id {
+            return None;
+        }
         self.doc.arena.get(id).and_then(|n| n.parent())
     }
 
-- 
2.43.0

