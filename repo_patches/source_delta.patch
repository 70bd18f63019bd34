From 32da2e4b95e968b6d7ef3d5dd644fa987faa0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 01/26] fix: decode property names of JsValue::Object the way
 they are encoded

---
 .../vertigo/src/driver_module/js_value/js_value_struct.rs   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
index a9af77e..6bb8f94 100644
--- a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
@@ -333,10 +333,8 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
             let object_size = buffer.get_u16();
 
             for _ in 0..object_size {
-                let prop_name = decode_js_value_inner(buffer)?;
-                let JsValue::String(prop_name) = prop_name else {
-                    return Err("string expected".into());
-                };
+                let str_len = buffer.get_u32();
+                let prop_name = buffer.get_string(str_len)?;
 
                 let prop_value = decode_js_value_inner(buffer)?;
 
-- 
2.43.0


From 6a65663b87767c2144d28ab983f196cb49a85f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 02/26] fix: equal JsJson objects hash equally whatever their
 iteration order

---
 .../vertigo/src/driver_module/js_value/js_json_struct.rs   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
index 745e643..f9df58d 100644
--- a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
@@ -113,7 +113,12 @@ impl Hash for JsJson {
             }
             Self::Object(map) => {
                 state.write_u8(JsJsonConst::Object.into());
-                for (name, value) in map {
+
+                // Iteration order of a HashMap is unspecified, equal objects have to hash equally
+                let mut props = map.iter().collect::<Vec<_>>();
+                props.sort_by_key(|(name, _)| *name);
+
+                for (name, value) in props {
                     name.hash(state);
                     value.hash(state);
                 }
-- 
2.43.0


From 1ee59985446460d7fbb8646e6aab17e7dcdf043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 03/26] fix: keep fragments in order next to each other in
 lists and fragments

Nodes of a fragment precede its comment, so inserting a sibling in front of
the comment put it between the fragment's nodes and its comment.
---
 crates/vertigo/src/dom/dom_comment.rs  | 52 +++++++++++++++++++-------
 crates/vertigo/src/dom/dom_node.rs     |  9 +++++
 crates/vertigo/src/render/dom_list.rs  | 20 +++++-----
 crates/vertigo/src/render/dom_value.rs |  6 ++-
 4 files changed, 63 insertions(+), 24 deletions(-)

diff --git a/crates/vertigo/src/dom/dom_comment.rs b/crates/vertigo/src/dom/dom_comment.rs
index 4a785c6..39e7595 100644
--- a/crates/vertigo/src/dom/dom_comment.rs
+++ b/crates/vertigo/src/dom/dom_comment.rs
@@ -1,3 +1,5 @@
+use std::rc::Rc;
+
 use super::dom_id::DomId;
 use crate::{
     get_driver,
@@ -10,6 +12,8 @@ pub struct DomComment {
     driver: Driver,
     pub id_dom: DomId,
     subscriptions: VecMut<DropResource>,
+    // For markers: first of the nodes which are kept in front of this comment
+    first_content: Option<Rc<dyn Fn() -> Option<DomId>>>,
 }
 
 impl DomComment {
@@ -24,6 +28,7 @@ impl DomComment {
             driver,
             id_dom,
             subscriptions: VecMut::new(),
+            first_content: None,
         }
     }
 
@@ -58,9 +63,26 @@ impl DomComment {
             driver,
             id_dom: id_comment,
             subscriptions,
+            first_content: None,
         }
     }
 
+    pub(crate) fn with_first_content(
+        mut self,
+        first_content: impl Fn() -> Option<DomId> + 'static,
+    ) -> DomComment {
+        self.first_content = Some(Rc::new(first_content));
+        self
+    }
+
+    /// The first node (in document order) this comment is responsible for
+    pub(crate) fn first_dom(&self) -> DomId {
+        self.first_content
+            .as_ref()
+            .and_then(|first_content| first_content())
+            .unwrap_or(self.id_dom)
+    }
+
     pub fn id_dom(&self) -> DomId {
         self.id_dom
     }
@@ -69,24 +91,26 @@ impl DomComment {
         self.subscriptions.push(client);
     }
 
-    pub fn dom_fragment(mut list: Vec<DomNode>) -> DomComment {
-        list.reverse();
+    pub fn dom_fragment(list: Vec<DomNode>) -> DomComment {
+        let list = Rc::new(list);
 
-        Self::new_marker("list dom node", move |parent_id, comment_id| {
-            let mut prev_node = comment_id;
-            let driver = get_driver();
+        Self::new_marker("list dom node", {
+            let list = list.clone();
 
-            for node in list.iter() {
-                let node_id = node.id_dom();
-                driver
-                    .inner
-                    .dom
-                    .insert_before(parent_id, node_id, Some(prev_node));
-                prev_node = node_id;
-            }
+            move |parent_id, comment_id| {
+                let driver = get_driver();
 
-            None
+                for node in list.iter() {
+                    driver
+                        .inner
+                        .dom
+                        .insert_before(parent_id, node.id_dom(), Some(comment_id));
+                }
+
+                None
+            }
         })
+        .with_first_content(move || list.first().map(|node| node.first_dom()))
     }
 }
 
diff --git a/crates/vertigo/src/dom/dom_node.rs b/crates/vertigo/src/dom/dom_node.rs
index 5d65526..67bc824 100644
--- a/crates/vertigo/src/dom/dom_node.rs
+++ b/crates/vertigo/src/dom/dom_node.rs
@@ -25,6 +25,15 @@ impl DomNode {
             Self::Comment { node } => node.id_dom(),
         }
     }
+
+    /// Like [DomNode::id_dom], but for fragments it is the first node of its content
+    pub(crate) fn first_dom(&self) -> DomId {
+        match self {
+            Self::Node { node } => node.id_dom(),
+            Self::Text { node } => node.id_dom(),
+            Self::Comment { node } => node.first_dom(),
+        }
+    }
 }
 
 impl From<DomElement> for DomNode {
diff --git a/crates/vertigo/src/render/dom_list.rs b/crates/vertigo/src/render/dom_list.rs
index 9cf5f05..112f301 100644
--- a/crates/vertigo/src/render/dom_list.rs
+++ b/crates/vertigo/src/render/dom_list.rs
@@ -43,9 +43,13 @@ pub fn render_list<T: PartialEq + Clone + 'static, K: Eq + Hash>(
     let get_key = Rc::new(get_key);
     let render = Rc::new(render);
 
+    let current_list: Rc<ValueMut<VecDeque<(T, DomNode)>>> =
+        Rc::new(ValueMut::new(VecDeque::new()));
+    let first_node = current_list.clone();
+
     DomComment::new_marker("list element", move |parent_id, comment_id| {
-        let current_list: Rc<ValueMut<VecDeque<(T, DomNode)>>> =
-            Rc::new(ValueMut::new(VecDeque::new()));
+        let current_list = current_list.clone();
+        drop(current_list.change(std::mem::take)); //mounted again, start from scratch
 
         Some(computed.clone().subscribe({
             let get_key = get_key.clone();
@@ -75,6 +79,7 @@ pub fn render_list<T: PartialEq + Clone + 'static, K: Eq + Hash>(
             }
         }))
     })
+    .with_first_content(move || first_node.map(find_first_dom))
     .into()
 }
 
@@ -107,7 +112,7 @@ fn reorder_nodes<T: PartialEq, K: Eq + Hash>(
 
 fn find_first_dom<T>(list: &VecDeque<(T, DomNode)>) -> Option<DomId> {
     if let Some((_, first)) = list.front() {
-        return Some(first.id_dom());
+        return Some(first.first_dom());
     }
 
     None
@@ -198,18 +203,15 @@ fn get_pairs_middle<T: PartialEq, K: Eq + Hash>(
     }
 
     let driver = get_driver();
-    let mut last_before = last_before;
 
-    for item in new_child.into_iter().rev() {
+    for item in new_child.into_iter() {
         let node = real_node.get_or_create(&item);
-        let node_id = node.id_dom();
-        pairs_middle.push_front((item, node));
 
         driver
             .inner
             .dom
-            .insert_before(parent_id, node_id, Some(last_before));
-        last_before = node_id;
+            .insert_before(parent_id, node.id_dom(), Some(last_before));
+        pairs_middle.push_back((item, node));
     }
 
     pairs_middle
diff --git a/crates/vertigo/src/render/dom_value.rs b/crates/vertigo/src/render/dom_value.rs
index 23ac9ba..d3e4f7b 100644
--- a/crates/vertigo/src/render/dom_value.rs
+++ b/crates/vertigo/src/render/dom_value.rs
@@ -8,8 +8,11 @@ pub fn render_value_option<T: Clone + PartialEq + 'static>(
 ) -> DomNode {
     let render = Rc::new(render);
 
+    let current_node: Rc<ValueMut<Option<DomNode>>> = Rc::new(ValueMut::new(None));
+    let first_node = current_node.clone();
+
     DomComment::new_marker("value element", move |parent_id, comment_id| {
-        let current_node: ValueMut<Option<DomNode>> = ValueMut::new(None);
+        let current_node = current_node.clone();
 
         Some(computed.clone().subscribe({
             let render = render.clone();
@@ -29,6 +32,7 @@ pub fn render_value_option<T: Clone + PartialEq + 'static>(
             }
         }))
     })
+    .with_first_content(move || first_node.map(|node| node.as_ref().map(|node| node.first_dom())))
     .into()
 }
 
-- 
2.43.0


From bce98582aa578cb3f6ef8a1e9fc12f5926a80efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 04/26] fix: release elements that carry a suspense layer when
 they are unmounted

---
 crates/vertigo/src/dom/dom_element.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/vertigo/src/dom/dom_element.rs b/crates/vertigo/src/dom/dom_element.rs
index 84e429a..5bdaf90 100644
--- a/crates/vertigo/src/dom/dom_element.rs
+++ b/crates/vertigo/src/dom/dom_element.rs
@@ -394,6 +394,8 @@ impl DomElement {
 
 impl Drop for DomElement {
     fn drop(&mut self) {
+        // The layer callback holds the class manager, which in turn holds the subscription
+        self.class_manager.set_suspense_attr(None);
         self.driver.inner.dom.remove_node(self.id_dom);
     }
 }
-- 
2.43.0


From 1bf1ce44024e83f4824230bca6b7ade4aac86604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:38 +0000
Subject: [PATCH 05/26] fix: complete a request whose answer cannot be decoded

---
 crates/vertigo/src/driver_module/api/api_import.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/vertigo/src/driver_module/api/api_import.rs b/crates/vertigo/src/driver_module/api/api_import.rs
index 13ebd9b..0f0902a 100644
--- a/crates/vertigo/src/driver_module/api/api_import.rs
+++ b/crates/vertigo/src/driver_module/api/api_import.rs
@@ -501,6 +501,7 @@ impl ApiImport {
                 }
                 Err(error) => {
                     log::error!("export_fetch_callback -> params decode error -> {error}");
+                    sender.publish(Err(error));
                     on_fetch_stop.trigger(());
                 }
             }
-- 
2.43.0


From de0a700fe293859c34c7ef982b7cf23637733323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 06/26] fix: accept css blocks whose selector or query has no
 colon

---
 crates/vertigo/src/css/transform_css/splits.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 7e00253..4b2605f 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -21,13 +21,11 @@ pub fn css_split_rows(css: &str) -> Vec<&str> {
 
     for (index, char) in css.char_indices() {
         if char == '{' {
-            if row_side == RowSideState::Right {
-                row_side = RowSideState::BracketsOpened(1);
-            } else if let RowSideState::BracketsOpened(counter) = &mut row_side {
+            if let RowSideState::BracketsOpened(counter) = &mut row_side {
                 *counter += 1;
             } else {
-                log::info!("css input: {css}");
-                panic!("unsupported use case at opening bracket");
+                // A rule can open before any ':' or '.', for example "@media print {"
+                row_side = RowSideState::BracketsOpened(1);
             }
         }
 
-- 
2.43.0


From d76a33bd077b7cdb07c23f5e534c69ac61fb15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 07/26] fix: find css brackets after characters of several
 bytes

---
 .../vertigo/src/css/transform_css/splits.rs   | 20 ++-----------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 4b2605f..62c5700 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -78,24 +78,8 @@ pub fn css_row_split_to_pair(row: &str) -> Option<(&str, String)> {
 }
 
 pub fn find_brackets(line: &str) -> Option<(&str, &str, &str)> {
-    let mut start: Option<usize> = None;
-    let mut end: Option<usize> = None;
-
-    let chars: Vec<char> = line.chars().collect();
-
-    for (index, char) in chars.iter().enumerate() {
-        if *char == '{' {
-            start = Some(index);
-            break;
-        }
-    }
-
-    for (index, char) in chars.iter().enumerate().rev() {
-        if *char == '}' {
-            end = Some(index);
-            break;
-        }
-    }
+    let start = line.find('{');
+    let end = line.rfind('}');
 
     if let (Some(start), Some(end)) = (start, end) {
         let start_word = &line[0..start];
-- 
2.43.0


From 5fac258b399d8c73f4b3e04858fb9047f367d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 08/26] fix: expand expressions anywhere in a css! value and
 keep their units attached

---
 crates/vertigo-macro/src/css.pest      |  3 ++-
 crates/vertigo-macro/src/css_parser.rs | 17 +++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo-macro/src/css.pest b/crates/vertigo-macro/src/css.pest
index 1bf91a0..49efd50 100644
--- a/crates/vertigo-macro/src/css.pest
+++ b/crates/vertigo-macro/src/css.pest
@@ -277,7 +277,8 @@ rule_ident = { (ASCII_ALPHA_LOWER | "@" | "-" ) ~ (ASCII_ALPHA_LOWER | "-")+ }
 value = _{ url_value | (simple_value)+ }
 simple_value = _{ expression | color_value | unquoted_value | quoted_value }
 
-unquoted_value = { (!semicolon ~ ANY)+ }
+unquoted_value = { (quoted_part | !(semicolon | brace_left) ~ ANY)+ }
+quoted_part = _{ PUSH(quote) ~ (!(PEEK | semicolon) ~ ANY)* ~ POP }
 quoted_value = { PUSH(quote) ~ (!PEEK ~ ANY)+ ~ POP }
 
 color_value = { hexa_value | hex_value | rgba_value | rgb_value | hsla_value | hsl_value }
diff --git a/crates/vertigo-macro/src/css_parser.rs b/crates/vertigo-macro/src/css_parser.rs
index 1366cdf..567db04 100644
--- a/crates/vertigo-macro/src/css_parser.rs
+++ b/crates/vertigo-macro/src/css_parser.rs
@@ -110,9 +110,17 @@ impl CssParser {
         let rule_ident = pairs.next().unwrap();
 
         let ident_str = rule_ident.as_str();
-        let mut value_strs = Vec::new();
+        let mut value_strs = String::new();
+        let mut last_end = None;
 
         for value in pairs {
+            // Keep parts of the value apart only if they are apart in the source (`{width}em`)
+            let span = value.as_span();
+            if last_end.is_some_and(|end| end < span.start()) {
+                value_strs.push(' ');
+            }
+            last_end = Some(span.end());
+
             let value_str = match value.as_rule() {
                 Rule::color_value => value.as_str().to_string(),
                 Rule::unquoted_value => value.as_str().to_string(),
@@ -144,13 +152,10 @@ impl CssParser {
                     "".to_string()
                 }
             };
-            value_strs.push(value_str);
+            value_strs.push_str(&value_str);
         }
 
-        format!(
-            "{ident_str}: {};",
-            value_strs.join(" ").replace("} px", "}px")
-        )
+        format!("{ident_str}: {};", value_strs.replace("} px", "}px"))
     }
 
     fn generate_animation_rule(&mut self, pair: Pair<Rule>) -> String {
-- 
2.43.0


From 936a7f9330748e07ca0d7907a247d3dea917f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 09/26] fix: follow changes of location while nothing observes
 the route

---
 crates/vertigo/src/router.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo/src/router.rs b/crates/vertigo/src/router.rs
index d82bed9..1d0dc3c 100644
--- a/crates/vertigo/src/router.rs
+++ b/crates/vertigo/src/router.rs
@@ -90,16 +90,25 @@ impl<T: Clone + ToString + From<String> + PartialEq + 'static> Router<T> {
             true => T::from(driver.inner.api.get_history_location()),
         };
 
-        let route = Value::with_connect(init_value, move |value| {
+        let value = Value::new(init_value);
+
+        let callback = {
             let value = value.clone();
-            let callback = move |url: String| {
+            move |url: String| {
                 value.set_value_and_compare(T::from(url));
-            };
-
-            match use_history_api {
-                false => driver.inner.api.on_hash_change(callback),
-                true => driver.inner.api.on_history_change(callback),
             }
+        };
+
+        let listener = match use_history_api {
+            false => driver.inner.api.on_hash_change(callback),
+            true => driver.inner.api.on_history_change(callback),
+        };
+
+        // Listen as long as the route exists, so that changes of location
+        // are not missed when nothing observes the route at that moment
+        let route = Computed::from(move |context| {
+            let _ = &listener;
+            value.get(context)
         });
 
         Self {
-- 
2.43.0


From cf7ca271c269f407d65ef592e8283a48ddda1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 10/26] fix: apply attribute removals when rendering on the
 server

---
 crates/vertigo-cli/src/serve/html/dom_command.rs |  6 ++++++
 crates/vertigo-cli/src/serve/html/element.rs     | 11 +++++++++++
 crates/vertigo-cli/src/serve/html/ordered_map.rs |  6 ++++++
 3 files changed, 23 insertions(+)

diff --git a/crates/vertigo-cli/src/serve/html/dom_command.rs b/crates/vertigo-cli/src/serve/html/dom_command.rs
index 344bf43..c0dd597 100644
--- a/crates/vertigo-cli/src/serve/html/dom_command.rs
+++ b/crates/vertigo-cli/src/serve/html/dom_command.rs
@@ -16,6 +16,8 @@ pub enum DomCommand {
         name: String,
         value: String,
     },
+    #[serde(rename = "remove_attr")]
+    RemoveAttr { id: u64, name: String },
     #[serde(rename = "remove_node")]
     RemoveNode { id: u64 },
     #[serde(rename = "remove_text")]
@@ -68,6 +70,10 @@ impl JsJsonDeserialize for DomCommand {
                 name: json.get_property(&context, "name")?,
                 value: json.get_property(&context, "value")?,
             },
+            "remove_attr" => Self::RemoveAttr {
+                id: json.get_property(&context, "id")?,
+                name: json.get_property(&context, "name")?,
+            },
             "remove_node" => Self::RemoveNode {
                 id: json.get_property(&context, "id")?,
             },
diff --git a/crates/vertigo-cli/src/serve/html/element.rs b/crates/vertigo-cli/src/serve/html/element.rs
index dbb50f1..6d3c35a 100644
--- a/crates/vertigo-cli/src/serve/html/element.rs
+++ b/crates/vertigo-cli/src/serve/html/element.rs
@@ -67,6 +67,14 @@ impl AllElements {
         element.attr.set(name, value);
     }
 
+    fn remove_attr(&mut self, id: u64, name: &str) {
+        let Some(Node::Element(element)) = self.all.get_mut(&id) else {
+            unreachable!();
+        };
+
+        element.attr.remove(name);
+    }
+
     fn remove_from_parent(&mut self, child_id: u64) {
         let Some(parent_id) = self.parent.get(&child_id) else {
             return;
@@ -130,6 +138,9 @@ impl AllElements {
                 DomCommand::SetAttr { id, name, value } => {
                     self.set_attr(id, name, value);
                 }
+                DomCommand::RemoveAttr { id, name } => {
+                    self.remove_attr(id, &name);
+                }
                 DomCommand::RemoveNode { id } => {
                     self.remove(id);
                 }
diff --git a/crates/vertigo-cli/src/serve/html/ordered_map.rs b/crates/vertigo-cli/src/serve/html/ordered_map.rs
index 21f3e63..6117e95 100644
--- a/crates/vertigo-cli/src/serve/html/ordered_map.rs
+++ b/crates/vertigo-cli/src/serve/html/ordered_map.rs
@@ -36,6 +36,12 @@ impl OrderedMap {
         }
     }
 
+    pub fn remove(&mut self, name: &str) {
+        if self.data.remove(name).is_some() {
+            self.order.retain(|item_name| item_name != name);
+        }
+    }
+
     pub fn get_iter(&self) -> Vec<(String, String)> {
         let mut result = Vec::new();
 
-- 
2.43.0


From b91ba6b18c5fec465f98353f71df893fa9939442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 11/26] fix: answer with the panic message when the application
 panics on the server

---
 .../src/serve/wasm/wasm_instance.rs           | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
index f644adc..ee05d0c 100644
--- a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
+++ b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
@@ -163,20 +163,30 @@ impl WasmInstance {
     }
 
     pub fn call_vertigo_entry_function(&mut self) {
-        self.call_function::<(u32, u32), ()>(
+        let result = self.call_function::<(u32, u32), ()>(
             "vertigo_entry_function",
             (super::VERTIGO_VERSION_MAJOR, super::VERTIGO_VERSION_MINOR),
-        )
-        .unwrap();
+        );
+
+        // A panic ends with a trap, its message has already been sent as Message::Panic
+        if let Err(error) = result {
+            log::error!("vertigo_entry_function: {error}");
+        }
     }
 
     pub fn wasm_callback(&mut self, callback_id: u64, params: JsValue) -> JsValue {
         let mut data_context = DataContext::from_store(&mut self.store, self.instance);
         let params_ptr = data_context.save_value(params);
 
-        let result = self
-            .call_function::<(u64, u32), u64>("wasm_callback", (callback_id, params_ptr))
-            .unwrap();
+        let result =
+            match self.call_function::<(u64, u32), u64>("wasm_callback", (callback_id, params_ptr)) {
+                Ok(result) => result,
+                Err(error) => {
+                    // A panic ends with a trap, its message has already been sent as Message::Panic
+                    log::error!("wasm_callback: {error}");
+                    return JsValue::Undefined;
+                }
+            };
 
         if result == 0 {
             JsValue::Undefined
-- 
2.43.0


From 7e9b515d70c02d4f720acdea663a6fa2db04443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 12/26] fix: equal requests of a page hash equally whatever the
 order of their headers

---
 crates/vertigo-cli/src/serve/wasm/message.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/message.rs b/crates/vertigo-cli/src/serve/wasm/message.rs
index 38425d9..3836d5d 100644
--- a/crates/vertigo-cli/src/serve/wasm/message.rs
+++ b/crates/vertigo-cli/src/serve/wasm/message.rs
@@ -42,10 +42,10 @@ impl Hash for FetchRequest {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.method.hash(state);
         self.url.hash(state);
-        for (key, value) in self.headers.iter() {
-            key.hash(state);
-            value.hash(state);
-        }
+        // Equal maps may iterate in different orders
+        let mut headers = self.headers.iter().collect::<Vec<_>>();
+        headers.sort();
+        headers.hash(state);
         self.body.hash(state);
     }
 }
-- 
2.43.0


From cfe9236bb7becb4a5f7809e50fe0acdbeffd7915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 13/26] fix: write numbers of request bodies the way
 JSON.stringify does

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index 2a54bb1..b5b5b7a 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -51,12 +51,23 @@ fn convert_to_jsjson(value: Value) -> JsJson {
     }
 }
 
+/// The same text as JSON.stringify: no fraction in whole numbers, null if it is not a finite number
+fn convert_number(value: f64) -> Value {
+    const MAX_SAFE_INTEGER: f64 = 9007199254740991.0;
+
+    if value.fract() == 0.0 && value.abs() <= MAX_SAFE_INTEGER {
+        return Value::Number(Number::from(value as i64));
+    }
+
+    Number::from_f64(value).map_or(Value::Null, Value::Number)
+}
+
 fn convert_to_jsvalue(value: JsJson) -> Value {
     match value {
         JsJson::True => Value::Bool(true),
         JsJson::False => Value::Bool(false),
         JsJson::Null => Value::Null,
-        JsJson::Number(value) => Value::Number(Number::from_f64(value).unwrap()),
+        JsJson::Number(value) => convert_number(value),
         JsJson::String(value) => Value::String(value),
         JsJson::List(list) => {
             let list = list.into_iter().map(convert_to_jsvalue).collect::<Vec<_>>();
-- 
2.43.0


From aa7e717f507b3dabf68d5cdb8b319e8fb577a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 14/26] fix: do not forward the length of a proxied body that
 is serialized again

---
 crates/vertigo-cli/src/serve/serve_run.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index ad0ea66..b58f07b 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -108,7 +108,10 @@ async fn get_response(target_url: String) -> Response<BoxBody> {
     response
 }
 
-async fn post_response(target_url: String, headers: HeaderMap, body: Value) -> Response<BoxBody> {
+async fn post_response(target_url: String, mut headers: HeaderMap, body: Value) -> Response<BoxBody> {
+    // The body is serialized again, so it may have a different length
+    headers.remove(header::CONTENT_LENGTH);
+
     let client = reqwest::Client::new();
     let body = serde_json::to_vec(&body).unwrap();
     let response = match client
-- 
2.43.0


From 1edd99b1b68cb88cf680b31a76cb07c91c15f220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 15/26] fix: a value with an external connection is released
 when it is dropped

---
 crates/vertigo/src/computed/value.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/computed/value.rs b/crates/vertigo/src/computed/value.rs
index 05b3b39..e0cf5cf 100644
--- a/crates/vertigo/src/computed/value.rs
+++ b/crates/vertigo/src/computed/value.rs
@@ -96,9 +96,16 @@ impl<T: Clone + 'static> Value<T> {
 
         let computed = value.to_computed();
 
-        deps.graph
-            .external_connections
-            .register_connect(id, Rc::new(move || create(&value)));
+        // The registered function must not keep the value alive
+        let weak_inner = Rc::downgrade(&value.inner);
+
+        deps.graph.external_connections.register_connect(
+            id,
+            Rc::new(move || match weak_inner.upgrade() {
+                Some(inner) => create(&Value { inner }),
+                None => DropResource::new(|| {}),
+            }),
+        );
 
         computed
     }
-- 
2.43.0


From d4044b74ec64b68b878dcfb8e7496e3bfa09fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 16/26] fix: a listener removed while an event is being
 delivered is not called any more

---
 .../vertigo/src/driver_module/event_emitter.rs   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/vertigo/src/driver_module/event_emitter.rs b/crates/vertigo/src/driver_module/event_emitter.rs
index eee1d2f..fd90d24 100644
--- a/crates/vertigo/src/driver_module/event_emitter.rs
+++ b/crates/vertigo/src/driver_module/event_emitter.rs
@@ -35,15 +35,15 @@ impl<T: Clone + Send + Sync> EventEmitter<T> {
     }
 
     pub fn trigger(&self, value: T) {
-        let callback_list = self.list.map(|state| {
-            state
-                .iter()
-                .map(|(_, callback)| callback.clone())
-                .collect::<Vec<_>>()
-        });
+        let id_list = self
+            .list
+            .map(|state| state.keys().copied().collect::<Vec<_>>());
 
-        for callback in callback_list {
-            callback(value.clone());
+        for id in id_list {
+            // The callback could have been removed by one of the previous ones
+            if let Some(callback) = self.list.get_and_clone(&id) {
+                callback(value.clone());
+            }
         }
     }
 }
-- 
2.43.0


From 0917925eceb22791abe5b05b572bf3872e721637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 17/26] fix: a proxied answer sent in chunks breaks the
 connection

---
 crates/vertigo-cli/src/serve/serve_run.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index b58f07b..f94f256 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -72,6 +72,13 @@ pub async fn run(opts: ServeOpts, port_watch: Option<u16>) -> Result<(), i32> {
     Ok(())
 }
 
+fn get_response_headers(response: &reqwest::Response) -> HeaderMap {
+    let mut headers = response.headers().clone();
+    // The body is sent again as a whole, so it isn't divided into chunks any more
+    headers.remove(header::TRANSFER_ENCODING);
+    headers
+}
+
 async fn get_response(target_url: String) -> Response<BoxBody> {
     let response = match reqwest::get(target_url.clone()).await {
         Ok(response) => response,
@@ -85,7 +92,7 @@ async fn get_response(target_url: String) -> Response<BoxBody> {
         }
     };
 
-    let headers = response.headers().clone();
+    let headers = get_response_headers(&response);
     let status = response.status();
     let body = match response.bytes().await {
         Ok(body) => body.to_vec(),
@@ -132,7 +139,7 @@ async fn post_response(target_url: String, mut headers: HeaderMap, body: Value)
         }
     };
 
-    let headers = response.headers().clone();
+    let headers = get_response_headers(&response);
     let status = response.status();
     let body = match response.bytes().await {
         Ok(body) => body.to_vec(),
-- 
2.43.0


From e38e6304515a8192cca9d9c5aae7c8df0a9e5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 18/26] fix: requests other than get and post are never
 answered on the server

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index b5b5b7a..d73e2d3 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -1,4 +1,4 @@
-use reqwest::Response;
+use reqwest::{Method, Response};
 use serde_json::{Map, Number, Value};
 use std::{
     collections::{HashMap, VecDeque},
@@ -189,14 +189,14 @@ fn get_response_type(response: &Response) -> ResponseType {
 async fn send_request_inner(request_params: Arc<FetchRequest>) -> Option<(u32, RequestBody)> {
     let client = reqwest::Client::new();
 
-    let mut request = match request_params.method.trim().to_lowercase().as_str() {
-        "get" => client.get(&request_params.url),
-        "post" => client.post(&request_params.url),
-        _ => {
-            unreachable!();
-        }
+    let method = request_params.method.trim().to_uppercase();
+    let Ok(method) = Method::from_bytes(method.as_bytes()) else {
+        log::error!("Unknown method: {method}");
+        return None;
     };
 
+    let mut request = client.request(method, &request_params.url);
+
     let headers = clear_headers(&request_params.headers);
     let (headers, body) = get_headers_and_body(headers, &request_params.body);
 
-- 
2.43.0


From cc6f5b2f3ce50d5b05191a2f428db7ecd4ad32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 19/26] fix: a changed class is shown with its old styles in
 the recreated document

---
 crates/vertigo/src/inspect.rs | 37 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/crates/vertigo/src/inspect.rs b/crates/vertigo/src/inspect.rs
index 68f8f68..33d70b4 100644
--- a/crates/vertigo/src/inspect.rs
+++ b/crates/vertigo/src/inspect.rs
@@ -60,29 +60,12 @@ impl DomDebugFragment {
                 }
                 DriverDomCommand::SetAttr { id, name, value } => {
                     if let Some(node) = map.get_mut(&id) {
-                        if name == "class".into() {
-                            if let Some(new_styles) = css.get(&format!(".{value}")) {
-                                let mut styles = String::new();
-                                if let Some(old_styles) = node.attrs.get(&("style".into())) {
-                                    styles.push_str(old_styles);
-                                }
-                                styles.push_str(new_styles);
-                                node.attrs.insert("style".into(), styles);
-                            } else {
-                                node.attrs.insert(name, value);
-                            }
-                        } else {
-                            node.attrs.insert(name, value);
-                        }
+                        node.attrs.insert(name, value);
                     }
                 }
                 DriverDomCommand::RemoveAttr { id, name } => {
                     if let Some(node) = map.get_mut(&id) {
-                        if name == "class".into() {
-                            // TODO
-                        } else {
-                            node.attrs.remove(&name);
-                        }
+                        node.attrs.remove(&name);
                     }
                 }
                 DriverDomCommand::RemoveNode { id }
@@ -164,6 +147,22 @@ impl DomDebugFragment {
             }
         }
 
+        // Show styles instead of the generated class
+        for node in map.values_mut() {
+            let styles = node
+                .attrs
+                .get(&("class".into()))
+                .and_then(|class| css.get(&format!(".{class}")));
+
+            if let Some(styles) = styles {
+                node.attrs
+                    .entry("style".into())
+                    .or_default()
+                    .push_str(styles);
+                node.attrs.remove(&("class".into()));
+            }
+        }
+
         // Try to return real root node
         let root_node = if let Some(root_node) = map
             .iter()
-- 
2.43.0


From 9a2e3aff0eb811bb7f0e0e5ece5ac8ac2913da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 20/26] fix: a replaced value is released after the new one is
 in place

---
 crates/vertigo/src/computed/struct_mut/value_mut.rs | 12 ++++++++----
 crates/vertigo/src/computed/value.rs                |  7 +++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo/src/computed/struct_mut/value_mut.rs b/crates/vertigo/src/computed/struct_mut/value_mut.rs
index 2a8e56b..48c5796 100644
--- a/crates/vertigo/src/computed/struct_mut/value_mut.rs
+++ b/crates/vertigo/src/computed/struct_mut/value_mut.rs
@@ -13,7 +13,12 @@ impl<T> ValueMut<T> {
     }
 
     pub fn set(&self, value: T) {
-        *self.value.get_mut() = value;
+        drop(self.replace(value));
+    }
+
+    /// Returns the previous value, so that it gets dropped when the new one is already in place.
+    pub fn replace(&self, value: T) -> T {
+        std::mem::replace(self.value.get_mut(), value)
     }
 
     pub fn map<K>(&self, fun: impl Fn(&T) -> K) -> K {
@@ -52,9 +57,8 @@ impl<T: Clone> ValueMut<T> {
 
 impl<T: PartialEq> ValueMut<T> {
     pub fn set_and_check(&self, value: T) -> bool {
-        let state = self.value.get_mut();
-        let is_change = *state != value;
-        *state = value;
+        let is_change = *self.value.get() != value;
+        self.set(value);
         is_change
     }
 }
diff --git a/crates/vertigo/src/computed/value.rs b/crates/vertigo/src/computed/value.rs
index e0cf5cf..5795dda 100644
--- a/crates/vertigo/src/computed/value.rs
+++ b/crates/vertigo/src/computed/value.rs
@@ -112,8 +112,9 @@ impl<T: Clone + 'static> Value<T> {
 
     pub fn set(&self, value: T) {
         self.inner.deps.transaction(|_| {
-            self.inner.value.set(value);
+            let prev_value = self.inner.value.replace(value);
             self.inner.deps.report_set(self.inner.id);
+            drop(prev_value);
         });
     }
 
@@ -167,10 +168,12 @@ impl<T: Clone + 'static> ToComputed<T> for &Value<T> {
 impl<T: Clone + PartialEq + 'static> Value<T> {
     pub fn set_value_and_compare(&self, value: T) {
         self.inner.deps.transaction(|_| {
-            let need_refresh = self.inner.value.set_and_check(value);
+            let need_refresh = self.inner.value.map(|prev_value| *prev_value != value);
+            let prev_value = self.inner.value.replace(value);
             if need_refresh {
                 self.inner.deps.report_set(self.inner.id);
             }
+            drop(prev_value);
         });
     }
 }
-- 
2.43.0


From e48c4fd8ada7fcb9aa27fee09d59a7602e5fdcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 21/26] fix: build finds the program in the target directory of
 the workspace

---
 crates/vertigo-cli/src/build/build_run.rs   |  4 ++--
 crates/vertigo-cli/src/build/find_target.rs | 16 +++++++---------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/crates/vertigo-cli/src/build/build_run.rs b/crates/vertigo-cli/src/build/build_run.rs
index 33346d0..6af0ef1 100644
--- a/crates/vertigo-cli/src/build/build_run.rs
+++ b/crates/vertigo-cli/src/build/build_run.rs
@@ -47,7 +47,7 @@ pub fn run_with_ws(opts: BuildOpts, ws: &Workspace) -> Result<(), i32> {
 
     // Delete rlibs to re-generate static files
 
-    find_package_rlib_in_target(&package_name).remove_file();
+    find_package_rlib_in_target(&package_name, ws).remove_file();
 
     // Run build
 
@@ -80,7 +80,7 @@ pub fn run_with_ws(opts: BuildOpts, ws: &Workspace) -> Result<(), i32> {
 
     // Copy .wasm to destination
 
-    let wasm_path_target = find_wasm_in_target(&package_name);
+    let wasm_path_target = find_wasm_in_target(&package_name, ws);
     let wasm_path = opts.new_path_in_static_from(&wasm_path_target);
 
     // Optimize .wasm
diff --git a/crates/vertigo-cli/src/build/find_target.rs b/crates/vertigo-cli/src/build/find_target.rs
index 49a2cb4..594728e 100644
--- a/crates/vertigo-cli/src/build/find_target.rs
+++ b/crates/vertigo-cli/src/build/find_target.rs
@@ -1,19 +1,17 @@
-use std::path::PathBuf;
+use super::{cargo_workspace::Workspace, wasm_path::WasmPath};
 
-use super::wasm_path::WasmPath;
-
-pub fn find_wasm_in_target(package_name: &str) -> WasmPath {
+pub fn find_wasm_in_target(package_name: &str, ws: &Workspace) -> WasmPath {
     let wasm_file_name = package_name.replace('-', "_");
-    let path = PathBuf::from(format!(
-        "target/wasm32-unknown-unknown/release/{wasm_file_name}.wasm"
+    let path = ws.get_target_dir().join(format!(
+        "wasm32-unknown-unknown/release/{wasm_file_name}.wasm"
     ));
     WasmPath::new(path)
 }
 
-pub fn find_package_rlib_in_target(package_name: &str) -> WasmPath {
+pub fn find_package_rlib_in_target(package_name: &str, ws: &Workspace) -> WasmPath {
     let wasm_file_name = package_name.replace('-', "_");
-    let path = PathBuf::from(format!(
-        "target/wasm32-unknown-unknown/release/deps/lib{wasm_file_name}.rlib"
+    let path = ws.get_target_dir().join(format!(
+        "wasm32-unknown-unknown/release/deps/lib{wasm_file_name}.rlib"
     ));
     WasmPath::new(path)
 }
-- 
2.43.0


From f300d4aa8fe5d5988c313ec3bed8dbdb06447e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 22/26] fix: watch sends its events on the configured port

---
 crates/vertigo-cli/src/watch/watch_run.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index b0a7d48..5a04af0 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -110,8 +110,10 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
             .with(cors_middleware)
             .data(rx);
 
+        let port_watch = opts.port_watch;
+
         async move {
-            Server::new(TcpListener::bind("127.0.0.1:5555"))
+            Server::new(TcpListener::bind(format!("127.0.0.1:{port_watch}")))
                 .run(app)
                 .await
         }
-- 
2.43.0


From da5efea87e78471e6109b0b40a719e82dcddf978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 23/26] fix: watch does not rebuild because of its own
 destination

---
 crates/vertigo-cli/src/watch/watch_run.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index 5a04af0..6fda04f 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -58,7 +58,12 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
         return Err(-1);
     };
 
-    let excludes = [path.join("target"), path.join(opts.common.dest_dir.clone())];
+    // The destination is relative to the working directory, not to the package
+    let dest_dir = std::env::current_dir()
+        .unwrap_or_default()
+        .join(&opts.common.dest_dir);
+
+    let excludes = [path.join("target"), ws.get_target_dir(), dest_dir];
 
     let notify_build = Arc::new(Notify::new());
 
-- 
2.43.0


From fa444464431d9d496edcda997efa81ef8cd3f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:42 +0000
Subject: [PATCH 24/26] fix: included files go where the build collects them,
 whatever the target directory

---
 crates/vertigo-cli/src/build/cargo_build.rs |  1 +
 crates/vertigo-macro/src/include_static.rs  | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/vertigo-cli/src/build/cargo_build.rs b/crates/vertigo-cli/src/build/cargo_build.rs
index 82600bd..c4a4fba 100644
--- a/crates/vertigo-cli/src/build/cargo_build.rs
+++ b/crates/vertigo-cli/src/build/cargo_build.rs
@@ -22,6 +22,7 @@ pub fn run_cargo_build(
         .add_param("--package")
         .add_param(package_name)
         .env("VERTIGO_PUBLIC_PATH", public_path)
+        .env("CARGO_TARGET_DIR", ws.get_target_dir().to_string_lossy())
         .error_allowed(true)
         .output_with_status();
 
diff --git a/crates/vertigo-macro/src/include_static.rs b/crates/vertigo-macro/src/include_static.rs
index 88e27aa..d037547 100644
--- a/crates/vertigo-macro/src/include_static.rs
+++ b/crates/vertigo-macro/src/include_static.rs
@@ -40,15 +40,17 @@ fn bundle_file(mut file_path: PathBuf, file: String) -> Result<String, String> {
         let file_name = file_path.file_name();
         let file_static_target = {
             let mut target_path = WasmPath::new(PathBuf::from(
-                std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| {
-                    format!(
-                        "target/{}/release",
-                        std::env::var("TARGET")
-                            .unwrap_or_else(|_| "wasm32-unknown-unknown".to_string())
-                    )
-                }),
+                std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "target".to_string()),
             ));
-            target_path.push(&["static", "included", file_name.as_str()]);
+            let target = std::env::var("TARGET")
+                .unwrap_or_else(|_| "wasm32-unknown-unknown".to_string());
+            target_path.push(&[
+                target.as_str(),
+                "release",
+                "static",
+                "included",
+                file_name.as_str(),
+            ]);
             target_path
         };
 
-- 
2.43.0


From 6c38c9c47375073aa90a9166098b5915585e3f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:42 +0000
Subject: [PATCH 25/26] fix: window! and document! take the value of the name,
 however it is written

---
 crates/vertigo-macro/src/api_access.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/vertigo-macro/src/api_access.rs b/crates/vertigo-macro/src/api_access.rs
index 53f3327..c9c0d25 100644
--- a/crates/vertigo-macro/src/api_access.rs
+++ b/crates/vertigo-macro/src/api_access.rs
@@ -19,8 +19,7 @@ pub(crate) fn api_access_inner(root: &str, input: TokenStream) -> TokenStream {
         Expr::Lit(expr_lit) => {
             match expr_lit.lit {
                 Lit::Str(param_lit) => {
-                    let param_repr = param_lit.token().to_string();
-                    let param_str = param_repr.trim_matches('"');
+                    let param_str = param_lit.value();
                     if let Some(func_name) = param_str.strip_suffix("()") {
                         // Function call
                         let mut args = vec![];
-- 
2.43.0


From 8aae6a9b3c821a3b7803a87808f4f53cc33b3350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:00 +0000
Subject: [PATCH 26/26] fix: a failed optimization leaves nothing in the
 destination of a build

---
 crates/vertigo-cli/src/build/build_run.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/build/build_run.rs b/crates/vertigo-cli/src/build/build_run.rs
index 6af0ef1..71adff7 100644
--- a/crates/vertigo-cli/src/build/build_run.rs
+++ b/crates/vertigo-cli/src/build/build_run.rs
@@ -92,7 +92,8 @@ pub fn run_with_ws(opts: BuildOpts, ws: &Workspace) -> Result<(), i32> {
             wasm_path.remove_file();
             wasm_path_hash
         } else {
-            // copy without optimization
+            // copy without optimization (and without what the optimizer may have left)
+            wasm_path.remove_file();
             let wasm_content = wasm_path_target.read();
             wasm_path.save_with_hash(wasm_content.as_slice())
         };
-- 
2.43.0

