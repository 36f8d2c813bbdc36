From eaeec22ae2032ce577782e36dd3f9a7b6285678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 01/49] fix: bind every path against the last bound value

The model used to be a projection filled with nulls, so first update with
null/absent values left placeholders on screen, leaf arrays and objects were
merged into stale copies (or panicked when an array shrank), nested arrays
shared one default item, regrown list items kept texts of removed ones and
object messages lost unbound fields.
---
 src/view_model.rs | 211 ++++++++++++++++------------------------------
 1 file changed, 72 insertions(+), 139 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 2e36b42..1070492 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -18,8 +18,10 @@ pub type Transformer = fn(Value) -> Value;
 
 pub struct ViewModel {
     pub(crate) bindings: Bindings,
-    model: Value,
-    model_array_default: HashMap<String, Value>,
+    /// Shape of the model: every path used by bindings, `null` marks a leaf.
+    schema: Value,
+    /// Last bound value, `None` until the first update.
+    model: Option<Value>,
     pub(crate) transformers: HashMap<String, Transformer>,
     // state
     // pub(crate) focus: Option<NodeId>,
@@ -32,13 +34,11 @@ pub struct ViewModel {
 }
 
 impl ViewModel {
-    pub fn create(bindings: Bindings, model: Value) -> Self {
-        let mut model_array_default = HashMap::new();
-        Self::memorize_array_default("", &model, &mut model_array_default);
+    pub fn create(bindings: Bindings, schema: Value) -> Self {
         Self {
             bindings,
-            model,
-            model_array_default,
+            schema,
+            model: None,
             transformers: default_transformers(),
             mouse: [0.0, 0.0],
             elements_under_mouse: Vec::new(),
@@ -49,159 +49,88 @@ impl ViewModel {
         }
     }
 
-    fn memorize_array_default(
-        type_path: &str,
-        value: &Value,
-        default: &mut HashMap<String, Value>,
-    ) {
-        match value {
-            Value::Array(array) => {
-                default.insert(type_path.to_string(), array[0].clone());
-                Self::memorize_array_default(type_path, &array[0], default)
-            }
-            Value::Object(object) => {
-                for (key, value) in object {
-                    Self::memorize_array_default(&format!("{type_path}/{key}"), value, default)
-                }
-            }
-            _ => {}
-        }
-    }
-
     pub fn bind(&mut self, value: &Value) -> Vec<Reaction> {
         let mut reactions = vec![];
-        Self::bind_value(
-            &mut self.model,
-            value,
-            "",
-            "",
-            &self.bindings,
-            &mut reactions,
-            &self.transformers,
-            &self.model_array_default,
-        );
+        if self.model.as_ref() != Some(value) {
+            Self::bind_value(
+                &self.schema,
+                self.model.as_ref(),
+                value,
+                "",
+                &self.bindings,
+                &mut reactions,
+                &self.transformers,
+            );
+            self.model = Some(value.clone());
+        }
         reactions
     }
 
+    /// Collects reactions on difference between previously bound value and the next one.
+    /// Absent previous value means that nothing was bound to the path yet, so all bindings
+    /// of the path must react.
     pub fn bind_value(
-        mut dst: &mut Value,
-        src: &Value,
+        schema: &Value,
+        previous: Option<&Value>,
+        next: &Value,
         path: &str,
-        arrays_path: &str,
         bindings: &Bindings,
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
-        default: &HashMap<String, Value>,
-    ) -> bool {
-        match (&mut dst, src) {
-            (Value::Array(current), Value::Array(next)) => {
-                let mut array_changed = false;
-                if current.len() != next.len() {
-                    if let Some(default) = default.get(arrays_path).cloned() {
-                        array_changed = true;
-                        current.resize(next.len(), default);
-                        Self::react(path, src, bindings, reactions, transformers);
-                    } else {
-                        error!("unable to resize array {path} default not found");
+    ) {
+        if previous == Some(next) {
+            return;
+        }
+        match schema {
+            Value::Array(items) => {
+                let previous_len = previous.map(|value| value.as_array().map_or(0, Vec::len));
+                let next_len = next.as_array().map_or(0, Vec::len);
+                let resized = previous_len != Some(next_len);
+                Self::react(path, next, resized, bindings, reactions, transformers);
+                let is_repeated = bindings.get(path).is_some_and(|bindings| {
+                    bindings.iter().any(|binding| binding.is_repeat())
+                });
+                for (index, schema) in items.iter().enumerate() {
+                    if is_repeated && index >= next_len {
+                        // nothing to bind, repeated element is hidden
+                        break;
                     }
-                }
-                for (index, dst) in current.iter_mut().enumerate() {
-                    let src = &next[index];
                     let path = format!("{path}/{index}");
-                    let changed = Self::bind_value(
-                        dst,
-                        src,
-                        &path,
-                        arrays_path,
-                        bindings,
-                        reactions,
-                        transformers,
-                        default,
-                    );
-                    array_changed = array_changed || changed;
-                }
-                array_changed
-            }
-            (Value::Array(current), Value::Null) => {
-                if current.len() != 0 {
-                    current.clear();
-                    Self::react(
-                        path,
-                        &Value::Array(vec![]),
-                        bindings,
-                        reactions,
-                        transformers,
-                    );
-                    true
-                } else {
-                    false
-                }
-            }
-            (Value::Array(_), _) => {
-                error!("unable to bind '{path}', must be array");
-                false
-            }
-            (Value::Object(object), Value::Object(src)) => {
-                let mut object_changed = false;
-                for (key, dst) in object.iter_mut() {
-                    let path = format!("{path}/{key}");
-                    let arrays_path = format!("{arrays_path}/{key}");
-                    let undefined = Value::Null;
-                    let src = match src.get(key) {
-                        Some(src) => src,
-                        None => {
-                            // error!("unable to bind '{path}', must be specified");
-                            &undefined
-                        }
+                    let previous = match previous_len {
+                        Some(len) if index < len => previous.and_then(|value| value.get(index)),
+                        Some(_) if index >= next_len => Some(&Value::Null),
+                        _ => None,
                     };
-                    let changed = Self::bind_value(
-                        dst,
-                        src,
+                    let next = next.get(index).unwrap_or(&Value::Null);
+                    Self::bind_value(
+                        schema,
+                        previous,
+                        next,
                         &path,
-                        &arrays_path,
                         bindings,
                         reactions,
                         transformers,
-                        default,
                     );
-                    object_changed = object_changed || changed;
                 }
-                if object_changed {
-                    Self::react(path, &json!({}), bindings, reactions, transformers);
-                }
-                object_changed
             }
-            (Value::Object(object), Value::Null) => {
-                let mut object_changed = false;
-                for (key, dst) in object.iter_mut() {
+            Value::Object(fields) => {
+                for (key, schema) in fields {
                     let path = format!("{path}/{key}");
-                    let arrays_path = format!("{arrays_path}/{key}");
-                    let changed = Self::bind_value(
-                        dst,
-                        &Value::Null,
+                    let previous = previous.map(|value| value.get(key).unwrap_or(&Value::Null));
+                    let next = next.get(key).unwrap_or(&Value::Null);
+                    Self::bind_value(
+                        schema,
+                        previous,
+                        next,
                         &path,
-                        &arrays_path,
                         bindings,
                         reactions,
                         transformers,
-                        default,
                     );
-                    object_changed = object_changed || changed;
-                }
-                if object_changed {
-                    Self::react(path, &Value::Null, bindings, reactions, transformers);
-                }
-                object_changed
-            }
-            (dst, src) => {
-                if *dst != src {
-                    **dst = src.clone();
-                    Self::react(path, src, bindings, reactions, transformers);
-                    true
-                } else {
-                    false
                 }
+                Self::react(path, next, true, bindings, reactions, transformers);
             }
+            _ => Self::react(path, next, true, bindings, reactions, transformers),
         }
     }
 
@@ -209,12 +138,17 @@ impl ViewModel {
     fn react(
         path: &str,
         value: &Value,
+        resized: bool,
         bindings: &Bindings,
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
     ) {
         if let Some(bindings) = bindings.get(path) {
             for binding in bindings {
+                if !resized && binding.is_repeat() && binding.pipe.is_empty() {
+                    // count of repeated elements is the same
+                    continue;
+                }
                 if binding.pipe.len() > 0 {
                     let mut value = value.clone();
                     for name in &binding.pipe {
@@ -460,13 +394,8 @@ impl ViewModel {
                         }
                     },
                     HandlerArgument::Binder { path, pipe } => {
-                        let mut value = match self.model.pointer(&path).cloned() {
-                            Some(value) => value,
-                            None => {
-                                error!("unable to get value at {path:?}, not found");
-                                continue;
-                            }
-                        };
+                        let value = self.model.as_ref().and_then(|model| model.pointer(path));
+                        let mut value = value.cloned().unwrap_or_default();
                         for name in pipe {
                             match self.transformers.get(name) {
                                 Some(transform) => value = transform(value),
@@ -613,6 +542,10 @@ pub enum BindingParams {
 }
 
 impl Binding {
+    fn is_repeat(&self) -> bool {
+        matches!(self.params, BindingParams::Repeat(..))
+    }
+
     fn react_value_change(&self, value: &Value) -> Reaction {
         match self.params.clone() {
             BindingParams::Visibility(parent, node, visible) => {
-- 
2.43.0


From 848239207b71503b2534a2dc17915b4fe0040c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 02/49] fix: insert repeated elements in definition order

Items of a growing list were appended after following siblings.
---
 src/view.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/view.rs b/src/view.rs
index 447100f..0645d13 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -238,9 +238,15 @@ impl View {
                 let visible = self.tree.children(parent)?;
                 let shown = &children[start..cursor];
                 let hidden = &children[cursor..end];
-                for node in shown {
+                for (index, node) in shown.iter().enumerate() {
                     if !visible.contains(node) {
-                        self.tree.add_child(parent, *node)?;
+                        let preceding = &children[..start + index];
+                        let current = self.tree.children(parent)?;
+                        let index = current
+                            .iter()
+                            .filter(|child| preceding.contains(child))
+                            .count();
+                        self.tree.insert_child_at_index(parent, index, *node)?;
                     }
                 }
                 for node in hidden {
-- 
2.43.0


From c997a2e1ab3769d7ba52f6d08499359babe1ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 03/49] fix: resolve repeated array before shadowing of loop
 variable

A loop over own name of outer variable (*item="2 {item.children}") was bound
to the path of a global value.
---
 src/rendering.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index a090120..ce8ed62 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -262,9 +262,11 @@ impl Renderer {
                             .entry(array.clone())
                             .or_default()
                             .push(binding);
+                        let paths: Vec<String> = (0..count)
+                            .map(|n| self.schema.index(binder, n, &self.locals))
+                            .collect();
                         let overridden = self.locals.remove(name);
-                        for n in 0..count {
-                            let path = self.schema.index(binder, n, &self.locals);
+                        for path in paths {
                             self.locals.insert(name.to_string(), path);
                             let child = child.clone();
                             let child = self.render_node(child)?;
-- 
2.43.0


From d6651ed9435189eef0603df36ba6151037365bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 04/49] fix: forget previous identifier of element when bound
 id changes

---
 src/view.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/view.rs b/src/view.rs
index 0645d13..437f549 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -286,6 +286,7 @@ impl View {
                     }
                 }
                 if key == "id" {
+                    self.identified.retain(|_, identified| *identified != node);
                     self.identified.insert(value.clone(), node);
                 }
                 match (element.tag.as_str(), key.as_str()) {
-- 
2.43.0


From 36fa93c9ebf621e96a44eea79ffdfec5fbfc599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 05/49] fix: match adjacent sibling selector against preceding
 sibling

Index of the sibling was shifted twice: underflow panic for the second child,
wrong element for the others.
---
 src/css/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 6619247..ddd6cb4 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -55,7 +55,7 @@ fn find_next_target(combinator: char, target: &mut NodeId, tree: &TaffyTree<Elem
                     .iter()
                     .skip(1)
                     .position(|child| *child == *target)
-                    .and_then(|child| children.get(child - 1).cloned())
+                    .and_then(|child| children.get(child).cloned())
             }),
         _ => {
             // TODO: multi-target selector match
-- 
2.43.0


From afb34b5c2c0feb484e8c50194bfb7a1574cddefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 06/49] fix: match [attr|=value] by 'value-' prefix

---
 src/css/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index ddd6cb4..6893259 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -103,7 +103,7 @@ fn match_simple_selector(
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
                     Matcher::Include => attr.split(" ").any(|word| word == value),
-                    Matcher::DashMatch => attr == value || attr == &format!("-{value}"),
+                    Matcher::DashMatch => attr == value || attr.starts_with(&format!("{value}-")),
                     Matcher::Prefix => attr.starts_with(value),
                     Matcher::Substring => attr.contains(value),
                     Matcher::Suffix => attr.ends_with(value),
-- 
2.43.0


From b8b3f51867f3b0a439acd93dd4f7f0cb41c0456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 07/49] fix: keep rules which depend on dynamic ancestors or
 siblings

Rule was considered static by hints of the target only, so '.open > div' was
discarded or applied forever when class of the parent is bound.
---
 src/css/matching.rs |  9 +++++++++
 src/element.rs      |  6 ++++++
 src/view.rs         | 25 ++++++++++++++++---------
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 6893259..6388297 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -150,6 +150,15 @@ impl Style {
         })
     }
 
+    pub fn has_sibling_combinator(&self) -> bool {
+        self.selectors.iter().any(|complex| {
+            complex
+                .selectors
+                .iter()
+                .any(|selector| selector.as_combinator() == Some('+'))
+        })
+    }
+
     pub fn has_pseudo_class_selector(&self) -> bool {
         self.selectors.iter().any(|complex| {
             complex.selectors.iter().any(|selector| match selector {
diff --git a/src/element.rs b/src/element.rs
index 4331351..c9ba1b7 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -80,6 +80,12 @@ impl ElementStyleHints {
     pub fn has_dynamic_properties(&self) -> bool {
         self.has_dynamic_attrs() || self.has_dynamic_classes || self.has_dynamic_id
     }
+
+    pub fn extend(&mut self, other: &ElementStyleHints) {
+        self.dynamic_attrs.extend(other.dynamic_attrs.iter().cloned());
+        self.has_dynamic_classes |= other.has_dynamic_classes;
+        self.has_dynamic_id |= other.has_dynamic_id;
+    }
 }
 
 impl Element {
diff --git a/src/view.rs b/src/view.rs
index 437f549..ac48bdd 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -5,7 +5,7 @@ use crate::rendering::{Renderer, RendererTranslator};
 use crate::styles::{inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
 use crate::view_model::{Reaction, ViewModel};
-use crate::{BindingParams, Element, ElementStyle, Fonts, Input, Output, Transformer, ViewError};
+use crate::{BindingParams, Element, ElementStyle, ElementStyleHints, Fonts, Input, Output, Transformer, ViewError};
 use log::error;
 use mesura::GaugeValue;
 use serde_json::Value;
@@ -89,7 +89,7 @@ impl View {
             metrics: ViewMetrics::new(),
             identified,
         };
-        view.calculate_elements_stylesheet(body)?;
+        view.calculate_elements_stylesheet(body, &ElementStyleHints::default())?;
         view.apply_default_bindings_state()?;
         Ok(view)
     }
@@ -324,22 +324,29 @@ impl View {
         Ok(())
     }
 
-    fn calculate_elements_stylesheet(&mut self, node: NodeId) -> Result<(), ViewError> {
+    fn calculate_elements_stylesheet(
+        &mut self,
+        node: NodeId,
+        ancestors: &ElementStyleHints,
+    ) -> Result<(), ViewError> {
         struct Matcher;
         impl PseudoClassMatcher for Matcher {
             fn has_pseudo_class(&self, _element: &Element, _class: &str) -> bool {
                 true
             }
         }
+        // selectors can depend on the element itself or on any of its ancestors
+        let mut hints = self.tree.get_element(node)?.style_hints.clone();
+        hints.extend(ancestors);
         for style in self.css.styles.iter() {
             let matches_ignoring_pseudo = match_style(style, node, &self.tree, &Matcher);
             let element = self.tree.get_element_mut(node)?;
-            let hints = &element.style_hints;
             let has_pseudo = style.has_pseudo_class_selector();
-            let is_static = !hints.has_dynamic_properties()
-                || (!style.has_attrs_selector(&hints.dynamic_attrs)
-                    && (!hints.has_dynamic_classes || !style.has_class_selector())
-                    && (!hints.has_dynamic_id || !style.has_id_selector()));
+            let is_static = !style.has_sibling_combinator()
+                && (!hints.has_dynamic_properties()
+                    || (!style.has_attrs_selector(&hints.dynamic_attrs)
+                        && (!hints.has_dynamic_classes || !style.has_class_selector())
+                        && (!hints.has_dynamic_id || !style.has_id_selector())));
             if matches_ignoring_pseudo {
                 if is_static && !has_pseudo {
                     element.styles.push(ElementStyle::Static(style.clone()));
@@ -356,7 +363,7 @@ impl View {
         }
         let children = self.tree.children(node)?;
         for child in children {
-            self.calculate_elements_stylesheet(child)?;
+            self.calculate_elements_stylesheet(child, &hints)?;
         }
         Ok(())
     }
-- 
2.43.0


From d942eda22de9123fdaa788dfcf382fdea5be53d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 08/49] fix: remove aliased mutable references from cascade

An exclusive reference to the element was alive while selectors of the same
element were matched through the tree.
---
 src/styles/mod.rs | 34 +++++++++++++++++++++-------------
 src/view.rs       | 37 +++++++++++++++++++------------------
 2 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 76607ea..fb5accd 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -14,7 +14,7 @@ pub use scrolling::*;
 
 use log::error;
 use std::collections::HashMap;
-use taffy::{NodeId, TaffyTree};
+use taffy::TaffyTree;
 
 use crate::css::{
     match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PseudoClassMatcher,
@@ -59,20 +59,13 @@ impl<'c> Cascade<'c> {
         }
     }
 
-    pub fn apply_styles(
+    /// Computes element style from CSS rules and inline declarations.
+    pub fn compute_styles(
         &mut self,
-        input: &Input,
-        node: NodeId,
+        element: &Element,
         tree: &TaffyTree<Element>,
-        parent: &Element,
-        layout: &mut taffy::Style,
-        element: &mut Element,
         matcher: &impl PseudoClassMatcher,
-    ) {
-        // -1: initial
-        reset_element_style(element);
-        // 0: inheritance
-        inherit::inherit(parent, element);
+    ) -> ComputedStyle {
         // 1: css rules
         let mut computed_style = HashMap::new();
         for style in element.styles.iter() {
@@ -83,7 +76,7 @@ impl<'c> Cascade<'c> {
                 }
                 ElementStyle::Dynamic(style) => {
                     self.stats.matches_dynamic += 1;
-                    if match_style(&style, node, tree, matcher) {
+                    if match_style(&style, element.node, tree, matcher) {
                         self.compute_declaration_block(&style.declaration, &mut computed_style);
                     }
                 }
@@ -93,6 +86,21 @@ impl<'c> Cascade<'c> {
         if !element.style.is_empty() {
             self.compute_declaration_block(&element.style, &mut computed_style);
         }
+        computed_style
+    }
+
+    pub fn apply_styles(
+        &mut self,
+        input: &Input,
+        mut computed_style: ComputedStyle,
+        parent: &Element,
+        layout: &mut taffy::Style,
+        element: &mut Element,
+    ) {
+        // -1: initial
+        reset_element_style(element);
+        // 0: inheritance
+        inherit::inherit(parent, element);
         // 3: animations
         let time = input.time.as_secs_f32();
         for animator in element.animators.iter_mut() {
diff --git a/src/view.rs b/src/view.rs
index ac48bdd..36cde5d 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -375,29 +375,29 @@ impl View {
         mut sizes: Sizes,
         variables: Variables,
     ) -> Result<(), ViewError> {
-        let parent = unsafe {
-            let ptr = self
-                .tree
-                .parent(node)
-                .and_then(|parent| self.tree.get_node_context(parent))
-                .ok_or(ViewError::ParentNotFound(node))? as *const Element;
-            // TODO:
-            &*ptr
-        };
-        let mut layout = self.tree.style(node)?.clone();
-        let element = unsafe {
-            let ptr = self.tree.get_element_mut(node)? as *mut Element;
-            &mut *ptr
-        };
+        let parent = self
+            .tree
+            .parent(node)
+            .ok_or(ViewError::ParentNotFound(node))?;
 
-        if element.text.is_some() {
+        if self.tree.get_element(node)?.text.is_some() {
+            let [parent, element] = self
+                .tree
+                .get_disjoint_node_context_mut([parent, node])
+                .ok_or(ViewError::ElementNotFound(node))?;
             inherit(parent, element);
             return Ok(());
         }
 
         self.metrics.cascades.inc();
+        let mut layout = self.tree.style(node)?.clone();
         let mut cascade = Cascade::new(&self.css, sizes, variables);
-        cascade.apply_styles(input, node, &self.tree, parent, &mut layout, element, self);
+        let computed_style = cascade.compute_styles(self.tree.get_element(node)?, &self.tree, self);
+        let [parent, element] = self
+            .tree
+            .get_disjoint_node_context_mut([parent, node])
+            .ok_or(ViewError::ElementNotFound(node))?;
+        cascade.apply_styles(input, computed_style, parent, &mut layout, element);
         let stats = cascade.stats;
         self.metrics.styles.set(self.css.styles.len());
         let cascade_metrics = &mut self.metrics.cascade;
@@ -415,6 +415,7 @@ impl View {
 
         // self.tree.set_node_context(node, Some(element));
 
+        let element = self.tree.get_element(node)?;
         match element.tag.as_str() {
             "img" => {
                 // self.render_img(current_id, &element, tree);
@@ -438,10 +439,10 @@ impl View {
             "track" => {}
             "wbr" => {}
             _ => {
+                sizes.parent_font_size = element.font.size;
+                sizes.parent_color = element.color;
                 let children = self.tree.children(node)?;
                 for child in children {
-                    sizes.parent_font_size = element.font.size;
-                    sizes.parent_color = element.color;
                     self.apply_styles(child, input, sizes, variables.clone())?;
                 }
             }
-- 
2.43.0


From ff6274438012f5e6f618121f93b7b830a4be66ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 09/49] fix: reset layout, visibility and cursor when rule
 stops matching

---
 src/styles/default.rs | 2 ++
 src/view.rs           | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/styles/default.rs b/src/styles/default.rs
index 3f85bcf..8f1a595 100644
--- a/src/styles/default.rs
+++ b/src/styles/default.rs
@@ -28,6 +28,8 @@ pub(crate) fn reset_element_style(element: &mut Element) {
         align: TextAlign::Start,
     };
     element.self_opacity = 1.0;
+    element.pointer = Pointer::Auto;
+    element.visible = true;
 }
 
 pub fn create_element(node: NodeId) -> Element {
diff --git a/src/view.rs b/src/view.rs
index 36cde5d..fd7205a 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -2,7 +2,7 @@ use crate::css::{match_style, read_css, read_inline_css, Css, PseudoClassMatcher
 use crate::html::{read_html, ElementBinding, Html};
 use crate::metrics::ViewMetrics;
 use crate::rendering::{Renderer, RendererTranslator};
-use crate::styles::{inherit, Cascade, Scrolling, Sizes, Variables};
+use crate::styles::{default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
 use crate::view_model::{Reaction, ViewModel};
 use crate::{BindingParams, Element, ElementStyle, ElementStyleHints, Fonts, Input, Output, Transformer, ViewError};
@@ -390,7 +390,7 @@ impl View {
         }
 
         self.metrics.cascades.inc();
-        let mut layout = self.tree.style(node)?.clone();
+        let mut layout = default_layout();
         let mut cascade = Cascade::new(&self.css, sizes, variables);
         let computed_style = cascade.compute_styles(self.tree.get_element(node)?, &self.tree, self);
         let [parent, element] = self
-- 
2.43.0


From b16f386521325975ea6aef4862e78f382906f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 10/49] fix: drop animations and transitions of rules which
 stopped matching

Animators were never removed nor reset: a class toggled off kept its
animation running, animation-play-state stayed paused forever.
---
 src/animation.rs    |  9 +++++++++
 src/styles/apply.rs | 13 +++++++++++--
 src/styles/mod.rs   | 19 ++++++++++++++++++-
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 9f40a49..ee2b8a4 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -114,6 +114,15 @@ impl Animator {
         self.time = 0.0;
     }
 
+    /// Resets configuration to initial values, keeps progress of the animation.
+    pub fn reset(&mut self) {
+        *self = Self {
+            name: std::mem::take(&mut self.name),
+            time: self.time,
+            ..Self::default()
+        }
+    }
+
     pub fn play(&mut self, time: f32, tracks: &Vec<AnimationTrack>, style: &mut ComputedStyle) {
         if let Some(time) = self.update(time) {
             let step = (time * 100.0) as u32;
diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 934bb8d..ffd781d 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -249,7 +249,12 @@ impl<'c> Cascade<'c> {
                     Some(key) => key,
                     None => return CascadeError::invalid_keyword(name),
                 };
-                element.get_transition_mut(index).key = Some(key);
+                let transition = element.get_transition_mut(index);
+                if transition.key != Some(key) {
+                    transition.key = Some(key);
+                    transition.range = None;
+                    transition.animator.restart();
+                }
             }
             (PropertyKey::TransitionDuration, Time(duration)) => {
                 element.get_transition_mut(index).animator.duration = *duration;
@@ -265,7 +270,11 @@ impl<'c> Cascade<'c> {
             // Animation
             //
             (PropertyKey::AnimationName, Keyword(name)) => {
-                element.get_animator_mut(index).name = name.to_string();
+                let animator = element.get_animator_mut(index);
+                if animator.name != *name {
+                    animator.name = name.to_string();
+                    animator.restart();
+                }
             }
             (PropertyKey::AnimationDelay, Time(delay)) => {
                 element.get_animator_mut(index).delay = *delay;
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index fb5accd..9ac0bb1 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -17,7 +17,7 @@ use std::collections::HashMap;
 use taffy::TaffyTree;
 
 use crate::css::{
-    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PseudoClassMatcher,
+    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PropertyKey, PseudoClassMatcher,
     Shorthand, Variable,
 };
 
@@ -102,6 +102,7 @@ impl<'c> Cascade<'c> {
         // 0: inheritance
         inherit::inherit(parent, element);
         // 3: animations
+        retain_animations(element, &computed_style);
         let time = input.time.as_secs_f32();
         for animator in element.animators.iter_mut() {
             // TODO: animation blending
@@ -121,6 +122,12 @@ impl<'c> Cascade<'c> {
         for transition in element.transitions.iter_mut() {
             transition.play(time, &mut computed_style);
         }
+        for animator in element.animators.iter_mut() {
+            animator.reset();
+        }
+        for transition in element.transitions.iter_mut() {
+            transition.animator.reset();
+        }
         for (property, value) in &computed_style {
             if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                 error!("unable to apply {property:?}:{value:?} because of {error:?}");
@@ -186,6 +193,16 @@ impl<'c> Cascade<'c> {
     }
 }
 
+/// Drops animations and transitions which are not declared anymore.
+fn retain_animations(element: &mut Element, style: &ComputedStyle) {
+    let layers = |key| {
+        let layers = style.keys().filter(|property| property.key == key);
+        layers.map(|property| property.index + 1).max().unwrap_or(0)
+    };
+    element.animators.truncate(layers(PropertyKey::AnimationName));
+    element.transitions.truncate(layers(PropertyKey::TransitionProperty));
+}
+
 #[derive(Clone, Copy)]
 pub struct Sizes {
     pub root_font_size: f32,
-- 
2.43.0


From 095ec5f4c1319f1f5d8ca085b8dabfe5c22e7b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 11/49] fix: bound transition and animation progress for any
 duration

A transition of a property without initial value looped forever, delayed one
jumped to its target and back, zero duration produced NaN, and big time with a
tiny (or negative) duration never left the wrap-around loop.
---
 src/animation.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index ee2b8a4..1d520f9 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -47,9 +47,11 @@ impl Transition {
             Some(key) => key,
             None => return,
         };
-        let time = match self.animator.update(time) {
-            Some(time) => time,
-            None => return,
+        let time = if self.animator.duration > 0.0 {
+            // start value is kept until delay ends
+            self.animator.update(time).unwrap_or(0.0)
+        } else {
+            1.0
         };
         let mut index = 0;
         loop {
@@ -60,9 +62,7 @@ impl Transition {
             };
             let (from, to) = match self.range.as_ref() {
                 Some(range) => range,
-                None => {
-                    continue;
-                }
+                None => return,
             };
             let current = animate(key, &from, &to, time);
             if to != value {
@@ -158,22 +158,26 @@ impl Animator {
     }
 
     pub fn update(&mut self, time: f32) -> Option<f32> {
-        if self.running && self.duration > 0.0 {
+        if self.duration <= 0.0 {
+            return None;
+        }
+        if self.running {
             self.time += time;
         }
         let t = self.time - self.delay;
         if t < 0.0 {
             return None;
         }
-        let mut t = match self.iterations {
-            AnimationIterations::Number(iterations) => t.min(iterations * self.duration),
-            AnimationIterations::Infinite => t,
+        let cycles = t / self.duration;
+        let cycles = match self.iterations {
+            AnimationIterations::Number(iterations) => cycles.min(iterations),
+            AnimationIterations::Infinite => cycles,
+        };
+        // whole cycle stops at last frame 1.0 (100%) instead of the first one
+        let x = match cycles.fract() {
+            0.0 if cycles > 0.0 => 1.0,
+            x => x,
         };
-        // use this loop instead of % to stop at last frame 1.0 (100%)
-        while t > self.duration {
-            t -= self.duration;
-        }
-        let x = t / self.duration;
         Some(x)
     }
 }
-- 
2.43.0


From c293c23f83f49e35c360c9d8680e660e42568a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 12/49] fix: interpolate between unitless zero and numbers or
 lengths

'opacity: 0' to 'opacity: 1' jumped in the middle instead of fading.
---
 src/animation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index 1d520f9..4a36748 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -201,6 +201,10 @@ pub fn animate(_key: PropertyKey, a: &ComputedValue, b: &ComputedValue, t: f32)
             }
         }
         (Zero, Percentage(b)) => percentage(&0.0, b, t),
+        (Number(a), Zero) => number(a, &0.0, t),
+        (Zero, Number(b)) => number(&0.0, b, t),
+        (Dimension(a), Zero) => dimension(a, &Dim::new(0.0, a.unit), t),
+        (Zero, Dimension(b)) => dimension(&Dim::new(0.0, b.unit), b, t),
         (Dimension(a), Dimension(b)) => dimension(a, b, t),
         (Color(a), Color(b)) => color(a, b, t),
         (a, b) => {
-- 
2.43.0


From 9f0e548e7bad0902ed62edbd451d58f0ee9a6800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 13/49] fix: accept unitless zero for flex factors and border
 radius

---
 src/styles/apply.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index ffd781d..dac952d 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -234,7 +234,9 @@ impl<'c> Cascade<'c> {
             }
             (PropertyKey::FlexBasis, value) => layout.flex_basis = dimension(value, self)?,
             (PropertyKey::FlexGrow, ComputedValue::Number(value)) => layout.flex_grow = *value,
+            (PropertyKey::FlexGrow, ComputedValue::Zero) => layout.flex_grow = 0.0,
             (PropertyKey::FlexShrink, ComputedValue::Number(value)) => layout.flex_shrink = *value,
+            (PropertyKey::FlexShrink, ComputedValue::Zero) => layout.flex_shrink = 0.0,
             (PropertyKey::ColumnGap, column) => {
                 layout.gap.width = lengthp(column, self)?;
             }
@@ -512,6 +514,7 @@ fn dimension(value: &ComputedValue, cascade: &Cascade) -> Result<Dimension, Casc
 
 fn length(value: &ComputedValue, cascade: &Cascade) -> Result<Length, CascadeError> {
     let value = match value {
+        ComputedValue::Zero => Length::zero(),
         ComputedValue::Dimension(dimension) => {
             let length = parse_dimension_length(dimension, cascade)?;
             Length::Number(length)
-- 
2.43.0


From 25821abd017c760e72080a22b77584cb6bb0647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 14/49] fix: measure text again when inherited font changes

---
 src/element.rs | 4 ++--
 src/view.rs    | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index c9ba1b7..052f224 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -284,7 +284,7 @@ pub enum ObjectFit {
     ScaleDown,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub struct FontFace {
     /// The font family.
     pub family: String,
@@ -303,7 +303,7 @@ pub struct FontFace {
     pub align: TextAlign,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub enum TextAlign {
     Start,
     End,
diff --git a/src/view.rs b/src/view.rs
index fd7205a..56c6458 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -385,7 +385,12 @@ impl View {
                 .tree
                 .get_disjoint_node_context_mut([parent, node])
                 .ok_or(ViewError::ElementNotFound(node))?;
+            let font = element.font.clone();
             inherit(parent, element);
+            if element.font != font {
+                // text must be measured again
+                self.tree.mark_dirty(node)?;
+            }
             return Ok(());
         }
 
-- 
2.43.0


From 42bac547cb7c6b9efb953498f10e189545e99079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 15/49] fix: keep scroll range non-negative when only one axis
 overflows

Negative range of the other axis shifted children of the element.
---
 src/styles/scrolling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/styles/scrolling.rs b/src/styles/scrolling.rs
index 5c7b80a..a9db294 100644
--- a/src/styles/scrolling.rs
+++ b/src/styles/scrolling.rs
@@ -17,8 +17,8 @@ impl Scrolling {
             .map(|current| [current.x, current.y])
             .unwrap_or_default();
         if content.width > size.width || content.height > size.height {
-            let scroll_x = content.width - size.width;
-            let scroll_y = content.height - size.height;
+            let scroll_x = (content.width - size.width).max(0.0);
+            let scroll_y = (content.height - size.height).max(0.0);
             let scrolling = Scrolling {
                 x: x.min(scroll_x),
                 y: y.min(scroll_y),
-- 
2.43.0


From 3b2040efd39188f538ed81d21ac2865e4452b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 16/49] fix: reject cyclic CSS variables

A variable which depends on itself overflowed the stack.
---
 src/styles/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 9ac0bb1..ce44ece 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -13,6 +13,7 @@ pub use inherit::inherit;
 pub use scrolling::*;
 
 use log::error;
+use std::cell::RefCell;
 use std::collections::HashMap;
 use taffy::TaffyTree;
 
@@ -29,6 +30,8 @@ use crate::{Element, ElementStyle, Input};
 pub struct Cascade<'c> {
     css: &'c Css,
     pub variables: Variables,
+    /// Variables being computed right now.
+    resolving: RefCell<Vec<String>>,
     sizes: Sizes,
     pub stats: CascadeStats,
 }
@@ -54,6 +57,7 @@ impl<'c> Cascade<'c> {
         Self {
             css,
             variables,
+            resolving: RefCell::default(),
             sizes,
             stats: CascadeStats::default(),
         }
@@ -174,7 +178,14 @@ impl<'c> Cascade<'c> {
                             continue;
                         }
                     };
+                    if self.resolving.borrow().contains(name) {
+                        error!("unable to compute variable {name}, cyclic dependency");
+                        shorthand.push(ComputedValue::Error);
+                        continue;
+                    }
+                    self.resolving.borrow_mut().push(name.clone());
                     self.compute_shorthand(definition, shorthand);
+                    self.resolving.borrow_mut().pop();
                 }
                 Definition::Function(function) => self.compute_function(function, shorthand),
                 Definition::Explicit(value) => shorthand.push(value.clone()),
-- 
2.43.0


From 17f92749235338616bc96359fc8ea65a2fddc4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 17/49] fix: replace all layers of overridden declaration

Layers of 'background: red, blue' or 'transition' lists survived a shorter
list declared later.
---
 src/styles/compute_style.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index 4160380..d87bece 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -16,6 +16,13 @@ impl<'c> Cascade<'c> {
             return;
         }
         let mut overwrite = |key: PropertyKey, value: &ComputedValue| {
+            if index == 0 {
+                // declaration replaces all layers of the previous one
+                let mut layer = 1;
+                while style.remove(&PropertyDescriptor::new(key, layer)).is_some() {
+                    layer += 1;
+                }
+            }
             style.insert(PropertyDescriptor::new(key, index), value.clone())
         };
         match (key, shorthand.as_slice()) {
-- 
2.43.0


From d88f8e6613b50af168e8caa86854500755a3f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 18/49] fix: read two-value gap as row and column

---
 src/styles/compute_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index d87bece..5ffc7bd 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -182,7 +182,7 @@ impl<'c> Cascade<'c> {
                 overwrite(PropertyKey::Bottom, value);
                 overwrite(PropertyKey::Left, value);
             }
-            (PropertyKey::Gap, [column, row]) => {
+            (PropertyKey::Gap, [row, column]) => {
                 overwrite(PropertyKey::RowGap, row);
                 overwrite(PropertyKey::ColumnGap, column);
             }
-- 
2.43.0


From 385e9e57baa37f0c185679bd99a02ed6ea62170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 19/49] fix: keep spaces after binders in attribute bindings

@class="{a} b" was rendered as 'Ab'.
---
 src/html/html.pest | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index abaa099..f4b231c 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -73,7 +73,11 @@ AliasBinding = { "+" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
 TagBinding = { "#" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
-AttributeBinding = { "@" ~ Key ~ "=" ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\"" }
+// compound-atomic, because spaces between binders are part of the value
+AttributeBinding = ${
+    "@" ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ WHITESPACE*
+    ~ (Binder | DoubleQuotedAttributeString)+ ~ "\""
+}
 
 DoubleQuotedAttributeString = @{ DoubleQuotedAttributeChar+ }
 
-- 
2.43.0


From fb632be28d8396a56b887881a4704a62a7b44ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 20/49] fix: parse tags which start with name of a void tag

<column> or <basement> was read as void <col> and <base>.
---
 src/html/html.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index f4b231c..9bc0982 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -20,7 +20,7 @@ Children = { Content* }
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
 Void = { "<" ~ VoidTag ~ Attributes ~ ("/")? ~ ">" }
 
-VoidTag = {
+VoidTag = @{ (
     ^"area"
     | ^"base"
     | ^"br"
@@ -37,7 +37,7 @@ VoidTag = {
     | ^"source"
     | ^"track"
     | ^"wbr"
-}
+) ~ !TChar }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
 Tag = @{ TChar+ }
-- 
2.43.0


From 1cac20255e4f051c6bf700b6ed4e0029b96ab4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 21/49] fix: stop unquoted attribute value at space or end of
 tag

---
 src/html/html.pest | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index 9bc0982..c9d8850 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -101,7 +101,7 @@ Count = { ASCII_DIGIT* }
 DoubleQuoted = { Name ~ "=" ~ "\"" ~ Value ~ "\"" }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
-Unquoted = { Name ~ "=" ~ Value }
+Unquoted = { Name ~ "=" ~ UnquotedValue }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Empty = { Name }
@@ -128,6 +128,12 @@ KChar = { ASCII_ALPHA | ASCII_DIGIT | "-" | "_" }
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Value = @{ VChar* }
 
+// https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
+UnquotedValue = @{ UChar+ }
+
+// https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
+UChar = { !("\"" | "'" | "=" | "<" | ">" | "`" | "/>" | WHITESPACE) ~ ANY }
+
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 VChar = {
     !("\"" | "\\") ~ ANY
-- 
2.43.0


From f21510625f6a81b24e9e0228e4a6b457724fb960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 22/49] fix: separate binders placed on different lines by
 space

---
 src/html/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index 5f2adaa..e9b6e02 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -178,7 +178,7 @@ fn parse_content(pair: Pair<Rule>, is_last_content: bool) -> Html {
             let mut spans = vec![];
 
             for index in 0..count {
-                let _is_next_binding = if let Some(TextSpan::Binder(_)) = prefetch.get(index + 1) {
+                let is_next_binding = if let Some(TextSpan::Binder(_)) = prefetch.get(index + 1) {
                     true
                 } else {
                     false
@@ -190,7 +190,7 @@ fn parse_content(pair: Pair<Rule>, is_last_content: bool) -> Html {
                         for (index, fragment) in string.split("\n").enumerate() {
                             if index != 0 {
                                 let fragment = fragment.trim_start();
-                                if !fragment.is_empty() || !is_last_content {
+                                if !fragment.is_empty() || !is_last_content || is_next_binding {
                                     text.push(' ');
                                     text.push_str(fragment);
                                 }
-- 
2.43.0


From eda8946a3ce5c3961f513b5aeeed3e58465972fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 23/49] fix: report position and hover at the moment of each
 mouse event

Position of the last move in a frame was reported for all events, and buttons
preceding the move were routed by hover of the previous frame.
---
 src/view_model.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 1070492..1109d2e 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -175,18 +175,8 @@ impl ViewModel {
         body: NodeId,
         tree: &mut TaffyTree<Element>,
     ) -> Result<Output, ViewError> {
-        let mut has_mouse_move = false;
         let mut events = input.events.clone();
-        for event in events.iter() {
-            match *event {
-                InputEvent::MouseMove(mouse) => {
-                    self.mouse = mouse;
-                    has_mouse_move = true;
-                }
-                _ => {}
-            }
-        }
-        if !has_mouse_move {
+        if !matches!(events.first(), Some(InputEvent::MouseMove(_))) {
             // fake event to recalculate hovers event user not move mouse
             // need because CSS animation can change elements size and we need handle this
             // TODO: proper solution to fix problem
@@ -219,6 +209,7 @@ impl ViewModel {
             match event {
                 InputEvent::Unknown => {}
                 InputEvent::MouseMove(position) => {
+                    self.mouse = position;
                     let previous_update = take(&mut self.elements_under_mouse);
                     self.calculate_mouse_hovers(tree, body, position)?;
                     for node in previous_update.iter().rev() {
-- 
2.43.0


From 50ef2ce6d0d4068ccd94e7951619170cabbc7d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 24/49] fix: do not panic on negative or huge value of duration
 transformer

---
 src/view_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 1109d2e..ca2998e 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -686,10 +686,10 @@ impl Schema {
 
 fn default_transformers() -> HashMap<String, Transformer> {
     fn duration(value: Value) -> Value {
-        match value.as_f64() {
+        let seconds = value.as_f64();
+        match seconds.and_then(|seconds| Duration::try_from_secs_f64(seconds).ok()) {
             None => value,
             Some(value) => {
-                let value = Duration::from_secs_f64(value);
                 let value = format!("{value:?}");
                 Value::String(value)
             }
-- 
2.43.0


From 7dd35bd3483b3113c131720238b9795f2861a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 25/49] fix: take element out of the tree while styles are
 applied

slotmap get_disjoint_mut hands out overlapping references under stacked
borrows.
---
 src/view.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/view.rs b/src/view.rs
index 56c6458..aa1008e 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -2,7 +2,7 @@ use crate::css::{match_style, read_css, read_inline_css, Css, PseudoClassMatcher
 use crate::html::{read_html, ElementBinding, Html};
 use crate::metrics::ViewMetrics;
 use crate::rendering::{Renderer, RendererTranslator};
-use crate::styles::{default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
+use crate::styles::{create_element, default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
 use crate::view_model::{Reaction, ViewModel};
 use crate::{BindingParams, Element, ElementStyle, ElementStyleHints, Fonts, Input, Output, Transformer, ViewError};
@@ -381,13 +381,12 @@ impl View {
             .ok_or(ViewError::ParentNotFound(node))?;
 
         if self.tree.get_element(node)?.text.is_some() {
-            let [parent, element] = self
-                .tree
-                .get_disjoint_node_context_mut([parent, node])
-                .ok_or(ViewError::ElementNotFound(node))?;
+            let mut element = std::mem::replace(self.tree.get_element_mut(node)?, create_element(node));
             let font = element.font.clone();
-            inherit(parent, element);
-            if element.font != font {
+            inherit(self.tree.get_element(parent)?, &mut element);
+            let is_font_changed = element.font != font;
+            *self.tree.get_element_mut(node)? = element;
+            if is_font_changed {
                 // text must be measured again
                 self.tree.mark_dirty(node)?;
             }
@@ -398,11 +397,10 @@ impl View {
         let mut layout = default_layout();
         let mut cascade = Cascade::new(&self.css, sizes, variables);
         let computed_style = cascade.compute_styles(self.tree.get_element(node)?, &self.tree, self);
-        let [parent, element] = self
-            .tree
-            .get_disjoint_node_context_mut([parent, node])
-            .ok_or(ViewError::ElementNotFound(node))?;
-        cascade.apply_styles(input, computed_style, parent, &mut layout, element);
+        let mut element = std::mem::replace(self.tree.get_element_mut(node)?, create_element(node));
+        let parent = self.tree.get_element(parent)?;
+        cascade.apply_styles(input, computed_style, parent, &mut layout, &mut element);
+        *self.tree.get_element_mut(node)? = element;
         let stats = cascade.stats;
         self.metrics.styles.set(self.css.styles.len());
         let cascade_metrics = &mut self.metrics.cascade;
-- 
2.43.0


From 3a80bd610f3037e49d45111cbdc202ebed0f7331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 26/49] fix: restore outer variable when alias is declared
 twice

Link and template root with the same alias leaked it to following siblings.
---
 src/rendering.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index ce8ed62..a1d1995 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -234,10 +234,8 @@ impl Renderer {
                     for binding in &child.bindings {
                         if let ElementBinding::Alias(name, binder) = binding {
                             let path = self.schema.field(binder, &mut self.locals);
-                            overridden.insert(
-                                name.to_string(),
-                                self.locals.insert(name.to_string(), path),
-                            );
+                            let outer = self.locals.insert(name.to_string(), path);
+                            overridden.entry(name.to_string()).or_insert(outer);
                         }
                     }
 
-- 
2.43.0


From d15e10da427945b51cbdfbfc39317db6988c4c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 27/49] fix: return error for template which links itself

Rendering overflowed the stack.
---
 src/error.rs     |  1 +
 src/rendering.rs | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 0bb9ea5..3f70974 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -19,6 +19,7 @@ pub enum ViewError {
     ElementInvalidBehaviour,
     AttributeBindingNotFound(String),
     TemplateNotFound(String),
+    TemplateRecursion(String),
 }
 
 impl From<TaffyError> for ViewError {
diff --git a/src/rendering.rs b/src/rendering.rs
index a1d1995..22ebfb3 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -14,6 +14,8 @@ pub struct Renderer {
     pub locals: HashMap<String, String>,
     pub schema: Schema,
     pub templates: HashMap<String, Html>,
+    /// Templates being rendered right now.
+    pub active_templates: Vec<String>,
     pub static_id: HashMap<String, NodeId>,
     pub translator: Box<dyn RendererTranslator>,
 }
@@ -31,6 +33,7 @@ impl Renderer {
             locals,
             schema,
             templates,
+            active_templates: vec![],
             static_id,
             translator,
         }
@@ -216,12 +219,17 @@ impl Renderer {
             "wbr" => {}
             _ => {
                 for child in template.children {
+                    let active_templates = self.active_templates.len();
                     let child = if let Some((id, mut bindings)) = child.as_template_link() {
                         let mut template = self
                             .templates
                             .get(&id)
-                            .ok_or(ViewError::TemplateNotFound(id))?
+                            .ok_or_else(|| ViewError::TemplateNotFound(id.clone()))?
                             .clone();
+                        if self.active_templates.contains(&id) {
+                            return Err(ViewError::TemplateRecursion(id));
+                        }
+                        self.active_templates.push(id);
                         // handle link bindings first
                         bindings.extend(template.bindings);
                         template.bindings = bindings;
@@ -287,6 +295,7 @@ impl Renderer {
                             self.locals.remove(&key);
                         }
                     }
+                    self.active_templates.truncate(active_templates);
                 }
             }
         }
-- 
2.43.0


From ddaa91903e5967bcd800499a3bc1f8ffb9d37d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 28/49] fix: forget transition of property which is not
 declared anymore

A value declared again moved from the one which was removed long ago.
---
 src/animation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index 4a36748..c5fb0b0 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -58,7 +58,13 @@ impl Transition {
             let descriptor = PropertyDescriptor::new(key, index);
             let value = match style.get(&descriptor) {
                 Some(value) => value,
-                None => return,
+                None => {
+                    if index == 0 {
+                        // property is not declared anymore, nothing to continue from
+                        self.range = None;
+                    }
+                    return;
+                }
             };
             let (from, to) = match self.range.as_ref() {
                 Some(range) => range,
-- 
2.43.0


From cb2c04059abc9a38a8437663713c94292103f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 29/49] fix: do not take spaces after transformer as part of
 its name

---
 src/html/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index e9b6e02..a5a1108 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -257,7 +257,7 @@ fn parse_binder(pair: Pair<Rule>) -> Binder {
                     .map(|key| key.as_str().to_string())
                     .collect();
             }
-            Rule::Transformer => pipe.push(next.as_str().to_string()),
+            Rule::Transformer => pipe.push(next.as_str().trim_end().to_string()),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From 194c69cbb07f2f11602bffd521415e13fc985ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 30/49] fix: treat CRLF inside text as a line break

---
 src/html/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index a5a1108..67224e4 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -187,7 +187,7 @@ fn parse_content(pair: Pair<Rule>, is_last_content: bool) -> Html {
                 match span {
                     TextSpan::String(string) => {
                         let mut text = String::new();
-                        for (index, fragment) in string.split("\n").enumerate() {
+                        for (index, fragment) in string.replace("\r\n", "\n").split("\n").enumerate() {
                             if index != 0 {
                                 let fragment = fragment.trim_start();
                                 if !fragment.is_empty() || !is_last_content || is_next_binding {
-- 
2.43.0


From 20c95ebfb7f82433a23941580eb4577d3f877e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 31/49] fix: keep leading spaces of attribute values

---
 src/html/html.pest | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index c9d8850..754d464 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -73,9 +73,9 @@ AliasBinding = { "+" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
 TagBinding = { "#" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
-// compound-atomic, because spaces between binders are part of the value
+// compound-atomic, because spaces are part of the value
 AttributeBinding = ${
-    "@" ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ WHITESPACE*
+    "@" ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\""
     ~ (Binder | DoubleQuotedAttributeString)+ ~ "\""
 }
 
@@ -98,7 +98,8 @@ RepeatBinding = { "*" ~ Key ~ "=" ~ "\"" ~ Count ~ Binder ~ "\"" }
 Count = { ASCII_DIGIT* }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
-DoubleQuoted = { Name ~ "=" ~ "\"" ~ Value ~ "\"" }
+// compound-atomic, because spaces are part of the value
+DoubleQuoted = ${ Name ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ Value ~ "\"" }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Unquoted = { Name ~ "=" ~ UnquotedValue }
-- 
2.43.0


From f3505c7e5c4c780e85d0e45c217b43e0ad45e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 32/49] fix: do not round large integers in unsigned conversion

---
 src/value.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 3c8552c..0299d4b 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -30,9 +30,10 @@ impl ValueExtensions for Value {
                     0
                 }
             }
-            Value::Number(number) => match number.as_f64() {
-                None => 0,
-                Some(number) => number as u64,
+            Value::Number(number) => match (number.as_u64(), number.as_f64()) {
+                (Some(number), _) => number,
+                (None, Some(number)) => number as u64,
+                (None, None) => 0,
             },
             Value::String(string) => string.parse::<u64>().unwrap_or(0),
             Value::Array(_) => 0,
-- 
2.43.0


From 8b745f4f6b81cc030c0f16beb67734a1883b695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 33/49] fix: show new value at once when transition has no
 duration

---
 src/animation.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index c5fb0b0..b466028 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -47,12 +47,13 @@ impl Transition {
             Some(key) => key,
             None => return,
         };
-        let time = if self.animator.duration > 0.0 {
-            // start value is kept until delay ends
-            self.animator.update(time).unwrap_or(0.0)
-        } else {
-            1.0
-        };
+        if self.animator.duration <= 0.0 {
+            // new value is shown at once
+            self.range = None;
+            return;
+        }
+        // start value is kept until delay ends
+        let time = self.animator.update(time).unwrap_or(0.0);
         let mut index = 0;
         loop {
             let descriptor = PropertyDescriptor::new(key, index);
-- 
2.43.0


From cd5f11cd4273b05d264fcd0dee41ad8ba7ddb381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 34/49] fix: keep transition ranges of every layer of a
 property

---
 src/animation.rs    | 68 +++++++++++++++++++++------------------------
 src/styles/apply.rs |  2 +-
 2 files changed, 32 insertions(+), 38 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index b466028..f95583d 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -8,7 +8,8 @@ use crate::Rgba;
 pub struct Transition {
     pub key: Option<PropertyKey>,
     pub animator: Animator,
-    pub range: Option<(ComputedValue, ComputedValue)>,
+    /// Start and end values of every layer of the property.
+    pub ranges: Vec<(ComputedValue, ComputedValue)>,
 }
 
 impl Default for Transition {
@@ -16,29 +17,22 @@ impl Default for Transition {
         Self {
             key: None,
             animator: Default::default(),
-            range: None,
+            ranges: vec![],
         }
     }
 }
 
 impl Transition {
     pub fn init_after_style_applied(&mut self, style: &mut ComputedStyle) {
-        if self.range.is_some() {
+        if !self.ranges.is_empty() {
             return;
         }
         let key = match self.key {
             Some(key) => key,
             None => return,
         };
-        let mut index = 0;
-        loop {
-            let descriptor = PropertyDescriptor::new(key, index);
-            let value = match style.get(&descriptor) {
-                Some(value) => value,
-                None => return,
-            };
-            self.range = Some((value.clone(), value.clone()));
-            index += 1;
+        for value in layers(key, style) {
+            self.ranges.push((value.clone(), value));
         }
     }
 
@@ -49,41 +43,41 @@ impl Transition {
         };
         if self.animator.duration <= 0.0 {
             // new value is shown at once
-            self.range = None;
+            self.ranges.clear();
             return;
         }
         // start value is kept until delay ends
         let time = self.animator.update(time).unwrap_or(0.0);
-        let mut index = 0;
-        loop {
-            let descriptor = PropertyDescriptor::new(key, index);
-            let value = match style.get(&descriptor) {
-                Some(value) => value,
-                None => {
-                    if index == 0 {
-                        // property is not declared anymore, nothing to continue from
-                        self.range = None;
-                    }
-                    return;
-                }
-            };
-            let (from, to) = match self.range.as_ref() {
-                Some(range) => range,
-                None => return,
-            };
-            let current = animate(key, &from, &to, time);
-            if to != value {
-                self.range = Some((current.clone(), value.clone()));
-                self.animator.restart();
-            }
+        let values = layers(key, style);
+        if values.len() != self.ranges.len() {
+            // property or some of its layers are not declared anymore, nothing to continue from
+            self.ranges.clear();
+            return;
+        }
+        let mut changed = false;
+        for (index, value) in values.iter().enumerate() {
+            let (from, to) = &self.ranges[index];
+            let current = animate(key, from, to, time);
+            changed |= to != value;
             if &current != value {
-                style.insert(descriptor, current);
+                style.insert(PropertyDescriptor::new(key, index), current);
             }
-            index += 1;
+        }
+        if changed {
+            // every layer continues from the value it shows now
+            let current = layers(key, style);
+            self.ranges = current.into_iter().zip(values).collect();
+            self.animator.restart();
         }
     }
 }
 
+fn layers(key: PropertyKey, style: &ComputedStyle) -> Vec<ComputedValue> {
+    (0..)
+        .map_while(|index| style.get(&PropertyDescriptor::new(key, index)).cloned())
+        .collect()
+}
+
 #[derive(Clone)]
 pub struct Animator {
     pub(crate) name: String,
diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index dac952d..5ea8ad9 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -254,7 +254,7 @@ impl<'c> Cascade<'c> {
                 let transition = element.get_transition_mut(index);
                 if transition.key != Some(key) {
                     transition.key = Some(key);
-                    transition.range = None;
+                    transition.ranges.clear();
                     transition.animator.restart();
                 }
             }
-- 
2.43.0


From ea5aefbb8e224b2c368ec1a8b2dc666a6642aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:42 +0000
Subject: [PATCH 35/49] fix: stop animations and transitions at once when
 others replace them

---
 src/styles/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index ce44ece..9fdb8bd 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -18,10 +18,11 @@ use std::collections::HashMap;
 use taffy::TaffyTree;
 
 use crate::css::{
-    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PropertyKey, PseudoClassMatcher,
-    Shorthand, Variable,
+    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PropertyDescriptor, PropertyKey,
+    PseudoClassMatcher, Shorthand, Variable,
 };
 
+use crate::animation::{Animator, Transition};
 use crate::styles::stats::CascadeStats;
 use crate::{Element, ElementStyle, Input};
 
@@ -204,7 +205,7 @@ impl<'c> Cascade<'c> {
     }
 }
 
-/// Drops animations and transitions which are not declared anymore.
+/// Drops animations and transitions which are not declared anymore or replaced by other ones.
 fn retain_animations(element: &mut Element, style: &ComputedStyle) {
     let layers = |key| {
         let layers = style.keys().filter(|property| property.key == key);
@@ -212,6 +213,21 @@ fn retain_animations(element: &mut Element, style: &ComputedStyle) {
     };
     element.animators.truncate(layers(PropertyKey::AnimationName));
     element.transitions.truncate(layers(PropertyKey::TransitionProperty));
+    let declared = |key, index| match style.get(&PropertyDescriptor::new(key, index)) {
+        Some(ComputedValue::Keyword(name)) => Some(name),
+        _ => None,
+    };
+    for (index, animator) in element.animators.iter_mut().enumerate() {
+        if declared(PropertyKey::AnimationName, index) != Some(&animator.name) {
+            *animator = Animator::default();
+        }
+    }
+    for (index, transition) in element.transitions.iter_mut().enumerate() {
+        let name = declared(PropertyKey::TransitionProperty, index);
+        if name.and_then(|name| PropertyKey::parse(name)) != transition.key {
+            *transition = Transition::default();
+        }
+    }
 }
 
 #[derive(Clone, Copy)]
-- 
2.43.0


From cc02c957e718e51f2a3f51c0a0d96cbb6960ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 36/49] fix: keep pace of animations running for long

---
 src/animation.rs  | 17 +++++++++--------
 src/styles/mod.rs |  2 +-
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index f95583d..1adad2d 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -36,7 +36,7 @@ impl Transition {
         }
     }
 
-    pub fn play(&mut self, time: f32, style: &mut ComputedStyle) {
+    pub fn play(&mut self, time: f64, style: &mut ComputedStyle) {
         let key = match self.key {
             Some(key) => key,
             None => return,
@@ -91,7 +91,8 @@ pub struct Animator {
     pub(crate) timing: TimingFunction,
     pub(crate) iterations: AnimationIterations,
     pub(crate) running: bool,
-    pub(crate) time: f32,
+    /// Time accumulates over the whole life of the animation, single precision is not enough for it.
+    pub(crate) time: f64,
 }
 
 impl Default for Animator {
@@ -124,7 +125,7 @@ impl Animator {
         }
     }
 
-    pub fn play(&mut self, time: f32, tracks: &Vec<AnimationTrack>, style: &mut ComputedStyle) {
+    pub fn play(&mut self, time: f64, tracks: &Vec<AnimationTrack>, style: &mut ComputedStyle) {
         if let Some(time) = self.update(time) {
             let step = (time * 100.0) as u32;
             for track in tracks {
@@ -158,20 +159,20 @@ impl Animator {
         }
     }
 
-    pub fn update(&mut self, time: f32) -> Option<f32> {
+    pub fn update(&mut self, time: f64) -> Option<f32> {
         if self.duration <= 0.0 {
             return None;
         }
         if self.running {
             self.time += time;
         }
-        let t = self.time - self.delay;
+        let t = self.time - self.delay as f64;
         if t < 0.0 {
             return None;
         }
-        let cycles = t / self.duration;
+        let cycles = t / self.duration as f64;
         let cycles = match self.iterations {
-            AnimationIterations::Number(iterations) => cycles.min(iterations),
+            AnimationIterations::Number(iterations) => cycles.min(iterations as f64),
             AnimationIterations::Infinite => cycles,
         };
         // whole cycle stops at last frame 1.0 (100%) instead of the first one
@@ -179,7 +180,7 @@ impl Animator {
             0.0 if cycles > 0.0 => 1.0,
             x => x,
         };
-        Some(x)
+        Some(x as f32)
     }
 }
 
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 9fdb8bd..cbeab29 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -108,7 +108,7 @@ impl<'c> Cascade<'c> {
         inherit::inherit(parent, element);
         // 3: animations
         retain_animations(element, &computed_style);
-        let time = input.time.as_secs_f32();
+        let time = input.time.as_secs_f64();
         for animator in element.animators.iter_mut() {
             // TODO: animation blending
             let animation = match self.css.animations.get(&animator.name) {
-- 
2.43.0


From 1992e1a29328947b337551c8e799059a7fe298db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 37/49] fix: reset values omitted in transition and animation
 shorthands

---
 src/styles/compute_style.rs | 57 ++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index 5ffc7bd..60001aa 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -1,5 +1,6 @@
 use crate::css::ComputedValue::{Keyword, Time};
 use crate::css::{ComputedStyle, ComputedValue, Definition, PropertyDescriptor, PropertyKey};
+use crate::styles::initial::initial;
 use crate::styles::Cascade;
 use log::error;
 
@@ -247,46 +248,42 @@ impl<'c> Cascade<'c> {
             //
             // Transition
             //
-            (PropertyKey::Transition, [property, duration]) => {
+            (PropertyKey::Transition, [property, duration, rest @ ..]) if rest.len() <= 2 => {
+                let timing = initial(PropertyKey::TransitionTimingFunction);
+                let delay = initial(PropertyKey::TransitionDelay);
                 overwrite(PropertyKey::TransitionProperty, property);
                 overwrite(PropertyKey::TransitionDuration, duration);
-            }
-            (PropertyKey::Transition, [property, duration, timing]) => {
-                overwrite(PropertyKey::TransitionProperty, property);
-                overwrite(PropertyKey::TransitionDuration, duration);
-                overwrite(PropertyKey::TransitionTimingFunction, timing);
-            }
-            (PropertyKey::Transition, [property, duration, timing, delay]) => {
-                overwrite(PropertyKey::TransitionProperty, property);
-                overwrite(PropertyKey::TransitionDuration, duration);
-                overwrite(PropertyKey::TransitionTimingFunction, timing);
-                overwrite(PropertyKey::TransitionDelay, delay);
+                overwrite(PropertyKey::TransitionTimingFunction, rest.get(0).unwrap_or(&timing));
+                overwrite(PropertyKey::TransitionDelay, rest.get(1).unwrap_or(&delay));
             }
             //
             // Animation
             //
             // There is no static shorthand pattern, we should set values by it type and order
             // TODO: special animation shorthand parser
-            (PropertyKey::Animation, [duration, timing, Time(delay), name]) => {
-                overwrite(PropertyKey::AnimationDelay, &Time(*delay));
-                overwrite(PropertyKey::AnimationDuration, duration);
-                overwrite(PropertyKey::AnimationName, name);
-                overwrite(PropertyKey::AnimationTimingFunction, timing);
-            }
-            (PropertyKey::Animation, [duration, timing, iterations, name]) => {
-                overwrite(PropertyKey::AnimationDuration, duration);
-                overwrite(PropertyKey::AnimationIterationCount, iterations);
-                overwrite(PropertyKey::AnimationName, name);
-                overwrite(PropertyKey::AnimationTimingFunction, timing);
-            }
-            (PropertyKey::Animation, [duration, timing, name]) => {
-                overwrite(PropertyKey::AnimationDuration, duration);
-                overwrite(PropertyKey::AnimationName, name);
-                overwrite(PropertyKey::AnimationTimingFunction, timing);
-            }
-            (PropertyKey::Animation, [duration, name]) => {
+            (PropertyKey::Animation, [duration, rest @ .., name]) if rest.len() <= 2 => {
+                // omitted values are reset to initial ones
+                let reset = [
+                    PropertyKey::AnimationDelay,
+                    PropertyKey::AnimationDirection,
+                    PropertyKey::AnimationFillMode,
+                    PropertyKey::AnimationIterationCount,
+                    PropertyKey::AnimationPlayState,
+                    PropertyKey::AnimationTimingFunction,
+                ];
+                for key in reset {
+                    overwrite(key, &initial(key));
+                }
                 overwrite(PropertyKey::AnimationDuration, duration);
                 overwrite(PropertyKey::AnimationName, name);
+                if let Some(timing) = rest.get(0) {
+                    overwrite(PropertyKey::AnimationTimingFunction, timing);
+                }
+                match rest.get(1) {
+                    Some(Time(delay)) => overwrite(PropertyKey::AnimationDelay, &Time(*delay)),
+                    Some(iterations) => overwrite(PropertyKey::AnimationIterationCount, iterations),
+                    None => None,
+                };
             }
             (key, [value]) => {
                 overwrite(key, value);
-- 
2.43.0


From b98b4d8d3620aaccecac2a7d632f7b3343995614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 38/49] fix: do not start completed transitions over when their
 configuration changes

---
 src/animation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index 1adad2d..b6878c3 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -68,6 +68,11 @@ impl Transition {
             let current = layers(key, style);
             self.ranges = current.into_iter().zip(values).collect();
             self.animator.restart();
+        } else if time == 1.0 {
+            // completed transition must not start over when its configuration changes
+            for (from, to) in &mut self.ranges {
+                *from = to.clone();
+            }
         }
     }
 }
-- 
2.43.0


From 72085e66bb405e3274a5844515b5c540f7f21452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:17 +0000
Subject: [PATCH 39/49] fix: remember a pressed element once when presses come
 without releases

---
 src/view_model.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index ca2998e..a1723aa 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -260,7 +260,9 @@ impl ViewModel {
                         let mut element = tree.get_element_mut(node)?;
 
                         element.state.active = true;
-                        self.elements_in_action.push(node);
+                        if !self.elements_in_action.contains(&node) {
+                            self.elements_in_action.push(node);
+                        }
 
                         if element.listeners.contains_key("oninput") {
                             // valid focus target
-- 
2.43.0


From 22f537ceb1e4888d390d53968dea859acc469d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:55 +0000
Subject: [PATCH 40/49] fix: attributes in binding form without binders (@id,
 @style) have their effect

---
 src/rendering.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 22ebfb3..b8a1130 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -108,6 +108,19 @@ impl Renderer {
         let mut element = create_element(node);
         element.tag = template.tag.clone();
         for binding in template.bindings {
+            let binding = match binding {
+                ElementBinding::Attribute(key, text) => match text.as_simple_text() {
+                    Some(value) => {
+                        warn!(
+                            "element {} attribute {} has no bindings, you can just use HTML tag",
+                            element.tag, key
+                        );
+                        ElementBinding::None(key, value)
+                    }
+                    None => ElementBinding::Attribute(key, text),
+                },
+                binding => binding,
+            };
             match binding {
                 ElementBinding::None(key, value) => {
                     if key == "style" {
@@ -137,14 +150,6 @@ impl Renderer {
                     element.style_hints.dynamic_attrs.insert(key);
                 }
                 ElementBinding::Attribute(key, text) => {
-                    if let Some(value) = text.as_simple_text() {
-                        warn!(
-                            "element {} attribute {} has no bindings, you can just use HTML tag",
-                            element.tag, key
-                        );
-                        element.attrs.insert(key, value);
-                        continue;
-                    }
                     let spans = text
                         .spans
                         .into_iter()
-- 
2.43.0


From bf8cfd76115e6412417012567be69c7d09e35db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:17 +0000
Subject: [PATCH 41/49] fix: element is found only by the last of its static
 ids, not by the overridden id of a template link

---
 src/rendering.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rendering.rs b/src/rendering.rs
index b8a1130..3d8e005 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -135,6 +135,10 @@ impl Renderer {
                         }
                     }
                     if key == "id" {
+                        if element.attrs.contains_key("id") {
+                            // template overrides id of its link
+                            self.static_id.retain(|_, identified| *identified != node);
+                        }
                         self.static_id.insert(value.clone(), node);
                     }
                     element.attrs.insert(key, value);
-- 
2.43.0


From 0ed2cafb2bfd61bfffd5be48938aa90cba1c7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:20 +0000
Subject: [PATCH 42/49] fix: several spaces, line breaks or comments between
 values and inside function parentheses made the whole sheet unreadable

---
 src/css/css.pest | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 2c0ebde..0b3a3f7 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -76,16 +76,18 @@ Ident = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
 Values = { Shorthand ~ ("," ~ Shorthand)* }
 
-Shorthand = ${ Value ~ (WHITESPACE ~ Value)* }
+Shorthand = ${ Value ~ (Gap+ ~ Value)* }
+
+Gap = _{ WHITESPACE | COMMENT }
 
 Value = _{ Var | Function | Explicit }
 
 Function = {
-    Ident ~ "(" ~ ")" |
-    Ident ~ "(" ~ Value ~ ("," ~ WHITESPACE* ~ Value)* ~ ")"
+    Ident ~ "(" ~ Gap* ~ ")" |
+    Ident ~ "(" ~ Gap* ~ Value ~ (Gap* ~ "," ~ Gap* ~ Value)* ~ Gap* ~ ")"
 }
 
-Var = { "var" ~ "(" ~ Keyword ~ ("," ~ Value)? ~ ")" }
+Var = { "var" ~ "(" ~ Gap* ~ Keyword ~ (Gap* ~ "," ~ Gap* ~ Value)? ~ Gap* ~ ")" }
 
 Explicit = {
     Color
-- 
2.43.0


From c37a8cc7ab2c8d83c5fd5c203e72005feb364235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:23 +0000
Subject: [PATCH 43/49] fix: nested var() with unclosed parentheses took
 exponential time to refuse

---
 src/css/css.pest | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 0b3a3f7..522b8d0 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -83,11 +83,14 @@ Gap = _{ WHITESPACE | COMMENT }
 Value = _{ Var | Function | Explicit }
 
 Function = {
-    Ident ~ "(" ~ Gap* ~ ")" |
-    Ident ~ "(" ~ Gap* ~ Value ~ (Gap* ~ "," ~ Gap* ~ Value)* ~ Gap* ~ ")"
+    !VarHead ~ Ident ~ "(" ~ Gap* ~ ")" |
+    !VarHead ~ Ident ~ "(" ~ Gap* ~ Value ~ (Gap* ~ "," ~ Gap* ~ Value)* ~ Gap* ~ ")"
 }
 
-Var = { "var" ~ "(" ~ Gap* ~ Keyword ~ (Gap* ~ "," ~ Gap* ~ Value)? ~ Gap* ~ ")" }
+Var = { "var" ~ "(" ~ Gap* ~ Keyword ~ (Gap* ~ "," ~ Gap* ~ Value)* ~ Gap* ~ ")" }
+
+// anything else after it is not read once more as function, nested attempts would take exponential time
+VarHead = _{ "var" ~ "(" ~ Gap* ~ Keyword ~ Gap* ~ ("," | ")") }
 
 Explicit = {
     Color
-- 
2.43.0


From 196a840653c2313cb171e090eb0c799119b34313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:32 +0000
Subject: [PATCH 44/49] fix: white space and comments inside attribute
 selectors made the whole sheet unreadable

---
 src/css/css.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 522b8d0..3389c19 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -43,8 +43,8 @@ Class = { "." ~ Ident }
 Type = { Ident }
 
 Attribute = {
-    "[" ~ Ident ~ "]" |
-    "[" ~ Ident ~ Matcher ~ (String | Ident) ~ Modifier? ~ "]"
+    "[" ~ Gap* ~ Ident ~ Gap* ~ "]" |
+    "[" ~ Gap* ~ Ident ~ Gap* ~ Matcher ~ Gap* ~ (String | Ident) ~ Modifier? ~ Gap* ~ "]"
 }
 
 Matcher = { ("~" | "|" | "^" | "$" | "*")? ~ "=" }
-- 
2.43.0


From f341149ac1dcb729f2f37b92cbb5f9df0614b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:16 +0000
Subject: [PATCH 45/49] fix: keyframes of the same step complement each other,
 the later ones replaced the earlier

---
 src/styles/compute_animation_tracks.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/styles/compute_animation_tracks.rs b/src/styles/compute_animation_tracks.rs
index c15a24f..d63c40d 100644
--- a/src/styles/compute_animation_tracks.rs
+++ b/src/styles/compute_animation_tracks.rs
@@ -15,7 +15,9 @@ impl<'c> Cascade<'c> {
         let mut animated_properties: HashSet<PropertyDescriptor> = HashSet::new();
         let mut computed_keyframe_styles = BTreeMap::new();
         for keyframe in &animation.keyframes {
-            let mut keyframe_style = HashMap::new();
+            // the same step can be defined more than once
+            let keyframe_style: &mut ComputedStyle =
+                computed_keyframe_styles.entry(keyframe.step).or_default();
             for declaration in &keyframe.declaration {
                 match declaration {
                     Declaration::Variable(variable) => {
@@ -27,13 +29,12 @@ impl<'c> Cascade<'c> {
                     Declaration::Property(property) => {
                         for index in 0..property.values.len() {
                             let value = &property.values[index];
-                            self.compute_style(property.key, index, value, &mut keyframe_style);
+                            self.compute_style(property.key, index, value, keyframe_style);
                         }
                     }
                 }
             }
             animated_properties.extend(keyframe_style.keys());
-            computed_keyframe_styles.insert(keyframe.step, keyframe_style);
         }
         let from = computed_keyframe_styles.entry(0).or_default();
         for property in &animated_properties {
-- 
2.43.0


From e7ca82260647f61faf410488bd4df033e34d30b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 46/49] fix: values are bound by any keys and indices, also
 when a path is used both ways or repeated

---
 src/view_model.rs | 85 ++++++++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 35 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index a1723aa..c14188b 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -116,8 +116,8 @@ impl ViewModel {
             Value::Object(fields) => {
                 for (key, schema) in fields {
                     let path = format!("{path}/{key}");
-                    let previous = previous.map(|value| value.get(key).unwrap_or(&Value::Null));
-                    let next = next.get(key).unwrap_or(&Value::Null);
+                    let previous = previous.map(|value| Self::field(value, key));
+                    let next = Self::field(next, key);
                     Self::bind_value(
                         schema,
                         previous,
@@ -134,6 +134,15 @@ impl ViewModel {
         }
     }
 
+    /// Finds value by key or index, the same way as JSON Pointer does.
+    fn field<'v>(value: &'v Value, key: &str) -> &'v Value {
+        let field = match value {
+            Value::Array(_) => value.pointer(&format!("/{key}")),
+            value => value.get(key),
+        };
+        field.unwrap_or(&Value::Null)
+    }
+
     #[inline]
     fn react(
         path: &str,
@@ -636,53 +645,59 @@ pub struct Schema {
 }
 
 impl Schema {
-    const THIS: &'static str = "/this";
-
     pub fn new() -> Self {
         Self { value: json!({}) }
     }
 
+    /// Defines one of repeated items.
     pub fn index(&mut self, binder: &Binder, i: usize, locals: &HashMap<String, String>) -> String {
-        let pointer = binder.to_json_pointer(locals);
-        let pointer = format!("{pointer}/{i}");
-        Self::define_value(&mut self.value, &pointer);
-        pointer
+        let pointer = self.field(binder, locals);
+        let array = self.value.pointer_mut(&pointer);
+        if let Some(array) = array {
+            if array.is_null() {
+                *array = json!([]);
+            }
+            match array {
+                Value::Array(items) if items.len() >= i => {
+                    if items.len() == i {
+                        items.push(Value::Null);
+                    }
+                }
+                array => {
+                    Self::define_field(array, &i.to_string());
+                }
+            }
+        }
+        format!("{pointer}/{i}")
     }
 
     pub fn field(&mut self, binder: &Binder, locals: &HashMap<String, String>) -> String {
         let pointer = binder.to_json_pointer(locals);
-        Self::define_value(&mut self.value, &pointer);
+        let local = locals.get(&binder.path[0]);
+        // items of repeated arrays are already defined
+        let mut defined = local.map_or(0, |path| path.split('/').skip(1).count());
+        let mut target = &mut self.value;
+        for token in pointer.split('/').skip(1) {
+            let is_item = defined > 0 && target.is_array();
+            defined = defined.saturating_sub(1);
+            target = match token.parse::<usize>() {
+                Ok(index) if is_item => &mut target[index],
+                _ => Self::define_field(target, token),
+            };
+        }
         pointer
     }
 
-    fn define_value(mut target: &mut Value, pointer: &str) {
-        if pointer == Schema::THIS {
-            return;
+    /// Fields can be named by any keys, including indices: value by the path is either object or array.
+    fn define_field<'t>(target: &'t mut Value, key: &str) -> &'t mut Value {
+        if let Value::Array(items) = target {
+            let items = items.iter_mut().map(Value::take).enumerate();
+            *target = items.map(|(index, item)| (index.to_string(), item)).collect();
         }
-        for token in pointer.split('/').skip(1) {
-            match token.parse::<usize>() {
-                Ok(index) => {
-                    if !target.is_array() {
-                        *target = json!([]);
-                    }
-                    let array = target.as_array_mut().unwrap();
-                    if array.len() <= index {
-                        array.resize(index + 1, Value::Null);
-                    }
-                    target = &mut array[index];
-                }
-                _ => {
-                    if !target.is_object() {
-                        *target = json!({});
-                    }
-                    let object = target.as_object_mut().unwrap();
-                    if !object.contains_key(token) {
-                        object.insert(token.to_string(), Value::Null);
-                    }
-                    target = object.get_mut(token).unwrap();
-                }
-            }
+        if !target.is_object() {
+            *target = json!({});
         }
+        &mut target[key]
     }
 }
 
-- 
2.43.0


From 89358d6196fa4b8773c953b25f2a002bb72b2319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 47/49] fix: items of a list made by a transformer are bound

---
 src/view_model.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index c14188b..3b3e9e8 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -87,21 +87,24 @@ impl ViewModel {
                 let next_len = next.as_array().map_or(0, Vec::len);
                 let resized = previous_len != Some(next_len);
                 Self::react(path, next, resized, bindings, reactions, transformers);
+                // all the items can be shown if transformer changes count of them
                 let is_repeated = bindings.get(path).is_some_and(|bindings| {
-                    bindings.iter().any(|binding| binding.is_repeat())
+                    let mut repeats = bindings.iter().filter(|binding| binding.is_repeat()).peekable();
+                    repeats.peek().is_some() && repeats.all(|binding| binding.pipe.is_empty())
                 });
                 for (index, schema) in items.iter().enumerate() {
                     if is_repeated && index >= next_len {
                         // nothing to bind, repeated element is hidden
                         break;
                     }
-                    let path = format!("{path}/{index}");
+                    let key = index.to_string();
+                    let path = format!("{path}/{key}");
                     let previous = match previous_len {
-                        Some(len) if index < len => previous.and_then(|value| value.get(index)),
-                        Some(_) if index >= next_len => Some(&Value::Null),
-                        _ => None,
+                        // repeated element was hidden
+                        Some(len) if is_repeated && index >= len => None,
+                        _ => previous.map(|value| Self::field(value, &key)),
                     };
-                    let next = next.get(index).unwrap_or(&Value::Null);
+                    let next = Self::field(next, &key);
                     Self::bind_value(
                         schema,
                         previous,
-- 
2.43.0


From 9c5a27f12d1bac8b7fefa7dbb3719707c11080d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:13 +0000
Subject: [PATCH 48/49] fix: the picture of an image stays inside of its
 padding and borders

---
 src/rendering.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 3d8e005..1c9a34b 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -90,10 +90,6 @@ impl Renderer {
             width: Dimension::Percent(1.0),
             height: Dimension::Percent(1.0),
         };
-        layout.min_size = Size {
-            width: Dimension::Percent(1.0),
-            height: Dimension::Percent(1.0),
-        };
         let node = self.tree.new_leaf(layout)?;
         let mut element = create_element(node);
         element.get_background_mut(0).image = Some(src);
-- 
2.43.0


From 2adf8e944881069722986f7d562ab98246dad8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:15 +0000
Subject: [PATCH 49/49] fix: currentcolor of body is its initial colour, it was
 transparent

---
 src/view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view.rs b/src/view.rs
index aa1008e..774abab 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -127,7 +127,7 @@ impl View {
         let sizes = Sizes {
             root_font_size: 16.0,
             parent_font_size: 16.0,
-            parent_color: [0; 4],
+            parent_color: [0, 0, 0, 255],
             viewport_width,
             viewport_height,
         };
-- 
2.43.0

