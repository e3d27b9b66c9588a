From bb5c1728f5dfa2d6eee7ffc65e3d896e02de0793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 01/55] fix: bind values by difference of the data, not of a
 projection of it

The view model kept a copy of the data shaped by bindings, so values of the
first update equal to null, items of a grown list equal to stale ones, values
changing their type and arrays used as plain values were lost or panicked.
---
 src/view_model.rs | 191 +++++++++++++---------------------------------
 1 file changed, 54 insertions(+), 137 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 2e36b42..86a1f74 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -18,8 +18,10 @@ pub type Transformer = fn(Value) -> Value;
 
 pub struct ViewModel {
     pub(crate) bindings: Bindings,
-    model: Value,
-    model_array_default: HashMap<String, Value>,
+    /// The shape of the data used by bindings.
+    schema: Value,
+    /// The last bound value, nothing before the first binding.
+    value: Option<Value>,
     pub(crate) transformers: HashMap<String, Transformer>,
     // state
     // pub(crate) focus: Option<NodeId>,
@@ -32,13 +34,11 @@ pub struct ViewModel {
 }
 
 impl ViewModel {
-    pub fn create(bindings: Bindings, model: Value) -> Self {
-        let mut model_array_default = HashMap::new();
-        Self::memorize_array_default("", &model, &mut model_array_default);
+    pub fn create(bindings: Bindings, schema: Value) -> Self {
         Self {
             bindings,
-            model,
-            model_array_default,
+            schema,
+            value: None,
             transformers: default_transformers(),
             mouse: [0.0, 0.0],
             elements_under_mouse: Vec::new(),
@@ -49,159 +49,79 @@ impl ViewModel {
         }
     }
 
-    fn memorize_array_default(
-        type_path: &str,
-        value: &Value,
-        default: &mut HashMap<String, Value>,
-    ) {
-        match value {
-            Value::Array(array) => {
-                default.insert(type_path.to_string(), array[0].clone());
-                Self::memorize_array_default(type_path, &array[0], default)
-            }
-            Value::Object(object) => {
-                for (key, value) in object {
-                    Self::memorize_array_default(&format!("{type_path}/{key}"), value, default)
-                }
-            }
-            _ => {}
-        }
-    }
-
     pub fn bind(&mut self, value: &Value) -> Vec<Reaction> {
         let mut reactions = vec![];
         Self::bind_value(
-            &mut self.model,
+            &self.schema,
+            self.value.as_ref(),
             value,
             "",
-            "",
             &self.bindings,
             &mut reactions,
             &self.transformers,
-            &self.model_array_default,
         );
+        if self.value.as_ref() != Some(value) {
+            self.value = Some(value.clone());
+        }
         reactions
     }
 
+    /// Collects reactions to difference between the previous value (`None` if the value
+    /// of this path was never bound or its elements was hidden) and the next value.
+    /// A property which is not specified is the same as null.
     pub fn bind_value(
-        mut dst: &mut Value,
-        src: &Value,
+        schema: &Value,
+        previous: Option<&Value>,
+        next: &Value,
         path: &str,
-        arrays_path: &str,
         bindings: &Bindings,
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
-        default: &HashMap<String, Value>,
-    ) -> bool {
-        match (&mut dst, src) {
-            (Value::Array(current), Value::Array(next)) => {
-                let mut array_changed = false;
-                if current.len() != next.len() {
-                    if let Some(default) = default.get(arrays_path).cloned() {
-                        array_changed = true;
-                        current.resize(next.len(), default);
-                        Self::react(path, src, bindings, reactions, transformers);
-                    } else {
-                        error!("unable to resize array {path} default not found");
-                    }
-                }
-                for (index, dst) in current.iter_mut().enumerate() {
-                    let src = &next[index];
-                    let path = format!("{path}/{index}");
-                    let changed = Self::bind_value(
-                        dst,
-                        src,
-                        &path,
-                        arrays_path,
-                        bindings,
-                        reactions,
-                        transformers,
-                        default,
-                    );
-                    array_changed = array_changed || changed;
-                }
-                array_changed
-            }
-            (Value::Array(current), Value::Null) => {
-                if current.len() != 0 {
-                    current.clear();
-                    Self::react(
-                        path,
-                        &Value::Array(vec![]),
-                        bindings,
-                        reactions,
-                        transformers,
-                    );
-                    true
+    ) {
+        if previous == Some(next) {
+            return;
+        }
+        match schema {
+            Value::Array(schema) => {
+                let items = next.as_array().map(Vec::as_slice).unwrap_or_default();
+                let previous_items = previous.and_then(Value::as_array);
+                let resized = next.is_array() != previous_items.is_some()
+                    || previous_items.map(Vec::len).unwrap_or(0) != items.len();
+                if resized || previous.is_none() {
+                    Self::react(path, next, bindings, reactions, transformers, |_| true);
                 } else {
-                    false
+                    // items changed, but count of them is the same
+                    Self::react(path, next, bindings, reactions, transformers, |params| {
+                        !matches!(params, BindingParams::Repeat(..))
+                    });
                 }
-            }
-            (Value::Array(_), _) => {
-                error!("unable to bind '{path}', must be array");
-                false
-            }
-            (Value::Object(object), Value::Object(src)) => {
-                let mut object_changed = false;
-                for (key, dst) in object.iter_mut() {
-                    let path = format!("{path}/{key}");
-                    let arrays_path = format!("{arrays_path}/{key}");
-                    let undefined = Value::Null;
-                    let src = match src.get(key) {
-                        Some(src) => src,
-                        None => {
-                            // error!("unable to bind '{path}', must be specified");
-                            &undefined
-                        }
-                    };
-                    let changed = Self::bind_value(
-                        dst,
-                        src,
-                        &path,
-                        &arrays_path,
+                for (index, (schema, next)) in schema.iter().zip(items).enumerate() {
+                    Self::bind_value(
+                        schema,
+                        previous_items.and_then(|previous| previous.get(index)),
+                        next,
+                        &format!("{path}/{index}"),
                         bindings,
                         reactions,
                         transformers,
-                        default,
                     );
-                    object_changed = object_changed || changed;
-                }
-                if object_changed {
-                    Self::react(path, &json!({}), bindings, reactions, transformers);
                 }
-                object_changed
             }
-            (Value::Object(object), Value::Null) => {
-                let mut object_changed = false;
-                for (key, dst) in object.iter_mut() {
-                    let path = format!("{path}/{key}");
-                    let arrays_path = format!("{arrays_path}/{key}");
-                    let changed = Self::bind_value(
-                        dst,
-                        &Value::Null,
-                        &path,
-                        &arrays_path,
+            Value::Object(schema) => {
+                for (key, schema) in schema {
+                    Self::bind_value(
+                        schema,
+                        previous.map(|previous| previous.get(key).unwrap_or(&Value::Null)),
+                        next.get(key).unwrap_or(&Value::Null),
+                        &format!("{path}/{key}"),
                         bindings,
                         reactions,
                         transformers,
-                        default,
                     );
-                    object_changed = object_changed || changed;
-                }
-                if object_changed {
-                    Self::react(path, &Value::Null, bindings, reactions, transformers);
-                }
-                object_changed
-            }
-            (dst, src) => {
-                if *dst != src {
-                    **dst = src.clone();
-                    Self::react(path, src, bindings, reactions, transformers);
-                    true
-                } else {
-                    false
                 }
+                Self::react(path, next, bindings, reactions, transformers, |_| true);
             }
+            _ => Self::react(path, next, bindings, reactions, transformers, |_| true),
         }
     }
 
@@ -212,9 +132,10 @@ impl ViewModel {
         bindings: &Bindings,
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
+        filter: impl Fn(&BindingParams) -> bool,
     ) {
         if let Some(bindings) = bindings.get(path) {
-            for binding in bindings {
+            for binding in bindings.iter().filter(|binding| filter(&binding.params)) {
                 if binding.pipe.len() > 0 {
                     let mut value = value.clone();
                     for name in &binding.pipe {
@@ -460,13 +381,9 @@ impl ViewModel {
                         }
                     },
                     HandlerArgument::Binder { path, pipe } => {
-                        let mut value = match self.model.pointer(&path).cloned() {
-                            Some(value) => value,
-                            None => {
-                                error!("unable to get value at {path:?}, not found");
-                                continue;
-                            }
-                        };
+                        // a property which is not specified is the same as null
+                        let value = self.value.as_ref().and_then(|value| value.pointer(path));
+                        let mut value = value.cloned().unwrap_or(Value::Null);
                         for name in pipe {
                             match self.transformers.get(name) {
                                 Some(transform) => value = transform(value),
-- 
2.43.0


From 68ab3a58a4f4bb66587fb5d16209ec40fdcc882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 02/55] fix: resolve array of repeat outside of the scope of
 its item

---
 src/rendering.rs  | 2 +-
 src/view_model.rs | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index a090120..8fc7bff 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -264,7 +264,7 @@ impl Renderer {
                             .push(binding);
                         let overridden = self.locals.remove(name);
                         for n in 0..count {
-                            let path = self.schema.index(binder, n, &self.locals);
+                            let path = self.schema.index(&array, n);
                             self.locals.insert(name.to_string(), path);
                             let child = child.clone();
                             let child = self.render_node(child)?;
diff --git a/src/view_model.rs b/src/view_model.rs
index 86a1f74..f6beb0e 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -633,9 +633,8 @@ impl Schema {
         Self { value: json!({}) }
     }
 
-    pub fn index(&mut self, binder: &Binder, i: usize, locals: &HashMap<String, String>) -> String {
-        let pointer = binder.to_json_pointer(locals);
-        let pointer = format!("{pointer}/{i}");
+    pub fn index(&mut self, array: &str, i: usize) -> String {
+        let pointer = format!("{array}/{i}");
         Self::define_value(&mut self.value, &pointer);
         pointer
     }
-- 
2.43.0


From c2dee7f1deba956710111f10eb6876af986f0d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 03/55] fix: keep order of siblings when repeated items appear
 again

---
 src/view.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/view.rs b/src/view.rs
index 447100f..6c2c48a 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -240,7 +240,13 @@ impl View {
                 let hidden = &children[cursor..end];
                 for node in shown {
                     if !visible.contains(node) {
-                        self.tree.add_child(parent, *node)?;
+                        // keep the order of siblings defined by template
+                        let node = *node;
+                        self.update_tree(Reaction::Reattach {
+                            parent,
+                            node,
+                            visible: true,
+                        })?;
                     }
                 }
                 for node in hidden {
-- 
2.43.0


From a479f57a0b3d012efd012b26a1142ddfe927f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 04/55] fix: keep whitespaces between binders of attribute

---
 src/html/html.pest | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index abaa099..033cc05 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -73,7 +73,11 @@ AliasBinding = { "+" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
 TagBinding = { "#" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
-AttributeBinding = { "@" ~ Key ~ "=" ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\"" }
+// compound atomic to keep whitespaces of the value as is
+AttributeBinding = ${
+    "@" ~ WHITESPACE* ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE*
+    ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\""
+}
 
 DoubleQuotedAttributeString = @{ DoubleQuotedAttributeChar+ }
 
-- 
2.43.0


From ed37fcd1d703ed9347ec7f50a71b7b12f914a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 05/55] fix: do not include trailing whitespaces into name of
 transformer

---
 src/html/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index 5f2adaa..7f8ea52 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -257,7 +257,7 @@ fn parse_binder(pair: Pair<Rule>) -> Binder {
                     .map(|key| key.as_str().to_string())
                     .collect();
             }
-            Rule::Transformer => pipe.push(next.as_str().to_string()),
+            Rule::Transformer => pipe.push(next.as_str().trim_end().to_string()),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From 023642d2d752e8c72438c713994e5f2564d72c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 06/55] fix: do not read tags starting with name of void
 element as void

---
 src/html/html.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index 033cc05..e2d9277 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -20,7 +20,9 @@ Children = { Content* }
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
 Void = { "<" ~ VoidTag ~ Attributes ~ ("/")? ~ ">" }
 
-VoidTag = {
+VoidTag = @{ VoidName ~ !TChar }
+
+VoidName = {
     ^"area"
     | ^"base"
     | ^"br"
-- 
2.43.0


From 377aa3314d1b4e472d18280031b4873ae0409cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 07/55] fix: end unquoted value of attribute at whitespace or
 end of tag

---
 src/html/html.pest | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index e2d9277..bc93952 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -103,7 +103,7 @@ Count = { ASCII_DIGIT* }
 DoubleQuoted = { Name ~ "=" ~ "\"" ~ Value ~ "\"" }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
-Unquoted = { Name ~ "=" ~ Value }
+Unquoted = { Name ~ "=" ~ UnquotedValue }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Empty = { Name }
@@ -130,6 +130,9 @@ KChar = { ASCII_ALPHA | ASCII_DIGIT | "-" | "_" }
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Value = @{ VChar* }
 
+// https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
+UnquotedValue = @{ (!("\"" | "'" | "=" | "<" | ">" | "`" | WHITESPACE) ~ ANY)+ }
+
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 VChar = {
     !("\"" | "\\") ~ ANY
-- 
2.43.0


From f6fb64cc5d56cb51f3c89f06676b48b16a328eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 08/55] fix: match the nearest previous element by next-sibling
 combinator

---
 src/css/matching.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 6619247..4dea98c 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -51,11 +51,14 @@ fn find_next_target(combinator: char, target: &mut NodeId, tree: &TaffyTree<Elem
             .parent(*target)
             .and_then(|parent| tree.children(parent).ok())
             .and_then(|children| {
-                children
-                    .iter()
-                    .skip(1)
-                    .position(|child| *child == *target)
-                    .and_then(|child| children.get(child - 1).cloned())
+                let index = children.iter().position(|child| *child == *target)?;
+                // text is not an element and does not separate siblings
+                let is_element = |child: &&NodeId| {
+                    tree.get_node_context(**child)
+                        .map(|element| element.text.is_none())
+                        .unwrap_or(false)
+                };
+                children[..index].iter().rev().find(is_element).cloned()
             }),
         _ => {
             // TODO: multi-target selector match
-- 
2.43.0


From 355130b3abb718231be818b9daac26b1588e82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 09/55] fix: match value with hyphen after it by dash match
 selector

---
 src/css/matching.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 4dea98c..e39c2a0 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -106,7 +106,9 @@ fn match_simple_selector(
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
                     Matcher::Include => attr.split(" ").any(|word| word == value),
-                    Matcher::DashMatch => attr == value || attr == &format!("-{value}"),
+                    Matcher::DashMatch => {
+                        attr == value || attr.starts_with(&format!("{value}-"))
+                    }
                     Matcher::Prefix => attr.starts_with(value),
                     Matcher::Substring => attr.contains(value),
                     Matcher::Suffix => attr.ends_with(value),
-- 
2.43.0


From bcbe0ac3c2902580376ab9aa08e4a92c64421c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 10/55] fix: separate classes and words of attribute by any
 whitespace

---
 src/css/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index e39c2a0..d4b831e 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -105,7 +105,7 @@ fn match_simple_selector(
                 .map(|attr| match operator {
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
-                    Matcher::Include => attr.split(" ").any(|word| word == value),
+                    Matcher::Include => attr.split_whitespace().any(|word| word == value),
                     Matcher::DashMatch => {
                         attr == value || attr.starts_with(&format!("{value}-"))
                     }
@@ -167,7 +167,7 @@ impl Style {
 
 #[inline(always)]
 fn match_class(classes: &str, ident: &str) -> bool {
-    classes.split(" ").any(|class| class == ident)
+    classes.split_whitespace().any(|class| class == ident)
 }
 
 pub trait PseudoClassMatcher {
-- 
2.43.0


From 9a6288152faf1d21a1f111cd50bccbe3cad66687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 11/55] fix: match selectors with combinators on every update

---
 src/css/matching.rs | 9 +++++++++
 src/view.rs         | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index d4b831e..c19102b 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -155,6 +155,15 @@ impl Style {
         })
     }
 
+    pub fn has_combinator(&self) -> bool {
+        self.selectors.iter().any(|complex| {
+            complex
+                .selectors
+                .iter()
+                .any(|selector| selector.as_combinator().is_some())
+        })
+    }
+
     pub fn has_pseudo_class_selector(&self) -> bool {
         self.selectors.iter().any(|complex| {
             complex.selectors.iter().any(|selector| match selector {
diff --git a/src/view.rs b/src/view.rs
index 6c2c48a..1d14e67 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -339,6 +339,8 @@ impl View {
                 || (!style.has_attrs_selector(&hints.dynamic_attrs)
                     && (!hints.has_dynamic_classes || !style.has_class_selector())
                     && (!hints.has_dynamic_id || !style.has_id_selector()));
+            // parent or siblings can be changed independently of the element
+            let is_static = is_static && !style.has_combinator();
             if matches_ignoring_pseudo {
                 if is_static && !has_pseudo {
                     element.styles.push(ElementStyle::Static(style.clone()));
-- 
2.43.0


From 18ab20b4264f95737cf8f0445e5a91943f0a528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 12/55] fix: do not panic on values which are not representable
 as duration

---
 src/view_model.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index f6beb0e..2be1f33 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -680,11 +680,16 @@ fn default_transformers() -> HashMap<String, Transformer> {
     fn duration(value: Value) -> Value {
         match value.as_f64() {
             None => value,
-            Some(value) => {
-                let value = Duration::from_secs_f64(value);
-                let value = format!("{value:?}");
-                Value::String(value)
-            }
+            Some(seconds) => match Duration::try_from_secs_f64(seconds) {
+                Ok(duration) => {
+                    let value = format!("{duration:?}");
+                    Value::String(value)
+                }
+                Err(error) => {
+                    error!("unable to represent {seconds} as duration, {error}");
+                    value
+                }
+            },
         }
     }
     let mut transformers = HashMap::new();
-- 
2.43.0


From 7824002edb62968462ce5eff8dd6f1cbbbe360b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 13/55] fix: allow any whitespaces between values and arguments
 of functions

---
 src/css/css.pest | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 2c0ebde..e1ceade 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -76,16 +76,18 @@ Ident = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
 Values = { Shorthand ~ ("," ~ Shorthand)* }
 
-Shorthand = ${ Value ~ (WHITESPACE ~ Value)* }
+Shorthand = ${ Value ~ ((WHITESPACE | COMMENT)+ ~ Value)* }
 
 Value = _{ Var | Function | Explicit }
 
 Function = {
-    Ident ~ "(" ~ ")" |
-    Ident ~ "(" ~ Value ~ ("," ~ WHITESPACE* ~ Value)* ~ ")"
+    Ident ~ "(" ~ WHITESPACE* ~ ")" |
+    Ident ~ "(" ~ WHITESPACE* ~ Value ~ (WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)* ~ WHITESPACE* ~ ")"
 }
 
-Var = { "var" ~ "(" ~ Keyword ~ ("," ~ Value)? ~ ")" }
+Var = {
+    "var" ~ "(" ~ WHITESPACE* ~ Keyword ~ WHITESPACE* ~ ("," ~ WHITESPACE* ~ Value ~ WHITESPACE*)? ~ ")"
+}
 
 Explicit = {
     Color
-- 
2.43.0


From 225e4db0f5e83f71f4c69f5d9a71bd08a6a4994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 14/55] fix: reset layout and appearance which are not
 specified by styles anymore

---
 src/styles/default.rs | 3 +++
 src/view.rs           | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/styles/default.rs b/src/styles/default.rs
index 3f85bcf..b5ae666 100644
--- a/src/styles/default.rs
+++ b/src/styles/default.rs
@@ -28,6 +28,9 @@ pub(crate) fn reset_element_style(element: &mut Element) {
         align: TextAlign::Start,
     };
     element.self_opacity = 1.0;
+    element.object_fit = ObjectFit::Fill;
+    element.pointer = Pointer::Auto;
+    element.visible = true;
 }
 
 pub fn create_element(node: NodeId) -> Element {
diff --git a/src/view.rs b/src/view.rs
index 1d14e67..757e700 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -2,7 +2,7 @@ use crate::css::{match_style, read_css, read_inline_css, Css, PseudoClassMatcher
 use crate::html::{read_html, ElementBinding, Html};
 use crate::metrics::ViewMetrics;
 use crate::rendering::{Renderer, RendererTranslator};
-use crate::styles::{inherit, Cascade, Scrolling, Sizes, Variables};
+use crate::styles::{default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
 use crate::view_model::{Reaction, ViewModel};
 use crate::{BindingParams, Element, ElementStyle, Fonts, Input, Output, Transformer, ViewError};
@@ -378,7 +378,8 @@ impl View {
             // TODO:
             &*ptr
         };
-        let mut layout = self.tree.style(node)?.clone();
+        // styles which are not matched anymore do not affect the layout
+        let mut layout = default_layout();
         let element = unsafe {
             let ptr = self.tree.get_element_mut(node)? as *mut Element;
             &mut *ptr
-- 
2.43.0


From a3066599c099067f9e14291d45de16f9787204d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 15/55] fix: forget animations and transitions which are not
 specified by styles anymore

---
 src/styles/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 76607ea..6bf337b 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -14,6 +14,7 @@ pub use scrolling::*;
 
 use log::error;
 use std::collections::HashMap;
+use std::mem::take;
 use taffy::{NodeId, TaffyTree};
 
 use crate::css::{
@@ -113,6 +114,9 @@ impl<'c> Cascade<'c> {
         for transition in element.transitions.iter_mut() {
             transition.play(time, &mut computed_style);
         }
+        // animations and transitions which are not specified anymore do not affect the element
+        let animators = take(&mut element.animators);
+        let transitions = take(&mut element.transitions);
         for (property, value) in &computed_style {
             if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                 error!("unable to apply {property:?}:{value:?} because of {error:?}");
@@ -121,6 +125,17 @@ impl<'c> Cascade<'c> {
                 self.stats.apply_ok += 1;
             }
         }
+        for (animator, previous) in element.animators.iter_mut().zip(animators) {
+            if animator.name == previous.name {
+                animator.time = previous.time;
+            }
+        }
+        for (transition, previous) in element.transitions.iter_mut().zip(transitions) {
+            if transition.key == previous.key {
+                transition.animator.time = previous.animator.time;
+                transition.range = previous.range;
+            }
+        }
         for transition in element.transitions.iter_mut() {
             transition.init_after_style_applied(&mut computed_style);
         }
-- 
2.43.0


From 05e6cbb74a18d23e07788c68d5eb6ba5058077b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 16/55] fix: measure text again when its font is changed

---
 src/element.rs | 4 ++--
 src/view.rs    | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index 4331351..ad8201f 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -278,7 +278,7 @@ pub enum ObjectFit {
     ScaleDown,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub struct FontFace {
     /// The font family.
     pub family: String,
@@ -297,7 +297,7 @@ pub struct FontFace {
     pub align: TextAlign,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub enum TextAlign {
     Start,
     End,
diff --git a/src/view.rs b/src/view.rs
index 757e700..c0c0ddc 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -386,7 +386,12 @@ impl View {
         };
 
         if element.text.is_some() {
+            let font = element.font.clone();
             inherit(parent, element);
+            if element.font != font {
+                // size of text depends on its font
+                self.tree.mark_dirty(node)?;
+            }
             return Ok(());
         }
 
-- 
2.43.0


From 27972b0561485464e565a876dc083deffa52333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 17/55] fix: do not scroll in direction in which content does
 not overflow

---
 src/styles/scrolling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/styles/scrolling.rs b/src/styles/scrolling.rs
index 5c7b80a..a9db294 100644
--- a/src/styles/scrolling.rs
+++ b/src/styles/scrolling.rs
@@ -17,8 +17,8 @@ impl Scrolling {
             .map(|current| [current.x, current.y])
             .unwrap_or_default();
         if content.width > size.width || content.height > size.height {
-            let scroll_x = content.width - size.width;
-            let scroll_y = content.height - size.height;
+            let scroll_x = (content.width - size.width).max(0.0);
+            let scroll_y = (content.height - size.height).max(0.0);
             let scrolling = Scrolling {
                 x: x.min(scroll_x),
                 y: y.min(scroll_y),
-- 
2.43.0


From 7e1e3053523bb01b946c61a49a98bfeb90eb0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 18/55] fix: do not hang when property of transition is
 specified later than transition

---
 src/animation.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 9f40a49..86a2576 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -60,9 +60,8 @@ impl Transition {
             };
             let (from, to) = match self.range.as_ref() {
                 Some(range) => range,
-                None => {
-                    continue;
-                }
+                // range will be initialized after style applied
+                None => return,
             };
             let current = animate(key, &from, &to, time);
             if to != value {
-- 
2.43.0


From 9b821072f0f7986c24f75a8f9430ba1193052d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 19/55] fix: play animations of zero and very short duration

---
 src/animation.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 86a2576..f4d8522 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -155,15 +155,23 @@ impl Animator {
         if t < 0.0 {
             return None;
         }
-        let mut t = match self.iterations {
-            AnimationIterations::Number(iterations) => t.min(iterations * self.duration),
-            AnimationIterations::Infinite => t,
+        if self.duration <= 0.0 {
+            // nothing to play, only the last frame
+            return Some(1.0);
+        }
+        let cycles = t / self.duration;
+        let cycles = match self.iterations {
+            AnimationIterations::Number(iterations) => cycles.min(iterations),
+            AnimationIterations::Infinite => cycles,
         };
-        // use this loop instead of % to stop at last frame 1.0 (100%)
-        while t > self.duration {
-            t -= self.duration;
+        let mut x = cycles;
+        if x > 1.0 {
+            x = x.fract();
+            if x == 0.0 {
+                // stop at last frame 1.0 (100%)
+                x = 1.0;
+            }
         }
-        let x = t / self.duration;
         Some(x)
     }
 }
-- 
2.43.0


From c4e12281fab7c8c3ddf5887dc438e26717eedbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 20/55] fix: keep value of property during delay of transition

---
 src/animation.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index f4d8522..81ea7aa 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -47,10 +47,8 @@ impl Transition {
             Some(key) => key,
             None => return,
         };
-        let time = match self.animator.update(time) {
-            Some(time) => time,
-            None => return,
-        };
+        // value is not changed during delay of transition
+        let time = self.animator.update(time).unwrap_or(0.0);
         let mut index = 0;
         loop {
             let descriptor = PropertyDescriptor::new(key, index);
-- 
2.43.0


From ab87be04c370d16e865fe0c8478c1a459ea9e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 21/55] fix: interpolate between zero and length or number

---
 src/animation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index 81ea7aa..213eb50 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -193,7 +193,11 @@ pub fn animate(_key: PropertyKey, a: &ComputedValue, b: &ComputedValue, t: f32)
             }
         }
         (Zero, Percentage(b)) => percentage(&0.0, b, t),
+        (Number(a), Zero) => number(a, &0.0, t),
+        (Zero, Number(b)) => number(&0.0, b, t),
         (Dimension(a), Dimension(b)) => dimension(a, b, t),
+        (Dimension(a), Zero) => dimension(a, &Dim::new(0.0, a.unit), t),
+        (Zero, Dimension(b)) => dimension(&Dim::new(0.0, b.unit), b, t),
         (Color(a), Color(b)) => color(a, b, t),
         (a, b) => {
             // discrete
-- 
2.43.0


From 728fa17542256dc78f686f447a1c5aca11d54b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 22/55] fix: apply the first of several values of property
 which is not a list

---
 src/styles/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 6bf337b..fdcc1e5 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -13,6 +13,7 @@ pub use inherit::inherit;
 pub use scrolling::*;
 
 use log::error;
+use std::cmp::Reverse;
 use std::collections::HashMap;
 use std::mem::take;
 use taffy::{NodeId, TaffyTree};
@@ -117,7 +118,10 @@ impl<'c> Cascade<'c> {
         // animations and transitions which are not specified anymore do not affect the element
         let animators = take(&mut element.animators);
         let transitions = take(&mut element.transitions);
-        for (property, value) in &computed_style {
+        // the first value is the most important for properties which are not lists
+        let mut properties: Vec<_> = computed_style.iter().collect();
+        properties.sort_unstable_by_key(|(property, _)| Reverse(property.index));
+        for (property, value) in properties {
             if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                 error!("unable to apply {property:?}:{value:?} because of {error:?}");
                 self.stats.apply_error += 1;
-- 
2.43.0


From b60d581b520f008d6417f00fa2054b951f8b20ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 23/55] fix: do not overflow stack by variables which depend on
 themselves

---
 src/styles/compute_function.rs |  9 +++++++--
 src/styles/compute_style.rs    |  2 +-
 src/styles/mod.rs              | 20 +++++++++++++++-----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/styles/compute_function.rs b/src/styles/compute_function.rs
index 214126e..d4c41eb 100644
--- a/src/styles/compute_function.rs
+++ b/src/styles/compute_function.rs
@@ -4,10 +4,15 @@ use crate::styles::Cascade;
 use log::error;
 
 impl<'c> Cascade<'c> {
-    pub(crate) fn compute_function(&self, function: &Function, shorthand: &mut Vec<ComputedValue>) {
+    pub(crate) fn compute_function<'a>(
+        &'a self,
+        function: &'a Function,
+        shorthand: &mut Vec<ComputedValue>,
+        variables: &mut Vec<&'a str>,
+    ) {
         let name = function.name.as_str();
         let mut arguments = vec![];
-        self.compute_shorthand(&function.arguments, &mut arguments);
+        self.compute_shorthand(&function.arguments, &mut arguments, variables);
         let computed_value = match (name, arguments.as_slice()) {
             ("rgb", [r, g, b]) => {
                 Color([map_c(r), map_c(g), map_c(b), 255])
diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index 4160380..5d26e30 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -12,7 +12,7 @@ impl<'c> Cascade<'c> {
         style: &mut ComputedStyle,
     ) {
         let mut shorthand = vec![];
-        if !self.compute_shorthand(definition, &mut shorthand) {
+        if !self.compute_shorthand(definition, &mut shorthand, &mut vec![]) {
             return;
         }
         let mut overwrite = |key: PropertyKey, value: &ComputedValue| {
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index fdcc1e5..e1027d3 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -162,10 +162,11 @@ impl<'c> Cascade<'c> {
         }
     }
 
-    fn compute_shorthand(
-        &self,
-        definition: &[Definition],
+    fn compute_shorthand<'a>(
+        &'a self,
+        definition: &'a [Definition],
         shorthand: &mut Vec<ComputedValue>,
+        variables: &mut Vec<&'a str>,
     ) -> bool {
         for value in definition {
             match value {
@@ -178,9 +179,18 @@ impl<'c> Cascade<'c> {
                             continue;
                         }
                     };
-                    self.compute_shorthand(definition, shorthand);
+                    if variables.contains(&name.as_str()) {
+                        error!("unable to compute variable {name}, it depends on itself");
+                        shorthand.push(ComputedValue::Error);
+                        continue;
+                    }
+                    variables.push(name);
+                    self.compute_shorthand(definition, shorthand, variables);
+                    variables.pop();
+                }
+                Definition::Function(function) => {
+                    self.compute_function(function, shorthand, variables)
                 }
-                Definition::Function(function) => self.compute_function(function, shorthand),
                 Definition::Explicit(value) => shorthand.push(value.clone()),
             }
         }
-- 
2.43.0


From 72466bc4e0ff1ebef95aa0f233f0c34283811f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 24/55] fix: do not overflow stack by templates which contain
 themselves

---
 src/error.rs     |  1 +
 src/rendering.rs | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 0bb9ea5..3f70974 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -19,6 +19,7 @@ pub enum ViewError {
     ElementInvalidBehaviour,
     AttributeBindingNotFound(String),
     TemplateNotFound(String),
+    TemplateRecursion(String),
 }
 
 impl From<TaffyError> for ViewError {
diff --git a/src/rendering.rs b/src/rendering.rs
index 8fc7bff..2713554 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -16,6 +16,8 @@ pub struct Renderer {
     pub templates: HashMap<String, Html>,
     pub static_id: HashMap<String, NodeId>,
     pub translator: Box<dyn RendererTranslator>,
+    /// Identifiers of templates which are being rendered.
+    rendering: Vec<String>,
 }
 
 impl Renderer {
@@ -33,6 +35,7 @@ impl Renderer {
             templates,
             static_id,
             translator,
+            rendering: vec![],
         }
     }
 
@@ -216,7 +219,14 @@ impl Renderer {
             "wbr" => {}
             _ => {
                 for child in template.children {
-                    let child = if let Some((id, mut bindings)) = child.as_template_link() {
+                    let link = child.as_template_link();
+                    let template_id = link.as_ref().map(|(id, _)| id.clone());
+                    if let Some(id) = template_id.as_ref() {
+                        if self.rendering.contains(id) {
+                            return Err(ViewError::TemplateRecursion(id.clone()));
+                        }
+                    }
+                    let child = if let Some((id, mut bindings)) = link {
                         let mut template = self
                             .templates
                             .get(&id)
@@ -230,6 +240,9 @@ impl Renderer {
                         child
                     };
 
+                    let is_template = template_id.is_some();
+                    self.rendering.extend(template_id);
+
                     let mut overridden = HashMap::new();
                     for binding in &child.bindings {
                         if let ElementBinding::Alias(name, binder) = binding {
@@ -280,6 +293,10 @@ impl Renderer {
                         children.push(child);
                     }
 
+                    if is_template {
+                        self.rendering.pop();
+                    }
+
                     for (key, value) in overridden {
                         if let Some(value) = value {
                             self.locals.insert(key, value);
-- 
2.43.0


From 959af2095d8f90f50b860266d353a3577e1d4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 25/55] fix: do not get elements by identifiers which they do
 not have anymore

---
 src/view.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/view.rs b/src/view.rs
index c0c0ddc..9605bd5 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -276,7 +276,7 @@ impl View {
                     .ok_or(ViewError::AttributeBindingNotFound(key.clone()))?;
                 attribute.set(span, text);
                 let value = attribute.to_string();
-                element.attrs.insert(key.clone(), value.clone());
+                let previous = element.attrs.insert(key.clone(), value.clone());
                 if key == "style" {
                     match read_inline_css(&value) {
                         Ok(style) => element.style = style,
@@ -286,6 +286,11 @@ impl View {
                     }
                 }
                 if key == "id" {
+                    if let Some(previous) = previous {
+                        if self.identified.get(&previous) == Some(&node) {
+                            self.identified.remove(&previous);
+                        }
+                    }
                     self.identified.insert(value.clone(), node);
                 }
                 match (element.tag.as_str(), key.as_str()) {
-- 
2.43.0


From d855bd698ab3311781b9a289fdbfd49eb8274eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 26/55] fix: end drag when it is released out of drop targets

---
 src/view_model.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/view_model.rs b/src/view_model.rs
index 2be1f33..ef6c1cf 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -315,6 +315,12 @@ impl ViewModel {
                             }
                         }
                     }
+                    if let Some(drag) = self.drag.take() {
+                        // released out of drop targets
+                        let element = tree.get_element_mut(drag.source)?;
+                        let event = MouseEvent::new(self.mouse, element);
+                        self.emit(element, "ondragend", event);
+                    }
                     for node in take(&mut self.elements_in_action) {
                         let element = tree.get_element_mut(node)?;
                         element.state.active = false;
-- 
2.43.0


From 576f1889a7948305bd48900408f9220fa5b3583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 27/55] fix: report position of mouse at the moment of event

---
 src/view_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index ef6c1cf..5e3eb0f 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -166,8 +166,7 @@ impl ViewModel {
         let mut events = input.events.clone();
         for event in events.iter() {
             match *event {
-                InputEvent::MouseMove(mouse) => {
-                    self.mouse = mouse;
+                InputEvent::MouseMove(_) => {
                     has_mouse_move = true;
                 }
                 _ => {}
@@ -206,6 +205,7 @@ impl ViewModel {
             match event {
                 InputEvent::Unknown => {}
                 InputEvent::MouseMove(position) => {
+                    self.mouse = position;
                     let previous_update = take(&mut self.elements_under_mouse);
                     self.calculate_mouse_hovers(tree, body, position)?;
                     for node in previous_update.iter().rev() {
-- 
2.43.0


From bbd5ec43b33d0c03978d5ba90937893582ca0b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 28/55] fix: image does not catch pointer when element ignores
 it

---
 src/view.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/view.rs b/src/view.rs
index 9605bd5..d23738b 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -423,6 +423,11 @@ impl View {
         match element.tag.as_str() {
             "img" => {
                 // self.render_img(current_id, &element, tree);
+                for child in self.tree.children(node)? {
+                    let background = self.tree.get_element_mut(child)?;
+                    inherit(element, background);
+                    background.visible = element.visible;
+                }
             }
             "input" => {
                 // let text = element.html.attrs.get("value").cloned().unwrap_or_default();
-- 
2.43.0


From 346770b07bea9b51b1fc077592a6326d2be5b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 29/55] fix: support zero factors of flex

---
 src/styles/apply.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 934bb8d..fc750e9 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -233,6 +233,8 @@ impl<'c> Cascade<'c> {
                 }
             }
             (PropertyKey::FlexBasis, value) => layout.flex_basis = dimension(value, self)?,
+            (PropertyKey::FlexGrow, ComputedValue::Zero) => layout.flex_grow = 0.0,
+            (PropertyKey::FlexShrink, ComputedValue::Zero) => layout.flex_shrink = 0.0,
             (PropertyKey::FlexGrow, ComputedValue::Number(value)) => layout.flex_grow = *value,
             (PropertyKey::FlexShrink, ComputedValue::Number(value)) => layout.flex_shrink = *value,
             (PropertyKey::ColumnGap, column) => {
-- 
2.43.0


From 09388cb9967b5a50ddb5b9ccc8fa730331a57c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 30/55] fix: hide content of hidden elements

---
 src/styles/inherit.rs | 1 +
 src/view.rs           | 1 -
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/styles/inherit.rs b/src/styles/inherit.rs
index 4fb935a..0698c1b 100644
--- a/src/styles/inherit.rs
+++ b/src/styles/inherit.rs
@@ -41,6 +41,7 @@ pub fn inherit(parent: &Element, element: &mut Element) {
     // text-shadow
     // text-transform
     // visibility
+    element.visible = parent.visible;
     // white-space
     // widows
     // word-break
diff --git a/src/view.rs b/src/view.rs
index d23738b..6ad0724 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -426,7 +426,6 @@ impl View {
                 for child in self.tree.children(node)? {
                     let background = self.tree.get_element_mut(child)?;
                     inherit(element, background);
-                    background.visible = element.visible;
                 }
             }
             "input" => {
-- 
2.43.0


From 94e6ba810163e5fa8935ed5f4d19e44af89dc410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 31/55] fix: read longhand properties of background position

---
 src/css/model.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/css/model.rs b/src/css/model.rs
index 012f9ff..893b5ac 100644
--- a/src/css/model.rs
+++ b/src/css/model.rs
@@ -842,6 +842,8 @@ impl PropertyKey {
             "background-image" => Self::BackgroundImage,
             "background-origin" => Self::BackgroundOrigin,
             "background-position" => Self::BackgroundPosition,
+            "background-position-x" => Self::BackgroundPositionX,
+            "background-position-y" => Self::BackgroundPositionY,
             "background-repeat" => Self::BackgroundRepeat,
             "background-size" => Self::BackgroundSize,
             "baseline-shift" => Self::BaselineShift,
-- 
2.43.0


From 2119c482c6b401a45125ab3e3a3799b99adc8dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 32/55] fix: do not reuse cached layout of changed view

---
 src/view.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/view.rs b/src/view.rs
index 6ad0724..3289472 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -132,6 +132,11 @@ impl View {
             viewport_height,
         };
         self.apply_styles(self.body, &input, sizes, Variables::default())?;
+        if self.tree.dirty(self.body)? {
+            // cached results of a subtree can be reused for different constraints,
+            // so the layout should not depend on results of previous updates
+            self.invalidate_layout(self.body)?;
+        }
         self.tree.compute_layout_with_measure(
             self.body,
             Size::MAX_CONTENT,
@@ -142,6 +147,14 @@ impl View {
         self.model.handle_output(&input, self.body, &mut self.tree)
     }
 
+    fn invalidate_layout(&mut self, node: NodeId) -> Result<(), ViewError> {
+        self.tree.mark_dirty(node)?;
+        for child in self.tree.children(node)? {
+            self.invalidate_layout(child)?;
+        }
+        Ok(())
+    }
+
     fn compute_final_positions_and_clipping(
         &mut self,
         node: NodeId,
-- 
2.43.0


From f29bc6fd3d8d37b3365cb6e92ef2ef497dc519da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 33/55] fix: press elements which are under mouse at the moment
 of event

---
 src/view_model.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/view_model.rs b/src/view_model.rs
index 5e3eb0f..0b5e1b2 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -168,7 +168,10 @@ impl ViewModel {
             match *event {
                 InputEvent::MouseMove(_) => {
                     has_mouse_move = true;
+                    break;
                 }
+                // elements under mouse must be actual at the moment of the first button event
+                InputEvent::MouseButtonDown(_) | InputEvent::MouseButtonUp(_) => break,
                 _ => {}
             }
         }
-- 
2.43.0


From 3b1b3ec58e8d8ee990906ee9fb26318cb63d96bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 34/55] fix: begin animations of zero duration after their
 delay

---
 src/animation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index 213eb50..6ee4b11 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -146,7 +146,7 @@ impl Animator {
     }
 
     pub fn update(&mut self, time: f32) -> Option<f32> {
-        if self.running && self.duration > 0.0 {
+        if self.running {
             self.time += time;
         }
         let t = self.time - self.delay;
-- 
2.43.0


From 607960d977687c3e4f63f27abea690524e3d9496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 35/55] fix: forget value of transition when property is not
 specified anymore

---
 src/animation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index 6ee4b11..deb86e3 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -54,7 +54,13 @@ impl Transition {
             let descriptor = PropertyDescriptor::new(key, index);
             let value = match style.get(&descriptor) {
                 Some(value) => value,
-                None => return,
+                None => {
+                    if index == 0 {
+                        // property is not specified anymore, there is nothing to start from
+                        self.range = None;
+                    }
+                    return;
+                }
             };
             let (from, to) = match self.range.as_ref() {
                 Some(range) => range,
-- 
2.43.0


From 3fa991a7069d6ab2e30be0c4e326313c142f080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 36/55] fix: get elements by identifiers which several elements
 had

---
 src/view.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/view.rs b/src/view.rs
index 3289472..75b652f 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -24,7 +24,7 @@ pub struct View {
     resources: String,
     pub fonts: Box<dyn Fonts>,
     metrics: ViewMetrics,
-    identified: HashMap<String, NodeId>,
+    identified: HashMap<String, Vec<NodeId>>,
 }
 
 impl View {
@@ -76,7 +76,11 @@ impl View {
         let bindings = renderer.bindings;
         let schema = renderer.schema;
         let tree = renderer.tree;
-        let identified = renderer.static_id;
+        let identified = renderer
+            .static_id
+            .into_iter()
+            .map(|(id, node)| (id, vec![node]))
+            .collect();
         let model = ViewModel::create(bindings, schema.value);
         let mut view = Self {
             model,
@@ -300,11 +304,14 @@ impl View {
                 }
                 if key == "id" {
                     if let Some(previous) = previous {
-                        if self.identified.get(&previous) == Some(&node) {
-                            self.identified.remove(&previous);
+                        if let Some(nodes) = self.identified.get_mut(&previous) {
+                            nodes.retain(|other| *other != node);
+                            if nodes.is_empty() {
+                                self.identified.remove(&previous);
+                            }
                         }
                     }
-                    self.identified.insert(value.clone(), node);
+                    self.identified.entry(value.clone()).or_default().push(node);
                 }
                 match (element.tag.as_str(), key.as_str()) {
                     ("img", "src") => self.model.update_img_src(node, value, &mut self.tree)?,
@@ -476,6 +483,7 @@ impl View {
     pub fn get_element_by_id(&self, id: &str) -> Option<&Element> {
         self.identified
             .get(id)
+            .and_then(|nodes| nodes.last())
             .and_then(|node| self.tree.get_element(*node).ok())
     }
 
-- 
2.43.0


From 17d6a78abef9230e31159d4c81d6dc4746713723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 37/55] fix: use style and id of attributes which have no
 bindings

---
 src/rendering.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 2713554..03d76f4 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -108,6 +108,19 @@ impl Renderer {
         let mut element = create_element(node);
         element.tag = template.tag.clone();
         for binding in template.bindings {
+            let binding = match binding {
+                ElementBinding::Attribute(key, text) => match text.as_simple_text() {
+                    Some(value) => {
+                        warn!(
+                            "element {} attribute {} has no bindings, you can just use HTML tag",
+                            element.tag, key
+                        );
+                        ElementBinding::None(key, value)
+                    }
+                    None => ElementBinding::Attribute(key, text),
+                },
+                binding => binding,
+            };
             match binding {
                 ElementBinding::None(key, value) => {
                     if key == "style" {
@@ -137,14 +150,6 @@ impl Renderer {
                     element.style_hints.dynamic_attrs.insert(key);
                 }
                 ElementBinding::Attribute(key, text) => {
-                    if let Some(value) = text.as_simple_text() {
-                        warn!(
-                            "element {} attribute {} has no bindings, you can just use HTML tag",
-                            element.tag, key
-                        );
-                        element.attrs.insert(key, value);
-                        continue;
-                    }
                     let spans = text
                         .spans
                         .into_iter()
-- 
2.43.0


From 53f66e53af62a49668aa3f2c015f083f946295aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 38/55] fix: keep line break between bindings of text as space

---
 src/html/reader.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index 7f8ea52..61bff1a 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -178,19 +178,19 @@ fn parse_content(pair: Pair<Rule>, is_last_content: bool) -> Html {
             let mut spans = vec![];
 
             for index in 0..count {
-                let _is_next_binding = if let Some(TextSpan::Binder(_)) = prefetch.get(index + 1) {
-                    true
-                } else {
-                    false
-                };
+                let is_last_span = index + 1 == count;
                 let span = prefetch[index].clone();
                 match span {
                     TextSpan::String(string) => {
                         let mut text = String::new();
+                        let count = string.split("\n").count();
                         for (index, fragment) in string.split("\n").enumerate() {
                             if index != 0 {
                                 let fragment = fragment.trim_start();
-                                if !fragment.is_empty() || !is_last_content {
+                                // only line break before the end of parent element is not a space
+                                let is_space =
+                                    index + 1 == count && !(is_last_content && is_last_span);
+                                if !fragment.is_empty() || is_space {
                                     text.push(' ');
                                     text.push_str(fragment);
                                 }
-- 
2.43.0


From 0cde4927527d62f0f00eb006af0baee7ca68bae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 39/55] fix: read line breaks of texts in notation with
 carriage return

---
 src/html/reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index 61bff1a..f2b84f4 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -183,6 +183,7 @@ fn parse_content(pair: Pair<Rule>, is_last_content: bool) -> Html {
                 match span {
                     TextSpan::String(string) => {
                         let mut text = String::new();
+                        let string = string.replace("\r\n", "\n");
                         let count = string.split("\n").count();
                         for (index, fragment) in string.split("\n").enumerate() {
                             if index != 0 {
-- 
2.43.0


From a684d170de4e17b8479c91c595251e5cb7fd7bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 40/55] fix: read inline style which begins with whitespaces

---
 src/css/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/reader.rs b/src/css/reader.rs
index cab59f8..9bd3504 100644
--- a/src/css/reader.rs
+++ b/src/css/reader.rs
@@ -28,7 +28,7 @@ impl From<Error<Rule>> for ReaderError {
 }
 
 pub fn read_inline_css(block: &str) -> Result<Vec<Declaration>, ReaderError> {
-    let block = CssParser::parse(Rule::Declarations, block)?
+    let block = CssParser::parse(Rule::Declarations, block.trim_start())?
         .next()
         .ok_or(ReaderError::EmptyStyleSheet)?;
     Ok(read_declarations(block))
-- 
2.43.0


From b751e426dd37649f43f4a685ef7f61d2042eaec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 41/55] fix: keep whitespaces at the beginning of value of
 attribute

---
 src/html/html.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index bc93952..4950b8a 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -100,7 +100,8 @@ RepeatBinding = { "*" ~ Key ~ "=" ~ "\"" ~ Count ~ Binder ~ "\"" }
 Count = { ASCII_DIGIT* }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
-DoubleQuoted = { Name ~ "=" ~ "\"" ~ Value ~ "\"" }
+// compound atomic to keep whitespaces of the value as is
+DoubleQuoted = ${ Name ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ Value ~ "\"" }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Unquoted = { Name ~ "=" ~ UnquotedValue }
-- 
2.43.0


From 8570df41b651f7548fc6ccb73264c09f0dfaaa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 42/55] fix: evaluate big integers without loss of precision

---
 src/value.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 3c8552c..0299d4b 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -30,9 +30,10 @@ impl ValueExtensions for Value {
                     0
                 }
             }
-            Value::Number(number) => match number.as_f64() {
-                None => 0,
-                Some(number) => number as u64,
+            Value::Number(number) => match (number.as_u64(), number.as_f64()) {
+                (Some(number), _) => number,
+                (None, Some(number)) => number as u64,
+                (None, None) => 0,
             },
             Value::String(string) => string.parse::<u64>().unwrap_or(0),
             Value::Array(_) => 0,
-- 
2.43.0


From f4c4790a5a6c078b8e2376dbd4256dad6b0e8a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 43/55] fix: read inline style which begins with a comment

---
 src/css/css.pest  | 2 ++
 src/css/reader.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index e1ceade..cc410b1 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -68,6 +68,8 @@ DeclarationBlock = {
 
 Declarations = { Declaration* }
 
+InlineStyle = _{ SOI ~ Declarations }
+
 Declaration = { Property ~ ":" ~ Values ~ ";" }
 
 Property = { (ASCII_ALPHA | "-" | "_")+ }
diff --git a/src/css/reader.rs b/src/css/reader.rs
index 9bd3504..fa76c09 100644
--- a/src/css/reader.rs
+++ b/src/css/reader.rs
@@ -28,7 +28,7 @@ impl From<Error<Rule>> for ReaderError {
 }
 
 pub fn read_inline_css(block: &str) -> Result<Vec<Declaration>, ReaderError> {
-    let block = CssParser::parse(Rule::Declarations, block.trim_start())?
+    let block = CssParser::parse(Rule::InlineStyle, block)?
         .next()
         .ok_or(ReaderError::EmptyStyleSheet)?;
     Ok(read_declarations(block))
-- 
2.43.0


From 18d8df84a2e9b77852afec93d6787ccbae07d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 44/55] fix: allow comments in arguments of functions

---
 src/css/css.pest | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index cc410b1..955617b 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -83,14 +83,16 @@ Shorthand = ${ Value ~ ((WHITESPACE | COMMENT)+ ~ Value)* }
 Value = _{ Var | Function | Explicit }
 
 Function = {
-    Ident ~ "(" ~ WHITESPACE* ~ ")" |
-    Ident ~ "(" ~ WHITESPACE* ~ Value ~ (WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)* ~ WHITESPACE* ~ ")"
+    Ident ~ "(" ~ Gap ~ ")" |
+    Ident ~ "(" ~ Gap ~ Value ~ (Gap ~ "," ~ Gap ~ Value)* ~ Gap ~ ")"
 }
 
 Var = {
-    "var" ~ "(" ~ WHITESPACE* ~ Keyword ~ WHITESPACE* ~ ("," ~ WHITESPACE* ~ Value ~ WHITESPACE*)? ~ ")"
+    "var" ~ "(" ~ Gap ~ Keyword ~ Gap ~ ("," ~ Gap ~ Value ~ Gap)? ~ ")"
 }
 
+Gap = _{ (WHITESPACE | COMMENT)* }
+
 Explicit = {
     Color
     | Keyword
-- 
2.43.0


From c444fc0829dbd62d9b3ec0824a21b1b564b869f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:43 +0000
Subject: [PATCH 45/55] fix: restore a local which is named by both a link and
 its template

---
 src/rendering.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 03d76f4..8a21024 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -252,10 +252,9 @@ impl Renderer {
                     for binding in &child.bindings {
                         if let ElementBinding::Alias(name, binder) = binding {
                             let path = self.schema.field(binder, &mut self.locals);
-                            overridden.insert(
-                                name.to_string(),
-                                self.locals.insert(name.to_string(), path),
-                            );
+                            let previous = self.locals.insert(name.to_string(), path);
+                            // the same name can be given by link and by its template
+                            overridden.entry(name.to_string()).or_insert(previous);
                         }
                     }
 
-- 
2.43.0


From 26396ac8efa0d327b217da4391ecd5fd3843a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 46/55] fix: allow digits in names of variables

---
 src/css/css.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 955617b..e0a3351 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -72,7 +72,7 @@ InlineStyle = _{ SOI ~ Declarations }
 
 Declaration = { Property ~ ":" ~ Values ~ ";" }
 
-Property = { (ASCII_ALPHA | "-" | "_")+ }
+Property = { (ASCII_ALPHA | "-" | "_") ~ (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")* }
 
 Ident = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
@@ -120,7 +120,7 @@ Number = { (ASCII_DIGIT | "-" | ".")+ }
 
 Unit = { ASCII_ALPHA+ }
 
-Keyword = { "-"? ~ "-"? ~ (ASCII_ALPHA | "-" | "_")+ }
+Keyword = { "-"? ~ "-"? ~ (ASCII_ALPHA | "-" | "_") ~ (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")* }
 
 String = { "\"" ~ StringLiteral ~ "\"" }
 
-- 
2.43.0


From 587ecf092acfaadbd2761161f743e1f53dac2a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 47/55] fix: bind property which is named this

---
 src/view_model.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 0b5e1b2..1b2b2e5 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -636,8 +636,6 @@ pub struct Schema {
 }
 
 impl Schema {
-    const THIS: &'static str = "/this";
-
     pub fn new() -> Self {
         Self { value: json!({}) }
     }
@@ -655,9 +653,6 @@ impl Schema {
     }
 
     fn define_value(mut target: &mut Value, pointer: &str) {
-        if pointer == Schema::THIS {
-            return;
-        }
         for token in pointer.split('/').skip(1) {
             match token.parse::<usize>() {
                 Ok(index) => {
-- 
2.43.0


From f21f29b34ea1326b1e34f82f79d2c982a99bde85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:34 +0000
Subject: [PATCH 48/55] fix: bind items of arrays which are addressed by number

---
 src/view_model.rs | 71 +++++++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 1b2b2e5..882a601 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -109,10 +109,12 @@ impl ViewModel {
             }
             Value::Object(schema) => {
                 for (key, schema) in schema {
+                    // a key can be a number of array item
+                    let pointer = format!("/{key}");
                     Self::bind_value(
                         schema,
-                        previous.map(|previous| previous.get(key).unwrap_or(&Value::Null)),
-                        next.get(key).unwrap_or(&Value::Null),
+                        previous.map(|value| value.pointer(&pointer).unwrap_or(&Value::Null)),
+                        next.pointer(&pointer).unwrap_or(&Value::Null),
                         &format!("{path}/{key}"),
                         bindings,
                         reactions,
@@ -642,41 +644,56 @@ impl Schema {
 
     pub fn index(&mut self, array: &str, i: usize) -> String {
         let pointer = format!("{array}/{i}");
-        Self::define_value(&mut self.value, &pointer);
+        let target = Self::define_value(&mut self.value, array, usize::MAX);
+        if target.is_null() {
+            *target = json!([]);
+        }
+        match target.as_array_mut() {
+            Some(array) if array.len() <= i => array.resize(i + 1, Value::Null),
+            Some(_) => {}
+            None => {
+                Self::define_key(target, &i.to_string());
+            }
+        }
         pointer
     }
 
     pub fn field(&mut self, binder: &Binder, locals: &HashMap<String, String>) -> String {
         let pointer = binder.to_json_pointer(locals);
-        Self::define_value(&mut self.value, &pointer);
+        let defined = match locals.get(&binder.path[0]) {
+            Some(local) => local.split('/').count() - 1,
+            None => 0,
+        };
+        Self::define_value(&mut self.value, &pointer, defined);
         pointer
     }
 
-    fn define_value(mut target: &mut Value, pointer: &str) {
-        for token in pointer.split('/').skip(1) {
-            match token.parse::<usize>() {
-                Ok(index) => {
-                    if !target.is_array() {
-                        *target = json!([]);
-                    }
-                    let array = target.as_array_mut().unwrap();
-                    if array.len() <= index {
-                        array.resize(index + 1, Value::Null);
-                    }
-                    target = &mut array[index];
-                }
-                _ => {
-                    if !target.is_object() {
-                        *target = json!({});
-                    }
-                    let object = target.as_object_mut().unwrap();
-                    if !object.contains_key(token) {
-                        object.insert(token.to_string(), Value::Null);
-                    }
-                    target = object.get_mut(token).unwrap();
-                }
+    /// Keys of pointer after the already defined ones are written in the binder, any of them can be
+    /// a number. In contrast to items of repeat, they must be bound even if array is too short.
+    fn define_value<'v>(
+        mut target: &'v mut Value,
+        pointer: &str,
+        defined: usize,
+    ) -> &'v mut Value {
+        for (depth, key) in pointer.split('/').skip(1).enumerate() {
+            target = match key.parse::<usize>() {
+                Ok(index) if target.is_array() && depth < defined => &mut target[index],
+                _ => Self::define_key(target, key),
             }
         }
+        target
+    }
+
+    fn define_key<'v>(target: &'v mut Value, key: &str) -> &'v mut Value {
+        if let Value::Array(items) = target {
+            let items = take(items).into_iter().enumerate();
+            *target = items.map(|(i, item)| (i.to_string(), item)).collect();
+        }
+        if !target.is_object() {
+            *target = json!({});
+        }
+        let object = target.as_object_mut().unwrap();
+        object.entry(key).or_insert(Value::Null)
     }
 }
 
-- 
2.43.0


From 22071033f6d676517d360c5dd763fc5d235e3173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:02 +0000
Subject: [PATCH 49/55] fix: comments aren't searched for in scripts

---
 src/html/html.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index 4950b8a..545aa1a 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -10,7 +10,8 @@ Document = _{ SOI ~ Content+ ~ EOI }
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
 Content = _{ Script | Void | Text | Element  }
 
-Script = { "<script>" ~ (!"</script>" ~ ANY)* ~ "</script>" }
+// atomic because there are no comments in scripts
+Script = @{ "<script>" ~ (!"</script>" ~ ANY)* ~ "</script>" }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
 Element = { "<" ~ Tag ~ Attributes ~">" ~ Children ~ "<" ~ "/" ~  Tag ~ ">"}
-- 
2.43.0


From c41200fa6e38e3e2f5f0ae59f2f78af15746a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:13 +0000
Subject: [PATCH 50/55] fix: values of a list have transitions of their own

---
 src/animation.rs  | 41 ++++++++++++++++++++++++++---------------
 src/styles/mod.rs |  3 +--
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index deb86e3..ebd253c 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -8,7 +8,15 @@ use crate::Rgba;
 pub struct Transition {
     pub key: Option<PropertyKey>,
     pub animator: Animator,
-    pub range: Option<(ComputedValue, ComputedValue)>,
+    /// Every value of a list (of backgrounds, for example) goes on its own.
+    pub ranges: Vec<TransitionRange>,
+}
+
+#[derive(Clone)]
+pub struct TransitionRange {
+    pub from: ComputedValue,
+    pub to: ComputedValue,
+    pub time: f32,
 }
 
 impl Default for Transition {
@@ -16,28 +24,29 @@ impl Default for Transition {
         Self {
             key: None,
             animator: Default::default(),
-            range: None,
+            ranges: vec![],
         }
     }
 }
 
 impl Transition {
     pub fn init_after_style_applied(&mut self, style: &mut ComputedStyle) {
-        if self.range.is_some() {
-            return;
-        }
         let key = match self.key {
             Some(key) => key,
             None => return,
         };
-        let mut index = 0;
+        let mut index = self.ranges.len();
         loop {
             let descriptor = PropertyDescriptor::new(key, index);
             let value = match style.get(&descriptor) {
                 Some(value) => value,
                 None => return,
             };
-            self.range = Some((value.clone(), value.clone()));
+            self.ranges.push(TransitionRange {
+                from: value.clone(),
+                to: value.clone(),
+                time: 0.0,
+            });
             index += 1;
         }
     }
@@ -47,31 +56,33 @@ impl Transition {
             Some(key) => key,
             None => return,
         };
-        // value is not changed during delay of transition
-        let time = self.animator.update(time).unwrap_or(0.0);
         let mut index = 0;
         loop {
             let descriptor = PropertyDescriptor::new(key, index);
             let value = match style.get(&descriptor) {
                 Some(value) => value,
                 None => {
-                    if index == 0 {
-                        // property is not specified anymore, there is nothing to start from
-                        self.range = None;
-                    }
+                    // value is not specified anymore, there is nothing to start from
+                    self.ranges.truncate(index);
                     return;
                 }
             };
-            let (from, to) = match self.range.as_ref() {
+            let range = match self.ranges.get_mut(index) {
                 Some(range) => range,
                 // range will be initialized after style applied
                 None => return,
             };
+            self.animator.time = range.time;
+            // value is not changed during delay of transition
+            let time = self.animator.update(time).unwrap_or(0.0);
+            let (from, to) = (&range.from, &range.to);
             let current = animate(key, &from, &to, time);
             if to != value {
-                self.range = Some((current.clone(), value.clone()));
+                range.from = current.clone();
+                range.to = value.clone();
                 self.animator.restart();
             }
+            range.time = self.animator.time;
             if &current != value {
                 style.insert(descriptor, current);
             }
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index e1027d3..a32e783 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -136,8 +136,7 @@ impl<'c> Cascade<'c> {
         }
         for (transition, previous) in element.transitions.iter_mut().zip(transitions) {
             if transition.key == previous.key {
-                transition.animator.time = previous.animator.time;
-                transition.range = previous.range;
+                transition.ranges = previous.ranges;
             }
         }
         for transition in element.transitions.iter_mut() {
-- 
2.43.0


From e53e95d0d2292d8ba41cfd9577e1f2f34631f877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:56 +0000
Subject: [PATCH 51/55] fix: transitions do not follow values of animations

---
 src/styles/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index a32e783..debb1db 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -95,8 +95,17 @@ impl<'c> Cascade<'c> {
         if !element.style.is_empty() {
             self.compute_declaration_block(&element.style, &mut computed_style);
         }
-        // 3: animations
         let time = input.time.as_secs_f32();
+        // 3: transitions
+        for transition in element.transitions.iter_mut() {
+            transition.play(time, &mut computed_style);
+        }
+        // 4: animations, they are not changes of specified values
+        let mut specified_style = if element.animators.is_empty() {
+            None
+        } else {
+            Some(computed_style.clone())
+        };
         for animator in element.animators.iter_mut() {
             // TODO: animation blending
             let animation = match self.css.animations.get(&animator.name) {
@@ -111,10 +120,6 @@ impl<'c> Cascade<'c> {
             animator.play(time, &tracks, &mut computed_style);
         }
         // TODO: !important
-        // 4: transitions
-        for transition in element.transitions.iter_mut() {
-            transition.play(time, &mut computed_style);
-        }
         // animations and transitions which are not specified anymore do not affect the element
         let animators = take(&mut element.animators);
         let transitions = take(&mut element.transitions);
@@ -140,7 +145,8 @@ impl<'c> Cascade<'c> {
             }
         }
         for transition in element.transitions.iter_mut() {
-            transition.init_after_style_applied(&mut computed_style);
+            let specified_style = specified_style.as_mut().unwrap_or(&mut computed_style);
+            transition.init_after_style_applied(specified_style);
         }
     }
 
-- 
2.43.0


From 5b8fd18da054e08f4cc38097729b06bcb24d483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:16 +0000
Subject: [PATCH 52/55] fix: presence of class and id is a change of them

---
 src/rendering.rs | 6 ++++++
 src/view.rs      | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/rendering.rs b/src/rendering.rs
index 8a21024..273fb3a 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -147,6 +147,12 @@ impl Renderer {
                         pipe: binder.pipe.clone(),
                     };
                     self.bindings.entry(path).or_default().push(binding);
+                    if key == "class" {
+                        element.style_hints.has_dynamic_classes = true;
+                    }
+                    if key == "id" {
+                        element.style_hints.has_dynamic_id = true;
+                    }
                     element.style_hints.dynamic_attrs.insert(key);
                 }
                 ElementBinding::Attribute(key, text) => {
diff --git a/src/view.rs b/src/view.rs
index 75b652f..69fd897 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -279,6 +279,13 @@ impl View {
                 } else {
                     element.attrs.remove(&key);
                 };
+                if key == "id" {
+                    let nodes = self.identified.entry(key).or_default();
+                    nodes.retain(|other| *other != node);
+                    if tag {
+                        nodes.push(node);
+                    }
+                }
             }
             Reaction::Bind {
                 node,
-- 
2.43.0


From a10240168bf56169b632db9ad24c43d3616723c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:18 +0000
Subject: [PATCH 53/55] fix: a press starts one drag, which ends with release
 of the left button and no clicks

---
 src/view_model.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 882a601..42bdb41 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -285,7 +285,10 @@ impl ViewModel {
 
                         let event = MouseEvent::new(self.mouse, element);
                         self.emit(&element, "onmousedown", event);
-                        if button == MouseButtons::Left && element.draggable() {
+                        if button == MouseButtons::Left
+                            && self.drag.is_none()
+                            && element.draggable()
+                        {
                             let event = MouseEvent::new(self.mouse, element);
                             self.emit(element, "ondragstart", event);
                             self.drag = DragContext::new(node);
@@ -293,13 +296,16 @@ impl ViewModel {
                     }
                 }
                 InputEvent::MouseButtonUp(button) => {
+                    let is_drag = self.drag.is_some();
                     let elements_under_mouse = self.elements_under_mouse.clone();
                     for node in elements_under_mouse.iter().rev() {
                         let element = tree.get_element_mut(*node)?;
                         let event = MouseEvent::new(self.mouse, element);
                         self.emit(&element, "onmouseup", event);
                         if let Some(drag) = self.drag.as_mut() {
-                            if element.listeners.contains_key("ondrop") {
+                            if button == MouseButtons::Left
+                                && element.listeners.contains_key("ondrop")
+                            {
                                 // valid drop target
                                 let source = drag.source;
                                 let event = MouseEvent::new(self.mouse, element);
@@ -309,7 +315,7 @@ impl ViewModel {
                                 let event = MouseEvent::new(self.mouse, element);
                                 self.emit(element, "ondragend", event);
                             }
-                        } else {
+                        } else if !is_drag {
                             if button == MouseButtons::Left && element.state.active {
                                 let event = MouseEvent::new(self.mouse, element);
                                 self.emit(&element, "onclick", event);
@@ -320,7 +326,7 @@ impl ViewModel {
                             }
                         }
                     }
-                    if let Some(drag) = self.drag.take() {
+                    if let Some(drag) = self.drag.take_if(|_| button == MouseButtons::Left) {
                         // released out of drop targets
                         let element = tree.get_element_mut(drag.source)?;
                         let event = MouseEvent::new(self.mouse, element);
-- 
2.43.0


From bfe6356264c8e6f1f18cfec914d956a13af900ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:20 +0000
Subject: [PATCH 54/55] fix: clicks and active state are of the button which
 was pressed

---
 src/view_model.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 42bdb41..e0b00c4 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -27,7 +27,7 @@ pub struct ViewModel {
     // pub(crate) focus: Option<NodeId>,
     pub(crate) mouse: [f32; 2],
     pub(crate) elements_under_mouse: Vec<NodeId>,
-    pub(crate) elements_in_action: Vec<NodeId>,
+    pub(crate) elements_in_action: Vec<(NodeId, MouseButtons)>,
     output: Output,
     pub(crate) drag: Option<DragContext>,
     pub(crate) focus: Option<NodeId>,
@@ -261,7 +261,7 @@ impl ViewModel {
                         let mut element = tree.get_element_mut(node)?;
 
                         element.state.active = true;
-                        self.elements_in_action.push(node);
+                        self.elements_in_action.push((node, button));
 
                         if element.listeners.contains_key("oninput") {
                             // valid focus target
@@ -316,7 +316,8 @@ impl ViewModel {
                                 self.emit(element, "ondragend", event);
                             }
                         } else if !is_drag {
-                            if button == MouseButtons::Left && element.state.active {
+                            let is_pressed = self.elements_in_action.contains(&(*node, button));
+                            if button == MouseButtons::Left && is_pressed {
                                 let event = MouseEvent::new(self.mouse, element);
                                 self.emit(&element, "onclick", event);
                             }
@@ -332,9 +333,18 @@ impl ViewModel {
                         let event = MouseEvent::new(self.mouse, element);
                         self.emit(element, "ondragend", event);
                     }
-                    for node in take(&mut self.elements_in_action) {
-                        let element = tree.get_element_mut(node)?;
-                        element.state.active = false;
+                    for (node, pressed) in take(&mut self.elements_in_action) {
+                        if pressed == button {
+                            let element = tree.get_element_mut(node)?;
+                            element.state.active = false;
+                        } else {
+                            self.elements_in_action.push((node, pressed));
+                        }
+                    }
+                    // pressed by other button
+                    for (node, _) in self.elements_in_action.iter() {
+                        let element = tree.get_element_mut(*node)?;
+                        element.state.active = true;
                     }
                 }
                 InputEvent::MouseWheel(_) => {}
-- 
2.43.0


From 8f2e5bf6d36870e73342f609a2bc3a87dce29f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:22 +0000
Subject: [PATCH 55/55] fix: a press gives focus to the deepest of text fields
 only

---
 src/view_model.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index e0b00c4..5df1813 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -256,6 +256,7 @@ impl ViewModel {
                             self.emit(&element, "onblur", event);
                         }
                     }
+                    let mut has_focus_target = false;
                     let elements_under_mouse = self.elements_under_mouse.clone();
                     for node in elements_under_mouse.iter().copied().rev() {
                         let mut element = tree.get_element_mut(node)?;
@@ -263,8 +264,9 @@ impl ViewModel {
                         element.state.active = true;
                         self.elements_in_action.push((node, button));
 
-                        if element.listeners.contains_key("oninput") {
+                        if !has_focus_target && element.listeners.contains_key("oninput") {
                             // valid focus target
+                            has_focus_target = true;
                             if let Some(focus) = self.focus {
                                 if focus != node {
                                     self.focus = None;
-- 
2.43.0

