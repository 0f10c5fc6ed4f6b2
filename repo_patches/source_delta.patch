From 101346cdf334319a20d46beb7544830738a194a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 01/21] fix: don't revalidate the whole output buffer to look
 at its last character

Every call walked the entire buffer, so printing n parameters cost O(n^2).
---
 src/demangler.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index fc12d3c..e5b9c97 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -119,7 +119,10 @@ mod writing {
         }
 
         fn last_char(&self) -> Option<char> {
-            match std::str::from_utf8(self.as_bytes()) {
+            // only decode the final character: the buffer can be large, and this is called often
+            let bytes = self.as_bytes();
+            let start = bytes.iter().rposition(|&x| (x & 0xC0) != 0x80)?;
+            match std::str::from_utf8(&bytes[start..]) {
                 Ok(string) => string.chars().next_back(),
                 Err(_) => None,
             }
-- 
2.43.0


From a5ea3d81bb1fc8425ecec94d9f537268f7c6361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 02/21] fix: separate types from what follows when a name ends
 in '_', '$' or a non-alphanumeric

'?x@@3Vfoo_@@A' printed as 'class foo_x'.
---
 src/nodes/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 647d303..dd6652b 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -114,7 +114,8 @@ use std::mem;
 
 fn output_space_if_necessary(ob: &mut dyn Writer) -> Result<()> {
     if let Some(c) = ob.last_char() {
-        if c.is_alphanumeric() || c == '>' {
+        // anything that can end an identifier would otherwise run into the next token
+        if c.is_alphanumeric() || !c.is_ascii() || matches!(c, '_' | '$' | '>') {
             write!(ob, " ")?;
         }
     }
-- 
2.43.0


From cc1970df595fd50fb1b087944d67de7ee6c0f75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 03/21] fix: apply NAME_ONLY to the primary declaration's
 signature only

The flag leaked into function types which are part of the name, and not
applied to all of the primary declaration:
'?f@@YAXX_E' printed 'f noexcept',
'??$A@P6AP6AXXZXZ@@YAXXZ' printed unbalanced parentheses,
'??$A@$$A6AXXZ@@YAXXZ' printed 'A<>', and
'??$A@P8B@@EBAXXZ@@YAXXZ' dropped the const.
---
 src/nodes/derived.rs | 75 +++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 6b1dcd1..f8ec6f8 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -153,7 +153,7 @@ impl FunctionSignatureNode {
         flags: OutputFlags,
         is_function_ptr: bool,
     ) -> Result<()> {
-        if !flags.no_access_specifier() && !flags.name_only() {
+        if !flags.no_access_specifier() {
             if self.function_class.is_public() {
                 write!(ob, "public: ")?;
             }
@@ -165,7 +165,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_member_type() && !flags.name_only() {
+        if !flags.no_member_type() {
             if !self.function_class.is_global() && self.function_class.is_static() {
                 write!(ob, "static ")?;
             }
@@ -177,18 +177,14 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
+        if !flags.no_return_type() {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_pre(cache, ob, flags)?;
                 write!(ob, " ")?;
             }
         }
 
-        if !is_function_ptr
-            && !flags.no_calling_convention()
-            && !flags.no_ms_keywords()
-            && !flags.name_only()
-        {
+        if !is_function_ptr && !flags.no_calling_convention() && !flags.no_ms_keywords() {
             if let Some(call_convention) = self.call_convention {
                 call_convention.output(ob, flags)?;
             }
@@ -202,9 +198,8 @@ impl FunctionSignatureNode {
         cache: &NodeCache,
         ob: &mut dyn Writer,
         flags: OutputFlags,
-        is_function_ptr: bool,
     ) -> Result<()> {
-        if (is_function_ptr || !flags.name_only()) && !self.function_class.no_parameter_list() {
+        if !self.function_class.no_parameter_list() {
             write!(ob, "(")?;
             if let Some(params) = self.params.map(|x| x.resolve(cache)) {
                 params.output(cache, ob, flags)?;
@@ -221,7 +216,7 @@ impl FunctionSignatureNode {
             write!(ob, ")")?;
         }
 
-        if !flags.no_this_type() && !flags.name_only() {
+        if !flags.no_this_type() {
             if self.quals.is_const() {
                 write!(ob, " const")?;
             }
@@ -250,7 +245,7 @@ impl FunctionSignatureNode {
             write!(ob, " noexcept")?;
         }
 
-        if !flags.no_this_type() && !flags.name_only() {
+        if !flags.no_this_type() {
             match self.ref_qualifier {
                 Some(FunctionRefQualifier::Reference) => write!(ob, " &")?,
                 Some(FunctionRefQualifier::RValueReference) => write!(ob, " &&")?,
@@ -258,7 +253,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && !flags.name_only() {
+        if !flags.no_return_type() {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_post(cache, ob, flags)?;
             }
@@ -301,7 +296,7 @@ impl WriteableTypeNode for FunctionSignatureNode {
         ob: &mut dyn Writer,
         flags: OutputFlags,
     ) -> Result<()> {
-        self.do_output_post(cache, ob, flags, false)
+        self.do_output_post(cache, ob, flags)
     }
 }
 
@@ -327,20 +322,12 @@ impl ThunkSignatureNode {
         flags: OutputFlags,
         is_function_ptr: bool,
     ) -> Result<()> {
-        if !flags.name_only() {
-            write!(ob, "[thunk]: ")?;
-        }
+        write!(ob, "[thunk]: ")?;
         self.function_node
             .do_output_pre(cache, ob, flags, is_function_ptr)
     }
 
-    fn do_output_post(
-        &self,
-        cache: &NodeCache,
-        ob: &mut dyn Writer,
-        flags: OutputFlags,
-        is_function_ptr: bool,
-    ) -> Result<()> {
+    fn output_this_adjust(&self, ob: &mut dyn Writer) -> Result<()> {
         let ThisAdjustor {
             static_offset,
             vbptr_offset,
@@ -358,8 +345,17 @@ impl ThunkSignatureNode {
             }
         }
 
-        self.function_node
-            .do_output_post(cache, ob, flags, is_function_ptr)
+        Ok(())
+    }
+
+    fn do_output_post(
+        &self,
+        cache: &NodeCache,
+        ob: &mut dyn Writer,
+        flags: OutputFlags,
+    ) -> Result<()> {
+        self.output_this_adjust(ob)?;
+        self.function_node.do_output_post(cache, ob, flags)
     }
 }
 
@@ -394,7 +390,7 @@ impl WriteableTypeNode for ThunkSignatureNode {
         ob: &mut dyn Writer,
         flags: OutputFlags,
     ) -> Result<()> {
-        self.do_output_post(cache, ob, flags, false)
+        self.do_output_post(cache, ob, flags)
     }
 }
 
@@ -490,12 +486,8 @@ impl WriteableTypeNode for PointerTypeNode {
         }
         if let TypeNode::Signature(sig) = pointee {
             match sig {
-                SignatureNode::FunctionSignature(func) => {
-                    func.do_output_post(cache, ob, flags, true)
-                }
-                SignatureNode::ThunkSignature(thunk) => {
-                    thunk.do_output_post(cache, ob, flags, true)
-                }
+                SignatureNode::FunctionSignature(func) => func.do_output_post(cache, ob, flags),
+                SignatureNode::ThunkSignature(thunk) => thunk.do_output_post(cache, ob, flags),
             }
         } else {
             pointee.output_post(cache, ob, flags)
@@ -1236,11 +1228,22 @@ pub(crate) struct FunctionSymbolNode {
 
 impl WriteableNode for FunctionSymbolNode {
     fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.signature.resolve(cache).output_pre(cache, ob, flags)?;
-        super::output_space_if_necessary(ob)?;
+        // the primary declaration drops its signature when only the name is requested, as opposed
+        // to the signatures of any function types which are a part of that name
+        let signature = self.signature.resolve(cache);
+        if !flags.name_only() {
+            signature.output_pre(cache, ob, flags)?;
+            super::output_space_if_necessary(ob)?;
+        }
         if let Some(name) = self.name {
             name.resolve(cache).output(cache, ob, flags)?;
         }
-        self.signature.resolve(cache).output_post(cache, ob, flags)
+        if !flags.name_only() {
+            signature.output_post(cache, ob, flags)
+        } else if let SignatureNode::ThunkSignature(thunk) = signature {
+            thunk.output_this_adjust(ob)
+        } else {
+            Ok(())
+        }
     }
 }
-- 
2.43.0


From 59ccc388a23e33eaa20e092609604670fdb5d540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 04/21] fix: don't leave a space behind for a __restrict
 suppressed by NO_MS_KEYWORDS

'?f@@YAXQEIAH@Z' printed 'void f(int *const )'.
---
 src/nodes/enums.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nodes/enums.rs b/src/nodes/enums.rs
index 70abf2f..0a53f2c 100644
--- a/src/nodes/enums.rs
+++ b/src/nodes/enums.rs
@@ -56,9 +56,6 @@ impl SingleQualifier {
             Self::Const => "const",
             Self::Volatile => "volatile",
             Self::Restrict => {
-                if flags.no_ms_keywords() {
-                    return Ok(());
-                }
                 if flags.no_leading_underscores() {
                     "restrict"
                 } else {
@@ -122,7 +119,8 @@ impl Qualifiers {
         mask: SingleQualifier,
         needs_space: bool,
     ) -> Result<bool> {
-        if !self.contains(mask.into()) {
+        let suppressed = matches!(mask, SingleQualifier::Restrict) && flags.no_ms_keywords();
+        if suppressed || !self.contains(mask.into()) {
             return Ok(needs_space);
         }
 
-- 
2.43.0


From acb451c4aa32d4d54cef59ead38409217aa19783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 05/21] fix: identify memorized template names by their mangled
 text

They were identified by how they print, which depends on the flags and isn't
unique: '?f@@YAXV?$A@Vx@@@@V?$A@Ux@@@@Vy@@V3@@Z' failed to demangle with
NO_TAG_SPECIFIER or NAME_ONLY.
---
 src/demangler.rs | 73 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 24 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index e5b9c97..0267bcd 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -198,12 +198,14 @@ mod writing {
 use writing::BufWriter;
 
 #[derive(Default)]
-struct BackrefContext {
+struct BackrefContext<'alloc> {
     function_params: ArrayVec<NodeHandle<ITypeNode>, 10>,
 
     // The first 10 BackReferences in a mangled name can be back-referenced by
     // special name @[0-9]. This is a storage for the first 10 BackReferences.
-    names: ArrayVec<NodeHandle<NamedIdentifier>, 10>,
+    // Each one is stored alongside the mangled text it stands for, which is what
+    // tells them apart: distinct names can look the same once they're demangled.
+    names: ArrayVec<(&'alloc str, NodeHandle<NamedIdentifier>), 10>,
 }
 
 #[derive(Clone, Copy)]
@@ -245,7 +247,7 @@ pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
-    backrefs: BackrefContext,
+    backrefs: BackrefContext<'alloc>,
     flags: OutputFlags,
 }
 
@@ -937,7 +939,8 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
                                     .get_unqualified_identifier(&self.cache)
                             })
                             .ok_or(Error::InvalidTemplateParameterList)?;
-                        self.memorize_identifier(identifier)?;
+                        let key = self.render_identifier(identifier, OutputFlags::default())?;
+                        self.memorize_identifier(key, identifier)?;
                         Some(symbol)
                     } else {
                         None
@@ -1095,34 +1098,53 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // First 10 strings can be referenced by special BackReferences ?0, ?1, ..., ?9.
     // Memorize it.
     fn memorize_string(&mut self, s: &'alloc str) -> Result<()> {
-        if !self.backrefs.names.is_full()
-            && self
-                .backrefs
-                .names
-                .iter()
-                .all(|x| x.resolve(&self.cache).name != s)
-        {
-            let name = self.cache.intern(NamedIdentifierNode {
-                name: s,
-                ..Default::default()
-            })?;
-            // SAFETY: we just verified the array is not full
-            unsafe { self.backrefs.names.push_unchecked(name) };
+        if self.can_memorize(s) {
+            self.memorize_name(s, s)?;
+        }
+        Ok(())
+    }
+
+    fn memorize_identifier(
+        &mut self,
+        key: &'alloc str,
+        identifier: NodeHandle<IIdentifierNode>,
+    ) -> Result<()> {
+        if self.can_memorize(key) {
+            // Render this class template name into a string buffer so that we can
+            // memorize it for the purpose of back-referencing.
+            let name = self.render_identifier(identifier, self.flags)?;
+            self.memorize_name(key, name)?;
         }
         Ok(())
     }
 
-    fn memorize_identifier(&mut self, identifier: NodeHandle<IIdentifierNode>) -> Result<()> {
-        // Render this class template name into a string buffer so that we can
-        // memorize it for the purpose of back-referencing.
+    #[must_use]
+    fn can_memorize(&self, key: &str) -> bool {
+        !self.backrefs.names.is_full() && self.backrefs.names.iter().all(|&(x, _)| x != key)
+    }
+
+    fn memorize_name(&mut self, key: &'alloc str, name: &'alloc str) -> Result<()> {
+        let name = self.cache.intern(NamedIdentifierNode {
+            name,
+            ..Default::default()
+        })?;
+        _ = self.backrefs.names.try_push((key, name));
+        Ok(())
+    }
+
+    fn render_identifier(
+        &self,
+        identifier: NodeHandle<IIdentifierNode>,
+        flags: OutputFlags,
+    ) -> Result<&'alloc str> {
         let mut ob = {
             let ob = alloc::new_vec(self.allocator);
             BufWriter::new(ob)
         };
         identifier
             .resolve(&self.cache)
-            .output(&self.cache, &mut ob, self.flags)?;
-        self.memorize_string(ob.try_into()?)
+            .output(&self.cache, &mut ob, flags)?;
+        Ok(ob.try_into()?)
     }
 
     // Parses a type name in the form of A@B@C@@ which represents C::B::A.
@@ -1248,14 +1270,16 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .backrefs
             .names
             .get(i as usize)
+            .map(|&(_, node)| node)
             .ok_or(Error::InvalidBackRef)?;
-        Ok(*node)
+        Ok(node)
     }
 
     fn demangle_template_instantiation_name(
         &mut self,
         nbb: NameBackrefBehavior,
     ) -> Result<NodeHandle<IIdentifierNode>> {
+        let mangled_copy = self.mangled_name.as_str();
         self.mangled_name
             .try_consume_str("?$")
             .ok_or(Error::InvalidTemplateInstantiationName)?;
@@ -1281,7 +1305,8 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             ) {
                 return Err(Error::InvalidTemplateInstantiationName);
             }
-            self.memorize_identifier(identifier)?;
+            let key = &mangled_copy[..mangled_copy.len() - self.mangled_name.len_bytes()];
+            self.memorize_identifier(key, identifier)?;
         }
 
         Ok(identifier)
-- 
2.43.0


From 7e6d070116e303166be17c85f6ae33bf1066f6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 06/21] fix: print back-references to an anonymous namespace as
 such

They printed the namespace's key instead: '?f@?A0x1234@foo@@YAXVx@1@@Z' printed
'class 0x1234::x'.
---
 src/demangler.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 0267bcd..4725f21 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1771,9 +1771,9 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     }
 
     fn demangle_anonymous_namespace_name(&mut self) -> Result<NodeHandle<NamedIdentifier>> {
-        self.mangled_name
-            .try_consume_str("?A")
-            .ok_or(Error::InvalidAnonymousNamespaceName)?;
+        if !self.mangled_name.starts_with("?A") {
+            return Err(Error::InvalidAnonymousNamespaceName);
+        }
         let pos = self
             .mangled_name
             .find_char('@')
@@ -1782,12 +1782,15 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .mangled_name
             .try_consume_n_bytes(pos)
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
-        self.memorize_string(namespace_key)?;
+        let name = "`anonymous namespace'";
+        if self.can_memorize(namespace_key) {
+            self.memorize_name(namespace_key, name)?;
+        }
         self.mangled_name
             .try_consume_char('@')
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
         self.cache.intern(NamedIdentifierNode {
-            name: "`anonymous namespace'",
+            name,
             ..Default::default()
         })
     }
-- 
2.43.0


From 07eba8502a172a92553a8cf13e353fa5fc366cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 07/21] fix: don't memorize operators and the like when they're
 a template argument

'?g3@@YAXU?$M@$1??HS@@QEAAXH@ZUX@@U2@@@@Z' printed 'struct operator+' instead
of 'struct X'.
---
 src/demangler.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 4725f21..bb78b11 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -939,8 +939,14 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
                                     .get_unqualified_identifier(&self.cache)
                             })
                             .ok_or(Error::InvalidTemplateParameterList)?;
-                        let key = self.render_identifier(identifier, OutputFlags::default())?;
-                        self.memorize_identifier(key, identifier)?;
+                        // simple names were already memorized, and operators never are
+                        if matches!(
+                            identifier.resolve(&self.cache),
+                            IdentifierNode::NamedIdentifier(x) if x.template_params.is_some()
+                        ) {
+                            let key = self.render_identifier(identifier, OutputFlags::default())?;
+                            self.memorize_identifier(key, identifier)?;
+                        }
                         Some(symbol)
                     } else {
                         None
-- 
2.43.0


From 581d8a8803272e40fbe35396e8bc8acfe87a2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 08/21] fix: limit how deep symbols can nest

Symbols such as '?x@@3' + 'PA' * 10000 + 'HA' overflowed the stack, which aborts
the process. A depth of 256 uses less than 1 MiB of it in a debug build.
---
 src/demangler.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/demangler.rs b/src/demangler.rs
index bb78b11..b1972ac 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -243,12 +243,17 @@ enum FunctionIdentifierCodeGroup {
     DoubleUnder,
 }
 
+// Symbols nest types, templates, and whole symbols within one another. Limit how deep that goes,
+// so that no symbol can exhaust the stack.
+const MAX_DEPTH: usize = 256;
+
 pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
     backrefs: BackrefContext<'alloc>,
     flags: OutputFlags,
+    depth: usize,
 }
 
 impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
@@ -263,7 +268,18 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             cache: NodeCache::new(allocator),
             backrefs: BackrefContext::default(),
             flags,
+            depth: 0,
+        }
+    }
+
+    fn nested<T>(&mut self, f: impl FnOnce(&mut Self) -> Result<T>) -> Result<T> {
+        if self.depth >= MAX_DEPTH {
+            return Err(Error::MaliciousInput);
         }
+        self.depth += 1;
+        let result = f(self);
+        self.depth -= 1;
+        result
     }
 
     pub(crate) fn parse_into(mut self, result: &mut String) -> Result<()> {
@@ -297,6 +313,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     }
 
     fn do_parse(&mut self) -> Result<NodeHandle<ISymbolNode>> {
+        self.nested(Self::demangle_symbol)
+    }
+
+    fn demangle_symbol(&mut self) -> Result<NodeHandle<ISymbolNode>> {
         // Typeinfo names are strings stored in RTTI data. They're not symbol names.
         // It's still useful to demangle them. They're the only demangled entity
         // that doesn't start with a "?" but a ".".
@@ -549,6 +569,13 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // <variable-type> ::= <type> <cvr-qualifiers>
     //                 ::= <type> <pointee-cvr-qualifiers> # pointers, references
     fn demangle_type(&mut self, qmm: QualifierMangleMode) -> Result<NodeHandle<ITypeNode>> {
+        self.nested(|this| this.demangle_qualified_type(qmm))
+    }
+
+    fn demangle_qualified_type(
+        &mut self,
+        qmm: QualifierMangleMode,
+    ) -> Result<NodeHandle<ITypeNode>> {
         let quals = match qmm {
             QualifierMangleMode::Mangle => self.demangle_qualifiers()?.0,
             QualifierMangleMode::Result => {
@@ -1284,6 +1311,13 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     fn demangle_template_instantiation_name(
         &mut self,
         nbb: NameBackrefBehavior,
+    ) -> Result<NodeHandle<IIdentifierNode>> {
+        self.nested(|this| this.demangle_template_instantiation(nbb))
+    }
+
+    fn demangle_template_instantiation(
+        &mut self,
+        nbb: NameBackrefBehavior,
     ) -> Result<NodeHandle<IIdentifierNode>> {
         let mangled_copy = self.mangled_name.as_str();
         self.mangled_name
-- 
2.43.0


From 7c7c68196215672c5f02f994e1dbc1bd04fa00d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 09/21] fix: keep the qualifiers of what a member data pointer
 points to

---
 src/demangler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index b1972ac..1db76a2 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -755,9 +755,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             }
             let class_parent = self.demangle_fully_qualified_type_name()?;
             let pointee = self.demangle_type(QualifierMangleMode::Drop)?;
+            // the pointee can already have qualifiers of its own, such as __restrict
             pointee
                 .resolve_mut(&mut self.cache)
-                .set_quals(pointee_quals);
+                .append_quals(pointee_quals);
             (Some(class_parent), pointee)
         };
 
-- 
2.43.0


From 7e53e63dbb8ad57515fd4d86046598b8b1aede8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 10/21] fix: don't repeat the qualifiers of an array after its
 elements

A pointer to an array as a variable has the qualifiers of the array's
elements mangled a second time, after its type: ?x@@3PEAY02QEAHEB is
what clang emits for 'int *const (*x)[3]'. They came out twice.
---
 src/nodes/derived.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index f8ec6f8..042683b 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -589,10 +589,15 @@ impl WriteableNode for ArrayTypeNode {
 
 impl WriteableTypeNode for ArrayTypeNode {
     fn output_pre(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.element_type
-            .resolve(cache)
-            .output_pre(cache, ob, flags)?;
-        self.quals.output(ob, flags, true, false)
+        let element_type = self.element_type.resolve(cache);
+        element_type.output_pre(cache, ob, flags)?;
+
+        // the qualifiers of an array are those of its elements, which a pointer has stated already
+        let quals = match element_type {
+            TypeNode::PointerType(pointer) => self.quals.difference(pointer.quals),
+            _ => self.quals,
+        };
+        quals.output(ob, flags, true, false)
     }
 
     fn output_post(
-- 
2.43.0


From 0c6562c0c2b101c25621c72c67439a89fc429440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 11/21] fix: memorize the names of variable templates, and not
 those of function templates

Only variable templates take part in back-references, ahead of the names of
their scope. '??$pv@H@@3P6AXUX@@PEAU1@@ZEA' was rejected,
'?g@@YAXU?$M@$1??$f@H@@YAXPEAH@ZUX@@U1@@@@Z' printed 'f<int>' for the second
'X', and '?g@@YAXU?$O@$1??$v@H@C@@2HA$1?12@2HA@@@Z' printed 'v<int>::C' for the
second 'C::v<int>'.
---
 src/demangler.rs | 52 +++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 1db76a2..a1dd384 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -959,21 +959,8 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
                 let mut tprn = TemplateParameterReferenceNode {
                     symbol: if self.mangled_name.starts_with("?") {
                         let symbol = self.do_parse()?;
-                        let identifier = symbol
-                            .resolve(&self.cache)
-                            .get_name()
-                            .and_then(|x| {
-                                x.resolve(&self.cache)
-                                    .get_unqualified_identifier(&self.cache)
-                            })
-                            .ok_or(Error::InvalidTemplateParameterList)?;
-                        // simple names were already memorized, and operators never are
-                        if matches!(
-                            identifier.resolve(&self.cache),
-                            IdentifierNode::NamedIdentifier(x) if x.template_params.is_some()
-                        ) {
-                            let key = self.render_identifier(identifier, OutputFlags::default())?;
-                            self.memorize_identifier(key, identifier)?;
+                        if symbol.resolve(&self.cache).get_name().is_none() {
+                            return Err(Error::InvalidTemplateParameterList);
                         }
                         Some(symbol)
                     } else {
@@ -1192,13 +1179,38 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // so we separate out the implementations for flexibility.
     fn demangle_fully_qualified_symbol_name(&mut self) -> Result<NodeHandle<QualifiedName>> {
         // This is the final component of a symbol name (i.e. the leftmost component
-        // of a mangled name. Since the only possible template instantiation that
-        // can appear in this context is a function template, and since those are
-        // not saved for the purposes of name backreferences, only backref simple
-        // names.
+        // of a mangled name. Function templates aren't saved for the purposes of
+        // name backreferences, so start out by only saving simple names.
 
+        let start = self.mangled_name.as_str();
         let identifier = self.demangle_unqualified_symbol_name(NameBackrefBehavior::NBB_Simple)?;
-        let qn = self.demangle_name_scope_chain(identifier)?;
+        let scope = self.mangled_name;
+        let names = self.backrefs.names.len();
+        let params = self.backrefs.function_params.len();
+        let mut qn = self.demangle_name_scope_chain(identifier);
+
+        // Variable templates are saved, in front of the names of their scope. What we're
+        // looking at only turns out now, so go over the scope again.
+        let is_variable =
+            |x: MangledString<'_>| x.first_char().is_some_and(|x| ('0'..='4').contains(&x));
+        if start.starts_with("?$")
+            && matches!(
+                identifier.resolve(&self.cache),
+                IdentifierNode::NamedIdentifier(_)
+            )
+            && (qn.is_err() || is_variable(self.mangled_name))
+        {
+            self.mangled_name = scope;
+            self.backrefs.names.truncate(names);
+            self.backrefs.function_params.truncate(params);
+            let key = &start[..start.len() - scope.len_bytes()];
+            self.memorize_identifier(key, identifier)?;
+            let variable_qn = self.demangle_name_scope_chain(identifier);
+            if qn.is_ok() || is_variable(self.mangled_name) {
+                qn = variable_qn;
+            }
+        }
+        let qn = qn?;
 
         if let Some(sin) = identifier.downcast::<StructorIdentifier>(&self.cache) {
             let class_node = {
-- 
2.43.0


From 4c076d82bf211177259d72570efcd1da2a9642ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 12/21] fix: recognize initializers of variable templates

'??__E?$v@H@@YAXXZ' was rejected: its ? is that of the template, not the one that
marks static data members.
---
 src/demangler.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index a1dd384..621957c 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1752,8 +1752,24 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         &mut self,
         is_destructor: bool,
     ) -> Result<NodeHandle<FunctionSymbol>> {
-        let is_known_static_data_member = self.mangled_name.try_consume_char('?').is_some();
-        let symbol = self.demangle_declarator()?;
+        let start = self.mangled_name;
+        let names = self.backrefs.names.len();
+        let params = self.backrefs.function_params.len();
+        let mut is_known_static_data_member = self.mangled_name.try_consume_char('?').is_some();
+        let mut symbol = self.demangle_declarator();
+        if start.starts_with("?$")
+            && !symbol
+                .as_ref()
+                .is_ok_and(|x| x.downcast::<VariableSymbol>(&self.cache).is_some())
+        {
+            // The ? belongs to the name of a variable template, not of a member.
+            self.mangled_name = start;
+            self.backrefs.names.truncate(names);
+            self.backrefs.function_params.truncate(params);
+            is_known_static_data_member = false;
+            symbol = self.demangle_declarator();
+        }
+        let symbol = symbol?;
         if let Some(variable) = symbol.downcast::<VariableSymbol>(&self.cache) {
             // Older versions of clang mangled this type of symbol incorrectly. They
             // would omit the leading ? and they would only emit a single @ at the end.
-- 
2.43.0


From 0e5ab97ae4f48ebd1c5845429c24bac774c1de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 13/21] fix: restore back-references when template arguments
 turn out invalid

Names whose scope is gone over a second time saw those of the arguments that
had failed instead of their own.
---
 src/demangler.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 621957c..90473d4 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1337,16 +1337,19 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .try_consume_str("?$")
             .ok_or(Error::InvalidTemplateInstantiationName)?;
 
+        // the outer context has to be back in place even if this fails, since what
+        // we're in the middle of may be gone over again
         let outer_context = mem::take(&mut self.backrefs);
-        let identifier = self.demangle_unqualified_symbol_name(NameBackrefBehavior::NBB_Simple)?;
-        {
-            let template_params = self.demangle_template_parameter_list()?;
-            identifier
-                .resolve_mut(&mut self.cache)
-                .set_template_params(template_params);
-        }
+        let identifier = self
+            .demangle_unqualified_symbol_name(NameBackrefBehavior::NBB_Simple)
+            .and_then(|x| Ok((x, self.demangle_template_parameter_list()?)));
+        self.backrefs = outer_context;
+
+        let (identifier, template_params) = identifier?;
+        identifier
+            .resolve_mut(&mut self.cache)
+            .set_template_params(template_params);
 
-        _ = mem::replace(&mut self.backrefs, outer_context);
         if nbb.is_template() {
             // NBB_Template is only set for types and non-leaf names ("a::" in "a::b").
             // Structors and conversion operators only makes sense in a leaf name, so
-- 
2.43.0


From d391c6321ab80462dab26b0345461274f58d47ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 14/21] fix: keep the qualifiers of types known by their name
 only

'?f@@YA?B?<auto>@@XZ', a function that returns 'const auto', lost its 'const'.
---
 src/nodes/derived.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 042683b..a2d3b19 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -629,7 +629,8 @@ impl WriteableNode for CustomTypeNode {
 
 impl WriteableTypeNode for CustomTypeNode {
     fn output_pre(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.identifier.resolve(cache).output(cache, ob, flags)
+        self.identifier.resolve(cache).output(cache, ob, flags)?;
+        self.quals.output(ob, flags, true, false)
     }
 
     fn output_post(&self, _: &NodeCache, _: &mut dyn Writer, _: OutputFlags) -> Result<()> {
-- 
2.43.0


From 503d0e4f702d012134a1f06517a39f890ed562db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 15/21] fix: limit how much text is rendered ahead of time

Local scopes and memorized templates are rendered while parsing, each to up to
1 MiB, and the text is kept: '?x@?1??f@@YAX' with a few levels of repeated
parameters, followed by 200 scopes '?1??g@@YAX4@Z', took 260 MiB for 2.7 KB.
---
 src/demangler.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 90473d4..f78ea5b 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -92,7 +92,10 @@ use crate::{
     Writer,
 };
 use arrayvec::ArrayVec;
-use bumpalo::Bump;
+use bumpalo::{
+    collections::Vec as BumpVec,
+    Bump,
+};
 use smallvec::SmallVec;
 use std::{
     io,
@@ -247,6 +250,10 @@ enum FunctionIdentifierCodeGroup {
 // so that no symbol can exhaust the stack.
 const MAX_DEPTH: usize = 256;
 
+// Parts of a symbol are rendered ahead of time, and kept around. Limit how much text that comes
+// to, since a few bytes of symbol can stand for a lot of it.
+const MAX_RENDERED: usize = 4 << 20;
+
 pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
@@ -254,6 +261,7 @@ pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     backrefs: BackrefContext<'alloc>,
     flags: OutputFlags,
     depth: usize,
+    rendered: usize,
 }
 
 impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
@@ -269,6 +277,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             backrefs: BackrefContext::default(),
             flags,
             depth: 0,
+            rendered: 0,
         }
     }
 
@@ -1154,7 +1163,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     }
 
     fn render_identifier(
-        &self,
+        &mut self,
         identifier: NodeHandle<IIdentifierNode>,
         flags: OutputFlags,
     ) -> Result<&'alloc str> {
@@ -1165,6 +1174,14 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         identifier
             .resolve(&self.cache)
             .output(&self.cache, &mut ob, flags)?;
+        self.finish_rendering(ob)
+    }
+
+    fn finish_rendering(&mut self, ob: BufWriter<BumpVec<'alloc, u8>>) -> Result<&'alloc str> {
+        self.rendered += ob.len_bytes();
+        if self.rendered > MAX_RENDERED {
+            return Err(Error::MaliciousInput);
+        }
         Ok(ob.try_into()?)
     }
 
@@ -1892,7 +1909,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         scope.output(&self.cache, &mut ob, self.flags)?;
         write!(ob, "'::`{number}'")?;
 
-        identifier.name = ob.try_into()?;
+        identifier.name = self.finish_rendering(ob)?;
         self.cache.intern(identifier)
     }
 
-- 
2.43.0


From 9f2fcbbc789b755f17799997756c1ed52f1b92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 16/21] fix: don't render templates again at every level
 they're memorized at

Each template instantiation was rendered in full to be memorized, and so were the ones within
it, which made the cost of nested templates grow with the square of their depth. What's
memorized is the node itself now.
---
 src/demangler.rs | 43 ++++++++++---------------------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index f78ea5b..9e333df 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -208,7 +208,7 @@ struct BackrefContext<'alloc> {
     // special name @[0-9]. This is a storage for the first 10 BackReferences.
     // Each one is stored alongside the mangled text it stands for, which is what
     // tells them apart: distinct names can look the same once they're demangled.
-    names: ArrayVec<(&'alloc str, NodeHandle<NamedIdentifier>), 10>,
+    names: ArrayVec<(&'alloc str, NodeHandle<IIdentifierNode>), 10>,
 }
 
 #[derive(Clone, Copy)]
@@ -1134,18 +1134,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         Ok(())
     }
 
-    fn memorize_identifier(
-        &mut self,
-        key: &'alloc str,
-        identifier: NodeHandle<IIdentifierNode>,
-    ) -> Result<()> {
+    fn memorize_identifier(&mut self, key: &'alloc str, identifier: NodeHandle<IIdentifierNode>) {
         if self.can_memorize(key) {
-            // Render this class template name into a string buffer so that we can
-            // memorize it for the purpose of back-referencing.
-            let name = self.render_identifier(identifier, self.flags)?;
-            self.memorize_name(key, name)?;
+            _ = self.backrefs.names.try_push((key, identifier));
         }
-        Ok(())
     }
 
     #[must_use]
@@ -1158,25 +1150,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             name,
             ..Default::default()
         })?;
-        _ = self.backrefs.names.try_push((key, name));
+        _ = self.backrefs.names.try_push((key, name.into()));
         Ok(())
     }
 
-    fn render_identifier(
-        &mut self,
-        identifier: NodeHandle<IIdentifierNode>,
-        flags: OutputFlags,
-    ) -> Result<&'alloc str> {
-        let mut ob = {
-            let ob = alloc::new_vec(self.allocator);
-            BufWriter::new(ob)
-        };
-        identifier
-            .resolve(&self.cache)
-            .output(&self.cache, &mut ob, flags)?;
-        self.finish_rendering(ob)
-    }
-
     fn finish_rendering(&mut self, ob: BufWriter<BumpVec<'alloc, u8>>) -> Result<&'alloc str> {
         self.rendered += ob.len_bytes();
         if self.rendered > MAX_RENDERED {
@@ -1221,7 +1198,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             self.backrefs.names.truncate(names);
             self.backrefs.function_params.truncate(params);
             let key = &start[..start.len() - scope.len_bytes()];
-            self.memorize_identifier(key, identifier)?;
+            self.memorize_identifier(key, identifier);
             let variable_qn = self.demangle_name_scope_chain(identifier);
             if qn.is_ok() || is_variable(self.mangled_name) {
                 qn = variable_qn;
@@ -1256,7 +1233,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .first_char()
             .is_some_and(|x| x.is_ascii_digit())
         {
-            self.demangle_back_ref_name().map(Into::into)
+            self.demangle_back_ref_name()
         } else if self.mangled_name.starts_with("?$") {
             self.demangle_template_instantiation_name(NameBackrefBehavior::NBB_Template)
         } else {
@@ -1273,7 +1250,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .first_char()
             .is_some_and(|x| x.is_ascii_digit())
         {
-            self.demangle_back_ref_name().map(Into::into)
+            self.demangle_back_ref_name()
         } else if self.mangled_name.starts_with("?$") {
             self.demangle_template_instantiation_name(nbb)
         } else if self.mangled_name.starts_with("?") {
@@ -1311,7 +1288,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .first_char()
             .is_some_and(|x| x.is_ascii_digit())
         {
-            self.demangle_back_ref_name().map(Into::into)
+            self.demangle_back_ref_name()
         } else if self.mangled_name.starts_with("?$") {
             self.demangle_template_instantiation_name(NameBackrefBehavior::NBB_Template)
         } else if self.mangled_name.starts_with("?A") {
@@ -1323,7 +1300,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         }
     }
 
-    fn demangle_back_ref_name(&mut self) -> Result<NodeHandle<NamedIdentifier>> {
+    fn demangle_back_ref_name(&mut self) -> Result<NodeHandle<IIdentifierNode>> {
         let c = self
             .mangled_name
             .try_consume_char_if(char::is_ascii_digit)
@@ -1379,7 +1356,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
                 return Err(Error::InvalidTemplateInstantiationName);
             }
             let key = &mangled_copy[..mangled_copy.len() - self.mangled_name.len_bytes()];
-            self.memorize_identifier(key, identifier)?;
+            self.memorize_identifier(key, identifier);
         }
 
         Ok(identifier)
-- 
2.43.0


From f3ca085f7225b822bdc1e3a31445b72514870b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:12 +0000
Subject: [PATCH 17/21] fix: don't go over the scopes of variable templates
 twice without need

Where one nests in the scope of another, each level doubled the work, until the limit on nodes
refused the symbol.
---
 src/demangler.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 9e333df..dd5c9c1 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -209,6 +209,9 @@ struct BackrefContext<'alloc> {
     // Each one is stored alongside the mangled text it stands for, which is what
     // tells them apart: distinct names can look the same once they're demangled.
     names: ArrayVec<(&'alloc str, NodeHandle<IIdentifierNode>), 10>,
+
+    // How often a name was referred to, or would have been had there been one.
+    name_references: usize,
 }
 
 #[derive(Clone, Copy)]
@@ -1181,10 +1184,11 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         let scope = self.mangled_name;
         let names = self.backrefs.names.len();
         let params = self.backrefs.function_params.len();
+        let references = self.backrefs.name_references;
         let mut qn = self.demangle_name_scope_chain(identifier);
 
         // Variable templates are saved, in front of the names of their scope. What we're
-        // looking at only turns out now, so go over the scope again.
+        // looking at only turns out now, so go over the scope again if it refers to any.
         let is_variable =
             |x: MangledString<'_>| x.first_char().is_some_and(|x| ('0'..='4').contains(&x));
         if start.starts_with("?$")
@@ -1194,14 +1198,24 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             )
             && (qn.is_err() || is_variable(self.mangled_name))
         {
-            self.mangled_name = scope;
-            self.backrefs.names.truncate(names);
-            self.backrefs.function_params.truncate(params);
             let key = &start[..start.len() - scope.len_bytes()];
+            let scope_names = self
+                .backrefs
+                .names
+                .drain(names..)
+                .collect::<ArrayVec<_, 10>>();
             self.memorize_identifier(key, identifier);
-            let variable_qn = self.demangle_name_scope_chain(identifier);
-            if qn.is_ok() || is_variable(self.mangled_name) {
-                qn = variable_qn;
+            if self.backrefs.name_references == references {
+                for (key, identifier) in scope_names {
+                    self.memorize_identifier(key, identifier);
+                }
+            } else {
+                self.mangled_name = scope;
+                self.backrefs.function_params.truncate(params);
+                let variable_qn = self.demangle_name_scope_chain(identifier);
+                if qn.is_ok() || is_variable(self.mangled_name) {
+                    qn = variable_qn;
+                }
             }
         }
         let qn = qn?;
@@ -1306,6 +1320,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .try_consume_char_if(char::is_ascii_digit)
             .ok_or(Error::InvalidBackRef)?;
         let i = c as u8 - b'0';
+        self.backrefs.name_references += 1;
         let node = self
             .backrefs
             .names
-- 
2.43.0


From 6e85d61f89682318104dd9d4f94bf4452af87a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:20 +0000
Subject: [PATCH 18/21] fix: let the names of initialized variable templates be
 referred to

---
 src/demangler.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index dd5c9c1..77a650c 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -345,7 +345,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             if let Some(si) = self.demangle_special_intrinsic()? {
                 Ok(si)
             } else {
-                self.demangle_declarator()
+                self.demangle_declarator(false)
             }
         }
     }
@@ -385,10 +385,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         Ok(fsn.into())
     }
 
-    fn demangle_declarator(&mut self) -> Result<NodeHandle<ISymbolNode>> {
+    fn demangle_declarator(&mut self, is_initialized: bool) -> Result<NodeHandle<ISymbolNode>> {
         // What follows is a main symbol name. This may include namespaces or class
         // back references.
-        let qn = self.demangle_fully_qualified_symbol_name()?;
+        let qn = self.demangle_fully_qualified_symbol_name(is_initialized)?;
         let symbol = self.demangle_encoded_symbol(qn)?;
         symbol.resolve_mut(&mut self.cache).set_name(qn);
 
@@ -1174,7 +1174,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // Parses a symbol name in the form of A@B@C@@ which represents C::B::A.
     // Symbol names have slightly different rules regarding what can appear
     // so we separate out the implementations for flexibility.
-    fn demangle_fully_qualified_symbol_name(&mut self) -> Result<NodeHandle<QualifiedName>> {
+    fn demangle_fully_qualified_symbol_name(
+        &mut self,
+        is_initialized: bool,
+    ) -> Result<NodeHandle<QualifiedName>> {
         // This is the final component of a symbol name (i.e. the leftmost component
         // of a mangled name. Function templates aren't saved for the purposes of
         // name backreferences, so start out by only saving simple names.
@@ -1189,8 +1192,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
 
         // Variable templates are saved, in front of the names of their scope. What we're
         // looking at only turns out now, so go over the scope again if it refers to any.
-        let is_variable =
-            |x: MangledString<'_>| x.first_char().is_some_and(|x| ('0'..='4').contains(&x));
+        // What has an initializer is one, even though it's a function that follows.
+        let is_variable = |x: MangledString<'_>| {
+            is_initialized || x.first_char().is_some_and(|x| ('0'..='4').contains(&x))
+        };
         if start.starts_with("?$")
             && matches!(
                 identifier.resolve(&self.cache),
@@ -1768,7 +1773,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         let names = self.backrefs.names.len();
         let params = self.backrefs.function_params.len();
         let mut is_known_static_data_member = self.mangled_name.try_consume_char('?').is_some();
-        let mut symbol = self.demangle_declarator();
+        let mut symbol = self.demangle_declarator(false);
         if start.starts_with("?$")
             && !symbol
                 .as_ref()
@@ -1779,7 +1784,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             self.backrefs.names.truncate(names);
             self.backrefs.function_params.truncate(params);
             is_known_static_data_member = false;
-            symbol = self.demangle_declarator();
+            symbol = self.demangle_declarator(true);
         }
         let symbol = symbol?;
         if let Some(variable) = symbol.downcast::<VariableSymbol>(&self.cache) {
-- 
2.43.0


From 937d302a4a18682e7470c337ffe16f0cc9496105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 19/21] fix: read ?$ in an initializer as the start of a
 template's name first

---
 src/demangler.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 77a650c..25def91 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1772,21 +1772,25 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         let start = self.mangled_name;
         let names = self.backrefs.names.len();
         let params = self.backrefs.function_params.len();
-        let mut is_known_static_data_member = self.mangled_name.try_consume_char('?').is_some();
-        let mut symbol = self.demangle_declarator(false);
-        if start.starts_with("?$")
-            && !symbol
-                .as_ref()
-                .is_ok_and(|x| x.downcast::<VariableSymbol>(&self.cache).is_some())
-        {
-            // The ? belongs to the name of a variable template, not of a member.
-            self.mangled_name = start;
-            self.backrefs.names.truncate(names);
-            self.backrefs.function_params.truncate(params);
-            is_known_static_data_member = false;
-            symbol = self.demangle_declarator(true);
-        }
-        let symbol = symbol?;
+        // The ? may belong to the name of a variable template, or be the mark of a member.
+        let template = start
+            .starts_with("?$")
+            .then(|| self.demangle_declarator(true));
+        let is_template = matches!(
+            template,
+            Some(Ok(x)) if x.downcast::<FunctionSymbol>(&self.cache).is_some()
+        );
+        let mut is_known_static_data_member = false;
+        let symbol = match template {
+            Some(Ok(symbol)) if is_template => symbol,
+            _ => {
+                self.mangled_name = start;
+                self.backrefs.names.truncate(names);
+                self.backrefs.function_params.truncate(params);
+                is_known_static_data_member = self.mangled_name.try_consume_char('?').is_some();
+                self.demangle_declarator(false)?
+            }
+        };
         if let Some(variable) = symbol.downcast::<VariableSymbol>(&self.cache) {
             // Older versions of clang mangled this type of symbol incorrectly. They
             // would omit the leading ? and they would only emit a single @ at the end.
-- 
2.43.0


From 62d50b1a2a4f52ef502facb05856e0c9e997b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:00 +0000
Subject: [PATCH 20/21] fix: don't double the space after a result that is a
 function type

---
 src/nodes/derived.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index a2d3b19..9ebf977 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -180,7 +180,11 @@ impl FunctionSignatureNode {
         if !flags.no_return_type() {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_pre(cache, ob, flags)?;
-                write!(ob, " ")?;
+                // a function type without its calling convention ends in a space already
+                let is_function = matches!(return_type, TypeNode::Signature(_));
+                if !is_function || ob.last_char() != Some(' ') {
+                    write!(ob, " ")?;
+                }
             }
         }
 
-- 
2.43.0


From 8cc1244bbfedc03cd2034371cbca6f92833a7eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:47 +0000
Subject: [PATCH 21/21] fix: separate an ellipsis from the parameters it
 follows, whatever those end in

---
 src/nodes/derived.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 9ebf977..4332605 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -205,14 +205,15 @@ impl FunctionSignatureNode {
     ) -> Result<()> {
         if !self.function_class.no_parameter_list() {
             write!(ob, "(")?;
-            if let Some(params) = self.params.map(|x| x.resolve(cache)) {
+            let params = self.params.map(|x| x.resolve(cache));
+            if let Some(params) = params {
                 params.output(cache, ob, flags)?;
             } else {
                 write!(ob, "void")?;
             }
 
             if self.is_variadic {
-                if ob.last_char().is_some_and(|x| x != '(') {
+                if params.is_some_and(|x| !x.nodes.is_empty()) {
                     write!(ob, ", ")?;
                 }
                 write!(ob, "...")?;
-- 
2.43.0

