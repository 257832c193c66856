From 76725de490cc1bd8eafed8a886213e856b9f89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 1/7] fix: garbage collection panicked after purging,
 invalidating or mutably looking up an unknown builder

The leaf list used by the garbage collection has to be a subset of the known
builders, but purge left (or put) the purged builder in it, and invalidating or
lookup_mut-ing a never known builder put that builder in it.
---
 src/cache/internal.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index f117c85..e1c4587 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -744,6 +744,7 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 		// Remove weak reference of builder since we will remove all references
 		// to it
 		self.known_builders.remove(&bid);
+		self.known_leaf_builder.remove(&bid);
 
 		// Purge artifact & dyn state
 		self.artifacts.remove(&bid);
@@ -835,8 +836,10 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			}
 
 			// bid it self has been invalidated, means it has no more dependents, and thus it is a
-			// leaf now!
-			self.known_leaf_builder.insert(bid);
+			// leaf now! Provided that it is known at all (e.g. it is not if it is being purged).
+			if self.is_builder_known_by_id(bid) {
+				self.known_leaf_builder.insert(bid);
+			}
 
 			self.artifacts.remove(&bid);
 
@@ -854,8 +857,10 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			}
 		}
 
-		// Now, `builder` has no more depenencies, i.e. it is a leaf
-		self.known_leaf_builder.insert(*builder);
+		// Now, `builder` has no more depenencies, i.e. it is a leaf (if it is known at all)
+		if self.is_builder_known_by_id(*builder) {
+			self.known_leaf_builder.insert(*builder);
+		}
 	}
 
 	/// Removes the given promise with its cached artifact from the cache and
-- 
2.43.0


From 580bdcd80218ace67aa3f11eebe71b5590773d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 2/7] fix: mutable artifact access panicked if the artifact had
 dependents

invalidate_dependents removed the dependents mapping of the builder up front,
while invalidating each dependent requires its counterpart in that mapping.
---
 src/cache/internal.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index e1c4587..2a8a0a2 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -851,10 +851,16 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 	/// `BuilderId`, only invalidates dependents not the given build itself.
 	///
 	fn invalidate_dependents(&mut self, builder: &BuilderId) {
-		if let Some(set) = self.dependents.remove(builder) {
-			for dep in set {
-				self.invalidate_by_id(&dep);
-			}
+		// Only copies the ids, because invalidating a dependent relies on its dependent mapping, and
+		// removes it.
+		let dependents: Vec<_> = self.dependents.get(builder)
+			.into_iter()
+			.flatten()
+			.copied()
+			.collect();
+
+		for dep in dependents {
+			self.invalidate_by_id(&dep);
 		}
 
 		// Now, `builder` has no more depenencies, i.e. it is a leaf (if it is known at all)
-- 
2.43.0


From be1817e6208b4e269d4daec2f6405a50429f57c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 3/7] fix: TextualDoc did not terminate the line of an
 invalidation event

---
 src/diagnostics/textual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diagnostics/textual.rs b/src/diagnostics/textual.rs
index 9265f75..0f7c818 100644
--- a/src/diagnostics/textual.rs
+++ b/src/diagnostics/textual.rs
@@ -278,13 +278,13 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for TextualDoc<W> {
 		
 		let bs = self.builder_str(builder);
 		if self.opts.show_addresses {
-			write!(self.output(),
+			writeln!(self.output(),
 				"[{:p}] {}",
 				builder.id(),
 				bs,
 			).unwrap();
 		} else {
-			write!(self.output(),
+			writeln!(self.output(),
 				"{}",
 				bs,
 			).unwrap();
-- 
2.43.0


From 6616bc6f75e8ee409d1913248524651ced6c9fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 4/7] fix: doctors printed fat pointer metadata instead of the
 address of artifacts

---
 src/diagnostics/textual.rs  | 2 +-
 src/diagnostics/visgraph.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diagnostics/textual.rs b/src/diagnostics/textual.rs
index 0f7c818..65ee7b6 100644
--- a/src/diagnostics/textual.rs
+++ b/src/diagnostics/textual.rs
@@ -225,7 +225,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for TextualDoc<W> {
 				count.1,
 				builder.id(),
 				bs,
-				artifact.value.can_as_ptr(),
+				artifact.value.can_as_ptr() as *const (),
 			).unwrap();
 		} else {
 			write!(self.output(),
diff --git a/src/diagnostics/visgraph.rs b/src/diagnostics/visgraph.rs
index 91fc1d3..4bd3ccb 100644
--- a/src/diagnostics/visgraph.rs
+++ b/src/diagnostics/visgraph.rs
@@ -201,7 +201,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			r##"  "{0}.{1}-{2:p}" [label = "#{0}.{1} {3}{4}", shape = box]"##,
 			count.0,
 			count.1,
-			artifact.value.can_as_ptr(),
+			artifact.value.can_as_ptr() as *const (),
 			artifact.type_name,
 			s
 		).unwrap();
@@ -211,7 +211,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			builder.id(),
 			count.0,
 			count.1,
-			artifact.value.can_as_ptr()
+			artifact.value.can_as_ptr() as *const ()
 		).unwrap();
 		
 		self.output().flush().unwrap();
-- 
2.43.0


From 4e82547861babb69f2bad2b72ccf7cd1d8b78ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 5/7] fix: VisgraphDoc did not escape artifact values in DOT
 labels

---
 src/diagnostics/visgraph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diagnostics/visgraph.rs b/src/diagnostics/visgraph.rs
index 4bd3ccb..77f4d82 100644
--- a/src/diagnostics/visgraph.rs
+++ b/src/diagnostics/visgraph.rs
@@ -192,7 +192,12 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 		).unwrap();
 		
 		let s = if self.opts.show_artifact_values {
-			format!(" :\n{}", artifact.dbg_text)
+			// Escape for a quoted DOT string (which may contain plain newlines)
+			let dbg_text = artifact.dbg_text
+				.replace('\\', "\\\\")
+				.replace('"', "\\\"");
+
+			format!(" :\n{}", dbg_text)
 		} else {
 			"".into()
 		};
-- 
2.43.0


From ef85e4c68942c41a9792a91d73f85167512537cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 6/7] fix: pointer formatting of dynamic and unsized blueprints
 printed fat pointer metadata

{:p} of equal handles of one builder differed between blueprint forms, and
ended in a newline. Format the id of the builder, as BuilderId does.
---
 src/blueprint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blueprint.rs b/src/blueprint.rs
index 6cc6d08..e9fb4c9 100644
--- a/src/blueprint.rs
+++ b/src/blueprint.rs
@@ -263,7 +263,7 @@ impl<B, BCan: Can<B>> Eq for Blueprint<B, BCan> {
 
 impl<B, BCan: Can<B>> fmt::Pointer for Blueprint<B, BCan> {
 	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		writeln!(f, "{:p}", BCan::bin_as_ptr(&self.builder))
+		fmt::Pointer::fmt(&self.id(), f)
 	}
 }
 
@@ -507,7 +507,7 @@ cfg_if! {
 
 		impl<B: ?Sized, BCan: Can<B>> fmt::Pointer for BlueprintUnsized<B, BCan> {
 			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-				writeln!(f, "{:p}", BCan::can_as_ptr(&self.builder_canned))
+				fmt::Pointer::fmt(&self.id(), f)
 			}
 		}
 
@@ -771,7 +771,7 @@ impl<ArtCan, BCan, Art, Err, DynSt> fmt::Pointer for BlueprintDyn<ArtCan, BCan,
 		BCan: Can<dyn Builder<ArtCan, BCan, Artifact=Art, Err=Err, DynState=DynSt>>, {
 
 	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		writeln!(f, "{:p}", BCan::can_as_ptr(&self.builder_canned))
+		fmt::Pointer::fmt(&self.id(), f)
 	}
 }
 
-- 
2.43.0


From 0a0cdb1fd433642630f73fc6fb2ca5ca583f2cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 7/7] fix: VisgraphDoc did not escape artifact type names in
 DOT labels

---
 src/diagnostics/visgraph.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/diagnostics/visgraph.rs b/src/diagnostics/visgraph.rs
index 77f4d82..29c31e0 100644
--- a/src/diagnostics/visgraph.rs
+++ b/src/diagnostics/visgraph.rs
@@ -191,13 +191,12 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			s
 		).unwrap();
 		
-		let s = if self.opts.show_artifact_values {
-			// Escape for a quoted DOT string (which may contain plain newlines)
-			let dbg_text = artifact.dbg_text
-				.replace('\\', "\\\\")
-				.replace('"', "\\\"");
+		// Escape for a quoted DOT string (which may contain plain newlines)
+		let escape = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
 
-			format!(" :\n{}", dbg_text)
+		let type_name = escape(artifact.type_name);
+		let s = if self.opts.show_artifact_values {
+			format!(" :\n{}", escape(&artifact.dbg_text))
 		} else {
 			"".into()
 		};
@@ -207,7 +206,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			count.0,
 			count.1,
 			artifact.value.can_as_ptr() as *const (),
-			artifact.type_name,
+			type_name,
 			s
 		).unwrap();
 			
-- 
2.43.0

