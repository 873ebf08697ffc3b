From 600e83331680a9b6949d301739f14fa8a349a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 01/40] fix: flush and sync the MCP state file before it
 replaces the old one

---
 rudof_mcp/src/service/state.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/rudof_mcp/src/service/state.rs b/rudof_mcp/src/service/state.rs
index a877f20..1d8a30b 100644
--- a/rudof_mcp/src/service/state.rs
+++ b/rudof_mcp/src/service/state.rs
@@ -12,8 +12,9 @@
 
 use serde::{Deserialize, Serialize};
 use std::fs;
-use std::io::{self, BufReader, BufWriter};
+use std::io::{self, BufReader, BufWriter, Write};
 use std::path::{Path, PathBuf};
+use std::sync::Mutex;
 use tracing::{debug, info, warn};
 
 /// Default path for state persistence in Docker containers.
@@ -151,6 +152,10 @@ pub fn save_state(state: &PersistedState) -> io::Result<()> {
 /// safer than truncating the target file in-place, because the original file is
 /// preserved until the rename succeeds.
 pub fn save_state_to_path(state: &PersistedState, path: &Path) -> io::Result<()> {
+    // Every save goes through the same temporary file: one at a time.
+    static SAVE_LOCK: Mutex<()> = Mutex::new(());
+    let _guard = SAVE_LOCK.lock().unwrap_or_else(|e| e.into_inner());
+
     // Create parent directories if needed
     if let Some(parent) = path.parent()
         && !parent.exists()
@@ -162,13 +167,23 @@ pub fn save_state_to_path(state: &PersistedState, path: &Path) -> io::Result<()>
     let tmp_path = path.with_extension("tmp");
     {
         let file = fs::File::create(&tmp_path)?;
-        let writer = BufWriter::new(file);
-        serde_json::to_writer_pretty(writer, state).map_err(io::Error::other)?;
+        let mut writer = BufWriter::new(file);
+        serde_json::to_writer_pretty(&mut writer, state).map_err(io::Error::other)?;
+        // Dropping a BufWriter discards write errors, and a rename may reach the disk
+        // before the data does: flush and sync before the file replaces the old state.
+        writer.flush()?;
+        writer.get_ref().sync_all()?;
     }
 
     // Atomically replace the target (POSIX atomic; Windows best-effort)
     fs::rename(&tmp_path, path)?;
 
+    // Make the rename itself durable. Directories can only be synced on Unix.
+    #[cfg(unix)]
+    if let Some(parent) = path.parent().filter(|p| !p.as_os_str().is_empty()) {
+        fs::File::open(parent)?.sync_all()?;
+    }
+
     info!("Saved state to {:?} (triples: {:?})", path, state.triple_count);
     Ok(())
 }
-- 
2.43.0


From f00db111162b96456c4cc215492c81d36492ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 02/40] fix: save MCP state in the order in which loads were
 applied

---
 rudof_mcp/src/service/tools/data_tools_impl.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rudof_mcp/src/service/tools/data_tools_impl.rs b/rudof_mcp/src/service/tools/data_tools_impl.rs
index 766bfb8..cfb25f1 100644
--- a/rudof_mcp/src/service/tools/data_tools_impl.rs
+++ b/rudof_mcp/src/service/tools/data_tools_impl.rs
@@ -223,15 +223,14 @@ pub async fn load_rdf_data_from_sources_impl(
     let mut result = CallToolResult::success(vec![Content::text(summary)]);
     result.structured_content = Some(structured);
 
-    // Explicitly release the Mutex lock before the async persist_state_with() call.
-    // persist_state_with() re-acquires the lock internally; holding it here would deadlock.
-    drop(rudof);
-
     // Persist state for Docker ephemeral container support, reusing the N-Triples
-    // string we already serialized above to avoid a redundant serialization pass.
+    // string we already serialized above (so persist_state_with() does not lock again).
+    // The lock is held until the state is saved: otherwise an older snapshot of a
+    // concurrent load could be written last and hide this one after a restart.
     if let Err(e) = service.persist_state_with(Some(ntriples)).await {
         tracing::warn!("Failed to persist state after loading RDF data: {}", e);
     }
+    drop(rudof);
 
     Ok(result)
 }
-- 
2.43.0


From c55a8f3f006362cba46a55248d9347384e2c0ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 03/40] fix: drop the embedded SPARQL store when the graph
 behind it changes

A query, a ShEx validation or a SHACL validation built the store once; triples
added or removed afterwards were never seen by SPARQL evaluation.
---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 28 +++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 8bd6edd..301d122 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -107,6 +107,16 @@ impl OxigraphInMemory {
         self.graph.is_empty()
     }
 
+    /// Mutable access to the graph. The SPARQL store built from the previous
+    /// contents is dropped, so the next `ensure_store` indexes the new ones.
+    fn graph_mut(&mut self) -> &mut Graph {
+        #[cfg(feature = "sparql")]
+        {
+            self.store = None;
+        }
+        Arc::make_mut(&mut self.graph)
+    }
+
     pub fn set_default_base_prefixes(&mut self, default_base: Option<IriS>) {
         self.base = default_base;
     }
@@ -190,7 +200,7 @@ impl OxigraphInMemory {
         };
 
         let mut turtle_reader = turtle_parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in turtle_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| {
@@ -245,7 +255,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NTriplesParser::new();
         let mut nt_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nt_reader.by_ref() {
             let triple =
@@ -279,7 +289,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = RdfXmlParser::new();
         let mut xml_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in xml_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::RDFXMLError {
@@ -313,7 +323,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NQuadsParser::new();
         let mut nq_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nq_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::NQuadsError {
@@ -346,7 +356,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = JsonLdParser::new();
         let mut jsonld_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in jsonld_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::JsonLDError {
@@ -482,7 +492,7 @@ impl OxigraphInMemory {
         O: Into<TermRef<'a>>,
     {
         let triple = TripleRef::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(triple);
+        self.graph_mut().insert(triple);
         Ok(())
     }
 }
@@ -993,7 +1003,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
@@ -1011,7 +1021,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).remove(&triple);
+        self.graph_mut().remove(&triple);
         Ok(())
     }
 
@@ -1029,7 +1039,7 @@ impl BuildRDF for OxigraphInMemory {
         T: Into<Self::Term>,
     {
         let triple = OxTriple::new(node.into(), rdf_type(), type_.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
-- 
2.43.0


From 7ca741099db058bcd5afd0de366d40b7ed933f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 04/40] fix: leave the current data as it was when a load is
 rejected

---
 rudof_lib/src/api/data/implementations/load_data.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rudof_lib/src/api/data/implementations/load_data.rs b/rudof_lib/src/api/data/implementations/load_data.rs
index 3a0c3a4..12040ac 100644
--- a/rudof_lib/src/api/data/implementations/load_data.rs
+++ b/rudof_lib/src/api/data/implementations/load_data.rs
@@ -27,7 +27,9 @@ pub fn load_data(
     prefixes: Option<&[InputSpec]>,
 ) -> Result<()> {
     let (data_format, reader_mode, base, merge) = init_defaults(rudof, data_format, reader_mode, base, merge)?;
-    match (data, endpoint) {
+    // A load is all or nothing: if any source is rejected, the current data stays as it was
+    let previous = rudof.data.clone();
+    let result = match (data, endpoint) {
         (Some(_data), Some(_endpoint)) => Err(Box::new(DataError::DataSourceSpec {
             message: "Cannot specify both data and endpoint. Please choose one or the other.".to_string(),
         })
@@ -41,7 +43,11 @@ pub fn load_data(
             message: "No data source specified. Please provide either data or an endpoint.".to_string(),
         })
         .into()),
+    };
+    if result.is_err() {
+        rudof.data = previous;
     }
+    result
 }
 
 fn init_defaults(
-- 
2.43.0


From 2ad53a4f1fc35738d577d42043c9ae47523fb49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 05/40] fix: report output that cannot be written instead of
 exiting with success

---
 rudof_cli/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rudof_cli/src/main.rs b/rudof_cli/src/main.rs
index 5415350..db4e034 100755
--- a/rudof_cli/src/main.rs
+++ b/rudof_cli/src/main.rs
@@ -71,5 +71,8 @@ fn execute(cli_command: &Command, debug: u8) -> anyhow::Result<()> {
     // Run the core logic
     command.execute(&mut ctx)?;
 
+    // Buffered output that cannot be written is an error, not a silent truncation
+    ctx.writer.flush()?;
+
     Ok(())
 }
-- 
2.43.0


From 7d96e4e42f1a55e1349817654f413cb8a8815fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 06/40] fix: refuse to overwrite an output file that appears
 between check and open

---
 rudof_cli/src/output/writer.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/rudof_cli/src/output/writer.rs b/rudof_cli/src/output/writer.rs
index 575eb69..77e348a 100644
--- a/rudof_cli/src/output/writer.rs
+++ b/rudof_cli/src/output/writer.rs
@@ -30,16 +30,19 @@ pub fn get_writer(output: &Option<PathBuf>, force_overwrite: bool) -> Result<(Bo
                 return Ok((Box::new(writer), color));
             }
 
-            // Guard against accidental data loss
-            if path.exists() && !force_overwrite {
-                bail!(
-                    "File '{}' already exists. Use --force-overwrite to overwrite.",
-                    path.display()
-                );
-            }
-
-            // Open file for writing (truncates if exists and force_overwrite is true)
-            let file = File::create(path)?;
+            // Guard against accidental data loss. The check is made by the open itself:
+            // a file that appears after a separate check would be truncated.
+            let file = if force_overwrite {
+                File::create(path)?
+            } else {
+                match File::create_new(path) {
+                    Err(e) if e.kind() == io::ErrorKind::AlreadyExists => bail!(
+                        "File '{}' already exists. Use --force-overwrite to overwrite.",
+                        path.display()
+                    ),
+                    opened => opened?,
+                }
+            };
             let writer = BufWriter::new(file);
 
             // Files should generally not contain ANSI color codes by default
-- 
2.43.0


From 31711c4ded34cc01fef45b1fc45eb863299aca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 07/40] fix: answer an MCP tool call whose tool panics

---
 rudof_mcp/src/service/handlers.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/rudof_mcp/src/service/handlers.rs b/rudof_mcp/src/service/handlers.rs
index 27aa67c..8f7b60f 100644
--- a/rudof_mcp/src/service/handlers.rs
+++ b/rudof_mcp/src/service/handlers.rs
@@ -12,6 +12,7 @@
 //! - **Pagination**: Cursor-based pagination for listing promprts, resources and tools
 //! ```
 
+use crate::service::errors::internal_error;
 use crate::service::logging::{LogData, send_log};
 use crate::service::mcp_service::RudofMcpService;
 use crate::service::pagination::{DEFAULT_PAGE_SIZE, parse_cursor};
@@ -22,6 +23,10 @@ use rmcp::{
     model::*,
     service::{NotificationContext, RequestContext},
 };
+use std::{
+    panic::{AssertUnwindSafe, catch_unwind},
+    task::Poll,
+};
 
 impl ServerHandler for RudofMcpService {
     /// Returns server metadata including protocol version, capabilities, and implementation info.
@@ -253,7 +258,18 @@ impl ServerHandler for RudofMcpService {
             .await;
 
             let ctx = ToolCallContext::new(self, request, context.clone());
-            let result = self.tool_router.call(ctx).await;
+            // A tool that panics still has to answer: rmcp would drop the request silently
+            // and leave the client waiting for ever.
+            let mut call = std::pin::pin!(self.tool_router.call(ctx));
+            let result = std::future::poll_fn(|cx| match catch_unwind(AssertUnwindSafe(|| call.as_mut().poll(cx))) {
+                Ok(poll) => poll,
+                Err(_) => Poll::Ready(Err(internal_error(
+                    "Tool execution panicked",
+                    "the operation is not supported for this input",
+                    None,
+                ))),
+            })
+            .await;
 
             // Log tool completion (respects log level filtering)
             match &result {
-- 
2.43.0


From b28db9f05a14d779b1ac67ed54fe088a3db56b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 08/40] fix: report data that cannot be read in lax mode
 instead of skipping it

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 36 ++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 301d122..04e2ec5 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -145,6 +145,10 @@ impl OxigraphInMemory {
         base: Option<&str>,
         reader_mode: &ReaderMode,
     ) -> Result<(), OxigraphInMemoryError> {
+        let reader = &mut ReadErrorTracker {
+            inner: reader,
+            error: None,
+        };
         match format {
             RDFFormat::Turtle => {
                 self.parse_turtle(reader, source_name, base, reader_mode)?;
@@ -168,6 +172,12 @@ impl OxigraphInMemory {
                 self.parse_jsonld(reader, reader_mode)?;
             },
         }
+        if let Some(error) = reader.error.take() {
+            return Err(OxigraphInMemoryError::ReadingPathError {
+                path_name: source_name.to_string(),
+                error,
+            });
+        }
         if let Some(base) = base {
             let default_base = Some(IriS::new_unchecked(base));
             self.set_default_base_prefixes(default_base);
@@ -1181,6 +1191,32 @@ fn handle_parse_error<T, E: std::fmt::Display>(
     }
 }
 
+/// Remembers a failed read of the underlying reader.
+///
+/// In lax mode the parse loops skip every error they meet and go on reading; data that
+/// could not be read must not be skipped like data that could not be parsed, so the
+/// input ends at the failure, which is then reported.
+struct ReadErrorTracker<'a, R> {
+    inner: &'a mut R,
+    error: Option<io::Error>,
+}
+
+impl<R: io::Read> io::Read for ReadErrorTracker<'_, R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        while self.error.is_none() {
+            match self.inner.read(buf) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => {
+                    self.error = Some(io::Error::new(e.kind(), e.to_string()));
+                    return Err(e);
+                },
+                read => return read,
+            }
+        }
+        Ok(0)
+    }
+}
+
 /// Reader mode when parsing RDF data files.
 ///
 /// Controls how parsing errors are handled during RDF data ingestion.
-- 
2.43.0


From f0ed09ab3a0a7054a78078f2c3698b83b0abbcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 09/40] fix: SHACL constraints after sh:ignoredProperties are
 read again

---
 .../parser/rdf_node_parser/constructors/property.rs  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs b/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
index e64af6b..50aaf2f 100644
--- a/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
+++ b/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
@@ -163,9 +163,17 @@ where
     type Output = Vec<RDF::Term>;
 
     fn parse_focused(&self, rdf: &mut RDF) -> Result<Self::Output, RDFError> {
-        SingleValuePropertyParser::new(self.property.clone())
+        let saved_focus = rdf.get_focus().cloned();
+        let result = SingleValuePropertyParser::new(self.property.clone())
             .then(|node| SetFocusParser::new(node).then(|_| ListParser::new()))
-            .parse_focused(rdf)
+            .parse_focused(rdf);
+
+        // Restore focus node, which walking the list has moved
+        if let Some(ref focus) = saved_focus {
+            rdf.set_focus(focus);
+        }
+
+        result
     }
 }
 
-- 
2.43.0


From 6782e8016ac9c64787346bc060636141ac1f971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 10/40] fix: sh:deactivated on property shapes is honoured

---
 shacl/src/ast/property_shape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shacl/src/ast/property_shape.rs b/shacl/src/ast/property_shape.rs
index 22a08ba..73fba85 100644
--- a/shacl/src/ast/property_shape.rs
+++ b/shacl/src/ast/property_shape.rs
@@ -158,6 +158,10 @@ impl ASTPropertyShape {
 
     pub fn is_deactivated(&self) -> bool {
         self.deactivated
+            || self
+                .components
+                .iter()
+                .any(|component| matches!(component, ASTComponent::Deactivated(true)))
     }
 
     pub fn severity(&self) -> Option<&Severity> {
-- 
2.43.0


From b7100cb603ce30e0448654f4ff9498c539ed0540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 11/40] fix: SHACL paths and property pairs at literals have no
 values

---
 rudof_rdf/src/rdf_core/neighs_rdf.rs          |  6 +++++-
 .../core/property_pair/disjoint.rs            |  5 ++++-
 .../constraints/core/property_pair/equals.rs  | 19 +++++++++----------
 .../core/property_pair/less_than.rs           |  5 ++++-
 .../core/property_pair/less_than_or_equals.rs |  5 ++++-
 shacl/src/validator/engine/value_nodes_ops.rs | 11 ++++-------
 6 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/neighs_rdf.rs b/rudof_rdf/src/rdf_core/neighs_rdf.rs
index ec19298..c71d6ab 100644
--- a/rudof_rdf/src/rdf_core/neighs_rdf.rs
+++ b/rudof_rdf/src/rdf_core/neighs_rdf.rs
@@ -1,7 +1,7 @@
 use crate::rdf_core::vocabs::RdfVocab;
 use crate::rdf_core::{
     Any, Matcher, RDFError, Rdf, SHACLPath,
-    term::{Object, Triple},
+    term::{Object, Term, Triple},
 };
 use std::{
     collections::{HashMap, HashSet},
@@ -325,6 +325,10 @@ pub trait NeighsRDF: Rdf {
     fn objects_for_shacl_path(&self, subject: &Self::Term, path: &SHACLPath) -> Result<HashSet<Self::Term>, RDFError> {
         match path {
             SHACLPath::Predicate { pred } => {
+                // A literal is never the subject of a triple, so no value is reachable from it
+                if subject.is_literal() {
+                    return Ok(HashSet::new());
+                }
                 let pred: Self::IRI = pred.clone().into();
                 self.objects_for(subject, &pred)
             },
diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index 966e841..e70ea47 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -31,7 +31,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
         _: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
         let check_fn = |f: &S::Term, vn: &S::Term| {
-            let subject = S::term_as_subject(f).unwrap();
+            // A literal has no values for any property
+            let Ok(subject) = S::term_as_subject(f) else {
+                return false;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let triples_to_compare = match store.triples_with_subject_predicate(&subject, &iri) {
                 Ok(iter) => iter,
diff --git a/shacl/src/validator/constraints/core/property_pair/equals.rs b/shacl/src/validator/constraints/core/property_pair/equals.rs
index f60ad68..559590b 100644
--- a/shacl/src/validator/constraints/core/property_pair/equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/equals.rs
@@ -32,18 +32,17 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Equals {
         let mut results = Vec::new();
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = match S::term_as_subject(fnode) {
-                Ok(s) => s,
-                Err(_) => continue,
-            };
-
             let iri: S::IRI = self.iri().clone().into();
 
-            let prop_values = store
-                .triples_with_subject_predicate(&subject, &iri)
-                .map_err(ValidationError::new_graph_error::<S>)?
-                .map(|t| t.obj().clone())
-                .collect::<HashSet<_>>();
+            let prop_values = match S::term_as_subject(fnode) {
+                Ok(subject) => store
+                    .triples_with_subject_predicate(&subject, &iri)
+                    .map_err(ValidationError::new_graph_error::<S>)?
+                    .map(|t| t.obj().clone())
+                    .collect::<HashSet<_>>(),
+                // A literal has no values for any property
+                Err(_) => HashSet::new(),
+            };
 
             let nodes_set = nodes.iter().collect::<HashSet<_>>();
 
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index 27f7a15..d0f4a00 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -32,7 +32,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
         let component = Object::Iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // A literal has no values for any property
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index 91c9393..3928207 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -32,7 +32,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
         let component = Object::iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // A literal has no values for any property
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
diff --git a/shacl/src/validator/engine/value_nodes_ops.rs b/shacl/src/validator/engine/value_nodes_ops.rs
index 65b5092..91190bf 100644
--- a/shacl/src/validator/engine/value_nodes_ops.rs
+++ b/shacl/src/validator/engine/value_nodes_ops.rs
@@ -46,12 +46,9 @@ impl<RDF: NeighsRDF> ValueNodesOps<RDF> for IRPropertyShape {
         focus_nodes: &FocusNodes<RDF>,
         runner: &dyn Engine<RDF>,
     ) -> Result<ValueNodes<RDF>, ValidationError> {
-        let value_nodes = focus_nodes.iter().filter_map(|n| {
-            match runner.path(store, self, n) {
-                Ok(ts) => Some((n.clone(), ts)),
-                Err(_) => None, // TODO - Should we add a violation for this case?
-            }
-        });
-        Ok(ValueNodes::from_iter(value_nodes))
+        focus_nodes
+            .iter()
+            .map(|n| Ok((n.clone(), runner.path(store, self, n)?)))
+            .collect()
     }
 }
-- 
2.43.0


From c3a356206a36dbc28afaefca47c46b2423ceb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 12/40] fix: cached SHACL results of a focus node include those
 of nested shapes

---
 shacl/src/validator/engine/validate.rs | 81 +++++++++++++++-----------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index d40124e..8fbe121 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -93,6 +93,22 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
             component_validation_results.extend(results);
         }
 
+        let mut new_results: Vec<ValidationResult> = component_validation_results;
+
+        // Group the results by the focus node of this shape they belong to, which is what the
+        // cache has to know. Component results carry that node; the results of nested shapes carry
+        // the value node or reifier they are about instead, so they are grouped as they are produced.
+        let mut by_focus: HashMap<Object, Vec<ValidationResult>> = uncached_focus_nodes
+            .iter()
+            .filter_map(|n| RDF::term_as_object(n).ok())
+            .map(|obj| (obj, Vec::new()))
+            .collect();
+        for r in &new_results {
+            if let Some(bucket) = by_focus.get_mut(r.focus_node()) {
+                bucket.push(r.clone());
+            }
+        }
+
         // After validating the constraints of the current shape, validate any nested
         // property shapes.
         //
@@ -108,49 +124,31 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
         // unique (value-node, shape) pair is only truly validated once; subsequent
         // invocations for the same pair return the cached results, correctly producing
         // one violation entry per path that led to the offending node.
-        let mut property_shapes_validation_results = Vec::new();
         for ps in self.property_shapes().iter() {
             let shape = shapes_graph.get_shape_from_idx_e(ps)?;
-            for (_, vn) in value_nodes.iter() {
+            for (fnode, vn) in value_nodes.iter() {
                 let results = shape.validate(store, runner, Some(vn), Some(self), shapes_graph)?;
-                property_shapes_validation_results.extend(results);
+                record_nested::<RDF>(fnode, results, &mut by_focus, &mut new_results);
             }
         }
 
-        let reification_results = if let Some(reifier_info) = self.reifier_info() {
-            validate_reifiers(
-                self,
-                store,
-                runner,
-                source_shape,
-                reifier_info,
-                &uncached_focus_nodes,
-                shapes_graph,
-            )?
-        } else {
-            Vec::new()
-        };
-
-        // Collect all NEW validation results (from uncached focus nodes)
-        let new_results: Vec<ValidationResult> = component_validation_results
-            .into_iter()
-            .chain(property_shapes_validation_results)
-            .chain(reification_results)
-            .collect();
+        if let Some(reifier_info) = self.reifier_info() {
+            for fnode in uncached_focus_nodes.iter() {
+                let results = validate_reifiers(
+                    self,
+                    store,
+                    runner,
+                    source_shape,
+                    reifier_info,
+                    &FocusNodes::single(fnode.clone()),
+                    shapes_graph,
+                )?;
+                record_nested::<RDF>(fnode, results, &mut by_focus, &mut new_results);
+            }
+        }
 
         // Record new results in the cache per focus node
         if let Some(idx) = idx {
-            // Group results by focus node in O(M), then record each in O(1)
-            let mut by_focus: HashMap<Object, Vec<ValidationResult>> = uncached_focus_nodes
-                .iter()
-                .filter_map(|n| RDF::term_as_object(n).ok())
-                .map(|obj| (obj, Vec::new()))
-                .collect();
-            for r in &new_results {
-                if let Some(bucket) = by_focus.get_mut(r.focus_node()) {
-                    bucket.push(r.clone());
-                }
-            }
             for (node_object, node_results) in by_focus {
                 runner.record_validation(node_object, *idx, node_results);
             }
@@ -163,6 +161,21 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
     }
 }
 
+/// Adds the results of a nested shape to all the results and to those of the focus node they were found for
+fn record_nested<RDF: Rdf>(
+    focus_node: &RDF::Term,
+    results: Vec<ValidationResult>,
+    by_focus: &mut HashMap<Object, Vec<ValidationResult>>,
+    all: &mut Vec<ValidationResult>,
+) {
+    if let Ok(focus) = RDF::term_as_object(focus_node)
+        && let Some(bucket) = by_focus.get_mut(&focus)
+    {
+        bucket.extend(results.iter().cloned());
+    }
+    all.extend(results);
+}
+
 fn validate_reifiers<RDF: NeighsRDF + Debug>(
     shape: &IRShape,
     store: &RDF,
-- 
2.43.0


From 35f9c779cee2addb713fc2814514277cad67cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:53 +0000
Subject: [PATCH 13/40] fix: flush the precompiled ShEx cache so a failed write
 is reported

---
 .../api/shex/implementations/compile_shex_schema_to_file.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rudof_lib/src/api/shex/implementations/compile_shex_schema_to_file.rs b/rudof_lib/src/api/shex/implementations/compile_shex_schema_to_file.rs
index f9cb4cf..b5b97b9 100644
--- a/rudof_lib/src/api/shex/implementations/compile_shex_schema_to_file.rs
+++ b/rudof_lib/src/api/shex/implementations/compile_shex_schema_to_file.rs
@@ -8,10 +8,14 @@ pub fn compile_shex_schema_to_file<W: Write>(rudof: &Rudof, writer: &mut W) -> R
     let schema_ir = rudof.shex_schema_ir.as_ref().ok_or(ShExError::NoShExSchemaLoaded)?;
 
     schema_ir
-        .write(writer, CacheFormat::Postcard)
+        .write(&mut *writer, CacheFormat::Postcard)
         .map_err(|error| ShExError::FailedWritingShExCache {
             error: error.to_string(),
         })?;
+    // a buffered writer drops the error of its last write unless it is flushed
+    writer.flush().map_err(|error| ShExError::FailedWritingShExCache {
+        error: error.to_string(),
+    })?;
 
     Ok(())
 }
-- 
2.43.0


From 5ddf402dcbfcbda3bfc4d1452afc380218d2977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 14/40] fix: SHACL targets and sh:class follow rdfs:subClassOf
 to any depth

---
 .../validator/constraints/core/value/class.rs | 47 ++++++++++---------
 shacl/src/validator/engine/native.rs          |  3 +-
 shacl/src/validator/index/class.rs            | 14 ++++--
 3 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/shacl/src/validator/constraints/core/value/class.rs b/shacl/src/validator/constraints/core/value/class.rs
index 7b90934..9d48cd9 100644
--- a/shacl/src/validator/constraints/core/value/class.rs
+++ b/shacl/src/validator/constraints/core/value/class.rs
@@ -11,6 +11,7 @@ use crate::validator::report::ValidationResult;
 use rudof_rdf::rdf_core::term::Term;
 use rudof_rdf::rdf_core::vocabs::{RdfVocab, RdfsVocab};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
+use std::collections::HashSet;
 #[cfg(feature = "sparql")]
 use std::fmt::Debug;
 
@@ -41,17 +42,7 @@ impl<S: NeighsRDF + 'static> NativeValidator<S> for Class {
             }
             let term = S::object_as_term(self.class_rule());
 
-            !store
-                .objects_for(vn, &RdfVocab::rdf_type().into())
-                .unwrap_or_default()
-                .iter()
-                .any(|ctype| {
-                    ctype == &term
-                        || store
-                            .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                            .unwrap_or_default()
-                            .contains(&term)
-                })
+            !is_shacl_instance(store, vn, &term)
         };
 
         validate_with(
@@ -94,7 +85,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
                 let conforms = if vn.is_literal() {
                     false
                 } else if vn.is_blank_node() {
-                    blank_is_instance::<S>(store, vn, &class_term)?
+                    is_shacl_instance(store, vn, &class_term)
                 } else {
                     let vn_sparql = term_as_sparql::<S>(vn).unwrap_or_default();
                     let query = formatdoc! {"
@@ -121,14 +112,26 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
     }
 }
 
-#[cfg(feature = "sparql")]
-fn blank_is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> Result<bool, ValidationError> {
-    let types = store.objects_for(vn, &RdfVocab::rdf_type().into()).unwrap_or_default();
-    Ok(types.iter().any(|ctype| {
-        ctype == class_term
-            || store
-                .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                .unwrap_or_default()
-                .contains(class_term)
-    }))
+/// Is `vn` a SHACL instance of the class (`rdf:type/rdfs:subClassOf*`)?
+fn is_shacl_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> bool {
+    let mut pending: Vec<S::Term> = store
+        .objects_for(vn, &RdfVocab::rdf_type().into())
+        .unwrap_or_default()
+        .into_iter()
+        .collect();
+    let mut seen: HashSet<S::Term> = pending.iter().cloned().collect();
+    while let Some(class) = pending.pop() {
+        if &class == class_term {
+            return true;
+        }
+        for parent in store
+            .objects_for(&class, &RdfsVocab::rdfs_subclass_of_str().into())
+            .unwrap_or_default()
+        {
+            if seen.insert(parent.clone()) {
+                pending.push(parent);
+            }
+        }
+    }
+    false
 }
diff --git a/shacl/src/validator/engine/native.rs b/shacl/src/validator/engine/native.rs
index 4d428d0..374050f 100644
--- a/shacl/src/validator/engine/native.rs
+++ b/shacl/src/validator/engine/native.rs
@@ -56,7 +56,8 @@ impl NativeEngine {
         class: &Object,
     ) -> Result<FocusNodes<RDF>, ValidationError> {
         if let Some(index) = &self.class_index {
-            let focus_nodes = index.instances_of(class).map(|obj| -> RDF::Term { obj.clone().into() });
+            let instances = index.instances_of_with_subclasses(class);
+            let focus_nodes = instances.into_iter().map(|obj| -> RDF::Term { obj.clone().into() });
             return Ok(FocusNodes::from_iter(focus_nodes));
         }
 
diff --git a/shacl/src/validator/index/class.rs b/shacl/src/validator/index/class.rs
index 5ad5cd2..9a7aea7 100644
--- a/shacl/src/validator/index/class.rs
+++ b/shacl/src/validator/index/class.rs
@@ -68,13 +68,19 @@ impl ClassIndex {
         self.subclass_map.get(class).into_iter().flat_map(|set| set.iter())
     }
 
-    /// Returns instances of the class and instances of all its direct subclasses.
+    /// Returns the SHACL instances of the class: its instances and those of all its
+    /// subclasses, direct or not (`rdf:type/rdfs:subClassOf*`).
     pub fn instances_of_with_subclasses(&self, class: &Object) -> HashSet<&Object> {
         let mut result: HashSet<_> = self.instances_of(class).collect();
+        let mut seen = HashSet::from([class]);
+        let mut pending = vec![class];
 
-        for subclass in self.subclasses_of(class) {
-            for instance in self.instances_of(subclass) {
-                result.insert(instance);
+        while let Some(current) = pending.pop() {
+            for subclass in self.subclasses_of(current) {
+                if seen.insert(subclass) {
+                    result.extend(self.instances_of(subclass));
+                    pending.push(subclass);
+                }
             }
         }
 
-- 
2.43.0


From 0f24035a8e7225a4228e49838f1a7293570395dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 15/40] fix: language tags of schema literals match those of
 the data whatever their case

---
 rudof_rdf/src/rdf_core/term/literal/literal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index edbdad5..3dae26d 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -1112,7 +1112,11 @@ impl From<ConcreteLiteral> for oxrdf::Literal {
 
         match value {
             ConcreteLiteral::StringLiteral { lexical_form, lang } => match lang {
-                Some(l) => oxrdf::Literal::new_language_tagged_literal_unchecked(lexical_form, l.to_string()),
+                // oxrdf compares language tags as strings and expects them in lower case
+                Some(l) => oxrdf::Literal::new_language_tagged_literal_unchecked(
+                    lexical_form,
+                    l.to_string().to_ascii_lowercase(),
+                ),
                 None => lexical_form.into(),
             },
 
-- 
2.43.0


From ee0cca958ccf9e833ebe89a7afd2e1e77d537c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 16/40] fix: values that no constraint of their predicate
 accepts are not ignored by nullable expressions

---
 rbe/src/rbe_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rbe/src/rbe_table.rs b/rbe/src/rbe_table.rs
index 6ffd776..f21f5cd 100644
--- a/rbe/src/rbe_table.rs
+++ b/rbe/src/rbe_table.rs
@@ -232,7 +232,7 @@ where
             candidates.push(pairs);
         }
 
-        if candidates.is_empty() || pairs_found == 0 {
+        if prefilter_failed.is_empty() && (candidates.is_empty() || pairs_found == 0) {
             /*tracing::trace!(
                 "No candidates for rbe: {}, candidates: {:?}, pairs_found: {pairs_found}",
                 self.rbe,
-- 
2.43.0


From 32a80149eaccae2fbbf1b2a1fb315fccdb01d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 17/40] fix: a repeated group inside another repetition scales
 its own repetition interval

---
 rbe/src/rbe.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index ede88bf..6322086 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -181,13 +181,18 @@ where
                     if inner.is_empty() {
                         inner
                     } else {
-                        let card_interval = Interval::new(Max::IntMax(card.min.value), card.max.clone());
-                        let intersection = inner.intersection(&card_interval);
-                        if intersection.is_empty() {
-                            Interval::fail()
-                        } else {
-                            Interval::new(Max::IntMax(1), Max::IntMax(1))
-                        }
+                        // `t` repetitions of `value{k,l}` are any number of repetitions of `value`
+                        // between `t*k` and `t*l`: they meet `inner` when `t*l` reaches its lower
+                        // bound and `t*k` does not exceed its upper bound.
+                        let lower = match &inner.n {
+                            Max::IntMax(n) => card.max.div_up(n),
+                            Max::Unbounded => Max::Unbounded,
+                        };
+                        let upper = match (&inner.m, card.min.value) {
+                            (_, 0) | (Max::Unbounded, _) => Max::Unbounded,
+                            (Max::IntMax(m), k) => Max::IntMax(m / k),
+                        };
+                        Interval::new(lower, upper)
                     }
                 }
             },
-- 
2.43.0


From a8347f376fec8c4a9135f50fc1e77281875fed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 18/40] fix: CLOSED shapes without triple constraints see the
 predicates of a node

---
 rudof_rdf/src/rdf_impl/backend.rs        | 4 +---
 sparql_service/src/srdf_data/rdf_data.rs | 3 ---
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/backend.rs b/rudof_rdf/src/rdf_impl/backend.rs
index c6ece46..bdedf11 100644
--- a/rudof_rdf/src/rdf_impl/backend.rs
+++ b/rudof_rdf/src/rdf_impl/backend.rs
@@ -200,9 +200,7 @@ impl NeighsRDF for RdfBackend {
             return b.outgoing_arcs_from_list(subject, preds).map_err(Into::into);
         }
         // For InMemory and Qlever: default behavior — fetch all triples and filter in memory
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
+        // (with no predicates, everything is in the remainder)
         let mut results: std::collections::HashMap<OxNamedNode, std::collections::HashSet<OxTerm>> =
             std::collections::HashMap::new();
         let mut reminder: Vec<OxNamedNode> = Vec::new();
diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index a38de47..4972695 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -476,9 +476,6 @@ impl NeighsRDF for RdfData {
         ),
         Self::Err,
     > {
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         // Primary backend (in-memory or endpoint-backed): uses its own FILTER query when available
         let (mut results, reminder) = self
             .primary
-- 
2.43.0


From cabcab21d288e0fc107a631db2bd86139852ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 19/40] fix: EXTRA lets values through that do not conform to
 the referenced shape

---
 shex_validation/src/engine.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 65aa01f..fda0fcf 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -662,7 +662,7 @@ impl Engine {
                 }
                 // Lenient predicates (in EXTRA): only values that satisfy a leaf condition
                 // participate in the RBE; non-matching values fall into M^∉ and are ignored.
-                matches_any_leaf(shape.triple_expr(), pred, value, ctx)
+                matches_any_leaf(shape.triple_expr(), pred, value, ctx, typing)
             })
             .collect::<Vec<_>>();
         if shape.is_closed() && !reminder.is_empty() {
@@ -2098,14 +2098,18 @@ fn cond_has_ref(cond: &MatchCond<Pred, Node, ShapeLabelIdx, SemanticActionContex
 
 /// Returns true if `(pred, value)` satisfies at least one leaf condition in `expr`.
 ///
-/// For `MatchCond::Ref` leaves the value is kept in M^∈ conservatively — the RBE /
-/// pending-typing path already handles shape-reference validation correctly.
-fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext) -> bool {
+/// Shape references of a leaf are looked up in `typing`: a value that does not conform to the
+/// referenced shape does not satisfy the leaf.
+fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext, typing: &RefTyping) -> bool {
     for (_, key, cond) in expr.components() {
         if &key != pred {
             continue;
         }
-        if cond_has_ref(&cond) || cond.matches(value, ctx).is_ok() {
+        if let Ok(pending) = cond.matches(value, ctx)
+            && pending
+                .iter_vr()
+                .all(|(node, idx, _)| typing.contains(&(node.clone(), *idx)))
+        {
             return true;
         }
     }
-- 
2.43.0


From 289e9dca1664a78b9c16a499b43a48c82cbb55f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 20/40] fix: an import cycle leading back to the root schema
 does not load it twice

---
 shex_ast/src/ir/ast2ir.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 178cb06..dfabc9a 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -82,7 +82,8 @@ impl AST2IR {
         let schema_ast = &rewritten_root;
 
         // Collect labels of all imported schemas first, so they are available when compiling the root schema's shape expressions. This also serves as a cycle check for imports.
-        let mut visited = Vec::new();
+        // The root schema counts as visited: an import cycle that leads back to it must not load it again.
+        let mut visited = vec![source_iri.clone()];
 
         let mut imported_asts: Vec<(SchemaAST, IriS)> = Vec::new();
         /*trace!(
@@ -135,7 +136,7 @@ impl AST2IR {
         }
         self.collect_shape_exprs(schema_ast, compiled_schema, source_iri, &schema_ast.base())?;
         compiled_schema.set_local_shapes_counter(local_shapes);
-        compiled_schema.set_imported_schemas(visited);
+        compiled_schema.set_imported_schemas(visited.split_off(1));
         compiled_schema.increment_total_shapes(local_shapes);
         compiled_schema.build_dependency_graph();
         compiled_schema.build_inheritance_graph();
-- 
2.43.0


From e5241fcfc6d60da3def24c4808aaf587a15ffec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 21/40] fix: a failing endpoint makes reading all triples fail
 instead of reading as empty

---
 sparql_service/src/srdf_data/rdf_data.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index 4972695..86608c5 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -255,11 +255,10 @@ impl RdfData {
             .triples()
             .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
             .collect();
-        let endpoint_triples = self
-            .use_endpoints
-            .values()
-            .flat_map(|e| NeighsRDF::triples(e))
-            .flatten();
+        let mut endpoint_triples: Vec<OxTriple> = Vec::new();
+        for e in self.use_endpoints.values() {
+            endpoint_triples.extend(NeighsRDF::triples(e)?);
+        }
         Ok(Box::new(primary_triples.into_iter().chain(endpoint_triples)))
     }
 }
@@ -433,11 +432,10 @@ impl NeighsRDF for RdfData {
             .triples()
             .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
             .collect();
-        let endpoint_triples: Vec<OxTriple> = self
-            .use_endpoints
-            .values()
-            .flat_map(|e| NeighsRDF::triples(e).map(|i| i.collect::<Vec<_>>()).unwrap_or_default())
-            .collect();
+        let mut endpoint_triples: Vec<OxTriple> = Vec::new();
+        for e in self.use_endpoints.values() {
+            endpoint_triples.extend(NeighsRDF::triples(e)?);
+        }
         let iter: Box<dyn Iterator<Item = OxTriple> + '_> = Box::new(primary.into_iter().chain(endpoint_triples));
         Ok(iter)
     }
-- 
2.43.0


From fe12a78f43d017d118ffcb1dcf8d31307f9c749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 22/40] fix: the empty data beside an endpoint does not answer
 queries too

---
 sparql_service/src/srdf_data/rdf_data.rs | 44 ++++++++++++++++--------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index 86608c5..6fb23a5 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -204,6 +204,13 @@ impl RdfData {
         self.use_endpoints.insert(name.to_string(), endpoint);
     }
 
+    /// Whether queries are put to the primary backend. An empty in-memory primary beside active
+    /// endpoints holds no data: its answers (a count of 0, a negated pattern that matches) would
+    /// only be added to those of the endpoints.
+    fn queries_primary(&self) -> bool {
+        self.use_endpoints.is_empty() || !self.primary.as_in_memory().is_some_and(|g| g.is_empty())
+    }
+
     pub fn dont_use_endpoint(&mut self, name: &str) {
         self.use_endpoints.remove(name);
     }
@@ -370,10 +377,13 @@ impl QueryRDF for RdfData {
     where
         Self: Sized,
     {
-        let mut out = self
-            .primary
-            .query_construct(query_str, format)
-            .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
+        let mut out = String::new();
+        if self.queries_primary() {
+            out = self
+                .primary
+                .query_construct(query_str, format)
+                .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
+        }
         for (_name, endpoint) in self.endpoints_to_use() {
             let extra = endpoint.query_construct(query_str, format)?;
             out.push_str(&extra);
@@ -388,13 +398,16 @@ impl QueryRDF for RdfData {
         let mut sols: QuerySolutions<RdfData> = QuerySolutions::empty();
 
         // Primary backend.
-        let primary_sols = self
-            .primary
-            .query_select(query_str)
-            .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
-        let primary_pm = <RdfBackend as Rdf>::prefixmap(&self.primary).unwrap_or_default();
-        let converted: Vec<QuerySolution<RdfData>> = primary_sols.iter().map(|s| s.convert(|t| t.clone())).collect();
-        sols.extend(converted, primary_pm);
+        if self.queries_primary() {
+            let primary_sols = self
+                .primary
+                .query_select(query_str)
+                .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
+            let primary_pm = <RdfBackend as Rdf>::prefixmap(&self.primary).unwrap_or_default();
+            let converted: Vec<QuerySolution<RdfData>> =
+                primary_sols.iter().map(|s| s.convert(|t| t.clone())).collect();
+            sols.extend(converted, primary_pm);
+        }
 
         // Federated endpoints.
         for (_, endpoint) in self.endpoints_to_use() {
@@ -407,10 +420,11 @@ impl QueryRDF for RdfData {
     }
 
     fn query_ask(&self, query: &str) -> Result<bool, Self::Err> {
-        if self
-            .primary
-            .query_ask(query)
-            .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
+        if self.queries_primary()
+            && self
+                .primary
+                .query_ask(query)
+                .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
         {
             return Ok(true);
         }
-- 
2.43.0


From 0f9638e3c89fb4817b7febb33cddff7ce6abd729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:09 +0000
Subject: [PATCH 23/40] fix: SHACL validation fails when the data cannot be
 read instead of judging without it

---
 .../validator/constraints/core/logical/and.rs | 14 +---
 .../validator/constraints/core/logical/not.rs |  6 +-
 .../constraints/core/logical/xone.rs          |  4 +-
 .../core/property_pair/disjoint.rs            | 17 +++--
 .../core/property_pair/less_than.rs           | 68 +++++++------------
 .../core/property_pair/less_than_or_equals.rs | 63 +++++++----------
 .../core/shape_based/qualified_value_shape.rs |  8 +--
 .../validator/constraints/core/value/class.rs | 28 ++++----
 shacl/src/validator/constraints/mod.rs        | 62 +++++------------
 shacl/src/validator/engine/focus_nodes_ops.rs |  9 ++-
 shacl/src/validator/engine/mod.rs             | 17 +++--
 shacl/src/validator/engine/native.rs          | 20 ++----
 shacl/src/validator/engine/validate.rs        |  2 +-
 13 files changed, 120 insertions(+), 198 deletions(-)

diff --git a/shacl/src/validator/constraints/core/logical/and.rs b/shacl/src/validator/constraints/core/logical/and.rs
index 293abed..e01cfde 100644
--- a/shacl/src/validator/constraints/core/logical/and.rs
+++ b/shacl/src/validator/constraints/core/logical/and.rs
@@ -34,17 +34,9 @@ impl<S: NeighsRDF + Debug> Validator<S> for And {
                     let and_shape = shapes_graph.get_shape_from_idx_e(idx)?;
                     let inner_results =
                         and_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                    match inner_results {
-                        Ok(results) => {
-                            if !results.is_empty() {
-                                conforms = false;
-                                break;
-                            }
-                        },
-                        Err(_) => {
-                            conforms = false;
-                            break;
-                        },
+                    if !inner_results?.is_empty() {
+                        conforms = false;
+                        break;
                     }
                 }
 
diff --git a/shacl/src/validator/constraints/core/logical/not.rs b/shacl/src/validator/constraints/core/logical/not.rs
index 31b6785..722df07 100644
--- a/shacl/src/validator/constraints/core/logical/not.rs
+++ b/shacl/src/validator/constraints/core/logical/not.rs
@@ -30,11 +30,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for Not {
                 let focus_nodes = FocusNodes::single(node.clone());
                 let not_shape = shapes_graph.get_shape_from_idx_e(self.shape())?;
                 let inner_results = not_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                let is_valid_inside = match inner_results {
-                    Ok(results) => results.is_empty(),
-                    Err(_) => false, // TODO - Should we fail instead of considering it valid?
-                };
-                if is_valid_inside {
+                if inner_results?.is_empty() {
                     let msg = format!(
                         "Shape: {}. NOT constraint not satisfied for focus node {fnode} and internal shape {}",
                         shape.id(),
diff --git a/shacl/src/validator/constraints/core/logical/xone.rs b/shacl/src/validator/constraints/core/logical/xone.rs
index dab77da..5027dfc 100644
--- a/shacl/src/validator/constraints/core/logical/xone.rs
+++ b/shacl/src/validator/constraints/core/logical/xone.rs
@@ -34,9 +34,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for Xone {
                     let internal_shape = shapes_graph.get_shape_from_idx_e(idx)?;
                     let inner_results =
                         internal_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                    if let Ok(results) = inner_results
-                        && results.is_empty()
-                    {
+                    if inner_results?.is_empty() {
                         conforming_shapes += 1;
                     }
                 }
diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index e70ea47..ec5e74c 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -3,7 +3,7 @@ use crate::ir::components::Disjoint;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::BasicSparqlValidator;
-use crate::validator::constraints::{NativeValidator, validate_with_focus};
+use crate::validator::constraints::{NativeValidator, apply_with_focus};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -33,26 +33,25 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
         let check_fn = |f: &S::Term, vn: &S::Term| {
             // A literal has no values for any property
             let Ok(subject) = S::term_as_subject(f) else {
-                return false;
+                return Ok(false);
             };
             let iri: S::IRI = self.iri().clone().into();
-            let triples_to_compare = match store.triples_with_subject_predicate(&subject, &iri) {
-                Ok(iter) => iter,
-                Err(_) => return true,
-            };
+            let triples_to_compare = store
+                .triples_with_subject_predicate(&subject, &iri)
+                .map_err(ValidationError::new_graph_error::<S>)?;
 
             for triple in triples_to_compare {
                 let value1 = S::term_as_object(vn).unwrap();
                 let value2 = S::term_as_object(triple.obj()).unwrap();
 
                 if value1 == value2 {
-                    return true;
+                    return Ok(true);
                 }
             }
-            false
+            Ok(false)
         };
 
-        validate_with_focus(
+        apply_with_focus(
             component,
             shape,
             value_nodes,
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index d0f4a00..fa96cb3 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -39,50 +39,34 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
-            match store.triples_with_subject_predicate(&subject, &iri) {
-                Ok(triples_iter) => {
-                    // Collect nodes to compare
-                    for triple in triples_iter {
-                        let node1 = S::term_as_object(triple.obj())?;
-                        for value in nodes.iter() {
-                            let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
-                                None => Some(format!(
-                                    "LessThan constraint violated: {node1} is not comparable to {node2}"
-                                )),
-                                Some(ord) if ord.is_ge() => Some(format!(
-                                    "LessThan constraint violated: {node1} is not less than {node2}"
-                                )),
-                                _ => None,
-                            };
+            let triples_iter = store
+                .triples_with_subject_predicate(&subject, &iri)
+                .map_err(ValidationError::new_graph_error::<S>)?;
+            // Collect nodes to compare
+            for triple in triples_iter {
+                let node1 = S::term_as_object(triple.obj())?;
+                for value in nodes.iter() {
+                    let node2 = S::term_as_object(value)?;
+                    let msg = match node2.partial_cmp(&node1) {
+                        None => Some(format!(
+                            "LessThan constraint violated: {node1} is not comparable to {node2}"
+                        )),
+                        Some(ord) if ord.is_ge() => Some(format!(
+                            "LessThan constraint violated: {node1} is not less than {node2}"
+                        )),
+                        _ => None,
+                    };
 
-                            if let Some(msg) = msg {
-                                let node_obj = S::term_as_object(value).ok();
-                                let vr = ValidationResult::new(
-                                    fnode_obj.clone(),
-                                    component.clone(),
-                                    shape.severity().clone(),
-                                )
-                                .with_message(MessageMap::from(msg))
-                                .with_path(maybe_path.cloned())
-                                .with_source(Some(shape.id().clone()))
-                                .with_value(node_obj);
-                                validation_results.push(vr);
-                            }
-                        }
+                    if let Some(msg) = msg {
+                        let node_obj = S::term_as_object(value).ok();
+                        let vr = ValidationResult::new(fnode_obj.clone(), component.clone(), shape.severity().clone())
+                            .with_message(MessageMap::from(msg))
+                            .with_path(maybe_path.cloned())
+                            .with_source(Some(shape.id().clone()))
+                            .with_value(node_obj);
+                        validation_results.push(vr);
                     }
-                },
-                Err(e) => {
-                    let msg = format!(
-                        "LessThan: Error trying to find triples for subject {subject} and predicate {}: {e}",
-                        self.iri()
-                    );
-                    let vr = ValidationResult::new(fnode_obj, component.clone(), shape.severity().clone())
-                        .with_path(maybe_path.cloned())
-                        .with_message(MessageMap::from(msg))
-                        .with_source(Some(shape.id().clone()));
-                    validation_results.push(vr);
-                },
+                }
             }
         }
 
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index 3928207..0d79e6a 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -39,53 +39,38 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
-            match store.triples_with_subject_predicate(&subject, &iri) {
-                Ok(triples_iter) => {
-                    // Collect nodes to compare
-                    for triple in triples_iter {
-                        let node1 = S::term_as_object(triple.obj())?;
-                        for value in nodes.iter() {
-                            let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
-                                None => Some(format!(
-                                    "LessThanOrEquals constraint violated: {node1} is not comparable to {node2}"
-                                )),
-                                Some(ord) if ord.is_gt() => Some(format!(
-                                    "LessThanOrEquals constraint violated: {node1} is not less or equals than {node2}"
-                                )),
-                                _ => None,
-                            };
+            let triples_iter = store
+                .triples_with_subject_predicate(&subject, &iri)
+                .map_err(ValidationError::new_graph_error::<S>)?;
+            // Collect nodes to compare
+            for triple in triples_iter {
+                let node1 = S::term_as_object(triple.obj())?;
+                for value in nodes.iter() {
+                    let node2 = S::term_as_object(value)?;
+                    let msg = match node2.partial_cmp(&node1) {
+                        None => Some(format!(
+                            "LessThanOrEquals constraint violated: {node1} is not comparable to {node2}"
+                        )),
+                        Some(ord) if ord.is_gt() => Some(format!(
+                            "LessThanOrEquals constraint violated: {node1} is not less or equals than {node2}"
+                        )),
+                        _ => None,
+                    };
 
-                            if let Some(msg) = msg {
-                                let node_obj = S::term_as_object(value).ok();
-                                let validation_result = ValidationResult::new(
-                                    fnode_obj.clone(),
-                                    component.clone(),
-                                    shape.severity().clone(),
-                                )
+                    if let Some(msg) = msg {
+                        let node_obj = S::term_as_object(value).ok();
+                        let validation_result =
+                            ValidationResult::new(fnode_obj.clone(), component.clone(), shape.severity().clone())
                                 .with_message(MessageMap::from(msg))
                                 .with_path(maybe_path.cloned())
                                 .with_value(node_obj)
                                 .with_source(Some(shape.id().clone()));
-                                validation_results.push(validation_result);
-                            }
-                        }
+                        validation_results.push(validation_result);
                     }
-                },
-                Err(e) => {
-                    let msg = format!(
-                        "LessThanOrEquals: Error trying to find triples for subject {subject} and predicate {}: {e}",
-                        self.iri()
-                    );
-                    let validation_result =
-                        ValidationResult::new(fnode_obj, component.clone(), shape.severity().clone())
-                            .with_message(MessageMap::from(msg))
-                            .with_path(maybe_path.cloned())
-                            .with_source(Some(shape.id().clone()));
-                    validation_results.push(validation_result);
-                },
+                }
             }
         }
+
         Ok(validation_results)
     }
 }
diff --git a/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs b/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
index 2c028ea..f157f0b 100644
--- a/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
+++ b/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
@@ -36,10 +36,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for QualifiedValueShape {
                 let focus_nodes = FocusNodes::single(node.clone());
                 let qv_shape = shapes_graph.get_shape_from_idx_e(self.shape())?;
                 let inner_results = qv_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                let mut is_valid = match inner_results {
-                    Ok(results) => results.is_empty(),
-                    Err(_) => false,
-                };
+                let mut is_valid = inner_results?.is_empty();
 
                 if !self.siblings().is_empty() && is_valid {
                     // If there are siblings, check that none of them validate
@@ -47,8 +44,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for QualifiedValueShape {
                         let sibling_shape = shapes_graph.get_shape_from_idx_e(sibling)?;
                         let sibling_results =
                             sibling_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                        let sibling_is_valid = sibling_results.is_ok() && sibling_results.unwrap().is_empty();
-                        if sibling_is_valid {
+                        if sibling_results?.is_empty() {
                             is_valid = false;
                             break;
                         }
diff --git a/shacl/src/validator/constraints/core/value/class.rs b/shacl/src/validator/constraints/core/value/class.rs
index 9d48cd9..f53b72d 100644
--- a/shacl/src/validator/constraints/core/value/class.rs
+++ b/shacl/src/validator/constraints/core/value/class.rs
@@ -3,7 +3,7 @@ use crate::ir::components::Class;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
 use crate::types::MessageMap;
-use crate::validator::constraints::{NativeValidator, validate_with};
+use crate::validator::constraints::{NativeValidator, apply};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -38,14 +38,14 @@ impl<S: NeighsRDF + 'static> NativeValidator<S> for Class {
     ) -> Result<Vec<ValidationResult>, ValidationError> {
         let class_fn = |vn: &S::Term| {
             if vn.is_literal() {
-                return true;
+                return Ok(true);
             }
             let term = S::object_as_term(self.class_rule());
 
-            !is_shacl_instance(store, vn, &term)
+            Ok(!is_shacl_instance(store, vn, &term)?)
         };
 
-        validate_with(
+        apply(
             component,
             shape,
             value_nodes,
@@ -85,7 +85,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
                 let conforms = if vn.is_literal() {
                     false
                 } else if vn.is_blank_node() {
-                    is_shacl_instance(store, vn, &class_term)
+                    is_shacl_instance(store, vn, &class_term)?
                 } else {
                     let vn_sparql = term_as_sparql::<S>(vn).unwrap_or_default();
                     let query = formatdoc! {"
@@ -113,25 +113,25 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
 }
 
 /// Is `vn` a SHACL instance of the class (`rdf:type/rdfs:subClassOf*`)?
-fn is_shacl_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> bool {
+fn is_shacl_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> Result<bool, ValidationError> {
     let mut pending: Vec<S::Term> = store
-        .objects_for(vn, &RdfVocab::rdf_type().into())
-        .unwrap_or_default()
+        .objects_for(vn, &RdfVocab::rdf_type().into())?
         .into_iter()
         .collect();
     let mut seen: HashSet<S::Term> = pending.iter().cloned().collect();
     while let Some(class) = pending.pop() {
         if &class == class_term {
-            return true;
+            return Ok(true);
         }
-        for parent in store
-            .objects_for(&class, &RdfsVocab::rdfs_subclass_of_str().into())
-            .unwrap_or_default()
-        {
+        // A literal has no superclasses
+        if class.is_literal() {
+            continue;
+        }
+        for parent in store.objects_for(&class, &RdfsVocab::rdfs_subclass_of_str().into())? {
             if seen.insert(parent.clone()) {
                 pending.push(parent);
             }
         }
     }
-    false
+    Ok(false)
 }
diff --git a/shacl/src/validator/constraints/mod.rs b/shacl/src/validator/constraints/mod.rs
index b9578a7..64f11a6 100644
--- a/shacl/src/validator/constraints/mod.rs
+++ b/shacl/src/validator/constraints/mod.rs
@@ -256,7 +256,7 @@ fn apply<S: Rdf, I: IterationStrategy<S>>(
 ) -> Result<Vec<ValidationResult>, ValidationError> {
     let results = strategy
         .iterate(value_nodes)
-        .flat_map(|(focus_node, item)| {
+        .filter_map(|(focus_node, item)| {
             let focus = S::term_as_object(focus_node).ok()?;
             let component = Object::iri(component.into());
             let shape_id = shape.id();
@@ -266,20 +266,17 @@ fn apply<S: Rdf, I: IterationStrategy<S>>(
             if let Some(m) = shape.message() {
                 msg = msg.merge(m.to_owned(), true);
             }
-            if let Ok(condition) = evaluator(item)
-                && condition
-            {
-                return Some(
-                    ValidationResult::new(focus, component, shape.severity().clone())
-                        .with_source(source.cloned())
-                        .with_message(msg)
-                        .with_path(maybe_path.cloned())
-                        .with_value(value),
-                );
+            match evaluator(item) {
+                Ok(true) => Some(Ok(ValidationResult::new(focus, component, shape.severity().clone())
+                    .with_source(source.cloned())
+                    .with_message(msg)
+                    .with_path(maybe_path.cloned())
+                    .with_value(value))),
+                Ok(false) => None,
+                Err(e) => Some(Err(e)),
             }
-            None
         })
-        .collect();
+        .collect::<Result<Vec<_>, _>>()?;
     Ok(results)
 }
 
@@ -295,25 +292,23 @@ fn apply_with_focus<S: Rdf, I: IterationStrategy<S>>(
 ) -> Result<Vec<ValidationResult>, ValidationError> {
     let results = strategy
         .iterate(value_nodes)
-        .flat_map(|(focus_node, item)| {
+        .filter_map(|(focus_node, item)| {
             let focus = S::term_as_object(focus_node).ok()?;
             let component = Object::iri(component.into());
             let shape_id = shape.id();
             let source = Some(shape_id);
             let value = strategy.to_object(item);
             match evaluator(focus_node, item) {
-                Ok(true) => Some(
-                    ValidationResult::new(focus, component, shape.severity().clone())
-                        .with_source(source.cloned())
-                        .with_message(MessageMap::from(msg))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value),
-                ),
+                Ok(true) => Some(Ok(ValidationResult::new(focus, component, shape.severity().clone())
+                    .with_source(source.cloned())
+                    .with_message(MessageMap::from(msg))
+                    .with_path(maybe_path.cloned())
+                    .with_value(value))),
                 Ok(false) => None,
-                Err(_) => None,
+                Err(e) => Some(Err(e)),
             }
         })
-        .collect();
+        .collect::<Result<Vec<_>, _>>()?;
 
     Ok(results)
 }
@@ -339,27 +334,6 @@ fn validate_with<S: Rdf, I: IterationStrategy<S>>(
     )
 }
 
-/// Validate with a boolean evaluator. If the evaluator returns true, it means that there is a violation
-fn validate_with_focus<S: Rdf, I: IterationStrategy<S>>(
-    component: &IRComponent,
-    shape: &IRShape,
-    value_nodes: &ValueNodes<S>,
-    strategy: I,
-    evaluator: impl Fn(&S::Term, &I::Item) -> bool,
-    msg: &str,
-    maybe_path: Option<&SHACLPath>,
-) -> Result<Vec<ValidationResult>, ValidationError> {
-    apply_with_focus(
-        component,
-        shape,
-        value_nodes,
-        strategy,
-        |f, i| Ok(evaluator(f, i)),
-        msg,
-        maybe_path,
-    )
-}
-
 /// Runs an ASK query per value node and emits a violation when the query
 /// returns `false`. If the closure returns `None` for a value node, that node
 /// is treated as conforming (use this for cases where the value node can't be
diff --git a/shacl/src/validator/engine/focus_nodes_ops.rs b/shacl/src/validator/engine/focus_nodes_ops.rs
index 7461de6..34bf166 100644
--- a/shacl/src/validator/engine/focus_nodes_ops.rs
+++ b/shacl/src/validator/engine/focus_nodes_ops.rs
@@ -1,16 +1,15 @@
+use crate::error::ValidationError;
 use crate::ir::IRShape;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::FocusNodes;
 use rudof_rdf::rdf_core::{NeighsRDF, Rdf};
 
 pub(crate) trait FocusNodesOps<RDF: Rdf> {
-    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> FocusNodes<RDF>;
+    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> Result<FocusNodes<RDF>, ValidationError>;
 }
 
 impl<RDF: NeighsRDF> FocusNodesOps<RDF> for IRShape {
-    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> FocusNodes<RDF> {
-        runner
-            .focus_nodes(store, self.targets())
-            .expect("Failed to retrieve focus nodes")
+    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> Result<FocusNodes<RDF>, ValidationError> {
+        runner.focus_nodes(store, self.targets())
     }
 }
diff --git a/shacl/src/validator/engine/mod.rs b/shacl/src/validator/engine/mod.rs
index d3d3515..458d75b 100644
--- a/shacl/src/validator/engine/mod.rs
+++ b/shacl/src/validator/engine/mod.rs
@@ -49,9 +49,9 @@ pub trait Engine<S: NeighsRDF>: Send {
     ) -> Result<Vec<ValidationResult>, ValidationError>;
 
     fn focus_nodes(&self, store: &S, targets: &[Target]) -> Result<FocusNodes<S>, ValidationError> {
-        let targets_iter: Vec<_> = targets
-            .iter()
-            .flat_map(|target| match target {
+        let mut targets_iter = Vec::new();
+        for target in targets {
+            let nodes = match target {
                 Target::Node(n) => self.target_node(store, n),
                 Target::Class(c) => self.target_class(store, c),
                 Target::SubjectsOf(p) => self.target_subject_of(store, p),
@@ -62,9 +62,14 @@ pub trait Engine<S: NeighsRDF>: Send {
                 Target::WrongSubjectsOf(_) => todo!(),
                 Target::WrongObjectsOf(_) => todo!(),
                 Target::WrongImplicitClass(_) => todo!(),
-            })
-            .flatten()
-            .collect();
+            };
+            match nodes {
+                Ok(nodes) => targets_iter.extend(nodes),
+                // Nothing to look for in the data: such a target has no focus nodes
+                Err(ValidationError::TargetNodeBNode | ValidationError::TargetClassNotIri) => {},
+                Err(e) => return Err(e),
+            }
+        }
 
         Ok(FocusNodes::from_iter(targets_iter))
     }
diff --git a/shacl/src/validator/engine/native.rs b/shacl/src/validator/engine/native.rs
index 374050f..262e369 100644
--- a/shacl/src/validator/engine/native.rs
+++ b/shacl/src/validator/engine/native.rs
@@ -109,19 +109,13 @@ impl NativeEngine {
         }
 
         let term: RDF::Term = shape.clone().into();
-        let targets = store.subjects_for(&RdfVocab::rdf_type().into(), &term)?;
-
-        let subclass_targets = store
-            .subjects_for(&RdfsVocab::rdfs_subclass_of_str().into(), &term)?
-            .into_iter()
-            .flat_map(move |subclass| {
-                store
-                    .subjects_for(&RdfVocab::rdf_type().into(), &subclass)
-                    .into_iter()
-                    .flatten()
-            });
-
-        Ok(FocusNodes::from_iter(targets.into_iter().chain(subclass_targets)))
+        let mut targets = store.subjects_for(&RdfVocab::rdf_type().into(), &term)?;
+
+        for subclass in store.subjects_for(&RdfsVocab::rdfs_subclass_of_str().into(), &term)? {
+            targets.extend(store.subjects_for(&RdfVocab::rdf_type().into(), &subclass)?);
+        }
+
+        Ok(FocusNodes::from_iter(targets))
     }
 }
 
diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index 8fbe121..6e95324 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -40,7 +40,7 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
 
         // Get focus nodes
         let focus_nodes = match targets {
-            None => &self.focus_nodes(store, runner),
+            None => &self.focus_nodes(store, runner)?,
             Some(targets) => targets,
         };
 
-- 
2.43.0


From a8400a8d4574bf38655a8bd052b51c8c9af6a990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 24/40] fix: the page of an HTTP error is not read as the
 schema imported or the node asked for

---
 rudof_iri/src/iri/iris.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rudof_iri/src/iri/iris.rs b/rudof_iri/src/iri/iris.rs
index 47a1d57..996aea3 100644
--- a/rudof_iri/src/iri/iris.rs
+++ b/rudof_iri/src/iri/iris.rs
@@ -226,6 +226,7 @@ impl IriS {
                 let res = client
                     .get(url)
                     .send()
+                    .and_then(|res| res.error_for_status())
                     .map_err(|e| IriSError::ReqwestError { error: e.to_string() })?
                     .text()
                     .map_err(|e| IriSError::ReqwestTextError { error: e.to_string() })?;
-- 
2.43.0


From c45c58afab02f32623cee35e27f770f89f600426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 25/40] fix: replacing the data with several sources keeps all
 of them

---
 .../src/api/data/implementations/load_data.rs | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rudof_lib/src/api/data/implementations/load_data.rs b/rudof_lib/src/api/data/implementations/load_data.rs
index 12040ac..80629f2 100644
--- a/rudof_lib/src/api/data/implementations/load_data.rs
+++ b/rudof_lib/src/api/data/implementations/load_data.rs
@@ -29,14 +29,18 @@ pub fn load_data(
     let (data_format, reader_mode, base, merge) = init_defaults(rudof, data_format, reader_mode, base, merge)?;
     // A load is all or nothing: if any source is rejected, the current data stays as it was
     let previous = rudof.data.clone();
+    if !merge {
+        // Replace the current data once: the sources of this load still merge with each other
+        rudof.data = None;
+    }
     let result = match (data, endpoint) {
         (Some(_data), Some(_endpoint)) => Err(Box::new(DataError::DataSourceSpec {
             message: "Cannot specify both data and endpoint. Please choose one or the other.".to_string(),
         })
         .into()),
         (Some(data), None) => match data_format {
-            DataFormat::Pg => load_data_from_specs_pg(rudof, data, merge),
-            _ => load_data_from_specs_rdf(rudof, data, data_format, base, reader_mode, merge, prefixes),
+            DataFormat::Pg => load_data_from_specs_pg(rudof, data),
+            _ => load_data_from_specs_rdf(rudof, data, data_format, base, reader_mode, prefixes),
         },
         (None, Some(endpoint)) => load_data_from_endpoint(rudof, endpoint),
         (None, None) => Err(Box::new(DataError::DataSourceSpec {
@@ -66,7 +70,7 @@ fn init_defaults(
     ))
 }
 
-fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec], merge: bool) -> Result<()> {
+fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec]) -> Result<()> {
     for input_spec in data {
         let mut data_reader = input_spec
             .open_read(Some(DataFormat::Pg.mime_type()), "PG data")
@@ -76,7 +80,7 @@ fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec], merge: bool) -
                 })
             })?;
 
-        read_pg_data(rudof, &mut data_reader, input_spec.source_name().as_str(), merge)?;
+        read_pg_data(rudof, &mut data_reader, input_spec.source_name().as_str())?;
     }
 
     Ok(())
@@ -88,7 +92,6 @@ fn load_data_from_specs_rdf(
     data_format: DataFormat,
     base: IriS,
     reader_mode: DataReaderMode,
-    merge: bool,
     prefixes: Option<&[InputSpec]>,
 ) -> Result<()> {
     for input_spec in data {
@@ -107,7 +110,6 @@ fn load_data_from_specs_rdf(
             &data_format,
             &base,
             &reader_mode,
-            merge,
         )?;
     }
 
@@ -188,9 +190,8 @@ fn read_rdf_data<R: Read>(
     data_format: &DataFormat,
     base: &IriS,
     reader_mode: &DataReaderMode,
-    merge: bool,
 ) -> Result<()> {
-    if !merge || rudof.data.is_none() || matches!(rudof.data, Some(ref data) if data.is_pg()) {
+    if rudof.data.is_none() || matches!(rudof.data, Some(ref data) if data.is_pg()) {
         let rdf_data = init_rdf_data_with_config(rudof)?;
         rudof.data = Some(rdf_data);
     }
@@ -242,8 +243,8 @@ fn read_rdf_data<R: Read>(
     Ok(())
 }
 
-fn read_pg_data<R: io::Read>(rudof: &mut Rudof, data_reader: &mut R, source_name: &str, merge: bool) -> Result<()> {
-    if !merge || rudof.data.is_none() || matches!(rudof.data, Some(ref data) if data.is_rdf()) {
+fn read_pg_data<R: io::Read>(rudof: &mut Rudof, data_reader: &mut R, source_name: &str) -> Result<()> {
+    if rudof.data.is_none() || matches!(rudof.data, Some(ref data) if data.is_rdf()) {
         rudof.data = Some(Data::empty_pg());
     }
 
-- 
2.43.0


From bcbcc9cb579b9431b2acccc7cb36ea4e4d517dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:18 +0000
Subject: [PATCH 26/40] fix: a data command that fails in the shell leaves the
 loaded data in place

---
 rudof_cli/src/commands/data.rs | 13 ++++++++++++-
 rudof_cli/src/shell/repl.rs    | 21 ++++++++++-----------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/rudof_cli/src/commands/data.rs b/rudof_cli/src/commands/data.rs
index a0a80a6..e3b8ac1 100644
--- a/rudof_cli/src/commands/data.rs
+++ b/rudof_cli/src/commands/data.rs
@@ -11,11 +11,21 @@ use rudof_lib::formats::BackendSpec;
 pub struct DataCommand {
     /// Arguments specific to Data command.
     args: DataArgs,
+
+    /// Whether new data is merged into the data already loaded or replaces it.
+    merge: bool,
 }
 
 impl DataCommand {
     pub fn new(args: DataArgs) -> Self {
-        Self { args }
+        Self { args, merge: true }
+    }
+
+    /// Sets whether new data is merged into the data already loaded (the
+    /// default) or replaces it, once it has been loaded successfully.
+    pub fn with_merge(mut self, merge: bool) -> Self {
+        self.merge = merge;
+        self
     }
 }
 
@@ -45,6 +55,7 @@ impl Command for DataCommand {
                 .load_data()
                 .with_data_format(&data_format)
                 .with_reader_mode(&reader_mode)
+                .with_merge(self.merge)
                 .with_backend(backend);
             if !self.args.data.is_empty() {
                 loading = loading.with_data(&self.args.data);
diff --git a/rudof_cli/src/shell/repl.rs b/rudof_cli/src/shell/repl.rs
index 67d2326..c7e5ac1 100644
--- a/rudof_cli/src/shell/repl.rs
+++ b/rudof_cli/src/shell/repl.rs
@@ -1,6 +1,6 @@
 use crate::cli::parser::{Command as CliCommand, CommonArgsAll};
 use crate::cli::wrappers::resolve_backend;
-use crate::commands::{CommandContext, CommandFactory, extract_common};
+use crate::commands::{Command, CommandContext, CommandFactory, DataCommand, extract_common};
 use crate::shell::completer::ShellHelper;
 use anyhow::{Context, Result, anyhow};
 use clap::{CommandFactory as ClapCommandFactory, Parser};
@@ -11,7 +11,7 @@ use rustyline::history::DefaultHistory;
 use rustyline::{Cmd, CompletionType, Config, Editor, EventHandler, KeyEvent};
 use std::io;
 use std::io::Write as _;
-use std::process::Command;
+use std::process;
 
 pub(super) const PROMPT: &str = "rudof> ";
 // Shown for continuation lines of a multi-line command, e.g. a SPARQL query
@@ -227,11 +227,10 @@ fn dispatch(line: &str, ctx: &mut CommandContext) -> Result<()> {
     // is still available via `-o FILE`, handled below.
     let stats_kind = output_path.is_none().then(|| StatsKind::of(&parsed)).flatten();
 
-    let command = CommandFactory::create(parsed)?;
-
-    if should_replace_data {
-        ctx.rudof.reset_data().execute();
-    }
+    let command: Box<dyn Command> = match parsed {
+        CliCommand::Data(args) => Box::new(DataCommand::new(args).with_merge(!should_replace_data)),
+        parsed => CommandFactory::create(parsed)?,
+    };
 
     if let Some(kind) = stats_kind {
         let previous_writer = std::mem::replace(&mut ctx.writer, Box::new(io::sink()));
@@ -748,16 +747,16 @@ fn run_external_command(command_line: &str, ctx: &mut CommandContext) -> Result<
 }
 
 #[cfg(not(windows))]
-fn system_shell(command_line: &str) -> Command {
+fn system_shell(command_line: &str) -> process::Command {
     let shell = std::env::var("SHELL").unwrap_or_else(|_| "/bin/sh".to_string());
-    let mut command = Command::new(shell);
+    let mut command = process::Command::new(shell);
     command.arg("-c").arg(command_line);
     command
 }
 
 #[cfg(windows)]
-fn system_shell(command_line: &str) -> Command {
-    let mut command = Command::new("cmd");
+fn system_shell(command_line: &str) -> process::Command {
+    let mut command = process::Command::new("cmd");
     command.arg("/C").arg(command_line);
     command
 }
-- 
2.43.0


From 13c6c6c2768e869819d96a641318769fbc2221e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:04 +0000
Subject: [PATCH 27/40] fix: constraint conjuncts of extended shapes hold
 whatever their kind and leave other properties alone

---
 shex_validation/src/engine.rs | 179 +++++++++++-----------------------
 1 file changed, 55 insertions(+), 124 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index fda0fcf..7a81e17 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -690,11 +690,15 @@ impl Engine {
 
         // When some extended parent resolves to several alternatives (it contains a
         // ShapeOr), validate by trying every selection of one alternative per parent.
-        // Parents with a single alternative keep the historical code path below.
+        // So do parents with constraint conjuncts, which are checked there, whatever kind
+        // of shape expression they are. Other parents keep the historical code path below.
         // See docs/src/internals/feasibility-model.md §3-§4.
         let parent_alternatives: Vec<Vec<ExtendAlternative>> =
             shape.extends().iter().map(|e| schema.extend_alternatives(e)).collect();
-        if parent_alternatives.iter().any(|alts| alts.len() > 1) {
+        if parent_alternatives
+            .iter()
+            .any(|alts| alts.len() > 1 || alts.iter().any(|a| !a.constraints().is_empty()))
+        {
             return self.check_node_shape_extends_selections(
                 idx,
                 node,
@@ -743,48 +747,11 @@ impl Engine {
         // MAIN triple expression.  The map is keyed by ancestor, so a diamond's shared
         // ancestor appears exactly once and its constraints are satisfied by a single
         // allocation of the same triples, never demanded once per inheritance path.
-        // An ancestor's remaining conjuncts (RESTRICTS-style constraints) are not
-        // partition buckets competing for triples: they are validated after a partition
-        // succeeds, against the triples the partition allocated to that ancestor and to
-        // the ancestor's own ancestors (its "split", following jena-shex).
         let mut triple_exprs: HashMap<Option<ShapeLabelIdx>, Vec<Expr>> = HashMap::new();
         triple_exprs.insert(None, vec![shape.triple_expr().clone()]);
-        let mut ancestor_constraints: Vec<(ShapeLabelIdx, Vec<ShapeLabelIdx>, Vec<Expr>)> = Vec::new();
         for a in extends_closure(schema, shape.extends()) {
-            if let Some((ncs, main, rest)) = schema.get_main_shape_constraints(&a) {
-                // The ancestors whose split parts this ancestor's constraints may see:
-                // the transitive extends closure of its main shape.
-                let split_ancestors: Vec<ShapeLabelIdx> = main
-                    .as_ref()
-                    .map(|m| extends_closure(schema, m.extends()))
-                    .unwrap_or_default();
-                if let Some(main_shape) = main {
-                    triple_exprs.insert(Some(a), vec![main_shape.triple_expr().clone()]);
-                }
-                let mut constraint_tes: Vec<Expr> = Vec::new();
-                let mut conjuncts_ok = true;
-                for se in &rest {
-                    conjuncts_ok = conjuncts_ok && collect_constraint_exprs(schema, se, node, &mut constraint_tes);
-                }
-                for nc in &ncs {
-                    let ctx = SemanticActionContext::subject(node);
-                    conjuncts_ok = conjuncts_ok && nc.cond().matches(node, &ctx).is_ok();
-                }
-                if !conjuncts_ok {
-                    return Ok(Either::Left(vec![ValidatorError::ShapeExtendsError {
-                        node: Box::new(node.clone()),
-                        shape: Box::new(shape.clone()),
-                        idx: *idx,
-                        extends: a,
-                        errors: ValidatorErrors::new(vec![ValidatorError::TripleExprRefuted {
-                            node: Box::new(node.clone()),
-                            idx: a,
-                        }]),
-                    }]));
-                }
-                if !constraint_tes.is_empty() {
-                    ancestor_constraints.push((a, split_ancestors, constraint_tes));
-                }
+            if let Some((_ncs, Some(main_shape), _rest)) = schema.get_main_shape_constraints(&a) {
+                triple_exprs.insert(Some(a), vec![main_shape.triple_expr().clone()]);
             }
         }
         /*debug!(
@@ -930,9 +897,7 @@ impl Engine {
                 let mut ok_partition = true;
                 let mut errors_in_loop = Vec::new();
                 let mut reasons_in_loop = Vec::new();
-                let mut allocated: HashMap<Option<ShapeLabelIdx>, Vec<_>> = HashMap::new();
                 for (maybe_label, rbes, neighs_subset) in partition.iter() {
-                    allocated.insert(*maybe_label, neighs_subset.clone());
                     let result = check_exprs_neigh(rbes, neighs_subset, node, shape, idx, typing)?;
                     match result {
                         Either::Right(reasons) => {
@@ -975,42 +940,6 @@ impl Engine {
                         },
                     }
                 }
-                if ok_partition {
-                    // The ancestors' constraint conjuncts must hold over each ancestor's
-                    // split: the triples this partition allocated to the ancestor and to
-                    // the ancestor's own transitive ancestors.
-                    'constraints: for (a, split_ancestors, constraint_tes) in &ancestor_constraints {
-                        let mut constraint_neighs = allocated.get(&Some(*a)).cloned().unwrap_or_default();
-                        for b in split_ancestors {
-                            if let Some(more) = allocated.get(&Some(*b)) {
-                                constraint_neighs.extend(more.iter().cloned());
-                            }
-                        }
-                        for te in constraint_tes {
-                            match check_exprs_neigh(
-                                std::slice::from_ref(te),
-                                &constraint_neighs,
-                                node,
-                                shape,
-                                idx,
-                                typing,
-                            )? {
-                                Either::Right(_) => {},
-                                Either::Left(errs) => {
-                                    errors_in_loop.push(ValidatorError::ShapeExtendsError {
-                                        node: Box::new(node.clone()),
-                                        shape: Box::new(shape.clone()),
-                                        idx: *idx,
-                                        extends: *a,
-                                        errors: ValidatorErrors::new(errs),
-                                    });
-                                    ok_partition = false;
-                                    break 'constraints;
-                                },
-                            }
-                        }
-                    }
-                }
                 if ok_partition {
                     // debug!(" Part {npart}| Partition succeeded",);
                     return pass(Reason::ShapeExtends {
@@ -1185,20 +1114,20 @@ impl Engine {
             }
         }
 
-        // The selection's constraint conjuncts.  Those expressible as triple expressions
+        // The selection's constraint conjuncts.  Those that are shapes without extends
         // are validated by split-constraint logic once a partition succeeds (below),
         // against the union of the triples the partition allocated to the buckets in the
-        // constraint's scope — mirroring check_node_shape_extends.  NodeConstraint
+        // constraint's scope.  NodeConstraint
         // conjuncts involve no triples and are checked against the node right away;
         // anything else (e.g. a NOT conjunct) keeps the whole-neighbourhood check.
         let mut reasons = Vec::new();
-        let mut split_constraints: Vec<(ShapeLabelIdx, &[ShapeLabelIdx], Vec<Expr>)> = Vec::new();
+        let mut split_constraints: Vec<(ShapeLabelIdx, &[ShapeLabelIdx], Vec<Shape>)> = Vec::new();
         for c in sigma.constraints() {
-            let mut tes = Vec::new();
-            match try_split_constraint(schema, c.expr(), node, &mut tes) {
+            let mut shapes = Vec::new();
+            match try_split_constraint(schema, c.expr(), node, &mut shapes) {
                 Some(true) => {
-                    if !tes.is_empty() {
-                        split_constraints.push((*c.expr(), c.scope(), tes));
+                    if !shapes.is_empty() {
+                        split_constraints.push((*c.expr(), c.scope(), shapes));
                     }
                 },
                 Some(false) => {
@@ -1280,16 +1209,15 @@ impl Engine {
             if ok_partition {
                 // Split-constraint validation: each constraint sees the union of the
                 // triples this partition allocated to the buckets in its scope.
-                'constraints: for (cidx, scope, tes) in &split_constraints {
+                'constraints: for (cidx, scope, constraint_shapes) in &split_constraints {
                     let mut constraint_neighs = Vec::new();
                     for b in *scope {
                         if let Some(more) = allocated.get(&Some(*b)) {
                             constraint_neighs.extend(more.iter().cloned());
                         }
                     }
-                    for te in tes {
-                        match check_exprs_neigh(std::slice::from_ref(te), &constraint_neighs, node, shape, idx, typing)?
-                        {
+                    for constraint_shape in constraint_shapes {
+                        match check_split_constraint(constraint_shape, &constraint_neighs, node, cidx, typing)? {
                             Either::Right(_) => {},
                             Either::Left(errs) => {
                                 errors_in_loop.push(ValidatorError::ShapeExtendsError {
@@ -1733,16 +1661,16 @@ fn collect_all_exprs_for_shape(
 }
 
 /// Classify a selection constraint for split-constraint validation.  Returns
-/// `Some(true)` with the constraint's triple expressions pushed onto `out` when the
-/// (dereferenced) expression is expressible as triple expressions over its split scope
+/// `Some(true)` with the constraint's shapes pushed onto `out` when the (dereferenced)
+/// expression can be checked over its split scope
 /// — a Shape without extends, a NodeConstraint (checked against the node immediately),
 /// or a conjunction of such.  `Some(false)` reports a NodeConstraint the node fails.
 /// `None` means the constraint is not split-validatable (e.g. a negation or a shape
 /// with its own extends) and must keep the whole-neighbourhood check.
-fn try_split_constraint(schema: &SchemaIR, cidx: &ShapeLabelIdx, node: &Node, out: &mut Vec<Expr>) -> Option<bool> {
+fn try_split_constraint(schema: &SchemaIR, cidx: &ShapeLabelIdx, node: &Node, out: &mut Vec<Shape>) -> Option<bool> {
     match schema.find_shape_idx(cidx).map(|info| info.expr()) {
         Some(ShapeExpr::Shape(s)) if s.extends().is_empty() => {
-            out.push(s.triple_expr().clone());
+            out.push((**s).clone());
             Some(true)
         },
         Some(ShapeExpr::NodeConstraint(nc)) => {
@@ -1768,37 +1696,40 @@ fn try_split_constraint(schema: &SchemaIR, cidx: &ShapeLabelIdx, node: &Node, ou
     }
 }
 
-/// Collect the triple expressions contributed by an ancestor's constraint conjunct:
-/// Shapes contribute their triple expression, references are dereferenced (recursing
-/// into conjunctions), and NodeConstraints are checked against the node immediately —
-/// a failing one makes the whole collection report false.
-fn collect_constraint_exprs(schema: &SchemaIR, se: &ShapeExpr, node: &Node, out: &mut Vec<Expr>) -> bool {
-    match se {
-        ShapeExpr::Shape(s) => {
-            out.push(s.triple_expr().clone());
-            true
-        },
-        ShapeExpr::NodeConstraint(nc) => {
-            let ctx = SemanticActionContext::subject(node);
-            nc.cond().matches(node, &ctx).is_ok()
-        },
-        ShapeExpr::Ref { idx } => match schema.get_main_shape_constraints(idx) {
-            Some((ncs, main, rest)) => {
-                for nc in &ncs {
-                    let ctx = SemanticActionContext::subject(node);
-                    if nc.cond().matches(node, &ctx).is_err() {
-                        return false;
-                    }
-                }
-                if let Some(m) = main {
-                    out.push(m.triple_expr().clone());
-                }
-                rest.iter().all(|r| collect_constraint_exprs(schema, r, node, out))
-            },
-            None => true,
-        },
-        _ => true,
+/// Checks a constraint shape against the triples of its split: as for any shape, predicates it
+/// does not mention only matter when it is CLOSED, and values of its EXTRA predicates that
+/// satisfy none of its triple constraints are left out.
+fn check_split_constraint(
+    constraint: &Shape,
+    neighs: &[(Pred, Node, SemanticActionContext)],
+    node: &Node,
+    idx: &ShapeLabelIdx,
+    typing: &RefTyping,
+) -> Result<ValidationResult> {
+    let preds = constraint.preds();
+    let extra = constraint.extra();
+    let (mentioned, remainder): (Vec<_>, Vec<_>) =
+        neighs.iter().cloned().partition(|(pred, _, _)| preds.contains(pred));
+    if constraint.is_closed() {
+        let remainder: Vec<Pred> = remainder
+            .into_iter()
+            .map(|(pred, _, _)| pred)
+            .filter(|pred| !extra.contains(pred))
+            .collect();
+        if !remainder.is_empty() {
+            return fail(ValidatorError::ClosedShapeWithRemainderPreds {
+                remainder: Preds::new(remainder),
+                declared: Preds::new(preds),
+            });
+        }
     }
+    let values: Vec<_> = mentioned
+        .into_iter()
+        .filter(|(pred, value, ctx)| {
+            !extra.contains(pred) || matches_any_leaf(constraint.triple_expr(), pred, value, ctx, typing)
+        })
+        .collect();
+    check_expr_neigh(constraint.triple_expr(), &values, node, constraint, idx, typing)
 }
 
 /// The transitive EXTENDS closure of `roots`, deduplicated (a diamond's shared ancestor
-- 
2.43.0


From 545a87b3b19fa8c54e00d74a13538b5500310162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:51 +0000
Subject: [PATCH 28/40] fix: ancestors that mention the same predicate share
 its triples

---
 shex_validation/src/engine.rs | 71 +++--------------------------------
 1 file changed, 5 insertions(+), 66 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 7a81e17..25337ca 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -1349,72 +1349,11 @@ impl Engine {
             let mut reasons = Vec::new();
 
             if let Some(main_shape) = maybe_main_shape {
-                // For shapes with their own triple expression alongside extends (e.g.,
-                // EXTENDS @<Parent> { <p> [4] }), validate the triple expression using
-                // exhaustive semantics: pre-filter triples to those matching any component's
-                // value condition, then check cardinality. This handles open shapes correctly
-                // since extra values that don't match any constraint are simply ignored.
-                // Skip this check for shapes with shape-reference value conditions (MatchCond::Ref),
-                // which require the partition algorithm to correctly distribute triples.
-                let main_preds = main_shape.preds();
-                let no_shape_refs = main_shape
-                    .triple_expr()
-                    .components()
-                    .all(|(_, _, cond)| !cond_has_ref(&cond));
-                // Skip this shortcut when the ancestor's predicates overlap with the child
-                // shape's own declared predicates. In that case a single triple can satisfy
-                // both the ancestor's condition (e.g. a datatype constraint) and the child's
-                // own, more specific condition (e.g. a value set), and how many triples go to
-                // each side is exactly the counting problem the partition algorithm in
-                // check_node_shape_extends solves; this exhaustive pre-filter cannot (it can
-                // only keep-or-exclude a triple wholesale, not split a run of them between
-                // the two buckets in the right proportions).
-                let overlaps_child_preds = shape.preds().iter().any(|p| main_preds.contains(p));
-                if !main_preds.is_empty() && no_shape_refs && !overlaps_child_preds {
-                    let (all_values, _) = self.neighs(node, main_preds, rdf)?;
-                    let all_values_ctx: Vec<_> = all_values
-                        .iter()
-                        .map(|(p, v)| {
-                            (
-                                p.clone(),
-                                v.clone(),
-                                SemanticActionContext::triple(node, p, v)
-                                    .with_registry(schema.semantic_actions_registry_arc()),
-                            )
-                        })
-                        .collect();
-                    // Keep only triples where the value satisfies some component's condition
-                    let filtered: Vec<_> = all_values_ctx
-                        .iter()
-                        .filter(|(pred, value, ctx)| {
-                            main_shape
-                                .triple_expr()
-                                .components()
-                                .any(|(_, key, cond)| &key == pred && cond.matches(value, ctx).is_ok())
-                        })
-                        .cloned()
-                        .collect();
-                    match check_expr_neigh(main_shape.triple_expr(), &filtered, node, shape, idx, typing)? {
-                        Either::Left(errs) => {
-                            errors.push(ValidatorError::ParentShapeMainShapeFailed {
-                                node: Box::new(node.clone()),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                errors: ValidatorErrors::new(errs),
-                            });
-                        },
-                        Either::Right(rs) => {
-                            reasons.push(Reason::ParentShapeMainShapePassed {
-                                node: node.clone(),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                reasons: Reasons::new(rs),
-                            });
-                        },
-                    }
-                }
-                // Recursively check node constraints and triple expressions through the
-                // ancestor extends chain.
+                // The triple expressions of the ancestors are left to the partition search of
+                // check_node_shape_extends: only that can tell how many triples of a predicate
+                // go to each of the shapes that mention it.
+                //
+                // Recursively check node constraints through the ancestor extends chain.
                 for e in main_shape.extends() {
                     match self.check_node_extends_main_shape(node, e, &main_shape, schema, rdf, typing)? {
                         Either::Left(errs) => {
-- 
2.43.0


From 03d3d378121f2898195cacd858c3241b5bd6b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 29/40] fix: inverse paths of other than predicates are
 followed instead of panicking

---
 rudof_rdf/src/rdf_core/neighs_rdf.rs | 11 +++++++----
 rudof_rdf/src/rdf_core/shacl_path.rs | 13 +++++++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/neighs_rdf.rs b/rudof_rdf/src/rdf_core/neighs_rdf.rs
index c71d6ab..95c42b0 100644
--- a/rudof_rdf/src/rdf_core/neighs_rdf.rs
+++ b/rudof_rdf/src/rdf_core/neighs_rdf.rs
@@ -353,10 +353,13 @@ pub trait NeighsRDF: Rdf {
                     Ok(all_objects)
                 },
             },
-            SHACLPath::Inverse { path } => {
-                let pred: Self::IRI = path.pred().unwrap().clone().into();
-                let objects = self.subjects_for(&pred, subject)?;
-                Ok(objects)
+            SHACLPath::Inverse { path } => match path.as_ref() {
+                SHACLPath::Predicate { pred } => {
+                    let pred: Self::IRI = pred.clone().into();
+                    let objects = self.subjects_for(&pred, subject)?;
+                    Ok(objects)
+                },
+                path => self.objects_for_shacl_path(subject, &path.inverted()),
             },
             SHACLPath::ZeroOrMore { path } => {
                 let mut all_objects = HashSet::new();
diff --git a/rudof_rdf/src/rdf_core/shacl_path.rs b/rudof_rdf/src/rdf_core/shacl_path.rs
index c222608..52ac173 100644
--- a/rudof_rdf/src/rdf_core/shacl_path.rs
+++ b/rudof_rdf/src/rdf_core/shacl_path.rs
@@ -75,6 +75,19 @@ impl SHACLPath {
         SHACLPath::Inverse { path: Box::new(path) }
     }
 
+    /// The path that leads back from what this path leads to.
+    pub fn inverted(&self) -> Self {
+        match self {
+            SHACLPath::Predicate { .. } => SHACLPath::inverse(self.clone()),
+            SHACLPath::Alternative { paths } => SHACLPath::alternative(paths.iter().map(Self::inverted).collect()),
+            SHACLPath::Sequence { paths } => SHACLPath::sequence(paths.iter().rev().map(Self::inverted).collect()),
+            SHACLPath::Inverse { path } => (**path).clone(),
+            SHACLPath::ZeroOrMore { path } => SHACLPath::zero_or_more(path.inverted()),
+            SHACLPath::OneOrMore { path } => SHACLPath::one_or_more(path.inverted()),
+            SHACLPath::ZeroOrOne { path } => SHACLPath::zero_or_one(path.inverted()),
+        }
+    }
+
     /// Creates a zero-or-more quantified path (transitive closure).
     ///
     /// # Arguments
-- 
2.43.0


From eea2dffac397a8fd4296b13c9a4983496742005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 30/40] fix: the generator's seed decides the data it generates

The seed was only logged: every value came from the generator of the thread, the
entities left over by an equal distribution went to shapes in hash order, and the
properties of a shape were drawn in the order the schema's graph happened to list
them. Each entity and each relationship now draws from a stream derived from the
seed and its name.
---
 rudof_generate/src/field_generators/basic.rs  | 14 ++--
 .../src/field_generators/pattern.rs           |  4 +-
 .../field_generators/specialized/person.rs    |  2 +-
 rudof_generate/src/lib.rs                     |  2 +
 rudof_generate/src/parallel_generation.rs     | 46 ++++++++----
 rudof_generate/src/random.rs                  | 75 +++++++++++++++++++
 6 files changed, 117 insertions(+), 26 deletions(-)
 create mode 100644 rudof_generate/src/random.rs

diff --git a/rudof_generate/src/field_generators/basic.rs b/rudof_generate/src/field_generators/basic.rs
index ad31e19..f9b72e3 100644
--- a/rudof_generate/src/field_generators/basic.rs
+++ b/rudof_generate/src/field_generators/basic.rs
@@ -17,7 +17,7 @@ pub struct StringGenerator;
 
 impl FieldGenerator for StringGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = crate::random::rng();
 
         // Generate based on property context
         let value = if context.property.contains("name") || context.property.contains("Name") {
@@ -49,7 +49,7 @@ pub struct IntegerGenerator;
 
 impl FieldGenerator for IntegerGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = crate::random::rng();
 
         // Get range from parameters or use defaults
         let min = context.parameters.get("min").and_then(|v| v.as_i64()).unwrap_or(-1000) as i32;
@@ -74,7 +74,7 @@ pub struct DecimalGenerator;
 
 impl FieldGenerator for DecimalGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = crate::random::rng();
 
         let min = context.parameters.get("min").and_then(|v| v.as_f64()).unwrap_or(-500.0);
 
@@ -104,7 +104,7 @@ pub struct BooleanGenerator;
 
 impl FieldGenerator for BooleanGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = crate::random::rng();
 
         let true_probability = context
             .parameters
@@ -130,7 +130,7 @@ pub struct DateGenerator;
 
 impl FieldGenerator for DateGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = crate::random::rng();
 
         let start_year = context
             .parameters
@@ -165,7 +165,7 @@ pub struct DateTimeGenerator;
 
 impl FieldGenerator for DateTimeGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = crate::random::rng();
 
         let start_year = context
             .parameters
@@ -205,7 +205,7 @@ pub struct UriGenerator;
 
 impl FieldGenerator for UriGenerator {
     fn generate(&self, _context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = crate::random::rng();
 
         let domains = [
             "example.com",
diff --git a/rudof_generate/src/field_generators/pattern.rs b/rudof_generate/src/field_generators/pattern.rs
index ebeed95..fd94bee 100644
--- a/rudof_generate/src/field_generators/pattern.rs
+++ b/rudof_generate/src/field_generators/pattern.rs
@@ -33,7 +33,7 @@ impl PatternGenerator {
         // For now, implement common pattern matching
         // In a full implementation, you'd use a regex-to-string generation library
 
-        let mut rng = rand::thread_rng();
+        let mut rng = crate::random::rng();
 
         // Handle common patterns - check international first
         if pattern.contains("\\+1-\\d{3}-\\d{3}-\\d{4}") || pattern.contains("\\+1\\-\\d{3}\\-\\d{3}\\-\\d{4}") {
@@ -371,7 +371,7 @@ impl PatternGenerator {
 
     /// Heuristic-based generation when no pattern is available
     fn generate_heuristic(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = crate::random::rng();
 
         let property_lower = context.property.to_lowercase();
 
diff --git a/rudof_generate/src/field_generators/specialized/person.rs b/rudof_generate/src/field_generators/specialized/person.rs
index 52e64ed..b31cb23 100644
--- a/rudof_generate/src/field_generators/specialized/person.rs
+++ b/rudof_generate/src/field_generators/specialized/person.rs
@@ -8,7 +8,7 @@ pub struct PersonGenerator;
 
 impl FieldGenerator for PersonGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = crate::random::rng();
 
         if context.property.contains("firstName") || context.property.ends_with("fname") {
             Ok(generate_first_name(&mut rng, &context.locale))
diff --git a/rudof_generate/src/lib.rs b/rudof_generate/src/lib.rs
index ff6a124..9a8569b 100644
--- a/rudof_generate/src/lib.rs
+++ b/rudof_generate/src/lib.rs
@@ -13,6 +13,8 @@ pub mod output;
 #[cfg(not(target_family = "wasm"))]
 pub mod parallel_generation;
 #[cfg(not(target_family = "wasm"))]
+mod random;
+#[cfg(not(target_family = "wasm"))]
 pub mod shape_processing;
 #[cfg(not(target_family = "wasm"))]
 pub mod unified_constraints;
diff --git a/rudof_generate/src/parallel_generation.rs b/rudof_generate/src/parallel_generation.rs
index ab56795..8b325bb 100644
--- a/rudof_generate/src/parallel_generation.rs
+++ b/rudof_generate/src/parallel_generation.rs
@@ -1,5 +1,6 @@
 use crate::config::{CardinalityStrategy, EntityDistribution, GenerationConfig};
 use crate::field_generators::{FieldGenerationManager, GenerationContext};
+use crate::random;
 use crate::shape_processing::ShapeInfo;
 use crate::unified_constraints::UnifiedConstraint;
 use crate::{DataGeneratorError, Result};
@@ -37,7 +38,11 @@ impl ParallelGenerator {
         shapes.clear();
 
         // Store the processed ShapeInfo directly
-        for shape_info in shape_infos {
+        for mut shape_info in shape_infos {
+            // The order in which a schema lists its properties is not always the same
+            shape_info.properties.sort_by_cached_key(|p| format!("{p:?}"));
+            shape_info.dependencies.sort_by_cached_key(|d| format!("{d:?}"));
+
             let shape_id = shape_info.declaration.id.to_string();
             shapes.insert(shape_id, shape_info);
         }
@@ -47,9 +52,8 @@ impl ParallelGenerator {
 
     /// Generate synthetic data in parallel
     pub async fn generate_data(&self, config: &GenerationConfig) -> Result<OxigraphInMemory> {
-        // Set up random seed if provided
-        if let Some(seed) = config.seed {
-            // Note: In a real implementation, you'd want to use a seeded RNG
+        let seed = config.seed;
+        if let Some(seed) = seed {
             tracing::info!("Using random seed: {}", seed);
         }
 
@@ -66,7 +70,7 @@ impl ParallelGenerator {
                 let generated_entities = Arc::clone(&self.generated_entities);
 
                 async move {
-                    self.generate_entities_for_shape(&shape_id, count, shapes, generated_entities)
+                    self.generate_entities_for_shape(&shape_id, count, seed, shapes, generated_entities)
                         .await
                 }
             })
@@ -86,7 +90,7 @@ impl ParallelGenerator {
         }
 
         // Generate relationships between entities
-        self.generate_relationships(&mut graph).await?;
+        self.generate_relationships(seed, &mut graph).await?;
 
         Ok(graph)
     }
@@ -106,7 +110,9 @@ impl ParallelGenerator {
                 let base_count = config.entity_count / num_shapes;
                 let remainder = config.entity_count % num_shapes;
 
-                for (i, shape_id) in shapes.keys().enumerate() {
+                let mut shape_ids: Vec<_> = shapes.keys().collect();
+                shape_ids.sort();
+                for (i, shape_id) in shape_ids.into_iter().enumerate() {
                     let count = if i < remainder { base_count + 1 } else { base_count };
                     distribution.insert(shape_id.clone(), count);
                 }
@@ -139,6 +145,7 @@ impl ParallelGenerator {
         &self,
         shape_id: &str,
         count: usize,
+        seed: Option<u64>,
         shapes: Arc<RwLock<HashMap<String, ShapeInfo>>>,
         generated_entities: Arc<RwLock<HashMap<String, Vec<String>>>>,
     ) -> Result<Vec<Triple>> {
@@ -161,7 +168,12 @@ impl ParallelGenerator {
             // Generate entities sequentially to handle async
             let mut batch_triples = Vec::new();
             for entity_index in batch_start..batch_end {
-                let entity_triples = self.generate_single_entity(&shape_info, entity_index).await?;
+                let entity_triples = random::scope(
+                    seed,
+                    &format!("{shape_id}-{}", entity_index + 1),
+                    self.generate_single_entity(&shape_info, entity_index),
+                )
+                .await?;
                 batch_triples.push(entity_triples);
             }
 
@@ -232,7 +244,7 @@ impl ParallelGenerator {
         let mut variance_multiplier = 1.0;
         if config.property_count_variance > 0.0 {
             use rand::Rng;
-            let mut rng = rand::thread_rng();
+            let mut rng = random::rng();
             // random range [-variance, +variance]
             let variance_factor = rng.gen_range(-config.property_count_variance..=config.property_count_variance);
             variance_multiplier = 1.0 + variance_factor;
@@ -271,7 +283,7 @@ impl ParallelGenerator {
                 // Independent probability check for each candidate using effective_probability
                 for prop in candidates {
                     use rand::Rng;
-                    let mut rng = rand::thread_rng();
+                    let mut rng = random::rng();
                     let roll: f64 = rng.r#gen();
                     if roll <= effective_probability {
                         properties_to_generate.push(prop);
@@ -299,7 +311,7 @@ impl ParallelGenerator {
                 slots_for_candidates = slots_for_candidates.min(candidates.len());
 
                 if slots_for_candidates > 0 {
-                    let mut rng = rand::thread_rng();
+                    let mut rng = random::rng();
                     candidates.shuffle(&mut rng);
                     for slot in candidates.iter().take(slots_for_candidates) {
                         properties_to_generate.push(slot);
@@ -314,7 +326,7 @@ impl ParallelGenerator {
         // 2. Apply max_properties_per_instance limit
         if config.max_properties_per_instance > 0 && properties_to_generate.len() > config.max_properties_per_instance {
             use rand::seq::SliceRandom;
-            let mut rng = rand::thread_rng();
+            let mut rng = random::rng();
             properties_to_generate.shuffle(&mut rng);
             properties_to_generate.truncate(config.max_properties_per_instance);
         }
@@ -409,7 +421,7 @@ impl ParallelGenerator {
             CardinalityStrategy::Maximum => max_card,
             CardinalityStrategy::Random => {
                 use rand::Rng;
-                let mut rng = rand::thread_rng();
+                let mut rng = random::rng();
                 if min_card == max_card {
                     min_card
                 } else {
@@ -468,7 +480,7 @@ impl ParallelGenerator {
     }
 
     /// Generate relationships between entities
-    async fn generate_relationships(&self, graph: &mut OxigraphInMemory) -> Result<()> {
+    async fn generate_relationships(&self, seed: Option<u64>, graph: &mut OxigraphInMemory) -> Result<()> {
         let shapes = self.shapes.read().await;
         let generated_entities = self.generated_entities.read().await;
 
@@ -476,7 +488,9 @@ impl ParallelGenerator {
             if let Some(from_entities) = generated_entities.get(shape_id) {
                 for dependency in &shape_info.dependencies {
                     if let Some(to_entities) = generated_entities.get(&dependency.target_shape) {
-                        self.generate_relationships_for_dependency(graph, from_entities, to_entities, dependency)?;
+                        random::sync_scope(seed, &format!("{shape_id} {}", dependency.property), || {
+                            self.generate_relationships_for_dependency(graph, from_entities, to_entities, dependency)
+                        })?;
                     }
                 }
             }
@@ -554,7 +568,7 @@ impl ParallelGenerator {
             CardinalityStrategy::Maximum => max_card,
             CardinalityStrategy::Random => {
                 use rand::Rng;
-                let mut rng = rand::thread_rng();
+                let mut rng = random::rng();
                 if min_card == max_card {
                     min_card
                 } else {
diff --git a/rudof_generate/src/random.rs b/rudof_generate/src/random.rs
new file mode 100644
index 0000000..9de644d
--- /dev/null
+++ b/rudof_generate/src/random.rs
@@ -0,0 +1,75 @@
+//! Source of randomness of the generator.
+//!
+//! With a configured seed each piece of the output (an entity, a relationship) draws from
+//! its own stream of numbers, derived from the seed and from what is generated, so that
+//! the same seed gives the same data whatever the order in which pieces are generated.
+//! Without a seed the numbers come from the generator of the thread.
+
+use rand::rngs::StdRng;
+use rand::{Error, RngCore, SeedableRng};
+use std::cell::RefCell;
+use std::future::Future;
+
+tokio::task_local! {
+    static SEEDED: RefCell<StdRng>;
+}
+
+/// Random number generator that follows the seeded stream in scope, if there is one
+pub struct GeneratorRng;
+
+/// The random number generator that all parts of the generator use
+pub fn rng() -> GeneratorRng {
+    GeneratorRng
+}
+
+/// Run `future` with the numbers that `seed` gives for `stream`
+pub async fn scope<F: Future>(seed: Option<u64>, stream: &str, future: F) -> F::Output {
+    match seed {
+        Some(seed) => SEEDED.scope(RefCell::new(stream_rng(seed, stream)), future).await,
+        None => future.await,
+    }
+}
+
+/// Run `f` with the numbers that `seed` gives for `stream`
+pub fn sync_scope<R>(seed: Option<u64>, stream: &str, f: impl FnOnce() -> R) -> R {
+    match seed {
+        Some(seed) => SEEDED.sync_scope(RefCell::new(stream_rng(seed, stream)), f),
+        None => f(),
+    }
+}
+
+fn stream_rng(seed: u64, stream: &str) -> StdRng {
+    // FNV-1a: unlike the hashes of the standard library it never changes
+    let hash = stream.bytes().fold(0xcbf29ce484222325_u64, |hash, byte| {
+        (hash ^ u64::from(byte)).wrapping_mul(0x100000001b3)
+    });
+    let mut key = [0; 32];
+    key[..8].copy_from_slice(&seed.to_le_bytes());
+    key[8..16].copy_from_slice(&hash.to_le_bytes());
+    StdRng::from_seed(key)
+}
+
+impl RngCore for GeneratorRng {
+    fn next_u32(&mut self) -> u32 {
+        SEEDED
+            .try_with(|rng| rng.borrow_mut().next_u32())
+            .unwrap_or_else(|_| rand::thread_rng().next_u32())
+    }
+
+    fn next_u64(&mut self) -> u64 {
+        SEEDED
+            .try_with(|rng| rng.borrow_mut().next_u64())
+            .unwrap_or_else(|_| rand::thread_rng().next_u64())
+    }
+
+    fn fill_bytes(&mut self, dest: &mut [u8]) {
+        if SEEDED.try_with(|rng| rng.borrow_mut().fill_bytes(dest)).is_err() {
+            rand::thread_rng().fill_bytes(dest);
+        }
+    }
+
+    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
+        self.fill_bytes(dest);
+        Ok(())
+    }
+}
-- 
2.43.0


From 9078b414c159354a4aa7e07603d79f5cfc0e3fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 31/40] fix: the manifest of a parallel output lists the files
 of this run only

Fewer files than asked for can be written; those left by an earlier run were
listed in their place.
---
 rudof_generate/src/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rudof_generate/src/output.rs b/rudof_generate/src/output.rs
index 367b568..eba35de 100644
--- a/rudof_generate/src/output.rs
+++ b/rudof_generate/src/output.rs
@@ -107,6 +107,7 @@ impl OutputWriter {
 
         // Split triples into chunks for parallel writing
         let triple_chunks: Vec<_> = all_triples.chunks(chunk_size).collect();
+        let file_count = triple_chunks.len();
 
         tracing::info!(
             "Writing {} triples in {} parallel files ({} triples per file)",
@@ -153,7 +154,7 @@ impl OutputWriter {
         }
 
         // Create a manifest file listing all the parallel files
-        self.create_parallel_manifest(optimal_file_count).await?;
+        self.create_parallel_manifest(file_count).await?;
 
         Ok(())
     }
-- 
2.43.0


From 3a78caaf8509a20f435320707c351f07e25d1419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 32/40] fix: nested entities obey the constraints of their
 properties

---
 rudof_generate/src/parallel_generation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rudof_generate/src/parallel_generation.rs b/rudof_generate/src/parallel_generation.rs
index 8b325bb..065e676 100644
--- a/rudof_generate/src/parallel_generation.rs
+++ b/rudof_generate/src/parallel_generation.rs
@@ -625,12 +625,18 @@ impl ParallelGenerator {
                 );
 
                 for value_idx in 0..num_values {
-                    let context = GenerationContext::new(
+                    let mut context = GenerationContext::new(
                         property_info.property_iri.clone(),
                         datatype.clone(),
                         format!("{}-nested-{}", entity_node.as_str(), value_idx),
                     );
 
+                    // Add constraint parameters to context
+                    let constraint_params = self.constraints_to_parameters(&property_info.constraints);
+                    for (key, value) in constraint_params {
+                        context.parameters.insert(key, value);
+                    }
+
                     let literal_value = self.field_manager.generate_field(&context)?;
                     let literal_term = self.create_typed_literal(&literal_value, datatype)?;
 
-- 
2.43.0


From c1d4b6c150d45eb776c530f4b2750386dd171899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 33/40] fix: generate as many values as an unbounded property
 needs

The most an unbounded property gets could be below the least it needs, which
panicked or generated too few.
---
 rudof_generate/src/parallel_generation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rudof_generate/src/parallel_generation.rs b/rudof_generate/src/parallel_generation.rs
index 065e676..cdddd2e 100644
--- a/rudof_generate/src/parallel_generation.rs
+++ b/rudof_generate/src/parallel_generation.rs
@@ -413,7 +413,7 @@ impl ParallelGenerator {
         let max_card = match max_cardinality {
             Some(-1) => 5, // Unbounded, but cap at reasonable limit for properties
             Some(max) => (max as usize).max(min_card),
-            None => 1,
+            None => min_card.max(1),
         };
 
         match self.config.cardinality_strategy {
-- 
2.43.0


From a0fd6a9d08f04724c0b53d5cb52fab41f77bfffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:27 +0000
Subject: [PATCH 34/40] fix: numbers with one bound are generated on the right
 side of it

A minimum above the default maximum (or the other way round) panicked, and bounds
beyond 32 bits wrapped around.
---
 rudof_generate/src/field_generators/basic.rs | 40 ++++++++++++++++----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/rudof_generate/src/field_generators/basic.rs b/rudof_generate/src/field_generators/basic.rs
index f9b72e3..370a62b 100644
--- a/rudof_generate/src/field_generators/basic.rs
+++ b/rudof_generate/src/field_generators/basic.rs
@@ -1,5 +1,5 @@
-use crate::Result;
 use crate::field_generators::{FieldGenerator, GenerationContext};
+use crate::{DataGeneratorError, Result};
 use rand::Rng;
 use rand::seq::SliceRandom;
 
@@ -52,9 +52,17 @@ impl FieldGenerator for IntegerGenerator {
         let mut rng = crate::random::rng();
 
         // Get range from parameters or use defaults
-        let min = context.parameters.get("min").and_then(|v| v.as_i64()).unwrap_or(-1000) as i32;
-
-        let max = context.parameters.get("max").and_then(|v| v.as_i64()).unwrap_or(10000) as i32;
+        let min = context.parameters.get("min").and_then(|v| v.as_i64());
+        let max = context.parameters.get("max").and_then(|v| v.as_i64());
+        // A default gives way to the bound that is given
+        let (min, max) = match (min, max) {
+            (None, Some(max)) => (max.saturating_sub(1000).min(-1000), max),
+            (min, max) => {
+                let min = min.unwrap_or(-1000);
+                (min, max.unwrap_or(min.saturating_add(1000).max(10000)))
+            },
+        };
+        check_range(min, max)?;
 
         let value = rng.gen_range(min..=max);
         Ok(value.to_string())
@@ -76,9 +84,17 @@ impl FieldGenerator for DecimalGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
         let mut rng = crate::random::rng();
 
-        let min = context.parameters.get("min").and_then(|v| v.as_f64()).unwrap_or(-500.0);
-
-        let max = context.parameters.get("max").and_then(|v| v.as_f64()).unwrap_or(500.0);
+        let min = context.parameters.get("min").and_then(|v| v.as_f64());
+        let max = context.parameters.get("max").and_then(|v| v.as_f64());
+        // A default gives way to the bound that is given
+        let (min, max) = match (min, max) {
+            (None, Some(max)) => ((max - 500.0).min(-500.0), max),
+            (min, max) => {
+                let min = min.unwrap_or(-500.0);
+                (min, max.unwrap_or((min + 500.0).max(500.0)))
+            },
+        };
+        check_range(min, max)?;
 
         let precision = context
             .parameters
@@ -232,6 +248,16 @@ impl FieldGenerator for UriGenerator {
     }
 }
 
+/// A range without values is an error of the schema or the configuration
+fn check_range<T: PartialOrd + std::fmt::Display>(min: T, max: T) -> Result<()> {
+    if min <= max {
+        return Ok(());
+    }
+    Err(DataGeneratorError::FieldGeneration(format!(
+        "No number is at least {min} and at most {max}"
+    )))
+}
+
 // Helper functions for generating realistic data
 
 fn generate_name(rng: &mut impl Rng, locale: &str) -> String {
-- 
2.43.0


From aefaeddabb7bb053dc8a7a6c868700bfba536739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:27 +0000
Subject: [PATCH 35/40] fix: parallel output without triples writes its
 statistics and manifest

An earlier run's were left in place as if they were this run's.
---
 rudof_generate/src/output.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rudof_generate/src/output.rs b/rudof_generate/src/output.rs
index eba35de..9af697a 100644
--- a/rudof_generate/src/output.rs
+++ b/rudof_generate/src/output.rs
@@ -97,12 +97,11 @@ impl OutputWriter {
 
         // Get optimal file count (either user-specified or auto-detected)
         let optimal_file_count = self.config.get_optimal_file_count(total_triples);
-        let chunk_size = total_triples.div_ceil(optimal_file_count);
+        let chunk_size = total_triples.div_ceil(optimal_file_count).max(1);
 
-        if chunk_size == 0 {
-            // No triples to write
+        if total_triples == 0 {
+            // No file is written, which the statistics and the manifest say
             tracing::warn!("No triples to write");
-            return Ok(());
         }
 
         // Split triples into chunks for parallel writing
-- 
2.43.0


From e4cb26b1b2005644d146c496bb0b9b9e2206e222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:20 +0000
Subject: [PATCH 36/40] fix: white space may follow an excluded literal of a
 ShExC value set

---
 shex_ast/src/compact/shex_grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 0da4d17..0eb026c 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1037,7 +1037,7 @@ fn dash<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
 
 /// `[54] literalExclusion ::= '-' literal '~'?`
 fn literal_exclusion(i: Span) -> IRes<LiteralExclusion> {
-    let (i, (_, literal, maybe_tilde)) = (dash(), literal(), opt(tilde())).parse(i)?;
+    let (i, (_, literal, _, maybe_tilde)) = (dash(), literal(), tws0, opt(tilde())).parse(i)?;
     let le = match maybe_tilde {
         Some(_) => LiteralExclusion::LiteralStem(literal.lexical_form()),
         None => LiteralExclusion::Literal(literal.lexical_form()),
-- 
2.43.0


From 44f80d6165a4e049c4a62a28d5b23c0857af1c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:14 +0000
Subject: [PATCH 37/40] fix: a ShEx reference that is also made without
 negation still counts as negated

---
 shex_ast/src/ir/dependency_graph.rs |  5 +++++
 shex_ast/src/ir/shape_expr.rs       | 17 +++++++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/shex_ast/src/ir/dependency_graph.rs b/shex_ast/src/ir/dependency_graph.rs
index acdd6e2..d259e85 100644
--- a/shex_ast/src/ir/dependency_graph.rs
+++ b/shex_ast/src/ir/dependency_graph.rs
@@ -16,6 +16,11 @@ impl DependencyGraph {
     }
 
     pub fn add_edge(&mut self, from: ShapeLabelIdx, to: ShapeLabelIdx, pos_neg: PosNeg) {
+        // A positive dependency does not cancel a negative one between the same shapes
+        let pos_neg = match self.graph.edge_weight(from, to) {
+            Some(PosNeg::Neg) => PosNeg::Neg,
+            _ => pos_neg,
+        };
         self.graph.add_edge(from, to, pos_neg);
     }
 
diff --git a/shex_ast/src/ir/shape_expr.rs b/shex_ast/src/ir/shape_expr.rs
index b6f515c..a0a3378 100644
--- a/shex_ast/src/ir/shape_expr.rs
+++ b/shex_ast/src/ir/shape_expr.rs
@@ -214,17 +214,17 @@ impl ShapeExpr {
         graph: &mut DependencyGraph,
         pos_neg: PosNeg,
         schema: &'a SchemaIR,
-        visited: &mut Vec<&'a ShapeExpr>,
+        visited: &mut Vec<(&'a ShapeExpr, PosNeg)>,
     ) {
         match self {
             ShapeExpr::ShapeOr { exprs, .. } => {
                 for expr in exprs {
                     if let Some(info) = schema.find_shape_idx(expr) {
                         let expr = info.expr();
-                        if visited.contains(&expr) {
+                        if visited.contains(&(expr, pos_neg)) {
                             continue;
                         } else {
-                            visited.push(expr);
+                            visited.push((expr, pos_neg));
                             expr.add_edges(source, graph, pos_neg, schema, visited);
                         }
                     }
@@ -234,10 +234,10 @@ impl ShapeExpr {
                 for expr in exprs {
                     if let Some(info) = schema.find_shape_idx(expr) {
                         let expr = info.expr();
-                        if visited.contains(&expr) {
+                        if visited.contains(&(expr, pos_neg)) {
                             continue;
                         } else {
-                            visited.push(expr);
+                            visited.push((expr, pos_neg));
                             expr.add_edges(source, graph, pos_neg, schema, visited);
                         }
                     }
@@ -246,10 +246,11 @@ impl ShapeExpr {
             ShapeExpr::ShapeNot { expr, .. } => {
                 if let Some(info) = schema.find_shape_idx(expr) {
                     let expr = info.expr();
-                    if visited.contains(&expr) {
+                    let pos_neg = pos_neg.change();
+                    if visited.contains(&(expr, pos_neg)) {
                     } else {
-                        visited.push(expr);
-                        expr.add_edges(source, graph, pos_neg.change(), schema, visited);
+                        visited.push((expr, pos_neg));
+                        expr.add_edges(source, graph, pos_neg, schema, visited);
                     }
                 }
             },
-- 
2.43.0


From a7e72edeec06986906f0104499679c28e4dcfe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:43 +0000
Subject: [PATCH 38/40] fix: a value set matches an ill-typed literal it lists

---
 .../src/rdf_core/term/literal/literal.rs      | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 3dae26d..0029e9d 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -403,6 +403,25 @@ impl ConcreteLiteral {
                     ..
                 },
             ) => lexical_form == expected_lexical_form && datatype == expected_datatype,
+            // Cross-match: WrongDatatypeLiteral (checked while data is read) vs DatatypeLiteral
+            // (from a grammar, where lexical forms are not checked).
+            (
+                Self::WrongDatatypeLiteral {
+                    lexical_form, datatype, ..
+                },
+                Self::DatatypeLiteral {
+                    lexical_form: expected_lexical_form,
+                    datatype: expected_datatype,
+                },
+            )
+            | (
+                Self::DatatypeLiteral { lexical_form, datatype },
+                Self::WrongDatatypeLiteral {
+                    lexical_form: expected_lexical_form,
+                    datatype: expected_datatype,
+                    ..
+                },
+            ) => lexical_form == expected_lexical_form && datatype == expected_datatype,
             _ => false,
         }
     }
-- 
2.43.0


From 10e3f1111b5e63f5c6ff253d974dace3c8dda348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:08 +0000
Subject: [PATCH 39/40] fix: decimal bounds of ShExC facets keep their sign and
 the zeros after the point

---
 shex_ast/src/compact/shex_grammar.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 0eb026c..500e5ff 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -33,6 +33,7 @@ use rudof_rdf::rdf_core::{
     RDFError,
     term::literal::{ConcreteLiteral, Lang, NumericLiteral},
 };
+use rust_decimal::Decimal;
 use std::{collections::VecDeque, fmt::Debug};
 use thiserror::Error;
 
@@ -1836,15 +1837,10 @@ fn decimal(i: Span) -> IRes<NumericLiteral> {
     map_res(
         pair(recognize(preceded(opt(sign), digit0)), preceded(token("."), digit1)),
         |(whole, fraction)| {
-            let w = whole
-                .fragment()
-                .parse::<i64>()
-                .map_err(|e| RDFError::ConversionError { msg: e.to_string() })?;
-            let f = fraction
-                .fragment()
-                .parse::<u32>()
-                .map_err(|e| RDFError::ConversionError { msg: e.to_string() })?;
-            NumericLiteral::decimal_from_parts(w, f)
+            let text = format!("{}.{}", whole.fragment(), fraction.fragment());
+            Decimal::from_str_exact(&text)
+                .map(NumericLiteral::decimal)
+                .map_err(|e| RDFError::ConversionError { msg: e.to_string() })
         },
     )
     .parse(i)
-- 
2.43.0


From 8e9348d3adde41719ea4e33fdafc1a265e684e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:45 +0000
Subject: [PATCH 40/40] fix: a value set matches typed literals whatever way
 they were read

A literal of the data was turned into the value of its datatype, which lost the
lexical form ("01"^^xsd:byte, "1"^^xsd:boolean) and never matched the typed
literal of a value set ("true"^^xsd:boolean).
---
 .../src/rdf_core/term/literal/literal.rs      | 38 ++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 0029e9d..26fd3ba 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -393,6 +393,16 @@ impl ConcreteLiteral {
             | (Self::NumericLiteral(_), Self::DatatypeLiteral { .. }) => false,
             (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1 == dt2,
             (Self::BooleanLiteral(b1), Self::BooleanLiteral(b2)) => b1 == b2,
+            // Cross-match: booleans and dateTimes (checked while data is read) vs DatatypeLiteral
+            // (from a grammar).
+            (
+                Self::DatatypeLiteral { lexical_form, datatype },
+                checked @ (Self::BooleanLiteral(_) | Self::DatetimeLiteral(_)),
+            )
+            | (
+                checked @ (Self::BooleanLiteral(_) | Self::DatetimeLiteral(_)),
+                Self::DatatypeLiteral { lexical_form, datatype },
+            ) => *lexical_form == checked.lexical_form() && *datatype == checked.datatype(),
             (
                 Self::WrongDatatypeLiteral {
                     lexical_form, datatype, ..
@@ -1084,30 +1094,14 @@ impl TryFrom<oxrdf::Literal> for ConcreteLiteral {
 
             (s, Some(dtype), None) => {
                 let datatype_iri = IriRef::iri(IriS::new_unchecked(dtype.as_str()));
-                let iri_str = dtype.as_str();
-                // For bare numeric types in Turtle, preserve original lexical form for valid values
+                // Literals are terms: where the checked literal would not give the lexical form back
+                // (numbers, "1"^^xsd:boolean), keep the one that was read
                 // (ShEx value set matching requires lexical-form equality, not value equality).
                 // But invalid lexical forms must still produce WrongDatatypeLiteral.
-                if iri_str == XsdVocab::XSD_INTEGER
-                    || iri_str == XsdVocab::XSD_DECIMAL
-                    || iri_str == XsdVocab::XSD_DOUBLE
-                    || iri_str == XsdVocab::XSD_FLOAT
-                {
-                    match check_literal_datatype(s.as_ref(), &datatype_iri) {
-                        Ok(ConcreteLiteral::WrongDatatypeLiteral { error, .. }) => {
-                            Ok(ConcreteLiteral::WrongDatatypeLiteral {
-                                lexical_form: s.to_string(),
-                                datatype: datatype_iri,
-                                error,
-                            })
-                        },
-                        _ => Ok(ConcreteLiteral::DatatypeLiteral {
-                            lexical_form: s.to_string(),
-                            datatype: datatype_iri,
-                        }),
-                    }
-                } else {
-                    check_literal_datatype(s.as_ref(), &datatype_iri)
+                match check_literal_datatype(s.as_ref(), &datatype_iri)? {
+                    ConcreteLiteral::NumericLiteral(_) => Ok(Self::lit_datatype(&s, &datatype_iri)),
+                    checked if checked.lexical_form() != s => Ok(Self::lit_datatype(&s, &datatype_iri)),
+                    checked => Ok(checked),
                 }
             },
 
-- 
2.43.0

