From c7b62d594acc02d903e84ae31060ffa4aeca207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:46 +0000
Subject: [PATCH 01/44] hook: expose backend module under cfg(jinja_lsp_sim)

---
 jinja-lsp/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jinja-lsp/src/lib.rs b/jinja-lsp/src/lib.rs
index b830c30..5595856 100644
--- a/jinja-lsp/src/lib.rs
+++ b/jinja-lsp/src/lib.rs
@@ -1,4 +1,10 @@
+#![allow(unexpected_cfgs)]
+
+#[cfg(not(jinja_lsp_sim))]
 mod backend;
+// Simulation hook, off by default: the harness builds the service itself.
+#[cfg(jinja_lsp_sim)]
+pub mod backend;
 pub mod channels;
 mod config;
 pub mod filter;
-- 
2.43.0


From 1774c23367540286c1db9ffc784594b7165103e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:59 +0000
Subject: [PATCH 02/44] fix: deadlock between lsp_task and diagnostics_task

Both actors sent to each other's bounded channel, so a burst of documents
while the client reads slowly wedged the server. Code actions are now stored
by lsp_task itself before the diagnostics are handed over.
---
 jinja-lsp/src/backend.rs              |  2 +-
 jinja-lsp/src/channels/diagnostics.rs | 37 ++++++++++++---------------
 jinja-lsp/src/channels/lsp.rs         | 19 +++++---------
 3 files changed, 25 insertions(+), 33 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index e33a91a..9e443f6 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -163,7 +163,7 @@ impl Backend {
             lsp_sender.clone(),
             lsp_recv,
         );
-        diagnostics_task(client.clone(), diagnostic_recv, lsp_sender.clone());
+        diagnostics_task(client.clone(), diagnostic_recv);
         Self {
             main_channel: lsp_sender,
         }
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index 9b5dc06..4a14b31 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -3,34 +3,19 @@ use std::collections::HashMap;
 use jinja_lsp_queries::{
     lsp_helper::create_diagnostic, search::Identifier, tree_builder::JinjaDiagnostic,
 };
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::Receiver;
 use tower_lsp::{
     lsp_types::{MessageType, Url},
     Client,
 };
 
-use super::lsp::LspMessage;
-
-pub fn diagnostics_task(
-    client: Client,
-    mut receiver: Receiver<DiagnosticMessage>,
-    lsp_channel: Sender<LspMessage>,
-) {
+pub fn diagnostics_task(client: Client, mut receiver: Receiver<DiagnosticMessage>) {
     tokio::spawn(async move {
         while let Some(msg) = receiver.recv().await {
             match msg {
                 DiagnosticMessage::Str(msg) => client.log_message(MessageType::INFO, msg).await,
                 DiagnosticMessage::Errors(all_errors) => {
-                    let mut code_actions = HashMap::new();
                     for (uri, errors) in all_errors.into_iter() {
-                        let template_errors = errors
-                            .iter()
-                            .filter(|err| err.0 == JinjaDiagnostic::TemplateNotFound);
-                        let mut v = vec![];
-                        for err in template_errors {
-                            v.push(err.1.to_owned());
-                        }
-                        code_actions.insert(uri.to_owned(), v);
                         let mut v = vec![];
                         for error in errors {
                             let diagnostic = create_diagnostic(
@@ -43,15 +28,27 @@ pub fn diagnostics_task(
                         let uri = Url::parse(&uri).unwrap();
                         client.publish_diagnostics(uri, v, None).await;
                     }
-                    let _ = lsp_channel
-                        .send(LspMessage::CodeActions(code_actions))
-                        .await;
                 }
             }
         }
     });
 }
 
+/// Templates that don't exist, for every file in this message.
+pub fn missing_templates(message: &DiagnosticMessage) -> HashMap<String, Vec<Identifier>> {
+    let mut code_actions = HashMap::new();
+    if let DiagnosticMessage::Errors(all_errors) = message {
+        for (uri, errors) in all_errors {
+            let template_errors = errors
+                .iter()
+                .filter(|err| err.0 == JinjaDiagnostic::TemplateNotFound);
+            let v = template_errors.map(|err| err.1.to_owned()).collect();
+            code_actions.insert(uri.to_owned(), v);
+        }
+    }
+    code_actions
+}
+
 #[derive(Debug)]
 pub enum DiagnosticMessage {
     Errors(HashMap<String, Vec<(JinjaDiagnostic, Identifier)>>),
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 5a0ba6a..bc4caa4 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -1,8 +1,5 @@
-use jinja_lsp_queries::search::{
-    objects::CompletionType, snippets_completion::snippets, Identifier,
-};
+use jinja_lsp_queries::search::{objects::CompletionType, snippets_completion::snippets};
 use serde_json::Value;
-use std::collections::HashMap;
 use tokio::sync::{mpsc, oneshot};
 use tower_lsp::{
     lsp_types::{
@@ -27,7 +24,7 @@ use crate::{
     template_tests::init_template_test_completions,
 };
 
-use super::diagnostics::DiagnosticMessage;
+use super::diagnostics::{missing_templates, DiagnosticMessage};
 
 pub fn lsp_task(
     client: Client,
@@ -128,14 +125,14 @@ pub fn lsp_task(
                     } else {
                         match walkdir(&config) {
                             Ok(errors) => {
-                                let _ = diagnostics_channel
-                                    .send(DiagnosticMessage::Errors(errors.0))
-                                    .await;
                                 let vscode = lsp_data.is_vscode;
                                 lsp_data = errors.1;
                                 lsp_data.is_vscode = vscode;
                                 lsp_data.config = config.clone();
                                 lsp_data.main_channel = Some(lsp_channel.clone());
+                                let errors = DiagnosticMessage::Errors(errors.0);
+                                lsp_data.add_code_actions(missing_templates(&errors));
+                                let _ = diagnostics_channel.send(errors).await;
                                 let _ = sender.send(true);
                             }
                             Err(err) => {
@@ -151,6 +148,7 @@ pub fn lsp_task(
                 }
                 LspMessage::DidSave(params) => {
                     if let Some(errors) = lsp_data.did_save(params) {
+                        lsp_data.add_code_actions(missing_templates(&errors));
                         let _ = diagnostics_channel.send(errors).await;
                     }
                 }
@@ -339,6 +337,7 @@ pub fn lsp_task(
                 }
                 LspMessage::DidOpen(params) => {
                     if let Some(errors) = lsp_data.did_open(params, false) {
+                        lsp_data.add_code_actions(missing_templates(&errors));
                         let _ = diagnostics_channel.send(errors).await;
                     }
                 }
@@ -359,9 +358,6 @@ pub fn lsp_task(
                     }
                     let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
                 }
-                LspMessage::CodeActions(code_actions) => {
-                    lsp_data.add_code_actions(code_actions);
-                }
             }
         }
     });
@@ -392,5 +388,4 @@ pub enum LspMessage {
         oneshot::Sender<Option<DocumentSymbolResponse>>,
     ),
     DidChangeConfiguration(DidChangeConfigurationParams),
-    CodeActions(HashMap<String, Vec<Identifier>>),
 }
-- 
2.43.0


From eef76236d072f9e06254481f2600a79ec7c44138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 03/44] fix: lsp_task waited for its own channel on rescan

reset_variables and didChangeConfiguration sent Initialized to the bounded
channel that lsp_task itself drains, and hung when it was full.
---
 jinja-lsp/src/channels/lsp.rs | 110 ++++++++++++++++++++++------------
 1 file changed, 71 insertions(+), 39 deletions(-)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index bc4caa4..f7480df 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -107,41 +107,15 @@ pub fn lsp_task(
                     let _ = sender.send(msg);
                 }
                 LspMessage::Initialized(sender) => {
-                    client.log_message(MessageType::INFO, "Initialized").await;
-                    if !config.user_defined {
-                        client
-                            .log_message(MessageType::WARNING, "Config doesn't exist.")
-                            .await;
-                    }
-                    if config.templates.as_path().to_str().unwrap().is_empty() {
-                        client
-                            .log_message(MessageType::WARNING, "Template directory not found")
-                            .await;
-                    }
-                    if !["rust", "python"].contains(&config.lang.as_str()) {
-                        client
-                            .log_message(MessageType::WARNING, "Backend language not supported")
-                            .await;
-                    } else {
-                        match walkdir(&config) {
-                            Ok(errors) => {
-                                let vscode = lsp_data.is_vscode;
-                                lsp_data = errors.1;
-                                lsp_data.is_vscode = vscode;
-                                lsp_data.config = config.clone();
-                                lsp_data.main_channel = Some(lsp_channel.clone());
-                                let errors = DiagnosticMessage::Errors(errors.0);
-                                lsp_data.add_code_actions(missing_templates(&errors));
-                                let _ = diagnostics_channel.send(errors).await;
-                                let _ = sender.send(true);
-                            }
-                            Err(err) => {
-                                let msg = err.to_string();
-                                client.log_message(MessageType::INFO, msg).await;
-                                let _ = sender.send(false);
-                            }
-                        }
-                    }
+                    let done = rescan(
+                        &client,
+                        &config,
+                        &mut lsp_data,
+                        &diagnostics_channel,
+                        &lsp_channel,
+                    )
+                    .await;
+                    let _ = sender.send(done);
                 }
                 LspMessage::DidChange(params) => {
                     lsp_data.did_change(params);
@@ -330,8 +304,14 @@ pub fn lsp_task(
                 LspMessage::ExecuteCommand(params, sender) => {
                     let command = params.command;
                     if command == "reset_variables" {
-                        let (sender2, _) = oneshot::channel();
-                        let _ = lsp_channel.send(LspMessage::Initialized(sender2)).await;
+                        rescan(
+                            &client,
+                            &config,
+                            &mut lsp_data,
+                            &diagnostics_channel,
+                            &lsp_channel,
+                        )
+                        .await;
                         let _ = sender.send(None);
                     }
                 }
@@ -347,7 +327,6 @@ pub fn lsp_task(
                     }
                 }
                 LspMessage::DidChangeConfiguration(params) => {
-                    let (sender, _) = oneshot::channel();
                     if let Ok(c) = serde_json::from_value(params.settings) {
                         config = c;
                         config.user_defined = true;
@@ -356,13 +335,66 @@ pub fn lsp_task(
                     if !config.user_defined {
                         continue;
                     }
-                    let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
+                    rescan(
+                        &client,
+                        &config,
+                        &mut lsp_data,
+                        &diagnostics_channel,
+                        &lsp_channel,
+                    )
+                    .await;
                 }
             }
         }
     });
 }
 
+/// Reads all templates and backend files again, for the current config.
+/// Runs inside `lsp_task`, which must never wait for its own channel.
+async fn rescan(
+    client: &Client,
+    config: &JinjaConfig,
+    lsp_data: &mut LspFiles,
+    diagnostics_channel: &mpsc::Sender<DiagnosticMessage>,
+    lsp_channel: &mpsc::Sender<LspMessage>,
+) -> bool {
+    client.log_message(MessageType::INFO, "Initialized").await;
+    if !config.user_defined {
+        client
+            .log_message(MessageType::WARNING, "Config doesn't exist.")
+            .await;
+    }
+    if config.templates.as_path().to_str().unwrap().is_empty() {
+        client
+            .log_message(MessageType::WARNING, "Template directory not found")
+            .await;
+    }
+    if !["rust", "python"].contains(&config.lang.as_str()) {
+        client
+            .log_message(MessageType::WARNING, "Backend language not supported")
+            .await;
+        return false;
+    }
+    match walkdir(config) {
+        Ok(errors) => {
+            let vscode = lsp_data.is_vscode;
+            *lsp_data = errors.1;
+            lsp_data.is_vscode = vscode;
+            lsp_data.config = config.clone();
+            lsp_data.main_channel = Some(lsp_channel.clone());
+            let errors = DiagnosticMessage::Errors(errors.0);
+            lsp_data.add_code_actions(missing_templates(&errors));
+            let _ = diagnostics_channel.send(errors).await;
+            true
+        }
+        Err(err) => {
+            let msg = err.to_string();
+            client.log_message(MessageType::INFO, msg).await;
+            false
+        }
+    }
+}
+
 pub enum LspMessage {
     Initialize(Box<InitializeParams>, oneshot::Sender<InitializeResult>),
     Initialized(oneshot::Sender<bool>),
-- 
2.43.0


From 3f5a68d3c329d339c4212880774c6fc672644a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 04/44] fix: editing one document cancelled the diagnostics of
 another

The debounce used a single task for all documents. Keep one per document.
---
 jinja-lsp/src/lsp_files.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 02f48e0..a240d1a 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -53,7 +53,7 @@ pub struct LspFiles {
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
-    pub diagnostics_task: Option<JoinHandle<()>>,
+    pub diagnostics_tasks: HashMap<String, JoinHandle<()>>,
     pub main_channel: Option<mpsc::Sender<LspMessage>>,
     pub variables: HashMap<String, Vec<Identifier>>,
     pub code_actions: HashMap<String, Vec<Identifier>>,
@@ -191,16 +191,16 @@ impl LspFiles {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
             text: None,
         };
-        if let Some(task) = &self.diagnostics_task {
-            task.abort();
-        }
         let channel = self.main_channel.clone();
-        self.diagnostics_task = Some(tokio::spawn(async move {
+        let task = tokio::spawn(async move {
             sleep(Duration::from_millis(200)).await;
             if let Some(channel) = channel {
                 let _ = channel.send(LspMessage::DidSave(param)).await;
             }
-        }));
+        });
+        if let Some(old_task) = self.diagnostics_tasks.insert(uri, task) {
+            old_task.abort();
+        }
         None
     }
 
@@ -917,7 +917,7 @@ impl Default for LspFiles {
         let mut trees = HashMap::new();
         trees.insert(LangType::Template, HashMap::new());
         trees.insert(LangType::Backend, HashMap::new());
-        let diagnostics_task = None;
+        let diagnostics_tasks = HashMap::new();
         let main_channel = None;
         Self {
             trees,
@@ -925,7 +925,7 @@ impl Default for LspFiles {
             queries: Queries::default(),
             documents: HashMap::new(),
             config: JinjaConfig::default(),
-            diagnostics_task,
+            diagnostics_tasks,
             main_channel,
             variables: HashMap::default(),
             is_vscode: false,
@@ -946,7 +946,7 @@ impl Clone for LspFiles {
         let is_vscode = self.is_vscode;
         let code_actions = self.code_actions.clone();
         let config = self.config.clone();
-        let task = None;
+        let diagnostics_tasks = HashMap::new();
         Self {
             trees,
             documents,
@@ -957,7 +957,7 @@ impl Clone for LspFiles {
             variables,
             code_actions,
             is_vscode,
-            diagnostics_task: task,
+            diagnostics_tasks,
             ignore_globals: self.ignore_globals,
         }
     }
-- 
2.43.0


From ad5c4d3fd3fa7d741a07d88c16f883f13508970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:20 +0000
Subject: [PATCH 05/44] fix: reopened document was parsed with the tree of its
 old content

tree-sitter only accepts an old tree that was edited to match the new text;
without that, symbols had wrong positions and lsp_task could panic.
---
 jinja-lsp/src/lsp_files.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index a240d1a..2813e03 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -128,20 +128,9 @@ impl LspFiles {
         file_content: &str,
     ) -> Option<()> {
         let trees = self.trees.get_mut(&lang_type)?;
-        let old_tree = trees.get_mut(&file_name.to_string());
-        match old_tree {
-            Some(old_tree) => {
-                let new_tree = self
-                    .parsers
-                    .parse(lang_type, file_content, Some(old_tree))?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-            None => {
-                // tree doesn't exist, first insertion
-                let new_tree = self.parsers.parse(lang_type, file_content, None)?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-        };
+        // The old tree can't be reused, this content wasn't made by editing it.
+        let new_tree = self.parsers.parse(lang_type, file_content, None)?;
+        trees.insert(file_name.to_string(), new_tree);
         None
     }
 
-- 
2.43.0


From a84b54974611b315d44e35adb0a53acb3042c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 06/44] fix: text synchronisation of non-ASCII, multi-line and
 full changes

Positions are UTF-16 but were used as byte and char offsets, the end of an
inserted text was looked up in the old text, and changes without a range were
dropped: documents diverged from the editor or lsp_task panicked.
---
 jinja-lsp-queries/src/to_input_edit.rs | 90 +++++++++++++++++---------
 jinja-lsp/src/lsp_files.rs             | 31 +++++----
 2 files changed, 77 insertions(+), 44 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index a672b53..6bb446c 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -4,59 +4,89 @@ use tree_sitter::{InputEdit, Point};
 
 // use crate::lsp_files::JinjaVariable;
 
+/// Client positions have a line and a UTF-16 column, tree-sitter points have a
+/// row and a byte column. Both are converted through the byte offset.
 pub trait ToInputEdit {
     fn to_point(&self, position: Position) -> Point;
     fn to_byte(&self, position: Position) -> usize;
+    fn byte_to_point(&self, offset: usize) -> Point;
     fn to_position(&self, offset: usize) -> Position;
     fn to_input_edit(&self, range: Range, text: &str) -> InputEdit;
 }
 
 impl ToInputEdit for Rope {
     fn to_point(&self, position: Position) -> Point {
-        Point::new(position.line as usize, position.character as usize)
+        self.byte_to_point(self.to_byte(position))
     }
 
+    /// Positions after the end of a line (or document) are moved to that end.
     fn to_byte(&self, position: Position) -> usize {
-        let start_line = self.line_to_byte(position.line as usize);
-        start_line + position.character as usize
+        let mut line = 0;
+        let mut character = 0;
+        let mut byte = 0;
+        let mut chars = self.chars().peekable();
+        while let Some(c) = chars.next() {
+            if line == position.line {
+                if character >= position.character || c == '\n' || c == '\r' {
+                    break;
+                }
+                character += c.len_utf16() as u32;
+            } else if c == '\n' || (c == '\r' && chars.peek() != Some(&'\n')) {
+                line += 1;
+            }
+            byte += c.len_utf8();
+        }
+        byte
     }
 
-    fn to_position(&self, mut offset: usize) -> Position {
-        offset = offset.min(self.len_bytes());
-        let mut low = 0usize;
-        let mut high = self.len_lines();
-        if high == 0 {
-            return Position {
-                line: 0,
-                character: offset as u32,
-            };
+    fn byte_to_point(&self, offset: usize) -> Point {
+        let mut point = Point::default();
+        for byte in self.bytes().take(offset) {
+            if byte == b'\n' {
+                point.row += 1;
+                point.column = 0;
+            } else {
+                point.column += 1;
+            }
         }
-        while low < high {
-            let mid = low + (high - low) / 2;
-            if self.line_to_byte(mid) > offset {
-                high = mid;
+        point
+    }
+
+    fn to_position(&self, offset: usize) -> Position {
+        let mut position = Position::default();
+        let mut byte = 0;
+        let mut chars = self.chars().peekable();
+        while let Some(c) = chars.next() {
+            if byte >= offset {
+                break;
+            }
+            if c == '\n' || (c == '\r' && chars.peek() != Some(&'\n')) {
+                position.line += 1;
+                position.character = 0;
             } else {
-                low = mid + 1;
+                position.character += c.len_utf16() as u32;
             }
+            byte += c.len_utf8();
         }
-        let line = low - 1;
-        let character = offset - self.line_to_byte(line);
-        Position::new(line as u32, character as u32)
+        position
     }
 
     fn to_input_edit(&self, range: Range, text: &str) -> InputEdit {
-        let start = range.start;
-        let end = range.end;
-
-        let start_byte = self.to_byte(start);
-        let start_position = self.to_point(start);
-
+        let first = self.to_byte(range.start);
+        let second = self.to_byte(range.end);
+        let start_byte = first.min(second);
+        let old_end_byte = first.max(second);
         let new_end_byte = start_byte + text.len();
-        let new_end_position = self.to_position(new_end_byte);
-        let new_end_position = self.to_point(new_end_position);
 
-        let old_end_byte = self.to_byte(end);
-        let old_end_position = self.to_point(end);
+        let start_position = self.byte_to_point(start_byte);
+        let old_end_position = self.byte_to_point(old_end_byte);
+        let new_end_position = match text.rfind('\n') {
+            Some(last) => Point::new(
+                start_position.row + text.matches('\n').count(),
+                text.len() - last - 1,
+            ),
+            None => Point::new(start_position.row, start_position.column + text.len()),
+        };
 
         InputEdit {
             start_byte,
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 2813e03..1bc781c 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -157,24 +157,27 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(&uri));
         let mut changes = vec![];
         for change in params.content_changes {
-            let range = change.range?;
+            let Some(range) = change.range else {
+                // without range, this is new content of whole document
+                *rope = Rope::from_str(&change.text);
+                changes.push((change.text, None));
+                continue;
+            };
             let input_edit = rope.to_input_edit(range, &change.text);
-            let start = rope.to_byte(range.start);
-            let end = rope.to_byte(range.end);
-            if start <= end {
-                rope.remove(start..end);
-            } else {
-                rope.remove(end..start);
-            }
-            if !change.text.is_empty() {
-                rope.insert(start, &change.text);
-            }
+            let start = rope.byte_to_char(input_edit.start_byte);
+            let end = rope.byte_to_char(input_edit.old_end_byte);
+            rope.remove(start..end);
+            rope.insert(start, &change.text);
             let mut w = FileContent::default();
             let _ = rope.write_to(&mut w);
-            changes.push((w.content, input_edit));
+            changes.push((w.content, Some(input_edit)));
         }
-        for change in changes {
-            self.input_edit(&uri, change.0, change.1, lang_type);
+        for (code, input_edit) in changes {
+            match (input_edit, lang_type) {
+                (Some(edit), _) => self.input_edit(&uri, code, edit, lang_type),
+                (None, Some(lang_type)) => self.add_tree(&uri, lang_type, &code),
+                (None, None) => None,
+            };
         }
         let param = DidSaveTextDocumentParams {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
-- 
2.43.0


From 607650abcbc3dd15a3fa0d79815af6165eb816e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 07/44] fix: rescan replaced unsaved content of open documents

reset_variables and configuration changes read every file from disk again and
forgot what the editor has open; following edits were applied to other text.
---
 jinja-lsp/src/backend.rs      |  4 +++-
 jinja-lsp/src/channels/lsp.rs | 18 +++++++++++-------
 jinja-lsp/src/config.rs       |  3 ++-
 jinja-lsp/src/lsp_files.rs    | 36 ++++++++++++++++++++++++++++++++---
 4 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 9e443f6..1e30316 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -55,7 +55,9 @@ impl LanguageServer for Backend {
         let _ = self.main_channel.send(LspMessage::DidOpen(params)).await;
     }
 
-    async fn did_close(&self, _params: DidCloseTextDocumentParams) {}
+    async fn did_close(&self, params: DidCloseTextDocumentParams) {
+        let _ = self.main_channel.send(LspMessage::DidClose(params)).await;
+    }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let _ = self.main_channel.send(LspMessage::DidChange(params)).await;
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index f7480df..60753ef 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -6,12 +6,12 @@ use tower_lsp::{
         CodeActionParams, CodeActionProviderCapability, CodeActionResponse, CompletionItem,
         CompletionItemKind, CompletionOptions, CompletionParams, CompletionResponse,
         CompletionTextEdit, DidChangeConfigurationParams, DidChangeTextDocumentParams,
-        DidOpenTextDocumentParams, DidSaveTextDocumentParams, DocumentSymbolParams,
-        DocumentSymbolResponse, Documentation, ExecuteCommandOptions, ExecuteCommandParams,
-        GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents, HoverParams,
-        HoverProviderCapability, InitializeParams, InitializeResult, InsertReplaceEdit,
-        MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities, ServerInfo,
-        TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
+        DidCloseTextDocumentParams, DidOpenTextDocumentParams, DidSaveTextDocumentParams,
+        DocumentSymbolParams, DocumentSymbolResponse, Documentation, ExecuteCommandOptions,
+        ExecuteCommandParams, GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents,
+        HoverParams, HoverProviderCapability, InitializeParams, InitializeResult,
+        InsertReplaceEdit, MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities,
+        ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
         TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
     },
     Client,
@@ -321,6 +321,9 @@ pub fn lsp_task(
                         let _ = diagnostics_channel.send(errors).await;
                     }
                 }
+                LspMessage::DidClose(params) => {
+                    lsp_data.did_close(params);
+                }
                 LspMessage::DocumentSymbol(params, sender) => {
                     if let Some(symbols) = lsp_data.document_symbols(params) {
                         let _ = sender.send(Some(symbols));
@@ -375,7 +378,7 @@ async fn rescan(
             .await;
         return false;
     }
-    match walkdir(config) {
+    match walkdir(config, lsp_data) {
         Ok(errors) => {
             let vscode = lsp_data.is_vscode;
             *lsp_data = errors.1;
@@ -399,6 +402,7 @@ pub enum LspMessage {
     Initialize(Box<InitializeParams>, oneshot::Sender<InitializeResult>),
     Initialized(oneshot::Sender<bool>),
     DidOpen(DidOpenTextDocumentParams),
+    DidClose(DidCloseTextDocumentParams),
     DidChange(DidChangeTextDocumentParams),
     DidSave(DidSaveTextDocumentParams),
     Completion(
diff --git a/jinja-lsp/src/config.rs b/jinja-lsp/src/config.rs
index 96f6761..32a71d4 100644
--- a/jinja-lsp/src/config.rs
+++ b/jinja-lsp/src/config.rs
@@ -70,7 +70,7 @@ pub type InitLsp = (
     LspFiles,
 );
 
-pub fn walkdir(config: &JinjaConfig) -> anyhow::Result<InitLsp> {
+pub fn walkdir(config: &JinjaConfig, old: &LspFiles) -> anyhow::Result<InitLsp> {
     let mut all = vec![config.templates.to_str().unwrap().to_string().clone()];
     let mut backend = config.backend.clone();
     all.append(&mut backend);
@@ -97,6 +97,7 @@ pub fn walkdir(config: &JinjaConfig) -> anyhow::Result<InitLsp> {
         }
     }
 
+    lsp_files.keep_open_documents(old);
     lsp_files.read_trees(&mut diags);
     Ok((diags, lsp_files))
 }
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 1bc781c..d85e641 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -23,9 +23,10 @@ use std::{
 use tokio::{sync::mpsc, task::JoinHandle, time::sleep};
 use tower_lsp::lsp_types::{
     CodeAction, CodeActionKind, CodeActionOrCommand, Command, CompletionItemKind,
-    CompletionTextEdit, CreateFile, CreateFileOptions, DidOpenTextDocumentParams,
-    DocumentChangeOperation, DocumentChanges, DocumentSymbol, DocumentSymbolResponse,
-    InsertReplaceEdit, ResourceOp, TextDocumentIdentifier, TextEdit, WorkspaceEdit,
+    CompletionTextEdit, CreateFile, CreateFileOptions, DidCloseTextDocumentParams,
+    DidOpenTextDocumentParams, DocumentChangeOperation, DocumentChanges, DocumentSymbol,
+    DocumentSymbolResponse, InsertReplaceEdit, ResourceOp, TextDocumentIdentifier, TextEdit,
+    WorkspaceEdit,
 };
 
 use jinja_lsp_queries::{
@@ -50,6 +51,7 @@ use crate::{
 pub struct LspFiles {
     trees: HashMap<LangType, HashMap<String, Tree>>,
     documents: HashMap<String, Rope>,
+    open_documents: HashSet<String>,
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
@@ -782,6 +784,7 @@ impl LspFiles {
         let rope = Rope::from_str(&file_content);
         self.delete_variables(name);
         self.documents.insert(name.to_string(), rope);
+        self.open_documents.insert(name.to_string());
         self.add_tree(name, lang_type, &file_content);
         self.add_variables(name, lang_type, &file_content);
         let mut hm = HashMap::new();
@@ -794,6 +797,30 @@ impl LspFiles {
         Some(msg)
     }
 
+    pub fn did_close(&mut self, params: DidCloseTextDocumentParams) {
+        self.open_documents
+            .remove(params.text_document.uri.as_str());
+    }
+
+    /// Documents opened in editor have newer content than files on disk.
+    pub fn keep_open_documents(&mut self, old: &LspFiles) {
+        for name in &old.open_documents {
+            let Some(rope) = old.documents.get(name) else {
+                continue;
+            };
+            let Some(lang_type) = self.config.file_ext(&Path::new(name)) else {
+                continue;
+            };
+            let mut contents = FileContent::default();
+            let _ = rope.write_to(&mut contents);
+            self.documents.insert(name.to_string(), rope.clone());
+            self.open_documents.insert(name.to_string());
+            self.add_tree(name, lang_type, &contents.content);
+            self.delete_variables(name);
+            self.add_variables(name, lang_type, &contents.content);
+        }
+    }
+
     pub fn read_objects(&self, uri: Url) -> Option<Vec<JinjaObject>> {
         let rope = self.documents.get(uri.as_str())?;
         let mut writter = FileContent::default();
@@ -916,6 +943,7 @@ impl Default for LspFiles {
             parsers: Parsers::default(),
             queries: Queries::default(),
             documents: HashMap::new(),
+            open_documents: HashSet::new(),
             config: JinjaConfig::default(),
             diagnostics_tasks,
             main_channel,
@@ -933,6 +961,7 @@ impl Clone for LspFiles {
         let parsers = Parsers::default();
         let queries = Queries::default();
         let documents = self.documents.clone();
+        let open_documents = self.open_documents.clone();
         let main_channel = self.main_channel.clone();
         let variables = self.variables.clone();
         let is_vscode = self.is_vscode;
@@ -942,6 +971,7 @@ impl Clone for LspFiles {
         Self {
             trees,
             documents,
+            open_documents,
             parsers,
             queries,
             config,
-- 
2.43.0


From ab7228b5862a95885885118d17e9e3632e7b2820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 08/44] fix: one unreadable entry aborted the whole scan

---
 jinja-lsp/src/config.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp/src/config.rs b/jinja-lsp/src/config.rs
index 32a71d4..cbac73e 100644
--- a/jinja-lsp/src/config.rs
+++ b/jinja-lsp/src/config.rs
@@ -85,9 +85,14 @@ pub fn walkdir(config: &JinjaConfig, old: &LspFiles) -> anyhow::Result<InitLsp>
     for dir in all {
         let walk = WalkDir::new(dir);
         for entry in walk.into_iter() {
-            let entry = entry?;
-            let metadata = entry.metadata()?;
-            if metadata.is_file() {
+            let entry = match entry {
+                Ok(entry) => entry,
+                // files and directories can be unreadable or deleted meanwhile
+                Err(err) if err.depth() > 0 => continue,
+                Err(err) => return Err(err.into()),
+            };
+            let is_file = entry.metadata().is_ok_and(|metadata| metadata.is_file());
+            if is_file {
                 let path = &entry.path();
                 let ext = config.file_ext(path);
                 if let Some(ext) = ext {
-- 
2.43.0


From 9d28ce4110217937a5b0499ad579cb9b5e296726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:19 +0000
Subject: [PATCH 09/44] fix: file URIs of scanned, target and created files

They were built by pasting the path after file:// (file:/// for created
files), so paths with spaces or other escaped characters never matched the
client's URI and the created template got an extra slash.
---
 jinja-lsp/src/lsp_files.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index d85e641..e803560 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -66,10 +66,9 @@ pub struct LspFiles {
 impl LspFiles {
     pub fn read_file(&mut self, path: &&Path, lang_type: LangType) -> Option<()> {
         if let Ok(name) = std::fs::canonicalize(path) {
-            let name = name.to_str()?;
-            let file_content = read_to_string(name).ok()?;
+            let file_content = read_to_string(&name).ok()?;
             let rope = Rope::from_str(&file_content);
-            let name = format!("file://{}", name);
+            let name = Url::from_file_path(name).ok()?.to_string();
             let adding = name.clone();
             self.documents.insert(name.to_string(), rope);
             self.add_tree(&name, lang_type, &file_content);
@@ -417,8 +416,7 @@ impl LspFiles {
                     let mut path = self.config.templates.clone();
                     path.push(&identifier.name);
                     let buffer = std::fs::canonicalize(path).ok()?;
-                    let url = format!("file://{}", buffer.to_str()?);
-                    let url = Url::parse(&url).ok()?;
+                    let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
                     let location = Location::new(url, range);
                     res = Some(GotoDefinitionResponse::Scalar(location));
@@ -464,8 +462,7 @@ impl LspFiles {
                 let mut path = self.config.templates.clone();
                 path.push(&template.name);
                 let buffer = std::fs::canonicalize(path).ok()?;
-                let url = format!("file://{}", buffer.to_str()?);
-                let url = Url::parse(&url).ok()?;
+                let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
                 let location = Location::new(url, range);
                 Some(GotoDefinitionResponse::Scalar(location))
@@ -541,9 +538,8 @@ impl LspFiles {
                 let templates = self.config.templates.to_owned();
                 if let Ok(mut path) = std::fs::canonicalize(templates) {
                     path.push(path_items(&template));
-                    let name = format!("file:///{}", path.to_str().unwrap());
                     let cf = CreateFile {
-                        uri: Url::parse(&name).unwrap(),
+                        uri: Url::from_file_path(path).ok()?,
                         options: Some(CreateFileOptions {
                             overwrite: Some(false),
                             ignore_if_exists: Some(true),
-- 
2.43.0


From c25775ca1472dbdbc1e2fbacb0812eff3e71df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 10/44] fix: template completion failed with dots in path or
 files elsewhere

One indexed file outside the templates directory removed all suggestions, and
dots were removed from the configured directory before comparing.
---
 jinja-lsp/src/lsp_files.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index e803560..4ce4f98 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -689,30 +689,28 @@ impl LspFiles {
 
     pub fn read_templates(
         &self,
-        mut prefix: String,
+        prefix: String,
         range: Range,
         start_point: Position,
         _: Option<String>,
     ) -> Option<Vec<CompletionItem>> {
         let all_templates = self.trees.get(&LangType::Template)?;
-        if prefix.is_empty() {
-            prefix = String::from("file:///");
-        }
-        let templates = all_templates
-            .keys()
-            .filter(|template| template.contains(&prefix));
+        let templates_dir = std::fs::canonicalize(&self.config.templates).ok()?;
         let mut abc = vec![];
-        for template in templates {
-            let c = &self
-                .config
-                .templates
-                .as_path()
-                .to_str()
-                .unwrap()
-                .replace('.', "");
-            let mut parts = template.split(c);
-            parts.next();
-            let label = parts.next()?.replacen('/', "", 1);
+        for template in all_templates.keys() {
+            let path = Url::parse(template)
+                .ok()
+                .and_then(|url| url.to_file_path().ok());
+            let Some(label) = path
+                .as_ref()
+                .and_then(|path| path.strip_prefix(&templates_dir).ok()?.to_str())
+            else {
+                continue;
+            };
+            if !label.contains(&prefix) {
+                continue;
+            }
+            let label = label.to_owned();
             let new_text = format!("\"{label}\"");
             let mut additional_text_edits = None;
             let text_edit = {
-- 
2.43.0


From ff60776e667baff1ef98323bb19804dd66443589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 11/44] fix: syntax error at the end of a template hid all its
 definitions

---
 jinja-lsp/src/lsp_files.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 4ce4f98..8bd8c85 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -104,12 +104,7 @@ impl LspFiles {
             }
             LangType::Template => {
                 let mut variables = vec![];
-                let query_snippets = &self.queries.jinja_snippets;
-                let snippets =
-                    snippets_query(query_snippets, tree, trigger_point, file_content, true);
-                if snippets.is_error {
-                    return None;
-                }
+                // Definitions before the first syntax error are still valid.
                 let query_defs = &self.queries.jinja_definitions;
                 let mut definitions =
                     definition_query(query_defs, tree, trigger_point, file_content, true)
-- 
2.43.0


From 71d6f15146fdeab80618a7a27a45bff1563d1bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 12/44] fix: server stopped on position before the first object
 or in multi-line string

---
 jinja-lsp-queries/src/search/mod.rs     | 3 +++
 jinja-lsp-queries/src/search/objects.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 2659569..dd7e966 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -61,6 +61,9 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
     if len == 0 {
         return Some("");
     }
+    if identifier.end.row != trigger_point.row || identifier.end.column < trigger_point.column {
+        return Some(&identifier.name);
+    }
     let diff = identifier.end.column - trigger_point.column;
     if diff == 0 || diff == 1 {
         return Some(&identifier.name);
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 7049bb1..951e0f7 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -271,7 +271,7 @@ pub fn objects_query(
                 if objects.is_filter() || name == "expr" {
                     break 'loop1;
                 } else if !continued {
-                    if objects.is_hover(trigger_point) {
+                    if !objects.objects.is_empty() && objects.is_hover(trigger_point) {
                         continued = true;
                         my_id = objects.objects.len() - 1;
                         my_expr = objects.expr;
-- 
2.43.0


From 30153395570dd571c066afb93a1bdc74fab4c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 13/44] fix: second variable of for loop was undefined

---
 jinja-lsp-queries/src/search/definition.rs | 14 +++++++++-----
 jinja-lsp-queries/src/search/queries.rs    |  5 +++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 4eb8c15..e4fb5ec 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -202,6 +202,12 @@ impl JinjaDefinitions {
                 self.can_close_scope = true;
                 self.can_open_scope = false;
             }
+            "in" => {
+                // names after this keyword aren't loop variables
+                if let Some(Definition::ForLoop { .. }) = self.definitions.last() {
+                    self.can_add_id = false;
+                }
+            }
             "equals" => {
                 let last = self.definitions.last_mut();
                 if let Some(Definition::Set { equals, .. }) = last {
@@ -231,11 +237,9 @@ impl JinjaDefinitions {
                         Definition::ForLoop { key, value } => {
                             if key.name.is_empty() {
                                 *key = identifier;
-                            } else if let Some(value) = value {
-                                if value.name.is_empty() {
-                                    *value = identifier;
-                                    self.can_add_id = false;
-                                }
+                            } else if value.is_none() {
+                                *value = Some(identifier);
+                                self.can_add_id = false;
                             }
                         }
                         Definition::Set { key, .. } => {
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 844e3ed..3618e24 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -215,6 +215,11 @@ const DEFINITIONS: &str = r#"
         (#match? @scope "^(if|elif|else|filter|autoescape|raw)$")
     )
 
+    (
+        (keyword) @in
+        (#eq? @in "in")
+    )
+
     (
         (keyword) @endblock
         (#match? @endblock "^end")
-- 
2.43.0


From 8c1bf6502390a627b9c2e599284db9feced2dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 14/44] fix: scopes of branches, set and call blocks, inline
 conditions

---
 jinja-lsp-queries/src/search/definition.rs |  9 +++++++++
 jinja-lsp-queries/src/search/queries.rs    | 11 ++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index e4fb5ec..1b7c0ad 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -188,6 +188,15 @@ impl JinjaDefinitions {
                 }
             }
             "scope" => {
+                let content = capture.node.utf8_text(text.as_bytes()).ok()?;
+                if content == "elif" || content == "else" {
+                    // previous branch ends where this one starts
+                    if let Some(mut last) = self.current_scope.pop_front() {
+                        let statement = capture.node.parent().unwrap_or(capture.node);
+                        last.end = statement.start_position();
+                        self.all_scopes.push(last);
+                    }
+                }
                 self.can_close_scope = false;
                 self.can_open_scope = true;
                 self.is_end = false;
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 3618e24..05ccdce 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -205,14 +205,18 @@ const DEFINITIONS: &str = r#"
   (identifier) @id
   (#not-match? @id "^(\\d+)$")
 )
-    (
+    (statement
+        (statement_begin)
+        .
     	(keyword) @definition
         (#match? @definition "^(for|set|with|macro|block)$")
     )
     
-    (
+    (statement
+        (statement_begin)
+        .
     	(keyword) @scope
-        (#match? @scope "^(if|elif|else|filter|autoescape|raw)$")
+        (#match? @scope "^(if|elif|else|filter|autoescape|raw|call|trans)$")
     )
 
     (
@@ -223,6 +227,7 @@ const DEFINITIONS: &str = r#"
     (
         (keyword) @endblock
         (#match? @endblock "^end")
+        (#not-eq? @endblock "endset")
     )
 
 (
-- 
2.43.0


From 28ab7eb0f95897b72c4b030f38353978c9024ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 15/44] fix: name of block was reported as variable from other
 file

---
 jinja-lsp-queries/src/lsp_helper.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index e5399d3..f7fea7d 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -34,6 +34,13 @@ pub fn search_errors(
                 if object.is_filter || object.is_test {
                     continue;
                 }
+                let is_block_name = this_file.iter().any(|variable| {
+                    variable.identifier_type == IdentifierType::TemplateBlock
+                        && variable.start == object.location.0
+                });
+                if is_block_name {
+                    continue;
+                }
                 let mut exist = false;
                 let mut err_type = JinjaDiagnostic::Undefined;
                 let mut to_warn = false;
-- 
2.43.0


From 7896270bc72152bc2d841d193c0e6a38e60e3341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 16/44] fix: positions of queries and results are UTF-16
 columns, not bytes

---
 jinja-lsp-queries/src/to_input_edit.rs | 16 +++++
 jinja-lsp/src/lsp_files.rs             | 96 ++++++++++++++++----------
 2 files changed, 74 insertions(+), 38 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index 6bb446c..f4f9d6c 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -10,6 +10,7 @@ pub trait ToInputEdit {
     fn to_point(&self, position: Position) -> Point;
     fn to_byte(&self, position: Position) -> usize;
     fn byte_to_point(&self, offset: usize) -> Point;
+    fn point_to_byte(&self, point: Point) -> usize;
     fn to_position(&self, offset: usize) -> Position;
     fn to_input_edit(&self, range: Range, text: &str) -> InputEdit;
 }
@@ -52,6 +53,21 @@ impl ToInputEdit for Rope {
         point
     }
 
+    fn point_to_byte(&self, point: Point) -> usize {
+        let mut row = 0;
+        let mut line_start = 0;
+        for (index, byte) in self.bytes().enumerate() {
+            if row == point.row {
+                break;
+            }
+            if byte == b'\n' {
+                row += 1;
+                line_start = index + 1;
+            }
+        }
+        line_start + point.column
+    }
+
     fn to_position(&self, offset: usize) -> Position {
         let mut position = Position::default();
         let mut byte = 0;
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 8bd8c85..0278d75 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -10,7 +10,7 @@ use jinja_lsp_queries::{
         rust_template_completion::backend_templates_query,
         snippets_completion::snippets_query,
         templates::templates_query,
-        to_range, Identifier, IdentifierType,
+        to_point, to_range, Identifier, IdentifierType,
     },
     tree_builder::{JinjaDiagnostic, LangType},
 };
@@ -30,9 +30,7 @@ use tower_lsp::lsp_types::{
 };
 
 use jinja_lsp_queries::{
-    parsers::Parsers,
-    search::objects::CompletionType,
-    to_input_edit::{to_position2, ToInputEdit},
+    parsers::Parsers, search::objects::CompletionType, to_input_edit::ToInputEdit,
 };
 use ropey::Rope;
 
@@ -200,7 +198,7 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(name))?;
         let trees = self.trees.get(&lang_type)?;
         let tree = trees.get(name)?;
-        search_errors(
+        let mut errors = search_errors(
             tree,
             &content,
             &self.queries,
@@ -209,7 +207,30 @@ impl LspFiles {
             self.config.templates.clone(),
             lang_type,
             self.ignore_globals,
-        )
+        )?;
+        for (_, identifier) in errors.iter_mut() {
+            let range = self.client_range(name, (identifier.start, identifier.end));
+            identifier.start = to_point(range.start);
+            identifier.end = to_point(range.end);
+        }
+        Some(errors)
+    }
+
+    /// Position from client as point of tree-sitter.
+    fn tree_point(&self, name: &str, position: Position) -> Point {
+        self.documents
+            .get(name)
+            .map_or(to_point(position), |rope| rope.to_point(position))
+    }
+
+    /// Points of tree-sitter as range for client.
+    fn client_range(&self, name: &str, points: (Point, Point)) -> Range {
+        let Some(rope) = self.documents.get(name) else {
+            return to_range(points);
+        };
+        let start = rope.to_position(rope.point_to_byte(points.0));
+        let end = rope.to_position(rope.point_to_byte(points.1));
+        Range::new(start, end)
     }
 
     pub fn did_save(&mut self, params: DidSaveTextDocumentParams) -> Option<DiagnosticMessage> {
@@ -252,9 +273,8 @@ impl LspFiles {
         }
 
         let uri = params.text_document_position.text_document.uri.to_string();
-        let row = params.text_document_position.position.line;
-        let column = params.text_document_position.position.character;
-        let point = Point::new(row as usize, column as usize);
+        let position = params.text_document_position.position;
+        let point = self.tree_point(&uri, position);
         let ext = self.config.file_ext(&Path::new(&uri))?;
         let trees = self.trees.get(&ext)?;
         let tree = trees.get(&uri)?;
@@ -266,22 +286,25 @@ impl LspFiles {
                 let query = &self.queries.jinja_snippets;
                 let snippets = snippets_query(query, tree, point, &writter.content, false);
                 if snippets.to_complete(point).is_some() {
-                    let start = to_position2(point);
-                    let mut end = to_position2(point);
-                    end.character += 1;
-                    let range = Range::new(start, end);
+                    let mut end = position;
+                    end.character = end.character.saturating_add(1);
+                    let range = Range::new(position, end);
                     return Some((CompletionType::Snippets { range }, false));
                 }
                 let query = &self.queries.jinja_objects;
                 let objects = objects_query(query, tree, point, &writter.content, false);
-                if let Some(completion) = objects.completion(point) {
-                    return Some(completion);
+                if let Some((mut completion, autoclose)) = objects.completion(point) {
+                    if let CompletionType::IncompleteIdentifier { range, .. } = &mut completion {
+                        let points = (to_point(range.start), to_point(range.end));
+                        *range = self.client_range(&uri, points);
+                    }
+                    return Some((completion, autoclose));
                 }
                 let query = &self.queries.jinja_imports;
                 let query = templates_query(query, tree, point, &writter.content, false);
                 let identifier = query.in_template(point)?.get_identifier(point)?;
                 let start = completion_start(point, identifier)?;
-                let range = to_range((identifier.start, identifier.end));
+                let range = self.client_range(&uri, (identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
                         name: start.to_owned(),
@@ -300,7 +323,7 @@ impl LspFiles {
                 );
                 let identifier = rust_templates.in_template(point)?;
                 let start = completion_start(point, identifier)?;
-                let range = to_range((identifier.start, identifier.end));
+                let range = self.client_range(&uri, (identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
                         name: start.to_owned(),
@@ -335,9 +358,8 @@ impl LspFiles {
             .text_document
             .uri
             .to_string();
-        let row = params.text_document_position_params.position.line;
-        let column = params.text_document_position_params.position.character;
-        let trigger_point = Point::new(row as usize, column as usize);
+        let position = params.text_document_position_params.position;
+        let trigger_point = self.tree_point(&uri, position);
         let trees = self.trees.get(&LangType::Template)?;
         let tree = trees.get(&uri)?;
         let query = &self.queries.jinja_objects;
@@ -375,9 +397,8 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(&uri))?;
         let trees = self.trees.get(&lang_type)?;
         let tree = trees.get(&uri)?;
-        let row = params.text_document_position_params.position.line;
-        let column = params.text_document_position_params.position.character;
-        let point = Point::new(row as usize, column as usize);
+        let position = params.text_document_position_params.position;
+        let point = self.tree_point(&uri, position);
         let doc = self.documents.get(&uri)?;
         let mut writter = FileWriter::default();
         let _ = doc.write_to(&mut writter);
@@ -397,8 +418,7 @@ impl LspFiles {
                             item.name == ident && item.start <= point && point <= item.scope_ends.1
                         })
                         .max()?;
-                    let (start, end) = (to_position2(max.start), to_position2(max.end));
-                    let range = Range::new(start, end);
+                    let range = self.client_range(&uri, (max.start, max.end));
                     Some(GotoDefinitionResponse::Scalar(Location {
                         uri: uri2.clone(),
                         range,
@@ -427,6 +447,7 @@ impl LspFiles {
                             item.name.split('.').next().unwrap_or(&item.name) == current_ident
                         });
                         for variable in variables {
+                            let range = self.client_range(file.0, (variable.start, variable.end));
                             let uri = {
                                 if variable.start == Point::new(0, 0)
                                     && variable.end == Point::new(0, 0)
@@ -436,9 +457,6 @@ impl LspFiles {
                                     Url::parse(file.0).unwrap()
                                 }
                             };
-                            let start = to_position2(variable.start);
-                            let end = to_position2(variable.end);
-                            let range = Range::new(start, end);
                             let location = Location::new(uri, range);
                             all.push(location);
                         }
@@ -468,9 +486,9 @@ impl LspFiles {
     pub fn code_action(&self, action_params: CodeActionParams) -> Option<JinjaCodeAction> {
         let uri = action_params.text_document.uri.to_string();
         let lang_type = self.config.file_ext(&Path::new(&uri))?;
-        let row = action_params.range.start.line;
-        let column = action_params.range.start.character;
-        let point = Point::new(row as usize, column as usize);
+        // code actions have positions of client, because they are errors sent to it
+        let client_point = to_point(action_params.range.start);
+        let point = self.tree_point(&uri, action_params.range.start);
         let trees = self.trees.get(&lang_type)?;
         let tree = trees.get(&uri)?;
         let code_actions = self.code_actions.get(&uri)?;
@@ -482,7 +500,7 @@ impl LspFiles {
                 let _ = doc.write_to(&mut writter);
                 let code_action = code_actions
                     .iter()
-                    .find(|item| point >= item.start && point <= item.end);
+                    .find(|item| client_point >= item.start && client_point <= item.end);
                 if let Some(code_action) = code_action {
                     return Some(JinjaCodeAction::CreateTemplate(code_action.name.to_owned()));
                 }
@@ -495,7 +513,7 @@ impl LspFiles {
             LangType::Backend => {
                 let code_action = code_actions
                     .iter()
-                    .find(|item| point >= item.start && point <= item.end);
+                    .find(|item| client_point >= item.start && client_point <= item.end);
                 if let Some(code_action) = code_action {
                     return Some(JinjaCodeAction::CreateTemplate(code_action.name.to_owned()));
                 }
@@ -594,10 +612,8 @@ impl LspFiles {
         nodejs_uri: Option<String>,
     ) -> Option<Vec<CompletionItem>> {
         let mut items = vec![];
-        let start = position.line as usize;
-        let end = position.character as usize;
-        let position = Point::new(start, end);
         let uri = &uri.to_string();
+        let position = self.tree_point(uri, position);
         let mut names = HashSet::new();
         let this_file = self.variables.get(uri)?;
         let this_file = this_file
@@ -883,13 +899,17 @@ impl LspFiles {
         let mut symbols = vec![];
         let variables = self.variables.get(params.text_document.uri.as_str())?;
         for variable in variables {
+            let range = self.client_range(
+                params.text_document.uri.as_str(),
+                (variable.start, variable.end),
+            );
             #[allow(deprecated)]
             let symbol = DocumentSymbol {
                 name: variable.name.to_owned(),
                 detail: None,
                 kind: variable.identifier_type.symbol_kind(),
-                range: to_range((variable.start, variable.end)),
-                selection_range: to_range((variable.start, variable.end)),
+                range,
+                selection_range: range,
                 children: None,
                 deprecated: None,
                 tags: None,
-- 
2.43.0


From f5ca2f614f568d9db10fb6e1ce5f0b52a1908dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 17/44] fix: filter after a call or brackets was reported as
 undefined variable

---
 jinja-lsp-queries/src/search/objects.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 951e0f7..20c4c74 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -73,8 +73,13 @@ impl JinjaObjects {
             }
             "pipe" => {
                 let content = capture.node.utf8_text(source.as_bytes()).ok()?;
-                if content.starts_with('|') {
+                // operators aren't separated, `)|` is only one
+                let before = content.trim_end().strip_suffix('|');
+                if let Some(before) = before {
                     self.pipe = (start, end);
+                    if !content.contains('\n') {
+                        self.pipe.0.column += before.len();
+                    }
                 }
                 return Some(ObjectAction::NewFilter);
             }
-- 
2.43.0


From 53c76049cee54cd3464a35415c23d86ae888db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 18/44] fix: messages of the editor could overtake each other

---
 jinja-lsp/src/backend.rs      | 47 ++++++++++++++---------------------
 jinja-lsp/src/channels/lsp.rs |  6 ++---
 jinja-lsp/src/lsp_files.rs    |  6 ++---
 3 files changed, 24 insertions(+), 35 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 1e30316..a00a035 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -1,6 +1,6 @@
 use serde_json::Value;
 use tokio::sync::{
-    mpsc::{self, Sender},
+    mpsc::{self, UnboundedSender},
     oneshot,
 };
 use tower_lsp::{
@@ -24,8 +24,10 @@ use crate::channels::{
     lsp::{lsp_task, LspMessage},
 };
 
+/// Messages reach `lsp_task` in the order the editor sent them: a handler must
+/// not wait before its message is in the channel.
 pub struct Backend {
-    main_channel: Sender<LspMessage>,
+    main_channel: UnboundedSender<LspMessage>,
 }
 
 #[tower_lsp::async_trait]
@@ -34,8 +36,7 @@ impl LanguageServer for Backend {
         let (sender, rx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::Initialize(Box::new(params), sender))
-            .await;
+            .send(LspMessage::Initialize(Box::new(params), sender));
         if let Ok(msg) = rx.await {
             Ok(msg)
         } else {
@@ -45,34 +46,30 @@ impl LanguageServer for Backend {
 
     async fn initialized(&self, _params: InitializedParams) {
         let (sender, _) = oneshot::channel();
-        let _ = self
-            .main_channel
-            .send(LspMessage::Initialized(sender))
-            .await;
+        let _ = self.main_channel.send(LspMessage::Initialized(sender));
     }
 
     async fn did_open(&self, params: DidOpenTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidOpen(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidOpen(params));
     }
 
     async fn did_close(&self, params: DidCloseTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidClose(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidClose(params));
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidChange(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidChange(params));
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidSave(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidSave(params));
     }
 
     async fn completion(&self, params: CompletionParams) -> Result<Option<CompletionResponse>> {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::Completion(params, sender))
-            .await;
+            .send(LspMessage::Completion(params, sender));
         if let Ok(completion) = tx.await {
             return Ok(completion);
         }
@@ -81,10 +78,7 @@ impl LanguageServer for Backend {
 
     async fn hover(&self, params: HoverParams) -> Result<Option<Hover>> {
         let (sender, tx) = oneshot::channel();
-        let _ = self
-            .main_channel
-            .send(LspMessage::Hover(params, sender))
-            .await;
+        let _ = self.main_channel.send(LspMessage::Hover(params, sender));
         if let Ok(hover) = tx.await {
             return Ok(hover);
         }
@@ -98,8 +92,7 @@ impl LanguageServer for Backend {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::GoToDefinition(params, sender))
-            .await;
+            .send(LspMessage::GoToDefinition(params, sender));
         if let Ok(definition) = tx.await {
             return Ok(definition);
         }
@@ -110,8 +103,7 @@ impl LanguageServer for Backend {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::CodeAction(params, sender))
-            .await;
+            .send(LspMessage::CodeAction(params, sender));
         if let Ok(code_action) = tx.await {
             return Ok(code_action);
         }
@@ -122,8 +114,7 @@ impl LanguageServer for Backend {
         let (sender, _) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::ExecuteCommand(params, sender))
-            .await;
+            .send(LspMessage::ExecuteCommand(params, sender));
         Ok(None)
     }
 
@@ -134,8 +125,7 @@ impl LanguageServer for Backend {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::DocumentSymbol(params, sender))
-            .await;
+            .send(LspMessage::DocumentSymbol(params, sender));
         if let Ok(symbols) = tx.await {
             return Ok(symbols);
         }
@@ -146,8 +136,7 @@ impl LanguageServer for Backend {
     async fn did_change_configuration(&self, params: DidChangeConfigurationParams) {
         let _ = self
             .main_channel
-            .send(LspMessage::DidChangeConfiguration(params))
-            .await;
+            .send(LspMessage::DidChangeConfiguration(params));
     }
 
     async fn shutdown(&self) -> Result<()> {
@@ -157,7 +146,7 @@ impl LanguageServer for Backend {
 
 impl Backend {
     pub fn _new(client: Client) -> Self {
-        let (lsp_sender, lsp_recv) = mpsc::channel(50);
+        let (lsp_sender, lsp_recv) = mpsc::unbounded_channel();
         let (diagnostic_sender, diagnostic_recv) = mpsc::channel(20);
         lsp_task(
             client.clone(),
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 60753ef..8df99eb 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -29,8 +29,8 @@ use super::diagnostics::{missing_templates, DiagnosticMessage};
 pub fn lsp_task(
     client: Client,
     diagnostics_channel: mpsc::Sender<DiagnosticMessage>,
-    lsp_channel: mpsc::Sender<LspMessage>,
-    mut lsp_recv: mpsc::Receiver<LspMessage>,
+    lsp_channel: mpsc::UnboundedSender<LspMessage>,
+    mut lsp_recv: mpsc::UnboundedReceiver<LspMessage>,
 ) {
     let mut config = JinjaConfig::default();
     let mut lsp_data = LspFiles::default();
@@ -359,7 +359,7 @@ async fn rescan(
     config: &JinjaConfig,
     lsp_data: &mut LspFiles,
     diagnostics_channel: &mpsc::Sender<DiagnosticMessage>,
-    lsp_channel: &mpsc::Sender<LspMessage>,
+    lsp_channel: &mpsc::UnboundedSender<LspMessage>,
 ) -> bool {
     client.log_message(MessageType::INFO, "Initialized").await;
     if !config.user_defined {
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 0278d75..86819e3 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -54,7 +54,7 @@ pub struct LspFiles {
     pub queries: Queries,
     pub config: JinjaConfig,
     pub diagnostics_tasks: HashMap<String, JoinHandle<()>>,
-    pub main_channel: Option<mpsc::Sender<LspMessage>>,
+    pub main_channel: Option<mpsc::UnboundedSender<LspMessage>>,
     pub variables: HashMap<String, Vec<Identifier>>,
     pub code_actions: HashMap<String, Vec<Identifier>>,
     pub is_vscode: bool,
@@ -181,7 +181,7 @@ impl LspFiles {
         let task = tokio::spawn(async move {
             sleep(Duration::from_millis(200)).await;
             if let Some(channel) = channel {
-                let _ = channel.send(LspMessage::DidSave(param)).await;
+                let _ = channel.send(LspMessage::DidSave(param));
             }
         });
         if let Some(old_task) = self.diagnostics_tasks.insert(uri, task) {
@@ -577,7 +577,7 @@ impl LspFiles {
                 tokio::spawn(async move {
                     sleep(Duration::from_millis(1400)).await;
                     if let Some(lsp_channel) = lsp_channel {
-                        let _ = lsp_channel.send(LspMessage::DidSave(param)).await;
+                        let _ = lsp_channel.send(LspMessage::DidSave(param));
                     }
                 });
                 Some(commands)
-- 
2.43.0


From 3250358a77286bc539fe464d0162f8b8afb25a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 19/44] fix: reused syntax tree of edited documents had nodes
 at other positions

---
 jinja-lsp/src/lsp_files.rs | 35 ++++++-----------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 86819e3..a4ebf69 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -39,7 +39,7 @@ use tower_lsp::lsp_types::{
     DidChangeTextDocumentParams, DidSaveTextDocumentParams, GotoDefinitionParams,
     GotoDefinitionResponse, HoverParams, Location, Position, Range, Url,
 };
-use tree_sitter::{InputEdit, Point, Tree};
+use tree_sitter::{Point, Tree};
 
 use crate::{
     channels::{diagnostics::DiagnosticMessage, lsp::LspMessage},
@@ -122,39 +122,21 @@ impl LspFiles {
         file_content: &str,
     ) -> Option<()> {
         let trees = self.trees.get_mut(&lang_type)?;
-        // The old tree can't be reused, this content wasn't made by editing it.
+        // The old tree isn't reused: nodes taken from it can begin at other positions
+        // than in a tree of the same content that was parsed at once.
         let new_tree = self.parsers.parse(lang_type, file_content, None)?;
         trees.insert(file_name.to_string(), new_tree);
         None
     }
 
-    pub fn input_edit(
-        &mut self,
-        file: &String,
-        code: String,
-        input_edit: InputEdit,
-        lang_type: Option<LangType>,
-    ) -> Option<()> {
-        let lang_type = lang_type?;
-        let trees = self.trees.get_mut(&lang_type)?;
-        let old_tree = trees.get_mut(file)?;
-        old_tree.edit(&input_edit);
-        let new_tree = self.parsers.parse(lang_type, &code, Some(old_tree))?;
-        let trees = self.trees.get_mut(&lang_type)?;
-        trees.insert(file.to_string(), new_tree);
-        None
-    }
-
     pub fn did_change(&mut self, params: DidChangeTextDocumentParams) -> Option<()> {
         let uri = params.text_document.uri.to_string();
         let rope = self.documents.get_mut(&uri)?;
         let lang_type = self.config.file_ext(&Path::new(&uri));
-        let mut changes = vec![];
         for change in params.content_changes {
             let Some(range) = change.range else {
                 // without range, this is new content of whole document
                 *rope = Rope::from_str(&change.text);
-                changes.push((change.text, None));
                 continue;
             };
             let input_edit = rope.to_input_edit(range, &change.text);
@@ -162,16 +144,11 @@ impl LspFiles {
             let end = rope.byte_to_char(input_edit.old_end_byte);
             rope.remove(start..end);
             rope.insert(start, &change.text);
+        }
+        if let Some(lang_type) = lang_type {
             let mut w = FileContent::default();
             let _ = rope.write_to(&mut w);
-            changes.push((w.content, Some(input_edit)));
-        }
-        for (code, input_edit) in changes {
-            match (input_edit, lang_type) {
-                (Some(edit), _) => self.input_edit(&uri, code, edit, lang_type),
-                (None, Some(lang_type)) => self.add_tree(&uri, lang_type, &code),
-                (None, None) => None,
-            };
+            self.add_tree(&uri, lang_type, &w.content);
         }
         let param = DidSaveTextDocumentParams {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
-- 
2.43.0


From 0b6e331a75082d4c83f91a99483760a3561bab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:26 +0000
Subject: [PATCH 20/44] fix: template with an unclosed string stopped the
 server for minutes

---
 jinja-lsp-queries/src/search/templates.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jinja-lsp-queries/src/search/templates.rs b/jinja-lsp-queries/src/search/templates.rs
index b66fe43..82d85a2 100644
--- a/jinja-lsp-queries/src/search/templates.rs
+++ b/jinja-lsp-queries/src/search/templates.rs
@@ -233,6 +233,9 @@ pub fn templates_query(
     let closest_node = tree.root_node();
     let mut imports = JinjaImports::default();
     let mut cursor_qry = QueryCursor::new();
+    // An unclosed string can turn most of the template into one statement,
+    // without limit the number of candidate matches explodes.
+    cursor_qry.set_match_limit(256);
     let capture_names = query.capture_names();
     let matches = cursor_qry.matches(query, closest_node, text.as_bytes());
     let captures = matches.into_iter().flat_map(|m| {
-- 
2.43.0


From e0d3af87a3fc363870eafdb8396c733a0c9832b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:24 +0000
Subject: [PATCH 21/44] fix: server stayed alive after the editor was gone
 while a request was open

---
 jinja-lsp/src/backend.rs              |  9 +--
 jinja-lsp/src/channels/diagnostics.rs |  8 +--
 jinja-lsp/src/channels/lsp.rs         | 89 +++++++++------------------
 3 files changed, 36 insertions(+), 70 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index a00a035..0c6cc80 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -147,13 +147,8 @@ impl LanguageServer for Backend {
 impl Backend {
     pub fn _new(client: Client) -> Self {
         let (lsp_sender, lsp_recv) = mpsc::unbounded_channel();
-        let (diagnostic_sender, diagnostic_recv) = mpsc::channel(20);
-        lsp_task(
-            client.clone(),
-            diagnostic_sender,
-            lsp_sender.clone(),
-            lsp_recv,
-        );
+        let (diagnostic_sender, diagnostic_recv) = mpsc::unbounded_channel();
+        lsp_task(diagnostic_sender, lsp_sender.clone(), lsp_recv);
         diagnostics_task(client.clone(), diagnostic_recv);
         Self {
             main_channel: lsp_sender,
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index 4a14b31..d384edd 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -3,17 +3,17 @@ use std::collections::HashMap;
 use jinja_lsp_queries::{
     lsp_helper::create_diagnostic, search::Identifier, tree_builder::JinjaDiagnostic,
 };
-use tokio::sync::mpsc::Receiver;
+use tokio::sync::mpsc::UnboundedReceiver;
 use tower_lsp::{
     lsp_types::{MessageType, Url},
     Client,
 };
 
-pub fn diagnostics_task(client: Client, mut receiver: Receiver<DiagnosticMessage>) {
+pub fn diagnostics_task(client: Client, mut receiver: UnboundedReceiver<DiagnosticMessage>) {
     tokio::spawn(async move {
         while let Some(msg) = receiver.recv().await {
             match msg {
-                DiagnosticMessage::Str(msg) => client.log_message(MessageType::INFO, msg).await,
+                DiagnosticMessage::Str(kind, msg) => client.log_message(kind, msg).await,
                 DiagnosticMessage::Errors(all_errors) => {
                     for (uri, errors) in all_errors.into_iter() {
                         let mut v = vec![];
@@ -52,5 +52,5 @@ pub fn missing_templates(message: &DiagnosticMessage) -> HashMap<String, Vec<Ide
 #[derive(Debug)]
 pub enum DiagnosticMessage {
     Errors(HashMap<String, Vec<(JinjaDiagnostic, Identifier)>>),
-    Str(String),
+    Str(MessageType, String),
 }
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 8df99eb..a632d93 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -1,20 +1,17 @@
 use jinja_lsp_queries::search::{objects::CompletionType, snippets_completion::snippets};
 use serde_json::Value;
 use tokio::sync::{mpsc, oneshot};
-use tower_lsp::{
-    lsp_types::{
-        CodeActionParams, CodeActionProviderCapability, CodeActionResponse, CompletionItem,
-        CompletionItemKind, CompletionOptions, CompletionParams, CompletionResponse,
-        CompletionTextEdit, DidChangeConfigurationParams, DidChangeTextDocumentParams,
-        DidCloseTextDocumentParams, DidOpenTextDocumentParams, DidSaveTextDocumentParams,
-        DocumentSymbolParams, DocumentSymbolResponse, Documentation, ExecuteCommandOptions,
-        ExecuteCommandParams, GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents,
-        HoverParams, HoverProviderCapability, InitializeParams, InitializeResult,
-        InsertReplaceEdit, MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities,
-        ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
-        TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
-    },
-    Client,
+use tower_lsp::lsp_types::{
+    CodeActionParams, CodeActionProviderCapability, CodeActionResponse, CompletionItem,
+    CompletionItemKind, CompletionOptions, CompletionParams, CompletionResponse,
+    CompletionTextEdit, DidChangeConfigurationParams, DidChangeTextDocumentParams,
+    DidCloseTextDocumentParams, DidOpenTextDocumentParams, DidSaveTextDocumentParams,
+    DocumentSymbolParams, DocumentSymbolResponse, Documentation, ExecuteCommandOptions,
+    ExecuteCommandParams, GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents,
+    HoverParams, HoverProviderCapability, InitializeParams, InitializeResult, InsertReplaceEdit,
+    MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities, ServerInfo,
+    TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
+    TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
 };
 
 use crate::{
@@ -27,8 +24,7 @@ use crate::{
 use super::diagnostics::{missing_templates, DiagnosticMessage};
 
 pub fn lsp_task(
-    client: Client,
-    diagnostics_channel: mpsc::Sender<DiagnosticMessage>,
+    diagnostics_channel: mpsc::UnboundedSender<DiagnosticMessage>,
     lsp_channel: mpsc::UnboundedSender<LspMessage>,
     mut lsp_recv: mpsc::UnboundedReceiver<LspMessage>,
 ) {
@@ -107,14 +103,7 @@ pub fn lsp_task(
                     let _ = sender.send(msg);
                 }
                 LspMessage::Initialized(sender) => {
-                    let done = rescan(
-                        &client,
-                        &config,
-                        &mut lsp_data,
-                        &diagnostics_channel,
-                        &lsp_channel,
-                    )
-                    .await;
+                    let done = rescan(&config, &mut lsp_data, &diagnostics_channel, &lsp_channel);
                     let _ = sender.send(done);
                 }
                 LspMessage::DidChange(params) => {
@@ -123,7 +112,7 @@ pub fn lsp_task(
                 LspMessage::DidSave(params) => {
                     if let Some(errors) = lsp_data.did_save(params) {
                         lsp_data.add_code_actions(missing_templates(&errors));
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::Completion(params, sender) => {
@@ -304,21 +293,14 @@ pub fn lsp_task(
                 LspMessage::ExecuteCommand(params, sender) => {
                     let command = params.command;
                     if command == "reset_variables" {
-                        rescan(
-                            &client,
-                            &config,
-                            &mut lsp_data,
-                            &diagnostics_channel,
-                            &lsp_channel,
-                        )
-                        .await;
+                        rescan(&config, &mut lsp_data, &diagnostics_channel, &lsp_channel);
                         let _ = sender.send(None);
                     }
                 }
                 LspMessage::DidOpen(params) => {
                     if let Some(errors) = lsp_data.did_open(params, false) {
                         lsp_data.add_code_actions(missing_templates(&errors));
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::DidClose(params) => {
@@ -338,14 +320,7 @@ pub fn lsp_task(
                     if !config.user_defined {
                         continue;
                     }
-                    rescan(
-                        &client,
-                        &config,
-                        &mut lsp_data,
-                        &diagnostics_channel,
-                        &lsp_channel,
-                    )
-                    .await;
+                    rescan(&config, &mut lsp_data, &diagnostics_channel, &lsp_channel);
                 }
             }
         }
@@ -353,29 +328,26 @@ pub fn lsp_task(
 }
 
 /// Reads all templates and backend files again, for the current config.
-/// Runs inside `lsp_task`, which must never wait for its own channel.
-async fn rescan(
-    client: &Client,
+/// Runs inside `lsp_task`, which must never wait: neither for its own channel
+/// nor for the client, which may be gone while requests are still open.
+fn rescan(
     config: &JinjaConfig,
     lsp_data: &mut LspFiles,
-    diagnostics_channel: &mpsc::Sender<DiagnosticMessage>,
+    diagnostics_channel: &mpsc::UnboundedSender<DiagnosticMessage>,
     lsp_channel: &mpsc::UnboundedSender<LspMessage>,
 ) -> bool {
-    client.log_message(MessageType::INFO, "Initialized").await;
+    let log = |kind: MessageType, message: &str| {
+        let _ = diagnostics_channel.send(DiagnosticMessage::Str(kind, message.to_owned()));
+    };
+    log(MessageType::INFO, "Initialized");
     if !config.user_defined {
-        client
-            .log_message(MessageType::WARNING, "Config doesn't exist.")
-            .await;
+        log(MessageType::WARNING, "Config doesn't exist.");
     }
     if config.templates.as_path().to_str().unwrap().is_empty() {
-        client
-            .log_message(MessageType::WARNING, "Template directory not found")
-            .await;
+        log(MessageType::WARNING, "Template directory not found");
     }
     if !["rust", "python"].contains(&config.lang.as_str()) {
-        client
-            .log_message(MessageType::WARNING, "Backend language not supported")
-            .await;
+        log(MessageType::WARNING, "Backend language not supported");
         return false;
     }
     match walkdir(config, lsp_data) {
@@ -387,12 +359,11 @@ async fn rescan(
             lsp_data.main_channel = Some(lsp_channel.clone());
             let errors = DiagnosticMessage::Errors(errors.0);
             lsp_data.add_code_actions(missing_templates(&errors));
-            let _ = diagnostics_channel.send(errors).await;
+            let _ = diagnostics_channel.send(errors);
             true
         }
         Err(err) => {
-            let msg = err.to_string();
-            client.log_message(MessageType::INFO, msg).await;
+            log(MessageType::INFO, &err.to_string());
             false
         }
     }
-- 
2.43.0


From a5b1800eba8000da22db9c7ca72e8e24fcbea857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:42 +0000
Subject: [PATCH 22/44] fix: completion in a variable replaced text up to a
 later statement

---
 jinja-lsp-queries/src/search/objects.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 20c4c74..e78d7fa 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -280,6 +280,11 @@ pub fn objects_query(
                         continued = true;
                         my_id = objects.objects.len() - 1;
                         my_expr = objects.expr;
+                        if name == "just_id" {
+                            // begins another object, its fields aren't of this one
+                            objects.objects[my_id].capture_first = true;
+                            break 'loop1;
+                        }
                         continue;
                     } else {
                         break 'loop1;
-- 
2.43.0


From eb31c5dbedd628880ce6f7a4ea6b08639e3c5c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:55 +0000
Subject: [PATCH 23/44] fix: definitions of an edited document were those of
 its old text for 200 ms

---
 jinja-lsp/src/lsp_files.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index a4ebf69..c101f0b 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -149,6 +149,8 @@ impl LspFiles {
             let mut w = FileContent::default();
             let _ = rope.write_to(&mut w);
             self.add_tree(&uri, lang_type, &w.content);
+            // requests can follow before errors are searched again
+            self.add_variables(&uri, lang_type, &w.content);
         }
         let param = DidSaveTextDocumentParams {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
-- 
2.43.0


From a070dd2b070874d9bd61c6444633ad2b71ac6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:57 +0000
Subject: [PATCH 24/44] fix: keywords, literals and tests in an expression were
 marked as undefined

---
 jinja-lsp-queries/src/search/objects.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index e78d7fa..c4e72dd 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -99,6 +99,7 @@ impl JinjaObjects {
                     end: (last.start_position(), last.end_position()),
                 };
                 self.expr = (start, end, expr);
+                self.test.2 = false;
                 return Some(ObjectAction::Expression);
             }
             _ => (),
@@ -134,8 +135,15 @@ impl JinjaObjects {
                     }
                 }
             } else {
+                if value == "is" {
+                    // it's keyword only in statements
+                    self.test = (start, end, true);
+                    return ObjectAction::NewTest;
+                }
+                // `none` can be test
+                let is_test_name = self.test.2 && value != "not";
                 // TODO: in future add those to main library
-                if VALID_IDENTIFIERS.contains(&value) {
+                if VALID_IDENTIFIERS.contains(&value) && !is_test_name {
                     return ObjectAction::Invalid;
                 }
                 self.ident = (start, end);
@@ -159,6 +167,8 @@ impl JinjaObjects {
         let autoclose = self.should_autoclose();
         if self.in_pipe(trigger_point) {
             return Some((CompletionType::Filter, autoclose));
+        } else if self.in_expr(trigger_point) && self.is_test(trigger_point) {
+            return Some((CompletionType::Test, false));
         } else if self.in_expr(trigger_point) {
             if trigger_point == self.expr.2.begin.1 && trigger_point == self.expr.2.end.0 {
                 return Some((CompletionType::Identifier, autoclose));
@@ -334,8 +344,9 @@ pub enum CompletionType {
     IncompleteFilter { name: String, range: Range },
 }
 
-static VALID_IDENTIFIERS: [&str; 8] = [
-    "loop", "true", "false", "not", "as", "module", "super", "url_for",
+static VALID_IDENTIFIERS: [&str; 17] = [
+    "loop", "true", "false", "none", "True", "False", "None", "not", "and", "or", "in", "if",
+    "else", "as", "module", "super", "url_for",
 ];
 
 #[derive(Default, Debug, Clone, Copy)]
-- 
2.43.0


From d57f35dd0fd8784074ff62939d7054c55da8271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:27 +0000
Subject: [PATCH 25/44] fix: names of keyword arguments were marked as
 undefined

---
 jinja-lsp-queries/src/search/objects.rs | 30 ++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index c4e72dd..8be3f45 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -1,5 +1,5 @@
 use tower_lsp::lsp_types::Range;
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{completion_start, to_range, to_range2, Identifier};
 
@@ -140,6 +140,9 @@ impl JinjaObjects {
                     self.test = (start, end, true);
                     return ObjectAction::NewTest;
                 }
+                if is_argument_name(capture.node, source) {
+                    return ObjectAction::Invalid;
+                }
                 // `none` can be test
                 let is_test_name = self.test.2 && value != "not";
                 // TODO: in future add those to main library
@@ -253,6 +256,31 @@ impl JinjaObjects {
     }
 }
 
+/// Name of keyword argument, `f(name=1)`. Parameters of macros are definitions.
+fn is_argument_name(node: Node<'_>, source: &str) -> bool {
+    let operator = |node: Option<Node<'_>>| {
+        node.filter(|node| node.kind() == "operator")
+            .and_then(|node| node.utf8_text(source.as_bytes()).ok())
+    };
+    let equals = operator(node.next_sibling()).map_or("", str::trim_start);
+    if !equals.starts_with('=') || equals.starts_with("==") {
+        return false;
+    }
+    let mut opened = 0;
+    let mut previous = node.prev_sibling();
+    while let Some(node) = previous {
+        let text = node.utf8_text(source.as_bytes());
+        if node.kind() == "keyword" && text == Ok("macro") {
+            return false;
+        }
+        if let Some(text) = operator(previous) {
+            opened += text.matches('(').count() as i32 - text.matches(')').count() as i32;
+        }
+        previous = node.prev_sibling();
+    }
+    opened > 0
+}
+
 pub fn objects_query(
     query: &Query,
     tree: &Tree,
-- 
2.43.0


From 7605d64e8fc5d3730aafb755f51c06d39d260b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:37 +0000
Subject: [PATCH 26/44] fix: attributes of values that aren't variables were
 marked as undefined

---
 jinja-lsp-queries/src/search/objects.rs | 32 ++++++++++---------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 8be3f45..9c3921f 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -113,26 +113,12 @@ impl JinjaObjects {
         let end = capture.node.end_position();
         if let Ok(value) = value {
             if start.row == self.dot.1.row && start.column == self.dot.1.column {
-                let last_object = self.objects.last_mut().map(|last| {
+                // fields of anything else (`loop`, call) aren't of this object
+                let dot = self.dot.0;
+                let last = self.objects.last_mut();
+                if let Some(last) = last.filter(|last| last.last_field_end() == dot) {
                     last.fields.push((String::from(value), (start, end)));
                     self.ident = (start, end);
-                });
-                match last_object {
-                    Some(_) => {}
-                    None => {
-                        // TODO: in future add those to main library
-                        if VALID_IDENTIFIERS.contains(&value) {
-                            return ObjectAction::Invalid;
-                        }
-                        self.ident = (start, end);
-                        let is_test = self.test.2;
-                        let is_filter = self.is_hover(start) && self.is_filter();
-                        let obj =
-                            JinjaObject::new(String::from(value), start, end, is_filter, is_test);
-                        self.objects.push(obj);
-                        self.test.2 = false;
-                        return ObjectAction::NewObject;
-                    }
                 }
             } else {
                 if value == "is" {
@@ -140,7 +126,7 @@ impl JinjaObjects {
                     self.test = (start, end, true);
                     return ObjectAction::NewTest;
                 }
-                if is_argument_name(capture.node, source) {
+                if is_argument_name(capture.node, source) || is_attribute(capture.node, source) {
                     return ObjectAction::Invalid;
                 }
                 // `none` can be test
@@ -256,6 +242,14 @@ impl JinjaObjects {
     }
 }
 
+/// Attribute of something that isn't variable, `list[0].name` or `call().name`.
+fn is_attribute(node: Node<'_>, source: &str) -> bool {
+    node.prev_sibling()
+        .filter(|node| node.kind() == "operator")
+        .and_then(|node| node.utf8_text(source.as_bytes()).ok())
+        .is_some_and(|operator| operator.trim_end().ends_with('.'))
+}
+
 /// Name of keyword argument, `f(name=1)`. Parameters of macros are definitions.
 fn is_argument_name(node: Node<'_>, source: &str) -> bool {
     let operator = |node: Option<Node<'_>>| {
-- 
2.43.0


From 0b5b3fe95f71f3c7d6718f7534d8f5ffaac5d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:21 +0000
Subject: [PATCH 27/44] fix: words of block, include and for statements were
 marked as undefined

---
 jinja-lsp-queries/src/search/objects.rs | 32 ++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 9c3921f..8a11436 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -126,7 +126,10 @@ impl JinjaObjects {
                     self.test = (start, end, true);
                     return ObjectAction::NewTest;
                 }
-                if is_argument_name(capture.node, source) || is_attribute(capture.node, source) {
+                if is_argument_name(capture.node, source)
+                    || is_attribute(capture.node, source)
+                    || is_statement_word(capture.node, source)
+                {
                     return ObjectAction::Invalid;
                 }
                 // `none` can be test
@@ -250,6 +253,33 @@ fn is_attribute(node: Node<'_>, source: &str) -> bool {
         .is_some_and(|operator| operator.trim_end().ends_with('.'))
 }
 
+/// Words with meaning for the statement only, `endblock name` or `include "a" ignore missing`.
+fn is_statement_word(node: Node<'_>, source: &str) -> bool {
+    let text = |node: Node<'_>| node.utf8_text(source.as_bytes()).unwrap_or_default();
+    let statement = node.parent().filter(|node| node.kind() == "statement");
+    let keyword = statement.and_then(|statement| statement.named_child(1));
+    let (Some(keyword), Some(previous)) = (keyword, node.prev_named_sibling()) else {
+        return false;
+    };
+    let first = previous == keyword;
+    match text(keyword) {
+        "block" => !first,
+        "include" | "import" | "from" => {
+            !first && ["ignore", "missing", "without", "context"].contains(&text(node))
+        }
+        "for" => {
+            let last = node.next_named_sibling();
+            text(node) == "recursive"
+                && (previous.kind() != "operator"
+                    || text(previous).trim_end().ends_with([')', ']']))
+                && text(previous) != "in"
+                && last.is_some_and(|last| last.kind() == "statement_end")
+        }
+        "endblock" => first,
+        _ => false,
+    }
+}
+
 /// Name of keyword argument, `f(name=1)`. Parameters of macros are definitions.
 fn is_argument_name(node: Node<'_>, source: &str) -> bool {
     let operator = |node: Option<Node<'_>>| {
-- 
2.43.0


From c01598bfa820ad86fe53c42998224aca8d4141e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:56 +0000
Subject: [PATCH 28/44] fix: filter of a filter block was marked as undefined

---
 jinja-lsp-queries/src/search/objects.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 8a11436..be3f2f4 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -140,7 +140,8 @@ impl JinjaObjects {
                 }
                 self.ident = (start, end);
                 let is_test = self.test.2;
-                let is_filter = self.is_hover(start) && self.is_filter();
+                let is_filter = (self.is_hover(start) && self.is_filter())
+                    || is_filter_block(capture.node, source);
                 self.objects.push(JinjaObject::new(
                     String::from(value),
                     start,
@@ -280,6 +281,13 @@ fn is_statement_word(node: Node<'_>, source: &str) -> bool {
     }
 }
 
+/// First filter in `{% filter name %}`.
+fn is_filter_block(node: Node<'_>, source: &str) -> bool {
+    node.prev_named_sibling()
+        .filter(|node| node.kind() == "keyword")
+        .is_some_and(|keyword| keyword.utf8_text(source.as_bytes()) == Ok("filter"))
+}
+
 /// Name of keyword argument, `f(name=1)`. Parameters of macros are definitions.
 fn is_argument_name(node: Node<'_>, source: &str) -> bool {
     let operator = |node: Option<Node<'_>>| {
-- 
2.43.0


From 9b51b1324fbe22d29dabf94482e8b17a637b55a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:02 +0000
Subject: [PATCH 29/44] fix: names in default values of with and macro were
 taken as definitions

---
 jinja-lsp-queries/src/search/definition.rs | 43 +++++++++++++++++++++-
 jinja-lsp-queries/src/search/objects.rs    |  5 ++-
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 1b7c0ad..19da496 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -1,6 +1,6 @@
 use std::collections::{HashSet, LinkedList};
 
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{Identifier, IdentifierType};
 
@@ -258,8 +258,14 @@ impl JinjaDefinitions {
                             }
                         }
                         Definition::With { keys } => {
-                            keys.push(identifier);
+                            if opened_brackets(capture.node, text) == 0
+                                && is_followed_by_equals(capture.node, text)
+                            {
+                                keys.push(identifier);
+                            }
                         }
+                        Definition::Macro { keys, .. }
+                            if !keys.is_empty() && !is_parameter(capture.node, text) => {}
                         Definition::Macro { keys, scope } => {
                             if keys.is_empty() {
                                 identifier.scope_ends.0 = *scope;
@@ -372,6 +378,39 @@ impl JinjaDefinitions {
     }
 }
 
+fn operator_text<'a>(node: Option<Node<'_>>, text: &'a str) -> Option<&'a str> {
+    node.filter(|node| node.kind() == "operator")?
+        .utf8_text(text.as_bytes())
+        .ok()
+}
+
+/// Brackets of this statement that are open before this node.
+fn opened_brackets(node: Node<'_>, text: &str) -> usize {
+    let mut opened = 0;
+    let mut closed = 0;
+    let mut previous = node.prev_sibling();
+    while let Some(node) = previous {
+        if let Some(operator) = operator_text(previous, text) {
+            opened += operator.matches(['(', '[']).count();
+            closed += operator.matches([')', ']']).count();
+        }
+        previous = node.prev_sibling();
+    }
+    opened.saturating_sub(closed)
+}
+
+fn is_followed_by_equals(node: Node<'_>, text: &str) -> bool {
+    let operator = operator_text(node.next_sibling(), text).map_or("", str::trim_start);
+    operator.starts_with('=') && !operator.starts_with("==")
+}
+
+/// Name in default value of parameter isn't parameter.
+fn is_parameter(node: Node<'_>, text: &str) -> bool {
+    let in_object = node.parent().is_some_and(|node| node.kind() == "object");
+    let operator = operator_text(node.prev_sibling(), text).map_or("", str::trim_end);
+    !in_object && operator.ends_with(['(', ',']) && opened_brackets(node, text) == 1
+}
+
 pub fn definition_query(
     query: &Query,
     tree: &Tree,
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index be3f2f4..34eb894 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -299,18 +299,19 @@ fn is_argument_name(node: Node<'_>, source: &str) -> bool {
         return false;
     }
     let mut opened = 0;
+    let mut parameters = 0;
     let mut previous = node.prev_sibling();
     while let Some(node) = previous {
         let text = node.utf8_text(source.as_bytes());
         if node.kind() == "keyword" && text == Ok("macro") {
-            return false;
+            parameters = 1;
         }
         if let Some(text) = operator(previous) {
             opened += text.matches('(').count() as i32 - text.matches(')').count() as i32;
         }
         previous = node.prev_sibling();
     }
-    opened > 0
+    opened > parameters
 }
 
 pub fn objects_query(
-- 
2.43.0


From 4a4e0bd3b877dace7a4ab2aefb979a38e9ecacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:06 +0000
Subject: [PATCH 30/44] fix: third variable of for and second of set were
 marked as undefined

---
 jinja-lsp-queries/src/search/definition.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 19da496..ba93702 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -221,6 +221,7 @@ impl JinjaDefinitions {
                 let last = self.definitions.last_mut();
                 if let Some(Definition::Set { equals, .. }) = last {
                     *equals = true;
+                    self.can_add_id = false;
                     self.can_open_scope = false;
                 }
             }
@@ -248,12 +249,25 @@ impl JinjaDefinitions {
                                 *key = identifier;
                             } else if value.is_none() {
                                 *value = Some(identifier);
-                                self.can_add_id = false;
+                            } else {
+                                self.definitions.push(Definition::ForLoop {
+                                    key: identifier,
+                                    value: None,
+                                });
                             }
                         }
                         Definition::Set { key, .. } => {
+                            let operator = operator_text(capture.node.prev_sibling(), text);
+                            let parent = capture.node.parent();
+                            let same = parent.is_some_and(|node| node.start_position() < key.start);
                             if key.name.is_empty() {
                                 *key = identifier;
+                            } else if same && operator.is_some_and(|text| text.trim() == ",") {
+                                self.definitions.push(Definition::Set {
+                                    key: identifier,
+                                    equals: false,
+                                });
+                            } else {
                                 self.can_add_id = false;
                             }
                         }
-- 
2.43.0


From f78aa2ab3ab6b7791460eca64b560cca00885c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:10 +0000
Subject: [PATCH 31/44] fix: blocks and template names were taken for variables
 of that name

---
 jinja-lsp-queries/src/lsp_helper.rs | 1 +
 jinja-lsp-queries/src/search/mod.rs | 6 ++++++
 jinja-lsp/src/lsp_files.rs          | 5 ++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index f7fea7d..6072e7d 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -73,6 +73,7 @@ pub fn search_errors(
                         let temp = file
                             .1
                             .iter()
+                            .filter(|variable| variable.is_variable())
                             .filter(|variable| variable.name == object.name);
                         if temp.count() != 0 {
                             err_type = JinjaDiagnostic::DefinedSomewhere;
diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index dd7e966..90cc4a0 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -43,6 +43,12 @@ impl Identifier {
         }
         merged
     }
+
+    /// Blocks and names of templates are never values of variables.
+    pub fn is_variable(&self) -> bool {
+        self.identifier_type != IdentifierType::TemplateBlock
+            && self.identifier_type != IdentifierType::JinjaTemplate
+    }
 }
 
 impl From<&JinjaObject> for Identifier {
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index c101f0b..c6b62f7 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -393,6 +393,7 @@ impl LspFiles {
                     let variables = self.variables.get(&uri)?;
                     let max = variables
                         .iter()
+                        .filter(|item| item.is_variable() || point <= item.end)
                         .filter(|item| {
                             item.name == ident && item.start <= point && point <= item.scope_ends.1
                         })
@@ -422,7 +423,8 @@ impl LspFiles {
                         if file.0 == &uri {
                             continue;
                         }
-                        let variables = file.1.iter().filter(|item| {
+                        let variables = file.1.iter().filter(|item| item.is_variable());
+                        let variables = variables.filter(|item| {
                             item.name.split('.').next().unwrap_or(&item.name) == current_ident
                         });
                         for variable in variables {
@@ -863,6 +865,7 @@ impl LspFiles {
             let variables = file
                 .1
                 .iter()
+                .filter(|item| item.is_variable())
                 .filter(|item| item.name.split('.').next().unwrap_or(&item.name) == hover.name);
             if variables.count() > 0 {
                 return Some(IdentifierType::BackendVariable);
-- 
2.43.0


From fe37beef306c738d8ee4a56a37f36161976fba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:40 +0000
Subject: [PATCH 32/44] fix: words after a statement ending with `is` were
 taken for tests

---
 jinja-lsp-queries/src/search/objects.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 34eb894..161b098 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -47,6 +47,7 @@ pub struct JinjaObjects {
     dot: (Point, Point),
     pipe: (Point, Point),
     test: (Point, Point, bool),
+    test_end: Point,
     expr: (Point, Point, ExpressionRange),
     ident: (Point, Point),
 }
@@ -84,7 +85,7 @@ impl JinjaObjects {
                 return Some(ObjectAction::NewFilter);
             }
             "is" => {
-                self.test = (start, end, true);
+                self.new_test(capture.node);
                 return Some(ObjectAction::NewTest);
             }
             "expr" => {
@@ -99,7 +100,6 @@ impl JinjaObjects {
                     end: (last.start_position(), last.end_position()),
                 };
                 self.expr = (start, end, expr);
-                self.test.2 = false;
                 return Some(ObjectAction::Expression);
             }
             _ => (),
@@ -107,6 +107,13 @@ impl JinjaObjects {
         Some(ObjectAction::Invalid)
     }
 
+    /// Test ends with its expression or statement.
+    fn new_test(&mut self, is: Node<'_>) {
+        let parent = is.parent().unwrap_or(is);
+        self.test = (is.start_position(), is.end_position(), true);
+        self.test_end = parent.end_position();
+    }
+
     pub fn build_object(&mut self, capture: &QueryCapture<'_>, source: &str) -> ObjectAction {
         let value = capture.node.utf8_text(source.as_bytes());
         let start = capture.node.start_position();
@@ -123,7 +130,7 @@ impl JinjaObjects {
             } else {
                 if value == "is" {
                     // it's keyword only in statements
-                    self.test = (start, end, true);
+                    self.new_test(capture.node);
                     return ObjectAction::NewTest;
                 }
                 if is_argument_name(capture.node, source)
@@ -133,13 +140,13 @@ impl JinjaObjects {
                     return ObjectAction::Invalid;
                 }
                 // `none` can be test
-                let is_test_name = self.test.2 && value != "not";
+                let is_test = self.test.2 && start < self.test_end;
+                let is_test_name = is_test && value != "not";
                 // TODO: in future add those to main library
                 if VALID_IDENTIFIERS.contains(&value) && !is_test_name {
                     return ObjectAction::Invalid;
                 }
                 self.ident = (start, end);
-                let is_test = self.test.2;
                 let is_filter = (self.is_hover(start) && self.is_filter())
                     || is_filter_block(capture.node, source);
                 self.objects.push(JinjaObject::new(
@@ -242,7 +249,10 @@ impl JinjaObjects {
     }
 
     pub fn is_test(&self, trigger_point: Point) -> bool {
-        self.test.2 && trigger_point >= self.test.1 && trigger_point.row == self.test.1.row
+        self.test.2
+            && trigger_point >= self.test.1
+            && trigger_point < self.test_end
+            && trigger_point.row == self.test.1.row
     }
 }
 
-- 
2.43.0


From e4cb1aca11d9c03d75abfbac525bfa20c10b4847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:48 +0000
Subject: [PATCH 33/44] fix: completion before a pipe offered filters instead
 of variables

---
 jinja-lsp-queries/src/search/objects.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 161b098..c912306 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -199,7 +199,7 @@ impl JinjaObjects {
     }
 
     pub fn in_pipe(&self, trigger_point: Point) -> bool {
-        trigger_point >= self.pipe.0 && trigger_point <= self.pipe.1
+        trigger_point > self.pipe.0 && trigger_point <= self.pipe.1
     }
 
     pub fn in_expr(&self, trigger_point: Point) -> bool {
-- 
2.43.0


From 3d7a21cb5cbaba97a0a0cdf9757456a220e91526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:07 +0000
Subject: [PATCH 34/44] fix: completion of a variable removed the rest of the
 word in VS Code

---
 jinja-lsp/src/lsp_files.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index c6b62f7..4b83dc1 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -621,21 +621,10 @@ impl LspFiles {
                 if start_item.is_empty() {
                     items.push(completion_item);
                 } else if identifier.name.starts_with(&start_item) {
-                    let mut additional_text_edits = None;
                     let text_edit = if self.is_vscode {
-                        let vec = vec![];
-                        let mut edits = vec;
-                        edits.push(TextEdit {
-                            range: incomplete_range,
-                            new_text: start_item.to_string(),
-                        });
-                        additional_text_edits = Some(edits);
                         CompletionTextEdit::Edit(TextEdit {
-                            range: Range {
-                                start: incomplete_range.start,
-                                end: incomplete_range.start,
-                            },
-                            new_text: "".to_string(),
+                            range: incomplete_range,
+                            new_text: identifier.name.to_string(),
                         })
                     } else {
                         CompletionTextEdit::InsertAndReplace(InsertReplaceEdit {
@@ -645,7 +634,6 @@ impl LspFiles {
                         })
                     };
                     completion_item.text_edit = Some(text_edit);
-                    completion_item.additional_text_edits = additional_text_edits;
                     items.push(completion_item);
                 }
 
-- 
2.43.0


From a435f5dfe5c9225a67ad3f8e3eaa9dec609011f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:05 +0000
Subject: [PATCH 35/44] fix: tests named as keywords, in and filter, weren't
 known in statements

---
 jinja-lsp-queries/src/search/objects.rs | 4 ++++
 jinja-lsp-queries/src/search/queries.rs | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index c912306..7cd6419 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -88,6 +88,10 @@ impl JinjaObjects {
                 self.new_test(capture.node);
                 return Some(ObjectAction::NewTest);
             }
+            // tests with names of keywords: `is in`, `is filter`
+            "test_keyword" if self.test.2 && start < self.test_end => {
+                return Some(self.build_object(capture, source));
+            }
             "expr" => {
                 let mut cursor = capture.node.walk();
                 cursor.goto_first_child();
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 05ccdce..e88f1b5 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -75,6 +75,11 @@ const OBJECTS: &str = r#"
           (keyword) @is
           (#eq? @is "is")
         )
+
+        (
+          (keyword) @test_keyword
+          (#match? @test_keyword "^(in|filter)$")
+        )
         
         (ERROR) @error
 
-- 
2.43.0


From 58a48a76143337a853d924cddc43eaecce7f3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:51 +0000
Subject: [PATCH 36/44] fix: notifications of opened and closed documents
 weren't asked for

---
 jinja-lsp/src/channels/lsp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index a632d93..ceb2d20 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -67,6 +67,7 @@ pub fn lsp_task(
                         capabilities: ServerCapabilities {
                             text_document_sync: Some(TextDocumentSyncCapability::Options(
                                 TextDocumentSyncOptions {
+                                    open_close: Some(true),
                                     change: Some(TextDocumentSyncKind::INCREMENTAL),
                                     will_save: Some(true),
                                     save: Some(TextDocumentSyncSaveOptions::Supported(true)),
-- 
2.43.0


From c8a5eaa9d927d266aea0b591a78bec2acf5550dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:39 +0000
Subject: [PATCH 37/44] fix: file was indexed twice when the editor encodes its
 URI differently

Editors percent-encode more characters than Url::from_file_path does, e.g.
VS Code sends %2B and %40.
---
 jinja-lsp/src/backend.rs | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 0c6cc80..b1f33af 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -8,7 +8,7 @@ use tower_lsp::{
     lsp_types::{
         CompletionParams, CompletionResponse, DidChangeConfigurationParams,
         DidCloseTextDocumentParams, DidOpenTextDocumentParams, DocumentSymbolParams,
-        DocumentSymbolResponse, InitializeParams, InitializeResult,
+        DocumentSymbolResponse, InitializeParams, InitializeResult, Url,
     },
     Client, LanguageServer,
 };
@@ -49,23 +49,28 @@ impl LanguageServer for Backend {
         let _ = self.main_channel.send(LspMessage::Initialized(sender));
     }
 
-    async fn did_open(&self, params: DidOpenTextDocumentParams) {
+    async fn did_open(&self, mut params: DidOpenTextDocumentParams) {
+        file_uri(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidOpen(params));
     }
 
-    async fn did_close(&self, params: DidCloseTextDocumentParams) {
+    async fn did_close(&self, mut params: DidCloseTextDocumentParams) {
+        file_uri(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidClose(params));
     }
 
-    async fn did_change(&self, params: DidChangeTextDocumentParams) {
+    async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
+        file_uri(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidChange(params));
     }
 
-    async fn did_save(&self, params: DidSaveTextDocumentParams) {
+    async fn did_save(&self, mut params: DidSaveTextDocumentParams) {
+        file_uri(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidSave(params));
     }
 
-    async fn completion(&self, params: CompletionParams) -> Result<Option<CompletionResponse>> {
+    async fn completion(&self, mut params: CompletionParams) -> Result<Option<CompletionResponse>> {
+        file_uri(&mut params.text_document_position.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -76,7 +81,8 @@ impl LanguageServer for Backend {
         Ok(None)
     }
 
-    async fn hover(&self, params: HoverParams) -> Result<Option<Hover>> {
+    async fn hover(&self, mut params: HoverParams) -> Result<Option<Hover>> {
+        file_uri(&mut params.text_document_position_params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self.main_channel.send(LspMessage::Hover(params, sender));
         if let Ok(hover) = tx.await {
@@ -87,8 +93,9 @@ impl LanguageServer for Backend {
 
     async fn goto_definition(
         &self,
-        params: GotoDefinitionParams,
+        mut params: GotoDefinitionParams,
     ) -> Result<Option<GotoDefinitionResponse>> {
+        file_uri(&mut params.text_document_position_params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -99,7 +106,11 @@ impl LanguageServer for Backend {
         Ok(None)
     }
 
-    async fn code_action(&self, params: CodeActionParams) -> Result<Option<CodeActionResponse>> {
+    async fn code_action(
+        &self,
+        mut params: CodeActionParams,
+    ) -> Result<Option<CodeActionResponse>> {
+        file_uri(&mut params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -120,8 +131,9 @@ impl LanguageServer for Backend {
 
     async fn document_symbol(
         &self,
-        params: DocumentSymbolParams,
+        mut params: DocumentSymbolParams,
     ) -> Result<Option<DocumentSymbolResponse>> {
+        file_uri(&mut params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -144,6 +156,14 @@ impl LanguageServer for Backend {
     }
 }
 
+/// Editors encode different characters of a path, a file must have the same
+/// name as in `LspFiles::read_file`.
+fn file_uri(uri: &mut Url) {
+    if let Ok(Ok(name)) = uri.to_file_path().map(Url::from_file_path) {
+        *uri = name;
+    }
+}
+
 impl Backend {
     pub fn _new(client: Client) -> Self {
         let (lsp_sender, lsp_recv) = mpsc::unbounded_channel();
-- 
2.43.0


From 57be03b28a2be034d362262859f45dfb7b545069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:37 +0000
Subject: [PATCH 38/44] fix: rescan did not check the backend sources, and
 dropped their quick fixes

---
 jinja-lsp/src/lsp_files.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 4b83dc1..9219b62 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -577,10 +577,10 @@ impl LspFiles {
     }
 
     pub fn read_trees(&self, diags: &mut HashMap<String, Vec<(JinjaDiagnostic, Identifier)>>) {
-        for tree in self.trees.get(&LangType::Template).unwrap() {
-            let errors = self.read_tree(tree.0);
+        for name in self.trees.values().flat_map(|trees| trees.keys()) {
+            let errors = self.read_tree(name);
             if let Some(errors) = errors {
-                diags.insert(String::from(tree.0), errors);
+                diags.insert(String::from(name), errors);
             }
         }
     }
-- 
2.43.0


From 9ead74d765efef7779198bb901cbbe87d31d5e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:25 +0000
Subject: [PATCH 39/44] fix: one missing directory kept everything else from
 being indexed

---
 jinja-lsp/src/channels/lsp.rs | 2 +-
 jinja-lsp/src/config.rs       | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index ceb2d20..ebd57aa 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -344,7 +344,7 @@ fn rescan(
     if !config.user_defined {
         log(MessageType::WARNING, "Config doesn't exist.");
     }
-    if config.templates.as_path().to_str().unwrap().is_empty() {
+    if !config.templates.is_dir() {
         log(MessageType::WARNING, "Template directory not found");
     }
     if !["rust", "python"].contains(&config.lang.as_str()) {
diff --git a/jinja-lsp/src/config.rs b/jinja-lsp/src/config.rs
index cbac73e..58dcb0a 100644
--- a/jinja-lsp/src/config.rs
+++ b/jinja-lsp/src/config.rs
@@ -85,12 +85,8 @@ pub fn walkdir(config: &JinjaConfig, old: &LspFiles) -> anyhow::Result<InitLsp>
     for dir in all {
         let walk = WalkDir::new(dir);
         for entry in walk.into_iter() {
-            let entry = match entry {
-                Ok(entry) => entry,
-                // files and directories can be unreadable or deleted meanwhile
-                Err(err) if err.depth() > 0 => continue,
-                Err(err) => return Err(err.into()),
-            };
+            // files and directories can be missing, unreadable or deleted meanwhile
+            let Ok(entry) = entry else { continue };
             let is_file = entry.metadata().is_ok_and(|metadata| metadata.is_file());
             if is_file {
                 let path = &entry.path();
-- 
2.43.0


From dbc07f6cf8924192e47536614fa5a850dd620a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:58 +0000
Subject: [PATCH 40/44] fix: a rescan during a burst of edits made an
 additional refresh

---
 jinja-lsp/src/channels/lsp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index ebd57aa..e14e8a6 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -354,8 +354,11 @@ fn rescan(
     match walkdir(config, lsp_data) {
         Ok(errors) => {
             let vscode = lsp_data.is_vscode;
+            // documents can be waiting for their errors, the next change replaces this task
+            let diagnostics_tasks = std::mem::take(&mut lsp_data.diagnostics_tasks);
             *lsp_data = errors.1;
             lsp_data.is_vscode = vscode;
+            lsp_data.diagnostics_tasks = diagnostics_tasks;
             lsp_data.config = config.clone();
             lsp_data.main_channel = Some(lsp_channel.clone());
             let errors = DiagnosticMessage::Errors(errors.0);
-- 
2.43.0


From 6f16ad9b3b3ff81dcf6e6bcf72ab4e355eb14618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:00 +0000
Subject: [PATCH 41/44] fix: template completion compared other text than what
 is typed

---
 jinja-lsp-queries/src/search/mod.rs | 11 +++++++++++
 jinja-lsp/src/lsp_files.rs          |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 90cc4a0..d33c360 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -82,6 +82,17 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
     let s = identifier.name.get(0..to + 1);
     s
 }
+
+/// Part of template name before cursor, range of this identifier has quotes.
+pub fn template_start(trigger_point: Point, identifier: &Identifier) -> Option<&str> {
+    if identifier.start.row != trigger_point.row {
+        return Some(&identifier.name);
+    }
+    let name = identifier.start.column + 1;
+    let typed = trigger_point.column.saturating_sub(name);
+    identifier.name.get(..typed.min(identifier.name.len()))
+}
+
 pub fn to_range(points: (Point, Point)) -> Range {
     let start = Position::new(points.0.row as u32, points.0.column as u32);
     let end = Position::new(points.1.row as u32, points.1.column as u32);
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 9219b62..325cb39 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -1,7 +1,6 @@
 use jinja_lsp_queries::{
     lsp_helper::{path_items, search_errors},
     search::{
-        completion_start,
         definition::definition_query,
         objects::{objects_query, JinjaObject},
         python_identifiers::{python_identifiers, PythonIdentifier},
@@ -9,6 +8,7 @@ use jinja_lsp_queries::{
         rust_identifiers::backend_definition_query,
         rust_template_completion::backend_templates_query,
         snippets_completion::snippets_query,
+        template_start,
         templates::templates_query,
         to_point, to_range, Identifier, IdentifierType,
     },
@@ -282,7 +282,7 @@ impl LspFiles {
                 let query = &self.queries.jinja_imports;
                 let query = templates_query(query, tree, point, &writter.content, false);
                 let identifier = query.in_template(point)?.get_identifier(point)?;
-                let start = completion_start(point, identifier)?;
+                let start = template_start(point, identifier)?;
                 let range = self.client_range(&uri, (identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
@@ -301,7 +301,7 @@ impl LspFiles {
                     false,
                 );
                 let identifier = rust_templates.in_template(point)?;
-                let start = completion_start(point, identifier)?;
+                let start = template_start(point, identifier)?;
                 let range = self.client_range(&uri, (identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
-- 
2.43.0


From c2c391b29179930240178d6bcf01b1e9b4f7a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:19 +0000
Subject: [PATCH 42/44] fix: no completion for clients which send no context

---
 jinja-lsp/src/lsp_files.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 325cb39..d7c54ee 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -235,9 +235,10 @@ impl LspFiles {
 
     pub fn completion(&self, params: CompletionParams) -> Option<(CompletionType, bool)> {
         let can_complete = {
+            // not every client sends context
             matches!(
                 params.context,
-                Some(CompletionContext {
+                None | Some(CompletionContext {
                     trigger_kind: CompletionTriggerKind::TRIGGER_CHARACTER,
                     ..
                 }) | Some(CompletionContext {
-- 
2.43.0


From 5ae661255626cc5e5eca5862f68cd5700f78dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:00 +0000
Subject: [PATCH 43/44] fix: go to definition on template names that begin with
 a slash

Such names are looked for in the directory of templates when errors are
searched, go to definition took them as absolute paths.
---
 jinja-lsp/src/lsp_files.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index d7c54ee..54e805a 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -410,7 +410,7 @@ impl LspFiles {
                     let query = templates_query(query, tree, point, &writter.content, false);
                     let identifier = query.in_template(point)?.get_identifier(point)?;
                     let mut path = self.config.templates.clone();
-                    path.push(&identifier.name);
+                    path.push(path_items(&identifier.name));
                     let buffer = std::fs::canonicalize(path).ok()?;
                     let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
@@ -455,7 +455,7 @@ impl LspFiles {
                     backend_templates_query(query, tree, point, &writter.content, false);
                 let template = templates.in_template(point)?;
                 let mut path = self.config.templates.clone();
-                path.push(&template.name);
+                path.push(path_items(&template.name));
                 let buffer = std::fs::canonicalize(path).ok()?;
                 let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
-- 
2.43.0


From 9e1a2f923dcfb072be6017e4a7a346eac3878e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:06 +0000
Subject: [PATCH 44/44] fix: templates outside of their directory were found
 and offered to be created

A name can lead out of the directory of templates with parent directories.
No loader follows such names, and the quick fix must not create files
anywhere else.
---
 jinja-lsp-queries/src/lsp_helper.rs | 26 ++++++++++++++++++++++++--
 jinja-lsp/src/lsp_files.rs          |  9 ++++++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index 6072e7d..0fa4e55 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -1,4 +1,8 @@
-use std::{collections::HashMap, io::ErrorKind, path::PathBuf};
+use std::{
+    collections::HashMap,
+    io::ErrorKind,
+    path::{Component, PathBuf},
+};
 
 use tower_lsp::lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range};
 use tree_sitter::{Point, Tree};
@@ -101,7 +105,7 @@ pub fn search_errors(
                 .filter(|identifier| identifier.identifier_type == IdentifierType::JinjaTemplate);
             for i in id_templates {
                 let err_type = JinjaDiagnostic::TemplateNotFound;
-                if i.name.is_empty() {
+                if i.name.is_empty() || leads_out(&i.name) {
                     let diagnostic = (err_type, i.to_owned());
                     diagnostics.push(diagnostic);
                 } else {
@@ -123,6 +127,11 @@ pub fn search_errors(
                 .iter()
                 .filter(|id| id.identifier_type == IdentifierType::JinjaTemplate);
             for template in templates2 {
+                if leads_out(&template.name) {
+                    let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
+                    diagnostics.push(diagnostic);
+                    continue;
+                }
                 let mut templates = templates.clone();
                 templates.push(path_items(&template.name));
                 if let Err(err) = std::fs::canonicalize(templates) {
@@ -157,3 +166,16 @@ pub fn create_diagnostic(
 pub fn path_items(template: &str) -> PathBuf {
     template.split('/').collect()
 }
+
+/// Templates are never loaded from outside of their directory.
+pub fn leads_out(template: &str) -> bool {
+    let mut depth = 0;
+    path_items(template).components().any(|item| {
+        match item {
+            Component::ParentDir => depth -= 1,
+            Component::Normal(_) => depth += 1,
+            _ => {}
+        }
+        depth < 0
+    })
+}
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 54e805a..a71c8e2 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -1,5 +1,5 @@
 use jinja_lsp_queries::{
-    lsp_helper::{path_items, search_errors},
+    lsp_helper::{leads_out, path_items, search_errors},
     search::{
         definition::definition_query,
         objects::{objects_query, JinjaObject},
@@ -408,7 +408,8 @@ impl LspFiles {
                 res.is_none().then(|| -> Option<()> {
                     let query = &self.queries.jinja_imports;
                     let query = templates_query(query, tree, point, &writter.content, false);
-                    let identifier = query.in_template(point)?.get_identifier(point)?;
+                    let template = query.in_template(point)?.get_identifier(point);
+                    let identifier = template.filter(|item| !leads_out(&item.name))?;
                     let mut path = self.config.templates.clone();
                     path.push(path_items(&identifier.name));
                     let buffer = std::fs::canonicalize(path).ok()?;
@@ -453,7 +454,8 @@ impl LspFiles {
                 let query = &self.queries.backend_templates;
                 let templates =
                     backend_templates_query(query, tree, point, &writter.content, false);
-                let template = templates.in_template(point)?;
+                let template = templates.in_template(point);
+                let template = template.filter(|item| !leads_out(&item.name))?;
                 let mut path = self.config.templates.clone();
                 path.push(path_items(&template.name));
                 let buffer = std::fs::canonicalize(path).ok()?;
@@ -511,6 +513,7 @@ impl LspFiles {
     ) -> Option<Vec<CodeActionOrCommand>> {
         let mut commands = vec![];
         match code_action {
+            JinjaCodeAction::CreateTemplate(name) if leads_out(&name) => None,
             JinjaCodeAction::Reset => {
                 for command in [
                     ("Reset variables", "reset_variables"),
-- 
2.43.0

