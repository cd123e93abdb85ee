From 15039869e1029de2cdc7bc3ff9da27f8a04e9c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 1/5] fix: flush buffered output files so CLI write errors are
 reported

---
 src/cli/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 2eaa758..dada348 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -172,6 +172,10 @@ fn write_lines(args: &Args, lines: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Dropping a BufWriter discards write errors, so flush explicitly
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
@@ -204,6 +208,10 @@ fn write_chunks(args: &Args, chunks: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Dropping a BufWriter discards write errors, so flush explicitly
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
-- 
2.43.0


From f542787f2ca1370d4f36c0d512ee7b90bf9c9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 2/5] fix: make AsyncDecodeStream agree with the batch decoder
 and end after an error

---
 src/decode/async_decode.rs | 221 ++++++++++---------------------------
 1 file changed, 58 insertions(+), 163 deletions(-)

diff --git a/src/decode/async_decode.rs b/src/decode/async_decode.rs
index 2d4241e..6bc3e4c 100644
--- a/src/decode/async_decode.rs
+++ b/src/decode/async_decode.rs
@@ -25,11 +25,10 @@
 use crate::JsonStreamEvent;
 use crate::decode::decoders as decoder_impl;
 use crate::decode::parser::{
-    is_array_header_content, is_key_value_content, parse_array_header_line, parse_key_token,
-    parse_primitive_token,
+    is_key_value_content, parse_array_header_line, parse_key_token, parse_primitive_token,
 };
 use crate::decode::scanner::{
-    Depth, ParsedLine, StreamingScanState, create_scan_state, parse_line_incremental,
+    ParsedLine, StreamingScanState, create_scan_state, parse_line_incremental,
 };
 use crate::error::{Result, ToonError};
 use crate::options::DecodeStreamOptions;
@@ -46,17 +45,13 @@ enum DecoderState {
     /// Haven't seen any lines yet
     Initial,
     /// Processing simple key-value pairs (can emit incrementally)
-    SimpleObject { base_depth: Depth },
-    /// Saw an array header, need to process array specially
+    SimpleObject,
+    /// Saw an array header or nested content, need batch processing
     ArrayMode,
     /// Processing is complete
     Finished,
 }
 
-/// Context for tracking nested object structures.
-/// Arrays fall back to batch processing, so we only track object depth incrementally.
-type ObjectDepth = Depth;
-
 /// Async stream that yields `JsonStreamEvent` items from TOON input lines.
 ///
 /// This stream processes TOON input line-by-line, yielding events as they are
@@ -67,8 +62,7 @@ type ObjectDepth = Depth;
 ///
 /// The stream emits events incrementally when possible:
 /// - Simple flat objects emit Key + Primitive events as lines arrive
-/// - Nested objects push/pop context and emit events at structure boundaries
-/// - Arrays with headers require buffering until all items are processed
+/// - Nested objects and arrays require buffering until all lines are read
 pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     /// The underlying line iterator
     lines: I,
@@ -80,16 +74,14 @@ pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     event_queue: VecDeque<JsonStreamEvent>,
     /// Decoder state machine
     state: DecoderState,
-    /// Stack of object depths for tracking nested structures
-    context_stack: Vec<ObjectDepth>,
-    /// Buffer for lines that need batch processing (arrays)
-    line_buffer: Vec<ParsedLine>,
+    /// Number of events emitted incrementally so far
+    emitted: usize,
+    /// Raw lines read so far, for batch processing
+    line_buffer: Vec<String>,
     /// Whether we've finished reading all lines
     lines_exhausted: bool,
     /// Error encountered during processing
     error: Option<ToonError>,
-    /// Last emitted depth for tracking structure boundaries
-    last_depth: Option<Depth>,
 }
 
 impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
@@ -102,11 +94,10 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             scan_state: create_scan_state(),
             event_queue: VecDeque::new(),
             state: DecoderState::Initial,
-            context_stack: Vec::new(),
+            emitted: 0,
             line_buffer: Vec::new(),
             lines_exhausted: false,
             error: None,
-            last_depth: None,
         }
     }
 
@@ -152,134 +143,50 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         let indent_size = self.indent_size();
         let strict = self.strict();
         let parsed = parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?;
+        self.line_buffer.push(raw_line);
 
         // Skip blank lines
-        let Some(line) = parsed else {
-            return Ok(None);
-        };
-
-        // Process based on current state
-        match self.state {
-            DecoderState::Initial => self.process_initial_line(line),
-            DecoderState::SimpleObject { base_depth } => {
-                self.process_simple_object_line(line, base_depth)
-            }
-            DecoderState::ArrayMode => {
-                // In array mode, buffer lines for batch processing
-                self.line_buffer.push(line);
-                Ok(None)
-            }
-            DecoderState::Finished => Ok(None),
+        if let Some(line) = parsed {
+            self.process_line(&line)?;
         }
+        Ok(self.event_queue.pop_front())
     }
 
-    /// Process the first line to determine document structure
-    fn process_initial_line(&mut self, line: ParsedLine) -> Result<Option<JsonStreamEvent>> {
-        // Check if it's an array header at root level
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Array at root - need batch processing
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            return Ok(None);
-        }
-
-        // Check if it's a key-value line (object)
-        if Self::is_key_value_line(&line) {
-            let depth = line.depth;
-            self.state = DecoderState::SimpleObject { base_depth: 0 };
-            self.context_stack.push(0);
-            self.event_queue.push_back(JsonStreamEvent::StartObject);
-            self.process_key_value_line(&line)?;
-            self.last_depth = Some(depth);
-            return Ok(self.event_queue.pop_front());
-        }
+    /// Process a line: emit its events if they cannot depend on later lines,
+    /// otherwise switch to batch processing
+    fn process_line(&mut self, line: &ParsedLine) -> Result<()> {
+        let incremental = match self.state {
+            DecoderState::Initial => Self::is_key_value_line(line),
+            DecoderState::SimpleObject => line.depth == 0,
+            DecoderState::ArrayMode | DecoderState::Finished => false,
+        };
+        let content = &line.content;
 
-        // Single primitive value
-        self.state = DecoderState::Finished;
-        Ok(Some(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(line.content.trim())?,
-        }))
-    }
+        if incremental && parse_array_header_line(content, DEFAULT_DELIMITER)?.is_none() {
+            let (key, end, was_quoted) = parse_key_token(content, 0)?;
+            let rest = content[end..].trim();
 
-    /// Process a line in simple object mode
-    fn process_simple_object_line(
-        &mut self,
-        line: ParsedLine,
-        base_depth: Depth,
-    ) -> Result<Option<JsonStreamEvent>> {
-        let current_depth = line.depth;
-
-        // Handle depth changes - emit EndObject for decreased depth
-        if let Some(last_depth) = self.last_depth
-            && current_depth < last_depth
-        {
-            // Pop contexts until we match the current depth
-            while let Some(&obj_depth) = self.context_stack.last() {
-                if obj_depth >= current_depth && obj_depth > base_depth {
-                    self.context_stack.pop();
-                    // Emit EndObject for closed nested object
-                    self.event_queue.push_back(JsonStreamEvent::EndObject);
-                } else {
-                    break;
+            // A key without an inline value may open nested content
+            if !rest.is_empty() {
+                let value = parse_primitive_token(rest)?;
+                if self.state == DecoderState::Initial {
+                    self.state = DecoderState::SimpleObject;
+                    self.emit(JsonStreamEvent::StartObject);
                 }
+                self.emit(JsonStreamEvent::Key { key, was_quoted });
+                self.emit(JsonStreamEvent::Primitive { value });
+                return Ok(());
             }
         }
 
-        // Check if this line starts an array
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Switch to array mode for batch processing
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            // Return any pending EndObject events first
-            return Ok(self.event_queue.pop_front());
-        }
-
-        // Process key-value line
-        self.process_key_value_line(&line)?;
-        self.last_depth = Some(current_depth);
-
-        Ok(self.event_queue.pop_front())
+        self.state = DecoderState::ArrayMode;
+        Ok(())
     }
 
-    /// Process a key-value line and queue events
-    fn process_key_value_line(&mut self, line: &ParsedLine) -> Result<()> {
-        let content = &line.content;
-
-        // Handle list items specially
-        if content.starts_with(LIST_ITEM_PREFIX) {
-            // List items indicate we need batch processing for proper array handling
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
-            return Ok(());
-        }
-
-        // Parse key-value
-        let (key, end, is_quoted) = parse_key_token(content, 0)?;
-        let rest = content[end..].trim();
-
-        if rest.is_empty() {
-            // Key without value - nested content follows
-            // We can't know yet if it's an array or object, so switch to batch mode
-            // This ensures correct Start{Array,Object} emission
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
-            return Ok(());
-        }
-
-        // Key with inline value - can emit incrementally
-        self.event_queue.push_back(JsonStreamEvent::Key {
-            key,
-            was_quoted: is_quoted,
-        });
-        self.event_queue.push_back(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(rest)?,
-        });
-
-        Ok(())
+    /// Queue an incrementally decoded event
+    fn emit(&mut self, event: JsonStreamEvent) {
+        self.event_queue.push_back(event);
+        self.emitted += 1;
     }
 
     /// Check if a line is a key-value line
@@ -305,43 +212,27 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
 
     /// Finalize decoding when all lines are read
     fn finalize(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // If we have buffered lines (array mode), do batch processing
-        if !self.line_buffer.is_empty() || self.state == DecoderState::ArrayMode {
+        if self.state == DecoderState::ArrayMode {
             return self.batch_decode_remaining();
         }
 
-        // Close any remaining open object contexts
-        while self.context_stack.pop().is_some() {
-            self.event_queue.push_back(JsonStreamEvent::EndObject);
-        }
-
         // If we haven't emitted anything for an empty document
         if self.state == DecoderState::Initial {
-            self.state = DecoderState::Finished;
             self.event_queue.push_back(JsonStreamEvent::StartObject);
-            self.event_queue.push_back(JsonStreamEvent::EndObject);
-        } else {
-            self.state = DecoderState::Finished;
         }
+        self.event_queue.push_back(JsonStreamEvent::EndObject);
+        self.state = DecoderState::Finished;
 
         Ok(self.event_queue.pop_front())
     }
 
     /// Fall back to batch decoding for complex structures
+    ///
+    /// The whole input is decoded again so that line numbers, blank lines and
+    /// nesting are those of the document, and the events that were already
+    /// emitted incrementally (a prefix of its events) are skipped.
     fn batch_decode_remaining(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // Collect all remaining lines (capture values before borrowing scan_state)
-        let indent_size = self.indent_size();
-        let strict = self.strict();
-        for raw_line in self.lines.by_ref() {
-            if let Some(line) =
-                parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?
-            {
-                self.line_buffer.push(line);
-            }
-        }
-
-        // Use sync decoder on buffered lines
-        let raw_lines: Vec<String> = self.line_buffer.iter().map(|p| p.raw.clone()).collect();
+        let raw_lines = std::mem::take(&mut self.line_buffer);
 
         let events = decoder_impl::decode_stream_sync(
             raw_lines,
@@ -351,10 +242,9 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             }),
         )?;
 
-        // Queue all events
-        self.event_queue.extend(events);
-        self.line_buffer.clear();
-        self.context_stack.clear();
+        // Queue the remaining events
+        self.event_queue
+            .extend(events.into_iter().skip(self.emitted));
         self.state = DecoderState::Finished;
 
         Ok(self.event_queue.pop_front())
@@ -376,7 +266,12 @@ impl<I: Iterator<Item = String> + Unpin> Stream for AsyncDecodeStream<I> {
                     }
                     // Not done yet, continue processing
                 }
-                Err(e) => return Poll::Ready(Some(Err(e))),
+                Err(e) => {
+                    // An error ends the stream
+                    self.event_queue.clear();
+                    self.state = DecoderState::Finished;
+                    return Poll::Ready(Some(Err(e)));
+                }
             }
         }
     }
-- 
2.43.0


From ccff1478194aab5b98458c70347bdb5f8fce3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 3/5] fix: reject lines left unread at the end of a strict
 decode

In strict mode a line that belonged to nothing (content after a root array, a
line indented too deep, a bare '-' beyond the declared list length) ended the
decode early and everything from there on was dropped without an error.
---
 src/decode/decoders.rs   |  4 +++-
 src/decode/validation.rs | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/decode/decoders.rs b/src/decode/decoders.rs
index a72bb42..596d0ca 100644
--- a/src/decode/decoders.rs
+++ b/src/decode/decoders.rs
@@ -8,7 +8,7 @@ use crate::decode::scanner::{
 };
 use crate::decode::validation::{
     assert_expected_count, validate_no_blank_lines_in_range, validate_no_extra_list_items,
-    validate_no_extra_tabular_rows,
+    validate_no_extra_tabular_rows, validate_no_unread_lines,
 };
 use crate::error::{Result, ToonError};
 use crate::options::DecodeStreamOptions;
@@ -58,6 +58,7 @@ pub fn decode_stream_sync(
     {
         cursor.advance_sync();
         decode_array_from_header_sync(&mut events, header_info, &mut cursor, 0, context)?;
+        validate_no_unread_lines(cursor.peek_sync(), context.strict)?;
         return Ok(events);
     }
 
@@ -85,6 +86,7 @@ pub fn decode_stream_sync(
         decode_key_value_sync(&mut events, &line.content, &mut cursor, 0, context)?;
     }
 
+    validate_no_unread_lines(cursor.peek_sync(), context.strict)?;
     events.push(JsonStreamEvent::EndObject);
     Ok(events)
 }
diff --git a/src/decode/validation.rs b/src/decode/validation.rs
index 30e0ffe..ecf1c8f 100644
--- a/src/decode/validation.rs
+++ b/src/decode/validation.rs
@@ -71,6 +71,21 @@ pub fn validate_no_extra_tabular_rows(
     Ok(())
 }
 
+/// Validate that decoding consumed every line of the document.
+///
+/// # Errors
+///
+/// Returns an error in strict mode when a line is left that belongs to nothing.
+pub fn validate_no_unread_lines(next_line: Option<&ParsedLine>, strict: bool) -> Result<()> {
+    if strict && let Some(line) = next_line {
+        return Err(ToonError::message(format!(
+            "Line {}: Unexpected content \"{}\"",
+            line.line_number, line.content
+        )));
+    }
+    Ok(())
+}
+
 /// Validate that no blank lines appear within the specified range.
 ///
 /// # Errors
-- 
2.43.0


From 69b21255d31e52fd1a1579c82131a36f6157530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 4/5] fix: a quoted value containing [N]: after an unquoted key
 is not an array header

---
 src/decode/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 33af40a..67fd04c 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -50,7 +50,9 @@ pub fn parse_array_header_line(
             .find(OPEN_BRACKET)
             .map(|idx| key_end + idx)
     } else {
-        content.find(OPEN_BRACKET)
+        // An unquoted key ends at the first colon: a bracket after it is part of the value.
+        let key_end = content.find(COLON).unwrap_or(content.len());
+        content[..key_end].find(OPEN_BRACKET)
     };
 
     let Some(bracket_start) = bracket_start else {
-- 
2.43.0


From 58d8b893ea08510c2f12ee57b46307da48236b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 5/5] fix: a closing brace inside a quoted field name does not
 end the field list

---
 src/decode/parser.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 67fd04c..3555331 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -68,15 +68,19 @@ pub fn parse_array_header_line(
     let brace_start = content[bracket_end + 1..]
         .find(OPEN_BRACE)
         .map(|idx| bracket_end + 1 + idx);
+    // A closing brace inside a quoted field name does not end the field list.
+    let brace_close = brace_start.and_then(|start| {
+        find_unquoted_char(content, CLOSE_BRACE, start)
+            .or_else(|| content[start..].find(CLOSE_BRACE).map(|idx| start + idx))
+    });
     let colon_after_bracket = content[bracket_end + 1..]
         .find(COLON)
         .map(|idx| bracket_end + 1 + idx);
 
     if let (Some(brace_start), Some(colon_after_bracket)) = (brace_start, colon_after_bracket)
         && brace_start < colon_after_bracket
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = brace_close
     {
-        let found_end = brace_start + found_end;
         brace_end = found_end + 1;
     }
 
@@ -116,22 +120,20 @@ pub fn parse_array_header_line(
     let mut fields: Option<Vec<FieldName>> = None;
     if let Some(brace_start) = brace_start
         && brace_start < colon_index
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = brace_close
+        && found_end < colon_index
     {
-        let found_end = brace_start + found_end;
-        if found_end < colon_index {
-            let fields_content = &content[brace_start + 1..found_end];
-            let parsed_fields = parse_delimited_values(fields_content, delimiter)
-                .into_iter()
-                .map(|field| {
-                    let trimmed = field.trim();
-                    let was_quoted = trimmed.starts_with(DOUBLE_QUOTE);
-                    let name = parse_string_literal(trimmed)?;
-                    Ok(FieldName { name, was_quoted })
-                })
-                .collect::<Result<Vec<_>>>()?;
-            fields = Some(parsed_fields);
-        }
+        let fields_content = &content[brace_start + 1..found_end];
+        let parsed_fields = parse_delimited_values(fields_content, delimiter)
+            .into_iter()
+            .map(|field| {
+                let trimmed = field.trim();
+                let was_quoted = trimmed.starts_with(DOUBLE_QUOTE);
+                let name = parse_string_literal(trimmed)?;
+                Ok(FieldName { name, was_quoted })
+            })
+            .collect::<Result<Vec<_>>>()?;
+        fields = Some(parsed_fields);
     }
 
     Ok(Some(ArrayHeaderParseResult {
-- 
2.43.0

