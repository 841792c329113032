From 216642d9ffdeff4376e16b65b19a7dcf64d15332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:06 +0000
Subject: [PATCH 01/33] fix: input: a huge step to the right overflowed instead
 of stopping at the end

---
 ogma-shell/interface/input.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/interface/input.rs b/ogma-shell/interface/input.rs
index dcc1c42..b2f244d 100644
--- a/ogma-shell/interface/input.rs
+++ b/ogma-shell/interface/input.rs
@@ -89,7 +89,7 @@ impl InputBuffer {
 
     pub fn move_right(&mut self, by: Mvmt) {
         let n = mv_magnitude(by, self.buf[self.pos..].iter().copied());
-        self.pos = std::cmp::min(self.pos + n, self.buf.len());
+        self.pos = std::cmp::min(self.pos.saturating_add(n), self.buf.len());
     }
 
     pub fn buffer_changed(&self) -> bool {
-- 
2.43.0


From 8eb0f710554fc52c4fa93aeebf55637794adf7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:43 +0000
Subject: [PATCH 02/33] fix: completions: answers to a dismissed request
 reappeared as suggestions

---
 ogma-shell/interface/completions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/completions.rs b/ogma-shell/interface/completions.rs
index 1d34d4a..03b462f 100644
--- a/ogma-shell/interface/completions.rs
+++ b/ogma-shell/interface/completions.rs
@@ -44,7 +44,6 @@ impl Completions {
     }
 
     pub fn request(&mut self, input_buf: &InputBuffer) {
-        self.changeset = self.changeset.wrapping_add(1);
         self.reset();
 
         let input = input_buf.buffer(..);
@@ -77,6 +76,8 @@ impl Completions {
     }
 
     pub fn reset(&mut self) {
+        // anything still being worked on is for the request that is dismissed here
+        self.changeset = self.changeset.wrapping_add(1);
         self.items.clear();
         self.highlighted = None;
     }
-- 
2.43.0


From 361ef56363b6a7934d7f597b67d8dc7b2710d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 03/33] fix: shell: a panicking evaluation left the shell
 computing for ever

The sender of the 'done' channel was only borrowed by the compute thread, so it
was never dropped when the evaluation panicked and the wait loop never ended.
---
 ogma-shell/interface/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 4d50597..35d1670 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -691,6 +691,7 @@ where
             .builder()
             .name("ogma-shell-compute-thread".to_string())
             .spawn(|_| {
+                let donetx = donetx; // dropped, and so noticed, if f panics
                 let r = f(input, tabid, cancelsw.clone());
                 donetx.send(()).ok();
                 r
-- 
2.43.0


From 6fa98e58bf11f58c66b6e5d29f7e6a13a1300276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 04/33] fix: shell: an empty tab title crashed the first draw

---
 ogma-shell/interface/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 35d1670..86f6f82 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -533,7 +533,9 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     // title
     let title = convert_coloured_str(&state.title, std::usize::MAX, thm)
         .lines
-        .remove(0);
+        .into_iter()
+        .next()
+        .unwrap_or_default();
     let border = Block::default().title(title).borders(Borders::TOP);
     frame.render_widget(border, area);
     let area = reduce_top_margin(area, 1);
-- 
2.43.0


From 344085082b9a45b7482b082005fe02db6ba1d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 05/33] fix: shell: keys after Enter in the same batch were
 lost or evaluated

A batch of events was reduced to its biggest result, so keys after an Enter
became part of the evaluated line, two Enters evaluated once, events after the
last tab was closed crashed, and a key after an edit acted on the suggestions
of the line before it. Events now act one after the other; an evaluation or the
end of the shell leaves the rest of the batch for the next cycle.
---
 ogma-shell/interface/mod.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 86f6f82..0cc5a3f 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -251,23 +251,25 @@ where
     E: Iterator<Item = Event>,
     F: FnMut(Input, TabId, Cancelled) -> ConfigUpdate + Send,
 {
-    // read events
-    let r = events
-        .by_ref()
-        .map(|ev| process_event(ev, state))
-        .max()
-        .unwrap_or(EventResult::None);
+    // read events, one after the other: each acts on what the ones before it led to.
+    // an evaluation (or the end) leaves the remaining events for later
+    let mut r = EventResult::None;
+    while r < EventResult::Eval {
+        let ev = match events.next() {
+            Some(ev) => ev,
+            None => break,
+        };
+        let x = process_event(ev, state);
+        if x == EventResult::InputChanged {
+            state.cmpls_drawn = false;
+            let state = state.tab_state();
+            state.completions.request(&state.input);
+        }
+        r = cmp::max(r, x);
+    }
 
     // handle completions
     let r = match r {
-        EventResult::InputChanged => {
-            {
-                state.cmpls_drawn = false;
-                let state = state.tab_state();
-                state.completions.request(&state.input);
-            }
-            EventResult::InputChanged
-        }
         EventResult::None if state.tab_state().completions.has() && !state.cmpls_drawn => {
             state.cmpls_drawn = true;
             EventResult::Redraw
-- 
2.43.0


From 7beead627774a07cdc430245adb00d97cd354b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 06/33] fix: shell: suggestions arriving after the first ones
 were drawn stayed invisible

---
 ogma-shell/interface/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 0cc5a3f..eb8eefd 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -286,7 +286,9 @@ where
         }
         EventResult::Redraw | EventResult::InputChanged => draw(term, state)?,
         EventResult::None => {
-            if !state.tab_state().completions.recv() {
+            if state.tab_state().completions.recv() {
+                state.cmpls_drawn = false;
+            } else {
                 std::thread::sleep(SLEEP);
             }
         }
-- 
2.43.0


From a9273cbcd2b6939fb4ed10e080580f06e8799aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 07/33] fix: shell: a prompt wider than the terminal crashed
 the drawing

---
 ogma-shell/interface/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index eb8eefd..ace5c95 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -547,7 +547,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     // prompt
     let prompt_txt = Text::from(&*state.prompt);
     let prompt_area = Rect {
-        width: prompt_txt.width() as u16,
+        width: cmp::min(prompt_txt.width(), area.width as usize) as u16,
         ..area
     };
     let area = Rect {
-- 
2.43.0


From bfe7602727d445bb5d6dc53c12339a3b6b3d157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:26 +0000
Subject: [PATCH 08/33] fix: shell: the cursor was misplaced after wide
 characters and blank lines

The cursor was placed by counting characters where the text takes columns, and
only one of several line ends in front of it was counted.
---
 ogma-shell/interface/mod.rs | 43 ++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index ace5c95..da4a4ce 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -559,34 +559,31 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
 
     // input -- calculates cursor and completion position here as well
     let input = state.input_text(area.width as usize, thm);
-    let newlines_offset = sum_newline_chars(&state.input);
-    let ends_nl = |range| {
+    // line ends right in front of a position
+    let line_ends = |range| {
         state
             .input
             .chars(range)
-            .last()
-            .map(|&x| x == '\n')
-            .unwrap_or(false)
+            .iter()
+            .rev()
+            .take_while(|&&x| x == '\n')
+            .count()
     };
     let (cursorx, cursory) =
-        calculate_cursor_offset(&input, state.input.ch_pos().saturating_sub(newlines_offset));
+        calculate_cursor_offset(&input, columns(state.input.chars(..state.input.ch_pos())));
     // bit of a hack adjustment to place the cursor and cmpls window correctly.
     // is a bit wacky with multiline input
-    let (cursorx, cursory) = if ends_nl(..state.input.ch_pos()) {
-        (0, cursory + 1)
-    } else {
-        (cursorx, cursory)
+    let (cursorx, cursory) = match line_ends(..state.input.ch_pos()) {
+        0 => (cursorx, cursory),
+        n => (0, cursory + n as u16),
     };
 
     let cmplx = if draw_cmpls {
-        if ends_nl(..state.completions.word_pos()) {
+        if line_ends(..state.completions.word_pos()) > 0 {
             0
         } else {
-            calculate_cursor_offset(
-                &input,
-                state.completions.word_pos().saturating_sub(newlines_offset),
-            )
-            .0
+            let before = state.input.chars(..state.completions.word_pos());
+            calculate_cursor_offset(&input, columns(before)).0
         }
     } else {
         0
@@ -754,17 +751,13 @@ fn text_block(text: Text, rect: Rect) -> (Rect, Paragraph, Rect) {
     (area1, p, area2)
 }
 
-/// Sums newlines characters up to cursor position of input.
-/// This should be offset against character and word positions to get correct cursor positions.
-fn sum_newline_chars(input: &InputBuffer) -> usize {
-    input
-        .chars(..input.ch_pos())
-        .iter()
-        .filter(|&&c| c == '\r' || c == '\n')
-        .map(|x| x.len_utf8())
-        .sum()
+/// The columns the characters take when drawn (line ends take none).
+fn columns(chars: &[char]) -> usize {
+    use unicode_width::*;
+    chars.iter().map(|c| c.width().unwrap_or(0)).sum()
 }
 
+/// Where in `text` is the position that has `chpos` columns before it.
 fn calculate_cursor_offset(text: &Text, chpos: usize) -> (u16, u16) {
     let mut x = 0;
     let mut y = 0;
-- 
2.43.0


From 0222fc172d0eb4aada17e4b3e5674867fa5d49e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 09/33] fix: shell: text after a tab character could be cut off
 at the right edge

A tab is drawn as four spaces but counted as nothing when lines are wrapped.
---
 ogma-shell/interface/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index da4a4ce..f261ecd 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -879,7 +879,10 @@ fn convert_coloured_str(s: &str, width: usize, theme: u8) -> Text<'static> {
             let mut i = 0;
             let mut start = 0;
             for ch in slice.text.chars() {
-                let chw = ch.width().unwrap_or(0);
+                let chw = match ch {
+                    '\t' => 4, // drawn as spaces
+                    ch => ch.width().unwrap_or(0),
+                };
                 w += chw;
                 if w > width {
                     spans.push(cnv_span(&slice.text[start..i], slice, theme));
-- 
2.43.0


From 91ca37ec840775bb864c6d4247389ffdc123ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 10/33] fix: shell: scrolling through very long outputs crashed
 or could not reach the end

The scroll position and the height of the outputs were squeezed into 16 bits.
---
 ogma-shell/interface/outputs.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/ogma-shell/interface/outputs.rs b/ogma-shell/interface/outputs.rs
index 1c7628a..833c2d0 100644
--- a/ogma-shell/interface/outputs.rs
+++ b/ogma-shell/interface/outputs.rs
@@ -7,7 +7,7 @@ pub struct Outputs {
     items: VecDeque<Output>,
     limit: usize,
     cached_width: u16,
-    scroll: u16,
+    scroll: usize,
 }
 
 #[derive(Clone)]
@@ -60,11 +60,14 @@ impl Outputs {
     }
 
     pub fn as_paragraph(&self) -> Paragraph {
-        let mut txt = Text::default();
-        for output in self.iter().rev() {
-            txt.extend(output.clone());
-        }
-        Paragraph::new(txt).scroll((self.scroll, 0))
+        let lines: Vec<_> = self
+            .iter()
+            .rev()
+            .flat_map(|output| output.lines.iter())
+            .skip(self.scroll)
+            .cloned()
+            .collect();
+        Paragraph::new(Text::from(lines))
     }
 
     pub fn scroll(&mut self, lines: i32) {
@@ -73,13 +76,13 @@ impl Outputs {
             Ordering::Equal => (),
             Ordering::Greater => {
                 // increase scroll (scroll down)
-                let lines: u16 = lines.try_into().unwrap();
-                let h = self.height().saturating_sub(1) as u16;
+                let lines: usize = lines.try_into().unwrap();
+                let h = self.height().saturating_sub(1);
                 self.scroll = min(self.scroll.saturating_add(lines), h);
             }
             Ordering::Less => {
                 // decrease scroll (scroll up)
-                let lines: u16 = (-lines).try_into().unwrap();
+                let lines: usize = (-lines).try_into().unwrap();
                 self.scroll = self.scroll.saturating_sub(lines);
             }
         }
@@ -111,7 +114,7 @@ impl Widget for &Outputs {
 }
 
 /// Returns the location of the scroll.
-fn scroll_location(scroll_area: Rect, outputs_height: usize, scroll: u16) -> Rect {
+fn scroll_location(scroll_area: Rect, outputs_height: usize, scroll: usize) -> Rect {
     if outputs_height <= 1 {
         return scroll_area;
     }
-- 
2.43.0


From 978f8e02a5618ffeda98deb12ba5137072bcdcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:29 +0000
Subject: [PATCH 11/33] fix: shell: the input line was not wrapped anew when
 its width changed

After a resize (or a new prompt) the drawn line stayed as it was cut for the old
width until the next edit: text was cut off and the cursor off the screen.
---
 ogma-shell/interface/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index f261ecd..c6f5ee3 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -95,6 +95,7 @@ struct TabState {
     prompt: String,
     input: InputBuffer,
     input_cache: Text<'static>,
+    input_cached_for: (usize, u8), // width and theme
     outputs: Outputs,
     completions: Completions,
     decorationfn: DecorationFn,
@@ -103,7 +104,8 @@ struct TabState {
 
 impl TabState {
     fn input_text(&mut self, width: usize, theme: u8) -> Text<'static> {
-        if self.input.buffer_changed() {
+        if self.input.buffer_changed() || self.input_cached_for != (width, theme) {
+            self.input_cached_for = (width, theme);
             let pos = self.input.buf_pos();
             let i = (self.decorationfn)(self.input.buffer(..), pos);
             self.input_cache = convert_coloured_str(&i, width, theme);
@@ -197,6 +199,7 @@ fn init(config: Config, initial_width: u16) -> (TabState, EnterFn) {
         prompt,
         input: InputBuffer::new(),
         input_cache: Text::from(""),
+        input_cached_for: (0, 0),
         outputs,
         completions,
         decorationfn: decorate_input,
-- 
2.43.0


From 6592e9b1e80ad6a368a2ec8a3389820b2b5d7ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 12/33] fix: and/or short circuit on the first argument as well

---
 ogma/src/lang/impls/intrinsics/logic.rs |  4 ++--
 ogma/src/lang/impls/intrinsics/mod.rs   | 11 +++++------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/logic.rs b/ogma/src/lang/impls/intrinsics/logic.rs
index f61f89f..5cf04ac 100644
--- a/ogma/src/lang/impls/intrinsics/logic.rs
+++ b/ogma/src/lang/impls/intrinsics/logic.rs
@@ -22,7 +22,7 @@ fn and_help() -> HelpMessage {
 }
 
 fn and_intrinsic(blk: Block) -> Result<Step> {
-    variadic_intrinsic_in_agnostic::<bool, _>(blk, |prev, next| {
+    variadic_intrinsic_in_agnostic::<bool, _>(blk, true, |prev, next| {
         let x = prev && next;
         (x, !x) // short circuit if x is false
     })
@@ -141,7 +141,7 @@ fn or_help() -> HelpMessage {
 }
 
 fn or_intrinsic(blk: Block) -> Result<Step> {
-    variadic_intrinsic_in_agnostic::<bool, _>(blk, |prev, next| {
+    variadic_intrinsic_in_agnostic::<bool, _>(blk, false, |prev, next| {
         let x = prev || next;
         (x, x) // short-circuit if true!
     })
diff --git a/ogma/src/lang/impls/intrinsics/mod.rs b/ogma/src/lang/impls/intrinsics/mod.rs
index ab0ccd4..c1a0978 100644
--- a/ogma/src/lang/impls/intrinsics/mod.rs
+++ b/ogma/src/lang/impls/intrinsics/mod.rs
@@ -123,9 +123,9 @@ where
 /// Same as [`variadic_intrinsic_in_constrained`] but does not use the input as the first previous value.
 ///
 /// This makes it input agnostic.
-fn variadic_intrinsic_in_agnostic<T, F>(mut blk: Block, aggfn: F) -> Result<Step>
+fn variadic_intrinsic_in_agnostic<T, F>(mut blk: Block, init: T, aggfn: F) -> Result<Step>
 where
-    T: AsType + Into<Value> + 'static,
+    T: AsType + Into<Value> + Clone + Send + Sync + 'static,
     T: TryFrom<Value, Error = Error>,
     F: Fn(T, T) -> (T, bool) + Send + Sync + 'static,
 {
@@ -154,11 +154,10 @@ where
     };
 
     blk.eval_o(move |input, cx| {
-        // we know arg.len() > 0
-        let mut prev: T = args[0].resolve(|| input.clone(), &cx)?.try_into()?;
+        // start from the identity value, such that the _first_ argument can short circuit as well
+        let mut prev: T = init.clone();
 
-        // skip the first one -- already computed
-        for arg in &args[1..] {
+        for arg in &args {
             let next: T = arg.resolve(|| input.clone(), &cx)?.try_into()?;
             let (x, exit) = aggfn(prev, next);
             prev = x;
-- 
2.43.0


From cae342d97800361c9b89b1ac224115cd7baed111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 13/33] fix: dedup does not remove a first row which matches
 the header

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 6452490..615fff4 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -258,7 +258,9 @@ fn dedup_table_intrinsic(mut blk: Block) -> Result<Step> {
         };
         // we need to own the vector for .dedup function
         let mut t = (*table).clone().into_raw();
-        t.dedup_by(|a, b| cols.iter().all(|&c| a[c] == b[c]));
+        // the first comparison is against the header, which is not a row to de-duplicate
+        let mut hdr = true;
+        t.dedup_by(|a, b| !mem::take(&mut hdr) && cols.iter().all(|&c| a[c] == b[c]));
 
         cx.done_o(Table::from(InnerTable::from(t)))
     })
-- 
2.43.0


From 0b877f5632d9697065d7fea750776bdfea3c66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 14/33] fix: sort-by on an empty table does not panic

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 615fff4..30390fb 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -1473,7 +1473,7 @@ where
 {
     let mut err = None;
     // sort values using a comparer
-    values[1..].sort_by(|a, b| {
+    values.get_mut(1..).unwrap_or_default().sort_by(|a, b| {
         // lhs is `a`, rhs is `b`
         match binop.eval(a.1.clone(), b.1.clone(), cx) {
             Ok(ord) => ord,
-- 
2.43.0


From e6093c14f92bcfcf23b42b608c4a12e2cc8f3a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 15/33] fix: skip and nth accept the largest count without
 overflowing

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 2 +-
 ogma/src/lang/impls/intrinsics/pipeline.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 30390fb..5e570c7 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -1317,7 +1317,7 @@ fn skip_table_intrinsic(mut blk: Block) -> Result<Step> {
             let rows = table
                 .rows()
                 .take(1)
-                .chain(table.rows().skip(count + 1))
+                .chain(table.rows().skip(1).skip(count))
                 .map(|x| x.cloned());
             let mut t = ::table::Table::new();
             t.add_rows(rows);
diff --git a/ogma/src/lang/impls/intrinsics/pipeline.rs b/ogma/src/lang/impls/intrinsics/pipeline.rs
index ee3baaa..6bdee21 100644
--- a/ogma/src/lang/impls/intrinsics/pipeline.rs
+++ b/ogma/src/lang/impls/intrinsics/pipeline.rs
@@ -537,7 +537,7 @@ fn nth_table_intrinsic(mut blk: Block) -> Result<Step> {
             .resolve(|| table.clone(), &cx)
             .and_then(|v| cnv_num_to_uint::<usize>(v, &n.tag))?;
         let table = Table::try_from(table)?;
-        if nth + 1 >= table.rows_len() {
+        if nth >= table.rows_len().saturating_sub(1) {
             return Err(Error::eval(
                 &n.tag,
                 "index is outside table bounds",
-- 
2.43.0


From 4d134df0d55c4e8e25fa60901b3fcdc9d3bc6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:07 +0000
Subject: [PATCH 16/33] fix: binding one name twice in a let with different
 types is an error, not a panic

---
 ogma/src/eng/blk.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ogma/src/eng/blk.rs b/ogma/src/eng/blk.rs
index a2c7c15..5fd0715 100644
--- a/ogma/src/eng/blk.rs
+++ b/ogma/src/eng/blk.rs
@@ -156,10 +156,18 @@ impl<'a> Block<'a> {
         match &ag[arg.idx()] {
             astgraph::AstNode::Var(var) => match arg.op(ag).next(ag) {
                 Some(next) => lg
-                    .new_var(next.idx(), Str::new(var.str()), ty, var.clone())
+                    .new_var(next.idx(), Str::new(var.str()), ty.clone(), var.clone())
                     .map_err(|chg| {
                         chgs.chgs.push(chg.into());
                         Error::update_locals_graph(var)
+                    })
+                    .and_then(|v| match v.ty() == &ty {
+                        true => Ok(v),
+                        // the same block has already bound this name with another type
+                        false => Err(Error {
+                            hard: true,
+                            ..Error::unexp_arg_output_ty(v.ty(), &ty, var)
+                        }),
                     }),
                 None => Ok(Variable::noop(var.clone(), ty)),
             },
-- 
2.43.0


From 71b2a26d670c9c457fe8177c246dccd6154b8240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:16 +0000
Subject: [PATCH 17/33] fix: concatenating a wider table without rows does not
 panic

---
 ogma/src/lang/impls/intrinsics/arithmetic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ogma/src/lang/impls/intrinsics/arithmetic.rs b/ogma/src/lang/impls/intrinsics/arithmetic.rs
index f22c4c2..101195f 100644
--- a/ogma/src/lang/impls/intrinsics/arithmetic.rs
+++ b/ogma/src/lang/impls/intrinsics/arithmetic.rs
@@ -147,6 +147,9 @@ fn add_table_by_row(mut prev: Table, next: Table, intersect: bool) -> Table {
         } else {
             table.add_rows(next.rows().skip(1).map(|x| x.cloned()));
             if nc > pc {
+                // without any rows to add, the cols have not been extended yet
+                let c = table.cols_len();
+                table.add_cols(next.cols().skip(c).map(|x| x.take(1).cloned()));
                 // name the added cols
                 for col in pc..nc {
                     if let Some(h) = table
-- 
2.43.0


From e4c415de385820cbeb9b86b6906a26be1cfdc7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:30 +0000
Subject: [PATCH 18/33] fix: a typed definition is used even when an untyped
 one of the same name exists

---
 ogma/src/eng/graphs/tygraph.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ogma/src/eng/graphs/tygraph.rs b/ogma/src/eng/graphs/tygraph.rs
index 4d2eda6..f7aa9b3 100644
--- a/ogma/src/eng/graphs/tygraph.rs
+++ b/ogma/src/eng/graphs/tygraph.rs
@@ -287,14 +287,14 @@ impl TypeGraph {
             .collect::<Vec<_>>();
         let is_only_def = all_defs.len() == 1;
 
-        // can only link op to def if there is no type key
-        if is_keyed_none {
+        // can only link op to def if there is no type key, and there is not a typed alternative
+        if is_keyed_none && is_only_def {
             // flow the input of the op into the input of this Def
             self.g.add_edge(op, def, Flow::II);
         }
 
-        // can only link def to op if there is no type key or if only def
-        if is_keyed_none || is_only_def {
+        // can only link def to op if only def
+        if is_only_def {
             // flow the output of the Def into the Op
             self.g.add_edge(def, op, Flow::OO);
         }
-- 
2.43.0


From 3274edfffc3fb8ced46e80d95de7d8afaeab6b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 19/33] fix: let in a definition body shadows an expression
 parameter instead of binding in the caller

---
 ogma/src/eng/blk.rs                        | 10 ++++++++++
 ogma/src/lang/impls/intrinsics/pipeline.rs |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ogma/src/eng/blk.rs b/ogma/src/eng/blk.rs
index 5fd0715..2f82945 100644
--- a/ogma/src/eng/blk.rs
+++ b/ogma/src/eng/blk.rs
@@ -103,6 +103,16 @@ impl<'a> Block<'a> {
         self.args.get(0).copied()
     }
 
+    /// Pop the next argument, returning its node **as written**.
+    ///
+    /// Unlike [`ArgBuilder::node`] this does not follow an expression parameter to the callsite's
+    /// argument, which matters if the argument names a variable to bind.
+    pub fn next_arg_node(&mut self) -> Result<graphs::ArgNode> {
+        let node = self.peek_next_arg_node();
+        self.next_arg()
+            .map(|arg| node.unwrap_or_else(|| arg.node()))
+    }
+
     /// Assert that this operation will be adding variables.
     ///
     /// This should be called early on to flag to the compiler that it cannot eagerly seal this
diff --git a/ogma/src/lang/impls/intrinsics/pipeline.rs b/ogma/src/lang/impls/intrinsics/pipeline.rs
index 6bdee21..d680652 100644
--- a/ogma/src/lang/impls/intrinsics/pipeline.rs
+++ b/ogma/src/lang/impls/intrinsics/pipeline.rs
@@ -408,7 +408,7 @@ fn let_intrinsic(mut blk: Block) -> Result<Step> {
         let mut bindings = Vec::with_capacity(blk.args_len() / 2);
         while blk.args_len() > 1 {
             let e = blk.next_arg()?.supplied(None)?.concrete()?;
-            let argnode = blk.next_arg()?.node();
+            let argnode = blk.next_arg_node()?;
             let v = blk.create_var_ref(argnode, e.out_ty().clone())?;
             bindings.push((v, e));
         }
@@ -431,7 +431,7 @@ fn let_intrinsic(mut blk: Block) -> Result<Step> {
     let ty = blk.in_ty().clone();
 
     let trailing_binding = if blk.args_len() > 0 {
-        let argnode = blk.next_arg()?.node();
+        let argnode = blk.next_arg_node()?;
         let v = blk.create_var_ref(argnode, ty.clone())?;
         Some(v)
     } else {
-- 
2.43.0


From 9c32fb51d17761cc439fa8df774cf244003a2796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:42 +0000
Subject: [PATCH 20/33] fix: conflicting types met in the type graph are an
 error, not a panic

---
 ogma/src/eng/graphs/tygraph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ogma/src/eng/graphs/tygraph.rs b/ogma/src/eng/graphs/tygraph.rs
index f7aa9b3..8c5930f 100644
--- a/ogma/src/eng/graphs/tygraph.rs
+++ b/ogma/src/eng/graphs/tygraph.rs
@@ -773,8 +773,8 @@ impl Knowledge {
             // An any source can flow into an Any or Inferred dest
             (Any, Any | Inferred(_)) => Ok(()),
 
-            // Cannot flow if two known unmatching types
-            (Known(t1), Known(t2)) if t1 != t2 => Err(ConflictingKnown {
+            // Cannot flow into a known unmatching type
+            (Known(t1) | Obliged(t1), Known(t2)) if t1 != t2 => Err(ConflictingKnown {
                 src: t1.clone(),
                 dst: t2.clone(),
             }),
@@ -805,6 +805,10 @@ impl Knowledge {
             // Cannot flow if trying to flow an Inferred into an Obliged or Known,
             // even if the types match.
             (Inferred(ts), Known(t2) | Obliged(t2)) if ts.contains(t2) => Err(OverpoweringInferred),
+            (Inferred(ts), Known(t2) | Obliged(t2)) => Err(UnmatchedInferred {
+                src: ts.clone(),
+                dst: TypesSet::single(t2.clone()),
+            }),
 
             (a, b) => todo!("have not handled flow: {:?} -> {:?}", a, b),
         }
-- 
2.43.0


From 8524ea3ec6991a961ca5049a06507086c625fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:04 +0000
Subject: [PATCH 21/33] fix: a wrong number of arguments in a call is an error
 even if a parameter is not used

---
 ogma/src/eng/comp/params.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ogma/src/eng/comp/params.rs b/ogma/src/eng/comp/params.rs
index deda3da..07a925e 100644
--- a/ogma/src/eng/comp/params.rs
+++ b/ogma/src/eng/comp/params.rs
@@ -101,7 +101,9 @@ pub(super) fn map_def_params_into_variables(
 
     let mut lg_chg = false;
 
-    for (idx, param) in params.iter().enumerate() {
+    // the number of arguments is checked upfront, even if the parameters cannot be mapped (yet)
+    let mut argnodes = Vec::with_capacity(params.len());
+    for idx in 0..params.len() {
         let idx = idx as u8;
         // point of failure
         let argnode = arg::pop(&mut args, idx, blk_tag).map_err(|_| {
@@ -127,7 +129,13 @@ pub(super) fn map_def_params_into_variables(
 
             Error::insufficient_args(blk_tag, idx, impl_)
         })?;
+        argnodes.push(argnode);
+    }
+
+    finalise_args(&args, ag)?;
 
+    for (idx, (param, argnode)) in params.iter().zip(argnodes).enumerate() {
+        let idx = idx as u8;
         if param.ty.is_expr() {
             // the parameter is lazy
             if let Err(chg) = map_lazy_param(compiler, argnode, defnode, param) {
@@ -144,8 +152,6 @@ pub(super) fn map_def_params_into_variables(
         }
     }
 
-    finalise_args(&args, ag)?;
-
     if lg_chg {
         return Ok(LocalInjection::LgChange);
     }
-- 
2.43.0


From bee523ca68b0c33412c832ae1137db2c2666ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 22/33] fix: no output type left to infer is an error, not a
 failed assertion

---
 ogma/src/eng/comp/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ogma/src/eng/comp/mod.rs b/ogma/src/eng/comp/mod.rs
index 37d7f50..bc1719b 100644
--- a/ogma/src/eng/comp/mod.rs
+++ b/ogma/src/eng/comp/mod.rs
@@ -395,12 +395,8 @@ impl<'d> Compiler<'d> {
                 }
                 Err(mut e) => {
                     // only set the infer output if tygraph is showing that it has multiple options
-                    if chgs.infer_output {
-                        let _unknown = self.tg[node.idx()].output.is_multiple();
-                        debug_assert!(
-                            _unknown,
-                            "if inferring the output node, expecting the TG output to be unknown"
-                        );
+                    // (there might be none left)
+                    if chgs.infer_output && self.tg[node.idx()].output.is_multiple() {
                         self.output_infer_opnodes.push(node);
                     }
 
-- 
2.43.0


From aba9fba2693e99f984ca9350770279077831353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:19 +0000
Subject: [PATCH 23/33] fix: a type's constructor can not overwrite a command,
 such a definition is refused instead of a panic

---
 ogma/src/lang/impls/mod.rs | 33 +++++++++++++++++++++++++++++++++
 ogma/src/lang/types.rs     |  9 +++++++--
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/ogma/src/lang/impls/mod.rs b/ogma/src/lang/impls/mod.rs
index 840e82c..50666bc 100644
--- a/ogma/src/lang/impls/mod.rs
+++ b/ogma/src/lang/impls/mod.rs
@@ -363,6 +363,39 @@ pub fn add_typedef_init_impls(impls: &mut Implementations, tydef: Arc<types::Typ
     }
 }
 
+/// Errors if an initialisation command of `tydef` would overwrite a command which is already defined
+/// (for any input), or if there are two of the same name.
+pub fn assert_typedef_init_impls_free(
+    impls: &Implementations,
+    tydef: &types::TypeDef,
+) -> Result<()> {
+    let ops = match tydef.structure() {
+        types::TypeVariant::Sum(variants) => variants
+            .iter()
+            .map(|v| (&v.name, format!("{}::{}", tydef.name(), v.name)))
+            .collect(),
+        types::TypeVariant::Product(_) => vec![(tydef.name(), tydef.name().to_string())],
+    };
+
+    let mut seen: HashSet<&str> = HashSet::default();
+    for (tag, op) in &ops {
+        if !seen.insert(op) || impls.iter_op(op).any(|x| x.ty.is_none()) {
+            return Err(Error {
+                cat: err::Category::Definitions,
+                desc: format!("can not define type `{}`", tydef.name()),
+                traces: vec![err::Trace::from_tag(
+                    tag,
+                    format!("the command `{}` is already defined", op),
+                )],
+                help_msg: Some("try defining your type with a different name".into()),
+                hard: true,
+            });
+        }
+    }
+
+    Ok(())
+}
+
 fn typedef_init(
     mut blk: Block,
     tydef: Arc<types::TypeDef>,
diff --git a/ogma/src/lang/types.rs b/ogma/src/lang/types.rs
index 2607649..6bc394c 100644
--- a/ogma/src/lang/types.rs
+++ b/ogma/src/lang/types.rs
@@ -305,7 +305,7 @@ impl Types {
         macro_rules! init {
             ($($id:ident, $ac:literal, $code:literal)|*) => {{
                 $(
-                let x = tys.insert_inner($code, Location::Ogma, None).unwrap();
+                let x = tys.insert_inner($code, Location::Ogma, None, |_| Ok(())).unwrap();
                 xs.push(x);
                 $id.set(match tys.map.get($ac).unwrap() {
                     Type::Def(x) => x.clone(),
@@ -327,6 +327,7 @@ impl Types {
         def: &str,
         loc: Location,
         help: Option<String>,
+        check: impl FnOnce(&TypeDef) -> Result<()>,
     ) -> Result<Arc<TypeDef>> {
         let def = lang::syntax::parse::definition_type(def, loc).map_err(|e| e.0)?;
         let ty = TypeDef::from_parsed_def(def, help, self)?;
@@ -349,6 +350,7 @@ impl Types {
                 hard: true,
             })
         } else {
+            check(&ty)?;
             let ty = Arc::new(ty);
             let name = Str::new(&ty.name);
             self.map.insert(name, Type::Def(ty.clone()));
@@ -378,7 +380,10 @@ impl Types {
         help: Option<String>,
         impls: &mut Implementations,
     ) -> Result<()> {
-        let ty = self.insert_inner(def, loc, help)?;
+        // the initialisation impls can not overwrite commands, nor one another
+        let ty = self.insert_inner(def, loc, help, |ty| {
+            lang::impls::assert_typedef_init_impls_free(impls, ty)
+        })?;
         lang::impls::add_typedef_init_impls(impls, ty);
         Ok(())
     }
-- 
2.43.0


From d48a5bfe991f1fbb22411b2aa653cea635b66455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:19 +0000
Subject: [PATCH 24/33] fix: text in a definition's body is not taken for a
 flag of def, def-ty's flags do not panic

---
 ogma/src/lang/defs.rs  | 124 ++++++++++++++++++++++++++---------------
 ogma/src/lang/types.rs |   4 ++
 2 files changed, 84 insertions(+), 44 deletions(-)

diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index 8d3beec..f01f418 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -299,13 +299,21 @@ pub fn process_definition<'a>(
     }
 }
 
+/// Is `flag` given to the `def` command itself? The flags come before any parameters, body, or pipe, text within
+/// these is part of the definition.
+fn has_flag(def: &str, flag: &str) -> bool {
+    def.split(['(', '{', '|', '\'', '"'])
+        .next()
+        .map_or(false, |head| head.split_whitespace().any(|x| x == flag))
+}
+
 fn process_impl<'a>(
     s: &'a str,
     loc: Location,
     help: Option<String>,
     defs: &mut Definitions,
 ) -> DefResult<'a> {
-    if s.contains("--help") {
+    if has_flag(s, "--help") {
         let help = HelpMessage {
             desc: "define a command that encapsulates an expression
 def has specialised syntax which takes variable params: ( )"
@@ -342,10 +350,10 @@ def has specialised syntax which takes variable params: ( )"
             ..HelpMessage::new("def")
         };
         Err(err::help_as_error(&help, None))
-    } else if s.contains(" --list") {
+    } else if has_flag(s, "--list") {
         let post = s.split_once(" | ").map(|x| x.1);
         Ok((Value::Tab(construct_def_table(defs)), post))
-    } else if s.contains(" --clear") {
+    } else if has_flag(s, "--clear") {
         defs.clear(false);
         Ok((Value::Nil, None))
     } else {
@@ -380,47 +388,39 @@ fn process_ty<'a>(
     help: Option<String>,
     defs: &mut Definitions,
 ) -> DefResult<'a> {
-    if s.contains("--help") {
-        todo!("need to create a def-ty help message");
-    //         let help = HelpMessage {
-    //             desc: "define a command that encapsulates an expression
-    // def has specialised syntax which takes variable params: ( )"
-    //                 .into(),
-    //             params: vec![
-    //                 HelpParameter::Required("name".into()),
-    //                 HelpParameter::Custom("([param1] [param2] [..args]) { expr }".into()),
-    //             ],
-    //             flags: vec![
-    //                 ("list", "list the definitions as a table"),
-    //                 (
-    //                     "load",
-    //                     "load persistent definitions from files in daedalus folder",
-    //                 ),
-    //                 ("clear", "clear all user defined definitions"),
-    //             ],
-    //             examples: vec![
-    //                 HelpExample {
-    //                     desc: "define a command that returns the number 5",
-    //                     code: "def num5 () { in 5 }",
-    //                 },
-    //                 HelpExample {
-    //                     desc: "list directory items that match a type",
-    //                     code: "def list (ty) { ls | filter = type $ty }",
-    //                 },
-    //                 HelpExample {
-    //                     desc: "pass through remaining arguments",
-    //                     code: "def a-name (first ..remaining) { foo $first $remaining }",
-    //                 },
-    //             ],
-    //         };
-    //         Err(help_as_error("def", &help))
-    } else if s.contains(" --list") {
-        todo!("need to create a listing of types")
-    //         Ok(Value::Tab(construct_def_table(defs)))
-    } else if s.contains(" --clear") {
-        todo!("need to handle clearing of types")
-    //         defs.clear(false);
-    //         Ok(Value::Nil)
+    if has_flag(s, "--help") {
+        let help = HelpMessage {
+            desc: "define a type, either a structure of fields or a choice of variants".into(),
+            params: vec![
+                HelpParameter::Required("name".into()),
+                HelpParameter::Custom("{ [field1:Ty] [field2:Ty] ... }".into()),
+                HelpParameter::Break,
+                HelpParameter::Required("name".into()),
+                HelpParameter::Custom(":: variant1 [{ fields }] | variant2 [{ fields }] | ...".into()),
+            ],
+            flags: vec![
+                ("list", "list the types as a table"),
+                ("clear", "clear all user defined definitions"),
+            ],
+            examples: vec![
+                HelpExample {
+                    desc: "define a point",
+                    code: "def-ty Point { x:Num y:Num }",
+                },
+                HelpExample {
+                    desc: "define a choice",
+                    code: "def-ty Weather :: Sunny | Rainy { mm:Num }",
+                },
+            ],
+            ..HelpMessage::new("def-ty")
+        };
+        Err(err::help_as_error(&help, None))
+    } else if has_flag(s, "--list") {
+        let post = s.split_once(" | ").map(|x| x.1);
+        Ok((Value::Tab(construct_type_table(defs)), post))
+    } else if has_flag(s, "--clear") {
+        defs.clear(false);
+        Ok((Value::Nil, None))
     } else {
         defs.types
             .insert(s, loc, help, &mut defs.impls)
@@ -448,6 +448,42 @@ fn assert_all_ops_defined(def: &ast::DefinitionImpl, defs: &Implementations) ->
     Ok(())
 }
 
+/// Construct a table comprising of the types in `defs`.
+fn construct_type_table(defs: &Definitions) -> Table {
+    use ::table::Entry::*;
+
+    let mut table = ::table::DataTable::new();
+    table.add_row(
+        ["name", "location", "line", "code"]
+            .iter()
+            .map(|x| Obj(Str::from(*x))),
+    );
+
+    let mut rows = defs
+        .types
+        .iter()
+        .map(|(name, ty)| {
+            let (loc, line, code) = match ty {
+                Type::Def(x) => {
+                    let (loc, line) = match &x.loc {
+                        Location::File(f, l) => (f.display().to_string(), Num((*l).into())),
+                        x => (x.to_string(), Nil),
+                    };
+                    (loc, line, Obj(Str::new(&x.src()["def-ty ".len()..])))
+                }
+                _ => (Location::Ogma.to_string(), Nil, Nil),
+            };
+            vec![Obj(Str::new(name)), Obj(loc.into()), line, code]
+        })
+        .collect::<Vec<_>>();
+
+    rows.sort_by(|x, y| x[0].partial_cmp(&y[0]).unwrap()); // sort by name column
+
+    table.add_rows(rows.into_iter().map(|x| x.into_iter()));
+
+    table.map_obj(Value::Str).into()
+}
+
 /// Construct a table comprising of the various definitions in `defs`.
 pub fn construct_def_table(defs: &Definitions) -> Table {
     use ::table::Entry::*;
diff --git a/ogma/src/lang/types.rs b/ogma/src/lang/types.rs
index 6bc394c..bb5c77c 100644
--- a/ogma/src/lang/types.rs
+++ b/ogma/src/lang/types.rs
@@ -483,6 +483,10 @@ impl TypeDef {
         &self.name
     }
 
+    pub fn src(&self) -> &str {
+        &self.src
+    }
+
     pub fn structure(&self) -> &TypeVariant {
         &self.ty
     }
-- 
2.43.0


From ead766d50880dd06a6a109b9babf82cc9e4a59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 25/33] fix: an implementation that can not be compiled does
 not make calls of the other implementations of that command fail

---
 ogma/src/common/err.rs          |  6 ++--
 ogma/src/eng/graphs/astgraph.rs | 59 ++++++++++++++++++++++++---------
 2 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/ogma/src/common/err.rs b/ogma/src/common/err.rs
index d32f325..0ade7e6 100644
--- a/ogma/src/common/err.rs
+++ b/ogma/src/common/err.rs
@@ -49,7 +49,7 @@ macro_rules! colourln {
 ///  |        ^^^^ short description
 /// --> help: help message
 /// ```
-#[derive(Debug, PartialEq, Eq, Default)]
+#[derive(Debug, Clone, PartialEq, Eq, Default)]
 pub struct Error {
     /// Category of error.
     pub cat: Category,
@@ -69,7 +69,7 @@ pub struct Error {
 }
 
 /// A single trace item for error messages.
-#[derive(Debug, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Trace {
     /// The defined location.
     pub loc: Location,
@@ -838,7 +838,7 @@ fn trace_code_lines(code: &str, start: usize, end: usize) -> Vec<(&str, usize, u
 
 // ###### STRUCTS ##############################################################
 /// Error categories.
-#[derive(Debug, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum Category {
     /// Internal error. These should not occur.
     Internal,
diff --git a/ogma/src/eng/graphs/astgraph.rs b/ogma/src/eng/graphs/astgraph.rs
index 3ba01ae..98951c0 100644
--- a/ogma/src/eng/graphs/astgraph.rs
+++ b/ogma/src/eng/graphs/astgraph.rs
@@ -292,7 +292,16 @@ impl AstGraph {
         let impls = defs.impls();
 
         if !impls.contains_op(op.str()) {
-            return Err(Error::op_not_found(&op, None, false, impls));
+            let err = Error::op_not_found(&op, None, false, impls);
+            if !self.within_def(opnode) {
+                return Err(err);
+            }
+
+            // the op is in the body of one of the implementations of a command, which might not be
+            // the one that is called. only calling it is an error.
+            let cmd = self.add_erroring_cmd(op, err);
+            self.0.add_edge(opnode_, cmd, Relation::Keyed(None));
+            return Ok(true);
         }
 
         let op_impls = impls.iter_op(op.str());
@@ -336,21 +345,27 @@ impl AstGraph {
                         .params
                         .iter()
                         .map(|p| Parameter::from_ast(p, tys))
-                        .collect::<Result<Vec<Parameter>>>()?;
-
-                    let cmd = self.0.add_node(AstNode::Def {
-                        expr: def.expr.tag.clone(),
-                        params,
-                    });
-                    let expr = self.flatten_expr(def.expr.clone(), chgs, defs)?;
-                    // link cmd to expr
-                    self.0.add_edge(cmd, expr, Relation::Normal);
-                    // add the id into the recursion detector
-                    if let Some(id) = id {
-                        recursion_detector.add_id(cmd, id);
+                        .collect::<Result<Vec<Parameter>>>();
+
+                    match params {
+                        // not an error unless it is this implementation that is called
+                        Err(e) => self.add_erroring_cmd(op.clone(), e),
+                        Ok(params) => {
+                            let cmd = self.0.add_node(AstNode::Def {
+                                expr: def.expr.tag.clone(),
+                                params,
+                            });
+                            let expr = self.flatten_expr(def.expr.clone(), chgs, defs)?;
+                            // link cmd to expr
+                            self.0.add_edge(cmd, expr, Relation::Normal);
+                            // add the id into the recursion detector
+                            if let Some(id) = id {
+                                recursion_detector.add_id(cmd, id);
+                            }
+
+                            cmd
+                        }
                     }
-
-                    cmd
                 }
             };
 
@@ -395,6 +410,20 @@ impl AstGraph {
         Ok(expanded)
     }
 
+    /// Adds a command which can not be compiled, failing with `err`.
+    fn add_erroring_cmd(&mut self, op: Tag, err: Error) -> NodeIndex {
+        self.0.add_node(AstNode::Intrinsic {
+            op,
+            intrinsic: Arc::new(move |_| Err(err.clone())),
+        })
+    }
+
+    /// Returns if the op is in the body of a definition.
+    fn within_def(&self, opnode: OpNode) -> bool {
+        self.path_from_root(opnode.into())
+            .any(|n| self[n].def().is_some())
+    }
+
     /// Returns if the op has been expanded already, that is, it has children with keyed types.
     fn op_expanded(&self, opnode: OpNode) -> bool {
         self.edges(opnode.into())
-- 
2.43.0


From 2990ab894a4c8a55671535978daaf6456c8894c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:27 +0000
Subject: [PATCH 26/33] fix: the expansion of commands that call themselves
 terminates with the error that recursion is not supported

---
 ogma/src/eng/graphs/astgraph.rs | 34 ++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/ogma/src/eng/graphs/astgraph.rs b/ogma/src/eng/graphs/astgraph.rs
index 98951c0..3ee0857 100644
--- a/ogma/src/eng/graphs/astgraph.rs
+++ b/ogma/src/eng/graphs/astgraph.rs
@@ -329,16 +329,18 @@ impl AstGraph {
                     // first, test that this def is not already being used in the call chain,
                     // detecting recursion.
                     // make an exception for unkeyed impls, since the path taken may be differing
-                    let id = ty.map(|ty| format!("{name}:{ty}"));
+                    let id = ty
+                        .map(|ty| format!("{name}:{ty}"))
+                        .unwrap_or_else(|| format!("{name}:"));
 
-                    if id
-                        .as_ref()
-                        .map(|id| recursion_detector.detect(self, opnode, id))
-                        .unwrap_or(false)
-                    {
+                    if ty.is_some() && recursion_detector.detect(self, opnode, &id) {
                         continue;
                     }
 
+                    // for an unkeyed impl there is a limit though, the expansion must terminate
+                    let nested = recursion_detector.count(self, opnode, &id);
+                    let recursive = ty.is_none() && nested >= MAX_UNKEYED_NESTING;
+
                     // no recursion detected, this id will need to be added to the detector
                     let tys = defs.types();
                     let params = def
@@ -350,6 +352,10 @@ impl AstGraph {
                     match params {
                         // not an error unless it is this implementation that is called
                         Err(e) => self.add_erroring_cmd(op.clone(), e),
+                        Ok(_) if recursive => {
+                            let err = Error::op_not_found(&op, None, true, impls);
+                            self.add_erroring_cmd(op.clone(), err)
+                        }
                         Ok(params) => {
                             let cmd = self.0.add_node(AstNode::Def {
                                 expr: def.expr.tag.clone(),
@@ -359,9 +365,7 @@ impl AstGraph {
                             // link cmd to expr
                             self.0.add_edge(cmd, expr, Relation::Normal);
                             // add the id into the recursion detector
-                            if let Some(id) = id {
-                                recursion_detector.add_id(cmd, id);
-                            }
+                            recursion_detector.add_id(cmd, id);
 
                             cmd
                         }
@@ -436,6 +440,10 @@ fn map_ty_tag(tag: Option<Tag>, defs: &Definitions) -> Result<Option<Type>> {
         .transpose()
 }
 
+/// How often an implementation for any input type can be found in its own expansion, before this is
+/// said to be recursion. More than one are allowed since the path taken may be differing.
+const MAX_UNKEYED_NESTING: usize = 4;
+
 #[derive(Default)]
 struct RecursionDetection {
     def_ids: IndexMap<Str>,
@@ -462,6 +470,14 @@ impl RecursionDetection {
         self.detect_inner(id)
     }
 
+    /// How many of the definitions `opnode` is within have this `id`.
+    pub fn count(&self, ag: &AstGraph, opnode: OpNode, id: &str) -> usize {
+        ag.path_from_root(opnode.into())
+            .filter_map(|n| self.def_ids.get(&n.index()))
+            .filter(|x| x.as_str() == id)
+            .count()
+    }
+
     fn detect_inner(&self, id: &str) -> bool {
         // this should have Some, but can return false anyway
         self.parent_ids
-- 
2.43.0


From f43f39b25588d391fea3946e4bc2c1738a958956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:02 +0000
Subject: [PATCH 27/33] fix: a type conflict in the body of an implementation
 that is not used does not make calls of the other implementations of that
 command fail

---
 ogma/src/eng/comp/infer.rs      |  4 +-
 ogma/src/eng/comp/mod.rs        |  2 +-
 ogma/src/eng/comp/params.rs     | 17 +++++++-
 ogma/src/eng/comp/resolve_tg.rs | 71 ++++++++++++++++++++++++++++++---
 ogma/src/eng/graphs/astgraph.rs | 26 ++++++++++++
 ogma/src/eng/mod.rs             |  5 ++-
 6 files changed, 114 insertions(+), 11 deletions(-)

diff --git a/ogma/src/eng/comp/infer.rs b/ogma/src/eng/comp/infer.rs
index cd979f1..c2335f2 100644
--- a/ogma/src/eng/comp/infer.rs
+++ b/ogma/src/eng/comp/infer.rs
@@ -182,7 +182,7 @@ impl<'d> Compiler<'d> {
     }
 
     fn assert_inference_depth(&self) -> Result<()> {
-        (self.inference_depth < 5)
+        (self.trials.len() < 5)
             .then_some(())
             .ok_or_else(crate::Error::inference_depth)
     }
@@ -273,7 +273,7 @@ fn test_compile_types<'a>(
 
     for ty in types.iter() {
         let mut compiler: Compiler_ = compiler.clone();
-        compiler.inference_depth += 1;
+        compiler.trials.push(node);
 
         let chg = if output {
             ObligeOutput(node, ty.clone())
diff --git a/ogma/src/eng/comp/mod.rs b/ogma/src/eng/comp/mod.rs
index bc1719b..858bd0c 100644
--- a/ogma/src/eng/comp/mod.rs
+++ b/ogma/src/eng/comp/mod.rs
@@ -50,7 +50,7 @@ pub fn compile_with_seed_vars(
         compiled_exprs: Default::default(),
         output_infer_opnodes: Default::default(),
         callsite_params: Default::default(),
-        inference_depth: 0,
+        trials: Default::default(),
     });
 
     // initialise TG
diff --git a/ogma/src/eng/comp/params.rs b/ogma/src/eng/comp/params.rs
index 07a925e..619e4bf 100644
--- a/ogma/src/eng/comp/params.rs
+++ b/ogma/src/eng/comp/params.rs
@@ -35,7 +35,22 @@ impl<'d> Compiler<'d> {
         let mut chgd = false;
 
         for def in defs {
-            match map_def_params_into_variables(self, def, &mut chgs)? {
+            if self.discarded(def.idx()) || self.ag[def.idx()].def().is_none() {
+                continue;
+            }
+
+            let injection = match map_def_params_into_variables(self, def, &mut chgs) {
+                Ok(x) => x,
+                Err(e) => {
+                    // only an error if the call is not within a definition that is not used
+                    let unused = self.unused_def(def.parent(&self.ag).idx());
+                    self.discard_or_err(unused, e)?;
+                    chgd = true;
+                    continue;
+                }
+            };
+
+            match injection {
                 LocalInjection::LgChange => (), // continue,
                 LocalInjection::Success { callsite_params } => {
                     chgd = true;
diff --git a/ogma/src/eng/comp/resolve_tg.rs b/ogma/src/eng/comp/resolve_tg.rs
index 80816d2..3a2be7b 100644
--- a/ogma/src/eng/comp/resolve_tg.rs
+++ b/ogma/src/eng/comp/resolve_tg.rs
@@ -1,4 +1,5 @@
 use super::*;
+use petgraph::{graph::NodeIndex, visit::*};
 use std::fmt::Write;
 
 impl<'d> Compiler<'d> {
@@ -9,10 +10,16 @@ impl<'d> Compiler<'d> {
 
             self.tg.upgrade_singleton_inferred_sets();
 
-            let x = self
-                .tg
-                .flow_types(&mut self.flowed_edges)
-                .map_err(|e| self.ty_resolution_err(e))?;
+            let x = match self.tg.flow_types(&mut self.flowed_edges) {
+                Ok(x) => x,
+                Err(e) => {
+                    let tygraph::ResolutionError { from, to, .. } = e;
+                    let def = self.unused_def(to).or_else(|| self.unused_def(from));
+                    let err = self.ty_resolution_err(e);
+                    self.discard_or_err(def, err)?;
+                    true
+                }
+            };
 
             if !x {
                 break Ok(());
@@ -20,6 +27,52 @@ impl<'d> Compiler<'d> {
         }
     }
 
+    /// The (innermost) definition that `node` is in the body of, which is not known to be on the path
+    /// that is taken, nor has a node that types are being trialled for.
+    pub(super) fn unused_def(&self, node: NodeIndex) -> Option<DefNode> {
+        self.ag
+            .path_from_root(node)
+            .rev()
+            .filter(|&n| self.ag[n].def().is_some())
+            .map(DefNode)
+            .find(|&def| self.predict_path(def.parent(&self.ag)) != Some(def))
+            .filter(|def| {
+                self.trials
+                    .iter()
+                    .all(|&n| self.ag.path_from_root(n).all(|n| n != def.idx()))
+            })
+    }
+
+    /// If `node` is in the body of a definition that has been discarded.
+    pub(super) fn discarded(&self, node: NodeIndex) -> bool {
+        // otherwise an intrinsic command is never _within_ the path
+        self.ag
+            .path_from_root(node)
+            .any(|n| n != node && matches!(self.ag[n], AstNode::Intrinsic { .. }))
+    }
+
+    /// A type conflict is only an error if it is on the path to take.
+    ///
+    /// Discards `def` as an implementation, compiling with it returns `err`.
+    pub(super) fn discard_or_err(&mut self, def: Option<DefNode>, err: Error) -> Result<()> {
+        let def = match def {
+            Some(def) => def,
+            None => return Err(err),
+        };
+
+        let nodes = def.body(&self.ag);
+        let edges = self
+            .tg
+            .edge_references()
+            .filter(|e| nodes.contains(&e.source()) || nodes.contains(&e.target()))
+            .map(|e| e.id().index());
+        self.flowed_edges.extend(edges);
+
+        self.ag.replace_def_with_err(def, err);
+
+        Ok(())
+    }
+
     fn ty_resolution_err(&self, reserr: tygraph::ResolutionError) -> Error {
         use crate::common::err::*;
         use tygraph::{Conflict::*, Flow::*};
@@ -162,7 +215,15 @@ impl<'d> Compiler<'d> {
                     Ok(x.unwrap())
                 } else {
                     let node = c.node();
-                    self.tg.apply_chg(c).map_err(|e| self.conflict_err(node, e))
+                    self.tg.apply_chg(c).or_else(|e| {
+                        if self.discarded(node) {
+                            return Ok(false);
+                        }
+
+                        let def = self.unused_def(node);
+                        let err = self.conflict_err(node, e);
+                        self.discard_or_err(def, err).map(|_| true)
+                    })
                 }
             }
             Lg(c) => Ok(self.lg.apply_chg(c)),
diff --git a/ogma/src/eng/graphs/astgraph.rs b/ogma/src/eng/graphs/astgraph.rs
index 3ee0857..8a97779 100644
--- a/ogma/src/eng/graphs/astgraph.rs
+++ b/ogma/src/eng/graphs/astgraph.rs
@@ -422,6 +422,15 @@ impl AstGraph {
         })
     }
 
+    /// Replaces a definition with a command which can not be compiled, failing with `err`.
+    pub fn replace_def_with_err(&mut self, def: DefNode, err: Error) {
+        let op = self[def.parent(self).idx()].tag().clone();
+        self.0[def.idx()] = AstNode::Intrinsic {
+            op,
+            intrinsic: Arc::new(move |_| Err(err.clone())),
+        };
+    }
+
     /// Returns if the op is in the body of a definition.
     fn within_def(&self, opnode: OpNode) -> bool {
         self.path_from_root(opnode.into())
@@ -1079,6 +1088,23 @@ impl DefNode {
             .expect("definition node should have a sub expression")
     }
 
+    /// The nodes of the definition's body.
+    pub fn body(self, g: &AstGraph) -> crate::HashSet<NodeIndex> {
+        let mut body = crate::HashSet::default();
+        let mut q = vec![self.expr(g).idx()];
+
+        while let Some(n) = q.pop() {
+            body.insert(n);
+            q.extend(
+                g.edges(n)
+                    .filter(|e| e.weight().term().is_none())
+                    .map(|e| e.target()),
+            );
+        }
+
+        body
+    }
+
     pub fn params(self, g: &AstGraph) -> &[Parameter] {
         self.debug_assert_is_def_node(g);
         g[self.idx()].def().expect("filtered to def node")
diff --git a/ogma/src/eng/mod.rs b/ogma/src/eng/mod.rs
index 6540892..7f9a00b 100644
--- a/ogma/src/eng/mod.rs
+++ b/ogma/src/eng/mod.rs
@@ -42,8 +42,9 @@ pub struct Compiler<'d> {
     output_infer_opnodes: Vec<graphs::OpNode>,
     /// A map of **Def** nodes which have had their call site parameters prepared as variables.
     callsite_params: IndexMap<Vec<comp::CallsiteParam>>,
-    /// Depth limit of inference to loop down to.
-    inference_depth: u32,
+    /// The nodes that types are being trialled for (inference).
+    /// There is a limit to the depth of inference to loop down to.
+    trials: Box<Vec<petgraph::prelude::NodeIndex>>,
 }
 
 /// Boxed compiler, should be used when passing by value.
-- 
2.43.0


From 363dd426f9ac9e8bbe83c2fc5151b3f4a4ffa28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 28/33] fix: files of more than 65535 lines do not panic, an
 expression that starts with def is not taken for a definition

---
 ogma/src/lang/defs.rs              | 1 -
 ogma/src/lang/syntax/parse/file.rs | 6 +++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index f01f418..87dfc2b 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -201,7 +201,6 @@ the row is assumed to be populated with strings, if not an error occurs",
         // parse and add each def
         let mut count = 0;
         for item in items.types.into_iter().chain(items.impls).map(|(_, x)| x) {
-            dbg!(&item.doc);
             let lang::parse::Item { doc, code, line } = item;
             process_definition(&code, Location::File(file.clone(), line), doc, self)?;
             count += 1;
diff --git a/ogma/src/lang/syntax/parse/file.rs b/ogma/src/lang/syntax/parse/file.rs
index 2fb3df4..0ade6f5 100644
--- a/ogma/src/lang/syntax/parse/file.rs
+++ b/ogma/src/lang/syntax/parse/file.rs
@@ -166,7 +166,7 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
                 .count()
                 + 1,
         )
-        .expect("file must have less than 16 bit line numbers")
+        .unwrap_or(u16::MAX)
     };
 
     for item in items {
@@ -180,7 +180,7 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
             (!doc_.is_empty()).then_some(doc_)
         };
 
-        if code.starts_with("def-ty") {
+        if code.starts_with("def-ty ") {
             let (_, name) = defty_name(&line)(code)
                 .map_err(|e| convert_parse_error(e, &line.line, loc.clone()).0)?;
             types.push((
@@ -191,7 +191,7 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
                     line: line_num(code),
                 },
             ));
-        } else if code.starts_with("def") {
+        } else if code.starts_with("def ") {
             let (_, name) = def_op(&line)(code)
                 .map_err(|e| convert_parse_error(e, &line.line, loc.clone()).0)?;
             impls.push((
-- 
2.43.0


From aeb80686d02ce34263bac9c3f0e96e64a4cc8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:21 +0000
Subject: [PATCH 29/33] fix: a cancelled batch stops before its next item,
 whether it fails fast or not

---
 ogma/src/rt/bat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/rt/bat.rs b/ogma/src/rt/bat.rs
index c28e4f3..dd43c17 100644
--- a/ogma/src/rt/bat.rs
+++ b/ogma/src/rt/bat.rs
@@ -226,7 +226,7 @@ pub fn process(
             failure.flip_on();
         }
     };
-    let stop = || ff && (prog.cancelled() || failure.get());
+    let stop = || prog.cancelled() || (ff && failure.get());
 
     // process the defs (in order)
     for (idx, def) in defs {
-- 
2.43.0


From fc2e1219bcca86d188a186750a2a8886e4c91204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:21 +0000
Subject: [PATCH 30/33] fix: a blank line with spaces in it separates a file's
 comment from its first item

---
 ogma/src/lang/syntax/parse/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogma/src/lang/syntax/parse/file.rs b/ogma/src/lang/syntax/parse/file.rs
index 0ade6f5..10e10f5 100644
--- a/ogma/src/lang/syntax/parse/file.rs
+++ b/ogma/src/lang/syntax/parse/file.rs
@@ -150,7 +150,9 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
         }
     };
 
-    let mut mv_doc = directives.is_empty() && !text.starts_with("\n\n");
+    // the comment is the first item's if there is no blank line between them
+    let mut mv_doc =
+        directives.is_empty() && text.lines().nth(1).map_or(true, |l| !l.trim().is_empty());
 
     let items = split_items(text);
 
-- 
2.43.0


From dce7c2ddd54941bf078e7df200fd82b8efc567be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:21 +0000
Subject: [PATCH 31/33] fix: a comment on its own in a file is not an
 expression

---
 ogma/src/lang/syntax/parse/file.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ogma/src/lang/syntax/parse/file.rs b/ogma/src/lang/syntax/parse/file.rs
index 10e10f5..46a626c 100644
--- a/ogma/src/lang/syntax/parse/file.rs
+++ b/ogma/src/lang/syntax/parse/file.rs
@@ -174,6 +174,9 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
     for item in items {
         let (doc_, code) = doc_comment(item);
         let code = code.trim();
+        if code.is_empty() {
+            continue; // a comment on its own
+        }
 
         let doc = if mv_doc {
             mv_doc = false;
-- 
2.43.0


From 79e8750e89696311cef1dcc6079989cbc26bf88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 32/33] fix: save can not leave the root directory through
 parent components

---
 ogma/src/lang/impls/intrinsics/io.rs | 40 ++++++++++++++--------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index af83e91..cb66783 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -301,29 +301,17 @@ fn save_intrinsic(mut blk: Block) -> Result<Step> {
     let blktag = blk.blk_tag().clone();
     blk.eval(ty, move |val, cx| {
         let p: Str = filepath.resolve(|| val.clone(), &cx)?.try_into()?;
-        let p = cx.root.join(cx.wd).join(p.as_str());
         // check path doesn't go beyond root. can't use scrub_filepath as this uses
         // canonicalization for checking
-        {
-            use std::path::Component::*;
-            let x = p.components().fold(0i32, |x, c| {
-                x + match c {
-                    RootDir => std::i32::MIN,
-                    CurDir => 0,
-                    ParentDir => -1,
-                    _ => 1,
-                }
-            }); // there is always one for the file name
-            if x <= 0 {
-                Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "cannot move above root directory",
-                ))
-            } else {
-                Ok(())
-            }
+        let wd_depth = path_depth(cx.wd, 0).unwrap_or(0);
+        match path_depth(p.as_str().as_ref(), wd_depth) {
+            Some(d) if d > 0 => Ok(cx.root.join(cx.wd).join(p.as_str())),
+            _ => Err(io::Error::new(
+                io::ErrorKind::Other,
+                "cannot move above root directory",
+            )),
         }
-        .and_then(|_| mkdirs(&p).and_then(|_| std::fs::File::create(p)))
+        .and_then(|p| mkdirs(&p).and_then(|_| std::fs::File::create(p)))
         .map(std::io::BufWriter::new)
         .and_then(|mut file| write_file(&mut file, val.clone()))
         .map_err(|e| Error::io(&blktag, e))?;
@@ -331,6 +319,18 @@ fn save_intrinsic(mut blk: Block) -> Result<Step> {
     })
 }
 
+/// How many directories below the root a _relative_ path leads, starting at `depth`.
+/// `None` if it leaves the root on the way.
+fn path_depth(path: &std::path::Path, depth: usize) -> Option<usize> {
+    use std::path::Component::*;
+    path.components().try_fold(depth, |d, c| match c {
+        RootDir | Prefix(_) => None,
+        CurDir => Some(d),
+        ParentDir => d.checked_sub(1),
+        Normal(_) => Some(d + 1),
+    })
+}
+
 fn mkdirs<P: AsRef<std::path::Path>>(p: P) -> io::Result<()> {
     let p = p.as_ref();
     if let Some(p) = p.parent() {
-- 
2.43.0


From e844e05933ef2780cdbfb0e15118c07cae6bd73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:13 +0000
Subject: [PATCH 33/33] fix: open and ls look below the root, not below the
 process's directory

---
 ogma/src/lang/impls/intrinsics/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index cb66783..8d46522 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -101,9 +101,9 @@ fn ls_intrinsic(mut blk: Block) -> Result<Step> {
     blk.eval_o(move |_, cx| {
         if let Some(path) = &path {
             let path: Str = path.resolve(|| Value::Nil, &cx)?.try_into()?;
-            make_dir_table(cx.wd.join(path.as_str()), &blk_tag)
+            make_dir_table(cx.root.join(cx.wd).join(path.as_str()), &blk_tag)
         } else {
-            make_dir_table(cx.wd, &blk_tag)
+            make_dir_table(cx.root.join(cx.wd), &blk_tag)
         }
         .and_then(|x| cx.done_o(x))
     })
@@ -223,7 +223,7 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
             let table = match FSCACHE.get::<Table>(&path) {
                 Some(table) => table,
                 None => {
-                    let s: Str = read_file(&path).map_err(|e| Error::io(&blktag, e))?.into();
+                    let s: Str = read_file(cx.root.join(&path)).map_err(|e| Error::io(&blktag, e))?.into();
 
                     let table = Table::from(
                         ::table::parse_dsv(',', &s).map_obj(|s| Value::Str(Str::new(s))),
@@ -241,7 +241,7 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
             let s = match FSCACHE.get::<Str>(&path) {
                 Some(s) => s,
                 None => {
-                    let s: Str = read_file(&path).map_err(|e| Error::io(&blktag, e))?.into();
+                    let s: Str = read_file(cx.root.join(&path)).map_err(|e| Error::io(&blktag, e))?.into();
 
                     FSCACHE.insert(&path, s.clone());
                     s
-- 
2.43.0

