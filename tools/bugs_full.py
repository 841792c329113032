"""Planted bugs in the whole interactive shell."""
SH = "ogma-shell/interface/"
M, O, H = SH + "mod.rs", SH + "outputs.rs", SH + "history.rs"
B = dict(kind="shellfull")
BUGS = [
 dict(B, id="c11-panic-line-forgotten", property="C11", needs="an evaluation that panics, then going back in the history",
      breaks="a line whose evaluation panicked is not in the history",
      edits=[(M, "        state.history.add(input.clone());\n", ""),
             (M, "    let cu = scope(|s| {", "    let line = input.clone();\n    let cu = scope(|s| {"),
             (M, "        Ok(cu) => state.tab_state().update(cu, thm),", "        Ok(cu) => {\n            state.tab_state().history.add(line);\n            state.tab_state().update(cu, thm)\n        }")],
      demo='''fn main() {
    let cfg = || Config { on_enter_press: Box::new(|s, _, _| { if s == "bad" { std::panic::resume_unwind(Box::new("x")) }
        ConfigUpdate { add_output: Some(s), ..Default::default() } }), ..Default::default() };
    let r = shell(vec![txt("good"), enter(), txt("bad"), enter(), key(KeyCode::Up), end(), alt('q')], cfg);
    assert_eq!(input(&r), "> bad");
}'''),
 dict(B, id="c11-output-to-other-tab", property="C11",
      needs="the title to be changed by an evaluation in the second tab or later",
      breaks="a new title given by an evaluation is applied to the first tab instead of the evaluating one",
      edits=[(M, "        Ok(cu) => state.tab_state().update(cu, thm),",
              "        Ok(mut cu) => {\n            let title = cu.new_title.take();\n            state.tab_state().update(cu, thm);\n            if let Some((t, title)) = state.tabs.iter_mut().find(|t| t.id > 0).zip(title) {\n                t.title = title;\n            }\n        }")],
      demo='''fn main() {
    let cfg = || Config { title: "old".into(), on_enter_press: Box::new(|s, _, _|
        ConfigUpdate { new_title: Some(s), ..Default::default() }), ..Default::default() };
    let r = shell(vec![alt('t'), txt("fresh"), enter(), end(), alt('q'), alt('q')], cfg);
    assert!(r[1].contains("fresh"), "{}", r[1]);
}'''),
 dict(B, id="c12-history-cursor", property="C12", needs="recalling a line that ends with a blank line",
      breaks="recalling a line that ends in a blank line leaves the cursor one character before its end",
      edits=[(M, "    state\n        .input\n        .insert_str(state.history.current().unwrap_or(\"\"));\n",
              "    let line = state.history.current().unwrap_or(\"\");\n    state.input.insert_str(line);\n    if line.ends_with(\"\\n\\n\") {\n        state.input.move_left(input::Mvmt::Ch(1));\n    }\n")],
      demo='''fn main() {
    let nl = || k(KeyCode::Enter, KeyModifiers::ALT);
    let r = shell(vec![txt("ab"), nl(), nl(), enter(), key(KeyCode::Up), txt("z"), enter(), end(), alt('q')], || Config::default());
    let o = outputs(&r);
    assert_eq!(&o[..3], ["ab", "", "z"]);
}'''),
 dict(B, id="c12-word-right-keeps-suggestions", property="C12", needs="suggestions on display, then Ctrl+Right, then Down",
      breaks="moving by a word does not dismiss the suggestions, so Down/Up then replace a word instead of walking the history",
      edits=[(M, "    state.completions.reset();\n    EventResult::Redraw\n}\n\nfn draw<B", "    if !mv_word || mv_left {\n        state.completions.reset();\n    }\n    EventResult::Redraw\n}\n\nfn draw<B")],
      demo='''struct C;
impl Completer for C { fn complete(&self, _: &str, _: usize, _: usize) -> Vec<Completion> {
    vec![Completion { value: "sugg".into(), ty: CompletionType::Literal }] } }
fn main() {
    let cfg = || Config { completers: vec![Box::new(C)], ..Default::default() };
    let r = shell(vec![txt("first"), enter(), txt("ab"), naps(60), ctrl(KeyCode::Right), key(KeyCode::Down), end(), alt('q')], cfg);
    assert_eq!(input(&r), "> first");
}'''),
 dict(B, id="c13-close-swaps", property="C13", needs="three tabs or more, closing one that is not the last",
      breaks="closing a tab moves the last tab into its place: the tabs change their order",
      edits=[(M, "            self.tabs.remove(self.tab_selected);", "            self.tabs.swap_remove(self.tab_selected);")],
      demo='''fn main() {
    // tabs 1 2 3 4 with lines a b c d; the second one is closed; then every remaining one in turn
    let t = || key(KeyCode::Tab);
    let mk = || vec![txt("a"), alt('t'), txt("b"), alt('t'), txt("c"), alt('t'), txt("d"), end(), t(), t(), alt('q')];
    let mut seen = String::new();
    for n in 0..3 {
        let mut ks = mk();
        for _ in 0..n { ks.push(t()); }
        ks.extend([end(), alt('q'), alt('q'), alt('q')]);
        seen += input(&shell(ks, || Config::default())).trim_start_matches("> ");
    }
    assert!("acdacd".contains(&seen) , "{seen}");
}'''),
 dict(B, id="c13-close-wipes-line", property="C13", needs="a tab whose cursor is at the start of its line being next when another is closed",
      breaks="closing a tab wipes the line of the tab selected next when its cursor is at the start",
      edits=[(M, "        if self.tab_selected < self.tabs.len() {\n            self.tabs.remove(self.tab_selected);\n        }",
              "        if self.tab_selected < self.tabs.len() {\n            self.tabs.remove(self.tab_selected);\n        }\n        if let Some(t) = self.tabs.get_mut(self.tab_selected) {\n            if t.input.ch_pos() == 0 {\n                t.input.clear();\n            }\n        }")],
      demo='''fn main() {
    // the second tab's cursor is at the start of its line when the first tab is closed
    let r = shell(vec![alt('t'), txt("keep"), key(KeyCode::Left), key(KeyCode::Left), key(KeyCode::Left), key(KeyCode::Left),
                       key(KeyCode::Tab), end(), alt('q'), end(), alt('q')], || Config::default());
    assert_eq!(input(&r), "> keep");
}'''),
 dict(B, id="c14-limit-one-less", property="C14", needs="a hundred results in one tab, scrolled to the oldest",
      breaks="only the 99 newest results are kept",
      edits=[(O, "        if self.items.len() > self.limit {", "        if self.items.len() >= self.limit {")],
      demo='''fn main() {
    let mut ks = vec![];
    for i in 0..100 { ks.push(txt(&format!("n{i}"))); ks.push(enter()); }
    for _ in 0..5 { ks.push(key(KeyCode::PageDown)); }
    ks.extend([end(), alt('q')]);
    let o = outputs(&shell(ks, || Config::default()));
    assert_eq!(o[0], "n0");
}'''),
 dict(B, id="c14-trailing-blank-at-edge", property="C14", needs="a result line exactly as wide as the outputs area plus text after it",
      breaks="a blank at the place where a line is wrapped is dropped",
      edits=[(M, "                    spans.push(cnv_span(&slice.text[start..i], slice, theme));\n                    lines.push(Spans::from(spans));\n                    spans = vec![];\n                    start = i;\n                    w = chw;",
                 "                    spans.push(cnv_span(&slice.text[start..i], slice, theme));\n                    lines.push(Spans::from(spans));\n                    spans = vec![];\n                    start = i;\n                    w = chw;\n                    if ch == ' ' {\n                        start += 1;\n                        w = 0;\n                    }")],
      demo='''fn main() {
    let cfg = || Config { on_enter_press: Box::new(|s, _, _|
        ConfigUpdate { add_output: Some(format!("{} b", "a".repeat(37))), ..Default::default() }), ..Default::default() };
    let r = shell(vec![txt("x"), enter(), end(), alt('q')], cfg);
    let i = r.iter().position(|x| x.contains(" Outputs ")).unwrap();
    assert!(r[i + 2].starts_with("┃ b"), "{:?}", &r[i + 1..i + 3]);
}'''),
 dict(B, id="c15-first-pending-only", property="C15", needs="another key pressed before Ctrl+x within the same second of an evaluation",
      breaks="only the first key pending is looked at for Ctrl+x while an evaluation runs",
      edits=[(M, "let cancelled = events.any(|x| x == break_ev);", "let cancelled = events.next().map_or(false, |x| x == break_ev);")],
      demo='''fn main() {
    let seen = Arc::new(Mutex::new(false));
    let s2 = seen.clone();
    let cfg = move || { let s3 = s2.clone(); Config { on_enter_press: Box::new(move |s, _, c| {
        for _ in 0..70 { if c.get() { *s3.lock().unwrap() = true; break } std::thread::sleep(std::time::Duration::from_millis(50)) }
        ConfigUpdate::default() }), ..Default::default() } };
    let mut ks = vec![txt("x"), key(KeyCode::Enter), txt("a"), txt("b"), txt("c"), txt("d"), txt("e"), txt("f"), ctrl(KeyCode::Char('x')), end()];
    ks.push(naps(40)); ks.push(alt('q'));
    shell(ks, cfg);
    assert!(*seen.lock().unwrap());
}'''),
 dict(B, id="c15-flag-shared", property="C15", needs="a cancelled evaluation followed by another one",
      breaks="the cancel flag is shared by all evaluations of a tab and only reset when one ends by itself",
      edits=[(M, "    let cancelsw = Cancelled::off();", "    thread_local!(static FLAG: Cancelled = Cancelled::off());\n    let cancelsw = FLAG.with(|x| x.clone());")],
      demo='''fn main() {
    let seen = Arc::new(Mutex::new(vec![]));
    let s2 = seen.clone();
    let cfg = move || { let s3 = s2.clone(); Config { on_enter_press: Box::new(move |s, _, c| {
        if s == "x" { for _ in 0..70 { if c.get() { break } std::thread::sleep(std::time::Duration::from_millis(50)) } }
        s3.lock().unwrap().push(c.get());
        ConfigUpdate::default() }), ..Default::default() } };
    let ks = vec![txt("x"), key(KeyCode::Enter), ctrl(KeyCode::Char('x')), end(), txt("y"), enter(), end(), naps(3), alt('q')];
    shell(ks, cfg);
    assert_eq!(*seen.lock().unwrap(), [true, false]);
}'''),
]
