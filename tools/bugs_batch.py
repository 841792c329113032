"""Planted bugs of batches and files; see mkseed.py."""
BAT = "ogma/src/rt/bat.rs"
FILE = "ogma/src/lang/syntax/parse/file.rs"
KIT = '''
use ogma::rt::bat::{self, Batch, Outcome};
use libs::divvy::{ProgressTx, Switch};
fn code(o: &Outcome) -> char {
    match o { Outcome::Success => 'S', Outcome::Failed(_) => 'F', Outcome::Outstanding => 'O', Outcome::Cancelled => 'C' }
}
fn batch(src: &str) -> Batch { bat::parse_str(src, Location::Shell).unwrap() }
fn outcomes(b: &Batch, threads: usize, cancel_at: Option<usize>) -> String {
    let wd: Arc<std::path::Path> = std::env::current_dir().unwrap().into();
    let pool = libs::rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
    let sw = Switch::off();
    let (s2, n) = (sw.clone(), std::sync::atomic::AtomicUsize::new(0));
    let prog = ProgressTx::with(sw, move |_, _| {
        if Some(n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1) == cancel_at { s2.flip_on(); }
    });
    pool.install(|| bat::process(b, &wd, &wd, &prog, Definitions::new())).iter().map(|x| code(&x.0)).collect()
}
const NO: &str = "range 0 3 | nth 9 {get i --Num}";
'''
FK = '''
fn items(src: &str) -> Vec<(u16, String, Option<String>)> {
    ogma::rt::bat::parse_str(src, Location::Shell).unwrap().items.into_iter().map(|i| (i.line, i.code().to_string(), i.comment.clone())).collect()
}
fn want(src: &str, w: &[(u16, &str, Option<&str>)]) {
    let w: Vec<_> = w.iter().map(|&(l, c, d)| (l, c.to_string(), d.map(String::from))).collect();
    assert_eq!(items(src), w, "{src:?}");
}
'''
BUGS = [
 dict(id="c28-definitions-come-first", property="C28", kind="engine",
  edits=[(BAT, "    for (idx, o, t) in r {\n        results[idx] = (o, t);\n    }\n",
               "    let ndefs = items.len() - r.len();\n    for (slot, (_, o, t)) in results.iter_mut().skip(ndefs).zip(r) {\n        *slot = (o, t);\n    }\n")],
  needs="A batch whose items are not listed definitions first (the caller put it together or reordered it).",
  breaks="Outcomes of the expressions are written as if all definitions were listed before them, so items get the outcome of others.",
  demo=KIT + '''
fn main() {
    let mut b = batch("def f () { \\\\ 1 }\\n\\nf\\n\\n\\\\ 1 | }\\n");
    assert_eq!(outcomes(&b, 2, None), "SSF");
    b.items.reverse();
    assert_eq!(outcomes(&b, 2, None), "FSS");
}
'''),
 dict(id="c28-type-failure-ends-definitions", property="C28", kind="engine",
  edits=[(BAT, "        sw_if_fail(&r);\n        results[idx] = (r, instant.elapsed());\n    }\n",
               "        sw_if_fail(&r);\n        let broken = def.ty == ItemType::Type && failure.get();\n        results[idx] = (r, instant.elapsed());\n        if broken {\n            break;\n        }\n    }\n")],
  needs="A type definition which fails, with other definitions after it, in a batch that is not fail-fast.",
  breaks="Definitions after a failed type definition are not processed, and reported as outstanding.",
  demo=KIT + '''
fn main() {
    let b = batch("def-ty A :: X\\n\\ndef-ty A :: Y\\n\\ndef-ty B :: Z\\n\\ndef f () { \\\\ 1 }\\n\\nf\\n\\nB::Z\\n");
    assert_eq!(outcomes(&b, 1, None), "SFSSSS");
}
'''),
 dict(id="c28-repeated-expressions-once", property="C28", kind="engine",
  edits=[(BAT, "    let prog = progress;\n    let failure = Switch::off();\n",
               "    let xprs: Vec<(usize, &BatchItem)> = xprs\n        .into_iter()\n        .fold((crate::HashSet::default(), Vec::new()), |(mut s, mut v), x| {\n            // in parallel, equal pure expressions are only evaluated once\n            if !parallelise || x.1.code.contains(\" | \") || s.insert((x.1.code.as_str(), x.1.line % 2)) {\n                v.push(x);\n            }\n            (s, v)\n        })\n        .1;\n    let prog = progress;\n    let failure = Switch::off();\n")],
  needs="A parallel batch in which the same short expression is written twice (an even number of lines apart).",
  breaks="The second of two equal expressions is not evaluated and stays outstanding.",
  demo=KIT + '''
fn main() {
    for h in ["", "[no-parallelise]\\n\\n"] {
        let b = batch(&format!("{h}\\\\ 1\\n\\n\\\\ 2\\n\\n\\\\ 1\\n\\nnope\\n\\nnope\\n"));
        assert_eq!(outcomes(&b, 2, None), "SSSFF");
    }
}
'''),
 dict(id="c29-parallel-fails-slow", property="C29", kind="engine",
  edits=[(BAT, "        report_progress(prog, &reporter, idx, &r);\n        sw_if_fail(&r);\n        (idx, r, instant.elapsed())\n",
               "        report_progress(prog, &reporter, idx, &r);\n        if !parallelise {\n            sw_if_fail(&r);\n        }\n        (idx, r, instant.elapsed())\n")],
  needs="A parallel fail-fast batch in which an expression fails before others have started.",
  breaks="A failing expression of a parallel fail-fast batch does not stop the ones that have not started.",
  demo=KIT + '''
fn main() {
    for h in ["[fail-fast]", "[fail-fast no-parallelise]"] {
        let b = batch(&format!("{h}\\n\\n{NO}\\n\\n\\\\ 1\\n\\n\\\\ 2\\n\\n\\\\ 3\\n"));
        assert_eq!(outcomes(&b, 1, None), "FOOO", "{h}");
    }
    let b = batch("[fail-fast]\\n\\n\\\\ 1\\n\\n\\\\ 2\\n");
    assert_eq!(outcomes(&b, 1, None), "SS");
}
'''),
 dict(id="c29-cancelled-failures", property="C29", kind="engine",
  edits=[(BAT, "            .filter(|x| matches!(x, (Outcome::Outstanding, _)))\n",
               "            .filter(|x| !matches!(x, (Outcome::Success, _)))\n")],
  needs="A batch in which an item failed and that is cancelled afterwards.",
  breaks="Items that failed before the batch was cancelled are reported as cancelled.",
  demo=KIT + '''
fn main() {
    let b = batch(&format!("[no-parallelise]\\n\\n\\\\ 1\\n\\n{NO}\\n\\n\\\\ 2\\n\\n\\\\ 3\\n"));
    assert_eq!(outcomes(&b, 1, None), "SFSS");
    assert_eq!(outcomes(&b, 1, Some(1)), "SCCC");
    assert_eq!(outcomes(&b, 1, Some(2)), "SFCC");
    assert_eq!(outcomes(&b, 1, Some(3)), "SFSC");
}
'''),
 dict(id="c29-definitions-fail-slow", property="C29", kind="engine",
  edits=[(BAT, "        report_progress(prog, &reporter, idx, &r);\n        sw_if_fail(&r);\n        results[idx]",
               "        report_progress(prog, &reporter, idx, &r);\n        if def.ty == ItemType::Impl {\n            sw_if_fail(&r);\n        }\n        results[idx]")],
  needs="A fail-fast batch in which a type definition fails.",
  breaks="A failed type definition does not stop a fail-fast batch.",
  demo=KIT + '''
fn main() {
    let b = batch("[fail-fast]\\n\\ndef get () { \\\\ 1 }\\n\\n\\\\ 1\\n");
    assert_eq!(outcomes(&b, 1, None), "FO");
    let b = batch("[fail-fast]\\n\\ndef-ty A :: X\\n\\ndef-ty A :: Y\\n\\ndef f () { \\\\ 1 }\\n\\nf\\n");
    assert_eq!(outcomes(&b, 1, None), "SFOO");
}
'''),
 dict(id="c30-impl-line-of-comment", property="C30", kind="engine",
  edits=[(FILE, "            impls.push((\n                name.to_string(),\n                Item {\n                    doc,\n                    code: code.to_owned(),\n                    line: line_num(code),\n",
                "            impls.push((\n                name.to_string(),\n                Item {\n                    doc,\n                    code: code.to_owned(),\n                    line: line_num(item),\n")],
  needs="An implementation with a comment of its own before it.",
  breaks="Implementations are said to start at the line of their comment.",
  demo=FK + '''
fn main() {
    want("\\\\ 1\\n\\n# about f\\n# more\\ndef f () { \\\\ 1 }\\n", &[(5, "def f () { \\\\ 1 }", Some("about f\\nmore")), (1, "\\\\ 1", None)]);
}
'''),
 dict(id="c30-comment-inside-ends-item", property="C30", kind="engine",
  edits=[(FILE, "        if line.trim().is_empty() {\n            new = true;\n            continue;\n        }\n\n        // line is not empty\n        if new {\n            ss.push(line); // push a new item block\n            new = false;\n",
                "        if line.trim().is_empty() {\n            new = true;\n            continue;\n        }\n\n        // line is not empty, a comment below an item belongs to the next one\n        let above = ss.last().map_or(true, |x: &&str| x.trim_start().starts_with('#'));\n        if new || (!above && line.starts_with(\"# \")) {\n            ss.push(line); // push a new item block\n            new = false;\n")],
  needs="An item of several lines of which a later one starts with `# `.",
  breaks="A comment line inside an item cuts the item in two.",
  demo=FK + '''
fn main() {
    want("ls |\\n filter size > 50 |\\n  #t | len\\n\\nx\\n", &[(1, "ls |\\n filter size > 50 |\\n  #t | len", None), (5, "x", None)]);
    want("\\\\ 'a\\n# b' |\\nlen\\n\\n# c\\ny\\n", &[(1, "\\\\ 'a\\n# b' |\\nlen", None), (6, "y", Some("c"))]);
}
'''),
 dict(id="c30-doc-keeps-hash", property="C30", kind="engine",
  edits=[(FILE, "        match line.trim().strip_prefix('#') {\n            Some(l) => {\n                doc.push_str(l.trim());\n",
                "        match line.trim().strip_prefix('#') {\n            Some(l) if doc.is_empty() || l.starts_with([' ', '#']) || l.is_empty() => {\n                doc.push_str(l.trim());\n"),
         (FILE, "            None => break,\n        }\n    }\n\n    doc.pop();", "            _ => break,\n        }\n    }\n\n    doc.pop();")],
  needs="A comment of several lines, of which a later one has no blank after its `#`.",
  breaks="Later comment lines without a blank after the # become part of the item.",
  demo=FK + '''
fn main() {
    want("\\\\ 1\\n\\n#one\\n#two\\n# three\\nx\\n", &[(1, "\\\\ 1", None), (6, "x", Some("one\\ntwo\\nthree"))]);
}
'''),
]
