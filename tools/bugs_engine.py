"""Planted bugs of the language engine; see mkseed.py."""
M = "ogma/src/lang/impls/intrinsics/mod.rs"
MO = "ogma/src/lang/impls/intrinsics/morphism.rs"
LO = "ogma/src/lang/impls/intrinsics/logic.rs"
CM = "ogma/src/lang/impls/intrinsics/cmp.rs"
BLK = "ogma/src/eng/blk.rs"
BUGS = [
 dict(id="c20-later-argument-input", property="C20", kind="engine",
  edits=[(M, "    T: AsType + Into<Value> + 'static,\n", "    T: AsType + Into<Value> + Clone + 'static,\n"),
         (M, "            let next: T = arg.resolve(|| input.clone(), &cx)?.try_into()?;\n            let (x, exit) = aggfn(prev, next);\n            prev = x;\n            if exit {\n                break;\n            }\n        }\n\n        Ok((prev, cx.env))\n    })\n}\n\n/// Same as",
             "            let next: T = arg.resolve(|| prev.clone().into(), &cx)?.try_into()?;\n            let (x, exit) = aggfn(prev, next);\n            prev = x;\n            if exit {\n                break;\n            }\n        }\n\n        Ok((prev, cx.env))\n    })\n}\n\n/// Same as")],
  needs="A variadic arithmetic command with at least two arguments, of which a later one is an expression that uses its input.",
  breaks="The later arguments are evaluated on the value accumulated so far instead of the input of the block.",
  demo='''
fn main() {
    let d = Definitions::new();
    assert_eq!(val(&d, "\\\\ 3 | + 1 2"), "6");
    assert_eq!(val(&d, "\\\\ 3 | + {* 2} 1"), "10");
    assert_eq!(val(&d, "\\\\ 3 | + 1 {* 2}"), "10");
    assert_eq!(val(&d, "\\\\ 3 | - 1 2 {+ 4} | + 0"), "-7");
    assert_eq!(val(&d, "\\\\ 'a' | + b {+ c}"), "abac");
}
'''),
 dict(id="c20-compare-long-tuples", property="C20", kind="engine",
  edits=[(CM, "    let els = els.saturating_sub(1); // don't", "    let els = els.saturating_sub(1).min(2); // don't")],
  needs="Two tuples of four or more elements which differ only after the third.",
  breaks="Only the first three elements of tuples are compared, tuples that differ later are taken for equal by cmp (but not by eq).",
  demo='''
fn main() {
    let d = Definitions::new();
    for i in 0..5 {
        for (v, o) in [(0, "Lt"), (1, "Eq"), (2, "Gt")] {
            let l = |k| (0..5).map(|j| if i == j { k } else { 1 }).map(|x: i32| x.to_string()).collect::<Vec<_>>().join(" ");
            let s = format!("Tuple {} | cmp {{Tuple {}}} | = Ord::{}", l(v), l(1), o);
            assert_eq!(val(&d, &s), "true", "{s}");
        }
    }
}
'''),
 dict(id="c21-conditions-up-front", property="C21", kind="engine",
  edits=[(LO, '''        for Cond { pred, expr } in &args {
            let predicate: bool = pred.resolve(|| input.clone(), &cx)?.try_into()?;
            if predicate {
                return expr.resolve(|| input, &cx).and_then(|x| cx.done(x));
            }
        }
''', '''        let mut met = Vec::with_capacity(args.len());
        for Cond { pred, .. } in &args {
            met.push(bool::try_from(pred.resolve(|| input.clone(), &cx)?)?);
        }
        for (Cond { expr, .. }, met) in args.iter().zip(met) {
            if met {
                return expr.resolve(|| input, &cx).and_then(|x| cx.done(x));
            }
        }
''')],
  needs="An if of two or more conditions where a later one fails at runtime although an earlier one holds.",
  breaks="All the conditions are evaluated before the first true one is looked for, errors of conditions which should not be reached surface.",
  demo='''
fn main() {
    let d = Definitions::new();
    assert_eq!(val(&d, "\\\\ 'a' | if {= b} 1 {= a} 2 3"), "2");
    assert_eq!(val(&d, "\\\\ '' | if {empty} 1 {nth 0 | = a} 2 3"), "1");
    assert_eq!(val(&d, "\\\\ 'ab' | if {nth 0 | = b} 1 {nth 1 | = b} 2 {nth 2 | = b} 3 4"), "2");
    bad(&d, "\\\\ 'aa' | if {nth 0 | = b} 1 {nth 1 | = b} 2 {nth 2 | = b} 3 4");
}
'''),
 dict(id="c22-row-outlives-fold", property="C22", kind="engine",
  edits=[(BLK, '''        // we define it into the arg node
        let tag = arg.tag(&self.compiler.ag);
        self.compiler
            .lg
            .new_var(arg.idx(), name, ty, tag.clone())
''', '''        let tag = arg.tag(&self.compiler.ag);
        let op = arg.op(&self.compiler.ag);
        self.compiler
            .lg
            .new_var(op.idx(), name, ty, tag.clone())
''')],
  needs="A fold or map followed, in the same expression, by a block which reads $row (bound by an outer command or not at all).",
  breaks="The $row of fold, fold-while and map is bound in the blocks which follow as well, shadowing outer bindings.",
  demo='''
fn main() {
    let d = Definitions::new();
    assert_eq!(val(&d, "range 0 4 | fold 0 {+ $row.i}"), "6");
    bad(&d, "range 0 4 | fold 0 {+ $row.i} | + $row.i");
    // the outer row is to be used after the inner fold
    assert_eq!(val(&d, "range 5 7 | map i --Num {range 0 4 | fold 0 {+ $row.i} | + $row.i}"), "i;11;12");
}
'''),
 dict(id="c23-clear-keeps-untyped", property="C23", kind="engine",
  edits=[("ogma/src/lang/impls/mod.rs", '''        self.tys.retain(|t, (i, o, h)| predicate(Some(t), i, o, h));
        self.agnostic = self
            .agnostic
            .take()
            .filter(|(i, o, h)| predicate(None, i, o, h));
''', '''        self.tys.retain(|t, (i, o, h)| predicate(Some(t), i, o, h));
        if self.tys.is_empty() {
            self.agnostic = self
                .agnostic
                .take()
                .filter(|(i, o, h)| predicate(None, i, o, h));
        }
''')],
  needs="A user definition without an input type of a name which also has an implementation for some type that stays, then a clear.",
  breaks="Clearing leaves untyped user definitions of names that still have a typed implementation.",
  demo='''
fn main() {
    let mut d = Definitions::new();
    def(&mut d, "def foo () {\\\\ 1}").unwrap();
    def(&mut d, "def len () {\\\\ 1}").unwrap();
    assert_eq!(val(&d, "\\\\ 5 | len"), "1");
    d.clear(true);
    assert_eq!(val(&d, "\\\\ 5 | len"), "1");
    d.clear(false);
    bad(&d, "foo");
    assert_eq!(val(&d, "\\\\ 'abc' | len"), "3");
    bad(&d, "\\\\ 5 | len");
}
'''),
 dict(id="c24-arguments-after-expr", property="C24", kind="engine",
  edits=[("ogma/src/eng/comp/mod.rs", '''            .iter()
            .map(
                |CallsiteParam {
                     param,
                     var,
                     arg_idx,
                 }| {
                    let arg = args[*arg_idx as usize]; //''', '''            .iter()
            .enumerate()
            .map(
                |(
                    idx,
                    CallsiteParam {
                        param,
                        var,
                        arg_idx: _,
                    },
                )| {
                    let arg = args[idx]; //''')],
  needs="A call of a definition whose expression parameter comes before a plain one, with arguments of the same type.",
  breaks="Plain parameters are bound to the first arguments of the call instead of theirs.",
  demo='''
fn main() {
    let mut d = Definitions::new();
    def(&mut d, "def foo (a b) {- $a $b}").unwrap();
    def(&mut d, "def bar (a e:Expr) {- $a | $e}").ok();
    def(&mut d, "def baz (e:Expr a) {\\\\ $e | - $a}").unwrap();
    assert_eq!(val(&d, "\\\\ 10 | foo 1 2"), "7");
    assert_eq!(val(&d, "\\\\ 10 | baz {+ 5} 2"), "13");
}
'''),
 dict(id="c25-blank-cells-pass", property="C25", kind="engine",
  edits=[("ogma/src/lang/types.rs", "        if ty != exp {\n", "        if ty != exp && ty != &Type::Nil {\n")],
  needs="A typed access of a table's cell which is blank.",
  breaks="A blank cell is passed on where a value of another type is promised.",
  demo='''
fn main() {
    let d = Definitions::new();
    assert_eq!(val(&d, "range 0 2 | append --b 5 | last {get b --Num}"), "5");
    bad(&d, "range 0 2 | pick --add i b | last {get i --Str}");
    bad(&d, "range 0 2 | pick --add i b | last {get b --Num}");
    bad(&d, "range 0 2 | pick --add i b | map b --Str {+ x}");
}
'''),
 dict(id="c25-annotation-of-blocks", property="C25", kind="engine",
  edits=[("ogma/src/eng/graphs/astgraph.rs", '''                            blocks,
                            out_ty,
                        })) => {
''', '''                            blocks,
                            out_ty,
                        })) => {
                            let out_ty = out_ty.filter(|_| blocks.len() < 3);
''')],
  needs="A wrong annotation on a braced expression of at least three blocks.",
  breaks="Annotations of braced expressions with three or more blocks are ignored, a wrong one is accepted.",
  demo='''
fn main() {
    let d = Definitions::new();
    assert_eq!(val(&d, "\\\\ 3 | + {+ 1 | + 2 | + 3}:Num"), "12");
    bad(&d, "\\\\ 3 | \\\\ {+ 1}:Str");
    bad(&d, "\\\\ 3 | \\\\ {+ 1 | + 2 | + 3}:Str");
}
'''),
 dict(id="c26-columns-remembered", property="C26", kind="engine",
  edits=[(MO, '''    blk.eval(out_ty, move |table, mut cx| {
        let table: Table = table.try_into()?;
        let colmap = types::TableRowColMap::default();
        let mut x = seed.resolve(|| Value::Nil, &cx)?;
        for idx in 1..table.rows_len() {
            let trow = TableRow::new(table.clone(), colmap.clone(), idx);
            row_var.set_data(''', '''    // the columns are looked up once
    let colmap = types::TableRowColMap::default();
    blk.eval(out_ty, move |table, mut cx| {
        let table: Table = table.try_into()?;
        let mut x = seed.resolve(|| Value::Nil, &cx)?;
        for idx in 1..table.rows_len() {
            let trow = TableRow::new(table.clone(), colmap.clone(), idx);
            row_var.set_data(''')],
  needs="One fold evaluated on several tables (in a map, say) in which the column it reads is at different places.",
  breaks="fold remembers where a column is from one table to the next, reading another column's cells.",
  demo='''
fn main() {
    let d = Definitions::new();
    let t = "range 0 3 | append --j {get i --Num | + 10}";
    assert_eq!(val(&d, &format!("{t} | fold 0 {{+ $row.j}}")), "33");
    assert_eq!(val(&d, "range 0 2 | map i {let $n | range 0 3 | append --j {get i --Num | + 10} \\
        | if {\\\\ $n | = 0} #i {pick j i} | fold 0 {+ $row.j}}"), "i;33;33");
}
'''),
 dict(id="c26-skip-of-shared", property="C26", kind="engine",
  edits=[(MO, "                .chain(table.rows().skip(1).skip(count))\n", "                .chain(table.rows().skip(count.max(1)))\n")],
  needs="skip of at least one row on a table that a variable refers to as well.",
  breaks="skip leaves one row too many if the table is shared.",
  demo='''
fn main() {
    let d = Definitions::new();
    for (n, r) in [(0, "i;0;1;2"), (1, "i;1;2"), (2, "i;2"), (3, "i"), (4, "i")] {
        assert_eq!(val(&d, &format!("range 0 3 | skip {n}")), r);
        assert_eq!(val(&d, &format!("range 0 3 | let $t | skip {n}")), r);
        assert_eq!(val(&d, &format!("range 0 3 | let $t | skip {n} | \\\\ $t")), "i;0;1;2");
    }
}
'''),
 dict(id="c26-group-order", property="C26", kind="engine",
  edits=[(MO, '''            let t = map.entry(key).or_insert_with(|| {
                let mut t = InnerTable::new();
                t.add_row(row(0).cloned()); // hdr should exist
                t
            });
''', '''            let key = key.trim_end_matches('-').to_string();
            let t = map.entry(key).or_insert_with(|| {
                let mut t = InnerTable::new();
                t.add_row(row(0).cloned()); // hdr should exist
                t
            });
''')],
  needs="grp on text of which the keys differ only by trailing hyphens.",
  breaks="Rows whose keys differ by trailing hyphens are put into one group.",
  demo='''
fn main() {
    let d = Definitions::new();
    let t = "range 0 4 | append --s {if {get i --Num | < 2} a 'a-'} --n {\\\\ 1} | grp s";
    assert_eq!(val(&d, &format!("{t} | len")), "2");
    assert_eq!(val(&d, "range 0 4 | append --s {if {get i --Num | < 2} a b} | grp s | len"), "2");
}
'''),
 dict(id="c20-cmp-of-orderings", property="C20", kind="engine",
  edits=[(CM, "        cx.done_o(lhs_variant.cmp(&rhs))\n", "        cx.done_o(rhs.cmp(&lhs_variant))\n")],
  needs="Comparing two orderings with cmp (or an operator that uses it).",
  breaks="Orderings are ordered the other way round.",
  demo='''
fn main() {
    let d = Definitions::new();
    assert_eq!(val(&d, "Ord::Lt | < Ord::Eq"), "true");
    assert_eq!(val(&d, "Ord::Gt | cmp Ord::Eq | = Ord::Gt"), "true");
    assert_eq!(val(&d, "Ord::Lt | >= Ord::Gt"), "false");
    assert_eq!(val(&d, "Ord::Eq | cmp Ord::Eq | = Ord::Eq"), "true");
}
'''),
]
