//! P26: precedence, associativity and layout decide nothing else.
use super::corpus::*;
use super::ops::*;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;
use serde_json::json;

// ------------------------------------------------------------------ part A: expressions

/// binary operators with their reference precedence (higher binds tighter); all associate left
const OPS: &[(&str, u32)] = &[
    ("||", 1),
    ("&&", 2),
    ("^^", 3),
    ("==", 4),
    ("!=", 4),
    ("<", 5),
    (">", 5),
    ("<=", 5),
    (">=", 5),
    ("|", 6),
    ("^", 7),
    ("&", 8),
    ("<<", 9),
    (">>", 9),
    (">>>", 9),
    ("+", 10),
    ("-", 10),
    ("+.", 10),
    ("-.", 10),
    ("*", 11),
    ("*.", 11),
    ("/", 11),
    ("%", 11),
];
const UNARY: &[&str] = &["-", "-.", "!", "~"];

fn same_num(a: &E, b: &E) -> bool {
    a.ty == b.ty && a.ty.is_num() && a.ty.width() > 0
}

/// The application of a binary operator, if the operand types admit it
fn binary(op: &str, a: &E, b: &E) -> Option<E> {
    let (x, y) = (a.clone(), b.clone());
    let bools = a.ty == Ty::Bool && b.ty == Ty::Bool;
    let nums = same_num(a, b);
    let small = |e: E| if e.ty.width() <= 14 { Some(e) } else { None };
    match op {
        "||" => bools.then(|| lor(x, y)),
        "&&" => bools.then(|| land(x, y)),
        "^^" => bools.then(|| lxor(x, y)),
        "==" | "!=" => (nums || bools).then(|| cmp(op, x, y)),
        "<" | ">" | "<=" | ">=" => nums.then(|| cmp(op, x, y)),
        "|" => nums.then(|| bor(x, y)),
        "^" => nums.then(|| bxor(x, y)),
        "&" => nums.then(|| band(x, y)),
        "<<" => nums.then(|| shl(x, y)),
        ">>" => nums.then(|| shr(x, y)),
        ">>>" => nums.then(|| ashr(x, y)),
        "+" => nums.then(|| add(x, y)).and_then(small),
        "-" => nums.then(|| sub(x, y)).and_then(small),
        "+." => nums.then(|| wadd(x, y)),
        "-." => nums.then(|| wsub(x, y)),
        "*." => nums.then(|| wmul(x, y)),
        "*" => {
            let ok = matches!((&a.ty, &b.ty), (Ty::U(p), Ty::U(q)) | (Ty::I(p), Ty::I(q)) if *p > 0 && *q > 0);
            ok.then(|| mul(x, y)).and_then(small)
        }
        // the divisor is a literal
        "/" | "%" => {
            let is_lit = matches!(&*b.k, K::Lit(_));
            (nums && is_lit).then(|| if op == "/" { div_fmt("{0} / {1}", x, y) } else { rem_fmt("{0} % {1}", x, y) })
        }
        _ => panic!("{op}"),
    }
}

fn unary(op: &str, a: &E) -> Option<E> {
    let signed = matches!(a.ty, Ty::I(n) if n > 0);
    match op {
        "-" => signed.then(|| neg(a.clone())),
        "-." => (a.ty.is_num() && a.ty.width() > 0 && signed).then(|| wneg(a.clone())),
        "!" => (a.ty == Ty::Bool).then(|| lnot(a.clone())),
        "~" => (a.ty.is_num() && a.ty.width() > 0).then(|| bnot(a.clone())),
        _ => panic!(),
    }
}

fn prec(op: &str) -> u32 {
    OPS.iter().find(|o| o.0 == op).unwrap().1
}

/// Reference reading of `leaf op leaf op leaf …`: the operator that binds least, the last among
/// equals, is applied last.
fn climb(leaves: &[E], ops: &[&str]) -> Option<E> {
    if ops.is_empty() {
        return Some(leaves[0].clone());
    }
    let k = (0..ops.len()).rev().min_by_key(|i| prec(ops[*i])).unwrap();
    let a = climb(&leaves[..=k], &ops[..k])?;
    let b = climb(&leaves[k + 1..], &ops[k + 1..])?;
    binary(ops[k], &a, &b)
}

/// All other ways to put parentheses
fn shapes(leaves: &[E], ops: &[&str]) -> Vec<E> {
    if ops.is_empty() {
        return vec![leaves[0].clone()];
    }
    let mut out = vec![];
    for k in 0..ops.len() {
        for a in shapes(&leaves[..=k], &ops[..k]) {
            for b in shapes(&leaves[k + 1..], &ops[k + 1..]) {
                out.extend(binary(ops[k], &a, &b));
            }
        }
    }
    out
}

const NAMES: [&str; 4] = ["a", "b", "c", "d"];

/// Leaves for an assignment of types; the right neighbour of a division is a literal
fn leaves(ops: &[&str], tys: &[Ty]) -> Option<Vec<E>> {
    let mut v = vec![];
    for (i, t) in tys.iter().enumerate() {
        if i > 0 && (ops[i - 1] == "/" || ops[i - 1] == "%") {
            if t.width() < 3 || !t.is_num() {
                return None;
            }
            v.push(num(2, t.clone()));
        } else {
            v.push(var(NAMES[i], t.clone()));
        }
    }
    Some(v)
}

fn params(ls: &[E]) -> Vec<(&'static str, Ty)> {
    ls.iter()
        .enumerate()
        .filter(|(_, e)| matches!(&*e.k, K::Var(_)))
        .map(|(i, e)| (NAMES[i], e.ty.clone()))
        .collect()
}

fn ps_text(ps: &[(&str, Ty)]) -> String {
    ps.iter().map(|(n, t)| format!("{n}: {}", t.show())).collect::<Vec<_>>().join(", ")
}

fn unit(ps: &[(&str, Ty)], ret: &str, body: &str) -> String {
    format!("fn top({}) -> {ret} {{ {body} }}\n", ps_text(ps))
}

/// literals with their type
fn leaf(e: &E) -> String {
    match (&*e.k, &e.ty) {
        (K::Lit(_), Ty::U(w)) => format!("{}u{w}", e.show()),
        (K::Lit(_), Ty::I(w)) => format!("{}i{w}", e.show()),
        _ => e.show(),
    }
}

fn text(ls: &[E], ops: &[&str], sep: &str) -> String {
    let mut s = leaf(&ls[0]);
    for (o, l) in ops.iter().zip(&ls[1..]) {
        s.push_str(&format!("{sep}{o}{sep}{}", leaf(l)));
    }
    s
}

/// the reference reading spelled out with every parenthesis
fn spelled(ls: &[String], ops: &[&str]) -> String {
    if ops.is_empty() {
        return format!("({})", ls[0]);
    }
    let k = (0..ops.len()).rev().min_by_key(|i| prec(ops[*i])).unwrap();
    format!("({} {} {})", spelled(&ls[..=k], &ops[..k]), ops[k], spelled(&ls[k + 1..], &ops[k + 1..]))
}

fn assignments(tys: &[Ty], n: usize) -> Vec<Vec<Ty>> {
    let mut v: Vec<Vec<Ty>> = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|p| tys.iter().map(move |t| [p.clone(), vec![t.clone()]].concat())).collect();
    }
    v
}

fn limit(c: Case) -> Case {
    let bits: u32 = c.ins.iter().map(|i| i.1).sum();
    if bits <= 10 {
        return c;
    }
    // all combinations of few values per operand
    let sets: Vec<Vec<u128>> = c.ins.iter().map(|i| if i.1 <= 2 { all(i.1) } else { corner(i.1) }).collect();
    c.with_stim(Stim::Sets(sets))
}

fn expressions(ctx: &Ctx) -> Vec<VCase> {
    let mut out: Vec<VCase> = vec![];
    let ops: Vec<&str> = OPS.iter().map(|o| o.0).collect();
    // ---- pairs, with every typing of three leaves
    let tys: Vec<Ty> = if ctx.thorough() {
        vec![Ty::Bool, Ty::U(1), Ty::U(2), Ty::U(3), Ty::U(4), Ty::I(1), Ty::I(2), Ty::I(3), Ty::I(4)]
    } else {
        vec![Ty::Bool, Ty::U(2), Ty::U(3), Ty::U(4), Ty::I(2), Ty::I(3), Ty::I(4)]
    };
    let asg = assignments(&tys, 3);
    let (mut np, mut nr) = (0, 0);
    for o1 in &ops {
        for o2 in &ops {
            let o = [*o1, *o2];
            let mut found = 0;
            for t in &asg {
                let Some(ls) = leaves(&o, t) else { continue };
                let ps = params(&ls);
                let tk = t.iter().map(|t| t.show()).collect::<Vec<_>>().join(",");
                match climb(&ls, &o) {
                    Some(e) => {
                        found += 1;
                        np += 1;
                        let src = unit(&ps, &e.ty.show(), &text(&ls, &o, " "));
                        out.push(VCase::case(limit(expr_case(format!("pair/{o1} {o2}/{tk}"), &ps, &e, src))));
                        if found == 1 {
                            let names: Vec<String> = ls.iter().map(leaf).collect();
                            for (k, body) in [
                                ("tight", text(&ls, &o, "")),
                                ("spelled", spelled(&names, &o)),
                                ("whole", format!("(({}))", text(&ls, &o, " "))),
                                ("lines", text(&ls, &o, "\n")),
                            ] {
                                // `a & &b`-like joints do not occur: operands are names or literals
                                let src = unit(&ps, &e.ty.show(), &body);
                                out.push(VCase::case(limit(expr_case(format!("pair-{k}/{o1} {o2}/{tk}"), &ps, &e, src))));
                            }
                        }
                    }
                    None => {
                        // only another reading is well typed: it must not be taken
                        if let Some(e) = shapes(&ls, &o).first() {
                            nr += 1;
                            let src = unit(&ps, &e.ty.show(), &text(&ls, &o, " "));
                            out.push(VCase::reject(format!("pair/{o1} {o2}/{tk}"), src));
                        }
                    }
                }
            }
        }
    }
    ctx.count("operator pairs, accepted", np);
    ctx.count("operator pairs, to be rejected", nr);
    // ---- triples: the first typings that the reference reading admits
    let tys: Vec<Ty> = if ctx.thorough() {
        vec![Ty::Bool, Ty::U(2), Ty::U(3), Ty::U(4), Ty::I(2), Ty::I(3)]
    } else {
        vec![Ty::Bool, Ty::U(2), Ty::U(3), Ty::I(3)]
    };
    let asg = assignments(&tys, 4);
    let triples: Vec<[&str; 3]> = ops
        .iter()
        .flat_map(|a| ops.iter().map(move |b| (*a, *b)))
        .flat_map(|(a, b)| ops.iter().map(move |c| [a, b, *c]))
        .collect();
    let per = ctx.pick(1, 3);
    let found: Vec<Vec<VCase>> = par_map(&triples, |_, o| {
        // prefer typings which other readings admit too
        let mut v: Vec<(usize, Vec<E>, E)> = vec![];
        for t in &asg {
            let Some(ls) = leaves(o, t) else { continue };
            if let Some(e) = climb(&ls, o) {
                let alt = shapes(&ls, o).len();
                v.push((alt, ls, e));
            }
        }
        v.sort_by_key(|x| std::cmp::Reverse(x.0));
        v.truncate(per);
        v.into_iter()
            .map(|(_, ls, e)| {
                let ps = params(&ls);
                let tk = ls.iter().map(|l| l.ty.show()).collect::<Vec<_>>().join(",");
                let src = unit(&ps, &e.ty.show(), &text(&ls, o, " "));
                VCase::case(limit(expr_case(format!("triple/{}/{tk}", o.join(" ")), &ps, &e, src)))
            })
            .collect()
    });
    ctx.count("operator triples", found.iter().map(|f| f.len() as u64).sum());
    out.extend(found.into_iter().flatten());
    // ---- prefix operators on either operand, doubled, and next to postfix forms
    let tys: Vec<Ty> = vec![Ty::Bool, Ty::U(2), Ty::U(3), Ty::I(3), Ty::I(4)];
    let two = assignments(&tys, 2);
    for o in &ops {
        for u in UNARY {
            for side in 0..2 {
                let mut k = 0;
                for t in &two {
                    let Some(ls) = leaves(&[o], t) else { continue };
                    if side == 1 && !matches!(&*ls[1].k, K::Var(_)) {
                        continue;
                    }
                    let Some(ux) = unary(u, &ls[side]) else { continue };
                    let (x, y) = if side == 0 { (&ux, &ls[1]) } else { (&ls[0], &ux) };
                    let Some(e) = binary(o, x, y) else { continue };
                    let ps = params(&ls);
                    k += 1;
                    let (l, r) = (leaf(&ls[0]), leaf(&ls[1]));
                    let body = if side == 0 { format!("{u}{l} {o} {r}") } else { format!("{l} {o} {u}{r}") };
                    let key = format!("unary{side}/{u}/{o}/{k}");
                    out.push(VCase::case(limit(expr_case(key.clone(), &ps, &e, unit(&ps, &e.ty.show(), &body)))));
                    let body = if side == 0 { format!("{u} {l} {o}\n{r}") } else { format!("({l}) {o} {u} ({r})") };
                    out.push(VCase::case(limit(expr_case(format!("{key}/b"), &ps, &e, unit(&ps, &e.ty.show(), &body)))));
                }
            }
            // a prefix operator does not reach over the binary operator
            let mut k = 0;
            for t in &two {
                let Some(ls) = leaves(&[o], t) else { continue };
                let Some(e) = binary(o, &ls[0], &ls[1]).and_then(|e| unary(u, &e)) else { continue };
                let ps = params(&ls);
                k += 1;
                let body = format!("{u}({} {o} {})", leaf(&ls[0]), leaf(&ls[1]));
                out.push(VCase::case(limit(expr_case(format!("over/{u}/{o}/{k}"), &ps, &e, unit(&ps, &e.ty.show(), &body)))));
                if unary(u, &ls[0]).and_then(|x| binary(o, &x, &ls[1])).is_none() {
                    let body = format!("{u}{} {o} {}", leaf(&ls[0]), leaf(&ls[1]));
                    out.push(VCase::reject(format!("over-not/{u}/{o}/{k}"), unit(&ps, &e.ty.show(), &body)));
                }
            }
        }
    }
    let un2: Vec<(&str, &str)> = UNARY.iter().flat_map(|a| UNARY.iter().map(move |b| (*a, *b))).collect();
    for (u, v) in &un2 {
        for t in &tys {
            let x = var("a", t.clone());
            let Some(e) = unary(v, &x).and_then(|e| unary(u, &e)) else { continue };
            let ps = [("a", t.clone())];
            for (k, body) in [("s", format!("{u} {v} a")), ("t", format!("{u}{v}a")), ("p", format!("{u}({v}(a))"))] {
                out.push(VCase::case(expr_case(format!("unary2/{u}{v}/{}/{k}", t.show()), &ps, &e, unit(&ps, &t.show(), &body))));
            }
            // three deep, and literals: `-` before a literal makes a negative literal
            for w in UNARY {
                let Some(e3) = unary(w, &e) else { continue };
                let body = format!("{w} {u} {v} a");
                out.push(VCase::case(expr_case(format!("unary3/{w}{u}{v}/{}", t.show()), &ps, &e3, unit(&ps, &t.show(), &body))));
            }
        }
    }
    // negative literals as operands
    for o in &ops {
        for t in [Ty::I(3), Ty::I(4)] {
            for v in [1i128, 3] {
                let a = var("a", t.clone());
                let neg_lit = num(-v, t.clone());
                let tw = t.width();
                let ps = [("a", t.clone())];
                if *o != "/" && *o != "%" {
                    if let Some(e) = binary(o, &a, &neg_lit) {
                        for (k, body) in [
                            ("s", format!("a {o} -{v}i{tw}")),
                            ("p", format!("a {o} (-{v}i{tw})")),
                            ("q", format!("a {o} -({v}i{tw})")),
                        ] {
                            out.push(VCase::case(expr_case(format!("neglit-r/{o}/{v}/{tw}/{k}"), &ps, &e, unit(&ps, &e.ty.show(), &body))));
                        }
                    }
                    if let Some(e) = binary(o, &neg_lit, &a) {
                        for (k, body) in [("s", format!("-{v}i{tw} {o} a")), ("p", format!("(-{v}i{tw}) {o} a"))] {
                            out.push(VCase::case(expr_case(format!("neglit-l/{o}/{v}/{tw}/{k}"), &ps, &e, unit(&ps, &e.ty.show(), &body))));
                        }
                    }
                }
            }
        }
    }
    // postfix forms bind tighter than prefix and infix operators
    for o in &ops {
        if *o == "/" || *o == "%" {
            continue;
        }
        for t in &tys {
            for u in std::iter::once("").chain(UNARY.iter().copied()) {
                let s = Ty::Tup(vec![t.clone(), t.clone()]);
                let ar = Ty::Arr(Box::new(t.clone()), 2);
                let ps = vec![("p", s.clone()), ("q", ar.clone())];
                let x0 = tidx(var("p", s.clone()), 1);
                let y = index(var("q", ar.clone()), num(1, Ty::U(1)));
                let x = if u.is_empty() { Some(x0.clone()) } else { unary(u, &x0) };
                let Some(x) = x else { continue };
                let k = format!("{u}/{o}/{}", t.show());
                if let Some(e) = binary(o, &x, &y) {
                    out.push(VCase::case(limit(expr_case(format!("postfix/{k}"), &ps, &e, unit(&ps, &e.ty.show(), &format!("{u}p.1 {o} q[1]"))))));
                }
                let yu = if u.is_empty() { Some(y.clone()) } else { unary(u, &y) };
                if let Some(e) = yu.and_then(|y| binary(o, &x0, &y)) {
                    out.push(VCase::case(limit(expr_case(format!("postfix-r/{k}"), &ps, &e, unit(&ps, &e.ty.show(), &format!("p.1 {o} {u}q[1]"))))));
                }
                // method calls and calls
                let a = var("a", t.clone());
                let i = out.len();
                let f = |e: &E| op(&format!("{{0}}.m{i}()"), e.ty.clone(), vec![e.clone()], {
                    let t = e.ty.clone();
                    move |v| match &t {
                        Ty::Bool => Val::B(!b(&v[0])),
                        t => wrap(t, !n(&v[0])),
                    }
                });
                let ma = f(&a);
                let ua = if u.is_empty() { Some(ma.clone()) } else { unary(u, &ma) };
                if let Some(e) = ua.and_then(|x| binary(o, &x, &f(&var("b", t.clone())))) {
                    let ps = vec![("a", t.clone()), ("b", t.clone())];
                    let neg = if *t == Ty::Bool { "!self" } else { "~self" };
                    let pre = format!("trait T{i} {{ fn m{i}(self) -> Self; }}\nimpl T{i} for {} {{ fn m{i}(self) -> Self {{ {neg} }} }}\n", t.show());
                    let pre = pre.replace("Self", &t.show());
                    let pre = pre.replacen(&format!("-> {};", t.show()), "-> Self;", 1);
                    let src = format!("{pre}{}", unit(&ps, &e.ty.show(), &format!("{u}a.m{i}() {o} b.m{i}()")));
                    out.push(VCase::case(limit(expr_case(format!("method/{k}"), &ps, &e, src))));
                }
            }
        }
    }
    // if and match as operands
    for o in &ops {
        for t in &tys {
            let c = var("c", Ty::Bool);
            let (x, y, z) = (var("x", t.clone()), var("y", t.clone()), var("z", t.clone()));
            let ps = vec![("c", Ty::Bool), ("x", t.clone()), ("y", t.clone()), ("z", t.clone())];
            let i = ite(c.clone(), x.clone(), y.clone());
            for (k, it) in [
                ("if", "if c { x } else { y }"),
                ("match", "match c { true => x, false => y }"),
                ("block", "{ let w = if c { x } else { y }; w }"),
                ("unsafe", "unsafe { if c { x } else { y } }"),
            ] {
                if *o != "/" && *o != "%" {
                    if let Some(e) = binary(o, &z, &i) {
                        out.push(VCase::case(limit(expr_case(format!("{k}-r/{o}/{}", t.show()), &ps, &e, unit(&ps, &e.ty.show(), &format!("z {o} {it}"))))));
                        if let Some(e2) = binary(o, &e, &z) {
                            out.push(VCase::case(limit(expr_case(format!("{k}-m/{o}/{}", t.show()), &ps, &e2, unit(&ps, &e2.ty.show(), &format!("z {o} {it} {o} z"))))));
                        }
                    }
                    if let Some(e) = binary(o, &i, &z) {
                        let body = format!("let r = {it} {o} z; r");
                        out.push(VCase::case(limit(expr_case(format!("{k}-l/{o}/{}", t.show()), &ps, &e, unit(&ps, &e.ty.show(), &body)))));
                        for u in UNARY {
                            if let Some(e) = unary(u, &i).and_then(|x| binary(o, &x, &z)) {
                                let body = format!("let r = {u} {it} {o} z; r");
                                out.push(VCase::case(limit(expr_case(format!("{k}-u{u}/{o}/{}", t.show()), &ps, &e, unit(&ps, &e.ty.show(), &body)))));
                            }
                        }
                    }
                }
            }
        }
    }
    // infix calls bind least and associate right
    let t = Ty::U(2);
    let f = |x: &E, y: &E| {
        op("m({0}, {1})", Ty::U(2), vec![x.clone(), y.clone()], |v| Val::N(wrap_u(n(&v[0]) ^ (2 * n(&v[1]) + 1), 2)))
    };
    let pre = "fn m(a: uint<2>, b: uint<2>) -> uint<2> { a ^ (b << 1) ^ 1 }\n";
    let v = |i: usize| var(NAMES[i], Ty::U(2));
    let ps: Vec<(&str, Ty)> = NAMES.iter().map(|n| (*n, t.clone())).collect();
    for o in ["|", "^", "&", "<<", ">>", "+.", "-.", "*.", ">>>"] {
        let o2 = |x: &E, y: &E| binary(o, x, y).unwrap();
        for (k, body, e) in [
            ("lr", format!("a {o} b `m` c {o} d"), f(&o2(&v(0), &v(1)), &o2(&v(2), &v(3)))),
            ("chain", format!("a `m` b {o} c `m` d"), f(&v(0), &f(&o2(&v(1), &v(2)), &v(3)))),
            ("tail", format!("a `m` b `m` c {o} d"), f(&v(0), &f(&v(1), &o2(&v(2), &v(3))))),
            ("head", format!("a {o} b `m` c `m` d"), f(&o2(&v(0), &v(1)), &f(&v(2), &v(3)))),
            ("paren", format!("(a `m` b) {o} (c `m` d)"), o2(&f(&v(0), &v(1)), &f(&v(2), &v(3)))),
            ("right", format!("a `m` b `m` c `m` d"), f(&v(0), &f(&v(1), &f(&v(2), &v(3))))),
            ("left", format!("((a `m` b) `m` c) `m` d"), f(&f(&f(&v(0), &v(1)), &v(2)), &v(3))),
            ("unary", format!("~a {o} b `m` ~c {o} ~d"), f(&o2(&bnot(v(0)), &v(1)), &o2(&bnot(v(2)), &bnot(v(3))))),
        ] {
            let src = format!("{pre}{}", unit(&ps, "uint<2>", &body));
            out.push(VCase::case(expr_case(format!("infix/{o}/{k}"), &ps, &e, src)));
        }
    }
    out
}

// ------------------------------------------------------------------ part B: layout

fn lex(s: &str) -> Vec<(spade_ast::token::TokenKind, std::ops::Range<usize>)> {
    use logos::Logos;
    spade_ast::token::TokenKind::lexer(s).spanned().map(|(t, r)| (t.expect("corpus does not lex"), r)).collect()
}

/// tokens without comments
fn tokens(s: &str) -> Vec<(String, bool)> {
    use spade_ast::token::TokenKind as T;
    let mut out = vec![];
    let mut depth = 0;
    for (t, r) in lex(s) {
        match t {
            T::BlockCommentStart => depth += 1,
            T::BlockCommentEnd => depth -= 1,
            T::Comment => {}
            _ if depth > 0 => {}
            T::OutsideDocumentation(_) | T::InsideDocumentation(_) => out.push((s[r].to_string(), true)),
            _ => out.push((s[r].to_string(), false)),
        }
    }
    out
}

fn join(ts: &[(String, bool)], sep: impl Fn(usize) -> String) -> String {
    let mut s = String::new();
    for (i, (t, doc)) in ts.iter().enumerate() {
        // `*` and a comment are not the end of a comment
        if s.ends_with(['*', '/']) && sep(i).starts_with('/') {
            s.push(' ');
        }
        s.push_str(&sep(i));
        s.push_str(t);
        if *doc {
            s.push('\n');
        }
    }
    s.push_str(&sep(ts.len()));
    s
}

/// whether two tokens can stand next to each other without a blank
fn tight(a: &(String, bool), b: &(String, bool)) -> bool {
    if a.1 {
        return true;
    }
    use logos::Logos;
    let s = format!("{}{}", a.0, b.0);
    let v: Vec<_> = spade_ast::token::TokenKind::lexer(&s).spanned().collect();
    v.len() == 2 && v[0].0.is_ok() && v[1].0.is_ok() && v[0].1 == (0..a.0.len())
}

const SEPS: &[(&str, &str)] = &[
    ("line", " // c ( { [ \" ' /* \n"),
    ("block", "/* c ) } ] */"),
    ("nested", "/*/* // */ \" **//**/"),
    ("blank", " \t\r\n\n"),
];

struct V {
    key: String,
    prog: usize,
    text: String,
    /// a variant which may also be rejected
    lenient: bool,
}

fn layouts(ps: &[P]) -> Vec<V> {
    let mut out = vec![];
    for (pi, p) in ps.iter().enumerate() {
        let ts = tokens(p.src);
        let n = ts.len();
        let mut add = |k: String, text: String, lenient: bool| out.push(V { key: format!("{k}/{}", p.key), prog: pi, text, lenient });
        // everywhere at once
        add("single".into(), join(&ts, |_| " ".into()), false);
        for (k, s) in SEPS {
            add(format!("all-{k}"), join(&ts, |_| s.to_string()), false);
        }
        let min = |i: usize| {
            if i == 0 || i == n || tight(&ts[i - 1], &ts[i]) { String::new() } else { " ".to_string() }
        };
        add("tight".into(), join(&ts, min), false);
        // one boundary at a time, in otherwise tight text
        for b in 0..=n {
            for (k, s) in SEPS {
                add(format!("at{b}-{k}"), join(&ts, |i| if i == b { s.to_string() } else { min(i) }), false);
            }
        }
        // `>>` closing two generic lists is two tokens, apart or not
        for b in 0..n {
            if (ts[b].0 == ">>" || ts[b].0 == ">>>") && p.src.contains('<') {
                let apart = ts[b].0.chars().map(|c| c.to_string()).collect::<Vec<_>>().join(" ");
                let mut t2 = ts.clone();
                t2[b].0 = apart;
                add(format!("apart{b}"), join(&t2, |_| " ".into()), true);
            }
        }
        // closing brackets after lists
        let mut stack: Vec<(usize, usize, String)> = vec![];
        for i in 0..n {
            match ts[i].0.as_str() {
                "(" | "[" | "{" => stack.push((i, 0, ts[i].0.clone())),
                "," => {
                    if let Some(t) = stack.last_mut() {
                        t.1 += 1
                    }
                }
                ")" | "]" | "}" => {
                    let (o, commas, br) = stack.pop().unwrap();
                    if i == o + 1 || ts[i - 1].0 == "," {
                        continue;
                    }
                    let mut t2 = ts.clone();
                    t2.insert(i, (",".into(), false));
                    // a list of one in plain parentheses would become a tuple
                    if commas == 0 && br == "(" && !(o > 0 && ts[o - 1].0.chars().all(|c| c.is_alphanumeric() || c == '_')) {
                        continue;
                    }
                    let strict = commas > 0 && br != "{";
                    add(format!("comma{i}"), join(&t2, |_| " ".into()), !strict);
                }
                _ => {}
            }
        }
        // parentheses around single names and literals
        for i in 0..n {
            let t = &ts[i].0;
            let c = t.chars().next().unwrap();
            if ts[i].1 || !(c.is_alphanumeric() || c == '_') {
                continue;
            }
            if matches!(t.as_str(), "self" | "fn" | "let" | "reg" | "entity" | "match" | "if" | "else" | "mod" | "use") {
                continue;
            }
            // `-` and a literal make a negative literal, `-(literal)` an operation
            if i > 0 && ts[i - 1].0 == "-" {
                continue;
            }
            let mut t2 = ts.clone();
            t2[i].0 = format!("({t})");
            add(format!("paren{i}"), join(&t2, |_| " ".into()), true);
        }
    }
    out
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let only = std::env::var("MC_ONLY").ok();
    let mut ex = expressions(&ctx);
    if let Some(o) = &only {
        ex.retain(|c| c.key.starts_with(o.as_str()));
    }
    for std in [false] {
        run_verdicts(&ctx, &pool, &ex, &RunOpt { batch: 150, stdlib: std, ..RunOpt::std() });
    }
    for std in [false, true] {
        let ps: Vec<P> = corpus().into_iter().filter(|p| p.std == std).collect();
        let base = canon_all(&pool, &ps.iter().enumerate().map(|(i, p)| p.text(&format!("QU{i}"))).collect::<Vec<_>>(), std, 1);
        for (p, b) in ps.iter().zip(&base) {
            match b {
                Err(e) => ctx.violation(&format!("corpus/{}", p.key), e, json!({"kind": "verdict", "source": p.text("QU0"), "stdlib": std, "expected": "accepted"})),
                Ok(t) if t.is_empty() => panic!("{}: no modules", p.key),
                _ => {}
            }
        }
        let mut vs = layouts(&ps);
        if let Some(o) = &only {
            vs.retain(|c| c.key.starts_with(o.as_str()));
        }
        let texts: Vec<String> = vs.iter().enumerate().map(|(i, v)| v.text.replace("QU", &format!("QU{i}"))).collect();
        let res = canon_all(&pool, &texts, std, if std { 100 } else { 60 });
        let (mut same, mut refused) = (0, 0);
        for (i, v) in vs.iter().enumerate() {
            let what = match (&res[i], &base[v.prog]) {
                (Ok(a), Ok(b)) if a == b => {
                    same += 1;
                    None
                }
                (Ok(a), Ok(b)) => {
                    let d = a.lines().zip(b.lines()).find(|(x, y)| x != y);
                    Some(format!("a change of layout changed the generated hardware: {d:?}"))
                }
                (Err(e), Ok(_)) if v.lenient && e.starts_with("rejected") => {
                    refused += 1;
                    None
                }
                (Err(e), Ok(_)) => Some(format!("a change of layout changed the verdict: {e}")),
                _ => None,
            };
            ctx.states(1, 1, 0);
            ctx.distinct(hash64(&v.text));
            if let Some(w) = what {
                ctx.violation(&v.key, &w, json!({"kind": "layout", "source": texts[i], "stdlib": std, "original": ps[v.prog].text("QU")}));
            }
        }
        ctx.programs(vs.len() as u64);
        ctx.count("layout variants with the same hardware", same);
        ctx.count("variants that are no spelling of the program (rejected)", refused);
    }
    ctx.finish(
        "model_checking",
        "every pair of binary operators with every typing of its three operands, every triple with the typings most readings admit, every prefix operator at every operand, each judged on all inputs against the reading the documented precedence gives; every token boundary of every corpus program with every kind of blank and comment, every list with a trailing comma, every name in parentheses, each compared as generated hardware",
        &["the Verilog simulator of the engine", "the corpus uses every construct of the language"],
        true,
    )
}
