//! P10: pipelines compute their bodies, stage by stage.
use super::p08::{and, not, wadd, xor};
use super::types::*;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::pipe::*;
use crate::report::*;
use crate::seq::*;

/// width of the data moved around; the families with many inputs use a single bit in the quick tier
static WIDTH: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(2);
fn width(w: u32) {
    WIDTH.store(w, std::sync::atomic::Ordering::SeqCst);
}
fn u2() -> Ty {
    Ty::U(WIDTH.load(std::sync::atomic::Ordering::SeqCst))
}
fn u1() -> Ty {
    Ty::U(1)
}
fn x2(n: &str) -> E {
    var(n, u2())
}
fn vb(n: &str) -> E {
    var(n, Ty::Bool)
}
fn inv(e: E) -> E {
    let t = e.ty.clone();
    let w = t.width();
    op("~{0}", t, vec![e], move |v| Val::N(wrap_u(!n(&v[0]), w)))
}
fn bx(a: E, c: E) -> E {
    let t = a.ty.clone();
    op("{0} ^ {1}", t, vec![a, c], |v| Val::N(n(&v[0]) ^ n(&v[1])))
}

/// a chain of `l` registers around an increment
pub fn plain(l: usize) -> Pipe {
    let mut b = vec![let_("y", wadd(x2("x"), 1))];
    b.extend((0..l).map(|_| stage()));
    Pipe::new(&format!("plain{l}"), l, &[("x", u2())], b, x2("y"))
}
/// stalls on an input
pub fn stalling(l: usize) -> Pipe {
    let mut b = vec![let_("y", inv(x2("x")))];
    b.extend((0..l).map(|k| if k + 1 == l { stall(vb("c")) } else { stage() }));
    Pipe::new(&format!("stalling{l}"), l, &[("x", u2()), ("wire c", Ty::Bool)], b, x2("y"))
}
/// instantiates `plain1` at its start and waits for it
pub fn nested(l: usize) -> Pipe {
    let p = plain(1);
    let mut b = vec![let_("y", inst(1, &p, vec![x2("x")]))];
    b.extend((0..l).map(|_| stage()));
    Pipe::new(&format!("nested{l}"), l, &[("x", u2())], b, bx(x2("y"), x2("x")))
}

/// stall conditions for `n` markers from a bit set; each with its own wire input
pub fn conds(n: usize, set: usize) -> (Vec<PS>, Vec<(&'static str, Ty)>) {
    let names = ["c0", "c1", "c2", "c3"];
    let wires = ["wire c0", "wire c1", "wire c2", "wire c3"];
    let mut m = vec![];
    let mut p = vec![];
    for k in 0..n {
        if set >> k & 1 == 1 {
            m.push(stall(vb(names[k])));
            p.push((wires[k], Ty::Bool));
        } else {
            m.push(stage());
        }
    }
    (m, p)
}
/// put statements of every stage between the markers
fn weave(n: usize, set: usize, st: Vec<Vec<PS>>, ps: &[(&str, Ty)], out: E, pre: Vec<Pipe>) -> Program {
    let (m, cp) = conds(n, set);
    let mut b = vec![];
    for (k, s) in st.into_iter().enumerate() {
        if k > 0 {
            b.push(m[k - 1].clone());
        }
        b.extend(s);
    }
    let mut params = ps.to_vec();
    params.extend(cp);
    let mut pipes = pre;
    pipes.push(Pipe::new("top", n, &params, b, out));
    Program::new(pipes)
}
fn empty(n: usize) -> Vec<Vec<PS>> {
    vec![vec![]; n + 1]
}

/// every bounded program, correct or not
pub fn programs(thorough: bool) -> Vec<(String, Program)> {
    let mut out: Vec<(String, Program)> = vec![];
    // --- a value defined in one stage and used in another
    for nst in 0..=if thorough { 4 } else { 3 } {
        for set in 0..1usize << nst {
            for d in 0..=nst {
                for u in d..=nst {
                    if nst == 4 && (set.count_ones() == 3 || set == 6) {
                        continue;
                    }
                    let mut st = empty(nst);
                    st[d].push(let_("y", wadd(x2("x"), 1)));
                    st[u].push(let_("w", inv(x2("y"))));
                    out.push((format!("move/{nst}/{set}/{d}/{u}"), weave(nst, set, st, &[("x", u2())], x2("w"), vec![])));
                }
            }
        }
    }
    // --- ready and valid in every stage
    for nst in 0..=3usize {
        for set in 0..1usize << nst {
            for k in 0..=nst {
                let mut st = empty(nst);
                st[k].push(let_("r", ready()));
                st[k].push(let_("v", valid()));
                let o = tup(vec![x2("x"), vb("r"), vb("v"), valid(), ready()]);
                out.push((format!("ready/{nst}/{set}/{k}"), weave(nst, set, st, &[("x", u2())], o, vec![])));
            }
            let mut st = empty(nst);
            for k in 0..=nst {
                st[k].push(wire(&format!("r{k}"), ready()));
                st[k].push(wire(&format!("v{k}"), valid()));
            }
            let o = tup((0..=nst).flat_map(|k| [vb(&format!("r{k}")), vb(&format!("v{k}"))]).collect());
            out.push((format!("readies/{nst}/{set}"), weave(nst, set, st, &[], o, vec![])));
        }
    }
    let narrow = if thorough { 2 } else { 1 };
    width(narrow);
    // --- references to other stages
    for nst in 1..=if thorough { 4 } else { 3 } {
        for set in [0, 1, 1 << (nst - 1), (1 << nst) - 1, 1 << (nst / 2)] {
            if nst == 1 && set > 1 || nst == 4 && set == 15 {
                continue;
            }
            for s in 0..=nst {
                for k in -(nst as i64) - 1..=nst as i64 + 1 {
                    // None: the parameter
                    for d in std::iter::once(None).chain((0..=nst).map(Some)) {
                        let mut st = empty(nst);
                        let v = if d.is_none() { "x" } else { "y" };
                        if let Some(d) = d {
                            st[d].push(let_("y", wadd(x2("x"), 1)));
                        }
                        st[s].push(let_("w", rel(k, v, u2())));
                        let d = d.map(|d| d.to_string()).unwrap_or("p".into());
                        out.push((format!("rel/{nst}/{set}/{s}/{k}/{d}"), weave(nst, set, st, &[("x", u2())], x2("w"), vec![])));
                    }
                }
                for l in 0..=nst {
                    for d in 0..=nst {
                        let mut st = empty(nst);
                        st[l].push(PS::Label("here".into()));
                        st[d].push(let_("y", wadd(x2("x"), 1)));
                        st[s].push(let_("w", lab("here", "y", u2())));
                        out.push((format!("label/{nst}/{set}/{s}/{l}/{d}"), weave(nst, set, st, &[("x", u2())], x2("w"), vec![])));
                    }
                }
            }
        }
    }
    // --- references used as forwarding paths
    for nst in 1..=3usize {
        for k in 1..=nst as i64 {
            for s in 0..=(nst - k as usize) {
                for set in [0, 1, 1 << (nst - 1)] {
                    let mut st = empty(nst);
                    // the accumulated value, forwarded from k stages ahead
                    st[s].push(let_("y", ite(vb("f"), rel(k, "y", u2()), x2("x"))));
                    st[s].push(let_("z", rel(k, "x", u2())));
                    let o = tup(vec![x2("y"), x2("z")]);
                    out.push((format!("bypass/{nst}/{k}/{s}/{set}"), weave(nst, set, st, &[("x", u2()), ("f", Ty::Bool)], o, vec![])));
                    // in a block, and of a value defined in the target stage
                    let mut st = empty(nst);
                    st[s].push(let_("y", block(vec![(Pat::Bind("q".into()), None, rel(k, "z", u2()))], bx(var("q", u2()), x2("x")))));
                    st[s + k as usize].push(let_("z", inv(x2("x"))));
                    out.push((format!("ahead/{nst}/{k}/{s}/{set}"), weave(nst, set, st, &[("x", u2())], x2("y"), vec![])));
                    let mut st = empty(nst);
                    st[s + k as usize].push(let_("z", ite(vb("f"), rel(-k, "x", u2()), rel(0, "x", u2()))));
                    out.push((format!("back/{nst}/{k}/{s}/{set}"), weave(nst, set, st, &[("x", u2()), ("f", Ty::Bool)], x2("z"), vec![])));
                }
            }
        }
    }
    // --- declared before definition
    for nst in 1..=2usize {
        for d in 0..=nst {
            for u in 0..=nst {
                for w in [false, true] {
                    for after in [false, true] {
                        let mut st = empty(nst);
                        st[0].push(PS::Decl("y".into()));
                        let use_ = let_("w", x2("y"));
                        let def = if w { wire("y", inv(x2("x"))) } else { let_("y", inv(x2("x"))) };
                        if !after {
                            st[u].push(use_.clone());
                        }
                        st[d].push(def);
                        if after {
                            st[u].push(use_);
                        }
                        out.push((format!("decl/{nst}/{d}/{u}/{w}/{after}"), weave(nst, 0, st, &[("x", u2())], x2("w"), vec![])));
                    }
                }
            }
        }
    }
    // --- wires
    for nst in 1..=3usize {
        for d in 0..=nst {
            for u in d..=nst {
                for set in [0, (1 << nst) - 1] {
                    let mut st = empty(nst);
                    st[d].push(wire("z", bx(x2("x"), x2("w"))));
                    st[u].push(let_("y", x2("z")));
                    st[u].push(let_("p", x2("w")));
                    let o = tup(vec![x2("y"), x2("p"), x2("w")]);
                    let (m, cp) = conds(nst, set);
                    let _ = (m, cp);
                    out.push((format!("wire/{nst}/{set}/{d}/{u}"), weave(nst, set, st, &[("x", u2()), ("wire w", u2())], o, vec![])));
                }
            }
        }
    }
    // --- sub-pipelines of every depth, in every stage, used in every later stage
    for nst in 0..=3usize {
        for l in 0..=3usize {
            for (f, sub) in [plain(l), stalling(l), nested(l)].into_iter().enumerate() {
                if sub.depth == 0 && f > 0 {
                    continue;
                }
                for d in 0..=nst {
                    for u in d..=nst {
                        for set in [0, (1 << nst) - 1, 1usize << (nst / 2)] {
                            if (set > 0) && nst == 0 || set == 7 && f != 0 || nst == 1 && set > 1 {
                                continue;
                            }
                            for dl in [0, 1, -1i64, 9] {
                                let id = l as i64 + dl;
                                if dl != 0 && dl != 9 && (set != 0 || f == 2) || id < 0 {
                                    continue;
                                }
                                let args = if f == 1 { vec![x2("x"), vb("k")] } else { vec![x2("x")] };
                                let i = inst_s(&if dl == 9 { "_".into() } else { id.to_string() }, &sub, args);
                                let mut st = empty(nst);
                                st[d].push(let_("y", i));
                                st[u].push(let_("w", bx(x2("y"), x2("x"))));
                                let mut ps = vec![("x", u2())];
                                if f == 1 {
                                    ps.push(("wire k", Ty::Bool));
                                }
                                let pre = if f == 2 { vec![plain(1), sub.clone()] } else { vec![sub.clone()] };
                                out.push((format!("sub/{nst}/{}/{d}/{u}/{set}/{dl}", sub.name), weave(nst, set, st, &ps, x2("w"), pre)));
                            }
                        }
                    }
                }
            }
        }
    }
    width(2);
    // --- sub-pipelines of sub-pipelines and in one expression, in every kind of expression
    let (p0, p1, p2) = (plain(0), plain(1), plain(2));
    let cm = Pipe::new("cm", 1, &[("x", Ty::Bool)], vec![stage()], not(vb("x")));
    let leaves: Vec<(&str, E)> = vec![
        ("now", x2("x")),
        ("const", op("2u2", u2(), vec![], |_| Val::N(2))),
        ("wire", x2("w")),
        ("i0", inst(0, &p0, vec![x2("x")])),
        ("i1", inst(1, &p1, vec![x2("x")])),
        ("i2", inst(2, &p2, vec![x2("x")])),
        ("i1i1", inst(1, &p1, vec![inst(1, &p1, vec![x2("x")])])),
        ("i1w", inst(1, &p1, vec![x2("w")])),
        ("i1c", inst(1, &p1, vec![op("1u2", u2(), vec![], |_| Val::N(1))])),
    ];
    let bleaves: Vec<(&str, E)> = vec![("now", vb("c")), ("const", lit(Val::B(true), Ty::Bool)), ("wire", vb("k")), ("i1", inst(1, &cm, vec![vb("c")]))];
    let t22 = Ty::Tup(vec![u2(), u2()]);
    let s22 = mk_struct("Pr", &[("a", u2()), ("b", u2())]);
    let mut ctxs: Vec<(String, E)> = vec![];
    for (na, a) in &leaves {
        for (nb, bb) in &leaves {
            ctxs.push((format!("xor/{na}/{nb}"), bx(a.clone(), bb.clone())));
            ctxs.push((format!("tup/{na}/{nb}"), tup(vec![a.clone(), bb.clone()])));
            ctxs.push((format!("arr/{na}/{nb}"), arr(vec![a.clone(), bb.clone()])));
            ctxs.push((format!("struct/{na}/{nb}"), snew(&s22, vec![a.clone(), bb.clone()])));
            ctxs.push((format!("field/{na}/{nb}"), field(snew(&s22, vec![a.clone(), bb.clone()]), "b")));
            ctxs.push((format!("tidx/{na}/{nb}"), tidx(tup(vec![a.clone(), bb.clone()]), 1)));
            ctxs.push((format!("index/{na}/{nb}"), index(arr(vec![a.clone(), num(3, u2()), bb.clone(), a.clone()]), bb.clone())));
            ctxs.push((format!("inst/{na}/{nb}"), inst(1, &p1, vec![bx(a.clone(), bb.clone())])));
            for (nc, c) in &bleaves {
                ctxs.push((format!("if/{nc}/{na}/{nb}"), ite(c.clone(), a.clone(), bb.clone())));
                ctxs.push((
                    format!("match/{nc}/{na}/{nb}"),
                    mtch(tup(vec![c.clone(), c.clone()]), vec![(Pat::Tup(vec![Pat::Wild, Pat::Bool(true)]), a.clone()), (Pat::Wild, bb.clone())]),
                ));
                ctxs.push((
                    format!("guard/{nc}/{na}/{nb}"),
                    mtchg(a.clone(), vec![(Pat::Int(1), None, bb.clone()), (Pat::Wild, Some(c.clone()), bb.clone()), (Pat::Wild, None, num(0, u2()))]),
                ));
            }
        }
        ctxs.push((format!("not/{na}"), inv(a.clone())));
        ctxs.push((format!("match_bind/{na}"), mtch(a.clone(), vec![(Pat::Bind("q".into()), var("q", u2()))])));
        ctxs.push((format!("block/{na}"), block(vec![(Pat::Bind("q".into()), None, x2("x"))], a.clone())));
        ctxs.push((format!("block_let/{na}"), block(vec![(Pat::Bind("q".into()), None, a.clone())], var("q", u2()))));
        ctxs.push((format!("block_let_unused/{na}"), block(vec![(Pat::Bind("q".into()), None, a.clone())], x2("x"))));
        ctxs.push((
            format!("block_tup/{na}"),
            block(vec![(Pat::Tup(vec![Pat::Bind("q".into()), Pat::Wild]), None, tup(vec![a.clone(), a.clone()]))], var("q", u2())),
        ));
    }
    let _ = t22;
    for (ci, (name, e)) in ctxs.iter().enumerate() {
        for u in 0..=2usize {
            if !thorough && u == 1 && ci % 2 == 0 || e.ty.width() > 2 && u == 0 && !thorough {
                continue;
            }
            let nst = 2;
            let mut st = empty(nst);
            st[0].push(let_("y", e.clone()));
            st[u].push(let_("r", var("y", e.ty.clone())));
            let ps = [("x", u2()), ("c", Ty::Bool), ("wire w", u2()), ("wire k", Ty::Bool)];
            let o = var("r", e.ty.clone());
            out.push((format!("expr/{u}/{name}"), weave(nst, 0, st, &ps, o, vec![p0.clone(), p1.clone(), p2.clone(), cm.clone()])));
        }
    }
    // --- registers inside stages
    for nst in 0..=2usize {
        for d in 0..=nst {
            for u in d..=nst {
                for set in 0..1usize << nst {
                    for reset in 0..3 {
                        let mut r = Reg::new("r", u2(), bx(x2("r"), x2("x")));
                        if reset >= 1 {
                            r = r.reset(vb("rst"), num(1, u2()));
                        }
                        if reset == 2 {
                            r = r.init(num(2, u2()));
                        }
                        let mut st = empty(nst);
                        st[d].push(PS::Reg(r));
                        st[u].push(let_("y", x2("r")));
                        let o = tup(vec![x2("y"), x2("x")]);
                        out.push((format!("reg/{nst}/{set}/{d}/{u}/{reset}"), weave(nst, set, st, &[("x", u2()), ("rst", Ty::Bool)], o, vec![])));
                    }
                }
                // fed by a sub-pipeline, possibly late
                for l in 0..=2 {
                    let sub = plain(l);
                    let mut st = empty(nst);
                    st[d].push(PS::Reg(Reg::new("r", u2(), inst(l, &sub, vec![x2("x")]))));
                    st[u].push(let_("y", x2("r")));
                    out.push((format!("late_reg/{nst}/{d}/{u}/{l}"), weave(nst, 0, st, &[("x", u2())], x2("y"), vec![sub])));
                }
            }
        }
    }
    // --- stall conditions of every form, on every marker
    for nst in 1..=3usize {
        for m in 0..nst {
            for d in 0..=nst {
                let forms: Vec<(&str, E)> = vec![
                    ("param", vb("c")),
                    ("wire", vb("k")),
                    ("let", vb("d")),
                    ("not", not(vb("d"))),
                    ("both", xor(vb("d"), vb("c"))),
                    ("prev", rel(-1, "c", Ty::Bool)),
                    ("next", rel(1, "c", Ty::Bool)),
                    ("nextlet", rel(1, "d", Ty::Bool)),
                    ("prevlet", rel(-1, "d", Ty::Bool)),
                    ("lit", lit(Val::B(true), Ty::Bool)),
                    ("block", block(vec![(Pat::Bind("q".into()), None, vb("d"))], and(vb("q"), vb("c")))),
                    ("late", inst(1, &cm, vec![vb("c")])),
                    ("match", mtch(x2("x"), vec![(Pat::Int(0), vb("d")), (Pat::Wild, vb("c"))])),
                ];
                for (name, e) in forms {
                    if d > 0 && ["param", "wire", "prev", "next", "lit", "late"].contains(&name) {
                        continue;
                    }
                    let mut b = vec![];
                    for k in 0..=nst {
                        if k > 0 {
                            b.push(if k - 1 == m { stall(e.clone()) } else { stage() });
                        }
                        if k == d {
                            b.push(let_("d", not(vb("c"))));
                        }
                    }
                    let t = Pipe::new(
                        "top",
                        nst,
                        &[("x", u2()), ("c", Ty::Bool), ("wire k", Ty::Bool)],
                        b,
                        tup(vec![x2("x"), vb("c"), valid()]),
                    );
                    out.push((format!("cond/{nst}/{m}/{d}/{name}"), Program::new(vec![cm.clone(), t])));
                }
            }
        }
    }
    // the result of a sub-pipeline as a stall condition of a later marker
    for nst in 1..=3usize {
        for m in 0..nst {
            for d in 0..=m {
                let mut b = vec![];
                for k in 0..=nst {
                    if k > 0 {
                        b.push(if k - 1 == m { stall(vb("d")) } else { stage() });
                    }
                    if k == d {
                        b.push(let_("d", inst(1, &cm, vec![vb("c")])));
                    }
                }
                let t = Pipe::new("top", nst, &[("x", u2()), ("c", Ty::Bool)], b, tup(vec![x2("x"), valid()]));
                out.push((format!("cond_sub/{nst}/{m}/{d}"), Program::new(vec![cm.clone(), t])));
            }
        }
    }
    // --- every type
    let mut types: Vec<Ty> = grammar(4, true);
    if !thorough {
        types = types.into_iter().enumerate().filter(|(i, _)| *i < 20 || i % 9 == 0).map(|x| x.1).collect();
    }
    types.push(Ty::Tup(vec![]));
    for t in &types {
        for (nst, set) in [(1, 0), (2, 2), (3, 1)] {
            let w = t.width();
            if w > 2 && nst > 1 && !thorough || w * nst as u32 > 8 {
                continue;
            }
            let mut st = empty(nst);
            st[nst - 1].push(let_("y", var("x", t.clone())));
            out.push((format!("type/{nst}/{}", t.show()), weave(nst, set, st, &[("x", t.clone())], var("y", t.clone()), vec![])));
        }
        // through a destructuring pattern, and late
        if t.width() <= 3 {
            let id = Pipe::new("idp", 1, &[("x", Ty::Tup(vec![t.clone(), Ty::Bool]))], vec![stage()], var("x", Ty::Tup(vec![t.clone(), Ty::Bool])));
            for u in 0..=2 {
                let mut st = empty(2);
                st[0].push(PS::Let(
                    Pat::Tup(vec![Pat::Bind("a".into()), Pat::Bind("bb".into())]),
                    false,
                    inst(1, &id, vec![tup(vec![var("x", t.clone()), vb("c")])]),
                ));
                st[u].push(let_("z", tup(vec![vb("bb"), var("a", t.clone())])));
                let o = var("z", Ty::Tup(vec![Ty::Bool, t.clone()]));
                out.push((format!("destructure/{u}/{}", t.show()), weave(2, 0, st, &[("x", t.clone()), ("c", Ty::Bool)], o, vec![id.clone()])));
            }
        }
    }
    // --- the same name defined again in any stages
    for nst in 1..=3usize {
        for defs in 0..1usize << (nst + 1) {
            for set in [0, 1 << (nst - 1)] {
                let mut st = empty(nst);
                for (k, s) in st.iter_mut().enumerate() {
                    if defs >> k & 1 == 1 {
                        s.push(let_("x", wadd(x2("x"), 1)));
                    }
                    if k == 1 {
                        s.push(let_("s1_x", inv(x2("x"))));
                    }
                }
                let o = tup(vec![x2("x"), x2("s1_x")]);
                out.push((format!("shadow/{nst}/{defs}/{set}"), weave(nst, set, st, &[("x", u2())], o, vec![])));
            }
        }
    }
    // --- every sequence of one statement per stage
    let sub1 = Pipe::new("sb", 1, &[("x", u1())], vec![stage()], inv(var("x", u1())));
    let v1 = |n: &str| var(n, u1());
    let alpha: Vec<Vec<PS>> = vec![
        vec![],
        vec![let_("y", bx(v1("x"), v1("y")))],
        vec![let_("x", inv(v1("y")))],
        vec![let_("y", rel(-1, "x", u1()))],
        vec![let_("y", rel(1, "x", u1()))],
        vec![PS::Reg(Reg::new("y", u1(), v1("x")))],
        vec![wire("y", v1("x"))],
        vec![let_("y", inst(1, &sub1, vec![v1("x")]))],
        vec![PS::Decl("y".into())],
        vec![let_("x", lab("m", "y", u1()))],
        vec![PS::Label("m".into())],
        vec![let_("x", rel(1, "y", u1()))],
    ];
    let n = alpha.len();
    for code in 0..n * n * n {
        let (i, j, k) = (code % n, code / n % n, code / n / n);
        let sets: &[usize] = if thorough { &[0, 1, 2, 3] } else { [&[0][..], &[1], &[2], &[3]][(i + 2 * j + 3 * k) % 4] };
        for &set in sets {
            let o = tup(vec![v1("y"), v1("x")]);
            out.push((
                format!("seq/{i}/{j}/{k}/{set}"),
                weave(2, set, vec![alpha[i].clone(), alpha[j].clone(), alpha[k].clone()], &[("x", u1()), ("y", u1())], o, vec![sub1.clone()]),
            ));
        }
    }
    out
}

/// The programs of this check; also compiled with optimisation passes by P14.
pub fn cases(ctx: &Ctx, step: usize) -> (Vec<Case>, u64) {
    let mut cases: Vec<Case> = vec![];
    let mut rejected = 0;
    for (key, p) in programs(ctx.thorough()).into_iter().step_by(step) {
        match p.flatten() {
            Ok(c) => {
                let mut k = c.case_src(key, p.src());
                if k.key.starts_with("expr/") {
                    k.stim = Stim::Sets(vec![(0..4).collect(), vec![0, 1], vec![1, 2], vec![0, 1]]);
                }
                // late values make long pipes: bound by depth where the state space is not closed
                k.max_depth = if c.regs.iter().map(|r| r.ty.width()).sum::<u32>() > 9 { ctx.pick(7, 10) } else { 1000 };
                cases.push(k);
            }
            Err(_) => rejected += 1,
        }
    }
    cases.extend(forms(ctx.thorough()));
    let _ = st;
    (cases, rejected)
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let (mut cases, rejected) = cases(&ctx, 1);
    ctx.count("programs_without_meaning_left_to_P11", rejected);
    if let Ok(f) = std::env::var("P10_FAMILY") {
        cases.retain(|c| c.key.split('/').next().unwrap() == f);
    }
    let mut fam: std::collections::BTreeMap<&str, (usize, u64)> = Default::default();
    for c in &cases {
        let e = fam.entry(c.key.split('/').next().unwrap()).or_default();
        e.0 += 1;
    }
    eprintln!("[p10] {} programs {fam:?}", cases.len());
    run_cases(&ctx, &pool, &cases, &RunOpt { batch: 150, ..RunOpt::std() });
    ctx.finish(
        "model_checking",
        "pipelines of up to 3 (thorough: 4) stages: every value moved from every stage to every later stage under every set of \
         stalling markers; stage.ready and stage.valid in every stage; every relative and labelled reference; forwarding paths; \
         wires; sub-pipelines of depth 0 to 3 (plain, stalling, nested) in every stage and used in every later one and in every \
         kind of expression; registers in stages; stall conditions of every form; every type of the bounded grammar; shadowing; \
         every sequence of one of twelve statements per stage; generic depths, `reg*N`, methods, traits and lambdas. The product of the \
         emitted Verilog and the reference model (stages flattened into registers) is explored breadth first over all inputs until \
         no new state appears.",
        &["the Verilog subset is executed by this framework's own four-state simulator",
          "pipeline registers start undefined; the reference treats anything computed from them as unconstrained",
          "pipelines with more than 9 bits of reference state are followed for seven (thorough: ten) cycles only"],
        true,
    )
}

/// other ways to write the same pipelines
fn forms(_thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let chain = |l: usize, f: &dyn Fn(E) -> E| {
        let mut st = vec![let_("y", f(x2("x")))];
        st.extend((0..l).map(|_| stage()));
        Program::new(vec![Pipe::new("top", l, &[("x", u2())], st, x2("y"))]).flatten().unwrap()
    };
    let inc = |e: E| wadd(e, 1);
    for l in 0..=4usize {
        let c = chain(l, &inc);
        let mut add = |n: &str, src: String| out.push(c.case_src(format!("form/{n}/{l}"), src));
        let h = format!("pipeline({l}) top(clk: clock, x: uint<2>) -> uint<2>");
        let e = "entity top(clk: clock, x: uint<2>) -> uint<2>";
        add("regs", format!("{h} {{ let y = x +. 1; reg*{l}; y }}"));
        for k in 0..=l {
            add("regs_split", format!("{h} {{ reg*{k}; let y = x +. 1; reg*{}; y }}", l - k));
        }
        add("entity", format!("{e} {{ inst({l}) p(clk, x) }} pipeline({l}) p(clk: clock, x: uint<2>) -> uint<2> {{ reg*{l}; x +. 1 }}"));
        add("entity_infer", format!("{e} {{ inst(_) p(clk, x) }} pipeline({l}) p(clk: clock, x: uint<2>) -> uint<2> {{ reg*{l}; x +. 1 }}"));
        add("named", format!("{h} {{ let y = inst({l}) p$(x: x +. 1, clk); reg*{l}; y }} pipeline({l}) p(clk: clock, x: uint<2>) -> uint<2> {{ reg*{l}; x }}"));
        add("generic_depth", format!("{e} {{ inst({l}) p(clk, x) }} pipeline(D) p<#int D>(clk: clock, x: uint<2>) -> uint<2> {{ reg*D; x +. 1 }}"));
        add("generic_turbofish", format!("{e} {{ inst({l}) p::<{l}>(clk, x) }} pipeline(D) p<#int D>(clk: clock, x: uint<2>) -> uint<2> {{ reg*D; x +. 1 }}"));
        add(
            "generic_nested",
            format!("{e} {{ inst({l}) q::<{l}>(clk, x) }} pipeline(D) q<#int D>(clk: clock, x: uint<2>) -> uint<2> {{ let y = inst(D) p(clk, x); reg*D; y }} pipeline(D) p<#int D>(clk: clock, x: uint<2>) -> uint<2> {{ reg*D; x +. 1 }}"),
        );
        add(
            "generic_two",
            format!("{e} {{ let z: uint<2> = inst(1) p::<1, uint<2>>(clk, x); inst({l}) p::<{l}, uint<2>>(clk, x) +. 1 }} pipeline(D) p<#int D, T>(clk: clock, x: T) -> T {{ reg*D; x }}"),
        );
        if l >= 1 {
            add("generic_minus", format!("{e} {{ inst({l}) p::<{}>(clk, x) }} pipeline({{D + 1}}) p<#uint D>(clk: clock, x: uint<2>) -> uint<2> {{ reg; let y = x +. 1; reg*D; y }}", l - 1));
            add(
                "generic_ref",
                format!("{e} {{ inst({l}) p::<{l}>(clk, x) }} pipeline(D) p<#int D>(clk: clock, x: uint<2>) -> uint<2> {{ let y = x +. 1; reg*D; stage(+0).y }}"),
            );
        }
        add(
            "method",
            format!("struct S {{ v: uint<2> }} impl S {{ pipeline({l}) go(self, clk: clock) -> uint<2> {{ reg*{l}; self.v +. 1 }} }} {h} {{ let y = S(x).inst({l}) go(clk); reg*{l}; y }}"),
        );
        add(
            "trait",
            format!("trait G {{ pipeline({l}) go(self, clk: clock, k: uint<2>) -> uint<2>; }} struct S {{ v: uint<2> }} impl G for S {{ pipeline({l}) go(self, clk: clock, k: uint<2>) -> uint<2> {{ reg*{l}; self.v +. k }} }} {h} {{ let y = S(x).inst({l}) go(clk, 1); reg*{l}; y }}"),
        );
        add("extern_style_attr", format!("#[optimize()] {h} {{ let y = x +. 1; reg*{l}; y }}"));
    }
    out
}
