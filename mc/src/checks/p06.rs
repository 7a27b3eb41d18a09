//! P06: match, if and let select and bind as written.
use super::pats::*;
use super::types::*;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let mut cases = vec![];
    let lim = ctx.pick(40usize, 2500);
    for (ti, t) in scrutinees(ctx.thorough()).iter().enumerate() {
        if t.width() == 0 {
            continue;
        }
        let a = alphabet(t);
        let mut pos = vec![];
        positions(t, "q", &mut pos);
        pos.retain(|p| p.1.width() > 0);
        let scr = || var("a", t.clone());
        // the result names the arm and shows every part that the arm binds
        let result = |k: usize, p: &Pat| -> E {
            let mut b = vec![];
            bound(p, &mut b);
            let mut parts = vec![num(k as i128, Ty::U(3))];
            for (n, pt) in pos.iter().take(7) {
                parts.push(if b.contains(n) { var(n, pt.clone()) } else { lit(pt.values()[k % pt.values().len()].clone(), pt.clone()) });
            }
            tup(parts)
        };
        for n in 1..=ctx.pick(3, 4) {
            let (ls, _) = lists(&a, n, lim * 8);
            let mut cnt = 0;
            for (li, l) in ls.iter().enumerate() {
                // complete the list with a catch-all where needed
                let mut l = l.clone();
                if !exhaustive(t, &l) {
                    if n == 3 && li % 3 > 0 {
                        continue;
                    }
                    l.push(Pat::Wild);
                }
                cnt += 1;
                if cnt > lim * 3 {
                    ctx.cap(format!("type {ti}: {n}-arm lists"));
                    break;
                }
                for mode in 0..4 {
                    if mode > 1 && li % 4 != mode - 2 {
                        continue;
                    }
                    let ps: Vec<Pat> = l
                        .iter()
                        .map(|p| match mode {
                            0 => p.clone(),
                            1 => name_parts(p, t, "q", false, false),
                            2 => name_parts(p, t, "q", true, false),
                            _ => name_parts(p, t, "q", li % 2 == 0, true),
                        })
                        .collect();
                    let key = format!("arms{n}/{ti}/{mode}/{}", ps.iter().map(|p| p.show()).collect::<Vec<_>>().join("|"));
                    let arms: Vec<(Pat, E)> = ps.iter().enumerate().map(|(k, p)| (p.clone(), result(k, p))).collect();
                    cases.push(comb_case(key.clone(), &[("a", t.clone())], &mtch(scr(), arms), ""));
                    // the same arms with guards, over a free input
                    if mode >= 1 && (mode > 1 || li % 3 == 0) {
                        for m in 1..1usize << ps.len().min(3) {
                            let mut arms: Vec<(Pat, Option<E>, E)> = ps
                                .iter()
                                .enumerate()
                                .map(|(k, p)| {
                                    let g = if m >> k & 1 == 1 {
                                        // a guard over the bound parts if there is one, else over the input
                                        let mut b = vec![];
                                        bound(p, &mut b);
                                        let bv = b.iter().filter_map(|x| pos.iter().find(|q| q.0 == *x && q.1 == Ty::Bool)).next();
                                        Some(match bv {
                                            Some((n, _)) if k % 2 == 0 => var(n, Ty::Bool),
                                            _ => var(["g", "h"][k % 2], Ty::Bool),
                                        })
                                    } else {
                                        None
                                    };
                                    (p.clone(), g, result(k, p))
                                })
                                .collect();
                            let z = Pat::Bind("q".into());
                            let r = result(7, &z);
                            arms.push((z, None, r));
                            cases.push(comb_case(
                                format!("guards{n}/{ti}/{mode}/{m}/{}", ps.iter().map(|p| p.show()).collect::<Vec<_>>().join("|")),
                                &[("a", t.clone()), ("g", Ty::Bool), ("h", Ty::Bool)],
                                &mtchg(scr(), arms),
                                "",
                            ));
                        }
                    }
                }
            }
        }
        // matches as statements' values, as scrutinees of others, as operands
        let inner = |p: &Pat| {
            mtch(scr(), vec![(p.clone(), lit(Val::B(true), Ty::Bool)), (Pat::Wild, lit(Val::B(false), Ty::Bool))])
        };
        for (i, p) in a.iter().enumerate() {
            for q in a.iter().skip(i % 3).step_by(ctx.pick(5, 1)).take(12) {
                let x = mtch(
                    tup(vec![inner(p), inner(q)]),
                    vec![
                        (Pat::Tup(vec![Pat::Bool(true), Pat::Bool(true)]), num(3, Ty::U(2))),
                        (Pat::Tup(vec![Pat::Wild, Pat::Bool(true)]), num(2, Ty::U(2))),
                        (Pat::Tup(vec![Pat::Bool(true), Pat::Wild]), num(1, Ty::U(2))),
                        (Pat::Wild, num(0, Ty::U(2))),
                    ],
                );
                cases.push(comb_case(format!("nested/{ti}/{}|{}", p.show(), q.show()), &[("a", t.clone())], &x, ""));
                let y = ite(inner(p), ite(inner(q), num(3, Ty::U(2)), num(1, Ty::U(2))), ite(inner(q), num(2, Ty::U(2)), num(0, Ty::U(2))));
                cases.push(comb_case(format!("if/{ti}/{}|{}", p.show(), q.show()), &[("a", t.clone())], &y, ""));
            }
            // arms that are themselves matches and blocks
            let np = name_parts(p, t, "q", true, false);
            let blk = block(
                vec![(Pat::Bind("z".into()), None, result(1, &np)), (Pat::Bind("q".into()), None, num(5, Ty::U(3)))],
                tup(vec![var("z", result(1, &np).ty), var("q", Ty::U(3))]),
            );
            let z = Pat::Bind("q".into());
            let els = tup(vec![result(2, &z), num(6, Ty::U(3))]);
            cases.push(comb_case(format!("block/{ti}/{}", p.show()), &[("a", t.clone())], &mtch(scr(), vec![(np, blk), (z, els)]), ""));
        }
        // let with every irrefutable pattern
        for p in a.iter().filter(|p| exhaustive(t, std::slice::from_ref(p))) {
            for (at, named) in [(false, false), (true, false), (true, true)] {
                let np = name_parts(p, t, "q", at, named);
                let r = result(0, &np);
                cases.push(comb_case(
                    format!("let/{ti}/{}", np.show()),
                    &[("a", t.clone())],
                    &block(vec![(np.clone(), None, scr())], r),
                    "",
                ));
                // shadowing: a later binding hides the earlier
                let mut b = vec![];
                bound(&np, &mut b);
                let r2 = result(0, &np);
                cases.push(comb_case(
                    format!("let2/{ti}/{}", np.show()),
                    &[("a", t.clone()), ("q", t.clone())],
                    &block(vec![(Pat::Bind("w".into()), None, var("q", t.clone())), (np.clone(), None, var("w", t.clone()))], r2),
                    "",
                ));
            }
        }
    }
    // if chains over conditions
    let conds: Vec<E> = vec![
        var("x", Ty::Bool),
        op("{0} && {1}", Ty::Bool, vec![var("x", Ty::Bool), var("y", Ty::Bool)], |v| Val::B(crate::lang::b(&v[0]) && crate::lang::b(&v[1]))),
        op("!{0}", Ty::Bool, vec![var("y", Ty::Bool)], |v| Val::B(!crate::lang::b(&v[0]))),
        op("{0} == {1}", Ty::Bool, vec![var("u", Ty::U(2)), num(2, Ty::U(2))], |v| Val::B(v[0] == v[1])),
        op("{0} > {1}", Ty::Bool, vec![var("u", Ty::U(2)), num(0, Ty::U(2))], |v| Val::B(crate::lang::n(&v[0]) > crate::lang::n(&v[1]))),
        lit(Val::B(true), Ty::Bool),
        lit(Val::B(false), Ty::Bool),
    ];
    let ps = [("x", Ty::Bool), ("y", Ty::Bool), ("u", Ty::U(2))];
    for (i, c) in conds.iter().enumerate() {
        for (j, d) in conds.iter().enumerate() {
            for (k, e) in conds.iter().enumerate() {
                let n = |k| num(k, Ty::I(4));
                for (s, x) in [
                    ite(c.clone(), n(-1), ite(d.clone(), n(2), ite(e.clone(), n(-3), n(4)))),
                    ite(c.clone(), ite(d.clone(), n(1), n(-2)), ite(e.clone(), n(3), n(-4))),
                    ite(ite(c.clone(), d.clone(), e.clone()), n(5), n(-6)),
                ]
                .into_iter()
                .enumerate()
                {
                    cases.push(comb_case(format!("ifs/{s}/{i},{j},{k}"), &ps, &x, ""));
                }
            }
        }
    }
    // `else if` chains
    for (i, c) in conds.iter().enumerate() {
        for (j, d) in conds.iter().enumerate() {
            let e = ite(c.clone(), num(1, Ty::U(3)), ite(d.clone(), num(2, Ty::U(3)), ite(var("y", Ty::Bool), num(3, Ty::U(3)), num(4, Ty::U(3)))));
            let src = format!(
                "fn top(x: bool, y: bool, u: uint<2>) -> uint<3> {{ if {} {{ 1 }} else if {} {{ 2 }} else if y {{ 3 }} else {{ 4 }} }}",
                c.show(),
                d.show()
            );
            cases.push(expr_case(format!("elseif/{i},{j}"), &ps, &e, src));
        }
    }
    eprintln!("[p06] {} programs", cases.len());
    run_cases(&ctx, &pool, &cases, &RunOpt { batch: 200, ..RunOpt::std() });
    let _ = (ar, en);
    ctx.finish(
        "model_checking",
        "pattern lists over the full pattern alphabets of three dozen scrutinee types, with wildcards, bindings, name @ pattern, \
         positional and named arguments, guards over inputs and bound parts, as nested scrutinees and arms, and in let; if chains; \
         each on every input value, with the arm chosen and every bound part observed at the output.",
        &["the Verilog subset is executed by this framework's own four-state simulator",
          "lists of three and more arms are enumerated with a stride where the alphabet is large"],
        true,
    )
}
