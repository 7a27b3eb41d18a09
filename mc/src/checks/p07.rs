//! P07: match exhaustiveness and refutability are decided exactly.
use super::pats::*;
use super::types::*;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;

fn src(t: &Ty, params: &str, body: &str) -> String {
    let mut defs = vec![];
    t.defs(&mut defs);
    format!("{}\nfn top(a: {}{params}) -> bool {{ {body} }}", defs.join("\n"), t.show())
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let mut vc: Vec<VCase> = vec![];
    let lim = ctx.pick(800usize, 6000);
    let mut exhaustive_space = true;
    for (ti, t) in scrutinees(ctx.thorough()).iter().enumerate() {
        let a = alphabet(t);
        let mut add = |key: String, ps: &[Pat], guards: &[bool]| {
            let un: Vec<Pat> = ps.iter().zip(guards).filter(|x| !x.1).map(|x| x.0.clone()).collect();
            let ok = exhaustive(t, &un);
            let arms = ps
                .iter()
                .zip(guards)
                .enumerate()
                .map(|(i, (p, g))| format!("{}{} => {},", p.show(), if *g { " if g" } else { "" }, i % 2 == 0))
                .collect::<String>();
            vc.push(VCase::verdict(key, src(t, ", g: bool", &format!("match a {{ {arms} }}")), ok));
        };
        for n in 1..=ctx.pick(4, 5) {
            let (ls, full) = lists(&a, n, lim);
            exhaustive_space &= full || n > 2;
            for (li, l) in ls.iter().enumerate() {
                add(format!("match{n}/{ti}/{}", l.iter().map(|p| p.show()).collect::<Vec<_>>().join("|")), l, &vec![false; n]);
                // guarded arms never count
                if n == 2 || li % 5 == 0 {
                    let m = 1 + (li / 5) % ((1 << n) - 1);
                    let g: Vec<bool> = (0..n).map(|k| m >> k & 1 == 1).collect();
                    add(format!("guard{n}/{ti}/{m}/{}", l.iter().map(|p| p.show()).collect::<Vec<_>>().join("|")), l, &g);
                }
            }
        }
        // every subset of the most specific patterns: with all values of the type listed, exactly the full set is exhaustive
        let spec: Vec<Pat> = a.iter().filter(|p| t.values().iter().filter(|v| matches_plain(p, v)).count() == 1).cloned().collect();
        let nv = t.values().len();
        if nv <= ctx.pick(6, 9) && nv > 1 {
            let uniq: Vec<Pat> =
                t.values().iter().map(|v| spec.iter().find(|p| matches_plain(p, v)).unwrap().clone()).collect();
            for m in 1u32..1 << nv {
                let mut l: Vec<Pat> = (0..nv).filter(|k| m >> k & 1 == 1).map(|k| uniq[k].clone()).collect();
                add(format!("subset/{ti}/{m:b}"), &l, &vec![false; l.len()]);
                l.reverse();
                add(format!("subset_rev/{ti}/{m:b}"), &l, &vec![false; l.len()]);
            }
        } else if nv > 1 {
            // all but one or two values
            let uniq: Vec<Pat> =
                t.values().iter().map(|v| spec.iter().find(|p| matches_plain(p, v)).unwrap().clone()).collect();
            for i in 0..nv {
                for j in i..nv {
                    let l: Vec<Pat> = (0..nv).filter(|k| *k != i && *k != j).map(|k| uniq[k].clone()).collect();
                    if !l.is_empty() {
                        add(format!("allbut/{ti}/{i},{j}"), &l, &vec![false; l.len()]);
                    }
                }
            }
            add(format!("all/{ti}"), &uniq, &vec![false; nv]);
        }
        // irrefutable positions: let, reg, lambda argument
        for p in &a {
            let ok = exhaustive(t, std::slice::from_ref(p));
            let ps = p.show();
            let k = |s: &str| format!("{s}/{ti}/{ps}");
            vc.push(VCase::verdict(k("let"), src(t, "", &format!("let {ps} = a; true")), ok));
            let np = name_parts(p, t, "q", true, true).show();
            vc.push(VCase::verdict(k("let_at"), src(t, "", &format!("let {np} = a; true")), ok));
            vc.push(VCase::verdict(
                k("reg"),
                src(t, ", clk: clock", &format!("reg(clk) {ps} = a; true")).replace("fn top", "entity top"),
                ok,
            ));
            if t.width() > 0 {
                vc.push(VCase::verdict(k("lambda"), src(t, "", &format!("let l = fn |{ps}| true; l.call((a,))")), ok));
            }
        }
    }
    // wide integers: ranges around the literals
    for t in [Ty::U(8), Ty::I(8), Ty::U(64), Ty::I(64)] {
        let a: Vec<Pat> = alphabet(&t);
        for n in 1..=3 {
            for l in lists(&a, n, 800).0 {
                let ok = l.iter().any(|p| matches!(p, Pat::Wild));
                let arms = l.iter().map(|p| format!("{} => true,", p.show())).collect::<String>();
                vc.push(VCase::verdict(
                    format!("wide/{}/{}", t.show(), arms),
                    src(&t, "", &format!("match a {{ {arms} }}")),
                    ok,
                ));
            }
        }
    }
    for t in [Ty::U(5), Ty::I(5), Ty::U(6)] {
        let vs = t.values();
        for skip in 0..=vs.len() {
            let arms = vs
                .iter()
                .enumerate()
                .filter(|(i, _)| *i != skip)
                .map(|(_, v)| format!("{} => true,", crate::lang::n(v)))
                .collect::<String>();
            vc.push(VCase::verdict(
                format!("full/{}/-{skip}", t.show()),
                src(&t, "", &format!("match a {{ {arms} }}")),
                skip == vs.len(),
            ));
        }
    }
    vc.sort_by_key(|c| c.accept);
    run_verdicts(&ctx, &pool, &vc, &RunOpt { batch: 150, ..RunOpt::std() });
    let _ = (ar, st);
    ctx.finish(
        "model_checking",
        "every list of one and two patterns (and longer lists within a bound) over the full pattern alphabets of three dozen \
         scrutinee types, with and without guards, every subset of the singleton patterns, and every pattern in let, reg \
         and lambda position; the oracle enumerates all values of the scrutinee's type.",
        &["lists of three and more patterns are enumerated with a stride where the alphabet is large (all lists of length one and two are complete up to the bound)"],
        exhaustive_space,
    )
}
