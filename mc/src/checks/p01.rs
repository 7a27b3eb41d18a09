//! P01: integer arithmetic is exact.
use super::ops::*;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;

type Bin = (&'static str, fn(E, E) -> E);

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let mut cases = vec![];
    let maxw = ctx.pick(4, 6);
    for s in [false, true] {
        for n in 0..=maxw {
            let t = num_ty(s, n);
            let a = || var("a", t.clone());
            let b = || var("b", t.clone());
            let p = [("a", t.clone()), ("b", t.clone())];
            let bins: [Bin; 5] = [("add", add), ("sub", sub), ("wadd", wadd), ("wsub", wsub), ("wmul", wmul)];
            for (k, f) in bins {
                cases.push(comb_case(format!("{k}/{}", t.show()), &p, &f(a(), b()), ""));
                // the same operand twice, and a constant operand
                cases.push(comb_case(format!("{k}_same/{}", t.show()), &p[..1], &f(a(), a()), ""));
                if n > 0 {
                    let vs = t.values();
                    for v in [&vs[0], &vs[vs.len() - 1], &vs[vs.len() / 2]] {
                        let l = || lit(v.clone(), t.clone());
                        cases.push(comb_case(format!("{k}_cr/{}/{v:?}", t.show()), &p[..1], &f(a(), l()), ""));
                        cases.push(comb_case(format!("{k}_cl/{}/{v:?}", t.show()), &p[..1], &f(l(), a()), ""));
                    }
                }
            }
            if s {
                cases.push(comb_case(format!("neg/{}", t.show()), &p[..1], &neg(a()), ""));
                cases.push(comb_case(format!("wneg/{}", t.show()), &p[..1], &wneg(a()), ""));
                cases.push(comb_case(format!("negneg/{}", t.show()), &p[..1], &neg(neg(a())), ""));
            }
            if n > 0 {
                for m in 1..=maxw {
                    let t2 = num_ty(s, m);
                    let e = mul(a(), var("b", t2.clone()));
                    cases.push(comb_case(
                        format!("mul/{}*{}", t.show(), t2.show()),
                        &[("a", t.clone()), ("b", t2.clone())],
                        &e,
                        "",
                    ));
                }
                // division and modulo by every constant power of two that the type can hold
                let max = if s { n - 1 } else { n };
                for k in 0..max {
                    let d = num(1 << k, t.clone());
                    cases.push(comb_case(
                        format!("div/{}/{}", t.show(), 1 << k),
                        &p[..1],
                        &div_fmt("{0} / {1}", a(), d.clone()),
                        "",
                    ));
                    cases.push(comb_case(
                        format!("mod/{}/{}", t.show(), 1 << k),
                        &p[..1],
                        &rem_fmt("{0} % {1}", a(), d),
                        "",
                    ));
                }
                cases.push(comb_case(
                    format!("comb_div/{}", t.show()),
                    &p,
                    &div_fmt("std::ops::comb_div({0}, {1})", a(), b()),
                    "",
                ));
                cases.push(comb_case(
                    format!("comb_mod/{}", t.show()),
                    &p,
                    &rem_fmt("std::ops::comb_mod({0}, {1})", a(), b()),
                    "",
                ));
            }
        }
        // compositions: every operator applied to every pair of operator results
        let t = num_ty(s, 2);
        let v = |x: &str| var(x, t.clone());
        let lv: Vec<(&str, E)> = vec![
            ("a", v("a")),
            ("add", add(v("a"), v("b"))),
            ("sub", sub(v("a"), v("b"))),
            ("mul", mul(v("a"), v("c"))),
            ("wadd", wadd(v("b"), v("c"))),
            ("wsub", wsub(v("a"), v("c"))),
            ("wmul", wmul(v("b"), v("c"))),
            ("div", div_fmt("{0} / {1}", v("a"), num(1, t.clone()))),
            ("cdiv", div_fmt("std::ops::comb_div({0}, {1})", v("a"), v("b"))),
        ];
        let p = [("a", t.clone()), ("b", t.clone()), ("c", t.clone())];
        let tops: [Bin; 6] =
            [("add", add), ("sub", sub), ("mul", mul), ("wadd", wadd), ("wsub", wsub), ("wmul", wmul)];
        for (k, f) in tops {
            for (kx, x) in &lv {
                for (ky, y) in &lv {
                    let (mut x, mut y) = (x.clone(), y.clone());
                    if k != "mul" {
                        // operands of one width: widen the narrower one
                        let m = w(&x.ty).max(w(&y.ty));
                        if w(&x.ty) < m {
                            x = ext(x, m);
                        }
                        if w(&y.ty) < m {
                            y = ext(y, m);
                        }
                    }
                    let e = f(x, y);
                    cases.push(comb_case(format!("{k}({kx},{ky})/{}", t.show()), &p, &e, ""));
                }
            }
        }
        // wide operands on the corner alphabet (carries across 32 and 64 bit boundaries)
        for n in [8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 126] {
            let t = num_ty(s, n);
            for (k, f) in
                [("add", add as fn(E, E) -> E), ("sub", sub), ("mul", mul), ("wadd", wadd), ("wsub", wsub), ("wmul", wmul)]
            {
                if k == "mul" && n > 63 {
                    continue;
                }
                let e = f(var("a", t.clone()), var("b", t.clone()));
                cases.push(comb_case(format!("{k}/{}", t.show()), &[("a", t.clone()), ("b", t.clone())], &e, ""));
            }
            if s {
                let a = || var("a", t.clone());
                cases.push(comb_case(format!("neg/{}", t.show()), &[("a", t.clone())], &neg(a()), ""));
                cases.push(comb_case(format!("wneg/{}", t.show()), &[("a", t.clone())], &wneg(a()), ""));
            }
            for k in [0, 1, 2, 5, 6] {
                if n > 8 {
                    let d = num(1 << k, t.clone());
                    let a = || var("a", t.clone());
                    cases.push(comb_case(format!("div/{}/{}", t.show(), 1 << k), &[("a", t.clone())], &div_fmt("{0} / {1}", a(), d.clone()), ""));
                    cases.push(comb_case(format!("mod/{}/{}", t.show(), 1 << k), &[("a", t.clone())], &rem_fmt("{0} % {1}", a(), d), ""));
                }
            }
        }
        // mixed widths across the word boundaries
        for (n, m) in [(1, 33), (31, 3), (32, 32), (3, 64), (60, 9)] {
            let (t, t2) = (num_ty(s, n), num_ty(s, m));
            let e = mul(var("a", t.clone()), var("b", t2.clone()));
            cases.push(comb_case(format!("mul/{}*{}", t.show(), t2.show()), &[("a", t), ("b", t2)], &e, ""));
        }
    }
    // operators on zero-width operands may be refused; where accepted they have to be right
    let (zero, cases): (Vec<_>, Vec<_>) = cases.into_iter().partition(|c| c.ins.iter().any(|i| i.1 == 0));
    run_cases(&ctx, &pool, &cases, &RunOpt::std());
    let r = run_cases_lenient(&ctx, &pool, &zero, &RunOpt::std());
    ctx.count("zero_width_refused", r as u64);
    ctx.finish(
        "model_checking",
        "every integer operator, signed and unsigned, at every width up to the bound, on every pair of operand \
         values; every two-level composition of operators at width 2 on every input; wide widths on a corner \
         alphabet. A program counts as non-trivial when its circuit showed more than one output.",
        &["the Verilog subset is executed by this framework's own four-state simulator"],
        true,
    )
}
