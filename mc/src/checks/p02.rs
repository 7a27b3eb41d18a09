//! P02: bitwise, boolean, shift, comparison and reduction operators are exact.
use super::ops::*;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;

fn bits_ty(n: usize) -> Ty {
    Ty::Arr(Box::new(Ty::Bool), n)
}
fn bits_op(sym: &str, a: E, b: E, f: fn(bool, bool) -> bool) -> E {
    op(&format!("{{0}} {sym} {{1}}"), a.ty.clone(), vec![a, b], move |v| match (&v[0], &v[1]) {
        (Val::T(x), Val::T(y)) => Val::T(
            x.iter().zip(y).map(|(p, q)| Val::B(f(crate::lang::b(p), crate::lang::b(q)))).collect(),
        ),
        _ => Val::Undef,
    })
}
fn bits_red(fmt: &str, a: E, f: fn(&[bool]) -> bool) -> E {
    op(fmt, Ty::Bool, vec![a], move |v| match &v[0] {
        Val::T(x) => Val::B(f(&x.iter().map(crate::lang::b).collect::<Vec<_>>())),
        _ => Val::Undef,
    })
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let mut cases = vec![];
    let maxw = ctx.pick(4, 6);
    type Bin = (&'static str, fn(E, E) -> E);
    let bins: [Bin; 8] = [
        ("shl", shl),
        ("shr", shr),
        ("ashr", ashr),
        ("wshl", |a, b| shl_named("<<.", a, b)),
        ("wshr", |a, b| shr_named(">>.", a, b)),
        ("band", band),
        ("bor", bor),
        ("bxor", bxor),
    ];
    let cmps: Vec<(String, String)> =
        CMPS.iter().zip(["eq", "ne", "lt", "gt", "le", "ge"]).map(|(s, k)| (k.to_string(), s.to_string())).collect();
    for s in [false, true] {
        for n in 0..=maxw {
            let t = num_ty(s, n);
            let ts = t.show();
            let a = || var("a", t.clone());
            let b = || var("b", t.clone());
            let p = [("a", t.clone()), ("b", t.clone())];
            let mut all: Vec<(String, Box<dyn Fn(E, E) -> E>)> = vec![];
            for (k, f) in bins {
                all.push((k.into(), Box::new(f)));
            }
            for (k, c) in &cmps {
                let c = c.clone();
                all.push((k.clone(), Box::new(move |x, y| cmp(&c, x, y))));
            }
            for (k, f) in &all {
                cases.push(comb_case(format!("{k}/{ts}"), &p, &f(a(), b()), ""));
                cases.push(comb_case(format!("{k}_same/{ts}"), &p[..1], &f(a(), a()), ""));
                if n > 0 {
                    for v in t.values() {
                        let l = || lit(v.clone(), t.clone());
                        cases.push(comb_case(format!("{k}_cr/{ts}/{v:?}"), &p[..1], &f(a(), l()), ""));
                        cases.push(comb_case(format!("{k}_cl/{ts}/{v:?}"), &p[..1], &f(l(), a()), ""));
                    }
                }
            }
            cases.push(comb_case(format!("bnot/{ts}"), &p[..1], &bnot(a()), ""));
            cases.push(comb_case(format!("bnot2/{ts}"), &p[..1], &bnot(bnot(a())), ""));
        }
        // compositions: shifts, bitwise operators and arithmetic below comparisons, shifts, muxes
        for n in [2, 3] {
            let t = num_ty(s, n);
            let ts = t.show();
            let v = |x: &str| var(x, t.clone());
            let mut sub_e: Vec<(String, E)> = vec![
                ("a".into(), v("a")),
                ("not".into(), bnot(v("a"))),
                ("wadd".into(), wadd(v("a"), v("b"))),
                ("wsub".into(), wsub(v("b"), v("c"))),
                ("wmul".into(), wmul(v("a"), v("c"))),
                ("tadd".into(), trunc(add(v("a"), v("b")), n)),
                ("mux".into(), ite(cmp("<", v("a"), v("b")), v("c"), v("b"))),
            ];
            for (k, f) in bins {
                sub_e.push((k.into(), f(v("a"), v("b"))));
            }
            if s {
                sub_e.push(("neg".into(), neg(v("a"))));
            }
            let mut tops: Vec<(String, Box<dyn Fn(E, E) -> E>)> = vec![];
            for (k, f) in bins {
                tops.push((k.into(), Box::new(f)));
            }
            for (k, c) in &cmps {
                let c = c.clone();
                tops.push((k.clone(), Box::new(move |x, y| cmp(&c, x, y))));
            }
            let p = [("a", t.clone()), ("b", t.clone()), ("c", t.clone())];
            for (k, f) in &tops {
                for (kx, x) in &sub_e {
                    for (ky, y) in &sub_e {
                        if n == 3 && kx != "a" && ky != "a" && !ctx.thorough() {
                            continue;
                        }
                        cases.push(comb_case(format!("{k}({kx},{ky})/{ts}"), &p, &f(x.clone(), y.clone()), ""));
                    }
                }
            }
            // widened comparisons: growth below a comparison
            for (k, c) in &cmps {
                cases.push(comb_case(format!("{k}_add/{ts}"), &p, &cmp(c, add(v("a"), v("b")), ext(v("c"), n + 1)), ""));
                cases.push(comb_case(format!("{k}_sub/{ts}"), &p, &cmp(c, ext(v("c"), n + 1), sub(v("a"), v("b"))), ""));
                cases.push(comb_case(format!("{k}_mul/{ts}"), &p, &cmp(c, mul(v("a"), v("b")), ext(v("c"), 2 * n)), ""));
            }
        }
        for n in [8, 31, 32, 33, 63, 64, 65, 100, 126] {
            let t = num_ty(s, n);
            let ts = t.show();
            let p = [("a", t.clone()), ("b", t.clone())];
            for (k, f) in bins {
                let mut c = comb_case(format!("{k}/{ts}"), &p, &f(var("a", t.clone()), var("b", t.clone())), "");
                if k.contains("sh") {
                    let mut amt = vec![0, 1, 2, 7, 8, 31, 32, 33, 62, 63, 64, 65];
                    amt.extend(corner(n));
                    for x in amt.iter_mut() {
                        *x &= ones(n);
                    }
                    for d in [n as u128 - 1, n as u128, n as u128 + 1] {
                        amt.push(d & ones(n));
                    }
                    amt.sort();
                    amt.dedup();
                    c = c.with_stim(Stim::Sets(vec![corner(n), amt]));
                }
                cases.push(c);
            }
            for (k, c) in &cmps {
                cases.push(comb_case(
                    format!("{k}/{ts}"),
                    &p,
                    &cmp(c, var("a", t.clone()), var("b", t.clone())),
                    "",
                ));
            }
            cases.push(comb_case(format!("bnot/{ts}"), &p[..1], &bnot(var("a", t.clone())), ""));
        }
    }
    // bool
    let bl = |x: &str| var(x, Ty::Bool);
    let pb = [("a", Ty::Bool), ("b", Ty::Bool), ("c", Ty::Bool)];
    type BB = (&'static str, fn(E, E) -> E);
    let bops: [BB; 5] = [
        ("land", land),
        ("lor", lor),
        ("lxor", lxor),
        ("beq", |a, b| cmp("==", a, b)),
        ("bne", |a, b| cmp("!=", a, b)),
    ];
    for (k, f) in bops {
        cases.push(comb_case(format!("{k}/bool"), &pb[..2], &f(bl("a"), bl("b")), ""));
        for (k2, g) in bops {
            for neg in 0..4 {
                let nn = |i: u32, e: E| if neg >> i & 1 == 1 { lnot(e) } else { e };
                cases.push(comb_case(format!("{k}({k2},c)/{neg}"), &pb, &f(nn(0, g(bl("a"), bl("b"))), nn(1, bl("c"))), ""));
                cases.push(comb_case(format!("{k}(c,{k2})/{neg}"), &pb, &f(nn(0, bl("c")), nn(1, g(bl("a"), bl("b")))), ""));
            }
        }
    }
    cases.push(comb_case("lnot/bool", &pb[..1], &lnot(bl("a")), ""));
    // bit vectors
    for n in 1..=maxw as usize + 1 {
        let t = bits_ty(n);
        let p = [("a", t.clone()), ("b", t.clone())];
        let (a, b) = (var("a", t.clone()), var("b", t.clone()));
        cases.push(comb_case(format!("bits_and/{n}"), &p, &bits_op("&", a.clone(), b.clone(), |x, y| x && y), ""));
        cases.push(comb_case(format!("bits_or/{n}"), &p, &bits_op("|", a.clone(), b.clone(), |x, y| x || y), ""));
        cases.push(comb_case(format!("bits_xor/{n}"), &p, &bits_op("^", a.clone(), b.clone(), |x, y| x != y), ""));
        cases.push(comb_case(
            format!("bits_not/{n}"),
            &p[..1],
            &op("~{0}", t.clone(), vec![a.clone()], |v| match &v[0] {
                Val::T(x) => Val::T(x.iter().map(|p| Val::B(!crate::lang::b(p))).collect()),
                _ => Val::Undef,
            }),
            "",
        ));
        for (k, f) in [
            ("and", (|x: &[bool]| x.iter().all(|b| *b)) as fn(&[bool]) -> bool),
            ("or", |x| x.iter().any(|b| *b)),
            ("xor", |x| x.iter().filter(|b| **b).count() % 2 == 1),
        ] {
            cases.push(comb_case(
                format!("reduce_{k}/{n}"),
                &p[..1],
                &bits_red(&format!("std::ops::reduce_{k}({{0}})"), a.clone(), f),
                "",
            ));
            cases.push(comb_case(
                format!("reduce_{k}_neg/{n}"),
                &p[..1],
                &lnot(bits_red(&format!("std::ops::reduce_{k}({{0}})"), a.clone(), f)),
                "",
            ));
        }
    }
    // equality of compound values
    let u = Ty::U;
    let i = Ty::I;
    let mut tys = vec![
        Ty::Tup(vec![u(2), Ty::Bool]),
        Ty::Tup(vec![i(2), u(1)]),
        Ty::Tup(vec![u(1), i(1), Ty::Bool]),
        Ty::Tup(vec![u(1), u(1), u(1), u(1)]),
        Ty::Tup(vec![Ty::Tup(vec![u(1), i(2)]), Ty::Bool]),
        Ty::Arr(Box::new(u(2)), 2),
        Ty::Arr(Box::new(Ty::Bool), 3),
        Ty::Arr(Box::new(Ty::Tup(vec![u(1), Ty::Bool])), 2),
        Ty::opt(u(2)),
        Ty::opt(Ty::Bool),
        Ty::opt(Ty::Tup(vec![u(1), Ty::Bool])),
        Ty::opt(Ty::opt(u(1))),
        Ty::Tup(vec![Ty::opt(u(1)), Ty::Bool]),
        Ty::Arr(Box::new(Ty::opt(Ty::Bool)), 2),
    ];
    if ctx.thorough() {
        tys.push(Ty::Arr(Box::new(Ty::opt(u(2))), 2));
        tys.push(Ty::Tup(vec![u(3), i(3)]));
        tys.push(Ty::opt(Ty::Arr(Box::new(u(2)), 2)));
    }
    for t in tys {
        for c in ["==", "!="] {
            let p = [("a", t.clone()), ("b", t.clone())];
            let e = cmp(c, var("a", t.clone()), var("b", t.clone()));
            let cc = comb_case(format!("compound{c}/{}", t.show()), &p, &e, "");
            // canonical operands (padding bits zero) separately from operands with other padding
            let canon: Vec<u128> = t.values().iter().map(|v| t.encode(v).v).collect();
            let every: Vec<u128> = (0..1u128 << t.width()).collect();
            let noncanon: Vec<Vec<u128>> = every
                .iter()
                .flat_map(|a| every.iter().map(move |b| vec![*a, *b]))
                .filter(|v| v.iter().any(|x| !canon.contains(x)) && v.iter().all(|x| t.decode(*x).is_some()))
                .collect();
            if !noncanon.is_empty() {
                let mut c2 = cc.clone().with_stim(Stim::List(noncanon));
                c2.key.push_str("/padding");
                cases.push(c2);
            }
            cases.push(cc.with_stim(Stim::Sets(vec![canon.clone(), canon])));
        }
    }
    let (zero, cases): (Vec<_>, Vec<_>) = cases.into_iter().partition(|c| c.ins.iter().any(|i| i.1 == 0));
    run_cases(&ctx, &pool, &cases, &RunOpt::std());
    let r = run_cases_lenient(&ctx, &pool, &zero, &RunOpt::std());
    ctx.count("zero_width_refused", r as u64);
    ctx.finish(
        "model_checking",
        "every comparison, shift, bitwise, boolean and reduction operator at every width up to the bound with \
         every pair of operands, with every constant operand on either side, two-level compositions with \
         arithmetic, shifts and muxes; equality of compound types; wide corner alphabet.",
        &["the Verilog subset is executed by this framework's own four-state simulator"],
        true,
    )
}
