//! P14: optimisation passes never change behaviour.
use super::types::*;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;
use crate::seq::*;

fn vb(n: &str) -> E {
    var(n, Ty::Bool)
}

/// Types on which a pass has something to do.
fn types(thorough: bool) -> Vec<Ty> {
    let mut pay: Vec<Vec<Ty>> = vec![vec![]];
    let at = [
        Ty::Bool,
        Ty::U(0),
        Ty::U(1),
        Ty::U(2),
        Ty::I(2),
        Ty::Tup(vec![]),
        Ty::Tup(vec![Ty::Bool, Ty::U(1)]),
        Ty::opt(Ty::Bool),
        ar(&Ty::Bool, 2),
        st(&[Ty::Bool, Ty::U(1)]),
    ];
    for a in &at {
        pay.push(vec![a.clone()]);
        for b in at.iter().take(4) {
            pay.push(vec![a.clone(), b.clone()]);
        }
    }
    pay.push(vec![Ty::Bool, Ty::U(1), Ty::Bool]);
    // enums: first variant empty (gated) or not, one to three variants
    let mut gated: Vec<Ty> = pay.iter().map(|p| en(&[vec![], p.clone()])).collect();
    gated.extend(at.iter().map(|t| Ty::opt(t.clone())));
    let mut v = gated.clone();
    for p in pay.iter().take(12) {
        v.push(en(&[p.clone(), vec![]]));
        v.push(en(&[p.clone()]));
        v.push(en(&[vec![], p.clone(), vec![]]));
        v.push(en(&[vec![Ty::U(0)], p.clone()]));
        v.push(en(&[p.clone(), vec![Ty::Bool]]));
    }
    // everything inside everything
    let small: Vec<Ty> = gated.iter().filter(|t| t.width() <= if thorough { 4 } else { 3 }).cloned().collect();
    for t in small.iter().chain(&at) {
        v.extend(containers(t, &[Ty::Bool]));
        v.push(Ty::Tup(vec![Ty::Bool, Ty::Tup(vec![t.clone(), Ty::U(1)])]));
        v.push(st(&[Ty::U(1), st(&[Ty::Bool, t.clone()])]));
        v.push(ar(&Ty::Tup(vec![t.clone(), Ty::Bool]), 2));
        v.push(Ty::opt(Ty::opt(t.clone())));
    }
    v.retain(|t| t.width() <= if thorough { 6 } else { 5 });
    let mut seen = std::collections::HashSet::new();
    v.retain(|t| {
        let mut d = vec![];
        t.defs(&mut d);
        seen.insert(format!("{}{d:?}", t.show()).replace(|c: char| c.is_ascii_digit() && false, ""))
    });
    v
}

/// One register of each of those types, under every combination of reset, hold and initial value.
fn singles(ctx: &Ctx) -> Vec<Case> {
    let mut out = vec![];
    for (ti, t) in types(ctx.thorough()).iter().enumerate() {
        let vs = t.values();
        let v = |k: usize| lit(vs[k % vs.len()].clone(), t.clone());
        for m in 0..12 {
            let (rs, hold, iv) = (m % 4, m / 4 % 3 == 1, m / 4 == 2);
            if t.width() > 3 && !ctx.thorough() && (ti + m) % 3 != 0 && !(m == 1 || m == 5) {
                continue;
            }
            if rs == 2 && t.width() > 4 {
                continue;
            }
            let x = var("x", t.clone());
            let next = if hold { ite(vb("en"), x, var("r", t.clone())) } else { x };
            let mut r = Reg::new("r", t.clone(), next);
            r = match rs {
                0 => r,
                1 => r.reset(vb("rst"), v(ti)),
                2 => r.reset(vb("rst"), var("y", t.clone())),
                _ => r.reset(vb("rst"), v(vs.len() - 1)),
            };
            if iv {
                r = r.init(v(ti + 1));
            }
            let mut ps = vec![("x", t.clone()), ("rst", Ty::Bool), ("en", Ty::Bool)];
            if rs == 2 {
                ps.push(("y", t.clone()));
            }
            out.push(Circuit::new(&ps, vec![r], var("r", t.clone())).case(format!("one/{ti}/{}/{m}", t.show())));
        }
    }
    out
}

/// Several registers of such types feeding each other.
fn several(ctx: &Ctx) -> Vec<Case> {
    let mut out = vec![];
    let o = Ty::opt(Ty::Bool);
    let p = Ty::Tup(vec![Ty::Bool, o.clone()]);
    let vs = o.values();
    let l = |k: usize| lit(vs[k % vs.len()].clone(), o.clone());
    type Mk = Box<dyn Fn(&str, &str) -> E>;
    let oo = o.clone();
    let some = move |e: E| enew(&oo, 1, vec![e]);
    let (o1, o2, o3, o4) = (o.clone(), o.clone(), o.clone(), o.clone());
    let nexts: Vec<Mk> = vec![
        Box::new(move |_, _| var("x", o1.clone())),
        Box::new(move |_, b| var(b, o2.clone())),
        Box::new(move |a, b| ite(vb("c"), var(b, o3.clone()), var(a, o3.clone()))),
        {
            let some = some.clone();
            Box::new(move |a, b| {
                let Ty::Enum(ed) = &o4 else { unreachable!() };
                mtch(
                    var(a, o4.clone()),
                    vec![
                        (Pat::Enum(ed.clone(), 0, vec![]), var(b, o4.clone())),
                        (Pat::Enum(ed.clone(), 1, vec![Pat::Bind("v".into())]), some(super::p08::not(vb("v")))),
                    ],
                )
            })
        },
    ];
    for i in 0..4 {
        for j in 0..4 {
            for ri in 0..4usize {
                for rj in 0..4usize {
                    if !ctx.thorough() && (ri + rj + i) % 2 == 1 {
                        continue;
                    }
                    let mk = |n: &str, other: &str, k: usize, r: usize| {
                        let g = Reg::new(n, o.clone(), nexts[k](n, other));
                        match r {
                            0 => g,
                            1 => g.reset(vb("c"), l(0)),
                            2 => g.reset(vb("c"), l(2)),
                            _ => g.init(l(1)),
                        }
                    };
                    let c = Circuit::new(
                        &[("x", o.clone()), ("c", Ty::Bool)],
                        vec![mk("a", "b", i, ri), mk("b", "a", j, rj)],
                        tup(vec![var("a", o.clone()), var("b", o.clone())]),
                    );
                    out.push(c.case(format!("two/{i}/{j}/{ri}/{rj}")));
                    // as one register of a tuple
                    if ri <= 1 && rj <= 1 {
                        let q = Reg::new("q", p.clone(), tup(vec![vb("c"), ite(tidx(var("q", p.clone()), 0), var("x", o.clone()), tidx(var("q", p.clone()), 1))]))
                            .reset(super::p08::and(vb("c"), vb("d")), tup(vec![vb("d"), l(i)]));
                        let b2 = Reg::new("b", o.clone(), tidx(var("q", p.clone()), 1));
                        let c = Circuit::new(&[("x", o.clone()), ("c", Ty::Bool), ("d", Ty::Bool)], vec![q, b2], tup(vec![var("q", p.clone()), var("b", o.clone())]));
                        out.push(c.case(format!("tuple/{i}/{j}/{ri}/{rj}")));
                    }
                }
            }
        }
    }
    out
}

fn attr(src: &str, a: &str) -> String {
    // in front of every unit
    let mut s = String::new();
    let mut rest = src;
    let mut from = 0;
    while let Some(i) = ["entity ", "pipeline("].iter().filter_map(|k| rest[from..].find(k)).min() {
        let i = i + from;
        let before = rest[..i].chars().last().unwrap_or(' ');
        // units only, not lambdas, attributes or instances
        let item = (before == ' ' || before == '\n' || before == '\t') && {
            let t = rest[..i].trim_end();
            t.is_empty() || t.ends_with('}') || t.ends_with(';') && !t.ends_with(")) ;") || t.ends_with('{') && (t.contains("impl ") || t.contains("trait ")) || t.ends_with(']')
        };
        let decl = {
            let body = rest[i..].find('{').unwrap_or(usize::MAX);
            let semi = rest[i..].find(';').unwrap_or(usize::MAX);
            body < semi
        };
        if item && decl && !rest[i..].starts_with("entity |") && !rest[i..].starts_with("pipeline(1) |") {
            s += &rest[..i];
            s += a;
            s.push(' ');
            rest = &rest[i..];
            from = 1;
        } else {
            from = i + 1;
        }
    }
    s + rest
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    const G: &str = "enum_clock_gating";
    const S: &str = "split_compound_regs";
    let mut base = singles(&ctx);
    base.extend(several(&ctx));
    let own = base.len();
    let k = ctx.pick(9, 1);
    let thin = |v: Vec<Case>, k: usize, tag: &str| -> Vec<Case> {
        let mut v: Vec<Case> = v.into_iter().enumerate().filter(|(i, _)| i % k == 0).map(|x| x.1).collect();
        for c in &mut v {
            c.key = format!("{tag}/{}", c.key);
        }
        v
    };
    base.extend(thin(super::p08::cases(&ctx), k, "p08"));
    base.extend(thin(super::p10::cases(&ctx, ctx.pick(9, 2)).0, 1, "p10"));
    base.extend(thin(super::p09::cases(&ctx).into_iter().filter(|c| !c.key.starts_with("value/")).collect(), ctx.pick(5, 2), "p09"));
    eprintln!("[p14] {own} own programs, {} in all", base.len());
    let mut configs: Vec<(Vec<&str>, &str)> = vec![
        (vec![G], ""),
        (vec![S], ""),
        (vec![G, S], ""),
        (vec![S, G], ""),
        (vec![], "#[optimize(enum_clock_gating)]"),
        (vec![], "#[optimize(split_compound_regs, enum_clock_gating)]"),
        (vec![S], "#[optimize(enum_clock_gating)]"),
        (vec![G], "#[optimize(split_compound_regs)]"),
    ];
    if ctx.thorough() {
        configs.extend([
            (vec![G, G], ""),
            (vec![S, S], ""),
            (vec![G, S, G], ""),
            (vec![S, G, S], ""),
            (vec![], "#[optimize(split_compound_regs)]"),
            (vec![], "#[optimize(enum_clock_gating, split_compound_regs)]"),
            (vec![], "#[optimize(enum_clock_gating)] #[optimize(split_compound_regs)]"),
            (vec![G, S], "#[optimize(split_compound_regs)]"),
        ]);
    }
    let mut used = 0;
    for (ci, (opt, at)) in configs.iter().enumerate() {
        let mut cs: Vec<Case> = vec![];
        for (i, c) in base.iter().enumerate() {
            // attributes: on every unit of the program
            let mut c = c.clone();
            if !ctx.thorough() && (i + ci) % 4 != 0 {
                continue;
            }
            if !at.is_empty() {
                let s = attr(&c.src, at);
                if s == c.src {
                    continue;
                }
                c.src = s;
            }
            c.key = format!("{}/{}|{at}", c.key, opt.join(","));
            cs.push(c);
        }
        used += cs.len();
        run_cases(&ctx, &pool, &cs, &RunOpt { batch: 150, opt: opt.iter().map(|x| x.to_string()).collect(), ..RunOpt::std() });
    }
    ctx.count("program_configurations", used as u64);
    ctx.finish(
        "model_checking",
        "registers of every type the passes transform (two-variant enums of every small payload, alone and inside tuples, structs, arrays and \
         options) under every combination of reset, hold and initial value, pairs of them in mutual feedback, and the programs of P08, P09 and P10 \
         (registers, memories, pipelines), each compiled under every pass configuration: each pass, both orders, on the command line, by attribute \
         and mixed. The product with the reference model, which knows nothing of passes, is explored breadth first over all inputs until \
         no new state appears.",
        &["the Verilog subset is executed by this framework's own four-state simulator",
          "undefined payload bits of an enum variant are not compared"],
        true,
    )
}
