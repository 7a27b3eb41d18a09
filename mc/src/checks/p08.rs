//! P08: registers hold, update, reset and initialise as written.
use super::pats::*;
use super::types::*;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;
use crate::seq::*;

fn bl(v: bool) -> E {
    lit(Val::B(v), Ty::Bool)
}
fn vb(n: &str) -> E {
    var(n, Ty::Bool)
}
pub fn not(e: E) -> E {
    op("!{0}", Ty::Bool, vec![e], |v| Val::B(!b(&v[0])))
}
pub fn and(a: E, c: E) -> E {
    op("{0} && {1}", Ty::Bool, vec![a, c], |v| Val::B(b(&v[0]) && b(&v[1])))
}
pub fn xor(a: E, c: E) -> E {
    op("{0} ^^ {1}", Ty::Bool, vec![a, c], |v| Val::B(b(&v[0]) != b(&v[1])))
}
pub fn wadd(a: E, k: i128) -> E {
    let t = a.ty.clone();
    let w = t.width();
    let l = num(k, t.clone());
    op("{0} +. {1}", t.clone(), vec![a, l], move |v| {
        Val::N(if matches!(t, Ty::U(_)) { wrap_u(n(&v[0]) + n(&v[1]), w) } else { wrap_i(n(&v[0]) + n(&v[1]), w) })
    })
}

/// The programs of this check; also compiled with optimisation passes by P14.
pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut cases: Vec<Case> = vec![];
    let maxw = ctx.pick(5, 6);

    // --- one register of every type, every combination of reset / initial / enable
    let mut types: Vec<Ty> = grammar(maxw, false);
    if !ctx.thorough() {
        types = types.into_iter().enumerate().filter(|(i, t)| *i < 40 || i % 5 == 0 || t.width() <= 2).map(|x| x.1).collect();
    }
    types.extend([Ty::U(4), Ty::I(4), Ty::I(5), Ty::I(1), Ty::I(2), Ty::Tup(vec![])]);
    ctx.count("register_types", types.len() as u64);
    for (ti, t) in types.iter().enumerate() {
        let vs = t.values();
        let v = |k: usize| lit(vs[k % vs.len()].clone(), t.clone());
        let x = || var("x", t.clone());
        for m in 0..12 {
            let (rs, iv, hold) = (m & 3, m >> 2 & 1 == 1, m >> 3 & 1 == 1);
            if m >= 8 && rs == 3 || (ti % 3 != m % 3 && t.width() > 3 && !ctx.thorough()) {
                continue;
            }
            let next = if hold { ite(vb("en"), x(), var("r", t.clone())) } else { x() };
            let mut r = Reg::new("r", t.clone(), next);
            if iv {
                r = r.init(v(ti + 1));
            }
            r = match rs {
                0 => r,
                1 => r.reset(vb("rst"), v(ti)),
                // the reset value is an input
                2 => r.reset(vb("rst"), var("y", t.clone())),
                _ => r.reset(and(vb("rst"), not(vb("en"))), v(vs.len() - 1 - ti % vs.len())),
            };
            let mut ps = vec![("x", t.clone()), ("rst", Ty::Bool), ("en", Ty::Bool)];
            if rs == 2 {
                ps.push(("y", t.clone()));
            }
            if t.width() > 3 && rs == 2 {
                continue;
            }
            let c = Circuit::new(&ps, vec![r], var("r", t.clone()));
            cases.push(c.case(format!("one/{}/{m}", t.show())));
            // without the annotation: inferred from the expression
            if m == 4 {
                let s = c.src().replace(&format!("r: {} ", t.show()), "r ");
                cases.push(c.case_src(format!("inferred/{}", t.show()), s));
            }
            if m == 5 {
                let s = c.src().replace("reg(clk)", "#[fsm(r)] reg(clk)");
                cases.push(c.case_src(format!("fsm_attr/{}", t.show()), s));
            }
        }
    }
    // --- destructuring: every irrefutable pattern
    for (ti, t) in scrutinees(false).iter().enumerate() {
        if t.width() > 5 {
            continue;
        }
        for p in alphabet(t).iter().filter(|p| exhaustive(t, std::slice::from_ref(p))) {
            for (at, named) in [(false, false), (true, false), (true, true)] {
                let np = name_parts(p, t, "q", at, named);
                let mut pos = vec![];
                positions(t, "q", &mut pos);
                let mut bs = vec![];
                bound(&np, &mut bs);
                let parts: Vec<E> =
                    pos.iter().filter(|x| bs.contains(&x.0) && x.1.width() > 0).take(7).map(|(n, t)| var(n, t.clone())).collect();
                if parts.is_empty() {
                    continue;
                }
                let vs = t.values();
                let r = Reg::new("q", t.clone(), var("x", t.clone()))
                    .reset(vb("rst"), lit(vs[ti % vs.len()].clone(), t.clone()))
                    .init(lit(vs[(ti + 1) % vs.len()].clone(), t.clone()))
                    .pat(np.clone());
                let mut parts = parts;
                parts.push(vb("rst"));
                let c = Circuit::new(&[("x", t.clone()), ("rst", Ty::Bool)], vec![r], tup(parts));
                cases.push(c.case(format!("pat/{ti}/{}/{at}/{named}", np.show())));
            }
        }
    }
    // --- two registers, mutual feedback: every pair of update, reset and initial forms
    type Mk = fn(&str, &str) -> E;
    let nexts: Vec<Mk> = vec![
        |_, _| vb("x"),
        |a, _| not(vb(a)),
        |_, o| vb(o),
        |a, o| xor(vb(a), vb(o)),
        |a, o| ite(vb("x"), vb(o), vb(a)),
        |_, o| and(vb("x"), not(vb(o))),
    ];
    let resets: Vec<fn(&str, &str) -> Option<(E, E)>> = vec![
        |_, _| None,
        |_, _| Some((vb("rst"), bl(false))),
        |_, _| Some((vb("rst"), bl(true))),
        |_, o| Some((vb("rst"), vb(o))),
        |a, o| Some((and(vb(a), vb(o)), bl(false))),
    ];
    let inits = [None, Some(false), Some(true)];
    let ps = [("x", Ty::Bool), ("rst", Ty::Bool)];
    let mk = |name: &str, o: &str, k: usize| {
        let mut r = Reg::new(name, Ty::Bool, nexts[k % 6](name, o));
        r.reset = resets[k / 6 % 5](name, o);
        r.init = inits[k / 30].map(bl);
        r
    };
    for i in 0..90 {
        for j in 0..90 {
            if !ctx.thorough() && (i * 7 + j * 3) % 4 != 0 {
                continue;
            }
            let c = Circuit::new(&ps, vec![mk("a", "b", i), mk("b", "a", j)], tup(vec![vb("a"), vb("b")]));
            cases.push(c.case(format!("pair/{i}/{j}")));
        }
    }
    // rings of three and four
    for len in 3..=4usize {
        let names = ["a", "b", "c", "d"];
        for f in 0..6usize.pow(len as u32) {
            if len == 4 && !ctx.thorough() && f % 7 != 0 {
                continue;
            }
            let mut g = f;
            let mut regs = vec![];
            for k in 0..len {
                let mut r = Reg::new(names[k], Ty::Bool, nexts[g % 6](names[k], names[(k + 1) % len]));
                g /= 6;
                if k % 2 == 0 {
                    r = r.reset(vb("rst"), bl(k == 0));
                } else {
                    r = r.init(bl(k == 1)).reset(vb("rst"), vb("x"));
                }
                regs.push(r);
            }
            // written in another order than the data flow
            let rot = f % len;
            regs.rotate_left(rot);
            let c = Circuit::new(&ps, regs, tup(names[..len].iter().map(|n| vb(n)).collect()));
            cases.push(c.case(format!("ring{len}/{f}")));
        }
    }
    // --- state machines: every transition function of three states and one input
    let e3 = mk_enum("St", &[("A", &[]), ("B", &[]), ("C", &[])]);
    for f in 0..729usize {
        let d: Vec<usize> = (0..6).map(|k| f / 3usize.pow(k) % 3).collect();
        let ev = |k: usize| enew(&e3, k, vec![]);
        let Ty::Enum(ed) = &e3 else { panic!() };
        let arms = (0..3)
            .map(|s| (Pat::Enum(ed.clone(), s, vec![]), ite(vb("x"), ev(d[2 * s]), ev(d[2 * s + 1]))))
            .collect();
        let r = Reg::new("s", e3.clone(), mtch(var("s", e3.clone()), arms)).reset(vb("rst"), ev(f % 3));
        let out = mtch(
            tup(vec![var("s", e3.clone()), vb("x")]),
            vec![
                (Pat::Tup(vec![Pat::Enum(ed.clone(), 0, vec![]), Pat::Wild]), num(1, Ty::U(2))),
                (Pat::Tup(vec![Pat::Wild, Pat::Bool(true)]), num(2, Ty::U(2))),
                (Pat::Tup(vec![Pat::Enum(ed.clone(), 1, vec![]), Pat::Wild]), num(3, Ty::U(2))),
                (Pat::Wild, num(0, Ty::U(2))),
            ],
        );
        let c = Circuit::new(&ps, vec![r], tup(vec![out, var("s", e3.clone())]));
        cases.push(c.case(format!("fsm/{f}")));
    }
    // state with payload
    let ep = mk_enum("Sp", &[("Idle", &[]), ("Run", &[("n", Ty::U(2)), ("d", Ty::Bool)]), ("Done", &[("d", Ty::Bool)])]);
    {
        let Ty::Enum(ed) = &ep else { panic!() };
        for f in 0..64usize {
            let lim = num((f % 4) as i128, Ty::U(2));
            let run = |n: E, d: E| enew(&ep, 1, vec![n, d]);
            let arms = vec![
                (Pat::Enum(ed.clone(), 0, vec![]), None, ite(vb("x"), run(num((f / 4 % 4) as i128, Ty::U(2)), vb("y")), enew(&ep, 0, vec![]))),
                (Pat::Enum(ed.clone(), 1, vec![Pat::Int((f % 4) as i128), Pat::Bind("d".into())]), if f & 16 > 0 { Some(vb("x")) } else { None }, enew(&ep, 2, vec![vb("d")])),
                (
                    Pat::Enum(ed.clone(), 1, vec![Pat::Bind("n".into()), Pat::Bind("d".into())]),
                    None,
                    run(wadd(var("n", Ty::U(2)), 1), if f & 32 > 0 { xor(vb("d"), vb("y")) } else { vb("d") }),
                ),
                (Pat::Enum(ed.clone(), 2, vec![Pat::Wild]), None, ite(vb("y"), enew(&ep, 0, vec![]), var("s", ep.clone()))),
            ];
            let _ = lim;
            let r = Reg::new("s", ep.clone(), mtchg(var("s", ep.clone()), arms)).reset(vb("rst"), enew(&ep, 0, vec![]));
            let c = Circuit::new(&[("x", Ty::Bool), ("y", Ty::Bool), ("rst", Ty::Bool)], vec![r], var("s", ep.clone()));
            cases.push(c.case(format!("fsm_payload/{f}")));
        }
    }
    // --- counters of every width, wide registers
    for w in (1..=8).chain([31, 32, 33, 63, 64, 65, 100, 120]) {
        for t in [Ty::U(w), Ty::I(w)] {
            for (k, step) in [1i128, -1, 3].into_iter().enumerate() {
                if w < 3 && (step > 1 || matches!(t, Ty::I(_)) && w == 1) || (step < 0 && matches!(t, Ty::U(_))) {
                    continue;
                }
                let (lo, hi) = match t {
                    Ty::U(_) => (0, ones(w) as i128),
                    _ => (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1),
                };
                for (iv, rv) in [(lo, hi), (hi, lo), (0, hi)] {
                    let r = Reg::new("r", t.clone(), ite(vb("en"), wadd(var("r", t.clone()), step), var("r", t.clone())))
                        .init(num(iv, t.clone()))
                        .reset(vb("rst"), num(rv, t.clone()));
                    let mut c = Circuit::new(&[("en", Ty::Bool), ("rst", Ty::Bool)], vec![r], var("r", t.clone()))
                        .case(format!("count/{}/{k}/{iv}/{rv}", t.show()));
                    if w > 8 {
                        c.max_depth = 6;
                    }
                    cases.push(c);
                }
            }
        }
    }
    // --- several clocks: every subset of clocks may tick in a step
    let clkn = ["clk", "ck2", "ck3"];
    for nc in 2..=ctx.pick(2usize, 3) {
        for f in 0..nc * nc * 6 * 6 * 5 * 5 {
            if f % ctx.pick(1, 1) != 0 {
                continue;
            }
            let mut g = f;
            let mut take = |m: usize| {
                let r = g % m;
                g /= m;
                r
            };
            let (ca, cb, na, nb, ra, rb) = (take(nc), take(nc), take(6), take(6), take(5), take(5));
            if ca == cb && f % 3 != 0 {
                continue;
            }
            let mut a = Reg::new("a", Ty::Bool, nexts[na]("a", "b")).on(ca).init(bl(f % 2 == 0));
            a.reset = resets[ra]("a", "b");
            let mut bb = Reg::new("b", Ty::Bool, nexts[nb]("b", "a")).on(cb).init(bl(f % 4 < 2));
            bb.reset = resets[rb]("b", "a");
            let c = Circuit::new(&ps, vec![a, bb], tup(vec![vb("a"), vb("b")])).clocks(&clkn[..nc]);
            cases.push(c.case(format!("clocks{nc}/{f}")));
        }
    }
    // --- registers inside blocks, branches, entities, generics, methods
    for (ti, t) in [Ty::Bool, Ty::U(2), Ty::I(3), Ty::opt(Ty::Bool), Ty::Tup(vec![Ty::Bool, Ty::U(1)]), ar(&Ty::Bool, 2)].iter().enumerate() {
        let ts = t.show();
        let vs = t.values();
        let rv = lit(vs[ti % vs.len()].clone(), t.clone());
        let rs = rv.show();
        let x = || var("x", t.clone());
        let delay = |k: usize, reset: bool| {
            let mut regs = vec![];
            for i in 0..k {
                let src = if i == 0 { x() } else { var(&format!("r{}", i - 1), t.clone()) };
                let mut r = Reg::new(&format!("r{i}"), t.clone(), src);
                if reset {
                    r = r.reset(vb("rst"), rv.clone());
                }
                regs.push(r);
            }
            Circuit::new(&[("x", t.clone()), ("rst", Ty::Bool), ("c", Ty::Bool)], regs, var(&format!("r{}", k - 1), t.clone()))
        };
        let head = format!("entity top(clk: clock, x: {ts}, rst: bool, c: bool) -> {ts}");
        let sub = format!("entity sub(clk: clock, rst: bool, x: {ts}) -> {ts} {{ reg(clk) r reset(rst: {rs}) = x; r }}\n");
        let gsub = "entity sub<T>(clk: clock, rst: bool, d: T, x: T) -> T { reg(clk) r reset(rst: d) = x; r }\n".to_string();
        let mut chain = "x".to_string();
        let mut gchain = "x".to_string();
        let mut nchain = "x".to_string();
        for k in 1..=3 {
            chain = format!("inst sub(clk, rst, {chain})");
            nchain = format!("inst sub$(x: {nchain}, clk, rst: rst)");
            gchain = format!("inst sub(clk, rst, {rs}, {gchain})");
            cases.push(delay(k, true).case_src(format!("chain{k}/{ts}"), format!("{sub}{head} {{ {chain} }}")));
            cases.push(delay(k, true).case_src(format!("nchain{k}/{ts}"), format!("{sub}{head} {{ {nchain} }}")));
            cases.push(delay(k, true).case_src(format!("gchain{k}/{ts}"), format!("{gsub}{head} {{ {gchain} }}")));
        }
        let cc = |c: Circuit, n: &str, body: &str| c.case_src(format!("{n}/{ts}"), format!("{sub}{head} {{ {body} }}"));
        cases.push(cc(delay(1, false), "block", "let y = { reg(clk) r = x; r }; y"));
        cases.push(cc(delay(2, true), "block2", &format!("let y = {{ reg(clk) r reset(rst: {rs}) = x; {{ reg(clk) q reset(rst: {rs}) = r; q }} }}; y")));
        cases.push(cc(delay(2, false), "nested_names", "reg(clk) y = x; let x = y; { reg(clk) y = x; y }"));
        cases.push(cc(delay(3, false), "shadow3", "reg(clk) y = x; let x = y; reg(clk) y = x; let x = y; reg(clk) y = x; y"));
        // a register is in scope in its own definition, so this refers to the register
        let own = Circuit::new(
            &[("x", t.clone()), ("rst", Ty::Bool), ("c", Ty::Bool)],
            vec![Reg::new("r", t.clone(), var("r", t.clone())).reset(vb("rst"), rv.clone())],
            var("r", t.clone()),
        );
        cases.push(cc(own.clone(), "own_name", &format!("reg(clk) x: {ts} reset(rst: {rs}) = x; x")));
        // both branches keep their registers running whatever is selected
        let mut two = delay(2, true);
        two.out = ite(vb("c"), var("r0", t.clone()), var("r1", t.clone()));
        cases.push(cc(
            two.clone(),
            "branch",
            &format!("if c {{ reg(clk) r reset(rst: {rs}) = x; r }} else {{ inst sub(clk, rst, inst sub(clk, rst, x)) }}"),
        ));
        cases.push(cc(
            two.clone(),
            "match_arm",
            &format!("match (c, true) {{ (true, _) => {{ reg(clk) r reset(rst: {rs}) = x; r }}, (false, _) => {{ let y = inst sub(clk, rst, x); reg(clk) r reset(rst: {rs}) = y; r }} }}"),
        ));
        two.out = tup(vec![var("r0", t.clone()), var("r1", t.clone())]);
        cases.push(two.case_src(
            format!("shared/{ts}"),
            format!("{sub}entity top(clk: clock, x: {ts}, rst: bool, c: bool) -> ({ts}, {ts}) {{ let a = inst sub(clk, rst, x); let b = inst sub(clk, rst, a); (a, b) }}"),
        ));
        cases.push(two.case_src(
            format!("method/{ts}"),
            format!("struct W {{ v: {ts} }}\nimpl W {{ entity tick(self, clk: clock, rst: bool) -> W {{ reg(clk) r reset(rst: {rs}) = self.v; W(r) }} }}\nentity top(clk: clock, x: {ts}, rst: bool, c: bool) -> ({ts}, {ts}) {{ let a = W(x).inst tick(clk, rst); let b = a.inst tick(clk, rst); (a.v, b.v) }}"),
        ));
        cases.push(two.case_src(
            format!("trait/{ts}"),
            format!("trait Tk {{ entity tick(self, clk: clock, rst: bool) -> Self; }}\nstruct W {{ v: {ts} }}\nimpl Tk for W {{ entity tick(self, clk: clock, rst: bool) -> Self {{ reg(clk) r reset(rst: {rs}) = self.v; W(r) }} }}\nentity top(clk: clock, x: {ts}, rst: bool, c: bool) -> ({ts}, {ts}) {{ let a = W(x).inst tick(clk, rst); let b = a.inst tick(clk, rst); (a.v, b.v) }}"),
        ));
        // clock gated through entities and renamed ports
        cases.push(delay(2, true).case_src(
            format!("clk_alias/{ts}"),
            format!("{sub}entity mid(c1: clock, r1: bool, v: {ts}) -> {ts} {{ let c2 = c1; let y = inst sub(c2, r1, v); reg(c2) z reset(r1: {rs}) = y; z }}\n{head} {{ let k = clk; inst mid(k, rst, x) }}"),
        ));
        cases.push(delay(1, true).case_src(
            format!("clk_struct/{ts}"),
            format!("struct D {{ clk: clock, rst: bool }}\nentity mid(d: D, v: {ts}) -> {ts} {{ reg(d.clk) z reset(d.rst: {rs}) = v; z }}\n{head} {{ inst mid(D$(rst, clk), x) }}"),
        ));
        cases.push(delay(1, true).case_src(
            format!("clk_tuple/{ts}"),
            format!("entity mid(d: (clock, bool), v: {ts}) -> {ts} {{ let (k, r) = d; reg(k) z reset(r: {rs}) = v; z }}\n{head} {{ inst mid((clk, rst), x) }}"),
        ));
    }
    let _ = (en, st);
    cases
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let cases = cases(&ctx);
    eprintln!("[p08] {} programs", cases.len());
    run_cases(&ctx, &pool, &cases, &RunOpt { batch: 150, ..RunOpt::std() });
    ctx.finish(
        "model_checking",
        "registers of every type of the bounded grammar with every combination of reset, initial and hold; every irrefutable pattern; \
         every pair (and rings of three and four) of registers in mutual feedback with every update/reset/initial form; every \
         transition function of a three-state machine; counters; registers over two clocks with every subset of clocks ticking; \
         registers in blocks, branches, entities, generics and methods. The product of the emitted Verilog and the reference \
         model is explored breadth first over all inputs until no new state appears.",
        &["the Verilog subset is executed by this framework's own four-state simulator",
          "registers without reset or initial start undefined; the reference treats anything computed from them as unconstrained",
          "registers wider than 8 bits are followed for six cycles only"],
        true,
    )
}
