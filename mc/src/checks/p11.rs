//! P11: pipeline timing errors are rejected, correct timing is accepted.
use super::p10::*;
use crate::comp::*;
use crate::hw::*;
use crate::report::*;

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let mut cases: Vec<VCase> = vec![];
    let mut why: std::collections::BTreeMap<String, u64> = Default::default();
    for (key, p) in programs(ctx.thorough()) {
        match p.flatten() {
            Ok(_) => {
                *why.entry("accept".into()).or_default() += 1;
                cases.push(VCase::accept(key, p.src()))
            }
            Err(e) if e.starts_with('?') => {
                *why.entry("no verdict".into()).or_default() += 1;
            }
            Err(e) => {
                let e: String = e.split_whitespace().filter(|w| !w.chars().any(|c| c.is_ascii_digit())).skip(1).collect::<Vec<_>>().join(" ");
                *why.entry(e).or_default() += 1;
                cases.push(VCase::reject(key, p.src()))
            }
        }
    }
    for (w, k) in &why {
        ctx.count(&format!("model: {w}"), *k);
    }

    // --- declared depth against the markers, written in every way
    let top = ctx.pick(4usize, 6);
    for d in 0..=top {
        for n in 0..=top {
            let mut ways: Vec<(&str, String)> = vec![("single", "reg; ".repeat(n)), ("counted", format!("reg*{n};")), ("stall", "reg[c]; ".repeat(n))];
            for k in 0..=n {
                ways.push(("split", format!("reg*{k}; let y = x; {} let z = y; ", "reg; ".repeat(n - k))));
                ways.push(("split_counts", format!("reg*{k}; reg*{}; ", n - k)));
            }
            for (w, r) in ways {
                cases.push(VCase::verdict(
                    format!("depth/{w}/{d}/{n}"),
                    format!("pipeline({d}) top(clk: clock, wire c: bool, x: uint<2>) -> uint<2> {{ {r} x }}"),
                    d == n,
                ));
            }
            // instantiated with another depth than declared, from every kind of unit
            let p = format!("pipeline({n}) p(clk: clock, x: uint<2>) -> uint<2> {{ reg*{n}; x }}");
            let ext = format!("extern pipeline({n}) p(clk: clock, x: uint<2>) -> uint<2>;");
            for (k, p) in [p.clone(), ext].into_iter().enumerate() {
                cases.push(VCase::verdict(format!("inst/entity/{d}/{n}/{k}"), format!("{p} entity top(clk: clock, x: uint<2>) -> uint<2> {{ inst({d}) p(clk, x) }}"), d == n));
                for w in 0..=top {
                    cases.push(VCase::verdict(
                        format!("inst/pipeline/{d}/{n}/{w}/{k}"),
                        format!("{p} pipeline({w}) top(clk: clock, x: uint<2>) -> uint<2> {{ let y = inst({d}) p(clk, x); reg*{w}; y }}"),
                        d == n && w >= n,
                    ));
                }
            }
            cases.push(VCase::verdict(
                format!("inst/method/{d}/{n}"),
                format!("struct S {{ v: uint<2> }} impl S {{ pipeline({n}) go(self, clk: clock) -> uint<2> {{ reg*{n}; self.v }} }} entity top(clk: clock, x: uint<2>) -> uint<2> {{ S(x).inst({d}) go(clk) }}"),
                d == n,
            ));
            // whether the depth in a trait has to be that of the implementation is not judged here
            if d == n {
                cases.push(VCase::verdict(
                    format!("inst/trait/{d}/{n}"),
                    format!("trait T {{ pipeline({d}) go(self, clk: clock) -> uint<2>; }} struct S {{ v: uint<2> }} impl T for S {{ pipeline({n}) go(self, clk: clock) -> uint<2> {{ reg*{n}; self.v }} }} entity top(clk: clock, x: uint<2>) -> uint<2> {{ S(x).inst({n}) go(clk) }}"),
                    d == n,
                ));
            }
            // generic depths
            cases.push(VCase::verdict(
                format!("inst/generic/{d}/{n}"),
                format!("pipeline({{D}}) p<#uint D>(clk: clock, x: uint<2>) -> uint<2> {{ reg*D; x }} entity top(clk: clock, x: uint<2>) -> uint<2> {{ inst({d}) p::<{n}>(clk, x) }}"),
                d == n,
            ));
            cases.push(VCase::verdict(
                format!("inst/generic_sum/{d}/{n}"),
                format!("pipeline({{A + B}}) p<#uint A, #uint B>(clk: clock, x: uint<2>) -> uint<2> {{ reg*A; let y = x; reg*B; y }} entity top(clk: clock, x: uint<2>) -> uint<2> {{ inst({}) p::<{d}, {n}>(clk, x) }}", d + n),
                true,
            ));
            for w in 0..=2 * top {
                if (d + n).abs_diff(w) == 1 || w == d.max(n) {
                    cases.push(VCase::verdict(
                        format!("inst/generic_sum/{d}/{n}/{w}"),
                        format!("pipeline({{A + B}}) p<#uint A, #uint B>(clk: clock, x: uint<2>) -> uint<2> {{ reg*A; let y = x; reg*B; y }} entity top(clk: clock, x: uint<2>) -> uint<2> {{ inst({w}) p::<{d}, {n}>(clk, x) }}"),
                        w == d + n,
                    ));
                }
            }
            // a reference from after d markers, k stages away, in a generic pipeline
            for k in -(top as i64)..=top as i64 {
                let ok = d as i64 + k >= 0 && d as i64 + k <= (d + n) as i64;
                let r = format!("stage({}{}).x", if k < 0 { '-' } else { '+' }, k.abs());
                cases.push(VCase::verdict(
                    format!("ref/counted/{d}/{n}/{k}"),
                    format!("pipeline({}) top(clk: clock, x: uint<2>) -> uint<2> {{ reg*{d}; let y = {r}; reg*{n}; y }}", d + n),
                    ok,
                ));
                if k != 0 {
                    cases.push(VCase::verdict(
                        format!("ref/generic/{d}/{n}/{k}"),
                        format!("pipeline({{A + B}}) p<#uint A, #uint B>(clk: clock, x: uint<2>) -> uint<2> {{ reg*A; let y = {r}; reg*B; y }} entity top(clk: clock, x: uint<2>) -> uint<2> {{ inst({}) p::<{d}, {n}>(clk, x) }}", d + n),
                        ok,
                    ));
                }
                // the offset is a parameter
                if k > 0 {
                    for sign in ['+', '-'] {
                        let ok = if sign == '+' { k <= n as i64 } else { k <= d as i64 };
                        cases.push(VCase::verdict(
                            format!("ref/offset/{d}/{n}/{sign}{k}"),
                            format!("pipeline({}) p<#uint K>(clk: clock, x: uint<2>) -> uint<2> {{ reg*{d}; let y = stage({sign}K).x; reg*{n}; y }} entity top(clk: clock, x: uint<2>) -> uint<2> {{ inst({}) p::<{k}>(clk, x) }}", d + n, d + n),
                            ok,
                        ));
                    }
                }
            }
        }
    }

    // --- pipelines can only be instantiated as such, with a clock, and stages exist only in pipelines
    let units = [
        ("fn", "fn u(clk: clock, x: uint<2>) -> uint<2> { x }"),
        ("entity", "entity u(clk: clock, x: uint<2>) -> uint<2> { reg(clk) y = x; y }"),
        ("pipeline", "pipeline(1) u(clk: clock, x: uint<2>) -> uint<2> { reg; x }"),
    ];
    let calls = [("fn", "u(clk, x)"), ("entity", "inst u(clk, x)"), ("pipeline", "inst(1) u(clk, x)")];
    for (uk, u) in units {
        for (ck, c) in calls {
            for (wk, w) in [
                ("entity", format!("entity top(clk: clock, x: uint<2>) -> uint<2> {{ {c} }}")),
                ("pipeline", format!("pipeline(1) top(clk: clock, x: uint<2>) -> uint<2> {{ let y = {c}; reg; y }}")),
                ("fn", format!("fn top(clk: clock, x: uint<2>) -> uint<2> {{ {c} }}")),
            ] {
                cases.push(VCase::verdict(format!("kind/{uk}/{ck}/{wk}"), format!("{u} {w}"), uk == ck && (wk != "fn" || uk == "fn")));
            }
        }
    }
    for (k, u) in ["fn top", "entity top"].iter().enumerate() {
        for (j, b) in ["reg; x", "reg*1; x", "reg[true]; x", "stage(-1).x", "stage(+1).x", "stage(a).x", "{ let y = stage(-1).x; y }"].iter().enumerate() {
            cases.push(VCase::reject(format!("outside/{k}/{j}"), format!("{u}(clk: clock, x: uint<2>) -> uint<2> {{ {b} }}")));
        }
        for b in ["stage.ready", "stage.valid"] {
            cases.push(VCase::reject(format!("outside/{k}/{b}"), format!("{u}(clk: clock, x: uint<2>) -> bool {{ {b} }}")));
        }
    }
    for (j, b) in [
        "let y = { reg; x }; y",
        "let y = if true { reg; x } else { x }; y",
        "let y = match x { _ => { reg; x } }; y",
        "reg; { reg; x }",
        "reg; if true { reg; x } else { x }",
    ]
    .iter()
    .enumerate()
    {
        for d in 0..=2 {
            cases.push(VCase::reject(format!("nested_reg/{j}/{d}"), format!("pipeline({d}) top(clk: clock, x: uint<2>) -> uint<2> {{ {b} }}")));
        }
    }
    for (j, h) in ["()", "(x: uint<2>)", "(x: uint<2>, clk: clock)", "(c: (clock, bool))", "(c: [clock; 1])", "(c: inv clock)"].iter().enumerate() {
        for d in 0..=1 {
            cases.push(VCase::reject(format!("clock/{j}/{d}"), format!("pipeline({d}) top{h} -> uint<2> {{ {} 1 }}", "reg; ".repeat(d))));
        }
    }
    for (j, s) in [
        "pipeline(1) top(clk: clock, x: uint<2>) -> uint<2> { reg[x]; x }",
        "pipeline(1) top(clk: clock, x: uint<2>) -> uint<2> { reg[1]; x }",
        "pipeline(1) top(clk: clock, x: uint<2>) -> uint<2> { reg[clk]; x }",
        "pipeline(1) top(clk: clock, x: (bool, bool)) -> bool { reg[x]; true }",
        "pipeline(2) top(clk: clock, x: uint<2>) -> uint<2> { reg*2; stage(nowhere).x }",
        "pipeline(2) top(clk: clock, x: uint<2>) -> uint<2> { reg; 'a reg; 'a x }",
        "pipeline(2) top(clk: clock, x: uint<2>) -> uint<2> { reg*2; stage(-1).nothing }",
        "pipeline(2) top(clk: clock, x: uint<2>) -> uint<2> { let y = stage(+1).nothing; reg*2; x }",
        "pipeline(-1) top(clk: clock, x: uint<2>) -> uint<2> { x }",
        "pipeline(1) top(clk: clock, x: uint<2>) -> uint<2> { reg*-1; reg*2; x }",
        "pipeline(x) top(clk: clock, x: uint<2>) -> uint<2> { reg; x }",
        "pipeline(1) top(clk: clock, x: uint<2>) -> uint<2> { reg*x; x }",
        "pipeline(1) top(clk: clock, x: uint<2>) -> uint<2> { reg; x } pipeline(1) q(clk: clock, x: uint<2>) -> uint<2> { let y = inst(x) top(clk, x); reg; y }",
    ]
    .iter()
    .enumerate()
    {
        cases.push(VCase::reject(format!("misc/{j}"), *s));
    }
    eprintln!("[p11] {} programs, {why:?}", cases.len());
    run_verdicts(&ctx, &pool, &cases, &RunOpt { batch: 120, ..RunOpt::std() });
    ctx.finish(
        "model_checking",
        "all programs of P10's bounded family, with a meaning or without: the timing model (stage of every definition, latency of \
         every expression, stages of every reference) decides acceptance; every pair of declared and actual depth written in every \
         way, in every kind of instantiation and with generic depths; every relative reference in fixed and generic pipelines; \
         stages and instantiations in the wrong kind of unit.",
        &["a value with a delay bound inside a nested block or by a match pattern is rejected by design (it must be bound by a let of the pipeline)",
          "wires read before their definition, and late wires, are not judged",
          "combinational loops are not judged"],
        true,
    )
}
