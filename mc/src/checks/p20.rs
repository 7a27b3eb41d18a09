//! P20: compile-time numbers.
use crate::comp::*;
use crate::hw::*;
use crate::report::*;

#[derive(Clone, Debug, PartialEq)]
enum C {
    Int(i64),
    Bool(bool),
    Name(usize),
    Un(&'static str, Box<C>),
    Bin(&'static str, Box<C>, Box<C>),
    Fn(&'static str, Box<C>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum V {
    I(i64),
    B(bool),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum R {
    Val(V),
    /// Ill-typed or division by zero: the program has to be rejected
    None,
    /// Not judged (what division of negative numbers gives is not documented)
    Skip,
}
const NAMES: [&str; 2] = ["N", "M"];
const ARITH: [&str; 5] = ["+", "-", "*", "/", "%"];
const CMP: [&str; 6] = ["==", "!=", "<", ">", "<=", ">="];
const LOGIC: [&str; 3] = ["&&", "||", "^^"];

fn prec(op: &str) -> u32 {
    match op {
        "||" => 1,
        "&&" => 2,
        "^^" => 3,
        "==" | "!=" | "<" | ">" | "<=" | ">=" => 4,
        "+" | "-" => 5,
        _ => 6,
    }
}

impl C {
    fn show(&self) -> String {
        self.sh(0)
    }
    /// The text with parentheses only where precedence needs them
    fn sh(&self, min: u32) -> String {
        match self {
            C::Int(i) if *i < 0 => format!("(0 - {})", -i),
            C::Int(i) => i.to_string(),
            C::Bool(b) => b.to_string(),
            C::Name(n) => NAMES[*n].into(),
            C::Un(o, e) => format!("({o}{})", e.sh(9)),
            C::Fn(f, e) => format!("{f}({})", e.show()),
            C::Bin(o, a, b) => {
                let p = prec(o);
                let s = format!("{} {o} {}", a.sh(p), b.sh(p + 1));
                if p < min { format!("({s})") } else { s }
            }
        }
    }
    fn ev(&self, p: &[i64]) -> R {
        use R::*;
        use V::*;
        match self {
            C::Int(i) => Val(I(*i)),
            C::Bool(b) => Val(B(*b)),
            C::Name(n) => Val(I(p[*n])),
            C::Un(o, e) => match (*o, e.ev(p)) {
                ("-", Val(I(i))) => Val(I(-i)),
                ("!", Val(B(b))) => Val(B(!b)),
                (_, Val(_)) => None,
                (_, r) => r,
            },
            C::Fn(f, e) => match e.ev(p) {
                // The smallest w such that the number fits in (u)int<w>
                Val(I(i)) if *f == "int::bits_for" => {
                    Val(I((0..40).find(|w| if *w == 0 { false } else { i >= -(1 << (w - 1)) && i < 1 << (w - 1) }).unwrap()))
                }
                Val(I(i)) if i >= 0 => Val(I((0..40).find(|w| i < 1 << w).unwrap())),
                Val(I(_)) => Skip,
                Val(_) => None,
                r => r,
            },
            C::Bin(o, a, b) => match (a.ev(p), b.ev(p)) {
                (Skip, _) | (_, Skip) => Skip,
                (None, _) | (_, None) => None,
                (Val(I(a)), Val(I(b))) => match *o {
                    "+" => Val(I(a + b)),
                    "-" => Val(I(a - b)),
                    "*" => Val(I(a * b)),
                    "/" | "%" if b == 0 => None,
                    "/" | "%" if (a < 0 || b < 0) && a % b != 0 => Skip,
                    "/" => Val(I(a / b)),
                    "%" => Val(I(a % b)),
                    "==" => Val(B(a == b)),
                    "!=" => Val(B(a != b)),
                    "<" => Val(B(a < b)),
                    ">" => Val(B(a > b)),
                    "<=" => Val(B(a <= b)),
                    ">=" => Val(B(a >= b)),
                    _ => None,
                },
                (Val(B(a)), Val(B(b))) => match *o {
                    "==" => Val(B(a == b)),
                    "!=" => Val(B(a != b)),
                    "&&" => Val(B(a && b)),
                    "||" => Val(B(a || b)),
                    "^^" => Val(B(a != b)),
                    _ => None,
                },
                _ => None,
            },
        }
    }
    fn uses(&self, n: usize) -> bool {
        match self {
            C::Name(m) => *m == n,
            C::Int(_) | C::Bool(_) => false,
            C::Un(_, e) | C::Fn(_, e) => e.uses(n),
            C::Bin(_, a, b) => a.uses(n) || b.uses(n),
        }
    }
}
fn bin(o: &'static str, a: &C, b: &C) -> C {
    C::Bin(o, Box::new(a.clone()), Box::new(b.clone()))
}
fn un(o: &'static str, a: &C) -> C {
    C::Un(o, Box::new(a.clone()))
}
fn call(o: &'static str, a: &C) -> C {
    C::Fn(o, Box::new(a.clone()))
}
const N: C = C::Name(0);
const M: C = C::Name(1);

/// (numbers of depth <= 1, numbers of depth 2, conditions)
fn exprs(thorough: bool) -> (Vec<C>, Vec<C>, Vec<C>) {
    let leaves: Vec<C> = if thorough {
        vec![N, M, C::Int(0), C::Int(1), C::Int(2), C::Int(5), C::Int(100)]
    } else {
        vec![N, M, C::Int(1), C::Int(3)]
    };
    let mut d1 = leaves.clone();
    d1.push(C::Int(0));
    d1.push(C::Int(77));
    for a in &leaves {
        for b in &leaves {
            if matches!((a, b), (C::Int(_), C::Int(_))) && a != b {
                continue;
            }
            for o in ARITH {
                d1.push(bin(o, a, b));
            }
        }
    }
    for a in [N, M, C::Int(7), C::Int(8), C::Int(-8), C::Int(-9)] {
        for f in ["int::bits_for", "uint::bits_for"] {
            if !(f == "uint::bits_for" && matches!(a, C::Int(i) if i < 0)) {
                d1.push(call(f, &a));
            }
        }
    }
    d1.push(un("-", &N));
    d1.push(un("-", &M));
    let mut seen = std::collections::HashSet::new();
    d1.retain(|e| seen.insert(e.show()));
    let mut d2 = vec![];
    for e in &d1 {
        for l in &leaves {
            for o in ARITH {
                d2.push(bin(o, e, l));
                d2.push(bin(o, l, e));
            }
        }
        for f in ["int::bits_for", "uint::bits_for"] {
            d2.push(call(f, e));
        }
        d2.push(un("-", e));
    }
    d2.retain(|e| seen.insert(e.show()) && (e.uses(0) || e.uses(1)));
    let mut cond = vec![C::Bool(true), C::Bool(false)];
    for e in &d1 {
        for l in &leaves {
            for o in CMP {
                if e.uses(0) || l.uses(0) || e.uses(1) || l.uses(1) {
                    cond.push(bin(o, e, l));
                }
            }
        }
    }
    let base: Vec<C> = CMP.iter().flat_map(|o| [bin(o, &N, &M), bin(o, &C::Int(2), &N), bin(o, &M, &C::Int(1))]).collect();
    for a in base.iter().chain(&[C::Bool(true), C::Bool(false)]) {
        cond.push(un("!", a));
        for b in &base {
            for o in LOGIC {
                cond.push(bin(o, a, b));
                if thorough {
                    cond.push(bin(o, &un("!", b), a));
                }
            }
            if thorough || a == &base[0] {
                cond.push(bin("==", a, b));
                cond.push(bin("!=", b, a));
            }
        }
    }
    for o in LOGIC {
        for p in LOGIC {
            cond.push(bin(p, &bin(o, &base[0], &base[4]), &base[8]));
            cond.push(bin(o, &base[1], &bin(p, &base[6], &base[9])));
        }
    }
    // Ill-typed conditions
    for o in ARITH {
        cond.push(bin(o, &base[0], &N));
        cond.push(bin("==", &bin(o, &C::Bool(true), &N), &M));
    }
    for o in LOGIC {
        cond.push(bin(o, &N, &base[0]));
        cond.push(bin(o, &base[0], &M));
        cond.push(bin(o, &N, &M));
    }
    cond.push(un("!", &N));
    cond.push(bin("==", &N, &base[0]));
    cond.push(bin("<", &base[0], &base[1]));
    cond.retain(|e| seen.insert(e.show()));
    (d1, d2, cond)
}

fn params() -> Vec<(i64, i64)> {
    let mut v = vec![];
    for n in 0..8 {
        for m in [1, 2, 3] {
            if (n + m) % 3 != 0 || n < 3 {
                v.push((n, m));
            }
        }
    }
    v.push((-3, 2));
    v.push((8, 0));
    v.push((-1, -2));
    v
}

const VAL: &str = "fn val<#int X>() -> int<16> { X }\n";

/// All the calls, one after the other, in an array
fn table(key: String, defs: &str, calls: &[(String, i64)]) -> VCase {
    let n = calls.len();
    let src = format!("{defs}fn top() -> [int<16>; {n}] {{\n    [\n{}    ]\n}}\n", calls.iter().map(|(c, _)| format!("        {c},\n")).collect::<String>());
    let vals: Vec<i64> = calls.iter().map(|c| c.1).collect();
    // at most 8 elements fit in the reference's word
    assert!(n <= 8);
    let want = vals.iter().enumerate().fold(0u128, |a, (i, v)| a | ((*v as u16 as u128) << (16 * i)));
    VCase::case(Case::comb(key, src, &[], 16 * n as u32, move |_| Some(want)))
}

/// Values of expressions as arguments, through a generic function, for every parameter value
fn arguments(es: &[C], ps: &[(i64, i64)], form: &str, mk: impl Fn(&C) -> String, want: impl Fn(V) -> Option<i64>, out: &mut Vec<VCase>) {
    for e in es {
        let defs = format!("{VAL}{}", mk(e));
        let mut good = vec![];
        for (n, m) in ps {
            let c = format!("f::<{n}, {m}>()");
            let key = format!("{form}/{}/{n},{m}", e.show());
            match e.ev(&[*n, *m]) {
                R::Val(v) => match want(v) {
                    Some(v) if v.abs() < 30000 => good.push((c, v)),
                    Some(_) => {}
                    None => out.push(VCase::reject(key, format!("{defs}fn top() -> int<16> {{ {c} }}\n"))),
                },
                R::None => out.push(VCase::reject(key, format!("{defs}fn top() -> int<16> {{ {c} }}\n"))),
                R::Skip => {}
            }
        }
        for (k, ch) in good.chunks(8).enumerate() {
            out.push(table(format!("{form}/{}/{k}", e.show()), &defs, ch));
        }
    }
}

fn num(v: V) -> Option<i64> {
    match v {
        V::I(i) => Some(i),
        V::B(_) => None,
    }
}

/// Positions in which a number decides a type: only the exact one is accepted
fn widths(es: &[C], ps: &[(i64, i64)], thorough: bool, out: &mut Vec<VCase>) {
    type Mk = fn(&str, &str, i64) -> String;
    let forms: Vec<(&str, Mk)> = vec![
        ("in", |e, a, w| format!("fn f<#int N, #int M>(x: uint<{{{e}}}>) -> bool {{ true }}\nfn top(x: uint<{w}>) -> bool {{ f::<{a}>(x) }}\n")),
        ("out", |e, a, w| format!("extern fn g<#int N, #int M>() -> int<{{{e}}}>;\nfn f<#int N, #int M>() -> int<{{{e}}}> {{ g::<N, M>() }}\nfn top() -> int<{w}> {{ f::<{a}>() }}\n")),
        ("let", |e, a, w| format!("fn f<#int N, #int M, #int W>(x: uint<W>) -> uint<W> {{ let y: uint<{{{e}}}> = x; y }}\nfn top(x: uint<{w}>) -> uint<{w}> {{ f::<{a}, {w}>(x) }}\n")),
        ("len", |e, a, w| format!("fn f<#int N, #int M>(x: [bool; {{{e}}}]) -> bool {{ true }}\nfn top(x: [bool; {w}]) -> bool {{ f::<{a}>(x) }}\n")),
        ("struct", |e, a, w| format!("struct S<#int K> {{ x: int<K> }}\nfn f<#int N, #int M>(x: S<{{{e}}}>) -> bool {{ true }}\nfn top(x: int<{w}>) -> bool {{ f::<{a}>(S(x)) }}\n")),
        ("opt", |e, a, w| format!("fn f<#int N, #int M>(x: Option<(bool, uint<{{{e}}}>)>) -> bool {{ true }}\nfn top(x: Option<(bool, uint<{w}>)>) -> bool {{ f::<{a}>(x) }}\n")),
        ("entity", |e, a, w| format!("entity f<#int N, #int M>(clk: clock, x: uint<{{{e}}}>) -> uint<{{{e}}}> {{ reg(clk) y = x; y }}\nentity top(clk: clock, x: uint<{w}>) -> uint<{w}> {{ inst f::<{a}>(clk, x) }}\n")),
        ("nested", |e, a, w| format!("fn g<#int N, #int M>(x: uint<{{{e}}}>) -> bool {{ true }}\nfn f<#int M, #int N, #int W>(x: uint<W>) -> bool {{ g::<N, M>(x) }}\nfn top(x: uint<{w}>) -> bool {{ h::<{a}>(x) }}\nfn h<#int N, #int M>(x: uint<{w}>) -> bool {{ f::<M, N, {w}>(x) }}\n")),
        ("method", |e, a, w| format!("struct S {{}}\nimpl S {{ fn f<#int N, #int M>(self, x: uint<{{{e}}}>) -> bool {{ true }} }}\nfn top(x: uint<{w}>) -> bool {{ S().f::<{a}>(x) }}\n")),
        ("implm", |e, a, w| format!("struct S<#int N, #int M> {{}}\nimpl<#int N, #int M> S<N, M> {{ fn f(self, x: uint<{{{e}}}>) -> bool {{ true }} }}\nfn top(s: S<{a}>, x: uint<{w}>) -> bool {{ s.f(x) }}\n")),
        ("lambda", |e, a, w| format!("fn f<#int N, #int M, #int W>(x: uint<W>) -> bool {{ let l = fn |y| {{ let z: uint<{{{e}}}> = y; true }}; l.call((x,)) }}\nfn top(x: uint<{w}>) -> bool {{ f::<{a}, {w}>(x) }}\n")),
        ("where-eq", |e, a, w| format!("fn f<#int N, #int M, #uint W>(x: uint<W>) -> bool where W: {{ {e} }} {{ true }}\nfn top(x: uint<{w}>) -> bool {{ f::<{a}, {w}>(x) }}\n")),
        ("where-inf", |e, a, w| format!("fn f<#int N, #int M, #uint W>(x: uint<W>) -> bool where W == {e} {{ true }}\nfn top(x: uint<{w}>) -> bool {{ f::<{a}, _>(x) }}\n")),
        ("pipe", |e, a, w| format!("pipeline({{{e}}}) f<#int N, #int M>(clk: clock, x: bool) -> bool {{ reg*{{{e}}}; x }}\nentity top(clk: clock, x: bool) -> bool {{ inst({w}) f::<{a}>(clk, x) }}\n")),
        ("inst", |e, a, w| format!("pipeline({w}) p(clk: clock, x: bool) -> bool {{ reg*{w}; x }}\nentity f<#int N, #int M>(clk: clock, x: bool) -> bool {{ inst({{{e}}}) p(clk, x) }}\nentity top(clk: clock, x: bool) -> bool {{ inst f::<{a}>(clk, x) }}\n")),
        ("regs", |e, a, w| format!("pipeline({w}) p<#int N, #int M>(clk: clock, x: bool) -> bool {{ reg*{{{e}}}; x }}\nentity top(clk: clock, x: bool) -> bool {{ inst({w}) p::<{a}>(clk, x) }}\n")),
    ];
    for (fi, (form, mk)) in forms.iter().enumerate() {
        for (ei, e) in es.iter().enumerate() {
            for (pi, (n, m)) in ps.iter().enumerate() {
                if !thorough && (fi + ei + pi) % 3 != 0 {
                    continue;
                }
                let a = format!("{n}, {m}");
                let key = |w: i64| format!("width-{form}/{}/{a}/{w}", e.show());
                let src = |w: i64| mk(&e.show(), &a, w);
                match e.ev(&[*n, *m]) {
                    R::Skip => {}
                    R::Val(V::I(v)) if v >= 0 && v <= 64 => {
                        // Registers cannot have a width of zero, and repetitions of `reg` are at least one
                        for w in [v - 1, v, v + 1] {
                            if w < 0 || (w == 0 && ["entity", "regs", "pipe", "inst"].contains(form)) || (v == 0 && ["regs", "pipe", "inst"].contains(form)) {
                                continue;
                            }
                            if w != v && (v > 20 || (!thorough && (ei + pi) % 2 != 0)) {
                                continue;
                            }
                            out.push(VCase::verdict(key(w), src(w), w == v));
                        }
                    }
                    R::Val(V::I(v)) if v > 64 => {}
                    R::Val(_) | R::None => out.push(VCase::reject(key(2), src(2))),
                }
            }
        }
    }
}

/// where clauses accept exactly the instances that satisfy them
fn wheres(es: &[C], ps: &[(i64, i64)], thorough: bool, out: &mut Vec<VCase>) {
    type Mk = fn(&str, i64, i64, usize) -> String;
    let forms: Vec<(&str, Mk)> = vec![
        ("fn", |w, n, m, _| format!("fn f<#int N, #int M>() -> bool where {w} {{ true }}\nfn top() -> bool {{ f::<{n}, {m}>() }}\n")),
        ("entity", |w, n, m, _| format!("entity f<#int M, #int N>(clk: clock) -> bool where {w} {{ reg(clk) x = !x; x }}\nentity top(clk: clock) -> bool {{ inst f::<{m}, {n}>(clk) }}\n")),
        ("pipeline", |w, n, m, _| format!("pipeline(1) f<#int N, #int M>(clk: clock, x: bool) -> bool where {w} {{ reg; x }}\npipeline(1) top(clk: clock, x: bool) -> bool {{ let y = inst(1) f::<{n}, {m}>(clk, x); reg; y }}\n")),
        ("extern", |w, n, m, _| format!("extern fn f<#int N, #int M>() -> bool where {w};\nfn top() -> bool {{ f::<{n}, {m}>() }}\n")),
        ("through", |w, n, m, _| format!("fn f<#int N, #int M>() -> bool where {w} {{ true }}\nfn g<#int B, #int A>() -> bool {{ let _ = f::<{{A + 0}}, B>(); true }}\nfn top() -> bool {{ g::<{m}, {n}>() }}\n")),
        ("offset", |w, n, m, _| format!("fn f<#int N, #int M>() -> bool where {w} {{ true }}\nfn g<#int A, #int B>() -> bool {{ f::<{{A - 1}}, {{2 * B}}>() }}\nfn top() -> bool {{ g::<{}, {}>() }}\n", n + 1, m / 2)),
        ("inferred", |w, n, m, _| format!("fn f<#uint N, #uint M>(x: uint<N>, y: [bool; M]) -> bool where {w} {{ true }}\nfn top(x: uint<{n}>, y: [bool; {m}]) -> bool {{ f(x, y) }}\n")),
        ("method", |w, n, m, k| format!("struct S {{}}\nimpl S {{ fn m{k}<#int N, #int M>(self) -> bool where {w} {{ true }} }}\nfn top(x: S) -> bool {{ x.m{k}::<{n}, {m}>() }}\n")),
        ("implmethod", |w, n, m, k| format!("struct S<#int N> {{ }}\nimpl<#int N> S<N> {{ fn m{k}<#int M>(self) -> bool where {w} {{ true }} }}\nfn top(x: S<{n}>) -> bool {{ x.m{k}::<{m}>() }}\n")),
        ("impl", |w, n, m, k| format!("struct S<#int N, #int M> {{ }}\nimpl<#int N, #int M> S<N, M> where {w} {{ fn m{k}(self) -> bool {{ true }} }}\nfn top(x: S<{n}, {m}>) -> bool {{ x.m{k}() }}\n")),
        ("trait", |w, n, m, k| format!("struct S<#int N, #int M> {{ }}\ntrait T{k} {{ fn m{k}(self) -> bool; }}\nimpl<#int N, #int M> T{k} for S<N, M> where {w} {{ fn m{k}(self) -> bool {{ true }} }}\nfn top(x: S<{n}, {m}>) -> bool {{ x.m{k}() }}\n")),
        ("static", |w, n, m, k| format!("struct S {{}}\nimpl S {{ fn m{k}<#int N, #int M>() -> bool where {w} {{ true }} }}\nfn top() -> bool {{ S::m{k}::<{n}, {m}>() }}\n")),
        ("unused", |w, n, m, _| format!("fn f<#int N, #int M>() -> bool where {w} {{ true }}\nfn top() -> bool {{ let _ = f::<{n}, {m}>(); true }}\n")),
        ("dead", |w, n, m, _| format!("fn f<#int N, #int M>() -> bool where {w} {{ true }}\nfn g<#int N, #int M>() -> bool {{ gen if N + 1 == N {{ f::<N, M>() }} else {{ true }} }}\nfn top() -> bool {{ let _ = g::<{n}, {m}>(); f::<{n}, {m}>() }}\n")),
        ("lambda", |w, n, m, _| format!("fn f<#int N, #int M>() -> bool where {w} {{ true }}\nfn g<#int N, #int M>() -> bool {{ let l = fn || f::<N, M>(); l.call(()) }}\nfn top() -> bool {{ g::<{n}, {m}>() }}\n")),
    ];
    let ops = ["==", "!=", "<", ">", "<=", ">="];
    let mut k = 0;
    let mut add = |text: &str, conds: &[(usize, &'static str, C)], sel: usize, out: &mut Vec<VCase>| {
        for (fi, (form, mk)) in forms.iter().enumerate() {
            for (pi, (n, m)) in ps.iter().enumerate() {
                if !thorough && (fi + pi + sel) % 5 != 0 {
                    continue;
                }
                if (*form == "inferred" && (*n < 0 || *m < 0)) || (*form == "offset" && m % 2 != 0) {
                    continue;
                }
                let mut ok = Some(true);
                for (t, op, e) in conds {
                    match bin(op, &C::Name(*t), e).ev(&[*n, *m]) {
                        R::Val(V::B(b)) => ok = ok.map(|o| o && b),
                        R::Val(_) | R::None => ok = ok.map(|_| false),
                        R::Skip => ok = None,
                    }
                }
                k += 1;
                if let Some(ok) = ok {
                    out.push(VCase::verdict(format!("where-{form}/{text}/{n},{m}"), mk(text, *n, *m, k), ok));
                }
            }
        }
    };
    for (ei, e) in es.iter().enumerate() {
        for (oi, op) in ops.iter().enumerate() {
            let t = (ei + oi) % 2;
            let s = e.show();
            add(&format!("{} {op} {s}", NAMES[t]), &[(t, op, e.clone())], ei + oi, out);
        }
        if ei < 6 {
            add(&format!("N: {{ {} }}", e.show()), &[(0, "==", e.clone())], ei, out);
        }
    }
    // Several clauses are all required
    let few: Vec<(usize, &'static str, C)> = vec![
        (0, ">", C::Int(1)),
        (0, "<", C::Int(6)),
        (1, "!=", C::Int(2)),
        (1, "<=", N),
        (0, "==", bin("*", &M, &C::Int(2))),
        (1, ">=", bin("-", &N, &C::Int(2))),
    ];
    let text = |c: &(usize, &'static str, C), msg: bool| format!("{} {} {}{}", NAMES[c.0], c.1, c.2.show(), if msg { " else \"no\"" } else { "" });
    for (i, a) in few.iter().enumerate() {
        for (j, b) in few.iter().enumerate() {
            if i != j {
                add(&format!("{}, {}", text(a, (i + j) % 3 == 0), text(b, (i + j) % 4 == 0)), &[a.clone(), b.clone()], i + j, out);
                for (l, c) in few.iter().enumerate() {
                    if l != i && l != j && (thorough || (i + j + l) % 3 == 0) {
                        add(&format!("{}, {}, {}", text(a, false), text(b, false), text(c, l % 2 == 0)), &[a.clone(), b.clone(), c.clone()], i + j + l, out);
                    }
                }
            }
        }
    }
    // A condition is not a bound
    for (op, e) in [
        (">", bin("&&", &C::Int(0), &bin("<", &N, &C::Int(4)))),
        ("<", bin("||", &C::Int(4), &bin(">", &M, &C::Int(7)))),
        ("==", bin("<", &M, &C::Int(3))),
        ("!=", C::Bool(true)),
    ] {
        add(&format!("N {op} {}", e.show()), &[(0, op, e.clone())], 0, out);
        add(&format!("N {op} {}", e.show()), &[(0, op, e)], 1, out);
    }
}

/// gen if elaborates exactly one branch
fn genifs(conds: &[C], ps: &[(i64, i64)], thorough: bool, out: &mut Vec<VCase>) {
    let sel = |v: V| match v {
        V::B(b) => Some(if b { 11 } else { 22 }),
        V::I(_) => None,
    };
    arguments(conds, ps, "genif", |e| format!("fn f<#int N, #int M>() -> int<16> {{ gen if {} {{ 11 }} else {{ 22 }} }}\n", e.show()), sel, out);
    // The branch that is not selected may well be impossible
    let few: Vec<C> = conds.iter().enumerate().filter(|(i, c)| thorough || i % 5 == 0 || matches!(c, C::Un(_, _))).map(|x| x.1.clone()).collect();
    arguments(
        &few,
        ps,
        "genif-other",
        |e| {
            format!(
                "fn never<#uint Z>() -> int<16> where Z > 0 {{ 1 }}\nfn yes<#bool B, #uint Z>() -> int<16> {{ gen if B {{ 11 }} else {{ never::<Z>() }} }}\nfn no<#bool B, #uint Z>() -> int<16> {{ gen if B {{ never::<{{Z * 2}}>() }} else {{ 22 }} }}\nfn f<#int N, #int M>() -> int<16> {{ gen if {0} {{ yes::<{{{0}}}, 0>() }} else {{ no::<{{{0}}}, 0>() }} }}\n",
                e.show()
            )
        },
        sel,
        out,
    );
    arguments(&few, ps, "bool-arg", |e| format!("fn b<#bool B>() -> int<16> {{ gen if B {{ 11 }} else {{ 22 }} }}\nfn f<#int N, #int M>() -> int<16> {{ b::<{{{}}}>() }}\n", e.show()), sel, out);
    arguments(&few, ps, "bool-not", |e| format!("fn b<#bool B, #bool D>() -> int<16> {{ gen if !B && D {{ 22 }} else {{ gen if B == D {{ 33 }} else {{ 11 }} }} }}\nfn f<#int N, #int M>() -> int<16> {{ b::<{{{0}}}, {{!({0})}}>() }}\n", e.show()), sel, out);
    arguments(&few, ps, "genif-stmt", |e| format!("fn f<#int N, #int M>() -> int<16> {{ let a = 1; let x: int<16> = {{ let y = gen if {} {{ let z: int<9> = 10; z + a }} else {{ let z: int<9> = 21; z + a }}; std::conv::sext(y) }}; x }}\n", e.show()), sel, out);
    arguments(&few, ps, "genif-method", |e| format!("struct S<#int N> {{}}\nimpl<#int N> S<N> {{ fn f<#int M>(self) -> int<16> {{ gen if {} {{ 11 }} else {{ 22 }} }} }}\nfn f<#int N, #int M>() -> int<16> {{ let s: S<N> = S(); s.f::<M>() }}\n", e.show()), sel, out);
    // A value condition needs `if`
    // Chains
    let base: Vec<C> = vec![
        bin("==", &N, &C::Int(0)),
        bin("<", &N, &M),
        bin(">=", &N, &C::Int(5)),
        bin("!=", &M, &C::Int(2)),
        bin("==", &bin("%", &N, &C::Int(2)), &C::Int(1)),
    ];
    for a in &base {
        for b in &base {
            if a == b {
                continue;
            }
            let chain = |nest: u8| {
                let (s, t) = (a.show(), b.show());
                match nest {
                    0 => format!("fn f<#int N, #int M>() -> int<16> {{ gen if {s} {{ 1 }} else if {t} {{ 2 }} else {{ 3 }} }}\n"),
                    1 => format!("fn f<#int N, #int M>() -> int<16> {{ gen if {s} {{ gen if {t} {{ 4 }} else {{ 1 }} }} else {{ gen if {t} {{ 2 }} else {{ 3 }} }} }}\n"),
                    2 => format!("fn g<#int N, #int M>() -> int<16> {{ gen if {t} {{ 1 }} else {{ 0 }} }}\nfn f<#int N, #int M>() -> int<16> {{ let q = val::<1>(); let p = gen if {s} {{ let q = val::<2>(); (q, g::<N, M>()) }} else {{ let r = val::<7>(); (r, q) }}; let u: int<16> = std::conv::trunc((p.0 << 2) + p.1); u }}\n"),
                    _ => format!("fn f<#int N, #int M>() -> int<16> {{ gen if {s} {{ 1 }} else if {t} {{ 2 }} else if N == 3 {{ 3 }} else if M == 1 {{ 4 }} else {{ 5 }} }}\n"),
                }
            };
            for nest in 0..4u8 {
                let mut good = vec![];
                for (n, m) in ps {
                    let t = |c: &C| match c.ev(&[*n, *m]) {
                        R::Val(V::B(b)) => Some(b),
                        _ => None,
                    };
                    let (Some(x), Some(y)) = (t(a), t(b)) else { continue };
                    let want = match nest {
                        0 => if x { 1 } else if y { 2 } else { 3 },
                        1 => if x { if y { 4 } else { 1 } } else if y { 2 } else { 3 },
                        2 => if x { 8 + y as i64 } else { 29 },
                        _ => if x { 1 } else if y { 2 } else if *n == 3 { 3 } else if *m == 1 { 4 } else { 5 },
                    };
                    good.push((format!("f::<{n}, {m}>()"), want));
                }
                for (k, ch) in good.chunks(8).enumerate() {
                    out.push(table(format!("chain/{nest}/{}/{}/{k}", a.show(), b.show()), &format!("{VAL}{}", chain(nest)), ch));
                }
            }
        }
    }
    // Recursion
    let fact = |n: i64| (1..=n).product::<i64>();
    let rec: Vec<(&str, &str, Box<dyn Fn(i64) -> i64>)> = vec![
        ("sum", "fn f<#uint N>() -> int<16> { gen if N == 0 { 0 } else { std::conv::trunc(val::<{N + 0}>() + f::<{N - 1}>()) } }\n", Box::new(|n| n * (n + 1) / 2)),
        ("fact", "fn f<#uint N>() -> int<16> { gen if N < 2 { 1 } else { std::conv::trunc(f::<{N - 1}>() * val::<{N + 0}>()) } }\n", Box::new(fact)),
        ("fib", "fn f<#uint N>() -> int<16> { gen if N <= 1 { N } else { std::conv::trunc(f::<{N - 1}>() + f::<{N - 2}>()) } }\n", Box::new(|n| (0..n).fold((0, 1), |(a, b), _| (b, a + b)).0)),
        ("half", "fn f<#uint N>() -> int<16> { gen if N == 0 { 0 } else { std::conv::trunc(val::<1>() + f::<{N / 2}>()) } }\n", Box::new(|n| if n == 0 { 0 } else { (n as f64).log2().floor() as i64 + 1 })),
        ("up", "fn f<#uint N>() -> int<16> { g::<0, N>() }\nfn g<#uint I, #uint N>() -> int<16> { gen if I >= N { 100 } else if I % 3 == 1 { std::conv::trunc(g::<{I + 1}, N>() + val::<{I + 0}>()) } else { g::<{I + 1}, N>() } }\n", Box::new(|n| 100 + (0..n).filter(|i| i % 3 == 1).sum::<i64>())),
        ("arr", "fn r<#uint N, T>(x: [T; N]) -> T { gen if N == 1 { x[0] } else { r::<{N - 1}, _>(x[1..N]) } }\nfn f<#uint N>() -> int<16> { let a: [int<16>; 12] = [10,11,12,13,14,15,16,17,18,19,20,21]; r::<{N + 1}, _>(a[0..{N + 1}]) }\n", Box::new(|n| 10 + n)),
        ("gcd", "fn g<#uint A, #uint B>() -> int<16> { gen if B == 0 { A } else { g::<B, {A % B}>() } }\nfn f<#uint N>() -> int<16> { g::<{6 * N + 4}, 18>() }\n", Box::new(|n| { let (mut a, mut b) = (6 * n + 4, 18); while b != 0 { (a, b) = (b, a % b); } a })),
    ];
    for (k, defs, f) in &rec {
        if *k == "arr" {
            continue;
        }
        let calls: Vec<(String, i64)> = (0..8).map(|n| (format!("f::<{n}>()"), f(n))).collect();
        out.push(table(format!("rec/{k}"), &format!("{VAL}{defs}"), &calls));
    }
    // Array sizes known by recursion, for every argument
    for n in 1..=4usize {
        let src = format!("fn cnt<#uint N>(x: [bool; N]) -> uint<8> {{ gen if N == 1 {{ if x[0] {{ 1 }} else {{ 0 }} }} else {{ let h: uint<8> = if x[0] {{ 1 }} else {{ 0 }}; h +. cnt::<{{N - 1}}>(x[1..N]) }} }}\nfn top(x: [bool; {n}]) -> uint<8> {{ cnt(x) }}\n");
        out.push(VCase::case(Case::comb(format!("rec/count/{n}"), src, &[("x", n as u32)], 8, |i| Some(i[0].count_ones() as u128))));
    }
}

/// Values of parameters in expressions: accepted only where they fit
fn fits(thorough: bool, out: &mut Vec<VCase>) {
    let hi = if thorough { 40 } else { 18 };
    for w in 1..=4i64 {
        for signed in [false, true] {
            for n in -hi..=hi {
                let ok = if signed { n >= -(1 << (w - 1)) && n < 1 << (w - 1) } else { n >= 0 && n < 1 << w };
                let t = if signed { format!("int<{w}>") } else { format!("uint<{w}>") };
                let mask = (1i64 << w) - 1;
                let forms = [
                    ("ret", format!("fn f<#int N>() -> {t} {{ N }}\nfn top() -> {t} {{ f::<{n}>() }}\n")),
                    ("let", format!("fn f<#int N>() -> {t} {{ let x: {t} = N; x }}\nfn top() -> {t} {{ f::<{n}>() }}\n")),
                    ("wide", format!("fn f<#int N, #uint W>() -> {0}<W> {{ N }}\nfn top() -> {t} {{ f::<{n}, _>() }}\n", if signed { "int" } else { "uint" })),
                    ("arg", format!("fn id(x: {t}) -> {t} {{ x }}\nfn f<#int N>() -> {t} {{ id(N) }}\nfn top() -> {t} {{ f::<{n}>() }}\n")),
                    ("lit", format!("fn top() -> {t} {{ {n} }}\n")),
                    ("litlet", format!("fn f<#uint W>() -> {0}<W> {{ {n} }}\nfn top() -> {t} {{ f::<{w}>() }}\n", if signed { "int" } else { "uint" })),
                ];
                for (k, src) in forms {
                    let key = format!("fits-{k}/{t}/{n}");
                    out.push(if ok { VCase::case(Case::comb(key, src, &[], w as u32, move |_| Some((n & mask) as u128))) } else { VCase::reject(key, src) });
                }
            }
        }
    }
    // #uint admits no negative numbers, kinds do not mix
    for n in -4..=4i64 {
        out.push(VCase::verdict(format!("kind/uint/{n}"), format!("fn f<#uint N>() -> bool {{ true }}\nfn top() -> bool {{ f::<{n}>() }}\n"), n >= 0));
        out.push(VCase::verdict(format!("kind/uint-expr/{n}"), format!("fn f<#uint N>() -> bool {{ true }}\nfn g<#int N>() -> bool {{ f::<{{N * 3}}>() }}\nfn top() -> bool {{ g::<{n}>() }}\n"), n >= 0));
        out.push(VCase::verdict(format!("kind/uint-sub/{n}"), format!("fn f<#uint N>() -> bool {{ true }}\nfn g<#uint N>() -> bool {{ f::<{{N - 4}}>() }}\nfn top() -> bool {{ g::<{}>() }}\n", n + 4), n >= 0));
    }
    let args = ["3", "true", "\"a\"", "bool", "-1"];
    for (p, good) in [("#int", vec!["3", "-1"]), ("#uint", vec!["3"]), ("#bool", vec!["true"]), ("#str", vec!["\"a\""]), ("", vec!["bool"])] {
        for a in args {
            out.push(VCase::verdict(format!("kind/{p}/{a}"), format!("fn f<{p} P>() -> bool {{ true }}\nfn top() -> bool {{ f::<{a}>() }}\n"), good.contains(&a)));
            out.push(VCase::verdict(format!("kind-through/{p}/{a}"), format!("fn f<{p} P>() -> bool {{ true }}\nfn g<{p} P>() -> bool {{ f::<P>() }}\nfn top() -> bool {{ g::<{a}>() }}\n"), good.contains(&a)));
        }
    }
    // Strings
    let s = ["", "a", "b", "ab", "a b", "A"];
    for x in s {
        for y in s {
            out.push(table(
                format!("str/{x:?}/{y:?}"),
                &format!("fn f<#str S, #str T>() -> int<16> {{ gen if S == T {{ 1 }} else {{ 2 }} }}\nfn g<#str S>() -> int<16> {{ gen if S != {y:?} {{ 3 }} else {{ 4 }} }}\nfn h<#str A, #str B>() -> int<16> {{ f::<B, A>() }}\n"),
                &[(format!("f::<{x:?}, {y:?}>()"), if x == y { 1 } else { 2 }), (format!("g::<{x:?}>()"), if x != y { 3 } else { 4 }), (format!("h::<{x:?}, {y:?}>()"), if x == y { 1 } else { 2 })],
            ));
        }
    }
}

/// The depth of a pipeline given by an expression is its latency
fn latency(es: &[C], ps: &[(i64, i64)], out: &mut Vec<VCase>) {
    for e in es {
        for (n, m) in ps {
            if let R::Val(V::I(v @ 1..=5)) = e.ev(&[*n, *m]) {
                let s = e.show();
                let src = format!(
                    "pipeline({{{s}}}) f<#int N, #int M>(clk: clock, x: bool) -> bool {{ reg*{{{s}}}; !x }}\nentity top(clk: clock, x: bool) -> bool {{ inst({v}) f::<{n}, {m}>(clk, x) }}\n"
                );
                let d = v as usize;
                // a shift register whose content is unknown at first
                let c = Case::seq(format!("latency/{s}/{n},{m}"), src, &[("x", 1)], 1, vec![None; d], move |st, i| {
                    let mut nx = vec![Some(i[0])];
                    nx.extend(&st[..d - 1]);
                    let o = Exp::opt(st[d - 1].map(|x| 1 - x));
                    (o, nx)
                });
                out.push(VCase::case(c));
            }
        }
    }
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let th = ctx.thorough();
    let (d1, d2, conds) = exprs(th);
    let ps = params();
    let mut v = vec![];
    let all: Vec<C> = d1.iter().chain(&d2).cloned().collect();
    arguments(&all, &ps, "arg", |e| format!("fn f<#int N, #int M>() -> int<16> {{ val::<{{{}}}>() }}\n", e.show()), num, &mut v);
    let some: Vec<C> = if th { all.clone() } else { d1.iter().chain(d2.iter().step_by(9)).cloned().collect() };
    let few: Vec<(i64, i64)> = if th { ps.clone() } else { vec![(0, 2), (1, 2), (3, 1), (5, 2), (6, 3), (-1, -2), (8, 0)] };
    arguments(&some, &few, "arg-method", |e| format!("struct S<#int N> {{}}\nimpl<#int N> S<N> {{ fn f<#int M>(self) -> int<16> {{ val::<{{{}}}>() }} }}\nfn f<#int N, #int M>() -> int<16> {{ let s: S<N> = S(); s.f::<M>() }}\n", e.show()), num, &mut v);
    arguments(&some, &few, "arg-twice", |e| format!("fn g<#int M, #int N>() -> int<16> {{ val::<{{{}}}>() }}\nfn f<#int N, #int M>() -> int<16> {{ g::<{{M + 0}}, {{1 * N}}>() }}\n", e.show()), num, &mut v);
    arguments(&some, &few, "arg-lambda", |e| format!("fn f<#int N, #int M>() -> int<16> {{ let l = fn || val::<{{{}}}>(); l.call(()) }}\n", e.show()), num, &mut v);
    let wp: Vec<C> = if th { d1.iter().chain(d2.iter().step_by(6)).cloned().collect() } else { d1.iter().chain(d2.iter().step_by(60)).cloned().collect() };
    widths(&wp, &few, th, &mut v);
    wheres(&d1, &if th { ps.clone() } else { few.clone() }, th, &mut v);
    genifs(&conds, &if th { ps.clone() } else { few.clone() }, th, &mut v);
    latency(&d1, &few, &mut v);
    fits(th, &mut v);
    if let Ok(o) = std::env::var("MC_ONLY") {
        v.retain(|c| c.key.starts_with(o.as_str()));
    }
    ctx.count("const_expressions", all.len() as u64 + conds.len() as u64);
    run_verdicts(&ctx, &pool, &v, &RunOpt { batch: 120, ..RunOpt::std() });
    ctx.finish(
        "model_checking",
        "for every constant expression up to the depth, position and parameter value, the compiler's verdict and the value seen in the emitted Verilog are those of exact integer arithmetic",
        &["what `/` and `%` give for negative operands with a remainder is not documented and not judged"],
        true,
    )
}
