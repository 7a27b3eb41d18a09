//! P03: literals denote the number written, or are rejected.
use super::ops::*;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;
use num::{BigInt, BigUint, Signed, Zero};

fn fits(t: &Ty, v: &BigInt) -> bool {
    let w = t.width();
    if w == 0 {
        return v.is_zero();
    }
    let (lo, hi) = match t {
        Ty::I(_) => (-(BigInt::from(1) << (w - 1)), (BigInt::from(1) << (w - 1)) - 1),
        _ => (BigInt::from(0), (BigInt::from(1) << w) - 1),
    };
    *v >= lo && *v <= hi
}

fn group(s: &str) -> String {
    // an underscore after every digit, and two after the first
    let mut r = String::new();
    for (i, c) in s.chars().enumerate() {
        r.push(c);
        r.push('_');
        if i == 0 {
            r.push('_');
        }
    }
    r
}

/// all spellings of a number (without sign)
fn spellings(v: &BigUint) -> Vec<(&'static str, String)> {
    let h = format!("{v:x}");
    vec![
        ("dec", format!("{v}")),
        ("hex", format!("0x{h}")),
        ("HEX", format!("0x{}", h.to_uppercase())),
        ("oct", format!("0o{v:o}")),
        ("bin", format!("0b{v:b}")),
        ("dec_", group(&v.to_string())),
        ("hex_", format!("0x{}", group(&h))),
        ("oct_", format!("0o{}", group(&format!("{v:o}")))),
        ("bin_", format!("0b{}", group(&format!("{v:b}")))),
        ("dec0", format!("00{v}")),
        ("hex0", format!("0x00{h}")),
        ("bin0", format!("0b0{v:b}")),
    ]
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let mut vc: Vec<VCase> = vec![];
    let maxw = ctx.pick(5, 8);
    let enc = |t: &Ty, v: &BigInt| -> Option<u128> {
        use num::ToPrimitive;
        let m = BigInt::from(1) << t.width();
        let x = ((v % &m) + &m) % &m;
        x.to_u128()
    };
    let mut widths: Vec<u32> = (0..=maxw).collect();
    widths.extend([16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130]);
    for s in [false, true] {
        for &w in &widths {
            let t = num_ty(s, w);
            let ts = t.show();
            let mut vals: Vec<BigInt> = vec![];
            if w <= 5 {
                let k = 1i32 << w;
                vals.extend((-k - 1..=k + 1).map(BigInt::from));
            } else {
                let top = BigInt::from(1) << w;
                let half = BigInt::from(1) << (w - 1);
                for d in -1..=1 {
                    vals.push(&top + d);
                    vals.push(&half + d);
                    vals.push(-&half + d);
                    vals.push(-&top + d);
                    vals.push(BigInt::from(d));
                }
                let pat: BigInt = "0x0123456789ABCDEF0123456789ABCDEF"[2..]
                    .chars()
                    .fold(BigInt::from(0), |a, c| a * 16 + c.to_digit(16).unwrap());
                vals.push(&pat % (&half));
                vals.push(-(&pat % (&half)));
                // the widest power of ten below the limit
                let mut p10 = BigInt::from(1);
                while &p10 * 10 < half {
                    p10 *= 10;
                }
                vals.push(p10);
            }
            for v in vals {
                let mag = v.abs().to_biguint().unwrap();
                let neg = v.is_negative();
                let ok = fits(&t, &v);
                for (sp, text) in spellings(&mag) {
                    let plain = sp == "dec" || sp == "hex" || sp == "bin";
                    let mut sfx: Vec<String> = vec!["".into()];
                    let c = if s { "i" } else { "u" };
                    if !(neg && !s) {
                        sfx.push(format!("{c}{w}"));
                        if plain {
                            sfx.push(format!("_{c}{w}").replace('_', if sp == "dec" { "_" } else { "" }));
                            sfx.push(c.into());
                            sfx.push(format!("{}{w}", c.to_uppercase()));
                        }
                    }
                    sfx.dedup();
                    for sx in sfx {
                        let l = format!("{}{text}{sx}", if neg { "-" } else { "" });
                        let key = format!("{ts}/{v}/{l}");
                        let mut push = |pos: &str, src: String, ins: &[(&str, u32)], f: Option<Case>| {
                            let _ = ins;
                            match f {
                                Some(c) if ok => vc.push(VCase { key: format!("{pos}/{key}"), src, accept: true, case: Some(c) }),
                                _ => vc.push(VCase::verdict(format!("{pos}/{key}"), src, ok)),
                            }
                        };
                        let e = enc(&t, &v);
                        let src = format!("fn top() -> {ts} {{ {l} }}");
                        let c = e.filter(|_| w <= 128 && ok).map(|x| Case::comb(format!("expr/{key}"), src.clone(), &[], w, move |_| Some(x)));
                        push("expr", src, &[], c);
                        if sp.ends_with('_') || sp.ends_with('0') || sx.len() > 1 && !plain {
                            continue;
                        }
                        // the other positions
                        let corner: Vec<u128> = if w <= 5 { all(w) } else { let mut c = crate::hw::corner(w.min(128)); c.extend(e.filter(|_| ok)); c };
                        if w >= 1 && w <= 128 {
                            let mk = |pos: &str, src: &str, x: u128| {
                                Case::comb(format!("{pos}/{key}"), src, &[("a", w)], 1, move |i| Some((i[0] == x) as u128))
                                    .with_stim(Stim::Sets(vec![corner.clone()]))
                            };
                            let src = format!("fn top(a: {ts}) -> bool {{ match a {{ {l} => true, _ => false }} }}");
                            let c = e.filter(|_| ok).map(|x| mk("pattern", &src, x));
                            push("pattern", src, &[], c);
                            let src = format!("fn top(a: {ts}) -> bool {{ a == {l} }}");
                            let c = e.filter(|_| ok).map(|x| mk("operand", &src, x));
                            push("operand", src, &[], c);
                            let src = format!("fn top(a: {ts}) -> bool {{ {l} == a }}");
                            // (a bare `5i == a` would need the width of the receiver before it is known)
                            if sx.len() != 1 {
                                let c = e.filter(|_| ok).map(|x| mk("operand_l", &src, x));
                                push("operand_l", src, &[], c);
                            }
                            if sx.is_empty() && (w <= maxw || w % 32 < 2) {
                                let src = format!("fn top(a: {ts}) -> bool {{ match (true, a) {{ (true, {l}) => true, _ => false }} }}");
                                let c = e.filter(|_| ok).map(|x| mk("pattern2", &src, x));
                                push("pattern2", src, &[], c);
                                let src = format!("fn top() -> {ts} {{ let x: {ts} = {l}; x }}");
                                let c = e.filter(|_| ok).map(|x| Case::comb(format!("let/{key}"), src.clone(), &[], w, move |_| Some(x)));
                                push("let", src, &[], c);
                                let src = format!("fn f(x: {ts}) -> {ts} {{ x }} fn top() -> {ts} {{ f({l}) }}");
                                let c = e.filter(|_| ok).map(|x| Case::comb(format!("arg/{key}"), src.clone(), &[], w, move |_| Some(x)));
                                push("arg", src, &[], c);
                                if w <= 64 {
                                    let src = format!("fn top() -> ({ts}, [{ts}; 1]) {{ ({l}, [{l}]) }}");
                                    let c = e.filter(|_| ok).map(|x| Case::comb(format!("parts/{key}"), src.clone(), &[], 2 * w, move |_| Some(x << w | x)));
                                    push("parts", src, &[], c);
                                    let src = format!("fn top(b: bool) -> {ts} {{ if b {{ {l} }} else {{ 0 }} }}");
                                    let c = e.filter(|_| ok).map(|x| Case::comb(format!("branch/{key}"), src.clone(), &[("b", 1)], w, move |i| Some(if i[0] == 1 { x } else { 0 })));
                                    push("branch", src, &[], c);
                                }
                                let src = format!("entity top(clk: clock, rst: bool) -> {ts} {{ reg(clk) r: {ts} reset(rst: {l}) = r; r }}");
                                let c = e.filter(|_| ok).map(|x| {
                                    Case::seq(format!("reset/{key}"), src.clone(), &[("rst", 1)], w, vec![None], move |s, i| {
                                        (Exp::opt(s[0]), vec![if i[0] == 1 { Some(x) } else { s[0] }])
                                    })
                                });
                                push("reset", src, &[], c);
                                let src = format!("entity top(clk: clock) -> {ts} {{ reg(clk) r: {ts} initial({l}) = r; r }}");
                                let c = e.filter(|_| ok).map(|x| {
                                    Case::seq(format!("initial/{key}"), src.clone(), &[], w, vec![Some(x)], move |s, _| (Exp::opt(s[0]), s.clone()))
                                });
                                push("initial", src, &[], c);
                            }
                        }
                    }
                }
            }
        }
        // a suffix that contradicts the type
        for w in 1..=maxw {
            let t = num_ty(s, w);
            let c = if s { "i" } else { "u" };
            let o = if s { "u" } else { "i" };
            for l in [format!("0{c}{}", w + 1), format!("0{c}{}", w - 1), format!("0{o}{w}"), format!("0{o}"), "true".into()] {
                let ts = t.show();
                vc.push(VCase::reject(format!("suffix_expr/{ts}/{l}"), format!("fn top() -> {ts} {{ {l} }}")));
                vc.push(VCase::reject(format!("suffix_operand/{ts}/{l}"), format!("fn top(a: {ts}) -> bool {{ a == {l} }}")));
                vc.push(VCase::reject(
                    format!("suffix_pattern/{ts}/{l}"),
                    format!("fn top(a: {ts}) -> bool {{ match a {{ {l} => true, _ => false }} }}"),
                ));
            }
        }
    }
    // positions that take compile-time numbers
    for n in 0..=ctx.pick(18u32, 40) {
        for (sp, l) in spellings(&BigUint::from(n)) {
            let src = format!("fn top(a: uint<{l}>) -> uint<{l}> {{ a }}");
            vc.push(VCase::case(Case::comb(format!("type_width/{sp}/{n}"), src, &[("a", n)], n, |i| Some(i[0]))));
            if n > 0 {
                let src = format!("fn top(a: [bool; {l}]) -> [bool; {n}] {{ a }}");
                vc.push(VCase::case(Case::comb(format!("array_len/{sp}/{n}"), src, &[("a", n)], n, |i| Some(i[0]))));
                let src = format!("fn top() -> [bool; {n}] {{ [true; {l}] }}");
                vc.push(VCase::case(Case::comb(format!("repeat/{sp}/{n}"), src, &[], n, move |_| Some(ones(n)))));
                let src = format!("fn top(a: uint<1>) -> uint<{n}> {{ std::num::zext::<1, {l}>(a) }}");
                vc.push(VCase::case(Case::comb(format!("generic_arg/{sp}/{n}"), src, &[("a", 1)], n, |i| Some(i[0]))));
                let src = format!("fn f<#uint N>(a: uint<N>) -> uint<8> {{ N }} fn top() -> uint<8> {{ f::<{l}>(0) }}");
                vc.push(VCase::case(Case::comb(format!("const_value/{sp}/{n}"), src, &[], 8, move |_| Some(n as u128))));
                let src = format!("fn top(a: [bool; 40]) -> bool {{ a[{}] }}", l);
                if n < 40 {
                    vc.push(VCase::case(
                        Case::comb(format!("index/{sp}/{n}"), src, &[("a", 40)], 1, move |i| Some(i[0] >> n & 1))
                            .with_stim(Stim::Sets(vec![corner(40).into_iter().chain([1u128 << n]).collect()])),
                    ));
                }
                let src = format!("fn top(a: [bool; 41]) -> [bool; {}] {{ a[{l}..41] }}", 41 - n);
                vc.push(VCase::case(
                    Case::comb(format!("range/{sp}/{n}"), src, &[("a", 41)], 41 - n, move |i| Some(i[0] >> n))
                        .with_stim(Stim::Sets(vec![corner(41).into_iter().chain([1u128 << n]).collect()])),
                ));
            }
        }
    }
    // bool, byte and byte string literals
    for (l, v) in [("true", 1u128), ("false", 0)] {
        vc.push(VCase::case(Case::comb(format!("bool/{l}"), format!("fn top() -> bool {{ {l} }}"), &[], 1, move |_| Some(v))));
    }
    for c in 32u8..127 {
        let ch = c as char;
        if ch == '\\' || ch == '\'' {
            continue;
        }
        let src = format!("fn top() -> uint<8> {{ b'{ch}' }}");
        vc.push(VCase::case(Case::comb(format!("byte/{c}"), src, &[], 8, move |_| Some(c as u128))));
        if ch != '"' {
            let src = format!("fn top() -> [uint<8>; 3] {{ b\"{ch}x{ch}\" }}");
            let v = c as u128 | (b'x' as u128) << 8 | (c as u128) << 16;
            vc.push(VCase::case(Case::comb(format!("bytes/{c}"), src, &[], 24, move |_| Some(v))));
        }
    }
    for (l, c) in [("\\0", 0u8), ("\\t", 9), ("\\n", 10), ("\\r", 13)] {
        let src = format!("fn top() -> uint<8> {{ b'{l}' }}");
        vc.push(VCase::case(Case::comb(format!("byte_esc/{c}"), src, &[], 8, move |_| Some(c as u128))));
        let src = format!("fn top() -> [uint<8>; 3] {{ b\"a{l}b\" }}");
        let v = b'a' as u128 | (c as u128) << 8 | (b'b' as u128) << 16;
        vc.push(VCase::case(Case::comb(format!("bytes_esc/{c}"), src, &[], 24, move |_| Some(v))));
    }
    for (n, l) in [("quote", "b'\\''"), ("bytes_quote", "b\"\\\"\"[0]")] {
        let v = if n == "quote" { 39u128 } else { 34 };
        let src = format!("fn top() -> uint<8> {{ {l} }}");
        vc.push(VCase::case(Case::comb(format!("byte_esc/{n}"), src, &[], 8, move |_| Some(v))));
    }
    for bad in ["b'ab'", "b'å'", "'a'", "b\"å\"", "\"a\"", "b'\\q'", "b\"\\q\""] {
        vc.push(VCase::reject(format!("byte_bad/{bad}"), format!("fn top() -> uint<8> {{ {bad} }}")));
    }
    run_verdicts(&ctx, &pool, &vc, &RunOpt { batch: 150, ..RunOpt::std() });
    ctx.finish(
        "model_checking",
        "every literal spelling (decimal, hexadecimal, octal, binary; case, underscores, leading zeros, suffixes, \
         sign) of every value around the representable range of every width, in every position a literal may \
         stand; the model decides acceptance and the value, the circuit is explored on all inputs.",
        &["the Verilog subset is executed by this framework's own four-state simulator"],
        true,
    )
}
