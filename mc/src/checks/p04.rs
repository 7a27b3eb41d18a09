//! P04: width and representation conversions keep the value.
use super::ops::num_ty;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;
use std::sync::Arc;

type F = Arc<dyn Fn(u128) -> u128 + Send + Sync>;
#[derive(Clone)]
struct Conv {
    name: String,
    /// `{}` is the operand, parenthesised where needed
    fmt: String,
    from: Ty,
    to: Ty,
    f: F,
}
fn bits(n: u32) -> Ty {
    Ty::Arr(Box::new(Ty::Bool), n as usize)
}
fn sx(v: u128, n: u32, m: u32) -> u128 {
    if n == 0 {
        return 0;
    }
    let s = v >> (n - 1) & 1;
    if s == 1 { (v | !ones(n)) & ones(m) } else { v }
}
fn gray(v: u128) -> u128 {
    v ^ (v >> 1)
}
fn ungray(v: u128) -> u128 {
    let mut r = 0;
    let mut x = v;
    while x > 0 {
        r ^= x;
        x >>= 1;
    }
    r
}
fn rev_bytes(v: u128, n: u32) -> u128 {
    let k = n / 8;
    (0..k).map(|i| (v >> (8 * i) & 255) << (8 * (k - 1 - i))).fold(0, |a, b| a | b)
}
fn spread(v: u128, n: u32) -> u128 {
    (0..n).map(|i| (v >> i & 1) << (2 * i)).fold(0, |a, b| a | b)
}
/// German: all bytes but the last two big endian, the last two swapped
fn german(v: u128, n: u32) -> u128 {
    let k = n / 8;
    if n <= 16 {
        return v;
    }
    let be = rev_bytes(v, n); // element i in bits 8i
    let e = |i: u32| be >> (8 * i) & 255;
    (0..k)
        .map(|i| {
            let s = if i == k - 2 {
                k - 1
            } else if i == k - 1 {
                k - 2
            } else {
                i
            };
            e(s) << (8 * i)
        })
        .fold(0, |a, b| a | b)
}

fn convs(from: &[u32], to: &[u32], bytes: bool) -> Vec<Conv> {
    let mut v: Vec<Conv> = vec![];
    let mut add = |name: &str, fmt: &str, from: Ty, to: Ty, f: F| {
        let fmt = fmt.replace("{T}", &to.show()).replace("{F}", &from.show());
        v.push(Conv { name: name.into(), fmt, from, to, f })
    };
    for &n in from {
        let (u, i, b) = (num_ty(false, n), num_ty(true, n), bits(n));
        let id: F = Arc::new(|x| x);
        for &m in to {
            let (um, im) = (num_ty(false, m), num_ty(true, m));
            if m >= n {
                add("zext", "zext({})", u.clone(), um.clone(), id.clone());
                add("zext_g", &format!("std::conv::zext::<{n}, {m}>({{}})"), u.clone(), um.clone(), id.clone());
                let f: F = Arc::new(move |x| sx(x, n, m));
                add("sext", "sext({})", i.clone(), im.clone(), f.clone());
                add("sext_g", &format!("std::num::sext::<{n}, {m}>({{}})"), i.clone(), im.clone(), f);
            }
            if m <= n {
                let f: F = Arc::new(move |x| x & ones(m));
                add("trunc", "trunc({})", u.clone(), um.clone(), f.clone());
                add("trunc", "trunc({})", i.clone(), im.clone(), f.clone());
                add("trunc_m", "({}).trunc()", u.clone(), um.clone(), f.clone());
                add("trunc_m", &format!("({{}}).trunc::<{m}>()"), i.clone(), im.clone(), f.clone());
            }
        }
        add("as_int", "({}).as_int()", u.clone(), i.clone(), id.clone());
        add("as_uint", "({}).as_uint()", i.clone(), u.clone(), id.clone());
        add("to_int", "({}).to_int()", u.clone(), num_ty(true, n + 1), id.clone());
        add("uint_to_int", "std::conv::uint_to_int({})", u.clone(), i.clone(), id.clone());
        add("int_to_uint", "std::conv::int_to_uint({})", i.clone(), u.clone(), id.clone());
        add("transmute", "unsafe { std::conv::transmute({}) }", u.clone(), i.clone(), id.clone());
        if n > 0 {
            add("as_bits", "({}).as_bits()", i.clone(), b.clone(), id.clone());
            add("as_bits", "({}).as_bits()", u.clone(), b.clone(), id.clone());
            add("b_as_int", "({}).as_int()", b.clone(), i.clone(), id.clone());
            add("b_as_uint", "({}).as_uint()", b.clone(), u.clone(), id.clone());
            add("to_bits", "({}).to_bits()", i.clone(), b.clone(), id.clone());
            add("to_bits", "({}).to_bits()", u.clone(), b.clone(), id.clone());
            add("b_to_int", "({}).to_int()", b.clone(), i.clone(), id.clone());
            add("b_to_uint", "({}).to_uint()", b.clone(), u.clone(), id.clone());
            for (f, s, d) in
                [("int_to_bits", &i, &b), ("bits_to_int", &b, &i), ("uint_to_bits", &u, &b), ("bits_to_uint", &b, &u)]
            {
                add(f, &format!("std::conv::{f}({{}})"), s.clone(), d.clone(), id.clone());
            }
            add("transmute", "unsafe { std::conv::transmute({}) }", b.clone(), i.clone(), id.clone());
            let r: F = Arc::new(move |x| (0..n).map(|k| (x >> k & 1) << (n - 1 - k)).fold(0, |a, b| a | b));
            add("flip_array", "std::conv::flip_array({})", b.clone(), b.clone(), r.clone());
            add("reversed", "({}).reversed()", b.clone(), b.clone(), r.clone());
            add("to_gray", "({}).to_gray().as_bits()", u.clone(), b.clone(), Arc::new(gray));
            add("bin_to_gray", "std::ops::bin_to_gray({})", u.clone(), u.clone(), Arc::new(gray));
            add("gray_to_bin", "std::ops::gray_to_bin({})", u.clone(), u.clone(), Arc::new(ungray));
            add("gray_rt", "({}).to_gray().to_uint()", u.clone(), u.clone(), id.clone());
            add("msb", "({}).msb()", u.clone(), Ty::Bool, Arc::new(move |x| x >> (n - 1)));
            add("msb", "({}).msb()", i.clone(), Ty::Bool, Arc::new(move |x| x >> (n - 1)));
            add("sign_bit", "({}).sign_bit()", i.clone(), Ty::Bool, Arc::new(move |x| x >> (n - 1)));
            add("lsb", "({}).lsb()", u.clone(), Ty::Bool, Arc::new(move |x| x & 1));
            add("lsb", "({}).lsb()", i.clone(), Ty::Bool, Arc::new(move |x| x & 1));
        }
        if n == 1 {
            add("bool_as_uint", "({}).as_uint()", Ty::Bool, u.clone(), id.clone());
            add("bool_to_uint", "({}).to_uint()", Ty::Bool, u.clone(), id.clone());
            add("transmute", "unsafe { std::conv::transmute({}) }", Ty::Bool, u.clone(), id.clone());
            add("transmute", "unsafe { std::conv::transmute({}) }", b.clone(), Ty::Bool, id.clone());
        }
        if bytes && n % 8 == 0 && n > 0 {
            let by = Ty::Arr(Box::new(Ty::U(8)), (n / 8) as usize);
            add("to_le_bytes", "({}).to_le_bytes()", u.clone(), by.clone(), id.clone());
            add("to_be_bytes", "({}).to_be_bytes()", u.clone(), by.clone(), Arc::new(move |x| rev_bytes(x, n)));
            add("to_german_endian_bytes", "({}).to_german_endian_bytes()", u.clone(), by.clone(), Arc::new(move |x| german(x, n)));
            add("transmute", "unsafe { std::conv::transmute({}) }", by.clone(), u.clone(), id.clone());
        }
        // compound values reinterpreted: first part on top, element 0 at the bottom
        for m in [1, 2] {
            let t = Ty::Tup(vec![u.clone(), num_ty(true, m)]);
            add("transmute", "unsafe { std::conv::transmute({}) }", t.clone(), num_ty(false, n + m), id.clone());
            add("transmute", "unsafe { std::conv::transmute({}) }", num_ty(false, n + m), t.clone(), id.clone());
            if n > 0 {
                let a = Ty::Arr(Box::new(u.clone()), m as usize);
                add("transmute", "unsafe { std::conv::transmute({}) }", a.clone(), num_ty(true, n * m), id.clone());
            }
        }
    }
    v
}

fn stim(w: u32) -> Stim {
    Stim::Sets(vec![if w <= 10 {
        all(w)
    } else {
        let mut c = corner(w);
        c.extend((0..w).map(|k| 1u128 << k));
        c.extend((0..w).map(|k| ones(w) ^ (1u128 << k)));
        c
    }])
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let mut vc: Vec<VCase> = vec![];
    let mx = ctx.pick(6u32, 9);
    let small: Vec<u32> = (0..=mx).collect();
    let mut from = small.clone();
    from.extend([16, 24, 31, 32, 33, 64]);
    let mut to = small.clone();
    to.extend([16, 31, 32, 33, 64, 65, 100]);
    for c in convs(&from, &to, true) {
        let (fw, tw) = (c.from.width(), c.to.width());
        let src = format!("use std::num::{{zext, sext, trunc}}; fn top(a: {}) -> {} {{ {} }}", c.from.show(), c.to.show(), c.fmt.replace("{}", "a"));
        let f = c.f.clone();
        vc.push(VCase::case(
            Case::comb(format!("{}/{}->{}", c.name, c.from.show(), c.to.show()), src, &[("a", fw)], tw, move |i| Some(f(i[0])))
                .with_stim(stim(fw)),
        ));
    }
    // compositions of two (three thorough) conversions through every intermediate type
    let cw: Vec<u32> = ctx.pick(vec![0, 1, 2, 3], vec![0, 1, 2, 3, 4, 8]);
    let base = convs(&cw, &cw, false);
    for a in &base {
        for b in &base {
            if a.to != b.from || a.name == "transmute" && b.name == "transmute" && a.from.width() > 4 {
                continue;
            }
            let (fw, tw) = (a.from.width(), b.to.width());
            let inner = a.fmt.replace("{}", "a");
            let src = format!(
                "use std::num::{{zext, sext, trunc}}; fn top(a: {}) -> {} {{ let x: {} = {inner}; {} }}",
                a.from.show(),
                b.to.show(),
                a.to.show(),
                b.fmt.replace("{}", "x")
            );
            let (f, g) = (a.f.clone(), b.f.clone());
            vc.push(VCase::case(
                Case::comb(
                    format!("compose/{}.{}/{}->{}->{}", a.name, b.name, a.from.show(), a.to.show(), b.to.show()),
                    src,
                    &[("a", fw)],
                    tw,
                    move |i| Some(g(f(i[0]))),
                )
                .with_stim(stim(fw)),
            ));
        }
    }
    // operands that are themselves expressions of context-dependent width in Verilog
    for n in 1..=ctx.pick(4u32, 6) {
        for s in [false, true] {
            let t = num_ty(s, n);
            let ts = t.show();
            let dec = move |x: u128| -> i128 { if s { wrap_i(x as i128, n) } else { x as i128 } };
            let ex: Vec<(&str, String, u32, Arc<dyn Fn(i128, i128) -> i128 + Send + Sync>)> = vec![
                ("add", "a + b".into(), n + 1, Arc::new(|a, b| a + b)),
                ("sub", "a - b".into(), n + 1, Arc::new(|a, b| a - b)),
                ("mul", "a * b".into(), 2 * n, Arc::new(|a, b| a * b)),
                ("wadd", "a +. b".into(), n, Arc::new(|a, b| a + b)),
                ("wsub", "a -. b".into(), n, Arc::new(|a, b| a - b)),
                ("not", "~a".into(), n, Arc::new(|a, _| !a)),
                ("shr", "a >>> b".into(), n, Arc::new(move |a, b| { let k = (b as u128 & ones(n)).min(20) as u32; if s { a >> k } else if n > 0 && a >> (n - 1) & 1 == 1 { (a | !(ones(n) as i128)) >> k } else { a >> k } })),
                ("mux", "(if a > b {a} else {b})".into(), n, Arc::new(|a, b| a.max(b))),
            ];
            for (k, e, ew, f) in ex {
                for m in 0..=ctx.pick(10u32, 14) {
                    let res = num_ty(s, m);
                    let rs = res.show();
                    let fname = if m > ew {
                        if s { "sext" } else { "zext" }
                    } else {
                        "trunc"
                    };
                    let f = f.clone();
                    let model = move |i: &[u128]| -> Option<u128> {
                        let v = f(dec(i[0]), dec(i[1])) as u128 & ones(ew);
                        Some(if m > ew { if s { sx(v, ew, m) } else { v } } else { v & ones(m) })
                    };
                    vc.push(VCase::case(Case::comb(
                        format!("of_expr/{fname}.{k}/{ts}->{rs}"),
                        format!("use std::num::{{zext, sext, trunc}}; fn top(a: {ts}, b: {ts}) -> {rs} {{ {fname}({e}) }}"),
                        &[("a", n), ("b", n)],
                        m,
                        model.clone(),
                    )));
                    // ... and below an operator that extends its operands
                    if m > 0 {
                        vc.push(VCase::case(Case::comb(
                            format!("under_add/{fname}.{k}/{ts}->{rs}"),
                            format!("use std::num::{{zext, sext, trunc}}; fn top(a: {ts}, b: {ts}) -> {} {{ let x: {rs} = {fname}({e}); x + x }}", num_ty(s, m + 1).show()),
                            &[("a", n), ("b", n)],
                            m + 1,
                            move |i| {
                                let v = model(i).unwrap();
                                let v = if s { wrap_i(v as i128, m) } else { v as i128 };
                                Some((v + v) as u128 & ones(m + 1))
                            },
                        )));
                    }
                }
            }
        }
    }
    // concat and interleave
    let cm = ctx.pick(4u32, 6);
    let mut pairs: Vec<(u32, u32)> = (0..=cm).flat_map(|a| (0..=cm).map(move |b| (a, b))).collect();
    pairs.extend([(16, 16), (31, 1), (1, 31), (32, 32), (33, 31), (64, 1), (1, 64), (40, 60)]);
    for &(n, m) in &pairs {
        for s in [false, true] {
            let (a, b, r) = (num_ty(s, n).show(), num_ty(s, m).show(), num_ty(s, n + m).show());
            let st = || Stim::Sets(vec![some(n, 6), some(m, 6)]);
            for (k, e) in [("fn", "std::num::concat(a, b)"), ("conv", "std::conv::concat(a, b)"), ("method", "a.concat(b)")] {
                let src = format!("fn top(a: {a}, b: {b}) -> {r} {{ {e} }}");
                vc.push(VCase::case(
                    Case::comb(format!("concat/{k}/{a},{b}"), src, &[("a", n), ("b", m)], n + m, move |i| Some(i[0] << m | i[1]))
                        .with_stim(st()),
                ));
            }
            let e3 = format!("fn top(a: {a}, b: {b}) -> {} {{ a.concat(b).concat(a) }}", num_ty(s, 2 * n + m).show());
            vc.push(VCase::case(
                Case::comb(format!("concat3/{a},{b}"), e3, &[("a", n), ("b", m)], 2 * n + m, move |i| {
                    Some(i[0] << (m + n) | i[1] << n | i[0])
                })
                .with_stim(Stim::Sets(vec![some(n, 4), some(m, 4)])),
            ));
            // wrong widths and mixed signs
            if n + m <= 12 {
                for d in [n + m + 1, (n + m).wrapping_sub(1)] {
                    if d > 40 {
                        continue;
                    }
                    let r = num_ty(s, d).show();
                    vc.push(VCase::reject(format!("concat_width/{a},{b}->{r}"), format!("fn top(a: {a}, b: {b}) -> {r} {{ std::num::concat(a, b) }}")));
                    vc.push(VCase::reject(format!("concat_width_m/{a},{b}->{r}"), format!("fn top(a: {a}, b: {b}) -> {r} {{ a.concat(b) }}")));
                }
                let o = num_ty(!s, m).show();
                let ro = num_ty(!s, n + m).show();
                for (x, y) in [(&o, &r), (&b, &ro), (&o, &ro)] {
                    vc.push(VCase::reject(format!("concat_sign/{a},{x}->{y}"), format!("fn top(a: {a}, b: {x}) -> {y} {{ std::num::concat(a, b) }}")));
                }
            }
        }
        if n > 0 && m > 0 {
            let src = format!("fn top(a: [bool; {n}], b: [bool; {m}]) -> [bool; {}] {{ std::conv::concat_arrays(a, b) }}", n + m);
            vc.push(VCase::case(
                Case::comb(format!("concat_arrays/{n},{m}"), src, &[("a", n), ("b", m)], n + m, move |i| Some(i[1] << n | i[0]))
                    .with_stim(Stim::Sets(vec![some(n, 6), some(m, 6)])),
            ));
        }
        if n == m && n > 0 {
            for e in ["a.interleave(b)", "std::ops::interleave(a, b)"] {
                let src = format!("fn top(a: uint<{n}>, b: uint<{n}>) -> uint<{}> {{ {e} }}", 2 * n);
                vc.push(VCase::case(
                    Case::comb(format!("interleave/{n}/{e}"), src, &[("a", n), ("b", n)], 2 * n, move |i| Some(spread(i[0], n) | spread(i[1], n) << 1))
                        .with_stim(Stim::Sets(vec![some(n, 6), some(n, 6)])),
                ));
            }
        }
    }
    // conversions that would not keep the value, or do not exist, are rejected
    for n in 0..=mx {
        for m in 0..=mx {
            let (un, im) = (format!("uint<{n}>"), format!("int<{m}>"));
            let (um, inn) = (format!("uint<{m}>"), format!("int<{n}>"));
            let mut rej = |k: &str, f: &str, t: &str, e: &str| {
                vc.push(VCase::reject(format!("reject/{k}/{f}->{t}"), format!("use std::num::{{zext, sext, trunc}}; fn top(a: {f}) -> {t} {{ {e} }}")))
            };
            if m < n {
                rej("zext", &un, &um, "zext(a)");
                rej("sext", &inn, &im, "sext(a)");
            }
            if m > n {
                rej("trunc", &un, &um, "trunc(a)");
                rej("trunc", &inn, &im, "trunc(a)");
                rej("trunc_m", &un, &um, "a.trunc()");
                rej("trunc_m", &inn, &im, "a.trunc()");
            }
            for (f, t) in [(&un, &im), (&inn, &um)] {
                rej("trunc_sign", f, t, "trunc(a)");
                rej("zext_sign", f, t, "zext(a)");
                rej("sext_sign", f, t, "sext(a)");
                if n != m {
                    rej("as_int", f, t, if f.starts_with('u') { "a.as_int()" } else { "a.as_uint()" });
                    rej("transmute", f, t, "unsafe { std::conv::transmute(a) }");
                } else {
                    rej("transmute_safe", f, t, "std::conv::transmute(a)");
                }
                rej("implicit", f, t, "a");
            }
            if n != m {
                rej("implicit", &un, &um, "a");
                rej("implicit", &inn, &im, "a");
                rej("as_bits", &un, &format!("[bool; {m}]"), "a.as_bits()");
            }
            if m != n + 1 {
                rej("to_int", &un, &im, "a.to_int()");
            }
            if n % 8 != 0 {
                for f in ["to_le_bytes", "to_be_bytes", "to_german_endian_bytes"] {
                    rej(f, &un, &format!("[uint<8>; {}]", n / 8 + (m > 3) as u32), &format!("a.{f}()"));
                }
            }
        }
    }
    run_verdicts(&ctx, &pool, &vc, &RunOpt { batch: 150, ..RunOpt::std() });
    ctx.finish(
        "model_checking",
        "every conversion of the standard library at every pair of source and target widths up to the bound (and \
         wide ones) on every value, alone, composed with every other conversion, applied to operator results, \
         and below operators; conversions that cannot keep the value must be rejected.",
        &["the Verilog subset is executed by this framework's own four-state simulator"],
        true,
    )
}
