//! The operator vocabulary: each function builds an expression with its Spade spelling, its
//! result type and its arithmetic meaning.
use crate::lang::*;

pub fn w(t: &Ty) -> u32 {
    t.width()
}
pub fn is_i(t: &Ty) -> bool {
    matches!(t, Ty::I(_))
}
pub fn num_ty(signed: bool, n: u32) -> Ty {
    if signed { Ty::I(n) } else { Ty::U(n) }
}
/// wrap a mathematical integer into a type
pub fn wrap(t: &Ty, v: i128) -> Val {
    match t {
        Ty::I(n) => Val::N(wrap_i(v, *n)),
        Ty::U(n) => Val::N(wrap_u(v, *n)),
        _ => panic!(),
    }
}
fn bin(fmt: &str, ty: Ty, a: E, b: E, f: fn(i128, i128) -> i128) -> E {
    let t = ty.clone();
    op(fmt, ty, vec![a, b], move |v| wrap(&t, f(n(&v[0]), n(&v[1]))))
}
fn bin_s(sym: &str, ty: Ty, a: E, b: E, f: fn(i128, i128) -> i128) -> E {
    bin(&format!("{{0}} {sym} {{1}}"), ty, a, b, f)
}
pub fn add(a: E, b: E) -> E {
    let t = num_ty(is_i(&a.ty), w(&a.ty) + 1);
    bin_s("+", t, a, b, |x, y| x.wrapping_add(y))
}
pub fn sub(a: E, b: E) -> E {
    let t = num_ty(is_i(&a.ty), w(&a.ty) + 1);
    bin_s("-", t, a, b, |x, y| x.wrapping_sub(y))
}
pub fn mul(a: E, b: E) -> E {
    let t = num_ty(is_i(&a.ty), w(&a.ty) + w(&b.ty));
    bin_s("*", t, a, b, |x, y| x.wrapping_mul(y))
}
pub fn wadd(a: E, b: E) -> E {
    bin_s("+.", a.ty.clone(), a, b, |x, y| x.wrapping_add(y))
}
pub fn wsub(a: E, b: E) -> E {
    bin_s("-.", a.ty.clone(), a, b, |x, y| x.wrapping_sub(y))
}
pub fn wmul(a: E, b: E) -> E {
    bin_s("*.", a.ty.clone(), a, b, |x, y| x.wrapping_mul(y))
}
pub fn neg(a: E) -> E {
    let t = a.ty.clone();
    op("-{0}", a.ty.clone(), vec![a], move |v| wrap(&t, -n(&v[0])))
}
pub fn wneg(a: E) -> E {
    let t = a.ty.clone();
    op("-.{0}", a.ty.clone(), vec![a], move |v| wrap(&t, -n(&v[0])))
}
fn uval(t: &Ty, v: &Val) -> i128 {
    wrap_u(n(v), w(t))
}
fn shl_amt(x: i128, s: i128, width: u32) -> i128 {
    if s >= width as i128 { 0 } else { x << s }
}
pub fn shl_named(sym: &str, a: E, b: E) -> E {
    let t = a.ty.clone();
    op(&format!("{{0}} {sym} {{1}}"), a.ty.clone(), vec![a, b], move |v| {
        // the amount is read as an unsigned number
        wrap(&t, shl_amt(uval(&t, &v[0]), uval(&t, &v[1]), w(&t)))
    })
}
/// logical right shift
pub fn shr_named(sym: &str, a: E, b: E) -> E {
    let t = a.ty.clone();
    op(&format!("{{0}} {sym} {{1}}"), a.ty.clone(), vec![a, b], move |v| {
        let s = uval(&t, &v[1]);
        wrap(&t, if s >= w(&t) as i128 { 0 } else { uval(&t, &v[0]) >> s })
    })
}
pub fn ashr(a: E, b: E) -> E {
    let t = a.ty.clone();
    op("{0} >>> {1}", a.ty.clone(), vec![a, b], move |v| {
        // shifts in the sign bit of the operand's bit pattern
        let s = uval(&t, &v[1]).min(127);
        let x = wrap_i(n(&v[0]), w(&t));
        wrap(&t, x >> s)
    })
}
pub fn shl(a: E, b: E) -> E {
    shl_named("<<", a, b)
}
pub fn shr(a: E, b: E) -> E {
    shr_named(">>", a, b)
}
pub fn band(a: E, b: E) -> E {
    bin_s("&", a.ty.clone(), a, b, |x, y| x & y)
}
pub fn bor(a: E, b: E) -> E {
    bin_s("|", a.ty.clone(), a, b, |x, y| x | y)
}
pub fn bxor(a: E, b: E) -> E {
    bin_s("^", a.ty.clone(), a, b, |x, y| x ^ y)
}
pub fn bnot(a: E) -> E {
    let t = a.ty.clone();
    op("~{0}", a.ty.clone(), vec![a], move |v| wrap(&t, !n(&v[0])))
}
fn boolop(sym: &str, x: E, y: E, f: fn(bool, bool) -> bool) -> E {
    op(&format!("{{0}} {sym} {{1}}"), Ty::Bool, vec![x, y], move |v| Val::B(f(b(&v[0]), b(&v[1]))))
}
pub fn land(x: E, y: E) -> E {
    boolop("&&", x, y, |a, b| a && b)
}
pub fn lor(x: E, y: E) -> E {
    boolop("||", x, y, |a, b| a || b)
}
pub fn lxor(x: E, y: E) -> E {
    boolop("^^", x, y, |a, b| a != b)
}
pub fn lnot(x: E) -> E {
    op("!{0}", Ty::Bool, vec![x], |v| Val::B(!b(&v[0])))
}
pub fn cmp(sym: &str, x: E, y: E) -> E {
    let s = sym.to_string();
    op(&format!("{{0}} {sym} {{1}}"), Ty::Bool, vec![x, y], move |v| {
        if s == "==" {
            return Val::B(v[0] == v[1]);
        }
        if s == "!=" {
            return Val::B(v[0] != v[1]);
        }
        let (a, c) = (n(&v[0]), n(&v[1]));
        Val::B(match s.as_str() {
            "<" => a < c,
            ">" => a > c,
            "<=" => a <= c,
            ">=" => a >= c,
            _ => panic!(),
        })
    })
}
pub const CMPS: [&str; 6] = ["==", "!=", "<", ">", "<=", ">="];

/// division truncating towards zero (Verilog `/`); undefined for a zero divisor
pub fn div_fmt(fmt: &str, a: E, d: E) -> E {
    let t = a.ty.clone();
    op(fmt, a.ty.clone(), vec![a, d], move |v| {
        let y = n(&v[1]);
        if y == 0 { Val::Undef } else { wrap(&t, n(&v[0]) / y) }
    })
}
pub fn rem_fmt(fmt: &str, a: E, d: E) -> E {
    let t = a.ty.clone();
    op(fmt, a.ty.clone(), vec![a, d], move |v| {
        let y = n(&v[1]);
        if y == 0 { Val::Undef } else { wrap(&t, n(&v[0]) % y) }
    })
}
/// value-preserving or truncating conversion `f(x)` to type `t` (a reinterpretation when the
/// widths agree)
pub fn conv(fmt: &str, a: E, t: Ty) -> E {
    let t2 = t.clone();
    op(fmt, t, vec![a], move |v| wrap(&t2, n(&v[0])))
}
pub fn zext(a: E, to: u32) -> E {
    let k = w(&a.ty);
    conv(&format!("std::num::zext::<{k}, {to}>({{0}})"), a, Ty::U(to))
}
pub fn sext(a: E, to: u32) -> E {
    let k = w(&a.ty);
    conv(&format!("std::num::sext::<{k}, {to}>({{0}})"), a, Ty::I(to))
}
pub fn trunc(a: E, to: u32) -> E {
    let t = num_ty(is_i(&a.ty), to);
    conv(&format!("{{0}}.trunc::<{to}>()"), a, t)
}
pub fn ext(a: E, to: u32) -> E {
    if is_i(&a.ty) { sext(a, to) } else { zext(a, to) }
}
pub fn as_uint(a: E) -> E {
    let t = Ty::U(w(&a.ty));
    conv("{0}.as_uint()", a, t)
}
pub fn as_int(a: E) -> E {
    let t = Ty::I(w(&a.ty));
    conv("{0}.as_int()", a, t)
}
pub fn concat(a: E, c: E) -> E {
    let (wa, wc) = (w(&a.ty), w(&c.ty));
    let t = num_ty(is_i(&a.ty), wa + wc);
    let t2 = t.clone();
    op("{0}.concat({1})", t, vec![a, c], move |v| {
        wrap(&t2, (wrap_u(n(&v[0]), wa) << wc) | wrap_u(n(&v[1]), wc))
    })
}
