//! A small reference semantics of Spade's value level: types with their bit layout, values with
//! undefined parts, expressions, patterns, statements, registers. Expressions print as Spade
//! source and evaluate in the model; the two are independent of the compiler.
use crate::hw::Exp;
use std::sync::Arc;

#[derive(Debug, PartialEq, Eq, Hash)]
pub struct EnumDef {
    /// how the type is written
    pub ty: String,
    /// prefix of variant paths, e.g. "E::" or "" for Option
    pub prefix: String,
    pub variants: Vec<(String, Vec<(String, Ty)>)>,
}
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct StructDef {
    pub name: String,
    pub fields: Vec<(String, Ty)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool,
    U(u32),
    I(u32),
    Tup(Vec<Ty>),
    Arr(Box<Ty>, usize),
    Enum(Arc<EnumDef>),
    Struct(Arc<StructDef>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Undef,
    B(bool),
    N(i128),
    T(Vec<Val>),
    E(usize, Vec<Val>),
}

pub fn ones(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

pub fn clog2(n: usize) -> u32 {
    let mut b = 0;
    while (1usize << b) < n {
        b += 1;
    }
    b
}

pub fn wrap_u(v: i128, w: u32) -> i128 {
    if w == 0 { 0 } else { v & ones(w) as i128 }
}
pub fn wrap_i(v: i128, w: u32) -> i128 {
    if w == 0 {
        return 0;
    }
    let m = wrap_u(v, w);
    if w < 127 && m >> (w - 1) & 1 == 1 { m - (1i128 << w) } else { m }
}

impl Ty {
    pub fn show(&self) -> String {
        match self {
            Ty::Bool => "bool".into(),
            Ty::U(n) => format!("uint<{n}>"),
            Ty::I(n) => format!("int<{n}>"),
            Ty::Tup(v) => format!("({})", v.iter().map(|t| t.show()).collect::<Vec<_>>().join(", ")),
            Ty::Arr(t, n) => format!("[{}; {n}]", t.show()),
            Ty::Enum(d) => d.ty.clone(),
            Ty::Struct(d) => d.name.clone(),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Bool => 1,
            Ty::U(n) | Ty::I(n) => *n,
            Ty::Tup(v) => v.iter().map(|t| t.width()).sum(),
            Ty::Arr(t, n) => t.width() * *n as u32,
            Ty::Enum(d) => d.tag_w() + d.payload_w(),
            Ty::Struct(d) => d.fields.iter().map(|f| f.1.width()).sum(),
        }
    }
    /// bits of a value, MSB-first packing of the parts
    pub fn encode(&self, v: &Val) -> Exp {
        let w = self.width();
        match (self, v) {
            (_, Val::Undef) => Exp { v: 0, mask: 0 },
            (Ty::Bool, Val::B(b)) => Exp { v: *b as u128, mask: 1 },
            (Ty::U(n), Val::N(x)) | (Ty::I(n), Val::N(x)) => Exp { v: (*x as u128) & ones(*n), mask: ones(*n) },
            (Ty::Tup(ts), Val::T(vs)) => pack(ts.iter().zip(vs).map(|(t, v)| (t.width(), t.encode(v)))),
            (Ty::Struct(d), Val::T(vs)) => pack(d.fields.iter().zip(vs).map(|(t, v)| (t.1.width(), t.1.encode(v)))),
            (Ty::Arr(t, _), Val::T(vs)) => {
                // element 0 in the least significant bits
                pack(vs.iter().rev().map(|v| (t.width(), t.encode(v))))
            }
            (Ty::Enum(d), Val::E(k, vs)) => {
                let tag = Exp { v: *k as u128, mask: ones(d.tag_w()) };
                let mut parts = vec![(d.tag_w(), tag)];
                let mut used = d.tag_w();
                for ((_, t), v) in d.variants[*k].1.iter().zip(vs) {
                    parts.push((t.width(), t.encode(v)));
                    used += t.width();
                }
                parts.push((w - used, Exp { v: 0, mask: 0 }));
                pack(parts.into_iter())
            }
            _ => panic!("encode {self:?} {v:?}"),
        }
    }
    /// None if the bits are no value of the type (an unused tag)
    pub fn decode(&self, bits: u128) -> Option<Val> {
        Some(match self {
            Ty::Bool => Val::B(bits & 1 == 1),
            Ty::U(n) => Val::N((bits & ones(*n)) as i128),
            Ty::I(n) => Val::N(wrap_i((bits & ones(*n)) as i128, *n)),
            Ty::Tup(ts) => Val::T(unpack(&ts.iter().collect::<Vec<_>>(), bits, self.width())?),
            Ty::Struct(d) => {
                Val::T(unpack(&d.fields.iter().map(|f| &f.1).collect::<Vec<_>>(), bits, self.width())?)
            }
            Ty::Arr(t, n) => {
                let w = t.width();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(t.decode(shr(bits, w * i as u32) & ones(w))?);
                }
                Val::T(v)
            }
            Ty::Enum(d) => {
                let w = self.width();
                let tag = shr(bits, w - d.tag_w()) & ones(d.tag_w());
                if tag as usize >= d.variants.len() {
                    return None;
                }
                let ts: Vec<&Ty> = d.variants[tag as usize].1.iter().map(|f| &f.1).collect();
                Val::E(tag as usize, unpack(&ts, bits, w - d.tag_w())?)
            }
        })
    }
    /// As [decode], for bits of which only those in `mask` are known
    pub fn decode_masked(&self, bits: u128, mask: u128) -> Val {
        let w = self.width();
        if w == 0 {
            return self.decode(0).unwrap_or(Val::Undef);
        }
        let full = |m: u128, w: u32| m & ones(w) == ones(w);
        if full(mask, w) {
            return self.decode(bits).unwrap_or(Val::Undef);
        }
        if mask & ones(w) == 0 {
            return Val::Undef;
        }
        let go = |ts: &[&Ty], mut w: u32| -> Vec<Val> {
            ts.iter()
                .map(|t| {
                    w -= t.width();
                    t.decode_masked(shr(bits, w) & ones(t.width()), shr(mask, w) & ones(t.width()))
                })
                .collect()
        };
        match self {
            Ty::Tup(ts) => Val::T(go(&ts.iter().collect::<Vec<_>>(), w)),
            Ty::Struct(d) => Val::T(go(&d.fields.iter().map(|f| &f.1).collect::<Vec<_>>(), w)),
            Ty::Arr(t, n) => Val::T(
                (0..*n as u32)
                    .map(|i| {
                        let e = t.width();
                        t.decode_masked(shr(bits, e * i) & ones(e), shr(mask, e * i) & ones(e))
                    })
                    .collect(),
            ),
            Ty::Enum(d) => {
                let tw = d.tag_w();
                let (tag, tm) = (shr(bits, w - tw) & ones(tw), shr(mask, w - tw) & ones(tw));
                if !full(tm, tw) || tag as usize >= d.variants.len() {
                    return Val::Undef;
                }
                let ts: Vec<&Ty> = d.variants[tag as usize].1.iter().map(|f| &f.1).collect();
                Val::E(tag as usize, go(&ts, w - tw))
            }
            _ => Val::Undef,
        }
    }
    /// every value of the type (in encoding order); for small types
    pub fn values(&self) -> Vec<Val> {
        match self {
            Ty::Bool => vec![Val::B(false), Val::B(true)],
            Ty::U(n) => (0..(1i128 << n)).map(Val::N).collect(),
            Ty::I(n) if *n == 0 => vec![Val::N(0)],
            Ty::I(n) => (-(1i128 << (n - 1))..(1i128 << (n - 1))).map(Val::N).collect(),
            Ty::Tup(ts) => prod(&ts.iter().collect::<Vec<_>>()).into_iter().map(Val::T).collect(),
            Ty::Struct(d) => {
                prod(&d.fields.iter().map(|f| &f.1).collect::<Vec<_>>()).into_iter().map(Val::T).collect()
            }
            Ty::Arr(t, n) => prod(&(0..*n).map(|_| &**t).collect::<Vec<_>>()).into_iter().map(Val::T).collect(),
            Ty::Enum(d) => d
                .variants
                .iter()
                .enumerate()
                .flat_map(|(k, (_, fs))| {
                    prod(&fs.iter().map(|f| &f.1).collect::<Vec<_>>()).into_iter().map(move |v| Val::E(k, v))
                })
                .collect(),
        }
    }
    pub fn opt(t: Ty) -> Ty {
        Ty::Enum(Arc::new(EnumDef {
            ty: format!("Option<{}>", t.show()),
            prefix: "".into(),
            variants: vec![("None".into(), vec![]), ("Some".into(), vec![("value".into(), t)])],
        }))
    }
    pub fn is_num(&self) -> bool {
        matches!(self, Ty::U(_) | Ty::I(_))
    }
    /// Spade source of a value of this type
    pub fn lit(&self, v: &Val) -> String {
        match (self, v) {
            (Ty::Bool, Val::B(b)) => b.to_string(),
            (Ty::U(_), Val::N(n)) => format!("{n}"),
            (Ty::I(_), Val::N(n)) => if *n < 0 { format!("(-{})", -n) } else { format!("{n}") },
            (Ty::Tup(ts), Val::T(vs)) => {
                format!("({})", ts.iter().zip(vs).map(|(t, v)| t.lit(v)).collect::<Vec<_>>().join(", "))
            }
            (Ty::Struct(d), Val::T(vs)) => format!(
                "{}({})",
                d.name,
                d.fields.iter().zip(vs).map(|(t, v)| t.1.lit(v)).collect::<Vec<_>>().join(", ")
            ),
            (Ty::Arr(t, _), Val::T(vs)) => {
                format!("[{}]", vs.iter().map(|v| t.lit(v)).collect::<Vec<_>>().join(", "))
            }
            (Ty::Enum(d), Val::E(k, vs)) => format!(
                "{}{}({})",
                d.prefix,
                d.variants[*k].0,
                d.variants[*k].1.iter().zip(vs).map(|(t, v)| t.1.lit(v)).collect::<Vec<_>>().join(", ")
            ),
            _ => panic!("lit {self:?} {v:?}"),
        }
    }
    /// definitions needed for the type, in source order
    pub fn defs(&self, out: &mut Vec<String>) {
        match self {
            Ty::Tup(v) => v.iter().for_each(|t| t.defs(out)),
            Ty::Arr(t, _) => t.defs(out),
            Ty::Enum(d) => {
                d.variants.iter().for_each(|v| v.1.iter().for_each(|f| f.1.defs(out)));
                if !d.prefix.is_empty() {
                    let s = format!(
                        "enum {} {{ {} }}",
                        d.ty,
                        d.variants
                            .iter()
                            .map(|(n, fs)| if fs.is_empty() {
                                n.clone()
                            } else {
                                format!(
                                    "{n}{{{}}}",
                                    fs.iter().map(|(n, t)| format!("{n}: {}", t.show())).collect::<Vec<_>>().join(", ")
                                )
                            })
                            .collect::<Vec<_>>()
                            .join(", ")
                    );
                    if !out.contains(&s) {
                        out.push(s);
                    }
                }
            }
            Ty::Struct(d) => {
                d.fields.iter().for_each(|f| f.1.defs(out));
                let s = format!(
                    "struct {} {{ {} }}",
                    d.name,
                    d.fields.iter().map(|(n, t)| format!("{n}: {}", t.show())).collect::<Vec<_>>().join(", ")
                );
                if !out.contains(&s) {
                    out.push(s);
                }
            }
            _ => {}
        }
    }
}

impl EnumDef {
    pub fn tag_w(&self) -> u32 {
        clog2(self.variants.len())
    }
    pub fn payload_w(&self) -> u32 {
        self.variants.iter().map(|v| v.1.iter().map(|f| f.1.width()).sum()).max().unwrap_or(0)
    }
}

pub fn mk_enum(name: &str, vs: &[(&str, &[(&str, Ty)])]) -> Ty {
    Ty::Enum(Arc::new(EnumDef {
        ty: name.into(),
        prefix: format!("{name}::"),
        variants: vs
            .iter()
            .map(|(n, fs)| (n.to_string(), fs.iter().map(|(a, t)| (a.to_string(), t.clone())).collect()))
            .collect(),
    }))
}
pub fn mk_struct(name: &str, fs: &[(&str, Ty)]) -> Ty {
    Ty::Struct(Arc::new(StructDef {
        name: name.into(),
        fields: fs.iter().map(|(a, t)| (a.to_string(), t.clone())).collect(),
    }))
}

fn shr(v: u128, n: u32) -> u128 {
    if n >= 128 { 0 } else { v >> n }
}
fn shl(v: u128, n: u32) -> u128 {
    if n >= 128 { 0 } else { v << n }
}

fn pack(parts: impl Iterator<Item = (u32, Exp)>) -> Exp {
    let mut v = 0u128;
    let mut m = 0u128;
    for (w, e) in parts {
        v = shl(v, w) | (e.v & ones(w));
        m = shl(m, w) | (e.mask & ones(w));
    }
    Exp { v: v & m, mask: m }
}
fn unpack(ts: &[&Ty], bits: u128, total: u32) -> Option<Vec<Val>> {
    let mut pos = total;
    let mut r = vec![];
    for t in ts {
        pos -= t.width();
        r.push(t.decode(shr(bits, pos) & ones(t.width()))?);
    }
    Some(r)
}
pub fn prod(ts: &[&Ty]) -> Vec<Vec<Val>> {
    let mut r = vec![vec![]];
    for t in ts {
        let vs = t.values();
        let mut n = vec![];
        for p in &r {
            for v in &vs {
                let mut q: Vec<Val> = p.clone();
                q.push(v.clone());
                n.push(q);
            }
        }
        r = n;
    }
    r
}

// ------------------------------------------------------------------ expressions

pub type Fun = Arc<dyn Fn(&[Val]) -> Val + Send + Sync>;

#[derive(Clone)]
pub struct Op {
    /// `{0}`, `{1}` stand for the (parenthesised) operands, `{t}` for the result type
    pub fmt: String,
    pub f: Fun,
    /// an undefined operand makes the result undefined
    pub strict: bool,
}

#[derive(Clone)]
pub enum Pat {
    Wild,
    Bind(String),
    Int(i128),
    Bool(bool),
    Tup(Vec<Pat>),
    Arr(Vec<Pat>),
    Enum(Arc<EnumDef>, usize, Vec<Pat>),
    /// enum pattern written with named arguments in the given order
    EnumNamed(Arc<EnumDef>, usize, Vec<(usize, Pat)>),
    Struct(Arc<StructDef>, Vec<Pat>),
    /// struct pattern with named arguments in the given order
    StructNamed(Arc<StructDef>, Vec<(usize, Pat)>),
    /// `name @ pattern`
    At(String, Box<Pat>),
}

#[derive(Clone)]
pub struct E {
    pub ty: Ty,
    pub k: Arc<K>,
}
#[derive(Clone)]
pub enum K {
    Var(String),
    Lit(Val),
    Op(Op, Vec<E>),
    If(E, E, E),
    Match(E, Vec<(Pat, E)>),
    /// with guards
    MatchG(E, Vec<(Pat, Option<E>, E)>),
    Block(Vec<(Pat, Option<Ty>, E)>, E),
}

pub type Env = Vec<(String, Val)>;

pub fn var(n: &str, ty: Ty) -> E {
    E { ty, k: Arc::new(K::Var(n.into())) }
}
pub fn lit(v: Val, ty: Ty) -> E {
    E { ty, k: Arc::new(K::Lit(v)) }
}
pub fn num(n: i128, ty: Ty) -> E {
    lit(Val::N(n), ty)
}
pub fn op(fmt: &str, ty: Ty, args: Vec<E>, f: impl Fn(&[Val]) -> Val + Send + Sync + 'static) -> E {
    E { ty, k: Arc::new(K::Op(Op { fmt: fmt.into(), f: Arc::new(f), strict: true }, args)) }
}
pub fn ctor(fmt: &str, ty: Ty, args: Vec<E>, f: impl Fn(&[Val]) -> Val + Send + Sync + 'static) -> E {
    E { ty, k: Arc::new(K::Op(Op { fmt: fmt.into(), f: Arc::new(f), strict: false }, args)) }
}
pub fn ite(c: E, a: E, b: E) -> E {
    E { ty: a.ty.clone(), k: Arc::new(K::If(c, a, b)) }
}
pub fn mtch(s: E, arms: Vec<(Pat, E)>) -> E {
    E { ty: arms[0].1.ty.clone(), k: Arc::new(K::Match(s, arms)) }
}
pub fn mtchg(s: E, arms: Vec<(Pat, Option<E>, E)>) -> E {
    E { ty: arms[0].2.ty.clone(), k: Arc::new(K::MatchG(s, arms)) }
}
pub fn block(st: Vec<(Pat, Option<Ty>, E)>, e: E) -> E {
    E { ty: e.ty.clone(), k: Arc::new(K::Block(st, e)) }
}
pub fn tup(es: Vec<E>) -> E {
    let ty = Ty::Tup(es.iter().map(|e| e.ty.clone()).collect());
    let fmt = format!("({})", (0..es.len()).map(|i| format!("{{{i}}}")).collect::<Vec<_>>().join(", "));
    ctor(&fmt, ty, es, |v| Val::T(v.to_vec()))
}
pub fn arr(es: Vec<E>) -> E {
    let ty = Ty::Arr(Box::new(es[0].ty.clone()), es.len());
    let fmt = format!("[{}]", (0..es.len()).map(|i| format!("{{{i}}}")).collect::<Vec<_>>().join(", "));
    ctor(&fmt, ty, es, |v| Val::T(v.to_vec()))
}
pub fn tidx(e: E, i: usize) -> E {
    let t = match &e.ty {
        Ty::Tup(ts) => ts[i].clone(),
        _ => panic!(),
    };
    ctor(&format!("{{0}}.{i}"), t, vec![e], move |v| part(&v[0], i))
}
pub fn part(v: &Val, i: usize) -> Val {
    match v {
        Val::T(x) => x[i].clone(),
        _ => Val::Undef,
    }
}
pub fn field(e: E, n: &str) -> E {
    let (i, t) = match &e.ty {
        Ty::Struct(d) => {
            let i = d.fields.iter().position(|f| f.0 == n).unwrap();
            (i, d.fields[i].1.clone())
        }
        _ => panic!(),
    };
    ctor(&format!("{{0}}.{n}"), t, vec![e], move |v| part(&v[0], i))
}
pub fn index(a: E, i: E) -> E {
    let (t, n) = match &a.ty {
        Ty::Arr(t, n) => ((**t).clone(), *n),
        _ => panic!(),
    };
    ctor("{0}[{1}]", t, vec![a, i], move |v| match (&v[0], &v[1]) {
        (Val::T(x), Val::N(i)) if *i >= 0 && (*i as usize) < n => x[*i as usize].clone(),
        _ => Val::Undef,
    })
}
pub fn enew(ty: &Ty, k: usize, args: Vec<E>) -> E {
    let d = match ty {
        Ty::Enum(d) => d,
        _ => panic!(),
    };
    let fmt = format!(
        "{}{}({})",
        d.prefix,
        d.variants[k].0,
        (0..args.len()).map(|i| format!("{{{i}}}")).collect::<Vec<_>>().join(", ")
    );
    ctor(&fmt, ty.clone(), args, move |v| Val::E(k, v.to_vec()))
}
pub fn snew(ty: &Ty, args: Vec<E>) -> E {
    let d = match ty {
        Ty::Struct(d) => d,
        _ => panic!(),
    };
    let fmt =
        format!("{}({})", d.name, (0..args.len()).map(|i| format!("{{{i}}}")).collect::<Vec<_>>().join(", "));
    ctor(&fmt, ty.clone(), args, |v| Val::T(v.to_vec()))
}

impl Pat {
    pub fn show(&self) -> String {
        let l = |v: &Vec<Pat>| v.iter().map(|p| p.show()).collect::<Vec<_>>().join(", ");
        match self {
            Pat::Wild => "_".into(),
            Pat::Bind(n) => n.clone(),
            Pat::Int(n) => format!("{n}"),
            Pat::Bool(b) => b.to_string(),
            Pat::Tup(v) => format!("({})", l(v)),
            Pat::Arr(v) => format!("[{}]", l(v)),
            Pat::Enum(d, k, v) => {
                let n = format!("{}{}", d.prefix, d.variants[*k].0);
                if v.is_empty() { n } else { format!("{n}({})", l(v)) }
            }
            Pat::EnumNamed(d, k, v) => format!(
                "{}{}$({})",
                d.prefix,
                d.variants[*k].0,
                v.iter()
                    .map(|(i, p)| {
                        let f = &d.variants[*k].1[*i].0;
                        match p {
                            Pat::Bind(n) if n == f => n.clone(),
                            _ => format!("{f}: {}", p.show()),
                        }
                    })
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
            Pat::Struct(d, v) => format!("{}({})", d.name, l(v)),
            Pat::StructNamed(d, v) => format!(
                "{}$({})",
                d.name,
                v.iter()
                    .map(|(i, p)| {
                        let f = &d.fields[*i].0;
                        match p {
                            Pat::Bind(n) if n == f => n.clone(),
                            _ => format!("{f}: {}", p.show()),
                        }
                    })
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
            Pat::At(n, p) => format!("{n} @ {}", p.show()),
        }
    }
    /// Some(true/false): matches or not; None: undefined
    pub fn matches(&self, v: &Val, env: &mut Env) -> Option<bool> {
        match (self, v) {
            (Pat::Wild, _) => Some(true),
            (Pat::Bind(n), v) => {
                env.push((n.clone(), v.clone()));
                Some(true)
            }
            (Pat::Int(a), Val::N(b)) => Some(a == b),
            (Pat::Bool(a), Val::B(b)) => Some(a == b),
            (Pat::Tup(ps), Val::T(vs)) | (Pat::Arr(ps), Val::T(vs)) | (Pat::Struct(_, ps), Val::T(vs)) => {
                all3(ps.iter().zip(vs), env)
            }
            (Pat::Enum(_, k, ps), Val::E(j, vs)) => {
                if k == j {
                    all3(ps.iter().zip(vs), env)
                } else {
                    Some(false)
                }
            }
            (Pat::EnumNamed(_, k, ps), Val::E(j, vs)) => {
                if k == j {
                    all3(ps.iter().map(|(i, p)| (p, &vs[*i])), env)
                } else {
                    Some(false)
                }
            }
            (Pat::StructNamed(_, ps), Val::T(vs)) => all3(ps.iter().map(|(i, p)| (p, &vs[*i])), env),
            (Pat::At(n, p), v) => {
                env.push((n.clone(), v.clone()));
                p.matches(v, env)
            }
            (p, Val::Undef) => {
                // bindings below an undefined value are undefined; the test may be irrefutable
                p.bind_undef(env);
                if p.irrefutable() { Some(true) } else { None }
            }
            _ => panic!("pattern {} against {v:?}", self.show()),
        }
    }
    fn bind_undef(&self, env: &mut Env) {
        match self {
            Pat::Bind(n) => env.push((n.clone(), Val::Undef)),
            Pat::Tup(v) | Pat::Arr(v) | Pat::Enum(_, _, v) | Pat::Struct(_, v) => {
                v.iter().for_each(|p| p.bind_undef(env))
            }
            Pat::EnumNamed(_, _, v) | Pat::StructNamed(_, v) => v.iter().for_each(|p| p.1.bind_undef(env)),
            Pat::At(n, p) => {
                env.push((n.clone(), Val::Undef));
                p.bind_undef(env)
            }
            _ => {}
        }
    }
    /// Binds an irrefutable pattern; parts of undefined values are undefined
    pub fn bind_or_undef(&self, v: &Val, env: &mut Env) {
        let n = env.len();
        if self.matches(v, env) != Some(true) {
            env.truncate(n);
            match (self, v) {
                (Pat::Tup(ps), Val::T(vs)) | (Pat::Arr(ps), Val::T(vs)) | (Pat::Struct(_, ps), Val::T(vs)) => {
                    for (p, v) in ps.iter().zip(vs) {
                        p.bind_or_undef(v, env);
                    }
                }
                _ => {
                    let mut b = vec![];
                    self.bound(&mut b);
                    env.extend(b.into_iter().map(|n| (n, Val::Undef)));
                }
            }
        }
    }
    pub fn bound(&self, out: &mut Vec<String>) {
        match self {
            Pat::Bind(n) => out.push(n.clone()),
            Pat::Tup(ps) | Pat::Arr(ps) | Pat::Enum(_, _, ps) | Pat::Struct(_, ps) => ps.iter().for_each(|p| p.bound(out)),
            Pat::EnumNamed(_, _, ps) | Pat::StructNamed(_, ps) => ps.iter().for_each(|p| p.1.bound(out)),
            Pat::At(n, p) => {
                out.push(n.clone());
                p.bound(out)
            }
            _ => {}
        }
    }
    pub fn irrefutable(&self) -> bool {
        match self {
            Pat::Wild | Pat::Bind(_) => true,
            Pat::Tup(v) | Pat::Arr(v) | Pat::Struct(_, v) => v.iter().all(|p| p.irrefutable()),
            Pat::Enum(d, _, v) => d.variants.len() == 1 && v.iter().all(|p| p.irrefutable()),
            Pat::EnumNamed(d, _, v) => d.variants.len() == 1 && v.iter().all(|p| p.1.irrefutable()),
            Pat::StructNamed(_, v) => v.iter().all(|p| p.1.irrefutable()),
            Pat::At(_, p) => p.irrefutable(),
            _ => false,
        }
    }
}

fn all3<'a>(it: impl Iterator<Item = (&'a Pat, &'a Val)>, env: &mut Env) -> Option<bool> {
    let mut r = Some(true);
    for (p, v) in it {
        match p.matches(v, env) {
            Some(false) => r = Some(false),
            None if r != Some(false) => r = None,
            _ => {}
        }
    }
    r
}

impl E {
    pub fn show(&self) -> String {
        match &*self.k {
            K::Var(n) => n.clone(),
            K::Lit(v) => self.ty.lit(v),
            K::Op(o, args) => {
                let mut s = o.fmt.replace("{t}", &self.ty.show());
                for (i, a) in args.iter().enumerate() {
                    s = s.replace(&format!("{{{i}}}"), &format!("\u{1}{i}\u{2}"));
                    let _ = a;
                }
                for (i, a) in args.iter().enumerate() {
                    s = s.replace(&format!("\u{1}{i}\u{2}"), &a.show_atom());
                }
                s
            }
            K::If(c, a, b) => format!("if {} {{ {} }} else {{ {} }}", c.show(), a.show(), b.show()),
            K::Match(s, arms) => format!(
                "match {} {{ {} }}",
                s.show(),
                arms.iter().map(|(p, e)| format!("{} => {},", p.show(), e.show())).collect::<Vec<_>>().join(" ")
            ),
            K::MatchG(s, arms) => format!(
                "match {} {{ {} }}",
                s.show(),
                arms.iter()
                    .map(|(p, g, e)| {
                        let g = g.as_ref().map(|g| format!(" if {}", g.show())).unwrap_or_default();
                        format!("{}{g} => {},", p.show(), e.show())
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            ),
            K::Block(st, e) => format!("{{ {} {} }}", show_lets(st), e.show()),
        }
    }
    pub fn show_atom(&self) -> String {
        match &*self.k {
            K::Var(_) | K::Lit(_) => self.show(),
            K::Op(o, _)
                if o.fmt.ends_with(')') && !o.fmt.starts_with('{') && !o.fmt.contains(' ')
                    || o.fmt.starts_with('[')
                    || o.fmt.starts_with('(') =>
            {
                self.show()
            }
            K::Block(..) => self.show(),
            _ => format!("({})", self.show()),
        }
    }
    pub fn eval(&self, env: &mut Env) -> Val {
        match &*self.k {
            K::Var(n) => env.iter().rev().find(|x| &x.0 == n).unwrap_or_else(|| panic!("unbound {n}")).1.clone(),
            K::Lit(v) => v.clone(),
            K::Op(o, args) => {
                let vs: Vec<Val> = args.iter().map(|a| a.eval(env)).collect();
                if o.strict && vs.iter().any(|v| *v == Val::Undef) {
                    return Val::Undef;
                }
                (o.f)(&vs)
            }
            K::If(c, a, b) => match c.eval(env) {
                Val::B(true) => a.eval(env),
                Val::B(false) => b.eval(env),
                _ => Val::Undef,
            },
            K::Match(s, arms) => {
                let v = s.eval(env);
                for (p, e) in arms {
                    let n = env.len();
                    match p.matches(&v, env) {
                        Some(true) => {
                            let r = e.eval(env);
                            env.truncate(n);
                            return r;
                        }
                        Some(false) => env.truncate(n),
                        None => {
                            env.truncate(n);
                            return Val::Undef;
                        }
                    }
                }
                Val::Undef
            }
            K::MatchG(s, arms) => {
                let v = s.eval(env);
                for (p, g, e) in arms {
                    let n = env.len();
                    let mut r = p.matches(&v, env);
                    if r != Some(false) {
                        if let Some(g) = g {
                            match g.eval(env) {
                                Val::B(true) => {}
                                Val::B(false) => r = Some(false),
                                _ => r = None,
                            }
                        }
                    }
                    match r {
                        Some(true) => {
                            let r = e.eval(env);
                            env.truncate(n);
                            return r;
                        }
                        Some(false) => env.truncate(n),
                        None => {
                            env.truncate(n);
                            return Val::Undef;
                        }
                    }
                }
                Val::Undef
            }
            K::Block(st, e) => {
                let n = env.len();
                run_lets(st, env);
                let r = e.eval(env);
                env.truncate(n);
                r
            }
        }
    }
    pub fn defs(&self, out: &mut Vec<String>) {
        self.ty.defs(out);
        match &*self.k {
            K::Op(_, a) => a.iter().for_each(|e| e.defs(out)),
            K::If(a, b, c) => {
                a.defs(out);
                b.defs(out);
                c.defs(out)
            }
            K::Match(s, arms) => {
                s.defs(out);
                arms.iter().for_each(|a| a.1.defs(out))
            }
            K::MatchG(s, arms) => {
                s.defs(out);
                arms.iter().for_each(|a| {
                    a.2.defs(out);
                    if let Some(g) = &a.1 {
                        g.defs(out)
                    }
                })
            }
            K::Block(st, e) => {
                st.iter().for_each(|s| s.2.defs(out));
                e.defs(out)
            }
            _ => {}
        }
    }
}

pub fn show_lets(st: &[(Pat, Option<Ty>, E)]) -> String {
    st.iter()
        .map(|(p, t, e)| {
            format!(
                "let {}{} = {};",
                p.show(),
                t.as_ref().map(|t| format!(": {}", t.show())).unwrap_or_default(),
                e.show()
            )
        })
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn run_lets(st: &[(Pat, Option<Ty>, E)], env: &mut Env) {
    for (p, _, e) in st {
        let v = e.eval(env);
        p.bind_or_undef(&v, env);
    }
}

pub fn n(v: &Val) -> i128 {
    match v {
        Val::N(x) => *x,
        Val::B(b) => *b as i128,
        _ => panic!("not a number: {v:?}"),
    }
}
pub fn b(v: &Val) -> bool {
    match v {
        Val::B(x) => *x,
        _ => panic!("not a bool: {v:?}"),
    }
}

/// A combinational unit `top` computing `e` from its parameters, checked on all inputs.
pub fn comb_case(key: impl Into<String>, params: &[(&str, Ty)], e: &E, prelude: &str) -> crate::hw::Case {
    let mut defs = vec![];
    for p in params {
        p.1.defs(&mut defs);
    }
    e.defs(&mut defs);
    let src = format!(
        "{}{}{}fn top({}) -> {} {{ {} }}\n",
        prelude,
        defs.join("\n"),
        if defs.is_empty() { "" } else { "\n" },
        params.iter().map(|(n, t)| format!("{n}: {}", t.show())).collect::<Vec<_>>().join(", "),
        e.ty.show(),
        match &*e.k {
            K::Block(st, r) => format!("{} {}", show_lets(st), r.show()),
            _ => e.show(),
        }
    );
    expr_case(key, params, e, src)
}

/// As [comb_case] with the source given explicitly.
pub fn expr_case(key: impl Into<String>, params: &[(&str, Ty)], e: &E, src: String) -> crate::hw::Case {
    let ps: Vec<(String, Ty)> = params.iter().map(|(n, t)| (n.to_string(), t.clone())).collect();
    let e2 = e.clone();
    let ins: Vec<(&str, u32)> = params.iter().map(|(n, t)| (*n, t.width())).collect();
    crate::hw::Case::comb_exp(key, src, &ins, e.ty.width(), move |i| {
        let mut env: Env = vec![];
        for (k, (n, t)) in ps.iter().enumerate() {
            env.push((n.clone(), t.decode(i[k]).unwrap_or(Val::Undef)));
        }
        let v = e2.eval(&mut env);
        e2.ty.encode(&v)
    })
}
