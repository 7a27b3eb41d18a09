//! Bounded grammar of Spade types, and the projection paths of a type.
use crate::lang::*;
use std::cell::Cell;
use std::sync::Arc;

thread_local! { static N: Cell<usize> = const { Cell::new(0) }; }
pub fn fresh() -> usize {
    N.with(|n| {
        n.set(n.get() + 1);
        n.get()
    })
}
pub fn st(ts: &[Ty]) -> Ty {
    let k = fresh();
    let names = ["fa", "fb", "fc", "fd"];
    mk_struct(&format!("S{k}"), &ts.iter().enumerate().map(|(i, t)| (names[i], t.clone())).collect::<Vec<_>>())
}
pub fn en(vs: &[Vec<Ty>]) -> Ty {
    let k = fresh();
    let names = ["ma", "mb", "mc"];
    Ty::Enum(Arc::new(EnumDef {
        ty: format!("E{k}"),
        prefix: format!("E{k}::"),
        variants: vs
            .iter()
            .enumerate()
            .map(|(i, fs)| {
                (format!("V{i}"), fs.iter().enumerate().map(|(j, t)| (names[j].to_string(), t.clone())).collect())
            })
            .collect(),
    }))
}
pub fn ar(t: &Ty, n: usize) -> Ty {
    Ty::Arr(Box::new(t.clone()), n)
}

/// containers with `x` in every position, over filler types
pub fn containers(x: &Ty, fill: &[Ty]) -> Vec<Ty> {
    let mut v = vec![ar(x, 1), ar(x, 2), ar(x, 3), st(&[x.clone()]), Ty::opt(x.clone())];
    v.push(en(&[vec![x.clone()]]));
    v.push(en(&[vec![x.clone()], vec![], vec![x.clone()]]));
    for f in fill {
        v.push(Ty::Tup(vec![x.clone(), f.clone()]));
        v.push(Ty::Tup(vec![f.clone(), x.clone()]));
        v.push(Ty::Tup(vec![f.clone(), x.clone(), f.clone()]));
        v.push(st(&[f.clone(), x.clone()]));
        v.push(st(&[x.clone(), f.clone(), x.clone()]));
        v.push(en(&[vec![f.clone(), x.clone()]]));
        v.push(en(&[vec![x.clone(), f.clone()]]));
        v.push(en(&[vec![f.clone()], vec![x.clone()]]));
        v.push(en(&[vec![x.clone(), f.clone()], vec![f.clone()], vec![]]));
        v.push(en(&[vec![], vec![f.clone()], vec![f.clone(), x.clone()]]));
    }
    v
}

pub fn atoms() -> Vec<Ty> {
    vec![Ty::Bool, Ty::U(0), Ty::U(1), Ty::U(2), Ty::I(3)]
}

/// all types of the grammar, up to a width
pub fn grammar(maxw: u32, thorough: bool) -> Vec<Ty> {
    let at = atoms();
    let mut v: Vec<Ty> = at.clone();
    // depth 1: everything over the atoms
    for a in &at {
        for n in 1..=4 {
            v.push(ar(a, n));
        }
        v.push(st(&[a.clone()]));
        v.push(Ty::opt(a.clone()));
        for b in &at {
            v.push(Ty::Tup(vec![a.clone(), b.clone()]));
            v.push(st(&[a.clone(), b.clone()]));
            for c in &at {
                v.push(Ty::Tup(vec![a.clone(), b.clone(), c.clone()]));
                if thorough {
                    v.push(st(&[a.clone(), b.clone(), c.clone()]));
                }
            }
        }
    }
    let f = [Ty::Bool, Ty::U(0), Ty::U(2)];
    let mut opts: Vec<Vec<Ty>> = vec![vec![]];
    for a in &f {
        opts.push(vec![a.clone()]);
        for b in &f {
            opts.push(vec![a.clone(), b.clone()]);
        }
    }
    opts.push(vec![Ty::U(2), Ty::Bool, Ty::U(1)]);
    for a in &opts {
        v.push(en(&[a.clone()]));
        for b in &opts {
            v.push(en(&[a.clone(), b.clone()]));
            for c in opts.iter().step_by(if thorough { 1 } else { 3 }) {
                v.push(en(&[a.clone(), b.clone(), c.clone()]));
            }
        }
        v.push(en(&[vec![], a.clone(), vec![], vec![Ty::Bool]]));
        v.push(en(&[vec![], vec![], a.clone(), vec![], vec![Ty::U(1)]]));
    }
    // depth 2 and 3: every container around every representative
    let fill = [Ty::Bool, Ty::U(2)];
    let mut d1: Vec<Ty> = vec![];
    for x in &at {
        d1.extend(containers(x, if thorough { &fill } else { &fill[..1] }));
    }
    let mut d2 = vec![];
    for x in &d1 {
        d2.extend(containers(x, if thorough { &fill } else { &fill[..1] }));
    }
    d2.retain(|t| t.width() <= maxw);
    v.extend(d1);
    let step = if thorough { 7 } else { 23 };
    for x in d2.iter().step_by(step) {
        v.extend(containers(x, &fill[..1]));
    }
    v.extend(d2);
    v.retain(|t| t.width() <= maxw);
    v
}

/// all leaf paths: description, type, expression builder
pub type Path = (String, Ty, Arc<dyn Fn(E) -> E + Send + Sync>);
pub fn paths(t: &Ty, leaves_only: bool) -> Vec<Path> {
    let mut r: Vec<Path> = vec![];
    let mut sub = |name: String, t: Ty, f: Arc<dyn Fn(E) -> E + Send + Sync>| {
        for (n, ty, g) in paths(&t, leaves_only) {
            let f = f.clone();
            r.push((format!("{name}{n}"), ty, Arc::new(move |e| g(f(e)))));
        }
    };
    match t {
        Ty::Tup(ts) => {
            for (i, t) in ts.iter().enumerate() {
                sub(format!(".{i}"), t.clone(), Arc::new(move |e| tidx(e, i)));
            }
        }
        Ty::Struct(d) => {
            for (n, t) in &d.fields {
                let n2 = n.clone();
                sub(format!(".{n}"), t.clone(), Arc::new(move |e| field(e, &n2)));
            }
        }
        Ty::Arr(t, n) => {
            for i in 0..*n {
                sub(format!("[{i}]"), (**t).clone(), Arc::new(move |e| index(e, num(i as i128, Ty::U(clog2(99))))));
            }
        }
        Ty::Enum(d) => {
            for (k, (vn, fs)) in d.variants.iter().enumerate() {
                for (j, (_, ft)) in fs.iter().enumerate() {
                    let (d, ft2, n) = (d.clone(), ft.clone(), fs.len());
                    sub(
                        format!("@{vn}.{j}"),
                        ft.clone(),
                        Arc::new(move |e| {
                            let v = format!("v{}", fresh());
                            let ps = (0..n).map(|x| if x == j { Pat::Bind(v.clone()) } else { Pat::Wild }).collect();
                            let mut arms = vec![(Pat::Enum(d.clone(), k, ps), var(&v, ft2.clone()))];
                            if d.variants.len() > 1 {
                                arms.push((Pat::Wild, lit(ft2.values()[0].clone(), ft2.clone())));
                            }
                            mtch(e, arms)
                        }),
                    );
                }
            }
        }
        _ => {}
    }
    if r.is_empty() || !leaves_only {
        r.push((String::new(), t.clone(), Arc::new(|e| e)));
    }
    r
}

/// an expression building a value of `t` from fresh variables; enums need a variant choice:
/// `variant(k)` chooses for the k-th enum met
pub fn build(t: &Ty, vars: &mut Vec<(String, Ty)>, choose: &mut dyn FnMut(usize) -> usize) -> E {
    match t {
        Ty::Tup(ts) => tup(ts.iter().map(|t| build(t, vars, choose)).collect()),
        Ty::Struct(d) => {
            let a = d.fields.iter().map(|f| build(&f.1, vars, choose)).collect();
            snew(t, a)
        }
        Ty::Arr(e, n) => arr((0..*n).map(|_| build(e, vars, choose)).collect()),
        Ty::Enum(d) => {
            let k = choose(d.variants.len());
            let a = d.variants[k].1.iter().map(|f| build(&f.1, vars, choose)).collect();
            enew(t, k, a)
        }
        _ => {
            let n = format!("p{}", vars.len());
            vars.push((n.clone(), t.clone()));
            var(&n, t.clone())
        }
    }
}

/// a pattern binding all leaves of the (irrefutable) type
pub fn bind_all(t: &Ty, vars: &mut Vec<(String, Ty)>) -> Pat {
    match t {
        Ty::Tup(ts) => Pat::Tup(ts.iter().map(|t| bind_all(t, vars)).collect()),
        Ty::Struct(d) => Pat::Struct(d.clone(), d.fields.iter().map(|f| bind_all(&f.1, vars)).collect()),
        Ty::Arr(e, n) => Pat::Arr((0..*n).map(|_| bind_all(e, vars)).collect()),
        Ty::Enum(d) if d.variants.len() == 1 => {
            Pat::Enum(d.clone(), 0, d.variants[0].1.iter().map(|f| bind_all(&f.1, vars)).collect())
        }
        _ => {
            let n = format!("q{}", vars.len());
            vars.push((n.clone(), t.clone()));
            Pat::Bind(n)
        }
    }
}
