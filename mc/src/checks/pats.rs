//! Pattern alphabets and lists of patterns over small types; brute-force exhaustiveness.
use super::types::*;
use crate::lang::*;

fn product(subs: &[Vec<Pat>]) -> Vec<Vec<Pat>> {
    let mut r: Vec<Vec<Pat>> = vec![vec![]];
    for s in subs {
        r = r.iter().flat_map(|p| s.iter().map(move |x| [p.clone(), vec![x.clone()]].concat())).collect();
    }
    r
}

/// all patterns of the type, with `_` wherever a name could be bound
pub fn alphabet(t: &Ty) -> Vec<Pat> {
    let mut v = vec![Pat::Wild];
    match t {
        Ty::Bool => v.extend([Pat::Bool(true), Pat::Bool(false)]),
        Ty::U(n) | Ty::I(n) => {
            let all = if *n <= 3 {
                t.values()
            } else {
                let (lo, hi) = if matches!(t, Ty::U(_)) { (0, (1i128 << n) - 1) } else { (-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1) };
                let mut x = vec![lo, lo + 1, -1, 0, 1, hi / 2, hi - 1, hi];
                x.retain(|k| *k >= lo && *k <= hi);
                x.sort();
                x.dedup();
                x.into_iter().map(Val::N).collect()
            };
            v.extend(all.iter().map(|x| Pat::Int(crate::lang::n(x))));
        }
        Ty::Tup(ts) => v.extend(product(&ts.iter().map(alphabet).collect::<Vec<_>>()).into_iter().map(Pat::Tup)),
        Ty::Arr(t, n) => v.extend(product(&(0..*n).map(|_| alphabet(t)).collect::<Vec<_>>()).into_iter().map(Pat::Arr)),
        Ty::Struct(d) => v.extend(
            product(&d.fields.iter().map(|f| alphabet(&f.1)).collect::<Vec<_>>()).into_iter().map(|p| Pat::Struct(d.clone(), p)),
        ),
        Ty::Enum(d) => {
            for k in 0..d.variants.len() {
                for p in product(&d.variants[k].1.iter().map(|f| alphabet(&f.1)).collect::<Vec<_>>()) {
                    v.push(Pat::Enum(d.clone(), k, p));
                }
            }
        }
    }
    v
}

pub fn scrutinees(thorough: bool) -> Vec<Ty> {
    let b = Ty::Bool;
    let mut v = vec![
        b.clone(),
        Ty::U(0),
        Ty::U(1),
        Ty::I(1),
        Ty::U(2),
        Ty::I(2),
        Ty::U(3),
        Ty::I(3),
        Ty::Tup(vec![b.clone(), b.clone()]),
        Ty::Tup(vec![Ty::U(1), b.clone()]),
        Ty::Tup(vec![Ty::U(2), b.clone()]),
        Ty::Tup(vec![Ty::U(1), Ty::I(2)]),
        Ty::Tup(vec![Ty::U(0), b.clone()]),
        ar(&b, 1),
        ar(&b, 2),
        ar(&Ty::U(1), 2),
        st(&[b.clone()]),
        st(&[b.clone(), b.clone()]),
        st(&[Ty::U(2), b.clone()]),
        Ty::opt(b.clone()),
        Ty::opt(Ty::U(2)),
        Ty::opt(Ty::opt(b.clone())),
        Ty::opt(Ty::Tup(vec![b.clone(), b.clone()])),
        Ty::Tup(vec![Ty::opt(b.clone()), b.clone()]),
        Ty::Tup(vec![b.clone(), Ty::opt(b.clone())]),
        en(&[vec![], vec![], vec![]]),
        en(&[vec![b.clone()]]),
        en(&[vec![]]),
        en(&[vec![b.clone(), b.clone()]]),
        en(&[vec![b.clone()], vec![Ty::U(1)]]),
        en(&[vec![], vec![Ty::U(1)], vec![b.clone(), b.clone()]]),
        en(&[vec![Ty::I(2)], vec![], vec![], vec![b.clone()], vec![]]),
        Ty::Tup(vec![en(&[vec![], vec![]]), en(&[vec![], vec![], vec![]])]),
        Ty::Tup(vec![b.clone(), b.clone(), b.clone()]),
        st(&[en(&[vec![b.clone()], vec![]]), b.clone()]),
        ar(&en(&[vec![], vec![b.clone()]]), 2),
        ar(&b, 3),
        ar(&Ty::U(1), 5),
    ];
    if thorough {
        v.extend([
            Ty::Tup(vec![Ty::U(2), Ty::U(2)]),
            Ty::Tup(vec![Ty::opt(b.clone()), Ty::opt(b.clone())]),
            ar(&b, 4),
            ar(&Ty::U(2), 3),
            Ty::Tup(vec![st(&[b.clone(), b.clone()]), b.clone()]),
            Ty::opt(en(&[vec![], vec![b.clone()]])),
            st(&[Ty::Tup(vec![b.clone(), b.clone()]), ar(&b, 1)]),
        ]);
    }
    v
}

pub fn matches_plain(p: &Pat, v: &Val) -> bool {
    let mut e = vec![];
    p.matches(v, &mut e) == Some(true)
}

/// does some unguarded pattern of the list match every value of the type?
pub fn exhaustive(t: &Ty, ps: &[Pat]) -> bool {
    t.values().iter().all(|v| ps.iter().any(|p| matches_plain(p, v)))
}

/// all lists of length `n` over the alphabet, every `step`-th of them
pub fn lists(a: &[Pat], n: usize, lim: usize) -> (Vec<Vec<Pat>>, bool) {
    let total = (a.len() as u128).pow(n as u32);
    let step = (total.div_ceil(lim as u128)).max(1);
    // an odd stride coprime to the alphabet keeps all positions varied
    let mut step = step;
    while step > 1 && gcd(step, a.len() as u128) > 1 {
        step += 1;
    }
    let mut r = vec![];
    let mut i = 0u128;
    while i < total {
        let mut k = i;
        let mut l = vec![];
        for _ in 0..n {
            l.push(a[(k % a.len() as u128) as usize].clone());
            k /= a.len() as u128;
        }
        r.push(l);
        i += step;
    }
    (r, step == 1)
}
fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// all parts of a value that a pattern can name
pub fn positions(t: &Ty, name: &str, out: &mut Vec<(String, Ty)>) {
    out.push((name.into(), t.clone()));
    match t {
        Ty::Tup(ts) => ts.iter().enumerate().for_each(|(i, t)| positions(t, &format!("{name}{i}"), out)),
        Ty::Struct(d) => d.fields.iter().enumerate().for_each(|(i, f)| positions(&f.1, &format!("{name}{i}"), out)),
        Ty::Arr(t, n) => (0..*n).for_each(|i| positions(t, &format!("{name}{i}"), out)),
        Ty::Enum(d) => d.variants.iter().enumerate().for_each(|(k, v)| {
            v.1.iter().enumerate().for_each(|(i, f)| positions(&f.1, &format!("{name}{}{i}", (b'a' + k as u8) as char), out))
        }),
        _ => {}
    }
}

/// the pattern with its wildcards (and, if `at`, all its parts) bound to the names of [positions]
pub fn name_parts(p: &Pat, t: &Ty, name: &str, at: bool, named: bool) -> Pat {
    let r = match (p, t) {
        (Pat::Wild, _) => return Pat::Bind(name.into()),
        (Pat::Tup(v), Ty::Tup(ts)) => {
            Pat::Tup(v.iter().zip(ts).enumerate().map(|(i, (p, t))| name_parts(p, t, &format!("{name}{i}"), at, named)).collect())
        }
        (Pat::Arr(v), Ty::Arr(t, _)) => {
            Pat::Arr(v.iter().enumerate().map(|(i, p)| name_parts(p, t, &format!("{name}{i}"), at, named)).collect())
        }
        (Pat::Struct(_, v), Ty::Struct(d)) => {
            let l: Vec<Pat> = v
                .iter()
                .zip(&d.fields)
                .enumerate()
                .map(|(i, (p, t))| name_parts(p, &t.1, &format!("{name}{i}"), at, named))
                .collect();
            if named {
                Pat::StructNamed(d.clone(), l.into_iter().enumerate().rev().collect())
            } else {
                Pat::Struct(d.clone(), l)
            }
        }
        (Pat::Enum(_, k, v), Ty::Enum(d)) => {
            let l: Vec<Pat> = v
                .iter()
                .zip(&d.variants[*k].1)
                .enumerate()
                .map(|(i, (p, t))| name_parts(p, &t.1, &format!("{name}{}{i}", (b'a' + *k as u8) as char), at, named))
                .collect();
            if named && !l.is_empty() {
                Pat::EnumNamed(d.clone(), *k, l.into_iter().enumerate().rev().collect())
            } else {
                Pat::Enum(d.clone(), *k, l)
            }
        }
        _ => p.clone(),
    };
    if at { Pat::At(name.into(), Box::new(r)) } else { r }
}

pub fn bound(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Bind(n) => out.push(n.clone()),
        Pat::At(n, p) => {
            out.push(n.clone());
            bound(p, out)
        }
        Pat::Tup(v) | Pat::Arr(v) | Pat::Enum(_, _, v) | Pat::Struct(_, v) => v.iter().for_each(|p| bound(p, out)),
        Pat::EnumNamed(_, _, v) | Pat::StructNamed(_, v) => v.iter().for_each(|p| bound(&p.1, out)),
        _ => {}
    }
}
