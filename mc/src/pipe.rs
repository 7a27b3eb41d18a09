//! Pipelines: a reference model of stages, latency and stalling, flattened to registers.
use crate::lang::*;
use crate::seq::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;

#[derive(Clone)]
pub enum PS {
    /// pattern, wire, value
    Let(Pat, bool, E),
    Reg(Reg),
    Decl(String),
    /// `reg;` or `reg[cond];`
    Stage(Option<E>),
    Label(String),
}

#[derive(Clone)]
pub struct Pipe {
    pub name: String,
    pub depth: usize,
    /// name, type, wire
    pub params: Vec<(String, Ty, bool)>,
    pub body: Vec<PS>,
    pub out: E,
}

/// the last unit is the top
#[derive(Clone)]
pub struct Program {
    pub pipes: Vec<Pipe>,
}

pub fn let_(n: &str, e: E) -> PS {
    PS::Let(Pat::Bind(n.into()), false, e)
}
pub fn wire(n: &str, e: E) -> PS {
    PS::Let(Pat::Bind(n.into()), true, e)
}
pub fn stage() -> PS {
    PS::Stage(None)
}
pub fn stall(c: E) -> PS {
    PS::Stage(Some(c))
}
/// `stage(+-k).n`
pub fn rel(k: i64, n: &str, ty: Ty) -> E {
    var(&format!("stage({}{}).{n}", if k < 0 { '-' } else { '+' }, k.abs()), ty)
}
pub fn lab(l: &str, n: &str, ty: Ty) -> E {
    var(&format!("stage({l}).{n}"), ty)
}
pub fn ready() -> E {
    var("stage.ready", Ty::Bool)
}
pub fn valid() -> E {
    var("stage.valid", Ty::Bool)
}
pub fn inst(d: usize, p: &Pipe, args: Vec<E>) -> E {
    inst_s(&d.to_string(), p, args)
}
pub fn inst_s(d: &str, p: &Pipe, args: Vec<E>) -> E {
    let a: String = (0..args.len()).map(|k| format!(", {{{k}}}")).collect();
    ctor(&format!("inst({d}) {}(clk{a})", p.name), p.out.ty.clone(), args, |_| unreachable!("pipeline instance"))
}

struct Decl {
    /// position in the body, parameters at 0
    pos: usize,
    name: String,
    ty: Ty,
    /// the stage in which the value first exists
    stage: usize,
    wire: bool,
    what: What,
}
enum What {
    Param(E),
    Let(Pat, E),
    Reg(usize),
}

struct Unit<'a> {
    pipe: &'a Pipe,
    prefix: String,
    decls: Vec<Decl>,
    labels: BTreeMap<String, usize>,
    /// condition of every marker, in source form
    conds: Vec<Option<E>>,
}

pub struct Flat {
    pub regs: Vec<Reg>,
    seen: HashSet<String>,
    /// definitions being resolved: meeting one again is a combinational loop
    open: HashSet<String>,
}

type R<T> = Result<T, String>;

pub fn not_(e: E) -> E {
    op("!{0}", Ty::Bool, vec![e], |v| Val::B(!b(&v[0])))
}
fn and_(x: E, y: E) -> E {
    ctor("{0} && {1}", Ty::Bool, vec![x, y], |v| match (&v[0], &v[1]) {
        (Val::B(false), _) | (_, Val::B(false)) => Val::B(false),
        (Val::B(true), Val::B(true)) => Val::B(true),
        _ => Val::Undef,
    })
}

fn locals(e: &E, out: &mut HashSet<String>) {
    let mut pat = |p: &Pat, out: &mut HashSet<String>| {
        let mut b = vec![];
        p.bound(&mut b);
        out.extend(b);
    };
    match &*e.k {
        K::Var(_) | K::Lit(_) => {}
        K::Op(_, a) => a.iter().for_each(|x| locals(x, out)),
        K::If(c, x, y) => [c, x, y].iter().for_each(|x| locals(x, out)),
        K::Match(s, arms) => {
            locals(s, out);
            for (p, e) in arms {
                pat(p, out);
                locals(e, out);
            }
        }
        K::MatchG(s, arms) => {
            locals(s, out);
            for (p, g, e) in arms {
                pat(p, out);
                g.iter().for_each(|g| locals(g, out));
                locals(e, out);
            }
        }
        K::Block(st, e) => {
            for s in st {
                pat(&s.0, out);
                locals(&s.2, out);
            }
            locals(e, out);
        }
    }
}

impl Program {
    pub fn new(pipes: Vec<Pipe>) -> Program {
        Program { pipes }
    }
    fn top(&self) -> &Pipe {
        self.pipes.last().unwrap()
    }
    /// the equivalent circuit without stages, or why the program has none
    pub fn flatten(&self) -> R<Circuit> {
        for p in &self.pipes[..self.pipes.len() - 1] {
            // units must be right whether or not they are used
            let mut f = Flat { regs: vec![], seen: HashSet::new(), open: HashSet::new() };
            let args = p.params.iter().map(|x| var(&x.0, x.1.clone())).collect();
            self.unit(p, "t", args, &mut f)?;
        }
        let p = self.top();
        let mut f = Flat { regs: vec![], seen: HashSet::new(), open: HashSet::new() };
        let args = p.params.iter().map(|x| var(&x.0, x.1.clone())).collect();
        let out = self.unit(p, "m", args, &mut f)?;
        let ps: Vec<(&str, Ty)> = p.params.iter().map(|x| (&x.0[..], x.1.clone())).collect();
        Ok(Circuit::new(&ps, f.regs, out))
    }

    fn unit(&self, p: &Pipe, prefix: &str, args: Vec<E>, f: &mut Flat) -> R<E> {
        let mut u = Unit { pipe: p, prefix: prefix.into(), decls: vec![], labels: BTreeMap::new(), conds: vec![] };
        for (k, a) in p.params.iter().zip(args) {
            u.decls.push(Decl { pos: 0, name: k.0.clone(), ty: k.1.clone(), stage: 0, wire: k.2, what: What::Param(a) });
        }
        for s in &p.body {
            match s {
                PS::Stage(c) => u.conds.push(c.clone()),
                PS::Decl(n) if p.params.iter().any(|p| &p.0 == n) => return Err("?declared again".into()),
                PS::Label(l) => {
                    if u.labels.insert(l.clone(), u.conds.len()).is_some() {
                        return Err(format!("label {l} twice"));
                    }
                }
                _ => {}
            }
        }
        if u.conds.len() != p.depth {
            return Err(format!("{} stages, {} declared", u.conds.len(), p.depth));
        }
        let n = p.depth;
        let mut st = 0;
        for (i, s) in p.body.iter().enumerate() {
            match s {
                PS::Stage(Some(c)) => {
                    if self.latency(&u, c, i + 1, st)?.unwrap_or(0) > 0 {
                        return Err("late condition".into());
                    }
                    st += 1
                }
                PS::Stage(None) => st += 1,
                PS::Let(pat, w, e) => {
                    let l = self.latency(&u, e, i + 1, st)?.unwrap_or(0);
                    if *w && l > 0 {
                        return Err("?late wire".into());
                    }
                    let mut ns = vec![];
                    pat_types(pat, &e.ty, &mut ns);
                    for (name, ty) in ns {
                        u.decls.push(Decl {
                            pos: i + 1,
                            name,
                            ty,
                            stage: if *w { st } else { st + l },
                            wire: *w,
                            what: What::Let(pat.clone(), e.clone()),
                        });
                    }
                }
                PS::Reg(r) => {
                    let l = self.latency(&u, &r.next, i + 2, st)?.unwrap_or(0);
                    u.decls.push(Decl {
                        pos: i + 1,
                        name: r.names()[0].clone(),
                        ty: r.ty.clone(),
                        stage: st + l,
                        wire: false,
                        what: What::Reg(i),
                    });
                }
                _ => {}
            }
        }
        // every statement must be right, used or not
        let real = f;
        let mut scratch = Flat { regs: vec![], seen: HashSet::new(), open: HashSet::new() };
        let f = &mut scratch;
        let mut st = 0;
        for (i, s) in p.body.iter().enumerate() {
            match s {
                PS::Stage(c) => {
                    if let Some(c) = c {
                        self.res(&u, c, i + 1, st, f)?;
                    }
                    st += 1;
                }
                PS::Let(_, _, e) => {
                    self.res(&u, e, i + 1, st, f)?;
                }
                PS::Reg(r) => {
                    self.res(&u, &r.next, i + 2, st, f)?;
                    if let Some((t, v)) = &r.reset {
                        self.res(&u, t, i + 2, st, f)?;
                        self.res(&u, v, i + 2, st, f)?;
                    }
                }
                _ => {}
            }
        }
        if self.latency(&u, &p.out, p.body.len() + 1, n)?.unwrap_or(0) > 0 {
            return Err("late result".into());
        }
        self.res(&u, &p.out, p.body.len() + 1, n, real)
    }

    fn callee(&self, fmt: &str) -> Option<(Option<usize>, &Pipe)> {
        let r = fmt.strip_prefix("inst(")?;
        let (d, r) = r.split_once(") ")?;
        let (n, _) = r.split_once('(')?;
        let p = self.pipes.iter().find(|p| p.name == n)?;
        Some((d.parse().ok(), p))
    }

    /// None: always available
    fn latency(&self, u: &Unit, e: &E, pos: usize, st: usize) -> R<Option<usize>> {
        let all = |es: &[&E]| -> R<Option<usize>> {
            let mut r = None;
            for e in es {
                match (self.latency(u, e, pos, st)?, r) {
                    (Some(a), Some(b)) if a != b => return Err("different delays".into()),
                    (Some(a), _) => r = Some(a),
                    _ => {}
                }
            }
            Ok(r)
        };
        match &*e.k {
            K::Lit(_) => Ok(None),
            K::Var(n) => Ok(match u.find(n, pos) {
                Some(d) if d.wire || d.ty.width() == 0 => None,
                _ => Some(0),
            }),
            K::Op(o, a) => {
                let l = all(&a.iter().collect::<Vec<_>>())?;
                match self.callee(&o.fmt) {
                    Some((_, p)) => Ok(Some(l.unwrap_or(0) + p.depth)),
                    None => Ok(l),
                }
            }
            K::If(c, x, y) => all(&[c, x, y]),
            K::Match(s, arms) => {
                let mut v = vec![s];
                v.extend(arms.iter().map(|x| &x.1));
                all(&v)
            }
            K::MatchG(s, arms) => {
                let mut v = vec![s];
                v.extend(arms.iter().flat_map(|x| x.1.iter().chain([&x.2])));
                all(&v)
            }
            K::Block(s, e) => {
                for x in s {
                    if self.latency(u, &x.2, pos, st)?.unwrap_or(0) > 0 {
                        return Err("late local".into());
                    }
                }
                self.latency(u, e, pos, st)
            }
        }
    }

    /// the value of `e`, written at `pos` in stage `st`
    fn res(&self, u: &Unit, e: &E, pos: usize, st: usize, f: &mut Flat) -> R<E> {
        let mut l = HashSet::new();
        locals(e, &mut l);
        self.res_(u, e, pos, st, f, &l)
    }
    fn res_(&self, u: &Unit, e: &E, pos: usize, st: usize, f: &mut Flat, l: &HashSet<String>) -> R<E> {
        let mk = |k: K| E { ty: e.ty.clone(), k: Arc::new(k) };
        let mut go = |x: &E| self.res_(u, x, pos, st, f, l);
        Ok(match &*e.k {
            K::Lit(_) => e.clone(),
            K::Var(n) if l.contains(n) => e.clone(),
            K::Var(n) if n == "stage.ready" => self.enable(u, st, f)?,
            K::Var(n) if n == "stage.valid" => self.valid(u, st, f)?,
            K::Var(n) => {
                let at = u.stage_of(n, st)?;
                let Some(d) = u.find(n, pos) else { return Err(format!("no {n}")) };
                // inside the stage of a reference, any order of statements is fine
                self.at(u, d, at, f)?
            }
            K::Op(o, a) => {
                let a: Vec<E> = a.iter().map(&mut go).collect::<R<_>>()?;
                match self.callee(&o.fmt) {
                    Some((d, p)) => {
                        if d.is_some_and(|d| d != p.depth) {
                            return Err("wrong depth".into());
                        }
                        // one instance per written instantiation, whoever reads it
                        let k = format!("{}i{:x}_{pos}_{st}", u.prefix, Arc::as_ptr(&e.k) as usize);
                        self.unit(p, &k, a, f)?
                    }
                    None => mk(K::Op(o.clone(), a)),
                }
            }
            K::If(c, x, y) => mk(K::If(go(c)?, go(x)?, go(y)?)),
            K::Match(s, arms) => {
                let s = go(s)?;
                mk(K::Match(s, arms.iter().map(|(p, x)| Ok((p.clone(), go(x)?))).collect::<R<_>>()?))
            }
            K::MatchG(s, arms) => {
                let s = go(s)?;
                mk(K::MatchG(
                    s,
                    arms.iter()
                        .map(|(p, g, x)| Ok((p.clone(), g.as_ref().map(&mut go).transpose()?, go(x)?)))
                        .collect::<R<_>>()?,
                ))
            }
            K::Block(ss, x) => {
                let ss = ss.iter().map(|s| Ok((s.0.clone(), s.1.clone(), go(&s.2)?))).collect::<R<_>>()?;
                mk(K::Block(ss, go(x)?))
            }
        })
    }

    /// the value of a variable as seen in stage `k`
    fn at(&self, u: &Unit, d: &Decl, k: usize, f: &mut Flat) -> R<E> {
        if k > u.conds.len() {
            return Err("no such stage".into());
        }
        if k < d.stage && d.wire {
            return Err("?wire before its definition".into());
        }
        if k < d.stage {
            return Err(format!("{} before it is ready", d.name));
        }
        if k == d.stage || d.wire || d.ty.width() == 0 {
            return match &d.what {
                What::Param(e) => Ok(e.clone()),
                What::Let(p, e) => {
                    let st = u.stage_at(d.pos);
                    let me = format!("{}_{}", u.prefix, d.pos);
                    if !f.open.insert(me.clone()) {
                        return Err("?combinational loop".into());
                    }
                    let e = self.res(u, e, d.pos, st, f);
                    f.open.remove(&me);
                    let e = e?;
                    Ok(match p {
                        Pat::Bind(_) => e,
                        _ => mtch(e, vec![(p.clone(), var(&d.name, d.ty.clone()))]),
                    })
                }
                What::Reg(i) => {
                    let name = format!("{}_r{i}_{}", u.prefix, d.name);
                    if f.seen.insert(name.clone()) {
                        let PS::Reg(r) = &u.pipe.body[*i] else { unreachable!() };
                        let st = u.stage_at(d.pos);
                        let next = self.res(u, &r.next, i + 2, st, f)?;
                        let reset = match &r.reset {
                            Some((t, v)) => Some((self.res(u, t, i + 2, st, f)?, self.res(u, v, i + 2, st, f)?)),
                            None => None,
                        };
                        let mut q = Reg::new(&name, r.ty.clone(), next);
                        q.reset = reset;
                        q.init = r.init.clone();
                        f.regs.push(q);
                    }
                    Ok(var(&name, d.ty.clone()))
                }
            };
        }
        let name = format!("{}_v{}_{}_s{k}", u.prefix, d.pos, d.name);
        let v = var(&name, d.ty.clone());
        if f.seen.insert(name.clone()) {
            let prev = self.at(u, d, k - 1, f)?;
            let next = if u.stalls(k - 1) { ite(self.enable(u, k - 1, f)?, prev, v.clone()) } else { prev };
            f.regs.push(Reg::new(&name, d.ty.clone(), next));
        }
        Ok(v)
    }

    /// whether the marker after stage `k` lets values through
    fn enable(&self, u: &Unit, k: usize, f: &mut Flat) -> R<E> {
        let mut r: Option<E> = None;
        for j in (k..u.conds.len()).rev() {
            if let Some(c) = &u.conds[j] {
                let c = self.res(u, c, u.marker(j) + 1, j, f)?;
                r = Some(match r {
                    None => c,
                    Some(r) => and_(c, r),
                });
            }
        }
        Ok(r.unwrap_or(lit(Val::B(true), Ty::Bool)))
    }

    fn valid(&self, u: &Unit, k: usize, f: &mut Flat) -> R<E> {
        if k == 0 {
            return Ok(lit(Val::B(true), Ty::Bool));
        }
        let prev = self.valid(u, k - 1, f)?;
        if !u.conds[..k].iter().any(|c| c.is_some()) && !u.stalls(k - 1) {
            // nothing has stalled on the way
            return Ok(prev);
        }
        let name = format!("{}_valid{k}", u.prefix);
        let v = var(&name, Ty::Bool);
        if f.seen.insert(name.clone()) {
            let mut next = if u.stalls(k - 1) { ite(self.enable(u, k - 1, f)?, prev, v.clone()) } else { prev };
            if let Some(c) = &u.conds[k - 1] {
                let c = self.res(u, c, u.marker(k - 1) + 1, k - 1, f)?;
                let bubble = and_(self.enable(u, k, f)?, not_(c));
                next = and_(not_(bubble), next);
            }
            f.regs.push(Reg::new(&name, Ty::Bool, next));
        }
        Ok(v)
    }

    pub fn src(&self) -> String {
        let mut d = vec![];
        for p in &self.pipes {
            for x in &p.params {
                x.1.defs(&mut d);
            }
            p.out.defs(&mut d);
            for s in &p.body {
                match s {
                    PS::Let(_, _, e) => e.defs(&mut d),
                    PS::Stage(Some(c)) => c.defs(&mut d),
                    PS::Reg(r) => {
                        r.ty.defs(&mut d);
                        r.next.defs(&mut d);
                    }
                    _ => {}
                }
            }
        }
        format!("{}\n{}", d.join("\n"), self.pipes.iter().map(|p| p.src() + "\n").collect::<String>())
    }
}

/// names bound by an irrefutable pattern, with their types
pub fn pat_types(p: &Pat, t: &Ty, out: &mut Vec<(String, Ty)>) {
    let mut names = vec![];
    p.bound(&mut names);
    if let Pat::Bind(n) = p {
        out.push((n.clone(), t.clone()));
        return;
    }
    for n in names {
        // the type of the bound value, by matching a value of the type
        out.push((n.clone(), find_ty(p, t, &n).expect("bound name")));
    }
}
fn find_ty(p: &Pat, t: &Ty, n: &str) -> Option<Ty> {
    match (p, t) {
        (Pat::Bind(m), _) => (m == n).then(|| t.clone()),
        (Pat::Tup(ps), Ty::Tup(ts)) => ps.iter().zip(ts).find_map(|(p, t)| find_ty(p, t, n)),
        (Pat::Arr(ps), Ty::Arr(t, _)) => ps.iter().find_map(|p| find_ty(p, t, n)),
        _ => None,
    }
}

impl Unit<'_> {
    fn base<'b>(&self, n: &'b str) -> (&'b str, bool) {
        match n.strip_prefix("stage(").and_then(|r| r.split_once(").")) {
            Some((_, v)) => (v, true),
            None => (n, false),
        }
    }
    /// the declaration a name written in statement `pos` (1 based) refers to
    fn find(&self, n: &str, pos: usize) -> Option<&Decl> {
        let (v, r) = self.base(n);
        // a `decl` makes the next definition visible
        let decl = self
            .pipe
            .body
            .iter()
            .enumerate()
            .filter(|(i, s)| i + 1 < pos && matches!(s, PS::Decl(d) if d == v))
            .map(|(i, _)| i + 1)
            .last();
        let prior = self.decls.iter().filter(|d| d.name == v && d.pos < pos).last();
        if let Some(k) = decl {
            if prior.is_none_or(|p| p.pos < k) {
                return self.decls.iter().find(|d| d.name == v && d.pos > k);
            }
        }
        if prior.is_none() && r {
            return self.decls.iter().find(|d| d.name == v && d.pos >= pos);
        }
        prior
    }
    /// the stage a name written in stage `st` is read in
    fn stage_of(&self, n: &str, st: usize) -> R<usize> {
        let Some((s, _)) = n.strip_prefix("stage(").and_then(|r| r.split_once(").")) else { return Ok(st) };
        if let Ok(k) = s.parse::<i64>() {
            let a = st as i64 + k;
            if a < 0 || a as usize > self.conds.len() {
                return Err("no such stage".into());
            }
            return Ok(a as usize);
        }
        self.labels.get(s).copied().ok_or(format!("no label {s}"))
    }
    fn stalls(&self, k: usize) -> bool {
        self.conds[k..].iter().any(|c| c.is_some())
    }
    fn marker(&self, j: usize) -> usize {
        self.pipe.body.iter().enumerate().filter(|x| matches!(x.1, PS::Stage(_))).nth(j).unwrap().0
    }
    fn stage_at(&self, pos: usize) -> usize {
        self.pipe.body[..pos - 1].iter().filter(|s| matches!(s, PS::Stage(_))).count()
    }
}

impl Pipe {
    pub fn new(name: &str, depth: usize, params: &[(&str, Ty)], body: Vec<PS>, out: E) -> Pipe {
        Pipe {
            name: name.into(),
            depth,
            params: params
                .iter()
                .map(|(n, t)| match n.strip_prefix("wire ") {
                    Some(n) => (n.to_string(), t.clone(), true),
                    None => (n.to_string(), t.clone(), false),
                })
                .collect(),
            body,
            out,
        }
    }
    pub fn body_src(&self) -> String {
        let mut s = String::new();
        for x in &self.body {
            s += &match x {
                PS::Let(p, w, e) => format!("let {}{} = {}; ", if *w { "wire " } else { "" }, p.show(), e.show()),
                PS::Reg(r) => r.show(&["clk"]) + " ",
                PS::Decl(n) => format!("decl {n}; "),
                PS::Stage(None) => "reg; ".into(),
                PS::Stage(Some(c)) => format!("reg[{}]; ", c.show()),
                PS::Label(l) => format!("'{l} "),
            };
        }
        format!("{s}{}", self.out.show())
    }
    pub fn header(&self) -> String {
        format!(
            "pipeline({}) {}(clk: clock{}) -> {}",
            self.depth,
            self.name,
            self.params
                .iter()
                .map(|(n, t, w)| format!(", {}{n}: {}", if *w { "wire " } else { "" }, t.show()))
                .collect::<String>(),
            self.out.ty.show()
        )
    }
    pub fn src(&self) -> String {
        format!("{} {{ {} }}", self.header(), self.body_src())
    }
}
