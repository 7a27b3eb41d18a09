//! P12: inverted wires carry values backwards and are driven exactly once.
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;

/// the shape of a port: inverted leaves, forward leaves (all numbered), and containers
#[derive(Clone, Debug, PartialEq)]
enum Sh {
    L(usize),
    F(usize),
    T(Vec<Sh>),
    S(String, Vec<Sh>),
    A(Vec<Sh>),
    /// an inverted array of these leaves, `inv [T; N]`
    I(Vec<usize>),
}
use Sh::*;

impl Sh {
    fn leaves(&self, out: &mut Vec<usize>) {
        match self {
            L(i) => out.push(*i),
            F(_) => {}
            I(v) => out.extend(v),
            T(v) | S(_, v) | A(v) => v.iter().for_each(|s| s.leaves(out)),
        }
    }
    fn ls(&self) -> Vec<usize> {
        let mut v = vec![];
        self.leaves(&mut v);
        v
    }
    fn fwd(&self, out: &mut Vec<usize>) {
        match self {
            L(_) | I(_) => {}
            F(i) => out.push(*i),
            T(v) | S(_, v) | A(v) => v.iter().for_each(|s| s.fwd(out)),
        }
    }
    fn fs(&self) -> Vec<usize> {
        let mut v = vec![];
        self.fwd(&mut v);
        v
    }
    fn ty(&self, tys: &[Ty]) -> String {
        match self {
            L(i) => format!("inv {}", tys[*i].show()),
            F(i) => tys[*i].show(),
            I(v) => format!("inv [{}; {}]", tys[v[0]].show(), v.len()),
            T(v) => {
                let p: Vec<String> = v.iter().map(|s| s.ty(tys)).collect();
                if p.len() == 1 { format!("({},)", p[0]) } else { format!("({})", p.join(", ")) }
            }
            S(n, _) => n.clone(),
            A(v) => format!("[{}; {}]", v[0].ty(tys), v.len()),
        }
    }
    fn defs(&self, tys: &[Ty], out: &mut Vec<String>) {
        match self {
            L(i) | F(i) => tys[*i].defs(out),
            I(_) => {}
            T(v) | A(v) => v.iter().for_each(|s| s.defs(tys, out)),
            S(n, v) => {
                v.iter().for_each(|s| s.defs(tys, out));
                let d = format!(
                    "struct {n} {{ {} }}",
                    v.iter().enumerate().map(|(k, s)| format!("f{k}: {}", s.ty(tys))).collect::<Vec<_>>().join(", ")
                );
                if !out.contains(&d) {
                    out.push(d);
                }
            }
        }
    }
    /// arrays have elements of equal types
    fn valid(&self, tys: &[Ty]) -> bool {
        match self {
            L(_) | F(_) | I(_) => true,
            T(v) | S(_, v) => v.iter().all(|s| s.valid(tys)),
            A(v) => v.iter().all(|s| s.valid(tys) && s.ty(tys) == v[0].ty(tys)),
        }
    }
    fn kids(&self) -> Vec<(String, &Sh)> {
        match self {
            L(_) | F(_) | I(_) => vec![],
            T(v) => v.iter().enumerate().map(|(k, s)| (format!(".{k}"), s)).collect(),
            S(_, v) => v.iter().enumerate().map(|(k, s)| (format!(".f{k}"), s)).collect(),
            A(v) => v.iter().enumerate().map(|(k, s)| (format!("[{k}]"), s)).collect(),
        }
    }
    fn paths<'a>(&'a self, base: &str, out: &mut Vec<(String, &'a Sh)>) {
        out.push((base.to_string(), self));
        for (p, s) in self.kids() {
            s.paths(&format!("{base}{p}"), out);
        }
    }
    /// constructor expression from expressions for the leaves
    fn mk(&self, leaf: &dyn Fn(usize) -> String) -> String {
        match self {
            L(i) | F(i) => leaf(*i),
            I(_) => unreachable!(),
            T(v) => {
                let p: Vec<String> = v.iter().map(|s| s.mk(leaf)).collect();
                if p.len() == 1 { format!("({},)", p[0]) } else { format!("({})", p.join(", ")) }
            }
            S(n, v) => format!("{n}({})", v.iter().map(|s| s.mk(leaf)).collect::<Vec<_>>().join(", ")),
            A(v) => format!("[{}]", v.iter().map(|s| s.mk(leaf)).collect::<Vec<_>>().join(", ")),
        }
    }
    /// the leaf at every position, most significant first, of the forward and the backward half
    fn order(&self, back: bool, out: &mut Vec<usize>) {
        match self {
            L(i) => {
                if back {
                    out.push(*i)
                }
            }
            F(i) => {
                if !back {
                    out.push(*i)
                }
            }
            I(v) => {
                if back {
                    out.extend(v.iter().rev())
                }
            }
            T(v) | S(_, v) => v.iter().for_each(|s| s.order(back, out)),
            A(v) => v.iter().rev().for_each(|s| s.order(back, out)),
        }
    }
}

fn l(i: usize) -> Sh {
    L(i)
}
fn st(n: &str, v: Vec<Sh>) -> Sh {
    S(n.to_string(), v)
}

// ------------------------------------------------------------------------------------------- ownership

/// shapes of the ownership family; leaves numbered from 0, forward leaves from 10
fn small_shapes(thorough: bool) -> Vec<Sh> {
    let mut v = vec![
        l(0),
        T(vec![l(0), F(10)]),
        T(vec![l(0), l(1)]),
        st("P", vec![l(0), F(10)]),
        st("P", vec![l(0), l(1)]),
        A(vec![l(0), l(1)]),
        A(vec![l(0)]),
        T(vec![T(vec![l(0), F(10)]), l(1)]),
        st("P", vec![T(vec![F(10), l(0)]), l(1)]),
        A(vec![T(vec![l(0), F(10)]), T(vec![l(1), F(11)])]),
        T(vec![A(vec![l(0), l(1)]), F(10)]),
        A(vec![st("Q", vec![F(10), l(0)]), st("Q", vec![F(11), l(1)])]),
    ];
    if thorough {
        v.extend([
            T(vec![l(0)]),
            st("P", vec![st("Q", vec![l(0), F(10)])]),
            A(vec![A(vec![l(0), l(1)])]),
            T(vec![l(0), l(1), l(2)]),
            A(vec![l(0), l(1), l(2)]),
            T(vec![T(vec![l(0), l(1)]), l(2)]),
            T(vec![T(vec![T(vec![l(0)]), F(10)]), l(1)]),
            st("P", vec![A(vec![l(0), l(1)]), F(10), l(2)]),
        ]);
    }
    v
}

/// a program under construction with the ownership model
#[derive(Clone)]
struct Own {
    stmts: Vec<String>,
    defs: Vec<String>,
    /// variables, with resource numbers as leaves
    vars: Vec<(String, Sh)>,
    /// resource: (wire, still to be consumed)
    res: Vec<(usize, bool)>,
    /// driver input of every wire
    drv: Vec<Option<usize>>,
    nsets: usize,
    /// additional observations (expression, wire)
    obs: Vec<(String, usize)>,
    bad: bool,
    trace: String,
    n: usize,
}
impl Own {
    fn consume(&mut self, s: &Sh) {
        for r in s.ls() {
            if !self.res[r].1 {
                self.bad = true;
            }
            self.res[r].1 = false;
        }
    }
    fn renew(&mut self, s: &Sh) -> Sh {
        match s {
            L(r) => {
                self.res.push((self.res[*r].0, true));
                L(self.res.len() - 1)
            }
            F(i) => F(*i),
            I(v) => I(v.clone()),
            T(v) => T(v.iter().map(|s| self.renew(s)).collect()),
            S(n, v) => S(n.clone(), v.iter().map(|s| self.renew(s)).collect()),
            A(v) => A(v.iter().map(|s| self.renew(s)).collect()),
        }
    }
    /// the wire is driven by a new input
    fn drive(&mut self, r: usize) -> String {
        let k = self.nsets;
        self.nsets += 1;
        let w = self.res[r].0;
        self.drv[w] = Some(k);
        format!("v{k}")
    }
    fn name(&mut self) -> String {
        self.n += 1;
        format!("q{}", self.n)
    }
    fn set(&mut self, path: &str, s: &Sh, kind: usize) {
        let L(r) = s else { unreachable!() };
        self.consume(s);
        let v = self.drive(*r);
        let q = self.name();
        let d = |o: &mut Own, t: &str| {
            if !o.defs.iter().any(|d| d == t) {
                o.defs.push(t.into())
            }
        };
        let t = match kind {
            0 => format!("set {path} = {v};"),
            1 => {
                d(self, "entity drv(p: inv bool, v: bool) { set p = v; }");
                format!("let _ = inst drv({path}, {v});")
            }
            2 => {
                d(self, "fn fdrv(v: bool, p: inv bool) -> bool { set p = v; v }");
                format!("let {q} = fdrv$(p: {path}, v: {v});")
            }
            3 => format!("let {q} = {{ set {path} = {v}; true }};"),
            4 => format!("let {q} = if v0 {{ set {path} = {v}; true }} else {{ false }};"),
            5 => format!("let {q} = if v0 {{ false }} else {{ set {path} = {v}; true }};"),
            6 => format!("let {q} = match v0 {{ true => true, false => {{ set {path} = {v}; true }} }};"),
            7 => format!("assert {{ set {path} = {v}; true }};"),
            8 => format!("let {q} = fn |x, y| {{ set x = y; true }}; let {q}r = {q}.call(({path}, {v}));"),
            9 => {
                let s = format!("let {q}c = {path}; let {q} = fn || {{ set {q}c = {v}; true }}; let {q}r = {q}.call(());");
                s
            }
            10 => format!("set {{ {path} }} = {v};"),
            11 => format!("let ({q}f, {q}b) = port(); set {path} = {q}f; set {q}b = {v};"),
            12 => format!("let {q} = !{{ set {path} = {v}; true }};"),
            13 => format!("let {q} = ({{ set {path} = {v}; true }}, [true; 1]);"),
            14 => format!("let {q} = match v0 {{ _ if {{ set {path} = {v}; true }} => true, _ => false }};"),
            15 => format!("set inst ide({path}) = {v};"),
            16 => format!("set ({path},).0 = {v};"),
            17 => format!("set [{path}][0] = {v};"),
            18 => format!("let _ = match ({path}, {v}) {{ (x, y) => {{ set x = y; true }} }};"),
            19 => format!("decl {q}; set {q} = {v}; let {q} = {path};"),
            20 => {
                let u = format!("QU{}_", self.stmts.len());
                d(self, &format!("trait Drv{u} {{ fn go{u}(self, v: bool) -> bool; }} impl Drv{u} for inv bool {{ fn go{u}(self, v: bool) -> bool {{ set self = v; v }} }}"));
                format!("let {q} = ({path}).go{u}({v});")
            }
            21 => format!("let {q} = {{ let x = {path}; let x = x; set x = {v}; true }};"),
            22 => format!("let _ = {{ set {path} = {v}; 5u3 }};"),
            _ => unreachable!(),
        };
        if kind == 15 {
            d(self, "entity ide<X>(x: X) -> X { x }");
        }
        self.stmts.push(t);
    }
    const SETS: usize = 23;
    /// every operation on every path; `wide`: with the full alphabet
    fn ops(&self, wide: bool) -> Vec<Own> {
        let mut out = vec![];
        let mut ps: Vec<(String, Sh)> = vec![];
        for (n, s) in &self.vars {
            let mut v = vec![];
            s.paths(n, &mut v);
            ps.extend(v.into_iter().map(|(p, s)| (p, s.clone())));
        }
        for (p, s) in &ps {
            if s.ls().is_empty() {
                continue;
            }
            let mut go = |t: String, f: &dyn Fn(&mut Own)| {
                let mut o = self.clone();
                o.trace = format!("{}/{t}", o.trace);
                f(&mut o);
                out.push(o);
            };
            if let L(r) = s {
                for k in 0..if wide { Self::SETS } else { 2 } {
                    go(format!("{p}:set{k}"), &|o| o.set(p, s, k));
                }
                if wide {
                    go(format!("{p}:inspect"), &|o| {
                        let w = o.res[*r].0;
                        o.consume(s);
                        let q = o.name();
                        let n = o.renew(s);
                        o.stmts.push(format!("let ({q}f, {q}) = ({p}).inspect();"));
                        o.obs.push((format!("{q}f"), w));
                        o.vars.push((q, n));
                    });
                    go(format!("{p}:read"), &|o| {
                        let w = o.res[*r].0;
                        let q = o.name();
                        o.stmts.push(format!("let {q} = inst std::ports::read_mut_wire({p});"));
                        o.obs.push((q, w));
                    });
                    go(format!("{p}:drop"), &|o| {
                        o.consume(s);
                        o.renew(s);
                        o.stmts.push(format!("let _ = {p};"));
                    });
                }
            }
            // another name for it
            let ways: &[(&str, &str)] = if wide {
                &[
                    ("let", "let {q} = {p};"),
                    ("ent", "let {q} = inst ide({p});"),
                    ("fn", "let {q} = idf({p});"),
                    ("block", "let {q} = { let x = {p}; x };"),
                    ("lambda", "let {q}l = fn |x| x; let {q} = {q}l.call(({p},));"),
                    ("cap", "let {q}c = {p}; let {q}l = fn || {q}c; let {q} = {q}l.call(());"),
                    ("tup", "let ({q}, {q}t) = ({p}, v0);"),
                    ("arr", "let [{q}] = [{p}];"),
                    ("port", "let ({q}, {q}b): ({t}, inv {t}) = port(); set {q}b = {p};"),
                    ("mlet", "let {q} = match {p} { x => x };"),
                ]
            } else {
                &[("let", "let {q} = {p};"), ("ent", "let {q} = inst ide({p});")]
            };
            for (k, w) in ways {
                if *k == "mlet" {
                    continue;
                }
                go(format!("{p}:{k}"), &|o| {
                    o.consume(s);
                    let q = o.name();
                    let t = s.ty(&BOOLS);
                    let n = o.renew(s);
                    for (u, d) in [("ide", "entity ide<X>(x: X) -> X { x }"), ("idf", "fn idf<X>(x: X) -> X { x }")] {
                        if w.contains(u) && !o.defs.iter().any(|x| x == d) {
                            o.defs.push(d.into());
                        }
                    }
                    o.stmts.push(w.replace("{q}", &q).replace("{p}", p).replace("{t}", &t));
                    o.vars.push((q, n));
                });
            }
            if !matches!(s, L(_)) {
                // take it apart by a pattern
                for how in 0..if wide { 2 } else { 1 } {
                    go(format!("{p}:split{how}"), &|o| {
                        o.consume(s);
                        let n = o.renew(s);
                        let mut names = vec![];
                        let kids: Vec<Sh> = match &n {
                            T(v) | S(_, v) | A(v) => v.clone(),
                            _ => unreachable!(),
                        };
                        for k in kids {
                            let q = o.name();
                            names.push(q.clone());
                            o.vars.push((q, k));
                        }
                        let pat = match s {
                            T(_) if names.len() == 1 => format!("({},)", names[0]),
                            T(_) => format!("({})", names.join(", ")),
                            S(n, _) => format!("{n}({})", names.join(", ")),
                            _ => format!("[{}]", names.join(", ")),
                        };
                        if how == 0 {
                            o.stmts.push(format!("let {pat} = {p};"));
                        } else {
                            // through a match whose arm hands on all parts
                            let t = if names.len() == 1 { format!("({},)", names[0]) } else { format!("({})", names.join(", ")) };
                            o.stmts.push(format!("let m{0} = {{ let {pat} = {p}; {t} }}; let {t} = m{0};", o.n));
                        }
                    });
                }
                // a match which drives all parts
                go(format!("{p}:match"), &|o| {
                    o.consume(s);
                    let mut pat = s.clone();
                    let mut body = String::new();
                    fn rename(o: &mut Own, s: &Sh, pat: &mut String, body: &mut String) {
                        match s {
                            L(r) => {
                                let q = o.name();
                                let v = o.drive(*r);
                                pat.push_str(&q);
                                body.push_str(&format!("set {q} = {v}; "));
                            }
                            F(_) => pat.push('_'),
                            I(_) => unreachable!(),
                            T(v) | S(_, v) | A(v) => {
                                let (a, z) = match s {
                                    T(_) => ("(".to_string(), if v.len() == 1 { ",)" } else { ")" }),
                                    S(n, _) => (format!("{n}("), ")"),
                                    _ => ("[".to_string(), "]"),
                                };
                                pat.push_str(&a);
                                for (k, s) in v.iter().enumerate() {
                                    if k > 0 {
                                        pat.push_str(", ");
                                    }
                                    rename(o, s, pat, body);
                                }
                                pat.push_str(z);
                            }
                        }
                    }
                    let mut ps = String::new();
                    rename(o, &pat, &mut ps, &mut body);
                    pat = s.clone();
                    let _ = pat;
                    let q = o.name();
                    o.stmts.push(format!("let {q} = match {p} {{ {ps} => {{ {body}true }} }};"));
                });
                // a unit which drives all parts
                go(format!("{p}:unit"), &|o| {
                    o.consume(s);
                    let ls = s.ls();
                    let vs: Vec<String> = ls.iter().map(|r| o.drive(*r)).collect();
                    let q = o.name();
                    let mut paths = vec![];
                    s.paths("p", &mut paths);
                    let body: String = paths
                        .iter()
                        .filter(|x| matches!(x.1, L(_)))
                        .enumerate()
                        .map(|(k, x)| format!("set {} = v{k}; ", x.0))
                        .collect();
                    let ps: String = (0..ls.len()).map(|k| format!(", v{k}: bool")).collect();
                    o.defs.push(format!("entity u{q}(p: {}{ps}) {{ {body}}}", s.ty(&BOOLS)));
                    o.stmts.push(format!("let _ = inst u{q}({p}, {});", vs.join(", ")));
                });
                if let A(v) = s {
                    for a in 0..v.len() {
                        for z in a + 1..=v.len() {
                            go(format!("{p}:range{a}{z}"), &|o| {
                                let part = A(v[a..z].to_vec());
                                o.consume(&part);
                                let q = o.name();
                                let n = o.renew(&part);
                                o.stmts.push(format!("let {q} = {p}[{a}..{z}];"));
                                o.vars.push((q, n));
                            });
                        }
                    }
                }
                if wide {
                    // read a forward part on the way
                    let mut v = vec![];
                    s.paths(p, &mut v);
                    for (fp, f) in v {
                        if let F(_) = f {
                            let fp = fp.clone();
                            go(format!("{p}:touch{fp}"), &|o| {
                                let q = o.name();
                                o.stmts.push(format!("let {q} = {fp};"));
                            });
                        }
                    }
                }
            }
        }
        // two things in a new tuple (or the same thing twice)
        if wide {
            for (i, (p, s)) in ps.iter().enumerate() {
                for (p2, s2) in ps.iter().skip(i) {
                    if s.ls().is_empty() || s2.ls().is_empty() {
                        continue;
                    }
                    let mut o = self.clone();
                    o.trace = format!("{}/{p}+{p2}", o.trace);
                    o.consume(s);
                    o.consume(s2);
                    let q = o.name();
                    let n = T(vec![o.renew(s), o.renew(s2)]);
                    o.stmts.push(format!("let {q} = ({p}, {p2});"));
                    o.vars.push((q, n));
                    out.push(o);
                }
            }
        }
        out
    }
    /// the resources still to be consumed, with an expression for each if there is one
    fn open(&self) -> Vec<(usize, Option<(String, Sh)>)> {
        let mut out = vec![];
        for (r, (_, open)) in self.res.iter().enumerate() {
            if !open {
                continue;
            }
            let mut e = None;
            for (n, s) in &self.vars {
                let mut v = vec![];
                s.paths(n, &mut v);
                for (p, s) in v {
                    if *s == L(r) {
                        e = Some((p, s.clone()));
                    }
                }
            }
            out.push((r, e));
        }
        out
    }
    /// `read_mut_wire` of a part of something which is then handed on as a whole: the known
    /// finding, which is enumerated by one representative
    fn reads_part(&self) -> bool {
        let paths: Vec<(&str, &str)> = self
            .trace
            .split('/')
            .flat_map(|t| match t.split_once(':') {
                Some((p, op)) => vec![(p, op)],
                None => t.split('+').map(|p| (p, "")).collect(),
            })
            .collect();
        paths.iter().any(|(r, op)| {
            *op == "read" && paths.iter().any(|(p, _)| r.strip_prefix(p).is_some_and(|x| x.starts_with(['.', '['])))
        })
    }
    /// the finished program without the resources in `skip`
    fn finish(&self, fam: &str, shape: usize, start: Start, sh: &Sh, skip: &[usize]) -> VCase {
        let mut o = self.clone();
        let mut ok = !o.bad;
        for (r, e) in self.open() {
            match e {
                Some((p, s)) if !skip.contains(&r) => o.set(&p, &s, 0),
                _ => ok = false,
            }
        }
        let key = format!("{fam}/{shape}/{}{}{}", start.name(), o.trace, skip.iter().map(|r| format!("/-{r}")).collect::<String>());
        let nw = o.drv.len();
        let mut defs = o.defs.clone();
        let mut d = vec![];
        sh.defs(&BOOLS, &mut d);
        d.append(&mut defs);
        let defs = d.join(" ");
        let nin = o.nsets.max(1);
        let ps: Vec<String> = (0..nin).map(|k| format!("v{k}: bool")).collect();
        let fwd = |_: usize| "v0".to_string();
        let ports: String = (0..nw).map(|k| format!("let (w{k}, b{k}) = port(); ")).collect();
        let lf = |i: usize| if i >= 10 { fwd(i) } else { format!("b{i}") };
        let mut outs: Vec<(String, usize)> = vec![];
        let src = match start {
            Start::Local => {
                outs.extend((0..nw).map(|k| (format!("w{k}"), k)));
                outs.extend(o.obs.clone());
                let res: Vec<String> = outs.iter().map(|x| x.0.clone()).collect();
                let tys: Vec<&str> = outs.iter().map(|_| "bool").collect();
                format!(
                    "{defs} entity top({}) -> ({},) {{ {ports}let p = {}; {} ({},) }}",
                    ps.join(", "),
                    tys.join(", "),
                    sh.mk(&lf),
                    o.stmts.join(" "),
                    res.join(", ")
                )
            }
            Start::Param => {
                outs.extend(o.obs.clone());
                let res: String = outs.iter().map(|x| format!("{}, ", x.0)).collect();
                let tys: String = outs.iter().map(|_| "bool, ").collect();
                let t = sh.ty(&BOOLS);
                let sub = format!("entity sub(p: {t}, {}) -> (bool, {tys}) {{ {} (true, {res}) }}", ps.join(", "), o.stmts.join(" "));
                let args: Vec<String> = (0..nin).map(|k| format!("v{k}")).collect();
                let ws: String = (0..nw).map(|k| format!("w{k}, ")).collect();
                let wt: String = (0..nw).map(|_| "bool, ").collect();
                let mut all: Vec<(String, usize)> = (0..nw).map(|k| (String::new(), k)).collect();
                all.extend(outs.iter().cloned());
                let sel: String = (0..outs.len()).map(|k| format!("r.{}, ", k + 1)).collect();
                outs = all;
                format!(
                    "{defs} {sub} entity top({}) -> ({wt}{tys}) {{ {ports}let r = inst sub({}, {}); ({ws}{sel}) }}",
                    ps.join(", "),
                    sh.mk(&lf),
                    args.join(", ")
                )
            }
            Start::Made => {
                // a unit which makes the port and returns both halves
                outs.extend((0..nw).map(|k| (format!("w{k}"), k)));
                outs.extend(o.obs.clone());
                let t = sh.ty(&BOOLS);
                let wt: String = (0..nw).map(|_| "bool, ").collect();
                let ws: String = (0..nw).map(|k| format!("w{k}, ")).collect();
                let mk = format!("entity mk(v0: bool) -> (({wt}), {t}) {{ {ports}(({ws}), {}) }}", sh.mk(&lf));
                let res: Vec<String> = outs.iter().map(|x| x.0.clone()).collect();
                let tys: Vec<&str> = outs.iter().map(|_| "bool").collect();
                format!(
                    "{defs} {mk} entity top({}) -> ({},) {{ let (({ws}), p) = inst mk(v0); {} ({},) }}",
                    ps.join(", "),
                    tys.join(", "),
                    o.stmts.join(" "),
                    res.join(", ")
                )
            }
        };
        // trait and method names are shared by everything which is compiled together
        let src = src.replace("QU", &format!("{}_", super::types::fresh()));
        if !ok {
            return VCase::reject(key, src);
        }
        let names: Vec<String> = (0..nin).map(|k| format!("v{k}")).collect();
        let ins: Vec<(&str, u32)> = names.iter().map(|n| (n.as_str(), 1)).collect();
        let drivers: Vec<usize> = outs.iter().map(|x| o.drv[x.1].unwrap()).collect();
        VCase::case(Case::comb(key, src, &ins, drivers.len() as u32, move |i| {
            Some(drivers.iter().fold(0, |a, d| a << 1 | i[*d]))
        }))
    }
}
static BOOLS: std::sync::LazyLock<Vec<Ty>> = std::sync::LazyLock::new(|| vec![Ty::Bool; 1000]);

#[derive(Clone, Copy)]
enum Start {
    Local,
    Param,
    Made,
}
impl Start {
    fn name(self) -> &'static str {
        match self {
            Start::Local => "local",
            Start::Param => "param",
            Start::Made => "made",
        }
    }
}

fn own_family(thorough: bool, out: &mut Vec<VCase>) {
    for (k, sh) in small_shapes(thorough).iter().enumerate() {
        for start in [Start::Local, Start::Param, Start::Made] {
            let nw = sh.ls().len();
            let o = Own {
                stmts: vec![],
                defs: vec![],
                vars: vec![("p".into(), sh.clone())],
                res: (0..nw).map(|w| (w, true)).collect(),
                drv: vec![None; nw],
                nsets: 0,
                obs: vec![],
                bad: false,
                trace: String::new(),
                n: 0,
            };
            let emit = |o: &Own, out: &mut Vec<VCase>, omit: bool| {
                if o.reads_part() && !(k == 1 && matches!(start, Start::Local) && o.trace == "/p.0:read/p:ent") {
                    return;
                }
                out.push(o.finish("own", k, start, sh, &[]));
                if omit && !o.bad {
                    for (r, _) in o.open() {
                        out.push(o.finish("own", k, start, sh, &[r]));
                    }
                }
            };
            emit(&o, out, true);
            let local = matches!(start, Start::Local);
            // one or two operations from the full alphabet
            for a in o.ops(true) {
                emit(&a, out, true);
                if a.bad || !(local || thorough) {
                    continue;
                }
                for c in a.ops(thorough || nw == 1) {
                    emit(&c, out, false);
                }
            }
            // three operations from the small one
            if local || thorough {
                for a in o.ops(false) {
                    for c in a.ops(false).into_iter().filter(|_| !a.bad) {
                        for d in c.ops(false).into_iter().filter(|_| !c.bad && (thorough || nw == 1 || k < 4)) {
                            emit(&d, out, thorough);
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------- chains

/// one step of a chain: definitions, statements turning `a` into `z`, and the shape of `z`
struct Hop {
    defs: String,
    stmts: String,
    sh: Sh,
}
const HOPS: usize = 25;

/// a chain of `hops` between the port and its sink
fn hop(k: usize, id: usize, a: &str, z: &str, s: &Sh, tys: &[Ty]) -> Option<Hop> {
    let t = s.ty(tys);
    let ls = s.ls();
    let fs = s.fs();
    let (kids, comp): (Vec<Sh>, bool) = match s {
        T(v) | S(_, v) | A(v) => (v.clone(), true),
        _ => (vec![], false),
    };
    let same = |v: &[usize]| v.iter().all(|i| tys[*i] == tys[v[0]]);
    let hop = |defs: String, stmts: String, sh: Sh| Some(Hop { defs, stmts, sh });
    let paths = |base: &str| {
        let mut v = vec![];
        s.paths(base, &mut v);
        v.into_iter().map(|(p, s)| (p, s.clone())).collect::<Vec<_>>()
    };
    let leaf_path = |base: &str, i: usize| paths(base).into_iter().find(|(_, s)| *s == L(i) || *s == F(i)).map(|x| x.0);
    match k {
        0 => hop(format!("entity h{id}(p: {t}) -> {t} {{ p }}"), format!("let {z} = inst h{id}({a});"), s.clone()),
        1 => hop(format!("fn h{id}<X>(x: X) -> X {{ x }}"), format!("let {z} = h{id}({a});"), s.clone()),
        2 => hop(String::new(), format!("let {z}l = fn |x| x; let {z}: {t} = {z}l.call(({a},));"), s.clone()),
        3 => hop(String::new(), format!("let {z}l = fn || {a}; let {z}: {t} = {z}l.call(());"), s.clone()),
        4 => hop(String::new(), format!("let {z} = {{ let r = {a}; r }};"), s.clone()),
        5 => hop(String::new(), format!("let ({z}, {z}b): ({t}, inv {t}) = port(); set {z}b = {a};"), s.clone()),
        6 => hop(format!("entity h{id}(a: {t}, z: inv {t}) {{ set z = a; }}"), format!("let ({z}, {z}b): ({t}, inv {t}) = port(); let _ = inst h{id}({a}, {z}b);"), s.clone()),
        7 => hop(
            format!("entity h{id}(p: {t}) -> {t} {{ let (z, zb) = port(); let (y, yb) = port(); set yb = p; set zb = y; z }}"),
            format!("let {z} = inst h{id}({a});"),
            s.clone(),
        ),
        8 if comp => {
            // split by pattern, put together in reverse order in a tuple
            let pat: Vec<String> = (0..kids.len()).map(|k| format!("{z}k{k}")).collect();
            let (p, n) = match s {
                T(_) if kids.len() == 1 => (format!("({},)", pat[0]), String::new()),
                T(_) => (format!("({})", pat.join(", ")), String::new()),
                S(n, _) => (format!("{n}({})", pat.join(", ")), String::new()),
                _ => (format!("[{}]", pat.join(", ")), String::new()),
            };
            let mut r = pat.clone();
            r.reverse();
            let mut k2 = kids.clone();
            k2.reverse();
            let e = if r.len() == 1 { format!("({},)", r[0]) } else { format!("({})", r.join(", ")) };
            hop(n, format!("let {p} = {a}; let {z} = {e};"), T(k2))
        }
        9 if comp => {
            // access by path, all leaves in a flat tuple, inside a unit
            let all: Vec<(String, Sh)> = paths("p").into_iter().filter(|(_, s)| matches!(s, L(_) | F(_))).collect();
            if all.len() < 2 {
                return None;
            }
            let z2 = T(all.iter().map(|x| x.1.clone()).collect());
            let e: Vec<String> = all.iter().map(|x| x.0.clone()).collect();
            hop(
                format!("entity h{id}(p: {t}) -> {} {{ ({}) }}", z2.ty(tys), e.join(", ")),
                format!("let {z} = inst h{id}({a});"),
                z2,
            )
        }
        10 if comp => {
            // into a struct in rotated order, the parts by path
            let all = s.kids();
            let n = all.len();
            let rot: Vec<usize> = (0..n).map(|k| (k + 1) % n).collect();
            let name = format!("H{id}");
            let sh = S(name.clone(), rot.iter().map(|k| all[*k].1.clone()).collect());
            let e: Vec<String> = rot.iter().map(|k| format!("p{}", all[*k].0)).collect();
            hop(String::new(), format!("let {z} = {{ let p = {a}; {name}({}) }};", e.join(", ")), sh)
        }
        11 if matches!(s, T(_)) && kids.len() >= 2 && kids.iter().all(|k| matches!(k, L(_))) && same(&ls) => {
            let v: Vec<Sh> = kids.iter().rev().cloned().collect();
            hop(
                String::new(),
                format!("let {z}: [{}; {}] = unsafe {{ std::conv::transmute({a}) }};", kids[0].ty(tys), kids.len()),
                A(v),
            )
        }
        12 if matches!(s, A(_)) && kids.len() >= 2 => {
            let n = kids.len();
            let v: Vec<Sh> = kids[n - 1..].iter().chain(&kids[..n - 1]).cloned().collect();
            hop(String::new(), format!("let {z} = {a}[{}..{n}].concat({a}[0..{}]);", n - 1, n - 1), A(v))
        }
        13 if matches!(s, A(_)) && kids.iter().all(|k| matches!(k, L(_))) && same(&ls) => {
            hop(String::new(), format!("let {z} = {a}.transpose();"), I(ls.clone()))
        }
        14 if matches!(s, I(_)) => {
            let I(v) = s else { unreachable!() };
            hop(String::new(), format!("let {z} = {a}.transpose();"), A(v.iter().map(|i| L(*i)).collect()))
        }
        15 if !ls.is_empty() && fs.is_empty() && ls.len() == 1 && comp => {
            // pick the only leaf out
            hop(String::new(), format!("let {z} = {};", leaf_path(a, ls[0])?), L(ls[0]))
        }
        16 if !comp && matches!(s, L(_)) => {
            // wrap
            hop(String::new(), format!("let {z} = [({a},)];"), A(vec![T(vec![s.clone()])]))
        }
        17 if !comp && matches!(s, L(_)) => {
            hop(String::new(), format!("let ({z}f, {z}) = {a}.inspect();"), s.clone())
        }
        18 => {
            // a trait method; the name is unique since all programs of a batch are compiled together
            let u = super::types::fresh();
            hop(
                format!("trait R{id} {{ entity turn{u}(self) -> Self; }} impl R{id} for {t} {{ entity turn{u}(self) -> Self {{ self }} }}"),
                format!("let {z}: {t} = {a}.inst turn{u}();"),
                s.clone(),
            )
        }
        19 if comp => {
            // touch a forward part first, then hand over the whole
            let f = paths(a).into_iter().find(|(_, s)| matches!(s, F(_)))?;
            hop(
                format!("entity h{id}(p: {t}) -> {t} {{ let x = p{0}; let y = p{0}; p }}", &f.0[a.len()..]),
                format!("let {z}f = {}; let {z} = inst h{id}({a});", f.0),
                s.clone(),
            )
        }
        20 => hop(format!("entity h{id}<X>(a: X, b: bool) -> (bool, X) {{ (b, a) }}"), format!("let {z} = (inst h{id}({a}, true)).1;"), s.clone()),
        21 if comp => {
            // pieces reassembled into the same type from repeated paths to the same subtree
            let all: Vec<(String, Sh)> = paths("p").into_iter().filter(|(_, s)| matches!(s, L(_) | F(_))).collect();
            let get = |i: usize| all.iter().find(|(_, s)| *s == L(i) || *s == F(i)).unwrap().0.clone();
            hop(
                format!("entity h{id}(p: {t}) -> {t} {{ {} }}", s.mk(&get)),
                format!("let {z} = inst h{id}({a});"),
                s.clone(),
            )
        }
        22 if comp => {
            // forward connection by single leaves
            let t2 = &t;
            let all: Vec<(String, Sh)> = paths("").into_iter().filter(|(_, s)| matches!(s, L(_) | F(_))).collect();
            let mut ports = String::new();
            let mut sets = String::new();
            for (n, (p, s)) in all.iter().enumerate() {
                ports.push_str(&format!("let (x{n}, y{n}) = port(); "));
                match s {
                    L(_) => sets.push_str(&format!("set p{p} = x{n}; ")),
                    _ => sets.push_str(&format!("set y{n} = p{p}; ")),
                }
            }
            let get = |i: usize| {
                let n = all.iter().position(|(_, s)| *s == L(i) || *s == F(i)).unwrap();
                if matches!(all[n].1, L(_)) { format!("y{n}") } else { format!("x{n}") }
            };
            hop(
                format!("entity h{id}(p: {t2}) -> {t2} {{ {ports}{sets}{} }}", s.mk(&get)),
                format!("let {z} = inst h{id}({a});"),
                s.clone(),
            )
        }
        23 if comp => {
            // set the whole from a value built of parts
            let all: Vec<(String, Sh)> = paths(a).into_iter().filter(|(_, s)| matches!(s, L(_) | F(_))).collect();
            let get = |i: usize| all.iter().find(|(_, s)| *s == L(i) || *s == F(i)).unwrap().0.clone();
            hop(String::new(), format!("let ({z}, {z}b): ({t}, inv {t}) = port(); set {z}b = {};", s.mk(&get)), s.clone())
        }
        24 if matches!(s, S(..)) => {
            // through the fields of an inverted struct
            let mut body = String::new();
            for (p, k) in s.kids() {
                match k {
                    F(_) => body.push_str(&format!("set {z}b{p} = {a}{p}; ")),
                    L(_) => body.push_str(&format!("set {a}{p} = {z}b{p}; ")),
                    _ => body.push_str(&format!("set {z}b{p} = {a}{p}; ")),
                }
            }
            hop(String::new(), format!("let ({z}, {z}b): ({t}, inv {t}) = port(); {body}"), s.clone())
        }
        _ => None,
    }
}

fn payloads() -> Vec<Vec<Ty>> {
    let u = Ty::U;
    vec![
        vec![Ty::Bool; 6],
        vec![u(2), u(3), u(2), u(3), u(1), u(2)],
        vec![u(2); 6],
        vec![Ty::Tup(vec![u(1), Ty::Bool]), Ty::opt(u(1)), Ty::Tup(vec![u(1), Ty::Bool]), Ty::opt(u(1)), Ty::Bool, u(3)],
        vec![Ty::Arr(Box::new(u(2)), 2), mk_struct("Pay", &[("a", Ty::Bool), ("b", u(1))]), Ty::Arr(Box::new(u(2)), 2), mk_struct("Pay", &[("a", Ty::Bool), ("b", u(1))]), Ty::Bool, u(1)],
    ]
}

fn chain_shapes() -> Vec<Sh> {
    vec![
        l(0),
        T(vec![l(0), l(1)]),
        T(vec![F(4), l(0)]),
        T(vec![l(0), F(4), l(1)]),
        st("P", vec![l(0), F(5)]),
        st("P", vec![F(4), l(0), F(5), l(2)]),
        A(vec![l(0), l(2)]),
        A(vec![l(0), l(2), l(3)]),
        A(vec![l(1)]),
        A(vec![T(vec![l(0), F(1)]), T(vec![l(2), F(3)])]),
        T(vec![A(vec![l(0), l(2)]), F(4)]),
        A(vec![st("Q", vec![F(1), l(0)]), st("Q", vec![F(3), l(2)])]),
        T(vec![T(vec![l(0), F(4)]), T(vec![F(5), l(1)])]),
        st("P", vec![A(vec![l(0), l(2)]), T(vec![l(1), F(5)])]),
        A(vec![A(vec![l(0), l(2)])]),
        T(vec![st("Q", vec![l(1), l(0)])]),
    ]
}

fn all_leaves(s: &Sh) -> Vec<(usize, bool)> {
    let mut v: Vec<(usize, bool)> = s.ls().into_iter().map(|i| (i, true)).chain(s.fs().into_iter().map(|i| (i, false))).collect();
    v.sort();
    v
}

/// the definition of the unit which drives all inverted leaves and returns the forward ones
fn sink(s: &Sh, tys: &[Ty], how: usize) -> String {
    let ls = s.ls();
    let mut sorted = ls.clone();
    sorted.sort();
    let fs = {
        let mut f = s.fs();
        f.sort();
        f
    };
    let ps: String = sorted.iter().map(|i| format!(", v{i}: {}", tys[*i].show())).collect();
    let ret: String = fs.iter().map(|i| format!("{}, ", tys[*i].show())).collect();
    let mut body = String::new();
    let mut get = vec![];
    if let I(v) = s {
        body.push_str(&format!("set p = [{}]; ", v.iter().map(|i| format!("v{i}")).collect::<Vec<_>>().join(", ")));
    } else if how == 0 || !matches!(s, T(_) | S(..) | A(_)) {
        let mut v = vec![];
        s.paths("p", &mut v);
        for (p, s) in v {
            match s {
                L(i) => body.push_str(&format!("set {p} = v{i}; ")),
                F(i) => get.push((*i, p)),
                _ => {}
            }
        }
    } else {
        fn pat(s: &Sh) -> String {
            match s {
                L(i) | F(i) => format!("n{i}"),
                I(_) => unreachable!(),
                T(v) if v.len() == 1 => format!("({},)", pat(&v[0])),
                T(v) => format!("({})", v.iter().map(pat).collect::<Vec<_>>().join(", ")),
                S(n, v) => format!("{n}({})", v.iter().map(pat).collect::<Vec<_>>().join(", ")),
                A(v) => format!("[{}]", v.iter().map(pat).collect::<Vec<_>>().join(", ")),
            }
        }
        body.push_str(&format!("let {} = p; ", pat(s)));
        for i in &sorted {
            body.push_str(&format!("set n{i} = v{i}; "));
        }
        get.extend(fs.iter().map(|i| (*i, format!("n{i}"))));
    }
    get.sort();
    let r: String = get.iter().map(|x| format!("{}, ", x.1)).collect();
    format!("entity sink(p: {}{ps}) -> (bool, {ret}) {{ {body}(true, {r}) }}", s.ty(tys))
}

fn chain(out: &mut Vec<VCase>, si: usize, s0: &Sh, pi: usize, tys: &[Ty], hops: &[usize]) {
    let mut s = s0.clone();
    let mut defs = vec![];
    s.defs(tys, &mut defs);
    let mut stmts = String::new();
    for (n, k) in hops.iter().enumerate() {
        let Some(h) = hop(*k, n, &format!("p{n}"), &format!("p{}", n + 1), &s, tys) else { return };
        s = h.sh;
        s.defs(tys, &mut defs);
        if !h.defs.is_empty() {
            defs.push(h.defs);
        }
        stmts.push_str(&h.stmts);
        stmts.push(' ');
    }
    let leaves = all_leaves(s0);
    let total: u32 = leaves.iter().map(|x| tys[x.0].width()).sum();
    if total > 14 {
        return;
    }
    let how = (hops.iter().sum::<usize>() + si) % 2;
    defs.push(sink(&s, tys, how));
    let ports: String = leaves.iter().filter(|x| x.1).map(|x| format!("let (w{0}, b{0}) = port(); ", x.0)).collect();
    let lf = |i: usize| if s0.ls().contains(&i) { format!("b{i}") } else { format!("v{i}") };
    let args: String = leaves.iter().filter(|x| x.1).map(|x| format!(", v{}", x.0)).collect();
    let ps: Vec<String> = leaves.iter().map(|x| format!("v{}: {}", x.0, tys[x.0].show())).collect();
    let mut nf = 0;
    let o: String = leaves
        .iter()
        .map(|x| {
            if x.1 {
                format!("w{}, ", x.0)
            } else {
                nf += 1;
                format!("r.{nf}, ")
            }
        })
        .collect();
    let ot: String = leaves.iter().map(|x| format!("{}, ", tys[x.0].show())).collect();
    let n = hops.len();
    let src = format!(
        "{} entity top({}) -> ({ot}) {{ {ports}let p0 = {}; {stmts}let r = inst sink(p{n}{args}); ({o}) }}",
        defs.join(" "),
        ps.join(", "),
        s0.mk(&lf)
    );
    let names: Vec<(String, u32)> = leaves.iter().map(|x| (format!("v{}", x.0), tys[x.0].width())).collect();
    let ins: Vec<(&str, u32)> = names.iter().map(|x| (x.0.as_str(), x.1)).collect();
    let ws: Vec<u32> = names.iter().map(|x| x.1).collect();
    let key = format!("chain/{si}/{pi}/{hops:?}");
    out.push(VCase::case(Case::comb(key, src, &ins, total, move |i| {
        Some(i.iter().zip(&ws).fold(0, |a, (v, w)| a << w | v))
    })));
}

/// the same port as a parameter of the top unit, or as its result
fn outer(out: &mut Vec<VCase>, si: usize, s: &Sh, pi: usize, tys: &[Ty]) {
    let leaves = all_leaves(s);
    let total: u32 = leaves.iter().map(|x| tys[x.0].width()).sum();
    if total > 14 {
        return;
    }
    let (mut fo, mut bo) = (vec![], vec![]);
    s.order(false, &mut fo);
    s.order(true, &mut bo);
    let wid = |v: &[usize]| v.iter().map(|i| tys[*i].width()).sum::<u32>();
    let (fw, bw) = (wid(&fo), wid(&bo));
    let mut defs = vec![];
    s.defs(tys, &mut defs);
    for how in 0..2 {
        // driven by inputs, forward parts returned
        let mut d = defs.clone();
        d.push(sink(s, tys, how));
        let back: Vec<usize> = leaves.iter().filter(|x| x.1).map(|x| x.0).collect();
        let fwd: Vec<usize> = leaves.iter().filter(|x| !x.1).map(|x| x.0).collect();
        let ps: String = back.iter().map(|i| format!(", v{i}: {}", tys[*i].show())).collect();
        let args: String = back.iter().map(|i| format!(", v{i}")).collect();
        let rt: String = fwd.iter().map(|i| format!("{}, ", tys[*i].show())).collect();
        let src = format!("{} entity top(p: {}{ps}) -> (bool, {rt}) {{ inst sink(p{args}) }}", d.join(" "), s.ty(tys));
        let mut ins: Vec<(String, u32)> = vec![];
        if fw > 0 {
            ins.push(("p".into(), fw));
        }
        ins.extend(back.iter().map(|i| (format!("v{i}"), tys[*i].width())));
        let ins: Vec<(&str, u32)> = ins.iter().map(|x| (x.0.as_str(), x.1)).collect();
        let mut c = Case::comb(format!("param/{si}/{pi}/{how}"), src, &ins, 1 + fw, |_| None);
        c.outs.push(("p_o".into(), bw));
        let (t2, fo2, bo2) = (tys.to_vec(), fo.clone(), bo.clone());
        c.oracle = Oracle::Comb(std::sync::Arc::new(move |i| {
            let mut val = vec![0u128; 20];
            let mut k = 0;
            if fw > 0 {
                let mut rest = i[0];
                for f in fo2.iter().rev() {
                    val[*f] = rest & ones(t2[*f].width());
                    rest >>= t2[*f].width();
                }
                k = 1;
            }
            for x in &back {
                val[*x] = i[k];
                k += 1;
            }
            let o = fwd.iter().fold(1u128, |a, f| a << t2[*f].width() | val[*f]);
            let p = bo2.iter().fold(0u128, |a, f| a << t2[*f].width() | val[*f]);
            vec![Exp::is(o), Exp::is(p)]
        }));
        out.push(VCase::case(c));
    }
    // as the result
    let ports: String = bo.iter().map(|x| format!("let (w{x}, b{x}) = port(); ")).collect();
    let mut fs = fo.clone();
    fs.sort();
    let mut ls = bo.clone();
    ls.sort();
    let lf = |i: usize| if bo.contains(&i) { format!("b{i}") } else { format!("v{i}") };
    let ps: Vec<String> = fs.iter().map(|i| format!("v{i}: {}", tys[*i].show())).collect();
    let wt: String = ls.iter().map(|i| format!("{}, ", tys[*i].show())).collect();
    let ws: String = ls.iter().map(|i| format!("w{i}, ")).collect();
    let src = format!("{} entity top({}) -> (({wt}), {}) {{ {ports}(({ws}), {}) }}", defs.join(" "), ps.join(", "), s.ty(tys), s.mk(&lf));
    let ins: Vec<(String, u32)> = fs.iter().map(|i| (format!("v{i}"), tys[*i].width())).collect();
    let ins: Vec<(&str, u32)> = ins.iter().map(|x| (x.0.as_str(), x.1)).collect();
    let mut c = Case::comb(format!("result/{si}/{pi}"), src, &ins, bw + fw, |_| None);
    c.ins.push(("input__".into(), bw));
    let (t2, fo2, bo2) = (tys.to_vec(), fo.clone(), bo.clone());
    c.oracle = Oracle::Comb(std::sync::Arc::new(move |i| {
        let mut val = vec![0u128; 20];
        for (k, f) in fs.iter().enumerate() {
            val[*f] = i[k];
        }
        let mut rest = i[fs.len()];
        for f in bo2.iter().rev() {
            val[*f] = rest & ones(t2[*f].width());
            rest >>= t2[*f].width();
        }
        let o = ls.iter().chain(&fo2).fold(0u128, |a, f| a << t2[*f].width() | val[*f]);
        vec![Exp::is(o)]
    }));
    out.push(VCase::case(c));
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let mut cases = vec![];
    let fam = std::env::var("P12_FAMILY").unwrap_or_default();
    own_family(ctx.thorough(), &mut cases);
    let n_own = cases.len();
    for (si, s) in chain_shapes().iter().enumerate() {
        for (pi, tys) in payloads().iter().enumerate() {
            if !s.valid(tys) {
                continue;
            }
            outer(&mut cases, si, s, pi, tys);
            chain(&mut cases, si, s, pi, tys, &[]);
            for a in 0..HOPS {
                chain(&mut cases, si, s, pi, tys, &[a]);
                for c in 0..HOPS {
                    if ctx.thorough() || (a * 7 + c + si) % payloads().len() == pi {
                        chain(&mut cases, si, s, pi, tys, &[a, c]);
                    }
                }
            }
        }
    }
    cases.retain(|c| c.key.starts_with(&fam));
    eprintln!("[p12] {} programs, {n_own} of them about ownership", cases.len());
    run_verdicts(&ctx, &pool, &cases, &RunOpt { batch: 100, ..RunOpt::std() });
    ctx.finish(
        "model_checking",
        "every sequence of up to 3 operations (set in every position, move, split by pattern, match, pass to a unit, range, inspect, \
         combine) on every path of every bounded port shape, finished by driving all, or all but one, of the remaining inverted \
         parts: an ownership model decides acceptance and which input drives which wire, and accepted programs are simulated on all \
         inputs; every chain of up to 2 connections between the two ends of ports of every bounded shape and payload type.",
        &["a set inside one branch of an if or match drives the wire unconditionally: both branches count, as the language's rules have it",
          "`name @ pattern`, `[x; n]` and if/match expressions whose value has inverted parts are rejected by design and not judged"],
        true,
    )
}
