//! P18: names resolve lexically and by path.
use crate::comp::*;
use crate::hw::*;
use crate::report::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ part A: bodies

#[derive(Clone, Debug)]
enum Ex {
    /// A constant different from all others of the program
    K(u32),
    R(usize),
    Blk(Vec<St>, Box<Ex>),
    If(Box<Ex>, Box<Ex>),
    /// match (K, c) { (n, true) => .., (m, false) => .. }
    Mt(u32, usize, Box<Ex>, usize, Box<Ex>),
    /// match K { n if n == K' => .., _ => .. }
    Guard(u32, usize, u32, Box<Ex>, Box<Ex>),
    /// match P(K, K') { P$(x: n, y) => .. }
    Field(u32, u32, usize, Box<Ex>),
    /// match P(K, K') { P(n, m) => .. }
    Pos(u32, u32, usize, usize, Box<Ex>),
    /// match K { n @ m => .. }
    At(u32, usize, usize, Box<Ex>),
    /// match Some(K) or None depending on c
    Opt(u32, usize, Box<Ex>, Box<Ex>),
    /// { let l = fn |n| { .. }; l.call((K,)) }
    Lam(usize, Box<Ex>, u32),
}
#[derive(Clone, Debug)]
enum St {
    Let(usize, Ex),
    Tup(usize, usize, Ex, Ex),
    Struct(usize, usize, Ex, Ex),
    Decl(usize),
}
const V: [&str; 3] = ["x", "y", "z"];

type Env = Vec<BTreeMap<usize, usize>>;
struct Ev {
    c: bool,
    /// every binding's value; a declared variable has none until it is defined
    cells: Vec<Option<u32>>,
    undefined: bool,
    /// read before its value was known (a combinational use of a later definition)
    early: bool,
}
impl Ev {
    fn bind(&mut self, env: &mut Env, n: usize, v: u32) {
        if let Some(&i) = env.last().unwrap().get(&n) {
            if self.cells[i].is_none() {
                self.cells[i] = Some(v);
                return;
            }
        }
        self.cells.push(Some(v));
        let i = self.cells.len() - 1;
        env.last_mut().unwrap().insert(n, i);
    }
    fn scoped<T>(&mut self, env: &mut Env, f: impl FnOnce(&mut Self, &mut Env) -> T) -> T {
        env.push(Default::default());
        let r = f(self, env);
        env.pop();
        r
    }
    fn with(&mut self, env: &mut Env, b: &[(usize, u32)], e: &Ex) -> u32 {
        self.scoped(env, |s, env| {
            for (n, v) in b {
                s.bind(env, *n, *v);
            }
            s.ex(env, e)
        })
    }
    fn ex(&mut self, env: &mut Env, e: &Ex) -> u32 {
        match e {
            Ex::K(k) => *k,
            Ex::R(n) => match env.iter().rev().find_map(|s| s.get(n)) {
                None => {
                    self.undefined = true;
                    0
                }
                Some(&i) => self.cells[i].unwrap_or_else(|| {
                    self.early = true;
                    0
                }),
            },
            Ex::Blk(ss, r) => self.scoped(env, |s, env| {
                for st in ss {
                    s.st(env, st);
                }
                s.ex(env, r)
            }),
            Ex::If(a, b) => {
                let a = self.with(env, &[], a);
                let b = self.with(env, &[], b);
                if self.c { a } else { b }
            }
            Ex::Mt(k, n, a, m, b) => {
                let a = self.with(env, &[(*n, *k)], a);
                let b = self.with(env, &[(*m, *k)], b);
                if self.c { a } else { b }
            }
            Ex::Guard(k, n, k2, a, b) => {
                let a = self.with(env, &[(*n, *k)], a);
                let b = self.with(env, &[], b);
                if k == k2 { a } else { b }
            }
            Ex::Field(k, k2, n, a) => self.with(env, &[(*n, *k), (1, *k2)], a),
            Ex::Pos(k, k2, n, m, a) => self.with(env, &[(*n, *k), (*m, *k2)], a),
            Ex::At(k, n, m, a) => self.with(env, &[(*n, *k), (*m, *k)], a),
            Ex::Opt(k, n, a, b) => {
                let a = self.with(env, &[(*n, *k)], a);
                let b = self.with(env, &[], b);
                if self.c { a } else { b }
            }
            Ex::Lam(n, a, k) => self.with(env, &[(*n, *k)], a),
        }
    }
    fn st(&mut self, env: &mut Env, s: &St) {
        match s {
            St::Let(n, e) => {
                let v = self.ex(env, e);
                self.bind(env, *n, v);
            }
            St::Tup(n, m, a, b) | St::Struct(n, m, a, b) => {
                let a = self.ex(env, a);
                let b = self.ex(env, b);
                self.bind(env, *n, a);
                self.bind(env, *m, b);
            }
            St::Decl(n) => {
                if env.iter().any(|s| s.contains_key(n)) {
                    // a declaration may not shadow: not judged
                    self.early = true;
                }
                self.cells.push(None);
                let i = self.cells.len() - 1;
                env.last_mut().unwrap().insert(*n, i);
            }
        }
    }
}

/// Gives every constant its own number, and prints
struct Show {
    next: u32,
}
impl Show {
    fn k(&mut self, k: &mut u32) -> String {
        *k = self.next;
        self.next += 1;
        assert!(self.next < 60);
        format!("{k}u6")
    }
    fn ex(&mut self, e: &mut Ex) -> String {
        match e {
            Ex::K(k) => self.k(k),
            Ex::R(n) => V[*n].into(),
            Ex::Blk(ss, r) => {
                let s: Vec<String> = ss.iter_mut().map(|s| self.st(s)).collect();
                format!("{{ {} {} }}", s.join(" "), self.ex(r))
            }
            Ex::If(a, b) => format!("if c {{ {} }} else {{ {} }}", self.ex(a), self.ex(b)),
            Ex::Mt(k, n, a, m, b) => format!("match ({}, c) {{ ({}, true) => {}, ({}, false) => {} }}", self.k(k), V[*n], self.ex(a), V[*m], self.ex(b)),
            Ex::Guard(k, n, k2, a, b) => {
                let s = self.k(k);
                let same = *k2 == 1;
                *k2 = if same { *k } else { 61 };
                format!("match {s} {{ {} if {0} == {k2}u6 => {}, _ => {} }}", V[*n], self.ex(a), self.ex(b))
            }
            Ex::Field(k, k2, n, a) => format!("match P({}, {}) {{ P$(x: {}, y) => {} }}", self.k(k), self.k(k2), V[*n], self.ex(a)),
            Ex::Pos(k, k2, n, m, a) => format!("match P({}, {}) {{ P({}, {}) => {} }}", self.k(k), self.k(k2), V[*n], V[*m], self.ex(a)),
            Ex::At(k, n, m, a) => format!("match {} {{ {} @ {} => {} }}", self.k(k), V[*n], V[*m], self.ex(a)),
            Ex::Opt(k, n, a, b) => format!("match (if c {{ Some({}) }} else {{ None }}) {{ Some({}) => {}, None => {} }}", self.k(k), V[*n], self.ex(a), self.ex(b)),
            Ex::Lam(n, a, k) => {
                let b = self.ex(a);
                format!("{{ let l = fn |{}| {{ {b} }}; l.call(({},)) }}", V[*n], self.k(k))
            }
        }
    }
    fn st(&mut self, s: &mut St) -> String {
        match s {
            St::Let(n, e) => format!("let {} = {};", V[*n], self.ex(e)),
            St::Tup(n, m, a, b) => format!("let ({}, {}) = ({}, {});", V[*n], V[*m], self.ex(a), self.ex(b)),
            St::Struct(n, m, a, b) => format!("let P$(y: {}, x: {}) = P$(x: {}, y: {});", V[*m], V[*n], self.ex(a), self.ex(b)),
            St::Decl(n) => format!("decl {};", V[*n]),
        }
    }
}

fn bx(e: Ex) -> Box<Ex> {
    Box::new(e)
}
fn r(n: usize) -> Ex {
    Ex::R(n)
}

/// Expressions that bind or read x and y
fn exprs(rich: bool) -> Vec<Ex> {
    let mut v = vec![Ex::K(0), r(0), r(1)];
    for n in 0..2 {
        for m in 0..2 {
            v.push(Ex::Blk(vec![St::Let(n, Ex::K(0))], bx(r(m))));
            v.push(Ex::Lam(n, bx(r(m)), 0));
            v.push(Ex::If(bx(Ex::Blk(vec![St::Let(n, Ex::K(0))], bx(r(m)))), bx(r(n))));
            v.push(Ex::Guard(0, n, (m == 0) as u32, bx(r(m)), bx(r(n))));
            v.push(Ex::Mt(0, n, bx(r(m)), 1 - n, bx(r(m))));
            v.push(Ex::Opt(0, n, bx(r(m)), bx(r(n))));
            if rich {
                for o in 0..2 {
                    v.push(Ex::Blk(vec![St::Let(n, Ex::K(0)), St::Let(m, r(n))], bx(r(o))));
                    v.push(Ex::Blk(vec![St::Let(n, Ex::Blk(vec![St::Let(m, Ex::K(0))], bx(r(o))))], bx(r(m))));
                    v.push(Ex::Lam(n, bx(Ex::Blk(vec![St::Let(m, r(o))], bx(r(n)))), 0));
                    v.push(Ex::Mt(0, n, bx(r(m)), n, bx(Ex::Blk(vec![St::Let(o, r(m))], bx(r(o))))));
                }
                v.push(Ex::If(bx(r(m)), bx(Ex::Blk(vec![St::Let(n, Ex::K(0))], bx(r(m))))));
                v.push(Ex::Blk(vec![St::Decl(n), St::Let(n, Ex::K(0))], bx(r(m))));
            }
        }
        v.push(Ex::Field(0, 0, 0, bx(r(n))));
        v.push(Ex::Pos(0, 0, 0, 1, bx(r(n))));
        v.push(Ex::Pos(0, 0, 1, 0, bx(r(n))));
        if rich {
            v.push(Ex::At(0, 0, 1, bx(r(n))));
            v.push(Ex::At(0, 1, 0, bx(r(n))));
            v.push(Ex::Blk(vec![St::Tup(0, 1, r(1 - n), r(n))], bx(r(n))));
        }
    }
    v
}

fn body(key: String, stmts: &[St], fin: &[usize], out: &mut Vec<VCase>) {
    let mut stmts = stmts.to_vec();
    let mut sh = Show { next: 1 };
    let text: String = stmts.iter_mut().map(|s| format!("    {}\n", sh.st(s))).collect();
    let fin_t: Vec<&str> = fin.iter().map(|n| V[*n]).collect();
    let src = format!(
        "struct P {{ x: uint<6>, y: uint<6> }}\nfn f(c: bool, x: uint<6>) -> (uint<6>, uint<6>) {{\n{text}    ({}, {})\n}}\nfn top(c: bool) -> (uint<6>, uint<6>) {{ f(c, 63) }}\n",
        fin_t[0], fin_t[1]
    );
    let mut want = vec![];
    for c in [false, true] {
        let mut ev = Ev { c, cells: vec![Some(63)], undefined: false, early: false };
        let mut env: Env = vec![BTreeMap::from([(0, 0)]), Default::default()];
        for s in &stmts {
            ev.st(&mut env, s);
        }
        let a = ev.ex(&mut env, &r(fin[0]));
        let b = ev.ex(&mut env, &r(fin[1]));
        if ev.early {
            return;
        }
        if ev.undefined {
            out.push(VCase::reject(key, src));
            return;
        }
        want.push((a as u128) << 6 | b as u128);
    }
    out.push(VCase::case(Case::comb(key, src, &[("c", 1)], 12, move |i| Some(want[i[0] as usize]))));
}

fn bodies(thorough: bool, out: &mut Vec<VCase>) {
    let stmts = |rich: bool| {
        let mut v = vec![];
        for e in exprs(rich) {
            for n in 0..2 {
                v.push(St::Let(n, e.clone()));
            }
        }
        let simple = [Ex::K(0), r(0), r(1)];
        for a in &simple {
            for b in &simple {
                v.push(St::Tup(0, 1, a.clone(), b.clone()));
                v.push(St::Tup(1, 0, a.clone(), b.clone()));
                v.push(St::Struct(0, 1, a.clone(), b.clone()));
                if rich {
                    v.push(St::Struct(1, 0, a.clone(), b.clone()));
                }
            }
        }
        v
    };
    let fins: [&[usize]; 2] = [&[0, 1], &[0, 0]];
    let rich = stmts(true);
    let small = stmts(false);
    let few: Vec<St> = small.iter().step_by(4).cloned().collect();
    let mut add = |key: String, s: &[St]| {
        for (i, f) in fins.iter().enumerate() {
            // the second ending only matters where y may be undefined
            if i == 1 && s.len() > 1 && out.len() % 3 != 0 && !thorough {
                continue;
            }
            body(format!("{key}/{i}"), s, f, out);
        }
    };
    for (i, a) in rich.iter().enumerate() {
        add(format!("body/{i}"), &[a.clone()]);
        for (j, b) in rich.iter().enumerate() {
            if !thorough && (i * 7 + j) % 3 != 0 {
                continue;
            }
            add(format!("body/{i}/{j}"), &[a.clone(), b.clone()]);
        }
    }
    let mid: &[St] = if thorough { &small } else { &few };
    for (i, a) in few.iter().enumerate() {
        for (j, b) in mid.iter().enumerate() {
            for (k, c) in few.iter().enumerate() {
                if !thorough && (i + 3 * j + k) % 2 != 0 {
                    continue;
                }
                add(format!("body3/{i}/{j}/{k}"), &[a.clone(), b.clone(), c.clone()]);
            }
        }
    }
}

/// Declared variables: visible from the declaration, defined by the one binding in the same scope
fn decls(out: &mut Vec<VCase>) {
    let inner: Vec<Ex> = exprs(true);
    for (i, e) in inner.iter().enumerate() {
        // before the definition, the uses see the later definition
        let mut sh = Show { next: 1 };
        let mut e1 = e.clone();
        let t = sh.ex(&mut e1);
        let mut k = 0;
        let kt = sh.k(&mut k);
        for (how, def) in [("let", format!("let y = {kt};")), ("tup", format!("let (w, y) = (0u6, {kt});")), ("struct", format!("let P(y, w) = P({kt}, 0);"))] {
            let src = format!(
                "struct P {{ x: uint<6>, y: uint<6> }}\nfn f(c: bool, x: uint<6>) -> (uint<6>, uint<6>) {{\n    decl y;\n    let z = {t};\n    {def}\n    (z, y)\n}}\nfn top(c: bool) -> (uint<6>, uint<6>) {{ f(c, 63) }}\n"
            );
            let e2 = e1.clone();
            let mut ev = Ev { c: false, cells: vec![Some(63), Some(k)], undefined: false, early: false };
            ev.ex(&mut vec![BTreeMap::from([(0, 0), (1, 1)])], &e2);
            if ev.early {
                continue;
            }
            let case = Case::comb(format!("decl/{how}/{i}"), src, &[("c", 1)], 12, move |inp| {
                let mut ev = Ev { c: inp[0] == 1, cells: vec![Some(63), Some(k)], undefined: false, early: false };
                let mut env: Env = vec![BTreeMap::from([(0, 0), (1, 1)])];
                let z = ev.ex(&mut env, &e2);
                assert!(!ev.undefined);
                Some((z as u128) << 6 | k as u128)
            });
            out.push(VCase::case(case));
        }
        // never defined
        let src = format!("struct P {{ x: uint<6>, y: uint<6> }}\nfn top(c: bool, x: uint<6>) -> uint<6> {{\n    decl y;\n    let z = {t};\n    z\n}}\n");
        out.push(VCase::reject(format!("decl/none/{i}"), src));
    }
}

// ------------------------------------------------------------------ part B: paths

#[derive(Clone, Copy, Debug, PartialEq)]
enum Vis {
    Imp,
    Pub,
    Lib,
    Slf,
    Sup,
}
impl Vis {
    fn text(self) -> &'static str {
        match self {
            Vis::Imp => "",
            Vis::Pub => "pub ",
            Vis::Lib => "pub(lib) ",
            Vis::Slf => "pub(self) ",
            Vis::Sup => "pub(super) ",
        }
    }
    /// May code in module `from` use an item of module `of` with this visibility?
    fn admits(self, of: &[&str], from: &[&str]) -> bool {
        let inside = |p: &[&str]| from.len() >= p.len() && from[..p.len()] == *p;
        match self {
            Vis::Pub => true,
            // (only the trees of two libraries name them)
            Vis::Lib => of.first().is_none_or(|l| !LIBS.contains(l)) || inside(&of[..1]),
            Vis::Imp | Vis::Slf => inside(of),
            Vis::Sup => of.is_empty() || inside(&of[..of.len() - 1]),
        }
    }
}
/// The modules of the tree: the root of the library, m, m::k, n
const MODS: [&[&str]; 4] = [&[], &["m"], &["m", "k"], &["n"]];

/// Two libraries, each with a module
const MODS2: [&[&str]; 4] = [&["A"], &["A", "m"], &["B"], &["B", "m"]];
const LIBS: [&str; 2] = ["A", "B"];

#[derive(Clone, Debug)]
enum Item {
    Mod(Vis),
    /// Something whose use shows the number
    Def(Vis, u32),
    Use(Vis, Vec<&'static str>),
}
#[derive(Clone, Default, Debug)]
struct Tree {
    libs: bool,
    swap: bool,
    items: BTreeMap<(usize, &'static str), Item>,
    duplicate: Vec<(usize, &'static str, Item)>,
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Def(u32),
    Mod(usize),
    None,
}
fn show(p: &[&str]) -> String {
    let p: Vec<&str> = p.iter().map(|s| match *s { "A" => "QROOT", "B" => "QB", s => s }).collect();
    p.join("::")
}
impl Tree {
    fn mods(&self) -> &'static [&'static [&'static str]] {
        if self.libs { &MODS2 } else { &MODS }
    }
    fn module(&self, p: &[&str]) -> Option<usize> {
        self.mods().iter().position(|m| *m == p)
    }
    /// How many segments the root of a library has
    fn root(&self) -> usize {
        self.libs as usize
    }
    fn put(&mut self, m: usize, n: &'static str, i: Item) {
        if let Some(old) = self.items.insert((m, n), i) {
            self.duplicate.push((m, n, old));
        }
    }
    /// What a path means in a module
    fn resolve(&self, from: usize, path: &[&str], seen: &[(usize, &str)]) -> Res {
        let here = self.mods()[from];
        let sup = path.iter().take_while(|s| **s == "super").count();
        let (start, rest): (Vec<&str>, &[&str]) = if path[0] == "lib" {
            (here[..self.root()].to_vec(), &path[1..])
        } else if path[0] == "self" {
            (here.to_vec(), &path[1..])
        } else if sup + self.root() > here.len() {
            // outside of the library, where nothing is called like that
            return Res::None;
        } else if sup > 0 {
            (here[..here.len() - sup].to_vec(), &path[sup..])
        } else if self.libs && LIBS.contains(&path[0]) && !self.items.contains_key(&(from, path[0])) {
            (path[..1].to_vec(), &path[1..])
        } else {
            (here.to_vec(), path)
        };
        let mut at = self.module(&start).unwrap();
        for (i, s) in rest.iter().enumerate() {
            match self.step(at, s, from, seen) {
                Res::Mod(m) if i + 1 < rest.len() => at = m,
                r if i + 1 == rest.len() => return r,
                _ => return Res::None,
            }
        }
        Res::None
    }
    /// The item of a module called so, if code in `from` may use it
    fn step(&self, at: usize, name: &str, from: usize, seen: &[(usize, &str)]) -> Res {
        let Some((key, item)) = self.items.iter().find(|(k, _)| k.0 == at && k.1 == name) else { return Res::None };
        if seen.contains(key) {
            return Res::None;
        }
        let (vis, res) = match item {
            Item::Mod(v) => {
                let mut p = self.mods()[at].to_vec();
                p.push(key.1);
                (*v, Res::Mod(self.module(&p).unwrap()))
            }
            Item::Def(v, k) => (*v, Res::Def(*k)),
            Item::Use(v, p) => {
                let mut s = seen.to_vec();
                s.push(*key);
                let r = self.resolve(at, p, &s);
                // what it stands for has to be visible here as well
                let ok = match &r {
                    Res::None => true,
                    Res::Def(k) => self.items.iter().any(|(q, i)| matches!(i, Item::Def(v, d) if d == k && v.admits(self.mods()[q.0], self.mods()[from]))),
                    Res::Mod(m) if self.mods()[*m].len() == self.root() => true,
                    Res::Mod(m) => {
                        let p = self.mods()[*m];
                        let parent = self.module(&p[..p.len() - 1]).unwrap();
                        matches!(&self.items[&(parent, p[p.len() - 1])], Item::Mod(v) if v.admits(self.mods()[parent], self.mods()[from]))
                    }
                };
                (*v, if ok { r } else { Res::None })
            }
        };
        if vis.admits(self.mods()[at], self.mods()[from]) { res } else { Res::None }
    }
    /// Every `use` has to name something
    fn uses_ok(&self) -> bool {
        self.items.iter().all(|(k, i)| match i {
            Item::Use(_, p) => self.resolve(k.0, p, &[*k]) != Res::None,
            _ => true,
        })
    }
    fn text(&self, refs: &[(usize, String)], def: &dyn Fn(&str, &str, u32) -> String) -> String {
        fn go(t: &Tree, m: usize, refs: &[(usize, String)], def: &dyn Fn(&str, &str, u32) -> String) -> String {
            let mut s = String::new();
            let items = t.items.iter().map(|((q, n), i)| (q, n, i)).chain(t.duplicate.iter().map(|(q, n, i)| (q, n, i)));
            for (q, n, i) in items {
                if *q != m {
                    continue;
                }
                match i {
                    Item::Def(v, k) => s += &def(v.text(), n, *k),
                    Item::Use(v, p) => {
                        let last = p.last().unwrap();
                        s += &format!("{}use {}{};\n", v.text(), show(p), if last == n { String::new() } else { format!(" as {n}") });
                    }
                    Item::Mod(v) => {
                        let mut p = t.mods()[m].to_vec();
                        p.push(n);
                        s += &format!("{}mod {n} {{\n{}}}\n", v.text(), go(t, t.module(&p).unwrap(), refs, def));
                    }
                }
            }
            for (q, r) in refs {
                if *q == m {
                    s += r;
                }
            }
            s
        }
        if self.libs {
            // the other library first or last
            let (a, b) = (go(self, 0, refs, def), go(self, 2, refs, def));
            return if self.swap { format!("//@ QB QB\n{b}//@ QROOT QROOT\n{a}") } else { format!("{a}//@ QB QB\n{b}") };
        }
        go(self, 0, refs, def)
    }
}

type P = &'static [&'static str];
const PATHS: &[P] = &[
    &["f"],
    &["g"],
    &["self", "f"],
    &["self", "g"],
    &["super", "f"],
    &["super", "g"],
    &["super", "super", "f"],
    &["super", "super", "g"],
    &["lib", "f"],
    &["lib", "g"],
    &["m", "f"],
    &["m", "g"],
    &["lib", "m", "f"],
    &["lib", "m", "g"],
    &["self", "m", "f"],
    &["k", "f"],
    &["k", "g"],
    &["m", "k", "f"],
    &["lib", "m", "k", "f"],
    &["lib", "m", "k", "g"],
    &["super", "k", "f"],
    &["super", "m", "k", "f"],
    &["super", "n", "f"],
    &["super", "super", "n", "f"],
    &["n", "f"],
    &["n", "g"],
    &["lib", "n", "f"],
    &["super", "super", "m", "f"],
    &["super", "super", "super", "f"],
    &["g", "f"],
    &["lib", "g", "f"],
    &["g", "k", "f"],
];

struct Kind {
    name: &'static str,
    def: fn(&str, &str, u32) -> String,
    /// a function called `r` of type () -> uint<6> which uses the path
    call: fn(&str) -> String,
}
const KINDS: &[Kind] = &[
    Kind { name: "fn", def: |v, n, k| format!("{v}fn {n}() -> uint<6> {{ {k} }}\n"), call: |p| format!("pub fn rrr() -> uint<6> {{ {p}() }}\n") },
    Kind { name: "entity", def: |v, n, k| format!("{v}entity {n}() -> uint<6> {{ {k} }}\n"), call: |p| format!("pub entity rrr() -> uint<6> {{ inst {p}() }}\n") },
    Kind {
        name: "struct",
        def: |v, n, k| format!("{v}struct {n} {{ a: uint<{k}>, b: uint<{}> }}\n", 40 - k),
        call: |p| format!("fn sss(x: {p}) -> {p} {{ x }}\npub fn rrr() -> uint<6> {{ let s = sss({p}(0, 0)); wid(s.a) }}\n"),
    },
    Kind {
        name: "struct-pattern",
        def: |v, n, k| format!("{v}struct {n} {{ a: uint<{k}>, b: uint<{}> }}\n", 40 - k),
        call: |p| format!("fn sss(x: {p}) -> uint<6> {{ match x {{ {p}$(b, a) => wid(a) }} }}\npub fn rrr() -> uint<6> {{ sss({p}$(b: 0, a: 0)) }}\n"),
    },
    Kind {
        name: "enum",
        def: |v, n, k| format!("{v}enum {n} {{ A{{a: uint<{k}>}}, B }}\n"),
        call: |p| format!("fn sss(x: {p}) -> uint<6> {{ match x {{ {p}::A(a) => wid(a), {p}::B => 0 }} }}\npub fn rrr() -> uint<6> {{ sss({p}::A(0)) }}\n"),
    },
    Kind {
        name: "trait",
        def: |v, n, k| format!("{v}trait {n} {{ fn mQU{k}(self) -> uint<6>; }}\n"),
        call: |p| format!("struct ZZ {{}}\nimpl {p} for ZZ {{ fn mQUK(self) -> uint<6> {{ VAL }} }}\npub fn rrr() -> uint<6> {{ ZZ().mQUK() }}\n"),
    },
    Kind {
        name: "alias",
        def: |v, n, k| format!("{v}type {n} = uint<{k}>;\n"),
        call: |p| format!("fn sss(x: {p}) -> uint<6> {{ wid(x) }}\npub fn rrr() -> uint<6> {{ let a: {p} = 0; sss(a) }}\n"),
    },
    Kind {
        name: "generic-bound",
        def: |v, n, k| format!("{v}trait {n} {{ fn mQU{k}(self) -> uint<6>; }}\nimpl {n} for uint<{k}> {{ fn mQU{k}(self) -> uint<6> {{ {k} }} }}\n"),
        call: |p| format!("fn sss<T>(t: T) -> uint<6> where T: {p} {{ t.mQUK() }}\npub fn rrr() -> uint<6> {{ let x: uint<VAL> = 0; sss(x) }}\n"),
    },
];

fn path_case(key: String, t: &Tree, kind: &Kind, from: usize, path: &[&str], uniq: usize, out: &mut Vec<VCase>) {
    let ok = t.duplicate.is_empty() && t.uses_ok();
    let res = if ok { t.resolve(from, path, &[]) } else { Res::None };
    let k = if let Res::Def(k) = res { k } else { 1 };
    let p = show(path);
    let call = (kind.call)(&p).replace("mQUK", &format!("mQU{k}")).replace("VAL", &k.to_string());
    // wid tells the width of its argument
    let wid = "fn wid<#uint N>(x: uint<N>) -> uint<6> { N }\n";
    let local = format!("{wid}{call}");
    // the result is handed to the top module by paths which are always visible
    let mut refs = vec![(from, local)];
    let mut p = t.mods()[from].to_vec();
    let mut what = "rrr".to_string();
    let inst = if kind.name == "entity" { "inst " } else { "" };
    let unit = if kind.name == "entity" { "entity" } else { "fn" };
    while p.len() > t.root() {
        let last = p.pop().unwrap();
        refs.push((t.module(&p).unwrap(), format!("pub {unit} rrr{}() -> uint<6> {{ {inst}self::{last}::{what}() }}\n", p.len())));
        what = format!("rrr{}", p.len());
    }
    let whose = if t.libs && p[0] == "B" { "QB" } else { "self" };
    refs.push((0, format!("{unit} top() -> uint<6> {{ {inst}{whose}::{what}() }}\n")));
    let src = t.text(&refs, &kind.def).replace("mQU", &format!("m{uniq}_")).replace("QB", &format!("lb{uniq}"));
    match res {
        Res::Def(k) => out.push(VCase::case(Case::comb(key, src, &[], 6, move |_| Some(k as u128)))),
        _ => out.push(VCase::reject(key, src)),
    }
}

fn tree(places: &[usize], vis: &dyn Fn(usize) -> Vis, mods: &dyn Fn(usize) -> Vis) -> Tree {
    let mut t = Tree::default();
    t.put(0, "m", Item::Mod(mods(1)));
    t.put(1, "k", Item::Mod(mods(2)));
    t.put(0, "n", Item::Mod(mods(3)));
    for p in places {
        t.put(*p, "f", Item::Def(vis(*p), 11 + *p as u32 * 3));
    }
    t
}

fn paths(thorough: bool, out: &mut Vec<VCase>) {
    let mut u = 0;
    let mut add = |key: String, t: &Tree, kind: &Kind, from: usize, path: &[&str], stride: usize, out: &mut Vec<VCase>| {
        u += 1;
        let ok = t.duplicate.is_empty() && t.uses_ok() && t.resolve(from, path, &[]) != Res::None;
        if !thorough && !ok && u % stride != 0 {
            return;
        }
        path_case(format!("path/{}/{key}/{}/{}", kind.name, t.mods()[from].join("."), path.join("::")), t, kind, from, path, u, out);
    };
    let all = |_: usize| Vis::Pub;
    let subsets: Vec<Vec<usize>> = (1..16).map(|s: usize| (0..4).filter(|i| s >> i & 1 == 1).collect()).collect();
    // no imports, all kinds of items
    for (ki, kind) in KINDS.iter().enumerate() {
        for (si, s) in subsets.iter().enumerate() {
            let t = tree(s, &all, &all);
            for from in 0..4 {
                for (pi, p) in PATHS.iter().enumerate() {
                    if ki > 0 && !thorough && (si + pi + from) % 3 != 0 {
                        continue;
                    }
                    add(format!("{s:?}"), &t, kind, from, p, if ki == 0 { 2 } else { 6 }, out);
                }
            }
        }
    }
    // one import
    let targets: &[P] = &[&["m", "f"], &["lib", "f"], &["lib", "m", "f"], &["self", "k", "f"], &["k", "f"], &["lib", "m", "k", "f"], &["super", "f"], &["super", "super", "f"], &["super", "n", "f"], &["lib", "n", "f"], &["n", "f"], &["super", "m", "k", "f"], &["lib", "m"], &["lib", "m", "k"], &["super", "n"], &["m"], &["self", "f"], &["super"], &["lib"]];
    let places: Vec<Vec<usize>> = if thorough { subsets.clone() } else { vec![vec![0, 1, 2, 3], vec![0], vec![1], vec![2], vec![3]] };
    let mut i = 0;
    for (ki, kind) in KINDS.iter().enumerate() {
        for s in &places {
            for um in 0..4 {
                for tg in targets {
                    for alias in ["f", "g"] {
                        if alias == "f" && tg.len() == 1 {
                            continue;
                        }
                        if tg.last() == Some(&"super") || tg.last() == Some(&"lib") {
                            continue;
                        }
                        let mut t = tree(s, &all, &all);
                        t.put(um, alias, Item::Use(Vis::Pub, tg.to_vec()));
                        if !t.duplicate.is_empty() || !t.uses_ok() {
                            i += 1;
                            if thorough || i % 4 == 0 {
                                add(format!("use{s:?}/{um}/{}/{alias}", tg.join("::")), &t, kind, um, &[alias], 1, out);
                            }
                            continue;
                        }
                        for from in 0..4 {
                            for p in PATHS {
                                i += 1;
                                if ki > 0 && i % (if thorough { 3 } else { 23 }) != 0 {
                                    continue;
                                }
                                if ki == 0 && !thorough && s.len() != 4 && i % 3 != 0 {
                                    continue;
                                }
                                add(format!("use{s:?}/{um}/{}/{alias}", tg.join("::")), &t, kind, from, p, 17, out);
                            }
                        }
                    }
                }
            }
        }
    }
    // imports of imports, in either order of the text, and circular ones
    let chain: &[(usize, &'static str, P)] = &[
        (0, "g", &["m", "f"]),
        (0, "g", &["m", "g"]),
        (0, "h", &["g"]),
        (0, "g", &["h"]),
        (1, "g", &["super", "g"]),
        (1, "g", &["k", "g"]),
        (1, "g", &["k", "f"]),
        (1, "h", &["lib", "h"]),
        (2, "g", &["super", "g"]),
        (2, "g", &["lib", "n", "g"]),
        (2, "g", &["super", "f"]),
        (2, "h", &["lib", "g"]),
        (3, "g", &["lib", "m", "k", "g"]),
        (3, "g", &["super", "f"]),
        (3, "h", &["g"]),
        (0, "q", &["m", "k"]),
        (3, "q", &["lib", "q"]),
        (3, "g", &["q", "f"]),
        (1, "q", &["super", "n"]),
        (2, "g", &["super", "q", "f"]),
    ];
    let f4 = tree(&[0, 1, 2, 3], &all, &all);
    for a in chain {
        for b in chain {
            for c in chain.iter().chain(&[(9, "", &[] as P)]) {
                if std::ptr::eq(a, b) || std::ptr::eq(b, c) || std::ptr::eq(a, c) {
                    continue;
                }
                let mut t = f4.clone();
                let mut ends: Vec<(usize, P)> = vec![];
                for (m, n, p) in [a, b, c] {
                    if *m < 9 {
                        t.put(*m, n, Item::Use(Vis::Pub, p.to_vec()));
                        match *n {
                            "g" => ends.push((*m, &["g"])),
                            "h" => ends.push((*m, &["h"])),
                            _ => ends.push((*m, &["q", "f"])),
                        }
                    }
                }
                i += 1;
                if c.0 < 9 && !thorough && i % 3 != 0 {
                    continue;
                }
                let good = t.duplicate.is_empty() && t.uses_ok();
                if !good && i % 5 != 0 && !thorough {
                    continue;
                }
                for (m, p) in ends {
                    add(format!("chain/{a:?}{b:?}{c:?}"), &t, &KINDS[0], m, p, 1, out);
                    if !good {
                        break;
                    }
                }
            }
        }
    }
    // visibility
    let vs = [Vis::Imp, Vis::Pub, Vis::Lib, Vis::Slf, Vis::Sup];
    for place in 0..4 {
        for v in vs {
            for mv in vs {
                for kv in vs {
                    if kv != Vis::Pub && place != 2 {
                        continue;
                    }
                    let mods = |m: usize| if m == 2 { kv } else { mv };
                    let t = tree(&[place], &|_| v, &mods);
                    for from in 0..4 {
                        for p in PATHS {
                            i += 1;
                            let target = t.clone();
                            // only paths that would reach the item if everything were public
                            let open = tree(&[place], &all, &all);
                            if open.resolve(from, p, &[]) == Res::None {
                                continue;
                            }
                            for (ki, kind) in KINDS.iter().enumerate() {
                                if ki == 0 || thorough || i % 11 == ki {
                                    // rrr of a private module is reached anyway: the modules are visible to their parents
                                    add(format!("vis{v:?}/{mv:?}/{kv:?}/{place}"), &target, kind, from, p, 1, out);
                                }
                            }
                        }
                    }
                    // through an import with a visibility
                    for uv in vs {
                        for (um, tg) in [(0, &["m", "k", "f"] as P), (1, &["k", "f"]), (1, &["super", "n", "f"]), (3, &["super", "m", "f"]), (0, &["n", "f"]), (2, &["super", "f"])] {
                            let open = tree(&[place], &all, &all);
                            if open.resolve(um, tg, &[]) == Res::None {
                                continue;
                            }
                            let mut t = t.clone();
                            t.put(um, "g", Item::Use(uv, tg.to_vec()));
                            let mut open = open.clone();
                            open.put(um, "g", Item::Use(Vis::Pub, tg.to_vec()));
                            for from in 0..4 {
                                for p in PATHS {
                                    i += 1;
                                    if !p.contains(&"g") || open.resolve(from, p, &[]) == Res::None || (!thorough && i % 3 != 0) {
                                        continue;
                                    }
                                    add(format!("visuse{v:?}/{mv:?}/{kv:?}/{uv:?}/{place}/{um}"), &t, &KINDS[0], from, p, 1, out);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ part C: names of the library

/// Whatever a program calls its things, operators, lambdas and so on mean the same
/// Two libraries which use each other's items
fn libraries(thorough: bool, out: &mut Vec<VCase>) {
    let mut u = 1_000_000;
    let base = |s: &[usize], v: Vis, swap: bool| {
        let mut t = Tree { libs: true, swap, ..Default::default() };
        t.put(0, "m", Item::Mod(Vis::Pub));
        t.put(2, "m", Item::Mod(Vis::Pub));
        for p in s {
            t.put(*p, "f", Item::Def(v, 11 + *p as u32 * 3));
        }
        t
    };
    let mut add = |key: String, t: &Tree, kind: &Kind, from: usize, path: &[&str], out: &mut Vec<VCase>| {
        u += 1;
        path_case(format!("libs/{}/{key}/{}/{}", kind.name, MODS2[from].join("."), path.join("::")), t, kind, from, path, u, out);
    };
    let refs: &[P] = &[&["f"], &["lib", "f"], &["self", "f"], &["m", "f"], &["lib", "m", "f"], &["A", "f"], &["B", "f"], &["A", "m", "f"], &["B", "m", "f"], &["super", "f"], &["self", "m", "f"]];
    let able = |from: usize, p: &[&str]| p[0] != "super" || MODS2[from].len() > 1;
    for (ki, kind) in KINDS.iter().enumerate() {
        for s in 1..16usize {
            let places: Vec<usize> = (0..4).filter(|i| s >> i & 1 == 1).collect();
            for (vi, v) in [Vis::Pub, Vis::Lib, Vis::Imp, Vis::Slf].into_iter().enumerate() {
                if ki > 0 && !thorough && (s % 5 != 0 || vi > 1) {
                    continue;
                }
                let t = base(&places, v, (s + vi) % 2 == 0);
                for from in 0..4 {
                    for p in refs {
                        if able(from, p) {
                            add(format!("none/{s}/{v:?}"), &t, kind, from, p, out);
                        }
                    }
                }
            }
        }
    }
    // one import
    let names: &[P] = &[&["g"], &["self", "g"], &["lib", "g"], &["A", "g"], &["B", "g"], &["A", "m", "g"], &["B", "m", "g"], &["lib", "m", "g"]];
    for (ki, kind) in KINDS.iter().enumerate() {
        for at in 0..4 {
            for (vi, v) in [Vis::Pub, Vis::Lib, Vis::Imp].into_iter().enumerate() {
                for (ti, target) in refs.iter().enumerate() {
                    for (di, dv) in [Vis::Pub, Vis::Lib].into_iter().enumerate() {
                        if !able(at, target) || ki > 0 && !thorough && (at + vi + ti + di + ki) % 4 != 0 {
                            continue;
                        }
                        for places in [&[0usize, 1, 2, 3][..], &[1, 3]] {
                            let mut t = base(places, dv, (at + vi) % 2 == 0);
                            t.put(at, "g", Item::Use(v, target.to_vec()));
                            let good = t.uses_ok();
                            for from in 0..4 {
                                for (pi, p) in names.iter().enumerate() {
                                    let good = good && t.resolve(from, p, &[]) != Res::None;
                                    if !thorough && !good && (pi + from + at + ti) % 3 != 0 {
                                        continue;
                                    }
                                    add(format!("use{}/{at}/{v:?}{dv:?}/{}", places.len(), target.join("::")), &t, kind, from, p, out);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // an import of an import, and of a module
    for a in 0..4 {
        for b in 0..4 {
            for t1 in refs {
                for t2 in [&["lib", "g"][..], &["A", "g"], &["B", "g"], &["A", "m", "g"], &["B", "m", "g"], &["lib", "m", "g"]] {
                    for mid in [false, true] {
                        if !able(a, t1) || t1.len() < 2 {
                            continue;
                        }
                        let mut t = base(&[0, 1, 2, 3], Vis::Pub, (a + b) % 2 == 0);
                        if mid {
                            // g is the module, h its f by that
                            if t1[t1.len() - 2] != "m" {
                                continue;
                            }
                            t.put(a, "g", Item::Use(Vis::Pub, t1[..t1.len() - 1].to_vec()));
                            let mut p = t2.to_vec();
                            p.push("f");
                            t.put(b, "h", Item::Use(Vis::Pub, p));
                        } else {
                            t.put(a, "g", Item::Use(Vis::Pub, t1.to_vec()));
                            t.put(b, "h", Item::Use(Vis::Pub, t2.to_vec()));
                        }
                        if !t.uses_ok() && !thorough && (a + b) % 2 == 0 {
                            continue;
                        }
                        for (from, p) in [(b, &["h"][..]), (0, &["A", "h"]), (2, &["A", "h"]), (0, &["B", "h"]), (1, &["B", "m", "h"]), (3, &["A", "m", "h"])] {
                            if t.uses_ok() && t.resolve(from, p, &[]) == Res::None && from != 0 {
                                continue;
                            }
                            add(format!("chain/{mid}/{a}{b}/{}/{}", t1.join("::"), t2.join("::")), &t, &KINDS[0], from, p, out);
                        }
                    }
                }
            }
        }
    }
}

fn hygiene(thorough: bool, out: &mut Vec<VCase>) {
    let names = [
        "PartialEq", "PartialOrd", "Not", "And", "Or", "Xor", "BitAnd", "BitOr", "BitXor", "BitNot", "WrappingAdd", "WrappingSub", "WrappingMul", "WrappingNeg", "WrappingShl", "WrappingShr", "Fn", "Entity", "Pipeline", "Number", "Data", "Copy", "std", "core", "bool", "uint", "int", "clock", "Option", "Some", "None",
        "Memory", "concat", "zext", "sext", "trunc", "T", "eq", "ne", "lt", "gt", "le", "ge", "not", "and", "or", "xor", "bit_and", "bit_or", "bit_xor", "bit_not", "wrapping_add", "wrapping_sub", "wrapping_mul", "wrapping_neg", "call", "ops", "conv", "mem", "bit", "tri", "string",
    ];
    struct F {
        name: &'static str,
        expr: &'static str,
        f: fn(u128, u128) -> u128,
    }
    const M: u128 = 7;
    let feats = [
        F { name: "eq", expr: "if a == b { 1u3 } else { 2 }", f: |a, b| if a == b { 1 } else { 2 } },
        F { name: "ne", expr: "if a != b { 1u3 } else { 2 }", f: |a, b| if a != b { 1 } else { 2 } },
        F { name: "cmp", expr: "if a < b { if a <= 3 { 1u3 } else { 4 } } else { if a > b { 2 } else { 3 } }", f: |a, b| if a < b { if a <= 3 { 1 } else { 4 } } else if a > b { 2 } else { 3 } },
        F { name: "logic", expr: "if !(a == 1) && (b == 2 || a == 3) ^^ (b >= 4) { 1u3 } else { 2 }", f: |a, b| if a != 1 && ((b == 2 || a == 3) ^ (b >= 4)) { 1 } else { 2 } },
        F { name: "bits", expr: "(a & b) | (~a ^ 5)", f: |a, b| (a & b) | ((!a & M) ^ 5) },
        F { name: "wrap", expr: "a +. b *. 3 -. 1", f: |a, b| (a + b * 3 + 7) & M },
        F { name: "shift", expr: "(a << 1) ^ (b >> 1)", f: |a, b| ((a << 1) & M) ^ (b >> 1) },
        F { name: "lambda", expr: "{ let lam = fn |p| { p +. b }; lam.call((a,)) }", f: |a, b| (a + b) & M },
        F { name: "lambda2", expr: "{ let lam = fn |p, q| { if p == q { p } else { a } }; lam.call((a, b)) }", f: |a, _| a },
        F { name: "match", expr: "match (a, b) { (0, q) => q, (p, 3) => p, (p, q) => { let s = [p, q, a]; s[1] } }", f: |a, b| if a == 0 { b } else if b == 3 { a } else { b } },
        F { name: "array", expr: "{ let s = [a, b, 3]; let t = s[1..3]; t[0] ^ t[1] }", f: |_, b| b ^ 3 },
    ];
    // where the name is put: (form, text before, head of the function, use)
    type Place = (&'static str, fn(&str, &str) -> Option<String>);
    let pre = "type U3 = uint<3>;\ntype Bl = bool;\n";
    let places: Vec<Place> = vec![
        ("param", |n, e| Some(format!("fn f(a: uint<3>, b: uint<3>, {n}: bool) -> uint<3> {{ {e} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ f(a, b, true) }}\n"))),
        // (None is a pattern)
        ("local", |n, e| (n != "None").then(|| format!("fn top(a: uint<3>, b: uint<3>) -> uint<3> {{ let {n} = a; {e} }}\n"))),
        ("pattern", |n, e| {
            if ["Some", "None", "Option", "bool", "uint", "int", "clock", "Number", "Data"].contains(&n) {
                return None;
            }
            Some(format!("mod h {{ use lib::U3; pub fn f(a: U3, b: U3) -> U3 {{ match (a, b) {{ (zz, {n}) => {{ {e} }} }} }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ h::f(a, b) }}\n"))
        }),
        ("mod-fn", |n, e| Some(format!("mod h {{ use lib::U3; fn {n}(x: U3) -> U3 {{ x }} pub fn f(a: U3, b: U3) -> U3 {{ {e} }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ h::f(a, b) }}\n"))),
        ("mod-struct", |n, e| Some(format!("mod h {{ use lib::U3; struct {n} {{ x: U3 }} pub fn f(a: U3, b: U3) -> U3 {{ {e} }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ h::f(a, b) }}\n"))),
        ("mod-enum", |n, e| Some(format!("mod h {{ use lib::U3; enum {n} {{ A, {n} }} pub fn f(a: U3, b: U3) -> U3 {{ {e} }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ h::f(a, b) }}\n"))),
        ("mod-mod", |n, e| Some(format!("mod h {{ use lib::U3; mod {n} {{ }} pub fn f(a: U3, b: U3) -> U3 {{ {e} }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ h::f(a, b) }}\n"))),
        ("mod-use", |n, e| Some(format!("mod h {{ use lib::U3; use lib::other as {n}; pub fn f(a: U3, b: U3) -> U3 {{ {e} }} }}\nfn other() -> bool {{ true }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ h::f(a, b) }}\n"))),
        ("mod-trait", |n, e| Some(format!("mod h {{ use lib::U3; use lib::Bl; trait {n} {{ fn QU_{n}(self) -> Bl; }} impl {n} for U3X {{ fn QU_{n}(self) -> Bl {{ true }} }} struct U3X {{}} pub fn f(a: U3, b: U3) -> U3 {{ {e} }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ h::f(a, b) }}\n"))),
        ("generic", |n, e| Some(format!("mod h {{ use lib::U3; pub fn f<{n}>(a: U3, b: U3, c: {n}) -> U3 {{ {e} }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ h::f(a, b, true) }}\n"))),
        ("generic-int", |n, e| Some(format!("mod h {{ use lib::U3; pub fn f<#uint {n}>(a: U3, b: U3) -> U3 {{ {e} }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ h::f::<4>(a, b) }}\n"))),
        ("field", |n, e| Some(format!("struct S {{ {n}: bool }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ let s = S$({n}: true); if s.{n} {{ {e} }} else {{ 0 }} }}\n"))),
        ("method", |n, e| Some(format!("struct S {{ }}\nimpl S {{ fn {n}(self, a: uint<3>, b: uint<3>) -> uint<3> {{ {e} }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ S().{n}(a, b) }}\n"))),
        ("unit", |n, e| Some(format!("mod h {{ use lib::U3; pub fn {n}(a: U3, b: U3) -> U3 {{ {e} }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ h::{n}(a, b) }}\n"))),
    ];
    for (ni, n) in names.iter().enumerate() {
        for (pi, (place, mk)) in places.iter().enumerate() {
            for (fi, f) in feats.iter().enumerate() {
                if !thorough && (ni + pi + fi) % 2 != 0 {
                    continue;
                }
                let Some(t) = mk(n, f.expr) else { continue };
                let src = format!("{pre}{}", t.replace("QU_", &format!("u{ni}_{pi}_{fi}_")));
                let g = f.f;
                out.push(VCase::case(Case::comb(format!("hygiene/{place}/{n}/{}", f.name), src, &[("a", 3), ("b", 3)], 3, move |i| Some(g(i[0], i[1])))));
            }
        }
    }
    // methods and traits on the operands themselves
    let ms = ["eq", "ne", "lt", "gt", "le", "ge", "bit_and", "bit_or", "bit_xor", "bit_not", "wrapping_add", "wrapping_sub", "wrapping_mul", "add", "sub", "shl"];
    for m in ms {
        for f in &feats {
            let g = f.f;
            let c = |k: &str, src: String| VCase::case(Case::comb(format!("hygiene/{k}/{m}/{}", f.name), src, &[("a", 3), ("b", 3)], 3, move |i| Some(g(i[0], i[1]))));
            out.push(c("inherent", format!("impl uint<3> {{ fn {m}(self, rhs: uint<3>) -> uint<3> {{ 0 }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ {} }}\n", f.expr)));
            out.push(c("trait", format!("trait QT {{ fn {m}(self, rhs: uint<3>) -> uint<3>; }}\nimpl QT for uint<3> {{ fn {m}(self, rhs: uint<3>) -> uint<3> {{ 0 }} }}\nfn top(a: uint<3>, b: uint<3>) -> uint<3> {{ {} }}\n", f.expr)));
        }
    }
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let th = ctx.thorough();
    let mut v = vec![];
    bodies(th, &mut v);
    decls(&mut v);
    ctx.count("bodies", v.len() as u64);
    let n = v.len();
    paths(th, &mut v);
    ctx.count("paths", (v.len() - n) as u64);
    let n = v.len();
    libraries(th, &mut v);
    ctx.count("libraries", (v.len() - n) as u64);
    hygiene(th, &mut v);
    // One after the other: these impls are visible everywhere
    let (alone, mut v): (Vec<VCase>, Vec<VCase>) = v.into_iter().partition(|c| c.key.starts_with("hygiene/inherent") || c.key.starts_with("hygiene/trait"));
    let only = std::env::var("MC_ONLY").ok();
    if let Some(o) = &only {
        v.retain(|c| c.key.starts_with(o.as_str()));
    }
    run_verdicts(&ctx, &pool, &v, &RunOpt { batch: 120, ..RunOpt::std() });
    let alone: Vec<VCase> = alone.into_iter().filter(|c| only.as_ref().is_none_or(|o| c.key.starts_with(o.as_str()))).collect();
    run_verdicts(&ctx, &pool, &alone, &RunOpt { batch: 1, ..RunOpt::std() });
    ctx.finish(
        "model_checking",
        "for every arrangement of bindings, items, imports and visibilities up to the bound, a name is accepted exactly if the reference resolution finds something, and then the emitted hardware computes what it found",
        &["an import that re-exports an item to code from which the item itself is not visible is expected to be rejected, as the compiler does"],
        true,
    )
}
