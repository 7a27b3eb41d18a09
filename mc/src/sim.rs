//! Elaborator, structural lint and four-state simulator for the Verilog subset in `vlog`.

use crate::vlog::{self, Dir, Expr, File, Item, Module, Stmt};
use crate::word::{V4, Word};
use num::{BigUint, ToPrimitive};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};

pub type SigId = usize;

#[derive(Clone, Debug)]
pub enum Node<W> {
    Const(V4<W>),
    Sig(SigId, u32),
    /// (sig, offset, width)
    Slice(SigId, u32, u32),
    /// dynamic: (sig, sigwidth, base node, base width, scale to subtract for -: , width)
    Dyn(SigId, u32, Box<Node<W>>, u32, u32),
    MemRead(usize, Box<Node<W>>, u32),
    Ext { e: Box<Node<W>>, from: u32, to: u32, signed: bool },
    Concat(Vec<(Node<W>, u32)>),
    Un(&'static str, Box<Node<W>>, u32),
    /// op, a, b, operand width, signed operands, width of b (for shifts)
    Bin(&'static str, Box<Node<W>>, Box<Node<W>>, u32, bool, u32),
    Cond(Box<Node<W>>, Box<Node<W>>, Box<Node<W>>, u32),
}

#[derive(Clone, Debug)]
pub enum LPart<W> {
    Static { sig: SigId, off: u32, w: u32 },
    DynBit { sig: SigId, idx: Node<W>, w: u32, sigw: u32 },
    Mem { mem: usize, idx: Node<W> },
}

/// Left-hand side: parts, most significant first.
#[derive(Clone, Debug)]
pub struct LV<W> {
    pub parts: Vec<(LPart<W>, u32)>,
    pub w: u32,
}

#[derive(Clone, Debug)]
pub enum CStmt<W> {
    Block(Vec<CStmt<W>>),
    If(Node<W>, Box<CStmt<W>>, Option<Box<CStmt<W>>>),
    Case { z: bool, sel: Node<W>, w: u32, items: Vec<(Vec<Node<W>>, CStmt<W>)>, default: Option<Box<CStmt<W>>> },
    Assign { lv: LV<W>, rhs: Node<W>, nb: bool },
    Assert(Node<W>, usize),
    Null,
}

#[derive(Clone, Debug)]
pub struct Proc<W> {
    pub body: CStmt<W>,
    pub reads: Vec<SigId>,
    pub mem_reads: Vec<usize>,
    pub writes: Vec<SigId>,
    pub line: u32,
}

#[derive(Clone, Debug)]
pub struct FF<W> {
    pub edges: Vec<(bool, Node<W>)>,
    pub body: CStmt<W>,
    pub line: u32,
}

#[derive(Clone, Debug)]
pub struct SigInfo {
    pub name: String,
    pub w: u32,
    pub is_state: bool,
    pub is_inout: bool,
    /// declared without a range
    pub scalar: bool,
}

#[derive(Clone, Debug)]
pub struct MemInfo {
    pub name: String,
    pub w: u32,
    pub len: u32,
}

#[derive(Clone, Debug)]
pub struct TopPort {
    pub name: String,
    pub dir: Dir,
    pub sig: SigId,
    pub w: u32,
}

#[derive(Clone)]
pub struct Design<W> {
    pub top: String,
    pub sigs: Vec<SigInfo>,
    pub mems: Vec<MemInfo>,
    pub order: Vec<Vec<usize>>, // SCCs of procs in evaluation order
    pub scc_cyclic: Vec<bool>,
    pub procs: Vec<Proc<W>>,
    pub ffs: Vec<FF<W>>,
    pub inits: Vec<CStmt<W>>,
    pub asserts: Vec<(Node<W>, u32, Vec<String>)>,
    pub ports: Vec<TopPort>,
    pub state_sigs: Vec<SigId>,
    pub consts: Vec<(SigId, V4<W>)>,
    pub inout_drivers: BTreeMap<SigId, Vec<SigId>>, // resolved net -> driver shadow signals
    pub lints: Vec<String>,
    pub port_index: HashMap<String, usize>,
    pub n_instances: usize,
}

#[derive(Clone, Debug)]
enum Sym {
    Sig(SigId),
    Const { w: u32, signed: bool, v: V4<BigUint> },
    Str,
    Mem(usize),
}

struct Scope {
    syms: HashMap<String, Sym>,
    prefix: String,
    module: String,
}

pub struct Elab<'a, W: Word> {
    file: &'a File,
    d: Design<W>,
    driven: HashMap<SigId, Vec<(u32, u32, u32)>>, // sig -> (off, w, line)
    read: HashSet<SigId>,
    inputs: HashSet<SigId>,
    depth: usize,
    lint_seen: HashSet<String>,
}

type R<T> = Result<T, String>;

struct Ty {
    w: u32,
    signed: bool,
}

fn big(n: &BigUint) -> u32 {
    n.to_u32().unwrap_or(u32::MAX)
}

impl<'a, W: Word> Elab<'a, W> {
    fn lint(&mut self, s: String) {
        if self.lint_seen.insert(s.clone()) {
            self.d.lints.push(s);
        }
    }

    fn new_sig(&mut self, name: String, w: u32, scalar: bool) -> R<SigId> {
        if w > W::MAXW {
            return Err("WIDE".into());
        }
        self.d.sigs.push(SigInfo { name, w, is_state: false, is_inout: false, scalar });
        Ok(self.d.sigs.len() - 1)
    }

    fn const_u32(&self, s: &Scope, e: &Expr) -> R<u32> {
        let n = self.const_eval(s, e)?;
        n.to_u32().ok_or_else(|| "constant too large".to_string())
    }

    fn const_eval(&self, s: &Scope, e: &Expr) -> R<BigUint> {
        Ok(match e {
            Expr::Num(n) => n.v.clone(),
            Expr::Bin("-", a, b) => {
                let (a, b) = (self.const_eval(s, a)?, self.const_eval(s, b)?);
                if a < b {
                    return Err("negative constant in range".into());
                }
                a - b
            }
            Expr::Bin("+", a, b) => self.const_eval(s, a)? + self.const_eval(s, b)?,
            Expr::Bin("*", a, b) => self.const_eval(s, a)? * self.const_eval(s, b)?,
            Expr::Id(n) => match s.syms.get(n) {
                Some(Sym::Const { v, .. }) => v.v.clone(),
                _ => return Err(format!("{} is not constant", n)),
            },
            _ => return Err(format!("not a constant expression: {e:?}")),
        })
    }

    fn is_const(&self, s: &Scope, e: &Expr) -> bool {
        self.const_eval(s, e).is_ok()
    }

    fn lookup<'b>(&self, s: &'b Scope, n: &str) -> R<&'b Sym> {
        s.syms.get(n).ok_or_else(|| format!("[{}] use of undeclared identifier `{}`", s.module, n))
    }

    fn ty(&mut self, s: &Scope, e: &Expr) -> R<Ty> {
        Ok(match e {
            Expr::Num(n) => Ty { w: n.width.unwrap_or(32.max(n.digits_w + if n.signed { 1 } else { 0 })), signed: n.signed },
            Expr::Str(_) => return Err("string in expression".into()),
            Expr::Id(n) => match self.lookup(s, n)? {
                Sym::Sig(i) => Ty { w: self.d.sigs[*i].w, signed: false },
                Sym::Const { w, signed, .. } => Ty { w: *w, signed: *signed },
                Sym::Mem(_) => return Err(format!("[{}] memory `{}` used as a value", s.module, n)),
                Sym::Str => return Err(format!("[{}] string `{}` used as a value", s.module, n)),
            },
            Expr::Index(n, _) => match self.lookup(s, n)? {
                Sym::Mem(m) => Ty { w: self.d.mems[*m].w, signed: false },
                _ => Ty { w: 1, signed: false },
            },
            Expr::Part(_, h, l) => {
                let (h, l) = (self.const_u32(s, h)?, self.const_u32(s, l)?);
                if h < l {
                    return Err(format!("[{}] reversed part select [{}:{}]", s.module, h, l));
                }
                Ty { w: h - l + 1, signed: false }
            }
            Expr::IdxPart(_, _, w, _) => Ty { w: self.const_u32(s, w)?, signed: false },
            Expr::Concat(v) => {
                let mut w = 0;
                for e in v {
                    if let Expr::Num(n) = e {
                        if n.width.is_none() {
                            return Err(format!("[{}] unsized constant in concatenation", s.module));
                        }
                    }
                    w += self.ty(s, e)?.w;
                }
                Ty { w, signed: false }
            }
            Expr::Repl(n, v) => {
                let n = self.const_u32(s, n)?;
                if n == 0 {
                    return Err(format!("[{}] zero replication", s.module));
                }
                let mut w = 0;
                for e in v {
                    w += self.ty(s, e)?.w;
                }
                Ty { w: w * n, signed: false }
            }
            Expr::Un(o, e) => match *o {
                "-" | "+" | "~" => self.ty(s, e)?,
                _ => Ty { w: 1, signed: false },
            },
            Expr::Bin(o, a, b) => match *o {
                "+" | "-" | "*" | "/" | "%" | "&" | "|" | "^" | "~^" => {
                    let (a, b) = (self.ty(s, a)?, self.ty(s, b)?);
                    Ty { w: a.w.max(b.w), signed: a.signed && b.signed }
                }
                "<<" | ">>" | ">>>" | "<<<" => self.ty(s, a)?,
                _ => Ty { w: 1, signed: false },
            },
            Expr::Cond(_, a, b) => {
                let (a, b) = (self.ty(s, a)?, self.ty(s, b)?);
                Ty { w: a.w.max(b.w), signed: a.signed && b.signed }
            }
            Expr::Signed(e) => Ty { w: self.ty(s, e)?.w, signed: true },
            Expr::Unsigned(e) => Ty { w: self.ty(s, e)?.w, signed: false },
        })
    }

    fn ext(&self, n: Node<W>, from: u32, to: u32, signed: bool) -> Node<W> {
        if from == to { n } else { Node::Ext { e: Box::new(n), from, to, signed } }
    }

    /// compile self-determined
    fn selfdet(&mut self, s: &Scope, e: &Expr) -> R<(Node<W>, u32, bool)> {
        let t = self.ty(s, e)?;
        Ok((self.ctx(s, e, t.w, t.signed)?, t.w, t.signed))
    }

    fn sel_check(&mut self, s: &Scope, n: &str, sig: SigId, hi: u32) {
        let i = &self.d.sigs[sig];
        if i.scalar {
            self.lint(format!("[{}] bit/part select of scalar `{}`", s.module, n));
        } else if hi >= i.w {
            let w = i.w;
            self.lint(format!("[{}] select out of range: `{}` has width {}, bit {} selected", s.module, n, w, hi));
        }
    }

    /// compile `e` in a context of width `w` and signedness `sg`
    fn ctx(&mut self, s: &Scope, e: &Expr, w: u32, sg: bool) -> R<Node<W>> {
        if w > W::MAXW {
            return Err("WIDE".into());
        }
        Ok(match e {
            Expr::Num(n) => {
                let own = self.ty(s, e)?.w;
                let mut v = n.v.clone();
                let mut x = n.x.clone();
                let dw = n.digits_w.max(1);
                let fillto = |v: &mut BigUint, x: &mut BigUint, from: u32, to: u32, fill: u8| {
                    if to > from && fill > 0 {
                        let m = (<BigUint as Word>::ones(to)) ^ (<BigUint as Word>::ones(from));
                        *x |= &m;
                        if fill == 2 {
                            *v |= &m;
                        }
                    }
                };
                if own > dw {
                    fillto(&mut v, &mut x, dw, own, n.fill);
                } else if own < dw {
                    v &= <BigUint as Word>::ones(own);
                    x &= <BigUint as Word>::ones(own);
                }
                if n.width.is_none() && n.fill > 0 && w > own {
                    fillto(&mut v, &mut x, own, w, n.fill);
                    Node::Const(V4 { v: W::from_big(&v), x: W::from_big(&x) })
                } else {
                    let c = Node::Const(V4 { v: W::from_big(&v), x: W::from_big(&x) });
                    self.ext(c, own, w, sg)
                }
            }
            Expr::Str(_) => return Err("string in expression".into()),
            Expr::Id(n) => match self.lookup(s, n)?.clone() {
                Sym::Sig(i) => {
                    self.read.insert(i);
                    let sw = self.d.sigs[i].w;
                    let n = Node::Sig(i, sw);
                    self.ext(n, sw, w, sg)
                }
                Sym::Const { w: cw, v, .. } => {
                    let n = Node::Const(V4 { v: W::from_big(&v.v), x: W::from_big(&v.x) });
                    self.ext(n, cw, w, sg)
                }
                Sym::Mem(_) | Sym::Str => return Err(format!("[{}] `{n}` used as a value", s.module)),
            },
            Expr::Index(n, i) => match self.lookup(s, n)?.clone() {
                Sym::Mem(m) => {
                    let (idx, iw, _) = self.selfdet(s, i)?;
                    let mw = self.d.mems[m].w;
                    self.ext(Node::MemRead(m, Box::new(idx), iw), mw, w, sg)
                }
                Sym::Sig(sig) => {
                    self.read.insert(sig);
                    let sw = self.d.sigs[sig].w;
                    let node = if self.is_const(s, i) {
                        let i = self.const_u32(s, i)?;
                        self.sel_check(s, n, sig, i);
                        if i >= sw { Node::Const(V4::all_x(1)) } else { Node::Slice(sig, i, 1) }
                    } else {
                        self.sel_check(s, n, sig, 0);
                        let (idx, iw, _) = self.selfdet(s, i)?;
                        Node::Dyn(sig, sw, Box::new(idx), iw, 1)
                    };
                    self.ext(node, 1, w, sg)
                }
                Sym::Const { w: cw, v, .. } => {
                    self.lint(format!("[{}] select of parameter `{}`", s.module, n));
                    let i = self.const_u32(s, i)?;
                    let b = |b: &BigUint| W::from_u64(BigUint::bit(b, i as u64) as u64);
                    let c = if i >= cw { V4::all_x(1) } else { V4 { v: b(&v.v), x: b(&v.x) } };
                    self.ext(Node::Const(c), 1, w, sg)
                }
                Sym::Str => return Err("index of string".into()),
            },
            Expr::Part(n, h, l) => {
                let (h, l) = (self.const_u32(s, h)?, self.const_u32(s, l)?);
                if h < l {
                    return Err(format!("[{}] reversed part select", s.module));
                }
                let pw = h - l + 1;
                match self.lookup(s, n)?.clone() {
                    Sym::Sig(sig) => {
                        self.read.insert(sig);
                        self.sel_check(s, n, sig, h);
                        let sw = self.d.sigs[sig].w;
                        let node = if h >= sw {
                            let mut parts = vec![];
                            if l >= sw {
                                parts.push((Node::Const(V4::all_x(pw)), pw));
                            } else {
                                parts.push((Node::Const(V4::all_x(h + 1 - sw)), h + 1 - sw));
                                parts.push((Node::Slice(sig, l, sw - l), sw - l));
                            }
                            Node::Concat(parts)
                        } else {
                            Node::Slice(sig, l, pw)
                        };
                        self.ext(node, pw, w, sg)
                    }
                    Sym::Const { v, .. } => {
                        let f = |b: &BigUint| W::from_big(&((b >> l as usize) & <BigUint as Word>::ones(pw)));
                        self.ext(Node::Const(V4 { v: f(&v.v), x: f(&v.x) }), pw, w, sg)
                    }
                    _ => return Err(format!("[{}] part select of `{}`", s.module, n)),
                }
            }
            Expr::IdxPart(n, b, wd, up) => {
                let pw = self.const_u32(s, wd)?;
                if pw == 0 {
                    return Err(format!("[{}] zero-width part select of `{}`", s.module, n));
                }
                match self.lookup(s, n)?.clone() {
                    Sym::Sig(sig) => {
                        self.read.insert(sig);
                        let sw = self.d.sigs[sig].w;
                        let node = if self.is_const(s, b) {
                            let b = self.const_u32(s, b)?;
                            let lo = if *up {
                                b
                            } else {
                                if b + 1 < pw {
                                    return Err(format!("[{}] -: select below zero", s.module));
                                }
                                b + 1 - pw
                            };
                            self.sel_check(s, n, sig, lo + pw - 1);
                            if lo + pw > sw {
                                Node::Dyn(sig, sw, Box::new(Node::Const(V4::known(W::from_u64(lo as u64)))), 32, pw)
                            } else {
                                Node::Slice(sig, lo, pw)
                            }
                        } else {
                            if !*up {
                                return Err("dynamic -: select unsupported".into());
                            }
                            self.sel_check(s, n, sig, 0);
                            let (idx, iw, _) = self.selfdet(s, b)?;
                            Node::Dyn(sig, sw, Box::new(idx), iw, pw)
                        };
                        self.ext(node, pw, w, sg)
                    }
                    Sym::Const { v, .. } => {
                        let b = self.const_u32(s, b)?;
                        let lo = if *up { b } else { b + 1 - pw };
                        let f = |b: &BigUint| W::from_big(&((b >> lo as usize) & <BigUint as Word>::ones(pw)));
                        self.ext(Node::Const(V4 { v: f(&v.v), x: f(&v.x) }), pw, w, sg)
                    }
                    _ => return Err(format!("[{}] part select of `{}`", s.module, n)),
                }
            }
            Expr::Concat(v) => {
                let mut parts = vec![];
                let mut tw = 0;
                for e in v {
                    let (n, w, _) = self.selfdet(s, e)?;
                    parts.push((n, w));
                    tw += w;
                }
                self.ext(Node::Concat(parts), tw, w, sg)
            }
            Expr::Repl(n, v) => {
                let n = self.const_u32(s, n)?;
                let mut parts = vec![];
                let mut tw = 0;
                for e in v {
                    let (n, w, _) = self.selfdet(s, e)?;
                    parts.push((n, w));
                    tw += w;
                }
                let mut all = vec![];
                for _ in 0..n {
                    all.extend(parts.iter().cloned());
                }
                self.ext(Node::Concat(all), tw * n, w, sg)
            }
            Expr::Un(o, a) => match *o {
                "+" => self.ctx(s, a, w, sg)?,
                "-" | "~" => {
                    let a = self.ctx(s, a, w, sg)?;
                    Node::Un(o, Box::new(a), w)
                }
                _ => {
                    let (a, aw, _) = self.selfdet(s, a)?;
                    self.ext(Node::Un(o, Box::new(a), aw), 1, w, sg)
                }
            },
            Expr::Bin(o, a, b) => match *o {
                "+" | "-" | "*" | "/" | "%" | "&" | "|" | "^" | "~^" => {
                    let a = self.ctx(s, a, w, sg)?;
                    let b = self.ctx(s, b, w, sg)?;
                    Node::Bin(o, Box::new(a), Box::new(b), w, sg, w)
                }
                "<<" | ">>" | ">>>" | "<<<" => {
                    let a = self.ctx(s, a, w, sg)?;
                    let (b, bw, _) = self.selfdet(s, b)?;
                    Node::Bin(o, Box::new(a), Box::new(b), w, sg, bw)
                }
                "&&" | "||" => {
                    let (a, aw, _) = self.selfdet(s, a)?;
                    let (b, bw, _) = self.selfdet(s, b)?;
                    let m = aw.max(bw);
                    let a = self.ext(a, aw, m, false);
                    let b = self.ext(b, bw, m, false);
                    self.ext(Node::Bin(o, Box::new(a), Box::new(b), m, false, m), 1, w, sg)
                }
                _ => {
                    let (ta, tb) = (self.ty(s, a)?, self.ty(s, b)?);
                    let cw = ta.w.max(tb.w);
                    let cs = ta.signed && tb.signed;
                    let a = self.ctx(s, a, cw, cs)?;
                    let b = self.ctx(s, b, cw, cs)?;
                    self.ext(Node::Bin(o, Box::new(a), Box::new(b), cw, cs, cw), 1, w, sg)
                }
            },
            Expr::Cond(c, a, b) => {
                let (c, _, _) = self.selfdet(s, c)?;
                let a = self.ctx(s, a, w, sg)?;
                let b = self.ctx(s, b, w, sg)?;
                Node::Cond(Box::new(c), Box::new(a), Box::new(b), w)
            }
            Expr::Signed(a) | Expr::Unsigned(a) => {
                let (n, aw, _) = self.selfdet(s, a)?;
                self.ext(n, aw, w, sg)
            }
        })
    }

    fn lvalue(&mut self, s: &Scope, e: &Expr, cont: bool) -> R<LV<W>> {
        let mut parts = vec![];
        self.lv_parts(s, e, cont, &mut parts)?;
        let w = parts.iter().map(|p| p.1).sum();
        Ok(LV { parts, w })
    }

    fn lv_sig(&self, s: &Scope, n: &str) -> R<SigId> {
        match self.lookup(s, n)? {
            Sym::Sig(i) => Ok(*i),
            Sym::Mem(_) => Err(format!("[{}] assignment to whole memory `{n}`", s.module)),
            _ => Err(format!("[{}] assignment to parameter `{n}`", s.module)),
        }
    }

    fn lv_parts(&mut self, s: &Scope, e: &Expr, cont: bool, out: &mut Vec<(LPart<W>, u32)>) -> R<()> {
        match e {
            Expr::Concat(v) => {
                for e in v {
                    self.lv_parts(s, e, cont, out)?;
                }
            }
            Expr::Id(n) => {
                let sig = self.lv_sig(s, n)?;
                let w = self.d.sigs[sig].w;
                out.push((LPart::Static { sig, off: 0, w }, w));
            }
            Expr::Index(n, i) => {
                if let Sym::Mem(m) = self.lookup(s, n)?.clone() {
                    let (idx, _, _) = self.selfdet(s, i)?;
                    let w = self.d.mems[m].w;
                    out.push((LPart::Mem { mem: m, idx }, w));
                    return Ok(());
                }
                let sig = self.lv_sig(s, n)?;
                if self.is_const(s, i) {
                    let i = self.const_u32(s, i)?;
                    self.sel_check(s, n, sig, i);
                    out.push((LPart::Static { sig, off: i, w: 1 }, 1));
                } else {
                    if cont {
                        self.lint(format!("[{}] non-constant select on the left of a continuous assignment to `{n}`", s.module));
                    }
                    self.sel_check(s, n, sig, 0);
                    let (idx, _, _) = self.selfdet(s, i)?;
                    let sw = self.d.sigs[sig].w;
                    out.push((LPart::DynBit { sig, idx, w: 1, sigw: sw }, 1));
                }
            }
            Expr::Part(n, h, l) => {
                let (h, l) = (self.const_u32(s, h)?, self.const_u32(s, l)?);
                if h < l {
                    return Err(format!("[{}] reversed part select", s.module));
                }
                let sig = self.lv_sig(s, n)?;
                self.sel_check(s, n, sig, h);
                out.push((LPart::Static { sig, off: l, w: h - l + 1 }, h - l + 1));
            }
            Expr::IdxPart(n, b, wd, up) => {
                let pw = self.const_u32(s, wd)?;
                let sig = self.lv_sig(s, n)?;
                if self.is_const(s, b) {
                    let b = self.const_u32(s, b)?;
                    if !*up && b + 1 < pw {
                        return Err(format!("[{}] -: select below zero", s.module));
                    }
                    let lo = if *up { b } else { b + 1 - pw };
                    self.sel_check(s, n, sig, lo + pw - 1);
                    out.push((LPart::Static { sig, off: lo, w: pw }, pw));
                } else {
                    if cont {
                        self.lint(format!("[{}] non-constant select on the left of a continuous assignment to `{n}`", s.module));
                    }
                    self.sel_check(s, n, sig, 0);
                    let (idx, _, _) = self.selfdet(s, b)?;
                    let sw = self.d.sigs[sig].w;
                    out.push((LPart::DynBit { sig, idx, w: pw, sigw: sw }, pw));
                }
            }
            _ => return Err(format!("[{}] invalid assignment target", s.module)),
        }
        Ok(())
    }

    fn rhs(&mut self, s: &Scope, e: &Expr, lw: u32) -> R<Node<W>> {
        let t = self.ty(s, e)?;
        let w = t.w.max(lw);
        let n = self.ctx(s, e, w, t.signed)?;
        Ok(if w > lw { Node::Ext { e: Box::new(n), from: w, to: lw, signed: false } } else { n })
    }

    fn stmt(&mut self, s: &Scope, st: &Stmt) -> R<CStmt<W>> {
        Ok(match st {
            Stmt::Null | Stmt::SysCall(_) => CStmt::Null,
            Stmt::Block(v) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.stmt(s, x)?);
                }
                CStmt::Block(o)
            }
            Stmt::If(c, a, b) => {
                let (c, _, _) = self.selfdet(s, c)?;
                let a = self.stmt(s, a)?;
                let b = match b {
                    Some(b) => Some(Box::new(self.stmt(s, b)?)),
                    None => None,
                };
                CStmt::If(c, Box::new(a), b)
            }
            Stmt::Case { kind, sel, items, default } => {
                let mut w = self.ty(s, sel)?.w;
                for (es, _) in items {
                    for e in es {
                        w = w.max(self.ty(s, e)?.w);
                    }
                }
                let seln = self.ctx(s, sel, w, false)?;
                let mut its = vec![];
                for (es, b) in items {
                    let mut ns = vec![];
                    for e in es {
                        ns.push(self.ctx(s, e, w, false)?);
                    }
                    its.push((ns, self.stmt(s, b)?));
                }
                let default = match default {
                    Some(d) => Some(Box::new(self.stmt(s, d)?)),
                    None => None,
                };
                CStmt::Case { z: *kind != "case", sel: seln, w, items: its, default }
            }
            Stmt::Blocking(l, r) | Stmt::NonBlocking(l, r) => {
                let nb = matches!(st, Stmt::NonBlocking(..));
                let lv = self.lvalue(s, l, false)?;
                let rhs = self.rhs(s, r, lv.w)?;
                CStmt::Assign { lv, rhs, nb }
            }
            Stmt::Assert(e, msgs) => {
                let (n, _, _) = self.selfdet(s, e)?;
                self.d.asserts.push((n.clone(), 0, msgs.clone()));
                CStmt::Assert(n, self.d.asserts.len() - 1)
            }
        })
    }

    fn mark_driven(&mut self, s: &Scope, lv: &LV<W>, line: u32) {
        for (p, _) in &lv.parts {
            if let LPart::Static { sig, off, w } = p {
                if !self.d.sigs[*sig].is_inout {
                    let prev = self.driven.get(sig).cloned().unwrap_or_default();
                    for (o2, w2, l2) in &prev {
                        if off < &(o2 + w2) && *o2 < off + w {
                            let n = self.d.sigs[*sig].name.clone();
                            self.lint(format!("[{}] `{}` has multiple drivers (lines {} and {})", s.module, n, l2, line));
                        }
                    }
                }
                self.driven.entry(*sig).or_default().push((*off, *w, line));
            } else if let LPart::DynBit { sig, sigw, .. } = p {
                self.driven.entry(*sig).or_default().push((0, *sigw, line));
            }
        }
    }

    fn add_comb(&mut self, body: CStmt<W>, line: u32) {
        let mut reads = vec![];
        let mut mr = vec![];
        let mut writes = vec![];
        stmt_rw(&body, &mut reads, &mut mr, &mut writes);
        reads.sort();
        reads.dedup();
        mr.sort();
        mr.dedup();
        writes.sort();
        writes.dedup();
        self.d.procs.push(Proc { body, reads, mem_reads: mr, writes, line });
    }

    fn module(
        &mut self,
        m: &'a Module,
        prefix: &str,
        params: &HashMap<String, (u32, bool, V4<BigUint>)>,
        ports: HashMap<String, SigId>,
    ) -> R<()> {
        self.depth += 1;
        if self.depth > 200 {
            return Err("instance recursion".into());
        }
        self.d.n_instances += 1;
        let mut s = Scope { syms: HashMap::new(), prefix: prefix.to_string(), module: m.name.clone() };
        for (n, id) in ports {
            s.syms.insert(n, Sym::Sig(id));
        }
        let mut port_names: HashSet<String> = HashSet::new();
        for p in &m.ports {
            if !port_names.insert(p.name.clone()) {
                self.lint(format!("[{}] duplicate port `{}`", m.name, p.name));
            }
        }
        // declarations (Verilog requires declaration before use; check order)
        let mut undeclared_ok: HashSet<String> = port_names.clone();
        let mut inst_names: HashSet<String> = HashSet::new();
        for it in &m.items {
            match it {
                Item::Decl { name, range, dims, is_reg: _, line } => {
                    if !undeclared_ok.insert(name.clone()) {
                        self.lint(format!("[{}] duplicate declaration of `{}`", m.name, name));
                    }
                    let w = match range {
                        Some((h, l)) => {
                            let (h, l) = (self.const_u32(&s, h), self.const_u32(&s, l)?);
                            let h = h.map_err(|e| format!("[{}] line {line}: bad range for `{name}`: {e}", m.name))?;
                            if l != 0 {
                                return Err("nonzero lsb".into());
                            }
                            h + 1
                        }
                        None => 1,
                    };
                    if let Some((h, _)) = dims {
                        let len = self
                            .const_u32(&s, h)
                            .map_err(|e| format!("[{}] line {line}: bad dimension for `{name}`: {e}", m.name))?
                            + 1;
                        self.d.mems.push(MemInfo { name: format!("{prefix}{name}"), w, len });
                        if w > W::MAXW {
                            return Err("WIDE".into());
                        }
                        s.syms.insert(name.clone(), Sym::Mem(self.d.mems.len() - 1));
                    } else {
                        let id = self.new_sig(format!("{prefix}{name}"), w, range.is_none())?;
                        s.syms.insert(name.clone(), Sym::Sig(id));
                    }
                }
                Item::Param { name, range, value, overridable, .. } => {
                    if !undeclared_ok.insert(name.clone()) {
                        self.lint(format!("[{}] duplicate declaration of `{}`", m.name, name));
                    }
                    if *overridable {
                        if let Some((w, sg, v)) = params.get(name) {
                            s.syms.insert(name.clone(), Sym::Const { w: *w, signed: *sg, v: v.clone() });
                            continue;
                        }
                    }
                    if let Expr::Str(_) = value {
                        s.syms.insert(name.clone(), Sym::Str);
                        continue;
                    }
                    let t = self.ty(&s, value)?;
                    let (w, sg) = match range {
                        Some((h, l)) => {
                            if self.const_u32(&s, l)? != 0 {
                                return Err("nonzero lsb".into());
                            }
                            (self.const_u32(&s, h)? + 1, false)
                        }
                        None => (t.w, t.signed),
                    };
                    if w > W::MAXW || t.w > W::MAXW {
                        return Err("WIDE".into());
                    }
                    let n = self.rhs(&s, value, w)?;
                    let v: V4<W> = eval_const(&n)?;
                    s.syms.insert(
                        name.clone(),
                        Sym::Const { w, signed: sg, v: V4 { v: v.v.to_big(), x: v.x.to_big() } },
                    );
                }
                Item::Instance { name, .. } => {
                    if !inst_names.insert(name.clone()) {
                        self.lint(format!("[{}] duplicate instance name `{}`", m.name, name));
                    }
                }
                _ => {}
            }
        }
        for n in &inst_names {
            if undeclared_ok.contains(n) {
                self.lint(format!("[{}] instance name `{}` collides with a declaration", m.name, n));
            }
        }
        for it in &m.items {
            match it {
                Item::Assign(l, r, line) => {
                    let lv = self.lvalue(&s, l, true)?;
                    let rhs = self.rhs(&s, r, lv.w)?;
                    self.mark_driven(&s, &lv, *line);
                    // inout nets get one shadow signal per driver
                    if let [(LPart::Static { sig, off, w }, _)] = &lv.parts[..] {
                        if self.d.sigs[*sig].is_inout {
                            let (sig, off, w) = (*sig, *off, *w);
                            let full = self.d.sigs[sig].w;
                            let sh = self.new_sig(format!("{}$drv{}", self.d.sigs[sig].name, line), full, false)?;
                            self.d.inout_drivers.entry(sig).or_default().push(sh);
                            // undriven bits of the shadow are Z
                            let mut parts: Vec<(Node<W>, u32)> = vec![];
                            let z = |n: u32| (Node::Const(V4 { v: W::ones(n), x: W::ones(n) }), n);
                            if off + w < full {
                                parts.push(z(full - off - w));
                            }
                            parts.push((rhs, w));
                            if off > 0 {
                                parts.push(z(off));
                            }
                            let lv = LV { parts: vec![(LPart::Static { sig: sh, off: 0, w: full }, full)], w: full };
                            self.add_comb(CStmt::Assign { lv, rhs: Node::Concat(parts), nb: false }, *line);
                            continue;
                        }
                    }
                    self.add_comb(CStmt::Assign { lv, rhs, nb: false }, *line);
                }
                Item::AlwaysComb(st, line) => {
                    let b = self.stmt(&s, st)?;
                    let mut ws: Vec<(SigId, u32)> = vec![];
                    collect_targets(&b, &mut ws);
                    ws.sort();
                    ws.dedup();
                    for (sig, w) in ws {
                        let lv = LV { parts: vec![(LPart::Static { sig, off: 0, w }, w)], w };
                        self.mark_driven(&s, &lv, *line);
                    }
                    self.add_comb(b, *line);
                }
                Item::AlwaysFF(sens, st, line) => {
                    let mut edges = vec![];
                    for (p, e) in sens {
                        let (n, _, _) = self.selfdet(&s, e)?;
                        edges.push((*p, n));
                    }
                    let body = self.stmt(&s, st)?;
                    let mut ws: Vec<(SigId, u32)> = vec![];
                    collect_targets(&body, &mut ws);
                    ws.sort();
                    ws.dedup();
                    for (sig, w) in ws {
                        let lv = LV { parts: vec![(LPart::Static { sig, off: 0, w }, w)], w };
                        self.mark_driven(&s, &lv, *line);
                        self.d.sigs[sig].is_state = true;
                    }
                    self.d.ffs.push(FF { edges, body, line: *line });
                }
                Item::AlwaysChange(_, st, _) => {
                    // only assertions live in here; compiled for its side effect on d.asserts
                    let c = self.stmt(&s, st)?;
                    let mut ws = vec![];
                    collect_targets(&c, &mut ws);
                    if !ws.is_empty() {
                        return Err("always @(sig) block drives signals".into());
                    }
                }
                Item::Initial(st, _) => {
                    let c = self.stmt(&s, st)?;
                    self.d.inits.push(c);
                }
                Item::Decl { .. } | Item::Param { .. } => {}
                Item::Instance { module, name, params, conns, line, .. } => {
                    let Some(&mi) = self.file.by_name.get(module) else {
                        return Err(format!("[{}] instance of unknown module `{}`", m.name, module));
                    };
                    let cm = &self.file.modules[mi];
                    let mut ps = HashMap::new();
                    for (n, e) in params {
                        if matches!(e, Expr::Str(_)) {
                            continue;
                        }
                        let t = self.ty(&s, e)?;
                        let node = self.ctx(&s, e, t.w, t.signed)?;
                        let v: V4<W> = eval_const(&node)?;
                        ps.insert(n.clone(), (t.w, t.signed, V4 { v: v.v.to_big(), x: v.x.to_big() }));
                    }
                    let cprefix = format!("{}{}.", s.prefix, name);
                    let mut cports = HashMap::new();
                    let mut seen = HashSet::new();
                    let cscope = Scope {
                        syms: ps
                            .iter()
                            .map(|(k, (w, sg, v))| (k.clone(), Sym::Const { w: *w, signed: *sg, v: v.clone() }))
                            .chain(cm.items.iter().filter_map(|it| match it {
                                Item::Param { name, value: Expr::Num(n), overridable: true, .. } if !ps.contains_key(name) => {
                                    Some((name.clone(), Sym::Const { w: 32, signed: true, v: V4 { v: n.v.clone(), x: n.x.clone() } }))
                                }
                                _ => None,
                            }))
                            .collect(),
                        prefix: cprefix.clone(),
                        module: cm.name.clone(),
                    };
                    for (pn, _) in conns {
                        if !seen.insert(pn.clone()) {
                            self.lint(format!("[{}] port `{}` connected twice on `{}`", m.name, pn, name));
                        }
                        if !cm.ports.iter().any(|p| &p.name == pn) {
                            self.lint(format!("[{}] module `{}` has no port `{}`", m.name, cm.name, pn));
                        }
                    }
                    for p in &cm.ports {
                        let w = match &p.range {
                            Some((h, _)) => self.const_u32(&cscope, h)? + 1,
                            None => 1,
                        };
                        let conn = conns.iter().find(|c| c.0 == p.name).map(|c| &c.1);
                        let e = match conn {
                            Some(Some(e)) => e,
                            _ => {
                                self.lint(format!("[{}] port `{}` of `{}` is unconnected", m.name, p.name, cm.name));
                                let id = self.new_sig(format!("{cprefix}{}", p.name), w, p.range.is_none())?;
                                cports.insert(p.name.clone(), id);
                                if p.dir == Dir::In {
                                    self.inputs.insert(id);
                                }
                                continue;
                            }
                        };
                        let ew = self.ty(&s, e)?.w;
                        if ew != w {
                            self.lint(format!(
                                "[{}] port `{}` of `{}` has width {} but is connected to {} bits",
                                m.name, p.name, cm.name, w, ew
                            ));
                        }
                        // alias plain signals of equal width and shape
                        if let Expr::Id(n) = e {
                            if let Sym::Sig(id) = self.lookup(&s, n)?.clone() {
                                if ew == w && (p.dir != Dir::Out || self.d.sigs[id].scalar == p.range.is_none()) {
                                    if p.dir == Dir::In {
                                        self.read.insert(id);
                                    }
                                    if p.dir == Dir::InOut && !self.d.sigs[id].is_inout {
                                        self.lint(format!("[{}] inout port `{}` connected to a variable", m.name, p.name));
                                    }
                                    if self.d.sigs[id].scalar == p.range.is_none() {
                                        if p.dir == Dir::Out {
                                            // driven by the child; checked there
                                        }
                                        cports.insert(p.name.clone(), id);
                                        continue;
                                    }
                                }
                            }
                        }
                        let id = self.new_sig(format!("{cprefix}{}", p.name), w, p.range.is_none())?;
                        cports.insert(p.name.clone(), id);
                        match p.dir {
                            Dir::In => {
                                let rhs = self.rhs(&s, e, w)?;
                                self.driven.entry(id).or_default().push((0, w, *line));
                                let lv = LV { parts: vec![(LPart::Static { sig: id, off: 0, w }, w)], w };
                                self.add_comb(CStmt::Assign { lv, rhs, nb: false }, *line);
                            }
                            Dir::Out => {
                                let lv = self.lvalue(&s, e, true)?;
                                self.mark_driven(&s, &lv, *line);
                                self.read.insert(id);
                                let src = Node::Sig(id, w);
                                let lw = lv.w;
                                let rhs = self.ext(src, w, lw, false);
                                self.add_comb(CStmt::Assign { lv, rhs, nb: false }, *line);
                            }
                            Dir::InOut => return Err("inout connection to an expression".into()),
                        }
                    }
                    self.module(cm, &cprefix, &ps, cports)?;
                }
            }
        }
        self.depth -= 1;
        Ok(())
    }
}

fn collect_targets<W>(s: &CStmt<W>, out: &mut Vec<(SigId, u32)>) {
    match s {
        CStmt::Block(v) => v.iter().for_each(|s| collect_targets(s, out)),
        CStmt::If(_, a, b) => {
            collect_targets(a, out);
            if let Some(b) = b {
                collect_targets(b, out)
            }
        }
        CStmt::Case { items, default, .. } => {
            items.iter().for_each(|(_, s)| collect_targets(s, out));
            if let Some(b) = default {
                collect_targets(b, out)
            }
        }
        CStmt::Assign { lv, .. } => {
            for (p, _) in &lv.parts {
                match p {
                    LPart::Static { sig, off, w } => out.push((*sig, off + w)),
                    LPart::DynBit { sig, sigw, .. } => out.push((*sig, *sigw)),
                    LPart::Mem { .. } => {}
                }
            }
        }
        _ => {}
    }
}

fn node_reads<W>(n: &Node<W>, r: &mut Vec<SigId>, m: &mut Vec<usize>) {
    match n {
        Node::Const(_) => {}
        Node::Sig(s, _) | Node::Slice(s, _, _) => r.push(*s),
        Node::Dyn(s, _, i, _, _) => {
            r.push(*s);
            node_reads(i, r, m)
        }
        Node::MemRead(mm, i, _) => {
            m.push(*mm);
            node_reads(i, r, m)
        }
        Node::Ext { e, .. } => node_reads(e, r, m),
        Node::Concat(v) => v.iter().for_each(|(n, _)| node_reads(n, r, m)),
        Node::Un(_, a, _) => node_reads(a, r, m),
        Node::Bin(_, a, b, ..) => {
            node_reads(a, r, m);
            node_reads(b, r, m)
        }
        Node::Cond(c, a, b, _) => {
            node_reads(c, r, m);
            node_reads(a, r, m);
            node_reads(b, r, m)
        }
    }
}

fn stmt_rw<W>(s: &CStmt<W>, r: &mut Vec<SigId>, m: &mut Vec<usize>, w: &mut Vec<SigId>) {
    match s {
        CStmt::Block(v) => v.iter().for_each(|s| stmt_rw(s, r, m, w)),
        CStmt::If(c, a, b) => {
            node_reads(c, r, m);
            stmt_rw(a, r, m, w);
            if let Some(b) = b {
                stmt_rw(b, r, m, w)
            }
        }
        CStmt::Case { sel, items, default, .. } => {
            node_reads(sel, r, m);
            for (ns, s) in items {
                ns.iter().for_each(|n| node_reads(n, r, m));
                stmt_rw(s, r, m, w);
            }
            if let Some(b) = default {
                stmt_rw(b, r, m, w)
            }
        }
        CStmt::Assign { lv, rhs, .. } => {
            node_reads(rhs, r, m);
            for (p, _) in &lv.parts {
                match p {
                    LPart::Static { sig, .. } => w.push(*sig),
                    LPart::DynBit { sig, idx, .. } => {
                        node_reads(idx, r, m);
                        w.push(*sig)
                    }
                    LPart::Mem { idx, .. } => node_reads(idx, r, m),
                }
            }
        }
        CStmt::Assert(n, _) => node_reads(n, r, m),
        CStmt::Null => {}
    }
}

fn eval_const<W: Word>(n: &Node<W>) -> R<V4<W>> {
    let st = State { sigs: vec![], mems: vec![] };
    let mut r = vec![];
    let mut m = vec![];
    node_reads(n, &mut r, &mut m);
    if !r.is_empty() || !m.is_empty() {
        return Err("parameter value is not constant".into());
    }
    Ok(eval(n, &st))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct State<W> {
    pub sigs: Vec<V4<W>>,
    pub mems: Vec<Vec<V4<W>>>,
}

fn tern<W: Word>(v: &V4<W>) -> Option<bool> {
    // known one bits => true; all zero known => false
    let ones = v.v.and(&v.x).xor(&v.v); // v & !x
    if !ones.is_zero() {
        Some(true)
    } else if v.x.is_zero() {
        Some(false)
    } else {
        None
    }
}

fn b1<W: Word>(b: Option<bool>) -> V4<W> {
    match b {
        Some(true) => V4::known(W::from_u64(1)),
        Some(false) => V4::known(W::zero()),
        None => V4::all_x(1),
    }
}

pub fn eval<W: Word>(n: &Node<W>, st: &State<W>) -> V4<W> {
    match n {
        Node::Const(c) => c.clone(),
        Node::Sig(s, _) => st.sigs[*s].clone(),
        Node::Slice(s, off, w) => {
            let v = &st.sigs[*s];
            V4 { v: v.v.shr(*off).mask(*w), x: v.x.shr(*off).mask(*w) }
        }
        Node::Dyn(s, sw, idx, _iw, w) => {
            let i = eval(idx, st);
            if !i.is_known() {
                return V4::all_x(*w);
            }
            let off = i.v.to_u32_sat();
            if off >= *sw {
                return V4::all_x(*w);
            }
            let v = &st.sigs[*s];
            let avail = sw - off;
            if avail >= *w {
                V4 { v: v.v.shr(off).mask(*w), x: v.x.shr(off).mask(*w) }
            } else {
                let xm = W::ones(*w).xor(&W::ones(avail));
                V4 { v: v.v.shr(off).mask(avail), x: v.x.shr(off).mask(avail).or(&xm) }
            }
        }
        Node::MemRead(m, idx, _) => {
            let i = eval(idx, st);
            let mem = &st.mems[*m];
            // width is recovered from the element itself
            let ww = &mem[mem.len() - 1]; // dummy trailing element holds all-X of the right width
            if !i.is_known() {
                return ww.clone();
            }
            let a = i.v.to_u32_sat() as usize;
            if a >= mem.len() - 1 { ww.clone() } else { mem[a].clone() }
        }
        Node::Ext { e, from, to, signed } => {
            let v = eval(e, st);
            if to < from {
                return V4 { v: v.v.mask(*to), x: v.x.mask(*to) };
            }
            if *signed && *from > 0 {
                let m = W::ones(*to).xor(&W::ones(*from));
                let mut r = v.clone();
                if v.v.bit(from - 1) {
                    r.v = r.v.or(&m);
                }
                if v.x.bit(from - 1) {
                    r.x = r.x.or(&m);
                }
                r
            } else {
                v
            }
        }
        Node::Concat(parts) => {
            let mut v = W::zero();
            let mut x = W::zero();
            for (p, w) in parts {
                let e = eval(p, st);
                v = v.shl(*w).or(&e.v);
                x = x.shl(*w).or(&e.x);
            }
            V4 { v, x }
        }
        Node::Un(op, a, w) => {
            let a = eval(a, st);
            match *op {
                "-" => {
                    if a.is_known() { V4::known(a.v.neg(*w)) } else { V4::all_x(*w) }
                }
                "~" => V4 { v: a.v.not(*w), x: a.x.clone() }.zx(),
                "!" => b1(tern(&a).map(|b| !b)),
                "&" => {
                    let zeros = a.v.or(&a.x).not(*w);
                    if !zeros.is_zero() {
                        b1(Some(false))
                    } else if a.is_known() {
                        b1(Some(true))
                    } else {
                        b1(None)
                    }
                }
                "|" => b1(tern(&a)),
                "^" => {
                    if a.is_known() { b1(Some(a.v.count_ones() % 2 == 1)) } else { b1(None) }
                }
                _ => unreachable!(),
            }
        }
        Node::Cond(c, a, b, w) => match tern(&eval(c, st)) {
            Some(true) => eval(a, st),
            Some(false) => eval(b, st),
            None => {
                let a = eval(a, st);
                let b = eval(b, st);
                let diff = a.v.xor(&b.v).or(&a.x).or(&b.x).mask(*w);
                V4 { v: a.v.and(&diff.not(*w)), x: diff }
            }
        },
        Node::Bin(op, a, b, w, sg, bw) => {
            let a = eval(a, st);
            let b = eval(b, st);
            let known = a.is_known() && b.is_known();
            let w = *w;
            let sign = |v: &W| *sg && w > 0 && v.bit(w - 1);
            match *op {
                "&" => {
                    let zero = a.v.or(&a.x).not(w).or(&b.v.or(&b.x).not(w));
                    let x = a.x.or(&b.x).and(&zero.not(w));
                    let v = a.v.and(&b.v);
                    V4 { v: v.and(&x.not(w)), x }
                }
                "|" => {
                    let one = a.v.and(&a.x.not(w)).or(&b.v.and(&b.x.not(w)));
                    let x = a.x.or(&b.x).and(&one.not(w));
                    V4 { v: one, x }
                }
                "^" | "~^" => {
                    let x = a.x.or(&b.x);
                    let mut v = a.v.xor(&b.v);
                    if *op == "~^" {
                        v = v.not(w);
                    }
                    V4 { v: v.and(&x.not(w)), x }
                }
                "+" | "-" | "*" if !known => V4::all_x(w),
                "+" => V4::known(a.v.add(&b.v).mask(w)),
                "-" => V4::known(a.v.add(&b.v.neg(w)).mask(w)),
                "*" => V4::known(a.v.mul(&b.v).mask(w)),
                "/" | "%" => {
                    if !known || b.v.is_zero() {
                        return V4::all_x(w);
                    }
                    let (na, nb) = (sign(&a.v), sign(&b.v));
                    let ua = if na { a.v.neg(w) } else { a.v.clone() };
                    let ub = if nb { b.v.neg(w) } else { b.v.clone() };
                    if *op == "/" {
                        let q = ua.div(&ub).mask(w);
                        V4::known(if na != nb { q.neg(w) } else { q })
                    } else {
                        let r = ua.rem(&ub).mask(w);
                        V4::known(if na { r.neg(w) } else { r })
                    }
                }
                "<<" | "<<<" | ">>" | ">>>" => {
                    let _ = bw;
                    if !b.is_known() {
                        return V4::all_x(w);
                    }
                    let n = b.v.to_u32_sat();
                    match *op {
                        "<<" | "<<<" => {
                            if n >= w {
                                V4::known(W::zero())
                            } else {
                                V4 { v: a.v.shl(n).mask(w), x: a.x.shl(n).mask(w) }
                            }
                        }
                        ">>" => {
                            if n >= w { V4::known(W::zero()) } else { V4 { v: a.v.shr(n), x: a.x.shr(n) } }
                        }
                        _ => {
                            let n = n.min(w);
                            let (mut v, mut x) =
                                if n >= w { (W::zero(), W::zero()) } else { (a.v.shr(n), a.x.shr(n)) };
                            if *sg {
                                let m = W::ones(w).xor(&W::ones(w - n));
                                if a.v.bit(w - 1) {
                                    v = v.or(&m);
                                }
                                if a.x.bit(w - 1) {
                                    x = x.or(&m);
                                }
                            }
                            V4 { v, x }
                        }
                    }
                }
                "&&" => {
                    let (a, b) = (tern(&a), tern(&b));
                    b1(match (a, b) {
                        (Some(false), _) | (_, Some(false)) => Some(false),
                        (Some(true), Some(true)) => Some(true),
                        _ => None,
                    })
                }
                "||" => {
                    let (a, b) = (tern(&a), tern(&b));
                    b1(match (a, b) {
                        (Some(true), _) | (_, Some(true)) => Some(true),
                        (Some(false), Some(false)) => Some(false),
                        _ => None,
                    })
                }
                "==" | "!=" => {
                    let x = a.x.or(&b.x);
                    let diff = a.v.xor(&b.v).and(&x.not(w));
                    let r = if !diff.is_zero() {
                        Some(false)
                    } else if x.is_zero() {
                        Some(true)
                    } else {
                        None
                    };
                    b1(if *op == "==" { r } else { r.map(|b| !b) })
                }
                "===" => b1(Some(a == b)),
                "!==" => b1(Some(a != b)),
                "<" | "<=" | ">" | ">=" => {
                    if !known {
                        return b1(None);
                    }
                    let c = match (sign(&a.v), sign(&b.v)) {
                        (true, false) => Ordering::Less,
                        (false, true) => Ordering::Greater,
                        _ => a.v.cmpw(&b.v),
                    };
                    b1(Some(match *op {
                        "<" => c.is_lt(),
                        "<=" => c.is_le(),
                        ">" => c.is_gt(),
                        _ => c.is_ge(),
                    }))
                }
                o => unreachable!("{o}"),
            }
        }
    }
}

pub fn parse(src: &str) -> R<File> {
    vlog::parse(src)
}

/// Elaborate `top`. Err("WIDE") means that the design needs the BigUint word type.
pub fn elaborate<W: Word>(file: &File, top: &str) -> R<Design<W>> {
    let Some(&mi) = file.by_name.get(top) else {
        return Err(format!("no module `{top}` in the output"));
    };
    let m = &file.modules[mi];
    let mut e = Elab::<W> {
        file,
        d: Design {
            top: top.to_string(),
            sigs: vec![],
            mems: vec![],
            order: vec![],
            scc_cyclic: vec![],
            procs: vec![],
            ffs: vec![],
            inits: vec![],
            asserts: vec![],
            ports: vec![],
            state_sigs: vec![],
            consts: vec![],
            inout_drivers: BTreeMap::new(),
            lints: vec![],
            port_index: HashMap::new(),
            n_instances: 0,
        },
        driven: HashMap::new(),
        read: HashSet::new(),
        inputs: HashSet::new(),
        depth: 0,
        lint_seen: HashSet::new(),
    };
    for d in &file.duplicates {
        e.lint(format!("module `{d}` is defined twice"));
    }
    for d in &file.defines {
        // an escaped name is never used as a macro: the definition has no effect
        if !d.starts_with(char::from(92)) {
            e.lint(format!("unexpected macro definition `define {d}"));
        }
    }
    let empty = Scope { syms: HashMap::new(), prefix: String::new(), module: top.into() };
    let mut ports = HashMap::new();
    for p in &m.ports {
        let w = match &p.range {
            Some((h, _)) => e.const_u32(&empty, h)? + 1,
            None => 1,
        };
        let id = e.new_sig(p.name.clone(), w, p.range.is_none())?;
        if p.dir == Dir::In {
            e.inputs.insert(id);
        }
        if p.dir == Dir::InOut {
            e.inputs.insert(id);
            e.d.sigs[id].is_inout = true;
            // external driver
            let ext = e.new_sig(format!("{}$ext", p.name), w, false)?;
            e.inputs.insert(ext);
            e.d.inout_drivers.entry(id).or_default().push(ext);
        }
        ports.insert(p.name.clone(), id);
        e.d.port_index.insert(p.name.clone(), e.d.ports.len());
        e.d.ports.push(TopPort { name: p.name.clone(), dir: p.dir.clone(), sig: id, w });
    }
    e.module(m, "", &HashMap::new(), ports)?;
    // inout resolution processes
    let iod = e.d.inout_drivers.clone();
    let driven = e.driven.clone();
    let read: Vec<_> = e.read.iter().cloned().collect();
    for r in read {
        if !driven.contains_key(&r) && !e.inputs.contains(&r) {
            let n = e.d.sigs[r].name.clone();
            e.lint(format!("[{top}] `{n}` is read but never driven"));
        }
    }
    for p in e.d.ports.clone() {
        if p.dir == Dir::Out && !driven.contains_key(&p.sig) {
            e.lint(format!("[{top}] output `{}` is never driven", p.name));
        }
        if p.dir == Dir::In && driven.contains_key(&p.sig) {
            e.lint(format!("[{top}] input `{}` is driven", p.name));
        }
    }
    // partially driven vectors that are read
    for (sig, parts) in &driven {
        let w = e.d.sigs[*sig].w;
        let mut cov = vec![false; w as usize];
        for (o, pw, _) in parts {
            for i in *o..(*o + *pw).min(w) {
                cov[i as usize] = true;
            }
        }
        if cov.iter().any(|c| !c) && (e.read.contains(sig) || e.d.ports.iter().any(|p| p.sig == *sig)) && !e.d.sigs[*sig].is_inout {
            let n = e.d.sigs[*sig].name.clone();
            e.lint(format!("[{top}] `{n}` is only partially driven"));
        }
    }
    let mut d = e.d;
    d.lints.sort();
    d.state_sigs = (0..d.sigs.len()).filter(|i| d.sigs[*i].is_state).collect();
    let _ = iod;
    schedule(&mut d);
    Ok(d)
}

fn schedule<W: Word>(d: &mut Design<W>) {
    // graph over procs: writer -> reader
    let mut writers: HashMap<SigId, Vec<usize>> = HashMap::new();
    for (i, p) in d.procs.iter().enumerate() {
        for w in &p.writes {
            writers.entry(*w).or_default().push(i);
        }
    }
    // reads of an inout net depend on the procs writing its shadows
    let n = d.procs.len();
    let mut deps: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, p) in d.procs.iter().enumerate() {
        for r in &p.reads {
            if let Some(ws) = writers.get(r) {
                deps[i].extend(ws.iter().cloned());
            }
            if let Some(sh) = d.inout_drivers.get(r) {
                for s in sh {
                    if let Some(ws) = writers.get(s) {
                        deps[i].extend(ws.iter().cloned());
                    }
                }
            }
        }
        deps[i].sort();
        deps[i].dedup();
    }
    // iterative Tarjan; SCCs come out dependencies first
    let mut index = vec![usize::MAX; n];
    let mut low = vec![0; n];
    let mut on = vec![false; n];
    let mut stack = vec![];
    let mut counter = 0;
    let mut order = vec![];
    for root in 0..n {
        if index[root] != usize::MAX {
            continue;
        }
        let mut call: Vec<(usize, usize)> = vec![(root, 0)];
        while let Some((v, ci)) = call.pop() {
            if ci == 0 {
                index[v] = counter;
                low[v] = counter;
                counter += 1;
                stack.push(v);
                on[v] = true;
            }
            let mut ci = ci;
            let mut rec = false;
            while ci < deps[v].len() {
                let w = deps[v][ci];
                ci += 1;
                if index[w] == usize::MAX {
                    call.push((v, ci));
                    call.push((w, 0));
                    rec = true;
                    break;
                } else if on[w] {
                    low[v] = low[v].min(index[w]);
                }
            }
            if rec {
                continue;
            }
            // finished
            if low[v] == index[v] {
                let mut c = vec![];
                loop {
                    let w = stack.pop().unwrap();
                    on[w] = false;
                    c.push(w);
                    if w == v {
                        break;
                    }
                }
                c.sort();
                order.push(c);
            }
            if let Some((p, _)) = call.last() {
                let p = *p;
                low[p] = low[p].min(low[v]);
            }
        }
    }
    d.scc_cyclic = order.iter().map(|c| c.len() > 1 || deps[c[0]].contains(&c[0])).collect();
    d.order = order;
}

pub struct Sim<'d, W: Word> {
    pub d: &'d Design<W>,
    pub st: State<W>,
    prev: Vec<Vec<Option<bool>>>,
    pub unstable: bool,
}

fn write_part<W: Word>(st: &mut State<W>, sig: SigId, off: u32, w: u32, sigw: u32, val: &V4<W>) -> bool {
    if off >= sigw {
        return false;
    }
    let w = w.min(sigw - off);
    let cur = &st.sigs[sig];
    let m = W::ones(w).shl(off);
    let nm = m.not(sigw);
    let nv = cur.v.and(&nm).or(&val.v.mask(w).shl(off));
    let nx = cur.x.and(&nm).or(&val.x.mask(w).shl(off));
    let n = V4 { v: nv, x: nx };
    if &n != cur {
        st.sigs[sig] = n;
        true
    } else {
        false
    }
}

enum NB<W> {
    Sig(SigId, u32, u32, V4<W>),
    Mem(usize, usize, V4<W>),
}

impl<'d, W: Word> Sim<'d, W> {
    pub fn new(d: &'d Design<W>) -> Self {
        let mut sigs: Vec<V4<W>> = d.sigs.iter().map(|s| V4::all_x(s.w)).collect();
        for (net, drv) in &d.inout_drivers {
            let z = V4 { v: W::ones(d.sigs[*net].w), x: W::ones(d.sigs[*net].w) };
            for s in drv {
                sigs[*s] = z.clone();
            }
            sigs[*net] = z;
        }
        let mems = d.mems.iter().map(|m| vec![V4::all_x(m.w); m.len as usize + 1]).collect();
        let mut s = Sim { d, st: State { sigs, mems }, prev: vec![], unstable: false };
        s.prev = d.ffs.iter().map(|f| vec![None; f.edges.len()]).collect();
        let mut nb = vec![];
        for i in &d.inits {
            s.exec(i, &mut nb);
        }
        s.commit(nb);
        s
    }

    fn assign(&mut self, lv: &LV<W>, val: V4<W>, nb: Option<&mut Vec<NB<W>>>) {
        let mut rem = lv.w;
        let mut nb = nb;
        for (p, w) in &lv.parts {
            rem -= w;
            let part = V4 { v: val.v.shr(rem).mask(*w), x: val.x.shr(rem).mask(*w) };
            match p {
                LPart::Static { sig, off, w } => {
                    let sw = self.d.sigs[*sig].w;
                    match &mut nb {
                        Some(nb) => nb.push(NB::Sig(*sig, *off, *w, part)),
                        None => {
                            write_part(&mut self.st, *sig, *off, *w, sw, &part);
                        }
                    }
                }
                LPart::DynBit { sig, idx, w, sigw } => {
                    let i = eval(idx, &self.st);
                    if i.is_known() {
                        let off = i.v.to_u32_sat();
                        match &mut nb {
                            Some(nb) => nb.push(NB::Sig(*sig, off, *w, part)),
                            None => {
                                write_part(&mut self.st, *sig, off, *w, *sigw, &part);
                            }
                        }
                    }
                }
                LPart::Mem { mem, idx } => {
                    let i = eval(idx, &self.st);
                    if i.is_known() {
                        let a = i.v.to_u32_sat() as usize;
                        if a < self.d.mems[*mem].len as usize {
                            match &mut nb {
                                Some(nb) => nb.push(NB::Mem(*mem, a, part)),
                                None => self.st.mems[*mem][a] = part,
                            }
                        }
                    }
                }
            }
        }
    }

    fn exec(&mut self, s: &CStmt<W>, nbq: &mut Vec<NB<W>>) {
        match s {
            CStmt::Null | CStmt::Assert(..) => {}
            CStmt::Block(v) => {
                for s in v {
                    self.exec(s, nbq);
                }
            }
            CStmt::If(c, a, b) => {
                if tern(&eval(c, &self.st)) == Some(true) {
                    self.exec(a, nbq)
                } else if let Some(b) = b {
                    self.exec(b, nbq)
                }
            }
            CStmt::Case { z, sel, w, items, default } => {
                let v = eval(sel, &self.st);
                for (ns, b) in items {
                    for n in ns {
                        let i = eval(n, &self.st);
                        let care = if *z {
                            let zs = v.v.and(&v.x).or(&i.v.and(&i.x));
                            zs.not(*w)
                        } else {
                            W::ones(*w)
                        };
                        let same = v.v.xor(&i.v).or(&v.x.xor(&i.x)).and(&care).is_zero();
                        if same {
                            self.exec(b, nbq);
                            return;
                        }
                    }
                }
                if let Some(b) = default {
                    self.exec(b, nbq);
                }
            }
            CStmt::Assign { lv, rhs, nb } => {
                let v = eval(rhs, &self.st);
                if *nb {
                    self.assign(lv, v, Some(nbq));
                } else {
                    self.assign(lv, v, None);
                }
            }
        }
    }

    fn commit(&mut self, nb: Vec<NB<W>>) {
        for n in nb {
            match n {
                NB::Sig(s, off, w, v) => {
                    let sw = self.d.sigs[s].w;
                    write_part(&mut self.st, s, off, w, sw, &v);
                }
                NB::Mem(m, a, v) => self.st.mems[m][a] = v,
            }
        }
    }

    fn resolve_inouts(&mut self) {
        for (net, drv) in &self.d.inout_drivers {
            let w = self.d.sigs[*net].w;
            // start from Z and combine
            let mut v = W::ones(w);
            let mut x = W::ones(w);
            for s in drv {
                let d = &self.st.sigs[*s];
                let dz = d.v.and(&d.x);
                let rz = v.and(&x);
                // where d is z keep r, where r is z take d, else conflict => equal or X
                let nd = dz.not(w);
                let nr = rz.not(w);
                let both = nd.and(&nr);
                let takes_d = nd.and(&rz);
                let keep = dz.clone();
                let agree = v.xor(&d.v).or(&x).or(&d.x).not(w).and(&both); // both known equal
                let conf = both.and(&agree.not(w));
                let nv = v.and(&keep).or(&d.v.and(&takes_d)).or(&v.and(&agree));
                let nx = x.and(&keep).or(&d.x.and(&takes_d)).or(&conf);
                v = nv;
                x = nx;
            }
            self.st.sigs[*net] = V4 { v, x };
        }
    }

    pub fn settle(&mut self) {
        let d = self.d;
        let mut dummy = vec![];
        let has_io = !d.inout_drivers.is_empty();
        if has_io {
            self.resolve_inouts();
        }
        for (ci, comp) in d.order.iter().enumerate() {
            if !d.scc_cyclic[ci] {
                self.exec(&d.procs[comp[0]].body, &mut dummy);
                if has_io {
                    self.resolve_inouts();
                }
            } else {
                // start from X so that the result does not depend on history
                for p in comp {
                    for w in &d.procs[*p].writes {
                        if !d.inout_drivers.contains_key(w) {
                            let parts_only_here = true;
                            if parts_only_here {
                                self.st.sigs[*w] = V4::all_x(d.sigs[*w].w);
                            }
                        }
                    }
                }
                let mut stable = false;
                // re-evaluate drivers outside the component of partially driven signals
                for _ in 0..(d.procs.len() + 8) {
                    let before: Vec<_> =
                        comp.iter().flat_map(|p| d.procs[*p].writes.iter().map(|w| self.st.sigs[*w].clone())).collect();
                    for c2 in &d.order[..=ci] {
                        if c2.iter().any(|p| {
                            d.procs[*p].writes.iter().any(|w| comp.iter().any(|q| d.procs[*q].writes.contains(w)))
                        }) {
                            for p in c2 {
                                self.exec(&d.procs[*p].body, &mut dummy);
                            }
                        }
                    }
                    if has_io {
                        self.resolve_inouts();
                    }
                    let after: Vec<_> =
                        comp.iter().flat_map(|p| d.procs[*p].writes.iter().map(|w| self.st.sigs[*w].clone())).collect();
                    if before == after {
                        stable = true;
                        break;
                    }
                }
                if !stable {
                    self.unstable = true;
                }
            }
        }
    }

    /// Settle combinational logic, then run clock edges until quiescent.
    pub fn step(&mut self) {
        for _round in 0..64 {
            self.settle();
            let mut trig = vec![];
            for (i, f) in self.d.ffs.iter().enumerate() {
                let mut t = false;
                for (k, (pos, n)) in f.edges.iter().enumerate() {
                    let now = tern(&eval(n, &self.st));
                    let was = self.prev[i][k];
                    let edge = if *pos {
                        now == Some(true) && was == Some(false)
                    } else {
                        now == Some(false) && was == Some(true)
                    };
                    if edge {
                        t = true;
                    }
                    self.prev[i][k] = now;
                }
                if t {
                    trig.push(i);
                }
            }
            if trig.is_empty() {
                return;
            }
            let mut nb = vec![];
            for i in trig {
                let d = self.d;
                self.exec(&d.ffs[i].body, &mut nb);
            }
            self.commit(nb);
        }
        self.unstable = true;
    }

    pub fn set(&mut self, port: &str, v: V4<W>) {
        let p = &self.d.ports[self.d.port_index[port]];
        if p.dir == Dir::InOut {
            let ext = self.d.inout_drivers[&p.sig][0];
            self.st.sigs[ext] = v;
        } else {
            self.st.sigs[p.sig] = v;
        }
    }
    pub fn set_u(&mut self, port: &str, v: u128) {
        self.set(port, V4::known(W::from_big(&BigUint::from(v))));
    }
    pub fn get(&self, port: &str) -> &V4<W> {
        let p = &self.d.ports[self.d.port_index[port]];
        &self.st.sigs[p.sig]
    }
    pub fn has_port(&self, port: &str) -> bool {
        self.d.port_index.contains_key(port)
    }
    /// one full cycle of `clk`: low, settle, high, settle
    pub fn cycle(&mut self, clk: &str) {
        self.set_u(clk, 0);
        self.step();
        self.set_u(clk, 1);
        self.step();
    }
    pub fn failed_asserts(&self) -> Vec<(usize, Option<bool>)> {
        self.d
            .asserts
            .iter()
            .enumerate()
            .filter_map(|(i, (n, ..))| match tern(&eval(n, &self.st)) {
                Some(true) => None,
                o => Some((i, o)),
            })
            .collect()
    }
    /// Settle and take the present clock levels as the reference for the next edge, without
    /// triggering anything (used after a state was loaded).
    pub fn resync(&mut self) {
        self.settle();
        for (i, f) in self.d.ffs.iter().enumerate() {
            for (k, (_, n)) in f.edges.iter().enumerate() {
                self.prev[i][k] = tern(&eval(n, &self.st));
            }
        }
    }
    /// Registers and memories only.
    pub fn state_key(&self) -> (Vec<V4<W>>, Vec<Vec<V4<W>>>) {
        (self.d.state_sigs.iter().map(|s| self.st.sigs[*s].clone()).collect(), self.st.mems.clone())
    }
    pub fn load_state(&mut self, k: &(Vec<V4<W>>, Vec<Vec<V4<W>>>)) {
        for (i, s) in self.d.state_sigs.iter().enumerate() {
            self.st.sigs[*s] = k.0[i].clone();
        }
        self.st.mems = k.1.clone();
    }
}
