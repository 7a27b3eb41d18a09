//! A corpus of small programs that together use every construct of the language. Each one has an
//! item `top`; `QU` stands for something unique to the program (traits and unmangled names are
//! global). Programs that need the standard library are marked.
use crate::comp::*;
use std::collections::{HashMap, HashSet};

pub struct P {
    pub key: &'static str,
    pub std: bool,
    pub src: &'static str,
}

impl P {
    pub fn text(&self, unique: &str) -> String {
        self.src.replace("QU", unique)
    }
}

pub fn corpus() -> Vec<P> {
    let mut v = vec![];
    let mut c = |key, src| v.push(P { key, std: false, src });
    c("fn", "fn add1(x: uint<3>) -> uint<4> { x + 1 }\n\
        entity top(a: uint<3>, b: bool) -> uint<4> { let c = add1(a); if b { c } else { zext2(a) } }\n\
        fn zext2(x: uint<3>) -> uint<4> { x + 0 }");
    c("literals", "entity top(a: uint<8>) -> (uint<8>, uint<8>, uint<8>, int<8>, uint<4>, bool) {\n\
        (a ^ 0x1_f, a & 0b1010_0101u8, a | 0o17, -12, 7u4, true)\n}");
    c("strings", "entity top(i: uint<2>) -> (uint<8>, uint<8>) { let s = b\"ab\\n\\\"\"; (s[i], b'q') }");
    c("tuples", "entity top(a: (bool, uint<2>), b: ((bool, bool), uint<2>)) -> (bool, uint<2>, bool) {\n\
        let (x, y) = a;\n let ((p, _), q) = b;\n (a.0 && x && p, y ^ q ^ a.1, (b.0).1 || b.0.0)\n}");
    c("arrays", "entity top(a: [uint<2>; 4], i: uint<2>) -> (uint<2>, [uint<2>; 2], [bool; 3], uint<2>) {\n\
        let [p, q, _, r] = a;\n (a[i], a[1..3], [true; 3], p ^ q ^ r)\n}");
    c("array-labels", "entity top(a: bool) -> [bool; 2] { let x = [a, !a,]; x[0..2] }");
    c("struct", "struct S { a: bool, b: uint<2> }\n\
        entity top(x: S, y: bool) -> (S, uint<2>) {\n let S$(a, b: q) = x;\n let t = S$(a: y, b: q);\n (S(a && y, t.b), x.b)\n}");
    c("enum", "enum E { A, B { x: uint<2>, y: bool }, C { v: F } }\nenum F { P, Q }\n\
        entity top(e: E, g: bool) -> (uint<2>, E) {\n\
        let r = match e {\n E::A => 0,\n E::B(x, true) if g => x,\n E::B$(x, y: _) => ~x,\n E::C(F::P) => 1,\n _ => 2,\n };\n\
        (r, if g { E::B(r, g) } else { E::C(F::Q) })\n}");
    c("if-chain", "entity top(a: bool, b: bool, x: uint<2>) -> uint<2> {\n if a { x } else if b { ~x } else { let y = x; y & 1 }\n}");
    c("blocks", "entity top(x: uint<2>) -> uint<2> {\n let y = { let x = ~x; x & 2 };\n let _ = { y };\n x ^ y\n}");
    c("shadow", "entity top(x: uint<2>) -> uint<2> { let x = x ^ 1; let x = ~x; x }");
    c("reg", "entity top(clk: clock, rst: bool, x: uint<2>) -> (uint<2>, bool) {\n\
        reg(clk) a reset(rst: 1) = a ^ x;\n reg(clk) b: bool initial(false) = !b;\n reg(clk) (p, q) = (a, b);\n (p, q)\n}");
    c("decl", "entity top(clk: clock, x: bool) -> bool { decl r, s; let t = r ^^ x; reg(clk) r = s; let s = t && x; t }");
    c("pipeline", "pipeline(2) sub(clk: clock, x: uint<2>) -> uint<2> { reg; let y = ~x; reg; y }\n\
        pipeline(3) top(clk: clock, en: bool, x: uint<2>) -> (uint<2>, bool) {\n\
        let a = inst(2) sub(clk, x);\n let ok = stage.valid;\n reg;\n 'mid\n let q = stage(-1).x;\n reg[en];\n reg;\n (a ^ stage(mid).x ^ stage(-2).q, ok)\n}");
    c("pipeline-many", "pipeline(4) top(clk: clock, x: bool) -> bool { let y = !x; reg*3; let z = y && x; reg; z }");
    c("pipeline-inst", "pipeline(1) p<T>(clk: clock, x: T) -> T { reg; x }\n\
        entity e(x: bool) -> bool { !x }\nfn f(x: bool) -> bool { x }\n\
        pipeline(2) top(clk: clock, x: bool) -> (bool, bool) { let b = inst e(f(x)); let a = inst(1) p(clk, b); reg; let c = inst(1) p$(clk, x: a); reg; (c, b) }");
    c("generic", "fn id<T>(x: T) -> T { x }\nfn pair<A, B>(a: A, b: B) -> (A, B) { (a, b) }\nstruct W<T, #uint N> { v: [T; N] }\n\
        entity top(x: bool, y: W<bool, 2>) -> ((bool, uint<2>), bool) { (pair::<bool, uint<2>>(id(x), 3), y.v[0]) }");
    c("const-generic", "fn low<#uint N>(x: uint<8>) -> uint<8> where N < 9 { x & N }\n\
        fn twice<#uint N>(x: uint<N>) -> uint<{N + 1}> { x + x }\n\
        fn sum<#uint N>(x: [uint<4>; N]) -> uint<4> { gen if N == 1 { x[0] } else { x[0] ^ sum::<{N - 1}>(x[1..N]) } }\n\
        entity top(x: uint<8>, y: [uint<4>; 3]) -> (uint<8>, uint<9>, uint<4>) { (low::<5>(x), twice(x), sum(y)) }");
    c("trait", "trait QUT { fn getQU(self) -> bool; fn withQU(self, b: bool) -> bool; }\nstruct S { a: bool }\n\
        impl QUT for S { fn getQU(self) -> bool { self.a } fn withQU(self, b: bool) -> bool { self.a ^^ b } }\n\
        impl QUT for uint<2> { fn getQU(self) -> bool { self == 1 } fn withQU(self, b: bool) -> bool { b } }\n\
        fn both<T: QUT>(t: T) -> bool { t.getQU() && t.withQU$(b: true) }\n\
        entity top(x: uint<2>, y: bool) -> (bool, bool) { (both(x), S(y).withQU(both(S(y)))) }");
    c("impl", "struct P<T> { a: T, b: T }\nimpl<T> P<T> { fn swap(self) -> P<T> { P(self.b, self.a) }\n\
        entity delay(self, clk: clock) -> T { reg(clk) r = self.a; r } pipeline(1) late(self, clk: clock) -> T { reg; self.b } }\n\
        entity top(clk: clock, x: P<bool>) -> (bool, bool, bool) { (x.swap().a, x.inst delay(clk), P(x.b, x.b).inst(1) late(clk)) }");
    c("lambdas", "fn ap(f: impl Fn(uint<2>) -> uint<2>, x: uint<2>) -> uint<2> { f.call((x,)) }\n\
        entity top(x: uint<2>, y: uint<2>) -> (uint<2>, uint<2>) { let g = fn |a| { a ^ y }; (ap(fn |p| p & y, x), g.call((x,))) }");
    c("modules", "mod m { pub fn f(x: bool) -> bool { g(x) } fn g(x: bool) -> bool { !x } pub mod n { pub struct S { a: bool } use super::f; pub fn h(s: S) -> bool { f(s.a) } } }\n\
        use m::n::{S, h as hh};\nuse m::f;\nentity top(x: bool) -> (bool, bool) { (hh(S(x)), m::f(f(x))) }");
    c("wires", "entity sink(o: inv uint<2>, x: uint<2>) -> bool { set o = x; x == 1 }\n\
        entity top(x: uint<2>) -> (uint<2>, bool) { let (a, b) = port(); let r = inst sink(b, x); (a, r) }");
    c("extern", "#[no_mangle]\nextern entity ext_QU(#[no_mangle] a: bool, b: uint<2>) -> uint<2>;\n\
        struct U { a: bool }\nentity top(x: bool, y: uint<2>) -> uint<2> { inst ext_QU(x, y) }");
    c("nomangle", "#[no_mangle(all)]\nentity nm_QU(clk: clock, a: bool, o: inv bool) { reg(clk) r = a; set o = r; }\n\
        entity top(clk: clock, a: bool) -> bool { let (p, q) = port(); inst nm_QU(clk, a, q); p }");
    c("attributes", "#[inline]\nfn f(x: bool) -> bool { !x }\n#[verilog_attrs(keep, depth = \"2\")]\nentity e(x: bool) -> bool { x }\n\
        #[optimize(split_compound_regs)]\nentity top(clk: clock, x: bool) -> (bool, bool) { reg(clk) r = (f(x), x); let y = inst e(x); (r.0 && y, r.1) }");
    c("fsm", "enum St { Idle, Busy { n: uint<2> } }\nentity top(clk: clock, rst: bool, go: bool) -> bool {\n\
        #[fsm(s)] reg(clk) s reset(rst: St::Idle) = match s { St::Idle => if go { St::Busy(0) } else { s }, St::Busy(n) => if n == 3 { St::Idle } else { St::Busy(n ^ 1) } };\n\
        match s { St::Idle => false, _ => true }\n}");
    c("infix", "fn minus(a: uint<2>, b: uint<2>) -> uint<2> { a ^ ~b }\nentity top(a: uint<2>, b: uint<2>) -> uint<2> { a `minus` b `minus` 1 }");
    c("operators", "entity top(a: int<3>, b: int<3>, c: bool, u: uint<3>, v: uint<3>) -> (bool, int<4>, uint<6>, uint<3>, int<3>) {\n\
        (!(a < b) || c && a != b ^^ c, a + b, u * v, ~u & v | u ^ v >> 1, -a -. b)\n}");
    c("named", "fn f(a: bool, b: uint<2>, c: bool) -> bool { a && c && b == 2 }\nentity top(a: bool, x: uint<2>) -> (bool, bool) { let b = x; (f$(c: true, a, b), f(a, b, false)) }");
    c("assert", "entity top(clk: clock, x: uint<2>) -> uint<2> { reg(clk) r = x; assert r != 3; assert r == 1 || x == 0; r }");
    c("unit-type", "entity nothing(x: bool) {  }\nentity top(x: bool) -> bool { inst nothing(x); x }");
    c("docs", "//! module documentation\n/// a function\nfn f(x: bool) -> bool { x } // trailing\n/* block /* nested */ */ entity top(x: bool) -> bool { f(x) }");
    c("raw-ident", "entity top(r#match: bool, héé: bool) -> bool { r#match ^^ héé }");
    let mut d = |key, src| v.push(P { key, std: true, src });
    d("option", "entity top(o: Option<uint<2>>, p: Option<bool>) -> Option<uint<2>> {\n\
        match (o, p) {\n (Some(0), _) => None,\n (Some(x), Some(true)) => Some(x),\n (n @ Some(_), None) => n,\n _ => None,\n }\n}");
    d("unsafe", "fn cast(x: [bool; 2]) -> uint<2> { unsafe { std::conv::transmute(x) } }\nentity top(x: [bool; 2]) -> uint<2> { cast(x) }");
    d("memory", "use std::mem::{clocked_memory, read_memory};\nentity top(clk: clock, we: bool, a: uint<1>, d: uint<2>) -> uint<2> { let m: Memory<uint<2>, 2> = inst clocked_memory(clk, [(we, a, d)]); inst read_memory(m, a) }");
    d("std-fns", "use std::ops::{min, max};\nentity top(a: int<3>, o: Option<int<3>>) -> (int<3>, int<3>, bool, int<3>) { (min(a, 2), max(a, -2), o.is_some(), o.unwrap_or(a)) }");
    d("conv", "entity top(a: uint<3>, b: int<3>) -> (uint<5>, int<5>, uint<2>, int<4>, uint<6>) { (zext(a), sext(b), trunc(a), a.to_int(), concat(a, a)) }");
    v
}

/// The text of the modules of namespace `ns`, with what may differ between two ways of writing the
/// same program taken out: source locations, the numbers of expressions and names, the namespace,
/// and which of several names of one wire it is declared under.
pub fn canon(verilog: &str, ns: &str) -> String {
    let pre = format!("\\{ns}::");
    let mut mods: HashMap<String, Vec<String>> = HashMap::new();
    let mut chunk: Vec<&str> = vec![];
    for l in verilog.lines() {
        let t = l.trim();
        if t.starts_with("(* src") || t.is_empty() || t.starts_with("`COCOTB_CODE") {
            continue;
        }
        chunk.push(l);
        if t == "endmodule" {
            let head = chunk.iter().find(|l| l.starts_with("module ")).copied().unwrap_or("");
            if ns.is_empty() || head.contains(&pre) {
                let name = head["module ".len()..].split([' ', '(']).next().unwrap_or("").to_string();
                let start = chunk.iter().position(|l| l.starts_with("(*") || l.starts_with("module ")).unwrap_or(0);
                mods.insert(name, unalias(&chunk[start..]));
            }
            chunk.clear();
        }
    }
    let mut done = HashMap::new();
    let names: Vec<&String> = mods.keys().collect();
    let mut texts: Vec<String> = names.iter().map(|n| module_text(n, &mods, ns, &mut done)).collect();
    texts.sort();
    texts.concat()
}

/// Modules of one name are told apart by their content
fn module_text(n: &str, mods: &HashMap<String, Vec<String>>, ns: &str, done: &mut HashMap<String, String>) -> String {
    if let Some(t) = done.get(n) {
        return t.clone();
    }
    let mut out = String::new();
    let mut ids = HashMap::new();
    for l in &mods[n] {
        let mut child: HashMap<String, String> = HashMap::new();
        rename(l, |w| {
            if w != n && mods.contains_key(w) {
                child.insert(w.to_string(), String::new());
            }
            None
        });
        for (k, v) in child.iter_mut() {
            *v = format!("{k}<{:016x}>", crate::report::hash64(&module_text(k, mods, ns, done)));
        }
        let l = rename(l, |w| child.get(w).map(|s| s.as_str()));
        canon_line(&l, ns, &mut ids, &mut out);
    }
    done.insert(n.to_string(), out.clone());
    out
}

fn words(l: &str) -> Vec<&str> {
    l.trim().trim_end_matches(';').split_ascii_whitespace().collect()
}

/// Replace the identifiers of a line
fn rename<'a>(l: &'a str, mut f: impl FnMut(&'a str) -> Option<&'a str>) -> String {
    let b = l.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let st = i;
        if b[i] == b'\\' {
            while i < b.len() && !b[i].is_ascii_whitespace() {
                i += 1;
            }
        } else if b[i].is_ascii_alphabetic() || b[i] == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
        } else {
            i += 1;
            while i < b.len() && !l.is_char_boundary(i) {
                i += 1;
            }
            out.push_str(&l[st..i]);
            continue;
        }
        match f(&l[st..i]) {
            Some(n) => {
                out.push_str(n);
                if n.starts_with('\\') && b.get(i) != Some(&b' ') {
                    out.push(' ');
                }
            }
            None => out.push_str(&l[st..i]),
        }
    }
    out
}

/// Merge wires which are only other names of each other
fn unalias(ls: &[&str]) -> Vec<String> {
    // declared wires, with the type as written
    let mut decl: HashMap<&str, String> = HashMap::new();
    for l in ls {
        let w = words(l);
        if w.len() == 2 && (w[0].starts_with("logic") || w[0].starts_with("reg")) && l.trim().ends_with(';') {
            decl.insert(w[1], w[0].to_string());
        }
    }
    let mut class: HashMap<&str, &str> = HashMap::new();
    fn find<'a>(c: &HashMap<&'a str, &'a str>, mut x: &'a str) -> &'a str {
        while let Some(y) = c.get(x) {
            x = y;
        }
        x
    }
    let pair = |l: &str| -> Option<(String, String)> {
        let w = words(l);
        (w.len() == 4 && w[0] == "assign" && w[2] == "=" && decl.contains_key(w[1]) && decl.contains_key(w[3]))
            .then(|| (w[1].to_string(), w[3].to_string()))
    };
    for l in ls {
        if pair(l).is_some() {
            let w = words(l);
            let (x, y) = (find(&class, w[1]), find(&class, w[3]));
            if x != y {
                // the smallest name stands for all; names of expressions come last
                let key = |s: &str| (s.contains("_e_"), s.to_string());
                if key(x) < key(y) {
                    class.insert(y, x);
                } else {
                    class.insert(x, y);
                }
            }
        }
    }
    if class.is_empty() {
        return ls.iter().map(|l| l.to_string()).collect();
    }
    let reps: HashSet<&str> = class.values().map(|v| find(&class, v)).collect();
    let regs: HashSet<&str> = decl.iter().filter(|(_, t)| t.starts_with("reg")).map(|(n, _)| find(&class, n)).collect();
    let mut seen = HashSet::new();
    let mut out = vec![];
    for l in ls {
        if pair(l).is_some() {
            continue;
        }
        let s = rename(l, |w| class.contains_key(w).then(|| find(&class, w)));
        let w = words(&s);
        if w.len() == 2 && decl.contains_key(w[1]) && reps.contains(w[1]) {
            // one declaration per wire, that of its driver
            let is_reg = regs.contains(w[1]);
            if is_reg != w[0].starts_with("reg") || !seen.insert(w[1].to_string()) {
                continue;
            }
        }
        out.push(s);
    }
    out
}

fn canon_line(l: &str, ns: &str, ids: &mut HashMap<(u8, String), usize>, out: &mut String) {
    let b = l.as_bytes();
    let mut i = 0;
    let nsp = format!("{ns}::");
    // inside an escaped identifier brackets belong to the name
    let mut esc = false;
    while i < b.len() {
        if b[i] == b'\\' || l[i..].starts_with("COCOTB_CODE( ") {
            if b[i] != b'\\' {
                out.push_str("COCOTB_CODE( ");
                i += 13;
                esc = true;
                continue;
            }
            esc = true;
        } else if b[i].is_ascii_whitespace() {
            esc = false;
        }
        if !ns.is_empty() && l[i..].starts_with(&nsp) && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            out.push_str("NS::");
            i += nsp.len();
            continue;
        }
        if l[i..].starts_with("QU") {
            let mut k = i + 2;
            while k < b.len() && b[k].is_ascii_digit() {
                k += 1;
            }
            out.push_str("QU");
            i = k;
            continue;
        }
        let cls = if l[i..].starts_with("_e_") {
            Some((3, 0u8))
        } else if esc && b[i] == b'[' {
            Some((1, 1))
        } else if esc && b[i] == b'#' {
            Some((1, 2))
        } else {
            None
        };
        if let Some((n, c)) = cls {
            let mut k = i + n;
            while k < b.len() && b[k].is_ascii_digit() {
                k += 1;
            }
            if k > i + n {
                let m = ids.len();
                let id = *ids.entry((c, l[i + n..k].to_string())).or_insert(m);
                out.push_str(&l[i..i + n]);
                out.push_str(&format!("'{id}"));
                i = k;
                continue;
            }
        }
        let ch = l[i..].chars().next().unwrap();
        out.push(ch);
        i += ch.len_utf8();
    }
    out.push('\n');
}

/// Compile texts in batches; for each: the canonical Verilog, or why there is none
pub fn canon_all(pool: &Pool, texts: &[String], stdlib: bool, size: usize) -> Vec<Result<String, String>> {
    let bt = compile_batches(pool, texts, &BatchOpt { stdlib, opt: vec![], size });
    let idx: Vec<usize> = (0..texts.len()).collect();
    par_map(&idx, |_, i| match &bt.units[*i] {
        UnitRes::Ok { batch } => Ok(canon(&bt.vtext[*batch], &format!("u{i}"))),
        UnitRes::Rejected(d) => Err(format!(
            "rejected: {}",
            d.iter().map(|d| format!("{}{}", d.msg, d.primary.as_ref().map(|p| format!(" ({p})")).unwrap_or_default())).collect::<Vec<_>>().join("; ")
        )),
        UnitRes::Crash(m) => Err(format!("crash: {m}")),
    })
}
