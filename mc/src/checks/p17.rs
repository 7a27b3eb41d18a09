//! P17: any input text gets a verdict: hardware or a diagnostic, never a crash.
//!
//! Every text of a bounded space is given to the real compiler in a worker process: all token strings
//! up to a length in every context of the grammar, and every program in the neighbourhood of the
//! corpus (deleted, doubled, swapped, inserted and replaced tokens, emptied groups, truncations).
use super::corpus::*;
use crate::comp::*;
use crate::report::*;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;

// ---------------------------------------------------------------- tokens

/// The tokens of a text, each with the white space before it
pub fn lex(s: &str) -> Vec<(String, String)> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let st = i;
        while i < c.len() && c[i].is_whitespace() {
            i += 1;
        }
        let space: String = c[st..i].iter().collect();
        if i == c.len() {
            break;
        }
        let st = i;
        let at = |k: usize| c.get(k).copied().unwrap_or('\0');
        if at(i) == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if at(i) == '/' && at(i + 1) == '*' {
            let mut depth = 0;
            while i < c.len() {
                if at(i) == '/' && at(i + 1) == '*' {
                    depth += 1;
                    i += 2;
                } else if at(i) == '*' && at(i + 1) == '/' {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
        } else if at(i) == '"' || (at(i) == 'b' && (at(i + 1) == '"' || at(i + 1) == '\'')) {
            if c[i] == 'b' {
                i += 1;
            }
            let q = c[i];
            i += 1;
            while i < c.len() && c[i] != q {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if c[i].is_alphanumeric() || c[i] == '_' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || (c[i] == '#' && i == st + 1 && c[st] == 'r')) {
                i += 1;
            }
        } else {
            let ops = [
                ">>>", "...", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "^^", ">>", "<<", "..", "+.", "-.", "*.",
                "$(", "#[",
            ];
            let rest: String = c[i..(i + 3).min(c.len())].iter().collect();
            let n = ops.iter().find(|o| rest.starts_with(**o)).map(|o| o.len()).unwrap_or(1);
            i += n;
        }
        let i2 = i.min(c.len());
        i = i2;
        out.push((space, c[st..i].iter().collect()));
    }
    out
}

fn join(ts: &[(String, String)]) -> String {
    let mut s = String::new();
    for (i, (sp, t)) in ts.iter().enumerate() {
        if i > 0 && sp.is_empty() {
            // keep tokens apart which would otherwise run together
            let a = s.chars().last().unwrap_or(' ');
            let b = t.chars().next().unwrap_or(' ');
            if (a.is_alphanumeric() || a == '_') && (b.is_alphanumeric() || b == '_') {
                s.push(' ');
            }
        }
        s += sp;
        s += t;
    }
    s
}

fn is_ident(t: &str) -> bool {
    t.starts_with(|c: char| c.is_alphabetic() || c == '_')
}

/// The bracketed groups: (index of the opening token, index of the closing token)
fn groups(ts: &[(String, String)]) -> Vec<(usize, usize)> {
    let mut st = vec![];
    let mut out = vec![];
    for (i, (_, t)) in ts.iter().enumerate() {
        match t.as_str() {
            "(" | "[" | "{" | "$(" | "#[" => st.push(i),
            ")" | "]" | "}" => {
                if let Some(o) = st.pop() {
                    out.push((o, i));
                }
            }
            _ => {}
        }
    }
    out
}

// ---------------------------------------------------------------- spaces

const INSERT: &[&str] = &[
    "(", ")", "{", "}", "[", "]", ",", ";", ":", "::", "=", "<", ">", ".", "..", "&", "-", "!", "#", "@", "'", "$(", "inv", "let", "reg",
    "fn", "if", "match", "x", "bool", "0", "self", "_", "inst", "stage", "\"s\"", "->", "=>",
];

struct Units {
    seen: HashSet<u64>,
    v: Vec<(String, String)>,
}
impl Units {
    fn add(&mut self, key: String, text: String) {
        if self.seen.insert(hash64(&text)) {
            self.v.push((key, text));
        }
    }
}

fn mutants(u: &mut Units, key: &str, text: &str, ins: &[&str], rep: &[&str], thorough: bool) {
    let ts = lex(text);
    let n = ts.len();
    for i in 0..n {
        for k in 1..=(if thorough { 4 } else { 2 }) {
            if i + k <= n {
                let mut t = ts.clone();
                t.drain(i..i + k);
                u.add(format!("{key}/delete {k} at {i}"), join(&t));
            }
        }
        let mut t = ts.clone();
        t.insert(i, ts[i].clone());
        u.add(format!("{key}/double {i}"), join(&t));
        if i + 1 < n {
            let mut t = ts.clone();
            t.swap(i, i + 1);
            u.add(format!("{key}/swap {i}"), join(&t));
        }
        u.add(format!("{key}/cut {i}"), join(&ts[..i]));
        for x in ins {
            let mut t = ts.clone();
            t.insert(i, (" ".into(), x.to_string()));
            u.add(format!("{key}/insert {x} at {i}"), join(&t));
        }
        for x in rep {
            let mut t = ts.clone();
            t[i] = (" ".into(), x.to_string());
            u.add(format!("{key}/replace {i} by {x}"), join(&t));
        }
    }
    // every name in place of every other
    let mut names: Vec<&String> = ts.iter().map(|t| &t.1).filter(|t| is_ident(t)).collect();
    names.sort();
    names.dedup();
    for i in 0..n {
        if is_ident(&ts[i].1) {
            for x in &names {
                let mut t = ts.clone();
                t[i].1 = x.to_string();
                u.add(format!("{key}/name {i} is {x}"), join(&t));
            }
        }
    }
    for (o, c) in groups(&ts) {
        let mut t = ts.clone();
        t.drain(o + 1..c);
        u.add(format!("{key}/empty {o}"), join(&t));
        let mut t = ts.clone();
        t.drain(o..=c);
        u.add(format!("{key}/no group {o}"), join(&t));
        let mut t = ts.clone();
        t.remove(c);
        t.remove(o);
        u.add(format!("{key}/open {o}"), join(&t));
        let mut t = ts.clone();
        let g: Vec<_> = ts[o..=c].to_vec();
        t.splice(o..o, g);
        u.add(format!("{key}/group twice {o}"), join(&t));
        // one group in place of another
        for (o2, c2) in groups(&ts) {
            if (o2, c2) != (o, c) && (c < o2 || o > c2) && (thorough || ts[o].1 != ts[o2].1) {
                let mut t = ts.clone();
                t.splice(o..=c, ts[o2..=c2].to_vec());
                u.add(format!("{key}/group {o} is {o2}"), join(&t));
            }
        }
    }
    // truncation in the middle of a token, and single missing characters
    let ch: Vec<(usize, char)> = text.char_indices().collect();
    for &(i, c) in &ch {
        u.add(format!("{key}/end at {i}"), text[..i].to_string());
        if !c.is_whitespace() {
            let mut t = text[..i].to_string();
            t += &text[i + c.len_utf8()..];
            u.add(format!("{key}/without character {i}"), t);
        }
        if thorough {
            for x in ["é", "\"", "/*", "\\", "\0", "9"] {
                u.add(format!("{key}/character {x:?} at {i}"), format!("{}{x}{}", &text[..i], &text[i..]));
            }
        }
    }
}

const TOKENS: &[&str] = &[
    "x", "S", "E::A", "m::f", "f", "top", "T", "N", "self", "_", "0", "7u3", "-", "true", "\"s\"", "b\"s\"", "b'c'", "(", ")", "[", "]", "{",
    "}", "<", ">", ",", ";", ":", "::", "::<", "=", "==", "=>", "->", ".", "..", "&", "!", "+", "*", "|", "||", "@", "#", "#[", "$(", "$", "'",
    "`", "'l", "#uint", "fn", "entity", "pipeline", "(2)", "struct", "enum", "impl", "trait", "for", "use", "mod", "as", "extern", "pub", "type",
    "let", "reg", "decl", "set", "assert", "if", "else", "match", "gen", "inst", "inst(1)", "stage", "stage(1)", ".valid", "unsafe", "inv", "port()",
    "where", "initial", "reset", "bool", "uint<3>", "()", "macro", "x!(", "/*", "///", "//!", "lib", "super", "clk", "int", "uint::bits_for(", "1..2",
];

/// Contexts: `@` is where the tokens go
const CONTEXTS: &[(&str, &str)] = &[
    ("item", "@"),
    ("items", "fn g() -> bool { true } @ fn h() -> bool { true }"),
    ("expression", "entity top(clk: clock, x: bool, s: S) -> bool { @ }"),
    ("operand", "entity top(clk: clock, x: bool, s: S) -> bool { x && @ && x }"),
    ("statement", "entity top(clk: clock, x: bool, s: S) -> bool { let y = x; @ let z = y; z }"),
    ("let", "entity top(clk: clock, x: bool, s: S) -> bool { let @ = x; x }"),
    ("type", "fn g(x: @) -> bool { true }"),
    ("return type", "fn g(x: bool) -> @ { x }"),
    ("local type", "fn g(x: bool) -> bool { let y: @ = x; y }"),
    ("pattern", "fn g(x: bool, s: S) -> bool { match s { @ => true, _ => x } }"),
    ("arm", "fn g(x: bool, s: S) -> bool { match s { _ => @ } }"),
    ("arms", "fn g(x: bool, s: S) -> bool { match s { @ } }"),
    ("parameters", "fn g(@) -> bool { true }"),
    ("generics", "fn g<@>(x: bool) -> bool { x }"),
    ("type arguments", "fn g(x: bool) -> bool { f::<@>(x) }"),
    ("named type arguments", "fn g(x: bool) -> bool { f::$<@>(x) }"),
    ("arguments", "fn g(x: bool) -> bool { f(@) }"),
    ("named arguments", "fn g(x: bool) -> bool { f$(@) }"),
    ("method", "fn g(x: bool, s: S) -> bool { s.@ }"),
    ("callee", "fn g(x: bool) -> bool { @(x) }"),
    ("where", "fn g<T, #uint N>(x: T) -> T where @ { x }"),
    ("attribute", "#[@] fn g(x: bool) -> bool { x }"),
    ("attributes of statements", "entity g(clk: clock, x: bool) -> bool { #[@] reg(clk) y = x; y }"),
    ("struct", "struct Q { @ }"),
    ("enum", "enum Q { @ }"),
    ("variant", "enum Q { A { @ }, B }"),
    ("trait", "trait TQU { @ }"),
    ("impl", "impl S { @ }"),
    ("impl of trait", "impl TRQU for S { @ }"),
    ("impl head", "impl @ { fn f2(self) -> bool { true } }"),
    ("use", "use @;"),
    ("alias", "type Q = @;"),
    ("pipeline depth", "pipeline(@) p2(clk: clock, x: bool) -> bool { reg; x }"),
    ("pipeline", "pipeline(2) p2(clk: clock, x: bool) -> bool { reg; @ reg; x }"),
    ("register", "entity g(clk: clock, x: bool) -> bool { reg(@) y = x; y }"),
    ("register name", "entity g(clk: clock, x: bool) -> bool { reg(clk) @ = x; x }"),
    ("register end", "entity g(clk: clock, x: bool) -> bool { reg(clk) y: bool @ = x; y }"),
    ("constant", "fn g<#uint N>(x: uint<{@}>) -> bool { true }"),
    ("gen if", "fn g<#uint N>(x: bool) -> bool { gen if @ { x } else { !x } }"),
    ("array", "fn g(x: bool) -> [bool; 2] { [@] }"),
    ("index", "fn g(x: [bool; 2]) -> bool { x[@] }"),
    ("lambda", "fn g(x: bool) -> bool { let q = fn |@| x; x }"),
    ("set", "entity g(o: inv bool, x: bool) { set @ = x; }"),
    ("macro", "macro q { @ }"),
];

/// What the contexts may refer to
const PREFIX: &str = "struct S { a: bool, b: uint<3> } enum E { A, B { v: bool } } mod m { pub fn f(x: bool) -> bool { x } } fn f<T>(x: T) -> T { x } \
     trait TRQU { fn trmQU(self) -> bool; } impl S { fn sm(self) -> bool { self.a } }\n";

fn spaces(thorough: bool) -> Vec<(bool, Vec<(String, String)>)> {
    let mut out = vec![];
    for std in [false, true] {
        let mut u = Units { seen: HashSet::new(), v: vec![] };
        for p in corpus().iter().filter(|p| p.std == std) {
            let text = p.text("QU");
            let (ins, rep): (&[&str], &[&str]) =
                if thorough { (TOKENS, TOKENS) } else { (&INSERT[..12], &["0", "x", "(", "bool", "_", "if"]) };
            mutants(&mut u, p.key, &text, ins, rep, thorough);
        }
        out.push((std, u.v));
    }
    let mut u = Units { seen: HashSet::new(), v: vec![] };
    for (name, ctx) in CONTEXTS {
        let mut put = |ts: &[&str]| u.add(format!("{name}: {}", ts.join(" ")), format!("{PREFIX}{}", ctx.replace('@', &ts.join(" "))));
        put(&[]);
        for a in TOKENS {
            put(&[a]);
            for b in if thorough { TOKENS } else { INSERT } {
                put(&[a, b]);
            }
        }
        if thorough {
            for a in INSERT {
                for b in INSERT {
                    for c in INSERT {
                        put(&[a, b, c]);
                    }
                }
            }
        }
    }
    out.push((false, u.v));
    let mut u = Units { seen: HashSet::new(), v: vec![] };
    phrases(&mut u, thorough);
    out.push((true, u.v));
    // strings of characters
    let mut u = Units { seen: HashSet::new(), v: vec![] };
    let chars: Vec<char> = (0u8..128).map(|c| c as char).chain(['é', '√', '\u{85}', '\u{feff}', '\u{1F600}']).collect();
    let few: Vec<char> = "afb0_9u'\"\\/*#!$<>=-.:{([)]},;|&@`x \n\0é".chars().collect();
    for &a in &chars {
        u.add(format!("character {a:?}"), a.to_string());
        for &b in &chars {
            u.add(format!("characters {a:?} {b:?}"), [a, b].iter().collect());
        }
    }
    for &a in &few {
        for &b in &few {
            for &c in &few {
                u.add(format!("characters {a:?} {b:?} {c:?}"), [a, b, c].iter().collect());
                if thorough {
                    for &d in &few {
                        u.add(format!("characters {a:?} {b:?} {c:?} {d:?}"), [a, b, c, d].iter().collect());
                    }
                }
            }
        }
    }
    out.push((false, u.v));
    out
}

// ---------------------------------------------------------------- phrases

/// Complete phrases; ¤E, ¤T, ¤P, ¤S, ¤C are where an expression, type, pattern, statement or constant goes
const EXPRS: &[&str] = &[
    "x", "u", "i", "s", "e", "t", "ar", "o", "clk", "undefined", "0", "7u3", "-1", "true", "b\"ab\"", "b'c'", "()", "(¤E,)", "(¤E, x)", "[¤E]", "[¤E; 2]",
    "[¤E, x]", "¤E.0", "¤E.5", "¤E.a", "¤E.zz", "¤E[0]", "¤E[u]", "¤E[9]", "¤E[0..1]", "¤E[1..0]", "¤E[0..9]", "¤E[..]", "¤E[x]", "!¤E", "-¤E", "~¤E",
    "¤E + ¤E", "¤E && x", "u * ¤E", "¤E - 1", "¤E / 2", "¤E / 3", "¤E % 0", "¤E << 1", "¤E == ¤E", "¤E < u", "¤E +. u", "¤E `f` x", "if ¤E {x} else {x}",
    "if x {¤E} else {x}", "if x {¤E}", "match ¤E {}", "match ¤E { _ => x }", "match ¤E { ¤P => x, _ => x }", "match x { _ => ¤E }", "match x { true => ¤E }",
    "match u { _ if ¤E => x, _ => x }", "{¤E}", "{}", "{ let q = ¤E; q }", "{ ¤S x }", "f(¤E)", "f$(x: ¤E)", "f()", "f(x, ¤E)", "f", "S(¤E, u)", "S$(a: ¤E, b: u)",
    "S$(a: x)", "S", "E::A", "E::B(¤E)", "E::B", "E::Z", "E", "Some(¤E)", "None", "¤E.sm()", "¤E.sm(x)", "¤E.nomethod()", "S::sm(¤E)", "inst ent(clk, ¤E)", "inst ent(¤E, x)",
    "inst f(¤E)", "inst(1) pipe(clk, ¤E)", "inst(7) pipe(clk, ¤E)", "inst pipe(clk, ¤E)", "inst(1) ent(clk, x)", "ent(clk, x)", "pipe(clk, x)", "¤E.inst sm()",
    "port()", "inst std::ports::read_mut_wire(¤E)", "¤E.inspect()", "fn |q| ¤E", "fn || ¤E", "(fn |q| x).call((¤E,))", "fn |¤P| x", "stage(1).x", "stage(-1).x", "stage.valid",
    "stage(nolabel).x", "g::<¤T>(x)", "g::<¤C>(x)", "g::$<T: ¤T>(x)", "c::<¤C>(u)", "c::<¤T>(u)", "c::<3>(¤E)", "zext(¤E)", "trunc(¤E)", "concat(¤E, u)", "sext(¤E)",
    "unsafe {std::conv::transmute(¤E)}", "(¤E)", "gen if ¤C {x} else {x}", "gen if true {¤E} else {x}", "x::y", "m::f(¤E)", "m::private(¤E)", "m", "std::ops::min(¤E, i)",
    "¤E.trQU()", "[]", "(x)(¤E)", "lib::f(¤E)", "clk && ¤E", "¤E.call((x,))", "¤E.to_int()", "¤E.concat(ar)", "include_bytes!(\"/dev/null\")", "inv ¤E", "self", "self.a",
];
const TYPES: &[&str] = &[
    "bool", "uint<3>", "int<3>", "uint", "uint<0>", "uint<bool>", "uint<-1>", "uint<¤C>", "int<¤T>", "[¤T; 2]", "[bool; ¤C]", "[bool; bool]", "(¤T, bool)", "()", "(¤T,)", "S", "E",
    "Option<¤T>", "Option", "Option<1>", "inv ¤T", "inv inv bool", "clock", "_", "&¤T", "Undefined", "m::f", "m::P", "TRQU", "f", "G<¤T>", "G<3>", "G", "A<3>", "A<¤T>", "A", "Memory<¤T, 2>",
    "impl Fn(bool) -> bool", "impl TRQU", "Self", "T", "S<¤T>", "bool<3>", "Option<Option<¤T>>", "¤C", "{¤C}", "std::option::Option<bool>",
];
const PATS: &[&str] = &[
    "_", "q", "true", "3", "-1", "7u3", "(¤P, _)", "(¤P,)", "()", "[¤P, _]", "[]", "S(¤P, _)", "S$(a: ¤P, b)", "S$(a)", "S$()", "S()", "S", "E::A", "E::B(¤P)", "E::B$(v: ¤P)", "E::B", "E::A(¤P)",
    "E::Z", "Some(¤P)", "None", "q @ ¤P", "f", "f(¤P)", "Undefined(¤P)", "m::f", "(q, q)", "x", "clk", "self", "T", "b'c'", "Some", "E", "N",
];
const STMTS: &[&str] = &[
    "let q = ¤E;", "let q: ¤T = x;", "let ¤P = s;", "let ¤P = e;", "let ¤P = (x, u);", "let ¤P = ar;", "let ¤P: ¤T = undefined;", "let _ = ¤E;", "¤E;", "reg(clk) q = ¤E;", "reg(clk) q: ¤T = q;",
    "reg(¤E) q = x;", "reg(clk) q reset(¤E: x) = x;", "reg(clk) q reset(x: ¤E) = x;", "reg(clk) q initial(¤E) = x;", "reg(clk) ¤P = s;", "reg(clk) ¤P = x;", "decl q;", "decl q; let q = ¤E;", "decl q; reg(clk) q = ¤E;",
    "decl q, q;", "set ¤E = x;", "let (o1, o2) = port(); set o2 = ¤E;", "assert ¤E;", "let q: ¤T = port();", "let (q, r): ¤T = port();", "reg;", "reg[¤E];", "reg*2;", "reg*{¤C};", "reg*0;", "'lab", "'lab 'lab", "#[wal_trace] reg(clk) q = ¤E;", "#[fsm] reg(clk) q: E = ¤E;",
    "#[fsm(x)] reg(clk) q = ¤E;", "#[wal_trace(clk=clk, rst=x)] reg(clk) q = ¤E;", "#[wal_suffix(suffix = \"q\")] let q = ¤E;", "#[inline] let q = ¤E;", "let q = ¤E; let r = q;", "gen if ¤C { let r = ¤E; x } else {x};", "decl q; let r = q; let q = ¤E;", "{ ¤S };", "let q = { ¤S ¤E };",
];
const CONSTS: &[&str] = &[
    "0", "1", "3", "-1", "N", "T", "x", "true", "\"s\"", "{¤C}", "{¤C + 1}", "{¤C - 5}", "{¤C * ¤C}", "{¤C / 0}", "{¤C % 0}", "{¤C == ¤C}", "{!¤C}", "{¤C && true}", "{¤C < 3}", "{uint::bits_for(¤C)}", "{int::bits_for(¤C)}", "{uint::bits_for(-1)}", "bool", "{undefined}",
    "_", "18446744073709551616", "{18446744073709551616 * 18446744073709551616}", "{-¤C}", "B", "{B}", "{¤C ^^ true}", "{uint::nothing(1)}", "{\"s\" == \"t\"}",
];
const ITEMS: &[&str] = &[
    "fn q(a: ¤T) -> bool { true }", "fn q(a: ¤T) -> ¤T { a }", "entity q(a: ¤T) { }", "fn q(x: bool) -> ¤T { x }", "fn q<T>(x: ¤T) -> bool { true }", "fn q<T: ¤T>(x: T) -> bool { true }", "fn q<#uint N>(x: ¤T) -> bool { true }", "fn q<#¤T N>(x: bool) -> bool { x }",
    "struct Q { a: ¤T }", "struct Q<T> { a: ¤T }", "struct Q<#uint N> { a: ¤T }", "struct Q { a: ¤T, a: bool }", "struct Q { a: Q }", "enum Q { A, B { a: ¤T } }", "enum Q { A, A }", "enum Q { A { a: Q } }", "enum Q<T> { A { a: ¤T }, B }", "enum Q { }", "struct Q { }",
    "type Q = ¤T;", "type Q = Q;", "type Q<T> = ¤T;", "impl ¤T { fn qmQU(self) -> bool { true } }", "impl TRQU for ¤T { fn trQU(self) -> bool { true } }", "impl TRQU for u { }", "impl ¤T for S { fn qmQU(self) -> bool { true } }", "impl<T> ¤T { fn qmQU(self) -> bool { true } }",
    "impl<T> TRQU for ¤T { fn trQU(self) -> bool { true } }", "impl TRQU for E { }", "impl TRQU for E { fn trQU(self) -> ¤T { true } }", "impl TRQU for E { fn trQU(self, x: ¤T) -> bool { true } }", "impl TRQU for E { entity trQU(self) -> bool { true } }", "impl TRQU for E { fn other(self) -> bool { true } }",
    "trait RQU { fn rQU(self) -> ¤T; }", "trait RQU<T> { fn rQU(self, x: ¤T) -> T; }", "trait RQU { fn rQU() -> ¤T; }", "trait RQU { fn rQU(x: Self) -> Self; }", "pipeline(¤C) q(clk: clock, x: bool) -> bool { reg; x }", "pipeline(¤C) q(clk: clock, x: bool) -> bool { x }", "pipeline(1) q(x: bool) -> bool { reg; x }",
    "pipeline(1) q(clk: ¤T, x: bool) -> bool { reg; x }", "pipeline(1) q() -> bool { reg; true }", "entity q<#uint N>(x: uint<N>) -> bool where N == ¤C { x == 0 }", "fn q<#uint N>(x: bool) -> bool where N: ¤C { x }", "fn q<#uint N>(x: bool) -> uint<{¤C}> { 0 }", "fn q<T>(x: T) -> T where T: ¤T { x }", "extern entity q(a: ¤T) -> ¤T;", "extern fn q(a: ¤T) -> bool;",
    "extern pipeline(1) q(clk: clock, a: ¤T) -> bool;", "#[no_mangle] fn q_QU(x: ¤T) -> bool { true }", "#[no_mangle(all)] entity q_QU(x: ¤T, o: inv bool) { set o = true; }", "#[inline] fn q(x: ¤T) -> bool { true }", "#[nothing] fn q(x: ¤T) -> bool { true }", "#[optimize(nothing)] fn q(x: bool) -> bool { x }",
    "#[spadec_paren_sugar] trait RQU {}", "#[documentation(content=\"q\")] fn q(x: bool) -> bool { x }", "use m::private; fn q(x: bool) -> bool { private(x) }", "use q; use q;", "use q as r; use r as q; fn z(x: bool) -> bool { q(x) }", "use m::{f, f};", "use undefined::x;", "mod q { use super::q; }", "mod m { }", "fn f(x: bool) -> bool { x }", "fn q(x: bool) -> bool { q(x) }",
    "fn q<T>(x: T) -> T { q((x, x)).0 }", "entity q(clk: clock) -> bool { let z = inst q(clk); z }", "fn q(a: bool, a: bool) -> bool { a }", "fn q<T, T>(a: T) -> T { a }", "struct Q<T: ¤T> { a: T }", "macro q { }", "macro q { ($a:expr) => { $a } }", "impl S { fn sm(self) -> bool { true } }",
    "impl S { fn q(self, x: ¤T) -> bool { true } } fn z(s: S, x: bool) -> bool { s.q(x) }", "impl S { pipeline(1) q(self, clk: clock) -> bool { reg; self.a } }", "impl S { pipeline(1) q(clk: clock, self) -> bool { reg; self.a } } pipeline(1) z(clk: clock, s: S) -> bool { let q = s.inst(1) q(clk); reg; q }", "fn q(f: impl Fn(bool) -> ¤T) -> bool { f.call((true,)) } fn z(x: bool) -> bool { q(fn |a| a) }",
    "fn q(f: impl ¤T) -> bool { true }", "enum Q { A { f: impl Fn(bool) -> bool } }", "entity q(x: inv ¤T) { }", "entity q() -> inv ¤T { port().1 }", "fn q<T>() -> T { 0 } fn z() -> ¤T { q() }", "fn q<#uint N>() -> uint<N> { 0 } fn z() -> ¤T { q() }", "fn q<#str N>(x: bool) -> bool { x } fn z(x: bool) -> bool { q::<¤C>(x) }", "fn q<#bool N>(x: bool) -> bool { x } fn z(x: bool) -> bool { q::<¤C>(x) }",
    "fn q<#int N>(x: bool) -> int<8> { N } fn z(x: bool) -> int<8> { q::<¤C>(x) }",
];

const WORLD: &str = "struct S { a: bool, b: uint<3> } enum E { A, B { v: bool } } struct G<T> { g: T } struct A<#uint N> { g: uint<N> } \
     mod m { pub fn f(x: bool) -> bool { x } fn private(x: bool) -> bool { x } struct P { a: bool } } fn f(x: bool) -> bool { x } fn g<T>(x: T) -> T { x } fn c<#uint N>(x: uint<N>) -> uint<N> { x } \
     trait TRQU { fn trQU(self) -> bool; } impl TRQU for S { fn trQU(self) -> bool { self.a } } impl S { fn sm(self) -> bool { self.a } } \
     entity ent(clk: clock, x: bool) -> bool { x } pipeline(1) pipe(clk: clock, x: bool) -> bool { reg; x }\n";

/// All fillings of the holes of `t`: one hole with every phrase of the next level, the others with the plain ones
fn fill(t: &str, depth: usize) -> Vec<String> {
    let Some(at) = t.find('¤') else { return vec![t.to_string()] };
    let mut out = vec![];
    let holes: Vec<usize> = t.match_indices('¤').map(|x| x.0).collect();
    let list = |c: char| match c {
        'E' => EXPRS,
        'T' => TYPES,
        'P' => PATS,
        'S' => STMTS,
        _ => CONSTS,
    };
    let plain = |c: char| match c {
        'E' => "x",
        'T' => "bool",
        'P' => "q",
        'S' => "let q = x;",
        _ => "1",
    };
    let _ = at;
    for (k, _) in holes.iter().enumerate() {
        let kind = t[holes[k] + 2..].chars().next().unwrap();
        let mut ways: Vec<String> = vec![];
        if depth == 0 {
            ways.push(plain(kind).into());
        } else {
            for p in list(kind) {
                ways.extend(fill(p, depth - 1));
            }
        }
        for w in ways {
            let mut s = String::new();
            let mut last = 0;
            for (j, h) in holes.iter().enumerate() {
                let c = t[h + 2..].chars().next().unwrap();
                s += &t[last..*h];
                s += if j == k { &w } else { plain(c) };
                last = h + 3;
            }
            s += &t[last..];
            out.push(s);
        }
    }
    out.sort();
    out.dedup();
    out
}

fn phrases(u: &mut Units, thorough: bool) {
    let params = "clk: clock, x: bool, u: uint<3>, i: int<3>, s: S, e: E, t: (bool, uint<2>), ar: [bool; 2], o: Option<bool>";
    let d = 1;
    let bodies: &[(&str, &str)] = &[
        ("entity", "entity top(PARAMS) -> bool { @ }"),
        ("function", "fn top<T, #uint N>(PARAMS) -> T { @ } entity z(PARAMS) -> bool { top::<bool, 3>(clk, x, u, i, s, e, t, ar, o) }"),
        ("pipeline", "pipeline(2) top(PARAMS) -> bool { reg; @ }"),
        ("method", "impl S { entity top<#uint N, T>(self, PARAMS) -> bool { @ } }"),
    ];
    for (name, b) in bodies {
        let b = b.replace("PARAMS", params);
        for e in EXPRS.iter().flat_map(|e| fill(e, d)) {
            u.add(format!("{name} body: {e}"), format!("{WORLD}{}", b.replace('@', &e)));
            if thorough || *name == "entity" {
                u.add(format!("{name} let: {e}"), format!("{WORLD}{}", b.replace('@', &format!("let z = {e}; x"))));
            }
        }
        for s in STMTS.iter().flat_map(|e| fill(e, d)) {
            let end = if *name == "pipeline" { "reg; x" } else { "x" };
            u.add(format!("{name} statement: {s}"), format!("{WORLD}{}", b.replace('@', &format!("{s} {end}"))));
        }
        for p in PATS.iter().flat_map(|e| fill(e, d)) {
            for v in ["s", "e", "t", "ar", "u", "i", "o", "x", "clk"] {
                u.add(format!("{name} match {v}: {p}"), format!("{WORLD}{}", b.replace('@', &format!("match {v} {{ {p} => x, _ => x }}"))));
                if thorough {
                    u.add(format!("{name} let {v}: {p}"), format!("{WORLD}{}", b.replace('@', &format!("let {p} = {v}; x"))));
                }
            }
        }
        if !thorough && *name == "function" {
            break;
        }
    }
    for it in ITEMS.iter().flat_map(|e| fill(e, 1)) {
        u.add(format!("item: {it}"), format!("{WORLD}{it}"));
        if thorough {
            u.add(format!("module: {it}"), format!("{WORLD}mod mm {{ use lib::{{S, E, G, A, TRQU, m}}; {it} }}"));
        }
    }
    if thorough {
        for it in ITEMS.iter().flat_map(|e| fill(e, 2)) {
            u.add(format!("item: {it}"), format!("{WORLD}{it}"));
        }
        // a constant or a type two levels down
        for e in EXPRS.iter().filter(|e| e.contains("¤C") || e.contains("¤T")).flat_map(|e| fill(e, 3)) {
            u.add(format!("deep: {e}"), format!("{WORLD}{}", bodies[0].1.replace("PARAMS", params).replace('@', &e)));
        }
    }
}

// ---------------------------------------------------------------- running

/// What a panic is called: the place without line numbers, and the message without numbers
fn panic_key(m: &str) -> String {
    let place = m.split("panicked at ").nth(1).unwrap_or(m);
    let mut lines = place.lines();
    let file = lines.next().unwrap_or("").split(':').next().unwrap_or("");
    let file = file.rsplit("/repo/").next().unwrap_or(file);
    let msg: String = lines.next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
    format!("panic in {file}: {msg}")
}

struct Found {
    key: String,
    what: String,
    unit: Option<usize>,
}

/// What is wrong with one answer of the compiler
fn judge(out: &Outcome, group: &[usize]) -> Vec<Found> {
    let mut v = vec![];
    let only = (group.len() == 1).then(|| group[0]);
    let wrote: Vec<&String> = out.wrote.iter().filter(|w| *w != "state").collect();
    match out.status {
        Status::Ok => {
            if !out.errors().is_empty() {
                v.push(Found { key: "errors, yet success".into(), what: out.summary(), unit: only });
            }
            if wrote.len() < 3 {
                v.push(Found { key: "success without output".into(), what: format!("{:?} were written", out.wrote), unit: only });
            }
        }
        Status::Failed(_) => {
            if out.errors().is_empty() {
                v.push(Found { key: "failure without an error".into(), what: "no diagnostic is an error".into(), unit: only });
            }
            if !wrote.is_empty() {
                v.push(Found { key: "failure with output".into(), what: format!("{:?} were written", out.wrote), unit: only });
            }
            if out.rendered.trim().is_empty() {
                v.push(Found { key: "failure without a message".into(), what: "nothing is printed".into(), unit: only });
            }
        }
        _ => {}
    }
    for d in &out.diags {
        for s in d.all_spans() {
            if !s.ok {
                let msg: String = d.msg.chars().filter(|c| !c.is_ascii_digit()).collect();
                v.push(Found {
                    key: format!("span outside its file: {msg}"),
                    what: format!("{}: {}..{} of {}", d.msg, s.lo, s.hi, s.file),
                    unit: d.all_spans().iter().find_map(|s| file_unit(&s.file)).or(only),
                });
            }
        }
    }
    v
}

struct Tally {
    ok: u64,
    rejected: u64,
    messages: BTreeMap<String, u64>,
}

fn run_space(ctx: &Ctx, pool: &Pool, std: bool, units: &[(String, String)], size: usize) -> Tally {
    let idx: Vec<usize> = (0..units.len()).collect();
    let chunks: Vec<&[usize]> = idx.chunks(size).collect();
    let tally = Mutex::new(Tally { ok: 0, rejected: 0, messages: BTreeMap::new() });
    let report = |f: Found| {
        let (k, t) = match f.unit {
            Some(u) => (units[u].0.as_str(), units[u].1.as_str()),
            None => ("?", ""),
        };
        ctx.violation(&f.key, &format!("{k}: {}", f.what), json!({"key": k, "src": t, "stdlib": std}));
    };
    par_map(&chunks, |_, chunk| {
        let mut todo: Vec<Vec<usize>> = vec![chunk.to_vec()];
        while let Some(group) = todo.pop() {
            if group.is_empty() {
                continue;
            }
            let job = Job {
                sources: group.iter().map(|i| (unit_file(*i), units[*i].1.replace("QU", &format!("q{i}")))).collect(),
                stdlib: std,
                want_mir: true,
                want_items: true,
                render: true,
                ..Default::default()
            };
            let out = pool.compile(&job);
            ctx.programs(1);
            let halves = |todo: &mut Vec<Vec<usize>>| {
                let (a, b) = group.split_at(group.len() / 2);
                todo.push(a.to_vec());
                todo.push(b.to_vec());
            };
            let found = judge(&out, &group);
            if found.iter().any(|f| f.unit.is_none()) {
                halves(&mut todo);
                continue;
            }
            found.into_iter().for_each(&report);
            match &out.status {
                Status::Ok => tally.lock().unwrap().ok += group.len() as u64,
                Status::Failed(_) => {
                    let mut bad: BTreeMap<usize, String> = BTreeMap::new();
                    for d in out.errors() {
                        if let Some(u) = d.all_spans().iter().find_map(|s| file_unit(&s.file)) {
                            bad.entry(u).or_insert(d.msg.clone());
                        }
                    }
                    bad.retain(|u, _| group.contains(u));
                    if bad.is_empty() {
                        if group.len() == 1 {
                            tally.lock().unwrap().rejected += 1;
                        } else {
                            halves(&mut todo);
                        }
                        continue;
                    }
                    let rest = group.iter().copied().filter(|u| !bad.contains_key(u)).collect();
                    let mut t = tally.lock().unwrap();
                    t.rejected += bad.len() as u64;
                    for (_, m) in bad {
                        let m: String = m.split('`').enumerate().map(|(i, p)| if i % 2 == 0 { p } else { "…" }).collect();
                        *t.messages.entry(m).or_default() += 1;
                    }
                    drop(t);
                    todo.push(rest);
                }
                Status::Panic(m) => {
                    if group.len() == 1 {
                        report(Found { key: panic_key(m), what: format!("the compiler panicked: {m}"), unit: Some(group[0]) });
                    } else {
                        halves(&mut todo);
                    }
                }
                Status::Died(m) => {
                    if group.len() == 1 {
                        report(Found { key: format!("no answer: {}", units[group[0]].0), what: m.clone(), unit: Some(group[0]) });
                    } else {
                        halves(&mut todo);
                    }
                }
            }
        }
    });
    tally.into_inner().unwrap()
}

/// Units that ask for ever more instances of each other
fn endless(ctx: &Ctx) {
    let progs: &[(&str, &str)] = &[
        ("growing number", "fn q<#uint N>(a: bool) -> bool { q::<{N + 1}>(a) } fn z(x: bool) -> bool { q::<1>(x) }"),
        ("growing number in turns", "fn q<#uint N>(a: bool) -> bool { r::<{N + 1}>(a) } fn r<#uint N>(a: bool) -> bool { q::<N>(a) } fn z(x: bool) -> bool { q::<1>(x) }"),
        ("same number", "fn q<#uint N>(a: bool) -> bool { q::<N>(a) } fn z(x: bool) -> bool { q::<1>(x) }"),
        ("same in turns", "fn q<#uint N>(a: bool) -> bool { r::<N>(a) } fn r<#uint N>(a: bool) -> bool { q::<N>(a) } fn z(x: bool) -> bool { q::<1>(x) }"),
        ("ending", "fn q<#uint N>(a: bool) -> bool { gen if N == 9 { a } else { q::<{N + 1}>(a) } } fn z(x: bool) -> bool { q::<1>(x) }"),
        ("wide numbers", "fn q<#uint N>(a: uint<N>) -> bool { true } fn z(x: bool) -> bool { q::<100000>(0) }"),
        ("struct of itself", "struct Q { a: Q } fn z(q: Q) -> Q { q }"),
        ("structs of each other", "struct Q { a: (bool, R) } struct R { a: [Q; 2] } fn z(q: Q) -> Q { q }"),
        ("enum of itself", "enum Q { A, B { q: Q } } fn z(q: Q) -> Q { Q::B(q) }"),
        ("generic struct of itself", "struct Q<T> { a: Q<(T, T)> } fn z(q: Q<bool>) -> bool { true }"),
        ("alias of itself", "type Q = R; type R = Q; fn z(q: Q) -> bool { true }"),
        ("alias of itself inside", "type Q = (Q, bool); fn z(q: Q) -> bool { true }"),
        ("deep brackets", "fn z(a: bool) -> bool { ((((((((((((((((((((((((((((((((((((((((a)))))))))))))))))))))))))))))))))))))))) }"),
        ("bound by itself", "trait TQ<X> { fn tq(self) -> bool; } struct S<T> { t: T } impl<T: TQ<S<T>>> TQ<T> for S<T> { fn tq(self) -> bool { self.t.tq() } } fn z(s: S<bool>) -> bool { s.tq() }"),
        ("module of itself", "mod a { use lib::b::x; } mod b { use lib::a::x; } fn z(q: bool) -> bool { a::x(q) }"),
    ];
    let pool = Pool::new().limit(10);
    ctx.evals(progs.len() as u64);
    par_map(progs, |_, (key, src)| {
        let job = Job { sources: vec![(unit_file(0), src.to_string())], want_mir: true, want_items: true, render: true, ..Default::default() };
        let out = pool.compile_once(&job);
        ctx.programs(1);
        let replay = || json!({"key": key, "src": src, "stdlib": false});
        for f in judge(&out, &[0]) {
            ctx.violation(&format!("{key}: {}", f.key), &f.what, replay());
        }
        match &out.status {
            Status::Panic(m) => ctx.violation(&format!("{key}: {}", panic_key(m)), m, replay()),
            Status::Died(m) => ctx.violation(&format!("no answer: {key}"), m, replay()),
            _ => ctx.distinct(hash64(key)),
        }
    });
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new().limit(30);
    let only = std::env::var("MC_ONLY").ok();
    let mut messages: BTreeMap<String, u64> = BTreeMap::new();
    for (std, mut units) in spaces(ctx.thorough()) {
        if let Some(o) = &only {
            units.retain(|u| u.0.starts_with(o.as_str()));
        }
        let n = units.len() as u64;
        ctx.evals(n);
        ctx.states(n, n, 0);
        for (_, t) in &units {
            ctx.distinct(hash64(t));
        }
        let t = run_space(&ctx, &pool, std, &units, 100);
        ctx.count(if std { "texts with the library" } else { "texts" }, n);
        ctx.count("accepted", t.ok);
        ctx.rejected(t.rejected);
        for (m, k) in t.messages {
            ctx.outcome(hash64(&m));
            *messages.entry(m).or_default() += k;
        }
    }
    endless(&ctx);
    ctx.count("kinds of diagnostics seen", messages.len() as u64);
    if std::env::var("MC_TIME").is_ok() {
        for (m, k) in &messages {
            eprintln!("{k:7} {m}");
        }
    }
    ctx.finish(
        "model_checking",
        "all token strings up to the length bound in every context, and the whole neighbourhood of the corpus under the listed edits, each given to the compiler",
        &["texts are compiled in groups; a text that is rejected leaves its group, and a crash is bisected to one text"],
        true,
    )
}
