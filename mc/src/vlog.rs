//! Parser for the subset of SystemVerilog that the Spade compiler emits (plus what hand written
//! extern modules in the harness need). The parser is deliberately strict: anything it does not
//! understand is an error, so that a malformed output file cannot slip through unnoticed.

use num::{BigUint, Zero, One};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String, bool), // name, escaped
    Num(Num),
    Str(String),
    Op(&'static str),
    Eof,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Num {
    pub width: Option<u32>,
    pub signed: bool,
    pub v: BigUint,
    pub x: BigUint, // x=1,v=0: X; x=1,v=1: Z
    pub digits_w: u32,
    pub fill: u8, // for unsized/under-specified: 0 = zero, 1 = x, 2 = z
}

const OPS: &[&str] = &[
    "<<<", ">>>", "===", "!==", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "+:", "-:", "(*", "*)", "~&", "~|",
    "~^", "(", ")", "[", "]", "{", "}", ";", ":", ",", ".", "?", "=", "+", "-", "*", "/", "%", "&", "|", "^", "~",
    "!", "<", ">", "@", "#", "'",
];

pub const KEYWORDS: &[&str] = &[
    "module", "endmodule", "input", "output", "inout", "logic", "reg", "wire", "assign", "always", "always_comb",
    "always_ff", "always_latch", "initial", "begin", "end", "if", "else", "case", "casez", "casex", "endcase",
    "posedge", "negedge", "localparam", "parameter", "for", "while", "function", "endfunction", "task", "endtask",
    "generate", "endgenerate", "genvar", "integer", "real", "signed", "unsigned", "default", "priority", "unique",
    "assert", "assume", "cover", "property", "int", "bit", "byte", "string", "and", "or", "not", "nand", "nor", "xor",
    "xnor", "buf", "tri", "class", "struct", "enum", "union", "typedef", "package", "import", "export", "return",
    "this", "super", "new", "null", "void", "do", "break", "continue", "const", "var", "ref", "static", "force",
    "release", "repeat", "forever", "wait", "event", "disable", "fork", "join", "expect", "global", "local",
    "program", "interface", "modport", "primitive", "table", "supply0", "supply1", "tri0", "tri1", "wand", "wor",
    "within", "with", "type", "time", "shortint", "longint", "chandle", "checker", "config", "context", "design",
    "edge", "extends", "extern", "final", "inside", "instance", "library", "matches", "packed", "pure", "rand",
    "sequence", "solve", "specify", "strong", "weak", "virtual",
];

/// Very small preprocessor: conditional compilation with SYNTHESIS / COCOTB_SIM /
/// NO_PRETTY_ASSERT undefined, multi-line `define skipping, COCOTB_CODE removal.
fn preprocess(src: &str) -> Result<(String, Vec<(String, String)>), String> {
    let mut out = String::with_capacity(src.len());
    let mut stack: Vec<bool> = vec![];
    let mut defines = vec![];
    let mut lines = src.lines();
    while let Some(line) = lines.next() {
        let t = line.trim_start();
        let active = stack.iter().all(|b| *b);
        if t.starts_with('`') {
            let mut w = t[1..].splitn(2, |c: char| c.is_whitespace() || c == '(');
            let dir = w.next().unwrap_or("");
            match dir {
                "ifdef" => stack.push(false),
                "ifndef" => stack.push(true),
                "else" => {
                    let l = stack.last_mut().ok_or("`else without `ifdef")?;
                    *l = !*l;
                }
                "endif" => {
                    stack.pop().ok_or("`endif without `ifdef")?;
                }
                "define" => {
                    let mut l = line;
                    while l.trim_end().ends_with('\\') {
                        match lines.next() {
                            Some(n) => l = n,
                            None => break,
                        }
                    }
                    if active {
                        let rest = t["`define".len()..].trim();
                        if !rest.starts_with("COCOTB_CODE") {
                            defines.push((rest.to_string(), String::new()));
                        }
                    }
                }
                "COCOTB_CODE" | "default_nettype" | "timescale" => {}
                other => {
                    if active {
                        return Err(format!("unknown directive `{other}"));
                    }
                }
            }
            out.push('\n');
        } else {
            if active {
                out.push_str(line);
            }
            out.push('\n');
        }
    }
    if !stack.is_empty() {
        return Err("unterminated `ifdef".into());
    }
    Ok((out, defines))
}

pub fn lex(src: &str) -> Result<Vec<(Tok, u32)>, String> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut line = 1u32;
    let mut out = vec![];
    'outer: while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            line += 1;
            i += 1;
            continue;
        }
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if c == b'/' && b.get(i + 1) == Some(&b'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') {
                if b[i] == b'\n' {
                    line += 1;
                }
                i += 1;
            }
            i += 2;
            continue;
        }
        if c == b'"' {
            let mut s: Vec<u8> = vec![];
            i += 1;
            loop {
                if i >= b.len() || b[i] == b'\n' {
                    return Err(format!("line {line}: unterminated string"));
                }
                if b[i] == b'\\' {
                    s.push(b[i]);
                    s.push(*b.get(i + 1).unwrap_or(&b' '));
                    i += 2;
                    continue;
                }
                if b[i] == b'"' {
                    i += 1;
                    break;
                }
                s.push(b[i]);
                i += 1;
            }
            out.push((Tok::Str(String::from_utf8_lossy(&s).to_string()), line));
            continue;
        }
        if c == b'\\' {
            let st = i + 1;
            i += 1;
            while i < b.len() && !b[i].is_ascii_whitespace() {
                i += 1;
            }
            let name = std::str::from_utf8(&b[st..i]).map_err(|e| e.to_string())?;
            if name.is_empty() {
                return Err(format!("line {line}: empty escaped identifier"));
            }
            if !name.is_ascii() {
                return Err(format!("line {line}: non-ascii identifier {name}"));
            }
            out.push((Tok::Id(name.to_string(), true), line));
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let st = i;
            i += 1;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            out.push((Tok::Id(src[st..i].to_string(), false), line));
            continue;
        }
        if c.is_ascii_digit() || (c == b'\'' && b.get(i + 1).map_or(false, |c| c.is_ascii_alphabetic())) {
            let st = i;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'_') {
                i += 1;
            }
            let head: String = src[st..i].chars().filter(|c| *c != '_').collect();
            // optional base
            let mut j = i;
            while j < b.len() && b[j] == b' ' {
                j += 1;
            }
            if b.get(j) == Some(&b'\'') && b.get(j + 1).map_or(false, |c| c.is_ascii_alphabetic()) {
                i = j + 1;
                let mut signed = false;
                if b[i] == b's' || b[i] == b'S' {
                    signed = true;
                    i += 1;
                }
                let base = b[i].to_ascii_lowercase();
                i += 1;
                while i < b.len() && b[i] == b' ' {
                    i += 1;
                }
                let ds = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'?') {
                    i += 1;
                }
                let digits: Vec<u8> = src[ds..i].bytes().filter(|c| *c != b'_').collect();
                if digits.is_empty() {
                    return Err(format!("line {line}: literal without digits"));
                }
                let (mut v, mut x) = (BigUint::zero(), BigUint::zero());
                let bits = match base {
                    b'b' => 1,
                    b'o' => 3,
                    b'h' => 4,
                    b'd' => 0,
                    _ => return Err(format!("line {line}: bad base")),
                };
                let fill;
                let digits_w;
                if bits == 0 {
                    let s = std::str::from_utf8(&digits).unwrap();
                    if s == "x" || s == "X" {
                        fill = 1;
                        digits_w = 1;
                        x = BigUint::one();
                    } else if s == "z" || s == "?" {
                        fill = 2;
                        digits_w = 1;
                        x = BigUint::one();
                        v = BigUint::one();
                    } else {
                        v = s.parse().map_err(|_| format!("line {line}: bad decimal '{s}'"))?;
                        fill = 0;
                        digits_w = v.bits() as u32;
                    }
                } else {
                    let mask = (BigUint::one() << bits as usize) - BigUint::one();
                    for d in &digits {
                        v <<= bits as usize;
                        x <<= bits as usize;
                        match d.to_ascii_lowercase() {
                            b'x' => x |= &mask,
                            b'z' | b'?' => {
                                x |= &mask;
                                v |= &mask
                            }
                            d => {
                                let n = (d as char).to_digit(1 << bits).ok_or(format!("line {line}: bad digit"))?;
                                v |= BigUint::from(n);
                            }
                        }
                    }
                    fill = match digits[0].to_ascii_lowercase() {
                        b'x' => 1,
                        b'z' | b'?' => 2,
                        _ => 0,
                    };
                    digits_w = bits * digits.len() as u32;
                }
                let width = if head.is_empty() {
                    None
                } else {
                    let w: u32 = head.parse().map_err(|_| format!("line {line}: bad width"))?;
                    if w == 0 {
                        return Err(format!("line {line}: zero-width literal"));
                    }
                    Some(w)
                };
                out.push((Tok::Num(Num { width, signed, v, x, digits_w, fill }), line));
            } else {
                let v: BigUint = head.parse().map_err(|_| format!("line {line}: bad number"))?;
                let dw = v.bits() as u32;
                if dw > 32 {
                    return Err(format!("line {line}: the unsized literal {v} does not fit the 32 bits tools give it"));
                }
                out.push((
                    Tok::Num(Num { width: None, signed: true, v, x: BigUint::zero(), digits_w: dw, fill: 0 }),
                    line,
                ));
            }
            continue;
        }
        for op in OPS {
            if src[i..].starts_with(op) {
                // "(*)" in always @(*)
                if *op == "(*" && b.get(i + 2) == Some(&b')') {
                    continue;
                }
                out.push((Tok::Op(op), line));
                i += op.len();
                continue 'outer;
            }
        }
        return Err(format!("line {line}: unexpected character {:?}", src[i..].chars().next()));
    }
    out.push((Tok::Eof, line));
    Ok(out)
}

#[derive(Clone, Debug)]
pub enum Expr {
    Num(Num),
    Str(String),
    Id(String),
    Index(String, Box<Expr>),
    Part(String, Box<Expr>, Box<Expr>),
    IdxPart(String, Box<Expr>, Box<Expr>, bool),
    /// memory word then select
    Concat(Vec<Expr>),
    Repl(Box<Expr>, Vec<Expr>),
    Un(&'static str, Box<Expr>),
    Bin(&'static str, Box<Expr>, Box<Expr>),
    Cond(Box<Expr>, Box<Expr>, Box<Expr>),
    Signed(Box<Expr>),
    Unsigned(Box<Expr>),
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Block(Vec<Stmt>),
    If(Expr, Box<Stmt>, Option<Box<Stmt>>),
    Case { kind: &'static str, sel: Expr, items: Vec<(Vec<Expr>, Stmt)>, default: Option<Box<Stmt>> },
    Blocking(Expr, Expr),
    NonBlocking(Expr, Expr),
    Assert(Expr, Vec<String>),
    SysCall(String),
    Null,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dir {
    In,
    Out,
    InOut,
}

#[derive(Clone, Debug)]
pub struct Port {
    pub name: String,
    pub dir: Dir,
    pub range: Option<(Expr, Expr)>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Decl { name: String, range: Option<(Expr, Expr)>, dims: Option<(Expr, Expr)>, is_reg: bool, line: u32 },
    Param { name: String, range: Option<(Expr, Expr)>, value: Expr, line: u32, overridable: bool },
    Assign(Expr, Expr, u32),
    AlwaysComb(Stmt, u32),
    AlwaysFF(Vec<(bool, Expr)>, Stmt, u32),
    AlwaysChange(Expr, Stmt, u32),
    Initial(Stmt, u32),
    Instance { module: String, name: String, params: Vec<(String, Expr)>, conns: Vec<(String, Option<Expr>)>, line: u32, attrs: Vec<(String, Option<String>)> },
}

#[derive(Clone, Debug)]
pub struct Module {
    pub name: String,
    pub ports: Vec<Port>,
    pub items: Vec<Item>,
    pub attrs: Vec<(String, Option<String>)>,
    /// names used as plain (unescaped) identifiers in declarations
    pub line: u32,
}

#[derive(Clone, Debug, Default)]
pub struct File {
    pub modules: Vec<Module>,
    pub by_name: HashMap<String, usize>,
    pub defines: Vec<String>,
    pub duplicates: Vec<String>,
}

struct P {
    t: Vec<(Tok, u32)>,
    p: usize,
}

type R<T> = Result<T, String>;

impl P {
    fn peek(&self) -> &Tok {
        &self.t[self.p].0
    }
    fn line(&self) -> u32 {
        self.t[self.p].1
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.p].0.clone();
        if self.p + 1 < self.t.len() {
            self.p += 1;
        }
        t
    }
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("verilog line {}: {m}, found {:?}", self.line(), self.peek()))
    }
    fn is_op(&self, o: &str) -> bool {
        matches!(self.peek(), Tok::Op(x) if *x == o)
    }
    fn op(&mut self, o: &str) -> bool {
        if self.is_op(o) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, o: &str) -> R<()> {
        if self.op(o) { Ok(()) } else { self.err(&format!("expected '{o}'")) }
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.peek(), Tok::Id(x, false) if x == k)
    }
    fn kw(&mut self, k: &str) -> bool {
        if self.is_kw(k) {
            self.next();
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.peek().clone() {
            Tok::Id(n, esc) => {
                if !esc && (KEYWORDS.contains(&n.as_str()) || n.starts_with('$')) {
                    return self.err("keyword used as identifier");
                }
                self.next();
                Ok(n)
            }
            _ => self.err("expected identifier"),
        }
    }

    fn attrs(&mut self) -> R<Vec<(String, Option<String>)>> {
        let mut out = vec![];
        while self.op("(*") {
            loop {
                let n = match self.next() {
                    Tok::Id(n, _) => n,
                    _ => return self.err("attribute name"),
                };
                let v = if self.op("=") {
                    match self.next() {
                        Tok::Str(s) => Some(s),
                        Tok::Num(n) => Some(n.v.to_string()),
                        _ => return self.err("attribute value"),
                    }
                } else {
                    None
                };
                out.push((n, v));
                if !self.op(",") {
                    break;
                }
            }
            self.expect("*)")?;
        }
        Ok(out)
    }

    fn range(&mut self) -> R<Option<(Expr, Expr)>> {
        if self.op("[") {
            let h = self.expr()?;
            self.expect(":")?;
            let l = self.expr()?;
            self.expect("]")?;
            Ok(Some((h, l)))
        } else {
            Ok(None)
        }
    }

    fn module(&mut self, attrs: Vec<(String, Option<String>)>) -> R<Module> {
        let line = self.line();
        let name = self.ident()?;
        let mut items = vec![];
        if self.op("#") {
            self.expect("(")?;
            loop {
                self.kw("parameter");
                self.kw("int");
                let line = self.line();
                let range = self.range()?;
                let n = self.ident()?;
                self.expect("=")?;
                let v = self.expr()?;
                items.push(Item::Param { name: n, range, value: v, line, overridable: true });
                if !self.op(",") {
                    break;
                }
            }
            self.expect(")")?;
        }
        let mut ports: Vec<Port> = vec![];
        self.expect("(")?;
        if !self.is_op(")") {
            loop {
                self.attrs()?;
                let dir = if self.kw("input") {
                    Dir::In
                } else if self.kw("output") {
                    Dir::Out
                } else if self.kw("inout") {
                    Dir::InOut
                } else {
                    return self.err("expected port direction");
                };
                self.kw("logic");
                self.kw("wire");
                self.kw("reg");
                let range = self.range()?;
                let n = self.ident()?;
                ports.push(Port { name: n, dir, range });
                if !self.op(",") {
                    break;
                }
            }
        }
        self.expect(")")?;
        self.expect(";")?;
        while !self.kw("endmodule") {
            if matches!(self.peek(), Tok::Eof) {
                return self.err("unterminated module");
            }
            self.item(&mut items)?;
        }
        Ok(Module { name, ports, items, attrs, line })
    }

    fn item(&mut self, items: &mut Vec<Item>) -> R<()> {
        let attrs = self.attrs()?;
        let line = self.line();
        if self.op(";") {
            return Ok(());
        }
        if self.is_kw("logic") || self.is_kw("reg") || self.is_kw("wire") {
            let is_reg = self.is_kw("reg");
            self.next();
            let range = self.range()?;
            loop {
                let name = self.ident()?;
                let dims = self.range()?;
                items.push(Item::Decl { name: name.clone(), range: range.clone(), dims, is_reg, line });
                if self.op("=") {
                    let e = self.expr()?;
                    items.push(Item::Assign(Expr::Id(name), e, line));
                }
                if !self.op(",") {
                    break;
                }
            }
            self.expect(";")?;
            return Ok(());
        }
        if self.kw("localparam") || self.kw("parameter") {
            let range = self.range()?;
            let name = self.ident()?;
            self.expect("=")?;
            let value = self.expr()?;
            self.expect(";")?;
            items.push(Item::Param { name, range, value, line, overridable: false });
            return Ok(());
        }
        if self.kw("assign") {
            let l = self.lvalue()?;
            self.expect("=")?;
            let r = self.expr()?;
            self.expect(";")?;
            items.push(Item::Assign(l, r, line));
            return Ok(());
        }
        if self.kw("always_comb") {
            let s = self.stmt()?;
            items.push(Item::AlwaysComb(s, line));
            return Ok(());
        }
        if self.is_kw("always") || self.is_kw("always_ff") {
            self.next();
            self.expect("@")?;
            if self.op("*") {
                let s = self.stmt()?;
                items.push(Item::AlwaysComb(s, line));
                return Ok(());
            }
            self.expect("(")?;
            if self.op("*") {
                self.expect(")")?;
                let s = self.stmt()?;
                items.push(Item::AlwaysComb(s, line));
                return Ok(());
            }
            let mut sens = vec![];
            let mut change = None;
            loop {
                if self.kw("posedge") {
                    sens.push((true, self.expr()?));
                } else if self.kw("negedge") {
                    sens.push((false, self.expr()?));
                } else {
                    change = Some(self.expr()?);
                }
                if !(self.kw("or") || self.op(",")) {
                    break;
                }
            }
            self.expect(")")?;
            let s = self.stmt()?;
            match change {
                Some(e) if sens.is_empty() => items.push(Item::AlwaysChange(e, s, line)),
                None => items.push(Item::AlwaysFF(sens, s, line)),
                _ => return self.err("mixed sensitivity list"),
            }
            return Ok(());
        }
        if self.kw("initial") {
            let s = self.stmt()?;
            items.push(Item::Initial(s, line));
            return Ok(());
        }
        // instance
        let module = self.ident()?;
        let mut params = vec![];
        if self.op("#") {
            self.expect("(")?;
            loop {
                self.expect(".")?;
                let n = self.ident()?;
                self.expect("(")?;
                let e = self.expr()?;
                self.expect(")")?;
                params.push((n, e));
                if !self.op(",") {
                    break;
                }
            }
            self.expect(")")?;
        }
        let name = self.ident()?;
        self.expect("(")?;
        let mut conns = vec![];
        if !self.is_op(")") {
            loop {
                self.expect(".")?;
                let n = self.ident()?;
                self.expect("(")?;
                let e = if self.is_op(")") { None } else { Some(self.expr()?) };
                self.expect(")")?;
                conns.push((n, e));
                if !self.op(",") {
                    break;
                }
            }
        }
        self.expect(")")?;
        self.expect(";")?;
        items.push(Item::Instance { module, name, params, conns, line, attrs });
        Ok(())
    }

    fn stmt(&mut self) -> R<Stmt> {
        self.attrs()?;
        if self.op(";") {
            return Ok(Stmt::Null);
        }
        if self.op("#") {
            // delay: only #0 is meaningful in this subset
            match self.next() {
                Tok::Num(n) if n.v.is_zero() => {}
                _ => return self.err("only #0 delays are supported"),
            }
            return self.stmt();
        }
        if self.kw("begin") {
            if self.op(":") {
                self.ident()?;
            }
            let mut v = vec![];
            while !self.kw("end") {
                if matches!(self.peek(), Tok::Eof) || self.is_kw("endmodule") {
                    return self.err("unterminated begin");
                }
                v.push(self.stmt()?);
            }
            return Ok(Stmt::Block(v));
        }
        if self.kw("if") {
            self.expect("(")?;
            let c = self.expr()?;
            self.expect(")")?;
            let a = self.stmt()?;
            let b = if self.kw("else") { Some(Box::new(self.stmt()?)) } else { None };
            return Ok(Stmt::If(c, Box::new(a), b));
        }
        if self.is_kw("priority") || self.is_kw("unique") {
            self.next();
        }
        for k in ["casez", "case", "casex"] {
            if self.kw(k) {
                self.expect("(")?;
                let sel = self.expr()?;
                self.expect(")")?;
                let mut items = vec![];
                let mut default = None;
                while !self.kw("endcase") {
                    if matches!(self.peek(), Tok::Eof) || self.is_kw("endmodule") {
                        return self.err("unterminated case");
                    }
                    if self.kw("default") {
                        self.op(":");
                        default = Some(Box::new(self.stmt()?));
                        continue;
                    }
                    let mut es = vec![self.expr()?];
                    while self.op(",") {
                        es.push(self.expr()?);
                    }
                    self.expect(":")?;
                    let s = self.stmt()?;
                    items.push((es, s));
                }
                return Ok(Stmt::Case { kind: k, sel, items, default });
            }
        }
        if self.kw("assert") {
            self.expect("(")?;
            let e = self.expr()?;
            self.expect(")")?;
            let mut msgs = vec![];
            if self.kw("else") {
                let s = self.stmt()?;
                fn coll(s: &Stmt, out: &mut Vec<String>) {
                    match s {
                        Stmt::Block(v) => v.iter().for_each(|s| coll(s, out)),
                        Stmt::SysCall(m) => out.push(m.clone()),
                        _ => {}
                    }
                }
                coll(&s, &mut msgs);
            } else {
                self.expect(";")?;
            }
            return Ok(Stmt::Assert(e, msgs));
        }
        if let Tok::Id(n, false) = self.peek().clone() {
            if n.starts_with('$') {
                self.next();
                let mut args = vec![];
                if self.op("(") {
                    if !self.is_op(")") {
                        loop {
                            match self.peek().clone() {
                                Tok::Str(s) => {
                                    self.next();
                                    args.push(s);
                                }
                                _ => {
                                    self.expr()?;
                                    args.push("<expr>".into());
                                }
                            }
                            if !self.op(",") {
                                break;
                            }
                        }
                    }
                    self.expect(")")?;
                }
                self.expect(";")?;
                return Ok(Stmt::SysCall(format!("{n} {}", args.join(" "))));
            }
        }
        let l = self.lvalue()?;
        if self.op("<=") {
            let r = self.expr()?;
            self.expect(";")?;
            Ok(Stmt::NonBlocking(l, r))
        } else {
            self.expect("=")?;
            let r = self.expr()?;
            self.expect(";")?;
            Ok(Stmt::Blocking(l, r))
        }
    }

    fn lvalue(&mut self) -> R<Expr> {
        if self.op("{") {
            let mut v = vec![self.lvalue()?];
            while self.op(",") {
                v.push(self.lvalue()?);
            }
            self.expect("}")?;
            return Ok(Expr::Concat(v));
        }
        let n = self.ident()?;
        self.select(n)
    }

    fn select(&mut self, n: String) -> R<Expr> {
        if self.op("[") {
            let a = self.expr()?;
            if self.op(":") {
                let b = self.expr()?;
                self.expect("]")?;
                return Ok(Expr::Part(n, Box::new(a), Box::new(b)));
            }
            if self.op("+:") {
                let b = self.expr()?;
                self.expect("]")?;
                return Ok(Expr::IdxPart(n, Box::new(a), Box::new(b), true));
            }
            if self.op("-:") {
                let b = self.expr()?;
                self.expect("]")?;
                return Ok(Expr::IdxPart(n, Box::new(a), Box::new(b), false));
            }
            self.expect("]")?;
            return Ok(Expr::Index(n, Box::new(a)));
        }
        Ok(Expr::Id(n))
    }

    fn expr(&mut self) -> R<Expr> {
        let c = self.binary(0)?;
        if self.op("?") {
            let a = self.expr()?;
            self.expect(":")?;
            let b = self.expr()?;
            return Ok(Expr::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }

    fn binary(&mut self, min: u8) -> R<Expr> {
        let mut l = self.unary()?;
        loop {
            let (op, prec): (&'static str, u8) = match self.peek() {
                Tok::Op(o) => match *o {
                    "||" => ("||", 1),
                    "&&" => ("&&", 2),
                    "|" => ("|", 3),
                    "^" | "~^" => (o, 4),
                    "&" => ("&", 5),
                    "==" | "!=" | "===" | "!==" => (o, 6),
                    "<" | "<=" | ">" | ">=" => (o, 7),
                    "<<" | ">>" | ">>>" | "<<<" => (o, 8),
                    "+" | "-" => (o, 9),
                    "*" | "/" | "%" => (o, 10),
                    _ => break,
                },
                _ => break,
            };
            if prec < min + 1 {
                break;
            }
            self.next();
            let r = self.binary(prec)?;
            l = Expr::Bin(op, Box::new(l), Box::new(r));
        }
        Ok(l)
    }

    fn unary(&mut self) -> R<Expr> {
        for o in ["-", "+", "!", "~", "&", "|", "^"] {
            if self.is_op(o) {
                self.next();
                let e = self.unary()?;
                return Ok(Expr::Un(o, Box::new(e)));
            }
        }
        match self.peek().clone() {
            Tok::Num(n) => {
                self.next();
                Ok(Expr::Num(n))
            }
            Tok::Str(s) => {
                self.next();
                Ok(Expr::Str(s))
            }
            Tok::Op("(") => {
                self.next();
                let e = self.expr()?;
                self.expect(")")?;
                Ok(e)
            }
            Tok::Op("{") => {
                self.next();
                let first = self.expr()?;
                if self.op("{") {
                    let mut v = vec![self.expr()?];
                    while self.op(",") {
                        v.push(self.expr()?);
                    }
                    self.expect("}")?;
                    self.expect("}")?;
                    return Ok(Expr::Repl(Box::new(first), v));
                }
                let mut v = vec![first];
                while self.op(",") {
                    v.push(self.expr()?);
                }
                self.expect("}")?;
                Ok(Expr::Concat(v))
            }
            Tok::Id(n, false) if n == "$signed" || n == "$unsigned" => {
                self.next();
                self.expect("(")?;
                let e = self.expr()?;
                self.expect(")")?;
                Ok(if n == "$signed" { Expr::Signed(Box::new(e)) } else { Expr::Unsigned(Box::new(e)) })
            }
            Tok::Id(..) => {
                let n = self.ident()?;
                self.select(n)
            }
            _ => self.err("expected expression"),
        }
    }
}

pub fn parse(src: &str) -> R<File> {
    let (src, defines) = preprocess(src)?;
    let toks = lex(&src)?;
    let mut p = P { t: toks, p: 0 };
    let mut f = File { defines: defines.into_iter().map(|d| d.0).collect(), ..Default::default() };
    loop {
        if matches!(p.peek(), Tok::Eof) {
            break;
        }
        let attrs = p.attrs()?;
        if p.kw("module") {
            let m = p.module(attrs)?;
            if f.by_name.contains_key(&m.name) {
                f.duplicates.push(m.name.clone());
            }
            f.by_name.insert(m.name.clone(), f.modules.len());
            f.modules.push(m);
        } else {
            return p.err("expected module");
        }
    }
    Ok(f)
}
