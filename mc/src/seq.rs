//! Sequential programs: registers over the expression language, with a reference model.
use crate::hw::*;
use crate::lang::*;

#[derive(Clone)]
pub struct Reg {
    pub pat: Pat,
    pub ty: Ty,
    /// index into the clock list
    pub clk: usize,
    pub reset: Option<(E, E)>,
    pub init: Option<E>,
    pub next: E,
}
impl Reg {
    pub fn new(name: &str, ty: Ty, next: E) -> Reg {
        Reg { pat: Pat::Bind(name.into()), ty, clk: 0, reset: None, init: None, next }
    }
    pub fn reset(mut self, t: E, v: E) -> Reg {
        self.reset = Some((t, v));
        self
    }
    pub fn init(mut self, v: E) -> Reg {
        self.init = Some(v);
        self
    }
    pub fn on(mut self, clk: usize) -> Reg {
        self.clk = clk;
        self
    }
    pub fn pat(mut self, p: Pat) -> Reg {
        self.pat = p;
        self
    }
    pub fn names(&self) -> Vec<String> {
        let mut b = vec![];
        self.pat.bound(&mut b);
        b
    }
    pub fn show(&self, clks: &[&str]) -> String {
        format!(
            "reg({}) {}: {}{}{} = {};",
            clks[self.clk],
            self.pat.show(),
            self.ty.show(),
            self.reset.as_ref().map(|(t, v)| format!(" reset({}: {})", t.show(), v.show())).unwrap_or_default(),
            self.init.as_ref().map(|v| format!(" initial({})", v.show())).unwrap_or_default(),
            self.next.show()
        )
    }
}

#[derive(Clone)]
pub struct Circuit {
    pub params: Vec<(String, Ty)>,
    pub clks: Vec<String>,
    pub regs: Vec<Reg>,
    pub lets: Vec<(Pat, Option<Ty>, E)>,
    pub out: E,
}

pub fn enc(t: &Ty, v: &Val) -> [Option<u128>; 2] {
    let e = t.encode(v);
    let m = e.mask & ones(t.width());
    [Some(e.v & m), Some(m)]
}

impl Circuit {
    pub fn new(params: &[(&str, Ty)], regs: Vec<Reg>, out: E) -> Circuit {
        Circuit {
            params: params.iter().map(|p| (p.0.to_string(), p.1.clone())).collect(),
            clks: vec!["clk".into()],
            regs,
            lets: vec![],
            out,
        }
    }
    pub fn clocks(mut self, c: &[&str]) -> Circuit {
        self.clks = c.iter().map(|x| x.to_string()).collect();
        self
    }
    pub fn lets(mut self, l: Vec<(Pat, Option<Ty>, E)>) -> Circuit {
        self.lets = l;
        self
    }
    pub fn defs(&self) -> String {
        let mut d = vec![];
        for p in &self.params {
            p.1.defs(&mut d);
        }
        for r in &self.regs {
            r.ty.defs(&mut d);
            r.next.defs(&mut d);
            for e in r.init.iter().chain(r.reset.iter().flat_map(|x| [&x.0, &x.1])) {
                e.defs(&mut d);
            }
        }
        for l in &self.lets {
            l.2.defs(&mut d);
        }
        self.out.defs(&mut d);
        d.join("\n")
    }
    pub fn header(&self, name: &str) -> String {
        format!(
            "entity {name}({}) -> {}",
            self.clks
                .iter()
                .map(|c| format!("{c}: clock"))
                .chain(self.params.iter().map(|(n, t)| format!("{n}: {}", t.show())))
                .collect::<Vec<_>>()
                .join(", "),
            self.out.ty.show()
        )
    }
    /// `decl`s, lets, registers in order, result
    pub fn body(&self) -> String {
        let names: Vec<String> = self.regs.iter().flat_map(|r| r.names()).collect();
        let c: Vec<&str> = self.clks.iter().map(|x| &x[..]).collect();
        format!(
            "{}{} {} {}",
            if names.is_empty() { String::new() } else { format!("decl {}; ", names.join(", ")) },
            show_lets(&self.lets),
            self.regs.iter().map(|r| r.show(&c)).collect::<Vec<_>>().join(" "),
            self.out.show()
        )
    }
    pub fn src(&self) -> String {
        format!("{}\n{} {{ {} }}\n", self.defs(), self.header("top"), self.body())
    }
    pub fn case(&self, key: impl Into<String>) -> Case {
        self.case_src(key, self.src())
    }
    pub fn case_src(&self, key: impl Into<String>, src: String) -> Case {
        let me = self.clone();
        let mut init: S = vec![];
        for r in &self.regs {
            let v = match &r.init {
                Some(e) => e.eval(&mut vec![]),
                None => Val::Undef,
            };
            init.extend(enc(&r.ty, &v));
        }
        let ins: Vec<(&str, u32)> = self.params.iter().map(|(n, t)| (&n[..], t.width())).collect();
        let mut c = Case::seq(key, src, &ins, self.out.ty.width(), init, move |s, i| me.step(s, i));
        c.clk = Some(format!("{}_i", self.clks[0]));
        c.xclks = self.clks[1..].iter().map(|x| format!("{x}_i")).collect();
        c
    }
    pub fn step(&self, s: &S, i: &[u128]) -> (Exp, S) {
        let mut env: Env = vec![];
        for (k, (n, t)) in self.params.iter().enumerate() {
            env.push((n.clone(), t.decode(i[k]).unwrap_or(Val::Undef)));
        }
        for (k, r) in self.regs.iter().enumerate() {
            let v = r.ty.decode_masked(s[2 * k].unwrap(), s[2 * k + 1].unwrap());
            r.pat.bind_or_undef(&v, &mut env);
        }
        run_lets(&self.lets, &mut env);
        let o = self.out.eval(&mut env);
        let ticks = if self.clks.len() > 1 { i[i.len() - 1] } else { 1 };
        let mut n: S = vec![];
        for (k, r) in self.regs.iter().enumerate() {
            if ticks >> r.clk & 1 == 0 {
                n.extend(&s[2 * k..2 * k + 2]);
                continue;
            }
            let v = match &r.reset {
                Some((t, v)) => match t.eval(&mut env) {
                    Val::B(true) => v.eval(&mut env),
                    Val::B(false) => r.next.eval(&mut env),
                    _ => Val::Undef,
                },
                None => r.next.eval(&mut env),
            };
            n.extend(enc(&r.ty, &v));
        }
        (self.out.ty.encode(&o), n)
    }
}
