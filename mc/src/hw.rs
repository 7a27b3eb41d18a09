//! Cases: a Spade unit, its stimulus space and its reference model; compiled by the real compiler
//! and compared with the emitted Verilog on every input valuation / every reachable state.
use crate::comp::*;
use crate::report::{Ctx, hash64};
use crate::sim::{self, Design, Sim};
use crate::word::{V4, Word};
use num::{BigUint, ToPrimitive};
use serde_json::{Value as J, json};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Exp {
    pub v: u128,
    pub mask: u128,
}
impl Exp {
    pub fn is(v: u128) -> Exp {
        Exp { v, mask: u128::MAX }
    }
    pub fn any() -> Exp {
        Exp { v: 0, mask: 0 }
    }
    pub fn opt(v: Option<u128>) -> Exp {
        v.map(Exp::is).unwrap_or(Exp::any())
    }
    pub fn masked(v: u128, mask: u128) -> Exp {
        Exp { v: v & mask, mask }
    }
}

pub type S = Vec<Option<u128>>;
pub type CombFn = Arc<dyn Fn(&[u128]) -> Vec<Exp> + Send + Sync>;
pub type StepFn = Arc<dyn Fn(&S, &[u128]) -> (Vec<Exp>, S) + Send + Sync>;

#[derive(Clone)]
pub enum Oracle {
    Comb(CombFn),
    /// (initial state, step: state × inputs → (outputs before the edge, next state))
    Seq(S, StepFn),
    /// only require that it compiles and elaborates cleanly
    Compiles,
}

#[derive(Clone, Debug)]
pub enum Stim {
    All,
    Sets(Vec<Vec<u128>>),
    List(Vec<Vec<u128>>),
}

#[derive(Clone)]
pub struct Case {
    pub key: String,
    pub src: String,
    pub top: String,
    /// Verilog port name of the clock, if any
    pub clk: Option<String>,
    /// further clocks; with these, every step has one more virtual input: the set of clocks
    /// (bit 0 = `clk`, bit 1 = first of these, ...) that tick in that step
    pub xclks: Vec<String>,
    pub ins: Vec<(String, u32)>,
    pub outs: Vec<(String, u32)>,
    pub stim: Stim,
    pub oracle: Oracle,
    /// BFS bounds
    pub max_states: usize,
    pub max_depth: usize,
}

impl Case {
    pub fn comb(
        key: impl Into<String>,
        src: impl Into<String>,
        ins: &[(&str, u32)],
        out: u32,
        f: impl Fn(&[u128]) -> Option<u128> + Send + Sync + 'static,
    ) -> Case {
        Case {
            key: key.into(),
            src: src.into(),
            top: "top".into(),
            clk: None,
            xclks: vec![],
            ins: ins.iter().map(|(n, w)| (format!("{n}_i"), *w)).collect(),
            outs: vec![("output__".into(), out)],
            stim: Stim::All,
            oracle: Oracle::Comb(Arc::new(move |i| vec![Exp::opt(f(i))])),
            max_states: 0,
            max_depth: 0,
        }
    }
    pub fn comb_exp(
        key: impl Into<String>,
        src: impl Into<String>,
        ins: &[(&str, u32)],
        out: u32,
        f: impl Fn(&[u128]) -> Exp + Send + Sync + 'static,
    ) -> Case {
        let mut c = Case::comb(key, src, ins, out, |_| None);
        c.oracle = Oracle::Comb(Arc::new(move |i| vec![f(i)]));
        c
    }
    pub fn seq(
        key: impl Into<String>,
        src: impl Into<String>,
        ins: &[(&str, u32)],
        out: u32,
        init: S,
        f: impl Fn(&S, &[u128]) -> (Exp, S) + Send + Sync + 'static,
    ) -> Case {
        let mut c = Case::comb(key, src, ins, out, |_| None);
        c.clk = Some("clk_i".into());
        c.oracle = Oracle::Seq(
            init,
            Arc::new(move |s, i| {
                let (o, n) = f(s, i);
                (vec![o], n)
            }),
        );
        c.max_states = 200_000;
        c.max_depth = 1000;
        c
    }
    pub fn with_stim(mut self, s: Stim) -> Case {
        self.stim = s;
        self
    }
    pub fn depth(mut self, d: usize) -> Case {
        self.max_depth = d;
        self
    }
}

pub fn corner(w: u32) -> Vec<u128> {
    if w == 0 {
        return vec![0];
    }
    let m = u128::ones(w);
    let mut v = vec![
        0,
        1,
        2,
        3,
        m,
        m - 1.min(m),
        m >> 1,
        (m >> 1).wrapping_add(1),
        0x5555_5555_5555_5555_5555_5555_5555_5555 & m,
        0xAAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA & m,
        0x0123_4567_89AB_CDEF_FEDC_BA98_7654_3210 & m,
    ];
    for x in v.iter_mut() {
        *x &= m;
    }
    v.sort();
    v.dedup();
    v
}

pub fn all(w: u32) -> Vec<u128> {
    (0..(1u128 << w)).collect()
}

/// All values when the width is small, the corner alphabet otherwise.
pub fn some(w: u32, lim: u32) -> Vec<u128> {
    if w <= lim { all(w) } else { corner(w) }
}

fn cross(sets: &[Vec<u128>]) -> Vec<Vec<u128>> {
    let mut r: Vec<Vec<u128>> = vec![vec![]];
    for s in sets {
        let mut n = Vec::with_capacity(r.len() * s.len());
        for p in &r {
            for v in s {
                let mut q = p.clone();
                q.push(*v);
                n.push(q);
            }
        }
        r = n;
    }
    r
}

pub fn stimuli(c: &Case) -> (Vec<Vec<u128>>, bool) {
    match &c.stim {
        Stim::List(l) => (l.clone(), false),
        Stim::Sets(s) => (cross(s), false),
        Stim::All => {
            let bits: u32 = c.ins.iter().map(|i| i.1).sum();
            if bits <= 16 {
                (cross(&c.ins.iter().map(|i| all(i.1)).collect::<Vec<_>>()), true)
            } else {
                let sets: Vec<_> = c.ins.iter().map(|i| some(i.1, 3)).collect();
                let mut n: usize = sets.iter().map(|s| s.len()).product();
                if n > 70_000 {
                    let sets: Vec<_> = c
                        .ins
                        .iter()
                        .map(|i| {
                            let v = some(i.1, 1);
                            if v.len() > 4 {
                                vec![v[0], v[1], v[v.len() / 2], v[v.len() - 1]]
                            } else {
                                v
                            }
                        })
                        .collect();
                    n = sets.iter().map(|s| s.len()).product();
                    assert!(n <= 2_000_000, "stimulus space too large in {}", c.key);
                    return (cross(&sets), false);
                }
                (cross(&sets), false)
            }
        }
    }
}

pub fn lookup_top<W: Word>(f: &crate::vlog::File, ns: &str, top: &str) -> Result<Design<W>, String> {
    let name = if ns.is_empty() || top.starts_with("::") { top.trim_start_matches(':').to_string() } else { format!("{ns}::{top}") };
    sim::elaborate::<W>(f, &name)
}

pub struct Mismatch {
    pub what: String,
    pub steps: Vec<Vec<u128>>,
    pub expect: Vec<Exp>,
}

pub struct RunStats {
    pub evals: u64,
    pub states: u64,
    pub transitions: u64,
    pub outcomes: Vec<u64>,
    pub capped: Option<String>,
}

fn compare<W: Word>(sim: &Sim<W>, outs: &[(String, u32)], exp: &[Exp]) -> Option<String> {
    for (k, (p, w)) in outs.iter().enumerate() {
        let e = &exp[k];
        let m = e.mask & u128::ones(*w);
        if m == 0 {
            continue;
        }
        let got = sim.get(p);
        let gx = got.x.to_big();
        let gv = got.v.to_big();
        let mb = BigUint::from(m);
        let bad = !(&gx & &mb).eq(&BigUint::ZERO) || (&gv & &mb) != BigUint::from(e.v & m);
        if bad {
            return Some(format!(
                "port {p}: expected {}'d{}{}, circuit gives {}",
                w,
                e.v & m,
                if m == u128::ones(*w) { String::new() } else { format!(" on mask {m:#b}") },
                got.show(*w)
            ));
        }
    }
    None
}

fn show_in(c: &Case, i: &[u128]) -> String {
    let mut s = c.ins.iter().zip(i).map(|((n, w), v)| format!("{n}={w}'d{v}")).collect::<Vec<_>>().join(" ");
    if i.len() > c.ins.len() {
        s.push_str(&format!(" clocks={:b}", i[i.len() - 1]));
    }
    s
}

pub fn check_ports<W: Word>(d: &Design<W>, c: &Case) -> Option<String> {
    let find = |n: &str| d.ports.iter().find(|p| p.name == n);
    for (n, w) in &c.ins {
        if *w == 0 {
            continue;
        }
        match find(n) {
            None => return Some(format!("input port {n} is missing from the emitted module")),
            Some(p) => {
                let pw = d.sigs[p.sig].w;
                if pw != *w {
                    return Some(format!("input port {n} is {pw} bits wide, expected {w}"));
                }
                if p.dir == crate::vlog::Dir::Out {
                    return Some(format!("port {n} is not an input"));
                }
            }
        }
    }
    for (n, w) in &c.outs {
        if *w == 0 {
            continue;
        }
        match find(n) {
            None => return Some(format!("output port {n} is missing from the emitted module")),
            Some(p) => {
                let pw = d.sigs[p.sig].w;
                if pw != *w {
                    return Some(format!("output port {n} is {pw} bits wide, expected {w}"));
                }
                if p.dir == crate::vlog::Dir::In {
                    return Some(format!("port {n} is not an output"));
                }
            }
        }
    }
    None
}

pub fn run_case<W: Word>(d: &Design<W>, c: &Case, samples: &mut Vec<J>) -> Result<RunStats, Mismatch> {
    let mut st = RunStats { evals: 0, states: 0, transitions: 0, outcomes: vec![], capped: None };
    if let Some(w) = check_ports(d, c) {
        return Err(Mismatch { what: w, steps: vec![], expect: vec![] });
    }
    if let Some(l) = d.lints.first() {
        return Err(Mismatch { what: format!("emitted Verilog is malformed: {l}"), steps: vec![], expect: vec![] });
    }
    let mut sim = Sim::new(d);
    let conv = |v: u128| V4::known(W::from_big(&BigUint::from(v)));
    let ins: Vec<&(String, u32)> = c.ins.iter().collect();
    let outcome_of = |sim: &Sim<W>| -> u64 {
        let v: Vec<V4<W>> = c.outs.iter().filter(|o| o.1 > 0).map(|o| sim.get(&o.0).clone()).collect();
        hash64(&v)
    };
    match &c.oracle {
        Oracle::Compiles => {
            st.evals = 1;
            Ok(st)
        }
        Oracle::Comb(f) => {
            let (stim, _) = stimuli(c);
            let mut outs = std::collections::HashSet::new();
            for i in &stim {
                for (k, (n, w)) in ins.iter().enumerate() {
                    if *w > 0 {
                        sim.set(n, conv(i[k]));
                    }
                }
                sim.step();
                let exp = f(i);
                if let Some(w) = compare(&sim, &c.outs, &exp) {
                    return Err(Mismatch {
                        what: format!("{w} for {}", show_in(c, i)),
                        steps: vec![i.clone()],
                        expect: exp,
                    });
                }
                outs.insert(outcome_of(&sim));
                st.evals += 1;
                if samples.is_empty() && st.evals as usize > stim.len() / 2 {
                    samples.push(json!({"case": c.key, "inputs": show_in(c, i),
                        "expected": exp.iter().map(|e| format!("{}", e.v)).collect::<Vec<_>>(),
                        "circuit": c.outs.iter().filter(|o| o.1>0).map(|o| sim.get(&o.0).show(o.1)).collect::<Vec<_>>()}));
                }
            }
            if sim.unstable {
                return Err(Mismatch { what: "combinational loop does not settle".into(), steps: vec![], expect: vec![] });
            }
            st.outcomes = outs.into_iter().collect();
            Ok(st)
        }
        Oracle::Seq(init, f) => {
            let clk = c.clk.clone().expect("seq case without clock");
            let (mut stim, _) = stimuli(c);
            let nclk = 1 + c.xclks.len();
            if nclk > 1 {
                stim = stim
                    .iter()
                    .flat_map(|s| {
                        (1..(1u128 << nclk)).map(|m| {
                            let mut s = s.clone();
                            s.push(m);
                            s
                        })
                    })
                    .collect();
            }
            let clks: Vec<&String> = std::iter::once(&clk).chain(c.xclks.iter()).collect();
            let mut outs = std::collections::HashSet::new();
            type Key<W> = (Vec<V4<W>>, Vec<Vec<V4<W>>>);
            for ck in &clks {
                sim.set_u(ck, 0);
            }
            for (n, w) in &ins {
                if *w > 0 {
                    sim.set(n, conv(0));
                }
            }
            sim.step();
            let mut nodes: Vec<(Key<W>, S, usize, usize, usize)> = vec![]; // dut, model, parent, input, depth
            let mut seen: HashMap<(Key<W>, S), usize> = HashMap::new();
            let k0 = sim.state_key();
            nodes.push((k0.clone(), init.clone(), usize::MAX, 0, 0));
            seen.insert((k0, init.clone()), 0);
            let mut head = 0;
            let trace = |nodes: &Vec<(Key<W>, S, usize, usize, usize)>, mut n: usize, last: &[u128]| {
                let mut t = vec![last.to_vec()];
                while nodes[n].2 != usize::MAX {
                    t.push(stim[nodes[n].3].clone());
                    n = nodes[n].2;
                }
                t.reverse();
                t
            };
            while head < nodes.len() {
                let (dk, ms, _, _, depth) = nodes[head].clone();
                for (ii, i) in stim.iter().enumerate() {
                    for ck in &clks {
                        sim.set_u(ck, 0);
                    }
                    sim.load_state(&dk);
                    for (k, (n, w)) in ins.iter().enumerate() {
                        if *w > 0 {
                            sim.set(n, conv(i[k]));
                        }
                    }
                    sim.resync();
                    let (exp, ns) = f(&ms, i);
                    if let Some(w) = compare(&sim, &c.outs, &exp) {
                        let t = trace(&nodes, head, i);
                        return Err(Mismatch {
                            what: format!(
                                "{w} in cycle {} of the input history [{}]",
                                t.len(),
                                t.iter().map(|x| show_in(c, x)).collect::<Vec<_>>().join(" | ")
                            ),
                            steps: t,
                            expect: exp,
                        });
                    }
                    outs.insert(outcome_of(&sim));
                    st.transitions += 1;
                    if nclk == 1 {
                        sim.set_u(&clk, 1);
                    } else {
                        let m = i[i.len() - 1];
                        for (b, ck) in clks.iter().enumerate() {
                            if m >> b & 1 == 1 {
                                sim.set_u(ck, 1);
                            }
                        }
                    }
                    sim.step();
                    if depth + 1 <= c.max_depth {
                        let key = (sim.state_key(), ns);
                        if !seen.contains_key(&key) {
                            if nodes.len() >= c.max_states {
                                st.capped = Some(format!("{}: {} states", c.key, c.max_states));
                            } else {
                                seen.insert(key.clone(), nodes.len());
                                nodes.push((key.0, key.1, head, ii, depth + 1));
                            }
                        }
                    } else {
                        st.capped = Some(format!("{}: depth {}", c.key, c.max_depth));
                    }
                }
                head += 1;
            }
            if sim.unstable {
                return Err(Mismatch { what: "combinational loop does not settle".into(), steps: vec![], expect: vec![] });
            }
            st.states = nodes.len() as u64;
            st.evals = st.transitions;
            if samples.is_empty() && nodes.len() > 1 {
                let t = trace(&nodes, nodes.len() - 1, &[]);
                samples.push(json!({"case": c.key, "history_to_last_state": t.iter().take(t.len()-1).map(|x| show_in(c,x)).collect::<Vec<_>>(), "states": nodes.len(), "transitions": st.transitions}));
            }
            st.outcomes = outs.into_iter().collect();
            Ok(st)
        }
    }
}

pub fn replay_json(c: &Case, stdlib: bool, opt: &[String], m: Option<&Mismatch>) -> J {
    json!({
        "kind": "hw", "source": c.src, "stdlib": stdlib, "opt": opt, "top": c.top, "clk": c.clk, "xclks": c.xclks,
        "ins": c.ins, "outs": c.outs,
        "steps": m.map(|m| m.steps.iter().map(|s| s.iter().map(|v| v.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>()),
        "expect_last": m.map(|m| m.expect.iter().map(|e| json!({"v": e.v.to_string(), "mask": e.mask.to_string()})).collect::<Vec<_>>()),
    })
}

pub struct RunOpt {
    pub stdlib: bool,
    pub opt: Vec<String>,
    pub batch: usize,
}
impl Default for RunOpt {
    fn default() -> Self {
        RunOpt { stdlib: false, opt: vec![], batch: 60 }
    }
}
impl RunOpt {
    pub fn std() -> Self {
        RunOpt { stdlib: true, ..Default::default() }
    }
}

/// Compile and check all cases: every case must compile, elaborate without structural defects and
/// agree with its reference model everywhere in its stimulus space.
pub fn run_cases(ctx: &Ctx, pool: &Pool, cases: &[Case], o: &RunOpt) {
    let srcs: Vec<String> = cases.iter().map(|c| c.src.clone()).collect();
    let b = compile_batches(pool, &srcs, &BatchOpt { stdlib: o.stdlib, opt: o.opt.clone(), size: o.batch });
    check_compiled(ctx, pool, cases, o, &b);
}

/// like [run_cases], but a case whose program is rejected by the compiler is counted, not reported
pub fn run_cases_lenient(ctx: &Ctx, pool: &Pool, cases: &[Case], o: &RunOpt) -> usize {
    let srcs: Vec<String> = cases.iter().map(|c| c.src.clone()).collect();
    let b = compile_batches(pool, &srcs, &BatchOpt { stdlib: o.stdlib, opt: o.opt.clone(), size: o.batch });
    let mut keep = vec![];
    let mut units = vec![];
    let mut rej = 0;
    for (i, c) in cases.iter().enumerate() {
        if let UnitRes::Rejected(_) = &b.units[i] {
            rej += 1;
        } else {
            keep.push(c.clone());
            units.push(i);
        }
    }
    check_compiled_idx(ctx, pool, &keep, &units, o, &b);
    rej
}

pub fn check_compiled(ctx: &Ctx, pool: &Pool, cases: &[Case], o: &RunOpt, b: &Batches) {
    let idx: Vec<usize> = (0..cases.len()).collect();
    check_compiled_idx(ctx, pool, cases, &idx, o, b)
}

/// A verdict about a case is believed only once it reproduces with the case compiled alone.
fn confirm_alone(pool: &Pool, c: &Case, o: &RunOpt) -> Result<(), (String, Option<Mismatch>)> {
    let job = Job {
        sources: vec![("u0,u0,u0.spade".into(), c.src.clone())],
        stdlib: o.stdlib,
        opt: o.opt.clone(),
        ..Default::default()
    };
    let out = pool.compile(&job);
    if !out.ok() {
        return Err((format!("program that must compile does not: {}", out.summary()), None));
    }
    let f = match crate::vlog::parse(out.verilog.as_deref().unwrap_or("")) {
        Ok(f) => f,
        Err(e) => return Err((format!("emitted Verilog does not parse: {e}"), None)),
    };
    let mut s = vec![];
    match run_on(&f, "u0", c, &mut s) {
        Ok(_) => Ok(()),
        Err(m) => Err((m.what.clone(), Some(m))),
    }
}

pub fn run_on(f: &crate::vlog::File, ns: &str, c: &Case, samples: &mut Vec<J>) -> Result<RunStats, Mismatch> {
    let bad = |e: String| Mismatch { what: format!("emitted Verilog cannot be elaborated: {e}"), steps: vec![], expect: vec![] };
    match lookup_top::<u128>(f, ns, &c.top) {
        Ok(d) => run_case(&d, c, samples),
        Err(e) if e == "WIDE" => match lookup_top::<BigUint>(f, ns, &c.top) {
            Ok(d) => run_case(&d, c, samples),
            Err(e) => Err(bad(e)),
        },
        Err(e) => Err(bad(e)),
    }
}

pub fn check_compiled_idx(ctx: &Ctx, pool: &Pool, cases: &[Case], units: &[usize], o: &RunOpt, b: &Batches) {
    let res: Vec<Option<(RunStats, Vec<J>)>> = par_map(cases, |k, c| {
        let u = units[k];
        let report = |what: String, m: Option<Mismatch>| {
            if ctx.n_violations() >= 60 {
                ctx.violation(&c.key, &what, replay_json(c, o.stdlib, &o.opt, m.as_ref()));
                return;
            }
            match confirm_alone(pool, c, o) {
                Ok(()) => {
                    // fails next to other units but not alone: report it as such, with the whole batch
                    ctx.violation(
                        &c.key,
                        &format!("(only when compiled together with other units) {what}"),
                        replay_json(c, o.stdlib, &o.opt, m.as_ref()),
                    )
                }
                Err((w, mm)) => ctx.violation(&c.key, &w, replay_json(c, o.stdlib, &o.opt, mm.as_ref())),
            }
        };
        match &b.units[u] {
            UnitRes::Rejected(ds) => {
                let d = ds.first().map(|d| format!("{}: {}", d.level, d.msg)).unwrap_or_default();
                report(format!("program that must compile was rejected: {d}"), None);
                None
            }
            UnitRes::Crash(m) => {
                report(format!("compiler crashed: {m}"), None);
                None
            }
            UnitRes::Ok { batch } => {
                if let Some((_, e)) = b.parse_errors.iter().find(|p| p.0 == *batch) {
                    // find out whether this unit is the culprit
                    match confirm_alone(pool, c, o) {
                        Ok(()) => {}
                        Err((w, mm)) => ctx.violation(
                            &c.key,
                            &format!("{w} [batch: {e}]"),
                            replay_json(c, o.stdlib, &o.opt, mm.as_ref()),
                        ),
                    }
                    return None;
                }
                let mut s = vec![];
                match run_on(&b.verilog[*batch], &format!("u{u}"), c, &mut s) {
                    Ok(st) => Some((st, s)),
                    Err(m) => {
                        report(m.what.clone(), Some(m));
                        None
                    }
                }
            }
        }
    });
    ctx.programs(cases.len() as u64);
    for (k, r) in res.into_iter().enumerate() {
        if let Some((st, s)) = r {
            ctx.evals(st.evals);
            // a combinational unit is a machine with one state and one transition per input
            ctx.states(st.states.max(1), st.transitions.max(st.evals), 0);
            if st.outcomes.len() > 1 {
                ctx.distinct(hash64(&cases[k].src));
            }
            for x in st.outcomes {
                ctx.outcome(x ^ hash64(&cases[k].src));
            }
            if let Some(c) = st.capped {
                ctx.cap(c);
            }
            let tag = cases[k].key.split([' ', ':', '/']).next().unwrap_or("").to_string();
            for j in s {
                ctx.sample(&tag, || j);
            }
        }
    }
}

pub fn big(v: &BigUint) -> u128 {
    v.to_u128().unwrap_or(u128::MAX)
}

/// A program whose verdict (accepted / rejected) is decided by a model; if accepted, it may also
/// carry a behaviour to check.
#[derive(Clone)]
pub struct VCase {
    pub key: String,
    pub src: String,
    pub accept: bool,
    pub case: Option<Case>,
}

impl VCase {
    pub fn reject(key: impl Into<String>, src: impl Into<String>) -> VCase {
        VCase { key: key.into(), src: src.into(), accept: false, case: None }
    }
    pub fn accept(key: impl Into<String>, src: impl Into<String>) -> VCase {
        VCase { key: key.into(), src: src.into(), accept: true, case: None }
    }
    pub fn case(c: Case) -> VCase {
        VCase { key: c.key.clone(), src: c.src.clone(), accept: true, case: Some(c) }
    }
    pub fn verdict(key: impl Into<String>, src: impl Into<String>, accept: bool) -> VCase {
        VCase { key: key.into(), src: src.into(), accept, case: None }
    }
}

/// Compare the compiler's verdict with the model's for every program; simulate accepted ones that
/// carry a behaviour.
pub fn run_verdicts(ctx: &Ctx, pool: &Pool, cases: &[VCase], o: &RunOpt) {
    let srcs: Vec<String> = cases.iter().map(|c| c.src.clone()).collect();
    let b = compile_batches(pool, &srcs, &BatchOpt { stdlib: o.stdlib, opt: o.opt.clone(), size: o.batch });
    let alone = |c: &VCase| {
        pool.compile(&Job {
            sources: vec![("u0,u0,u0.spade".into(), c.src.clone())],
            stdlib: o.stdlib,
            opt: o.opt.clone(),
            ..Default::default()
        })
    };
    let rj = |c: &VCase| json!({"kind": "verdict", "source": c.src, "stdlib": o.stdlib, "opt": o.opt, "expected": if c.accept {"accepted"} else {"rejected"}});
    let mut sim_cases = vec![];
    let mut sim_units = vec![];
    let mut n_plain = 0;
    for (i, c) in cases.iter().enumerate() {
        match &b.units[i] {
            UnitRes::Ok { .. } if c.accept => {
                if let Some(k) = &c.case {
                    sim_cases.push(k.clone());
                    sim_units.push(i);
                } else {
                    n_plain += 1;
                    ctx.states(1, 1, 0);
                }
            }
            UnitRes::Rejected(_) if !c.accept => {
                n_plain += 1;
                ctx.rejected(1);
                ctx.states(1, 1, 0);
            }
            UnitRes::Crash(m) => ctx.violation(&c.key, &format!("compiler crashed: {m}"), rj(c)),
            _ => {
                if ctx.n_violations() >= 60 {
                    ctx.violation(&c.key, "verdict differs from the model's", rj(c));
                    continue;
                }
                let out = alone(c);
                let what = match (c.accept, out.ok()) {
                    (true, true) => "accepted alone, but rejected when compiled next to unrelated units".to_string(),
                    (false, false) => {
                        "rejected alone, but accepted when compiled next to unrelated units".to_string()
                    }
                    (true, false) => format!("a correct program was not accepted: {}", out.summary()),
                    (false, true) => "a program that must be rejected was accepted".to_string(),
                };
                ctx.violation(&c.key, &what, rj(c));
            }
        }
    }
    ctx.programs(n_plain);
    check_compiled_idx(ctx, pool, &sim_cases, &sim_units, o, &b);
}
