//! P09: memories return the last value written.
use super::types::*;
use crate::comp::*;
use crate::hw::*;
use crate::lang::*;
use crate::report::*;
use crate::seq::enc;
use std::sync::Arc;

#[derive(Clone)]
struct M {
    t: Ty,
    depth: usize,
    aw: u32,
    ports: usize,
    init: Option<Vec<Val>>,
}
impl M {
    fn init_state(&self) -> S {
        (0..self.depth)
            .flat_map(|k| match &self.init {
                Some(v) => enc(&self.t, &v[k]),
                None => [Some(0), Some(0)],
            })
            .collect()
    }
    fn write(&self, s: &S, ws: &[(u128, u128, u128)]) -> S {
        let mut s = s.clone();
        for (we, a, d) in ws {
            if *we == 1 && (*a as usize) < self.depth {
                let v = self.t.decode(*d).unwrap_or(Val::Undef);
                let e = enc(&self.t, &v);
                s[2 * *a as usize] = e[0];
                s[2 * *a as usize + 1] = e[1];
            }
        }
        s
    }
    fn read(&self, s: &S, a: u128) -> Exp {
        let a = a as usize;
        if a < self.depth { Exp::masked(s[2 * a].unwrap(), s[2 * a + 1].unwrap()) } else { Exp::any() }
    }
    fn decl(&self) -> String {
        format!("Memory<{}, {}>", self.t.show(), self.depth)
    }
    fn defs(&self) -> String {
        let mut d = vec![];
        self.t.defs(&mut d);
        format!("use std::mem::{{clocked_memory, clocked_memory_init, read_memory}};\n{}\n", d.join("\n"))
    }
    fn inst(&self, ws: &str) -> String {
        match &self.init {
            None => format!("inst clocked_memory(clk, {ws})"),
            Some(v) => format!(
                "inst clocked_memory_init(clk, {ws}, [{}])",
                v.iter().map(|v| self.t.lit(v)).collect::<Vec<_>>().join(", ")
            ),
        }
    }
    /// inputs of the write ports, `we0, a0, d0, ...`
    fn ins(&self) -> Vec<(String, u32)> {
        (0..self.ports).flat_map(|k| [(format!("we{k}"), 1), (format!("a{k}"), self.aw), (format!("d{k}"), self.t.width())]).collect()
    }
    fn params(&self) -> String {
        (0..self.ports).map(|k| format!(", we{k}: bool, a{k}: uint<{}>, d{k}: {}", self.aw, self.t.show())).collect()
    }
    fn ports(&self) -> String {
        format!("[{}]", (0..self.ports).map(|k| format!("(we{k}, a{k}, d{k})")).collect::<Vec<_>>().join(", "))
    }
    fn writes(&self, i: &[u128]) -> Vec<(u128, u128, u128)> {
        (0..self.ports).map(|k| (i[3 * k], i[3 * k + 1], i[3 * k + 2])).collect()
    }
    fn show(&self) -> String {
        format!("{}x{}/a{}/p{}{}", self.t.show(), self.depth, self.aw, self.ports, if self.init.is_some() { "/init" } else { "" })
    }
}

type Step = Arc<dyn Fn(&S, &[u128]) -> (Exp, S) + Send + Sync>;
fn case(key: String, m: &M, src: String, extra: &[(&str, u32)], out: u32, init: S, f: Step) -> Case {
    let ins: Vec<(String, u32)> = m.ins().into_iter().chain(extra.iter().map(|x| (x.0.to_string(), x.1))).collect();
    let r: Vec<(&str, u32)> = ins.iter().map(|x| (&x.0[..], x.1)).collect();
    let mut c = Case::seq(key, src, &r, out, init, move |s, i| f(s, i));
    c.max_states = 20_000;
    c
}

/// The programs of this check; also compiled with optimisation passes by P14.
pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut cases: Vec<Case> = vec![];
    let e3 = mk_enum("E3", &[("A", &[]), ("B", &[("x", Ty::Bool)]), ("C", &[("y", Ty::Bool)])]);
    let mut types = vec![
        Ty::Bool,
        Ty::U(1),
        Ty::U(2),
        Ty::I(2),
        Ty::opt(Ty::Bool),
        Ty::Tup(vec![Ty::Bool, Ty::U(1)]),
        ar(&Ty::Bool, 2),
        Ty::U(3),
        e3.clone(),
        mk_struct("Sm", &[("p", Ty::Bool), ("q", Ty::U(2))]),
        Ty::U(0),
        Ty::Tup(vec![]),
    ];
    if ctx.thorough() {
        types.extend([Ty::I(3), Ty::opt(Ty::U(2)), ar(&Ty::Bool, 3), st(&[Ty::Bool, Ty::Bool]), Ty::U(4)]);
    }
    let maxbits = ctx.pick(7, 9);
    let budget = ctx.pick(4_000_000u128, 60_000_000);
    let mut ms = vec![];
    for t in &types {
        for depth in 1..=ctx.pick(5usize, 8) {
            let need = clog2(depth.max(2)).max(if depth == 1 { 0 } else { 1 });
            let need = if depth == 1 { 0 } else { need };
            {
                let aw = need;
                for ports in 0..=ctx.pick(2usize, 3) {
                    let vs = t.values();
                    for init in [false, true] {
                        if !init && ports == 0 {
                            continue;
                        }
                        let w = t.width();
                        let ib = ports as u32 * (1 + aw + w) + aw;
                        let sb = w * depth as u32;
                        if sb > maxbits && w > 0 || (1u128 << ib) * 3u128.pow(sb.min(8)) > budget * 8 || (1u128 << (ib + sb)) > budget {
                            continue;
                        }
                        let iv = (0..depth).map(|k| vs[(k * 3 + 1) % vs.len()].clone()).collect();
                        ms.push(M { t: t.clone(), depth, aw, ports, init: if init { Some(iv) } else { None } });
                    }
                }
            }
        }
    }
    ctx.count("memory_shapes", ms.len() as u64);
    for m in &ms {
        let (ts, aw, w, d) = (m.t.show(), m.aw, m.t.width(), m.depth);
        let head = |extra: &str, out: &str| format!("{}entity top(clk: clock{}{extra}) -> {out}", m.defs(), m.params());
        let mm = m.clone();
        let np = 3 * m.ports;
        let plain: Step = Arc::new(move |s, i| (mm.read(s, i[np]), mm.write(s, &mm.writes(i))));
        let mut add = |form: &str, src: String, extra: &[(&str, u32)], out: u32, init: S, f: Step| {
            cases.push(case(format!("{form}/{}", m.show()), m, src, extra, out, init, f));
        };
        let ra = format!(", ra: uint<{aw}>");
        let ra_in: &[(&str, u32)] = &[("ra", aw)];
        let decl = format!("let m: {} = {};", m.decl(), m.inst(&m.ports()));
        add("async", format!("{} {{ {decl} inst read_memory(m, ra) }}", head(&ra, &ts)), ra_in, w, m.init_state(), plain.clone());
        if m.ports > 0 {
            // the ports as a variable, and as one array input
            add(
                "ports_var",
                format!("{} {{ let ws = {}; let m: {} = {}; let k = m; inst read_memory(k, ra) }}", head(&ra, &ts), m.ports(), m.decl(), m.inst("ws")),
                ra_in,
                w,
                m.init_state(),
                plain.clone(),
            );
        }
        // a clocked read: the value before the edge
        let mm = m.clone();
        let sync: Step = Arc::new(move |s, i| {
            let n = s.len();
            let mut s2 = mm.write(&s[..n - 2].to_vec(), &mm.writes(i));
            let r = mm.read(&s[..n - 2].to_vec(), i[np]);
            s2.push(Some(r.v));
            s2.push(Some(r.mask & ones(mm.t.width())));
            (Exp::masked(s[n - 2].unwrap(), s[n - 1].unwrap()), s2)
        });
        if m.ports <= 1 && d <= 3 && aw <= 2 {
            let mut init = m.init_state();
            init.extend([Some(0), Some(0)]);
            add("sync", format!("{} {{ {decl} reg(clk) r = inst read_memory(m, ra); r }}", head(&ra, &ts)), ra_in, w, init, sync);
        }
        // two read ports
        if m.ports == 1 && w > 0 && aw <= 1 {
            let mm = m.clone();
            let f: Step = Arc::new(move |s, i| {
                let (a, b) = (mm.read(s, i[np]), mm.read(s, i[np + 1]));
                let w = mm.t.width();
                (
                    Exp { v: (a.v & ones(w)) << w | (b.v & ones(w)), mask: (a.mask & ones(w)) << w | (b.mask & ones(w)) },
                    mm.write(s, &mm.writes(i)),
                )
            });
            add(
                "two_reads",
                format!(
                    "{} {{ {decl} (inst read_memory(m, ra), inst read_memory$(addr: rb, mem: m)) }}",
                    head(&format!("{ra}, rb: uint<{aw}>"), &format!("({ts}, {ts})"))
                ),
                &[("ra", aw), ("rb", aw)],
                2 * w,
                m.init_state(),
                f,
            );
        }
        // read-modify-write at the read address, and two memories side by side
        if m.ports == 1 && w > 0 {
            let mm = m.clone();
            let f: Step = Arc::new(move |s, i| {
                // the second memory (in the second half) copies what is read from the first
                let n = s.len() / 2;
                let (x, y) = (s[..n].to_vec(), s[n..].to_vec());
                let r = mm.read(&x, i[np]);
                let mut s2 = mm.write(&x, &mm.writes(i));
                let mut y2 = y.clone();
                let a = i[1] as usize;
                if a < mm.depth {
                    y2[2 * a] = Some(r.v & ones(mm.t.width()));
                    y2[2 * a + 1] = Some(r.mask & ones(mm.t.width()));
                }
                s2.extend(y2);
                (mm.read(&y, i[np]), s2)
            });
            let mut init = m.init_state();
            init.extend(m.init_state());
            if w * d as u32 * 2 <= 6 && d > 1 {
                add(
                    "pair",
                    format!(
                        "{} {{ {decl} let x = inst read_memory(m, ra); let o: {} = {}; inst read_memory(o, ra) }}",
                        head(&ra, &ts),
                        m.decl(),
                        m.inst("[(true, a0, x)]")
                    ),
                    ra_in,
                    w,
                    init.clone(),
                    f.clone(),
                );
                // as instances of one entity
                add(
                    "pair_inst",
                    format!(
                        "{}entity cell(clk: clock, we: bool, a: uint<{aw}>, d: {ts}, ra: uint<{aw}>) -> {ts} {{ let m: {} = {}; inst read_memory(m, ra) }}\n\
                         entity top(clk: clock{}{ra}) -> {ts} {{ let x = inst cell(clk, we0, a0, d0, ra); inst cell(clk, true, a0, x, ra) }}",
                        m.defs(),
                        m.decl(),
                        m.inst("[(we, a, d)]"),
                        m.params(),
                    ),
                    ra_in,
                    w,
                    init,
                    f,
                );
            }
            // generic wrapper
            if m.init.is_none() {
                add(
                    "generic",
                    format!(
                        "{}entity cell<#uint N, #uint A, T>(clk: clock, we: bool, a: uint<A>, d: T, ra: uint<A>) -> T {{ let m: Memory<T, N> = inst clocked_memory(clk, [(we, a, d)]); inst read_memory(m, ra) }}\n\
                         entity top(clk: clock{}{ra}) -> {ts} {{ inst cell::<{d}, {aw}, {ts}>(clk, we0, a0, d0, ra) }}",
                        m.defs(),
                        m.params(),
                    ),
                    ra_in,
                    w,
                    m.init_state(),
                    plain.clone(),
                );
            }
        }
    }
    // all write ports in one array input: the last listed port wins
    for (t, d, p) in [(Ty::Bool, 2, 2), (Ty::Bool, 3, 2), (Ty::U(2), 2, 2), (Ty::Bool, 2, 3), (Ty::opt(Ty::Bool), 2, 2), (Ty::Bool, 4, 2)] {
        let m = M { t: t.clone(), depth: d, aw: clog2(d).max(1), ports: p, init: None };
        let (aw, w) = (m.aw, t.width());
        let mm = m.clone();
        let pw = 1 + aw + w;
        let src = format!(
            "{}entity top(clk: clock, ws: [(bool, uint<{aw}>, {}); {p}], ra: uint<{aw}>) -> {} {{ let m: {} = {}; inst read_memory(m, ra) }}",
            m.defs(),
            t.show(),
            t.show(),
            m.decl(),
            m.inst("ws")
        );
        let c = Case::seq(format!("array_in/{}", m.show()), src, &[("ws", pw * p as u32), ("ra", aw)], w, m.init_state(), move |s, i| {
            let ws: Vec<_> = (0..p)
                .map(|k| {
                    let b = i[0] >> (pw * k as u32) & ones(pw);
                    (b >> (aw + w), b >> w & ones(aw), b & ones(w))
                })
                .collect();
            (mm.read(s, i[1]), mm.write(s, &ws))
        });
        cases.push(c);
    }
    // deep and wide memories: bounded histories over corner values
    for (t, d, aw) in [(Ty::U(8), 16, 4), (Ty::I(33), 5, 3), (Ty::U(64), 3, 2), (Ty::Bool, 300, 9), (Ty::U(1), 256, 8), (Ty::Tup(vec![Ty::U(7), Ty::opt(Ty::U(9))]), 6, 3)] {
        for ports in 1..=2 {
            for init in [false, true] {
                let w = t.width();
                let iv = (0..d).map(|k| t.decode((k as u128 * 5 + 3) & ones(w)).unwrap()).collect();
                let m = M { t: t.clone(), depth: d, aw, ports, init: if init { Some(iv) } else { None } };
                let mm = m.clone();
                let np = 3 * ports;
                let src = format!(
                    "{}entity top(clk: clock{}, ra: uint<{aw}>) -> {} {{ let m: {} = {}; inst read_memory(m, ra) }}",
                    m.defs(),
                    m.params(),
                    t.show(),
                    m.decl(),
                    m.inst(&m.ports())
                );
                let mut c = case(
                    format!("big/{}", m.show()),
                    &m,
                    src,
                    &[("ra", aw)],
                    w,
                    m.init_state(),
                    Arc::new(move |s, i| (mm.read(s, i[np]), mm.write(s, &mm.writes(i)))),
                );
                let top = if matches!(t, Ty::Tup(_)) { 0b1010101_1_101010101u128 } else { ones(w) ^ 2 & ones(w) };
                let addrs = vec![0, 1, d as u128 - 1];
                let mut sets = vec![];
                for _ in 0..ports {
                    sets.extend([vec![0, 1], addrs.clone(), vec![top, 1]]);
                }
                sets.push(vec![0, 1, d as u128 / 2, d as u128 - 1]);
                c.stim = Stim::Sets(sets);
                c.max_depth = if ports == 1 { 3 } else { 2 };
                cases.push(c);
            }
        }
    }
    // memories handed on as values
    for (name, src) in [
        ("argument", "entity rd(m: Memory<bool, 2>, a: uint<1>) -> bool { inst read_memory(m, a) }\nentity top(clk: clock, we0: bool, a0: uint<1>, d0: bool, ra: uint<1>) -> bool { let m: Memory<bool, 2> = inst clocked_memory(clk, [(we0, a0, d0)]); inst rd(m, ra) }"),
        ("result", "entity mk(clk: clock, we: bool, a: uint<1>, d: bool) -> Memory<bool, 2> { inst clocked_memory(clk, [(we, a, d)]) }\nentity top(clk: clock, we0: bool, a0: uint<1>, d0: bool, ra: uint<1>) -> bool { let m: Memory<bool, 2> = inst mk(clk, we0, a0, d0); inst read_memory(m, ra) }"),
        ("tuple", "entity top(clk: clock, we0: bool, a0: uint<1>, d0: bool, ra: uint<1>) -> bool { let m: Memory<bool, 2> = inst clocked_memory(clk, [(we0, a0, d0)]); let (k, x) = (m, true); inst read_memory(k, ra) }"),
        ("if", "entity top(clk: clock, we0: bool, a0: uint<1>, d0: bool, ra: uint<1>) -> bool { let m: Memory<bool, 2> = inst clocked_memory(clk, [(we0, a0, d0)]); let k = if we0 { m } else { m }; inst read_memory(k, ra) }"),
        ("block", "entity top(clk: clock, we0: bool, a0: uint<1>, d0: bool, ra: uint<1>) -> bool { let m: Memory<bool, 2> = { let ws = [(we0, a0, d0)]; inst clocked_memory(clk, ws) }; let k = { m }; inst read_memory(k, ra) }"),
    ] {
        let m = M { t: Ty::Bool, depth: 2, aw: 1, ports: 1, init: None };
        let mm = m.clone();
        cases.push(case(
            format!("value/{name}"),
            &m,
            format!("use std::mem::{{clocked_memory, read_memory}};\n{src}"),
            &[("ra", 1)],
            1,
            m.init_state(),
            Arc::new(move |s, i| (mm.read(s, i[3]), mm.write(s, &mm.writes(i)))),
        ));
    }
    cases
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let cases = cases(&ctx);
    eprintln!("[p09] {} programs", cases.len());
    run_cases(&ctx, &pool, &cases, &RunOpt { batch: 40, ..RunOpt::std() });
    ctx.finish(
        "model_checking",
        "clocked memories of a dozen element types, depths one to five (incl. non powers of two), address width as inferred, \
         zero to two write ports, with and without initial content; read asynchronously, through a register, at two addresses, \
         in pairs, in generic wrappers; explored breadth first over all inputs until no new state appears.",
        &["the Verilog subset is executed by this framework's own four-state simulator",
          "reads beyond the depth of a memory are unconstrained; writes there have no effect",
          "deep and wide memories are explored to depth two or three over corner values"],
        true,
    )
}
