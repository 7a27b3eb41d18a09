//! P22: the sequential units of the standard library keep their protocols.
//!
//! Explicit-state exploration of the emitted hardware together with an environment and a monitor: in
//! every state every set of clocks may tick and the environment may offer every input it is allowed
//! to. Where two clocks tick at once, a register of one domain that is fed from the other may take
//! the old or the new value of every bit which changes (a torn sample).
use crate::comp::*;
use crate::hw::lookup_top;
use crate::report::*;
use crate::sim::*;
use crate::word::Word;
use serde_json::json;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;

/// The value of the output: bits known to be 0 or 1
#[derive(Clone, Copy, Debug)]
struct Out {
    v: u128,
    x: u128,
}
impl Out {
    fn bits(&self, off: u32, w: u32) -> Option<u128> {
        let m = u128::ones(w);
        ((self.x >> off) & m == 0).then_some((self.v >> off) & m)
    }
    fn bit(&self, off: u32) -> Option<bool> {
        self.bits(off, 1).map(|b| b == 1)
    }
    /// An Option<uint<w>> whose payload starts at off: Err for undefined bits
    fn option(&self, off: u32, w: u32) -> Result<Option<u128>, String> {
        match self.bit(off + w) {
            None => Err("it is undefined whether the output is Some or None".into()),
            Some(false) => Ok(None),
            Some(true) => self.bits(off, w).map(Some).ok_or("the value inside Some is undefined".into()),
        }
    }
}
type Ins = Vec<(&'static str, u128)>;
type Check<M> = Box<dyn Fn(&M, usize, &Ins, Out, Out) -> Result<M, String> + Send + Sync>;

struct Sys<M> {
    key: String,
    src: String,
    clocks: Vec<&'static str>,
    resets: Vec<&'static str>,
    /// inputs while in reset
    idle: Ins,
    init: M,
    /// what the environment may apply at the next edges of the given set of clocks
    moves: Box<dyn Fn(&M, usize, Out) -> Vec<Ins> + Send + Sync>,
    /// what the monitor makes of it: (state, clocks that ticked, inputs, output before, after)
    edge: Check<M>,
    torn: bool,
    max: usize,
}

struct Explored {
    states: u64,
    transitions: u64,
    torn: u64,
    capped: bool,
    bad: Option<(String, Vec<String>)>,
}

type Key = (Vec<crate::word::V4<u128>>, Vec<Vec<crate::word::V4<u128>>>);

/// Registers and memories with everything that is known of them
struct Run<'d> {
    sim: Sim<'d, u128>,
    clocks: Vec<String>,
}
impl<'d> Run<'d> {
    fn out(&self) -> Out {
        if !self.sim.has_port("output__") {
            return Out { v: 0, x: 0 };
        }
        let o = self.sim.get("output__");
        Out { v: o.v, x: o.x }
    }
    fn prepare(&mut self, k: &Key, ins: &Ins) {
        self.sim.load_state(k);
        for c in &self.clocks {
            self.sim.set_u(c, 0);
        }
        for (n, v) in ins {
            self.sim.set_u(&format!("{n}_i"), *v);
        }
        self.sim.resync();
    }
    fn tick(&mut self, clocks: usize) {
        for (i, c) in self.clocks.iter().enumerate() {
            if clocks >> i & 1 == 1 {
                self.sim.set_u(c, 1);
            }
        }
        self.sim.step();
    }
    fn key(&self) -> Key {
        self.sim.state_key()
    }
}

/// All states which differ from `a` in bits where `b` or `c` differs from it
fn torn(a: &Key, others: &[Key]) -> Vec<Key> {
    let mut res = vec![a.clone()];
    let mut bits = 0;
    for b in others {
        for i in 0..a.0.len() {
            let (p, q) = (&a.0[i], &b.0[i]);
            let d = (p.v ^ q.v) | (p.x ^ q.x);
            for k in 0..128 {
                if d >> k & 1 == 0 {
                    continue;
                }
                bits += 1;
                if bits > 7 {
                    // too many for all combinations: the whole sample instead
                    let mut n = res[0].clone();
                    n.0[i] = q.clone();
                    res.push(n);
                    break;
                }
                let m = 1u128 << k;
                let flipped: Vec<Key> = res
                    .iter()
                    .map(|r| {
                        let mut n = r.clone();
                        n.0[i].v = (n.0[i].v & !m) | (q.v & m);
                        n.0[i].x = (n.0[i].x & !m) | (q.x & m);
                        n
                    })
                    .collect();
                res.extend(flipped);
            }
        }
    }
    res
}

fn explore<M: Clone + Eq + Hash + Debug>(d: &Design<u128>, s: &Sys<M>) -> Explored {
    let mut r = Run { sim: Sim::new(d), clocks: s.clocks.iter().map(|c| format!("{c}_i")).collect() };
    let all = (1usize << s.clocks.len()) - 1;
    let mut ex = Explored { states: 0, transitions: 0, torn: 0, capped: false, bad: None };
    // the reset: some edges of every clock
    let mut k = r.key();
    for (on, n) in [(1, 6), (0, 0)] {
        let mut ins = s.idle.clone();
        for x in &s.resets {
            ins.push((x, on));
        }
        for _ in 0..n {
            for c in 0..s.clocks.len() {
                r.prepare(&k, &ins);
                r.tick(1 << c);
                k = r.key();
            }
        }
        r.prepare(&k, &ins);
    }
    let mut seen: HashMap<(Key, M), u32> = HashMap::new();
    let mut nodes: Vec<(u32, String)> = vec![(0, String::new())];
    let mut todo = std::collections::VecDeque::new();
    seen.insert((k.clone(), s.init.clone()), 0);
    todo.push_back((k, s.init.clone(), 0u32));
    while let Some((k, m, id)) = todo.pop_front() {
        ex.states += 1;
        for e in 1..=all {
            r.prepare(&k, &s.idle);
            let idle_out = r.out();
            for ins in (s.moves)(&m, e, idle_out) {
                let full: Ins = s.idle.iter().filter(|(n, _)| !ins.iter().any(|(m, _)| m == n)).chain(ins.iter()).cloned().collect();
                r.prepare(&k, &full);
                let before = r.out();
                r.tick(e);
                let one = r.key();
                let mut next = vec![one.clone()];
                if s.torn && e == all && s.clocks.len() == 2 {
                    let mut others = vec![];
                    for first in [1usize, 2] {
                        r.prepare(&k, &full);
                        r.tick(first);
                        r.tick(3 & !first);
                        others.push(r.key());
                    }
                    next = torn(&one, &others);
                    ex.torn += next.len() as u64 - 1;
                }
                for n in next {
                    ex.transitions += 1;
                    r.prepare(&n, &s.idle);
                    let after = r.out();
                    let step = || {
                        let c: Vec<&str> = (0..s.clocks.len()).filter(|i| e >> i & 1 == 1).map(|i| s.clocks[i]).collect();
                        let v: Vec<String> = ins.iter().map(|(n, v)| format!("{n}={v}")).collect();
                        format!("tick {} with {}{}", c.join("+"), v.join(" "), if n != one { " (torn)" } else { "" })
                    };
                    match (s.edge)(&m, e, &full, before, after) {
                        Err(what) => {
                            let mut path = vec![step()];
                            let mut at = id;
                            while at != 0 {
                                path.push(nodes[at as usize].1.clone());
                                at = nodes[at as usize].0;
                            }
                            path.reverse();
                            ex.bad = Some((what, path));
                            return ex;
                        }
                        Ok(m2) => {
                            let key = (n.clone(), m2.clone());
                            if !seen.contains_key(&key) {
                                if seen.len() >= s.max {
                                    ex.capped = true;
                                    continue;
                                }
                                let nid = nodes.len() as u32;
                                nodes.push((id, step()));
                                seen.insert(key, nid);
                                todo.push_back((n, m2, nid));
                            }
                        }
                    }
                }
            }
        }
    }
    ex
}

// ------------------------------------------------------------------ helpers for monitors

/// Counts rounds in which every clock ticked, since something happened
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Quiet {
    rounds: u8,
    ticked: u8,
}
impl Quiet {
    fn tick(&mut self, e: usize, all: usize, happened: bool, max: u8) {
        if happened {
            *self = Quiet::default();
            return;
        }
        self.ticked |= e as u8;
        if self.ticked as usize == all {
            self.ticked = 0;
            if self.rounds < max {
                self.rounds += 1;
            }
        }
    }
}
fn get(ins: &Ins, n: &str) -> u128 {
    ins.iter().find(|(m, _)| *m == n).unwrap().1
}

// ------------------------------------------------------------------ fifo

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Fifo {
    q: Vec<u8>,
    quiet: Quiet,
}
fn fifo(aw: u32, n: usize, dw: u32, same_clock: bool, max: usize) -> Sys<Fifo> {
    let t = format!("uint<{dw}>");
    let clocks = if same_clock { vec!["wclk"] } else { vec!["wclk", "rclk"] };
    let (cl, rc) = if same_clock { ("wclk: clock", "wclk") } else { ("wclk: clock, rclk: clock", "rclk") };
    // wclk is bit 0; with one clock both sides act on it
    let (wbit, rbit, all) = if same_clock { (1, 1, 1) } else { (1, 2, 3) };
    let some = 1u128 << dw;
    Sys {
        key: format!("fifo/{aw}/{n}/{dw}/{}", if same_clock { "one clock" } else { "two clocks" }),
        src: format!(
            "use std::mem::{{fifo, FifoWrite, FifoRead}};\nentity top({cl}, rst: bool, wr: Option<{t}>, ack: bool) -> (bool, Option<{t}>, uint<{aw}>) {{\n    let (w, r) = inst fifo::<{aw}, {t}, {n}>$(write_clk: wclk, write_rst: rst, read_clk: {rc}, read_rst: rst);\n    set w.write = wr;\n    set r.ack = ack;\n    (w.full, r.read, r.num_elements)\n}}\n"
        ),
        clocks,
        resets: vec!["rst"],
        idle: vec![("wr", 0), ("ack", 0)],
        init: Fifo::default(),
        moves: Box::new(move |_, e, _| {
            let mut v = vec![];
            let ws: Vec<u128> = if e & wbit != 0 { std::iter::once(0).chain((0..some).map(|d| some | d)).collect() } else { vec![0] };
            let rs: Vec<u128> = if e & rbit != 0 { vec![0, 1] } else { vec![0] };
            for w in &ws {
                for r in &rs {
                    v.push(vec![("wr", *w), ("ack", *r)]);
                }
            }
            v
        }),
        edge: Box::new(move |m, e, ins, before, after| {
            let mut m = m.clone();
            let see = |o: Out| -> Result<(bool, Option<u128>, u128), String> {
                let full = o.bit(aw + dw + 1).ok_or("full is undefined")?;
                let read = o.option(aw, dw)?;
                let num = o.bits(0, aw).ok_or("num_elements is undefined")?;
                Ok((full, read, num))
            };
            let (full, read, _) = see(before)?;
            let mut happened = false;
            // what is read was in the fifo before this edge
            let had = m.q.first().copied();
            if e & rbit != 0 && get(ins, "ack") == 1 {
                if let Some(v) = read {
                    happened = true;
                    match had {
                        None => return Err(format!("{v} is read from an empty fifo")),
                        Some(h) if h as u128 != v => return Err(format!("{v} is read instead of {h}")),
                        _ => {
                            m.q.remove(0);
                        }
                    }
                }
            }
            if e & wbit != 0 {
                let w = get(ins, "wr");
                if w & some != 0 && !full {
                    happened = true;
                    m.q.push((w & (some - 1)) as u8);
                    if m.q.len() > n {
                        return Err("more elements were accepted than there is room for".into());
                    }
                }
            }
            m.quiet.tick(e, all, happened, 5);
            let (full, read, num) = see(after)?;
            match (read, m.q.first()) {
                (Some(v), None) => return Err(format!("{v} is offered by an empty fifo")),
                (Some(v), Some(h)) if v != *h as u128 => return Err(format!("{v} is offered where {h} is next")),
                _ => {}
            }
            if num > m.q.len() as u128 {
                return Err(format!("num_elements is {num} with {} elements", m.q.len()));
            }
            if m.quiet.rounds >= 5 {
                if read.is_none() && !m.q.is_empty() {
                    return Err(format!("nothing is offered though {} elements were written", m.q.len()));
                }
                if full && m.q.len() + 1 < n {
                    return Err(format!("full with {} of {n} elements", m.q.len()));
                }
                if num != m.q.len() as u128 {
                    return Err(format!("num_elements stays {num} with {} elements", m.q.len()));
                }
            }
            Ok(m)
        }),
        torn: !same_clock,
        max,
    }
}

// ------------------------------------------------------------------ dual port memory

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Bram {
    mem: Vec<Option<u8>>,
}
fn bram(aw: u32, dw: u32, n: usize, style: usize, max: usize) -> Sys<Bram> {
    let t = format!("uint<{dw}>");
    let (wr, rd) = match style {
        0 => ("set w.addr = wa; set w.write = wd;".to_string(), "set r.addr = ra; r.out".to_string()),
        1 => ("let _ = w.write(wa, wd);".to_string(), "inst pipe(rclk, ra, r)".to_string()),
        _ => ("set w.write = wd; set w.addr = wa;".to_string(), "inst old(rclk, ra, r)".to_string()),
    };
    let some = 1u128 << dw;
    Sys {
        key: format!("dp_bram/{aw}/{dw}/{n}/{style}"),
        src: format!(
            "use std::mem::{{dp_bram, WritePort, ReadPort, read_read_port}};\npipeline(1) pp(c: clock, a: uint<{aw}>, wire p: ReadPort<{aw}, {t}>) -> {t} {{ let r = p.inst(1) read(c, a); reg; r }}\nentity pipe(c: clock, a: uint<{aw}>, p: ReadPort<{aw}, {t}>) -> {t} {{ inst(1) pp(c, a, p) }}\nentity old(c: clock, a: uint<{aw}>, p: ReadPort<{aw}, {t}>) -> {t} {{ inst(1) read_read_port(c, a, p) }}\nentity top(wclk: clock, rclk: clock, wa: uint<{aw}>, wd: Option<{t}>, ra: uint<{aw}>) -> {t} {{\n    let (w, r) = inst dp_bram::<{aw}, {t}, {n}>$(write_clk: wclk, read_clk: rclk);\n    {wr}\n    {rd}\n}}\n"
        ),
        clocks: vec!["wclk", "rclk"],
        resets: vec![],
        idle: vec![("wa", 0), ("wd", 0), ("ra", 0)],
        init: Bram { mem: vec![None; n] },
        moves: Box::new(move |_, e, _| {
            let mut v = vec![];
            let ws: Vec<(u128, u128)> =
                if e & 1 != 0 { std::iter::once((0, 0)).chain((0..n as u128).flat_map(|a| (0..some).map(move |d| (a, some | d)))).collect() } else { vec![(0, 0)] };
            let rs: Vec<u128> = if e & 2 != 0 { (0..n as u128).collect() } else { vec![0] };
            for (a, d) in &ws {
                for r in &rs {
                    v.push(vec![("wa", *a), ("wd", *d), ("ra", *r)]);
                }
            }
            v
        }),
        edge: Box::new(move |m, e, ins, before, after| {
            let old = m;
            let mut m = m.clone();
            let (wa, wd, ra) = (get(ins, "wa") as usize, get(ins, "wd"), get(ins, "ra") as usize);
            let writes = e & 1 != 0 && wd & some != 0;
            if writes {
                m.mem[wa] = Some((wd & (some - 1)) as u8);
            }
            if e & 2 != 0 {
                let clash = writes && wa == ra;
                if let (Some(v), false) = (old.mem[ra], clash) {
                    if after.bits(0, dw) != Some(v as u128) {
                        return Err(format!("address {ra} reads {:?} instead of {v}", after.bits(0, dw)));
                    }
                }
            } else if before.x == 0 && (after.v != before.v || after.x != before.x) {
                return Err("what was read changes without a tick of the read clock".into());
            }
            Ok(m)
        }),
        torn: false,
        max,
    }
}

// ------------------------------------------------------------------ synchronisers

/// The values an input had, in order, from the one the output shows on
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Track {
    /// the values since the one that is shown
    list: Vec<u8>,
    changes: u8,
    quiet: Quiet,
    shown: bool,
    /// samples at the last ticks (sync2)
    last: Vec<u8>,
}
impl Track {
    /// The output shows `v`: it has to be one of the values since the one it showed before
    fn show(&mut self, v: u128) -> Result<(), String> {
        match self.list.iter().position(|x| *x as u128 == v) {
            Some(i) => {
                self.list.drain(..i);
                self.shown = true;
                Ok(())
            }
            None => Err(format!("the output is {v}, and the values not yet passed are {:?}", self.list)),
        }
    }
}

fn sync2(w: u32, unsafe_form: usize, max: usize) -> Sys<Track> {
    let t = if w == 1 { "bool".into() } else { format!("uint<{w}>") };
    let body = match unsafe_form {
        0 => "inst std::cdc::sync2_bool(clk, d)",
        _ => "unsafe { inst std::cdc::sync2(clk, d) }",
    };
    Sys {
        key: format!("sync2/{w}/{unsafe_form}"),
        src: format!("entity top(clk: clock, d: {t}) -> {t} {{ {body} }}\n"),
        clocks: vec!["clk"],
        resets: vec![],
        idle: vec![("d", 0)],
        init: Track { list: vec![0], ..Default::default() },
        moves: Box::new(move |_, _, _| (0..1u128 << w).map(|v| vec![("d", v)]).collect()),
        edge: Box::new(move |m, _, ins, _, after| {
            // `last` are the inputs at the ticks so far, the newest at the end
            let mut m = m.clone();
            let Some(v) = after.bits(0, w) else { return Err("the output is undefined".into()) };
            // two registers: the sample of this very tick is not shown yet
            let cands: Vec<u8> = m.last.clone();
            if !cands.is_empty() && !cands.contains(&(v as u8)) {
                return Err(format!("the output is {v} after the inputs {cands:?} and before that of the last tick can be seen"));
            }
            m.last.push(get(ins, "d") as u8);
            if m.last.len() > 3 {
                m.last.remove(0);
            }
            if m.last.len() == 3 && m.last.iter().all(|x| *x == m.last[0]) && v != m.last[0] as u128 {
                return Err(format!("the output is {v} though the input was {} for three ticks", m.last[0]));
            }
            Ok(m)
        }),
        torn: false,
        max,
    }
}

fn counter(n: u32, max: usize) -> Sys<Track> {
    let size = 1u8 << n;
    Sys {
        key: format!("sync_uint_counter/{n}"),
        src: format!("entity top(a: clock, b: clock, d: uint<{n}>) -> uint<{n}> {{ unsafe {{ inst std::cdc::sync_uint_counter$(source_clk: a, dest_clk: b, input: d) }} }}\n"),
        clocks: vec!["a", "b"],
        resets: vec![],
        idle: vec![("d", 0)],
        init: Track { list: vec![0], ..Default::default() },
        moves: Box::new(move |m, e, _| {
            let cur = *m.list.last().unwrap();
            if e & 1 == 0 {
                return vec![vec![("d", cur as u128)]];
            }
            let mut v = vec![vec![("d", cur as u128)]];
            if m.list.len() < 5 {
                v.push(vec![("d", ((cur + 1) % size) as u128)]);
                v.push(vec![("d", ((cur + size - 1) % size) as u128)]);
            }
            v
        }),
        edge: Box::new(move |m, e, ins, _, after| {
            let mut m = m.clone();
            let d = get(ins, "d") as u8;
            let mut happened = false;
            if e & 1 != 0 && d != *m.list.last().unwrap() {
                m.list.push(d);
                happened = true;
            }
            m.quiet.tick(e, 3, happened, 5);
            let Some(v) = after.bits(0, n) else { return Err("the output is undefined".into()) };
            m.show(v)?;
            if m.quiet.rounds >= 5 {
                let last = *m.list.last().unwrap();
                if v != last as u128 {
                    return Err(format!("the output stays {v} though the counter is {last}"));
                }
                m.list = vec![last];
            }
            Ok(m)
        }),
        torn: true,
        max,
    }
}

fn sync_wide(w: u32, changes: u8, init: u128, max: usize) -> Sys<Track> {
    Sys {
        key: format!("sync_wide/{w}/{changes}/{init}"),
        src: format!("entity top(a: clock, b: clock, rst: bool, d: uint<{w}>) -> uint<{w}> {{ inst std::cdc::sync_wide$(source_clk: a, rst, input: d, init: {init}, dest_clk: b) }}\n"),
        clocks: vec!["a", "b"],
        resets: vec!["rst"],
        idle: vec![("d", 0)],
        // the initial value, and then what the input was during reset
        init: Track { list: if init == 0 { vec![0] } else { vec![init as u8, 0] }, ..Default::default() },
        moves: Box::new(move |m, e, _| {
            let cur = *m.list.last().unwrap() as u128;
            if e & 1 == 0 || m.changes >= changes {
                return vec![vec![("d", cur)]];
            }
            (0..1u128 << w).map(|v| vec![("d", v)]).collect()
        }),
        edge: Box::new(move |m, e, ins, _, after| {
            let mut m = m.clone();
            let d = get(ins, "d") as u8;
            let mut happened = false;
            if e & 1 != 0 && d != *m.list.last().unwrap() {
                m.list.push(d);
                m.changes += 1;
                happened = true;
            }
            m.quiet.tick(e, 3, happened, 24);
            let Some(v) = after.bits(0, w) else { return Err("the output is undefined".into()) };
            m.show(v)?;
            if m.quiet.rounds >= 24 && v != *m.list.last().unwrap() as u128 {
                return Err(format!("the output stays {v} though the input is {:?}", m.list.last()));
            }
            Ok(m)
        }),
        torn: true,
        max,
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Shake {
    pending: Option<u8>,
    quiet: Quiet,
}
fn handshake(w: u32, max: usize) -> Sys<Shake> {
    const R: u8 = 16;
    let some = 1u128 << w;
    Sys {
        key: format!("handshake/{w}"),
        src: format!("entity top(a: clock, b: clock, rst: bool, d: Option<uint<{w}>>) -> Option<uint<{w}>> {{ unsafe {{ inst std::cdc::handshake(a, rst, d, b) }} }}\n"),
        clocks: vec!["a", "b"],
        resets: vec!["rst"],
        idle: vec![("d", 0)],
        init: Shake { pending: None, quiet: Quiet { rounds: R, ticked: 0 } },
        moves: Box::new(move |m, e, _| {
            let mut v = vec![vec![("d", 0)]];
            if e & 1 != 0 && m.quiet.rounds >= R {
                v.extend((0..some).map(|d| vec![("d", some | d)]));
            }
            v
        }),
        edge: Box::new(move |m, e, ins, before, _| {
            let mut m = m.clone();
            if e & 2 != 0 {
                // what the receiving domain sees at its tick
                if let Some(v) = before.option(0, w)? {
                    match m.pending {
                        None => return Err(format!("{v} is received though nothing is under way")),
                        Some(p) if p as u128 != v => return Err(format!("{v} is received instead of {p}")),
                        _ => m.pending = None,
                    }
                }
            }
            let d = get(ins, "d");
            let sends = e & 1 != 0 && d & some != 0;
            if sends {
                m.pending = Some((d & (some - 1)) as u8);
            }
            m.quiet.tick(e, 3, sends, R);
            if m.quiet.rounds >= R && m.pending.is_some() {
                return Err("what was sent is not received".into());
            }
            Ok(m)
        }),
        torn: true,
        max,
    }
}

fn edges(rising: bool) -> Sys<Option<bool>> {
    let name = if rising { "rising_edge" } else { "falling_edge" };
    Sys {
        key: name.into(),
        src: format!("entity top(clk: clock, d: bool) -> bool {{ inst std::io::{name}(clk, d) }}\n"),
        clocks: vec!["clk"],
        resets: vec![],
        idle: vec![("d", 0)],
        init: Some(false),
        moves: Box::new(|_, _, _| vec![vec![("d", 0)], vec![("d", 1)]]),
        edge: Box::new(move |m, _, ins, before, _| {
            let d = get(ins, "d") == 1;
            let want = if rising { d && !m.unwrap() } else { !d && m.unwrap() };
            if before.bit(0) != Some(want) {
                return Err(format!("the output is {:?} for {d} after {}", before.bit(0), m.unwrap()));
            }
            Ok(Some(d))
        }),
        torn: false,
        max: 1000,
    }
}

// ------------------------------------------------------------------ running

trait Any: Sync {
    fn key(&self) -> &str;
    fn src(&self) -> &str;
    fn run(&self, d: &Design<u128>) -> Explored;
}
impl<M: Clone + Eq + Hash + Debug + Sync> Any for Sys<M> {
    fn key(&self) -> &str {
        &self.key
    }
    fn src(&self) -> &str {
        &self.src
    }
    fn run(&self, d: &Design<u128>) -> Explored {
        explore(d, self)
    }
}

/// An inout wire is driven exactly while Some is given to it, and read otherwise
fn inouts() -> Vec<(String, String, u32, usize)> {
    let mut v = vec![];
    for (t, w) in [("bool", 1u32), ("uint<2>", 2), ("(bool, uint<2>)", 3), ("Option<bool>", 2)] {
        v.push((
            format!("inout/{t}"),
            format!("fn top(#[no_mangle] io: inout<{t}>, d: Option<{t}>) -> Option<{t}> {{ let (r, w) = io.read_write(); set w = d; r }}\n"),
            w,
            0,
        ));
    }
    for n in 1..4usize {
        v.push((
            format!("inout-items/{n}"),
            format!("fn top(#[no_mangle] io: inout<[bool; {n}]>, d: [Option<bool>; {n}]) -> [Option<bool>; {n}] {{\n    let ps = io.read_write_items();\n{}    [{}]\n}}\n",
                (0..n).map(|i| format!("    let (r{i}, w{i}) = ps[{i}];\n    set w{i} = d[{i}];\n")).collect::<String>(),
                (0..n).map(|i| format!("r{i}")).collect::<Vec<_>>().join(", ")),
            n as u32,
            n,
        ));
    }
    v
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::new();
    let th = ctx.thorough();
    let max = ctx.pick(150_000, 3_000_000);
    let mut v: Vec<Box<dyn Any>> = vec![];
    v.push(Box::new(fifo(2, 4, 1, true, max)));
    v.push(Box::new(fifo(2, 4, 1, false, max)));
    v.push(Box::new(fifo(1, 2, 1, false, max)));
    v.push(Box::new(fifo(1, 2, 2, false, max)));
    v.push(Box::new(fifo(1, 2, 2, true, max)));
    if th {
        v.push(Box::new(fifo(3, 8, 1, true, max)));
        v.push(Box::new(fifo(2, 4, 2, false, max)));
        v.push(Box::new(fifo(2, 4, 2, true, max)));
        v.push(Box::new(fifo(3, 8, 1, false, max)));
    }
    for style in 0..3 {
        v.push(Box::new(bram(1, 1, 2, style, max)));
        v.push(Box::new(bram(2, 1, 4, style, max)));
        v.push(Box::new(bram(1, 2, 2, style, max)));
    }
    v.push(Box::new(sync2(1, 0, max)));
    v.push(Box::new(sync2(1, 1, max)));
    v.push(Box::new(sync2(2, 1, max)));
    for n in 1..ctx.pick(4, 5) {
        v.push(Box::new(counter(n, max)));
    }
    v.push(Box::new(sync_wide(1, 4, 0, max)));
    v.push(Box::new(sync_wide(2, ctx.pick(2, 4), 0, max)));
    v.push(Box::new(sync_wide(2, 1, 3, max)));
    v.push(Box::new(sync_wide(3, ctx.pick(1, 2), 5, max)));
    v.push(Box::new(handshake(1, max)));
    v.push(Box::new(handshake(2, max)));
    v.push(Box::new(edges(true)));
    v.push(Box::new(edges(false)));
    let only = std::env::var("MC_ONLY").ok();
    if let Some(o) = &only {
        v.retain(|c| c.key().starts_with(o.as_str()));
    }
    let io = inouts();
    let srcs: Vec<String> = v.iter().map(|s| s.src().to_string()).chain(io.iter().map(|i| i.1.clone())).collect();
    for opt in [vec![], vec!["enum_clock_gating".to_string(), "split_compound_regs".to_string()]] {
        if !opt.is_empty() && only.is_some() {
            continue;
        }
        let b = compile_batches(&pool, &srcs, &BatchOpt { stdlib: true, opt: opt.clone(), size: 8 });
        ctx.programs(srcs.len() as u64);
        let fail = |key: &str, what: &str, src: &str, path: &[String]| {
            ctx.violation(&format!("{key}{}", if opt.is_empty() { "" } else { "/optimised" }), what, json!({"kind": "verdict", "expected": "accepted", "source": src, "stdlib": true, "opt": opt, "steps": path}));
        };
        let design = |i: usize, key: &str| -> Option<Design<u128>> {
            match &b.units[i] {
                UnitRes::Ok { batch } => match lookup_top::<u128>(&b.verilog[*batch], &format!("u{i}"), "top") {
                    Ok(d) => Some(d),
                    Err(e) => {
                        fail(key, &format!("the emitted Verilog cannot be elaborated: {e}"), &srcs[i], &[]);
                        None
                    }
                },
                UnitRes::Rejected(d) => {
                    fail(key, &format!("rejected: {}", d.first().map(|d| d.msg.clone()).unwrap_or_default()), &srcs[i], &[]);
                    None
                }
                UnitRes::Crash(m) => {
                    fail(key, &format!("the compiler crashed: {m}"), &srcs[i], &[]);
                    None
                }
            }
        };
        for e in &b.parse_errors {
            fail("verilog", &format!("the emitted Verilog cannot be parsed: {e:?}"), "", &[]);
        }
        let idx: Vec<usize> = (0..v.len()).collect();
        let big = |k: &str| !th && !opt.is_empty() && k.starts_with("fifo/2");
        let res = par_map(&idx, |_, i| if big(v[*i].key()) { None } else { design(*i, v[*i].key()).map(|d| v[*i].run(&d)) });
        for (s, r) in v.iter().zip(res) {
            let Some(r) = r else { continue };
            if std::env::var("MC_TIME").is_ok() {
                eprintln!("{}: {} states {} transitions {} torn", s.key(), r.states, r.transitions, r.torn);
            }
            ctx.states(r.states, r.transitions, r.states);
            ctx.evals(r.transitions);
            ctx.count("torn samples", r.torn);
            ctx.outcome(hash64(&(s.key(), r.states)));
            ctx.distinct(hash64(&(s.key(), r.transitions)));
            ctx.sample(s.key(), || json!({"states": r.states, "transitions": r.transitions, "torn": r.torn, "closed": !r.capped}));
            if r.capped {
                ctx.cap(format!("{}: {} states", s.key(), r.states));
            }
            if let Some((what, path)) = &r.bad {
                fail(s.key(), what, s.src(), path);
            }
        }
        // tristate wires
        for (j, (key, src, w, items)) in io.iter().enumerate() {
            if only.as_ref().is_some_and(|o| !key.starts_with(o.as_str())) {
                continue;
            }
            let Some(d) = design(v.len() + j, key) else { continue };
            let mut sim = Sim::new(&d);
            let (n, iw) = if *items == 0 { (1usize, *w) } else { (*items, 1) };
            let fw = iw + 1;
            for x in 0..1u128 << (fw * n as u32) {
                for ext in 0..1u128 << (iw * n as u32) {
                    // outside drives what inside does not
                    let m = u128::ones(iw);
                    let (mut want_net, mut want_out, mut care, mut ev, mut ez) = (0u128, 0u128, 0u128, 0u128, 0u128);
                    for k in 0..n as u32 {
                        let f = x >> (k * fw) & u128::ones(fw);
                        let e = ext >> (k * iw) & m;
                        if f >> iw == 1 {
                            want_net |= (f & m) << (k * iw);
                            care |= 1 << (k * fw + iw);
                            ez |= m << (k * iw);
                        } else {
                            want_net |= e << (k * iw);
                            want_out |= (1 << iw | e) << (k * fw);
                            care |= u128::ones(fw) << (k * fw);
                            ev |= e << (k * iw);
                        }
                    }
                    sim.set_u("d_i", x);
                    // Z is v and x both set
                    sim.set("io", crate::word::V4 { v: ev | ez, x: ez });
                    sim.step();
                    ctx.evals(1);
                    ctx.states(1, 1, 1);
                    let net = sim.get("io").clone();
                    let out = sim.get("output__").clone();
                    if net.v != want_net || net.x != 0 {
                        fail(key, &format!("the wire is {net:?} instead of {want_net:b} for d={x:b} and {ext:b} outside"), src, &[]);
                        break;
                    }
                    if out.v & care != want_out || out.x & care != 0 {
                        fail(key, &format!("the output is {out:?} instead of {want_out:b} for d={x:b} and {ext:b} outside"), src, &[]);
                        break;
                    }
                }
            }
        }
    }
    ctx.finish(
        "model_checking",
        "in every reachable state of the emitted hardware, its environment and the monitor, under every choice of ticking clocks, inputs and torn samples, the outputs are those the protocol admits; after enough rounds without anything happening they have caught up",
        &[
            "when two clocks tick at once, every changing bit of a register fed from the other domain takes its old or its new value",
            "handshake: data is a pulse of one cycle and the next one follows after 16 rounds of both clocks at the earliest",
        ],
        true,
    )
}
