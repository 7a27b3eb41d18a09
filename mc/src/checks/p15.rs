//! P15: the result does not depend on how the threads that compile the units interleave.
//! Stateless exploration of the real code: every schedule of the shared operations of the unit
//! queue (and, for some programs, of the id trackers and of the shared type state) up to a bound
//! on the number of departures from the default order is executed by a cooperative scheduler behind a hook.
use crate::comp::*;
use crate::report::*;
use crate::vlog;
use rayon::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

const MONO: u32 = 1;
const IDS: u32 = 2;
const TYPES: u32 = 4;

struct Prog {
    key: &'static str,
    ok: bool,
    src: &'static str,
    /// a preemption costs 2, another departure from the default order 1; budget: (quick, thorough)
    bound: (u32, u32),
}

fn programs() -> Vec<Prog> {
    let mut v = vec![];
    let mut add = |key, ok, bound, src: &'static str| v.push(Prog { key, ok, src, bound });
    add("two-requests", true, (3, 4), "
        fn f<T>(x: T) -> T { x }
        entity a(x: bool) -> bool { f(x) }
        entity b(x: bool) -> bool { f(x) }");
    add("two-instances", true, (2, 3), "
        fn f<T>(x: T) -> T { x }
        entity a(x: bool) -> bool { f(x) }
        entity b(x: uint<2>) -> uint<2> { f(x) }");
    add("overlap", true, (2, 3), "
        fn f<#uint N>(x: uint<N>) -> (uint<N>, uint<3>) { (x, N) }
        entity a(x: uint<2>, y: uint<4>) -> (uint<2>, uint<3>) { let _ = f(y); f(x) }
        entity b(x: uint<2>, y: uint<3>) -> (uint<2>, uint<3>) { let _ = f(y); f(x) }");
    add("chain", true, (2, 3), "
        fn h<T>(x: T) -> T { x }
        fn g<T>(x: T) -> (T, bool) { (h(x), h(true)) }
        entity a(x: bool) -> (bool, bool) { g(x) }
        entity b(x: uint<2>) -> uint<2> { h(x) }");
    add("diamond", true, (2, 3), "
        fn h<T>(x: T) -> T { x }
        fn g<T>(x: T) -> T { h(x) }
        fn k<T>(x: T) -> T { h(x) }
        entity a(x: bool) -> bool { g(x) }
        entity b(x: bool) -> bool { k(x) }
        entity c(x: bool) -> bool { h(x) }");
    add("recursion", true, (2, 3), "
        fn r<#uint N>(x: uint<4>) -> uint<4> { gen if N == 0 { x } else { x ^ r::<{N - 1}>(x) } }
        entity a(x: uint<4>) -> uint<4> { r::<3>(x) }");
    add("recursion-shared", true, (2, 3), "
        fn r<#uint N>(x: uint<4>) -> uint<4> { gen if N == 0 { x } else { x ^ r::<{N - 1}>(x) } }
        entity a(x: uint<4>) -> uint<4> { r::<3>(x) }
        entity b(x: uint<4>) -> uint<4> { r::<2>(x) }");
    add("lambda", true, (2, 3), "
        entity a(x: bool, y: bool) -> bool { let l = fn |p| p ^^ y; l.call((x,)) }
        entity b(x: uint<2>, y: uint<2>) -> uint<2> { let l = fn |p| p ^ y; l.call((x,)) }");
    add("lambda-arg", true, (2, 3), "
        fn ap<F: Fn(bool) -> bool>(f: F, x: bool) -> bool { f.call((x,)) }
        entity a(x: bool, y: bool) -> bool { ap(fn |p| p ^^ y, x) }
        entity b(x: bool, y: bool) -> bool { ap(fn |p| p && y, x) }");
    add("lambda-generic", true, (2, 3), "
        fn g<T>(x: T, y: bool) -> (T, bool) { let l = fn |p| (p, y); l.call((x,)) }
        entity a(x: bool, y: bool) -> (bool, bool) { g(x, y) }
        entity b(x: uint<2>, y: bool) -> (uint<2>, bool) { g(x, y) }");
    add("lambda-nested", true, (3, 4), "
        entity a(x: bool, y: bool) -> bool {
            let l = fn |p| { let m = fn |q| q ^^ p; m.call((y,)) };
            l.call((x,))
        }");
    add("lambda-nested-generic", true, (2, 3), "
        fn g<#uint N>(x: uint<N>) -> uint<N> {
            let l = fn |p| { let m = fn |q| q ^ p; m.call((x,)) };
            l.call((x,))
        }
        entity a(x: uint<2>) -> uint<2> { g(x) }
        entity b(x: uint<2>) -> uint<2> { g(x) }
        entity c(x: uint<2>) -> uint<2> { x }");
    add("methods", true, (2, 3), "
        trait Q15 { fn q(self) -> bool; }
        impl Q15 for bool { fn q(self) -> bool { !self } }
        impl Q15 for uint<2> { fn q(self) -> bool { self == 1 } }
        fn g<T: Q15>(x: T) -> bool { x.q() }
        entity a(x: bool, y: uint<2>) -> bool { g(x) && g(y) }");
    add("methods-generic", true, (2, 3), "
        struct W<T> { v: T }
        impl<T> W<T> { fn get(self) -> T { self.v } fn two(self) -> (T, T) { (self.get(), self.get()) } }
        entity a(x: W<bool>) -> (bool, bool) { x.two() }
        entity b(x: W<uint<2>>) -> uint<2> { x.get() }");
    add("pipeline", true, (2, 3), "
        pipeline(1) p<T>(clk: clock, x: T) -> T { reg; x }
        entity a(clk: clock, x: bool) -> bool { inst(1) p(clk, x) }
        pipeline(1) b(clk: clock, x: bool) -> bool { let r = inst(1) p(clk, x); reg; r }
        entity c(clk: clock, x: uint<2>) -> uint<2> { inst(1) p(clk, x) }");
    add("registers", true, (2, 3), "
        entity r<T>(clk: clock, x: T) -> T { reg(clk) s = x; s }
        entity a(clk: clock, x: bool) -> bool { inst r(clk, x) }
        entity b(clk: clock, x: (bool, uint<2>)) -> (bool, uint<2>) { inst r(clk, x) }");
    add("unmangled", true, (2, 3), "
        fn f<T>(x: T) -> T { x }
        #[no_mangle] entity a(x: bool) -> bool { f(x) }
        #[no_mangle] entity b(x: bool) -> bool { f(x) }");
    add("inline", true, (2, 3), "
        #[inline] fn f<T>(x: T) -> (T, T) { (x, x) }
        fn g<T>(x: T) -> (T, T) { f(x) }
        entity a(x: bool) -> (bool, bool) { g(x) }
        entity b(x: bool) -> ((bool, bool), bool) { (f(x), x) }");
    add("four", true, (2, 3), "
        entity a(x: bool) -> bool { x }
        entity b(x: bool) -> bool { !x }
        entity c(x: bool) -> bool { inst b(x) }
        entity d(x: bool) -> bool { inst c(x) }");
    add("err-instance", false, (3, 4), "
        fn f<#uint N>(x: uint<N>) -> uint<2> { x }
        entity a(x: uint<3>) -> uint<2> { f(x) }
        entity b(x: uint<3>) -> uint<2> { f(x) }");
    add("err-instance-deep", false, (2, 3), "
        fn g<#uint N>(x: uint<N>) -> uint<2> { gen if N == 2 { x } else { x } }
        fn f<#uint N>(x: uint<N>) -> uint<2> { g(x) }
        fn h<#uint N>(x: uint<N>) -> uint<2> { g(x) }
        entity a(x: uint<3>) -> uint<2> { f(x) }
        entity b(x: uint<3>) -> uint<2> { h(x) }");
    add("err-two-units", false, (2, 3), "
        entity a(x: inv bool, y: bool) -> bool { y }
        entity b(x: inv bool, y: bool) -> bool { y }
        entity c(y: bool) -> bool { y }");
    add("err-where", false, (2, 3), "
        fn f<#uint N>(x: bool) -> bool where N > 1 else \"small\" { x }
        fn g<#uint N>(x: bool) -> bool { f::<N>(x) }
        entity a(x: bool) -> bool { g::<1>(x) }
        entity b(x: bool) -> bool { g::<0>(x) }
        entity c(x: bool) -> bool { g::<2>(x) }");
    add("err-zero", false, (2, 3), "
        fn f<#uint N>(x: uint<8>) -> uint<8> { let _: uint<N> = 5; x }
        entity a(x: uint<8>) -> uint<8> { f::<2>(x) }
        entity b(x: uint<8>) -> uint<8> { f::<1>(x) }");
    v
}

/// Expression ids differ between schedules; nothing else may.
fn canon(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = String::with_capacity(s.len());
    let mut ids: HashMap<(u8, u64), usize> = HashMap::new();
    let mut i = 0;
    while i < b.len() {
        let pre = if b[i..].starts_with(b"_e_") {
            Some((3, 0u8))
        } else if b[i] == b'[' && i > 0 && !b[i - 1].is_ascii_whitespace() && b[i + 1..].first().is_some_and(|c| c.is_ascii_digit()) {
            // `\name[12] ` in an escaped identifier, not a select
            let st = b[..i].iter().rposition(|c| c.is_ascii_whitespace()).map(|p| p + 1).unwrap_or(0);
            (b[st..i].contains(&b'\\') || s[..st].ends_with("COCOTB_CODE( ")).then_some((1, 1u8))
        } else {
            None
        };
        if let Some((l, cls)) = pre {
            let mut k = i + l;
            while k < b.len() && b[k].is_ascii_digit() {
                k += 1;
            }
            if k > i + l && (cls == 0 || b.get(k) == Some(&b']')) {
                let n: u64 = s[i + l..k].parse().unwrap_or(u64::MAX);
                let m = ids.len();
                let id = *ids.entry((cls, n)).or_insert(m);
                out.push_str(&s[i..i + l]);
                out.push_str(&format!("#{id}"));
                i = k;
                continue;
            }
        }
        out.push(b[i] as char);
        i += 1;
    }
    out
}

fn shape(o: &Outcome) -> String {
    let mut s = match &o.status {
        Status::Ok => "compiled\n".to_string(),
        Status::Failed(_) => "rejected\n".to_string(),
        Status::Panic(m) => format!("panic {m}\n"),
        Status::Died(m) => format!("died {m}\n"),
    };
    if o.ok() {
        s.push_str(&canon(o.verilog.as_deref().unwrap_or("")));
        s.push_str("\n// items\n");
        s.push_str(&canon(o.items.as_deref().unwrap_or("")));
    }
    for d in &o.diags {
        let mut d = d.clone();
        let n = d.subs.len();
        d.subs.retain(|s| !s.0.starts_with(TRACEBACK));
        if d.subs.len() != n {
            // these labels point to where the type arguments of the instance come from
            d.secondary.clear();
        }
        s.push_str(&format!("{d:?}\n"));
    }
    s
}

/// The notes which say where the instances of generic units come from
fn tracebacks(o: &Outcome) -> String {
    o.diags
        .iter()
        .filter(|d| d.subs.iter().any(|s| s.0.starts_with(TRACEBACK)))
        .map(|d| format!("{:?} {:?}\n", d.secondary, d.subs))
        .collect()
}

/// None if the output is whole
fn whole(o: &Outcome, expected: &[String]) -> Option<String> {
    let v = o.verilog.as_deref()?;
    let f = match vlog::parse(v) {
        Ok(f) => f,
        Err(e) => return Some(format!("the output does not parse: {e}")),
    };
    let mut names = std::collections::BTreeSet::new();
    for m in &f.modules {
        if !names.insert(m.name.clone()) {
            return Some(format!("module {} is there twice", m.name));
        }
    }
    for m in &f.modules {
        for i in &m.items {
            if let vlog::Item::Instance { module, .. } = &i {
                if !names.contains(module) {
                    return Some(format!("module {module} is instantiated but missing"));
                }
            }
        }
    }
    expected.iter().find(|n| !names.contains(*n)).map(|n| format!("module {n} is missing"))
}

struct Item {
    prefix: Vec<u32>,
    cost: u32,
    /// what the parent saw up to the last choice
    seen: Vec<(u32, u32, bool, u64)>,
}

fn trace_of(o: &Outcome) -> Vec<(u32, u32, bool, u64)> {
    o.sched.as_ref().and_then(|s| s["trace"].as_array().cloned()).unwrap_or_default().iter().map(|t| {
        let g = |i: usize| t[i].as_u64().unwrap_or(0) as u32;
        (g(0), g(1), g(2) != 0, t[3].as_u64().unwrap_or(0))
    }).collect()
}

pub fn run(ctx: Ctx) -> i32 {
    let pool = Pool::with_threads(10);
    let mut progs = programs();
    if let Ok(only) = std::env::var("MC_ONLY") {
        progs.retain(|p| p.key == only);
    }
    let step_cap: u64 = ctx.pick(2_000, 20_000);
    let diverged = AtomicU64::new(0);
    let per: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let job = |src: &str, mask: u32, prefix: &[u32]| Job {
        sources: vec![("p,p,p.spade".into(), src.to_string())],
        want_items: true,
        sched: Some(std::iter::once(mask).chain(prefix.iter().copied()).collect()),
        ..Job::default()
    };
    let explore = |p: &Prog, mask: u32, bound: u32, tag: &str, cap: u64| {
        let name = format!("{}/{tag}", p.key);
        let base = pool.compile(&job(p.src, mask, &[]));
        let want = shape(&base);
        let want_tb = tracebacks(&base);
        ctx.programs(1);
        let words: Vec<&str> = p.src.split_whitespace().collect();
        let expected: Vec<String> = words
            .windows(2)
            .filter(|w| w[0] == "entity" && !w[1].contains('<'))
            .map(|w| format!("{}{}", if p.key == "unmangled" { "" } else { "p::" }, w[1].split('(').next().unwrap()))
            .collect();
        let report = |o: &Outcome, prefix: &[u32], what: String| {
            ctx.violation(&name, &what, json!({
                "program": p.src, "classes": mask, "schedule": prefix,
                "reference": want, "got": shape(o), "sched": o.sched,
            }));
        };
        let judge = |o: &Outcome, prefix: &[u32]| -> bool {
            if let Some(st) = o.sched.as_ref().and_then(|s| s["stuck"].as_str()) {
                report(o, prefix, format!("the compilation hangs: {st}"));
                return false;
            }
            if o.ok() != p.ok {
                report(o, prefix, format!("expected {}, got: {}", if p.ok { "a design" } else { "a rejection" }, o.summary()));
                return false;
            }
            if let Some(e) = whole(o, &expected) {
                report(o, prefix, e);
                return false;
            }
            let got = shape(o);
            if got != want {
                let (a, b) = want.lines().zip(got.lines()).find(|(a, b)| a != b).unwrap_or(("", "(length)"));
                report(o, prefix, format!("depends on the schedule: `{a}` against `{b}`"));
                return false;
            }
            let tb = tracebacks(o);
            if tb != want_tb {
                ctx.violation(&format!("{name}/traceback"), &format!("the notes on where an instance comes from depend on the schedule: `{}` against `{}`", want_tb.trim(), tb.trim()), json!({
                    "program": p.src, "classes": mask, "schedule": prefix, "reference": want_tb, "got": tb,
                }));
            }
            ctx.outcome(hash64(&got));
            true
        };
        if !judge(&base, &[]) {
            return;
        }
        let n = AtomicU64::new(1);
        let points = base.sched.as_ref().map(|s| s["points"].as_u64().unwrap_or(0)).unwrap_or(0);
        let trans = AtomicU64::new(points);
        ctx.sample("schedule", || json!({"program": p.key, "classes": mask, "bound": bound, "threads": base.sched.as_ref().map(|s| s["threads"].clone()), "points": points}));
        let visited: Mutex<HashMap<u64, u32>> = Mutex::new(HashMap::new());
        let pruned = AtomicU64::new(0);
        let kids = |o: &Outcome, it: &Item| -> Vec<Item> {
            let tr = trace_of(o);
            let mut v = vec![];
            let mut visited = visited.lock().unwrap();
            for k in it.prefix.len()..tr.len() {
                let (alts, _, cur, sig) = tr[k];
                // a state which was already left in all ways with no more preemptions spent
                match visited.get(&sig) {
                    Some(c) if *c <= it.cost => {
                        pruned.fetch_add(1, Ordering::SeqCst);
                        continue;
                    }
                    _ => visited.insert(sig, it.cost),
                };
                let cost = it.cost + 1 + cur as u32;
                if cost > bound {
                    continue;
                }
                for c in 1..alts {
                    let mut prefix: Vec<u32> = tr[..k].iter().map(|t| t.1).collect();
                    prefix.push(c);
                    v.push(Item { prefix, cost, seen: tr[..k].to_vec() });
                }
            }
            v
        };
        let mut level = kids(&base, &Item { prefix: vec![], cost: 0, seen: vec![] });
        let mut bad = false;
        while !level.is_empty() && !bad {
            if n.load(Ordering::SeqCst) + level.len() as u64 > cap {
                ctx.cap(format!("{name}: schedules beyond {cap} (budget {bound}) not explored"));
                level.truncate(cap.saturating_sub(n.load(Ordering::SeqCst)) as usize);
                bad = level.is_empty();
            }
            let next: Vec<(bool, Vec<Item>)> = level.par_iter().map(|it| {
                let o = pool.compile(&job(p.src, mask, &it.prefix));
                n.fetch_add(1, Ordering::SeqCst);
                trans.fetch_add(o.sched.as_ref().map(|s| s["points"].as_u64().unwrap_or(0)).unwrap_or(0), Ordering::SeqCst);
                let tr = trace_of(&o);
                let same = tr.len() >= it.seen.len() && tr[..it.seen.len()] == it.seen[..];
                if !same {
                    diverged.fetch_add(1, Ordering::SeqCst);
                }
                ctx.distinct(hash64(&(p.key, mask, &tr)));
                let ok = judge(&o, &it.prefix);
                (ok, if ok { kids(&o, it) } else { vec![] })
            }).collect();
            if next.iter().any(|x| !x.0) {
                bad = true;
            }
            level = next.into_iter().flat_map(|x| x.1).collect();
        }
        let n = n.into_inner();
        ctx.states(n, trans.into_inner(), n);
        ctx.evals(n);
        ctx.count("schedules", n);
        per.lock().unwrap().insert(name.clone(), n);
        ctx.count("states left again with the same past, not expanded", pruned.into_inner());
    };
    for p in &progs {
        let b = if ctx.thorough() { p.bound.1 } else { p.bound.0 };
        explore(p, MONO, b, "queue", step_cap);
    }
    for p in progs.iter().filter(|p| ["two-requests", "two-instances", "lambda", "chain"].contains(&p.key)) {
        explore(p, MONO | IDS, 2, "ids", step_cap);
        if ctx.thorough() || p.key == "two-instances" {
            explore(p, MONO | TYPES, 2, "types", step_cap);
        }
    }
    if std::env::var("MC_VERBOSE").is_ok() {
        for (k, n) in per.lock().unwrap().iter() {
            eprintln!("{k}: {n}");
        }
    }
    let d = diverged.into_inner();
    ctx.count("replayed prefixes that did not repeat", d);
    if d > 0 {
        ctx.cap(format!("{d} schedules did not repeat the choices of the one they extend"));
    }
    ctx.finish(
        "model_checking",
        "every schedule of the shared operations, up to the program's budget of preemptions (2 each) and other departures from the default order (1 each), executed on the real compiler",
        &["operations between two scheduling points are atomic; weak memory effects are not explored (all shared state is behind locks or sequentially consistent or counter atomics)"],
        true,
    )
}
