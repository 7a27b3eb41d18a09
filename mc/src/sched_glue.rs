//! Controlled scheduling of the threads which compile units: a cooperative scheduler behind the
//! hook `spade_common::verif_sync`. Exactly one of the participating threads runs at any time;
//! at every operation on shared state the script (or, past its end, the default: go on with the
//! same thread, else the one started first) decides which one is next.
use crate::report::hash64;
use serde_json::{Value as J, json};
use spade_common::verif_sync::{self, Scheduler};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq)]
enum P {
    /// spawned, not yet at its first point
    Coming,
    Ready,
    /// has to wait until somebody else did something
    Waits,
    Idle,
    Done,
}

struct S {
    parts: Vec<P>,
    quiet: Vec<bool>,
    /// the object each thread is about to access
    next: Vec<Option<u64>>,
    /// what happened before the last operation of each thread, and of each object
    hist: Vec<u64>,
    ohist: std::collections::HashMap<u64, u64>,
    current: Option<usize>,
    script: Vec<u32>,
    /// (alternatives, choice, the current one could have gone on)
    trace: Vec<(u32, u32, bool, u64)>,
    points: u64,
    switches: u64,
    /// how often the queue was found empty since another thread did something
    spins: u32,
    stuck: Option<String>,
}

pub struct Sched {
    mask: u8,
    s: Mutex<S>,
    cv: Condvar,
}

/// in the mask: explore all threads
const ALL: u8 = 128;
const LIMIT: u64 = 2_000_000;

impl Sched {
    fn lock(&self) -> MutexGuard<'_, S> {
        self.s.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Somebody (`me`) did something: those who wait may look again
    fn progress(s: &mut S, me: usize) {
        for (i, p) in s.parts.iter_mut().enumerate() {
            if i != me && (*p == P::Waits || *p == P::Idle) {
                *p = P::Ready;
            }
        }
    }

    fn decide(&self, s: &mut S) {
        let cur = s.current.filter(|c| s.parts[*c] == P::Ready);
        let mut en: Vec<usize> = cur.into_iter().collect();
        en.extend((0..s.parts.len()).filter(|i| s.parts[*i] == P::Ready && Some(*i) != cur));
        if let Some(q) = en.iter().find(|i| s.quiet[**i]) {
            en = vec![*q];
        }
        if en.is_empty() {
            s.current = None;
            if s.parts.iter().any(|p| *p != P::Done) && s.stuck.is_none() {
                s.stuck = Some(format!(
                    "no thread can go on: {}",
                    s.parts
                        .iter()
                        .map(|p| match p {
                            P::Done => "done",
                            P::Idle => "queue empty, but units remain",
                            _ => "waits for a lock",
                        })
                        .collect::<Vec<_>>()
                        .join(", ")
                ));
            }
            self.cv.notify_all();
            return;
        }
        let mut c = 0;
        if en.len() > 1 {
            let k = s.trace.len();
            c = s.script.get(k).copied().unwrap_or(0).min(en.len() as u32 - 1);
            let sig = hash64(&(&s.hist, &s.next, s.parts.iter().map(|p| *p as u8).collect::<Vec<_>>(), s.current, s.spins));
            s.trace.push((en.len() as u32, c, cur.is_some(), sig));
        }
        let next = en[c as usize];
        if s.current != Some(next) {
            s.switches += 1;
        }
        s.current = Some(next);
        // the chosen one performs what it announced
        if let Some(o) = s.next[next].take() {
            let h = hash64(&(s.hist[next], s.ohist.get(&o).copied().unwrap_or(0), o));
            s.hist[next] = h;
            s.ohist.insert(o, h);
        }
        self.cv.notify_all();
    }

    fn settle<'a>(&'a self, mut s: MutexGuard<'a, S>) -> MutexGuard<'a, S> {
        // those who were started arrive by themselves
        while s.parts.iter().any(|p| *p == P::Coming) {
            s = self.cv.wait(s).unwrap_or_else(|e| e.into_inner());
        }
        s
    }

    fn wait_turn(&self, mut s: MutexGuard<'_, S>, id: usize) {
        while s.current != Some(id) && s.stuck.is_none() {
            s = self.cv.wait(s).unwrap_or_else(|e| e.into_inner());
        }
        if s.stuck.is_some() && !std::thread::panicking() {
            drop(s);
            panic!("schedule is stuck");
        }
    }

    fn give(&self, id: usize, p: P) {
        let mut s = self.lock();
        if s.stuck.is_some() {
            drop(s);
            if p != P::Done && !std::thread::panicking() {
                panic!("schedule is stuck");
            }
            return;
        }
        s = self.settle(s);
        s.points += 1;
        if s.points > LIMIT {
            s.stuck = Some("does not end".into());
            self.cv.notify_all();
        }
        if p != P::Waits {
            Self::progress(&mut s, id);
        }
        let mut p = p;
        if p == P::Idle {
            // somebody may have done the last step after the queue was looked at
            s.spins += 1;
            if s.spins < 3 && !s.parts.iter().enumerate().any(|(i, q)| i != id && *q == P::Ready) {
                p = P::Ready;
            }
        } else if id != 0 {
            s.spins = 0;
        }
        s.parts[id] = p;
        self.decide(&mut s);
        if p != P::Done {
            self.wait_turn(s, id);
        }
    }
}

impl Scheduler for Sched {
    fn spawned(&self, what: &str) -> usize {
        let mut s = self.lock();
        s.parts.push(P::Coming);
        // the units of the standard library are no part of the exploration unless asked for
        let quiet = self.mask & ALL == 0 && !what.is_empty() && !what.starts_with("p::");
        s.quiet.push(quiet);
        s.next.push(None);
        let by = s.current.map(|c| s.hist[c]).unwrap_or(0);
        let h = hash64(&(by, what));
        s.hist.push(h);
        s.parts.len() - 1
    }
    fn started(&self, id: usize) {
        let mut s = self.lock();
        s.parts[id] = P::Ready;
        self.cv.notify_all();
        if s.current.is_none() && id == 0 {
            s.current = Some(0);
            return;
        }
        self.wait_turn(s, id);
    }
    fn point(&self, id: usize, class: u8, object: u64) {
        if class & self.mask != 0 && !self.lock().quiet[id] {
            self.lock().next[id] = Some(object);
            self.give(id, P::Ready);
        }
    }
    fn blocked(&self, id: usize) {
        self.give(id, P::Waits);
    }
    fn idle(&self, id: usize) {
        self.give(id, P::Idle);
    }
    fn finished(&self, id: usize) {
        self.give(id, P::Done);
    }
}

static CUR: Mutex<Option<Arc<Sched>>> = Mutex::new(None);

/// `[mask, choice, choice, ...]`
pub fn install(j: &J) -> bool {
    let Some(a) = j.as_array() else {
        *CUR.lock().unwrap_or_else(|e| e.into_inner()) = None;
        verif_sync::install(None);
        return false;
    };
    let v: Vec<u32> = a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect();
    let s = Arc::new(Sched {
        mask: v[0] as u8,
        s: Mutex::new(S {
            parts: vec![],
            quiet: vec![],
            next: vec![],
            hist: vec![],
            ohist: Default::default(),
            current: None,
            script: v[1..].to_vec(),
            trace: vec![],
            points: 0,
            switches: 0,
            spins: 0,
            stuck: None,
        }),
        cv: Condvar::new(),
    });
    *CUR.lock().unwrap_or_else(|e| e.into_inner()) = Some(s.clone());
    verif_sync::install(Some(s));
    true
}

pub fn take() -> J {
    verif_sync::install(None);
    let Some(s) = CUR.lock().unwrap_or_else(|e| e.into_inner()).take() else { return J::Null };
    let s = s.lock();
    json!({
        "trace": s.trace.iter().map(|(n, c, r, h)| json!([n, c, *r as u32, h])).collect::<Vec<_>>(),
        "threads": s.parts.len(),
        "points": s.points,
        "switches": s.switches,
        "stuck": s.stuck,
    })
}
