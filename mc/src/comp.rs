//! Driving the real compiler: every compile runs in a worker process (this same binary started
//! with `worker SOCKET`), one request/response at a time over a unix socket, so that a crash,
//! stack overflow or hang of the compiler is an observation about one job and never takes the
//! checker down.
use serde_json::{Value as J, json};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use spade_codespan_reporting::term::termcolor::Buffer;
use spade_diagnostics::diagnostic::{DiagnosticLevel, Labels, Subdiagnostic};
use spade_diagnostics::emitter::CodespanEmitter;
use spade_diagnostics::{CodeBundle, DiagHandler, Diagnostic, Emitter};

#[derive(Clone, Debug, Default)]
pub struct Job {
    /// (namespaced file argument as on the command line, content)
    pub sources: Vec<(String, String)>,
    pub stdlib: bool,
    pub opt: Vec<String>,
    pub want_mir: bool,
    pub want_items: bool,
    pub want_state: bool,
    pub render: bool,
    /// exploration of the monomorphisation scheduler: choices to take (see checks::sched)
    pub sched: Option<Vec<u32>>,
    /// extra processing to run on the compiler's artefacts in the worker
    pub probe: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SpanInfo {
    pub file: String,
    pub lo: usize,
    pub hi: usize,
    pub ok: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Diag {
    pub level: String,
    pub msg: String,
    pub span: SpanInfo,
    pub primary: Option<String>,
    pub secondary: Vec<(SpanInfo, String)>,
    pub subs: Vec<(String, Vec<SpanInfo>)>,
}

impl Diag {
    pub fn is_error(&self) -> bool {
        self.level != "warning"
    }
    pub fn all_spans(&self) -> Vec<&SpanInfo> {
        let mut r = vec![&self.span];
        r.extend(self.secondary.iter().map(|s| &s.0));
        for s in &self.subs {
            r.extend(s.1.iter());
        }
        r
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Ok,
    /// diagnostics were reported; (early?)
    Failed(bool),
    Panic(String),
    /// the worker died (signal, abort, stack overflow, or a hang)
    Died(String),
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Status,
    pub verilog: Option<String>,
    pub mir: Option<String>,
    pub items: Option<String>,
    pub diags: Vec<Diag>,
    pub rendered: String,
    pub wrote: Vec<String>,
    pub sched: Option<J>,
    pub probe: Option<J>,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.status == Status::Ok
    }
    pub fn errors(&self) -> Vec<&Diag> {
        self.diags.iter().filter(|d| d.is_error()).collect()
    }
    pub fn summary(&self) -> String {
        let mut s = match &self.status {
            Status::Ok => "compiled".to_string(),
            Status::Failed(e) => format!("rejected{}", if *e { " (early)" } else { "" }),
            Status::Panic(m) => format!("compiler panicked: {m}"),
            Status::Died(m) => format!("compiler process died: {m}"),
        };
        for d in self.errors().iter().take(3) {
            s.push_str(&format!(
                "; {}: {} [{} {}..{}]{}",
                d.level,
                d.msg,
                d.span.file,
                d.span.lo,
                d.span.hi,
                d.primary.as_ref().map(|p| format!(" ({p})")).unwrap_or_default()
            ));
        }
        s
    }
}

/// marks the notes that say which call made an instance of a generic unit
pub const TRACEBACK: &str = "[instance] ";

// ---------------------------------------------------------------- worker side

struct Capture {
    diags: Arc<Mutex<Vec<Diag>>>,
    render: bool,
}

fn span_info(code: &CodeBundle, s: &spade_common::location_info::FullSpan) -> SpanInfo {
    let (sp, file) = s;
    let lo = sp.start().to_usize();
    let hi = sp.end().to_usize();
    match code.files.get(*file) {
        Ok(f) => {
            let src = f.source();
            let ok = lo <= hi && hi <= src.len() && src.is_char_boundary(lo) && src.is_char_boundary(hi);
            SpanInfo { file: f.name().clone(), lo, hi, ok }
        }
        Err(_) => SpanInfo { file: format!("<missing file id {file}>"), lo, hi, ok: false },
    }
}

fn lower_labels(code: &CodeBundle, l: &Labels) -> (SpanInfo, Vec<(SpanInfo, String)>) {
    (
        span_info(code, &l.span),
        l.secondary_labels.iter().map(|(s, m)| (span_info(code, s), m.as_str().to_string())).collect(),
    )
}

impl Emitter for Capture {
    fn emit_diagnostic(&mut self, d: &Diagnostic, buffer: &mut Buffer, code: &CodeBundle) {
        let (span, secondary) = lower_labels(code, &d.labels);
        let mut subs = vec![];
        for s in &d.subdiagnostics {
            match s {
                Subdiagnostic::Note { message, .. } => subs.push((message.as_str().to_string(), vec![])),
                Subdiagnostic::TypeMismatch { got, expected, .. } => {
                    subs.push((format!("expected {expected} got {got}"), vec![]))
                }
                Subdiagnostic::SpannedNote { labels, .. } => {
                    let (p, sec) = lower_labels(code, labels);
                    let mut v = vec![p];
                    v.extend(sec.into_iter().map(|x| x.0));
                    subs.push((labels.message.as_str().to_string(), v))
                }
                Subdiagnostic::TemplateTraceback { span, message } => {
                    subs.push((format!("{TRACEBACK}{}", message.as_str()), vec![span_info(code, span)]))
                }
                Subdiagnostic::Suggestion { parts, message } => subs.push((
                    message.as_str().to_string(),
                    parts.iter().map(|p| span_info(code, &p.0)).collect(),
                )),
            }
        }
        self.diags.lock().unwrap().push(Diag {
            level: match d.level {
                DiagnosticLevel::Bug => "bug".into(),
                DiagnosticLevel::Error => "error".into(),
                DiagnosticLevel::Warning => "warning".into(),
            },
            msg: d.labels.message.as_str().to_string(),
            span,
            primary: d.labels.primary_label.as_ref().map(|m| m.as_str().to_string()),
            secondary,
            subs,
        });
        if self.render {
            CodespanEmitter.emit_diagnostic(d, buffer, code);
        }
    }
}

static PANIC: Mutex<Option<String>> = Mutex::new(None);

fn run_job(j: &J, tmp: &str) -> J {
    let mut sources = vec![];
    for s in j["sources"].as_array().unwrap() {
        let arg = s[0].as_str().unwrap();
        let content = s[1].as_str().unwrap().to_string();
        let nf = spade::namespaced_file::namespaced_file(arg).expect("bad namespaced file");
        let name = nf.file.to_string_lossy().to_string();
        let ns = spade_common::namespace::ModuleNamespace::new(nf.namespace, nf.base_namespace, &nf.file)
            .expect("namespace");
        sources.push((ns, name, content));
    }
    let path = |s: &str| std::path::PathBuf::from(format!("{tmp}.{s}"));
    for e in ["v", "mir", "items", "state"] {
        let _ = std::fs::remove_file(path(e));
    }
    let opt: Vec<String> = j["opt"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let want = |k: &str| j[k].as_bool().unwrap_or(false);
    let diags = Arc::new(Mutex::new(vec![]));
    *PANIC.lock().unwrap() = None;
    std::panic::set_hook(Box::new(|p| {
        let mut g = match PANIC.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        if g.is_none() {
            *g = Some(p.to_string());
        }
    }));
    let render = want("render");
    let sched_on = crate::sched_glue::install(&j["sched"]);
    let probe_name = j["probe"].as_str().map(|s| s.to_string());
    let d2 = diags.clone();
    let (r, rendered) = {
        let mut buffer = Buffer::no_color();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let opts = spade::Opt {
                error_buffer: &mut buffer,
                outfile: Some(path("v")),
                mir_output: want("want_mir").then(|| path("mir")),
                verilator_wrapper_output: None,
                state_dump_file: want("want_state").then(|| path("state")),
                item_list_file: want("want_items").then(|| path("items")),
                print_parse_traceback: None,
                opt_passes: opt,
            };
            let r = spade::compile(
                sources,
                spade::CompilationGoal::Codegen,
                want("stdlib"),
                opts,
                DiagHandler::new(Box::new(Capture { diags: d2, render })),
            );
            match r {
                Ok(a) => {
                    let p = probe_name.as_ref().map(|n| crate::probes::run(n, Some(a), &path("state"), j));
                    ("ok", p)
                }
                Err(spade::CompilationResult::EarlyFailure(_)) => ("early", None),
                Err(spade::CompilationResult::LateFailure(_)) => {
                    let p = probe_name.as_ref().map(|n| crate::probes::run(n, None, &path("state"), j));
                    ("late", p)
                }
            }
        }));
        (res, String::from_utf8_lossy(buffer.as_slice()).to_string())
    };
    let sched = if sched_on { crate::sched_glue::take() } else { J::Null };
    let (status, probe) = match r {
        Ok((s, p)) => (s.to_string(), p.unwrap_or(J::Null)),
        Err(_) => (
            format!("panic:{}", PANIC.lock().map(|g| g.clone()).unwrap_or(None).unwrap_or_default()),
            J::Null,
        ),
    };
    let rd = |s: &str| std::fs::read_to_string(path(s)).ok();
    let mut wrote = vec![];
    for e in ["v", "mir", "items", "state"] {
        if path(e).exists() {
            wrote.push(e);
        }
    }
    let ds: Vec<J> = diags.lock().unwrap().iter().map(diag_json).collect();
    let out = json!({
        "status": status,
        "verilog": rd("v"),
        "mir": rd("mir"),
        "items": rd("items"),
        "wrote": wrote,
        "diags": ds,
        "rendered": if render { rendered } else { String::new() },
        "sched": sched,
        "probe": probe,
    });
    for e in ["v", "mir", "items", "state"] {
        let _ = std::fs::remove_file(path(e));
    }
    out
}

fn span_json(s: &SpanInfo) -> J {
    json!([s.file, s.lo, s.hi, s.ok])
}
fn span_un(j: &J) -> SpanInfo {
    SpanInfo {
        file: j[0].as_str().unwrap_or("").into(),
        lo: j[1].as_u64().unwrap_or(0) as usize,
        hi: j[2].as_u64().unwrap_or(0) as usize,
        ok: j[3].as_bool().unwrap_or(false),
    }
}
fn diag_json(d: &Diag) -> J {
    json!({
        "level": d.level, "msg": d.msg, "span": span_json(&d.span), "primary": d.primary,
        "secondary": d.secondary.iter().map(|(s,m)| json!([span_json(s), m])).collect::<Vec<_>>(),
        "subs": d.subs.iter().map(|(m,s)| json!([m, s.iter().map(span_json).collect::<Vec<_>>()])).collect::<Vec<_>>(),
    })
}
fn diag_un(j: &J) -> Diag {
    Diag {
        level: j["level"].as_str().unwrap().into(),
        msg: j["msg"].as_str().unwrap().into(),
        span: span_un(&j["span"]),
        primary: j["primary"].as_str().map(|s| s.into()),
        secondary: j["secondary"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| (span_un(&x[0]), x[1].as_str().unwrap().to_string()))
            .collect(),
        subs: j["subs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| {
                (x[0].as_str().unwrap().to_string(), x[1].as_array().unwrap().iter().map(span_un).collect())
            })
            .collect(),
    }
}

pub fn worker_main(socket: &str) {
    let threads = std::env::var("MC_RAYON").ok().and_then(|s| s.parse().ok()).unwrap_or(2usize);
    rayon::ThreadPoolBuilder::new().num_threads(threads).stack_size(64 << 20).build_global().unwrap();
    let stream = UnixStream::connect(socket).expect("connect");
    let mut w = stream.try_clone().unwrap();
    let tmp = format!("{socket}.{}", std::process::id());
    let mut r = BufReader::new(stream);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        let j: J = serde_json::from_str(&line).expect("job json");
        let tmp2 = tmp.clone();
        let out = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || run_job(&j, &tmp2))
            .unwrap()
            .join();
        let out = match out {
            Ok(o) => o,
            Err(_) => {
                // the harness part of run_job itself failed: this is an error of the checker
                json!({"status": format!("harness:{:?}", PANIC.lock().map(|g| g.clone()))})
            }
        };
        let mut s = serde_json::to_string(&out).unwrap();
        s.push('\n');
        if w.write_all(s.as_bytes()).is_err() {
            return;
        }
    }
}

// ---------------------------------------------------------------- parent side

struct Worker {
    child: Child,
    r: BufReader<UnixStream>,
    w: UnixStream,
    served: usize,
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Pool {
    dir: std::path::PathBuf,
    idle: Mutex<Vec<Worker>>,
    pub compiles: AtomicUsize,
    n: AtomicU64,
    rayon_threads: usize,
    timeout: Duration,
}

pub const NCPU: usize = 8;

impl Pool {
    pub fn new() -> Pool {
        Pool::with_threads(2)
    }
    pub fn with_threads(t: usize) -> Pool {
        static K: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let mut dir = std::path::PathBuf::from(format!(
            "{base}/spade-mc-{}-{}",
            std::process::id(),
            K.fetch_add(1, Ordering::SeqCst)
        ));
        if std::fs::create_dir_all(&dir).is_err() {
            dir = std::env::temp_dir().join(format!("spade-mc-{}", std::process::id()));
            std::fs::create_dir_all(&dir).expect("scratch dir");
        }
        Pool {
            dir,
            idle: Mutex::new(vec![]),
            compiles: AtomicUsize::new(0),
            n: AtomicU64::new(0),
            rayon_threads: t,
            timeout: Duration::from_secs(240),
        }
    }
    pub fn limit(mut self, seconds: u64) -> Pool {
        self.timeout = Duration::from_secs(seconds);
        self
    }

    fn spawn(&self) -> Worker {
        let k = self.n.fetch_add(1, Ordering::SeqCst);
        let sock = self.dir.join(format!("w{k}"));
        let listener = UnixListener::bind(&sock).expect("bind");
        let exe = std::env::current_exe().expect("exe");
        let mut child = Command::new(exe)
            .arg("worker")
            .arg(&sock)
            .env("MC_RAYON", self.rayon_threads.to_string())
            .env("RUST_BACKTRACE", "0")
            .env_remove("SPADE_LOG")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        listener.set_nonblocking(true).unwrap();
        let t0 = std::time::Instant::now();
        let s = loop {
            match listener.accept() {
                Ok((s, _)) => break s,
                Err(_) => {
                    if t0.elapsed() > Duration::from_secs(60) || child.try_wait().ok().flatten().is_some() {
                        panic!("worker process did not start");
                    }
                    std::thread::sleep(Duration::from_millis(2));
                }
            }
        };
        s.set_nonblocking(false).unwrap();
        s.set_read_timeout(Some(self.timeout)).unwrap();
        Worker { child, w: s.try_clone().unwrap(), r: BufReader::new(s), served: 0 }
    }

    pub fn compile(&self, job: &Job) -> Outcome {
        self.compiles.fetch_add(1, Ordering::SeqCst);
        let o = self.try_compile(job);
        if let Status::Died(_) = o.status {
            // a dead worker is believed only if a fresh process dies on the same job alone
            return self.try_compile_fresh(job);
        }
        o
    }

    /// Without another try in a fresh process
    pub fn compile_once(&self, job: &Job) -> Outcome {
        self.compiles.fetch_add(1, Ordering::SeqCst);
        self.try_compile_fresh(job)
    }

    fn try_compile(&self, job: &Job) -> Outcome {
        let w = self.idle.lock().unwrap().pop();
        let w = w.unwrap_or_else(|| self.spawn());
        self.go(w, job)
    }
    fn try_compile_fresh(&self, job: &Job) -> Outcome {
        let w = self.spawn();
        self.go(w, job)
    }

    fn go(&self, mut w: Worker, job: &Job) -> Outcome {
        let j = json!({
            "sources": job.sources.iter().map(|(a,b)| json!([a,b])).collect::<Vec<_>>(),
            "stdlib": job.stdlib, "opt": job.opt, "want_mir": job.want_mir,
            "want_items": job.want_items, "want_state": job.want_state, "render": job.render,
            "sched": job.sched, "probe": job.probe,
        });
        let mut s = serde_json::to_string(&j).unwrap();
        s.push('\n');
        let died = |w: &mut Worker, hang: bool| {
            let how = if hang {
                let _ = w.child.kill();
                let _ = w.child.wait();
                "no answer within the time limit".to_string()
            } else {
                match w.child.wait() {
                    Ok(st) => format!("{st}"),
                    Err(e) => format!("{e}"),
                }
            };
            Outcome {
                status: Status::Died(how),
                verilog: None,
                mir: None,
                items: None,
                diags: vec![],
                rendered: String::new(),
                wrote: vec![],
                sched: None,
                probe: None,
            }
        };
        if w.w.write_all(s.as_bytes()).is_err() {
            return died(&mut w, false);
        }
        let mut line = String::new();
        match w.r.read_line(&mut line) {
            Ok(0) => return died(&mut w, false),
            Ok(_) => {}
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                return died(&mut w, true);
            }
            Err(_) => return died(&mut w, false),
        }
        let o: J = match serde_json::from_str(&line) {
            Ok(j) => j,
            Err(_) => return died(&mut w, false),
        };
        let st = o["status"].as_str().unwrap_or("harness:?").to_string();
        let status = match st.as_str() {
            "ok" => Status::Ok,
            "early" => Status::Failed(true),
            "late" => Status::Failed(false),
            s if s.starts_with("panic:") => Status::Panic(s[6..].to_string()),
            s => panic!("worker failure: {s}"),
        };
        let panicked = matches!(status, Status::Panic(_));
        let str_of = |k: &str| o[k].as_str().map(|s| s.to_string());
        let res = Outcome {
            status,
            verilog: str_of("verilog"),
            mir: str_of("mir"),
            items: str_of("items"),
            diags: o["diags"].as_array().map(|a| a.iter().map(diag_un).collect()).unwrap_or_default(),
            rendered: str_of("rendered").unwrap_or_default(),
            wrote: o["wrote"]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
                .unwrap_or_default(),
            sched: (!o["sched"].is_null()).then(|| o["sched"].clone()),
            probe: (!o["probe"].is_null()).then(|| o["probe"].clone()),
        };
        w.served += 1;
        // a worker that saw a panic may hold poisoned process-global state: retire it
        if !panicked && w.served < 400 {
            self.idle.lock().unwrap().push(w);
        }
        res
    }
}

impl Drop for Pool {
    fn drop(&mut self) {
        self.idle.lock().unwrap().clear();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// Run `f` over `items` on NCPU threads, results in input order.
pub fn par_map<T: Sync, R: Send>(items: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Vec<Mutex<Option<R>>> = items.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..NCPU.min(items.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= items.len() {
                            return;
                        }
                        let r = f(i, &items[i]);
                        *out[i].lock().unwrap() = Some(r);
                    }
                })
                .unwrap();
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}

// ---------------------------------------------------------------- batches of units

/// One small program, compiled in its own namespace `u<i>` next to many others.
#[derive(Clone, Debug)]
pub struct Src {
    pub text: String,
}

#[derive(Clone, Debug)]
pub enum UnitRes {
    /// in a compile that produced Verilog: index of the batch
    Ok { batch: usize },
    /// the compiler rejected it with these error diagnostics located in this unit's file
    Rejected(Vec<Diag>),
    /// panic / crash attributable to this unit alone
    Crash(String),
}

pub struct Batches {
    pub units: Vec<UnitRes>,
    pub verilog: Vec<Arc<crate::vlog::File>>,
    pub vtext: Vec<Arc<String>>,
    pub warnings: BTreeMap<usize, Vec<Diag>>,
    /// Verilog our parser could not read: (batch, message)
    pub parse_errors: Vec<(usize, String)>,
}

pub fn unit_file(i: usize) -> String {
    format!("u{i},u{i},u{i}.spade")
}

pub fn file_unit(f: &str) -> Option<usize> {
    f.strip_prefix('u')?.strip_suffix(".spade")?.split('-').next()?.parse().ok()
}

/// The files of unit `i`. A line `//@ ROOT NAMESPACE` starts another file in that namespace of the
/// library ROOT; `QROOT` stands for the name of the unit's own library.
pub fn unit_files(i: usize, src: &str) -> Vec<(String, String)> {
    if !src.contains("//@ ") && !src.contains("QROOT") {
        return vec![(unit_file(i), src.to_string())];
    }
    let src = src.replace("QROOT", &format!("u{i}"));
    let mut files = vec![(unit_file(i), String::new())];
    for l in src.lines() {
        if let Some(h) = l.strip_prefix("//@ ") {
            let (root, ns) = h.split_once(' ').expect("//@ ROOT NAMESPACE");
            files.push((format!("{root},{ns},u{i}-{}.spade", files.len()), String::new()));
        } else {
            let f = files.last_mut().unwrap();
            f.1 += l;
            f.1.push('\n');
        }
    }
    if files[0].1.is_empty() {
        files.remove(0);
    }
    files
}

pub struct BatchOpt {
    pub stdlib: bool,
    pub opt: Vec<String>,
    pub size: usize,
}

/// Compile all `srcs`, `size` per compiler run. A unit which is rejected is taken out and the rest
/// of its batch compiled again, so every accepted unit ends up with Verilog.
pub fn compile_batches(pool: &Pool, srcs: &[String], o: &BatchOpt) -> Batches {
    let idx: Vec<usize> = (0..srcs.len()).collect();
    let chunks: Vec<Vec<usize>> = idx.chunks(o.size.max(1)).map(|c| c.to_vec()).collect();
    type Part = (Vec<(usize, UnitRes)>, Vec<(String, Vec<usize>)>, Vec<(usize, Diag)>);
    let parts: Vec<Part> = par_map(&chunks, |_, chunk| {
        let mut res: Vec<(usize, UnitRes)> = vec![];
        let mut texts = vec![];
        let mut warns = vec![];
        // work list of groups still to compile
        let mut todo: Vec<Vec<usize>> = vec![chunk.clone()];
        while let Some(group) = todo.pop() {
            if group.is_empty() {
                continue;
            }
            let job = Job {
                sources: group.iter().flat_map(|i| unit_files(*i, &srcs[*i])).collect(),
                stdlib: o.stdlib,
                opt: o.opt.clone(),
                ..Default::default()
            };
            let out = pool.compile(&job);
            match &out.status {
                Status::Ok => {
                    for d in &out.diags {
                        if let Some(u) = file_unit(&d.span.file) {
                            warns.push((u, d.clone()));
                        }
                    }
                    texts.push((out.verilog.clone().unwrap_or_default(), group.clone()));
                }
                Status::Failed(_) => {
                    let mut by: BTreeMap<usize, Vec<Diag>> = BTreeMap::new();
                    for d in out.errors() {
                        // attribute to the first span that lies in a unit file
                        let owner = d.all_spans().iter().find_map(|s| file_unit(&s.file));
                        if let Some(u) = owner {
                            by.entry(u).or_default().push(d.clone());
                        }
                    }
                    by.retain(|u, _| group.contains(u));
                    if by.is_empty() {
                        if group.len() == 1 {
                            res.push((group[0], UnitRes::Rejected(out.errors().into_iter().cloned().collect())));
                        } else {
                            let (a, b) = group.split_at(group.len() / 2);
                            todo.push(a.to_vec());
                            todo.push(b.to_vec());
                        }
                        continue;
                    }
                    let rest: Vec<usize> = group.iter().copied().filter(|u| !by.contains_key(u)).collect();
                    for (u, ds) in by {
                        res.push((u, UnitRes::Rejected(ds)));
                    }
                    todo.push(rest);
                }
                Status::Panic(m) | Status::Died(m) => {
                    if group.len() == 1 {
                        res.push((group[0], UnitRes::Crash(m.clone())));
                    } else {
                        let (a, b) = group.split_at(group.len() / 2);
                        todo.push(a.to_vec());
                        todo.push(b.to_vec());
                    }
                }
            }
        }
        (res, texts, warns)
    });
    let mut units: Vec<Option<UnitRes>> = vec![None; srcs.len()];
    let mut vtext = vec![];
    let mut warnings: BTreeMap<usize, Vec<Diag>> = BTreeMap::new();
    for (res, texts, warns) in parts {
        for (u, r) in res {
            units[u] = Some(r);
        }
        for (t, group) in texts {
            let b = vtext.len();
            vtext.push(Arc::new(t));
            for u in group {
                units[u] = Some(UnitRes::Ok { batch: b });
            }
        }
        for (u, d) in warns {
            warnings.entry(u).or_default().push(d);
        }
    }
    let parsed = par_map(&vtext, |_, t| crate::vlog::parse(t));
    let mut verilog = vec![];
    let mut parse_errors = vec![];
    for (i, p) in parsed.into_iter().enumerate() {
        match p {
            Ok(f) => verilog.push(Arc::new(f)),
            Err(e) => {
                parse_errors.push((i, e));
                verilog.push(Arc::new(crate::vlog::parse("").unwrap()));
            }
        }
    }
    Batches {
        units: units.into_iter().map(|u| u.expect("unit without result")).collect(),
        verilog,
        vtext,
        warnings,
        parse_errors,
    }
}
