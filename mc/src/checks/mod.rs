use crate::comp::*;
use crate::hw::*;
use crate::report::*;
use serde_json::Value as J;

pub mod corpus;
pub mod ops;
pub mod p17;
pub mod p22;
pub mod p18;
pub mod p20;
pub mod p26;
pub mod p15;
pub mod p14;
pub mod p13;
pub mod p12;
pub mod p11;
pub mod p10;
pub mod p09;
pub mod p08;
pub mod p07;
pub mod p06;
pub mod pats;
pub mod p05;
pub mod types;
pub mod p04;
pub mod p03;
pub mod p01;
pub mod p02;

pub fn run(id: &str, tier: Tier, seed: u64) -> i32 {
    let dir = root().join("out/replays");
    if let Ok(rd) = std::fs::read_dir(&dir) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("{id}-")) {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    let ctx = Ctx::new(id, tier, seed);
    match id {
        "P01" => p01::run(ctx),
        "P02" => p02::run(ctx),
        "P03" => p03::run(ctx),
        "P04" => p04::run(ctx),
        "P05" => p05::run(ctx),
        "P06" => p06::run(ctx),
        "P07" => p07::run(ctx),
        "P08" => p08::run(ctx),
        "P09" => p09::run(ctx),
        "P10" => p10::run(ctx),
        "P11" => p11::run(ctx),
        
        "P12" => p12::run(ctx),
        "P13" => p13::run(ctx),
        "P14" => p14::run(ctx),
        "P15" => p15::run(ctx),
        "P26" => p26::run(ctx),
        "P20" => p20::run(ctx),
        "P18" => p18::run(ctx),
        "P22" => p22::run(ctx),
        "P17" => p17::run(ctx),
        _ => {
            eprintln!("unknown check {id}");
            2
        }
    }
}

pub fn replay(file: &str) -> i32 {
    let j: J = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    println!("property {}\nkey {}\nwhat {}", j["property"], j["key"], j["what"]);
    let r = &j["replay"];
    println!("--- source\n{}", r["source"].as_str().unwrap_or(""));
    if r["kind"].as_str() == Some("hw") {
        let pool = Pool::new();
        let job = Job {
            sources: vec![("u0,u0,u0.spade".into(), r["source"].as_str().unwrap().into())],
            stdlib: r["stdlib"].as_bool().unwrap_or(false),
            opt: r["opt"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
            ..Default::default()
        };
        let out = pool.compile(&job);
        println!("--- compiler: {}", out.summary());
        let Some(v) = out.verilog else { return 1 };
        println!("--- Verilog of the top module and its steps");
        let pairs = |k: &str| -> Vec<(String, u32)> {
            r[k].as_array()
                .unwrap()
                .iter()
                .map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_u64().unwrap() as u32))
                .collect()
        };
        let f = match crate::vlog::parse(&v) {
            Ok(f) => f,
            Err(e) => {
                println!("does not parse: {e}\n{v}");
                return 1;
            }
        };
        let d = match lookup_top::<num::BigUint>(&f, "u0", r["top"].as_str().unwrap()) {
            Ok(d) => d,
            Err(e) => {
                println!("does not elaborate: {e}\n{v}");
                return 1;
            }
        };
        println!("lints: {:?}", d.lints);
        let ins = pairs("ins");
        let outs = pairs("outs");
        let mut sim = crate::sim::Sim::new(&d);
        let mut clks: Vec<String> = r["clk"].as_str().iter().map(|s| s.to_string()).collect();
        for c in r["xclks"].as_array().into_iter().flatten() {
            clks.push(c.as_str().unwrap().to_string());
        }
        for s in r["steps"].as_array().into_iter().flatten() {
            for c in &clks {
                sim.set_u(c, 0);
            }
            sim.step();
            let mut line = String::new();
            for (k, (n, w)) in ins.iter().enumerate() {
                let v: u128 = s[k].as_str().unwrap().parse().unwrap();
                line.push_str(&format!("{n}={v} "));
                if *w > 0 {
                    sim.set_u(n, v);
                }
            }
            sim.step();
            line.push_str(" -> ");
            for (n, w) in &outs {
                if *w > 0 && sim.has_port(n) {
                    line.push_str(&format!("{n}={} ", sim.get(n).show(*w)));
                }
            }
            println!("{line}");
            let m: u128 = if clks.len() > 1 { s[ins.len()].as_str().unwrap().parse().unwrap() } else { 1 };
            for (b, c) in clks.iter().enumerate() {
                if m >> b & 1 == 1 {
                    sim.set_u(c, 1);
                }
            }
            sim.step();
        }
        println!("expected in the last step: {}", r["expect_last"]);
    } else {
        println!("{}", serde_json::to_string_pretty(r).unwrap());
    }
    0
}

pub fn try_file(args: &[String]) -> i32 {
    let src = std::fs::read_to_string(&args[0]).unwrap();
    let pool = Pool::new();
    let out = pool.compile(&Job {
        sources: vec![("u0,u0,u0.spade".into(), src)],
        stdlib: args.iter().any(|a| a == "--stdlib"),
        render: true,
        ..Default::default()
    });
    println!("{}\n{}", out.summary(), out.rendered);
    if let Some(v) = out.verilog {
        println!("{v}");
        match crate::vlog::parse(&v) {
            Ok(f) => match lookup_top::<num::BigUint>(&f, "u0", "top") {
                Ok(d) => println!("elaborated; lints {:?}", d.lints),
                Err(e) => println!("elab error {e}"),
            },
            Err(e) => println!("parse error {e}"),
        }
    }
    0
}
