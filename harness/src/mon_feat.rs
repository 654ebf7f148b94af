//! Monitor of the feature configurations: the same workload in builds with and without name
//! interning, and values built in code in all four configurations.
use crate::canon::*;
use crate::entries::*;
use crate::fw::*;
use crate::mon_effort::*;
use crate::mon_hist::*;
use crate::mutate::*;
use crate::refel::*;
use crate::rng::{hash64, Rng};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn record() -> PathBuf {
    std::env::var_os("PDDLMON_RECORD").map(PathBuf::from).unwrap_or_else(|| verif_dir().join("target/run/record"))
}
fn texts(ctx: &mut Ctx, r: &mut Rng) -> Vec<(NT, String)> {
    let mut v: Vec<(NT, String)> = vec![];
    for _ in 0..r.range(1, 6) {
        let x = match r.below(8) {
            0 => {
                let d = ctx.dict.clone();
                (*r.pick(ALL_NT), soup(r, &d))
            }
            1 => nest_text(r, 20),
            2 if !v.is_empty() => {
                let (nt, t): (NT, String) = r.pick(&v).clone();
                (nt, corrupt_text(&t, r))
            }
            _ => any_text(ctx, r),
        };
        if x.1.len() < 20_000 {
            v.push(x);
        }
    }
    v
}
fn case(ctx: &mut Ctx, case: u64) {
    let mut r = ctx.rng();
    let ts = texts(ctx, &mut r);
    let mut line = format!("{}", case);
    for (nt, t) in &ts {
        ctx.input(t);
        let (o, h) = entry(*nt).parse_held(t);
        let w = h.as_ref().map(|h| h.views());
        ctx.saw(&format!("{:?}{}", nt, t));
        ctx.count("parses");
        ctx.count(match &o {
            Out::Ok(..) => "results",
            Out::Err(..) => "errors",
            Out::Panic(_) => "panics",
        });
        if let Some(h) = &h {
            let (d, held) = (h.dup(), entry(*nt).parse_held(t).1);
            let same = (h.eq(&*d), d.ne(&**h), held.as_ref().map(|x| x.eq(&**h)));
            line.push(' ');
            line.push_str(&format!("{:?}", same).replace(' ', ""));
        }
        let bad: Vec<String> = w.map_or(vec![], |w| w.bad.into_iter().map(|b| b.1).collect());
        if ctx.verbose {
            println!("{:?} {}\n  {}\n  {:?}", nt, short(t), o.brief(), bad);
        }
        line.push_str(&format!(" {:x}", print_of(&o) ^ h.map_or(0, |h| hash64(h.dbg().as_bytes())) ^ hash64(bad.join(",").as_bytes())));
    }
    line.push('\n');
    let dir = record();
    let _ = std::fs::create_dir_all(&dir);
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(dir.join(std::process::id().to_string())) {
        let _ = f.write_all(line.as_bytes());
    }
    ctx.sample(|| ts.first().map(|x| x.1.clone()).unwrap_or_default());
}
fn collect(dir: &Path) -> BTreeMap<u64, String> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        for l in std::fs::read_to_string(e.path()).unwrap_or_default().lines() {
            if let Some((c, h)) = l.split_once(' ') {
                if let Ok(c) = c.parse() {
                    m.insert(c, h.to_string());
                }
            }
        }
    }
    m
}
fn build(dir: &str, target: &Path, features: &[&str]) -> std::io::Result<std::process::Output> {
    Command::new("cargo")
        .current_dir(verif_dir().join(dir))
        .args(["build", "--release", "--offline", "--no-default-features", "--features", &features.join(",")])
        .env("CARGO_TARGET_DIR", target)
        .stdin(Stdio::null())
        .output()
}
const CONFIGS: &[(&str, &[&str])] = &[("none", &[]), ("parser", &["parser"]), ("interning", &["interning"]), ("both", &["parser", "interning"])];

fn post(p: &'static Prop, tier: Tier, seed: u64, _exe: &Path, tot: &mut Total) {
    let with = collect(&record());
    let _ = std::fs::remove_dir_all(record());
    let t = verif_dir().join("target");
    let plain = t.join("nointern");
    // All builds at once.
    let mut outs: Vec<(String, std::io::Result<std::process::Output>)> = vec![];
    std::thread::scope(|s| {
        let mut hs = vec![];
        {
            let plain = plain.clone();
            hs.push(("monitors without interning".to_string(), s.spawn(move || build("harness", &plain, &[]))));
        }
        for (n, f) in CONFIGS {
            let d = t.join(format!("api-{}", n));
            hs.push((format!("api {}", n), s.spawn(move || build("harness_api", &d, f))));
        }
        for (n, h) in hs {
            outs.push((n, h.join().unwrap()));
        }
    });
    for (n, o) in &outs {
        match o {
            Ok(o) if o.status.success() => tot.count("configurations_built", 1),
            Ok(o) => {
                let e = String::from_utf8_lossy(&o.stderr).into_owned();
                if e.contains("could not compile `pddl`") {
                    let first = e.lines().filter(|l| l.starts_with("error") || l.contains("-->")).take(4).collect::<Vec<_>>().join("; ");
                    tot.violation(p.id, format!("build:{}", n), 0, format!("the crate does not build in the configuration of {}: {}", n, first), e);
                } else {
                    tot.problems.push(format!("build of {} failed: {}", n, e.chars().rev().take(600).collect::<String>().chars().rev().collect::<String>()));
                }
            }
            Err(e) => tot.problems.push(format!("build of {}: {}", n, e)),
        }
    }
    if !tot.viols.is_empty() || !tot.problems.is_empty() {
        return;
    }
    // The same cases without interning.
    let rec = t.join("run").join(format!("rec-{}-plain", std::process::id()));
    let mut sub = Total::default();
    let secs = if tier == Tier::Quick { 150 } else { 600 };
    run_workers(p, &plain.join("release/pddlmon"), tier, seed, secs, &[("PDDLMON_RECORD", rec.to_string_lossy().into_owned())], &mut sub);
    let without = collect(&rec);
    let _ = std::fs::remove_dir_all(&rec);
    for v in sub.viols {
        tot.violation(p.id, format!("without-interning:{}", v.sig), v.case, v.what, v.input);
    }
    tot.problems.extend(sub.problems);
    let mut differ = vec![];
    for (c, h) in &with {
        if let Some(g) = without.get(c) {
            tot.count("cases_compared", 1);
            if g != h {
                differ.push(*c);
            }
        }
    }
    if let Some(&c) = differ.first() {
        let mut ctx = Ctx::new(p.id, tier, seed);
        ctx.case = c;
        let mut r = ctx.rng();
        let ts = texts(&mut ctx, &mut r);
        let all = ts.iter().map(|(n, t)| format!("{:?}: {}", n, t)).collect::<Vec<_>>().join("\n----\n");
        tot.violation(p.id, "parse-differs", c, format!("{} of {} cases differ with and without interning: {} / {}", differ.len(), with.len(), with[&c], without[&c]), all);
    }
    // Values built in code.
    let n: u64 = if tier == Tier::Quick { 24_000 } else { 600_000 };
    let mut logs: Vec<(&str, Vec<String>)> = vec![];
    std::thread::scope(|s| {
        let mut hs = vec![];
        for (name, _) in CONFIGS {
            for part in 0..2u64 {
                let exe = t.join(format!("api-{}", name)).join("release/pddlapi");
                hs.push((*name, s.spawn(move || Command::new(exe).args([seed.to_string(), (part * n / 2).to_string(), ((part + 1) * n / 2).to_string()]).stdin(Stdio::null()).output())));
            }
        }
        for (name, h) in hs {
            let o = h.join().unwrap();
            let (ok, text, err) = match o {
                Ok(o) => (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned()),
                Err(e) => (false, String::new(), e.to_string()),
            };
            if !ok {
                let tail: String = err.chars().take(600).collect();
                tot.violation(p.id, format!("api-run:{}", name), 0, format!("building values ends abnormally in the configuration {}: {}", name, tail), text.lines().last().unwrap_or("").to_string());
            }
            let lines: Vec<String> = text.lines().map(|x| x.to_string()).collect();
            match logs.iter_mut().find(|l| l.0 == name) {
                Some(l) => l.1.extend(lines),
                None => logs.push((name, lines)),
            }
        }
    });
    for (name, l) in &logs {
        tot.count("values_built_in_code", l.len() as u64);
        for x in l {
            let fine = if x.contains(" names=") { !x.contains("WRONG") } else { x.contains("faithful=true same=truetruefalse clone=true bad={}") };
            if !fine {
                tot.violation(p.id, format!("api-wrong:{}", name), 0, format!("in the configuration {}: {}", name, x), x.clone());
            }
        }
    }
    for (name, l) in &logs[1..] {
        let i = l.iter().zip(&logs[0].1).position(|(a, b)| a != b).or_else(|| (l.len() != logs[0].1.len()).then(|| l.len().min(logs[0].1.len())));
        tot.count("api_logs_compared", 1);
        if let Some(i) = i {
            let get = |v: &Vec<String>| v.get(i).cloned().unwrap_or_default();
            tot.violation(p.id, format!("api-differs:{}", name), 0, format!("configuration {} gives {:?}, configuration {} gives {:?}", logs[0].0, get(&logs[0].1), name, get(l)), get(l));
        }
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P26",
        rule: "a group of texts parsed in builds with and without interning (results, remainders, error locations and debug prints compared case by case); values built in code in four configurations; distinct by text",
        quick: 16_000,
        thorough: 400_000,
        case,
        floors: &[("parses", 30_000), ("results", 10_000), ("errors", 10_000), ("configurations_built", 5), ("cases_compared", 15_000), ("values_built_in_code", 80_000), ("api_logs_compared", 3)],
        assumptions: &["equal canonical form, locations and debug print identify a result"],
        stack: 256,
        post: Some(post),
        ..BASE
    }]
}
