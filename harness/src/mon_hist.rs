//! Monitors over hostile texts, pairs of texts, and histories.
use crate::canon::*;
use crate::entries::*;
use crate::fw::*;
use crate::gen::*;
use crate::layout::*;
use crate::mon_effort::*;
use crate::mon_text::*;
use crate::mutate::*;
use crate::refel::*;
use crate::rng::{hash64, Rng};
use crate::sx::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::collections::BTreeSet;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

pub fn any_text(ctx: &mut Ctx, r: &mut Rng) -> (NT, String) {
    let d = ctx.dict.clone();
    let nt = if r.chance(1, 3) { *r.pick(&[NT::Domain, NT::Problem]) } else { *r.pick(ALL_NT) };
    let mut k = if r.chance(1, 10) { knobs(ctx, r) } else { Knobs::swarm(r) };
    k.list = k.list.min(300);
    let mut g = Gen::new(r.fork(), k, &d);
    let seq = g.gen(nt);
    let style = *r.pick(STYLES);
    if seq.iter().map(|x| x.size()).sum::<usize>() > 20_000 {
        return (nt, "(".repeat(100));
    }
    let t = if r.chance(1, 2) {
        let (toks, _) = corrupt(&seq, r, &d);
        render(&toks, style, is_doc(nt), r).0
    } else {
        render(&tokens_of(&seq), style, is_doc(nt), r).0
    };
    (nt, t)
}
// ---------------------------------------------------------------- P15
pub fn soup(r: &mut Rng, d: &Dict) -> String {
    let n = match r.below(10) {
        0 => r.range(200, 3000),
        1..=3 => r.range(20, 200),
        _ => r.range(0, 20),
    };
    match r.below(6) {
        0 => (0..n).map(|_| any_char(r)).collect(),
        1 => {
            // Any bytes that form a string.
            let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            String::from_utf8_lossy(&b).into_owned()
        }
        2 => {
            let mut o = String::new();
            for _ in 0..n {
                o.push_str(&match r.below(6) {
                    0 => "(".to_string(),
                    1 => ")".to_string(),
                    2 => r.pick(KEYWORDS).to_string(),
                    3 if !d.names.is_empty() => r.pick(&d.names).clone(),
                    4 => hostile_number(r),
                    _ => r.pick(&["?x", "-", ":", "?", "=", ":parameters", ":effect", "#t", "?duration", ";", "\n", "either", "."]).to_string(),
                });
                if r.chance(3, 4) {
                    o.push(' ');
                }
            }
            o
        }
        3 => {
            let c = *r.pick(&['(', ')', ';', '\n', '\r', '-', '?', '9', '.', 'a', ' ', ':', 'é', '\u{1F600}', '0', '=', '<', '#', '\0']);
            let k = if c == '(' || c == ')' { (n * 3).min(200) } else { n * 3 };
            let mut s: String = std::iter::repeat(c).take(k).collect();
            if r.chance(1, 2) {
                s.push(any_char(r));
            }
            s
        }
        4 => {
            let p = r.pick(&["(and ", "(not ", "(or (p) ", "(f ", "(+ 1 ", "(forall (?x) ", "(when (p) ", "(always ", "(define (domain d) ", "(:action a ", "(at start ", "(preference p ", "((", "(- ", "(:init (", "(either ", ";\n(", "(= "]);
            p.repeat(n.min(120))
        }
        _ => {
            let k = r.range(1, 60);
            let mut s = hostile_number(r);
            for _ in 0..k {
                s.push(*r.pick(&['0', '9', '1', '.', '-', 'e', 'E', '+', '_']));
            }
            let c = *r.pick(&["@", "(within @ (p))", "(at @ (p))", "(= (f) @)", "(:length (:serial @))", "(:length (:parallel @))", "(hold-during @ @ (p))", "(= ?duration @)", "(+ @ @)", "(:metric minimize @)", "(* #t @)"]);
            c.replace('@', &s)
        }
    }
}
fn hostile(ctx: &mut Ctx, case: u64) {
    let mut r = ctx.rng();
    let d = ctx.dict.clone();
    let (nt, text, kind) = match r.below(10) {
        _ if case < LISTS.len() as u64 => {
            // More elements than small counters hold.
            let (nt, pre, el, post) = LISTS[case as usize];
            ctx.count("lists_of_70000_elements");
            (nt, format!("{}{}{}", pre, el.repeat(70_000), post), "huge")
        }
        0 | 1 => (*r.pick(ALL_NT), soup(&mut r, &d), "soup"),
        2 => {
            let (nt, t) = any_text(ctx, &mut r);
            (nt, t, "plain")
        }
        3 => {
            // Spliced.
            let (nt, a) = any_text(ctx, &mut r);
            let (_, b) = any_text(ctx, &mut r);
            let ca: Vec<char> = a.chars().collect();
            let cb: Vec<char> = b.chars().collect();
            let (i, j) = (r.below(ca.len() + 1), r.below(cb.len() + 1));
            (nt, ca[..i].iter().chain(&cb[j..]).collect(), "spliced")
        }
        4 if case % 97 == 1 => {
            // Huge.
            let (nt, pre, el, post) = *r.pick(LISTS);
            let n = r.range(2_000, 30_000);
            (nt, format!("{}{}{}", pre, el.repeat(n), post), "huge")
        }
        4 | 5 => {
            let (nt, t) = any_text(ctx, &mut r);
            // Truncated at any place.
            let c: Vec<char> = t.chars().collect();
            let i = r.below(c.len() + 1);
            (nt, c[..i].iter().collect(), "truncated")
        }
        6 => {
            let t = nest_text(&mut r, 60);
            (t.0, corrupt_text(&t.1, &mut r), "nested")
        }
        _ => {
            let (nt, t) = any_text(ctx, &mut r);
            (nt, corrupt_text(&t, &mut r), "corrupted")
        }
    };
    ctx.input(&text);
    ctx.saw(&text);
    ctx.count(&format!("kind:{}", kind));
    ctx.max("bytes", text.len() as u64);
    if !text.is_ascii() {
        ctx.count("texts_with_other_characters");
    }
    let few = if text.len() > 20_000 { 0 } else { 6 };
    let mut nts = vec![nt, NT::Domain, NT::Problem];
    for _ in 0..few {
        nts.push(*r.pick(ALL_NT));
    }
    for nt in nts {
        let res = catch_unwind(AssertUnwindSafe(|| {
            let e = entry(nt);
            let (o, h) = e.parse_held(&text);
            if let Some(h) = &h {
                if text.len() < 5_000 {
                    std::hint::black_box(h.dbg());
                }
                let d = h.dup();
                std::hint::black_box(d.eq(&**h));
            }
            drop(h);
            o
        }));
        ctx.count("parses");
        let o = match res {
            Ok(o) => o,
            Err(_) => Out::Panic("while cloning, comparing, printing or dropping the result".into()),
        };
        match &o {
            Out::Ok(..) => ctx.count("results"),
            Out::Err(..) => ctx.count("errors"),
            Out::Panic(m) => {
                let small = reduce_text(&text, |t| matches!(entry(nt).parse(t), Out::Panic(_)));
                ctx.violation(format!("panic:{:?}", nt), format!("{:?} panics: {}", nt, m), small);
            }
        }
        if let Out::Err("incomplete", _) = o {
            ctx.violation(format!("incomplete:{:?}", nt), "reports an incomplete input", text.clone());
        }
    }
    // From the middle of the text, as a located span.
    if !text.is_empty() && text.len() < 20_000 {
        let cs: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
        for _ in 0..2 {
            let at = *r.pick(&cs);
            let nt = *r.pick(ALL_NT);
            ctx.count("parses_from_the_middle");
            for o in [entry(nt).parse_at(&text, at).0, entry(nt).parse_value(&text[at..])] {
                if let Out::Panic(m) = o {
                    ctx.violation(format!("panic:{:?}", nt), format!("{:?} from offset {} panics: {}", nt, at, m), text[at..].to_string());
                }
            }
        }
    }
    if text.len() < 300 {
        ctx.sample(|| format!("{:?}: {:?}", nt, text));
    }
}
pub fn reduce_text(text: &str, bad: impl Fn(&str) -> bool) -> String {
    let mut cur: Vec<char> = text.chars().collect();
    let str = |c: &[char]| c.iter().collect::<String>();
    if !bad(text) || cur.len() > 100_000 {
        return text.to_string();
    }
    let mut budget = 2000;
    let mut n = cur.len() / 2;
    while n > 0 {
        let mut i = 0;
        while i < cur.len() {
            let mut t = cur.clone();
            t.drain(i..(i + n).min(cur.len()));
            budget -= 1;
            if budget == 0 {
                return str(&cur);
            }
            if bad(&str(&t)) {
                cur = t;
            } else {
                i += n;
            }
        }
        n /= 2;
    }
    str(&cur)
}
/// Child process: nested texts of a depth on a thread with the default stack of a main thread.
pub fn deep_child(depth: usize, stack_mb: usize, from: usize) {
    let all = deep_texts(depth);
    let h = std::thread::Builder::new()
        .stack_size(stack_mb << 20)
        .spawn(move || {
            use std::io::Write;
            let o = std::io::stdout();
            for (i, (nt, _, text)) in all.iter().enumerate().skip(from) {
                let _ = writeln!(o.lock(), "start {}", i);
                let ok = entry(*nt).run_only(text);
                let _ = writeln!(o.lock(), "done {} {}", i, ok);
            }
            let _ = writeln!(o.lock(), "end");
        })
        .unwrap();
    let _ = h.join();
}
/// Depth that every parser has to manage on an ordinary stack of 8 MB.
pub const SHALLOW: usize = 250;
pub const DEEP: usize = 100_000;
fn deep_probe(p: &'static Prop, exe: &Path, tot: &mut Total) {
    let kinds = deep_texts(2).len();
    for (depth, tag) in [(SHALLOW, "shallow"), (DEEP, "deep")] {
        let mut from = 0;
        let mut crashes = 0;
        while from < kinds {
            let out = Command::new(exe)
                .args(["deep", &depth.to_string(), "8", &from.to_string()])
                .stdin(Stdio::null())
                .stderr(Stdio::null())
                .output()
                .expect("child");
            let s = String::from_utf8_lossy(&out.stdout);
            let done = s.lines().filter(|l| l.starts_with("done ")).count() as u64;
            tot.count(&format!("nesting_{}_survived", tag), done);
            if s.lines().last() == Some("end") {
                break;
            }
            let last = s.lines().rev().find_map(|l| l.strip_prefix("start ")).and_then(|x| x.parse::<usize>().ok());
            let Some(i) = last else {
                tot.problems.push(format!("nesting probe gave no answer: {:?}", out.status));
                break;
            };
            let t = deep_texts(3).swap_remove(i);
            tot.count(&format!("nesting_{}_crashed", tag), 1);
            crashes += 1;
            if tag == "shallow" {
                tot.violation(p.id, format!("nesting:{:?}:{}", t.0, t.1), 0, format!("{} levels of {} end the process ({:?})", depth, t.1, out.status), format!("{} levels of: {}", depth, t.2));
            } else {
                tot.violation(p.id, "deep-nesting:overflow", 0, format!("{} levels of {} end the process ({:?})", depth, t.1, out.status), t.2);
            }
            from = i + 1;
            if crashes >= 3 {
                break;
            }
        }
    }
}
fn p15_post(p: &'static Prop, tier: Tier, seed: u64, exe: &Path, tot: &mut Total) {
    deep_probe(p, exe, tot);
    sanitized(p, tier, seed, "address", if tier == Tier::Quick { 6_000 } else { 150_000 }, tot);
    let (n, each, budget) = if tier == Tier::Quick { (16, 4, 40) } else { (200, 12, 200) };
    let runs = (0..n).map(|i| vec!["text".to_string(), (seed * 100_000 + i).to_string(), each.to_string()]).collect();
    interpreted(p, runs, 1, budget, tot);
}
/// Builds the harness with a sanitizer and runs part of the workload with it.
pub fn sanitized(p: &'static Prop, tier: Tier, seed: u64, which: &str, cases: u64, tot: &mut Total) {
    let vd = verif_dir();
    let target = vd.join("target").join(format!("san-{}", which));
    let mut c = Command::new("cargo");
    c.current_dir(vd.join("harness"))
        .args(["+nightly", "build", "--release", "--offline", "--target", "x86_64-unknown-linux-gnu"])
        .env("RUSTFLAGS", format!("-Zsanitizer={}", which))
        .env("CARGO_TARGET_DIR", &target)
        .stdin(Stdio::null());
    if which == "thread" {
        c.arg("-Zbuild-std");
    }
    let o = c.output();
    let ok = matches!(&o, Ok(o) if o.status.success());
    if !ok {
        // The other monitors still decide; the evidence says that this part is missing.
        let m = o.map(|o| String::from_utf8_lossy(&o.stderr).chars().rev().take(600).collect::<String>().chars().rev().collect::<String>()).unwrap_or_else(|e| e.to_string());
        println!("NOTE: the {} sanitizer build failed: {}", which, m);
        tot.extra.push((format!("{}_sanitizer", which), json(&format!("not built: {}", m))));
        return;
    }
    let exe = target.join("x86_64-unknown-linux-gnu/release/pddlmon");
    let mut sub = Total::default();
    let opts = "exitcode=66:halt_on_error=1:abort_on_error=0:detect_leaks=0:detect_stack_use_after_return=1".to_string();
    let envs = [
        ("ASAN_OPTIONS", opts.clone()),
        ("TSAN_OPTIONS", "exitcode=66:halt_on_error=1:report_thread_leaks=0".to_string()),
        ("PDDLMON_CASES", cases.to_string()),
        // Other cases than the plain run.
        ("PDDLMON_FIRST", "10000000".to_string()),
    ];
    run_workers(p, &exe, tier, seed, if tier == Tier::Quick { 60 } else { 150 }, &envs, &mut sub);
    tot.extra.push((
        format!("{}_sanitizer", which),
        format!("{{\"evaluations\": {}, \"distinct\": {}, \"cases\": {}, \"reports\": {}}}", sub.evals, sub.distinct.len(), sub.counts.get("cases_run").copied().unwrap_or(0), sub.viols.len()),
    ));
    tot.evals += sub.evals;
    tot.distinct.extend(sub.distinct);
    for v in sub.viols {
        tot.violation(p.id, v.sig, v.case, v.what, v.input);
    }
    tot.problems.extend(sub.problems.into_iter().map(|x| format!("[{} sanitizer] {}", which, x)));
}
/// Runs `harness_miri` in the undefined-behaviour interpreter: `runs` is the argument list of each run, `schedules` the number
/// of schedules the interpreter tries of each.
pub fn interpreted(p: &'static Prop, runs: Vec<Vec<String>>, schedules: u64, budget: u64, tot: &mut Total) {
    use std::io::Read;
    let vd = verif_dir();
    let command = |args: &[String], flags: &str| {
        let mut c = Command::new("cargo");
        c.current_dir(vd.join("harness_miri"))
            .args(["+nightly", "miri", "run", "--quiet", "--offline", "--"])
            .args(args)
            .env("MIRIFLAGS", flags)
            .env("CARGO_TARGET_DIR", vd.join("target/miri"))
            .env("XDG_CACHE_HOME", vd.join("target/miri-cache"))
            .env_remove("RUSTFLAGS")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        std::os::unix::process::CommandExt::process_group(&mut c, 0);
        c
    };
    /// Standard output, standard error, whether it ended in time.
    fn run(mut c: Command, limit: Duration) -> std::io::Result<(String, String, bool)> {
        let mut k = c.spawn()?;
        let (mut o, mut e) = (k.stdout.take().unwrap(), k.stderr.take().unwrap());
        let ho = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = o.read_to_end(&mut v);
            String::from_utf8_lossy(&v).into_owned()
        });
        let he = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = e.read_to_end(&mut v);
            String::from_utf8_lossy(&v).into_owned()
        });
        let start = Instant::now();
        let mut done = true;
        while k.try_wait()?.is_none() {
            if start.elapsed() > limit {
                done = false;
                unsafe { kill(-(k.id() as i32), 9) };
                let _ = k.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(50));
        }
        Ok((ho.join().unwrap(), he.join().unwrap(), done))
    }
    // No pointer-aliasing model: it is experimental, and a dependency (nom_locate) does not follow it.
    let flags = "-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks";
    let start = Instant::now();
    let warm = run(command(&["warm".into()], flags), Duration::from_secs(300));
    if !matches!(&warm, Ok((o, _, true)) if o.contains("WARM")) {
        let m = warm.map(|w| w.1.chars().rev().take(600).collect::<String>().chars().rev().collect::<String>()).unwrap_or_else(|e| e.to_string());
        println!("NOTE: the interpreter cannot be used: {}", m);
        tot.extra.push(("interpreter".into(), json(&format!("not available: {}", m))));
        return;
    }
    let warm_s = start.elapsed().as_secs_f64();
    let start = Instant::now();
    let (mut seen, mut cut, mut reports, mut unsupported) = (0u64, 0u64, 0u64, 0u64);
    let mut orders: BTreeSet<u64> = BTreeSet::new();
    let next = std::sync::Mutex::new(runs.iter());
    let results = std::sync::Mutex::new(vec![]);
    // The schedules of one run are spread over the processors by the interpreter.
    let wide = if schedules > 16 {
        2
    } else if schedules > 1 {
        1
    } else {
        8
    };
    std::thread::scope(|s| {
        for _ in 0..wide {
            s.spawn(|| loop {
                let Some(args) = next.lock().unwrap().next() else { break };
                let left = Duration::from_secs(budget).saturating_sub(start.elapsed());
                if left.is_zero() {
                    results.lock().unwrap().push((args.clone(), None));
                    continue;
                }
                let f = if schedules > 1 {
                    format!("{} -Zmiri-preemption-rate=0.05 -Zmiri-many-seeds=0..{} -Zmiri-many-seeds-keep-going", flags, schedules)
                } else {
                    flags.to_string()
                };
                let r = run(command(args, &f), left + Duration::from_secs(5));
                results.lock().unwrap().push((args.clone(), r.ok()));
            });
        }
    });
    for (args, r) in results.into_inner().unwrap() {
        let Some((out, err, done)) = r else {
            cut += 1;
            continue;
        };
        if !done {
            cut += 1;
        }
        for l in out.lines() {
            if let Some(x) = l.strip_prefix("SEEN ") {
                seen += 1;
                orders.insert(crate::rng::hash64(x.as_bytes()));
            } else if let Some(x) = l.strip_prefix("BAD ") {
                let mut f = x.splitn(3, '|');
                let (sig, what, input) = (f.next().unwrap_or(""), f.next().unwrap_or(""), f.next().unwrap_or(""));
                reports += 1;
                tot.violation(p.id, format!("interpreter:{}", sig), 0, what.to_string(), input.replace("\\n", "\n"));
            }
        }
        for l in err.lines().filter(|l| l.starts_with("error")) {
            let (sig, real) = if l.contains("Undefined Behavior") && l.contains("Data race") {
                ("data-race", true)
            } else if l.contains("Undefined Behavior") {
                ("undefined-behaviour", true)
            } else if l.contains("deadlock") {
                ("deadlock", true)
            } else if l.contains("abnormal termination") || l.contains("aborted execution") {
                ("abort", true)
            } else {
                ("", false)
            };
            if real {
                reports += 1;
                tot.violation(p.id, format!("interpreter:{}", sig), 0, l.to_string(), format!("harness_miri {}\n{}", args.join(" "), crate::canon::short(&err)));
            } else if l.contains("unsupported operation") {
                unsupported += 1;
            }
        }
    }
    tot.extra.push((
        "interpreter".into(),
        format!(
            "{{\"runs\": {}, \"schedules_each\": {}, \"executions_observed\": {}, \"distinct_executions\": {}, \"reports\": {}, \"unsupported\": {}, \"cut_short\": {}, \"setup_s\": {:.1}, \"wall_s\": {:.1}}}",
            runs.len(), schedules, seen, orders.len(), reports, unsupported, cut, warm_s, start.elapsed().as_secs_f64()
        ),
    ));
    println!("interpreter: {} executions observed ({} distinct), {} reports, {} runs cut short", seen, orders.len(), reports, cut);
    tot.evals += seen;
    tot.distinct.extend(orders);
}
// ---------------------------------------------------------------- P21
/// A change of one place that is still certainly valid; with its meaning.
fn variant(seq: &[Sx], nt: NT, r: &mut Rng, ctx: &mut Ctx) -> Option<(Vec<Sx>, C, &'static str)> {
    const GROUPS: &[&[&str]] = &[
        &["and", "or"], &["exists", "forall"], &["<", ">", "<=", ">=", "="], &["+", "*", "-", "/"], &["increase", "decrease", "assign", "scale-up", "scale-down"],
        &["always", "sometime", "at-most-once"], &["sometime-after", "sometime-before"], &["start", "end"], &["minimize", "maximize"], &[":serial", ":parallel"],
        &["hold-after", "within"], &[":typing", ":strips", ":adl", ":fluents", ":equality", ":constraints"], &["total-time", "total-cost"], &[":parameters", ":vars"],
    ];
    fn nodes(s: &[Sx], path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        for (i, x) in s.iter().enumerate() {
            path.push(i);
            out.push(path.clone());
            if let Sx::L(v) = x {
                nodes(v, path, out);
            }
            path.pop();
        }
    }
    fn at<'a>(s: &'a mut Vec<Sx>, p: &[usize]) -> &'a mut Vec<Sx> {
        let mut cur = s;
        for i in &p[..p.len() - 1] {
            cur = match &mut cur[*i] {
                Sx::L(v) => v,
                _ => unreachable!(),
            };
        }
        cur
    }
    let mut ps = vec![];
    nodes(seq, &mut vec![], &mut ps);
    if ps.is_empty() {
        return None;
    }
    for _ in 0..12 {
        let p = r.pick(&ps).clone();
        let mut s = seq.to_vec();
        let i = *p.last().unwrap();
        let v = at(&mut s, &p);
        let n = v.len();
        let kind = match (&v[i].clone(), r.below(8)) {
            (Sx::A(w), 0..=4) => {
                if let Some(g) = GROUPS.iter().find(|g| g.contains(&w.as_str())).filter(|_| r.chance(9, 10)) {
                    v[i] = a(*r.pick(g));
                    "operator"
                } else if is_num(w) {
                    v[i] = a(match r.below(4) {
                        0 => format!("{}1", w),
                        1 => format!("1{}", w),
                        2 if !w.contains('.') => format!("{}.5", w),
                        _ => {
                            let mut c: Vec<char> = w.chars().collect();
                            let j = r.below(c.len());
                            if c[j].is_ascii_digit() {
                                c[j] = *r.pick(&['0', '1', '5', '9']);
                            }
                            c.into_iter().collect()
                        }
                    });
                    "number"
                } else {
                    let mut c: Vec<char> = w.chars().collect();
                    let j = r.below(c.len());
                    match r.below(6) {
                        0 => c.push(*r.pick(&['a', '-', '_', '0'])),
                        1 if c[j].is_ascii_lowercase() => c[j] = c[j].to_ascii_uppercase(),
                        1 => c[j] = c[j].to_ascii_lowercase(),
                        2 if c.len() > 1 => {
                            c.remove(j);
                        }
                        3 if c.len() > 2 => {
                            let k = c.len() - 1;
                            c.swap(k, k - 1);
                        }
                        4 if c[0] == '?' => {
                            c.remove(0);
                        }
                        4 => c.insert(0, '?'),
                        _ => {
                            let k = c.len() - 1;
                            c[k] = *r.pick(&['z', 'Z', '-', '7']);
                        }
                    }
                    v[i] = a(c.into_iter().collect::<String>());
                    "name"
                }
            }
            (_, 5) if n > 1 => {
                let j = if i + 1 < n { i + 1 } else { i - 1 };
                v.swap(i, j);
                "order"
            }
            (_, 6) => {
                v.remove(i);
                "missing"
            }
            (x, 7) => {
                let x = x.clone();
                v.insert(i, x);
                "repeated"
            }
            (Sx::L(w), 0) if w.len() == 2 && w[0] == a("not") => {
                v[i] = w[1].clone();
                "negation"
            }
            (x @ Sx::L(_), 0 | 1) => {
                v[i] = l(vec![a("not"), x.clone()]);
                "negation"
            }
            (x @ Sx::L(_), 2) => {
                v[i] = l(vec![a("and"), x.clone()]);
                "wrapped"
            }
            (Sx::L(w), 3) if w.len() > 1 => {
                let mut w = w.clone();
                let k = r.range(1, w.len() - 1);
                let j = r.range(1, w.len() - 1);
                w.swap(k, j);
                v[i] = Sx::L(w);
                "order"
            }
            (Sx::L(w), 4) if w.len() > 1 => {
                let mut w = w.clone();
                w.pop();
                v[i] = Sx::L(w);
                "missing"
            }
            _ => continue,
        };
        if s == seq {
            continue;
        }
        if let Ok(c) = elab(nt, &s) {
            return Some((s, c, kind));
        }
        ctx.count("variants_not_valid");
    }
    None
}
fn equality(ctx: &mut Ctx, _case: u64) {
    let mut r = ctx.rng();
    let nt = if r.chance(1, 4) { *r.pick(&[NT::Domain, NT::Problem]) } else { *r.pick(ALL_NT) };
    let mut k = knobs(ctx, &mut r);
    k.list = k.list.min(130);
    let Some((seq, want)) = valid(ctx, &mut r, &k, nt) else { return };
    let e = entry(nt);
    let text = tree_text(&seq);
    ctx.input(&text);
    let (_, Some(v)) = e.parse_held(&text) else {
        ctx.count("not_accepted");
        return;
    };
    if v.c() != want {
        // Another property's business.
        ctx.count("not_faithful");
        return;
    }
    let both = |ctx: &mut Ctx, x: &dyn Held, y: &dyn Held, same: bool, sig: String, what: &str, input: String| {
        ctx.count(if same { "compared_same" } else { "compared_different" });
        let got = (x.eq(y), y.eq(x), x.ne(y), y.ne(x));
        if got != (same, same, !same, !same) {
            ctx.violation(sig, format!("{}: ==, == swapped, !=, != swapped give {:?}", what, got), input);
            return;
        }
        for (how, got) in x.compare(y).into_iter().chain(y.compare(x)) {
            ctx.count("compared_otherwise");
            if got != same {
                ctx.violation(format!("{}:{}", how, sig), format!("{}: {} gives {}", what, how, got), input);
                return;
            }
        }
    };
    ctx.saw(&text);
    both(ctx, &*v, &*v, true, format!("reflexive:{:?}", nt), "a value and itself", text.clone());
    let dup = v.dup();
    both(ctx, &*v, &*dup, true, format!("clone:{:?}", nt), "a value and its clone", text.clone());
    if dup.c() != want || dup.dbg() != v.dbg() {
        ctx.violation(format!("clone-content:{:?}", nt), format!("the clone has another content: {:?}", diff(&want, &dup.c())), text.clone());
    }
    let assign = |ctx: &mut Ctx, x: &dyn Held, y: &dyn Held, input: &str| {
        ctx.count("assigned");
        match x.assigned(y) {
            Some(a) => {
                both(ctx, &*a, y, true, format!("clone_from:{:?}", nt), "a value and what it was assigned to", input.to_string());
                if a.c() != y.c() || a.dbg() != y.dbg() {
                    ctx.violation(format!("clone_from-content:{:?}", nt), format!("clone_from gives another content: {:?}", diff(&y.c(), &a.c())), input.to_string());
                }
            }
            None => ctx.violation(format!("clone_from:{:?}", nt), "assigning with clone_from gives different values alone and in a list", input.to_string()),
        }
    };
    assign(ctx, &*v, &*v, &text);
    let w = v.views();
    ctx.add("elements_assigned", w.seen.get("elements_assigned").copied().unwrap_or(0));
    for (sig, what) in w.cloned {
        ctx.violation(sig, what, text.clone());
    }
    for _ in 0..2 {
        let st = *r.pick(STYLES);
        let (t2, _) = render(&tokens_of(&seq), st, is_doc(nt), &mut r);
        ctx.input(&t2);
        if let (_, Some(w)) = e.parse_held(&t2) {
            both(ctx, &*v, &*w, true, format!("layout:{:?}", nt), "the same text in another layout", format!("{}\n----\n{}", text, t2));
        }
    }
    for _ in 0..6 {
        let Some((s2, c2, kind)) = variant(&seq, nt, &mut r, ctx) else { continue };
        let t2 = tree_text(&s2);
        ctx.input(&t2);
        let (_, Some(w)) = e.parse_held(&t2) else { continue };
        if w.c() != c2 {
            continue;
        }
        let same = c2 == want;
        if same {
            // The same content written differently.
            ctx.count("variants_with_the_same_content");
            continue;
        }
        ctx.saw(&format!("{}|{}", text, t2));
        ctx.count(&format!("variant:{}", kind));
        both(ctx, &*v, &*w, false, format!("{}:{:?}", kind, nt), &format!("texts that differ in one {} ({})", kind, diff(&want, &c2).unwrap_or_default()), format!("{}\n----\n{}", text, t2));
        both(ctx, &*dup, &*w, false, format!("{}:{:?}", kind, nt), "a clone and a different value", format!("{}\n----\n{}", text, t2));
        let pair = format!("{}\n----\n{}", text, t2);
        assign(ctx, &*v, &*w, &pair);
        assign(ctx, &*w, &*v, &pair);
    }
    if v.c() != want || dup.c() != want {
        ctx.violation(format!("altered:{:?}", nt), "comparing and cloning altered a value", text.clone());
    }
    ctx.count(&format!("construct:{:?}", nt));
    ctx.sample(|| text.clone());
}
// ---------------------------------------------------------------- P27
pub fn print_of(o: &Out) -> u64 {
    match o {
        Out::Ok(c, l) => hash64(format!("ok {} {:?}", c, l).as_bytes()),
        Out::Err(k, e) => hash64(format!("err {} {:?}", k, e).as_bytes()),
        Out::Panic(m) => hash64(format!("panic {}", m).as_bytes()),
    }
}
/// One line per text: what its parse gives.
pub fn digest(texts: &[(NT, String)], order: &[usize]) -> Vec<(usize, u64)> {
    order.iter().map(|&i| (i, print_full(texts[i].0, &texts[i].1))).collect()
}
pub fn print_full(nt: NT, t: &str) -> u64 {
    let (o, h) = entry(nt).parse_held(t);
    print_of(&o) ^ h.map_or(0, |h| hash64(h.dbg().as_bytes()))
}
pub fn write_work(f: &Path, texts: &[(NT, String)]) {
    let mut b = String::new();
    for (nt, t) in texts {
        b.push_str(&format!("{:?} {}\n{}\n", nt, t.len(), t));
    }
    std::fs::write(f, b).unwrap();
}
pub fn read_work(f: &Path) -> Vec<(NT, String)> {
    let b = std::fs::read_to_string(f).unwrap();
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        let e = at + b[at..].find('\n').unwrap();
        let (nt, n) = b[at..e].split_once(' ').unwrap();
        let n: usize = n.parse().unwrap();
        let nt = *ALL_NT.iter().find(|x| format!("{:?}", x) == nt).unwrap();
        v.push((nt, b[e + 1..e + 1 + n].to_string()));
        at = e + 1 + n + 1;
    }
    v
}
/// Another text of the same length.
fn other_letters(t: &str, r: &mut Rng) -> String {
    let n = *r.pick(&[1, 2, 8]);
    t.chars()
        .map(|c| match c {
            'a'..='z' | '0'..='9' if r.chance(1, n * 4) => {
                if c.is_ascii_digit() {
                    *r.pick(&['1', '5', '9'])
                } else {
                    (b'a' + r.below(26) as u8) as char
                }
            }
            c => c,
        })
        .collect()
}
/// One construct, over and over: more often than a counter of 16 bits can hold.
fn marathon(ctx: &mut Ctx, nt: NT) {
    let mut r = ctx.rng();
    let e = entry(nt);
    let d = ctx.dict.clone();
    let (mut good, mut bad): (Vec<String>, Vec<String>) = (vec![], vec![]);
    for w in ["", "(", "%", "(either", "(and (", "- (", "?", ":"] {
        if !e.run_only(w) {
            bad.push(w.into());
        }
    }
    bad.truncate(4);
    for _ in 0..200 {
        let mut k = Knobs::small();
        k.fuel = 12;
        let Some((seq, _)) = valid(ctx, &mut r, &k, nt) else { continue };
        let t = tree_text(&seq);
        if t.len() > 160 {
            continue;
        }
        let (x, _) = crate::mutate::corrupt(&seq, &mut r, &d);
        let x = render(&x, Style::Single, false, &mut r).0;
        let c = corrupt_text(&t, &mut r);
        for b in [x, c] {
            if bad.len() < 10 && b.len() < 200 && !e.run_only(&b) {
                bad.push(b);
            }
        }
        if good.len() < 6 && e.run_only(&t) {
            good.push(t);
        }
    }
    let all: Vec<&String> = good.iter().chain(&bad).collect();
    let before: Vec<u64> = all.iter().map(|t| print_full(nt, t)).collect();
    ctx.input(&format!("{:?}, 66000 times each: {:?}", nt, all));
    ctx.saw(&format!("{:?}", all));
    for (set, ok) in [(&bad, false), (&good, true), (&bad, false)] {
        for i in 0..66_000usize {
            if set.is_empty() {
                break;
            }
            let t = &set[i % set.len()];
            if e.run_only(t) != ok {
                return ctx.violation(format!("marathon:{:?}", nt), format!("after {} parses of {:?} the text is {}", i, nt, if ok { "refused" } else { "accepted" }), t.clone());
            }
            if i % 6_600 == 6_599 || i == 65_999 {
                for (k, t) in all.iter().enumerate() {
                    ctx.count("marathon_rechecked");
                    if print_full(nt, t) != before[k] {
                        return ctx.violation(format!("marathon:{:?}", nt), format!("after {} parses of {:?} the result differs from the first: {}", i, nt, e.parse(t).brief()), t.to_string());
                    }
                }
            }
        }
        ctx.add(if ok { "marathon_accepted" } else { "marathon_refused" }, if set.is_empty() { 0 } else { 66_000 });
    }
}
fn history(ctx: &mut Ctx, case: u64) {
    if let Some(nt) = ALL_NT.get(case as usize) {
        return marathon(ctx, *nt);
    }
    let mut r = ctx.rng();
    // In a thread of its own for part of the cases: fresh thread state.
    let n = r.range(3, 24);
    let mut texts: Vec<(NT, String)> = vec![];
    for _ in 0..n {
        let x = match r.below(8) {
            0 => {
                let d = ctx.dict.clone();
                (*r.pick(ALL_NT), soup(&mut r, &d))
            }
            1 => nest_text(&mut r, 20),
            2 if !texts.is_empty() => {
                // Almost the same as before.
                let (nt, t) = r.pick(&texts).clone();
                (nt, corrupt_text(&t, &mut r))
            }
            _ => any_text(ctx, &mut r),
        };
        if x.1.len() < 20_000 {
            texts.push(x);
        }
    }
    if texts.is_empty() {
        return;
    }
    // One place in memory, holding one text after the other.
    let mut buffer = String::with_capacity(texts.iter().map(|x| x.1.len()).max().unwrap_or(0) + 64);
    for _ in 0..3 {
        let (nt, t) = r.pick(&texts).clone();
        let full = t.len() + r.below(20);
        for round in 0..4 {
            // Same length, other letters or another text.
            let mut u = if round == 0 { t.clone() } else { other_letters(&t, &mut r) };
            if round == 3 {
                if let Some(x) = texts.iter().find(|x| x.0 == nt && x.1 != t && x.1.len() <= full) {
                    u = x.1.clone();
                }
            }
            while u.len() < full {
                u.push(' ');
            }
            buffer.clear();
            buffer.push_str(&u);
            ctx.input(&u);
            let (a, h) = entry(nt).parse_held(&buffer);
            let (b, g) = entry(nt).parse_held(&u);
            ctx.count("buffer_reused");
            if a != b || h.map(|h| h.dbg()) != g.map(|h| h.dbg()) {
                ctx.violation(format!("buffer:{:?}", nt), format!("read from a reused buffer: {}, from another place: {}", a.brief(), b.brief()), u);
                return;
            }
        }
    }
    let mut firsts: Vec<Option<(Out, String)>> = vec![None; texts.len()];
    let mut live: Vec<(usize, Boxed)> = vec![];
    let steps = r.range(10, 80);
    let bad = |ctx: &mut Ctx, i: usize, how: &str, a: &Out, b: &Out| {
        ctx.violation(format!("{}:{:?}", how, texts[i].0), format!("{}: first {}, later {}", how, a.brief(), b.brief()), texts[i].1.clone());
    };
    for _ in 0..steps {
        match r.below(12) {
            0 if !live.is_empty() => {
                let k = r.below(live.len());
                live.swap_remove(k);
                ctx.count("dropped");
            }
            1 => {
                for _ in 0..r.range(1, 200) {
                    std::hint::black_box(pddl::Name::new(format!("h{}-{}", case, r.next() % 100_000)));
                }
                ctx.count("names_created_between");
            }
            2 if !live.is_empty() => {
                // Operations on earlier results.
                let (a, b) = (r.below(live.len()), r.below(live.len()));
                let d = live[a].1.dup();
                std::hint::black_box((d.eq(&*live[b].1), d.dbg().len()));
                if r.chance(1, 2) {
                    let i = live[a].0;
                    live.push((i, d));
                }
            }
            3 => live.clear(),
            _ => {
                let i = r.below(texts.len());
                ctx.input(&texts[i].1);
                let (o, h) = entry(texts[i].0).parse_held(&texts[i].1);
                let dbg = h.as_ref().map_or(String::new(), |h| h.dbg());
                ctx.count("parses");
                match &firsts[i] {
                    None => firsts[i] = Some((o, dbg)),
                    Some((f, d)) => {
                        ctx.count("repeated");
                        if *f != o || *d != dbg {
                            bad(ctx, i, "repeated", f, &o);
                        }
                    }
                }
                if let Some(h) = h {
                    live.push((i, h));
                }
            }
        }
    }
    // Earlier results are as they were.
    for (i, h) in &live {
        if let Some((f, d)) = &firsts[*i] {
            ctx.count("earlier_results_checked");
            if f.value() != Some(&h.c()) || *d != h.dbg() {
                ctx.violation(format!("changed:{:?}", texts[*i].0), "an earlier result changed", texts[*i].1.clone());
            }
        }
    }
    drop(live);
    // After all were dropped; in another thread.
    let again: Vec<(Out, String)> = {
        let ts = texts.clone();
        let f = move || {
            ts.iter()
                .map(|(nt, t)| {
                    let (o, h) = entry(*nt).parse_held(t);
                    (o, h.map_or(String::new(), |h| h.dbg()))
                })
                .collect::<Vec<_>>()
        };
        std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join().unwrap()
    };
    for (i, (o, d)) in again.iter().enumerate() {
        if let Some((f, d0)) = &firsts[i] {
            ctx.count("other_thread_checked");
            if f != o || d0 != d {
                bad(ctx, i, "other-thread", f, o);
            }
        }
    }
    // In another process, in another order.
    if case % 8 == 0 {
        let dir = verif_dir().join("target/run");
        let f = dir.join(format!("work-{}-{}", std::process::id(), case));
        write_work(&f, &texts);
        let mut order: Vec<usize> = (0..texts.len()).collect();
        r.shuffle(&mut order);
        let alone = r.chance(1, 4);
        let arg = |o: &[usize]| o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let runs: Vec<Vec<usize>> = if alone { order.iter().take(4).map(|x| vec![*x]).collect() } else { vec![order] };
        for o in runs {
            let out = Command::new(std::env::current_exe().unwrap()).args(["digest", f.to_str().unwrap(), &arg(&o)]).stdin(Stdio::null()).stderr(Stdio::null()).output();
            let Ok(out) = out else { continue };
            for line in String::from_utf8_lossy(&out.stdout).lines() {
                let Some((i, h)) = line.split_once(' ') else { continue };
                let (Ok(i), Ok(h)) = (i.parse::<usize>(), h.parse::<u64>()) else { continue };
                if let Some((f, d)) = &firsts[i] {
                    ctx.count("other_process_checked");
                    if again[i].0 == *f && print_of(f) ^ (if f.value().is_some() { hash64(d.as_bytes()) } else { 0 }) != h {
                        ctx.violation(format!("other-process:{:?}", texts[i].0), "another process reads this text differently", texts[i].1.clone());
                    }
                }
            }
        }
        let _ = std::fs::remove_file(&f);
    }
    ctx.saw(&texts.iter().map(|t| t.1.as_str()).collect::<Vec<_>>().join("|"));
    ctx.sample(|| format!("{} texts, {} steps, e.g. {}", texts.len(), steps, texts[0].1));
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P15",
            rule: "a hostile text (character soup, token soup, corrupted, truncated, spliced, huge or nested document) given to 9 parsers; then a part under AddressSanitizer and nesting probes in processes of their own",
            quick: 40_000,
            thorough: 3_000_000,
            case: hostile,
            floors: &[("parses", 200_000), ("results", 10_000), ("errors", 100_000), ("kind:corrupted", 8_000), ("kind:truncated", 3_000), ("kind:huge", 20), ("lists_of_70000_elements", 60), ("texts_with_other_characters", 3_000), ("parses_from_the_middle", 40_000), ("nesting_shallow_survived", 150)],
            assumptions: &["overflow checks and debug assertions are on in the monitored build", "nesting up to 250 levels is asserted on a stack of 8 MB; far deeper nesting is a listed finding"],
            stack: 256,
            stall_is_violation: true,
            post: Some(p15_post),
            ..BASE
        },
        Prop {
            id: "P21",
            rule: "a pair of certainly valid texts that differ in one spot, or only in layout; distinct by both texts",
            quick: 40_000,
            thorough: 1_500_000,
            case: equality,
            floors: &[("compared_same", 100_000), ("compared_different", 100_000), ("variant:name", 20_000), ("variant:operator", 3_000), ("variant:number", 3_000), ("variant:order", 3_000), ("variant:missing", 2_000), ("variant:repeated", 2_000)],
            assumptions: &["only pairs both read faithfully according to the reference elaborator are compared"],
            ..BASE
        },
        Prop {
            id: "P27",
            rule: "every construct parsed 66,000 times from accepted and 132,000 times from refused texts; a history: parses of valid and broken texts repeated in random order, with results held or dropped and names created between; then another thread and process",
            quick: 4_000,
            thorough: 100_000,
            case: history,
            floors: &[("marathon_refused", 66_000 * 2 * 65), ("marathon_accepted", 66_000 * 70), ("buffer_reused", 40_000), ("parses", 50_000), ("repeated", 20_000), ("earlier_results_checked", 10_000), ("other_thread_checked", 20_000), ("other_process_checked", 2_000)],
            assumptions: &["equal canonical form, location and debug print identify a result"],
            stack: 256,
            ..BASE
        },
    ]
}
