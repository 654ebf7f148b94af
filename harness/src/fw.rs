//! Check framework: worker processes run cases; the parent collects what the monitors observed.
use crate::gen::Dict;
use crate::rng::{hash64, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub case: u64,
    pub what: String,
    pub input: String,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: fn(&mut Ctx, u64),
    /// Minimum of each counter (quick tier, full run); a run below is inconclusive.
    pub floors: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
    /// Stack of the thread that runs cases, in MB.
    pub stack: usize,
    /// A crash of a worker (abort, signal) or a stall is a violation, not just inconclusive.
    pub crash_is_violation: bool,
    pub stall_is_violation: bool,
    pub workers: usize,
    /// Further observations after the workers (other builds, other processes).
    pub post: Option<fn(&'static Prop, Tier, u64, &Path, &mut Total)>,
}
pub const BASE: Prop = Prop {
    id: "",
    rule: "",
    quick: 0,
    thorough: 0,
    case: |_, _| {},
    floors: &[],
    assumptions: &[],
    stack: 64,
    crash_is_violation: true,
    stall_is_violation: false,
    workers: 8,
    post: None,
};
pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub case: u64,
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub known: Vec<(String, String)>,
    pub dict: Arc<Dict>,
    cur: Option<std::fs::File>,
    /// Where a violation is noted before it is reduced, and other workers see that there is one.
    found: Option<PathBuf>,
    pub verbose: bool,
    pub hb: Arc<AtomicU64>,
}
impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, seed: u64) -> Ctx {
        Ctx {
            prop,
            tier,
            seed,
            case: 0,
            evals: 0,
            counts: BTreeMap::new(),
            maxes: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            viols: vec![],
            known: vec![],
            dict: Arc::new(Dict::harvest()),
            cur: None,
            found: None,
            verbose: false,
            hb: Arc::new(AtomicU64::new(0)),
        }
    }
    pub fn rng(&self) -> Rng {
        Rng::of(&[self.prop, &self.seed.to_string()], self.case)
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.maxes.entry(k.to_string()).or_insert(0);
        *v = (*v).max(n);
    }
    /// One evaluation of the oracle, on a case with this content.
    pub fn saw(&mut self, content: &str) {
        self.evals += 1;
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(hash64(content.as_bytes()));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let x = s();
            self.samples.push(crate::canon::short(&x));
        }
    }
    /// Remembers the input about to be processed, for the case that the process dies.
    pub fn input(&mut self, text: &str) {
        self.hb.fetch_add(1, Ordering::Relaxed);
        if let Some(f) = &self.cur {
            let n = text.len().min(1 << 20) as u64;
            let mut b = Vec::with_capacity(16 + n as usize);
            b.extend_from_slice(&self.case.to_le_bytes());
            b.extend_from_slice(&n.to_le_bytes());
            b.extend_from_slice(&text.as_bytes()[..n as usize]);
            let _ = f.write_at(&b, 0);
        }
        if self.verbose {
            eprintln!("input: {}", crate::canon::short(text));
        }
    }
    /// Notes a violation that is about to be reduced, in case the worker does not get to the end.
    pub fn found(&mut self, sig: &str, what: &str, input: &str) {
        if known(self.prop).iter().any(|(s, _)| s == sig) {
            return;
        }
        if let Some(p) = self.found.take() {
            let _ = std::fs::write(p, format!("V {}\t{}\t{}\t{}\n", esc(sig), self.case, esc(what), esc(input)));
        }
    }
    pub fn violation(&mut self, sig: impl Into<String>, what: impl Into<String>, input: impl Into<String>) {
        let v = Viol { sig: sig.into(), case: self.case, what: what.into(), input: input.into() };
        if self.viols.iter().any(|w| w.sig == v.sig) || known(self.prop).iter().any(|(s, _)| *s == v.sig && self.known.iter().any(|(k, _)| k == s)) {
            self.count("violations_seen");
            return;
        }
        if let Some((s, d)) = known(self.prop).into_iter().find(|(s, _)| *s == v.sig) {
            self.known.push((s, d));
            return;
        }
        self.count("violations_seen");
        self.found(&v.sig, &v.what, &v.input);
        self.viols.push(v);
    }
}
pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("PDDLMON_DIR").unwrap_or_else(|_| "/verif".into()))
}
/// Listed findings of a property: signature and description.
pub fn known(prop: &str) -> Vec<(String, String)> {
    use std::sync::OnceLock;
    static K: OnceLock<Vec<(String, String, String)>> = OnceLock::new();
    K.get_or_init(|| {
        let t = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS")).unwrap_or_default();
        t.lines()
            .filter_map(|l| {
                let r = l.strip_prefix("known: property=")?;
                let (p, r) = r.split_once(' ')?;
                let r = r.strip_prefix("sig=")?;
                let (s, d) = r.split_once(' ')?;
                Some((p.to_string(), s.to_string(), d.to_string()))
            })
            .collect()
    })
    .iter()
    .filter(|x| x.0 == prop)
    .map(|x| (x.1.clone(), x.2.clone()))
    .collect()
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
extern "C" {
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}
pub fn cpu_ns(thread: bool) -> u64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(if thread { 3 } else { 2 }, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn quiet_panics() {
    // The last panic is kept for the case that it ends the worker.
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = i.to_string();
        }
    }));
}
/// Runs cases in this process and writes what was observed.
pub fn worker(p: &'static Prop, tier: Tier, seed: u64, me: u64, of: u64, dir: &Path, secs: u64) {
    quiet_panics();
    let start = Instant::now();
    let env = |k: &str| std::env::var(k).ok().and_then(|x| x.parse::<u64>().ok());
    let total = env("PDDLMON_CASES").unwrap_or(if tier == Tier::Quick { p.quick } else { p.thorough });
    let first = env("PDDLMON_FIRST").unwrap_or(0);
    let hb = Arc::new(AtomicU64::new(0));
    // A single input that takes this much processor time is a stall.
    {
        let hb = hb.clone();
        let limit = 60_000_000_000u64;
        std::thread::spawn(move || {
            let (mut last, mut since) = (0, cpu_ns(false));
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let h = hb.load(Ordering::Relaxed);
                let c = cpu_ns(false);
                if h != last {
                    last = h;
                    since = c;
                } else if c - since > limit {
                    std::process::exit(77);
                }
            }
        });
    }
    let dir = dir.to_path_buf();
    let h = std::thread::Builder::new()
        .stack_size(p.stack << 20)
        .spawn(move || {
            let mut c = Ctx::new(p.id, tier, seed);
            c.hb = hb;
            c.cur = std::fs::File::create(dir.join(format!("cur.{}", me))).ok();
            c.found = Some(dir.join(format!("found.{}", me)));
            let others: Vec<PathBuf> = (0..of).filter(|x| *x != me).map(|x| dir.join(format!("found.{}", x))).collect();
            let mut looked = Instant::now();
            let mut i = first + me;
            let mut done = 0u64;
            let mut cut = false;
            while i < first + total {
                if start.elapsed().as_secs() >= secs {
                    cut = true;
                    break;
                }
                // Once another worker has found something, there is no need to go on for long.
                if looked.elapsed().as_secs() >= 4 {
                    looked = Instant::now();
                    if others.iter().any(|x| x.exists()) {
                        cut = true;
                        break;
                    }
                }
                c.case = i;
                c.hb.fetch_add(1, Ordering::Relaxed);
                (p.case)(&mut c, i);
                done += 1;
                i += of;
                if c.viols.len() >= 4 || c.counts.contains_key("stuck_rounds") {
                    cut = true;
                    break;
                }
            }
            c.add("cases_run", done);
            let mut o = String::new();
            let _ = writeln!(o, "T {} {}", c.evals, cut as u8);
            for (k, v) in &c.counts {
                let _ = writeln!(o, "C {} {}", v, k);
            }
            for (k, v) in &c.maxes {
                let _ = writeln!(o, "M {} {}", v, k);
            }
            for s in &c.samples {
                let _ = writeln!(o, "S {}", esc(s));
            }
            for (s, d) in &c.known {
                let _ = writeln!(o, "K {}\t{}", esc(s), esc(d));
            }
            for v in &c.viols {
                let _ = writeln!(o, "V {}\t{}\t{}\t{}", esc(&v.sig), v.case, esc(&v.what), esc(&v.input));
            }
            let mut b = Vec::with_capacity(c.distinct.len() * 8);
            for h in &c.distinct {
                b.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(dir.join(format!("hash.{}", me)), b).unwrap();
            let _ = writeln!(o, "END");
            std::fs::write(dir.join(format!("out.{}", me)), o).unwrap();
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("{}", LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default());
        std::process::exit(78);
    }
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[derive(Default)]
pub struct Total {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub known: Vec<(String, String)>,
    pub problems: Vec<String>,
    pub cut: bool,
    pub extra: Vec<(String, String)>,
}
impl Total {
    /// A violation seen by the parent; listed findings are set aside.
    pub fn violation(&mut self, prop: &str, sig: impl Into<String>, case: u64, what: impl Into<String>, input: impl Into<String>) {
        let sig = sig.into();
        if let Some((s, d)) = known(prop).into_iter().find(|(s, _)| *s == sig) {
            if !self.known.iter().any(|x| x.0 == s) {
                self.known.push((s, d));
            }
        } else if !self.viols.iter().any(|v| v.sig == sig) {
            self.viols.push(Viol { sig, case, what: what.into(), input: input.into() });
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_insert(0) += n;
    }
    pub fn absorb(&mut self, out: &str, hashes: &[u8]) -> bool {
        let mut end = false;
        for l in out.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "T" => {
                    let (e, c) = r.split_once(' ').unwrap();
                    self.evals += e.parse::<u64>().unwrap();
                    self.cut |= c == "1";
                }
                "C" => {
                    let (v, k) = r.split_once(' ').unwrap();
                    *self.counts.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap();
                }
                "M" => {
                    let (v, k) = r.split_once(' ').unwrap();
                    let e = self.maxes.entry(k.into()).or_insert(0);
                    *e = (*e).max(v.parse().unwrap());
                }
                "S" => self.samples.push(unesc(r)),
                "K" => {
                    let (a, b) = r.split_once('\t').unwrap();
                    if !self.known.iter().any(|x| x.0 == a) {
                        self.known.push((unesc(a), unesc(b)));
                    }
                }
                "V" => {
                    let f: Vec<&str> = r.split('\t').collect();
                    let sig = unesc(f[0]);
                    if !self.viols.iter().any(|v| v.sig == sig) {
                        self.viols.push(Viol { sig, case: f[1].parse().unwrap(), what: unesc(f[2]), input: unesc(f[3]) });
                    }
                }
                "END" => end = true,
                _ => {}
            }
        }
        for c in hashes.chunks_exact(8) {
            self.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
        end
    }
}
/// Starts the workers, waits for them, and adds up.
pub fn run_workers(p: &'static Prop, exe: &Path, tier: Tier, seed: u64, secs: u64, envs: &[(&str, String)], tot: &mut Total) {
    let n = p.workers as u64;
    let dir = verif_dir().join("target/run").join(format!("{}-{}-{}", p.id, std::process::id(), tot.evals));
    std::fs::create_dir_all(&dir).unwrap();
    let mut kids = vec![];
    for me in 0..n {
        let mut c = Command::new(exe);
        c.args(["worker", p.id, tier.name(), &seed.to_string(), &me.to_string(), &n.to_string(), dir.to_str().unwrap(), &secs.to_string()]);
        for (k, v) in envs {
            c.env(k, v);
        }
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(dir.join(format!("err.{}", me))).unwrap());
        kids.push((me, c.spawn().expect("worker"), None));
    }
    let end = Instant::now() + Duration::from_secs(secs + 120);
    loop {
        let mut left = 0;
        for (_, k, st) in kids.iter_mut() {
            if st.is_none() {
                match k.try_wait() {
                    Ok(Some(s)) => *st = Some(s),
                    _ => left += 1,
                }
            }
        }
        if left == 0 {
            break;
        }
        if Instant::now() > end {
            for (_, k, st) in kids.iter_mut() {
                if st.is_none() {
                    let _ = k.kill();
                    let _ = k.wait();
                }
            }
            tot.problems.push("a worker ran over time".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    for (me, _, st) in &kids {
        use std::os::unix::process::ExitStatusExt;
        let out = std::fs::read_to_string(dir.join(format!("out.{}", me))).unwrap_or_default();
        let hs = std::fs::read(dir.join(format!("hash.{}", me))).unwrap_or_default();
        let ok = tot.absorb(&out, &hs);
        let Some(st) = st else { continue };
        if ok && st.success() {
            continue;
        }
        // What it had found before it ended counts.
        if let Ok(f) = std::fs::read_to_string(dir.join(format!("found.{}", me))) {
            tot.absorb(&f, &[]);
        }
        let mut case = 0;
        let mut input = String::new();
        if let Ok(mut f) = std::fs::File::open(dir.join(format!("cur.{}", me))) {
            let mut b = vec![];
            let _ = f.read_to_end(&mut b);
            if b.len() >= 16 {
                case = u64::from_le_bytes(b[0..8].try_into().unwrap());
                let l = u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize;
                input = String::from_utf8_lossy(&b[16..(16 + l).min(b.len())]).into_owned();
            }
        }
        let stderr = std::fs::read_to_string(dir.join(format!("err.{}", me))).unwrap_or_default();
        let tail: String = stderr.chars().take(3000).collect();
        let (sig, what, viol) = match (st.code(), st.signal()) {
            (Some(77), _) => ("stall".to_string(), "no result after 60 s of processor time".to_string(), p.stall_is_violation),
            (_, Some(9)) => ("killed".into(), "worker was killed".into(), false),
            (_, Some(s @ (4 | 6 | 7 | 8 | 11))) => (format!("crash:signal{}", s), format!("the process died with signal {}: {}", s, tail), p.crash_is_violation),
            (Some(c @ (66 | 86)), _) => (format!("sanitizer:{}", c), format!("sanitizer report: {}", tail), p.crash_is_violation),
            (c, s) => ("error".into(), format!("worker ended with {:?}/{:?}: {}", c, s, tail), false),
        };
        if viol {
            tot.viols.push(Viol { sig, case, what, input });
        } else {
            tot.problems.push(format!("worker {} case {}: {}", me, case, what));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
/// Prints the verdict, writes replays and evidence; returns the exit code.
pub fn finish(p: &Prop, tier: Tier, seed: u64, start: Instant, mut tot: Total) -> i32 {
    let vd = verif_dir();
    let full = !tot.cut && tot.problems.is_empty() && tot.viols.is_empty();
    for (k, min) in p.floors {
        let have = tot.counts.get(*k).copied().unwrap_or(0);
        let want = if full { *min } else { *min / 10 };
        if have < want && tot.viols.is_empty() {
            tot.problems.push(format!("too little observed: {} = {} (at least {} wanted)", k, have, want));
        }
    }
    for (s, d) in known(p.id) {
        if tot.known.iter().any(|k| k.0 == s) {
            println!("KNOWN-FINDING: property={} {}", p.id, d);
        }
    }
    let mut replays = vec![];
    for (i, v) in tot.viols.iter().take(8).enumerate() {
        let rd = vd.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let f = rd.join(format!("{}-{}-{}-{}-{}.txt", p.id, tier.name(), seed, v.case, i));
        let body = format!(
            "property: {}\nsignature: {}\nrerun: cd {} && VERIF_SEED={} bash run.sh case {} {} {}\nwhat: {}\ninput:\n{}\n",
            p.id,
            v.sig,
            vd.display(),
            seed,
            p.id,
            tier.name(),
            v.case,
            v.what,
            v.input
        );
        let _ = std::fs::write(&f, body);
        println!("VIOLATION property={} replay={}", p.id, f.display());
        println!("  {}: {}", v.sig, crate::canon::short(&v.what));
        println!("  input: {}", crate::canon::short(&v.input));
        replays.push((f, v.clone()));
    }
    for x in &tot.problems {
        println!("INCONCLUSIVE property={} {}", p.id, x);
    }
    let mut o = String::from("{\n");
    let _ = write!(o, "  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", json(p.id), json(tier.name()), seed);
    let _ = write!(o, "  \"wall_s\": {:.2},\n", start.elapsed().as_secs_f64());
    let _ = write!(o, "  \"assumptions\": [{}],\n", p.assumptions.iter().map(|x| json(x)).collect::<Vec<_>>().join(", "));
    let _ = write!(o, "  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n", tot.evals, tot.distinct.len(), json(p.rule));
    tot.samples.sort_by_key(|s| hash64(s.as_bytes()));
    tot.samples.truncate(6);
    let _ = write!(o, "    \"samples\": [{}],\n", tot.samples.iter().map(|x| json(x)).collect::<Vec<_>>().join(", "));
    let _ = write!(o, "    \"observed\": {{{}}},\n", tot.counts.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(o, "    \"largest\": {{{}}},\n", tot.maxes.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(
        o,
        "    \"violation_reports\": [{}],\n",
        replays.iter().map(|(f, v)| json(&format!("{}: {} ({})", v.sig, crate::canon::short(&v.what), f.display()))).collect::<Vec<_>>().join(", ")
    );
    for (k, v) in &tot.extra {
        let _ = write!(o, "    {}: {},\n", json(k), v);
    }
    let _ = write!(o, "    \"known_findings_seen\": [{}],\n", tot.known.iter().map(|x| json(&x.1)).collect::<Vec<_>>().join(", "));
    let _ = write!(o, "    \"cut_short\": {},\n    \"problems\": [{}]\n  }},\n", tot.cut, tot.problems.iter().map(|x| json(x)).collect::<Vec<_>>().join(", "));
    let _ = write!(o, "  \"violations\": {}\n}}\n", replays.len());
    let ed = vd.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    let tmp = ed.join(format!(".{}.tmp", p.id));
    let mut f = std::fs::File::create(&tmp).unwrap();
    f.write_all(o.as_bytes()).unwrap();
    std::fs::rename(&tmp, ed.join(format!("{}.json", p.id))).unwrap();
    if !tot.viols.is_empty() {
        1
    } else if !tot.problems.is_empty() {
        2
    } else {
        println!(
            "HELD property={} tier={} seed={} evaluations={} distinct={} wall={:.1}s",
            p.id,
            tier.name(),
            seed,
            tot.evals,
            tot.distinct.len(),
            start.elapsed().as_secs_f64()
        );
        0
    }
}
