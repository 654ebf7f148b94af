#![allow(dead_code)]
mod canon;
mod entries;
mod fw;
mod gen;
mod layout;
mod mk;
mod mon_build;
mod mon_effort;
mod mon_feat;
mod mon_hist;
mod mon_names;
mod mon_text;
mod mon_values;
mod mutate;
mod num;
mod proj;
mod refel;
mod rng;
mod shrink;
mod sx;
mod views;
use fw::*;

#[global_allocator]
static ALLOC: mon_effort::Counting = mon_effort::Counting;
use std::time::Instant;

fn props() -> &'static [Prop] {
    use std::sync::OnceLock;
    static P: OnceLock<Vec<Prop>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![];
        v.extend(mon_text::props());
        v.extend(mon_values::props());
        v.extend(mon_names::props());
        v.extend(mon_effort::props());
        v.extend(mon_hist::props());
        v.extend(mon_build::props());
        v.extend(mon_feat::props());
        v
    })
}
fn prop(id: &str) -> &'static Prop {
    props().iter().find(|p| p.id == id).unwrap_or_else(|| {
        println!("unknown property {}", id);
        std::process::exit(2)
    })
}
fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1)
}
fn secs(id: &str, t: Tier) -> u64 {
    // The rest of the time goes to the sanitizers and the interpreter.
    let thorough = if matches!(id, "P15" | "P19") { 280 } else { 540 };
    std::env::var("PDDLMON_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if t == Tier::Quick { 240 } else { thorough })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    match arg(1) {
        "check" => {
            let (p, t) = (prop(arg(2)), tier(arg(3)));
            let start = Instant::now();
            let mut tot = Total::default();
            let exe = std::env::current_exe().unwrap();
            std::env::set_var("PDDLMON_RECORD", verif_dir().join(format!("target/run/rec-{}", std::process::id())));
            run_workers(p, &exe, t, seed(), secs(p.id, t), &[], &mut tot);
            if let Some(f) = p.post {
                if tot.viols.is_empty() {
                    f(p, t, seed(), &exe, &mut tot);
                }
            }
            std::process::exit(finish(p, t, seed(), start, tot));
        }
        "worker" => {
            let n = |i| arg(i).parse::<u64>().unwrap();
            worker(prop(arg(2)), tier(arg(3)), n(4), n(5), n(6), std::path::Path::new(arg(7)), n(8));
        }
        "case" => {
            let p = prop(arg(2));
            let t = tier(arg(3));
            let i: u64 = arg(4).parse().unwrap();
            let v = std::thread::Builder::new()
                .stack_size(p.stack << 20)
                .spawn(move || {
                    let mut c = Ctx::new(p.id, t, seed());
                    c.case = i;
                    c.verbose = true;
                    (p.case)(&mut c, i);
                    println!("{:?}", c.counts);
                    c.viols
                })
                .unwrap()
                .join()
                .unwrap();
            for x in &v {
                println!("VIOLATED {}: {}\ninput:\n{}", x.sig, x.what, x.input);
            }
            std::process::exit(if v.is_empty() { 0 } else { 1 });
        }
        "deep" => {
            fw::quiet_panics();
            mon_hist::deep_child(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4).parse().unwrap());
        }
        "digest" => {
            fw::quiet_panics();
            let f = std::path::PathBuf::from(arg(2));
            let order: Vec<usize> = arg(3).split(',').filter_map(|x| x.parse().ok()).collect();
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                let w = mon_hist::read_work(&f);
                let order = if order.is_empty() { (0..w.len()).collect() } else { order };
                let mut o = String::new();
                for (i, h) in mon_hist::digest(&w, &order) {
                    o.push_str(&format!("{} {}\n", i, h));
                }
                print!("{}", o);
            });
            h.unwrap().join().unwrap();
        }
        "list" => {
            for p in props() {
                println!("{}", p.id);
            }
        }
        _ => {
            println!("usage: pddlmon check|case|list ...");
            std::process::exit(2);
        }
    }
}
