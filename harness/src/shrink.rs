//! Reduces a failing token tree, in place and within a budget of processor time.
use crate::fw::cpu_ns;
use crate::sx::*;
use std::sync::atomic::{AtomicU64, Ordering};

/// Processor time spent on reductions by this process.
static SPENT: AtomicU64 = AtomicU64::new(0);

struct Run<'a> {
    root: Vec<Sx>,
    fails: &'a mut dyn FnMut(&[Sx]) -> bool,
    end: u64,
    probes: usize,
}
impl Run<'_> {
    fn over(&self) -> bool {
        self.probes == 0 || cpu_ns(true) > self.end
    }
    fn fails(&mut self) -> bool {
        if self.over() {
            return false;
        }
        self.probes -= 1;
        (self.fails)(&self.root)
    }
    fn list(&mut self, path: &[usize]) -> &mut Vec<Sx> {
        let mut v = &mut self.root;
        for i in path {
            v = match &mut v[*i] {
                Sx::L(w) => w,
                Sx::A(_) => unreachable!(),
            };
        }
        v
    }
    /// Removes runs of elements, long ones first.
    fn thin(&mut self, path: &[usize]) -> bool {
        let mut any = false;
        let mut size = self.list(path).len() / 2;
        while size > 0 && !self.over() {
            let mut at = self.list(path).len();
            while at > 0 && !self.over() {
                let n = self.list(path).len();
                let (from, to) = (at.saturating_sub(size), at.min(n));
                let gone: Vec<Sx> = self.list(path).drain(from..to).collect();
                if self.fails() {
                    any = true;
                } else {
                    self.list(path).splice(from..from, gone);
                }
                at = from;
            }
            size /= 2;
        }
        any
    }
    fn go(&mut self, path: &mut Vec<usize>) -> bool {
        let mut any = self.thin(path);
        let mut i = 0;
        while i < self.list(path).len() && !self.over() {
            let cur = std::mem::replace(&mut self.list(path)[i], Sx::L(vec![]));
            let mut tries: Vec<Sx> = vec![];
            match &cur {
                Sx::L(w) => tries.extend(w.iter().filter(|c| matches!(c, Sx::L(_))).take(8).cloned()),
                Sx::A(x) => match classify(x) {
                    Tok::Name if x != "a" => {
                        tries.push(a("a"));
                        if x.len() > 2 && x.is_ascii() {
                            tries.push(a(&x[..x.len() / 2]));
                            tries.push(a(&x[..x.len() - 1]));
                        }
                    }
                    Tok::Var if x != "?a" && x.len() > 1 => tries.push(a("?a")),
                    Tok::Num if x != "1" => tries.push(a("1")),
                    _ => {}
                },
            }
            let mut done = false;
            for t in tries {
                self.list(path)[i] = t;
                if self.fails() {
                    done = true;
                    break;
                }
            }
            if done {
                any = true;
                if matches!(self.list(path)[i], Sx::L(_)) {
                    continue;
                }
            } else {
                self.list(path)[i] = cur;
                if matches!(self.list(path)[i], Sx::L(_)) {
                    path.push(i);
                    any |= self.go(path);
                    path.pop();
                }
            }
            i += 1;
        }
        any
    }
}
pub fn shrink(seq: &[Sx], mut fails: impl FnMut(&[Sx]) -> bool) -> Vec<Sx> {
    let t0 = cpu_ns(true);
    let left = 12_000_000_000u64.saturating_sub(SPENT.load(Ordering::Relaxed));
    let mut r = Run { root: seq.to_vec(), fails: &mut fails, end: t0 + left.min(5_000_000_000), probes: 4000 };
    while r.go(&mut vec![]) && !r.over() {}
    SPENT.fetch_add(cpu_ns(true) - t0, Ordering::Relaxed);
    r.root
}
