//! A cooperative scheduler for tasks running on real threads: each task stops
//! at its yield points until the controller grants it the next step.
use std::collections::BTreeSet;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct St {
    waiting: BTreeSet<usize>,
    grant: Option<usize>,
    free: bool,
    steps: Vec<usize>,
}

#[derive(Default)]
pub struct Sched {
    m: Mutex<St>,
    cv: Condvar,
}

impl Sched {
    pub fn new() -> Self {
        Self::default()
    }
    /// Called by task `t`: wait for the next grant.
    pub fn yield_point(&self, t: usize) {
        let mut g = self.m.lock().unwrap();
        if g.free {
            g.steps.push(t);
            return;
        }
        g.waiting.insert(t);
        self.cv.notify_all();
        while !g.free && g.grant != Some(t) {
            g = self.cv.wait(g).unwrap();
        }
        g.waiting.remove(&t);
        if g.grant == Some(t) {
            g.grant = None;
        }
        g.steps.push(t);
        self.cv.notify_all();
    }
    /// Run the schedule (a sequence of task numbers).  `all` tasks must first
    /// be waiting.  Returns false if the schedule could not be imposed, in
    /// which case everything is released.
    pub fn drive(&self, all: usize, schedule: &[usize], patience: Duration) -> bool {
        let mut ok = self.wait_for(|s| s.waiting.len() == all, patience);
        if ok {
            for &t in schedule {
                if !self.wait_for(|s| s.grant.is_none() && s.waiting.contains(&t), patience) {
                    ok = false;
                    break;
                }
                let mut g = self.m.lock().unwrap();
                g.grant = Some(t);
                drop(g);
                self.cv.notify_all();
                if !self.wait_for(|s| s.grant.is_none(), patience) {
                    ok = false;
                    break;
                }
            }
        }
        let mut g = self.m.lock().unwrap();
        g.free = true;
        drop(g);
        self.cv.notify_all();
        ok
    }
    fn wait_for(&self, p: impl Fn(&St) -> bool, patience: Duration) -> bool {
        let t = Instant::now();
        let mut g = self.m.lock().unwrap();
        while !p(&g) {
            let left = match patience.checked_sub(t.elapsed()) {
                Some(d) => d,
                None => return false,
            };
            g = self.cv.wait_timeout(g, left).unwrap().0;
        }
        true
    }
    pub fn steps(&self) -> Vec<usize> {
        self.m.lock().unwrap().steps.clone()
    }
}

/// All interleavings of tasks with the given numbers of steps, with at most
/// `preempt` switches away from a task that still has steps.
pub fn interleavings(counts: &[usize], preempt: usize) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: Option<usize>, budget: usize, pre: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(pre.clone());
            return;
        }
        for t in 0..left.len() {
            if left[t] == 0 {
                continue;
            }
            let cost = match cur {
                Some(c) if c != t && left[c] > 0 => 1,
                _ => 0,
            };
            if cost > budget {
                continue;
            }
            left[t] -= 1;
            pre.push(t);
            go(left, Some(t), budget - cost, pre, out);
            pre.pop();
            left[t] += 1;
        }
    }
    let mut out = vec![];
    go(&mut counts.to_vec(), None, preempt, &mut vec![], &mut out);
    out
}
