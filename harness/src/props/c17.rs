//! C17: the connection limit holds and no waiting operation is forgotten.
use super::PropDef;
use crate::engine::*;
use crate::want;
use proptest::prelude::*;
use serde_derive::{Deserialize, Serialize};

/// The library's semaphore, driven by a script.
#[cfg(feature = "lib")]
mod slots {
    use super::*;
    use backpak::semaphored::dec;
    use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
    use std::sync::{Arc, Barrier};
    use std::time::{Duration, Instant};

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum Act {
        /// So many more threads want a slot (at the same time).
        Start(u8),
        /// So many of those having one give it back, all at the same time.
        Release(u8),
        /// Both at once.
        Both(u8, u8),
        /// Everyone who has one keeps giving it back and asking again for some rounds.
        Churn(u8),
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Case {
        limit: u32,
        acts: Vec<Act>,
    }

    struct Task {
        running: AtomicBool,
        let_go: AtomicBool,
        done: AtomicBool,
    }
    struct Shared {
        count: AtomicU32,
        running: AtomicUsize,
        most: AtomicUsize,
    }
    const PATIENCE: Duration = Duration::from_secs(15);

    fn spin(f: impl Fn() -> bool) -> bool {
        let t0 = Instant::now();
        let mut n = 0;
        while !f() {
            n += 1;
            if n > 200 {
                if t0.elapsed() > PATIENCE {
                    return false;
                }
                std::thread::sleep(Duration::from_micros(50));
            } else {
                std::thread::yield_now();
            }
        }
        true
    }

    fn task(s: &Shared, t: &Task, gate: Option<&Barrier>, rounds: u32) {
        if let Some(g) = gate {
            g.wait();
        }
        for _ in 0..rounds {
            let g = dec(&s.count);
            let n = s.running.fetch_add(1, SeqCst) + 1;
            s.most.fetch_max(n, SeqCst);
            if rounds > 1 {
                std::hint::spin_loop();
            } else {
                t.running.store(true, SeqCst);
                // (All who are let go see it at about the same time.)
                let mut n = 0u32;
                while !t.let_go.load(SeqCst) {
                    n += 1;
                    if n > 2000 {
                        std::thread::sleep(Duration::from_micros(20));
                    } else {
                        std::hint::spin_loop();
                    }
                }
                t.running.store(false, SeqCst);
            }
            s.running.fetch_sub(1, SeqCst);
            drop(g);
        }
        t.done.store(true, SeqCst);
    }

    pub fn run(c: &Case, _env: &Env) -> R<Info> {
        let mut i = Info::default();
        let s = Arc::new(Shared { count: AtomicU32::new(c.limit), running: AtomicUsize::new(0), most: AtomicUsize::new(0) });
        let mut out: Vec<Arc<Task>> = vec![];
        let mut waited = false;
        let start = |n: u8, rounds: u32, out: &mut Vec<Arc<Task>>| {
            let gate = Arc::new(Barrier::new(n as usize));
            for _ in 0..n {
                let t = Arc::new(Task { running: AtomicBool::new(false), let_go: AtomicBool::new(false), done: AtomicBool::new(false) });
                out.push(t.clone());
                let (s, gate) = (s.clone(), gate.clone());
                // (Not joined: should one be forgotten, it stays.)
                std::thread::spawn(move || task(&s, &t, Some(&gate), rounds));
            }
        };
        let release = |n: u8, out: &[Arc<Task>], i: &mut Info| {
            let have: Vec<&Arc<Task>> = out.iter().filter(|t| t.running.load(SeqCst) && !t.let_go.load(SeqCst)).take(n as usize).collect();
            have.iter().for_each(|t| t.let_go.store(true, SeqCst));
            i.add("released", have.len() as u64);
            if have.len() > 1 {
                i.hit("released-together");
            }
        };
        for (k, a) in c.acts.iter().enumerate() {
            match a {
                Act::Start(n) => start(*n, 1, &mut out),
                Act::Release(n) => release(*n, &out, &mut i),
                Act::Both(n, m) => {
                    start(*n, 1, &mut out);
                    release(*m, &out, &mut i);
                }
                Act::Churn(n) => {
                    // Make room: those holding slots give them back.
                    let before: Vec<Arc<Task>> = out.clone();
                    let mut more = vec![];
                    start(*n, 200, &mut more);
                    out.iter().for_each(|t| t.let_go.store(true, SeqCst));
                    want!(spin(|| more.iter().chain(&before).all(|t| t.done.load(SeqCst))), "step {k}: {} of {} threads never got a slot, though all that got one of the {} gave it back", more.iter().chain(&before).filter(|t| !t.done.load(SeqCst)).count(), more.len() + before.len(), c.limit);
                    out.clear();
                    i.hit("churn");
                }
            }
            // Now so many have to have a slot:
            let asked = || out.iter().filter(|t| !t.let_go.load(SeqCst)).count();
            let expected = asked().min(c.limit as usize);
            waited |= asked() > c.limit as usize;
            let have = || out.iter().filter(|t| t.running.load(SeqCst) && !t.let_go.load(SeqCst)).count();
            want!(spin(|| have() == expected), "step {k} ({a:?}): {} threads want one of {} slots and only {} have one", asked(), c.limit, have());
            want!(s.most.load(SeqCst) <= c.limit as usize, "step {k} ({a:?}): {} operations ran at once, the limit being {}", s.most.load(SeqCst), c.limit);
            // Those who finished did so.
            want!(spin(|| out.iter().filter(|t| t.let_go.load(SeqCst)).all(|t| t.done.load(SeqCst))), "step {k}: a released operation doesn't end");
            out.retain(|t| !t.done.load(SeqCst));
        }
        out.iter().for_each(|t| t.let_go.store(true, SeqCst));
        want!(spin(|| out.iter().all(|t| t.done.load(SeqCst))), "in the end {} threads never got a slot, though all that got one of the {} gave it back", out.iter().filter(|t| !t.done.load(SeqCst)).count(), c.limit);
        want!(s.most.load(SeqCst) <= c.limit as usize, "{} operations ran at once, the limit being {}", s.most.load(SeqCst), c.limit);
        want!(s.count.load(SeqCst) == c.limit, "{} slots are left of {}", s.count.load(SeqCst), c.limit);
        i.nontrivial = waited;
        i.note = format!("{} steps, limit {}, most at once {}", c.acts.len(), c.limit, s.most.load(SeqCst));
        Ok(i)
    }

    pub fn strat() -> BoxedStrategy<Case> {
        let few = || prop_oneof![4 => 1u8..4, 2 => 4u8..12];
        let act = prop_oneof![
            5 => few().prop_map(Act::Start),
            6 => few().prop_map(Act::Release),
            2 => (few(), few()).prop_map(|(a, b)| Act::Both(a, b)),
            1 => (2u8..10).prop_map(Act::Churn),
        ];
        (prop_oneof![3 => 1u32..4, 2 => 4u32..9, 1 => 9u32..40], prop::collection::vec(act, 2..24)).prop_map(|(limit, acts)| Case { limit, acts }).boxed()
    }
}

/// The functions which run several others at once.
#[cfg(feature = "lib")]
mod several {
    use super::*;
    use backpak::concurrently::*;
    use std::sync::Mutex;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Case {
        naps: Vec<u16>,
        kind: u8,
    }
    pub fn run(c: &Case, _env: &Env) -> R<Info> {
        let mut i = Info::default();
        let (now, most) = (AtomicUsize::new(0), AtomicUsize::new(0));
        let ran = Mutex::new(vec![]);
        let one = |k: usize, nap: u16| {
            most.fetch_max(now.fetch_add(1, SeqCst) + 1, SeqCst);
            if nap > 0 {
                std::thread::sleep(std::time::Duration::from_micros(nap as u64));
            }
            ran.lock().unwrap().push(k);
            now.fetch_sub(1, SeqCst);
        };
        let one = &one;
        let all: Vec<usize> = (0..c.naps.len()).collect();
        let jobs = c.naps.iter().copied().enumerate();
        match c.kind % 3 {
            0 => concurrently(jobs.map(|(k, n)| move || {
                one(k, n);
                Ok(())
            })),
            1 => {
                let mut r = map_concurrently(jobs.map(|(k, n)| move || {
                    one(k, n);
                    Ok(k)
                }));
                r.sort();
                want!(r == all, "map_concurrently gave {r:?} for {} functions", all.len());
            }
            _ => named_concurrently(jobs.map(|(k, n)| {
                (format!("t{k}"), move || {
                    one(k, n);
                    Ok(())
                })
            })),
        }
        let mut r = ran.into_inner().unwrap();
        r.sort();
        want!(r == all, "of {} functions these ran: {r:?}", all.len());
        i.nontrivial = most.load(SeqCst) > 1;
        i.note = format!("{} functions, {} at once", all.len(), most.load(SeqCst));
        Ok(i)
    }
    pub fn strat() -> BoxedStrategy<Case> {
        (prop::collection::vec(prop_oneof![1 => Just(0u16), 2 => 1u16..500], 0..60), any::<u8>()).prop_map(|(naps, kind)| Case { naps, kind }).boxed()
    }
}

pub fn def() -> PropDef {
    #[allow(unused_mut)]
    let mut suites: Vec<Box<dyn AnySuite>> = vec![];
    #[cfg(feature = "lib")]
    {
        suites.push(Box::new(Suite { name: "slots", quick: 15_000, thorough: 600_000, threads: 4, strat: Box::new(slots::strat), run: Box::new(slots::run) }));
        suites.push(Box::new(Suite { name: "several", quick: 3000, thorough: 60_000, threads: 4, strat: Box::new(several::strat), run: Box::new(several::run) }));
    }
    PropDef {
        suites,
        level: "exploration",
        rule: "slots: more threads wanted a slot than there were; several: functions ran at the same time",
        assumptions: vec!["a thread which has not got a free slot after 15 s will never get it"],
    }
}
