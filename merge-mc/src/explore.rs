//! Every interleaving of concurrent merges at the granularity of their system calls and of their tools' steps, up to
//! a bound on preemptions: one execution at a time, each steered by a prefix of choices and continued by default.
use crate::gate::{Mode, Scheduler, State};
use crate::{Bench, Live, Obs, Plan};
use std::io::BufReader;
use std::os::unix::net::UnixListener;
use std::time::{Duration, Instant};

/// One choice: who went on, who could have, and who was going.
pub struct Step { pub chosen: usize, pub enabled: Vec<usize>, pub current: Option<usize> }

#[derive(PartialEq)]
enum Stage { Begun, Read, Wrote, Ended }
struct Tool { live: Live, stage: Stage }

fn accept(l: &UnixListener) -> Option<Result<Live, String>> {
    let (s, _) = l.accept().ok()?;
    s.set_nonblocking(false).unwrap();
    let mut live = Live { lines: BufReader::new(s.try_clone().unwrap()), stream: s, log: None };
    let b = live.line();
    Some(if b == "begin" { Ok(live) } else { Err(format!("tool said {b:?}")) })
}

impl Tool {
    fn step(&mut self, p: &Plan) -> Result<(), String> {
        match self.stage {
            Stage::Begun => {
                self.live.go("read");
                let n = self.live.line();
                self.live.log = Some(n);
                self.stage = Stage::Read;
            }
            Stage::Read => {
                self.live.go(&p.body);
                let w = self.live.line();
                if w != "wrote" { return Err(format!("a tool died while writing ({w:?})")); }
                self.stage = Stage::Wrote;
            }
            Stage::Wrote => {
                self.live.go(p.ending);
                // it is gone when its end of the socket is closed
                self.live.line();
                self.stage = Stage::Ended;
            }
            Stage::Ended => {}
        }
        Ok(())
    }
}

/// Where others can go on: at every system call and every step of the tools; at the start of a merge and every step of
/// its tool; or at the start of a merge, when its tool starts and when it has ended.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Grain { Call, Step, Tool }

pub struct Run { pub trace: Vec<Step>, pub obs: Vec<Obs> }

/// One execution: the first choices are given, then whoever is going goes on, and the lowest number after that.
/// A merge that waits for a lock goes on when it is released.
pub fn run(bench: &Bench, listener: &UnixListener, plans: &[Plan], prefix: &[usize], grain: Grain) -> Result<Run, String> {
    let n = plans.len();
    let sched = Scheduler::new(n, grain != Grain::Call);
    let modes: Vec<Mode> = plans.iter().enumerate().map(|(i, p)| Mode { sched: Some((i, &sched as *const Scheduler)), ..Mode::faults(&p.case.faults) }).collect();
    struct Ptr<'a>(&'a Mode);
    unsafe impl Send for Ptr<'_> {}
    struct Sc<'a>(&'a Scheduler);
    unsafe impl Send for Sc<'_> {}
    std::thread::scope(|sc| {
        let threads: Vec<_> = (0..n)
            .map(|i| {
                let (m, s, case) = (Ptr(&modes[i]), Sc(&sched), &plans[i].case);
                sc.spawn(move || {
                    let (m, s) = (m, s);
                    let Ptr(m) = m;
                    let Sc(s) = s;
                    s.begin(i);
                    let r = Bench::merge(case, m);
                    s.done(i);
                    r
                })
            })
            .collect();
        let mut tools: Vec<Option<Tool>> = plans.iter().map(|_| None).collect();
        let mut trace: Vec<Step> = vec![];
        let mut current = None;
        let mut early: Option<(Live, Instant)> = None;
        let mut idle = 0;
        // a run that hangs takes this process with it: the worker has no other way out
        let stuck = |what: &str, trace: &[Step]| -> ! {
            println!("MC_STUCK {what}\nafter {:?}\n{plans:?}", trace.iter().map(|s| s.chosen).collect::<Vec<_>>());
            eprintln!("merge-mc: {what}");
            std::process::exit(4)
        };
        loop {
            // until nobody is running
            let deadline = Instant::now() + Duration::from_secs(30);
            let mut g = sched.shared.lock().unwrap();
            loop {
                if early.is_none() { early = accept(listener).transpose()?.map(|l| (l, Instant::now())); }
                if let Some(i) = g.starting {
                    if let Some((live, _)) = early.take() {
                        tools[i] = Some(Tool { live, stage: Stage::Begun });
                        g.tool_active[i] = true;
                        g.starting = None;
                        sched.cv.notify_all();
                    }
                } else if !g.state.contains(&State::Running) && g.granted.is_none() {
                    break;
                }
                if Instant::now() > deadline { stuck("a merge neither goes on nor ends", &trace) }
                let wait = if g.starting.is_some() { Duration::from_micros(50) } else { Duration::from_millis(5) };
                g = sched.cv.wait_timeout(g, wait).unwrap().0;
                // a tool that was started in a way unknown to us runs to its end at once
                if g.starting.is_none() && early.as_ref().is_some_and(|e| e.1.elapsed() > Duration::from_millis(500)) {
                    if let Some(i) = g.state.iter().position(|s| *s == State::Running) {
                        let mut t = Tool { live: early.take().unwrap().0, stage: Stage::Begun };
                        while t.stage != Stage::Ended { t.step(&plans[i])?; }
                        tools[i] = Some(t);
                    }
                }
            }
            if g.state.iter().all(|s| *s == State::Done) { break; }
            let mut enabled: Vec<usize> = (0..n).filter(|i| match g.state[*i] { State::Done | State::Waiting(_) => false, _ => true }).collect();
            if enabled.is_empty() {
                idle += 1;
                if idle > 2000 { stuck("merges wait for each other", &trace) }
                enabled = (0..n).filter(|i| g.state[*i] != State::Done).collect();
            }
            let chosen = match prefix.get(trace.len()) {
                Some(c) if enabled.contains(c) => *c,
                Some(c) => stuck(&format!("the execution does not repeat itself: {c} is not among {enabled:?}"), &trace),
                None => current.filter(|c| enabled.contains(c)).unwrap_or(enabled[0]),
            };
            trace.push(Step { chosen, enabled, current });
            current = Some(chosen);
            match &mut tools[chosen] {
                Some(t) if g.state[chosen] == State::Blocked && t.stage != Stage::Ended => {
                    t.step(&plans[chosen])?;
                    while grain == Grain::Tool && t.stage != Stage::Ended { t.step(&plans[chosen])?; }
                    if t.stage == Stage::Ended { g.tool_active[chosen] = false; }
                }
                _ => {
                    g.granted = Some(chosen);
                    sched.cv.notify_all();
                }
            }
        }
        let mut obs = vec![];
        for (i, t) in threads.into_iter().enumerate() {
            let result = t.join().map_err(|_| "thread".to_string())?;
            let log = tools[i].as_ref().and_then(|t| t.live.log.clone());
            let argv = log.as_ref().and_then(|n| crate::read_log(&bench.dir.join(n)));
            if let Some(n) = log { let _ = std::fs::remove_file(bench.dir.join(n)); }
            obs.push(Obs { result, argv, residue: vec![], fired: modes[i].fired(), calls: modes[i].calls() });
        }
        Ok(Run { trace, obs })
    })
}

/// Every execution with at most `bound` preemptions, each once; `mine` says which of the subtrees are this worker's.
pub fn explore(
    bench: &Bench, listener: &UnixListener, plans: &[Plan], bound: usize, grain: Grain, mine: &dyn Fn(u64) -> bool, visit: &mut dyn FnMut(&[usize], Result<Run, String>) -> Option<Vec<Step>>,
) {
    let mut stack: Vec<(Vec<usize>, usize, usize)> = vec![(vec![], 0, 0)];
    while let Some((prefix, used, depth)) = stack.pop() {
        let r = run(bench, listener, plans, &prefix, grain);
        let owned = depth >= 2 || mine(mc_common::hash_of(&prefix));
        let trace = if owned { visit(&prefix, r) } else { r.ok().map(|r| r.trace) };
        let Some(trace) = trace else { continue };
        for pos in prefix.len()..trace.len() {
            let s = &trace[pos];
            for alt in s.enabled.iter().filter(|a| **a != s.chosen) {
                let cost = used + s.current.is_some_and(|c| s.enabled.contains(&c)) as usize;
                if cost > bound { continue; }
                let mut p: Vec<usize> = trace[..pos].iter().map(|s| s.chosen).collect();
                p.push(*alt);
                if depth + 1 == 2 && !mine(mc_common::hash_of(&p)) { continue; }
                stack.push((p, cost, depth + 1));
            }
        }
    }
}
