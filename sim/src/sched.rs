//! Baton scheduler: several real threads, of which exactly one runs at any time. A thread
//! gives the baton away only inside a simulated stream call or when it ends, and the plan
//! decides who gets it.
use crate::ctx::{cnt, log, C};
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

struct St {
    turn: usize,
    alive: Vec<bool>,
    plan: Vec<u64>,
    pos: usize,
    started: bool,
}
static ST: Mutex<St> = Mutex::new(St { turn: 0, alive: Vec::new(), plan: Vec::new(), pos: 0, started: false });
static CV: Condvar = Condvar::new();
thread_local!(static ME: Cell<usize> = const { Cell::new(usize::MAX) });

pub fn start(threads: usize, plan: Vec<u64>) {
    let mut s = ST.lock().unwrap();
    s.alive = vec![true; threads];
    s.plan = plan;
    s.pos = 0;
    s.turn = 0;
    s.started = true;
    pick(&mut s, None);
}
fn pick(s: &mut St, cur: Option<usize>) {
    let live: Vec<usize> = (0..s.alive.len()).filter(|&i| s.alive[i]).collect();
    if live.is_empty() {
        return;
    }
    let t = if s.pos < s.plan.len() {
        let k = s.plan[s.pos] as usize;
        live[k % live.len()]
    } else {
        match cur {
            Some(c) if s.alive[c] => c,
            _ => live[0],
        }
    };
    s.pos += 1;
    if Some(t) != cur {
        cnt(C::thread_switches);
    }
    log(0x7000 + t as u64);
    s.turn = t;
}
fn wait(me: usize) {
    let mut s = ST.lock().unwrap();
    while s.turn != me {
        let seq = s.pos;
        let (g, to) = CV.wait_timeout(s, std::time::Duration::from_secs(10)).unwrap();
        s = g;
        if to.timed_out() && s.turn != me && s.pos == seq {
            // The holder of the baton waits for something a parked thread holds. That
            // schedule cannot be continued; it says nothing about the property.
            crate::ctx::inconclusive();
        }
    }
}
pub fn enter(me: usize) {
    ME.with(|m| m.set(me));
    wait(me);
}
pub fn yield_now() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    {
        let mut s = ST.lock().unwrap();
        pick(&mut s, Some(me));
        if s.turn == me {
            return;
        }
    }
    CV.notify_all();
    wait(me);
}
pub fn leave() {
    let me = ME.with(|m| m.get());
    {
        let mut s = ST.lock().unwrap();
        s.alive[me] = false;
        pick(&mut s, None);
    }
    ME.with(|m| m.set(usize::MAX));
    CV.notify_all();
}
