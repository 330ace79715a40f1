//! Minimisation of a failing plan: drop list elements and keys, make numbers and strings
//! smaller, as long as the same class of violation remains.
use crate::cli::Env;
use crate::ctx::V;
use crate::json::J;
use std::time::Instant;

#[derive(Clone)]
enum Step {
    Key(usize),
    Idx(usize),
}
fn at<'a>(j: &'a mut J, path: &[Step]) -> Option<&'a mut J> {
    let mut j = j;
    for s in path {
        j = match (s, j) {
            (Step::Key(i), J::Obj(v)) => &mut v.get_mut(*i)?.1,
            (Step::Idx(i), J::Arr(v)) => v.get_mut(*i)?,
            _ => return None,
        };
    }
    Some(j)
}
fn paths(j: &J, cur: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(cur.clone());
    match j {
        J::Obj(v) => {
            for (i, (k, x)) in v.iter().enumerate() {
                if k == "world" || k == "ent" || k == "k" || k == "kind" && matches!(x, J::Str(_)) || k == "do" {
                    continue;
                }
                cur.push(Step::Key(i));
                paths(x, cur, out);
                cur.pop();
            }
        }
        J::Arr(v) => {
            for (i, x) in v.iter().enumerate() {
                cur.push(Step::Idx(i));
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}

pub fn shrink(prop: &str, plan: &J, class: &str, msg: &str, env: &Env) -> (J, String, u64) {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let mut bmsg = msg.to_string();
    let mut tried = 0u64;
    let over = |tried: u64| tried > 4000 || t0.elapsed().as_secs() > 25;
    let mut test = |c: &J, best: &mut J, tried: &mut u64| -> bool {
        *tried += 1;
        match crate::exec(prop, c, env) {
            V::Viol(k, m) if k == class => {
                *best = c.clone();
                bmsg = m;
                true
            }
            _ => false,
        }
    };
    loop {
        let before = best.text().len();
        // drop elements, large pieces first
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        let mut k = 0;
        while k < ps.len() && !over(tried) {
            let n = match at(&mut best, &ps[k]) {
                Some(J::Arr(v)) => v.len(),
                _ => 0,
            };
            let mut changed = false;
            if n > 0 {
                let mut size = n;
                while size >= 1 && !over(tried) {
                    let mut i = 0;
                    loop {
                        let mut c = best.clone();
                        let done = match at(&mut c, &ps[k]) {
                            Some(J::Arr(v)) if i < v.len() => {
                                let e = (i + size).min(v.len());
                                v.drain(i..e);
                                false
                            }
                            _ => true,
                        };
                        if done || over(tried) {
                            break;
                        }
                        if test(&c, &mut best, &mut tried) {
                            changed = true;
                        } else {
                            i += size;
                        }
                    }
                    size /= 2;
                }
            }
            if changed {
                ps.clear();
                paths(&best, &mut vec![], &mut ps);
            }
            k += 1;
        }
        // drop keys
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        ps.reverse();
        for p in &ps {
            let keys: Vec<usize> = match at(&mut best, p) {
                Some(J::Obj(v)) => (0..v.len()).rev().filter(|i| !["world", "k", "kind", "do", "lines"].contains(&v[*i].0.as_str())).collect(),
                _ => continue,
            };
            for i in keys {
                if over(tried) {
                    break;
                }
                let mut c = best.clone();
                if let Some(J::Obj(v)) = at(&mut c, p) {
                    if i >= v.len() {
                        continue;
                    }
                    v.remove(i);
                }
                test(&c, &mut best, &mut tried);
            }
        }
        // smaller numbers and strings
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for p in &ps {
            loop {
                if over(tried) {
                    break;
                }
                let cands: Vec<J> = match at(&mut best, p) {
                    Some(J::Int(x)) if *x != 0 => {
                        let x = *x;
                        let mut v = vec![0, x / 2, x - x.signum()];
                        if x < 0 {
                            v = vec![0, x / 2];
                        }
                        v.dedup();
                        v.into_iter().filter(|y| *y != x).map(J::Int).collect()
                    }
                    Some(J::Str(s)) if s.chars().count() > 1 => {
                        let n = s.chars().count();
                        vec![J::Str(s.chars().take(1).collect()), J::Str(s.chars().take(n / 2).collect()), J::Str(s.chars().take(n - 1).collect())]
                    }
                    _ => vec![],
                };
                let mut any = false;
                for x in cands {
                    let mut c = best.clone();
                    if let Some(y) = at(&mut c, p) {
                        *y = x;
                    }
                    if test(&c, &mut best, &mut tried) {
                        any = true;
                        break;
                    }
                    if over(tried) {
                        break;
                    }
                }
                if !any {
                    break;
                }
            }
        }
        if best.text().len() >= before || over(tried) {
            break;
        }
    }
    (best, bmsg, tried)
}
