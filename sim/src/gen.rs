//! Generators of plans. Every choice comes from the run's Rng.
use crate::jo;
use crate::json::J;
use crate::model;
use crate::rng::Rng;

const NAMES: [&str; 24] = [
    "a", "_a", "aa", "main", "_main", "n", "in", "_start", "start", "loop", "loop1", "L1", "msg", "msg2", "len", "exit",
    "rsi_", "dbx", "x86", "_", "..x", "t@t", "$v", "global_",
];

pub fn name(r: &mut Rng) -> String {
    match r.below(12) {
        0..=6 => r.pick(&NAMES).to_string(),
        7 => {
            let n = r.range(1, 20);
            (0..n).map(|_| *r.pick(b"abcmn_.0") as char).collect::<String>().replace("0x", "x0") + "_"
        }
        8 => {
            let n = r.range(30, 300) as usize;
            format!("long_{}", "z".repeat(n))
        }
        9 => format!("l{}", r.below(300)),
        _ => format!("{}{}", r.pick(&NAMES), r.pick(&["", "n", "_", "2"])),
    }
}

fn text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => String::new(),
        1 => "Hello, World".into(),
        2 => "a;b".into(),
        3 => "; section .data".into(),
        4 => "x: global y".into(),
        5 => "h\u{e9}llo \u{4e2d}\u{6587} \u{1F600}".into(),
        6 => " , 0x10 ,".into(),
        7 => {
            let n = r.range(1, 9);
            (0..n).map(|_| char::from_u32(*r.pick(&[0x61u32, 0x3b, 0x20, 0xdf, 0x7ff, 0xffff, 0x10ffff, 0x2c, 0x27])).unwrap()).collect()
        }
        8 => {
            let n = r.range(1, 40);
            (0..n).map(|_| (0x23 + r.below(0x5b) as u8) as char).collect()
        }
        _ => "mov rax, 1".into(),
    }
}

fn fmtbits(r: &mut Rng) -> i64 {
    if r.chance(1, 3) {
        0
    } else {
        let tail = *r.pick(&[0i64, 0, 0, 1, 2, 3, 4, 5, 7]);
        r.below(8) as i64 | tail << 3 | (r.below(4) as i64) << 6 | (r.below(8) as i64) << 8 | (r.chance(1, 6) as i64) << 11
    }
}

/// One data line for label `n` (may be empty).
fn data(r: &mut Rng, n: String, big: bool) -> J {
    let w = r.below(4) as i64;
    let k = if r.chance(1, 10) { r.range(5, 40) } else { r.range(1, 4) };
    let mut v = Vec::new();
    for _ in 0..k {
        if r.chance(1, 3) {
            v.push(J::Str(text(r)));
        } else {
            v.push(J::Int(r.edgy(8 << w) as i128));
        }
    }
    if big {
        let s = r.pick(&["0123456789abcdef", "\u{4e2d};x", "q"]).to_string();
        let n = *r.pick(&[500i64, 1000, 4200, 8190]);
        let n = if r.chance(1, 6) { n * 2 } else { n };
        let p = r.below(v.len() as u64 + 1) as usize;
        v.insert(p, jo! {"s": s, "n": n});
    }
    jo! {"k": "data", "n": n, "w": w, "v": v}
}

pub struct ProgOpt {
    pub max: i64,
    pub big: bool,
    /// one in so many big programs defines names in bulk
    pub rare: u64,
    /// labels the session already defined
    pub used: Vec<String>,
}

/// Lines of a valid program (names defined before are in `o.used`).
pub fn program(r: &mut Rng, o: &mut ProgOpt) -> Vec<J> {
    let n = match r.below(10) {
        0 => 0,
        1..=6 => r.range(1, 10.min(o.max)),
        _ => r.range(1, o.max.max(1)),
    };
    let mut lines: Vec<J> = Vec::new();
    let mut sect = 0;
    let crlf = *r.pick(&[0u64, 0, 0, 1, 2]);
    let many = o.big && r.chance(1, 40);
    let mut defined = o.used.clone();
    let wt: Vec<u64> = (0..9).map(|_| r.below(4) + (r.chance(1, 2)) as u64).collect();
    let total: u64 = wt.iter().sum::<u64>().max(1);
    let n = if many { r.range(150, 330) } else { n };
    for _ in 0..n {
        let mut x = r.below(total);
        let mut k = 0;
        while k < 8 && x >= wt[k] {
            x -= wt[k];
            k += 1;
        }
        let fresh = |r: &mut Rng, defined: &mut Vec<String>| {
            let mut n = name(r);
            while defined.contains(&n) || n.is_empty() {
                n = format!("{}{}", n, defined.len());
            }
            defined.push(n.clone());
            n
        };
        let mut l = match k {
            0 => jo! {"k": "blank"},
            1 => {
                sect = *r.pick(&[0i64, 0, 1, 1, 2]);
                jo! {"k": "sect", "s": sect}
            }
            2 => {
                let n = if !defined.is_empty() && r.chance(3, 5) { r.pick(&defined).clone() } else { name(r) };
                jo! {"k": "glob", "n": n}
            }
            3 => jo! {"k": "lab", "n": fresh(r, &mut defined)},
            4 | 5 if sect != 2 => {
                let n = if r.chance(1, 2) { fresh(r, &mut defined) } else { String::new() };
                let big = o.big && r.chance(1, 60);
                data(r, n, big)
            }
            6 if sect != 2 => {
                let w = *r.pick(&[64i64, 64, 32, 16]);
                let d = r.below(16) as i64;
                if r.chance(1, 3) {
                    jo! {"k": "movrr", "w": w, "r": d, "q": r.below(16)}
                } else if r.chance(1, 3) {
                    let bits = w as u32;
                    let a = r.edgy(bits);
                    let lim = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                    if r.chance(1, 2) {
                        let b = r.edgy(bits).min(lim - a.min(lim));
                        jo! {"k": "movri", "w": w, "r": d, "e": vec![J::Int(a as i128), J::Str("+".into()), J::Int(b as i128)]}
                    } else {
                        let b = if w == 64 && r.chance(1, 4) { r.edgy(bits) } else { r.below(a.saturating_add(1)) };
                        jo! {"k": "movri", "w": w, "r": d, "e": vec![J::Int(a as i128), J::Str("-".into()), J::Int(b as i128)]}
                    }
                } else {
                    jo! {"k": "movri", "w": w, "r": d, "e": vec![J::Int(r.edgy(w as u32) as i128)]}
                }
            }
            7 if sect != 2 => {
                // reference; may be forward: the label is defined at the end if nobody does
                let n = if !defined.is_empty() && r.chance(2, 3) { r.pick(&defined).clone() } else { name(r) };
                jo! {"k": "movrs", "w": *r.pick(&[64i64, 64, 32]), "r": r.below(16), "n": n}
            }
            8 if sect != 2 => match r.below(4) {
                0 => jo! {"k": "pushr", "r": r.below(16)},
                1 => jo! {"k": "pushi", "v": r.edgy(31)},
                2 => jo! {"k": "ret"},
                _ => jo! {"k": "sys"},
            },
            _ => jo! {"k": "lab", "n": fresh(r, &mut defined)},
        };
        let f = fmtbits(r);
        if f != 0 {
            l.set("f", J::Int(f as i128));
            if f >> 3 & 7 == 7 {
                l.set("c", J::Int(r.below(10) as i128));
            }
        }
        if o.big && r.chance(1, 150) {
            l.set("f", J::Int((f & !(7 << 3) | 6 << 3) as i128));
            l.set("c", J::Int(r.range(400, 1400) as i128));
        }
        if crlf == 1 || crlf == 2 && r.chance(1, 2) {
            l.set("e", J::Int(1));
        }
        lines.push(l);
    }
    if r.chance(1, if o.big { 8 } else { 60 }) {
        repeat(r, &mut lines, o.big);
    }
    if o.big && r.chance(1, o.rare) {
        series(r, &mut lines, &mut defined);
    }
    // define what was referred to and nobody defined
    let mut missing: Vec<String> = Vec::new();
    for l in &lines {
        if l.s("k") == "movrs" && !defined.contains(&l.s("n").to_string()) && !missing.contains(&l.s("n").to_string()) {
            missing.push(l.s("n").to_string());
        }
    }
    for m in missing {
        if r.chance(1, 3) {
            lines.push(jo! {"k": "sect", "s": *r.pick(&[0i64, 1, 2])});
        }
        lines.push(jo! {"k": "lab", "n": m.clone()});
        defined.push(m);
    }
    o.used = defined;
    lines
}

/// Many names: tables too long for narrow counters.
fn series(r: &mut Rng, lines: &mut Vec<J>, defined: &mut Vec<String>) {
    let n = format!("m{}q", defined.len());
    let x = if r.chance(1, 10) { *r.pick(&[513i64, 700, 1025]) } else { *r.pick(&[100i64, 127, 255, 256, 256, 257, 300]) };
    let x = x + r.range(-1, 1);
    // up to 250 kB of source, so that the names fill more than 64 kB of the string table now and then
    let pad = *r.pick(&[0i64, 0, 0, 20, 100, 200, 900]);
    let pad = pad.min(160_000 / x);
    // every use of a name is looked up among all of them
    let costly = lines.iter().any(|l| l.s("k") == "movrs" && l.i("x") > 800);
    let pad = if costly { pad.min(100) } else { pad };
    // one or two names of more than 64 kB
    let (x, pad) = if r.chance(1, 8) && !costly {
        (r.range(1, 3), *r.pick(&[32764i64, 65530, 70000, 131068]) + r.range(0, 6))
    } else {
        (x, pad)
    };
    defined.push(format!("{}0{}", n, "_".repeat(pad as usize)));
    let w = r.below(3).min(1);
    let at = r.below(lines.len() as u64 + 1) as usize;
    // the section in effect afterwards is the one before
    let was = lines[..at].iter().rev().find(|l| l.s("k") == "sect").map(|l| l.i("s")).unwrap_or(0);
    let few = (60_000 / (pad + 20)).max(1);
    let mut v = vec![vec![
        jo! {"k": "sect", "s": r.below(if w == 1 { 2 } else { 3 })},
        jo! {"k": "series", "n": n.clone(), "w": w, "x": x, "pad": pad},
    ]];
    if r.chance(2, 3) {
        let k = if r.chance(1, 3) { *r.pick(&[255i64, 256, 257, 300, 520]) } else { r.range(1, 40) };
        let k = k.min(few).min(100_000 / x).max(1);
        let m = *r.pick(&[1i64, 7, 101, 255, 256]);
        let l = jo! {"k": "series", "n": n.clone(), "w": 3, "x": k, "pad": pad, "y": x, "m": m};
        v.insert(r.below(2) as usize, vec![jo! {"k": "sect", "s": r.below(2)}, l]);
    }
    if r.chance(1, 2) {
        let k = (*r.pick(&[3i64, 60, 255, 260, x])).min(few).max(1);
        v.insert(r.below(3).min(v.len() as u64) as usize, vec![jo! {"k": "series", "n": n, "w": 2, "x": k, "pad": pad}]);
    }
    let mut v: Vec<J> = v.concat();
    v.push(jo! {"k": "sect", "s": was});
    lines.splice(at..at, v);
}

/// Let some line stand many times.
fn repeat(r: &mut Rng, lines: &mut Vec<J>, big: bool) {
    let p = r.below(lines.len() as u64 + 1) as usize;
    let huge = big && r.chance(1, 8);
    let x = if huge { *r.pick(&[4095i64, 32767, 65534, 65536, 66000]) } else { *r.pick(&[3i64, 127, 250, 256, 300, 700, 1024, 4096]) };
    let x = x + r.range(-1, 2);
    if p < lines.len() && !huge && lines[p].s("k") != "lab" && lines[p].s("n").len() < 40 && lines[p].i("c") == 0 && lines[p].a("v").len() < 5 {
        // every use of a name is looked up among all of them
        let costly = lines[p].s("k") == "movrs" && lines.iter().any(|l| l.s("k") == "series" && l.i("pad") > 100);
        lines[p].set("x", J::Int(if costly { x.min(800) } else { x } as i128));
    } else {
        let k = if huge && r.chance(3, 4) { "blank" } else { *r.pick(&["blank", "blank", "glob"]) };
        let mut l = jo! {"k": k, "x": x};
        if k == "glob" {
            l.set("n", J::Str(name(r)));
        }
        if r.chance(1, 4) {
            l.set("e", J::Int(1));
        }
        lines.insert(p, l);
    }
    // sources stay below about 300 kB: the command may legitimately take them byte by byte
    let size = |l: &J| model::render_line(l).len() * model::times(l);
    while lines.iter().map(size).sum::<usize>() > 300_000 {
        match lines.iter_mut().filter(|l| l.i("x") > 1).max_by_key(|l| size(l)) {
            Some(l) => l.set("x", J::Int(1)),
            None => break,
        }
    }
}

/// Make the source one of more than a megabyte.
pub fn mega(r: &mut Rng, lines: &mut Vec<J>) {
    let at = r.below(lines.len() as u64 + 1) as usize;
    let more = r.range(0, 300);
    let v = match r.below(4) {
        0 => vec![jo! {"k": "blank", "f": 6 << 3, "c": *r.pick(&[81_000i64, 161_500, 323_000]) + more}],
        1 => vec![jo! {"k": "blank", "x": 66_000 - more, "f": 6 << 3, "c": r.range(2, 4)}],
        2 => vec![jo! {"k": "blank", "x": 1_500 + more, "f": 6 << 3, "c": 60}],
        _ => {
            // contents of more than a megabyte
            let was = lines[..at].iter().rev().find(|l| l.s("k") == "sect").map(|l| l.i("s")).unwrap_or(0);
            vec![
                jo! {"k": "sect", "s": r.below(2)},
                jo! {"k": "data", "n": "", "w": r.below(4), "v": vec![jo! {"s": "0123456789abcde;", "n": 66_000 + more}]},
                jo! {"k": "sect", "s": was},
            ]
        }
    };
    lines.splice(at..at, v);
}

pub fn valid(r: &mut Rng, max: i64, big: bool) -> (Vec<J>, bool) {
    let mut o = ProgOpt { max, big, rare: if max >= 60 { 8 } else { 60 }, used: vec![] };
    let l = program(r, &mut o);
    (l, r.chance(1, 4))
}

/// A program with at least one invalid line. A second bad line often follows.
pub fn invalid(r: &mut Rng, max: i64, big: bool) -> (Vec<J>, bool) {
    let (mut l, nonl) = valid(r, max, big);
    let k = if r.chance(1, 3) { 2 } else { 1 };
    for _ in 0..k {
        let p = r.below(l.len() as u64 + 1) as usize;
        if r.chance(1, 6) {
            // contents for .bss
            let b = if r.chance(1, 2) { jo! {"k": "data", "n": "bss_data", "w": r.below(4), "v": vec![J::Int(r.below(200) as i128)]} } else { jo! {"k": "ret"} };
            l.insert(p, b);
            l.insert(p, jo! {"k": "sect", "s": 2});
            continue;
        }
        let mut b = jo! {"k": "bad", "i": r.below(model::BAD.len() as u64), "f": r.below(8)};
        if r.chance(1, 4) {
            b.set("c", J::Int(r.range(1, 3) as i128));
        }
        l.insert(p, b);
    }
    (l, nonl)
}

/// A program refused without a promised line number (undefined symbol).
pub fn refused(r: &mut Rng, max: i64) -> (Vec<J>, bool) {
    let (mut l, nonl) = valid(r, max, false);
    let p = r.below(l.len() as u64 + 1) as usize;
    l.insert(p, jo! {"k": "movrs", "w": 64, "r": 0, "n": "no_such_symbol_1"});
    l.insert(p, jo! {"k": "sect", "s": 0});
    (l, nonl)
}

/// A stream spec with shortened and interrupted calls only; `cuts` are interesting offsets.
pub fn benign(r: &mut Rng, total: usize, cuts: &[usize]) -> J {
    let mut s = jo! {};
    match r.below(8) {
        0 => s.set("tail", J::Int(1)),
        1 => s.set("tail", J::Int(r.range(2, 9) as i128)),
        2 | 3 => {
            let n = r.range(1, 24);
            let hi = *r.pick(&[3i64, 20, 5000]);
            let ops: Vec<J> = (0..n).map(|_| J::Int(if r.chance(1, 3) { 0 } else { r.range(1, hi) as i128 })).collect();
            s.set("ops", J::Arr(ops));
            if r.chance(1, 3) {
                s.set("tail", J::Int(r.range(1, 40) as i128));
            }
        }
        4 | 5 if !cuts.is_empty() => {
            // stop exactly at interesting offsets
            let mut v: Vec<usize> = (0..r.range(1, 6)).map(|_| *r.pick(cuts)).collect();
            v.sort();
            v.dedup();
            let mut at = 0;
            let mut ops = vec![];
            for c in v {
                if c > at {
                    ops.push(J::Int((c - at) as i128));
                    at = c;
                    if r.chance(1, 3) {
                        ops.push(J::Int(0));
                    }
                }
            }
            s.set("ops", J::Arr(ops));
        }
        6 => {
            let n = r.range(1, 4);
            let ia: Vec<J> = (0..n)
                .map(|_| {
                    let at = match r.below(4) {
                        0 => 0,
                        1 => total as u64,
                        2 if !cuts.is_empty() => *r.pick(cuts) as u64,
                        _ => r.below(total as u64 + 1),
                    };
                    let c = match r.below(60) {
                        0..=2 => r.range(65, 200),
                        3 => *r.pick(&[257i64, 600, 1100, 4200, 20000]),
                        _ => r.range(1, 5),
                    };
                    J::Arr(vec![J::Int(at as i128), J::Int(c as i128)])
                })
                .collect();
            s.set("ia", J::Arr(ia));
            if r.chance(1, 2) {
                s.set("tail", J::Int(r.range(1, 9) as i128));
            }
        }
        7 if r.chance(1, 3) => {
            // every call is interrupted a few times first
            s.set("ie", J::Int(r.range(1, 4) as i128));
            s.set("tail", J::Int(*r.pick(&[0i64, 1, 3, 50])as i128));
        }
        _ => {}
    }
    s
}

/// Offsets worth cutting a source at.
pub fn src_cuts(src: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    for (i, &b) in src.iter().enumerate() {
        if b == b'\n' || b == b'\r' || b >= 0x80 {
            v.push(i);
            v.push(i + 1);
        }
        if v.len() > 400 {
            break;
        }
    }
    for k in [8191usize, 8192, 8193, 16384] {
        if k < src.len() {
            v.push(k);
        }
    }
    v
}

pub fn with_fail(r: &mut Rng, mut s: J, total: usize, cuts: &[usize], write: bool) -> J {
    let at = match r.below(6) {
        0 => 0,
        1 if !write => total as u64,
        2 | 3 if !cuts.is_empty() => *r.pick(cuts) as u64,
        _ => r.below((total as u64).max(1)),
    };
    let kinds = if r.chance(1, 2) { 28 } else { crate::stream::RKINDS as u64 };
    let kind = if write && r.chance(1, 4) { 99 } else { r.below(kinds) };
    s.set("fail", jo! {"at": at.min(total as u64), "kind": kind, "sticky": r.chance(1, 2)});
    s
}

/// An object description for at-obj.
pub fn object(r: &mut Rng) -> J {
    let mut names: Vec<String> = vec![];
    let mut sects = vec![];
    for i in 0..3 {
        let empty = r.chance(1, 4);
        let n = if empty {
            0
        } else if r.chance(1, 30) {
            r.range(1000, 70000)
        } else {
            r.range(1, 40)
        };
        let zero = if i == 2 {
            if empty {
                0
            } else {
                let b = *r.pick(&[4u32, 16, 40]);
                r.edgy(b)
            }
        } else {
            0
        };
        let mut syms = vec![];
        let k = if r.chance(1, 40) { r.range(100, 260) } else { r.below(5) as i64 };
        for _ in 0..k {
            let mut nm = name(r);
            while names.contains(&nm) {
                nm = format!("{}{}", nm, names.len());
            }
            names.push(nm.clone());
            let kd = r.below(8);
            let size = if i == 2 { zero } else { n as u64 };
            let (kind, v) = match kd {
                0 => (0, 0),
                1 => (1, r.edgy(64)),
                _ => (2, r.below(size + 1)),
            };
            let mut y = jo! {"n": nm, "k": kind, "v": v, "x": if kind == 0 { 1 } else { r.below(2) }};
            if r.chance(1, 800) && k < 5 {
                let l = *r.pick(&[32764i64, 65530, 70000, 131068]) + r.range(0, 6);
                y.set("nl", J::Int(l as i128));
            }
            syms.push(y);
        }
        sects.push(jo! {"n": if i == 2 { 0 } else { n }, "seed": r.below(1000), "z": zero, "syms": syms});
    }
    for i in 0..2 {
        let n = sects[i].i("n");
        let nsy = sects[i].a("syms").len();
        let mut rels = vec![];
        // relocations only in sections the object will contain
        if !names.is_empty() && n + nsy as i64 > 0 {
            let k = if r.chance(1, 40) { r.range(50, 300) } else { r.below(4) as i64 };
            for _ in 0..k {
                let a = if r.chance(1, 20) { r.edgy(31) } else { r.below(n.max(1) as u64) };
                rels.push(jo! {"a": a, "n": r.pick(&names).clone(), "p": r.below(2), "l": r.below(4)});
            }
        }
        sects[i].set("rels", J::Arr(rels));
    }
    // tables too long for narrow counters, stated compactly
    if r.chance(1, 60) {
        let i = r.below(3) as usize;
        let k = *r.pick(&[127i64, 255, 256, 257, 300, 513, 700, 1025, 2050, 4100]);
        let k = if k > 700 && r.chance(3, 4) { 600 } else { k };
        sects[i].set("my", J::Int((k + r.range(-1, 1)) as i128));
        // looking names up takes the code under test long
        let l = *r.pick(&[0i64, 0, 30, 130, 260, 1000]);
        sects[i].set("ml", J::Int(if k > 1500 { l.min(30) } else { l } as i128));
    }
    if r.chance(1, 60) {
        let i = r.below(2) as usize;
        if sects[i].i("n") > 0 && (!names.is_empty() || sects.iter().any(|s| s.i("my") > 0)) {
            let k = *r.pick(&[127i64, 255, 256, 257, 300, 513, 1025, 2050, 4100, 65537]);
            let k = if k > 5000 && r.chance(4, 5) { 900 } else { k };
            sects[i].set("mr", J::Int((k + r.range(-1, 1)) as i128));
        }
    }
    J::Arr(sects)
}

fn full_name(y: &J) -> String {
    let mut n = y.s("n").to_string();
    let l = y.u("nl").min(200_000) as usize;
    if n.len() < l {
        n += &"w".repeat(l - n.len());
    }
    n
}

pub fn object_model(p: &J) -> Option<model::Obj> {
    let mut long = std::collections::BTreeMap::new();
    for y in p.arr().iter().flat_map(|s| s.a("syms")) {
        if y.u("nl") > 0 {
            long.insert(y.s("n").to_string(), full_name(y));
        }
    }
    let mut o = model::Obj::default();
    let mut seen = std::collections::BTreeSet::new();
    if p.arr().len() != 3 {
        return None;
    }
    for (i, s) in p.arr().iter().enumerate() {
        let m = &mut o.s[i];
        let n = s.i("n").clamp(0, 1 << 20) as usize;
        let mut r = Rng::new(s.u("seed"));
        m.bytes = (0..n).map(|_| r.u64() as u8).collect();
        if i == 2 && n > 0 || i != 2 && s.u("z") > 0 {
            return None;
        }
        m.zero = s.u("z");
        for y in s.a("syms") {
            if y.s("n").is_empty() || !y.s("n").is_ascii() || !seen.insert(full_name(y)) {
                return None;
            }
            let kind = match y.i("k") {
                0 => model::SymKind::Undef,
                1 => model::SymKind::Abs(y.u("v")),
                _ => model::SymKind::Ref(y.u("v")),
            };
            let ext = y.i("x") != 0 || y.i("k") == 0;
            m.syms.push(model::Sym { name: full_name(y), kind, ext });
        }
        let more = s.i("my").clamp(0, 5000);
        for k in 0..more {
            let mut name = format!("y{}_{}_", i, k);
            let l = s.i("ml").clamp(0, 2000) as usize;
            // the longest names belong to every seventh symbol
            if k % 7 == 0 && name.len() < l {
                name += &"q".repeat(l - name.len());
            }
            if !seen.insert(name.clone()) {
                return None;
            }
            let v = k as u64 % (n as u64 + 1);
            m.syms.push(model::Sym { name, kind: model::SymKind::Ref(v), ext: k % 3 == 0 });
        }
        if i == 2 && s.i("mr") > 0 {
            return None;
        }
        for q in s.a("rels") {
            if i == 2 {
                return None;
            }
            m.rels.push(model::Rel {
                addr: q.i("a"),
                name: long.get(q.s("n")).cloned().unwrap_or_else(|| q.s("n").into()),
                pcrel: q.i("p") != 0,
                len: (q.u("l") & 3) as u8,
            });
        }
    }
    let all: Vec<String> = seen.iter().cloned().collect();
    for i in 0..2 {
        let more = p.arr()[i].i("mr").clamp(0, 70000);
        if more > 0 && all.is_empty() {
            return None;
        }
        for k in 0..more {
            let h = crate::rng::mix(k as u64 ^ p.arr()[i].u("seed"));
            // few different names: looking them up takes the code under test long
            let name = all[(h >> 8) as usize % all.len().min(if more > 3000 { 9 } else { 5000 })].clone();
            o.s[i].rels.push(model::Rel { addr: k % (1 << 24), name, pcrel: h & 1 != 0, len: (h >> 1 & 3) as u8 });
        }
    }
    for s in &o.s {
        if s.bytes.is_empty() && s.syms.is_empty() && !s.rels.is_empty() {
            return None;
        }
        if s.rels.iter().any(|q| !seen.contains(&q.name) || q.addr < 0 || q.addr > i32::MAX as i64) {
            return None;
        }
    }
    Some(o)
}

/// The same object, built with the code under test's types.
pub fn object_sut(o: &model::Obj) -> at_obj::Object {
    let mut x = at_obj::Object::new();
    let sym = |y: &model::Sym| match y.kind {
        model::SymKind::Undef => at_obj::Symbol::Undef { name: y.name.clone() },
        model::SymKind::Abs(v) => at_obj::Symbol::Abs { name: y.name.clone(), val: v, ext: y.ext },
        model::SymKind::Ref(a) => at_obj::Symbol::Ref { name: y.name.clone(), addr: a, ext: y.ext },
    };
    let rel = |q: &model::Rel| at_obj::Reloc { addr: q.addr as i32, symbol: q.name.clone(), pcrel: q.pcrel, len: q.len };
    x.sections.text.bytes = o.s[0].bytes.clone();
    x.sections.text.symbols = o.s[0].syms.iter().map(sym).collect();
    x.sections.text.relocs = o.s[0].rels.iter().map(rel).collect();
    x.sections.data.bytes = o.s[1].bytes.clone();
    x.sections.data.symbols = o.s[1].syms.iter().map(sym).collect();
    x.sections.data.relocs = o.s[1].rels.iter().map(rel).collect();
    x.sections.bss.size = o.s[2].zero;
    x.sections.bss.symbols = o.s[2].syms.iter().map(sym).collect();
    x
}
