//! Properties of the at-asm command: P05, P06, P07, P08, P15, P16, and the command's share of
//! P02 and P14. One executor serves them all: a plan is an initial directory and a list of
//! steps (edits, and phases of one or more concurrent runs); the oracles differ.
use crate::cli::*;
use crate::ctx::*;
use crate::gen;
use crate::jo;
use crate::json::J;
use crate::model;
use crate::rng::Rng;
use std::fs;
use std::path::Path;

// ---------------------------------------------------------------- plans

const SRCS: [&str; 16] = [
    "a.asm", "a.asm", "a.asm", "x.s", "src/prog.asm", "noext", "a.b.asm", "p.q/f.asm", ".asm", "my prog.asm", "\u{e9}.asm", "d/e/x.S",
    "-old.asm", "x.asm.d/f.asm", "m.asm.asm", "..a.asm",
];
const OUTS: [&str; 8] = ["a.o", "a.o", "out/x.o", "b", "x.obj", "o ut.o", "\u{e9}.o", "a.b.o"];

/// kinds of source
fn src_entry(r: &mut Rng, path: &str, kind: u64) -> J {
    let big = r.chance(1, 12);
    let max = if big { 60 } else { 10 };
    let (mut l, nonl) = match kind {
        0 => gen::valid(r, max, big),
        1 => gen::invalid(r, max, big),
        2 => gen::refused(r, max),
        _ => gen::valid(r, max, false),
    };
    if big && r.chance(1, 150) {
        gen::mega(r, &mut l);
    }
    let mut f = jo! {"p": path, "lines": l, "nonl": nonl};
    if kind == 3 {
        // a byte that ends the text's being UTF-8
        let n = source(&f).len() as u64;
        for _ in 0..8 {
            let at = if r.chance(1, 4) { n } else { r.below(n + 1) };
            let b = *r.pick(&[0xffu64, 0xc0, 0x80, 0xe4, 0xf5, 0xc3]);
            f.set("dmg", jo! {"at": at, "b": b});
            if std::str::from_utf8(&source(&f)).is_err() {
                break;
            }
        }
    }
    f
}

fn img_of(f: &J) -> Vec<u8> {
    match model::assemble(f.a("lines")) {
        Some(Ok(o)) => model::image(&o).unwrap(),
        _ => vec![],
    }
}

fn some_transfers(r: &mut Rng, total: usize, cuts: &[usize]) -> (Vec<J>, i64) {
    let s = gen::benign(r, total, cuts);
    let mut ops = s.a("ops").to_vec();
    // interruptions at places become interruptions by count here
    for x in s.a("ia") {
        let at = (x.arr()[0].int() as u64).min(30) as usize;
        let n = x.arr()[1].int().min(300);
        let mut v = vec![J::Int(if at == 0 { 1 } else { at as i128 })];
        v.extend((0..n).map(|_| J::Int(0)));
        if at == 0 {
            v.remove(0);
        }
        ops.extend(v);
    }
    let mut tail = s.i("tail");
    if tail > 0 && total as i64 / tail > 700 {
        tail = total as i64 / 700 + 1;
    }
    (ops, tail)
}

/// Shortened and interrupted calls only.
fn benign_proc(r: &mut Rng, src: &str, out: &str, bytes: &[u8], img: usize) -> J {
    let mut p = jo! {"src": src, "out": out, "form": r.below(2)};
    if r.chance(3, 5) {
        let (ops, t) = some_transfers(r, bytes.len(), &gen::src_cuts(bytes));
        if !ops.is_empty() {
            p.set("r", J::Arr(ops));
        }
        if t > 0 {
            p.set("rt", J::Int(t as i128));
        }
    }
    if r.chance(3, 5) {
        let (ops, t) = some_transfers(r, img, &[32, 104]);
        if !ops.is_empty() {
            p.set("w", J::Arr(ops));
        }
        if t > 0 {
            p.set("wt", J::Int(t as i128));
        }
    }
    if r.chance(1, 4) {
        // interrupted opens; 1 lets one pass
        let n = r.range(1, 6);
        p.set("o", J::Arr((0..n).map(|_| J::Int(r.below(2) as i128)).collect()));
    }
    if r.chance(1, 3) {
        p.set("e", J::Arr((0..r.range(1, 12)).map(|_| J::Int(r.below(4) as i128)).collect()));
    }
    if r.chance(1, 5) {
        p.set("ino", J::Int(r.range(1, 2) as i128));
    }
    if r.chance(1, 5) {
        p.set("stdin", J::Int(r.range(1, 4) as i128));
    }
    p
}

const RERR: [i32; 16] = [
    libc::EIO, libc::EIO, libc::EISDIR, libc::EBADF, libc::EAGAIN, libc::ESTALE, libc::ENOMEM, libc::ETIMEDOUT, libc::EINVAL, libc::EPIPE,
    libc::ECONNRESET, libc::ENXIO, libc::EACCES, libc::EPERM, libc::EOVERFLOW, libc::ENODEV,
];
const WERR: [i32; 16] = [
    libc::ENOSPC, libc::ENOSPC, libc::EDQUOT, libc::EIO, libc::EFBIG, libc::EAGAIN, libc::EPIPE, libc::EBADF, libc::EROFS, 999, libc::EINVAL,
    libc::ENXIO, libc::EPERM, libc::ENOMEM, libc::ESTALE, libc::ETIMEDOUT,
];

/// Adds at least one failing system call.
fn failing(r: &mut Rng, mut p: J, src: &[u8], img: usize) -> J {
    let rerr = RERR;
    let werr = WERR;
    let oerr = [libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ENOSPC, libc::EROFS, libc::ENOMEM, libc::EPERM, libc::ETXTBSY];
    let merr = [libc::EIO, libc::EACCES, libc::EPERM, libc::ENOSPC, libc::ENOMEM, libc::EROFS, libc::ELOOP];
    let k = if r.chance(1, 6) { 2 } else { 1 };
    for _ in 0..k {
        match r.below(12) {
            0..=4 => {
                let n = img.max(1) as u64;
                let at = match r.below(4) {
                    0 => 0,
                    1 => n - 1,
                    _ => r.below(n),
                };
                p.set("disk", jo! {"at": at, "err": *r.pick(&werr)});
            }
            5 | 6 => {
                let n = src.len() as u64;
                let at = match r.below(4) {
                    0 => 0,
                    1 => n,
                    _ => r.below(n + 1),
                };
                p.set("rfail", jo! {"at": at, "err": *r.pick(&rerr), "sticky": r.chance(1, 2)});
            }
            7 => {
                let mut w = p.a("w").to_vec();
                let i = r.below(w.len() as u64 + 1) as usize;
                w.insert(i, J::Int(-*r.pick(&werr) as i128));
                if i == 0 && r.chance(1, 2) {
                    w.insert(0, J::Int(r.range(1, img.max(2) as i64) as i128));
                }
                p.set("w", J::Arr(w));
            }
            8 => {
                let mut w = p.a("r").to_vec();
                let i = r.below(w.len() as u64 + 1) as usize;
                w.insert(i, J::Int(-*r.pick(&rerr) as i128));
                p.set("r", J::Arr(w));
            }
            9 | 10 => {
                let mut w: Vec<J> = p.a("o").to_vec();
                let i = r.below(3) as usize;
                while w.len() < i {
                    w.push(J::Int(1));
                }
                w.insert(i, J::Int(-*r.pick(&oerr) as i128));
                p.set("o", J::Arr(w));
            }
            _ => {
                let i = r.below(8) as usize;
                let mut w: Vec<J> = vec![J::Int(1); i];
                w.push(J::Int(-*r.pick(&merr) as i128));
                p.set("m", J::Arr(w));
            }
        }
    }
    if r.chance(1, 6) {
        let e = r.range(1, 3);
        p.set("e", J::Arr((0..e).map(|_| J::Int(*r.pick(&[-(libc::EPIPE as i128), -(libc::ENOSPC as i128), 3, 0]))).collect()));
    }
    p
}

/// An allocation is refused: one, or all from there on, or all large ones.
fn starved(r: &mut Rng, mut p: J) -> J {
    let at = match r.below(4) {
        0 => r.below(20),
        1 => r.below(400),
        _ => r.below(80),
    };
    let min = match r.below(4) {
        0 => *r.pick(&[64u64, 500, 1000, 4096, 8192, 9000]),
        _ => 0,
    };
    let at = if min > 0 { r.below(6) } else { at };
    p.set("oom", jo! {"at": at, "sticky": r.chance(1, 2), "min": min});
    p
}

/// The surroundings of a run: none of them may matter.
fn world(r: &mut Rng, mut p: J) -> J {
    if r.chance(2, 3) {
        let c = match r.below(5) {
            0 => *r.pick(&[0i64, 1, -1, 2147483647, 2147483648, 4294967295, 4294967296, 253402300800]),
            _ => r.range(0, 4_000_000_000),
        };
        p.set("clk", J::Int(c as i128));
        p.set("step", J::Int(*r.pick(&[1i64, 0, 1000, 86_400_000, -1, -1000, -86_400_000]) as i128));
    }
    if r.chance(2, 3) {
        let mut v = vec![];
        for _ in 0..r.range(1, 5) {
            let k = *r.pick(&[
                "HOME", "LANG", "LC_ALL", "TZ", "SOURCE_DATE_EPOCH", "USER", "PWD", "TERM", "COLUMNS", "RUST_LOG", "NO_COLOR", "DEBUG",
                "ASFLAGS", "CFLAGS", "AS", "PATH", "LC_CTYPE", "MACOSX_DEPLOYMENT_TARGET", "SDKROOT", "VERBOSE", "X",
            ]);
            let x = match r.below(6) {
                0 => String::new(),
                1 => "1".into(),
                2 => (*r.pick(&["C", "tr_TR.UTF-8", "ja_JP.eucJP", "10.15", "11", "debug", "/nonexistent", "0"])).into(),
                3 => "\u{e9}".repeat(r.range(1, 50) as usize),
                _ => format!("{}", r.below(1 << 40)),
            };
            v.push(jo! {"k": k, "v": x});
        }
        p.set("env", J::Arr(v));
    }
    if r.chance(2, 3) {
        p.set("aenv", J::Int(r.range(1, 1 << 40) as i128));
    }
    if r.chance(2, 3) {
        p.set("heap", J::Int(r.below(100000) as i128));
        p.set("fillb", J::Int(r.below(256) as i128));
    }
    p.set("ent", J::Int(r.below(1 << 60) as i128));
    p.set("pid", J::Int(r.below(4000000) as i128));
    if r.chance(1, 3) {
        p.set("gift", J::Int(r.range(1, 50) as i128));
    }
    if r.chance(1, 3) {
        p.set("argv0", J::Str((*r.pick(&["as", "/usr/bin/at-asm-debug", "at-asm32", "./a", "-", "\u{e9}"])).into()));
    }
    if r.chance(1, 3) {
        p.set("umask", J::Int(r.below(64) as i128));
    }
    p
}

fn gen_p20(r: &mut Rng) -> J {
    let kind = *r.pick(&[0u64, 0, 0, 0, 0, 0, 1, 2]);
    let first = src_entry(r, "a.asm", kind);
    let bytes = source(&first);
    let img = img_of(&first).len();
    let n = r.range(2, 4) as usize;
    let mut files: Vec<J> = vec![jo! {"p": "wd", "dir": 1}, jo! {"p": "o", "dir": 1}];
    let mut steps = vec![];
    let mut srcs: Vec<String> = vec![];
    // a directory where other files lie under the same names
    let decoy = r.chance(1, 4);
    if decoy {
        for s in ["a.asm", "b.asm", "quite/another/place/with a longer name.s", "main"] {
            let mut f = tweak(r, &first);
            f.set("p", J::Str(format!("pw/{}", s)));
            files.push(f);
        }
        for o in ["a.o", "o/b.o", "c", "at-asm.toml"] {
            files.push(jo! {"p": format!("pw/{}", o), "fill": r.below(1000), "len": r.below(100)});
        }
    }
    for i in 0..n {
        let s = match i {
            0 => "a.asm".to_string(),
            _ if r.chance(1, 2) => r.pick(&srcs).clone(),
            _ => ["", "b.asm", "quite/another/place/with a longer name.s", "main"][i].to_string(),
        };
        if !srcs.contains(&s) {
            let mut f = first.clone();
            f.set("p", J::Str(s.clone()));
            if r.chance(2, 3) {
                f.set("mt", J::Int(r.range(0, 4_000_000_000) as i128));
            }
            files.push(f);
            srcs.push(s.clone());
        }
        let away = r.chance(1, 3);
        let sa = if away || r.chance(1, 4) { format!("@{}", s) } else { s.clone() };
        let o = ["a.o", "o/b.o", "wd/c", "longer output name.obj"][i].to_string();
        let oa = if away || r.chance(1, 4) { format!("@{}", o) } else { o.clone() };
        if r.chance(1, 4) {
            files.push(jo! {"p": o, "fill": r.below(1000), "len": r.below(2 * img as u64 + 1)});
        }
        let p = benign_proc(r, &sa, &oa, &bytes, img);
        let mut p = world(r, p);
        if decoy && r.chance(2, 3) {
            p.set("decoy", J::Str("pw".into()));
            if p.get("aenv").is_null() {
                p.set("aenv", J::Int(r.range(1, 1 << 40) as i128));
            }
        }
        if away {
            p.set("cwd", J::Str("wd".into()));
        }
        steps.push(run1(p));
    }
    one(files, steps)
}

fn killed(r: &mut Rng, mut p: J, img: usize) -> J {
    let n = (p.a("r").len() + p.a("w").len()).min(60) as i64;
    let hi = if r.chance(2, 3) { 16 } else { 16 + n + if p.i("rt") > 0 || p.i("wt") > 0 { 200 } else { 0 } };
    let n = r.below(img as u64 + 1);
    p.set("kill", jo! {"ev": r.range(1, hi), "mode": *r.pick(&[0i64, 1, 2, 2, 2]), "n": n});
    p
}

/// The output as an earlier run may have left it: the object of this or of a similar source,
/// with something added, cut off or changed.
fn earlier(r: &mut Rng, out: &str, f: &J) -> J {
    let g = if r.chance(1, 2) { tweak(r, f) } else { f.clone() };
    let mut o = jo! {"p": out, "olines": g.get("lines").clone()};
    let img = img_of(&g).len().max(1) as u64;
    match r.below(5) {
        0 => o.set("add", J::Int(r.range(1, 600) as i128)),
        1 => o.set("cut", J::Int(r.below(img) as i128)),
        2 => {
            let at = if r.chance(1, 2) { img - 1 - r.below(img.min(40)) } else { r.below(img) };
            o.set("at", J::Int(at as i128));
            if r.chance(1, 4) {
                o.set("add", J::Int(r.range(1, 600) as i128));
            }
        }
        _ => {}
    }
    o
}

/// The same source with one value, register or name changed and its length kept where possible.
fn tweak(r: &mut Rng, f: &J) -> J {
    let mut f = f.clone();
    let mut l = f.a("lines").to_vec();
    if l.is_empty() {
        return f;
    }
    for _ in 0..20 {
        // changes near the end more often: a shortcut may look at the start only
        let n = l.len() as u64;
        let i = (if r.chance(1, 2) { n - 1 - r.below(n.min(4)) } else { r.below(n) }) as usize;
        let digit = |r: &mut Rng, v: i128| if v % 10 == 9 { v - 1 - r.below(5) as i128 } else { v + 1 };
        match l[i].s("k").to_string().as_str() {
            "movri" => {
                let mut e = l[i].a("e").to_vec();
                if e.len() == 1 {
                    e[0] = J::Int(digit(r, e[0].int()));
                } else {
                    continue;
                }
                l[i].set("e", J::Arr(e));
            }
            "pushi" => {
                let v = l[i].i("v") as i128;
                l[i].set("v", J::Int(digit(r, v)));
            }
            "movrr" | "movrs" | "pushr" => {
                let v = l[i].i("r");
                l[i].set("r", J::Int((v ^ 1) as i128));
            }
            "data" => {
                let mut e = l[i].a("v").to_vec();
                if e.is_empty() {
                    continue;
                }
                let j = r.below(e.len() as u64) as usize;
                match &e[j] {
                    J::Int(v) => e[j] = J::Int(digit(r, *v)),
                    J::Str(s) if s.len() > 0 && s.is_ascii() && !s.starts_with('"') => e[j] = J::Str(format!("{}{}", if s.starts_with('k') { "j" } else { "k" }, &s[1..])),
                    _ => continue,
                }
                l[i].set("v", J::Arr(e));
            }
            "glob" => {
                let k = r.below(l.len() as u64) as usize;
                let o = l[k].s("n").to_string();
                if o.is_empty() {
                    continue;
                }
                l[i].set("n", J::Str(o));
            }
            "lab" => {
                // another name of the same length, everywhere
                let o = l[i].s("n").to_string();
                let c = if o.ends_with('w') { "k" } else { "w" };
                let m = format!("{}{}", &o[..o.len() - 1], c);
                if !o.is_ascii() || ["w", "k"].contains(&m.as_str()) || l.iter().any(|x| x.s("n") == m) {
                    continue;
                }
                for x in l.iter_mut() {
                    if x.s("n") == o {
                        x.set("n", J::Str(m.clone()));
                    }
                }
            }
            _ => continue,
        }
        break;
    }
    f.set("lines", J::Arr(l));
    f
}

fn prior(r: &mut Rng, out: &str, img: usize, files: &mut Vec<J>) {
    if r.chance(1, 4) && files.first().map_or(false, |f| !f.get("lines").is_null() && f.get("dmg").is_null()) && img_of(&files[0]).len() > 0 {
        let f = files[0].clone();
        let e = earlier(r, out, &f);
        files.push(e);
        return;
    }
    let fill = r.below(1000);
    let len = match r.below(8) {
        0 | 1 | 2 => return,
        3 => 0,
        4 => r.below(img as u64 + 1),
        _ => img as u64 + r.range(1, 3000) as u64,
    };
    if r.chance(1, 8) {
        let t = "tgt.bin";
        if r.chance(3, 4) {
            files.push(jo! {"p": t, "fill": fill, "len": len});
        }
        let up = "../".repeat(out.matches('/').count());
        if up.is_empty() {
            files.push(jo! {"p": out, "link": t});
            return;
        }
    }
    files.push(jo! {"p": out, "fill": fill, "len": len});
}

/// Source path, output argument and output path.
fn paths(r: &mut Rng) -> (String, String, String) {
    loop {
        let s = r.pick(&SRCS).to_string();
        let o = if r.chance(1, 4) { String::new() } else { r.pick(&OUTS).to_string() };
        let sa = if r.chance(1, 6) { format!("@{}", s) } else { s.clone() };
        let oa = if !o.is_empty() && r.chance(1, 6) { format!("@{}", o) } else { o };
        let out = out_path(&sa, &oa);
        if out != s {
            return (sa, oa, out);
        }
    }
}

/// A file below `out`'s directory so that the directory exists.
fn mkdirs(out: &str, files: &mut Vec<J>) {
    if let Some(i) = out.rfind('/') {
        files.push(jo! {"p": &out[..i], "dir": 1});
    }
}

fn one(files: Vec<J>, steps: Vec<J>) -> J {
    jo! {"files": files, "steps": steps}
}
fn run1(p: J) -> J {
    jo! {"procs": vec![p]}
}

pub fn gen_plan(prop: &str, r: &mut Rng) -> J {
    match prop {
        "P06" => gen_p06(r),
        "P07" => gen_p07(r),
        "P08" => gen_p08(r),
        "P14" => gen_p14(r),
        "P20" => gen_p20(r),
        "P22" => match r.below(12) {
            0 if r.chance(1, 2) => malformed(r),
            0 | 1 => gen_p06(r),
            2 => gen_plan("P15", r),
            3..=7 => gen_plan("P05", r),
            _ => gen_plan("P16", r),
        },
        "P02" => {
            let (sa, oa, out) = paths(r);
            let dmg = r.chance(1, 3);
            let f = src_entry(r, sa.trim_start_matches('@'), if dmg { 3 } else { 0 });
            let bytes = source(&f);
            let img = img_of(&f).len();
            let mut p = benign_proc(r, &sa, &oa, &bytes, img);
            if !dmg {
                let n = bytes.len() as u64;
                let at = match r.below(4) {
                    0 => 0,
                    1 => n,
                    2 => *r.pick(&gen::src_cuts(&bytes).into_iter().map(|x| x as u64).chain([0]).collect::<Vec<_>>()),
                    _ => r.below(n + 1),
                };
                let e = *r.pick(&RERR);
                p.set("rfail", jo! {"at": at, "err": e, "sticky": r.chance(1, 2)});
            }
            let mut files = vec![f];
            mkdirs(&out, &mut files);
            prior(r, &out, img, &mut files);
            one(files, vec![run1(p)])
        }
        "P15" => {
            let (sa, oa, out) = paths(r);
            let f = src_entry(r, sa.trim_start_matches('@'), 1);
            let bytes = source(&f);
            let mut p = benign_proc(r, &sa, &oa, &bytes, 300);
            if r.chance(1, 8) {
                // the diagnostic is refused
                let i = r.below(4) as usize;
                let mut e: Vec<J> = (0..i).map(|_| J::Int(r.below(4) as i128)).collect();
                let n = *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN, libc::EBADF]);
                for _ in 0..*r.pick(&[1u64, 1, 40]) {
                    e.push(J::Int(-(n as i128)));
                }
                p.set("e", J::Arr(e));
            } else if r.chance(1, 8) {
                p = failing(r, p, &bytes, 300);
            }
            let mut files = vec![f];
            mkdirs(&out, &mut files);
            prior(r, &out, 300, &mut files);
            one(files, vec![run1(p)])
        }
        "P05" => {
            let (sa, oa, out) = paths(r);
            let kind = *r.pick(&[0u64, 0, 0, 0, 0, 1, 2, 3]);
            let f = src_entry(r, sa.trim_start_matches('@'), kind);
            let bytes = source(&f);
            let img = img_of(&f).len();
            let mut p = benign_proc(r, &sa, &oa, &bytes, img);
            let mut files = vec![f];
            let odd = r.below(16);
            match odd {
                0 => {
                    files[0] = jo! {"p": sa.trim_start_matches('@'), "dir": 1};
                }
                1 => {
                    files[0] = jo! {"p": sa.trim_start_matches('@'), "gone": 1};
                }
                _ => {}
            }
            match odd {
                2 => {
                    // the output is a directory
                    files.push(jo! {"p": out.as_str(), "dir": 1});
                }
                3 => {
                    p.set("out", J::Str("nodir/x.o".into()));
                }
                _ => {
                    mkdirs(&out, &mut files);
                    prior(r, &out, img, &mut files);
                }
            }
            if kind == 0 && odd > 3 || r.chance(1, 4) {
                p = failing(r, p, &bytes, img);
            }
            one(files, vec![run1(p)])
        }
        _ => {
            // P16
            if r.chance(1, 24) {
                return malformed(r);
            }
            if r.chance(1, 16) {
                return gen_p06(r);
            }
            let (sa, oa, out) = paths(r);
            let kind = *r.pick(&[0u64, 0, 0, 0, 0, 0, 0, 1, 2, 3]);
            let f = src_entry(r, sa.trim_start_matches('@'), kind);
            let bytes = source(&f);
            let img = img_of(&f).len();
            let mut p = benign_proc(r, &sa, &oa, &bytes, img);
            if r.chance(2, 5) {
                p = failing(r, p, &bytes, img);
            }
            if r.chance(1, 10) {
                p = starved(r, p);
            }
            let mut files = vec![f];
            if r.chance(1, 40) {
                // there is no source of that name
                files[0] = jo! {"p": sa.trim_start_matches('@')};
                files[0].set(*r.pick(&["dir", "gone"]), J::Int(1));
            }
            mkdirs(&out, &mut files);
            prior(r, &out, img, &mut files);
            one(files, vec![run1(p)])
        }
    }
}

/// Command lines that do not name exactly one source, or name no output after -o.
fn malformed(r: &mut Rng) -> J {
    let f = src_entry(r, "a.asm", 0);
    let g = src_entry(r, "b.asm", 0);
    let w = |s: &str, o: &[&str]| jo! {"src": s, "outs": o.iter().map(|x| J::Str(x.to_string())).collect::<Vec<_>>()};
    let (args, want): (&[&str], Vec<J>) = match r.below(10) {
        0 => (&[], vec![]),
        1 => (&["-o", "x.o"], vec![]),
        2 => (&["-o", "a.asm"], vec![]),
        3 => (&["a.asm", "-o"], vec![w("a.asm", &["a.o"])]),
        4 => (&["-o"], vec![]),
        5 => (&["a.asm", "b.asm"], vec![w("a.asm", &["a.o"]), w("b.asm", &["b.o"])]),
        6 => (&["-o", "x.o", "-o", "y.o", "a.asm"], vec![w("a.asm", &["x.o", "y.o"])]),
        7 => (&["-o", "x.o", "a.asm", "b.asm"], vec![w("a.asm", &["x.o"]), w("b.asm", &["x.o"])]),
        8 => (&["-o", "a.asm", "a.asm", "b.asm"], vec![w("a.asm", &["a.o"]), w("b.asm", &["b.o"])]),
        _ => (&["a.asm", "a.asm", "b.asm", "x.o"], vec![w("a.asm", &["a.o"]), w("b.asm", &["b.o"])]),
    };
    let mut p = benign_proc(r, "a.asm", "", &source(&f), img_of(&f).len());
    p.set("args", J::Arr(args.iter().map(|x| J::Str(x.to_string())).collect()));
    p.set("want", J::Arr(want));
    let mut files = vec![f, g];
    prior(r, "a.o", 300, &mut files);
    one(files, vec![run1(p)])
}

fn gen_p06(r: &mut Rng) -> J {
    if r.chance(1, 24) {
        return malformed(r);
    }
    let kind = *r.pick(&[0u64, 0, 0, 0, 1, 2, 3]);
    let mut files = vec![];
    let (src, out): (String, String);
    let f;
    match r.below(12) {
        0 | 1 => {
            let s = r.pick(&SRCS).to_string();
            f = src_entry(r, &s, kind);
            src = s.clone();
            out = s;
        }
        2 => {
            f = src_entry(r, "a.asm", kind);
            let (a, b) = *r.pick(&[("a.asm", "./a.asm"), ("./a.asm", "a.asm"), ("@a.asm", "a.asm"), ("a.asm", "@a.asm"), ("d/../a.asm", "a.asm"), ("a.asm", "d/../a.asm"), ("a.asm", ".//a.asm")]);
            files.push(jo! {"p": "d", "dir": 1});
            src = a.into();
            out = b.into();
        }
        3 => {
            // default naming hits the source
            let s = *r.pick(&["a.o", "d/x.o", "a.b.o"]);
            f = src_entry(r, s, kind);
            src = if r.chance(1, 4) { format!("@{}", s) } else { s.into() };
            out = String::new();
        }
        4 | 5 => {
            f = src_entry(r, "a.asm", kind);
            files.push(jo! {"p": "l.o", "link": "a.asm"});
            src = "a.asm".into();
            out = "l.o".into();
        }
        6 => {
            f = src_entry(r, "a.asm", kind);
            files.push(jo! {"p": "h.o", "hard": "a.asm"});
            src = "a.asm".into();
            out = "h.o".into();
        }
        7 => {
            // the source argument is the link
            f = src_entry(r, "real.asm", kind);
            files.push(jo! {"p": "l.asm", "link": "real.asm"});
            src = "l.asm".into();
            out = (*r.pick(&["real.asm", "l.asm", "./real.asm"])).into();
        }
        8 => {
            f = src_entry(r, "d/a.asm", kind);
            files.push(jo! {"p": "ld", "link": "d"});
            src = "d/a.asm".into();
            out = "ld/a.asm".into();
        }
        9 => {
            // a chain of links, default naming
            f = src_entry(r, "a.asm", kind);
            files.push(jo! {"p": "l2", "link": "a.asm"});
            files.push(jo! {"p": "a.o", "link": "l2"});
            src = "a.asm".into();
            out = String::new();
        }
        10 => {
            // two hard links, one of them the default output
            f = src_entry(r, "a.asm", kind);
            files.push(jo! {"p": "a.o", "hard": "a.asm"});
            src = "a.asm".into();
            out = String::new();
        }
        _ => {
            let (sa, oa, o) = paths(r);
            f = src_entry(r, sa.trim_start_matches('@'), kind);
            mkdirs(&o, &mut files);
            prior(r, &o, 300, &mut files);
            src = sa;
            out = oa;
        }
    }
    let bytes = source(&f);
    let img = img_of(&f).len();
    files.insert(0, f);
    let n = if r.chance(1, 8) { 2 } else { 1 };
    let steps = (0..n)
        .map(|_| {
            let mut p = benign_proc(r, &src, &out, &bytes, img);
            if r.chance(1, 3) {
                p = failing(r, p, &bytes, img);
            }
            if r.chance(1, 3) {
                p = killed(r, p, img);
            }
            if r.chance(1, 10) {
                p = starved(r, p);
            }
            run1(p)
        })
        .collect();
    one(files, steps)
}

fn gen_p07(r: &mut Rng) -> J {
    let (sa, oa, out) = paths(r);
    let s = sa.trim_start_matches('@').to_string();
    let mut f = src_entry(r, &s, 0);
    let mut files = vec![f.clone()];
    mkdirs(&out, &mut files);
    prior(r, &out, img_of(&f).len(), &mut files);
    let mut steps = vec![];
    let n = r.range(1, 5);
    for _ in 0..n {
        let bytes = source(&f);
        let img = img_of(&f).len();
        let mut p = benign_proc(r, &sa, &oa, &bytes, img);
        match r.below(8) {
            0..=3 => p = killed(r, p, img),
            4 | 5 => p = failing(r, p, &bytes, img),
            6 => {
                let q = failing(r, p, &bytes, img);
                p = killed(r, q, img)
            }
            7 if r.chance(1, 2) => p = starved(r, p),
            _ => {}
        }
        steps.push(run1(p));
        match r.below(8) {
            0..=2 => {
                let k = *r.pick(&[0u64, 0, 0, 1, 2]);
                f = src_entry(r, &s, k);
                steps.push(jo! {"edit": f.clone()});
            }
            3 | 4 => {
                f = tweak(r, &f);
                steps.push(jo! {"edit": f.clone()});
            }
            5 => {
                // back to the first version
                f = files[0].clone();
                steps.push(jo! {"edit": f.clone()});
            }
            _ => {}
        }
    }
    if !matches!(model::assemble(f.a("lines")), Some(Ok(_))) {
        f = src_entry(r, &s, 0);
        steps.push(jo! {"edit": f.clone()});
    }
    let last = if r.chance(1, 2) {
        jo! {"src": sa, "out": oa, "form": r.below(2)}
    } else {
        let bytes = source(&f);
        let img = img_of(&f).len();
        benign_proc(r, &sa, &oa, &bytes, img)
    };
    steps.push(run1(last));
    one(files, steps)
}

fn gen_p08(r: &mut Rng) -> J {
    let n = r.range(2, 3) as usize;
    let mut files: Vec<J> = vec![];
    let mut procs = vec![];
    let mut outs: Vec<String> = vec![];
    let mut srcs: Vec<J> = vec![];
    let family = r.below(6);
    for i in 0..n {
        let f = if i > 0 && r.chance(1, 3) {
            r.pick(&srcs).clone()
        } else {
            let kind = *r.pick(&[0u64, 0, 0, 0, 0, 1]);
            let p = match family {
                0 => ["a.asm", "b.asm", "c.asm"][i].to_string(),
                1 => ["a.asm", "a.s", "a.txt"][i].to_string(),
                2 => ["d/a.asm", "e/a.asm", "a.asm"][i].to_string(),
                3 => ["x.asm.d/a.asm", "x.o.d/a.asm", "x.d/a"][i].to_string(),
                4 => ["m.asm.asm", "m.asm", ".m.asm"][i].to_string(),
                _ => ["a", "a.b.asm", "a.b"][i].to_string(),
            };
            let f = src_entry(r, &p, kind);
            files.push(f.clone());
            srcs.push(f.clone());
            f
        };
        let sa = f.s("p").to_string();
        let mut oa;
        let mut out;
        let mut tries = 0;
        loop {
            oa = match r.below(6) {
                0 | 1 if tries < 5 => String::new(),
                2 => format!("out{}.o", i),
                3 => ["x.o", "x.obj", "x"][i].to_string(),
                4 => format!("o/{}.o", ["a", "b", "c"][i]),
                _ => ["a.o", "a.o2", "a.o.o"][i].to_string(),
            };
            if !oa.is_empty() && r.chance(1, 8) {
                oa = format!("@{}", oa);
            }
            out = out_path(&sa, &oa);
            tries += 1;
            if !outs.contains(&out) {
                break;
            }
        }
        outs.push(out.clone());
        let bytes = source(&f);
        let img = img_of(&f).len();
        let mut p = benign_proc(r, &sa, &oa, &bytes, img);
        if i > 0 || r.chance(1, 8) {
            match r.below(6) {
                0 => p = failing(r, p, &bytes, img),
                1 => p = killed(r, p, img),
                2 if r.chance(1, 3) => p = starved(r, p),
                _ => {}
            }
        }
        procs.push(p);
        mkdirs(&out, &mut files);
        if r.chance(1, 2) {
            let len = if r.chance(1, 2) { img as u64 + r.below(500) } else { r.below(img as u64 + 1) };
            files.push(jo! {"p": out, "fill": r.below(1000), "len": len});
        }
    }
    // bystanders that must stay as they are
    for b in ["a.tmp", "a.o.tmp", "z.o", "a.o~", "x.lock"] {
        if r.chance(1, 4) && !outs.iter().any(|o| o == b) {
            files.push(jo! {"p": b, "fill": r.below(1000), "len": r.below(60)});
        }
    }
    files.retain(|f| !outs.contains(&f.s("p").to_string()) || f.get("lines").is_null());
    let k = r.range(10, 120);
    let mut sched = vec![];
    while (sched.len() as i64) < k {
        let t = r.below(n as u64);
        let b = if r.chance(1, 2) { r.range(1, 10) } else { 1 };
        for _ in 0..b {
            sched.push(J::Int(t as i128));
        }
    }
    one(files, vec![jo! {"procs": procs, "sched": sched}])
}

fn gen_p14(r: &mut Rng) -> J {
    let (sa, oa, out) = paths(r);
    let kind = *r.pick(&[0u64, 0, 0, 1, 2, 3]);
    let f = src_entry(r, sa.trim_start_matches('@'), kind);
    let bytes = source(&f);
    let img = img_of(&f).len();
    let mut p = benign_proc(r, &sa, &oa, &bytes, img);
    let flood = |r: &mut Rng, v: &[J]| {
        let mut v = v.to_vec();
        let i = r.below(v.len() as u64 + 1) as usize;
        let n = r.range(10, 400);
        for _ in 0..n {
            v.insert(i, J::Int(0));
        }
        J::Arr(v)
    };
    for k in ["r", "w", "o", "e"] {
        if r.chance(1, 3) {
            let v = flood(r, p.a(k));
            p.set(k, v);
        }
    }
    match r.below(4) {
        0 => {
            let at = r.below(bytes.len() as u64 + 1);
            p.set("rfail", jo! {"at": at, "err": *r.pick(&[libc::EIO, libc::EAGAIN, libc::EBADF, libc::ETIMEDOUT, libc::EBUSY]), "sticky": 1});
        }
        1 => {
            let at = r.below(img.max(1) as u64);
            p.set("disk", jo! {"at": at, "err": *r.pick(&[libc::EIO, libc::EAGAIN, libc::ENOSPC, 999, 999, libc::EBUSY])});
        }
        _ => {}
    }
    let mut files = vec![f];
    mkdirs(&out, &mut files);
    prior(r, &out, img, &mut files);
    one(files, vec![run1(p)])
}

// ---------------------------------------------------------------- oracles

enum Den {
    Valid(Vec<u8>),
    Bad(usize),
    Refused,
    Damaged,
    Unknown,
}

/// What the bytes at a source path denote.
fn denotes(placed: &[(Vec<u8>, J)], p: &Path) -> Den {
    let b = match at(p) {
        At::File(b) => b,
        _ => return Den::Unknown,
    };
    if std::str::from_utf8(&b).is_err() {
        return Den::Damaged;
    }
    match placed.iter().rev().find(|(x, _)| *x == b) {
        Some((_, f)) => match model::assemble(f.a("lines")) {
            Some(Ok(o)) => Den::Valid(model::image(&o).unwrap()),
            Some(Err(model::Rej::Line(k))) => Den::Bad(k),
            Some(Err(model::Rej::Refused)) => Den::Refused,
            None => Den::Unknown,
        },
        None => Den::Unknown,
    }
}

fn brief(a: &At) -> String {
    match a {
        At::Absent => "no file".into(),
        At::Other => "something that is not a regular file".into(),
        At::File(b) => {
            let h = b.iter().fold(0u64, |h, x| crate::rng::mix(h ^ *x as u64));
            format!("{} bytes (hash {:08x})", b.len(), h as u32)
        }
    }
}

fn differ(got: &At, exp: &[u8]) -> String {
    match got {
        At::File(g) => {
            let i = g.iter().zip(exp).position(|(a, b)| a != b).unwrap_or(g.len().min(exp.len()));
            format!("{} bytes instead of {}, first difference at byte {}", g.len(), exp.len(), i)
        }
        o => brief(o),
    }
}

/// Does the text name this system error, by number or by words?
fn names_error(s: &str, e: i32) -> bool {
    let low = s.to_lowercase();
    let err = std::io::Error::from_raw_os_error(e);
    let full = err.to_string().to_lowercase();
    let words = full.rsplit_once(" (os error").map_or(full.clone(), |x| x.0.to_string());
    let kind = err.kind();
    let known = !format!("{:?}", kind).starts_with("Uncategorized");
    let digits = |p: &str| low.match_indices(p).any(|(i, _)| low[i + p.len()..].split(|c: char| !c.is_ascii_digit()).next() == Some(&e.to_string()));
    low.contains(&words)
        || digits("os error ")
        || digits("code: ")
        || digits("errno ")
        || known && (low.contains(&kind.to_string()) || low.contains(&format!("{:?}", kind).to_lowercase()))
}

/// The line numbers a diagnostic names.
fn line_numbers(s: &str) -> Vec<u64> {
    let low = s.to_lowercase();
    let b = low.as_bytes();
    let mut v = vec![];
    let mut from = 0;
    while let Some(i) = low[from..].find("line") {
        let mut j = from + i + 4;
        from = j;
        while j < b.len() && (b[j] == b' ' || b[j] == b':' || b[j] == b'#' || b[j] == b'=') {
            j += 1;
        }
        let st = j;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        if let Ok(n) = low[st..j].parse() {
            v.push(n);
        }
    }
    if !v.is_empty() {
        return v;
    }
    // any other way of writing it: the numbers outside Rust source positions
    for l in low.lines().filter(|l| !l.contains(".rs:")) {
        for t in l.split(|c: char| !c.is_ascii_digit()) {
            if let Ok(n) = t.parse() {
                v.push(n);
            }
        }
    }
    v
}

fn is_benign(p: &J) -> bool {
    let neg = |k: &str| p.a(k).iter().any(|x| x.int() < 0);
    p.get("kill").is_null()
        && p.get("disk").is_null()
        && p.get("rfail").is_null()
        && p.get("oom").is_null()
        && !neg("o")
        && !neg("r")
        && !neg("w")
        && !neg("e")
        && !neg("m")
}

/// `Ok(Err(..))` is a violation, `Err` a failure of the harness.
pub fn run(prop: &str, plan: &J, env: &Env) -> Result<R, String> {
    let w = World::new(env, plan.u("ent"))?;
    let mut placed: Vec<(Vec<u8>, J)> = vec![];
    let put = |f: &J, placed: &mut Vec<(Vec<u8>, J)>| -> bool {
        if !w.place(f) {
            return false;
        }
        if !f.get("lines").is_null() {
            placed.push((source(f), f.clone()));
        }
        true
    };
    for f in plan.a("files") {
        if !put(f, &mut placed) {
            cnt(C::skipped_plan);
            return Ok(Ok(()));
        }
    }
    let (mut had_kill, mut had_fail) = (false, false);
    let mut reference: Option<(End, At, String)> = None;
    let nsteps = plan.a("steps").len();
    for (si, st) in plan.a("steps").iter().enumerate() {
        if !st.get("edit").is_null() {
            if !put(st.get("edit"), &mut placed) {
                cnt(C::skipped_plan);
                return Ok(Ok(()));
            }
            continue;
        }
        let procs = st.a("procs");
        if procs.is_empty() || procs.len() > 4 {
            cnt(C::skipped_plan);
            return Ok(Ok(()));
        }
        // ---- before
        let mut pre = vec![];
        for p in procs {
            if p.s("src").is_empty() {
                cnt(C::skipped_plan);
                return Ok(Ok(()));
            }
            let sp = w.path(p.s("src").trim_start_matches('@'));
            let op = w.path(&out_path(p.s("src"), p.s("out")));
            let alias = sp == op || same_file(&sp, &op);
            let real = fs::canonicalize(&op).unwrap_or_else(|_| op.clone());
            pre.push((denotes(&placed, &sp), at(&sp), at(&op), alias, real, sp, op));
        }
        if prop == "P08" {
            for i in 0..pre.len() {
                for j in 0..pre.len() {
                    if i != j && (pre[i].4 == pre[j].4 || pre[i].4 == pre[j].5 || same_file(&pre[i].6, &pre[j].6)) || pre[i].3 {
                        cnt(C::skipped_plan);
                        return Ok(Ok(()));
                    }
                }
            }
        }
        let before = if prop == "P08" { listing(&env.base) } else { Default::default() };
        // ---- the runs
        let ps = w.phase(st)?;
        // ---- after
        let mut first: R = Ok(());
        let mut shared = vec![];
        for (k, q) in ps.iter().enumerate() {
            let (den, src_before, out_before, alias, _, sp, op) = &pre[k];
            let end = q.end.unwrap();
            let after = at(op);
            let plan_p = &procs[k];
            let benign = is_benign(plan_p);
            log(match &after {
                At::Absent => 1,
                At::Other => 2,
                At::File(b) => b.iter().fold(7, |h, x| crate::rng::mix(h ^ *x as u64)),
            });
            let who = format!("run {} of step {} ({:?}{})", k + 1, si + 1, end, if q.stderr.is_empty() { String::new() } else { format!(", said {:?}", q.stderr.chars().take(200).collect::<String>()) });
            // probes
            match (&out_before, den) {
                (At::Absent, _) => cnt(C::probe_out_absent_before),
                (At::File(b), Den::Valid(i)) if b.len() > i.len() => cnt(C::probe_out_longer_before),
                (At::File(b), Den::Valid(i)) if b.len() < i.len() => cnt(C::probe_out_shorter_before),
                _ => {}
            }
            if fs::symlink_metadata(op).map(|m| m.file_type().is_symlink()).unwrap_or(false) {
                cnt(if *alias { C::probe_alias_symlink } else { C::probe_out_is_symlink });
            } else if *alias {
                cnt(if fs::canonicalize(sp).ok() == fs::canonicalize(op).ok() { C::probe_alias_same_path } else { C::probe_alias_hardlink });
            }
            if shared.contains(&sp) {
                cnt(C::probe_shared_source);
            }
            shared.push(sp);
            if !matches!(den, Den::Valid(_)) {
                cnt(C::probe_refused_source);
            }
            if procs.len() > 1 && end == End::Killed {
                cnt(C::probe_neighbour_killed);
            }
            if procs.len() > 1 && end.failed() {
                cnt(C::probe_neighbour_failed);
            }
            if had_kill {
                cnt(C::probe_rerun_after_kill);
            }
            if had_fail {
                cnt(C::probe_rerun_after_fail);
            }

            let exact = |class: &str| -> R {
                if !end.ok() {
                    return Ok(());
                }
                match den {
                    Den::Valid(img) => match &after {
                        At::File(b) if b == img => Ok(()),
                        o => bad(class, format!("{}: the output of a successful run is not the object of the source: {}", who, differ(o, img))),
                    },
                    Den::Unknown if matches!(src_before, At::File(_)) => Ok(()),
                    _ => bad(class, format!("{}: success although the source has no object", who)),
                }
            };
            let completes = |class: &str| -> R {
                match den {
                    Den::Valid(_) if benign && !*alias && *out_before != At::Other && !end.ok() => {
                        bad(class, format!("{}: a valid source met only shortened and interrupted calls, yet the run failed", who))
                    }
                    _ => Ok(()),
                }
            };
            let r: R = match prop {
                "P16" if !plan_p.get("args").is_null() => {
                    // success would have to mean: every source named has its object
                    let want = plan_p.a("want");
                    let met = |x: &J| match denotes(&placed, &w.path(x.s("src"))) {
                        Den::Valid(img) => x.a("outs").iter().any(|o| at(&w.path(o.str())) == At::File(img.clone())),
                        _ => false,
                    };
                    if end.ok() && (want.is_empty() || !want.iter().all(met)) {
                        let args: Vec<String> = plan_p.a("args").iter().map(|x| x.str().to_string()).collect();
                        bad("success-without-object", format!("{}: status 0 for the arguments {:?}, which yielded no object", who, args))
                    } else {
                        Ok(())
                    }
                }
                "P20" if benign && !*alias && *out_before != At::Other => {
                    match &reference {
                        None => {
                            reference = Some((end, if end.ok() { after.clone() } else { At::Absent }, who.clone()));
                            Ok(())
                        }
                        Some((e, _, w)) if *e != end => bad("outcome-differs", format!("the same source ended differently: {}; {}", w, who)),
                        Some((_, o, w)) if end.ok() && *o != after => {
                            let d = match &after {
                                At::File(b) => differ(o, b),
                                x => brief(x),
                            };
                            bad("object-differs", format!("the same source gave another object: {}; {}: {}", w, who, d))
                        }
                        _ => {
                            cnt(C::probe_worlds_compared);
                            Ok(())
                        }
                    }
                }
                "P20" => Ok(()),
                "P02" => {
                    if end.ok() && (q.src_read_failed || matches!(den, Den::Damaged)) {
                        let why = if q.src_read_failed { "a read of the source failed" } else { "the source is not valid UTF-8" };
                        bad("read-failure-reported-as-success", format!("{}: {}, yet the run ended with status 0", who, why))
                    } else {
                        Ok(())
                    }
                }
                "P05" => {
                    if end.failed() && !q.cleanup_failed && after != At::Absent && after != *out_before {
                        bad(
                            "wrong-object-left",
                            format!("{}: the output path held {} before the failed run and holds {} after it", who, brief(out_before), brief(&after)),
                        )
                    } else {
                        Ok(())
                    }
                }
                "P06" => match (src_before, at(sp)) {
                    (At::File(b), a) if a != At::File(b.clone()) => bad(
                        "source-altered",
                        format!("{}: the source held {} bytes before the run and {} after it", who, b.len(), brief(&a)),
                    ),
                    _ => Ok(()),
                },
                "P07" => exact("stale-object").and_then(|_| if si + 1 == nsteps { completes("rerun-fails") } else { Ok(()) }),
                "P08" => {
                    if benign {
                        match den {
                            Den::Valid(_) => exact("interference").and_then(|_| completes("interference")),
                            Den::Bad(_) if end.ok() => bad("interference", format!("{}: success on an invalid source", who)),
                            Den::Bad(_) if after != At::Absent && after != *out_before => bad("interference", format!("{}: a failed run changed its output", who)),
                            _ => Ok(()),
                        }
                    } else {
                        exact("interference")
                    }
                }
                "P14" => {
                    if end == End::Endless {
                        bad("endless-retry", format!("{}: did not end: it sleeps, or makes more system calls than the data and the interruptions account for", who))
                    } else {
                        completes("work-not-completed")
                    }
                }
                "P22" => {
                    let said = q.said[0] + q.said[1];
                    // what can be the cause: calls that were failed, and calls that cannot succeed
                    let mut why = q.errors.clone();
                    match src_before {
                        At::Absent => why.push(libc::ENOENT),
                        At::Other => why.push(libc::EISDIR),
                        _ => {}
                    }
                    if *out_before == At::Other {
                        why.push(libc::EISDIR);
                    }
                    if !op.parent().map_or(false, |d| d.is_dir()) {
                        why.push(libc::ENOENT);
                    }
                    let known = (matches!(den, Den::Valid(_)) || matches!(src_before, At::Absent | At::Other)) && !*alias && plan_p.get("args").is_null();
                    match end {
                        End::Killed | End::Endless => Ok(()),
                        End::Signal(libc::SIGXCPU | libc::SIGKILL) => Ok(()),
                        End::Signal(s) if !(q.no_memory && s == libc::SIGABRT) => {
                            bad("ended-by-signal", format!("{}: the run did not end by itself", who))
                        }
                        e if e.ok() && said > 0 => bad("success-not-silent", format!("{}: a successful run printed {} bytes", who, said)),
                        e if e.ok() || q.stderr_failed => Ok(()),
                        _ if q.said[1] == 0 => bad("silent-failure", format!("{}: nothing on standard error says that the run failed", who)),
                        _ if known && !why.is_empty() && !q.zero && !q.no_memory => {
                            cnt(C::probe_cause_named);
                            if why.iter().chain(&q.others).any(|e| names_error(&q.stderr, *e)) {
                                Ok(())
                            } else {
                                bad("cause-not-named", format!("{}: the calls that failed reported {:?}, the diagnostic says nothing of the kind", who, why))
                            }
                        }
                        _ => Ok(()),
                    }
                }
                "P15" => match den {
                    Den::Bad(line) if benign => {
                        let mut n = line_numbers(&q.stderr);
                        n.sort();
                        n.dedup();
                        if !end.failed() {
                            bad("bad-line-accepted", format!("{}: the source has an invalid line {}", who, line))
                        } else if n != [*line as u64] {
                            bad("wrong-line-diagnosed", format!("{}: the first invalid line is {}, the diagnostic names {:?}", who, line, n))
                        } else if after != *out_before {
                            bad("output-touched", format!("{}: the output path held {} before and holds {} after", who, brief(out_before), brief(&after)))
                        } else {
                            Ok(())
                        }
                    }
                    Den::Bad(line) if end.ok() => bad("bad-line-accepted", format!("{}: the source has an invalid line {}", who, line)),
                    Den::Bad(_) if end.failed() && !q.cleanup_failed && after != *out_before => {
                        bad("output-touched", format!("{}: the output path held {} before and holds {} after", who, brief(out_before), brief(&after)))
                    }
                    _ => Ok(()),
                },
                _ => exact("success-without-object").and_then(|_| completes("benign-run-fails")),
            };
            if end == End::Killed {
                had_kill = true;
            }
            if end.failed() {
                had_fail = true;
            }
            if r.is_err() && first.is_ok() {
                first = r;
            }
        }
        if prop == "P08" {
            let now = listing(&env.base);
            let unclean = ps.iter().any(|q| matches!(q.end, Some(End::Killed) | Some(End::Endless)) || q.cleanup_failed);
            let mine = |k: &str| {
                let p = env.base.join(k);
                pre.iter().any(|x| x.6 == p || x.4 == p)
            };
            for (k, v) in &now {
                if before.get(k) == Some(v) || mine(k) {
                    continue;
                }
                if before.contains_key(k) {
                    return Ok(bad("other-file-changed", format!("{} was changed by runs whose outputs are {:?}", k, names(&pre, env))));
                }
                if !unclean {
                    return Ok(bad("other-file-created", format!("{} was created by runs whose outputs are {:?}", k, names(&pre, env))));
                }
            }
            for k in before.keys() {
                if !now.contains_key(k) && !mine(k) {
                    return Ok(bad("other-file-removed", format!("{} was removed by runs whose outputs are {:?}", k, names(&pre, env))));
                }
            }
        }
        if first.is_err() {
            return Ok(first);
        }
    }
    Ok(Ok(()))
}

type Pre = (Den, At, At, bool, std::path::PathBuf, std::path::PathBuf, std::path::PathBuf);
fn names(pre: &[Pre], env: &Env) -> Vec<String> {
    pre.iter().map(|x| x.6.strip_prefix(&env.base).unwrap_or(&x.6).to_string_lossy().into_owned()).collect()
}
