//! Properties decided with simulated streams and threads around the library code:
//! P01, P02 (library part), P03, P04, P09, P13, P14 (library part).
use crate::ctx::*;
use crate::gen;
use crate::jo;
use crate::json::J;
use crate::model;
use crate::rec;
use crate::rng::Rng;
use crate::sched;
use crate::stream::{SimReader, SimWriter};
use at_asm::Assembler;
use at_mac::header::Header64;
use at_mac::load_command::LoadCommand;
use at_mac::nlist::NList64;
use at_mac::reloc::RelocationInfo;

// ---------------------------------------------------------------- plans

fn asm_plan(r: &mut Rng, valid: bool) -> (J, Vec<u8>) {
    let (mut l, nonl) = if valid { gen::valid(r, 40, true) } else { gen::invalid(r, 20, true) };
    if r.chance(1, 1200) {
        gen::mega(r, &mut l);
    }
    let src = model::render(&l, nonl);
    (jo! {"kind": "asm", "lines": l, "nonl": nonl}, src)
}

/// Offsets where the structure of an object image changes.
fn img_cuts(img: &[u8]) -> Vec<usize> {
    let mut v = vec![1, 4, 31, 32, 33, 104];
    if let Ok(p) = model::parse(img) {
        let n = p.sects.len();
        let d = 32 + 72 + 80 * n + 24;
        v.extend([d - 24, d]);
        let f: usize = p.sects.iter().map(|s| s.bytes.len()).sum();
        v.extend([d + f, d + (f + 7) / 8 * 8]);
        let rl: usize = p.sects.iter().map(|s| s.rels.len() * 8).sum();
        let s0 = d + (f + 7) / 8 * 8 + rl;
        v.extend([s0, s0 + 4, s0 + 16 * p.syms.len()]);
    }
    v.push(img.len().saturating_sub(1));
    v.push(img.len().saturating_sub(2));
    v.retain(|x| *x < img.len());
    v
}

/// Something to write: an assembled source, an object description, or records.
fn write_plan(r: &mut Rng) -> (J, Vec<u8>, Vec<usize>) {
    loop {
        match r.below(5) {
            0 | 1 => {
                let (p, _) = asm_plan(r, true);
                let img = match model::assemble(p.a("lines")) {
                    Some(Ok(o)) => model::image(&o).unwrap(),
                    _ => continue,
                };
                let c = img_cuts(&img);
                return (p, img, c);
            }
            2 | 3 => {
                let o = gen::object(r);
                let img = match gen::object_model(&o).and_then(|m| model::image(&m)) {
                    Some(i) => i,
                    None => continue,
                };
                let c = img_cuts(&img);
                return (jo! {"kind": "obj", "obj": o}, img, c);
            }
            _ => {
                let mut recs = rec::gen_recs(r);
                for q in recs.iter_mut() {
                    q.set("d", J::Int(r.below(2) as i128));
                }
                let mut img = vec![];
                let mut c = vec![];
                for q in &recs {
                    c.push(img.len());
                    img.extend(rec::enc(&rec::build(q, false).unwrap(), false).v);
                }
                return (jo! {"kind": "rec", "recs": recs}, img, c);
            }
        }
    }
}

pub fn gen_plan(prop: &str, r: &mut Rng) -> J {
    match prop {
        "P01" => {
            let (mut p, src) = asm_plan(r, true);
            p.set("rd", gen::benign(r, src.len(), &gen::src_cuts(&src)));
            p
        }
        "P02" => loop {
            let (mut p, src) = if r.chance(1, 8) { asm_plan(r, false) } else { asm_plan(r, true) };
            let cuts = gen::src_cuts(&src);
            let rd = gen::benign(r, src.len(), &cuts);
            if r.chance(1, 3) {
                p.set("rd", rd);
                let at = if r.chance(1, 4) { src.len() as u64 } else { r.below(src.len() as u64 + 1) };
                let ins = r.chance(1, 2) || at as usize == src.len();
                let b = *r.pick(&[0xffu64, 0xc0, 0x80, 0xe4, 0xf5, 0xc3]);
                p.set("dmg", jo! {"at": at, "b": b, "ins": ins});
                if std::str::from_utf8(&damaged(&src, p.get("dmg"))).is_ok() {
                    continue;
                }
            } else {
                let f = gen::with_fail(r, rd, src.len(), &cuts, false);
                p.set("rd", f);
            }
            return p;
        },
        "P03" => {
            let (mut p, img, c) = write_plan(r);
            let w = gen::benign(r, img.len(), &c);
            // a write that returns has delivered everything, faults or not
            p.set("wr", if r.chance(1, 5) { gen::with_fail(r, w, img.len().saturating_sub(1), &c, true) } else { w });
            p
        }
        "P04" => {
            let (mut p, img, c) = write_plan(r);
            let w = gen::benign(r, img.len(), &c);
            p.set("wr", gen::with_fail(r, w, img.len().saturating_sub(1), &c, true));
            p
        }
        "P13" => {
            let o = gen::object(r);
            let img = gen::object_model(&o).and_then(|m| model::image(&m)).unwrap_or_default();
            let c = img_cuts(&img);
            let wr = gen::benign(r, img.len(), &c);
            let rd = gen::benign(r, img.len(), &c);
            let mut p = jo! {"kind": "obj", "obj": o, "wr": wr, "rd": rd};
            if r.chance(1, 12) {
                p.set("odd", jo! {"k": r.below(ODD), "i": r.below(300), "j": r.below(300)});
            }
            p
        }
        "P14" => p14_plan(r),
        "P21" => p21_plan(r),
        _ => p09_plan(r),
    }
}

fn damaged(src: &[u8], d: &J) -> Vec<u8> {
    let mut v = src.to_vec();
    let at = (d.u("at") as usize).min(v.len());
    if d.i("ins") != 0 || at == v.len() {
        v.insert(at, d.u("b") as u8);
    } else {
        v[at] = d.u("b") as u8;
    }
    v
}

/// What else the process did before: mostly work that its streams made fail half way.
pub fn gen_earlier(r: &mut Rng) -> J {
    let mut v = vec![];
    for _ in 0..r.range(1, 3) {
        match r.below(5) {
            0 | 1 => {
                let mut recs = rec::gen_recs(r);
                let be = r.below(2);
                let n: usize = recs.iter().map(|q| rec::enc(&rec::build(q, false).unwrap(), false).v.len()).sum();
                recs.iter_mut().for_each(|q| q.set("d", J::Int(r.below(2) as i128)));
                if r.chance(1, 2) {
                    let rd = gen::benign(r, n, &[4, 8, 32]);
                    v.push(jo! {"do": "decode", "recs": recs, "be": be, "rd": gen::with_fail(r, rd, n, &[], false)});
                } else {
                    let w = gen::benign(r, n, &[4, 8, 32]);
                    v.push(jo! {"do": "write", "kind": "rec", "recs": recs, "wr": gen::with_fail(r, w, n, &[], true)});
                }
            }
            2 | 3 => {
                let (l, nonl) = gen::valid(r, 8, false);
                let src = model::render(&l, nonl);
                let mut x = jo! {"do": "read", "lines": l, "nonl": nonl};
                let rd = gen::benign(r, src.len(), &gen::src_cuts(&src));
                x.set("rd", gen::with_fail(r, rd, src.len(), &gen::src_cuts(&src), false));
                if r.chance(1, 2) {
                    x = jo! {"do": "write", "kind": "asm", "lines": x.get("lines").clone(), "nonl": nonl};
                    let w = gen::benign(r, 400, &[32, 104, 208]);
                    x.set("wr", gen::with_fail(r, w, 400, &[32, 104, 208], true));
                }
                v.push(x);
            }
            _ => {
                let (l, nonl) = gen::valid(r, 8, false);
                v.push(jo! {"do": "write", "kind": "asm", "lines": l, "nonl": nonl, "wr": jo!{}});
            }
        }
    }
    J::Arr(v)
}

pub fn earlier(p: &J) {
    if p.a("pre").is_empty() {
        return;
    }
    death_is_fine();
    cnt(C::probe_earlier_work);
    for (i, x) in p.a("pre").iter().enumerate() {
        let id = 0x40 + i as u64;
        match x.s("do") {
            "decode" => rec::decode_any(x, id),
            "read" => {
                let src = model::render(x.a("lines"), x.i("nonl") != 0);
                let mut rd = SimReader::new(id, &src, x.get("rd"));
                if matches!(model::assemble(x.a("lines")), Some(Ok(_))) {
                    let _ = sut(|| {
                        Assembler::new().read_from(&mut rd);
                    });
                }
            }
            _ => {
                if let Ok(Some((j, img))) = sut(|| job(x)) {
                    let mut w = SimWriter::new(id, None, "", x.get("wr"), img.len() + 4096);
                    let _ = sut(|| do_write(&j, &mut w));
                }
            }
        }
    }
}

fn skip() -> R {
    cnt(C::skipped_plan);
    Ok(())
}

fn probes(src: &[u8]) {
    if src.split(|b| *b == b'\n').any(|l| l.len() > 8192) {
        cnt(C::probe_line_over_8k);
    }
    if src.len() > 1 << 20 {
        cnt(C::probe_source_over_1m);
    }
    if src.len() > 65536 {
        cnt(C::probe_source_over_64k);
    }
}

pub fn run(prop: &str, p: &J) -> R {
    match prop {
        "P01" => p01(p),
        "P02" => p02(p),
        "P03" | "P04" => p03_p04(prop, p),
        "P13" => p13(p),
        "P14" => p14(p),
        "P21" => p21(p),
        _ => p09(p),
    }
}

fn diff(class: &str, what: &str, got: &[u8], exp: &[u8]) -> R {
    if got == exp {
        return Ok(());
    }
    let i = got.iter().zip(exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
    let detail = match (model::parse(got), model::parse(exp)) {
        (Ok(g), Ok(e)) => format!("\nfound    {}\nexpected {}", summary(&g), summary(&e)),
        (Err(m), _) => format!(" (not a sound object: {})", m),
        _ => String::new(),
    };
    bad(
        class,
        format!(
            "{}: {} bytes, expected {}; first difference at byte {}{}",
            what,
            got.len(),
            exp.len(),
            i,
            detail
        ),
    )
}
fn summary(p: &model::Parsed) -> String {
    let mut s = String::new();
    for x in &p.sects {
        s += &format!("{}={:02x?} rel {:?}; ", x.sect, &x.bytes[..x.bytes.len().min(40)], &x.rels[..x.rels.len().min(4)]);
    }
    for y in p.syms.iter().take(8) {
        s += &format!("{}:{:#x}/{}/{:#x} ", y.name.chars().take(24).collect::<String>(), y.n_type, y.sect, y.value);
    }
    s.chars().take(700).collect()
}

fn p01(p: &J) -> R {
    let lines = p.a("lines");
    let img = match model::assemble(lines) {
        Some(Ok(o)) => model::image(&o).unwrap(),
        _ => return skip(),
    };
    let src = model::render(lines, p.i("nonl") != 0);
    probes(&src);
    let mut rd = SimReader::new(1, &src, p.get("rd"));
    death_is("valid-source-failed", "assembling a valid source ended the process");
    let mut out = Vec::new();
    if let Err(e) = sut(|| Assembler::new().read_from(&mut rd).write_into(&mut out)) {
        return bad("valid-source-failed", format!("assembling a valid source failed: {}", e));
    }
    log(out.len() as u64);
    diff("wrong-object", "object of a valid source", &out, &img)
}

fn p02(p: &J) -> R {
    let lines = p.a("lines");
    if lines.iter().any(|l| l.s("k") == "") {
        return skip();
    }
    let mut src = model::render(lines, p.i("nonl") != 0);
    probes(&src);
    let d = p.get("dmg");
    let damage = !d.is_null();
    if damage {
        src = damaged(&src, d);
        if std::str::from_utf8(&src).is_ok() {
            return skip();
        }
        cnt(C::fault_damaged_byte);
    } else if p.get("rd").get("fail").is_null() || p.get("rd").get("fail").u("at") as usize > src.len() {
        return skip();
    }
    let mut rd = SimReader::new(1, &src, p.get("rd"));
    death_is_fine();
    let r = sut(|| {
        let mut a = Assembler::new();
        a.read_from(&mut rd);
        a
    });
    match r {
        Err(_) => Ok(()),
        Ok(a) => {
            let fired = rd.fail_fired();
            let deliv = rd.delivered();
            let mut out = Vec::new();
            let w = sut(|| a.write_into(&mut out));
            bad(
                "failure-taken-for-end",
                format!(
                    "{}, yet reading returned normally after {} of {} bytes{}",
                    if damage {
                        "the source is not valid UTF-8".to_string()
                    } else {
                        format!("the source stream fails at byte {} (fired: {})", p.get("rd").get("fail").u("at"), fired)
                    },
                    deliv,
                    src.len(),
                    if w.is_ok() { format!(" and an object of {} bytes was written", out.len()) } else { String::new() }
                ),
            )
        }
    }
}

enum Job {
    Asm(Assembler),
    Obj(at_obj::Object),
    Recs(Vec<(rec::Rec, bool)>),
}
fn job(p: &J) -> Option<(Job, Vec<u8>)> {
    match p.s("kind") {
        "asm" => {
            let lines = p.a("lines");
            let o = match model::assemble(lines) {
                Some(Ok(o)) => o,
                _ => return None,
            };
            let src = model::render(lines, p.i("nonl") != 0);
            let mut a = Assembler::new();
            a.read_from(&mut src.as_slice());
            Some((Job::Asm(a), model::image(&o).unwrap()))
        }
        "obj" => {
            let m = gen::object_model(p.get("obj"))?;
            let img = model::image(&m)?;
            Some((Job::Obj(gen::object_sut(&m)), img))
        }
        _ => {
            let mut v = vec![];
            let mut img = vec![];
            for q in p.a("recs") {
                let r = rec::build(q, false)?;
                img.extend(rec::enc(&r, false).v);
                v.push((r, q.i("d") != 0));
            }
            Some((Job::Recs(v), img))
        }
    }
}
fn do_write(j: &Job, w: &mut SimWriter) {
    match j {
        Job::Asm(a) => a.write_into(w),
        Job::Obj(o) => at_obj::macho::write_into(o, w),
        Job::Recs(v) => v.iter().for_each(|(r, d)| rec::write_rec(r, w, *d)),
    }
}

fn p03_p04(prop: &str, p: &J) -> R {
    death_is_fine();
    let (j, img) = match sut(|| job(p)) {
        Ok(Some(x)) => x,
        Ok(None) => return skip(),
        // a valid source that does not assemble is P01's business
        Err(_) => return Ok(()),
    };
    let failing = prop == "P04";
    if failing {
        let f = p.get("wr").get("fail");
        if f.is_null() || f.u("at") as usize >= img.len() {
            return skip();
        }
    }
    let mut w = SimWriter::new(2, Some(&img), if failing { "not-a-prefix" } else { "wrong-bytes" }, p.get("wr"), img.len());
    match sut(|| do_write(&j, &mut w)) {
        Err(_) => {
            if failing && !w.fail_fired() {
                // refused for another reason: nothing is claimed
                log(9);
            }
            Ok(())
        }
        Ok(()) if failing => {
            if w.got.len() > img.len().saturating_sub(8) {
                cnt(C::probe_write_fail_in_padding_or_tables);
            }
            bad(
                "failure-reported-as-success",
                format!(
                    "the sink fails after {} of {} bytes (fired: {}), yet writing returned normally with {} bytes accepted",
                    w.fail_at().unwrap_or(0),
                    img.len(),
                    w.fail_fired(),
                    w.got.len()
                ),
            )
        }
        Ok(()) => diff("incomplete-object", "accepted when writing returned", &w.got, &img),
    }
}

const ODD: u64 = 10;
/// Make the description one the format may have no way to express; `false` if it has no
/// place for that.
fn make_odd(m: &mut model::Obj, odd: &J) -> bool {
    let (i, j) = (odd.u("i") as usize, odd.u("j") as usize);
    let at: Vec<(usize, usize)> = (0..3).flat_map(|s| (0..m.s[s].syms.len()).map(move |k| (s, k))).collect();
    let rels: Vec<(usize, usize)> = (0..2).flat_map(|s| (0..m.s[s].rels.len()).map(move |k| (s, k))).collect();
    let names: Vec<String> = at.iter().map(|&(s, k)| m.s[s].syms[k].name.clone()).collect();
    let rename = |m: &mut model::Obj, f: &dyn Fn(&str) -> String| -> bool {
        if at.is_empty() {
            return false;
        }
        let (s, k) = at[i % at.len()];
        let old = m.s[s].syms[k].name.clone();
        let new = f(&old);
        m.s[s].syms[k].name = new.clone();
        for q in m.s.iter_mut().flat_map(|x| x.rels.iter_mut()) {
            if q.name == old {
                q.name = new.clone();
            }
        }
        true
    };
    match odd.u("k") % ODD {
        // a name the string table cannot hold
        0 => rename(m, &|n| format!("{}\0{}", &n[..j % (n.len() + 1)], &n[j % (n.len() + 1)..])),
        1 => rename(m, &|n| format!("{}{}", n, ["é", "\u{80}", "ß", "名", "\u{1F600}"][j % 5])),
        // the name of another symbol with something behind it
        2 => rename(m, &|n| format!("{}\0{}", names[j % names.len()], n)),
        3 => rename(m, &|_| String::new()),
        4 => rename(m, &|_| names[j % names.len()].clone()),
        5 if !rels.is_empty() => {
            let (s, k) = rels[i % rels.len()];
            m.s[s].rels[k].name = ["no_such", "", "no\0such", "nö"][j % 4].into();
            !names.contains(&m.s[s].rels[k].name)
        }
        6 if !rels.is_empty() => {
            let (s, k) = rels[i % rels.len()];
            m.s[s].rels[k].len = [4u8, 5, 8, 255][j % 4];
            true
        }
        7 if !rels.is_empty() => {
            let (s, k) = rels[i % rels.len()];
            m.s[s].rels[k].addr = -1 - [0, 1, 255, i32::MAX as i64][j % 4];
            true
        }
        // nothing in the section but relocations
        8 => {
            let s = i % 2;
            let other: Vec<&String> = names.iter().filter(|n| !m.s[s].syms.iter().any(|y| y.name == **n)).collect();
            if other.is_empty() {
                return false;
            }
            let name = other[j % other.len()].clone();
            m.s[s].bytes.clear();
            m.s[s].syms.clear();
            m.s[s].rels = vec![model::Rel { addr: 0, name: name.clone(), pcrel: j % 2 == 0, len: (j / 2 % 4) as u8 }];
            for q in m.s[1 - s].rels.iter_mut() {
                q.name = name.clone();
            }
            true
        }
        // more than the address space holds
        9 => {
            m.s[2].zero = u64::MAX - (j as u64 % 80);
            true
        }
        _ => false,
    }
}

fn p13(p: &J) -> R {
    let mut m = match gen::object_model(p.get("obj")) {
        Some(m) if model::image(&m).is_some() => m,
        _ => return skip(),
    };
    let len = model::image(&m).unwrap().len();
    let odd = !p.get("odd").is_null();
    if odd && !make_odd(&mut m, p.get("odd")) {
        return skip();
    }
    let o = gen::object_sut(&m);
    let mut w = SimWriter::new(2, None, "", p.get("wr"), len + 4096);
    if odd {
        cnt(C::probe_odd_description);
        death_is_fine();
    } else {
        death_is("object-not-written", "writing an object ended the process");
    }
    if let Err(e) = sut(|| at_obj::macho::write_into(&o, &mut w)) {
        if odd {
            cnt(C::probe_odd_refused);
            return Ok(());
        }
        return bad("object-not-written", format!("writing an object description failed: {}", e));
    }
    let f = w.got;
    let ps = match model::parse(&f) {
        Ok(x) => x,
        Err(e) => return bad("unsound-file", e),
    };
    if let Err(e) = model::says(&ps, &m) {
        return bad("file-says-otherwise", e);
    }
    // the library's own readers agree with the independent parser
    death_is("not-readable", "reading the object back ended the process");
    let r = sut(|| {
        let mut rd = SimReader::new(1, &f, p.get("rd"));
        let (h, e) = Header64::read_from(&mut rd);
        let mut lcs = vec![];
        for _ in 0..h.n_cmds {
            lcs.push(LoadCommand::read_from_in(&mut rd, e));
        }
        let hdr_end = rd.delivered();
        let (mut nsect, mut relocs, mut syms, mut names) = (0usize, vec![], vec![], vec![]);
        for c in &lcs {
            match c {
                LoadCommand::Segment64(_, s) => {
                    for x in s {
                        nsect += 1;
                        names.push((x.sectname.clone(), x.segname.clone(), x.addr, x.size));
                        let mut rr = SimReader::new(3, &f[x.reloff as usize..], p.get("rd"));
                        for _ in 0..x.nreloc {
                            relocs.push((nsect, RelocationInfo::read_from_in(&mut rr, e)));
                        }
                    }
                }
                LoadCommand::Symtab(s) => {
                    let mut rr = SimReader::new(4, &f[s.symoff as usize..], p.get("rd"));
                    for _ in 0..s.nsyms {
                        syms.push(NList64::read_from_in(&mut rr, e));
                    }
                }
                _ => {}
            }
        }
        (hdr_end, names, relocs, syms)
    });
    let (hdr_end, names, relocs, syms) = match r {
        Ok(x) => x,
        Err(e) => return bad("not-readable", format!("the library cannot read the object it wrote: {}", e)),
    };
    if hdr_end != 32 + 72 + 80 * ps.sects.len() + 24 {
        return bad("not-readable", format!("reading the load commands consumed {} bytes", hdr_end));
    }
    let exp: Vec<_> = ps.sects.iter().map(|s| (s.sect.clone(), s.seg.clone(), s.addr, s.size)).collect();
    if names != exp {
        return bad("not-readable", format!("sections read back as {:?}, expected {:?}", names, exp));
    }
    let mut e2 = vec![];
    for (i, s) in ps.sects.iter().enumerate() {
        for q in &s.rels {
            e2.push((i + 1, q.0, q.1.clone(), q.2, q.3));
        }
    }
    let got: Vec<_> = relocs
        .iter()
        .map(|(i, q)| {
            let nm = ps.syms.get(q.r_symbolnum as usize).map(|y| y.name.clone()).unwrap_or_default();
            (*i, q.r_address as i64, nm, q.r_pcrel, q.r_length.to_u32() as u8)
        })
        .collect();
    if got != e2 {
        return bad("not-readable", format!("relocations read back as {:?}, expected {:?}", got, e2));
    }
    let got: Vec<_> = syms.iter().map(|y| (y.n_sect, y.n_value)).collect();
    let exp: Vec<_> = ps.syms.iter().map(|y| (y.sect, y.value)).collect();
    if got != exp {
        return bad("not-readable", format!("symbols read back as {:?}, expected {:?}", got, exp));
    }
    Ok(())
}

// ---------------------------------------------------------------- P14

fn p14_plan(r: &mut Rng) -> J {
    let mut p;
    match r.below(5) {
        0 | 1 => {
            // reading a source
            let (q, src) = if r.chance(1, 6) { asm_plan(r, false) } else { asm_plan(r, true) };
            p = q;
            p.set("do", J::Str("read".into()));
            let c = gen::src_cuts(&src);
            let rd = storm(r, src.len(), &c, false);
            p.set("rd", rd);
        }
        2 => {
            // reading records
            p = rec::gen_plan("P10", r);
            p.set("do", J::Str("rec".into()));
            let n: usize = p.a("recs").iter().map(|q| rec::enc(&rec::build(q, p.i("be") != 0).unwrap(), false).v.len()).sum();
            let rd = storm(r, n, &[], false);
            p.set("rd", rd);
            if r.chance(1, 4) {
                p.set("cut", J::Int(r.below(n as u64) as i128));
            }
        }
        _ => {
            let (q, img, c) = write_plan(r);
            p = q;
            p.set("do", J::Str("write".into()));
            let wr = storm(r, img.len(), &c, true);
            p.set("wr", wr);
        }
    }
    p
}
/// Long interruptions, tiny transfers, and answers that repeat for ever.
fn storm(r: &mut Rng, total: usize, cuts: &[usize], write: bool) -> J {
    let mut s = gen::benign(r, total, cuts);
    if r.chance(1, 2) {
        let n = r.range(1, 3);
        let ia: Vec<J> = (0..n)
            .map(|_| {
                let at = if r.chance(1, 4) { total as u64 } else { r.below(total as u64 + 1) };
                J::Arr(vec![J::Int(at as i128), J::Int(r.range(1, 3000) as i128)])
            })
            .collect();
        s.set("ia", J::Arr(ia));
    }
    if r.chance(1, 2) {
        s = gen::with_fail(r, s, total, cuts, write);
        if r.chance(2, 3) {
            if let J::Obj(_) = s.get("fail") {
                let mut f = s.get("fail").clone();
                f.set("sticky", J::Int(1));
                s.set("fail", f);
            }
        }
    }
    s
}

fn p14(p: &J) -> R {
    let fail = |s: &J, n: usize, w: bool| {
        let f = s.get("fail");
        // a writer is not called again after the last byte
        !f.is_null() && if w { (f.u("at") as usize) < n } else { f.u("at") as usize <= n }
    };
    match p.s("do") {
        "read" => {
            let lines = p.a("lines");
            let m = match model::assemble(lines) {
                None => return skip(),
                Some(m) => m,
            };
            let src = model::render(lines, p.i("nonl") != 0);
            probes(&src);
            let mut rd = SimReader::new(1, &src, p.get("rd"));
            let benign = m.is_ok() && !fail(p.get("rd"), src.len(), false);
            if !benign && p.get("rd").get("fail").i("sticky") != 0 {
                cnt(C::probe_refusing_forever);
            }
            if benign {
                death_is("work-not-completed", "reading a source interrupted a finite number of times ended the process");
            } else {
                death_is_fine();
            }
            let r = sut(|| {
                Assembler::new().read_from(&mut rd);
            });
            match r {
                Err(e) if benign => bad(
                    "work-not-completed",
                    format!("reading a source failed although its stream only shortened and interrupted calls: {}", e),
                ),
                _ => Ok(()),
            }
        }
        "rec" => {
            let r = rec::run_p14(p);
            r
        }
        _ => {
            death_is_fine();
            let (j, img) = match sut(|| job(p)) {
                Ok(Some(x)) => x,
                Ok(None) => return skip(),
                Err(_) => return Ok(()),
            };
            let benign = !fail(p.get("wr"), img.len(), true);
            if !benign && (p.get("wr").get("fail").i("sticky") != 0 || p.get("wr").get("fail").i("kind") == 99) {
                cnt(C::probe_refusing_forever);
            }
            let mut w = SimWriter::new(2, None, "", p.get("wr"), img.len());
            if benign {
                death_is("work-not-completed", "writing to a stream that only shortens and interrupts ended the process");
            }
            match sut(|| do_write(&j, &mut w)) {
                Err(e) if benign => bad(
                    "work-not-completed",
                    format!("writing failed although the stream only shortened and interrupted calls: {}", e),
                ),
                _ => Ok(()),
            }
        }
    }
}

// ---------------------------------------------------------------- P21

/// Sources in bulk: long lines and many small items. No object is expected of them.
fn bulk(parts: &[J]) -> Vec<u8> {
    let mut s = String::new();
    let mut id = 0;
    for p in parts {
        let (n, len) = (p.u("n").min(5000), (p.u("l") as usize).min(300_000));
        for _ in 0..n {
            id += 1;
            match p.u("k") {
                0 => s += &format!("l{}:\n", id),
                1 => s += &format!("global l{}\n", id.max(2) / 2),
                2 => s += &format!("d{} db 1\n", id),
                3 => s += "mov rax, l\n",
                4 => s += "ret\n",
                5 => s += "\n",
                6 => s += ["section .text\n", "section .data\n"][id % 2],
                7 => s += &format!("{}ret\n", " ".repeat(len)),
                8 => s += &format!("; {}\n", "x".repeat(len)),
                9 => s += &format!("{}:\n", "n".repeat(len) + &id.to_string()),
                10 => s += &format!("d{} db \"{}\"\n", id, "t".repeat(len)),
                _ => s += &format!("global {}\n", "n".repeat(len)),
            }
        }
    }
    s += "l:\n";
    s.into_bytes()
}
fn bulk_plan(r: &mut Rng) -> J {
    let mut parts = vec![];
    for _ in 0..r.range(1, 5) {
        if r.chance(1, 2) {
            let l = *r.pick(&[60u64, 1000, 4000, 8190, 9000, 20000, 70000]) + r.below(40);
            parts.push(jo! {"k": 7 + r.below(5), "n": 1 + r.below(2), "l": l});
        } else {
            let n = *r.pick(&[1u64, 10, 300, 600, 1000]);
            parts.push(jo! {"k": r.below(7), "n": n});
        }
    }
    if r.chance(1, 2) {
        let n = *r.pick(&[1200u64, 2000, 3000]);
        parts.push(jo! {"k": r.below(7), "n": n});
    }
    jo! {"parts": parts}
}

fn p21_plan(r: &mut Rng) -> J {
    match r.below(16) {
        0 | 2 => {
            let mut p = bulk_plan(r);
            let src = bulk(p.a("parts"));
            let rd = gen::benign(r, src.len(), &[]);
            p.set("rd", if r.chance(1, 6) { gen::with_fail(r, rd, src.len(), &[], false) } else { rd });
            p.set("do", J::Str("bulk".into()));
            p
        }
        1 => {
            let (mut p, src) = asm_plan(r, true);
            let cuts = gen::src_cuts(&src);
            let rd = gen::benign(r, src.len(), &cuts);
            p.set("rd", if r.chance(1, 3) { gen::with_fail(r, rd, src.len(), &cuts, false) } else { rd });
            p.set("do", J::Str("asm".into()));
            p
        }
        3..=5 => {
            let (mut p, img, c) = write_plan(r);
            let w = gen::benign(r, img.len(), &c);
            p.set("wr", if r.chance(1, 3) { gen::with_fail(r, w, img.len().saturating_sub(1), &c, true) } else { w });
            p.set("do", J::Str("write".into()));
            p
        }
        _ => rec::p21_plan(r),
    }
}

/// Memory in use stays in proportion to the data met, whatever sizes the data announce.
fn p21(p: &J) -> R {
    match p.s("do") {
        "asm" | "bulk" => {
            let lines = p.a("lines");
            if model::assemble(lines).is_none() {
                return skip();
            }
            let src = if p.s("do") == "bulk" { bulk(p.a("parts")) } else { model::render(lines, p.i("nonl") != 0) };
            probes(&src);
            let mut rd = SimReader::new(1, &src, p.get("rd"));
            death_is_fine();
            crate::meter::start(0);
            let mut out = SimWriter::new(2, None, "", &jo! {}, 1 << 24);
            let _ = sut(|| Assembler::new().read_from(&mut rd).write_into(&mut out));
            Ok(())
        }
        "write" => {
            death_is_fine();
            let (j, img) = match sut(|| job(p)) {
                Ok(Some(x)) => x,
                Ok(None) => return skip(),
                Err(_) => return Ok(()),
            };
            let mut w = SimWriter::new(2, None, "", p.get("wr"), img.len());
            if let Job::Obj(o) = &j {
                if o.sections.bss.size > crate::meter::BASE as u64 + crate::meter::PER_BYTE as u64 * img.len() as u64 {
                    cnt(C::probe_announced_over_allowance);
                }
            }
            crate::meter::start(img.len());
            let _ = sut(|| do_write(&j, &mut w));
            Ok(())
        }
        _ => rec::run_p21(p),
    }
}

// ---------------------------------------------------------------- P09

fn p09_plan(r: &mut Rng) -> J {
    let n = r.range(1, 4);
    let mut asms = vec![];
    let threads = if n == 1 { 1 } else { r.range(1, n.min(3)) };
    let mut used: Vec<Vec<String>> = vec![vec![]; n as usize];
    for a in 0..n {
        let steps = r.range(1, 6);
        let mut ops = vec![];
        for i in 0..steps {
            if r.chance(3, 5) || i == 0 {
                let mut o = gen::ProgOpt { max: 8, big: r.chance(1, 4), rare: 150, used: used[a as usize].clone() };
                let l = gen::program(r, &mut o);
                used[a as usize] = o.used;
                let src = model::render(&l, false);
                let mut rd = gen::benign(r, src.len(), &gen::src_cuts(&src));
                if n > 1 && r.chance(1, 12) {
                    // this session ends with a reading that fails; the others must not notice
                    rd = gen::with_fail(r, rd, src.len(), &gen::src_cuts(&src), false);
                    ops.push(jo! {"read": l, "rd": rd});
                    break;
                }
                let mut op = jo! {"read": l, "rd": rd};
                if r.chance(1, 6) && n > 1 && threads == 1 {
                    // another assembler works inside a read call of this one
                    let sub = gen::valid(r, 6, false).0;
                    op.set("nest", jo! {"at": r.below(src.len() as u64 + 1), "lines": sub});
                }
                ops.push(op);
            }
            if r.chance(1, 2) || i + 1 == steps {
                let mut w = gen::benign(r, 600, &[32, 104, 208, 209]);
                if r.chance(1, 4) {
                    w = gen::with_fail(r, w, 300, &[0, 32, 104, 208], true);
                }
                ops.push(jo! {"wr": w});
                if r.chance(1, 4) {
                    ops.push(jo! {"wr": jo!{}});
                }
            }
        }
        asms.push(jo! {"th": if threads == 1 { 0 } else { a % threads }, "ops": ops});
    }
    let mut order = vec![];
    for t in 0..threads {
        // the order in which a thread serves its assemblers
        let mut o: Vec<J> = vec![];
        for (i, a) in asms.iter().enumerate() {
            if a.i("th") == t {
                for _ in 0..a.a("ops").len() {
                    o.push(J::Int(i as i128));
                }
            }
        }
        for i in (1..o.len()).rev() {
            let k = r.below(i as u64 + 1) as usize;
            o.swap(i, k);
        }
        order.push(J::Arr(o));
    }
    let k = if threads == 1 { 0 } else { r.range(5, 80) };
    let burst = r.chance(1, 2);
    let mut sched: Vec<J> = vec![];
    while (sched.len() as i64) < k {
        let t = r.below(threads as u64);
        let b = if burst { r.range(1, 12) } else { 1 };
        for _ in 0..b {
            sched.push(J::Int(t as i128));
        }
    }
    jo! {"asms": asms, "order": order, "sched": sched, "threads": threads}
}

struct Session<'a> {
    asm: Assembler,
    lines: Vec<J>,
    ops: &'a [J],
    pos: usize,
    id: usize,
    wrote_failed: bool,
    dead: bool,
}

/// One operation of a session; the oracle is the image of all lines read so far.
fn step(s: &mut Session) -> R {
    let op = match s.ops.get(s.pos) {
        Some(o) if !s.dead => o,
        _ => return Ok(()),
    };
    s.pos += 1;
    if !op.get("read").is_null() {
        let l = op.a("read");
        let mut all = s.lines.clone();
        all.extend(l.iter().cloned());
        // the plan is well-formed if this part is a program on top of what was read
        match model::assemble(&all) {
            Some(Ok(_)) | Some(Err(model::Rej::Refused)) => {}
            _ => return skip(),
        }
        if let Some(Err(model::Rej::Refused)) = model::assemble(&all) {
            return skip();
        }
        let src = model::render(l, false);
        let nest = op.get("nest");
        let mut nested: R = Ok(());
        let mut nested_panic = None;
        let mut rd = SimReader::new(0x10 + s.id as u64, &src, op.get("rd"));
        if !nest.is_null() {
            if let Some(Ok(o)) = model::assemble(nest.a("lines")) {
                let img = model::image(&o).unwrap();
                let nsrc = model::render(nest.a("lines"), false);
                let (nr, np) = (&mut nested, &mut nested_panic);
                rd.nested = Some((
                    nest.u("at") as usize,
                    Box::new(move || {
                        let mut out = vec![];
                        match sut(|| Assembler::new().read_from(&mut nsrc.as_slice()).write_into(&mut out)) {
                            Ok(()) => *nr = diff("interference", "object of an assembler used inside another's read", &out, &img),
                            Err(e) => *np = Some(e),
                        }
                    }),
                ));
            }
        }
        let r = sut(|| {
            s.asm.read_from(&mut rd);
        });
        drop(rd);
        nested?;
        if let Some(e) = nested_panic {
            return bad("session-failed", format!("an assembler used inside another's read failed: {}", e));
        }
        if !op.get("rd").get("fail").is_null() {
            // what it holds now is unspecified, and a failure taken for success is P02's business
            cnt(C::probe_session_after_failed_read);
            s.dead = true;
            return Ok(());
        }
        if let Err(e) = r {
            return bad("session-failed", format!("assembler {} failed to read valid input (operation {}): {}", s.id, s.pos, e));
        }
        s.lines = all;
        return Ok(());
    }
    let img = match model::assemble(&s.lines) {
        Some(Ok(o)) => model::image(&o).unwrap(),
        _ => return skip(),
    };
    let f = op.get("wr").get("fail");
    let failing = !f.is_null() && (f.u("at") as usize) < img.len();
    let mut w = SimWriter::new(0x20 + s.id as u64, None, "", op.get("wr"), img.len() + 1024);
    let r = sut(|| s.asm.write_into(&mut w));
    if s.wrote_failed {
        cnt(C::probe_write_after_failed_write);
    }
    match r {
        Err(_) if failing => {
            s.wrote_failed = true;
            Ok(())
        }
        Err(e) => bad("session-failed", format!("assembler {} failed to write (operation {}): {}", s.id, s.pos, e)),
        Ok(()) if failing => Ok(()), // P04's business
        Ok(()) => diff(
            "wrong-object",
            &format!("assembler {}, operation {} (after {} lines)", s.id, s.pos, s.lines.len()),
            &w.got,
            &img,
        ),
    }
}

fn p09(p: &J) -> R {
    let asms = p.a("asms");
    let threads = (p.u("threads") as usize).clamp(1, 8);
    death_is("session-failed", "a session on valid input ended the process");
    let work = |t: usize| -> R {
        let mut ss: Vec<Option<Session>> = asms
            .iter()
            .enumerate()
            .map(|(i, a)| {
                if a.u("th") as usize % threads == t {
                    Some(Session { asm: Assembler::new(), lines: vec![], ops: a.a("ops"), pos: 0, id: i, wrote_failed: false, dead: false })
                } else {
                    None
                }
            })
            .collect();
        let ord = p.a("order").get(t).map(|x| x.arr()).unwrap_or(&[]);
        for k in ord {
            if let Some(Some(s)) = ss.get_mut(k.int() as usize) {
                step(s)?;
            }
        }
        Ok(())
    };
    if threads == 1 {
        return work(0);
    }
    let plan: Vec<u64> = p.a("sched").iter().map(|x| x.int() as u64).collect();
    sched::start(threads, plan);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let w = &work;
                sc.spawn(move || {
                    sched::enter(t);
                    let r = w(t);
                    if let Err((c, m)) = &r {
                        violation_now(c, m);
                    }
                    sched::leave();
                    r
                })
            })
            .collect();
        for h in hs {
            h.join().map_err(|_| ("harness".to_string(), "thread".to_string()))??;
        }
        Ok(())
    })
}
