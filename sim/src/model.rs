//! Reference models, written from the language and the Mach-O format and not from the code:
//! a renderer and assembler for an abstract source program, a writer for the expected
//! object image and an independent Mach-O parser.
use crate::json::J;

pub const R64: [&str; 16] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15",
];
pub const R32: [&str; 16] = [
    "eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d",
    "r15d",
];
pub const R16: [&str; 16] = [
    "ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w",
];

/// Lines no reading of the language accepts; each must be diagnosed with its line number.
pub const BAD: [&str; 62] = [
    "frobnicate eax",
    "mov rax",
    "mov 5, rax",
    "section .foo",
    "section",
    "section .text extra",
    "global",
    "global a b",
    "db 256",
    "dw 65536",
    "dd 0x100000000",
    "db 18446744073709551616",
    "mov eax, 0x100000000",
    "mov ax, 65536",
    "mov ax, foo",
    "push",
    "push foo",
    "lbl: extra",
    "db \"unclosed",
    "mov rax, + 1",
    "mov rax, 1 +",
    "db zz",
    "add rax, rbx",
    "jmp foo",
    "\u{feff}section .text",
    "ret\u{1a}",
    "ret\u{0}",
    "ret\u{200b}",
    "ret foo",
    "ret ret",
    "syscall 1",
    "push 5 6",
    "push rax rbx",
    "push rax, rbx",
    "push 0x100000000",
    "mov rax, 1 + 2 + 3",
    "mov eax, 1 - 1 x",
    "mov rax, 1 2",
    "mov rax, foo foo",
    "mov rax, rbx, rcx",
    "mov eax, ebx ecx",
    "mov rax,",
    "mov rax, 0xffffffffffffffff + 1",
    "mov eax, 1 - 2",
    "mov ax, 0xffff + 1",
    "mov rax 5",
    "mov RAX, 5",
    ":",
    "a b:",
    "x: db 1",
    "x y db 1",
    "x db",
    "db 1,,2",
    "db \"a\",,2",
    "db 1 , , 2",
    "db \"a\"b",
    "dq 0x10000000000000000",
    "\u{e9}:",
    "a\u{0}b:",
    "\u{e9} db 1",
    "a\u{0}b dd 1, 2",
    "x\u{540d}\u{524d}:",
];

/// Comments that only look like something else.
const ODD: [&str; 10] = [
    " ; \\", ";\\", " ; \"", " ; \"a\" \"", " ; 'x", ";\u{2028}ret", "; a\rret", "; \u{0b}\u{0c}", ";\u{0}", " ; end.",
];

pub fn regname(w: i64, r: i64) -> &'static str {
    let r = (r & 15) as usize;
    match w {
        16 => R16[r],
        32 => R32[r],
        _ => R64[r],
    }
}

fn num(v: i128, f: i64) -> String {
    if f & 64 != 0 {
        if f & 128 != 0 {
            format!("0x{:X}", v)
        } else {
            format!("0x{:x}", v)
        }
    } else {
        format!("{}", v)
    }
}

fn dval_str(v: &J) -> Option<String> {
    match v {
        J::Str(s) => Some(s.clone()),
        J::Obj(_) => Some(v.s("s").repeat(v.i("n").max(0) as usize)),
        _ => None,
    }
}

/// Text of one line, without its line end.
pub fn render_line(l: &J) -> String {
    let f = l.i("f");
    let sep2 = ["", "  "][(f >> 10 & 1) as usize]; // extra blanks
    let comma = [", ", ",", " , ", " ,"][(f >> 8 & 3) as usize];
    let sp = [" ", "\t"][(f >> 11 & 1) as usize];
    let body = match l.s("k") {
        "blank" => String::new(),
        "sect" => format!("section{}{}{}", sp, sep2, [".text", ".data", ".bss"][(l.u("s") % 3) as usize]),
        "glob" => format!("global{}{}{}", sp, sep2, l.s("n")),
        "lab" => format!("{}:", l.s("n")),
        "data" => {
            let mn = ["db", "dw", "dd", "dq"][(l.u("w") & 3) as usize];
            let dcomma = comma;
            let vals: Vec<String> = l
                .a("v")
                .iter()
                .enumerate()
                .map(|(i, v)| match dval_str(v) {
                    Some(s) => format!("\"{}\"", s),
                    None => num(v.int(), if i % 3 == 2 { f ^ 64 } else { f }),
                })
                .collect();
            let lab = l.s("n");
            if lab.is_empty() {
                format!("{}{}{}{}", mn, sp, sep2, vals.join(dcomma))
            } else {
                format!("{}{}{}{}{}{}", lab, sp, sep2, mn, sp, vals.join(dcomma))
            }
        }
        "movri" => {
            let e = l.a("e");
            let ex = if e.len() >= 3 {
                format!("{}{}{}{}{}{}", num(e[0].int(), f), sp, sep2, e[1].str(), sp, num(e[2].int(), f ^ 64))
            } else {
                num(e.first().map(|x| x.int()).unwrap_or(0), f)
            };
            format!("mov{}{}{}{}{}", sp, sep2, regname(l.i("w"), l.i("r")), comma, ex)
        }
        "movrr" => format!(
            "mov{}{}{}{}{}",
            sp,
            sep2,
            regname(l.i("w"), l.i("r")),
            comma,
            regname(l.i("w"), l.i("q"))
        ),
        "movrs" => format!("mov{}{}{}{}{}", sp, sep2, regname(l.i("w"), l.i("r")), comma, l.s("n")),
        "pushr" => format!("push{}{}{}", sp, sep2, regname(64, l.i("r"))),
        "pushi" => format!("push{}{}{}", sp, sep2, num(l.get("v").int(), f)),
        "ret" => "ret".to_string(),
        "sys" => "syscall".to_string(),
        "bad" => BAD[(l.u("i") as usize) % BAD.len()].to_string(),
        _ => String::new(),
    };
    let ind = ["", "  ", "\t", "    ", "", " ", "", ""][(f & 7) as usize];
    let long;
    let tail = match f >> 3 & 7 {
        1 => " ; comment",
        2 => ";c: \"q\" \u{e9}\u{4e2d}\u{1F600}",
        3 => "  ",
        4 => ";; TEST: section .data",
        5 => "\t; db 1, 2",
        6 if l.i("c") > 0 => {
            long = format!(" ;{}", "long comment ".repeat(l.i("c") as usize));
            long.as_str()
        }
        7 => ODD[(l.u("c") % ODD.len() as u64) as usize],
        _ => "",
    };
    if l.s("k") == "bad" {
        return format!("{}{}{}", ind, body, ["", " ; bad", " ; \\", ";\u{e9} section .text"][(l.u("c") & 3) as usize]);
    }
    format!("{}{}{}", ind, body, tail)
}

/// Source bytes of a program. `nonl`: the last line has no line end.
pub fn render(lines: &[J], nonl: bool) -> Vec<u8> {
    let mut out = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        let mut text = render_line(l);
        let eol: &[u8] = if l.i("e") == 1 { b"\r\n" } else { b"\n" };
        let n = times(l);
        for k in 0..n {
            if l.s("k") == "series" {
                text = render_line(&nth(l, k));
            }
            out.extend_from_slice(text.as_bytes());
            if !(nonl && i + 1 == lines.len() && k + 1 == n) {
                out.extend_from_slice(eol);
            }
        }
    }
    out
}

/// Line `k` of a series: lines alike but for the number in the name. `w`: 0 labels, 1 data
/// with a label, 2 global directives, 3 references to `y` such names in turn by steps of `m`.
pub fn nth(l: &J, k: usize) -> J {
    let y = l.i("y").clamp(1, 70000) as usize;
    let i = if l.i("w") == 3 { (k * l.i("m").clamp(1, 70000) as usize) % y } else { k };
    let n = format!("{}{}{}", l.s("n"), i, "_".repeat(l.i("pad").clamp(0, 2000) as usize));
    let mut b = match l.i("w") {
        0 => crate::jo! {"k": "lab", "n": n},
        1 => crate::jo! {"k": "data", "n": n, "w": k & 3, "v": vec![J::Int((k & 255) as i128)]},
        2 => crate::jo! {"k": "glob", "n": n},
        _ => crate::jo! {"k": "movrs", "w": 64, "r": k & 15, "n": n},
    };
    b.set("f", l.get("f").clone());
    b
}

/// How often a line stands in the source (field "x"); lines that define a name stand once.
pub fn times(l: &J) -> usize {
    match l.s("k") {
        "lab" | "bad" => 1,
        "data" if !l.s("n").is_empty() => 1,
        "series" => l.i("x").clamp(1, 5000) as usize,
        _ => l.i("x").clamp(1, 70000) as usize,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum SymKind {
    Undef,
    Abs(u64),
    /// offset in the section
    Ref(u64),
}
#[derive(Clone, Debug)]
pub struct Sym {
    pub name: String,
    pub kind: SymKind,
    pub ext: bool,
}
#[derive(Clone, Debug)]
pub struct Rel {
    pub addr: i64,
    pub name: String,
    pub pcrel: bool,
    pub len: u8,
}
#[derive(Clone, Debug, Default)]
pub struct Sect {
    pub bytes: Vec<u8>,
    pub zero: u64,
    pub syms: Vec<Sym>,
    pub rels: Vec<Rel>,
}
#[derive(Clone, Debug, Default)]
pub struct Obj {
    pub s: [Sect; 3],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rej {
    /// diagnosed at this 1-based line
    Line(usize),
    /// refused, without a line number being promised
    Refused,
}

fn le(v: u128, n: usize) -> Vec<u8> {
    v.to_le_bytes()[..n].to_vec()
}

/// Machine code of an instruction line, and the place of its symbol reference.
pub fn encode(l: &J) -> Option<(Vec<u8>, Option<Rel>)> {
    let r = (l.i("r") & 15) as u8;
    let q = (l.i("q") & 15) as u8;
    let w = l.i("w");
    let mut b = Vec::new();
    match l.s("k") {
        "movri" => {
            let e = l.a("e");
            let a = e.first()?.int();
            let v = if e.len() >= 3 {
                let rhs = e[2].int();
                if rhs < 0 || rhs >= 1 << 64 {
                    return None;
                }
                if e[1].str() == "+" {
                    a + rhs
                } else {
                    a - rhs
                }
            } else {
                a
            };
            if w < 64 && (v < 0 || v >= 1i128 << w) || v >= 1i128 << 64 {
                return None;
            }
            if w == 16 {
                b.push(0x66);
            }
            let rex = 0x40 | (w == 64) as u8 * 8 | (r >= 8) as u8;
            if rex != 0x40 {
                b.push(rex);
            }
            b.push(0xB8 | (r & 7));
            b.extend(le(v as u128, (w / 8) as usize));
        }
        "movrs" => {
            if w == 16 {
                return None;
            }
            let rex = 0x40 | (w == 64) as u8 * 8 | (r >= 8) as u8;
            if rex != 0x40 {
                b.push(rex);
            }
            b.push(0xB8 | (r & 7));
            let at = b.len() as i64;
            b.extend(le(0, (w / 8) as usize));
            let rel = Rel { addr: at, name: l.s("n").to_string(), pcrel: false, len: if w == 64 { 3 } else { 2 } };
            return Some((b, Some(rel)));
        }
        "movrr" => {
            if w == 16 {
                b.push(0x66);
            }
            let rex = 0x40 | (w == 64) as u8 * 8 | (q >= 8) as u8 * 4 | (r >= 8) as u8;
            if rex != 0x40 {
                b.push(rex);
            }
            b.push(0x89);
            b.push(0xC0 | (q & 7) << 3 | (r & 7));
        }
        "pushr" => {
            if r >= 8 {
                b.push(0x41);
            }
            b.push(0x50 | (r & 7));
        }
        "pushi" => {
            let v = l.get("v").int();
            if (0..=0x7f).contains(&v) {
                b.extend([0x6A, v as u8]);
            } else if (0x80..=0x7fff_ffff).contains(&v) {
                b.push(0x68);
                b.extend(le(v as u128, 4));
            } else {
                return None;
            }
        }
        "ret" => b.push(0xC3),
        "sys" => b.extend([0x0F, 0x05]),
        _ => return None,
    }
    Some((b, None))
}

fn data_bytes(l: &J) -> Option<Vec<u8>> {
    let w = 1usize << (l.u("w") & 3);
    let mut out = Vec::new();
    if l.a("v").is_empty() {
        return None;
    }
    for v in l.a("v") {
        match dval_str(v) {
            Some(s) => {
                out.extend_from_slice(s.as_bytes());
                // padded to the element size
                let pad = (w - s.len() % w) % w;
                out.extend(std::iter::repeat(0).take(pad));
            }
            None => {
                let n = v.int();
                if n < 0 || n >= 1i128 << (8 * w) {
                    return None;
                }
                out.extend(le(n as u128, w));
            }
        }
    }
    Some(out)
}

/// The object a program denotes. Outer `None`: the plan is not a program of the language.
pub fn assemble(lines: &[J]) -> Option<Result<Obj, Rej>> {
    let mut o = Obj::default();
    let mut cur = 0usize;
    let mut globals = std::collections::BTreeSet::new();
    let mut names = std::collections::BTreeSet::new();
    let mut i = 0; // lines before this one
    for (l, at) in lines.iter().flat_map(|l| (0..times(l)).map(move |k| (l, k))) {
        i += 1;
        let one;
        let l = if l.s("k") == "series" {
            if l.s("n").is_empty() {
                return None;
            }
            one = nth(l, at);
            &one
        } else {
            l
        };
        if at > 0 && matches!(l.s("k"), "blank" | "sect") {
            continue;
        }
        let here = if cur == 2 { o.s[2].zero } else { o.s[cur].bytes.len() as u64 };
        let mut def = |o: &mut Obj, n: &str| -> Option<()> {
            if n.is_empty() || !names.insert(n.to_string()) {
                return None;
            }
            o.s[cur].syms.push(Sym { name: n.to_string(), kind: SymKind::Ref(here), ext: false });
            Some(())
        };
        match l.s("k") {
            "blank" => {}
            "sect" => cur = (l.u("s") % 3) as usize,
            "glob" => {
                if l.s("n").is_empty() {
                    return None;
                }
                globals.insert(l.s("n").to_string());
            }
            "lab" => def(&mut o, l.s("n"))?,
            "data" => {
                let b = data_bytes(l)?;
                if !l.s("n").is_empty() {
                    def(&mut o, l.s("n"))?;
                }
                if cur == 2 {
                    return Some(Err(Rej::Line(i)));
                }
                o.s[cur].bytes.extend(b);
            }
            "bad" => return Some(Err(Rej::Line(i))),
            _ => {
                let (b, rel) = encode(l)?;
                if cur == 2 {
                    return Some(Err(Rej::Line(i)));
                }
                if let Some(mut r) = rel {
                    if r.name.is_empty() {
                        return None;
                    }
                    r.addr += here as i64;
                    o.s[cur].rels.push(r);
                }
                o.s[cur].bytes.extend(b);
            }
        }
    }
    for s in o.s.iter_mut() {
        for y in s.syms.iter_mut() {
            if globals.contains(&y.name) {
                y.ext = true;
            }
        }
    }
    Some(match image(&o) {
        Some(_) => Ok(o),
        None => Err(Rej::Refused),
    })
}

fn p32(v: &mut Vec<u8>, x: u64) {
    v.extend((x as u32).to_le_bytes());
}
fn p64(v: &mut Vec<u8>, x: u64) {
    v.extend(x.to_le_bytes());
}
fn name16(v: &mut Vec<u8>, s: &str) {
    let mut b = s.as_bytes().to_vec();
    b.resize(16, 0);
    v.extend(b);
}

/// The bytes of the object file. `None`: a relocation refers to a symbol nobody mentions.
pub fn image(o: &Obj) -> Option<Vec<u8>> {
    let vm = |i: usize| if i == 2 { o.s[2].zero } else { o.s[i].bytes.len() as u64 };
    let present: Vec<usize> = (0..3).filter(|&i| vm(i) > 0 || !o.s[i].syms.is_empty()).collect();
    let n = present.len() as u64;
    let data_off = 32 + 72 + 80 * n + 24;
    let filesz: u64 = present.iter().map(|&i| o.s[i].bytes.len() as u64).sum();
    let vmsz: u64 = present.iter().map(|&i| vm(i)).sum();
    let rel_off = data_off + (filesz + 7) / 8 * 8;
    let nrel: u64 = present.iter().map(|&i| o.s[i].rels.len() as u64).sum();
    let sym_off = rel_off + 8 * nrel;
    let nsym: u64 = present.iter().map(|&i| o.s[i].syms.len() as u64).sum();
    let str_off = sym_off + 16 * nsym;

    let mut strtab = vec![0u8];
    let mut strx = Vec::new();
    let mut order: std::collections::BTreeMap<&str, u64> = Default::default();
    for &i in &present {
        for y in &o.s[i].syms {
            let k = order.len() as u64;
            order.entry(&y.name).or_insert(k);
            strx.push(strtab.len() as u64);
            strtab.extend(y.name.as_bytes());
            strtab.push(0);
        }
    }

    let mut v = Vec::new();
    // header
    p32(&mut v, 0xfeedfacf);
    p32(&mut v, 0x01000007);
    p32(&mut v, 3);
    p32(&mut v, 1);
    p32(&mut v, 2);
    p32(&mut v, 72 + 80 * n + 24);
    p32(&mut v, 0);
    p32(&mut v, 0);
    // segment
    p32(&mut v, 0x19);
    p32(&mut v, 72 + 80 * n);
    name16(&mut v, "");
    p64(&mut v, 0);
    p64(&mut v, vmsz);
    p64(&mut v, data_off);
    p64(&mut v, filesz);
    p32(&mut v, 7);
    p32(&mut v, 7);
    p32(&mut v, n);
    p32(&mut v, 0);
    let (mut addr, mut off, mut ro) = (0u64, data_off, rel_off);
    let mut addrs = [0u64; 3];
    for &i in &present {
        let s = &o.s[i];
        addrs[i] = addr;
        name16(&mut v, ["__text", "__data", "__bss"][i]);
        name16(&mut v, ["__TEXT", "__DATA", "__DATA"][i]);
        p64(&mut v, addr);
        p64(&mut v, vm(i));
        p32(&mut v, if i == 2 { 0 } else { off });
        p32(&mut v, 0);
        p32(&mut v, if i == 2 { 0 } else { ro });
        p32(&mut v, s.rels.len() as u64);
        let relflags = if s.rels.is_empty() { 0 } else { 0x300 };
        p32(&mut v, [0x80000400 | relflags, relflags, 1][i]);
        p32(&mut v, 0);
        p32(&mut v, 0);
        p32(&mut v, 0);
        addr += vm(i);
        off += s.bytes.len() as u64;
        ro += 8 * s.rels.len() as u64;
    }
    // symtab command
    p32(&mut v, 2);
    p32(&mut v, 24);
    p32(&mut v, sym_off);
    p32(&mut v, nsym);
    p32(&mut v, str_off);
    p32(&mut v, strtab.len() as u64);
    for &i in &present {
        v.extend(&o.s[i].bytes);
    }
    while (v.len() as u64) < rel_off {
        v.push(0);
    }
    for &i in &present {
        for r in &o.s[i].rels {
            p32(&mut v, r.addr as u64);
            let idx = *order.get(r.name.as_str())?;
            p32(&mut v, idx | (r.pcrel as u64) << 24 | (r.len as u64 & 3) << 25 | 1 << 27);
        }
    }
    let mut k = 0;
    for (ord, &i) in present.iter().enumerate() {
        for y in &o.s[i].syms {
            p32(&mut v, strx[k]);
            k += 1;
            let (t, sect, val) = match y.kind {
                SymKind::Undef => (0x01, 0, 0),
                SymKind::Abs(x) => (0x02 | y.ext as u8, 0, x),
                SymKind::Ref(a) => (0x0e | y.ext as u8, ord as u8 + 1, addrs[i] + a),
            };
            v.push(t);
            v.push(sect);
            v.extend([0, 0]);
            p64(&mut v, val);
        }
    }
    v.extend(&strtab);
    Some(v)
}

// ---------------------------------------------------------------------------------------
// Independent parser: structure and meaning of an object file, whatever its layout.

#[derive(Debug, Clone)]
pub struct PSect {
    pub sect: String,
    pub seg: String,
    pub addr: u64,
    pub size: u64,
    pub flags: u32,
    pub bytes: Vec<u8>,
    /// (address, symbol name, pcrel, length, type)
    pub rels: Vec<(i64, String, bool, u8, u8)>,
}
#[derive(Debug, Clone)]
pub struct PSym {
    pub name: String,
    pub n_type: u8,
    pub sect: u8,
    pub value: u64,
    pub desc: u16,
}
#[derive(Debug, Clone)]
pub struct Parsed {
    pub sects: Vec<PSect>,
    pub syms: Vec<PSym>,
}

struct Cur<'a>(&'a [u8], usize);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        let r = self.0.get(self.1..self.1 + n).ok_or_else(|| format!("file ends inside a table at {}", self.1))?;
        self.1 += n;
        Ok(r)
    }
    fn u(&mut self, n: usize) -> Result<u64, String> {
        let mut x = [0u8; 8];
        x[..n].copy_from_slice(self.take(n)?);
        Ok(u64::from_le_bytes(x))
    }
    fn name(&mut self) -> Result<String, String> {
        let b = self.take(16)?;
        let e = b.iter().position(|&c| c == 0).unwrap_or(16);
        Ok(String::from_utf8_lossy(&b[..e]).into_owned())
    }
}

pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    let mut c = Cur(b, 0);
    let mut used: Vec<(u64, u64, String)> = vec![];
    let flen = b.len() as u64;
    let mut claim = |off: u64, len: u64, what: &str| -> Result<(), String> {
        if len == 0 {
            return Ok(());
        }
        if off + len > flen {
            return Err(format!("{} [{}, +{}] lies outside the file of {} bytes", what, off, len, flen));
        }
        for (o, l, w) in &used {
            if off < o + l && *o < off + len {
                return Err(format!("{} [{}, +{}] overlaps {} [{}, +{}]", what, off, len, w, o, l));
            }
        }
        used.push((off, len, what.to_string()));
        Ok(())
    };
    let want = |what: &str, got: u64, exp: u64| {
        if got == exp {
            Ok(())
        } else {
            Err(format!("{} is {:#x}, expected {:#x}", what, got, exp))
        }
    };
    want("magic", c.u(4)?, 0xfeedfacf)?;
    want("cpu type", c.u(4)?, 0x01000007)?;
    want("cpu subtype", c.u(4)?, 3)?;
    want("file type", c.u(4)?, 1)?;
    let ncmds = c.u(4)?;
    let szcmds = c.u(4)?;
    c.u(4)?;
    c.u(4)?;
    claim(0, 32 + szcmds, "header and load commands")?;
    let mut raw = vec![];
    let mut symtab = None;
    let mut nseg = 0;
    for _ in 0..ncmds {
        let at = c.1 as u64;
        let cmd = c.u(4)?;
        let size = c.u(4)?;
        match cmd {
            0x19 => {
                nseg += 1;
                c.name()?;
                let vmaddr = c.u(8)?;
                let vmsize = c.u(8)?;
                let fileoff = c.u(8)?;
                let filesize = c.u(8)?;
                c.u(4)?;
                c.u(4)?;
                let ns = c.u(4)?;
                c.u(4)?;
                want("segment command size", size, 72 + 80 * ns)?;
                if fileoff + filesize > flen {
                    return Err(format!("segment [{}, +{}] lies outside the file", fileoff, filesize));
                }
                if vmsize != 0 && filesize > vmsize {
                    return Err(format!("segment file size {} exceeds its memory size {}", filesize, vmsize));
                }
                let mut end = vmaddr;
                for k in 0..ns {
                    let sect = c.name()?;
                    let seg = c.name()?;
                    let addr = c.u(8)?;
                    let sz = c.u(8)?;
                    let off = c.u(4)?;
                    c.u(4)?;
                    let reloff = c.u(4)?;
                    let nrel = c.u(4)?;
                    let flags = c.u(4)? as u32;
                    c.u(8)?;
                    c.u(4)?;
                    if addr < end || addr.checked_add(sz).map_or(true, |e| e > vmaddr + vmsize) {
                        return Err(format!(
                            "section {} [{:#x}, +{:#x}] overlaps its predecessor or leaves the segment of {:#x}",
                            k + 1,
                            addr,
                            sz,
                            vmsize
                        ));
                    }
                    end = addr + sz;
                    let zero = flags & 0xff == 1;
                    if !zero {
                        claim(off, sz, &format!("contents of section {}", k + 1))?;
                        if sz > 0 && (off < fileoff || off + sz > fileoff + filesize) {
                            return Err(format!("section {} is not inside its segment's file range", k + 1));
                        }
                    }
                    claim(reloff, nrel * 8, &format!("relocations of section {}", k + 1))?;
                    raw.push((sect, seg, addr, sz, off, reloff, nrel, flags, zero));
                }
            }
            2 => {
                want("symtab command size", size, 24)?;
                if symtab.is_some() {
                    return Err("two symbol tables".into());
                }
                symtab = Some((c.u(4)?, c.u(4)?, c.u(4)?, c.u(4)?));
            }
            x => return Err(format!("unexpected load command {:#x}", x)),
        }
        want("extent of load command", c.1 as u64 - at, size)?;
    }
    want("size of commands", c.1 as u64 - 32, szcmds)?;
    want("number of segments", nseg, 1)?;
    let (symoff, nsyms, stroff, strsize) = symtab.ok_or("no symbol table command")?;
    claim(symoff, nsyms * 16, "symbol table")?;
    claim(stroff, strsize, "string table")?;
    let end = used.iter().map(|(o, l, _)| o + l).max().unwrap_or(0);
    want("file length", flen, end.max(stroff + strsize))?;
    let st = &b[(stroff as usize).min(b.len())..((stroff + strsize) as usize).min(b.len())];
    if st.first() != Some(&0) || st.last() != Some(&0) {
        return Err("string table does not begin and end with NUL".into());
    }
    let getname = |x: u64| -> Result<String, String> {
        let s = st.get(x as usize..).ok_or(format!("string index {} outside the string table", x))?;
        let e = s.iter().position(|&c| c == 0).ok_or("unterminated name")?;
        Ok(String::from_utf8_lossy(&s[..e]).into_owned())
    };
    let mut syms = vec![];
    let mut c = Cur(b, symoff as usize);
    for _ in 0..nsyms {
        let name = getname(c.u(4)?)?;
        let n_type = c.u(1)? as u8;
        let sect = c.u(1)? as u8;
        let desc = c.u(2)? as u16;
        let value = c.u(8)?;
        if sect as usize > raw.len() {
            return Err(format!("symbol {} in section {} of {}", name, sect, raw.len()));
        }
        syms.push(PSym { name, n_type, sect, value, desc });
    }
    let mut sects = vec![];
    for (sect, seg, addr, size, off, reloff, nrel, flags, zero) in raw {
        let bytes = if zero { vec![] } else { b[off as usize..(off + size) as usize].to_vec() };
        let mut rels = vec![];
        let mut c = Cur(b, reloff as usize);
        for _ in 0..nrel {
            let a = c.u(4)? as u32 as i32 as i64;
            let i = c.u(4)?;
            if i >> 27 & 1 != 1 {
                return Err("relocation is not by symbol".into());
            }
            let k = (i & 0xffffff) as usize;
            let y = syms.get(k).ok_or(format!("relocation against symbol {} of {}", k, syms.len()))?;
            rels.push((a, y.name.clone(), i >> 24 & 1 == 1, (i >> 25 & 3) as u8, (i >> 28) as u8));
        }
        sects.push(PSect { sect, seg, addr, size, flags, bytes, rels });
    }
    Ok(Parsed { sects, syms })
}

/// Does the parsed file say what the object says?
pub fn says(p: &Parsed, o: &Obj) -> Result<(), String> {
    let mut ord = [0u8; 3];
    for (i, nm) in [("__text", "__TEXT"), ("__data", "__DATA"), ("__bss", "__DATA")].iter().enumerate() {
        let found: Vec<_> = p.sects.iter().enumerate().filter(|(_, s)| (s.sect.as_str(), s.seg.as_str()) == *nm).collect();
        if found.len() > 1 {
            return Err(format!("section {} occurs twice", nm.0));
        }
        let size = if i == 2 { o.s[2].zero } else { o.s[i].bytes.len() as u64 };
        let m = &o.s[i];
        match found.first() {
            None => {
                if size != 0 || !m.rels.is_empty() || m.syms.iter().any(|y| matches!(y.kind, SymKind::Ref(_))) {
                    return Err(format!("section {} is missing", nm.0));
                }
            }
            Some((k, s)) => {
                ord[i] = *k as u8 + 1;
                if s.size != size {
                    return Err(format!("section {} has size {}, expected {}", nm.0, s.size, size));
                }
                if s.bytes != m.bytes {
                    return Err(format!("contents of section {} differ", nm.0));
                }
                let zero = s.flags & 0xff == 1;
                if zero != (i == 2) || (s.flags & 0xff > 1) {
                    return Err(format!("section {} has type {:#x}", nm.0, s.flags & 0xff));
                }
                if i == 0 && s.flags & 0x80000400 != 0x80000400 {
                    return Err("text section is not marked as instructions".into());
                }
                let mut got = s.rels.clone();
                let mut exp: Vec<_> =
                    m.rels.iter().map(|r| (r.addr, r.name.clone(), r.pcrel, r.len, 0u8)).collect();
                got.sort();
                exp.sort();
                if got != exp {
                    return Err(format!("relocations of {}: {:?}, expected {:?}", nm.0, got, exp));
                }
            }
        }
    }
    if p.sects.len() != ord.iter().filter(|&&x| x > 0).count() {
        return Err("unexpected section".into());
    }
    let mut got: Vec<_> = p.syms.iter().map(|y| (y.name.clone(), y.n_type, y.sect, y.value)).collect();
    let mut exp = vec![];
    for i in 0..3 {
        for y in &o.s[i].syms {
            exp.push(match y.kind {
                SymKind::Undef => (y.name.clone(), 0x01, 0, 0),
                SymKind::Abs(v) => (y.name.clone(), 0x02 | y.ext as u8, 0, v),
                SymKind::Ref(a) => (
                    y.name.clone(),
                    0x0e | y.ext as u8,
                    ord[i],
                    p.sects[ord[i] as usize - 1].addr.wrapping_add(a),
                ),
            });
        }
    }
    got.sort();
    exp.sort();
    if got != exp {
        let d = got.iter().find(|x| !exp.contains(x)).or(got.first());
        let e = exp.iter().find(|x| !got.contains(x)).or(exp.first());
        return Err(format!("symbols differ: found {:x?}, expected {:x?} ({} of {})", d, e, got.len(), exp.len()));
    }
    Ok(())
}
