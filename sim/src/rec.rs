//! Mach-O records: specs, an independent encoder in both byte orders, translation to and
//! from the types of at-mac, and the properties P10, P11, P12.
use crate::ctx::*;
use crate::gen;
use crate::jo;
use crate::json::J;
use crate::rng::Rng;
use crate::sched;
use crate::stream::{SimReader, SimWriter};
use at_mac::header::{self as h, Header64};
use at_mac::load_command::build_version::{Platform, Tool, Version};
use at_mac::load_command::segment64::{SectionAttr, SectionAttrs, SectionType};
use at_mac::load_command::{
    BuildToolVersion, BuildVersionCommand, DysymtabCommand, LoadCommand, Section64, SegmentCommand64, SymtabCommand,
};
use at_mac::nlist::{DebugSymbol, NList64, NType, NTypeField};
use at_mac::reloc::{RelocLength, RelocationInfo};

// ----- numbers the format prescribes
const FLAGS: [(h::Flag, &str, u32); 16] = [
    (h::Flag::NoUndefs, "NoUndefs", 1),
    (h::Flag::IncrLink, "IncrLink", 2),
    (h::Flag::DyldLink, "DyldLink", 4),
    (h::Flag::BindAtLoad, "BindAtLoad", 8),
    (h::Flag::PreBound, "PreBound", 0x10),
    (h::Flag::SplitSegs, "SplitSegs", 0x20),
    (h::Flag::TwoLevel, "TwoLevel", 0x80),
    (h::Flag::ForceFlat, "ForceFlat", 0x100),
    (h::Flag::NoMultiDefs, "NoMultiDefs", 0x200),
    (h::Flag::NoFixPreBinding, "NoFixPreBinding", 0x400),
    (h::Flag::PreBindable, "PreBindable", 0x800),
    (h::Flag::AllModsBound, "AllModsBound", 0x1000),
    (h::Flag::SubsectionsViaSymbols, "SubsectionsViaSymbols", 0x2000),
    (h::Flag::Canonical, "Canonical", 0x4000),
    (h::Flag::Pie, "Pie", 0x200000),
    (h::Flag::HasTlvDescriptors, "HasTlvDescriptors", 0x800000),
];
const ATTRS: [(SectionAttr, &str, u32); 8] = [
    (SectionAttr::PureInstructions, "PureInstructions", 0x80000000),
    (SectionAttr::NoToc, "NoToc", 0x40000000),
    (SectionAttr::StripStaticSyms, "StripStaticSyms", 0x20000000),
    (SectionAttr::LiveSupport, "LiveSupport", 0x08000000),
    (SectionAttr::Debug, "Debug", 0x02000000),
    (SectionAttr::SomeInstructions, "SomeInstructions", 0x400),
    (SectionAttr::ExtReloc, "ExtReloc", 0x200),
    (SectionAttr::LocReloc, "LocReloc", 0x100),
];
const STYPES: [(SectionType, u32); 7] = [
    (SectionType::Regular, 0),
    (SectionType::Zerofill, 1),
    (SectionType::CstringLiterals, 2),
    (SectionType::FourByteLiterals, 3),
    (SectionType::EightByteLiterals, 4),
    (SectionType::LiteralPointers, 5),
    (SectionType::Coalesced, 0xb),
];
const FTYPES: [(h::FileType, u32); 9] = [
    (h::FileType::Object, 1),
    (h::FileType::Execute, 2),
    (h::FileType::FVMLib, 3),
    (h::FileType::Core, 4),
    (h::FileType::Preload, 5),
    (h::FileType::Dylib, 6),
    (h::FileType::Dylinker, 7),
    (h::FileType::Bundle, 8),
    (h::FileType::Dsym, 0xa),
];
const PLATFORMS: [(Platform, u32); 10] = [
    (Platform::MacOS, 1),
    (Platform::IOS, 2),
    (Platform::TvOS, 3),
    (Platform::WatchOS, 4),
    (Platform::BridgeOS, 5),
    (Platform::MacCatalyst, 6),
    (Platform::IOSSimulator, 7),
    (Platform::TvOSSimulator, 8),
    (Platform::WatchOSSimulator, 9),
    (Platform::Driverkit, 10),
];
const TOOLS: [(Tool, u32); 3] = [(Tool::Clang, 1), (Tool::Swift, 2), (Tool::LD, 3)];
const NTYPES: [(NType, u8); 5] =
    [(NType::Undf, 0), (NType::Abs, 2), (NType::Sect, 0xe), (NType::Pbud, 0xc), (NType::Indr, 0xa)];
const RLENS: [RelocLength; 4] = [RelocLength::Byte, RelocLength::Word, RelocLength::Long, RelocLength::Quad];

fn num_of<T: PartialEq + std::fmt::Debug, N: Copy>(t: &[(T, N)], x: &T) -> N {
    t.iter().find(|e| e.0 == *x).unwrap_or_else(|| panic!("harness does not know {:?}", x)).1
}
/// A flag set, read through its debug form (its members are private).
fn set_of<T>(t: &[(T, &str, u32)], dbg: String) -> u32 {
    dbg.split(|c: char| !c.is_alphanumeric())
        .filter(|w| !w.is_empty())
        .map(|w| t.iter().find(|e| e.1 == w).map(|e| e.2).unwrap_or_else(|| panic!("harness does not know flag {}", w)))
        .fold(0, |a, b| a | b)
}

// ----- encoder
pub struct E {
    pub v: Vec<u8>,
    be: bool,
    /// (offset, length of the name) of every 16-byte name
    names: Vec<(usize, usize)>,
}
impl E {
    pub fn new(be: bool) -> E {
        E { v: vec![], be, names: vec![] }
    }
    fn n(&mut self, x: u64, w: usize) {
        let b = x.to_le_bytes();
        if self.be {
            self.v.extend(b[..w].iter().rev())
        } else {
            self.v.extend(&b[..w])
        }
    }
    fn w(&mut self, x: u32) {
        self.n(x as u64, 4)
    }
    fn name(&mut self, s: &str) {
        self.names.push((self.v.len(), s.len()));
        let mut b = s.as_bytes().to_vec();
        b.resize(16, 0);
        self.v.extend(b);
    }
    /// equal, up to what follows the end of a name
    fn same(&self, got: &[u8]) -> bool {
        if self.v.len() != got.len() {
            return false;
        }
        let mut g = got.to_vec();
        for &(o, l) in &self.names {
            if l < 16 && g[o + l] == 0 {
                for b in &mut g[o + l..o + 16] {
                    *b = 0
                }
            }
        }
        g == self.v
    }
}

pub enum Rec {
    Hdr(Header64),
    Lc(LoadCommand),
    Nl(NList64),
    Re(RelocationInfo),
}

fn enc_hdr(e: &mut E, x: &Header64) {
    let m = match x.magic {
        h::Magic::Magic64 => 0xfeedfacfu32,
        h::Magic::Cigam64 => 0xcffaedfe,
        h::Magic::Magic => 0xfeedface,
        h::Magic::Cigam => 0xcefaedfe,
        h::Magic::FatMagic => 0xcafebabe,
        _ => 0xbebafeca,
    };
    e.v.extend(m.to_le_bytes());
    let (t, s) = match x.cpu_type {
        h::CpuType::X86(h::CpuSubTypeX86::All) => (7, 3),
        h::CpuType::X86_64(h::CpuSubTypeX86_64::All) => (0x01000007, 3),
    };
    e.w(t);
    e.w(s);
    e.w(num_of(&FTYPES, &x.file_type));
    e.w(x.n_cmds);
    e.w(x.size_of_cmds);
    e.w(set_of(&FLAGS, format!("{:?}", x.flags)));
    e.w(x.reserved);
}
fn enc_sect(e: &mut E, x: &Section64) {
    e.name(&x.sectname);
    e.name(&x.segname);
    e.n(x.addr, 8);
    e.n(x.size, 8);
    e.w(x.offset);
    e.w(x.align);
    e.w(x.reloff);
    e.w(x.nreloc);
    e.w(set_of(&ATTRS, format!("{:?}", x.flags.0)) | num_of(&STYPES, &x.flags.1));
    e.w(x.reserved1);
    e.w(x.reserved2);
    e.w(x.reserved3);
}
fn enc_lc(e: &mut E, x: &LoadCommand) {
    match x {
        LoadCommand::Segment64(c, ss) => {
            e.w(c.cmd);
            e.w(c.cmdsize);
            e.name(&c.segname);
            e.n(c.vmaddr, 8);
            e.n(c.vmsize, 8);
            e.n(c.fileoff, 8);
            e.n(c.filesize, 8);
            e.w(c.maxprot as u32);
            e.w(c.initprot as u32);
            e.w(c.nsects);
            e.w(c.flags);
            for s in ss {
                enc_sect(e, s);
            }
        }
        LoadCommand::Symtab(c) => {
            for v in [c.cmd, c.cmdsize, c.symoff, c.nsyms, c.stroff, c.strsize] {
                e.w(v)
            }
        }
        LoadCommand::Dysymtab(c) => {
            for v in [
                c.cmd,
                c.cmdsize,
                c.ilocalsym,
                c.nlocalsym,
                c.iextdefsym,
                c.nextdefsym,
                c.iundefsym,
                c.nundefsym,
                c.tocoff,
                c.ntoc,
                c.modtaboff,
                c.nmodtab,
                c.extrefsymoff,
                c.nextrefsyms,
                c.indirectsymoff,
                c.nindirectsyms,
                c.extreloff,
                c.nextrel,
                c.locreloff,
                c.nlocrel,
            ] {
                e.w(v)
            }
        }
        LoadCommand::BuildVersion(c, ts) => {
            let ver = |v: &Version| (v.major as u32) << 16 | (v.minor as u32) << 8 | v.release as u32;
            for v in [c.cmd, c.cmdsize, num_of(&PLATFORMS, &c.platform), ver(&c.minos), ver(&c.sdk), c.ntools] {
                e.w(v)
            }
            for t in ts {
                e.w(num_of(&TOOLS, &t.tool));
                e.w(t.version);
            }
        }
    }
}
fn enc_nl(e: &mut E, x: &NList64) {
    e.w(x.n_strx);
    let t = match x.n_type {
        NTypeField::Norm { n_pext, n_type, n_ext } => (n_pext as u8) << 4 | num_of(&NTYPES, &n_type) | n_ext as u8,
        NTypeField::Stab(DebugSymbol::Gsym) => 0x20,
        #[allow(unreachable_patterns)]
        _ => panic!("harness does not know {:?}", x.n_type),
    };
    e.n(t as u64, 1);
    e.n(x.n_sect as u64, 1);
    e.n(x.n_desc as u64, 2);
    e.n(x.n_value, 8);
}
fn enc_re(e: &mut E, x: &RelocationInfo) {
    e.w(x.r_address as u32);
    let l = RLENS.iter().position(|y| *y == x.r_length).unwrap() as u32;
    let (p, t) = (x.r_pcrel as u32, x.r_type as u32);
    let i = if e.be {
        x.r_symbolnum << 8 | p << 7 | l << 5 | (x.r_extern as u32) << 4 | t & 15
    } else {
        x.r_symbolnum | p << 24 | l << 25 | (x.r_extern as u32) << 27 | t << 28
    };
    e.w(i);
}
pub fn enc(r: &Rec, be: bool) -> E {
    let mut e = E::new(be);
    match r {
        Rec::Hdr(x) => enc_hdr(&mut e, x),
        Rec::Lc(x) => enc_lc(&mut e, x),
        Rec::Nl(x) => enc_nl(&mut e, x),
        Rec::Re(x) => enc_re(&mut e, x),
    }
    e
}

// ----- from specs
fn pickn<T: Copy, N>(t: &[(T, N)], i: u64) -> T {
    t[(i % t.len() as u64) as usize].0
}
fn nm(j: &J) -> String {
    j.str().chars().filter(|c| c.is_ascii() && *c != '\0').take(16).collect()
}
pub fn build(s: &J, be: bool) -> Option<Rec> {
    let v = s.a("v");
    let g = |i: usize| v.get(i).map(|x| x.int() as u64).unwrap_or(0);
    let w = |i: usize| g(i) as u32;
    Some(match s.s("t") {
        "hdr" => {
            let mut f = h::Flags::new();
            for x in s.a("fl") {
                f.push(FLAGS[(x.int() as usize) % 16].0);
            }
            Rec::Hdr(Header64 {
                magic: if be { h::Magic::Cigam64 } else { h::Magic::Magic64 },
                cpu_type: if g(0) % 2 == 0 {
                    h::CpuType::X86_64(h::CpuSubTypeX86_64::All)
                } else {
                    h::CpuType::X86(h::CpuSubTypeX86::All)
                },
                file_type: pickn(&FTYPES, g(1)),
                n_cmds: w(2),
                size_of_cmds: w(3),
                flags: f,
                reserved: w(4),
            })
        }
        "seg" => {
            let mut ss = vec![];
            for q in s.a("subs") {
                let v = q.a("v");
                let g = |i: usize| v.get(i).map(|x| x.int() as u64).unwrap_or(0);
                let w = |i: usize| g(i) as u32;
                let mut at = SectionAttrs::new();
                for x in q.a("fl") {
                    at.push(ATTRS[(x.int() as usize) % 8].0);
                }
                ss.push(Section64 {
                    sectname: nm(q.get("n")),
                    segname: nm(q.get("g")),
                    addr: g(0),
                    size: g(1),
                    offset: w(2),
                    align: w(3),
                    reloff: w(4),
                    nreloc: w(5),
                    flags: (at, pickn(&STYPES, g(6))),
                    reserved1: w(7),
                    reserved2: w(8),
                    reserved3: w(9),
                });
            }
            let n = ss.len() as u32;
            let c = SegmentCommand64 {
                cmd: 0x19,
                cmdsize: 72 + 80 * n,
                segname: nm(s.get("n")),
                vmaddr: g(0),
                vmsize: g(1),
                fileoff: g(2),
                filesize: g(3),
                maxprot: w(4) as i32,
                initprot: w(5) as i32,
                nsects: n,
                flags: w(6),
            };
            Rec::Lc(LoadCommand::Segment64(c, ss))
        }
        "symtab" => Rec::Lc(LoadCommand::Symtab(SymtabCommand {
            cmd: 2,
            cmdsize: 24,
            symoff: w(0),
            nsyms: w(1),
            stroff: w(2),
            strsize: w(3),
        })),
        "dysym" => Rec::Lc(LoadCommand::Dysymtab(DysymtabCommand {
            cmd: 0xb,
            cmdsize: 80,
            ilocalsym: w(0),
            nlocalsym: w(1),
            iextdefsym: w(2),
            nextdefsym: w(3),
            iundefsym: w(4),
            nundefsym: w(5),
            tocoff: w(6),
            ntoc: w(7),
            modtaboff: w(8),
            nmodtab: w(9),
            extrefsymoff: w(10),
            nextrefsyms: w(11),
            indirectsymoff: w(12),
            nindirectsyms: w(13),
            extreloff: w(14),
            nextrel: w(15),
            locreloff: w(16),
            nlocrel: w(17),
        })),
        "bv" => {
            let ts: Vec<BuildToolVersion> = s
                .a("subs")
                .iter()
                .map(|q| BuildToolVersion {
                    tool: pickn(&TOOLS, q.a("v").first().map(|x| x.int() as u64).unwrap_or(0)),
                    version: q.a("v").get(1).map(|x| x.int() as u32).unwrap_or(0),
                })
                .collect();
            let ver = |x: u64| Version { major: (x >> 16) as u16, minor: (x >> 8) as u8, release: x as u8 };
            let n = ts.len() as u32;
            let c = BuildVersionCommand {
                cmd: 0x32,
                cmdsize: 24 + 8 * n,
                platform: pickn(&PLATFORMS, g(0)),
                minos: ver(g(1)),
                sdk: ver(g(2)),
                ntools: n,
            };
            Rec::Lc(LoadCommand::BuildVersion(c, ts))
        }
        "nl" => Rec::Nl(NList64 {
            n_strx: w(0),
            n_type: if g(1) % 21 == 20 {
                NTypeField::Stab(DebugSymbol::Gsym)
            } else {
                let k = g(1) % 21;
                NTypeField::Norm { n_pext: k & 1 == 1, n_ext: k >> 1 & 1 == 1, n_type: pickn(&NTYPES, k >> 2) }
            },
            n_sect: g(2) as u8,
            n_desc: g(3) as u16,
            n_value: g(4),
        }),
        "re" => Rec::Re(RelocationInfo {
            r_address: w(0) as i32,
            r_symbolnum: w(1) & 0xffffff,
            r_pcrel: g(2) & 1 == 1,
            r_length: RLENS[(g(3) & 3) as usize],
            r_extern: g(4) & 1 == 1,
            r_type: (g(5) & 15) as u8,
        }),
        _ => return None,
    })
}

pub fn gen_recs(r: &mut Rng) -> Vec<J> {
    let ints = |r: &mut Rng, ws: &[u32]| -> J { J::Arr(ws.iter().map(|&w| J::Int(r.edgy(w) as i128)).collect()) };
    let fl = |r: &mut Rng, n: u64| -> J {
        let k = r.below(n / 2 + 1);
        J::Arr((0..k).map(|_| J::Int(r.below(n) as i128)).collect())
    };
    let nmg = |r: &mut Rng| -> J {
        let pool = ["__text", "__TEXT", "", "__data", "sixteen_bytes_nm", "fifteen_bytes_n", "a", "with space , ;"];
        if r.chance(1, 5) {
            let n = r.below(17);
            J::Str((0..n).map(|_| (1 + r.below(126)) as u8 as char).collect())
        } else {
            J::Str(r.pick(&pool).to_string())
        }
    };
    let mut out = vec![jo! {"t": "hdr", "v": ints(r, &[1, 8, 32, 32, 32]), "fl": fl(r, 16)}];
    let n = r.range(0, 6);
    for _ in 0..n {
        out.push(match r.below(9) {
            0 | 1 => {
                let k = if r.chance(1, 20) { r.range(10, 60) } else { r.below(4) as i64 };
                let mut subs = vec![];
                for _ in 0..k {
                    subs.push(jo! {"n": nmg(r), "g": nmg(r), "v": ints(r, &[64, 64, 32, 32, 32, 32, 8, 32, 32, 32]), "fl": fl(r, 8)});
                }
                jo! {"t": "seg", "n": nmg(r), "v": ints(r, &[64, 64, 64, 64, 32, 32, 32]), "subs": subs}
            }
            2 => jo! {"t": "symtab", "v": ints(r, &[32; 4])},
            3 => jo! {"t": "dysym", "v": ints(r, &[32; 18])},
            4 => {
                let k = r.below(4);
                let subs: Vec<J> = (0..k).map(|_| jo! {"v": ints(r, &[4, 32])}).collect();
                jo! {"t": "bv", "v": ints(r, &[8, 32, 32]), "subs": subs}
            }
            5 | 6 => jo! {"t": "nl", "v": ints(r, &[32, 8, 8, 16, 64])},
            _ => jo! {"t": "re", "v": ints(r, &[32, 24, 1, 2, 1, 4])},
        });
    }
    out
}

/// Same record kind, read through the public reader for it. `direct` uses the readers of the
/// single structs instead of the one for whole load commands.
macro_rules! read_like {
    ($like:expr, $rd:expr, $endian:expr, $direct:expr) => {
        match $like {
            Rec::Hdr(_) => panic!("harness: header is read first"),
            Rec::Nl(_) => Rec::Nl(NList64::read_from_in($rd, $endian)),
            Rec::Re(_) => Rec::Re(RelocationInfo::read_from_in($rd, $endian)),
            Rec::Lc(_) if !$direct => Rec::Lc(LoadCommand::read_from_in($rd, $endian)),
            Rec::Lc(LoadCommand::Segment64(..)) => {
                let c = SegmentCommand64::read_from_in($rd, $endian);
                let s = (0..c.nsects).map(|_| Section64::read_from_in($rd, $endian)).collect();
                Rec::Lc(LoadCommand::Segment64(c, s))
            }
            Rec::Lc(LoadCommand::Symtab(_)) => Rec::Lc(LoadCommand::Symtab(SymtabCommand::read_from_in($rd, $endian))),
            Rec::Lc(LoadCommand::Dysymtab(_)) => {
                Rec::Lc(LoadCommand::Dysymtab(DysymtabCommand::read_from_in($rd, $endian)))
            }
            Rec::Lc(LoadCommand::BuildVersion(..)) => {
                let c = BuildVersionCommand::read_from_in($rd, $endian);
                let t = (0..c.ntools).map(|_| BuildToolVersion::read_from_in($rd, $endian)).collect();
                Rec::Lc(LoadCommand::BuildVersion(c, t))
            }
        }
    };
}

fn kind(r: &Rec) -> &'static str {
    match r {
        Rec::Hdr(_) => "header",
        Rec::Lc(LoadCommand::Segment64(..)) => "segment command",
        Rec::Lc(LoadCommand::Symtab(_)) => "symtab command",
        Rec::Lc(LoadCommand::Dysymtab(_)) => "dysymtab command",
        Rec::Lc(LoadCommand::BuildVersion(..)) => "build version command",
        Rec::Nl(_) => "symbol entry",
        Rec::Re(_) => "relocation entry",
    }
}
fn show(r: &Rec) -> String {
    let s = match r {
        Rec::Hdr(x) => format!("{:?}", x),
        Rec::Lc(x) => format!("{:?}", x),
        Rec::Nl(x) => format!("{:?}", x),
        Rec::Re(x) => format!("{:?}", x),
    };
    s.chars().take(600).collect()
}

struct Seq {
    recs: Vec<Rec>,
    direct: Vec<bool>,
    /// offset of each record, and the end
    at: Vec<usize>,
    bytes: Vec<u8>,
    be: bool,
}
fn sequence(p: &J) -> Option<Seq> {
    let be = p.i("be") != 0;
    let mut s = Seq { recs: vec![], direct: vec![], at: vec![0], bytes: vec![], be };
    for (i, q) in p.a("recs").iter().enumerate() {
        let r = build(q, be)?;
        if (i == 0) != matches!(r, Rec::Hdr(_)) {
            return None;
        }
        s.bytes.extend(enc(&r, be).v);
        s.at.push(s.bytes.len());
        s.direct.push(q.i("d") != 0);
        s.recs.push(r);
    }
    if s.recs.is_empty() {
        return None;
    }
    if be {
        cnt(C::probe_big_endian);
    }
    if s.bytes.len() > 1000 {
        cnt(C::probe_wide_record);
    }
    Some(s)
}
fn cuts(s: &Seq) -> Vec<usize> {
    let mut v = vec![];
    for &a in &s.at {
        v.extend([a, a + 1, a + 4, a + 7]);
    }
    // the parts of a load command: its own struct, then every section or tool
    for (i, r) in s.recs.iter().enumerate() {
        let (own, step, n) = match r {
            Rec::Lc(LoadCommand::Segment64(_, x)) => (72, 80, x.len()),
            Rec::Lc(LoadCommand::BuildVersion(_, x)) => (24, 8, x.len()),
            _ => continue,
        };
        // weigh the last ones more: a reader may be lenient about those alone
        for k in (0..n).chain(n.saturating_sub(2)..n) {
            let a = s.at[i] + own + step * k;
            v.extend([a, a, a + 1, a + 4]);
        }
    }
    v.retain(|x| *x < s.bytes.len());
    v
}

pub fn gen_plan(prop: &str, r: &mut Rng) -> J {
    let mut recs = gen_recs(r);
    for q in recs.iter_mut() {
        if r.chance(1, 3) {
            q.set("d", J::Int(1));
        }
    }
    let be = if prop == "P12" { 0 } else { r.below(2) };
    let mut p = jo! {"be": be, "recs": recs};
    let s = sequence(&p).unwrap();
    let (n, c) = (s.bytes.len(), cuts(&s));
    let rd = gen::benign(r, n, &c);
    match prop {
        "P10" => {
            p.set("rd", rd);
            // a fixed-size name ends at its first NUL; what lies behind it is left over from the writer
            if r.chance(1, 4) {
                p.set("junk", J::Int(1 + r.below(255) as i128));
            }
            if r.chance(1, 6) {
                // another file, mostly of the other byte order, is read at the same time
                let mut recs = gen_recs(r);
                recs.truncate(r.range(1, 8) as usize);
                for q in recs.iter_mut() {
                    if r.chance(1, 3) {
                        q.set("d", J::Int(1));
                    }
                }
                let k = recs.len() as u64 + s.recs.len() as u64;
                let mut q = jo! {"be": if r.chance(3, 4) { 1 - be } else { be }, "recs": recs};
                let t = sequence(&q).unwrap();
                q.set("rd", gen::benign(r, t.bytes.len(), &cuts(&t)));
                q.set("way", J::Int(r.below(3) as i128));
                q.set("in", J::Int(r.below(n as u64) as i128));
                p.set("oth", q);
                p.set("ord", J::Arr((0..k * r.below(6)).map(|_| J::Int(r.below(2) as i128)).collect()));
            }
        }
        "P12" => {
            p.set("rd", rd);
            let wr = gen::benign(r, n, &c);
            p.set("wr", wr);
            if r.chance(1, 8) {
                p.set("odd", jo! {"i": r.below(8), "k": r.below(40), "j": r.below(300)});
            }
        }
        _ => {
            match r.below(4) {
                0 => {
                    let t = if r.chance(1, 2) { *r.pick(&c) as u64 } else { r.below(n as u64) };
                    p.set("cut", J::Int(t as i128));
                    p.set("rd", rd);
                }
                1 => {
                    let mut f = gen::with_fail(r, rd, n - 1, &c, false);
                    if f.get("fail").u("at") as usize >= n {
                        f = jo! {};
                    }
                    p.set("rd", f);
                }
                _ => {
                    p.set("rd", rd);
                    let k = r.range(1, 3);
                    let mut fl = vec![];
                    for _ in 0..k {
                        let o = r.below(n as u64);
                        let x = if r.chance(1, 2) { 1 << r.below(8) } else { 1 + r.below(255) };
                        fl.push(J::Arr(vec![J::Int(o as i128), J::Int(x as i128)]));
                    }
                    // sometimes make a field extreme: all ones over four bytes
                    if r.chance(1, 6) {
                        let o = r.below((n / 4) as u64) * 4;
                        for i in 0..4 {
                            fl.push(J::Arr(vec![J::Int((o + i) as i128), J::Int(-1)]));
                        }
                    }
                    p.set("flip", J::Arr(fl));
                }
            }
        }
    }
    p
}

pub fn run(prop: &str, p: &J) -> R {
    let s = match sequence(p) {
        Some(s) => s,
        None => {
            cnt(C::skipped_plan);
            return Ok(());
        }
    };
    match prop {
        "P10" => p10(&s, p),
        "P11" => p11(&s, p),
        _ => p12(&s, p),
    }
}

/// A stored relocation type is named as the format names it, for both processors.
fn reloc_type(n: u8) -> R {
    use at_mac::reloc::{X86RelocType as A, X86_64RelocType as B};
    let a = [A::Vanilla, A::Pair, A::Sectdiff, A::PbLaPtr, A::LocalSectdiff, A::Tlv];
    let b = [B::Unsigned, B::Signed, B::Branch, B::GotLoad, B::Got, B::Subtractor, B::Signed1, B::Signed2, B::Signed4, B::Tlv];
    let (x, y) = (sut(|| A::from_u8(n)).ok(), sut(|| B::from_u8(n)).ok());
    let (x2, y2) = (a.get(n as usize).copied(), b.get(n as usize).copied());
    if x != x2 || y != y2 || x.map_or(false, |x| x.to_u8() != n) || y.map_or(false, |y| y.to_u8() != n) {
        return bad("wrong-value", format!("relocation type {} is read as {:?} and {:?}", n, x, y));
    }
    Ok(())
}

/// The bytes of a sequence, with what a writer may leave behind the names.
fn p10_bytes(s: &Seq, p: &J) -> Vec<u8> {
    let mut bytes = s.bytes.clone();
    let junk = p.u("junk");
    if junk != 0 {
        for (i, x) in s.recs.iter().enumerate() {
            for (o, l) in enc(x, s.be).names {
                for k in l + 1..16 {
                    bytes[s.at[i] + o + k] = match junk % 3 {
                        0 => b'A' + ((junk + k as u64) % 26) as u8,
                        1 => b' ',
                        _ => [b'x', 0][(junk as usize + k) % 2],
                    };
                }
            }
        }
        cnt(C::probe_bytes_behind_name);
    }
    bytes
}

/// One file being read record by record.
struct Reading<'a> {
    s: &'a Seq,
    i: usize,
    /// reads the record of that number; tells what came out and how many bytes were consumed
    read: Box<dyn FnMut(usize) -> (Result<Rec, String>, usize) + 'a>,
}
impl<'a> Reading<'a> {
    fn new(s: &'a Seq, mut rd: SimReader<'a>) -> Self {
        let mut endian = None;
        let read = move |i: usize| {
            let r = match endian {
                None => sut(|| Header64::read_from(&mut rd)).map(|(x, e)| {
                    endian = Some(e);
                    Rec::Hdr(x)
                }),
                Some(e) => sut(|| read_like!(&s.recs[i], &mut rd, e, s.direct[i])),
            };
            (r, rd.delivered())
        };
        Reading { s, i: 0, read: Box::new(read) }
    }
    fn next(&mut self) -> R {
        let (s, i) = (self.s, self.i);
        if i >= s.recs.len() {
            return Ok(());
        }
        self.i += 1;
        let (got, delivered) = (self.read)(i);
        let got = match got {
            Ok(x) => x,
            Err(e) => return bad("decode-failed", format!("reading well-formed {} {} failed: {}", kind(&s.recs[i]), i, e)),
        };
        if enc(&got, s.be).v != s.bytes[s.at[i]..s.at[i + 1]] {
            return bad("wrong-value", format!("{} {} encoded as\n{}\nwas read as\n{}", kind(&s.recs[i]), i, show(&s.recs[i]), show(&got)));
        }
        if let Rec::Lc(x) = &got {
            let (c, n) = (x.cmd(), x.cmd_size() as usize);
            if n != s.at[i + 1] - s.at[i] || enc(&got, false).v[..4] != c.to_le_bytes() {
                return bad("wrong-value", format!("command {:#x} of {} bytes says of itself: {:#x}, {} bytes", s.bytes[s.at[i]], s.at[i + 1] - s.at[i], c, n));
            }
        }
        if let Rec::Re(x) = &got {
            reloc_type(x.r_type)?;
        }
        if delivered != s.at[i + 1] {
            return bad(
                "wrong-consumption",
                format!("after reading {} {}, {} bytes were consumed; it ends at {}", kind(&s.recs[i]), i, delivered, s.at[i + 1]),
            );
        }
        Ok(())
    }
    fn rest(&mut self) -> R {
        while self.i < self.s.recs.len() {
            self.next()?;
        }
        Ok(())
    }
}

/// Reads records without judging them.
pub fn decode_any(p: &J, id: u64) {
    if let Some(s) = sequence(p) {
        let mut r = Reading::new(&s, SimReader::new(id, &s.bytes, p.get("rd")));
        for i in 0..s.recs.len() {
            if (r.read)(i).0.is_err() {
                break;
            }
        }
    }
}

fn p10(s: &Seq, p: &J) -> R {
    let bytes = p10_bytes(s, p);
    death_is("decode-failed", "reading a well-formed record ended the process");
    let q = p.get("oth");
    let t = match sequence(q) {
        Some(t) if !q.is_null() => t,
        None if !q.is_null() => {
            cnt(C::skipped_plan);
            return Ok(());
        }
        _ => return Reading::new(s, SimReader::new(1, &bytes, p.get("rd"))).rest(),
    };
    // a second file is read at the same time
    cnt(C::probe_two_files);
    let other = p10_bytes(&t, q);
    let a = || SimReader::new(1, &bytes, p.get("rd"));
    let b = || Reading::new(&t, SimReader::new(2, &other, q.get("rd")));
    match q.i("way") {
        0 => {
            // in turns
            let (mut a, mut b) = (Reading::new(s, a()), b());
            for k in p.a("ord") {
                if k.int() == 0 {
                    a.next()?
                } else {
                    b.next()?
                }
            }
            a.rest()?;
            b.rest()
        }
        1 => {
            // inside a read call of the first
            let mut nested: R = Ok(());
            let r = {
                let mut a = a();
                let n = &mut nested;
                a.nested = Some((q.u("in") as usize, Box::new(move || *n = b().rest())));
                Reading::new(s, a).rest()
            };
            nested?;
            r
        }
        _ => {
            let plan: Vec<u64> = p.a("ord").iter().map(|x| x.int() as u64).collect();
            sched::start(2, plan);
            std::thread::scope(|sc| {
                let hs: Vec<_> = (0..2)
                    .map(|k| {
                        let (a, b) = (&a, &b);
                        sc.spawn(move || {
                            sched::enter(k);
                            let r = if k == 0 { Reading::new(s, a()).rest() } else { b().rest() };
                            if let Err((c, m)) = &r {
                                violation_now(c, m);
                            }
                            sched::leave();
                            r
                        })
                    })
                    .collect();
                for h in hs {
                    h.join().map_err(|_| ("harness".to_string(), "thread".to_string()))??;
                }
                Ok(())
            })
        }
    }
}

fn p11(s: &Seq, p: &J) -> R {
    let mut bytes = s.bytes.clone();
    let mut flipped = false;
    for f in p.a("flip") {
        if f.arr().len() != 2 {
            return Ok(());
        }
        let o = f.arr()[0].int() as usize;
        let x = f.arr()[1].int();
        if o >= bytes.len() {
            cnt(C::skipped_plan);
            return Ok(());
        }
        if x == -1 {
            bytes[o] = 0xff
        } else {
            bytes[o] ^= x as u8
        }
        cnt(C::fault_damaged_byte);
        flipped = true;
    }
    let mut end = bytes.len();
    if !p.get("cut").is_null() {
        end = (p.u("cut") as usize).min(end);
        bytes.truncate(end);
        cnt(C::fault_truncated_stream);
    }
    if !p.get("rd").get("fail").is_null() {
        end = end.min(p.get("rd").get("fail").u("at") as usize);
    }
    let mut rd = SimReader::new(1, &bytes, p.get("rd"));
    death_is_fine();
    // `r` reads like record `like`, from `from`; the verdict on what came out
    let judge = |r: Result<Rec, String>, from: usize, rd: &SimReader, be: bool| -> Result<Option<Rec>, (String, String)> {
        let to = rd.delivered();
        match r {
            Err(_) => {
                if flipped {
                    cnt(C::probe_decode_refused_damage);
                }
                Ok(None)
            }
            Ok(x) => {
                let e = enc(&x, be);
                let (say, have) = match &x {
                    Rec::Lc(LoadCommand::Segment64(c, s)) => (c.nsects as usize, s.len()),
                    Rec::Lc(LoadCommand::BuildVersion(c, t)) => (c.ntools as usize, t.len()),
                    _ => (0, 0),
                };
                if say != have {
                    return bad(
                        "made-up-record",
                        format!("the {} at {} declares {} entries, but it was read with {}: {}", kind(&x), from, say, have, show(&x)),
                    );
                }
                if from + e.v.len() > end || rd.fail_fired() {
                    return bad(
                        "made-up-record",
                        format!("the stream ended or failed at {} inside the {} at {}, but it was read as {}", end, kind(&x), from, show(&x)),
                    );
                }
                if to < from || !e.same(&bytes[from..to]) {
                    return bad(
                        "wrong-value",
                        format!("{} stored as {:02x?}\nwas read as {}", kind(&x), &bytes[from..to.max(from)], show(&x)),
                    );
                }
                if flipped {
                    cnt(C::probe_decode_accepted_damage);
                }
                Ok(Some(x))
            }
        }
    };
    let mut endian = None;
    let r = sut(|| {
        let (h, e) = Header64::read_from(&mut rd);
        endian = Some(e);
        Rec::Hdr(h)
    });
    let be = bytes.first() == Some(&0xfe);
    let mut from = 0;
    if judge(r, from, &rd, be)?.is_none() {
        return Ok(());
    }
    for i in 1..s.recs.len() {
        from = rd.delivered();
        let e = endian.unwrap();
        let r = sut(|| read_like!(&s.recs[i], &mut rd, e, s.direct[i]));
        if judge(r, from, &rd, be)?.is_none() {
            return Ok(());
        }
    }
    Ok(())
}

fn size_of(r: &Rec) -> usize {
    (match r {
        Rec::Hdr(_) => Header64::SIZE,
        Rec::Nl(_) => NList64::SIZE,
        Rec::Re(_) => RelocationInfo::SIZE,
        Rec::Lc(LoadCommand::Segment64(_, s)) => SegmentCommand64::SIZE + Section64::SIZE * s.len() as u32,
        Rec::Lc(LoadCommand::Symtab(_)) => SymtabCommand::SIZE,
        Rec::Lc(LoadCommand::Dysymtab(_)) => DysymtabCommand::SIZE,
        Rec::Lc(LoadCommand::BuildVersion(_, t)) => BuildVersionCommand::SIZE + BuildToolVersion::SIZE * t.len() as u32,
    }) as usize
}

/// Write one record with its own writer.
pub fn write_rec(r: &Rec, w: &mut SimWriter, direct: bool) {
    match r {
        Rec::Hdr(x) => x.write_into(w),
        Rec::Nl(x) => x.write_into(w),
        Rec::Re(x) => x.write_into(w),
        Rec::Lc(x) if !direct => x.write_into(w),
        Rec::Lc(LoadCommand::Segment64(c, s)) => {
            c.write_into(w);
            s.iter().for_each(|s| s.write_into(w));
        }
        Rec::Lc(LoadCommand::Symtab(c)) => c.write_into(w),
        Rec::Lc(LoadCommand::Dysymtab(c)) => c.write_into(w),
        Rec::Lc(LoadCommand::BuildVersion(c, t)) => {
            c.write_into(w);
            t.iter().for_each(|t| t.write_into(w));
        }
    }
}

fn equal(a: &Rec, b: &Rec) -> bool {
    match (a, b) {
        (Rec::Hdr(x), Rec::Hdr(y)) => x == y,
        (Rec::Lc(x), Rec::Lc(y)) => x == y,
        (Rec::Nl(x), Rec::Nl(y)) => x == y,
        (Rec::Re(x), Rec::Re(y)) => x == y,
        _ => false,
    }
}

/// A record like `s`, but one the format may have no way to express.
fn make_odd(s: &J, odd: &J) -> Option<Rec> {
    let mut r = build(s, false)?;
    let (k, j) = (odd.u("k") as usize, odd.u("j") as usize);
    let name = |n: &str| -> String {
        let c = j % (n.len() + 1);
        match k % 5 {
            0 => format!("{}{}", n, &"0123456789abcdefg"[n.len()..]),
            1 => "long".repeat(5 + j),
            2 => format!("{}\0{}", &n[..c.min(n.len().saturating_sub(1))], &n[(c + 1).min(n.len())..]),
            3 => format!("{}\0", &n[..c.min(15)]),
            _ => format!("{}{}", &n[..c.min(10)], ["é", "ÿ", "\u{80}", "名", "\u{1F600}"][j % 5]),
        }
    };
    let count = |n: u32| -> u32 {
        match j % 5 {
            0 => n + 1,
            1 if n > 0 => n - 1,
            2 if n > 0 => 0,
            3 => n + 256,
            _ => n + (1 << 31),
        }
    };
    match &mut r {
        Rec::Re(x) if k % 2 == 0 => x.r_symbolnum |= 1 << (24 + j % 8),
        Rec::Re(x) => x.r_type |= 1 << (4 + j % 4),
        Rec::Lc(LoadCommand::BuildVersion(c, _)) if s.i("d") == 0 => c.ntools = count(c.ntools),
        Rec::Lc(LoadCommand::Segment64(c, ss)) => match k % 4 {
            0 if s.i("d") == 0 => c.nsects = count(c.nsects),
            0 | 1 => c.segname = name(&c.segname),
            x if !ss.is_empty() => {
                let n = ss.len();
                let q = &mut ss[j % n];
                if x == 2 {
                    q.segname = name(&q.segname)
                } else {
                    q.sectname = name(&q.sectname)
                }
            }
            _ => c.segname = name(&c.segname),
        },
        _ => return None,
    }
    Some(r)
}
/// It is refused, or reads back as what was written.
fn p12_odd(s: &Seq, p: &J) -> R {
    let odd = p.get("odd");
    let i = odd.u("i") as usize % s.recs.len();
    let x = match make_odd(&p.a("recs")[i], odd) {
        Some(x) => x,
        None => {
            cnt(C::skipped_plan);
            return Ok(());
        }
    };
    cnt(C::probe_odd_description);
    let mut w = SimWriter::new(2, None, "", p.get("wr"), s.bytes.len() + 4096);
    death_is_fine();
    let written = sut(|| {
        write_rec(&s.recs[0], &mut w, false);
        write_rec(&x, &mut w, s.direct[i])
    });
    if written.is_err() {
        cnt(C::probe_odd_refused);
        return Ok(());
    }
    let got = w.got;
    let mut rd = SimReader::new(1, &got, p.get("rd"));
    death_is("not-equal", "a record the format cannot express was written, and reading it back ended the process");
    let back = sut(|| {
        let (_, e) = Header64::read_from(&mut rd);
        read_like!(&x, &mut rd, e, s.direct[i])
    });
    match back {
        Ok(y) if equal(&x, &y) => Ok(()),
        Ok(y) => bad("not-equal", format!("the format cannot express this record, yet it was written: {}\nread back {}", show(&x), show(&y))),
        Err(e) => bad("not-equal", format!("the format cannot express this record, yet it was written: {}\nreading back: {}", show(&x), e)),
    }
}

fn p12(s: &Seq, p: &J) -> R {
    if !p.get("odd").is_null() {
        return p12_odd(s, p);
    }
    if s.be {
        cnt(C::skipped_plan);
        return Ok(());
    }
    let mut w = SimWriter::new(2, Some(&s.bytes), "wrong-bytes", p.get("wr"), s.bytes.len());
    death_is("write-failed", "writing a record ended the process");
    for i in 0..s.recs.len() {
        if let Err(e) = sut(|| write_rec(&s.recs[i], &mut w, s.direct[i])) {
            return bad("write-failed", format!("writing {} {} failed: {}", kind(&s.recs[i]), show(&s.recs[i]), e));
        }
        if w.got.len() != s.at[i + 1] {
            return bad(
                "wrong-bytes",
                format!("{} wrote {} bytes, the format prescribes {}", kind(&s.recs[i]), w.got.len() as i64 - s.at[i] as i64, s.at[i + 1] - s.at[i]),
            );
        }
        if w.got.len() - s.at[i] != size_of(&s.recs[i]) {
            return bad("wrong-size", format!("{} has {} bytes but declares size {}", kind(&s.recs[i]), w.got.len() - s.at[i], size_of(&s.recs[i])));
        }
    }
    let got = w.got;
    let mut rd = SimReader::new(1, &got, p.get("rd"));
    death_is("read-back-failed", "reading back a written record ended the process");
    let (hd, endian) = match sut(|| Header64::read_from(&mut rd)) {
        Ok(x) => x,
        Err(e) => return bad("read-back-failed", format!("reading back the header failed: {}", e)),
    };
    let mut g = Rec::Hdr(hd);
    for i in 0..s.recs.len() {
        if i > 0 {
            // reader and writer of single structs or of whole load commands, independently
            let d = s.direct[i] ^ (s.at[i] / 8 % 2 == 1);
            g = match sut(|| read_like!(&s.recs[i], &mut rd, endian, d)) {
                Ok(x) => x,
                Err(e) => return bad("read-back-failed", format!("reading back {} failed: {}", show(&s.recs[i]), e)),
            };
        }
        if !equal(&g, &s.recs[i]) {
            return bad("not-equal", format!("wrote {}\nread back {}", show(&s.recs[i]), show(&g)));
        }
        if rd.delivered() != s.at[i + 1] {
            return bad("wrong-consumption", format!("reading back {} consumed {} bytes", kind(&s.recs[i]), rd.delivered() - s.at[i]));
        }
    }
    Ok(())
}

/// P14: reading records ends, whatever the stream answers.
pub fn run_p14(p: &J) -> R {
    let s = match sequence(p) {
        Some(s) => s,
        None => {
            cnt(C::skipped_plan);
            return Ok(());
        }
    };
    let mut bytes = s.bytes.clone();
    let mut benign = p.get("rd").get("fail").is_null() || p.get("rd").get("fail").u("at") as usize >= bytes.len();
    if !p.get("cut").is_null() && (p.u("cut") as usize) < bytes.len() {
        bytes.truncate(p.u("cut") as usize);
        cnt(C::fault_truncated_stream);
        benign = false;
    }
    if !benign {
        cnt(C::probe_refusing_forever);
    }
    let mut rd = SimReader::new(1, &bytes, p.get("rd"));
    if benign {
        death_is("work-not-completed", "reading records from a stream that only shortens and interrupts ended the process");
    } else {
        death_is_fine();
    }
    let r = sut(|| {
        let (_, endian) = Header64::read_from(&mut rd);
        for i in 1..s.recs.len() {
            let _ = read_like!(&s.recs[i], &mut rd, endian, s.direct[i]);
        }
    });
    match r {
        Err(e) if benign => bad(
            "work-not-completed",
            format!("reading well-formed records failed although the stream only shortened and interrupted calls: {}", e),
        ),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- P21

/// Where a record says how much is to follow: entry counts and declared sizes.
fn announcing(s: &Seq) -> Vec<usize> {
    let mut v = vec![];
    for (i, r) in s.recs.iter().enumerate() {
        let a = s.at[i];
        match r {
            Rec::Hdr(_) => v.extend([a + 16, a + 20]),
            Rec::Lc(LoadCommand::Segment64(_, x)) => {
                v.extend([a + 64, a + 64, a + 64, a + 4, a + 32, a + 48]);
                for k in 0..x.len() {
                    v.extend([a + 72 + 80 * k + 40, a + 72 + 80 * k + 60]);
                }
            }
            Rec::Lc(LoadCommand::BuildVersion(..)) => v.extend([a + 20, a + 20, a + 4]),
            Rec::Lc(LoadCommand::Symtab(_)) => v.extend([a + 4, a + 12, a + 20]),
            Rec::Lc(LoadCommand::Dysymtab(_)) => v.extend([a + 4, a + 12, a + 60]),
            Rec::Nl(_) => v.push(a),
            Rec::Re(_) => v.push(a + 4),
        }
    }
    v
}

pub fn p21_plan(r: &mut Rng) -> J {
    loop {
        let mut recs = gen_recs(r);
        for q in recs.iter_mut() {
            if r.chance(1, 4) {
                q.set("d", J::Int(1));
            }
        }
        let mut p = jo! {"do": "rec", "be": r.below(2), "recs": recs};
        let s = sequence(&p).unwrap();
        let (n, c) = (s.bytes.len(), cuts(&s));
        let rd = gen::benign(r, n, &c);
        p.set("rd", if r.chance(1, 6) { gen::with_fail(r, rd, n - 1, &c, false) } else { rd });
        let at = announcing(&s);
        let mut set = vec![];
        let mut put = |o: usize, v: u64| {
            for b in 0..4u64 {
                let sh = if s.be { 24 - 8 * b } else { 8 * b };
                set.push(J::Arr(vec![J::Int((o as u64 + b) as i128), J::Int((v >> sh & 0xff) as i128)]));
            }
        };
        let many: Vec<usize> = (0..s.recs.len())
            .filter(|i| matches!(s.recs[*i], Rec::Lc(LoadCommand::Segment64(..) | LoadCommand::BuildVersion(..))))
            .collect();
        if !many.is_empty() && r.chance(2, 3) {
            // a count and a declared size that agree with each other, but not with what follows
            let i = *r.pick(&many);
            let (o, own, each) = if matches!(s.recs[i], Rec::Lc(LoadCommand::Segment64(..))) { (64, 72u64, 80u64) } else { (20, 24, 8) };
            let max = (u32::MAX as u64 - own) / each;
            let n = match r.below(4) {
                0 => max - r.below(3),
                1 => 1 << r.below(64 - max.leading_zeros() as u64),
                _ => (r.u64() >> (32 + r.below(8))) % (max + 1),
            };
            put(s.at[i] + o, n);
            put(s.at[i] + 4, own + each * n);
        } else {
            for _ in 0..r.range(1, 2) {
                let v = if r.chance(1, 2) { r.u64() >> (32 + r.below(10)) } else { r.edgy(32) };
                put(*r.pick(&at), v);
            }
        }
        p.set("put", J::Arr(set));
        if r.chance(1, 4) {
            p.set("cut", J::Int(*r.pick(&c) as i128));
        }
        return p;
    }
}

pub fn run_p21(p: &J) -> R {
    let s = match sequence(p) {
        Some(s) => s,
        None => {
            cnt(C::skipped_plan);
            return Ok(());
        }
    };
    let mut bytes = s.bytes.clone();
    for f in p.a("put") {
        if f.arr().len() != 2 || f.arr()[0].int() as usize >= bytes.len() {
            cnt(C::skipped_plan);
            return Ok(());
        }
        bytes[f.arr()[0].int() as usize] = f.arr()[1].int() as u8;
        cnt(C::fault_damaged_byte);
    }
    if !p.get("cut").is_null() && (p.u("cut") as usize) < bytes.len() {
        bytes.truncate(p.u("cut") as usize);
        cnt(C::fault_truncated_stream);
    }
    for (i, r) in s.recs.iter().enumerate() {
        let (o, size) = match r {
            Rec::Lc(LoadCommand::Segment64(..)) => (64, std::mem::size_of::<Section64>()),
            Rec::Lc(LoadCommand::BuildVersion(..)) => (20, std::mem::size_of::<BuildToolVersion>()),
            _ => continue,
        };
        if let Some(b) = bytes.get(s.at[i] + o..s.at[i] + o + 4) {
            let b: [u8; 4] = b.try_into().unwrap();
            let n = if s.be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) };
            if n as i64 * size as i64 > crate::meter::BASE + crate::meter::PER_BYTE * bytes.len() as i64 {
                cnt(C::probe_announced_over_allowance);
            }
        }
    }
    let mut rd = SimReader::new(1, &bytes, p.get("rd"));
    death_is_fine();
    crate::meter::start(0);
    let _ = sut(|| {
        let (_, e) = Header64::read_from(&mut rd);
        for (r, d) in s.recs.iter().zip(&s.direct).skip(1) {
            match r {
                Rec::Hdr(_) => {}
                Rec::Nl(_) => drop(NList64::read_from_in(&mut rd, e)),
                Rec::Re(_) => drop(RelocationInfo::read_from_in(&mut rd, e)),
                Rec::Lc(_) if !d => drop(LoadCommand::read_from_in(&mut rd, e)),
                Rec::Lc(LoadCommand::Segment64(..)) => {
                    for _ in 0..SegmentCommand64::read_from_in(&mut rd, e).nsects {
                        Section64::read_from_in(&mut rd, e);
                    }
                }
                Rec::Lc(LoadCommand::BuildVersion(..)) => {
                    for _ in 0..BuildVersionCommand::read_from_in(&mut rd, e).ntools {
                        BuildToolVersion::read_from_in(&mut rd, e);
                    }
                }
                Rec::Lc(LoadCommand::Symtab(_)) => drop(SymtabCommand::read_from_in(&mut rd, e)),
                Rec::Lc(LoadCommand::Dysymtab(_)) => drop(DysymtabCommand::read_from_in(&mut rd, e)),
            }
        }
    });
    Ok(())
}
