//! The C library, called through the shipped header by cdriver/shim.c: C20 (std), C21 (no_std).
use super::vm::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use driver::op;
use libc::{c_char, c_int, c_void};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shogi_core::{Bitboard, CompactMove, Game, Hand, PartialGame, PartialPosition};
use std::ffi::{CStr, CString};
use std::sync::OnceLock;

#[repr(C)]
struct RawLib([u8; 0]);

struct Shim {
    open: unsafe extern "C" fn(*const c_char, *mut c_int, *mut c_char, usize) -> *mut RawLib,
    handle: unsafe extern "C" fn(*mut RawLib) -> *mut c_void,
    close: unsafe extern "C" fn(*mut RawLib, *const c_char) -> c_int,
    constant: unsafe extern "C" fn(c_int, *mut libc::c_long) -> *const c_char,
    sizeof: unsafe extern "C" fn(c_int) -> usize,
    run: unsafe extern "C" fn(*const RawLib, *const PartialPosition, usize, *const u8, usize, *mut u8, usize) -> usize,
    games: unsafe extern "C" fn(*const RawLib, *mut Game, *mut PartialGame, *const u8, usize, *mut u8, usize) -> usize,
    cycle: unsafe extern "C" fn(*const RawLib, usize, *const u8, usize),
    threads: unsafe extern "C" fn(*const RawLib, c_int, c_int, *const u8, c_int, *mut usize) -> c_int,
    alloc_threads: unsafe extern "C" fn(*mut c_void, c_int, *const usize, *const usize, c_int, *mut usize),
    churn_threads: unsafe extern "C" fn(*mut c_void, *mut c_void, *mut c_void, c_int, u64, usize, c_int) -> c_int,
}
static SHIM: OnceLock<Result<Shim, String>> = OnceLock::new();

fn shim(tools: &str) -> Result<&'static Shim, String> {
    SHIM.get_or_init(|| unsafe {
        let path = format!("{tools}/shim.so");
        let h = libc::dlopen(CString::new(path.clone()).unwrap().as_ptr(), libc::RTLD_NOW | libc::RTLD_GLOBAL);
        if h.is_null() {
            return Err(format!("harness: {path}: {}", CStr::from_ptr(libc::dlerror()).to_string_lossy()));
        }
        macro_rules! f {
            ($n:literal) => {{
                let p = libc::dlsym(h, $n.as_ptr());
                if p.is_null() {
                    return Err(format!("harness: {} is not in the shim", $n.to_string_lossy()));
                }
                std::mem::transmute(p)
            }};
        }
        Ok(Shim {
            open: f!(c"shim_open"),
            handle: f!(c"shim_handle"),
            close: f!(c"shim_close"),
            constant: f!(c"shim_constant"),
            sizeof: f!(c"shim_sizeof"),
            run: f!(c"shim_run"),
            games: f!(c"shim_games"),
            cycle: f!(c"shim_cycle"),
            threads: f!(c"shim_threads"),
            alloc_threads: f!(c"shim_alloc_threads"),
            churn_threads: f!(c"shim_churn_threads"),
        })
    })
    .as_ref()
    .map_err(|e| e.clone())
}

pub struct Lib {
    raw: *mut RawLib,
    path: CString,
    shim: &'static Shim,
}
impl Lib {
    fn open(tools: &str, name: &str) -> Result<Lib, String> {
        let shim = shim(tools)?;
        let path = CString::new(format!("{tools}/{name}")).unwrap();
        let (mut kind, mut msg) = (0, [0u8; 512]);
        let raw = unsafe { (shim.open)(path.as_ptr(), &mut kind, msg.as_mut_ptr() as *mut c_char, msg.len()) };
        if raw.is_null() {
            let m = unsafe { CStr::from_ptr(msg.as_ptr() as *const c_char) }.to_string_lossy().to_string();
            return Err(if kind == 2 { m } else { format!("harness: {m}") });
        }
        Ok(Lib { raw, path, shim })
    }
    /// The library must really go, so that the next one starts with a fresh arena.
    fn close_fresh(self) -> Check {
        let this = std::mem::ManuallyDrop::new(self);
        if unsafe { (this.shim.close)(this.raw, this.path.as_ptr()) } != 0 {
            return Err("harness: the library stays loaded".into());
        }
        Ok(())
    }
    fn run(&self, k: &Compiled) -> Result<Vec<u8>, String> {
        self.run_bytes(&k.bytes, &k.init)
    }
    fn run_bytes(&self, bytes: &[u8], init: &[PartialPosition]) -> Result<Vec<u8>, String> {
        let mut out = vec![0u8; 65536 + bytes.len() * 300];
        let n = unsafe { (self.shim.run)(self.raw, init.as_ptr(), init.len(), bytes.as_ptr(), bytes.len(), out.as_mut_ptr(), out.len()) };
        if n > out.len() {
            if n == usize::MAX {
                return Err("harness: the transcript is too long".into());
            }
            let i = usize::MAX - 1 - n;
            return Err(format!("operation {i} ({}, {:?}) writes outside the object it is given", op_name(bytes[8 * i]), &bytes[8 * i + 1..8 * i + 8]));
        }
        out.truncate(n);
        Ok(out)
    }
    fn sym(&self, name: &CStr) -> Option<*mut c_void> {
        unsafe {
            let p = libc::dlsym((self.shim.handle)(self.raw), name.as_ptr());
            if p.is_null() {
                return None;
            }
            // only what the library itself brings along
            let mut info: libc::Dl_info = std::mem::zeroed();
            let anchor = libc::dlsym((self.shim.handle)(self.raw), c"Square_index".as_ptr());
            let mut ainfo: libc::Dl_info = std::mem::zeroed();
            if libc::dladdr(p, &mut info) == 0 || libc::dladdr(anchor, &mut ainfo) == 0 || info.dli_fbase != ainfo.dli_fbase {
                return None;
            }
            Some(p)
        }
    }
}

/// A check that found something gives up in the middle: the next one still needs a fresh library.
impl Drop for Lib {
    fn drop(&mut self) {
        unsafe { (self.shim.close)(self.raw, self.path.as_ptr()) };
    }
}

pub const STD: &str = "libc-std.so";
pub const NOSTD: &str = "libc-nostd.so";
pub const HOOKED: &str = "libc-nostd-hooked.so";

/// Number of scripts of `scalar_script`.
pub const SCALARS: u64 = 81 * 256 + 256 + 1 + 81 + 28;
pub fn scalar_script(i: u64) -> Vec<u8> {
    let mut v = Vec::new();
    let mut put = |code: u8, args: &[u8]| {
        let mut x = [0u8; 8];
        x[0] = code;
        x[1..1 + args.len()].copy_from_slice(args);
        v.extend_from_slice(&x);
    };
    let (a, b) = (81 * 256, 81 * 256 + 256);
    if i < a {
        for d in 0..=255 {
            put(op::SQ_SHIFT, &[(i / 256) as u8, (i % 256) as u8, d]);
        }
    } else if i < b {
        for d in 0..=255 {
            put(op::SQ_NEW, &[(i - a) as u8, d, 0]);
            put(op::SQ_NEW, &[(i - a) as u8, d, 1]);
        }
    } else if i == b {
        for x in 0..=255 {
            put(op::SQ_FROM_U8, &[x]);
            put(op::PK_FROM_U8, &[x]);
            if x < 81 {
                put(op::SQ_INFO, &[x]);
            }
            if x < 14 {
                put(op::PK_INFO, &[x]);
                put(op::PIECE_NEW, &[x, 0]);
                put(op::PIECE_NEW, &[x, 1]);
            }
            if x < 28 {
                put(op::PIECE_INFO, &[x]);
            }
            if x < 7 {
                put(op::COLOR_INFO, &[x]);
                put(op::ENUMS, &[x, x]);
            }
        }
    } else if i < b + 1 + 81 {
        for t in 0..81 {
            put(op::CM_NORMAL, &[(i - b - 1) as u8, t, 0]);
            put(op::CM_NORMAL, &[(i - b - 1) as u8, t, 1]);
        }
    } else {
        for t in 0..81 {
            put(op::CM_DROP, &[(i - b - 82) as u8, t]);
        }
    }
    v
}

fn c_script(c: impl Fn(&Compiled) -> Check, s: &Script, t: &mut Tally) -> Check {
    let k = compile(s, true);
    if k.moves > 0 && k.bytes.len() >= 80 {
        t.nontrivial();
    }
    t.count("calls", k.bytes.len() as u64 / 8);
    t.count("accepted moves", k.moves as u64);
    c(&k)
}

/// The header's enumerators and macros by name, and its scalar types as size * 10 + (1 if unsigned), seen from Rust.
fn constant(name: &str) -> Option<i64> {
    use shogi_core::c_compat::*;
    use shogi_core::*;
    macro_rules! scalar {
        ($($t:ident $r:ty),*) => { $(if name == stringify!($t) { return Some(std::mem::size_of::<$r>() as i64 * 10 + 1); })* };
    }
    macro_rules! variants {
        ($($e:ident: $($v:ident)*;)*) => { $($(if name == stringify!($v) { return Some($e::$v as i64); })*)* };
    }
    variants! {
        Color: Black White;
        GameResolution: BlackWins WhiteWins Draw Rematch Aborted;
        IllegalMoveKind: TwoPawns IgnoredCheck DropPawnMate DropStuck NormalStuck GameFinished IncorrectMove;
        PieceKind: Pawn Lance Knight Silver Gold Bishop Rook King ProPawn ProLance ProKnight ProSilver ProBishop ProRook;
    }
    scalar!(Color Color, GameResolution GameResolution, IllegalMoveKind IllegalMoveKind, PieceKind PieceKind, Square Square, OptionSquare OptionSquare, CompactMove CompactMove, OptionCompactMove OptionCompactMove, Piece Piece, OptionPiece OptionPiece, OptionGameResolution OptionGameResolution, OptionPieceKind OptionPieceKind);
    Some(match name {
        "Color_NUM" => Color::NUM as i64,
        "PieceKind_OPTION_NUM" => PieceKind::OPTION_NUM as i64,
        "Square_NUM" => Square::NUM as i64,
        "Piece_NUM" => Piece::NUM as i64,
        "Hand_NUM_HAND_PIECES" => Hand::NUM_HAND_PIECES as i64,
        _ => return None,
    })
}

/// Names of the functions a header declares.
fn declared(header: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut text = String::new();
    let mut rest = header;
    while let Some(i) = rest.find("/*") {
        text.push_str(&rest[..i]);
        rest = rest[i..].find("*/").map_or("", |j| &rest[i + j + 2..]);
    }
    text.push_str(rest);
    for stmt in text.split(';') {
        let stmt: String = stmt.lines().filter(|l| !l.trim_start().starts_with('#')).collect::<Vec<_>>().join(" ");
        if stmt.contains('{') || stmt.contains("typedef") {
            continue;
        }
        if let Some(i) = stmt.find('(') {
            let name: String = stmt[..i].trim_end().chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<Vec<_>>().into_iter().rev().collect();
            if !name.is_empty() {
                v.push(name);
            }
        }
    }
    v
}

pub fn c20(ctx: &mut Ctx) {
    let tools = ctx.tools.clone();
    let lib = |_: ()| Lib::open(&tools, STD);
    // The library is opened once per worker.
    let opened: OnceLock<Result<Lib, String>> = OnceLock::new();
    let get = || opened.get_or_init(|| lib(())).as_ref().map_err(|e| e.clone());

    ctx.enumerate("declarations", "every function the header declares; non-trivial: all", 1, 1, |i| i, |_: &u64, t| {
        t.nontrivial();
        let header = std::fs::read_to_string("/repo/include/shogi_core.h").map_err(|e| format!("harness: {e}"))?;
        let l = get()?;
        let names = declared(&header);
        t.count("functions", names.len() as u64);
        ensure!(names.len() >= 50, "harness: only {} declarations found", names.len());
        for n in &names {
            ensure!(l.sym(&CString::new(n.as_str()).unwrap()).is_some(), "the header declares {n}, but the library does not export it");
        }
        let s = l.shim;
        use std::mem::{align_of, size_of};
        unsafe {
            ensure_eq!((s.sizeof)(0), size_of::<PartialPosition>(), "sizeof(PartialPosition) in C against Rust");
            ensure_eq!((s.sizeof)(1), align_of::<PartialPosition>(), "_Alignof(PartialPosition) in C against Rust");
            ensure_eq!((s.sizeof)(2), size_of::<Bitboard>(), "sizeof(Bitboard) in C against Rust");
            ensure_eq!((s.sizeof)(3), align_of::<Bitboard>(), "_Alignof(Bitboard) in C against Rust");
            ensure_eq!((s.sizeof)(4), size_of::<Hand>(), "sizeof(Hand) in C against Rust");
            ensure_eq!((s.sizeof)(5), size_of::<CompactMove>(), "sizeof(CompactMove) in C against Rust");
        }
        Ok(())
    });
    ctx.enumerate("constants", "every enumerator, macro and scalar type of the header; non-trivial: all", 1, 1, |i| i, |_: &u64, t| {
        t.nontrivial();
        let s = get()?.shim;
        for i in 0.. {
            let mut v = 0;
            let n = unsafe { (s.constant)(i, &mut v) };
            if n.is_null() {
                break;
            }
            let n = unsafe { CStr::from_ptr(n) }.to_string_lossy();
            t.count("constants", 1);
            let want = constant(&n).ok_or_else(|| format!("harness: {n}?"))?;
            ensure_eq!(v as i64, want, "{n} in C against Rust (for a type: size times 10, and 1 if unsigned)");
        }
        Ok(())
    });
    let against_rust = |k: &[u8], init: &[PartialPosition]| -> Check {
        let got = get()?.run_bytes(k, init)?;
        differ(k, &got, "the C library", &driver::run(k, init, false), "Rust")
    };
    ctx.enumerate("values", "every argument of the functions on squares, kinds, pieces, colours and compact moves; non-trivial: all", SCALARS, 8, |i| i, |&i: &u64, t| {
        t.nontrivial();
        let s = scalar_script(i);
        t.count("calls", s.len() as u64 / 8);
        against_rust(&s, &[])
    });
    ctx.explore("scripts", SCRIPT_RULE, 20_000, 1_000_000, || script(true, 5..80), |s: &Script, t| c_script(|k| against_rust(&k.bytes, &k.init), s, t));
    ctx.explore("games", SCRIPT_RULE, 6_000, 250_000, || game_script(true, 20..300), |s: &Script, t| c_script(|k| against_rust(&k.bytes, &k.init), s, t));
    ctx.explore("compatibility functions in Rust", "the functions exported to C, called from Rust; as 'scripts'", 8_000, 400_000, || script(true, 5..80), |s: &Script, t| {
        c_script(
            |k| {
                let (a, b) = (driver::run(&k.bytes, &k.init, true), driver::run(&k.bytes, &k.init, false));
                differ(&k.bytes, &a, "the C interface", &b, "the Rust interface")
            },
            s,
            t,
        )
    });
    ctx.explore("game records", "resolve/unresolve scripts on Game and PartialGame objects; non-trivial: at least three calls", 10_000, 400_000, || prop::collection::vec(any::<(u8, u8)>(), 1..20).prop_map(Steps), |s: &Steps, t| {
        if s.0.len() >= 3 {
            t.nontrivial();
        }
        game_records(get()?, &s.0)
    });
    ctx.explore("create and destruct", "positions created, played on and destructed many times over; non-trivial: at least one move", 40, 400, || hist(Just(Base::Start).boxed(), MOVES, 0..40), |h: &Hist, t| {
        let moves = accepted(h);
        if !moves.is_empty() {
            t.nontrivial();
        }
        let l = get()?;
        let used = || unsafe { libc::mallinfo2().uordblks };
        unsafe { (l.shim.cycle)(l.raw, 50, moves.as_ptr(), moves.len()) };
        let before = used();
        unsafe { (l.shim.cycle)(l.raw, 2000, moves.as_ptr(), moves.len()) };
        let after = used();
        ensure!(after < before + 200_000, "2000 positions created and destructed: the memory in use grows from {before} to {after} bytes");
        Ok(())
    });
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Steps(Vec<(u8, u8)>);

fn game_records(l: &Lib, steps: &[(u8, u8)]) -> Check {
    let (mut g, mut p) = (Game::default(), PartialGame::default());
    let bytes: Vec<u8> = steps.iter().flat_map(|s| [s.0, s.1]).collect();
    let mut out = vec![0u8; steps.len() * 8];
    let n = unsafe { (l.shim.games)(l.raw, &mut g, &mut p, bytes.as_ptr(), bytes.len(), out.as_mut_ptr(), out.len()) };
    ensure!(n == out.len(), "harness: game records: {n} bytes");
    let start = MPos::start();
    let (mut gr, mut pr) = (0u8, 0u8);
    for (i, (&(a, b), o)) in steps.iter().zip(out.chunks(8)).enumerate() {
        match a % 4 {
            0 => gr = b % 5 + 1,
            1 => gr = 0,
            2 => pr = b % 5 + 1,
            _ => pr = 0,
        }
        let at = start.board[a as usize % 81];
        ensure_eq!(o, &[gr, pr, 1, 0, 1, 0, at, at][..], "call {i} ({} {}): resolutions, plies and a square of the two records", a % 4, b % 5 + 1);
    }
    ensure_eq!(g.resolution().map_or(0, |r| r as u8), gr, "the Game's resolution seen from Rust");
    ensure_eq!(p.resolution().map_or(0, |r| r as u8), pr, "the PartialGame's resolution seen from Rust");
    Ok(())
}

/// The accepted moves of a history from the starting position, as shim triples.
fn accepted(h: &Hist) -> Vec<u8> {
    let mut m = MPos::start();
    let mut v = Vec::new();
    for o in &h.ops {
        if let Act::Mv(x) = resolve(o, &m) {
            if m.apply(x).is_ok() {
                match x {
                    MMove::Normal { from, to, promote } => v.extend([from, to, promote as u8]),
                    MMove::Drop { piece, to } => v.extend([kind_of(piece) - 1 + 14 * color_of(piece) as u8, to, 2]),
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------------------ C21

/// Two writable pages with unreachable ones around.
struct Guarded {
    base: *mut u8,
    page: usize,
    pages: usize,
}
unsafe impl Sync for Guarded {}
unsafe impl Send for Guarded {}
impl Guarded {
    fn new(pages: usize) -> Guarded {
        unsafe {
            let page = libc::sysconf(libc::_SC_PAGESIZE) as usize;
            let p = libc::mmap(std::ptr::null_mut(), (pages + 2) * page, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let p = p as *mut u8;
            libc::mprotect(p as *mut c_void, page, libc::PROT_NONE);
            libc::mprotect(p.add((pages + 1) * page) as *mut c_void, page, libc::PROT_NONE);
            Guarded { base: p.add(page), page, pages }
        }
    }
    fn len(&self) -> usize {
        self.page * self.pages
    }
    #[allow(clippy::mut_from_ref)]
    fn all(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.len()) }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct MemCase {
    /// 0 copy, 1 fill, 2 compare, 3 zero.
    what: u8,
    n: u16,
    /// Offsets from the area's beginning or end.
    a: u8,
    b: u8,
    a_end: bool,
    b_end: bool,
    seed: u32,
    /// For compare: where the first difference is, and the two bytes. For fill: the value.
    diff: u16,
    x: i32,
    y: u8,
}

struct Areas {
    dst: Guarded,
    src: Guarded,
}
static AREAS: OnceLock<Areas> = OnceLock::new();

fn memory(l: &Lib, m: &MemCase, t: &mut Tally) -> Check {
    let g = AREAS.get_or_init(|| Areas { dst: Guarded::new(20), src: Guarded::new(20) });
    let n = (m.n as usize).min(g.dst.len() - 300);
    let place = |len: usize, off: u8, end: bool| if end { len - n - off as usize } else { off as usize };
    let (da, sa) = (place(g.dst.len(), m.a, m.a_end), place(g.src.len(), m.b, m.b_end));
    let (dst, src) = (g.dst.all(), g.src.all());
    // Only the surroundings are prepared and looked at; what is further away is as the case before left it.
    let lo = da.saturating_sub(256);
    let hi = (da + n + 256).min(dst.len());
    let mut x = m.seed as u64 | 1 << 40;
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 24) as u8
    };
    for i in lo..hi {
        dst[i] = next();
    }
    for i in sa..sa + n {
        src[i] = next();
    }
    let names = ["memcpy", "memset", "memcmp", "__bzero"];
    let cnames = [c"memcpy", c"memset", c"memcmp", c"__bzero"];
    let w = m.what as usize % 4;
    let Some(f) = l.sym(cnames[w]) else {
        t.class("routine not in the library");
        return Ok(());
    };
    t.class(names[w]);
    if n > 0 {
        t.nontrivial();
    }
    let mut want = dst[lo..hi].to_vec();
    let at = format!("{}, length {n}, destination at {da}{}, source at {sa}", names[w], if m.a_end && m.a == 0 { " (up to the end)" } else { "" });
    unsafe {
        match w {
            0 => {
                want[da - lo..da - lo + n].copy_from_slice(&src[sa..sa + n]);
                let keep = src[sa..sa + n].to_vec();
                let f: unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8 = std::mem::transmute(f);
                let r = f(dst.as_mut_ptr().add(da), src.as_ptr().add(sa), n);
                ensure!(r == dst.as_mut_ptr().add(da), "{at}: does not return its first argument");
                ensure!(src[sa..sa + n] == keep[..], "{at}: changes the source");
            }
            1 => {
                want[da - lo..da - lo + n].fill(m.x as u8);
                let f: unsafe extern "C" fn(*mut u8, c_int, usize) -> *mut u8 = std::mem::transmute(f);
                let r = f(dst.as_mut_ptr().add(da), m.x, n);
                ensure!(r == dst.as_mut_ptr().add(da), "{at}, value {}: does not return its first argument", m.x);
            }
            2 => {
                let d = m.diff as usize;
                let keep = src[sa..sa + n].to_vec();
                dst[da..da + n].copy_from_slice(&keep);
                // Beyond the first difference the contents differ at will.
                if d < n {
                    for i in d + 1..n {
                        dst[da + i] = next();
                    }
                    dst[da + d] = m.x as u8;
                    src[sa + d] = m.y;
                }
                let exp = dst[da..da + n].iter().zip(&src[sa..sa + n]).find(|(p, q)| p != q).map_or(0, |(p, q)| if p < q { -1 } else { 1 });
                want = dst[lo..hi].to_vec();
                let f: unsafe extern "C" fn(*const u8, *const u8, usize) -> c_int = std::mem::transmute(f);
                let r = f(dst.as_ptr().add(da), src.as_ptr().add(sa), n);
                ensure!(r.signum() == exp, "{at}, first difference at {d} ({} against {}): returns {r}, the sign should be {exp}", m.x as u8, m.y);
            }
            _ => {
                want[da - lo..da - lo + n].fill(0);
                let f: unsafe extern "C" fn(*mut u8, usize) = std::mem::transmute(f);
                f(dst.as_mut_ptr().add(da), n);
            }
        }
    }
    if let Some(i) = (lo..hi).find(|&i| dst[i] != want[i - lo]) {
        let rel = i as i64 - da as i64;
        return Err(format!("{at}: byte {rel} of the destination is {:#x}, expected {:#x}{}", dst[i], want[i - lo], if rel < 0 || rel >= n as i64 { " (outside the range)" } else { "" }));
    }
    Ok(())
}

/// Blocks (address, size, alignment) of one arena: aligned, apart from one another.
fn blocks_apart(mut v: Vec<(usize, usize, usize)>) -> Check {
    v.retain(|b| b.0 != 0);
    for &(p, n, a) in &v {
        ensure!(p % a == 0, "a block of {n} bytes with alignment {a} is at {p:#x}");
    }
    v.retain(|b| b.1 != 0);
    v.sort();
    for w in v.windows(2) {
        ensure!(w[0].0 + w[0].1 <= w[1].0, "blocks overlap: {:#x} + {} bytes and {:#x} + {} bytes", w[0].0, w[0].1, w[1].0, w[1].1);
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum AOp {
    Alloc { size: u16, align: u8 },
    Free(u8),
    Realloc { which: u8, size: u16 },
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ACase(Vec<AOp>);

fn allocator(tools: &str, c: &ACase, t: &mut Tally) -> Check {
    let l = Lib::open(tools, HOOKED)?;
    let sym = |n: &CStr| l.sym(n).ok_or_else(|| "harness: the hook is missing".to_string());
    let alloc: unsafe extern "C" fn(usize, usize) -> *mut u8 = unsafe { std::mem::transmute(sym(c"verif_alloc")?) };
    let dealloc: unsafe extern "C" fn(*mut u8, usize, usize) = unsafe { std::mem::transmute(sym(c"verif_dealloc")?) };
    let realloc: unsafe extern "C" fn(*mut u8, usize, usize, usize) -> *mut u8 = unsafe { std::mem::transmute(sym(c"verif_realloc")?) };
    struct Block {
        p: *mut u8,
        n: usize,
        a: usize,
        fill: u8,
    }
    let mut live: Vec<Block> = Vec::new();
    let fill = |b: &Block| unsafe { std::ptr::write_bytes(b.p, b.fill, b.n) };
    let whole = |b: &Block, n: usize, what: &str, i: usize| -> Check {
        for k in 0..n {
            let x = unsafe { *b.p.add(k) };
            ensure!(x == b.fill, "after step {i}: byte {k} of {what} is {x:#x}, {:#x} was written there", b.fill);
        }
        Ok(())
    };
    let mut given = 0;
    for (i, o) in c.0.iter().enumerate() {
        match *o {
            AOp::Alloc { size, align } => {
                let (n, a) = (size.max(1) as usize, 1usize << (align % 14));
                let p = unsafe { alloc(n, a) };
                if p.is_null() {
                    t.class("refused");
                } else {
                    given += 1;
                    let b = Block { p, n, a, fill: (i as u8).wrapping_mul(37) ^ 0x5a };
                    blocks_apart(live.iter().map(|b| (b.p as usize, b.n, b.a)).chain([(p as usize, n, a)]).collect())?;
                    fill(&b);
                    live.push(b);
                }
            }
            AOp::Free(k) => {
                if !live.is_empty() {
                    let b = live.swap_remove(k as usize % live.len());
                    whole(&b, b.n, "a block", i)?;
                    unsafe { dealloc(b.p, b.n, b.a) };
                }
            }
            AOp::Realloc { which, size } => {
                if !live.is_empty() {
                    let k = which as usize % live.len();
                    let n = size.max(1) as usize;
                    let p = unsafe { realloc(live[k].p, live[k].n, live[k].a, n) };
                    if p.is_null() {
                        t.class("refused");
                    } else {
                        let keep = live[k].n.min(n);
                        live[k].p = p;
                        whole(&live[k], keep, "a resized block", i)?;
                        live[k].n = n;
                        blocks_apart(live.iter().map(|b| (b.p as usize, b.n, b.a)).collect())?;
                        fill(&live[k]);
                    }
                }
            }
        }
        for b in &live {
            whole(b, b.n, "a block", i)?;
        }
    }
    if given >= 3 {
        t.nontrivial();
    }
    t.count("blocks", given);
    l.close_fresh()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TCase {
    threads: u8,
    /// For positions: how many per thread.
    per: u8,
    moves: Hist,
    sizes: Vec<(u16, u8)>,
}

fn threads_positions(tools: &str, c: &TCase, t: &mut Tally) -> Check {
    let l = Lib::open(tools, NOSTD)?;
    let moves = accepted(&c.moves);
    let (threads, per) = (c.threads as usize, c.per as usize);
    let mut addr = vec![0usize; threads * per];
    let bad = unsafe { (l.shim.threads)(l.raw, threads as c_int, per as c_int, moves.as_ptr(), (moves.len() / 3) as c_int, addr.as_mut_ptr()) };
    let what: Vec<&str> = [(1, "a move is refused"), (2, "an initial position changed"), (4, "a board changed"), (8, "a ply changed"), (16, "a last move changed")].iter().filter(|w| bad & w.0 != 0).map(|w| w.1).collect();
    ensure!(bad == 0, "positions created by {threads} threads at once: {}", what.join(", "));
    // A position holds at least its inner and its initial one.
    let size = 2 * std::mem::size_of::<PartialPosition>();
    blocks_apart(addr.iter().map(|&p| (p, size, std::mem::align_of::<PartialPosition>())).collect())?;
    if threads > 1 && per > 1 {
        t.nontrivial();
    }
    t.count("positions", (threads * per) as u64);
    l.close_fresh()
}

fn threads_blocks(tools: &str, c: &TCase, t: &mut Tally) -> Check {
    let l = Lib::open(tools, HOOKED)?;
    let f = l.sym(c"verif_alloc").ok_or("harness: the hook is missing")?;
    let n = c.threads as usize;
    let (mut size, mut align) = (vec![], vec![]);
    for i in 0..n {
        let (s, a) = c.sizes[i % c.sizes.len()];
        size.push(s.max(1) as usize);
        align.push(1usize << (a % 7));
    }
    // enough to use up the arena
    let count = 2000;
    let mut addr = vec![0usize; n * count];
    unsafe { (l.shim.alloc_threads)(f, n as c_int, size.as_ptr(), align.as_ptr(), count as c_int, addr.as_mut_ptr()) };
    let v: Vec<_> = addr.iter().enumerate().map(|(i, &p)| (p, size[i / count], align[i / count])).collect();
    if n > 1 {
        t.nontrivial();
    }
    t.count("blocks", v.iter().filter(|b| b.0 != 0).count() as u64);
    blocks_apart(v)?;
    l.close_fresh()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Churn {
    threads: u8,
    seed: u32,
    max: u16,
    ops: u16,
}
fn threads_churn(tools: &str, c: &Churn, t: &mut Tally) -> Check {
    let l = Lib::open(tools, HOOKED)?;
    let sym = |n: &CStr| l.sym(n).ok_or_else(|| "harness: the hook is missing".to_string());
    let (al, re, de) = (sym(c"verif_alloc")?, sym(c"verif_realloc")?, sym(c"verif_dealloc")?);
    let threads = c.threads.clamp(1, 16) as c_int;
    // What one schedule does not show another may.
    let mut bad = 0;
    for round in 0..4u64 {
        bad |= unsafe { (l.shim.churn_threads)(al, re, de, threads, (c.seed as u64) << 3 | round, c.max.max(1) as usize, c.ops as c_int) };
    }
    let what: Vec<&str> = [(1, "a live block's content changes"), (2, "a resized block loses its content"), (4, "a block is misaligned")].iter().filter(|w| bad & w.0 != 0).map(|w| w.1).collect();
    ensure!(bad == 0, "{threads} threads that allocate, resize and free up to {} bytes at a time: {}", c.max, what.join(", "));
    if threads > 1 && c.ops > 4 {
        t.nontrivial();
    }
    t.count("operations", 4 * threads as u64 * c.ops as u64);
    l.close_fresh()
}

fn twins(tools: &str, bytes: &[u8], init: &[PartialPosition], std: &Lib) -> Check {
    let l = Lib::open(tools, NOSTD)?;
    let got = l.run_bytes(bytes, init)?;
    let want = std.run_bytes(bytes, init)?;
    differ(bytes, &got, "the library without the standard library", &want, "the ordinary one")?;
    l.close_fresh()
}

/// C programs that use one library from several threads, each on its own objects.
pub fn c30(ctx: &mut Ctx) {
    struct Shared(Lib);
    // The library's handle is only read.
    unsafe impl Sync for Shared {}
    #[derive(Clone, Debug, Hash, Serialize, Deserialize)]
    struct Case {
        scripts: Vec<Script>,
        nostd: bool,
    }
    let tools = ctx.tools.clone();
    let opened: OnceLock<Result<Lib, String>> = OnceLock::new();
    let std = || opened.get_or_init(|| Lib::open(&tools, STD)).as_ref().map_err(|e| e.clone());
    // Short enough for three to fit into the arena of the library without the standard library, which is never freed.
    ctx.explore(
        "C programs in threads",
        "two or three scripts of calls through the header in as many threads at once, in either library; every transcript is that of the script run alone; non-trivial: an accepted move in every thread",
        6_000,
        300_000,
        || (prop::collection::vec(script(true, 5..25), 2..=3), any::<bool>()).prop_map(|(scripts, nostd)| Case { scripts, nostd }),
        |c: &Case, t| {
            let ks: Vec<_> = c.scripts.iter().map(|s| compile(s, true)).collect();
            let name = if c.nostd { NOSTD } else { STD };
            t.class(name);
            if ks.iter().all(|k| k.moves > 0) {
                t.nontrivial();
            }
            let mut alone = vec![];
            for k in &ks {
                if c.nostd {
                    let l = Lib::open(&tools, NOSTD)?;
                    alone.push(l.run(k)?);
                    l.close_fresh()?;
                } else {
                    alone.push(std()?.run(k)?);
                }
            }
            let l = Shared(Lib::open(&tools, name)?);
            let together = {
                let (l, ks) = (&l, &ks);
                crate::props::more::at_once(ks.len(), move |j| {
                    let l: &Shared = l;
                    l.0.run(&ks[j])
                })
            };
            for ((k, a), b) in ks.iter().zip(&alone).zip(together) {
                differ(&k.bytes, a, "alone", &b.map_err(|e| format!("beside other threads: {e}"))?, "beside other threads")?;
            }
            if c.nostd {
                l.0.close_fresh()?;
            }
            Ok(())
        },
    );
}

pub fn c21(ctx: &mut Ctx) {
    let tools = ctx.tools.clone();
    let opened: OnceLock<Result<Lib, String>> = OnceLock::new();
    let std = || opened.get_or_init(|| Lib::open(&tools, STD)).as_ref().map_err(|e| e.clone());
    let kept: OnceLock<Result<Lib, String>> = OnceLock::new();
    let nostd = || kept.get_or_init(|| Lib::open(&tools, NOSTD)).as_ref().map_err(|e| e.clone());

    // The lock-step stages come first: the memory stages keep the library open.
    ctx.enumerate("values", "every argument of the functions on squares, kinds, pieces, colours and compact moves; non-trivial: all", SCALARS, 8, |i| i, |&i: &u64, t| {
        t.nontrivial();
        twins(&tools, &scalar_script(i), &[], std()?)
    });
    ctx.explore("scripts", SCRIPT_RULE, 16_000, 800_000, || script(true, 5..60), |s: &Script, t| c_script(|k| twins(&tools, &k.bytes, &k.init, std()?), s, t));
    ctx.explore("games", SCRIPT_RULE, 5_000, 200_000, || game_script(true, 20..250), |s: &Script, t| c_script(|k| twins(&tools, &k.bytes, &k.init, std()?), s, t));
    let plays = || hist(Just(Base::Start).boxed(), MOVES, 0..30);
    ctx.explore("positions from threads", "threads that create positions and play on them at once; non-trivial: at least two threads and two positions each", 2_500, 60_000, || (2u8..=8, 1u8..=6, plays()).prop_map(|(threads, per, moves)| TCase { threads, per, moves, sizes: vec![] }), |c: &TCase, t| threads_positions(&tools, c, t));
    let aop = || {
        let size = prop_oneof![6 => 1u16..64, 4 => 1u16..1200, 1 => any::<u16>()];
        let size2 = prop_oneof![6 => 1u16..64, 4 => 1u16..1200, 1 => any::<u16>()];
        prop_oneof![6 => (size, prop_oneof![8 => 0u8..6, 1 => 0u8..14]).prop_map(|(size, align)| AOp::Alloc { size, align }), 2 => any::<u8>().prop_map(AOp::Free), 2 => (any::<u8>(), size2).prop_map(|(which, size)| AOp::Realloc { which, size })]
    };
    ctx.explore("allocator histories", "allocations, deallocations and reallocations of all sizes and alignments, up to and beyond the capacity; non-trivial: at least three blocks given", 12_000, 600_000, || prop_oneof![6 => prop::collection::vec(aop(), 1..40), 1 => prop::collection::vec(aop(), 100..400)].prop_map(ACase), |c: &ACase, t| allocator(&tools, c, t));
    ctx.explore("allocator from threads", "threads that ask for blocks at once until the arena is used up; non-trivial: at least two threads", 1_500, 40_000, || (2u8..=8, prop::collection::vec((1u16..40, 0u8..7), 1..8)).prop_map(|(threads, sizes)| TCase { threads, per: 0, moves: Hist { base: Base::Start, ops: vec![] }, sizes }), |c: &TCase, t| threads_blocks(&tools, c, t));
    ctx.explore("allocator churn from threads", "threads that allocate, resize and free blocks at once, each looking after the contents of its own; non-trivial: at least two threads", 2_500, 80_000, || (2u8..=8, any::<u32>(), prop_oneof![1u16..64, 1u16..600], 10u16..120).prop_map(|(threads, seed, max, ops)| Churn { threads, seed, max, ops }), |c: &Churn, t| threads_churn(&tools, c, t));
    // Every length to 300 at every alignment to 16, all routines, at both ends of the area.
    ctx.enumerate("memory routines", "every length to 300 at every alignment to 16 of both arguments, next to an unreachable page on either side; non-trivial: length above 0", 301 * 16 * 4 * 4, 4, |i| {
        let (what, rest) = (i % 4, i / 4);
        let (al, rest) = (rest % 16, rest / 16);
        let (ends, n) = (rest % 4, rest / 4);
        let h = mix(i);
        MemCase { what: what as u8, n: n as u16, a: al as u8, b: (h >> 8) as u8 % 16, a_end: ends & 1 != 0, b_end: ends & 2 != 0, seed: h as u32, diff: if n == 0 { 0 } else { ((h >> 32) % (n + n / 4 + 1)) as u16 }, x: if what == 1 { (h >> 16) as i32 } else { (h >> 16) as u8 as i32 }, y: (h >> 24) as u8 }
    }, |m: &MemCase, t| memory(nostd()?, m, t));
    ctx.explore("memory routines, longer", "lengths to 65535; values and differences at will; non-trivial: length above 0", 20_000, 1_000_000, || {
        let byte = || prop_oneof![prop::sample::select(vec![0u8, 1, 127, 128, 129, 254, 255]), any::<u8>()];
        let n = prop_oneof![6 => 0u16..40, 3 => 0u16..1500, 1 => any::<u16>()];
        (0u8..4, n, (0u8..40, 0u8..40, any::<bool>(), any::<bool>()), any::<u32>(), any::<u16>(), (any::<i32>(), byte(), byte())).prop_map(|(what, n, (a, b, a_end, b_end), seed, d, (x, xb, y))| MemCase {
            what,
            n,
            a,
            b,
            a_end,
            b_end,
            seed,
            diff: if n == 0 { 0 } else { d % n.saturating_add(n / 8).saturating_add(1) },
            x: if what == 1 { x } else { xb as i32 },
            y,
        })
    }, |m: &MemCase, t| memory(nostd()?, m, t));
}
