//! C07..C10: text output.
use crate::bridge::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::position::reach;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shogi_core::*;
use std::fmt::Write;

fn c_text(f: impl Fn(*mut u8)) -> Result<String, String> {
    let mut buf = [0xEEu8; 1024];
    f(buf.as_mut_ptr());
    let n = buf.iter().position(|&b| b == 0).ok_or("no NUL in the first 1024 bytes")?;
    String::from_utf8(buf[..n].to_vec()).map_err(|e| e.to_string())
}

/// The text over every interface, and read back.
fn text_of(p: &PartialPosition, m: &MPos) -> Check {
    let exp = m.sfen();
    let got = p.to_sfen_owned();
    ensure_eq!(got, exp, "to_sfen_owned");
    let mut s = String::new();
    ensure!(p.to_sfen(&mut s).is_ok(), "to_sfen into a string fails");
    ensure_eq!(s, exp, "to_sfen");
    ensure_eq!(c_text(|b| unsafe { p.to_sfen_c(b) })?, exp, "to_sfen_c");
    let q = Position::arbitrary_position(p.clone());
    ensure_eq!(q.to_sfen_owned(), exp, "to_sfen_owned with history");
    ensure_eq!(c_text(|b| unsafe { q.to_sfen_c(b) })?, exp, "to_sfen_c with history");
    let back = MPos::parse(&got).map_err(|e| format!("{got:?} does not parse: {e}"))?;
    ensure!(back.board == m.board && back.hands == m.hands && back.side == m.side && back.ply == m.ply, "{got:?} reads back as {:?}", back);
    Ok(())
}

pub fn c07(c: &mut Ctx) {
    c.explore(
        "positions",
        "generated positions (any board, hands, side, ply) followed by edits and moves; every interface compared with an independent formatter and read back by an independent parser; non-trivial: pieces on the board and something in hand",
        60_000,
        3_000_000,
        || hist(base().boxed(), MIXED, 0..25),
        |h: &Hist, t| {
            let (m, p) = reach(h)?;
            text_of(&p, &m)?;
            classify_text(&m, t);
            Ok(())
        },
    );
    c.explore(
        "with-history",
        "games: the text with and without history after every accepted move; non-trivial: at least one accepted move",
        6_000,
        300_000,
        || hist(play_base().boxed(), MOVES, 1..80),
        |h: &Hist, t| {
            let mut m = h.base.build();
            let mut q = Position::arbitrary_position(build_base(&h.base, &m));
            for op in &h.ops {
                if let Act::Mv(x) = resolve(op, &m) {
                    if m.apply(x).is_ok() {
                        t.nontrivial();
                        ensure!(q.make_move(mv(x)).is_some(), "{} refused", x.usi());
                        let exp = m.sfen();
                        ensure_eq!(q.to_sfen_owned(), exp, "with history after {}", x.usi());
                        ensure_eq!(q.inner().to_sfen_owned(), exp, "without history after {}", x.usi());
                    }
                }
            }
            let exp = m.sfen();
            ensure_eq!(c_text(|b| unsafe { q.to_sfen_c(b) })?, exp, "to_sfen_c with history");
            ensure_eq!(c_text(|b| unsafe { q.inner().to_sfen_c(b) })?, exp, "to_sfen_c of the current position");
            Ok(())
        },
    );
    c.enumerate("plies", "every ply 0..=65535 (0 is reached by a move at ply 65535), both sides; non-trivial: all", 65536 * 2, 3, |i| i, |&i: &u64, t| {
        t.nontrivial();
        let mut m = MPos::start();
        let mut p = PartialPosition::startpos();
        let ply = (i / 2) as u16;
        if ply == 0 {
            m.ply = 65535;
            m.side = (i % 2) as usize;
            p.side_to_move_set(COLORS[m.side]);
            ensure!(p.ply_set(65535), "ply_set(65535) refused");
            let x = if m.side == 0 { MMove::Normal { from: 6, to: 5, promote: false } } else { MMove::Normal { from: 2, to: 3, promote: false } };
            let _ = m.apply(x);
            ensure!(p.make_move(mv(x)).is_some(), "opening move refused");
        } else {
            m.ply = ply;
            m.side = (i % 2) as usize;
            p.side_to_move_set(COLORS[m.side]);
            ensure!(p.ply_set(ply), "ply_set({ply}) refused");
        }
        text_of(&p, &m)
    });
    c.enumerate("hand-counts", "every (player, kind, count 0..=255), alone and beside other hand pieces; non-trivial: count above 0", 2 * 7 * 256 * 4, 1, |i| i, |&i: &u64, t| {
        let n = (i % 256) as u8;
        let k = (i / 256 % 7) as usize + 1;
        let c = (i / 1792 % 2) as usize;
        let ctx = i / 3584;
        let mut m = if ctx % 2 == 0 { MPos::empty() } else { MPos::start() };
        if ctx >= 2 {
            for j in 1..8 {
                m.hands[0][j] = (mix(i + j as u64) % 4) as u8;
                m.hands[1][j] = (mix(i + 100 + j as u64) % 4) as u8;
            }
        }
        m.hands[c][k] = n;
        if n > 0 {
            t.nontrivial();
        }
        text_of(&build(&m), &m)
    });
    c.enumerate("rank-patterns", "every occupancy pattern of every rank x 6 fillings (contents of the other ranks hashed); non-trivial: pattern neither empty nor full", 512 * 9 * 6, 1, |i| i, |&i: &u64, t| {
        let pat = i % 512;
        let rank = (i / 512 % 9) as u8 + 1;
        let fill = i / 4608;
        let mut m = MPos::empty();
        for r in 1..=9u8 {
            let pt = if r == rank {
                pat
            } else if fill >= 3 {
                mix(i * 16 + r as u64) & mix(i * 31 + r as u64) & 511
            } else {
                0
            };
            for f in 1..=9u8 {
                if pt >> (f - 1) & 1 == 1 {
                    m.board[at(f, r) as usize] = match fill % 3 {
                        0 => nth_piece((mix(i ^ (f as u64) << 8 ^ (r as u64) << 16) % 28) as usize),
                        1 => piece(9 + (f + r) % 6, (f % 2) as usize),
                        _ => piece(1 + (f + r) % 8, (r % 2) as usize),
                    };
                }
            }
        }
        if pat != 0 && pat != 511 {
            t.nontrivial();
        }
        text_of(&build(&m), &m)
    });
    c.enumerate("single-pieces", "every piece on every square, alone and in a full board; non-trivial: all", 28 * 81 * 2, 1, |i| i, |&i: &u64, t| {
        t.nontrivial();
        let mut m = MPos::empty();
        if i % 2 == 1 {
            for s in 0..81u64 {
                m.board[s as usize] = nth_piece((mix(i ^ s << 20) % 28) as usize);
            }
        }
        m.board[(i / 2 % 81) as usize] = nth_piece((i / 162) as usize);
        text_of(&build(&m), &m)
    });
    c.enumerate("library-positions", "starting and empty position", 2, 1, |i| i, |&i: &u64, t| {
        t.nontrivial();
        if i == 0 {
            ensure_eq!(PartialPosition::startpos().to_sfen_owned(), STARTPOS_SFEN, "starting position");
            text_of(&PartialPosition::startpos(), &MPos::start())
        } else {
            ensure_eq!(PartialPosition::empty().to_sfen_owned(), "9/9/9/9/9/9/9/9/9 b - 1", "empty position");
            text_of(&PartialPosition::empty(), &MPos::empty())
        }
    });
}
fn classify_text(m: &MPos, t: &mut Tally) {
    let any_board = m.board.iter().any(|&p| p != NONE);
    let any_hand = m.hands != [[0; 8]; 2];
    if any_board && any_hand {
        t.nontrivial();
    }
    if m.hands.iter().flatten().any(|&n| n >= 100) {
        t.class("three-digit hand count");
    }
    if m.hands.iter().flatten().any(|&n| (10..100).contains(&n)) {
        t.class("two-digit hand count");
    }
    if !any_hand {
        t.class("empty hands");
    }
    if m.ply >= 1000 {
        t.class("ply of four or five digits");
    }
    if m.board.iter().any(|&p| kind_of(p) > 8) {
        t.class("promoted pieces");
    }
}

// ------------------------------------------------------------------------------------------------ C08

struct Pages {
    /// Start of two writable pages between two inaccessible ones.
    base: *mut u8,
}
const PAGE: usize = 4096;
thread_local! {
    static PAGES: Pages = {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), PAGE * 4, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(p as isize != -1, "harness: mmap");
            assert!(libc::mprotect(p.add(PAGE) as *mut _, PAGE * 2, libc::PROT_READ | libc::PROT_WRITE) == 0, "harness: mprotect");
            Pages { base: p.add(PAGE) }
        }
    };
}

/// Where the buffer is put.
#[derive(Clone, Copy, Debug)]
enum Place {
    /// The promised size ends exactly at an inaccessible page.
    Tail(usize),
    /// The text and its NUL end exactly at an inaccessible page.
    Exact,
    /// The buffer begins right after an inaccessible page.
    Head,
    Offset(usize),
}

fn write_guarded(f: &dyn Fn(*mut u8), exp: &str, place: Place, fill: u8) -> Check {
    PAGES.with(|g| unsafe {
        let area = std::slice::from_raw_parts_mut(g.base, 2 * PAGE);
        area.fill(fill);
        let off = match place {
            Place::Tail(n) => 2 * PAGE - n,
            Place::Exact => 2 * PAGE - exp.len() - 1,
            Place::Head => 0,
            Place::Offset(n) => n,
        };
        f(g.base.add(off));
        let area = std::slice::from_raw_parts(g.base, 2 * PAGE);
        let n = exp.len();
        let shown = || String::from_utf8_lossy(&area[off..(off + 300).min(2 * PAGE)]).to_string();
        ensure!(&area[off..off + n] == exp.as_bytes(), "the buffer holds {:?}, expected {exp:?} ({place:?})", shown());
        ensure!(area[off + n] == 0, "no NUL after the text ({place:?}, fill {fill:#x}): {:?}", shown());
        if let Some(i) = area[..off].iter().position(|&b| b != fill) {
            return Err(format!("byte {} before the buffer was changed to {:#x} ({place:?})", off - i, area[i]));
        }
        if let Some(i) = area[off + n + 1..].iter().position(|&b| b != fill) {
            return Err(format!("byte {} after the terminating NUL was changed to {:#x} ({place:?}); text {exp:?}", i + 1, area[off + n + 1 + i]));
        }
        Ok(())
    })
}

fn buffers(p: &PartialPosition, m: &MPos, standard: bool, salt: u64, t: &mut Tally) -> Check {
    let exp = m.sfen();
    let limit = if standard { 139 } else { 236 };
    let own = p.to_sfen_owned();
    ensure!(own.len() + 1 <= limit, "the text needs {} bytes with its NUL, more than {limit}: {own}", own.len() + 1);
    t.class(match own.len() {
        0..=60 => "up to 60 characters",
        61..=100 => "61 to 100 characters",
        101..=120 => "101 to 120 characters",
        121..=138 => "121 to 138 characters",
        139..=200 => "139 to 200 characters",
        _ => "more than 200 characters",
    });
    if m.hands != [[0; 8]; 2] && own.len() > 30 {
        t.nontrivial();
    }
    let q = Position::arbitrary_position(p.clone());
    let f1 = |b: *mut u8| unsafe { p.to_sfen_c(b) };
    let f2 = |b: *mut u8| unsafe { q.to_sfen_c(b) };
    for (i, f) in [&f1 as &dyn Fn(*mut u8), &f2].into_iter().enumerate() {
        let fill = if (salt as usize + i) % 2 == 0 { 0xA5 } else { 0x5A };
        write_guarded(f, &exp, Place::Exact, fill)?;
        write_guarded(f, &exp, Place::Tail(limit), !fill)?;
        write_guarded(f, &exp, if salt % 2 == 0 { Place::Head } else { Place::Offset(1 + (salt % 64) as usize) }, if salt % 3 == 0 { 0 } else { fill })?;
    }
    // the call does not change the position
    observe_rest(p, m)
}

pub fn c08(c: &mut Ctx) {
    c.explore(
        "positions",
        "generated positions; the buffer ends at, begins at, or lies between inaccessible pages, everything around is compared byte for byte, with and without history; non-trivial: something in hand and more than 30 characters",
        30_000,
        1_500_000,
        || (hist(base().boxed(), MIXED, 0..15), any::<u16>()),
        |(h, salt): &(Hist, u16), t| {
            let (m, p) = reach(h)?;
            buffers(&p, &m, false, *salt as u64, t)
        },
    );
    c.explore(
        "ordinary-sets",
        "games from placements of the ordinary 40 pieces: at most 139 bytes; non-trivial: something in hand and more than 30 characters",
        20_000,
        1_000_000,
        || (hist(std_base().boxed(), MOVES, 0..30), any::<u16>()),
        |(h, salt): &(Hist, u16), t| {
            let (m, p) = reach(h)?;
            buffers(&p, &m, true, *salt as u64, t)
        },
    );
    c.explore(
        "long-texts",
        "full boards of promoted pieces with three-digit hand counts and five-digit plies: at most 236 bytes; non-trivial: more than 200 characters",
        20_000,
        1_000_000,
        || (prop::collection::vec(0u8..24, 81..=81), prop::array::uniform14(prop_oneof![6 => 100u8..=255, 1 => any::<u8>()]), any::<bool>(), prop_oneof![4 => 10000u16..=65535, 1 => ply()]),
        |(b, hands, w, ply): &(Vec<u8>, [u8; 14], bool, u16), t| {
            let mut m = MPos::empty();
            for s in 0..81 {
                // promoted pieces of both colours; now and then something else
                let x = b.get(s).copied().unwrap_or(0);
                m.board[s] = if x < 22 { piece(9 + x % 6, (x / 6 % 2) as usize) } else if x == 22 { NONE } else { nth_piece(s) };
            }
            for i in 0..14 {
                m.hands[i / 7][i % 7 + 1] = hands[i];
            }
            m.side = *w as usize;
            m.ply = (*ply).max(1);
            if m.sfen().len() > 200 {
                t.nontrivial();
            }
            buffers(&build(&m), &m, false, hands[0] as u64, t)
        },
    );
    #[derive(Clone, Copy, Debug, Serialize, Deserialize)]
    struct Climb(u64);
    c.enumerate(
        "longest",
        "local search (on the model) for placements with the longest text, ordinary 40-piece sets and free boards alternately; non-trivial: all",
        600,
        2,
        Climb,
        |&Climb(i), t| {
            t.nontrivial();
            let mut n = i * 1_000_003;
            let mut rnd = || {
                n = n.wrapping_add(1);
                mix(n)
            };
            if i % 2 == 0 {
                let mut places: Vec<(u8, u8)> = (0..40).map(|_| ((rnd() % 243) as u8, rnd() as u8 | 2)).collect();
                let bias = 200 + (rnd() % 43) as u8;
                let text = |p: &Vec<(u8, u8)>| Base::Std { bias, places: p.clone(), white: i % 4 == 0, ply: 65535 }.build();
                let mut best = text(&places).sfen().len();
                for _ in 0..500 {
                    let k = (rnd() % 40) as usize;
                    let old = places[k];
                    places[k] = (rnd() as u8, rnd() as u8 | 2);
                    let l = text(&places).sfen().len();
                    if l >= best {
                        best = l
                    } else {
                        places[k] = old
                    }
                }
                let m = text(&places);
                buffers(&build(&m), &m, true, i, t)
            } else {
                let mut m = MPos::empty();
                for s in 0..81 {
                    m.board[s] = piece(9 + (rnd() % 6) as u8, (rnd() % 2) as usize);
                }
                for c in 0..2 {
                    for k in 1..8 {
                        m.hands[c][k] = 100 + (rnd() % 156) as u8;
                    }
                }
                m.ply = 10000 + (rnd() % 55536) as u16;
                m.side = (rnd() % 2) as usize;
                ensure_eq!(m.sfen().len(), 235, "harness: longest text");
                buffers(&build(&m), &m, false, i, t)
            }
        },
    );
}

// ------------------------------------------------------------------------------------------------ C09

fn usi<T: ToUsi>(x: &T, exp: &str, what: impl std::fmt::Display) -> Check {
    let mut s = String::from("<");
    ensure!(x.to_usi(&mut s).is_ok(), "to_usi of {what} into a string fails");
    ensure!(s.strip_prefix('<') == Some(exp), "to_usi of {what}: got {:?}, expected {exp:?}", &s[1..]);
    let o = x.to_usi_owned();
    ensure!(o == exp, "to_usi_owned of {what}: got {o:?}, expected {exp:?}");
    Ok(())
}

pub fn c09(c: &mut Ctx) {
    c.enumerate("squares", "every square; non-trivial: all", 81, 1, |i| i, |&i: &u64, t| {
        t.nontrivial();
        let e = usi_square(i as u8);
        usi(&sq(i as u8), &e, &e)
    });
    c.enumerate("kinds-pieces-colours", "every kind, piece and colour; non-trivial: all", 14 + 28 + 2, 1, |i| i, |&i: &u64, t| {
        t.nontrivial();
        match i {
            0..=13 => usi(&kind(i as u8 + 1), &usi_kind(i as u8 + 1), format!("kind {}", i + 1)),
            14..=41 => {
                let p = nth_piece(i as usize - 14);
                usi(&pc(p), &usi_piece(p), format!("piece {p}"))
            }
            42 => usi(&Color::Black, "b", "Black"),
            _ => usi(&Color::White, "w", "White"),
        }
    });
    c.enumerate("moves", "every well-formed move in both forms, read back with the colour of the mover; non-trivial: all", MMove::COUNT, 1, |i| i, |&i: &u64, t| {
        t.nontrivial();
        let x = MMove::nth(i);
        let e = x.usi();
        usi(&mv(x), &e, format!("{x:?}"))?;
        usi(&cmv(x), &e, format!("compact {x:?}"))?;
        usi(&compact(mv(x)), &e, format!("converted {x:?}"))?;
        let side = match x {
            MMove::Drop { piece, .. } => color_of(piece),
            _ => (i % 2) as usize,
        };
        ensure_eq!(parse_usi_move(&mv(x).to_usi_owned(), side), Some(x), "reading {e} back");
        ensure_eq!(parse_usi_move(&cmv(x).to_usi_owned(), side), Some(x), "reading compact {e} back");
        Ok(())
    });
    c.enumerate("hand-counts", "every (player, kind, count), alone and beside others; non-trivial: count above 0", 2 * 7 * 256 * 3, 1, |i| i, |&i: &u64, t| {
        let n = (i % 256) as u8;
        if n > 0 {
            t.nontrivial();
        }
        let mut h = [[0u8; 8]; 2];
        if i / 3584 > 0 {
            for j in 1..8u64 {
                h[0][j as usize] = (mix(i * 3 + j) % 3) as u8 * (i / 3584) as u8;
                h[1][j as usize] = (mix(i * 5 + j) % 3) as u8 * (i / 3584) as u8;
            }
        }
        h[(i / 1792 % 2) as usize][(i / 256 % 7) as usize + 1] = n;
        hands_usi(&h)
    });
    c.explore(
        "hands",
        "pairs of hands with generated counts; text compared, owned and sink forms, and read back; non-trivial: both hands non-empty",
        60_000,
        3_000_000,
        || prop::array::uniform14(count()),
        |v: &[u8; 14], t| {
            let mut h = [[0u8; 8]; 2];
            for i in 0..14 {
                h[i / 7][i % 7 + 1] = v[i];
            }
            if h[0] != [0; 8] && h[1] != [0; 8] {
                t.nontrivial();
            }
            hands_usi(&h)
        },
    );
    c.explore(
        "hands-after-changes",
        "hands reached by adding and removing (counts that went up and down again); non-trivial: something was removed",
        20_000,
        1_000_000,
        || prop::collection::vec((0u8..2, 1u8..=7, any::<bool>()), 0..120),
        |v: &Vec<(u8, u8, bool)>, t| {
            let mut h = [[0u8; 8]; 2];
            let mut r = [Hand::new(), Hand::new()];
            for &(c, k, add) in v {
                let (c, k) = (c as usize % 2, k.clamp(1, 7));
                if add {
                    h[c][k as usize] = h[c][k as usize].wrapping_add(1);
                    r[c] = r[c].added(kind(k)).ok_or("added refused")?;
                } else if h[c][k as usize] > 0 {
                    h[c][k as usize] -= 1;
                    r[c] = r[c].removed(kind(k)).ok_or("removed refused")?;
                    t.nontrivial();
                }
            }
            usi(&r, &hands_text(&h), format!("hands {h:?}"))
        },
    );
}
fn hands_usi(h: &[[u8; 8]; 2]) -> Check {
    let r = [hand(&h[0]), hand(&h[1])];
    let e = hands_text(h);
    usi(&r, &e, format!("hands {h:?}"))?;
    ensure_eq!(parse_hands(&r.to_usi_owned())?, *h, "reading {e:?} back");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C10

/// How a sink fails.
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Fault {
    /// Everything up to this many bytes is accepted; the write that goes beyond is refused as a whole, and so is every later one.
    Bytes(u32),
    /// The write that goes beyond is accepted in part.
    BytesPartial(u32),
    /// Only the write that goes beyond fails; later ones are accepted again.
    BytesOnce(u32),
    /// The nth call fails (and every later one).
    Call(u32),
    /// Only the nth call fails.
    CallOnce(u32),
    Never,
}
#[derive(Debug)]
struct Sink {
    fault: Fault,
    /// Accepted before the first failure.
    accepted: String,
    bytes: u32,
    calls: u32,
    failed: bool,
}
impl Sink {
    fn new(fault: Fault) -> Sink {
        Sink { fault, accepted: String::new(), bytes: 0, calls: 0, failed: false }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let call = self.calls;
        self.calls += 1;
        let n = s.len() as u32;
        let beyond = |limit: u32| self.bytes + n > limit;
        let fail = match self.fault {
            Fault::Never => false,
            Fault::Bytes(l) => self.failed || beyond(l),
            Fault::BytesPartial(l) => {
                let f = self.failed || beyond(l);
                if f && !self.failed {
                    self.accepted.push_str(&s[..(l - self.bytes) as usize]);
                }
                f
            }
            Fault::BytesOnce(l) => !self.failed && beyond(l),
            Fault::Call(c) => call >= c,
            Fault::CallOnce(c) => call == c,
        };
        if fail {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.bytes += n;
        if !self.failed {
            self.accepted.push_str(s);
        }
        Ok(())
    }
}

/// Runs one writer against one fault.
fn faulted(write: &dyn Fn(&mut Sink) -> std::fmt::Result, full: &str, fault: Fault, what: &str, t: &mut Tally) -> Check {
    let mut s = Sink::new(fault);
    let r = write(&mut s);
    ensure!(r.is_err() == s.failed, "{what}: the sink {} ({fault:?}), but the result is {r:?}; text {full:?}", if s.failed { "failed" } else { "did not fail" });
    if s.failed {
        t.class("failing writes");
        ensure!(full.starts_with(&s.accepted), "{what}: accepted before the failure ({fault:?}): {:?}, not a beginning of {full:?}", s.accepted);
    } else {
        ensure!(s.accepted == full, "{what}: the result is Ok, but {:?} was written instead of {full:?} ({fault:?})", s.accepted);
    }
    Ok(())
}
/// Every point of failure, every way of failing.
fn all_faults(write: &dyn Fn(&mut Sink) -> std::fmt::Result, full: &str, what: &str, t: &mut Tally) -> Check {
    faulted(write, full, Fault::Never, what, t)?;
    for n in 0..=full.len() as u32 + 1 {
        for f in [Fault::Bytes(n), Fault::BytesPartial(n), Fault::BytesOnce(n), Fault::Call(n), Fault::CallOnce(n)] {
            faulted(write, full, f, what, t)?;
        }
    }
    Ok(())
}

pub fn c10(c: &mut Ctx) {
    c.enumerate("values", "every square, kind, piece, colour and move in both forms x every point of failure x 5 ways of failing; non-trivial: all", 81 + 14 + 28 + 2 + MMove::COUNT, 1, |i| i, |&i: &u64, t| {
        t.nontrivial();
        match i {
            0..=80 => all_faults(&|s| sq(i as u8).to_usi(s), &usi_square(i as u8), "square", t),
            81..=94 => all_faults(&|s| kind((i - 80) as u8).to_usi(s), &usi_kind((i - 80) as u8), "kind", t),
            95..=122 => {
                let p = nth_piece(i as usize - 95);
                all_faults(&|s| pc(p).to_usi(s), &usi_piece(p), "piece", t)
            }
            123 => all_faults(&|s| Color::Black.to_usi(s), "b", "colour", t),
            124 => all_faults(&|s| Color::White.to_usi(s), "w", "colour", t),
            _ => {
                let x = MMove::nth(i - 125);
                all_faults(&|s| mv(x).to_usi(s), &x.usi(), "move", t)?;
                all_faults(&|s| cmv(x).to_usi(s), &x.usi(), "compact move", t)
            }
        }
    });
    c.explore(
        "hands",
        "pairs of hands x every point of failure x 5 ways of failing; non-trivial: some piece in hand",
        6_000,
        300_000,
        || prop::array::uniform14(count()),
        |v: &[u8; 14], t| {
            let mut h = [[0u8; 8]; 2];
            for i in 0..14 {
                h[i / 7][i % 7 + 1] = v[i];
            }
            if v.iter().any(|&x| x > 0) {
                t.nontrivial();
            }
            let r = [hand(&h[0]), hand(&h[1])];
            all_faults(&|s| r.to_usi(s), &hands_text(&h), "hands", t)
        },
    );
    c.explore(
        "positions",
        "generated positions x every point of failure x 5 ways of failing; non-trivial: pieces on the board and in hand",
        6_000,
        300_000,
        || hist(base().boxed(), MIXED, 0..15),
        |h: &Hist, t| {
            let (m, p) = reach(h)?;
            classify_text(&m, t);
            all_faults(&|s| p.to_sfen(s), &m.sfen(), "SFEN", t)
        },
    );
    c.enumerate("plies", "every ply x the points of failure within the last 8 bytes; non-trivial: all", 65535, 3, |i| i + 1, |&i: &u64, t| {
        t.nontrivial();
        let mut m = MPos::start();
        m.ply = i as u16;
        let mut p = PartialPosition::startpos();
        ensure!(p.ply_set(m.ply), "ply_set refused");
        let full = m.sfen();
        let n = full.len() as u32;
        for k in n - 8..=n + 1 {
            for f in [Fault::Bytes(k), Fault::BytesPartial(k), Fault::BytesOnce(k)] {
                faulted(&|s| p.to_sfen(s), &full, f, "SFEN", t)?;
            }
        }
        // and by call, wherever the last calls are
        let mut probe = Sink::new(Fault::Never);
        let _ = p.to_sfen(&mut probe);
        for k in probe.calls.saturating_sub(7)..=probe.calls {
            for f in [Fault::Call(k), Fault::CallOnce(k)] {
                faulted(&|s| p.to_sfen(s), &full, f, "SFEN", t)?;
            }
        }
        Ok(())
    });
}
