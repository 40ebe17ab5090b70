//! C11-C18 and C26: values.
use crate::bridge::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::{consts_list, ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shogi_core::c_compat::*;
use shogi_core::*;

/// The byte a one-byte value is made of.
pub fn raw8<T: Copy>(t: T) -> u8 {
    assert_eq!(std::mem::size_of::<T>(), 1);
    unsafe { std::mem::transmute_copy(&t) }
}
pub fn raw16<T: Copy>(t: T) -> u16 {
    assert_eq!(std::mem::size_of::<T>(), 2);
    unsafe { std::mem::transmute_copy(&t) }
}
fn square_no(s: Square) -> u8 {
    raw8(s).wrapping_sub(1)
}

// ------------------------------------------------------------------------------------------------ C11

fn one_encoding(x: MMove, t: &mut Tally) -> Check {
    let m = mv(x);
    let c = compact(m);
    t.nontrivial();
    t.class(match x {
        MMove::Drop { .. } => "drops",
        MMove::Normal { promote: true, .. } => "promotions",
        MMove::Normal { .. } => "plain moves",
    });
    ensure_eq!(raw16(c), x.encode(), "16-bit value of {}", x.usi());
    ensure!(raw16(c) != 0, "16-bit value of {} is zero", x.usi());
    ensure_eq!(ordinary(c), m, "{} to compact form and back", x.usi());
    ensure_eq!(cmv(x), c, "constructor versus conversion for {}", x.usi());
    let into: CompactMove = m.into();
    let back: Move = into.into();
    ensure_eq!(back, m, "{} through into()", x.usi());
    ensure_eq!(compact(back), c, "second conversion of {}", x.usi());
    let (from, to, promote, drop) = match x {
        MMove::Normal { from, to, promote } => (Some(sq(from)), sq(to), promote, false),
        MMove::Drop { to, .. } => (None, sq(to), false, true),
    };
    ensure_eq!(m.from(), from, "source of {}", x.usi());
    ensure_eq!(c.from(), from, "source of compact {}", x.usi());
    ensure_eq!(Option::<Square>::from(c.CompactMove_from()), from, "C-style source of compact {}", x.usi());
    ensure_eq!(raw8(c.CompactMove_from()), from.map_or(0, |s| s.index()), "C-style source byte of compact {}", x.usi());
    ensure_eq!(m.to(), to, "destination of {}", x.usi());
    ensure_eq!(c.to(), to, "destination of compact {}", x.usi());
    ensure_eq!(m.is_promoting(), promote, "promotion of {}", x.usi());
    ensure_eq!(c.is_promoting(), promote, "promotion of compact {}", x.usi());
    ensure_eq!(m.is_drop(), drop, "drop query of {}", x.usi());
    ensure_eq!(c.is_drop(), drop, "drop query of compact {}", x.usi());
    let o = OptionCompactMove::from(Some(c));
    ensure_eq!(raw16(o), x.encode(), "optional form of {}", x.usi());
    ensure_eq!(Option::<CompactMove>::from(o), Some(c), "optional form of {} and back", x.usi());
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    ctx.enumerate("every move", "every case is a different well-formed move", MMove::COUNT, 7, MMove::nth, |x: &MMove, t| one_encoding(*x, t));
    ctx.enumerate(
        "no two moves share a compact form",
        "one case: all moves together",
        1,
        1,
        |_| 0u8,
        |_: &u8, t| {
            t.nontrivial();
            let mut seen = vec![u64::MAX; 65536];
            for n in 0..MMove::COUNT {
                let r = raw16(compact(mv(MMove::nth(n))));
                ensure!(seen[r as usize] == u64::MAX, "{} and {} share the compact form {r:#06x}", MMove::nth(seen[r as usize]).usi(), MMove::nth(n).usi());
                seen[r as usize] = n;
            }
            Ok(())
        },
    );
    ctx.explore(
        "ordinary versus compact form",
        "at least one accepted and one refused move",
        30_000,
        3_000_000,
        || hist(play_base().boxed(), REFUSE, 1..30),
        |h: &Hist, t| {
            let mut m = h.base.build();
            let mut a = build_base(&h.base, &m);
            let mut b = a.clone();
            let mut ha = Position::arbitrary_position(a.clone());
            let mut hb = ha.clone();
            let (mut yes, mut no) = (0, 0);
            for op in &h.ops {
                let act = resolve(op, &m);
                if let Act::Mv(x) = act {
                    let exp = m.apply(x).is_ok();
                    let ra = a.make_move(mv(x)).is_some();
                    let rb = b.make_compact_move(compact(mv(x)));
                    let rha = ha.make_move(mv(x)).is_some();
                    let rhb = hb.make_compact_move(cmv(x));
                    ensure!(ra == rb && rha == rhb && ra == rha, "{}: accepted {ra} / compact {rb} / with history {rha} / compact {rhb}; at {}", x.usi(), m.sfen());
                    if exp {
                        yes += 1
                    } else {
                        no += 1
                    }
                    ensure!(a == b, "{}: ordinary and compact form lead to different positions: {} / {}", x.usi(), a.to_sfen_owned(), b.to_sfen_owned());
                    ensure!(ha == hb, "{}: ordinary and compact form lead to different games", x.usi());
                    ensure_eq!(a.last_move(), b.last_move(), "last move");
                    ensure_eq!(a.last_compact_move(), a.last_move().map(compact), "last move in both forms");
                    ensure_eq!(a.to_sfen_owned(), b.to_sfen_owned(), "SFEN after {}", x.usi());
                } else {
                    act_on_model(&mut m, act);
                    act_on_real(&mut a, act);
                    act_on_real(&mut b, act);
                    if act != Act::Nop {
                        ha = Position::arbitrary_position(a.clone());
                        hb = ha.clone();
                    }
                }
            }
            t.count("accepted", yes);
            t.count("refused", no);
            if yes > 0 && no > 0 {
                t.nontrivial();
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------------ C12

pub fn same(what: &str, got: Bitboard, exp: u128) -> Check {
    let g = members(got);
    ensure!(g == exp, "{what}: members {:?}, expected {:?}", Set81::new(g), Set81::new(exp));
    ensure!(got.to_u128() == repr(exp), "{what}: has the right members but the representation {:#x} instead of {:#x} (not a valid set)", got.to_u128(), repr(exp));
    Ok(())
}
fn reads(what: &str, b: Bitboard, m: u128) -> Check {
    same(what, b, m)?;
    ensure_eq!(b.count() as u32, m.count_ones(), "{what}: size");
    ensure_eq!(b.is_empty(), m == 0, "{what}: emptiness");
    ensure!(unsafe { Bitboard::from_u128_unchecked(b.to_u128()) } == b, "{what}: through the 128-bit integer and back");
    Ok(())
}
/// The set, put together from singletons in one of several ways.
pub fn assemble(m: u128, way: u8) -> Bitboard {
    let mut b = match way & 1 {
        0 => Bitboard::empty(),
        _ => Bitboard::Bitboard_empty(),
    };
    let order: Vec<u8> = if way & 2 == 0 { (0..81).collect() } else { (0..81).rev().collect() };
    for s in order {
        if m >> s & 1 == 1 {
            match way >> 2 & 3 {
                0 => b |= sq(s),
                1 => b = b | Bitboard::single(sq(s)),
                2 => b ^= Bitboard::single(sq(s)),
                _ => b = b.or(Bitboard::Bitboard_single(sq(s))),
            }
        }
    }
    b
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub struct Pair {
    a: Set81,
    b: Set81,
    s: u8,
    way: u8,
}

fn one_pair(p: &Pair, t: &mut Tally) -> Check {
    let (am, bm, s) = (p.a.mask(), p.b.mask(), p.s % 81);
    let sm = 1u128 << s;
    let q = sq(s);
    if am != 0 && bm != 0 && am & bm != 0 && am & !bm != 0 && bm & !am != 0 {
        t.nontrivial();
        t.class("overlapping sets, neither containing the other");
    }
    if am & bm == 0 {
        t.class("disjoint sets");
    }
    let (a, b) = (assemble(am, p.way), bb(bm));
    reads("left set", a, am)?;
    reads("right set", b, bm)?;
    ensure_eq!(a == b, am == bm, "equality of sets");
    // by value, by reference
    for (name, exp, r) in [
        ("&", am & bm, [a & b, &a & b, a & &b, &a & &b]),
        ("|", am | bm, [a | b, &a | b, a | &b, &a | &b]),
        ("^", am ^ bm, [a ^ b, &a ^ b, a ^ &b, &a ^ &b]),
    ] {
        for (i, x) in r.into_iter().enumerate() {
            same(&format!("{name} (form {i})"), x, exp)?;
        }
        reads(name, r[0], exp)?;
    }
    reads("!", !a, Set81::ALL & !am)?;
    same("! by reference", !&a, Set81::ALL & !am)?;
    same("!!", !!a, am)?;
    // assigning
    macro_rules! assign {
        ($name:expr, $exp:expr, |$x:ident| $e:expr) => {{
            let mut $x = a;
            $e;
            same($name, $x, $exp)?;
        }};
    }
    assign!("&= set", am & bm, |x| x &= b);
    assign!("&= &set", am & bm, |x| x &= &b);
    assign!("&= square", am & sm, |x| x &= q);
    assign!("&= &square", am & sm, |x| x &= &q);
    assign!("|= set", am | bm, |x| x |= b);
    assign!("|= &set", am | bm, |x| x |= &b);
    assign!("|= square", am | sm, |x| x |= q);
    assign!("|= &square", am | sm, |x| x |= &q);
    assign!("^= set", am ^ bm, |x| x ^= b);
    assign!("^= &set", am ^ bm, |x| x ^= &b);
    assign!("^= square", am ^ sm, |x| x ^= q);
    assign!("^= &square", am ^ sm, |x| x ^= &q);
    assign!("C-style &=", am & bm, |x| Bitboard::Bitboard_bitand_assign(&mut x, b));
    assign!("C-style |=", am | bm, |x| Bitboard::Bitboard_bitor_assign(&mut x, b));
    assign!("C-style ^=", am ^ bm, |x| Bitboard::Bitboard_bitxor_assign(&mut x, b));
    // with itself on the right
    assign!("a &= a", am, |x| x &= x.clone());
    assign!("a ^= a", 0, |x| x ^= x.clone());
    // methods
    same("and()", a.and(b), am & bm)?;
    same("or()", a.or(b), am | bm)?;
    same("xor()", a.xor(b), am ^ bm)?;
    same("andnot()", a.andnot(b), !am & bm)?;
    reads("andnot()", b.andnot(a), !bm & am)?;
    same("C-style &", Bitboard::Bitboard_bitand(a, b), am & bm)?;
    same("C-style |", Bitboard::Bitboard_bitor(a, b), am | bm)?;
    same("C-style ^", Bitboard::Bitboard_bitxor(a, b), am ^ bm)?;
    // single squares
    same("single", Bitboard::single(q), sm)?;
    same("C-style single", Bitboard::Bitboard_single(q), sm)?;
    ensure_eq!(a.contains(q), am & sm != 0, "membership of {}", usi_square(s));
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    ctx.enumerate(
        "all pairs of squares",
        "two different squares",
        81 * 81,
        3,
        |n| Pair { a: Set81::new(1 << (n / 81)), b: Set81::new(1 << (n % 81)), s: (n % 81) as u8, way: (n % 16) as u8 },
        |p: &Pair, t| {
            if p.a.mask() != p.b.mask() {
                t.nontrivial();
            }
            one_pair(p, t)
        },
    );
    ctx.enumerate(
        "complements and unions of pairs of squares",
        "two different squares",
        81 * 81,
        3,
        |n| Pair { a: Set81::new(!(1 << (n / 81))), b: Set81::new(1 << (n / 81) | 1 << (n % 81)), s: (n / 81) as u8, way: (n % 16) as u8 },
        one_pair,
    );
    ctx.enumerate(
        "empty and full",
        "every case",
        16,
        1,
        |n| n as u8,
        |&w: &u8, t| {
            t.nontrivial();
            reads("empty()", Bitboard::empty(), 0)?;
            reads("C-style empty()", Bitboard::Bitboard_empty(), 0)?;
            reads("default()", Bitboard::default(), 0)?;
            reads("!empty()", !Bitboard::empty(), Set81::ALL)?;
            reads("everything", assemble(Set81::ALL, w), Set81::ALL)?;
            reads("!everything", !assemble(Set81::ALL, w), 0)
        },
    );
    ctx.explore(
        "pairs of sets",
        "the sets overlap and neither contains the other",
        160_000,
        30_000_000,
        || (subset(), subset(), 0u8..81, 0u8..16).prop_map(|(a, b, s, way)| Pair { a, b, s, way }),
        one_pair,
    );
    ctx.explore(
        "programs of set operations",
        "at least five steps and a result that is neither empty nor full",
        60_000,
        15_000_000,
        || (subset(), prop::collection::vec((0u8..14, subset(), 0u8..81), 1..16)),
        |(start, steps): &(Set81, Vec<(u8, Set81, u8)>), t| {
            let mut m = start.mask();
            let mut b = bb(m);
            for &(op, x, s) in steps {
                let (xm, s) = (x.mask(), s % 81);
                let y = bb(xm);
                match op {
                    0 => (b, m) = (b & y, m & xm),
                    1 => (b, m) = (b | y, m | xm),
                    2 => (b, m) = (b ^ y, m ^ xm),
                    3 => (b, m) = (b.andnot(y), !m & xm),
                    4 => (b, m) = (!b, Set81::ALL & !m),
                    5 => {
                        b |= sq(s);
                        m |= 1 << s;
                    }
                    6 => {
                        b ^= sq(s);
                        m ^= 1 << s;
                    }
                    7 => {
                        b &= y;
                        m &= xm;
                    }
                    8 => {
                        b |= &y;
                        m |= xm;
                    }
                    9 => (b, m) = (b.xor(y), m ^ xm),
                    10 => (b, m) = (y.andnot(b), m & !xm),
                    11 => (b, m) = (unsafe { Bitboard::from_u128_unchecked(b.to_u128()) }, m),
                    12 => {
                        let got = b.pop();
                        match got {
                            None => ensure!(m == 0, "pop returned nothing from a set with {} members", m.count_ones()),
                            Some(g) => {
                                let i = square_no(g);
                                ensure!(i < 81 && m >> i & 1 == 1, "pop returned {g:?}, not a member of {:?}", Set81::new(m));
                                m &= !(1 << i);
                            }
                        }
                    }
                    _ => {
                        b = b.flip();
                        m = m.reverse_bits() >> 47;
                    }
                }
                reads(&format!("after step {op}"), b, m)?;
            }
            if steps.len() >= 5 && m != 0 && m != Set81::ALL {
                t.nontrivial();
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------------ C13

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Walk {
    set: Set81,
    way: u8,
    steps: Vec<(u8, u8)>,
}

fn hint(b: &impl Iterator, left: u32, what: &str) -> Check {
    let (lo, hi) = b.size_hint();
    ensure!(lo <= left as usize, "{what}: size hint ({lo}, {hi:?}) but {left} members left");
    if let Some(h) = hi {
        ensure!(h >= left as usize, "{what}: size hint ({lo}, {hi:?}) but {left} members left");
    }
    Ok(())
}
/// Records one visit; refuses non-members and repeats.
fn visit(left: &mut u128, s: Square, what: &str) -> Check {
    let i = square_no(s);
    ensure!(i < 81, "{what}: a value that is no square: {s:?}");
    ensure!(*left >> i & 1 == 1, "{what}: {} is visited although it is not (or no longer) a member", usi_square(i));
    *left &= !(1 << i);
    Ok(())
}
fn all_visited(m: u128, v: impl IntoIterator<Item = Square>, what: &str) -> Check {
    let mut left = m;
    for s in v {
        visit(&mut left, s, what)?;
    }
    ensure!(left == 0, "{what}: never visited {:?}", Set81::new(left));
    Ok(())
}

/// Pop down to nothing, in both forms and on two differently built sets.
fn pop_all(m: u128, way: u8) -> Check {
    let mut a = bb(m);
    let mut b = assemble(m, way);
    let mut c = bb(m);
    let mut left = m;
    for n in 0.. {
        let before = left;
        let (x, y) = (a.pop(), b.pop());
        let z: Option<Square> = c.Bitboard_pop().into();
        ensure!(x == y, "pop number {n} gives {x:?} or {y:?} from the same set {:?} built in different ways", Set81::new(before));
        ensure!(x == z, "pop number {n} gives {x:?}, the C-style form {z:?}, from {:?}", Set81::new(before));
        match x {
            None => {
                ensure!(before == 0, "pop returned nothing from {:?}", Set81::new(before));
                same("after popping the empty set", a, 0)?;
                ensure!(a.pop().is_none() && a.is_empty(), "popping the empty set again");
                ensure!(raw8(c.Bitboard_pop()) == 0, "C-style pop of the empty set is not 0");
                break;
            }
            Some(s) => visit(&mut left, s, "pop")?,
        }
        same("set after pop", a, left)?;
        same("set after C-style pop", c, left)?;
    }
    Ok(())
}

fn consumers(m: u128, k: usize) -> Check {
    let b = bb(m);
    let n = m.count_ones() as usize;
    let keep = b;
    // the order of next()
    let mut seq = Vec::new();
    let mut it = b;
    hint(&it, n as u32, "at the start")?;
    let mut left = m;
    while let Some(s) = it.next() {
        visit(&mut left, s, "next")?;
        seq.push(s);
        hint(&it, left.count_ones(), "on the way")?;
        ensure!(seq.len() <= 81, "more than 81 members");
    }
    ensure!(left == 0, "iteration ended before {:?}", Set81::new(left));
    for _ in 0..3 {
        ensure!(it.next().is_none(), "iteration resumes after its end");
        hint(&it, 0, "after the end")?;
    }
    ensure!(b == keep, "iterating a copy changed the original");
    same("the original after iterating a copy", b, m)?;
    ensure_eq!(Iterator::count(b), n, "Iterator::count");
    let mut v = Vec::new();
    for s in b {
        v.push(s);
    }
    ensure_eq!(v, seq, "for loop");
    ensure_eq!(b.collect::<Vec<_>>(), seq, "collect");
    all_visited(m, b.fold(Vec::new(), |mut a, s| {
        a.push(s);
        a
    }), "fold")?;
    let mut v = Vec::new();
    b.for_each(|s| v.push(s));
    all_visited(m, v, "for_each")?;
    let mut v = Vec::new();
    v.extend(b);
    all_visited(m, v, "extend")?;
    ensure_eq!(Iterator::last(b), seq.last().copied(), "last");
    let mut it = b;
    ensure_eq!(it.nth(k), seq.get(k).copied(), "nth({k})");
    let rest: Vec<Square> = seq.iter().copied().skip(k + 1).collect();
    hint(&it, rest.len() as u32, "after nth")?;
    ensure_eq!(it.collect::<Vec<_>>(), rest, "what is left after nth({k})");
    ensure_eq!(b.skip(k).collect::<Vec<_>>(), seq.iter().copied().skip(k).collect::<Vec<_>>(), "skip({k})");
    ensure_eq!(b.take(k).collect::<Vec<_>>(), seq.iter().copied().take(k).collect::<Vec<_>>(), "take({k})");
    ensure_eq!(b.step_by(k % 9 + 1).collect::<Vec<_>>(), seq.iter().copied().step_by(k % 9 + 1).collect::<Vec<_>>(), "step_by({})", k % 9 + 1);
    let mut it = b;
    let first: Vec<Square> = it.by_ref().take(k).collect();
    ensure_eq!(first, seq.iter().copied().take(k).collect::<Vec<_>>(), "by_ref().take({k})");
    hint(&it, n.saturating_sub(k) as u32, "after by_ref().take")?;
    same("the set left after by_ref().take", it, seq.iter().skip(k).fold(0, |a, s| a | 1 << square_no(*s)))?;
    ensure_eq!(it.count() as usize, n.saturating_sub(k), "members left after by_ref().take({k})");
    ensure_eq!(b.chain(bb(m)).count(), 2 * n, "chain");
    ensure_eq!(b.zip(0..).map(|x| x.0).collect::<Vec<_>>(), seq, "zip");
    ensure_eq!(b.enumerate().map(|x| x.0).collect::<Vec<_>>(), (0..n).collect::<Vec<_>>(), "enumerate");
    ensure_eq!(b.fuse().collect::<Vec<_>>(), seq, "fuse");
    ensure_eq!(b.peekable().collect::<Vec<_>>(), seq, "peekable");
    let (x, y): (Vec<Square>, Vec<Square>) = b.partition(|s| s.file() % 2 == 0);
    all_visited(m, x.into_iter().chain(y), "partition")?;
    ensure_eq!(Iterator::min(b), seq.iter().copied().min(), "min");
    ensure_eq!(Iterator::max(b), seq.iter().copied().max(), "max");
    let mut it = b;
    let p = it.position(|s| s.rank() == 5);
    ensure_eq!(p, seq.iter().position(|s| s.rank() == 5), "position");
    ensure_eq!(it.count() as usize, p.map_or(0, |p| n - p - 1), "members left after position");
    let mut it = b;
    let f = it.find(|s| s.file() == (k % 9) as u8 + 1);
    ensure_eq!(f, seq.iter().copied().find(|s| s.file() == (k % 9) as u8 + 1), "find");
    let mut it = b;
    ensure_eq!(it.all(|s| s.rank() != 9), seq.iter().all(|s| s.rank() != 9), "all");
    let mut it = b;
    ensure_eq!(it.any(|s| s.rank() == 9), seq.iter().any(|s| s.rank() == 9), "any");
    ensure!(b.eq(seq.iter().copied()), "eq");
    ensure_eq!(b.map(|s| s.index() as u32).sum::<u32>(), seq.iter().map(|s| s.index() as u32).sum::<u32>(), "sum");
    let set: std::collections::BTreeSet<Square> = b.collect();
    ensure_eq!(set.len(), n, "collect into a set");
    ensure_eq!(b.into_iter().reduce(|_, s| s), seq.last().copied(), "reduce");
    same("the original after all consumers", b, m)
}

pub fn c13(ctx: &mut Ctx) {
    let both = |m: u128, k: u8, t: &mut Tally| {
        if m.count_ones() >= 2 {
            t.nontrivial();
        }
        if m >> 63 != 0 && m & ((1 << 63) - 1) != 0 {
            t.class("members on both sides of the word boundary");
        }
        pop_all(m, k)?;
        consumers(m, (k % 84) as usize)
    };
    ctx.enumerate(
        "sets of at most two squares, and their complements",
        "at least two members",
        81 * 81 * 2,
        3,
        |n| {
            let m = 1u128 << (n / 162) | 1u128 << (n / 2 % 81);
            (Set81::new(if n % 2 == 0 { m } else { !m }), (n % 84) as u8)
        },
        |(s, k): &(Set81, u8), t| both(s.mask(), *k, t),
    );
    ctx.enumerate("files, ranks and the empty set", "at least two members", 9 * 512 + 9 * 512 + 1, 3, |n| {
        let m = if n < 9 * 512 {
            ((n % 512) as u128) << (9 * (n / 512))
        } else if n < 18 * 512 {
            let n = n - 9 * 512;
            (0..9).filter(|i| n >> i & 1 == 1).fold(0, |a, i| a | 1u128 << (9 * i + n / 512))
        } else {
            0
        };
        (Set81::new(m), (n % 84) as u8)
    }, |(s, k): &(Set81, u8), t| both(s.mask(), *k, t));
    ctx.explore(
        "random sets",
        "at least two members",
        80_000,
        10_000_000,
        || (subset(), any::<u8>()),
        |(s, k): &(Set81, u8), t| both(s.mask(), *k, t),
    );
    ctx.explore(
        "iterators changed on the way",
        "at least four steps on a set that starts with two or more members",
        80_000,
        10_000_000,
        || (subset(), 0u8..16, prop::collection::vec((0u8..9, any::<u8>()), 1..20)).prop_map(|(set, way, steps)| Walk { set, way, steps }),
        |w: &Walk, t| {
            let mut left = w.set.mask();
            let mut b = assemble(left, w.way);
            if left.count_ones() >= 2 && w.steps.len() >= 4 {
                t.nontrivial();
            }
            for &(op, x) in &w.steps {
                match op {
                    0 | 1 | 2 => {
                        // the same set built afresh must give the same member
                        let mut twin = bb(left);
                        let (g, h) = match op {
                            0 => (b.pop(), twin.pop()),
                            1 => (b.next(), twin.next()),
                            _ => (b.Bitboard_pop().into(), twin.Bitboard_pop().into()),
                        };
                        ensure!(g == h, "step {op}: {g:?} or {h:?} from the same set");
                        match g {
                            None => ensure!(left == 0, "nothing came out of {:?}", Set81::new(left)),
                            Some(s) => visit(&mut left, s, "step")?,
                        }
                    }
                    3 => {
                        b |= sq(x % 81);
                        left |= 1 << (x % 81);
                    }
                    4 => {
                        b ^= sq(x % 81);
                        left ^= 1 << (x % 81);
                    }
                    5 => {
                        let before = left;
                        let k = x as usize % 6;
                        let g = b.nth(k);
                        let mut twin = bb(before);
                        let mut h = None;
                        for i in 0..=k {
                            h = twin.next();
                            if let Some(s) = h {
                                visit(&mut left, s, "nth")?;
                            }
                            if h.is_none() {
                                break;
                            }
                            let _ = i;
                        }
                        ensure_eq!(g, h, "nth({k})");
                    }
                    6 => {
                        let c = b;
                        ensure_eq!(Iterator::count(c), left.count_ones() as usize, "Iterator::count of a copy");
                    }
                    7 => {
                        all_visited(left, b.collect::<Vec<_>>(), "collect of a copy")?;
                    }
                    _ => {
                        let mut c = b;
                        let _ = c.next();
                        let _ = c.nth(x as usize % 40);
                    }
                }
                hint(&b, left.count_ones(), "on the way")?;
                same("the set on the way", b, left)?;
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------------ C14

fn shifted(m: u128, df: i32, dr: i32) -> u128 {
    let mut out = 0;
    for s in 0..81u8 {
        if m >> s & 1 == 1 {
            let (f, r) = (file_of(s) as i32 + df, rank_of(s) as i32 + dr);
            if (1..=9).contains(&f) && (1..=9).contains(&r) {
                out |= 1u128 << at(f as u8, r as u8);
            }
        }
    }
    out
}
fn one_set_geometry(m: u128, t: &mut Tally) -> Check {
    let b = bb(m);
    for d in 0..=9u8 {
        let k = d as i32;
        let (down, up, left, right) = unsafe { (b.shift_down(d), b.shift_up(d), b.shift_left(d), b.shift_right(d)) };
        for (name, got, exp) in [("down", down, shifted(m, 0, k)), ("up", up, shifted(m, 0, -k)), ("left", left, shifted(m, k, 0)), ("right", right, shifted(m, -k, 0))] {
            let what = || format!("{:?} shifted {name} by {d}", Set81::new(m));
            if got.to_u128() != repr(exp) {
                same(&what(), got, exp)?;
            }
            if exp != 0 && exp.count_ones() < m.count_ones() {
                t.class("shifts that drop some members and keep others");
                t.nontrivial();
            }
        }
    }
    let f = m.reverse_bits() >> 47;
    same("reflection", b.flip(), f)?;
    same("reflection twice", b.flip().flip(), m)?;
    for file in 1..=9u8 {
        let exp = (m >> (9 * (file - 1))) as u16 & 511;
        let got = unsafe { b.get_file_unchecked(file) };
        ensure_eq!(got, exp, "pattern of file {file} of {:?}", Set81::new(m));
    }
    Ok(())
}
pub fn c14(ctx: &mut Ctx) {
    ctx.enumerate(
        "sets of at most two squares, and their complements",
        "some shift drops some members and keeps others",
        81 * 81 * 2,
        4,
        |n| {
            let m = 1u128 << (n / 162) | 1u128 << (n / 2 % 81);
            Set81::new(if n % 2 == 0 { m } else { !m })
        },
        |s: &Set81, t| one_set_geometry(s.mask(), t),
    );
    ctx.enumerate(
        "every file pattern",
        "a pattern with at least one square",
        9 * 512,
        1,
        |n| ((n / 512) as u8 + 1, (n % 512) as u16),
        |&(file, pat): &(u8, u16), t| {
            if pat != 0 {
                t.nontrivial();
            }
            let exp = (pat as u128) << (9 * (file - 1));
            let b = unsafe { Bitboard::from_file_unchecked(file, pat) };
            same(&format!("file {file} from pattern {pat:#b}"), b, exp)?;
            reads("file set", b, exp)?;
            for g in 1..=9u8 {
                ensure_eq!(unsafe { b.get_file_unchecked(g) }, if g == file { pat } else { 0 }, "file {g} of file {file} with pattern {pat:#b}");
                ensure_eq!(unsafe { (!b).get_file_unchecked(g) }, if g == file { !pat & 511 } else { 511 }, "file {g} of the complement");
            }
            one_set_geometry(exp, t)
        },
    );
    ctx.explore("random sets", "some shift drops some members and keeps others", 60_000, 10_000_000, subset, |s: &Set81, t| one_set_geometry(s.mask(), t));
    ctx.explore(
        "sequences of shifts and reflections",
        "a set of at least two squares is left in the end",
        60_000,
        10_000_000,
        || (subset(), prop::collection::vec((0u8..6, 0u8..=9), 1..8)),
        |(s, steps): &(Set81, Vec<(u8, u8)>), t| {
            let mut m = s.mask();
            let mut b = bb(m);
            for &(op, d) in steps {
                let (d, k) = (d % 10, (d % 10) as i32);
                match op % 6 {
                    0 => (b, m) = (unsafe { b.shift_down(d) }, shifted(m, 0, k)),
                    1 => (b, m) = (unsafe { b.shift_up(d) }, shifted(m, 0, -k)),
                    2 => (b, m) = (unsafe { b.shift_left(d) }, shifted(m, k, 0)),
                    3 => (b, m) = (unsafe { b.shift_right(d) }, shifted(m, -k, 0)),
                    4 => (b, m) = (b.flip(), m.reverse_bits() >> 47),
                    _ => (b, m) = (!b, Set81::ALL & !m),
                }
                reads(&format!("after step {} by {d}", op % 6), b, m)?;
            }
            if m.count_ones() >= 2 {
                t.nontrivial();
            }
            Ok(())
        },
    );
    ctx.explore(
        "sets put together from files",
        "at least two files are not empty",
        40_000,
        5_000_000,
        || prop::array::uniform9(0u16..512),
        |p: &[u16; 9], t| {
            let mut b = Bitboard::empty();
            let mut m = 0u128;
            for f in 0..9 {
                let x = p[f] & 511;
                b |= unsafe { Bitboard::from_file_unchecked(f as u8 + 1, x) };
                m |= (x as u128) << (9 * f);
            }
            if p.iter().filter(|x| **x & 511 != 0).count() >= 2 {
                t.nontrivial();
            }
            same("union of files", b, m)?;
            for f in 0..9 {
                ensure_eq!(unsafe { b.get_file_unchecked(f as u8 + 1) }, p[f] & 511, "file {} read back", f + 1);
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------------ C15

fn one_swap(am: u128, bm: u128) -> Check {
    let (a, b) = (bb(am), bb(bm));
    let (x, y) = (a.swap_bytes(), b.swap_bytes());
    ensure_eq!(x.to_u128(), a.to_u128().swap_bytes(), "bytes of {:?} reversed", Set81::new(am));
    ensure!(x.swap_bytes() == a, "swapping the bytes of {:?} twice", Set81::new(am));
    same("swapped twice", x.swap_bytes(), am)?;
    ensure!(unsafe { ByteSwappedBitboard::from_u128_unchecked(x.to_u128()) } == x, "byte-swapped set through the 128-bit integer and back");
    ensure!(unsafe { ByteSwappedBitboard::from_u128_unchecked(a.to_u128().swap_bytes()) } == x, "byte-swapped set from the reversed integer");
    for (name, got, exp) in [("or", x.or(y), am | bm), ("and", x.and(y), am & bm), ("xor", x.xor(y), am ^ bm), ("andnot", x.andnot(y), !am & bm), ("andnot", y.andnot(x), !bm & am)] {
        let what = format!("{name} of byte-swapped {:?} and {:?}", Set81::new(am), Set81::new(bm));
        same(&what, got.swap_bytes(), exp)?;
        ensure!(got == bb(exp).swap_bytes(), "{what}: is not the byte-swapped result");
        ensure_eq!(got.to_u128(), repr(exp).swap_bytes(), "{what}: 128-bit value");
    }
    ensure_eq!(x == y, am == bm, "equality of byte-swapped sets");
    same("default", ByteSwappedBitboard::default().swap_bytes(), 0)
}
pub fn c15(ctx: &mut Ctx) {
    ctx.enumerate(
        "all pairs of squares",
        "two different squares",
        81 * 81,
        3,
        |n| (Set81::new(1 << (n / 81)), Set81::new(1 << (n % 81))),
        |(a, b): &(Set81, Set81), t| {
            if a != b {
                t.nontrivial();
            }
            one_swap(a.mask(), b.mask())?;
            one_swap(Set81::ALL & !a.mask(), b.mask())
        },
    );
    ctx.explore(
        "pairs of sets",
        "the sets overlap and neither contains the other",
        300_000,
        40_000_000,
        || (subset(), subset()),
        |(a, b): &(Set81, Set81), t| {
            let (x, y) = (a.mask(), b.mask());
            if x & y != 0 && x & !y != 0 && y & !x != 0 {
                t.nontrivial();
            }
            one_swap(x, y)
        },
    );
}

// ------------------------------------------------------------------------------------------------ C16

fn one_square(s: u8, q: Square, what: &str) -> Check {
    let (f, r) = (file_of(s), rank_of(s));
    ensure_eq!(q.file(), f, "file of {what}");
    ensure_eq!(q.rank(), r, "rank of {what}");
    ensure_eq!(q.index(), 9 * f + r - 9, "index of {what}");
    ensure_eq!(raw8(q), 9 * f + r - 9, "byte value of {what}");
    ensure_eq!(q.array_index(), s as usize, "zero-based index of {what}");
    ensure_eq!(q.relative_file(Color::Black), f, "file of {what} as Black sees it");
    ensure_eq!(q.relative_rank(Color::Black), r, "rank of {what} as Black sees it");
    ensure_eq!(q.relative_file(Color::White), 10 - f, "file of {what} as White sees it");
    ensure_eq!(q.relative_rank(Color::White), 10 - r, "rank of {what} as White sees it");
    Ok(())
}
pub fn c16(ctx: &mut Ctx) {
    ctx.enumerate(
        "every file and rank",
        "file and rank between 1 and 9, or one of them just outside",
        65536,
        1,
        |n| ((n / 256) as u8, (n % 256) as u8),
        |&(f, r): &(u8, u8), t| {
            let on = (1..=9).contains(&f) && (1..=9).contains(&r);
            if on || (f <= 10 && r <= 10) {
                t.nontrivial();
            }
            let white = |q: Square| one_square(flip_sq(at(f, r)), q, "the square as White sees it");
            let black = |q: Square| one_square(at(f, r), q, "the square");
            for (name, q, is_black) in [
                ("new", Square::new(f, r), true),
                ("C-style new", Square::Square_new(f, r).into(), true),
                ("new_relative(Black)", Square::new_relative(f, r, Color::Black), true),
                ("new_relative(White)", Square::new_relative(f, r, Color::White), false),
                ("C-style new_relative(Black)", Square::Square_new_relative(f, r, Color::Black).into(), true),
                ("C-style new_relative(White)", Square::Square_new_relative(f, r, Color::White).into(), false),
            ] {
                ensure!(q.is_some() == on, "{name}({f}, {r}) gives {q:?}");
                if let Some(q) = q {
                    if is_black { black(q) } else { white(q) }.map_err(|e| format!("{name}({f}, {r}): {e}"))?;
                    let c = if is_black { Color::Black } else { Color::White };
                    ensure!(q.relative_file(c) == f && q.relative_rank(c) == r, "{name}({f}, {r}): seen from that side it is ({}, {})", q.relative_file(c), q.relative_rank(c));
                }
            }
            Ok(())
        },
    );
    ctx.enumerate(
        "every byte value",
        "a value between 1 and 81",
        256,
        1,
        |n| n as u8,
        |&v: &u8, t| {
            let ok = (1..=81).contains(&v);
            for (name, q) in [("from_u8", Square::from_u8(v)), ("C-style from_u8", Square::Square_from_u8(v).into())] {
                ensure!(q.is_some() == ok, "{name}({v}) gives {q:?}");
                if let Some(q) = q {
                    one_square(v - 1, q, &format!("{name}({v})"))?;
                }
            }
            ensure_eq!(raw8(Square::Square_from_u8(v)), if ok { v } else { 0 }, "byte of C-style from_u8({v})");
            if ok {
                t.nontrivial();
                one_square(v - 1, unsafe { Square::from_u8_unchecked(v) }, &format!("from_u8_unchecked({v})"))?;
                one_square(v - 1, unsafe { Square::Square_from_u8_unchecked(v) }, &format!("C-style from_u8_unchecked({v})"))?;
            }
            Ok(())
        },
    );
    ctx.enumerate(
        "every square",
        "every case",
        81,
        1,
        |n| n as u8,
        |&s: &u8, t| {
            t.nontrivial();
            let q = Square::new(file_of(s), rank_of(s)).ok_or("no square")?;
            let (c, d) = consts_list::SQUARES[s as usize];
            one_square(s, c, &format!("the constant SQ_{}{}", file_of(s), (b'A' + rank_of(s) - 1) as char))?;
            one_square(s, d, &format!("consts::square::SQ_{}{}", file_of(s), (b'A' + rank_of(s) - 1) as char))?;
            ensure!(c == q && d == q, "the constants differ from new()");
            one_square(flip_sq(s), q.flip(), "the reflection")?;
            ensure_eq!(q.flip().flip(), q, "reflection twice");
            ensure_eq!(Square::all().nth(s as usize), Some(q), "position {s} of the list of all squares");
            ensure_eq!(Square::all().count(), 81, "length of the list of all squares");
            ensure!(Square::all().enumerate().all(|(i, x)| x.array_index() == i), "the list of all squares is not in index order");
            ensure_eq!(Square::NUM, 81, "Square::NUM");
            Ok(())
        },
    );
    ctx.enumerate(
        "every square and file offset, with all rank offsets",
        "some rank offset leads to a square",
        81 * 256,
        1,
        |n| ((n / 256) as u8, (n % 256) as u8 as i8),
        |&(s, df): &(u8, i8), t| {
            let q = Square::new(file_of(s), rank_of(s)).ok_or("no square")?;
            for dr in -128..=127i8 {
                let (f, r) = (file_of(s) as i32 + df as i32, rank_of(s) as i32 + dr as i32);
                let exp = if (1..=9).contains(&f) && (1..=9).contains(&r) { at(f as u8, r as u8) + 1 } else { 0 };
                let got = q.shift(df, dr);
                ensure!(got.map_or(0, raw8) == exp, "{} shifted by ({df}, {dr}) gives {got:?}", usi_square(s));
                let c = q.Square_shift(df, dr);
                ensure!(raw8(c) == exp, "C-style: {} shifted by ({df}, {dr}) gives {c:?}", usi_square(s));
                if exp != 0 {
                    t.nontrivial();
                    t.class("shifts that stay on the board");
                }
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------------ C17

fn one_kind(k: u8, t: &mut Tally) -> Check {
    t.nontrivial();
    let x = KINDS[k as usize - 1];
    ensure_eq!(x as u8, k, "number of {x:?}");
    ensure_eq!(raw8(x), k, "byte of {x:?}");
    let num = |o: Option<PieceKind>| o.map(|k| k as u8);
    ensure_eq!(num(x.promote()), promoted_form(k), "promoted form of {x:?}");
    ensure_eq!(num(x.unpromote()), unpromoted_form(k), "unpromoted form of {x:?}");
    ensure_eq!(raw8(x.PieceKind_promote()), promoted_form(k).unwrap_or(0), "C-style promoted form of {x:?}");
    ensure_eq!(raw8(x.PieceKind_unpromote()), unpromoted_form(k).unwrap_or(0), "C-style unpromoted form of {x:?}");
    if let Some(p) = x.promote() {
        ensure_eq!(p.unpromote(), Some(x), "promoting and unpromoting {x:?}");
    }
    if let Some(p) = x.unpromote() {
        ensure_eq!(p.promote(), Some(x), "unpromoting and promoting {x:?}");
    }
    ensure_eq!(x.array_index(), k as usize - 1, "zero-based index of {x:?}");
    ensure_eq!(PieceKind::all()[k as usize - 1], x, "list of kinds at {k}");
    ensure_eq!(PieceKind::option_array_index(Some(x)), k as usize, "option index of {x:?}");
    ensure_eq!(PieceKind::option_array_index(None), 0, "option index of none");
    ensure_eq!(PieceKind::OPTION_NUM, 15, "PieceKind::OPTION_NUM");
    ensure_eq!(PieceKind::NUM, 14, "PieceKind::NUM");
    ensure_eq!(PieceKind::all().len(), 14, "number of kinds listed");
    ensure_eq!(unsafe { PieceKind::from_u8_unchecked(k) }, x, "from_u8_unchecked({k})");
    ensure_eq!(unsafe { PieceKind::PieceKind_from_u8_unchecked(k) }, x, "C-style from_u8_unchecked({k})");
    Ok(())
}
fn one_piece(p: u8, q: Piece, what: &str) -> Check {
    let (k, c) = (KINDS[kind_of(p) as usize - 1], COLORS[color_of(p)]);
    ensure_eq!(raw8(q), p, "byte value of {what}");
    ensure_eq!(q.as_u8(), p, "as_u8 of {what}");
    ensure_eq!(q.to_parts(), (k, c), "parts of {what}");
    ensure_eq!(q.piece_kind(), k, "kind of {what}");
    ensure_eq!(q.color(), c, "colour of {what}");
    Ok(())
}

pub fn c17(ctx: &mut Ctx) {
    ctx.enumerate("every kind", "every case", 14, 1, |n| n as u8 + 1, |&k: &u8, t| one_kind(k, t));
    ctx.enumerate(
        "every byte as a kind",
        "a value between 1 and 14",
        256,
        1,
        |n| n as u8,
        |&v: &u8, t| {
            let ok = (1..=14).contains(&v);
            if ok {
                t.nontrivial();
            }
            let exp = if ok { Some(KINDS[v as usize - 1]) } else { None };
            ensure_eq!(PieceKind::from_u8(v), exp, "PieceKind::from_u8({v})");
            ensure_eq!(raw8(PieceKind::PieceKind_from_u8(v)), if ok { v } else { 0 }, "C-style PieceKind_from_u8({v})");
            Ok(())
        },
    );
    ctx.enumerate(
        "every piece",
        "every case",
        28,
        1,
        |n| nth_piece(n as usize),
        |&p: &u8, t| {
            t.nontrivial();
            let (k, c) = (KINDS[kind_of(p) as usize - 1], COLORS[color_of(p)]);
            let q = Piece::new(k, c);
            one_piece(p, q, "new")?;
            one_piece(p, Piece::Piece_new(k, c), "C-style new")?;
            ensure_eq!({ let (k, c) = q.to_parts(); Piece::new(k, c) }, q, "taking apart and combining");
            for (name, got, raw, exp) in [("promote", q.promote(), raw8(q.Piece_promote()), promoted_form(kind_of(p))), ("unpromote", q.unpromote(), raw8(q.Piece_unpromote()), unpromoted_form(kind_of(p)))] {
                let exp = exp.map(|k| piece(k, color_of(p)));
                ensure!(got.is_some() == exp.is_some(), "{name} of {q:?} gives {got:?}");
                if let (Some(g), Some(e)) = (got, exp) {
                    one_piece(e, g, name)?;
                }
                ensure_eq!(raw, exp.unwrap_or(0), "C-style {name} of {q:?}");
            }
            ensure_eq!(Piece::all().iter().filter(|x| **x == q).count(), 1, "times {q:?} is listed");
            ensure_eq!(Piece::all().len(), 28, "number of pieces listed");
            ensure!(q.array_index() < Piece::NUM, "index of {q:?} is {}, not below Piece::NUM", q.array_index());
            for o in all_pieces() {
                let x = Piece::new(KINDS[kind_of(o) as usize - 1], COLORS[color_of(o)]);
                ensure_eq!(x == q, o == p, "equality of pieces {o} and {p}");
                ensure_eq!(x.array_index() == q.array_index(), o == p, "indices of pieces {o} and {p}");
            }
            let i = consts_list::PIECES.iter().position(|e| piece(e.1, e.0) == p).ok_or("no constant")?;
            let e = &consts_list::PIECES[i];
            one_piece(p, e.2, "the constant in Piece")?;
            one_piece(p, e.3, "the constant in consts::piece")
        },
    );
    ctx.enumerate(
        "colours",
        "every case",
        2,
        1,
        |n| n as usize,
        |&c: &usize, t| {
            t.nontrivial();
            let x = COLORS[c];
            ensure_eq!(raw8(x), c as u8 + 1, "byte of {x:?}");
            ensure_eq!(raw8(x.flip()), 2 - c as u8, "{x:?} flipped");
            ensure_eq!(x.flip().flip(), x, "{x:?} flipped twice");
            ensure_eq!(x.array_index(), c, "index of {x:?}");
            ensure_eq!(Color::all().to_vec(), COLORS.to_vec(), "list of colours");
            ensure_eq!(Color::NUM, 2, "Color::NUM");
            Ok(())
        },
    );
    ctx.explore(
        "chains of piece operations",
        "at least three steps of which one promotes or unpromotes",
        200_000,
        20_000_000,
        || (0u8..28, prop::collection::vec(0u8..8, 1..24)),
        |(start, steps): &(u8, Vec<u8>), t| {
            let mut p = nth_piece(*start as usize);
            let mut q = Piece::new(KINDS[kind_of(p) as usize - 1], COLORS[color_of(p)]);
            let mut moved = false;
            for s in steps {
                let (k, c) = (kind_of(p), color_of(p));
                match s {
                    0 | 1 => {
                        let g = if *s == 0 { q.promote() } else { q.Piece_promote().into() };
                        ensure!(g.is_some() == promoted_form(k).is_some(), "promote of {q:?} gives {g:?}");
                        if let Some(g) = g {
                            (q, p, moved) = (g, piece(promoted_form(k).unwrap(), c), true);
                        }
                    }
                    2 | 3 => {
                        let g = if *s == 2 { q.unpromote() } else { q.Piece_unpromote().into() };
                        ensure!(g.is_some() == unpromoted_form(k).is_some(), "unpromote of {q:?} gives {g:?}");
                        if let Some(g) = g {
                            (q, p, moved) = (g, piece(unpromoted_form(k).unwrap(), c), true);
                        }
                    }
                    4 => (q, p) = (Piece::new(q.piece_kind(), q.color().flip()), p ^ 16),
                    5 => q = Option::<Piece>::from(OptionPiece::from(Some(q))).ok_or("wrapped piece lost")?,
                    6 => q = Piece::all()[Piece::all().iter().position(|x| *x == q).ok_or("piece is not listed")?],
                    _ => q = Piece::new(PieceKind::from_u8(q.as_u8() & 15).ok_or("kind")?, q.color()),
                }
                one_piece(p, q, "the piece")?;
            }
            if moved && steps.len() >= 3 {
                t.nontrivial();
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------------ C18

fn one_hand(h: Hand, m: &[u8; 8]) -> Check {
    for k in 1..=14u8 {
        let exp = if k <= 7 { Some(m[k as usize]) } else { None };
        ensure_eq!(h.count(kind(k)), exp, "count of {:?} in {m:?}", kind(k));
        ensure_eq!(h.Hand_count(kind(k)), exp.unwrap_or(0), "C-style count of {:?} in {m:?}", kind(k));
    }
    Ok(())
}
/// Adds and removes every kind once, in both forms.
fn around(h: Hand, m: &[u8; 8]) -> Check {
    one_hand(h, m)?;
    for k in 1..=14u8 {
        let (add, rem) = if k <= 7 { (Some(m[k as usize].wrapping_add(1)), m[k as usize].checked_sub(1)) } else { (None, None) };
        for (name, got, c, exp) in [
            ("added", h.added(kind(k)), { let mut x = h; let r = x.Hand_add(kind(k)); (r, x) }, add),
            ("removed", h.removed(kind(k)), { let mut x = h; let r = x.Hand_remove(kind(k)); (r, x) }, rem),
        ] {
            let mut after = *m;
            if let Some(e) = exp {
                after[k as usize] = e;
            }
            ensure!(got.is_some() == exp.is_some(), "{name}({:?}) on {m:?} gives {got:?}", kind(k));
            if let Some(g) = got {
                one_hand(g, &after).map_err(|e| format!("{name}({:?}): {e}", kind(k)))?;
            }
            ensure!(c.0 == exp.is_some(), "C-style {name}({:?}) on {m:?} reports {}", kind(k), c.0);
            one_hand(c.1, &after).map_err(|e| format!("C-style {name}({:?}): {e}", kind(k)))?;
            if let Some(g) = got {
                ensure!(g == c.1, "{name}({:?}) in both forms gives unequal hands", kind(k));
                ensure_eq!(g == h, after == *m, "equality with the hand before");
            }
        }
    }
    one_hand(h, m)
}
pub fn c18(ctx: &mut Ctx) {
    ctx.enumerate(
        "every count of every kind",
        "a count above zero",
        7 * 256,
        1,
        |n| ((n / 256) as u8 + 1, (n % 256) as u8),
        |&(k, n): &(u8, u8), t| {
            if n > 0 {
                t.nontrivial();
            }
            let mut m = [0u8; 8];
            m[k as usize] = n;
            let h = hand(&m);
            around(h, &m)?;
            // the same with neighbours present
            let mut m2 = [0, 3, 1, 4, 1, 5, 9, 2];
            m2[k as usize] = n;
            let mut g = Hand::new();
            for j in (1..=7u8).rev() {
                for _ in 0..m2[j as usize] {
                    ensure!(g.Hand_add(kind(j)), "C-style add of {:?} refused", kind(j));
                }
            }
            around(g, &m2)?;
            ensure!(g == hand(&m2), "hands built in two ways are unequal");
            ensure!(g != h, "different hands are equal");
            Ok(())
        },
    );
    ctx.enumerate(
        "which kinds are hand pieces",
        "every case",
        14,
        1,
        |n| n as u8 + 1,
        |&k: &u8, t| {
            t.nontrivial();
            ensure_eq!(Hand::is_hand_piece(kind(k)), k <= 7, "is_hand_piece({:?})", kind(k));
            ensure_eq!(Hand::Hand_is_hand_piece(kind(k)), k <= 7, "C-style is_hand_piece({:?})", kind(k));
            let l: Vec<u8> = Hand::all_hand_pieces().map(|k| k as u8).collect();
            ensure_eq!(l, vec![1, 2, 3, 4, 5, 6, 7], "list of hand pieces");
            ensure_eq!(Hand::NUM_HAND_PIECES, 7, "Hand::NUM_HAND_PIECES");
            around(Hand::new(), &[0; 8])?;
            around(Hand::default(), &[0; 8])?;
            ensure!(Hand::new() == Hand::default(), "new and default hands differ");
            Ok(())
        },
    );
    let op = || (0u8..14, prop_oneof![Just(0u8), Just(1), Just(2), Just(3)], prop_oneof![4 => Just(1u16), 1 => 2u16..12, 1 => 250u16..520]);
    ctx.explore(
        "sequences of additions and removals",
        "a removal succeeded, and one was refused or a count wrapped",
        60_000,
        6_000_000,
        move || (prop::array::uniform7(count()), prop::collection::vec(op(), 1..30)),
        |(start, steps): &([u8; 7], Vec<(u8, u8, u16)>), t| {
            let mut m = [0u8; 8];
            m[1..].copy_from_slice(start);
            let mut h = hand(&m);
            let (mut removed, mut odd) = (false, false);
            for &(k, op, n) in steps {
                let k = k % 14 + 1;
                for _ in 0..n {
                    let before = h;
                    let ok = match op {
                        0 => h.added(kind(k)).map(|x| h = x).is_some(),
                        1 => h.Hand_add(kind(k)),
                        2 => h.removed(kind(k)).map(|x| h = x).is_some(),
                        _ => h.Hand_remove(kind(k)),
                    };
                    let exp = k <= 7 && (op < 2 || m[k as usize] > 0);
                    ensure!(ok == exp, "operation {op} with {:?} on {m:?} reports {ok}", kind(k));
                    if exp {
                        let c = &mut m[k as usize];
                        if op < 2 {
                            odd |= *c == 255;
                            *c = c.wrapping_add(1);
                        } else {
                            removed = true;
                            *c -= 1;
                        }
                    } else {
                        odd = true;
                        ensure!(h == before, "a refused operation changed the hand");
                    }
                    if n < 12 {
                        one_hand(h, &m)?;
                    }
                }
                one_hand(h, &m)?;
                ensure!(h == hand(&m), "hand after operations differs from the same hand built afresh ({m:?})");
            }
            if removed && odd {
                t.nontrivial();
            }
            around(h, &m)
        },
    );
    ctx.explore(
        "equality of hands",
        "the hands differ in exactly one count",
        100_000,
        10_000_000,
        || (prop::array::uniform7(count()), 0usize..7, any::<u8>()),
        |(a, i, v): &([u8; 7], usize, u8), t| {
            let mut x = [0u8; 8];
            x[1..].copy_from_slice(a);
            let mut y = x;
            y[i % 7 + 1] = *v;
            if x != y {
                t.nontrivial();
            }
            let (g, h) = (hand(&x), hand(&y));
            ensure_eq!(g == h, x == y, "equality of {x:?} and {y:?}");
            ensure_eq!(g != h, x != y, "inequality of {x:?} and {y:?}");
            one_hand(g, &x)?;
            one_hand(h, &y)
        },
    );
}

// ------------------------------------------------------------------------------------------------ C26

pub const RESOLUTIONS: [GameResolution; 5] = [GameResolution::BlackWins, GameResolution::WhiteWins, GameResolution::Draw, GameResolution::Rematch, GameResolution::Aborted];
pub const ILLEGAL: [IllegalMoveKind; 7] = [
    IllegalMoveKind::TwoPawns,
    IllegalMoveKind::IgnoredCheck,
    IllegalMoveKind::DropPawnMate,
    IllegalMoveKind::DropStuck,
    IllegalMoveKind::NormalStuck,
    IllegalMoveKind::GameFinished,
    IllegalMoveKind::IncorrectMove,
];

pub fn c26(ctx: &mut Ctx) {
    ctx.enumerate(
        "optional pieces, kinds and squares",
        "a present value",
        256,
        1,
        |n| n as u8,
        |&v: &u8, t| {
            if valid_piece(v) || (1..=81).contains(&v) {
                t.nontrivial();
            }
            // pieces
            let x = if valid_piece(v) { Some(Piece::new(KINDS[kind_of(v) as usize - 1], COLORS[color_of(v)])) } else { None };
            if v == 0 || x.is_some() {
                let o = OptionPiece::from(x);
                ensure_eq!(raw8(o), v, "representation of {x:?}");
                ensure_eq!(Option::<Piece>::from(o), x, "{x:?} wrapped and unwrapped");
                let raw: OptionPiece = unsafe { std::mem::transmute(v) };
                ensure_eq!(Option::<Piece>::from(raw), x, "optional piece {v} unwrapped");
                ensure!(raw == o, "optional pieces with the same representation are unequal");
            }
            // kinds
            let x = if (1..=14).contains(&v) { Some(KINDS[v as usize - 1]) } else { None };
            ensure_eq!(PieceKind::from_u8(v), x, "PieceKind::from_u8({v})");
            ensure_eq!(raw8(PieceKind::PieceKind_from_u8(v)), x.map_or(0, |k| k as u8), "C-style PieceKind_from_u8({v})");
            if v <= 14 {
                let o = OptionPieceKind::from(x);
                ensure_eq!(raw8(o), v, "representation of {x:?}");
                ensure_eq!(Option::<PieceKind>::from(o), x, "{x:?} wrapped and unwrapped");
                let raw: OptionPieceKind = unsafe { std::mem::transmute(v) };
                ensure_eq!(Option::<PieceKind>::from(raw), x, "optional kind {v} unwrapped");
            }
            // squares
            let x = if (1..=81).contains(&v) { Square::new((v - 1) / 9 + 1, (v - 1) % 9 + 1) } else { None };
            ensure_eq!(Square::from_u8(v), x, "Square::from_u8({v})");
            ensure_eq!(raw8(Square::Square_from_u8(v)), x.map_or(0, |s| s.index()), "C-style Square_from_u8({v})");
            if v <= 81 {
                let o = OptionSquare::from(x);
                ensure_eq!(raw8(o), v, "representation of {x:?}");
                ensure_eq!(Option::<Square>::from(o), x, "{x:?} wrapped and unwrapped");
                let raw: OptionSquare = unsafe { std::mem::transmute(v) };
                ensure_eq!(Option::<Square>::from(raw), x, "optional square {v} unwrapped");
            }
            Ok(())
        },
    );
    ctx.enumerate(
        "resolutions and kinds of illegal moves",
        "a present value",
        256,
        1,
        |n| n as u8,
        |&v: &u8, t| {
            if (1..=7).contains(&v) {
                t.nontrivial();
            }
            if v <= 5 {
                let x = if v == 0 { None } else { Some(RESOLUTIONS[v as usize - 1]) };
                let o = OptionGameResolution::from(x);
                ensure_eq!(raw8(o), v, "representation of {x:?}");
                ensure_eq!(Option::<GameResolution>::from(o), x, "{x:?} wrapped and unwrapped");
                let raw: OptionGameResolution = unsafe { std::mem::transmute(v) };
                ensure_eq!(Option::<GameResolution>::from(raw), x, "optional resolution {v} unwrapped");
                if let Some(x) = x {
                    ensure_eq!(x as u8, v, "number of {x:?}");
                    ensure_eq!(unsafe { GameResolution::from_u8_unchecked(v) }, x, "GameResolution::from_u8_unchecked({v})");
                }
            }
            let x = if (1..=7).contains(&v) { Some(ILLEGAL[v as usize - 1]) } else { None };
            ensure_eq!(IllegalMoveKind::from_u8(v), x, "IllegalMoveKind::from_u8({v})");
            if v <= 7 {
                let o = ResultUnitIllegalMoveKind::from(x);
                ensure_eq!(raw8(o), v, "representation of {x:?}");
                ensure_eq!(Option::<IllegalMoveKind>::from(o), x, "{x:?} wrapped and unwrapped");
                let r: Result<(), IllegalMoveKind> = match x {
                    None => Ok(()),
                    Some(e) => Err(e),
                };
                let p = ResultUnitIllegalMoveKind::from(r);
                ensure_eq!(raw8(p), v, "representation of {r:?}");
                ensure!(p == o, "wrapping {r:?} as result and as option gives unequal values");
                ensure_eq!(Result::<(), IllegalMoveKind>::from(p), r, "{r:?} wrapped and unwrapped");
                ensure_eq!(Option::<IllegalMoveKind>::from(p), x, "{r:?} unwrapped as an option");
                let raw: ResultUnitIllegalMoveKind = unsafe { std::mem::transmute(v) };
                ensure_eq!(Result::<(), IllegalMoveKind>::from(raw), r, "result {v} unwrapped");
                if let Some(x) = x {
                    ensure_eq!(x as u8, v, "number of {x:?}");
                    ensure_eq!(unsafe { IllegalMoveKind::from_u8_unchecked(v) }, x, "IllegalMoveKind::from_u8_unchecked({v})");
                }
            }
            if v == 0 {
                ensure_eq!(Option::<CompactMove>::from(OptionCompactMove::default()), None, "default OptionCompactMove");
                ensure_eq!(raw16(OptionCompactMove::default()), 0, "representation of the default OptionCompactMove");
                ensure_eq!(raw16(OptionCompactMove::from(None)), 0, "representation of no move");
                ensure_eq!(Option::<CompactMove>::from(OptionCompactMove::from(None)), None, "no move wrapped and unwrapped");
                ensure_eq!(Option::<GameResolution>::from(OptionGameResolution::default()), None, "default OptionGameResolution");
                ensure_eq!(raw8(OptionGameResolution::default()), 0, "representation of the default OptionGameResolution");
                ensure_eq!(Result::<(), IllegalMoveKind>::from(ResultUnitIllegalMoveKind::default()), Ok(()), "default ResultUnitIllegalMoveKind");
                ensure_eq!(raw8(ResultUnitIllegalMoveKind::default()), 0, "representation of the default ResultUnitIllegalMoveKind");
            }
            Ok(())
        },
    );
    ctx.enumerate(
        "optional moves",
        "every case is a different move",
        MMove::COUNT,
        7,
        MMove::nth,
        |x: &MMove, t| {
            t.nontrivial();
            let c = compact(mv(*x));
            let o = OptionCompactMove::from(Some(c));
            ensure!(raw16(o) != 0, "{} is represented by 0", x.usi());
            ensure_eq!(raw16(o), raw16(c), "representation of the optional {}", x.usi());
            ensure_eq!(Option::<CompactMove>::from(o), Some(c), "{} wrapped and unwrapped", x.usi());
            ensure!(o != OptionCompactMove::from(None), "{} equals no move", x.usi());
            Ok(())
        },
    );
    // wrapped values that the library itself hands out
    ctx.explore(
        "optional values read from positions",
        "a last move, a piece and a vacant square were read",
        30_000,
        3_000_000,
        || hist(play_base().boxed(), MOVES, 0..16),
        |h: &Hist, t| {
            let mut m = h.base.build();
            let mut p = build_base(&h.base, &m);
            let mut w = Position::arbitrary_position(p.clone());
            for op in &h.ops {
                if let Act::Mv(x) = resolve(op, &m) {
                    let ok = m.apply(x).is_ok();
                    ensure_eq!(p.make_move(mv(x)).is_some(), ok, "{}", x.usi());
                    ensure_eq!(w.make_move(mv(x)).is_some(), ok, "{} with history", x.usi());
                }
            }
            if m.last.is_some() {
                t.nontrivial();
            }
            let exp = m.last.map_or(0, MMove::encode);
            ensure_eq!(raw16(p.PartialPosition_last_compact_move()), exp, "last move");
            ensure_eq!(raw16(w.Position_last_compact_move()), exp, "last move with history");
            for s in 0..81u8 {
                ensure_eq!(raw8(p.PartialPosition_piece_at(sq(s))), m.board[s as usize], "piece on {}", usi_square(s));
                ensure_eq!(raw8(w.Position_piece_at(sq(s))), m.board[s as usize], "piece on {} with history", usi_square(s));
            }
            Ok(())
        },
    );
}
