//! C19: equality, ordering and hashing.
use super::legal::{ILLEGAL, RESOLUTIONS, STATUSES};
use super::position::build_shuffled;
use super::values::assemble;
use crate::bridge::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shogi_core::c_compat::*;
use shogi_core::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

/// Everything that can be said about two values of which it is known whether they are the same.
fn pair<T: Eq + Ord + Hash + Clone>(what: &str, a: &T, b: &T, same: bool) -> Check {
    ensure!((a == b) == same, "{what}: == says {}, but the values are {}", a == b, if same { "the same" } else { "different" });
    ensure!((b == a) == same, "{what}: == says {} the other way round", b == a);
    ensure!((a != b) != same, "{what}: != says {}", a != b);
    let c = a.cmp(b);
    ensure!((c == Ordering::Equal) == same, "{what}: cmp says {c:?}, but the values are {}", if same { "the same" } else { "different" });
    ensure!(b.cmp(a) == c.reverse(), "{what}: cmp says {c:?} and, the other way round, {:?}", b.cmp(a));
    ensure!(a.partial_cmp(b) == Some(c), "{what}: partial_cmp says {:?}, cmp {c:?}", a.partial_cmp(b));
    ensure!(b.partial_cmp(a) == Some(c.reverse()), "{what}: partial_cmp says {:?} the other way round", b.partial_cmp(a));
    for (op, got, exp) in [("<", a < b, c == Ordering::Less), ("<=", a <= b, c != Ordering::Greater), (">", a > b, c == Ordering::Greater), (">=", a >= b, c != Ordering::Less)] {
        ensure!(got == exp, "{what}: {op} says {got}, cmp says {c:?}");
    }
    if same {
        ensure!(hash_std(a) == hash_std(b), "{what}: equal values hash differently");
        ensure!(hash_of(a) == hash_of(b), "{what}: equal values hash differently");
    }
    ensure!(a == a && a.cmp(a) == Ordering::Equal, "{what}: not equal to itself");
    // copies, and what is built on comparing
    let is = |x: &T, y: &T| x == y && y == x && x.cmp(y) == Ordering::Equal && hash_std(x) == hash_std(y);
    ensure!(is(&a.clone(), a), "{what}: the first one's clone is not equal to it");
    let mut x = b.clone();
    x.clone_from(a);
    ensure!(is(&x, a), "{what}: clone_from gives a value different from its source");
    let (max, min) = if c == Ordering::Greater { (a, b) } else { (b, a) };
    ensure!(is(&a.clone().max(b.clone()), max) && is(&b.clone().max(a.clone()), max), "{what}: max does not give the greater one");
    ensure!(is(&a.clone().min(b.clone()), min) && is(&b.clone().min(a.clone()), min), "{what}: min does not give the lesser one");
    ensure!(is(&a.clone().clamp(b.clone(), b.clone()), b) && is(&a.clone().clamp(min.clone(), max.clone()), a), "{what}: clamp leaves the bounds or moves a value that is within");
    if same {
        let slices: [&[T]; 2] = [&[a.clone(), a.clone(), b.clone()], &[b.clone(), a.clone(), a.clone()]];
        ensure!(slices[0] == slices[1] && slices[0].cmp(slices[1]) == Ordering::Equal && hash_std(&slices[0]) == hash_std(&slices[1]), "{what}: slices of equal values differ or hash differently");
    }
    Ok(())
}
fn order<T: Ord>(what: &str, a: &T, b: &T, c: &T) -> Check {
    for (x, y, z) in [(a, b, c), (a, c, b), (b, a, c), (b, c, a), (c, a, b), (c, b, a)] {
        if x <= y && y <= z {
            ensure!(x <= z, "{what}: not transitive");
            if x < y || y < z {
                ensure!(x < z, "{what}: strictness is lost along a chain");
            }
        }
    }
    let mut v = [a, b, c];
    v.sort();
    ensure!(v[0] <= v[1] && v[1] <= v[2], "{what}: sorting three values does not sort them");
    Ok(())
}
/// Three values with a key that tells exactly which of them are the same.
fn triple<T: Eq + Ord + Hash + Clone, K: PartialEq>(what: &str, v: [&T; 3], k: [&K; 3]) -> Check {
    for i in 0..3 {
        for j in 0..3 {
            pair(what, v[i], v[j], k[i] == k[j])?;
        }
    }
    order(what, v[0], v[1], v[2])
}
/// Insertion into ordered and hashed maps behaves as with the keys.
fn maps<T: Eq + Ord + Hash + Clone, K: Ord + Clone>(what: &str, items: &[(T, K)]) -> Check {
    let mut bt: BTreeMap<T, usize> = BTreeMap::new();
    let mut ha: HashMap<T, usize> = HashMap::new();
    let mut re: BTreeMap<K, usize> = BTreeMap::new();
    for (i, (v, k)) in items.iter().enumerate() {
        let exp = re.insert(k.clone(), i);
        let b = bt.insert(v.clone(), i);
        ensure!(b == exp, "{what}: insertion {i} into an ordered map replaces {b:?} instead of {exp:?}");
        let h = ha.insert(v.clone(), i);
        ensure!(h == exp, "{what}: insertion {i} into a hash map replaces {h:?} instead of {exp:?}");
    }
    ensure_eq!(bt.len(), re.len(), "{what}: size of an ordered map");
    ensure_eq!(ha.len(), re.len(), "{what}: size of a hash map");
    for (v, k) in items {
        ensure_eq!(bt.get(v), re.get(k), "{what}: lookup in an ordered map");
        ensure_eq!(ha.get(v), re.get(k), "{what}: lookup in a hash map");
    }
    Ok(())
}
fn list<T: Eq + Ord + Hash + Clone + Debug>(what: &str, v: &[T], i: usize) -> Check {
    for j in 0..v.len() {
        pair(&format!("{what} {:?} and {:?}", v[i], v[j]), &v[i], &v[j], i == j)?;
        for k in 0..v.len() {
            order(&format!("{what} {:?}, {:?} and {:?}", v[i], v[j], v[k]), &v[i], &v[j], &v[k])?;
        }
    }
    Ok(())
}
/// Optional wrappers compare like options.
fn wrapped<T: Ord + Copy + Debug, W: Ord + Hash + Debug + Copy + From<Option<T>>>(what: &str, v: &[T], i: usize) -> Check {
    let o: Vec<Option<T>> = std::iter::once(None).chain(v.iter().copied().map(Some)).collect();
    let w: Vec<W> = o.iter().map(|x| W::from(*x)).collect();
    for a in [0, i + 1] {
        for j in 0..w.len() {
            ensure_eq!(w[a].cmp(&w[j]), o[a].cmp(&o[j]), "{what}: {:?} against {:?}", o[a], o[j]);
            ensure_eq!(w[a].partial_cmp(&w[j]), o[a].partial_cmp(&o[j]), "{what}: partial_cmp of {:?} against {:?}", o[a], o[j]);
            // built a second time
            pair(what, &w[a], &W::from(o[j]), a == j)?;
        }
        if a < w.len() {
            list(what, &w, a)?;
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct PosCase {
    hist: Hist,
    other: Hist,
    change: u8,
    a: u16,
    b: u16,
    salt: u64,
}

/// A position together with the model of everything observable about it.
type Known = (PartialPosition, MPos);
type KnownGame = (Position, (MPos, Vec<MMove>, MPos));

fn play(h: &Hist, salt: Option<u64>) -> Result<(Known, KnownGame), String> {
    let mut m = h.base.build();
    let mut p = match salt {
        None => build_base(&h.base, &m),
        Some(s) => build_shuffled(&m, s),
    };
    let mut init = m.clone();
    let mut g = Position::arbitrary_position(p.clone());
    let mut moves = Vec::new();
    for op in &h.ops {
        match resolve(op, &m) {
            Act::Mv(x) => {
                let ok = m.apply(x).is_ok();
                if salt.is_some() && !ok {
                    continue;
                }
                ensure_eq!(p.make_move(mv(x)).is_some(), ok, "{}", x.usi());
                ensure_eq!(g.make_move(mv(x)).is_some(), ok, "{} with history", x.usi());
                if ok {
                    moves.push(x);
                }
            }
            Act::Nop => {}
            a => {
                act_on_model(&mut m, a);
                act_on_real(&mut p, a);
                g = Position::arbitrary_position(p.clone());
                init = m.clone();
                moves.clear();
            }
        }
    }
    Ok(((p, m.clone()), (g, (init, moves, m))))
}
const CHANGES: [&str; 14] = [
    "same history again",
    "same board built along another path",
    "one square differs",
    "a hand count differs",
    "the other side to move",
    "another ply",
    "no last move",
    "same board, the last move came from elsewhere",
    "one operation less",
    "mirrored",
    "two squares swapped",
    "hands swapped",
    "unrelated",
    "same current position, another captured piece before",
];
fn changed(c: &PosCase, first: &(Known, KnownGame)) -> Result<(Known, KnownGame), String> {
    let edit = |p: PartialPosition, m: MPos| -> (Known, KnownGame) {
        let g = Position::arbitrary_position(p.clone());
        ((p, m.clone()), (g, (m.clone(), vec![], m)))
    };
    let (p, m) = (first.0 .0.clone(), first.0 .1.clone());
    Ok(match c.change % 14 {
        0 => play(&c.hist, None)?,
        1 => play(&c.hist, Some(c.salt))?,
        2 => {
            let (mut p, mut m) = (p, m);
            let a = Act::Set((c.a % 81) as u8, if c.b % 29 == 28 { NONE } else { nth_piece((c.b % 29) as usize) });
            act_on_model(&mut m, a);
            act_on_real(&mut p, a);
            edit(p, m)
        }
        3 => {
            let (mut p, mut m) = (p, m);
            let (who, k) = ((c.a % 2) as usize, (c.a / 2 % 7) as u8 + 1);
            let n = m.hands[who][k as usize];
            let a = Act::Hand(who, k, if c.b % 3 == 0 { (c.b >> 8) as u8 } else { n.wrapping_add(1 + (c.b % 2) as u8 * 254) });
            act_on_model(&mut m, a);
            act_on_real(&mut p, a);
            edit(p, m)
        }
        4 => {
            let (mut p, mut m) = (p, m);
            let a = Act::Side(1 - m.side);
            act_on_model(&mut m, a);
            act_on_real(&mut p, a);
            edit(p, m)
        }
        5 => {
            let (mut p, mut m) = (p, m);
            let a = Act::Ply(if c.a % 2 == 0 { m.ply ^ (1 << (c.b % 16)) } else { c.b });
            act_on_model(&mut m, a);
            act_on_real(&mut p, a);
            edit(p, m)
        }
        6 => {
            let mut m = m;
            m.last = None;
            if m.ply == 0 {
                m.ply = 1;
            }
            edit(build_shuffled(&m, c.salt), m)
        }
        7 | 13 => {
            // Undo the last move on the model in another way.
            let (_, (init, moves, _)) = &first.1;
            let mut before = init.clone();
            for x in &moves[..moves.len().saturating_sub(1)] {
                let _ = before.apply(*x);
            }
            match moves.last() {
                Some(&MMove::Normal { from, to, promote }) => {
                    let mut x = MMove::Normal { from, to, promote };
                    if c.change % 14 == 7 {
                        let vac: Vec<u8> = (0..81).filter(|&s| s == from || (before.board[s as usize] == NONE && s != to)).collect();
                        let from2 = vac[c.a as usize % vac.len()];
                        let piece = before.board[from as usize];
                        before.board[from as usize] = NONE;
                        before.board[from2 as usize] = piece;
                        x = MMove::Normal { from: from2, to, promote };
                    } else {
                        let t = before.board[to as usize];
                        if t != NONE {
                            let (k, w) = (kind_of(t), color_of(t));
                            if let Some(k) = unpromoted_form(k).or(promoted_form(k)) {
                                before.board[to as usize] = piece(k, w);
                            }
                        }
                    }
                    before.last = None;
                    if before.ply == 0 {
                        return play(&c.other, None);
                    }
                    let p = build_shuffled(&before, c.salt);
                    let mut g = Position::arbitrary_position(p.clone());
                    let mut q = p;
                    let mut m = before.clone();
                    m.apply(x).map_err(|e| format!("harness: {e:?}"))?;
                    ensure!(q.make_move(mv(x)).is_some() && g.make_move(mv(x)).is_some(), "{} is refused", x.usi());
                    ((q, m.clone()), (g, (before, vec![x], m)))
                }
                _ => play(&c.other, None)?,
            }
        }
        8 => {
            let mut h = c.hist.clone();
            if !h.ops.is_empty() {
                let i = c.a as usize % h.ops.len();
                h.ops.remove(i);
            }
            play(&h, None)?
        }
        9 => {
            let mut m = m.mirrored();
            m.last = None;
            if m.ply == 0 {
                m.ply = 1;
            }
            edit(build_shuffled(&m, c.salt), m)
        }
        10 => {
            let (mut p, mut m) = (p, m);
            let (x, y) = ((c.a % 81) as u8, (c.b % 81) as u8);
            let (u, v) = (m.board[x as usize], m.board[y as usize]);
            for a in [Act::Set(x, v), Act::Set(y, u)] {
                if x != y {
                    act_on_model(&mut m, a);
                    act_on_real(&mut p, a);
                }
            }
            edit(p, m)
        }
        11 => {
            let (mut p, mut m) = (p, m);
            m.hands.swap(0, 1);
            for w in 0..2 {
                set_hand(p.hand_of_a_player_mut(COLORS[w]), &m.hands[w]);
            }
            edit(p, m)
        }
        _ => play(&c.other, None)?,
    })
}

fn positions(c: &PosCase, t: &mut Tally) -> Check {
    let x = play(&c.hist, None)?;
    let y = changed(c, &x)?;
    let z = play(&c.other, None)?;
    let e = |k: &str| format!("{k} ({}): {} / {} / {}", CHANGES[c.change as usize % 14], x.0 .1.sfen(), y.0 .1.sfen(), z.0 .1.sfen());
    t.class(CHANGES[c.change as usize % 14]);
    let (sp, sg) = (x.0 .1 == y.0 .1, x.1 .1 == y.1 .1);
    t.class(if sp { "equal positions" } else { "different positions" });
    t.class(if sg { "equal histories" } else { "different histories" });
    if !sp || matches!(c.change % 14, 1 | 7 | 13) {
        t.nontrivial();
    }
    triple(&e("positions"), [&x.0 .0, &y.0 .0, &z.0 .0], [&x.0 .1, &y.0 .1, &z.0 .1])?;
    triple(&e("positions with history"), [&x.1 .0, &y.1 .0, &z.1 .0], [&x.1 .1, &y.1 .1, &z.1 .1])?;
    // with and without what is observable
    observe(&y.0 .0, &y.0 .1)?;
    observe(&x.1 .0, &x.1 .1 .2)?;
    // clones and defaults
    pair("a clone", &x.0 .0.clone(), &x.0 .0, true)?;
    pair("a clone with history", &x.1 .0.clone(), &x.1 .0, true)?;
    pair(&e("current positions of games"), x.1 .0.inner(), y.1 .0.inner(), sp)?;
    pair(&e("initial positions of games"), x.1 .0.initial_position(), y.1 .0.initial_position(), x.1 .1 .0 == y.1 .1 .0)?;
    let start = MPos::start();
    pair(&e("against the default position"), &x.0 .0, &PartialPosition::default(), x.0 .1 == start)?;
    pair(&e("against the default position with history"), &x.1 .0, &Position::default(), x.1 .1 .2 == start && x.1 .1 .0 == start && x.1 .1 .1.is_empty())?;
    Ok(())
}
fn position_maps(h: &(Hist, u64), t: &mut Tally) -> Check {
    // all positions of a game, twice, the second time built along another path when possible
    let mut m = h.0.base.build();
    let mut p = build_base(&h.0.base, &m);
    let mut g = Position::arbitrary_position(p.clone());
    let mut ps = vec![(p.clone(), key(&m))];
    let mut gs = vec![(g.clone(), (key(&m), 0usize))];
    let mut n = 0;
    for op in &h.0.ops {
        match resolve(op, &m) {
            Act::Mv(x) => {
                let ok = m.apply(x).is_ok();
                ensure_eq!(p.make_move(mv(x)).is_some(), ok, "{}", x.usi());
                ensure_eq!(g.make_move(mv(x)).is_some(), ok, "{} with history", x.usi());
                n += ok as usize;
            }
            a => {
                act_on_model(&mut m, a);
                act_on_real(&mut p, a);
                continue;
            }
        }
        ps.push((p.clone(), key(&m)));
        gs.push((g.clone(), (vec![], n)));
        if let (None, true) = (m.last, m.ply != 0) {
            ps.push((build_shuffled(&m, h.1 ^ n as u64), key(&m)));
        }
    }
    gs[0].1 = (vec![], 0);
    if n >= 2 {
        t.nontrivial();
    }
    let twice: Vec<_> = ps.iter().cloned().chain(ps.iter().rev().cloned()).collect();
    maps("positions", &twice)?;
    let twice: Vec<_> = gs.iter().cloned().chain(gs.iter().rev().cloned()).collect();
    maps("positions with history", &twice)
}
fn key(m: &MPos) -> Vec<u8> {
    let mut v = m.board.to_vec();
    v.extend(m.hands[0]);
    v.extend(m.hands[1]);
    v.push(m.side as u8);
    v.extend(m.ply.to_le_bytes());
    v.extend(m.last.map_or(0, MMove::encode).to_le_bytes());
    v
}

fn near_move(x: MMove, how: u8, a: u8) -> MMove {
    match x {
        MMove::Normal { from, to, promote } => match how % 6 {
            0 => x,
            1 => MMove::Normal { from: a % 81, to, promote },
            2 => MMove::Normal { from, to: a % 81, promote },
            3 => MMove::Normal { from, to, promote: !promote },
            4 => MMove::Normal { from: to, to: from, promote },
            _ => MMove::Drop { piece: nth_piece(a as usize), to },
        },
        MMove::Drop { piece, to } => match how % 6 {
            0 => x,
            1 => MMove::Drop { piece: nth_piece(a as usize), to },
            2 => MMove::Drop { piece, to: a % 81 },
            3 => MMove::Drop { piece: piece ^ 16, to },
            4 => MMove::Normal { from: piece, to, promote: a % 2 == 1 },
            _ => MMove::Normal { from: a % 81, to, promote: false },
        },
    }
}

pub fn c19(ctx: &mut Ctx) {
    ctx.enumerate(
        "small types, all pairs and triples",
        "every case (one value against all pairs of values of its type)",
        12 * 82,
        1,
        |n| ((n / 82) as u8, (n % 82) as u8),
        |&(ty, i): &(u8, u8), t| {
            let i = i as usize;
            let sqs: Vec<Square> = (0..81u8).map(sq).collect();
            let pieces: Vec<Piece> = all_pieces().map(pc).collect();
            let n = [81, 28, 14, 2, 5, 7, STATUSES.len(), 81, 28, 14, 5, 7][ty as usize];
            if i >= n {
                return Ok(());
            }
            t.nontrivial();
            match ty {
                0 => list("squares", &sqs, i),
                1 => list("pieces", &pieces, i),
                2 => list("kinds", &KINDS, i),
                3 => list("colours", &COLORS, i),
                4 => list("resolutions", &RESOLUTIONS, i),
                5 => list("kinds of illegal moves", &ILLEGAL, i),
                6 => list("statuses", &STATUSES, i),
                7 => wrapped::<_, OptionSquare>("optional squares", &sqs, i),
                8 => wrapped::<_, OptionPiece>("optional pieces", &pieces, i),
                9 => wrapped::<_, OptionPieceKind>("optional kinds", &KINDS, i),
                10 => wrapped::<_, OptionGameResolution>("optional resolutions", &RESOLUTIONS, i),
                _ => {
                    wrapped::<_, ResultUnitIllegalMoveKind>("results", &ILLEGAL, i)?;
                    let r = |x: Option<IllegalMoveKind>| -> Result<(), IllegalMoveKind> { x.map_or(Ok(()), Err) };
                    for j in ILLEGAL.into_iter().map(Some).chain([None]) {
                        for a in [Some(ILLEGAL[i]), None] {
                            let (x, y) = (ResultUnitIllegalMoveKind::from(r(a)), ResultUnitIllegalMoveKind::from(r(j)));
                            ensure_eq!(x.cmp(&y), r(a).cmp(&r(j)), "results {a:?} and {j:?}");
                            pair("results", &x, &y, a == j)?;
                        }
                    }
                    Ok(())
                }
            }
        },
    );
    ctx.enumerate(
        "all moves sorted",
        "one case per form: all moves together",
        3,
        1,
        |n| n as u8,
        |&form: &u8, t| {
            t.nontrivial();
            fn strictly<T: Ord + Hash + Clone>(mut v: Vec<(T, u64)>) -> Check {
                v.sort_by(|a, b| a.0.cmp(&b.0));
                for w in v.windows(2) {
                    ensure!(w[0].0 < w[1].0 && w[0].0 != w[1].0, "{} and {} are not strictly ordered", MMove::nth(w[0].1).usi(), MMove::nth(w[1].1).usi());
                }
                maps("all moves", &v)
            }
            match form {
                0 => strictly((0..MMove::COUNT).map(|n| (mv(MMove::nth(n)), n)).collect()),
                1 => strictly((0..MMove::COUNT).map(|n| (cmv(MMove::nth(n)), n)).collect()),
                _ => strictly((0..MMove::COUNT).map(|n| (OptionCompactMove::from(Some(cmv(MMove::nth(n)))), n)).chain([(OptionCompactMove::from(None), u64::MAX)]).collect()),
            }
        },
    );
    ctx.explore(
        "moves",
        "at least two of the three moves differ",
        200_000,
        30_000_000,
        || (0..MMove::COUNT, 0u8..6, any::<u8>(), 0u8..6, any::<u8>()),
        |&(n, h1, a1, h2, a2): &(u64, u8, u8, u8, u8), t| {
            let x = MMove::nth(n);
            let y = near_move(x, h1, a1);
            let z = near_move(if a2 % 2 == 0 { x } else { y }, h2, a2);
            if x != y || y != z {
                t.nontrivial();
            }
            let e = |k: &str| format!("{k} {}, {}, {}", x.usi(), y.usi(), z.usi());
            let k = [&x, &y, &z];
            triple(&e("moves"), [&mv(x), &mv(y), &mv(z)], k)?;
            triple(&e("compact moves"), [&cmv(x), &cmv(y), &cmv(z)], k)?;
            let o = |m: MMove| OptionCompactMove::from(Some(cmv(m)));
            triple(&e("optional moves"), [&o(x), &o(y), &o(z)], k)?;
            let none = OptionCompactMove::from(None);
            pair(&e("move and no move"), &o(x), &none, false)?;
            ensure_eq!(o(x).cmp(&none), Some(cmv(x)).cmp(&None), "optional move against none");
            ensure_eq!(o(x).cmp(&o(y)), Some(cmv(x)).cmp(&Some(cmv(y))), "{}", e("optional moves compare unlike options"));
            pair("converted", &compact(mv(x)), &cmv(x), true)?;
            pair("converted back", &ordinary(cmv(x)), &mv(x), true)
        },
    );
    ctx.explore(
        "sets",
        "at least two of the three sets differ",
        120_000,
        20_000_000,
        || (subset(), subset(), any::<(u8, u8, u8)>(), 0u8..16),
        |&(a, b, (how, s, u), way): &(Set81, Set81, (u8, u8, u8), u8), t| {
            let x = a.mask();
            let one = 1u128 << (s % 81);
            let y = match how % 5 {
                0 => x,
                1 => x ^ one,
                2 => x ^ one ^ (1 << (u % 81)),
                3 => Set81::ALL & !x,
                _ => x | one,
            };
            let z = b.mask();
            if x != y || y != z {
                t.nontrivial();
            }
            let e = |k: &str| format!("{k} {:?}, {:?}, {:?}", Set81::new(x), Set81::new(y), Set81::new(z));
            triple(&e("sets"), [&bb(x), &assemble(y, way), &bb(z)], [&x, &y, &z])?;
            triple(&e("sets"), [&assemble(x, way), &assemble(y, way ^ 7), &assemble(z, way)], [&x, &y, &z])?;
            // results of operations are the same values as sets built directly
            pair(&e("a result of operations"), &((bb(x) ^ bb(y)) ^ bb(y)), &bb(x), true)?;
            pair(&e("a reflected set"), &bb(x).flip().flip(), &bb(x), true)?;
            pair(&e("a complement"), &!!bb(x), &bb(x), true)?;
            let d = s % 10;
            unsafe {
                for (name, r) in [("down", bb(x).shift_down(d)), ("up", bb(x).shift_up(d)), ("left", bb(x).shift_left(d)), ("right", bb(x).shift_right(d))] {
                    pair(&e(name), &r, &assemble(members(r), way), true)?;
                }
            }
            let mut popped = bb(x);
            if let Some(q) = popped.pop() {
                pair(&e("a popped set"), &popped, &bb(x & !(1u128 << q.array_index())), true)?;
            }
            let w = |m: u128| bb(m).swap_bytes();
            triple(&e("byte-swapped sets"), [&w(x), &w(y), &w(z)], [&x, &y, &z])
        },
    );
    ctx.explore(
        "hands",
        "at least two of the three hands differ",
        120_000,
        20_000_000,
        || (prop::array::uniform7(count()), prop::array::uniform7(count()), any::<(u8, u8, u8, u8)>()),
        |(a, b, (how, i, j, v)): &([u8; 7], [u8; 7], (u8, u8, u8, u8)), t| {
            let mut x = [0u8; 8];
            x[1..].copy_from_slice(a);
            let mut z = [0u8; 8];
            z[1..].copy_from_slice(b);
            let mut y = x;
            let (i, j) = (*i as usize % 7 + 1, *j as usize % 7 + 1);
            match how % 4 {
                0 => {}
                1 => y[i] = *v,
                2 => y.swap(i, j),
                _ => {
                    y[i] = y[i].wrapping_add(1);
                    y[j] = y[j].wrapping_sub(1);
                }
            }
            if x != y || y != z {
                t.nontrivial();
            }
            let e = format!("hands {:?}, {:?}, {:?}", &x[1..], &y[1..], &z[1..]);
            triple(&e, [&hand(&x), &hand(&y), &hand(&z)], [&x, &y, &z])?;
            // along another path
            let mut h = hand(&z);
            for k in (1..=7u8).rev() {
                while h.count(kind(k)) != Some(x[k as usize]) {
                    h = h.added(kind(k)).ok_or("added")?;
                }
            }
            pair(&e, &h, &hand(&x), true)
        },
    );
    ctx.explore(
        "positions and histories",
        "the second position differs from the first or was reached along another path",
        40_000,
        6_000_000,
        || {
            (hist(base().boxed(), MIXED, 0..14), hist(base().boxed(), MIXED, 0..6), 0u8..14, any::<u16>(), any::<u16>(), any::<u64>())
                .prop_map(|(hist, other, change, a, b, salt)| PosCase { hist, other, change, a, b, salt })
        },
        positions,
    );
    ctx.explore(
        "played games",
        "the second position differs from the first or was reached along another path",
        24_000,
        4_000_000,
        || {
            (hist(play_base().boxed(), MOVES, 1..24), hist(play_base().boxed(), MOVES, 0..6), 0u8..14, any::<u16>(), any::<u16>(), any::<u64>())
                .prop_map(|(hist, other, change, a, b, salt)| PosCase { hist, other, change, a, b, salt })
        },
        positions,
    );
    ctx.explore("games as map keys", "at least two accepted moves", 10_000, 1_500_000, || (hist(play_base().boxed(), MOVES, 2..16), any::<u64>()), position_maps);
    ctx.enumerate(
        "game records",
        "every case",
        36,
        1,
        |n| ((n / 6) as u8, (n % 6) as u8),
        |&(a, b): &(u8, u8), t| {
            t.nontrivial();
            let partial = |r: u8, path: bool| {
                let mut g = PartialGame::default();
                if path {
                    g.resolve(GameResolution::Rematch);
                    g.unresolve();
                }
                if r > 0 {
                    g.resolve(RESOLUTIONS[r as usize - 1]);
                }
                g
            };
            let full = |r: u8, path: bool| {
                let mut g = Game::default();
                if path {
                    g.resolve(GameResolution::Aborted);
                    g.unresolve();
                }
                if r > 0 {
                    g.resolve(RESOLUTIONS[r as usize - 1]);
                }
                g
            };
            for path in [false, true] {
                for c in 0..6u8 {
                    triple("records", [&partial(a, path), &partial(b, !path), &partial(c, path)], [&a, &b, &c])?;
                    triple("records with history", [&full(a, path), &full(b, !path), &full(c, path)], [&a, &b, &c])?;
                }
            }
            let v: Vec<(Game, u8)> = [a, b, a, 0, 3, b].into_iter().map(|r| (full(r, r % 2 == 0), r)).collect();
            maps("records with history", &v)?;
            let v: Vec<(PartialGame, u8)> = [a, b, a, 0, 3, b].into_iter().map(|r| (partial(r, r % 2 == 0), r)).collect();
            maps("records", &v)
        },
    );
    ctx.explore(
        "values as map keys",
        "a value occurs twice and there are at least three different ones",
        40_000,
        5_000_000,
        || prop::collection::vec((0u8..40, any::<u64>()), 2..24),
        |v: &Vec<(u8, u64)>, t| {
            // few different keys, so that repeats happen
            let keys: Vec<u64> = v.iter().map(|(a, b)| if *a < 30 { *a as u64 * 977 } else { *b }).collect();
            let d: std::collections::BTreeSet<_> = keys.iter().collect();
            if d.len() >= 3 && d.len() < keys.len() {
                t.nontrivial();
            }
            let moves: Vec<_> = keys.iter().map(|&k| (mv(MMove::nth(k)), k % MMove::COUNT)).collect();
            maps("moves", &moves)?;
            let moves: Vec<_> = keys.iter().map(|&k| (cmv(MMove::nth(k)), k % MMove::COUNT)).collect();
            maps("compact moves", &moves)?;
            let sets: Vec<_> = keys.iter().map(|&k| { let m = Set81::new(mix(k) as u128 | (k as u128) << 40).mask(); (bb(m), m) }).collect();
            maps("sets", &sets)?;
            let sets: Vec<_> = sets.iter().map(|(b, m)| (b.swap_bytes(), *m)).collect();
            maps("byte-swapped sets", &sets)?;
            let hands: Vec<_> = keys.iter().map(|&k| { let mut h = [0u8; 8]; for i in 1..8 { h[i] = (k >> (3 * i)) as u8 & 7; } (hand(&h), h) }).collect();
            maps("hands", &hands)
        },
    );
}
