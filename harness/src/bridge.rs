//! Conversions between the model's numbers and shogi_core's values, and the full observation of a position.
use crate::engine::Check;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use shogi_core::c_compat::*;
use shogi_core::*;
use std::sync::OnceLock;

pub const KINDS: [PieceKind; 14] = [
    PieceKind::Pawn,
    PieceKind::Lance,
    PieceKind::Knight,
    PieceKind::Silver,
    PieceKind::Gold,
    PieceKind::Bishop,
    PieceKind::Rook,
    PieceKind::King,
    PieceKind::ProPawn,
    PieceKind::ProLance,
    PieceKind::ProKnight,
    PieceKind::ProSilver,
    PieceKind::ProBishop,
    PieceKind::ProRook,
];
pub const COLORS: [Color; 2] = [Color::Black, Color::White];
pub const STARTPOS_SFEN: &str = "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1";

pub struct Tables {
    pub sq: [Square; 81],
    pub single: [u128; 81],
    pub piece: [Option<Piece>; 32],
}
static TABLES: OnceLock<Tables> = OnceLock::new();

pub fn tables() -> &'static Tables {
    TABLES.get_or_init(|| {
        let sq: [Square; 81] = std::array::from_fn(|i| Square::new(file_of(i as u8), rank_of(i as u8)).expect("Square::new refuses a square"));
        let single: [u128; 81] = std::array::from_fn(|i| Bitboard::single(sq[i]).to_u128());
        let piece: [Option<Piece>; 32] = std::array::from_fn(|i| if valid_piece(i as u8) { Some(Piece::new(KINDS[kind_of(i as u8) as usize - 1], COLORS[color_of(i as u8)])) } else { None });
        Tables { sq, single, piece }
    })
}
#[inline]
pub fn sq(s: u8) -> Square {
    tables().sq[s as usize]
}
#[inline]
pub fn pc(p: u8) -> Piece {
    tables().piece[p as usize].unwrap()
}
/// None for 0.
#[inline]
pub fn opc(p: u8) -> Option<Piece> {
    tables().piece[p as usize]
}
#[inline]
pub fn kind(k: u8) -> PieceKind {
    KINDS[k as usize - 1]
}
pub fn mv(m: MMove) -> Move {
    match m {
        MMove::Normal { from, to, promote } => Move::Normal { from: sq(from), to: sq(to), promote },
        MMove::Drop { piece, to } => Move::Drop { piece: pc(piece), to: sq(to) },
    }
}
pub fn cmv(m: MMove) -> CompactMove {
    match m {
        MMove::Normal { from, to, promote } => CompactMove::normal(sq(from), sq(to), promote),
        MMove::Drop { piece, to } => CompactMove::drop(pc(piece), sq(to)),
    }
}
/// Bits of the 128-bit form of a set given as a mask over square numbers.
pub fn repr(mask: u128) -> u128 {
    let t = tables();
    let mut r = 0;
    let mut m = mask;
    while m != 0 {
        let i = m.trailing_zeros() as usize;
        m &= m - 1;
        r |= t.single[i];
    }
    r
}
/// A bitboard from a mask over square numbers, built without any operator under test but `|=` on singletons.
pub fn bb(mask: u128) -> Bitboard {
    unsafe { Bitboard::from_u128_unchecked(repr(mask)) }
}
/// Reads a bitboard through `contains` only.
pub fn members(b: Bitboard) -> u128 {
    let mut m = 0u128;
    for s in 0..81u8 {
        if b.contains(sq(s)) {
            m |= 1 << s;
        }
    }
    m
}
pub fn set_hand(h: &mut Hand, counts: &[u8; 8]) {
    // through the public interface: remove everything, then add
    let mut n = Hand::new();
    for k in 1..=7u8 {
        for _ in 0..counts[k as usize] {
            n = n.added(kind(k)).expect("Hand::added refused a hand piece");
        }
    }
    *h = n;
}
pub fn hand(counts: &[u8; 8]) -> Hand {
    let mut h = Hand::new();
    set_hand(&mut h, counts);
    h
}
/// The position of the model, built on an empty position in square order.
pub fn build(m: &MPos) -> PartialPosition {
    let mut p = PartialPosition::empty();
    for s in 0..81u8 {
        if m.board[s as usize] != NONE {
            p.piece_set(sq(s), opc(m.board[s as usize]));
        }
    }
    for c in 0..2 {
        if m.hands[c] != [0; 8] {
            set_hand(p.hand_of_a_player_mut(COLORS[c]), &m.hands[c]);
        }
    }
    p.side_to_move_set(COLORS[m.side]);
    if m.ply != 1 {
        let _ = p.ply_set(m.ply);
    }
    p
}
/// The real position of a base (the starting position is the library's own).
pub fn build_base(b: &Base, m: &MPos) -> PartialPosition {
    match b {
        Base::Start => PartialPosition::startpos(),
        Base::Empty => PartialPosition::empty(),
        _ => build(m),
    }
}
pub fn act_on_real(p: &mut PartialPosition, a: Act) {
    match a {
        Act::Nop | Act::Mv(_) => {}
        Act::Set(s, q) => p.piece_set(sq(s), opc(q)),
        Act::Hand(c, k, v) => {
            let h = p.hand_of_a_player_mut(COLORS[c]);
            while h.count(kind(k)).expect("count") > v {
                *h = h.removed(kind(k)).expect("removed");
            }
            while h.count(kind(k)).expect("count") < v {
                *h = h.added(kind(k)).expect("added");
            }
        }
        Act::Side(s) => p.side_to_move_set(COLORS[s]),
        Act::Ply(n) => {
            let _ = p.ply_set(n);
        }
    }
}

/// Everything that can be asked of a position, over its different surfaces.
pub trait View {
    fn v_side(&self) -> Color;
    fn v_ply(&self) -> u16;
    fn v_hand_of(&self, c: Color) -> Hand;
    fn v_hand(&self, p: Piece) -> Option<u8>;
    fn v_at(&self, s: Square) -> Option<Piece>;
    fn v_player(&self, c: Color) -> Bitboard;
    fn v_piece(&self, p: Piece) -> Bitboard;
    fn v_kind(&self, k: PieceKind) -> Bitboard;
    fn v_occ(&self) -> Bitboard;
    fn v_vac(&self) -> Bitboard;
    fn v_last(&self) -> Option<Move>;
    fn v_last_c(&self) -> Option<CompactMove>;
    fn v_king(&self, c: Color) -> Option<Square>;
    fn v_sfen(&self) -> String;
}
impl View for PartialPosition {
    fn v_side(&self) -> Color {
        self.side_to_move()
    }
    fn v_ply(&self) -> u16 {
        self.ply()
    }
    fn v_hand_of(&self, c: Color) -> Hand {
        self.hand_of_a_player(c)
    }
    fn v_hand(&self, p: Piece) -> Option<u8> {
        self.hand(p)
    }
    fn v_at(&self, s: Square) -> Option<Piece> {
        self.piece_at(s)
    }
    fn v_player(&self, c: Color) -> Bitboard {
        self.player_bitboard(c)
    }
    fn v_piece(&self, p: Piece) -> Bitboard {
        self.piece_bitboard(p)
    }
    fn v_kind(&self, k: PieceKind) -> Bitboard {
        self.piece_kind_bitboard(k)
    }
    fn v_occ(&self) -> Bitboard {
        self.occupied_bitboard()
    }
    fn v_vac(&self) -> Bitboard {
        self.vacant_bitboard()
    }
    fn v_last(&self) -> Option<Move> {
        self.last_move()
    }
    fn v_last_c(&self) -> Option<CompactMove> {
        self.last_compact_move()
    }
    fn v_king(&self, c: Color) -> Option<Square> {
        self.king_position(c)
    }
    fn v_sfen(&self) -> String {
        self.to_sfen_owned()
    }
}
impl View for Position {
    fn v_side(&self) -> Color {
        self.side_to_move()
    }
    fn v_ply(&self) -> u16 {
        self.ply()
    }
    fn v_hand_of(&self, c: Color) -> Hand {
        self.hand_of_a_player(c)
    }
    fn v_hand(&self, p: Piece) -> Option<u8> {
        self.hand(p)
    }
    fn v_at(&self, s: Square) -> Option<Piece> {
        self.piece_at(s)
    }
    fn v_player(&self, c: Color) -> Bitboard {
        self.player_bitboard(c)
    }
    fn v_piece(&self, p: Piece) -> Bitboard {
        self.piece_bitboard(p)
    }
    fn v_kind(&self, k: PieceKind) -> Bitboard {
        self.inner().piece_kind_bitboard(k)
    }
    fn v_occ(&self) -> Bitboard {
        self.occupied_bitboard()
    }
    fn v_vac(&self) -> Bitboard {
        self.vacant_bitboard()
    }
    fn v_last(&self) -> Option<Move> {
        self.last_move()
    }
    fn v_last_c(&self) -> Option<CompactMove> {
        self.last_compact_move()
    }
    fn v_king(&self, c: Color) -> Option<Square> {
        self.inner().king_position(c)
    }
    fn v_sfen(&self) -> String {
        self.to_sfen_owned()
    }
}
/// The C-style accessors that exist as Rust functions.
pub fn c_accessors(p: &PartialPosition, m: &MPos) -> Check {
    for s in 0..81u8 {
        let got: Option<Piece> = p.PartialPosition_piece_at(sq(s)).into();
        ensure_eq!(got, opc(m.board[s as usize]), "C-style piece_at({})", usi_square(s));
    }
    let got: Option<CompactMove> = p.PartialPosition_last_compact_move().into();
    ensure_eq!(got, m.last.map(cmv), "C-style last_compact_move");
    Ok(())
}
pub fn c_accessors_pos(p: &Position, m: &MPos) -> Check {
    for s in 0..81u8 {
        let got: Option<Piece> = p.Position_piece_at(sq(s)).into();
        ensure_eq!(got, opc(m.board[s as usize]), "C-style piece_at({}) with history", usi_square(s));
    }
    let got: Option<CompactMove> = p.Position_last_compact_move().into();
    ensure_eq!(got, m.last.map(cmv), "C-style last_compact_move with history");
    let _: OptionPiece = p.Position_piece_at(sq(0));
    Ok(())
}

pub fn hands_of(v: &impl View) -> Result<[[u8; 8]; 2], String> {
    let mut out = [[0u8; 8]; 2];
    for c in 0..2 {
        let h = v.v_hand_of(COLORS[c]);
        for k in 1..=14u8 {
            let n = h.count(kind(k));
            if k <= 7 {
                out[c][k as usize] = n.ok_or_else(|| format!("count({:?}) is None", kind(k)))?;
            } else {
                ensure!(n.is_none(), "count({:?}) is {:?}", kind(k), n);
            }
        }
    }
    Ok(out)
}

/// Side, ply, hands, last move.
pub fn observe_rest(v: &impl View, m: &MPos) -> Check {
    ensure_eq!(v.v_side(), COLORS[m.side], "side to move");
    ensure_eq!(v.v_ply(), m.ply, "ply");
    let h = hands_of(v)?;
    ensure_eq!(h, m.hands, "hands");
    for p in all_pieces() {
        let exp = if is_hand_kind(kind_of(p)) { Some(m.hands[color_of(p)][kind_of(p) as usize]) } else { None };
        ensure_eq!(v.v_hand(pc(p)), exp, "hand({})", usi_piece(p));
    }
    ensure_eq!(v.v_last(), m.last.map(mv), "last move");
    ensure_eq!(v.v_last_c(), m.last.map(cmv), "last compact move");
    Ok(())
}
fn fmt_set(x: u128) -> String {
    let t = tables();
    let mut left = x;
    let mut v = Vec::new();
    for s in 0..81u8 {
        if x & t.single[s as usize] != 0 {
            v.push(usi_square(s));
            left &= !t.single[s as usize];
        }
    }
    format!("{{{}}}{}", v.join(","), if left != 0 { format!(" plus invalid bits {left:#x}") } else { String::new() })
}
/// Every square and every set view.
pub fn observe_board(v: &impl View, m: &MPos) -> Check {
    let t = tables();
    let mut by_piece = [0u128; 32];
    let mut all = 0u128;
    for s in 0..81usize {
        let exp = m.board[s];
        let got = v.v_at(t.sq[s]);
        ensure!(got == t.piece[exp as usize], "piece_at({}): got {:?}, expected {:?}", usi_square(s as u8), got, if exp == NONE { "none".to_string() } else { usi_piece(exp) });
        if exp != NONE {
            by_piece[exp as usize] |= t.single[s];
        }
        all |= t.single[s];
    }
    let mut players = [0u128; 2];
    for k in 1..=14u8 {
        let (b, w) = (by_piece[k as usize], by_piece[k as usize + 16]);
        players[0] |= b;
        players[1] |= w;
        for (c, e) in [(0, b), (1, w)] {
            let got = v.v_piece(t.piece[piece(k, c) as usize].unwrap()).to_u128();
            ensure!(got == e, "set of {}: got {}, expected {}", usi_piece(piece(k, c)), fmt_set(got), fmt_set(e));
        }
        let got = v.v_kind(kind(k)).to_u128();
        ensure!(got == b | w, "set of kind {}: got {}, expected {}", usi_kind(k), fmt_set(got), fmt_set(b | w));
    }
    for c in 0..2 {
        let got = v.v_player(COLORS[c]).to_u128();
        ensure!(got == players[c], "set of {:?}: got {}, expected {}", COLORS[c], fmt_set(got), fmt_set(players[c]));
    }
    let occ = players[0] | players[1];
    let got = v.v_occ().to_u128();
    ensure!(got == occ, "occupied set: got {}, expected {}", fmt_set(got), fmt_set(occ));
    let got = v.v_vac().to_u128();
    ensure!(got == all & !occ, "vacant set: got {}, expected {}", fmt_set(got), fmt_set(all & !occ));
    Ok(())
}
/// King locations: none without a king, a king's square otherwise.
pub fn observe_kings(v: &impl View, m: &MPos) -> Check {
    for c in 0..2 {
        let got = v.v_king(COLORS[c]);
        let mut first = None;
        let mut hit = false;
        for s in 0..81u8 {
            if m.board[s as usize] == piece(KING, c) {
                first = Some(s);
                if got == Some(sq(s)) {
                    hit = true;
                }
            }
        }
        match first {
            None => ensure!(got.is_none(), "{:?} has no king on the board but its king is reported on {:?}", COLORS[c], got.map(|s| s.to_usi_owned())),
            Some(f) => ensure!(hit, "the {:?} king is reported on {:?}, but kings are on {}...", COLORS[c], got.map(|s| s.to_usi_owned()), usi_square(f)),
        }
    }
    Ok(())
}
pub fn observe(v: &impl View, m: &MPos) -> Check {
    observe_rest(v, m)?;
    observe_board(v, m)?;
    observe_kings(v, m)
}
pub fn observe_sfen(v: &impl View, m: &MPos) -> Check {
    ensure_eq!(v.v_sfen(), m.sfen(), "SFEN");
    Ok(())
}
pub fn ctx_err(m: &MPos, what: impl std::fmt::Display, e: String) -> String {
    format!("{e}\n  at: {} (last move {}), operation: {what}", m.sfen(), m.last.map_or("none".into(), |x| x.usi()))
}
pub fn hash_std<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// `Move::from` and `CompactMove::from` are inherent methods (the source square), hence these.
pub fn compact(m: Move) -> CompactMove {
    m.into()
}
pub fn ordinary(c: CompactMove) -> Move {
    c.into()
}
