//! The comparisons C19 is about exist for every type: built only when the harness itself does not build, to tell why.
use shogi_core::c_compat::*;
use shogi_core::*;

#[cfg(not(feature = "all"))]
fn compared<T: Eq + Clone>() {}
#[cfg(feature = "all")]
fn compared<T: Eq + Clone + Ord + core::hash::Hash>() {}

pub fn all() {
    compared::<Color>();
    compared::<Square>();
    compared::<PieceKind>();
    compared::<Piece>();
    compared::<Move>();
    compared::<CompactMove>();
    compared::<Hand>();
    compared::<Bitboard>();
    compared::<ByteSwappedBitboard>();
    compared::<GameResolution>();
    compared::<PartialGame>();
    compared::<PartialPosition>();
    compared::<Game>();
    compared::<Position>();
    compared::<IllegalMoveKind>();
    compared::<PositionStatus>();
    compared::<OptionPieceKind>();
    compared::<OptionPiece>();
    compared::<OptionSquare>();
    compared::<OptionCompactMove>();
    compared::<OptionGameResolution>();
    compared::<ResultUnitIllegalMoveKind>();
}
