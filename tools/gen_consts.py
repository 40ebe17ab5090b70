#!/usr/bin/env python3
# Writes harness/src/consts_list.rs: the named constants of shogi_core, in the model's numbering.
L="ABCDEFGHI"
out=["//! Generated by tools/gen_consts.py.","use shogi_core::consts::{piece, square};","use shogi_core::{Piece, Square};","","pub const SQUARES: [(Square, Square); 81] = ["]
for f in range(1,10):
    for r in L:
        out.append(f"    (Square::SQ_{f}{r}, square::SQ_{f}{r}),")
out+=["];","","/// (colour, kind, constants)","pub const PIECES: [(usize, u8, Piece, Piece); 28] = ["]
for c,C in enumerate("BW"):
    for k,n in enumerate("P L N S G B R K PP PL PN PS PB PR".split()):
        out.append(f"    ({c}, {k+1}, Piece::{C}_{n}, piece::{C}_{n}),")
out.append("];")
open(__file__.rsplit("/",2)[0]+"/harness/src/consts_list.rs","w").write("\n".join(out)+"\n")
