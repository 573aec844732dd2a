//! Relocation kinds per ELF machine: (e_machine, class, byte order, entries), taken from the
//! psABI documents: type number, kind, encoding, size in bits.
use object::read::*;
pub type Row = (u16, &'static str, &'static str, &'static [(u32, RelocationKind, RelocationEncoding, u8)]);
use RelocationEncoding as E;
use RelocationKind as K;
#[rustfmt::skip]
pub const TABLE: &[Row] = &[
    (2, "*", "*", &[(0, K::None, E::Generic, 0), (3, K::Absolute, E::Generic, 32), (23, K::Absolute, E::Generic, 32), (32, K::Absolute, E::Generic, 64), (54, K::Absolute, E::Generic, 64)]),
    (3, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (2, K::Relative, E::Generic, 32), (3, K::Got, E::Generic, 32), (4, K::PltRelative, E::Generic, 32), (9, K::GotBaseOffset, E::Generic, 32), (10, K::GotBaseRelative, E::Generic, 32), (20, K::Absolute, E::Generic, 16), (21, K::Relative, E::Generic, 16), (22, K::Absolute, E::Generic, 8), (23, K::Relative, E::Generic, 8)]),
    (4, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (2, K::Absolute, E::Generic, 16), (3, K::Absolute, E::Generic, 8), (4, K::Relative, E::Generic, 32), (5, K::Relative, E::Generic, 16), (6, K::Relative, E::Generic, 8), (7, K::GotRelative, E::Generic, 32), (8, K::GotRelative, E::Generic, 16), (9, K::GotRelative, E::Generic, 8), (10, K::Got, E::Generic, 32), (11, K::Got, E::Generic, 16), (12, K::Got, E::Generic, 8), (13, K::PltRelative, E::Generic, 32), (14, K::PltRelative, E::Generic, 16), (15, K::PltRelative, E::Generic, 8)]),
    (8, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 16), (2, K::Absolute, E::Generic, 32), (18, K::Absolute, E::Generic, 64)]),
    (15, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (9, K::Relative, E::Generic, 32)]),
    (18, "*", "*", &[(0, K::None, E::Generic, 0), (3, K::Absolute, E::Generic, 32), (23, K::Absolute, E::Generic, 32), (32, K::Absolute, E::Generic, 64), (54, K::Absolute, E::Generic, 64)]),
    (20, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32)]),
    (21, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (38, K::Absolute, E::Generic, 64)]),
    (22, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 8), (3, K::Absolute, E::Generic, 16), (4, K::Absolute, E::Generic, 32), (5, K::Relative, E::Generic, 32), (7, K::Got, E::Generic, 32), (13, K::GotBaseOffset, E::Generic, 32), (14, K::GotBaseRelative, E::Generic, 64), (15, K::Got, E::Generic, 16), (16, K::Relative, E::Generic, 16), (17, K::Relative, E::S390xDbl, 16), (18, K::PltRelative, E::S390xDbl, 16), (19, K::Relative, E::S390xDbl, 32), (20, K::PltRelative, E::S390xDbl, 32), (21, K::GotBaseRelative, E::S390xDbl, 32), (22, K::Absolute, E::Generic, 64), (23, K::Relative, E::Generic, 64), (24, K::Got, E::Generic, 64), (26, K::GotRelative, E::S390xDbl, 32), (27, K::GotBaseOffset, E::Generic, 16), (28, K::GotBaseOffset, E::Generic, 64)]),
    (40, "*", "*", &[(0, K::None, E::Generic, 0), (2, K::Absolute, E::Generic, 32)]),
    (42, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (2, K::Relative, E::Generic, 32)]),
    (43, "*", "*", &[(0, K::None, E::Generic, 0), (3, K::Absolute, E::Generic, 32), (23, K::Absolute, E::Generic, 32), (32, K::Absolute, E::Generic, 64), (54, K::Absolute, E::Generic, 64)]),
    (50, "*", "le", &[(0, K::None, E::Generic, 0), (36, K::Absolute, E::Unknown, 32), (37, K::Absolute, E::Generic, 32), (38, K::Absolute, E::Unknown, 64), (39, K::Absolute, E::Generic, 64), (76, K::Relative, E::Unknown, 32), (77, K::Relative, E::Generic, 32), (78, K::Relative, E::Unknown, 64), (79, K::Relative, E::Generic, 64)]),
    (50, "*", "be", &[(0, K::None, E::Generic, 0), (36, K::Absolute, E::Generic, 32), (37, K::Absolute, E::Unknown, 32), (38, K::Absolute, E::Generic, 64), (39, K::Absolute, E::Unknown, 64), (76, K::Relative, E::Generic, 32), (77, K::Relative, E::Unknown, 32), (78, K::Relative, E::Generic, 64), (79, K::Relative, E::Unknown, 64)]),
    (62, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 64), (2, K::Relative, E::Generic, 32), (3, K::Got, E::Generic, 32), (4, K::PltRelative, E::X86Branch, 32), (9, K::GotRelative, E::Generic, 32), (10, K::Absolute, E::Generic, 32), (11, K::Absolute, E::X86Signed, 32), (12, K::Absolute, E::Generic, 16), (13, K::Relative, E::Generic, 16), (14, K::Absolute, E::Generic, 8), (15, K::Relative, E::Generic, 8), (41, K::GotRelative, E::Unknown, 32), (42, K::GotRelative, E::Unknown, 32)]),
    (83, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (4, K::Absolute, E::Generic, 16)]),
    (94, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (14, K::Relative, E::Generic, 32)]),
    (105, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (5, K::Absolute, E::Generic, 16)]),
    (133, "*", "*", &[(11, K::Absolute, E::SharcTypeA, 24), (12, K::Absolute, E::SharcTypeA, 32), (13, K::Absolute, E::Generic, 32), (14, K::Relative, E::SharcTypeA, 6), (15, K::Relative, E::SharcTypeA, 24), (16, K::Absolute, E::SharcTypeA, 6), (17, K::Absolute, E::SharcTypeA, 16), (18, K::Absolute, E::SharcTypeB, 6), (19, K::Absolute, E::SharcTypeB, 7), (20, K::Absolute, E::SharcTypeB, 16), (23, K::Relative, E::SharcTypeB, 16), (25, K::Absolute, E::Generic, 16)]),
    (164, "*", "*", &[(0, K::None, E::Generic, 0), (6, K::Absolute, E::Generic, 32)]),
    (175, "*", "*", &[(0, K::Absolute, E::Generic, 32), (50, K::Absolute, E::Generic, 64), (51, K::Absolute, E::E2KLit, 64), (108, K::Got, E::Generic, 32), (110, K::Relative, E::E2KDisp, 28), (112, K::None, E::Generic, 0)]),
    (183, "64", "*", &[(0, K::None, E::Generic, 0), (257, K::Absolute, E::Generic, 64), (258, K::Absolute, E::Generic, 32), (259, K::Absolute, E::Generic, 16), (260, K::Relative, E::Generic, 64), (261, K::Relative, E::Generic, 32), (262, K::Relative, E::Generic, 16), (283, K::PltRelative, E::AArch64Call, 26)]),
    (183, "32", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32)]),
    (243, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (2, K::Absolute, E::Generic, 64)]),
    (247, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 64), (10, K::Absolute, E::Generic, 32)]),
    (252, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (5, K::Relative, E::Generic, 32)]),
    (258, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (2, K::Absolute, E::Generic, 64), (64, K::Relative, E::LoongArchBranch, 16), (65, K::Relative, E::LoongArchBranch, 21), (66, K::Relative, E::LoongArchBranch, 26), (99, K::Relative, E::Generic, 32), (109, K::Relative, E::Generic, 64)]),
    (263, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 64), (10, K::Absolute, E::Generic, 32)]),
    (36902, "*", "*", &[(0, K::None, E::Generic, 0), (1, K::Absolute, E::Generic, 32), (2, K::Absolute, E::Generic, 64), (9, K::Relative, E::Generic, 16), (10, K::Relative, E::Generic, 32), (11, K::Relative, E::Generic, 64)]),
];
pub fn meaning(machine: u16, w: bool, be: bool, ty: u32) -> (RelocationKind, RelocationEncoding, u8) {
    for (m, c, e, ents) in TABLE {
        if *m == machine && (*c == "*" || (*c == "64") == w) && (*e == "*" || (*e == "be") == be) {
            for x in *ents {
                if x.0 == ty {
                    return (x.1, x.2, x.3);
                }
            }
        }
    }
    (K::Unknown, E::Unknown, 0)
}
