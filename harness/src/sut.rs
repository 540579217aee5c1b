//! Thin adapter between the model's types and yasai's public API.

use crate::model::*;
use shogi_core::{Color, Hand, Move, PartialPosition, Piece, PieceKind, Square};
pub use yasai::Position;

pub fn col(c: u8) -> Color {
    if c == BLACK {
        Color::Black
    } else {
        Color::White
    }
}
pub fn uncol(c: Color) -> u8 {
    match c {
        Color::Black => BLACK,
        Color::White => WHITE,
    }
}
const KINDS: [PieceKind; 14] = [
    PieceKind::Pawn,
    PieceKind::Lance,
    PieceKind::Knight,
    PieceKind::Silver,
    PieceKind::Gold,
    PieceKind::Bishop,
    PieceKind::Rook,
    PieceKind::King,
    PieceKind::ProPawn,
    PieceKind::ProLance,
    PieceKind::ProKnight,
    PieceKind::ProSilver,
    PieceKind::ProBishop,
    PieceKind::ProRook,
];
pub fn knd(k: u8) -> PieceKind {
    KINDS[k as usize - 1]
}
pub fn unknd(k: PieceKind) -> u8 {
    KINDS.iter().position(|&x| x == k).unwrap() as u8 + 1
}
pub fn pc(p: u8) -> Piece {
    Piece::new(knd(kind(p)), col(color(p)))
}
pub fn unpc(p: Piece) -> u8 {
    piece(unknd(p.piece_kind()), uncol(p.color()))
}
pub fn square(s: u8) -> Square {
    Square::new((s / 9) + 1, (s % 9) + 1).unwrap()
}
/// None when the library handed out a square that is not on the board.
pub fn unsquare(s: Square) -> Option<u8> {
    let i = s.index();
    if (1..=81).contains(&i) {
        Some(i - 1)
    } else {
        None
    }
}
pub fn to_move(m: Mv, side: u8) -> Move {
    if m.is_drop() {
        Move::Drop {
            piece: pc(piece(m.drop_kind(), side)),
            to: square(m.to),
        }
    } else {
        Move::Normal {
            from: square(m.from),
            to: square(m.to),
            promote: m.promote,
        }
    }
}
/// Err describes a move that is not even well formed for `side`.
pub fn from_move(m: Move, side: u8) -> Result<Mv, String> {
    match m {
        Move::Normal { from, to, promote } => match (unsquare(from), unsquare(to)) {
            (Some(from), Some(to)) => Ok(Mv { from, to, promote }),
            _ => Err(format!(
                "move with a square off the board: from index {} to index {}",
                from.index(),
                to.index()
            )),
        },
        Move::Drop { piece: p, to } => {
            let q = unpc(p);
            match unsquare(to) {
                Some(to) if color(q) == side && (1..=7).contains(&kind(q)) => {
                    Ok(Mv::drop(kind(q), to))
                }
                Some(_) => Err(format!("drop of a piece the mover cannot hold: {p:?}")),
                None => Err(format!("drop on square index {}", to.index())),
            }
        }
    }
}

pub fn to_partial(p: &MPos) -> PartialPosition {
    let mut pp = PartialPosition::empty();
    for s in 0..81u8 {
        if p.board[s as usize] != 0 {
            pp.piece_set(square(s), Some(pc(p.board[s as usize])));
        }
    }
    for c in [BLACK, WHITE] {
        let h = pp.hand_of_a_player_mut(col(c));
        for k in 1..=7u8 {
            for _ in 0..p.hands[c as usize][k as usize] {
                *h = h.added(knd(k)).unwrap();
            }
        }
    }
    pp.side_to_move_set(col(p.side));
    assert!(pp.ply_set(p.ply));
    pp
}
pub fn make(p: &MPos) -> Position {
    Position::new(to_partial(p))
}
pub fn hand_counts(h: Hand) -> [u8; 8] {
    let mut n = [0; 8];
    for k in 1..=7u8 {
        n[k as usize] = h.count(knd(k)).unwrap();
    }
    n
}
/// Placement as reported by the library's accessors.
pub fn read(p: &Position) -> MPos {
    let mut m = MPos::empty();
    for s in 0..81u8 {
        m.board[s as usize] = p.piece_at(square(s)).map_or(0, unpc);
    }
    m.hands = [
        hand_counts(p.hand(Color::Black)),
        hand_counts(p.hand(Color::White)),
    ];
    m.side = uncol(p.side_to_move());
    m.ply = p.ply();
    m
}
/// Legal moves as a sorted list; Err on malformed or duplicated moves.
pub fn legal(p: &Position) -> Result<Vec<Mv>, String> {
    let side = uncol(p.side_to_move());
    let mut v = Vec::with_capacity(128);
    for m in p.legal_moves() {
        v.push(from_move(m, side)?);
    }
    v.sort_unstable();
    if let Some(w) = v.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("move {} is listed twice", w[0].usi()));
    }
    Ok(v)
}
/// Everything an API user can see of a position, apart from the order in
/// which moves are listed.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Obs {
    pub pos: MPos,
    pub key: u64,
    pub keys: (u64, u64),
    pub in_check: bool,
    pub moves: Vec<(Mv, bool)>,
}
pub fn observe(p: &Position) -> Result<Obs, String> {
    let pos = read(p);
    let moves = legal(p)?
        .into_iter()
        .map(|m| (m, p.is_check_move(to_move(m, pos.side))))
        .collect();
    Ok(Obs {
        key: p.key(),
        keys: p.keys(),
        in_check: p.in_check(),
        moves,
        pos,
    })
}
impl Obs {
    pub fn diff(&self, o: &Obs) -> Option<String> {
        if let Some(d) = diff_pos(&self.pos, &o.pos) {
            return Some(d);
        }
        if self.keys != o.keys || self.key != o.key {
            return Some(format!(
                "keys {:x?}/{:x} vs {:x?}/{:x}",
                self.keys, self.key, o.keys, o.key
            ));
        }
        if self.in_check != o.in_check {
            return Some(format!("in_check {} vs {}", self.in_check, o.in_check));
        }
        diff_moves_flags(&self.moves, &o.moves)
    }
}
pub fn diff_moves_flags(a: &[(Mv, bool)], b: &[(Mv, bool)]) -> Option<String> {
    if a == b {
        return None;
    }
    let f = |x: &[(Mv, bool)], y: &[(Mv, bool)]| -> Vec<String> {
        x.iter()
            .filter(|m| !y.contains(m))
            .map(|(m, c)| format!("{}{}", m.usi(), if *c { "(check)" } else { "" }))
            .collect()
    };
    Some(format!("only first: {:?}; only second: {:?}", f(a, b), f(b, a)))
}
pub fn diff_pos(a: &MPos, b: &MPos) -> Option<String> {
    if a == b {
        None
    } else {
        Some(format!("position '{}' vs '{}'", a.sfen(), b.sfen()))
    }
}
pub fn diff_moves(lib: &[Mv], model: &[Mv]) -> Option<String> {
    if lib == model {
        return None;
    }
    let extra: Vec<String> = lib
        .iter()
        .filter(|m| model.binary_search(m).is_err())
        .map(|m| m.usi())
        .collect();
    let missing: Vec<String> = model
        .iter()
        .filter(|m| lib.binary_search(m).is_err())
        .map(|m| m.usi())
        .collect();
    Some(format!("illegal moves listed {extra:?}, legal moves missing {missing:?}"))
}
