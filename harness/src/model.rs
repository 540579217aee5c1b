//! Reference model of shogi: a deliberately naive mailbox implementation,
//! written from the rules of the game and sharing no code with yasai.
//!
//! Squares are numbered `(file-1)*9 + (rank-1)`, the numbering of
//! `shogi_core::Square::array_index`. A board cell is 0 (vacant) or a piece
//! code: kind 1..=14, plus 16 when it belongs to White.

pub const P: u8 = 1;
pub const L: u8 = 2;
pub const N: u8 = 3;
pub const S: u8 = 4;
pub const G: u8 = 5;
pub const B: u8 = 6;
pub const R: u8 = 7;
pub const K: u8 = 8;
pub const PP: u8 = 9;
pub const PL: u8 = 10;
pub const PN: u8 = 11;
pub const PS: u8 = 12;
pub const PB: u8 = 13;
pub const PR: u8 = 14;

pub const BLACK: u8 = 0;
pub const WHITE: u8 = 1;

/// Number of pieces of each unpromoted kind in a full set.
pub const FULL: [u8; 9] = [0, 18, 4, 4, 4, 4, 2, 2, 2];

#[inline]
pub fn kind(p: u8) -> u8 {
    p & 15
}
#[inline]
pub fn color(p: u8) -> u8 {
    p >> 4
}
#[inline]
pub fn piece(k: u8, c: u8) -> u8 {
    k | (c << 4)
}
pub fn promote(k: u8) -> Option<u8> {
    match k {
        P => Some(PP),
        L => Some(PL),
        N => Some(PN),
        S => Some(PS),
        B => Some(PB),
        R => Some(PR),
        _ => None,
    }
}
pub fn unpromote(k: u8) -> u8 {
    match k {
        PP => P,
        PL => L,
        PN => N,
        PS => S,
        PB => B,
        PR => R,
        k => k,
    }
}
#[inline]
pub fn file(s: u8) -> i8 {
    (s / 9) as i8 + 1
}
#[inline]
pub fn rank(s: u8) -> i8 {
    (s % 9) as i8 + 1
}
#[inline]
pub fn sq(f: i8, r: i8) -> Option<u8> {
    if (1..=9).contains(&f) && (1..=9).contains(&r) {
        Some(((f - 1) * 9 + (r - 1)) as u8)
    } else {
        None
    }
}
/// Rank as seen by colour `c`: 1 is the far edge of the board.
#[inline]
pub fn rel_rank(s: u8, c: u8) -> i8 {
    if c == BLACK {
        rank(s)
    } else {
        10 - rank(s)
    }
}

// (file delta, rank delta) as seen by Black: forward is rank -1.
const GOLD: &[(i8, i8)] = &[(0, -1), (-1, -1), (1, -1), (-1, 0), (1, 0), (0, 1)];
const SILVER: &[(i8, i8)] = &[(0, -1), (-1, -1), (1, -1), (-1, 1), (1, 1)];
const KNIGHT: &[(i8, i8)] = &[(-1, -2), (1, -2)];
const PAWN: &[(i8, i8)] = &[(0, -1)];
const ORTH: &[(i8, i8)] = &[(0, -1), (0, 1), (-1, 0), (1, 0)];
const DIAG: &[(i8, i8)] = &[(-1, -1), (-1, 1), (1, -1), (1, 1)];
const KING: &[(i8, i8)] = &[
    (0, -1),
    (0, 1),
    (-1, 0),
    (1, 0),
    (-1, -1),
    (-1, 1),
    (1, -1),
    (1, 1),
];
const NONE: &[(i8, i8)] = &[];

/// Single steps and slides of a piece kind, from Black's point of view.
pub fn moves_of(k: u8) -> (&'static [(i8, i8)], &'static [(i8, i8)]) {
    match k {
        P => (PAWN, NONE),
        L => (NONE, PAWN),
        N => (KNIGHT, NONE),
        S => (SILVER, NONE),
        G | PP | PL | PN | PS => (GOLD, NONE),
        B => (NONE, DIAG),
        R => (NONE, ORTH),
        K => (KING, NONE),
        PB => (ORTH, DIAG),
        PR => (DIAG, ORTH),
        _ => unreachable!("bad piece kind {k}"),
    }
}

/// What a piece code can do to a square at a given offset: 0 nothing,
/// 1 a step, 2 a slide.
struct Reach([[u8; 17 * 17]; 32]);

fn reach() -> &'static Reach {
    use std::sync::OnceLock;
    static R_: OnceLock<Box<Reach>> = OnceLock::new();
    R_.get_or_init(|| {
        let mut t = Box::new(Reach([[0; 17 * 17]; 32]));
        for c in [BLACK, WHITE] {
            for k in 1..=14u8 {
                let (steps, slides) = moves_of(k);
                let sign = if c == BLACK { 1 } else { -1 };
                for &(df, dr) in steps {
                    let (df, dr) = (df * sign, dr * sign);
                    t.0[piece(k, c) as usize][off(df, dr)] = 1;
                }
                for &(df, dr) in slides {
                    for d in 1..=8 {
                        let (df, dr) = (df * sign * d, dr * sign * d);
                        t.0[piece(k, c) as usize][off(df, dr)] = 2;
                    }
                }
            }
        }
        t
    })
}
#[inline]
fn off(df: i8, dr: i8) -> usize {
    ((df + 8) as usize) * 17 + (dr + 8) as usize
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Mv {
    /// Origin square, or 81 + kind for a drop.
    pub from: u8,
    pub to: u8,
    pub promote: bool,
}

impl Mv {
    #[inline]
    pub fn is_drop(self) -> bool {
        self.from > 81
    }
    #[inline]
    pub fn drop_kind(self) -> u8 {
        self.from - 81
    }
    #[inline]
    pub fn drop(k: u8, to: u8) -> Mv {
        Mv {
            from: 81 + k,
            to,
            promote: false,
        }
    }
    pub fn usi(self) -> String {
        if self.is_drop() {
            format!("{}*{}", LETTERS[self.drop_kind() as usize] as char, sqs(self.to))
        } else {
            format!(
                "{}{}{}",
                sqs(self.from),
                sqs(self.to),
                if self.promote { "+" } else { "" }
            )
        }
    }
    pub fn parse(s: &str) -> Option<Mv> {
        let b = s.as_bytes();
        if b.len() < 4 {
            return None;
        }
        let p = |i: usize| sq(b[i] as i8 - b'0' as i8, b[i + 1] as i8 - b'a' as i8 + 1);
        if b[1] == b'*' {
            let k = LETTERS.iter().position(|&c| c == b[0])? as u8;
            Some(Mv::drop(k, p(2)?))
        } else {
            Some(Mv {
                from: p(0)?,
                to: p(2)?,
                promote: b.len() > 4 && b[4] == b'+',
            })
        }
    }
}

const LETTERS: &[u8; 9] = b"?PLNSGBRK";

pub fn sqs(s: u8) -> String {
    format!("{}{}", file(s), (b'a' + rank(s) as u8 - 1) as char)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MPos {
    pub board: [u8; 81],
    /// hands[colour][kind], kinds 1..=7
    pub hands: [[u8; 8]; 2],
    pub side: u8,
    pub ply: u16,
}

#[derive(Clone, Copy, Debug)]
pub struct Undo {
    moved: u8,
    captured: u8,
}

impl MPos {
    pub fn empty() -> MPos {
        MPos {
            board: [0; 81],
            hands: [[0; 8]; 2],
            side: BLACK,
            ply: 1,
        }
    }
    pub fn startpos() -> MPos {
        MPos::parse("lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1").unwrap()
    }
    pub fn king(&self, c: u8) -> Option<u8> {
        let k = piece(K, c);
        (0..81).find(|&s| self.board[s as usize] == k)
    }
    /// Whether the piece on `from` attacks `to` (ignoring pins).
    #[inline]
    pub fn attacks(&self, from: u8, to: u8) -> bool {
        self.attacks_t(reach(), from, to)
    }
    #[inline]
    fn attacks_t(&self, t: &Reach, from: u8, to: u8) -> bool {
        let p = self.board[from as usize];
        let (df, dr) = (file(to) - file(from), rank(to) - rank(from));
        match t.0[p as usize][off(df, dr)] {
            0 => false,
            1 => true,
            _ => {
                let (sf, sr) = (df.signum(), dr.signum());
                let step = sf * 9 + sr;
                let mut s = from as i8 + step;
                while s != to as i8 {
                    if self.board[s as usize] != 0 {
                        return false;
                    }
                    s += step;
                }
                true
            }
        }
    }
    pub fn attacked(&self, to: u8, by: u8) -> bool {
        let t = reach();
        (0..81u8).any(|s| {
            let p = self.board[s as usize];
            p != 0 && color(p) == by && s != to && self.attacks_t(t, s, to)
        })
    }
    pub fn attackers(&self, to: u8, by: u8) -> Vec<u8> {
        (0..81u8)
            .filter(|&s| {
                let p = self.board[s as usize];
                p != 0 && color(p) == by && s != to && self.attacks(s, to)
            })
            .collect()
    }
    /// Is the king of `c` attacked? A side without a king is never in check.
    pub fn in_check_of(&self, c: u8) -> bool {
        match self.king(c) {
            Some(k) => self.attacked(k, c ^ 1),
            None => false,
        }
    }
    pub fn in_check(&self) -> bool {
        self.in_check_of(self.side)
    }
    pub fn checkers(&self) -> Vec<u8> {
        match self.king(self.side) {
            Some(k) => self.attackers(k, self.side ^ 1),
            None => vec![],
        }
    }
    pub fn apply(&mut self, m: Mv) -> Undo {
        let c = self.side;
        let u;
        if m.is_drop() {
            let k = m.drop_kind();
            assert!(self.board[m.to as usize] == 0 && self.hands[c as usize][k as usize] > 0);
            self.board[m.to as usize] = piece(k, c);
            self.hands[c as usize][k as usize] -= 1;
            u = Undo {
                moved: 0,
                captured: 0,
            };
        } else {
            let p = self.board[m.from as usize];
            let cap = self.board[m.to as usize];
            assert!(p != 0 && color(p) == c);
            u = Undo {
                moved: p,
                captured: cap,
            };
            if cap != 0 {
                self.hands[c as usize][unpromote(kind(cap)) as usize] += 1;
            }
            self.board[m.from as usize] = 0;
            self.board[m.to as usize] = if m.promote {
                piece(promote(kind(p)).unwrap(), c)
            } else {
                p
            };
        }
        self.side ^= 1;
        self.ply = self.ply.wrapping_add(1);
        u
    }
    pub fn unapply(&mut self, m: Mv, u: Undo) {
        self.side ^= 1;
        self.ply = self.ply.wrapping_sub(1);
        let c = self.side;
        if m.is_drop() {
            self.board[m.to as usize] = 0;
            self.hands[c as usize][m.drop_kind() as usize] += 1;
        } else {
            self.board[m.from as usize] = u.moved;
            self.board[m.to as usize] = u.captured;
            if u.captured != 0 {
                self.hands[c as usize][unpromote(kind(u.captured)) as usize] -= 1;
            }
        }
    }
    /// A piece on this square could never move again.
    pub fn dead(k: u8, s: u8, c: u8) -> bool {
        match k {
            P | L => rel_rank(s, c) == 1,
            N => rel_rank(s, c) <= 2,
            _ => false,
        }
    }
    pub fn pawn_on_file(&self, f: i8, c: u8) -> bool {
        (1..=9).any(|r| self.board[sq(f, r).unwrap() as usize] == piece(P, c))
    }
    /// Board moves obeying piece movement and promotion rules only.
    pub fn pseudo_board(&self, out: &mut Vec<Mv>) {
        let c = self.side;
        let sign = if c == BLACK { 1 } else { -1 };
        for from in 0..81u8 {
            let p = self.board[from as usize];
            if p == 0 || color(p) != c {
                continue;
            }
            let k = kind(p);
            let (steps, slides) = moves_of(k);
            let mut add = |to: u8| {
                let zone = rel_rank(from, c) <= 3 || rel_rank(to, c) <= 3;
                if zone && promote(k).is_some() {
                    out.push(Mv {
                        from,
                        to,
                        promote: true,
                    });
                }
                if !MPos::dead(k, to, c) {
                    out.push(Mv {
                        from,
                        to,
                        promote: false,
                    });
                }
            };
            for &(df, dr) in steps {
                if let Some(to) = sq(file(from) + df * sign, rank(from) + dr * sign) {
                    let t = self.board[to as usize];
                    if t == 0 || color(t) != c {
                        add(to);
                    }
                }
            }
            for &(df, dr) in slides {
                let (mut f, mut r) = (file(from), rank(from));
                loop {
                    f += df * sign;
                    r += dr * sign;
                    let Some(to) = sq(f, r) else { break };
                    let t = self.board[to as usize];
                    if t == 0 || color(t) != c {
                        add(to);
                    }
                    if t != 0 {
                        break;
                    }
                }
            }
        }
    }
    /// Drops obeying possession, vacancy, dead-square and two-pawn rules.
    pub fn pseudo_drops(&self, out: &mut Vec<Mv>) {
        let c = self.side;
        for k in 1..=7u8 {
            if self.hands[c as usize][k as usize] == 0 {
                continue;
            }
            let mut has = [false; 10];
            if k == P {
                for f in 1..=9 {
                    has[f as usize] = self.pawn_on_file(f, c);
                }
            }
            for to in 0..81u8 {
                if self.board[to as usize] != 0 || MPos::dead(k, to, c) {
                    continue;
                }
                if k == P && has[file(to) as usize] {
                    continue;
                }
                out.push(Mv::drop(k, to));
            }
        }
    }
    fn leaves_safe(&mut self, m: Mv) -> bool {
        let c = self.side;
        let u = self.apply(m);
        let ok = !self.in_check_of(c);
        self.unapply(m, u);
        ok
    }
    /// Is there any legal board move for the side to move?
    fn has_board_move(&mut self) -> bool {
        let mut v = Vec::with_capacity(128);
        self.pseudo_board(&mut v);
        v.into_iter().any(|m| self.leaves_safe(m))
    }
    /// Does this pawn drop give immediate, inescapable mate? (A pawn checks
    /// from the adjacent square, so no drop can ever parry it.)
    pub fn is_pawn_drop_mate(&self, m: Mv) -> bool {
        if !m.is_drop() || m.drop_kind() != P {
            return false;
        }
        let mut q = self.clone();
        q.apply(m);
        // only checks by the pawn itself matter: the opponent was not in check
        q.in_check() && !q.has_board_move()
    }
    pub fn legal(&self) -> Vec<Mv> {
        let mut v = Vec::with_capacity(256);
        let mut q = self.clone();
        self.pseudo_board(&mut v);
        v.retain(|&m| q.leaves_safe(m));
        let nb = v.len();
        self.pseudo_drops(&mut v);
        let checked = self.in_check();
        let front = self.king(self.side ^ 1).and_then(|k| {
            // the square from which our pawn attacks the enemy king
            sq(file(k), rank(k) + if self.side == BLACK { 1 } else { -1 })
        });
        let mut i = nb;
        while i < v.len() {
            let m = v[i];
            // a drop only adds an obstacle: it can only matter when in check
            let mut ok = !checked || q.leaves_safe(m);
            if ok && m.drop_kind() == P && Some(m.to) == front {
                ok = !self.is_pawn_drop_mate(m);
            }
            if ok {
                i += 1;
            } else {
                v.swap_remove(i);
            }
        }
        v.sort_unstable();
        v
    }
    pub fn gives_check(&self, m: Mv) -> bool {
        let mut q = self.clone();
        q.apply(m);
        q.in_check()
    }
    /// Pieces of `c` which are alone between their king and an enemy slider.
    pub fn pinned(&self, c: u8) -> Vec<u8> {
        let Some(k) = self.king(c) else { return vec![] };
        (0..81u8)
            .filter(|&s| {
                let p = self.board[s as usize];
                if p == 0 || color(p) != c || s == k {
                    return false;
                }
                let mut q = self.clone();
                q.board[s as usize] = 0;
                // an attacker of the king which the piece was blocking
                q.attackers(k, c ^ 1).iter().any(|&a| !self.attacks(a, k))
            })
            .collect()
    }
    pub fn perft(&mut self, d: usize) -> u64 {
        if d == 0 {
            return 1;
        }
        let l = self.legal();
        if d == 1 {
            return l.len() as u64;
        }
        let mut n = 0;
        for m in l {
            let u = self.apply(m);
            n += self.perft(d - 1);
            self.unapply(m, u);
        }
        n
    }
    /// Count of every unpromoted kind present on board and in hands.
    pub fn material(&self) -> [u8; 9] {
        let mut n = [0u8; 9];
        for &p in &self.board {
            if p != 0 {
                n[unpromote(kind(p)) as usize] += 1;
            }
        }
        for h in &self.hands {
            for k in 1..=7 {
                n[k] += h[k];
            }
        }
        n
    }
    /// The input domain of the checks. Errors name the violated condition.
    pub fn validate(&self) -> Result<(), &'static str> {
        let m = self.material();
        for k in 1..=8 {
            if m[k] > FULL[k] {
                return Err("too many pieces of a kind");
            }
        }
        for c in [BLACK, WHITE] {
            if self.board.iter().filter(|&&p| p == piece(K, c)).count() > 1 {
                return Err("two kings of a colour");
            }
            for f in 1..=9 {
                if (1..=9)
                    .filter(|&r| self.board[sq(f, r).unwrap() as usize] == piece(P, c))
                    .count()
                    > 1
                {
                    return Err("two pawns on a file");
                }
            }
        }
        for s in 0..81u8 {
            let p = self.board[s as usize];
            if p != 0 && MPos::dead(kind(p), s, color(p)) {
                return Err("piece that can never move");
            }
        }
        if self.in_check_of(self.side ^ 1) {
            return Err("side not to move is in check");
        }
        let ch = self.checkers();
        if ch.len() > 2 {
            return Err("more than two checkers");
        }
        if ch.len() == 2 {
            // a double check needs a discovered slider: at least one distant
            // sliding checker
            let k = self.king(self.side).unwrap();
            let sl = ch.iter().any(|&s| {
                let (df, dr) = (file(s) - file(k), rank(s) - rank(k));
                matches!(kind(self.board[s as usize]), L | B | R | PB | PR)
                    && df.abs().max(dr.abs()) >= 2
            });
            if !sl {
                return Err("impossible double check");
            }
        }
        if self.ply == 0 {
            return Err("ply out of range");
        }
        Ok(())
    }
    pub fn is_mate(&self) -> bool {
        self.in_check() && self.legal().is_empty()
    }

    pub fn sfen(&self) -> String {
        let mut s = String::new();
        for r in 1..=9 {
            let mut e = 0;
            for f in (1..=9).rev() {
                let p = self.board[sq(f, r).unwrap() as usize];
                if p == 0 {
                    e += 1;
                    continue;
                }
                if e > 0 {
                    s += &e.to_string();
                    e = 0;
                }
                let k = kind(p);
                if k >= PP {
                    s.push('+');
                }
                let ch = LETTERS[unpromote(k) as usize] as char;
                s.push(if color(p) == BLACK {
                    ch
                } else {
                    ch.to_ascii_lowercase()
                });
            }
            if e > 0 {
                s += &e.to_string();
            }
            if r < 9 {
                s.push('/');
            }
        }
        s += if self.side == BLACK { " b " } else { " w " };
        let mut any = false;
        for c in [BLACK, WHITE] {
            for k in [R, B, G, S, N, L, P] {
                let n = self.hands[c as usize][k as usize];
                if n > 0 {
                    any = true;
                    if n > 1 {
                        s += &n.to_string();
                    }
                    let ch = LETTERS[k as usize] as char;
                    s.push(if c == BLACK {
                        ch
                    } else {
                        ch.to_ascii_lowercase()
                    });
                }
            }
        }
        if !any {
            s.push('-');
        }
        s += &format!(" {}", self.ply);
        s
    }
    pub fn parse(t: &str) -> Option<MPos> {
        let t = t.trim();
        let t = t.strip_prefix("sfen ").unwrap_or(t);
        let mut it = t.split_whitespace();
        let mut p = MPos::empty();
        let rows: Vec<&str> = it.next()?.split('/').collect();
        if rows.len() != 9 {
            return None;
        }
        for (r, row) in rows.iter().enumerate() {
            let mut f = 9i8;
            let mut prom = false;
            for ch in row.chars() {
                if let Some(d) = ch.to_digit(10) {
                    f -= d as i8;
                } else if ch == '+' {
                    prom = true;
                } else {
                    let k = LETTERS.iter().position(|&c| c as char == ch.to_ascii_uppercase())? as u8;
                    let k = if prom { promote(k)? } else { k };
                    prom = false;
                    let c = if ch.is_ascii_uppercase() { BLACK } else { WHITE };
                    p.board[sq(f, r as i8 + 1)? as usize] = piece(k, c);
                    f -= 1;
                }
            }
            if f != 0 {
                return None;
            }
        }
        p.side = match it.next()? {
            "b" => BLACK,
            "w" => WHITE,
            _ => return None,
        };
        let h = it.next()?;
        if h != "-" {
            let mut n = 0u32;
            for ch in h.chars() {
                if let Some(d) = ch.to_digit(10) {
                    n = n * 10 + d;
                } else {
                    let k = LETTERS.iter().position(|&c| c as char == ch.to_ascii_uppercase())?;
                    let c = if ch.is_ascii_uppercase() { 0 } else { 1 };
                    p.hands[c][k] = n.max(1) as u8;
                    n = 0;
                }
            }
        }
        if let Some(x) = it.next() {
            p.ply = x.parse().ok()?;
        }
        Some(p)
    }

    /// The same position seen from the other side of the board: rotated by
    /// 180 degrees with the colours exchanged.
    pub fn rotated(&self) -> MPos {
        let mut q = MPos::empty();
        for s in 0..81 {
            let p = self.board[s];
            if p != 0 {
                q.board[80 - s] = p ^ 16;
            }
        }
        q.hands = [self.hands[1], self.hands[0]];
        q.side = self.side ^ 1;
        q.ply = self.ply;
        q
    }
    /// Left-right mirror image.
    pub fn mirrored(&self) -> MPos {
        let mut q = self.clone();
        for s in 0..81u8 {
            q.board[mirror_sq(s) as usize] = self.board[s as usize];
        }
        q
    }
}

pub fn mirror_sq(s: u8) -> u8 {
    (8 - s / 9) * 9 + s % 9
}
pub fn rotate_mv(m: Mv) -> Mv {
    Mv {
        from: if m.is_drop() { m.from } else { 80 - m.from },
        to: 80 - m.to,
        promote: m.promote,
    }
}
pub fn mirror_mv(m: Mv) -> Mv {
    Mv {
        from: if m.is_drop() { m.from } else { mirror_sq(m.from) },
        to: mirror_sq(m.to),
        promote: m.promote,
    }
}
