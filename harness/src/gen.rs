//! Generators: starting positions of several families, lines of play and
//! do/undo histories. All moves are chosen through the reference model, so
//! a defect in yasai cannot steer (or starve) the generation.

use crate::model::*;
use crate::src::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Do(Mv),
    Undo,
    /// Clone the current position into slot n.
    Fork(u8),
    /// Continue with the position in slot n.
    Use(u8),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Case {
    pub start: MPos,
    pub ops: Vec<Op>,
    /// Second position, for properties about pairs of positions.
    pub other: Option<MPos>,
}

impl Case {
    pub fn text(&self) -> String {
        let mut s = format!("start {}\n", self.start.sfen());
        if let Some(o) = &self.other {
            s += &format!("other {}\n", o.sfen());
        }
        if !self.ops.is_empty() {
            s += "ops";
            for o in &self.ops {
                s.push(' ');
                s += &match o {
                    Op::Do(m) => m.usi(),
                    Op::Undo => "undo".into(),
                    Op::Fork(n) => format!("fork:{n}"),
                    Op::Use(n) => format!("use:{n}"),
                };
            }
            s.push('\n');
        }
        s
    }
    pub fn parse(t: &str) -> Option<Case> {
        let mut c = Case {
            start: MPos::empty(),
            ops: vec![],
            other: None,
        };
        let mut seen = false;
        for line in t.lines() {
            if let Some(r) = line.strip_prefix("start ") {
                c.start = MPos::parse(r)?;
                seen = true;
            } else if let Some(r) = line.strip_prefix("other ") {
                c.other = Some(MPos::parse(r)?);
            } else if let Some(r) = line.strip_prefix("ops ") {
                for w in r.split_whitespace() {
                    c.ops.push(if w == "undo" {
                        Op::Undo
                    } else if let Some(n) = w.strip_prefix("fork:") {
                        Op::Fork(n.parse().ok()?)
                    } else if let Some(n) = w.strip_prefix("use:") {
                        Op::Use(n.parse().ok()?)
                    } else {
                        Op::Do(Mv::parse(w)?)
                    });
                }
            }
        }
        seen.then_some(c)
    }
}

pub const SLOTS: usize = 4;

/// Without a king more moves may exist than a move list has room for.
/// Looks at both sides, with some distance: checks go a move or two further.
pub fn roomy(p: &MPos) -> bool {
    if p.king(BLACK).is_some() && p.king(WHITE).is_some() {
        return true;
    }
    let mut q = p.clone();
    (0..2).all(|_| {
        let mut v = Vec::with_capacity(600);
        q.pseudo_board(&mut v);
        q.pseudo_drops(&mut v);
        q.side ^= 1;
        v.len() <= 540
    })
}

/// Take pieces out of the hands until it is.
pub fn make_roomy(s: &mut Src, p: &mut MPos) {
    let (c0, k0) = (s.below(2), s.below(7));
    for i in 0..14 {
        if roomy(p) {
            return;
        }
        p.hands[(c0 + i / 7) % 2][(k0 + i) % 7 + 1] = 0;
    }
}

/// Cut the history before the first position that is not.
pub fn cut_crowded(c: &mut Case) {
    let mut cur = (c.start.clone(), vec![]);
    let mut slots = vec![None; SLOTS];
    let mut at = 0usize;
    for i in 0..c.ops.len() {
        match c.ops[i] {
            Op::Do(m) => {
                let u = cur.0.apply(m);
                cur.1.push((m, u));
            }
            Op::Undo => {
                let (m, u) = cur.1.pop().unwrap();
                cur.0.unapply(m, u);
            }
            Op::Fork(n) => slots[n as usize] = Some(cur.clone()),
            Op::Use(n) => {
                let x = slots[n as usize].take().unwrap();
                slots[at] = Some(std::mem::replace(&mut cur, x));
                at = n as usize;
            }
        }
        if !roomy(&cur.0) {
            c.ops.truncate(i);
            return;
        }
    }
}

/// Is the case one the properties speak about: valid positions, only legal
/// moves, undo only of moves made.
pub fn valid_case(c: &Case) -> bool {
    if c.start.validate().is_err() {
        return false;
    }
    if let Some(o) = &c.other {
        if o.validate().is_err() {
            return false;
        }
    }
    // the counter is a u16; checks may make one or two moves more
    if !c.ops.is_empty() && c.start.ply as usize + c.ops.len() > 65_500 {
        return false;
    }
    if !roomy(&c.start) || !c.other.as_ref().map_or(true, roomy) {
        return false;
    }
    type Slot = (MPos, Vec<(Mv, Undo)>);
    let mut slots: Vec<Option<Slot>> = vec![None; SLOTS];
    let mut cur: Slot = (c.start.clone(), vec![]);
    let mut at = 0usize;
    for op in &c.ops {
        match *op {
            Op::Do(m) => {
                if cur.0.legal().binary_search(&m).is_err() {
                    return false;
                }
                let u = cur.0.apply(m);
                if !roomy(&cur.0) {
                    return false;
                }
                cur.1.push((m, u));
            }
            Op::Undo => match cur.1.pop() {
                Some((m, u)) => cur.0.unapply(m, u),
                None => return false,
            },
            Op::Fork(n) => {
                if n as usize >= SLOTS || n as usize == at {
                    return false;
                }
                slots[n as usize] = Some(cur.clone());
            }
            Op::Use(n) => {
                if n as usize >= SLOTS || n as usize == at {
                    return false;
                }
                let Some(s) = slots[n as usize].take() else {
                    return false;
                };
                slots[at] = Some(std::mem::replace(&mut cur, s));
                at = n as usize;
            }
        }
    }
    true
}

// ---------------------------------------------------------------- positions

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Family {
    Start,
    Midgame,
    Scatter,
    Rays,
    Lines,
    Checked,
    PawnMate,
    Zone,
    Hands,
    Mobile,
    NoKing,
}
pub use Family::*;

impl Family {
    pub fn name(self) -> &'static str {
        match self {
            Start => "start",
            Midgame => "midgame",
            Scatter => "scatter",
            Rays => "rays",
            Lines => "lines",
            Checked => "checked",
            PawnMate => "pawnmate",
            Zone => "zone",
            Hands => "hands",
            Mobile => "mobile",
            NoKing => "noking",
        }
    }
}

struct Builder<'a, 'b> {
    p: MPos,
    s: &'a mut Src<'b>,
    /// pieces of each unpromoted kind not yet used
    stock: [u8; 9],
    /// how this case treats the kinds (swarm testing: rare combinations of
    /// few kinds become common): weight, percentage promoted, percentage white
    swarm: Option<[(u32, usize, usize); 8]>,
}

const DIRS: [(i8, i8); 8] = [
    (0, -1),
    (0, 1),
    (-1, 0),
    (1, 0),
    (-1, -1),
    (-1, 1),
    (1, -1),
    (1, 1),
];

impl<'a, 'b> Builder<'a, 'b> {
    fn new(s: &'a mut Src<'b>) -> Self {
        let mut swarm = None;
        if s.chance(35) {
            let mut w = [(0, 0, 0); 8];
            for x in w.iter_mut().skip(1) {
                *x = (
                    *s.pick(&[0, 0, 1, 1, 4]),
                    *s.pick(&[0, 0, 30, 60, 100, 100]),
                    *s.pick(&[0, 30, 50, 50, 70, 100]),
                );
            }
            // no pieces at all would be dull
            w[s.range(1, 7)].0 = 4;
            swarm = Some(w);
        }
        Builder {
            p: MPos::empty(),
            s,
            stock: FULL,
            swarm,
        }
    }
    fn can_put(&self, k: u8, c: u8, at: u8) -> bool {
        self.p.board[at as usize] == 0
            && self.stock[unpromote(k) as usize] > 0
            && !MPos::dead(k, at, c)
            && !(k == P && self.p.pawn_on_file(file(at), c))
    }
    fn put(&mut self, k: u8, c: u8, at: u8) -> bool {
        if !self.can_put(k, c, at) {
            return false;
        }
        self.p.board[at as usize] = piece(k, c);
        self.stock[unpromote(k) as usize] -= 1;
        true
    }
    fn any_square(&mut self) -> u8 {
        self.s.below(81) as u8
    }
    fn edge_square(&mut self) -> u8 {
        let a = self.s.range(1, 9) as i8;
        let e = if self.s.chance(50) { 1 } else { 9 };
        if self.s.chance(50) {
            sq(a, e).unwrap()
        } else {
            sq(e, a).unwrap()
        }
    }
    fn king_square(&mut self) -> u8 {
        match self.s.below(5) {
            0 => self.edge_square(),
            1 => *self.s.pick(&[0u8, 8, 72, 80, 4, 76, 36, 44]),
            _ => self.any_square(),
        }
    }
    fn kings(&mut self) -> (u8, u8) {
        let b = self.king_square();
        self.put(K, BLACK, b);
        loop {
            let w = self.king_square();
            let d = (file(b) - file(w)).abs().max((rank(b) - rank(w)).abs());
            if d >= 2 {
                self.put(K, WHITE, w);
                return (b, w);
            }
        }
    }
    fn one_king(&mut self, c: u8) {
        let k = self.king_square();
        self.put(K, c, k);
    }
    fn random_kind(&mut self) -> u8 {
        // pick an unpromoted kind still in stock, weighted towards variety
        let mut w = [0u32; 8];
        for k in 1..=7 {
            if self.stock[k] > 0 {
                w[k] = 2 + self.stock[k].min(4) as u32;
                if let Some(x) = &self.swarm {
                    w[k] *= x[k].0;
                }
            }
        }
        if w.iter().sum::<u32>() == 0 {
            return 0;
        }
        self.s.weighted(&w) as u8
    }
    fn maybe_promote(&mut self, k: u8, percent: usize) -> u8 {
        let percent = self.swarm.as_ref().map_or(percent, |x| x[k as usize].1);
        match promote(k) {
            Some(q) if self.s.chance(percent) => q,
            _ => k,
        }
    }
    fn scatter(&mut self, n: usize, prom: usize, white: usize) {
        for _ in 0..n {
            let k = self.random_kind();
            if k == 0 {
                return;
            }
            let white = self.swarm.as_ref().map_or(white, |x| x[k as usize].2);
            let k = self.maybe_promote(k, prom);
            let c = if self.s.chance(white) { WHITE } else { BLACK };
            for _ in 0..4 {
                let at = self.any_square();
                if self.put(k, c, at) {
                    break;
                }
            }
        }
    }
    /// Random piece near a square.
    fn near(&mut self, at: u8, radius: usize, n: usize, white: usize) {
        for _ in 0..n {
            let k = self.random_kind();
            if k == 0 {
                return;
            }
            let k = self.maybe_promote(k, 35);
            let c = if self.s.chance(white) { WHITE } else { BLACK };
            for _ in 0..4 {
                let df = self.s.below(2 * radius + 1) as i8 - radius as i8;
                let dr = self.s.below(2 * radius + 1) as i8 - radius as i8;
                if let Some(t) = sq(file(at) + df, rank(at) + dr) {
                    if self.put(k, c, t) {
                        break;
                    }
                }
            }
        }
    }
    /// A slider of `c` looking at `at` along some direction with a random
    /// number of pieces in between.
    fn ray(&mut self, at: u8, c: u8, blockers: usize) -> bool {
        let dir = *self.s.pick(&DIRS);
        let mut line = vec![];
        let (mut f, mut r) = (file(at) + dir.0, rank(at) + dir.1);
        while let Some(x) = sq(f, r) {
            line.push(x);
            f += dir.0;
            r += dir.1;
        }
        if line.is_empty() {
            return false;
        }
        let i = self.s.below(line.len());
        let orth = dir.0 == 0 || dir.1 == 0;
        let mut kinds: Vec<u8> = if orth { vec![R, PR] } else { vec![B, PB] };
        // a lance looks towards `at` if it moves forward along -dir
        if dir.0 == 0 && (dir.1 == 1) == (c == BLACK) {
            kinds.push(L);
            kinds.push(L);
        }
        let k = *self.s.pick(&kinds);
        if !self.put(k, c, line[i]) {
            return false;
        }
        for _ in 0..blockers {
            if i == 0 {
                break;
            }
            let t = line[self.s.below(i)];
            let k = self.random_kind();
            if k == 0 {
                break;
            }
            let k = self.maybe_promote(k, 30);
            let bc = if self.s.chance(30) { c } else { c ^ 1 };
            self.put(k, bc, t);
        }
        true
    }
    /// A piece of `c` which attacks `at` on an otherwise open line.
    fn attacker(&mut self, at: u8, c: u8) -> bool {
        let sign = if c == BLACK { 1 } else { -1 };
        for _ in 0..6 {
            let k = *self
                .s
                .pick(&[P, L, N, S, G, B, R, PP, PL, PN, PS, PB, PR, L, B, R, PB, PR]);
            let (steps, slides) = moves_of(k);
            let n = steps.len() + slides.len();
            let i = self.s.below(n);
            let (d, dist) = if i < steps.len() {
                (steps[i], 1)
            } else {
                (slides[i - steps.len()], self.s.range(1, 8) as i8)
            };
            let (df, dr) = (d.0 * sign, d.1 * sign);
            let Some(t) = sq(file(at) - df * dist, rank(at) - dr * dist) else {
                continue;
            };
            if !self.can_put(k, c, t) {
                continue;
            }
            let open = (1..dist).all(|j| {
                let x = sq(file(at) - df * j, rank(at) - dr * j).unwrap();
                self.p.board[x as usize] == 0
            });
            if open && self.put(k, c, t) {
                return true;
            }
        }
        false
    }
    /// A black king and a white slider on opposite sides of `at`, with
    /// nothing in between.
    fn check_through(&mut self, at: u8) -> bool {
        for _ in 0..8 {
            let (df, dr) = *self.s.pick(&DIRS);
            let (i, j) = (self.s.range(1, 7) as i8, self.s.range(1, 7) as i8);
            let a = sq(file(at) + df * i, rank(at) + dr * i);
            let z = sq(file(at) - df * j, rank(at) - dr * j);
            let (Some(a), Some(z)) = (a, z) else {
                continue;
            };
            let mut kinds = if df == 0 || dr == 0 { vec![R, PR] } else { vec![B, PB] };
            if df == 0 && dr == 1 {
                kinds.push(L);
            }
            let k = *self.s.pick(&kinds);
            let open = (1 - j..i).all(|n| {
                let x = sq(file(at) + df * n, rank(at) + dr * n).unwrap();
                self.p.board[x as usize] == 0
            });
            let apart = self.p.king(WHITE).map_or(true, |w| {
                (file(a) - file(w)).abs().max((rank(a) - rank(w)).abs()) >= 2
            });
            if open && apart && self.can_put(K, BLACK, a) && self.put(k, WHITE, z) {
                self.put(K, BLACK, a);
                return true;
            }
        }
        false
    }
    /// A king and a slider of the other side on opposite sides of `at`.
    fn across(&mut self, at: u8, c: u8) -> bool {
        for _ in 0..8 {
            let (df, dr) = *self.s.pick(&DIRS);
            let (i, j) = (self.s.range(1, 6) as i8, self.s.range(1, 6) as i8);
            let on = |n: i8| sq(file(at) + df * n, rank(at) + dr * n);
            let (Some(a), Some(z)) = (on(i), on(-j)) else {
                continue;
            };
            let mut kinds = if df == 0 || dr == 0 { vec![R, PR] } else { vec![B, PB] };
            if df == 0 && (dr == 1) == (c == BLACK) {
                kinds.push(L);
            }
            let k = *self.s.pick(&kinds);
            let open = (-j..=i).all(|n| n == 0 || self.p.board[on(n).unwrap() as usize] == 0);
            let apart = self.p.king(c ^ 1).map_or(true, |w| {
                (file(a) - file(w)).abs().max((rank(a) - rank(w)).abs()) >= 2
            });
            if open && apart && self.can_put(K, c, a) && self.put(k, c ^ 1, z) {
                self.put(K, c, a);
                return true;
            }
        }
        false
    }
    /// A piece that stands on a line to either king.
    fn crossing(&mut self) -> Option<(u8, u8)> {
        let at = self.any_square();
        let k = self.random_kind();
        let k = self.maybe_promote(k, 30);
        let c = self.s.below(2) as u8;
        if !self.put(k, c, at) || !self.across(at, BLACK) || !self.across(at, WHITE) {
            (self.p, self.stock) = (MPos::empty(), FULL);
        }
        self.p.king(BLACK).zip(self.p.king(WHITE))
    }
    /// Turn a piece of `c` that stands in line with its king into a pinned one.
    fn pin_someone(&mut self, c: u8) -> bool {
        let Some(k) = self.p.king(c) else {
            return false;
        };
        for _ in 0..6 {
            let (df, dr) = *self.s.pick(&DIRS);
            let mut own = 0;
            let mut line = vec![];
            for n in 1..9 {
                let Some(x) = sq(file(k) + df * n, rank(k) + dr * n) else {
                    break;
                };
                match self.p.board[x as usize] {
                    0 if own == 1 => line.push(x),
                    0 => {}
                    p if p != 255 && own == 0 && color(p) == c => own = 1,
                    _ => break,
                }
            }
            if line.is_empty() {
                continue;
            }
            let x = *self.s.pick(&line);
            let orth = df == 0 || dr == 0;
            let q = *self.s.pick(if orth { &[R, PR] } else { &[B, PB] });
            if self.put(q, c ^ 1, x) {
                return true;
            }
        }
        false
    }
    /// Distribute what is left of the stock to the hands.
    fn deal(&mut self, keep_out: usize) {
        let mode = self.s.below(6);
        for k in 1..=7usize {
            let mut n = self.stock[k];
            if n == 0 {
                continue;
            }
            if keep_out > 0 && self.s.chance(keep_out) {
                let m = self.s.below(n as usize + 1) as u8;
                self.stock[k] -= m;
                n -= m;
            }
            let b = match mode {
                0 => n,
                1 => 0,
                2 => {
                    if self.s.chance(50) {
                        n
                    } else {
                        0
                    }
                }
                _ => self.s.below(n as usize + 1) as u8,
            };
            self.p.hands[0][k] += b;
            self.p.hands[1][k] += n - b;
            self.stock[k] = 0;
        }
    }
    fn remove_to_hand(&mut self, s: u8) {
        let p = self.p.board[s as usize];
        self.p.board[s as usize] = 0;
        let c = self.s.below(2);
        self.p.hands[c][unpromote(kind(p)) as usize] += 1;
    }
    /// Make the position valid: the side not to move may not be in check,
    /// and the mover may only be in a check that can occur.
    fn finish(mut self, want_check: Option<bool>) -> MPos {
        if self.s.chance(50) {
            self.p.side ^= 1;
        }
        for _ in 0..40 {
            let other = self.p.side ^ 1;
            if self.p.in_check_of(other) {
                if !self.p.in_check() || self.s.chance(50) {
                    self.p.side = other;
                }
                let other = self.p.side ^ 1;
                if self.p.in_check_of(other) {
                    let k = self.p.king(other).unwrap();
                    let a = self.p.attackers(k, self.p.side);
                    // adjacent kings never happen, so every attacker can go
                    let x = *self.s.pick(&a);
                    self.remove_to_hand(x);
                }
                continue;
            }
            match self.p.validate() {
                Ok(()) => break,
                Err(_) => {
                    let a = self.p.checkers();
                    if a.is_empty() {
                        break;
                    }
                    let x = *self.s.pick(&a);
                    self.remove_to_hand(x);
                }
            }
        }
        if want_check == Some(false) {
            while self.p.in_check() {
                let a = self.p.checkers();
                let x = *self.s.pick(&a);
                self.remove_to_hand(x);
            }
        }
        // mirror colours so that nothing depends on who is who above
        if self.s.chance(50) {
            self.p = self.p.rotated();
        }
        self.p.ply = pick_ply(self.s);
        self.p
    }
}

fn pick_ply(s: &mut Src) -> u16 {
    match s.below(8) {
        0 => 1,
        1 => s.range(1, 10) as u16,
        2 => s.range(1, 62000) as u16,
        // just before a power of two or a multiple of 256
        3 => {
            let t = if s.chance(50) { 1usize << s.range(3, 15) } else { 256 * s.range(1, 250) };
            (t + 2 - s.below(8)) as u16
        }
        _ => s.range(1, 2500) as u16,
    }
}

fn scatter(s: &mut Src) -> MPos {
    let mut b = Builder::new(s);
    b.kings();
    let n = match b.s.below(4) {
        0 => b.s.range(0, 8),
        1 => b.s.range(30, 45),
        _ => b.s.range(5, 30),
    };
    let prom = *b.s.pick(&[0usize, 20, 50, 80]);
    let white = *b.s.pick(&[50usize, 50, 25, 75]);
    b.scatter(n, prom, white);
    let out = *b.s.pick(&[0usize, 0, 40, 100]);
    b.deal(out);
    b.finish(None)
}

fn rays(s: &mut Src) -> MPos {
    let mut b = Builder::new(s);
    let cross = if b.s.chance(20) { b.crossing() } else { None };
    let (bk, wk) = cross.unwrap_or_else(|| b.kings());
    // now and then every line to one king is taken
    let siege = b.s.chance(8);
    for _ in 0..if siege { 14 } else { b.s.range(1, 5) } {
        let (k, c) = if siege || b.s.chance(50) {
            (bk, WHITE)
        } else {
            (wk, BLACK)
        };
        if siege {
            b.ray(k, c, 1);
            continue;
        }
        let bl = *b.s.pick(&[1usize, 1, 1, 2, 2, 0, 3]);
        b.ray(k, c, bl);
    }
    let n = if siege { 0 } else { b.s.below(16) };
    b.scatter(n, 30, 50);
    let out = *b.s.pick(&[0usize, 100]);
    b.deal(out);
    b.finish(None)
}

/// Sliders and every pattern of pieces on their lines.
fn lines(s: &mut Src) -> MPos {
    let mut b = Builder::new(s);
    b.kings();
    for _ in 0..b.s.range(1, 3) {
        let at = b.any_square();
        let k = *b.s.pick(&[L, L, B, R, R, PB, PR]);
        let c = b.s.below(2) as u8;
        if !b.put(k, c, at) {
            continue;
        }
        let dense = *b.s.pick(&[5usize, 15, 30, 50, 75]);
        for (i, &(df, dr)) in DIRS.iter().enumerate() {
            if (i < 4) == matches!(k, B | PB) {
                continue;
            }
            let mut n = 1;
            while let Some(t) = sq(file(at) + df * n, rank(at) + dr * n) {
                n += 1;
                if !b.s.chance(dense) {
                    continue;
                }
                let k = b.random_kind();
                if k == 0 {
                    break;
                }
                let k = b.maybe_promote(k, 40);
                let c = b.s.below(2) as u8;
                b.put(k, c, t);
            }
        }
    }
    let out = *b.s.pick(&[0usize, 100, 100]);
    b.deal(out);
    b.finish(None)
}

fn checked(s: &mut Src) -> MPos {
    let mut b = Builder::new(s);
    let (bk, _) = b.kings();
    // black will be the mover before the final colour flip
    let pre = b.s.below(4);
    b.near(bk, 1, pre, 50);
    b.attacker(bk, WHITE);
    if b.s.chance(30) {
        b.attacker(bk, WHITE);
    }
    for _ in 0..b.s.below(3) {
        b.ray(bk, WHITE, 1);
    }
    let n = b.s.below(7);
    b.near(bk, 2, n, 40);
    let n = b.s.below(20);
    b.scatter(n, 30, 50);
    let out = *b.s.pick(&[0usize, 0, 100]);
    b.deal(out);
    b.finish(None)
}

fn pawn_mate(s: &mut Src) -> MPos {
    let mut b = Builder::new(s);
    // white king will be the target of a black pawn drop
    let wk = loop {
        let k = if b.s.chance(60) {
            b.edge_square()
        } else {
            b.any_square()
        };
        if rank(k) <= 8 {
            break k;
        }
    };
    b.put(K, WHITE, wk);
    let front = wk + 1;
    // sometimes the drop has to answer a check to black's own king
    let interpose = b.s.chance(15) && b.check_through(front);
    if !interpose && b.s.chance(80) {
        for _ in 0..20 {
            let k = b.king_square();
            let d = (file(k) - file(wk)).abs().max((rank(k) - rank(wk)).abs());
            if d >= 2 && k != front {
                b.put(K, BLACK, k);
                break;
            }
        }
    }
    // hold the front square free and one pawn back for the drop
    b.p.board[front as usize] = 255;
    b.stock[P as usize] -= 1;
    // guard the pawn
    if b.s.chance(92) {
        b.p.board[front as usize] = 0;
        b.attacker(front, BLACK);
        b.p.board[front as usize] = 255;
    }
    // a pinned piece guards all the same
    if b.s.chance(15) {
        b.pin_someone(BLACK);
    }
    // close the flight squares: own pieces on them or black attacks
    let close = *b.s.pick(&[95usize, 85, 70]);
    for &(df, dr) in &DIRS {
        let Some(t) = sq(file(wk) + df, rank(wk) + dr) else {
            continue;
        };
        if t == front || b.p.board[t as usize] != 0 || !b.s.chance(close) {
            continue;
        }
        if b.s.chance(55) {
            let k = *b.s.pick(&[P, L, N, P, L, N, S, G, B, R, PP, PB, PR]);
            b.put(k, WHITE, t);
        } else {
            let saved = b.p.board[front as usize];
            b.p.board[front as usize] = if b.s.chance(50) { 0 } else { saved };
            b.attacker(t, BLACK);
            b.p.board[front as usize] = saved;
        }
    }
    // possible capturers of the pawn, some of them pinned
    for _ in 0..*b.s.pick(&[0usize, 1, 1, 2, 2, 3, 4]) {
        b.p.board[front as usize] = 0;
        b.attacker(front, WHITE);
        b.p.board[front as usize] = 255;
    }
    for _ in 0..*b.s.pick(&[0usize, 0, 0, 1, 2, 4]) {
        b.pin_someone(WHITE);
    }
    for _ in 0..b.s.below(3) {
        // pin an existing neighbour or build a pin further away
        let nb = *b.s.pick(&[0usize, 0, 1]);
        b.ray(wk, BLACK, nb);
    }
    if b.s.chance(40) {
        let n = b.s.below(6);
        b.scatter(n, 30, 50);
    }
    b.p.board[front as usize] = 0;
    b.p.hands[0][P as usize] += 1;
    let out = *b.s.pick(&[0usize, 0, 100]);
    b.deal(out);
    // no black pawn may share the file, or the drop is excluded anyway
    if b.s.chance(90) {
        for r in 1..=9 {
            let x = sq(file(wk), r).unwrap();
            if b.p.board[x as usize] == piece(P, BLACK) {
                b.remove_to_hand(x);
            }
        }
    }
    // black to move, white not in check
    b.p.side = BLACK;
    while b.p.in_check_of(WHITE) {
        let a = b.p.attackers(wk, BLACK);
        let x = *b.s.pick(&a);
        b.remove_to_hand(x);
    }
    while b.p.validate().is_err() {
        let a = b.p.checkers();
        if a.is_empty() {
            break;
        }
        let x = *b.s.pick(&a);
        b.remove_to_hand(x);
    }
    let mut p = b.p;
    if s.chance(50) {
        p = p.rotated();
    }
    p.ply = pick_ply(s);
    p
}

fn zone(s: &mut Src) -> MPos {
    let mut b = Builder::new(s);
    b.kings();
    let n = b.s.range(4, 18);
    for _ in 0..n {
        let k = *b.s.pick(&[P, P, L, L, N, N, S, S, B, R, G, PP, PS, PB, PR]);
        let c = b.s.below(2) as u8;
        for _ in 0..4 {
            // ranks 1..5 as seen by the owner
            let f = b.s.range(1, 9) as i8;
            let r = b.s.range(1, 5) as i8;
            let r = if c == BLACK { r } else { 10 - r };
            if b.put(k, c, sq(f, r).unwrap()) {
                break;
            }
        }
    }
    let n = b.s.below(8);
    b.scatter(n, 20, 50);
    let out = *b.s.pick(&[0usize, 50, 100]);
    b.deal(out);
    b.finish(None)
}

fn hands(s: &mut Src) -> MPos {
    let mut b = Builder::new(s);
    b.kings();
    // pawns on a random subset of files
    let dens = b.s.below(101);
    for f in 1..=9i8 {
        for c in [BLACK, WHITE] {
            if b.s.chance(dens) {
                let r = b.s.range(1, 9) as i8;
                let k = if b.s.chance(15) { PP } else { P };
                b.put(k, c, sq(f, r).unwrap());
            }
        }
    }
    let n = b.s.below(10);
    b.scatter(n, 40, 50);
    let out = *b.s.pick(&[0usize, 0, 0, 60]);
    b.deal(out);
    b.finish(None)
}

const MOBILE: [&str; 6] = [
    "R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1",
    "8R/kSS1S1K2/4B4/9/9/9/9/9/3L1L1L1 b RBGSNLP3g3n17p 1",
    "R8/2K1S1SS1/4B4/8k/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1",
    "k8/9/R1K1S1SS1/4B4/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1",
    "8k/9/9/4B4/4R4/3K5/9/9/9 b RBGSNLP3g3s3n3l17p 1",
    "R8/2K1S1SSk/4B4/9/9/9/9/L1L6/5L3 b RBGSNLP3g3n17p 1",
];

/// Positions with very many legal moves, and mutations of them.
fn mobile(s: &mut Src) -> MPos {
    let mut p = MPos::parse(MOBILE[s.below(MOBILE.len())]).unwrap();
    let n = s.below(5);
    for _ in 0..n {
        let q = p.clone();
        let a = s.below(81);
        let b = s.below(81);
        match s.below(4) {
            0 | 1 => p.board.swap(a, b),
            2 => {
                if p.board[a] != 0 {
                    p.board[a] ^= 16;
                }
            }
            _ => {
                let k = s.range(1, 7);
                let c = s.below(2);
                if p.hands[c][k] > 0 && p.board[a] == 0 {
                    p.hands[c][k] -= 1;
                    p.board[a] = piece(k as u8, s.below(2) as u8);
                }
            }
        }
        if p.validate().is_err() {
            p = q;
        }
    }
    if s.chance(50) {
        p = p.rotated();
    }
    if s.chance(50) {
        p = p.mirrored();
    }
    p.ply = pick_ply(s);
    p
}

/// Tsume-style positions and fragments without one or both kings.
fn no_king(s: &mut Src) -> MPos {
    match s.below(8) {
        0 => {
            // no kings at all
            let mut b = Builder::new(s);
            let n = b.s.below(30);
            b.scatter(n, 40, 50);
            b.deal(100);
            b.finish(None)
        }
        1 | 2 | 3 => {
            // an ordinary position with one king taken off the board
            let mut p = match s.below(6) {
                0 => scatter(s),
                1 => rays(s),
                2 => checked(s),
                3 => pawn_mate(s),
                4 => zone(s),
                _ => hands(s),
            };
            let c = s.below(2) as u8;
            if let Some(k) = p.king(c) {
                let q = p.clone();
                p.board[k as usize] = 0;
                if p.validate().is_err() {
                    p = q;
                }
            }
            p
        }
        _ => {
            let mut b = Builder::new(s);
            b.one_king(WHITE);
            let wk = b.p.king(WHITE).unwrap();
            for _ in 0..b.s.below(4) {
                let n = b.s.below(3);
                b.ray(wk, BLACK, n);
            }
            let n = b.s.below(8);
            b.near(wk, 2, n, 50);
            let n = b.s.below(12);
            b.scatter(n, 30, 50);
            let out = *b.s.pick(&[0usize, 100]);
            b.deal(out);
            b.finish(None)
        }
    }
}

pub fn start(s: &mut Src, fam: Family) -> MPos {
    for _ in 0..20 {
        let p = match fam {
            Start => MPos::startpos(),
            Midgame => {
                let mut p = MPos::startpos();
                let n = *s.pick(&[10usize, 30, 60, 100, 150]);
                let n = s.range(n / 2, n);
                let pol = Policy::pick(s);
                for _ in 0..n {
                    match choose(s, &mut p, &pol) {
                        Some(m) => {
                            p.apply(m);
                        }
                        None => break,
                    }
                }
                p
            }
            Scatter => scatter(s),
            Rays => rays(s),
            Lines => lines(s),
            Checked => checked(s),
            PawnMate => pawn_mate(s),
            Zone => zone(s),
            Hands => hands(s),
            Mobile => mobile(s),
            NoKing => no_king(s),
        };
        if p.validate().is_ok() {
            return p;
        }
    }
    MPos::startpos()
}

/// A position from which one legal move leads to `p`, and that move: `p` is
/// then reached by playing instead of being constructed.
pub fn retro(s: &mut Src, p: &MPos) -> Option<(MPos, Mv)> {
    if p.ply < 2 {
        return None;
    }
    let c = p.side ^ 1;
    let men: Vec<u8> = (0..81u8)
        .filter(|&x| p.board[x as usize] != 0 && color(p.board[x as usize]) == c)
        .collect();
    if men.is_empty() {
        return None;
    }
    let checkers = p.checkers();
    let sign = if c == BLACK { 1 } else { -1 };
    for _ in 0..16 {
        let to = if !checkers.is_empty() && s.chance(60) {
            *s.pick(&checkers)
        } else {
            *s.pick(&men)
        };
        let k = kind(p.board[to as usize]);
        let mut q = p.clone();
        q.side = c;
        q.ply -= 1;
        q.board[to as usize] = 0;
        let m = if k < PP && k != K && s.chance(20) {
            q.hands[c as usize][k as usize] += 1;
            Mv::drop(k, to)
        } else {
            let promote = k >= PP && s.chance(50);
            let pre = if promote { unpromote(k) } else { k };
            let (steps, slides) = moves_of(pre);
            let i = s.below(steps.len() + slides.len());
            let (d, dist) = if i < steps.len() {
                (steps[i], 1)
            } else {
                (slides[i - steps.len()], s.range(1, 8) as i8)
            };
            let Some(from) = sq(file(to) - d.0 * sign * dist, rank(to) - d.1 * sign * dist) else {
                continue;
            };
            let open = (1..=dist).all(|j| {
                let x = sq(file(to) - d.0 * sign * j, rank(to) - d.1 * sign * j).unwrap();
                q.board[x as usize] == 0
            });
            if !open {
                continue;
            }
            q.board[from as usize] = piece(pre, c);
            // a captured piece comes back from the hand
            let held: Vec<u8> = (1..=7).filter(|&k| q.hands[c as usize][k as usize] > 0).collect();
            if !held.is_empty() && s.chance(45) {
                let k = *s.pick(&held);
                q.hands[c as usize][k as usize] -= 1;
                let k = if s.chance(50) { crate::model::promote(k).unwrap_or(k) } else { k };
                q.board[to as usize] = piece(k, c ^ 1);
            }
            Mv { from, to, promote }
        };
        if q.validate().is_err() {
            continue;
        }
        let mut v = Vec::with_capacity(128);
        if m.is_drop() {
            q.pseudo_drops(&mut v);
        } else {
            q.pseudo_board(&mut v);
        }
        // `p` is valid, so the mover's king is safe after the move
        if v.contains(&m) && !(m.is_drop() && m.drop_kind() == P && q.is_pawn_drop_mate(m)) {
            let mut t = q.clone();
            t.apply(m);
            if t == *p {
                return Some((q, m));
            }
        }
    }
    None
}

// -------------------------------------------------------------- lines of play

#[derive(Clone, Debug)]
pub struct Policy {
    w: [u32; 5], // quiet, capture, promotion, drop, king move
    check: usize,
    /// percentage of moves that take back the side's previous move, so that
    /// positions recur
    back: usize,
}

impl Policy {
    pub fn pick(s: &mut Src) -> Policy {
        const T: [[u32; 5]; 6] = [
            [4, 4, 4, 4, 4],
            [4, 30, 8, 4, 4],
            [3, 10, 20, 2, 2],
            [4, 12, 4, 20, 4],
            [3, 12, 4, 2, 20],
            [10, 1, 2, 1, 5],
        ];
        Policy {
            w: *s.pick(&T),
            check: *s.pick(&[0usize, 0, 10, 40]),
            back: *s.pick(&[0usize, 0, 0, 0, 0, 70]),
        }
    }
}

/// A random legal move of the model; None if there is none.
pub fn choose(s: &mut Src, p: &mut MPos, pol: &Policy) -> Option<Mv> {
    let mut v = Vec::with_capacity(192);
    p.pseudo_board(&mut v);
    p.pseudo_drops(&mut v);
    let side = p.side;
    let ok = |p: &mut MPos, m: Mv| -> bool {
        let u = p.apply(m);
        let safe = !p.in_check_of(side);
        p.unapply(m, u);
        safe && !(m.is_drop() && m.drop_kind() == P && p.is_pawn_drop_mate(m))
    };
    if pol.check > 0 && s.chance(pol.check) {
        let ch: Vec<Mv> = v
            .iter()
            .copied()
            .filter(|&m| {
                let u = p.apply(m);
                let c = p.in_check();
                p.unapply(m, u);
                c
            })
            .collect();
        if !ch.is_empty() {
            let m = *s.pick(&ch);
            if ok(p, m) {
                return Some(m);
            }
        }
    }
    let cat = |p: &MPos, m: Mv| -> usize {
        if m.is_drop() {
            3
        } else if m.promote {
            2
        } else if p.board[m.to as usize] != 0 {
            1
        } else if kind(p.board[m.from as usize]) == K {
            4
        } else {
            0
        }
    };
    let mut tries = 0;
    while !v.is_empty() {
        // two-stage draw: a category by weight, then a move of it
        let i = if tries < 12 {
            let mut n = [0u32; 5];
            for &m in &v {
                n[cat(p, m)] = 1;
            }
            let w: Vec<u32> = (0..5).map(|i| n[i] * pol.w[i]).collect();
            if w.iter().sum::<u32>() == 0 {
                tries = 12;
                continue;
            }
            let c = s.weighted(&w);
            let idx: Vec<usize> = (0..v.len()).filter(|&i| cat(p, v[i]) == c).collect();
            *s.pick(&idx)
        } else {
            s.below(v.len())
        };
        tries += 1;
        let m = v.swap_remove(i);
        if ok(p, m) {
            return Some(m);
        }
    }
    None
}

/// The move that takes back `prev`, the mover's previous move, if legal.
fn retreat(p: &mut MPos, prev: Option<&Mv>) -> Option<Mv> {
    let m = *prev?;
    if m.is_drop() || m.promote {
        return None;
    }
    let b = Mv {
        from: m.to,
        to: m.from,
        promote: false,
    };
    let x = p.board[b.from as usize];
    if x == 0 || color(x) != p.side || p.board[b.to as usize] != 0 {
        return None;
    }
    let mut v = Vec::with_capacity(128);
    p.pseudo_board(&mut v);
    if !v.contains(&b) {
        return None;
    }
    let side = p.side;
    let u = p.apply(b);
    let safe = !p.in_check_of(side);
    p.unapply(b, u);
    safe.then_some(b)
}

/// `choose`, with some retreats; `st` are the moves made so far.
fn choose_next(s: &mut Src, p: &mut MPos, pol: &Policy, st: &[(Mv, Undo)]) -> Option<Mv> {
    if pol.back > 0 && st.len() >= 2 && s.chance(pol.back) {
        if let Some(m) = retreat(p, Some(&st[st.len() - 2].0)) {
            return Some(m);
        }
    }
    choose(s, p, pol)
}

/// A long history: `n` operations, mostly moves, that goes as deep as the
/// position allows; undone completely at the end if `finish`.
pub fn deep(s: &mut Src, p: &MPos, n: usize, finish: bool) -> Vec<Op> {
    let pol = Policy {
        w: *s.pick(&[[10, 1, 2, 1, 10], [10, 0, 1, 0, 10], [6, 3, 3, 3, 3], [1, 0, 0, 0, 10]]),
        check: *s.pick(&[0usize, 0, 5]),
        back: *s.pick(&[0usize, 30, 80]),
    };
    let mut q = p.clone();
    let mut st: Vec<(Mv, Undo)> = vec![];
    let mut ops = vec![];
    let mut down = 0usize;
    for _ in 0..n {
        if down == 0 && !st.is_empty() && s.below(100) == 0 {
            down = s.range(1, st.len().min(8));
        }
        if down > 0 {
            down -= 1;
            let (m, u) = st.pop().unwrap();
            q.unapply(m, u);
            ops.push(Op::Undo);
            continue;
        }
        match choose_next(s, &mut q, &pol, &st) {
            Some(m) => {
                let u = q.apply(m);
                st.push((m, u));
                ops.push(Op::Do(m));
            }
            None if st.is_empty() => break,
            None => down = s.range(1, st.len().min(12)),
        }
    }
    if finish {
        ops.resize(ops.len() + st.len(), Op::Undo);
    }
    ops
}

/// `n` further legal moves from `p` (fewer when the game ends).
pub fn line(s: &mut Src, p: &MPos, n: usize) -> Vec<Mv> {
    let pol = Policy::pick(s);
    let mut q = p.clone();
    let mut out = vec![];
    let mut st: Vec<(Mv, Undo)> = vec![];
    for _ in 0..n {
        let Some(m) = choose_next(s, &mut q, &pol, &st) else {
            break;
        };
        let u = q.apply(m);
        st.push((m, u));
        out.push(m);
    }
    out
}

/// A history of do and undo operations of roughly `n` steps. `finish`: undo
/// everything at the end.
pub fn walk(s: &mut Src, p: &MPos, n: usize, finish: bool) -> Vec<Op> {
    let mut pol = Policy::pick(s);
    let mut q = p.clone();
    let mut st: Vec<(Mv, Undo)> = vec![];
    let mut ops = vec![];
    let mut down = 0usize; // remaining forced undos
    for _ in 0..n {
        if down == 0 && s.chance(12) && !st.is_empty() {
            down = match s.below(4) {
                0 => st.len(),
                1 => s.range(1, st.len()),
                _ => s.range(1, st.len().min(3)),
            };
            if s.chance(30) {
                pol = Policy::pick(s);
            }
        }
        if down > 0 {
            down -= 1;
            let (m, u) = st.pop().unwrap();
            q.unapply(m, u);
            ops.push(Op::Undo);
            continue;
        }
        match choose_next(s, &mut q, &pol, &st) {
            Some(m) => {
                let u = q.apply(m);
                st.push((m, u));
                ops.push(Op::Do(m));
            }
            None => {
                if st.is_empty() {
                    break;
                }
                down = s.range(1, st.len());
            }
        }
    }
    if finish {
        for _ in 0..st.len() {
            ops.push(Op::Undo);
        }
    }
    ops
}

/// A history over several clones, after the moves `pre`.
pub fn forks(s: &mut Src, p: &MPos, pre: Vec<Op>, n: usize) -> Vec<Op> {
    type Slot = (MPos, Vec<(Mv, Undo)>);
    let pol = Policy::pick(s);
    let mut slots: Vec<Option<Slot>> = vec![None; SLOTS];
    let mut cur: Slot = (p.clone(), vec![]);
    let mut at = 0usize;
    let mut ops = pre;
    for op in &ops {
        match *op {
            Op::Do(m) => {
                let u = cur.0.apply(m);
                cur.1.push((m, u));
            }
            _ => {
                let (m, u) = cur.1.pop().unwrap();
                cur.0.unapply(m, u);
            }
        }
    }
    let mut down = 0usize;
    for _ in 0..n {
        if down > 0 && !cur.1.is_empty() {
            down -= 1;
            let (m, u) = cur.1.pop().unwrap();
            cur.0.unapply(m, u);
            ops.push(Op::Undo);
            continue;
        }
        match s.below(20) {
            0..=2 => {
                let t = s.below(SLOTS);
                if t != at {
                    slots[t] = Some(cur.clone());
                    ops.push(Op::Fork(t as u8));
                }
            }
            3..=5 => {
                let t = s.below(SLOTS);
                if t != at && slots[t].is_some() {
                    let x = slots[t].take().unwrap();
                    slots[at] = Some(std::mem::replace(&mut cur, x));
                    at = t;
                    ops.push(Op::Use(t as u8));
                }
            }
            6..=9 if !cur.1.is_empty() => {
                let (m, u) = cur.1.pop().unwrap();
                cur.0.unapply(m, u);
                ops.push(Op::Undo);
            }
            10 if !cur.1.is_empty() => down = s.range(1, cur.1.len()),
            _ => {
                if let Some(m) = choose_next(s, &mut cur.0, &pol, &cur.1) {
                    let u = cur.0.apply(m);
                    cur.1.push((m, u));
                    ops.push(Op::Do(m));
                }
            }
        }
    }
    ops
}
