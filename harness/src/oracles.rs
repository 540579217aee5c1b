//! One executable check per property. Every check takes an explicit case (a
//! starting position, a history of operations, possibly a second position)
//! and says whether the property held on it.

use crate::gen::*;
use crate::model::*;
use crate::src::{mix, Src};
use crate::sut;
use crate::sut::Position;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Ctx {
    /// oracle applications
    pub evals: u64,
    /// hashes of the non-trivial ones
    pub hashes: Vec<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    /// key -> hash of the (board, side, hands) it was seen for
    pub seen_keys: std::collections::HashMap<u64, (u64, u64)>,
    pub case_no: u64,
    pub digest: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn nontrivial(&mut self, h: u64, sample: impl FnOnce() -> String) {
        self.hashes.push(h);
        // a few samples spread over the run
        let n = self.hashes.len();
        if self.samples.len() < 6 && n.is_power_of_two() && n.trailing_zeros() % 3 == 0 {
            let s = sample();
            self.samples.push(s);
        }
    }
}

pub fn hash_pos(p: &MPos) -> u64 {
    let mut h = 0x1234_5678u64 ^ p.side as u64;
    for c in p.board.chunks(8) {
        let mut w = 0u64;
        for &b in c {
            w = w << 8 | b as u64;
        }
        h = mix(h ^ w);
    }
    for hd in &p.hands {
        h = mix(h ^ u64::from_le_bytes(*hd));
    }
    h
}

pub type Res = Result<(), String>;

/// Where a failure happened, for messages.
fn at(p: &MPos, i: usize) -> String {
    if i == 0 {
        format!("in '{}'", p.sfen())
    } else {
        format!("after op {} in '{}'", i, p.sfen())
    }
}

/// The position a case starts from, the default one both as such and built.
fn origin(c: &Case) -> Position {
    if c.ops.len() % 2 == 1 && c.start == MPos::startpos() {
        Position::default()
    } else {
        sut::make(&c.start)
    }
}

/// Run the history, calling `f` at the start and after every operation.
fn drive(
    c: &Case,
    mut f: impl FnMut(&mut Position, &mut MPos, usize, Option<Op>) -> Res,
) -> Res {
    let mut pos = origin(c);
    let mut m = c.start.clone();
    let mut st: Vec<(Mv, Undo)> = vec![];
    f(&mut pos, &mut m, 0, None)?;
    for (i, op) in c.ops.iter().enumerate() {
        match *op {
            Op::Do(mv) => {
                pos.do_move(sut::to_move(mv, m.side));
                let u = m.apply(mv);
                st.push((mv, u));
            }
            Op::Undo => {
                let (mv, u) = st.pop().expect("undo without do");
                m.unapply(mv, u);
                pos.undo_move(sut::to_move(mv, m.side));
            }
            _ => unreachable!(),
        }
        f(&mut pos, &mut m, i + 1, Some(*op))?;
    }
    Ok(())
}

fn lib_legal(pos: &Position, m: &MPos, i: usize) -> Result<Vec<Mv>, String> {
    sut::legal(pos).map_err(|e| format!("{e} {}", at(m, i)))
}

fn cmp_moves(lib: &[Mv], model: &[Mv], m: &MPos, i: usize) -> Res {
    match sut::diff_moves(lib, model) {
        Some(d) => Err(format!("{d} {}", at(m, i))),
        None => Ok(()),
    }
}

fn has_hand(m: &MPos) -> bool {
    m.hands[m.side as usize].iter().any(|&n| n > 0)
}

// ---------------------------------------------------------------- C01
fn legal_exact(c: &Case, ctx: &mut Ctx) -> Res {
    drive(c, |pos, m, i, _| {
        let l = lib_legal(pos, m, i)?;
        let r = m.legal();
        ctx.evals += 1;
        cmp_moves(&l, &r, m, i)?;
        let check = m.in_check();
        let cap = r
            .iter()
            .any(|x| !x.is_drop() && m.board[x.to as usize] != 0);
        if check {
            ctx.label("mover in check");
        }
        if r.is_empty() {
            ctx.label(if check { "checkmate" } else { "stalemate" });
        }
        if r.iter().any(|x| x.is_drop()) {
            ctx.label("drops available");
        }
        if r.iter().any(|x| x.promote) {
            ctx.label("promotion available");
        }
        if i > 0 {
            ctx.label("reached by play");
        }
        if r.len() > 200 {
            ctx.label("more than 200 moves");
        }
        if check || cap || has_hand(m) {
            ctx.nontrivial(hash_pos(m), || format!("{} ({} moves)", m.sfen(), r.len()));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C02
fn evasions_at(pos: &Position, m: &MPos, i: usize, ctx: &mut Ctx) -> Res {
    let ch = m.checkers();
    if ch.is_empty() {
        ctx.label("not in check");
        return Ok(());
    }
    let l = lib_legal(pos, m, i)?;
    let r = m.legal();
    ctx.evals += 1;
    cmp_moves(&l, &r, m, i)?;
    let k = m.king(m.side).unwrap();
    ctx.label(if ch.len() > 1 {
        "double check"
    } else {
        let (df, dr) = (file(ch[0]) - file(k), rank(ch[0]) - rank(k));
        if df.abs().max(dr.abs()) == 1 {
            "contact check"
        } else if df.abs() == 1 && dr.abs() == 2 {
            "knight check"
        } else {
            "distant check"
        }
    });
    if r.is_empty() {
        ctx.label("checkmate");
    }
    if r.iter().any(|x| x.is_drop()) {
        ctx.label("interposing drop");
    }
    if r.iter().any(|x| !x.is_drop() && x.to == ch[0]) {
        ctx.label("capture of checker");
    }
    if r
        .iter()
        .any(|x| !x.is_drop() && x.from != k && !ch.contains(&x.to))
    {
        ctx.label("interposing move");
    }
    ctx.nontrivial(hash_pos(m), || {
        format!("{} ({} evasions)", m.sfen(), r.len())
    });
    Ok(())
}
fn evasions(c: &Case, ctx: &mut Ctx) -> Res {
    drive(c, |pos, m, i, _| {
        evasions_at(pos, m, i, ctx)?;
        if i == 0 || i == c.ops.len() {
            // checks given from here: the incremental way into a check
            let mut n = 0;
            for mv in m.legal() {
                let u = m.apply(mv);
                let r = if m.in_check() {
                    n += 1;
                    pos.do_move(sut::to_move(mv, m.side ^ 1));
                    let r = evasions_at(pos, m, i, ctx)
                        .map_err(|e| format!("{e} after {}", mv.usi()));
                    if r.is_ok() {
                        pos.undo_move(sut::to_move(mv, m.side ^ 1));
                    }
                    r
                } else {
                    Ok(())
                };
                m.unapply(mv, u);
                r?;
                if n >= 12 {
                    break;
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C03
fn king_safety(c: &Case, ctx: &mut Ctx) -> Res {
    drive(c, |pos, m, i, _| {
        let l: Vec<Mv> = lib_legal(pos, m, i)?
            .into_iter()
            .filter(|x| !x.is_drop())
            .collect();
        let mut ps = vec![];
        m.pseudo_board(&mut ps);
        let mut q = m.clone();
        let side = m.side;
        let k = m.king(side);
        let mut bad_king = false;
        let mut bad_other = false;
        let mut r: Vec<Mv> = vec![];
        for &x in &ps {
            let u = q.apply(x);
            let safe = !q.in_check_of(side);
            q.unapply(x, u);
            if safe {
                r.push(x)
            } else if Some(x.from) == k {
                bad_king = true
            } else {
                bad_other = true
            }
        }
        r.sort_unstable();
        ctx.evals += 1;
        cmp_moves(&l, &r, m, i)?;
        let pins = m.pinned(side);
        if !pins.is_empty() {
            ctx.label("pinned piece");
            if r.iter().any(|x| pins.contains(&x.from)) {
                ctx.label("pinned piece can move on its line");
            }
            if pins.len() > 1 {
                ctx.label("several pinned pieces");
            }
        }
        if bad_king {
            ctx.label("king move into attack excluded");
        }
        if bad_other {
            ctx.label("move exposing the king excluded");
        }
        if bad_king || bad_other {
            ctx.nontrivial(hash_pos(m), || {
                format!("{} ({} of {} pseudo-moves legal)", m.sfen(), r.len(), ps.len())
            });
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C04
fn front_square(m: &MPos) -> Option<u8> {
    m.king(m.side ^ 1)
        .and_then(|k| sq(file(k), rank(k) + if m.side == BLACK { 1 } else { -1 }))
}
fn drops(c: &Case, ctx: &mut Ctx) -> Res {
    drive(c, |pos, m, i, _| {
        let front = front_square(m);
        // pawn drops giving check are the subject of C05
        let keep = |x: &Mv| x.is_drop() && !(x.drop_kind() == P && Some(x.to) == front);
        let l: Vec<Mv> = lib_legal(pos, m, i)?.into_iter().filter(keep).collect();
        let mut r: Vec<Mv> = m.legal().into_iter().filter(keep).collect();
        r.sort_unstable();
        ctx.evals += 1;
        cmp_moves(&l, &r, m, i)?;
        let h = &m.hands[m.side as usize];
        let kinds = (1..=7).filter(|&k| h[k] > 0).count();
        if m.in_check() {
            ctx.label("drops while in check");
        }
        if h[P as usize] > 0 && (1..=9).any(|f| m.pawn_on_file(f, m.side)) {
            ctx.label("pawn drop restricted by own pawn on a file");
        }
        if h[P as usize] > 0
            && (1..=9).any(|f| {
                (1..=9).any(|x| m.board[sq(f, x).unwrap() as usize] == piece(PP, m.side))
                    && !m.pawn_on_file(f, m.side)
            })
        {
            ctx.label("promoted pawn on a file open to drops");
        }
        if h[N as usize] > 0 {
            ctx.label("knight in hand");
        }
        if h[L as usize] > 0 {
            ctx.label("lance in hand");
        }
        if kinds == 7 {
            ctx.label("all seven kinds in hand");
        }
        if h[P as usize] >= 10 {
            ctx.label("ten or more pawns in hand");
        }
        if kinds > 0 {
            ctx.nontrivial(hash_pos(m), || format!("{} ({} drops)", m.sfen(), r.len()));
        } else if l.is_empty() {
            ctx.label("empty hand");
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C05
fn pawn_drop_mate(c: &Case, ctx: &mut Ctx) -> Res {
    drive(c, |pos, m, i, _| {
        let Some(front) = front_square(m) else {
            return Ok(());
        };
        let mv = Mv::drop(P, front);
        let mut ps = vec![];
        m.pseudo_drops(&mut ps);
        if !ps.contains(&mv) {
            ctx.label("no checking pawn drop possible");
            return Ok(());
        }
        let mut q = m.clone();
        q.apply(mv);
        let own_ok = !q.in_check_of(m.side);
        let mate = own_ok && m.is_pawn_drop_mate(mv);
        let want = own_ok && !mate;
        let l = lib_legal(pos, m, i)?;
        ctx.evals += 1;
        let got = l.contains(&mv);
        if got != want {
            return Err(format!(
                "pawn drop {} {}, but it {} {}",
                mv.usi(),
                if got { "listed" } else { "not listed" },
                if !own_ok {
                    "leaves the mover in check"
                } else if mate {
                    "is mate"
                } else {
                    "is not mate"
                },
                at(m, i)
            ));
        }
        if m.in_check() {
            ctx.label("mover in check");
        }
        ctx.label(if !own_ok {
            "drop leaves mover in check"
        } else if mate {
            "mating pawn drop (excluded)"
        } else {
            "checking pawn drop (allowed)"
        });
        if own_ok && !mate {
            // why is it not mate?
            let e = q.legal();
            let k = q.king(q.side).unwrap();
            let kc = e.iter().any(|x| x.from == k && x.to == front);
            let pc = e.iter().any(|x| !x.is_drop() && x.from != k);
            let fl = e.iter().any(|x| x.from == k && x.to != front);
            if pc && !kc && !fl {
                ctx.label("only escape: another piece captures");
            }
            if fl && !kc && !pc {
                ctx.label("only escape: king flight");
            }
            if kc && !pc && !fl {
                ctx.label("only escape: king captures");
            }
        }
        ctx.nontrivial(hash_pos(m), || {
            format!("{} {} mate={mate}", m.sfen(), mv.usi())
        });
        Ok(())
    })
}

// ---------------------------------------------------------------- C06
fn promotions(c: &Case, ctx: &mut Ctx) -> Res {
    drive(c, |pos, m, i, _| {
        let l: Vec<Mv> = lib_legal(pos, m, i)?
            .into_iter()
            .filter(|x| !x.is_drop())
            .collect();
        let r: Vec<Mv> = m.legal().into_iter().filter(|x| !x.is_drop()).collect();
        ctx.evals += 1;
        cmp_moves(&l, &r, m, i)?;
        let side = m.side;
        let mut nt = false;
        for x in &l {
            let k = kind(m.board[x.from as usize]);
            let zone = rel_rank(x.from, side) <= 3 || rel_rank(x.to, side) <= 3;
            if x.promote {
                if !zone || promote(k).is_none() {
                    return Err(format!("promotion {} not allowed {}", x.usi(), at(m, i)));
                }
                nt = true;
                ctx.label("promoting move");
                let other = Mv {
                    promote: false,
                    ..*x
                };
                if l.binary_search(&other).is_err() {
                    ctx.label("forced promotion");
                    if !MPos::dead(k, x.to, side) {
                        return Err(format!("{} wrongly forced {}", x.usi(), at(m, i)));
                    }
                }
                if rel_rank(x.to, side) > 3 {
                    ctx.label("promotion on leaving the zone");
                }
                // the promoted piece stands on the target, and capture by the
                // opponent later yields the unpromoted kind
                pos.do_move(sut::to_move(*x, side));
                let got = sut::read(pos).board[x.to as usize];
                pos.undo_move(sut::to_move(*x, side));
                if got != piece(promote(k).unwrap(), side) {
                    return Err(format!("{} put piece code {got} {}", x.usi(), at(m, i)));
                }
            } else if zone && promote(k).is_none() {
                ctx.label("unpromotable piece in the zone");
            }
        }
        if nt {
            ctx.nontrivial(hash_pos(m), || {
                format!("{} ({} promoting)", m.sfen(), l.iter().filter(|x| x.promote).count())
            });
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C07
fn check_read(pos: &Position, m: &MPos, i: usize, what: &str) -> Res {
    let got = sut::read(pos);
    match sut::diff_pos(&got, m) {
        Some(d) => Err(format!("{what}: library has, rules give: {d} (op {i})")),
        None => Ok(()),
    }
}
fn do_move(c: &Case, ctx: &mut Ctx) -> Res {
    let total = c.start.material();
    drive(c, |pos, m, i, _| {
        check_read(pos, m, i, "history")?;
        ctx.evals += 1;
        let side = m.side;
        let mut h = hash_pos(m);
        let mut nt = false;
        for mv in m.legal() {
            let u = m.apply(mv);
            pos.do_move(sut::to_move(mv, side));
            let r = check_read(pos, m, i, &mv.usi());
            if r.is_ok() {
                let n = sut::read(pos).material();
                if n != total {
                    m.unapply(mv, u);
                    return Err(format!("{} changes the material", mv.usi()));
                }
                pos.undo_move(sut::to_move(mv, side));
            }
            m.unapply(mv, u);
            r?;
            ctx.evals += 1;
            if mv.is_drop() {
                ctx.label("drop");
                nt = true;
            } else {
                let cap = m.board[mv.to as usize];
                if cap != 0 {
                    nt = true;
                    h = mix(h);
                    ctx.label(if kind(cap) >= PP {
                        "capture of promoted piece"
                    } else {
                        "capture"
                    });
                }
                if mv.promote {
                    nt = true;
                    ctx.label("promotion");
                }
            }
        }
        if nt {
            ctx.nontrivial(hash_pos(m), || m.sfen());
        }
        let _ = h;
        Ok(())
    })
}

// ---------------------------------------------------------------- C08
fn undo(c: &Case, ctx: &mut Ctx) -> Res {
    // the library's own earlier observations are the oracle
    let mut snaps: Vec<sut::Obs> = vec![];
    let mut st: Vec<Mv> = vec![];
    let mut depth_max = 0;
    let r = drive(c, |pos, m, i, op| {
        let o = sut::observe(pos).map_err(|e| format!("{e} {}", at(m, i)))?;
        ctx.evals += 1;
        match op {
            None => snaps.push(o),
            Some(Op::Do(mv)) => {
                snaps.push(o);
                st.push(mv);
                depth_max = depth_max.max(st.len());
            }
            Some(Op::Undo) => {
                snaps.pop();
                let mv = st.pop().unwrap();
                if let Some(d) = snaps.last().unwrap().diff(&o) {
                    return Err(format!(
                        "before {} vs after undoing it: {d} {}",
                        mv.usi(),
                        at(m, i)
                    ));
                }
                let cap = m.board[mv.to as usize];
                ctx.label(if mv.is_drop() {
                    "undo of drop"
                } else if cap != 0 && kind(cap) >= PP {
                    "undo of capture of promoted piece"
                } else if cap != 0 {
                    "undo of capture"
                } else if mv.promote {
                    "undo of promotion"
                } else {
                    "undo of quiet move"
                });
                if o.in_check {
                    ctx.label("undo into check");
                }
                let h = mix(hash_pos(m) ^ mix((mv.from as u64) << 9 | (mv.to as u64) << 1 | mv.promote as u64));
                ctx.nontrivial(h, || format!("{} undo {}", m.sfen(), mv.usi()));
            }
            _ => {}
        }
        Ok(())
    });
    for (n, l) in [
        (256, "case with history of 256+ moves"),
        (1024, "case with history of 1024+ moves"),
        (2048, "case with history of 2048+ moves"),
        (4096, "case with history of 4096+ moves"),
    ] {
        if depth_max >= n {
            ctx.label(l);
        }
    }
    r
}

/// One step (do and undo) of every legal move, compared on everything.
fn undo_each(c: &Case, ctx: &mut Ctx) -> Res {
    undo(c, ctx)?;
    if c.ops.len() > 40 {
        return Ok(());
    }
    let pos0 = sut::make(&c.start);
    let mut pos = pos0.clone();
    let before = sut::observe(&pos0)?;
    for &(mv, _) in &before.moves {
        pos.do_move(sut::to_move(mv, before.pos.side));
        pos.undo_move(sut::to_move(mv, before.pos.side));
        let after = sut::observe(&pos)?;
        ctx.evals += 1;
        if let Some(d) = before.diff(&after) {
            return Err(format!("before vs after do/undo of {}: {d}", mv.usi()));
        }
        let h = mix(hash_pos(&c.start) ^ mix((mv.from as u64) << 9 | (mv.to as u64) << 1 | mv.promote as u64));
        ctx.nontrivial(h, || format!("{} do+undo {}", c.start.sfen(), mv.usi()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C09
fn in_check(c: &Case, ctx: &mut Ctx) -> Res {
    drive(c, |pos, m, i, op| {
        let want = m.in_check();
        ctx.evals += 1;
        if pos.in_check() != want {
            return Err(format!("in_check() is {}, {}", !want, at(m, i)));
        }
        if want {
            ctx.label(match op {
                None => "check at construction",
                Some(Op::Undo) => "check after undo",
                _ => "check after a move",
            });
            ctx.nontrivial(hash_pos(m), || m.sfen());
        }
        if i == 0 || i == c.ops.len() {
            let side = m.side;
            for mv in m.legal() {
                let u = m.apply(mv);
                let w = m.in_check();
                pos.do_move(sut::to_move(mv, side));
                let got = pos.in_check();
                ctx.evals += 1;
                if w {
                    ctx.label(if mv.is_drop() {
                        "check by drop"
                    } else if mv.promote {
                        "check by promotion"
                    } else if m.attacks(mv.to, m.king(m.side).unwrap()) {
                        "direct check"
                    } else {
                        "discovered check"
                    });
                    ctx.nontrivial(hash_pos(m), || m.sfen());
                }
                let e = (got != w).then(|| format!("in_check() is {got} after {}: '{}'", mv.usi(), m.sfen()));
                m.unapply(mv, u);
                if let Some(e) = e {
                    return Err(e);
                }
                pos.undo_move(sut::to_move(mv, side));
                if pos.in_check() != want {
                    return Err(format!(
                        "in_check() is {} after do/undo of {} {}",
                        !want,
                        mv.usi(),
                        at(m, i)
                    ));
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C10
fn check_move(c: &Case, ctx: &mut Ctx) -> Res {
    drive(c, |pos, m, i, _| {
        let side = m.side;
        for mv in m.legal() {
            let lm = sut::to_move(mv, side);
            let got = pos.is_check_move(lm);
            let u = m.apply(mv);
            let want = m.in_check();
            let direct = want && m.attacks(mv.to, m.king(m.side).unwrap());
            let n = if want { m.checkers().len() } else { 0 };
            m.unapply(mv, u);
            ctx.evals += 1;
            if got != want {
                return Err(format!("is_check_move({}) is {got} {}", mv.usi(), at(m, i)));
            }
            if want {
                ctx.label(match (direct, n) {
                    (true, 1) => "direct check",
                    (false, _) => "discovered check",
                    _ => "double check",
                });
                if mv.is_drop() {
                    ctx.label("check by drop");
                }
                if mv.promote {
                    ctx.label("check by promoting move");
                }
                if !mv.is_drop() && kind(m.board[mv.from as usize]) == K {
                    ctx.label("check discovered by the king");
                }
                let h = mix(hash_pos(m) ^ mix((mv.from as u64) << 9 | (mv.to as u64) << 1 | mv.promote as u64));
                ctx.nontrivial(h, || format!("{} {}", m.sfen(), mv.usi()));
                // and the position after the move agrees
                pos.do_move(lm);
                let ic = pos.in_check();
                pos.undo_move(lm);
                if !ic {
                    return Err(format!("{} announced as check, in_check() false after it {}", mv.usi(), at(m, i)));
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C11
fn key_path(c: &Case, ctx: &mut Ctx) -> Res {
    drive(c, |pos, m, i, _| {
        let one = |pos: &Position, m: &MPos, what: &str| -> Res {
            let f = sut::make(m);
            let (a, b) = (pos.keys(), f.keys());
            if a != b || pos.key() != f.key() {
                return Err(format!(
                    "{what}: keys {:x?}/{:x} but a fresh position has {:x?}/{:x}: '{}'",
                    a,
                    pos.key(),
                    b,
                    f.key(),
                    m.sfen()
                ));
            }
            if pos.key() != a.0 ^ a.1 {
                return Err(format!("key() is not the combination of keys() '{}'", m.sfen()));
            }
            Ok(())
        };
        one(pos, m, "history")?;
        ctx.evals += 1;
        let mut h = 0;
        if i > 0 {
            h = hash_pos(m);
            ctx.label("reached by play");
        }
        // the move counter is not part of what is hashed
        let mut q = m.clone();
        q.ply = if m.ply == 77 { 78 } else { 77 };
        if sut::make(&q).keys() != pos.keys() {
            return Err(format!("keys depend on the move counter '{}'", m.sfen()));
        }
        if h != 0 {
            ctx.nontrivial(h, || format!("{} after {} ops", m.sfen(), i));
        }
        if i == c.ops.len() && i <= 60 {
            let side = m.side;
            for mv in m.legal() {
                let u = m.apply(mv);
                pos.do_move(sut::to_move(mv, side));
                let r = one(pos, m, &mv.usi());
                ctx.evals += 1;
                ctx.nontrivial(hash_pos(m), || format!("{} after {}", m.sfen(), mv.usi()));
                m.unapply(mv, u);
                r?;
                pos.undo_move(sut::to_move(mv, side));
                one(pos, m, "undo")?;
            }
        }
        Ok(())
    })
}

/// Transpositions: a x b y and b x a y style reorderings reach the same keys.
fn transpose(c: &Case, ctx: &mut Ctx) -> Res {
    key_path(c, ctx)?;
    let mv: Vec<Mv> = c
        .ops
        .iter()
        .filter_map(|o| if let Op::Do(m) = o { Some(*m) } else { None })
        .collect();
    if mv.len() != c.ops.len() || mv.len() < 3 {
        return Ok(());
    }
    for i in 0..mv.len().min(24) - 2 {
        let mut alt = mv[..i + 3].to_vec();
        alt.swap(i, i + 2);
        let mut q = c.start.clone();
        let mut ok = true;
        for &x in &alt {
            if q.legal().binary_search(&x).is_err() {
                ok = false;
                break;
            }
            q.apply(x);
        }
        let mut p = c.start.clone();
        for &x in &mv[..i + 3] {
            p.apply(x);
        }
        if !ok || p != q || alt[..] == mv[..i + 3] {
            continue;
        }
        let run = |l: &[Mv]| {
            let mut s = c.start.side;
            let mut pos = sut::make(&c.start);
            for &x in l {
                pos.do_move(sut::to_move(x, s));
                s ^= 1;
            }
            pos.keys()
        };
        let (a, b) = (run(&mv[..i + 3]), run(&alt));
        ctx.evals += 1;
        ctx.label("transposition");
        if a != b {
            return Err(format!("two move orders reach '{}' with keys {a:x?} and {b:x?}", p.sfen()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12
fn same_board(a: &MPos, b: &MPos) -> bool {
    a.board == b.board && a.side == b.side
}
fn key_pair(a: &MPos, b: &MPos) -> Res {
    let (x, y) = (sut::make(a), sut::make(b));
    let (kx, ky) = (x.keys(), y.keys());
    let bs = same_board(a, b);
    let hs = a.hands == b.hands;
    if (kx.0 == ky.0) != bs {
        return Err(format!(
            "board keys {:x} and {:x}, boards+side {}: '{}' and '{}'",
            kx.0,
            ky.0,
            if bs { "equal" } else { "differ" },
            a.sfen(),
            b.sfen()
        ));
    }
    if (kx.1 == ky.1) != hs {
        return Err(format!(
            "hand keys {:x} and {:x}, hands {}: '{}' and '{}'",
            kx.1,
            ky.1,
            if hs { "equal" } else { "differ" },
            a.sfen(),
            b.sfen()
        ));
    }
    if (x.key() == y.key()) != (bs && hs) {
        return Err(format!(
            "keys {:x} and {:x}: '{}' and '{}'",
            x.key(),
            y.key(),
            a.sfen(),
            b.sfen()
        ));
    }
    Ok(())
}
fn key_separation(c: &Case, ctx: &mut Ctx) -> Res {
    let b = c.other.as_ref().unwrap_or(&c.start);
    key_pair(&c.start, b)?;
    ctx.evals += 1;
    let nb = (0..81).filter(|&i| c.start.board[i] != b.board[i]).count();
    let hd = c.start.hands != b.hands;
    ctx.label(match (nb, hd, c.start.side != b.side) {
        (0, false, true) => "differ in side only",
        (0, true, false) => "differ in hands only",
        (1, false, false) => "differ in one square",
        (2, false, false) => "differ in two squares",
        (_, false, _) => "boards differ",
        (0, true, true) => "differ in hands and side",
        (_, true, _) => "boards and hands differ",
    });
    if c.start != *b {
        ctx.nontrivial(mix(hash_pos(&c.start)) ^ hash_pos(b), || {
            format!("{} / {}", c.start.sfen(), b.sfen())
        });
    }
    // birthday check over every position of the run
    for p in [&c.start, b] {
        let k = sut::make(p).key();
        let h = hash_pos(p);
        let case = ctx.case_no;
        if let Some(&(h0, c0)) = ctx.seen_keys.get(&k) {
            if h0 != h {
                return Err(format!(
                    "KEY COLLISION {k:x} with a position of case {c0}: '{}'",
                    p.sfen()
                ));
            }
        } else {
            ctx.seen_keys.insert(k, (h, case));
        }
    }
    Ok(())
}
/// A second position close to the first one.
pub fn neighbour(s: &mut Src, a: &MPos) -> MPos {
    for _ in 0..30 {
        let mut b = a.clone();
        let edits = *s.pick(&[1usize, 1, 1, 1, 2, 3]);
        for _ in 0..edits {
            let x = s.below(81);
            let y = s.below(81);
            match s.below(12) {
                0 => b.board.swap(x, y),
                1 => {
                    // promote or unpromote
                    let p = b.board[x];
                    if p != 0 {
                        let k = kind(p);
                        let k2 = promote(k).unwrap_or(unpromote(k));
                        b.board[x] = piece(k2, color(p));
                    }
                }
                2 => {
                    if b.board[x] != 0 && kind(b.board[x]) != K {
                        b.board[x] ^= 16
                    }
                }
                3 => {
                    if b.board[x] != 0 && kind(b.board[x]) != K {
                        b.board[x] = 0
                    }
                }
                4 => {
                    if b.board[x] != 0 && kind(b.board[x]) != K {
                        let k = unpromote(kind(b.board[x])) as usize;
                        b.board[x] = 0;
                        b.hands[s.below(2)][k] += 1;
                    }
                }
                5 => {
                    let k = s.range(1, 14) as u8;
                    if b.board[x] != 0 && kind(b.board[x]) != K && k != K {
                        b.board[x] = piece(k, color(b.board[x]));
                    }
                }
                6 => b.side ^= 1,
                7 => {
                    let (k, c) = (s.range(1, 7), s.below(2));
                    b.hands[c][k] += 1;
                }
                8 => {
                    let (k, c) = (s.range(1, 7), s.below(2));
                    b.hands[c][k] = b.hands[c][k].saturating_sub(1);
                }
                9 => {
                    let (k, c) = (s.range(1, 7), s.below(2));
                    if b.hands[c][k] > 0 {
                        b.hands[c][k] -= 1;
                        b.hands[c ^ 1][k] += 1;
                    }
                }
                10 => {
                    // exchange the counts of two kinds, or of the two sides
                    let (k, l) = (s.range(1, 7), s.range(1, 7));
                    if s.chance(50) {
                        let c = s.below(2);
                        b.hands[c].swap(k, l);
                    } else {
                        let t = b.hands[0][k];
                        b.hands[0][k] = b.hands[1][l];
                        b.hands[1][l] = t;
                    }
                }
                _ => {
                    // shift one piece by one square
                    let d = *s.pick(&[1usize, 9, 10, 8]);
                    if x + d < 81 {
                        b.board.swap(x, x + d)
                    }
                }
            }
        }
        if b.validate().is_ok() && b != *a {
            return b;
        }
    }
    a.clone()
}

/// Exhaustive part of C12: the hash of every single feature (a piece on a
/// square, the n-th piece of a kind in hand, the side to move) read off
/// through the public API, all distinct, non-zero, and free of coincidences
/// between sums of up to four features.
pub fn key_features(ctx: &mut Ctx) -> Result<(), (Case, String)> {
    let fail = |a: &MPos, b: &MPos, e: String| {
        Err((
            Case {
                start: a.clone(),
                ops: vec![],
                other: Some(b.clone()),
            },
            e,
        ))
    };
    let empty = MPos::empty();
    let mut w = empty.clone();
    w.side = WHITE;
    if let Err(e) = key_pair(&empty, &w) {
        return fail(&empty, &w, e);
    }
    let k0 = sut::make(&empty).keys();
    let mut feats: Vec<(u64, usize, u8)> = vec![]; // value, square, piece
    for s in 0..81usize {
        for c in [BLACK, WHITE] {
            for k in 1..=14u8 {
                if MPos::dead(k, s as u8, c) {
                    continue;
                }
                let mut p = empty.clone();
                p.board[s] = piece(k, c);
                let ks = sut::make(&p).keys();
                ctx.evals += 1;
                if let Err(e) = key_pair(&empty, &p) {
                    return fail(&empty, &p, e);
                }
                feats.push((ks.0 ^ k0.0, s, piece(k, c)));
                ctx.nontrivial(hash_pos(&p), || p.sfen());
            }
        }
    }
    ctx.label("exhaustive: all single-piece boards");
    let single = |f: &(u64, usize, u8)| {
        let mut p = MPos::empty();
        p.board[f.1] = f.2;
        p
    };
    let mut sorted = feats.clone();
    sorted.sort_unstable();
    for x in sorted.windows(2) {
        if x[0].0 == x[1].0 {
            let (a, b) = (single(&x[0]), single(&x[1]));
            if let Err(e) = key_pair(&a, &b) {
                return fail(&a, &b, e);
            }
        }
    }
    // hands: every (kind, count, kind, count) combination of the two sides
    let mut hv: Vec<(u64, MPos)> = vec![];
    for k in 1..=7usize {
        for n in 0..=FULL[k] {
            for b in 0..=(FULL[k] - n) {
                let mut p = empty.clone();
                p.hands[0][k] = n;
                p.hands[1][k] = b;
                hv.push((sut::make(&p).keys().1, p));
            }
        }
    }
    let one: Vec<MPos> = hv.iter().map(|x| x.1.clone()).collect();
    for a in &one {
        for b in &one {
            let mut p = a.clone();
            for c in 0..2 {
                for k in 1..=7 {
                    p.hands[c][k] += b.hands[c][k];
                }
            }
            if p.validate().is_ok() {
                hv.push((sut::make(&p).keys().1, p));
            }
        }
    }
    ctx.evals += hv.len() as u64;
    hv.sort_by(|a, b| (a.0, a.1.hands).cmp(&(b.0, b.1.hands)));
    hv.dedup();
    for x in hv.windows(2) {
        if x[0].0 == x[1].0 {
            if let Err(e) = key_pair(&x[0].1, &x[1].1) {
                return fail(&x[0].1, &x[1].1, e);
            }
        }
    }
    ctx.label("exhaustive: hands of up to two kinds");
    // coincidences between up to four features of any sort, the side to move
    // being free: sums of one and two features that are equal
    enum F {
        On(usize, u8),
        Held(usize, usize, u8, u8),
    }
    let mut fs: Vec<(u64, F)> = feats.iter().map(|f| (f.0, F::On(f.1, f.2))).collect();
    let on_board = fs.len();
    for c in 0..2 {
        for k in 1..=7usize {
            let v: Vec<u64> = (0..=FULL[k])
                .map(|n| {
                    let mut p = empty.clone();
                    p.hands[c][k] = n;
                    sut::make(&p).keys().1
                })
                .collect();
            for m in 1..=FULL[k] {
                for n in 0..m {
                    fs.push((v[n as usize] ^ v[m as usize], F::Held(c, k, n, m)));
                }
            }
        }
    }
    let side = sut::make(&w).keys().0 ^ k0.0;
    let canon = |v: u64| v.min(v ^ side);
    // the single key takes all features together, the board key those on the
    // board; hand keys were compared above
    for n in [fs.len(), on_board] {
        let mut sums: Vec<(u64, u32)> = vec![(0, u32::MAX)];
        for i in 0..n {
            sums.push((canon(fs[i].0), (i << 16 | 0xffff) as u32));
            for j in 0..i {
                sums.push((canon(fs[i].0 ^ fs[j].0), (i << 16 | j) as u32));
            }
        }
        ctx.evals += sums.len() as u64;
        sums.sort_unstable();
        let mut tried = 0;
        for x in sums.windows(2) {
            if x[0].0 != x[1].0 || tried > 20_000 {
                continue;
            }
            tried += 1;
            let ids: Vec<usize> = [x[0].1 >> 16, x[0].1 & 0xffff, x[1].1 >> 16, x[1].1 & 0xffff]
                .into_iter()
                .map(|v| v as usize)
                .filter(|&v| v != 0xffff)
                .collect();
            // which of the two positions has which feature, and who moves
            for split in 0..1u32 << (ids.len() + 1) {
                let mut ps = [empty.clone(), empty.clone()];
                let mut taken = [[false; 81]; 2];
                let mut ok = true;
                ps[1].side ^= (split & 1) as u8;
                for (b, &id) in ids.iter().enumerate() {
                    let t = (split >> (b + 1) & 1) as usize;
                    match fs[id].1 {
                        F::On(sq, pc) => {
                            ok &= !std::mem::replace(&mut taken[t][sq], true);
                            ps[t].board[sq] = pc;
                        }
                        F::Held(c, k, lo, hi) => {
                            ok &= ps[0].hands[c][k] == 0 && ps[1].hands[c][k] == 0;
                            ps[t].hands[c][k] = hi;
                            ps[1 - t].hands[c][k] = lo;
                        }
                    }
                }
                if ok && ps[0] != ps[1] && ps.iter().all(|p| p.validate().is_ok()) {
                    if let Err(e) = key_pair(&ps[0], &ps[1]) {
                        return fail(&ps[0], &ps[1], e);
                    }
                }
            }
        }
    }
    ctx.label("exhaustive: sums of up to four features");
    Ok(())
}

// ---------------------------------------------------------------- C13
fn history_free(c: &Case, ctx: &mut Ctx) -> Res {
    drive(c, |pos, m, i, op| {
        let a = sut::observe(pos).map_err(|e| format!("{e} {}", at(m, i)))?;
        // rebuilt from what the library itself reports
        let mut placed = a.pos.clone();
        placed.ply = 1; // the generator's range of move counters is not a rule
        if let Err(e) = placed.validate() {
            return Err(format!("history reached an invalid position: {e}: {}", a.pos.sfen()));
        }
        let f = sut::make(&a.pos);
        let b = sut::observe(&f).map_err(|e| format!("{e} (fresh) {}", at(m, i)))?;
        ctx.evals += 1;
        if let Some(d) = a.diff(&b) {
            return Err(format!("after the history vs built afresh: {d} {}", at(m, i)));
        }
        if i > 0 {
            if matches!(op, Some(Op::Undo)) {
                ctx.label("after undo");
            }
            if a.in_check {
                ctx.label("in check");
            }
            ctx.nontrivial(hash_pos(m), || format!("{} after {i} ops", m.sfen()));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C14
fn construction(c: &Case, ctx: &mut Ctx) -> Res {
    let p = sut::make(&c.start);
    check_read(&p, &c.start, 0, "constructed")?;
    ctx.evals += 1;
    if c.start.ply == u16::MAX {
        ctx.label("largest move counter");
    }
    ctx.nontrivial(mix(hash_pos(&c.start) ^ c.start.ply as u64), || c.start.sfen());
    if p.in_check() != c.start.in_check() {
        return Err(format!("in_check() wrong at construction '{}'", c.start.sfen()));
    }
    if c.start.in_check() {
        ctx.label("constructed in check");
    }
    if c.start.side == WHITE {
        ctx.label("white to move");
    }
    if c.start.hands.iter().flatten().any(|&n| n > 0) {
        ctx.label("pieces in hand");
    }
    // the same placement handed over by shogi_core's own move application
    let mut pp = sut::to_partial(&c.start);
    let mut m = c.start.clone();
    for (i, op) in c.ops.iter().enumerate() {
        if let Op::Do(mv) = *op {
            let _ = pp.make_move(sut::to_move(mv, m.side));
            m.apply(mv);
            let q = Position::new(pp.clone());
            check_read(&q, &m, i + 1, "constructed from a played-out placement")?;
            let f = sut::make(&m);
            if q.keys() != f.keys() || q.in_check() != f.in_check() {
                return Err(format!("depends on how the input was produced: '{}'", m.sfen()));
            }
            ctx.evals += 1;
            ctx.nontrivial(mix(hash_pos(&m) ^ m.ply as u64), || m.sfen());
        }
    }
    let d = Position::default();
    check_read(&d, &MPos::startpos(), 0, "default()")?;
    Ok(())
}

// ---------------------------------------------------------------- C15
/// Digest of everything observable along the history, for comparison between
/// builds of the library.
pub fn digest(c: &Case, ctx: &mut Ctx) -> Res {
    let mut h = 0u64;
    drive(c, |pos, m, i, _| {
        let o = sut::observe(pos).map_err(|e| format!("{e} {}", at(m, i)))?;
        h = mix(h ^ hash_pos(&o.pos));
        h = mix(h ^ o.pos.ply as u64);
        h = mix(h ^ o.keys.0);
        h = mix(h ^ o.keys.1);
        h = mix(h ^ o.key);
        h = mix(h ^ o.in_check as u64);
        for (mv, ck) in &o.moves {
            h = mix(h ^ ((mv.from as u64) << 32 | (mv.to as u64) << 8 | (mv.promote as u64) << 1 | *ck as u64));
        }
        // the order of the list as well: searches have to be reproducible
        for x in pos.legal_moves() {
            let mv = sut::from_move(x, m.side)?;
            h = mix(h ^ ((mv.from as u64) << 32 | (mv.to as u64) << 8 | mv.promote as u64));
        }
        ctx.evals += 1;
        if !o.moves.is_empty() {
            ctx.nontrivial(hash_pos(m), || format!("{} ({} moves)", m.sfen(), o.moves.len()));
        }
        if o.in_check {
            ctx.label("in check");
        }
        if i > 0 {
            ctx.label("reached by play");
        }
        Ok(())
    })?;
    ctx.digest = h;
    Ok(())
}
/// Human-readable version of the same.
pub fn describe(c: &Case) -> Result<String, String> {
    let mut out = String::new();
    drive(c, |pos, _, i, _| {
        let o = sut::observe(pos)?;
        out += &format!(
            "{i} {} keys {:x} {:x} {:x} check {}",
            o.pos.sfen(),
            o.keys.0,
            o.keys.1,
            o.key,
            o.in_check
        );
        for (m, c) in &o.moves {
            out += &format!(" {}{}", m.usi(), if *c { "!" } else { "" });
        }
        out += " listed:";
        for x in pos.legal_moves() {
            out += &sut::from_move(x, o.pos.side)?.usi();
        }
        out.push('\n');
        Ok(())
    })?;
    Ok(out)
}

// ---------------------------------------------------------------- C16
/// Formats a value for debugging, if its type can be.
macro_rules! debug_format {
    ($x:expr) => {{
        struct Wrap<'a, T>(&'a T);
        #[allow(dead_code)]
        trait Yes {
            fn fmt(&self) -> usize;
        }
        #[allow(dead_code)]
        trait No {
            fn fmt(&self) -> usize;
        }
        impl<T: std::fmt::Debug> Yes for Wrap<'_, T> {
            fn fmt(&self) -> usize {
                format!("{:?}", self.0).len()
            }
        }
        impl<T> No for &Wrap<'_, T> {
            fn fmt(&self) -> usize {
                0
            }
        }
        (&Wrap($x)).fmt()
    }};
}
fn no_panic(c: &Case, ctx: &mut Ctx) -> Res {
    // any panic on the way is caught by the runner and reported
    let mut maxd = 0usize;
    let mut d = 0usize;
    let r = drive(c, |pos, m, i, op| {
        match op {
            Some(Op::Do(_)) => d += 1,
            Some(Op::Undo) => d -= 1,
            _ => {}
        }
        maxd = maxd.max(d);
        let l = pos.legal_moves();
        ctx.evals += 1;
        if l.len() > 593 {
            return Err(format!("{} legal moves {}", l.len(), at(m, i)));
        }
        for &x in &l {
            let mv = sut::from_move(x, m.side).map_err(|e| format!("{e} {}", at(m, i)))?;
            if !mv.is_drop() && m.board[mv.from as usize] == 0 {
                return Err(format!("move {} from a vacant square {}", mv.usi(), at(m, i)));
            }
            let _ = pos.is_check_move(x);
            if i == 0 {
                pos.do_move(x);
                let _ = pos.legal_moves();
                pos.undo_move(x);
            }
        }
        let _ = (pos.key(), pos.keys(), pos.in_check(), pos.ply());
        if i == 0 {
            let _ = debug_format!(pos);
        }
        let n = l.len();
        if n >= 500 {
            ctx.label("500 or more legal moves");
        } else if n >= 300 {
            ctx.label("300 to 499 legal moves");
        }
        if n == 593 {
            ctx.label("593 legal moves");
        }
        if n == 0 {
            ctx.label("no legal move");
        }
        if n > 0 && (n >= 100 || m.in_check() || i > 0) {
            ctx.nontrivial(hash_pos(m), || format!("{} ({n} moves)", m.sfen()));
        }
        Ok(())
    });
    for (n, l) in [
        (1000, "history of 1000 or more moves"),
        (4000, "history of 4000 or more moves"),
    ] {
        if maxd >= n {
            ctx.label(l);
        }
    }
    r
}

// ---------------------------------------------------------------- C17
fn symmetry(c: &Case, ctx: &mut Ctx) -> Res {
    let base = run_obs(&c.start, &c.ops, |p| p.clone(), |m| m)?;
    let rot = run_obs(&c.start, &c.ops, |p| p.rotated(), rotate_mv)?;
    let mir = run_obs(&c.start, &c.ops, |p| p.mirrored(), mirror_mv)?;
    for (name, other, fp, fm) in [
        (
            "rotated with colours exchanged",
            &rot,
            (|p: &MPos| p.rotated()) as fn(&MPos) -> MPos,
            rotate_mv as fn(Mv) -> Mv,
        ),
        (
            "mirrored left-right",
            &mir,
            |p: &MPos| p.mirrored(),
            mirror_mv,
        ),
    ] {
        for (i, (a, b)) in base.iter().zip(other.iter()).enumerate() {
            ctx.evals += 1;
            if let Some(d) = sut::diff_pos(&fp(&a.0), &b.0) {
                return Err(format!("{name}: op {i}: {d}"));
            }
            if a.1 != b.1 {
                return Err(format!(
                    "{name}: in_check {} here, {} there: '{}' op {i}",
                    a.1,
                    b.1,
                    a.0.sfen()
                ));
            }
            let mut x: Vec<(Mv, bool)> = a.2.iter().map(|&(m, c)| (fm(m), c)).collect();
            x.sort_unstable();
            if let Some(d) = sut::diff_moves_flags(&x, &b.2) {
                return Err(format!("{name}: image of '{}' op {i}: {d}", a.0.sfen()));
            }
        }
    }
    for (i, a) in base.iter().enumerate() {
        if a.1 {
            ctx.label("in check");
        }
        if i > 0 {
            ctx.label("reached by play");
        }
        if a.2.iter().any(|m| m.0.is_drop()) {
            ctx.label("with drops");
        }
        if a.0.board != a.0.mirrored().board && !a.2.is_empty() {
            ctx.nontrivial(hash_pos(&a.0), || a.0.sfen());
        }
    }
    Ok(())
}
type Light = (MPos, bool, Vec<(Mv, bool)>);
fn run_obs(
    start: &MPos,
    ops: &[Op],
    fp: impl Fn(&MPos) -> MPos,
    fm: impl Fn(Mv) -> Mv,
) -> Result<Vec<Light>, String> {
    let s = fp(start);
    let mut pos = sut::make(&s);
    let mut side = s.side;
    let mut st = vec![];
    let mut out = vec![];
    let mut obs = |pos: &Position| -> Result<(), String> {
        let o = sut::observe(pos)?;
        out.push((o.pos, o.in_check, o.moves));
        Ok(())
    };
    obs(&pos)?;
    for op in ops {
        match *op {
            Op::Do(m) => {
                let m = fm(m);
                pos.do_move(sut::to_move(m, side));
                st.push(m);
                side ^= 1;
            }
            Op::Undo => {
                side ^= 1;
                pos.undo_move(sut::to_move(st.pop().unwrap(), side));
            }
            _ => unreachable!(),
        }
        obs(&pos)?;
    }
    Ok(out)
}

// ---------------------------------------------------------------- C18
fn clones(c: &Case, ctx: &mut Ctx) -> Res {
    type Slot = (Position, MPos, Vec<(Mv, Undo)>);
    let mut slots: Vec<Option<Slot>> = (0..SLOTS).map(|_| None).collect();
    let mut cur: Slot = (origin(c), c.start.clone(), vec![]);
    let mut at_ = 0usize;
    let mut forked = false;
    // two rounds of queries must agree: asking changes nothing
    let twice = |p: &Position| -> Result<sut::Obs, String> {
        let a = sut::observe(p)?;
        let b = sut::observe(p)?;
        if let Some(d) = a.diff(&b) {
            return Err(format!("asking twice gives different answers: {d}"));
        }
        if p.legal_moves() != p.legal_moves() {
            return Err("legal_moves() twice gives different lists".into());
        }
        Ok(a)
    };
    let verify = |s: &Slot, i: usize, who: &str| -> Res {
        let o = twice(&s.0)?;
        check_read(&s.0, &s.1, i, who)?;
        let l: Vec<Mv> = o.moves.iter().map(|x| x.0).collect();
        cmp_moves(&l, &s.1.legal(), &s.1, i).map_err(|e| format!("{who}: {e}"))?;
        if o.in_check != s.1.in_check() {
            return Err(format!("{who}: in_check() {} {}", o.in_check, at(&s.1, i)));
        }
        let f = sut::observe(&sut::make(&s.1))?;
        match o.diff(&f) {
            Some(d) => Err(format!("{who}, compared with a fresh construction: {d} {}", at(&s.1, i))),
            None => Ok(()),
        }
    };
    for (i, op) in c.ops.iter().enumerate() {
        match *op {
            Op::Do(m) => {
                cur.0.do_move(sut::to_move(m, cur.1.side));
                let u = cur.1.apply(m);
                cur.2.push((m, u));
            }
            Op::Undo => {
                let (m, u) = cur.2.pop().unwrap();
                cur.1.unapply(m, u);
                cur.0.undo_move(sut::to_move(m, cur.1.side));
            }
            Op::Fork(n) => {
                match &mut slots[n as usize] {
                    // over what an older clone leaves behind
                    Some(s) if i % 2 == 0 => {
                        s.0.clone_from(&cur.0);
                        (s.1, s.2) = (cur.1.clone(), cur.2.clone());
                        ctx.label("clone_from over an older clone");
                    }
                    s => *s = Some(cur.clone()),
                }
                forked = true;
                ctx.label("clone taken");
            }
            Op::Use(n) => {
                let s = slots[n as usize].take().unwrap();
                slots[at_] = Some(std::mem::replace(&mut cur, s));
                at_ = n as usize;
                ctx.label("switched to another clone");
            }
        }
        let left = c.ops.len() - 1 - i;
        if (i % 4 == 3 && left < 250) || i % 64 == 63 || left == 0 {
            verify(&cur, i + 1, "active position")?;
            ctx.evals += 1;
            // an unrelated position that differs in little: asking it must
            // not disturb the others, nor they it
            let sib = neighbour(&mut Src::seeded(hash_pos(&cur.1), 18, i as u64), &cur.1);
            if sib != cur.1 {
                verify(&(sut::make(&sib), sib, vec![]), i + 1, "similar unrelated position")?;
                verify(&cur, i + 1, "active position, asked again")?;
                ctx.evals += 2;
                ctx.label("similar position asked in between");
            }
            for (n, s) in slots.iter().enumerate() {
                if let Some(s) = s {
                    verify(s, i + 1, &format!("clone {n}"))?;
                    ctx.evals += 1;
                    ctx.nontrivial(mix(hash_pos(&s.1)) ^ hash_pos(&cur.1), || {
                        format!("{} idle beside {}", s.1.sfen(), cur.1.sfen())
                    });
                }
            }
        }
    }
    if forked {
        ctx.label("case with clones");
    }
    // every clone can still be rolled back to its origin
    slots.push(Some(cur));
    for s in slots.into_iter().flatten() {
        let (mut p, mut m, mut st) = s;
        while let Some((mv, u)) = st.pop() {
            m.unapply(mv, u);
            p.undo_move(sut::to_move(mv, m.side));
            // look at some of the positions on the way
            let n = st.len();
            if n % 64 == 5 || (n < 200 && n % 16 == 5) {
                let x = (p, m, st);
                verify(&x, c.ops.len(), "rolled back part of the way")?;
                (p, m, st) = x;
                ctx.evals += 1;
            }
        }
        verify(&(p, m, st), c.ops.len(), "rolled back")?;
        ctx.evals += 1;
    }
    Ok(())
}

// ---------------------------------------------------------------- C19
fn lib_perft(p: &mut Position, d: usize) -> u64 {
    if d == 0 {
        return 1;
    }
    let l = p.legal_moves();
    if d == 1 {
        return l.len() as u64;
    }
    let mut n = 0;
    for m in l {
        p.do_move(m);
        n += lib_perft(p, d - 1);
        p.undo_move(m);
    }
    n
}
fn perft(c: &Case, ctx: &mut Ctx) -> Res {
    let mut m = c.start.clone();
    let mut pos = sut::make(&m);
    for op in &c.ops {
        if let Op::Do(mv) = *op {
            pos.do_move(sut::to_move(mv, m.side));
            m.apply(mv);
        }
    }
    let before = sut::observe(&pos)?;
    let mut l = m.legal();
    // depth 3 only where the tree stays small
    let depth = if l.len() <= 14 { 3 } else { 2 };
    let want_total = m.perft(depth);
    ctx.evals += want_total;
    let got_total = lib_perft(&mut pos, depth);
    if got_total != want_total {
        l.sort_unstable();
        for &x in &l {
            let side = m.side;
            let u = m.apply(x);
            let w = m.perft(depth - 1);
            m.unapply(x, u);
            pos.do_move(sut::to_move(x, side));
            let g = lib_perft(&mut pos, depth - 1);
            pos.undo_move(sut::to_move(x, side));
            if g != w {
                return Err(format!("perft({depth}) {got_total}, reference {want_total}; below {}: {g}, reference {w}: '{}'", x.usi(), m.sfen()));
            }
        }
        return Err(format!("perft({depth}) {got_total}, reference {want_total}: '{}'", m.sfen()));
    }
    let after = sut::observe(&pos)?;
    if let Some(d) = before.diff(&after) {
        return Err(format!("position changed by the traversal: {d}"));
    }
    ctx.label(if depth == 3 { "depth 3" } else { "depth 2" });
    if want_total > 20 {
        ctx.nontrivial(hash_pos(&m), || format!("perft({depth}, {}) = {want_total}", m.sfen()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C20
fn kingless(c: &Case, ctx: &mut Ctx) -> Res {
    let has = [c.start.king(BLACK).is_some(), c.start.king(WHITE).is_some()];
    drive(c, |pos, m, i, op| {
        check_read(pos, m, i, "history")?;
        let o = sut::observe(pos).map_err(|e| format!("{e} {}", at(m, i)))?;
        ctx.evals += 1;
        if o.in_check != m.in_check() {
            return Err(format!("in_check() {} {}", o.in_check, at(m, i)));
        }
        let l: Vec<Mv> = o.moves.iter().map(|x| x.0).collect();
        let r = m.legal();
        cmp_moves(&l, &r, m, i)?;
        for &(mv, ck) in &o.moves {
            if ck != m.gives_check(mv) {
                return Err(format!("is_check_move({}) is {ck} {}", mv.usi(), at(m, i)));
            }
        }
        let f = sut::observe(&sut::make(m))?;
        if let Some(d) = o.diff(&f) {
            return Err(format!("after the history vs built afresh: {d} {}", at(m, i)));
        }
        if op == Some(Op::Undo) {
            ctx.label("after undo");
        }
        ctx.label(match (has[m.side as usize], has[m.side as usize ^ 1]) {
            (false, false) => "no kings",
            (false, true) => "mover has no king",
            (true, false) => "opponent has no king",
            _ => "both kings",
        });
        if !(has[0] && has[1]) && !r.is_empty() {
            if o.in_check {
                ctx.label("mover in check");
            }
            if o.moves.iter().any(|x| x.1) {
                ctx.label("checking move available");
            }
            ctx.nontrivial(hash_pos(m), || format!("{} ({} moves)", m.sfen(), r.len()));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- registry

pub struct Spec {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub families: &'static [(Family, u32)],
    pub check: fn(&Case, &mut Ctx) -> Res,
    pub rule: &'static str,
}

const EVEN: &[(Family, u32)] = &[
    (Start, 6),
    (Midgame, 12),
    (Scatter, 19),
    (Rays, 16),
    (Lines, 7),
    (Checked, 16),
    (PawnMate, 8),
    (Zone, 10),
    (Hands, 8),
    (Mobile, 3),
];

/// More of the situations that decide single moves.
const SHARP: &[(Family, u32)] = &[
    (Start, 4),
    (Midgame, 10),
    (Scatter, 15),
    (Rays, 18),
    (Lines, 8),
    (Checked, 18),
    (PawnMate, 16),
    (Zone, 8),
    (Hands, 7),
    (Mobile, 2),
];

pub const SPECS: &[Spec] = &[
    Spec {
        id: "C01",
        quick: 750_000,
        thorough: 15_000_000,
        families: SHARP,
        check: legal_exact,
        rule: "an evaluation compares the complete move list of one position with the reference model's; non-trivial: the mover is in check, has a piece in hand or can capture; distinct by board, hands and side",
    },
    Spec {
        id: "C02",
        quick: 285_000,
        thorough: 11_400_000,
        families: &[(Checked, 53), (Rays, 15), (Midgame, 6), (PawnMate, 8), (Scatter, 10), (Zone, 3), (Hands, 5)],
        check: evasions,
        rule: "an evaluation compares the complete move list of a position whose mover is in check; all of them are non-trivial; distinct by board, hands and side",
    },
    Spec {
        id: "C03",
        quick: 600_000,
        thorough: 24_000_000,
        families: &[(Rays, 47), (Checked, 19), (Midgame, 6), (Scatter, 19), (PawnMate, 4), (Zone, 5)],
        check: king_safety,
        rule: "an evaluation compares the board moves (no drops) of one position with those leaving the own king safe; non-trivial: at least one otherwise possible move is excluded for king safety; distinct by board, hands and side",
    },
    Spec {
        id: "C04",
        quick: 480_000,
        thorough: 19_200_000,
        families: &[(Hands, 45), (Scatter, 18), (Checked, 14), (Midgame, 6), (Mobile, 5), (Rays, 5), (PawnMate, 7)],
        check: drops,
        rule: "an evaluation compares all drops (other than checking pawn drops) of one position; non-trivial: the mover has a piece in hand; distinct by board, hands and side",
    },
    Spec {
        id: "C05",
        quick: 780_000,
        thorough: 31_200_000,
        families: &[(PawnMate, 90), (Hands, 3), (Midgame, 2), (Rays, 2), (Checked, 3)],
        check: pawn_drop_mate,
        rule: "an evaluation decides whether one otherwise possible checking pawn drop is listed; all of them are non-trivial; distinct by board, hands and side",
    },
    Spec {
        id: "C06",
        quick: 555_000,
        thorough: 22_200_000,
        families: &[(Zone, 58), (Midgame, 6), (Scatter, 13), (Checked, 8), (Rays, 12), (PawnMate, 3)],
        check: promotions,
        rule: "an evaluation compares the promotion choices of every board move of one position; non-trivial: at least one promoting move exists; distinct by board, hands and side",
    },
    Spec {
        id: "C07",
        quick: 135_000,
        thorough: 5_400_000,
        families: EVEN,
        check: do_move,
        rule: "an evaluation compares board, hands, side and move counter after one move; non-trivial: position where at least one capture, drop or promotion was applied; distinct by board, hands and side",
    },
    Spec {
        id: "C08",
        quick: 37_500,
        thorough: 1_500_000,
        families: EVEN,
        check: undo_each,
        rule: "an evaluation is one observation of everything visible in a do/undo history; non-trivial: an undo whose result is compared with the observation before the move; distinct by position and move undone",
    },
    Spec {
        id: "C09",
        quick: 600_000,
        thorough: 24_000_000,
        families: EVEN,
        check: in_check,
        rule: "an evaluation compares in_check() with the reference model in one position; non-trivial: the mover is in check; distinct by board, hands and side",
    },
    Spec {
        id: "C10",
        quick: 450_000,
        thorough: 18_000_000,
        families: &[(Rays, 33), (Lines, 5), (Scatter, 18), (Midgame, 9), (Checked, 10), (Zone, 13), (Hands, 5), (PawnMate, 5)],
        check: check_move,
        rule: "an evaluation compares is_check_move() of one legal move with the reference model; non-trivial: the move gives check; distinct by position and move",
    },
    Spec {
        id: "C11",
        quick: 120_000,
        thorough: 4_800_000,
        families: EVEN,
        check: transpose,
        rule: "an evaluation compares the keys after a history with those of a freshly constructed equal position (or of another move order); non-trivial: at least one operation was applied; distinct by board, hands and side",
    },
    Spec {
        id: "C12",
        quick: 2_250_000,
        thorough: 90_000_000,
        families: &[(Scatter, 40), (Hands, 30), (Midgame, 4), (Zone, 16), (NoKing, 10)],
        check: key_separation,
        rule: "an evaluation compares the keys of two positions (or two features of the exhaustive part); non-trivial: the two positions differ; distinct by the pair",
    },
    Spec {
        id: "C13",
        quick: 120_000,
        thorough: 4_800_000,
        families: EVEN,
        check: history_free,
        rule: "an evaluation compares everything observable after a history with a position built afresh from the reported placement; non-trivial: at least one operation was applied; distinct by board, hands and side",
    },
    Spec {
        id: "C14",
        quick: 1_800_000,
        thorough: 72_000_000,
        families: &[(Scatter, 35), (Hands, 20), (Rays, 10), (Checked, 10), (Zone, 10), (Mobile, 5), (NoKing, 10)],
        check: construction,
        rule: "an evaluation compares one constructed position's accessors with the placement handed in; all are non-trivial; distinct by board, hands, side and move counter",
    },
    Spec {
        id: "C15",
        quick: 420_000,
        thorough: 16_800_000,
        families: EVEN,
        check: digest,
        rule: "an evaluation is one position of a history observed in every build of the library, the observations compared between builds; non-trivial: the position has a legal move; distinct by board, hands and side",
    },
    Spec {
        id: "C16",
        quick: 120_000,
        thorough: 4_800_000,
        families: &[(Start, 5), (Midgame, 10), (Scatter, 20), (Rays, 10), (Lines, 5), (Checked, 10), (PawnMate, 5), (Zone, 5), (Hands, 10), (Mobile, 25)],
        check: no_panic,
        rule: "an evaluation calls every query in one position (built with overflow checks and debug assertions) and checks the move list's size and well-formedness; non-trivial: at least 100 moves, or in check, or reached by play; distinct by board, hands and side",
    },
    Spec {
        id: "C17",
        quick: 300_000,
        thorough: 12_000_000,
        families: EVEN,
        check: symmetry,
        rule: "an evaluation compares one position of a history with its image under a symmetry of the rules; non-trivial: the board is not its own mirror image and has a legal move; distinct by board, hands and side",
    },
    Spec {
        id: "C18",
        quick: 80_000,
        thorough: 4_800_000,
        families: EVEN,
        check: clones,
        rule: "an evaluation verifies one position of a family of clones after operations on the family; non-trivial: an idle clone verified while others moved; distinct by the pair of positions",
    },
    Spec {
        id: "C19",
        quick: 60_000,
        thorough: 960_000,
        families: SHARP,
        check: perft,
        rule: "an evaluation is one leaf of a move tree counted by both; non-trivial: a tree of more than 20 leaves; distinct by root position",
    },
    Spec {
        id: "C20",
        quick: 510_000,
        thorough: 20_400_000,
        families: &[(NoKing, 100)],
        check: kingless,
        rule: "an evaluation compares everything observable of one position with the reference model and a fresh construction; non-trivial: at least one king is missing and a legal move exists; distinct by board, hands and side",
    },
];

pub fn spec(id: &str) -> Option<&'static Spec> {
    SPECS.iter().find(|s| s.id == id)
}

/// Build the case number `case` of a property.
pub fn gen_case(sp: &Spec, s: &mut Src) -> (Case, Family) {
    let w: Vec<u32> = sp.families.iter().map(|f| f.1).collect();
    let fam = sp.families[s.weighted(&w)].0;
    let mut start = start(s, fam);
    make_roomy(s, &mut start);
    let mut c = Case {
        start,
        ops: vec![],
        other: None,
    };
    let fresh_game = fam == Start;
    match sp.id {
        "C08" | "C13" => {
            let fin = s.chance(60);
            if s.below(600) == 0 {
                let n = *s.pick(&[700usize, 1400, 2800, 5000, 9000]);
                let n = if sp.id == "C13" { n / 2 } else { n };
                let n = s.range(n / 2, n);
                c.start.ply = s.range(1, 300) as u16;
                c.ops = deep(s, &c.start, n, fin || sp.id == "C08");
            } else {
                let n = match s.below(200) {
                    0 => s.range(300, 1200),
                    1..=20 => s.range(40, 150),
                    _ => s.range(1, 16),
                };
                c.ops = walk(s, &c.start, n, fin && sp.id == "C08");
            }
        }
        "C18" => {
            let n = if s.below(40) == 0 { s.range(60, 200) } else { s.range(4, 40) };
            // clones of positions that are deep in their history
            let pre = match s.below(300) {
                0 => s.range(300, 4000),
                1..=6 => s.range(30, 300),
                _ => 0,
            };
            if pre > 0 {
                c.start.ply = s.range(1, 300) as u16;
            }
            let pre = deep(s, &c.start, pre, false);
            c.ops = forks(s, &c.start, pre, n);
        }
        "C16" => {
            if s.below(1000) == 0 {
                let n = *s.pick(&[1500usize, 3000, 6000, 12000]);
                let n = s.range(n / 2, n);
                c.start.ply = s.range(1, 300) as u16;
                let fin = s.chance(50);
                c.ops = deep(s, &c.start, n, fin);
            } else {
                let n = match s.below(1000) {
                    0..=40 => s.range(50, 300),
                    _ => s.below(8),
                };
                c.ops = walk(s, &c.start, n, false);
            }
        }
        "C12" => {
            let n = neighbour(s, &c.start);
            c.other = Some(n);
        }
        // no move is made: the counter may be anything
        "C14" if s.chance(20) => {
            c.start.ply = *s.pick(&[65535u16, 65534, 65280, 32768]);
            if s.chance(80) {
                c.start.ply = s.range(1, 65535).max(s.range(1, 65535)) as u16;
            }
        }
        "C14" | "C19" => {
            let n = if fresh_game { s.range(0, 60) } else { s.below(3) };
            c.ops = line(s, &c.start, n).into_iter().map(Op::Do).collect();
        }
        "C09" | "C20" | "C15" => {
            let n = if fresh_game { s.range(10, 120) } else { s.below(8) };
            c.ops = walk(s, &c.start, n, false);
        }
        "C11" => {
            if s.chance(50) {
                let n = if fresh_game { s.range(10, 150) } else { s.below(10) };
                c.ops = walk(s, &c.start, n, false);
            } else {
                let n = s.range(3, 12);
                c.ops = line(s, &c.start, n).into_iter().map(Op::Do).collect();
            }
        }
        _ => {
            let n = if fresh_game {
                s.range(10, 120)
            } else {
                s.below(7)
            };
            c.ops = line(s, &c.start, n).into_iter().map(Op::Do).collect();
        }
    }
    // reach the generated position by play instead of constructing it
    if !matches!(sp.id, "C12" | "C14") && !fresh_game && s.chance(35) {
        let n = *s.pick(&[1usize, 1, 2, 3]);
        let mut pre = vec![];
        for _ in 0..n {
            let Some((q, m)) = retro(s, &c.start) else {
                break;
            };
            if !roomy(&q) {
                break;
            }
            c.start = q;
            pre.insert(0, Op::Do(m));
        }
        pre.append(&mut c.ops);
        c.ops = pre;
    }
    if c.start.king(BLACK).is_none() || c.start.king(WHITE).is_none() {
        if c.other.as_ref().is_some_and(|o| !roomy(o)) {
            c.other = Some(c.start.clone());
        }
        cut_crowded(&mut c);
    }
    (c, fam)
}
