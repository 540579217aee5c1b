//! Cases as byte strings for a coverage-guided fuzzer. The board is laid out
//! byte by byte, so that a mutated byte is one changed piece, hand count or
//! chosen move; what is invalid is repaired or rejected.

use crate::gen::*;
use crate::model::*;
use crate::oracles::*;
use crate::src::Src;

/// mode, board, hands, side, ply
const HEAD: usize = 1 + 81 + 14 + 1 + 2;
const BACK: u8 = 255;

/// Piece of one byte: most values are an empty square.
fn man(b: u8) -> Option<u8> {
    let k = b & 15;
    (b < 32 && (1..=14).contains(&k)).then(|| piece(k, b >> 4))
}

fn board(d: &[u8]) -> Option<MPos> {
    let mut p = MPos::empty();
    let mut stock = FULL;
    for s in 0..81u8 {
        let Some(x) = man(d[1 + s as usize]) else {
            continue;
        };
        let (k, c) = (kind(x), color(x));
        let u = unpromote(k) as usize;
        if stock[u] == 0
            || MPos::dead(k, s, c)
            || (k == P && p.pawn_on_file(file(s), c))
            || (k == K && p.king(c).is_some())
        {
            continue;
        }
        stock[u] -= 1;
        p.board[s as usize] = x;
    }
    for c in 0..2 {
        for k in 1..=7 {
            let n = d[82 + c * 7 + k - 1].min(stock[k]);
            p.hands[c][k] = n;
            stock[k] -= n;
        }
    }
    p.side = d[96] & 1;
    p.ply = u16::from_be_bytes([d[97], d[98]]).clamp(1, 65_000);
    if p.validate().is_err() {
        p.side ^= 1;
        p.validate().ok()?;
    }
    Some(p)
}

pub fn decode(sp: &Spec, d: &[u8]) -> Option<Case> {
    if d.len() < 2 {
        return None;
    }
    let c = if d[0] < 64 || d.len() < HEAD {
        // the generators, fed with these bytes
        gen_case(sp, &mut Src::bytes(&d[1..])).0
    } else {
        let start = board(d)?;
        let rest = &d[HEAD..];
        let mut c = Case {
            start,
            ops: vec![],
            other: None,
        };
        match sp.id {
            "C12" => {
                let n = neighbour(&mut Src::bytes(rest), &c.start);
                c.other = Some(n);
            }
            "C18" => c.ops = forks(&mut Src::bytes(rest), &c.start, vec![], rest.len()),
            _ => {
                let undo = matches!(sp.id, "C08" | "C09" | "C11" | "C13" | "C15" | "C16" | "C20");
                let mut p = c.start.clone();
                let mut st = vec![];
                for &b in rest.iter().take(16) {
                    if b == BACK && undo {
                        if let Some((m, u)) = st.pop() {
                            p.unapply(m, u);
                            c.ops.push(Op::Undo);
                        }
                        continue;
                    }
                    let l = p.legal();
                    if l.is_empty() {
                        break;
                    }
                    let m = l[b as usize % l.len()];
                    let u = p.apply(m);
                    if !roomy(&p) {
                        return None;
                    }
                    st.push((m, u));
                    c.ops.push(Op::Do(m));
                }
                if sp.id == "C08" {
                    c.ops.resize(c.ops.len() + st.len(), Op::Undo);
                }
            }
        }
        if !roomy(&c.start) || !c.other.as_ref().map_or(true, roomy) {
            return None;
        }
        c
    };
    Some(c)
}

/// Bytes for (the beginning of) a case.
pub fn encode(c: &Case) -> Vec<u8> {
    let mut d = vec![0u8; HEAD];
    d[0] = 128;
    for s in 0..81 {
        let x = c.start.board[s];
        d[1 + s] = if x == 0 { 0 } else { kind(x) | color(x) << 4 };
    }
    for i in 0..2 {
        for k in 1..=7 {
            d[82 + i * 7 + k - 1] = c.start.hands[i][k];
        }
    }
    d[96] = c.start.side;
    d[97..99].copy_from_slice(&c.start.ply.to_be_bytes());
    let mut p = c.start.clone();
    let mut st = vec![];
    for op in c.ops.iter().take(16) {
        match *op {
            Op::Do(m) => {
                let Ok(i) = p.legal().binary_search(&m) else {
                    break;
                };
                d.push(i as u8);
                let u = p.apply(m);
                st.push((m, u));
            }
            Op::Undo => {
                let Some((m, u)) = st.pop() else {
                    break;
                };
                p.unapply(m, u);
                d.push(BACK);
            }
            _ => break,
        }
    }
    d
}
