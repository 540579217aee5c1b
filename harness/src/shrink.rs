//! Reduction of a failing case: shorter history, fewer pieces, simpler
//! numbers, as long as the case stays valid and still fails.

use crate::gen::*;
use crate::model::*;

pub fn shrink(mut c: Case, mut fails: impl FnMut(&Case) -> bool) -> Case {
    let mut budget = 6000usize;
    let mut test = |c: &Case, budget: &mut usize| -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        valid_case(c) && fails(c)
    };
    loop {
        let before = c.clone();
        // start later in the history
        let has_clones = c.ops.iter().any(|o| matches!(o, Op::Fork(_) | Op::Use(_)));
        if !has_clones {
            let mut m = c.start.clone();
            let mut st = vec![];
            let mut cands = vec![];
            for (i, op) in c.ops.iter().enumerate() {
                match *op {
                    Op::Do(mv) => {
                        let u = m.apply(mv);
                        st.push((mv, u));
                    }
                    Op::Undo => {
                        let (mv, u) = st.pop().unwrap();
                        m.unapply(mv, u);
                    }
                    _ => {}
                }
                cands.push(Case {
                    start: m.clone(),
                    ops: c.ops[i + 1..].to_vec(),
                    other: c.other.clone(),
                });
            }
            for x in cands.into_iter().rev() {
                if x.ops.len() < c.ops.len() && test(&x, &mut budget) {
                    c = x;
                    break;
                }
            }
        }
        // cut the tail, then chunks of operations
        let mut n = c.ops.len();
        while n > 0 {
            let mut i = 0;
            while i + n <= c.ops.len() {
                let mut x = c.clone();
                x.ops.drain(i..i + n);
                if test(&x, &mut budget) {
                    c = x;
                } else {
                    i += n.max(1);
                }
            }
            n /= 2;
        }
        // a do/undo pair at a time
        let mut i = 0;
        while i + 1 < c.ops.len() {
            if matches!((c.ops[i], c.ops[i + 1]), (Op::Do(_), Op::Undo)) {
                let mut x = c.clone();
                x.ops.drain(i..i + 2);
                if test(&x, &mut budget) {
                    c = x;
                    continue;
                }
            }
            i += 1;
        }
        // fewer pieces on the board (in both positions of a pair)
        for s in 0..81 {
            if c.start.board[s] == 0 {
                continue;
            }
            let mut x = c.clone();
            let p = x.start.board[s];
            x.start.board[s] = 0;
            if let Some(o) = &mut x.other {
                if o.board[s] == p {
                    o.board[s] = 0;
                }
            }
            if test(&x, &mut budget) {
                c = x;
                continue;
            }
            // otherwise try demoting it
            if kind(p) >= PP {
                let mut x = c.clone();
                x.start.board[s] = piece(unpromote(kind(p)), color(p));
                if test(&x, &mut budget) {
                    c = x;
                }
            }
        }
        // fewer pieces in hand
        for h in 0..2 {
            for k in 1..=7 {
                let n = c.start.hands[h][k];
                if n == 0 {
                    continue;
                }
                for m in [0, 1, n / 2, n - 1] {
                    if m >= n {
                        continue;
                    }
                    let mut x = c.clone();
                    x.start.hands[h][k] = m;
                    if let Some(o) = &mut x.other {
                        o.hands[h][k] = o.hands[h][k].saturating_sub(n - m);
                    }
                    if test(&x, &mut budget) {
                        c = x;
                        break;
                    }
                }
            }
        }
        if c.start.ply != 1 {
            for p in [1, c.start.ply / 2, c.start.ply - 1] {
                if p == 0 {
                    continue;
                }
                let mut x = c.clone();
                x.start.ply = p;
                if test(&x, &mut budget) {
                    c = x;
                    break;
                }
            }
        }
        if c == before || budget == 0 {
            return c;
        }
    }
}
