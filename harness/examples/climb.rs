//! Annealing towards positions with as many pseudo-legal moves as possible.
use yv::model::*;
use yv::src::Src;
fn score(p: &MPos) -> i64 {
    let mut v = Vec::with_capacity(700);
    p.pseudo_board(&mut v);
    p.pseudo_drops(&mut v);
    v.len() as i64
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let mode: u32 = a[2].parse().unwrap(); // bit0 black king, bit1 white king
    let iters: u64 = a[3].parse().unwrap();
    let mut s = Src::seeded(seed, 77, mode as u64);
    let base = ["R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1","8k/9/9/4B4/4R4/3K5/9/9/9 b RBGSNLP3g3s3n3l17p 1"];
    let mut best = 0;
    for round in 0..1000u64 {
        let mut p = MPos::parse(base[(round % 2) as usize]).unwrap();
        if mode & 1 == 0 { let k = p.king(BLACK).unwrap(); p.board[k as usize] = 0; }
        if mode & 2 == 0 { let k = p.king(WHITE).unwrap(); p.board[k as usize] = 0; }
        if p.validate().is_err() { continue; }
        let mut cur = score(&p);
        let mut temp = if round % 3 == 0 { 12.0 } else { 4.0f64 };
        for _ in 0..iters / 1000 {
            temp = (temp * 0.9997f64).max(0.3);
            let mut q = p.clone();
            for _ in 0..s.range(1, 2) {
                let x = s.below(81); let y = s.below(81);
                match s.below(6) {
                    0 | 1 => q.board.swap(x, y),
                    2 => { // from hand to board
                        let k = s.range(1, 7); let c = s.below(2);
                        if q.hands[c][k] > 0 && q.board[x] == 0 { q.hands[c][k] -= 1; q.board[x] = piece(k as u8, s.below(4) as u8 / 3); }
                    }
                    3 => { let pc = q.board[x]; if pc != 0 && kind(pc) != K { q.board[x] = 0; q.hands[s.below(4)/3][unpromote(kind(pc)) as usize] += 1; } }
                    4 => { let pc = q.board[x]; if pc != 0 && kind(pc) != K { let k = kind(pc); q.board[x] = piece(promote(k).unwrap_or(unpromote(k)), color(pc)); } }
                    _ => { let k = s.range(1, 7); let c = s.below(2); if q.hands[c][k] > 0 { q.hands[c][k] -= 1; q.hands[c^1][k] += 1; } }
                }
            }
            if q.validate().is_err() || q.in_check() { continue; }
            let n = score(&q);
            if n >= cur || ((s.below(1 << 20) as f64) / (1 << 20) as f64) < ((n - cur) as f64 / temp).exp() {
                p = q; cur = n;
                if n > best { best = n; println!("{n} legal {} {}", p.legal().len(), p.sfen()); }
            }
        }
    }
}
