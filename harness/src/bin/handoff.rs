//! handoff --seed S --case I: clones of one position, each sent to a thread
//! of its own. All are played on and rolled back at the same time and each
//! must go on as if it were alone. A program of its own because it only
//! compiles while `Position` can be sent to threads.
//!
//! Prints "held N" and exits 0, or what went wrong and exits 1.

use yasai::Position;
use yv::gen::*;
use yv::model::*;
use yv::src::Src;
use yv::sut;

type Stack = Vec<(Mv, Undo)>;

fn agree(p: &Position, m: &MPos) -> Result<(), String> {
    let o = sut::observe(p).map_err(|e| format!("{e} in '{}'", m.sfen()))?;
    if let Some(d) = sut::diff_pos(&o.pos, m) {
        return Err(format!("library, rules: {d}"));
    }
    let l: Vec<Mv> = o.moves.iter().map(|x| x.0).collect();
    if let Some(d) = sut::diff_moves(&l, &m.legal()) {
        return Err(format!("{d} in '{}'", m.sfen()));
    }
    if o.in_check != m.in_check() {
        return Err(format!("in_check() is {} in '{}'", o.in_check, m.sfen()));
    }
    let f = sut::observe(&sut::make(m)).map_err(|e| format!("{e} in '{}'", m.sfen()))?;
    match o.diff(&f) {
        Some(d) => Err(format!("compared with a fresh construction: {d} in '{}'", m.sfen())),
        None => Ok(()),
    }
}

/// Play the walk, then undo everything down to the very start.
fn play(mut p: Position, mut m: MPos, mut st: Stack, ops: &[Op]) -> Result<u64, String> {
    let mut n = 0;
    for (i, op) in ops.iter().enumerate() {
        match *op {
            Op::Do(mv) => {
                p.do_move(sut::to_move(mv, m.side));
                let u = m.apply(mv);
                st.push((mv, u));
            }
            _ => {
                let (mv, u) = st.pop().unwrap();
                m.unapply(mv, u);
                p.undo_move(sut::to_move(mv, m.side));
            }
        }
        if i % 8 == 7 {
            agree(&p, &m)?;
            n += 1;
        }
    }
    agree(&p, &m)?;
    while let Some((mv, u)) = st.pop() {
        m.unapply(mv, u);
        p.undo_move(sut::to_move(mv, m.side));
        if st.len() % 16 == 0 {
            agree(&p, &m)?;
            n += 1;
        }
    }
    agree(&p, &m)?;
    Ok(n + 2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |k: &str| -> u64 {
        let i = a.iter().position(|x| x == k).expect(k);
        a[i + 1].parse().expect("number")
    };
    let (seed, case) = (num("--seed"), num("--case"));
    let mut total = 0;
    for round in 0..12 {
        let mut s = Src::seeded(seed, 0xfeed, case * 100 + round);
        let fam = *s.pick(&[Start, Midgame, Scatter, Checked, Hands, Zone]);
        let mut base = start(&mut s, fam);
        base.ply = s.range(1, 300) as u16;
        let n = *s.pick(&[0usize, 1, 5, 40, 100, 400]);
        let mut m = base.clone();
        let mut p = sut::make(&m);
        let mut st: Stack = vec![];
        for mv in line(&mut s, &base, n) {
            p.do_move(sut::to_move(mv, m.side));
            let u = m.apply(mv);
            st.push((mv, u));
        }
        let jobs: Vec<Vec<Op>> = (0..8)
            .map(|_| {
                let n = s.range(4, 60);
                walk(&mut s, &m, n, false)
            })
            .collect();
        let barrier = std::sync::Barrier::new(jobs.len());
        let res: Vec<Result<u64, String>> = std::thread::scope(|sc| {
            let mut hs = vec![];
            for ops in &jobs {
                let (q, m, st, barrier) = (p.clone(), m.clone(), st.clone(), &barrier);
                hs.push(sc.spawn(move || {
                    barrier.wait();
                    play(q, m, st, ops)
                }));
            }
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())))
                .collect()
        });
        // the position they were cloned from has not changed
        let end = play(p, m, st, &[]);
        for r in res.into_iter().chain([end]) {
            match r {
                Ok(n) => total += n,
                Err(e) => {
                    println!("clones sent to threads: {e}");
                    println!("start {}", base.sfen());
                    std::process::exit(1);
                }
            }
        }
    }
    println!("held {total}");
}
