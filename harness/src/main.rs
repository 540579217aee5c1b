//! Command line of the harness; driven by ../check.py.
//!
//!   yv worker --property C01 --seed 1 --stream 0 --cases N --stride 4
//!             --offset 0 --limit-s 400 --dir D --thorough 0|1
//!   yv shrink FILE            reduce the case in a replay file, print it
//!   yv replay FILE            0: property holds on it, 1: violated
//!   yv describe FILE          everything observable along the case
//!   yv serve                  digests of cases read from stdin, one a line
//!                             (--threads N: by N threads, which have to agree;
//!                             --lines CASES..: of these instead)
//!   yv lines --property C15 --seed 1 --cases N
//!                             short cases, one a line, for serve
//!   yv shrink-pair FILE OTHER reduce a case on which two builds differ
//!   yv threads --seed S --case I
//!   yv distinct FILES..       number of distinct hashes in the files
//!   yv gen --property C01 --seed 1 --stream 0 --case 5
//!   yv specs                  numbers of cases and counting rules, as JSON
//!   yv divide DEPTH           the model's perft of the initial position
//!   yv corpus --property C01 --seed 1 --cases N --dir D
//!                             cases as seeds for the coverage-guided fuzzer
//!   yv decode --property C01 FILE
//!                             the case a fuzzer's input stands for
//!   yv gencheck --property C01 --seed 1 --cases N
//!                             are the generated cases valid?
//!   yv selftest               the reference model against published counts

use std::collections::BTreeMap;
use std::io::{BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;
use yv::gen::*;
use yv::model::*;
use yv::oracles::*;
use yv::src::{mix, Src};
use yv::{shrink, sut};

/// Digest of a case on which the library panicked or gave malformed moves.
const FAILED: u64 = u64::MAX;

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i
            .location()
            .map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if IN_CASE.with(|f| !f.get()) {
            eprintln!("panic at {loc}: {msg}");
        }
        if let Ok(mut p) = PANIC.lock() {
            *p = Some((loc, msg));
        }
    }));
}

/// A panic raised by the harness itself is an error of the check. Paths of
/// this crate are relative ("src/..."), those of its dependencies absolute.
fn own_panic(loc: &str) -> bool {
    loc.starts_with("src/")
}

enum Outcome {
    Held,
    Violated(String),
    Broken(String),
}

thread_local! {
    /// panics are expected (and reported as violations) while this is set
    static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn guarded(f: impl FnOnce() -> Res) -> Outcome {
    IN_CASE.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|x| x.set(false));
    match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(e)) => Outcome::Violated(e),
        Err(_) => {
            let (loc, msg) = PANIC.lock().unwrap().take().unwrap_or_default();
            if own_panic(&loc) {
                Outcome::Broken(format!("panic in the harness at {loc}: {msg}"))
            } else {
                Outcome::Violated(format!("panic at {loc}: {msg}"))
            }
        }
    }
}

fn run_case(sp: &Spec, c: &Case, ctx: &mut Ctx) -> Outcome {
    guarded(|| (sp.check)(c, ctx))
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args(Vec<String>);
impl Args {
    fn opt(&self, k: &str) -> Option<&str> {
        self.0
            .iter()
            .position(|a| a == k)
            .and_then(|i| self.0.get(i + 1))
            .map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.opt(k).map_or(d, |s| s.parse().expect("number"))
    }
    fn spec(&self) -> &'static Spec {
        let id = self.opt("--property").expect("--property");
        spec(id).expect("unknown property")
    }
}

fn stream(sp: &Spec, n: u64) -> u64 {
    sp.id.bytes().fold(7 + n * 1000003, |h, b| mix(h ^ b as u64))
}

fn worker(a: &Args) -> i32 {
    let sp = a.spec();
    let seed = a.num("--seed", 1);
    let st = stream(sp, a.num("--stream", 0));
    let n = a.num("--cases", 1000);
    let stride = a.num("--stride", 1);
    let offset = a.num("--offset", 0);
    let limit = a.num("--limit-s", 1_000_000);
    let dir = a.opt("--dir").expect("--dir").to_string();
    let progress = std::fs::File::create(format!("{dir}/progress.{offset}")).unwrap();
    let mut digests = std::io::BufWriter::new(
        std::fs::File::create(format!("{dir}/digests.{offset}")).unwrap(),
    );
    let t0 = Instant::now();
    let mut ctx = Ctx::default();
    let mut fams: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut fail: Option<(u64, Case, String)> = None;
    let mut done = 0u64;
    let mut cut = false;
    if sp.id == "C12" && offset == 0 {
        mark(&progress, u64::MAX - 1);
        let mut bad = None;
        match guarded(|| {
            if let Err((c, e)) = key_features(&mut ctx) {
                bad = Some(c);
                return Err(e);
            }
            Ok(())
        }) {
            Outcome::Held => {}
            Outcome::Violated(e) => {
                let c = bad.unwrap_or(Case {
                    start: MPos::startpos(),
                    ops: vec![],
                    other: None,
                });
                fail = Some((0, c, e));
            }
            Outcome::Broken(e) => {
                eprintln!("{e}");
                return 2;
            }
        }
    }
    let mut i = offset;
    while i < n && fail.is_none() {
        if done & 63 == 0 && t0.elapsed().as_secs() >= limit {
            cut = true;
            break;
        }
        mark(&progress, i);
        let mut s = Src::seeded(seed, st, i);
        let (c, f) = gen_case(sp, &mut s);
        *fams.entry(f.name()).or_insert(0) += 1;
        ctx.case_no = i;
        ctx.digest = 0;
        match run_case(sp, &c, &mut ctx) {
            Outcome::Held => {}
            // builds are compared with each other: failing is an observation
            Outcome::Violated(_) if sp.id == "C15" => ctx.digest = FAILED,
            Outcome::Violated(e) => fail = Some((i, c, e)),
            Outcome::Broken(e) => {
                eprintln!("case {i}: {e}\n{}", c.text());
                return 2;
            }
        }
        if sp.id == "C15" {
            digests.write_all(&ctx.digest.to_le_bytes()).unwrap();
        }
        done += 1;
        i += stride;
    }
    mark(&progress, u64::MAX);
    digests.flush().unwrap();
    if let Some((i, c, e)) = &mut fail {
        // a collision with another case of this run: name both positions
        if sp.id == "C12" && e.starts_with("KEY COLLISION") {
            let k = sut::make(&c.start).key();
            let mut pair = None;
            for p in [Some(&c.start), c.other.as_ref()].into_iter().flatten() {
                if let Some(&(h, no)) = ctx.seen_keys.get(&sut::make(p).key()) {
                    if h != hash_pos(p) {
                        let (c2, _) = gen_case(sp, &mut Src::seeded(seed, st, no));
                        for q in [Some(&c2.start), c2.other.as_ref()].into_iter().flatten() {
                            if hash_pos(q) == h {
                                pair = Some((p.clone(), q.clone()));
                            }
                        }
                    }
                }
            }
            let _ = k;
            if let Some((p, q)) = pair {
                *c = Case {
                    start: p,
                    ops: vec![],
                    other: Some(q),
                };
            }
        }
        let _ = i;
    }
    ctx.hashes.sort_unstable();
    ctx.hashes.dedup();
    let mut raw = Vec::with_capacity(ctx.hashes.len() * 8);
    for h in &ctx.hashes {
        raw.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{dir}/hashes.{offset}"), raw).unwrap();
    let mut o = String::from("{");
    o += &format!(
        "\"cases\":{done},\"evals\":{},\"cut\":{cut},\"wall_s\":{:.3},",
        ctx.evals,
        t0.elapsed().as_secs_f64()
    );
    let map = |m: &BTreeMap<&'static str, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{v}", json(k))).collect();
        format!("{{{}}}", v.join(","))
    };
    o += &format!("\"labels\":{},\"families\":{},", map(&ctx.labels), map(&fams));
    let v: Vec<String> = ctx.samples.iter().map(|s| json(s)).collect();
    o += &format!("\"samples\":[{}],", v.join(","));
    match &fail {
        None => o += "\"fail\":null}",
        Some((i, c, e)) => {
            o += &format!(
                "\"fail\":{{\"case\":{i},\"message\":{},\"text\":{}}}}}",
                json(e),
                json(&c.text())
            )
        }
    }
    std::fs::write(format!("{dir}/result.{offset}"), o).unwrap();
    0
}

fn mark(f: &std::fs::File, i: u64) {
    use std::os::unix::fs::FileExt;
    f.write_all_at(&i.to_le_bytes(), 0).unwrap();
}

fn load(path: &str) -> (String, Case) {
    let t = std::fs::read_to_string(path).expect("readable case file");
    let id = t
        .lines()
        .find_map(|l| l.strip_prefix("property "))
        .expect("property line")
        .trim()
        .to_string();
    (id, Case::parse(&t).expect("case"))
}

fn replay(path: &str) -> i32 {
    let (id, c) = load(path);
    let sp = spec(&id).expect("unknown property");
    assert!(valid_case(&c), "not a case the property speaks about");
    match run_case(sp, &c, &mut Ctx::default()) {
        Outcome::Held => {
            println!("held");
            0
        }
        Outcome::Violated(e) => {
            println!("{e}");
            1
        }
        Outcome::Broken(e) => {
            println!("{e}");
            2
        }
    }
}

fn shrink_file(path: &str) -> i32 {
    let (id, c) = load(path);
    let sp = spec(&id).expect("unknown property");
    let fails = |c: &Case| matches!(run_case(sp, c, &mut Ctx::default()), Outcome::Violated(_));
    if !valid_case(&c) || !fails(&c) {
        println!("does not fail on its own");
        return 2;
    }
    let small = shrink::shrink(c, fails);
    let e = match run_case(sp, &small, &mut Ctx::default()) {
        Outcome::Violated(e) => e,
        _ => return 2,
    };
    print!("property {id}\n{}message {}\n", small.text(), e.replace('\n', " "));
    0
}

fn digest_of(c: &Case) -> String {
    let mut ctx = Ctx::default();
    match guarded(|| digest(c, &mut ctx)) {
        Outcome::Held => format!("{:016x}", ctx.digest),
        Outcome::Violated(_) => "failed".into(),
        Outcome::Broken(e) => {
            eprintln!("{e}");
            "broken".into()
        }
    }
}

fn serve(a: &Args) -> i32 {
    let threads = a.num("--threads", 1) as usize;
    let out = std::io::stdout();
    let answer = |d: String| {
        let mut o = out.lock();
        writeln!(o, "{d}").unwrap();
        o.flush().unwrap();
    };
    let parse = |l: String| Case::parse(&l.replace(';', "\n"));
    let given = a.0.iter().position(|x| x == "--lines").map(|i| a.0[i + 1..].to_vec());
    let mut lines: Box<dyn Iterator<Item = String>> = match given {
        Some(v) => Box::new(v.into_iter()),
        None => Box::new(std::io::stdin().lock().lines().map(|l| l.unwrap())),
    };
    if threads == 1 {
        for l in lines {
            let Some(c) = parse(l) else { return 2 };
            answer(digest_of(&c));
        }
        return 0;
    }
    // rounds of as many cases as there are threads; every thread does all the
    // cases of a round, each beginning with another one
    loop {
        let round: &Vec<Case> = &lines.by_ref().take(threads).filter_map(&parse).collect();
        if round.is_empty() {
            break;
        }
        let all: Vec<Vec<String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    sc.spawn(move || {
                        let n = round.len();
                        let mut v = vec![String::new(); n];
                        for i in (t..t + n).map(|i| i % n) {
                            v[i] = digest_of(&round[i]);
                        }
                        v
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for i in 0..round.len() {
            let same = all.iter().all(|v| v[i] == all[0][i]);
            answer(if same { all[0][i].clone() } else { "threads disagree".into() });
        }
    }
    0
}

fn shrink_pair(path: &str, other: &[String]) -> i32 {
    let (_, c) = load(path);
    let mut ch = std::process::Command::new(&other[0])
        .args(&other[1..])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("other build");
    let mut inp = ch.stdin.take().unwrap();
    let mut outp = std::io::BufReader::new(ch.stdout.take().unwrap());
    let mut differs = |c: &Case| -> bool {
        let a = digest_of(c);
        if writeln!(inp, "{}", c.text().replace('\n', ";")).is_err() {
            return false;
        }
        let mut b = String::new();
        if outp.read_line(&mut b).unwrap_or(0) == 0 {
            return false;
        }
        a != b.trim()
    };
    if !differs(&c) {
        println!("does not differ on its own");
        return 2;
    }
    let small = shrink::shrink(c, &mut differs);
    print!("property C15\n{}", small.text());
    drop(inp);
    let _ = ch.kill();
    0
}

/// Threads working on positions of their own see what a lone thread sees.
/// Even cases: a fresh process whose lazily built tables are first touched by
/// several threads at once. Odd ones: few, similar positions that all threads
/// look at again and again.
fn threads(a: &Args) -> i32 {
    let seed = a.num("--seed", 1);
    let i = a.num("--case", 0);
    let sp = spec("C15").unwrap();
    let st = stream(sp, 900);
    if i >= HAMMER {
        return hammer(&mut Src::seeded(seed, st, i), a.num("--rounds", 1 << 22));
    }
    if i % 2 == 1 {
        return crowd(seed, st, i);
    }
    let cases: Vec<Case> = (0..24)
        .map(|k| gen_case(sp, &mut Src::seeded(seed, st, i * 24 + k)).0)
        .collect();
    let nt = 8;
    let barrier = std::sync::Barrier::new(nt);
    let res: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let (cases, barrier) = (&cases, &barrier);
                s.spawn(move || {
                    let n = cases.len();
                    let mut out = vec![String::new(); n];
                    barrier.wait();
                    for k in 0..n {
                        let j = (k + t * 5) % n;
                        out[j] = digest_of(&cases[j]);
                    }
                    out
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| vec!["panic".into(); cases.len()]))
            .collect()
    });
    for (j, c) in cases.iter().enumerate() {
        let alone = digest_of(c);
        for (t, r) in res.iter().enumerate() {
            if r[j] != alone {
                println!("thread {t} of {nt} saw {} where a lone thread sees {alone}", r[j]);
                print!("{}", c.text());
                return 1;
            }
        }
        // and the lone thread agrees with the rules
        let sp = spec("C01").unwrap();
        if let Outcome::Violated(e) = run_case(sp, c, &mut Ctx::default()) {
            println!("{e}");
            print!("{}", c.text());
            return 1;
        }
    }
    println!("held {} {}", cases.len() * nt, cases.len());
    0
}

const HAMMER: u64 = 1_000_000;

/// The same questions asked millions of times, by eight threads, of positions
/// with few moves: the first answers must stay.
fn hammer(s: &mut Src, rounds: u64) -> i32 {
    let ps: Vec<MPos> = (0..8)
        .map(|_| loop {
            let fam = *s.pick(&[Checked, PawnMate, Rays, Scatter, NoKing]);
            let p = start(s, fam);
            if (1..=12).contains(&p.legal().len()) && p.ply < 60_000 {
                return p;
            }
        })
        .collect();
    let barrier = std::sync::Barrier::new(ps.len());
    let bad: Vec<Option<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = ps
            .iter()
            .enumerate()
            .map(|(t, m)| {
                let barrier = &barrier;
                sc.spawn(move || {
                    let mut pos = sut::make(m);
                    let first = pos.legal_moves();
                    let flags: Vec<bool> = first.iter().map(|&x| pos.is_check_move(x)).collect();
                    let (keys, check) = (pos.keys(), pos.in_check());
                    barrier.wait();
                    let t0 = Instant::now();
                    for r in 0..rounds {
                        if r & 1023 == 0 && t0.elapsed().as_secs() >= 30 {
                            break;
                        }
                        let j = r as usize % first.len();
                        if pos.legal_moves() != first {
                            return Some(format!("legal_moves() differs after {r} rounds"));
                        }
                        for _ in 0..8 {
                            if pos.is_check_move(first[j]) != flags[j] {
                                return Some(format!("is_check_move() differs after {r} rounds"));
                            }
                            if std::hint::black_box(&pos).in_check() != check {
                                return Some(format!("in_check() differs after {r} rounds"));
                            }
                            if std::hint::black_box(&pos).keys() != keys {
                                return Some(format!("keys() differ after {r} rounds"));
                            }
                        }
                        if r & 1 == 0 {
                            pos.do_move(first[j]);
                            pos.undo_move(first[j]);
                        }
                        // half of the threads keep one position all the time
                        if t >= 4 && r & 15 == 0 {
                            pos = pos.clone();
                        }
                        if t >= 4 && r & 15 == 8 {
                            pos = sut::make(m);
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Some("panic".into())))
            .collect()
    });
    for (m, e) in ps.iter().zip(bad) {
        let c = Case {
            start: m.clone(),
            ops: vec![],
            other: None,
        };
        let late = match run_case(spec("C20").unwrap(), &c, &mut Ctx::default()) {
            Outcome::Violated(e) => Some(e),
            _ => None,
        };
        if let Some(e) = e.or(late) {
            println!("{e}");
            print!("{}", c.text());
            return 1;
        }
    }
    println!("held {} {}", rounds * ps.len() as u64, ps.len());
    0
}

fn crowd(seed: u64, st: u64, i: u64) -> i32 {
    // some positions, positions that differ little from them, and what
    // moves lead to
    let mut s = Src::seeded(seed, st, i);
    let mut pool: Vec<(MPos, Vec<Mv>)> = vec![];
    for _ in 0..3 {
        let fam = *s.pick(&[PawnMate, PawnMate, Hands, Checked, Rays, Scatter]);
        let p = start(&mut s, fam);
        let mut all = vec![neighbour(&mut s, &p), neighbour(&mut s, &p)];
        all.push(p);
        for mut q in all {
            q.ply = q.ply.min(60_000);
            if !roomy(&q) {
                continue;
            }
            let mut l = q.legal();
            s.shuffle(&mut l);
            l.truncate(5);
            pool.push((q, l));
        }
    }
    let sum = |p: &sut::Position| -> Option<u64> {
        let o = sut::observe(p).ok()?;
        let mut h = mix(o.key ^ o.keys.0.rotate_left(9)) ^ o.in_check as u64;
        for (m, c) in o.moves {
            h = mix(h ^ (m.from as u64) << 20 ^ (m.to as u64) << 8 ^ (m.promote as u64) << 1 ^ c as u64);
        }
        Some(h)
    };
    // with no move, and after each of the moves
    let look = |p: &mut sut::Position, side: u8, m: Option<Mv>| -> Option<u64> {
        let Some(m) = m else {
            return sum(p);
        };
        p.do_move(sut::to_move(m, side));
        let h = sum(p);
        p.undo_move(sut::to_move(m, side));
        h
    };
    let alone: Vec<Vec<Option<u64>>> = pool
        .iter()
        .map(|(q, l)| {
            let mut p = sut::make(q);
            let mut v = vec![look(&mut p, q.side, None)];
            v.extend(l.iter().map(|&m| look(&mut p, q.side, Some(m))));
            v
        })
        .collect();
    let nt = 8;
    let rounds = 6000u64;
    let barrier = std::sync::Barrier::new(nt);
    let bad: Vec<Option<(usize, usize)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let (pool, alone, barrier, look) = (&pool, &alone, &barrier, &look);
                sc.spawn(move || {
                    let mut own: Vec<sut::Position> = pool.iter().map(|x| sut::make(&x.0)).collect();
                    let mut s = Src::seeded(seed, st ^ t as u64, i + 1_000_000);
                    barrier.wait();
                    for _ in 0..rounds {
                        let j = s.below(pool.len());
                        let k = s.below(pool[j].1.len() + 1);
                        let m = (k > 0).then(|| pool[j].1[k - 1]);
                        let r = catch_unwind(AssertUnwindSafe(|| look(&mut own[j], pool[j].0.side, m)));
                        if r.ok() != Some(alone[j][k]) {
                            return Some((j, k));
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if let Some((j, k)) = bad.into_iter().flatten().next() {
        println!("a thread of {nt} saw something else than a lone thread sees");
        println!("start {}", pool[j].0.sfen());
        if k > 0 {
            println!("ops {}", pool[j].1[k - 1].usi());
        }
        return 1;
    }
    println!("held {} {}", rounds * nt as u64, pool.len());
    0
}

fn distinct(files: &[String]) -> i32 {
    let mut v: Vec<u64> = vec![];
    for f in files {
        let mut b = vec![];
        std::fs::File::open(f).unwrap().read_to_end(&mut b).unwrap();
        v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    v.sort_unstable();
    v.dedup();
    println!("{}", v.len());
    0
}

fn selftest() -> i32 {
    let mut p = MPos::startpos();
    let a: Vec<u64> = (1..=4).map(|d| p.perft(d)).collect();
    let mut q = MPos::parse("R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1").unwrap();
    let b: Vec<u64> = (1..=2).map(|d| q.perft(d)).collect();
    let mut r = MPos::parse("l6nl/5+P1gk/2np1S3/p1p4Pp/3P2Sp1/1PPb2P1P/P5GS1/R8/LN4bKL w RGgsn5p 1").unwrap();
    let c: Vec<u64> = (1..=3).map(|d| r.perft(d)).collect();
    println!("{a:?} {b:?} {c:?}");
    let ok = a == [30, 900, 25470, 719731]
        && b == [593, 105677]
        && c == [207, 28684, 4809015];
    if ok {
        0
    } else {
        2
    }
}

fn main() {
    install_hook();
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let cmd = argv.first().cloned().unwrap_or_default();
    let a = Args(argv[1.min(argv.len())..].to_vec());
    let rc = match cmd.as_str() {
        "worker" => worker(&a),
        "shrink" => shrink_file(&a.0[0]),
        "replay" => replay(&a.0[0]),
        "describe" => {
            let (_, c) = load(&a.0[0]);
            match catch_unwind(AssertUnwindSafe(|| describe(&c))) {
                Ok(Ok(s)) => {
                    print!("{s}");
                    0
                }
                Ok(Err(e)) => {
                    println!("{e}");
                    0
                }
                Err(_) => {
                    let (loc, msg) = PANIC.lock().unwrap().take().unwrap_or_default();
                    println!("panic at {loc}: {msg}");
                    0
                }
            }
        }
        "serve" => serve(&a),
        "shrink-pair" => shrink_pair(&a.0[0], &a.0[1..]),
        "threads" => threads(&a),
        "distinct" => distinct(&a.0),
        "gen" => {
            let sp = a.spec();
            let mut s = Src::seeded(
                a.num("--seed", 1),
                stream(sp, a.num("--stream", 0)),
                a.num("--case", 0),
            );
            let (c, f) = gen_case(sp, &mut s);
            println!("property {}\nfamily {}", sp.id, f.name());
            print!("{}", c.text());
            if let Err(e) = c.start.validate() {
                println!("invalid: {e}");
            }
            i32::from(!valid_case(&c)) * 2
        }
        "corpus" => {
            let sp = a.spec();
            let dir = a.opt("--dir").expect("--dir");
            for i in 0..a.num("--cases", 200) {
                let mut s = Src::seeded(a.num("--seed", 1), stream(sp, 777), i);
                let c = gen_case(sp, &mut s).0;
                std::fs::write(format!("{dir}/{i:05}"), yv::fuzz::encode(&c)).unwrap();
            }
            0
        }
        "lines" => {
            let sp = a.spec();
            let mut left = a.num("--cases", 100);
            let mut i = 0;
            while left > 0 {
                let mut s = Src::seeded(a.num("--seed", 1), stream(sp, 888), i);
                let mut c = gen_case(sp, &mut s).0;
                i += 1;
                c.ops.truncate(a.num("--moves", 5) as usize);
                if c.start.legal().len() <= 250 {
                    println!("{}", c.text().trim_end().replace('\n', ";"));
                    left -= 1;
                }
            }
            0
        }
        // are all generated cases in the domain of the property?
        "gencheck" => {
            let sp = a.spec();
            let mut bad = 0;
            for i in 0..a.num("--cases", 1000) {
                let mut s = Src::seeded(a.num("--seed", 1), stream(sp, 0), i);
                let (c, f) = gen_case(sp, &mut s);
                if !valid_case(&c) {
                    bad += 1;
                    println!("{} {i} {}\n{}", sp.id, f.name(), c.text());
                }
            }
            println!("{} {bad} bad cases", sp.id);
            i32::from(bad > 0) * 2
        }
        "decode" => {
            let d = std::fs::read(a.0.last().unwrap()).expect("input");
            match yv::fuzz::decode(a.spec(), &d) {
                Some(c) => {
                    print!("{}", c.text());
                    0
                }
                None => 1,
            }
        }
        "selftest" => selftest(),
        "specs" => {
            let v: Vec<String> = SPECS
                .iter()
                .map(|s| {
                    format!(
                        "{}:{{\"quick\":{},\"thorough\":{},\"rule\":{}}}",
                        json(s.id),
                        s.quick,
                        s.thorough,
                        json(s.rule)
                    )
                })
                .collect();
            println!("{{{}}}", v.join(","));
            0
        }
        "divide" => {
            let d: usize = a.0[0].parse().expect("depth");
            let mut m = MPos::startpos();
            for mv in m.legal() {
                let u = m.apply(mv);
                println!("{}: {}", mv.usi(), m.perft(d - 1));
                m.unapply(mv, u);
            }
            0
        }
        _ => {
            eprintln!("usage: see src/main.rs");
            2
        }
    };
    std::process::exit(rc);
}
