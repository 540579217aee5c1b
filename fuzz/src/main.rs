//! Coverage-guided search for a violation of the property named by the
//! environment variable YV_PROPERTY. A violating case is written to the file
//! YV_OUT before the process ends with code 77; what was covered goes to
//! YV_OUT.stats and YV_OUT.hashes. For C15, YV_OTHER is the harness built
//! with another configuration of the library, asked for the same case.
#![no_main]

use libfuzzer_sys::fuzz_target;
use std::cell::Cell;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Mutex, OnceLock};
use yv::gen::Case;
use yv::oracles::*;

thread_local! {
    static WHERE: Cell<bool> = const { Cell::new(false) };
}

#[derive(Default)]
struct Total {
    cases: u64,
    evals: u64,
    hashes: Vec<u64>,
    samples: Vec<String>,
}

struct Setup {
    sp: &'static Spec,
    out: String,
    total: Mutex<Total>,
    other: Option<Mutex<(ChildStdin, BufReader<ChildStdout>)>>,
}

static SETUP: OnceLock<Setup> = OnceLock::new();

extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
}

extern "C" fn report() {
    let Some(s) = SETUP.get() else { return };
    let Ok(mut t) = s.total.lock() else { return };
    t.hashes.sort_unstable();
    t.hashes.dedup();
    let mut raw = Vec::with_capacity(t.hashes.len() * 8);
    for h in &t.hashes {
        raw.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(format!("{}.hashes", s.out), raw);
    let mut text = format!("{} {}\n", t.cases, t.evals);
    for x in &t.samples {
        text += &x.replace('\n', " ");
        text.push('\n');
    }
    let _ = std::fs::write(format!("{}.stats", s.out), text);
}

fn setup() -> Setup {
    // libfuzzer-sys aborts on every panic; here panics are caught and judged
    std::panic::set_hook(Box::new(|i| {
        let own = i
            .location()
            .map_or(false, |l| l.file().contains("/harness/src/") || l.file().starts_with("src/"));
        WHERE.with(|w| w.set(own));
        if own {
            eprintln!("panic in the harness: {i}");
        }
    }));
    let id = std::env::var("YV_PROPERTY").expect("YV_PROPERTY");
    let other = std::env::var("YV_OTHER").ok().map(|b| {
        let mut ch = Command::new(b)
            .arg("serve")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("other build");
        Mutex::new((ch.stdin.take().unwrap(), BufReader::new(ch.stdout.take().unwrap())))
    });
    unsafe {
        atexit(report);
    }
    Setup {
        sp: spec(&id).expect("property"),
        out: std::env::var("YV_OUT").expect("YV_OUT"),
        total: Mutex::default(),
        other,
    }
}

fn ask(other: &Mutex<(ChildStdin, BufReader<ChildStdout>)>, c: &Case) -> Option<String> {
    let mut g = other.lock().unwrap();
    writeln!(g.0, "{}", c.text().replace('\n', ";")).ok()?;
    let mut l = String::new();
    g.1.read_line(&mut l).ok()?;
    (!l.is_empty()).then(|| l.trim().to_string())
}

fuzz_target!(|data: &[u8]| {
    let st = SETUP.get_or_init(setup);
    let Some(c) = yv::fuzz::decode(st.sp, data) else {
        return;
    };
    let mut ctx = Ctx::default();
    let r = catch_unwind(AssertUnwindSafe(|| (st.sp.check)(&c, &mut ctx)));
    let verdict = match r {
        Ok(r) => r,
        Err(_) if WHERE.with(|w| w.get()) => std::process::abort(),
        Err(_) => Err("panic".to_string()),
    };
    {
        let mut t = st.total.lock().unwrap();
        t.cases += 1;
        t.evals += ctx.evals;
        t.hashes.extend_from_slice(&ctx.hashes);
        if t.samples.len() < 8 && t.cases.is_power_of_two() && t.cases.trailing_zeros() % 3 == 2 {
            t.samples.extend(ctx.samples.into_iter().next());
        }
    }
    let msg = match (&st.other, verdict) {
        (None, Ok(())) => return,
        (None, Err(e)) => e,
        (Some(o), v) => {
            let own = v.map_or("failed".into(), |()| format!("{:016x}", ctx.digest));
            match ask(o, &c) {
                Some(x) if x == own || x == "broken" => return,
                Some(_) => "builds differ".to_string(),
                None => "another build died".to_string(),
            }
        }
    };
    if !yv::gen::valid_case(&c) {
        return;
    }
    std::fs::write(&st.out, format!("{}message {}\n", c.text(), msg.replace('\n', " "))).unwrap();
    std::process::exit(77);
});
