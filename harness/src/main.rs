//! Conformance harness: binds the TLA+ specification in /verif/spec to the real code.
//!
//! vh replay IN.ndjson OUT.json     replays specification scenarios on the code, compares
//! vh sign IN.ndjson OUT.ndjson    runs the signer on sessions, for judgement by TLC
//! vh record SUITE SEED N OUT.ndjson    records executions of the code for validation by TLC
mod blocks;
mod body;
mod chaos;
mod ctx;
mod header;
mod keys;
mod sign;
mod tags;
mod ver;
mod weave;

use ctx::*;
use serde_json::{json, Value};
use std::{
    fs,
    io::{BufRead, BufReader, Write},
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

fn replay_one(kind: &str, v: &Value, r: &mut Report) {
    match kind {
        "body" => body::replay_body(v, r),
        "bodyruns" => body::replay_runs(v, r),
        "field" => header::replay_field(v, r),
        "select" => header::replay_select(v, r),
        "names" => header::replay_names(v, r),
        "qp" => tags::replay_qp(v, r),
        "b64" => tags::replay_b64(v, r),
        "enc" => tags::replay_enc(v, r),
        "tags" => tags::replay_tags(v, r),
        "domain" => tags::replay_domain(v, r),
        "pair" => tags::replay_pair(v, r),
        "identity" => tags::replay_identity(v, r),
        "sig" => tags::replay_sig(v, r),
        "key" => tags::replay_key(v, r),
        "ver" => ver::replay_ver(v, r),
        "signed" => sign::replay_signed(v, r),
        "status" => ver::replay_status(v, r),
        "words" => ver::replay_words(v, r),
        "cause" => ver::replay_cause(v, r),
        "chaos" => chaos::replay(v, r),
        "weave" => weave::replay(v, r),
        "name" => blocks::replay_name(v, r),
        "table" => blocks::replay_table(v, r),
        "counter" => blocks::replay_counter(v, r),
        "pem" => blocks::replay_pem(v, r),
        "vkey" => blocks::replay_vkey(v, r),
        "crypt" => blocks::replay_crypt(v, r),
        _ => panic!("HARNESS: unknown record kind {kind}"),
    }
    // settings left alone: whatever is wrong
    if v["theme"] == "defaults" || v["s"]["left"].is_array() {
        if let Some((_, m)) = r.cur.first().cloned() {
            r.violation("P29", m);
        }
    }
}

fn record_all(suite: &str, seed: u64, n: usize) -> Vec<Value> {
    match suite {
        "hasher" => body::record_hasher(seed, n),
        "chaos" => chaos::record(seed, n),
        _ => panic!("HARNESS: unknown suite {suite}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if msg.starts_with("HARNESS") {
            eprintln!("{msg} at {loc}");
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
    match args[1].as_str() {
        "replay" => replay(&args[2], &args[3]),
        "sign" => each(&args[2], &args[3], sign::record),
        "sessions" => each(&args[2], &args[3], |v| Some(ver::record_session(&v))),
        "record" => {
            let seed = args[3].parse().unwrap();
            let n = args[4].parse().unwrap();
            let mut f = std::io::BufWriter::new(fs::File::create(&args[5]).unwrap());
            for v in record_all(&args[2], seed, n) {
                writeln!(f, "{v}").unwrap();
            }
        }
        _ => {
            eprintln!("usage");
            std::process::exit(2);
        }
    }
}

fn each(input: &str, output: &str, f: impl Fn(Value) -> Option<Value> + Sync) {
    let recs: Vec<String> = BufReader::new(fs::File::open(input).unwrap()).lines().map(|l| l.unwrap()).collect();
    let next = AtomicUsize::new(0);
    let out: Vec<Mutex<Option<Value>>> = recs.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                let Some(l) = recs.get(i) else { break };
                let v = serde_json::from_str(l).expect("HARNESS: bad record");
                *out[i].lock().unwrap() = f(v);
            });
        }
    });
    let mut f = std::io::BufWriter::new(fs::File::create(output).unwrap());
    for v in out.iter().filter_map(|o| o.lock().unwrap().take()) {
        writeln!(f, "{v}").unwrap();
    }
}

struct Shared {
    next: AtomicUsize,
    recs: Vec<String>,
    reports: Mutex<Report>,
    busy: Mutex<Vec<Option<(usize, Instant)>>>,
}

fn write_out(path: &str, r: &Report) {
    let viol: Vec<Value> = r.violations.iter().map(|(p, m, rec)| json!({"prop": p, "msg": m, "rec": rec})).collect();
    let out = json!({"checked": r.checked, "violations": viol, "counts": r.counts, "harness_errors": r.harness_errors});
    fs::write(path, out.to_string()).unwrap();
}

fn replay(input: &str, output: &str) {
    let recs: Vec<String> = BufReader::new(fs::File::open(input).unwrap()).lines().map(|l| l.unwrap()).collect();
    let nthreads = 8;
    let sh = Arc::new(Shared {
        next: AtomicUsize::new(0),
        recs,
        reports: Mutex::new(Report::default()),
        busy: Mutex::new(vec![None; nthreads]),
    });
    let mut hs = vec![];
    for t in 0..nthreads {
        let sh = sh.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let i = sh.next.fetch_add(1, Ordering::SeqCst);
                    if i >= sh.recs.len() {
                        break;
                    }
                    let v: Value = serde_json::from_str(&sh.recs[i]).expect("HARNESS: bad record");
                    sh.busy.lock().unwrap()[t] = Some((i, Instant::now()));
                    let mut r = Report::default();
                    let kind = v["k"].as_str().expect("HARNESS: no kind").to_owned();
                    let res = panic::catch_unwind(AssertUnwindSafe(|| replay_one(&kind, &v, &mut r)));
                    r.checked += 1;
                    if res.is_err() {
                        let m = PANIC_MSG.with(|p| p.borrow().clone());
                        if m.starts_with("HARNESS") || m.contains("/verif/harness") || m.contains("at src/") && !m.contains("/repo/") {
                            r.harness_errors.push(format!("{m} on {}", &sh.recs[i][..sh.recs[i].len().min(600)]));
                        } else {
                            r.violation("P28", format!("panic: {m}"));
                            for p in props_of_kind(&kind, &v) {
                                r.violation(p, format!("panic: {m}"));
                            }
                        }
                    }
                    sh.busy.lock().unwrap()[t] = None;
                    let mut all = sh.reports.lock().unwrap();
                    all.merge(r, &v);
                })
                .unwrap(),
        );
    }
    // watchdog: non-termination is data
    let limit: u64 = std::env::var("VH_HANG_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        let hung = sh.busy.lock().unwrap().iter().flatten().find(|(_, t)| t.elapsed().as_secs() > limit).map(|x| x.0);
        if let Some(i) = hung {
            let v: Value = serde_json::from_str(&sh.recs[i]).unwrap();
            let mut all = sh.reports.lock().unwrap();
            let mut r = Report::default();
            r.violation("P28", format!("no answer within {limit} s"));
            for p in props_of_kind(v["k"].as_str().unwrap(), &v) {
                r.violation(p, format!("no answer within {limit} s"));
            }
            all.merge(r, &v);
            write_out(output, &all);
            std::process::exit(0);
        }
    }
    for h in hs {
        if h.join().is_err() {
            sh.reports.lock().unwrap().harness_errors.push("worker died".into());
        }
    }
    let all = sh.reports.lock().unwrap();
    write_out(output, &all);
}

fn props_of_kind(kind: &str, v: &Value) -> &'static [&'static str] {
    match kind {
        "body" | "bodyruns" => &["P01", "P02", "P03", "P04"],
        "field" | "names" => &["P26", "P06"],
        "select" => &["P05", "P06"],
        "qp" | "b64" | "enc" => &["P25"],
        "tags" => &["P15"],
        "domain" | "pair" | "identity" => &["P24"],
        "sig" => &["P14"],
        "key" => &["P16"],
        "status" => &["P23"],
        "words" | "cause" => &["P33"],
        "signed" => &["P08"],
        "weave" => &["P32"],
        "name" | "table" => &["P30"],
        "counter" | "pem" | "vkey" | "crypt" => &["P31"],
        "ver" => ver::theme_props(v["theme"].as_str().unwrap()),
        _ => &[],
    }
}
