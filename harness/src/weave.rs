//! Sessions side by side in the schedules of spec/Weave.tla: none is to notice the others (P32).
use crate::{ctx::*, sign, tags, ver, ver::Symbols};
use serde_json::Value;
use std::{
    future::Future,
    pin::Pin,
    sync::{atomic::Ordering, Arc},
    task::{Context, Poll, Wake, Waker},
};
use viadkim::{
    verifier::{Config, VerificationResult},
    HeaderFields, Signer, Verifier,
};

struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}

enum Input {
    Ver { sy: Symbols, headers: HeaderFields, cfg: Config, res: ver::Resolver },
    Sign { headers: HeaderFields, alone: (String, Vec<Value>) },
}

enum State<'a> {
    Fresh,
    Pending(Pin<Box<dyn Future<Output = Option<Verifier>> + 'a>>),
    Verifier(Option<Verifier>),
    Signer(Result<Signer<sign::Key>, String>),
    Over,
}

fn pieces<'a>(rec: &Value, body: &'a [u8]) -> [&'a [u8]; 2] {
    let at = ver::arr(&rec["cut"]).iter().map(|x| ver::int(x) as usize).find(|&x| x <= body.len()).unwrap_or(body.len() / 2);
    [&body[..at], &body[at..]]
}

fn input(rec: &Value) -> Option<Input> {
    if rec["k"] == "ver" {
        let sy = Symbols::of(rec);
        let hs = ver::arr(&rec["headers"]).iter().map(|h| (String::from_utf8(bytes(&h[0])).expect("HARNESS: header name"), sy.text(&h[1]))).collect();
        let headers = HeaderFields::from_vec(hs).ok()?;
        let mut cfg = ver::config_of(&rec["cfg"], ver::digits(&rec["now"]), &rec["left"]);
        // time does not pass here
        cfg.lookup_timeout = cfg.lookup_timeout.max(std::time::Duration::from_secs(600));
        let mut res = ver::dns_of(&rec["dns"], &sy, false);
        for e in Arc::get_mut(&mut res.0).expect("HARNESS: resolver").map.values_mut() {
            e.rank = e.rank.min(2) + 1;
        }
        Some(Input::Ver { sy, headers, cfg, res })
    } else {
        let headers = sign::headers_of(&rec["headers"])?;
        let body = bytes(&rec["body"]);
        let alone = sign::run(rec, &headers, &pieces(rec, &body), false)?;
        Some(Input::Sign { headers, alone })
    }
}

/// In what the results differ from what the specification expects of the session alone.
fn differs(rec: &Value, sy: &Symbols, results: &[VerificationResult]) -> Option<String> {
    let sigs = ver::arr(&rec["exp"]["sigs"]);
    if results.len() != sigs.len() {
        return Some(format!("{} results, expected {}", results.len(), sigs.len()));
    }
    for (k, (r, e)) in results.iter().zip(sigs).enumerate() {
        if r.index as i64 != ver::int(&e["index"]) {
            return Some(format!("result {k} is about header {}, expected {}", r.index, e["index"]));
        }
        if e["free"].as_bool().unwrap() {
            continue;
        }
        let got = ver::status_name(&r.status);
        if !ver::arr(&e["st"]).iter().any(|s| *s == got) {
            return Some(format!("result {k} is {got}, expected {}", e["st"]));
        }
        let want = e["sig"]["alg"].as_str().unwrap() != "";
        if r.signature.is_some() != want {
            return Some(format!("result {k}: signature reported: {}", r.signature.is_some()));
        }
        if let (Some(s), true) = (&r.signature, want) {
            if let Some(d) = tags::signature_differs(s, &sy.signature(&e["sig"])) {
                return Some(format!("result {k}: {d} of the signature is another"));
            }
        }
        let rec = ver::arr(&e["rec"]).first();
        if r.key_record.is_some() != rec.is_some() {
            return Some(format!("result {k}: key record reported: {}", r.key_record.is_some()));
        }
        if let (Some(g), Some(w)) = (&r.key_record, rec) {
            if let Some(d) = tags::record_differs(g, &sy.record(w)) {
                return Some(format!("result {k}: {d} of the key record is another"));
            }
        }
    }
    None
}

pub fn replay(v: &Value, rep: &mut Report) {
    let recs = ver::arr(&v["recs"]);
    let legacy = cfg!(feature = "pre-rfc8301");
    if recs.iter().any(|r| r["legacy"].as_bool().unwrap_or(false) != legacy) {
        rep.count("weaves of the other configuration", 1);
        return;
    }
    let Some(inputs) = recs.iter().map(input).collect::<Option<Vec<_>>>() else {
        rep.count("weaves skipped (cannot be expressed)", 1);
        return;
    };
    let sched: Vec<(usize, &str)> = ver::arr(&v["sched"]).iter().map(|s| (ver::int(&s[0]) as usize - 1, s[1].as_str().unwrap())).collect();
    let wakes = |i: usize| sched.iter().filter(|s| s.0 == i && s.1 == "poll").count();
    let bodies: Vec<Vec<u8>> = recs.iter().map(|r| bytes(&r["body"])).collect();
    let n_pieces: Vec<usize> = (0..recs.len()).map(|i| sched.iter().filter(|s| s.0 == i && s.1 == "feed").count()).collect();
    let dropped: Vec<bool> = (0..recs.len()).map(|i| sched.iter().any(|s| *s == (i, "drop"))).collect();
    let about = |i: usize| {
        let steps: Vec<String> = sched.iter().map(|(i, a)| format!("{}{a}", i + 1)).collect();
        format!("session {} of {} in {}", i + 1, recs.len(), steps.join(" "))
    };
    let w = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&w);
    let mut states: Vec<State> = inputs.iter().map(|_| State::Fresh).collect();
    let mut woken = vec![0; recs.len()];
    let mut fed = vec![0; recs.len()];
    for &(i, act) in &sched {
        let old = std::mem::replace(&mut states[i], State::Over);
        states[i] = match (act, &inputs[i], old) {
            ("poll", Input::Ver { headers, cfg, res, .. }, s) => {
                let mut f = match s {
                    State::Fresh => Box::pin(Verifier::verify_header(res, headers, cfg)) as Pin<Box<dyn Future<Output = _>>>,
                    State::Pending(f) => f,
                    s => {
                        states[i] = s;
                        woken[i] += 1;
                        continue;
                    }
                };
                woken[i] += 1;
                let mut out = None;
                // the last of its wakes sees it through, if it is to go on
                let n = if woken[i] == wakes(i) && (!dropped[i] || n_pieces[i] > 0) { 100_000 } else { 1 };
                for _ in 0..n {
                    if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                        out = Some(x);
                        break;
                    }
                }
                match out {
                    Some(x) => State::Verifier(x),
                    None if n == 1 => State::Pending(f),
                    None => panic!("verification does not come to an end"),
                }
            }
            ("poll", Input::Sign { headers, .. }, State::Fresh) => {
                let reqs = ver::arr(&recs[i]["reqs"]).iter().map(|r| sign::request(r, &recs[i]["left"])).collect::<Option<Vec<_>>>().expect("HARNESS: request");
                State::Signer(Signer::prepare_signing(headers.clone(), reqs).map_err(|e| format!("{e:?}")))
            }
            ("feed", _, mut s) => {
                let p = pieces(&recs[i], &bodies[i]);
                // the last piece in the schedule has all the rest
                let data: Vec<&[u8]> = match (fed[i], n_pieces[i]) {
                    (0, 1) if !dropped[i] => vec![p[0], p[1]],
                    (k, _) => vec![p[k.min(1)]],
                };
                fed[i] += 1;
                for d in data {
                    match &mut s {
                        State::Verifier(Some(x)) => {
                            let _ = x.process_body_chunk(d);
                        }
                        State::Signer(Ok(x)) => {
                            let _ = x.process_body_chunk(d);
                        }
                        _ => (),
                    }
                }
                s
            }
            ("end", Input::Ver { sy, res, .. }, State::Verifier(x)) => {
                let results = x.map_or(vec![], |x| x.finish());
                if let Some(d) = differs(&recs[i], sy, &results) {
                    rep.violation("P32", format!("{d}: {}", about(i)));
                }
                if !recs[i]["exp"]["free"].as_bool().unwrap() {
                    let mut asked: Vec<String> = res.0.log.lock().unwrap().iter().filter(|x| x.1 == 0).map(|x| x.0.clone()).collect();
                    asked.sort();
                    let mut want: Vec<String> = ver::arr(&recs[i]["exp"]["queries"]).iter().map(|q| String::from_utf8(bytes(q)).unwrap()).collect();
                    want.sort();
                    rep.check("P32", asked == want, || format!("lookups {asked:?}, expected {want:?}: {}", about(i)));
                }
                rep.count("verifying sessions ended among others", 1);
                State::Over
            }
            ("end", Input::Sign { alone, .. }, State::Signer(x)) => {
                let got = match x {
                    Err(e) => (e, vec![]),
                    Ok(x) => (String::new(), sign::outputs(ver::run_plain(x.sign()))),
                };
                rep.check("P32", got == *alone, || format!("signing gives {got:?}, alone {alone:?}: {}", about(i)));
                rep.count("signing sessions ended among others", 1);
                State::Over
            }
            ("drop", input, s) => {
                drop(s);
                if let Input::Ver { res, .. } = input {
                    rep.check("P32", res.0.live.load(Ordering::SeqCst) == 0, || format!("lookups go on: {}", about(i)));
                }
                rep.count("sessions abandoned", 1);
                State::Over
            }
            (_, _, s) => s,
        };
    }
    rep.count(&format!("weaves of {}", recs.len()), 1);
}
