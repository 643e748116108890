//! Conformance worker for the openjp2 crate: one JSON session per line on stdin, one JSON result per line on
//! stdout. A session is {"ops":[...]}; every op yields one result object; a panic ends the session.
mod io;
mod ops;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn main() {
    if std::env::var("JP2W_TRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    unsafe {
        let gb = std::env::var("JP2W_AS_GB").ok().and_then(|s| s.parse().ok()).unwrap_or(3u64);
        let lim = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let res = run(&v);
        let mut o = out.lock();
        serde_json::to_writer(&mut o, &res).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}

pub fn run(v: &Value) -> Value {
    // independent sessions on concurrent threads
    if let Some(th) = v.get("threads") {
        let hs: Vec<_> = th
            .as_array()
            .unwrap()
            .iter()
            .cloned()
            .map(|s| std::thread::Builder::new().stack_size(16 << 20).spawn(move || run(&s)).unwrap())
            .collect();
        return json!({"threads": hs.into_iter().map(|h| h.join().unwrap_or(json!("panic"))).collect::<Vec<_>>()});
    }
    let mut st = ops::State::default();
    let mut outs = Vec::new();
    for op in v["ops"].as_array().unwrap() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ops::exec(&mut st, op)));
        match r {
            Ok(r) => {
                st.good = r["ok"] != json!(false);
                let stop = v.get("stop").is_some() && r["ok"] == json!(false);
                outs.push(r);
                if stop {
                    // report what the library said and end the session
                    outs.push(ops::messages(&st));
                    break;
                }
            }
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                outs.push(json!({"panic": m}));
                std::mem::forget(st);
                return json!({"out": outs, "panic": true});
            }
        }
    }
    if v.get("leak").is_none() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ops::drop_all(&mut st)));
        if r.is_err() {
            std::mem::forget(st);
            outs.push(json!({"panic": "in destroy"}));
            return json!({"out": outs, "panic": true});
        }
    }
    json!({"out": outs})
}
