//! Conformance worker for the `laya` server.
//!   layaw decode            stdin: one JSON string or byte array (path) per line; stdout: one JSON object per line
//!   layaw serve PORT LIMIT DIR
use std::io::{BufRead, Write};

use laya::verif::{decode_image_request, serve, Region, Scale};
use serde_json::{json, Value};

fn f(x: f32) -> Value {
    json!(format!("{x}"))
}

fn decode(path: &str) -> Value {
    let r = std::panic::catch_unwind(|| decode_image_request(path));
    match r {
        Err(_) => json!({"panic": true}),
        Ok(Err(e)) => json!({"ok": false, "msg": e}),
        Ok(Ok(r)) => {
            let region = match r.region() {
                Region::Full => json!(["full"]),
                Region::Square => json!(["square"]),
                Region::Absolute { x, y, width, height } => {
                    json!(["abs", x.to_string(), y.to_string(), width.to_string(), height.to_string()])
                }
                Region::Percentage { x, y, width, height } => {
                    json!(["pct", f(*x), f(*y), f(*width), f(*height)])
                }
            };
            let s = r.size();
            let scale = match s.scale() {
                Scale::Max => json!(["max"]),
                Scale::Percentage(p) => json!(["pct", f(p)]),
                Scale::Fixed { width, height } => json!([
                    "fixed",
                    width.map(|w| w.to_string()).unwrap_or_default(),
                    height.map(|h| h.to_string()).unwrap_or_default()
                ]),
                Scale::AspectPreserving { width, height } => {
                    json!(["aspect", width.to_string(), height.to_string()])
                }
            };
            json!({"ok": true, "id": r.identifier().as_bytes(), "region": region, "upscale": s.upscale(),
                   "scale": scale, "degrees": f(r.rotation().degrees()), "mirror": r.rotation().mirror(),
                   "quality": format!("{:?}", r.quality()).to_lowercase(),
                   "format": format!("{:?}", r.format()).to_lowercase(), "mime": r.format().mime()})
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "decode" => {
            std::panic::set_hook(Box::new(|_| {}));
            let out = std::io::stdout();
            let mut out = std::io::BufWriter::new(out.lock());
            for line in std::io::stdin().lock().lines() {
                let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
                let s = match v {
                    Value::String(s) => s,
                    Value::Array(b) => String::from_utf8(
                        b.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap(),
                    _ => panic!("bad input"),
                };
                writeln!(out, "{}", decode(&s)).unwrap();
            }
        }
        "serve" => {
            let port: u16 = a[2].parse().unwrap();
            let limit: usize = a[3].parse().unwrap();
            let dir = std::path::PathBuf::from(&a[4]).into_boxed_path();
            let r = serve(([127, 0, 0, 1], port).into(), limit, dir);
            eprintln!("serve ended: {r:?}");
            std::process::exit(3);
        }
        _ => panic!("usage"),
    }
}
