//! Runs the repository's WASM entry point (`run`) natively: one JSON array [name, input, options] per line.
#[allow(dead_code, unexpected_cfgs)]
#[path = "../../../../repo/json_typegen_wasm/src/lib.rs"]
mod wasm;

use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let v: Vec<String> = serde_json::from_str(&line.unwrap()).unwrap();
        let r = std::panic::catch_unwind(|| wasm::run(&v[0], &v[1], &v[2]));
        let r = match r {
            Ok(s) => serde_json::json!({ "ok": s }),
            Err(_) => serde_json::json!({ "panic": "panic" }),
        };
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
}
