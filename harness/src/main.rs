//! Executes scenarios against the real xdvdfs library and reports what it observed.
//! One JSON request per line on stdin, one JSON answer per line on stdout.
//! Nothing here judges: the TLA+ specification does.
mod ops;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let req: serde_json::Value = serde_json::from_str(&line).expect("request");
        let res = catch_unwind(AssertUnwindSafe(|| ops::dispatch(&req)));
        let out = match res {
            Ok(v) => v,
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if msg.starts_with("HARNESS") {
                    serde_json::json!({"harness_error": msg})
                } else {
                    serde_json::json!({"panic": msg})
                }
            }
        };
        let mut o = stdout.lock();
        writeln!(o, "{}", out).unwrap();
        o.flush().unwrap();
    }
}
