//! Answers cases with what this build of the crate shows for them: a line of choices on the
//! standard input is answered by the labelled observations.
use pcore::choice::Ch;
use std::io::{BufRead, Write};

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        let mut out = std::io::BufWriter::new(std::io::stdout());
        for line in std::io::stdin().lock().lines() {
            let Ok(line) = line else { break };
            let d: Vec<u32> = line.split(',').filter_map(|x| x.parse().ok()).collect();
            let seen = std::panic::catch_unwind(|| pcore::observe::observe(&mut Ch::new(&d)));
            let seen = seen.unwrap_or_else(|e| {
                let m = e.downcast_ref::<&str>().map(|s| s.to_string());
                let m = m.or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
                vec![("panic", m)]
            });
            for (k, v) in seen {
                let _ = writeln!(out, "{k}\t{}", esc(&v));
            }
            let _ = writeln!(out, ".");
            let _ = out.flush();
        }
    });
    let _ = h.unwrap().join();
}
