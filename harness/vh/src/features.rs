//! The same cases in builds of the crate with different features.
use crate::run::{cut, Res, Stats};
use pcore::choice::{mix, Ch};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// The builds, by their features.
pub const BUILDS: &[&str] = &["none", "parser", "interning", "both"];

struct Variant {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Variant {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn start(name: &str) -> Variant {
    let dir = std::env::var("VH_VARIANTS").unwrap_or_else(|_| format!("{}/harness/target-variants", crate::run::root()));
    let path = format!("{dir}/{name}/chk/variant");
    let mut child = Command::new(&path)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| {
            println!("error: {path}: {e}");
            std::process::exit(3);
        });
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Variant { child, to, from }
}
fn ask(v: &mut Variant, line: &str) -> Option<BTreeMap<String, String>> {
    v.to.write_all(line.as_bytes()).ok()?;
    v.to.flush().ok()?;
    let mut out = BTreeMap::new();
    loop {
        let mut l = String::new();
        if v.from.read_line(&mut l).ok()? == 0 {
            return None;
        }
        let l = l.trim_end_matches('\n');
        if l == "." {
            return Some(out);
        }
        let (k, x) = l.split_once('\t')?;
        out.insert(k.to_string(), x.to_string());
    }
}
thread_local! {
    static RUNNING: RefCell<Vec<Option<Variant>>> = const { RefCell::new(Vec::new()) };
}
fn ask_all(d: &[u32]) -> Result<Vec<BTreeMap<String, String>>, String> {
    let mut line = d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    line.push('\n');
    RUNNING.with(|r| {
        let mut r = r.borrow_mut();
        if r.is_empty() {
            r.extend(BUILDS.iter().map(|_| None));
        }
        let mut out = vec![];
        for (i, b) in BUILDS.iter().enumerate() {
            let v = r[i].get_or_insert_with(|| start(b));
            match ask(v, &line) {
                Some(m) => out.push(m),
                None => {
                    r[i] = None;
                    return Err(format!("the build with features {b} ends abnormally"));
                }
            }
        }
        Ok(out)
    })
}
pub fn features(c: &mut Ch, s: &mut Stats) -> Res {
    let mut d: Vec<u32> = vec![];
    let kind = c.pick(8) as u32;
    d.push(kind);
    while !c.exhausted() {
        d.push(c.next());
    }
    s.input = format!("choices {d:?}");
    let all = ask_all(&d)?;
    let both = &all[3];
    s.input = both.iter().map(|(k, v)| format!("{k}: {}", cut(v, 1500))).collect::<Vec<_>>().join("\n");
    let what = ["value", "value", "value", "names", "numbers", "words", "requirements", "parsing"][kind as usize];
    s.class(what);
    let size: usize = both.values().map(|v| v.len()).sum();
    s.case(both.values().collect::<Vec<_>>(), size > 20);
    s.max("longest observation", size as f64);
    let parser_only = kind == 7;
    for (i, b) in BUILDS.iter().enumerate() {
        let has_parser = i == 1 || i == 3;
        if parser_only != has_parser && parser_only {
            continue;
        }
        for (k, v) in both {
            let got = all[i].get(k).map_or("nothing", |x| x.as_str());
            if got != v {
                let at = got.bytes().zip(v.bytes()).take_while(|(x, y)| x == y).count();
                let from = |t: &str| {
                    let mut k = at.saturating_sub(60).min(t.len());
                    while !t.is_char_boundary(k) {
                        k -= 1;
                    }
                    cut(&t[k..], 400)
                };
                return Err(format!("{k} differs: with features {b}: …{}; with both: …{}", from(got), from(v)));
            }
        }
        if all[i].len() != both.len() {
            return Err(format!("with features {b}: {:?}", all[i].keys()));
        }
    }
    // The crate must not have panicked at all.
    if let Some(m) = both.get("panic") {
        return Err(format!("panicked: {m}"));
    }
    s.sample(|| cut(&s_all(both), 500));
    let _ = mix(0);
    Ok(())
}
fn s_all(m: &BTreeMap<String, String>) -> String {
    m.iter().map(|(k, v)| format!("{k}: {}", cut(v, 150))).collect::<Vec<_>>().join("; ")
}
