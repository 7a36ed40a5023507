//! Replays behaviours generated by TLC into justjson and records behaviours of
//! justjson for validation by TLC.
mod json;
mod obs;
mod text;
mod bulk;
mod gen;
mod record;
mod strings;
mod cursor;
mod numbers;
#[cfg(feature = "full")]
mod values;

use json::J;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
const HANG_SECS: u64 = 25;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// run code under test; a panic becomes an error
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

/// What is being judged and what was found.
pub struct Ctx {
    pub aspects: BTreeSet<String>,
    pub seed: u64,
    pub current: String,
    pub fails: BTreeMap<String, u64>,
    pub evals: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
}

impl Ctx {
    pub fn on(&self, a: &str) -> bool {
        self.aspects.contains(a)
    }
    pub fn fail(&mut self, aspect: &str, why: String) {
        let n = self.fails.entry(aspect.to_string()).or_insert(0);
        *n += 1;
        if *n <= 3 {
            let why = if why.len() > 3000 { why.chars().take(1200).collect::<String>() + " ..." } else { why };
            let l = json::obj(vec![
                ("aspect", json::s(aspect)),
                ("why", json::s(&why)),
                ("vec", json::s(&self.current)),
            ]);
            println!("FAIL {}", l.text());
        }
    }
    /// one evaluation of an aspect; a panic of the code under test is a failure
    pub fn judge(&mut self, aspect: &str, f: impl FnOnce() -> Result<(), String>) {
        if !self.on(aspect) {
            return;
        }
        *self.evals.entry(aspect.to_string()).or_insert(0) += 1;
        match guard(f) {
            Ok(Ok(())) => {}
            Ok(Err(w)) => self.fail(aspect, w),
            Err(p) => {
                if p.contains("vector:") {
                    eprintln!("TOOL {p}");
                    std::process::exit(4);
                }
                self.fail(aspect, format!("panic: {p}"));
            }
        }
    }
    pub fn note(&mut self, k: &str) {
        *self.notes.entry(k.to_string()).or_insert(0) += 1;
    }
}

pub fn ensure(c: bool, why: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(why())
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p == last {
                same += 1;
                if same >= HANG_SECS {
                    println!("HANG {p}");
                    std::process::exit(5);
                }
            } else {
                last = p;
                same = 0;
            }
        }
    });
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    // deep recursion of a broken parser must not take the process down too easily
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || match args.get(1).map(String::as_str) {
            Some("replay") => replay(&args, seed),
            Some("record") => {
                watchdog();
                record::run(
                    &arg(&args, "--suite").expect("--suite"),
                    seed,
                    arg(&args, "--count").and_then(|s| s.parse().ok()).unwrap_or(100),
                    &arg(&args, "--out").expect("--out"),
                    arg(&args, "--progress").as_deref(),
                );
            }
            Some("probe") => probe(),
            _ => {
                eprintln!("usage: jj replay|record|probe");
                std::process::exit(2);
            }
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("TOOL panic: {}", "harness");
        std::process::exit(4);
    }
}

/// what the library decodes `\\b` to
fn observed_backspace() -> i64 {
    match justjson::JsonString::from_json("\"\\b\"") {
        Ok(s) => s.decoded().map(|c| c as i64).next().unwrap_or(-1),
        Err(_) => -1,
    }
}

/// facts the specification takes as constants
fn probe() {
    let bell = guard(|| justjson::JsonString::from("\u{7}").as_json().eq("\\b".chars())).unwrap_or(false);
    println!("{}", json::obj(vec![("backspace", J::Int(guard(observed_backspace).unwrap_or(-1))), ("bell", J::Bool(bell))]).text());
}

fn replay(args: &[String], seed: u64) {
    let aspects: BTreeSet<String> =
        arg(args, "--aspects").expect("--aspects").split(',').map(str::to_string).collect();
    let shard: Vec<u64> =
        arg(args, "--shard").unwrap_or("0/1".into()).split('/').map(|x| x.parse().unwrap()).collect();
    let files: Vec<String> = arg(args, "--files").expect("--files").split(',').map(str::to_string).collect();
    let mut progress = arg(args, "--progress").map(|p| std::fs::File::create(p).expect("progress file"));
    let mut ctx = Ctx {
        aspects,
        seed,
        current: String::new(),
        fails: BTreeMap::new(),
        evals: BTreeMap::new(),
        notes: BTreeMap::new(),
    };
    watchdog();
    let b = guard(observed_backspace).unwrap_or(-1);
    strings::set_backspace(if b == 7 { 7 } else { 8 });
    let mut lines = 0u64;
    let mut vectors = 0u64;
    for (fi, f) in files.iter().enumerate() {
        let rd = std::io::BufReader::new(std::fs::File::open(f).expect("vector file"));
        let mut no = 0u64;
        for line in rd.lines() {
            let line = match line {
                Ok(l) => l,
                Err(_) => continue,
            };
            if !line.starts_with("\"{") && !line.starts_with('{') {
                continue;
            }
            no += 1;
            lines += 1;
            if no % shard[1] != shard[0] {
                continue;
            }
            let text = if line.starts_with('{') { line } else { json::unprint(&line).expect("TOOL: printed vector") };
            if let Some(p) = &mut progress {
                let _ = p.seek(SeekFrom::Start(0));
                let _ = p.write_all(format!("{fi} {no:20}\n").as_bytes());
            }
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            let v = json::parse(&text).expect("TOOL: vector is JSON");
            ctx.current = text;
            vectors += 1;
            match v.get("k").str() {
                "T" => {
                    text::replay(&mut ctx, &v);
                    for more in v.get("more").arr() {
                        let w = text::continued(&v, more);
                        ctx.current = w.text();
                        text::replay(&mut ctx, &w);
                    }
                }
                "B" => bulk::replay(&mut ctx, &v),
                "C" => text::config_history(&mut ctx, &v),
                "L" => text::walk(&mut ctx, &v),
                "P" => strings::pairs(&mut ctx, &v),
                "U" => strings::unit_row(&mut ctx, &v),
                "H" => strings::pair_row(&mut ctx, &v),
                "Y" => strings::utf8_row(&mut ctx, &v),
                "D" => cursor::doc_history(&mut ctx, &v),
                "N" => numbers::ints_vector(&mut ctx, &v),
                "F" => numbers::float_vector(&mut ctx, &v),
                "K" => cursor::tok_history(&mut ctx, &v),
                #[cfg(feature = "full")]
                "W" => values::write_vector(&mut ctx, &v),
                #[cfg(feature = "full")]
                "O" => values::edit_vector(&mut ctx, &v),
                #[cfg(feature = "full")]
                "E" => values::eq_row(&mut ctx, &v),
                k => {
                    eprintln!("TOOL unknown vector kind {k}");
                    std::process::exit(4);
                }
            }
        }
    }
    let m = |x: &BTreeMap<String, u64>| J::Obj(x.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect());
    println!(
        "DONE {}",
        json::obj(vec![
            ("lines", J::Int(lines as i64)),
            ("vectors", J::Int(vectors as i64)),
            ("evals", m(&ctx.evals)),
            ("fails", m(&ctx.fails)),
            ("notes", m(&ctx.notes)),
        ])
        .text()
    );
}
