//! Drives the real mollusc crates over the cases it's given and records what they do.
//!
//! `mvh exec CASES OUT`: run every case (one JSON object per line) in an isolated worker and
//! write one observation line per case. A crash of the code under test is an observation.
//! `mvh work CASES START OUT`: the worker.

mod cursor;
mod mapper;
mod stream;
mod support;

use std::alloc::{GlobalAlloc, Layout, System};
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

/// Counts live bytes and refuses absurd requests, so that the code under test can't exhaust
/// the machine's memory.
struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
const LIMIT: usize = 1 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        if l.size() > LIMIT || live > 2 * LIMIT {
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        PEAK.fetch_max(live, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

pub fn limbs(mut v: u64) -> Value {
    let mut out = vec![];
    while v != 0 {
        out.push(json!(v & 0xffff));
        v >>= 16;
    }
    Value::Array(out)
}

pub fn bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::Array(a) => a.iter().map(|b| b.as_u64().unwrap() as u8).collect(),
        // Hexadecimal, for bulky data.
        Value::String(s) => (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
            .collect(),
        _ => panic!("no bytes: {:?}", v),
    }
}

fn run(case: &Value) -> Value {
    match case["k"].as_str().unwrap() {
        "cursor" => cursor::exec(case),
        "stream" => stream::exec(case),
        "map" => mapper::exec(case),
        _ => support::exec(case),
    }
}

/// Peak allocation (in bytes) while running `f`.
pub fn with_peak<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = LIVE.load(Ordering::Relaxed);
    PEAK.store(base, Ordering::Relaxed);
    let r = f();
    (r, PEAK.load(Ordering::Relaxed).saturating_sub(base))
}

/// Run code under test; `Err` if it panicked.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

fn work(cases: &str, start: usize, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = OpenOptions::new().append(true).open(out).unwrap();
    for line in BufReader::new(File::open(cases).unwrap()).lines().skip(start) {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        // A thread of the default main thread's size, so that stack use is realistic.
        let obs = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || run(&case))
            .unwrap()
            .join()
            .expect("the harness itself panicked");
        writeln!(out, "{}", obs).unwrap();
    }
}

fn count_lines(path: &str) -> usize {
    BufReader::new(File::open(path).unwrap()).lines().count()
}

fn exec(cases: &str, out: &str) {
    let total = count_lines(cases);
    File::create(out).unwrap();
    let limit = Duration::from_secs(
        std::env::var("MVH_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60),
    );
    loop {
        let start = count_lines(out);
        if start >= total {
            break;
        }
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["work", cases, &start.to_string(), out])
            .stderr(Stdio::piped())
            .spawn()
            .unwrap();
        let mut stderr = child.stderr.take().unwrap();
        let tail = std::thread::spawn(move || {
            let mut s = vec![];
            let _ = std::io::Read::read_to_end(&mut stderr, &mut s);
            String::from_utf8_lossy(&s).into_owned()
        });
        let (mut size, mut since) = (0, Instant::now());
        let mut hung = false;
        let status = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break s;
            }
            let now = std::fs::metadata(out).unwrap().len();
            if now != size {
                size = now;
                since = Instant::now();
            } else if since.elapsed() > limit {
                hung = true;
                let _ = child.kill();
                break child.wait().unwrap();
            }
            std::thread::sleep(Duration::from_millis(2));
        };
        if status.success() {
            continue;
        }
        let err = tail.join().unwrap();
        if err.contains("the harness itself panicked") {
            eprintln!("{}", err);
            std::process::exit(2);
        }
        // The case after the last complete line is the culprit.
        let text = std::fs::read(out).unwrap();
        let keep = text.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
        let mut f = OpenOptions::new().write(true).open(out).unwrap();
        f.set_len(keep as u64).unwrap();
        std::io::Seek::seek(&mut f, std::io::SeekFrom::End(0)).unwrap();
        let why = if hung { "hang" } else { "abort" };
        let err: String = err.chars().take(300).collect();
        writeln!(f, "{}", json!({"out": why, "why": err})).unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match args[1..] {
        ["exec", cases, out] => exec(cases, out),
        ["work", cases, start, out] => work(cases, start.parse().unwrap(), out),
        _ => {
            eprintln!("usage: mvh exec CASES OUT");
            std::process::exit(2);
        }
    }
}
