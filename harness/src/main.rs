//! Observation harness: runs the real ftml pipeline on the cases of an ndjson
//! file and writes one ndjson observation per case.  It judges nothing; the
//! TLA+ specifications in /verif/spec do.
//!
//! usage: ftml-harness IN.ndjson OUT.ndjson JOBS TIMEOUT_MS STACK_KB

mod history;
mod obs;

use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Milliseconds this thread has been running on a processor.
fn cpu() -> u64 {
    std::fs::read_to_string("/proc/thread-self/schedstat")
        .ok()
        .and_then(|s| s.split(' ').next().and_then(|n| n.parse::<u64>().ok()))
        .unwrap_or(0)
        / 1_000_000
}

fn run_case(case: &Value) -> Value {
    let id = case["id"].clone();
    let stages: Arc<Mutex<Vec<String>>> = Arc::default();
    let st2 = Arc::clone(&stages);
    let started = Instant::now();
    let cpu_started = cpu();
    let result = catch_unwind(AssertUnwindSafe(|| obs::observe(case, &st2)));
    let ms = started.elapsed().as_millis() as u64;
    let cpu = cpu().saturating_sub(cpu_started);
    let stages = match stages.lock() {
        Ok(s) => s.clone(),
        Err(p) => p.into_inner().clone(),
    };
    match result {
        Ok(mut v) => {
            v["id"] = id;
            v["outcome"] = json!("ok");
            v["ms"] = json!(ms);
            v["cpu"] = json!(cpu);
            v["stages"] = json!(stages);
            v
        }
        Err(_) => {
            let msg = LAST_PANIC.with(|m| m.borrow().clone());
            let stage = stages.last().cloned().unwrap_or_default();
            json!({"id": id, "outcome": "panic", "stage": stage, "stages": stages, "message": msg, "ms": ms, "cpu": cpu})
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = File::open(&args[1]).expect("input file");
    let out = Arc::new(Mutex::new(BufWriter::new(File::create(&args[2]).expect("output file"))));
    let jobs: usize = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(8);
    let timeout = Duration::from_millis(args.get(4).and_then(|s| s.parse().ok()).unwrap_or(10_000));
    let stack = args.get(5).and_then(|s| s.parse::<usize>().ok()).unwrap_or(8192) * 1024;

    std::panic::set_hook(Box::new(|info| {
        let text = format!("{info}");
        LAST_PANIC.with(|m| *m.borrow_mut() = text);
    }));

    let lines: Vec<String> = BufReader::new(input)
        .lines()
        .map(|l| l.expect("line"))
        .filter(|l| !l.trim().is_empty())
        .collect();
    let lines = Arc::new(lines);
    let next = Arc::new(AtomicUsize::new(0));
    let late = Arc::new(AtomicUsize::new(0));
    let progress = std::env::var("HARNESS_PROGRESS").ok();
    let progress = Arc::new(Mutex::new(progress.map(|p| File::create(p).expect("progress file"))));

    let mut managers = Vec::new();
    for _ in 0..jobs {
        let lines = Arc::clone(&lines);
        let next = Arc::clone(&next);
        let out = Arc::clone(&out);
        let late = Arc::clone(&late);
        let progress = Arc::clone(&progress);
        managers.push(thread::spawn(move || loop {
            // One worker thread serves cases until one of them runs out of time.
            let (case_tx, case_rx) = channel::<Value>();
            let (res_tx, res_rx) = channel::<Value>();
            thread::Builder::new()
                .stack_size(stack)
                .spawn(move || {
                    while let Ok(case) = case_rx.recv() {
                        let r = run_case(&case);
                        if res_tx.send(r).is_err() {
                            break;
                        }
                    }
                })
                .expect("thread");
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= lines.len() {
                    return;
                }
                let case: Value = serde_json::from_str(&lines[i]).expect("case json");
                let id = case["id"].clone();
                if let Some(f) = progress.lock().unwrap().as_mut() {
                    let _ = writeln!(f, "{id}");
                    let _ = f.flush();
                }
                // Runs which never return keep their threads busy; there is a limit.
                let (value, stop) = if late.load(Ordering::SeqCst) >= 6 {
                    (json!({"id": id, "outcome": "skipped", "stage": "", "stages": [], "message": "", "ms": 0, "cpu": 0}), false)
                } else {
                    case_tx.send(case).expect("send");
                    match res_rx.recv_timeout(timeout) {
                    Ok(v) => (v, false),
                    Err(RecvTimeoutError::Timeout) => (
                        json!({"id": id, "outcome": "timeout", "stage": "unknown", "stages": [], "message": "", "ms": timeout.as_millis() as u64, "cpu": 0}),
                        late.fetch_add(1, Ordering::SeqCst) < usize::MAX,
                    ),
                    Err(RecvTimeoutError::Disconnected) => (
                        json!({"id": id, "outcome": "panic", "stage": "unknown", "stages": [], "message": "worker died", "ms": 0, "cpu": 0}),
                        true,
                    ),
                    }
                };
                {
                    let mut w = out.lock().unwrap();
                    serde_json::to_writer(&mut *w, &value).expect("write");
                    w.write_all(b"\n").expect("write");
                    w.flush().expect("flush");
                }
                if stop {
                    break;
                }
            }
        }));
    }
    for m in managers {
        let _ = m.join();
    }
    out.lock().unwrap().flush().expect("flush");
    // Abandoned (timed-out) workers must not keep the process alive.
    std::process::exit(0);
}
