//! `vh MODE IN OUT`: runs every script (one JSON object per line) of IN against the code under test and writes
//! one trace per line to OUT, in the same order.
mod broker;
mod client;
mod codec;
mod stream;
mod tls;
mod wire;

use serde_json::Value;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("vh MODE IN OUT [THREADS]");
        std::process::exit(2);
    }
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let run: fn(&Value) -> Value = match args[1].as_str() {
        "broker" => broker::run,
        "client" => client::run,
        "codec" => codec::run,
        "stream" => stream::run,
        m => {
            eprintln!("unknown mode {m}");
            std::process::exit(2);
        }
    };
    let input = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("input"));
    let scripts: Vec<Value> = input
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("script"))
        .collect();
    let threads: usize = args.get(4).and_then(|x| x.parse().ok()).unwrap_or(8);
    let limit = std::time::Duration::from_secs(std::env::var("VH_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(40));
    // the rest is skipped when scripts keep hanging, or take far too long
    let budget = std::time::Duration::from_secs(std::env::var("VH_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(240));
    let begun = std::time::Instant::now();
    let hung = AtomicUsize::new(0);
    let next = AtomicUsize::new(0);
    let out: Vec<Mutex<Option<Value>>> = scripts.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= scripts.len() {
                    return;
                }
                if hung.load(SeqCst) >= threads || begun.elapsed() > budget {
                    *out[i].lock().unwrap() = Some(serde_json::json!({"id": scripts[i]["id"], "skipped": 1}));
                    continue;
                }
                // in a thread of its own, which is given up when the code under test never returns
                let (tx, rx) = std::sync::mpsc::channel();
                let script = scripts[i].clone();
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn(move || {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&script)));
                        let _ = tx.send(r.map_err(|e| {
                            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
                        }));
                    })
                    .unwrap();
                let v = match rx.recv_timeout(limit) {
                    Ok(Ok(v)) => v,
                    Ok(Err(m)) => serde_json::json!({"id": scripts[i]["id"], "failed": format!("panic: {m}")}),
                    Err(_) => {
                        hung.fetch_add(1, SeqCst);
                        serde_json::json!({"id": scripts[i]["id"], "failed": "no end"})
                    }
                };
                *out[i].lock().unwrap() = Some(v);
            });
        }
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(&args[3]).expect("output"));
    for o in out {
        serde_json::to_writer(&mut f, &o.lock().unwrap().take().unwrap()).unwrap();
        f.write_all(b"\n").unwrap();
    }
    f.flush().unwrap();
    drop(f);
    // leftover runtime threads do not matter
    std::process::exit(0);
}
