//! Runs scripts against the real broker over loopback sockets and records what happened.
//!
//! A script is a list of rounds, a round a list of operations of clients. The recorded trace has,
//! for each round, the packets the broker was sent and, for each client, what it received until
//! the broker had nothing more to do. There is no oracle here.
//!
//! The default mode runs broker and clients on one thread with a stopped clock. In `mt` mode the
//! broker has its own threads and the clock runs.
use crate::tls::{self, Rd, Wr};
use crate::wire;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::Waker;
use std::time::Duration;
use tokio::io::AsyncReadExt;
use tokio::net::TcpStream;
use vaux_broker::{Broker, Config};

#[derive(Default)]
pub struct Park {
    count: AtomicU64,
    waker: Mutex<Option<Waker>>,
}
impl Park {
    pub fn parked(&self) {
        self.count.fetch_add(1, SeqCst);
        if let Some(w) = self.waker.lock().unwrap().take() {
            w.wake();
        }
    }
    /// Returns when the runtime has run out of work `n` times.
    pub async fn settle(&self, n: usize) {
        for _ in 0..n {
            let start = self.count.load(SeqCst);
            std::future::poll_fn(|cx| {
                if self.count.load(SeqCst) > start {
                    return std::task::Poll::Ready(());
                }
                *self.waker.lock().unwrap() = Some(cx.waker().clone());
                std::task::Poll::Pending
            })
            .await;
        }
    }
}

/// A current thread runtime with a stopped clock that only advances on request.
pub fn paused_runtime() -> (tokio::runtime::Runtime, Arc<Park>) {
    let park = Arc::new(Park::default());
    let p = park.clone();
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .on_thread_park(move || p.parked())
        .build()
        .unwrap();
    (rt, park)
}

static NEXT: AtomicUsize = AtomicUsize::new(0);
/// A loopback address nobody else uses.
pub fn fresh_addr() -> SocketAddr {
    let n = NEXT.fetch_add(1, SeqCst);
    let pid = std::process::id() as usize;
    let a = 1 + (pid / 40) % 250;
    let port = 20000 + (pid % 40) * 250;
    SocketAddr::from(([127, a as u8, (1 + n / 250 % 250) as u8, (1 + n % 250) as u8], (port + n / 62500) as u16))
}

#[derive(Default)]
struct Inbox {
    buf: Vec<u8>,
    packets: Vec<Value>,
    eof: bool,
}
struct Conn {
    fd: i32,
    wr: Option<Wr>,
    inbox: Arc<Mutex<Inbox>>,
    stalled: Arc<AtomicBool>,
    resume: Arc<tokio::sync::Notify>,
    reader: Option<tokio::task::JoinHandle<()>>,
    sent: Vec<u8>,       // bytes sent that are not a complete frame yet
    broken: bool,        // sent something malformed
    taken: usize,        // packets already reported
    eof_reported: bool,
    fin: bool,
    dropped: bool,
    connected: bool,     // sent CONNECT
    closing: bool,       // sent something after which the broker closes
    noping: bool,
    slow: bool,          // has been stalled
    lost: bool,          // the broker does not take the connection
    unacked: Vec<i64>,
    aci: String,
}
impl Conn {
    fn new() -> Self {
        Conn {
            fd: -1, wr: None, inbox: Default::default(), stalled: Default::default(), resume: Default::default(), reader: None,
            sent: vec![], broken: false, taken: 0, eof_reported: false, fin: false, dropped: false, connected: false,
            closing: false, noping: false, slow: false, lost: false, unacked: vec![], aci: String::new(),
        }
    }
    fn open(&self) -> bool {
        self.wr.is_some() && !self.dropped && !self.inbox.lock().unwrap().eof
    }
}

async fn reader(mut rd: Rd, inbox: Arc<Mutex<Inbox>>, stalled: Arc<AtomicBool>, resume: Arc<tokio::sync::Notify>) {
    let mut chunk = vec![0u8; 65536];
    loop {
        while stalled.load(SeqCst) {
            resume.notified().await;
        }
        match rd.read(&mut chunk).await {
            Ok(0) | Err(_) => {
                inbox.lock().unwrap().eof = true;
                return;
            }
            Ok(n) => {
                let mut i = inbox.lock().unwrap();
                i.buf.extend(&chunk[..n]);
                loop {
                    match wire::frame(&i.buf) {
                        None => break,
                        Some(Ok(n)) => {
                            let f: Vec<u8> = i.buf.drain(..n).collect();
                            i.packets.push(wire::decode(&f));
                        }
                        Some(Err(_)) => {
                            let b = std::mem::take(&mut i.buf);
                            i.packets.push(json!({"t": "GARBAGE", "hex": wire::hex(&b)}));
                        }
                    }
                }
            }
        }
    }
}

pub fn quickack(fd: i32) {
    let one: i32 = 1;
    unsafe {
        libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const i32 as *const libc::c_void, 4);
    }
}

struct Driver {
    addr: SocketAddr,
    conns: Vec<Conn>,
    park: Option<Arc<Park>>,
    start: tokio::time::Instant,
    chunk: usize,
    tls: bool,
    lost: bool,
    nobodies: Vec<std::net::TcpStream>,
}

impl Driver {
    fn paused(&self) -> bool {
        self.park.is_some()
    }
    /// Acknowledges received segments at once, so that Nagle's algorithm does not hold anything back.
    fn quickack(&self) {
        for c in &self.conns {
            if c.wr.is_some() && !c.stalled.load(SeqCst) {
                quickack(c.fd);
            }
        }
    }
    async fn settle(&self) {
        match &self.park {
            Some(p) => {
                p.settle(3).await;
                self.quickack();
                p.settle(3).await;
            }
            None => tokio::time::sleep(Duration::from_millis(1)).await,
        }
    }
    fn step_of(ms: u64) -> u64 {
        (ms / 500).max(100)
    }
    /// Lets the time pass in steps, larger ones when it is long.
    async fn advance(&self, mut ms: u64) {
        let most = Driver::step_of(ms);
        while ms > 0 {
            let step = ms.min(most);
            if self.paused() {
                tokio::time::advance(Duration::from_millis(step)).await;
                self.settle().await;
            } else {
                tokio::time::sleep(Duration::from_millis(step)).await;
            }
            ms -= step;
        }
    }
    fn now(&self) -> u64 {
        (tokio::time::Instant::now() - self.start).as_millis() as u64
    }
    async fn connect_tcp(&mut self, c: usize) {
        let addr = self.addr;
        if self.conns[c].wr.is_some() || self.conns[c].lost {
            return;
        }
        let mut tries = 0;
        let s = loop {
            match TcpStream::connect(addr).await {
                Ok(s) => break s,
                Err(e) => {
                    tries += 1;
                    if tries > 200 {
                        panic!("cannot connect: {e}");
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
        };
        s.set_nodelay(true).unwrap();
        let fd = std::os::fd::AsRawFd::as_raw_fd(&s);
        let (rd, wr) = if self.tls {
            let mut hands = Box::pin(tokio_rustls::TlsConnector::from(tls::client()).connect(tls::name(), s));
            let mut turns = 0;
            let s = loop {
                tokio::select! {
                    biased;
                    r = &mut hands => break r.ok(),
                    _ = self.settle() => quickack(fd),
                }
                turns += 1;
                if turns > 20 {
                    std::thread::sleep(Duration::from_micros(200));
                }
                if turns > if self.lost { 200 } else { 8000 } {
                    break None;
                }
            };
            let Some(s) = s else {
                // what is sent is recorded, and has no answer
                self.lost = true;
                self.conns[c].lost = true;
                return;
            };
            tls::halves(s.into())
        } else {
            tls::plain(s)
        };
        let conn = &mut self.conns[c];
        conn.fd = fd;
        conn.wr = Some(wr);
        conn.reader = Some(tokio::spawn(reader(rd, conn.inbox.clone(), conn.stalled.clone(), conn.resume.clone())));
    }
    /// A connection that sends something incomplete, in plain whether the broker uses TLS or not, and stays or goes.
    fn nobody(&mut self, bytes: &[u8], stay: bool) {
        use std::io::Write;
        if let Ok(mut s) = std::net::TcpStream::connect(self.addr) {
            let _ = s.write_all(bytes);
            if stay {
                self.nobodies.push(s);
            }
        }
    }
    async fn write(&mut self, c: usize, bytes: &[u8]) {
        let mut b = bytes;
        let mut spins = 0;
        let step = if self.chunk > 0 { self.chunk } else { usize::MAX };
        while !b.is_empty() {
            let n = b.len().min(step);
            let r = match &mut self.conns[c].wr {
                Some(w) => w.try_write(&b[..n]).await,
                None => return,
            };
            if let (Ok(_), Some(w)) = (&r, &mut self.conns[c].wr) {
                let _ = w.flush().await;
            }
            match r {
                Ok(n) => {
                    b = &b[n..];
                    if self.chunk > 0 && !b.is_empty() {
                        self.settle().await;
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    spins += 1;
                    if spins > 3000 {
                        return;
                    }
                    self.settle().await;
                    if spins > 20 {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
                Err(_) => return,
            }
        }
        for _ in 0..3000 {
            match self.conns[c].wr.as_mut().unwrap().flush().await {
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => self.settle().await,
                _ => return,
            }
        }
    }
    /// Sends bytes and returns the packets they complete.
    async fn send(&mut self, c: usize, bytes: &[u8]) -> Vec<Value> {
        self.connect_tcp(c).await;
        self.write(c, bytes).await;
        let conn = &mut self.conns[c];
        let mut out = Vec::new();
        if conn.broken {
            return out;
        }
        conn.sent.extend(bytes);
        loop {
            let p = match wire::frame(&conn.sent) {
                None => break,
                Some(Ok(n)) => {
                    let f: Vec<u8> = conn.sent.drain(..n).collect();
                    wire::decode(&f)
                }
                Some(Err(_)) => json!({"t": "GARBAGE"}),
            };
            let t = wire::st(&p, "t").to_string();
            if t == "CONNECT" {
                conn.connected = true;
            }
            if t == "DISCONNECT" {
                conn.closing = true;
            }
            let garbage = t == "GARBAGE";
            out.push(if garbage { json!({"t": "GARBAGE"}) } else { p });
            if garbage {
                conn.broken = true;
                conn.closing = true;
                break;
            }
        }
        out
    }
    fn pongs(&self, c: usize) -> usize {
        self.conns[c].inbox.lock().unwrap().packets.iter().filter(|p| p["t"] == "PINGRESP").count()
    }
    /// Waits until the broker has answered everything and nothing is left to do. Returns the
    /// barrier pings that were answered, per connection.
    async fn barrier(&mut self) -> (Vec<usize>, Vec<usize>) {
        let n = self.conns.len();
        let mut answered = vec![0; n];
        let mut asked = vec![0; n];
        let ping = wire::encode(&json!({"t": "PINGREQ"}));
        for phase in 0..2 {
            let mut want = vec![None; n];
            self.settle().await;
            for c in 0..n {
                let conn = &self.conns[c];
                if !conn.open() || conn.stalled.load(SeqCst) {
                    continue;
                }
                if conn.fin || conn.closing {
                    want[c] = Some(usize::MAX); // the end of the stream
                } else if conn.connected && !conn.noping && conn.sent.is_empty() {
                    want[c] = Some(self.pongs(c) + 1);
                    self.write(c, &ping).await;
                    asked[c] += 1;
                }
            }
            let (mut spent, mut real) = (0, 0);
            loop {
                self.settle().await;
                let mut waiting = false;
                for c in 0..n {
                    if let Some(w) = want[c] {
                        if !self.conns[c].open() {
                            want[c] = None;
                        } else if w != usize::MAX && self.pongs(c) >= w {
                            want[c] = None;
                            answered[c] += 1;
                        } else {
                            waiting = true;
                        }
                    }
                }
                if !waiting {
                    break;
                }
                if self.paused() {
                    // first give the kernel time, then the clock
                    real += 1;
                    if real <= 3 {
                        std::thread::sleep(Duration::from_micros(300));
                    } else if spent < 1500 {
                        spent += 100;
                        self.advance(100).await;
                    } else if real < 60 {
                        std::thread::sleep(Duration::from_millis(5));
                    } else {
                        break;
                    }
                } else {
                    real += 1;
                    self.quickack();
                    tokio::time::sleep(Duration::from_millis(1)).await;
                    if real > 3000 {
                        break;
                    }
                }
            }
            if phase == 0 && self.conns.iter().any(|c| c.noping && c.open()) {
                // one that did not read has a lot to take
                let need = if self.conns.iter().any(|c| c.noping && c.slow) { 60 } else { 3 };
                let (mut same, mut last) = (0, 0);
                while same < need {
                    std::thread::sleep(Duration::from_millis(2));
                    self.settle().await;
                    let now = self.conns.iter().filter(|c| c.slow).map(|c| { let i = c.inbox.lock().unwrap(); i.buf.len() + i.packets.len() }).sum();
                    same = if now == last { same + 1 } else { 0 };
                    last = now;
                }
            }
        }
        self.settle().await;
        (asked, answered)
    }

    async fn round(&mut self, round: &Value) -> Value {
        let t0 = self.now();
        let mut rec: Vec<Value> = Vec::new();
        let ops = round["ops"].as_array().cloned().unwrap_or_default();
        let (mut adv, mut late) = (0, 100);
        for op in &ops {
            if let Some(ms) = op["adv"].as_u64() {
                late = late.max(Driver::step_of(ms));
                self.advance(ms).await;
                adv += ms;
                continue;
            }
            if op["settle"].is_i64() {
                self.settle().await;
                continue;
            }
            if let Some(h) = op["nobody"].as_str() {
                self.nobody(&wire::unhex(h), op["stay"] == 1);
                self.settle().await;
                continue;
            }
            let c = op["c"].as_u64().unwrap_or(0) as usize;
            if c == 0 || c > self.conns.len() {
                continue;
            }
            let c = c - 1;
            if self.conns[c].dropped {
                continue;
            }
            if op["noping"].is_i64() {
                self.conns[c].noping = op["noping"] == 1;
            }
            if op["stall"].is_i64() {
                let on = op["stall"] == 1;
                self.connect_tcp(c).await;
                self.conns[c].stalled.store(on, SeqCst);
                self.conns[c].slow = true;
                self.conns[c].resume.notify_one();
                rec.push(json!({"c": c + 1, "p": {"t": if on { "STALL" } else { "UNSTALL" }}}));
            }
            let mut packets = Vec::new();
            if op["open"].is_i64() {
                self.connect_tcp(c).await;
            }
            if op["p"].is_object() {
                let mut p = op["p"].clone();
                if let Some(k) = op["as"].as_u64() {
                    p["cid"] = json!(self.conns[k as usize - 1].aci);
                }
                packets = self.send(c, &wire::encode(&p)).await;
            } else if let Some(h) = op["raw"].as_str() {
                packets = self.send(c, &wire::unhex(h)).await;
            } else if let Some(k) = op["ack"].as_u64() {
                let conn = &mut self.conns[c];
                if !conn.unacked.is_empty() {
                    let k = (k as usize) % conn.unacked.len();
                    let id = conn.unacked.remove(k);
                    packets = self.send(c, &wire::encode(&json!({"t": "PUBACK", "id": id, "rc": wire::int(&op, "rc", 0), "props": op["props"]}))).await;
                }
            } else if op["ackall"].is_i64() {
                for id in std::mem::take(&mut self.conns[c].unacked) {
                    packets.extend(self.send(c, &wire::encode(&json!({"t": "PUBACK", "id": id, "rc": wire::int(&op, "rc", 0), "props": op["props"]}))).await);
                }
            } else if op["fin"].is_i64() {
                self.connect_tcp(c).await;
                if let Some(w) = &mut self.conns[c].wr {
                    let _ = w.shutdown().await;
                }
                self.conns[c].fin = true;
                packets.push(json!({"t": "FIN"}));
            } else if op["drop"].is_i64() {
                let conn = &mut self.conns[c];
                if conn.wr.is_some() {
                    if let Some(r) = conn.reader.take() {
                        r.abort();
                        self.settle().await;
                    }
                    let conn = &mut self.conns[c];
                    conn.wr = None;
                    conn.dropped = true;
                    packets.push(json!({"t": "DROP"}));
                }
            }
            for p in packets {
                rec.push(json!({"c": c + 1, "p": p}));
            }
            if op["gap"].is_i64() {
                self.settle().await;
            }
        }
        let noadv = round["noadv"] == 1;
        self.settle().await;
        let tb = self.now();
        let (asked, answered) = if noadv {
            // only what the broker does without time passing; the rest belongs to a later round
            for _ in 0..3 {
                std::thread::sleep(Duration::from_micros(500));
                self.settle().await;
            }
            (vec![0; self.conns.len()], vec![0; self.conns.len()])
        } else {
            self.barrier().await
        };
        let _ = adv;
        let t1 = self.now();
        let mut outs = Vec::new();
        let mut eofs = Vec::new();
        let mut part = Vec::new();
        for c in 0..self.conns.len() {
            let conn = &mut self.conns[c];
            let inbox = conn.inbox.lock().unwrap();
            let mut new: Vec<Value> = inbox.packets[conn.taken..].to_vec();
            conn.taken = inbox.packets.len();
            // the barrier's own pings
            for _ in 0..answered[c] {
                if let Some(i) = new.iter().rposition(|p| p["t"] == "PINGRESP") {
                    new.remove(i);
                }
            }
            for _ in answered[c]..asked[c] {
                rec.push(json!({"c": c + 1, "p": {"t": "PINGREQ"}}));
            }
            for p in &new {
                if p["t"] == "PUBLISH" && wire::int(p, "qos", 0) == 1 {
                    let id = wire::int(p, "id", 0);
                    if !conn.unacked.contains(&id) {
                        conn.unacked.push(id);
                    }
                }
                if p["t"] == "CONNACK" && !wire::st(p, "aci").is_empty() {
                    conn.aci = wire::st(p, "aci").to_string();
                }
            }
            let eof = inbox.eof && !conn.eof_reported && !conn.dropped;
            conn.eof_reported |= eof;
            eofs.push(json!(eof as i32));
            part.push(json!((eof && !inbox.buf.is_empty()) as i32));
            outs.push(Value::Array(new));
        }
        let mut m = Map::new();
        m.insert("ops".into(), Value::Array(rec));
        m.insert("out".into(), Value::Array(outs));
        m.insert("eof".into(), Value::Array(eofs));
        m.insert("part".into(), Value::Array(part));
        m.insert("t0".into(), json!(t0));
        m.insert("t1".into(), json!(t1));
        m.insert("tb".into(), json!(tb));
        m.insert("late".into(), json!(late));
        m.insert("ping".into(), json!(answered.iter().map(|a| (*a > 0) as i32).collect::<Vec<_>>()));
        m.insert("seq".into(), json!(round["seq"].as_i64().unwrap_or(0)));
        m.insert("open".into(), json!(noadv as i32));
        Value::Object(m)
    }

    /// Sends `n` QoS 1 messages in windows of `w`, each acknowledged before the next window, and
    /// records the packet ids as ranges.
    async fn bulk(&mut self, b: &Value) -> Value {
        let p = b["pub"].as_u64().unwrap() as usize - 1;
        let s = b["sub"].as_u64().unwrap() as usize - 1;
        let (n, w) = (b["n"].as_u64().unwrap() as usize, b["w"].as_u64().unwrap() as usize);
        let t0 = self.now();
        let mut ids: Vec<i64> = Vec::new();
        let mut acks: Vec<i64> = Vec::new();
        let mut others = 0;
        let mut sent = 0;
        while sent < n {
            let k = w.min(n - sent);
            let mut bytes = Vec::new();
            for i in 0..k {
                bytes.extend(wire::encode(&json!({"t": "PUBLISH", "topic": b["topic"], "qos": 1, "id": (sent + i) % 60000 + 1, "pl": "b"})));
            }
            self.write(p, &bytes).await;
            let mut got = 0;
            let mut spins = 0;
            while got < k && spins < 5000 {
                self.settle().await;
                let conn = &mut self.conns[s];
                let mut inbox = conn.inbox.lock().unwrap();
                let mut ack = Vec::new();
                for q in inbox.packets.drain(conn.taken..) {
                    if q["t"] == "PUBLISH" && q["pl"] == "b" && wire::int(&q, "qos", 0) == 1 {
                        got += 1;
                        ids.push(wire::int(&q, "id", 0));
                        ack.extend(wire::encode(&json!({"t": "PUBACK", "id": wire::int(&q, "id", 0)})));
                    } else {
                        others += 1;
                    }
                }
                let eof = inbox.eof;
                drop(inbox);
                self.write(s, &ack).await;
                if eof {
                    spins = 5000;
                }
                if got < k {
                    spins += 1;
                    if spins > 20 {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
            }
            self.settle().await;
            let conn = &mut self.conns[p];
            let mut inbox = conn.inbox.lock().unwrap();
            for q in inbox.packets.drain(conn.taken..) {
                if q["t"] == "PUBACK" {
                    acks.push(wire::int(&q, "id", 0));
                } else {
                    others += 1;
                }
            }
            sent += k;
            if got < k {
                break;
            }
        }
        // ranges of consecutive ids
        let ranges = |v: &[i64]| {
            let mut r: Vec<Value> = Vec::new();
            let mut i = 0;
            while i < v.len() {
                let mut j = i;
                while j + 1 < v.len() && v[j + 1] == v[j] + 1 {
                    j += 1;
                }
                r.push(json!([v[i], v[j]]));
                i = j + 1;
            }
            r
        };
        json!({"bulk": {"pub": p + 1, "sub": s + 1, "n": n, "w": w, "got": ids.len(), "ids": ranges(&ids), "acks": acks.len(), "others": others},
               "ops": [], "out": vec![json!([]); self.conns.len()], "eof": vec![0; self.conns.len()],
               "part": vec![0; self.conns.len()], "ping": vec![0; self.conns.len()], "t0": t0, "tb": self.now(), "t1": self.now(), "seq": 1, "open": 0})
    }
}

fn config(cfg: &Value, addr: SocketAddr) -> Config {
    let mut c = Config::new(addr);
    c.session_channel_size = wire::int(cfg, "chan", 100) as usize;
    c.default_keep_alive = Duration::from_secs(wire::int(cfg, "minka", 20) as u64);
    c.max_keep_alive = Duration::from_secs(wire::int(cfg, "maxka", 1000) as u64);
    // -2: more than a CONNECT can ask for
    c.session_expiry = Duration::from_secs(match wire::int(cfg, "maxexp", 600) { -2 => (1 << 32) + 299, x => x as u64 });
    let m = wire::int(cfg, "maxact", -1);
    if wire::int(cfg, "tls", 0) == 1 {
        c.tls_acceptor = Some(tokio_rustls::TlsAcceptor::from(tls::server()));
    }
    c.max_active_sessions = if m >= 0 { Some(m as u32) } else { None };
    c
}

async fn start(cfg: &Value) -> (Broker, SocketAddr) {
    for _ in 0..50 {
        let addr = fresh_addr();
        let mut broker = Broker::new_with_config(config(cfg, addr));
        if broker.run().await.is_ok() {
            return (broker, addr);
        }
    }
    panic!("no free address");
}

async fn drive(script: &Value, mut broker: Option<Broker>, addr: SocketAddr, park: Option<Arc<Park>>) -> Value {
    let n = script["n"].as_u64().unwrap() as usize;
    let mut d = Driver {
        addr,
        conns: (0..n).map(|_| Conn::new()).collect(),
        park,
        start: tokio::time::Instant::now(),
        chunk: wire::int(script, "chunk", 0) as usize,
        tls: wire::int(&script["cfg"], "tls", 0) == 1,
        lost: false,
        nobodies: vec![],
    };
    let mut rounds = Vec::new();
    let mut maxexp = wire::int(&script["cfg"], "maxexp", 600);
    for r in script["rounds"].as_array().unwrap() {
        if r["setexp"].is_i64() {
            maxexp = r["setexp"].as_i64().unwrap();
            if let Some(b) = &mut broker {
                b.set_session_expiration(Duration::from_secs(r["setexp"].as_u64().unwrap())).await;
            }
        }
        let mut rec = if r["bulk"].is_object() { d.bulk(&r["bulk"]).await } else { d.round(r).await };
        rec["maxexp"] = json!(maxexp);
        rounds.push(rec);
    }
    json!({"id": script["id"], "cfg": full_cfg(&script["cfg"]), "n": n, "rounds": rounds})
}
fn full_cfg(cfg: &Value) -> Value {
    json!({"chan": wire::int(cfg, "chan", 100), "minka": wire::int(cfg, "minka", 20), "maxka": wire::int(cfg, "maxka", 1000),
           "maxexp": wire::int(cfg, "maxexp", 600), "maxact": wire::int(cfg, "maxact", -1), "tls": wire::int(cfg, "tls", 0)})
}

fn run_paused(script: &Value) -> Value {
    let (rt, park) = paused_runtime();
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let script = script.clone();
    let v = rt.block_on(async move {
        // keeps the stopped clock from advancing by itself
        let hold = tokio::task::spawn_blocking(move || {
            let _ = rx.recv();
        });
        let (broker, addr) = start(&script["cfg"]).await;
        let v = drive(&script, Some(broker), addr, Some(park)).await;
        drop(tx);
        let _ = hold.await;
        v
    });
    rt.shutdown_background();
    v
}

// ------------------------------------------------------------------ bursts on several threads
/// All clients connect and subscribe one after the other, then all of them send their burst at the same
/// time. The record has one round for each phase.
fn run_mt(script: &Value) -> Value {
    let threads = wire::int(script, "mt", 4) as usize;
    let brt = tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().unwrap();
    let (broker, addr) = brt.block_on(start(&script["cfg"]));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let script = script.clone();
    let v = rt.block_on(async move {
        let n = script["n"].as_u64().unwrap() as usize;
        let mut d = Driver {
            addr,
            conns: (0..n).map(|_| Conn::new()).collect(),
            park: None,
            start: tokio::time::Instant::now(),
            chunk: 0,
            tls: wire::int(&script["cfg"], "tls", 0) == 1,
            lost: false,
            nobodies: vec![],
        };
        let mut rounds = Vec::new();
        for r in script["rounds"].as_array().unwrap() {
            if r["burst"] != 1 {
                rounds.push(d.round(r).await);
                continue;
            }
            rounds.push(burst(&mut d, r).await);
        }
        let maxexp = wire::int(&script["cfg"], "maxexp", 600);
        for r in &mut rounds {
            r["maxexp"] = json!(maxexp);
        }
        json!({"id": script["id"], "cfg": full_cfg(&script["cfg"]), "n": n, "rounds": rounds})
    });
    rt.shutdown_timeout(Duration::from_millis(200));
    drop(broker);
    brt.shutdown_timeout(Duration::from_millis(200));
    v
}

async fn burst(d: &mut Driver, r: &Value) -> Value {
    let t0 = d.now();
    let n = d.conns.len();
    let mut per: HashMap<usize, Vec<Vec<u8>>> = HashMap::new();
    let mut late = vec![0; n]; // microseconds that a client starts after the others
    let mut rec = Vec::new();
    for op in r["ops"].as_array().unwrap() {
        let c = op["c"].as_u64().unwrap() as usize - 1;
        let b = wire::encode(&op["p"]);
        rec.push(json!({"c": c + 1, "p": wire::decode(&b)}));
        per.entry(c).or_default().push(b);
        late[c] += wire::int(op, "us", 0) as u64;
    }
    let go = Arc::new(tokio::sync::Barrier::new(per.len()));
    let chunk = wire::int(r, "group", 1) as usize;
    let mut tasks = Vec::new();
    for (c, packets) in per {
        d.connect_tcp(c).await;
        let Some(w) = d.conns[c].wr.take() else { continue };
        d.conns[c].connected = true;
        let go = go.clone();
        let late = Duration::from_micros(late[c]);
        tasks.push((c, tokio::spawn(async move {
            let mut w = w;
            go.wait().await;
            let t = std::time::Instant::now();
            while t.elapsed() < late {
                std::hint::spin_loop();
            }
            for g in packets.chunks(chunk) {
                let b: Vec<u8> = g.concat();
                let _ = w.write_all(&b).await;
                tokio::task::yield_now().await;
            }
            w
        })));
    }
    for (c, t) in tasks {
        d.conns[c].wr = Some(t.await.unwrap());
    }
    let (asked, answered) = d.barrier().await;
    // nothing may arrive any more
    let count = |d: &Driver| d.conns.iter().map(|c| { let i = c.inbox.lock().unwrap(); i.packets.len() + i.buf.len() + i.eof as usize }).sum::<usize>();
    let (mut last, mut quiet) = (count(d), 0);
    while quiet < 60 {
        d.quickack();
        tokio::time::sleep(Duration::from_millis(1)).await;
        let now = count(d);
        if now == last { quiet += 1 } else { quiet = 0 }
        last = now;
    }
    let mut outs = Vec::new();
    let mut eofs = Vec::new();
    for c in 0..n {
        let conn = &mut d.conns[c];
        let inbox = conn.inbox.lock().unwrap();
        let mut new: Vec<Value> = inbox.packets[conn.taken..].to_vec();
        conn.taken = inbox.packets.len();
        for _ in 0..answered[c] {
            if let Some(i) = new.iter().rposition(|p| p["t"] == "PINGRESP") {
                new.remove(i);
            }
        }
        for _ in answered[c]..asked[c] {
            rec.push(json!({"c": c + 1, "p": {"t": "PINGREQ"}}));
        }
        for p in &new {
            if p["t"] == "PUBLISH" && wire::int(p, "qos", 0) == 1 {
                conn.unacked.push(wire::int(p, "id", 0));
            }
        }
        let eof = inbox.eof && !conn.eof_reported;
        conn.eof_reported |= eof;
        eofs.push(json!(eof as i32));
        outs.push(Value::Array(new));
    }
    json!({"ops": rec, "out": outs, "eof": eofs, "part": vec![0; n], "t0": t0, "tb": d.now(), "t1": d.now(), "ping": vec![1; n], "seq": wire::int(r, "seq", 1), "open": 0})
}

pub fn run(script: &Value) -> Value {
    if script["mt"].is_i64() {
        run_mt(script)
    } else {
        run_paused(script)
    }
}
