//! Runs scripts against the real client, which talks to a scripted broker over a loopback socket, and records
//! what happened.
//!
//! A script is a list of rounds. A round may start a client; then come operations of the broker and of the
//! application. The record of a round has what the broker sent (`bin`), what the application handed over
//! (`ain`), what the broker received (`out`), what each consumer of the application got (`got`), and what the
//! client reports about itself. There is no oracle here. The clock is stopped and advances on request.
use crate::broker::{fresh_addr, paused_runtime, quickack, Park};
use crate::tls::{self, Rd, Wr};
use crate::wire;
use bytes::BytesMut;
use serde_json::{json, Value};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::AsyncReadExt;
use tokio::net::TcpListener;
use tokio::sync::mpsc::{self, error::TrySendError, Receiver, Sender};
use tokio::task::JoinHandle;
use tokio::time::Instant;
use vaux_client::client::ClientError;
use vaux_client::session::SessionState;
use vaux_client::{ClientBuilder, MqttClient, MqttConnection};
use vaux_mqtt::codec::Encode;
use vaux_mqtt::{Packet, PacketType, QoSLevel, WillMessage};

const K: usize = 3; // consumers: the default one and two for packet types

#[derive(Default)]
struct Inbox {
    buf: Vec<u8>,
    packets: Vec<(Value, u64)>,
    eof: bool,
}

/// The packet the application builds: from the bytes on the wire.
fn to_packet(p: &Value) -> Packet {
    let mut q = p.clone();
    let id = wire::int(p, "id", -1);
    q["id"] = json!(id.max(0));
    if wire::int(p, "qos", 0) > 0 && id <= 0 && wire::st(p, "t") == "PUBLISH" {
        q["id"] = json!(1);
    }
    let bytes = wire::encode(&q);
    let mut b = BytesMut::from(&bytes[..]);
    let mut packet = vaux_mqtt::codec::decode(&mut b).expect("app packet").expect("app packet").0;
    if let Packet::Publish(ref mut x) = packet {
        if x.qos() != QoSLevel::AtMostOnce {
            let _ = x.set_packet_id(if id < 0 { None } else { Some(id as u16) });
        }
    }
    packet
}
/// What the application was handed, in the form of the records.
fn from_packet(p: &Packet) -> Value {
    let mut b = BytesMut::new();
    match p.encode(&mut b) {
        Ok(()) => {
            let mut v = plain(wire::decode(&b));
            if v["t"] == "UNSUBACK" {
                // its reason string can not be absent
                if let Some(a) = v["props"].as_array_mut() {
                    a.retain(|x| x != "rs=");
                }
            }
            v
        }
        Err(e) => json!({"t": "UNENCODABLE", "why": format!("{e}")}),
    }
}
/// An acknowledgement with the reason code and the properties a script asks for, as far as its kind has them.
fn coded(p: &mut Value, op: &Value) {
    let rc = wire::int(op, "rc", -1);
    match wire::st(p, "t") {
        "PUBREC" | "PUBACK" if rc >= 0 => p["rc"] = json!(rc),
        "PUBREL" | "PUBCOMP" if rc >= 0 => p["rc"] = json!(if rc >= 128 { 146 } else { 0 }),
        "PUBREC" | "PUBACK" | "PUBREL" | "PUBCOMP" => {}
        t @ ("SUBACK" | "UNSUBACK") if rc >= 0 => {
            let rc = match (rc, t) {
                (16, "SUBACK") => 2,
                (16, _) => 17,
                (151, "UNSUBACK") => 145,
                _ => rc,
            };
            for c in p["rcs"].as_array_mut().unwrap() {
                *c = json!(rc);
            }
        }
        "SUBACK" | "UNSUBACK" => {}
        _ => return,
    }
    if op["props"].is_array() {
        p["props"] = op["props"].clone();
    }
}

fn plain(mut v: Value) -> Value {
    if let Some(m) = v.as_object_mut() {
        m.remove("ups");
        m.remove("why");
    }
    v
}
fn ptype(t: &str) -> PacketType {
    match t {
        "PUBLISH" => PacketType::Publish,
        "PUBACK" => PacketType::PubAck,
        "PUBREC" => PacketType::PubRec,
        "PUBREL" => PacketType::PubRel,
        "PUBCOMP" => PacketType::PubComp,
        "SUBACK" => PacketType::SubAck,
        "UNSUBACK" => PacketType::UnsubAck,
        "PINGRESP" => PacketType::PingResp,
        _ => panic!("filter {t}"),
    }
}

struct Broker {
    stream: Option<Wr>,
    fd: i32,
    inbox: Arc<Mutex<Inbox>>,
    taken: usize,
    fin: bool,
    rst: bool,
    owed: Vec<Value>,          // responses that are due
    flying: Vec<Value>,        // publishes sent that are not done
    rels: Vec<i64>,            // ids of received QoS 2 publishes, PUBREL not sent
    old: Vec<Value>,           // publishes of earlier connections that were not done, with rel where the PUBREC came
    rm: usize,                 // receive maximum of the client
}

struct App {
    client: Option<MqttClient>,
    producer: Option<Sender<Packet>>,
    handle: Option<JoinHandle<Result<SessionState, ClientError>>>,
    trying: Option<JoinHandle<(MqttClient, Result<JoinHandle<Result<SessionState, ClientError>>, vaux_client::MqttError>)>>,
    rx: Vec<Option<Receiver<Packet>>>,
    tx: Vec<Option<Sender<Packet>>>,
    live: Vec<bool>,
    caps: Vec<usize>,
    got: Vec<Vec<Value>>,
    owed: Vec<Value>,
    state: Option<SessionState>,
    done: i64,
    kind: String,
    endat: u64,
    auto: bool,
}

struct Driver {
    listener: Option<Arc<TcpListener>>,
    tls: bool,
    accepting: Option<JoinHandle<(i32, Rd, Wr)>>,
    addr: std::net::SocketAddr,
    park: Arc<Park>,
    start: Instant,
    chunk: usize,
    b: Broker,
    a: App,
    last_id: i64,
}

async fn reader(mut rd: Rd, inbox: Arc<Mutex<Inbox>>, start: Instant) {
    let mut chunk = vec![0u8; 65536];
    loop {
        match rd.read(&mut chunk).await {
            Ok(0) | Err(_) => {
                inbox.lock().unwrap().eof = true;
                return;
            }
            Ok(n) => {
                let at = (Instant::now() - start).as_millis() as u64;
                let mut i = inbox.lock().unwrap();
                i.buf.extend(&chunk[..n]);
                loop {
                    match wire::frame(&i.buf) {
                        None => break,
                        Some(Ok(n)) => {
                            let f: Vec<u8> = i.buf.drain(..n).collect();
                            i.packets.push((plain(wire::decode(&f)), at));
                        }
                        Some(Err(_)) => {
                            i.buf.clear();
                            i.packets.push((json!({"t": "GARBAGE"}), at));
                        }
                    }
                }
            }
        }
    }
}

/// Turns Nagle's algorithm off on our other end of a connection, whose local address is `addr`.
fn nodelay(addr: std::net::SocketAddr) {
    let std::net::SocketAddr::V4(want) = addr else { return };
    for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
        let Some(fd) = e.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) else { continue };
        unsafe {
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            let mut len = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
            if libc::getsockname(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut len) == 0
                && a.sin_family == libc::AF_INET as u16
                && u16::from_be(a.sin_port) == want.port()
                && u32::from_be(a.sin_addr.s_addr) == u32::from(*want.ip())
            {
                let one: i32 = 1;
                libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_NODELAY, &one as *const i32 as *const libc::c_void, 4);
            }
        }
    }
}

impl Driver {
    fn now(&self) -> u64 {
        (Instant::now() - self.start).as_millis() as u64
    }
    async fn settle(&mut self) {
        self.park.settle(2).await;
        if self.b.stream.is_some() {
            quickack(self.b.fd);
        }
        self.park.settle(2).await;
        self.look().await;
    }
    /// Takes note of everything there is to see.
    async fn look(&mut self) {
        for k in 0..K {
            if self.a.live[k] {
                self.take(k, usize::MAX);
            }
        }
        if self.a.trying.as_ref().is_some_and(|h| h.is_finished()) {
            let (client, r) = self.a.trying.take().unwrap().await.unwrap();
            self.a.client = Some(client);
            match r {
                Ok(h) => self.a.handle = Some(h),
                Err(_) => {
                    self.a.done = 3;
                    self.a.endat = self.now();
                }
            }
        }
        if self.a.handle.as_ref().is_some_and(|h| h.is_finished()) {
            let h = self.a.handle.take().unwrap();
            self.a.endat = self.now();
            match h.await {
                Ok(Ok(s)) => {
                    self.a.done = 1;
                    self.a.state = Some(s);
                }
                Ok(Err(e)) => {
                    self.a.done = 2;
                    self.a.kind = format!("{:?}", e.kind());
                    self.a.state = Some(e.state);
                }
                Err(_) => self.a.done = 9, // panic
            }
            self.a.producer = None;
        }
    }
    fn take(&mut self, k: usize, n: usize) -> bool {
        let mut left = n;
        while left > 0 {
            let Some(rx) = self.a.rx[k].as_mut() else { return true };
            match rx.try_recv() {
                Ok(p) => {
                    let v = from_packet(&p);
                    let t = wire::st(&v, "t");
                    let id = &v["id"];
                    if !self.a.auto {
                        match (t, wire::int(&v, "qos", 0)) {
                            ("PUBLISH", 1) => self.a.owed.push(json!({"t": "PUBACK", "id": id})),
                            ("PUBLISH", 2) => self.a.owed.push(json!({"t": "PUBREC", "id": id})),
                            ("PUBREL", _) => self.a.owed.push(json!({"t": "PUBCOMP", "id": id})),
                            ("PUBREC", _) if wire::int(&v, "rc", 0) < 128 => self.a.owed.push(json!({"t": "PUBREL", "id": id})),
                            _ => {}
                        }
                    }
                    self.a.got[k].push(v);
                    left -= 1;
                }
                Err(_) => return false,
            }
        }
        true
    }
    fn seen(&self) -> usize {
        let i = self.b.inbox.lock().unwrap();
        i.packets.len() + i.buf.len() + i.eof as usize + self.a.got.iter().map(|g| g.len()).sum::<usize>() + (self.a.done != 0) as usize
    }
    /// Until nothing happens any more.
    async fn quiet(&mut self) {
        let (mut last, mut same, mut n) = (self.seen(), 0, 0);
        while same < 4 && n < 20000 {
            self.settle().await;
            if same == 2 {
                std::thread::sleep(Duration::from_micros(150));
            }
            let now = self.seen();
            same = if now == last { same + 1 } else { 0 };
            last = now;
            n += 1;
        }
    }
    async fn advance(&mut self, mut ms: u64) {
        while ms > 0 {
            let step = ms.min(100);
            tokio::time::advance(Duration::from_millis(step)).await;
            self.settle().await;
            ms -= step;
        }
    }
    async fn write(&mut self, bytes: &[u8]) {
        let mut b = bytes;
        let step = if self.chunk > 0 { self.chunk } else { usize::MAX };
        let mut spins = 0;
        while !b.is_empty() {
            let n = b.len().min(step);
            let Some(w) = &mut self.b.stream else { return };
            let r = w.try_write(&b[..n]).await;
            let _ = w.flush().await;
            match r {
                Ok(n) => {
                    b = &b[n..];
                    if self.chunk > 0 && !b.is_empty() {
                        self.settle().await;
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock && spins < 3000 => {
                    spins += 1;
                    self.settle().await;
                }
                Err(_) => return,
            }
        }
        for _ in 0..3000 {
            let Some(w) = &mut self.b.stream else { return };
            match w.flush().await {
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => self.settle().await,
                _ => return,
            }
        }
    }
    fn open(&self) -> bool {
        self.b.stream.is_some() && !self.b.fin && !self.b.inbox.lock().unwrap().eof
    }
    /// Updates what the broker owes by what it received.
    fn learn(&mut self) {
        let new: Vec<Value> = self.b.inbox.lock().unwrap().packets[self.b.taken..].iter().map(|x| x.0.clone()).collect();
        self.b.taken += new.len();
        for p in new {
            let id = wire::int(&p, "id", 0);
            match (wire::st(&p, "t"), wire::int(&p, "qos", 0)) {
                ("PUBLISH", 1) => self.b.owed.push(json!({"t": "PUBACK", "id": id})),
                ("PUBLISH", 2) => self.b.owed.push(json!({"t": "PUBREC", "id": id})),
                ("PUBREL", _) => self.b.owed.push(json!({"t": "PUBCOMP", "id": id})),
                ("SUBSCRIBE", _) => self.b.owed.push(json!({"t": "SUBACK", "id": id, "rcs": vec![0; p["filters"].as_array().unwrap().len()]})),
                ("UNSUBSCRIBE", _) => self.b.owed.push(json!({"t": "UNSUBACK", "id": id, "rcs": vec![0; p["filters"].as_array().unwrap().len()]})),
                ("PINGREQ", _) => self.b.owed.push(json!({"t": "PINGRESP"})),
                ("PUBACK", _) | ("PUBCOMP", _) => self.b.flying.retain(|f| wire::int(f, "id", 0) != id),
                ("PUBREC", _) => {
                    if wire::int(&p, "rc", 0) >= 128 {
                        self.b.flying.retain(|f| wire::int(f, "id", 0) != id);
                    } else if !self.b.rels.contains(&id) {
                        self.b.rels.push(id);
                    }
                }
                _ => {}
            }
        }
    }

    async fn begin(&mut self, cfg: &Value) -> Value {
        let again = wire::int(cfg, "again", 0) == 1 && self.a.client.is_some();
        let resume = again || wire::int(cfg, "resume", 0) == 1 && self.a.state.is_some();
        // the old connection is over
        self.b.stream = None;
        let old = self.a.client.take().filter(|_| again);
        self.a.handle = None;
        self.a.trying = None;
        self.a.producer = None;
        self.quiet().await;
        self.b.owed.clear();
        for mut p in std::mem::take(&mut self.b.flying) {
            let id = wire::int(&p, "id", 0);
            p["rel"] = json!(self.b.rels.contains(&id) as i32);
            self.b.old.retain(|f| wire::int(f, "id", 0) != id);
            self.b.old.push(p);
        }
        if !resume {
            self.b.old.clear();
        }
        self.b.rels.clear();
        self.b.fin = false;
        self.b.rst = false;
        self.b.taken = 0;
        self.b.inbox = Default::default();
        self.a.done = 0;
        self.a.kind.clear();
        self.a.endat = 0;
        if !resume {
            self.a.owed.clear();
        }
        let refuse = wire::int(cfg, "refuse", 0) == 1;
        let mute = wire::int(cfg, "refuse", 0) == 2 && self.tls;
        if let Some(h) = self.accepting.take() {
            h.abort();
        }
        if refuse {
            self.listener = None;
        } else if self.listener.is_none() {
            self.listener = Some(Arc::new(TcpListener::bind(self.addr).await.expect("listen")));
        }
        if let Some(mut client) = old {
            self.a.producer = Some(client.packet_producer());
            self.expect(mute);
            if mute {
                return self.unanswered(client, wire::int(cfg, "clean", 1) == 1, self.b.rm).await;
            }
            let r = client.start(wire::int(cfg, "clean", 1) == 1).await;
            return self.started(r, client, refuse, self.b.rm).await;
        }
        let mut conn = MqttConnection::new().with_host(&self.addr.ip().to_string()).with_port(self.addr.port());
        if self.tls {
            conn = conn.with_tls().with_trust_store(tls::roots());
        }
        if cfg["user"].is_string() || cfg["pass"].is_string() {
            conn = conn.with_credentials(wire::st(cfg, "user"), wire::st(cfg, "pass"));
        }
        let mut b = if resume {
            ClientBuilder::default().with_state(conn, self.a.state.take().unwrap())
        } else {
            self.a.state = None;
            ClientBuilder::new(conn)
        };
        if cfg["cid"].is_string() {
            b = b.with_client_id(wire::st(cfg, "cid"));
        }
        if cfg["ka"].is_i64() {
            b = b.with_keep_alive(Duration::from_millis(1000 * wire::int(cfg, "ka", 60) as u64 + wire::int(cfg, "kax", 0) as u64));
        }
        if cfg["sei"].is_i64() {
            b = b.with_session_expiry(Duration::from_secs(wire::large(wire::int(cfg, "sei", 600)) as u64));
        }
        if cfg["rm"].is_i64() {
            b = b.with_receive_max(wire::int(cfg, "rm", 65535) as u16);
        }
        for (name, on) in [("auto", 1), ("autoid", 1), ("pong", 0), ("kaon", 1)] {
            if cfg[name].is_i64() {
                let v = wire::int(cfg, name, on) == 1;
                b = match name {
                    "auto" => b.with_auto_ack(v),
                    "autoid" => b.with_auto_packet_id(v),
                    "pong" => b.with_pingresp(v),
                    _ => b.with_keep_alive_enabled(v),
                };
            }
        }
        if cfg["auto"].is_i64() || !resume {
            self.a.auto = wire::int(cfg, "auto", 1) == 1;
        }
        if cfg["mps"].is_i64() {
            b = b.with_max_packet_size(wire::int(cfg, "mps", 65536) as usize);
        }
        if cfg["mcw"].is_i64() {
            b = b.with_max_connect_wait(Duration::from_millis(wire::int(cfg, "mcw", 5000) as u64));
        }
        let chan = wire::int(cfg, "chan", 128) as usize;
        b = b.with_channel_size(chan as u16);
        if cfg["will"].is_object() {
            b = b.with_will_message(will(&cfg["will"]));
        }
        self.a.caps = vec![chan; K];
        for k in 1..K {
            self.a.rx[k] = None;
            self.a.tx[k] = None;
            let types = wire::strs(&cfg["filt"][k - 1]);
            let cap = wire::int(cfg, "fcap", 64) as usize;
            if !types.is_empty() {
                let (tx, rx) = mpsc::channel(cap);
                for t in types {
                    b = b.with_filtered_consumer(ptype(&t), tx.clone());
                }
                self.a.caps[k] = cap;
                self.a.rx[k] = Some(rx);
            }
        }
        for k in 0..K {
            self.a.live[k] = true;
            self.a.got[k].clear();
        }
        let mut client = match b.build().await {
            Ok(c) => c,
            Err(e) => return json!({"started": 0, "why": format!("{e:?}")}),
        };
        self.a.rx[0] = client.take_packet_consumer();
        self.a.producer = Some(client.packet_producer());
        let clean = wire::int(cfg, "clean", 1) == 1;
        let try_ms = wire::int(cfg, "try", 0) as u64;
        if !refuse {
            self.expect(mute);
        }
        if mute {
            let rm = wire::int(cfg, "rm", if resume { self.b.rm as i64 } else { 65535 }).max(1) as usize;
            return self.unanswered(client, clean, rm).await;
        }
        if try_ms > 0 {
            self.a.trying = Some(tokio::spawn(async move {
                let r = client.try_start(Duration::from_millis(try_ms), clean).await;
                (client, r)
            }));
        } else {
            let rm = wire::int(cfg, "rm", if resume { self.b.rm as i64 } else { 65535 }).max(1) as usize;
            let r = client.start(clean).await;
            return self.started(r, client, refuse, rm).await;
        }
        self.accepted(wire::int(cfg, "rm", if resume { self.b.rm as i64 } else { 65535 }).max(1) as usize).await
    }
    /// Takes the connection that the client is about to make; with `mute` the TLS handshake is not answered.
    fn expect(&mut self, mute: bool) {
        let Some(l) = self.listener.clone() else { return };
        let tls = self.tls;
        self.accepting = Some(tokio::spawn(async move {
            let (s, peer) = l.accept().await.expect("accept");
            s.set_nodelay(true).unwrap();
            nodelay(peer);
            if mute {
                let _open = s;
                std::future::pending::<()>().await;
                unreachable!();
            }
            let fd = s.as_raw_fd();
            let (rd, wr) = match tls {
                false => tls::plain(s),
                true => tls::halves(tokio_rustls::TlsAcceptor::from(tls::server()).accept(s).await.expect("TLS handshake").into()),
            };
            (fd, rd, wr)
        }));
    }
    /// Starts a client whose broker does not answer the TLS handshake.
    async fn unanswered(&mut self, mut client: MqttClient, clean: bool, rm: usize) -> Value {
        let task = tokio::spawn(async move {
            let r = client.start(clean).await;
            (client, r)
        });
        let mut left = 1000;
        while !task.is_finished() && left > 0 {
            self.advance(100).await;
            left -= 1;
        }
        if let Some(h) = self.accepting.take() {
            h.abort();
        }
        if !task.is_finished() {
            task.abort();
            self.a.producer = None;
            return json!({"started": 5, "why": "neither started nor failed"});
        }
        let (client, r) = task.await.unwrap();
        self.started(r, client, true, rm).await
    }
    async fn started(&mut self, r: Result<JoinHandle<Result<SessionState, ClientError>>, vaux_client::MqttError>, client: MqttClient, refuse: bool, rm: usize) -> Value {
        self.a.client = Some(client);
        match r {
            Ok(h) => self.a.handle = Some(h),
            Err(e) => {
                self.a.producer = None;
                self.b.rm = rm;
                return json!({"started": 0, "why": format!("{e:?}")});
            }
        }
        if refuse {
            return json!({"started": 2});
        }
        self.accepted(rm).await
    }
    async fn accepted(&mut self, rm: usize) -> Value {
        let Some(h) = self.accepting.take() else {
            self.quiet().await;
            return json!({"started": 0, "why": "refused"});
        };
        let (fd, rd, wr) = h.await.unwrap();
        self.b.fd = fd;
        self.b.rm = rm;
        self.b.stream = Some(wr);
        tokio::spawn(reader(rd, self.b.inbox.clone(), self.start));
        json!({"started": 1})
    }

    async fn bsend(&mut self, p: &Value, bin: &mut Vec<Value>, bsz: &mut Vec<usize>) {
        if !self.open() {
            return;
        }
        let bytes = wire::encode(p);
        self.write(&bytes).await;
        bin.push(plain(wire::decode(&bytes)));
        bsz.push(bytes.len());
    }
    async fn asend(&mut self, p: &Value, ain: &mut Vec<Value>) {
        let mut packet = to_packet(p);
        for n in 0..12 {
            let Some(tx) = &self.a.producer else { return };
            match tx.try_send(packet) {
                Ok(()) => {
                    let mut q = p.clone();
                    if wire::st(p, "t") == "PUBLISH" {
                        let id = if wire::int(p, "qos", 0) == 0 { 0 } else { wire::int(p, "id", -1) };
                        q["id"] = json!(id.max(1));
                        let mut d = plain(wire::decode(&wire::encode(&q)));
                        d["id"] = json!(id);
                        ain.push(d);
                    } else {
                        ain.push(plain(wire::decode(&wire::encode(&q))));
                    }
                    return;
                }
                Err(TrySendError::Full(p)) => {
                    packet = p;
                    if n == 11 {
                        return;
                    }
                    self.settle().await;
                }
                Err(_) => return,
            }
        }
    }

    async fn round(&mut self, r: &Value) -> Value {
        let t0 = self.now();
        let (mut bin, mut bsz, mut ain): (Vec<Value>, Vec<usize>, Vec<Value>) = (vec![], vec![], vec![]);
        let mut rec = json!({});
        let mut short = vec![0; K];
        let mut twice = 0;
        for g in &mut self.a.got {
            g.clear();
        }
        let mut seen0 = self.b.inbox.lock().unwrap().packets.len();
        if r["start"].is_object() {
            let had = self.a.state.is_some() as i32;
            rec = self.begin(&r["start"]).await;
            rec["had"] = json!(had);
            rec["start"] = r["start"].clone();
            seen0 = 0;
            self.quiet().await;
        }
        for op in r["ops"].as_array().cloned().unwrap_or_default() {
            self.learn();
            short = vec![0; K];
            if let Some(ms) = op["adv"].as_u64() {
                self.advance(ms).await;
            } else if op["gap"].is_i64() {
                self.quiet().await;
            } else if op["b"].is_object() {
                let mut p = op["b"].clone();
                let t = wire::st(&p, "t").to_string();
                if t == "PUBLISH" && wire::int(&p, "qos", 0) > 0 {
                    if self.b.flying.len() >= self.b.rm && op["over"] != 1 {
                        continue;
                    }
                    if wire::int(&p, "id", -1) < 0 {
                        loop {
                            self.last_id = self.last_id % 7 + 1 + if self.b.flying.len() > 5 { 7 * (self.b.flying.len() as i64) } else { 0 };
                            if !self.b.flying.iter().any(|f| wire::int(f, "id", 0) == self.last_id) {
                                break;
                            }
                        }
                        p["id"] = json!(self.last_id);
                    }
                    let id = wire::int(&p, "id", 0);
                    self.b.flying.retain(|f| wire::int(f, "id", 0) != id);
                    self.b.flying.push(p.clone());
                }
                self.bsend(&p, &mut bin, &mut bsz).await;
            } else if let Some(k) = op["bdup"].as_u64() {
                let c: Vec<Value> = self.b.flying.iter().filter(|f| !self.b.rels.contains(&wire::int(f, "id", 0)) || op["late"] == 1).cloned().collect();
                if !c.is_empty() {
                    let mut p = c[k as usize % c.len()].clone();
                    p["dup"] = json!(1);
                    self.bsend(&p, &mut bin, &mut bsz).await;
                }
            } else if let Some(k) = op["bearly"].as_u64() {
                // released before it was acknowledged
                let c: Vec<i64> = self.b.flying.iter().map(|f| wire::int(f, "id", 0)).filter(|id| !self.b.rels.contains(id)).collect();
                if !c.is_empty() {
                    self.bsend(&json!({"t": "PUBREL", "id": c[k as usize % c.len()]}), &mut bin, &mut bsz).await;
                }
            } else if let Some(k) = op["bold"].as_u64() {
                // sent again on another connection
                for _ in 0..wire::int(&op, "n", 1) as usize {
                    if self.b.old.is_empty() || !self.open() {
                        break;
                    }
                    let k = k as usize % self.b.old.len();
                    let mut p = self.b.old.remove(k);
                    let id = wire::int(&p, "id", 0);
                    if self.b.flying.iter().any(|f| wire::int(f, "id", 0) == id) {
                        continue;
                    }
                    let rel = p.as_object_mut().unwrap().remove("rel") == Some(json!(1)) && op["late"] != 1;
                    self.b.flying.push(p.clone());
                    if rel {
                        p = json!({"t": "PUBREL", "id": id});
                    } else {
                        p["dup"] = json!(1);
                    }
                    self.bsend(&p, &mut bin, &mut bsz).await;
                }
            } else if let Some(k) = op["brel"].as_u64() {
                if !self.b.rels.is_empty() {
                    let k = k as usize % self.b.rels.len();
                    let id = if op["keep"] == 1 { self.b.rels[k] } else { self.b.rels.remove(k) };
                    let mut p = json!({"t": "PUBREL", "id": id});
                    coded(&mut p, &op);
                    self.bsend(&p, &mut bin, &mut bsz).await;
                }
            } else if let Some(k) = op["back"].as_u64() {
                // a script may ask for several at once
                for i in 0..wire::int(&op, "n", 1) as usize {
                    if self.b.owed.is_empty() || !self.open() {
                        break;
                    }
                    let k = (k as usize + i * (k as usize)) % self.b.owed.len();
                    let mut p = self.b.owed.remove(k);
                    coded(&mut p, &op);
                    if op["as"].is_string() {
                        p["t"] = op["as"].clone(); // an acknowledgement of another kind
                    }
                    self.bsend(&p, &mut bin, &mut bsz).await;
                }
            } else if let Some(h) = op["braw"].as_str() {
                if self.open() {
                    self.write(&wire::unhex(h)).await;
                    bin.push(json!({"t": wire::st(&op, "is")}));
                    bsz.push(2);
                }
            } else if op["bfin"].is_i64() {
                if self.open() {
                    if let Some(h) = op["cut"].as_object() {
                        let b = wire::encode(&Value::Object(h.clone()));
                        let n = (op["at"].as_u64().unwrap_or(1) as usize % (b.len() - 1)) + 1;
                        self.write(&b[..n]).await;
                    }
                    self.settle().await;
                    let fd = self.b.fd;
                    match &mut self.b.stream {
                        Some(w @ Wr::Tls(_)) if !op["cut"].is_object() => {
                            let _ = w.shutdown().await;
                        }
                        _ => unsafe {
                            libc::shutdown(fd, libc::SHUT_WR);
                        },
                    }
                    self.b.fin = true;
                    bin.push(json!({"t": "FIN"}));
                    bsz.push(0);
                }
            } else if op["brst"].is_i64() {
                if self.open() {
                    let l = libc::linger { l_onoff: 1, l_linger: 0 };
                    unsafe {
                        libc::setsockopt(self.b.fd, libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
                    }
                    // both halves must go for the socket to be closed: end it by shutting the reader's side
                    bin.push(json!({"t": "FIN"}));
                    bsz.push(0);
                    self.b.rst = true;
                    unsafe {
                        // connecting a TCP socket to AF_UNSPEC aborts the connection
                        let mut a: libc::sockaddr = std::mem::zeroed();
                        a.sa_family = libc::AF_UNSPEC as u16;
                        libc::connect(self.b.fd, &a, std::mem::size_of::<libc::sockaddr>() as u32);
                    }
                    self.b.fin = true;
                }
            } else if op["a"].is_object() {
                let p = op["a"].clone();
                if op["help"] == 1 {
                    // with the client's own method
                    let had = self.a.producer.is_some();
                    let f: Vec<String> = p["filters"].as_array().unwrap().iter().map(|f| wire::topic_str(&f["f"])).collect();
                    let f: Vec<&str> = f.iter().map(|f| f.as_str()).collect();
                    let qos = (wire::int(&p["filters"][0], "qos", 0) as u8).try_into().unwrap();
                    if let (Some(c), true) = (self.a.client.as_mut(), had) {
                        let r = tokio::time::timeout(Duration::ZERO, c.subscribe(wire::int(&p, "id", 1) as u16, &f, qos)).await;
                        if matches!(r, Ok(Ok(()))) {
                            ain.push(plain(wire::decode(&wire::encode(&p))));
                        }
                    }
                } else {
                    self.asend(&p, &mut ain).await;
                }
            } else if op["twice"].is_i64() {
                // a client that was started before
                if let Some(c) = self.a.client.as_mut().filter(|_| self.a.handle.is_some()) {
                    match tokio::time::timeout(Duration::ZERO, c.start(op["twice"] == 1)).await {
                        Ok(Err(_)) => {}
                        _ => twice = 1,
                    }
                }
            } else if op["stop"].is_i64() {
                // through the client, as an application would
                let had = self.a.producer.is_some();
                if let (Some(c), true) = (self.a.client.as_mut(), had) {
                    if matches!(tokio::time::timeout(Duration::ZERO, c.stop()).await, Ok(Ok(()))) {
                        ain.push(json!({"t": "DISCONNECT", "rc": 0, "props": []}));
                    }
                }
            } else if op["aping"].is_i64() {
                let had = self.a.producer.is_some();
                if let (Some(c), true) = (self.a.client.as_mut(), had) {
                    if matches!(tokio::time::timeout(Duration::ZERO, c.ping()).await, Ok(Ok(()))) {
                        ain.push(json!({"t": "PINGREQ"}));
                    }
                }
            } else if let Some(k) = op["aack"].as_u64() {
                for _ in 0..wire::int(&op, "n", 1) {
                    if self.a.owed.is_empty() {
                        break;
                    }
                    let mut p = self.a.owed.remove(k as usize % self.a.owed.len());
                    coded(&mut p, &op);
                    if op["as"].is_string() {
                        p["t"] = op["as"].clone(); // an acknowledgement of another kind
                    }
                    self.asend(&p, &mut ain).await;
                }
            } else if let Some(k) = op["live"].as_u64() {
                let k = k as usize - 1;
                self.a.live[k] = op["on"] == 1;
            } else if let Some(k) = op["take"].as_u64() {
                let k = k as usize - 1;
                let n = wire::int(&op, "n", 1) as usize;
                let mut all = true;
                self.quiet().await;
                for _ in 0..n {
                    all = self.take(k, 1);
                    self.quiet().await;
                }
                short[k] = (!all) as i32;
            } else if let Some(k) = op["close"].as_u64() {
                let k = k as usize - 1;
                self.quiet().await;
                self.take(k, usize::MAX);
                self.a.rx[k] = None;
            } else if let Some(n) = op["bulk"].as_u64() {
                rec["bulk"] = self.bulk(n).await;
                seen0 = self.b.inbox.lock().unwrap().packets.len();
            }
        }
        self.quiet().await;
        if self.a.done != 0 {
            // the kernel may take its time
            for _ in 0..300 {
                if self.b.stream.is_none() || self.b.inbox.lock().unwrap().eof {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
                self.settle().await;
            }
            // nothing more comes
            for k in 0..K {
                short[k] = !self.take(k, usize::MAX) as i32;
            }
        }
        self.learn();
        let i = self.b.inbox.lock().unwrap();
        let out: Vec<Value> = i.packets[seen0..].iter().map(|x| x.0.clone()).collect();
        let at: Vec<u64> = i.packets[seen0..].iter().map(|x| x.1).collect();
        let eof = i.eof;
        let rest = !i.buf.is_empty();
        drop(i);
        let (mut conn, mut ka, mut sei) = (-1, -1, -1);
        if let Some(c) = &self.a.client {
            conn = c.connected().await as i64;
            ka = c.keep_alive().await.as_millis() as i64;
            sei = wire::small(c.session_expiry().await.as_secs() as i64);
        }
        for (k, v) in [
            ("bin", json!(bin)), ("bsz", json!(bsz)), ("ain", json!(ain)), ("out", json!(out)), ("at", json!(at)), ("got", json!(self.a.got)),
            ("live", json!(self.a.live.iter().map(|x| *x as i32).collect::<Vec<_>>())), ("caps", json!(self.a.caps)), ("short", json!(short)),
            ("closed", json!(self.a.rx.iter().map(|x| x.is_none() as i32).collect::<Vec<_>>())),
            ("t0", json!(t0)), ("t1", json!(self.now())), ("done", json!(self.a.done)), ("endat", json!(self.a.endat)), ("kind", json!(self.a.kind)),
            ("conn", json!(conn)), ("kams", json!(ka)), ("seis", json!(sei)), ("eof", json!(eof as i32)), ("rest", json!(rest as i32)), ("rst", json!(self.b.rst as i32)), ("twice", json!(twice)),
        ] {
            rec[k] = v;
        }
        rec
    }

    /// Hands over many QoS 1 publishes, each acknowledged when it arrives.
    async fn bulk(&mut self, n: u64) -> Value {
        let mut ids: Vec<i64> = Vec::new();
        let mut from = self.b.inbox.lock().unwrap().packets.len();
        let base = json!({"t": "PUBLISH", "topic": ["bulk"], "qos": 1, "id": -1, "pl": "x", "props": []});
        let (mut sent, mut acks, mut others, mut fwd) = (0u64, 0u64, 0u64, 0u64);
        let mut idle = 0;
        while (acks < n || fwd < n) && idle < 50 {
            let mut moved = false;
            while sent < n && sent < acks + 50 {
                let Some(tx) = &self.a.producer else { break };
                if tx.try_send(to_packet(&base)).is_err() {
                    break;
                }
                sent += 1;
                moved = true;
            }
            self.park.settle(1).await;
            let new: Vec<Value> = {
                let i = self.b.inbox.lock().unwrap();
                i.packets[from..].iter().map(|x| x.0.clone()).collect()
            };
            from += new.len();
            let mut bytes = Vec::new();
            for p in new {
                if p["t"] == "PUBLISH" && p["qos"] == 1 {
                    let id = wire::int(&p, "id", 0);
                    ids.push(id);
                    bytes.extend(wire::encode(&json!({"t": "PUBACK", "id": id})));
                    acks += 1;
                } else {
                    others += 1;
                }
                moved = true;
            }
            self.write(&bytes).await;
            self.park.settle(1).await;
            for k in 0..K {
                let before = self.a.got[k].len();
                self.take(k, usize::MAX);
                fwd += (self.a.got[k].len() - before) as u64;
                self.a.got[k].truncate(before);
            }
            idle = if moved { 0 } else { idle + 1 };
            quickack(self.b.fd);
        }
        self.b.taken = from;
        // ranges of ids, in the order used
        let mut ranges: Vec<[i64; 2]> = Vec::new();
        let mut dups = 0;
        let mut last: std::collections::HashMap<i64, usize> = Default::default();
        for (i, id) in ids.iter().enumerate() {
            if last.get(id).is_some_and(|j| i - j < 50) {
                dups += 1;
            }
            last.insert(*id, i);
            match ranges.last_mut() {
                Some(r) if r[1] + 1 == *id => r[1] = *id,
                _ => ranges.push([*id, *id]),
            }
        }
        ranges.truncate(200);
        json!({"n": n, "sent": sent, "acks": acks, "fwd": fwd, "others": others, "ranges": ranges, "dups": dups})
    }
}

fn will(w: &Value) -> WillMessage {
    let qos = match wire::int(w, "qos", 0) {
        0 => QoSLevel::AtMostOnce,
        1 => QoSLevel::AtLeastOnce,
        _ => QoSLevel::ExactlyOnce,
    };
    let mut m = WillMessage::new(wire::topic_str(&w["topic"]), &wire::blob(wire::st(w, "pl")), qos, wire::int(w, "ret", 0) == 1);
    if wire::int(w, "delay", 0) > 0 {
        m = m.with_delay(wire::int(w, "delay", 0) as u32);
    }
    for p in wire::strs(&w["props"]) {
        let (n, v) = p.split_once('=').unwrap();
        m = match n {
            "mei" => m.with_message_expiry(v.parse().unwrap()),
            "ct" => m.with_content_type(v.to_string()),
            "rt" => m.with_response_topic(v.to_string()),
            "cd" => m.with_correlation_data(wire::blob(v)),
            _ => panic!("will property {n}"),
        };
    }
    m
}

/// A free address the certificate is for.
async fn certified() -> (std::net::SocketAddr, TcpListener) {
    static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    loop {
        let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + std::process::id().wrapping_mul(311);
        let a = std::net::SocketAddr::from(([127, 0, 0, 1], 10000 + (n % 20000) as u16));
        if let Ok(l) = TcpListener::bind(a).await {
            return (a, l);
        }
    }
}

pub fn run(script: &Value) -> Value {
    let (rt, park) = paused_runtime();
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let script = script.clone();
    let v = rt.block_on(async move {
        // keeps the stopped clock from advancing by itself
        let hold = tokio::task::spawn_blocking(move || {
            let _ = rx.recv();
        });
        let tls = wire::int(&script, "tls", 0) == 1;
        let (addr, listener) = if tls { certified().await } else { let a = fresh_addr(); (a, TcpListener::bind(a).await.expect("listen")) };
        let mut d = Driver {
            listener: Some(Arc::new(listener)),
            tls,
            accepting: None,
            addr,
            park,
            start: Instant::now(),
            chunk: wire::int(&script, "chunk", 0) as usize,
            b: Broker { stream: None, fd: -1, inbox: Default::default(), taken: 0, fin: false, rst: false, owed: vec![], flying: vec![], rels: vec![], old: vec![], rm: 65535 },
            a: App {
                client: None, producer: None, handle: None, trying: None, rx: (0..K).map(|_| None).collect(), tx: (0..K).map(|_| None).collect(),
                live: vec![true; K], caps: vec![0; K], got: vec![vec![]; K], owed: vec![], state: None, done: 0, kind: String::new(), endat: 0, auto: true,
            },
            last_id: 0,
        };
        let mut rounds = Vec::new();
        for r in script["rounds"].as_array().unwrap() {
            rounds.push(d.round(r).await);
        }
        drop(tx);
        let _ = hold.await;
        json!({"id": script["id"], "tls": tls as u8, "rounds": rounds})
    });
    rt.shutdown_background();
    v
}
