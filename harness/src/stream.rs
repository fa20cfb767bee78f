//! Drives vaux_async's PacketStream over a loopback socket. A script is a sequence of rounds; in each the peer
//! sends some bytes, and may close the stream, and then the reader reads until it has to wait. A call that waits
//! is abandoned or kept for the next round. With `tls` the stream is the server (1) or the client (2) of a TLS
//! connection; with `slow` the sockets' buffers are small, and the peer takes what is written only after a while.
use crate::codec::{build, items, project, rle};
use serde_json::{json, Value};
use std::future::Future;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::Poll;
use std::time::{Duration, Instant};
use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream};
use vaux_mqtt::codec::Encode;

fn waiting(fd: i32) -> i32 {
    let mut n: libc::c_int = 0;
    unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) };
    n
}

fn unsent(fd: i32) -> i32 {
    let mut n: libc::c_int = 0;
    unsafe { libc::ioctl(fd, libc::TIOCOUTQ, &mut n) };
    n
}

fn packet(p: &vaux_mqtt::Packet, raw: Option<&[u8]>) -> Value {
    let mut b = bytes::BytesMut::new();
    let re = p.encode(&mut b).map(|_| rle(&b)).unwrap_or(json!([]));
    let mut v = json!({"r": "ok", "p": project(p), "re": re});
    if let Some(raw) = raw {
        v["raw"] = rle(raw);
    }
    v
}

struct Peer {
    sock: std::net::TcpStream,
    tls: Option<rustls::Connection>,
}
impl Peer {
    fn flush(&mut self) -> std::io::Result<()> {
        if let Some(t) = &mut self.tls {
            while t.wants_write() {
                t.write_tls(&mut self.sock)?;
            }
        }
        Ok(())
    }
    fn send(&mut self, bytes: &[u8]) -> std::io::Result<()> {
        if self.tls.is_none() {
            return self.sock.write_all(bytes);
        }
        for b in bytes.chunks(16000) {
            self.tls.as_mut().unwrap().writer().write_all(b)?;
            self.flush()?;
        }
        Ok(())
    }
    fn finish(&mut self) {
        if let Some(t) = &mut self.tls {
            t.send_close_notify();
            let _ = self.flush();
        }
    }
    /// What has arrived within the socket's read timeout.
    fn recv(&mut self, got: &mut Vec<u8>) -> std::io::Result<usize> {
        let mut buf = vec![0; 65536];
        let n = match &mut self.tls {
            None => {
                let n = self.sock.read(&mut buf)?;
                got.extend_from_slice(&buf[..n]);
                n
            }
            Some(t) => {
                let n = t.read_tls(&mut self.sock)?;
                let s = t.process_new_packets().map_err(std::io::Error::other)?;
                let mut plain = vec![0; s.plaintext_bytes_to_read()];
                t.reader().read_exact(&mut plain)?;
                got.extend_from_slice(&plain);
                n
            }
        };
        Ok(n)
    }
}

fn small(fd: i32) {
    let n: libc::c_int = 16384;
    for o in [libc::SO_SNDBUF, libc::SO_RCVBUF] {
        unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, o, &n as *const _ as *const libc::c_void, 4) };
    }
}

/// A read in progress; dropping it abandons the call, but the stream is kept.
struct Reader {
    stream: *mut PacketStream,
    call: Option<Pin<Box<dyn Future<Output = Value>>>>,
}
impl Reader {
    fn start(&mut self, raw: bool) {
        // the stream outlives every call, and there is one call at a time
        let s: &'static mut PacketStream = unsafe { &mut *self.stream };
        self.call = Some(Box::pin(async move {
            match raw {
                true => match s.read_raw().await {
                    Ok(Some((p, b))) => packet(&p, Some(&b)),
                    Ok(None) => json!({"r": "none"}),
                    Err(e) => json!({"r": "err", "why": e.to_string()}),
                },
                false => match s.read().await {
                    Ok(Some(p)) => packet(&p, None),
                    Ok(None) => json!({"r": "none"}),
                    Err(e) => json!({"r": "err", "why": e.to_string()}),
                },
            }
        }));
    }
}
impl Drop for Reader {
    fn drop(&mut self) {
        self.call = None;
        drop(unsafe { Box::from_raw(self.stream) });
    }
}

pub fn run(script: &Value) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(tokio::task::unconstrained(go(script)))
}

async fn go(script: &Value) -> Value {
    let size = |k: &str| script[k].as_u64().map(|n| n as usize);
    let listener = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let peer = std::net::TcpStream::connect(listener.local_addr().unwrap()).unwrap();
    peer.set_nodelay(true).unwrap();
    let (ours, _) = listener.accept().unwrap();
    ours.set_nonblocking(true).unwrap();
    ours.set_nodelay(true).unwrap();
    let fd = ours.as_raw_fd();
    let ours = tokio::net::TcpStream::from_std(ours).unwrap();
    let tls = script["tls"].as_u64().unwrap_or(0);
    let mut peer = Peer { sock: peer, tls: None };
    let ours = if tls == 0 {
        MqttStream::TcpStream(ours)
    } else {
        peer.tls = Some(match tls {
            1 => rustls::ClientConnection::new(crate::tls::client(), crate::tls::name()).unwrap().into(),
            _ => rustls::ServerConnection::new(crate::tls::server()).unwrap().into(),
        });
        let hands = std::thread::spawn(move || {
            let mut peer = peer;
            let t = peer.tls.as_mut().unwrap();
            while t.is_handshaking() {
                t.complete_io(&mut peer.sock).expect("TLS handshake of the peer");
            }
            peer.flush().unwrap();
            peer
        });
        let s = match tls {
            1 => MqttStream::ServerTlsStream(Box::new(tokio_rustls::TlsAcceptor::from(crate::tls::server()).accept(ours).await.expect("TLS handshake"))),
            _ => MqttStream::ClientTlsStream(Box::new(tokio_rustls::TlsConnector::from(crate::tls::client()).connect(crate::tls::name(), ours).await.expect("TLS handshake"))),
        };
        peer = hands.join().unwrap();
        s
    };
    let slow = script["slow"].as_u64() == Some(1);
    if slow {
        small(fd);
        small(peer.sock.as_raw_fd());
    }
    let peer = Arc::new(std::sync::Mutex::new(peer));
    let stream = PacketStream::new(AsyncMqttStream(ours), size("init"), size("max").filter(|&n| n > 0));
    let mut reader = Reader { stream: Box::into_raw(Box::new(stream)), call: None };
    let mut peer = Some(peer);
    let mut over = false;
    let mut rounds = Vec::new();
    for r in script["rounds"].as_array().unwrap() {
        let mut out = r.clone();
        // what the peer does, in a thread of its own as it may have to wait for the reader
        let bytes = items(&r["send"]);
        let close = r["close"].as_u64().unwrap_or(0);
        let done = Arc::new(AtomicBool::new(false));
        let mut writes = Vec::new();
        for p in r["write"].as_array().map(|a| &a[..]).unwrap_or_default() {
            // writing needs the stream, so a waiting call is abandoned
            reader.call = None;
            let Ok(mut p) = build(p) else { continue };
            let s = unsafe { &mut *reader.stream };
            let (sock, written) = (peer.as_ref().unwrap().clone(), Arc::new(AtomicBool::new(false)));
            let w = written.clone();
            let collect = std::thread::spawn(move || {
                let mut sock = sock.lock().unwrap();
                let mut got = Vec::new();
                if slow {
                    std::thread::sleep(Duration::from_millis(30));
                }
                sock.sock.set_read_timeout(Some(Duration::from_millis(3))).unwrap();
                let end = Instant::now() + Duration::from_secs(20);
                while Instant::now() < end {
                    match sock.recv(&mut got) {
                        Ok(0) => break,
                        Ok(_) => {}
                        Err(e) if !matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => break,
                        // the writer has returned, and everything it gave to the socket has been taken from it
                        Err(_) if w.load(SeqCst) && unsent(fd) == 0 && waiting(sock.sock.as_raw_fd()) == 0 => break,
                        Err(_) => {}
                    }
                }
                got
            });
            let ok = s.write(&mut p).await.is_ok();
            written.store(true, SeqCst);
            writes.push(json!({"ok": ok as u8, "b": rle(&collect.join().unwrap())}));
        }
        let sock = if close > 0 { peer.take() } else { peer.clone() };
        let d = done.clone();
        let send = std::thread::spawn(move || {
            if let Some(sock) = sock {
                let mut sock = sock.lock().unwrap();
                let _ = sock.send(&bytes);
                if close == 1 {
                    sock.finish();
                }
                if close == 2 {
                    // after what was sent has been read
                    let end = Instant::now() + Duration::from_secs(2);
                    while waiting(fd) > 0 && Instant::now() < end {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                    let l = libc::linger { l_onoff: 1, l_linger: 0 };
                    unsafe {
                        libc::setsockopt(sock.sock.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as u32)
                    };
                }
            }
            d.store(true, SeqCst);
        });
        let raw = r["raw"].as_u64() == Some(1);
        let mut res = Vec::new();
        let limit = Instant::now() + Duration::from_secs(4);
        let mut turns = 0;
        while !over {
            if reader.call.is_none() {
                reader.start(raw);
            }
            let before = done.load(SeqCst) && waiting(fd) == 0;
            let c = reader.call.as_mut().unwrap();
            match std::future::poll_fn(|cx| Poll::Ready(c.as_mut().poll(cx))).await {
                Poll::Ready(v) => {
                    reader.call = None;
                    turns = 0;
                    over = v["r"] != "ok";
                    res.push(v);
                    if res.len() > 5000 {
                        break;
                    }
                }
                Poll::Pending => {
                    // all there is has been read and the call still waits: after a few turns of the event loop it is settled
                    if before && close == 0 {
                        turns += 1;
                        if turns > 3 {
                            break;
                        }
                    }
                    if Instant::now() > limit {
                        break;
                    }
                    tokio::time::sleep(Duration::from_micros(100)).await;
                }
            }
        }
        if over {
            // nobody reads any more
            drop(peer.take());
            unsafe { libc::shutdown(fd, libc::SHUT_RDWR) };
        }
        let _ = send.join();
        if r["cancel"].as_u64() == Some(1) {
            reader.call = None;
        }
        out["res"] = Value::Array(res);
        out["wrote"] = Value::Array(writes);
        rounds.push(out);
        if over {
            break;
        }
    }
    json!({"id": script["id"], "tls": tls, "slow": slow as u8, "init": script["init"], "max": script["max"], "rounds": rounds})
}
