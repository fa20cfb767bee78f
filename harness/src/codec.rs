//! Drives vaux_mqtt's encoder and decoder. Byte sequences are arrays of items: a byte, or `b + 256 * n` for a
//! run of n equal bytes b. Packets are records as in spec/Codec.tla.
use bytes::{Bytes, BytesMut};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vaux_mqtt::codec::{self, CodecSize, Encode, ErrorKind, PropertyCodecSize};
use vaux_mqtt::property::UserProperty;
use vaux_mqtt::subscribe::{RetainHandling, SubAck};
use vaux_mqtt::unsubscribe::{UnsubAck, Unsubscribe};
use vaux_mqtt::*;

const CHUNK: usize = 4194304;

pub fn items(v: &Value) -> Vec<u8> {
    let mut out = Vec::new();
    for x in v.as_array().unwrap() {
        let x = x.as_u64().unwrap();
        if x < 256 {
            out.push(x as u8);
        } else {
            // in blocks: this is not optimised code
            let mut n = (x / 256) as usize;
            let block = vec![(x % 256) as u8; n.min(65536)];
            while n > 0 {
                let k = n.min(block.len());
                out.extend_from_slice(&block[..k]);
                n -= k;
            }
        }
    }
    out
}

pub fn rle(b: &[u8]) -> Value {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let mut n = 0;
        if b.len() - i > 65536 {
            let block = vec![b[i]; 65536];
            while b.len() - i - n >= 65536 && b[i + n..i + n + 65536] == block[..] {
                n += 65536;
            }
        }
        n += b[i + n..].iter().take_while(|&&x| x == b[i]).count();
        if n < 16 {
            out.extend(std::iter::repeat(json!(b[i])).take(n));
        } else {
            let mut m = n;
            while m > 0 {
                let k = m.min(CHUNK);
                out.push(json!(b[i] as usize + 256 * k));
                m -= k;
            }
        }
        i += n;
    }
    Value::Array(out)
}

fn text(v: &Value) -> String {
    String::from_utf8(items(v)).expect("text")
}
fn num(v: &Value) -> u64 {
    v.as_u64().unwrap()
}
fn wide(v: &Value) -> u32 {
    (num(&v[0]) as u32) << 16 | num(&v[1]) as u32
}
fn flag(v: &Value) -> bool {
    num(&v[0]) == 1
}
fn halves(x: u32) -> Value {
    json!([x >> 16, x & 0xffff])
}

struct Given<'a>(&'a Value);
impl Given<'_> {
    fn get(&self, id: u64) -> Option<&Value> {
        self.0.as_array().unwrap().iter().find(|p| p[0] == id).map(|p| &p[1])
    }
    fn u32(&self, id: u64) -> Option<u32> {
        self.get(id).map(wide)
    }
    fn u16(&self, id: u64) -> Option<u16> {
        self.get(id).map(|v| num(&v[0]) as u16)
    }
    fn vbi(&self, id: u64) -> Option<u32> {
        self.get(id).map(|v| num(&v[0]) as u32)
    }
    fn bool(&self, id: u64) -> Option<bool> {
        self.get(id).map(flag)
    }
    fn text(&self, id: u64) -> Option<String> {
        self.get(id).map(text)
    }
    fn bin(&self, id: u64) -> Vec<u8> {
        self.get(id).map(items).unwrap_or_default()
    }
    fn user(&self) -> UserProperty {
        let mut u = UserProperty::new();
        for p in self.0.as_array().unwrap().iter().filter(|p| p[0] == 38) {
            u.add(text(&p[1]), text(&p[2]));
        }
        u
    }
}

fn qos(n: u64) -> QoSLevel {
    QoSLevel::try_from(n as u8).unwrap()
}
fn format(n: u64) -> PayloadFormat {
    PayloadFormat::try_from(n as u8).unwrap()
}
fn reason(n: u64) -> Reason {
    Reason::try_from(n as u8).unwrap()
}

/// Builds the packet with the public API; an error where the API refuses. The packet may have had other values
/// before ("was"), which are set again, and it may be built with other constructors ("alt").
pub fn build(p: &Value) -> Result<Packet, String> {
    let mut x = start(if p["was"].is_null() { p } else { &p["was"] }, p["alt"] == 1)?;
    if !p["was"].is_null() {
        set(&mut x, &p["was"])?;
    }
    set(&mut x, p)?;
    Ok(x)
}

fn start(p: &Value, alt: bool) -> Result<Packet, String> {
    let e = |e: MqttCodecError| e.reason;
    let id = p["pid"].as_u64().unwrap_or(0) as u16;
    Ok(match num(&p["t"]) {
        1 => match p["will"].as_array().unwrap().first() {
            Some(w) if alt => Packet::Connect(Box::new(will(w, num(&p["cf"])).into())),
            _ => Packet::Connect(Box::new(Connect::new())),
        },
        2 => Packet::ConnAck(ConnAck::default()),
        3 if alt => {
            let q = qos(num(&p["fl"]) >> 1 & 3);
            let pid = if q == QoSLevel::AtMostOnce { None } else { Some(id) };
            let (topic, pl) = (text(&p["topic"]), items(&p["pl"]));
            Packet::Publish(match String::from_utf8(pl) {
                Ok(s) => Publish::new_with_message(pid, topic, q, &s),
                Err(x) => Publish::new_with_payload(pid, topic, q, x.into_bytes()),
            }.map_err(e)?)
        }
        3 => Packet::Publish(Publish::default()),
        4 => Packet::PubAck(PubAck::new_puback_with_packet_id(id)),
        5 => Packet::PubRec(PubAck::new_pubrec_with_packet_id(id)),
        6 => Packet::PubRel(PubAck::new_pubrel_with_packet_id(id)),
        7 => Packet::PubComp(PubAck::new_pubcomp_with_packet_id(id)),
        8 if alt => Packet::Subscribe(Subscribe::new_with_filter(id, Vec::new())),
        8 => Packet::Subscribe(Subscribe::new_with_packet_id(id)),
        9 if alt => Packet::SubAck(SubAck::default()),
        9 => Packet::SubAck(SubAck::new_with_packet_id(id).map_err(e)?),
        10 if alt => Packet::Unsubscribe(Unsubscribe::default()),
        10 => Packet::Unsubscribe(Unsubscribe::new(id, p["topics"].as_array().unwrap().iter().map(text).collect())),
        11 => Packet::UnsubAck(UnsubAck::default()),
        12 => Packet::PingRequest(PingReq::default()),
        13 => Packet::PingResponse(PingResp::default()),
        14 if alt => Packet::Disconnect(Disconnect::default()),
        14 => Packet::Disconnect(Disconnect::new(reason(num(&p["rc"])))),
        t => return Err(format!("type {t}")),
    })
}

fn will(w: &Value, cf: u64) -> WillMessage {
    let h = Given(&w["props"]);
    let mut m = WillMessage::new(text(&w["topic"]), &items(&w["pl"]), qos(cf >> 3 & 3), cf & 32 != 0);
    if let Some(x) = h.u32(24) {
        m = m.with_delay(x);
    }
    if let Some(x) = h.get(1) {
        m = m.with_payload_format(format(num(&x[0])));
    }
    if let Some(x) = h.u32(2) {
        m = m.with_message_expiry(x);
    }
    if let Some(x) = h.text(3) {
        m = m.with_content_type(x);
    }
    if let Some(x) = h.text(8) {
        m = m.with_response_topic(x);
    }
    m.with_correlation_data(h.bin(9)).with_user_properties(h.user())
}

/// Sets everything that can be set.
fn set(x: &mut Packet, p: &Value) -> Result<(), String> {
    let empty = json!([]);
    let g = Given(if p["props"].is_null() { &empty } else { &p["props"] });
    let e = |e: MqttCodecError| e.reason;
    match x {
        Packet::Connect(c) => {
            let cf = num(&p["cf"]);
            c.keep_alive = num(&p["ka"]) as u16;
            c.set_clean_start(cf & 2 != 0);
            c.client_id = text(&p["cid"]);
            match g.u32(17) {
                Some(s) if s > 0 => c.set_session_expiry_interval(s),
                s => c.session_expiry_interval = s,
            }
            c.receive_maximum = g.u16(33);
            c.max_packet_size = g.u32(39);
            c.topic_alias_maximum = g.u16(34);
            c.request_response_info = g.bool(25);
            c.request_problem_info = g.bool(23);
            c.auth_method = g.text(21);
            c.auth_data = g.bin(22);
            c.user_properties = g.user();
            if let Some(w) = p["will"].as_array().unwrap().first() {
                c.set_will_message(will(w, cf));
            } else if c.will() {
                return Err("a will can not be taken back".into());
            }
            c.set_username(p["user"].as_array().unwrap().first().map(text));
            c.set_password(p["pass"].as_array().unwrap().first().map(items));
        }
        Packet::ConnAck(c) => {
            c.set_session_present(num(&p["af"]) == 1);
            c.reason = reason(num(&p["rc"]));
            match g.u32(17) {
                Some(s) if s > 0 => c.set_session_expiry(s),
                s => c.session_expiry_interval = s,
            }
            match g.u16(33) {
                Some(s) if s > 0 => c.set_receive_max(s),
                s => c.receive_maximum = s,
            }
            c.maximum_qos = g.get(36).map(|v| qos(num(&v[0])));
            c.retain_available = g.bool(37);
            c.maximum_packet_size = g.u32(39);
            c.assigned_client_id = g.text(18);
            c.topic_alias_maximum = g.u16(34);
            c.reason_string = g.text(31);
            c.subscription_identifier_available = g.bool(41);
            c.user_properties = g.user();
            c.wildcard_subscription_available = g.bool(40);
            c.shared_subscription_available = g.bool(42);
            match g.u16(19) {
                Some(s) if s > 0 => c.set_server_keep_alive(s),
                s => c.server_keep_alive = s,
            }
            c.response_information = g.text(26);
            c.server_reference = g.text(28);
            c.auth_method = g.text(21);
            c.auth_data = g.bin(22);
        }
        Packet::Publish(m) => {
            let fl = num(&p["fl"]);
            let q = qos(fl >> 1 & 3);
            m.topic_name = text(&p["topic"]);
            m.set_qos(q);
            if q != QoSLevel::AtMostOnce {
                m.set_packet_id(Some(num(&p["pid"]) as u16)).map_err(e)?;
            }
            m.set_dup(fl & 8 != 0).map_err(e)?;
            m.set_retain(fl & 1 != 0);
            m.message_expiry = g.u32(2);
            match g.get(1).map(|v| num(&v[0])) {
                Some(1) => m.set_payload_format(PayloadFormat::Utf8),
                f => m.payload_format = f.map(format),
            }
            m.topic_alias = None;
            if let Some(a) = g.u16(35) {
                *m = std::mem::take(m).with_topic_alias(a);
            }
            m.response_topic = g.text(8);
            m.correlation_data = g.bin(9);
            m.subscription_identifiers = g.vbi(11);
            m.content_type = g.text(3);
            m.user_properties = g.user();
            m.payload = if p["nopl"] == 1 { None } else { Some(Bytes::from(items(&p["pl"]))) };
        }
        Packet::PubAck(a) | Packet::PubRec(a) | Packet::PubRel(a) | Packet::PubComp(a) => {
            a.packet_id = num(&p["pid"]) as u16;
            if num(&p["rc"]) != 0 || p["setrc"] == 1 || a.reason().is_some() {
                a.set_reason(reason(num(&p["rc"]))).map_err(e)?;
            }
        }
        Packet::Subscribe(s) => {
            s.packet_id = num(&p["pid"]) as u16;
            s.subscription_id = None;
            match g.vbi(11) {
                Some(i) if (1..=268435455).contains(&i) => {
                    if s.set_subscription_id(i).is_err() {
                        return Err("subscription id".into());
                    }
                }
                i => s.subscription_id = i,
            }
            s.user_props = g.user();
            let fs = p["filters"].as_array().unwrap();
            while s.filter.len() > fs.len() {
                s.remove_filter_at(s.filter.len() - 1);
            }
            for (i, f) in fs.iter().enumerate() {
                let o = num(&f[1]);
                if i >= s.filter.len() {
                    s.add_filter(SubscriptionFilter::new(text(&f[0]), qos(o & 3)));
                }
                let x = &mut s.filter[i];
                x.filter = text(&f[0]);
                x.set_no_local(o & 4 != 0);
                x.set_retain_as_published(o & 8 != 0);
                x.set_retain_handling(RetainHandling::try_from((o >> 4 & 3) as u8).unwrap());
                x.set_qos(qos(o & 3));
            }
        }
        Packet::SubAck(s) => {
            s.set_packet_id(num(&p["pid"]) as u16).map_err(e)?;
            s.reason = g.text(31);
            s.user_properties = g.user();
            s.reason_codes = items(&p["rcs"]).iter().map(|&c| reason(c as u64)).collect();
        }
        Packet::Unsubscribe(u) => {
            u.packet_id = num(&p["pid"]) as u16;
            u.props = g.user();
            u.topics.clear();
            for t in p["topics"].as_array().unwrap() {
                u.add_topic(text(t));
            }
        }
        Packet::UnsubAck(u) => {
            u.packet_id = num(&p["pid"]) as u16;
            u.reason = g.text(31).unwrap_or_default();
            u.user_properties = g.user();
            u.reason_code = items(&p["rcs"]).iter().map(|&c| reason(c as u64)).collect();
        }
        Packet::Disconnect(d) => {
            d.reason = reason(num(&p["rc"]));
            d.session_expiry_interval = g.u32(17);
            d.reason_string = g.text(31);
            d.server_reference = g.text(28);
            d.user_properties = g.user();
        }
        _ => {}
    }
    Ok(())
}

#[derive(Default)]
struct Props(Vec<Value>);
impl Props {
    fn put(mut self, id: u64, v: Option<Value>) -> Self {
        if let Some(v) = v {
            self.0.push(json!([id, v]));
        }
        self
    }
    fn u32(self, id: u64, v: Option<u32>) -> Self {
        self.put(id, v.map(halves))
    }
    fn int<T: Into<u64>>(self, id: u64, v: Option<T>) -> Self {
        self.put(id, v.map(|x| json!([x.into()])))
    }
    fn text(self, id: u64, v: &Option<String>) -> Self {
        self.put(id, v.as_ref().map(|s| rle(s.as_bytes())))
    }
    fn bin(self, id: u64, v: &[u8]) -> Self {
        self.put(id, if v.is_empty() { None } else { Some(rle(v)) })
    }
    fn user(mut self, u: &UserProperty) -> Self {
        for (k, vs) in u.iter() {
            for v in vs {
                self.0.push(json!([38, rle(k.as_bytes()), rle(v.as_bytes())]));
            }
        }
        self
    }
    fn end(self) -> Value {
        Value::Array(self.0)
    }
}

/// What the public API tells of a packet. Properties of acknowledgements, and user names and passwords, can not
/// be read with it: the former are left out ("noprops"), the latter are only known to be there.
pub fn project(p: &Packet) -> Value {
    match p {
        Packet::Connect(c) => {
            let w = c.will_message();
            let cf = (c.clean_start() as u8) << 1
                | (c.will() as u8) << 2
                | c.will_qos().map(|q| q as u8).unwrap_or(3) << 3
                | (c.will_retain() as u8) << 5
                | (c.password() as u8) << 6
                | (c.username() as u8) << 7;
            json!({"t": 1, "fl": 0, "cf": cf, "ka": c.keep_alive, "cid": rle(c.client_id.as_bytes()),
                "props": Props::default().u32(17, c.session_expiry_interval).int(33, c.receive_maximum).u32(39, c.max_packet_size)
                    .int(34, c.topic_alias_maximum).int(25, c.request_response_info).int(23, c.request_problem_info)
                    .text(21, &c.auth_method).bin(22, &c.auth_data).user(&c.user_properties).end(),
                "will": w.iter().map(|w| json!({"topic": rle(w.topic.as_bytes()), "pl": rle(&w.payload),
                    "props": Props::default().u32(24, w.header.will_delay).int(1, w.header.payload_format.map(|f| f as u8))
                        .u32(2, w.header.message_expiry).text(3, &w.header.content_type).text(8, &w.header.response_topic)
                        .bin(9, &w.header.correlation_data).user(&w.header.user_properties).end()})).collect::<Vec<_>>(),
                "user": if c.username() { json!([[]]) } else { json!([]) }, "pass": if c.password() { json!([[]]) } else { json!([]) }})
        }
        Packet::ConnAck(c) => json!({"t": 2, "fl": 0, "af": c.session_present() as u8, "rc": c.reason as u8,
            "props": Props::default().u32(17, c.session_expiry_interval).int(33, c.receive_maximum)
                .int(36, c.maximum_qos.map(|q| q as u8)).int(37, c.retain_available).u32(39, c.maximum_packet_size)
                .text(18, &c.assigned_client_id).int(34, c.topic_alias_maximum).text(31, &c.reason_string)
                .int(41, c.subscription_identifier_available).user(&c.user_properties)
                .int(40, c.wildcard_subscription_available).int(42, c.shared_subscription_available)
                .int(19, c.server_keep_alive).text(26, &c.response_information).text(28, &c.server_reference)
                .text(21, &c.auth_method).bin(22, &c.auth_data).end()}),
        Packet::Publish(m) => json!({"t": 3, "fl": (m.dup() as u8) << 3 | (m.qos() as u8) << 1 | m.retain() as u8,
            "topic": rle(m.topic_name.as_bytes()), "pid": m.packet_id().unwrap_or(0), "pl": rle(m.payload.as_deref().unwrap_or_default()),
            "props": Props::default().u32(2, m.message_expiry).int(1, m.payload_format.map(|f| f as u8)).int(35, m.topic_alias)
                .text(8, &m.response_topic).bin(9, &m.correlation_data).int(11, m.subscription_identifiers)
                .text(3, &m.content_type).user(&m.user_properties).end()}),
        Packet::PubAck(a) => ack(4, 0, a),
        Packet::PubRec(a) => ack(5, 0, a),
        Packet::PubRel(a) => ack(6, 2, a),
        Packet::PubComp(a) => ack(7, 0, a),
        Packet::Subscribe(s) => json!({"t": 8, "fl": 2, "pid": s.packet_id,
            "props": Props::default().int(11, s.subscription_id).user(&s.user_props).end(),
            "filters": s.filter.iter().map(|f| json!([rle(f.filter.as_bytes()), f.qos() as u8 | (f.no_local() as u8) << 2
                | (f.retain_as_published() as u8) << 3 | (f.retain_handling() as u8) << 4])).collect::<Vec<_>>()}),
        Packet::SubAck(s) => json!({"t": 9, "fl": 0, "pid": s.packet_id(),
            "props": Props::default().text(31, &s.reason).user(&s.user_properties).end(),
            "rcs": rle(&s.reason_codes.iter().map(|&r| r as u8).collect::<Vec<_>>())}),
        Packet::Unsubscribe(u) => json!({"t": 10, "fl": 2, "pid": u.packet_id, "props": Props::default().user(&u.props).end(),
            "topics": u.topics.iter().map(|t| rle(t.as_bytes())).collect::<Vec<_>>()}),
        Packet::UnsubAck(u) => json!({"t": 11, "fl": 0, "pid": u.packet_id,
            "props": Props::default().text(31, &Some(u.reason.clone())).user(&u.user_properties).end(),
            "rcs": rle(&u.reason_code.iter().map(|&r| r as u8).collect::<Vec<_>>())}),
        Packet::PingRequest(_) => json!({"t": 12, "fl": 0}),
        Packet::PingResponse(_) => json!({"t": 13, "fl": 0}),
        Packet::Disconnect(d) => json!({"t": 14, "fl": 0, "rc": d.reason as u8,
            "props": Props::default().u32(17, d.session_expiry_interval).text(31, &d.reason_string)
                .text(28, &d.server_reference).user(&d.user_properties).end()}),
    }
}
fn ack(t: u8, fl: u8, a: &PubAck) -> Value {
    json!({"t": t, "fl": fl, "pid": a.packet_id, "rc": a.reason().unwrap_or_default() as u8, "props": [], "noprops": 1})
}

/// The size the API reports of the packet (of all that follows the remaining length) and of its properties.
fn sizes(p: &Packet) -> (i64, i64) {
    fn s<T: CodecSize + PropertyCodecSize>(x: &T) -> (i64, i64) {
        (x.codec_size() as i64, x.property_size() as i64)
    }
    match p {
        Packet::PingRequest(x) => (x.codec_size() as i64, 0),
        Packet::PingResponse(x) => (x.codec_size() as i64, 0),
        Packet::Connect(x) => s(&**x),
        Packet::ConnAck(x) => s(x),
        Packet::Publish(x) => s(x),
        Packet::PubAck(x) | Packet::PubComp(x) | Packet::PubRec(x) | Packet::PubRel(x) => s(x),
        Packet::Disconnect(x) => s(x),
        Packet::Subscribe(x) => s(x),
        Packet::SubAck(x) => s(x),
        Packet::Unsubscribe(x) => s(x),
        Packet::UnsubAck(x) => s(x),
    }
}

fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

enum Got {
    Panic,
    Need,
    Err,
    Ok(Packet, usize),
}
fn dec(b: &[u8]) -> Got {
    dec_buf(BytesMut::from(b))
}
fn dec_buf(mut buf: BytesMut) -> Got {
    match quiet(|| codec::decode(&mut buf)) {
        None => Got::Panic,
        Some(Err(e)) if matches!(e.kind, ErrorKind::InsufficientData(_, _)) => Got::Need,
        Some(Err(_)) => Got::Err,
        Some(Ok(None)) => Got::Need,
        Some(Ok(Some((p, n)))) => Got::Ok(p, n),
    }
}
fn encode(p: &Packet) -> (&'static str, Vec<u8>) {
    const BEFORE: &[u8] = b"\x30\x7f\xff";
    let mut buf = BytesMut::from(BEFORE);
    match quiet(|| p.encode(&mut buf)) {
        None => ("panic", vec![]),
        Some(Err(_)) => ("err", vec![]),
        Some(Ok(())) if buf.starts_with(BEFORE) => ("ok", buf[BEFORE.len()..].to_vec()),
        Some(Ok(())) => ("overwritten", vec![]),
    }
}
fn outcome(g: &Got) -> Value {
    match g {
        Got::Panic => json!({"r": "panic"}),
        Got::Need => json!({"r": "need"}),
        Got::Err => json!({"r": "err"}),
        Got::Ok(p, n) => {
            let (r, b) = encode(p);
            json!({"r": "ok", "n": n, "p": project(p), "re": if r == "ok" { rle(&b) } else { json!([]) }})
        }
    }
}
/// 0 more needed, 1 error, 2 panic, otherwise 3 + length of the packet
fn code(g: &Got) -> u64 {
    match g {
        Got::Need => 0,
        Got::Err => 1,
        Got::Panic => 2,
        Got::Ok(_, n) => 3 + *n as u64,
    }
}

fn op(o: &Value) -> Value {
    let mut out = o.clone();
    match o["op"].as_str().unwrap() {
        "enc" => match build(&o["p"]) {
            Err(e) => out["res"] = json!({"r": "unbuilt", "why": e}),
            Ok(p) => {
                let (r, b) = encode(&p);
                let (size, psize) = if r == "ok" { sizes(&p) } else { (-1, -1) };
                out["res"] = json!({"r": r, "b": rle(&b), "size": size, "psize": psize});
                if r == "ok" {
                    let mut buf = BytesMut::from(Bytes::from(b));
                    buf.extend_from_slice(&items(&o["tail"]));
                    let g = dec_buf(buf);
                    out["back"] = match &g {
                        Got::Ok(q, n) => json!({"r": "ok", "n": n, "p": project(q), "eq": (*q == p) as u8}),
                        g => outcome(g),
                    };
                }
            }
        },
        "dec" => out["res"] = outcome(&dec(&items(&o["b"]))),
        // every value of one byte
        "sweep" => {
            let mut b = items(&o["b"]);
            let i = num(&o["i"]) as usize - 1;
            out["res"] = (0..=255u8).map(|v| {
                b[i] = v;
                code(&dec(&b))
            }).collect();
        }
        // every beginning
        "pre" => {
            let b = items(&o["b"]);
            out["res"] = (0..b.len()).map(|n| code(&dec(&b[..n]))).collect();
        }
        // every single byte replaced by a few values, left out, and doubled: does anything panic?
        "storm" => {
            let b = items(&o["b"]);
            let (mut panics, mut tried) = (0, 0);
            let mut one = |b: &[u8]| {
                tried += 1;
                if matches!(dec(b), Got::Panic) {
                    panics += 1;
                }
            };
            for i in 0..b.len() {
                for v in [0u8, 1, 2, 3, 0x26, 0x7f, 0x80, 0xff, b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i] ^ 0x80] {
                    let mut c = b.clone();
                    c[i] = v;
                    one(&c);
                }
                let mut c = b.clone();
                c.remove(i);
                one(&c);
                if c.len() > 1 && c[1] > 0 && i > 1 && c[1] < 128 {
                    c[1] -= 1;
                    one(&c);
                }
                let mut c = b.clone();
                c.insert(i, b[i]);
                one(&c);
                let mut c = b[..i].to_vec();
                if i > 1 && b[1] < 128 {
                    c[1] = i as u8 - 2;
                    one(&c);
                }
            }
            out["res"] = json!({"panics": panics});
        }
        "vbi" => {
            let v = num(&o["hi"]) as u32 * 65536 + num(&o["lo"]) as u32;
            let mut buf = BytesMut::new();
            let r = quiet(|| codec::encode_variable_byte_int(v, &mut buf));
            let (r, b) = match r {
                None => ("panic", vec![]),
                Some(Err(_)) => ("err", vec![]),
                Some(Ok(())) => ("ok", buf.to_vec()),
            };
            let back = quiet(|| codec::decode_variable_byte_int(&mut buf));
            let back = match back {
                Some(Ok((x, n))) if r == "ok" => json!([halves(x), n]),
                _ => json!([]),
            };
            out["res"] = json!({"r": r, "b": rle(&b), "size": quiet(|| codec::variable_byte_int_size(v)).unwrap_or(0), "back": back});
        }
        x => panic!("op {x}"),
    }
    out
}

pub fn run(script: &Value) -> Value {
    let ops: Vec<Value> = script["ops"].as_array().unwrap().iter().map(op).collect();
    json!({"id": script["id"], "rounds": ops})
}
