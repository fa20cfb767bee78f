//! The harness's own MQTT 5 wire format, independent of the code under test.
//!
//! Packets are JSON records. Topics are arrays of levels, binary values are strings (`0x..` when
//! they are not text), properties are sorted strings `name=value`.
use serde_json::{json, Map, Value};

pub struct PropDef(pub u8, pub &'static str, pub char);
pub const PROPS: &[PropDef] = &[
    PropDef(1, "pfi", 'b'),
    PropDef(2, "mei", '4'),
    PropDef(3, "ct", 's'),
    PropDef(8, "rt", 's'),
    PropDef(9, "cd", 'd'),
    PropDef(11, "si", 'v'),
    PropDef(17, "sei", '4'),
    PropDef(18, "aci", 's'),
    PropDef(19, "ska", '2'),
    PropDef(21, "am", 's'),
    PropDef(22, "ad", 'd'),
    PropDef(23, "rpi", 'b'),
    PropDef(24, "wdi", '4'),
    PropDef(25, "rri", 'b'),
    PropDef(26, "ri", 's'),
    PropDef(28, "sr", 's'),
    PropDef(31, "rs", 's'),
    PropDef(33, "rm", '2'),
    PropDef(34, "tam", '2'),
    PropDef(35, "ta", '2'),
    PropDef(36, "mq", 'b'),
    PropDef(37, "ra", 'b'),
    PropDef(38, "up", 'p'),
    PropDef(39, "mps", '4'),
    PropDef(40, "wsa", 'b'),
    PropDef(41, "sia", 'b'),
    PropDef(42, "ssa", 'b'),
];

pub const TYPES: [&str; 16] = [
    "RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP",
    "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH",
];

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// `text`, `0xHEX`, or `N*text` for a repeated text.
pub fn blob(s: &str) -> Vec<u8> {
    if let Some(h) = s.strip_prefix("0x") {
        return unhex(h);
    }
    if let Some((n, t)) = s.split_once('*') {
        if let Ok(n) = n.parse::<usize>() {
            return t.as_bytes().repeat(n);
        }
    }
    s.as_bytes().to_vec()
}
pub fn unblob(b: &[u8]) -> String {
    // long runs of one repeated character are kept short
    if b.len() > 64 && b.iter().all(|x| *x == b[0]) && b[0].is_ascii_alphanumeric() {
        return format!("{}*{}", b.len(), b[0] as char);
    }
    match std::str::from_utf8(b) {
        Ok(s) if !s.starts_with("0x") && !s.contains('*') && s.chars().all(|c| !c.is_control()) => s.to_string(),
        _ => format!("0x{}", hex(b)),
    }
}
pub fn topic_str(v: &Value) -> String {
    match v {
        Value::Array(a) => a.iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join("/"),
        Value::String(s) => s.clone(),
        _ => String::new(),
    }
}
pub fn topic_val(s: &str) -> Value {
    Value::Array(s.split('/').map(|l| Value::String(l.to_string())).collect())
}

fn put_var(out: &mut Vec<u8>, mut n: usize) {
    loop {
        let mut b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b |= 0x80;
        }
        out.push(b);
        if n == 0 {
            return;
        }
    }
}
fn put_bin(out: &mut Vec<u8>, b: &[u8]) {
    out.extend((b.len() as u16).to_be_bytes());
    out.extend(b);
}
fn put_props(out: &mut Vec<u8>, props: &[String]) {
    let mut body = Vec::new();
    for p in props {
        let (name, val) = p.split_once('=').expect("property");
        let d = PROPS.iter().find(|d| d.1 == name).expect("property name");
        body.push(d.0);
        match d.2 {
            'b' => body.push(val.parse().unwrap()),
            '2' => body.extend(val.parse::<u16>().unwrap().to_be_bytes()),
            '4' => body.extend(val.parse::<u32>().unwrap().to_be_bytes()),
            'v' => put_var(&mut body, val.parse().unwrap()),
            's' | 'd' => put_bin(&mut body, &blob(val)),
            'p' => {
                let (k, v) = val.split_once(':').expect("user property");
                put_bin(&mut body, k.as_bytes());
                put_bin(&mut body, v.as_bytes());
            }
            _ => unreachable!(),
        }
    }
    put_var(out, body.len());
    out.extend(body);
}
pub fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}
pub fn int(p: &Value, k: &str, d: i64) -> i64 {
    p[k].as_i64().unwrap_or(d)
}
pub fn st<'a>(p: &'a Value, k: &str) -> &'a str {
    p[k].as_str().unwrap_or("")
}

/// Encodes a packet.
pub fn encode(p: &Value) -> Vec<u8> {
    let t = st(p, "t");
    let ty = TYPES.iter().position(|x| *x == t).unwrap_or_else(|| panic!("packet type {t}")) as u8;
    let mut flags = match t {
        "PUBREL" | "SUBSCRIBE" | "UNSUBSCRIBE" => 2,
        _ => 0,
    };
    let mut b = Vec::new();
    let mut props = strs(&p["props"]);
    match t {
        "CONNECT" => {
            put_bin(&mut b, b"MQTT");
            b.push(5);
            let will = &p["will"];
            let haswill = will.is_object();
            let mut f = 0u8;
            if int(p, "clean", 0) == 1 {
                f |= 2;
            }
            if haswill {
                f |= 4 | (int(will, "qos", 0) as u8) << 3 | (int(will, "ret", 0) as u8) << 5;
            }
            if p["user"].is_string() {
                f |= 0x80;
            }
            if p["pass"].is_string() {
                f |= 0x40;
            }
            b.push(f);
            b.extend((int(p, "ka", 60) as u16).to_be_bytes());
            if int(p, "sei", -1) != -1 {
                props.push(format!("sei={}", large(int(p, "sei", 0))));
            }
            put_props(&mut b, &props);
            put_bin(&mut b, st(p, "cid").as_bytes());
            if haswill {
                let mut wp = strs(&will["props"]);
                if int(will, "delay", 0) > 0 {
                    wp.push(format!("wdi={}", int(will, "delay", 0)));
                }
                put_props(&mut b, &wp);
                put_bin(&mut b, topic_str(&will["topic"]).as_bytes());
                put_bin(&mut b, &blob(st(will, "pl")));
            }
            if p["user"].is_string() {
                put_bin(&mut b, st(p, "user").as_bytes());
            }
            if p["pass"].is_string() {
                put_bin(&mut b, &blob(st(p, "pass")));
            }
        }
        "CONNACK" => {
            b.push(int(p, "sp", 0) as u8);
            b.push(int(p, "rc", 0) as u8);
            if int(p, "ska", -1) >= 0 {
                props.push(format!("ska={}", int(p, "ska", 0)));
            }
            if int(p, "sei", -1) != -1 {
                props.push(format!("sei={}", large(int(p, "sei", 0))));
            }
            if int(p, "rm", -1) >= 0 {
                props.push(format!("rm={}", int(p, "rm", 0)));
            }
            if !st(p, "aci").is_empty() {
                props.push(format!("aci={}", st(p, "aci")));
            }
            put_props(&mut b, &props);
        }
        "PUBLISH" => {
            let qos = int(p, "qos", 0) as u8;
            flags = (int(p, "dup", 0) as u8) << 3 | qos << 1 | int(p, "ret", 0) as u8;
            put_bin(&mut b, topic_str(&p["topic"]).as_bytes());
            if qos > 0 {
                b.extend((int(p, "id", 0) as u16).to_be_bytes());
            }
            put_props(&mut b, &props);
            b.extend(blob(st(p, "pl")));
        }
        "PUBACK" | "PUBREC" | "PUBREL" | "PUBCOMP" => {
            b.extend((int(p, "id", 0) as u16).to_be_bytes());
            let rc = int(p, "rc", 0) as u8;
            if rc != 0 || !props.is_empty() {
                b.push(rc);
                if !props.is_empty() {
                    put_props(&mut b, &props);
                }
            }
        }
        "SUBSCRIBE" => {
            b.extend((int(p, "id", 0) as u16).to_be_bytes());
            put_props(&mut b, &props);
            for f in p["filters"].as_array().unwrap() {
                put_bin(&mut b, topic_str(&f["f"]).as_bytes());
                b.push(
                    int(f, "qos", 0) as u8 | (int(f, "nl", 0) as u8) << 2 | (int(f, "rap", 0) as u8) << 3 | (int(f, "rh", 0) as u8) << 4,
                );
            }
        }
        "UNSUBSCRIBE" => {
            b.extend((int(p, "id", 0) as u16).to_be_bytes());
            put_props(&mut b, &props);
            for f in p["filters"].as_array().unwrap() {
                put_bin(&mut b, topic_str(f).as_bytes());
            }
        }
        "SUBACK" | "UNSUBACK" => {
            b.extend((int(p, "id", 0) as u16).to_be_bytes());
            put_props(&mut b, &props);
            for r in p["rcs"].as_array().unwrap() {
                b.push(r.as_i64().unwrap() as u8);
            }
        }
        "PINGREQ" | "PINGRESP" => {}
        "DISCONNECT" | "AUTH" => {
            let rc = int(p, "rc", 0) as u8;
            if rc != 0 || !props.is_empty() {
                b.push(rc);
                if !props.is_empty() {
                    put_props(&mut b, &props);
                }
            }
        }
        _ => panic!("cannot encode {t}"),
    }
    if p["flags"].is_i64() {
        flags = int(p, "flags", 0) as u8;
    }
    let mut out = vec![ty << 4 | flags];
    put_var(&mut out, b.len());
    out.extend(b);
    out
}

struct R<'a>(&'a [u8]);
type D<T> = Result<T, String>;
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> D<&'a [u8]> {
        if self.0.len() < n {
            return Err("short".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u8(&mut self) -> D<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> D<u16> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    fn u32(&mut self) -> D<u32> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn var(&mut self) -> D<usize> {
        let mut n = 0;
        for i in 0..4 {
            let b = self.u8()?;
            n |= ((b & 0x7f) as usize) << (7 * i);
            if b & 0x80 == 0 {
                return Ok(n);
            }
        }
        Err("varint".into())
    }
    fn bin(&mut self) -> D<&'a [u8]> {
        let n = self.u16()? as usize;
        self.take(n)
    }
    fn str(&mut self) -> D<String> {
        String::from_utf8(self.bin()?.to_vec()).map_err(|_| "utf8".to_string())
    }
    fn props(&mut self) -> D<Vec<String>> {
        Ok(self.props_and_users()?.0)
    }
    /// The properties in the order used in records, and the user properties in the order on the wire.
    fn props_and_users(&mut self) -> D<(Vec<String>, Vec<String>)> {
        let n = self.var()?;
        let mut r = R(self.take(n)?);
        let mut out = Vec::new();
        let mut users: Vec<String> = Vec::new();
        while !r.0.is_empty() {
            let id = r.u8()?;
            let d = PROPS.iter().find(|d| d.0 == id).ok_or(format!("property {id}"))?;
            let v = match d.2 {
                'b' => r.u8()?.to_string(),
                '2' => r.u16()?.to_string(),
                '4' => r.u32()?.to_string(),
                'v' => r.var()?.to_string(),
                's' => r.str()?,
                'd' => unblob(r.bin()?),
                'p' => {
                    let k = r.str()?;
                    users.push(format!("up={}:{}", k, r.str()?));
                    continue;
                }
                _ => unreachable!(),
            };
            out.push(format!("{}={}", d.1, v));
        }
        out.sort();
        let wire = users.clone();
        // values of one name keep their order, names are sorted
        users.sort_by(|a, b| a.split(':').next().cmp(&b.split(':').next()));
        out.extend(users);
        Ok((out, wire))
    }
}
/// The length of the first frame of `b`, when it is complete.
pub fn frame(b: &[u8]) -> Option<Result<usize, String>> {
    if b.len() < 2 {
        return None;
    }
    let mut n = 0usize;
    for i in 0..4 {
        let x = *b.get(1 + i)?;
        n |= ((x & 0x7f) as usize) << (7 * i);
        if x & 0x80 == 0 {
            let total = 2 + i + n;
            return if b.len() >= total { Some(Ok(total)) } else { None };
        }
    }
    Some(Err("remaining length".into()))
}

fn pull(props: &mut Vec<String>, name: &str) -> Option<String> {
    let i = props.iter().position(|p| p.split('=').next() == Some(name))?;
    let p = props.remove(i);
    Some(p.split_once('=').unwrap().1.to_string())
}
fn pull_int(props: &mut Vec<String>, name: &str) -> i64 {
    pull(props, name).map(|x| x.parse().unwrap()).unwrap_or(-1)
}

/// TLC has numbers of 32 bits: those of the upper half of a u32 are counted down from -2 for the largest.
pub fn small(v: i64) -> i64 {
    if v > i32::MAX as i64 { v - (1 << 32) - 1 } else { v }
}
pub fn large(v: i64) -> i64 {
    if v < -1 { v + (1 << 32) + 1 } else { v }
}

/// Decodes one complete frame.
pub fn decode(b: &[u8]) -> Value {
    match decode_inner(b) {
        Ok(v) => v,
        Err(e) => json!({"t": "GARBAGE", "why": e, "hex": hex(b)}),
    }
}
fn decode_inner(b: &[u8]) -> D<Value> {
    let t = TYPES[(b[0] >> 4) as usize];
    let flags = b[0] & 15;
    let mut r = R(&b[1..]);
    let n = r.var()?;
    if n != r.0.len() {
        return Err("length".into());
    }
    let mut m = Map::new();
    m.insert("t".into(), json!(t));
    let want = match t {
        "PUBLISH" => flags,
        "PUBREL" | "SUBSCRIBE" | "UNSUBSCRIBE" => 2,
        _ => 0,
    };
    if flags != want {
        return Err("flags".into());
    }
    match t {
        "CONNECT" => {
            if r.str()? != "MQTT" || r.u8()? != 5 {
                return Err("protocol".into());
            }
            let f = r.u8()?;
            m.insert("ka".into(), json!(r.u16()?));
            let mut props = r.props()?;
            m.insert("sei".into(), json!(small(pull_int(&mut props, "sei"))));
            m.insert("rm".into(), json!(pull_int(&mut props, "rm")));
            m.insert("props".into(), json!(props));
            m.insert("cid".into(), json!(r.str()?));
            m.insert("clean".into(), json!(f >> 1 & 1));
            if f & 1 != 0 || (f & 4 == 0 && f & 0x38 != 0) {
                return Err("connect flags".into());
            }
            if f & 4 != 0 {
                let mut wp = r.props()?;
                let delay = pull_int(&mut wp, "wdi").max(0);
                let topic = r.str()?;
                let pl = unblob(r.bin()?);
                m.insert(
                    "will".into(),
                    json!({"topic": topic_val(&topic), "pl": pl, "qos": f >> 3 & 3, "ret": f >> 5 & 1, "delay": delay, "props": wp}),
                );
            }
            m.insert("user".into(), if f & 0x80 != 0 { json!(r.str()?) } else { json!("") });
            m.insert("pass".into(), if f & 0x40 != 0 { json!(unblob(r.bin()?)) } else { json!("") });
        }
        "CONNACK" => {
            m.insert("sp".into(), json!(r.u8()?));
            m.insert("rc".into(), json!(r.u8()?));
            let mut props = r.props()?;
            m.insert("ska".into(), json!(pull_int(&mut props, "ska")));
            m.insert("sei".into(), json!(small(pull_int(&mut props, "sei"))));
            m.insert("rm".into(), json!(pull_int(&mut props, "rm")));
            m.insert("aci".into(), json!(pull(&mut props, "aci").unwrap_or_default()));
            m.insert("props".into(), json!(props));
        }
        "PUBLISH" => {
            let qos = flags >> 1 & 3;
            if qos == 3 {
                return Err("qos".into());
            }
            m.insert("topic".into(), topic_val(&r.str()?));
            m.insert("qos".into(), json!(qos));
            m.insert("dup".into(), json!(flags >> 3));
            m.insert("ret".into(), json!(flags & 1));
            m.insert("id".into(), json!(if qos > 0 { r.u16()? } else { 0 }));
            let (props, users) = r.props_and_users()?;
            m.insert("props".into(), json!(props));
            m.insert("ups".into(), json!(users));
            m.insert("pl".into(), json!(unblob(r.0)));
            r.0 = &[];
        }
        "PUBACK" | "PUBREC" | "PUBREL" | "PUBCOMP" => {
            m.insert("id".into(), json!(r.u16()?));
            m.insert("rc".into(), json!(if r.0.is_empty() { 0 } else { r.u8()? }));
            m.insert("props".into(), json!(if r.0.is_empty() { vec![] } else { r.props()? }));
        }
        "SUBSCRIBE" => {
            m.insert("id".into(), json!(r.u16()?));
            m.insert("props".into(), json!(r.props()?));
            let mut fs = Vec::new();
            while !r.0.is_empty() {
                let f = r.str()?;
                let o = r.u8()?;
                fs.push(json!({"f": topic_val(&f), "qos": o & 3, "nl": o >> 2 & 1, "rap": o >> 3 & 1}));
            }
            m.insert("filters".into(), json!(fs));
        }
        "UNSUBSCRIBE" => {
            m.insert("id".into(), json!(r.u16()?));
            m.insert("props".into(), json!(r.props()?));
            let mut fs = Vec::new();
            while !r.0.is_empty() {
                fs.push(topic_val(&r.str()?));
            }
            m.insert("filters".into(), json!(fs));
        }
        "SUBACK" | "UNSUBACK" => {
            m.insert("id".into(), json!(r.u16()?));
            m.insert("props".into(), json!(r.props()?));
            m.insert("rcs".into(), json!(r.0));
            r.0 = &[];
        }
        "DISCONNECT" | "AUTH" => {
            m.insert("rc".into(), json!(if r.0.is_empty() { 0 } else { r.u8()? }));
            m.insert("props".into(), json!(if r.0.is_empty() { vec![] } else { r.props()? }));
        }
        "PINGREQ" | "PINGRESP" => {}
        _ => return Err("type".into()),
    }
    if !r.0.is_empty() {
        return Err("trailing".into());
    }
    Ok(Value::Object(m))
}
