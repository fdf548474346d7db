//! UCI wire constants and packet builders, written from the UCI message tables and
//! independent of the codec generated inside pica.

pub const MT_DATA: u8 = 0;
pub const MT_CMD: u8 = 1;
pub const MT_RSP: u8 = 2;
pub const MT_NTF: u8 = 3;

pub const CORE: u8 = 0x0;
pub const SCFG: u8 = 0x1;
pub const SCTL: u8 = 0x2;
pub const ANDROID: u8 = 0xc;

pub const ST_OK: u8 = 0x00;
pub const ST_REJECTED: u8 = 0x01;
pub const ST_FAILED: u8 = 0x02;
pub const ST_SYNTAX: u8 = 0x03;
pub const ST_INVALID_PARAM: u8 = 0x04;
pub const ST_UNKNOWN_GID: u8 = 0x07;
pub const ST_UNKNOWN_OID: u8 = 0x08;
pub const ST_READ_ONLY: u8 = 0x09;
pub const ST_NOT_EXIST: u8 = 0x11;
pub const ST_DUPLICATE: u8 = 0x12;
pub const ST_ACTIVE: u8 = 0x13;
pub const ST_MAX: u8 = 0x14;
pub const ST_NOT_CONFIGURED: u8 = 0x15;
pub const ST_MC_FULL: u8 = 0x17;

pub const DS_READY: u8 = 1;
pub const DS_ACTIVE: u8 = 2;
pub const DS_ERROR: u8 = 0xff;

pub const SS_INIT: u8 = 0;
pub const SS_DEINIT: u8 = 1;
pub const SS_ACTIVE: u8 = 2;
pub const SS_IDLE: u8 = 3;

/// A complete (unsegmented) control message as a host would send it.
pub fn ctrl(mt: u8, gid: u8, oid: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![(mt << 5) | gid, oid, 0, payload.len() as u8];
    v.extend_from_slice(payload);
    v
}
pub fn cmd(gid: u8, oid: u8, payload: &[u8]) -> Vec<u8> {
    ctrl(MT_CMD, gid, oid, payload)
}

pub fn u32le(v: u32) -> [u8; 4] {
    v.to_le_bytes()
}

pub fn reset() -> Vec<u8> {
    cmd(CORE, 0, &[0])
}
pub fn session_init(sid: u32, ty: u8) -> Vec<u8> {
    let mut p = u32le(sid).to_vec();
    p.push(ty);
    cmd(SCFG, 0, &p)
}
pub fn session_deinit(sid: u32) -> Vec<u8> {
    cmd(SCFG, 1, &u32le(sid))
}
pub fn get_count() -> Vec<u8> {
    cmd(SCFG, 5, &[])
}
pub fn get_state(sid: u32) -> Vec<u8> {
    cmd(SCFG, 6, &u32le(sid))
}
pub fn start(sid: u32) -> Vec<u8> {
    cmd(SCTL, 0, &u32le(sid))
}
pub fn stop(sid: u32) -> Vec<u8> {
    cmd(SCTL, 1, &u32le(sid))
}
pub fn ranging_count(sid: u32) -> Vec<u8> {
    cmd(SCTL, 3, &u32le(sid))
}
pub fn set_app(sid: u32, tlvs: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut p = u32le(sid).to_vec();
    p.push(tlvs.len() as u8);
    for (t, v) in tlvs {
        p.push(*t);
        p.push(v.len() as u8);
        p.extend_from_slice(v);
    }
    cmd(SCFG, 3, &p)
}
pub fn get_app(sid: u32, ids: &[u8]) -> Vec<u8> {
    let mut p = u32le(sid).to_vec();
    p.push(ids.len() as u8);
    p.extend_from_slice(ids);
    cmd(SCFG, 4, &p)
}
pub fn multicast(sid: u32, action: u8, entries: &[([u8; 2], u32)]) -> Vec<u8> {
    let mut p = u32le(sid).to_vec();
    p.push(action);
    p.push(entries.len() as u8);
    for (a, s) in entries {
        p.extend_from_slice(a);
        p.extend_from_slice(&u32le(*s));
        match action {
            2 => p.extend_from_slice(&[7; 16]),
            3 => p.extend_from_slice(&[9; 32]),
            _ => (),
        }
    }
    cmd(SCFG, 7, &p)
}
pub fn set_config(params: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut p = vec![params.len() as u8];
    for (t, v) in params {
        p.push(*t);
        p.push(v.len() as u8);
        p.extend_from_slice(v);
    }
    cmd(CORE, 4, &p)
}
pub fn get_config(ids: &[u8]) -> Vec<u8> {
    let mut p = vec![ids.len() as u8];
    p.extend_from_slice(ids);
    cmd(CORE, 5, &p)
}
pub fn data_snd(sid: u32, dest: u64, seq: u16, data: &[u8]) -> Vec<u8> {
    let mut p = u32le(sid).to_vec();
    p.extend_from_slice(&dest.to_le_bytes());
    p.extend_from_slice(&seq.to_le_bytes());
    p.extend_from_slice(&(data.len() as u16).to_le_bytes());
    p.extend_from_slice(data);
    let mut v = vec![0x01, 0];
    v.extend_from_slice(&(p.len() as u16).to_le_bytes());
    v.extend_from_slice(&p);
    v
}

/// The fragments a conforming controller emits for one outgoing message
/// given as (first octet without PBF, second octet, third octet, payload).
pub fn fragments(msg: &[u8]) -> Vec<Vec<u8>> {
    let data = msg[0] >> 5 == MT_DATA;
    let max = if data { 1024 } else { 255 };
    let payload = &msg[4..];
    let n = (payload.len() + max - 1) / max;
    let mut out = vec![];
    for (i, c) in payload.chunks(max).enumerate() {
        let last = i + 1 == n;
        let mut f = vec![(msg[0] & 0xef) | if last { 0 } else { 0x10 }, msg[1]];
        if data {
            f.extend_from_slice(&(c.len() as u16).to_le_bytes());
        } else {
            f.push(msg[2]);
            f.push(c.len() as u8);
        }
        f.extend_from_slice(c);
        out.push(f);
    }
    out
}

/// Split one host message into transport fragments of at most `max` payload octets.
pub fn host_fragments(msg: &[u8], max: usize) -> Vec<Vec<u8>> {
    let payload = &msg[4..];
    if payload.len() <= max {
        return vec![msg.to_vec()];
    }
    let n = (payload.len() + max - 1) / max;
    payload
        .chunks(max)
        .enumerate()
        .map(|(i, c)| {
            let mut f = vec![msg[0] | if i + 1 == n { 0 } else { 0x10 }, msg[1], msg[2], c.len() as u8];
            f.extend_from_slice(c);
            f
        })
        .collect()
}

pub fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{:02x}", b)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
