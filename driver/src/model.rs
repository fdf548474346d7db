//! Reference model of the UCI controller, written from the property statements.
//! It is the oracle the replay driver compares the real crate against; it shares
//! no code with pica.

use crate::wire::*;
use std::collections::BTreeMap;

pub type Tags = Vec<&'static str>;

#[derive(Clone, Debug)]
pub struct Out {
    pub handle: usize,
    pub msg: Vec<u8>,
    pub tags: Tags,
}

// ---------------------------------------------------------------- APP config

#[derive(Clone, Copy, Debug)]
pub enum Kind {
    Enum(&'static [u8]),
    /// mandatory parameter without default value
    Opt(&'static [u8]),
    U(usize),
    Arr(usize),
    UwbTime,
    Bytes,
    SubKey,
    Mac,
    Dst,
}
use Kind::*;

/// id, kind, default value (None: no default)
pub const PARAMS: &[(u8, Kind, Option<&[u8]>)] = &[
    (0x00, Opt(&[0, 1]), None),
    (0x01, Opt(&[1, 2, 3, 4, 5, 6, 7, 8]), None),
    (0x02, Enum(&[0, 1, 2, 3, 4]), Some(&[0])),
    (0x03, Opt(&[0, 1]), None),
    (0x04, Enum(&[5, 6, 8, 9, 10, 12, 13, 14]), Some(&[9])),
    (0x05, U(1), Some(&[1])),
    (0x06, Mac, None),
    (0x07, Dst, Some(&[])),
    (0x08, U(2), Some(&[0x60, 0x09])),
    (0x09, U(4), Some(&[200, 0, 0, 0])),
    (0x0a, U(4), Some(&[0, 0, 0, 0])),
    (0x0b, Enum(&[0, 1]), Some(&[0])),
    (0x0c, U(1), Some(&[6])),
    (0x0d, Enum(&[0, 1, 2, 3]), Some(&[1])),
    (0x0e, Enum(&[0, 1, 2, 3, 4, 5, 6, 7]), Some(&[1])),
    (0x0f, U(2), Some(&[0, 0])),
    (0x10, U(2), Some(&[0x20, 0x4e])),
    (0x11, Opt(&[0, 1, 5, 6, 7, 8]), None),
    (0x12, Enum(&[0, 1, 3]), Some(&[3])),
    (0x13, Enum(&[0, 1]), Some(&[0])),
    (0x14, U(1), Some(&[10])),
    (0x15, U(1), Some(&[2])),
    (0x16, Enum(&[0, 1, 2, 3]), Some(&[0])),
    (0x17, Enum(&[0, 1]), Some(&[1])),
    (0x18, Enum(&[0]), Some(&[0])),
    (0x19, U(1), Some(&[0])),
    (0x1a, Enum(&[1]), Some(&[1])),
    (0x1b, U(1), Some(&[25])),
    (0x1d, Arr(8), Some(&[0; 8])),
    (0x1f, Enum(&[0, 1, 2]), Some(&[0])),
    (0x20, Arr(2), Some(&[24, 5])),
    (0x21, U(1), Some(&[0])),
    (0x22, Opt(&[0, 1]), None),
    (0x23, Enum(&[0, 1]), Some(&[0])),
    (0x24, U(1), Some(&[0])),
    (0x25, U(1), Some(&[50])),
    (0x26, Enum(&[0, 1, 2]), Some(&[0])),
    (0x27, U(2), Some(&[0, 0])),
    (0x28, Arr(6), Some(&[0; 6])),
    (0x29, U(1), Some(&[1])),
    (0x2a, U(2), Some(&[0, 0])),
    (0x2b, UwbTime, Some(&[0; 8])),
    (0x2c, Enum(&[0, 1]), Some(&[0])),
    (0x2d, U(1), Some(&[0])),
    (0x2e, U(1), Some(&[1])),
    (0x2f, U(1), Some(&[1])),
    (0x30, U(4), Some(&[0; 4])),
    (0x31, Enum(&[0, 1]), Some(&[0])),
    (0x32, U(2), Some(&[0, 0])),
    (0x35, Enum(&[0, 1, 2]), Some(&[1])),
    (0x3a, U(1), Some(&[4])),
    (0x3b, U(2), Some(&[0, 0])),
    (0x3c, U(1), Some(&[1])),
    (0x45, Bytes, Some(&[])),
    (0x46, SubKey, Some(&[])),
    (0x47, Enum(&[0, 1]), Some(&[0])),
    (0x48, Arr(9), Some(&[0; 9])),
    (0x4c, U(1), Some(&[0])),
];

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Cfg {
    pub vals: BTreeMap<u8, Vec<u8>>,
    pub dst: Vec<Vec<u8>>,
}

impl Cfg {
    pub fn new() -> Cfg {
        let mut vals = BTreeMap::new();
        for (id, _, d) in PARAMS {
            if let Some(d) = d {
                vals.insert(*id, d.to_vec());
            }
        }
        Cfg { vals, dst: vec![] }
    }
    pub fn kind(id: u8) -> Option<Kind> {
        PARAMS.iter().find(|p| p.0 == id).map(|p| p.1)
    }
    pub fn u8(&self, id: u8) -> Option<u8> {
        self.vals.get(&id).map(|v| v[0])
    }
    /// Returns whether the value was accepted.
    pub fn set(&mut self, id: u8, v: &[u8]) -> bool {
        let mode = self.u8(0x26).unwrap();
        let new = match Cfg::kind(id) {
            None => return false,
            Some(Enum(ok)) | Some(Opt(ok)) => {
                if v.len() != 1 || !ok.contains(&v[0]) {
                    return false;
                }
                v.to_vec()
            }
            Some(U(n)) | Some(Arr(n)) => {
                if v.len() != n {
                    return false;
                }
                v.to_vec()
            }
            Some(UwbTime) => match v.len() {
                4 => [v, &[0; 4]].concat(),
                8 => v.to_vec(),
                _ => return false,
            },
            Some(Bytes) => v.to_vec(),
            Some(SubKey) => match v.len() {
                16 | 32 => v.to_vec(),
                _ => return false,
            },
            Some(Mac) => match (mode, v.len()) {
                (0, 2) | (2, 8) => v.to_vec(),
                _ => return false,
            },
            Some(Dst) => {
                let sz = match mode {
                    0 => 2,
                    2 => 8,
                    _ => return false,
                };
                if v.len() != sz * self.u8(0x05).unwrap() as usize {
                    return false;
                }
                self.dst = v.chunks(sz).map(|c| c.to_vec()).collect();
                return true;
            }
        };
        self.vals.insert(id, new);
        true
    }
    pub fn get(&self, id: u8) -> Option<Vec<u8>> {
        if id == 0x07 {
            return Some(self.dst.concat());
        }
        self.vals.get(&id).cloned()
    }
    pub fn mandatory_ok(&self) -> bool {
        [0x11, 0x03, 0x01, 0x06, 0x22].iter().all(|i| self.vals.contains_key(i))
    }
    pub fn interval(&self) -> u64 {
        u32::from_le_bytes(self.vals[&0x09].clone().try_into().unwrap()) as u64
    }
    pub fn compatible(&self, o: &Cfg) -> bool {
        self.vals.get(&0x11) != o.vals.get(&0x11)
            && self.vals.get(&0x00) != o.vals.get(&0x00)
            && o.dst.contains(&self.vals[&0x06])
            && self.dst.contains(&o.vals[&0x06])
    }
}

// ---------------------------------------------------------------- model state

#[derive(Clone, Debug)]
pub struct Sess {
    pub state: u8,
    pub ty: u8,
    pub seq: u32,
    pub cfg: Cfg,
    pub data: Vec<u8>,
    pub task: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct Dev {
    pub handle: usize,
    pub mac: Vec<u8>,
    pub is_reset: bool,
    pub state: u8,
    pub low_power: bool,
    pub sessions: BTreeMap<u32, Sess>,
}

#[derive(Clone, Debug)]
enum Ev {
    Send(usize, Vec<u8>, Tags),
    Range(usize, u32, u64),
}

pub type Meas = (u16, i16, i8);

pub struct Model {
    pub now: u64,
    pub counter: usize,
    pub devs: BTreeMap<usize, Dev>,
    pub anchors: BTreeMap<Vec<u8>, usize>,
    evq: BTreeMap<(u64, u64), Ev>,
    n: u64,
    pub out: Vec<Out>,
    /// Period of each ranging task, fixed when the session is started.
    period: BTreeMap<u64, u64>,
    /// In-band stop requests the controller queued for itself.
    pending_stops: Vec<(Vec<u8>, u32)>,
    pub estimates: BTreeMap<(usize, usize), Option<Meas>>,
}

pub fn default_estimate(l: usize, r: usize) -> Option<Meas> {
    Some((
        (l * 31 + r * 7 + 100) as u16,
        (l as i16) * 300 - (r as i16) * 500,
        (l as i8).wrapping_mul(5).wrapping_sub((r as i8).wrapping_mul(9)),
    ))
}

fn msg(mt: u8, gid: u8, oid: u8, p: &[u8]) -> Vec<u8> {
    let mut v = vec![(mt << 5) | gid, oid, 0, 0];
    v.extend_from_slice(p);
    v
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|v| v[0])
    }
    fn u16(&mut self) -> Option<u16> {
        self.take(2).map(|v| u16::from_le_bytes(v.try_into().unwrap()))
    }
    fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|v| u32::from_le_bytes(v.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        self.take(8).map(|v| u64::from_le_bytes(v.try_into().unwrap()))
    }
    fn end(&self) -> Option<()> {
        if self.0.is_empty() {
            Some(())
        } else {
            None
        }
    }
    fn tlvs(&mut self) -> Option<Vec<(u8, Vec<u8>)>> {
        let n = self.u8()?;
        let mut out = vec![];
        for _ in 0..n {
            let t = self.u8()?;
            let l = self.u8()? as usize;
            out.push((t, self.take(l)?.to_vec()));
        }
        Some(out)
    }
    fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.u8()? as usize;
        Some(self.take(n)?.to_vec())
    }
}

/// Identifiers the protocol defines or reserves for application parameters; a
/// command naming any other does not parse.
pub fn app_id_defined(id: u8) -> bool {
    !matches!(id, 0x1c | 0x1e | 0x33 | 0x34 | 0x36..=0x39)
}

pub const SESSION_TYPES: &[u8] = &[0, 1, 2, 3, 4, 5, 0xa0, 0xd0];
pub const GROUPS: &[u8] = &[0, 1, 2, 3, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf];

pub const CAPS: &[(u8, &[u8])] = &[
    (0x00, &[1, 1, 1, 3]),
    (0x01, &[1, 1, 1, 3]),
    (0x02, &[0x3]),
    (0x03, &[0x1f]),
    (0x04, &[0x1f]),
    (0x05, &[0xff]),
    (0x06, &[0x01]),
    (0x07, &[0x01]),
    (0x08, &[0x00]),
    (0x09, &[0x1]),
    (0x0a, &[0x01]),
    (0x0b, &[0xff]),
    (0x0c, &[0xff]),
    (0x0d, &[0xff]),
    (0x0e, &[0xff]),
    (0x0f, &[0xff]),
    (0x10, &[0xff]),
    (0xe3, &[0x1]),
    (0x11, &[0x1]),
    (0xa4, &[1, 0]),
    (0xa5, &[0]),
    (0xa6, &[0]),
    (0xa7, &[0, 0, 0, 0]),
    (0xa0, &[0xff]),
    (0xa1, &[0xff, 0xff, 0xff, 0xff]),
    (0xa3, &[0xff]),
    (0xa2, &[0xff]),
];

impl Model {
    pub fn new() -> Model {
        Model {
            now: 0,
            counter: 0,
            devs: BTreeMap::new(),
            anchors: BTreeMap::new(),
            evq: BTreeMap::new(),
            n: 0,
            out: vec![],
            period: BTreeMap::new(),
            pending_stops: vec![],
            estimates: BTreeMap::new(),
        }
    }

    fn later(&mut self, delay: u64, ev: Ev) {
        self.n += 1;
        self.evq.insert((self.now + delay, self.n), ev);
    }
    fn send(&mut self, h: usize, m: Vec<u8>, tags: &[&'static str]) {
        if self.devs.contains_key(&h) {
            self.out.push(Out { handle: h, msg: m, tags: tags.to_vec() });
        }
    }
    pub fn estimate(&self, l: usize, r: usize) -> Option<Meas> {
        match self.estimates.get(&(l, r)) {
            Some(v) => *v,
            None => default_estimate(l, r),
        }
    }

    fn mac_taken(&self, mac: &[u8]) -> bool {
        self.anchors.contains_key(mac) || self.devs.values().any(|d| d.mac == mac)
    }

    pub fn connect(&mut self) -> (usize, Vec<u8>) {
        let (handle, mac) = loop {
            let h = self.counter;
            self.counter += 1;
            let m = (h as u16).to_be_bytes().to_vec();
            if !self.mac_taken(&m) {
                break (h, m);
            }
        };
        self.devs.insert(
            handle,
            Dev {
                handle,
                mac: mac.clone(),
                is_reset: false,
                state: DS_READY,
                low_power: true,
                sessions: BTreeMap::new(),
            },
        );
        self.later(5, Ev::Send(handle, msg(MT_NTF, CORE, 1, &[DS_READY]), vec!["S03", "S04", "C03"]));
        (handle, mac)
    }

    /// Returns the address of the disconnected device, if it was connected.
    pub fn disconnect(&mut self, h: usize) -> Option<Vec<u8>> {
        self.devs.remove(&h).map(|d| d.mac)
    }

    pub fn create_anchor(&mut self, mac: &[u8]) -> Result<usize, ()> {
        if self.mac_taken(mac) {
            return Err(());
        }
        let h = self.counter;
        self.counter += 1;
        self.anchors.insert(mac.to_vec(), h);
        Ok(h)
    }
    pub fn destroy_anchor(&mut self, mac: &[u8]) -> Result<usize, ()> {
        self.anchors.remove(mac).ok_or(())
    }

    /// Advance the clock by one millisecond and run what became due.
    pub fn step(&mut self) {
        self.now += 1;
        loop {
            let Some((&k, _)) = self.evq.iter().next() else { return };
            if k.0 > self.now {
                return;
            }
            let ev = self.evq.remove(&k).unwrap();
            match ev {
                Ev::Send(h, m, t) => self.send(h, m, &t),
                Ev::Range(h, sid, task) => {
                    let live = self
                        .devs
                        .get(&h)
                        .and_then(|d| d.sessions.get(&sid))
                        .map_or(false, |s| s.task == Some(task));
                    if live {
                        let period = self.period[&task];
                        self.later(period, Ev::Range(h, sid, task));
                        self.ranging(h, sid);
                    }
                }
            }
        }
    }

    fn set_dev_state(&mut self, h: usize, st: u8) {
        let d = self.devs.get_mut(&h).unwrap();
        if d.state == st {
            return;
        }
        d.state = st;
        self.later(5, Ev::Send(h, msg(MT_NTF, CORE, 1, &[st]), vec!["S03", "S04"]));
    }
    fn active(&self, h: usize) -> usize {
        self.devs[&h].sessions.values().filter(|s| s.state == SS_ACTIVE).count()
    }
    fn refresh_dev_state(&mut self, h: usize) {
        let st = if self.active(h) > 0 { DS_ACTIVE } else { DS_READY };
        self.set_dev_state(h, st);
    }
    fn session_ntf(&mut self, h: usize, sid: u32, st: u8, reason: u8) {
        let mut p = u32le(sid).to_vec();
        p.push(st);
        p.push(reason);
        self.later(1, Ev::Send(h, msg(MT_NTF, SCFG, 2, &p), vec!["S04", "S01"]));
    }
    fn set_sess_state(&mut self, h: usize, sid: u32, st: u8, reason: u8) {
        let s = self.devs.get_mut(&h).unwrap().sessions.get_mut(&sid).unwrap();
        if s.state == st {
            return;
        }
        s.state = st;
        if st != SS_ACTIVE {
            s.task = None;
        }
        self.session_ntf(h, sid, st, reason);
    }

    /// One ranging round of an active session.
    pub fn ranging(&mut self, h: usize, sid: u32) {
        let Some(d) = self.devs.get(&h) else { return };
        let Some(s) = d.sessions.get(&sid) else { return };
        if s.state != SS_ACTIVE {
            return;
        }
        let mut meas = vec![];
        for mac in &s.cfg.dst {
            if let Some(a) = self.anchors.get(mac) {
                if let (Some(l), Some(r)) = (self.estimate(h, *a), self.estimate(*a, h)) {
                    meas.push((mac.clone(), l, r));
                }
            }
        }
        let mut receivers = vec![];
        for (ph, p) in &self.devs {
            if *ph == h {
                continue;
            }
            let Some(ps) = p.sessions.get(&sid) else { continue };
            if ps.state != SS_ACTIVE {
                continue;
            }
            if s.cfg.compatible(&ps.cfg) {
                match (self.estimate(h, *ph), self.estimate(*ph, h)) {
                    (Some(l), Some(r)) => meas.push((ps.cfg.vals[&0x06].clone(), l, r)),
                    _ => continue,
                }
            }
            if s.ty == 1 && ps.ty == 1 && s.cfg.u8(0x11) == Some(1) && ps.cfg.u8(0x11) == Some(0) {
                receivers.push(*ph);
            }
        }
        let data = s.data.clone();
        let mut src = s.cfg.vals[&0x06].clone();
        src.resize(8, 0);
        let enabled = s.cfg.u8(0x0e) != Some(0);
        let seq = s.seq;
        if data.len() <= 0xffff {
            for r in receivers {
                let mut m = vec![0x02, 0, 0, 0];
                m.extend_from_slice(&u32le(sid));
                m.push(ST_OK);
                m.extend_from_slice(&src);
                m.extend_from_slice(&[1, 0]);
                m.extend_from_slice(&(data.len() as u16).to_le_bytes());
                m.extend_from_slice(&data);
                self.send(r, m, &["D01"]);
            }
        }
        if enabled {
            let mut p = u32le(seq).to_vec();
            p.extend_from_slice(&u32le(sid));
            p.push(0);
            p.extend_from_slice(&[0; 4]);
            p.push(1);
            p.push(0);
            p.push(0);
            p.extend_from_slice(&[0; 8]);
            let mut recs: Vec<Vec<u8>> = meas
                .iter()
                .filter(|m| m.0.len() == 2)
                .map(|(mac, l, r)| {
                    let mut v = mac.clone();
                    v.push(ST_OK);
                    v.push(0);
                    v.extend_from_slice(&l.0.to_le_bytes());
                    v.extend_from_slice(&l.1.to_le_bytes());
                    v.push(100);
                    v.extend_from_slice(&(l.2 as i16).to_le_bytes());
                    v.push(100);
                    v.extend_from_slice(&r.1.to_le_bytes());
                    v.push(100);
                    v.extend_from_slice(&(r.2 as i16).to_le_bytes());
                    v.push(100);
                    v.push(0);
                    v.push(255);
                    v.extend_from_slice(&[0; 11]);
                    v
                })
                .collect();
            recs.sort();
            recs.truncate(255);
            p.push(recs.len() as u8);
            p.extend_from_slice(&recs.concat());
            self.send(h, msg(MT_NTF, SCTL, 0, &p), &["R01", "R02"]);
        }
        let s = self.devs.get_mut(&h).unwrap().sessions.get_mut(&sid).unwrap();
        if enabled {
            s.seq = s.seq.wrapping_add(1);
        }
        s.data.clear();
    }

    pub fn stop_ranging(&mut self, mac: &[u8], sid: u32) {
        let hs: Vec<usize> = self.devs.keys().cloned().collect();
        for h in hs {
            let Some(s) = self.devs[&h].sessions.get(&sid) else { continue };
            if s.state == SS_ACTIVE && s.cfg.vals.get(&0x06).map(|m| m.as_slice()) == Some(mac) {
                self.set_sess_state(h, sid, SS_IDLE, 0x05);
                self.refresh_dev_state(h);
            }
        }
    }

    /// One complete packet received from the host.
    pub fn uci(&mut self, h: usize, pkt: &[u8]) {
        if !self.devs.contains_key(&h) || pkt.len() < 4 {
            return;
        }
        match pkt[0] >> 5 {
            MT_DATA => self.data(h, pkt),
            MT_RSP | MT_NTF => (),
            _ => {
                if let Some((m, tags)) = self.command(h, pkt) {
                    let mut t = vec!["C02"];
                    t.extend(tags);
                    // responses go out before anything the command caused
                    self.out.insert(0, Out { handle: h, msg: m, tags: t });
                }
            }
        }
    }

    fn data(&mut self, h: usize, pkt: &[u8]) {
        let mut r = Rd(&pkt[4..]);
        let ntf = |tok: u32, seq: u8, st: u8| {
            let mut p = u32le(tok).to_vec();
            p.extend_from_slice(&[seq, st, 1]);
            msg(MT_NTF, SCTL, 5, &p)
        };
        match pkt[0] & 0xf {
            1 => {
                let parsed = (|| {
                    let tok = r.u32()?;
                    r.u64()?;
                    let seq = r.u16()?;
                    let n = r.u16()? as usize;
                    let d = r.take(n)?.to_vec();
                    r.end()?;
                    Some((tok, seq, d))
                })();
                let Some((tok, seq, d)) = parsed else { return };
                let m = match self.devs.get_mut(&h).unwrap().sessions.get_mut(&tok) {
                    None => ntf(tok, 0, 4),
                    Some(s) if s.ty != 1 => ntf(tok, seq as u8, 5),
                    Some(s) if s.data.len() + d.len() > 0xffff => ntf(tok, seq as u8, 3),
                    Some(s) => {
                        s.data.extend_from_slice(&d);
                        let mut p = u32le(tok).to_vec();
                        p.push(1);
                        msg(MT_NTF, SCTL, 4, &p)
                    }
                };
                self.send(h, m, &["D01", "C02"]);
            }
            2 => {
                let parsed = (|| {
                    let tok = r.u32()?;
                    let st = r.u8()?;
                    r.u64()?;
                    r.u16()?;
                    let n = r.u16()? as usize;
                    r.take(n)?;
                    r.end()?;
                    Some((tok, st))
                })();
                let Some((tok, _)) = parsed else { return };
                self.send(h, ntf(tok, 0, 7), &["D01", "C02"]);
            }
            _ => (),
        }
    }

    fn command(&mut self, h: usize, pkt: &[u8]) -> Option<(Vec<u8>, Tags)> {
        let gid = pkt[0] & 0xf;
        let oid = pkt[1] & 0x3f;
        let mt = pkt[0] >> 5;
        let rsp = |p: &[u8]| msg(MT_RSP, gid, oid, p);
        if mt != MT_CMD || !GROUPS.contains(&gid) {
            let st = if GROUPS.contains(&gid) { ST_UNKNOWN_OID } else { ST_UNKNOWN_GID };
            return Some((rsp(&[st]), vec!["C02"]));
        }
        if !self.devs[&h].is_reset && !(gid == CORE && oid == 0) {
            return Some((msg(MT_NTF, CORE, 1, &[DS_ERROR]), vec!["C03"]));
        }
        if ![CORE, SCFG, SCTL, ANDROID].contains(&gid) {
            let mut m = rsp(&[ST_UNKNOWN_GID]);
            m[1] = pkt[1];
            m[2] = pkt[2];
            return Some((m, vec!["C02"]));
        }
        match self.known(h, gid, oid, &pkt[4..]) {
            Some((p, t)) => Some((rsp(&p), t)),
            None => Some((rsp(&[ST_UNKNOWN_OID]), vec!["C02"])),
        }
    }

    /// Response payload of a well formed supported command, None otherwise.
    fn known(&mut self, h: usize, gid: u8, oid: u8, p: &[u8]) -> Option<(Vec<u8>, Tags)> {
        let mut r = Rd(p);
        let d = self.devs.get_mut(&h).unwrap();
        match (gid, oid) {
            (CORE, 0) => {
                let c = r.u8()?;
                r.end()?;
                if c != 0 {
                    return None;
                }
                let old: Vec<(u32, u8)> = d.sessions.iter().map(|(k, s)| (*k, s.state)).collect();
                d.sessions.clear();
                d.is_reset = true;
                d.low_power = true;
                d.state = DS_READY;
                for (sid, st) in old {
                    if st != SS_DEINIT {
                        self.session_ntf(h, sid, SS_DEINIT, 0);
                    }
                }
                self.later(5, Ev::Send(h, msg(MT_NTF, CORE, 1, &[DS_READY]), vec!["S03", "S04", "C03"]));
                Some((vec![ST_OK], vec!["C03"]))
            }
            (CORE, 2) => {
                r.end()?;
                Some((vec![ST_OK, 0x02, 0x00, 0x01, 0x30, 0x01, 0x30, 0x01, 0x10, 0], vec!["C04"]))
            }
            (CORE, 3) => {
                r.end()?;
                let mut v = vec![ST_OK, CAPS.len() as u8];
                for (t, c) in CAPS {
                    v.push(*t);
                    v.push(c.len() as u8);
                    v.extend_from_slice(c);
                }
                Some((v, vec!["C04"]))
            }
            (CORE, 4) => {
                let params = r.tlvs()?;
                r.end()?;
                if d.state != DS_READY {
                    return Some((vec![ST_REJECTED, 0], vec!["C04"]));
                }
                let mut bad = vec![];
                for (t, v) in params {
                    match t {
                        0 => bad.push([t, ST_READ_ONLY]),
                        1 => d.low_power = v.first().copied().unwrap_or(1) != 0,
                        _ => bad.push([t, ST_INVALID_PARAM]),
                    }
                }
                let st = if bad.is_empty() { ST_OK } else { ST_INVALID_PARAM };
                let mut v = vec![st, bad.len() as u8];
                v.extend_from_slice(&bad.concat());
                Some((v, vec!["C04"]))
            }
            (CORE, 5) => {
                let ids = r.bytes()?;
                r.end()?;
                let bad: Vec<u8> = ids.iter().copied().filter(|i| *i > 1).collect();
                let mut v = vec![];
                if bad.is_empty() {
                    v.extend_from_slice(&[ST_OK, ids.len() as u8]);
                    for i in ids {
                        v.extend_from_slice(&[i, 1, if i == 0 { d.state } else { d.low_power as u8 }]);
                    }
                } else {
                    v.extend_from_slice(&[ST_INVALID_PARAM, bad.len() as u8]);
                    for i in bad {
                        v.extend_from_slice(&[i, 0]);
                    }
                }
                Some((v, vec!["C04"]))
            }
            (SCFG, 0) => {
                let sid = r.u32()?;
                let ty = r.u8()?;
                r.end()?;
                if !SESSION_TYPES.contains(&ty) {
                    return None;
                }
                let st = if d.sessions.len() >= 255 {
                    ST_MAX
                } else if d.sessions.contains_key(&sid) {
                    ST_DUPLICATE
                } else {
                    d.sessions.insert(
                        sid,
                        Sess { state: SS_INIT, ty, seq: 0, cfg: Cfg::new(), data: vec![], task: None },
                    );
                    self.session_ntf(h, sid, SS_INIT, 0);
                    ST_OK
                };
                Some((vec![st], vec!["S02", "S01"]))
            }
            (SCFG, 1) => {
                let sid = r.u32()?;
                r.end()?;
                let st = if d.sessions.remove(&sid).is_some() {
                    self.refresh_dev_state(h);
                    self.session_ntf(h, sid, SS_DEINIT, 0);
                    ST_OK
                } else {
                    ST_NOT_EXIST
                };
                Some((vec![st], vec!["S02", "S01"]))
            }
            (SCFG, 3) => {
                let sid = r.u32()?;
                let tlvs = r.tlvs()?;
                r.end()?;
                if tlvs.iter().any(|t| !app_id_defined(t.0)) {
                    return None;
                }
                let Some(s) = d.sessions.get_mut(&sid) else {
                    return Some((vec![ST_NOT_EXIST, 0], vec!["A02"]));
                };
                if s.ty > 1 {
                    return Some((vec![ST_REJECTED, 0], vec!["A02"]));
                }
                if s.state == SS_ACTIVE && tlvs.iter().any(|t| t.0 == 0x0d) {
                    return Some((vec![ST_ACTIVE, 0], vec!["A02"]));
                }
                if s.state != SS_ACTIVE && s.state != SS_INIT {
                    return Some((vec![ST_REJECTED, 0], vec!["A02"]));
                }
                let mut c = s.cfg.clone();
                let mut bad = vec![];
                for (t, v) in &tlvs {
                    if !c.set(*t, v) {
                        bad.push([*t, ST_INVALID_PARAM]);
                    }
                }
                if !c.mandatory_ok() {
                    return Some((vec![ST_REJECTED, 0], vec!["A02"]));
                }
                if !bad.is_empty() {
                    let mut v = vec![ST_INVALID_PARAM, bad.len() as u8];
                    v.extend_from_slice(&bad.concat());
                    return Some((v, vec!["A02", "A01"]));
                }
                s.cfg = c;
                if s.state == SS_INIT {
                    self.set_sess_state(h, sid, SS_IDLE, 0);
                }
                Some((vec![ST_OK, 0], vec!["A02", "A01"]))
            }
            (SCFG, 4) => {
                let sid = r.u32()?;
                let ids = r.bytes()?;
                r.end()?;
                if ids.iter().any(|i| !app_id_defined(*i)) {
                    return None;
                }
                let Some(s) = d.sessions.get(&sid) else {
                    return Some((vec![ST_NOT_EXIST, 0], vec!["A03"]));
                };
                let vals: Vec<Option<Vec<u8>>> = ids.iter().map(|i| s.cfg.get(*i)).collect();
                if vals.iter().any(|v| v.is_none()) {
                    return Some((vec![ST_FAILED, 0], vec!["A03"]));
                }
                let mut v = vec![ST_OK, ids.len() as u8];
                for (i, x) in ids.iter().zip(vals) {
                    let x = x.unwrap();
                    v.push(*i);
                    v.push(x.len() as u8);
                    v.extend_from_slice(&x);
                }
                Some((v, vec!["A03", "A01"]))
            }
            (SCFG, 5) => {
                r.end()?;
                Some((vec![ST_OK, d.sessions.len() as u8], vec!["S02"]))
            }
            (SCFG, 6) => {
                let sid = r.u32()?;
                r.end()?;
                match d.sessions.get(&sid) {
                    Some(s) => Some((vec![ST_OK, s.state], vec!["S01"])),
                    None => Some((vec![ST_NOT_EXIST, SS_INIT], vec!["S02", "S01"])),
                }
            }
            (SCFG, 7) => self.multicast(h, p),
            (SCTL, 0) => {
                let sid = r.u32()?;
                r.end()?;
                let Some(s) = d.sessions.get_mut(&sid) else {
                    return Some((vec![ST_NOT_EXIST], vec!["S01"]));
                };
                if s.state != SS_IDLE {
                    return Some((vec![ST_NOT_CONFIGURED], vec!["S01"]));
                }
                let iv = s.cfg.interval();
                self.n += 1;
                let task = self.n;
                self.set_sess_state(h, sid, SS_ACTIVE, 0);
                self.devs.get_mut(&h).unwrap().sessions.get_mut(&sid).unwrap().task = Some(task);
                self.period.insert(task, iv);
                self.later(iv, Ev::Range(h, sid, task));
                self.refresh_dev_state(h);
                Some((vec![ST_OK], vec!["S01"]))
            }
            (SCTL, 1) => {
                let sid = r.u32()?;
                r.end()?;
                let Some(s) = d.sessions.get_mut(&sid) else {
                    return Some((vec![ST_NOT_EXIST], vec!["S01"]));
                };
                if s.state != SS_ACTIVE {
                    return Some((vec![ST_ACTIVE], vec!["S01"]));
                }
                self.set_sess_state(h, sid, SS_IDLE, 0);
                self.refresh_dev_state(h);
                Some((vec![ST_OK], vec!["S01"]))
            }
            (SCTL, 3) => {
                let sid = r.u32()?;
                r.end()?;
                match d.sessions.get(&sid) {
                    Some(s) => {
                        let mut v = vec![ST_OK];
                        v.extend_from_slice(&u32le(s.seq));
                        Some((v, vec!["R02"]))
                    }
                    None => Some((vec![ST_NOT_EXIST, 0, 0, 0, 0], vec!["R02"])),
                }
            }
            (ANDROID, 0) => {
                r.end()?;
                Some((vec![0; 17], vec!["C04"]))
            }
            (ANDROID, 1) => {
                r.take(2)?;
                r.end()?;
                Some((vec![ST_OK], vec!["C04"]))
            }
            _ => None,
        }
    }

    fn multicast(&mut self, h: usize, p: &[u8]) -> Option<(Vec<u8>, Tags)> {
        let t: Tags = vec!["M01"];
        let mut r = Rd(p);
        let sid = r.u32()?;
        let action = r.u8()?;
        if action > 3 {
            return None;
        }
        let d = self.devs.get_mut(&h).unwrap();
        let Some(s) = d.sessions.get_mut(&sid) else {
            return Some((vec![ST_NOT_EXIST, 0], t));
        };
        if (s.state != SS_ACTIVE && s.state != SS_IDLE)
            || s.cfg.u8(0x00) != Some(1)
            || s.cfg.u8(0x03) != Some(1)
        {
            return Some((vec![ST_REJECTED, 0], t));
        }
        let entries = (|| {
            let n = r.u8()?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(r.take(2)?.to_vec());
                r.u32()?;
                r.take(match action {
                    2 => 16,
                    3 => 32,
                    _ => 0,
                })?;
            }
            r.end()?;
            Some(v)
        })();
        let Some(entries) = entries else {
            return Some((vec![ST_SYNTAX, 0], t));
        };
        let active = s.state == SS_ACTIVE;
        let mut dst = s.cfg.dst.clone();
        let mut rsp: Vec<Vec<u8>> = vec![];
        let mut ntf: Vec<Vec<u8>> = vec![];
        let mut stops = vec![];
        let mut status = ST_OK;
        let rec = |a: &Vec<u8>, st: u8| vec![a[0], a[1], st];
        for a in &entries {
            if action == 1 {
                if dst.contains(a) {
                    dst.retain(|x| x != a);
                    stops.push(a.clone());
                    ntf.push(rec(a, 0));
                    rsp.push(rec(a, 0));
                } else {
                    status = ST_FAILED;
                    rsp.push(rec(a, 7));
                }
            } else if action >= 2 && s.cfg.u8(0x02) != Some(4) {
                status = ST_FAILED;
            } else if dst.contains(a) {
                status = ST_FAILED;
                rsp.push(rec(a, 8));
            } else if dst.len() >= 8 {
                status = ST_MC_FULL;
                rsp.push(rec(a, 1));
            } else {
                dst.push(a.clone());
                rsp.push(rec(a, 0));
            }
        }
        let attempts = s.cfg.u8(0x2f).unwrap();
        s.cfg.vals.insert(0x05, vec![dst.len() as u8]);
        s.cfg.dst = dst.clone();
        if action == 1 && active {
            let mut m = u32le(sid).to_vec();
            m.push(ntf.len() as u8);
            m.extend_from_slice(&ntf.concat());
            self.later(5, Ev::Send(h, msg(MT_NTF, SCFG, 7, &m), vec!["M01"]));
        }
        if dst.is_empty() && active {
            self.set_sess_state(h, sid, SS_IDLE, 0x33);
            self.refresh_dev_state(h);
        }
        if attempts != 0 {
            for a in stops {
                self.pending_stops.push((a, sid));
            }
        }
        let mut v = vec![status, rsp.len() as u8];
        v.extend_from_slice(&rsp.concat());
        Some((v, t))
    }

    /// Deliver the queued in-band stop requests.
    pub fn flush_stops(&mut self) {
        for (a, sid) in std::mem::take(&mut self.pending_stops) {
            self.stop_ranging(&a, sid);
        }
    }
}
