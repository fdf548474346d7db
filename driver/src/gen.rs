//! Script generators: directed corner cases and seeded random histories.

use crate::exec::*;
use crate::model::*;
use crate::wire;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub fn st(op: Op) -> Step {
    Step { op, tags: vec![] }
}
pub fn stt(op: Op, tags: &[&'static str]) -> Step {
    Step { op, tags: tags.to_vec() }
}
pub fn uci(d: usize, m: Vec<u8>) -> Step {
    st(Op::Uci(d, m, 255))
}
pub fn adv(n: u64) -> Step {
    st(Op::Advance(n))
}

/// A peer's view of a two-device session.
pub struct Role {
    pub dtype: u8,
    pub role: u8,
    pub mac: Vec<u8>,
    pub dst: Vec<Vec<u8>>,
    pub multi: u8,
    pub dur: u32,
}

pub fn cfg_tlvs(r: &Role) -> Vec<(u8, Vec<u8>)> {
    let ext = r.mac.len() == 8;
    let mut v = vec![];
    if ext {
        v.push((0x26, vec![2]));
    }
    v.extend([
        (0x00, vec![r.dtype]),
        (0x11, vec![r.role]),
        (0x03, vec![r.multi]),
        (0x01, vec![2]),
        (0x22, vec![1]),
        (0x06, r.mac.clone()),
        (0x05, vec![r.dst.len() as u8]),
        (0x07, r.dst.concat()),
        (0x09, r.dur.to_le_bytes().to_vec()),
    ]);
    v
}

pub fn controller(mac: &[u8], dst: &[&[u8]]) -> Role {
    Role { dtype: 1, role: 1, mac: mac.to_vec(), dst: dst.iter().map(|d| d.to_vec()).collect(), multi: 1, dur: 20 }
}
pub fn controlee(mac: &[u8], dst: &[&[u8]]) -> Role {
    Role { dtype: 0, role: 0, mac: mac.to_vec(), dst: dst.iter().map(|d| d.to_vec()).collect(), multi: 1, dur: 20 }
}

pub fn boot(n: usize) -> Vec<Step> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(st(Op::Connect));
    }
    v.push(adv(6));
    for d in 0..n {
        v.push(uci(d, wire::reset()));
    }
    v.push(adv(6));
    v
}

pub fn configure(d: usize, sid: u32, ty: u8, r: &Role) -> Vec<Step> {
    vec![uci(d, wire::session_init(sid, ty)), uci(d, wire::set_app(sid, &cfg_tlvs(r)))]
}

fn probe(d: usize, sid: u32, tags: &[&'static str]) -> Vec<Step> {
    vec![
        stt(Op::Uci(d, wire::get_state(sid), 255), tags),
        stt(Op::Uci(d, wire::get_count(), 255), tags),
        stt(Op::Uci(d, wire::ranging_count(sid), 255), tags),
    ]
}
fn probe_cfg(d: usize, sid: u32, tags: &[&'static str]) -> Step {
    let mut ids: Vec<u8> = PARAMS.iter().filter(|p| p.2.is_some()).map(|p| p.0).collect();
    // the mandatory ones only answer once they are set: ask for them separately
    ids.retain(|i| *i != 0x45);
    stt(Op::Uci(d, wire::get_app(sid, &ids), 255), tags)
}
fn probe_dst(d: usize, sid: u32, tags: &[&'static str]) -> Step {
    stt(Op::Uci(d, wire::get_app(sid, &[0x05, 0x07]), 255), tags)
}
fn probe_dev(d: usize, tags: &[&'static str]) -> Step {
    stt(Op::Uci(d, wire::get_config(&[0, 1]), 255), tags)
}

pub const A: [u8; 2] = [0x00, 0x00];
pub const B: [u8; 2] = [0x00, 0x01];
pub const C: [u8; 2] = [0x00, 0x02];

/// Two (or three) devices configured for mutual ranging.
pub fn pair(ty: u8, dur: u32) -> Vec<Step> {
    let mut v = boot(2);
    let mut r0 = controller(&A, &[&B]);
    r0.dur = dur;
    let mut r1 = controlee(&B, &[&A]);
    r1.dur = dur;
    v.extend(configure(0, 7, ty, &r0));
    v.extend(configure(1, 7, ty, &r1));
    v.push(adv(6));
    v
}

pub fn directed() -> Vec<Vec<Step>> {
    let mut all: Vec<Vec<Step>> = vec![];
    // --- lifecycle: every command from every state
    for target in 0..4 {
        for cmd in 0..8 {
            let mut v = boot(1);
            let sid = 5;
            if target >= 1 {
                v.push(uci(0, wire::session_init(sid, 0)));
            }
            if target >= 2 {
                v.push(uci(0, wire::set_app(sid, &cfg_tlvs(&controller(&A, &[&B])))));
            }
            if target >= 3 {
                v.push(uci(0, wire::start(sid)));
            }
            v.push(adv(7));
            v.push(uci(
                0,
                match cmd {
                    0 => wire::session_init(sid, 1),
                    1 => wire::session_deinit(sid),
                    2 => wire::start(sid),
                    3 => wire::stop(sid),
                    4 => wire::set_app(sid, &cfg_tlvs(&controller(&A, &[&B, &C]))),
                    5 => wire::multicast(sid, 1, &[(B, 0)]),
                    6 => wire::reset(),
                    _ => wire::multicast(sid, 0, &[(C, 0)]),
                },
            ));
            v.extend(probe(0, sid, &["S01"]));
            v.push(probe_dev(0, &["S03"]));
            v.push(probe_dst(0, sid, &["M01", "A02"]));
            v.push(adv(45));
            v.extend(probe(0, sid, &["S01", "S02"]));
            v.push(uci(0, wire::start(sid)));
            v.push(adv(30));
            v.push(probe_dev(0, &["S03"]));
            v.push(uci(0, wire::stop(sid)));
            v.push(adv(30));
            v.push(probe_dev(0, &["S03"]));
            v.push(uci(0, wire::session_deinit(sid)));
            v.push(adv(10));
            all.push(v);
        }
    }
    // --- several active sessions: the device leaves ACTIVE with the last one
    for how in 0..4 {
        let mut v = boot(1);
        for sid in [1u32, 2, 3] {
            v.extend(configure(0, sid, 0, &controller(&A, &[&B])));
            v.push(uci(0, wire::start(sid)));
            v.push(adv(3));
        }
        v.push(adv(6));
        for sid in [2u32, 1, 3] {
            v.push(uci(
                0,
                match how {
                    0 => wire::stop(sid),
                    1 => wire::session_deinit(sid),
                    2 => wire::multicast(sid, 1, &[(B, 0)]),
                    _ => if sid == 1 { wire::session_deinit(sid) } else { wire::stop(sid) },
                },
            ));
            v.push(probe_dev(0, &["S03"]));
            v.push(adv(8));
            v.push(probe_dev(0, &["S03"]));
        }
        v.push(adv(50));
        all.push(v);
    }
    // --- session table limits
    {
        let mut v = boot(1);
        for sid in 0..256u32 {
            v.push(uci(0, wire::session_init(sid * 257, 0)));
            if sid > 250 {
                v.push(uci(0, wire::get_count()));
            }
        }
        v.push(uci(0, wire::session_deinit(257 * 3)));
        v.push(uci(0, wire::get_count()));
        v.push(uci(0, wire::session_init(257 * 9, 0)));
        v.push(uci(0, wire::get_count()));
        v.push(uci(0, wire::session_init(257 * 3, 0)));
        v.push(uci(0, wire::session_init(257 * 9, 0)));
        v.push(uci(0, wire::get_count()));
        v.push(adv(7));
        all.push(v);
    }
    // --- duplicate initialisation in every state leaves the session as it was
    for target in 1..4 {
        let mut v = boot(1);
        v.push(uci(0, wire::session_init(5, 1)));
        if target >= 2 {
            v.push(uci(0, wire::set_app(5, &cfg_tlvs(&controller(&A, &[&B])))));
        }
        if target >= 3 {
            v.push(uci(0, wire::start(5)));
            v.push(adv(50));
        }
        v.push(uci(0, wire::data_snd(5, 1, 3, b"abc")));
        v.push(uci(0, wire::session_init(5, 0)));
        v.extend(probe(0, 5, &["S02"]));
        v.push(stt(probe_dst(0, 5, &[]).op, &["S02"]));
        v.push(uci(0, wire::session_init(6, 0)));
        v.push(adv(60));
        v.extend(probe(0, 5, &["S02"]));
        all.push(v);
    }
    // --- refusal before reset, state after reset
    {
        let mut v = vec![st(Op::Connect)];
        for gid in 0..16u8 {
            for oid in 0..12u8 {
                v.push(stt(Op::Uci(0, wire::cmd(gid, oid, &[0; 5]), 255), &["C03"]));
                v.push(stt(Op::Uci(0, wire::cmd(gid, oid, &[]), 255), &["C03"]));
            }
        }
        v.retain(|s| !matches!(&s.op, Op::Uci(_, m, _) if m[0] == 0x20 && m[1] == 0));
        v.push(adv(7));
        v.push(uci(0, wire::reset()));
        v.extend(probe(0, 5, &["C03"]));
        v.push(adv(7));
        all.push(v);
    }
    {
        let mut v = boot(1);
        v.push(uci(0, wire::set_config(&[(1, vec![0])])));
        for sid in 1..6 {
            v.extend(configure(0, sid, 1, &controller(&A, &[&B])));
            if sid > 2 {
                v.push(uci(0, wire::start(sid)));
            }
        }
        v.push(uci(0, wire::session_init(9, 0)));
        v.push(adv(44));
        v.push(uci(0, wire::reset()));
        for sid in 1..6 {
            v.extend(probe(0, sid, &["C03"]));
        }
        v.push(probe_dev(0, &["C03"]));
        v.push(adv(60));
        v.push(probe_dev(0, &["C03"]));
        v.extend(configure(0, 3, 1, &controller(&A, &[&B])));
        v.push(probe_cfg(0, 3, &["C03"]));
        v.push(uci(0, wire::start(3)));
        v.push(adv(60));
        v.push(uci(0, wire::stop(3)));
        v.push(adv(7));
        all.push(v);
    }
    // --- every opcode of every group, malformed payloads of every length
    {
        for len in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 30] {
            for active in [false, true] {
                let mut v = boot(1);
                v.extend(configure(0, 1, 0, &controller(&A, &[&B])));
                if active {
                    v.push(uci(0, wire::start(1)));
                }
                for gid in 0..16u8 {
                    for oid in 0..64u8 {
                        if gid == 0 && oid == 0 {
                            continue;
                        }
                        let mut p = vec![0u8; len];
                        if len > 0 {
                            p[0] = 1;
                        }
                        v.push(uci(0, wire::cmd(gid, oid, &p)));
                    }
                }
                v.push(adv(10));
                v.push(uci(0, wire::cmd(0, 0, &vec![0; len])));
                v.push(uci(0, wire::get_count()));
                v.push(adv(10));
                all.push(v);
            }
        }
        // reserved header bits, response and notification types
        let mut v = boot(1);
        for b0 in 0..=255u8 {
            for inj in [true, false] {
                if !inj && (b0 >> 5 > 3 || (b0 & 0x10 != 0 && b0 >> 5 != 0)) {
                    continue;
                }
                let p = vec![b0, 0x45, 0x12, 0, 1];
                v.push(st(if inj { Op::InjUci(0, p) } else { Op::Raw(0, p) }));
            }
        }
        v.push(adv(7));
        all.push(v);
    }
    // --- short and unusual packets
    for n in 0..6usize {
        let mut v = boot(2);
        for b0 in [0x20u8, 0x21, 0x2c, 0x00, 0x01, 0x2f, 0x28] {
            let mut p = vec![b0; n];
            if n > 1 {
                p[1] = 0;
            }
            v.push(st(Op::InjUci(0, p.clone())));
            v.push(st(Op::InjUci(99, p)));
        }
        v.push(st(Op::Raw(0, vec![0x20; n])));
        v.push(uci(1, wire::get_count()));
        v.push(adv(6));
        v.push(uci(0, wire::get_count()));
        all.push(v);
    }
    {
        let mut v = boot(2);
        v.push(st(Op::Raw(0, vec![0x31, 3, 0, 2, 0, 0])));
        v.push(st(Op::Raw(0, vec![0x31, 3])));
        v.push(uci(1, wire::get_count()));
        all.push(v);
    }
    // --- commands that are only legal when the device is ready
    {
        let mut v = boot(1);
        v.push(uci(0, wire::set_config(&[(0, vec![1]), (1, vec![0]), (2, vec![]), (1, vec![]), (0xff, vec![1, 2])])));
        for ids in [vec![], vec![0], vec![1], vec![1, 0, 1], vec![2, 1], vec![0, 255, 7, 1], vec![0; 255]] {
            v.push(uci(0, wire::get_config(&ids)));
        }
        for b in [0u8, 1, 2, 255] {
            v.push(uci(0, wire::set_config(&[(1, vec![b, 0])])));
            v.push(uci(0, wire::get_config(&[1])));
        }
        v.push(uci(0, wire::cmd(0, 2, &[])));
        v.push(uci(0, wire::cmd(0, 3, &[])));
        v.extend(configure(0, 1, 0, &controller(&A, &[&B])));
        v.push(uci(0, wire::start(1)));
        v.push(uci(0, wire::cmd(0, 2, &[])));
        v.push(uci(0, wire::cmd(0, 3, &[])));
        v.push(uci(0, wire::set_config(&[(1, vec![0])])));
        v.push(probe_dev(0, &["C04"]));
        v.push(uci(0, wire::cmd(0xc, 0, &[])));
        v.push(uci(0, wire::cmd(0xc, 1, &[b'U', b'S'])));
        v.push(adv(20));
        all.push(v);
    }
    // --- session types
    for ty in 0..=255u8 {
        if ty > 8 && !SESSION_TYPES.contains(&ty) && ty % 37 != 0 {
            continue;
        }
        let mut v = boot(1);
        v.push(uci(0, wire::session_init(1, ty)));
        v.extend(probe(0, 1, &["S02"]));
        v.push(uci(0, wire::set_app(1, &cfg_tlvs(&controller(&A, &[&B])))));
        v.push(uci(0, wire::start(1)));
        v.push(uci(0, wire::data_snd(1, 1, 300, b"xyz")));
        v.push(adv(30));
        v.push(uci(0, wire::session_deinit(1)));
        v.push(adv(7));
        all.push(v);
    }
    // --- APP configuration: every parameter with every value length, boundary values
    {
        for (id, _, _) in PARAMS.iter().chain([(0x1cu8, Kind::Bytes, None), (0x3d, Kind::Bytes, None), (0x4d, Kind::Bytes, None), (0xa0, Kind::Bytes, None), (0xe3, Kind::Bytes, None), (0xe9, Kind::Bytes, None), (0xff, Kind::Bytes, None), (0x9f, Kind::Bytes, None)].iter()) {
            let mut v = boot(1);
            v.extend(configure(0, 1, 0, &controller(&A, &[&B])));
            // reconfiguration is accepted while active; a long interval keeps the round out of the way
            v.push(uci(0, wire::session_init(2, 0)));
            let mut r = controller(&A, &[&B]);
            r.dur = 100_000;
            v.push(uci(0, wire::set_app(2, &cfg_tlvs(&r))));
            v.push(uci(0, wire::start(2)));
            v.push(adv(7));
            let mut vals: Vec<Vec<u8>> = vec![];
            for b in 0..=16u8 {
                vals.push(vec![b]);
            }
            vals.push(vec![0xff]);
            vals.push(vec![0x80]);
            for n in [0usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 200, 255] {
                vals.push((0..n).map(|i| (i * 7 + 1) as u8).collect());
            }
            for x in vals {
                v.push(uci(0, wire::set_app(2, &[(*id, x)])));
                v.push(stt(Op::Uci(0, wire::get_app(2, &[*id]), 255), &["A01"]));
            }
            v.push(probe_cfg(0, 2, &["A01"]));
            all.push(v);
        }
        // frame: setting one parameter leaves every other one alone
        for (id, kind, _) in PARAMS {
            let x = match kind {
                Kind::Enum(o) | Kind::Opt(o) => vec![o[o.len() - 1]],
                Kind::U(n) | Kind::Arr(n) => (0..*n).map(|i| (0x31 + i) as u8).collect(),
                Kind::UwbTime => vec![1, 2, 3, 4],
                Kind::Bytes => vec![1, 2, 3],
                Kind::SubKey => vec![5; 16],
                Kind::Mac => vec![0xaa, 0xbb],
                Kind::Dst => vec![0xcc, 0xdd],
            };
            let mut v = boot(1);
            v.push(uci(0, wire::session_init(2, 0)));
            v.push(probe_cfg(0, 2, &["A01"]));
            for m in [0x00u8, 0x01, 0x03, 0x06, 0x11, 0x22] {
                v.push(stt(Op::Uci(0, wire::get_app(2, &[m]), 255), &["A01"]));
            }
            let mut r = controller(&A, &[&B]);
            r.dur = 100_000;
            v.push(uci(0, wire::set_app(2, &cfg_tlvs(&r))));
            v.push(uci(0, wire::start(2)));
            v.push(adv(7));
            v.push(uci(0, wire::set_app(2, &[(*id, x.clone())])));
            v.push(probe_cfg(0, 2, &["A01"]));
            v.push(stt(Op::Uci(0, wire::get_app(2, &[0, 1, 3, 6, 0x11, 0x22]), 255), &["A01"]));
            v.push(uci(0, wire::set_app(2, &[(*id, [x.clone(), vec![1; 40]].concat())])));
            v.push(probe_cfg(0, 2, &["A01"]));
            all.push(v);
        }
        // mandatory parameters, one missing at a time; all-or-nothing application
        let full = cfg_tlvs(&controller(&A, &[&B]));
        for k in 0..full.len() {
            let mut v = boot(1);
            v.push(uci(0, wire::session_init(1, 1)));
            let mut part = full.clone();
            let gone = part.remove(k);
            v.push(uci(0, wire::set_app(1, &part)));
            v.extend(probe(0, 1, &["A02"]));
            v.push(stt(probe_cfg(0, 1, &[]).op, &["A02"]));
            v.push(uci(0, wire::set_app(1, &[gone.clone()])));
            v.extend(probe(0, 1, &["A02"]));
            v.push(stt(probe_cfg(0, 1, &[]).op, &["A02"]));
            v.push(adv(3));
            all.push(v);
            // one bad value among good ones
            let mut v = boot(1);
            v.push(uci(0, wire::session_init(1, 1)));
            let mut part = full.clone();
            part.insert(k, (0x0e, vec![99]));
            part.push((0x3d, vec![]));
            part.push((0x04, vec![7]));
            v.push(uci(0, wire::set_app(1, &part)));
            v.extend(probe(0, 1, &["A02"]));
            v.push(stt(probe_cfg(0, 1, &[]).op, &["A02"]));
            v.push(uci(0, wire::get_app(1, &[0x11])));
            v.push(uci(0, wire::set_app(1, &full)));
            v.extend(probe(0, 1, &["A02"]));
            v.push(uci(0, wire::set_app(1, &full)));
            v.extend(probe(0, 1, &["A02"]));
            v.push(uci(0, wire::start(1)));
            v.push(uci(0, wire::set_app(1, &[(0x0d, vec![0])])));
            v.push(uci(0, wire::set_app(1, &[(0x08, vec![1, 1]), (0x0d, vec![9])])));
            v.push(uci(0, wire::set_app(1, &[(0x08, vec![1, 1]), (0x02, vec![9])])));
            v.push(stt(probe_cfg(0, 1, &[]).op, &["A02"]));
            v.push(uci(0, wire::set_app(1, &[(0x08, vec![1, 1]), (0x02, vec![3])])));
            v.push(stt(probe_cfg(0, 1, &[]).op, &["A02"]));
            v.push(adv(3));
            all.push(v);
        }
        // addresses modes
        let mut v = boot(1);
        v.push(uci(0, wire::session_init(1, 1)));
        for mode in [0u8, 1, 2] {
            for n in [0usize, 1, 2, 4, 8, 16, 24] {
                for noc in [0u8, 1, 2, 3] {
                    let mut t = full.clone();
                    t.push((0x05, vec![noc]));
                    t.push((0x26, vec![mode]));
                    t.push((0x06, vec![1; n]));
                    t.push((0x07, vec![2; n]));
                    v.push(uci(0, wire::set_app(1, &t)));
                    v.push(uci(0, wire::get_app(1, &[0x26, 0x05, 0x07])));
                }
            }
        }
        all.push(v);
        // reads
        let mut v = boot(1);
        v.extend(configure(0, 1, 1, &controller(&A, &[&B, &C])));
        v.push(uci(0, wire::session_init(2, 1)));
        for s in [1u32, 2, 3] {
            for ids in [vec![], vec![5], vec![7, 7, 5], vec![0, 1, 2, 3], vec![0x3d], vec![5, 0x3d, 7], vec![0xa0], (0..=0x1b).collect::<Vec<u8>>(), vec![7; 255]] {
                v.push(uci(0, wire::get_app(s, &ids)));
            }
        }
        all.push(v);
    }
    // --- multicast list
    for active in [false, true] {
        for attempts in [0u8, 1, 3] {
            let mut v = boot(3);
            let mut r = controller(&A, &[&B]);
            r.dur = 20;
            let mut t = cfg_tlvs(&r);
            t.push((0x2f, vec![attempts]));
            v.push(uci(0, wire::session_init(7, 0)));
            v.push(uci(0, wire::set_app(7, &t)));
            for d in 1..3 {
                let m = [0, d as u8];
                v.extend(configure(d, 7, 0, &controlee(&m, &[&A])));
                v.push(uci(d, wire::start(7)));
            }
            if active {
                v.push(uci(0, wire::start(7)));
            }
            v.push(adv(45));
            v.push(uci(0, wire::multicast(7, 0, &[(C, 1), (B, 2), ([9, 9], 3)])));
            v.push(probe_dst(0, 7, &["M01"]));
            v.push(adv(45));
            v.push(uci(0, wire::multicast(7, 0, &(0..9).map(|i| ([1, i], 0)).collect::<Vec<_>>())));
            v.push(probe_dst(0, 7, &["M01"]));
            v.push(uci(0, wire::multicast(7, 1, &[([1, 0], 1), ([5, 5], 0), ([1, 0], 3)])));
            v.push(probe_dst(0, 7, &["M01"]));
            v.push(adv(10));
            v.push(uci(0, wire::multicast(7, 2, &[([2, 2], 1)])));
            v.push(uci(0, wire::multicast(7, 3, &[([2, 3], 1)])));
            v.push(probe_dst(0, 7, &["M01"]));
            v.push(uci(0, wire::multicast(7, 1, &[(B, 1)])));
            for d in 0..3 {
                v.extend(probe(d, 7, &["R03"]));
                v.push(probe_dev(d, &["R03", "S03"]));
            }
            v.push(adv(45));
            v.push(uci(0, wire::multicast(7, 1, &[(C, 1), ([9, 9], 0), ([1, 1], 0), ([1, 2], 0), ([1, 3], 0), ([1, 4], 0), ([1, 5], 0)])));
            v.push(probe_dst(0, 7, &["M01"]));
            for d in 0..3 {
                v.extend(probe(d, 7, &["M01", "R03"]));
                v.push(probe_dev(d, &["M01", "S03"]));
            }
            v.push(adv(45));
            v.push(uci(0, wire::start(7)));
            v.push(adv(45));
            v.push(uci(0, wire::multicast(7, 0, &[(B, 1)])));
            v.push(probe_dst(0, 7, &["M01"]));
            v.push(adv(45));
            all.push(v);
        }
    }
    for sts in 0..5u8 {
        for action in 0..5u8 {
            let mut v = boot(1);
            let mut t = cfg_tlvs(&controller(&A, &[&B]));
            t.push((0x02, vec![sts]));
            v.push(uci(0, wire::session_init(7, 0)));
            v.push(uci(0, wire::set_app(7, &t)));
            v.push(uci(0, wire::multicast(7, action, &[(C, 1), (B, 5), (C, 0)])));
            v.push(probe_dst(0, 7, &["M01"]));
            v.push(uci(0, wire::multicast(7, action, &[])));
            // truncated and over-long entry lists
            let m = wire::multicast(7, action, &[(C, 1), (B, 5)]);
            for cut in [5usize, 9, 10, 11, 15, m.len() - 1] {
                if cut < m.len() {
                    v.push(uci(0, m[..cut].to_vec()));
                }
            }
            v.push(uci(0, [m, vec![0]].concat()));
            v.push(probe_dst(0, 7, &["M01"]));
            all.push(v);
        }
    }
    {
        // lists longer than eight configured through SET_APP_CONFIG
        for n in [8usize, 9, 127] {
            let mut v = boot(1);
            let dst: Vec<[u8; 2]> = (0..n).map(|i| [3, i as u8]).collect();
            let d: Vec<&[u8]> = dst.iter().map(|x| &x[..]).collect();
            v.extend(configure(0, 7, 0, &controller(&A, &d)));
            v.push(uci(0, wire::multicast(7, 0, &[(B, 1), ([3, 1], 2), (C, 1)])));
            v.push(probe_dst(0, 7, &["M01"]));
            v.push(uci(0, wire::multicast(7, 1, &[([3, 1], 2)])));
            v.push(probe_dst(0, 7, &["M01"]));
            all.push(v);
        }
        // a duplicate in the configured list, device type / node mode gate
        let mut v = boot(1);
        v.extend(configure(0, 7, 0, &controller(&A, &[&B, &C, &B])));
        v.push(uci(0, wire::multicast(7, 1, &[(B, 2)])));
        v.push(probe_dst(0, 7, &["M01"]));
        all.push(v);
        for dt in 0..2 {
            for mn in 0..2 {
                let mut v = boot(1);
                let mut r = controller(&A, &[&B]);
                r.dtype = dt;
                r.multi = mn;
                v.extend(configure(0, 7, 0, &r));
                v.push(uci(0, wire::multicast(7, 0, &[(C, 2)])));
                v.push(probe_dst(0, 7, &["M01"]));
                all.push(v);
            }
        }
    }
    // --- ranging
    for ty in [0u8, 1] {
        let mut v = pair(ty, 20);
        v.push(st(Op::Anchor(vec![0x55, 0x66])));
        v.push(uci(0, wire::start(7)));
        v.push(adv(41));
        v.push(uci(1, wire::start(7)));
        v.push(adv(41));
        for d in 0..2 {
            v.extend(probe(d, 7, &["R02"]));
        }
        v.push(uci(0, wire::data_snd(7, 1, 2, b"hello")));
        v.push(uci(0, wire::data_snd(7, 1, 3, b" world")));
        v.push(uci(1, wire::data_snd(7, 1, 3, b"reverse")));
        v.push(adv(41));
        v.push(st(Op::Estimate(0, 1, None)));
        v.push(adv(41));
        v.push(st(Op::Estimate(0, 1, Some((5, -6, -7)))));
        v.push(st(Op::Estimate(1, 0, Some((65535, -32768, -128)))));
        v.push(adv(41));
        v.push(uci(0, wire::set_app(7, &[(0x0e, vec![0])])));
        v.push(adv(41));
        for d in 0..2 {
            v.extend(probe(d, 7, &["R02"]));
        }
        v.push(uci(0, wire::set_app(7, &[(0x0e, vec![2])])));
        v.push(adv(41));
        v.push(uci(1, wire::stop(7)));
        v.push(adv(41));
        v.push(uci(1, wire::start(7)));
        v.push(adv(41));
        v.push(uci(0, wire::stop(7)));
        v.push(adv(41));
        for d in 0..2 {
            v.extend(probe(d, 7, &["R02"]));
        }
        v.push(uci(0, wire::start(7)));
        v.push(adv(41));
        v.push(uci(0, wire::session_deinit(7)));
        v.push(adv(41));
        v.push(uci(0, wire::session_init(7, ty)));
        v.extend(probe(0, 7, &["R02"]));
        v.push(st(Op::Disconnect(1)));
        v.push(adv(41));
        all.push(v);
    }
    {
        // anchors in and out of the destination list, repeated entries
        let mut v = boot(1);
        v.push(st(Op::Anchor(vec![9, 1])));
        v.push(st(Op::Anchor(vec![9, 2])));
        v.push(st(Op::Anchor(vec![9, 3])));
        v.push(st(Op::Anchor(vec![9, 4, 0, 0, 0, 0, 0, 0])));
        v.extend(configure(0, 7, 0, &controller(&A, &[&[9, 1], &[9, 2], &[8, 8], &[9, 1]])));
        v.push(uci(0, wire::start(7)));
        v.push(adv(41));
        v.push(st(Op::Estimate(0, 2, None)));
        v.push(adv(41));
        v.push(st(Op::Estimate(1, 0, None)));
        v.push(adv(41));
        v.push(st(Op::Unanchor(vec![9, 2])));
        v.push(st(Op::Anchor(vec![9, 2])));
        v.push(adv(41));
        v.push(st(Op::Unanchor(vec![9, 2])));
        v.push(adv(41));
        all.push(v);
        // eight destinations with eight anchors: notification longer than one fragment
        let mut v = boot(1);
        let macs: Vec<[u8; 2]> = (0..20).map(|i| [9, i]).collect();
        for m in &macs {
            v.push(st(Op::Anchor(m.to_vec())));
        }
        let d: Vec<&[u8]> = macs.iter().map(|x| &x[..]).collect();
        v.extend(configure(0, 7, 0, &controller(&A, &d)));
        v.push(uci(0, wire::start(7)));
        v.push(adv(41));
        all.push(v);
        // extended addresses
        let x: [u8; 8] = [1, 2, 3, 4, 5, 6, 7, 8];
        let y: [u8; 8] = [1, 2, 3, 4, 5, 6, 7, 9];
        let mut v = boot(2);
        v.push(st(Op::Anchor(y.to_vec())));
        v.extend(configure(0, 7, 1, &controller(&x, &[&y])));
        v.extend(configure(1, 7, 1, &controlee(&y, &[&x])));
        v.push(uci(0, wire::start(7)));
        v.push(adv(41));
        v.push(uci(1, wire::start(7)));
        v.push(uci(0, wire::data_snd(7, 1, 2, b"hello")));
        v.push(adv(41));
        all.push(v);
    }
    // pairing rules: role, type, address lists, session id, session state
    for k in 0..7 {
        let mut v = boot(2);
        let mut r0 = controller(&A, &[&B]);
        let mut r1 = controlee(&B, &[&A]);
        let mut sid1 = 7;
        match k {
            0 => r1.role = 1,
            1 => r1.dtype = 1,
            2 => r1.dst = vec![C.to_vec()],
            3 => r0.dst = vec![C.to_vec()],
            4 => sid1 = 8,
            5 => r1.mac = C.to_vec(),
            _ => (),
        }
        v.extend(configure(0, 7, 1, &r0));
        v.extend(configure(1, sid1, 1, &r1));
        v.push(uci(0, wire::start(7)));
        if k != 6 {
            v.push(uci(1, wire::start(sid1)));
        }
        v.push(uci(0, wire::data_snd(7, 1, 2, b"hello")));
        v.push(adv(50));
        all.push(v);
    }
    // stale and foreign in-band commands
    {
        let mut v = pair(1, 20);
        for h in [0usize, 1, 2, 77] {
            for s in [7u32, 8] {
                v.push(st(Op::InjRanging(h, s)));
            }
        }
        for m in [&A, &B, &C] {
            for s in [7u32, 8] {
                v.push(st(Op::InjStop(m.to_vec(), s)));
            }
        }
        v.push(uci(0, wire::start(7)));
        v.push(uci(1, wire::start(7)));
        v.push(adv(30));
        v.push(st(Op::InjRanging(0, 7)));
        v.push(st(Op::InjRanging(1, 7)));
        v.push(st(Op::InjStop(A.to_vec(), 8)));
        v.push(st(Op::InjStop(C.to_vec(), 7)));
        v.push(st(Op::InjStop(B.to_vec(), 7)));
        for d in 0..2 {
            v.extend(probe(d, 7, &["R03"]));
            v.push(probe_dev(d, &["R03"]));
        }
        v.push(st(Op::InjRanging(1, 7)));
        v.push(adv(50));
        v.push(uci(1, wire::start(7)));
        v.push(adv(50));
        v.push(uci(0, wire::session_deinit(7)));
        v.push(st(Op::InjRanging(0, 7)));
        v.push(st(Op::Disconnect(1)));
        v.push(st(Op::InjRanging(1, 7)));
        v.push(adv(20));
        all.push(v);
    }
    {
        // a stopped session among several active ones
        let mut v = boot(2);
        for sid in [7u32, 8] {
            v.extend(configure(0, sid, 0, &controller(&A, &[&B])));
            v.extend(configure(1, sid, 0, &controlee(&B, &[&A])));
            v.push(uci(0, wire::start(sid)));
            v.push(uci(1, wire::start(sid)));
        }
        v.push(adv(30));
        v.push(uci(0, wire::multicast(7, 1, &[(B, 0)])));
        for d in 0..2 {
            for s in [7, 8] {
                v.extend(probe(d, s, &["R03"]));
            }
            v.push(probe_dev(d, &["R03"]));
        }
        v.push(adv(30));
        v.push(uci(0, wire::multicast(8, 1, &[(B, 0)])));
        for d in 0..2 {
            for s in [7, 8] {
                v.extend(probe(d, s, &["R03"]));
            }
            v.push(probe_dev(d, &["R03"]));
        }
        v.push(adv(30));
        all.push(v);
    }
    // --- data transfer
    {
        let mut v = pair(1, 20);
        v.extend(boot(0));
        v.push(st(Op::Connect));
        v.push(uci(2, wire::reset()));
        v.extend(configure(2, 7, 1, &controlee(&C, &[&A])));
        for d in 0..3 {
            v.push(uci(d, wire::start(7)));
        }
        for n in [0usize, 1, 255, 256, 1023, 1024, 1025, 2048, 5000, 65535] {
            let data: Vec<u8> = (0..n).map(|i| (i * 13 + 5) as u8).collect();
            v.push(st(Op::Uci(0, wire::data_snd(7, 1, n as u16, &data), 1 << 20)));
            v.push(adv(20));
        }
        v.push(st(Op::Uci(0, wire::data_snd(7, 1, 1, &[7; 60000]), 1 << 20)));
        v.push(st(Op::Uci(0, wire::data_snd(7, 1, 1, &[7; 5536]), 1 << 20)));
        v.push(adv(20));
        v.push(st(Op::Uci(0, wire::data_snd(7, 1, 1, &[8; 10]), 1 << 20)));
        v.push(adv(41));
        let ok = wire::data_snd(7, 1, 0x1ff, b"abcdef");
        for cut in [4usize, 5, 8, 12, 19, 20, 21, ok.len() - 1] {
            v.push(uci(0, ok[..cut].to_vec()));
        }
        v.push(uci(0, [ok.clone(), vec![1]].concat()));
        for b0 in 0..32u8 {
            let mut m = ok.clone();
            m[0] = b0;
            v.push(uci(0, m));
        }
        let mut rcv = vec![0x02, 0, 17, 0];
        rcv.extend_from_slice(&[7, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 1, 0, 0, 0]);
        v.push(uci(0, rcv.clone()));
        v.push(uci(0, rcv[..10].to_vec()));
        v.push(uci(0, wire::data_snd(99, 1, 0x1ff, b"abcdef")));
        v.push(adv(41));
        v.push(uci(0, wire::stop(7)));
        v.push(uci(0, wire::data_snd(7, 1, 9, b"kept until started")));
        v.push(adv(41));
        v.push(uci(0, wire::start(7)));
        v.push(adv(41));
        v.push(uci(2, wire::stop(7)));
        v.push(uci(0, wire::data_snd(7, 1, 9, b"only one")));
        v.push(adv(41));
        all.push(v);
        let mut v = pair(1, 20);
        for d in 0..2 {
            v.push(uci(d, wire::start(7)));
        }
        v.push(st(Op::SinkClose(1)));
        v.push(uci(0, wire::data_snd(7, 1, 9, b"gone")));
        v.push(adv(60));
        v.push(uci(0, wire::get_count()));
        all.push(v);
    }
    // --- host fragmentation
    for max in [1usize, 2, 3, 7, 100, 254, 255] {
        let mut v = boot(2);
        v.push(uci(0, wire::session_init(1, 1)));
        let t = [cfg_tlvs(&controller(&A, &[&B])), vec![(0x45, (0..255).map(|i| i as u8).collect())], vec![(0x45, vec![3; 255])], vec![(0x28, vec![3; 6])]].concat();
        v.push(st(Op::Uci(0, wire::set_app(1, &t), max)));
        v.push(stt(Op::Uci(0, wire::get_app(1, &[0x45, 0x28, 0x07]), max), &["W02"]));
        v.push(st(Op::Uci(0, wire::start(1), max)));
        v.push(st(Op::Uci(1, wire::get_count(), max)));
        // interrupted message of one device does not leak into another one
        v.push(st(Op::Raw(0, vec![0x31, 4, 0, 2, 1, 0])));
        v.push(uci(1, wire::get_count()));
        v.push(st(Op::Raw(0, vec![0x21, 4, 0, 4, 0, 0, 1, 7])));
        for k in [0usize, 1, 3, 6, 60] {
            let ids = vec![0x45u8; k];
            v.push(st(Op::Uci(0, wire::get_app(1, &ids), max)));
        }
        v.push(adv(25));
        all.push(v);
    }
    // data packets in between the fragments of a control packet
    for sid in [1u32, 7] {
        for pbf in [0u8, 0x10] {
            let mut v = boot(2);
            v.push(uci(0, wire::session_init(1, 1)));
            v.push(uci(0, wire::set_app(1, &cfg_tlvs(&controller(&A, &[&B])))));
            v.push(uci(0, wire::start(1)));
            let mut d = wire::data_snd(sid, 1, 9, b"between");
            d[0] |= pbf;
            v.push(stt(Op::Raw(0, vec![0x31, 4, 0, 2, 1, 0]), &["W02"]));
            v.push(stt(Op::Raw(0, d.clone()), &["W02"]));
            v.push(stt(Op::Raw(0, vec![0x31, 4, 0, 2, 0, 0]), &["W02"]));
            v.push(stt(Op::Raw(0, d.clone()), &["W02"]));
            v.push(stt(Op::Raw(0, d), &["W02"]));
            v.push(stt(Op::Raw(0, vec![0x21, 4, 0, 2, 1, 7]), &["W02"]));
            v.push(uci(0, wire::get_app(1, &[0x45])));
            v.push(uci(1, wire::get_count()));
            v.push(adv(60));
            all.push(v);
        }
    }
    // response payload sizes around the fragment size
    for n in [240usize, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255] {
        let mut v = boot(1);
        v.extend(vec![uci(0, wire::session_init(1, 1))]);
        v.push(st(Op::Uci(0, wire::set_app(1, &[cfg_tlvs(&controller(&A, &[&B])), vec![(0x45, vec![7; n])]].concat()), 255)));
        for k in 1..4 {
            v.push(uci(0, wire::get_app(1, &vec![0x45; k])));
        }
        v.push(uci(0, wire::get_app(1, &[0x45, 0x05])));
        all.push(v);
    }
    // --- anchors and handles
    {
        let mut v = vec![];
        for m in [vec![0, 0], vec![0, 1], vec![0, 2], vec![7, 7], vec![7, 7], vec![0, 2, 0, 0, 0, 0, 0, 0], vec![0, 6]] {
            v.push(st(Op::Anchor(m)));
        }
        for _ in 0..4 {
            v.push(st(Op::Connect));
        }
        v.push(adv(7));
        for m in [vec![0, 3], vec![0, 7], vec![0, 8], vec![0, 9], vec![0, 10], vec![0, 11]] {
            v.push(st(Op::Anchor(m)));
        }
        for m in [vec![7, 7], vec![7, 7], vec![0, 0], vec![0, 7], vec![0, 8]] {
            v.push(st(Op::Unanchor(m)));
        }
        v.push(st(Op::Disconnect(0)));
        v.push(st(Op::Anchor(vec![0, 7])));
        v.push(st(Op::Connect));
        v.push(st(Op::Connect));
        v.push(st(Op::Disconnect(1)));
        v.push(st(Op::Connect));
        v.push(st(Op::Anchor(vec![0, 7])));
        v.push(adv(7));
        for d in 0..7 {
            v.push(uci(d, wire::reset()));
        }
        v.push(adv(7));
        all.push(v);
    }
    // --- disconnection with sessions running, reconnection
    {
        let mut v = pair(1, 20);
        v.push(uci(0, wire::start(7)));
        v.push(uci(1, wire::start(7)));
        v.push(adv(30));
        v.push(st(Op::Disconnect(0)));
        v.push(adv(60));
        v.extend(probe(1, 7, &["P02"]));
        v.push(st(Op::Connect));
        v.push(uci(2, wire::reset()));
        v.extend(probe(2, 7, &["P02"]));
        v.push(adv(60));
        all.push(v);
    }
    // --- isolation: the same session identifiers on three devices
    {
        let mut v = boot(3);
        for d in 0..3 {
            let m = [0, d as u8];
            v.extend(configure(d, 7, 1, &controller(&m, &[&[0x77, d as u8]])));
            v.push(uci(d, wire::start(7)));
        }
        v.push(adv(30));
        for m in [
            wire::multicast(7, 0, &[([9, 9], 0)]),
            wire::set_app(7, &[(0x08, vec![9, 9])]),
            wire::data_snd(7, 0, 1, b"q"),
            wire::stop(7),
            wire::session_deinit(7),
            wire::reset(),
        ] {
            v.push(uci(0, m));
            for d in 1..3 {
                v.extend(probe(d, 7, &["P02"]));
                v.push(stt(probe_cfg(d, 7, &[]).op, &["P02"]));
                v.push(probe_dev(d, &["P02"]));
            }
            v.push(adv(21));
        }
        all.push(v);
    }
    all
}

/// A random history. `focus` biases the choice of operations.
pub fn random(r: &mut Rng, len: usize) -> Vec<Step> {
    let nd = 1 + r.below(4);
    let mut v = boot(nd);
    let mut nconn = nd;
    let sids = [7u32, 8, 0x01020304];
    let macs: Vec<Vec<u8>> = vec![vec![0, 0], vec![0, 1], vec![0, 2], vec![0, 3], vec![9, 9], vec![0x12, 0x34]];
    let durs = [5u32, 10, 20, 33];
    let mode = r.below(6);
    for _ in 0..len {
        let d = r.below(nconn);
        let ns = if r.chance(70) { 1 } else { 3 };
        let sid = if r.chance(85) { sids[r.below(ns)] } else { r.next() as u32 };
        let focus = if r.chance(45) { mode } else { 9 };
        let k = match focus {
            0 => 14 + r.below(4),           // multicast
            1 => r.pick(&[20, 21, 22, 60]), // data
            2 => r.pick(&[8, 9, 10, 11, 30, 31]),
            3 => r.pick(&[0, 2, 4, 40, 41, 60]),
            4 => r.pick(&[4, 5, 6, 7, 31]),
            _ => r.below(64),
        };
        let step = match k {
            0 | 1 => uci(d, wire::session_init(sid, if r.chance(85) { {let b = r.below(2); b as u8} } else { r.pick(SESSION_TYPES) })),
            2 | 3 => uci(d, wire::session_deinit(sid)),
            4..=7 | 24..=29 => {
                let pairno = d ^ 1;
                let mut role = if d % 2 == 0 { controller(&[0, d as u8], &[&[0, pairno as u8]]) } else { controlee(&[0, d as u8], &[&[0, pairno as u8]]) };
                role.dur = r.pick(&durs);
                if r.chance(30) {
                    role.dst = (0..r.below(4)).map(|_| r.pick(&macs)).collect();
                }
                if r.chance(10) {
                    role.role = r.pick(&[0, 1, 5, 6]);
                }
                if r.chance(10) {
                    role.multi = 0;
                }
                let mut t = cfg_tlvs(&role);
                if r.chance(20) {
                    t.remove(r.below(t.len()));
                }
                if r.chance(30) {
                    let (id, _, _) = PARAMS[r.below(PARAMS.len())];
                    if id != 0x09 && id != 0x26 {
                        let n = r.pick(&[1usize, 1, 1, 2, 4, 8]);
                        let mut b = r.bytes(n);
                        if r.chance(60) {
                            b[0] %= 8;
                        }
                        t.push((id, b));
                    }
                }
                uci(d, wire::set_app(sid, &t))
            }
            8 | 9 => {
                // sparse update of an active session
                let n = 1 + r.below(3);
                let mut t = vec![];
                for _ in 0..n {
                    let (id, kind, _) = PARAMS[r.below(PARAMS.len())];
                    if id == 0x09 || id == 0x26 {
                        continue;
                    }
                    let b = match kind {
                        Kind::Enum(o) | Kind::Opt(o) if r.chance(80) => vec![r.pick(o)],
                        Kind::U(n) | Kind::Arr(n) if r.chance(80) => r.bytes(n),
                        Kind::Mac | Kind::Dst if r.chance(80) => r.pick(&macs),
                        _ => {
                            let n = r.below(10);
                            r.bytes(n)
                        }
                    };
                    t.push((id, b));
                }
                uci(d, wire::set_app(sid, &t))
            }
            10 | 11 => {
                let n = 1 + r.below(6);
                let ids: Vec<u8> = (0..n).map(|_| if r.chance(97) { PARAMS[r.below(PARAMS.len())].0 } else { r.next() as u8 }).collect();
                uci(d, wire::get_app(sid, &ids))
            }
            12 => uci(d, wire::get_count()),
            13 => uci(d, wire::ranging_count(sid)),
            14..=17 => {
                let n = r.below(5);
                let e: Vec<([u8; 2], u32)> = (0..n)
                    .map(|_| {
                        let m = if r.chance(60) { r.pick(&macs) } else { vec![5, r.below(9) as u8] };
                        ([m[0], m[1]], r.next() as u32)
                    })
                    .collect();
                let a = if r.chance(80) { {let b = r.below(2); b as u8} } else { r.below(5) as u8 };
                uci(d, wire::multicast(sid, a, &e))
            }
            18 | 19 | 30 | 32..=35 => uci(d, wire::start(sid)),
            20..=22 => {
                let n = r.pick(&[0usize, 1, 5, 300, 1500]);
                let b = r.bytes(n);
                st(Op::Uci(d, wire::data_snd(sid, 0, r.next() as u16, &b), 1 << 20))
            }
            23 | 36 => uci(d, wire::stop(sid)),
            31 | 37 => uci(d, wire::get_state(sid)),
            38 => uci(d, wire::set_config(&[(r.below(3) as u8, vec![r.below(3) as u8])])),
            39 => uci(d, wire::get_config(&[{let b = r.below(2); b as u8}, r.below(2) as u8])),
            40 => {
                if nconn < 6 {
                    nconn += 1;
                    v.push(st(Op::Connect));
                    uci(nconn - 1, wire::reset())
                } else {
                    adv(3)
                }
            }
            41 => if r.chance(30) { st(Op::Disconnect(d)) } else { adv(2) },
            42 => st(Op::Anchor(r.pick(&macs))),
            43 => st(Op::Unanchor(r.pick(&macs))),
            44 => if r.chance(30) { uci(d, wire::reset()) } else { uci(d, wire::get_state(sid)) },
            45 => st(Op::InjRanging(r.below(5), sid)),
            46 => st(Op::InjStop(r.pick(&macs), sid)),
            47 => st(Op::Estimate(r.below(6), r.below(6), if r.chance(50) { None } else { Some((r.next() as u16, r.next() as i16, r.next() as i8)) })),
            48 => {
                let n = r.below(12);
                let b = r.bytes(n);
                uci(d, wire::cmd(r.pick(&[0, 1, 2, 0xc]), r.below(64) as u8, &b))
            }
            49 => {
                let n = 4 + r.below(12);
                let b = r.bytes(n);
                st(Op::InjUci(r.below(5), b))
            }
            50 => uci(d, wire::cmd(0, r.pick(&[2, 3]), &[])),
            _ => adv(1 + r.below(25) as u64),
        };
        // a reset with a random configuration byte is only ever well formed or refused
        v.push(step);
    }
    v.push(adv(40));
    for d in 0..nconn {
        for s in sids {
            v.extend(probe(d, s, &[]));
            v.push(probe_dst(d, s, &[]));
        }
        v.push(probe_dev(d, &[]));
    }
    v
}
