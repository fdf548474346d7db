//! Executes a script of operations against the real pica crate, through its public
//! interface, under tokio's paused clock, and compares everything observable with
//! the reference model.

use crate::model::*;
use crate::wire::*;
use futures::sink::Sink;
use futures::stream::Stream;
use pica::{Handle, MacAddress, Pica, PicaCommand, PicaEvent, RangingEstimator, RangingMeasurement};
use std::collections::BTreeMap;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::sync::{mpsc, oneshot};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Connect,
    Disconnect(usize),
    /// Host message, sent over the stream in fragments of at most .2 payload octets.
    Uci(usize, Vec<u8>, usize),
    /// One raw transport packet.
    Raw(usize, Vec<u8>),
    /// Close the sink of the device.
    SinkClose(usize),
    InjUci(usize, Vec<u8>),
    InjRanging(usize, u32),
    InjStop(Vec<u8>, u32),
    Anchor(Vec<u8>),
    Unanchor(Vec<u8>),
    Advance(u64),
    Estimate(usize, usize, Option<Meas>),
}

#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    pub tags: Tags,
}

pub fn intern(s: &str) -> &'static str {
    crate::PROPS.iter().copied().find(|p| *p == s).unwrap_or("?")
}

impl Step {
    pub fn to_line(&self) -> String {
        let t = if self.tags.is_empty() { String::new() } else { format!(" #{}", self.tags.join(",")) };
        let o = match &self.op {
            Op::Connect => "connect".into(),
            Op::Disconnect(d) => format!("disconnect {}", d),
            Op::Uci(d, m, f) => format!("uci {} {} {}", d, f, hex(m)),
            Op::Raw(d, m) => format!("raw {} {}", d, hex(m)),
            Op::SinkClose(d) => format!("sinkclose {}", d),
            Op::InjUci(h, m) => format!("injuci {} {}", h, hex(m)),
            Op::InjRanging(h, s) => format!("injranging {} {}", h, s),
            Op::InjStop(m, s) => format!("injstop {} {}", hex(m), s),
            Op::Anchor(m) => format!("anchor {}", hex(m)),
            Op::Unanchor(m) => format!("unanchor {}", hex(m)),
            Op::Advance(n) => format!("advance {}", n),
            Op::Estimate(l, r, Some((a, b, c))) => format!("estimate {} {} {} {} {}", l, r, a, b, c),
            Op::Estimate(l, r, None) => format!("estimate {} {} none", l, r),
        };
        o + &t
    }
    pub fn parse(line: &str) -> Option<Step> {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') || line.starts_with("//") {
            return None;
        }
        let mut tags = vec![];
        let mut w = vec![];
        for t in line.split_whitespace() {
            if let Some(x) = t.strip_prefix('#') {
                tags = x.split(',').map(intern).collect();
            } else {
                w.push(t);
            }
        }
        let n = |i: usize| w[i].parse::<i64>().unwrap();
        let x = |i: usize| w.get(i).map_or(vec![], |s| unhex(s));
        let op = match w[0] {
            "connect" => Op::Connect,
            "disconnect" => Op::Disconnect(n(1) as usize),
            "uci" => Op::Uci(n(1) as usize, x(3), n(2) as usize),
            "raw" => Op::Raw(n(1) as usize, x(2)),
            "sinkclose" => Op::SinkClose(n(1) as usize),
            "injuci" => Op::InjUci(n(1) as usize, x(2)),
            "injranging" => Op::InjRanging(n(1) as usize, n(2) as u32),
            "injstop" => Op::InjStop(x(1), n(2) as u32),
            "anchor" => Op::Anchor(x(1)),
            "unanchor" => Op::Unanchor(x(1)),
            "advance" => Op::Advance(n(1) as u64),
            "estimate" => Op::Estimate(
                n(1) as usize,
                n(2) as usize,
                if w[3] == "none" { None } else { Some((n(3) as u16, n(4) as i16, n(5) as i8)) },
            ),
            o => panic!("unknown operation {}", o),
        };
        Some(Step { op, tags })
    }
}

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub step: usize,
    pub tags: Tags,
    pub text: String,
}

struct FeedStream(mpsc::UnboundedReceiver<Vec<u8>>);
impl Stream for FeedStream {
    type Item = Vec<u8>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Vec<u8>>> {
        self.0.poll_recv(cx)
    }
}

#[derive(Default)]
struct SinkState {
    got: Vec<Vec<u8>>,
    closed: bool,
    dropped: bool,
}
struct RecSink(Arc<Mutex<SinkState>>);
impl Drop for RecSink {
    fn drop(&mut self) {
        self.0.lock().unwrap().dropped = true;
    }
}
impl Sink<Vec<u8>> for RecSink {
    type Error = anyhow::Error;
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<anyhow::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, p: Vec<u8>) -> anyhow::Result<()> {
        let mut s = self.0.lock().unwrap();
        if s.closed {
            anyhow::bail!("closed")
        }
        s.got.push(p);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<anyhow::Result<()>> {
        if self.0.lock().unwrap().closed {
            return Poll::Ready(Err(anyhow::anyhow!("closed")));
        }
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<anyhow::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

type Est = Arc<Mutex<BTreeMap<(usize, usize), Option<Meas>>>>;
struct Estimator(Est);
impl RangingEstimator for Estimator {
    fn estimate(&self, l: &Handle, r: &Handle) -> Option<RangingMeasurement> {
        let m = match self.0.lock().unwrap().get(&(*l, *r)) {
            Some(v) => *v,
            None => default_estimate(*l, *r),
        };
        m.map(|(range, azimuth, elevation)| RangingMeasurement { range, azimuth, elevation })
    }
}

pub fn mac(v: &[u8]) -> MacAddress {
    match v.len() {
        2 => MacAddress::Short(v.try_into().unwrap()),
        _ => MacAddress::Extended(v.try_into().unwrap()),
    }
}
fn mac_bytes(m: MacAddress) -> Vec<u8> {
    match m {
        MacAddress::Short(a) => a.to_vec(),
        MacAddress::Extended(a) => a.to_vec(),
    }
}

struct Conn {
    handle: usize,
    feed: Option<mpsc::UnboundedSender<Vec<u8>>>,
    sink: Arc<Mutex<SinkState>>,
    partial: Option<Vec<u8>>,
    log: Vec<Vec<u8>>,
}

/// Normal form of an outgoing message: length octets cleared, measurement records sorted.
fn normal(mut m: Vec<u8>) -> Vec<u8> {
    if m.len() >= 4 {
        m[0] &= 0xef;
        m[3] = 0;
        if m[0] >> 5 == MT_DATA {
            m[2] = 0;
        }
        if m[0] == 0x62 && m[1] == 0 && m.len() >= 29 && (m.len() - 29) % 31 == 0 {
            let mut recs: Vec<Vec<u8>> = m[29..].chunks(31).map(|c| c.to_vec()).collect();
            recs.sort();
            m.truncate(29);
            m.extend_from_slice(&recs.concat());
        }
    }
    m
}

fn classify(m: &[u8]) -> Tags {
    match (m.first().map(|b| b & 0xef), m.get(1)) {
        (Some(0x60), Some(1)) => vec!["S03", "S04", "C03"],
        (Some(0x61), Some(2)) => vec!["S04", "S01"],
        (Some(0x61), Some(7)) => vec!["M01"],
        (Some(0x62), Some(0)) => vec!["R01", "R02"],
        (Some(0x62), Some(4)) | (Some(0x62), Some(5)) => vec!["D01"],
        (Some(b), _) if b >> 5 == 0 => vec!["D01"],
        (Some(b), _) if b >> 5 == MT_RSP => vec!["C02"],
        _ => vec!["E01"],
    }
}

pub struct RunOpts {
    pub pcap_dir: Option<std::path::PathBuf>,
}

pub fn run(script: &[Step], opts: &RunOpts) -> Vec<Mismatch> {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    let r = rt.block_on(run_async(script, opts));
    rt.shutdown_background();
    r
}

async fn yields(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

async fn run_async(script: &[Step], opts: &RunOpts) -> Vec<Mismatch> {
    let est: Est = Default::default();
    let pica = Pica::new(Box::new(Estimator(est.clone())), opts.pcap_dir.clone());
    let cmds = pica.commands();
    let mut events = pica.events();
    let run = tokio::spawn(pica.run());
    let mut model = Model::new();
    let mut conns: Vec<Conn> = vec![];
    let mut bad: Vec<Mismatch> = vec![];

    'script: for (i, step) in script.iter().enumerate() {
        let mut fail = |tags: &[&'static str], text: String| {
            let mut t = tags.to_vec();
            t.extend(step.tags.iter());
            t.sort();
            t.dedup();
            bad.push(Mismatch { step: i, tags: t, text });
        };
        let mut target: Option<usize> = None;
        let mut windows = 0u64;
        let mut want_events: Vec<(bool, usize, Vec<u8>)> = vec![];
        match &step.op {
            Op::Connect => {
                let (tx, rx) = mpsc::unbounded_channel();
                let sink: Arc<Mutex<SinkState>> = Default::default();
                let _ = cmds
                    .send(PicaCommand::Connect(
                        Box::pin(FeedStream(rx)),
                        Box::pin(RecSink(sink.clone())),
                    ))
                    .await;
                let (handle, m) = model.connect();
                want_events.push((true, handle, m));
                conns.push(Conn { handle, feed: Some(tx), sink, partial: None, log: vec![] });
            }
            Op::Disconnect(d) => {
                if let Some(c) = conns.get_mut(*d) {
                    c.feed = None;
                    if let Some(m) = model.disconnect(c.handle) {
                        want_events.push((false, c.handle, m));
                    }
                }
            }
            Op::SinkClose(d) => {
                if let Some(c) = conns.get_mut(*d) {
                    c.sink.lock().unwrap().closed = true;
                }
            }
            Op::Uci(d, _, _) | Op::Raw(d, _) => {
                let pkts = match &step.op {
                    Op::Uci(_, m, f) => host_fragments(m, *f),
                    Op::Raw(_, m) => vec![m.clone()],
                    _ => unreachable!(),
                };
                if let Some(c) = conns.get_mut(*d) {
                    target = Some(c.handle);
                    let mut alive = model.devs.contains_key(&c.handle);
                    for p in pkts {
                        if let Some(f) = &c.feed {
                            let _ = f.send(p.clone());
                        }
                        if !alive {
                            continue;
                        }
                        if p.len() < 4 || p[0] >> 5 > 3 {
                            alive = false;
                            c.feed = None;
                            if let Some(m) = model.disconnect(c.handle) {
                                want_events.push((false, c.handle, m));
                            }
                            continue;
                        }
                        c.log.push(p.clone());
                        let mt = p[0] >> 5;
                        let last = p[0] & 0x10 == 0 || mt == MT_DATA;
                        let whole = if mt == MT_DATA {
                            // data packets are passed on as they are
                            Some(p)
                        } else {
                            match &mut c.partial {
                                Some(q) => q.extend_from_slice(&p[4..]),
                                None => c.partial = Some(p),
                            }
                            if last { c.partial.take() } else { None }
                        };
                        if let Some(m) = whole {
                            model.uci(c.handle, &m);
                            // A response the closed sink refuses ends the connection.
                            if c.sink.lock().unwrap().closed && !model.out.is_empty() {
                                alive = false;
                                model.out.clear();
                                if let Some(m) = model.disconnect(c.handle) {
                                    want_events.push((false, c.handle, m));
                                }
                            }
                            model.flush_stops();
                        }
                    }
                }
            }
            Op::InjUci(h, m) => {
                let _ = cmds.send(PicaCommand::UciPacket(*h, m.clone())).await;
                target = Some(*h);
                model.uci(*h, m);
                model.flush_stops();
            }
            Op::InjRanging(h, s) => {
                let _ = cmds.send(PicaCommand::Ranging(*h, *s)).await;
                model.ranging(*h, *s);
            }
            Op::InjStop(m, s) => {
                let _ = cmds.send(PicaCommand::StopRanging(mac(m), *s)).await;
                model.stop_ranging(m, *s);
            }
            Op::Anchor(m) | Op::Unanchor(m) => {
                let (tx, mut rx) = oneshot::channel();
                let add = matches!(step.op, Op::Anchor(_));
                let _ = cmds
                    .send(if add {
                        PicaCommand::CreateAnchor(mac(m), tx)
                    } else {
                        PicaCommand::DestroyAnchor(mac(m), tx)
                    })
                    .await;
                yields(8).await;
                let want = if add { model.create_anchor(m) } else { model.destroy_anchor(m) };
                let want = want.map_err(|_| {
                    if add {
                        pica::PicaCommandError::DeviceAlreadyExists(mac(m))
                    } else {
                        pica::PicaCommandError::DeviceNotFound(mac(m))
                    }
                });
                match rx.try_recv() {
                    Ok(r) if r == want => (),
                    got => fail(&["P01"], format!("anchor {} answered {:?}, expected {:?}", hex(m), got, want)),
                }
            }
            Op::Advance(n) => windows = *n,
            Op::Estimate(l, r, m) => {
                est.lock().unwrap().insert((*l, *r), *m);
                model.estimates.insert((*l, *r), *m);
            }
        }

        let mut w = 0;
        loop {
            yields(if matches!(step.op, Op::Estimate(..)) { 0 } else { 24 }).await;
            let exact = w == 0;
            let outs = std::mem::take(&mut model.out);
            // messages for closed sinks are lost and end the connection
            let mut per: BTreeMap<usize, Vec<Out>> = BTreeMap::new();
            for o in outs {
                per.entry(o.handle).or_default().push(o);
            }
            for c in conns.iter_mut() {
                let want = per.remove(&c.handle).unwrap_or_default();
                if c.sink.lock().unwrap().closed {
                    if !want.is_empty() {
                        if let Some(m) = model.disconnect(c.handle) {
                            want_events.push((false, c.handle, m));
                        }
                    }
                    continue;
                }
                let got_frags = std::mem::take(&mut c.sink.lock().unwrap().got);
                c.log.extend(got_frags.iter().cloned());
                let mut got: Vec<(Vec<u8>, Vec<Vec<u8>>)> = vec![];
                let mut cur: Option<(Vec<u8>, Vec<Vec<u8>>)> = None;
                for f in got_frags {
                    let last = f.first().map_or(true, |b| b & 0x10 == 0);
                    match &mut cur {
                        None => cur = Some((f.clone(), vec![f])),
                        Some((m, fs)) => {
                            m.extend_from_slice(f.get(4..).unwrap_or(&[]));
                            fs.push(f);
                        }
                    }
                    if last {
                        let (m, f) = cur.take().unwrap();
                        got.push((normal(m), f));
                    }
                }
                if let Some((m, _)) = cur {
                    fail(&["W01"], format!("device {}: message {} never completed", c.handle, hex(&m)));
                }
                let mut missing: Vec<Out> = vec![];
                let mut extra = got;
                let mut order_ok = true;
                for (k, o) in want.iter().enumerate() {
                    let m = normal(o.msg.clone());
                    match extra.iter().position(|g| g.0 == m) {
                        Some(p) => {
                            if p != 0 {
                                order_ok = false;
                            }
                            let (_, fs) = extra.remove(p);
                            let mut wf = fragments(&o.msg);
                            if m[0] == 0x62 && m[1] == 0 {
                                // record order is not specified: compare headers only
                                let hdr = |v: &Vec<Vec<u8>>| {
                                    v.iter().map(|f| (f[..4].to_vec(), f.len())).collect::<Vec<_>>()
                                };
                                if hdr(&wf) != hdr(&fs) {
                                    fail(&["W01"], format!("device {}: fragments {:?}, expected {:?}", c.handle, hdr(&fs), hdr(&wf)));
                                }
                                wf = fs.clone();
                            }
                            if wf != fs {
                                fail(
                                    &["W01"],
                                    format!(
                                        "device {}: fragments {:?}, expected {:?}",
                                        c.handle,
                                        fs.iter().map(|f| hex(f)).collect::<Vec<_>>(),
                                        wf.iter().map(|f| hex(f)).collect::<Vec<_>>()
                                    ),
                                );
                            }
                        }
                        None => {
                            let _ = k;
                            missing.push(o.clone());
                        }
                    }
                }
                if exact && !order_ok && missing.is_empty() && extra.is_empty() {
                    fail(&["C02"], format!("device {}: messages out of order", c.handle));
                }
                for o in &missing {
                    let same = extra
                        .iter()
                        .position(|g| g.0.len() >= 4 && g.0[0] == o.msg[0] & 0xef && g.0[1] == o.msg[1]);
                    let mut tags = o.tags.clone();
                    let got = match same {
                        Some(p) => {
                            let g = extra.remove(p).0;
                            tags.retain(|t| *t != "C02" || tags_only_c02(&o.tags));
                            if g[0] == 0x62 && g[1] == 0 && g.len() >= 12 {
                                let w = normal(o.msg.clone());
                                if g[4..12] != w[4..12] {
                                    tags = vec!["R02"];
                                } else {
                                    tags = vec!["R01"];
                                }
                            }
                            hex(&g)
                        }
                        None => {
                            if o.msg[0] == 0x62 && o.msg[1] == 0 {
                                tags = vec!["R02"];
                            }
                            "nothing".into()
                        }
                    };
                    if target.is_some() && target != Some(c.handle) {
                        tags.push("P02");
                    }
                    fail(
                        &tags,
                        format!(
                            "device {} at {} ms: expected {}, got {}",
                            c.handle,
                            model.now,
                            hex(&normal(o.msg.clone())),
                            got
                        ),
                    );
                }
                for (g, _) in extra {
                    let mut tags = classify(&g);
                    if g.len() >= 2 && g[0] == 0x62 && g[1] == 0 {
                        tags = vec!["R02"];
                    }
                    if target.is_some() && target != Some(c.handle) {
                        tags.push("P02");
                    }
                    fail(&tags, format!("device {} at {} ms: unexpected {}", c.handle, model.now, hex(&g)));
                }
                let alive = model.devs.contains_key(&c.handle);
                if alive == c.sink.lock().unwrap().dropped && w == 0 {
                    fail(
                        &["C01"],
                        format!("device {}: connection {}", c.handle, if alive { "was dropped" } else { "still open" }),
                    );
                }
            }
            if run.is_finished() {
                fail(&["C01", "C02"], "the emulator terminated".into());
                break 'script;
            }
            if w == windows {
                break;
            }
            w += 1;
            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
            model.step();
        }
        yields(4).await;
        let mut got_events = vec![];
        while let Ok(e) = events.try_recv() {
            got_events.push(match e {
                PicaEvent::Connected { handle, mac_address } => (true, handle, mac_bytes(mac_address)),
                PicaEvent::Disconnected { handle, mac_address } => (false, handle, mac_bytes(mac_address)),
            });
        }
        if got_events != want_events {
            fail(&["P01"], format!("events {:?}, expected {:?}", got_events, want_events));
        }
        if !bad.is_empty() {
            break;
        }
    }
    if bad.is_empty() {
        if let Some(dir) = &opts.pcap_dir {
            for c in &conns {
                let f = dir.join(format!("device-{}.pcapng", c.handle));
                if let Err(e) = check_pcap(&f, &c.log, c.sink.lock().unwrap().closed) {
                    bad.push(Mismatch { step: script.len(), tags: vec!["G01"], text: format!("{}: {}", f.display(), e) });
                }
            }
        }
    }
    bad
}

fn tags_only_c02(t: &Tags) -> bool {
    t.iter().all(|x| *x == "C02")
}

/// Independent reader of the capture format: one section header block, one interface
/// description block, then one enhanced packet block per packet.
fn check_pcap(path: &std::path::Path, log: &[Vec<u8>], closed: bool) -> Result<(), String> {
    let d = std::fs::read(path).map_err(|e| e.to_string())?;
    let u32at = |o: usize| -> Result<u32, String> {
        d.get(o..o + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).ok_or_else(|| format!("truncated at {}", o))
    };
    let mut blocks: Vec<(u32, &[u8])> = vec![];
    let mut o = 0;
    while o < d.len() {
        let ty = u32at(o)?;
        let len = u32at(o + 4)? as usize;
        if len % 4 != 0 || len < 12 || o + len > d.len() {
            return Err(format!("block at {} has length {}", o, len));
        }
        if u32at(o + len - 4)? as usize != len {
            return Err(format!("block at {}: trailing length differs from {}", o, len));
        }
        blocks.push((ty, &d[o + 8..o + len - 4]));
        o += len;
    }
    if blocks.len() < 2 || blocks[0].0 != 0x0A0D0D0A || blocks[1].0 != 1 {
        return Err("missing section header or interface description block".into());
    }
    if blocks[0].1[..8] != [0x4d, 0x3c, 0x2b, 0x1a, 1, 0, 0, 0] || blocks[0].1[8..] != [0xff; 8] {
        return Err("malformed section header block".into());
    }
    if blocks[1].1 != [37, 1, 0, 0, 0, 0, 0, 0] {
        return Err("malformed interface description block".into());
    }
    let mut last_ts = 0u64;
    let pk = &blocks[2..];
    for (i, (ty, b)) in pk.iter().enumerate() {
        if *ty != 6 || b.len() < 20 {
            return Err(format!("packet block {} has type {}", i, ty));
        }
        let f = |k: usize| u32::from_le_bytes(b[k..k + 4].try_into().unwrap());
        let ts = ((f(4) as u64) << 32) | f(8) as u64;
        if f(0) != 0 || ts < last_ts {
            return Err(format!("packet block {}: interface {} timestamp {}", i, f(0), ts));
        }
        last_ts = ts;
        let cap = f(12) as usize;
        if cap != f(16) as usize || b.len() < 20 + cap {
            return Err(format!("packet block {}: captured length {} of {}", i, cap, f(16)));
        }
        match log.get(i) {
            Some(p) if p[..] == b[20..20 + cap] => (),
            // recorded, then lost when the connection turned out to be closed
            None if closed && i == log.len() => (),
            p => return Err(format!("packet block {} holds {}, expected {:?}", i, hex(&b[20..20 + cap]), p.map(|p| hex(p)))),
        }
        // options must start with end-of-options
        if b[20 + cap..].iter().any(|x| *x != 0) {
            return Err(format!("packet block {}: padding not zero", i));
        }
    }
    if pk.len() != log.len() && !(closed && pk.len() == log.len() + 1) {
        return Err(format!("{} packet blocks for {} packets", pk.len(), log.len()));
    }
    Ok(())
}
