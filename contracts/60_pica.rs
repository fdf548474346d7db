// What the event loop must do. The predicates are named after the property
// they state; the contracts in lib.vc and pcapng.vc use them.
pub mod pspec {
    use vstd::prelude::*;
    use vstd::multiset::Multiset;
    use crate::stubs::*;
    use crate::stubs::pdl_runtime::Packet;
    use crate::packets::uci::*;
    use crate::device::Device;
    use crate::session::Session;
    use crate::app_config::AppConfig;
    use crate::{MacAddress, Pica, PicaCommand, PicaCommandError, PicaEvent, Category, RangingMeasurement, Anchor};
    use crate::codec::*;
    use crate::app::*;
    use crate::dspec::*;
    verus! {

    // ----------------------------------------------------------- invariants

    #[verifier::inline]
    pub open spec fn dev(p: Pica, h: usize) -> bool { p.devices@.dom().contains(h) }
    pub open spec fn mac_at(p: Pica, m: MacAddress, h: usize) -> bool { dev(p, h) && p.devices@[h].mac_address == m }
    #[verifier::inline]
    pub open spec fn anchored(p: Pica, m: MacAddress) -> bool { p.anchors@.dom().contains(m) }
    pub open spec fn in_use(p: Pica, m: MacAddress) -> bool { anchored(p, m) || exists|h: usize| #[trigger] mac_at(p, m, h) }

    pub open spec fn wf_devices(p: Pica) -> bool {
        forall|h: usize| #![trigger dev(p, h)] dev(p, h) ==> p.devices@[h].handle == h && dev_wf(p.devices@[h])
    }
    /// P01: every handle was given out once.
    pub open spec fn wf_handles(p: Pica) -> bool {
        &&& forall|h: usize| #![trigger dev(p, h)] dev(p, h) ==> h < p.counter
        &&& forall|m: MacAddress| #![trigger anchored(p, m)] anchored(p, m) ==> p.anchors@[m].handle < p.counter
                && !dev(p, p.anchors@[m].handle) && p.anchors@[m].mac_address == m
        &&& forall|m: MacAddress, n: MacAddress| #![trigger anchored(p, m), anchored(p, n)] anchored(p, m) && anchored(p, n)
                && p.anchors@[m].handle == p.anchors@[n].handle ==> m == n
    }
    /// P01: every address belongs to one device or anchor.
    pub open spec fn wf_macs(p: Pica) -> bool {
        &&& forall|g: usize, h: usize| #![trigger dev(p, g), dev(p, h)] dev(p, g) && dev(p, h)
                && p.devices@[g].mac_address == p.devices@[h].mac_address ==> g == h
        &&& forall|h: usize| #![trigger dev(p, h)] dev(p, h) ==> !anchored(p, p.devices@[h].mac_address)
    }
    /// P02: every device has a connection of its own.
    pub open spec fn wf_chans(p: Pica, g: WG) -> bool {
        &&& forall|a: usize, b: usize| #![trigger dev(p, a), dev(p, b)] dev(p, a) && dev(p, b)
                && chan(p.devices@[a]) == chan(p.devices@[b]) ==> a == b
        &&& forall|h: usize| #![trigger dev(p, h)] dev(p, h) ==> chan(p.devices@[h]) < g.nchan
    }
    pub open spec fn pica_wf(p: Pica, g: WG) -> bool {
        wf_devices(p) && wf_handles(p) && wf_macs(p) && wf_chans(p, g)
    }
    /// The numbers that only grow are far from their limit (see DESIGN.md).
    pub open spec fn fresh_counter(p: Pica) -> bool { p.counter < 0xffff_ffff_0000_0000 }

    /// Only the devices changed.
    pub open spec fn only_devices(p0: Pica, p1: Pica) -> bool {
        p1 == (Pica { devices: p1.devices, ..p0 })
    }
    pub open spec fn pica_same(p0: Pica, p1: Pica) -> bool { only_devices(p0, p1) && p1.devices@ =~= p0.devices@ }
    /// P02: all but the device h are as they were.
    pub open spec fn only_device(p0: Pica, p1: Pica, h: usize) -> bool {
        only_devices(p0, p1) && p1.devices@ =~= p0.devices@.insert(h, p1.devices@[h])
    }

    // -------------------------------------------------- devices and anchors

    pub open spec fn default_mac(h: usize) -> MacAddress { MacAddress::Short(be16(h as u16)) }

    pub open spec fn p_add_P01(p0: Pica, p1: Pica, h: usize) -> bool {
        let d = p1.devices@[h];
        &&& p0.counter <= h && p1.counter == h + 1
        &&& p1 == (Pica { devices: p1.devices, counter: p1.counter, ..p0 })
        &&& p1.devices@ =~= p0.devices@.insert(h, d)
        &&& d.handle == h && d.mac_address == default_mac(h) && !in_use(p0, default_mac(h))
        &&& forall|k: usize| p0.counter <= k < h ==> in_use(p0, #[trigger] default_mac(k))
    }
    pub open spec fn p_add_C03(p1: Pica, h: usize) -> bool {
        let d = p1.devices@[h];
        !d.is_reset && d.sessions@ =~= Map::<u32, Session>::empty()
    }
    /// One announcement, nothing else but the start-up notification.
    pub open spec fn p_event(w0: WG, w1: WG, e: PicaEvent) -> bool {
        w1.events == w0.events.push(e)
    }
    pub open spec fn p_quiet_but_events(w0: WG, w1: WG) -> bool {
        w1 == (WG { spawned: w1.spawned, nspawn: w1.nspawn, aborted: w1.aborted, events: w1.events, nchan: w1.nchan, ..w0 })
    }
    pub open spec fn p_disconnect_P01(p0: Pica, p1: Pica, w0: WG, w1: WG, h: usize) -> bool {
        if dev(p0, h) {
            &&& only_devices(p0, p1) && p1.devices@ =~= p0.devices@.remove(h)
            &&& p_event(w0, w1, PicaEvent::Disconnected { handle: h, mac_address: p0.devices@[h].mac_address })
        } else { p1 == p0 && w1 == w0 }
    }
    /// The sessions of the device end with it.
    pub open spec fn p_disconnect_R02(p0: Pica, w0: WG, w1: WG, h: usize) -> bool {
        dev(p0, h) ==> ended(w0, w1, p0.devices@[h].sessions@, no_tasks())
    }
    pub open spec fn create_rsp(p: Pica, m: MacAddress) -> core::result::Result<usize, PicaCommandError> {
        if in_use(p, m) { Err(PicaCommandError::DeviceAlreadyExists(m)) } else { Ok(p.counter) }
    }
    pub broadcast proof fn lem_ended(w0: WG, w: WG, w1: WG, m: Map<u32, Session>, more: Multiset<TaskV>)
        requires w.spawned == w0.spawned, w.nspawn == w0.nspawn, w.aborted == w0.aborted, #[trigger] ended(w, w1, m, more),
        ensures #[trigger] ended(w0, w1, m, more),
    {
        let ks = choose|ks: Seq<u32>| all_keys(m, ks) && #[trigger] w_spawned(w, w1, deinit_ntfs(m, ks).add(more)) && w_aborted(w, w1, timers(m, ks));
        assert(w_spawned(w0, w1, deinit_ntfs(m, ks).add(more)));
    }
    pub open spec fn p_create(p0: Pica, p1: Pica, m: MacAddress) -> bool {
        if in_use(p0, m) { p1 == p0 } else {
            &&& p1 == (Pica { anchors: p1.anchors, counter: (p0.counter + 1) as usize, ..p0 })
            &&& p1.anchors@ =~= p0.anchors@.insert(m, Anchor { handle: p0.counter, mac_address: m })
        }
    }
    pub open spec fn destroy_rsp(p: Pica, m: MacAddress) -> core::result::Result<usize, PicaCommandError> {
        if anchored(p, m) { Ok(p.anchors@[m].handle) } else { Err(PicaCommandError::DeviceNotFound(m)) }
    }
    pub open spec fn p_destroy(p0: Pica, p1: Pica, m: MacAddress) -> bool {
        &&& p1 == (Pica { anchors: p1.anchors, ..p0 })
        &&& p1.anchors@ =~= p0.anchors@.remove(m)
    }
    /// The answer to an anchor request, and nothing else.
    pub open spec fn replied(w0: WG, w1: WG, c: int, r: core::result::Result<usize, PicaCommandError>) -> bool {
        w1 == (WG { replies: w0.replies.insert(c, r), ..w0 })
    }

    pub proof fn lem_be16(a: u16, b: u16)
        ensures be16(a) == be16(b) ==> a == b,
    {
        if be16(a) == be16(b) {
            assert(be16(a)@[0] == be16(b)@[0] && be16(a)@[1] == be16(b)@[1]);
            let (ah, al, bh, bl) = ((a >> 8) as u8, (a & 0xff) as u8, (b >> 8) as u8, (b & 0xff) as u8);
            assert(ah == bh && al == bl);
            assert((a >> 8) as u8 == (b >> 8) as u8 && (a & 0xff) as u8 == (b & 0xff) as u8 ==> a == b) by (bit_vector);
        }
    }
    /// The addresses in use.
    pub open spec fn used(p: Pica) -> Set<MacAddress> {
        p.anchors@.dom().union(p.devices@.dom().map(|h: usize| p.devices@[h].mac_address))
    }
    pub open spec fn span(c: int, n: nat) -> Set<int> { vstd::set_lib::set_int_range(c, c + n) }
    pub open spec fn macs(c: int, n: nat) -> Set<MacAddress> { span(c, n).map(|k: int| default_mac(k as usize)) }

    pub proof fn lem_macs(c: int, n: nat)
        requires 0 <= c, n <= 65536, c + n <= usize::MAX,
        ensures macs(c, n).finite(), macs(c, n).len() == n,
        decreases n,
    {
        vstd::set_lib::lemma_int_range(c, c + n);
        if n == 0 {
            assert(macs(c, n) =~= Set::empty());
        } else {
            let m = (n - 1) as nat;
            lem_macs(c, m);
            let x = default_mac((c + m) as usize);
            assert(span(c, n) =~= span(c, m).insert(c + m));
            assert(macs(c, n) =~= macs(c, m).insert(x)) by {
                assert forall|y: MacAddress| macs(c, n).contains(y) == macs(c, m).insert(x).contains(y) by {
                    if macs(c, n).contains(y) {
                        let k = choose|k: int| span(c, n).contains(k) && default_mac(k as usize) == y;
                        if k != c + m { assert(span(c, m).contains(k)); }
                    }
                    if macs(c, m).contains(y) {
                        let k = choose|k: int| span(c, m).contains(k) && default_mac(k as usize) == y;
                        assert(span(c, n).contains(k));
                    }
                    if y == x { assert(span(c, n).contains(c + m)); }
                }
            }
            if macs(c, m).contains(x) {
                let k = choose|k: int| span(c, m).contains(k) && default_mac(k as usize) == x;
                lem_be16((k as usize) as u16, ((c + m) as usize) as u16);
                assert(((k as usize) as u16) == (((c + m) as usize) as u16));
                assert(0 < (c + m) - k < 65536);
                lem_trunc(k as usize, (c + m) as usize);
            }
        }
    }
    pub proof fn lem_trunc(a: usize, b: usize)
        requires a < b, b - a < 65536,
        ensures a as u16 != b as u16,
    {
        assert(a < b && (b - a) < 65536 ==> a as u16 != b as u16) by (bit_vector);
    }
    /// One of 65536 consecutive default addresses is free.
    pub proof fn lem_free_mac(p: Pica, c: int, n: nat)
        requires
            0 <= c, n <= 65536, c + n <= usize::MAX,
            p.devices@.dom().len() + p.anchors@.dom().len() <= 65535,
            forall|k: usize| c <= k < c + n ==> in_use(p, #[trigger] default_mac(k)),
        ensures n < 65536,
    {
        if n == 65536 {
            let d = p.devices@.dom().map(|h: usize| p.devices@[h].mac_address);
            lem_macs(c, n);
            vstd::set_lib::lemma_map_size_bound(p.devices@.dom(), d, |h: usize| p.devices@[h].mac_address);
            vstd::set_lib::lemma_set_disjoint_lens(p.anchors@.dom(), d.difference(p.anchors@.dom()));
            assert(macs(c, n).subset_of(used(p))) by {
                assert forall|y: MacAddress| macs(c, n).contains(y) implies used(p).contains(y) by {
                    let k = choose|k: int| span(c, n).contains(k) && default_mac(k as usize) == y;
                    vstd::set_lib::lemma_int_range(c, c + n);
                    assert(in_use(p, default_mac(k as usize)));
                    if !anchored(p, y) {
                        let h = choose|h: usize| #[trigger] mac_at(p, y, h);
                        assert(p.devices@.dom().contains(h));
                        assert(d.contains(y));
                    }
                }
            }
            assert(used(p) =~= p.anchors@.dom() + d.difference(p.anchors@.dom()));
            vstd::set_lib::lemma_len_difference(d, p.anchors@.dom());
            vstd::set_lib::lemma_len_subset(macs(c, n), used(p));
        }
    }

    // --------------------------------------------------------------- ranging

    pub open spec fn meas(m: MacAddress, l: RangingMeasurement, r: RangingMeasurement) -> Option<ShortAddressTwoWayRangingMeasurement> {
        match m {
            MacAddress::Short(a) => Some(ShortAddressTwoWayRangingMeasurement {
                mac_address: le16(a@) as u16,
                status: Status::Ok,
                nlos: 0,
                distance: l.range,
                aoa_azimuth: l.azimuth as u16,
                aoa_azimuth_fom: 100,
                aoa_elevation: l.elevation as u16,
                aoa_elevation_fom: 100,
                aoa_destination_azimuth: r.azimuth as u16,
                aoa_destination_azimuth_fom: 100,
                aoa_destination_elevation: r.elevation as u16,
                aoa_destination_elevation_fom: 100,
                slot_index: 0,
                rssi: 255,
            }),
            MacAddress::Extended(_) => None,
        }
    }
    /// The measurement of the peer with handle h2 and address m, if any.
    pub open spec fn meas_of(p: Pica, h: usize, h2: usize, m: MacAddress) -> Option<ShortAddressTwoWayRangingMeasurement> {
        match p.ranging_estimator.est(h, h2) {
            Some(l) => match p.ranging_estimator.est(h2, h) { Some(r) => meas(m, l, r), None => None },
            None => None,
        }
    }
    pub open spec fn reached(p: Pica, h: usize, h2: usize) -> bool {
        p.ranging_estimator.est(h, h2) is Some && p.ranging_estimator.est(h2, h) is Some
    }
    pub open spec fn push_opt(s: Seq<ShortAddressTwoWayRangingMeasurement>, x: Option<ShortAddressTwoWayRangingMeasurement>) -> Seq<ShortAddressTwoWayRangingMeasurement> {
        match x { Some(y) => s.push(y), None => s }
    }
    /// One measurement for each destination address that is an anchor.
    pub open spec fn anchor_meas(p: Pica, h: usize, dst: Seq<MacAddress>) -> Seq<ShortAddressTwoWayRangingMeasurement>
        decreases dst.len()
    {
        if dst.len() == 0 { Seq::empty() } else {
            let s = anchor_meas(p, h, dst.drop_last());
            if anchored(p, dst.last()) { push_opt(s, meas_of(p, h, p.anchors@[dst.last()].handle, dst.last())) } else { s }
        }
    }
    pub open spec fn sess(p: Pica, h: usize, k: u32) -> Session { p.devices@[h].sessions@[k] }
    /// R01: an active session of the same identifier on another device that
    /// names this session and is named by it, in the opposite role.
    pub open spec fn pairs(p: Pica, h: usize, k: u32, h2: usize) -> bool {
        h2 != h && ranging_peer(p.devices@[h2], sess(p, h, k), k)
    }
    /// Followed by one for each paired session, in the order of ks.
    pub open spec fn peer_meas(p: Pica, h: usize, k: u32, ks: Seq<usize>, s0: Seq<ShortAddressTwoWayRangingMeasurement>) -> Seq<ShortAddressTwoWayRangingMeasurement>
        decreases ks.len()
    {
        if ks.len() == 0 { s0 } else {
            let s = peer_meas(p, h, k, ks.drop_last(), s0);
            let h2 = ks.last();
            if pairs(p, h, k, h2) { push_opt(s, meas_of(p, h, h2, sess(p, h2, k).app_config.device_mac_address->Some_0)) } else { s }
        }
    }
    pub open spec fn all_meas(p: Pica, h: usize, k: u32, ks: Seq<usize>) -> Seq<ShortAddressTwoWayRangingMeasurement> {
        peer_meas(p, h, k, ks, anchor_meas(p, h, sess(p, h, k).app_config.dst_mac_address@))
    }
    pub open spec fn cap255(s: Seq<ShortAddressTwoWayRangingMeasurement>) -> Seq<ShortAddressTwoWayRangingMeasurement> {
        if s.len() > 255 { s.take(255) } else { s }
    }
    /// The bytes of the ranging notification.
    pub open spec fn enc_info_ntf(seq: u32, id: u32, ms: Seq<ShortAddressTwoWayRangingMeasurement>) -> Seq<u8> {
        seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(MessageType::Notification) << 5)) as u8]
            + seq![(code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8)
            + u32le(seq) + u32le(id) + u8le(0) + u32le(0) + seq![code_RangingMeasurementType(RangingMeasurementType::TwoWay)]
            + Seq::new(1, |i: int| 0u8) + seq![code_MacAddressIndicator(MacAddressIndicator::ShortAddress)] + Seq::new(8, |i: int| 0u8)
            + (seq![ms.len() as u8] + cat_ShortAddressTwoWayRangingMeasurement(ms) + Seq::<u8>::empty())
    }
    pub broadcast proof fn lem_info_ntf(p: ShortMacTwoWaySessionInfoNtf)
        requires p.rcr_indicator == 0, p.current_ranging_interval == 0, p.vendor_data@ == Seq::<u8>::empty(),
        ensures #[trigger] encf_ShortMacTwoWaySessionInfoNtf(p) == enc_info_ntf(p.sequence_number, p.session_token, p.two_way_ranging_measurements@),
    {
        reveal(encf_ShortMacTwoWaySessionInfoNtf);
        reveal(encp_ShortMacTwoWaySessionInfoNtf);
    }
    /// The bytes of a delivered data message.
    pub open spec fn enc_data_rcv(id: u32, src: u64, data: Seq<u8>) -> Seq<u8> {
        seq![(code_DataPacketFormat(DataPacketFormat::DataRcv) | (code_PacketBoundaryFlag(PacketBoundaryFlag::Complete) << 4) | (code_MessageType(MessageType::Data) << 5)) as u8]
            + Seq::new(1, |i: int| 0u8) + Seq::new(2, |i: int| 0u8)
            + (u32le(id) + seq![code_Status(Status::Ok)] + u64le(src) + u16le(1) + u16le(data.len() as u16) + data)
    }
    pub broadcast proof fn lem_data_rcv(p: DataMessageRcv)
        requires p.data_sequence_number == 1, p.pbf == PacketBoundaryFlag::Complete, p.status == Status::Ok,
        ensures #[trigger] encf_DataMessageRcv(p) == enc_data_rcv(p.session_handle, p.source_address, p.application_data@),
    {
        reveal(encf_DataMessageRcv);
        reveal(encp_DataMessageRcv);
    }
    pub broadcast proof fn lem_add_sent(g: WG, c: int, b: Seq<u8>, d: int)
        ensures #[trigger] sent_on(add_sent(g, c, b), d) == (if c == d { sent_on(g, d).push(b) } else { sent_on(g, d) }),
    { }
    pub open spec fn mac_num(m: MacAddress) -> u64 {
        match m { MacAddress::Short(x) => le16(x@) as u64, MacAddress::Extended(x) => le64(x@) as u64 }
    }
    pub open spec fn data_msg(p: Pica, h: usize, k: u32) -> Seq<u8> {
        enc_data_rcv(k, mac_num(sess(p, h, k).app_config.device_mac_address->Some_0), sess(p, h, k).data@)
    }
    /// D01: the session sends to this device (unless its peer is out of reach).
    pub open spec fn receives(p: Pica, h: usize, k: u32, h2: usize) -> bool {
        &&& h2 != h && dev(p, h2)
        &&& data_session(p.devices@[h], k) && sess(p, h, k).app_config.device_role == Some(DeviceRole::Initiator)
        &&& data_session(p.devices@[h2], k) && sess(p, h2, k).app_config.device_role == Some(DeviceRole::Responder)
        &&& pairs(p, h, k, h2) ==> reached(p, h, h2)
    }
    pub open spec fn receivers(p: Pica, h: usize, k: u32, ks: Seq<usize>) -> Seq<usize>
        decreases ks.len()
    {
        if ks.len() == 0 { Seq::empty() } else {
            let s = receivers(p, h, k, ks.drop_last());
            if receives(p, h, k, ks.last()) { s.push(ks.last()) } else { s }
        }
    }
    pub open spec fn deliver(g: WG, m: Map<usize, Device>, hs: Seq<usize>, msg: Seq<u8>) -> WG
        decreases hs.len()
    {
        if hs.len() == 0 { g } else { add_sent(deliver(g, m, hs.drop_last(), msg), chan(m[hs.last()]), msg) }
    }
    pub open spec fn peers_of(v: Seq<&Device>, m: Map<usize, Device>, hs: Seq<usize>) -> bool {
        v.len() == hs.len() && forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == m[hs[i]]
    }
    pub proof fn lem_receivers(p: Pica, h: usize, k: u32, ks: Seq<usize>)
        requires ks.no_duplicates(),
        ensures
            receivers(p, h, k, ks).no_duplicates(),
            forall|x: usize| #[trigger] receivers(p, h, k, ks).contains(x) <==> ks.contains(x) && receives(p, h, k, x),
        decreases ks.len(),
    {
        if ks.len() > 0 {
            let t = ks.drop_last();
            let s = receivers(p, h, k, t);
            assert(t.no_duplicates());
            lem_receivers(p, h, k, t);
            assert(!t.contains(ks.last()));
            let r = receivers(p, h, k, ks);
            assert(r == (if receives(p, h, k, ks.last()) { s.push(ks.last()) } else { s }));
            assert(!s.contains(ks.last()));
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by {
                assert(r[i] == s[i]);
                if j < s.len() { assert(r[j] == s[j]); } else { assert(s.contains(s[i])); }
            }
            assert forall|x: usize| #[trigger] r.contains(x) <==> ks.contains(x) && receives(p, h, k, x) by {
                assert(t.push(ks.last()) =~= ks);
                if ks.contains(x) {
                    let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x;
                    if i < t.len() { assert(t[i] == x); }
                }
                if t.contains(x) {
                    let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
                    assert(ks[i] == x);
                }
                assert(ks[ks.len() - 1] == ks.last());
                if s.contains(x) {
                    let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
                    assert(r[i] == x);
                }
                if r.contains(x) {
                    let i = choose|i: int| 0 <= i < r.len() && r[i] == x;
                    if i < s.len() { assert(s[i] == x); }
                }
                if receives(p, h, k, ks.last()) { assert(r[r.len() - 1] == ks.last()); }
            }
        }
    }
    /// Each of the receivers gets the message once, nobody else gets anything.
    pub proof fn lem_deliver(p: Pica, g: WG, g0: WG, hs: Seq<usize>, msg: Seq<u8>)
        requires
            wf_chans(p, g0), hs.no_duplicates(),
            forall|i: int| 0 <= i < hs.len() ==> dev(p, #[trigger] hs[i]),
        ensures
            deliver(g, p.devices@, hs, msg) == (WG { sent: deliver(g, p.devices@, hs, msg).sent, ..g }),
            forall|x: usize| #![trigger dev(p, x)] dev(p, x) ==> sent_on(deliver(g, p.devices@, hs, msg), chan(p.devices@[x]))
                == (if hs.contains(x) { sent_on(g, chan(p.devices@[x])).push(msg) } else { sent_on(g, chan(p.devices@[x])) }),
            forall|c: int| (forall|x: usize| dev(p, x) ==> c != #[trigger] chan(p.devices@[x])) ==> #[trigger] sent_on(deliver(g, p.devices@, hs, msg), c) == sent_on(g, c),
        decreases hs.len(),
    {
        if hs.len() > 0 {
            let t = hs.drop_last();
            assert(t.no_duplicates());
            assert forall|i: int| 0 <= i < t.len() implies dev(p, #[trigger] t[i]) by { assert(t[i] == hs[i]); }
            lem_deliver(p, g, g0, t, msg);
            let l = hs.last();
            assert(dev(p, hs[hs.len() - 1]));
            assert(!t.contains(l));
            assert forall|x: usize| #![trigger dev(p, x)] dev(p, x) implies sent_on(deliver(g, p.devices@, hs, msg), chan(p.devices@[x]))
                == (if hs.contains(x) { sent_on(g, chan(p.devices@[x])).push(msg) } else { sent_on(g, chan(p.devices@[x])) }) by {
                if x != l {
                    if hs.contains(x) {
                        let i = choose|i: int| 0 <= i < hs.len() && hs[i] == x;
                        assert(t[i] == x);
                    }
                    if t.contains(x) {
                        let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
                        assert(hs[i] == x);
                    }
                } else {
                    assert(hs.contains(l));
                }
            }
            assert forall|c: int| (forall|x: usize| dev(p, x) ==> c != #[trigger] chan(p.devices@[x])) implies #[trigger] sent_on(deliver(g, p.devices@, hs, msg), c) == sent_on(g, c) by {
                assert(dev(p, l));
                assert(c != chan(p.devices@[l]));
                assert(sent_on(deliver(g, p.devices@, t, msg), c) == sent_on(g, c));
                lem_add_sent(deliver(g, p.devices@, t, msg), chan(p.devices@[l]), msg, c);
            }
        }
    }

    pub open spec fn fires(p: Pica, h: usize, k: u32) -> bool { dev(p, h) && known(p.devices@[h], k) && s_active(sess(p, h, k)) }
    pub open spec fn informs(p: Pica, h: usize, k: u32) -> bool { sess(p, h, k).app_config.session_info_ntf_config != SessionInfoNtfConfig::Disable }
    pub open spec fn info_ntf(p: Pica, h: usize, k: u32, ks: Seq<usize>) -> Seq<u8> {
        enc_info_ntf(sess(p, h, k).sequence_number, k, cap255(all_meas(p, h, k, ks)))
    }
    pub open spec fn all_devs(p: Pica, ks: Seq<usize>) -> bool { ks.no_duplicates() && ks.to_set() =~= p.devices@.dom() }
    /// R01: one notification with the measurements, if enabled.
    pub open spec fn p_ranging_R01(p: Pica, w0: WG, w1: WG, h: usize, k: u32) -> bool {
        let c = chan(p.devices@[h]);
        if fires(p, h, k) && informs(p, h, k) {
            exists|ks: Seq<usize>| all_devs(p, ks) && sent_on(w1, c) == sent_on(w0, c).push(#[trigger] info_ntf(p, h, k, ks))
        } else {
            dev(p, h) ==> sent_on(w1, c) == sent_on(w0, c)
        }
    }
    /// D01: the data is delivered once to each receiver and to nobody else.
    pub open spec fn p_ranging_D01(p: Pica, w0: WG, w1: WG, h: usize, k: u32) -> bool {
        forall|x: usize| #![trigger dev(p, x)] dev(p, x) && x != h ==> sent_on(w1, chan(p.devices@[x]))
            == (if fires(p, h, k) && receives(p, h, k, x) { sent_on(w0, chan(p.devices@[x])).push(data_msg(p, h, k)) } else { sent_on(w0, chan(p.devices@[x])) })
    }
    pub open spec fn p_ranging_P02(p: Pica, w0: WG, w1: WG, h: usize, k: u32) -> bool {
        &&& w1 == (WG { sent: w1.sent, ..w0 })
        &&& !fires(p, h, k) ==> w1 == w0
        &&& forall|c: int| (forall|x: usize| dev(p, x) ==> c != #[trigger] chan(p.devices@[x])) ==> #[trigger] sent_on(w1, c) == sent_on(w0, c)
    }
    /// The queue is emptied, the sequence number counts the notifications.
    pub open spec fn p_ranging_state(p0: Pica, p1: Pica, h: usize, k: u32) -> bool {
        if fires(p0, h, k) {
            let (d0, d1) = (p0.devices@[h], p1.devices@[h]);
            &&& only_device(p0, p1, h) && d1 == (Device { sessions: d1.sessions, ..d0 }) && only(d0, d1, k)
            &&& d1.sessions@[k] == (Session { data: d1.sessions@[k].data, sequence_number: d1.sessions@[k].sequence_number, ..d0.sessions@[k] })
        } else { p1 == p0 }
    }
    pub open spec fn p_ranging_seq(p0: Pica, p1: Pica, h: usize, k: u32) -> bool {
        fires(p0, h, k) ==> sess(p1, h, k).sequence_number == sess(p0, h, k).sequence_number + (if informs(p0, h, k) { 1int } else { 0 })
    }
    pub open spec fn p_ranging_data(p0: Pica, p1: Pica, h: usize, k: u32) -> bool {
        fires(p0, h, k) ==> sess(p1, h, k).data@ == Seq::<u8>::empty()
    }

    // --------------------------------------------------------- in-band stop

    pub open spec fn hit(d: Device, m: MacAddress, k: u32) -> bool {
        known(d, k) && d.sessions@[k].app_config.device_mac_address == Some(m) && s_active(d.sessions@[k])
    }
    pub open spec fn p_hit(d0: Device, d1: Device, m: MacAddress, k: u32) -> bool {
        if hit(d0, m, k) {
            only(d0, d1, k) && d1.sessions@[k] == stopped(d0.sessions@[k]) && dev_less(d0, d1, true)
        } else { dev_same(d0, d1) }
    }
    /// The state the device is in after the stop.
    pub open spec fn hit_state(d: Device, m: MacAddress, k: u32) -> DeviceState {
        if hit(d, m, k) && d.n_active_sessions == 1 { DeviceState::DeviceStateReady } else { d.state }
    }
    pub open spec fn hit_ntfs(d: Device, m: MacAddress, k: u32) -> Multiset<TaskV> {
        if hit(d, m, k) {
            one(session_ntf(chan(d), k, SessionState::SessionStateIdle, ReasonCode::SessionStoppedDueToInbandSignal)).add(dn(chan(d), d.state, hit_state(d, m, k)))
        } else { no_tasks() }
    }
    pub open spec fn hits_ntfs(p: Pica, ks: Seq<usize>, m: MacAddress, k: u32) -> Multiset<TaskV>
        decreases ks.len()
    {
        if ks.len() == 0 { no_tasks() } else { hits_ntfs(p, ks.drop_last(), m, k).add(hit_ntfs(p.devices@[ks.last()], m, k)) }
    }
    pub open spec fn hits_timers(p: Pica, ks: Seq<usize>, m: MacAddress, k: u32) -> Set<int>
        decreases ks.len()
    {
        if ks.len() == 0 { Set::empty() } else {
            hits_timers(p, ks.drop_last(), m, k).union(if hit(p.devices@[ks.last()], m, k) { timer_of(sess(p, ks.last(), k)) } else { Set::empty() })
        }
    }
    /// Exactly the named sessions stop, on whatever device.
    pub open spec fn p_stop_all(p0: Pica, p1: Pica, m: MacAddress, k: u32) -> bool {
        &&& only_devices(p0, p1) && p1.devices@.dom() =~= p0.devices@.dom()
        &&& forall|h: usize| #![trigger dev(p0, h)] #![trigger dev(p1, h)] dev(p0, h) ==> p_hit(p0.devices@[h], p1.devices@[h], m, k)
    }
    pub open spec fn p_stop_tasks(p0: Pica, m: MacAddress, k: u32, w0: WG, w1: WG) -> bool {
        exists|ks: Seq<usize>| all_devs(p0, ks) && #[trigger] w_spawned(w0, w1, hits_ntfs(p0, ks, m, k)) && w_aborted(w0, w1, hits_timers(p0, ks, m, k))
    }

    // ------------------------------------------------------------ UCI packet

    /// P02: only the addressed device reacts, as in its own contract.
    pub open spec fn p_uci(p0: Pica, p1: Pica, w0: WG, w1: WG, h: usize, b: Seq<u8>) -> bool {
        if dev(p0, h) {
            let (d0, d1) = (p0.devices@[h], p1.devices@[h]);
            &&& only_device(p0, p1, h)
            &&& ignored(b) ==> d1 == d0 && w1 == w0
            &&& p_packet_cmd(d0, d1, w0, w1, b) && p_packet_data(d0, d1, w0, w1, b) && p_packet_P02(d0, d1, w0, w1)
        } else { p1 == p0 && w1 == w0 }
    }

    /// The numbers that only grow are far from their limit.
    pub open spec fn far(p: Pica) -> bool {
        fresh_counter(p) && forall|h: usize, k: u32| fires(p, h, k) ==> #[trigger] sess(p, h, k).sequence_number < u32::MAX
    }
    pub open spec fn p_connect(p0: Pica, p1: Pica, w0: WG, w1: WG) -> bool {
        (p1 == p0 && w1 == w0 && p0.devices@.dom().len() + p0.anchors@.dom().len() > 65535)
        || exists|h: usize| #[trigger] p_add_P01(p0, p1, h) && p_add_C03(p1, h)
            && p_event(w0, w1, PicaEvent::Connected { handle: h, mac_address: default_mac(h) })
    }
    /// Each command of the event loop has the effect of its handler.
    pub open spec fn p_command(p0: Pica, p1: Pica, w0: WG, w1: WG, c: PicaCommand) -> bool {
        match c {
            PicaCommand::Connect(_, _) => p_connect(p0, p1, w0, w1),
            PicaCommand::Disconnect(h) => p_disconnect_P01(p0, p1, w0, w1, h) && p_disconnect_R02(p0, w0, w1, h),
            PicaCommand::Ranging(h, k) => p_ranging_R01(p0, w0, w1, h, k) && p_ranging_D01(p0, w0, w1, h, k)
                && p_ranging_P02(p0, w0, w1, h, k) && p_ranging_state(p0, p1, h, k),
            PicaCommand::StopRanging(m, k) => p_stop_all(p0, p1, m, k) && p_stop_tasks(p0, m, k, w0, w1) && w_quiet(w0, w1),
            PicaCommand::UciPacket(h, b) => p_uci(p0, p1, w0, w1, h, b@),
            PicaCommand::CreateAnchor(m, t) => p_create(p0, p1, m) && replied(w0, w1, t.chan(), create_rsp(p0, m)),
            PicaCommand::DestroyAnchor(m, t) => p_destroy(p0, p1, m) && replied(w0, w1, t.chan(), destroy_rsp(p0, m)),
        }
    }
    }
}
