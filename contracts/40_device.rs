// What the session and device commands must do. The predicates are named after
// the property they state; the contracts in session.vc and device.vc use them.
pub mod dspec {
    use vstd::prelude::*;
    use vstd::multiset::Multiset;
    use crate::stubs::*;
    use crate::stubs::pdl_runtime::Packet;
    use crate::packets::uci::*;
    use crate::packets::uci;
    use crate::device::Device;
    use crate::session::Session;
    use crate::app_config::AppConfig;
    use crate::MacAddress;
    use crate::codec::*;
    use crate::app::*;
    verus! {

    // ------------------------------------------------------------- tasks

    pub open spec fn send_task(c: int, data: Seq<u8>) -> TaskV {
        TaskV { periodic: false, acts: seq![Act::Send { chan: c, data, delayed: true }], len: 0 }
    }
    /// Send a session-status notification after the current response.
    pub open spec fn session_ntf(c: int, id: u32, st: SessionState, reason: ReasonCode) -> TaskV {
        send_task(c, encf_SessionStatusNtf(SessionStatusNtf { session_token: id, session_state: st, reason_code: code_ReasonCode(reason) }))
    }
    /// Send a device-status notification after the current response.
    pub open spec fn device_ntf(c: int, st: DeviceState) -> TaskV {
        send_task(c, encf_CoreDeviceStatusNtf(CoreDeviceStatusNtf { device_state: st }))
    }
    /// Trigger a ranging round at each interval.
    pub open spec fn ranging_timer(h: usize, id: u32, ms: nat) -> TaskV {
        TaskV { periodic: true, acts: seq![Act::Cmd { at: ms, cmd: CmdV::Ranging(h, id) }], len: ms }
    }
    pub open spec fn no_tasks() -> Multiset<TaskV> { Multiset::empty() }
    pub open spec fn one(t: TaskV) -> Multiset<TaskV> { Multiset::singleton(t) }
    /// The notification of a session state change from a to b.
    pub open spec fn sn(c: int, id: u32, a: SessionState, b: SessionState, reason: ReasonCode) -> Multiset<TaskV> {
        if a == b { no_tasks() } else { one(session_ntf(c, id, b, reason)) }
    }
    /// The notification of a device state change from a to b.
    pub open spec fn dn(c: int, a: DeviceState, b: DeviceState) -> Multiset<TaskV> {
        if a == b { no_tasks() } else { one(device_ntf(c, b)) }
    }

    /// Exactly the tasks in t were spawned.
    pub open spec fn w_spawned(w0: WG, w1: WG, t: Multiset<TaskV>) -> bool {
        w1.spawned =~= w0.spawned.add(t) && w1.nspawn >= w0.nspawn
    }
    /// Exactly the tasks in a were aborted.
    pub open spec fn w_aborted(w0: WG, w1: WG, a: Set<int>) -> bool {
        w1.aborted =~= w0.aborted.union(a)
    }
    /// Nothing was sent, queued or written.
    pub open spec fn w_quiet(w0: WG, w1: WG) -> bool {
        w1 == (WG { spawned: w1.spawned, nspawn: w1.nspawn, aborted: w1.aborted, ..w0 })
    }
    pub open spec fn timer_of(s: Session) -> Set<int> {
        match s.ranging_task { Some(h) => set![h.id()], None => Set::empty() }
    }

    // ----------------------------------------------------------- invariants

    pub open spec fn s_active(s: Session) -> bool { s.state == SessionState::SessionStateActive }
    pub open spec fn active_set(m: Map<u32, Session>) -> Set<u32> {
        m.dom().filter(|k: u32| s_active(m[k]))
    }
    pub open spec fn n_active(m: Map<u32, Session>) -> nat { active_set(m).len() }

    pub open spec fn mandatory(c: AppConfig) -> bool {
        c.device_role is Some && c.multi_node_mode is Some && c.ranging_round_usage is Some
            && c.device_mac_address is Some && c.schedule_mode is Some
    }

    pub broadcast proof fn lem_active_insert(m: Map<u32, Session>, k: u32, s: Session)
        requires m.dom().finite(),
        ensures
            n_active(m) == if m.dom().contains(k) && s_active(m[k]) { active_set(m).remove(k).len() + 1 } else { active_set(m).remove(k).len() },
            #[trigger] n_active(m.insert(k, s)) == if s_active(s) { active_set(m).remove(k).len() + 1 } else { active_set(m).remove(k).len() },
            n_active(m) <= m.dom().len(),
    {
        assert(active_set(m.insert(k, s)) =~= if s_active(s) { active_set(m).remove(k).insert(k) } else { active_set(m).remove(k) });
        lem_active_finite(m);
        vstd::set_lib::lemma_len_subset(active_set(m), m.dom());
    }
    pub broadcast proof fn lem_active_remove(m: Map<u32, Session>, k: u32)
        requires m.dom().finite(),
        ensures
            n_active(m) == if m.dom().contains(k) && s_active(m[k]) { active_set(m).remove(k).len() + 1 } else { active_set(m).remove(k).len() },
            #[trigger] n_active(m.remove(k)) == active_set(m).remove(k).len(),
    {
        assert(active_set(m.remove(k)) =~= active_set(m).remove(k));
        lem_active_finite(m);
    }
    pub broadcast proof fn lem_active_finite(m: Map<u32, Session>)
        requires m.dom().finite(),
        ensures #[trigger] active_set(m).finite(), n_active(m) <= m.dom().len(),
    {
        m.dom().lemma_len_filter(|k: u32| s_active(m[k]));
    }
    pub broadcast proof fn lem_active_zero(m: Map<u32, Session>, k: u32)
        requires m.dom().finite(), #[trigger] m.dom().contains(k), s_active(m[k]),
        ensures n_active(m) > 0,
    {
        lem_active_finite(m);
        assert(active_set(m).contains(k));
        if active_set(m).len() == 0 {
            active_set(m).lemma_len0_is_empty();
        }
    }
    pub broadcast proof fn lem_active_empty()
        ensures #[trigger] n_active(Map::<u32, Session>::empty()) == 0,
    {
        assert(active_set(Map::<u32, Session>::empty()) =~= Set::empty());
    }

    pub open spec fn sess_base(d: Device, k: u32, s: Session) -> bool {
        s.id == k && s.tx == d.tx && s.device_handle == d.handle && s.data@.len() <= 65535 && app_wf(s.app_config)
    }
    pub open spec fn sess_state(s: Session) -> bool {
        &&& s.state == SessionState::SessionStateInit || s.state == SessionState::SessionStateIdle || s_active(s)
        &&& s.state != SessionState::SessionStateInit ==> mandatory(s.app_config)
    }
    pub open spec fn wf_base(d: Device) -> bool {
        &&& d.sessions@.dom().finite()
        &&& forall|k: u32| #![trigger d.sessions@.dom().contains(k)] d.sessions@.dom().contains(k) ==> sess_base(d, k, d.sessions@[k])
    }
    /// S01: an existing session is in one of the three legal states, and past
    /// init it has the mandatory parameters.
    pub open spec fn wf_states(d: Device) -> bool {
        forall|k: u32| #![trigger d.sessions@.dom().contains(k)] d.sessions@.dom().contains(k) ==> sess_state(d.sessions@[k])
    }
    /// S03, second half: the ranging timer runs exactly while active.
    pub open spec fn wf_timers(d: Device) -> bool {
        forall|k: u32| #![trigger d.sessions@.dom().contains(k)] d.sessions@.dom().contains(k) ==> (s_active(d.sessions@[k]) <==> d.sessions@[k].ranging_task is Some)
    }
    /// S03, first half: the device is active exactly while a session is.
    pub open spec fn wf_active(d: Device) -> bool {
        &&& d.n_active_sessions == n_active(d.sessions@)
        &&& d.is_reset ==> d.state == if n_active(d.sessions@) > 0 { DeviceState::DeviceStateActive } else { DeviceState::DeviceStateReady }
    }
    /// S02: at most 255 sessions.
    pub open spec fn wf_table(d: Device) -> bool { d.sessions@.dom().len() <= 255 }
    /// C03: nothing exists before the reset.
    pub open spec fn wf_reset(d: Device) -> bool {
        !d.is_reset ==> d.sessions@ =~= Map::<u32, Session>::empty() && d.state != DeviceState::DeviceStateActive
    }
    pub open spec fn dev_wf(d: Device) -> bool {
        wf_base(d) && wf_states(d) && wf_timers(d) && wf_active(d) && wf_table(d) && wf_reset(d)
    }

    /// Everything but the session table, the state and the active count.
    pub open spec fn dev_frame(d0: Device, d1: Device) -> bool {
        d1 == (Device { sessions: d1.sessions, state: d1.state, n_active_sessions: d1.n_active_sessions, ..d0 })
    }
    /// The device did not change at all.
    pub open spec fn dev_same(d0: Device, d1: Device) -> bool {
        d1 == (Device { sessions: d1.sessions, ..d0 }) && d1.sessions@ =~= d0.sessions@
    }
    pub open spec fn known(d: Device, k: u32) -> bool { d.sessions@.dom().contains(k) }
    pub open spec fn st(d: Device, k: u32) -> SessionState { d.sessions@[k].state }
    pub open spec fn chan(d: Device) -> int { d.tx.chan() }

    /// Only the session k was replaced.
    pub open spec fn only(d0: Device, d1: Device, k: u32) -> bool {
        d1.sessions@ =~= d0.sessions@.insert(k, d1.sessions@[k])
    }

    /// Both sessions are active and name each other, in opposite roles.
    pub open spec fn ranging_peer(d: Device, p: Session, k: u32) -> bool {
        known(d, k) && s_active(d.sessions@[k]) && paired(d.sessions@[k].app_config, p.app_config)
    }
    pub open spec fn paired(a: AppConfig, b: AppConfig) -> bool {
        a.device_role != b.device_role && a.device_type != b.device_type
            && b.dst_mac_address@.contains(a.device_mac_address->Some_0) && a.dst_mac_address@.contains(b.device_mac_address->Some_0)
    }
    /// An active session with a data phase.
    pub open spec fn data_session(d: Device, k: u32) -> bool {
        known(d, k) && s_active(d.sessions@[k]) && d.sessions@[k].session_type == SessionType::FiraRangingAndInBandDataSession
    }

    pub open spec fn caps_upto(s: Seq<CapTlv>, d: Seq<(CapTlvType, &[u8])>, n: int) -> bool {
        s.len() == n && forall|i: int| 0 <= i < n ==> ((#[trigger] s[i]).t == d[i].0 && s[i].v@ == d[i].1@)
    }
    pub open spec fn tlvs_small(s: Seq<AppConfigTlv>) -> bool {
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v@.len() <= 255
    }
    pub open spec fn got_upto(s: Seq<AppConfigTlv>, c: AppConfig, ids: Seq<AppConfigTlvType>, n: int) -> bool {
        s.len() == n && forall|i: int| 0 <= i < n ==> ((#[trigger] s[i]).cfg_id == ids[i] && s[i].v@ == app_value(c, ids[i]))
    }

    // ------------------------------------------------------------------ data

    pub open spec fn data_err(token: u32, st: DataTransferNtfStatusCode, seq: u8) -> SessionDataTransferStatusNtf {
        SessionDataTransferStatusNtf { session_token: token, status: st, tx_count: 1, uci_sequence_number: seq }
    }
    pub open spec fn p_data_snd(s0: Session, s1: Session, m: DataMessageSnd, r: ControlPacket) -> bool {
        if s0.session_type != SessionType::FiraRangingAndInBandDataSession {
            &&& s1.data@ == s0.data@
            &&& r.enc() == encf_SessionDataTransferStatusNtf(data_err(m.session_handle,
                DataTransferNtfStatusCode::UciDataTransferStatusSessionTypeNotSupported, m.data_sequence_number as u8))
        } else if s0.data@.len() + m.application_data@.len() > 65535 {
            &&& s1.data@ == s0.data@
            &&& r.enc() == encf_SessionDataTransferStatusNtf(data_err(m.session_handle,
                DataTransferNtfStatusCode::UciDataTransferStatusErrorNoCreditAvailable, m.data_sequence_number as u8))
        } else {
            &&& s1.data@ == s0.data@ + m.application_data@
            &&& r.enc() == encf_SessionDataCreditNtf(SessionDataCreditNtf {
                session_token: m.session_handle, credit_availability: CreditAvailability::CreditAvailable })
        }
    }

    // ---------------------------------------------------------------- core

    /// The ranging timers of the sessions named in ks.
    pub open spec fn timers(m: Map<u32, Session>, ks: Seq<u32>) -> Set<int>
        decreases ks.len()
    {
        if ks.len() == 0 { Set::empty() } else { timers(m, ks.drop_last()).union(timer_of(m[ks.last()])) }
    }
    /// The end-of-life notifications of the sessions named in ks.
    pub open spec fn deinit_ntfs(m: Map<u32, Session>, ks: Seq<u32>) -> Multiset<TaskV>
        decreases ks.len()
    {
        if ks.len() == 0 { no_tasks() } else {
            let s = m[ks.last()];
            deinit_ntfs(m, ks.drop_last()).add(sn(s.tx.chan(), s.id, s.state, SessionState::SessionStateDeinit, ReasonCode::StateChangeWithSessionManagementCommands))
        }
    }
    pub open spec fn all_keys(m: Map<u32, Session>, ks: Seq<u32>) -> bool {
        ks.no_duplicates() && ks.to_set() =~= m.dom()
    }
    /// Every session of m came to its end: its timer aborted and its
    /// notification queued, nothing else.
    pub open spec fn ended(w0: WG, w1: WG, m: Map<u32, Session>, more: Multiset<TaskV>) -> bool {
        exists|ks: Seq<u32>| all_keys(m, ks) && #[trigger] w_spawned(w0, w1, deinit_ntfs(m, ks).add(more)) && w_aborted(w0, w1, timers(m, ks))
    }
    pub open spec fn p_reset_C03(d0: Device, d1: Device) -> bool {
        &&& d1.is_reset && d1.handle == d0.handle && d1.mac_address == d0.mac_address
        &&& d1.tx == d0.tx && d1.pica_tx == d0.pica_tx
        &&& d1.sessions@ =~= Map::<u32, Session>::empty() && d1.n_active_sessions == 0
        &&& d1.state == DeviceState::DeviceStateReady
        &&& d1.config.low_power_mode && d1.country_code@ =~= seq![0u8, 0u8]
    }
    pub open spec fn p_reset_tasks(d0: Device, d1: Device, w0: WG, w1: WG) -> bool {
        ended(w0, w1, d0.sessions@, one(device_ntf(chan(d0), DeviceState::DeviceStateReady)))
    }
    pub open spec fn h_reset(d0: Device, d1: Device, w0: WG, w1: WG, r: CoreDeviceResetRsp) -> bool {
        r.status == Status::Ok && p_reset_C03(d0, d1) && p_reset_tasks(d0, d1, w0, w1)
            && w_quiet(w0, w1)
    }
    pub open spec fn h_info(r: CoreGetDeviceInfoRsp) -> bool {
        r.status == Status::Ok && r.uci_version == 0x0002 && r.mac_version == 0x3001 && r.phy_version == 0x3001
            && r.uci_test_version == 0x1001 && r.vendor_spec_info@ == Seq::<u8>::empty()
    }
    pub open spec fn caps_list() -> Seq<(CapTlvType, Seq<u8>)> {
        seq![
            (CapTlvType::SupportedFiraPhyVersionRange, seq![1u8, 1, 1, 3]),
            (CapTlvType::SupportedFiraMacVersionRange, seq![1u8, 1, 1, 3]),
            (CapTlvType::SupportedDeviceRoles, seq![0x3u8]),
            (CapTlvType::SupportedRangingMethod, seq![0x1fu8]),
            (CapTlvType::SupportedStsConfig, seq![0x1fu8]),
            (CapTlvType::SupportedMultiNodeModes, seq![0xffu8]),
            (CapTlvType::SupportedRangingTimeStruct, seq![0x01u8]),
            (CapTlvType::SupportedScheduledMode, seq![0x01u8]),
            (CapTlvType::SupportedHoppingMode, seq![0x00u8]),
            (CapTlvType::SupportedBlockStriding, seq![0x1u8]),
            (CapTlvType::SupportedUwbInitiationTime, seq![0x01u8]),
            (CapTlvType::SupportedChannels, seq![0xffu8]),
            (CapTlvType::SupportedRframeConfig, seq![0xffu8]),
            (CapTlvType::SupportedCcConstraintLength, seq![0xffu8]),
            (CapTlvType::SupportedBprfParameterSets, seq![0xffu8]),
            (CapTlvType::SupportedHprfParameterSets, seq![0xffu8]),
            (CapTlvType::SupportedAoa, seq![0xffu8]),
            (CapTlvType::SupportedAoaResultReqAntennaInterleaving, seq![0x1u8]),
            (CapTlvType::SupportedExtendedMacAddress, seq![0x1u8]),
            (CapTlvType::CccSupportedVersions, seq![1u8, 0]),
            (CapTlvType::CccSupportedUwbConfigs, seq![0u8]),
            (CapTlvType::CccSupportedPulseShapeCombos, seq![0u8]),
            (CapTlvType::CccSupportedRanMultiplier, seq![0u8, 0, 0, 0]),
            (CapTlvType::CccSupportedChapsPerSlot, seq![0xffu8]),
            (CapTlvType::CccSupportedSyncCodes, seq![0xffu8, 0xff, 0xff, 0xff]),
            (CapTlvType::CccSupportedChannels, seq![0xffu8]),
            (CapTlvType::CccSupportedHoppingConfigModesAndSequences, seq![0xffu8]),
        ]
    }
    pub open spec fn h_caps(r: CoreGetCapsInfoRsp) -> bool {
        r.status == Status::Ok && r.tlvs@.len() == caps_list().len()
            && forall|i: int| 0 <= i < r.tlvs@.len() ==> ((#[trigger] r.tlvs@[i]).t == caps_list()[i].0 && r.tlvs@[i].v@ =~= caps_list()[i].1)
    }

    pub open spec fn lp_value(v: Seq<u8>) -> bool { if v.len() == 0 { true } else { v[0] != 0 } }
    pub open spec fn lp_after(lp: bool, ps: Seq<ConfigParameter>) -> bool
        decreases ps.len()
    {
        if ps.len() == 0 { lp }
        else if ps.last().id == ConfigParameterId::LowPowerMode { lp_value(ps.last().value@) }
        else { lp_after(lp, ps.drop_last()) }
    }
    pub open spec fn cfg_bad(ps: Seq<ConfigParameter>) -> Seq<ConfigParameterStatus>
        decreases ps.len()
    {
        if ps.len() == 0 { Seq::empty() } else {
            match ps.last().id {
                ConfigParameterId::LowPowerMode => cfg_bad(ps.drop_last()),
                ConfigParameterId::DeviceState => cfg_bad(ps.drop_last()).push(ConfigParameterStatus { id: ps.last().id, status: Status::ReadOnly }),
                _ => cfg_bad(ps.drop_last()).push(ConfigParameterStatus { id: ps.last().id, status: Status::InvalidParam }),
            }
        }
    }
    pub open spec fn h_set_config(d0: Device, d1: Device, c: CoreSetConfigCmd, r: CoreSetConfigRsp) -> bool {
        if d0.state != DeviceState::DeviceStateReady {
            d1 == d0 && r.status == Status::Rejected && r.parameters@ == Seq::<ConfigParameterStatus>::empty()
        } else {
            &&& d1 == (Device { config: d1.config, ..d0 })
            &&& d1.config.low_power_mode == lp_after(d0.config.low_power_mode, c.parameters@)
            &&& r.parameters@ == cfg_bad(c.parameters@)
            &&& r.status == if cfg_bad(c.parameters@).len() == 0 { Status::Ok } else { Status::InvalidParam }
        }
    }
    pub open spec fn cfg_value(d: Device, id: ConfigParameterId) -> Seq<u8> {
        match id {
            ConfigParameterId::DeviceState => seq![code_DeviceState(d.state)],
            _ => seq![if d.config.low_power_mode { 1u8 } else { 0u8 }],
        }
    }
    pub open spec fn cfg_known(id: ConfigParameterId) -> bool { id == ConfigParameterId::DeviceState || id == ConfigParameterId::LowPowerMode }
    pub open spec fn cfg_pairs(ps: Seq<ConfigParameter>) -> Seq<(ConfigParameterId, Seq<u8>)> {
        Seq::new(ps.len(), |i: int| (ps[i].id, ps[i].value@))
    }
    pub open spec fn cfg_good_of(d: Device, ids: Seq<ConfigParameterId>) -> Seq<(ConfigParameterId, Seq<u8>)>
        decreases ids.len()
    {
        if ids.len() == 0 { Seq::empty() }
        else if cfg_known(ids.last()) { cfg_good_of(d, ids.drop_last()).push((ids.last(), cfg_value(d, ids.last()))) }
        else { cfg_good_of(d, ids.drop_last()) }
    }
    pub open spec fn cfg_bad_of(ids: Seq<ConfigParameterId>) -> Seq<(ConfigParameterId, Seq<u8>)>
        decreases ids.len()
    {
        if ids.len() == 0 { Seq::empty() }
        else if cfg_known(ids.last()) { cfg_bad_of(ids.drop_last()) }
        else { cfg_bad_of(ids.drop_last()).push((ids.last(), Seq::<u8>::empty())) }
    }
    pub open spec fn h_get_config(d: Device, c: CoreGetConfigCmd, r: CoreGetConfigRsp) -> bool {
        if cfg_bad_of(c.parameter_ids@).len() == 0 {
            r.status == Status::Ok && cfg_pairs(r.parameters@) =~= cfg_good_of(d, c.parameter_ids@)
        } else {
            r.status == Status::InvalidParam && cfg_pairs(r.parameters@) =~= cfg_bad_of(c.parameter_ids@)
        }
    }

    // ------------------------------------------------------------- sessions

    pub open spec fn mgmt() -> ReasonCode { ReasonCode::StateChangeWithSessionManagementCommands }

    pub open spec fn p_init_S02(d0: Device, d1: Device, c: SessionInitCmd, r: SessionInitRsp) -> bool {
        if d0.sessions@.dom().len() >= 255 {
            r.status == Status::ErrorMaxSessionsExceeded && dev_same(d0, d1)
        } else if known(d0, c.session_id) {
            r.status == Status::ErrorSessionDuplicate && dev_same(d0, d1)
        } else {
            r.status == Status::Ok && only(d0, d1, c.session_id) && d1 == (Device { sessions: d1.sessions, ..d0 })
        }
    }
    pub open spec fn fresh_session(d: Device, s: Session, id: u32, ty: SessionType) -> bool {
        s.state == SessionState::SessionStateInit && s.id == id && s.session_type == ty && s.tx == d.tx && s.device_handle == d.handle
            && s.ranging_task is None && s.data@ == Seq::<u8>::empty() && s.sequence_number == 0 && AppConfig::default_ens(s.app_config)
    }
    pub open spec fn p_init_S01(d0: Device, d1: Device, c: SessionInitCmd, r: SessionInitRsp) -> bool {
        r.status == Status::Ok ==> fresh_session(d0, d1.sessions@[c.session_id], c.session_id, c.session_type)
    }
    pub open spec fn p_init_tasks(d0: Device, c: SessionInitCmd, r: SessionInitRsp, w0: WG, w1: WG) -> bool {
        w_spawned(w0, w1, if r.status == Status::Ok { one(session_ntf(chan(d0), c.session_id, SessionState::SessionStateInit, mgmt())) } else { no_tasks() })
            && w1.aborted == w0.aborted
    }
    pub open spec fn h_init(d0: Device, d1: Device, w0: WG, w1: WG, c: SessionInitCmd, r: SessionInitRsp) -> bool {
        p_init_S02(d0, d1, c, r) && p_init_S01(d0, d1, c, r) && p_init_tasks(d0, c, r, w0, w1) && w_quiet(w0, w1)
    }

    /// What becomes of the device when session k stops being active.
    pub open spec fn dev_less(d0: Device, d1: Device, was: bool) -> bool {
        &&& dev_frame(d0, d1)
        &&& d1.n_active_sessions == if was { d0.n_active_sessions - 1 } else { d0.n_active_sessions as int }
        &&& d1.state == if was && d0.n_active_sessions == 1 { DeviceState::DeviceStateReady } else { d0.state }
    }
    pub open spec fn p_deinit_S02(d0: Device, d1: Device, c: SessionDeinitCmd, r: SessionDeinitRsp) -> bool {
        if known(d0, c.session_token) {
            r.status == Status::Ok && d1.sessions@ =~= d0.sessions@.remove(c.session_token)
        } else {
            r.status == Status::ErrorSessionNotExist && d1 == d0
        }
    }
    pub open spec fn p_deinit_S03(d0: Device, d1: Device, c: SessionDeinitCmd) -> bool {
        known(d0, c.session_token) ==> dev_less(d0, d1, s_active(d0.sessions@[c.session_token]))
    }
    pub open spec fn p_deinit_S04(d0: Device, d1: Device, c: SessionDeinitCmd, w0: WG, w1: WG) -> bool {
        if known(d0, c.session_token) {
            w_spawned(w0, w1, one(session_ntf(chan(d0), c.session_token, SessionState::SessionStateDeinit, mgmt())).add(dn(chan(d0), d0.state, d1.state)))
        } else {
            w_spawned(w0, w1, no_tasks())
        }
    }
    pub open spec fn p_deinit_R02(d0: Device, c: SessionDeinitCmd, w0: WG, w1: WG) -> bool {
        w_aborted(w0, w1, if known(d0, c.session_token) { timer_of(d0.sessions@[c.session_token]) } else { Set::empty() })
    }
    pub open spec fn h_deinit(d0: Device, d1: Device, w0: WG, w1: WG, c: SessionDeinitCmd, r: SessionDeinitRsp) -> bool {
        p_deinit_S02(d0, d1, c, r) && p_deinit_S03(d0, d1, c) && p_deinit_S04(d0, d1, c, w0, w1) && p_deinit_R02(d0, c, w0, w1) && w_quiet(w0, w1)
    }
    pub open spec fn h_count(d: Device, r: SessionGetCountRsp) -> bool {
        r.status == Status::Ok && r.session_count == d.sessions@.dom().len()
    }
    pub open spec fn h_state(d: Device, c: SessionGetStateCmd, r: SessionGetStateRsp) -> bool {
        if known(d, c.session_token) { r.status == Status::Ok && r.session_state == st(d, c.session_token) }
        else { r.status == Status::ErrorSessionNotExist }
    }
    pub open spec fn h_rcount(d: Device, c: SessionGetRangingCountCmd, r: SessionGetRangingCountRsp) -> bool {
        if known(d, c.session_id) { r.status == Status::Ok && r.count == d.sessions@[c.session_id].sequence_number }
        else { r.status == Status::ErrorSessionNotExist }
    }

    // -------------------------------------------------------- start and stop

    pub open spec fn can_start(d: Device, k: u32) -> bool { known(d, k) && st(d, k) == SessionState::SessionStateIdle }
    pub open spec fn p_start_S01(d0: Device, d1: Device, c: SessionStartCmd, r: SessionStartRsp) -> bool {
        let k = c.session_id;
        if !known(d0, k) { r.status == Status::ErrorSessionNotExist && dev_same(d0, d1) }
        else if st(d0, k) != SessionState::SessionStateIdle { r.status == Status::ErrorSessionNotConfigured && dev_same(d0, d1) }
        else {
            &&& r.status == Status::Ok
            &&& only(d0, d1, k)
            &&& d1.sessions@[k] == (Session { state: SessionState::SessionStateActive, ranging_task: d1.sessions@[k].ranging_task, ..d0.sessions@[k] })
        }
    }
    pub open spec fn p_start_S03(d0: Device, d1: Device, c: SessionStartCmd) -> bool {
        can_start(d0, c.session_id) ==> {
            &&& dev_frame(d0, d1)
            &&& d1.n_active_sessions == d0.n_active_sessions + 1
            &&& d1.state == DeviceState::DeviceStateActive
            &&& d1.sessions@[c.session_id].ranging_task is Some
        }
    }
    pub open spec fn start_timer(d0: Device, k: u32) -> TaskV {
        ranging_timer(d0.handle, k, d0.sessions@[k].app_config.ranging_duration as nat)
    }
    pub open spec fn p_start_S04(d0: Device, d1: Device, c: SessionStartCmd, w0: WG, w1: WG) -> bool {
        if can_start(d0, c.session_id) {
            w_spawned(w0, w1, one(start_timer(d0, c.session_id))
                .add(one(session_ntf(chan(d0), c.session_id, SessionState::SessionStateActive, mgmt())))
                .add(dn(chan(d0), d0.state, d1.state)))
        } else {
            w_spawned(w0, w1, no_tasks())
        }
    }
    /// The timer is the one of the new session, and it is running.
    pub open spec fn p_start_R02(d0: Device, d1: Device, c: SessionStartCmd, w0: WG, w1: WG) -> bool {
        &&& w1.aborted == w0.aborted
        &&& can_start(d0, c.session_id) ==> (d1.sessions@[c.session_id].ranging_task matches Some(h)
            ==> h.task() == start_timer(d0, c.session_id) && w0.nspawn <= h.id() < w1.nspawn)
    }
    pub open spec fn h_start(d0: Device, d1: Device, w0: WG, w1: WG, c: SessionStartCmd, r: SessionStartRsp) -> bool {
        p_start_S01(d0, d1, c, r) && p_start_S03(d0, d1, c) && p_start_S04(d0, d1, c, w0, w1) && p_start_R02(d0, d1, c, w0, w1) && w_quiet(w0, w1)
    }

    pub open spec fn can_stop(d: Device, k: u32) -> bool { known(d, k) && s_active(d.sessions@[k]) }
    pub open spec fn stopped(s: Session) -> Session { Session { state: SessionState::SessionStateIdle, ranging_task: None, ..s } }
    pub open spec fn p_stop_S01(d0: Device, d1: Device, c: SessionStopCmd, r: SessionStopRsp) -> bool {
        let k = c.session_id;
        if !known(d0, k) { r.status == Status::ErrorSessionNotExist && dev_same(d0, d1) }
        else if !s_active(d0.sessions@[k]) { r.status == Status::ErrorSessionActive && dev_same(d0, d1) }
        else {
            &&& r.status == Status::Ok
            &&& only(d0, d1, k)
            &&& d1.sessions@[k] == stopped(d0.sessions@[k])
        }
    }
    pub open spec fn p_stop_S03(d0: Device, d1: Device, k: u32) -> bool {
        can_stop(d0, k) ==> dev_less(d0, d1, true)
    }
    pub open spec fn p_stop_S04(d0: Device, d1: Device, k: u32, w0: WG, w1: WG) -> bool {
        if can_stop(d0, k) {
            w_spawned(w0, w1, one(session_ntf(chan(d0), k, SessionState::SessionStateIdle, mgmt())).add(dn(chan(d0), d0.state, d1.state)))
        } else {
            w_spawned(w0, w1, no_tasks())
        }
    }
    pub open spec fn p_stop_R02(d0: Device, k: u32, w0: WG, w1: WG) -> bool {
        w_aborted(w0, w1, if can_stop(d0, k) { timer_of(d0.sessions@[k]) } else { Set::empty() })
    }
    pub open spec fn h_stop(d0: Device, d1: Device, w0: WG, w1: WG, c: SessionStopCmd, r: SessionStopRsp) -> bool {
        p_stop_S01(d0, d1, c, r) && p_stop_S03(d0, d1, c.session_id) && p_stop_S04(d0, d1, c.session_id, w0, w1)
            && p_stop_R02(d0, c.session_id, w0, w1) && w_quiet(w0, w1)
    }

    // ------------------------------------------------- application configuration

    /// One configuration after each parameter of the command.
    pub open spec fn set_chain(ch: Seq<AppConfig>, c0: AppConfig, ps: Seq<AppConfigTlv>) -> bool {
        &&& ch.len() == ps.len() + 1
        &&& ch[0] == c0
        &&& forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() ==> app_set(ch[i], ps[i].cfg_id, ps[i].v@, ch[i + 1])
    }
    /// The statuses of the parameters that were not accepted, in order.
    pub open spec fn set_bad(ch: Seq<AppConfig>, ps: Seq<AppConfigTlv>) -> Seq<AppConfigStatus>
        decreases ps.len()
    {
        if ps.len() == 0 { Seq::empty() }
        else if app_ok(ch[ps.len() - 1], ps.last().cfg_id, ps.last().v@) { set_bad(ch, ps.drop_last()) }
        else { set_bad(ch, ps.drop_last()).push(AppConfigStatus { cfg_id: ps.last().cfg_id, status: Status::InvalidParam }) }
    }
    /// Only the first configurations of the chain matter.
    pub proof fn lem_set_bad(a: Seq<AppConfig>, b: Seq<AppConfig>, ps: Seq<AppConfigTlv>)
        requires a.len() >= ps.len(), b.len() >= ps.len(), forall|i: int| 0 <= i < ps.len() ==> a[i] == b[i],
        ensures set_bad(a, ps) == set_bad(b, ps),
        decreases ps.len(),
    {
        if ps.len() > 0 {
            lem_set_bad(a, b, ps.drop_last());
        }
    }
    pub open spec fn fira(t: SessionType) -> bool { t == SessionType::FiraRangingSession || t == SessionType::FiraRangingAndInBandDataSession }
    /// AOA_RESULT_REQ may not be changed while the session is active.
    pub open spec fn immutable_while_active(t: AppConfigTlvType) -> bool { t == AppConfigTlvType::AoaResultReq }
    pub open spec fn names_immutable(ps: Seq<AppConfigTlv>) -> bool {
        exists|i: int| 0 <= i < ps.len() && immutable_while_active((#[trigger] ps[i]).cfg_id)
    }
    pub open spec fn no_status(r: SessionSetAppConfigRsp, s: Status) -> bool {
        r.status == s && r.cfg_status@ =~= Seq::<AppConfigStatus>::empty()
    }
    pub open spec fn set_state_ok(s: Session) -> bool { s.state == SessionState::SessionStateInit || s_active(s) }
    pub open spec fn set_refusal(d0: Device, c: SessionSetAppConfigCmd, r: SessionSetAppConfigRsp) -> bool {
        let k = c.session_token;
        let s = d0.sessions@[k];
        ||| !known(d0, k) && no_status(r, Status::ErrorSessionNotExist)
        ||| known(d0, k) && !fira(s.session_type) && no_status(r, Status::Rejected)
        ||| known(d0, k) && fira(s.session_type) && s_active(s) && names_immutable(c.tlvs@) && no_status(r, Status::ErrorSessionActive)
        ||| known(d0, k) && fira(s.session_type) && !set_state_ok(s) && no_status(r, Status::Rejected)
        ||| known(d0, k) && fira(s.session_type) && set_state_ok(s) && !(s_active(s) && names_immutable(c.tlvs@))
            && exists|ch: Seq<AppConfig>| #[trigger] set_chain(ch, s.app_config, c.tlvs@) && (
                !mandatory(ch.last()) && no_status(r, Status::Rejected)
                || mandatory(ch.last()) && set_bad(ch, c.tlvs@).len() > 0 && r.status == Status::InvalidParam && r.cfg_status@ == set_bad(ch, c.tlvs@))
    }
    pub open spec fn set_accept(d0: Device, d1: Device, c: SessionSetAppConfigCmd, r: SessionSetAppConfigRsp) -> bool {
        let k = c.session_token;
        let s = d0.sessions@[k];
        &&& known(d0, k) && fira(s.session_type) && set_state_ok(s) && !(s_active(s) && names_immutable(c.tlvs@))
        &&& exists|ch: Seq<AppConfig>| #[trigger] set_chain(ch, s.app_config, c.tlvs@) && set_bad(ch, c.tlvs@).len() == 0
                && mandatory(ch.last()) && d1.sessions@[k].app_config == ch.last()
        &&& no_status(r, Status::Ok)
    }
    /// A02: all the parameters are applied, or nothing changes.
    pub open spec fn p_set_A02(d0: Device, d1: Device, c: SessionSetAppConfigCmd, r: SessionSetAppConfigRsp) -> bool {
        if r.status == Status::Ok { set_accept(d0, d1, c, r) } else { set_refusal(d0, c, r) && dev_same(d0, d1) }
    }
    pub open spec fn p_set_S01(d0: Device, d1: Device, c: SessionSetAppConfigCmd, r: SessionSetAppConfigRsp) -> bool {
        let k = c.session_token;
        if r.status == Status::Ok {
            &&& only(d0, d1, k)
            &&& d1 == (Device { sessions: d1.sessions, ..d0 })
            &&& d1.sessions@[k] == (Session {
                state: if st(d0, k) == SessionState::SessionStateInit { SessionState::SessionStateIdle } else { st(d0, k) },
                app_config: d1.sessions@[k].app_config, ..d0.sessions@[k] })
        } else {
            dev_same(d0, d1)
        }
    }
    pub open spec fn p_set_S04(d0: Device, c: SessionSetAppConfigCmd, r: SessionSetAppConfigRsp, w0: WG, w1: WG) -> bool {
        let k = c.session_token;
        w_spawned(w0, w1, if r.status == Status::Ok && st(d0, k) == SessionState::SessionStateInit {
            one(session_ntf(chan(d0), k, SessionState::SessionStateIdle, mgmt())) } else { no_tasks() })
    }
    pub open spec fn h_set(d0: Device, d1: Device, w0: WG, w1: WG, c: SessionSetAppConfigCmd, r: SessionSetAppConfigRsp) -> bool {
        p_set_A02(d0, d1, c, r) && p_set_S01(d0, d1, c, r) && p_set_S04(d0, c, r, w0, w1) && w1.aborted == w0.aborted && w_quiet(w0, w1)
    }

    pub open spec fn all_readable(c: AppConfig, ids: Seq<AppConfigTlvType>) -> bool {
        forall|i: int| 0 <= i < ids.len() ==> app_readable(c, #[trigger] ids[i])
    }
    pub open spec fn h_get(d: Device, c: SessionGetAppConfigCmd, r: SessionGetAppConfigRsp) -> bool {
        if !known(d, c.session_token) {
            r.status == Status::ErrorSessionNotExist && r.tlvs@ == Seq::<AppConfigTlv>::empty()
        } else {
            let cfg = d.sessions@[c.session_token].app_config;
            if all_readable(cfg, c.app_cfg@) {
                &&& r.status == Status::Ok
                &&& r.tlvs@.len() == c.app_cfg@.len()
                &&& forall|i: int| 0 <= i < r.tlvs@.len() ==> ((#[trigger] r.tlvs@[i]).cfg_id == c.app_cfg@[i] && r.tlvs@[i].v@ == app_value(cfg, c.app_cfg@[i]))
            } else {
                r.status == Status::Failed && r.tlvs@ == Seq::<AppConfigTlv>::empty()
            }
        }
    }

    // --------------------------------------------------------------- multicast

    pub ghost struct MC {
        pub dst: Seq<MacAddress>,
        pub rsp: Seq<ControleeStatus>,
        pub ntf: Seq<ControleeStatus>,
        pub status: Status,
        pub stops: Multiset<TaskV>,
    }
    pub open spec fn mc_entry(a: MacAddress, s: MulticastUpdateStatus) -> ControleeStatus {
        ControleeStatus { mac_address: a->Short_0, status: s }
    }
    /// The addresses of the command's controlees.
    pub open spec fn mc_addrs(act: UpdateMulticastListAction, payload: Seq<u8>, addrs: Seq<MacAddress>) -> bool {
        match act {
            UpdateMulticastListAction::AddControlee | UpdateMulticastListAction::RemoveControlee =>
                exists|p: SessionUpdateControllerMulticastListCmdPayload|
                    #[trigger] SessionUpdateControllerMulticastListCmdPayload::dec_ok(payload, p, Seq::empty())
                        && addrs =~= Seq::new(p.controlees@.len(), |i: int| MacAddress::Short(p.controlees@[i].short_address)),
            UpdateMulticastListAction::AddControleeWithShortSubSessionKey =>
                exists|p: SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload|
                    #[trigger] SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload::dec_ok(payload, p, Seq::empty())
                        && addrs =~= Seq::new(p.controlees@.len(), |i: int| MacAddress::Short(p.controlees@[i].short_address)),
            UpdateMulticastListAction::AddControleeWithExtendedSubSessionKey =>
                exists|p: SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload|
                    #[trigger] SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload::dec_ok(payload, p, Seq::empty())
                        && addrs =~= Seq::new(p.controlees@.len(), |i: int| MacAddress::Short(p.controlees@[i].short_address)),
        }
    }
    pub open spec fn undecodable<P: Packet>(b: Seq<u8>) -> bool {
        P::dec_bad(b) || exists|p: P, rest: Seq<u8>| rest.len() > 0 && #[trigger] P::dec_ok(b, p, rest)
    }
    pub open spec fn mc_syntax(act: UpdateMulticastListAction, b: Seq<u8>) -> bool {
        match act {
            UpdateMulticastListAction::AddControlee | UpdateMulticastListAction::RemoveControlee =>
                undecodable::<SessionUpdateControllerMulticastListCmdPayload>(b),
            UpdateMulticastListAction::AddControleeWithShortSubSessionKey =>
                undecodable::<SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload>(b),
            UpdateMulticastListAction::AddControleeWithExtendedSubSessionKey =>
                undecodable::<SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload>(b),
        }
    }
    pub open spec fn keyed(act: UpdateMulticastListAction) -> bool {
        act == UpdateMulticastListAction::AddControleeWithShortSubSessionKey || act == UpdateMulticastListAction::AddControleeWithExtendedSubSessionKey
    }
    /// Adding one controlee.
    pub open spec fn mc_add1(m: MC, a: MacAddress, key_bad: bool) -> MC {
        if key_bad {
            MC { status: Status::Failed, ntf: m.ntf.push(mc_entry(a, MulticastUpdateStatus::ErrorSubSessionKeyNotApplicable)), ..m }
        } else if m.dst.contains(a) {
            MC { status: Status::Failed, rsp: m.rsp.push(mc_entry(a, MulticastUpdateStatus::ErrorAddressAlreadyPresent)), ..m }
        } else if m.dst.len() >= 8 {
            MC { status: Status::ErrorMulticastListFull, rsp: m.rsp.push(mc_entry(a, MulticastUpdateStatus::ErrorMulticastListFull)), ..m }
        } else {
            MC { dst: m.dst.push(a), rsp: m.rsp.push(mc_entry(a, MulticastUpdateStatus::OkMulticastListUpdate)), ..m }
        }
    }
    /// The stop requests issued when a is removed from session id.
    pub open spec fn stop_task(a: MacAddress, id: u32, n: u8) -> TaskV {
        TaskV { periodic: false, acts: Seq::new(n as nat, |i: int| Act::Cmd { at: 0, cmd: CmdV::StopRanging(a, id) }), len: 0 }
    }
    pub open spec fn without(s: Seq<MacAddress>, a: MacAddress) -> Seq<MacAddress>
        decreases s.len()
    {
        if s.len() == 0 { Seq::empty() }
        else if s.last() == a { without(s.drop_last(), a) }
        else { without(s.drop_last(), a).push(s.last()) }
    }
    /// Removing one controlee.
    pub open spec fn mc_del1(m: MC, a: MacAddress, id: u32, attempts: u8) -> MC {
        if m.dst.contains(a) {
            MC {
                dst: without(m.dst, a),
                rsp: m.rsp.push(mc_entry(a, MulticastUpdateStatus::OkMulticastListUpdate)),
                ntf: m.ntf.push(mc_entry(a, MulticastUpdateStatus::OkMulticastListUpdate)),
                stops: if attempts == 0 { m.stops } else { m.stops.add(one(stop_task(a, id, attempts))) },
                ..m
            }
        } else {
            MC { status: Status::Failed, rsp: m.rsp.push(mc_entry(a, MulticastUpdateStatus::ErrorAddressNotFound)), ..m }
        }
    }
    pub open spec fn mc_start(dst: Seq<MacAddress>) -> MC {
        MC { dst, rsp: Seq::empty(), ntf: Seq::empty(), status: Status::Ok, stops: no_tasks() }
    }
    pub open spec fn mc_add(dst: Seq<MacAddress>, addrs: Seq<MacAddress>, key_bad: bool) -> MC
        decreases addrs.len()
    {
        if addrs.len() == 0 { mc_start(dst) } else { mc_add1(mc_add(dst, addrs.drop_last(), key_bad), addrs.last(), key_bad) }
    }
    pub open spec fn mc_del(dst: Seq<MacAddress>, addrs: Seq<MacAddress>, id: u32, attempts: u8) -> MC
        decreases addrs.len()
    {
        if addrs.len() == 0 { mc_start(dst) } else { mc_del1(mc_del(dst, addrs.drop_last(), id, attempts), addrs.last(), id, attempts) }
    }
    pub open spec fn mc_res(s: Session, act: UpdateMulticastListAction, addrs: Seq<MacAddress>) -> MC {
        if act == UpdateMulticastListAction::RemoveControlee {
            mc_del(s.app_config.dst_mac_address@, addrs, s.id, s.app_config.in_band_termination_attempt_count)
        } else {
            mc_add(s.app_config.dst_mac_address@, addrs, keyed(act) && s.app_config.sts_config != StsConfig::ProvisionedForResponderSubSessionKey)
        }
    }
    pub open spec fn mc_refused(d0: Device, c: SessionUpdateControllerMulticastListCmd, r: SessionUpdateControllerMulticastListRsp) -> bool {
        let s = d0.sessions@[c.session_token];
        &&& r.controlee_status@ == Seq::<ControleeStatus>::empty()
        &&& r.status == if !known(d0, c.session_token) { Status::ErrorSessionNotExist } else if !mc_allowed(s) { Status::Rejected } else { Status::SyntaxError }
        &&& known(d0, c.session_token) && mc_allowed(s) ==> mc_syntax(c.action, c.payload@)
    }
    pub open spec fn mc_allowed(s: Session) -> bool {
        (s_active(s) || s.state == SessionState::SessionStateIdle) && s.app_config.device_type == Some(DeviceType::Controller)
            && s.app_config.multi_node_mode == Some(MultiNodeMode::OneToMany)
    }
    pub open spec fn mc_ok(d0: Device, c: SessionUpdateControllerMulticastListCmd, r: SessionUpdateControllerMulticastListRsp) -> bool {
        known(d0, c.session_token) && mc_allowed(d0.sessions@[c.session_token]) && r.status != Status::SyntaxError
    }
    /// The new list, count and statuses.
    pub open spec fn mc_done(s0: Session, s1: Session, m: MC, r: SessionUpdateControllerMulticastListRsp) -> bool {
        let emptied = m.dst.len() == 0;
        &&& r.status == m.status && r.controlee_status@ =~= m.rsp
        &&& s1.app_config.dst_mac_address@ =~= m.dst
        &&& s1.app_config == (AppConfig { number_of_controlees: m.dst.len() as u8, dst_mac_address: s1.app_config.dst_mac_address, ..s0.app_config })
        &&& s1 == (Session {
            app_config: s1.app_config,
            state: if emptied { SessionState::SessionStateIdle } else { s0.state },
            ranging_task: if emptied { None } else { s0.ranging_task },
            ..s0 })
    }
    pub open spec fn mc_tasks(c: int, d0: Device, d1: Device, s0: Session, act: UpdateMulticastListAction, m: MC) -> Multiset<TaskV> {
        let ntf = if act == UpdateMulticastListAction::RemoveControlee && s_active(s0) { mc_ntfs(c, s0.id, m.ntf) } else { no_tasks() };
        let moved = if m.dst.len() == 0 { sn(c, s0.id, s0.state, SessionState::SessionStateIdle, ReasonCode::ErrorInvalidNumOfControlees) } else { no_tasks() };
        m.stops.add(ntf).add(moved).add(dn(c, d0.state, d1.state))
    }
    pub uninterp spec fn vec_with(s: Seq<ControleeStatus>) -> Vec<ControleeStatus>;
    pub open spec fn mc_ntfs(c: int, id: u32, s: Seq<ControleeStatus>) -> Multiset<TaskV> {
        one(send_task(c, enc_mc_ntf(id, s)))
    }
    /// The bytes of the notification.
    pub open spec fn enc_mc_ntf(id: u32, s: Seq<ControleeStatus>) -> Seq<u8> {
        seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Notification) << 5)) as u8]
            + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateControllerMulticastList)) as u8] + Seq::new(2, |i: int| 0u8)
            + (u32le(id) + seq![s.len() as u8] + cat_ControleeStatus(s))
    }
    pub open spec fn p_mc_M01(d0: Device, d1: Device, c: SessionUpdateControllerMulticastListCmd, r: SessionUpdateControllerMulticastListRsp, addrs: Seq<MacAddress>) -> bool {
        let k = c.session_token;
        &&& mc_addrs(c.action, c.payload@, addrs)
        &&& only(d0, d1, k)
        &&& mc_done(d0.sessions@[k], d1.sessions@[k], mc_res(d0.sessions@[k], c.action, addrs), r)
    }
    /// The command left the session without a destination.
    pub open spec fn mc_emptied(d0: Device, d1: Device, c: SessionUpdateControllerMulticastListCmd, r: SessionUpdateControllerMulticastListRsp) -> bool {
        mc_ok(d0, c, r) && d1.sessions@[c.session_token].app_config.dst_mac_address@.len() == 0
    }
    pub open spec fn p_mc_S01(d0: Device, d1: Device, c: SessionUpdateControllerMulticastListCmd, r: SessionUpdateControllerMulticastListRsp) -> bool {
        mc_emptied(d0, d1, c, r) ==> d1.sessions@[c.session_token].state == SessionState::SessionStateIdle
    }
    pub open spec fn p_mc_S03(d0: Device, d1: Device, c: SessionUpdateControllerMulticastListCmd, r: SessionUpdateControllerMulticastListRsp) -> bool {
        dev_less(d0, d1, mc_emptied(d0, d1, c, r) && s_active(d0.sessions@[c.session_token]))
    }
    pub open spec fn p_mc_tasks(d0: Device, d1: Device, c: SessionUpdateControllerMulticastListCmd, r: SessionUpdateControllerMulticastListRsp, addrs: Seq<MacAddress>, w0: WG, w1: WG) -> bool {
        let s0 = d0.sessions@[c.session_token];
        w_spawned(w0, w1, mc_tasks(chan(d0), d0, d1, s0, c.action, mc_res(s0, c.action, addrs)))
    }
    pub open spec fn p_mc_R02(d0: Device, d1: Device, c: SessionUpdateControllerMulticastListCmd, r: SessionUpdateControllerMulticastListRsp, w0: WG, w1: WG) -> bool {
        w_aborted(w0, w1, if mc_emptied(d0, d1, c, r) { timer_of(d0.sessions@[c.session_token]) } else { Set::empty() })
    }
    pub open spec fn mc_m01(d0: Device, d1: Device, c: SessionUpdateControllerMulticastListCmd, r: SessionUpdateControllerMulticastListRsp) -> bool {
        if mc_ok(d0, c, r) {
            exists|addrs: Seq<MacAddress>| #[trigger] mc_addrs(c.action, c.payload@, addrs) && p_mc_M01(d0, d1, c, r, addrs)
        } else {
            mc_refused(d0, c, r) && dev_same(d0, d1)
        }
    }
    pub open spec fn mc_task(d0: Device, d1: Device, c: SessionUpdateControllerMulticastListCmd, r: SessionUpdateControllerMulticastListRsp, w0: WG, w1: WG) -> bool {
        if mc_ok(d0, c, r) {
            exists|addrs: Seq<MacAddress>| #[trigger] mc_addrs(c.action, c.payload@, addrs) && p_mc_M01(d0, d1, c, r, addrs) && p_mc_tasks(d0, d1, c, r, addrs, w0, w1)
        } else {
            w_spawned(w0, w1, no_tasks())
        }
    }
    pub open spec fn h_mc(d0: Device, d1: Device, w0: WG, w1: WG, c: SessionUpdateControllerMulticastListCmd, r: SessionUpdateControllerMulticastListRsp) -> bool {
        &&& w_quiet(w0, w1) && p_mc_S01(d0, d1, c, r) && p_mc_S03(d0, d1, c, r) && p_mc_R02(d0, d1, c, r, w0, w1)
        &&& mc_m01(d0, d1, c, r) && mc_task(d0, d1, c, r, w0, w1)
    }
    // What the loops of the command have done so far.
    pub open spec fn ctl_addrs(s: Seq<crate::device::Controlee>) -> Seq<MacAddress> {
        Seq::new(s.len(), |i: int| s[i].short_address)
    }
    pub open spec fn ctl_upto(s: Seq<crate::device::Controlee>, n: int, of: spec_fn(int) -> MacAddress) -> bool {
        s.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).short_address == of(i)
    }
    pub open spec fn mc_at(m: MC, dst: Seq<MacAddress>, rsp: Seq<ControleeStatus>, ntf: Seq<ControleeStatus>, st: Status) -> bool {
        m.dst =~= dst && m.rsp =~= rsp && m.ntf =~= ntf && m.status == st && st != Status::SyntaxError
    }
    pub open spec fn shorts(s: Seq<MacAddress>) -> bool {
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Short
    }
    pub proof fn lem_without(s: Seq<MacAddress>, a: MacAddress)
        ensures addrs_bytes(without(s, a)).len() <= addrs_bytes(s).len(), without(s, a).len() <= s.len(),
        decreases s.len(),
    {
        if s.len() > 0 {
            lem_without(s.drop_last(), a);
            if s.last() != a {
                let t = without(s.drop_last(), a);
                assert(t.push(s.last()).drop_last() =~= t);
            }
        }
    }
    /// Every step keeps the list within what one parameter can carry.
    pub proof fn lem_mc_len(dst: Seq<MacAddress>, addrs: Seq<MacAddress>, kb: bool)
        requires addrs_bytes(dst).len() <= 255,
        ensures addrs_bytes(mc_add(dst, addrs, kb).dst).len() <= 255,
        decreases addrs.len(),
    {
        if addrs.len() > 0 {
            lem_mc_len(dst, addrs.drop_last(), kb);
            crate::app::lem_addrs_len(mc_add(dst, addrs, kb).dst);
        }
    }
    pub proof fn lem_mc_len_del(dst: Seq<MacAddress>, addrs: Seq<MacAddress>, id: u32, n: u8)
        requires addrs_bytes(dst).len() <= 255,
        ensures addrs_bytes(mc_del(dst, addrs, id, n).dst).len() <= 255,
        decreases addrs.len(),
    {
        if addrs.len() > 0 {
            lem_mc_len_del(dst, addrs.drop_last(), id, n);
            lem_without(mc_del(dst, addrs.drop_last(), id, n).dst, addrs.last());
        }
    }
    pub proof fn lem_mc_ntf(p: SessionUpdateControllerMulticastListNtf)
        ensures encf_SessionUpdateControllerMulticastListNtf(p) == enc_mc_ntf(p.session_token, p.controlee_status@),
    {
        reveal(encf_SessionUpdateControllerMulticastListNtf);
        reveal(encp_SessionUpdateControllerMulticastListNtf);
    }

    // ------------------------------------------------------------- android

    pub open spec fn h_country(d0: Device, d1: Device, c: AndroidSetCountryCodeCmd, r: AndroidSetCountryCodeRsp) -> bool {
        r.status == Status::Ok && d1 == (Device { country_code: c.country_code, ..d0 })
    }
    pub open spec fn h_power(r: AndroidGetPowerStatsRsp) -> bool {
        r.stats.status == Status::Ok && r.stats.idle_time_ms == 0 && r.stats.tx_time_ms == 0 && r.stats.rx_time_ms == 0 && r.stats.total_wake_count == 0
    }

    // ------------------------------------------------------------- dispatch

    /// What a command of this group decodes to; None when it does not.
    pub open spec fn child_Core(cmd: ControlPacket) -> CorePacketChild {
        match spec_specialize_ControlPacket(cmd) {
            Ok(ControlPacketChild::CorePacket(x)) => match spec_specialize_CorePacket(x) { Ok(c) => c, Err(_) => CorePacketChild::None },
            _ => CorePacketChild::None,
        }
    }
    /// What a command of this group decodes to; None when it does not.
    pub open spec fn child_SessionConfig(cmd: ControlPacket) -> SessionConfigPacketChild {
        match spec_specialize_ControlPacket(cmd) {
            Ok(ControlPacketChild::SessionConfigPacket(x)) => match spec_specialize_SessionConfigPacket(x) { Ok(c) => c, Err(_) => SessionConfigPacketChild::None },
            _ => SessionConfigPacketChild::None,
        }
    }
    /// What a command of this group decodes to; None when it does not.
    pub open spec fn child_SessionControl(cmd: ControlPacket) -> SessionControlPacketChild {
        match spec_specialize_ControlPacket(cmd) {
            Ok(ControlPacketChild::SessionControlPacket(x)) => match spec_specialize_SessionControlPacket(x) { Ok(c) => c, Err(_) => SessionControlPacketChild::None },
            _ => SessionControlPacketChild::None,
        }
    }
    /// What a command of this group decodes to; None when it does not.
    pub open spec fn child_Android(cmd: ControlPacket) -> AndroidPacketChild {
        match spec_specialize_ControlPacket(cmd) {
            Ok(ControlPacketChild::AndroidPacket(x)) => match spec_specialize_AndroidPacket(x) { Ok(c) => c, Err(_) => AndroidPacketChild::None },
            _ => AndroidPacketChild::None,
        }
    }
    pub open spec fn is_reset_cmd(cmd: ControlPacket) -> bool {
        cmd.gid == GroupId::Core && val_CorePacket(cmd.payload@) && of_CoreOpcodeId((cmd.payload@[0] & 63) as u8) == Some(CoreOpcodeId::DeviceReset)
    }
    /// C03: before the reset a command is refused and has no effect.
    pub open spec fn refused(d0: Device, cmd: ControlPacket) -> bool { !d0.is_reset && !is_reset_cmd(cmd) }
    pub open spec fn q_refused(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        refused(d0, cmd) ==> d1 == d0 && w1 == w0
            && out.enc() == encf_CoreDeviceStatusNtf(CoreDeviceStatusNtf { device_state: DeviceState::DeviceStateError })
    }
    /// C02: the response carries the group and the opcode of the command.
    pub open spec fn q_head(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> out.mt == MessageType::Response && out.gid == cmd.gid && out.payload@.len() >= 3
            && ((out.payload@[0] & 0x3f) as u8) == ((cmd.payload@[0] & 0x3f) as u8)
    }
    pub open spec fn q_CoreDeviceReset(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_Core(cmd) matches CorePacketChild::CoreDeviceResetCmd(c) ==>
            exists|r: CoreDeviceResetRsp| h_reset(d0, d1, w0, w1, r) && out.enc() == #[trigger] encf_CoreDeviceResetRsp(r))
    }
    pub open spec fn q_CoreGetDeviceInfo(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_Core(cmd) matches CorePacketChild::CoreGetDeviceInfoCmd(c) ==>
            exists|r: CoreGetDeviceInfoRsp| h_info(r) && d1 == d0 && w1 == w0 && out.enc() == #[trigger] encf_CoreGetDeviceInfoRsp(r))
    }
    pub open spec fn q_CoreGetCapsInfo(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_Core(cmd) matches CorePacketChild::CoreGetCapsInfoCmd(c) ==>
            exists|r: CoreGetCapsInfoRsp| h_caps(r) && d1 == d0 && w1 == w0 && out.enc() == #[trigger] encf_CoreGetCapsInfoRsp(r))
    }
    pub open spec fn q_CoreSetConfig(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_Core(cmd) matches CorePacketChild::CoreSetConfigCmd(c) ==>
            exists|r: CoreSetConfigRsp| h_set_config(d0, d1, c, r) && w1 == w0 && out.enc() == #[trigger] encf_CoreSetConfigRsp(r))
    }
    pub open spec fn q_CoreGetConfig(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_Core(cmd) matches CorePacketChild::CoreGetConfigCmd(c) ==>
            exists|r: CoreGetConfigRsp| h_get_config(d0, c, r) && d1 == d0 && w1 == w0 && out.enc() == #[trigger] encf_CoreGetConfigRsp(r))
    }
    pub open spec fn q_SessionInit(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_SessionConfig(cmd) matches SessionConfigPacketChild::SessionInitCmd(c) ==>
            exists|r: SessionInitRsp| h_init(d0, d1, w0, w1, c, r) && out.enc() == #[trigger] encf_SessionInitRsp(r))
    }
    pub open spec fn q_SessionDeinit(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_SessionConfig(cmd) matches SessionConfigPacketChild::SessionDeinitCmd(c) ==>
            exists|r: SessionDeinitRsp| h_deinit(d0, d1, w0, w1, c, r) && out.enc() == #[trigger] encf_SessionDeinitRsp(r))
    }
    pub open spec fn q_SessionGetCount(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_SessionConfig(cmd) matches SessionConfigPacketChild::SessionGetCountCmd(c) ==>
            exists|r: SessionGetCountRsp| h_count(d0, r) && d1 == d0 && w1 == w0 && out.enc() == #[trigger] encf_SessionGetCountRsp(r))
    }
    pub open spec fn q_SessionSetAppConfig(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_SessionConfig(cmd) matches SessionConfigPacketChild::SessionSetAppConfigCmd(c) ==>
            exists|r: SessionSetAppConfigRsp| h_set(d0, d1, w0, w1, c, r) && out.enc() == #[trigger] encf_SessionSetAppConfigRsp(r))
    }
    pub open spec fn q_SessionGetAppConfig(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_SessionConfig(cmd) matches SessionConfigPacketChild::SessionGetAppConfigCmd(c) ==>
            exists|r: SessionGetAppConfigRsp| h_get(d0, c, r) && d1 == d0 && w1 == w0 && out.enc() == #[trigger] encf_SessionGetAppConfigRsp(r))
    }
    pub open spec fn q_SessionGetState(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_SessionConfig(cmd) matches SessionConfigPacketChild::SessionGetStateCmd(c) ==>
            exists|r: SessionGetStateRsp| h_state(d0, c, r) && d1 == d0 && w1 == w0 && out.enc() == #[trigger] encf_SessionGetStateRsp(r))
    }
    pub open spec fn q_SessionUpdateControllerMulticastList(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_SessionConfig(cmd) matches SessionConfigPacketChild::SessionUpdateControllerMulticastListCmd(c) ==>
            exists|r: SessionUpdateControllerMulticastListRsp| h_mc(d0, d1, w0, w1, c, r) && out.enc() == #[trigger] encf_SessionUpdateControllerMulticastListRsp(r))
    }
    pub open spec fn q_SessionStart(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_SessionControl(cmd) matches SessionControlPacketChild::SessionStartCmd(c) ==>
            exists|r: SessionStartRsp| h_start(d0, d1, w0, w1, c, r) && out.enc() == #[trigger] encf_SessionStartRsp(r))
    }
    pub open spec fn q_SessionStop(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_SessionControl(cmd) matches SessionControlPacketChild::SessionStopCmd(c) ==>
            exists|r: SessionStopRsp| h_stop(d0, d1, w0, w1, c, r) && out.enc() == #[trigger] encf_SessionStopRsp(r))
    }
    pub open spec fn q_SessionGetRangingCount(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_SessionControl(cmd) matches SessionControlPacketChild::SessionGetRangingCountCmd(c) ==>
            exists|r: SessionGetRangingCountRsp| h_rcount(d0, c, r) && d1 == d0 && w1 == w0 && out.enc() == #[trigger] encf_SessionGetRangingCountRsp(r))
    }
    pub open spec fn q_AndroidSetCountryCode(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_Android(cmd) matches AndroidPacketChild::AndroidSetCountryCodeCmd(c) ==>
            exists|r: AndroidSetCountryCodeRsp| h_country(d0, d1, c, r) && w1 == w0 && out.enc() == #[trigger] encf_AndroidSetCountryCodeRsp(r))
    }
    pub open spec fn q_AndroidGetPowerStats(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) ==> (child_Android(cmd) matches AndroidPacketChild::AndroidGetPowerStatsCmd(c) ==>
            exists|r: AndroidGetPowerStatsRsp| h_power(r) && d1 == d0 && w1 == w0 && out.enc() == #[trigger] encf_AndroidGetPowerStatsRsp(r))
    }
    /// The commands the device implements.
    pub open spec fn served(cmd: ControlPacket) -> bool {
        child_Core(cmd) is CoreDeviceResetCmd
        || child_Core(cmd) is CoreGetDeviceInfoCmd
        || child_Core(cmd) is CoreGetCapsInfoCmd
        || child_Core(cmd) is CoreSetConfigCmd
        || child_Core(cmd) is CoreGetConfigCmd
        || child_SessionConfig(cmd) is SessionInitCmd
        || child_SessionConfig(cmd) is SessionDeinitCmd
        || child_SessionConfig(cmd) is SessionGetCountCmd
        || child_SessionConfig(cmd) is SessionSetAppConfigCmd
        || child_SessionConfig(cmd) is SessionGetAppConfigCmd
        || child_SessionConfig(cmd) is SessionGetStateCmd
        || child_SessionConfig(cmd) is SessionUpdateControllerMulticastListCmd
        || child_SessionControl(cmd) is SessionStartCmd
        || child_SessionControl(cmd) is SessionStopCmd
        || child_SessionControl(cmd) is SessionGetRangingCountCmd
        || child_Android(cmd) is AndroidSetCountryCodeCmd
        || child_Android(cmd) is AndroidGetPowerStatsCmd
    }
    /// C02: an unknown group, an unknown opcode or a malformed command.
    pub open spec fn q_other(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        !refused(d0, cmd) && !served(cmd) ==> d1 == d0 && w1 == w0 && out.payload@.len() == 4 && out.payload@[2] == 1
            && out.payload@[3] == (if spec_specialize_ControlPacket(cmd) == core::result::Result::<ControlPacketChild, crate::stubs::pdl_runtime::DecodeError>::Ok(ControlPacketChild::None) { code_Status(Status::UnknownGid) } else { code_Status(Status::UnknownOid) })
    }
    pub open spec fn q_command(d0: Device, d1: Device, w0: WG, w1: WG, cmd: ControlPacket, out: ControlPacket) -> bool {
        q_refused(d0, d1, w0, w1, cmd, out)
        && q_head(d0, d1, w0, w1, cmd, out)
        && q_other(d0, d1, w0, w1, cmd, out)
        && q_CoreDeviceReset(d0, d1, w0, w1, cmd, out)
        && q_CoreGetDeviceInfo(d0, d1, w0, w1, cmd, out)
        && q_CoreGetCapsInfo(d0, d1, w0, w1, cmd, out)
        && q_CoreSetConfig(d0, d1, w0, w1, cmd, out)
        && q_CoreGetConfig(d0, d1, w0, w1, cmd, out)
        && q_SessionInit(d0, d1, w0, w1, cmd, out)
        && q_SessionDeinit(d0, d1, w0, w1, cmd, out)
        && q_SessionGetCount(d0, d1, w0, w1, cmd, out)
        && q_SessionSetAppConfig(d0, d1, w0, w1, cmd, out)
        && q_SessionGetAppConfig(d0, d1, w0, w1, cmd, out)
        && q_SessionGetState(d0, d1, w0, w1, cmd, out)
        && q_SessionUpdateControllerMulticastList(d0, d1, w0, w1, cmd, out)
        && q_SessionStart(d0, d1, w0, w1, cmd, out)
        && q_SessionStop(d0, d1, w0, w1, cmd, out)
        && q_SessionGetRangingCount(d0, d1, w0, w1, cmd, out)
        && q_AndroidSetCountryCode(d0, d1, w0, w1, cmd, out)
        && q_AndroidGetPowerStats(d0, d1, w0, w1, cmd, out)
    }
    pub proof fn lem_ctl(p: ControlPacket)
        ensures p.enc() =~= seq![(code_GroupId(p.gid) | (code_MessageType(p.mt) << 5)) as u8] + p.payload@,
    {
        reveal(encf_ControlPacket);
        reveal(encp_ControlPacket);
    }

    // ---------------------------------------------------------------- data

    /// D01: a data packet is queued on its own session or refused.
    pub open spec fn q_data(d0: Device, d1: Device, data: DataPacketChild, out: ControlPacket) -> bool {
        match data {
            DataPacketChild::DataMessageSnd(m) => if known(d0, m.session_handle) {
                d1 == (Device { sessions: d1.sessions, ..d0 }) && only(d0, d1, m.session_handle)
                    && d1.sessions@[m.session_handle] == (Session { data: d1.sessions@[m.session_handle].data, ..d0.sessions@[m.session_handle] })
                    && p_data_snd(d0.sessions@[m.session_handle], d1.sessions@[m.session_handle], m, out)
            } else {
                d1 == d0 && out.enc() == encf_SessionDataTransferStatusNtf(data_err(m.session_handle,
                    DataTransferNtfStatusCode::UciDataTransferStatusErrorRejected, 0))
            },
            DataPacketChild::DataMessageRcv(m) => d1 == d0 && out.enc() == encf_SessionDataTransferStatusNtf(data_err(m.session_handle,
                DataTransferNtfStatusCode::UciDataTransferStatusInvalidFormat, 0)),
            DataPacketChild::None => false,
        }
    }

    // ------------------------------------------------------------- packets

    /// The type of a received packet; an unknown one is taken as a command.
    pub open spec fn mt_of(b: Seq<u8>) -> MessageType {
        match of_MessageType(((b[0] >> 5) & 7) as u8) { Some(m) => m, None => MessageType::Command }
    }
    /// Too short to be a packet, or not for the device: no effect, no answer.
    pub open spec fn ignored(b: Seq<u8>) -> bool {
        b.len() < 4 || (mt_of(b) != MessageType::Command && mt_of(b) != MessageType::Data)
    }
    pub open spec fn bad_status(b: Seq<u8>) -> Status {
        if of_GroupId((b[0] & 0xf) as u8) is Some { Status::UnknownOid } else { Status::UnknownGid }
    }
    /// The answer to a command with an unknown group or type.
    pub open spec fn bad_rsp(b: Seq<u8>) -> Seq<u8> {
        seq![(((code_MessageType(MessageType::Response) << 5) as u8) | (b[0] & 0xf)) as u8, (b[1] & 0x3f) as u8, 0u8, 1u8, code_Status(bad_status(b))]
    }
    pub open spec fn p_packet_cmd(d0: Device, d1: Device, w0: WG, w1: WG, b: Seq<u8>) -> bool {
        b.len() >= 4 && mt_of(b) == MessageType::Command ==> if val_ControlPacket(b) {
            exists|cmd: ControlPacket, out: ControlPacket, wm: WG| rel_ControlPacket(b, cmd) && #[trigger] q_command(d0, d1, w0, wm, cmd, out)
                && w1 == add_sent(wm, chan(d0), out.enc())
        } else {
            d1 == d0 && w1 == add_sent(w0, chan(d0), bad_rsp(b))
        }
    }
    pub open spec fn p_packet_data(d0: Device, d1: Device, w0: WG, w1: WG, b: Seq<u8>) -> bool {
        b.len() >= 4 && mt_of(b) == MessageType::Data ==> if val_DataPacket(b) {
            exists|p: DataPacket| rel_DataPacket(b, p) && match #[trigger] spec_specialize_DataPacket(p) {
                Ok(c) => exists|out: ControlPacket| #[trigger] q_data(d0, d1, c, out) && w1 == add_sent(w0, chan(d0), out.enc()),
                Err(_) => d1 == d0 && w1 == w0,
            }
        } else { d1 == d0 && w1 == w0 }
    }
    /// P02: nothing but the tasks and one packet on the device's own channel.
    pub open spec fn p_packet_P02(d0: Device, d1: Device, w0: WG, w1: WG) -> bool {
        &&& d1.handle == d0.handle && d1.mac_address == d0.mac_address && d1.tx == d0.tx && d1.pica_tx == d0.pica_tx
        &&& w1 == (WG { spawned: w1.spawned, nspawn: w1.nspawn, aborted: w1.aborted, sent: w1.sent, ..w0 })
        &&& forall|c: int| c != chan(d0) ==> #[trigger] sent_on(w1, c) == sent_on(w0, c)
        &&& sent_on(w1, chan(d0)).len() <= sent_on(w0, chan(d0)).len() + 1
        &&& sent_on(w1, chan(d0)).take(sent_on(w0, chan(d0)).len() as int) =~= sent_on(w0, chan(d0))
    }

    pub broadcast group dev_group {
        lem_active_insert, lem_active_remove, lem_active_finite, lem_active_zero, lem_active_empty
    }
    }
}
