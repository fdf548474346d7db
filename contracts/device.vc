@impl device::Device
%synth device::Device::vdrop S01 S04 R02
/// Drop glue of a device: its sessions are dropped.
pub fn vdrop(&mut self, w: &mut crate::stubs::World)
    requires
        %req !old(w)@.task
    ensures
        %ens P02: crate::dspec::w_quiet(old(w)@, final(w)@)
        %ens S04 R02: crate::dspec::ended(old(w)@, final(w)@, old(self).sessions@, crate::dspec::no_tasks())
{
    let ks = self.sessions.v_keys();
    let ghost m = self.sessions@;
    let ghost w0 = w@;
    let mut i: usize = 0;
    while i < ks.len()
        invariant
            i <= ks@.len(),
            ks@.no_duplicates(),
            ks@.to_set() =~= m.dom(),
            self.sessions@.dom() =~= m.dom(),
            forall|j: int| i <= j < ks@.len() ==> #[trigger] self.sessions@[ks@[j]] == m[ks@[j]],
            !w@.task,
            w0.task == w@.task,
            %inv P02: crate::dspec::w_quiet(w0, w@)
            %inv S04: crate::dspec::w_spawned(w0, w@, crate::dspec::deinit_ntfs(m, ks@.take(i as int)))
            %inv R02: crate::dspec::w_aborted(w0, w@, crate::dspec::timers(m, ks@.take(i as int)))
        decreases ks@.len() - i,
    {
        let ghost wi = w@;
        proof {
            assert(ks@.to_set().contains(ks@[i as int]));
            assert(ks@.take(i + 1).drop_last() =~= ks@.take(i as int));
        }
        self.sessions.v_get_mut_at(&ks, i).vdrop(w);
        i = i + 1;
    }
    proof {
        assert(ks@.take(ks@.len() as int) =~= ks@);
        assert(crate::dspec::all_keys(m, ks@));
        let d = crate::dspec::deinit_ntfs(m, ks@);
        assert(d.add(crate::dspec::no_tasks()) =~= d);
        assert(crate::dspec::w_spawned(w0, w@, d.add(crate::dspec::no_tasks())));
    }
}
%endsynth
@impl device::VDefault for DeviceConfig
open spec fn default_ens(r: Self) -> bool { r.low_power_mode }
@fn device::VDefault for DeviceConfig::default
@tags C03 C04
@const device::DEFAULT_CAPS_INFO
pub exec const DEFAULT_CAPS_INFO: $TYPE
    ensures
        @ens C04: DEFAULT_CAPS_INFO@.len() == crate::dspec::caps_list().len() && (forall|i: int| 0 <= i < DEFAULT_CAPS_INFO@.len() ==> (#[trigger] DEFAULT_CAPS_INFO@[i]).0 == crate::dspec::caps_list()[i].0 && DEFAULT_CAPS_INFO@[i].1@ =~= crate::dspec::caps_list()[i].1)
{ $EXPR }

@fn device::Device::new
@tags S01 C03
@ens C03: !r.is_reset && r.handle == handle && r.mac_address == mac_address && r.tx == tx && r.pica_tx == pica_tx
@ens C03: r.sessions@ =~= Map::<u32, Session>::empty() && r.n_active_sessions == 0
@ens C03: r.state == DeviceState::DeviceStateError
@ens C03: r.config.low_power_mode && r.country_code@ =~= seq![0u8, 0u8]

@fn device::Device::set_state
@tags S03 S04
@req !old(w)@.task
@ens S03: *final(self) == (Device { state: device_state, ..*old(self) })
@ens S04: crate::dspec::w_spawned(old(w)@, final(w)@, crate::dspec::dn(old(self).tx.chan(), old(self).state, device_state))
@ens S04 P02: crate::dspec::w_quiet(old(w)@, final(w)@) && final(w)@.aborted == old(w)@.aborted

@fn device::Device::init
@tags S03 S04
@req !old(w)@.task
@ens S03: *final(self) == (Device { state: DeviceState::DeviceStateReady, ..*old(self) })
@ens S04: crate::dspec::w_spawned(old(w)@, final(w)@, crate::dspec::dn(old(self).tx.chan(), old(self).state, DeviceState::DeviceStateReady))
@ens S04 P02: crate::dspec::w_quiet(old(w)@, final(w)@) && final(w)@.aborted == old(w)@.aborted

@fn device::Device::session
@ens S02: (r is Some) == self.sessions@.dom().contains(session_id)
@ens S02: r matches Some(s) ==> *s == self.sessions@[session_id]

@fn device::Device::session_mut
@ens S02: (r is Some) == old(self).sessions@.dom().contains(session_id)
@ens S02 P02: *final(self) == (Device { sessions: final(self).sessions, ..*old(self) })
@ens S02 D01: r is None ==> *final(self) == *old(self)
@ens S02 D01: r matches Some(s) ==> *s == old(self).sessions@[session_id] && final(self).sessions@ == old(self).sessions@.insert(session_id, *final(s))

@fn device::Device::can_start_ranging
@tags R01
@req crate::dspec::wf_states(*self)
@req peer_session.app_config.device_mac_address is Some
@ens R01: r == crate::dspec::ranging_peer(*self, *peer_session, session_id)

@fn device::Device::can_start_data_transfer
@tags D01
@ens D01: r == (crate::dspec::data_session(*self, session_id) && self.sessions@[session_id].app_config.device_role == Some(uci::DeviceRole::Initiator))

@fn device::Device::can_receive_data_transfer
@tags D01
@ens D01: r == (crate::dspec::data_session(*self, session_id) && self.sessions@[session_id].app_config.device_role == Some(uci::DeviceRole::Responder))

@fn device::Device::send_raw_control
@tags W01 P02
@req !old(w)@.task
@ens P02: *final(self) == *old(self)
@ens W01 C02: final(w)@ == crate::stubs::add_sent(old(w)@, old(self).tx.chan(), packet@)

@fn device::Device::send_control
@tags W01 P02
@req !old(w)@.task
@req packet.enc_ok()
@ens P02: *final(self) == *old(self)
@ens W01 C02: final(w)@ == crate::stubs::add_sent(old(w)@, old(self).tx.chan(), packet.enc())

@fn device::Device::core_device_reset
@tags C03 S03 S04
@req !old(w)@.task
@ens C02: r.status == uci::Status::Ok
@ens C03: crate::dspec::p_reset_C03(*old(self), *final(self))
@ens S04 R02: crate::dspec::p_reset_tasks(*old(self), *final(self), old(w)@, final(w)@)
@ens P02: crate::dspec::w_quiet(old(w)@, final(w)@)
@ens S01 S02 S03 C03: crate::dspec::dev_wf(*final(self))
@before self.init(w) 1
let ghost wm = w@;
@before CoreDeviceResetRsp { 1
proof {
    let m = old(self).sessions@;
    let n = crate::dspec::one(crate::dspec::device_ntf(self.tx.chan(), DeviceState::DeviceStateReady));
    let ks = choose|ks: Seq<u32>| crate::dspec::all_keys(m, ks) && #[trigger] crate::dspec::w_spawned(old(w)@, wm, crate::dspec::deinit_ntfs(m, ks).add(crate::dspec::no_tasks())) && crate::dspec::w_aborted(old(w)@, wm, crate::dspec::timers(m, ks));
    assert(crate::dspec::w_spawned(old(w)@, w@, crate::dspec::deinit_ntfs(m, ks).add(n)));
}
@ens C01: crate::codec::encok_CoreDeviceResetRsp(r) && crate::codec::wf_CoreDeviceResetRsp(r)

@fn device::Device::core_get_device_info
@tags C04
@ens C04: crate::dspec::h_info(r)
@ens C01: crate::codec::encok_CoreGetDeviceInfoRsp(r) && crate::codec::wf_CoreGetDeviceInfoRsp(r)

@fn device::Device::core_get_caps_info
@tags C04
@ens C04: crate::dspec::h_caps(r)
@ens C01: crate::codec::encok_CoreGetCapsInfoRsp(r) && crate::codec::wf_CoreGetCapsInfoRsp(r)
@loop 1
@inv crate::dspec::caps_upto($V@, (**$S)@, $I as int)

@fn device::Device::core_set_config
@tags C04
@req crate::codec::wf_CoreSetConfigCmd(cmd)
@ens C04: crate::dspec::h_set_config(*old(self), *final(self), cmd, r)
@ens C01: crate::codec::encok_CoreSetConfigRsp(r) && crate::codec::wf_CoreSetConfigRsp(r)
@loop 1
@inv *self == (Device { config: self.config, ..*old(self) })
@inv self.config.low_power_mode == crate::dspec::lp_after(old(self).config.low_power_mode, cmd.parameters@.take($I as int))
@inv invalid_parameters@ == crate::dspec::cfg_bad(cmd.parameters@.take($I as int))
@inv invalid_parameters@.len() <= $I
@inv $I == cmd.parameters@.len() ==> cmd.parameters@.take($I as int) == cmd.parameters@
@loopstart
proof {
    let s = cmd.parameters@;
    assert(s.take($I + 1).drop_last() =~= s.take($I as int));
    assert(s.take(s.len() as int) =~= s);
}

@fn device::Device::core_get_config
@tags C04
@req crate::codec::wf_CoreGetConfigCmd(cmd)
@ens C04: crate::dspec::h_get_config(*self, cmd, r)
@ens C01: crate::codec::encok_CoreGetConfigRsp(r) && crate::codec::wf_CoreGetConfigRsp(r)
@loop 1
@inv crate::dspec::cfg_pairs(valid_parameters@) =~= crate::dspec::cfg_good_of(*self, cmd.parameter_ids@.take($I as int))
@inv crate::dspec::cfg_pairs(invalid_parameters@) =~= crate::dspec::cfg_bad_of(cmd.parameter_ids@.take($I as int))
@inv valid_parameters@.len() <= $I && invalid_parameters@.len() <= $I
@inv forall|i: int| 0 <= i < valid_parameters@.len() ==> (#[trigger] valid_parameters@[i]).value@.len() <= 255
@inv forall|i: int| 0 <= i < invalid_parameters@.len() ==> (#[trigger] invalid_parameters@[i]).value@.len() <= 255
@inv $I == cmd.parameter_ids@.len() ==> cmd.parameter_ids@.take($I as int) == cmd.parameter_ids@
@loopstart
let ghost v0 = valid_parameters@;
let ghost b0 = invalid_parameters@;
proof {
    let s = cmd.parameter_ids@;
    assert(s.take($I + 1).drop_last() =~= s.take($I as int));
    assert(s.take(s.len() as int) =~= s);
}
@loopend
proof {
    let k = cmd.parameter_ids@[$I - 1];
    let v1 = valid_parameters@;
    let b1 = invalid_parameters@;
    if crate::dspec::cfg_known(k) {
        assert(v1.last().value@ =~= crate::dspec::cfg_value(*self, k));
        assert(crate::dspec::cfg_pairs(v1) =~= crate::dspec::cfg_pairs(v0).push((k, crate::dspec::cfg_value(*self, k))));
    } else {
        assert(b1.last().value@ =~= Seq::<u8>::empty());
        assert(crate::dspec::cfg_pairs(b1) =~= crate::dspec::cfg_pairs(b0).push((k, Seq::<u8>::empty())));
    }
}

@fn device::Device::session_init
@tags S01 S02
@req !old(w)@.task
@req crate::dspec::dev_wf(*old(self))
@ens S02: crate::dspec::p_init_S02(*old(self), *final(self), cmd, r)
@ens S01: crate::dspec::p_init_S01(*old(self), *final(self), cmd, r)
@ens S04: crate::dspec::p_init_tasks(*old(self), cmd, r, old(w)@, final(w)@)
@ens P02: crate::dspec::w_quiet(old(w)@, final(w)@)
@ens S01: crate::dspec::wf_base(*final(self)) && crate::dspec::wf_states(*final(self))
@ens S03: crate::dspec::wf_timers(*final(self)) && crate::dspec::wf_active(*final(self))
@ens S02: crate::dspec::wf_table(*final(self))
@ens C03: old(self).is_reset ==> crate::dspec::wf_reset(*final(self))

@fn device::Device::session_deinit
@tags S01 S02 S03
@req !old(w)@.task
@req crate::dspec::dev_wf(*old(self))
@req old(self).is_reset
@ens S02: crate::dspec::p_deinit_S02(*old(self), *final(self), cmd, r)
@ens S03: crate::dspec::p_deinit_S03(*old(self), *final(self), cmd)
@ens S04: crate::dspec::p_deinit_S04(*old(self), *final(self), cmd, old(w)@, final(w)@)
@ens R02 S03: crate::dspec::p_deinit_R02(*old(self), cmd, old(w)@, final(w)@)
@ens P02: crate::dspec::w_quiet(old(w)@, final(w)@)
@ens S01: crate::dspec::wf_base(*final(self)) && crate::dspec::wf_states(*final(self))
@ens S03: crate::dspec::wf_timers(*final(self)) && crate::dspec::wf_active(*final(self))
@ens S02: crate::dspec::wf_table(*final(self))
@ens C03: crate::dspec::wf_reset(*final(self))

@fn device::Device::session_get_count
@tags S02
@req crate::dspec::dev_wf(*self)
@ens S02: crate::dspec::h_count(*self, r)

@fn device::Device::session_get_state
@tags S01 S02
@ens S01 S02: crate::dspec::h_state(*self, cmd, r)

@fn device::Device::session_get_ranging_count
@tags R02
@ens R02 S02: crate::dspec::h_rcount(*self, cmd, r)

@fn device::Device::session_start
@tags S01 S03
@req !old(w)@.task
@req crate::dspec::dev_wf(*old(self))
@req old(self).is_reset
@ens S01: crate::dspec::p_start_S01(*old(self), *final(self), cmd, r)
@ens S03: crate::dspec::p_start_S03(*old(self), *final(self), cmd)
@ens S04 R02: crate::dspec::p_start_S04(*old(self), *final(self), cmd, old(w)@, final(w)@)
@ens R02: crate::dspec::p_start_R02(*old(self), *final(self), cmd, old(w)@, final(w)@)
@ens P02: crate::dspec::w_quiet(old(w)@, final(w)@)
@ens S01: crate::dspec::wf_base(*final(self)) && crate::dspec::wf_states(*final(self))
@ens S03: crate::dspec::wf_timers(*final(self)) && crate::dspec::wf_active(*final(self))
@ens S02: crate::dspec::wf_table(*final(self))
@ens C03: crate::dspec::wf_reset(*final(self))

@fn device::Device::session_stop
@tags S01 S03
@req !old(w)@.task
@req crate::dspec::dev_wf(*old(self))
@req old(self).is_reset
@ens S01: crate::dspec::p_stop_S01(*old(self), *final(self), cmd, r)
@ens S03: crate::dspec::p_stop_S03(*old(self), *final(self), cmd.session_id)
@ens S04: crate::dspec::p_stop_S04(*old(self), *final(self), cmd.session_id, old(w)@, final(w)@)
@ens R02: crate::dspec::p_stop_R02(*old(self), cmd.session_id, old(w)@, final(w)@)
@ens P02: crate::dspec::w_quiet(old(w)@, final(w)@)
@ens S01: crate::dspec::wf_base(*final(self)) && crate::dspec::wf_states(*final(self))
@ens S03: crate::dspec::wf_timers(*final(self)) && crate::dspec::wf_active(*final(self))
@ens S02: crate::dspec::wf_table(*final(self))
@ens C03: crate::dspec::wf_reset(*final(self))

@fn device::Device::session_get_app_config
@tags A03
@req crate::dspec::dev_wf(*self)
@req crate::codec::wf_SessionGetAppConfigCmd(cmd)
@ens A03: crate::dspec::h_get(*self, cmd, r)
@ens C01: crate::codec::encok_SessionGetAppConfigRsp(r) && crate::codec::wf_SessionGetAppConfigRsp(r)
@loop 1
@inv session.app_config == self.sessions@[cmd.session_token].app_config
@inv crate::dspec::tlvs_small(valid_parameters@)
@inv crate::dspec::tlvs_small(invalid_parameters@)
@inv (invalid_parameters@.len() == 0) == crate::dspec::all_readable(session.app_config, cmd.app_cfg@.take($I as int))
@inv invalid_parameters@.len() == 0 ==> crate::dspec::got_upto(valid_parameters@, session.app_config, cmd.app_cfg@, $I as int)
@inv $I == cmd.app_cfg@.len() ==> cmd.app_cfg@.take($I as int) == cmd.app_cfg@
@loopstart
proof {
    let s = cmd.app_cfg@;
    assert(s.take($I + 1).drop_last() =~= s.take($I as int));
    assert(s.take(s.len() as int) =~= s);
    crate::app::lem_app_len(session.app_config, s[$I as int]);
}

@fn device::Device::android_set_country_code
@tags C02
@ens C02 P02: crate::dspec::h_country(*old(self), *final(self), cmd, r)

@fn device::Device::android_get_power_stats
@tags C02
@ens C02: crate::dspec::h_power(r)
@ens C02 P02: *final(self) == *old(self)

@fn device::Device::session_set_app_config
@tags A02 S01
@req !old(w)@.task
@req crate::dspec::dev_wf(*old(self))
@req old(self).is_reset
@req crate::codec::wf_SessionSetAppConfigCmd(cmd)
@ens A02: crate::dspec::p_set_A02(*old(self), *final(self), cmd, r)
@ens S01: crate::dspec::p_set_S01(*old(self), *final(self), cmd, r)
@ens S04: crate::dspec::p_set_S04(*old(self), cmd, r, old(w)@, final(w)@)
@ens R02: final(w)@.aborted == old(w)@.aborted
@ens P02: crate::dspec::w_quiet(old(w)@, final(w)@)
@ens S01: crate::dspec::wf_base(*final(self)) && crate::dspec::wf_states(*final(self))
@ens S03: crate::dspec::wf_timers(*final(self)) && crate::dspec::wf_active(*final(self))
@ens S02: crate::dspec::wf_table(*final(self))
@ens C03: crate::dspec::wf_reset(*final(self))
@ens C01: crate::codec::encok_SessionSetAppConfigRsp(r) && crate::codec::wf_SessionSetAppConfigRsp(r)
@loop 1
@inv !vx_f1 ==> !crate::dspec::names_immutable(cmd.tlvs@.take($I as int))
@inv vx_f1 ==> crate::dspec::names_immutable(cmd.tlvs@)
@inv $I == cmd.tlvs@.len() ==> cmd.tlvs@.take($I as int) == cmd.tlvs@
@loopstart
proof {
    let s = cmd.tlvs@;
    assert(s.take($I + 1).drop_last() =~= s.take($I as int));
    assert(s.take(s.len() as int) =~= s);
}
@before let mut app_config = 1
let ghost mut ch: Seq<crate::app_config::AppConfig> = Seq::empty();
let ghost s0 = *session;
proof { ch = ch.push(session.app_config); }
@loop 2
@inv ch.len() == $I + 1 && ch.last() == app_config
@inv crate::dspec::set_chain(ch, s0.app_config, cmd.tlvs@.take($I as int))
@inv crate::app::app_wf(app_config)
@inv *session == s0
@inv invalid_parameters@ == crate::dspec::set_bad(ch, cmd.tlvs@.take($I as int))
@inv invalid_parameters@.len() <= $I
@inv $I == cmd.tlvs@.len() ==> cmd.tlvs@.take($I as int) == cmd.tlvs@
@loopstart
let ghost ch0 = ch;
proof {
    let s = cmd.tlvs@;
    assert(s.take($I + 1).drop_last() =~= s.take($I as int));
    assert(s.take(s.len() as int) =~= s);
}
@loopend
proof {
    let s = cmd.tlvs@;
    let i = $I - 1;
    ch = ch0.push(app_config);
    crate::dspec::lem_set_bad(ch0, ch, s.take(i));
    crate::app::lem_app_wf(ch0[i], app_config, s[i].cfg_id, s[i].v@);
}

@impl device::VFrom<&uci::Controlee> for Controlee
open spec fn from_ens(v: &uci::Controlee, r: Self) -> bool { r.short_address == MacAddress::Short(v.short_address) }
@fn device::VFrom<&uci::Controlee> for Controlee::from
@tags M01
@impl device::VFrom<&uci::Controlee_V2_0_16_Byte_Version> for Controlee
open spec fn from_ens(v: &uci::Controlee_V2_0_16_Byte_Version, r: Self) -> bool { r.short_address == MacAddress::Short(v.short_address) }
@fn device::VFrom<&uci::Controlee_V2_0_16_Byte_Version> for Controlee::from
@tags M01
@impl device::VFrom<&uci::Controlee_V2_0_32_Byte_Version> for Controlee
open spec fn from_ens(v: &uci::Controlee_V2_0_32_Byte_Version, r: Self) -> bool { r.short_address == MacAddress::Short(v.short_address) }
@fn device::VFrom<&uci::Controlee_V2_0_32_Byte_Version> for Controlee::from
@tags M01

@fn device::Device::session_update_controller_multicast_list
@tags M01
@req !old(w)@.task
@req crate::dspec::dev_wf(*old(self))
@req old(self).is_reset
@ens M01: crate::dspec::mc_m01(*old(self), *final(self), cmd, r)
@ens M01 S04: crate::dspec::mc_task(*old(self), *final(self), cmd, r, old(w)@, final(w)@)
@ens S01: crate::dspec::p_mc_S01(*old(self), *final(self), cmd, r)
@ens S03: crate::dspec::p_mc_S03(*old(self), *final(self), cmd, r)
@ens R02: crate::dspec::p_mc_R02(*old(self), *final(self), cmd, r, old(w)@, final(w)@)
@ens P02: crate::dspec::w_quiet(old(w)@, final(w)@)
@ens S01: crate::dspec::wf_base(*final(self)) && crate::dspec::wf_states(*final(self))
@ens S03: crate::dspec::wf_timers(*final(self)) && crate::dspec::wf_active(*final(self))
@ens S02: crate::dspec::wf_table(*final(self))
@ens C03: crate::dspec::wf_reset(*final(self))
@ens C01: crate::codec::encok_SessionUpdateControllerMulticastListRsp(r) && crate::codec::wf_SessionUpdateControllerMulticastListRsp(r)
@loop 1
@loopattr #[verifier::loop_isolation(true)]
@inv $S@ == packet.controlees@
@inv crate::dspec::ctl_upto($V@, $I as int, |i: int| MacAddress::Short(packet.controlees@[i].short_address))
@loop 2
@loopattr #[verifier::loop_isolation(true)]
@inv $S@ == packet.controlees@
@inv crate::dspec::ctl_upto($V@, $I as int, |i: int| MacAddress::Short(packet.controlees@[i].short_address))
@loop 3
@loopattr #[verifier::loop_isolation(true)]
@inv $S@ == packet.controlees@
@inv crate::dspec::ctl_upto($V@, $I as int, |i: int| MacAddress::Short(packet.controlees@[i].short_address))
@before let mut controlee_status_ntf 1
let ghost addrs = crate::dspec::ctl_addrs(new_controlees@);
let ghost s0 = *session;
let ghost kb = crate::dspec::keyed(action) && session.app_config.sts_config != uci::StsConfig::ProvisionedForResponderSubSessionKey;
proof {
    assert(crate::dspec::mc_addrs(cmd.action, cmd.payload@, addrs));
    assert(crate::dspec::shorts(addrs));
}
@before session.app_config.number_of_controlees 1
proof {
    crate::dspec::lem_mc_len(s0.app_config.dst_mac_address@, addrs, kb);
    crate::dspec::lem_mc_len_del(s0.app_config.dst_mac_address@, addrs, s0.id, s0.app_config.in_band_termination_attempt_count);
    let m = crate::dspec::mc_res(s0, action, addrs);
    assert(crate::dspec::mc_at(m, dst_addresses@, controlee_status_rsp@, m.ntf, status));
    let ntf = if action == UpdateMulticastListAction::RemoveControlee && crate::dspec::s_active(s0) { crate::dspec::mc_ntfs(s0.tx.chan(), s0.id, m.ntf) } else { crate::dspec::no_tasks() };
    assert(crate::dspec::w_spawned(old(w)@, w@, m.stops.add(ntf)));
}
@before let mut vx_task = crate::stubs::World::new_task(false) 2
proof {
    crate::dspec::lem_mc_ntf(SessionUpdateControllerMulticastListNtf { controlee_status: controlee_status_ntf, session_token: session_handle });
}
@loop 4
@loopattr #[verifier::loop_isolation(true)]
@inv $S@ == new_controlees@ && addrs == crate::dspec::ctl_addrs(new_controlees@)
@inv kb == (crate::dspec::keyed(action) && s0.app_config.sts_config != uci::StsConfig::ProvisionedForResponderSubSessionKey)
@inv *session == s0 && crate::dspec::shorts(addrs)
@inv crate::dspec::mc_at(crate::dspec::mc_add(s0.app_config.dst_mac_address@, addrs.take($I as int), kb), dst_addresses@, controlee_status_rsp@, controlee_status_ntf@, status)
@inv crate::dspec::mc_add(s0.app_config.dst_mac_address@, addrs.take($I as int), kb).stops == crate::dspec::no_tasks()
@inv controlee_status_rsp@.len() <= $I
@inv $I == addrs.len() ==> addrs.take($I as int) == addrs
@loopstart
proof {
    assert(addrs.take($I + 1).drop_last() =~= addrs.take($I as int));
    assert(addrs.take(addrs.len() as int) =~= addrs);
    assert(addrs[$I as int] is Short);
}
@loop 5
@loopattr #[verifier::loop_isolation(true)]
@inv $S@ == new_controlees@ && addrs == crate::dspec::ctl_addrs(new_controlees@) && session_handle == s0.id
@inv *session == s0 && crate::dspec::shorts(addrs)
@inv crate::dspec::mc_at(crate::dspec::mc_del(s0.app_config.dst_mac_address@, addrs.take($I as int), s0.id, s0.app_config.in_band_termination_attempt_count), dst_addresses@, controlee_status_rsp@, controlee_status_ntf@, status)
@inv crate::dspec::w_spawned(old(w)@, w@, crate::dspec::mc_del(s0.app_config.dst_mac_address@, addrs.take($I as int), s0.id, s0.app_config.in_band_termination_attempt_count).stops)
@inv crate::dspec::w_quiet(old(w)@, w@) && w@.aborted == old(w)@.aborted && !w@.task
@inv controlee_status_rsp@.len() <= $I
@inv $I == addrs.len() ==> addrs.take($I as int) == addrs
@loopstart
proof {
    assert(addrs.take($I + 1).drop_last() =~= addrs.take($I as int));
    assert(addrs.take(addrs.len() as int) =~= addrs);
    assert(addrs[$I as int] is Short);
}
@loop 6
@loopattr #[verifier::loop_isolation(true)]
@inv $V@ =~= crate::dspec::without(dst_addresses@.take($I as int), address)
@inv $I == dst_addresses@.len() ==> dst_addresses@.take($I as int) == dst_addresses@
@loopstart
proof {
    let s = dst_addresses@;
    assert(s.take($I + 1).drop_last() =~= s.take($I as int));
    assert(s.take(s.len() as int) =~= s);
}
@loop 7
@loopattr #[verifier::loop_isolation(true)]
@inv w@.task && !w@.periodic && w@.now == 0
@inv w@.acts =~= crate::dspec::stop_task(address, session_handle, $I as u8).acts

@fn device::Device::data_message_snd
@tags D01
@req !(data is None)
@req data matches DataPacketChild::DataMessageSnd(m) ==> crate::codec::wf_DataMessageSnd(m)
@req crate::dspec::dev_wf(*old(self))
@ens D01: crate::dspec::q_data(*old(self), *final(self), data, r)
@ens D01 C01: crate::dspec::dev_wf(*final(self))

@fn device::Device::receive_command
@tags C02
@req !old(w)@.task
@req crate::dspec::dev_wf(*old(self))
@req cmd.mt == MessageType::Command && cmd.payload@.len() >= 3
@ens C03: crate::dspec::q_refused(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens C02: crate::dspec::q_head(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens C02: crate::dspec::q_other(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens C03: crate::dspec::q_CoreDeviceReset(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens C04: crate::dspec::q_CoreGetDeviceInfo(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens C04: crate::dspec::q_CoreGetCapsInfo(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens C04: crate::dspec::q_CoreSetConfig(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens C04: crate::dspec::q_CoreGetConfig(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens S01 S02: crate::dspec::q_SessionInit(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens S02: crate::dspec::q_SessionDeinit(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens S02: crate::dspec::q_SessionGetCount(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens A02 S01: crate::dspec::q_SessionSetAppConfig(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens A03: crate::dspec::q_SessionGetAppConfig(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens S01 S02: crate::dspec::q_SessionGetState(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens M01: crate::dspec::q_SessionUpdateControllerMulticastList(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens S01: crate::dspec::q_SessionStart(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens S01: crate::dspec::q_SessionStop(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens R02: crate::dspec::q_SessionGetRangingCount(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens C02: crate::dspec::q_AndroidSetCountryCode(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens C02: crate::dspec::q_AndroidGetPowerStats(*old(self), *final(self), old(w)@, final(w)@, cmd, r)
@ens P02: crate::dspec::w_quiet(old(w)@, final(w)@)
@ens P02: final(self).handle == old(self).handle && final(self).mac_address == old(self).mac_address && final(self).tx == old(self).tx && final(self).pica_tx == old(self).pica_tx
@ens S01 S02 S03 C03: crate::dspec::dev_wf(*final(self))
@start
proof {
    assert(forall|x: u8| #[trigger] ((x & 0x3f) & 0x3f) == x & 0x3f) by (bit_vector);
    assert(forall|x: u8| x < 64 ==> #[trigger] (x & 0x3f) == x) by (bit_vector);
}

@fn device::Device::receive_packet
@tags C02
@req !old(w)@.task
@req crate::dspec::dev_wf(*old(self))
@ens C02 W02: crate::dspec::ignored(packet@) ==> *final(self) == *old(self) && final(w)@ == old(w)@
@ens C02: crate::dspec::p_packet_cmd(*old(self), *final(self), old(w)@, final(w)@, packet@)
@ens D01: crate::dspec::p_packet_data(*old(self), *final(self), old(w)@, final(w)@, packet@)
@ens P02 C02: crate::dspec::p_packet_P02(*old(self), *final(self), old(w)@, final(w)@)
@ens S01 S02 S03 C03: crate::dspec::dev_wf(*final(self))
@before let response = self.receive_command 1
let ghost cmd0 = cmd;
@before self.send_control(response 1
let ghost wm = w@;
proof { assert(crate::dspec::q_command(*old(self), *self, old(w)@, wm, cmd0, response)); }
@before let response = crate::stubs::vec_of 1
proof { assert(crate::dspec::w_quiet(old(w)@, w@)); }
