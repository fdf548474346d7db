@fn session::Session::session_state
@ens S01 R01: r == self.state
@fn session::Session::data
@ens D01: *r == self.data
@fn session::Session::get_dst_mac_address
@ens R01: r@ == self.app_config.dst_mac_address@
@fn session::Session::is_session_info_ntf_enabled
@tags R01
@ens R01: r == (self.app_config.session_info_ntf_config != uci::SessionInfoNtfConfig::Disable)

@fn make_measurement
@tags R01
@ens R01: r == crate::pspec::meas(*mac_address, local, remote)

@fn Pica::new
@tags P01
@ens P01: r.devices@ =~= Map::<usize, Device>::empty() && r.anchors@ =~= Map::<MacAddress, Anchor>::empty() && r.counter == 0 && r.command_rx is Some

@fn Pica::get_device_mut
@ens P02: (r is Some) == crate::pspec::dev(*old(self), device_handle)
@ens P02: r is None ==> *final(self) == *old(self)
@ens P02: *final(self) == (Pica { devices: final(self).devices, ..*old(self) })
@ens P02: r matches Some(d) ==> *d == old(self).devices@[device_handle] && final(self).devices@ == old(self).devices@.insert(device_handle, *final(d))

@fn Pica::get_device
@ens P02: (r is Some) == crate::pspec::dev(*self, device_handle)
@ens P02: r matches Some(d) ==> *d == self.devices@[device_handle]

@fn Pica::get_category
@tags P01
@ens P01: (r is Some) == crate::pspec::in_use(*self, *mac_address)
@ens P01: r is None ==> forall|h: usize| #![trigger self.devices@.dom().contains(h)] self.devices@.dom().contains(h) ==> self.devices@[h].mac_address != *mac_address
@ens P01: r matches Some(c) ==> (c is Anchor) == crate::pspec::anchored(*self, *mac_address)
@loop 1
@loopattr #[verifier::allow_complex_invariants]
@inv $V ==> exists|h: usize| #[trigger] crate::pspec::mac_at(*self, *mac_address, h)
@inv !$V ==> forall|j: int| 0 <= j < $I ==> #[trigger] self.devices@[$S.keys()[j]].mac_address != *mac_address
@inv $S.m() == self.devices@ && $S.keys().to_set() =~= self.devices@.dom()
@lens !$V ==> forall|h: usize| !#[trigger] crate::pspec::mac_at(*self, *mac_address, h)
@loopstart
proof {
    let h = $S.keys()[$I as int];
    assert($S.keys().to_set().contains(h));
    if self.devices@[h].mac_address == *mac_address { assert(crate::pspec::mac_at(*self, *mac_address, h)); }
}

@fn Pica::send_event
@tags P01
@ens P01: final(w)@ == (crate::stubs::WG { events: old(w)@.events.push(event), ..old(w)@ })

@fn Pica::add_device
@tags P01
@req !old(w)@.task
@req crate::pspec::pica_wf(*old(self), old(w)@)
@req crate::pspec::fresh_counter(*old(self))
@ens P01: r is Err ==> *final(self) == *old(self) && final(w)@ == old(w)@ && old(self).devices@.dom().len() + old(self).anchors@.dom().len() > 65535
@ens P01: r matches Ok(h) ==> crate::pspec::p_add_P01(*old(self), *final(self), h)
@ens C03: r matches Ok(h) ==> crate::pspec::p_add_C03(*final(self), h)
@ens P01: r matches Ok(h) ==> crate::pspec::p_event(old(w)@, final(w)@, PicaEvent::Connected { handle: h, mac_address: crate::pspec::default_mac(h) })
@ens P02: crate::pspec::p_quiet_but_events(old(w)@, final(w)@) && final(w)@.aborted == old(w)@.aborted
@ens P01 P02: crate::pspec::pica_wf(*final(self), final(w)@)
@loop 1
@inv *self == *old(self) && old(self).counter <= handle <= old(self).counter + 65535
@inv mac_address == crate::pspec::default_mac(handle)
@inv forall|k: usize| old(self).counter <= k < handle ==> crate::pspec::in_use(*old(self), #[trigger] crate::pspec::default_mac(k))
@dec old(self).counter + 65536 - handle
@loopstart
proof { crate::pspec::lem_free_mac(*old(self), old(self).counter as int, (handle + 1 - old(self).counter) as nat); }

@fn Pica::disconnect
@tags P01
@req !old(w)@.task
@req crate::pspec::pica_wf(*old(self), old(w)@)
@ens P01: crate::pspec::p_disconnect_P01(*old(self), *final(self), old(w)@, final(w)@, device_handle)
@ens R02: crate::pspec::p_disconnect_R02(*old(self), old(w)@, final(w)@, device_handle)
@ens P02: crate::pspec::p_quiet_but_events(old(w)@, final(w)@)
@ens P01 P02: crate::pspec::pica_wf(*final(self), final(w)@)
@start
broadcast use crate::pspec::lem_ended;

@fn Pica::create_anchor
@tags P01
@req crate::pspec::pica_wf(*old(self), old(w)@)
@req crate::pspec::fresh_counter(*old(self))
@ens P01: crate::pspec::p_create(*old(self), *final(self), mac_address)
@ens P01: crate::pspec::replied(old(w)@, final(w)@, rsp_tx.chan(), crate::pspec::create_rsp(*old(self), mac_address))
@ens P01 P02: crate::pspec::pica_wf(*final(self), final(w)@)

@fn Pica::destroy_anchor
@tags P01
@req crate::pspec::pica_wf(*old(self), old(w)@)
@ens P01: crate::pspec::p_destroy(*old(self), *final(self), mac_address)
@ens P01: crate::pspec::replied(old(w)@, final(w)@, rsp_tx.chan(), crate::pspec::destroy_rsp(*old(self), mac_address))
@ens P01 P02: crate::pspec::pica_wf(*final(self), final(w)@)

@fn Pica::uci_packet
@tags C02
@req !old(w)@.task
@req crate::pspec::pica_wf(*old(self), old(w)@)
@ens P02 C02: crate::pspec::p_uci(*old(self), *final(self), old(w)@, final(w)@, device_handle, packet@)
@ens P01 P02: crate::pspec::pica_wf(*final(self), final(w)@)

@fn Pica::stop_controlee_ranging
@tags R03
@req !old(w)@.task
@req crate::pspec::pica_wf(*old(self), old(w)@)
@ens R03: crate::pspec::p_stop_all(*old(self), *final(self), *mac_address, session_id)
@ens R03: crate::pspec::p_stop_tasks(*old(self), *mac_address, session_id, old(w)@, final(w)@)
@ens P02 R03: crate::dspec::w_quiet(old(w)@, final(w)@)
@ens S03 P02: crate::pspec::pica_wf(*final(self), final(w)@)
@start
let ghost mut gks: Seq<usize> = Seq::empty();
@loop 1
@inv $I > 0 ==> gks == $S@
@inv $S@.no_duplicates() && $S@.to_set() =~= old(self).devices@.dom()
@inv crate::pspec::only_devices(*old(self), *self) && self.devices@.dom() =~= old(self).devices@.dom()
@inv forall|j: int| 0 <= j < $I ==> crate::pspec::p_hit(old(self).devices@[#[trigger] $S@[j]], self.devices@[$S@[j]], *mac_address, session_id)
@inv forall|j: int| $I <= j < $S@.len() ==> self.devices@[#[trigger] $S@[j]] == old(self).devices@[$S@[j]]
@inv crate::pspec::pica_wf(*self, w@) && !w@.task
@inv crate::dspec::w_quiet(old(w)@, w@)
@inv crate::dspec::w_spawned(old(w)@, w@, crate::pspec::hits_ntfs(*old(self), $S@.take($I as int), *mac_address, session_id))
@inv crate::dspec::w_aborted(old(w)@, w@, crate::pspec::hits_timers(*old(self), $S@.take($I as int), *mac_address, session_id))
@inv $I == $S@.len() ==> $S@.take($I as int) == $S@
@loopstart
proof {
    gks = $S@;
    reveal_with_fuel(crate::pspec::hits_ntfs, 2);
    assert($S@.take($I + 1).last() == $S@[$I as int]);
    assert($S@.take($I + 1).drop_last() =~= $S@.take($I as int));
    assert($S@.take($S@.len() as int) =~= $S@);
    assert($S@.to_set().contains($S@[$I as int]));
    assert(crate::pspec::dev(*self, $S@[$I as int]));
}

@fn Pica::ranging
@tags R01
@req !old(w)@.task
@req crate::pspec::pica_wf(*old(self), old(w)@)
@req crate::pspec::fires(*old(self), device_handle, session_id) ==> old(self).devices@[device_handle].sessions@[session_id].sequence_number < u32::MAX
@ens R01: crate::pspec::p_ranging_R01(*old(self), old(w)@, final(w)@, device_handle, session_id)
@ens R01 R02: crate::pspec::p_ranging_seq(*old(self), *final(self), device_handle, session_id)
@ens D01: crate::pspec::p_ranging_D01(*old(self), old(w)@, final(w)@, device_handle, session_id)
@ens D01: crate::pspec::p_ranging_data(*old(self), *final(self), device_handle, session_id)
@ens P02 R02: crate::pspec::p_ranging_P02(*old(self), old(w)@, final(w)@, device_handle, session_id)
@ens P02 R02: crate::pspec::p_ranging_state(*old(self), *final(self), device_handle, session_id)
@ens P01 P02: crate::pspec::pica_wf(*final(self), final(w)@)
@start
broadcast use {crate::pspec::lem_add_sent, crate::pspec::lem_data_rcv, crate::pspec::lem_info_ntf};
let ghost p = *old(self);
let ghost dst = crate::pspec::sess(p, device_handle, session_id).app_config.dst_mac_address@;
let ghost mut ks: Seq<usize> = Seq::empty();
let ghost msg = crate::pspec::data_msg(p, device_handle, session_id);
@loop 1
@inv *self == *old(self) && $S@ == dst
@inv measurements@ == crate::pspec::anchor_meas(p, device_handle, dst.take($I as int))
@inv $I == dst.len() ==> dst.take($I as int) == dst
@loopstart
proof {
    assert(dst.take($I + 1).drop_last() =~= dst.take($I as int));
    assert(dst.take(dst.len() as int) =~= dst);
    assert(crate::pspec::anchored(p, dst[$I as int]) == p.anchors@.dom().contains(dst[$I as int]));
}
@loop 2
@inv *self == *old(self) && $S.m() == p.devices@ && $S.keys().no_duplicates() && $S.keys().to_set() =~= p.devices@.dom()
@inv $I > 0 ==> ks == $S.keys()
@inv measurements@ == crate::pspec::peer_meas(p, device_handle, session_id, $S.keys().take($I as int), crate::pspec::anchor_meas(p, device_handle, dst))
@inv crate::pspec::peers_of(data_transfer@, p.devices@, crate::pspec::receivers(p, device_handle, session_id, $S.keys().take($I as int)))
@inv $I == $S.keys().len() ==> $S.keys().take($I as int) == $S.keys()
@loopstart
proof {
    ks = $S.keys();
    assert(ks.take($I + 1).drop_last() =~= ks.take($I as int));
    assert(ks.take(ks.len() as int) =~= ks);
    assert(ks.to_set().contains(ks[$I as int]));
    assert(crate::pspec::dev(p, ks[$I as int]));
}
@before measurements.truncate 1
proof {
    assert(ks.to_set().contains(device_handle));
    crate::pspec::lem_receivers(p, device_handle, session_id, ks);
}
let ghost hs = crate::pspec::receivers(p, device_handle, session_id, ks);
let ghost ntf = crate::pspec::info_ntf(p, device_handle, session_id, ks);
proof {
    assert forall|i: int| 0 <= i < hs.len() implies crate::pspec::dev(p, #[trigger] hs[i]) by { assert(hs.contains(hs[i])); }
    crate::pspec::lem_deliver(p, old(w)@, old(w)@, hs, msg);
    assert(crate::pspec::all_devs(p, ks));
    assert(!hs.contains(device_handle));
    assert(crate::stubs::sent_on(crate::pspec::deliver(old(w)@, p.devices@, hs, msg), crate::dspec::chan(p.devices@[device_handle])) == crate::stubs::sent_on(old(w)@, crate::dspec::chan(p.devices@[device_handle])));
    assert(hs.take(hs.len() as int) =~= hs);
    assert(measurements@ == crate::pspec::all_meas(p, device_handle, session_id, ks));
}
@loop 3
@inv *self == *old(self) && crate::pspec::peers_of(data_transfer@, p.devices@, hs)
@inv !w@.task && measurements@ == crate::pspec::cap255(crate::pspec::all_meas(p, device_handle, session_id, ks))
@inv w@ == crate::pspec::deliver(old(w)@, p.devices@, hs.take($I as int), msg)
@inv $I == hs.len() ==> hs.take($I as int) == hs
@loopstart
proof {
    assert(hs.take($I + 1).drop_last() =~= hs.take($I as int));
    assert(hs.take(hs.len() as int) =~= hs);
}

@fn Pica::pica_command
@tags C01
@req !old(w)@.task
@req crate::pspec::pica_wf(*old(self), old(w)@)
@req crate::pspec::far(*old(self))
@ens C02 P02 P01 R02 R03: crate::pspec::p_command(*old(self), *final(self), old(w)@, final(w)@, command)
@ens P01 P02 S01 S03: crate::pspec::pica_wf(*final(self), final(w)@) && final(w)@.task == old(w)@.task

@fn Pica::run
@req !old(w)@.task
@req crate::pspec::pica_wf(self, old(w)@)
@loop 1
@inv crate::pspec::pica_wf(vx_self, w@) && !w@.task
@before vx_self.pica_command 1
proof { assume(crate::pspec::far(vx_self)); }

@fn run
@trusted

@fn Pica::read_routine
@tags W02 G01
@ens W02: crate::iospec::p_read_W02(old(w)@, final(w)@, handle, uci_stream.sid())
@ens G01: !final(w)@.io_err ==> crate::iospec::capture(old(w)@, final(w)@, pcapng_file, crate::iospec::live(handle, crate::iospec::got(old(w)@, final(w)@, uci_stream.sid())))
@ens P02 W02: crate::iospec::only_io(old(w)@, final(w)@) && final(w)@.out == old(w)@.out
@req !old(w)@.task && !old(w)@.io_err
@start
broadcast use {crate::iospec::lem_since, crate::iospec::lem_join, crate::iospec::lem_captured, crate::iospec::lem_captured_none, crate::iospec::lem_header_rest, crate::iospec::lem_live};
let ghost w0 = w@;
let ghost sid = uci_stream.sid();
@loop 1
@inv uci_stream.sid() == sid && !w@.task && !w@.io_err
@inv crate::iospec::same_taken(w0, w@, sid)
@inv crate::iospec::only_io(w0, w@) && w@.out == w0.out
@inv crate::iospec::join(handle, crate::iospec::got(w0, w@, sid)).acc is None && !crate::iospec::join(handle, crate::iospec::got(w0, w@, sid)).dead
@inv w@.cmds =~= w0.cmds + crate::iospec::join(handle, crate::iospec::got(w0, w@, sid)).cmds
@inv crate::iospec::capture(w0, w@, pcapng_file, crate::iospec::got(w0, w@, sid))
@loop 2
@inv uci_stream.sid() == sid && !w@.task && !w@.io_err
@inv crate::iospec::same_taken(w0, w@, sid)
@inv crate::iospec::only_io(w0, w@) && w@.out == w0.out
@inv !crate::iospec::join(handle, crate::iospec::got(w0, w@, sid)).dead
@inv crate::iospec::capture(w0, w@, pcapng_file, crate::iospec::got(w0, w@, sid))
@inv (complete_packet is None) == (crate::iospec::join(handle, crate::iospec::got(w0, w@, sid)).acc is None)
@inv complete_packet matches Some(v) ==> crate::iospec::join(handle, crate::iospec::got(w0, w@, sid)).acc == Some(v@)
@inv w@.cmds =~= w0.cmds + crate::iospec::join(handle, crate::iospec::got(w0, w@, sid)).cmds

@fn Pica::write_routine
@tags W01 G01
@req !old(w)@.task && !old(w)@.io_err
@ens W01: crate::iospec::p_write_W01(old(w)@, final(w)@, packet_rx.chan(), uci_sink.sid())
@ens G01: !final(w)@.io_err ==> crate::iospec::capture(old(w)@, final(w)@, pcapng_file, crate::iospec::since(crate::stubs::out_on(final(w)@, uci_sink.sid()), crate::stubs::out_on(old(w)@, uci_sink.sid()).len() as int))
@ens P02 W01: crate::iospec::only_io(old(w)@, final(w)@) && final(w)@.cmds == old(w)@.cmds && crate::iospec::same_out(old(w)@, final(w)@, uci_sink.sid())
@start
broadcast use {crate::iospec::lem_since, crate::iospec::lem_all_frags, crate::iospec::lem_frag_end, crate::iospec::lem_captured, crate::iospec::lem_captured_none};
let ghost w0 = w@;
let ghost sid = uci_sink.sid();
let ghost ch = packet_rx.chan();
@loop 1
@inv uci_sink.sid() == sid && packet_rx.chan() == ch && !w@.task && !w@.io_err
@inv crate::iospec::same_taken(w0, w@, ch) && crate::iospec::same_out(w0, w@, sid)
@inv crate::iospec::only_io(w0, w@) && w@.cmds == w0.cmds
@inv crate::iospec::sent(w0, w@, sid) =~= crate::iospec::all_frags(crate::iospec::got(w0, w@, ch))
@inv crate::iospec::capture(w0, w@, pcapng_file, crate::iospec::sent(w0, w@, sid))
@loop 2
@inv uci_sink.sid() == sid && packet_rx.chan() == ch && !w@.task && !w@.io_err
@inv crate::iospec::same_taken(w0, w@, ch) && crate::iospec::same_out(w0, w@, sid)
@inv crate::iospec::only_io(w0, w@) && w@.cmds == w0.cmds
@inv 4 <= offset <= complete_packet@.len() && mt == crate::dspec::mt_of(complete_packet@)
@inv crate::iospec::sent(w0, w@, sid) + crate::iospec::frags_from(complete_packet@, offset as int) =~= crate::iospec::all_frags(crate::iospec::got(w0, w@, ch))
@inv crate::iospec::capture(w0, w@, pcapng_file, crate::iospec::sent(w0, w@, sid))
@loopstart
let ghost o0 = offset as int;
let ghost b = complete_packet@;
proof { crate::iospec::lem_frag(b, o0); crate::iospec::lem_bits(b[0]); }
@before uci_sink 1
assert(packet@ =~= crate::iospec::frag(b, o0));
