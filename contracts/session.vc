@fn session::Session::new
@tags S01
@ens S01: r.state == SessionState::SessionStateDeinit && r.id == id && r.device_handle == device_handle && r.tx == tx
@ens S01: r.session_type == session_type
@ens S01 S03: r.ranging_task is None
@ens D01: r.data@ == Seq::<u8>::empty()
@ens R02: r.sequence_number == 0
@ens S01 A01: AppConfig::default_ens(r.app_config)

@fn session::Session::set_state
@tags S01 S04
@req !old(w)@.task
@ens S01: *final(self) == (Session { state: session_state, ..*old(self) })
@ens S04: crate::dspec::w_spawned(old(w)@, final(w)@, crate::dspec::sn(old(self).tx.chan(), old(self).id, old(self).state, session_state, reason_code))
@ens S04 P02: crate::dspec::w_quiet(old(w)@, final(w)@) && final(w)@.aborted == old(w)@.aborted

@fn session::Session::clear_data
@tags D01
@ens D01: *final(self) == (Session { data: final(self).data, ..*old(self) }) && final(self).data@ == Seq::<u8>::empty()

@fn session::Session::init
@tags S01 S04
@req !old(w)@.task
@ens S01: *final(self) == (Session { state: SessionState::SessionStateInit, ..*old(self) })
@ens S04: crate::dspec::w_spawned(old(w)@, final(w)@, crate::dspec::sn(old(self).tx.chan(), old(self).id, old(self).state, SessionState::SessionStateInit, ReasonCode::StateChangeWithSessionManagementCommands))
@ens S04 P02: crate::dspec::w_quiet(old(w)@, final(w)@) && final(w)@.aborted == old(w)@.aborted

@fn session::Session::stop_ranging_task
@tags R02 S03
@ens R02 S03: *final(self) == (Session { ranging_task: None, ..*old(self) })
@ens R02 S03: crate::dspec::w_aborted(old(w)@, final(w)@, crate::dspec::timer_of(*old(self)))
@ens P02: final(w)@ == (crate::stubs::WG { aborted: final(w)@.aborted, ..old(w)@ })

@fn session::Drop for Session::drop
@tags S01 S04 R02
@req !old(w)@.task
@ens R02 S03: crate::dspec::w_aborted(old(w)@, final(w)@, crate::dspec::timer_of(*old(self)))
@ens S01: final(self).state == SessionState::SessionStateDeinit
@ens S04: crate::dspec::w_spawned(old(w)@, final(w)@, crate::dspec::sn(old(self).tx.chan(), old(self).id, old(self).state, SessionState::SessionStateDeinit, ReasonCode::StateChangeWithSessionManagementCommands))
@ens P02: crate::dspec::w_quiet(old(w)@, final(w)@)

@fn session::Session::data_message_snd
@tags D01
@req old(self).id == data.session_handle
@req crate::codec::wf_DataMessageSnd(data)
@req old(self).data@.len() <= 65535
@ens D01 P02: *final(self) == (Session { data: final(self).data, ..*old(self) })
@ens D01: crate::dspec::p_data_snd(*old(self), *final(self), data, r)
