@impl app_config::VDefault for AppConfig
open spec fn default_ens(r: Self) -> bool { crate::app::app_default(r) }
@fn app_config::VDefault for AppConfig::default
@tags A01 C03

@fn app_config::AppConfig::set::try_parse
@tags A01
@ens A01: value@.len() != 1 ==> r is Err
@ens A01: value@.len() == 1 ==> exists|x: core::result::Result<T, u8>| #[trigger] T::try_from_ens(value@[0], x) && (r is Ok) == (x is Ok) && (r is Ok ==> r->Ok_0 == x->Ok_0)
@fn app_config::AppConfig::set::try_parse_u8
@tags A01
@ens A01: (r is Ok) == (value@.len() == 1)
@ens A01: r is Ok ==> r->Ok_0 == value@[0]
@fn app_config::AppConfig::set::try_parse_u16
@tags A01
@ens A01: (r is Ok) == (value@.len() == 2)
@ens A01: r is Ok ==> crate::stubs::u16le(r->Ok_0) == value@
@fn app_config::AppConfig::set::try_parse_u32
@tags A01
@ens A01: (r is Ok) == (value@.len() == 4)
@ens A01: r is Ok ==> crate::stubs::u32le(r->Ok_0) == value@
@fn app_config::AppConfig::set::try_parse_u64
@tags A01
@ens A01: (r is Ok) == (value@.len() == 8)
@ens A01: r is Ok ==> crate::stubs::u64le(r->Ok_0) == value@

@fn app_config::AppConfig::set
@tags A01 A02
@taildup
@ens A01 A02: (r is Ok) == crate::app::app_ok(*old(self), id, value@)
@ens A01 A02: crate::app::app_set(*old(self), id, value@, *final(self))
@before if value.len() != self.number_of_controlees as usize * mac_address_size 1
proof {
    crate::app::lem_chunk_count(old(self).number_of_controlees as int, crate::app::mode_size(old(self).mac_address_mode));
}
@loop 1
@inv $V@.len() == $I
@inv *self == *old(self)
@inv forall|j: int| 0 <= j < $I ==> crate::app::addr_is(old(self).mac_address_mode, crate::app::piece(value@, j, crate::app::mode_size(old(self).mac_address_mode)), #[trigger] $V@[j])
@inv $I == old(self).number_of_controlees ==> crate::app::addrs_are(old(self).mac_address_mode, value@, $V@)
@inv $S.vseq().len() == old(self).number_of_controlees && value@.len() == crate::app::total(old(self).number_of_controlees as int, crate::app::mode_size(old(self).mac_address_mode)) && crate::app::mode_size(old(self).mac_address_mode) != 0
@loopstart
proof {
    let n = crate::app::mode_size(old(self).mac_address_mode);
    let k = old(self).number_of_controlees as int;
    let i = $I as int;
    crate::app::lem_chunk_count(k, n);
    crate::app::lem_chunks(value@, k, n, i);
}
@before self.uwb_initiation_time = 1
proof { crate::app::lem_uwb(value@); }
@before self.aoa_bound_config = 1
proof { crate::app::lem_bounds_of(value@); }

@fn app_config::AppConfig::get
@tags A01 A03
@ens A01 A03: (r is Ok) == crate::app::app_readable(*self, id)
@ens A01 A03: r is Ok ==> r->Ok_0@ =~= crate::app::app_value(*self, id)
@loop 1
@inv $V@ =~= crate::app::addrs_bytes(self.dst_mac_address@.take($I as int))
@inv $I == self.dst_mac_address@.len() ==> $V@ =~= crate::app::addrs_bytes(self.dst_mac_address@)
@loopstart
proof {
    let s = self.dst_mac_address@;
    assert(s.take($I + 1).drop_last() =~= s.take($I as int));
    assert(s.take(s.len() as int) =~= s);
}
@loop 2
@inv $V@ =~= crate::app::words_bytes(self.aoa_bound_config@.take($I as int))
@inv $I == 4 ==> $V@ =~= crate::app::bounds_bytes(self.aoa_bound_config)
@loopstart
proof {
    let s = self.aoa_bound_config@;
    assert(s.take($I + 1).drop_last() =~= s.take($I as int));
    assert(s.take(4) =~= s);
    crate::app::lem_bounds(self.aoa_bound_config);
}

@fn app_config::AppConfig::is_compatible_for_ranging
@tags R01
@req self.device_mac_address is Some && peer_config.device_mac_address is Some
@ens R01: r == (self.device_role != peer_config.device_role && self.device_type != peer_config.device_type && peer_config.dst_mac_address@.contains(self.device_mac_address->Some_0) && self.dst_mac_address@.contains(peer_config.device_mac_address->Some_0))

@fn app_config::AppConfig::can_start_data_transfer
@tags D01
@ens D01: r == (self.device_role == Some(uci::DeviceRole::Initiator))
@fn app_config::AppConfig::can_receive_data_transfer
@tags D01
@ens D01: r == (self.device_role == Some(uci::DeviceRole::Responder))
