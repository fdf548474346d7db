@fn packets::uci::parse_message_type
@tags C02 W01 W02 E01
@ens C02 W01 W02 E01: r == match crate::codec::of_MessageType(((byte >> 5) & 7) as u8) { Some(m) => m, None => MessageType::Command }
@fn packets::uci::ControlPacket::is_core_device_reset_cmd
@tags C03
@ens C03: r == crate::dspec::is_reset_cmd(*self)
@fn packets::uci::read
@tags W02
@ens W02: crate::iospec::p_sock_read_W02(old(w)@, final(w)@, socket.sid(), r)
@start
broadcast use {crate::iospec::seq_group, crate::iospec::lem_declared};
@fn packets::uci::write
@tags W01
@ens W01: crate::iospec::p_sock_write_W01(old(w)@, final(w)@, socket.sid(), packet@, r)
