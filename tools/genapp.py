#!/usr/bin/env python3
"""Writes contracts/50_app.rs: what the application configuration parameters
are ([UCI] table 45), as Verus specifications. The table below is the source."""
import sys
# id, field, kind, type/size
O, E, N1, N2, N4, A, X = "opt", "enum", "u8", "u16", "u32", "arr", "special"
T = [
 ("DeviceType","device_type",O,"DeviceType"),
 ("RangingRoundUsage","ranging_round_usage",O,"RangingRoundUsage"),
 ("StsConfig","sts_config",E,"StsConfig"),
 ("MultiNodeMode","multi_node_mode",O,"MultiNodeMode"),
 ("ChannelNumber","channel_number",E,"ChannelNumber"),
 ("NumberOfControlees","number_of_controlees",N1,None),
 ("DeviceMacAddress","device_mac_address",X,None),
 ("DstMacAddress","dst_mac_address",X,None),
 ("SlotDuration","slot_duration",N2,None),
 ("RangingDuration","ranging_duration",N4,None),
 ("StsIndex","sts_index",N4,None),
 ("MacFcsType","mac_fcs_type",E,"MacFcsType"),
 ("RangingRoundControl","ranging_round_control",N1,None),
 ("AoaResultReq","aoa_result_req",E,"AoaResultReq"),
 ("SessionInfoNtfConfig","session_info_ntf_config",E,"SessionInfoNtfConfig"),
 ("NearProximityConfig","near_proximity_config",N2,None),
 ("FarProximityConfig","far_proximity_config",N2,None),
 ("DeviceRole","device_role",O,"DeviceRole"),
 ("RframeConfig","rframe_config",E,"RframeConfig"),
 ("RssiReporting","rssi_reporting",E,"RssiReporting"),
 ("PreambleCodeIndex","preamble_code_index",N1,None),
 ("SfdId","sfd_id",N1,None),
 ("PsduDataRate","psdu_data_rate",E,"PsduDataRate"),
 ("PreambleDuration","preamble_duration",E,"PreambleDuration"),
 ("LinkLayerMode","link_layer_mode",E,"LinkLayerMode"),
 ("DataRepetitionCount","data_repetition_count",N1,None),
 ("RangingTimeStruct","ranging_time_struct",E,"RangingTimeStruct"),
 ("SlotsPerRr","slots_per_rr",N1,None),
 ("AoaBoundConfig","aoa_bound_config",X,None),
 ("PrfMode","prf_mode",E,"PrfMode"),
 ("CapSizeRange","cap_size_range",A,2),
 ("TxJitterWindowSize","tx_jitter_window_size",N1,None),
 ("ScheduleMode","schedule_mode",O,"ScheduleMode"),
 ("KeyRotation","key_rotation",E,"KeyRotation"),
 ("KeyRotationRate","key_rotation_rate",N1,None),
 ("SessionPriority","session_priority",N1,None),
 ("MacAddressMode","mac_address_mode",E,"MacAddressMode"),
 ("VendorId","vendor_id",N2,None),
 ("StaticStsIv","static_sts_iv",A,6),
 ("NumberOfStsSegments","number_of_sts_segments",N1,None),
 ("MaxRrRetry","max_rr_retry",N2,None),
 ("UwbInitiationTime","uwb_initiation_time",X,None),
 ("HoppingMode","hopping_mode",E,"HoppingMode"),
 ("BlockStrideLength","block_stride_length",N1,None),
 ("ResultReportConfig","result_report_config",N1,None),
 ("InBandTerminationAttemptCount","in_band_termination_attempt_count",N1,None),
 ("SubSessionId","sub_session_id",N4,None),
 ("BprfPhrDataRate","bprf_phr_data_rate",E,"BprfPhrDataRate"),
 ("MaxNumberOfMeasurements","max_number_of_measurements",N2,None),
 ("StsLength","sts_length",E,"StsLength"),
 ("MinFramesPerRr","min_frames_per_rr",N1,None),
 ("MtuSize","mtu_size",N2,None),
 ("InterFrameInterval","inter_frame_interval",N1,None),
 ("SessionKey","session_key",X,None),
 ("SubSessionKey","sub_session_key",X,None),
 ("SessionDataTransferStatusNtfConfig","session_data_transfer_status_ntf_config",E,"SessionDataTransferStatusNtfConfig"),
 ("SessionTimeBase","session_time_base",A,9),
 ("ApplicationDataEndpoint","application_data_endpoint",N1,None),
]
DEFAULTS = """device_type=None ranging_round_usage=None sts_config=StsConfig::Static multi_node_mode=None
channel_number=ChannelNumber::ChannelNumber9 number_of_controlees=1 device_mac_address=None slot_duration=2400
ranging_duration=200 sts_index=0 mac_fcs_type=MacFcsType::Crc16 ranging_round_control=6 aoa_result_req=AoaResultReq::AoaEnabled
session_info_ntf_config=SessionInfoNtfConfig::Enable near_proximity_config=0 far_proximity_config=20000 device_role=None
rframe_config=RframeConfig::Sp3 rssi_reporting=RssiReporting::Disable preamble_code_index=10 sfd_id=2
psdu_data_rate=PsduDataRate::DataRate6m81 preamble_duration=PreambleDuration::Duration64Symbols
link_layer_mode=LinkLayerMode::BypassMode data_repetition_count=0 ranging_time_struct=RangingTimeStruct::BlockBasedScheduling
slots_per_rr=25 prf_mode=PrfMode::BprfMode tx_jitter_window_size=0 schedule_mode=None
key_rotation=KeyRotation::Disable key_rotation_rate=0 session_priority=50 mac_address_mode=MacAddressMode::Mode0 vendor_id=0
number_of_sts_segments=1 max_rr_retry=0 uwb_initiation_time=0 hopping_mode=HoppingMode::Disable block_stride_length=0
result_report_config=1 in_band_termination_attempt_count=1 sub_session_id=0 bprf_phr_data_rate=BprfPhrDataRate::DataRate850k
max_number_of_measurements=0 sts_length=StsLength::Length64Symbols min_frames_per_rr=4 mtu_size=0 inter_frame_interval=1
sub_session_key=SubSessionKey::None session_data_transfer_status_ntf_config=SessionDataTransferStatusNtfConfig::Disable
application_data_endpoint=0""".split()
BYTES = ["session_key=", "static_sts_iv=0,0,0,0,0,0", "cap_size_range=24,5", "session_time_base=0,0,0,0,0,0,0,0,0"]
W = {"u8": 1, "u16": 2, "u32": 4}
o = []
p = o.append
p("""// The application configuration parameters, see tools/genapp.py.
pub mod app {
    use vstd::prelude::*;
    use crate::stubs::*;
    use crate::packets::uci::*;
    use crate::app_config::{AppConfig, SubSessionKey};
    use crate::MacAddress;
    use crate::codec::*;
    verus! {

    pub open spec fn addr_bytes(a: MacAddress) -> Seq<u8> {
        match a { MacAddress::Short(x) => x@, MacAddress::Extended(x) => x@ }
    }
    pub open spec fn addrs_bytes(s: Seq<MacAddress>) -> Seq<u8>
        decreases s.len()
    {
        if s.len() == 0 { Seq::empty() } else { addrs_bytes(s.drop_last()) + addr_bytes(s.last()) }
    }
    /// An address is written in the form the mode selects, 0 for none.
    pub open spec fn mode_size(m: MacAddressMode) -> int {
        match m { MacAddressMode::Mode0 => 2, MacAddressMode::Mode1 => 0, MacAddressMode::Mode2 => 8 }
    }
    pub open spec fn addr_is(m: MacAddressMode, b: Seq<u8>, a: MacAddress) -> bool {
        addr_bytes(a) == b && match m {
            MacAddressMode::Mode0 => a is Short,
            MacAddressMode::Mode1 => false,
            MacAddressMode::Mode2 => a is Extended,
        }
    }
    pub open spec fn total(k: int, n: int) -> int { if n == 2 { 2 * k } else if n == 8 { 8 * k } else { 0 } }
    pub open spec fn piece(v: Seq<u8>, i: int, n: int) -> Seq<u8> { if n == 2 { v.subrange(2 * i, 2 * i + 2) } else { v.subrange(8 * i, 8 * i + 8) } }
    pub open spec fn addrs_are(m: MacAddressMode, v: Seq<u8>, s: Seq<MacAddress>) -> bool {
        mode_size(m) != 0 && total(s.len() as int, mode_size(m)) == v.len() && forall|i: int| 0 <= i < s.len() ==> addr_is(m, piece(v, i, mode_size(m)), #[trigger] s[i])
    }
    pub open spec fn bounds_bytes(a: [u16; 4]) -> Seq<u8> { u16le(a@[0]) + u16le(a@[1]) + u16le(a@[2]) + u16le(a@[3]) }
    pub open spec fn words_bytes(s: Seq<u16>) -> Seq<u8>
        decreases s.len()
    {
        if s.len() == 0 { Seq::empty() } else { words_bytes(s.drop_last()) + u16le(s.last()) }
    }
    pub proof fn lem_bounds(a: [u16; 4])
        ensures words_bytes(a@) =~= bounds_bytes(a),
    {
        let s = a@;
        assert(s.drop_last() =~= s.take(3));
        assert(s.take(3).drop_last() =~= s.take(2));
        assert(s.take(2).drop_last() =~= s.take(1));
        assert(s.take(1).drop_last() =~= s.take(0));
        reveal_with_fuel(words_bytes, 6);
    }
    pub proof fn lem_u64le_u32(x: u32)
        ensures u64le(x as u64) =~= u32le(x) + seq![0u8, 0, 0, 0],
    {
        let y = x as u64;
        assert((y & 0xff) as u8 == (x & 0xff) as u8) by (bit_vector) requires y == x as u64;
        assert(((y >> 8) & 0xff) as u8 == ((x >> 8) & 0xff) as u8) by (bit_vector) requires y == x as u64;
        assert(((y >> 16) & 0xff) as u8 == ((x >> 16) & 0xff) as u8) by (bit_vector) requires y == x as u64;
        assert(((y >> 24) & 0xff) as u8 == (x >> 24) as u8) by (bit_vector) requires y == x as u64;
        assert(((y >> 32) & 0xff) as u8 == 0) by (bit_vector) requires y == x as u64;
        assert(((y >> 40) & 0xff) as u8 == 0) by (bit_vector) requires y == x as u64;
        assert(((y >> 48) & 0xff) as u8 == 0) by (bit_vector) requires y == x as u64;
        assert((y >> 56) as u8 == 0) by (bit_vector) requires y == x as u64;
    }
    pub proof fn lem_chunk_count(k: int, n: int)
        requires n == 0 || n == 2 || n == 8, k >= 0,
        ensures k * n == total(k, n), n != 0 ==> chunk_count(total(k, n), n) == k,
    {
        reveal(chunk_count);
        if n == 2 { assert((k * 2 + 1) / 2 == k); } else if n == 8 { assert((k * 8 + 7) / 8 == k); }
    }
    pub proof fn lem_chunks(v: Seq<u8>, k: int, n: int, i: int)
        requires n == 2 || n == 8, 0 <= i < k, v.len() == total(k, n),
        ensures chunk(v, i, n) == piece(v, i, n), piece(v, i, n).len() == n,
    {
        reveal(chunk);
        if n == 2 { assert(i * n == 2 * i && (i + 1) * n == 2 * i + 2); } else { assert(i * n == 8 * i && (i + 1) * n == 8 * i + 8); }
    }
    pub proof fn lem_uwb(v: Seq<u8>)
        requires v.len() == 4 || v.len() != 4,
        ensures forall|x: u32| v.len() == 4 && #[trigger] u32le(x) == v ==> u64le(x as u64) == v + seq![0u8, 0, 0, 0],
    {
        assert forall|x: u32| v.len() == 4 && #[trigger] u32le(x) == v implies u64le(x as u64) == v + seq![0u8, 0, 0, 0] by {
            lem_u64le_u32(x);
        }
    }
    pub proof fn lem_bounds_of(v: Seq<u8>)
        ensures forall|a: [u16; 4]| v.len() == 8 && u16le(a[0]) == seq![v[0], v[1]] && u16le(a[1]) == seq![v[2], v[3]] && u16le(a[2]) == seq![v[4], v[5]] && u16le(a[3]) == seq![v[6], v[7]]
            ==> #[trigger] bounds_bytes(a) == v,
    {
        assert forall|a: [u16; 4]| v.len() == 8 && u16le(a[0]) == seq![v[0], v[1]] && u16le(a[1]) == seq![v[2], v[3]] && u16le(a[2]) == seq![v[4], v[5]] && u16le(a[3]) == seq![v[6], v[7]]
            implies #[trigger] bounds_bytes(a) == v by { assert(bounds_bytes(a) =~= v); }
    }
    pub open spec fn sub_key_bytes(k: SubSessionKey) -> Seq<u8> {
        match k {
            SubSessionKey::None => Seq::empty(),
            SubSessionKey::Short(x) => x@,
            SubSessionKey::Extended(x) => x@,
        }
    }
""")
p("    /// The parameter has a value that can be read.\n    pub open spec fn app_readable(c: AppConfig, id: AppConfigTlvType) -> bool {\n        match id {")
for i, f, k, t in T:
    if k == O or i == "DeviceMacAddress":
        p(f"            AppConfigTlvType::{i} => c.{f} is Some,")
    else:
        p(f"            AppConfigTlvType::{i} => true,")
p("            _ => false,\n        }\n    }")
p("    /// The bytes of a readable parameter.\n    pub open spec fn app_value(c: AppConfig, id: AppConfigTlvType) -> Seq<u8> {\n        match id {")
for i, f, k, t in T:
    v = {O: lambda: f"seq![code_{t}(c.{f}->Some_0)]", E: lambda: f"seq![code_{t}(c.{f})]", N1: lambda: f"seq![c.{f}]",
         N2: lambda: f"u16le(c.{f})", N4: lambda: f"u32le(c.{f})", A: lambda: f"c.{f}@",
         X: lambda: {"DeviceMacAddress": "addr_bytes(c.device_mac_address->Some_0)", "DstMacAddress": "addrs_bytes(c.dst_mac_address@)",
                     "AoaBoundConfig": "bounds_bytes(c.aoa_bound_config)", "UwbInitiationTime": "u64le(c.uwb_initiation_time)",
                     "SessionKey": "c.session_key@", "SubSessionKey": "sub_key_bytes(c.sub_session_key)"}[i]}[k]()
    p(f"            AppConfigTlvType::{i} => {v},")
p("            _ => Seq::empty(),\n        }\n    }")
p("    /// The value is one the parameter may take.\n    pub open spec fn app_ok(c: AppConfig, id: AppConfigTlvType, v: Seq<u8>) -> bool {\n        match id {")
for i, f, k, t in T:
    if k in (O, E):
        s = f"v.len() == 1 && of_{t}(v[0]) is Some"
    elif k in W:
        s = f"v.len() == {W[k]}"
    elif k == A:
        s = f"v.len() == {t}"
    else:
        s = {"DeviceMacAddress": "mode_size(c.mac_address_mode) != 0 && v.len() == mode_size(c.mac_address_mode)",
             "DstMacAddress": "mode_size(c.mac_address_mode) != 0 && v.len() == total(c.number_of_controlees as int, mode_size(c.mac_address_mode))",
             "AoaBoundConfig": "v.len() == 8", "UwbInitiationTime": "v.len() == 4 || v.len() == 8", "SessionKey": "true",
             "SubSessionKey": "v.len() == 16 || v.len() == 32"}[i]
    p(f"            AppConfigTlvType::{i} => {s},")
p("            _ => false,\n        }\n    }")
p("    /// c1 is c0 with one parameter replaced.\n    pub open spec fn app_put(c0: AppConfig, id: AppConfigTlvType, v: Seq<u8>, c1: AppConfig) -> bool {\n        match id {")
for i, f, k, t in T:
    if k == O:
        s = f"c1 == (AppConfig {{ {f}: of_{t}(v[0]), ..c0 }})"
    elif k == E:
        s = f"c1 == (AppConfig {{ {f}: of_{t}(v[0])->Some_0, ..c0 }})"
    elif k == N1:
        s = f"c1 == (AppConfig {{ {f}: v[0], ..c0 }})"
    else:
        s = f"c1 == (AppConfig {{ {f}: c1.{f}, ..c0 }}) && " + {
            N2: f"u16le(c1.{f}) =~= v", N4: f"u32le(c1.{f}) =~= v", A: f"c1.{f}@ =~= v",
            X: {"DeviceMacAddress": "c1.device_mac_address is Some && addr_is(c0.mac_address_mode, v, c1.device_mac_address->Some_0)",
                "DstMacAddress": "addrs_are(c0.mac_address_mode, v, c1.dst_mac_address@)",
                "AoaBoundConfig": "bounds_bytes(c1.aoa_bound_config) =~= v",
                "UwbInitiationTime": "u64le(c1.uwb_initiation_time) =~= app_canon(AppConfigTlvType::UwbInitiationTime, v)",
                "SessionKey": "c1.session_key@ =~= v",
                "SubSessionKey": "sub_key_bytes(c1.sub_session_key) =~= v && !(c1.sub_session_key is None)"}.get(i)}[k]
    p(f"            AppConfigTlvType::{i} => {s},")
p("            _ => c1 == c0,\n        }\n    }")
p("""    /// The form a value is read back in: the four-byte form of the initiation time is extended.
    pub open spec fn app_canon(id: AppConfigTlvType, v: Seq<u8>) -> Seq<u8> {
        if id == AppConfigTlvType::UwbInitiationTime && v.len() == 4 { v + seq![0u8, 0, 0, 0] } else { v }
    }
    pub open spec fn app_set(c0: AppConfig, id: AppConfigTlvType, v: Seq<u8>, c1: AppConfig) -> bool {
        if app_ok(c0, id, v) { app_put(c0, id, v, c1) } else { c1 == c0 }
    }
    /// Sizes that keep every value within one parameter of a packet.
    pub open spec fn app_wf(c: AppConfig) -> bool {
        c.session_key@.len() <= 255 && addrs_bytes(c.dst_mac_address@).len() <= 255
    }
""")
p("    /// The defaults of [UCI] table 45.\n    pub open spec fn app_default(c: AppConfig) -> bool {")
for d in DEFAULTS:
    f, v = d.split("=")
    p(f"        &&& c.{f} == {v if v != 'None' else 'None'}")
p("        &&& c.dst_mac_address@ =~= Seq::<MacAddress>::empty()")
p("        &&& c.aoa_bound_config[0] == 0 && c.aoa_bound_config[1] == 0 && c.aoa_bound_config[2] == 0 && c.aoa_bound_config[3] == 0")
for d in BYTES:
    f, v = d.split("=")
    if v == "":
        p(f"        &&& c.{f}@ =~= Seq::<u8>::empty()")
    else:
        xs = v.split(",")
        p("        &&& " + " && ".join(f"c.{f}[{i}] == {x}" for i, x in enumerate(xs)))
p("    }")
p("""
    pub proof fn lem_addrs_len(s: Seq<MacAddress>)
        ensures addrs_bytes(s).len() <= 8 * s.len(),
        decreases s.len(),
    {
        if s.len() > 0 { lem_addrs_len(s.drop_last()); }
    }
    pub proof fn lem_addrs_push(s: Seq<MacAddress>, a: MacAddress)
        ensures addrs_bytes(s.push(a)) == addrs_bytes(s) + addr_bytes(a),
    {
        assert(s.push(a).drop_last() =~= s);
    }
    pub proof fn lem_addrs_value(m: MacAddressMode, v: Seq<u8>, s: Seq<MacAddress>)
        requires addrs_are(m, v, s),
        ensures addrs_bytes(s) =~= v,
        decreases s.len(),
    {
        let n = mode_size(m);
        if s.len() > 0 {
            let k = s.len() - 1;
            assert(addr_is(m, piece(v, k, n), s[k]));
            let w = v.subrange(0, total(k, n));
            assert forall|i: int| 0 <= i < k implies addr_is(m, piece(w, i, n), #[trigger] s.drop_last()[i]) by {
                assert(addr_is(m, piece(v, i, n), s[i]));
                assert(piece(w, i, n) =~= piece(v, i, n));
            }
            lem_addrs_value(m, w, s.drop_last());
            assert(v =~= w + piece(v, k, n));
        }
    }
""")
for i, f, k, t in T:
    p(f"""    proof fn lem_put_{f}(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::{i}, v), app_put(c0, AppConfigTlvType::{i}, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::{i}) && app_value(c1, AppConfigTlvType::{i}) =~= app_canon(AppConfigTlvType::{i}, v),
            other != AppConfigTlvType::{i} ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {{""")
    if k in (O, E):
        p(f"        lem_code_{t}(v[0], of_{t}(v[0])->Some_0);")
    if i == "DstMacAddress":
        p("        lem_addrs_value(c0.mac_address_mode, v, c1.dst_mac_address@);")
    p("    }")
p("""    /// A01: a value that was set reads back as it was written, and no other
    /// parameter changes.
    pub proof fn lem_app_roundtrip(c0: AppConfig, c1: AppConfig, id: AppConfigTlvType, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, id, v), app_set(c0, id, v, c1),
        ensures
            app_readable(c1, id) && app_value(c1, id) == app_canon(id, v),
            other != id ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        match id {""")
for i, f, k, t in T:
    p(f"            AppConfigTlvType::{i} => lem_put_{f}(c0, c1, v, other),")
p("""            _ => {},
        }
    }""")
p("""    pub proof fn lem_app_wf(c0: AppConfig, c1: AppConfig, id: AppConfigTlvType, v: Seq<u8>)
        requires app_wf(c0), app_set(c0, id, v, c1), v.len() <= 255,
        ensures app_wf(c1),
    {
        if app_ok(c0, id, v) && id == AppConfigTlvType::DstMacAddress { lem_addrs_value(c0.mac_address_mode, v, c1.dst_mac_address@); }
    }
    pub broadcast proof fn lem_app_len(c: AppConfig, id: AppConfigTlvType)
        requires app_wf(c),
        ensures #[trigger] app_value(c, id).len() <= 255,
    {}
    }
}""")
open(sys.argv[1] if len(sys.argv) > 1 else "contracts/50_app.rs", "w").write("\n".join(o) + "\n")
