// The application configuration parameters, see tools/genapp.py.
pub mod app {
    use vstd::prelude::*;
    use crate::stubs::*;
    use crate::packets::uci::*;
    use crate::app_config::{AppConfig, SubSessionKey};
    use crate::MacAddress;
    use crate::codec::*;
    verus! {

    pub open spec fn addr_bytes(a: MacAddress) -> Seq<u8> {
        match a { MacAddress::Short(x) => x@, MacAddress::Extended(x) => x@ }
    }
    pub open spec fn addrs_bytes(s: Seq<MacAddress>) -> Seq<u8>
        decreases s.len()
    {
        if s.len() == 0 { Seq::empty() } else { addrs_bytes(s.drop_last()) + addr_bytes(s.last()) }
    }
    /// An address is written in the form the mode selects, 0 for none.
    pub open spec fn mode_size(m: MacAddressMode) -> int {
        match m { MacAddressMode::Mode0 => 2, MacAddressMode::Mode1 => 0, MacAddressMode::Mode2 => 8 }
    }
    pub open spec fn addr_is(m: MacAddressMode, b: Seq<u8>, a: MacAddress) -> bool {
        addr_bytes(a) == b && match m {
            MacAddressMode::Mode0 => a is Short,
            MacAddressMode::Mode1 => false,
            MacAddressMode::Mode2 => a is Extended,
        }
    }
    pub open spec fn total(k: int, n: int) -> int { if n == 2 { 2 * k } else if n == 8 { 8 * k } else { 0 } }
    pub open spec fn piece(v: Seq<u8>, i: int, n: int) -> Seq<u8> { if n == 2 { v.subrange(2 * i, 2 * i + 2) } else { v.subrange(8 * i, 8 * i + 8) } }
    pub open spec fn addrs_are(m: MacAddressMode, v: Seq<u8>, s: Seq<MacAddress>) -> bool {
        mode_size(m) != 0 && total(s.len() as int, mode_size(m)) == v.len() && forall|i: int| 0 <= i < s.len() ==> addr_is(m, piece(v, i, mode_size(m)), #[trigger] s[i])
    }
    pub open spec fn bounds_bytes(a: [u16; 4]) -> Seq<u8> { u16le(a@[0]) + u16le(a@[1]) + u16le(a@[2]) + u16le(a@[3]) }
    pub open spec fn words_bytes(s: Seq<u16>) -> Seq<u8>
        decreases s.len()
    {
        if s.len() == 0 { Seq::empty() } else { words_bytes(s.drop_last()) + u16le(s.last()) }
    }
    pub proof fn lem_bounds(a: [u16; 4])
        ensures words_bytes(a@) =~= bounds_bytes(a),
    {
        let s = a@;
        assert(s.drop_last() =~= s.take(3));
        assert(s.take(3).drop_last() =~= s.take(2));
        assert(s.take(2).drop_last() =~= s.take(1));
        assert(s.take(1).drop_last() =~= s.take(0));
        reveal_with_fuel(words_bytes, 6);
    }
    pub proof fn lem_u64le_u32(x: u32)
        ensures u64le(x as u64) =~= u32le(x) + seq![0u8, 0, 0, 0],
    {
        let y = x as u64;
        assert((y & 0xff) as u8 == (x & 0xff) as u8) by (bit_vector) requires y == x as u64;
        assert(((y >> 8) & 0xff) as u8 == ((x >> 8) & 0xff) as u8) by (bit_vector) requires y == x as u64;
        assert(((y >> 16) & 0xff) as u8 == ((x >> 16) & 0xff) as u8) by (bit_vector) requires y == x as u64;
        assert(((y >> 24) & 0xff) as u8 == (x >> 24) as u8) by (bit_vector) requires y == x as u64;
        assert(((y >> 32) & 0xff) as u8 == 0) by (bit_vector) requires y == x as u64;
        assert(((y >> 40) & 0xff) as u8 == 0) by (bit_vector) requires y == x as u64;
        assert(((y >> 48) & 0xff) as u8 == 0) by (bit_vector) requires y == x as u64;
        assert((y >> 56) as u8 == 0) by (bit_vector) requires y == x as u64;
    }
    pub proof fn lem_chunk_count(k: int, n: int)
        requires n == 0 || n == 2 || n == 8, k >= 0,
        ensures k * n == total(k, n), n != 0 ==> chunk_count(total(k, n), n) == k,
    {
        reveal(chunk_count);
        if n == 2 { assert((k * 2 + 1) / 2 == k); } else if n == 8 { assert((k * 8 + 7) / 8 == k); }
    }
    pub proof fn lem_chunks(v: Seq<u8>, k: int, n: int, i: int)
        requires n == 2 || n == 8, 0 <= i < k, v.len() == total(k, n),
        ensures chunk(v, i, n) == piece(v, i, n), piece(v, i, n).len() == n,
    {
        reveal(chunk);
        if n == 2 { assert(i * n == 2 * i && (i + 1) * n == 2 * i + 2); } else { assert(i * n == 8 * i && (i + 1) * n == 8 * i + 8); }
    }
    pub proof fn lem_uwb(v: Seq<u8>)
        requires v.len() == 4 || v.len() != 4,
        ensures forall|x: u32| v.len() == 4 && #[trigger] u32le(x) == v ==> u64le(x as u64) == v + seq![0u8, 0, 0, 0],
    {
        assert forall|x: u32| v.len() == 4 && #[trigger] u32le(x) == v implies u64le(x as u64) == v + seq![0u8, 0, 0, 0] by {
            lem_u64le_u32(x);
        }
    }
    pub proof fn lem_bounds_of(v: Seq<u8>)
        ensures forall|a: [u16; 4]| v.len() == 8 && u16le(a[0]) == seq![v[0], v[1]] && u16le(a[1]) == seq![v[2], v[3]] && u16le(a[2]) == seq![v[4], v[5]] && u16le(a[3]) == seq![v[6], v[7]]
            ==> #[trigger] bounds_bytes(a) == v,
    {
        assert forall|a: [u16; 4]| v.len() == 8 && u16le(a[0]) == seq![v[0], v[1]] && u16le(a[1]) == seq![v[2], v[3]] && u16le(a[2]) == seq![v[4], v[5]] && u16le(a[3]) == seq![v[6], v[7]]
            implies #[trigger] bounds_bytes(a) == v by { assert(bounds_bytes(a) =~= v); }
    }
    pub open spec fn sub_key_bytes(k: SubSessionKey) -> Seq<u8> {
        match k {
            SubSessionKey::None => Seq::empty(),
            SubSessionKey::Short(x) => x@,
            SubSessionKey::Extended(x) => x@,
        }
    }

    /// The parameter has a value that can be read.
    pub open spec fn app_readable(c: AppConfig, id: AppConfigTlvType) -> bool {
        match id {
            AppConfigTlvType::DeviceType => c.device_type is Some,
            AppConfigTlvType::RangingRoundUsage => c.ranging_round_usage is Some,
            AppConfigTlvType::StsConfig => true,
            AppConfigTlvType::MultiNodeMode => c.multi_node_mode is Some,
            AppConfigTlvType::ChannelNumber => true,
            AppConfigTlvType::NumberOfControlees => true,
            AppConfigTlvType::DeviceMacAddress => c.device_mac_address is Some,
            AppConfigTlvType::DstMacAddress => true,
            AppConfigTlvType::SlotDuration => true,
            AppConfigTlvType::RangingDuration => true,
            AppConfigTlvType::StsIndex => true,
            AppConfigTlvType::MacFcsType => true,
            AppConfigTlvType::RangingRoundControl => true,
            AppConfigTlvType::AoaResultReq => true,
            AppConfigTlvType::SessionInfoNtfConfig => true,
            AppConfigTlvType::NearProximityConfig => true,
            AppConfigTlvType::FarProximityConfig => true,
            AppConfigTlvType::DeviceRole => c.device_role is Some,
            AppConfigTlvType::RframeConfig => true,
            AppConfigTlvType::RssiReporting => true,
            AppConfigTlvType::PreambleCodeIndex => true,
            AppConfigTlvType::SfdId => true,
            AppConfigTlvType::PsduDataRate => true,
            AppConfigTlvType::PreambleDuration => true,
            AppConfigTlvType::LinkLayerMode => true,
            AppConfigTlvType::DataRepetitionCount => true,
            AppConfigTlvType::RangingTimeStruct => true,
            AppConfigTlvType::SlotsPerRr => true,
            AppConfigTlvType::AoaBoundConfig => true,
            AppConfigTlvType::PrfMode => true,
            AppConfigTlvType::CapSizeRange => true,
            AppConfigTlvType::TxJitterWindowSize => true,
            AppConfigTlvType::ScheduleMode => c.schedule_mode is Some,
            AppConfigTlvType::KeyRotation => true,
            AppConfigTlvType::KeyRotationRate => true,
            AppConfigTlvType::SessionPriority => true,
            AppConfigTlvType::MacAddressMode => true,
            AppConfigTlvType::VendorId => true,
            AppConfigTlvType::StaticStsIv => true,
            AppConfigTlvType::NumberOfStsSegments => true,
            AppConfigTlvType::MaxRrRetry => true,
            AppConfigTlvType::UwbInitiationTime => true,
            AppConfigTlvType::HoppingMode => true,
            AppConfigTlvType::BlockStrideLength => true,
            AppConfigTlvType::ResultReportConfig => true,
            AppConfigTlvType::InBandTerminationAttemptCount => true,
            AppConfigTlvType::SubSessionId => true,
            AppConfigTlvType::BprfPhrDataRate => true,
            AppConfigTlvType::MaxNumberOfMeasurements => true,
            AppConfigTlvType::StsLength => true,
            AppConfigTlvType::MinFramesPerRr => true,
            AppConfigTlvType::MtuSize => true,
            AppConfigTlvType::InterFrameInterval => true,
            AppConfigTlvType::SessionKey => true,
            AppConfigTlvType::SubSessionKey => true,
            AppConfigTlvType::SessionDataTransferStatusNtfConfig => true,
            AppConfigTlvType::SessionTimeBase => true,
            AppConfigTlvType::ApplicationDataEndpoint => true,
            _ => false,
        }
    }
    /// The bytes of a readable parameter.
    pub open spec fn app_value(c: AppConfig, id: AppConfigTlvType) -> Seq<u8> {
        match id {
            AppConfigTlvType::DeviceType => seq![code_DeviceType(c.device_type->Some_0)],
            AppConfigTlvType::RangingRoundUsage => seq![code_RangingRoundUsage(c.ranging_round_usage->Some_0)],
            AppConfigTlvType::StsConfig => seq![code_StsConfig(c.sts_config)],
            AppConfigTlvType::MultiNodeMode => seq![code_MultiNodeMode(c.multi_node_mode->Some_0)],
            AppConfigTlvType::ChannelNumber => seq![code_ChannelNumber(c.channel_number)],
            AppConfigTlvType::NumberOfControlees => seq![c.number_of_controlees],
            AppConfigTlvType::DeviceMacAddress => addr_bytes(c.device_mac_address->Some_0),
            AppConfigTlvType::DstMacAddress => addrs_bytes(c.dst_mac_address@),
            AppConfigTlvType::SlotDuration => u16le(c.slot_duration),
            AppConfigTlvType::RangingDuration => u32le(c.ranging_duration),
            AppConfigTlvType::StsIndex => u32le(c.sts_index),
            AppConfigTlvType::MacFcsType => seq![code_MacFcsType(c.mac_fcs_type)],
            AppConfigTlvType::RangingRoundControl => seq![c.ranging_round_control],
            AppConfigTlvType::AoaResultReq => seq![code_AoaResultReq(c.aoa_result_req)],
            AppConfigTlvType::SessionInfoNtfConfig => seq![code_SessionInfoNtfConfig(c.session_info_ntf_config)],
            AppConfigTlvType::NearProximityConfig => u16le(c.near_proximity_config),
            AppConfigTlvType::FarProximityConfig => u16le(c.far_proximity_config),
            AppConfigTlvType::DeviceRole => seq![code_DeviceRole(c.device_role->Some_0)],
            AppConfigTlvType::RframeConfig => seq![code_RframeConfig(c.rframe_config)],
            AppConfigTlvType::RssiReporting => seq![code_RssiReporting(c.rssi_reporting)],
            AppConfigTlvType::PreambleCodeIndex => seq![c.preamble_code_index],
            AppConfigTlvType::SfdId => seq![c.sfd_id],
            AppConfigTlvType::PsduDataRate => seq![code_PsduDataRate(c.psdu_data_rate)],
            AppConfigTlvType::PreambleDuration => seq![code_PreambleDuration(c.preamble_duration)],
            AppConfigTlvType::LinkLayerMode => seq![code_LinkLayerMode(c.link_layer_mode)],
            AppConfigTlvType::DataRepetitionCount => seq![c.data_repetition_count],
            AppConfigTlvType::RangingTimeStruct => seq![code_RangingTimeStruct(c.ranging_time_struct)],
            AppConfigTlvType::SlotsPerRr => seq![c.slots_per_rr],
            AppConfigTlvType::AoaBoundConfig => bounds_bytes(c.aoa_bound_config),
            AppConfigTlvType::PrfMode => seq![code_PrfMode(c.prf_mode)],
            AppConfigTlvType::CapSizeRange => c.cap_size_range@,
            AppConfigTlvType::TxJitterWindowSize => seq![c.tx_jitter_window_size],
            AppConfigTlvType::ScheduleMode => seq![code_ScheduleMode(c.schedule_mode->Some_0)],
            AppConfigTlvType::KeyRotation => seq![code_KeyRotation(c.key_rotation)],
            AppConfigTlvType::KeyRotationRate => seq![c.key_rotation_rate],
            AppConfigTlvType::SessionPriority => seq![c.session_priority],
            AppConfigTlvType::MacAddressMode => seq![code_MacAddressMode(c.mac_address_mode)],
            AppConfigTlvType::VendorId => u16le(c.vendor_id),
            AppConfigTlvType::StaticStsIv => c.static_sts_iv@,
            AppConfigTlvType::NumberOfStsSegments => seq![c.number_of_sts_segments],
            AppConfigTlvType::MaxRrRetry => u16le(c.max_rr_retry),
            AppConfigTlvType::UwbInitiationTime => u64le(c.uwb_initiation_time),
            AppConfigTlvType::HoppingMode => seq![code_HoppingMode(c.hopping_mode)],
            AppConfigTlvType::BlockStrideLength => seq![c.block_stride_length],
            AppConfigTlvType::ResultReportConfig => seq![c.result_report_config],
            AppConfigTlvType::InBandTerminationAttemptCount => seq![c.in_band_termination_attempt_count],
            AppConfigTlvType::SubSessionId => u32le(c.sub_session_id),
            AppConfigTlvType::BprfPhrDataRate => seq![code_BprfPhrDataRate(c.bprf_phr_data_rate)],
            AppConfigTlvType::MaxNumberOfMeasurements => u16le(c.max_number_of_measurements),
            AppConfigTlvType::StsLength => seq![code_StsLength(c.sts_length)],
            AppConfigTlvType::MinFramesPerRr => seq![c.min_frames_per_rr],
            AppConfigTlvType::MtuSize => u16le(c.mtu_size),
            AppConfigTlvType::InterFrameInterval => seq![c.inter_frame_interval],
            AppConfigTlvType::SessionKey => c.session_key@,
            AppConfigTlvType::SubSessionKey => sub_key_bytes(c.sub_session_key),
            AppConfigTlvType::SessionDataTransferStatusNtfConfig => seq![code_SessionDataTransferStatusNtfConfig(c.session_data_transfer_status_ntf_config)],
            AppConfigTlvType::SessionTimeBase => c.session_time_base@,
            AppConfigTlvType::ApplicationDataEndpoint => seq![c.application_data_endpoint],
            _ => Seq::empty(),
        }
    }
    /// The value is one the parameter may take.
    pub open spec fn app_ok(c: AppConfig, id: AppConfigTlvType, v: Seq<u8>) -> bool {
        match id {
            AppConfigTlvType::DeviceType => v.len() == 1 && of_DeviceType(v[0]) is Some,
            AppConfigTlvType::RangingRoundUsage => v.len() == 1 && of_RangingRoundUsage(v[0]) is Some,
            AppConfigTlvType::StsConfig => v.len() == 1 && of_StsConfig(v[0]) is Some,
            AppConfigTlvType::MultiNodeMode => v.len() == 1 && of_MultiNodeMode(v[0]) is Some,
            AppConfigTlvType::ChannelNumber => v.len() == 1 && of_ChannelNumber(v[0]) is Some,
            AppConfigTlvType::NumberOfControlees => v.len() == 1,
            AppConfigTlvType::DeviceMacAddress => mode_size(c.mac_address_mode) != 0 && v.len() == mode_size(c.mac_address_mode),
            AppConfigTlvType::DstMacAddress => mode_size(c.mac_address_mode) != 0 && v.len() == total(c.number_of_controlees as int, mode_size(c.mac_address_mode)),
            AppConfigTlvType::SlotDuration => v.len() == 2,
            AppConfigTlvType::RangingDuration => v.len() == 4,
            AppConfigTlvType::StsIndex => v.len() == 4,
            AppConfigTlvType::MacFcsType => v.len() == 1 && of_MacFcsType(v[0]) is Some,
            AppConfigTlvType::RangingRoundControl => v.len() == 1,
            AppConfigTlvType::AoaResultReq => v.len() == 1 && of_AoaResultReq(v[0]) is Some,
            AppConfigTlvType::SessionInfoNtfConfig => v.len() == 1 && of_SessionInfoNtfConfig(v[0]) is Some,
            AppConfigTlvType::NearProximityConfig => v.len() == 2,
            AppConfigTlvType::FarProximityConfig => v.len() == 2,
            AppConfigTlvType::DeviceRole => v.len() == 1 && of_DeviceRole(v[0]) is Some,
            AppConfigTlvType::RframeConfig => v.len() == 1 && of_RframeConfig(v[0]) is Some,
            AppConfigTlvType::RssiReporting => v.len() == 1 && of_RssiReporting(v[0]) is Some,
            AppConfigTlvType::PreambleCodeIndex => v.len() == 1,
            AppConfigTlvType::SfdId => v.len() == 1,
            AppConfigTlvType::PsduDataRate => v.len() == 1 && of_PsduDataRate(v[0]) is Some,
            AppConfigTlvType::PreambleDuration => v.len() == 1 && of_PreambleDuration(v[0]) is Some,
            AppConfigTlvType::LinkLayerMode => v.len() == 1 && of_LinkLayerMode(v[0]) is Some,
            AppConfigTlvType::DataRepetitionCount => v.len() == 1,
            AppConfigTlvType::RangingTimeStruct => v.len() == 1 && of_RangingTimeStruct(v[0]) is Some,
            AppConfigTlvType::SlotsPerRr => v.len() == 1,
            AppConfigTlvType::AoaBoundConfig => v.len() == 8,
            AppConfigTlvType::PrfMode => v.len() == 1 && of_PrfMode(v[0]) is Some,
            AppConfigTlvType::CapSizeRange => v.len() == 2,
            AppConfigTlvType::TxJitterWindowSize => v.len() == 1,
            AppConfigTlvType::ScheduleMode => v.len() == 1 && of_ScheduleMode(v[0]) is Some,
            AppConfigTlvType::KeyRotation => v.len() == 1 && of_KeyRotation(v[0]) is Some,
            AppConfigTlvType::KeyRotationRate => v.len() == 1,
            AppConfigTlvType::SessionPriority => v.len() == 1,
            AppConfigTlvType::MacAddressMode => v.len() == 1 && of_MacAddressMode(v[0]) is Some,
            AppConfigTlvType::VendorId => v.len() == 2,
            AppConfigTlvType::StaticStsIv => v.len() == 6,
            AppConfigTlvType::NumberOfStsSegments => v.len() == 1,
            AppConfigTlvType::MaxRrRetry => v.len() == 2,
            AppConfigTlvType::UwbInitiationTime => v.len() == 4 || v.len() == 8,
            AppConfigTlvType::HoppingMode => v.len() == 1 && of_HoppingMode(v[0]) is Some,
            AppConfigTlvType::BlockStrideLength => v.len() == 1,
            AppConfigTlvType::ResultReportConfig => v.len() == 1,
            AppConfigTlvType::InBandTerminationAttemptCount => v.len() == 1,
            AppConfigTlvType::SubSessionId => v.len() == 4,
            AppConfigTlvType::BprfPhrDataRate => v.len() == 1 && of_BprfPhrDataRate(v[0]) is Some,
            AppConfigTlvType::MaxNumberOfMeasurements => v.len() == 2,
            AppConfigTlvType::StsLength => v.len() == 1 && of_StsLength(v[0]) is Some,
            AppConfigTlvType::MinFramesPerRr => v.len() == 1,
            AppConfigTlvType::MtuSize => v.len() == 2,
            AppConfigTlvType::InterFrameInterval => v.len() == 1,
            AppConfigTlvType::SessionKey => true,
            AppConfigTlvType::SubSessionKey => v.len() == 16 || v.len() == 32,
            AppConfigTlvType::SessionDataTransferStatusNtfConfig => v.len() == 1 && of_SessionDataTransferStatusNtfConfig(v[0]) is Some,
            AppConfigTlvType::SessionTimeBase => v.len() == 9,
            AppConfigTlvType::ApplicationDataEndpoint => v.len() == 1,
            _ => false,
        }
    }
    /// c1 is c0 with one parameter replaced.
    pub open spec fn app_put(c0: AppConfig, id: AppConfigTlvType, v: Seq<u8>, c1: AppConfig) -> bool {
        match id {
            AppConfigTlvType::DeviceType => c1 == (AppConfig { device_type: of_DeviceType(v[0]), ..c0 }),
            AppConfigTlvType::RangingRoundUsage => c1 == (AppConfig { ranging_round_usage: of_RangingRoundUsage(v[0]), ..c0 }),
            AppConfigTlvType::StsConfig => c1 == (AppConfig { sts_config: of_StsConfig(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::MultiNodeMode => c1 == (AppConfig { multi_node_mode: of_MultiNodeMode(v[0]), ..c0 }),
            AppConfigTlvType::ChannelNumber => c1 == (AppConfig { channel_number: of_ChannelNumber(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::NumberOfControlees => c1 == (AppConfig { number_of_controlees: v[0], ..c0 }),
            AppConfigTlvType::DeviceMacAddress => c1 == (AppConfig { device_mac_address: c1.device_mac_address, ..c0 }) && c1.device_mac_address is Some && addr_is(c0.mac_address_mode, v, c1.device_mac_address->Some_0),
            AppConfigTlvType::DstMacAddress => c1 == (AppConfig { dst_mac_address: c1.dst_mac_address, ..c0 }) && addrs_are(c0.mac_address_mode, v, c1.dst_mac_address@),
            AppConfigTlvType::SlotDuration => c1 == (AppConfig { slot_duration: c1.slot_duration, ..c0 }) && u16le(c1.slot_duration) =~= v,
            AppConfigTlvType::RangingDuration => c1 == (AppConfig { ranging_duration: c1.ranging_duration, ..c0 }) && u32le(c1.ranging_duration) =~= v,
            AppConfigTlvType::StsIndex => c1 == (AppConfig { sts_index: c1.sts_index, ..c0 }) && u32le(c1.sts_index) =~= v,
            AppConfigTlvType::MacFcsType => c1 == (AppConfig { mac_fcs_type: of_MacFcsType(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::RangingRoundControl => c1 == (AppConfig { ranging_round_control: v[0], ..c0 }),
            AppConfigTlvType::AoaResultReq => c1 == (AppConfig { aoa_result_req: of_AoaResultReq(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::SessionInfoNtfConfig => c1 == (AppConfig { session_info_ntf_config: of_SessionInfoNtfConfig(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::NearProximityConfig => c1 == (AppConfig { near_proximity_config: c1.near_proximity_config, ..c0 }) && u16le(c1.near_proximity_config) =~= v,
            AppConfigTlvType::FarProximityConfig => c1 == (AppConfig { far_proximity_config: c1.far_proximity_config, ..c0 }) && u16le(c1.far_proximity_config) =~= v,
            AppConfigTlvType::DeviceRole => c1 == (AppConfig { device_role: of_DeviceRole(v[0]), ..c0 }),
            AppConfigTlvType::RframeConfig => c1 == (AppConfig { rframe_config: of_RframeConfig(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::RssiReporting => c1 == (AppConfig { rssi_reporting: of_RssiReporting(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::PreambleCodeIndex => c1 == (AppConfig { preamble_code_index: v[0], ..c0 }),
            AppConfigTlvType::SfdId => c1 == (AppConfig { sfd_id: v[0], ..c0 }),
            AppConfigTlvType::PsduDataRate => c1 == (AppConfig { psdu_data_rate: of_PsduDataRate(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::PreambleDuration => c1 == (AppConfig { preamble_duration: of_PreambleDuration(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::LinkLayerMode => c1 == (AppConfig { link_layer_mode: of_LinkLayerMode(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::DataRepetitionCount => c1 == (AppConfig { data_repetition_count: v[0], ..c0 }),
            AppConfigTlvType::RangingTimeStruct => c1 == (AppConfig { ranging_time_struct: of_RangingTimeStruct(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::SlotsPerRr => c1 == (AppConfig { slots_per_rr: v[0], ..c0 }),
            AppConfigTlvType::AoaBoundConfig => c1 == (AppConfig { aoa_bound_config: c1.aoa_bound_config, ..c0 }) && bounds_bytes(c1.aoa_bound_config) =~= v,
            AppConfigTlvType::PrfMode => c1 == (AppConfig { prf_mode: of_PrfMode(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::CapSizeRange => c1 == (AppConfig { cap_size_range: c1.cap_size_range, ..c0 }) && c1.cap_size_range@ =~= v,
            AppConfigTlvType::TxJitterWindowSize => c1 == (AppConfig { tx_jitter_window_size: v[0], ..c0 }),
            AppConfigTlvType::ScheduleMode => c1 == (AppConfig { schedule_mode: of_ScheduleMode(v[0]), ..c0 }),
            AppConfigTlvType::KeyRotation => c1 == (AppConfig { key_rotation: of_KeyRotation(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::KeyRotationRate => c1 == (AppConfig { key_rotation_rate: v[0], ..c0 }),
            AppConfigTlvType::SessionPriority => c1 == (AppConfig { session_priority: v[0], ..c0 }),
            AppConfigTlvType::MacAddressMode => c1 == (AppConfig { mac_address_mode: of_MacAddressMode(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::VendorId => c1 == (AppConfig { vendor_id: c1.vendor_id, ..c0 }) && u16le(c1.vendor_id) =~= v,
            AppConfigTlvType::StaticStsIv => c1 == (AppConfig { static_sts_iv: c1.static_sts_iv, ..c0 }) && c1.static_sts_iv@ =~= v,
            AppConfigTlvType::NumberOfStsSegments => c1 == (AppConfig { number_of_sts_segments: v[0], ..c0 }),
            AppConfigTlvType::MaxRrRetry => c1 == (AppConfig { max_rr_retry: c1.max_rr_retry, ..c0 }) && u16le(c1.max_rr_retry) =~= v,
            AppConfigTlvType::UwbInitiationTime => c1 == (AppConfig { uwb_initiation_time: c1.uwb_initiation_time, ..c0 }) && u64le(c1.uwb_initiation_time) =~= app_canon(AppConfigTlvType::UwbInitiationTime, v),
            AppConfigTlvType::HoppingMode => c1 == (AppConfig { hopping_mode: of_HoppingMode(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::BlockStrideLength => c1 == (AppConfig { block_stride_length: v[0], ..c0 }),
            AppConfigTlvType::ResultReportConfig => c1 == (AppConfig { result_report_config: v[0], ..c0 }),
            AppConfigTlvType::InBandTerminationAttemptCount => c1 == (AppConfig { in_band_termination_attempt_count: v[0], ..c0 }),
            AppConfigTlvType::SubSessionId => c1 == (AppConfig { sub_session_id: c1.sub_session_id, ..c0 }) && u32le(c1.sub_session_id) =~= v,
            AppConfigTlvType::BprfPhrDataRate => c1 == (AppConfig { bprf_phr_data_rate: of_BprfPhrDataRate(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::MaxNumberOfMeasurements => c1 == (AppConfig { max_number_of_measurements: c1.max_number_of_measurements, ..c0 }) && u16le(c1.max_number_of_measurements) =~= v,
            AppConfigTlvType::StsLength => c1 == (AppConfig { sts_length: of_StsLength(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::MinFramesPerRr => c1 == (AppConfig { min_frames_per_rr: v[0], ..c0 }),
            AppConfigTlvType::MtuSize => c1 == (AppConfig { mtu_size: c1.mtu_size, ..c0 }) && u16le(c1.mtu_size) =~= v,
            AppConfigTlvType::InterFrameInterval => c1 == (AppConfig { inter_frame_interval: v[0], ..c0 }),
            AppConfigTlvType::SessionKey => c1 == (AppConfig { session_key: c1.session_key, ..c0 }) && c1.session_key@ =~= v,
            AppConfigTlvType::SubSessionKey => c1 == (AppConfig { sub_session_key: c1.sub_session_key, ..c0 }) && sub_key_bytes(c1.sub_session_key) =~= v && !(c1.sub_session_key is None),
            AppConfigTlvType::SessionDataTransferStatusNtfConfig => c1 == (AppConfig { session_data_transfer_status_ntf_config: of_SessionDataTransferStatusNtfConfig(v[0])->Some_0, ..c0 }),
            AppConfigTlvType::SessionTimeBase => c1 == (AppConfig { session_time_base: c1.session_time_base, ..c0 }) && c1.session_time_base@ =~= v,
            AppConfigTlvType::ApplicationDataEndpoint => c1 == (AppConfig { application_data_endpoint: v[0], ..c0 }),
            _ => c1 == c0,
        }
    }
    /// The form a value is read back in: the four-byte form of the initiation time is extended.
    pub open spec fn app_canon(id: AppConfigTlvType, v: Seq<u8>) -> Seq<u8> {
        if id == AppConfigTlvType::UwbInitiationTime && v.len() == 4 { v + seq![0u8, 0, 0, 0] } else { v }
    }
    pub open spec fn app_set(c0: AppConfig, id: AppConfigTlvType, v: Seq<u8>, c1: AppConfig) -> bool {
        if app_ok(c0, id, v) { app_put(c0, id, v, c1) } else { c1 == c0 }
    }
    /// Sizes that keep every value within one parameter of a packet.
    pub open spec fn app_wf(c: AppConfig) -> bool {
        c.session_key@.len() <= 255 && addrs_bytes(c.dst_mac_address@).len() <= 255
    }

    /// The defaults of [UCI] table 45.
    pub open spec fn app_default(c: AppConfig) -> bool {
        &&& c.device_type == None
        &&& c.ranging_round_usage == None
        &&& c.sts_config == StsConfig::Static
        &&& c.multi_node_mode == None
        &&& c.channel_number == ChannelNumber::ChannelNumber9
        &&& c.number_of_controlees == 1
        &&& c.device_mac_address == None
        &&& c.slot_duration == 2400
        &&& c.ranging_duration == 200
        &&& c.sts_index == 0
        &&& c.mac_fcs_type == MacFcsType::Crc16
        &&& c.ranging_round_control == 6
        &&& c.aoa_result_req == AoaResultReq::AoaEnabled
        &&& c.session_info_ntf_config == SessionInfoNtfConfig::Enable
        &&& c.near_proximity_config == 0
        &&& c.far_proximity_config == 20000
        &&& c.device_role == None
        &&& c.rframe_config == RframeConfig::Sp3
        &&& c.rssi_reporting == RssiReporting::Disable
        &&& c.preamble_code_index == 10
        &&& c.sfd_id == 2
        &&& c.psdu_data_rate == PsduDataRate::DataRate6m81
        &&& c.preamble_duration == PreambleDuration::Duration64Symbols
        &&& c.link_layer_mode == LinkLayerMode::BypassMode
        &&& c.data_repetition_count == 0
        &&& c.ranging_time_struct == RangingTimeStruct::BlockBasedScheduling
        &&& c.slots_per_rr == 25
        &&& c.prf_mode == PrfMode::BprfMode
        &&& c.tx_jitter_window_size == 0
        &&& c.schedule_mode == None
        &&& c.key_rotation == KeyRotation::Disable
        &&& c.key_rotation_rate == 0
        &&& c.session_priority == 50
        &&& c.mac_address_mode == MacAddressMode::Mode0
        &&& c.vendor_id == 0
        &&& c.number_of_sts_segments == 1
        &&& c.max_rr_retry == 0
        &&& c.uwb_initiation_time == 0
        &&& c.hopping_mode == HoppingMode::Disable
        &&& c.block_stride_length == 0
        &&& c.result_report_config == 1
        &&& c.in_band_termination_attempt_count == 1
        &&& c.sub_session_id == 0
        &&& c.bprf_phr_data_rate == BprfPhrDataRate::DataRate850k
        &&& c.max_number_of_measurements == 0
        &&& c.sts_length == StsLength::Length64Symbols
        &&& c.min_frames_per_rr == 4
        &&& c.mtu_size == 0
        &&& c.inter_frame_interval == 1
        &&& c.sub_session_key == SubSessionKey::None
        &&& c.session_data_transfer_status_ntf_config == SessionDataTransferStatusNtfConfig::Disable
        &&& c.application_data_endpoint == 0
        &&& c.dst_mac_address@ =~= Seq::<MacAddress>::empty()
        &&& c.aoa_bound_config[0] == 0 && c.aoa_bound_config[1] == 0 && c.aoa_bound_config[2] == 0 && c.aoa_bound_config[3] == 0
        &&& c.session_key@ =~= Seq::<u8>::empty()
        &&& c.static_sts_iv[0] == 0 && c.static_sts_iv[1] == 0 && c.static_sts_iv[2] == 0 && c.static_sts_iv[3] == 0 && c.static_sts_iv[4] == 0 && c.static_sts_iv[5] == 0
        &&& c.cap_size_range[0] == 24 && c.cap_size_range[1] == 5
        &&& c.session_time_base[0] == 0 && c.session_time_base[1] == 0 && c.session_time_base[2] == 0 && c.session_time_base[3] == 0 && c.session_time_base[4] == 0 && c.session_time_base[5] == 0 && c.session_time_base[6] == 0 && c.session_time_base[7] == 0 && c.session_time_base[8] == 0
    }

    pub proof fn lem_addrs_len(s: Seq<MacAddress>)
        ensures addrs_bytes(s).len() <= 8 * s.len(),
        decreases s.len(),
    {
        if s.len() > 0 { lem_addrs_len(s.drop_last()); }
    }
    pub proof fn lem_addrs_push(s: Seq<MacAddress>, a: MacAddress)
        ensures addrs_bytes(s.push(a)) == addrs_bytes(s) + addr_bytes(a),
    {
        assert(s.push(a).drop_last() =~= s);
    }
    pub proof fn lem_addrs_value(m: MacAddressMode, v: Seq<u8>, s: Seq<MacAddress>)
        requires addrs_are(m, v, s),
        ensures addrs_bytes(s) =~= v,
        decreases s.len(),
    {
        let n = mode_size(m);
        if s.len() > 0 {
            let k = s.len() - 1;
            assert(addr_is(m, piece(v, k, n), s[k]));
            let w = v.subrange(0, total(k, n));
            assert forall|i: int| 0 <= i < k implies addr_is(m, piece(w, i, n), #[trigger] s.drop_last()[i]) by {
                assert(addr_is(m, piece(v, i, n), s[i]));
                assert(piece(w, i, n) =~= piece(v, i, n));
            }
            lem_addrs_value(m, w, s.drop_last());
            assert(v =~= w + piece(v, k, n));
        }
    }

    proof fn lem_put_device_type(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::DeviceType, v), app_put(c0, AppConfigTlvType::DeviceType, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::DeviceType) && app_value(c1, AppConfigTlvType::DeviceType) =~= app_canon(AppConfigTlvType::DeviceType, v),
            other != AppConfigTlvType::DeviceType ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_DeviceType(v[0], of_DeviceType(v[0])->Some_0);
    }
    proof fn lem_put_ranging_round_usage(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::RangingRoundUsage, v), app_put(c0, AppConfigTlvType::RangingRoundUsage, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::RangingRoundUsage) && app_value(c1, AppConfigTlvType::RangingRoundUsage) =~= app_canon(AppConfigTlvType::RangingRoundUsage, v),
            other != AppConfigTlvType::RangingRoundUsage ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_RangingRoundUsage(v[0], of_RangingRoundUsage(v[0])->Some_0);
    }
    proof fn lem_put_sts_config(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::StsConfig, v), app_put(c0, AppConfigTlvType::StsConfig, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::StsConfig) && app_value(c1, AppConfigTlvType::StsConfig) =~= app_canon(AppConfigTlvType::StsConfig, v),
            other != AppConfigTlvType::StsConfig ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_StsConfig(v[0], of_StsConfig(v[0])->Some_0);
    }
    proof fn lem_put_multi_node_mode(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::MultiNodeMode, v), app_put(c0, AppConfigTlvType::MultiNodeMode, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::MultiNodeMode) && app_value(c1, AppConfigTlvType::MultiNodeMode) =~= app_canon(AppConfigTlvType::MultiNodeMode, v),
            other != AppConfigTlvType::MultiNodeMode ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_MultiNodeMode(v[0], of_MultiNodeMode(v[0])->Some_0);
    }
    proof fn lem_put_channel_number(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::ChannelNumber, v), app_put(c0, AppConfigTlvType::ChannelNumber, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::ChannelNumber) && app_value(c1, AppConfigTlvType::ChannelNumber) =~= app_canon(AppConfigTlvType::ChannelNumber, v),
            other != AppConfigTlvType::ChannelNumber ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_ChannelNumber(v[0], of_ChannelNumber(v[0])->Some_0);
    }
    proof fn lem_put_number_of_controlees(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::NumberOfControlees, v), app_put(c0, AppConfigTlvType::NumberOfControlees, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::NumberOfControlees) && app_value(c1, AppConfigTlvType::NumberOfControlees) =~= app_canon(AppConfigTlvType::NumberOfControlees, v),
            other != AppConfigTlvType::NumberOfControlees ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_device_mac_address(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::DeviceMacAddress, v), app_put(c0, AppConfigTlvType::DeviceMacAddress, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::DeviceMacAddress) && app_value(c1, AppConfigTlvType::DeviceMacAddress) =~= app_canon(AppConfigTlvType::DeviceMacAddress, v),
            other != AppConfigTlvType::DeviceMacAddress ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_dst_mac_address(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::DstMacAddress, v), app_put(c0, AppConfigTlvType::DstMacAddress, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::DstMacAddress) && app_value(c1, AppConfigTlvType::DstMacAddress) =~= app_canon(AppConfigTlvType::DstMacAddress, v),
            other != AppConfigTlvType::DstMacAddress ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_addrs_value(c0.mac_address_mode, v, c1.dst_mac_address@);
    }
    proof fn lem_put_slot_duration(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::SlotDuration, v), app_put(c0, AppConfigTlvType::SlotDuration, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::SlotDuration) && app_value(c1, AppConfigTlvType::SlotDuration) =~= app_canon(AppConfigTlvType::SlotDuration, v),
            other != AppConfigTlvType::SlotDuration ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_ranging_duration(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::RangingDuration, v), app_put(c0, AppConfigTlvType::RangingDuration, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::RangingDuration) && app_value(c1, AppConfigTlvType::RangingDuration) =~= app_canon(AppConfigTlvType::RangingDuration, v),
            other != AppConfigTlvType::RangingDuration ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_sts_index(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::StsIndex, v), app_put(c0, AppConfigTlvType::StsIndex, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::StsIndex) && app_value(c1, AppConfigTlvType::StsIndex) =~= app_canon(AppConfigTlvType::StsIndex, v),
            other != AppConfigTlvType::StsIndex ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_mac_fcs_type(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::MacFcsType, v), app_put(c0, AppConfigTlvType::MacFcsType, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::MacFcsType) && app_value(c1, AppConfigTlvType::MacFcsType) =~= app_canon(AppConfigTlvType::MacFcsType, v),
            other != AppConfigTlvType::MacFcsType ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_MacFcsType(v[0], of_MacFcsType(v[0])->Some_0);
    }
    proof fn lem_put_ranging_round_control(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::RangingRoundControl, v), app_put(c0, AppConfigTlvType::RangingRoundControl, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::RangingRoundControl) && app_value(c1, AppConfigTlvType::RangingRoundControl) =~= app_canon(AppConfigTlvType::RangingRoundControl, v),
            other != AppConfigTlvType::RangingRoundControl ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_aoa_result_req(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::AoaResultReq, v), app_put(c0, AppConfigTlvType::AoaResultReq, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::AoaResultReq) && app_value(c1, AppConfigTlvType::AoaResultReq) =~= app_canon(AppConfigTlvType::AoaResultReq, v),
            other != AppConfigTlvType::AoaResultReq ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_AoaResultReq(v[0], of_AoaResultReq(v[0])->Some_0);
    }
    proof fn lem_put_session_info_ntf_config(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::SessionInfoNtfConfig, v), app_put(c0, AppConfigTlvType::SessionInfoNtfConfig, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::SessionInfoNtfConfig) && app_value(c1, AppConfigTlvType::SessionInfoNtfConfig) =~= app_canon(AppConfigTlvType::SessionInfoNtfConfig, v),
            other != AppConfigTlvType::SessionInfoNtfConfig ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_SessionInfoNtfConfig(v[0], of_SessionInfoNtfConfig(v[0])->Some_0);
    }
    proof fn lem_put_near_proximity_config(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::NearProximityConfig, v), app_put(c0, AppConfigTlvType::NearProximityConfig, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::NearProximityConfig) && app_value(c1, AppConfigTlvType::NearProximityConfig) =~= app_canon(AppConfigTlvType::NearProximityConfig, v),
            other != AppConfigTlvType::NearProximityConfig ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_far_proximity_config(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::FarProximityConfig, v), app_put(c0, AppConfigTlvType::FarProximityConfig, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::FarProximityConfig) && app_value(c1, AppConfigTlvType::FarProximityConfig) =~= app_canon(AppConfigTlvType::FarProximityConfig, v),
            other != AppConfigTlvType::FarProximityConfig ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_device_role(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::DeviceRole, v), app_put(c0, AppConfigTlvType::DeviceRole, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::DeviceRole) && app_value(c1, AppConfigTlvType::DeviceRole) =~= app_canon(AppConfigTlvType::DeviceRole, v),
            other != AppConfigTlvType::DeviceRole ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_DeviceRole(v[0], of_DeviceRole(v[0])->Some_0);
    }
    proof fn lem_put_rframe_config(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::RframeConfig, v), app_put(c0, AppConfigTlvType::RframeConfig, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::RframeConfig) && app_value(c1, AppConfigTlvType::RframeConfig) =~= app_canon(AppConfigTlvType::RframeConfig, v),
            other != AppConfigTlvType::RframeConfig ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_RframeConfig(v[0], of_RframeConfig(v[0])->Some_0);
    }
    proof fn lem_put_rssi_reporting(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::RssiReporting, v), app_put(c0, AppConfigTlvType::RssiReporting, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::RssiReporting) && app_value(c1, AppConfigTlvType::RssiReporting) =~= app_canon(AppConfigTlvType::RssiReporting, v),
            other != AppConfigTlvType::RssiReporting ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_RssiReporting(v[0], of_RssiReporting(v[0])->Some_0);
    }
    proof fn lem_put_preamble_code_index(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::PreambleCodeIndex, v), app_put(c0, AppConfigTlvType::PreambleCodeIndex, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::PreambleCodeIndex) && app_value(c1, AppConfigTlvType::PreambleCodeIndex) =~= app_canon(AppConfigTlvType::PreambleCodeIndex, v),
            other != AppConfigTlvType::PreambleCodeIndex ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_sfd_id(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::SfdId, v), app_put(c0, AppConfigTlvType::SfdId, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::SfdId) && app_value(c1, AppConfigTlvType::SfdId) =~= app_canon(AppConfigTlvType::SfdId, v),
            other != AppConfigTlvType::SfdId ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_psdu_data_rate(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::PsduDataRate, v), app_put(c0, AppConfigTlvType::PsduDataRate, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::PsduDataRate) && app_value(c1, AppConfigTlvType::PsduDataRate) =~= app_canon(AppConfigTlvType::PsduDataRate, v),
            other != AppConfigTlvType::PsduDataRate ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_PsduDataRate(v[0], of_PsduDataRate(v[0])->Some_0);
    }
    proof fn lem_put_preamble_duration(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::PreambleDuration, v), app_put(c0, AppConfigTlvType::PreambleDuration, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::PreambleDuration) && app_value(c1, AppConfigTlvType::PreambleDuration) =~= app_canon(AppConfigTlvType::PreambleDuration, v),
            other != AppConfigTlvType::PreambleDuration ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_PreambleDuration(v[0], of_PreambleDuration(v[0])->Some_0);
    }
    proof fn lem_put_link_layer_mode(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::LinkLayerMode, v), app_put(c0, AppConfigTlvType::LinkLayerMode, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::LinkLayerMode) && app_value(c1, AppConfigTlvType::LinkLayerMode) =~= app_canon(AppConfigTlvType::LinkLayerMode, v),
            other != AppConfigTlvType::LinkLayerMode ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_LinkLayerMode(v[0], of_LinkLayerMode(v[0])->Some_0);
    }
    proof fn lem_put_data_repetition_count(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::DataRepetitionCount, v), app_put(c0, AppConfigTlvType::DataRepetitionCount, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::DataRepetitionCount) && app_value(c1, AppConfigTlvType::DataRepetitionCount) =~= app_canon(AppConfigTlvType::DataRepetitionCount, v),
            other != AppConfigTlvType::DataRepetitionCount ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_ranging_time_struct(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::RangingTimeStruct, v), app_put(c0, AppConfigTlvType::RangingTimeStruct, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::RangingTimeStruct) && app_value(c1, AppConfigTlvType::RangingTimeStruct) =~= app_canon(AppConfigTlvType::RangingTimeStruct, v),
            other != AppConfigTlvType::RangingTimeStruct ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_RangingTimeStruct(v[0], of_RangingTimeStruct(v[0])->Some_0);
    }
    proof fn lem_put_slots_per_rr(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::SlotsPerRr, v), app_put(c0, AppConfigTlvType::SlotsPerRr, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::SlotsPerRr) && app_value(c1, AppConfigTlvType::SlotsPerRr) =~= app_canon(AppConfigTlvType::SlotsPerRr, v),
            other != AppConfigTlvType::SlotsPerRr ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_aoa_bound_config(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::AoaBoundConfig, v), app_put(c0, AppConfigTlvType::AoaBoundConfig, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::AoaBoundConfig) && app_value(c1, AppConfigTlvType::AoaBoundConfig) =~= app_canon(AppConfigTlvType::AoaBoundConfig, v),
            other != AppConfigTlvType::AoaBoundConfig ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_prf_mode(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::PrfMode, v), app_put(c0, AppConfigTlvType::PrfMode, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::PrfMode) && app_value(c1, AppConfigTlvType::PrfMode) =~= app_canon(AppConfigTlvType::PrfMode, v),
            other != AppConfigTlvType::PrfMode ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_PrfMode(v[0], of_PrfMode(v[0])->Some_0);
    }
    proof fn lem_put_cap_size_range(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::CapSizeRange, v), app_put(c0, AppConfigTlvType::CapSizeRange, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::CapSizeRange) && app_value(c1, AppConfigTlvType::CapSizeRange) =~= app_canon(AppConfigTlvType::CapSizeRange, v),
            other != AppConfigTlvType::CapSizeRange ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_tx_jitter_window_size(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::TxJitterWindowSize, v), app_put(c0, AppConfigTlvType::TxJitterWindowSize, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::TxJitterWindowSize) && app_value(c1, AppConfigTlvType::TxJitterWindowSize) =~= app_canon(AppConfigTlvType::TxJitterWindowSize, v),
            other != AppConfigTlvType::TxJitterWindowSize ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_schedule_mode(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::ScheduleMode, v), app_put(c0, AppConfigTlvType::ScheduleMode, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::ScheduleMode) && app_value(c1, AppConfigTlvType::ScheduleMode) =~= app_canon(AppConfigTlvType::ScheduleMode, v),
            other != AppConfigTlvType::ScheduleMode ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_ScheduleMode(v[0], of_ScheduleMode(v[0])->Some_0);
    }
    proof fn lem_put_key_rotation(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::KeyRotation, v), app_put(c0, AppConfigTlvType::KeyRotation, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::KeyRotation) && app_value(c1, AppConfigTlvType::KeyRotation) =~= app_canon(AppConfigTlvType::KeyRotation, v),
            other != AppConfigTlvType::KeyRotation ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_KeyRotation(v[0], of_KeyRotation(v[0])->Some_0);
    }
    proof fn lem_put_key_rotation_rate(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::KeyRotationRate, v), app_put(c0, AppConfigTlvType::KeyRotationRate, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::KeyRotationRate) && app_value(c1, AppConfigTlvType::KeyRotationRate) =~= app_canon(AppConfigTlvType::KeyRotationRate, v),
            other != AppConfigTlvType::KeyRotationRate ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_session_priority(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::SessionPriority, v), app_put(c0, AppConfigTlvType::SessionPriority, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::SessionPriority) && app_value(c1, AppConfigTlvType::SessionPriority) =~= app_canon(AppConfigTlvType::SessionPriority, v),
            other != AppConfigTlvType::SessionPriority ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_mac_address_mode(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::MacAddressMode, v), app_put(c0, AppConfigTlvType::MacAddressMode, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::MacAddressMode) && app_value(c1, AppConfigTlvType::MacAddressMode) =~= app_canon(AppConfigTlvType::MacAddressMode, v),
            other != AppConfigTlvType::MacAddressMode ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_MacAddressMode(v[0], of_MacAddressMode(v[0])->Some_0);
    }
    proof fn lem_put_vendor_id(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::VendorId, v), app_put(c0, AppConfigTlvType::VendorId, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::VendorId) && app_value(c1, AppConfigTlvType::VendorId) =~= app_canon(AppConfigTlvType::VendorId, v),
            other != AppConfigTlvType::VendorId ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_static_sts_iv(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::StaticStsIv, v), app_put(c0, AppConfigTlvType::StaticStsIv, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::StaticStsIv) && app_value(c1, AppConfigTlvType::StaticStsIv) =~= app_canon(AppConfigTlvType::StaticStsIv, v),
            other != AppConfigTlvType::StaticStsIv ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_number_of_sts_segments(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::NumberOfStsSegments, v), app_put(c0, AppConfigTlvType::NumberOfStsSegments, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::NumberOfStsSegments) && app_value(c1, AppConfigTlvType::NumberOfStsSegments) =~= app_canon(AppConfigTlvType::NumberOfStsSegments, v),
            other != AppConfigTlvType::NumberOfStsSegments ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_max_rr_retry(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::MaxRrRetry, v), app_put(c0, AppConfigTlvType::MaxRrRetry, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::MaxRrRetry) && app_value(c1, AppConfigTlvType::MaxRrRetry) =~= app_canon(AppConfigTlvType::MaxRrRetry, v),
            other != AppConfigTlvType::MaxRrRetry ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_uwb_initiation_time(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::UwbInitiationTime, v), app_put(c0, AppConfigTlvType::UwbInitiationTime, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::UwbInitiationTime) && app_value(c1, AppConfigTlvType::UwbInitiationTime) =~= app_canon(AppConfigTlvType::UwbInitiationTime, v),
            other != AppConfigTlvType::UwbInitiationTime ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_hopping_mode(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::HoppingMode, v), app_put(c0, AppConfigTlvType::HoppingMode, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::HoppingMode) && app_value(c1, AppConfigTlvType::HoppingMode) =~= app_canon(AppConfigTlvType::HoppingMode, v),
            other != AppConfigTlvType::HoppingMode ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_HoppingMode(v[0], of_HoppingMode(v[0])->Some_0);
    }
    proof fn lem_put_block_stride_length(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::BlockStrideLength, v), app_put(c0, AppConfigTlvType::BlockStrideLength, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::BlockStrideLength) && app_value(c1, AppConfigTlvType::BlockStrideLength) =~= app_canon(AppConfigTlvType::BlockStrideLength, v),
            other != AppConfigTlvType::BlockStrideLength ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_result_report_config(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::ResultReportConfig, v), app_put(c0, AppConfigTlvType::ResultReportConfig, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::ResultReportConfig) && app_value(c1, AppConfigTlvType::ResultReportConfig) =~= app_canon(AppConfigTlvType::ResultReportConfig, v),
            other != AppConfigTlvType::ResultReportConfig ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_in_band_termination_attempt_count(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::InBandTerminationAttemptCount, v), app_put(c0, AppConfigTlvType::InBandTerminationAttemptCount, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::InBandTerminationAttemptCount) && app_value(c1, AppConfigTlvType::InBandTerminationAttemptCount) =~= app_canon(AppConfigTlvType::InBandTerminationAttemptCount, v),
            other != AppConfigTlvType::InBandTerminationAttemptCount ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_sub_session_id(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::SubSessionId, v), app_put(c0, AppConfigTlvType::SubSessionId, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::SubSessionId) && app_value(c1, AppConfigTlvType::SubSessionId) =~= app_canon(AppConfigTlvType::SubSessionId, v),
            other != AppConfigTlvType::SubSessionId ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_bprf_phr_data_rate(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::BprfPhrDataRate, v), app_put(c0, AppConfigTlvType::BprfPhrDataRate, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::BprfPhrDataRate) && app_value(c1, AppConfigTlvType::BprfPhrDataRate) =~= app_canon(AppConfigTlvType::BprfPhrDataRate, v),
            other != AppConfigTlvType::BprfPhrDataRate ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_BprfPhrDataRate(v[0], of_BprfPhrDataRate(v[0])->Some_0);
    }
    proof fn lem_put_max_number_of_measurements(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::MaxNumberOfMeasurements, v), app_put(c0, AppConfigTlvType::MaxNumberOfMeasurements, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::MaxNumberOfMeasurements) && app_value(c1, AppConfigTlvType::MaxNumberOfMeasurements) =~= app_canon(AppConfigTlvType::MaxNumberOfMeasurements, v),
            other != AppConfigTlvType::MaxNumberOfMeasurements ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_sts_length(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::StsLength, v), app_put(c0, AppConfigTlvType::StsLength, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::StsLength) && app_value(c1, AppConfigTlvType::StsLength) =~= app_canon(AppConfigTlvType::StsLength, v),
            other != AppConfigTlvType::StsLength ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_StsLength(v[0], of_StsLength(v[0])->Some_0);
    }
    proof fn lem_put_min_frames_per_rr(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::MinFramesPerRr, v), app_put(c0, AppConfigTlvType::MinFramesPerRr, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::MinFramesPerRr) && app_value(c1, AppConfigTlvType::MinFramesPerRr) =~= app_canon(AppConfigTlvType::MinFramesPerRr, v),
            other != AppConfigTlvType::MinFramesPerRr ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_mtu_size(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::MtuSize, v), app_put(c0, AppConfigTlvType::MtuSize, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::MtuSize) && app_value(c1, AppConfigTlvType::MtuSize) =~= app_canon(AppConfigTlvType::MtuSize, v),
            other != AppConfigTlvType::MtuSize ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_inter_frame_interval(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::InterFrameInterval, v), app_put(c0, AppConfigTlvType::InterFrameInterval, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::InterFrameInterval) && app_value(c1, AppConfigTlvType::InterFrameInterval) =~= app_canon(AppConfigTlvType::InterFrameInterval, v),
            other != AppConfigTlvType::InterFrameInterval ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_session_key(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::SessionKey, v), app_put(c0, AppConfigTlvType::SessionKey, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::SessionKey) && app_value(c1, AppConfigTlvType::SessionKey) =~= app_canon(AppConfigTlvType::SessionKey, v),
            other != AppConfigTlvType::SessionKey ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_sub_session_key(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::SubSessionKey, v), app_put(c0, AppConfigTlvType::SubSessionKey, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::SubSessionKey) && app_value(c1, AppConfigTlvType::SubSessionKey) =~= app_canon(AppConfigTlvType::SubSessionKey, v),
            other != AppConfigTlvType::SubSessionKey ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_session_data_transfer_status_ntf_config(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::SessionDataTransferStatusNtfConfig, v), app_put(c0, AppConfigTlvType::SessionDataTransferStatusNtfConfig, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::SessionDataTransferStatusNtfConfig) && app_value(c1, AppConfigTlvType::SessionDataTransferStatusNtfConfig) =~= app_canon(AppConfigTlvType::SessionDataTransferStatusNtfConfig, v),
            other != AppConfigTlvType::SessionDataTransferStatusNtfConfig ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        lem_code_SessionDataTransferStatusNtfConfig(v[0], of_SessionDataTransferStatusNtfConfig(v[0])->Some_0);
    }
    proof fn lem_put_session_time_base(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::SessionTimeBase, v), app_put(c0, AppConfigTlvType::SessionTimeBase, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::SessionTimeBase) && app_value(c1, AppConfigTlvType::SessionTimeBase) =~= app_canon(AppConfigTlvType::SessionTimeBase, v),
            other != AppConfigTlvType::SessionTimeBase ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    proof fn lem_put_application_data_endpoint(c0: AppConfig, c1: AppConfig, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, AppConfigTlvType::ApplicationDataEndpoint, v), app_put(c0, AppConfigTlvType::ApplicationDataEndpoint, v, c1),
        ensures
            app_readable(c1, AppConfigTlvType::ApplicationDataEndpoint) && app_value(c1, AppConfigTlvType::ApplicationDataEndpoint) =~= app_canon(AppConfigTlvType::ApplicationDataEndpoint, v),
            other != AppConfigTlvType::ApplicationDataEndpoint ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
    }
    /// A01: a value that was set reads back as it was written, and no other
    /// parameter changes.
    pub proof fn lem_app_roundtrip(c0: AppConfig, c1: AppConfig, id: AppConfigTlvType, v: Seq<u8>, other: AppConfigTlvType)
        requires app_ok(c0, id, v), app_set(c0, id, v, c1),
        ensures
            app_readable(c1, id) && app_value(c1, id) == app_canon(id, v),
            other != id ==> app_readable(c1, other) == app_readable(c0, other) && app_value(c1, other) == app_value(c0, other),
    {
        match id {
            AppConfigTlvType::DeviceType => lem_put_device_type(c0, c1, v, other),
            AppConfigTlvType::RangingRoundUsage => lem_put_ranging_round_usage(c0, c1, v, other),
            AppConfigTlvType::StsConfig => lem_put_sts_config(c0, c1, v, other),
            AppConfigTlvType::MultiNodeMode => lem_put_multi_node_mode(c0, c1, v, other),
            AppConfigTlvType::ChannelNumber => lem_put_channel_number(c0, c1, v, other),
            AppConfigTlvType::NumberOfControlees => lem_put_number_of_controlees(c0, c1, v, other),
            AppConfigTlvType::DeviceMacAddress => lem_put_device_mac_address(c0, c1, v, other),
            AppConfigTlvType::DstMacAddress => lem_put_dst_mac_address(c0, c1, v, other),
            AppConfigTlvType::SlotDuration => lem_put_slot_duration(c0, c1, v, other),
            AppConfigTlvType::RangingDuration => lem_put_ranging_duration(c0, c1, v, other),
            AppConfigTlvType::StsIndex => lem_put_sts_index(c0, c1, v, other),
            AppConfigTlvType::MacFcsType => lem_put_mac_fcs_type(c0, c1, v, other),
            AppConfigTlvType::RangingRoundControl => lem_put_ranging_round_control(c0, c1, v, other),
            AppConfigTlvType::AoaResultReq => lem_put_aoa_result_req(c0, c1, v, other),
            AppConfigTlvType::SessionInfoNtfConfig => lem_put_session_info_ntf_config(c0, c1, v, other),
            AppConfigTlvType::NearProximityConfig => lem_put_near_proximity_config(c0, c1, v, other),
            AppConfigTlvType::FarProximityConfig => lem_put_far_proximity_config(c0, c1, v, other),
            AppConfigTlvType::DeviceRole => lem_put_device_role(c0, c1, v, other),
            AppConfigTlvType::RframeConfig => lem_put_rframe_config(c0, c1, v, other),
            AppConfigTlvType::RssiReporting => lem_put_rssi_reporting(c0, c1, v, other),
            AppConfigTlvType::PreambleCodeIndex => lem_put_preamble_code_index(c0, c1, v, other),
            AppConfigTlvType::SfdId => lem_put_sfd_id(c0, c1, v, other),
            AppConfigTlvType::PsduDataRate => lem_put_psdu_data_rate(c0, c1, v, other),
            AppConfigTlvType::PreambleDuration => lem_put_preamble_duration(c0, c1, v, other),
            AppConfigTlvType::LinkLayerMode => lem_put_link_layer_mode(c0, c1, v, other),
            AppConfigTlvType::DataRepetitionCount => lem_put_data_repetition_count(c0, c1, v, other),
            AppConfigTlvType::RangingTimeStruct => lem_put_ranging_time_struct(c0, c1, v, other),
            AppConfigTlvType::SlotsPerRr => lem_put_slots_per_rr(c0, c1, v, other),
            AppConfigTlvType::AoaBoundConfig => lem_put_aoa_bound_config(c0, c1, v, other),
            AppConfigTlvType::PrfMode => lem_put_prf_mode(c0, c1, v, other),
            AppConfigTlvType::CapSizeRange => lem_put_cap_size_range(c0, c1, v, other),
            AppConfigTlvType::TxJitterWindowSize => lem_put_tx_jitter_window_size(c0, c1, v, other),
            AppConfigTlvType::ScheduleMode => lem_put_schedule_mode(c0, c1, v, other),
            AppConfigTlvType::KeyRotation => lem_put_key_rotation(c0, c1, v, other),
            AppConfigTlvType::KeyRotationRate => lem_put_key_rotation_rate(c0, c1, v, other),
            AppConfigTlvType::SessionPriority => lem_put_session_priority(c0, c1, v, other),
            AppConfigTlvType::MacAddressMode => lem_put_mac_address_mode(c0, c1, v, other),
            AppConfigTlvType::VendorId => lem_put_vendor_id(c0, c1, v, other),
            AppConfigTlvType::StaticStsIv => lem_put_static_sts_iv(c0, c1, v, other),
            AppConfigTlvType::NumberOfStsSegments => lem_put_number_of_sts_segments(c0, c1, v, other),
            AppConfigTlvType::MaxRrRetry => lem_put_max_rr_retry(c0, c1, v, other),
            AppConfigTlvType::UwbInitiationTime => lem_put_uwb_initiation_time(c0, c1, v, other),
            AppConfigTlvType::HoppingMode => lem_put_hopping_mode(c0, c1, v, other),
            AppConfigTlvType::BlockStrideLength => lem_put_block_stride_length(c0, c1, v, other),
            AppConfigTlvType::ResultReportConfig => lem_put_result_report_config(c0, c1, v, other),
            AppConfigTlvType::InBandTerminationAttemptCount => lem_put_in_band_termination_attempt_count(c0, c1, v, other),
            AppConfigTlvType::SubSessionId => lem_put_sub_session_id(c0, c1, v, other),
            AppConfigTlvType::BprfPhrDataRate => lem_put_bprf_phr_data_rate(c0, c1, v, other),
            AppConfigTlvType::MaxNumberOfMeasurements => lem_put_max_number_of_measurements(c0, c1, v, other),
            AppConfigTlvType::StsLength => lem_put_sts_length(c0, c1, v, other),
            AppConfigTlvType::MinFramesPerRr => lem_put_min_frames_per_rr(c0, c1, v, other),
            AppConfigTlvType::MtuSize => lem_put_mtu_size(c0, c1, v, other),
            AppConfigTlvType::InterFrameInterval => lem_put_inter_frame_interval(c0, c1, v, other),
            AppConfigTlvType::SessionKey => lem_put_session_key(c0, c1, v, other),
            AppConfigTlvType::SubSessionKey => lem_put_sub_session_key(c0, c1, v, other),
            AppConfigTlvType::SessionDataTransferStatusNtfConfig => lem_put_session_data_transfer_status_ntf_config(c0, c1, v, other),
            AppConfigTlvType::SessionTimeBase => lem_put_session_time_base(c0, c1, v, other),
            AppConfigTlvType::ApplicationDataEndpoint => lem_put_application_data_endpoint(c0, c1, v, other),
            _ => {},
        }
    }
    pub proof fn lem_app_wf(c0: AppConfig, c1: AppConfig, id: AppConfigTlvType, v: Seq<u8>)
        requires app_wf(c0), app_set(c0, id, v, c1), v.len() <= 255,
        ensures app_wf(c1),
    {
        if app_ok(c0, id, v) && id == AppConfigTlvType::DstMacAddress { lem_addrs_value(c0.mac_address_mode, v, c1.dst_mac_address@); }
    }
    pub broadcast proof fn lem_app_len(c: AppConfig, id: AppConfigTlvType)
        requires app_wf(c),
        ensures #[trigger] app_value(c, id).len() <= 255,
    {}
    }
}
