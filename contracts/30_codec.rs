// Generated by tools/gencodec.py: the UCI layout of the packets, see there.
pub mod codec {
    use vstd::prelude::*;
    use crate::packets::uci::*;
    use crate::stubs::*;
    use crate::stubs::pdl_runtime::Packet;
    verus! {
    pub open spec fn code_PacketBoundaryFlag(e: PacketBoundaryFlag) -> u8 {
        match e {
            PacketBoundaryFlag::Complete => 0,
            PacketBoundaryFlag::NotComplete => 1,
        }
    }
    pub open spec fn of_PacketBoundaryFlag(v: u8) -> Option<PacketBoundaryFlag> {
        if v == 0 { Some(PacketBoundaryFlag::Complete) } else
        if v == 1 { Some(PacketBoundaryFlag::NotComplete) } else { None }
    }
    /// PacketBoundaryFlag: the numeric codes are inverse to one another.
    pub proof fn lem_code_PacketBoundaryFlag(v: u8, e: PacketBoundaryFlag)
        ensures
            of_PacketBoundaryFlag(v) matches Some(x) ==> code_PacketBoundaryFlag(x) == v,
            of_PacketBoundaryFlag(code_PacketBoundaryFlag(e)) == Some(e),
    {}
    pub open spec fn code_MessageType(e: MessageType) -> u8 {
        match e {
            MessageType::Data => 0,
            MessageType::Command => 1,
            MessageType::Response => 2,
            MessageType::Notification => 3,
        }
    }
    pub open spec fn of_MessageType(v: u8) -> Option<MessageType> {
        if v == 0 { Some(MessageType::Data) } else
        if v == 1 { Some(MessageType::Command) } else
        if v == 2 { Some(MessageType::Response) } else
        if v == 3 { Some(MessageType::Notification) } else { None }
    }
    /// MessageType: the numeric codes are inverse to one another.
    pub proof fn lem_code_MessageType(v: u8, e: MessageType)
        ensures
            of_MessageType(v) matches Some(x) ==> code_MessageType(x) == v,
            of_MessageType(code_MessageType(e)) == Some(e),
    {}
    pub open spec fn code_GroupId(e: GroupId) -> u8 {
        match e {
            GroupId::Core => 0,
            GroupId::SessionConfig => 1,
            GroupId::SessionControl => 2,
            GroupId::DataControl => 3,
            GroupId::VendorReserved9 => 9,
            GroupId::VendorReservedA => 10,
            GroupId::VendorReservedB => 11,
            GroupId::VendorAndroid => 12,
            GroupId::Test => 13,
            GroupId::VendorReservedE => 14,
            GroupId::VendorReservedF => 15,
        }
    }
    pub open spec fn of_GroupId(v: u8) -> Option<GroupId> {
        if v == 0 { Some(GroupId::Core) } else
        if v == 1 { Some(GroupId::SessionConfig) } else
        if v == 2 { Some(GroupId::SessionControl) } else
        if v == 3 { Some(GroupId::DataControl) } else
        if v == 9 { Some(GroupId::VendorReserved9) } else
        if v == 10 { Some(GroupId::VendorReservedA) } else
        if v == 11 { Some(GroupId::VendorReservedB) } else
        if v == 12 { Some(GroupId::VendorAndroid) } else
        if v == 13 { Some(GroupId::Test) } else
        if v == 14 { Some(GroupId::VendorReservedE) } else
        if v == 15 { Some(GroupId::VendorReservedF) } else { None }
    }
    /// GroupId: the numeric codes are inverse to one another.
    pub proof fn lem_code_GroupId(v: u8, e: GroupId)
        ensures
            of_GroupId(v) matches Some(x) ==> code_GroupId(x) == v,
            of_GroupId(code_GroupId(e)) == Some(e),
    {}
    pub open spec fn code_DataPacketFormat(e: DataPacketFormat) -> u8 {
        match e {
            DataPacketFormat::DataSnd => 1,
            DataPacketFormat::DataRcv => 2,
        }
    }
    pub open spec fn of_DataPacketFormat(v: u8) -> Option<DataPacketFormat> {
        if v == 1 { Some(DataPacketFormat::DataSnd) } else
        if v == 2 { Some(DataPacketFormat::DataRcv) } else { None }
    }
    /// DataPacketFormat: the numeric codes are inverse to one another.
    pub proof fn lem_code_DataPacketFormat(v: u8, e: DataPacketFormat)
        ensures
            of_DataPacketFormat(v) matches Some(x) ==> code_DataPacketFormat(x) == v,
            of_DataPacketFormat(code_DataPacketFormat(e)) == Some(e),
    {}
    pub open spec fn code_CoreOpcodeId(e: CoreOpcodeId) -> u8 {
        match e {
            CoreOpcodeId::DeviceReset => 0,
            CoreOpcodeId::DeviceStatus => 1,
            CoreOpcodeId::GetDeviceInfo => 2,
            CoreOpcodeId::GetCapsInfo => 3,
            CoreOpcodeId::SetConfig => 4,
            CoreOpcodeId::GetConfig => 5,
            CoreOpcodeId::GenericError => 7,
            CoreOpcodeId::QueryUwbsTimestamp => 8,
        }
    }
    pub open spec fn of_CoreOpcodeId(v: u8) -> Option<CoreOpcodeId> {
        if v == 0 { Some(CoreOpcodeId::DeviceReset) } else
        if v == 1 { Some(CoreOpcodeId::DeviceStatus) } else
        if v == 2 { Some(CoreOpcodeId::GetDeviceInfo) } else
        if v == 3 { Some(CoreOpcodeId::GetCapsInfo) } else
        if v == 4 { Some(CoreOpcodeId::SetConfig) } else
        if v == 5 { Some(CoreOpcodeId::GetConfig) } else
        if v == 7 { Some(CoreOpcodeId::GenericError) } else
        if v == 8 { Some(CoreOpcodeId::QueryUwbsTimestamp) } else { None }
    }
    /// CoreOpcodeId: the numeric codes are inverse to one another.
    pub proof fn lem_code_CoreOpcodeId(v: u8, e: CoreOpcodeId)
        ensures
            of_CoreOpcodeId(v) matches Some(x) ==> code_CoreOpcodeId(x) == v,
            of_CoreOpcodeId(code_CoreOpcodeId(e)) == Some(e),
    {}
    pub open spec fn code_SessionConfigOpcodeId(e: SessionConfigOpcodeId) -> u8 {
        match e {
            SessionConfigOpcodeId::Init => 0,
            SessionConfigOpcodeId::Deinit => 1,
            SessionConfigOpcodeId::Status => 2,
            SessionConfigOpcodeId::SetAppConfig => 3,
            SessionConfigOpcodeId::GetAppConfig => 4,
            SessionConfigOpcodeId::GetCount => 5,
            SessionConfigOpcodeId::GetState => 6,
            SessionConfigOpcodeId::UpdateControllerMulticastList => 7,
            SessionConfigOpcodeId::UpdateDtAnchorRangingRounds => 8,
            SessionConfigOpcodeId::UpdateDtTagRangingRounds => 9,
            SessionConfigOpcodeId::QueryDataSizeInRanging => 11,
        }
    }
    pub open spec fn of_SessionConfigOpcodeId(v: u8) -> Option<SessionConfigOpcodeId> {
        if v == 0 { Some(SessionConfigOpcodeId::Init) } else
        if v == 1 { Some(SessionConfigOpcodeId::Deinit) } else
        if v == 2 { Some(SessionConfigOpcodeId::Status) } else
        if v == 3 { Some(SessionConfigOpcodeId::SetAppConfig) } else
        if v == 4 { Some(SessionConfigOpcodeId::GetAppConfig) } else
        if v == 5 { Some(SessionConfigOpcodeId::GetCount) } else
        if v == 6 { Some(SessionConfigOpcodeId::GetState) } else
        if v == 7 { Some(SessionConfigOpcodeId::UpdateControllerMulticastList) } else
        if v == 8 { Some(SessionConfigOpcodeId::UpdateDtAnchorRangingRounds) } else
        if v == 9 { Some(SessionConfigOpcodeId::UpdateDtTagRangingRounds) } else
        if v == 11 { Some(SessionConfigOpcodeId::QueryDataSizeInRanging) } else { None }
    }
    /// SessionConfigOpcodeId: the numeric codes are inverse to one another.
    pub proof fn lem_code_SessionConfigOpcodeId(v: u8, e: SessionConfigOpcodeId)
        ensures
            of_SessionConfigOpcodeId(v) matches Some(x) ==> code_SessionConfigOpcodeId(x) == v,
            of_SessionConfigOpcodeId(code_SessionConfigOpcodeId(e)) == Some(e),
    {}
    pub open spec fn code_SessionControlOpcodeId(e: SessionControlOpcodeId) -> u8 {
        match e {
            SessionControlOpcodeId::Start => 0,
            SessionControlOpcodeId::Stop => 1,
            SessionControlOpcodeId::GetRangingCount => 3,
            SessionControlOpcodeId::DataCredit => 4,
            SessionControlOpcodeId::DataTransferStatus => 5,
        }
    }
    pub open spec fn of_SessionControlOpcodeId(v: u8) -> Option<SessionControlOpcodeId> {
        if v == 0 { Some(SessionControlOpcodeId::Start) } else
        if v == 1 { Some(SessionControlOpcodeId::Stop) } else
        if v == 3 { Some(SessionControlOpcodeId::GetRangingCount) } else
        if v == 4 { Some(SessionControlOpcodeId::DataCredit) } else
        if v == 5 { Some(SessionControlOpcodeId::DataTransferStatus) } else { None }
    }
    /// SessionControlOpcodeId: the numeric codes are inverse to one another.
    pub proof fn lem_code_SessionControlOpcodeId(v: u8, e: SessionControlOpcodeId)
        ensures
            of_SessionControlOpcodeId(v) matches Some(x) ==> code_SessionControlOpcodeId(x) == v,
            of_SessionControlOpcodeId(code_SessionControlOpcodeId(e)) == Some(e),
    {}
    pub open spec fn code_AndroidOpcodeId(e: AndroidOpcodeId) -> u8 {
        match e {
            AndroidOpcodeId::GetPowerStats => 0,
            AndroidOpcodeId::SetCountryCode => 1,
            AndroidOpcodeId::FiraRangeDiagnostics => 2,
        }
    }
    pub open spec fn of_AndroidOpcodeId(v: u8) -> Option<AndroidOpcodeId> {
        if v == 0 { Some(AndroidOpcodeId::GetPowerStats) } else
        if v == 1 { Some(AndroidOpcodeId::SetCountryCode) } else
        if v == 2 { Some(AndroidOpcodeId::FiraRangeDiagnostics) } else { None }
    }
    /// AndroidOpcodeId: the numeric codes are inverse to one another.
    pub proof fn lem_code_AndroidOpcodeId(v: u8, e: AndroidOpcodeId)
        ensures
            of_AndroidOpcodeId(v) matches Some(x) ==> code_AndroidOpcodeId(x) == v,
            of_AndroidOpcodeId(code_AndroidOpcodeId(e)) == Some(e),
    {}
    pub open spec fn code_Status(e: Status) -> u8 {
        match e {
            Status::Ok => 0,
            Status::Rejected => 1,
            Status::Failed => 2,
            Status::SyntaxError => 3,
            Status::InvalidParam => 4,
            Status::InvalidRange => 5,
            Status::InvalidMessageSize => 6,
            Status::UnknownGid => 7,
            Status::UnknownOid => 8,
            Status::ReadOnly => 9,
            Status::UciMessageRetry => 10,
            Status::Unknown => 11,
            Status::NotApplicable => 12,
            Status::ErrorSessionNotExist => 17,
            Status::ErrorSessionDuplicate => 18,
            Status::ErrorSessionActive => 19,
            Status::ErrorMaxSessionsExceeded => 20,
            Status::ErrorSessionNotConfigured => 21,
            Status::ErrorActiveSessionsOngoing => 22,
            Status::ErrorMulticastListFull => 23,
            Status::ErrorUwbInitiationTimeTooOld => 26,
            Status::OkNegativeDistanceReport => 27,
            Status::RangingTxFailed => 32,
            Status::RangingRxTimeout => 33,
            Status::RangingRxPhyDecFailed => 34,
            Status::RangingRxPhyToaFailed => 35,
            Status::RangingRxPhyStsFailed => 36,
            Status::RangingRxMacDecFailed => 37,
            Status::RangingRxMacIeDecFailed => 38,
            Status::RangingRxMacIeMissing => 39,
            Status::ErrorRoundIndexNotActivated => 40,
            Status::ErrorNumberOfActiveRangingRoundsExceeded => 41,
            Status::ErrorDlTdoaDeviceAddressNotMatchingInReplyTimeList => 42,
            Status::ErrorCccSeBusy => 80,
            Status::ErrorCccLifecycle => 81,
            Status::ErrorStoppedDueToOtherSessionConflict => 82,
            Status::RegulationUwbOff => 83,
            Status::VendorSpecific(p) => p.0,
            Status::Rfu(p) => p.0,
        }
    }
    pub open spec fn of_Status(v: u8) -> Option<Status> {
        if v == 0 { Some(Status::Ok) } else
        if v == 1 { Some(Status::Rejected) } else
        if v == 2 { Some(Status::Failed) } else
        if v == 3 { Some(Status::SyntaxError) } else
        if v == 4 { Some(Status::InvalidParam) } else
        if v == 5 { Some(Status::InvalidRange) } else
        if v == 6 { Some(Status::InvalidMessageSize) } else
        if v == 7 { Some(Status::UnknownGid) } else
        if v == 8 { Some(Status::UnknownOid) } else
        if v == 9 { Some(Status::ReadOnly) } else
        if v == 10 { Some(Status::UciMessageRetry) } else
        if v == 11 { Some(Status::Unknown) } else
        if v == 12 { Some(Status::NotApplicable) } else
        if v == 17 { Some(Status::ErrorSessionNotExist) } else
        if v == 18 { Some(Status::ErrorSessionDuplicate) } else
        if v == 19 { Some(Status::ErrorSessionActive) } else
        if v == 20 { Some(Status::ErrorMaxSessionsExceeded) } else
        if v == 21 { Some(Status::ErrorSessionNotConfigured) } else
        if v == 22 { Some(Status::ErrorActiveSessionsOngoing) } else
        if v == 23 { Some(Status::ErrorMulticastListFull) } else
        if v == 26 { Some(Status::ErrorUwbInitiationTimeTooOld) } else
        if v == 27 { Some(Status::OkNegativeDistanceReport) } else
        if v == 32 { Some(Status::RangingTxFailed) } else
        if v == 33 { Some(Status::RangingRxTimeout) } else
        if v == 34 { Some(Status::RangingRxPhyDecFailed) } else
        if v == 35 { Some(Status::RangingRxPhyToaFailed) } else
        if v == 36 { Some(Status::RangingRxPhyStsFailed) } else
        if v == 37 { Some(Status::RangingRxMacDecFailed) } else
        if v == 38 { Some(Status::RangingRxMacIeDecFailed) } else
        if v == 39 { Some(Status::RangingRxMacIeMissing) } else
        if v == 40 { Some(Status::ErrorRoundIndexNotActivated) } else
        if v == 41 { Some(Status::ErrorNumberOfActiveRangingRoundsExceeded) } else
        if v == 42 { Some(Status::ErrorDlTdoaDeviceAddressNotMatchingInReplyTimeList) } else
        if v == 80 { Some(Status::ErrorCccSeBusy) } else
        if v == 81 { Some(Status::ErrorCccLifecycle) } else
        if v == 82 { Some(Status::ErrorStoppedDueToOtherSessionConflict) } else
        if v == 83 { Some(Status::RegulationUwbOff) } else
        if 80 <= v <= 255 { Some(Status::VendorSpecific(Private(v))) } else
        if true { Some(Status::Rfu(Private(v))) } else { None }
    }
    /// Status: the numeric codes are inverse to one another.
    pub proof fn lem_code_Status(v: u8, e: Status)
        ensures
            of_Status(v) matches Some(x) ==> code_Status(x) == v,
            !(e is VendorSpecific || e is Rfu) ==> of_Status(code_Status(e)) == Some(e),
    {}
    pub open spec fn code_DataRcvStatusCode(e: DataRcvStatusCode) -> u8 {
        match e {
            DataRcvStatusCode::UciStatusSuccess => 0,
            DataRcvStatusCode::UciStatusError => 1,
            DataRcvStatusCode::UciStatusUnknown => 2,
        }
    }
    pub open spec fn of_DataRcvStatusCode(v: u8) -> Option<DataRcvStatusCode> {
        if v == 0 { Some(DataRcvStatusCode::UciStatusSuccess) } else
        if v == 1 { Some(DataRcvStatusCode::UciStatusError) } else
        if v == 2 { Some(DataRcvStatusCode::UciStatusUnknown) } else { None }
    }
    /// DataRcvStatusCode: the numeric codes are inverse to one another.
    pub proof fn lem_code_DataRcvStatusCode(v: u8, e: DataRcvStatusCode)
        ensures
            of_DataRcvStatusCode(v) matches Some(x) ==> code_DataRcvStatusCode(x) == v,
            of_DataRcvStatusCode(code_DataRcvStatusCode(e)) == Some(e),
    {}
    pub open spec fn code_CreditAvailability(e: CreditAvailability) -> u8 {
        match e {
            CreditAvailability::CreditNotAvailable => 0,
            CreditAvailability::CreditAvailable => 1,
        }
    }
    pub open spec fn of_CreditAvailability(v: u8) -> Option<CreditAvailability> {
        if v == 0 { Some(CreditAvailability::CreditNotAvailable) } else
        if v == 1 { Some(CreditAvailability::CreditAvailable) } else { None }
    }
    /// CreditAvailability: the numeric codes are inverse to one another.
    pub proof fn lem_code_CreditAvailability(v: u8, e: CreditAvailability)
        ensures
            of_CreditAvailability(v) matches Some(x) ==> code_CreditAvailability(x) == v,
            of_CreditAvailability(code_CreditAvailability(e)) == Some(e),
    {}
    pub open spec fn code_DataTransferNtfStatusCode(e: DataTransferNtfStatusCode) -> u8 {
        match e {
            DataTransferNtfStatusCode::UciDataTransferStatusRepetitionOk => 0,
            DataTransferNtfStatusCode::UciDataTransferStatusOk => 1,
            DataTransferNtfStatusCode::UciDataTransferStatusErrorDataTransfer => 2,
            DataTransferNtfStatusCode::UciDataTransferStatusErrorNoCreditAvailable => 3,
            DataTransferNtfStatusCode::UciDataTransferStatusErrorRejected => 4,
            DataTransferNtfStatusCode::UciDataTransferStatusSessionTypeNotSupported => 5,
            DataTransferNtfStatusCode::UciDataTransferStatusErrorDataTransferIsOngoing => 6,
            DataTransferNtfStatusCode::UciDataTransferStatusInvalidFormat => 7,
        }
    }
    pub open spec fn of_DataTransferNtfStatusCode(v: u8) -> Option<DataTransferNtfStatusCode> {
        if v == 0 { Some(DataTransferNtfStatusCode::UciDataTransferStatusRepetitionOk) } else
        if v == 1 { Some(DataTransferNtfStatusCode::UciDataTransferStatusOk) } else
        if v == 2 { Some(DataTransferNtfStatusCode::UciDataTransferStatusErrorDataTransfer) } else
        if v == 3 { Some(DataTransferNtfStatusCode::UciDataTransferStatusErrorNoCreditAvailable) } else
        if v == 4 { Some(DataTransferNtfStatusCode::UciDataTransferStatusErrorRejected) } else
        if v == 5 { Some(DataTransferNtfStatusCode::UciDataTransferStatusSessionTypeNotSupported) } else
        if v == 6 { Some(DataTransferNtfStatusCode::UciDataTransferStatusErrorDataTransferIsOngoing) } else
        if v == 7 { Some(DataTransferNtfStatusCode::UciDataTransferStatusInvalidFormat) } else { None }
    }
    /// DataTransferNtfStatusCode: the numeric codes are inverse to one another.
    pub proof fn lem_code_DataTransferNtfStatusCode(v: u8, e: DataTransferNtfStatusCode)
        ensures
            of_DataTransferNtfStatusCode(v) matches Some(x) ==> code_DataTransferNtfStatusCode(x) == v,
            of_DataTransferNtfStatusCode(code_DataTransferNtfStatusCode(e)) == Some(e),
    {}
    pub open spec fn code_ResetConfig(e: ResetConfig) -> u8 {
        match e {
            ResetConfig::UwbsReset => 0,
        }
    }
    pub open spec fn of_ResetConfig(v: u8) -> Option<ResetConfig> {
        if v == 0 { Some(ResetConfig::UwbsReset) } else { None }
    }
    /// ResetConfig: the numeric codes are inverse to one another.
    pub proof fn lem_code_ResetConfig(v: u8, e: ResetConfig)
        ensures
            of_ResetConfig(v) matches Some(x) ==> code_ResetConfig(x) == v,
            of_ResetConfig(code_ResetConfig(e)) == Some(e),
    {}
    pub open spec fn code_AppConfigTlvType(e: AppConfigTlvType) -> u8 {
        match e {
            AppConfigTlvType::DeviceType => 0,
            AppConfigTlvType::RangingRoundUsage => 1,
            AppConfigTlvType::StsConfig => 2,
            AppConfigTlvType::MultiNodeMode => 3,
            AppConfigTlvType::ChannelNumber => 4,
            AppConfigTlvType::NumberOfControlees => 5,
            AppConfigTlvType::DeviceMacAddress => 6,
            AppConfigTlvType::DstMacAddress => 7,
            AppConfigTlvType::SlotDuration => 8,
            AppConfigTlvType::RangingDuration => 9,
            AppConfigTlvType::StsIndex => 10,
            AppConfigTlvType::MacFcsType => 11,
            AppConfigTlvType::RangingRoundControl => 12,
            AppConfigTlvType::AoaResultReq => 13,
            AppConfigTlvType::SessionInfoNtfConfig => 14,
            AppConfigTlvType::NearProximityConfig => 15,
            AppConfigTlvType::FarProximityConfig => 16,
            AppConfigTlvType::DeviceRole => 17,
            AppConfigTlvType::RframeConfig => 18,
            AppConfigTlvType::RssiReporting => 19,
            AppConfigTlvType::PreambleCodeIndex => 20,
            AppConfigTlvType::SfdId => 21,
            AppConfigTlvType::PsduDataRate => 22,
            AppConfigTlvType::PreambleDuration => 23,
            AppConfigTlvType::LinkLayerMode => 24,
            AppConfigTlvType::DataRepetitionCount => 25,
            AppConfigTlvType::RangingTimeStruct => 26,
            AppConfigTlvType::SlotsPerRr => 27,
            AppConfigTlvType::AoaBoundConfig => 29,
            AppConfigTlvType::PrfMode => 31,
            AppConfigTlvType::CapSizeRange => 32,
            AppConfigTlvType::TxJitterWindowSize => 33,
            AppConfigTlvType::ScheduleMode => 34,
            AppConfigTlvType::KeyRotation => 35,
            AppConfigTlvType::KeyRotationRate => 36,
            AppConfigTlvType::SessionPriority => 37,
            AppConfigTlvType::MacAddressMode => 38,
            AppConfigTlvType::VendorId => 39,
            AppConfigTlvType::StaticStsIv => 40,
            AppConfigTlvType::NumberOfStsSegments => 41,
            AppConfigTlvType::MaxRrRetry => 42,
            AppConfigTlvType::UwbInitiationTime => 43,
            AppConfigTlvType::HoppingMode => 44,
            AppConfigTlvType::BlockStrideLength => 45,
            AppConfigTlvType::ResultReportConfig => 46,
            AppConfigTlvType::InBandTerminationAttemptCount => 47,
            AppConfigTlvType::SubSessionId => 48,
            AppConfigTlvType::BprfPhrDataRate => 49,
            AppConfigTlvType::MaxNumberOfMeasurements => 50,
            AppConfigTlvType::StsLength => 53,
            AppConfigTlvType::MinFramesPerRr => 58,
            AppConfigTlvType::MtuSize => 59,
            AppConfigTlvType::InterFrameInterval => 60,
            AppConfigTlvType::DlTdoaRangingMethod => 61,
            AppConfigTlvType::DlTdoaTxTimestampConf => 62,
            AppConfigTlvType::DlTdoaHopCount => 63,
            AppConfigTlvType::DlTdoaAnchorCfo => 64,
            AppConfigTlvType::DlTdoaAnchorLocation => 65,
            AppConfigTlvType::DlTdoaTxActiveRangingRounds => 66,
            AppConfigTlvType::DlTdoaBlockSkipping => 67,
            AppConfigTlvType::DlTdoaTimeReferenceAnchor => 68,
            AppConfigTlvType::SessionKey => 69,
            AppConfigTlvType::SubSessionKey => 70,
            AppConfigTlvType::SessionDataTransferStatusNtfConfig => 71,
            AppConfigTlvType::SessionTimeBase => 72,
            AppConfigTlvType::DlTdoaResponderTof => 73,
            AppConfigTlvType::SecureRangingNefaLevel => 74,
            AppConfigTlvType::SecureRangingCswLength => 75,
            AppConfigTlvType::ApplicationDataEndpoint => 76,
            AppConfigTlvType::OwrAoaMeasurementNtfPeriod => 77,
            AppConfigTlvType::CccHopModeKey => 160,
            AppConfigTlvType::CccUwbTime0 => 161,
            AppConfigTlvType::CccRangingProtocolVer => 163,
            AppConfigTlvType::CccUwbConfigId => 164,
            AppConfigTlvType::CccPulseshapeCombo => 165,
            AppConfigTlvType::CccUrskTtl => 166,
            AppConfigTlvType::CccLastIndexUsed => 168,
            AppConfigTlvType::NbOfRangeMeasurements => 227,
            AppConfigTlvType::NbOfAzimuthMeasurements => 228,
            AppConfigTlvType::NbOfElevationMeasurements => 229,
            AppConfigTlvType::EnableDiagnostics => 232,
            AppConfigTlvType::DiagramsFrameReportsFields => 233,
            AppConfigTlvType::Rfu(p) => p.0,
            AppConfigTlvType::VendorSpecific1(p) => p.0,
            AppConfigTlvType::IdExtension(p) => p.0,
            AppConfigTlvType::VendorSpecific2(p) => p.0,
        }
    }
    pub open spec fn of_AppConfigTlvType(v: u8) -> Option<AppConfigTlvType> {
        if v == 0 { Some(AppConfigTlvType::DeviceType) } else
        if v == 1 { Some(AppConfigTlvType::RangingRoundUsage) } else
        if v == 2 { Some(AppConfigTlvType::StsConfig) } else
        if v == 3 { Some(AppConfigTlvType::MultiNodeMode) } else
        if v == 4 { Some(AppConfigTlvType::ChannelNumber) } else
        if v == 5 { Some(AppConfigTlvType::NumberOfControlees) } else
        if v == 6 { Some(AppConfigTlvType::DeviceMacAddress) } else
        if v == 7 { Some(AppConfigTlvType::DstMacAddress) } else
        if v == 8 { Some(AppConfigTlvType::SlotDuration) } else
        if v == 9 { Some(AppConfigTlvType::RangingDuration) } else
        if v == 10 { Some(AppConfigTlvType::StsIndex) } else
        if v == 11 { Some(AppConfigTlvType::MacFcsType) } else
        if v == 12 { Some(AppConfigTlvType::RangingRoundControl) } else
        if v == 13 { Some(AppConfigTlvType::AoaResultReq) } else
        if v == 14 { Some(AppConfigTlvType::SessionInfoNtfConfig) } else
        if v == 15 { Some(AppConfigTlvType::NearProximityConfig) } else
        if v == 16 { Some(AppConfigTlvType::FarProximityConfig) } else
        if v == 17 { Some(AppConfigTlvType::DeviceRole) } else
        if v == 18 { Some(AppConfigTlvType::RframeConfig) } else
        if v == 19 { Some(AppConfigTlvType::RssiReporting) } else
        if v == 20 { Some(AppConfigTlvType::PreambleCodeIndex) } else
        if v == 21 { Some(AppConfigTlvType::SfdId) } else
        if v == 22 { Some(AppConfigTlvType::PsduDataRate) } else
        if v == 23 { Some(AppConfigTlvType::PreambleDuration) } else
        if v == 24 { Some(AppConfigTlvType::LinkLayerMode) } else
        if v == 25 { Some(AppConfigTlvType::DataRepetitionCount) } else
        if v == 26 { Some(AppConfigTlvType::RangingTimeStruct) } else
        if v == 27 { Some(AppConfigTlvType::SlotsPerRr) } else
        if v == 29 { Some(AppConfigTlvType::AoaBoundConfig) } else
        if v == 31 { Some(AppConfigTlvType::PrfMode) } else
        if v == 32 { Some(AppConfigTlvType::CapSizeRange) } else
        if v == 33 { Some(AppConfigTlvType::TxJitterWindowSize) } else
        if v == 34 { Some(AppConfigTlvType::ScheduleMode) } else
        if v == 35 { Some(AppConfigTlvType::KeyRotation) } else
        if v == 36 { Some(AppConfigTlvType::KeyRotationRate) } else
        if v == 37 { Some(AppConfigTlvType::SessionPriority) } else
        if v == 38 { Some(AppConfigTlvType::MacAddressMode) } else
        if v == 39 { Some(AppConfigTlvType::VendorId) } else
        if v == 40 { Some(AppConfigTlvType::StaticStsIv) } else
        if v == 41 { Some(AppConfigTlvType::NumberOfStsSegments) } else
        if v == 42 { Some(AppConfigTlvType::MaxRrRetry) } else
        if v == 43 { Some(AppConfigTlvType::UwbInitiationTime) } else
        if v == 44 { Some(AppConfigTlvType::HoppingMode) } else
        if v == 45 { Some(AppConfigTlvType::BlockStrideLength) } else
        if v == 46 { Some(AppConfigTlvType::ResultReportConfig) } else
        if v == 47 { Some(AppConfigTlvType::InBandTerminationAttemptCount) } else
        if v == 48 { Some(AppConfigTlvType::SubSessionId) } else
        if v == 49 { Some(AppConfigTlvType::BprfPhrDataRate) } else
        if v == 50 { Some(AppConfigTlvType::MaxNumberOfMeasurements) } else
        if v == 53 { Some(AppConfigTlvType::StsLength) } else
        if v == 58 { Some(AppConfigTlvType::MinFramesPerRr) } else
        if v == 59 { Some(AppConfigTlvType::MtuSize) } else
        if v == 60 { Some(AppConfigTlvType::InterFrameInterval) } else
        if v == 61 { Some(AppConfigTlvType::DlTdoaRangingMethod) } else
        if v == 62 { Some(AppConfigTlvType::DlTdoaTxTimestampConf) } else
        if v == 63 { Some(AppConfigTlvType::DlTdoaHopCount) } else
        if v == 64 { Some(AppConfigTlvType::DlTdoaAnchorCfo) } else
        if v == 65 { Some(AppConfigTlvType::DlTdoaAnchorLocation) } else
        if v == 66 { Some(AppConfigTlvType::DlTdoaTxActiveRangingRounds) } else
        if v == 67 { Some(AppConfigTlvType::DlTdoaBlockSkipping) } else
        if v == 68 { Some(AppConfigTlvType::DlTdoaTimeReferenceAnchor) } else
        if v == 69 { Some(AppConfigTlvType::SessionKey) } else
        if v == 70 { Some(AppConfigTlvType::SubSessionKey) } else
        if v == 71 { Some(AppConfigTlvType::SessionDataTransferStatusNtfConfig) } else
        if v == 72 { Some(AppConfigTlvType::SessionTimeBase) } else
        if v == 73 { Some(AppConfigTlvType::DlTdoaResponderTof) } else
        if v == 74 { Some(AppConfigTlvType::SecureRangingNefaLevel) } else
        if v == 75 { Some(AppConfigTlvType::SecureRangingCswLength) } else
        if v == 76 { Some(AppConfigTlvType::ApplicationDataEndpoint) } else
        if v == 77 { Some(AppConfigTlvType::OwrAoaMeasurementNtfPeriod) } else
        if v == 160 { Some(AppConfigTlvType::CccHopModeKey) } else
        if v == 161 { Some(AppConfigTlvType::CccUwbTime0) } else
        if v == 163 { Some(AppConfigTlvType::CccRangingProtocolVer) } else
        if v == 164 { Some(AppConfigTlvType::CccUwbConfigId) } else
        if v == 165 { Some(AppConfigTlvType::CccPulseshapeCombo) } else
        if v == 166 { Some(AppConfigTlvType::CccUrskTtl) } else
        if v == 168 { Some(AppConfigTlvType::CccLastIndexUsed) } else
        if v == 227 { Some(AppConfigTlvType::NbOfRangeMeasurements) } else
        if v == 228 { Some(AppConfigTlvType::NbOfAzimuthMeasurements) } else
        if v == 229 { Some(AppConfigTlvType::NbOfElevationMeasurements) } else
        if v == 232 { Some(AppConfigTlvType::EnableDiagnostics) } else
        if v == 233 { Some(AppConfigTlvType::DiagramsFrameReportsFields) } else
        if 78 <= v <= 159 { Some(AppConfigTlvType::Rfu(Private(v))) } else
        if 160 <= v <= 223 { Some(AppConfigTlvType::VendorSpecific1(Private(v))) } else
        if 224 <= v <= 226 { Some(AppConfigTlvType::IdExtension(Private(v))) } else
        if 227 <= v <= 255 { Some(AppConfigTlvType::VendorSpecific2(Private(v))) } else { None }
    }
    /// AppConfigTlvType: the numeric codes are inverse to one another.
    pub proof fn lem_code_AppConfigTlvType(v: u8, e: AppConfigTlvType)
        ensures
            of_AppConfigTlvType(v) matches Some(x) ==> code_AppConfigTlvType(x) == v,
            !(e is Rfu || e is VendorSpecific1 || e is IdExtension || e is VendorSpecific2) ==> of_AppConfigTlvType(code_AppConfigTlvType(e)) == Some(e),
    {}
    pub open spec fn code_DeviceType(e: DeviceType) -> u8 {
        match e {
            DeviceType::Controlee => 0,
            DeviceType::Controller => 1,
        }
    }
    pub open spec fn of_DeviceType(v: u8) -> Option<DeviceType> {
        if v == 0 { Some(DeviceType::Controlee) } else
        if v == 1 { Some(DeviceType::Controller) } else { None }
    }
    /// DeviceType: the numeric codes are inverse to one another.
    pub proof fn lem_code_DeviceType(v: u8, e: DeviceType)
        ensures
            of_DeviceType(v) matches Some(x) ==> code_DeviceType(x) == v,
            of_DeviceType(code_DeviceType(e)) == Some(e),
    {}
    pub open spec fn code_RangingRoundUsage(e: RangingRoundUsage) -> u8 {
        match e {
            RangingRoundUsage::SsTwrDeferredMode => 1,
            RangingRoundUsage::DsTwrDeferredMode => 2,
            RangingRoundUsage::SsTwrNonDeferredMode => 3,
            RangingRoundUsage::DsTwrNonDeferredMode => 4,
            RangingRoundUsage::OnWayRangingDlTdoa => 5,
            RangingRoundUsage::OwrAoaMeasurement => 6,
            RangingRoundUsage::EssTwrNonDeferred => 7,
            RangingRoundUsage::AdsTwrNonDeferred => 8,
        }
    }
    pub open spec fn of_RangingRoundUsage(v: u8) -> Option<RangingRoundUsage> {
        if v == 1 { Some(RangingRoundUsage::SsTwrDeferredMode) } else
        if v == 2 { Some(RangingRoundUsage::DsTwrDeferredMode) } else
        if v == 3 { Some(RangingRoundUsage::SsTwrNonDeferredMode) } else
        if v == 4 { Some(RangingRoundUsage::DsTwrNonDeferredMode) } else
        if v == 5 { Some(RangingRoundUsage::OnWayRangingDlTdoa) } else
        if v == 6 { Some(RangingRoundUsage::OwrAoaMeasurement) } else
        if v == 7 { Some(RangingRoundUsage::EssTwrNonDeferred) } else
        if v == 8 { Some(RangingRoundUsage::AdsTwrNonDeferred) } else { None }
    }
    /// RangingRoundUsage: the numeric codes are inverse to one another.
    pub proof fn lem_code_RangingRoundUsage(v: u8, e: RangingRoundUsage)
        ensures
            of_RangingRoundUsage(v) matches Some(x) ==> code_RangingRoundUsage(x) == v,
            of_RangingRoundUsage(code_RangingRoundUsage(e)) == Some(e),
    {}
    pub open spec fn code_StsConfig(e: StsConfig) -> u8 {
        match e {
            StsConfig::Static => 0,
            StsConfig::Dynamic => 1,
            StsConfig::DynamicForResponderSubSessionKey => 2,
            StsConfig::Provisioned => 3,
            StsConfig::ProvisionedForResponderSubSessionKey => 4,
        }
    }
    pub open spec fn of_StsConfig(v: u8) -> Option<StsConfig> {
        if v == 0 { Some(StsConfig::Static) } else
        if v == 1 { Some(StsConfig::Dynamic) } else
        if v == 2 { Some(StsConfig::DynamicForResponderSubSessionKey) } else
        if v == 3 { Some(StsConfig::Provisioned) } else
        if v == 4 { Some(StsConfig::ProvisionedForResponderSubSessionKey) } else { None }
    }
    /// StsConfig: the numeric codes are inverse to one another.
    pub proof fn lem_code_StsConfig(v: u8, e: StsConfig)
        ensures
            of_StsConfig(v) matches Some(x) ==> code_StsConfig(x) == v,
            of_StsConfig(code_StsConfig(e)) == Some(e),
    {}
    pub open spec fn code_MultiNodeMode(e: MultiNodeMode) -> u8 {
        match e {
            MultiNodeMode::OneToOne => 0,
            MultiNodeMode::OneToMany => 1,
        }
    }
    pub open spec fn of_MultiNodeMode(v: u8) -> Option<MultiNodeMode> {
        if v == 0 { Some(MultiNodeMode::OneToOne) } else
        if v == 1 { Some(MultiNodeMode::OneToMany) } else { None }
    }
    /// MultiNodeMode: the numeric codes are inverse to one another.
    pub proof fn lem_code_MultiNodeMode(v: u8, e: MultiNodeMode)
        ensures
            of_MultiNodeMode(v) matches Some(x) ==> code_MultiNodeMode(x) == v,
            of_MultiNodeMode(code_MultiNodeMode(e)) == Some(e),
    {}
    pub open spec fn code_ChannelNumber(e: ChannelNumber) -> u8 {
        match e {
            ChannelNumber::ChannelNumber5 => 5,
            ChannelNumber::ChannelNumber6 => 6,
            ChannelNumber::ChannelNumber8 => 8,
            ChannelNumber::ChannelNumber9 => 9,
            ChannelNumber::ChannelNumber10 => 10,
            ChannelNumber::ChannelNumber12 => 12,
            ChannelNumber::ChannelNumber13 => 13,
            ChannelNumber::ChannelNumber14 => 14,
        }
    }
    pub open spec fn of_ChannelNumber(v: u8) -> Option<ChannelNumber> {
        if v == 5 { Some(ChannelNumber::ChannelNumber5) } else
        if v == 6 { Some(ChannelNumber::ChannelNumber6) } else
        if v == 8 { Some(ChannelNumber::ChannelNumber8) } else
        if v == 9 { Some(ChannelNumber::ChannelNumber9) } else
        if v == 10 { Some(ChannelNumber::ChannelNumber10) } else
        if v == 12 { Some(ChannelNumber::ChannelNumber12) } else
        if v == 13 { Some(ChannelNumber::ChannelNumber13) } else
        if v == 14 { Some(ChannelNumber::ChannelNumber14) } else { None }
    }
    /// ChannelNumber: the numeric codes are inverse to one another.
    pub proof fn lem_code_ChannelNumber(v: u8, e: ChannelNumber)
        ensures
            of_ChannelNumber(v) matches Some(x) ==> code_ChannelNumber(x) == v,
            of_ChannelNumber(code_ChannelNumber(e)) == Some(e),
    {}
    pub open spec fn code_MacFcsType(e: MacFcsType) -> u8 {
        match e {
            MacFcsType::Crc16 => 0,
            MacFcsType::Crc32 => 1,
        }
    }
    pub open spec fn of_MacFcsType(v: u8) -> Option<MacFcsType> {
        if v == 0 { Some(MacFcsType::Crc16) } else
        if v == 1 { Some(MacFcsType::Crc32) } else { None }
    }
    /// MacFcsType: the numeric codes are inverse to one another.
    pub proof fn lem_code_MacFcsType(v: u8, e: MacFcsType)
        ensures
            of_MacFcsType(v) matches Some(x) ==> code_MacFcsType(x) == v,
            of_MacFcsType(code_MacFcsType(e)) == Some(e),
    {}
    pub open spec fn code_AoaResultReq(e: AoaResultReq) -> u8 {
        match e {
            AoaResultReq::AoaDisabled => 0,
            AoaResultReq::AoaEnabled => 1,
            AoaResultReq::AoaEnabledAzimuthOnly => 2,
            AoaResultReq::AoaEnabledElevationOnly => 3,
        }
    }
    pub open spec fn of_AoaResultReq(v: u8) -> Option<AoaResultReq> {
        if v == 0 { Some(AoaResultReq::AoaDisabled) } else
        if v == 1 { Some(AoaResultReq::AoaEnabled) } else
        if v == 2 { Some(AoaResultReq::AoaEnabledAzimuthOnly) } else
        if v == 3 { Some(AoaResultReq::AoaEnabledElevationOnly) } else { None }
    }
    /// AoaResultReq: the numeric codes are inverse to one another.
    pub proof fn lem_code_AoaResultReq(v: u8, e: AoaResultReq)
        ensures
            of_AoaResultReq(v) matches Some(x) ==> code_AoaResultReq(x) == v,
            of_AoaResultReq(code_AoaResultReq(e)) == Some(e),
    {}
    pub open spec fn code_SessionInfoNtfConfig(e: SessionInfoNtfConfig) -> u8 {
        match e {
            SessionInfoNtfConfig::Disable => 0,
            SessionInfoNtfConfig::Enable => 1,
            SessionInfoNtfConfig::EnableProximityTrigger => 2,
            SessionInfoNtfConfig::EnableAoaTrigger => 3,
            SessionInfoNtfConfig::EnableProximityAoaTrigger => 4,
            SessionInfoNtfConfig::EnableProximityEdgeTrigger => 5,
            SessionInfoNtfConfig::EnableAoaEdgeTrigger => 6,
            SessionInfoNtfConfig::EnableProximityAoaEdgeTrigger => 7,
        }
    }
    pub open spec fn of_SessionInfoNtfConfig(v: u8) -> Option<SessionInfoNtfConfig> {
        if v == 0 { Some(SessionInfoNtfConfig::Disable) } else
        if v == 1 { Some(SessionInfoNtfConfig::Enable) } else
        if v == 2 { Some(SessionInfoNtfConfig::EnableProximityTrigger) } else
        if v == 3 { Some(SessionInfoNtfConfig::EnableAoaTrigger) } else
        if v == 4 { Some(SessionInfoNtfConfig::EnableProximityAoaTrigger) } else
        if v == 5 { Some(SessionInfoNtfConfig::EnableProximityEdgeTrigger) } else
        if v == 6 { Some(SessionInfoNtfConfig::EnableAoaEdgeTrigger) } else
        if v == 7 { Some(SessionInfoNtfConfig::EnableProximityAoaEdgeTrigger) } else { None }
    }
    /// SessionInfoNtfConfig: the numeric codes are inverse to one another.
    pub proof fn lem_code_SessionInfoNtfConfig(v: u8, e: SessionInfoNtfConfig)
        ensures
            of_SessionInfoNtfConfig(v) matches Some(x) ==> code_SessionInfoNtfConfig(x) == v,
            of_SessionInfoNtfConfig(code_SessionInfoNtfConfig(e)) == Some(e),
    {}
    pub open spec fn code_DeviceRole(e: DeviceRole) -> u8 {
        match e {
            DeviceRole::Responder => 0,
            DeviceRole::Initiator => 1,
            DeviceRole::Advertiser => 5,
            DeviceRole::Observer => 6,
            DeviceRole::DtAnchor => 7,
            DeviceRole::DtTag => 8,
        }
    }
    pub open spec fn of_DeviceRole(v: u8) -> Option<DeviceRole> {
        if v == 0 { Some(DeviceRole::Responder) } else
        if v == 1 { Some(DeviceRole::Initiator) } else
        if v == 5 { Some(DeviceRole::Advertiser) } else
        if v == 6 { Some(DeviceRole::Observer) } else
        if v == 7 { Some(DeviceRole::DtAnchor) } else
        if v == 8 { Some(DeviceRole::DtTag) } else { None }
    }
    /// DeviceRole: the numeric codes are inverse to one another.
    pub proof fn lem_code_DeviceRole(v: u8, e: DeviceRole)
        ensures
            of_DeviceRole(v) matches Some(x) ==> code_DeviceRole(x) == v,
            of_DeviceRole(code_DeviceRole(e)) == Some(e),
    {}
    pub open spec fn code_RframeConfig(e: RframeConfig) -> u8 {
        match e {
            RframeConfig::Sp0 => 0,
            RframeConfig::Sp1 => 1,
            RframeConfig::Sp3 => 3,
        }
    }
    pub open spec fn of_RframeConfig(v: u8) -> Option<RframeConfig> {
        if v == 0 { Some(RframeConfig::Sp0) } else
        if v == 1 { Some(RframeConfig::Sp1) } else
        if v == 3 { Some(RframeConfig::Sp3) } else { None }
    }
    /// RframeConfig: the numeric codes are inverse to one another.
    pub proof fn lem_code_RframeConfig(v: u8, e: RframeConfig)
        ensures
            of_RframeConfig(v) matches Some(x) ==> code_RframeConfig(x) == v,
            of_RframeConfig(code_RframeConfig(e)) == Some(e),
    {}
    pub open spec fn code_RssiReporting(e: RssiReporting) -> u8 {
        match e {
            RssiReporting::Disable => 0,
            RssiReporting::Enable => 1,
        }
    }
    pub open spec fn of_RssiReporting(v: u8) -> Option<RssiReporting> {
        if v == 0 { Some(RssiReporting::Disable) } else
        if v == 1 { Some(RssiReporting::Enable) } else { None }
    }
    /// RssiReporting: the numeric codes are inverse to one another.
    pub proof fn lem_code_RssiReporting(v: u8, e: RssiReporting)
        ensures
            of_RssiReporting(v) matches Some(x) ==> code_RssiReporting(x) == v,
            of_RssiReporting(code_RssiReporting(e)) == Some(e),
    {}
    pub open spec fn code_PsduDataRate(e: PsduDataRate) -> u8 {
        match e {
            PsduDataRate::DataRate6m81 => 0,
            PsduDataRate::DataRate7m80 => 1,
            PsduDataRate::DataRate27m2 => 2,
            PsduDataRate::DataRate31m2 => 3,
        }
    }
    pub open spec fn of_PsduDataRate(v: u8) -> Option<PsduDataRate> {
        if v == 0 { Some(PsduDataRate::DataRate6m81) } else
        if v == 1 { Some(PsduDataRate::DataRate7m80) } else
        if v == 2 { Some(PsduDataRate::DataRate27m2) } else
        if v == 3 { Some(PsduDataRate::DataRate31m2) } else { None }
    }
    /// PsduDataRate: the numeric codes are inverse to one another.
    pub proof fn lem_code_PsduDataRate(v: u8, e: PsduDataRate)
        ensures
            of_PsduDataRate(v) matches Some(x) ==> code_PsduDataRate(x) == v,
            of_PsduDataRate(code_PsduDataRate(e)) == Some(e),
    {}
    pub open spec fn code_PreambleDuration(e: PreambleDuration) -> u8 {
        match e {
            PreambleDuration::Duration32Symbols => 0,
            PreambleDuration::Duration64Symbols => 1,
        }
    }
    pub open spec fn of_PreambleDuration(v: u8) -> Option<PreambleDuration> {
        if v == 0 { Some(PreambleDuration::Duration32Symbols) } else
        if v == 1 { Some(PreambleDuration::Duration64Symbols) } else { None }
    }
    /// PreambleDuration: the numeric codes are inverse to one another.
    pub proof fn lem_code_PreambleDuration(v: u8, e: PreambleDuration)
        ensures
            of_PreambleDuration(v) matches Some(x) ==> code_PreambleDuration(x) == v,
            of_PreambleDuration(code_PreambleDuration(e)) == Some(e),
    {}
    pub open spec fn code_LinkLayerMode(e: LinkLayerMode) -> u8 {
        match e {
            LinkLayerMode::BypassMode => 0,
        }
    }
    pub open spec fn of_LinkLayerMode(v: u8) -> Option<LinkLayerMode> {
        if v == 0 { Some(LinkLayerMode::BypassMode) } else { None }
    }
    /// LinkLayerMode: the numeric codes are inverse to one another.
    pub proof fn lem_code_LinkLayerMode(v: u8, e: LinkLayerMode)
        ensures
            of_LinkLayerMode(v) matches Some(x) ==> code_LinkLayerMode(x) == v,
            of_LinkLayerMode(code_LinkLayerMode(e)) == Some(e),
    {}
    pub open spec fn code_RangingTimeStruct(e: RangingTimeStruct) -> u8 {
        match e {
            RangingTimeStruct::BlockBasedScheduling => 1,
        }
    }
    pub open spec fn of_RangingTimeStruct(v: u8) -> Option<RangingTimeStruct> {
        if v == 1 { Some(RangingTimeStruct::BlockBasedScheduling) } else { None }
    }
    /// RangingTimeStruct: the numeric codes are inverse to one another.
    pub proof fn lem_code_RangingTimeStruct(v: u8, e: RangingTimeStruct)
        ensures
            of_RangingTimeStruct(v) matches Some(x) ==> code_RangingTimeStruct(x) == v,
            of_RangingTimeStruct(code_RangingTimeStruct(e)) == Some(e),
    {}
    pub open spec fn code_PrfMode(e: PrfMode) -> u8 {
        match e {
            PrfMode::BprfMode => 0,
            PrfMode::HprfMode124m8 => 1,
            PrfMode::HprfMode249m6 => 2,
        }
    }
    pub open spec fn of_PrfMode(v: u8) -> Option<PrfMode> {
        if v == 0 { Some(PrfMode::BprfMode) } else
        if v == 1 { Some(PrfMode::HprfMode124m8) } else
        if v == 2 { Some(PrfMode::HprfMode249m6) } else { None }
    }
    /// PrfMode: the numeric codes are inverse to one another.
    pub proof fn lem_code_PrfMode(v: u8, e: PrfMode)
        ensures
            of_PrfMode(v) matches Some(x) ==> code_PrfMode(x) == v,
            of_PrfMode(code_PrfMode(e)) == Some(e),
    {}
    pub open spec fn code_ScheduleMode(e: ScheduleMode) -> u8 {
        match e {
            ScheduleMode::ContentionBased => 0,
            ScheduleMode::TimeScheduled => 1,
        }
    }
    pub open spec fn of_ScheduleMode(v: u8) -> Option<ScheduleMode> {
        if v == 0 { Some(ScheduleMode::ContentionBased) } else
        if v == 1 { Some(ScheduleMode::TimeScheduled) } else { None }
    }
    /// ScheduleMode: the numeric codes are inverse to one another.
    pub proof fn lem_code_ScheduleMode(v: u8, e: ScheduleMode)
        ensures
            of_ScheduleMode(v) matches Some(x) ==> code_ScheduleMode(x) == v,
            of_ScheduleMode(code_ScheduleMode(e)) == Some(e),
    {}
    pub open spec fn code_KeyRotation(e: KeyRotation) -> u8 {
        match e {
            KeyRotation::Disable => 0,
            KeyRotation::Enable => 1,
        }
    }
    pub open spec fn of_KeyRotation(v: u8) -> Option<KeyRotation> {
        if v == 0 { Some(KeyRotation::Disable) } else
        if v == 1 { Some(KeyRotation::Enable) } else { None }
    }
    /// KeyRotation: the numeric codes are inverse to one another.
    pub proof fn lem_code_KeyRotation(v: u8, e: KeyRotation)
        ensures
            of_KeyRotation(v) matches Some(x) ==> code_KeyRotation(x) == v,
            of_KeyRotation(code_KeyRotation(e)) == Some(e),
    {}
    pub open spec fn code_MacAddressMode(e: MacAddressMode) -> u8 {
        match e {
            MacAddressMode::Mode0 => 0,
            MacAddressMode::Mode1 => 1,
            MacAddressMode::Mode2 => 2,
        }
    }
    pub open spec fn of_MacAddressMode(v: u8) -> Option<MacAddressMode> {
        if v == 0 { Some(MacAddressMode::Mode0) } else
        if v == 1 { Some(MacAddressMode::Mode1) } else
        if v == 2 { Some(MacAddressMode::Mode2) } else { None }
    }
    /// MacAddressMode: the numeric codes are inverse to one another.
    pub proof fn lem_code_MacAddressMode(v: u8, e: MacAddressMode)
        ensures
            of_MacAddressMode(v) matches Some(x) ==> code_MacAddressMode(x) == v,
            of_MacAddressMode(code_MacAddressMode(e)) == Some(e),
    {}
    pub open spec fn code_HoppingMode(e: HoppingMode) -> u8 {
        match e {
            HoppingMode::Disable => 0,
            HoppingMode::Enable => 1,
        }
    }
    pub open spec fn of_HoppingMode(v: u8) -> Option<HoppingMode> {
        if v == 0 { Some(HoppingMode::Disable) } else
        if v == 1 { Some(HoppingMode::Enable) } else { None }
    }
    /// HoppingMode: the numeric codes are inverse to one another.
    pub proof fn lem_code_HoppingMode(v: u8, e: HoppingMode)
        ensures
            of_HoppingMode(v) matches Some(x) ==> code_HoppingMode(x) == v,
            of_HoppingMode(code_HoppingMode(e)) == Some(e),
    {}
    pub open spec fn code_BprfPhrDataRate(e: BprfPhrDataRate) -> u8 {
        match e {
            BprfPhrDataRate::DataRate850k => 0,
            BprfPhrDataRate::DataRate6m81 => 1,
        }
    }
    pub open spec fn of_BprfPhrDataRate(v: u8) -> Option<BprfPhrDataRate> {
        if v == 0 { Some(BprfPhrDataRate::DataRate850k) } else
        if v == 1 { Some(BprfPhrDataRate::DataRate6m81) } else { None }
    }
    /// BprfPhrDataRate: the numeric codes are inverse to one another.
    pub proof fn lem_code_BprfPhrDataRate(v: u8, e: BprfPhrDataRate)
        ensures
            of_BprfPhrDataRate(v) matches Some(x) ==> code_BprfPhrDataRate(x) == v,
            of_BprfPhrDataRate(code_BprfPhrDataRate(e)) == Some(e),
    {}
    pub open spec fn code_StsLength(e: StsLength) -> u8 {
        match e {
            StsLength::Length32Symbols => 0,
            StsLength::Length64Symbols => 1,
            StsLength::Length128Symbols => 2,
        }
    }
    pub open spec fn of_StsLength(v: u8) -> Option<StsLength> {
        if v == 0 { Some(StsLength::Length32Symbols) } else
        if v == 1 { Some(StsLength::Length64Symbols) } else
        if v == 2 { Some(StsLength::Length128Symbols) } else { None }
    }
    /// StsLength: the numeric codes are inverse to one another.
    pub proof fn lem_code_StsLength(v: u8, e: StsLength)
        ensures
            of_StsLength(v) matches Some(x) ==> code_StsLength(x) == v,
            of_StsLength(code_StsLength(e)) == Some(e),
    {}
    pub open spec fn code_DlTdoaRangingMethod(e: DlTdoaRangingMethod) -> u8 {
        match e {
            DlTdoaRangingMethod::SsTwr => 0,
            DlTdoaRangingMethod::DsTwr => 1,
        }
    }
    pub open spec fn of_DlTdoaRangingMethod(v: u8) -> Option<DlTdoaRangingMethod> {
        if v == 0 { Some(DlTdoaRangingMethod::SsTwr) } else
        if v == 1 { Some(DlTdoaRangingMethod::DsTwr) } else { None }
    }
    /// DlTdoaRangingMethod: the numeric codes are inverse to one another.
    pub proof fn lem_code_DlTdoaRangingMethod(v: u8, e: DlTdoaRangingMethod)
        ensures
            of_DlTdoaRangingMethod(v) matches Some(x) ==> code_DlTdoaRangingMethod(x) == v,
            of_DlTdoaRangingMethod(code_DlTdoaRangingMethod(e)) == Some(e),
    {}
    pub open spec fn code_DlTdoaAnchorCfo(e: DlTdoaAnchorCfo) -> u8 {
        match e {
            DlTdoaAnchorCfo::AnchorCfoNotIncluded => 0,
            DlTdoaAnchorCfo::AnchorCfoIncluded => 1,
        }
    }
    pub open spec fn of_DlTdoaAnchorCfo(v: u8) -> Option<DlTdoaAnchorCfo> {
        if v == 0 { Some(DlTdoaAnchorCfo::AnchorCfoNotIncluded) } else
        if v == 1 { Some(DlTdoaAnchorCfo::AnchorCfoIncluded) } else { None }
    }
    /// DlTdoaAnchorCfo: the numeric codes are inverse to one another.
    pub proof fn lem_code_DlTdoaAnchorCfo(v: u8, e: DlTdoaAnchorCfo)
        ensures
            of_DlTdoaAnchorCfo(v) matches Some(x) ==> code_DlTdoaAnchorCfo(x) == v,
            of_DlTdoaAnchorCfo(code_DlTdoaAnchorCfo(e)) == Some(e),
    {}
    pub open spec fn code_SessionDataTransferStatusNtfConfig(e: SessionDataTransferStatusNtfConfig) -> u8 {
        match e {
            SessionDataTransferStatusNtfConfig::Disable => 0,
            SessionDataTransferStatusNtfConfig::Enable => 1,
        }
    }
    pub open spec fn of_SessionDataTransferStatusNtfConfig(v: u8) -> Option<SessionDataTransferStatusNtfConfig> {
        if v == 0 { Some(SessionDataTransferStatusNtfConfig::Disable) } else
        if v == 1 { Some(SessionDataTransferStatusNtfConfig::Enable) } else { None }
    }
    /// SessionDataTransferStatusNtfConfig: the numeric codes are inverse to one another.
    pub proof fn lem_code_SessionDataTransferStatusNtfConfig(v: u8, e: SessionDataTransferStatusNtfConfig)
        ensures
            of_SessionDataTransferStatusNtfConfig(v) matches Some(x) ==> code_SessionDataTransferStatusNtfConfig(x) == v,
            of_SessionDataTransferStatusNtfConfig(code_SessionDataTransferStatusNtfConfig(e)) == Some(e),
    {}
    pub open spec fn code_CapTlvType(e: CapTlvType) -> u8 {
        match e {
            CapTlvType::SupportedFiraPhyVersionRange => 0,
            CapTlvType::SupportedFiraMacVersionRange => 1,
            CapTlvType::SupportedDeviceRoles => 2,
            CapTlvType::SupportedRangingMethod => 3,
            CapTlvType::SupportedStsConfig => 4,
            CapTlvType::SupportedMultiNodeModes => 5,
            CapTlvType::SupportedRangingTimeStruct => 6,
            CapTlvType::SupportedScheduledMode => 7,
            CapTlvType::SupportedHoppingMode => 8,
            CapTlvType::SupportedBlockStriding => 9,
            CapTlvType::SupportedUwbInitiationTime => 10,
            CapTlvType::SupportedChannels => 11,
            CapTlvType::SupportedRframeConfig => 12,
            CapTlvType::SupportedCcConstraintLength => 13,
            CapTlvType::SupportedBprfParameterSets => 14,
            CapTlvType::SupportedHprfParameterSets => 15,
            CapTlvType::SupportedAoa => 16,
            CapTlvType::SupportedExtendedMacAddress => 17,
            CapTlvType::SupportedMaxMessageSize => 18,
            CapTlvType::SupportedMaxDataPacketPayloadSize => 19,
            CapTlvType::SupportedPowerStats => 192,
            CapTlvType::CccSupportedChapsPerSlot => 160,
            CapTlvType::CccSupportedSyncCodes => 161,
            CapTlvType::CccSupportedHoppingConfigModesAndSequences => 162,
            CapTlvType::CccSupportedChannels => 163,
            CapTlvType::CccSupportedVersions => 164,
            CapTlvType::CccSupportedUwbConfigs => 165,
            CapTlvType::CccSupportedPulseShapeCombos => 166,
            CapTlvType::CccSupportedRanMultiplier => 167,
            CapTlvType::CccSupportedMaxRangingSessionNumber => 168,
            CapTlvType::SupportedAoaResultReqAntennaInterleaving => 227,
            CapTlvType::SupportedMinRangingIntervalMs => 228,
            CapTlvType::SupportedRangeDataNtfConfig => 229,
            CapTlvType::SupportedRssiReporting => 230,
            CapTlvType::SupportedDiagnostics => 231,
            CapTlvType::SupportedMinSlotDurationRstu => 232,
            CapTlvType::SupportedMaxRangingSessionNumber => 233,
            CapTlvType::RfuCapTlvTypeRange1(p) => p.0,
            CapTlvType::VendorSpecificCapTlvTypeRange1(p) => p.0,
            CapTlvType::VendorSpecificCapTlvTypeRange2(p) => p.0,
            CapTlvType::RfuCapTlvTypeRange2(p) => p.0,
            CapTlvType::VendorSpecificCapTlvTypeRange3(p) => p.0,
        }
    }
    pub open spec fn of_CapTlvType(v: u8) -> Option<CapTlvType> {
        if v == 0 { Some(CapTlvType::SupportedFiraPhyVersionRange) } else
        if v == 1 { Some(CapTlvType::SupportedFiraMacVersionRange) } else
        if v == 2 { Some(CapTlvType::SupportedDeviceRoles) } else
        if v == 3 { Some(CapTlvType::SupportedRangingMethod) } else
        if v == 4 { Some(CapTlvType::SupportedStsConfig) } else
        if v == 5 { Some(CapTlvType::SupportedMultiNodeModes) } else
        if v == 6 { Some(CapTlvType::SupportedRangingTimeStruct) } else
        if v == 7 { Some(CapTlvType::SupportedScheduledMode) } else
        if v == 8 { Some(CapTlvType::SupportedHoppingMode) } else
        if v == 9 { Some(CapTlvType::SupportedBlockStriding) } else
        if v == 10 { Some(CapTlvType::SupportedUwbInitiationTime) } else
        if v == 11 { Some(CapTlvType::SupportedChannels) } else
        if v == 12 { Some(CapTlvType::SupportedRframeConfig) } else
        if v == 13 { Some(CapTlvType::SupportedCcConstraintLength) } else
        if v == 14 { Some(CapTlvType::SupportedBprfParameterSets) } else
        if v == 15 { Some(CapTlvType::SupportedHprfParameterSets) } else
        if v == 16 { Some(CapTlvType::SupportedAoa) } else
        if v == 17 { Some(CapTlvType::SupportedExtendedMacAddress) } else
        if v == 18 { Some(CapTlvType::SupportedMaxMessageSize) } else
        if v == 19 { Some(CapTlvType::SupportedMaxDataPacketPayloadSize) } else
        if v == 192 { Some(CapTlvType::SupportedPowerStats) } else
        if v == 160 { Some(CapTlvType::CccSupportedChapsPerSlot) } else
        if v == 161 { Some(CapTlvType::CccSupportedSyncCodes) } else
        if v == 162 { Some(CapTlvType::CccSupportedHoppingConfigModesAndSequences) } else
        if v == 163 { Some(CapTlvType::CccSupportedChannels) } else
        if v == 164 { Some(CapTlvType::CccSupportedVersions) } else
        if v == 165 { Some(CapTlvType::CccSupportedUwbConfigs) } else
        if v == 166 { Some(CapTlvType::CccSupportedPulseShapeCombos) } else
        if v == 167 { Some(CapTlvType::CccSupportedRanMultiplier) } else
        if v == 168 { Some(CapTlvType::CccSupportedMaxRangingSessionNumber) } else
        if v == 227 { Some(CapTlvType::SupportedAoaResultReqAntennaInterleaving) } else
        if v == 228 { Some(CapTlvType::SupportedMinRangingIntervalMs) } else
        if v == 229 { Some(CapTlvType::SupportedRangeDataNtfConfig) } else
        if v == 230 { Some(CapTlvType::SupportedRssiReporting) } else
        if v == 231 { Some(CapTlvType::SupportedDiagnostics) } else
        if v == 232 { Some(CapTlvType::SupportedMinSlotDurationRstu) } else
        if v == 233 { Some(CapTlvType::SupportedMaxRangingSessionNumber) } else
        if 20 <= v <= 159 { Some(CapTlvType::RfuCapTlvTypeRange1(Private(v))) } else
        if 160 <= v <= 191 { Some(CapTlvType::VendorSpecificCapTlvTypeRange1(Private(v))) } else
        if 193 <= v <= 223 { Some(CapTlvType::VendorSpecificCapTlvTypeRange2(Private(v))) } else
        if 224 <= v <= 226 { Some(CapTlvType::RfuCapTlvTypeRange2(Private(v))) } else
        if 227 <= v <= 255 { Some(CapTlvType::VendorSpecificCapTlvTypeRange3(Private(v))) } else { None }
    }
    /// CapTlvType: the numeric codes are inverse to one another.
    pub proof fn lem_code_CapTlvType(v: u8, e: CapTlvType)
        ensures
            of_CapTlvType(v) matches Some(x) ==> code_CapTlvType(x) == v,
            !(e is RfuCapTlvTypeRange1 || e is VendorSpecificCapTlvTypeRange1 || e is VendorSpecificCapTlvTypeRange2 || e is RfuCapTlvTypeRange2 || e is VendorSpecificCapTlvTypeRange3) ==> of_CapTlvType(code_CapTlvType(e)) == Some(e),
    {}
    pub open spec fn code_AoaResultReqType(e: AoaResultReqType) -> u8 {
        match e {
            AoaResultReqType::AoaDisable => 0,
            AoaResultReqType::AoaEnable => 1,
            AoaResultReqType::AoaEnableAzimuth => 2,
            AoaResultReqType::AoaEnableElevation => 3,
            AoaResultReqType::AoaEnableInterleaved => 240,
        }
    }
    pub open spec fn of_AoaResultReqType(v: u8) -> Option<AoaResultReqType> {
        if v == 0 { Some(AoaResultReqType::AoaDisable) } else
        if v == 1 { Some(AoaResultReqType::AoaEnable) } else
        if v == 2 { Some(AoaResultReqType::AoaEnableAzimuth) } else
        if v == 3 { Some(AoaResultReqType::AoaEnableElevation) } else
        if v == 240 { Some(AoaResultReqType::AoaEnableInterleaved) } else { None }
    }
    /// AoaResultReqType: the numeric codes are inverse to one another.
    pub proof fn lem_code_AoaResultReqType(v: u8, e: AoaResultReqType)
        ensures
            of_AoaResultReqType(v) matches Some(x) ==> code_AoaResultReqType(x) == v,
            of_AoaResultReqType(code_AoaResultReqType(e)) == Some(e),
    {}
    pub open spec fn code_DeviceState(e: DeviceState) -> u8 {
        match e {
            DeviceState::DeviceStateReady => 1,
            DeviceState::DeviceStateActive => 2,
            DeviceState::DeviceStateError => 255,
        }
    }
    pub open spec fn of_DeviceState(v: u8) -> Option<DeviceState> {
        if v == 1 { Some(DeviceState::DeviceStateReady) } else
        if v == 2 { Some(DeviceState::DeviceStateActive) } else
        if v == 255 { Some(DeviceState::DeviceStateError) } else { None }
    }
    /// DeviceState: the numeric codes are inverse to one another.
    pub proof fn lem_code_DeviceState(v: u8, e: DeviceState)
        ensures
            of_DeviceState(v) matches Some(x) ==> code_DeviceState(x) == v,
            of_DeviceState(code_DeviceState(e)) == Some(e),
    {}
    pub open spec fn code_SessionState(e: SessionState) -> u8 {
        match e {
            SessionState::SessionStateInit => 0,
            SessionState::SessionStateDeinit => 1,
            SessionState::SessionStateActive => 2,
            SessionState::SessionStateIdle => 3,
        }
    }
    pub open spec fn of_SessionState(v: u8) -> Option<SessionState> {
        if v == 0 { Some(SessionState::SessionStateInit) } else
        if v == 1 { Some(SessionState::SessionStateDeinit) } else
        if v == 2 { Some(SessionState::SessionStateActive) } else
        if v == 3 { Some(SessionState::SessionStateIdle) } else { None }
    }
    /// SessionState: the numeric codes are inverse to one another.
    pub proof fn lem_code_SessionState(v: u8, e: SessionState)
        ensures
            of_SessionState(v) matches Some(x) ==> code_SessionState(x) == v,
            of_SessionState(code_SessionState(e)) == Some(e),
    {}
    pub open spec fn code_ReasonCode(e: ReasonCode) -> u8 {
        match e {
            ReasonCode::StateChangeWithSessionManagementCommands => 0,
            ReasonCode::MaxRangingRoundRetryCountReached => 1,
            ReasonCode::MaxNumberOfMeasurementsReached => 2,
            ReasonCode::SessionSuspendedDueToInbandSignal => 3,
            ReasonCode::SessionResumedDueToInbandSignal => 4,
            ReasonCode::SessionStoppedDueToInbandSignal => 5,
            ReasonCode::ErrorInvalidUlTdoaRandomWindow => 29,
            ReasonCode::ErrorMinRframesPerRrNotSupported => 30,
            ReasonCode::ErrorTxDelayNotSupported => 31,
            ReasonCode::ErrorSlotLengthNotSupported => 32,
            ReasonCode::ErrorInsufficientSlotsPerRr => 33,
            ReasonCode::ErrorMacAddressModeNotSupported => 34,
            ReasonCode::ErrorInvalidRangingDuration => 35,
            ReasonCode::ErrorInvalidStsConfig => 36,
            ReasonCode::ErrorInvalidRframeConfig => 37,
            ReasonCode::ErrorHusNotEnoughSlots => 38,
            ReasonCode::ErrorHusCfpPhaseTooShort => 39,
            ReasonCode::ErrorHusCapPhaseTooShort => 40,
            ReasonCode::ErrorHusOthers => 41,
            ReasonCode::ErrorStatusSessionKeyNotFound => 42,
            ReasonCode::ErrorStatusSubSessionKeyNotFound => 43,
            ReasonCode::ErrorInvalidPreambleCodeIndex => 44,
            ReasonCode::ErrorInvalidSfdId => 45,
            ReasonCode::ErrorInvalidPsduDataRate => 46,
            ReasonCode::ErrorInvalidPhrDataRate => 47,
            ReasonCode::ErrorInvalidPreambleDuration => 48,
            ReasonCode::ErrorInvalidStsLength => 49,
            ReasonCode::ErrorInvalidNumOfStsSegments => 50,
            ReasonCode::ErrorInvalidNumOfControlees => 51,
            ReasonCode::ErrorMaxRangingReplyTimeExceeded => 52,
            ReasonCode::ErrorInvalidDstAddressList => 53,
            ReasonCode::ErrorInvalidOrNotFoundSubSessionId => 54,
            ReasonCode::ErrorInvalidResultReportConfig => 55,
            ReasonCode::ErrorInvalidRangingRoundControlConfig => 56,
            ReasonCode::ErrorInvalidRangingRoundUsage => 57,
            ReasonCode::ErrorInvalidMultiNodeMode => 58,
            ReasonCode::ErrorRdsFetchFailure => 59,
            ReasonCode::ErrorRefUwbSessionDoesNotExist => 60,
            ReasonCode::ErrorRefUwbSessionRangingDurationMismatch => 61,
            ReasonCode::ErrorRefUwbSessionInvalidOffsetTime => 62,
            ReasonCode::ErrorRefUwbSessionLost => 63,
            ReasonCode::VendorSpecificReasonCode2 => 255,
            ReasonCode::ErrorDtAnchorRangingRoundsNotConfigured => 64,
            ReasonCode::ErrorDtTagRangingRoundsNotConfigured => 65,
            ReasonCode::ErrorInvalidChannelWithAoa => 128,
            ReasonCode::ErrorStoppedDueToOtherSessionConflict => 129,
            ReasonCode::RfuReasonCodeRange1(p) => p.0,
            ReasonCode::RfuReasonCodeRange2(p) => p.0,
            ReasonCode::VendorSpecificReasonCodeRange1(p) => p.0,
        }
    }
    pub open spec fn of_ReasonCode(v: u8) -> Option<ReasonCode> {
        if v == 0 { Some(ReasonCode::StateChangeWithSessionManagementCommands) } else
        if v == 1 { Some(ReasonCode::MaxRangingRoundRetryCountReached) } else
        if v == 2 { Some(ReasonCode::MaxNumberOfMeasurementsReached) } else
        if v == 3 { Some(ReasonCode::SessionSuspendedDueToInbandSignal) } else
        if v == 4 { Some(ReasonCode::SessionResumedDueToInbandSignal) } else
        if v == 5 { Some(ReasonCode::SessionStoppedDueToInbandSignal) } else
        if v == 29 { Some(ReasonCode::ErrorInvalidUlTdoaRandomWindow) } else
        if v == 30 { Some(ReasonCode::ErrorMinRframesPerRrNotSupported) } else
        if v == 31 { Some(ReasonCode::ErrorTxDelayNotSupported) } else
        if v == 32 { Some(ReasonCode::ErrorSlotLengthNotSupported) } else
        if v == 33 { Some(ReasonCode::ErrorInsufficientSlotsPerRr) } else
        if v == 34 { Some(ReasonCode::ErrorMacAddressModeNotSupported) } else
        if v == 35 { Some(ReasonCode::ErrorInvalidRangingDuration) } else
        if v == 36 { Some(ReasonCode::ErrorInvalidStsConfig) } else
        if v == 37 { Some(ReasonCode::ErrorInvalidRframeConfig) } else
        if v == 38 { Some(ReasonCode::ErrorHusNotEnoughSlots) } else
        if v == 39 { Some(ReasonCode::ErrorHusCfpPhaseTooShort) } else
        if v == 40 { Some(ReasonCode::ErrorHusCapPhaseTooShort) } else
        if v == 41 { Some(ReasonCode::ErrorHusOthers) } else
        if v == 42 { Some(ReasonCode::ErrorStatusSessionKeyNotFound) } else
        if v == 43 { Some(ReasonCode::ErrorStatusSubSessionKeyNotFound) } else
        if v == 44 { Some(ReasonCode::ErrorInvalidPreambleCodeIndex) } else
        if v == 45 { Some(ReasonCode::ErrorInvalidSfdId) } else
        if v == 46 { Some(ReasonCode::ErrorInvalidPsduDataRate) } else
        if v == 47 { Some(ReasonCode::ErrorInvalidPhrDataRate) } else
        if v == 48 { Some(ReasonCode::ErrorInvalidPreambleDuration) } else
        if v == 49 { Some(ReasonCode::ErrorInvalidStsLength) } else
        if v == 50 { Some(ReasonCode::ErrorInvalidNumOfStsSegments) } else
        if v == 51 { Some(ReasonCode::ErrorInvalidNumOfControlees) } else
        if v == 52 { Some(ReasonCode::ErrorMaxRangingReplyTimeExceeded) } else
        if v == 53 { Some(ReasonCode::ErrorInvalidDstAddressList) } else
        if v == 54 { Some(ReasonCode::ErrorInvalidOrNotFoundSubSessionId) } else
        if v == 55 { Some(ReasonCode::ErrorInvalidResultReportConfig) } else
        if v == 56 { Some(ReasonCode::ErrorInvalidRangingRoundControlConfig) } else
        if v == 57 { Some(ReasonCode::ErrorInvalidRangingRoundUsage) } else
        if v == 58 { Some(ReasonCode::ErrorInvalidMultiNodeMode) } else
        if v == 59 { Some(ReasonCode::ErrorRdsFetchFailure) } else
        if v == 60 { Some(ReasonCode::ErrorRefUwbSessionDoesNotExist) } else
        if v == 61 { Some(ReasonCode::ErrorRefUwbSessionRangingDurationMismatch) } else
        if v == 62 { Some(ReasonCode::ErrorRefUwbSessionInvalidOffsetTime) } else
        if v == 63 { Some(ReasonCode::ErrorRefUwbSessionLost) } else
        if v == 255 { Some(ReasonCode::VendorSpecificReasonCode2) } else
        if v == 64 { Some(ReasonCode::ErrorDtAnchorRangingRoundsNotConfigured) } else
        if v == 65 { Some(ReasonCode::ErrorDtTagRangingRoundsNotConfigured) } else
        if v == 128 { Some(ReasonCode::ErrorInvalidChannelWithAoa) } else
        if v == 129 { Some(ReasonCode::ErrorStoppedDueToOtherSessionConflict) } else
        if 6 <= v <= 28 { Some(ReasonCode::RfuReasonCodeRange1(Private(v))) } else
        if 64 <= v <= 127 { Some(ReasonCode::RfuReasonCodeRange2(Private(v))) } else
        if 128 <= v <= 254 { Some(ReasonCode::VendorSpecificReasonCodeRange1(Private(v))) } else { None }
    }
    /// ReasonCode: the numeric codes are inverse to one another.
    pub proof fn lem_code_ReasonCode(v: u8, e: ReasonCode)
        ensures
            of_ReasonCode(v) matches Some(x) ==> code_ReasonCode(x) == v,
            !(e is RfuReasonCodeRange1 || e is RfuReasonCodeRange2 || e is VendorSpecificReasonCodeRange1) ==> of_ReasonCode(code_ReasonCode(e)) == Some(e),
    {}
    pub open spec fn code_MulticastUpdateStatus(e: MulticastUpdateStatus) -> u8 {
        match e {
            MulticastUpdateStatus::OkMulticastListUpdate => 0,
            MulticastUpdateStatus::ErrorMulticastListFull => 1,
            MulticastUpdateStatus::ErrorKeyFetchFail => 2,
            MulticastUpdateStatus::ErrorSubSessionIdNotFound => 3,
            MulticastUpdateStatus::ErrorSubSessionKeyNotFound => 4,
            MulticastUpdateStatus::ErrorSubSessionKeyNotApplicable => 5,
            MulticastUpdateStatus::ErrorSessionKeyNotFound => 6,
            MulticastUpdateStatus::ErrorAddressNotFound => 7,
            MulticastUpdateStatus::ErrorAddressAlreadyPresent => 8,
        }
    }
    pub open spec fn of_MulticastUpdateStatus(v: u8) -> Option<MulticastUpdateStatus> {
        if v == 0 { Some(MulticastUpdateStatus::OkMulticastListUpdate) } else
        if v == 1 { Some(MulticastUpdateStatus::ErrorMulticastListFull) } else
        if v == 2 { Some(MulticastUpdateStatus::ErrorKeyFetchFail) } else
        if v == 3 { Some(MulticastUpdateStatus::ErrorSubSessionIdNotFound) } else
        if v == 4 { Some(MulticastUpdateStatus::ErrorSubSessionKeyNotFound) } else
        if v == 5 { Some(MulticastUpdateStatus::ErrorSubSessionKeyNotApplicable) } else
        if v == 6 { Some(MulticastUpdateStatus::ErrorSessionKeyNotFound) } else
        if v == 7 { Some(MulticastUpdateStatus::ErrorAddressNotFound) } else
        if v == 8 { Some(MulticastUpdateStatus::ErrorAddressAlreadyPresent) } else { None }
    }
    /// MulticastUpdateStatus: the numeric codes are inverse to one another.
    pub proof fn lem_code_MulticastUpdateStatus(v: u8, e: MulticastUpdateStatus)
        ensures
            of_MulticastUpdateStatus(v) matches Some(x) ==> code_MulticastUpdateStatus(x) == v,
            of_MulticastUpdateStatus(code_MulticastUpdateStatus(e)) == Some(e),
    {}
    pub open spec fn code_MacAddressIndicator(e: MacAddressIndicator) -> u8 {
        match e {
            MacAddressIndicator::ShortAddress => 0,
            MacAddressIndicator::ExtendedAddress => 1,
        }
    }
    pub open spec fn of_MacAddressIndicator(v: u8) -> Option<MacAddressIndicator> {
        if v == 0 { Some(MacAddressIndicator::ShortAddress) } else
        if v == 1 { Some(MacAddressIndicator::ExtendedAddress) } else { None }
    }
    /// MacAddressIndicator: the numeric codes are inverse to one another.
    pub proof fn lem_code_MacAddressIndicator(v: u8, e: MacAddressIndicator)
        ensures
            of_MacAddressIndicator(v) matches Some(x) ==> code_MacAddressIndicator(x) == v,
            of_MacAddressIndicator(code_MacAddressIndicator(e)) == Some(e),
    {}
    pub open spec fn code_SessionType(e: SessionType) -> u8 {
        match e {
            SessionType::FiraRangingSession => 0,
            SessionType::FiraRangingAndInBandDataSession => 1,
            SessionType::FiraDataTransferSession => 2,
            SessionType::FiraRangingOnlyPhase => 3,
            SessionType::FiraInBandDataPhase => 4,
            SessionType::FiraRangingWithDataPhase => 5,
            SessionType::Ccc => 160,
            SessionType::DeviceTestMode => 208,
        }
    }
    pub open spec fn of_SessionType(v: u8) -> Option<SessionType> {
        if v == 0 { Some(SessionType::FiraRangingSession) } else
        if v == 1 { Some(SessionType::FiraRangingAndInBandDataSession) } else
        if v == 2 { Some(SessionType::FiraDataTransferSession) } else
        if v == 3 { Some(SessionType::FiraRangingOnlyPhase) } else
        if v == 4 { Some(SessionType::FiraInBandDataPhase) } else
        if v == 5 { Some(SessionType::FiraRangingWithDataPhase) } else
        if v == 160 { Some(SessionType::Ccc) } else
        if v == 208 { Some(SessionType::DeviceTestMode) } else { None }
    }
    /// SessionType: the numeric codes are inverse to one another.
    pub proof fn lem_code_SessionType(v: u8, e: SessionType)
        ensures
            of_SessionType(v) matches Some(x) ==> code_SessionType(x) == v,
            of_SessionType(code_SessionType(e)) == Some(e),
    {}
    pub open spec fn code_ConfigParameterId(e: ConfigParameterId) -> u8 {
        match e {
            ConfigParameterId::DeviceState => 0,
            ConfigParameterId::LowPowerMode => 1,
            ConfigParameterId::Rfu(p) => p.0,
        }
    }
    pub open spec fn of_ConfigParameterId(v: u8) -> Option<ConfigParameterId> {
        if v == 0 { Some(ConfigParameterId::DeviceState) } else
        if v == 1 { Some(ConfigParameterId::LowPowerMode) } else
        if true { Some(ConfigParameterId::Rfu(Private(v))) } else { None }
    }
    /// ConfigParameterId: the numeric codes are inverse to one another.
    pub proof fn lem_code_ConfigParameterId(v: u8, e: ConfigParameterId)
        ensures
            of_ConfigParameterId(v) matches Some(x) ==> code_ConfigParameterId(x) == v,
            !(e is Rfu) ==> of_ConfigParameterId(code_ConfigParameterId(e)) == Some(e),
    {}
    pub open spec fn code_UpdateMulticastListAction(e: UpdateMulticastListAction) -> u8 {
        match e {
            UpdateMulticastListAction::AddControlee => 0,
            UpdateMulticastListAction::RemoveControlee => 1,
            UpdateMulticastListAction::AddControleeWithShortSubSessionKey => 2,
            UpdateMulticastListAction::AddControleeWithExtendedSubSessionKey => 3,
        }
    }
    pub open spec fn of_UpdateMulticastListAction(v: u8) -> Option<UpdateMulticastListAction> {
        if v == 0 { Some(UpdateMulticastListAction::AddControlee) } else
        if v == 1 { Some(UpdateMulticastListAction::RemoveControlee) } else
        if v == 2 { Some(UpdateMulticastListAction::AddControleeWithShortSubSessionKey) } else
        if v == 3 { Some(UpdateMulticastListAction::AddControleeWithExtendedSubSessionKey) } else { None }
    }
    /// UpdateMulticastListAction: the numeric codes are inverse to one another.
    pub proof fn lem_code_UpdateMulticastListAction(v: u8, e: UpdateMulticastListAction)
        ensures
            of_UpdateMulticastListAction(v) matches Some(x) ==> code_UpdateMulticastListAction(x) == v,
            of_UpdateMulticastListAction(code_UpdateMulticastListAction(e)) == Some(e),
    {}
    pub open spec fn code_RangingMeasurementType(e: RangingMeasurementType) -> u8 {
        match e {
            RangingMeasurementType::OneWay => 0,
            RangingMeasurementType::TwoWay => 1,
            RangingMeasurementType::DlTdoa => 2,
            RangingMeasurementType::OwrAoa => 3,
        }
    }
    pub open spec fn of_RangingMeasurementType(v: u8) -> Option<RangingMeasurementType> {
        if v == 0 { Some(RangingMeasurementType::OneWay) } else
        if v == 1 { Some(RangingMeasurementType::TwoWay) } else
        if v == 2 { Some(RangingMeasurementType::DlTdoa) } else
        if v == 3 { Some(RangingMeasurementType::OwrAoa) } else { None }
    }
    /// RangingMeasurementType: the numeric codes are inverse to one another.
    pub proof fn lem_code_RangingMeasurementType(v: u8, e: RangingMeasurementType)
        ensures
            of_RangingMeasurementType(v) matches Some(x) ==> code_RangingMeasurementType(x) == v,
            of_RangingMeasurementType(code_RangingMeasurementType(e)) == Some(e),
    {}
    pub open spec fn code_FrameReportTlvType(e: FrameReportTlvType) -> u8 {
        match e {
            FrameReportTlvType::Rssi => 0,
            FrameReportTlvType::Aoa => 1,
            FrameReportTlvType::Cir => 2,
        }
    }
    pub open spec fn of_FrameReportTlvType(v: u8) -> Option<FrameReportTlvType> {
        if v == 0 { Some(FrameReportTlvType::Rssi) } else
        if v == 1 { Some(FrameReportTlvType::Aoa) } else
        if v == 2 { Some(FrameReportTlvType::Cir) } else { None }
    }
    /// FrameReportTlvType: the numeric codes are inverse to one another.
    pub proof fn lem_code_FrameReportTlvType(v: u8, e: FrameReportTlvType)
        ensures
            of_FrameReportTlvType(v) matches Some(x) ==> code_FrameReportTlvType(x) == v,
            of_FrameReportTlvType(code_FrameReportTlvType(e)) == Some(e),
    {}
    pub open spec fn codes_AppConfigTlvType(s: Seq<AppConfigTlvType>) -> Seq<u8> { Seq::new(s.len(), |i: int| code_AppConfigTlvType(s[i])) }
    pub open spec fn codes_ConfigParameterId(s: Seq<ConfigParameterId>) -> Seq<u8> { Seq::new(s.len(), |i: int| code_ConfigParameterId(s[i])) }
    pub open spec fn encok_RangingRoundControl(p: RangingRoundControl) -> bool { p.rrrm <= 1 && p.rcp <= 1 && p.mrp <= 1 && p.mrm <= 1 }
    pub open spec fn wf_RangingRoundControl(p: RangingRoundControl) -> bool { p.rrrm <= 1 && p.rcp <= 1 && p.mrp <= 1 && p.mrm <= 1 }
    /// RangingRoundControl: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_RangingRoundControl(p: RangingRoundControl) -> Seq<u8> { seq![(p.rrrm | (1u8 << 1) | (p.rcp << 2) | (p.mrp << 6) | (p.mrm << 7)) as u8] }
    pub open spec fn enc_RangingRoundControl(p: RangingRoundControl) -> Seq<u8> { encp_RangingRoundControl(p) }
    pub open spec fn encok_ResultReportConfig(p: ResultReportConfig) -> bool { p.tof <= 1 && p.aoa_azimuth <= 1 && p.aoa_elevation <= 1 && p.aoa_fom <= 1 }
    pub open spec fn wf_ResultReportConfig(p: ResultReportConfig) -> bool { p.tof <= 1 && p.aoa_azimuth <= 1 && p.aoa_elevation <= 1 && p.aoa_fom <= 1 }
    /// ResultReportConfig: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_ResultReportConfig(p: ResultReportConfig) -> Seq<u8> { seq![(p.tof | (p.aoa_azimuth << 1) | (p.aoa_elevation << 2) | (p.aoa_fom << 3)) as u8] }
    pub open spec fn enc_ResultReportConfig(p: ResultReportConfig) -> Seq<u8> { encp_ResultReportConfig(p) }
    pub open spec fn encok_CommonPacketHeader(p: CommonPacketHeader) -> bool { true }
    pub open spec fn wf_CommonPacketHeader(p: CommonPacketHeader) -> bool { true }
    /// CommonPacketHeader: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CommonPacketHeader(p: CommonPacketHeader) -> Seq<u8> { seq![((code_PacketBoundaryFlag(p.pbf) << 4) | (code_MessageType(p.mt) << 5)) as u8] }
    pub open spec fn encok_ControlPacketHeader(p: ControlPacketHeader) -> bool { true }
    pub open spec fn wf_ControlPacketHeader(p: ControlPacketHeader) -> bool { true }
    /// ControlPacketHeader: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_ControlPacketHeader(p: ControlPacketHeader) -> Seq<u8> { seq![((code_PacketBoundaryFlag(p.pbf) << 4) | (code_MessageType(p.mt) << 5)) as u8] + Seq::new(2, |i: int| 0u8) + u8le(p.payload_length) }
    pub open spec fn encok_DataPacketHeader(p: DataPacketHeader) -> bool { true }
    pub open spec fn wf_DataPacketHeader(p: DataPacketHeader) -> bool { true }
    /// DataPacketHeader: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_DataPacketHeader(p: DataPacketHeader) -> Seq<u8> { seq![((code_PacketBoundaryFlag(p.pbf) << 4) | (code_MessageType(p.mt) << 5)) as u8] + Seq::new(1, |i: int| 0u8) + u16le(p.payload_length) }
    pub open spec fn encok_ControlPacket(p: ControlPacket) -> bool { true }
    pub open spec fn wf_ControlPacket(p: ControlPacket) -> bool { true }
    /// ControlPacket: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_ControlPacket(p: ControlPacket) -> Seq<u8> { seq![(code_GroupId(p.gid) | (code_MessageType(p.mt) << 5)) as u8] + p.payload@ }
    pub open spec fn encok_DataPacket(p: DataPacket) -> bool { true }
    pub open spec fn wf_DataPacket(p: DataPacket) -> bool { true }
    /// DataPacket: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_DataPacket(p: DataPacket) -> Seq<u8> { seq![(code_DataPacketFormat(p.dpf) | (code_PacketBoundaryFlag(p.pbf) << 4) | (code_MessageType(p.mt) << 5)) as u8] + Seq::new(1, |i: int| 0u8) + Seq::new(2, |i: int| 0u8) + p.payload@ }
    pub open spec fn encok_DataMessageSnd(p: DataMessageSnd) -> bool { p.application_data@.len() <= 65535 }
    pub open spec fn wf_DataMessageSnd(p: DataMessageSnd) -> bool { p.application_data@.len() <= 65535 }
    /// DataMessageSnd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_DataMessageSnd(p: DataMessageSnd) -> Seq<u8> { u32le(p.session_handle) + u64le(p.destination_address) + u16le(p.data_sequence_number) + u16le(p.application_data@.len() as u16) + p.application_data@ }
    pub open spec fn encok_DataMessageRcv(p: DataMessageRcv) -> bool { p.application_data@.len() <= 65535 }
    pub open spec fn wf_DataMessageRcv(p: DataMessageRcv) -> bool { p.application_data@.len() <= 65535 }
    /// DataMessageRcv: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_DataMessageRcv(p: DataMessageRcv) -> Seq<u8> { u32le(p.session_handle) + seq![code_Status(p.status)] + u64le(p.source_address) + u16le(p.data_sequence_number) + u16le(p.application_data@.len() as u16) + p.application_data@ }
    pub open spec fn encok_CorePacket(p: CorePacket) -> bool { true }
    pub open spec fn wf_CorePacket(p: CorePacket) -> bool { true }
    /// CorePacket: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CorePacket(p: CorePacket) -> Seq<u8> { seq![(code_CoreOpcodeId(p.oid)) as u8] + Seq::new(2, |i: int| 0u8) + p.payload@ }
    pub open spec fn encok_SessionConfigPacket(p: SessionConfigPacket) -> bool { true }
    pub open spec fn wf_SessionConfigPacket(p: SessionConfigPacket) -> bool { true }
    /// SessionConfigPacket: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionConfigPacket(p: SessionConfigPacket) -> Seq<u8> { seq![(code_SessionConfigOpcodeId(p.oid)) as u8] + Seq::new(2, |i: int| 0u8) + p.payload@ }
    pub open spec fn encok_SessionControlPacket(p: SessionControlPacket) -> bool { true }
    pub open spec fn wf_SessionControlPacket(p: SessionControlPacket) -> bool { true }
    /// SessionControlPacket: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionControlPacket(p: SessionControlPacket) -> Seq<u8> { seq![(code_SessionControlOpcodeId(p.oid)) as u8] + Seq::new(2, |i: int| 0u8) + p.payload@ }
    pub open spec fn encok_AndroidPacket(p: AndroidPacket) -> bool { true }
    pub open spec fn wf_AndroidPacket(p: AndroidPacket) -> bool { true }
    /// AndroidPacket: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_AndroidPacket(p: AndroidPacket) -> Seq<u8> { seq![(code_AndroidOpcodeId(p.oid)) as u8] + Seq::new(2, |i: int| 0u8) + p.payload@ }
    pub open spec fn encok_CoreDeviceResetCmd(p: CoreDeviceResetCmd) -> bool { true }
    pub open spec fn wf_CoreDeviceResetCmd(p: CoreDeviceResetCmd) -> bool { true }
    /// CoreDeviceResetCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreDeviceResetCmd(p: CoreDeviceResetCmd) -> Seq<u8> { seq![code_ResetConfig(p.reset_config)] }
    pub open spec fn encok_CoreDeviceResetRsp(p: CoreDeviceResetRsp) -> bool { true }
    pub open spec fn wf_CoreDeviceResetRsp(p: CoreDeviceResetRsp) -> bool { true }
    /// CoreDeviceResetRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreDeviceResetRsp(p: CoreDeviceResetRsp) -> Seq<u8> { seq![code_Status(p.status)] }
    pub open spec fn encok_CoreDeviceStatusNtf(p: CoreDeviceStatusNtf) -> bool { true }
    pub open spec fn wf_CoreDeviceStatusNtf(p: CoreDeviceStatusNtf) -> bool { true }
    /// CoreDeviceStatusNtf: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreDeviceStatusNtf(p: CoreDeviceStatusNtf) -> Seq<u8> { seq![code_DeviceState(p.device_state)] }
    pub open spec fn encok_CoreGetDeviceInfoCmd(p: CoreGetDeviceInfoCmd) -> bool { true }
    pub open spec fn wf_CoreGetDeviceInfoCmd(p: CoreGetDeviceInfoCmd) -> bool { true }
    /// CoreGetDeviceInfoCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreGetDeviceInfoCmd(p: CoreGetDeviceInfoCmd) -> Seq<u8> { Seq::empty() }
    pub open spec fn encok_CoreGetDeviceInfoRsp(p: CoreGetDeviceInfoRsp) -> bool { true }
    pub open spec fn wf_CoreGetDeviceInfoRsp(p: CoreGetDeviceInfoRsp) -> bool { p.vendor_spec_info@.len() <= 255 }
    /// CoreGetDeviceInfoRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreGetDeviceInfoRsp(p: CoreGetDeviceInfoRsp) -> Seq<u8> { seq![code_Status(p.status)] + u16le(p.uci_version) + u16le(p.mac_version) + u16le(p.phy_version) + u16le(p.uci_test_version) + seq![p.vendor_spec_info@.len() as u8] + p.vendor_spec_info@ }
    pub open spec fn encok_CoreGetCapsInfoCmd(p: CoreGetCapsInfoCmd) -> bool { true }
    pub open spec fn wf_CoreGetCapsInfoCmd(p: CoreGetCapsInfoCmd) -> bool { true }
    /// CoreGetCapsInfoCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreGetCapsInfoCmd(p: CoreGetCapsInfoCmd) -> Seq<u8> { Seq::empty() }
    pub open spec fn encok_CapTlv(p: CapTlv) -> bool { true }
    pub open spec fn wf_CapTlv(p: CapTlv) -> bool { p.v@.len() <= 255 }
    /// CapTlv: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CapTlv(p: CapTlv) -> Seq<u8> { seq![code_CapTlvType(p.t)] + seq![p.v@.len() as u8] + p.v@ }
    pub open spec fn cat_CapTlv(s: Seq<CapTlv>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { cat_CapTlv(s.drop_last()) + encp_CapTlv(s.last()) }
    }
    pub proof fn lem_cat_CapTlv(s: Seq<CapTlv>, i: int)
        requires 0 <= i < s.len(),
        ensures cat_CapTlv(s.subrange(0, i + 1)) == cat_CapTlv(s.subrange(0, i)) + encp_CapTlv(s[i]),
    { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
    pub proof fn lem_catpush_CapTlv(s: Seq<CapTlv>, x: CapTlv)
        ensures cat_CapTlv(s.push(x)) == cat_CapTlv(s) + encp_CapTlv(x),
    { assert(s.push(x).drop_last() =~= s); }
    pub open spec fn enc_CapTlv(p: CapTlv) -> Seq<u8> { encp_CapTlv(p) }
    pub open spec fn encok_CoreGetCapsInfoRsp(p: CoreGetCapsInfoRsp) -> bool { true }
    pub open spec fn wf_CoreGetCapsInfoRsp(p: CoreGetCapsInfoRsp) -> bool { p.tlvs@.len() <= 255 && (forall|i: int| 0 <= i < p.tlvs@.len() ==> wf_CapTlv(#[trigger] p.tlvs@[i])) }
    /// CoreGetCapsInfoRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreGetCapsInfoRsp(p: CoreGetCapsInfoRsp) -> Seq<u8> { seq![code_Status(p.status)] + seq![p.tlvs@.len() as u8] + cat_CapTlv(p.tlvs@) }
    pub open spec fn encok_ConfigParameter(p: ConfigParameter) -> bool { p.value@.len() <= 255 }
    pub open spec fn wf_ConfigParameter(p: ConfigParameter) -> bool { p.value@.len() <= 255 }
    /// ConfigParameter: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_ConfigParameter(p: ConfigParameter) -> Seq<u8> { seq![code_ConfigParameterId(p.id)] + u8le(p.value@.len() as u8) + p.value@ }
    pub open spec fn cat_ConfigParameter(s: Seq<ConfigParameter>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { cat_ConfigParameter(s.drop_last()) + encp_ConfigParameter(s.last()) }
    }
    pub proof fn lem_cat_ConfigParameter(s: Seq<ConfigParameter>, i: int)
        requires 0 <= i < s.len(),
        ensures cat_ConfigParameter(s.subrange(0, i + 1)) == cat_ConfigParameter(s.subrange(0, i)) + encp_ConfigParameter(s[i]),
    { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
    pub proof fn lem_catpush_ConfigParameter(s: Seq<ConfigParameter>, x: ConfigParameter)
        ensures cat_ConfigParameter(s.push(x)) == cat_ConfigParameter(s) + encp_ConfigParameter(x),
    { assert(s.push(x).drop_last() =~= s); }
    pub open spec fn enc_ConfigParameter(p: ConfigParameter) -> Seq<u8> { encp_ConfigParameter(p) }
    pub open spec fn encok_CoreSetConfigCmd(p: CoreSetConfigCmd) -> bool { (forall|i: int| 0 <= i < p.parameters@.len() ==> encok_ConfigParameter(#[trigger] p.parameters@[i])) }
    pub open spec fn wf_CoreSetConfigCmd(p: CoreSetConfigCmd) -> bool { (forall|i: int| 0 <= i < p.parameters@.len() ==> encok_ConfigParameter(#[trigger] p.parameters@[i])) && p.parameters@.len() <= 255 && (forall|i: int| 0 <= i < p.parameters@.len() ==> wf_ConfigParameter(#[trigger] p.parameters@[i])) }
    /// CoreSetConfigCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreSetConfigCmd(p: CoreSetConfigCmd) -> Seq<u8> { seq![p.parameters@.len() as u8] + cat_ConfigParameter(p.parameters@) }
    pub open spec fn encok_ConfigParameterStatus(p: ConfigParameterStatus) -> bool { true }
    pub open spec fn wf_ConfigParameterStatus(p: ConfigParameterStatus) -> bool { true }
    /// ConfigParameterStatus: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_ConfigParameterStatus(p: ConfigParameterStatus) -> Seq<u8> { seq![code_ConfigParameterId(p.id)] + seq![code_Status(p.status)] }
    pub open spec fn cat_ConfigParameterStatus(s: Seq<ConfigParameterStatus>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { cat_ConfigParameterStatus(s.drop_last()) + encp_ConfigParameterStatus(s.last()) }
    }
    pub proof fn lem_cat_ConfigParameterStatus(s: Seq<ConfigParameterStatus>, i: int)
        requires 0 <= i < s.len(),
        ensures cat_ConfigParameterStatus(s.subrange(0, i + 1)) == cat_ConfigParameterStatus(s.subrange(0, i)) + encp_ConfigParameterStatus(s[i]),
    { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
    pub proof fn lem_catpush_ConfigParameterStatus(s: Seq<ConfigParameterStatus>, x: ConfigParameterStatus)
        ensures cat_ConfigParameterStatus(s.push(x)) == cat_ConfigParameterStatus(s) + encp_ConfigParameterStatus(x),
    { assert(s.push(x).drop_last() =~= s); }
    pub open spec fn enc_ConfigParameterStatus(p: ConfigParameterStatus) -> Seq<u8> { encp_ConfigParameterStatus(p) }
    pub open spec fn encok_CoreSetConfigRsp(p: CoreSetConfigRsp) -> bool { true }
    pub open spec fn wf_CoreSetConfigRsp(p: CoreSetConfigRsp) -> bool { p.parameters@.len() <= 255 && (forall|i: int| 0 <= i < p.parameters@.len() ==> wf_ConfigParameterStatus(#[trigger] p.parameters@[i])) }
    /// CoreSetConfigRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreSetConfigRsp(p: CoreSetConfigRsp) -> Seq<u8> { seq![code_Status(p.status)] + seq![p.parameters@.len() as u8] + cat_ConfigParameterStatus(p.parameters@) }
    pub open spec fn encok_CoreGetConfigCmd(p: CoreGetConfigCmd) -> bool { true }
    pub open spec fn wf_CoreGetConfigCmd(p: CoreGetConfigCmd) -> bool { p.parameter_ids@.len() <= 255 }
    /// CoreGetConfigCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreGetConfigCmd(p: CoreGetConfigCmd) -> Seq<u8> { seq![p.parameter_ids@.len() as u8] + codes_ConfigParameterId(p.parameter_ids@) }
    pub open spec fn encok_CoreGetConfigRsp(p: CoreGetConfigRsp) -> bool { (forall|i: int| 0 <= i < p.parameters@.len() ==> encok_ConfigParameter(#[trigger] p.parameters@[i])) }
    pub open spec fn wf_CoreGetConfigRsp(p: CoreGetConfigRsp) -> bool { (forall|i: int| 0 <= i < p.parameters@.len() ==> encok_ConfigParameter(#[trigger] p.parameters@[i])) && p.parameters@.len() <= 255 && (forall|i: int| 0 <= i < p.parameters@.len() ==> wf_ConfigParameter(#[trigger] p.parameters@[i])) }
    /// CoreGetConfigRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreGetConfigRsp(p: CoreGetConfigRsp) -> Seq<u8> { seq![code_Status(p.status)] + seq![p.parameters@.len() as u8] + cat_ConfigParameter(p.parameters@) }
    pub open spec fn encok_CoreGenericErrorNtf(p: CoreGenericErrorNtf) -> bool { true }
    pub open spec fn wf_CoreGenericErrorNtf(p: CoreGenericErrorNtf) -> bool { true }
    /// CoreGenericErrorNtf: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreGenericErrorNtf(p: CoreGenericErrorNtf) -> Seq<u8> { seq![code_Status(p.status)] }
    pub open spec fn encok_CoreQueryTimeStampCmd(p: CoreQueryTimeStampCmd) -> bool { true }
    pub open spec fn wf_CoreQueryTimeStampCmd(p: CoreQueryTimeStampCmd) -> bool { true }
    /// CoreQueryTimeStampCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreQueryTimeStampCmd(p: CoreQueryTimeStampCmd) -> Seq<u8> { Seq::empty() }
    pub open spec fn encok_CoreQueryTimeStampRsp(p: CoreQueryTimeStampRsp) -> bool { true }
    pub open spec fn wf_CoreQueryTimeStampRsp(p: CoreQueryTimeStampRsp) -> bool { true }
    /// CoreQueryTimeStampRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_CoreQueryTimeStampRsp(p: CoreQueryTimeStampRsp) -> Seq<u8> { seq![code_Status(p.status)] + u64le(p.timeStamp) }
    pub open spec fn encok_SessionInitCmd(p: SessionInitCmd) -> bool { true }
    pub open spec fn wf_SessionInitCmd(p: SessionInitCmd) -> bool { true }
    /// SessionInitCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionInitCmd(p: SessionInitCmd) -> Seq<u8> { u32le(p.session_id) + seq![code_SessionType(p.session_type)] }
    pub open spec fn encok_SessionInitRsp_V2(p: SessionInitRsp_V2) -> bool { true }
    pub open spec fn wf_SessionInitRsp_V2(p: SessionInitRsp_V2) -> bool { true }
    /// SessionInitRsp_V2: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionInitRsp_V2(p: SessionInitRsp_V2) -> Seq<u8> { seq![code_Status(p.status)] + u32le(p.session_handle) }
    pub open spec fn encok_SessionInitRsp(p: SessionInitRsp) -> bool { true }
    pub open spec fn wf_SessionInitRsp(p: SessionInitRsp) -> bool { true }
    /// SessionInitRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionInitRsp(p: SessionInitRsp) -> Seq<u8> { seq![code_Status(p.status)] }
    pub open spec fn encok_SessionDeinitCmd(p: SessionDeinitCmd) -> bool { true }
    pub open spec fn wf_SessionDeinitCmd(p: SessionDeinitCmd) -> bool { true }
    /// SessionDeinitCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionDeinitCmd(p: SessionDeinitCmd) -> Seq<u8> { u32le(p.session_token) }
    pub open spec fn encok_SessionDeinitRsp(p: SessionDeinitRsp) -> bool { true }
    pub open spec fn wf_SessionDeinitRsp(p: SessionDeinitRsp) -> bool { true }
    /// SessionDeinitRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionDeinitRsp(p: SessionDeinitRsp) -> Seq<u8> { seq![code_Status(p.status)] }
    pub open spec fn encok_SessionStatusNtf(p: SessionStatusNtf) -> bool { true }
    pub open spec fn wf_SessionStatusNtf(p: SessionStatusNtf) -> bool { true }
    /// SessionStatusNtf: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionStatusNtf(p: SessionStatusNtf) -> Seq<u8> { u32le(p.session_token) + seq![code_SessionState(p.session_state)] + u8le(p.reason_code) }
    pub open spec fn encok_AppConfigTlv(p: AppConfigTlv) -> bool { true }
    pub open spec fn wf_AppConfigTlv(p: AppConfigTlv) -> bool { p.v@.len() <= 255 }
    /// AppConfigTlv: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_AppConfigTlv(p: AppConfigTlv) -> Seq<u8> { seq![code_AppConfigTlvType(p.cfg_id)] + seq![p.v@.len() as u8] + p.v@ }
    pub open spec fn cat_AppConfigTlv(s: Seq<AppConfigTlv>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { cat_AppConfigTlv(s.drop_last()) + encp_AppConfigTlv(s.last()) }
    }
    pub proof fn lem_cat_AppConfigTlv(s: Seq<AppConfigTlv>, i: int)
        requires 0 <= i < s.len(),
        ensures cat_AppConfigTlv(s.subrange(0, i + 1)) == cat_AppConfigTlv(s.subrange(0, i)) + encp_AppConfigTlv(s[i]),
    { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
    pub proof fn lem_catpush_AppConfigTlv(s: Seq<AppConfigTlv>, x: AppConfigTlv)
        ensures cat_AppConfigTlv(s.push(x)) == cat_AppConfigTlv(s) + encp_AppConfigTlv(x),
    { assert(s.push(x).drop_last() =~= s); }
    pub open spec fn enc_AppConfigTlv(p: AppConfigTlv) -> Seq<u8> { encp_AppConfigTlv(p) }
    pub open spec fn encok_SessionSetAppConfigCmd(p: SessionSetAppConfigCmd) -> bool { true }
    pub open spec fn wf_SessionSetAppConfigCmd(p: SessionSetAppConfigCmd) -> bool { p.tlvs@.len() <= 255 && (forall|i: int| 0 <= i < p.tlvs@.len() ==> wf_AppConfigTlv(#[trigger] p.tlvs@[i])) }
    /// SessionSetAppConfigCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionSetAppConfigCmd(p: SessionSetAppConfigCmd) -> Seq<u8> { u32le(p.session_token) + seq![p.tlvs@.len() as u8] + cat_AppConfigTlv(p.tlvs@) }
    pub open spec fn encok_AppConfigStatus(p: AppConfigStatus) -> bool { true }
    pub open spec fn wf_AppConfigStatus(p: AppConfigStatus) -> bool { true }
    /// AppConfigStatus: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_AppConfigStatus(p: AppConfigStatus) -> Seq<u8> { seq![code_AppConfigTlvType(p.cfg_id)] + seq![code_Status(p.status)] }
    pub open spec fn cat_AppConfigStatus(s: Seq<AppConfigStatus>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { cat_AppConfigStatus(s.drop_last()) + encp_AppConfigStatus(s.last()) }
    }
    pub proof fn lem_cat_AppConfigStatus(s: Seq<AppConfigStatus>, i: int)
        requires 0 <= i < s.len(),
        ensures cat_AppConfigStatus(s.subrange(0, i + 1)) == cat_AppConfigStatus(s.subrange(0, i)) + encp_AppConfigStatus(s[i]),
    { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
    pub proof fn lem_catpush_AppConfigStatus(s: Seq<AppConfigStatus>, x: AppConfigStatus)
        ensures cat_AppConfigStatus(s.push(x)) == cat_AppConfigStatus(s) + encp_AppConfigStatus(x),
    { assert(s.push(x).drop_last() =~= s); }
    pub open spec fn enc_AppConfigStatus(p: AppConfigStatus) -> Seq<u8> { encp_AppConfigStatus(p) }
    pub open spec fn encok_SessionSetAppConfigRsp(p: SessionSetAppConfigRsp) -> bool { true }
    pub open spec fn wf_SessionSetAppConfigRsp(p: SessionSetAppConfigRsp) -> bool { p.cfg_status@.len() <= 255 && (forall|i: int| 0 <= i < p.cfg_status@.len() ==> wf_AppConfigStatus(#[trigger] p.cfg_status@[i])) }
    /// SessionSetAppConfigRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionSetAppConfigRsp(p: SessionSetAppConfigRsp) -> Seq<u8> { seq![code_Status(p.status)] + seq![p.cfg_status@.len() as u8] + cat_AppConfigStatus(p.cfg_status@) }
    pub open spec fn encok_SessionGetAppConfigCmd(p: SessionGetAppConfigCmd) -> bool { true }
    pub open spec fn wf_SessionGetAppConfigCmd(p: SessionGetAppConfigCmd) -> bool { p.app_cfg@.len() <= 255 }
    /// SessionGetAppConfigCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionGetAppConfigCmd(p: SessionGetAppConfigCmd) -> Seq<u8> { u32le(p.session_token) + seq![p.app_cfg@.len() as u8] + codes_AppConfigTlvType(p.app_cfg@) }
    pub open spec fn encok_SessionGetAppConfigRsp(p: SessionGetAppConfigRsp) -> bool { true }
    pub open spec fn wf_SessionGetAppConfigRsp(p: SessionGetAppConfigRsp) -> bool { p.tlvs@.len() <= 255 && (forall|i: int| 0 <= i < p.tlvs@.len() ==> wf_AppConfigTlv(#[trigger] p.tlvs@[i])) }
    /// SessionGetAppConfigRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionGetAppConfigRsp(p: SessionGetAppConfigRsp) -> Seq<u8> { seq![code_Status(p.status)] + seq![p.tlvs@.len() as u8] + cat_AppConfigTlv(p.tlvs@) }
    pub open spec fn encok_SessionGetCountCmd(p: SessionGetCountCmd) -> bool { true }
    pub open spec fn wf_SessionGetCountCmd(p: SessionGetCountCmd) -> bool { true }
    /// SessionGetCountCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionGetCountCmd(p: SessionGetCountCmd) -> Seq<u8> { Seq::empty() }
    pub open spec fn encok_SessionGetCountRsp(p: SessionGetCountRsp) -> bool { true }
    pub open spec fn wf_SessionGetCountRsp(p: SessionGetCountRsp) -> bool { true }
    /// SessionGetCountRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionGetCountRsp(p: SessionGetCountRsp) -> Seq<u8> { seq![code_Status(p.status)] + u8le(p.session_count) }
    pub open spec fn encok_SessionGetStateCmd(p: SessionGetStateCmd) -> bool { true }
    pub open spec fn wf_SessionGetStateCmd(p: SessionGetStateCmd) -> bool { true }
    /// SessionGetStateCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionGetStateCmd(p: SessionGetStateCmd) -> Seq<u8> { u32le(p.session_token) }
    pub open spec fn encok_SessionGetStateRsp(p: SessionGetStateRsp) -> bool { true }
    pub open spec fn wf_SessionGetStateRsp(p: SessionGetStateRsp) -> bool { true }
    /// SessionGetStateRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionGetStateRsp(p: SessionGetStateRsp) -> Seq<u8> { seq![code_Status(p.status)] + seq![code_SessionState(p.session_state)] }
    pub open spec fn encok_SessionUpdateDtAnchorRangingRoundsCmd(p: SessionUpdateDtAnchorRangingRoundsCmd) -> bool { true }
    pub open spec fn wf_SessionUpdateDtAnchorRangingRoundsCmd(p: SessionUpdateDtAnchorRangingRoundsCmd) -> bool { true }
    /// SessionUpdateDtAnchorRangingRoundsCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionUpdateDtAnchorRangingRoundsCmd(p: SessionUpdateDtAnchorRangingRoundsCmd) -> Seq<u8> { Seq::empty() }
    pub open spec fn encok_SessionUpdateDtAnchorRangingRoundsRsp(p: SessionUpdateDtAnchorRangingRoundsRsp) -> bool { true }
    pub open spec fn wf_SessionUpdateDtAnchorRangingRoundsRsp(p: SessionUpdateDtAnchorRangingRoundsRsp) -> bool { true }
    /// SessionUpdateDtAnchorRangingRoundsRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionUpdateDtAnchorRangingRoundsRsp(p: SessionUpdateDtAnchorRangingRoundsRsp) -> Seq<u8> { Seq::empty() }
    pub open spec fn encok_SessionUpdateDtTagRangingRoundsCmd(p: SessionUpdateDtTagRangingRoundsCmd) -> bool { true }
    pub open spec fn wf_SessionUpdateDtTagRangingRoundsCmd(p: SessionUpdateDtTagRangingRoundsCmd) -> bool { p.ranging_round_indexes@.len() <= 255 }
    /// SessionUpdateDtTagRangingRoundsCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionUpdateDtTagRangingRoundsCmd(p: SessionUpdateDtTagRangingRoundsCmd) -> Seq<u8> { u32le(p.session_token) + seq![p.ranging_round_indexes@.len() as u8] + p.ranging_round_indexes@ }
    pub open spec fn encok_SessionUpdateDtTagRangingRoundsRsp(p: SessionUpdateDtTagRangingRoundsRsp) -> bool { true }
    pub open spec fn wf_SessionUpdateDtTagRangingRoundsRsp(p: SessionUpdateDtTagRangingRoundsRsp) -> bool { p.ranging_round_indexes@.len() <= 255 }
    /// SessionUpdateDtTagRangingRoundsRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionUpdateDtTagRangingRoundsRsp(p: SessionUpdateDtTagRangingRoundsRsp) -> Seq<u8> { seq![code_Status(p.status)] + seq![p.ranging_round_indexes@.len() as u8] + p.ranging_round_indexes@ }
    pub open spec fn encok_Controlee(p: Controlee) -> bool { true }
    pub open spec fn wf_Controlee(p: Controlee) -> bool { true }
    /// Controlee: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_Controlee(p: Controlee) -> Seq<u8> { p.short_address@ + u32le(p.subsession_id) }
    pub open spec fn cat_Controlee(s: Seq<Controlee>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { cat_Controlee(s.drop_last()) + encp_Controlee(s.last()) }
    }
    pub proof fn lem_cat_Controlee(s: Seq<Controlee>, i: int)
        requires 0 <= i < s.len(),
        ensures cat_Controlee(s.subrange(0, i + 1)) == cat_Controlee(s.subrange(0, i)) + encp_Controlee(s[i]),
    { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
    pub proof fn lem_catpush_Controlee(s: Seq<Controlee>, x: Controlee)
        ensures cat_Controlee(s.push(x)) == cat_Controlee(s) + encp_Controlee(x),
    { assert(s.push(x).drop_last() =~= s); }
    pub open spec fn enc_Controlee(p: Controlee) -> Seq<u8> { encp_Controlee(p) }
    pub open spec fn encok_Controlee_V2_0_16_Byte_Version(p: Controlee_V2_0_16_Byte_Version) -> bool { true }
    pub open spec fn wf_Controlee_V2_0_16_Byte_Version(p: Controlee_V2_0_16_Byte_Version) -> bool { true }
    /// Controlee_V2_0_16_Byte_Version: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_Controlee_V2_0_16_Byte_Version(p: Controlee_V2_0_16_Byte_Version) -> Seq<u8> { p.short_address@ + u32le(p.subsession_id) + p.subsession_key@ }
    pub open spec fn cat_Controlee_V2_0_16_Byte_Version(s: Seq<Controlee_V2_0_16_Byte_Version>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { cat_Controlee_V2_0_16_Byte_Version(s.drop_last()) + encp_Controlee_V2_0_16_Byte_Version(s.last()) }
    }
    pub proof fn lem_cat_Controlee_V2_0_16_Byte_Version(s: Seq<Controlee_V2_0_16_Byte_Version>, i: int)
        requires 0 <= i < s.len(),
        ensures cat_Controlee_V2_0_16_Byte_Version(s.subrange(0, i + 1)) == cat_Controlee_V2_0_16_Byte_Version(s.subrange(0, i)) + encp_Controlee_V2_0_16_Byte_Version(s[i]),
    { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
    pub proof fn lem_catpush_Controlee_V2_0_16_Byte_Version(s: Seq<Controlee_V2_0_16_Byte_Version>, x: Controlee_V2_0_16_Byte_Version)
        ensures cat_Controlee_V2_0_16_Byte_Version(s.push(x)) == cat_Controlee_V2_0_16_Byte_Version(s) + encp_Controlee_V2_0_16_Byte_Version(x),
    { assert(s.push(x).drop_last() =~= s); }
    pub open spec fn enc_Controlee_V2_0_16_Byte_Version(p: Controlee_V2_0_16_Byte_Version) -> Seq<u8> { encp_Controlee_V2_0_16_Byte_Version(p) }
    pub open spec fn encok_Controlee_V2_0_32_Byte_Version(p: Controlee_V2_0_32_Byte_Version) -> bool { true }
    pub open spec fn wf_Controlee_V2_0_32_Byte_Version(p: Controlee_V2_0_32_Byte_Version) -> bool { true }
    /// Controlee_V2_0_32_Byte_Version: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_Controlee_V2_0_32_Byte_Version(p: Controlee_V2_0_32_Byte_Version) -> Seq<u8> { p.short_address@ + u32le(p.subsession_id) + p.subsession_key@ }
    pub open spec fn cat_Controlee_V2_0_32_Byte_Version(s: Seq<Controlee_V2_0_32_Byte_Version>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { cat_Controlee_V2_0_32_Byte_Version(s.drop_last()) + encp_Controlee_V2_0_32_Byte_Version(s.last()) }
    }
    pub proof fn lem_cat_Controlee_V2_0_32_Byte_Version(s: Seq<Controlee_V2_0_32_Byte_Version>, i: int)
        requires 0 <= i < s.len(),
        ensures cat_Controlee_V2_0_32_Byte_Version(s.subrange(0, i + 1)) == cat_Controlee_V2_0_32_Byte_Version(s.subrange(0, i)) + encp_Controlee_V2_0_32_Byte_Version(s[i]),
    { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
    pub proof fn lem_catpush_Controlee_V2_0_32_Byte_Version(s: Seq<Controlee_V2_0_32_Byte_Version>, x: Controlee_V2_0_32_Byte_Version)
        ensures cat_Controlee_V2_0_32_Byte_Version(s.push(x)) == cat_Controlee_V2_0_32_Byte_Version(s) + encp_Controlee_V2_0_32_Byte_Version(x),
    { assert(s.push(x).drop_last() =~= s); }
    pub open spec fn enc_Controlee_V2_0_32_Byte_Version(p: Controlee_V2_0_32_Byte_Version) -> Seq<u8> { encp_Controlee_V2_0_32_Byte_Version(p) }
    pub open spec fn encok_SessionUpdateControllerMulticastListCmd(p: SessionUpdateControllerMulticastListCmd) -> bool { true }
    pub open spec fn wf_SessionUpdateControllerMulticastListCmd(p: SessionUpdateControllerMulticastListCmd) -> bool { true }
    /// SessionUpdateControllerMulticastListCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionUpdateControllerMulticastListCmd(p: SessionUpdateControllerMulticastListCmd) -> Seq<u8> { u32le(p.session_token) + seq![code_UpdateMulticastListAction(p.action)] + p.payload@ }
    pub open spec fn encok_SessionUpdateControllerMulticastListCmdPayload(p: SessionUpdateControllerMulticastListCmdPayload) -> bool { true }
    pub open spec fn wf_SessionUpdateControllerMulticastListCmdPayload(p: SessionUpdateControllerMulticastListCmdPayload) -> bool { p.controlees@.len() <= 255 && (forall|i: int| 0 <= i < p.controlees@.len() ==> wf_Controlee(#[trigger] p.controlees@[i])) }
    /// SessionUpdateControllerMulticastListCmdPayload: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionUpdateControllerMulticastListCmdPayload(p: SessionUpdateControllerMulticastListCmdPayload) -> Seq<u8> { seq![p.controlees@.len() as u8] + cat_Controlee(p.controlees@) }
    pub open spec fn enc_SessionUpdateControllerMulticastListCmdPayload(p: SessionUpdateControllerMulticastListCmdPayload) -> Seq<u8> { encp_SessionUpdateControllerMulticastListCmdPayload(p) }
    pub open spec fn encok_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(p: SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload) -> bool { true }
    pub open spec fn wf_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(p: SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload) -> bool { p.controlees@.len() <= 255 && (forall|i: int| 0 <= i < p.controlees@.len() ==> wf_Controlee_V2_0_16_Byte_Version(#[trigger] p.controlees@[i])) }
    /// SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(p: SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload) -> Seq<u8> { seq![p.controlees@.len() as u8] + cat_Controlee_V2_0_16_Byte_Version(p.controlees@) }
    pub open spec fn enc_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(p: SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload) -> Seq<u8> { encp_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(p) }
    pub open spec fn encok_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(p: SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload) -> bool { true }
    pub open spec fn wf_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(p: SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload) -> bool { p.controlees@.len() <= 255 && (forall|i: int| 0 <= i < p.controlees@.len() ==> wf_Controlee_V2_0_32_Byte_Version(#[trigger] p.controlees@[i])) }
    /// SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(p: SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload) -> Seq<u8> { seq![p.controlees@.len() as u8] + cat_Controlee_V2_0_32_Byte_Version(p.controlees@) }
    pub open spec fn enc_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(p: SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload) -> Seq<u8> { encp_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(p) }
    pub open spec fn encok_SessionUpdateControllerMulticastListRsp(p: SessionUpdateControllerMulticastListRsp) -> bool { true }
    pub open spec fn wf_SessionUpdateControllerMulticastListRsp(p: SessionUpdateControllerMulticastListRsp) -> bool { p.controlee_status@.len() <= 255 && (forall|i: int| 0 <= i < p.controlee_status@.len() ==> wf_ControleeStatus(#[trigger] p.controlee_status@[i])) }
    /// SessionUpdateControllerMulticastListRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionUpdateControllerMulticastListRsp(p: SessionUpdateControllerMulticastListRsp) -> Seq<u8> { seq![code_Status(p.status)] + seq![p.controlee_status@.len() as u8] + cat_ControleeStatus(p.controlee_status@) }
    pub open spec fn encok_ControleeStatus(p: ControleeStatus) -> bool { true }
    pub open spec fn wf_ControleeStatus(p: ControleeStatus) -> bool { true }
    /// ControleeStatus: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_ControleeStatus(p: ControleeStatus) -> Seq<u8> { p.mac_address@ + seq![code_MulticastUpdateStatus(p.status)] }
    pub open spec fn cat_ControleeStatus(s: Seq<ControleeStatus>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { cat_ControleeStatus(s.drop_last()) + encp_ControleeStatus(s.last()) }
    }
    pub proof fn lem_cat_ControleeStatus(s: Seq<ControleeStatus>, i: int)
        requires 0 <= i < s.len(),
        ensures cat_ControleeStatus(s.subrange(0, i + 1)) == cat_ControleeStatus(s.subrange(0, i)) + encp_ControleeStatus(s[i]),
    { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
    pub proof fn lem_catpush_ControleeStatus(s: Seq<ControleeStatus>, x: ControleeStatus)
        ensures cat_ControleeStatus(s.push(x)) == cat_ControleeStatus(s) + encp_ControleeStatus(x),
    { assert(s.push(x).drop_last() =~= s); }
    pub open spec fn enc_ControleeStatus(p: ControleeStatus) -> Seq<u8> { encp_ControleeStatus(p) }
    pub open spec fn encok_SessionUpdateControllerMulticastListNtf(p: SessionUpdateControllerMulticastListNtf) -> bool { true }
    pub open spec fn wf_SessionUpdateControllerMulticastListNtf(p: SessionUpdateControllerMulticastListNtf) -> bool { p.controlee_status@.len() <= 255 && (forall|i: int| 0 <= i < p.controlee_status@.len() ==> wf_ControleeStatus(#[trigger] p.controlee_status@[i])) }
    /// SessionUpdateControllerMulticastListNtf: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionUpdateControllerMulticastListNtf(p: SessionUpdateControllerMulticastListNtf) -> Seq<u8> { u32le(p.session_token) + seq![p.controlee_status@.len() as u8] + cat_ControleeStatus(p.controlee_status@) }
    pub open spec fn encok_SessionDataCreditNtf(p: SessionDataCreditNtf) -> bool { true }
    pub open spec fn wf_SessionDataCreditNtf(p: SessionDataCreditNtf) -> bool { true }
    /// SessionDataCreditNtf: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionDataCreditNtf(p: SessionDataCreditNtf) -> Seq<u8> { u32le(p.session_token) + seq![code_CreditAvailability(p.credit_availability)] }
    pub open spec fn encok_SessionDataTransferStatusNtf(p: SessionDataTransferStatusNtf) -> bool { true }
    pub open spec fn wf_SessionDataTransferStatusNtf(p: SessionDataTransferStatusNtf) -> bool { true }
    /// SessionDataTransferStatusNtf: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionDataTransferStatusNtf(p: SessionDataTransferStatusNtf) -> Seq<u8> { u32le(p.session_token) + u8le(p.uci_sequence_number) + seq![code_DataTransferNtfStatusCode(p.status)] + u8le(p.tx_count) }
    pub open spec fn encok_SessionQueryMaxDataSizeInRangingCmd(p: SessionQueryMaxDataSizeInRangingCmd) -> bool { true }
    pub open spec fn wf_SessionQueryMaxDataSizeInRangingCmd(p: SessionQueryMaxDataSizeInRangingCmd) -> bool { true }
    /// SessionQueryMaxDataSizeInRangingCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionQueryMaxDataSizeInRangingCmd(p: SessionQueryMaxDataSizeInRangingCmd) -> Seq<u8> { u32le(p.session_token) }
    pub open spec fn encok_SessionQueryMaxDataSizeInRangingRsp(p: SessionQueryMaxDataSizeInRangingRsp) -> bool { true }
    pub open spec fn wf_SessionQueryMaxDataSizeInRangingRsp(p: SessionQueryMaxDataSizeInRangingRsp) -> bool { true }
    /// SessionQueryMaxDataSizeInRangingRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionQueryMaxDataSizeInRangingRsp(p: SessionQueryMaxDataSizeInRangingRsp) -> Seq<u8> { u32le(p.session_token) + u16le(p.max_data_size) }
    pub open spec fn encok_SessionStartCmd(p: SessionStartCmd) -> bool { true }
    pub open spec fn wf_SessionStartCmd(p: SessionStartCmd) -> bool { true }
    /// SessionStartCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionStartCmd(p: SessionStartCmd) -> Seq<u8> { u32le(p.session_id) }
    pub open spec fn encok_SessionStartRsp(p: SessionStartRsp) -> bool { true }
    pub open spec fn wf_SessionStartRsp(p: SessionStartRsp) -> bool { true }
    /// SessionStartRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionStartRsp(p: SessionStartRsp) -> Seq<u8> { seq![code_Status(p.status)] }
    pub open spec fn encok_ShortAddressTwoWayRangingMeasurement(p: ShortAddressTwoWayRangingMeasurement) -> bool { true }
    pub open spec fn wf_ShortAddressTwoWayRangingMeasurement(p: ShortAddressTwoWayRangingMeasurement) -> bool { true }
    /// ShortAddressTwoWayRangingMeasurement: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_ShortAddressTwoWayRangingMeasurement(p: ShortAddressTwoWayRangingMeasurement) -> Seq<u8> { u16le(p.mac_address) + seq![code_Status(p.status)] + u8le(p.nlos) + u16le(p.distance) + u16le(p.aoa_azimuth) + u8le(p.aoa_azimuth_fom) + u16le(p.aoa_elevation) + u8le(p.aoa_elevation_fom) + u16le(p.aoa_destination_azimuth) + u8le(p.aoa_destination_azimuth_fom) + u16le(p.aoa_destination_elevation) + u8le(p.aoa_destination_elevation_fom) + u8le(p.slot_index) + u8le(p.rssi) + Seq::new(8, |i: int| 0u8) + Seq::new(3, |i: int| 0u8) }
    pub open spec fn cat_ShortAddressTwoWayRangingMeasurement(s: Seq<ShortAddressTwoWayRangingMeasurement>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { cat_ShortAddressTwoWayRangingMeasurement(s.drop_last()) + encp_ShortAddressTwoWayRangingMeasurement(s.last()) }
    }
    pub proof fn lem_cat_ShortAddressTwoWayRangingMeasurement(s: Seq<ShortAddressTwoWayRangingMeasurement>, i: int)
        requires 0 <= i < s.len(),
        ensures cat_ShortAddressTwoWayRangingMeasurement(s.subrange(0, i + 1)) == cat_ShortAddressTwoWayRangingMeasurement(s.subrange(0, i)) + encp_ShortAddressTwoWayRangingMeasurement(s[i]),
    { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
    pub proof fn lem_catpush_ShortAddressTwoWayRangingMeasurement(s: Seq<ShortAddressTwoWayRangingMeasurement>, x: ShortAddressTwoWayRangingMeasurement)
        ensures cat_ShortAddressTwoWayRangingMeasurement(s.push(x)) == cat_ShortAddressTwoWayRangingMeasurement(s) + encp_ShortAddressTwoWayRangingMeasurement(x),
    { assert(s.push(x).drop_last() =~= s); }
    pub open spec fn enc_ShortAddressTwoWayRangingMeasurement(p: ShortAddressTwoWayRangingMeasurement) -> Seq<u8> { encp_ShortAddressTwoWayRangingMeasurement(p) }
    pub open spec fn encok_SessionInfoNtf(p: SessionInfoNtf) -> bool { true }
    pub open spec fn wf_SessionInfoNtf(p: SessionInfoNtf) -> bool { true }
    /// SessionInfoNtf: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionInfoNtf(p: SessionInfoNtf) -> Seq<u8> { u32le(p.sequence_number) + u32le(p.session_token) + u8le(p.rcr_indicator) + u32le(p.current_ranging_interval) + seq![code_RangingMeasurementType(p.ranging_measurement_type)] + Seq::new(1, |i: int| 0u8) + seq![code_MacAddressIndicator(p.mac_address_indicator)] + Seq::new(8, |i: int| 0u8) + p.payload@ }
    pub open spec fn encok_ShortMacTwoWaySessionInfoNtf(p: ShortMacTwoWaySessionInfoNtf) -> bool { true }
    pub open spec fn wf_ShortMacTwoWaySessionInfoNtf(p: ShortMacTwoWaySessionInfoNtf) -> bool { p.two_way_ranging_measurements@.len() <= 255 && (forall|i: int| 0 <= i < p.two_way_ranging_measurements@.len() ==> wf_ShortAddressTwoWayRangingMeasurement(#[trigger] p.two_way_ranging_measurements@[i])) }
    /// ShortMacTwoWaySessionInfoNtf: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_ShortMacTwoWaySessionInfoNtf(p: ShortMacTwoWaySessionInfoNtf) -> Seq<u8> { seq![p.two_way_ranging_measurements@.len() as u8] + cat_ShortAddressTwoWayRangingMeasurement(p.two_way_ranging_measurements@) + p.vendor_data@ }
    pub open spec fn encok_SessionStopCmd(p: SessionStopCmd) -> bool { true }
    pub open spec fn wf_SessionStopCmd(p: SessionStopCmd) -> bool { true }
    /// SessionStopCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionStopCmd(p: SessionStopCmd) -> Seq<u8> { u32le(p.session_id) }
    pub open spec fn encok_SessionStopRsp(p: SessionStopRsp) -> bool { true }
    pub open spec fn wf_SessionStopRsp(p: SessionStopRsp) -> bool { true }
    /// SessionStopRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionStopRsp(p: SessionStopRsp) -> Seq<u8> { seq![code_Status(p.status)] }
    pub open spec fn encok_SessionGetRangingCountCmd(p: SessionGetRangingCountCmd) -> bool { true }
    pub open spec fn wf_SessionGetRangingCountCmd(p: SessionGetRangingCountCmd) -> bool { true }
    /// SessionGetRangingCountCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionGetRangingCountCmd(p: SessionGetRangingCountCmd) -> Seq<u8> { u32le(p.session_id) }
    pub open spec fn encok_SessionGetRangingCountRsp(p: SessionGetRangingCountRsp) -> bool { true }
    pub open spec fn wf_SessionGetRangingCountRsp(p: SessionGetRangingCountRsp) -> bool { true }
    /// SessionGetRangingCountRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_SessionGetRangingCountRsp(p: SessionGetRangingCountRsp) -> Seq<u8> { seq![code_Status(p.status)] + u32le(p.count) }
    pub open spec fn encok_AndroidGetPowerStatsCmd(p: AndroidGetPowerStatsCmd) -> bool { true }
    pub open spec fn wf_AndroidGetPowerStatsCmd(p: AndroidGetPowerStatsCmd) -> bool { true }
    /// AndroidGetPowerStatsCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_AndroidGetPowerStatsCmd(p: AndroidGetPowerStatsCmd) -> Seq<u8> { Seq::empty() }
    pub open spec fn encok_PowerStats(p: PowerStats) -> bool { true }
    pub open spec fn wf_PowerStats(p: PowerStats) -> bool { true }
    /// PowerStats: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_PowerStats(p: PowerStats) -> Seq<u8> { seq![code_Status(p.status)] + u32le(p.idle_time_ms) + u32le(p.tx_time_ms) + u32le(p.rx_time_ms) + u32le(p.total_wake_count) }
    pub open spec fn enc_PowerStats(p: PowerStats) -> Seq<u8> { encp_PowerStats(p) }
    pub open spec fn encok_AndroidGetPowerStatsRsp(p: AndroidGetPowerStatsRsp) -> bool { true }
    pub open spec fn wf_AndroidGetPowerStatsRsp(p: AndroidGetPowerStatsRsp) -> bool { true }
    /// AndroidGetPowerStatsRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_AndroidGetPowerStatsRsp(p: AndroidGetPowerStatsRsp) -> Seq<u8> { enc_PowerStats(p.stats) }
    pub open spec fn encok_AndroidSetCountryCodeCmd(p: AndroidSetCountryCodeCmd) -> bool { true }
    pub open spec fn wf_AndroidSetCountryCodeCmd(p: AndroidSetCountryCodeCmd) -> bool { true }
    /// AndroidSetCountryCodeCmd: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_AndroidSetCountryCodeCmd(p: AndroidSetCountryCodeCmd) -> Seq<u8> { p.country_code@ }
    pub open spec fn encok_AndroidSetCountryCodeRsp(p: AndroidSetCountryCodeRsp) -> bool { true }
    pub open spec fn wf_AndroidSetCountryCodeRsp(p: AndroidSetCountryCodeRsp) -> bool { true }
    /// AndroidSetCountryCodeRsp: the bytes of its own fields.
    #[verifier::opaque]
    pub open spec fn encp_AndroidSetCountryCodeRsp(p: AndroidSetCountryCodeRsp) -> Seq<u8> { seq![code_Status(p.status)] }
    /// RangingRoundControl: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_RangingRoundControl(p: RangingRoundControl) -> Seq<u8> { encp_RangingRoundControl(p) }
    /// ResultReportConfig: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_ResultReportConfig(p: ResultReportConfig) -> Seq<u8> { encp_ResultReportConfig(p) }
    /// CommonPacketHeader: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CommonPacketHeader(p: CommonPacketHeader) -> Seq<u8> { encp_CommonPacketHeader(p) }
    /// ControlPacketHeader: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_ControlPacketHeader(p: ControlPacketHeader) -> Seq<u8> { encp_ControlPacketHeader(p) }
    /// DataPacketHeader: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_DataPacketHeader(p: DataPacketHeader) -> Seq<u8> { encp_DataPacketHeader(p) }
    /// ControlPacket: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_ControlPacket(p: ControlPacket) -> Seq<u8> { encp_ControlPacket(p) }
    /// DataPacket: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_DataPacket(p: DataPacket) -> Seq<u8> { encp_DataPacket(p) }
    /// DataMessageSnd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_DataMessageSnd(p: DataMessageSnd) -> Seq<u8> { seq![(code_DataPacketFormat(DataPacketFormat::DataSnd) | (code_PacketBoundaryFlag(p.pbf) << 4) | (code_MessageType(MessageType::Data) << 5)) as u8] + Seq::new(1, |i: int| 0u8) + Seq::new(2, |i: int| 0u8) + encp_DataMessageSnd(p) }
    /// DataMessageRcv: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_DataMessageRcv(p: DataMessageRcv) -> Seq<u8> { seq![(code_DataPacketFormat(DataPacketFormat::DataRcv) | (code_PacketBoundaryFlag(p.pbf) << 4) | (code_MessageType(MessageType::Data) << 5)) as u8] + Seq::new(1, |i: int| 0u8) + Seq::new(2, |i: int| 0u8) + encp_DataMessageRcv(p) }
    /// CorePacket: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CorePacket(p: CorePacket) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(p.mt) << 5)) as u8] + encp_CorePacket(p) }
    /// SessionConfigPacket: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionConfigPacket(p: SessionConfigPacket) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(p.mt) << 5)) as u8] + encp_SessionConfigPacket(p) }
    /// SessionControlPacket: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionControlPacket(p: SessionControlPacket) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(p.mt) << 5)) as u8] + encp_SessionControlPacket(p) }
    /// AndroidPacket: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_AndroidPacket(p: AndroidPacket) -> Seq<u8> { seq![(code_GroupId(GroupId::VendorAndroid) | (code_MessageType(p.mt) << 5)) as u8] + encp_AndroidPacket(p) }
    /// CoreDeviceResetCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreDeviceResetCmd(p: CoreDeviceResetCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::DeviceReset)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreDeviceResetCmd(p) }
    /// CoreDeviceResetRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreDeviceResetRsp(p: CoreDeviceResetRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::DeviceReset)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreDeviceResetRsp(p) }
    /// CoreDeviceStatusNtf: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreDeviceStatusNtf(p: CoreDeviceStatusNtf) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Notification) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::DeviceStatus)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreDeviceStatusNtf(p) }
    /// CoreGetDeviceInfoCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreGetDeviceInfoCmd(p: CoreGetDeviceInfoCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::GetDeviceInfo)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreGetDeviceInfoCmd(p) }
    /// CoreGetDeviceInfoRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreGetDeviceInfoRsp(p: CoreGetDeviceInfoRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::GetDeviceInfo)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreGetDeviceInfoRsp(p) }
    /// CoreGetCapsInfoCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreGetCapsInfoCmd(p: CoreGetCapsInfoCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::GetCapsInfo)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreGetCapsInfoCmd(p) }
    /// CapTlv: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CapTlv(p: CapTlv) -> Seq<u8> { encp_CapTlv(p) }
    /// CoreGetCapsInfoRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreGetCapsInfoRsp(p: CoreGetCapsInfoRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::GetCapsInfo)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreGetCapsInfoRsp(p) }
    /// ConfigParameter: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_ConfigParameter(p: ConfigParameter) -> Seq<u8> { encp_ConfigParameter(p) }
    /// CoreSetConfigCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreSetConfigCmd(p: CoreSetConfigCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::SetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreSetConfigCmd(p) }
    /// ConfigParameterStatus: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_ConfigParameterStatus(p: ConfigParameterStatus) -> Seq<u8> { encp_ConfigParameterStatus(p) }
    /// CoreSetConfigRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreSetConfigRsp(p: CoreSetConfigRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::SetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreSetConfigRsp(p) }
    /// CoreGetConfigCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreGetConfigCmd(p: CoreGetConfigCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::GetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreGetConfigCmd(p) }
    /// CoreGetConfigRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreGetConfigRsp(p: CoreGetConfigRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::GetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreGetConfigRsp(p) }
    /// CoreGenericErrorNtf: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreGenericErrorNtf(p: CoreGenericErrorNtf) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Notification) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::GenericError)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreGenericErrorNtf(p) }
    /// CoreQueryTimeStampCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreQueryTimeStampCmd(p: CoreQueryTimeStampCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::QueryUwbsTimestamp)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreQueryTimeStampCmd(p) }
    /// CoreQueryTimeStampRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_CoreQueryTimeStampRsp(p: CoreQueryTimeStampRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::Core) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_CoreOpcodeId(CoreOpcodeId::QueryUwbsTimestamp)) as u8] + Seq::new(2, |i: int| 0u8) + encp_CoreQueryTimeStampRsp(p) }
    /// SessionInitCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionInitCmd(p: SessionInitCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::Init)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionInitCmd(p) }
    /// SessionInitRsp_V2: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionInitRsp_V2(p: SessionInitRsp_V2) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::Init)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionInitRsp_V2(p) }
    /// SessionInitRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionInitRsp(p: SessionInitRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::Init)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionInitRsp(p) }
    /// SessionDeinitCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionDeinitCmd(p: SessionDeinitCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::Deinit)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionDeinitCmd(p) }
    /// SessionDeinitRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionDeinitRsp(p: SessionDeinitRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::Deinit)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionDeinitRsp(p) }
    /// SessionStatusNtf: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionStatusNtf(p: SessionStatusNtf) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Notification) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::Status)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionStatusNtf(p) }
    /// AppConfigTlv: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_AppConfigTlv(p: AppConfigTlv) -> Seq<u8> { encp_AppConfigTlv(p) }
    /// SessionSetAppConfigCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionSetAppConfigCmd(p: SessionSetAppConfigCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::SetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionSetAppConfigCmd(p) }
    /// AppConfigStatus: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_AppConfigStatus(p: AppConfigStatus) -> Seq<u8> { encp_AppConfigStatus(p) }
    /// SessionSetAppConfigRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionSetAppConfigRsp(p: SessionSetAppConfigRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::SetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionSetAppConfigRsp(p) }
    /// SessionGetAppConfigCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionGetAppConfigCmd(p: SessionGetAppConfigCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionGetAppConfigCmd(p) }
    /// SessionGetAppConfigRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionGetAppConfigRsp(p: SessionGetAppConfigRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionGetAppConfigRsp(p) }
    /// SessionGetCountCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionGetCountCmd(p: SessionGetCountCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetCount)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionGetCountCmd(p) }
    /// SessionGetCountRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionGetCountRsp(p: SessionGetCountRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetCount)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionGetCountRsp(p) }
    /// SessionGetStateCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionGetStateCmd(p: SessionGetStateCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetState)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionGetStateCmd(p) }
    /// SessionGetStateRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionGetStateRsp(p: SessionGetStateRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetState)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionGetStateRsp(p) }
    /// SessionUpdateDtAnchorRangingRoundsCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionUpdateDtAnchorRangingRoundsCmd(p: SessionUpdateDtAnchorRangingRoundsCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtAnchorRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionUpdateDtAnchorRangingRoundsCmd(p) }
    /// SessionUpdateDtAnchorRangingRoundsRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionUpdateDtAnchorRangingRoundsRsp(p: SessionUpdateDtAnchorRangingRoundsRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtAnchorRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionUpdateDtAnchorRangingRoundsRsp(p) }
    /// SessionUpdateDtTagRangingRoundsCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionUpdateDtTagRangingRoundsCmd(p: SessionUpdateDtTagRangingRoundsCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtTagRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionUpdateDtTagRangingRoundsCmd(p) }
    /// SessionUpdateDtTagRangingRoundsRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionUpdateDtTagRangingRoundsRsp(p: SessionUpdateDtTagRangingRoundsRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtTagRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionUpdateDtTagRangingRoundsRsp(p) }
    /// Controlee: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_Controlee(p: Controlee) -> Seq<u8> { encp_Controlee(p) }
    /// Controlee_V2_0_16_Byte_Version: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_Controlee_V2_0_16_Byte_Version(p: Controlee_V2_0_16_Byte_Version) -> Seq<u8> { encp_Controlee_V2_0_16_Byte_Version(p) }
    /// Controlee_V2_0_32_Byte_Version: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_Controlee_V2_0_32_Byte_Version(p: Controlee_V2_0_32_Byte_Version) -> Seq<u8> { encp_Controlee_V2_0_32_Byte_Version(p) }
    /// SessionUpdateControllerMulticastListCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionUpdateControllerMulticastListCmd(p: SessionUpdateControllerMulticastListCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateControllerMulticastList)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionUpdateControllerMulticastListCmd(p) }
    /// SessionUpdateControllerMulticastListCmdPayload: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionUpdateControllerMulticastListCmdPayload(p: SessionUpdateControllerMulticastListCmdPayload) -> Seq<u8> { encp_SessionUpdateControllerMulticastListCmdPayload(p) }
    /// SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(p: SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload) -> Seq<u8> { encp_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(p) }
    /// SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(p: SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload) -> Seq<u8> { encp_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(p) }
    /// SessionUpdateControllerMulticastListRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionUpdateControllerMulticastListRsp(p: SessionUpdateControllerMulticastListRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateControllerMulticastList)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionUpdateControllerMulticastListRsp(p) }
    /// ControleeStatus: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_ControleeStatus(p: ControleeStatus) -> Seq<u8> { encp_ControleeStatus(p) }
    /// SessionUpdateControllerMulticastListNtf: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionUpdateControllerMulticastListNtf(p: SessionUpdateControllerMulticastListNtf) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Notification) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateControllerMulticastList)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionUpdateControllerMulticastListNtf(p) }
    /// SessionDataCreditNtf: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionDataCreditNtf(p: SessionDataCreditNtf) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(MessageType::Notification) << 5)) as u8] + seq![(code_SessionControlOpcodeId(SessionControlOpcodeId::DataCredit)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionDataCreditNtf(p) }
    /// SessionDataTransferStatusNtf: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionDataTransferStatusNtf(p: SessionDataTransferStatusNtf) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(MessageType::Notification) << 5)) as u8] + seq![(code_SessionControlOpcodeId(SessionControlOpcodeId::DataTransferStatus)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionDataTransferStatusNtf(p) }
    /// SessionQueryMaxDataSizeInRangingCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionQueryMaxDataSizeInRangingCmd(p: SessionQueryMaxDataSizeInRangingCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::QueryDataSizeInRanging)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionQueryMaxDataSizeInRangingCmd(p) }
    /// SessionQueryMaxDataSizeInRangingRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionQueryMaxDataSizeInRangingRsp(p: SessionQueryMaxDataSizeInRangingRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionConfig) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionConfigOpcodeId(SessionConfigOpcodeId::QueryDataSizeInRanging)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionQueryMaxDataSizeInRangingRsp(p) }
    /// SessionStartCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionStartCmd(p: SessionStartCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionStartCmd(p) }
    /// SessionStartRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionStartRsp(p: SessionStartRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionStartRsp(p) }
    /// ShortAddressTwoWayRangingMeasurement: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_ShortAddressTwoWayRangingMeasurement(p: ShortAddressTwoWayRangingMeasurement) -> Seq<u8> { encp_ShortAddressTwoWayRangingMeasurement(p) }
    /// SessionInfoNtf: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionInfoNtf(p: SessionInfoNtf) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(MessageType::Notification) << 5)) as u8] + seq![(code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionInfoNtf(p) }
    /// ShortMacTwoWaySessionInfoNtf: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_ShortMacTwoWaySessionInfoNtf(p: ShortMacTwoWaySessionInfoNtf) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(MessageType::Notification) << 5)) as u8] + seq![(code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + u32le(p.sequence_number) + u32le(p.session_token) + u8le(p.rcr_indicator) + u32le(p.current_ranging_interval) + seq![code_RangingMeasurementType(RangingMeasurementType::TwoWay)] + Seq::new(1, |i: int| 0u8) + seq![code_MacAddressIndicator(MacAddressIndicator::ShortAddress)] + Seq::new(8, |i: int| 0u8) + encp_ShortMacTwoWaySessionInfoNtf(p) }
    /// SessionStopCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionStopCmd(p: SessionStopCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionControlOpcodeId(SessionControlOpcodeId::Stop)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionStopCmd(p) }
    /// SessionStopRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionStopRsp(p: SessionStopRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionControlOpcodeId(SessionControlOpcodeId::Stop)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionStopRsp(p) }
    /// SessionGetRangingCountCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionGetRangingCountCmd(p: SessionGetRangingCountCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_SessionControlOpcodeId(SessionControlOpcodeId::GetRangingCount)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionGetRangingCountCmd(p) }
    /// SessionGetRangingCountRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_SessionGetRangingCountRsp(p: SessionGetRangingCountRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::SessionControl) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_SessionControlOpcodeId(SessionControlOpcodeId::GetRangingCount)) as u8] + Seq::new(2, |i: int| 0u8) + encp_SessionGetRangingCountRsp(p) }
    /// AndroidGetPowerStatsCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_AndroidGetPowerStatsCmd(p: AndroidGetPowerStatsCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::VendorAndroid) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_AndroidOpcodeId(AndroidOpcodeId::GetPowerStats)) as u8] + Seq::new(2, |i: int| 0u8) + encp_AndroidGetPowerStatsCmd(p) }
    /// PowerStats: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_PowerStats(p: PowerStats) -> Seq<u8> { encp_PowerStats(p) }
    /// AndroidGetPowerStatsRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_AndroidGetPowerStatsRsp(p: AndroidGetPowerStatsRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::VendorAndroid) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_AndroidOpcodeId(AndroidOpcodeId::GetPowerStats)) as u8] + Seq::new(2, |i: int| 0u8) + encp_AndroidGetPowerStatsRsp(p) }
    /// AndroidSetCountryCodeCmd: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_AndroidSetCountryCodeCmd(p: AndroidSetCountryCodeCmd) -> Seq<u8> { seq![(code_GroupId(GroupId::VendorAndroid) | (code_MessageType(MessageType::Command) << 5)) as u8] + seq![(code_AndroidOpcodeId(AndroidOpcodeId::SetCountryCode)) as u8] + Seq::new(2, |i: int| 0u8) + encp_AndroidSetCountryCodeCmd(p) }
    /// AndroidSetCountryCodeRsp: the whole packet.
    #[verifier::opaque]
    pub open spec fn encf_AndroidSetCountryCodeRsp(p: AndroidSetCountryCodeRsp) -> Seq<u8> { seq![(code_GroupId(GroupId::VendorAndroid) | (code_MessageType(MessageType::Response) << 5)) as u8] + seq![(code_AndroidOpcodeId(AndroidOpcodeId::SetCountryCode)) as u8] + Seq::new(2, |i: int| 0u8) + encp_AndroidSetCountryCodeRsp(p) }
    // decoding
    /// b starts with the bytes of a CapTlv.
    pub open spec fn pre_CapTlv(b: Seq<u8>) -> bool { b.len() >= 1 && of_CapTlvType(b[0]) is Some && b.len() >= 2 && b.len() >= 2 + (b[1]) as int }
    pub open spec fn len_CapTlv(b: Seq<u8>) -> int { 2 + (b[1]) as int }
    /// b is exactly the bytes of a CapTlv.
    pub open spec fn val_CapTlv(b: Seq<u8>) -> bool { pre_CapTlv(b) && b.len() == len_CapTlv(b) }
    /// The number of bytes of n consecutive CapTlv at the start of b, or -1.
    pub open spec fn lens_CapTlv(n: int, b: Seq<u8>) -> int decreases n {
        if n <= 0 { 0 } else if !pre_CapTlv(b) { -1 } else {
            let t = lens_CapTlv(n - 1, b.subrange(len_CapTlv(b), b.len() as int));
            if t < 0 { -1 } else { len_CapTlv(b) + t }
        }
    }
    /// b starts with the bytes of a ConfigParameter.
    pub open spec fn pre_ConfigParameter(b: Seq<u8>) -> bool { b.len() >= 1 && of_ConfigParameterId(b[0]) is Some && b.len() >= 2 && b.len() >= 2 + (b[1]) as int }
    pub open spec fn len_ConfigParameter(b: Seq<u8>) -> int { 2 + (b[1]) as int }
    /// b is exactly the bytes of a ConfigParameter.
    pub open spec fn val_ConfigParameter(b: Seq<u8>) -> bool { pre_ConfigParameter(b) && b.len() == len_ConfigParameter(b) }
    /// The number of bytes of n consecutive ConfigParameter at the start of b, or -1.
    pub open spec fn lens_ConfigParameter(n: int, b: Seq<u8>) -> int decreases n {
        if n <= 0 { 0 } else if !pre_ConfigParameter(b) { -1 } else {
            let t = lens_ConfigParameter(n - 1, b.subrange(len_ConfigParameter(b), b.len() as int));
            if t < 0 { -1 } else { len_ConfigParameter(b) + t }
        }
    }
    /// b starts with the bytes of a ConfigParameterStatus.
    pub open spec fn pre_ConfigParameterStatus(b: Seq<u8>) -> bool { b.len() >= 1 && of_ConfigParameterId(b[0]) is Some && b.len() >= 2 && of_Status(b[1]) is Some }
    pub open spec fn len_ConfigParameterStatus(b: Seq<u8>) -> int { 2 }
    /// b is exactly the bytes of a ConfigParameterStatus.
    pub open spec fn val_ConfigParameterStatus(b: Seq<u8>) -> bool { pre_ConfigParameterStatus(b) && b.len() == len_ConfigParameterStatus(b) }
    /// The number of bytes of n consecutive ConfigParameterStatus at the start of b, or -1.
    pub open spec fn lens_ConfigParameterStatus(n: int, b: Seq<u8>) -> int decreases n {
        if n <= 0 { 0 } else if !pre_ConfigParameterStatus(b) { -1 } else {
            let t = lens_ConfigParameterStatus(n - 1, b.subrange(len_ConfigParameterStatus(b), b.len() as int));
            if t < 0 { -1 } else { len_ConfigParameterStatus(b) + t }
        }
    }
    /// b starts with the bytes of a AppConfigTlv.
    pub open spec fn pre_AppConfigTlv(b: Seq<u8>) -> bool { b.len() >= 1 && of_AppConfigTlvType(b[0]) is Some && b.len() >= 2 && b.len() >= 2 + (b[1]) as int }
    pub open spec fn len_AppConfigTlv(b: Seq<u8>) -> int { 2 + (b[1]) as int }
    /// b is exactly the bytes of a AppConfigTlv.
    pub open spec fn val_AppConfigTlv(b: Seq<u8>) -> bool { pre_AppConfigTlv(b) && b.len() == len_AppConfigTlv(b) }
    /// The number of bytes of n consecutive AppConfigTlv at the start of b, or -1.
    pub open spec fn lens_AppConfigTlv(n: int, b: Seq<u8>) -> int decreases n {
        if n <= 0 { 0 } else if !pre_AppConfigTlv(b) { -1 } else {
            let t = lens_AppConfigTlv(n - 1, b.subrange(len_AppConfigTlv(b), b.len() as int));
            if t < 0 { -1 } else { len_AppConfigTlv(b) + t }
        }
    }
    /// b starts with the bytes of a AppConfigStatus.
    pub open spec fn pre_AppConfigStatus(b: Seq<u8>) -> bool { b.len() >= 1 && of_AppConfigTlvType(b[0]) is Some && b.len() >= 2 && of_Status(b[1]) is Some }
    pub open spec fn len_AppConfigStatus(b: Seq<u8>) -> int { 2 }
    /// b is exactly the bytes of a AppConfigStatus.
    pub open spec fn val_AppConfigStatus(b: Seq<u8>) -> bool { pre_AppConfigStatus(b) && b.len() == len_AppConfigStatus(b) }
    /// The number of bytes of n consecutive AppConfigStatus at the start of b, or -1.
    pub open spec fn lens_AppConfigStatus(n: int, b: Seq<u8>) -> int decreases n {
        if n <= 0 { 0 } else if !pre_AppConfigStatus(b) { -1 } else {
            let t = lens_AppConfigStatus(n - 1, b.subrange(len_AppConfigStatus(b), b.len() as int));
            if t < 0 { -1 } else { len_AppConfigStatus(b) + t }
        }
    }
    /// b starts with the bytes of a Controlee.
    pub open spec fn pre_Controlee(b: Seq<u8>) -> bool { b.len() >= 2 && b.len() >= 6 }
    pub open spec fn len_Controlee(b: Seq<u8>) -> int { 6 }
    /// b is exactly the bytes of a Controlee.
    pub open spec fn val_Controlee(b: Seq<u8>) -> bool { pre_Controlee(b) && b.len() == len_Controlee(b) }
    /// The number of bytes of n consecutive Controlee at the start of b, or -1.
    pub open spec fn lens_Controlee(n: int, b: Seq<u8>) -> int decreases n {
        if n <= 0 { 0 } else if !pre_Controlee(b) { -1 } else {
            let t = lens_Controlee(n - 1, b.subrange(len_Controlee(b), b.len() as int));
            if t < 0 { -1 } else { len_Controlee(b) + t }
        }
    }
    /// b starts with the bytes of a Controlee_V2_0_16_Byte_Version.
    pub open spec fn pre_Controlee_V2_0_16_Byte_Version(b: Seq<u8>) -> bool { b.len() >= 2 && b.len() >= 6 && b.len() >= 22 }
    pub open spec fn len_Controlee_V2_0_16_Byte_Version(b: Seq<u8>) -> int { 22 }
    /// b is exactly the bytes of a Controlee_V2_0_16_Byte_Version.
    pub open spec fn val_Controlee_V2_0_16_Byte_Version(b: Seq<u8>) -> bool { pre_Controlee_V2_0_16_Byte_Version(b) && b.len() == len_Controlee_V2_0_16_Byte_Version(b) }
    /// The number of bytes of n consecutive Controlee_V2_0_16_Byte_Version at the start of b, or -1.
    pub open spec fn lens_Controlee_V2_0_16_Byte_Version(n: int, b: Seq<u8>) -> int decreases n {
        if n <= 0 { 0 } else if !pre_Controlee_V2_0_16_Byte_Version(b) { -1 } else {
            let t = lens_Controlee_V2_0_16_Byte_Version(n - 1, b.subrange(len_Controlee_V2_0_16_Byte_Version(b), b.len() as int));
            if t < 0 { -1 } else { len_Controlee_V2_0_16_Byte_Version(b) + t }
        }
    }
    /// b starts with the bytes of a Controlee_V2_0_32_Byte_Version.
    pub open spec fn pre_Controlee_V2_0_32_Byte_Version(b: Seq<u8>) -> bool { b.len() >= 2 && b.len() >= 6 && b.len() >= 38 }
    pub open spec fn len_Controlee_V2_0_32_Byte_Version(b: Seq<u8>) -> int { 38 }
    /// b is exactly the bytes of a Controlee_V2_0_32_Byte_Version.
    pub open spec fn val_Controlee_V2_0_32_Byte_Version(b: Seq<u8>) -> bool { pre_Controlee_V2_0_32_Byte_Version(b) && b.len() == len_Controlee_V2_0_32_Byte_Version(b) }
    /// The number of bytes of n consecutive Controlee_V2_0_32_Byte_Version at the start of b, or -1.
    pub open spec fn lens_Controlee_V2_0_32_Byte_Version(n: int, b: Seq<u8>) -> int decreases n {
        if n <= 0 { 0 } else if !pre_Controlee_V2_0_32_Byte_Version(b) { -1 } else {
            let t = lens_Controlee_V2_0_32_Byte_Version(n - 1, b.subrange(len_Controlee_V2_0_32_Byte_Version(b), b.len() as int));
            if t < 0 { -1 } else { len_Controlee_V2_0_32_Byte_Version(b) + t }
        }
    }
    /// b starts with the bytes of a ControleeStatus.
    pub open spec fn pre_ControleeStatus(b: Seq<u8>) -> bool { b.len() >= 2 && b.len() >= 3 && of_MulticastUpdateStatus(b[2]) is Some }
    pub open spec fn len_ControleeStatus(b: Seq<u8>) -> int { 3 }
    /// b is exactly the bytes of a ControleeStatus.
    pub open spec fn val_ControleeStatus(b: Seq<u8>) -> bool { pre_ControleeStatus(b) && b.len() == len_ControleeStatus(b) }
    /// The number of bytes of n consecutive ControleeStatus at the start of b, or -1.
    pub open spec fn lens_ControleeStatus(n: int, b: Seq<u8>) -> int decreases n {
        if n <= 0 { 0 } else if !pre_ControleeStatus(b) { -1 } else {
            let t = lens_ControleeStatus(n - 1, b.subrange(len_ControleeStatus(b), b.len() as int));
            if t < 0 { -1 } else { len_ControleeStatus(b) + t }
        }
    }
    /// b starts with the bytes of a DataMessageSnd.
    pub open spec fn pre_DataMessageSnd(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 12 && b.len() >= 14 && b.len() >= 16 && b.len() >= 16 + (le16(b.subrange(14, 16))) as int }
    pub open spec fn len_DataMessageSnd(b: Seq<u8>) -> int { 16 + (le16(b.subrange(14, 16))) as int }
    /// b is exactly the bytes of a DataMessageSnd.
    pub open spec fn val_DataMessageSnd(b: Seq<u8>) -> bool { pre_DataMessageSnd(b) && b.len() == len_DataMessageSnd(b) }
    /// b starts with the bytes of a DataMessageRcv.
    pub open spec fn pre_DataMessageRcv(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 5 && of_Status(b[4]) is Some && b.len() >= 13 && b.len() >= 15 && b.len() >= 17 && b.len() >= 17 + (le16(b.subrange(15, 17))) as int }
    pub open spec fn len_DataMessageRcv(b: Seq<u8>) -> int { 17 + (le16(b.subrange(15, 17))) as int }
    /// b is exactly the bytes of a DataMessageRcv.
    pub open spec fn val_DataMessageRcv(b: Seq<u8>) -> bool { pre_DataMessageRcv(b) && b.len() == len_DataMessageRcv(b) }
    /// b starts with the bytes of a CoreDeviceResetCmd.
    pub open spec fn pre_CoreDeviceResetCmd(b: Seq<u8>) -> bool { b.len() >= 1 && of_ResetConfig(b[0]) is Some }
    pub open spec fn len_CoreDeviceResetCmd(b: Seq<u8>) -> int { 1 }
    /// b is exactly the bytes of a CoreDeviceResetCmd.
    pub open spec fn val_CoreDeviceResetCmd(b: Seq<u8>) -> bool { pre_CoreDeviceResetCmd(b) && b.len() == len_CoreDeviceResetCmd(b) }
    /// b starts with the bytes of a CoreDeviceResetRsp.
    pub open spec fn pre_CoreDeviceResetRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some }
    pub open spec fn len_CoreDeviceResetRsp(b: Seq<u8>) -> int { 1 }
    /// b is exactly the bytes of a CoreDeviceResetRsp.
    pub open spec fn val_CoreDeviceResetRsp(b: Seq<u8>) -> bool { pre_CoreDeviceResetRsp(b) && b.len() == len_CoreDeviceResetRsp(b) }
    /// b starts with the bytes of a CoreDeviceStatusNtf.
    pub open spec fn pre_CoreDeviceStatusNtf(b: Seq<u8>) -> bool { b.len() >= 1 && of_DeviceState(b[0]) is Some }
    pub open spec fn len_CoreDeviceStatusNtf(b: Seq<u8>) -> int { 1 }
    /// b is exactly the bytes of a CoreDeviceStatusNtf.
    pub open spec fn val_CoreDeviceStatusNtf(b: Seq<u8>) -> bool { pre_CoreDeviceStatusNtf(b) && b.len() == len_CoreDeviceStatusNtf(b) }
    /// b starts with the bytes of a CoreGetDeviceInfoCmd.
    pub open spec fn pre_CoreGetDeviceInfoCmd(b: Seq<u8>) -> bool { true }
    pub open spec fn len_CoreGetDeviceInfoCmd(b: Seq<u8>) -> int { 0 }
    /// b is exactly the bytes of a CoreGetDeviceInfoCmd.
    pub open spec fn val_CoreGetDeviceInfoCmd(b: Seq<u8>) -> bool { pre_CoreGetDeviceInfoCmd(b) && b.len() == len_CoreGetDeviceInfoCmd(b) }
    /// b starts with the bytes of a CoreGetDeviceInfoRsp.
    pub open spec fn pre_CoreGetDeviceInfoRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 3 && b.len() >= 5 && b.len() >= 7 && b.len() >= 9 && b.len() >= 10 && b.len() >= 10 + (b[9]) as int }
    pub open spec fn len_CoreGetDeviceInfoRsp(b: Seq<u8>) -> int { 10 + (b[9]) as int }
    /// b is exactly the bytes of a CoreGetDeviceInfoRsp.
    pub open spec fn val_CoreGetDeviceInfoRsp(b: Seq<u8>) -> bool { pre_CoreGetDeviceInfoRsp(b) && b.len() == len_CoreGetDeviceInfoRsp(b) }
    /// b starts with the bytes of a CoreGetCapsInfoCmd.
    pub open spec fn pre_CoreGetCapsInfoCmd(b: Seq<u8>) -> bool { true }
    pub open spec fn len_CoreGetCapsInfoCmd(b: Seq<u8>) -> int { 0 }
    /// b is exactly the bytes of a CoreGetCapsInfoCmd.
    pub open spec fn val_CoreGetCapsInfoCmd(b: Seq<u8>) -> bool { pre_CoreGetCapsInfoCmd(b) && b.len() == len_CoreGetCapsInfoCmd(b) }
    /// b starts with the bytes of a CoreGetCapsInfoRsp.
    pub open spec fn pre_CoreGetCapsInfoRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 2 && lens_CapTlv((b[1]) as int, b.subrange(2, b.len() as int)) >= 0 }
    pub open spec fn len_CoreGetCapsInfoRsp(b: Seq<u8>) -> int { 2 + lens_CapTlv((b[1]) as int, b.subrange(2, b.len() as int)) }
    /// b is exactly the bytes of a CoreGetCapsInfoRsp.
    pub open spec fn val_CoreGetCapsInfoRsp(b: Seq<u8>) -> bool { pre_CoreGetCapsInfoRsp(b) && b.len() == len_CoreGetCapsInfoRsp(b) }
    /// b starts with the bytes of a CoreSetConfigCmd.
    pub open spec fn pre_CoreSetConfigCmd(b: Seq<u8>) -> bool { b.len() >= 1 && lens_ConfigParameter((b[0]) as int, b.subrange(1, b.len() as int)) >= 0 }
    pub open spec fn len_CoreSetConfigCmd(b: Seq<u8>) -> int { 1 + lens_ConfigParameter((b[0]) as int, b.subrange(1, b.len() as int)) }
    /// b is exactly the bytes of a CoreSetConfigCmd.
    pub open spec fn val_CoreSetConfigCmd(b: Seq<u8>) -> bool { pre_CoreSetConfigCmd(b) && b.len() == len_CoreSetConfigCmd(b) }
    /// b starts with the bytes of a CoreSetConfigRsp.
    pub open spec fn pre_CoreSetConfigRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 2 && lens_ConfigParameterStatus((b[1]) as int, b.subrange(2, b.len() as int)) >= 0 }
    pub open spec fn len_CoreSetConfigRsp(b: Seq<u8>) -> int { 2 + lens_ConfigParameterStatus((b[1]) as int, b.subrange(2, b.len() as int)) }
    /// b is exactly the bytes of a CoreSetConfigRsp.
    pub open spec fn val_CoreSetConfigRsp(b: Seq<u8>) -> bool { pre_CoreSetConfigRsp(b) && b.len() == len_CoreSetConfigRsp(b) }
    /// b starts with the bytes of a CoreGetConfigCmd.
    pub open spec fn pre_CoreGetConfigCmd(b: Seq<u8>) -> bool { b.len() >= 1 && b.len() >= 1 + (b[0]) as int && (forall|i: int| 0 <= i < (b[0]) as int ==> of_ConfigParameterId(#[trigger] b[1 + i]) is Some) }
    pub open spec fn len_CoreGetConfigCmd(b: Seq<u8>) -> int { 1 + (b[0]) as int }
    /// b is exactly the bytes of a CoreGetConfigCmd.
    pub open spec fn val_CoreGetConfigCmd(b: Seq<u8>) -> bool { pre_CoreGetConfigCmd(b) && b.len() == len_CoreGetConfigCmd(b) }
    /// b starts with the bytes of a CoreGetConfigRsp.
    pub open spec fn pre_CoreGetConfigRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 2 && lens_ConfigParameter((b[1]) as int, b.subrange(2, b.len() as int)) >= 0 }
    pub open spec fn len_CoreGetConfigRsp(b: Seq<u8>) -> int { 2 + lens_ConfigParameter((b[1]) as int, b.subrange(2, b.len() as int)) }
    /// b is exactly the bytes of a CoreGetConfigRsp.
    pub open spec fn val_CoreGetConfigRsp(b: Seq<u8>) -> bool { pre_CoreGetConfigRsp(b) && b.len() == len_CoreGetConfigRsp(b) }
    /// b starts with the bytes of a CoreGenericErrorNtf.
    pub open spec fn pre_CoreGenericErrorNtf(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some }
    pub open spec fn len_CoreGenericErrorNtf(b: Seq<u8>) -> int { 1 }
    /// b is exactly the bytes of a CoreGenericErrorNtf.
    pub open spec fn val_CoreGenericErrorNtf(b: Seq<u8>) -> bool { pre_CoreGenericErrorNtf(b) && b.len() == len_CoreGenericErrorNtf(b) }
    /// b starts with the bytes of a CoreQueryTimeStampCmd.
    pub open spec fn pre_CoreQueryTimeStampCmd(b: Seq<u8>) -> bool { true }
    pub open spec fn len_CoreQueryTimeStampCmd(b: Seq<u8>) -> int { 0 }
    /// b is exactly the bytes of a CoreQueryTimeStampCmd.
    pub open spec fn val_CoreQueryTimeStampCmd(b: Seq<u8>) -> bool { pre_CoreQueryTimeStampCmd(b) && b.len() == len_CoreQueryTimeStampCmd(b) }
    /// b starts with the bytes of a CoreQueryTimeStampRsp.
    pub open spec fn pre_CoreQueryTimeStampRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 9 }
    pub open spec fn len_CoreQueryTimeStampRsp(b: Seq<u8>) -> int { 9 }
    /// b is exactly the bytes of a CoreQueryTimeStampRsp.
    pub open spec fn val_CoreQueryTimeStampRsp(b: Seq<u8>) -> bool { pre_CoreQueryTimeStampRsp(b) && b.len() == len_CoreQueryTimeStampRsp(b) }
    /// b starts with the bytes of a SessionInitCmd.
    pub open spec fn pre_SessionInitCmd(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 5 && of_SessionType(b[4]) is Some }
    pub open spec fn len_SessionInitCmd(b: Seq<u8>) -> int { 5 }
    /// b is exactly the bytes of a SessionInitCmd.
    pub open spec fn val_SessionInitCmd(b: Seq<u8>) -> bool { pre_SessionInitCmd(b) && b.len() == len_SessionInitCmd(b) }
    /// b starts with the bytes of a SessionInitRsp_V2.
    pub open spec fn pre_SessionInitRsp_V2(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 5 }
    pub open spec fn len_SessionInitRsp_V2(b: Seq<u8>) -> int { 5 }
    /// b is exactly the bytes of a SessionInitRsp_V2.
    pub open spec fn val_SessionInitRsp_V2(b: Seq<u8>) -> bool { pre_SessionInitRsp_V2(b) && b.len() == len_SessionInitRsp_V2(b) }
    /// b starts with the bytes of a SessionInitRsp.
    pub open spec fn pre_SessionInitRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some }
    pub open spec fn len_SessionInitRsp(b: Seq<u8>) -> int { 1 }
    /// b is exactly the bytes of a SessionInitRsp.
    pub open spec fn val_SessionInitRsp(b: Seq<u8>) -> bool { pre_SessionInitRsp(b) && b.len() == len_SessionInitRsp(b) }
    /// b starts with the bytes of a SessionDeinitCmd.
    pub open spec fn pre_SessionDeinitCmd(b: Seq<u8>) -> bool { b.len() >= 4 }
    pub open spec fn len_SessionDeinitCmd(b: Seq<u8>) -> int { 4 }
    /// b is exactly the bytes of a SessionDeinitCmd.
    pub open spec fn val_SessionDeinitCmd(b: Seq<u8>) -> bool { pre_SessionDeinitCmd(b) && b.len() == len_SessionDeinitCmd(b) }
    /// b starts with the bytes of a SessionDeinitRsp.
    pub open spec fn pre_SessionDeinitRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some }
    pub open spec fn len_SessionDeinitRsp(b: Seq<u8>) -> int { 1 }
    /// b is exactly the bytes of a SessionDeinitRsp.
    pub open spec fn val_SessionDeinitRsp(b: Seq<u8>) -> bool { pre_SessionDeinitRsp(b) && b.len() == len_SessionDeinitRsp(b) }
    /// b starts with the bytes of a SessionStatusNtf.
    pub open spec fn pre_SessionStatusNtf(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 5 && of_SessionState(b[4]) is Some && b.len() >= 6 }
    pub open spec fn len_SessionStatusNtf(b: Seq<u8>) -> int { 6 }
    /// b is exactly the bytes of a SessionStatusNtf.
    pub open spec fn val_SessionStatusNtf(b: Seq<u8>) -> bool { pre_SessionStatusNtf(b) && b.len() == len_SessionStatusNtf(b) }
    /// b starts with the bytes of a SessionSetAppConfigCmd.
    pub open spec fn pre_SessionSetAppConfigCmd(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 5 && lens_AppConfigTlv((b[4]) as int, b.subrange(5, b.len() as int)) >= 0 }
    pub open spec fn len_SessionSetAppConfigCmd(b: Seq<u8>) -> int { 5 + lens_AppConfigTlv((b[4]) as int, b.subrange(5, b.len() as int)) }
    /// b is exactly the bytes of a SessionSetAppConfigCmd.
    pub open spec fn val_SessionSetAppConfigCmd(b: Seq<u8>) -> bool { pre_SessionSetAppConfigCmd(b) && b.len() == len_SessionSetAppConfigCmd(b) }
    /// b starts with the bytes of a SessionSetAppConfigRsp.
    pub open spec fn pre_SessionSetAppConfigRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 2 && lens_AppConfigStatus((b[1]) as int, b.subrange(2, b.len() as int)) >= 0 }
    pub open spec fn len_SessionSetAppConfigRsp(b: Seq<u8>) -> int { 2 + lens_AppConfigStatus((b[1]) as int, b.subrange(2, b.len() as int)) }
    /// b is exactly the bytes of a SessionSetAppConfigRsp.
    pub open spec fn val_SessionSetAppConfigRsp(b: Seq<u8>) -> bool { pre_SessionSetAppConfigRsp(b) && b.len() == len_SessionSetAppConfigRsp(b) }
    /// b starts with the bytes of a SessionGetAppConfigCmd.
    pub open spec fn pre_SessionGetAppConfigCmd(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 5 && b.len() >= 5 + (b[4]) as int && (forall|i: int| 0 <= i < (b[4]) as int ==> of_AppConfigTlvType(#[trigger] b[5 + i]) is Some) }
    pub open spec fn len_SessionGetAppConfigCmd(b: Seq<u8>) -> int { 5 + (b[4]) as int }
    /// b is exactly the bytes of a SessionGetAppConfigCmd.
    pub open spec fn val_SessionGetAppConfigCmd(b: Seq<u8>) -> bool { pre_SessionGetAppConfigCmd(b) && b.len() == len_SessionGetAppConfigCmd(b) }
    /// b starts with the bytes of a SessionGetAppConfigRsp.
    pub open spec fn pre_SessionGetAppConfigRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 2 && lens_AppConfigTlv((b[1]) as int, b.subrange(2, b.len() as int)) >= 0 }
    pub open spec fn len_SessionGetAppConfigRsp(b: Seq<u8>) -> int { 2 + lens_AppConfigTlv((b[1]) as int, b.subrange(2, b.len() as int)) }
    /// b is exactly the bytes of a SessionGetAppConfigRsp.
    pub open spec fn val_SessionGetAppConfigRsp(b: Seq<u8>) -> bool { pre_SessionGetAppConfigRsp(b) && b.len() == len_SessionGetAppConfigRsp(b) }
    /// b starts with the bytes of a SessionGetCountCmd.
    pub open spec fn pre_SessionGetCountCmd(b: Seq<u8>) -> bool { true }
    pub open spec fn len_SessionGetCountCmd(b: Seq<u8>) -> int { 0 }
    /// b is exactly the bytes of a SessionGetCountCmd.
    pub open spec fn val_SessionGetCountCmd(b: Seq<u8>) -> bool { pre_SessionGetCountCmd(b) && b.len() == len_SessionGetCountCmd(b) }
    /// b starts with the bytes of a SessionGetCountRsp.
    pub open spec fn pre_SessionGetCountRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 2 }
    pub open spec fn len_SessionGetCountRsp(b: Seq<u8>) -> int { 2 }
    /// b is exactly the bytes of a SessionGetCountRsp.
    pub open spec fn val_SessionGetCountRsp(b: Seq<u8>) -> bool { pre_SessionGetCountRsp(b) && b.len() == len_SessionGetCountRsp(b) }
    /// b starts with the bytes of a SessionGetStateCmd.
    pub open spec fn pre_SessionGetStateCmd(b: Seq<u8>) -> bool { b.len() >= 4 }
    pub open spec fn len_SessionGetStateCmd(b: Seq<u8>) -> int { 4 }
    /// b is exactly the bytes of a SessionGetStateCmd.
    pub open spec fn val_SessionGetStateCmd(b: Seq<u8>) -> bool { pre_SessionGetStateCmd(b) && b.len() == len_SessionGetStateCmd(b) }
    /// b starts with the bytes of a SessionGetStateRsp.
    pub open spec fn pre_SessionGetStateRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 2 && of_SessionState(b[1]) is Some }
    pub open spec fn len_SessionGetStateRsp(b: Seq<u8>) -> int { 2 }
    /// b is exactly the bytes of a SessionGetStateRsp.
    pub open spec fn val_SessionGetStateRsp(b: Seq<u8>) -> bool { pre_SessionGetStateRsp(b) && b.len() == len_SessionGetStateRsp(b) }
    /// b starts with the bytes of a SessionUpdateDtAnchorRangingRoundsCmd.
    pub open spec fn pre_SessionUpdateDtAnchorRangingRoundsCmd(b: Seq<u8>) -> bool { true }
    pub open spec fn len_SessionUpdateDtAnchorRangingRoundsCmd(b: Seq<u8>) -> int { 0 }
    /// b is exactly the bytes of a SessionUpdateDtAnchorRangingRoundsCmd.
    pub open spec fn val_SessionUpdateDtAnchorRangingRoundsCmd(b: Seq<u8>) -> bool { pre_SessionUpdateDtAnchorRangingRoundsCmd(b) && b.len() == len_SessionUpdateDtAnchorRangingRoundsCmd(b) }
    /// b starts with the bytes of a SessionUpdateDtAnchorRangingRoundsRsp.
    pub open spec fn pre_SessionUpdateDtAnchorRangingRoundsRsp(b: Seq<u8>) -> bool { true }
    pub open spec fn len_SessionUpdateDtAnchorRangingRoundsRsp(b: Seq<u8>) -> int { 0 }
    /// b is exactly the bytes of a SessionUpdateDtAnchorRangingRoundsRsp.
    pub open spec fn val_SessionUpdateDtAnchorRangingRoundsRsp(b: Seq<u8>) -> bool { pre_SessionUpdateDtAnchorRangingRoundsRsp(b) && b.len() == len_SessionUpdateDtAnchorRangingRoundsRsp(b) }
    /// b starts with the bytes of a SessionUpdateDtTagRangingRoundsCmd.
    pub open spec fn pre_SessionUpdateDtTagRangingRoundsCmd(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 5 && b.len() >= 5 + (b[4]) as int }
    pub open spec fn len_SessionUpdateDtTagRangingRoundsCmd(b: Seq<u8>) -> int { 5 + (b[4]) as int }
    /// b is exactly the bytes of a SessionUpdateDtTagRangingRoundsCmd.
    pub open spec fn val_SessionUpdateDtTagRangingRoundsCmd(b: Seq<u8>) -> bool { pre_SessionUpdateDtTagRangingRoundsCmd(b) && b.len() == len_SessionUpdateDtTagRangingRoundsCmd(b) }
    /// b starts with the bytes of a SessionUpdateDtTagRangingRoundsRsp.
    pub open spec fn pre_SessionUpdateDtTagRangingRoundsRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 2 && b.len() >= 2 + (b[1]) as int }
    pub open spec fn len_SessionUpdateDtTagRangingRoundsRsp(b: Seq<u8>) -> int { 2 + (b[1]) as int }
    /// b is exactly the bytes of a SessionUpdateDtTagRangingRoundsRsp.
    pub open spec fn val_SessionUpdateDtTagRangingRoundsRsp(b: Seq<u8>) -> bool { pre_SessionUpdateDtTagRangingRoundsRsp(b) && b.len() == len_SessionUpdateDtTagRangingRoundsRsp(b) }
    /// b starts with the bytes of a SessionUpdateControllerMulticastListCmd.
    pub open spec fn pre_SessionUpdateControllerMulticastListCmd(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 5 && of_UpdateMulticastListAction(b[4]) is Some }
    pub open spec fn len_SessionUpdateControllerMulticastListCmd(b: Seq<u8>) -> int { b.len() as int }
    /// b is exactly the bytes of a SessionUpdateControllerMulticastListCmd.
    pub open spec fn val_SessionUpdateControllerMulticastListCmd(b: Seq<u8>) -> bool { pre_SessionUpdateControllerMulticastListCmd(b) }
    /// b starts with the bytes of a SessionUpdateControllerMulticastListCmdPayload.
    pub open spec fn pre_SessionUpdateControllerMulticastListCmdPayload(b: Seq<u8>) -> bool { b.len() >= 1 && lens_Controlee((b[0]) as int, b.subrange(1, b.len() as int)) >= 0 }
    pub open spec fn len_SessionUpdateControllerMulticastListCmdPayload(b: Seq<u8>) -> int { 1 + lens_Controlee((b[0]) as int, b.subrange(1, b.len() as int)) }
    /// b is exactly the bytes of a SessionUpdateControllerMulticastListCmdPayload.
    pub open spec fn val_SessionUpdateControllerMulticastListCmdPayload(b: Seq<u8>) -> bool { pre_SessionUpdateControllerMulticastListCmdPayload(b) && b.len() == len_SessionUpdateControllerMulticastListCmdPayload(b) }
    /// b starts with the bytes of a SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload.
    pub open spec fn pre_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(b: Seq<u8>) -> bool { b.len() >= 1 && lens_Controlee_V2_0_16_Byte_Version((b[0]) as int, b.subrange(1, b.len() as int)) >= 0 }
    pub open spec fn len_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(b: Seq<u8>) -> int { 1 + lens_Controlee_V2_0_16_Byte_Version((b[0]) as int, b.subrange(1, b.len() as int)) }
    /// b is exactly the bytes of a SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload.
    pub open spec fn val_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(b: Seq<u8>) -> bool { pre_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(b) && b.len() == len_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(b) }
    /// b starts with the bytes of a SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload.
    pub open spec fn pre_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(b: Seq<u8>) -> bool { b.len() >= 1 && lens_Controlee_V2_0_32_Byte_Version((b[0]) as int, b.subrange(1, b.len() as int)) >= 0 }
    pub open spec fn len_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(b: Seq<u8>) -> int { 1 + lens_Controlee_V2_0_32_Byte_Version((b[0]) as int, b.subrange(1, b.len() as int)) }
    /// b is exactly the bytes of a SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload.
    pub open spec fn val_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(b: Seq<u8>) -> bool { pre_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(b) && b.len() == len_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(b) }
    /// b starts with the bytes of a SessionUpdateControllerMulticastListRsp.
    pub open spec fn pre_SessionUpdateControllerMulticastListRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 2 && lens_ControleeStatus((b[1]) as int, b.subrange(2, b.len() as int)) >= 0 }
    pub open spec fn len_SessionUpdateControllerMulticastListRsp(b: Seq<u8>) -> int { 2 + lens_ControleeStatus((b[1]) as int, b.subrange(2, b.len() as int)) }
    /// b is exactly the bytes of a SessionUpdateControllerMulticastListRsp.
    pub open spec fn val_SessionUpdateControllerMulticastListRsp(b: Seq<u8>) -> bool { pre_SessionUpdateControllerMulticastListRsp(b) && b.len() == len_SessionUpdateControllerMulticastListRsp(b) }
    /// b starts with the bytes of a SessionUpdateControllerMulticastListNtf.
    pub open spec fn pre_SessionUpdateControllerMulticastListNtf(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 5 && lens_ControleeStatus((b[4]) as int, b.subrange(5, b.len() as int)) >= 0 }
    pub open spec fn len_SessionUpdateControllerMulticastListNtf(b: Seq<u8>) -> int { 5 + lens_ControleeStatus((b[4]) as int, b.subrange(5, b.len() as int)) }
    /// b is exactly the bytes of a SessionUpdateControllerMulticastListNtf.
    pub open spec fn val_SessionUpdateControllerMulticastListNtf(b: Seq<u8>) -> bool { pre_SessionUpdateControllerMulticastListNtf(b) && b.len() == len_SessionUpdateControllerMulticastListNtf(b) }
    /// b starts with the bytes of a SessionDataCreditNtf.
    pub open spec fn pre_SessionDataCreditNtf(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 5 && of_CreditAvailability(b[4]) is Some }
    pub open spec fn len_SessionDataCreditNtf(b: Seq<u8>) -> int { 5 }
    /// b is exactly the bytes of a SessionDataCreditNtf.
    pub open spec fn val_SessionDataCreditNtf(b: Seq<u8>) -> bool { pre_SessionDataCreditNtf(b) && b.len() == len_SessionDataCreditNtf(b) }
    /// b starts with the bytes of a SessionDataTransferStatusNtf.
    pub open spec fn pre_SessionDataTransferStatusNtf(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 5 && b.len() >= 6 && of_DataTransferNtfStatusCode(b[5]) is Some && b.len() >= 7 }
    pub open spec fn len_SessionDataTransferStatusNtf(b: Seq<u8>) -> int { 7 }
    /// b is exactly the bytes of a SessionDataTransferStatusNtf.
    pub open spec fn val_SessionDataTransferStatusNtf(b: Seq<u8>) -> bool { pre_SessionDataTransferStatusNtf(b) && b.len() == len_SessionDataTransferStatusNtf(b) }
    /// b starts with the bytes of a SessionQueryMaxDataSizeInRangingCmd.
    pub open spec fn pre_SessionQueryMaxDataSizeInRangingCmd(b: Seq<u8>) -> bool { b.len() >= 4 }
    pub open spec fn len_SessionQueryMaxDataSizeInRangingCmd(b: Seq<u8>) -> int { 4 }
    /// b is exactly the bytes of a SessionQueryMaxDataSizeInRangingCmd.
    pub open spec fn val_SessionQueryMaxDataSizeInRangingCmd(b: Seq<u8>) -> bool { pre_SessionQueryMaxDataSizeInRangingCmd(b) && b.len() == len_SessionQueryMaxDataSizeInRangingCmd(b) }
    /// b starts with the bytes of a SessionQueryMaxDataSizeInRangingRsp.
    pub open spec fn pre_SessionQueryMaxDataSizeInRangingRsp(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() >= 6 }
    pub open spec fn len_SessionQueryMaxDataSizeInRangingRsp(b: Seq<u8>) -> int { 6 }
    /// b is exactly the bytes of a SessionQueryMaxDataSizeInRangingRsp.
    pub open spec fn val_SessionQueryMaxDataSizeInRangingRsp(b: Seq<u8>) -> bool { pre_SessionQueryMaxDataSizeInRangingRsp(b) && b.len() == len_SessionQueryMaxDataSizeInRangingRsp(b) }
    /// b starts with the bytes of a SessionStartCmd.
    pub open spec fn pre_SessionStartCmd(b: Seq<u8>) -> bool { b.len() >= 4 }
    pub open spec fn len_SessionStartCmd(b: Seq<u8>) -> int { 4 }
    /// b is exactly the bytes of a SessionStartCmd.
    pub open spec fn val_SessionStartCmd(b: Seq<u8>) -> bool { pre_SessionStartCmd(b) && b.len() == len_SessionStartCmd(b) }
    /// b starts with the bytes of a SessionStartRsp.
    pub open spec fn pre_SessionStartRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some }
    pub open spec fn len_SessionStartRsp(b: Seq<u8>) -> int { 1 }
    /// b is exactly the bytes of a SessionStartRsp.
    pub open spec fn val_SessionStartRsp(b: Seq<u8>) -> bool { pre_SessionStartRsp(b) && b.len() == len_SessionStartRsp(b) }
    /// b starts with the bytes of a SessionStopCmd.
    pub open spec fn pre_SessionStopCmd(b: Seq<u8>) -> bool { b.len() >= 4 }
    pub open spec fn len_SessionStopCmd(b: Seq<u8>) -> int { 4 }
    /// b is exactly the bytes of a SessionStopCmd.
    pub open spec fn val_SessionStopCmd(b: Seq<u8>) -> bool { pre_SessionStopCmd(b) && b.len() == len_SessionStopCmd(b) }
    /// b starts with the bytes of a SessionStopRsp.
    pub open spec fn pre_SessionStopRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some }
    pub open spec fn len_SessionStopRsp(b: Seq<u8>) -> int { 1 }
    /// b is exactly the bytes of a SessionStopRsp.
    pub open spec fn val_SessionStopRsp(b: Seq<u8>) -> bool { pre_SessionStopRsp(b) && b.len() == len_SessionStopRsp(b) }
    /// b starts with the bytes of a SessionGetRangingCountCmd.
    pub open spec fn pre_SessionGetRangingCountCmd(b: Seq<u8>) -> bool { b.len() >= 4 }
    pub open spec fn len_SessionGetRangingCountCmd(b: Seq<u8>) -> int { 4 }
    /// b is exactly the bytes of a SessionGetRangingCountCmd.
    pub open spec fn val_SessionGetRangingCountCmd(b: Seq<u8>) -> bool { pre_SessionGetRangingCountCmd(b) && b.len() == len_SessionGetRangingCountCmd(b) }
    /// b starts with the bytes of a SessionGetRangingCountRsp.
    pub open spec fn pre_SessionGetRangingCountRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 5 }
    pub open spec fn len_SessionGetRangingCountRsp(b: Seq<u8>) -> int { 5 }
    /// b is exactly the bytes of a SessionGetRangingCountRsp.
    pub open spec fn val_SessionGetRangingCountRsp(b: Seq<u8>) -> bool { pre_SessionGetRangingCountRsp(b) && b.len() == len_SessionGetRangingCountRsp(b) }
    /// b starts with the bytes of a AndroidGetPowerStatsCmd.
    pub open spec fn pre_AndroidGetPowerStatsCmd(b: Seq<u8>) -> bool { true }
    pub open spec fn len_AndroidGetPowerStatsCmd(b: Seq<u8>) -> int { 0 }
    /// b is exactly the bytes of a AndroidGetPowerStatsCmd.
    pub open spec fn val_AndroidGetPowerStatsCmd(b: Seq<u8>) -> bool { pre_AndroidGetPowerStatsCmd(b) && b.len() == len_AndroidGetPowerStatsCmd(b) }
    /// b starts with the bytes of a PowerStats.
    pub open spec fn pre_PowerStats(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 5 && b.len() >= 9 && b.len() >= 13 && b.len() >= 17 }
    pub open spec fn len_PowerStats(b: Seq<u8>) -> int { 17 }
    /// b is exactly the bytes of a PowerStats.
    pub open spec fn val_PowerStats(b: Seq<u8>) -> bool { pre_PowerStats(b) && b.len() == len_PowerStats(b) }
    /// b starts with the bytes of a AndroidGetPowerStatsRsp.
    pub open spec fn pre_AndroidGetPowerStatsRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some && b.len() >= 5 && b.len() >= 9 && b.len() >= 13 && b.len() >= 17 }
    pub open spec fn len_AndroidGetPowerStatsRsp(b: Seq<u8>) -> int { 17 }
    /// b is exactly the bytes of a AndroidGetPowerStatsRsp.
    pub open spec fn val_AndroidGetPowerStatsRsp(b: Seq<u8>) -> bool { pre_AndroidGetPowerStatsRsp(b) && b.len() == len_AndroidGetPowerStatsRsp(b) }
    /// b starts with the bytes of a AndroidSetCountryCodeCmd.
    pub open spec fn pre_AndroidSetCountryCodeCmd(b: Seq<u8>) -> bool { b.len() >= 2 }
    pub open spec fn len_AndroidSetCountryCodeCmd(b: Seq<u8>) -> int { 2 }
    /// b is exactly the bytes of a AndroidSetCountryCodeCmd.
    pub open spec fn val_AndroidSetCountryCodeCmd(b: Seq<u8>) -> bool { pre_AndroidSetCountryCodeCmd(b) && b.len() == len_AndroidSetCountryCodeCmd(b) }
    /// b starts with the bytes of a AndroidSetCountryCodeRsp.
    pub open spec fn pre_AndroidSetCountryCodeRsp(b: Seq<u8>) -> bool { b.len() >= 1 && of_Status(b[0]) is Some }
    pub open spec fn len_AndroidSetCountryCodeRsp(b: Seq<u8>) -> int { 1 }
    /// b is exactly the bytes of a AndroidSetCountryCodeRsp.
    pub open spec fn val_AndroidSetCountryCodeRsp(b: Seq<u8>) -> bool { pre_AndroidSetCountryCodeRsp(b) && b.len() == len_AndroidSetCountryCodeRsp(b) }
    /// p is what the bytes b mean.
    pub open spec fn rel_CommonPacketHeader(b: Seq<u8>, p: CommonPacketHeader) -> bool { b.len() >= 1 && of_PacketBoundaryFlag(((b[0] >> 4) & 1) as u8) == Some(p.pbf) && of_MessageType(((b[0] >> 5) & 7) as u8) == Some(p.mt) }
    pub open spec fn val_CommonPacketHeader(b: Seq<u8>) -> bool { b.len() >= 1 && of_PacketBoundaryFlag(((b[0] >> 4) & 1) as u8) is Some && of_MessageType(((b[0] >> 5) & 7) as u8) is Some }
    pub open spec fn hlen_CommonPacketHeader() -> int { 1 }
    /// p is what the bytes b mean.
    pub open spec fn rel_ControlPacketHeader(b: Seq<u8>, p: ControlPacketHeader) -> bool { b.len() >= 4 && of_PacketBoundaryFlag(((b[0] >> 4) & 1) as u8) == Some(p.pbf) && of_MessageType(((b[0] >> 5) & 7) as u8) == Some(p.mt) && p.payload_length == b[3] }
    pub open spec fn val_ControlPacketHeader(b: Seq<u8>) -> bool { b.len() >= 4 && of_PacketBoundaryFlag(((b[0] >> 4) & 1) as u8) is Some && of_MessageType(((b[0] >> 5) & 7) as u8) is Some }
    pub open spec fn hlen_ControlPacketHeader() -> int { 4 }
    /// p is what the bytes b mean.
    pub open spec fn rel_DataPacketHeader(b: Seq<u8>, p: DataPacketHeader) -> bool { b.len() >= 4 && of_PacketBoundaryFlag(((b[0] >> 4) & 1) as u8) == Some(p.pbf) && of_MessageType(((b[0] >> 5) & 7) as u8) == Some(p.mt) && u16le(p.payload_length) == b.subrange(2, 4) }
    pub open spec fn val_DataPacketHeader(b: Seq<u8>) -> bool { b.len() >= 4 && of_PacketBoundaryFlag(((b[0] >> 4) & 1) as u8) is Some && of_MessageType(((b[0] >> 5) & 7) as u8) is Some }
    pub open spec fn hlen_DataPacketHeader() -> int { 4 }
    /// p is what the bytes b mean.
    pub open spec fn rel_ControlPacket(b: Seq<u8>, p: ControlPacket) -> bool { b.len() >= 1 && of_GroupId((b[0] & 15) as u8) == Some(p.gid) && of_MessageType(((b[0] >> 5) & 7) as u8) == Some(p.mt) && p.payload@ == b.subrange(1, b.len() as int) }
    pub open spec fn val_ControlPacket(b: Seq<u8>) -> bool { b.len() >= 1 && of_GroupId((b[0] & 15) as u8) is Some && of_MessageType(((b[0] >> 5) & 7) as u8) is Some }
    pub open spec fn hlen_ControlPacket() -> int { 1 }
    /// p is what the bytes b mean.
    pub open spec fn rel_DataPacket(b: Seq<u8>, p: DataPacket) -> bool { b.len() >= 4 && of_DataPacketFormat((b[0] & 15) as u8) == Some(p.dpf) && of_PacketBoundaryFlag(((b[0] >> 4) & 1) as u8) == Some(p.pbf) && of_MessageType(((b[0] >> 5) & 7) as u8) == Some(p.mt) && p.payload@ == b.subrange(4, b.len() as int) }
    pub open spec fn val_DataPacket(b: Seq<u8>) -> bool { b.len() >= 4 && of_DataPacketFormat((b[0] & 15) as u8) is Some && of_PacketBoundaryFlag(((b[0] >> 4) & 1) as u8) is Some && of_MessageType(((b[0] >> 5) & 7) as u8) is Some }
    pub open spec fn hlen_DataPacket() -> int { 4 }
    /// p is what the bytes b mean.
    pub open spec fn rel_CorePacket(b: Seq<u8>, p: CorePacket) -> bool { b.len() >= 3 && of_CoreOpcodeId((b[0] & 63) as u8) == Some(p.oid) && p.payload@ == b.subrange(3, b.len() as int) }
    pub open spec fn val_CorePacket(b: Seq<u8>) -> bool { b.len() >= 3 && of_CoreOpcodeId((b[0] & 63) as u8) is Some }
    pub open spec fn hlen_CorePacket() -> int { 3 }
    /// p is what the bytes b mean.
    pub open spec fn rel_SessionConfigPacket(b: Seq<u8>, p: SessionConfigPacket) -> bool { b.len() >= 3 && of_SessionConfigOpcodeId((b[0] & 63) as u8) == Some(p.oid) && p.payload@ == b.subrange(3, b.len() as int) }
    pub open spec fn val_SessionConfigPacket(b: Seq<u8>) -> bool { b.len() >= 3 && of_SessionConfigOpcodeId((b[0] & 63) as u8) is Some }
    pub open spec fn hlen_SessionConfigPacket() -> int { 3 }
    /// p is what the bytes b mean.
    pub open spec fn rel_SessionControlPacket(b: Seq<u8>, p: SessionControlPacket) -> bool { b.len() >= 3 && of_SessionControlOpcodeId((b[0] & 63) as u8) == Some(p.oid) && p.payload@ == b.subrange(3, b.len() as int) }
    pub open spec fn val_SessionControlPacket(b: Seq<u8>) -> bool { b.len() >= 3 && of_SessionControlOpcodeId((b[0] & 63) as u8) is Some }
    pub open spec fn hlen_SessionControlPacket() -> int { 3 }
    /// p is what the bytes b mean.
    pub open spec fn rel_AndroidPacket(b: Seq<u8>, p: AndroidPacket) -> bool { b.len() >= 3 && of_AndroidOpcodeId((b[0] & 63) as u8) == Some(p.oid) && p.payload@ == b.subrange(3, b.len() as int) }
    pub open spec fn val_AndroidPacket(b: Seq<u8>) -> bool { b.len() >= 3 && of_AndroidOpcodeId((b[0] & 63) as u8) is Some }
    pub open spec fn hlen_AndroidPacket() -> int { 3 }
    /// The result of ControlPacket::specialize, a pure function of the packet.
    pub uninterp spec fn spec_specialize_ControlPacket(p: ControlPacket) -> core::result::Result<ControlPacketChild, crate::stubs::pdl_runtime::DecodeError>;
    /// The result of DataPacket::specialize, a pure function of the packet.
    pub uninterp spec fn spec_specialize_DataPacket(p: DataPacket) -> core::result::Result<DataPacketChild, crate::stubs::pdl_runtime::DecodeError>;
    /// The result of CorePacket::specialize, a pure function of the packet.
    pub uninterp spec fn spec_specialize_CorePacket(p: CorePacket) -> core::result::Result<CorePacketChild, crate::stubs::pdl_runtime::DecodeError>;
    /// The result of SessionConfigPacket::specialize, a pure function of the packet.
    pub uninterp spec fn spec_specialize_SessionConfigPacket(p: SessionConfigPacket) -> core::result::Result<SessionConfigPacketChild, crate::stubs::pdl_runtime::DecodeError>;
    /// The result of SessionControlPacket::specialize, a pure function of the packet.
    pub uninterp spec fn spec_specialize_SessionControlPacket(p: SessionControlPacket) -> core::result::Result<SessionControlPacketChild, crate::stubs::pdl_runtime::DecodeError>;
    /// The result of AndroidPacket::specialize, a pure function of the packet.
    pub uninterp spec fn spec_specialize_AndroidPacket(p: AndroidPacket) -> core::result::Result<AndroidPacketChild, crate::stubs::pdl_runtime::DecodeError>;
    } // verus!
}
