// Generated by tools/gencodec.py
@impl packets::uci::VFrom<&PacketBoundaryFlag> for u8
open spec fn from_ens(v: &PacketBoundaryFlag, r: Self) -> bool { r == crate::codec::code_PacketBoundaryFlag(*v) }
@impl packets::uci::VFrom<PacketBoundaryFlag> for u8
open spec fn from_ens(v: PacketBoundaryFlag, r: Self) -> bool { r == crate::codec::code_PacketBoundaryFlag(v) }
@impl packets::uci::VTryFrom<u8> for PacketBoundaryFlag
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_PacketBoundaryFlag(v) { Some(e) => core::result::Result::<PacketBoundaryFlag, u8>::Ok(e), None => core::result::Result::<PacketBoundaryFlag, u8>::Err(v) }) }
@impl packets::uci::VFrom<&MessageType> for u8
open spec fn from_ens(v: &MessageType, r: Self) -> bool { r == crate::codec::code_MessageType(*v) }
@impl packets::uci::VFrom<MessageType> for u8
open spec fn from_ens(v: MessageType, r: Self) -> bool { r == crate::codec::code_MessageType(v) }
@impl packets::uci::VTryFrom<u8> for MessageType
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_MessageType(v) { Some(e) => core::result::Result::<MessageType, u8>::Ok(e), None => core::result::Result::<MessageType, u8>::Err(v) }) }
@impl packets::uci::VFrom<&GroupId> for u8
open spec fn from_ens(v: &GroupId, r: Self) -> bool { r == crate::codec::code_GroupId(*v) }
@impl packets::uci::VFrom<GroupId> for u8
open spec fn from_ens(v: GroupId, r: Self) -> bool { r == crate::codec::code_GroupId(v) }
@impl packets::uci::VTryFrom<u8> for GroupId
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_GroupId(v) { Some(e) => core::result::Result::<GroupId, u8>::Ok(e), None => core::result::Result::<GroupId, u8>::Err(v) }) }
@impl packets::uci::VFrom<&DataPacketFormat> for u8
open spec fn from_ens(v: &DataPacketFormat, r: Self) -> bool { r == crate::codec::code_DataPacketFormat(*v) }
@impl packets::uci::VFrom<DataPacketFormat> for u8
open spec fn from_ens(v: DataPacketFormat, r: Self) -> bool { r == crate::codec::code_DataPacketFormat(v) }
@impl packets::uci::VTryFrom<u8> for DataPacketFormat
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_DataPacketFormat(v) { Some(e) => core::result::Result::<DataPacketFormat, u8>::Ok(e), None => core::result::Result::<DataPacketFormat, u8>::Err(v) }) }
@impl packets::uci::VFrom<&CoreOpcodeId> for u8
open spec fn from_ens(v: &CoreOpcodeId, r: Self) -> bool { r == crate::codec::code_CoreOpcodeId(*v) }
@impl packets::uci::VFrom<CoreOpcodeId> for u8
open spec fn from_ens(v: CoreOpcodeId, r: Self) -> bool { r == crate::codec::code_CoreOpcodeId(v) }
@impl packets::uci::VTryFrom<u8> for CoreOpcodeId
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_CoreOpcodeId(v) { Some(e) => core::result::Result::<CoreOpcodeId, u8>::Ok(e), None => core::result::Result::<CoreOpcodeId, u8>::Err(v) }) }
@impl packets::uci::VFrom<&SessionConfigOpcodeId> for u8
open spec fn from_ens(v: &SessionConfigOpcodeId, r: Self) -> bool { r == crate::codec::code_SessionConfigOpcodeId(*v) }
@impl packets::uci::VFrom<SessionConfigOpcodeId> for u8
open spec fn from_ens(v: SessionConfigOpcodeId, r: Self) -> bool { r == crate::codec::code_SessionConfigOpcodeId(v) }
@impl packets::uci::VTryFrom<u8> for SessionConfigOpcodeId
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_SessionConfigOpcodeId(v) { Some(e) => core::result::Result::<SessionConfigOpcodeId, u8>::Ok(e), None => core::result::Result::<SessionConfigOpcodeId, u8>::Err(v) }) }
@impl packets::uci::VFrom<&SessionControlOpcodeId> for u8
open spec fn from_ens(v: &SessionControlOpcodeId, r: Self) -> bool { r == crate::codec::code_SessionControlOpcodeId(*v) }
@impl packets::uci::VFrom<SessionControlOpcodeId> for u8
open spec fn from_ens(v: SessionControlOpcodeId, r: Self) -> bool { r == crate::codec::code_SessionControlOpcodeId(v) }
@impl packets::uci::VTryFrom<u8> for SessionControlOpcodeId
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_SessionControlOpcodeId(v) { Some(e) => core::result::Result::<SessionControlOpcodeId, u8>::Ok(e), None => core::result::Result::<SessionControlOpcodeId, u8>::Err(v) }) }
@impl packets::uci::VFrom<&AndroidOpcodeId> for u8
open spec fn from_ens(v: &AndroidOpcodeId, r: Self) -> bool { r == crate::codec::code_AndroidOpcodeId(*v) }
@impl packets::uci::VFrom<AndroidOpcodeId> for u8
open spec fn from_ens(v: AndroidOpcodeId, r: Self) -> bool { r == crate::codec::code_AndroidOpcodeId(v) }
@impl packets::uci::VTryFrom<u8> for AndroidOpcodeId
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_AndroidOpcodeId(v) { Some(e) => core::result::Result::<AndroidOpcodeId, u8>::Ok(e), None => core::result::Result::<AndroidOpcodeId, u8>::Err(v) }) }
@impl packets::uci::VFrom<&Status> for u8
open spec fn from_ens(v: &Status, r: Self) -> bool { r == crate::codec::code_Status(*v) }
@impl packets::uci::VFrom<Status> for u8
open spec fn from_ens(v: Status, r: Self) -> bool { r == crate::codec::code_Status(v) }
@impl packets::uci::VTryFrom<u8> for Status
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_Status(v) { Some(e) => core::result::Result::<Status, u8>::Ok(e), None => core::result::Result::<Status, u8>::Err(v) }) }
@impl packets::uci::VFrom<&DataRcvStatusCode> for u8
open spec fn from_ens(v: &DataRcvStatusCode, r: Self) -> bool { r == crate::codec::code_DataRcvStatusCode(*v) }
@impl packets::uci::VFrom<DataRcvStatusCode> for u8
open spec fn from_ens(v: DataRcvStatusCode, r: Self) -> bool { r == crate::codec::code_DataRcvStatusCode(v) }
@impl packets::uci::VTryFrom<u8> for DataRcvStatusCode
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_DataRcvStatusCode(v) { Some(e) => core::result::Result::<DataRcvStatusCode, u8>::Ok(e), None => core::result::Result::<DataRcvStatusCode, u8>::Err(v) }) }
@impl packets::uci::VFrom<&CreditAvailability> for u8
open spec fn from_ens(v: &CreditAvailability, r: Self) -> bool { r == crate::codec::code_CreditAvailability(*v) }
@impl packets::uci::VFrom<CreditAvailability> for u8
open spec fn from_ens(v: CreditAvailability, r: Self) -> bool { r == crate::codec::code_CreditAvailability(v) }
@impl packets::uci::VTryFrom<u8> for CreditAvailability
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_CreditAvailability(v) { Some(e) => core::result::Result::<CreditAvailability, u8>::Ok(e), None => core::result::Result::<CreditAvailability, u8>::Err(v) }) }
@impl packets::uci::VFrom<&DataTransferNtfStatusCode> for u8
open spec fn from_ens(v: &DataTransferNtfStatusCode, r: Self) -> bool { r == crate::codec::code_DataTransferNtfStatusCode(*v) }
@impl packets::uci::VFrom<DataTransferNtfStatusCode> for u8
open spec fn from_ens(v: DataTransferNtfStatusCode, r: Self) -> bool { r == crate::codec::code_DataTransferNtfStatusCode(v) }
@impl packets::uci::VTryFrom<u8> for DataTransferNtfStatusCode
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_DataTransferNtfStatusCode(v) { Some(e) => core::result::Result::<DataTransferNtfStatusCode, u8>::Ok(e), None => core::result::Result::<DataTransferNtfStatusCode, u8>::Err(v) }) }
@impl packets::uci::VFrom<&ResetConfig> for u8
open spec fn from_ens(v: &ResetConfig, r: Self) -> bool { r == crate::codec::code_ResetConfig(*v) }
@impl packets::uci::VFrom<ResetConfig> for u8
open spec fn from_ens(v: ResetConfig, r: Self) -> bool { r == crate::codec::code_ResetConfig(v) }
@impl packets::uci::VTryFrom<u8> for ResetConfig
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_ResetConfig(v) { Some(e) => core::result::Result::<ResetConfig, u8>::Ok(e), None => core::result::Result::<ResetConfig, u8>::Err(v) }) }
@impl packets::uci::VFrom<&AppConfigTlvType> for u8
open spec fn from_ens(v: &AppConfigTlvType, r: Self) -> bool { r == crate::codec::code_AppConfigTlvType(*v) }
@impl packets::uci::VFrom<AppConfigTlvType> for u8
open spec fn from_ens(v: AppConfigTlvType, r: Self) -> bool { r == crate::codec::code_AppConfigTlvType(v) }
@impl packets::uci::VTryFrom<u8> for AppConfigTlvType
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_AppConfigTlvType(v) { Some(e) => core::result::Result::<AppConfigTlvType, u8>::Ok(e), None => core::result::Result::<AppConfigTlvType, u8>::Err(v) }) }
@impl packets::uci::VFrom<&DeviceType> for u8
open spec fn from_ens(v: &DeviceType, r: Self) -> bool { r == crate::codec::code_DeviceType(*v) }
@impl packets::uci::VFrom<DeviceType> for u8
open spec fn from_ens(v: DeviceType, r: Self) -> bool { r == crate::codec::code_DeviceType(v) }
@impl packets::uci::VTryFrom<u8> for DeviceType
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_DeviceType(v) { Some(e) => core::result::Result::<DeviceType, u8>::Ok(e), None => core::result::Result::<DeviceType, u8>::Err(v) }) }
@impl packets::uci::VFrom<&RangingRoundUsage> for u8
open spec fn from_ens(v: &RangingRoundUsage, r: Self) -> bool { r == crate::codec::code_RangingRoundUsage(*v) }
@impl packets::uci::VFrom<RangingRoundUsage> for u8
open spec fn from_ens(v: RangingRoundUsage, r: Self) -> bool { r == crate::codec::code_RangingRoundUsage(v) }
@impl packets::uci::VTryFrom<u8> for RangingRoundUsage
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_RangingRoundUsage(v) { Some(e) => core::result::Result::<RangingRoundUsage, u8>::Ok(e), None => core::result::Result::<RangingRoundUsage, u8>::Err(v) }) }
@impl packets::uci::VFrom<&StsConfig> for u8
open spec fn from_ens(v: &StsConfig, r: Self) -> bool { r == crate::codec::code_StsConfig(*v) }
@impl packets::uci::VFrom<StsConfig> for u8
open spec fn from_ens(v: StsConfig, r: Self) -> bool { r == crate::codec::code_StsConfig(v) }
@impl packets::uci::VTryFrom<u8> for StsConfig
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_StsConfig(v) { Some(e) => core::result::Result::<StsConfig, u8>::Ok(e), None => core::result::Result::<StsConfig, u8>::Err(v) }) }
@impl packets::uci::VFrom<&MultiNodeMode> for u8
open spec fn from_ens(v: &MultiNodeMode, r: Self) -> bool { r == crate::codec::code_MultiNodeMode(*v) }
@impl packets::uci::VFrom<MultiNodeMode> for u8
open spec fn from_ens(v: MultiNodeMode, r: Self) -> bool { r == crate::codec::code_MultiNodeMode(v) }
@impl packets::uci::VTryFrom<u8> for MultiNodeMode
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_MultiNodeMode(v) { Some(e) => core::result::Result::<MultiNodeMode, u8>::Ok(e), None => core::result::Result::<MultiNodeMode, u8>::Err(v) }) }
@impl packets::uci::VFrom<&ChannelNumber> for u8
open spec fn from_ens(v: &ChannelNumber, r: Self) -> bool { r == crate::codec::code_ChannelNumber(*v) }
@impl packets::uci::VFrom<ChannelNumber> for u8
open spec fn from_ens(v: ChannelNumber, r: Self) -> bool { r == crate::codec::code_ChannelNumber(v) }
@impl packets::uci::VTryFrom<u8> for ChannelNumber
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_ChannelNumber(v) { Some(e) => core::result::Result::<ChannelNumber, u8>::Ok(e), None => core::result::Result::<ChannelNumber, u8>::Err(v) }) }
@impl packets::uci::VFrom<&MacFcsType> for u8
open spec fn from_ens(v: &MacFcsType, r: Self) -> bool { r == crate::codec::code_MacFcsType(*v) }
@impl packets::uci::VFrom<MacFcsType> for u8
open spec fn from_ens(v: MacFcsType, r: Self) -> bool { r == crate::codec::code_MacFcsType(v) }
@impl packets::uci::VTryFrom<u8> for MacFcsType
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_MacFcsType(v) { Some(e) => core::result::Result::<MacFcsType, u8>::Ok(e), None => core::result::Result::<MacFcsType, u8>::Err(v) }) }
@impl packets::uci::VFrom<&AoaResultReq> for u8
open spec fn from_ens(v: &AoaResultReq, r: Self) -> bool { r == crate::codec::code_AoaResultReq(*v) }
@impl packets::uci::VFrom<AoaResultReq> for u8
open spec fn from_ens(v: AoaResultReq, r: Self) -> bool { r == crate::codec::code_AoaResultReq(v) }
@impl packets::uci::VTryFrom<u8> for AoaResultReq
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_AoaResultReq(v) { Some(e) => core::result::Result::<AoaResultReq, u8>::Ok(e), None => core::result::Result::<AoaResultReq, u8>::Err(v) }) }
@impl packets::uci::VFrom<&SessionInfoNtfConfig> for u8
open spec fn from_ens(v: &SessionInfoNtfConfig, r: Self) -> bool { r == crate::codec::code_SessionInfoNtfConfig(*v) }
@impl packets::uci::VFrom<SessionInfoNtfConfig> for u8
open spec fn from_ens(v: SessionInfoNtfConfig, r: Self) -> bool { r == crate::codec::code_SessionInfoNtfConfig(v) }
@impl packets::uci::VTryFrom<u8> for SessionInfoNtfConfig
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_SessionInfoNtfConfig(v) { Some(e) => core::result::Result::<SessionInfoNtfConfig, u8>::Ok(e), None => core::result::Result::<SessionInfoNtfConfig, u8>::Err(v) }) }
@impl packets::uci::VFrom<&DeviceRole> for u8
open spec fn from_ens(v: &DeviceRole, r: Self) -> bool { r == crate::codec::code_DeviceRole(*v) }
@impl packets::uci::VFrom<DeviceRole> for u8
open spec fn from_ens(v: DeviceRole, r: Self) -> bool { r == crate::codec::code_DeviceRole(v) }
@impl packets::uci::VTryFrom<u8> for DeviceRole
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_DeviceRole(v) { Some(e) => core::result::Result::<DeviceRole, u8>::Ok(e), None => core::result::Result::<DeviceRole, u8>::Err(v) }) }
@impl packets::uci::VFrom<&RframeConfig> for u8
open spec fn from_ens(v: &RframeConfig, r: Self) -> bool { r == crate::codec::code_RframeConfig(*v) }
@impl packets::uci::VFrom<RframeConfig> for u8
open spec fn from_ens(v: RframeConfig, r: Self) -> bool { r == crate::codec::code_RframeConfig(v) }
@impl packets::uci::VTryFrom<u8> for RframeConfig
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_RframeConfig(v) { Some(e) => core::result::Result::<RframeConfig, u8>::Ok(e), None => core::result::Result::<RframeConfig, u8>::Err(v) }) }
@impl packets::uci::VFrom<&RssiReporting> for u8
open spec fn from_ens(v: &RssiReporting, r: Self) -> bool { r == crate::codec::code_RssiReporting(*v) }
@impl packets::uci::VFrom<RssiReporting> for u8
open spec fn from_ens(v: RssiReporting, r: Self) -> bool { r == crate::codec::code_RssiReporting(v) }
@impl packets::uci::VTryFrom<u8> for RssiReporting
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_RssiReporting(v) { Some(e) => core::result::Result::<RssiReporting, u8>::Ok(e), None => core::result::Result::<RssiReporting, u8>::Err(v) }) }
@impl packets::uci::VFrom<&PsduDataRate> for u8
open spec fn from_ens(v: &PsduDataRate, r: Self) -> bool { r == crate::codec::code_PsduDataRate(*v) }
@impl packets::uci::VFrom<PsduDataRate> for u8
open spec fn from_ens(v: PsduDataRate, r: Self) -> bool { r == crate::codec::code_PsduDataRate(v) }
@impl packets::uci::VTryFrom<u8> for PsduDataRate
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_PsduDataRate(v) { Some(e) => core::result::Result::<PsduDataRate, u8>::Ok(e), None => core::result::Result::<PsduDataRate, u8>::Err(v) }) }
@impl packets::uci::VFrom<&PreambleDuration> for u8
open spec fn from_ens(v: &PreambleDuration, r: Self) -> bool { r == crate::codec::code_PreambleDuration(*v) }
@impl packets::uci::VFrom<PreambleDuration> for u8
open spec fn from_ens(v: PreambleDuration, r: Self) -> bool { r == crate::codec::code_PreambleDuration(v) }
@impl packets::uci::VTryFrom<u8> for PreambleDuration
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_PreambleDuration(v) { Some(e) => core::result::Result::<PreambleDuration, u8>::Ok(e), None => core::result::Result::<PreambleDuration, u8>::Err(v) }) }
@impl packets::uci::VFrom<&LinkLayerMode> for u8
open spec fn from_ens(v: &LinkLayerMode, r: Self) -> bool { r == crate::codec::code_LinkLayerMode(*v) }
@impl packets::uci::VFrom<LinkLayerMode> for u8
open spec fn from_ens(v: LinkLayerMode, r: Self) -> bool { r == crate::codec::code_LinkLayerMode(v) }
@impl packets::uci::VTryFrom<u8> for LinkLayerMode
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_LinkLayerMode(v) { Some(e) => core::result::Result::<LinkLayerMode, u8>::Ok(e), None => core::result::Result::<LinkLayerMode, u8>::Err(v) }) }
@impl packets::uci::VFrom<&RangingTimeStruct> for u8
open spec fn from_ens(v: &RangingTimeStruct, r: Self) -> bool { r == crate::codec::code_RangingTimeStruct(*v) }
@impl packets::uci::VFrom<RangingTimeStruct> for u8
open spec fn from_ens(v: RangingTimeStruct, r: Self) -> bool { r == crate::codec::code_RangingTimeStruct(v) }
@impl packets::uci::VTryFrom<u8> for RangingTimeStruct
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_RangingTimeStruct(v) { Some(e) => core::result::Result::<RangingTimeStruct, u8>::Ok(e), None => core::result::Result::<RangingTimeStruct, u8>::Err(v) }) }
@impl packets::uci::VFrom<&PrfMode> for u8
open spec fn from_ens(v: &PrfMode, r: Self) -> bool { r == crate::codec::code_PrfMode(*v) }
@impl packets::uci::VFrom<PrfMode> for u8
open spec fn from_ens(v: PrfMode, r: Self) -> bool { r == crate::codec::code_PrfMode(v) }
@impl packets::uci::VTryFrom<u8> for PrfMode
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_PrfMode(v) { Some(e) => core::result::Result::<PrfMode, u8>::Ok(e), None => core::result::Result::<PrfMode, u8>::Err(v) }) }
@impl packets::uci::VFrom<&ScheduleMode> for u8
open spec fn from_ens(v: &ScheduleMode, r: Self) -> bool { r == crate::codec::code_ScheduleMode(*v) }
@impl packets::uci::VFrom<ScheduleMode> for u8
open spec fn from_ens(v: ScheduleMode, r: Self) -> bool { r == crate::codec::code_ScheduleMode(v) }
@impl packets::uci::VTryFrom<u8> for ScheduleMode
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_ScheduleMode(v) { Some(e) => core::result::Result::<ScheduleMode, u8>::Ok(e), None => core::result::Result::<ScheduleMode, u8>::Err(v) }) }
@impl packets::uci::VFrom<&KeyRotation> for u8
open spec fn from_ens(v: &KeyRotation, r: Self) -> bool { r == crate::codec::code_KeyRotation(*v) }
@impl packets::uci::VFrom<KeyRotation> for u8
open spec fn from_ens(v: KeyRotation, r: Self) -> bool { r == crate::codec::code_KeyRotation(v) }
@impl packets::uci::VTryFrom<u8> for KeyRotation
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_KeyRotation(v) { Some(e) => core::result::Result::<KeyRotation, u8>::Ok(e), None => core::result::Result::<KeyRotation, u8>::Err(v) }) }
@impl packets::uci::VFrom<&MacAddressMode> for u8
open spec fn from_ens(v: &MacAddressMode, r: Self) -> bool { r == crate::codec::code_MacAddressMode(*v) }
@impl packets::uci::VFrom<MacAddressMode> for u8
open spec fn from_ens(v: MacAddressMode, r: Self) -> bool { r == crate::codec::code_MacAddressMode(v) }
@impl packets::uci::VTryFrom<u8> for MacAddressMode
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_MacAddressMode(v) { Some(e) => core::result::Result::<MacAddressMode, u8>::Ok(e), None => core::result::Result::<MacAddressMode, u8>::Err(v) }) }
@impl packets::uci::VFrom<&HoppingMode> for u8
open spec fn from_ens(v: &HoppingMode, r: Self) -> bool { r == crate::codec::code_HoppingMode(*v) }
@impl packets::uci::VFrom<HoppingMode> for u8
open spec fn from_ens(v: HoppingMode, r: Self) -> bool { r == crate::codec::code_HoppingMode(v) }
@impl packets::uci::VTryFrom<u8> for HoppingMode
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_HoppingMode(v) { Some(e) => core::result::Result::<HoppingMode, u8>::Ok(e), None => core::result::Result::<HoppingMode, u8>::Err(v) }) }
@impl packets::uci::VFrom<&BprfPhrDataRate> for u8
open spec fn from_ens(v: &BprfPhrDataRate, r: Self) -> bool { r == crate::codec::code_BprfPhrDataRate(*v) }
@impl packets::uci::VFrom<BprfPhrDataRate> for u8
open spec fn from_ens(v: BprfPhrDataRate, r: Self) -> bool { r == crate::codec::code_BprfPhrDataRate(v) }
@impl packets::uci::VTryFrom<u8> for BprfPhrDataRate
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_BprfPhrDataRate(v) { Some(e) => core::result::Result::<BprfPhrDataRate, u8>::Ok(e), None => core::result::Result::<BprfPhrDataRate, u8>::Err(v) }) }
@impl packets::uci::VFrom<&StsLength> for u8
open spec fn from_ens(v: &StsLength, r: Self) -> bool { r == crate::codec::code_StsLength(*v) }
@impl packets::uci::VFrom<StsLength> for u8
open spec fn from_ens(v: StsLength, r: Self) -> bool { r == crate::codec::code_StsLength(v) }
@impl packets::uci::VTryFrom<u8> for StsLength
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_StsLength(v) { Some(e) => core::result::Result::<StsLength, u8>::Ok(e), None => core::result::Result::<StsLength, u8>::Err(v) }) }
@impl packets::uci::VFrom<&DlTdoaRangingMethod> for u8
open spec fn from_ens(v: &DlTdoaRangingMethod, r: Self) -> bool { r == crate::codec::code_DlTdoaRangingMethod(*v) }
@impl packets::uci::VFrom<DlTdoaRangingMethod> for u8
open spec fn from_ens(v: DlTdoaRangingMethod, r: Self) -> bool { r == crate::codec::code_DlTdoaRangingMethod(v) }
@impl packets::uci::VTryFrom<u8> for DlTdoaRangingMethod
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_DlTdoaRangingMethod(v) { Some(e) => core::result::Result::<DlTdoaRangingMethod, u8>::Ok(e), None => core::result::Result::<DlTdoaRangingMethod, u8>::Err(v) }) }
@impl packets::uci::VFrom<&DlTdoaAnchorCfo> for u8
open spec fn from_ens(v: &DlTdoaAnchorCfo, r: Self) -> bool { r == crate::codec::code_DlTdoaAnchorCfo(*v) }
@impl packets::uci::VFrom<DlTdoaAnchorCfo> for u8
open spec fn from_ens(v: DlTdoaAnchorCfo, r: Self) -> bool { r == crate::codec::code_DlTdoaAnchorCfo(v) }
@impl packets::uci::VTryFrom<u8> for DlTdoaAnchorCfo
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_DlTdoaAnchorCfo(v) { Some(e) => core::result::Result::<DlTdoaAnchorCfo, u8>::Ok(e), None => core::result::Result::<DlTdoaAnchorCfo, u8>::Err(v) }) }
@impl packets::uci::VFrom<&SessionDataTransferStatusNtfConfig> for u8
open spec fn from_ens(v: &SessionDataTransferStatusNtfConfig, r: Self) -> bool { r == crate::codec::code_SessionDataTransferStatusNtfConfig(*v) }
@impl packets::uci::VFrom<SessionDataTransferStatusNtfConfig> for u8
open spec fn from_ens(v: SessionDataTransferStatusNtfConfig, r: Self) -> bool { r == crate::codec::code_SessionDataTransferStatusNtfConfig(v) }
@impl packets::uci::VTryFrom<u8> for SessionDataTransferStatusNtfConfig
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_SessionDataTransferStatusNtfConfig(v) { Some(e) => core::result::Result::<SessionDataTransferStatusNtfConfig, u8>::Ok(e), None => core::result::Result::<SessionDataTransferStatusNtfConfig, u8>::Err(v) }) }
@impl packets::uci::VFrom<&CapTlvType> for u8
open spec fn from_ens(v: &CapTlvType, r: Self) -> bool { r == crate::codec::code_CapTlvType(*v) }
@impl packets::uci::VFrom<CapTlvType> for u8
open spec fn from_ens(v: CapTlvType, r: Self) -> bool { r == crate::codec::code_CapTlvType(v) }
@impl packets::uci::VTryFrom<u8> for CapTlvType
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_CapTlvType(v) { Some(e) => core::result::Result::<CapTlvType, u8>::Ok(e), None => core::result::Result::<CapTlvType, u8>::Err(v) }) }
@impl packets::uci::VFrom<&AoaResultReqType> for u8
open spec fn from_ens(v: &AoaResultReqType, r: Self) -> bool { r == crate::codec::code_AoaResultReqType(*v) }
@impl packets::uci::VFrom<AoaResultReqType> for u8
open spec fn from_ens(v: AoaResultReqType, r: Self) -> bool { r == crate::codec::code_AoaResultReqType(v) }
@impl packets::uci::VTryFrom<u8> for AoaResultReqType
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_AoaResultReqType(v) { Some(e) => core::result::Result::<AoaResultReqType, u8>::Ok(e), None => core::result::Result::<AoaResultReqType, u8>::Err(v) }) }
@impl packets::uci::VFrom<&DeviceState> for u8
open spec fn from_ens(v: &DeviceState, r: Self) -> bool { r == crate::codec::code_DeviceState(*v) }
@impl packets::uci::VFrom<DeviceState> for u8
open spec fn from_ens(v: DeviceState, r: Self) -> bool { r == crate::codec::code_DeviceState(v) }
@impl packets::uci::VTryFrom<u8> for DeviceState
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_DeviceState(v) { Some(e) => core::result::Result::<DeviceState, u8>::Ok(e), None => core::result::Result::<DeviceState, u8>::Err(v) }) }
@impl packets::uci::VFrom<&SessionState> for u8
open spec fn from_ens(v: &SessionState, r: Self) -> bool { r == crate::codec::code_SessionState(*v) }
@impl packets::uci::VFrom<SessionState> for u8
open spec fn from_ens(v: SessionState, r: Self) -> bool { r == crate::codec::code_SessionState(v) }
@impl packets::uci::VTryFrom<u8> for SessionState
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_SessionState(v) { Some(e) => core::result::Result::<SessionState, u8>::Ok(e), None => core::result::Result::<SessionState, u8>::Err(v) }) }
@impl packets::uci::VFrom<&ReasonCode> for u8
open spec fn from_ens(v: &ReasonCode, r: Self) -> bool { r == crate::codec::code_ReasonCode(*v) }
@impl packets::uci::VFrom<ReasonCode> for u8
open spec fn from_ens(v: ReasonCode, r: Self) -> bool { r == crate::codec::code_ReasonCode(v) }
@impl packets::uci::VTryFrom<u8> for ReasonCode
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_ReasonCode(v) { Some(e) => core::result::Result::<ReasonCode, u8>::Ok(e), None => core::result::Result::<ReasonCode, u8>::Err(v) }) }
@impl packets::uci::VFrom<&MulticastUpdateStatus> for u8
open spec fn from_ens(v: &MulticastUpdateStatus, r: Self) -> bool { r == crate::codec::code_MulticastUpdateStatus(*v) }
@impl packets::uci::VFrom<MulticastUpdateStatus> for u8
open spec fn from_ens(v: MulticastUpdateStatus, r: Self) -> bool { r == crate::codec::code_MulticastUpdateStatus(v) }
@impl packets::uci::VTryFrom<u8> for MulticastUpdateStatus
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_MulticastUpdateStatus(v) { Some(e) => core::result::Result::<MulticastUpdateStatus, u8>::Ok(e), None => core::result::Result::<MulticastUpdateStatus, u8>::Err(v) }) }
@impl packets::uci::VFrom<&MacAddressIndicator> for u8
open spec fn from_ens(v: &MacAddressIndicator, r: Self) -> bool { r == crate::codec::code_MacAddressIndicator(*v) }
@impl packets::uci::VFrom<MacAddressIndicator> for u8
open spec fn from_ens(v: MacAddressIndicator, r: Self) -> bool { r == crate::codec::code_MacAddressIndicator(v) }
@impl packets::uci::VTryFrom<u8> for MacAddressIndicator
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_MacAddressIndicator(v) { Some(e) => core::result::Result::<MacAddressIndicator, u8>::Ok(e), None => core::result::Result::<MacAddressIndicator, u8>::Err(v) }) }
@impl packets::uci::VFrom<&SessionType> for u8
open spec fn from_ens(v: &SessionType, r: Self) -> bool { r == crate::codec::code_SessionType(*v) }
@impl packets::uci::VFrom<SessionType> for u8
open spec fn from_ens(v: SessionType, r: Self) -> bool { r == crate::codec::code_SessionType(v) }
@impl packets::uci::VTryFrom<u8> for SessionType
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_SessionType(v) { Some(e) => core::result::Result::<SessionType, u8>::Ok(e), None => core::result::Result::<SessionType, u8>::Err(v) }) }
@impl packets::uci::VFrom<&ConfigParameterId> for u8
open spec fn from_ens(v: &ConfigParameterId, r: Self) -> bool { r == crate::codec::code_ConfigParameterId(*v) }
@impl packets::uci::VFrom<ConfigParameterId> for u8
open spec fn from_ens(v: ConfigParameterId, r: Self) -> bool { r == crate::codec::code_ConfigParameterId(v) }
@impl packets::uci::VTryFrom<u8> for ConfigParameterId
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_ConfigParameterId(v) { Some(e) => core::result::Result::<ConfigParameterId, u8>::Ok(e), None => core::result::Result::<ConfigParameterId, u8>::Err(v) }) }
@impl packets::uci::VFrom<&UpdateMulticastListAction> for u8
open spec fn from_ens(v: &UpdateMulticastListAction, r: Self) -> bool { r == crate::codec::code_UpdateMulticastListAction(*v) }
@impl packets::uci::VFrom<UpdateMulticastListAction> for u8
open spec fn from_ens(v: UpdateMulticastListAction, r: Self) -> bool { r == crate::codec::code_UpdateMulticastListAction(v) }
@impl packets::uci::VTryFrom<u8> for UpdateMulticastListAction
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_UpdateMulticastListAction(v) { Some(e) => core::result::Result::<UpdateMulticastListAction, u8>::Ok(e), None => core::result::Result::<UpdateMulticastListAction, u8>::Err(v) }) }
@impl packets::uci::VFrom<&RangingMeasurementType> for u8
open spec fn from_ens(v: &RangingMeasurementType, r: Self) -> bool { r == crate::codec::code_RangingMeasurementType(*v) }
@impl packets::uci::VFrom<RangingMeasurementType> for u8
open spec fn from_ens(v: RangingMeasurementType, r: Self) -> bool { r == crate::codec::code_RangingMeasurementType(v) }
@impl packets::uci::VTryFrom<u8> for RangingMeasurementType
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_RangingMeasurementType(v) { Some(e) => core::result::Result::<RangingMeasurementType, u8>::Ok(e), None => core::result::Result::<RangingMeasurementType, u8>::Err(v) }) }
@impl packets::uci::VFrom<&FrameReportTlvType> for u8
open spec fn from_ens(v: &FrameReportTlvType, r: Self) -> bool { r == crate::codec::code_FrameReportTlvType(*v) }
@impl packets::uci::VFrom<FrameReportTlvType> for u8
open spec fn from_ens(v: FrameReportTlvType, r: Self) -> bool { r == crate::codec::code_FrameReportTlvType(v) }
@impl packets::uci::VTryFrom<u8> for FrameReportTlvType
open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_FrameReportTlvType(v) { Some(e) => core::result::Result::<FrameReportTlvType, u8>::Ok(e), None => core::result::Result::<FrameReportTlvType, u8>::Err(v) }) }
@impl packets::uci::Packet for RangingRoundControl
open spec fn enc_ok(&self) -> bool { crate::codec::encok_RangingRoundControl(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_RangingRoundControl(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for ResultReportConfig
open spec fn enc_ok(&self) -> bool { crate::codec::encok_ResultReportConfig(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_ResultReportConfig(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CommonPacketHeader
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CommonPacketHeader(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CommonPacketHeader(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::rel_CommonPacketHeader(b, p) && rest == b.subrange(1, b.len() as int)
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::val_CommonPacketHeader(b) }
@impl packets::uci::Packet for ControlPacketHeader
open spec fn enc_ok(&self) -> bool { crate::codec::encok_ControlPacketHeader(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_ControlPacketHeader(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::rel_ControlPacketHeader(b, p) && rest == b.subrange(4, b.len() as int)
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::val_ControlPacketHeader(b) }
@impl packets::uci::Packet for DataPacketHeader
open spec fn enc_ok(&self) -> bool { crate::codec::encok_DataPacketHeader(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_DataPacketHeader(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::rel_DataPacketHeader(b, p) && rest == b.subrange(4, b.len() as int)
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::val_DataPacketHeader(b) }
@impl packets::uci::Packet for ControlPacket
open spec fn enc_ok(&self) -> bool { crate::codec::encok_ControlPacket(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_ControlPacket(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::rel_ControlPacket(b, p) && rest == Seq::<u8>::empty()
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::val_ControlPacket(b) }
@impl packets::uci::Packet for DataPacket
open spec fn enc_ok(&self) -> bool { crate::codec::encok_DataPacket(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_DataPacket(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::rel_DataPacket(b, p) && rest == Seq::<u8>::empty()
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::val_DataPacket(b) }
@impl packets::uci::Packet for DataMessageSnd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_DataMessageSnd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_DataMessageSnd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for DataMessageRcv
open spec fn enc_ok(&self) -> bool { crate::codec::encok_DataMessageRcv(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_DataMessageRcv(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CorePacket
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CorePacket(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CorePacket(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionConfigPacket
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionConfigPacket(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionConfigPacket(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionControlPacket
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionControlPacket(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionControlPacket(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for AndroidPacket
open spec fn enc_ok(&self) -> bool { crate::codec::encok_AndroidPacket(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_AndroidPacket(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CoreDeviceResetCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreDeviceResetCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreDeviceResetCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CoreDeviceResetRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreDeviceResetRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreDeviceResetRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CoreDeviceStatusNtf
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreDeviceStatusNtf(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreDeviceStatusNtf(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CoreGetDeviceInfoCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreGetDeviceInfoCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreGetDeviceInfoCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CoreGetDeviceInfoRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreGetDeviceInfoRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreGetDeviceInfoRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CoreGetCapsInfoCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreGetCapsInfoCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreGetCapsInfoCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CapTlv
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CapTlv(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CapTlv(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_CapTlv(b) && crate::codec::wf_CapTlv(p) && 0 <= crate::codec::len_CapTlv(b) <= b.len() && rest == b.subrange(crate::codec::len_CapTlv(b), b.len() as int) && crate::codec::encp_CapTlv(p) == b.subrange(0, crate::codec::len_CapTlv(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_CapTlv(b) }
@impl packets::uci::Packet for CoreGetCapsInfoRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreGetCapsInfoRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreGetCapsInfoRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for ConfigParameter
open spec fn enc_ok(&self) -> bool { crate::codec::encok_ConfigParameter(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_ConfigParameter(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_ConfigParameter(b) && crate::codec::wf_ConfigParameter(p) && 0 <= crate::codec::len_ConfigParameter(b) <= b.len() && rest == b.subrange(crate::codec::len_ConfigParameter(b), b.len() as int) && crate::codec::encp_ConfigParameter(p) == b.subrange(0, crate::codec::len_ConfigParameter(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_ConfigParameter(b) }
@impl packets::uci::Packet for CoreSetConfigCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreSetConfigCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreSetConfigCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for ConfigParameterStatus
open spec fn enc_ok(&self) -> bool { crate::codec::encok_ConfigParameterStatus(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_ConfigParameterStatus(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_ConfigParameterStatus(b) && crate::codec::wf_ConfigParameterStatus(p) && 0 <= crate::codec::len_ConfigParameterStatus(b) <= b.len() && rest == b.subrange(crate::codec::len_ConfigParameterStatus(b), b.len() as int) && crate::codec::encp_ConfigParameterStatus(p) == b.subrange(0, crate::codec::len_ConfigParameterStatus(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_ConfigParameterStatus(b) }
@impl packets::uci::Packet for CoreSetConfigRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreSetConfigRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreSetConfigRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CoreGetConfigCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreGetConfigCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreGetConfigCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CoreGetConfigRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreGetConfigRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreGetConfigRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CoreGenericErrorNtf
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreGenericErrorNtf(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreGenericErrorNtf(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CoreQueryTimeStampCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreQueryTimeStampCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreQueryTimeStampCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for CoreQueryTimeStampRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_CoreQueryTimeStampRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_CoreQueryTimeStampRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionInitCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionInitCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionInitCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionInitRsp_V2
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionInitRsp_V2(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionInitRsp_V2(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionInitRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionInitRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionInitRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionDeinitCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionDeinitCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionDeinitCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionDeinitRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionDeinitRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionDeinitRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionStatusNtf
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionStatusNtf(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionStatusNtf(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for AppConfigTlv
open spec fn enc_ok(&self) -> bool { crate::codec::encok_AppConfigTlv(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_AppConfigTlv(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_AppConfigTlv(b) && crate::codec::wf_AppConfigTlv(p) && 0 <= crate::codec::len_AppConfigTlv(b) <= b.len() && rest == b.subrange(crate::codec::len_AppConfigTlv(b), b.len() as int) && crate::codec::encp_AppConfigTlv(p) == b.subrange(0, crate::codec::len_AppConfigTlv(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_AppConfigTlv(b) }
@impl packets::uci::Packet for SessionSetAppConfigCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionSetAppConfigCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionSetAppConfigCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for AppConfigStatus
open spec fn enc_ok(&self) -> bool { crate::codec::encok_AppConfigStatus(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_AppConfigStatus(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_AppConfigStatus(b) && crate::codec::wf_AppConfigStatus(p) && 0 <= crate::codec::len_AppConfigStatus(b) <= b.len() && rest == b.subrange(crate::codec::len_AppConfigStatus(b), b.len() as int) && crate::codec::encp_AppConfigStatus(p) == b.subrange(0, crate::codec::len_AppConfigStatus(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_AppConfigStatus(b) }
@impl packets::uci::Packet for SessionSetAppConfigRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionSetAppConfigRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionSetAppConfigRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionGetAppConfigCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionGetAppConfigCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionGetAppConfigCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionGetAppConfigRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionGetAppConfigRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionGetAppConfigRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionGetCountCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionGetCountCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionGetCountCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionGetCountRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionGetCountRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionGetCountRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionGetStateCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionGetStateCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionGetStateCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionGetStateRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionGetStateRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionGetStateRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionUpdateDtAnchorRangingRoundsCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionUpdateDtAnchorRangingRoundsCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionUpdateDtAnchorRangingRoundsCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionUpdateDtAnchorRangingRoundsRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionUpdateDtAnchorRangingRoundsRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionUpdateDtAnchorRangingRoundsRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionUpdateDtTagRangingRoundsCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionUpdateDtTagRangingRoundsCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionUpdateDtTagRangingRoundsCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionUpdateDtTagRangingRoundsRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionUpdateDtTagRangingRoundsRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionUpdateDtTagRangingRoundsRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for Controlee
open spec fn enc_ok(&self) -> bool { crate::codec::encok_Controlee(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_Controlee(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_Controlee(b) && crate::codec::wf_Controlee(p) && 0 <= crate::codec::len_Controlee(b) <= b.len() && rest == b.subrange(crate::codec::len_Controlee(b), b.len() as int) && crate::codec::encp_Controlee(p) == b.subrange(0, crate::codec::len_Controlee(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_Controlee(b) }
@impl packets::uci::Packet for Controlee_V2_0_16_Byte_Version
open spec fn enc_ok(&self) -> bool { crate::codec::encok_Controlee_V2_0_16_Byte_Version(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_Controlee_V2_0_16_Byte_Version(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_Controlee_V2_0_16_Byte_Version(b) && crate::codec::wf_Controlee_V2_0_16_Byte_Version(p) && 0 <= crate::codec::len_Controlee_V2_0_16_Byte_Version(b) <= b.len() && rest == b.subrange(crate::codec::len_Controlee_V2_0_16_Byte_Version(b), b.len() as int) && crate::codec::encp_Controlee_V2_0_16_Byte_Version(p) == b.subrange(0, crate::codec::len_Controlee_V2_0_16_Byte_Version(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_Controlee_V2_0_16_Byte_Version(b) }
@impl packets::uci::Packet for Controlee_V2_0_32_Byte_Version
open spec fn enc_ok(&self) -> bool { crate::codec::encok_Controlee_V2_0_32_Byte_Version(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_Controlee_V2_0_32_Byte_Version(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_Controlee_V2_0_32_Byte_Version(b) && crate::codec::wf_Controlee_V2_0_32_Byte_Version(p) && 0 <= crate::codec::len_Controlee_V2_0_32_Byte_Version(b) <= b.len() && rest == b.subrange(crate::codec::len_Controlee_V2_0_32_Byte_Version(b), b.len() as int) && crate::codec::encp_Controlee_V2_0_32_Byte_Version(p) == b.subrange(0, crate::codec::len_Controlee_V2_0_32_Byte_Version(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_Controlee_V2_0_32_Byte_Version(b) }
@impl packets::uci::Packet for SessionUpdateControllerMulticastListCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionUpdateControllerMulticastListCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionUpdateControllerMulticastListCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionUpdateControllerMulticastListCmdPayload
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionUpdateControllerMulticastListCmdPayload(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionUpdateControllerMulticastListCmdPayload(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_SessionUpdateControllerMulticastListCmdPayload(b) && crate::codec::wf_SessionUpdateControllerMulticastListCmdPayload(p) && 0 <= crate::codec::len_SessionUpdateControllerMulticastListCmdPayload(b) <= b.len() && rest == b.subrange(crate::codec::len_SessionUpdateControllerMulticastListCmdPayload(b), b.len() as int) && crate::codec::encp_SessionUpdateControllerMulticastListCmdPayload(p) == b.subrange(0, crate::codec::len_SessionUpdateControllerMulticastListCmdPayload(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_SessionUpdateControllerMulticastListCmdPayload(b) }
@impl packets::uci::Packet for SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(b) && crate::codec::wf_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(p) && 0 <= crate::codec::len_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(b) <= b.len() && rest == b.subrange(crate::codec::len_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(b), b.len() as int) && crate::codec::encp_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(p) == b.subrange(0, crate::codec::len_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload(b) }
@impl packets::uci::Packet for SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(b) && crate::codec::wf_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(p) && 0 <= crate::codec::len_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(b) <= b.len() && rest == b.subrange(crate::codec::len_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(b), b.len() as int) && crate::codec::encp_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(p) == b.subrange(0, crate::codec::len_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(b) }
@impl packets::uci::Packet for SessionUpdateControllerMulticastListRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionUpdateControllerMulticastListRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionUpdateControllerMulticastListRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for ControleeStatus
open spec fn enc_ok(&self) -> bool { crate::codec::encok_ControleeStatus(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_ControleeStatus(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_ControleeStatus(b) && crate::codec::wf_ControleeStatus(p) && 0 <= crate::codec::len_ControleeStatus(b) <= b.len() && rest == b.subrange(crate::codec::len_ControleeStatus(b), b.len() as int) && crate::codec::encp_ControleeStatus(p) == b.subrange(0, crate::codec::len_ControleeStatus(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_ControleeStatus(b) }
@impl packets::uci::Packet for SessionUpdateControllerMulticastListNtf
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionUpdateControllerMulticastListNtf(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionUpdateControllerMulticastListNtf(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionDataCreditNtf
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionDataCreditNtf(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionDataCreditNtf(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionDataTransferStatusNtf
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionDataTransferStatusNtf(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionDataTransferStatusNtf(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionQueryMaxDataSizeInRangingCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionQueryMaxDataSizeInRangingCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionQueryMaxDataSizeInRangingCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionQueryMaxDataSizeInRangingRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionQueryMaxDataSizeInRangingRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionQueryMaxDataSizeInRangingRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionStartCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionStartCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionStartCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionStartRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionStartRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionStartRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for ShortAddressTwoWayRangingMeasurement
open spec fn enc_ok(&self) -> bool { crate::codec::encok_ShortAddressTwoWayRangingMeasurement(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_ShortAddressTwoWayRangingMeasurement(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionInfoNtf
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionInfoNtf(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionInfoNtf(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for ShortMacTwoWaySessionInfoNtf
open spec fn enc_ok(&self) -> bool { crate::codec::encok_ShortMacTwoWaySessionInfoNtf(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_ShortMacTwoWaySessionInfoNtf(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionStopCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionStopCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionStopCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionStopRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionStopRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionStopRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionGetRangingCountCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionGetRangingCountCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionGetRangingCountCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for SessionGetRangingCountRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_SessionGetRangingCountRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_SessionGetRangingCountRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for AndroidGetPowerStatsCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_AndroidGetPowerStatsCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_AndroidGetPowerStatsCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for PowerStats
open spec fn enc_ok(&self) -> bool { crate::codec::encok_PowerStats(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_PowerStats(*self) }
open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {
    crate::codec::pre_PowerStats(b) && crate::codec::wf_PowerStats(p) && 0 <= crate::codec::len_PowerStats(b) <= b.len() && rest == b.subrange(crate::codec::len_PowerStats(b), b.len() as int) && crate::codec::encp_PowerStats(p) == b.subrange(0, crate::codec::len_PowerStats(b))
}
open spec fn dec_bad(b: Seq<u8>) -> bool { !crate::codec::pre_PowerStats(b) }
@impl packets::uci::Packet for AndroidGetPowerStatsRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_AndroidGetPowerStatsRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_AndroidGetPowerStatsRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for AndroidSetCountryCodeCmd
open spec fn enc_ok(&self) -> bool { crate::codec::encok_AndroidSetCountryCodeCmd(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_AndroidSetCountryCodeCmd(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@impl packets::uci::Packet for AndroidSetCountryCodeRsp
open spec fn enc_ok(&self) -> bool { crate::codec::encok_AndroidSetCountryCodeRsp(*self) }
open spec fn enc(&self) -> Seq<u8> { crate::codec::encf_AndroidSetCountryCodeRsp(*self) }
uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
uninterp spec fn dec_bad(b: Seq<u8>) -> bool;
@fn packets::uci::Packet for RangingRoundControl::encode
@start
proof { reveal(crate::codec::encp_RangingRoundControl); reveal(crate::codec::encf_RangingRoundControl);  }
@fn packets::uci::Packet for ResultReportConfig::encode
@start
proof { reveal(crate::codec::encp_ResultReportConfig); reveal(crate::codec::encf_ResultReportConfig);  }
@fn packets::uci::Packet for CommonPacketHeader::encode
@start
proof { reveal(crate::codec::encp_CommonPacketHeader); reveal(crate::codec::encf_CommonPacketHeader);  }
@fn packets::uci::Packet for ControlPacketHeader::encode
@start
proof { reveal(crate::codec::encp_ControlPacketHeader); reveal(crate::codec::encf_ControlPacketHeader);  }
@fn packets::uci::Packet for DataPacketHeader::encode
@start
proof { reveal(crate::codec::encp_DataPacketHeader); reveal(crate::codec::encf_DataPacketHeader);  }
@fn packets::uci::Packet for ControlPacket::encode
@start
proof { reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket);  }
@fn packets::uci::Packet for DataPacket::encode
@start
proof { reveal(crate::codec::encp_DataPacket); reveal(crate::codec::encf_DataPacket);  }
@fn packets::uci::DataMessageSnd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_DataMessageSnd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_DataMessageSnd(*self)
@start
proof { reveal(crate::codec::encp_DataMessageSnd); reveal(crate::codec::encf_DataMessageSnd); assert(self.application_data@.subrange(0, self.application_data@.len() as int) == self.application_data@); }
@loop 1
@inv buf@ == old(buf)@ + crate::stubs::u32le(self.session_handle) + crate::stubs::u64le(self.destination_address) + crate::stubs::u16le(self.data_sequence_number) + crate::stubs::u16le(self.application_data@.len() as u16) + self.application_data@.subrange(0, $I as int)
@loopend proof { assert(self.application_data@.subrange(0, $I as int) == self.application_data@.subrange(0, $I - 1).push(self.application_data@[$I - 1])); }
@fn packets::uci::Packet for DataMessageSnd::encode
@start
proof { reveal(crate::codec::encf_DataMessageSnd); }
@fn packets::uci::DataMessageRcv::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_DataMessageRcv(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_DataMessageRcv(*self)
@start
proof { reveal(crate::codec::encp_DataMessageRcv); reveal(crate::codec::encf_DataMessageRcv); assert(self.application_data@.subrange(0, self.application_data@.len() as int) == self.application_data@); }
@loop 1
@inv buf@ == old(buf)@ + crate::stubs::u32le(self.session_handle) + seq![crate::codec::code_Status(self.status)] + crate::stubs::u64le(self.source_address) + crate::stubs::u16le(self.data_sequence_number) + crate::stubs::u16le(self.application_data@.len() as u16) + self.application_data@.subrange(0, $I as int)
@loopend proof { assert(self.application_data@.subrange(0, $I as int) == self.application_data@.subrange(0, $I - 1).push(self.application_data@[$I - 1])); }
@fn packets::uci::Packet for DataMessageRcv::encode
@start
proof { reveal(crate::codec::encf_DataMessageRcv); }
@fn packets::uci::CorePacket::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CorePacket(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CorePacket(*self)
@start
proof { reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket);  }
@fn packets::uci::Packet for CorePacket::encode
@start
proof { reveal(crate::codec::encf_CorePacket); }
@fn packets::uci::SessionConfigPacket::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionConfigPacket(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionConfigPacket(*self)
@start
proof { reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket);  }
@fn packets::uci::Packet for SessionConfigPacket::encode
@start
proof { reveal(crate::codec::encf_SessionConfigPacket); }
@fn packets::uci::SessionControlPacket::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionControlPacket(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionControlPacket(*self)
@start
proof { reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket);  }
@fn packets::uci::Packet for SessionControlPacket::encode
@start
proof { reveal(crate::codec::encf_SessionControlPacket); }
@fn packets::uci::AndroidPacket::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_AndroidPacket(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_AndroidPacket(*self)
@start
proof { reveal(crate::codec::encp_AndroidPacket); reveal(crate::codec::encf_AndroidPacket);  }
@fn packets::uci::Packet for AndroidPacket::encode
@start
proof { reveal(crate::codec::encf_AndroidPacket); }
@fn packets::uci::CoreDeviceResetCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreDeviceResetCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreDeviceResetCmd(*self)
@start
proof { reveal(crate::codec::encp_CoreDeviceResetCmd); reveal(crate::codec::encf_CoreDeviceResetCmd);  }
@fn packets::uci::Packet for CoreDeviceResetCmd::encode
@start
proof { reveal(crate::codec::encf_CoreDeviceResetCmd); }
@fn packets::uci::CoreDeviceResetRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreDeviceResetRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreDeviceResetRsp(*self)
@start
proof { reveal(crate::codec::encp_CoreDeviceResetRsp); reveal(crate::codec::encf_CoreDeviceResetRsp);  }
@fn packets::uci::Packet for CoreDeviceResetRsp::encode
@start
proof { reveal(crate::codec::encf_CoreDeviceResetRsp); }
@fn packets::uci::CoreDeviceStatusNtf::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreDeviceStatusNtf(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreDeviceStatusNtf(*self)
@start
proof { reveal(crate::codec::encp_CoreDeviceStatusNtf); reveal(crate::codec::encf_CoreDeviceStatusNtf);  }
@fn packets::uci::Packet for CoreDeviceStatusNtf::encode
@start
proof { reveal(crate::codec::encf_CoreDeviceStatusNtf); }
@fn packets::uci::CoreGetDeviceInfoCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreGetDeviceInfoCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreGetDeviceInfoCmd(*self)
@start
proof { reveal(crate::codec::encp_CoreGetDeviceInfoCmd); reveal(crate::codec::encf_CoreGetDeviceInfoCmd);  }
@fn packets::uci::Packet for CoreGetDeviceInfoCmd::encode
@start
proof { reveal(crate::codec::encf_CoreGetDeviceInfoCmd); }
@fn packets::uci::CoreGetDeviceInfoRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreGetDeviceInfoRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreGetDeviceInfoRsp(*self)
@start
proof { reveal(crate::codec::encp_CoreGetDeviceInfoRsp); reveal(crate::codec::encf_CoreGetDeviceInfoRsp); assert(self.vendor_spec_info@.subrange(0, self.vendor_spec_info@.len() as int) == self.vendor_spec_info@); }
@loop 1
@inv buf@ == old(buf)@ + seq![crate::codec::code_Status(self.status)] + crate::stubs::u16le(self.uci_version) + crate::stubs::u16le(self.mac_version) + crate::stubs::u16le(self.phy_version) + crate::stubs::u16le(self.uci_test_version) + seq![self.vendor_spec_info@.len() as u8] + self.vendor_spec_info@.subrange(0, $I as int)
@loopend proof { assert(self.vendor_spec_info@.subrange(0, $I as int) == self.vendor_spec_info@.subrange(0, $I - 1).push(self.vendor_spec_info@[$I - 1])); }
@fn packets::uci::Packet for CoreGetDeviceInfoRsp::encode
@start
proof { reveal(crate::codec::encf_CoreGetDeviceInfoRsp); }
@fn packets::uci::CoreGetCapsInfoCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreGetCapsInfoCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreGetCapsInfoCmd(*self)
@start
proof { reveal(crate::codec::encp_CoreGetCapsInfoCmd); reveal(crate::codec::encf_CoreGetCapsInfoCmd);  }
@fn packets::uci::Packet for CoreGetCapsInfoCmd::encode
@start
proof { reveal(crate::codec::encf_CoreGetCapsInfoCmd); }
@fn packets::uci::Packet for CapTlv::encode
@start
proof { reveal(crate::codec::encp_CapTlv); reveal(crate::codec::encf_CapTlv); assert(self.v@.subrange(0, self.v@.len() as int) == self.v@); }
@loop 1
@inv buf@ == old(buf)@ + seq![crate::codec::code_CapTlvType(self.t)] + seq![self.v@.len() as u8] + self.v@.subrange(0, $I as int)
@loopend proof { assert(self.v@.subrange(0, $I as int) == self.v@.subrange(0, $I - 1).push(self.v@[$I - 1])); }
@fn packets::uci::CoreGetCapsInfoRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreGetCapsInfoRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreGetCapsInfoRsp(*self)
@start
proof { reveal(crate::codec::encp_CoreGetCapsInfoRsp); reveal(crate::codec::encf_CoreGetCapsInfoRsp); assert(self.tlvs@.subrange(0, self.tlvs@.len() as int) == self.tlvs@); }
@loop 1
@inv buf@ == old(buf)@ + seq![crate::codec::code_Status(self.status)] + seq![self.tlvs@.len() as u8] + crate::codec::cat_CapTlv(self.tlvs@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_CapTlv(self.tlvs@, $I - 1); }
@fn packets::uci::Packet for CoreGetCapsInfoRsp::encode
@start
proof { reveal(crate::codec::encf_CoreGetCapsInfoRsp); }
@fn packets::uci::Packet for ConfigParameter::encode
@start
proof { reveal(crate::codec::encp_ConfigParameter); reveal(crate::codec::encf_ConfigParameter); assert(self.value@.subrange(0, self.value@.len() as int) == self.value@); }
@loop 1
@inv buf@ == old(buf)@ + seq![crate::codec::code_ConfigParameterId(self.id)] + crate::stubs::u8le(self.value@.len() as u8) + self.value@.subrange(0, $I as int)
@loopend proof { assert(self.value@.subrange(0, $I as int) == self.value@.subrange(0, $I - 1).push(self.value@[$I - 1])); }
@fn packets::uci::CoreSetConfigCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreSetConfigCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreSetConfigCmd(*self)
@start
proof { reveal(crate::codec::encp_CoreSetConfigCmd); reveal(crate::codec::encf_CoreSetConfigCmd); assert(self.parameters@.subrange(0, self.parameters@.len() as int) == self.parameters@); }
@loop 1
@inv (forall|j: int| 0 <= j < $I ==> crate::codec::encok_ConfigParameter(#[trigger] self.parameters@[j]))
@inv buf@ == old(buf)@ + seq![self.parameters@.len() as u8] + crate::codec::cat_ConfigParameter(self.parameters@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_ConfigParameter(self.parameters@, $I - 1); }
@fn packets::uci::Packet for CoreSetConfigCmd::encode
@start
proof { reveal(crate::codec::encf_CoreSetConfigCmd); }
@fn packets::uci::Packet for ConfigParameterStatus::encode
@start
proof { reveal(crate::codec::encp_ConfigParameterStatus); reveal(crate::codec::encf_ConfigParameterStatus);  }
@fn packets::uci::CoreSetConfigRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreSetConfigRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreSetConfigRsp(*self)
@start
proof { reveal(crate::codec::encp_CoreSetConfigRsp); reveal(crate::codec::encf_CoreSetConfigRsp); assert(self.parameters@.subrange(0, self.parameters@.len() as int) == self.parameters@); }
@loop 1
@inv buf@ == old(buf)@ + seq![crate::codec::code_Status(self.status)] + seq![self.parameters@.len() as u8] + crate::codec::cat_ConfigParameterStatus(self.parameters@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_ConfigParameterStatus(self.parameters@, $I - 1); }
@fn packets::uci::Packet for CoreSetConfigRsp::encode
@start
proof { reveal(crate::codec::encf_CoreSetConfigRsp); }
@fn packets::uci::CoreGetConfigCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreGetConfigCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreGetConfigCmd(*self)
@start
proof { reveal(crate::codec::encp_CoreGetConfigCmd); reveal(crate::codec::encf_CoreGetConfigCmd); assert(crate::codec::codes_ConfigParameterId(self.parameter_ids@).subrange(0, self.parameter_ids@.len() as int) == crate::codec::codes_ConfigParameterId(self.parameter_ids@)); }
@loop 1
@inv buf@ == old(buf)@ + seq![self.parameter_ids@.len() as u8] + crate::codec::codes_ConfigParameterId(self.parameter_ids@).subrange(0, $I as int)
@loopend proof { assert(crate::codec::codes_ConfigParameterId(self.parameter_ids@).subrange(0, $I as int) == crate::codec::codes_ConfigParameterId(self.parameter_ids@).subrange(0, $I - 1).push(crate::codec::code_ConfigParameterId(self.parameter_ids@[$I - 1]))); }
@fn packets::uci::Packet for CoreGetConfigCmd::encode
@start
proof { reveal(crate::codec::encf_CoreGetConfigCmd); }
@fn packets::uci::CoreGetConfigRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreGetConfigRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreGetConfigRsp(*self)
@start
proof { reveal(crate::codec::encp_CoreGetConfigRsp); reveal(crate::codec::encf_CoreGetConfigRsp); assert(self.parameters@.subrange(0, self.parameters@.len() as int) == self.parameters@); }
@loop 1
@inv (forall|j: int| 0 <= j < $I ==> crate::codec::encok_ConfigParameter(#[trigger] self.parameters@[j]))
@inv buf@ == old(buf)@ + seq![crate::codec::code_Status(self.status)] + seq![self.parameters@.len() as u8] + crate::codec::cat_ConfigParameter(self.parameters@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_ConfigParameter(self.parameters@, $I - 1); }
@fn packets::uci::Packet for CoreGetConfigRsp::encode
@start
proof { reveal(crate::codec::encf_CoreGetConfigRsp); }
@fn packets::uci::CoreGenericErrorNtf::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreGenericErrorNtf(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreGenericErrorNtf(*self)
@start
proof { reveal(crate::codec::encp_CoreGenericErrorNtf); reveal(crate::codec::encf_CoreGenericErrorNtf);  }
@fn packets::uci::Packet for CoreGenericErrorNtf::encode
@start
proof { reveal(crate::codec::encf_CoreGenericErrorNtf); }
@fn packets::uci::CoreQueryTimeStampCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreQueryTimeStampCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreQueryTimeStampCmd(*self)
@start
proof { reveal(crate::codec::encp_CoreQueryTimeStampCmd); reveal(crate::codec::encf_CoreQueryTimeStampCmd);  }
@fn packets::uci::Packet for CoreQueryTimeStampCmd::encode
@start
proof { reveal(crate::codec::encf_CoreQueryTimeStampCmd); }
@fn packets::uci::CoreQueryTimeStampRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_CoreQueryTimeStampRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_CoreQueryTimeStampRsp(*self)
@start
proof { reveal(crate::codec::encp_CoreQueryTimeStampRsp); reveal(crate::codec::encf_CoreQueryTimeStampRsp);  }
@fn packets::uci::Packet for CoreQueryTimeStampRsp::encode
@start
proof { reveal(crate::codec::encf_CoreQueryTimeStampRsp); }
@fn packets::uci::SessionInitCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionInitCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionInitCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionInitCmd); reveal(crate::codec::encf_SessionInitCmd);  }
@fn packets::uci::Packet for SessionInitCmd::encode
@start
proof { reveal(crate::codec::encf_SessionInitCmd); }
@fn packets::uci::SessionInitRsp_V2::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionInitRsp_V2(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionInitRsp_V2(*self)
@start
proof { reveal(crate::codec::encp_SessionInitRsp_V2); reveal(crate::codec::encf_SessionInitRsp_V2);  }
@fn packets::uci::Packet for SessionInitRsp_V2::encode
@start
proof { reveal(crate::codec::encf_SessionInitRsp_V2); }
@fn packets::uci::SessionInitRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionInitRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionInitRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionInitRsp); reveal(crate::codec::encf_SessionInitRsp);  }
@fn packets::uci::Packet for SessionInitRsp::encode
@start
proof { reveal(crate::codec::encf_SessionInitRsp); }
@fn packets::uci::SessionDeinitCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionDeinitCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionDeinitCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionDeinitCmd); reveal(crate::codec::encf_SessionDeinitCmd);  }
@fn packets::uci::Packet for SessionDeinitCmd::encode
@start
proof { reveal(crate::codec::encf_SessionDeinitCmd); }
@fn packets::uci::SessionDeinitRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionDeinitRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionDeinitRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionDeinitRsp); reveal(crate::codec::encf_SessionDeinitRsp);  }
@fn packets::uci::Packet for SessionDeinitRsp::encode
@start
proof { reveal(crate::codec::encf_SessionDeinitRsp); }
@fn packets::uci::SessionStatusNtf::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionStatusNtf(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionStatusNtf(*self)
@start
proof { reveal(crate::codec::encp_SessionStatusNtf); reveal(crate::codec::encf_SessionStatusNtf);  }
@fn packets::uci::Packet for SessionStatusNtf::encode
@start
proof { reveal(crate::codec::encf_SessionStatusNtf); }
@fn packets::uci::Packet for AppConfigTlv::encode
@start
proof { reveal(crate::codec::encp_AppConfigTlv); reveal(crate::codec::encf_AppConfigTlv); assert(self.v@.subrange(0, self.v@.len() as int) == self.v@); }
@loop 1
@inv buf@ == old(buf)@ + seq![crate::codec::code_AppConfigTlvType(self.cfg_id)] + seq![self.v@.len() as u8] + self.v@.subrange(0, $I as int)
@loopend proof { assert(self.v@.subrange(0, $I as int) == self.v@.subrange(0, $I - 1).push(self.v@[$I - 1])); }
@fn packets::uci::SessionSetAppConfigCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionSetAppConfigCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionSetAppConfigCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionSetAppConfigCmd); reveal(crate::codec::encf_SessionSetAppConfigCmd); assert(self.tlvs@.subrange(0, self.tlvs@.len() as int) == self.tlvs@); }
@loop 1
@inv buf@ == old(buf)@ + crate::stubs::u32le(self.session_token) + seq![self.tlvs@.len() as u8] + crate::codec::cat_AppConfigTlv(self.tlvs@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_AppConfigTlv(self.tlvs@, $I - 1); }
@fn packets::uci::Packet for SessionSetAppConfigCmd::encode
@start
proof { reveal(crate::codec::encf_SessionSetAppConfigCmd); }
@fn packets::uci::Packet for AppConfigStatus::encode
@start
proof { reveal(crate::codec::encp_AppConfigStatus); reveal(crate::codec::encf_AppConfigStatus);  }
@fn packets::uci::SessionSetAppConfigRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionSetAppConfigRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionSetAppConfigRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionSetAppConfigRsp); reveal(crate::codec::encf_SessionSetAppConfigRsp); assert(self.cfg_status@.subrange(0, self.cfg_status@.len() as int) == self.cfg_status@); }
@loop 1
@inv buf@ == old(buf)@ + seq![crate::codec::code_Status(self.status)] + seq![self.cfg_status@.len() as u8] + crate::codec::cat_AppConfigStatus(self.cfg_status@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_AppConfigStatus(self.cfg_status@, $I - 1); }
@fn packets::uci::Packet for SessionSetAppConfigRsp::encode
@start
proof { reveal(crate::codec::encf_SessionSetAppConfigRsp); }
@fn packets::uci::SessionGetAppConfigCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionGetAppConfigCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionGetAppConfigCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionGetAppConfigCmd); reveal(crate::codec::encf_SessionGetAppConfigCmd); assert(crate::codec::codes_AppConfigTlvType(self.app_cfg@).subrange(0, self.app_cfg@.len() as int) == crate::codec::codes_AppConfigTlvType(self.app_cfg@)); }
@loop 1
@inv buf@ == old(buf)@ + crate::stubs::u32le(self.session_token) + seq![self.app_cfg@.len() as u8] + crate::codec::codes_AppConfigTlvType(self.app_cfg@).subrange(0, $I as int)
@loopend proof { assert(crate::codec::codes_AppConfigTlvType(self.app_cfg@).subrange(0, $I as int) == crate::codec::codes_AppConfigTlvType(self.app_cfg@).subrange(0, $I - 1).push(crate::codec::code_AppConfigTlvType(self.app_cfg@[$I - 1]))); }
@fn packets::uci::Packet for SessionGetAppConfigCmd::encode
@start
proof { reveal(crate::codec::encf_SessionGetAppConfigCmd); }
@fn packets::uci::SessionGetAppConfigRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionGetAppConfigRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionGetAppConfigRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionGetAppConfigRsp); reveal(crate::codec::encf_SessionGetAppConfigRsp); assert(self.tlvs@.subrange(0, self.tlvs@.len() as int) == self.tlvs@); }
@loop 1
@inv buf@ == old(buf)@ + seq![crate::codec::code_Status(self.status)] + seq![self.tlvs@.len() as u8] + crate::codec::cat_AppConfigTlv(self.tlvs@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_AppConfigTlv(self.tlvs@, $I - 1); }
@fn packets::uci::Packet for SessionGetAppConfigRsp::encode
@start
proof { reveal(crate::codec::encf_SessionGetAppConfigRsp); }
@fn packets::uci::SessionGetCountCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionGetCountCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionGetCountCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionGetCountCmd); reveal(crate::codec::encf_SessionGetCountCmd);  }
@fn packets::uci::Packet for SessionGetCountCmd::encode
@start
proof { reveal(crate::codec::encf_SessionGetCountCmd); }
@fn packets::uci::SessionGetCountRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionGetCountRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionGetCountRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionGetCountRsp); reveal(crate::codec::encf_SessionGetCountRsp);  }
@fn packets::uci::Packet for SessionGetCountRsp::encode
@start
proof { reveal(crate::codec::encf_SessionGetCountRsp); }
@fn packets::uci::SessionGetStateCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionGetStateCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionGetStateCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionGetStateCmd); reveal(crate::codec::encf_SessionGetStateCmd);  }
@fn packets::uci::Packet for SessionGetStateCmd::encode
@start
proof { reveal(crate::codec::encf_SessionGetStateCmd); }
@fn packets::uci::SessionGetStateRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionGetStateRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionGetStateRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionGetStateRsp); reveal(crate::codec::encf_SessionGetStateRsp);  }
@fn packets::uci::Packet for SessionGetStateRsp::encode
@start
proof { reveal(crate::codec::encf_SessionGetStateRsp); }
@fn packets::uci::SessionUpdateDtAnchorRangingRoundsCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionUpdateDtAnchorRangingRoundsCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionUpdateDtAnchorRangingRoundsCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionUpdateDtAnchorRangingRoundsCmd); reveal(crate::codec::encf_SessionUpdateDtAnchorRangingRoundsCmd);  }
@fn packets::uci::Packet for SessionUpdateDtAnchorRangingRoundsCmd::encode
@start
proof { reveal(crate::codec::encf_SessionUpdateDtAnchorRangingRoundsCmd); }
@fn packets::uci::SessionUpdateDtAnchorRangingRoundsRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionUpdateDtAnchorRangingRoundsRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionUpdateDtAnchorRangingRoundsRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionUpdateDtAnchorRangingRoundsRsp); reveal(crate::codec::encf_SessionUpdateDtAnchorRangingRoundsRsp);  }
@fn packets::uci::Packet for SessionUpdateDtAnchorRangingRoundsRsp::encode
@start
proof { reveal(crate::codec::encf_SessionUpdateDtAnchorRangingRoundsRsp); }
@fn packets::uci::SessionUpdateDtTagRangingRoundsCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionUpdateDtTagRangingRoundsCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionUpdateDtTagRangingRoundsCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionUpdateDtTagRangingRoundsCmd); reveal(crate::codec::encf_SessionUpdateDtTagRangingRoundsCmd); assert(self.ranging_round_indexes@.subrange(0, self.ranging_round_indexes@.len() as int) == self.ranging_round_indexes@); }
@loop 1
@inv buf@ == old(buf)@ + crate::stubs::u32le(self.session_token) + seq![self.ranging_round_indexes@.len() as u8] + self.ranging_round_indexes@.subrange(0, $I as int)
@loopend proof { assert(self.ranging_round_indexes@.subrange(0, $I as int) == self.ranging_round_indexes@.subrange(0, $I - 1).push(self.ranging_round_indexes@[$I - 1])); }
@fn packets::uci::Packet for SessionUpdateDtTagRangingRoundsCmd::encode
@start
proof { reveal(crate::codec::encf_SessionUpdateDtTagRangingRoundsCmd); }
@fn packets::uci::SessionUpdateDtTagRangingRoundsRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionUpdateDtTagRangingRoundsRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionUpdateDtTagRangingRoundsRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionUpdateDtTagRangingRoundsRsp); reveal(crate::codec::encf_SessionUpdateDtTagRangingRoundsRsp); assert(self.ranging_round_indexes@.subrange(0, self.ranging_round_indexes@.len() as int) == self.ranging_round_indexes@); }
@loop 1
@inv buf@ == old(buf)@ + seq![crate::codec::code_Status(self.status)] + seq![self.ranging_round_indexes@.len() as u8] + self.ranging_round_indexes@.subrange(0, $I as int)
@loopend proof { assert(self.ranging_round_indexes@.subrange(0, $I as int) == self.ranging_round_indexes@.subrange(0, $I - 1).push(self.ranging_round_indexes@[$I - 1])); }
@fn packets::uci::Packet for SessionUpdateDtTagRangingRoundsRsp::encode
@start
proof { reveal(crate::codec::encf_SessionUpdateDtTagRangingRoundsRsp); }
@fn packets::uci::Packet for Controlee::encode
@start
proof { reveal(crate::codec::encp_Controlee); reveal(crate::codec::encf_Controlee); assert(self.short_address@.subrange(0, self.short_address@.len() as int) == self.short_address@); }
@loop 1
@inv buf@ == old(buf)@ + self.short_address@.subrange(0, $I as int)
@loopend proof { assert(self.short_address@.subrange(0, $I as int) == self.short_address@.subrange(0, $I - 1).push(self.short_address@[$I - 1])); }
@fn packets::uci::Packet for Controlee_V2_0_16_Byte_Version::encode
@start
proof { reveal(crate::codec::encp_Controlee_V2_0_16_Byte_Version); reveal(crate::codec::encf_Controlee_V2_0_16_Byte_Version); assert(self.short_address@.subrange(0, self.short_address@.len() as int) == self.short_address@); assert(self.subsession_key@.subrange(0, self.subsession_key@.len() as int) == self.subsession_key@); }
@loop 1
@inv buf@ == old(buf)@ + self.short_address@.subrange(0, $I as int)
@loopend proof { assert(self.short_address@.subrange(0, $I as int) == self.short_address@.subrange(0, $I - 1).push(self.short_address@[$I - 1])); }
@loop 2
@inv buf@ == old(buf)@ + self.short_address@ + crate::stubs::u32le(self.subsession_id) + self.subsession_key@.subrange(0, $I as int)
@loopend proof { assert(self.subsession_key@.subrange(0, $I as int) == self.subsession_key@.subrange(0, $I - 1).push(self.subsession_key@[$I - 1])); }
@fn packets::uci::Packet for Controlee_V2_0_32_Byte_Version::encode
@start
proof { reveal(crate::codec::encp_Controlee_V2_0_32_Byte_Version); reveal(crate::codec::encf_Controlee_V2_0_32_Byte_Version); assert(self.short_address@.subrange(0, self.short_address@.len() as int) == self.short_address@); assert(self.subsession_key@.subrange(0, self.subsession_key@.len() as int) == self.subsession_key@); }
@loop 1
@inv buf@ == old(buf)@ + self.short_address@.subrange(0, $I as int)
@loopend proof { assert(self.short_address@.subrange(0, $I as int) == self.short_address@.subrange(0, $I - 1).push(self.short_address@[$I - 1])); }
@loop 2
@inv buf@ == old(buf)@ + self.short_address@ + crate::stubs::u32le(self.subsession_id) + self.subsession_key@.subrange(0, $I as int)
@loopend proof { assert(self.subsession_key@.subrange(0, $I as int) == self.subsession_key@.subrange(0, $I - 1).push(self.subsession_key@[$I - 1])); }
@fn packets::uci::SessionUpdateControllerMulticastListCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionUpdateControllerMulticastListCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListCmd); reveal(crate::codec::encf_SessionUpdateControllerMulticastListCmd);  }
@fn packets::uci::Packet for SessionUpdateControllerMulticastListCmd::encode
@start
proof { reveal(crate::codec::encf_SessionUpdateControllerMulticastListCmd); }
@fn packets::uci::Packet for SessionUpdateControllerMulticastListCmdPayload::encode
@start
proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListCmdPayload); reveal(crate::codec::encf_SessionUpdateControllerMulticastListCmdPayload); assert(self.controlees@.subrange(0, self.controlees@.len() as int) == self.controlees@); }
@loop 1
@inv buf@ == old(buf)@ + seq![self.controlees@.len() as u8] + crate::codec::cat_Controlee(self.controlees@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_Controlee(self.controlees@, $I - 1); }
@fn packets::uci::Packet for SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload::encode
@start
proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload); reveal(crate::codec::encf_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload); assert(self.controlees@.subrange(0, self.controlees@.len() as int) == self.controlees@); }
@loop 1
@inv buf@ == old(buf)@ + seq![self.controlees@.len() as u8] + crate::codec::cat_Controlee_V2_0_16_Byte_Version(self.controlees@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_Controlee_V2_0_16_Byte_Version(self.controlees@, $I - 1); }
@fn packets::uci::Packet for SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload::encode
@start
proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload); reveal(crate::codec::encf_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload); assert(self.controlees@.subrange(0, self.controlees@.len() as int) == self.controlees@); }
@loop 1
@inv buf@ == old(buf)@ + seq![self.controlees@.len() as u8] + crate::codec::cat_Controlee_V2_0_32_Byte_Version(self.controlees@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_Controlee_V2_0_32_Byte_Version(self.controlees@, $I - 1); }
@fn packets::uci::SessionUpdateControllerMulticastListRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionUpdateControllerMulticastListRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListRsp); reveal(crate::codec::encf_SessionUpdateControllerMulticastListRsp); assert(self.controlee_status@.subrange(0, self.controlee_status@.len() as int) == self.controlee_status@); }
@loop 1
@inv buf@ == old(buf)@ + seq![crate::codec::code_Status(self.status)] + seq![self.controlee_status@.len() as u8] + crate::codec::cat_ControleeStatus(self.controlee_status@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_ControleeStatus(self.controlee_status@, $I - 1); }
@fn packets::uci::Packet for SessionUpdateControllerMulticastListRsp::encode
@start
proof { reveal(crate::codec::encf_SessionUpdateControllerMulticastListRsp); }
@fn packets::uci::Packet for ControleeStatus::encode
@start
proof { reveal(crate::codec::encp_ControleeStatus); reveal(crate::codec::encf_ControleeStatus); assert(self.mac_address@.subrange(0, self.mac_address@.len() as int) == self.mac_address@); }
@loop 1
@inv buf@ == old(buf)@ + self.mac_address@.subrange(0, $I as int)
@loopend proof { assert(self.mac_address@.subrange(0, $I as int) == self.mac_address@.subrange(0, $I - 1).push(self.mac_address@[$I - 1])); }
@fn packets::uci::SessionUpdateControllerMulticastListNtf::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListNtf(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionUpdateControllerMulticastListNtf(*self)
@start
proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListNtf); reveal(crate::codec::encf_SessionUpdateControllerMulticastListNtf); assert(self.controlee_status@.subrange(0, self.controlee_status@.len() as int) == self.controlee_status@); }
@loop 1
@inv buf@ == old(buf)@ + crate::stubs::u32le(self.session_token) + seq![self.controlee_status@.len() as u8] + crate::codec::cat_ControleeStatus(self.controlee_status@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_ControleeStatus(self.controlee_status@, $I - 1); }
@fn packets::uci::Packet for SessionUpdateControllerMulticastListNtf::encode
@start
proof { reveal(crate::codec::encf_SessionUpdateControllerMulticastListNtf); }
@fn packets::uci::SessionDataCreditNtf::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionDataCreditNtf(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionDataCreditNtf(*self)
@start
proof { reveal(crate::codec::encp_SessionDataCreditNtf); reveal(crate::codec::encf_SessionDataCreditNtf);  }
@fn packets::uci::Packet for SessionDataCreditNtf::encode
@start
proof { reveal(crate::codec::encf_SessionDataCreditNtf); }
@fn packets::uci::SessionDataTransferStatusNtf::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionDataTransferStatusNtf(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionDataTransferStatusNtf(*self)
@start
proof { reveal(crate::codec::encp_SessionDataTransferStatusNtf); reveal(crate::codec::encf_SessionDataTransferStatusNtf);  }
@fn packets::uci::Packet for SessionDataTransferStatusNtf::encode
@start
proof { reveal(crate::codec::encf_SessionDataTransferStatusNtf); }
@fn packets::uci::SessionQueryMaxDataSizeInRangingCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionQueryMaxDataSizeInRangingCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionQueryMaxDataSizeInRangingCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionQueryMaxDataSizeInRangingCmd); reveal(crate::codec::encf_SessionQueryMaxDataSizeInRangingCmd);  }
@fn packets::uci::Packet for SessionQueryMaxDataSizeInRangingCmd::encode
@start
proof { reveal(crate::codec::encf_SessionQueryMaxDataSizeInRangingCmd); }
@fn packets::uci::SessionQueryMaxDataSizeInRangingRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionQueryMaxDataSizeInRangingRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionQueryMaxDataSizeInRangingRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionQueryMaxDataSizeInRangingRsp); reveal(crate::codec::encf_SessionQueryMaxDataSizeInRangingRsp);  }
@fn packets::uci::Packet for SessionQueryMaxDataSizeInRangingRsp::encode
@start
proof { reveal(crate::codec::encf_SessionQueryMaxDataSizeInRangingRsp); }
@fn packets::uci::SessionStartCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionStartCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionStartCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionStartCmd); reveal(crate::codec::encf_SessionStartCmd);  }
@fn packets::uci::Packet for SessionStartCmd::encode
@start
proof { reveal(crate::codec::encf_SessionStartCmd); }
@fn packets::uci::SessionStartRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionStartRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionStartRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionStartRsp); reveal(crate::codec::encf_SessionStartRsp);  }
@fn packets::uci::Packet for SessionStartRsp::encode
@start
proof { reveal(crate::codec::encf_SessionStartRsp); }
@fn packets::uci::Packet for ShortAddressTwoWayRangingMeasurement::encode
@start
proof { reveal(crate::codec::encp_ShortAddressTwoWayRangingMeasurement); reveal(crate::codec::encf_ShortAddressTwoWayRangingMeasurement);  }
@fn packets::uci::SessionInfoNtf::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionInfoNtf(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionInfoNtf(*self)
@start
proof { reveal(crate::codec::encp_SessionInfoNtf); reveal(crate::codec::encf_SessionInfoNtf);  }
@fn packets::uci::Packet for SessionInfoNtf::encode
@start
proof { reveal(crate::codec::encf_SessionInfoNtf); }
@fn packets::uci::ShortMacTwoWaySessionInfoNtf::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_ShortMacTwoWaySessionInfoNtf(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_ShortMacTwoWaySessionInfoNtf(*self)
@start
proof { reveal(crate::codec::encp_ShortMacTwoWaySessionInfoNtf); reveal(crate::codec::encf_ShortMacTwoWaySessionInfoNtf); assert(self.two_way_ranging_measurements@.subrange(0, self.two_way_ranging_measurements@.len() as int) == self.two_way_ranging_measurements@); assert(self.vendor_data@.subrange(0, self.vendor_data@.len() as int) == self.vendor_data@); }
@loop 1
@inv buf@ == old(buf)@ + seq![self.two_way_ranging_measurements@.len() as u8] + crate::codec::cat_ShortAddressTwoWayRangingMeasurement(self.two_way_ranging_measurements@.subrange(0, $I as int))
@loopend proof { crate::codec::lem_cat_ShortAddressTwoWayRangingMeasurement(self.two_way_ranging_measurements@, $I - 1); }
@loop 2
@inv buf@ == old(buf)@ + seq![self.two_way_ranging_measurements@.len() as u8] + crate::codec::cat_ShortAddressTwoWayRangingMeasurement(self.two_way_ranging_measurements@) + self.vendor_data@.subrange(0, $I as int)
@loopend proof { assert(self.vendor_data@.subrange(0, $I as int) == self.vendor_data@.subrange(0, $I - 1).push(self.vendor_data@[$I - 1])); }
@fn packets::uci::Packet for ShortMacTwoWaySessionInfoNtf::encode
@start
proof { reveal(crate::codec::encf_ShortMacTwoWaySessionInfoNtf); }
@fn packets::uci::SessionStopCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionStopCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionStopCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionStopCmd); reveal(crate::codec::encf_SessionStopCmd);  }
@fn packets::uci::Packet for SessionStopCmd::encode
@start
proof { reveal(crate::codec::encf_SessionStopCmd); }
@fn packets::uci::SessionStopRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionStopRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionStopRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionStopRsp); reveal(crate::codec::encf_SessionStopRsp);  }
@fn packets::uci::Packet for SessionStopRsp::encode
@start
proof { reveal(crate::codec::encf_SessionStopRsp); }
@fn packets::uci::SessionGetRangingCountCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionGetRangingCountCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionGetRangingCountCmd(*self)
@start
proof { reveal(crate::codec::encp_SessionGetRangingCountCmd); reveal(crate::codec::encf_SessionGetRangingCountCmd);  }
@fn packets::uci::Packet for SessionGetRangingCountCmd::encode
@start
proof { reveal(crate::codec::encf_SessionGetRangingCountCmd); }
@fn packets::uci::SessionGetRangingCountRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_SessionGetRangingCountRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_SessionGetRangingCountRsp(*self)
@start
proof { reveal(crate::codec::encp_SessionGetRangingCountRsp); reveal(crate::codec::encf_SessionGetRangingCountRsp);  }
@fn packets::uci::Packet for SessionGetRangingCountRsp::encode
@start
proof { reveal(crate::codec::encf_SessionGetRangingCountRsp); }
@fn packets::uci::AndroidGetPowerStatsCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_AndroidGetPowerStatsCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_AndroidGetPowerStatsCmd(*self)
@start
proof { reveal(crate::codec::encp_AndroidGetPowerStatsCmd); reveal(crate::codec::encf_AndroidGetPowerStatsCmd);  }
@fn packets::uci::Packet for AndroidGetPowerStatsCmd::encode
@start
proof { reveal(crate::codec::encf_AndroidGetPowerStatsCmd); }
@fn packets::uci::Packet for PowerStats::encode
@start
proof { reveal(crate::codec::encp_PowerStats); reveal(crate::codec::encf_PowerStats);  }
@fn packets::uci::AndroidGetPowerStatsRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_AndroidGetPowerStatsRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_AndroidGetPowerStatsRsp(*self)
@start
proof { reveal(crate::codec::encp_AndroidGetPowerStatsRsp); reveal(crate::codec::encf_AndroidGetPowerStatsRsp);  }
@fn packets::uci::Packet for AndroidGetPowerStatsRsp::encode
@start
proof { reveal(crate::codec::encf_AndroidGetPowerStatsRsp); }
@fn packets::uci::AndroidSetCountryCodeCmd::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_AndroidSetCountryCodeCmd(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_AndroidSetCountryCodeCmd(*self)
@start
proof { reveal(crate::codec::encp_AndroidSetCountryCodeCmd); reveal(crate::codec::encf_AndroidSetCountryCodeCmd); assert(self.country_code@.subrange(0, self.country_code@.len() as int) == self.country_code@); }
@loop 1
@inv buf@ == old(buf)@ + self.country_code@.subrange(0, $I as int)
@loopend proof { assert(self.country_code@.subrange(0, $I as int) == self.country_code@.subrange(0, $I - 1).push(self.country_code@[$I - 1])); }
@fn packets::uci::Packet for AndroidSetCountryCodeCmd::encode
@start
proof { reveal(crate::codec::encf_AndroidSetCountryCodeCmd); }
@fn packets::uci::AndroidSetCountryCodeRsp::encode_partial
@ens E01: (r is Ok) == crate::codec::encok_AndroidSetCountryCodeRsp(*self)
@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + crate::codec::encp_AndroidSetCountryCodeRsp(*self)
@start
proof { reveal(crate::codec::encp_AndroidSetCountryCodeRsp); reveal(crate::codec::encf_AndroidSetCountryCodeRsp);  }
@fn packets::uci::Packet for AndroidSetCountryCodeRsp::encode
@start
proof { reveal(crate::codec::encf_AndroidSetCountryCodeRsp); }
@impl packets::uci::VTryFrom<&DataMessageSnd> for DataPacket
open spec fn try_from_ens(v: &DataMessageSnd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_DataMessageSnd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_DataPacket(x) == crate::codec::encf_DataMessageSnd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_DataMessageSnd(*v) ==> crate::codec::wf_DataPacket(x)))
    && (r matches Ok(x) ==> (x.dpf == DataPacketFormat::DataSnd))
    && (r matches Ok(x) ==> (x.pbf == v.pbf))
    && (r matches Ok(x) ==> (x.mt == MessageType::Data))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_DataMessageSnd(*v)))
}
@fn packets::uci::VTryFrom<&DataMessageSnd> for DataPacket::try_from
@start
proof { reveal(crate::codec::encf_DataMessageSnd); reveal(crate::codec::encf_DataPacket); reveal(crate::codec::encp_DataPacket);  }
@impl packets::uci::VTryFrom<DataMessageSnd> for DataPacket
open spec fn try_from_ens(v: DataMessageSnd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_DataMessageSnd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_DataPacket(x) == crate::codec::encf_DataMessageSnd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_DataMessageSnd(v) ==> crate::codec::wf_DataPacket(x)))
    && (r matches Ok(x) ==> (x.dpf == DataPacketFormat::DataSnd))
    && (r matches Ok(x) ==> (x.pbf == v.pbf))
    && (r matches Ok(x) ==> (x.mt == MessageType::Data))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_DataMessageSnd(v)))
}
@impl packets::uci::VTryFrom<&DataMessageRcv> for DataPacket
open spec fn try_from_ens(v: &DataMessageRcv, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_DataMessageRcv(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_DataPacket(x) == crate::codec::encf_DataMessageRcv(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_DataMessageRcv(*v) ==> crate::codec::wf_DataPacket(x)))
    && (r matches Ok(x) ==> (x.dpf == DataPacketFormat::DataRcv))
    && (r matches Ok(x) ==> (x.pbf == v.pbf))
    && (r matches Ok(x) ==> (x.mt == MessageType::Data))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_DataMessageRcv(*v)))
}
@fn packets::uci::VTryFrom<&DataMessageRcv> for DataPacket::try_from
@start
proof { reveal(crate::codec::encf_DataMessageRcv); reveal(crate::codec::encf_DataPacket); reveal(crate::codec::encp_DataPacket);  }
@impl packets::uci::VTryFrom<DataMessageRcv> for DataPacket
open spec fn try_from_ens(v: DataMessageRcv, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_DataMessageRcv(v)
    && (r matches Ok(x) ==> (crate::codec::encf_DataPacket(x) == crate::codec::encf_DataMessageRcv(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_DataMessageRcv(v) ==> crate::codec::wf_DataPacket(x)))
    && (r matches Ok(x) ==> (x.dpf == DataPacketFormat::DataRcv))
    && (r matches Ok(x) ==> (x.pbf == v.pbf))
    && (r matches Ok(x) ==> (x.mt == MessageType::Data))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_DataMessageRcv(v)))
}
@impl packets::uci::VTryFrom<&CorePacket> for ControlPacket
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CorePacket(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CorePacket(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CorePacket(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == v.mt))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CorePacket(*v)))
}
@fn packets::uci::VTryFrom<&CorePacket> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket);  }
@impl packets::uci::VTryFrom<CorePacket> for ControlPacket
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CorePacket(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CorePacket(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CorePacket(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == v.mt))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CorePacket(v)))
}
@impl packets::uci::VTryFrom<&SessionConfigPacket> for ControlPacket
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionConfigPacket(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionConfigPacket(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionConfigPacket(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == v.mt))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionConfigPacket(*v)))
}
@fn packets::uci::VTryFrom<&SessionConfigPacket> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket);  }
@impl packets::uci::VTryFrom<SessionConfigPacket> for ControlPacket
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionConfigPacket(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionConfigPacket(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionConfigPacket(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == v.mt))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionConfigPacket(v)))
}
@impl packets::uci::VTryFrom<&SessionControlPacket> for ControlPacket
open spec fn try_from_ens(v: &SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionControlPacket(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionControlPacket(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionControlPacket(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == v.mt))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionControlPacket(*v)))
}
@fn packets::uci::VTryFrom<&SessionControlPacket> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket);  }
@impl packets::uci::VTryFrom<SessionControlPacket> for ControlPacket
open spec fn try_from_ens(v: SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionControlPacket(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionControlPacket(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionControlPacket(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == v.mt))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionControlPacket(v)))
}
@impl packets::uci::VTryFrom<&AndroidPacket> for ControlPacket
open spec fn try_from_ens(v: &AndroidPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidPacket(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_AndroidPacket(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidPacket(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::VendorAndroid))
    && (r matches Ok(x) ==> (x.mt == v.mt))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_AndroidPacket(*v)))
}
@fn packets::uci::VTryFrom<&AndroidPacket> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_AndroidPacket); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket);  }
@impl packets::uci::VTryFrom<AndroidPacket> for ControlPacket
open spec fn try_from_ens(v: AndroidPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidPacket(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_AndroidPacket(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidPacket(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::VendorAndroid))
    && (r matches Ok(x) ==> (x.mt == v.mt))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_AndroidPacket(v)))
}
@impl packets::uci::VTryFrom<&CoreDeviceResetCmd> for CorePacket
open spec fn try_from_ens(v: &CoreDeviceResetCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceResetCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreDeviceResetCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceResetCmd(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::DeviceReset))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreDeviceResetCmd(*v)))
}
@fn packets::uci::VTryFrom<&CoreDeviceResetCmd> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreDeviceResetCmd); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreDeviceResetCmd> for CorePacket
open spec fn try_from_ens(v: CoreDeviceResetCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceResetCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreDeviceResetCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceResetCmd(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::DeviceReset))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreDeviceResetCmd(v)))
}
@impl packets::uci::VTryFrom<&CoreDeviceResetCmd> for ControlPacket
open spec fn try_from_ens(v: &CoreDeviceResetCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceResetCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreDeviceResetCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceResetCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::DeviceReset)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreDeviceResetCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreDeviceResetCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreDeviceResetCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreDeviceResetCmd> for ControlPacket
open spec fn try_from_ens(v: CoreDeviceResetCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceResetCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreDeviceResetCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceResetCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::DeviceReset)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreDeviceResetCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreDeviceResetRsp> for CorePacket
open spec fn try_from_ens(v: &CoreDeviceResetRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceResetRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreDeviceResetRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceResetRsp(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::DeviceReset))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreDeviceResetRsp(*v)))
}
@fn packets::uci::VTryFrom<&CoreDeviceResetRsp> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreDeviceResetRsp); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreDeviceResetRsp> for CorePacket
open spec fn try_from_ens(v: CoreDeviceResetRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceResetRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreDeviceResetRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceResetRsp(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::DeviceReset))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreDeviceResetRsp(v)))
}
@impl packets::uci::VTryFrom<&CoreDeviceResetRsp> for ControlPacket
open spec fn try_from_ens(v: &CoreDeviceResetRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceResetRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreDeviceResetRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceResetRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::DeviceReset)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreDeviceResetRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreDeviceResetRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreDeviceResetRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreDeviceResetRsp> for ControlPacket
open spec fn try_from_ens(v: CoreDeviceResetRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceResetRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreDeviceResetRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceResetRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::DeviceReset)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreDeviceResetRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreDeviceStatusNtf> for CorePacket
open spec fn try_from_ens(v: &CoreDeviceStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceStatusNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreDeviceStatusNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceStatusNtf(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::DeviceStatus))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreDeviceStatusNtf(*v)))
}
@fn packets::uci::VTryFrom<&CoreDeviceStatusNtf> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreDeviceStatusNtf); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreDeviceStatusNtf> for CorePacket
open spec fn try_from_ens(v: CoreDeviceStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceStatusNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreDeviceStatusNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceStatusNtf(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::DeviceStatus))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreDeviceStatusNtf(v)))
}
@impl packets::uci::VTryFrom<&CoreDeviceStatusNtf> for ControlPacket
open spec fn try_from_ens(v: &CoreDeviceStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceStatusNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreDeviceStatusNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceStatusNtf(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::DeviceStatus)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreDeviceStatusNtf(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreDeviceStatusNtf> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreDeviceStatusNtf); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreDeviceStatusNtf> for ControlPacket
open spec fn try_from_ens(v: CoreDeviceStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreDeviceStatusNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreDeviceStatusNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreDeviceStatusNtf(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::DeviceStatus)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreDeviceStatusNtf(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreGetDeviceInfoCmd> for CorePacket
open spec fn try_from_ens(v: &CoreGetDeviceInfoCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetDeviceInfoCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetDeviceInfoCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetDeviceInfoCmd(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetDeviceInfo))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetDeviceInfoCmd(*v)))
}
@fn packets::uci::VTryFrom<&CoreGetDeviceInfoCmd> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetDeviceInfoCmd); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreGetDeviceInfoCmd> for CorePacket
open spec fn try_from_ens(v: CoreGetDeviceInfoCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetDeviceInfoCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetDeviceInfoCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetDeviceInfoCmd(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetDeviceInfo))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetDeviceInfoCmd(v)))
}
@impl packets::uci::VTryFrom<&CoreGetDeviceInfoCmd> for ControlPacket
open spec fn try_from_ens(v: &CoreGetDeviceInfoCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetDeviceInfoCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetDeviceInfoCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetDeviceInfoCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetDeviceInfo)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetDeviceInfoCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 2 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreGetDeviceInfoCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetDeviceInfoCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreGetDeviceInfoCmd> for ControlPacket
open spec fn try_from_ens(v: CoreGetDeviceInfoCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetDeviceInfoCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetDeviceInfoCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetDeviceInfoCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetDeviceInfo)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetDeviceInfoCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 2 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreGetDeviceInfoRsp> for CorePacket
open spec fn try_from_ens(v: &CoreGetDeviceInfoRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetDeviceInfoRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetDeviceInfoRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetDeviceInfoRsp(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetDeviceInfo))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetDeviceInfoRsp(*v)))
}
@fn packets::uci::VTryFrom<&CoreGetDeviceInfoRsp> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetDeviceInfoRsp); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreGetDeviceInfoRsp> for CorePacket
open spec fn try_from_ens(v: CoreGetDeviceInfoRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetDeviceInfoRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetDeviceInfoRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetDeviceInfoRsp(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetDeviceInfo))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetDeviceInfoRsp(v)))
}
@impl packets::uci::VTryFrom<&CoreGetDeviceInfoRsp> for ControlPacket
open spec fn try_from_ens(v: &CoreGetDeviceInfoRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetDeviceInfoRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetDeviceInfoRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetDeviceInfoRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetDeviceInfo)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetDeviceInfoRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 2 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreGetDeviceInfoRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetDeviceInfoRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreGetDeviceInfoRsp> for ControlPacket
open spec fn try_from_ens(v: CoreGetDeviceInfoRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetDeviceInfoRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetDeviceInfoRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetDeviceInfoRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetDeviceInfo)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetDeviceInfoRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 2 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreGetCapsInfoCmd> for CorePacket
open spec fn try_from_ens(v: &CoreGetCapsInfoCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetCapsInfoCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetCapsInfoCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetCapsInfoCmd(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetCapsInfo))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetCapsInfoCmd(*v)))
}
@fn packets::uci::VTryFrom<&CoreGetCapsInfoCmd> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetCapsInfoCmd); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreGetCapsInfoCmd> for CorePacket
open spec fn try_from_ens(v: CoreGetCapsInfoCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetCapsInfoCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetCapsInfoCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetCapsInfoCmd(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetCapsInfo))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetCapsInfoCmd(v)))
}
@impl packets::uci::VTryFrom<&CoreGetCapsInfoCmd> for ControlPacket
open spec fn try_from_ens(v: &CoreGetCapsInfoCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetCapsInfoCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetCapsInfoCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetCapsInfoCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetCapsInfo)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetCapsInfoCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreGetCapsInfoCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetCapsInfoCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreGetCapsInfoCmd> for ControlPacket
open spec fn try_from_ens(v: CoreGetCapsInfoCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetCapsInfoCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetCapsInfoCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetCapsInfoCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetCapsInfo)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetCapsInfoCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreGetCapsInfoRsp> for CorePacket
open spec fn try_from_ens(v: &CoreGetCapsInfoRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetCapsInfoRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetCapsInfoRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetCapsInfoRsp(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetCapsInfo))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetCapsInfoRsp(*v)))
}
@fn packets::uci::VTryFrom<&CoreGetCapsInfoRsp> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetCapsInfoRsp); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreGetCapsInfoRsp> for CorePacket
open spec fn try_from_ens(v: CoreGetCapsInfoRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetCapsInfoRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetCapsInfoRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetCapsInfoRsp(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetCapsInfo))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetCapsInfoRsp(v)))
}
@impl packets::uci::VTryFrom<&CoreGetCapsInfoRsp> for ControlPacket
open spec fn try_from_ens(v: &CoreGetCapsInfoRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetCapsInfoRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetCapsInfoRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetCapsInfoRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetCapsInfo)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetCapsInfoRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreGetCapsInfoRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetCapsInfoRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreGetCapsInfoRsp> for ControlPacket
open spec fn try_from_ens(v: CoreGetCapsInfoRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetCapsInfoRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetCapsInfoRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetCapsInfoRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetCapsInfo)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetCapsInfoRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreSetConfigCmd> for CorePacket
open spec fn try_from_ens(v: &CoreSetConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreSetConfigCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreSetConfigCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreSetConfigCmd(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::SetConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreSetConfigCmd(*v)))
}
@fn packets::uci::VTryFrom<&CoreSetConfigCmd> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreSetConfigCmd); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreSetConfigCmd> for CorePacket
open spec fn try_from_ens(v: CoreSetConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreSetConfigCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreSetConfigCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreSetConfigCmd(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::SetConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreSetConfigCmd(v)))
}
@impl packets::uci::VTryFrom<&CoreSetConfigCmd> for ControlPacket
open spec fn try_from_ens(v: &CoreSetConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreSetConfigCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreSetConfigCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreSetConfigCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::SetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreSetConfigCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 4 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreSetConfigCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreSetConfigCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreSetConfigCmd> for ControlPacket
open spec fn try_from_ens(v: CoreSetConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreSetConfigCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreSetConfigCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreSetConfigCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::SetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreSetConfigCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 4 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreSetConfigRsp> for CorePacket
open spec fn try_from_ens(v: &CoreSetConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreSetConfigRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreSetConfigRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreSetConfigRsp(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::SetConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreSetConfigRsp(*v)))
}
@fn packets::uci::VTryFrom<&CoreSetConfigRsp> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreSetConfigRsp); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreSetConfigRsp> for CorePacket
open spec fn try_from_ens(v: CoreSetConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreSetConfigRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreSetConfigRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreSetConfigRsp(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::SetConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreSetConfigRsp(v)))
}
@impl packets::uci::VTryFrom<&CoreSetConfigRsp> for ControlPacket
open spec fn try_from_ens(v: &CoreSetConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreSetConfigRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreSetConfigRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreSetConfigRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::SetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreSetConfigRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 4 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreSetConfigRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreSetConfigRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreSetConfigRsp> for ControlPacket
open spec fn try_from_ens(v: CoreSetConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreSetConfigRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreSetConfigRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreSetConfigRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::SetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreSetConfigRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 4 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreGetConfigCmd> for CorePacket
open spec fn try_from_ens(v: &CoreGetConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetConfigCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetConfigCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetConfigCmd(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetConfigCmd(*v)))
}
@fn packets::uci::VTryFrom<&CoreGetConfigCmd> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetConfigCmd); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreGetConfigCmd> for CorePacket
open spec fn try_from_ens(v: CoreGetConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetConfigCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetConfigCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetConfigCmd(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetConfigCmd(v)))
}
@impl packets::uci::VTryFrom<&CoreGetConfigCmd> for ControlPacket
open spec fn try_from_ens(v: &CoreGetConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetConfigCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetConfigCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetConfigCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetConfigCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 5 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreGetConfigCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetConfigCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreGetConfigCmd> for ControlPacket
open spec fn try_from_ens(v: CoreGetConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetConfigCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetConfigCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetConfigCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetConfigCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 5 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreGetConfigRsp> for CorePacket
open spec fn try_from_ens(v: &CoreGetConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetConfigRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetConfigRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetConfigRsp(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetConfigRsp(*v)))
}
@fn packets::uci::VTryFrom<&CoreGetConfigRsp> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetConfigRsp); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreGetConfigRsp> for CorePacket
open spec fn try_from_ens(v: CoreGetConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetConfigRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGetConfigRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetConfigRsp(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GetConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGetConfigRsp(v)))
}
@impl packets::uci::VTryFrom<&CoreGetConfigRsp> for ControlPacket
open spec fn try_from_ens(v: &CoreGetConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetConfigRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetConfigRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetConfigRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetConfigRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 5 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreGetConfigRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGetConfigRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreGetConfigRsp> for ControlPacket
open spec fn try_from_ens(v: CoreGetConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGetConfigRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGetConfigRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGetConfigRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GetConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGetConfigRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 5 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreGenericErrorNtf> for CorePacket
open spec fn try_from_ens(v: &CoreGenericErrorNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGenericErrorNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGenericErrorNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGenericErrorNtf(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GenericError))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGenericErrorNtf(*v)))
}
@fn packets::uci::VTryFrom<&CoreGenericErrorNtf> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGenericErrorNtf); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreGenericErrorNtf> for CorePacket
open spec fn try_from_ens(v: CoreGenericErrorNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGenericErrorNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreGenericErrorNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGenericErrorNtf(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::GenericError))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreGenericErrorNtf(v)))
}
@impl packets::uci::VTryFrom<&CoreGenericErrorNtf> for ControlPacket
open spec fn try_from_ens(v: &CoreGenericErrorNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGenericErrorNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGenericErrorNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGenericErrorNtf(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GenericError)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGenericErrorNtf(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 7 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreGenericErrorNtf> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreGenericErrorNtf); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreGenericErrorNtf> for ControlPacket
open spec fn try_from_ens(v: CoreGenericErrorNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreGenericErrorNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreGenericErrorNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreGenericErrorNtf(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::GenericError)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreGenericErrorNtf(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 7 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreQueryTimeStampCmd> for CorePacket
open spec fn try_from_ens(v: &CoreQueryTimeStampCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreQueryTimeStampCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreQueryTimeStampCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreQueryTimeStampCmd(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::QueryUwbsTimestamp))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreQueryTimeStampCmd(*v)))
}
@fn packets::uci::VTryFrom<&CoreQueryTimeStampCmd> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreQueryTimeStampCmd); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreQueryTimeStampCmd> for CorePacket
open spec fn try_from_ens(v: CoreQueryTimeStampCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreQueryTimeStampCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreQueryTimeStampCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreQueryTimeStampCmd(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::QueryUwbsTimestamp))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreQueryTimeStampCmd(v)))
}
@impl packets::uci::VTryFrom<&CoreQueryTimeStampCmd> for ControlPacket
open spec fn try_from_ens(v: &CoreQueryTimeStampCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreQueryTimeStampCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreQueryTimeStampCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreQueryTimeStampCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::QueryUwbsTimestamp)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreQueryTimeStampCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 8 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreQueryTimeStampCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreQueryTimeStampCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreQueryTimeStampCmd> for ControlPacket
open spec fn try_from_ens(v: CoreQueryTimeStampCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreQueryTimeStampCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreQueryTimeStampCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreQueryTimeStampCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::QueryUwbsTimestamp)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreQueryTimeStampCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 8 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&CoreQueryTimeStampRsp> for CorePacket
open spec fn try_from_ens(v: &CoreQueryTimeStampRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreQueryTimeStampRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreQueryTimeStampRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreQueryTimeStampRsp(*v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::QueryUwbsTimestamp))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreQueryTimeStampRsp(*v)))
}
@fn packets::uci::VTryFrom<&CoreQueryTimeStampRsp> for CorePacket::try_from
@start
proof { reveal(crate::codec::encf_CoreQueryTimeStampRsp); reveal(crate::codec::encf_CorePacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<CoreQueryTimeStampRsp> for CorePacket
open spec fn try_from_ens(v: CoreQueryTimeStampRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreQueryTimeStampRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_CorePacket(x) == crate::codec::encf_CoreQueryTimeStampRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreQueryTimeStampRsp(v) ==> crate::codec::wf_CorePacket(x)))
    && (r matches Ok(x) ==> (x.oid == CoreOpcodeId::QueryUwbsTimestamp))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_CoreQueryTimeStampRsp(v)))
}
@impl packets::uci::VTryFrom<&CoreQueryTimeStampRsp> for ControlPacket
open spec fn try_from_ens(v: &CoreQueryTimeStampRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreQueryTimeStampRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreQueryTimeStampRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreQueryTimeStampRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::QueryUwbsTimestamp)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreQueryTimeStampRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 8 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&CoreQueryTimeStampRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_CoreQueryTimeStampRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_CorePacket); reveal(crate::codec::encf_CorePacket); }
@impl packets::uci::VTryFrom<CoreQueryTimeStampRsp> for ControlPacket
open spec fn try_from_ens(v: CoreQueryTimeStampRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_CoreQueryTimeStampRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_CoreQueryTimeStampRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_CoreQueryTimeStampRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::Core))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_CoreOpcodeId(CoreOpcodeId::QueryUwbsTimestamp)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_CoreQueryTimeStampRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 8 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionInitCmd> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionInitCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionInitCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitCmd(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Init))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionInitCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionInitCmd> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionInitCmd); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionInitCmd> for SessionConfigPacket
open spec fn try_from_ens(v: SessionInitCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionInitCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitCmd(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Init))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionInitCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionInitCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionInitCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionInitCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Init)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionInitCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionInitCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionInitCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionInitCmd> for ControlPacket
open spec fn try_from_ens(v: SessionInitCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionInitCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Init)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionInitCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionInitRsp_V2> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionInitRsp_V2, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitRsp_V2(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionInitRsp_V2(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitRsp_V2(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Init))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionInitRsp_V2(*v)))
}
@fn packets::uci::VTryFrom<&SessionInitRsp_V2> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionInitRsp_V2); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionInitRsp_V2> for SessionConfigPacket
open spec fn try_from_ens(v: SessionInitRsp_V2, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitRsp_V2(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionInitRsp_V2(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitRsp_V2(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Init))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionInitRsp_V2(v)))
}
@impl packets::uci::VTryFrom<&SessionInitRsp_V2> for ControlPacket
open spec fn try_from_ens(v: &SessionInitRsp_V2, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitRsp_V2(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionInitRsp_V2(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitRsp_V2(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Init)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionInitRsp_V2(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionInitRsp_V2> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionInitRsp_V2); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionInitRsp_V2> for ControlPacket
open spec fn try_from_ens(v: SessionInitRsp_V2, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitRsp_V2(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionInitRsp_V2(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitRsp_V2(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Init)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionInitRsp_V2(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionInitRsp> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionInitRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionInitRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitRsp(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Init))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionInitRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionInitRsp> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionInitRsp); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionInitRsp> for SessionConfigPacket
open spec fn try_from_ens(v: SessionInitRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionInitRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitRsp(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Init))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionInitRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionInitRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionInitRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionInitRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Init)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionInitRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionInitRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionInitRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionInitRsp> for ControlPacket
open spec fn try_from_ens(v: SessionInitRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInitRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionInitRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInitRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Init)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionInitRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionDeinitCmd> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionDeinitCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDeinitCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionDeinitCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDeinitCmd(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Deinit))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionDeinitCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionDeinitCmd> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionDeinitCmd); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionDeinitCmd> for SessionConfigPacket
open spec fn try_from_ens(v: SessionDeinitCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDeinitCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionDeinitCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDeinitCmd(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Deinit))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionDeinitCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionDeinitCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionDeinitCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDeinitCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionDeinitCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDeinitCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Deinit)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionDeinitCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionDeinitCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionDeinitCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionDeinitCmd> for ControlPacket
open spec fn try_from_ens(v: SessionDeinitCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDeinitCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionDeinitCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDeinitCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Deinit)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionDeinitCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionDeinitRsp> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionDeinitRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDeinitRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionDeinitRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDeinitRsp(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Deinit))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionDeinitRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionDeinitRsp> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionDeinitRsp); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionDeinitRsp> for SessionConfigPacket
open spec fn try_from_ens(v: SessionDeinitRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDeinitRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionDeinitRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDeinitRsp(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Deinit))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionDeinitRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionDeinitRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionDeinitRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDeinitRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionDeinitRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDeinitRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Deinit)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionDeinitRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionDeinitRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionDeinitRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionDeinitRsp> for ControlPacket
open spec fn try_from_ens(v: SessionDeinitRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDeinitRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionDeinitRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDeinitRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Deinit)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionDeinitRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionStatusNtf> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStatusNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionStatusNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStatusNtf(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Status))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionStatusNtf(*v)))
}
@fn packets::uci::VTryFrom<&SessionStatusNtf> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionStatusNtf); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionStatusNtf> for SessionConfigPacket
open spec fn try_from_ens(v: SessionStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStatusNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionStatusNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStatusNtf(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::Status))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionStatusNtf(v)))
}
@impl packets::uci::VTryFrom<&SessionStatusNtf> for ControlPacket
open spec fn try_from_ens(v: &SessionStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStatusNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionStatusNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStatusNtf(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Status)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionStatusNtf(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 2 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionStatusNtf> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionStatusNtf); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionStatusNtf> for ControlPacket
open spec fn try_from_ens(v: SessionStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStatusNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionStatusNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStatusNtf(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::Status)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionStatusNtf(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 2 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionSetAppConfigCmd> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionSetAppConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionSetAppConfigCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionSetAppConfigCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionSetAppConfigCmd(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::SetAppConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionSetAppConfigCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionSetAppConfigCmd> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionSetAppConfigCmd); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionSetAppConfigCmd> for SessionConfigPacket
open spec fn try_from_ens(v: SessionSetAppConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionSetAppConfigCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionSetAppConfigCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionSetAppConfigCmd(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::SetAppConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionSetAppConfigCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionSetAppConfigCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionSetAppConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionSetAppConfigCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionSetAppConfigCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionSetAppConfigCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::SetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionSetAppConfigCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionSetAppConfigCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionSetAppConfigCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionSetAppConfigCmd> for ControlPacket
open spec fn try_from_ens(v: SessionSetAppConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionSetAppConfigCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionSetAppConfigCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionSetAppConfigCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::SetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionSetAppConfigCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionSetAppConfigRsp> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionSetAppConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionSetAppConfigRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionSetAppConfigRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionSetAppConfigRsp(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::SetAppConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionSetAppConfigRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionSetAppConfigRsp> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionSetAppConfigRsp); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionSetAppConfigRsp> for SessionConfigPacket
open spec fn try_from_ens(v: SessionSetAppConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionSetAppConfigRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionSetAppConfigRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionSetAppConfigRsp(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::SetAppConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionSetAppConfigRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionSetAppConfigRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionSetAppConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionSetAppConfigRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionSetAppConfigRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionSetAppConfigRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::SetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionSetAppConfigRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionSetAppConfigRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionSetAppConfigRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionSetAppConfigRsp> for ControlPacket
open spec fn try_from_ens(v: SessionSetAppConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionSetAppConfigRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionSetAppConfigRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionSetAppConfigRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::SetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionSetAppConfigRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionGetAppConfigCmd> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionGetAppConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetAppConfigCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetAppConfigCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetAppConfigCmd(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetAppConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetAppConfigCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionGetAppConfigCmd> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetAppConfigCmd); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionGetAppConfigCmd> for SessionConfigPacket
open spec fn try_from_ens(v: SessionGetAppConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetAppConfigCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetAppConfigCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetAppConfigCmd(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetAppConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetAppConfigCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionGetAppConfigCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionGetAppConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetAppConfigCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetAppConfigCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetAppConfigCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetAppConfigCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 4 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionGetAppConfigCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetAppConfigCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionGetAppConfigCmd> for ControlPacket
open spec fn try_from_ens(v: SessionGetAppConfigCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetAppConfigCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetAppConfigCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetAppConfigCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetAppConfigCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 4 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionGetAppConfigRsp> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionGetAppConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetAppConfigRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetAppConfigRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetAppConfigRsp(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetAppConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetAppConfigRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionGetAppConfigRsp> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetAppConfigRsp); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionGetAppConfigRsp> for SessionConfigPacket
open spec fn try_from_ens(v: SessionGetAppConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetAppConfigRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetAppConfigRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetAppConfigRsp(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetAppConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetAppConfigRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionGetAppConfigRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionGetAppConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetAppConfigRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetAppConfigRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetAppConfigRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetAppConfigRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 4 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionGetAppConfigRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetAppConfigRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionGetAppConfigRsp> for ControlPacket
open spec fn try_from_ens(v: SessionGetAppConfigRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetAppConfigRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetAppConfigRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetAppConfigRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetAppConfig)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetAppConfigRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 4 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionGetCountCmd> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionGetCountCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetCountCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetCountCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetCountCmd(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetCount))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetCountCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionGetCountCmd> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetCountCmd); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionGetCountCmd> for SessionConfigPacket
open spec fn try_from_ens(v: SessionGetCountCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetCountCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetCountCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetCountCmd(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetCount))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetCountCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionGetCountCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionGetCountCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetCountCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetCountCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetCountCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetCount)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetCountCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 5 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionGetCountCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetCountCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionGetCountCmd> for ControlPacket
open spec fn try_from_ens(v: SessionGetCountCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetCountCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetCountCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetCountCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetCount)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetCountCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 5 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionGetCountRsp> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionGetCountRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetCountRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetCountRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetCountRsp(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetCount))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetCountRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionGetCountRsp> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetCountRsp); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionGetCountRsp> for SessionConfigPacket
open spec fn try_from_ens(v: SessionGetCountRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetCountRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetCountRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetCountRsp(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetCount))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetCountRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionGetCountRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionGetCountRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetCountRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetCountRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetCountRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetCount)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetCountRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 5 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionGetCountRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetCountRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionGetCountRsp> for ControlPacket
open spec fn try_from_ens(v: SessionGetCountRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetCountRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetCountRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetCountRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetCount)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetCountRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 5 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionGetStateCmd> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionGetStateCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetStateCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetStateCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetStateCmd(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetState))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetStateCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionGetStateCmd> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetStateCmd); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionGetStateCmd> for SessionConfigPacket
open spec fn try_from_ens(v: SessionGetStateCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetStateCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetStateCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetStateCmd(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetState))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetStateCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionGetStateCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionGetStateCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetStateCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetStateCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetStateCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetState)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetStateCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 6 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionGetStateCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetStateCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionGetStateCmd> for ControlPacket
open spec fn try_from_ens(v: SessionGetStateCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetStateCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetStateCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetStateCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetState)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetStateCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 6 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionGetStateRsp> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionGetStateRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetStateRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetStateRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetStateRsp(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetState))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetStateRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionGetStateRsp> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetStateRsp); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionGetStateRsp> for SessionConfigPacket
open spec fn try_from_ens(v: SessionGetStateRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetStateRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionGetStateRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetStateRsp(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::GetState))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetStateRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionGetStateRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionGetStateRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetStateRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetStateRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetStateRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetState)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetStateRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 6 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionGetStateRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetStateRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionGetStateRsp> for ControlPacket
open spec fn try_from_ens(v: SessionGetStateRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetStateRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetStateRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetStateRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::GetState)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetStateRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 6 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionUpdateDtAnchorRangingRoundsCmd> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionUpdateDtAnchorRangingRoundsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtAnchorRangingRoundsCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateDtAnchorRangingRoundsCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtAnchorRangingRoundsCmd(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateDtAnchorRangingRoundsCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionUpdateDtAnchorRangingRoundsCmd> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateDtAnchorRangingRoundsCmd); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionUpdateDtAnchorRangingRoundsCmd> for SessionConfigPacket
open spec fn try_from_ens(v: SessionUpdateDtAnchorRangingRoundsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtAnchorRangingRoundsCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateDtAnchorRangingRoundsCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtAnchorRangingRoundsCmd(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateDtAnchorRangingRoundsCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionUpdateDtAnchorRangingRoundsCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionUpdateDtAnchorRangingRoundsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtAnchorRangingRoundsCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateDtAnchorRangingRoundsCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtAnchorRangingRoundsCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtAnchorRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateDtAnchorRangingRoundsCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 8 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionUpdateDtAnchorRangingRoundsCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateDtAnchorRangingRoundsCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionUpdateDtAnchorRangingRoundsCmd> for ControlPacket
open spec fn try_from_ens(v: SessionUpdateDtAnchorRangingRoundsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtAnchorRangingRoundsCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateDtAnchorRangingRoundsCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtAnchorRangingRoundsCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtAnchorRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateDtAnchorRangingRoundsCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 8 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionUpdateDtAnchorRangingRoundsRsp> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionUpdateDtAnchorRangingRoundsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtAnchorRangingRoundsRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateDtAnchorRangingRoundsRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtAnchorRangingRoundsRsp(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateDtAnchorRangingRoundsRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionUpdateDtAnchorRangingRoundsRsp> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateDtAnchorRangingRoundsRsp); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionUpdateDtAnchorRangingRoundsRsp> for SessionConfigPacket
open spec fn try_from_ens(v: SessionUpdateDtAnchorRangingRoundsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtAnchorRangingRoundsRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateDtAnchorRangingRoundsRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtAnchorRangingRoundsRsp(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateDtAnchorRangingRoundsRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionUpdateDtAnchorRangingRoundsRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionUpdateDtAnchorRangingRoundsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtAnchorRangingRoundsRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateDtAnchorRangingRoundsRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtAnchorRangingRoundsRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtAnchorRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateDtAnchorRangingRoundsRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 8 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionUpdateDtAnchorRangingRoundsRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateDtAnchorRangingRoundsRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionUpdateDtAnchorRangingRoundsRsp> for ControlPacket
open spec fn try_from_ens(v: SessionUpdateDtAnchorRangingRoundsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtAnchorRangingRoundsRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateDtAnchorRangingRoundsRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtAnchorRangingRoundsRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtAnchorRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateDtAnchorRangingRoundsRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 8 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionUpdateDtTagRangingRoundsCmd> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionUpdateDtTagRangingRoundsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtTagRangingRoundsCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateDtTagRangingRoundsCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtTagRangingRoundsCmd(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateDtTagRangingRoundsCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionUpdateDtTagRangingRoundsCmd> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateDtTagRangingRoundsCmd); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionUpdateDtTagRangingRoundsCmd> for SessionConfigPacket
open spec fn try_from_ens(v: SessionUpdateDtTagRangingRoundsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtTagRangingRoundsCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateDtTagRangingRoundsCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtTagRangingRoundsCmd(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateDtTagRangingRoundsCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionUpdateDtTagRangingRoundsCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionUpdateDtTagRangingRoundsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtTagRangingRoundsCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateDtTagRangingRoundsCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtTagRangingRoundsCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtTagRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateDtTagRangingRoundsCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 9 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionUpdateDtTagRangingRoundsCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateDtTagRangingRoundsCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionUpdateDtTagRangingRoundsCmd> for ControlPacket
open spec fn try_from_ens(v: SessionUpdateDtTagRangingRoundsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtTagRangingRoundsCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateDtTagRangingRoundsCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtTagRangingRoundsCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtTagRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateDtTagRangingRoundsCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 9 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionUpdateDtTagRangingRoundsRsp> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionUpdateDtTagRangingRoundsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtTagRangingRoundsRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateDtTagRangingRoundsRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtTagRangingRoundsRsp(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateDtTagRangingRoundsRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionUpdateDtTagRangingRoundsRsp> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateDtTagRangingRoundsRsp); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionUpdateDtTagRangingRoundsRsp> for SessionConfigPacket
open spec fn try_from_ens(v: SessionUpdateDtTagRangingRoundsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtTagRangingRoundsRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateDtTagRangingRoundsRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtTagRangingRoundsRsp(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateDtTagRangingRoundsRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionUpdateDtTagRangingRoundsRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionUpdateDtTagRangingRoundsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtTagRangingRoundsRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateDtTagRangingRoundsRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtTagRangingRoundsRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtTagRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateDtTagRangingRoundsRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 9 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionUpdateDtTagRangingRoundsRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateDtTagRangingRoundsRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionUpdateDtTagRangingRoundsRsp> for ControlPacket
open spec fn try_from_ens(v: SessionUpdateDtTagRangingRoundsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateDtTagRangingRoundsRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateDtTagRangingRoundsRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateDtTagRangingRoundsRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateDtTagRangingRounds)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateDtTagRangingRoundsRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 9 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionUpdateControllerMulticastListCmd> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionUpdateControllerMulticastListCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListCmd(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateControllerMulticastList))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateControllerMulticastListCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionUpdateControllerMulticastListCmd> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateControllerMulticastListCmd); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionUpdateControllerMulticastListCmd> for SessionConfigPacket
open spec fn try_from_ens(v: SessionUpdateControllerMulticastListCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListCmd(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateControllerMulticastList))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateControllerMulticastListCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionUpdateControllerMulticastListCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionUpdateControllerMulticastListCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateControllerMulticastList)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateControllerMulticastListCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 7 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionUpdateControllerMulticastListCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateControllerMulticastListCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionUpdateControllerMulticastListCmd> for ControlPacket
open spec fn try_from_ens(v: SessionUpdateControllerMulticastListCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateControllerMulticastList)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateControllerMulticastListCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 7 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionUpdateControllerMulticastListRsp> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionUpdateControllerMulticastListRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListRsp(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateControllerMulticastList))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateControllerMulticastListRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionUpdateControllerMulticastListRsp> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateControllerMulticastListRsp); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionUpdateControllerMulticastListRsp> for SessionConfigPacket
open spec fn try_from_ens(v: SessionUpdateControllerMulticastListRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListRsp(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateControllerMulticastList))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateControllerMulticastListRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionUpdateControllerMulticastListRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionUpdateControllerMulticastListRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateControllerMulticastList)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateControllerMulticastListRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 7 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionUpdateControllerMulticastListRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateControllerMulticastListRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionUpdateControllerMulticastListRsp> for ControlPacket
open spec fn try_from_ens(v: SessionUpdateControllerMulticastListRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateControllerMulticastList)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateControllerMulticastListRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 7 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionUpdateControllerMulticastListNtf> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionUpdateControllerMulticastListNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListNtf(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateControllerMulticastList))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateControllerMulticastListNtf(*v)))
}
@fn packets::uci::VTryFrom<&SessionUpdateControllerMulticastListNtf> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateControllerMulticastListNtf); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionUpdateControllerMulticastListNtf> for SessionConfigPacket
open spec fn try_from_ens(v: SessionUpdateControllerMulticastListNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListNtf(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::UpdateControllerMulticastList))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionUpdateControllerMulticastListNtf(v)))
}
@impl packets::uci::VTryFrom<&SessionUpdateControllerMulticastListNtf> for ControlPacket
open spec fn try_from_ens(v: &SessionUpdateControllerMulticastListNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListNtf(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateControllerMulticastList)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateControllerMulticastListNtf(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 7 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionUpdateControllerMulticastListNtf> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionUpdateControllerMulticastListNtf); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionUpdateControllerMulticastListNtf> for ControlPacket
open spec fn try_from_ens(v: SessionUpdateControllerMulticastListNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionUpdateControllerMulticastListNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionUpdateControllerMulticastListNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionUpdateControllerMulticastListNtf(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::UpdateControllerMulticastList)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionUpdateControllerMulticastListNtf(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 7 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionDataCreditNtf> for SessionControlPacket
open spec fn try_from_ens(v: &SessionDataCreditNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDataCreditNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionDataCreditNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDataCreditNtf(*v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::DataCredit))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionDataCreditNtf(*v)))
}
@fn packets::uci::VTryFrom<&SessionDataCreditNtf> for SessionControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionDataCreditNtf); reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionDataCreditNtf> for SessionControlPacket
open spec fn try_from_ens(v: SessionDataCreditNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDataCreditNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionDataCreditNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDataCreditNtf(v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::DataCredit))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionDataCreditNtf(v)))
}
@impl packets::uci::VTryFrom<&SessionDataCreditNtf> for ControlPacket
open spec fn try_from_ens(v: &SessionDataCreditNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDataCreditNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionDataCreditNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDataCreditNtf(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::DataCredit)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionDataCreditNtf(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 4 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionDataCreditNtf> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionDataCreditNtf); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket); }
@impl packets::uci::VTryFrom<SessionDataCreditNtf> for ControlPacket
open spec fn try_from_ens(v: SessionDataCreditNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDataCreditNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionDataCreditNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDataCreditNtf(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::DataCredit)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionDataCreditNtf(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 4 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionDataTransferStatusNtf> for SessionControlPacket
open spec fn try_from_ens(v: &SessionDataTransferStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDataTransferStatusNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionDataTransferStatusNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDataTransferStatusNtf(*v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::DataTransferStatus))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionDataTransferStatusNtf(*v)))
}
@fn packets::uci::VTryFrom<&SessionDataTransferStatusNtf> for SessionControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionDataTransferStatusNtf); reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionDataTransferStatusNtf> for SessionControlPacket
open spec fn try_from_ens(v: SessionDataTransferStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDataTransferStatusNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionDataTransferStatusNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDataTransferStatusNtf(v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::DataTransferStatus))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionDataTransferStatusNtf(v)))
}
@impl packets::uci::VTryFrom<&SessionDataTransferStatusNtf> for ControlPacket
open spec fn try_from_ens(v: &SessionDataTransferStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDataTransferStatusNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionDataTransferStatusNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDataTransferStatusNtf(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::DataTransferStatus)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionDataTransferStatusNtf(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 5 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionDataTransferStatusNtf> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionDataTransferStatusNtf); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket); }
@impl packets::uci::VTryFrom<SessionDataTransferStatusNtf> for ControlPacket
open spec fn try_from_ens(v: SessionDataTransferStatusNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionDataTransferStatusNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionDataTransferStatusNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionDataTransferStatusNtf(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::DataTransferStatus)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionDataTransferStatusNtf(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 5 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionQueryMaxDataSizeInRangingCmd> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionQueryMaxDataSizeInRangingCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionQueryMaxDataSizeInRangingCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionQueryMaxDataSizeInRangingCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionQueryMaxDataSizeInRangingCmd(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::QueryDataSizeInRanging))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionQueryMaxDataSizeInRangingCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionQueryMaxDataSizeInRangingCmd> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionQueryMaxDataSizeInRangingCmd); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionQueryMaxDataSizeInRangingCmd> for SessionConfigPacket
open spec fn try_from_ens(v: SessionQueryMaxDataSizeInRangingCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionQueryMaxDataSizeInRangingCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionQueryMaxDataSizeInRangingCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionQueryMaxDataSizeInRangingCmd(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::QueryDataSizeInRanging))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionQueryMaxDataSizeInRangingCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionQueryMaxDataSizeInRangingCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionQueryMaxDataSizeInRangingCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionQueryMaxDataSizeInRangingCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionQueryMaxDataSizeInRangingCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionQueryMaxDataSizeInRangingCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::QueryDataSizeInRanging)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionQueryMaxDataSizeInRangingCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 11 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionQueryMaxDataSizeInRangingCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionQueryMaxDataSizeInRangingCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionQueryMaxDataSizeInRangingCmd> for ControlPacket
open spec fn try_from_ens(v: SessionQueryMaxDataSizeInRangingCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionQueryMaxDataSizeInRangingCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionQueryMaxDataSizeInRangingCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionQueryMaxDataSizeInRangingCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::QueryDataSizeInRanging)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionQueryMaxDataSizeInRangingCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 11 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionQueryMaxDataSizeInRangingRsp> for SessionConfigPacket
open spec fn try_from_ens(v: &SessionQueryMaxDataSizeInRangingRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionQueryMaxDataSizeInRangingRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionQueryMaxDataSizeInRangingRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionQueryMaxDataSizeInRangingRsp(*v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::QueryDataSizeInRanging))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionQueryMaxDataSizeInRangingRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionQueryMaxDataSizeInRangingRsp> for SessionConfigPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionQueryMaxDataSizeInRangingRsp); reveal(crate::codec::encf_SessionConfigPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionQueryMaxDataSizeInRangingRsp> for SessionConfigPacket
open spec fn try_from_ens(v: SessionQueryMaxDataSizeInRangingRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionQueryMaxDataSizeInRangingRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionConfigPacket(x) == crate::codec::encf_SessionQueryMaxDataSizeInRangingRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionQueryMaxDataSizeInRangingRsp(v) ==> crate::codec::wf_SessionConfigPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionConfigOpcodeId::QueryDataSizeInRanging))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionQueryMaxDataSizeInRangingRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionQueryMaxDataSizeInRangingRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionQueryMaxDataSizeInRangingRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionQueryMaxDataSizeInRangingRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionQueryMaxDataSizeInRangingRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionQueryMaxDataSizeInRangingRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::QueryDataSizeInRanging)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionQueryMaxDataSizeInRangingRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 11 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionQueryMaxDataSizeInRangingRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionQueryMaxDataSizeInRangingRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionConfigPacket); reveal(crate::codec::encf_SessionConfigPacket); }
@impl packets::uci::VTryFrom<SessionQueryMaxDataSizeInRangingRsp> for ControlPacket
open spec fn try_from_ens(v: SessionQueryMaxDataSizeInRangingRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionQueryMaxDataSizeInRangingRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionQueryMaxDataSizeInRangingRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionQueryMaxDataSizeInRangingRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionConfig))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionConfigOpcodeId(SessionConfigOpcodeId::QueryDataSizeInRanging)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionQueryMaxDataSizeInRangingRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 11 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionStartCmd> for SessionControlPacket
open spec fn try_from_ens(v: &SessionStartCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStartCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionStartCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStartCmd(*v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Start))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionStartCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionStartCmd> for SessionControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionStartCmd); reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionStartCmd> for SessionControlPacket
open spec fn try_from_ens(v: SessionStartCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStartCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionStartCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStartCmd(v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Start))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionStartCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionStartCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionStartCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStartCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionStartCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStartCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionStartCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionStartCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionStartCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket); }
@impl packets::uci::VTryFrom<SessionStartCmd> for ControlPacket
open spec fn try_from_ens(v: SessionStartCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStartCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionStartCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStartCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionStartCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionStartRsp> for SessionControlPacket
open spec fn try_from_ens(v: &SessionStartRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStartRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionStartRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStartRsp(*v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Start))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionStartRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionStartRsp> for SessionControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionStartRsp); reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionStartRsp> for SessionControlPacket
open spec fn try_from_ens(v: SessionStartRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStartRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionStartRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStartRsp(v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Start))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionStartRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionStartRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionStartRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStartRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionStartRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStartRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionStartRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionStartRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionStartRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket); }
@impl packets::uci::VTryFrom<SessionStartRsp> for ControlPacket
open spec fn try_from_ens(v: SessionStartRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStartRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionStartRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStartRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionStartRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionInfoNtf> for SessionControlPacket
open spec fn try_from_ens(v: &SessionInfoNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInfoNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionInfoNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInfoNtf(*v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Start))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionInfoNtf(*v)))
}
@fn packets::uci::VTryFrom<&SessionInfoNtf> for SessionControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionInfoNtf); reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionInfoNtf> for SessionControlPacket
open spec fn try_from_ens(v: SessionInfoNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInfoNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionInfoNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInfoNtf(v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Start))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionInfoNtf(v)))
}
@impl packets::uci::VTryFrom<&SessionInfoNtf> for ControlPacket
open spec fn try_from_ens(v: &SessionInfoNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInfoNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionInfoNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInfoNtf(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionInfoNtf(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionInfoNtf> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionInfoNtf); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket); }
@impl packets::uci::VTryFrom<SessionInfoNtf> for ControlPacket
open spec fn try_from_ens(v: SessionInfoNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionInfoNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionInfoNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionInfoNtf(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionInfoNtf(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&ShortMacTwoWaySessionInfoNtf> for SessionInfoNtf
open spec fn try_from_ens(v: &ShortMacTwoWaySessionInfoNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_ShortMacTwoWaySessionInfoNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionInfoNtf(x) == crate::codec::encf_ShortMacTwoWaySessionInfoNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_ShortMacTwoWaySessionInfoNtf(*v) ==> crate::codec::wf_SessionInfoNtf(x)))
    && (r matches Ok(x) ==> (x.sequence_number == v.sequence_number))
    && (r matches Ok(x) ==> (x.session_token == v.session_token))
    && (r matches Ok(x) ==> (x.rcr_indicator == v.rcr_indicator))
    && (r matches Ok(x) ==> (x.current_ranging_interval == v.current_ranging_interval))
    && (r matches Ok(x) ==> (x.ranging_measurement_type == RangingMeasurementType::TwoWay))
    && (r matches Ok(x) ==> (x.mac_address_indicator == MacAddressIndicator::ShortAddress))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_ShortMacTwoWaySessionInfoNtf(*v)))
}
@fn packets::uci::VTryFrom<&ShortMacTwoWaySessionInfoNtf> for SessionInfoNtf::try_from
@start
proof { reveal(crate::codec::encf_ShortMacTwoWaySessionInfoNtf); reveal(crate::codec::encf_SessionInfoNtf); reveal(crate::codec::encp_SessionInfoNtf); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<ShortMacTwoWaySessionInfoNtf> for SessionInfoNtf
open spec fn try_from_ens(v: ShortMacTwoWaySessionInfoNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_ShortMacTwoWaySessionInfoNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionInfoNtf(x) == crate::codec::encf_ShortMacTwoWaySessionInfoNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_ShortMacTwoWaySessionInfoNtf(v) ==> crate::codec::wf_SessionInfoNtf(x)))
    && (r matches Ok(x) ==> (x.sequence_number == v.sequence_number))
    && (r matches Ok(x) ==> (x.session_token == v.session_token))
    && (r matches Ok(x) ==> (x.rcr_indicator == v.rcr_indicator))
    && (r matches Ok(x) ==> (x.current_ranging_interval == v.current_ranging_interval))
    && (r matches Ok(x) ==> (x.ranging_measurement_type == RangingMeasurementType::TwoWay))
    && (r matches Ok(x) ==> (x.mac_address_indicator == MacAddressIndicator::ShortAddress))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_ShortMacTwoWaySessionInfoNtf(v)))
}
@impl packets::uci::VTryFrom<&ShortMacTwoWaySessionInfoNtf> for SessionControlPacket
open spec fn try_from_ens(v: &ShortMacTwoWaySessionInfoNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_ShortMacTwoWaySessionInfoNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_ShortMacTwoWaySessionInfoNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_ShortMacTwoWaySessionInfoNtf(*v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Start))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::stubs::u32le(v.sequence_number) + crate::stubs::u32le(v.session_token) + crate::stubs::u8le(v.rcr_indicator) + crate::stubs::u32le(v.current_ranging_interval) + seq![crate::codec::code_RangingMeasurementType(RangingMeasurementType::TwoWay)] + Seq::new(1, |i: int| 0u8) + seq![crate::codec::code_MacAddressIndicator(MacAddressIndicator::ShortAddress)] + Seq::new(8, |i: int| 0u8) + crate::codec::encp_ShortMacTwoWaySessionInfoNtf(*v)))
}
@fn packets::uci::VTryFrom<&ShortMacTwoWaySessionInfoNtf> for SessionControlPacket::try_from
@start
proof { reveal(crate::codec::encf_ShortMacTwoWaySessionInfoNtf); reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encp_SessionInfoNtf); reveal(crate::codec::encf_SessionInfoNtf); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<ShortMacTwoWaySessionInfoNtf> for SessionControlPacket
open spec fn try_from_ens(v: ShortMacTwoWaySessionInfoNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_ShortMacTwoWaySessionInfoNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_ShortMacTwoWaySessionInfoNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_ShortMacTwoWaySessionInfoNtf(v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Start))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == crate::stubs::u32le(v.sequence_number) + crate::stubs::u32le(v.session_token) + crate::stubs::u8le(v.rcr_indicator) + crate::stubs::u32le(v.current_ranging_interval) + seq![crate::codec::code_RangingMeasurementType(RangingMeasurementType::TwoWay)] + Seq::new(1, |i: int| 0u8) + seq![crate::codec::code_MacAddressIndicator(MacAddressIndicator::ShortAddress)] + Seq::new(8, |i: int| 0u8) + crate::codec::encp_ShortMacTwoWaySessionInfoNtf(v)))
}
@impl packets::uci::VTryFrom<&ShortMacTwoWaySessionInfoNtf> for ControlPacket
open spec fn try_from_ens(v: &ShortMacTwoWaySessionInfoNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_ShortMacTwoWaySessionInfoNtf(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_ShortMacTwoWaySessionInfoNtf(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_ShortMacTwoWaySessionInfoNtf(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + crate::stubs::u32le(v.sequence_number) + crate::stubs::u32le(v.session_token) + crate::stubs::u8le(v.rcr_indicator) + crate::stubs::u32le(v.current_ranging_interval) + seq![crate::codec::code_RangingMeasurementType(RangingMeasurementType::TwoWay)] + Seq::new(1, |i: int| 0u8) + seq![crate::codec::code_MacAddressIndicator(MacAddressIndicator::ShortAddress)] + Seq::new(8, |i: int| 0u8) + crate::codec::encp_ShortMacTwoWaySessionInfoNtf(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&ShortMacTwoWaySessionInfoNtf> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_ShortMacTwoWaySessionInfoNtf); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionInfoNtf); reveal(crate::codec::encf_SessionInfoNtf); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket); }
@impl packets::uci::VTryFrom<ShortMacTwoWaySessionInfoNtf> for ControlPacket
open spec fn try_from_ens(v: ShortMacTwoWaySessionInfoNtf, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_ShortMacTwoWaySessionInfoNtf(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_ShortMacTwoWaySessionInfoNtf(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_ShortMacTwoWaySessionInfoNtf(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Notification))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Start)) as u8] + Seq::new(2, |i: int| 0u8) + crate::stubs::u32le(v.sequence_number) + crate::stubs::u32le(v.session_token) + crate::stubs::u8le(v.rcr_indicator) + crate::stubs::u32le(v.current_ranging_interval) + seq![crate::codec::code_RangingMeasurementType(RangingMeasurementType::TwoWay)] + Seq::new(1, |i: int| 0u8) + seq![crate::codec::code_MacAddressIndicator(MacAddressIndicator::ShortAddress)] + Seq::new(8, |i: int| 0u8) + crate::codec::encp_ShortMacTwoWaySessionInfoNtf(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionStopCmd> for SessionControlPacket
open spec fn try_from_ens(v: &SessionStopCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStopCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionStopCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStopCmd(*v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Stop))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionStopCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionStopCmd> for SessionControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionStopCmd); reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionStopCmd> for SessionControlPacket
open spec fn try_from_ens(v: SessionStopCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStopCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionStopCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStopCmd(v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Stop))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionStopCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionStopCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionStopCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStopCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionStopCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStopCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Stop)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionStopCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionStopCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionStopCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket); }
@impl packets::uci::VTryFrom<SessionStopCmd> for ControlPacket
open spec fn try_from_ens(v: SessionStopCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStopCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionStopCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStopCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Stop)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionStopCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionStopRsp> for SessionControlPacket
open spec fn try_from_ens(v: &SessionStopRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStopRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionStopRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStopRsp(*v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Stop))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionStopRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionStopRsp> for SessionControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionStopRsp); reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionStopRsp> for SessionControlPacket
open spec fn try_from_ens(v: SessionStopRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStopRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionStopRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStopRsp(v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::Stop))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionStopRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionStopRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionStopRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStopRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionStopRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStopRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Stop)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionStopRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionStopRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionStopRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket); }
@impl packets::uci::VTryFrom<SessionStopRsp> for ControlPacket
open spec fn try_from_ens(v: SessionStopRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionStopRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionStopRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionStopRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::Stop)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionStopRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionGetRangingCountCmd> for SessionControlPacket
open spec fn try_from_ens(v: &SessionGetRangingCountCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetRangingCountCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionGetRangingCountCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetRangingCountCmd(*v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::GetRangingCount))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetRangingCountCmd(*v)))
}
@fn packets::uci::VTryFrom<&SessionGetRangingCountCmd> for SessionControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetRangingCountCmd); reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionGetRangingCountCmd> for SessionControlPacket
open spec fn try_from_ens(v: SessionGetRangingCountCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetRangingCountCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionGetRangingCountCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetRangingCountCmd(v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::GetRangingCount))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetRangingCountCmd(v)))
}
@impl packets::uci::VTryFrom<&SessionGetRangingCountCmd> for ControlPacket
open spec fn try_from_ens(v: &SessionGetRangingCountCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetRangingCountCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetRangingCountCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetRangingCountCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::GetRangingCount)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetRangingCountCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionGetRangingCountCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetRangingCountCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket); }
@impl packets::uci::VTryFrom<SessionGetRangingCountCmd> for ControlPacket
open spec fn try_from_ens(v: SessionGetRangingCountCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetRangingCountCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetRangingCountCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetRangingCountCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::GetRangingCount)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetRangingCountCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&SessionGetRangingCountRsp> for SessionControlPacket
open spec fn try_from_ens(v: &SessionGetRangingCountRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetRangingCountRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionGetRangingCountRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetRangingCountRsp(*v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::GetRangingCount))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetRangingCountRsp(*v)))
}
@fn packets::uci::VTryFrom<&SessionGetRangingCountRsp> for SessionControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetRangingCountRsp); reveal(crate::codec::encf_SessionControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<SessionGetRangingCountRsp> for SessionControlPacket
open spec fn try_from_ens(v: SessionGetRangingCountRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetRangingCountRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_SessionControlPacket(x) == crate::codec::encf_SessionGetRangingCountRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetRangingCountRsp(v) ==> crate::codec::wf_SessionControlPacket(x)))
    && (r matches Ok(x) ==> (x.oid == SessionControlOpcodeId::GetRangingCount))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_SessionGetRangingCountRsp(v)))
}
@impl packets::uci::VTryFrom<&SessionGetRangingCountRsp> for ControlPacket
open spec fn try_from_ens(v: &SessionGetRangingCountRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetRangingCountRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetRangingCountRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetRangingCountRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::GetRangingCount)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetRangingCountRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&SessionGetRangingCountRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_SessionGetRangingCountRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_SessionControlPacket); reveal(crate::codec::encf_SessionControlPacket); }
@impl packets::uci::VTryFrom<SessionGetRangingCountRsp> for ControlPacket
open spec fn try_from_ens(v: SessionGetRangingCountRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_SessionGetRangingCountRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_SessionGetRangingCountRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_SessionGetRangingCountRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::SessionControl))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_SessionControlOpcodeId(SessionControlOpcodeId::GetRangingCount)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_SessionGetRangingCountRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 3 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&AndroidGetPowerStatsCmd> for AndroidPacket
open spec fn try_from_ens(v: &AndroidGetPowerStatsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidGetPowerStatsCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_AndroidPacket(x) == crate::codec::encf_AndroidGetPowerStatsCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidGetPowerStatsCmd(*v) ==> crate::codec::wf_AndroidPacket(x)))
    && (r matches Ok(x) ==> (x.oid == AndroidOpcodeId::GetPowerStats))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_AndroidGetPowerStatsCmd(*v)))
}
@fn packets::uci::VTryFrom<&AndroidGetPowerStatsCmd> for AndroidPacket::try_from
@start
proof { reveal(crate::codec::encf_AndroidGetPowerStatsCmd); reveal(crate::codec::encf_AndroidPacket); reveal(crate::codec::encp_AndroidPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<AndroidGetPowerStatsCmd> for AndroidPacket
open spec fn try_from_ens(v: AndroidGetPowerStatsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidGetPowerStatsCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_AndroidPacket(x) == crate::codec::encf_AndroidGetPowerStatsCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidGetPowerStatsCmd(v) ==> crate::codec::wf_AndroidPacket(x)))
    && (r matches Ok(x) ==> (x.oid == AndroidOpcodeId::GetPowerStats))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_AndroidGetPowerStatsCmd(v)))
}
@impl packets::uci::VTryFrom<&AndroidGetPowerStatsCmd> for ControlPacket
open spec fn try_from_ens(v: &AndroidGetPowerStatsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidGetPowerStatsCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_AndroidGetPowerStatsCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidGetPowerStatsCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::VendorAndroid))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_AndroidOpcodeId(AndroidOpcodeId::GetPowerStats)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_AndroidGetPowerStatsCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&AndroidGetPowerStatsCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_AndroidGetPowerStatsCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_AndroidPacket); reveal(crate::codec::encf_AndroidPacket); }
@impl packets::uci::VTryFrom<AndroidGetPowerStatsCmd> for ControlPacket
open spec fn try_from_ens(v: AndroidGetPowerStatsCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidGetPowerStatsCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_AndroidGetPowerStatsCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidGetPowerStatsCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::VendorAndroid))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_AndroidOpcodeId(AndroidOpcodeId::GetPowerStats)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_AndroidGetPowerStatsCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&AndroidGetPowerStatsRsp> for AndroidPacket
open spec fn try_from_ens(v: &AndroidGetPowerStatsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidGetPowerStatsRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_AndroidPacket(x) == crate::codec::encf_AndroidGetPowerStatsRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidGetPowerStatsRsp(*v) ==> crate::codec::wf_AndroidPacket(x)))
    && (r matches Ok(x) ==> (x.oid == AndroidOpcodeId::GetPowerStats))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_AndroidGetPowerStatsRsp(*v)))
}
@fn packets::uci::VTryFrom<&AndroidGetPowerStatsRsp> for AndroidPacket::try_from
@start
proof { reveal(crate::codec::encf_AndroidGetPowerStatsRsp); reveal(crate::codec::encf_AndroidPacket); reveal(crate::codec::encp_AndroidPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<AndroidGetPowerStatsRsp> for AndroidPacket
open spec fn try_from_ens(v: AndroidGetPowerStatsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidGetPowerStatsRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_AndroidPacket(x) == crate::codec::encf_AndroidGetPowerStatsRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidGetPowerStatsRsp(v) ==> crate::codec::wf_AndroidPacket(x)))
    && (r matches Ok(x) ==> (x.oid == AndroidOpcodeId::GetPowerStats))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_AndroidGetPowerStatsRsp(v)))
}
@impl packets::uci::VTryFrom<&AndroidGetPowerStatsRsp> for ControlPacket
open spec fn try_from_ens(v: &AndroidGetPowerStatsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidGetPowerStatsRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_AndroidGetPowerStatsRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidGetPowerStatsRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::VendorAndroid))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_AndroidOpcodeId(AndroidOpcodeId::GetPowerStats)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_AndroidGetPowerStatsRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&AndroidGetPowerStatsRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_AndroidGetPowerStatsRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_AndroidPacket); reveal(crate::codec::encf_AndroidPacket); }
@impl packets::uci::VTryFrom<AndroidGetPowerStatsRsp> for ControlPacket
open spec fn try_from_ens(v: AndroidGetPowerStatsRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidGetPowerStatsRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_AndroidGetPowerStatsRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidGetPowerStatsRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::VendorAndroid))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_AndroidOpcodeId(AndroidOpcodeId::GetPowerStats)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_AndroidGetPowerStatsRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 0 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&AndroidSetCountryCodeCmd> for AndroidPacket
open spec fn try_from_ens(v: &AndroidSetCountryCodeCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidSetCountryCodeCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_AndroidPacket(x) == crate::codec::encf_AndroidSetCountryCodeCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidSetCountryCodeCmd(*v) ==> crate::codec::wf_AndroidPacket(x)))
    && (r matches Ok(x) ==> (x.oid == AndroidOpcodeId::SetCountryCode))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_AndroidSetCountryCodeCmd(*v)))
}
@fn packets::uci::VTryFrom<&AndroidSetCountryCodeCmd> for AndroidPacket::try_from
@start
proof { reveal(crate::codec::encf_AndroidSetCountryCodeCmd); reveal(crate::codec::encf_AndroidPacket); reveal(crate::codec::encp_AndroidPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<AndroidSetCountryCodeCmd> for AndroidPacket
open spec fn try_from_ens(v: AndroidSetCountryCodeCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidSetCountryCodeCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_AndroidPacket(x) == crate::codec::encf_AndroidSetCountryCodeCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidSetCountryCodeCmd(v) ==> crate::codec::wf_AndroidPacket(x)))
    && (r matches Ok(x) ==> (x.oid == AndroidOpcodeId::SetCountryCode))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_AndroidSetCountryCodeCmd(v)))
}
@impl packets::uci::VTryFrom<&AndroidSetCountryCodeCmd> for ControlPacket
open spec fn try_from_ens(v: &AndroidSetCountryCodeCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidSetCountryCodeCmd(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_AndroidSetCountryCodeCmd(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidSetCountryCodeCmd(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::VendorAndroid))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_AndroidOpcodeId(AndroidOpcodeId::SetCountryCode)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_AndroidSetCountryCodeCmd(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&AndroidSetCountryCodeCmd> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_AndroidSetCountryCodeCmd); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_AndroidPacket); reveal(crate::codec::encf_AndroidPacket); }
@impl packets::uci::VTryFrom<AndroidSetCountryCodeCmd> for ControlPacket
open spec fn try_from_ens(v: AndroidSetCountryCodeCmd, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidSetCountryCodeCmd(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_AndroidSetCountryCodeCmd(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidSetCountryCodeCmd(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::VendorAndroid))
    && (r matches Ok(x) ==> (x.mt == MessageType::Command))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_AndroidOpcodeId(AndroidOpcodeId::SetCountryCode)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_AndroidSetCountryCodeCmd(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&AndroidSetCountryCodeRsp> for AndroidPacket
open spec fn try_from_ens(v: &AndroidSetCountryCodeRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidSetCountryCodeRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_AndroidPacket(x) == crate::codec::encf_AndroidSetCountryCodeRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidSetCountryCodeRsp(*v) ==> crate::codec::wf_AndroidPacket(x)))
    && (r matches Ok(x) ==> (x.oid == AndroidOpcodeId::SetCountryCode))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_AndroidSetCountryCodeRsp(*v)))
}
@fn packets::uci::VTryFrom<&AndroidSetCountryCodeRsp> for AndroidPacket::try_from
@start
proof { reveal(crate::codec::encf_AndroidSetCountryCodeRsp); reveal(crate::codec::encf_AndroidPacket); reveal(crate::codec::encp_AndroidPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encf_ControlPacket); }
@impl packets::uci::VTryFrom<AndroidSetCountryCodeRsp> for AndroidPacket
open spec fn try_from_ens(v: AndroidSetCountryCodeRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidSetCountryCodeRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_AndroidPacket(x) == crate::codec::encf_AndroidSetCountryCodeRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidSetCountryCodeRsp(v) ==> crate::codec::wf_AndroidPacket(x)))
    && (r matches Ok(x) ==> (x.oid == AndroidOpcodeId::SetCountryCode))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == crate::codec::encp_AndroidSetCountryCodeRsp(v)))
}
@impl packets::uci::VTryFrom<&AndroidSetCountryCodeRsp> for ControlPacket
open spec fn try_from_ens(v: &AndroidSetCountryCodeRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidSetCountryCodeRsp(*v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_AndroidSetCountryCodeRsp(*v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidSetCountryCodeRsp(*v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::VendorAndroid))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_AndroidOpcodeId(AndroidOpcodeId::SetCountryCode)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_AndroidSetCountryCodeRsp(*v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@fn packets::uci::VTryFrom<&AndroidSetCountryCodeRsp> for ControlPacket::try_from
@start
proof { reveal(crate::codec::encf_AndroidSetCountryCodeRsp); reveal(crate::codec::encf_ControlPacket); reveal(crate::codec::encp_ControlPacket); reveal(crate::codec::encp_AndroidPacket); reveal(crate::codec::encf_AndroidPacket); }
@impl packets::uci::VTryFrom<AndroidSetCountryCodeRsp> for ControlPacket
open spec fn try_from_ens(v: AndroidSetCountryCodeRsp, r: core::result::Result<Self, Self::Error>) -> bool {
    (r is Ok) == crate::codec::encok_AndroidSetCountryCodeRsp(v)
    && (r matches Ok(x) ==> (crate::codec::encf_ControlPacket(x) == crate::codec::encf_AndroidSetCountryCodeRsp(v)))
    && (r matches Ok(x) ==> (crate::codec::wf_AndroidSetCountryCodeRsp(v) ==> crate::codec::wf_ControlPacket(x)))
    && (r matches Ok(x) ==> (x.gid == GroupId::VendorAndroid))
    && (r matches Ok(x) ==> (x.mt == MessageType::Response))
    && (r matches Ok(x) ==> (x.payload@ == seq![(crate::codec::code_AndroidOpcodeId(AndroidOpcodeId::SetCountryCode)) as u8] + Seq::new(2, |i: int| 0u8) + crate::codec::encp_AndroidSetCountryCodeRsp(v)))
    && (r matches Ok(x) ==> (x.payload@.len() >= 3 && x.payload@[0] == 1 && x.payload@[1] == 0 && x.payload@[2] == 0))
}
@impl packets::uci::VTryFrom<&DataPacket> for DataMessageSnd
open spec fn try_from_ens(v: &DataPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.dpf == DataPacketFormat::DataSnd && v.mt == MessageType::Data && crate::codec::val_DataMessageSnd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_DataMessageSnd(x) == v.payload@ && crate::codec::wf_DataMessageSnd(x) && x.pbf == v.pbf))
}
@impl packets::uci::VTryFrom<DataPacket> for DataMessageSnd
open spec fn try_from_ens(v: DataPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.dpf == DataPacketFormat::DataSnd && v.mt == MessageType::Data && crate::codec::val_DataMessageSnd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_DataMessageSnd(x) == v.payload@ && crate::codec::wf_DataMessageSnd(x) && x.pbf == v.pbf))
}
@fn packets::uci::DataMessageSnd::decode_partial
@ens E01: (r is Ok) == (parent.dpf == DataPacketFormat::DataSnd && parent.mt == MessageType::Data && crate::codec::val_DataMessageSnd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_DataMessageSnd(x) == parent.payload@ && crate::codec::wf_DataMessageSnd(x) && x.pbf == parent.pbf)
@start
proof { reveal(crate::codec::encp_DataMessageSnd); }
@impl packets::uci::VTryFrom<&DataPacket> for DataMessageRcv
open spec fn try_from_ens(v: &DataPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.dpf == DataPacketFormat::DataRcv && v.mt == MessageType::Data && crate::codec::val_DataMessageRcv(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_DataMessageRcv(x) == v.payload@ && crate::codec::wf_DataMessageRcv(x) && x.pbf == v.pbf))
}
@impl packets::uci::VTryFrom<DataPacket> for DataMessageRcv
open spec fn try_from_ens(v: DataPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.dpf == DataPacketFormat::DataRcv && v.mt == MessageType::Data && crate::codec::val_DataMessageRcv(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_DataMessageRcv(x) == v.payload@ && crate::codec::wf_DataMessageRcv(x) && x.pbf == v.pbf))
}
@fn packets::uci::DataMessageRcv::decode_partial
@ens E01: (r is Ok) == (parent.dpf == DataPacketFormat::DataRcv && parent.mt == MessageType::Data && crate::codec::val_DataMessageRcv(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_DataMessageRcv(x) == parent.payload@ && crate::codec::wf_DataMessageRcv(x) && x.pbf == parent.pbf)
@start
proof { reveal(crate::codec::encp_DataMessageRcv); }
@impl packets::uci::VTryFrom<&ControlPacket> for CorePacket
open spec fn try_from_ens(v: &ControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.gid == GroupId::Core && crate::codec::val_CorePacket(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::rel_CorePacket(v.payload@, x) && x.mt == v.mt))
}
@impl packets::uci::VTryFrom<ControlPacket> for CorePacket
open spec fn try_from_ens(v: ControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.gid == GroupId::Core && crate::codec::val_CorePacket(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::rel_CorePacket(v.payload@, x) && x.mt == v.mt))
}
@fn packets::uci::CorePacket::decode_partial
@ens E01: (r is Ok) == (parent.gid == GroupId::Core && crate::codec::val_CorePacket(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::rel_CorePacket(parent.payload@, x) && x.mt == parent.mt)
@start
proof { reveal(crate::codec::encp_CorePacket); }
@impl packets::uci::VTryFrom<&ControlPacket> for SessionConfigPacket
open spec fn try_from_ens(v: &ControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.gid == GroupId::SessionConfig && crate::codec::val_SessionConfigPacket(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::rel_SessionConfigPacket(v.payload@, x) && x.mt == v.mt))
}
@impl packets::uci::VTryFrom<ControlPacket> for SessionConfigPacket
open spec fn try_from_ens(v: ControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.gid == GroupId::SessionConfig && crate::codec::val_SessionConfigPacket(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::rel_SessionConfigPacket(v.payload@, x) && x.mt == v.mt))
}
@fn packets::uci::SessionConfigPacket::decode_partial
@ens E01: (r is Ok) == (parent.gid == GroupId::SessionConfig && crate::codec::val_SessionConfigPacket(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::rel_SessionConfigPacket(parent.payload@, x) && x.mt == parent.mt)
@start
proof { reveal(crate::codec::encp_SessionConfigPacket); }
@impl packets::uci::VTryFrom<&ControlPacket> for SessionControlPacket
open spec fn try_from_ens(v: &ControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.gid == GroupId::SessionControl && crate::codec::val_SessionControlPacket(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::rel_SessionControlPacket(v.payload@, x) && x.mt == v.mt))
}
@impl packets::uci::VTryFrom<ControlPacket> for SessionControlPacket
open spec fn try_from_ens(v: ControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.gid == GroupId::SessionControl && crate::codec::val_SessionControlPacket(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::rel_SessionControlPacket(v.payload@, x) && x.mt == v.mt))
}
@fn packets::uci::SessionControlPacket::decode_partial
@ens E01: (r is Ok) == (parent.gid == GroupId::SessionControl && crate::codec::val_SessionControlPacket(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::rel_SessionControlPacket(parent.payload@, x) && x.mt == parent.mt)
@start
proof { reveal(crate::codec::encp_SessionControlPacket); }
@impl packets::uci::VTryFrom<&ControlPacket> for AndroidPacket
open spec fn try_from_ens(v: &ControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.gid == GroupId::VendorAndroid && crate::codec::val_AndroidPacket(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::rel_AndroidPacket(v.payload@, x) && x.mt == v.mt))
}
@impl packets::uci::VTryFrom<ControlPacket> for AndroidPacket
open spec fn try_from_ens(v: ControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.gid == GroupId::VendorAndroid && crate::codec::val_AndroidPacket(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::rel_AndroidPacket(v.payload@, x) && x.mt == v.mt))
}
@fn packets::uci::AndroidPacket::decode_partial
@ens E01: (r is Ok) == (parent.gid == GroupId::VendorAndroid && crate::codec::val_AndroidPacket(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::rel_AndroidPacket(parent.payload@, x) && x.mt == parent.mt)
@start
proof { reveal(crate::codec::encp_AndroidPacket); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreDeviceResetCmd
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::DeviceReset && crate::codec::val_CoreDeviceResetCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreDeviceResetCmd(x) == v.payload@ && crate::codec::wf_CoreDeviceResetCmd(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreDeviceResetCmd
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::DeviceReset && crate::codec::val_CoreDeviceResetCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreDeviceResetCmd(x) == v.payload@ && crate::codec::wf_CoreDeviceResetCmd(x)))
}
@fn packets::uci::CoreDeviceResetCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == CoreOpcodeId::DeviceReset && crate::codec::val_CoreDeviceResetCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreDeviceResetCmd(x) == parent.payload@ && crate::codec::wf_CoreDeviceResetCmd(x))
@start
proof { reveal(crate::codec::encp_CoreDeviceResetCmd); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreDeviceResetRsp
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::DeviceReset && crate::codec::val_CoreDeviceResetRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreDeviceResetRsp(x) == v.payload@ && crate::codec::wf_CoreDeviceResetRsp(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreDeviceResetRsp
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::DeviceReset && crate::codec::val_CoreDeviceResetRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreDeviceResetRsp(x) == v.payload@ && crate::codec::wf_CoreDeviceResetRsp(x)))
}
@fn packets::uci::CoreDeviceResetRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == CoreOpcodeId::DeviceReset && crate::codec::val_CoreDeviceResetRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreDeviceResetRsp(x) == parent.payload@ && crate::codec::wf_CoreDeviceResetRsp(x))
@start
proof { reveal(crate::codec::encp_CoreDeviceResetRsp); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreDeviceStatusNtf
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == CoreOpcodeId::DeviceStatus && crate::codec::val_CoreDeviceStatusNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreDeviceStatusNtf(x) == v.payload@ && crate::codec::wf_CoreDeviceStatusNtf(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreDeviceStatusNtf
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == CoreOpcodeId::DeviceStatus && crate::codec::val_CoreDeviceStatusNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreDeviceStatusNtf(x) == v.payload@ && crate::codec::wf_CoreDeviceStatusNtf(x)))
}
@fn packets::uci::CoreDeviceStatusNtf::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Notification && parent.oid == CoreOpcodeId::DeviceStatus && crate::codec::val_CoreDeviceStatusNtf(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreDeviceStatusNtf(x) == parent.payload@ && crate::codec::wf_CoreDeviceStatusNtf(x))
@start
proof { reveal(crate::codec::encp_CoreDeviceStatusNtf); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreGetDeviceInfoCmd
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::GetDeviceInfo && crate::codec::val_CoreGetDeviceInfoCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetDeviceInfoCmd(x) == v.payload@ && crate::codec::wf_CoreGetDeviceInfoCmd(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreGetDeviceInfoCmd
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::GetDeviceInfo && crate::codec::val_CoreGetDeviceInfoCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetDeviceInfoCmd(x) == v.payload@ && crate::codec::wf_CoreGetDeviceInfoCmd(x)))
}
@fn packets::uci::CoreGetDeviceInfoCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == CoreOpcodeId::GetDeviceInfo && crate::codec::val_CoreGetDeviceInfoCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreGetDeviceInfoCmd(x) == parent.payload@ && crate::codec::wf_CoreGetDeviceInfoCmd(x))
@start
proof { reveal(crate::codec::encp_CoreGetDeviceInfoCmd); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreGetDeviceInfoRsp
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::GetDeviceInfo && crate::codec::val_CoreGetDeviceInfoRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetDeviceInfoRsp(x) == v.payload@ && crate::codec::wf_CoreGetDeviceInfoRsp(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreGetDeviceInfoRsp
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::GetDeviceInfo && crate::codec::val_CoreGetDeviceInfoRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetDeviceInfoRsp(x) == v.payload@ && crate::codec::wf_CoreGetDeviceInfoRsp(x)))
}
@fn packets::uci::CoreGetDeviceInfoRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == CoreOpcodeId::GetDeviceInfo && crate::codec::val_CoreGetDeviceInfoRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreGetDeviceInfoRsp(x) == parent.payload@ && crate::codec::wf_CoreGetDeviceInfoRsp(x))
@start
proof { reveal(crate::codec::encp_CoreGetDeviceInfoRsp); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreGetCapsInfoCmd
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::GetCapsInfo && crate::codec::val_CoreGetCapsInfoCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetCapsInfoCmd(x) == v.payload@ && crate::codec::wf_CoreGetCapsInfoCmd(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreGetCapsInfoCmd
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::GetCapsInfo && crate::codec::val_CoreGetCapsInfoCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetCapsInfoCmd(x) == v.payload@ && crate::codec::wf_CoreGetCapsInfoCmd(x)))
}
@fn packets::uci::CoreGetCapsInfoCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == CoreOpcodeId::GetCapsInfo && crate::codec::val_CoreGetCapsInfoCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreGetCapsInfoCmd(x) == parent.payload@ && crate::codec::wf_CoreGetCapsInfoCmd(x))
@start
proof { reveal(crate::codec::encp_CoreGetCapsInfoCmd); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreGetCapsInfoRsp
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::GetCapsInfo && crate::codec::val_CoreGetCapsInfoRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetCapsInfoRsp(x) == v.payload@ && crate::codec::wf_CoreGetCapsInfoRsp(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreGetCapsInfoRsp
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::GetCapsInfo && crate::codec::val_CoreGetCapsInfoRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetCapsInfoRsp(x) == v.payload@ && crate::codec::wf_CoreGetCapsInfoRsp(x)))
}
@fn packets::uci::CoreGetCapsInfoRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == CoreOpcodeId::GetCapsInfo && crate::codec::val_CoreGetCapsInfoRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreGetCapsInfoRsp(x) == parent.payload@ && crate::codec::wf_CoreGetCapsInfoRsp(x))
@start
proof { reveal(crate::codec::encp_CoreGetCapsInfoRsp); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreSetConfigCmd
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::SetConfig && crate::codec::val_CoreSetConfigCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreSetConfigCmd(x) == v.payload@ && crate::codec::wf_CoreSetConfigCmd(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreSetConfigCmd
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::SetConfig && crate::codec::val_CoreSetConfigCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreSetConfigCmd(x) == v.payload@ && crate::codec::wf_CoreSetConfigCmd(x)))
}
@fn packets::uci::CoreSetConfigCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == CoreOpcodeId::SetConfig && crate::codec::val_CoreSetConfigCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreSetConfigCmd(x) == parent.payload@ && crate::codec::wf_CoreSetConfigCmd(x))
@start
proof { reveal(crate::codec::encp_CoreSetConfigCmd); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreSetConfigRsp
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::SetConfig && crate::codec::val_CoreSetConfigRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreSetConfigRsp(x) == v.payload@ && crate::codec::wf_CoreSetConfigRsp(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreSetConfigRsp
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::SetConfig && crate::codec::val_CoreSetConfigRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreSetConfigRsp(x) == v.payload@ && crate::codec::wf_CoreSetConfigRsp(x)))
}
@fn packets::uci::CoreSetConfigRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == CoreOpcodeId::SetConfig && crate::codec::val_CoreSetConfigRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreSetConfigRsp(x) == parent.payload@ && crate::codec::wf_CoreSetConfigRsp(x))
@start
proof { reveal(crate::codec::encp_CoreSetConfigRsp); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreGetConfigCmd
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::GetConfig && crate::codec::val_CoreGetConfigCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetConfigCmd(x) == v.payload@ && crate::codec::wf_CoreGetConfigCmd(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreGetConfigCmd
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::GetConfig && crate::codec::val_CoreGetConfigCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetConfigCmd(x) == v.payload@ && crate::codec::wf_CoreGetConfigCmd(x)))
}
@fn packets::uci::CoreGetConfigCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == CoreOpcodeId::GetConfig && crate::codec::val_CoreGetConfigCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreGetConfigCmd(x) == parent.payload@ && crate::codec::wf_CoreGetConfigCmd(x))
@start
proof { reveal(crate::codec::encp_CoreGetConfigCmd); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreGetConfigRsp
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::GetConfig && crate::codec::val_CoreGetConfigRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetConfigRsp(x) == v.payload@ && crate::codec::wf_CoreGetConfigRsp(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreGetConfigRsp
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::GetConfig && crate::codec::val_CoreGetConfigRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGetConfigRsp(x) == v.payload@ && crate::codec::wf_CoreGetConfigRsp(x)))
}
@fn packets::uci::CoreGetConfigRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == CoreOpcodeId::GetConfig && crate::codec::val_CoreGetConfigRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreGetConfigRsp(x) == parent.payload@ && crate::codec::wf_CoreGetConfigRsp(x))
@start
proof { reveal(crate::codec::encp_CoreGetConfigRsp); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreGenericErrorNtf
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == CoreOpcodeId::GenericError && crate::codec::val_CoreGenericErrorNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGenericErrorNtf(x) == v.payload@ && crate::codec::wf_CoreGenericErrorNtf(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreGenericErrorNtf
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == CoreOpcodeId::GenericError && crate::codec::val_CoreGenericErrorNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreGenericErrorNtf(x) == v.payload@ && crate::codec::wf_CoreGenericErrorNtf(x)))
}
@fn packets::uci::CoreGenericErrorNtf::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Notification && parent.oid == CoreOpcodeId::GenericError && crate::codec::val_CoreGenericErrorNtf(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreGenericErrorNtf(x) == parent.payload@ && crate::codec::wf_CoreGenericErrorNtf(x))
@start
proof { reveal(crate::codec::encp_CoreGenericErrorNtf); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreQueryTimeStampCmd
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::QueryUwbsTimestamp && crate::codec::val_CoreQueryTimeStampCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreQueryTimeStampCmd(x) == v.payload@ && crate::codec::wf_CoreQueryTimeStampCmd(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreQueryTimeStampCmd
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == CoreOpcodeId::QueryUwbsTimestamp && crate::codec::val_CoreQueryTimeStampCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreQueryTimeStampCmd(x) == v.payload@ && crate::codec::wf_CoreQueryTimeStampCmd(x)))
}
@fn packets::uci::CoreQueryTimeStampCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == CoreOpcodeId::QueryUwbsTimestamp && crate::codec::val_CoreQueryTimeStampCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreQueryTimeStampCmd(x) == parent.payload@ && crate::codec::wf_CoreQueryTimeStampCmd(x))
@start
proof { reveal(crate::codec::encp_CoreQueryTimeStampCmd); }
@impl packets::uci::VTryFrom<&CorePacket> for CoreQueryTimeStampRsp
open spec fn try_from_ens(v: &CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::QueryUwbsTimestamp && crate::codec::val_CoreQueryTimeStampRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreQueryTimeStampRsp(x) == v.payload@ && crate::codec::wf_CoreQueryTimeStampRsp(x)))
}
@impl packets::uci::VTryFrom<CorePacket> for CoreQueryTimeStampRsp
open spec fn try_from_ens(v: CorePacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == CoreOpcodeId::QueryUwbsTimestamp && crate::codec::val_CoreQueryTimeStampRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_CoreQueryTimeStampRsp(x) == v.payload@ && crate::codec::wf_CoreQueryTimeStampRsp(x)))
}
@fn packets::uci::CoreQueryTimeStampRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == CoreOpcodeId::QueryUwbsTimestamp && crate::codec::val_CoreQueryTimeStampRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_CoreQueryTimeStampRsp(x) == parent.payload@ && crate::codec::wf_CoreQueryTimeStampRsp(x))
@start
proof { reveal(crate::codec::encp_CoreQueryTimeStampRsp); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionInitCmd
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::Init && crate::codec::val_SessionInitCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionInitCmd(x) == v.payload@ && crate::codec::wf_SessionInitCmd(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionInitCmd
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::Init && crate::codec::val_SessionInitCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionInitCmd(x) == v.payload@ && crate::codec::wf_SessionInitCmd(x)))
}
@fn packets::uci::SessionInitCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionConfigOpcodeId::Init && crate::codec::val_SessionInitCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionInitCmd(x) == parent.payload@ && crate::codec::wf_SessionInitCmd(x))
@start
proof { reveal(crate::codec::encp_SessionInitCmd); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionInitRsp_V2
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::Init && crate::codec::val_SessionInitRsp_V2(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionInitRsp_V2(x) == v.payload@ && crate::codec::wf_SessionInitRsp_V2(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionInitRsp_V2
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::Init && crate::codec::val_SessionInitRsp_V2(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionInitRsp_V2(x) == v.payload@ && crate::codec::wf_SessionInitRsp_V2(x)))
}
@fn packets::uci::SessionInitRsp_V2::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionConfigOpcodeId::Init && crate::codec::val_SessionInitRsp_V2(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionInitRsp_V2(x) == parent.payload@ && crate::codec::wf_SessionInitRsp_V2(x))
@start
proof { reveal(crate::codec::encp_SessionInitRsp_V2); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionInitRsp
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::Init && crate::codec::val_SessionInitRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionInitRsp(x) == v.payload@ && crate::codec::wf_SessionInitRsp(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionInitRsp
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::Init && crate::codec::val_SessionInitRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionInitRsp(x) == v.payload@ && crate::codec::wf_SessionInitRsp(x)))
}
@fn packets::uci::SessionInitRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionConfigOpcodeId::Init && crate::codec::val_SessionInitRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionInitRsp(x) == parent.payload@ && crate::codec::wf_SessionInitRsp(x))
@start
proof { reveal(crate::codec::encp_SessionInitRsp); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionDeinitCmd
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::Deinit && crate::codec::val_SessionDeinitCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionDeinitCmd(x) == v.payload@ && crate::codec::wf_SessionDeinitCmd(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionDeinitCmd
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::Deinit && crate::codec::val_SessionDeinitCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionDeinitCmd(x) == v.payload@ && crate::codec::wf_SessionDeinitCmd(x)))
}
@fn packets::uci::SessionDeinitCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionConfigOpcodeId::Deinit && crate::codec::val_SessionDeinitCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionDeinitCmd(x) == parent.payload@ && crate::codec::wf_SessionDeinitCmd(x))
@start
proof { reveal(crate::codec::encp_SessionDeinitCmd); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionDeinitRsp
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::Deinit && crate::codec::val_SessionDeinitRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionDeinitRsp(x) == v.payload@ && crate::codec::wf_SessionDeinitRsp(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionDeinitRsp
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::Deinit && crate::codec::val_SessionDeinitRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionDeinitRsp(x) == v.payload@ && crate::codec::wf_SessionDeinitRsp(x)))
}
@fn packets::uci::SessionDeinitRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionConfigOpcodeId::Deinit && crate::codec::val_SessionDeinitRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionDeinitRsp(x) == parent.payload@ && crate::codec::wf_SessionDeinitRsp(x))
@start
proof { reveal(crate::codec::encp_SessionDeinitRsp); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionStatusNtf
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == SessionConfigOpcodeId::Status && crate::codec::val_SessionStatusNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionStatusNtf(x) == v.payload@ && crate::codec::wf_SessionStatusNtf(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionStatusNtf
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == SessionConfigOpcodeId::Status && crate::codec::val_SessionStatusNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionStatusNtf(x) == v.payload@ && crate::codec::wf_SessionStatusNtf(x)))
}
@fn packets::uci::SessionStatusNtf::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Notification && parent.oid == SessionConfigOpcodeId::Status && crate::codec::val_SessionStatusNtf(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionStatusNtf(x) == parent.payload@ && crate::codec::wf_SessionStatusNtf(x))
@start
proof { reveal(crate::codec::encp_SessionStatusNtf); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionSetAppConfigCmd
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::SetAppConfig && crate::codec::val_SessionSetAppConfigCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionSetAppConfigCmd(x) == v.payload@ && crate::codec::wf_SessionSetAppConfigCmd(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionSetAppConfigCmd
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::SetAppConfig && crate::codec::val_SessionSetAppConfigCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionSetAppConfigCmd(x) == v.payload@ && crate::codec::wf_SessionSetAppConfigCmd(x)))
}
@fn packets::uci::SessionSetAppConfigCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionConfigOpcodeId::SetAppConfig && crate::codec::val_SessionSetAppConfigCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionSetAppConfigCmd(x) == parent.payload@ && crate::codec::wf_SessionSetAppConfigCmd(x))
@start
proof { reveal(crate::codec::encp_SessionSetAppConfigCmd); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionSetAppConfigRsp
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::SetAppConfig && crate::codec::val_SessionSetAppConfigRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionSetAppConfigRsp(x) == v.payload@ && crate::codec::wf_SessionSetAppConfigRsp(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionSetAppConfigRsp
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::SetAppConfig && crate::codec::val_SessionSetAppConfigRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionSetAppConfigRsp(x) == v.payload@ && crate::codec::wf_SessionSetAppConfigRsp(x)))
}
@fn packets::uci::SessionSetAppConfigRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionConfigOpcodeId::SetAppConfig && crate::codec::val_SessionSetAppConfigRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionSetAppConfigRsp(x) == parent.payload@ && crate::codec::wf_SessionSetAppConfigRsp(x))
@start
proof { reveal(crate::codec::encp_SessionSetAppConfigRsp); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionGetAppConfigCmd
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::GetAppConfig && crate::codec::val_SessionGetAppConfigCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetAppConfigCmd(x) == v.payload@ && crate::codec::wf_SessionGetAppConfigCmd(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionGetAppConfigCmd
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::GetAppConfig && crate::codec::val_SessionGetAppConfigCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetAppConfigCmd(x) == v.payload@ && crate::codec::wf_SessionGetAppConfigCmd(x)))
}
@fn packets::uci::SessionGetAppConfigCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionConfigOpcodeId::GetAppConfig && crate::codec::val_SessionGetAppConfigCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionGetAppConfigCmd(x) == parent.payload@ && crate::codec::wf_SessionGetAppConfigCmd(x))
@start
proof { reveal(crate::codec::encp_SessionGetAppConfigCmd); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionGetAppConfigRsp
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::GetAppConfig && crate::codec::val_SessionGetAppConfigRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetAppConfigRsp(x) == v.payload@ && crate::codec::wf_SessionGetAppConfigRsp(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionGetAppConfigRsp
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::GetAppConfig && crate::codec::val_SessionGetAppConfigRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetAppConfigRsp(x) == v.payload@ && crate::codec::wf_SessionGetAppConfigRsp(x)))
}
@fn packets::uci::SessionGetAppConfigRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionConfigOpcodeId::GetAppConfig && crate::codec::val_SessionGetAppConfigRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionGetAppConfigRsp(x) == parent.payload@ && crate::codec::wf_SessionGetAppConfigRsp(x))
@start
proof { reveal(crate::codec::encp_SessionGetAppConfigRsp); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionGetCountCmd
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::GetCount && crate::codec::val_SessionGetCountCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetCountCmd(x) == v.payload@ && crate::codec::wf_SessionGetCountCmd(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionGetCountCmd
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::GetCount && crate::codec::val_SessionGetCountCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetCountCmd(x) == v.payload@ && crate::codec::wf_SessionGetCountCmd(x)))
}
@fn packets::uci::SessionGetCountCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionConfigOpcodeId::GetCount && crate::codec::val_SessionGetCountCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionGetCountCmd(x) == parent.payload@ && crate::codec::wf_SessionGetCountCmd(x))
@start
proof { reveal(crate::codec::encp_SessionGetCountCmd); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionGetCountRsp
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::GetCount && crate::codec::val_SessionGetCountRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetCountRsp(x) == v.payload@ && crate::codec::wf_SessionGetCountRsp(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionGetCountRsp
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::GetCount && crate::codec::val_SessionGetCountRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetCountRsp(x) == v.payload@ && crate::codec::wf_SessionGetCountRsp(x)))
}
@fn packets::uci::SessionGetCountRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionConfigOpcodeId::GetCount && crate::codec::val_SessionGetCountRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionGetCountRsp(x) == parent.payload@ && crate::codec::wf_SessionGetCountRsp(x))
@start
proof { reveal(crate::codec::encp_SessionGetCountRsp); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionGetStateCmd
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::GetState && crate::codec::val_SessionGetStateCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetStateCmd(x) == v.payload@ && crate::codec::wf_SessionGetStateCmd(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionGetStateCmd
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::GetState && crate::codec::val_SessionGetStateCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetStateCmd(x) == v.payload@ && crate::codec::wf_SessionGetStateCmd(x)))
}
@fn packets::uci::SessionGetStateCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionConfigOpcodeId::GetState && crate::codec::val_SessionGetStateCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionGetStateCmd(x) == parent.payload@ && crate::codec::wf_SessionGetStateCmd(x))
@start
proof { reveal(crate::codec::encp_SessionGetStateCmd); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionGetStateRsp
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::GetState && crate::codec::val_SessionGetStateRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetStateRsp(x) == v.payload@ && crate::codec::wf_SessionGetStateRsp(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionGetStateRsp
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::GetState && crate::codec::val_SessionGetStateRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetStateRsp(x) == v.payload@ && crate::codec::wf_SessionGetStateRsp(x)))
}
@fn packets::uci::SessionGetStateRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionConfigOpcodeId::GetState && crate::codec::val_SessionGetStateRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionGetStateRsp(x) == parent.payload@ && crate::codec::wf_SessionGetStateRsp(x))
@start
proof { reveal(crate::codec::encp_SessionGetStateRsp); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionUpdateDtAnchorRangingRoundsCmd
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds && crate::codec::val_SessionUpdateDtAnchorRangingRoundsCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtAnchorRangingRoundsCmd(x) == v.payload@ && crate::codec::wf_SessionUpdateDtAnchorRangingRoundsCmd(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionUpdateDtAnchorRangingRoundsCmd
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds && crate::codec::val_SessionUpdateDtAnchorRangingRoundsCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtAnchorRangingRoundsCmd(x) == v.payload@ && crate::codec::wf_SessionUpdateDtAnchorRangingRoundsCmd(x)))
}
@fn packets::uci::SessionUpdateDtAnchorRangingRoundsCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds && crate::codec::val_SessionUpdateDtAnchorRangingRoundsCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtAnchorRangingRoundsCmd(x) == parent.payload@ && crate::codec::wf_SessionUpdateDtAnchorRangingRoundsCmd(x))
@start
proof { reveal(crate::codec::encp_SessionUpdateDtAnchorRangingRoundsCmd); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionUpdateDtAnchorRangingRoundsRsp
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds && crate::codec::val_SessionUpdateDtAnchorRangingRoundsRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtAnchorRangingRoundsRsp(x) == v.payload@ && crate::codec::wf_SessionUpdateDtAnchorRangingRoundsRsp(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionUpdateDtAnchorRangingRoundsRsp
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds && crate::codec::val_SessionUpdateDtAnchorRangingRoundsRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtAnchorRangingRoundsRsp(x) == v.payload@ && crate::codec::wf_SessionUpdateDtAnchorRangingRoundsRsp(x)))
}
@fn packets::uci::SessionUpdateDtAnchorRangingRoundsRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds && crate::codec::val_SessionUpdateDtAnchorRangingRoundsRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtAnchorRangingRoundsRsp(x) == parent.payload@ && crate::codec::wf_SessionUpdateDtAnchorRangingRoundsRsp(x))
@start
proof { reveal(crate::codec::encp_SessionUpdateDtAnchorRangingRoundsRsp); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionUpdateDtTagRangingRoundsCmd
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds && crate::codec::val_SessionUpdateDtTagRangingRoundsCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtTagRangingRoundsCmd(x) == v.payload@ && crate::codec::wf_SessionUpdateDtTagRangingRoundsCmd(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionUpdateDtTagRangingRoundsCmd
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds && crate::codec::val_SessionUpdateDtTagRangingRoundsCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtTagRangingRoundsCmd(x) == v.payload@ && crate::codec::wf_SessionUpdateDtTagRangingRoundsCmd(x)))
}
@fn packets::uci::SessionUpdateDtTagRangingRoundsCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds && crate::codec::val_SessionUpdateDtTagRangingRoundsCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtTagRangingRoundsCmd(x) == parent.payload@ && crate::codec::wf_SessionUpdateDtTagRangingRoundsCmd(x))
@start
proof { reveal(crate::codec::encp_SessionUpdateDtTagRangingRoundsCmd); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionUpdateDtTagRangingRoundsRsp
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds && crate::codec::val_SessionUpdateDtTagRangingRoundsRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtTagRangingRoundsRsp(x) == v.payload@ && crate::codec::wf_SessionUpdateDtTagRangingRoundsRsp(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionUpdateDtTagRangingRoundsRsp
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds && crate::codec::val_SessionUpdateDtTagRangingRoundsRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtTagRangingRoundsRsp(x) == v.payload@ && crate::codec::wf_SessionUpdateDtTagRangingRoundsRsp(x)))
}
@fn packets::uci::SessionUpdateDtTagRangingRoundsRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds && crate::codec::val_SessionUpdateDtTagRangingRoundsRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionUpdateDtTagRangingRoundsRsp(x) == parent.payload@ && crate::codec::wf_SessionUpdateDtTagRangingRoundsRsp(x))
@start
proof { reveal(crate::codec::encp_SessionUpdateDtTagRangingRoundsRsp); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionUpdateControllerMulticastListCmd
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::UpdateControllerMulticastList && crate::codec::val_SessionUpdateControllerMulticastListCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateControllerMulticastListCmd(x) == v.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListCmd(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionUpdateControllerMulticastListCmd
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::UpdateControllerMulticastList && crate::codec::val_SessionUpdateControllerMulticastListCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateControllerMulticastListCmd(x) == v.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListCmd(x)))
}
@fn packets::uci::SessionUpdateControllerMulticastListCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionConfigOpcodeId::UpdateControllerMulticastList && crate::codec::val_SessionUpdateControllerMulticastListCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionUpdateControllerMulticastListCmd(x) == parent.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListCmd(x))
@start
proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListCmd); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionUpdateControllerMulticastListRsp
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::UpdateControllerMulticastList && crate::codec::val_SessionUpdateControllerMulticastListRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateControllerMulticastListRsp(x) == v.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListRsp(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionUpdateControllerMulticastListRsp
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::UpdateControllerMulticastList && crate::codec::val_SessionUpdateControllerMulticastListRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateControllerMulticastListRsp(x) == v.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListRsp(x)))
}
@fn packets::uci::SessionUpdateControllerMulticastListRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionConfigOpcodeId::UpdateControllerMulticastList && crate::codec::val_SessionUpdateControllerMulticastListRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionUpdateControllerMulticastListRsp(x) == parent.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListRsp(x))
@start
proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListRsp); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionUpdateControllerMulticastListNtf
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == SessionConfigOpcodeId::UpdateControllerMulticastList && crate::codec::val_SessionUpdateControllerMulticastListNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateControllerMulticastListNtf(x) == v.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListNtf(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionUpdateControllerMulticastListNtf
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == SessionConfigOpcodeId::UpdateControllerMulticastList && crate::codec::val_SessionUpdateControllerMulticastListNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionUpdateControllerMulticastListNtf(x) == v.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListNtf(x)))
}
@fn packets::uci::SessionUpdateControllerMulticastListNtf::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Notification && parent.oid == SessionConfigOpcodeId::UpdateControllerMulticastList && crate::codec::val_SessionUpdateControllerMulticastListNtf(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionUpdateControllerMulticastListNtf(x) == parent.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListNtf(x))
@start
proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListNtf); }
@impl packets::uci::VTryFrom<&SessionControlPacket> for SessionDataCreditNtf
open spec fn try_from_ens(v: &SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == SessionControlOpcodeId::DataCredit && crate::codec::val_SessionDataCreditNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionDataCreditNtf(x) == v.payload@ && crate::codec::wf_SessionDataCreditNtf(x)))
}
@impl packets::uci::VTryFrom<SessionControlPacket> for SessionDataCreditNtf
open spec fn try_from_ens(v: SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == SessionControlOpcodeId::DataCredit && crate::codec::val_SessionDataCreditNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionDataCreditNtf(x) == v.payload@ && crate::codec::wf_SessionDataCreditNtf(x)))
}
@fn packets::uci::SessionDataCreditNtf::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Notification && parent.oid == SessionControlOpcodeId::DataCredit && crate::codec::val_SessionDataCreditNtf(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionDataCreditNtf(x) == parent.payload@ && crate::codec::wf_SessionDataCreditNtf(x))
@start
proof { reveal(crate::codec::encp_SessionDataCreditNtf); }
@impl packets::uci::VTryFrom<&SessionControlPacket> for SessionDataTransferStatusNtf
open spec fn try_from_ens(v: &SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == SessionControlOpcodeId::DataTransferStatus && crate::codec::val_SessionDataTransferStatusNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionDataTransferStatusNtf(x) == v.payload@ && crate::codec::wf_SessionDataTransferStatusNtf(x)))
}
@impl packets::uci::VTryFrom<SessionControlPacket> for SessionDataTransferStatusNtf
open spec fn try_from_ens(v: SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Notification && v.oid == SessionControlOpcodeId::DataTransferStatus && crate::codec::val_SessionDataTransferStatusNtf(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionDataTransferStatusNtf(x) == v.payload@ && crate::codec::wf_SessionDataTransferStatusNtf(x)))
}
@fn packets::uci::SessionDataTransferStatusNtf::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Notification && parent.oid == SessionControlOpcodeId::DataTransferStatus && crate::codec::val_SessionDataTransferStatusNtf(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionDataTransferStatusNtf(x) == parent.payload@ && crate::codec::wf_SessionDataTransferStatusNtf(x))
@start
proof { reveal(crate::codec::encp_SessionDataTransferStatusNtf); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionQueryMaxDataSizeInRangingCmd
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::QueryDataSizeInRanging && crate::codec::val_SessionQueryMaxDataSizeInRangingCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionQueryMaxDataSizeInRangingCmd(x) == v.payload@ && crate::codec::wf_SessionQueryMaxDataSizeInRangingCmd(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionQueryMaxDataSizeInRangingCmd
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionConfigOpcodeId::QueryDataSizeInRanging && crate::codec::val_SessionQueryMaxDataSizeInRangingCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionQueryMaxDataSizeInRangingCmd(x) == v.payload@ && crate::codec::wf_SessionQueryMaxDataSizeInRangingCmd(x)))
}
@fn packets::uci::SessionQueryMaxDataSizeInRangingCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionConfigOpcodeId::QueryDataSizeInRanging && crate::codec::val_SessionQueryMaxDataSizeInRangingCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionQueryMaxDataSizeInRangingCmd(x) == parent.payload@ && crate::codec::wf_SessionQueryMaxDataSizeInRangingCmd(x))
@start
proof { reveal(crate::codec::encp_SessionQueryMaxDataSizeInRangingCmd); }
@impl packets::uci::VTryFrom<&SessionConfigPacket> for SessionQueryMaxDataSizeInRangingRsp
open spec fn try_from_ens(v: &SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::QueryDataSizeInRanging && crate::codec::val_SessionQueryMaxDataSizeInRangingRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionQueryMaxDataSizeInRangingRsp(x) == v.payload@ && crate::codec::wf_SessionQueryMaxDataSizeInRangingRsp(x)))
}
@impl packets::uci::VTryFrom<SessionConfigPacket> for SessionQueryMaxDataSizeInRangingRsp
open spec fn try_from_ens(v: SessionConfigPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionConfigOpcodeId::QueryDataSizeInRanging && crate::codec::val_SessionQueryMaxDataSizeInRangingRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionQueryMaxDataSizeInRangingRsp(x) == v.payload@ && crate::codec::wf_SessionQueryMaxDataSizeInRangingRsp(x)))
}
@fn packets::uci::SessionQueryMaxDataSizeInRangingRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionConfigOpcodeId::QueryDataSizeInRanging && crate::codec::val_SessionQueryMaxDataSizeInRangingRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionQueryMaxDataSizeInRangingRsp(x) == parent.payload@ && crate::codec::wf_SessionQueryMaxDataSizeInRangingRsp(x))
@start
proof { reveal(crate::codec::encp_SessionQueryMaxDataSizeInRangingRsp); }
@impl packets::uci::VTryFrom<&SessionControlPacket> for SessionStartCmd
open spec fn try_from_ens(v: &SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionControlOpcodeId::Start && crate::codec::val_SessionStartCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionStartCmd(x) == v.payload@ && crate::codec::wf_SessionStartCmd(x)))
}
@impl packets::uci::VTryFrom<SessionControlPacket> for SessionStartCmd
open spec fn try_from_ens(v: SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionControlOpcodeId::Start && crate::codec::val_SessionStartCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionStartCmd(x) == v.payload@ && crate::codec::wf_SessionStartCmd(x)))
}
@fn packets::uci::SessionStartCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionControlOpcodeId::Start && crate::codec::val_SessionStartCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionStartCmd(x) == parent.payload@ && crate::codec::wf_SessionStartCmd(x))
@start
proof { reveal(crate::codec::encp_SessionStartCmd); }
@impl packets::uci::VTryFrom<&SessionControlPacket> for SessionStartRsp
open spec fn try_from_ens(v: &SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionControlOpcodeId::Start && crate::codec::val_SessionStartRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionStartRsp(x) == v.payload@ && crate::codec::wf_SessionStartRsp(x)))
}
@impl packets::uci::VTryFrom<SessionControlPacket> for SessionStartRsp
open spec fn try_from_ens(v: SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionControlOpcodeId::Start && crate::codec::val_SessionStartRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionStartRsp(x) == v.payload@ && crate::codec::wf_SessionStartRsp(x)))
}
@fn packets::uci::SessionStartRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionControlOpcodeId::Start && crate::codec::val_SessionStartRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionStartRsp(x) == parent.payload@ && crate::codec::wf_SessionStartRsp(x))
@start
proof { reveal(crate::codec::encp_SessionStartRsp); }
@impl packets::uci::VTryFrom<&SessionControlPacket> for SessionStopCmd
open spec fn try_from_ens(v: &SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionControlOpcodeId::Stop && crate::codec::val_SessionStopCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionStopCmd(x) == v.payload@ && crate::codec::wf_SessionStopCmd(x)))
}
@impl packets::uci::VTryFrom<SessionControlPacket> for SessionStopCmd
open spec fn try_from_ens(v: SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionControlOpcodeId::Stop && crate::codec::val_SessionStopCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionStopCmd(x) == v.payload@ && crate::codec::wf_SessionStopCmd(x)))
}
@fn packets::uci::SessionStopCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionControlOpcodeId::Stop && crate::codec::val_SessionStopCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionStopCmd(x) == parent.payload@ && crate::codec::wf_SessionStopCmd(x))
@start
proof { reveal(crate::codec::encp_SessionStopCmd); }
@impl packets::uci::VTryFrom<&SessionControlPacket> for SessionStopRsp
open spec fn try_from_ens(v: &SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionControlOpcodeId::Stop && crate::codec::val_SessionStopRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionStopRsp(x) == v.payload@ && crate::codec::wf_SessionStopRsp(x)))
}
@impl packets::uci::VTryFrom<SessionControlPacket> for SessionStopRsp
open spec fn try_from_ens(v: SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionControlOpcodeId::Stop && crate::codec::val_SessionStopRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionStopRsp(x) == v.payload@ && crate::codec::wf_SessionStopRsp(x)))
}
@fn packets::uci::SessionStopRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionControlOpcodeId::Stop && crate::codec::val_SessionStopRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionStopRsp(x) == parent.payload@ && crate::codec::wf_SessionStopRsp(x))
@start
proof { reveal(crate::codec::encp_SessionStopRsp); }
@impl packets::uci::VTryFrom<&SessionControlPacket> for SessionGetRangingCountCmd
open spec fn try_from_ens(v: &SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionControlOpcodeId::GetRangingCount && crate::codec::val_SessionGetRangingCountCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetRangingCountCmd(x) == v.payload@ && crate::codec::wf_SessionGetRangingCountCmd(x)))
}
@impl packets::uci::VTryFrom<SessionControlPacket> for SessionGetRangingCountCmd
open spec fn try_from_ens(v: SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == SessionControlOpcodeId::GetRangingCount && crate::codec::val_SessionGetRangingCountCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetRangingCountCmd(x) == v.payload@ && crate::codec::wf_SessionGetRangingCountCmd(x)))
}
@fn packets::uci::SessionGetRangingCountCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == SessionControlOpcodeId::GetRangingCount && crate::codec::val_SessionGetRangingCountCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionGetRangingCountCmd(x) == parent.payload@ && crate::codec::wf_SessionGetRangingCountCmd(x))
@start
proof { reveal(crate::codec::encp_SessionGetRangingCountCmd); }
@impl packets::uci::VTryFrom<&SessionControlPacket> for SessionGetRangingCountRsp
open spec fn try_from_ens(v: &SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionControlOpcodeId::GetRangingCount && crate::codec::val_SessionGetRangingCountRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetRangingCountRsp(x) == v.payload@ && crate::codec::wf_SessionGetRangingCountRsp(x)))
}
@impl packets::uci::VTryFrom<SessionControlPacket> for SessionGetRangingCountRsp
open spec fn try_from_ens(v: SessionControlPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == SessionControlOpcodeId::GetRangingCount && crate::codec::val_SessionGetRangingCountRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_SessionGetRangingCountRsp(x) == v.payload@ && crate::codec::wf_SessionGetRangingCountRsp(x)))
}
@fn packets::uci::SessionGetRangingCountRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == SessionControlOpcodeId::GetRangingCount && crate::codec::val_SessionGetRangingCountRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_SessionGetRangingCountRsp(x) == parent.payload@ && crate::codec::wf_SessionGetRangingCountRsp(x))
@start
proof { reveal(crate::codec::encp_SessionGetRangingCountRsp); }
@impl packets::uci::VTryFrom<&AndroidPacket> for AndroidGetPowerStatsCmd
open spec fn try_from_ens(v: &AndroidPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == AndroidOpcodeId::GetPowerStats && crate::codec::val_AndroidGetPowerStatsCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_AndroidGetPowerStatsCmd(x) == v.payload@ && crate::codec::wf_AndroidGetPowerStatsCmd(x)))
}
@impl packets::uci::VTryFrom<AndroidPacket> for AndroidGetPowerStatsCmd
open spec fn try_from_ens(v: AndroidPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == AndroidOpcodeId::GetPowerStats && crate::codec::val_AndroidGetPowerStatsCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_AndroidGetPowerStatsCmd(x) == v.payload@ && crate::codec::wf_AndroidGetPowerStatsCmd(x)))
}
@fn packets::uci::AndroidGetPowerStatsCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == AndroidOpcodeId::GetPowerStats && crate::codec::val_AndroidGetPowerStatsCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_AndroidGetPowerStatsCmd(x) == parent.payload@ && crate::codec::wf_AndroidGetPowerStatsCmd(x))
@start
proof { reveal(crate::codec::encp_AndroidGetPowerStatsCmd); }
@impl packets::uci::VTryFrom<&AndroidPacket> for AndroidGetPowerStatsRsp
open spec fn try_from_ens(v: &AndroidPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == AndroidOpcodeId::GetPowerStats && crate::codec::val_AndroidGetPowerStatsRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_AndroidGetPowerStatsRsp(x) == v.payload@ && crate::codec::wf_AndroidGetPowerStatsRsp(x)))
}
@impl packets::uci::VTryFrom<AndroidPacket> for AndroidGetPowerStatsRsp
open spec fn try_from_ens(v: AndroidPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == AndroidOpcodeId::GetPowerStats && crate::codec::val_AndroidGetPowerStatsRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_AndroidGetPowerStatsRsp(x) == v.payload@ && crate::codec::wf_AndroidGetPowerStatsRsp(x)))
}
@fn packets::uci::AndroidGetPowerStatsRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == AndroidOpcodeId::GetPowerStats && crate::codec::val_AndroidGetPowerStatsRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_AndroidGetPowerStatsRsp(x) == parent.payload@ && crate::codec::wf_AndroidGetPowerStatsRsp(x))
@start
proof { reveal(crate::codec::encp_AndroidGetPowerStatsRsp); }
@impl packets::uci::VTryFrom<&AndroidPacket> for AndroidSetCountryCodeCmd
open spec fn try_from_ens(v: &AndroidPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == AndroidOpcodeId::SetCountryCode && crate::codec::val_AndroidSetCountryCodeCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_AndroidSetCountryCodeCmd(x) == v.payload@ && crate::codec::wf_AndroidSetCountryCodeCmd(x)))
}
@impl packets::uci::VTryFrom<AndroidPacket> for AndroidSetCountryCodeCmd
open spec fn try_from_ens(v: AndroidPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Command && v.oid == AndroidOpcodeId::SetCountryCode && crate::codec::val_AndroidSetCountryCodeCmd(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_AndroidSetCountryCodeCmd(x) == v.payload@ && crate::codec::wf_AndroidSetCountryCodeCmd(x)))
}
@fn packets::uci::AndroidSetCountryCodeCmd::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Command && parent.oid == AndroidOpcodeId::SetCountryCode && crate::codec::val_AndroidSetCountryCodeCmd(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_AndroidSetCountryCodeCmd(x) == parent.payload@ && crate::codec::wf_AndroidSetCountryCodeCmd(x))
@start
proof { reveal(crate::codec::encp_AndroidSetCountryCodeCmd); }
@impl packets::uci::VTryFrom<&AndroidPacket> for AndroidSetCountryCodeRsp
open spec fn try_from_ens(v: &AndroidPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == AndroidOpcodeId::SetCountryCode && crate::codec::val_AndroidSetCountryCodeRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_AndroidSetCountryCodeRsp(x) == v.payload@ && crate::codec::wf_AndroidSetCountryCodeRsp(x)))
}
@impl packets::uci::VTryFrom<AndroidPacket> for AndroidSetCountryCodeRsp
open spec fn try_from_ens(v: AndroidPacket, r: core::result::Result<Self, Self::Error>) -> bool {
    ((r is Ok) == (v.mt == MessageType::Response && v.oid == AndroidOpcodeId::SetCountryCode && crate::codec::val_AndroidSetCountryCodeRsp(v.payload@)))
    && (r matches Ok(x) ==> (crate::codec::encp_AndroidSetCountryCodeRsp(x) == v.payload@ && crate::codec::wf_AndroidSetCountryCodeRsp(x)))
}
@fn packets::uci::AndroidSetCountryCodeRsp::decode_partial
@ens E01: (r is Ok) == (parent.mt == MessageType::Response && parent.oid == AndroidOpcodeId::SetCountryCode && crate::codec::val_AndroidSetCountryCodeRsp(parent.payload@))
@ens E01: r matches Ok(x) ==> (crate::codec::encp_AndroidSetCountryCodeRsp(x) == parent.payload@ && crate::codec::wf_AndroidSetCountryCodeRsp(x))
@start
proof { reveal(crate::codec::encp_AndroidSetCountryCodeRsp); }
@fn packets::uci::DataMessageSnd::decode_partial
@loop 1
@inv $N == (crate::stubs::le16(parent.payload@.subrange(14, 16))) as int && $I <= $N && application_data@.len() == $I && parent.payload@.len() >= 16 + $N && buf@ == parent.payload@.subrange(16 + $I, parent.payload@.len() as int)
@inv application_data@ == parent.payload@.subrange(16, 16 + $I)
@fn packets::uci::DataMessageRcv::decode_partial
@loop 1
@inv $N == (crate::stubs::le16(parent.payload@.subrange(15, 17))) as int && $I <= $N && application_data@.len() == $I && parent.payload@.len() >= 17 + $N && buf@ == parent.payload@.subrange(17 + $I, parent.payload@.len() as int)
@inv application_data@ == parent.payload@.subrange(17, 17 + $I)
@fn packets::uci::CoreDeviceResetCmd::decode_partial
@fn packets::uci::CoreDeviceResetRsp::decode_partial
@fn packets::uci::CoreDeviceStatusNtf::decode_partial
@fn packets::uci::CoreGetDeviceInfoCmd::decode_partial
@fn packets::uci::CoreGetDeviceInfoRsp::decode_partial
@loop 1
@inv $N == (parent.payload@[9]) as int && $I <= $N && vx_out@.len() == $I && vx_bad is None && parent.payload@.len() >= 10 + $N && buf@ == parent.payload@.subrange(10 + $I, parent.payload@.len() as int)
@inv vx_out@ == parent.payload@.subrange(10, 10 + $I)
@fn packets::uci::CoreGetCapsInfoCmd::decode_partial
@fn packets::uci::Packet for CapTlv::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_CapTlv); }
@loop 1
@inv $N == (vx_b@[1]) as int && $I <= $N && vx_out@.len() == $I && vx_bad is None && vx_b@.len() >= 2 + $N && buf@ == vx_b@.subrange(2 + $I, vx_b@.len() as int)
@inv vx_out@ == vx_b@.subrange(2, 2 + $I)
@fn packets::uci::CoreGetCapsInfoRsp::decode_partial
@loop 1
@inv $N == (parent.payload@[1]) as int && $I <= $N && parent.payload@.len() >= 2
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= parent.payload@.len() - (2)
@inv vx_bad is None ==> parent.payload@.subrange(2, parent.payload@.len() as int) == crate::codec::cat_CapTlv(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_CapTlv(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_CapTlv((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) == (if crate::codec::lens_CapTlv((parent.payload@[1]) as int - $I, buf@) < 0 { -1int } else { parent.payload@.len() - (2) - buf@.len() + crate::codec::lens_CapTlv((parent.payload@[1]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_CapTlv((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_CapTlv(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::Packet for ConfigParameter::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_ConfigParameter); }
@loop 1
@inv $N == (vx_b@[1]) as int && $I <= $N && value@.len() == $I && vx_b@.len() >= 2 + $N && buf@ == vx_b@.subrange(2 + $I, vx_b@.len() as int)
@inv value@ == vx_b@.subrange(2, 2 + $I)
@fn packets::uci::CoreSetConfigCmd::decode_partial
@loop 1
@inv $N == (parent.payload@[0]) as int && $I <= $N && parent.payload@.len() >= 1
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= parent.payload@.len() - (1)
@inv vx_bad is None ==> parent.payload@.subrange(1, parent.payload@.len() as int) == crate::codec::cat_ConfigParameter(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_ConfigParameter(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_ConfigParameter((parent.payload@[0]) as int, parent.payload@.subrange(1, parent.payload@.len() as int)) == (if crate::codec::lens_ConfigParameter((parent.payload@[0]) as int - $I, buf@) < 0 { -1int } else { parent.payload@.len() - (1) - buf@.len() + crate::codec::lens_ConfigParameter((parent.payload@[0]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_ConfigParameter((parent.payload@[0]) as int, parent.payload@.subrange(1, parent.payload@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_ConfigParameter(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::Packet for ConfigParameterStatus::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_ConfigParameterStatus); }
@fn packets::uci::CoreSetConfigRsp::decode_partial
@loop 1
@inv $N == (parent.payload@[1]) as int && $I <= $N && parent.payload@.len() >= 2
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= parent.payload@.len() - (2)
@inv vx_bad is None ==> parent.payload@.subrange(2, parent.payload@.len() as int) == crate::codec::cat_ConfigParameterStatus(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_ConfigParameterStatus(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_ConfigParameterStatus((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) == (if crate::codec::lens_ConfigParameterStatus((parent.payload@[1]) as int - $I, buf@) < 0 { -1int } else { parent.payload@.len() - (2) - buf@.len() + crate::codec::lens_ConfigParameterStatus((parent.payload@[1]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_ConfigParameterStatus((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_ConfigParameterStatus(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::CoreGetConfigCmd::decode_partial
@loop 1
@inv $N == (parent.payload@[0]) as int && $I <= $N && parent.payload@.len() >= 1 + $N
@inv vx_bad is None ==> vx_out@.len() == $I && buf@ == parent.payload@.subrange(1 + $I, parent.payload@.len() as int)
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::of_ConfigParameterId(#[trigger] parent.payload@[1 + j]) == Some(vx_out@[j]))
@inv vx_bad is Some ==> 0 < $I && crate::codec::of_ConfigParameterId(parent.payload@[1 + $I - 1]) is None
@fn packets::uci::CoreGetConfigRsp::decode_partial
@loop 1
@inv $N == (parent.payload@[1]) as int && $I <= $N && parent.payload@.len() >= 2
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= parent.payload@.len() - (2)
@inv vx_bad is None ==> parent.payload@.subrange(2, parent.payload@.len() as int) == crate::codec::cat_ConfigParameter(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_ConfigParameter(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_ConfigParameter((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) == (if crate::codec::lens_ConfigParameter((parent.payload@[1]) as int - $I, buf@) < 0 { -1int } else { parent.payload@.len() - (2) - buf@.len() + crate::codec::lens_ConfigParameter((parent.payload@[1]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_ConfigParameter((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_ConfigParameter(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::CoreGenericErrorNtf::decode_partial
@fn packets::uci::CoreQueryTimeStampCmd::decode_partial
@fn packets::uci::CoreQueryTimeStampRsp::decode_partial
@fn packets::uci::SessionInitCmd::decode_partial
@fn packets::uci::SessionInitRsp_V2::decode_partial
@fn packets::uci::SessionInitRsp::decode_partial
@fn packets::uci::SessionDeinitCmd::decode_partial
@fn packets::uci::SessionDeinitRsp::decode_partial
@fn packets::uci::SessionStatusNtf::decode_partial
@fn packets::uci::Packet for AppConfigTlv::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_AppConfigTlv); }
@loop 1
@inv $N == (vx_b@[1]) as int && $I <= $N && vx_out@.len() == $I && vx_bad is None && vx_b@.len() >= 2 + $N && buf@ == vx_b@.subrange(2 + $I, vx_b@.len() as int)
@inv vx_out@ == vx_b@.subrange(2, 2 + $I)
@fn packets::uci::SessionSetAppConfigCmd::decode_partial
@loop 1
@inv $N == (parent.payload@[4]) as int && $I <= $N && parent.payload@.len() >= 5
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= parent.payload@.len() - (5)
@inv vx_bad is None ==> parent.payload@.subrange(5, parent.payload@.len() as int) == crate::codec::cat_AppConfigTlv(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_AppConfigTlv(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_AppConfigTlv((parent.payload@[4]) as int, parent.payload@.subrange(5, parent.payload@.len() as int)) == (if crate::codec::lens_AppConfigTlv((parent.payload@[4]) as int - $I, buf@) < 0 { -1int } else { parent.payload@.len() - (5) - buf@.len() + crate::codec::lens_AppConfigTlv((parent.payload@[4]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_AppConfigTlv((parent.payload@[4]) as int, parent.payload@.subrange(5, parent.payload@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_AppConfigTlv(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::Packet for AppConfigStatus::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_AppConfigStatus); }
@fn packets::uci::SessionSetAppConfigRsp::decode_partial
@loop 1
@inv $N == (parent.payload@[1]) as int && $I <= $N && parent.payload@.len() >= 2
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= parent.payload@.len() - (2)
@inv vx_bad is None ==> parent.payload@.subrange(2, parent.payload@.len() as int) == crate::codec::cat_AppConfigStatus(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_AppConfigStatus(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_AppConfigStatus((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) == (if crate::codec::lens_AppConfigStatus((parent.payload@[1]) as int - $I, buf@) < 0 { -1int } else { parent.payload@.len() - (2) - buf@.len() + crate::codec::lens_AppConfigStatus((parent.payload@[1]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_AppConfigStatus((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_AppConfigStatus(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::SessionGetAppConfigCmd::decode_partial
@loop 1
@inv $N == (parent.payload@[4]) as int && $I <= $N && parent.payload@.len() >= 5 + $N
@inv vx_bad is None ==> vx_out@.len() == $I && buf@ == parent.payload@.subrange(5 + $I, parent.payload@.len() as int)
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::of_AppConfigTlvType(#[trigger] parent.payload@[5 + j]) == Some(vx_out@[j]))
@inv vx_bad is Some ==> 0 < $I && crate::codec::of_AppConfigTlvType(parent.payload@[5 + $I - 1]) is None
@fn packets::uci::SessionGetAppConfigRsp::decode_partial
@loop 1
@inv $N == (parent.payload@[1]) as int && $I <= $N && parent.payload@.len() >= 2
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= parent.payload@.len() - (2)
@inv vx_bad is None ==> parent.payload@.subrange(2, parent.payload@.len() as int) == crate::codec::cat_AppConfigTlv(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_AppConfigTlv(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_AppConfigTlv((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) == (if crate::codec::lens_AppConfigTlv((parent.payload@[1]) as int - $I, buf@) < 0 { -1int } else { parent.payload@.len() - (2) - buf@.len() + crate::codec::lens_AppConfigTlv((parent.payload@[1]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_AppConfigTlv((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_AppConfigTlv(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::SessionGetCountCmd::decode_partial
@fn packets::uci::SessionGetCountRsp::decode_partial
@fn packets::uci::SessionGetStateCmd::decode_partial
@fn packets::uci::SessionGetStateRsp::decode_partial
@fn packets::uci::SessionUpdateDtAnchorRangingRoundsCmd::decode_partial
@fn packets::uci::SessionUpdateDtAnchorRangingRoundsRsp::decode_partial
@fn packets::uci::SessionUpdateDtTagRangingRoundsCmd::decode_partial
@loop 1
@inv $N == (parent.payload@[4]) as int && $I <= $N && vx_out@.len() == $I && vx_bad is None && parent.payload@.len() >= 5 + $N && buf@ == parent.payload@.subrange(5 + $I, parent.payload@.len() as int)
@inv vx_out@ == parent.payload@.subrange(5, 5 + $I)
@fn packets::uci::SessionUpdateDtTagRangingRoundsRsp::decode_partial
@loop 1
@inv $N == (parent.payload@[1]) as int && $I <= $N && vx_out@.len() == $I && vx_bad is None && parent.payload@.len() >= 2 + $N && buf@ == parent.payload@.subrange(2 + $I, parent.payload@.len() as int)
@inv vx_out@ == parent.payload@.subrange(2, 2 + $I)
@fn packets::uci::Packet for Controlee::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_Controlee); }
@loop 1
@inv short_address@.len() == $I && vx_b@.len() >= 0 + 2 && buf@ == vx_b@.subrange(0 + $I, vx_b@.len() as int)
@inv short_address@ == vx_b@.subrange(0, 0 + $I)
@fn packets::uci::Packet for Controlee_V2_0_16_Byte_Version::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_Controlee_V2_0_16_Byte_Version); }
@loop 1
@inv short_address@.len() == $I && vx_b@.len() >= 0 + 2 && buf@ == vx_b@.subrange(0 + $I, vx_b@.len() as int)
@inv short_address@ == vx_b@.subrange(0, 0 + $I)
@loop 2
@inv subsession_key@.len() == $I && vx_b@.len() >= 6 + 16 && buf@ == vx_b@.subrange(6 + $I, vx_b@.len() as int)
@inv subsession_key@ == vx_b@.subrange(6, 6 + $I)
@fn packets::uci::Packet for Controlee_V2_0_32_Byte_Version::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_Controlee_V2_0_32_Byte_Version); }
@loop 1
@inv short_address@.len() == $I && vx_b@.len() >= 0 + 2 && buf@ == vx_b@.subrange(0 + $I, vx_b@.len() as int)
@inv short_address@ == vx_b@.subrange(0, 0 + $I)
@loop 2
@inv subsession_key@.len() == $I && vx_b@.len() >= 6 + 32 && buf@ == vx_b@.subrange(6 + $I, vx_b@.len() as int)
@inv subsession_key@ == vx_b@.subrange(6, 6 + $I)
@fn packets::uci::SessionUpdateControllerMulticastListCmd::decode_partial
@fn packets::uci::Packet for SessionUpdateControllerMulticastListCmdPayload::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListCmdPayload); }
@loop 1
@inv $N == (vx_b@[0]) as int && $I <= $N && vx_b@.len() >= 1
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= vx_b@.len() - (1)
@inv vx_bad is None ==> vx_b@.subrange(1, vx_b@.len() as int) == crate::codec::cat_Controlee(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_Controlee(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_Controlee((vx_b@[0]) as int, vx_b@.subrange(1, vx_b@.len() as int)) == (if crate::codec::lens_Controlee((vx_b@[0]) as int - $I, buf@) < 0 { -1int } else { vx_b@.len() - (1) - buf@.len() + crate::codec::lens_Controlee((vx_b@[0]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_Controlee((vx_b@[0]) as int, vx_b@.subrange(1, vx_b@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_Controlee(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::Packet for SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload); }
@loop 1
@inv $N == (vx_b@[0]) as int && $I <= $N && vx_b@.len() >= 1
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= vx_b@.len() - (1)
@inv vx_bad is None ==> vx_b@.subrange(1, vx_b@.len() as int) == crate::codec::cat_Controlee_V2_0_16_Byte_Version(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_Controlee_V2_0_16_Byte_Version(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_Controlee_V2_0_16_Byte_Version((vx_b@[0]) as int, vx_b@.subrange(1, vx_b@.len() as int)) == (if crate::codec::lens_Controlee_V2_0_16_Byte_Version((vx_b@[0]) as int - $I, buf@) < 0 { -1int } else { vx_b@.len() - (1) - buf@.len() + crate::codec::lens_Controlee_V2_0_16_Byte_Version((vx_b@[0]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_Controlee_V2_0_16_Byte_Version((vx_b@[0]) as int, vx_b@.subrange(1, vx_b@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_Controlee_V2_0_16_Byte_Version(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::Packet for SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload); }
@loop 1
@inv $N == (vx_b@[0]) as int && $I <= $N && vx_b@.len() >= 1
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= vx_b@.len() - (1)
@inv vx_bad is None ==> vx_b@.subrange(1, vx_b@.len() as int) == crate::codec::cat_Controlee_V2_0_32_Byte_Version(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_Controlee_V2_0_32_Byte_Version(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_Controlee_V2_0_32_Byte_Version((vx_b@[0]) as int, vx_b@.subrange(1, vx_b@.len() as int)) == (if crate::codec::lens_Controlee_V2_0_32_Byte_Version((vx_b@[0]) as int - $I, buf@) < 0 { -1int } else { vx_b@.len() - (1) - buf@.len() + crate::codec::lens_Controlee_V2_0_32_Byte_Version((vx_b@[0]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_Controlee_V2_0_32_Byte_Version((vx_b@[0]) as int, vx_b@.subrange(1, vx_b@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_Controlee_V2_0_32_Byte_Version(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::SessionUpdateControllerMulticastListRsp::decode_partial
@loop 1
@inv $N == (parent.payload@[1]) as int && $I <= $N && parent.payload@.len() >= 2
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= parent.payload@.len() - (2)
@inv vx_bad is None ==> parent.payload@.subrange(2, parent.payload@.len() as int) == crate::codec::cat_ControleeStatus(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_ControleeStatus(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_ControleeStatus((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) == (if crate::codec::lens_ControleeStatus((parent.payload@[1]) as int - $I, buf@) < 0 { -1int } else { parent.payload@.len() - (2) - buf@.len() + crate::codec::lens_ControleeStatus((parent.payload@[1]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_ControleeStatus((parent.payload@[1]) as int, parent.payload@.subrange(2, parent.payload@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_ControleeStatus(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::Packet for ControleeStatus::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_ControleeStatus); }
@loop 1
@inv mac_address@.len() == $I && vx_b@.len() >= 0 + 2 && buf@ == vx_b@.subrange(0 + $I, vx_b@.len() as int)
@inv mac_address@ == vx_b@.subrange(0, 0 + $I)
@fn packets::uci::SessionUpdateControllerMulticastListNtf::decode_partial
@loop 1
@inv $N == (parent.payload@[4]) as int && $I <= $N && parent.payload@.len() >= 5
@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= parent.payload@.len() - (5)
@inv vx_bad is None ==> parent.payload@.subrange(5, parent.payload@.len() as int) == crate::codec::cat_ControleeStatus(vx_out@) + buf@
@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> crate::codec::wf_ControleeStatus(#[trigger] vx_out@[j]))
@inv vx_bad is None ==> crate::codec::lens_ControleeStatus((parent.payload@[4]) as int, parent.payload@.subrange(5, parent.payload@.len() as int)) == (if crate::codec::lens_ControleeStatus((parent.payload@[4]) as int - $I, buf@) < 0 { -1int } else { parent.payload@.len() - (5) - buf@.len() + crate::codec::lens_ControleeStatus((parent.payload@[4]) as int - $I, buf@) })
@inv vx_bad is Some ==> crate::codec::lens_ControleeStatus((parent.payload@[4]) as int, parent.payload@.subrange(5, parent.payload@.len() as int)) < 0
@loopstart let ghost vx_gv = vx_out@;
@loopend proof { if vx_bad is None { crate::codec::lem_catpush_ControleeStatus(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }
@fn packets::uci::SessionDataCreditNtf::decode_partial
@fn packets::uci::SessionDataTransferStatusNtf::decode_partial
@fn packets::uci::SessionQueryMaxDataSizeInRangingCmd::decode_partial
@fn packets::uci::SessionQueryMaxDataSizeInRangingRsp::decode_partial
@fn packets::uci::SessionStartCmd::decode_partial
@fn packets::uci::SessionStartRsp::decode_partial
@fn packets::uci::SessionStopCmd::decode_partial
@fn packets::uci::SessionStopRsp::decode_partial
@fn packets::uci::SessionGetRangingCountCmd::decode_partial
@fn packets::uci::SessionGetRangingCountRsp::decode_partial
@fn packets::uci::AndroidGetPowerStatsCmd::decode_partial
@fn packets::uci::Packet for PowerStats::decode
@start
let ghost vx_b = buf; proof { reveal(crate::codec::encp_PowerStats); }
@fn packets::uci::AndroidGetPowerStatsRsp::decode_partial
@fn packets::uci::AndroidSetCountryCodeCmd::decode_partial
@loop 1
@inv country_code@.len() == $I && parent.payload@.len() >= 0 + 2 && buf@ == parent.payload@.subrange(0 + $I, parent.payload@.len() as int)
@inv country_code@ == parent.payload@.subrange(0, 0 + $I)
@fn packets::uci::AndroidSetCountryCodeRsp::decode_partial
@fn packets::uci::ControlPacket::specialize
@ens DET: r == crate::codec::spec_specialize_ControlPacket(*self)
@ens E01: (self.gid == GroupId::Core) ==> ((r is Ok) == crate::codec::val_CorePacket(self.payload@))
@ens E01: (self.gid == GroupId::Core) ==> (r matches Ok(c) ==> (c matches ControlPacketChild::CorePacket(x) && crate::codec::rel_CorePacket(self.payload@, x) && x.mt == self.mt))
@ens E01: (self.gid == GroupId::SessionConfig) ==> ((r is Ok) == crate::codec::val_SessionConfigPacket(self.payload@))
@ens E01: (self.gid == GroupId::SessionConfig) ==> (r matches Ok(c) ==> (c matches ControlPacketChild::SessionConfigPacket(x) && crate::codec::rel_SessionConfigPacket(self.payload@, x) && x.mt == self.mt))
@ens E01: (self.gid == GroupId::SessionControl) ==> ((r is Ok) == crate::codec::val_SessionControlPacket(self.payload@))
@ens E01: (self.gid == GroupId::SessionControl) ==> (r matches Ok(c) ==> (c matches ControlPacketChild::SessionControlPacket(x) && crate::codec::rel_SessionControlPacket(self.payload@, x) && x.mt == self.mt))
@ens E01: (self.gid == GroupId::VendorAndroid) ==> ((r is Ok) == crate::codec::val_AndroidPacket(self.payload@))
@ens E01: (self.gid == GroupId::VendorAndroid) ==> (r matches Ok(c) ==> (c matches ControlPacketChild::AndroidPacket(x) && crate::codec::rel_AndroidPacket(self.payload@, x) && x.mt == self.mt))
@ens E01: (!((self.gid == GroupId::Core) || (self.gid == GroupId::SessionConfig) || (self.gid == GroupId::SessionControl) || (self.gid == GroupId::VendorAndroid))) ==> (r matches Ok(c) && c is None)
@ens E01: (r matches Ok(c) && c is CorePacket) ==> (self.gid == GroupId::Core)
@ens E01: (r matches Ok(c) && c is SessionConfigPacket) ==> (self.gid == GroupId::SessionConfig)
@ens E01: (r matches Ok(c) && c is SessionControlPacket) ==> (self.gid == GroupId::SessionControl)
@ens E01: (r matches Ok(c) && c is AndroidPacket) ==> (self.gid == GroupId::VendorAndroid)
@fn packets::uci::DataPacket::specialize
@ens DET: r == crate::codec::spec_specialize_DataPacket(*self)
@ens E01: (self.dpf == DataPacketFormat::DataSnd && self.mt == MessageType::Data) ==> ((r is Ok) == crate::codec::val_DataMessageSnd(self.payload@))
@ens E01: (self.dpf == DataPacketFormat::DataSnd && self.mt == MessageType::Data) ==> (r matches Ok(c) ==> (c matches DataPacketChild::DataMessageSnd(x) && crate::codec::encp_DataMessageSnd(x) == self.payload@ && crate::codec::wf_DataMessageSnd(x) && x.pbf == self.pbf))
@ens E01: (self.dpf == DataPacketFormat::DataRcv && self.mt == MessageType::Data) ==> ((r is Ok) == crate::codec::val_DataMessageRcv(self.payload@))
@ens E01: (self.dpf == DataPacketFormat::DataRcv && self.mt == MessageType::Data) ==> (r matches Ok(c) ==> (c matches DataPacketChild::DataMessageRcv(x) && crate::codec::encp_DataMessageRcv(x) == self.payload@ && crate::codec::wf_DataMessageRcv(x) && x.pbf == self.pbf))
@ens E01: (!((self.dpf == DataPacketFormat::DataSnd && self.mt == MessageType::Data) || (self.dpf == DataPacketFormat::DataRcv && self.mt == MessageType::Data))) ==> (r matches Ok(c) && c is None)
@ens E01: (r matches Ok(c) && c is DataMessageSnd) ==> (self.dpf == DataPacketFormat::DataSnd && self.mt == MessageType::Data)
@ens E01: (r matches Ok(c) && c is DataMessageRcv) ==> (self.dpf == DataPacketFormat::DataRcv && self.mt == MessageType::Data)
@fn packets::uci::CorePacket::specialize
@ens DET: r == crate::codec::spec_specialize_CorePacket(*self)
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::DeviceReset) ==> ((r is Ok) == crate::codec::val_CoreDeviceResetCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::DeviceReset) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreDeviceResetCmd(x) && crate::codec::encp_CoreDeviceResetCmd(x) == self.payload@ && crate::codec::wf_CoreDeviceResetCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::DeviceReset) ==> ((r is Ok) == crate::codec::val_CoreDeviceResetRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::DeviceReset) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreDeviceResetRsp(x) && crate::codec::encp_CoreDeviceResetRsp(x) == self.payload@ && crate::codec::wf_CoreDeviceResetRsp(x)))
@ens E01: (self.mt == MessageType::Notification && self.oid == CoreOpcodeId::DeviceStatus) ==> ((r is Ok) == crate::codec::val_CoreDeviceStatusNtf(self.payload@))
@ens E01: (self.mt == MessageType::Notification && self.oid == CoreOpcodeId::DeviceStatus) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreDeviceStatusNtf(x) && crate::codec::encp_CoreDeviceStatusNtf(x) == self.payload@ && crate::codec::wf_CoreDeviceStatusNtf(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetDeviceInfo) ==> ((r is Ok) == crate::codec::val_CoreGetDeviceInfoCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetDeviceInfo) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreGetDeviceInfoCmd(x) && crate::codec::encp_CoreGetDeviceInfoCmd(x) == self.payload@ && crate::codec::wf_CoreGetDeviceInfoCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetDeviceInfo) ==> ((r is Ok) == crate::codec::val_CoreGetDeviceInfoRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetDeviceInfo) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreGetDeviceInfoRsp(x) && crate::codec::encp_CoreGetDeviceInfoRsp(x) == self.payload@ && crate::codec::wf_CoreGetDeviceInfoRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetCapsInfo) ==> ((r is Ok) == crate::codec::val_CoreGetCapsInfoCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetCapsInfo) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreGetCapsInfoCmd(x) && crate::codec::encp_CoreGetCapsInfoCmd(x) == self.payload@ && crate::codec::wf_CoreGetCapsInfoCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetCapsInfo) ==> ((r is Ok) == crate::codec::val_CoreGetCapsInfoRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetCapsInfo) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreGetCapsInfoRsp(x) && crate::codec::encp_CoreGetCapsInfoRsp(x) == self.payload@ && crate::codec::wf_CoreGetCapsInfoRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::SetConfig) ==> ((r is Ok) == crate::codec::val_CoreSetConfigCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::SetConfig) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreSetConfigCmd(x) && crate::codec::encp_CoreSetConfigCmd(x) == self.payload@ && crate::codec::wf_CoreSetConfigCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::SetConfig) ==> ((r is Ok) == crate::codec::val_CoreSetConfigRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::SetConfig) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreSetConfigRsp(x) && crate::codec::encp_CoreSetConfigRsp(x) == self.payload@ && crate::codec::wf_CoreSetConfigRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetConfig) ==> ((r is Ok) == crate::codec::val_CoreGetConfigCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetConfig) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreGetConfigCmd(x) && crate::codec::encp_CoreGetConfigCmd(x) == self.payload@ && crate::codec::wf_CoreGetConfigCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetConfig) ==> ((r is Ok) == crate::codec::val_CoreGetConfigRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetConfig) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreGetConfigRsp(x) && crate::codec::encp_CoreGetConfigRsp(x) == self.payload@ && crate::codec::wf_CoreGetConfigRsp(x)))
@ens E01: (self.mt == MessageType::Notification && self.oid == CoreOpcodeId::GenericError) ==> ((r is Ok) == crate::codec::val_CoreGenericErrorNtf(self.payload@))
@ens E01: (self.mt == MessageType::Notification && self.oid == CoreOpcodeId::GenericError) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreGenericErrorNtf(x) && crate::codec::encp_CoreGenericErrorNtf(x) == self.payload@ && crate::codec::wf_CoreGenericErrorNtf(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::QueryUwbsTimestamp) ==> ((r is Ok) == crate::codec::val_CoreQueryTimeStampCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == CoreOpcodeId::QueryUwbsTimestamp) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreQueryTimeStampCmd(x) && crate::codec::encp_CoreQueryTimeStampCmd(x) == self.payload@ && crate::codec::wf_CoreQueryTimeStampCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::QueryUwbsTimestamp) ==> ((r is Ok) == crate::codec::val_CoreQueryTimeStampRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == CoreOpcodeId::QueryUwbsTimestamp) ==> (r matches Ok(c) ==> (c matches CorePacketChild::CoreQueryTimeStampRsp(x) && crate::codec::encp_CoreQueryTimeStampRsp(x) == self.payload@ && crate::codec::wf_CoreQueryTimeStampRsp(x)))
@ens E01: (!((self.mt == MessageType::Command && self.oid == CoreOpcodeId::DeviceReset) || (self.mt == MessageType::Response && self.oid == CoreOpcodeId::DeviceReset) || (self.mt == MessageType::Notification && self.oid == CoreOpcodeId::DeviceStatus) || (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetDeviceInfo) || (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetDeviceInfo) || (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetCapsInfo) || (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetCapsInfo) || (self.mt == MessageType::Command && self.oid == CoreOpcodeId::SetConfig) || (self.mt == MessageType::Response && self.oid == CoreOpcodeId::SetConfig) || (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetConfig) || (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetConfig) || (self.mt == MessageType::Notification && self.oid == CoreOpcodeId::GenericError) || (self.mt == MessageType::Command && self.oid == CoreOpcodeId::QueryUwbsTimestamp) || (self.mt == MessageType::Response && self.oid == CoreOpcodeId::QueryUwbsTimestamp))) ==> (r matches Ok(c) && c is None)
@ens E01: (r matches Ok(c) && c is CoreDeviceResetCmd) ==> (self.mt == MessageType::Command && self.oid == CoreOpcodeId::DeviceReset)
@ens E01: (r matches Ok(c) && c is CoreDeviceResetRsp) ==> (self.mt == MessageType::Response && self.oid == CoreOpcodeId::DeviceReset)
@ens E01: (r matches Ok(c) && c is CoreDeviceStatusNtf) ==> (self.mt == MessageType::Notification && self.oid == CoreOpcodeId::DeviceStatus)
@ens E01: (r matches Ok(c) && c is CoreGetDeviceInfoCmd) ==> (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetDeviceInfo)
@ens E01: (r matches Ok(c) && c is CoreGetDeviceInfoRsp) ==> (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetDeviceInfo)
@ens E01: (r matches Ok(c) && c is CoreGetCapsInfoCmd) ==> (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetCapsInfo)
@ens E01: (r matches Ok(c) && c is CoreGetCapsInfoRsp) ==> (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetCapsInfo)
@ens E01: (r matches Ok(c) && c is CoreSetConfigCmd) ==> (self.mt == MessageType::Command && self.oid == CoreOpcodeId::SetConfig)
@ens E01: (r matches Ok(c) && c is CoreSetConfigRsp) ==> (self.mt == MessageType::Response && self.oid == CoreOpcodeId::SetConfig)
@ens E01: (r matches Ok(c) && c is CoreGetConfigCmd) ==> (self.mt == MessageType::Command && self.oid == CoreOpcodeId::GetConfig)
@ens E01: (r matches Ok(c) && c is CoreGetConfigRsp) ==> (self.mt == MessageType::Response && self.oid == CoreOpcodeId::GetConfig)
@ens E01: (r matches Ok(c) && c is CoreGenericErrorNtf) ==> (self.mt == MessageType::Notification && self.oid == CoreOpcodeId::GenericError)
@ens E01: (r matches Ok(c) && c is CoreQueryTimeStampCmd) ==> (self.mt == MessageType::Command && self.oid == CoreOpcodeId::QueryUwbsTimestamp)
@ens E01: (r matches Ok(c) && c is CoreQueryTimeStampRsp) ==> (self.mt == MessageType::Response && self.oid == CoreOpcodeId::QueryUwbsTimestamp)
@fn packets::uci::SessionConfigPacket::specialize
@ens DET: r == crate::codec::spec_specialize_SessionConfigPacket(*self)
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::Init) ==> ((r is Ok) == crate::codec::val_SessionInitCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::Init) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionInitCmd(x) && crate::codec::encp_SessionInitCmd(x) == self.payload@ && crate::codec::wf_SessionInitCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::Init) ==> ((r is Ok) == crate::codec::val_SessionInitRsp_V2(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::Init) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionInitRsp_V2(x) && crate::codec::encp_SessionInitRsp_V2(x) == self.payload@ && crate::codec::wf_SessionInitRsp_V2(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::Deinit) ==> ((r is Ok) == crate::codec::val_SessionDeinitCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::Deinit) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionDeinitCmd(x) && crate::codec::encp_SessionDeinitCmd(x) == self.payload@ && crate::codec::wf_SessionDeinitCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::Deinit) ==> ((r is Ok) == crate::codec::val_SessionDeinitRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::Deinit) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionDeinitRsp(x) && crate::codec::encp_SessionDeinitRsp(x) == self.payload@ && crate::codec::wf_SessionDeinitRsp(x)))
@ens E01: (self.mt == MessageType::Notification && self.oid == SessionConfigOpcodeId::Status) ==> ((r is Ok) == crate::codec::val_SessionStatusNtf(self.payload@))
@ens E01: (self.mt == MessageType::Notification && self.oid == SessionConfigOpcodeId::Status) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionStatusNtf(x) && crate::codec::encp_SessionStatusNtf(x) == self.payload@ && crate::codec::wf_SessionStatusNtf(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::SetAppConfig) ==> ((r is Ok) == crate::codec::val_SessionSetAppConfigCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::SetAppConfig) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionSetAppConfigCmd(x) && crate::codec::encp_SessionSetAppConfigCmd(x) == self.payload@ && crate::codec::wf_SessionSetAppConfigCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::SetAppConfig) ==> ((r is Ok) == crate::codec::val_SessionSetAppConfigRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::SetAppConfig) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionSetAppConfigRsp(x) && crate::codec::encp_SessionSetAppConfigRsp(x) == self.payload@ && crate::codec::wf_SessionSetAppConfigRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetAppConfig) ==> ((r is Ok) == crate::codec::val_SessionGetAppConfigCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetAppConfig) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionGetAppConfigCmd(x) && crate::codec::encp_SessionGetAppConfigCmd(x) == self.payload@ && crate::codec::wf_SessionGetAppConfigCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetAppConfig) ==> ((r is Ok) == crate::codec::val_SessionGetAppConfigRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetAppConfig) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionGetAppConfigRsp(x) && crate::codec::encp_SessionGetAppConfigRsp(x) == self.payload@ && crate::codec::wf_SessionGetAppConfigRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetCount) ==> ((r is Ok) == crate::codec::val_SessionGetCountCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetCount) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionGetCountCmd(x) && crate::codec::encp_SessionGetCountCmd(x) == self.payload@ && crate::codec::wf_SessionGetCountCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetCount) ==> ((r is Ok) == crate::codec::val_SessionGetCountRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetCount) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionGetCountRsp(x) && crate::codec::encp_SessionGetCountRsp(x) == self.payload@ && crate::codec::wf_SessionGetCountRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetState) ==> ((r is Ok) == crate::codec::val_SessionGetStateCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetState) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionGetStateCmd(x) && crate::codec::encp_SessionGetStateCmd(x) == self.payload@ && crate::codec::wf_SessionGetStateCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetState) ==> ((r is Ok) == crate::codec::val_SessionGetStateRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetState) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionGetStateRsp(x) && crate::codec::encp_SessionGetStateRsp(x) == self.payload@ && crate::codec::wf_SessionGetStateRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds) ==> ((r is Ok) == crate::codec::val_SessionUpdateDtAnchorRangingRoundsCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionUpdateDtAnchorRangingRoundsCmd(x) && crate::codec::encp_SessionUpdateDtAnchorRangingRoundsCmd(x) == self.payload@ && crate::codec::wf_SessionUpdateDtAnchorRangingRoundsCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds) ==> ((r is Ok) == crate::codec::val_SessionUpdateDtAnchorRangingRoundsRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionUpdateDtAnchorRangingRoundsRsp(x) && crate::codec::encp_SessionUpdateDtAnchorRangingRoundsRsp(x) == self.payload@ && crate::codec::wf_SessionUpdateDtAnchorRangingRoundsRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds) ==> ((r is Ok) == crate::codec::val_SessionUpdateDtTagRangingRoundsCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionUpdateDtTagRangingRoundsCmd(x) && crate::codec::encp_SessionUpdateDtTagRangingRoundsCmd(x) == self.payload@ && crate::codec::wf_SessionUpdateDtTagRangingRoundsCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds) ==> ((r is Ok) == crate::codec::val_SessionUpdateDtTagRangingRoundsRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionUpdateDtTagRangingRoundsRsp(x) && crate::codec::encp_SessionUpdateDtTagRangingRoundsRsp(x) == self.payload@ && crate::codec::wf_SessionUpdateDtTagRangingRoundsRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList) ==> ((r is Ok) == crate::codec::val_SessionUpdateControllerMulticastListCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionUpdateControllerMulticastListCmd(x) && crate::codec::encp_SessionUpdateControllerMulticastListCmd(x) == self.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList) ==> ((r is Ok) == crate::codec::val_SessionUpdateControllerMulticastListRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionUpdateControllerMulticastListRsp(x) && crate::codec::encp_SessionUpdateControllerMulticastListRsp(x) == self.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListRsp(x)))
@ens E01: (self.mt == MessageType::Notification && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList) ==> ((r is Ok) == crate::codec::val_SessionUpdateControllerMulticastListNtf(self.payload@))
@ens E01: (self.mt == MessageType::Notification && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionUpdateControllerMulticastListNtf(x) && crate::codec::encp_SessionUpdateControllerMulticastListNtf(x) == self.payload@ && crate::codec::wf_SessionUpdateControllerMulticastListNtf(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::QueryDataSizeInRanging) ==> ((r is Ok) == crate::codec::val_SessionQueryMaxDataSizeInRangingCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::QueryDataSizeInRanging) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionQueryMaxDataSizeInRangingCmd(x) && crate::codec::encp_SessionQueryMaxDataSizeInRangingCmd(x) == self.payload@ && crate::codec::wf_SessionQueryMaxDataSizeInRangingCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::QueryDataSizeInRanging) ==> ((r is Ok) == crate::codec::val_SessionQueryMaxDataSizeInRangingRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::QueryDataSizeInRanging) ==> (r matches Ok(c) ==> (c matches SessionConfigPacketChild::SessionQueryMaxDataSizeInRangingRsp(x) && crate::codec::encp_SessionQueryMaxDataSizeInRangingRsp(x) == self.payload@ && crate::codec::wf_SessionQueryMaxDataSizeInRangingRsp(x)))
@ens E01: (!((self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::Init) || (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::Init) || (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::Deinit) || (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::Deinit) || (self.mt == MessageType::Notification && self.oid == SessionConfigOpcodeId::Status) || (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::SetAppConfig) || (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::SetAppConfig) || (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetAppConfig) || (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetAppConfig) || (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetCount) || (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetCount) || (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetState) || (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetState) || (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds) || (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds) || (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds) || (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds) || (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList) || (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList) || (self.mt == MessageType::Notification && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList) || (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::QueryDataSizeInRanging) || (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::QueryDataSizeInRanging))) ==> (r matches Ok(c) && c is None)
@ens E01: (r matches Ok(c) && c is SessionInitCmd) ==> (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::Init)
@ens E01: (r matches Ok(c) && c is SessionInitRsp_V2) ==> (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::Init)
@ens E01: (r matches Ok(c) && c is SessionInitRsp) ==> (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::Init)
@ens E01: (r matches Ok(c) && c is SessionDeinitCmd) ==> (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::Deinit)
@ens E01: (r matches Ok(c) && c is SessionDeinitRsp) ==> (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::Deinit)
@ens E01: (r matches Ok(c) && c is SessionStatusNtf) ==> (self.mt == MessageType::Notification && self.oid == SessionConfigOpcodeId::Status)
@ens E01: (r matches Ok(c) && c is SessionSetAppConfigCmd) ==> (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::SetAppConfig)
@ens E01: (r matches Ok(c) && c is SessionSetAppConfigRsp) ==> (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::SetAppConfig)
@ens E01: (r matches Ok(c) && c is SessionGetAppConfigCmd) ==> (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetAppConfig)
@ens E01: (r matches Ok(c) && c is SessionGetAppConfigRsp) ==> (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetAppConfig)
@ens E01: (r matches Ok(c) && c is SessionGetCountCmd) ==> (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetCount)
@ens E01: (r matches Ok(c) && c is SessionGetCountRsp) ==> (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetCount)
@ens E01: (r matches Ok(c) && c is SessionGetStateCmd) ==> (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::GetState)
@ens E01: (r matches Ok(c) && c is SessionGetStateRsp) ==> (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::GetState)
@ens E01: (r matches Ok(c) && c is SessionUpdateDtAnchorRangingRoundsCmd) ==> (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds)
@ens E01: (r matches Ok(c) && c is SessionUpdateDtAnchorRangingRoundsRsp) ==> (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateDtAnchorRangingRounds)
@ens E01: (r matches Ok(c) && c is SessionUpdateDtTagRangingRoundsCmd) ==> (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds)
@ens E01: (r matches Ok(c) && c is SessionUpdateDtTagRangingRoundsRsp) ==> (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateDtTagRangingRounds)
@ens E01: (r matches Ok(c) && c is SessionUpdateControllerMulticastListCmd) ==> (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList)
@ens E01: (r matches Ok(c) && c is SessionUpdateControllerMulticastListRsp) ==> (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList)
@ens E01: (r matches Ok(c) && c is SessionUpdateControllerMulticastListNtf) ==> (self.mt == MessageType::Notification && self.oid == SessionConfigOpcodeId::UpdateControllerMulticastList)
@ens E01: (r matches Ok(c) && c is SessionQueryMaxDataSizeInRangingCmd) ==> (self.mt == MessageType::Command && self.oid == SessionConfigOpcodeId::QueryDataSizeInRanging)
@ens E01: (r matches Ok(c) && c is SessionQueryMaxDataSizeInRangingRsp) ==> (self.mt == MessageType::Response && self.oid == SessionConfigOpcodeId::QueryDataSizeInRanging)
@fn packets::uci::SessionControlPacket::specialize
@ens DET: r == crate::codec::spec_specialize_SessionControlPacket(*self)
@ens E01: (self.mt == MessageType::Notification && self.oid == SessionControlOpcodeId::DataCredit) ==> ((r is Ok) == crate::codec::val_SessionDataCreditNtf(self.payload@))
@ens E01: (self.mt == MessageType::Notification && self.oid == SessionControlOpcodeId::DataCredit) ==> (r matches Ok(c) ==> (c matches SessionControlPacketChild::SessionDataCreditNtf(x) && crate::codec::encp_SessionDataCreditNtf(x) == self.payload@ && crate::codec::wf_SessionDataCreditNtf(x)))
@ens E01: (self.mt == MessageType::Notification && self.oid == SessionControlOpcodeId::DataTransferStatus) ==> ((r is Ok) == crate::codec::val_SessionDataTransferStatusNtf(self.payload@))
@ens E01: (self.mt == MessageType::Notification && self.oid == SessionControlOpcodeId::DataTransferStatus) ==> (r matches Ok(c) ==> (c matches SessionControlPacketChild::SessionDataTransferStatusNtf(x) && crate::codec::encp_SessionDataTransferStatusNtf(x) == self.payload@ && crate::codec::wf_SessionDataTransferStatusNtf(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::Start) ==> ((r is Ok) == crate::codec::val_SessionStartCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::Start) ==> (r matches Ok(c) ==> (c matches SessionControlPacketChild::SessionStartCmd(x) && crate::codec::encp_SessionStartCmd(x) == self.payload@ && crate::codec::wf_SessionStartCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::Start) ==> ((r is Ok) == crate::codec::val_SessionStartRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::Start) ==> (r matches Ok(c) ==> (c matches SessionControlPacketChild::SessionStartRsp(x) && crate::codec::encp_SessionStartRsp(x) == self.payload@ && crate::codec::wf_SessionStartRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::Stop) ==> ((r is Ok) == crate::codec::val_SessionStopCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::Stop) ==> (r matches Ok(c) ==> (c matches SessionControlPacketChild::SessionStopCmd(x) && crate::codec::encp_SessionStopCmd(x) == self.payload@ && crate::codec::wf_SessionStopCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::Stop) ==> ((r is Ok) == crate::codec::val_SessionStopRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::Stop) ==> (r matches Ok(c) ==> (c matches SessionControlPacketChild::SessionStopRsp(x) && crate::codec::encp_SessionStopRsp(x) == self.payload@ && crate::codec::wf_SessionStopRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::GetRangingCount) ==> ((r is Ok) == crate::codec::val_SessionGetRangingCountCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::GetRangingCount) ==> (r matches Ok(c) ==> (c matches SessionControlPacketChild::SessionGetRangingCountCmd(x) && crate::codec::encp_SessionGetRangingCountCmd(x) == self.payload@ && crate::codec::wf_SessionGetRangingCountCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::GetRangingCount) ==> ((r is Ok) == crate::codec::val_SessionGetRangingCountRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::GetRangingCount) ==> (r matches Ok(c) ==> (c matches SessionControlPacketChild::SessionGetRangingCountRsp(x) && crate::codec::encp_SessionGetRangingCountRsp(x) == self.payload@ && crate::codec::wf_SessionGetRangingCountRsp(x)))
@ens E01: (!((self.mt == MessageType::Notification && self.oid == SessionControlOpcodeId::DataCredit) || (self.mt == MessageType::Notification && self.oid == SessionControlOpcodeId::DataTransferStatus) || (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::Start) || (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::Start) || (self.mt == MessageType::Notification && self.oid == SessionControlOpcodeId::Start) || (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::Stop) || (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::Stop) || (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::GetRangingCount) || (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::GetRangingCount))) ==> (r matches Ok(c) && c is None)
@ens E01: (r matches Ok(c) && c is SessionDataCreditNtf) ==> (self.mt == MessageType::Notification && self.oid == SessionControlOpcodeId::DataCredit)
@ens E01: (r matches Ok(c) && c is SessionDataTransferStatusNtf) ==> (self.mt == MessageType::Notification && self.oid == SessionControlOpcodeId::DataTransferStatus)
@ens E01: (r matches Ok(c) && c is SessionStartCmd) ==> (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::Start)
@ens E01: (r matches Ok(c) && c is SessionStartRsp) ==> (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::Start)
@ens E01: (r matches Ok(c) && c is SessionInfoNtf) ==> (self.mt == MessageType::Notification && self.oid == SessionControlOpcodeId::Start)
@ens E01: (r matches Ok(c) && c is SessionStopCmd) ==> (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::Stop)
@ens E01: (r matches Ok(c) && c is SessionStopRsp) ==> (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::Stop)
@ens E01: (r matches Ok(c) && c is SessionGetRangingCountCmd) ==> (self.mt == MessageType::Command && self.oid == SessionControlOpcodeId::GetRangingCount)
@ens E01: (r matches Ok(c) && c is SessionGetRangingCountRsp) ==> (self.mt == MessageType::Response && self.oid == SessionControlOpcodeId::GetRangingCount)
@fn packets::uci::AndroidPacket::specialize
@ens DET: r == crate::codec::spec_specialize_AndroidPacket(*self)
@ens E01: (self.mt == MessageType::Command && self.oid == AndroidOpcodeId::GetPowerStats) ==> ((r is Ok) == crate::codec::val_AndroidGetPowerStatsCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == AndroidOpcodeId::GetPowerStats) ==> (r matches Ok(c) ==> (c matches AndroidPacketChild::AndroidGetPowerStatsCmd(x) && crate::codec::encp_AndroidGetPowerStatsCmd(x) == self.payload@ && crate::codec::wf_AndroidGetPowerStatsCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == AndroidOpcodeId::GetPowerStats) ==> ((r is Ok) == crate::codec::val_AndroidGetPowerStatsRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == AndroidOpcodeId::GetPowerStats) ==> (r matches Ok(c) ==> (c matches AndroidPacketChild::AndroidGetPowerStatsRsp(x) && crate::codec::encp_AndroidGetPowerStatsRsp(x) == self.payload@ && crate::codec::wf_AndroidGetPowerStatsRsp(x)))
@ens E01: (self.mt == MessageType::Command && self.oid == AndroidOpcodeId::SetCountryCode) ==> ((r is Ok) == crate::codec::val_AndroidSetCountryCodeCmd(self.payload@))
@ens E01: (self.mt == MessageType::Command && self.oid == AndroidOpcodeId::SetCountryCode) ==> (r matches Ok(c) ==> (c matches AndroidPacketChild::AndroidSetCountryCodeCmd(x) && crate::codec::encp_AndroidSetCountryCodeCmd(x) == self.payload@ && crate::codec::wf_AndroidSetCountryCodeCmd(x)))
@ens E01: (self.mt == MessageType::Response && self.oid == AndroidOpcodeId::SetCountryCode) ==> ((r is Ok) == crate::codec::val_AndroidSetCountryCodeRsp(self.payload@))
@ens E01: (self.mt == MessageType::Response && self.oid == AndroidOpcodeId::SetCountryCode) ==> (r matches Ok(c) ==> (c matches AndroidPacketChild::AndroidSetCountryCodeRsp(x) && crate::codec::encp_AndroidSetCountryCodeRsp(x) == self.payload@ && crate::codec::wf_AndroidSetCountryCodeRsp(x)))
@ens E01: (!((self.mt == MessageType::Command && self.oid == AndroidOpcodeId::GetPowerStats) || (self.mt == MessageType::Response && self.oid == AndroidOpcodeId::GetPowerStats) || (self.mt == MessageType::Command && self.oid == AndroidOpcodeId::SetCountryCode) || (self.mt == MessageType::Response && self.oid == AndroidOpcodeId::SetCountryCode) || (self.mt == MessageType::Notification && self.oid == AndroidOpcodeId::FiraRangeDiagnostics))) ==> (r matches Ok(c) && c is None)
@ens E01: (r matches Ok(c) && c is AndroidGetPowerStatsCmd) ==> (self.mt == MessageType::Command && self.oid == AndroidOpcodeId::GetPowerStats)
@ens E01: (r matches Ok(c) && c is AndroidGetPowerStatsRsp) ==> (self.mt == MessageType::Response && self.oid == AndroidOpcodeId::GetPowerStats)
@ens E01: (r matches Ok(c) && c is AndroidSetCountryCodeCmd) ==> (self.mt == MessageType::Command && self.oid == AndroidOpcodeId::SetCountryCode)
@ens E01: (r matches Ok(c) && c is AndroidSetCountryCodeRsp) ==> (self.mt == MessageType::Response && self.oid == AndroidOpcodeId::SetCountryCode)
@ens E01: (r matches Ok(c) && c is AndroidRangeDiagnosticsNtf) ==> (self.mt == MessageType::Notification && self.oid == AndroidOpcodeId::FiraRangeDiagnostics)
@trust packets::uci::ExtendedAddressTwoWayRangingMeasurement::*
@trust packets::uci::* for ExtendedAddressTwoWayRangingMeasurement::*
@trust packets::uci::*ExtendedAddressTwoWayRangingMeasurement> for *
@trust packets::uci::ShortAddressOwrAoaRangingMeasurement::*
@trust packets::uci::* for ShortAddressOwrAoaRangingMeasurement::*
@trust packets::uci::*ShortAddressOwrAoaRangingMeasurement> for *
@trust packets::uci::ExtendedAddressOwrAoaRangingMeasurement::*
@trust packets::uci::* for ExtendedAddressOwrAoaRangingMeasurement::*
@trust packets::uci::*ExtendedAddressOwrAoaRangingMeasurement> for *
@trust packets::uci::Wgs84Location::*
@trust packets::uci::* for Wgs84Location::*
@trust packets::uci::*Wgs84Location> for *
@trust packets::uci::RelativeLocation::*
@trust packets::uci::* for RelativeLocation::*
@trust packets::uci::*RelativeLocation> for *
@trust packets::uci::DlTdoaRangingMeasurement::*
@trust packets::uci::* for DlTdoaRangingMeasurement::*
@trust packets::uci::*DlTdoaRangingMeasurement> for *
@trust packets::uci::ShortAddressDlTdoaRangingMeasurement::*
@trust packets::uci::* for ShortAddressDlTdoaRangingMeasurement::*
@trust packets::uci::*ShortAddressDlTdoaRangingMeasurement> for *
@trust packets::uci::ExtendedAddressDlTdoaRangingMeasurement::*
@trust packets::uci::* for ExtendedAddressDlTdoaRangingMeasurement::*
@trust packets::uci::*ExtendedAddressDlTdoaRangingMeasurement> for *
@trust packets::uci::ExtendedMacTwoWaySessionInfoNtf::*
@trust packets::uci::* for ExtendedMacTwoWaySessionInfoNtf::*
@trust packets::uci::*ExtendedMacTwoWaySessionInfoNtf> for *
@trust packets::uci::ShortMacDlTDoASessionInfoNtf::*
@trust packets::uci::* for ShortMacDlTDoASessionInfoNtf::*
@trust packets::uci::*ShortMacDlTDoASessionInfoNtf> for *
@trust packets::uci::ExtendedMacDlTDoASessionInfoNtf::*
@trust packets::uci::* for ExtendedMacDlTDoASessionInfoNtf::*
@trust packets::uci::*ExtendedMacDlTDoASessionInfoNtf> for *
@trust packets::uci::ShortMacOwrAoaSessionInfoNtf::*
@trust packets::uci::* for ShortMacOwrAoaSessionInfoNtf::*
@trust packets::uci::*ShortMacOwrAoaSessionInfoNtf> for *
@trust packets::uci::ExtendedMacOwrAoaSessionInfoNtf::*
@trust packets::uci::* for ExtendedMacOwrAoaSessionInfoNtf::*
@trust packets::uci::*ExtendedMacOwrAoaSessionInfoNtf> for *
@trust packets::uci::FrameReportTlv::*
@trust packets::uci::* for FrameReportTlv::*
@trust packets::uci::*FrameReportTlv> for *
@trust packets::uci::FrameReportTlvPacket::*
@trust packets::uci::* for FrameReportTlvPacket::*
@trust packets::uci::*FrameReportTlvPacket> for *
@trust packets::uci::Rssi::*
@trust packets::uci::* for Rssi::*
@trust packets::uci::*Rssi> for *
@trust packets::uci::AoaMeasurement::*
@trust packets::uci::* for AoaMeasurement::*
@trust packets::uci::*AoaMeasurement> for *
@trust packets::uci::Aoa::*
@trust packets::uci::* for Aoa::*
@trust packets::uci::*Aoa> for *
@trust packets::uci::CirValue::*
@trust packets::uci::* for CirValue::*
@trust packets::uci::*CirValue> for *
@trust packets::uci::Cir::*
@trust packets::uci::* for Cir::*
@trust packets::uci::*Cir> for *
@trust packets::uci::FrameReport::*
@trust packets::uci::* for FrameReport::*
@trust packets::uci::*FrameReport> for *
@trust packets::uci::AndroidRangeDiagnosticsNtf::*
@trust packets::uci::* for AndroidRangeDiagnosticsNtf::*
@trust packets::uci::*AndroidRangeDiagnosticsNtf> for *
