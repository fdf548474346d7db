From 2cb2916d83ef97d95eace5849fc9f698da90c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 01/17] fix: keep the existing session when SESSION_INIT uses a
 duplicate id

---
 src/device.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 9e8b915..cc50267 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -358,18 +358,16 @@ impl Device {
 
         let status = if self.sessions.len() >= MAX_SESSION {
             uci::Status::ErrorMaxSessionsExceeded
+        } else if self.sessions.contains_key(&session_id) {
+            uci::Status::ErrorSessionDuplicate
         } else {
-            match self.sessions.insert(
+            self.sessions.insert(
                 session_id,
                 Session::new(session_id, session_type, self.handle, self.tx.clone()),
-            ) {
-                Some(_) => uci::Status::ErrorSessionDuplicate,
-                None => {
-                    // Should not fail
-                    self.session_mut(session_id).unwrap().init();
-                    uci::Status::Ok
-                }
-            }
+            );
+            // Should not fail
+            self.session_mut(session_id).unwrap().init();
+            uci::Status::Ok
         };
 
         SessionInitRsp { status }
-- 
2.43.0


From f2bc687eff05b8404e0a6b1864286549a139d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 02/17] fix: stop the ranging of an active session whose
 multicast list becomes empty

---
 src/device.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index cc50267..33c834f 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -783,10 +783,18 @@ impl Device {
         // SESSION_STATE_IDLE by sending the SESSION_STATUS_NTF with Reason Code
         // set to ERROR_INVALID_NUM_OF_CONTROLEES.
         if session.app_config.dst_mac_address.is_empty() {
+            let was_active = session.state == SessionState::SessionStateActive;
+            session.stop_ranging_task();
             session.set_state(
                 SessionState::SessionStateIdle,
                 ReasonCode::ErrorInvalidNumOfControlees,
-            )
+            );
+            if was_active {
+                self.n_active_sessions -= 1;
+                if self.n_active_sessions == 0 {
+                    self.set_state(DeviceState::DeviceStateReady);
+                }
+            }
         }
         SessionUpdateControllerMulticastListRsp {
             status,
-- 
2.43.0


From 40373e7d119491e7d96eefa7703ed1745aa1d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 03/17] fix: refuse to add controlees to a list that is already
 above the maximum

---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 33c834f..eff4c3e 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -686,7 +686,7 @@ impl Device {
                         });
                     } else {
                         if !dst_addresses.contains(&controlee.short_address) {
-                            if dst_addresses.len() == MAX_NUMBER_OF_CONTROLEES {
+                            if dst_addresses.len() >= MAX_NUMBER_OF_CONTROLEES {
                                 status = uci::Status::ErrorMulticastListFull;
                                 update_status = MulticastUpdateStatus::ErrorMulticastListFull;
                             } else {
-- 
2.43.0


From 7863ff94eecf235a42c00952d5899beaff5cf976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:55 +0000
Subject: [PATCH 04/17] fix: answer unsupported and malformed commands with
 STATUS_UNKNOWN_OID

---
 src/device.rs | 70 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index eff4c3e..b9a7e64 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -996,21 +996,40 @@ impl Device {
             .unwrap();
         }
 
-        match cmd
-            .specialize()
-            .expect("Failed to parse Control packet child")
-        {
-            CorePacket(cmd) => match cmd.specialize().expect("Failed to parse Core packet child") {
+        // [UCI] 4.3.2 Exception Handling for Control Messages
+        // Response for commands with an unknown OID. Malformed commands get
+        // the same status code, instead of STATUS_SYNTAX_ERROR.
+        let unknown_oid_rsp = ControlPacket {
+            mt: uci::MessageType::Response,
+            gid: cmd.gid,
+            payload: vec![
+                cmd.payload[0] & 0x3f,
+                0,
+                0x1,
+                uci::Status::UnknownOid.into(),
+            ],
+        };
+
+        let Ok(packet) = cmd.specialize() else {
+            log::error!("Failed to parse Control packet child");
+            return unknown_oid_rsp;
+        };
+
+        match packet {
+            CorePacket(cmd) => match cmd.specialize().unwrap_or(CorePacketChild::None) {
                 CoreDeviceResetCmd(cmd) => self.core_device_reset(cmd).try_into().unwrap(),
                 CoreGetDeviceInfoCmd(cmd) => self.core_get_device_info(cmd).try_into().unwrap(),
                 CoreGetCapsInfoCmd(cmd) => self.core_get_caps_info(cmd).try_into().unwrap(),
                 CoreSetConfigCmd(cmd) => self.core_set_config(cmd).try_into().unwrap(),
                 CoreGetConfigCmd(cmd) => self.core_get_config(cmd).try_into().unwrap(),
-                _ => unimplemented!("Unsupported Core oid {:?}", cmd.oid),
+                _ => {
+                    log::error!("Unsupported Core oid {:?}", cmd.oid);
+                    unknown_oid_rsp
+                }
             },
             SessionConfigPacket(cmd) => match cmd
                 .specialize()
-                .expect("Failed to parse Session Config packet child")
+                .unwrap_or(SessionConfigPacketChild::None)
             {
                 SessionInitCmd(cmd) => self.session_init(cmd).try_into().unwrap(),
                 SessionDeinitCmd(cmd) => self.session_deinit(cmd).try_into().unwrap(),
@@ -1022,30 +1041,35 @@ impl Device {
                     .session_update_controller_multicast_list(cmd)
                     .try_into()
                     .unwrap(),
-                _ => unimplemented!("Unsupported Session Config oid {:?}", cmd.oid),
-            },
-            SessionControlPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Session Control packet child")
-            {
-                SessionStartCmd(cmd) => self.session_start(cmd).try_into().unwrap(),
-                SessionStopCmd(cmd) => self.session_stop(cmd).try_into().unwrap(),
-                SessionGetRangingCountCmd(cmd) => {
-                    self.session_get_ranging_count(cmd).try_into().unwrap()
+                _ => {
+                    log::error!("Unsupported Session Config oid {:?}", cmd.oid);
+                    unknown_oid_rsp
                 }
-                _ => unimplemented!("Unsupported Session Control oid {:?}", cmd.oid),
             },
-            AndroidPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Android packet child")
-            {
+            SessionControlPacket(cmd) => {
+                match cmd.specialize().unwrap_or(SessionControlPacketChild::None) {
+                    SessionStartCmd(cmd) => self.session_start(cmd).try_into().unwrap(),
+                    SessionStopCmd(cmd) => self.session_stop(cmd).try_into().unwrap(),
+                    SessionGetRangingCountCmd(cmd) => {
+                        self.session_get_ranging_count(cmd).try_into().unwrap()
+                    }
+                    _ => {
+                        log::error!("Unsupported Session Control oid {:?}", cmd.oid);
+                        unknown_oid_rsp
+                    }
+                }
+            }
+            AndroidPacket(cmd) => match cmd.specialize().unwrap_or(AndroidPacketChild::None) {
                 AndroidSetCountryCodeCmd(cmd) => {
                     self.android_set_country_code(cmd).try_into().unwrap()
                 }
                 AndroidGetPowerStatsCmd(cmd) => {
                     self.android_get_power_stats(cmd).try_into().unwrap()
                 }
-                _ => unimplemented!("Unsupported Android oid {:?}", cmd.oid),
+                _ => {
+                    log::error!("Unsupported Android oid {:?}", cmd.oid);
+                    unknown_oid_rsp
+                }
             },
             ControlPacketChild::None
                 if matches!(
-- 
2.43.0


From d644484c4aa1b4cdb823b3a61ee3a8a630aa10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:55 +0000
Subject: [PATCH 05/17] fix: reject packets shorter than the UCI packet header

---
 src/device.rs | 4 ++++
 src/lib.rs    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/device.rs b/src/device.rs
index b9a7e64..cf323de 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -1102,6 +1102,10 @@ impl Device {
     }
 
     pub fn receive_packet(&mut self, packet: Vec<u8>) {
+        if packet.len() < HEADER_SIZE {
+            log::error!("received truncated packet of {} bytes", packet.len());
+            return;
+        }
         let mt = parse_message_type(packet[0]);
         match mt {
             MessageType::Data => match DataPacket::decode_full(&packet) {
diff --git a/src/lib.rs b/src/lib.rs
index 560f28d..63eef77 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,6 +252,9 @@ impl Pica {
                     .next()
                     .await
                     .ok_or(anyhow::anyhow!("input packet stream closed"))?;
+                if packet.len() < HEADER_SIZE {
+                    anyhow::bail!("truncated packet of {} bytes", packet.len());
+                }
                 let header =
                     packets::uci::CommonPacketHeader::decode_full(&packet[0..COMMON_HEADER_SIZE])?;
 
-- 
2.43.0


From ef9c0a9fdfd4cb04ec5df19055ff1b962502ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:56 +0000
Subject: [PATCH 06/17] fix: report MAC address mode 1 as invalid instead of
 panicking

---
 src/app_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app_config.rs b/src/app_config.rs
index 40ac595..8dcd058 100644
--- a/src/app_config.rs
+++ b/src/app_config.rs
@@ -199,14 +199,14 @@ impl AppConfig {
             uci::AppConfigTlvType::DeviceMacAddress => {
                 self.device_mac_address = Some(match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into()?),
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => anyhow::bail!("unsupported mac address mode"),
                     uci::MacAddressMode::Mode2 => MacAddress::Extended(value.try_into()?),
                 })
             }
             uci::AppConfigTlvType::DstMacAddress => {
                 let mac_address_size = match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => 2,
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => anyhow::bail!("unsupported mac address mode"),
                     uci::MacAddressMode::Mode2 => 8,
                 };
                 if value.len() != self.number_of_controlees as usize * mac_address_size {
-- 
2.43.0


From 43069b1b7b5e712a965298e67c2cda5a9edbdc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:56 +0000
Subject: [PATCH 07/17] fix: reject SESSION_SET_APP_CONFIG for unsupported
 session types

---
 src/device.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index cf323de..50a42eb 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -419,10 +419,14 @@ impl Device {
             };
         };
 
-        assert!(
-            session.session_type == SessionType::FiraRangingSession
-                || session.session_type == SessionType::FiraRangingAndInBandDataSession
-        );
+        if session.session_type != SessionType::FiraRangingSession
+            && session.session_type != SessionType::FiraRangingAndInBandDataSession
+        {
+            return SessionSetAppConfigRsp {
+                cfg_status: Vec::new(),
+                status: uci::Status::Rejected,
+            };
+        }
 
         if session.state == SessionState::SessionStateActive {
             const IMMUTABLE_PARAMETERS: &[AppConfigTlvType] = &[AppConfigTlvType::AoaResultReq];
-- 
2.43.0


From 4396cb0838127378570f9a7c1e562988de36803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:56 +0000
Subject: [PATCH 08/17] fix: do not panic on CORE_GET_DEVICE_INFO and
 CORE_SET_CONFIG while active

---
 src/device.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 50a42eb..4fe74ec 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -235,9 +235,7 @@ impl Device {
     }
 
     fn core_get_device_info(&self, _cmd: CoreGetDeviceInfoCmd) -> CoreGetDeviceInfoRsp {
-        // TODO: Implement a fancy build time state machine instead of crash at runtime
         log::debug!("[{}] GetDeviceInfo", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady);
         CoreGetDeviceInfoRsp {
             status: uci::Status::Ok,
             uci_version: UCI_VERSION,
@@ -267,7 +265,13 @@ impl Device {
 
     pub fn core_set_config(&mut self, cmd: CoreSetConfigCmd) -> CoreSetConfigRsp {
         log::debug!("[{}] SetConfig", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady); // UCI 6.3
+        // UCI 6.3
+        if self.state != DeviceState::DeviceStateReady {
+            return CoreSetConfigRsp {
+                status: uci::Status::Rejected,
+                parameters: vec![],
+            };
+        }
 
         // [UCI] 6.3.1 Setting the Configuration
         // The UWBS shall respond with CORE_SET_CONFIG_RSP setting the Status
-- 
2.43.0


From 981e068efc6f179b72cf457b6d17dad0946e5078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:16 +0000
Subject: [PATCH 09/17] fix: skip measurements to extended addresses instead of
 panicking

---
 src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63eef77..0105cb6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -160,9 +160,9 @@ fn make_measurement(
     mac_address: &MacAddress,
     local: RangingMeasurement,
     remote: RangingMeasurement,
-) -> ShortAddressTwoWayRangingMeasurement {
+) -> Option<ShortAddressTwoWayRangingMeasurement> {
     if let MacAddress::Short(address) = mac_address {
-        ShortAddressTwoWayRangingMeasurement {
+        Some(ShortAddressTwoWayRangingMeasurement {
             mac_address: u16::from_le_bytes(*address),
             status: uci::Status::Ok,
             nlos: 0, // in Line Of Sight
@@ -177,9 +177,10 @@ fn make_measurement(
             aoa_destination_elevation_fom: 100,
             slot_index: 0,
             rssi: u8::MAX,
-        }
+        })
     } else {
-        panic!("Extended address is not supported.")
+        log::error!("Extended address is not supported.");
+        None
     }
 }
 
@@ -431,7 +432,9 @@ impl Pica {
                 else {
                     continue;
                 };
-                measurements.push(make_measurement(mac_address, local, remote));
+                if let Some(measurement) = make_measurement(mac_address, local, remote) {
+                    measurements.push(measurement);
+                }
             }
         }
 
@@ -460,7 +463,9 @@ impl Pica {
                 else {
                     continue;
                 };
-                measurements.push(make_measurement(&peer_mac_address, local, remote));
+                if let Some(measurement) = make_measurement(&peer_mac_address, local, remote) {
+                    measurements.push(measurement);
+                }
             }
 
             if device.can_start_data_transfer(session_id)
-- 
2.43.0


From 04d5acec882b30700cf1c3bc0dea1ed3ebe192ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:17 +0000
Subject: [PATCH 10/17] fix: ignore stale ranging events

---
 src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0105cb6..851688a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -411,8 +411,20 @@ impl Pica {
         log::debug!("[{}] Ranging event", device_handle);
         log::debug!("  session_id={}", session_id);
 
-        let device = self.get_device(device_handle).unwrap();
-        let session = device.session(session_id).unwrap();
+        // The ranging command may have been queued before the session was
+        // stopped or removed, or before the device was disconnected.
+        let Some(device) = self.get_device(device_handle) else {
+            log::warn!("[{}] Ranging event for unknown device", device_handle);
+            return;
+        };
+        let Some(session) = device.session(session_id) else {
+            log::warn!("[{}] Ranging event for unknown session", device_handle);
+            return;
+        };
+        if session.session_state() != SessionState::SessionStateActive {
+            log::warn!("[{}] Ranging event for inactive session", device_handle);
+            return;
+        }
 
         let mut data_transfer = Vec::new();
         let mut measurements = Vec::new();
-- 
2.43.0


From 789e6a2ed79186c4de9f8ba7378a3a0158d14bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:54 +0000
Subject: [PATCH 11/17] fix: do not panic when ranging with a closing
 connection

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 851688a..cdfa8f7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -504,7 +504,7 @@ impl Pica {
                     .encode_to_vec()
                     .unwrap(),
                 )
-                .unwrap();
+                .unwrap_or_else(|_| log::warn!("connection closed while ranging"));
         }
         if session.is_session_info_ntf_enabled() {
             device
@@ -522,7 +522,7 @@ impl Pica {
                     .encode_to_vec()
                     .unwrap(),
                 )
-                .unwrap();
+                .unwrap_or_else(|_| log::warn!("connection closed while ranging"));
 
             let device = self.get_device_mut(device_handle).unwrap();
             let session = device.session_mut(session_id).unwrap();
-- 
2.43.0


From fd9620a48db9dce8cfc3661595d2b6f0909935b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:54 +0000
Subject: [PATCH 12/17] fix: do not panic when more than 255 measurements are
 available

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index cdfa8f7..7591226 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -487,6 +487,9 @@ impl Pica {
             }
         }
 
+        // The notification cannot hold more than 255 measurements.
+        measurements.truncate(u8::MAX as usize);
+
         // TODO: Data transfer should be limited in size for
         // each round of ranging
         for peer_device in data_transfer.iter() {
-- 
2.43.0


From efa8faec0958162288dce4365f392871f205c700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:54 +0000
Subject: [PATCH 13/17] fix: refuse data that does not fit in one data message

---
 src/session.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 656ad99..e68c2e8 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -149,6 +149,19 @@ impl Session {
 
         assert_eq!(self.id, session_token);
 
+        // All the data queued until the next ranging round is sent
+        // in one data message.
+        if self.data.len() + data.application_data.len() > u16::MAX as usize {
+            return SessionDataTransferStatusNtf {
+                session_token,
+                status: DataTransferNtfStatusCode::UciDataTransferStatusErrorNoCreditAvailable,
+                tx_count: 1, // TODO: support for retries?
+                uci_sequence_number,
+            }
+            .try_into()
+            .unwrap();
+        }
+
         self.data.extend_from_slice(&data.application_data);
 
         SessionDataCreditNtf {
-- 
2.43.0


From 51e7e6f98f495770f7842457155477b337d56a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:54 +0000
Subject: [PATCH 14/17] fix: do not give a new device a MAC address that is
 already in use

---
 src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7591226..5852bd7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -348,17 +348,26 @@ impl Pica {
     }
 
     pub fn add_device(&mut self, stream: UciStream, sink: UciSink) -> Result<Handle> {
+        if self.devices.len() + self.anchors.len() > u16::MAX as usize {
+            anyhow::bail!("no available MAC address");
+        }
+
         let (packet_tx, packet_rx) = mpsc::unbounded_channel();
         let pica_tx = self.command_tx.clone();
         let disconnect_tx = self.command_tx.clone();
         let pcapng_dir = self.pcapng_dir.clone();
 
-        let handle = self.counter;
-        self.counter += 1;
+        let mut handle = self.counter;
+        let mut mac_address = MacAddress::Short((handle as u16).to_be_bytes());
+        while self.get_category(&mac_address).is_some() {
+            // The default address is used by an anchor or another device.
+            handle += 1;
+            mac_address = MacAddress::Short((handle as u16).to_be_bytes());
+        }
+        self.counter = handle + 1;
 
         log::debug!("[{}] Connecting device", handle);
 
-        let mac_address = MacAddress::Short((handle as u16).to_be_bytes());
         let mut device = Device::new(handle, mac_address, packet_tx, self.command_tx.clone());
         device.init();
 
-- 
2.43.0


From 4c9debef3b92def3ed3f0edb9e3d9d83a649f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 15/17] fix: drop malformed data messages instead of panicking

---
 src/device.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 4fe74ec..bffb0ee 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -947,12 +947,9 @@ impl Device {
         }
     }
 
-    pub fn data_message_snd(&mut self, data: DataPacket) -> ControlPacket {
+    pub fn data_message_snd(&mut self, data: DataPacketChild) -> ControlPacket {
         log::debug!("[{}] data_message_send", self.handle);
-        match data
-            .specialize()
-            .expect("failed to parse Data packet child")
-        {
+        match data {
             DataPacketChild::DataMessageSnd(data_msg_snd) => {
                 let session_token = data_msg_snd.session_handle;
                 if let Some(session) = self.session_mut(session_token) {
@@ -1116,13 +1113,15 @@ impl Device {
         }
         let mt = parse_message_type(packet[0]);
         match mt {
-            MessageType::Data => match DataPacket::decode_full(&packet) {
-                Ok(packet) => {
-                    let notification = self.data_message_snd(packet);
-                    self.send_control(notification)
+            MessageType::Data => {
+                match DataPacket::decode_full(&packet).and_then(|packet| packet.specialize()) {
+                    Ok(packet) => {
+                        let notification = self.data_message_snd(packet);
+                        self.send_control(notification)
+                    }
+                    Err(err) => log::error!("failed to parse incoming Data packet: {}", err),
                 }
-                Err(err) => log::error!("failed to parse incoming Data packet: {}", err),
-            },
+            }
             MessageType::Command => {
                 match ControlPacket::decode_full(&packet) {
                     // Parsing error. Determine what error response should be
-- 
2.43.0


From c8e4d889b5247d18120e3ef775294034bcd1a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 16/17] fix: report the actual device state in CORE_GET_CONFIG

---
 src/device.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index bffb0ee..1984d9d 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -79,7 +79,6 @@ pub const DEFAULT_CAPS_INFO: &[(CapTlvType, &[u8])] = &[
 
 /// [UCI] 8.2 Device Configuration Parameters
 pub struct DeviceConfig {
-    device_state: DeviceState,
     // This config is used to enable/disable the low power mode.
     //   0x00 = Disable low power mode
     //   0x01 = Enable low power mode (default)
@@ -92,7 +91,6 @@ pub struct DeviceConfig {
 impl Default for DeviceConfig {
     fn default() -> Self {
         DeviceConfig {
-            device_state: DeviceState::DeviceStateError,
             low_power_mode: true,
         }
     }
@@ -327,7 +325,7 @@ impl Device {
             match id {
                 ConfigParameterId::DeviceState => valid_parameters.push(ConfigParameter {
                     id,
-                    value: vec![self.config.device_state.into()],
+                    value: vec![self.state.into()],
                 }),
                 ConfigParameterId::LowPowerMode => valid_parameters.push(ConfigParameter {
                     id,
-- 
2.43.0


From 7e49987bd902eb6585188750ddc94f81b8c69553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:05 +0000
Subject: [PATCH 17/17] fix: pass on data packets received in between the
 fragments of a control packet

The read routine joined a data packet received while a control packet was
being reassembled to the fragments of the control packet. Data packets are
never part of a control packet: pass them on unmodified.
---
 src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5852bd7..5059f71 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -263,6 +263,16 @@ impl Pica {
                     file.write(&packet, pcapng::Direction::Tx)?;
                 }
 
+                // Data packets are unmodified, also when received in between
+                // the fragments of a control packet.
+                if header.mt == packets::uci::MessageType::Data {
+                    cmd_tx
+                        .send(PicaCommand::UciPacket(handle, packet))
+                        .await
+                        .unwrap();
+                    continue;
+                }
+
                 match &mut complete_packet {
                     Some(complete_packet) => {
                         complete_packet.extend_from_slice(&packet[HEADER_SIZE..])
@@ -270,9 +280,7 @@ impl Pica {
                     None => complete_packet = Some(packet),
                 }
 
-                if header.pbf == packets::uci::PacketBoundaryFlag::Complete
-                    || header.mt == packets::uci::MessageType::Data
-                {
+                if header.pbf == packets::uci::PacketBoundaryFlag::Complete {
                     break;
                 }
             }
-- 
2.43.0

