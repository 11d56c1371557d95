From 5b168ab056cc00b2f252b76a7a65774a3397996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:49 +0000
Subject: [PATCH 01/30] fix: CAN bus observer reads the R0 flag from the R0
 channel

The observer looked up the member 'RO' (letter O), which no configuration
declares, so R0 was always reported as false.
---
 mdflib/src/canbusobserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index f33b6ce..3865a5e 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -80,7 +80,7 @@ CanBusObserver::CanBusObserver(const IDataGroup& data_group,
   edl_channel_ = GetChannel("EDL");
   brs_channel_ = GetChannel("BRS");
   esi_channel_ = GetChannel("ESI");
-  r0_channel_ = GetChannel("RO");
+  r0_channel_ = GetChannel("R0");
   r1_channel_ = GetChannel("R1");
   wake_up_channel_ = GetChannel("WakeUp");
   single_wire_channel_ = GetChannel("SingleWire");
-- 
2.43.0


From 304f13611bf58bc6cfcf86ec1a7f573e25227d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:49 +0000
Subject: [PATCH 02/30] fix: CAN bus observer stores the bit position as the
 bit position

The bit position of an error frame was stored as the frame duration: the
duration was lost and the bit position always zero.
---
 mdflib/src/canbusobserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index 3865a5e..0f5d74b 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -411,7 +411,7 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
   if (bit_position_channel_ != nullptr) {
     double position = 0.0;
     GetEngValue(*bit_position_channel_, current_sample_index_, record, position);
-    msg.FrameDuration(static_cast<uint16_t>(position));
+    msg.BitPosition(static_cast<uint16_t>(position));
    }
 
    if (error_type_channel_ != nullptr) {
-- 
2.43.0


From 26ea0da7921f234f32c2ee00f12bdf3e72d0b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:49 +0000
Subject: [PATCH 03/30] fix: CAN bus observer reads the error type channel

The channel was never looked up, so every error frame was reported with an
unknown error type.
---
 mdflib/src/canbusobserver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index 0f5d74b..2e6a068 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -86,6 +86,7 @@ CanBusObserver::CanBusObserver(const IDataGroup& data_group,
   single_wire_channel_ = GetChannel("SingleWire");
   frame_duration_channel_ = GetChannel("FrameDuration");
   bit_position_channel_ = GetChannel("BitPosition");
+  error_type_channel_ = GetChannel("ErrorType");
 }
 
 std::string CanBusObserver::Name() const {
-- 
2.43.0


From 185a4073729b06ba3c2bf5d7e336e35c05bf5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:10 +0000
Subject: [PATCH 04/30] fix: refuse out-of-range index in
 IChannel::SetUnsignedValueBe

---
 mdflib/src/ichannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 5c055ce..d26911a 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -346,7 +346,7 @@ void IChannel::SetUnsignedValueBe(uint64_t value, bool valid, uint64_t array_ind
   }
   const auto bytes = static_cast<size_t>(DataBytes());
   const auto max_bytes = ByteOffset() +
-                         (bytes * array_index);
+                         (bytes * (array_index + 1));
   if (max_bytes > buffer.size()) {
     SetValid(false, array_index);
     return;
-- 
2.43.0


From e715cee0fcb0955ce91bb20e78826ca7feb6edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:42 +0000
Subject: [PATCH 05/30] fix: keep the invalid flag of variable length values in
 Cn4Block

---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index c5d2345..98828eb 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -826,7 +826,7 @@ void Cn4Block::SetTextValue(const std::string &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
@@ -855,7 +855,7 @@ void Cn4Block::SetByteArray(const std::vector<uint8_t> &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
-- 
2.43.0


From d3bbe1fa64b8f8bf0a82add180e2ebc4680d8c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:48 +0000
Subject: [PATCH 06/30] fix: variable length index near 2^64 wraps the bounds
 check in Cn4Block

---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 98828eb..3dc536c 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -649,7 +649,7 @@ bool Cn4Block::GetTextValue(const std::vector<uint8_t> &record_buffer,
     // Index into the local data buffer
     uint64_t index = 0;
     valid = GetUnsignedValue(record_buffer, index);
-    if (index + 4 > data_list_.size()) {
+    if (index > data_list_.size() || data_list_.size() - index < 4) {
       return false;
     }
     const LittleBuffer<uint32_t> length(data_list_, static_cast<size_t>(index) );
@@ -774,7 +774,7 @@ bool Cn4Block::GetByteArrayValue(const std::vector<uint8_t> &record_buffer,
     // in a SD block.
     uint64_t index = 0;  // Actual offset into the data block.
     valid = GetUnsignedValue(record_buffer, index);
-    if (index + 4 > data_list_.size()) {
+    if (index > data_list_.size() || data_list_.size() - index < 4) {
       return false;
     }
     const LittleBuffer<uint32_t> length(data_list_, static_cast<size_t>(index) );
-- 
2.43.0


From 093015a0c7ecf13ce2c16ed79d528faf1cef88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:33 +0000
Subject: [PATCH 07/30] fix: LIN direction is stored in the bit of the Dir
 channel

---
 mdflib/src/linmessage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/linmessage.cpp b/mdflib/src/linmessage.cpp
index 1f2ac0b..5e5ac63 100644
--- a/mdflib/src/linmessage.cpp
+++ b/mdflib/src/linmessage.cpp
@@ -166,7 +166,7 @@ void LinMessage::MakeDataFrame(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
@@ -228,7 +228,7 @@ void LinMessage::MakeChecksumError(SampleRecord& sample) const {
   if (mandatory) {
     return;
   }
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
-- 
2.43.0


From 6043b424ce13ceedcac325d6574d5a858e3a6c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:33 +0000
Subject: [PATCH 08/30] fix: LIN checksum error stores the direction with
 mandatory members only

---
 mdflib/src/linmessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/linmessage.cpp b/mdflib/src/linmessage.cpp
index 5e5ac63..1e05e72 100644
--- a/mdflib/src/linmessage.cpp
+++ b/mdflib/src/linmessage.cpp
@@ -225,10 +225,10 @@ void LinMessage::MakeChecksumError(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   if (mandatory) {
     return;
   }
-  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
-- 
2.43.0


From c26010065c11086e66a814f2efa3fbe19d46279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:33 +0000
Subject: [PATCH 09/30] fix: LIN receive error checksum model channel points at
 the stored bits

---
 mdflib/src/linconfigadapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index e93ba1c..c68d798 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -315,7 +315,7 @@ void LinConfigAdapter::CreateReceiveErrorChannels(IChannelGroup& group) const {
     frame_bytes->BitOffset(0);
   }
 
-  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel",9, 6, 2);
+  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel",11, 4, 2);
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
-- 
2.43.0


From 8c538582c7f90f7ab9db8d5f62093ca47f70e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:33 +0000
Subject: [PATCH 10/30] fix: LIN wake-up and spike SOF channels are 64 bits
 wide

---
 mdflib/src/linconfigadapter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index c68d798..7dd0d84 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -408,7 +408,7 @@ void LinConfigAdapter::CreateWakeUpChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
   }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
   }
@@ -491,7 +491,7 @@ void LinConfigAdapter::CreateSpikeChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
       }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
       }
-- 
2.43.0


From ea4c1563342ba7b63cad37aa2531ca96045d9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:33 +0000
Subject: [PATCH 11/30] fix: LIN error channels carry the name of their group

---
 mdflib/src/linconfigadapter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index 7dd0d84..a6fcab3 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -222,7 +222,7 @@ const bool mandatory_only = MandatoryMembersOnly();
   }
 
   if (IChannel* frame_bytes =
-          cn_frame->CreateChannelComposition("LIN_ChecksumError..DataBytes");
+          cn_frame->CreateChannelComposition("LIN_ChecksumError.DataBytes");
       frame_bytes != nullptr) {
     frame_bytes->Type(ChannelType::MaxLength);
     frame_bytes->BitCount(64);
@@ -239,7 +239,7 @@ const bool mandatory_only = MandatoryMembersOnly();
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
-  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError..SOF", 21, 0, 64);
+  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError.SOF", 21, 0, 64);
       sof != nullptr) {
      sof->Unit("ns");
   }
@@ -431,7 +431,7 @@ void LinConfigAdapter::CreateTransmissionErrorChannels(IChannelGroup& group) con
     CreateSourceInformation(*cn_frame);
   }
   CreateBusChannel(*cn_frame);
-  CreateBitsChannel(*cn_frame,"LIN_Transmission.ID", 9, 0, 6);
+  CreateBitsChannel(*cn_frame,"LIN_TransmissionError.ID", 9, 0, 6);
 
   if (mandatory) {
     return;
-- 
2.43.0


From 42ffd0891502bcbbc5fce54d9cb5ef2cfdd61167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:33 +0000
Subject: [PATCH 12/30] fix: LIN transmission error follows the member
 selection of the adapter

---
 mdflib/src/linconfigadapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index a6fcab3..536252f 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -415,7 +415,7 @@ void LinConfigAdapter::CreateWakeUpChannels(IChannelGroup& group) const {
 }
 
 void LinConfigAdapter::CreateTransmissionErrorChannels(IChannelGroup& group) const {
-  const bool mandatory = writer_.MandatoryMembersOnly();
+  const bool mandatory = MandatoryMembersOnly();
   IChannel* cn_frame = group.CreateChannel("LIN_TransmissionError");
   if (cn_frame == nullptr) {
     MDF_ERROR() << "Failed to create the channel. Name: " << "LIN_TransmissionError";
-- 
2.43.0


From 0f3fbfbcf620082fac0978613a8d48d0184fecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:23 +0000
Subject: [PATCH 13/30] fix: Ethernet channels follow the member selection of
 the adapter

---
 mdflib/src/ethconfigadapter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/ethconfigadapter.cpp b/mdflib/src/ethconfigadapter.cpp
index c145e36..0661ecc 100644
--- a/mdflib/src/ethconfigadapter.cpp
+++ b/mdflib/src/ethconfigadapter.cpp
@@ -167,7 +167,7 @@ void EthConfigAdapter::CreateConfig(IDataGroup& dg_block) {
 }
 
 void EthConfigAdapter::CreateFrameChannels(IChannelGroup& group) const {
-  const bool mandatory = writer_.MandatoryMembersOnly();
+  const bool mandatory = MandatoryMembersOnly();
   auto* cn_frame = group.CreateChannel("ETH_Frame");
   if (cn_frame == nullptr) {
     MDF_ERROR() << "Failed to create the channel. Name :" << "ETH_Frame";
@@ -210,7 +210,7 @@ void EthConfigAdapter::CreateFrameChannels(IChannelGroup& group) const {
 }
 
 void EthConfigAdapter::CreateChecksumErrorChannels(IChannelGroup& group) const {
-  const bool mandatory = writer_.MandatoryMembersOnly();
+  const bool mandatory = MandatoryMembersOnly();
 
   IChannel* cn_frame = group.CreateChannel("ETH_ChecksumError");
   if (cn_frame == nullptr) {
@@ -254,7 +254,7 @@ void EthConfigAdapter::CreateChecksumErrorChannels(IChannelGroup& group) const {
 }
 
 void EthConfigAdapter::CreateLengthErrorChannels(IChannelGroup& group) const {
-  const bool mandatory = writer_.MandatoryMembersOnly();
+  const bool mandatory = MandatoryMembersOnly();
   auto* cn_frame = group.CreateChannel("ETH_LengthError");
   if (cn_frame == nullptr) {
     MDF_ERROR() << "Failed to create the channel. Name :" << "ETH_LengthError";
@@ -296,7 +296,7 @@ void EthConfigAdapter::CreateLengthErrorChannels(IChannelGroup& group) const {
 }
 
 void EthConfigAdapter::CreateReceiveErrorChannels(IChannelGroup& group) const {
-  const bool mandatory = writer_.MandatoryMembersOnly();
+  const bool mandatory = MandatoryMembersOnly();
   auto* cn_frame = group.CreateChannel("ETH_ReceiveError");
   if (cn_frame == nullptr) {
     MDF_ERROR() << "Failed to create the channel. Name :" << "ETH_ReceiveError";
-- 
2.43.0


From 53893976258790bf78d7e9f0a355dd423ba472a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:24 +0000
Subject: [PATCH 14/30] fix: reset the direction and error type of an Ethernet
 message

---
 mdflib/src/ethmessage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/ethmessage.cpp b/mdflib/src/ethmessage.cpp
index 951cffa..23be3a1 100644
--- a/mdflib/src/ethmessage.cpp
+++ b/mdflib/src/ethmessage.cpp
@@ -24,6 +24,8 @@ void EthMessage::DataBytes(const std::vector<uint8_t>& data) {
 
 void EthMessage::Reset() {
   bus_channel_ = 0;
+  dir_ = false;
+  error_type_ = EthErrorType::Unknown;
   source_ = {};
   destination_ = {};
   eth_type_ = 0x0800; ///< IPv4 as default
-- 
2.43.0


From 317746aa044fe25072ff2711d53a99290ea74d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:52 +0000
Subject: [PATCH 15/30] fix: FlexRay events store the channel and channel mask
 of the event

---
 mdflib/src/flexraymessage.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 29e5b42..839c535 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -52,7 +52,7 @@ void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
   record[13] = static_cast<uint8_t>(DataBytes().size());
@@ -104,7 +104,7 @@ void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount() & 0x3F);
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[12] = Length();
   record[13] = static_cast<uint8_t>(DataBytes().size());
 
@@ -153,7 +153,7 @@ void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
 
@@ -200,7 +200,7 @@ void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -247,7 +247,7 @@ void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -302,7 +302,7 @@ void FlexRaySymbol::ToRaw(SampleRecord& sample) const {
   // The time allocate the first 8 bytes (double)
   record[8] = BusChannel();
   record[9] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[9] |= (static_cast<uint8_t>(FlexRayChannelMask()) & 0x03) << 6;
+  record[9] |= (static_cast<uint8_t>(ChannelMask()) & 0x03) << 6;
   if (mandatory_members_only) {
     return;
   }
-- 
2.43.0


From 0f9e81ee7d7eb63d63854ad3bf9bc67990740a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:41 +0000
Subject: [PATCH 16/30] fix: CAN channels use the maximum length of the adapter

---
 mdflib/src/canconfigadapter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/canconfigadapter.cpp b/mdflib/src/canconfigadapter.cpp
index 690d421..7a10d6b 100644
--- a/mdflib/src/canconfigadapter.cpp
+++ b/mdflib/src/canconfigadapter.cpp
@@ -126,8 +126,8 @@ void CanConfigAdapter::CreateCanDataFrameChannel(IChannelGroup& group) const {
   switch (StorageType()) {
     // In reality,  MLSD storage should have max length equal to 8.
     case MdfStorageType::MlsdStorage:
-      cn_data_frame->DataBytes(mandatory_only ? (23 - 16) + writer_.MaxLength() :
-                                (32 - 16) + writer_.MaxLength());
+      cn_data_frame->DataBytes(mandatory_only ? (23 - 16) + MaxLength() :
+                                (32 - 16) + MaxLength());
       break;
 
     case MdfStorageType::FixedLengthStorage:
@@ -225,7 +225,7 @@ void CanConfigAdapter::CreateCanErrorFrameChannel(IChannelGroup& group) const {
   cn_error_frame->DataType(ChannelDataType::ByteArray);
 
   if (StorageType() == MdfStorageType::MlsdStorage) {
-    cn_error_frame->DataBytes((34 - 16) + writer_.MaxLength());
+    cn_error_frame->DataBytes((34 - 16) + MaxLength());
   } else {
     cn_error_frame->DataBytes(34 - 8); // Index into SD or VLSD
   }
@@ -290,7 +290,7 @@ IChannel* CanConfigAdapter::CreateDataBytesChannel(IChannel& parent_channel,
     switch(StorageType()) {
       case MdfStorageType::MlsdStorage:
         frame_bytes->Type(ChannelType::MaxLength);
-        frame_bytes->BitCount(8 * writer_.MaxLength());
+        frame_bytes->BitCount(8 * MaxLength());
         break;
 
       case MdfStorageType::VlsdStorage:
-- 
2.43.0


From 279d52357222a9bbcffbaf28210dfd02e3b48644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:39 +0000
Subject: [PATCH 17/30] fix: write MDF3 conversion parameters as 8-byte numbers

Cc3Block::Write wrote each std::variant as a whole (16 bytes with its
discriminator), so every parameter after the first was read back wrong.
---
 mdflib/src/cc3block.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index a538954..5393e65 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -313,8 +313,8 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 9:  // Rational
       nof_values_ = static_cast<uint16_t>(value_list_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (size_t index = 0; index < value_list_.size(); ++index) {
+        bytes += WriteNumber(buffer, Parameter(static_cast<uint16_t>(index)));
       }
       break;
 
@@ -322,8 +322,8 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 2:  // Tabular
       nof_values_ = static_cast<uint16_t>(value_list_.size() / 2);
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (size_t index = 0; index < value_list_.size(); ++index) {
+        bytes += WriteNumber(buffer, Parameter(static_cast<uint16_t>(index)));
       }
       break;
 
-- 
2.43.0


From 11741180f50e456f73f255c6a16facf5ebaafae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:39 +0000
Subject: [PATCH 18/30] fix: store the texts of MDF3 text range conversions

The TX blocks were written without their text.
---
 mdflib/src/cc3block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index 5393e65..03ce85d 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -285,7 +285,7 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
   for (auto &range : text_range_conversion_list_) {
     uint32_t link = 0;
     if (!range.text.empty()) {
-      Tx3Block temp;
+      Tx3Block temp(range.text);
       temp.Init(*this);
       temp.Write(buffer);
       link = static_cast<uint32_t>(temp.FilePosition());
-- 
2.43.0


From 1f42486282e9f7294970e725b1910c220d851cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:39 +0000
Subject: [PATCH 19/30] fix: include the formula text in the MDF3 conversion
 block size

---
 mdflib/src/cc3block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index 03ce85d..de3cb3c 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -330,7 +330,7 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 10:  // Text formula
       nof_values_ = static_cast<uint16_t>(formula_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      WriteStr(buffer, formula_, formula_.size());
+      bytes += WriteStr(buffer, formula_, formula_.size());
       break;
 
     case 11:  // Text Table
-- 
2.43.0


From c245d723cc284370fbab0971593642bcdfe608c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:39 +0000
Subject: [PATCH 20/30] fix: BigBuffer::value read a local array after its
 scope ended

---
 mdflib/src/bigbuffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/bigbuffer.h b/mdflib/src/bigbuffer.h
index 4b1fdef..c2c2d49 100644
--- a/mdflib/src/bigbuffer.h
+++ b/mdflib/src/bigbuffer.h
@@ -67,15 +67,15 @@ size_t BigBuffer<T>::size() const {
 
 template <typename T>
 T BigBuffer<T>::value() const {
-  const T* val = reinterpret_cast<const T*>(buffer_.data());
+  std::array<uint8_t, sizeof(T)> temp = buffer_;
   if (IsLittleEndian()) { // Computer uses little endian
-    std::array<uint8_t, sizeof(T)> temp = {0};
     for (size_t index = sizeof(T); index > 0; --index) {
       temp[sizeof(T) - index] = buffer_[index - 1];
     }
-    val = reinterpret_cast<const T*>(temp.data());
   }
-  return *val;
+  T val;
+  memcpy(&val, temp.data(), sizeof(T));
+  return val;
 }
 
 }  // namespace mdf
-- 
2.43.0


From 39447b95a9ffdd8a0d34499b399127c688aa1509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:56 +0000
Subject: [PATCH 21/30] fix: read the channel hierarchy elements from the links
 they are written to

Ch4Block::Write stores the element triples from link 4 on, but
FindReferencedBlocks read them from link 5 on, so every element was shifted
and a single element was lost.
---
 mdflib/src/ch4block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index c44ee8e..e7a33bd 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -148,7 +148,7 @@ const std::vector<ElementLink> &Ch4Block::ElementLinks() const {
 void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   element_list_.clear();
   for (uint32_t index_n = 0; index_n < nof_elements_; ++index_n) {
-    const auto index = 5 + (index_n * 3);
+    const auto index = 4 + (index_n * 3);
     if (index < link_list_.size()) {
       const auto *block1 = hd4.Find(Link(index));
       const auto *block2 = hd4.Find(Link(index + 1));
-- 
2.43.0


From f093a0ffbac3263999d4577f2ece584f81c29c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:03 +0000
Subject: [PATCH 22/30] fix: store the references of channel hierarchies

Hd4Block::Write writes the channel hierarchies before the data groups they
refer to, so the element links of a new file were all stored as 0. The links
are now updated in place when the data groups have been written.
---
 mdflib/src/ch4block.cpp | 16 +++++++++++++++-
 mdflib/src/hd4block.cpp |  4 ++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index e7a33bd..23b5192 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -67,8 +67,22 @@ uint64_t Ch4Block::Read(std::streambuf& buffer) {  // NOLINT
 uint64_t Ch4Block::Write(std::streambuf& buffer) {  // NOLINT
   const auto update = FilePosition() > 0;
   if (update) {
+    // The referenced blocks may have been written after this block.
+    for (size_t element_n = 0; element_n < element_list_.size(); ++element_n) {
+      const auto index = 4 + (element_n * 3);
+      if (index + 2 >= link_list_.size()) {
+        break;
+      }
+      const auto &element = element_list_[element_n];
+      UpdateLink(buffer, index,
+          element.data_group != nullptr ? element.data_group->Index() : 0);
+      UpdateLink(buffer, index + 1,
+          element.channel_group != nullptr ? element.channel_group->Index() : 0);
+      UpdateLink(buffer, index + 2,
+          element.channel != nullptr ? element.channel->Index() : 0);
+    }
     WriteLink4List(buffer, ch_list_, kIndexCh,
-                   UpdateOption::DoNotUpdateWrittenBlock);
+                   UpdateOption::DoUpdateAllBlocks);
     return block_length_;
   }
   nof_elements_ = static_cast<uint32_t>(element_list_.size());
diff --git a/mdflib/src/hd4block.cpp b/mdflib/src/hd4block.cpp
index d325fea..e39f194 100644
--- a/mdflib/src/hd4block.cpp
+++ b/mdflib/src/hd4block.cpp
@@ -543,6 +543,10 @@ uint64_t Hd4Block::Write(std::streambuf& buffer) {
   // in these cases.
   WriteLink4List(buffer, dg_list_, kIndexDg,
        UpdateOption::DoUpdateAllBlocks);  // Always rewrite last DG block
+
+  // The channel hierarchies are written before the data groups they refer to,
+  // so their references must be updated in place.
+  WriteLink4List(buffer, ch_list_, kIndexCh, UpdateOption::DoUpdateAllBlocks);
   return bytes;
 }
 
-- 
2.43.0


From e7ff267a6dd6c7bc93893832a46ee38604a3ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:50 +0000
Subject: [PATCH 23/30] fix: step over empty data blocks when reading records

A record that crosses into an empty DT/DZ/SD block of a data list ended
the parsing, so all samples after the empty block were lost.
---
 mdflib/src/readcache.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 27ed376..61d34a0 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -365,6 +365,12 @@ bool ReadCache::GetNextByte(uint8_t &input) {
     return true;
   }
 
+  // Step over empty data blocks.
+  while (block_index_ < block_list_.size() &&
+         block_list_[block_index_] != nullptr &&
+         block_list_[block_index_]->DataSize() == 0) {
+    ++block_index_;
+  }
   if (block_index_ >= block_list_.size()) {
     return false;
   }
-- 
2.43.0


From ffa1a54991001cea0dbd46d62b200061d958f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:35 +0000
Subject: [PATCH 24/30] fix: read variable length data that is headed by an HL
 block

ReadVlsdData silently delivered nothing when the signal data of a channel
were stored in an HL list (compressed), which ReadData does handle.
---
 mdflib/src/dg4block.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 68ade13..c5be261 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -483,6 +483,8 @@ void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
         read_signal_data = true;
       } else if (block->BlockType() == "DL") {
         read_signal_data = true;
+      } else if (block->BlockType() == "HL") {
+        read_signal_data = true;
       }
       break;
 
-- 
2.43.0


From 8efeea6dbaba1b76b31e8dc75fa4a7a94e16eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:53 +0000
Subject: [PATCH 25/30] fix: read the sample reductions of an MDF3 channel
 group

The SR link of the CG block was never read and the size of the reduced
data was always taken as zero.
---
 mdflib/src/cg3block.cpp | 2 +-
 mdflib/src/sr3block.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cg3block.cpp b/mdflib/src/cg3block.cpp
index 90dcaac..26bbf2f 100644
--- a/mdflib/src/cg3block.cpp
+++ b/mdflib/src/cg3block.cpp
@@ -100,7 +100,7 @@ uint64_t Cg3Block::Read(std::streambuf& buffer) {
   bytes += ReadNumber(buffer, nof_channels_);
   bytes += ReadNumber(buffer, size_of_data_record_);
   bytes += ReadNumber(buffer, nof_records_);
-  if (bytes + 4 < block_size_) {
+  if (bytes + 4 <= block_size_) {
     uint32_t link = 0;
     bytes += ReadNumber(buffer, link);
     link_list_.emplace_back(link);
diff --git a/mdflib/src/sr3block.cpp b/mdflib/src/sr3block.cpp
index a63c64a..43b4962 100644
--- a/mdflib/src/sr3block.cpp
+++ b/mdflib/src/sr3block.cpp
@@ -78,7 +78,9 @@ uint64_t Sr3Block::Write(std::streambuf& buffer) {
 
 
 void Sr3Block::ReadData(std::streambuf& buffer) const {
-  uint64_t data_size = DataSize();
+  // Each reduced sample is stored as a mean, a min and a max record.
+  const uint64_t data_size =
+      static_cast<uint64_t>(nof_reduced_samples_) * 3 * BlockSize();
   if (data_size == 0) {
     data_list_.clear();
     return;
-- 
2.43.0


From 49c4c7362da0cfc403b293b58da190dad5a37483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:53 +0000
Subject: [PATCH 26/30] fix: MDF3 range reading starts at the data and with any
 record id

The file position was lost when sample reductions were read first, and a
single group without record ids in the records but with a record id in its
CG block gave no samples.
---
 mdflib/src/dg3block.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index 24f0b2d..94469de 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -195,7 +195,6 @@ void Dg3Block::ReadRangeData(std::streambuf& buffer, DgRange& range) {
   InitFastObserverList();
 
   uint64_t data_size = DataSize();
-  SetFilePosition(buffer, Link(kIndexData));
 
   // Read in all SR block data
   for (const auto& cg3 :Cg3()) {
@@ -208,8 +207,8 @@ void Dg3Block::ReadRangeData(std::streambuf& buffer, DgRange& range) {
     }
   }
 
-  //  auto pos = GetFilePosition(data_file);
   // Read through all record
+  SetFilePosition(buffer, Link(kIndexData));
   ParseRangeDataRecords(buffer, data_size, range);
 
 
@@ -269,8 +268,7 @@ void Dg3Block::ParseRangeDataRecords(std::streambuf& buffer, uint64_t nof_data_b
       count += ReadNumber(buffer, record_id);
     }
     const auto *cg3 = FindCgRecordId(record_id);
-    const auto* cg_range = range.GetCgRange(record_id);
-    if (cg3 == nullptr || cg_range == nullptr) {
+    if (cg3 == nullptr || range.GetCgRange(cg3->RecordId()) == nullptr) {
       break;
     }
 
-- 
2.43.0


From 260c5516188e3bd96a811f98fcebc0f13101b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:53 +0000
Subject: [PATCH 27/30] fix: MDF3 conversions know the data type of their
 channel

A float value on the limit of two ranges got the text of the lower one.
---
 mdflib/src/cn3block.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/cn3block.cpp b/mdflib/src/cn3block.cpp
index 4cd8d0d..a28f4fc 100644
--- a/mdflib/src/cn3block.cpp
+++ b/mdflib/src/cn3block.cpp
@@ -230,6 +230,7 @@ uint64_t Cn3Block::Read(std::streambuf& buffer) {
     cc_block_ = std::make_unique<Cc3Block>();
     cc_block_->Init(*this);
     cc_block_->Read(buffer);
+    cc_block_->ChannelDataType(static_cast<uint8_t>(DataType()));
   }
 
   if (Link(kIndexCe) > 0) {
@@ -510,6 +511,7 @@ IChannelConversion *Cn3Block::CreateChannelConversion() {
     cc_block_ = std::make_unique<Cc3Block>();
     cc_block_->Init(*this);
   }
+  cc_block_->ChannelDataType(static_cast<uint8_t>(DataType()));
   return cc_block_.get();
 }
 
-- 
2.43.0


From 8cfb94a736edb693e3a7fdc3db305332cb55d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:37 +0000
Subject: [PATCH 28/30] fix: CAN messages read back with the DLC of the file

The data bytes were set after the DLC and overwrote it, so remote frames
and classic frames with a DLC above 8 lost their DLC.
---
 mdflib/src/canbusobserver.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index 2e6a068..3be31eb 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -299,12 +299,6 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     msg.ExtendedId(extended);
   }
 
-  if (dlc_channel_ != nullptr) {
-    uint8_t dlc = 0;
-    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
-    msg.Dlc(dlc);
-  }
-
   if (length_channel_ != nullptr) {
     double length = 0.0;
     GetEngValue(*length_channel_, current_sample_index_, record, length);
@@ -341,6 +335,13 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     }
   }
 
+  // The length and the data bytes derive a DLC. The stored DLC overrules it.
+  if (dlc_channel_ != nullptr) {
+    uint8_t dlc = 0;
+    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
+    msg.Dlc(dlc);
+  }
+
   if (dir_channel_ != nullptr) {
     // Note that eng value is a enumerate string
     bool direction = false;
-- 
2.43.0


From 080a3bf5db3a773108cf2f9e8015494a053c321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:13 +0000
Subject: [PATCH 29/30] fix: CAN messages of a callback know their type

The message handed to the callback of a CAN bus observer was always a data
frame.
---
 mdflib/src/canbusobserver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index 3be31eb..46f13de 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -250,6 +250,7 @@ bool CanBusObserver::FireCallback() {
   }
   const uint64_t sample = last_sample_.sample;
   CanMessage msg;
+  msg.TypeOfMessage(message_type_);
   ParseCanMessage(msg);
 
   return OnCanMessage(sample, msg);
-- 
2.43.0


From fae8aeac2f5da4fbe73968a7e5f07bbcd2eb6b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:30 +0000
Subject: [PATCH 30/30] fix: FlexRay payload index lies where its channel says

The writer stores the index of the payload in the last eight bytes of the
record, but the FlexRay records were up to two bytes longer than the end of
the payload channel, so the index read back was wrong.
---
 mdflib/src/flexrayconfigadapter.cpp | 12 ++++++------
 mdflib/src/flexraymessage.cpp       | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/mdflib/src/flexrayconfigadapter.cpp b/mdflib/src/flexrayconfigadapter.cpp
index cf6cbf8..367edb2 100644
--- a/mdflib/src/flexrayconfigadapter.cpp
+++ b/mdflib/src/flexrayconfigadapter.cpp
@@ -192,9 +192,9 @@ void FlexRayConfigAdapter::CreateFrameChannel(IChannelGroup& channel_group) cons
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -245,7 +245,7 @@ void FlexRayConfigAdapter::CreatePduChannel(IChannelGroup& channel_group) const
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
     parent_frame->DataBytes(28-8);
   }
@@ -294,7 +294,7 @@ void FlexRayConfigAdapter::CreateFrameHeaderChannel(IChannelGroup& channel_group
   if (mandatory_members_only) {
     parent_frame->DataBytes(13-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -347,7 +347,7 @@ void FlexRayConfigAdapter::CreateNullFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -399,7 +399,7 @@ void FlexRayConfigAdapter::CreateErrorFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(35-8);
+    parent_frame->DataBytes(33-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 839c535..fe638f5 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -43,7 +43,7 @@ const std::vector<uint8_t>& FlexRayFrame::DataBytes() const {
 void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                      data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 34;
+  const size_t record_size = mandatory_members_only ? 22 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -95,7 +95,7 @@ const std::vector<uint8_t>& FlexRayPdu::DataBytes() const {
 void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                    data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 28;
+  const size_t record_size = mandatory_members_only ? 22 : 28;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -144,7 +144,7 @@ const std::vector<uint8_t>& FlexRayFrameHeader::FillDataBytes() const {
 void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                       data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 13 : 34;
+  const size_t record_size = mandatory_members_only ? 13 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -191,7 +191,7 @@ FlexRayNullFrame::FlexRayNullFrame()
 void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 34;
+  const size_t record_size = mandatory_members_only ? 12 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -238,7 +238,7 @@ FlexRayErrorFrame::FlexRayErrorFrame()
 void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 35;
+  const size_t record_size = mandatory_members_only ? 12 : 33;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
-- 
2.43.0

