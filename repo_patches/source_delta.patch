From c504858ff81505b9b4c7c5b5373c20133eeea0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 01/28] fix: NENRD on an unused event slot must report an
 invalid index

An index within the table but not in use was answered with the erased
contents FFFF:FFFF of the slot instead of the invalid index error.
---
 src/EventTeachingService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index aec6cab..e50da02 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -245,7 +245,7 @@ void EventTeachingService::handleReadEventIndex(unsigned int nn, byte eventIndex
   if (isThisNodeNumber(nn))
   {
     Configuration *module_config = controller->getModuleConfig();
-    if ((eventIndex >= module_config->EE_MAX_EVENTS) && (module_config->getEvTableEntry(eventIndex) == 0))
+    if ((eventIndex >= module_config->EE_MAX_EVENTS) || (module_config->getEvTableEntry(eventIndex) == 0))
     {
       controller->sendCMDERR(CMDERR_INV_EN_IDX);
       controller->sendGRSP(OPC_NENRD, getServiceID(), CMDERR_INV_EN_IDX);
-- 
2.43.0


From 36453f560fe91dd08600922cd20901a970b60232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:33 +0000
Subject: [PATCH 02/28] fix: store the identity of a new event taught with EV
 number above 1

EVLRN for an unknown event with an event variable number other than 1
was acknowledged but wrote only the event variable of a free slot. The
event itself was never stored.
---
 src/EventTeachingService.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index e50da02..1de92c1 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -433,10 +433,12 @@ void EventTeachingService::handleLearnEvent(const VlcbMessage *msg, unsigned int
   // search for this NN, EN as we may just be adding an EV to an existing learned event 
   //DEBUG_SERIAL << F("ets> searching for existing event to update") << endl;
   byte index = module_config->findExistingEvent(nn, en);
+  bool isNewEvent = false;
 
   // not found - it's a new event
   if (index >= module_config->EE_MAX_EVENTS)
   {
+    isNewEvent = true;
     // DEBUG_SERIAL << F("ets> existing event not found - creating a new one if space available") << endl;
     index = module_config->findEventSpace();
   }
@@ -454,8 +456,8 @@ void EventTeachingService::handleLearnEvent(const VlcbMessage *msg, unsigned int
   // write the event to EEPROM at this location -- EVs are indexed from 1 but storage offsets start at zero !!
   // DEBUG_SERIAL << F("ets> writing EV = ") << evnum << F(", at index = ") << index << F(", offset = ") << (module_config->EE_EVENTS_START + (index * module_config->EE_BYTES_PER_EVENT)) << endl;
 
-  // don't repeat this for subsequent EVs
-  if (evnum <= 1)
+  // don't repeat this for subsequent EVs of an event that is already stored
+  if (evnum <= 1 || isNewEvent)
   {
     module_config->writeEvent(index, &msg->data[1]);
   }
-- 
2.43.0


From ebebaad8d96c5b030920ed887e98ddfa9f7fcf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:52 +0000
Subject: [PATCH 03/28] fix: do not find unused event slots by their left-over
 event variables

Unlearning an event leaves its event variables in storage. Looking up an
event by EV1 matched such slots, so teaching and producing events used
the erased identity FFFF:FFFF or duplicated an existing event.
---
 src/Configuration.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index 74cec09..c1a3474 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -184,7 +184,13 @@ byte Configuration::findExistingEventByEv(byte evnum, byte evval) const
   {
     if (getEventEVval(i, evnum) == evval)
     {
-      break;
+      // Event variables of an unused slot may be left over from an earlier event.
+      byte nnen[EE_HASH_BYTES];
+      readEvent(i, nnen);
+      if (!nnenEquals(nnen, unused_entry))
+      {
+        break;
+      }
     }
   }
   return i;
-- 
2.43.0


From ae18748d983ae0a98413ac25a61bdb1067e21217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:38 +0000
Subject: [PATCH 04/28] fix: reject setting node variable number 0

NVSET and NVSETRD with index 0 wrote the byte before the node variables
in storage and reported success.
---
 src/NodeVariableService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NodeVariableService.cpp b/src/NodeVariableService.cpp
index bab8fff..2f05b34 100644
--- a/src/NodeVariableService.cpp
+++ b/src/NodeVariableService.cpp
@@ -90,7 +90,7 @@ void NodeVariableService::handleSetNV(const VlcbMessage *msg, unsigned int nn)
     }
 
     Configuration *module_config = controller->getModuleConfig();
-    if (msg->data[3] > module_config->EE_NUM_NVS)
+    if ((msg->data[3] == 0) || (msg->data[3] > module_config->EE_NUM_NVS))
     {
       controller->sendGRSP(OPC_NVSET, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
@@ -120,7 +120,7 @@ void NodeVariableService::handleSetAndReadNV(const VlcbMessage *msg, unsigned in
 
     byte nvindex = msg->data[3];
     Configuration *module_config = controller->getModuleConfig();
-    if (nvindex > module_config->EE_NUM_NVS)
+    if ((nvindex == 0) || (nvindex > module_config->EE_NUM_NVS))
     {
       controller->sendGRSP(OPC_NVSETRD, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
-- 
2.43.0


From fd2666138ad41245c54958a963d72485e466f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:39 +0000
Subject: [PATCH 05/28] fix: MODE learn on/off must only act on the addressed
 node

The node number was ignored, so putting one node in learn mode with MODE
put every node on the bus in learn mode. Truncated requests used a byte
beyond the message.
---
 src/EventTeachingService.cpp | 10 ++++++++--
 src/EventTeachingService.h   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index 1de92c1..b7e92d3 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -45,7 +45,7 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   {
   case OPC_MODE:
     // 76 - Set Operating Mode
-    handleLearnMode(msg);
+    handleLearnMode(msg, nn);
     break;
 
   case OPC_NNLRN:
@@ -111,8 +111,14 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   }
 }
 
-void EventTeachingService::handleLearnMode(const VlcbMessage *msg)
+void EventTeachingService::handleLearnMode(const VlcbMessage *msg, unsigned int nn)
 {
+  if (!isThisNodeNumber(nn) || msg->len < 4)
+  {
+    // Not for this module, or incomplete which is reported by MNS.
+    return;
+  }
+
   //DEBUG_SERIAL << F("ets> MODE -- request op-code received for NN = ") << nn << endl;
   byte requestedMode = msg->data[3];
   switch (requestedMode)
diff --git a/src/EventTeachingService.h b/src/EventTeachingService.h
index 0b6ddf4..55e2ba1 100644
--- a/src/EventTeachingService.h
+++ b/src/EventTeachingService.h
@@ -28,7 +28,7 @@ private:
   bool bLearn = false;
 
   void handleMessage(const VlcbMessage *msg);
-  void handleLearnMode(const VlcbMessage *msg);
+  void handleLearnMode(const VlcbMessage *msg, unsigned int nn);
   void handleLearn(unsigned int nn);
   void handleUnlearnEvent(const VlcbMessage *msg, unsigned int nn, unsigned int en);
   void handleUnlearn(unsigned int nn);
-- 
2.43.0


From c8c8dde80c46c31b2d6e3425b890d5eec29cf2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:10 +0000
Subject: [PATCH 06/28] fix: initialise the request event handler pointer

Without a registered handler a status request jumped through an
uninitialised pointer when the service is not in zeroed memory.
---
 src/EventProducerService.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 9cd78d5..528c220 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -37,7 +37,7 @@ public:
   
 
 private:
-  void (*requesteventhandler)(byte index, const VlcbMessage *msg);
+  void (*requesteventhandler)(byte index, const VlcbMessage *msg) = nullptr;
   void handleProdSvcMessage(const VlcbMessage *msg);
   
   void setProducedEvents();
-- 
2.43.0


From 3459be279e668ebc7991b4bc51d61c340a96387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:11 +0000
Subject: [PATCH 07/28] fix: do not write outside the event table when it is
 full

Producing an event without a table entry when the table was full wrote
an entry past the end of the event storage and of the hash table. No
event is sent as there is no identity to send it with.
---
 src/EventProducerService.cpp | 38 ++++++++++++++++++++++++++++++------
 src/EventProducerService.h   |  2 +-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index 986cf17..cdeb54b 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -46,7 +46,11 @@ byte EventProducerService::createDefaultEvent(byte evValue)
   unsigned int nodeNum = module_config->nodeNum;
   
   byte index = module_config->findEventSpace();
-  //TODO: Consider full event table error message. Should error come from Configuration?
+  if (index >= module_config->EE_MAX_EVENTS)
+  {
+    //TODO: Consider full event table error message. Should error come from Configuration?
+    return index;
+  }
   
   // Find next available event number.
   unsigned int eventNum;
@@ -92,13 +96,18 @@ void EventProducerService::process(const Action * action)
   }
 }
 
-void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
+// Returns false if there is no such event and no space to create it.
+bool EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
 {
   Configuration *module_config = controller->getModuleConfig();
   byte index = module_config->findExistingEventByEv(evIndex, evValue);
   if (index >= module_config->EE_MAX_EVENTS)
   {
     index = createDefaultEvent(evValue);
+    if (index >= module_config->EE_MAX_EVENTS)
+    {
+      return false;
+    }
   }
 
   module_config->readEvent(index, nn_en);
@@ -108,8 +117,13 @@ void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byt
     // This table entry was not initalised correctly.
     // This may happen if an event is deleted but the hash table is not updated.
     index = createDefaultEvent(evValue);
+    if (index >= module_config->EE_MAX_EVENTS)
+    {
+      return false;
+    }
     module_config->readEvent(index, nn_en);
   }
+  return true;
 }
 
 void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en)
@@ -125,7 +139,10 @@ void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte
 void EventProducerService::sendEvent(bool state, byte evValue)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -147,7 +164,10 @@ void EventProducerService::sendEvent(bool state, byte evValue)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -170,7 +190,10 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -194,7 +217,10 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2, byte data3)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 528c220..5249ba0 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -42,7 +42,7 @@ private:
   
   void setProducedEvents();
   byte createDefaultEvent(byte evValue);
-  void findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
+  bool findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
   void sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en);
 
   bool uninit = false;
-- 
2.43.0


From 1d606a36642cee3f0ad022a7fca9722794a90cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:01 +0000
Subject: [PATCH 08/28] fix: store the node number before switching to normal
 mode

---
 src/Configuration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index c1a3474..c6ee740 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -79,8 +79,10 @@ void Configuration::setModuleUninitializedMode()
 
 void Configuration::setModuleNormalMode(unsigned int nodeNumber)
 {
-  setModuleMode(MODE_NORMAL);
+  // Store the node number first, so that the node is never in normal mode
+  // with another number if the power fails in between.
   setNodeNum(nodeNumber);
+  setModuleMode(MODE_NORMAL);
 }
 
 void Configuration::setModuleMode(VlcbModeParams f)
-- 
2.43.0


From 252148aee0823466c1743b7f9a02d354591be614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:56 +0000
Subject: [PATCH 09/28] fix: make an interrupted factory initialisation be
 repeated at the next start

---
 src/Configuration.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index c6ee740..fe59598 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -542,8 +542,6 @@ void Configuration::resetModule()
 
   storage->write(LOCATION_MODE, MODE_UNINITIALISED);
   storage->write(LOCATION_CANID, 0);
-  storage->write(LOCATION_NODE_NUMBER_HIGH, 0);
-  storage->write(LOCATION_NODE_NUMBER_LOW, 0);
   storage->write(LOCATION_FLAGS, 0);
   setResetFlag();        // set reset indicator
 
@@ -553,6 +551,11 @@ void Configuration::resetModule()
     writeNV(i + 1, 0);
   }
 
+  // The node number is written last as it tells the virgin state from an initialised one.
+  // If the power fails before this, begin() will do the initialisation again.
+  storage->write(LOCATION_NODE_NUMBER_HIGH, 0);
+  storage->write(LOCATION_NODE_NUMBER_LOW, 0);
+
   // DEBUG_SERIAL << F("> complete in ") << (millis() - t) << F(", rebooting ... ") << endl;
 
   // reset complete
-- 
2.43.0


From 042d15f7b0fe8f8c29a5a6111e80da109dcf4538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:44 +0000
Subject: [PATCH 10/28] fix: high-water mark of queues with a capacity above
 127

---
 src/CircularBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CircularBuffer.h b/src/CircularBuffer.h
index ba4bc4b..e9d8454 100644
--- a/src/CircularBuffer.h
+++ b/src/CircularBuffer.h
@@ -133,7 +133,7 @@ void CircularBuffer<E>::clear()
 template <typename E>
 uint8_t CircularBuffer<E>::bufUse()
 {
-  int8_t size = capacity;
+  int size = capacity;
   if (!full)
   {
     size = head - tail;
-- 
2.43.0


From fbcec79092e26b43272bbafe0b7652fcedcb2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:22 +0000
Subject: [PATCH 11/28] fix: fragments of other streams must not disturb a long
 message reception

---
 src/LongMessageService.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 23eb939..5700518 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -152,8 +152,6 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
 
 	// DEBUG_SERIAL << F("> L: processing received long message packet, message length = ") << _incoming_message_length << F(", rcvd so far = ") << _incoming_bytes_received << endl;
 
-	_last_fragment_received = millis();
-
 	byte i, j;
 
   if (!_is_receiving)
@@ -175,13 +173,14 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
             // subscribed to this stream id
 
             _is_receiving = true;
+            _last_fragment_received = millis();
             _receive_stream_id = frame->data[1];
             _incoming_message_length = (frame->data[3] << 8) + frame->data[4];
             _incoming_message_crc = (frame->data[5] << 8) + frame->data[6];
             _incoming_bytes_received = 0;
             memset(_receive_buffer, 0, _receive_buffer_len);
             _receive_buffer_index = 0;
-            _expected_next_receive_sequence_num = 0;
+            _expected_next_receive_sequence_num = 1;
             // DEBUG_SERIAL << F("> L: received header packet for stream id = ") << _receive_stream_id << F(", message length = ") << _incoming_message_length << F(", user buffer len = ") << _receive_buffer_len << endl;
             break;
           }
@@ -208,6 +207,11 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
       {
         // and it's the expected sequence id
 
+        _last_fragment_received = millis();
+
+        // the sequence number may wrap from 255 to 0, which is absolutely fine
+        ++_expected_next_receive_sequence_num;
+
         // DEBUG_SERIAL << F("> L: received continuation packet, seq = ") << _expected_next_receive_sequence_num << endl;
 
         // for each of the maximum five payload bytes, up to the total message length and the user buffer length
@@ -261,9 +265,6 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
     }
 	}	// it's a continuation fragment
 
-	// the sequence number may wrap from 255 to 0, which is absolutely fine
-	++_expected_next_receive_sequence_num;
-
 	/// finally, once the message has been completely received ...
 
 	if (_incoming_message_length > 0 && _incoming_bytes_received >= _incoming_message_length)
-- 
2.43.0


From 37175f190cf93f407559d15ad71ade1562ec256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:23 +0000
Subject: [PATCH 12/28] fix: receive long messages with more than 255 fragments

---
 src/LongMessageService.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LongMessageService.h b/src/LongMessageService.h
index 87855d3..d88e378 100644
--- a/src/LongMessageService.h
+++ b/src/LongMessageService.h
@@ -65,7 +65,8 @@ protected:
   byte _msg_delay = LONG_MESSAGE_DEFAULT_DELAY;
   unsigned int _send_buffer_len = 0, _incoming_message_length = 0, _receive_buffer_len = 0, _receive_buffer_index = 0;
   unsigned int _send_buffer_index = 0, _incoming_message_crc = 0, _incoming_bytes_received = 0;
-  unsigned int _receive_timeout = LONG_MESSAGE_RECEIVE_TIMEOUT, _send_sequence_num = 0, _expected_next_receive_sequence_num = 0;
+  unsigned int _receive_timeout = LONG_MESSAGE_RECEIVE_TIMEOUT, _send_sequence_num = 0;
+  byte _expected_next_receive_sequence_num = 0;                          // wraps like the sequence number in the fragments
   unsigned long _last_fragment_sent = 0UL, _last_fragment_received = 0UL;
 
   void (*_messagehandler)(void *fragment, const unsigned int fragment_len, const byte stream_id, const byte status);        // user callback function to receive long message fragments
-- 
2.43.0


From 309207937cde8d5a1f17e37fe038ccfc1288be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:47 +0000
Subject: [PATCH 13/28] fix: complete long messages of zero length

---
 src/LongMessageService.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 5700518..05445d5 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -182,6 +182,12 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
             _receive_buffer_index = 0;
             _expected_next_receive_sequence_num = 1;
             // DEBUG_SERIAL << F("> L: received header packet for stream id = ") << _receive_stream_id << F(", message length = ") << _incoming_message_length << F(", user buffer len = ") << _receive_buffer_len << endl;
+            if (_incoming_message_length == 0)
+            {
+              // an empty message has no continuation packets
+              _is_receiving = false;
+              (void) (*_messagehandler)(_receive_buffer, 0, _receive_stream_id, LONG_MESSAGE_COMPLETE);
+            }
             break;
           }
         }
@@ -452,6 +458,13 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 	bool ret = sendMessageFragment(&frame);					// send the header packet
 	_send_context[i]->send_sequence_num = 1;																	  			// the next send sequence number - it's fine if it wraps around
 
+	// an empty message has no continuation packets
+	if (msg_len == 0)
+  {
+		_send_context[i]->in_use = false;
+		free(_send_context[i]->buffer);
+	}
+
 	// DEBUG_SERIAL << F("> Lex: message header sent, stream id = ") << stream_id << F(", message length = ") << msg_len << F(", ret = ") << ret << endl;
 	return (ret);
 }
@@ -605,6 +618,12 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
             _receive_context[i]->receive_buffer_index = 0;
             _receive_context[i]->expected_next_receive_sequence_num = 1;
             _receive_context[i]->last_fragment_received = millis();
+            if (_receive_context[i]->incoming_message_length == 0)
+            {
+              // an empty message has no continuation packets
+              _receive_context[i]->in_use = false;
+              (void) (*_messagehandler)(_receive_context[i]->buffer, 0, _receive_context[i]->receive_stream_id, LONG_MESSAGE_COMPLETE);
+            }
             // DEBUG_SERIAL << F("> Lex: received header packet for stream id = ") << _receive_context[i]->receive_stream_id << F(", message length = ") << _receive_context[i]->incoming_message_length << endl;
           }
           else
-- 
2.43.0


From 7c97a19b549d5f5e27e3e8c1d7dc3771b054fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 14/28] fix: refuse a long message when all send contexts are
 in use

---
 src/LongMessageService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 05445d5..254a5b9 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -424,7 +424,7 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 		}
 	}
 
-	if (i > _num_send_contexts)
+	if (i >= _num_send_contexts)
   {
 		// DEBUG_SERIAL << F("> Lex: ERROR: unable to find free send context") << endl;
 		return false;
@@ -497,7 +497,7 @@ bool LongMessageServiceEx::process()
 
 	/// send the next outgoing fragment from each active context, after a configurable delay to avoid flooding the bus
 	/// concurrent streams will be interleaved
-	if (_send_context[context]->in_use && millis() - _send_context[context]->last_fragment_sent >= _msg_delay)
+	if (_num_send_contexts > 0 && _send_context[context]->in_use && millis() - _send_context[context]->last_fragment_sent >= _msg_delay)
   {
 		// DEBUG_SERIAL << F("> Lex: processing send context = ") << context << endl;
 
-- 
2.43.0


From 7d30eedda8c6124c46f7e9f4191a572166931272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 15/28] fix: send long messages that contain zero bytes

---
 src/LongMessageService.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 254a5b9..5dd27cf 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -433,9 +433,14 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 	// DEBUG_SERIAL << F("> Lex: using send context = ") << i << endl;
 
 	// initialise context
-	_send_context[i]->in_use = true;
 	// _send_context[i]->buffer = (byte *)msg;
-	_send_context[i]->buffer = (byte *)strdup((char *)msg);														// copy the message to the send content, will free later
+	_send_context[i]->buffer = (byte *)malloc(msg_len > 0 ? msg_len : 1);														// copy the message to the send content, will free later
+	if (_send_context[i]->buffer == NULL)
+  {
+		return false;
+	}
+	memcpy(_send_context[i]->buffer, msg, msg_len);
+	_send_context[i]->in_use = true;
 	_send_context[i]->send_buffer_len = msg_len;
 	_send_context[i]->send_stream_id = stream_id;
   _send_context[i]->send_buffer_index = 0;
-- 
2.43.0


From 2c509dde56d6ae15e7e128f0a0c866936687f1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:49 +0000
Subject: [PATCH 16/28] fix: give each extended long message service its own
 send position

---
 src/LongMessageService.cpp | 2 +-
 src/LongMessageService.h   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 5dd27cf..c9cd97f 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -484,7 +484,7 @@ bool LongMessageServiceEx::process()
 	byte i;
 	VlcbMessage frame;
 
-	static byte context = 0;				// we round-robin the context list when sending
+	byte &context = _next_send_context;				// we round-robin the context list when sending
 
 	/// check receive timeout for each active context
 
diff --git a/src/LongMessageService.h b/src/LongMessageService.h
index d88e378..5abc577 100644
--- a/src/LongMessageService.h
+++ b/src/LongMessageService.h
@@ -112,6 +112,7 @@ private:
 
   bool _use_crc = false;
   byte _num_receive_contexts = NUM_EX_CONTEXTS, _num_send_contexts = NUM_EX_CONTEXTS;
+  byte _next_send_context = 0;
   receive_context_t **_receive_context = NULL;
   send_context_t **_send_context = NULL;
 };
-- 
2.43.0


From a54b31969455c959f7072af667316362f11bd305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 17/28] fix: do not report checksum errors when checking is off

---
 src/LongMessageService.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index c9cd97f..e3510ab 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -692,6 +692,8 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
       {
         // DEBUG_SERIAL << F("> Lex: message data has been fully consumed") << endl;
 
+        // a CRC of zero means that the sender has not calculated any
+        tmpcrc = _receive_context[i]->incoming_message_crc;
         if (_use_crc && _receive_context[i]->incoming_message_crc != 0)
         {
           // DEBUG_SERIAL << F("> Lex: calculating CRC16") << endl;
-- 
2.43.0


From 3f4575d6627b12af01a9db36b9393b1415b9931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:19 +0000
Subject: [PATCH 18/28] fix: use one receive context per stream, also when its
 sequence number wraps or it starts again

---
 src/LongMessageService.cpp | 34 +++++++++++++++++++++++-----------
 src/LongMessageService.h   |  3 ++-
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index e3510ab..c71ab5c 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -584,14 +584,33 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 	// DEBUG_SERIAL << F("> Lex: handling incoming message fragment") << endl;
 	// DEBUG_SERIAL.flush();
 
-  if (frame->data[2] == 0)
+  // find a receive context that is already receiving this stream
+  byte current;
+  for (current = 0; current < _num_receive_contexts; current++)
   {
-    // sequence zero = a header packet with start of new stream
+    if (_receive_context[current]->in_use && _receive_context[current]->receive_stream_id == frame->data[1])
+    {
+      break;
+    }
+  }
+
+  if (frame->data[2] == 0
+      && (current >= _num_receive_contexts || _receive_context[current]->expected_next_receive_sequence_num != 0))
+  {
+    // sequence zero = a header packet with start of new stream, unless the sequence number of this stream has wrapped
 
     if (frame->data[7] == 0)
     {
       // flags = 0, standard message
 
+      // the previous message of this stream, if not complete, ends here
+      if (current < _num_receive_contexts)
+      {
+        (void) (*_messagehandler)(_receive_context[current]->buffer, _receive_context[current]->receive_buffer_index,
+                                  _receive_context[current]->receive_stream_id, LONG_MESSAGE_SEQUENCE_ERROR);
+        _receive_context[current]->in_use = false;
+      }
+
       // DEBUG_SERIAL << F("> Lex: this is a data message header packet") << endl;
 
       for (i = 0; i < _num_stream_ids; i++)
@@ -651,15 +670,8 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 
     // DEBUG_SERIAL << F("> Lex: this is a continuation packet") << endl;
 
-    // find a matching receive context, using the stream ID and sender CANID
-    for (i = 0; i < _num_receive_contexts; i++)
-    {
-      if (_receive_context[i]->in_use && _receive_context[i]->receive_stream_id == frame->data[1])
-      {
-        // DEBUG_SERIAL << F("> Lex: found matching receive context = ") << i << endl;
-        break;
-      }
-    }
+    // use the matching receive context
+    i = current;
 
     // return if not found
     if (i >= _num_receive_contexts)
diff --git a/src/LongMessageService.h b/src/LongMessageService.h
index 5abc577..19e4c9a 100644
--- a/src/LongMessageService.h
+++ b/src/LongMessageService.h
@@ -81,7 +81,8 @@ struct receive_context_t {
   bool in_use;
   byte receive_stream_id;
   byte *buffer;
-  unsigned int receive_buffer_index, incoming_bytes_received, incoming_message_length, expected_next_receive_sequence_num, incoming_message_crc;
+  byte expected_next_receive_sequence_num;    // wraps like the sequence number in the fragments
+  unsigned int receive_buffer_index, incoming_bytes_received, incoming_message_length, incoming_message_crc;
   unsigned long last_fragment_received;
 };
 
-- 
2.43.0


From 9464c269c407a6a17bc2427c0b2b066243b9f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:59 +0000
Subject: [PATCH 19/28] fix: give each SerialGC transport its own receive
 position

---
 src/SerialGC.cpp | 1 -
 src/SerialGC.h   | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SerialGC.cpp b/src/SerialGC.cpp
index 4484e58..e5cd45f 100644
--- a/src/SerialGC.cpp
+++ b/src/SerialGC.cpp
@@ -33,7 +33,6 @@ namespace VLCB
   bool SerialGC::available()
   {
     bool result = false;
-    static int rxIndex = 0;
     if (serial.available())
     {     
       char c = serial.read();
diff --git a/src/SerialGC.h b/src/SerialGC.h
index 58a6090..5d612b3 100644
--- a/src/SerialGC.h
+++ b/src/SerialGC.h
@@ -46,6 +46,7 @@ namespace VLCB
     typeof(Serial)& serial;
 	
     char rxBuffer[RXBUFFERSIZE]; // Define a byte array to store the incoming data
+    int rxIndex = 0;             // number of characters of the current message stored in rxBuffer
     char txBuffer[RXBUFFERSIZE]; // Define a byte array to store the outgoing data
     CANFrame rxCANFrame;
 
-- 
2.43.0


From 72b2c20a13ec494eea93d88e83011f9a52c6e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 20/28] fix: write to the next flash page when a block crosses
 a page boundary

---
 src/FlashStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FlashStorage.cpp b/src/FlashStorage.cpp
index d24cf70..d557068 100644
--- a/src/FlashStorage.cpp
+++ b/src/FlashStorage.cpp
@@ -215,7 +215,7 @@ bool flash_write_bytes(const uint16_t address, const uint8_t *data, const uint16
       buffer_index = 0;                                 // set cache buffer index to zero
     }
 
-    cache_page.data[buffer_index + a] = data[a];
+    cache_page.data[buffer_index++] = data[a];
   }
 
   // set page dirty flag
-- 
2.43.0


From 4dd27ce67ae22450e33017b1e96ce19ee09795dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 21/28] fix: split block writes to external EEPROM at page and
 buffer limits

---
 src/EepromExternalStorage.cpp | 46 +++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/EepromExternalStorage.cpp b/src/EepromExternalStorage.cpp
index 24093ec..24c1cc0 100644
--- a/src/EepromExternalStorage.cpp
+++ b/src/EepromExternalStorage.cpp
@@ -118,24 +118,38 @@ void EepromExternalStorage::write(unsigned int eeaddress, byte data)
 //
 void EepromExternalStorage::writeBytes(unsigned int eeaddress, const byte src[], byte numbytes)
 {
-  // *** TODO *** handle greater than 32 bytes -> the Arduino I2C write buffer size
-  // max write = EEPROM pagesize - 64 bytes
+  // A write must not cross a page boundary in the EEPROM (the address would wrap to the start of the page)
+  // and must fit in the Arduino I2C buffer of 32 bytes together with the address.
+  // Thus write in blocks that are aligned to 16 bytes, which divides all common page sizes.
 
-  I2Cbus->beginTransmission(external_address);
-  I2Cbus->write((int) (eeaddress >> 8));   // MSB
-  I2Cbus->write((int) (eeaddress & 0xFF)); // LSB
-
-  for (byte i = 0; i < numbytes; i++)
-  {
-    I2Cbus->write(src[i]);
-  }
-
-  int r = I2Cbus->endTransmission();
-  delay(5);
-
-  if (r < 0)
+  while (numbytes > 0)
   {
-    // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    byte count = 16 - (eeaddress & 0x0F);
+    if (count > numbytes)
+    {
+      count = numbytes;
+    }
+
+    I2Cbus->beginTransmission(external_address);
+    I2Cbus->write((int) (eeaddress >> 8));   // MSB
+    I2Cbus->write((int) (eeaddress & 0xFF)); // LSB
+
+    for (byte i = 0; i < count; i++)
+    {
+      I2Cbus->write(src[i]);
+    }
+
+    int r = I2Cbus->endTransmission();
+    delay(5);
+
+    if (r < 0)
+    {
+      // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    }
+
+    eeaddress += count;
+    src += count;
+    numbytes -= count;
   }
 }
 
-- 
2.43.0


From a5de79cc701fc634f02e5ed760b805f7be21518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 22/28] fix: clear the configuration area on Due at a factory
 reset

---
 src/DueEepromEmulationStorage.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DueEepromEmulationStorage.cpp b/src/DueEepromEmulationStorage.cpp
index fdcaf75..b6343c4 100644
--- a/src/DueEepromEmulationStorage.cpp
+++ b/src/DueEepromEmulationStorage.cpp
@@ -90,7 +90,10 @@ void DueEepromEmulationStorage::setChipEEPROMVal(unsigned int eeaddress, byte va
 //
 void DueEepromEmulationStorage::reset()
 {
-
+  for (unsigned int addr = 10; addr < 4096; addr++)
+  {
+    write(addr, 0xff);
+  }
 }
 
-}
\ No newline at end of file
+}
-- 
2.43.0


From 565a9c847149c54ca88aa1e0131078cc66174c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:33 +0000
Subject: [PATCH 23/28] fix: keep the flash page cache consistent when begin()
 is called again

---
 src/FlashStorage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FlashStorage.cpp b/src/FlashStorage.cpp
index d557068..1a41ce9 100644
--- a/src/FlashStorage.cpp
+++ b/src/FlashStorage.cpp
@@ -31,6 +31,7 @@ void FlashStorage::begin()
   }
 
   // cache the first page into memory
+  curr_page_num = 0;
   flash_cache_page(0);
 #endif
 }
-- 
2.43.0


From d08d41bdf241f77014f5c300769a0110334025cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:19 +0000
Subject: [PATCH 24/28] fix: send NNREL before the factory reset restarts the
 module

---
 src/MinimumNodeService.cpp | 8 +++++++-
 src/MinimumNodeService.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/MinimumNodeService.cpp b/src/MinimumNodeService.cpp
index 326410c..6fc9526 100644
--- a/src/MinimumNodeService.cpp
+++ b/src/MinimumNodeService.cpp
@@ -154,6 +154,12 @@ void MinimumNodeService::process(const Action *action)
           break;
     }
   }
+  else if (resetPending)
+  {
+    // No more actions pending, so NNREL has been sent. The reset restarts the module.
+    resetPending = false;
+    controller->getModuleConfig()->resetModule();
+  }
 
   heartbeat();
 }
@@ -243,7 +249,7 @@ void MinimumNodeService::handleMessage(const VlcbMessage *msg)
       if (isThisNodeNumber(nn))
       {        
         controller->sendMessageWithNN(OPC_NNREL);  // release node number first
-        module_config->resetModule();        
+        resetPending = true;
       }
       break;
       
diff --git a/src/MinimumNodeService.h b/src/MinimumNodeService.h
index 87622bd..24423a5 100644
--- a/src/MinimumNodeService.h
+++ b/src/MinimumNodeService.h
@@ -44,6 +44,7 @@ private:
   unsigned long lastHeartbeat = 0;
   byte heartbeatSequence = 0;
   bool noHeartbeat = false;
+  bool resetPending = false;  // factory reset requested, done when all pending messages are sent
   unsigned int heartRate = 5000;
 
   void handleRequestNodeParameters();
-- 
2.43.0


From 9a845bbb9598cf147f81706a22573491625364df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:10 +0000
Subject: [PATCH 25/28] fix: resetting the CAN2515 keeps polling mode and SPI
 bus

reset() called begin() with its default arguments. A user who had started
the driver in polling mode, or on another SPI bus, got a driver that waits
for an interrupt on a pin that may not be connected and talks to the wrong
bus, so no more frames were received.
---
 src/CAN2515.cpp | 3 ++-
 src/CAN2515.h   | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CAN2515.cpp b/src/CAN2515.cpp
index 86fddef..519744d 100644
--- a/src/CAN2515.cpp
+++ b/src/CAN2515.cpp
@@ -42,6 +42,7 @@ bool CAN2515::begin(bool poll, SPIClass & spi)
   _numMsgsSent = 0;
   _numMsgsRcvd = 0;
   _poll = poll;
+  _spi = &spi;
 
   ACAN2515Settings settings(_osc_freq, CANBITRATE);
 
@@ -185,7 +186,7 @@ void CAN2515::reset()
 {
   canp->end();
   delete canp;
-  begin();
+  begin(_poll, *_spi);
 }
 
 //
diff --git a/src/CAN2515.h b/src/CAN2515.h
index 547b355..bc9a916 100644
--- a/src/CAN2515.h
+++ b/src/CAN2515.h
@@ -75,6 +75,9 @@ private:
 
 #ifdef ARDUINO_ARCH_RP2040
   byte _mosi_pin, _miso_pin, _sck_pin;
+  SPIClassRP2040 *_spi;
+#else
+  SPIClass *_spi;
 #endif
 };
 
-- 
2.43.0


From f8f32067df48563bef38da5008f0e5c2892e840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 26/28] fix: name the uninitialised mode

modeString() masked the mode with 7, so MODE_UNINITIALISED (0xFF) never
matched and an uninitialised module reported its mode as Unknown.
---
 src/Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index fe59598..c7e3dee 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -299,7 +299,7 @@ void Configuration::updateEvHashEntry(byte idx)
 // Return a readable string for a mode value
 const char * Configuration::modeString(VlcbModeParams mode)
 {
-  switch (mode & 0x07)
+  switch (mode)
   {
     case MODE_NORMAL: return "Normal";
     case MODE_UNINITIALISED: return "Uninitialised";
-- 
2.43.0


From 5468eb4a23a85b594befee069292042377b0dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:11 +0000
Subject: [PATCH 27/28] fix: listing 255 node variables ends

With EE_NUM_NVS at 255 the 8-bit loop counter of the serial command 'v'
wrapped to 0 and the listing never ended, which hung the module.
---
 src/SerialUserInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SerialUserInterface.cpp b/src/SerialUserInterface.cpp
index b3a52e1..af95525 100644
--- a/src/SerialUserInterface.cpp
+++ b/src/SerialUserInterface.cpp
@@ -111,7 +111,7 @@ void SerialUserInterface::processSerialInput()
         Serial << F("   NV   Val") << endl;
         Serial << F("  --------------------") << endl;
 
-        for (byte j = 1; j <= modconfig->EE_NUM_NVS; j++)
+        for (int j = 1; j <= modconfig->EE_NUM_NVS; j++)
         {
           byte v = modconfig->readNV(j);
           sprintf(msgstr, " - %02d : %3hd | 0x%02hx", j, v, v);
-- 
2.43.0


From 3446f389b6fbc1a01d6c29b5c08a1a5b6357ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:17 +0000
Subject: [PATCH 28/28] fix: let a module have 255 produced events without
 looping forever at set-up

---
 src/EventProducerService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index cdeb54b..d189ea7 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -33,7 +33,7 @@ void EventProducerService::begin()
 
 void EventProducerService::setProducedEvents()
 { 
-  for (byte i = 1; i <= controller->getModuleConfig()->EE_PRODUCED_EVENTS; i++)
+  for (unsigned int i = 1; i <= controller->getModuleConfig()->EE_PRODUCED_EVENTS; i++)
   {
     createDefaultEvent(i);    
   }    
-- 
2.43.0

