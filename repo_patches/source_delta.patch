From 17c960f1d97c2ae6bd1693e93f03aef349297844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:11 +0000
Subject: [PATCH 01/91] fix: do not look past the end of the framer buffer for
 an ASCII CRC

The check subtracted from the unsigned buffer size, so with fewer than ten
bytes buffered it never reported an incomplete message and read bytes that
were not received yet.
---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 0e363a0..f765873 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -318,7 +318,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             if (ucDataByte == OEM4_ASCII_CRC_DELIMITER)
             {
                 // Need to be able to check for *12345678CRLF
-                if (uiMyByteCount > clInternalFrameBuffer.size() - OEM4_ASCII_CRC_LENGTH - 2)
+                if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
                     return STATUS::INCOMPLETE;
-- 
2.43.0


From 2e83188af8214c4833b5b2d6415083f639b96030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:11 +0000
Subject: [PATCH 02/91] fix: return the whole payload of binary messages in
 payload-only mode

The header was skipped together with the first eight payload bytes.
---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index f765873..b63bd12 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -289,7 +289,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                         stMetaData_.uiLength = uiMyExpectedPayloadLength;
                         if (!bMetadataOnly_)
                         {
-                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) + OEM4_BINARY_CRC_LENGTH);
+                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) - OEM4_BINARY_CRC_LENGTH);
                             pclMyBuffer->copy_out(pucFrameBuffer_, stMetaData_.uiLength);
                             pclMyBuffer->erase_begin(uiMyExpectedPayloadLength + OEM4_BINARY_CRC_LENGTH);
                         }
-- 
2.43.0


From 2f9dabb711a19a8ce19c589ffc40f07104de4008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:33 +0000
Subject: [PATCH 03/91] fix: keep the format of a pending candidate inside the
 OEM framer

The framer used the caller's metadata as part of its state. A binary message
following a proprietary binary one was reported as proprietary, and a message
split over two calls with different metadata objects had no format.
---
 include/novatel_edie/decoders/oem/framer.hpp | 1 +
 src/decoders/oem/src/framer.cpp              | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/novatel_edie/decoders/oem/framer.hpp b/include/novatel_edie/decoders/oem/framer.hpp
index 083cb35..1e755d0 100644
--- a/include/novatel_edie/decoders/oem/framer.hpp
+++ b/include/novatel_edie/decoders/oem/framer.hpp
@@ -41,6 +41,7 @@ class Framer : public FramerBase
   private:
     NovAtelFrameState eMyFrameState{NovAtelFrameState::WAITING_FOR_SYNC};
 
+    HEADER_FORMAT eMyCandidateFormat{HEADER_FORMAT::UNKNOWN}; //!< Format of the candidate kept between calls
     uint32_t uiMyJsonObjectOpenBraces{0};
     uint32_t uiMyAbbrevAsciiHeaderPosition{0};
 
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index b63bd12..6eca6a8 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -52,6 +52,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
     // Dereferencing the pointer in the loop is expensive, so we cache the reference here
     const auto& clInternalFrameBuffer = *pclMyBuffer;
 
+    // The metadata is an output: whatever it holds must not influence how the candidate is framed
+    stMetaData_.eFormat = eMyFrameState == NovAtelFrameState::WAITING_FOR_SYNC ? HEADER_FORMAT::UNKNOWN : eMyCandidateFormat;
+
     // Loop buffer to complete NovAtel message
     while (eMyFrameState != NovAtelFrameState::COMPLETE_MESSAGE)
     {
@@ -64,6 +67,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 // If the data lands on the abbreviated header CRLF then it can be missed unless it's tested again when there is more data
                 if (stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII) { uiMyByteCount--; }
 
+                eMyCandidateFormat = stMetaData_.eFormat;
                 return STATUS::INCOMPLETE;
             }
 
@@ -321,6 +325,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
+                    eMyCandidateFormat = stMetaData_.eFormat;
                     return STATUS::INCOMPLETE;
                 }
 
@@ -380,6 +385,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                     uiMyByteCount--; // If the data lands on the header CRLF then it can be
                                      // missed unless it's tested again when there is more data
                     stMetaData_.uiLength = uiMyByteCount;
+                    eMyCandidateFormat = stMetaData_.eFormat;
                     return STATUS::INCOMPLETE;
                 }
                 // New line with abbrev data
@@ -414,6 +420,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uiMyByteCount--; // If the data lands on the header CRLF then it can be missed
                                  // unless it's tested again when there is more data
                 stMetaData_.uiLength = static_cast<uint32_t>(clInternalFrameBuffer.size());
+                eMyCandidateFormat = stMetaData_.eFormat;
                 return STATUS::INCOMPLETE;
             }
 
-- 
2.43.0


From 5bc9efaefb2ca7bb63696ea24698b577b9fd6062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:44 +0000
Subject: [PATCH 04/91] fix: resume framing inside ASCII data rejected for a
 non-ASCII byte

Everything from the sync byte up to the offending byte was given up at once, so
a valid message inside it was lost; all other rejections resume right behind
the sync bytes.
---
 src/decoders/oem/src/framer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 6eca6a8..2fa0248 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -87,11 +87,13 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
         if ((stMetaData_.eFormat == HEADER_FORMAT::ASCII || stMetaData_.eFormat == HEADER_FORMAT::SHORT_ASCII ||
              stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII || stMetaData_.eFormat == HEADER_FORMAT::NMEA ||
              stMetaData_.eFormat == HEADER_FORMAT::JSON) &&
-            ucDataByte > 127)
+            ucDataByte > 127 && eMyFrameState != NovAtelFrameState::WAITING_FOR_SYNC)
         {
+            // Resume the search right behind the sync byte, another message may start inside the rejected data
             stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
             ResetState();
-            uiMyByteCount--;
+            uiMyByteCount = OEM4_ASCII_SYNC_LENGTH;
+            continue;
         }
 
         switch (eMyFrameState)
-- 
2.43.0


From 023ea390a04eaef62f22c71df273bd1be58a2e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:05 +0000
Subject: [PATCH 05/91] fix: never write past the caller's buffer in the OEM
 framer

Unknown bytes preceding a sync byte were copied without looking at the size of
the buffer, more bytes were reported than handed out when it was small, and a
binary message was copied without a check when the buffer of the call that
completed it was smaller than that of the call that read its header.
---
 src/decoders/oem/src/framer.cpp | 40 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 2fa0248..e401047 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -55,6 +55,16 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
     // The metadata is an output: whatever it holds must not influence how the candidate is framed
     stMetaData_.eFormat = eMyFrameState == NovAtelFrameState::WAITING_FOR_SYNC ? HEADER_FORMAT::UNKNOWN : eMyCandidateFormat;
 
+    // Hand out unknown bytes, never more than the caller's buffer can take
+    auto returnUnknown = [&](const uint32_t uiUnknownBytes_) -> STATUS {
+        stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
+        stMetaData_.uiLength = std::min(uiUnknownBytes_, uiFrameBufferSize_);
+        if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, stMetaData_.uiLength); }
+        InitAttributes();
+        ResetState();
+        return stMetaData_.uiLength == 0 ? STATUS::BUFFER_FULL : STATUS::UNKNOWN;
+    };
+
     // Loop buffer to complete NovAtel message
     while (eMyFrameState != NovAtelFrameState::COMPLETE_MESSAGE)
     {
@@ -76,8 +86,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
 
             if (uiMyByteCount == 0) { return STATUS::BUFFER_EMPTY; }
 
-            if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount); }
-            return STATUS::UNKNOWN;
+            return returnUnknown(uiMyByteCount);
         }
 
         const unsigned char ucDataByte = clInternalFrameBuffer[uiMyByteCount++];
@@ -136,20 +145,8 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             }
 
             // If we have just encountered a sync byte and have read bytes before, we need to handle them
-            if (eMyFrameState != NovAtelFrameState::WAITING_FOR_SYNC && uiMyByteCount > 1)
-            {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount - 1); }
-                return STATUS::UNKNOWN;
-            }
-            if (uiMyByteCount > uiFrameBufferSize_)
-            {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiFrameBufferSize_); }
-                return STATUS::UNKNOWN;
-            }
+            if (eMyFrameState != NovAtelFrameState::WAITING_FOR_SYNC && uiMyByteCount > 1) { return returnUnknown(uiMyByteCount - 1); }
+            if (uiMyByteCount > uiFrameBufferSize_) { return returnUnknown(uiMyByteCount - 1); }
             break;
 
         case NovAtelFrameState::WAITING_FOR_BINARY_SYNC2:
@@ -290,6 +287,17 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             {
                 if (uiMyCalculatedCrc32 == 0)
                 {
+                    // The buffer may be smaller than the one provided when the header was read
+                    if (uiFrameBufferSize_ < (bMyPayloadOnly ? uiMyExpectedPayloadLength : uiMyExpectedMessageLength))
+                    {
+                        stMetaData_.uiLength = bMyPayloadOnly ? uiMyExpectedPayloadLength : uiMyExpectedMessageLength;
+                        uiMyByteCount = 0;
+                        uiMyExpectedPayloadLength = 0;
+                        uiMyExpectedMessageLength = 0;
+                        ResetState();
+                        return STATUS::BUFFER_FULL;
+                    }
+
                     if (bMyPayloadOnly)
                     {
                         stMetaData_.uiLength = uiMyExpectedPayloadLength;
-- 
2.43.0


From 68d5439dc0e6b1517855c6f6c733bd6e704e9847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:05 +0000
Subject: [PATCH 06/91] fix: accept NMEA messages of the documented minimum
 length

---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index e401047..2b15f52 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -530,7 +530,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
         case NovAtelFrameState::WAITING_FOR_NMEA_CRC: {
             if (ucDataByte == '\n')
             {
-                if (uiMyByteCount <= MIN_NMEA_MESSAGE_LENGTH) // Handling the case where the message is too short. e.g. $*<CR> will incorrectly frame.
+                if (uiMyByteCount < MIN_NMEA_MESSAGE_LENGTH) // Handling the case where the message is too short. e.g. $*<CR> will incorrectly frame.
                 {
                     uiMyByteCount = NMEA_SYNC_LENGTH;
                     uiMyExpectedPayloadLength = 0;
-- 
2.43.0


From 534d99d1a6ef8cbccf3bafa0ada839d5c9bd5d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:05 +0000
Subject: [PATCH 07/91] fix: require exactly *hh<CR><LF> at the end of a framed
 NMEA message

Extra characters between the delimiter and the checksum, a missing carriage
return or a half-numeric checksum were accepted.
---
 src/decoders/oem/src/framer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 2b15f52..edee112 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -546,7 +546,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + NMEA_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
+                // The line must end in exactly *hh<CR><LF>
+                if (clInternalFrameBuffer.search_char(OEM4_ASCII_CRC_DELIMITER, 0) + 1 == crcStartIndexInBuffer && IsCrlf(uiMyByteCount - 2) &&
+                    result.ec == std::errc() && result.ptr == acCrc + NMEA_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
                 {
                     uiMyByteCount = 0;
 
-- 
2.43.0


From a75e680925e443dd082726e61295ffca63856bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:05 +0000
Subject: [PATCH 08/91] fix: require eight hexadecimal digits in the CRC of
 framed ASCII messages

---
 include/novatel_edie/decoders/oem/framer_ascii_base.hpp | 2 +-
 src/decoders/oem/src/framer.cpp                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
index 8b84182..a6211d7 100644
--- a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
+++ b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
@@ -113,7 +113,7 @@ template <HEADER_FORMAT HeaderFormat, unsigned char SyncByte, size_t MaxMessageL
         auto result = std::from_chars(pCrcStart, pCrcStart + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
         auto uiCalcCrc = CalculateBlockCrc32(clFrameBuffer.data() + OEM4_ASCII_SYNC_LENGTH,
                                              static_cast<uint32_t>(frameEnd - OEM4_ASCII_SYNC_LENGTH - OEM4_ASCII_CRC_LENGTH - 3));
-        return result.ec == std::errc() && uiCalcCrc == uiMessageCrc ? 0 : OEM4_ASCII_SYNC_LENGTH;
+        return result.ec == std::errc() && result.ptr == pCrcStart + OEM4_ASCII_CRC_LENGTH && uiCalcCrc == uiMessageCrc ? 0 : OEM4_ASCII_SYNC_LENGTH;
     }
 
     //----------------------------------------------------------------------------
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index edee112..3878f2c 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -485,7 +485,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
+                if (result.ec == std::errc() && result.ptr == acCrc + OEM4_ASCII_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
                 {
                     uiMyByteCount = 0;
 
-- 
2.43.0


From 03371cde956949cbd349b687e6b91e6472501a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:38 +0000
Subject: [PATCH 09/91] fix: do not frame an abbreviated ASCII response before
 its line feed

A response whose CR was the last byte received was returned with one byte more
than the buffer held.
---
 src/decoders/oem/src/framer_abb_ascii.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 6563a8b..ee074df 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -71,7 +71,8 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
 
     // Step 1: Parse the first line (header/response line)
     const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
-    if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
+    // The search also reports a lone CR at the end of the buffer, whose LF may still be on its way
+    if (headerCrlfIndex == UCharFixedBuffer::npos || !IsCrlf(static_cast<uint32_t>(headerCrlfIndex))) { return midLineIncomplete(); }
 
     if (IsAbbrevAsciiResponse()) { return Result{ReturnStatus::RESPONSE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex + 2}; }
 
-- 
2.43.0


From cd9ed04f8c756c9bf546fda9933907ffb4be1eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:38 +0000
Subject: [PATCH 10/91] fix: do not take an abbreviated ASCII body line for a
 header after a split

With '<' and the space arriving in different writes the line became the header
of a message.
---
 src/decoders/oem/src/framer_abb_ascii.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index ee074df..63c6e61 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -69,6 +69,12 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
                                                                 : Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, clFrameBuffer.size()};
     };
 
+    // A body line is not a header. FindSync could not tell if the second character had not been received yet
+    if (clFrameBuffer.size() > 1 && clFrameBuffer[1] == OEM4_ABBREV_ASCII_SEPARATOR)
+    {
+        return Result{ReturnStatus::INVALID, HEADER_FORMAT::UNKNOWN, OEM4_ASCII_SYNC_LENGTH};
+    }
+
     // Step 1: Parse the first line (header/response line)
     const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
     // The search also reports a lone CR at the end of the buffer, whose LF may still be on its way
-- 
2.43.0


From 2dc6fd50700b01d53b35bfeea750ed85c1e3d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:14 +0000
Subject: [PATCH 11/91] fix: apply the maximum ASCII message length
 independently of chunking

The length limit was counted from where the search was resumed, so an over-long
message was rejected when written at once but framed when it arrived in pieces.
---
 .../novatel_edie/decoders/oem/framer_ascii_base.hpp |  8 ++++++--
 src/decoders/oem/src/framer_abb_ascii.cpp           | 13 ++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
index a6211d7..741216a 100644
--- a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
+++ b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
@@ -82,10 +82,14 @@ template <HEADER_FORMAT HeaderFormat, unsigned char SyncByte, size_t MaxMessageL
         const auto& clFrameBuffer = *pclMyBuffer;
         const auto uiBufferSize = clFrameBuffer.size();
         constexpr size_t uiCrcTrailerLength = OEM4_ASCII_CRC_LENGTH + 3; // Delimiter + CRC + CRLF
-        auto uiCrcDelimIndex = clFrameBuffer.search_char(OEM4_ASCII_CRC_DELIMITER, start, MaxMessageLength);
+        // The delimiter must be within the maximum message length, wherever the search is resumed
+        auto searchDelim = [&clFrameBuffer](const size_t from) {
+            return from < MaxMessageLength ? clFrameBuffer.search_char(OEM4_ASCII_CRC_DELIMITER, from, MaxMessageLength - from) : UCharFixedBuffer::npos;
+        };
+        auto uiCrcDelimIndex = searchDelim(start);
         while (uiCrcDelimIndex != UCharFixedBuffer::npos && uiBufferSize - uiCrcDelimIndex >= uiCrcTrailerLength && !IsAsciiCrc(uiCrcDelimIndex + 1))
         {
-            uiCrcDelimIndex = clFrameBuffer.search_char(OEM4_ASCII_CRC_DELIMITER, uiCrcDelimIndex + 1, MaxMessageLength);
+            uiCrcDelimIndex = searchDelim(uiCrcDelimIndex + 1);
         }
 
         if (uiCrcDelimIndex == UCharFixedBuffer::npos)
diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 63c6e61..5590dd1 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -92,13 +92,20 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
     }
 
     // Step 3: Parse body lines
-    size_t uiCrlfIndex = clFrameBuffer.search_chars(crlf, std::max(start, bodyStart), MAX_ASCII_MESSAGE_LENGTH);
+    // The line ends must be within the maximum message length, wherever the search is resumed
+    auto searchCrlf = [&clFrameBuffer, &crlf](const size_t from) {
+        return from < MAX_ASCII_MESSAGE_LENGTH ? clFrameBuffer.search_chars(crlf, from, MAX_ASCII_MESSAGE_LENGTH - from) : UCharFixedBuffer::npos;
+    };
+    size_t uiCrlfIndex = searchCrlf(std::max(start, bodyStart));
     while (uiCrlfIndex != UCharFixedBuffer::npos && clFrameBuffer.size() > uiCrlfIndex + 3 && IsBodyLine(uiCrlfIndex + 2))
     {
-        uiCrlfIndex = clFrameBuffer.search_chars(crlf, uiCrlfIndex + 1, MAX_ASCII_MESSAGE_LENGTH);
+        uiCrlfIndex = searchCrlf(uiCrlfIndex + 1);
     }
 
-    if (uiCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
+    if (uiCrlfIndex == UCharFixedBuffer::npos || (clFrameBuffer.size() > uiCrlfIndex + 1 && !IsCrlf(static_cast<uint32_t>(uiCrlfIndex))))
+    {
+        return midLineIncomplete();
+    }
 
     if (clFrameBuffer.size() <= uiCrlfIndex + 3) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, uiCrlfIndex}; }
 
-- 
2.43.0


From 356b0e0c83e3885cce200f11d9d25a48e05bd4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:42 +0000
Subject: [PATCH 12/91] fix: never write past the caller's buffer when handing
 out unknown bytes

---
 src/decoders/common/src/framer.cpp         | 10 +++++++++-
 src/decoders/common/src/framer_manager.cpp |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/framer.cpp b/src/decoders/common/src/framer.cpp
index 66d3d06..3e8f4d0 100644
--- a/src/decoders/common/src/framer.cpp
+++ b/src/decoders/common/src/framer.cpp
@@ -26,6 +26,8 @@
 
 #include "novatel_edie/decoders/common/framer.hpp"
 
+#include <algorithm>
+
 using namespace novatel::edie;
 
 [[nodiscard]] STATUS FramerBase::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, MetaDataBase& stMetaData_, bool bMetadataOnly_)
@@ -36,10 +38,16 @@ using namespace novatel::edie;
     const auto& clInternalFrameBuffer = *pclMyBuffer;
     if (clInternalFrameBuffer.empty()) { return STATUS::BUFFER_EMPTY; }
 
-    // Helper to set metadata and handle unknown bytes
+    // Helper to set metadata and handle unknown bytes, never more than the caller's buffer can take
     auto handleUnknown = [&](uint32_t length) -> STATUS {
+        length = std::min(length, uiFrameBufferSize_);
         stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
         stMetaData_.uiLength = length;
+        if (uiFrameBufferSize_ == 0)
+        {
+            uiMyByteCount = 0;
+            return STATUS::BUFFER_FULL;
+        }
         if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, length); }
         return STATUS::UNKNOWN;
     };
diff --git a/src/decoders/common/src/framer_manager.cpp b/src/decoders/common/src/framer_manager.cpp
index 8fb41bb..1923523 100644
--- a/src/decoders/common/src/framer_manager.cpp
+++ b/src/decoders/common/src/framer_manager.cpp
@@ -152,6 +152,8 @@ STATUS FramerManager::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameB
         if (bestFramerIndex == registrySize)
         {
             assert(bestOffset > 0 && bestOffset <= static_cast<uint32_t>(pclMyFixedBuffer->size()));
+            bestOffset = std::min(bestOffset, uiFrameBufferSize_);
+            if (bestOffset == 0) { return STATUS::BUFFER_FULL; }
             HandleUnknownBytes(pucFrameBuffer_, bestOffset);
             stMyMetaData.uiLength = bestOffset;
             stMyMetaData.eFormat = HEADER_FORMAT::UNKNOWN;
-- 
2.43.0


From 26f83855d305a2774497b90ff5f17185411979c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 13/91] fix: take filter times and periods given in seconds to
 the nearest millisecond

---
 src/decoders/oem/src/filter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index fecf1d6..1b32d53 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -27,6 +27,7 @@
 #include "novatel_edie/decoders/oem/filter.hpp"
 
 #include <algorithm>
+#include <cmath>
 
 using namespace novatel::edie;
 using namespace novatel::edie::oem;
@@ -55,7 +56,7 @@ void Filter::SetIncludeLowerTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterLowerTime = true;
     uiMyLowerWeek = uiWeek_;
-    uiMyLowerMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyLowerMSec = static_cast<uint32_t>(std::llround(dSec_ * 1000.0));
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -63,7 +64,7 @@ void Filter::SetIncludeUpperTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterUpperTime = true;
     uiMyUpperWeek = uiWeek_;
-    uiMyUpperMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyUpperMSec = static_cast<uint32_t>(std::llround(dSec_ * 1000.0));
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -88,7 +89,7 @@ void Filter::ClearTimeBounds()
 // -------------------------------------------------------------------------------------------------------
 void Filter::SetIncludeDecimation(double dPeriodSec_)
 {
-    SetIncludeDecimationMs(static_cast<uint32_t>(dPeriodSec_ * 1000.0)); // Convert provided seconds to MSec
+    SetIncludeDecimationMs(static_cast<uint32_t>(std::llround(dPeriodSec_ * 1000.0))); // Convert provided seconds to MSec
 }
 
 void Filter::SetIncludeDecimationMs(uint32_t dPeriodMSec_)
-- 
2.43.0


From 1c3f1fe1e2301172f0c7aa8a5fcc0fdaefb43c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 14/91] fix: do not divide by a decimation period of zero

---
 src/decoders/oem/src/filter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index 1b32d53..085473f 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -288,6 +288,8 @@ bool Filter::FilterMessage(const MetaDataStruct& stMetaData_) const
 // -------------------------------------------------------------------------------------------------------
 bool Filter::FilterDecimation(const MetaDataStruct& stMetaData_) const
 {
+    if (uiMyDecimationPeriodMilliSec == 0) { return true; } // A period of zero selects nothing
+
     return !bMyDecimate || bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
 }
 
-- 
2.43.0


From 4aeafe87d5a0f4b2721bbe9e8bd87fbb30e036ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 15/91] fix: do not carry header fields over from a previously
 decoded message

---
 src/decoders/oem/src/header_decoder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 55a5a2d..10768b5 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -283,6 +283,9 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
 
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
+    // The header is an output: fields that the format does not carry must not keep the values of a previous message
+    stInterHeader_ = IntermediateHeader{};
+
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
     auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
 
-- 
2.43.0


From 486a50ea980cc3b6128c26b030b381c3de590100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 16/91] fix: report the metadata of an abbreviated ASCII
 response, not that of the message before it

---
 src/decoders/oem/src/header_decoder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 10768b5..5d61235 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -329,6 +329,13 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         {
             stMetaData_.bResponse = true;
             stMetaData_.messageName = "UNKNOWN";
+            stMetaData_.usMessageId = stInterHeader_.usMessageId;
+            stMetaData_.ucSiblingId = NULL_SIBLING_ID;
+            stMetaData_.eTimeStatus = TIME_STATUS::UNKNOWN;
+            stMetaData_.usWeek = stInterHeader_.usWeek;
+            stMetaData_.dMilliseconds = stInterHeader_.dMilliseconds;
+            stMetaData_.uiMessageCrc = stInterHeader_.uiMessageDefinitionCrc;
+            stMetaData_.uiBinaryMsgLength = stInterHeader_.usLength;
             stMetaData_.uiHeaderLength = static_cast<uint32_t>(pcTempBuf - reinterpret_cast<const char*>(pucLogBuf_));
             stInterHeader_.ucMessageType = static_cast<uint8_t>(MESSAGE_TYPE_MASK::RESPONSE);
 
-- 
2.43.0


From 960ca19f6135098c9f9974ee67084b06780f2b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 17/91] fix: rebuild the layout of nested field arrays for the
 message family of the database

---
 .../decoders/common/message_database.hpp      | 19 ++++++++-----------
 src/decoders/common/src/message_database.cpp  | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 0b78fa2..200fed7 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -767,22 +767,16 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void AppendMessages(const std::vector<MessageDefinition::ConstPtr>& vMessageDefinitions_)
     {
+        const std::string messageFamily = pDbMetadata ? pDbMetadata->messageFamily : "";
+
         for (const auto& msgDef : vMessageDefinitions_)
         {
             RemoveMessage(msgDef->logID);
 
+            // BaseFields are deep-copied by the MessageDefinition copy constructor, so the FieldInfo can be
+            // rebuilt to ensure field indices match our message family.
             MessageDefinition::Ptr copy = std::make_shared<MessageDefinition>(*msgDef);
-
-            // Rebuild FieldInfo to ensure field indices match our message family
-            for (const auto& [crc, fields] : copy->fieldInfo)
-            {
-                // BaseFields were already deep-copied by the MessageDefinition copy constructor, but we need to
-                // cast off constness to rebuild field definitions with this DB's message family.
-                std::vector<BaseField::Ptr> fieldVec;
-                fieldVec.reserve(fields->messageOrderedFields.size());
-                for (const auto& f : fields->messageOrderedFields) { fieldVec.emplace_back(std::const_pointer_cast<BaseField>(f)); }
-                copy->fieldInfo[crc] = BuildFieldInfo(std::move(fieldVec), pDbMetadata ? pDbMetadata->messageFamily : "");
-            }
+            for (auto& [crc, fields] : copy->fieldInfo) { fields = RebuildFieldInfo(*fields, messageFamily); }
 
             vMessageDefinitions.push_back(copy);
         }
@@ -947,6 +941,9 @@ class MessageDatabase
     }
 
   private:
+    //! Rebuild the layout of a copied FieldInfo, and of the field arrays nested in it, for a message family.
+    static FieldInfo::ConstPtr RebuildFieldInfo(const FieldInfo& fields_, const std::string& messageFamily_);
+
     void MapMessageEnumFields(const std::vector<BaseField::ConstPtr>& vMsgDefFields_)
     {
         for (const auto& field : vMsgDefFields_)
diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index d516881..eb4bc43 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -182,6 +182,21 @@ std::unordered_map<std::string, std::function<size_t(const size_t, const uintptr
     return alignmentFunctions;
 }
 
+// -------------------------------------------------------------------------------------------------------
+FieldInfo::ConstPtr MessageDatabase::RebuildFieldInfo(const FieldInfo& fields_, const std::string& messageFamily_)
+{
+    std::vector<BaseField::Ptr> fieldVec;
+    fieldVec.reserve(fields_.messageOrderedFields.size());
+    for (const auto& f : fields_.messageOrderedFields)
+    {
+        const auto field = std::const_pointer_cast<BaseField>(f);
+        const auto fieldArray = std::dynamic_pointer_cast<FieldArrayField>(field);
+        if (fieldArray && fieldArray->fieldInfo) { fieldArray->fieldInfo = RebuildFieldInfo(*fieldArray->fieldInfo, messageFamily_); }
+        fieldVec.emplace_back(field);
+    }
+    return BuildFieldInfo(std::move(fieldVec), messageFamily_);
+}
+
 // ---------------------------------------------------------------------------
 FieldInfo::ConstPtr BuildFieldInfo(std::vector<BaseField::Ptr> fields, std::string messageFamily)
 {
-- 
2.43.0


From 483c17ebde113086a6a533ad71a054898bef0b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 18/91] fix: setting the message family of a database leaves
 its copies alone

---
 include/novatel_edie/decoders/common/message_database.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 200fed7..1356440 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -885,7 +885,8 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void SetMessageFamily(const std::string& messageFamily_)
     {
-        if (!pDbMetadata) { pDbMetadata = std::make_shared<DbMetadata>(); }
+        // Copies of this database share the metadata, so change a copy of it.
+        pDbMetadata = pDbMetadata ? std::make_shared<DbMetadata>(*pDbMetadata) : std::make_shared<DbMetadata>();
         pDbMetadata->messageFamily = messageFamily_;
         const auto previousMessageDefinitions = std::move(vMessageDefinitions);
         vMessageDefinitions.clear();
-- 
2.43.0


From 5e1df7c673e48744e5c1ad62a6fec100e823f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 19/91] fix: convert message names with two-digit sibling IDs
 and empty names to message IDs

---
 src/decoders/common/src/message_database.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index eb4bc43..216dbd4 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -64,10 +64,17 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
     uint32_t uiResponse;
 
     // Ingest the sibling information, i.e. the _1 from LOGNAMEA_1
-    if (sMsgName_.find_last_of('_') != std::string::npos && sMsgName_.find_last_of('_') == sMsgName_.size() - 2)
+    const size_t separator = sMsgName_.find_last_of('_');
+    if (separator != std::string::npos)
     {
-        uiSiblingId = static_cast<uint32_t>(ToDigit(sMsgName_.back()));
-        sMsgName_.resize(sMsgName_.size() - 2);
+        const std::string sSibling = sMsgName_.substr(separator + 1);
+        const bool bIsNumber = !sSibling.empty() && sSibling.size() <= 2 && sSibling.find_first_not_of("0123456789") == std::string::npos;
+        constexpr uint32_t uiMaxSiblingId = static_cast<uint32_t>(MESSAGE_TYPE_MASK::MEASSRC);
+        if (bIsNumber && std::stoul(sSibling) <= uiMaxSiblingId)
+        {
+            uiSiblingId = static_cast<uint32_t>(std::stoul(sSibling));
+            sMsgName_.resize(separator);
+        }
     }
 
     // If this is an abbrev msg (no format information), we will be able to find the MsgDef
@@ -80,6 +87,8 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
         return CreateMsgId(pclMessageDef->logID, uiSiblingId, uiMsgFormat, uiResponse);
     }
 
+    if (sMsgName_.empty()) { return 0; }
+
     switch (sMsgName_.back())
     {
     case 'R': // ASCII Response
-- 
2.43.0


From bb08fbd0f2fa4497f3fcf2b2a90146e2586085a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 20/91] fix: keep names, enum IDs and enum references of a
 message database current after every edit

---
 .../decoders/common/message_database.hpp      | 28 +++++++++++++-
 src/decoders/common/src/message_database.cpp  | 38 ++++++++++++++++---
 2 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 1356440..c2da5b8 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -792,11 +792,12 @@ class MessageDatabase
     {
         for (const auto& enmDef : vEnumDefinitions_)
         {
-            RemoveEnumeration(enmDef->name);
+            EraseEnumeration(enmDef->name);
             vEnumDefinitions.push_back(enmDef);
             mEnumName[enmDef->name] = enmDef;
             mEnumId[enmDef->_id] = enmDef;
         }
+        GenerateMessageMappings(); // Enum fields must refer to the enumerations now in the database
     }
 
     //----------------------------------------------------------------------------
@@ -931,6 +932,9 @@ class MessageDatabase
         mMessageId.clear();
         for (auto& msg : vMessageDefinitions)
         {
+            // Definitions are shared with copies of this database and with users, who must not see them change.
+            if (msg.use_count() > 1 && !EnumFieldsAreMapped(*msg)) { msg = std::make_shared<MessageDefinition>(*msg); }
+
             mMessageName[msg->name] = msg;
             mMessageId[msg->logID] = msg;
 
@@ -942,9 +946,31 @@ class MessageDatabase
     }
 
   private:
+    //! Remove an enumeration without updating the enum fields of the messages. Returns whether there was one.
+    bool EraseEnumeration(std::string_view strEnumeration_);
+
     //! Rebuild the layout of a copied FieldInfo, and of the field arrays nested in it, for a message family.
     static FieldInfo::ConstPtr RebuildFieldInfo(const FieldInfo& fields_, const std::string& messageFamily_);
 
+    [[nodiscard]] bool EnumFieldsAreMapped(const MessageDefinition& msg_) const
+    {
+        return std::all_of(msg_.fieldInfo.begin(), msg_.fieldInfo.end(),
+                           [this](const auto& item_) { return EnumFieldsAreMapped(item_.second->messageOrderedFields); });
+    }
+
+    [[nodiscard]] bool EnumFieldsAreMapped(const std::vector<BaseField::ConstPtr>& vMsgDefFields_) const
+    {
+        return std::all_of(vMsgDefFields_.begin(), vMsgDefFields_.end(), [this](const auto& field_) {
+            if (field_->type == FIELD_TYPE::ENUM)
+            {
+                const auto* enumField = dynamic_cast<const EnumField*>(field_.get());
+                return enumField == nullptr || enumField->enumDef == GetEnumDefId(enumField->enumId);
+            }
+            const auto* fieldArray = field_->type == FIELD_TYPE::FIELD_ARRAY ? dynamic_cast<const FieldArrayField*>(field_.get()) : nullptr;
+            return fieldArray == nullptr || EnumFieldsAreMapped(fieldArray->fieldInfo->messageOrderedFields);
+        });
+    }
+
     void MapMessageEnumFields(const std::vector<BaseField::ConstPtr>& vMsgDefFields_)
     {
         for (const auto& field : vMsgDefFields_)
diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index 216dbd4..921789c 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -37,23 +37,51 @@ void MessageDatabase::RemoveMessage(const uint32_t iMsgId_)
 {
     auto iTer = GetMessageIt(iMsgId_);
 
-    if (iTer != vMessageDefinitions.end())
+    while (iTer != vMessageDefinitions.end())
     {
-        RemoveMessageMapping(**iTer);
+        const MessageDefinition::ConstPtr removed = *iTer;
+        RemoveMessageMapping(*removed);
         vMessageDefinitions.erase(iTer);
+
+        // The name may still belong to another message.
+        for (const auto& msg : vMessageDefinitions)
+        {
+            if (msg->name == removed->name) { mMessageName.insert_or_assign(msg->name, msg); }
+        }
+
+        iTer = GetMessageIt(iMsgId_);
     }
 }
 
 //-----------------------------------------------------------------------
 void MessageDatabase::RemoveEnumeration(std::string_view strEnumeration_)
 {
-    const auto iTer = GetEnumIt(strEnumeration_);
+    if (EraseEnumeration(strEnumeration_)) { GenerateMessageMappings(); }
+}
 
-    if (iTer != vEnumDefinitions.end())
+//-----------------------------------------------------------------------
+bool MessageDatabase::EraseEnumeration(std::string_view strEnumeration_)
+{
+    bool erased = false;
+    auto iTer = GetEnumIt(strEnumeration_);
+
+    while (iTer != vEnumDefinitions.end())
     {
-        RemoveEnumerationMapping(**iTer);
+        const EnumDefinition::ConstPtr removed = *iTer;
+        RemoveEnumerationMapping(*removed);
         vEnumDefinitions.erase(iTer);
+        erased = true;
+
+        // The ID may still belong to another enumeration.
+        for (const auto& enm : vEnumDefinitions)
+        {
+            if (enm->_id == removed->_id) { mEnumId.insert_or_assign(enm->_id, enm); }
+        }
+
+        iTer = GetEnumIt(removed->name);
     }
+
+    return erased;
 }
 
 //-----------------------------------------------------------------------
-- 
2.43.0


From 837f39331b1376c61e8776f11d917da55ad594cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 21/91] fix: allow a database to be merged with itself

---
 include/novatel_edie/decoders/common/message_database.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index c2da5b8..b780c45 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -769,7 +769,8 @@ class MessageDatabase
     {
         const std::string messageFamily = pDbMetadata ? pDbMetadata->messageFamily : "";
 
-        for (const auto& msgDef : vMessageDefinitions_)
+        const auto newDefinitions = vMessageDefinitions_; // The given list may be this database's own, which changes below
+        for (const auto& msgDef : newDefinitions)
         {
             RemoveMessage(msgDef->logID);
 
@@ -790,7 +791,8 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void AppendEnumerations(const std::vector<EnumDefinition::ConstPtr>& vEnumDefinitions_)
     {
-        for (const auto& enmDef : vEnumDefinitions_)
+        const auto newDefinitions = vEnumDefinitions_; // The given list may be this database's own, which changes below
+        for (const auto& enmDef : newDefinitions)
         {
             EraseEnumeration(enmDef->name);
             vEnumDefinitions.push_back(enmDef);
-- 
2.43.0


From 157ca4b5ad038412591ca7c2ac17932e9399c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 22/91] fix: keep the sibling ID of a message when its JSON
 header is decoded

---
 src/decoders/oem/src/header_decoder.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 5d61235..278d7c2 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -224,6 +224,18 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     int64_t messageId;
     if (clJsonHeader_["id"].get(messageId) == simdjson::SUCCESS) { stInterHeader_.usMessageId = static_cast<uint16_t>(messageId); }
 
+    // The sibling ID is only present as a suffix of the message name
+    std::string_view messageName;
+    if (clJsonHeader_["message"].get(messageName) == simdjson::SUCCESS)
+    {
+        uint16_t usLogId = 0;
+        uint32_t uiSiblingId = NULL_SIBLING_ID;
+        uint32_t uiMsgFormat = 0;
+        uint32_t uiResponse = 0;
+        UnpackMsgId(pclMyMsgDb->MsgNameToMsgId(std::string(messageName)), usLogId, uiSiblingId, uiMsgFormat, uiResponse);
+        stInterHeader_.ucMessageType = PackMsgType(uiSiblingId, 0, 0);
+    }
+
     std::string_view port;
     if (clJsonHeader_["port"].get(port) == simdjson::SUCCESS)
     {
-- 
2.43.0


From 697501f69a882e5fd9d177e59bfd64c856dbd355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 23/91] fix: look up names of commands that have no message
 definition

---
 src/decoders/common/src/message_database.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index 921789c..96fea47 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -105,14 +105,24 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
         }
     }
 
+    // Commands that do not have a MsgDef are named by the "Commands" enumeration
+    const EnumDefinition::ConstPtr pclCommands = GetEnumDefName("Commands");
+    const auto nameToLogId = [&](std::string_view strName_) -> std::optional<uint32_t> {
+        const MessageDefinition::ConstPtr pclMessageDef = GetMsgDef(strName_);
+        if (pclMessageDef != nullptr) { return pclMessageDef->logID; }
+        if (pclCommands == nullptr) { return std::nullopt; }
+        const auto it = pclCommands->nameValue.find(strName_);
+        return it != pclCommands->nameValue.end() ? std::optional<uint32_t>(it->second) : std::nullopt;
+    };
+
     // If this is an abbrev msg (no format information), we will be able to find the MsgDef
-    MessageDefinition::ConstPtr pclMessageDef = GetMsgDef(sMsgName_);
-    if (pclMessageDef != nullptr)
+    std::optional<uint32_t> optLogId = nameToLogId(sMsgName_);
+    if (optLogId.has_value())
     {
         uiResponse = static_cast<uint32_t>(false);
         uiMsgFormat = static_cast<uint32_t>(MESSAGE_FORMAT::ABBREV);
 
-        return CreateMsgId(pclMessageDef->logID, uiSiblingId, uiMsgFormat, uiResponse);
+        return CreateMsgId(*optLogId, uiSiblingId, uiMsgFormat, uiResponse);
     }
 
     if (sMsgName_.empty()) { return 0; }
@@ -140,9 +150,9 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
         break;
     }
 
-    pclMessageDef = GetMsgDef(sMsgName_);
+    optLogId = nameToLogId(sMsgName_);
 
-    return pclMessageDef != nullptr ? CreateMsgId(pclMessageDef->logID, uiSiblingId, uiMsgFormat, uiResponse) : 0;
+    return optLogId.has_value() ? CreateMsgId(*optLogId, uiSiblingId, uiMsgFormat, uiResponse) : 0;
 }
 
 // -------------------------------------------------------------------------------------------------------
-- 
2.43.0


From ca0c322dafe520aaeda3bb3f88f9005d530f2744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 24/91] fix: round header milliseconds instead of truncating
 them

---
 include/novatel_edie/decoders/oem/common.hpp | 5 +++--
 src/decoders/oem/src/header_decoder.cpp      | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/common.hpp b/include/novatel_edie/decoders/oem/common.hpp
index 2fe8bc8..01683b2 100644
--- a/include/novatel_edie/decoders/oem/common.hpp
+++ b/include/novatel_edie/decoders/oem/common.hpp
@@ -27,6 +27,7 @@
 #ifndef NOVATEL_COMMON_HPP
 #define NOVATEL_COMMON_HPP
 
+#include <cmath>
 #include <cstdint>
 
 #include "novatel_edie/decoders/common/common.hpp"
@@ -208,7 +209,7 @@ struct Oem4BinaryShortHeader
         ucLength = 0; // Will be filled in following the payload encoding
         usMessageId = stInterHeader_.usMessageId;
         usWeekNo = stInterHeader_.usWeek;
-        uiWeekMSec = static_cast<uint32_t>(stInterHeader_.dMilliseconds);
+        uiWeekMSec = static_cast<uint32_t>(std::llround(stInterHeader_.dMilliseconds));
     }
 };
 
@@ -252,7 +253,7 @@ struct Oem4BinaryHeader
         ucIdleTime = stInterHeader_.ucIdleTime;
         ucTimeStatus = static_cast<uint8_t>(stInterHeader_.uiTimeStatus & 0xFF);
         usWeekNo = stInterHeader_.usWeek;
-        uiWeekMSec = static_cast<uint32_t>(stInterHeader_.dMilliseconds);
+        uiWeekMSec = static_cast<uint32_t>(std::llround(stInterHeader_.dMilliseconds));
         uiStatus = stInterHeader_.uiReceiverStatus;
         usMsgDefCrc = static_cast<uint16_t>(stInterHeader_.uiMessageDefinitionCrc & 0xFFFF);
         usReceiverSwVersion = stInterHeader_.usReceiverSwVersion;
diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 278d7c2..d1e19d1 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -27,6 +27,7 @@
 #include "novatel_edie/decoders/oem/header_decoder.hpp"
 
 #include <charconv>
+#include <cmath>
 
 #include <simdjson.h>
 
@@ -439,7 +440,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     stMetaData_.bResponse =
         static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE) == (stInterHeader_.ucMessageType & static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE));
     stMetaData_.usWeek = static_cast<uint32_t>(stInterHeader_.usWeek);
-    stMetaData_.dMilliseconds = static_cast<uint32_t>(stInterHeader_.dMilliseconds);
+    stMetaData_.dMilliseconds = std::round(stInterHeader_.dMilliseconds);
     stMetaData_.usMessageId = static_cast<uint32_t>(stInterHeader_.usMessageId);
     stMetaData_.uiMessageCrc = stInterHeader_.uiMessageDefinitionCrc;
     stMetaData_.uiHeaderLength = static_cast<uint32_t>(pcTempBuf - reinterpret_cast<const char*>(pucLogBuf_));
-- 
2.43.0


From 982a3b2b1a7b984134829b8ecd9651f8da893f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 25/91] fix: do not dereference a missing message definition
 when encoding short text headers

---
 src/decoders/oem/src/encoder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 5f50735..4abca88 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -346,7 +346,8 @@ bool Encoder::EncodeAsciiShortHeader(const IntermediateHeader& stInterHeader_, c
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_SHORT_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     const uint32_t uiResponse = (stInterHeader_.ucMessageType & static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE)) >> 7;
     sMsgName.push_back(uiResponse != 0U ? 'R' : 'A'); // Append 'A' for ascii, or 'R' for ascii response
     AppendSiblingId(sMsgName, stInterHeader_);
@@ -364,7 +365,8 @@ bool Encoder::EncodeAbbrevAsciiShortHeader(const IntermediateHeader& stInterHead
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     AppendSiblingId(sMsgName, stInterHeader_);
 
     return CopyAllToBufferSeparated(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SEPARATOR,                                 //
-- 
2.43.0


From eb67785757f4b102ae3f1e4b7b478be0f11a3bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 26/91] fix: do not read a binary header's worth of bytes from
 shorter text messages

---
 src/decoders/oem/src/header_decoder.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index d1e19d1..678d508 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -300,10 +300,9 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     stInterHeader_ = IntermediateHeader{};
 
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
-    auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
 
     stMetaData_.eFormat = [&] {
-        switch (stBinaryHeader.ucSync1)
+        switch (pucLogBuf_[0])
         {
         case OEM4_ASCII_SYNC: return HEADER_FORMAT::ASCII;
         case OEM4_SHORT_ASCII_SYNC: return HEADER_FORMAT::SHORT_ASCII;
@@ -311,7 +310,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         case NMEA_SYNC: return HEADER_FORMAT::NMEA;
         case '{': return HEADER_FORMAT::JSON;
         case OEM4_BINARY_SYNC1:
-            switch (stBinaryHeader.ucSync3)
+            switch (pucLogBuf_[OEM4_BINARY_SYNC_LENGTH - 1])
             {
             case OEM4_BINARY_SYNC3: return HEADER_FORMAT::BINARY;
             case OEM4_SHORT_BINARY_SYNC3: return HEADER_FORMAT::SHORT_BINARY;
@@ -390,7 +389,8 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         }
         break;
 
-    case HEADER_FORMAT::BINARY:
+    case HEADER_FORMAT::BINARY: {
+        auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
         stInterHeader_.usMessageId = stBinaryHeader.usMsgNumber;
         stInterHeader_.ucMessageType = stBinaryHeader.ucMsgType;
         stInterHeader_.uiPortAddress = stBinaryHeader.ucPort;
@@ -405,6 +405,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         stInterHeader_.uiMessageDefinitionCrc = stBinaryHeader.usMsgDefCrc;
         pcTempBuf += sizeof(Oem4BinaryHeader);
         break;
+    }
 
     case HEADER_FORMAT::SHORT_BINARY: {
         // Reset the IntermediateHeader ucMessageType because can incorrectly set ucSiblingId and bResponse if it isn't
-- 
2.43.0


From b9d004a76a7fda7759581c604b04693b482de139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 27/91] fix: zero the alignment bytes of encoded binary bodies

---
 include/novatel_edie/decoders/common/encoder.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 46affe8..ea31392 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -334,10 +334,7 @@ template <typename Derived> class EncoderBase
         const auto alignPtr = [this](uint16_t fieldTypeLength_, const unsigned char* startBuf, unsigned char** ppucOutBuf_,
                                      uint32_t& uiBytesLeft_) -> bool {
             auto align = this->fMyAlignmentFunc(fieldTypeLength_, reinterpret_cast<uintptr_t>(startBuf), reinterpret_cast<uintptr_t>(*ppucOutBuf_));
-            if (align > uiBytesLeft_) { return false; }
-            *ppucOutBuf_ += align;
-            uiBytesLeft_ -= static_cast<uint32_t>(align);
-            return true;
+            return align == 0 || SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, static_cast<uint32_t>(align));
         };
 
         // Fast path: all-fixed message — single memcpy of the fixedFields blob
-- 
2.43.0


From e2fe0ff948033f257cacd9c208ab43b19ac29951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 28/91] fix: encode %Z arrays in hexadecimal whatever their
 data type

---
 src/decoders/oem/src/encoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 4abca88..00683f6 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -82,6 +82,7 @@ void Encoder::InitFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("UB")] = BasicIntMapEntry<uint8_t>();
     asciiFieldMap[CalculateBlockCrc32("B")] = BasicIntMapEntry<int8_t>();
     asciiFieldMap[CalculateBlockCrc32("XB")] = BasicHexMapEntry<uint8_t>(2);
+    asciiFieldMap[CalculateBlockCrc32("Z")] = BasicHexMapEntry<uint8_t>(2);
 
     asciiFieldMap[CalculateBlockCrc32("x")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-- 
2.43.0


From 8311648e5ea97d2cc77b4a8cf9e1361a8e0c20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 29/91] fix: name enumerators beyond the signed range of 1 and
 2 byte enum fields

---
 include/novatel_edie/decoders/common/encoder.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index ea31392..79ac177 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -525,8 +525,11 @@ template <typename Derived> class EncoderBase
             if (!enumFieldPtr) return false;
             std::string_view enumString;
             SimpleTypeVisitor(fieldDefRef_, [&](auto&& arg) {
-                enumString =
-                    GetEnumString(enumFieldPtr->enumDef, static_cast<uint32_t>(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
+                const auto enumValue = cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_);
+                // The stored type is signed but enumerators are not, do not extend the sign of values shorter than 4 bytes
+                uint32_t uiEnumValue = 0;
+                std::memcpy(&uiEnumValue, &enumValue, std::min(sizeof(enumValue), sizeof(uiEnumValue)));
+                enumString = GetEnumString(enumFieldPtr->enumDef, uiEnumValue);
             });
             return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, enumString, separator);
         }
@@ -706,8 +709,11 @@ template <typename Derived> class EncoderBase
             if (!enumFieldPtr) return false;
             std::string_view enumString;
             SimpleTypeVisitor(fieldDefRef_, [&](auto&& arg) {
-                enumString =
-                    GetEnumString(enumFieldPtr->enumDef, static_cast<uint32_t>(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
+                const auto enumValue = cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_);
+                // The stored type is signed but enumerators are not, do not extend the sign of values shorter than 4 bytes
+                uint32_t uiEnumValue = 0;
+                std::memcpy(&uiEnumValue, &enumValue, std::min(sizeof(enumValue), sizeof(uiEnumValue)));
+                enumString = GetEnumString(enumFieldPtr->enumDef, uiEnumValue);
             });
             return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', enumString, "\",");
         }
-- 
2.43.0


From 9539ca64d0ee22d56899464b3ae7821e8cf93605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:09 +0000
Subject: [PATCH 30/91] fix: read the characters of CHAR fields with their own
 type when encoding text

---
 include/novatel_edie/decoders/common/encoder.hpp | 12 ++++++++++--
 src/decoders/oem/src/encoder.cpp                 |  9 ++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 79ac177..b32c7dc 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -289,6 +289,14 @@ std::function<bool(const BaseField&, const CompositeField&, char**, uint32_t&, c
     };
 }
 
+// -------------------------------------------------------------------------------------------------------
+//! \brief Get a character of a CHAR or UCHAR field.
+inline char GetCharacter(const BaseField& fd_, const CompositeField& cf_, size_t index_)
+{
+    return fd_.dataType.name == DATA_TYPE::CHAR ? static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, index_))
+                                                : static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, index_));
+}
+
 //============================================================================
 //! \class EncoderBase
 //! \brief Class to encode messages.
@@ -553,7 +561,7 @@ template <typename Derived> class EncoderBase
             for (size_t i = 0; i < count; i++)
             {
                 if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
+                    GetCharacter(*arrayFieldDef, cf_, i) == '\0')
                 {
                     break;
                 }
@@ -737,7 +745,7 @@ template <typename Derived> class EncoderBase
             for (size_t i = 0; i < count; i++)
             {
                 if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
+                    GetCharacter(*arrayFieldDef, cf_, i) == '\0')
                 {
                     break;
                 }
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 00683f6..3381bcb 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -180,7 +180,7 @@ void Encoder::InitFieldMaps()
 
     asciiFieldMap[CalculateBlockCrc32("c")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-        if (fd_.dataType.length == 1) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))); }
+        if (fd_.dataType.length == 1) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, GetCharacter(fd_, cf_, offset)); }
         if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
             return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset)));
@@ -191,7 +191,10 @@ void Encoder::InitFieldMaps()
     // =========================================================
     // Json Field Mapping
     // =========================================================
-    jsonFieldMap[CalculateBlockCrc32("P")] = BasicIntMapEntry<uint8_t>();
+    jsonFieldMap[CalculateBlockCrc32("P")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
+                                                const MessageDatabase&, size_t offset) {
+        return WriteIntToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<uint8_t>(GetCharacter(fd_, cf_, offset)));
+    };
 
     jsonFieldMap[CalculateBlockCrc32("T")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
@@ -270,7 +273,7 @@ void Encoder::InitFieldMaps()
                                                 const MessageDatabase&, size_t offset) {
         if (fd_.dataType.length == 1)
         {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)), '"');
+            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', GetCharacter(fd_, cf_, offset), '"');
         }
         if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
-- 
2.43.0


From efea4c020c44462849aa8d8e5155094c31b5e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 31/91] fix: escape characters of strings encoded to JSON

---
 .../novatel_edie/decoders/common/encoder.hpp  | 37 +++++++++++++++++--
 src/decoders/oem/src/encoder.cpp              | 19 +++++-----
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index b32c7dc..d6c0aad 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -289,6 +289,34 @@ std::function<bool(const BaseField&, const CompositeField&, char**, uint32_t&, c
     };
 }
 
+// -------------------------------------------------------------------------------------------------------
+//! \brief Copy characters into a JSON string, escaping those that may not appear in one.
+[[nodiscard]] inline bool CopyJsonEscapedToBuffer(char** buffer_, uint32_t& uiBytesLeft_, std::string_view sv_)
+{
+    for (const char c : sv_)
+    {
+        bool success;
+        switch (c)
+        {
+        case '"': success = CopyToBuffer(buffer_, uiBytesLeft_, std::string_view("\\\"")); break;
+        case '\\': success = CopyToBuffer(buffer_, uiBytesLeft_, std::string_view("\\\\")); break;
+        case '\b': success = CopyToBuffer(buffer_, uiBytesLeft_, std::string_view("\\b")); break;
+        case '\f': success = CopyToBuffer(buffer_, uiBytesLeft_, std::string_view("\\f")); break;
+        case '\n': success = CopyToBuffer(buffer_, uiBytesLeft_, std::string_view("\\n")); break;
+        case '\r': success = CopyToBuffer(buffer_, uiBytesLeft_, std::string_view("\\r")); break;
+        case '\t': success = CopyToBuffer(buffer_, uiBytesLeft_, std::string_view("\\t")); break;
+        default:
+            success = static_cast<unsigned char>(c) < 0x20
+                          ? CopyToBuffer(buffer_, uiBytesLeft_, std::string_view("\\u")) &&
+                                WriteHexToBuffer(buffer_, uiBytesLeft_, static_cast<uint16_t>(static_cast<unsigned char>(c)), 4)
+                          : CopyToBuffer(buffer_, uiBytesLeft_, c);
+            break;
+        }
+        if (!success) { return false; }
+    }
+    return true;
+}
+
 // -------------------------------------------------------------------------------------------------------
 //! \brief Get a character of a CHAR or UCHAR field.
 inline char GetCharacter(const BaseField& fd_, const CompositeField& cf_, size_t index_)
@@ -835,9 +863,12 @@ template <typename Derived> class EncoderBase
             }
             case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
             case FIELD_TYPE::STRING: {
-                const auto value = clCompField_.GetVarFields()[fieldDefRef.index];
-                const auto& str = std::get<std::string>(value);
-                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")", str, "\",")) { return false; }
+                const auto& str = std::get<std::string>(clCompField_.GetVarFields()[fieldDefRef.index]);
+                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")") ||
+                    !CopyJsonEscapedToBuffer(ppcOutBuf_, uiBytesLeft_, str) || !CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, "\","))
+                {
+                    return false;
+                }
                 break;
             }
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 3381bcb..f35fdd3 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -264,22 +264,21 @@ void Encoder::InitFieldMaps()
 
     jsonFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_,
-                            fd_.dataType.name == DATA_TYPE::UCHAR ? static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))
-                                                                  : static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset)));
+        const char cValue = GetCharacter(fd_, cf_, offset);
+        return CopyJsonEscapedToBuffer(ppcOutBuf_, uiBytesLeft_, std::string_view(&cValue, 1));
     };
 
     jsonFieldMap[CalculateBlockCrc32("c")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        if (fd_.dataType.length == 1)
+        char cValue;
+        if (fd_.dataType.length == 1) { cValue = GetCharacter(fd_, cf_, offset); }
+        else if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', GetCharacter(fd_, cf_, offset), '"');
+            cValue = static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset));
         }
-        if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
-        {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset)), '"');
-        }
-        return false;
+        else { return false; }
+        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"') && CopyJsonEscapedToBuffer(ppcOutBuf_, uiBytesLeft_, std::string_view(&cValue, 1)) &&
+               CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"');
     };
 }
 
-- 
2.43.0


From 16344a6869605775a0767c6eb247266e8c346475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 32/91] fix: escape the characters of quoted ASCII arrays that
 their decoder resolves

---
 src/decoders/oem/src/encoder.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index f35fdd3..75c28c7 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -99,9 +99,14 @@ void Encoder::InitFieldMaps()
 
     asciiFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-        return fd_.dataType.name == DATA_TYPE::UCHAR
-                   ? CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)))
-                   : CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset)));
+        const char cValue = GetCharacter(fd_, cf_, offset);
+        // The decoder resolves escape sequences and ends at a double quote
+        if (cValue == '\\') { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\\\"); }
+        if (cValue == '"' || (cValue > 0 && cValue < 32) || cValue == 127)
+        {
+            return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\x") && WriteHexToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<uint8_t>(cValue), 2);
+        }
+        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, cValue);
     };
 
     asciiFieldMap[CalculateBlockCrc32("m")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
-- 
2.43.0


From 6c11a82cf6b70fb0dae57ac7ce5c9e1b7ce54968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 33/91] fix: decode arrays of numbers from JSON

---
 src/decoders/common/src/message_decoder.cpp | 26 ++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index cdfb43b..86e38df 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -847,7 +847,31 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                             clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
                         }
                     }
-                    else { return STATUS::MALFORMED_INPUT; }
+                    else
+                    {
+                        if (fixed)
+                        {
+                            if (array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
+                        }
+                        else
+                        {
+                            SimpleTypeVisitor(*field, [&](auto&& arg) {
+                                using T = std::decay_t<decltype(arg)>;
+                                using StoredType = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
+                                clCompField_.SetFieldValue<false>(field->index, std::vector<StoredType>(array.size()));
+                            });
+                        }
+                        try
+                        {
+                            size_t i = 0;
+                            for (simdjson::dom::element it : array) { DecodeJsonField(*field, it, clCompField_, i++, fixed); }
+                        }
+                        catch (const std::runtime_error&)
+                        {
+                            SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeJsonField(): Exception when decoding array. Malformed Input\n");
+                            return STATUS::MALFORMED_INPUT;
+                        }
+                    }
                 }
             }
             break;
-- 
2.43.0


From 2fd56367ebdc0503d33fcd38c517830b4e87bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 34/91] fix: store %P arrays decoded from JSON with the data
 type of the field

---
 src/decoders/common/src/message_decoder.cpp | 48 ++++++++++-----------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 86e38df..ed7ba96 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -371,6 +371,19 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
     return STATUS::SUCCESS;
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Store characters in an array field as its data type demands
+template <typename Container>
+static void SetCharacterArray(CompositeField& clCompField_, const BaseField& field_, const Container& characters_, bool fixed_)
+{
+    auto set = [&](auto&& values_) {
+        if (fixed_) { clCompField_.SetFieldValue<true>(field_.index, std::move(values_)); }
+        else { clCompField_.SetFieldValue<false>(field_.index, std::move(values_)); }
+    };
+    if (field_.dataType.name == DATA_TYPE::CHAR) { set(std::vector<int8_t>(characters_.begin(), characters_.end())); }
+    else { set(std::vector<uint8_t>(characters_.begin(), characters_.end())); }
+}
+
 // -------------------------------------------------------------------------------------------------------
 void MessageDecoderBase::DecodeAsciiField(const BaseField& field_, const char** ppcToken_, const size_t tokenLength_, CompositeField& clCompField_,
                                           const size_t elementIndex_, const bool fixed_) const
@@ -818,34 +831,17 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                     }
                     else if (field->conversionHash == CalculateBlockCrc32("P"))
                     {
-                        if (fixed)
+                        if (fixed && array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
+                        std::vector<uint8_t> vDecodedValues;
+                        vDecodedValues.reserve(array.size());
+                        for (simdjson::dom::element it : array)
                         {
-                            if (array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
-                            std::vector<int8_t> vDecodedValues(uiArraySize, 0);
-                            size_t i = 0;
-                            for (simdjson::dom::element it : array)
-                            {
-                                int64_t value;
-                                if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
-                                vDecodedValues[i++] = static_cast<int8_t>(value);
-                            }
-                            if (!vDecodedValues.empty())
-                            {
-                                clCompField_.SetFieldValue<true>(field->index, vDecodedValues.data(), vDecodedValues.size());
-                            }
-                        }
-                        else
-                        {
-                            std::vector<int8_t> vDecodedValues;
-                            vDecodedValues.reserve(array.size());
-                            for (simdjson::dom::element it : array)
-                            {
-                                int64_t value;
-                                if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
-                                vDecodedValues.emplace_back(static_cast<int8_t>(value));
-                            }
-                            clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
+                            int64_t value;
+                            if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
+                            vDecodedValues.emplace_back(static_cast<uint8_t>(value));
                         }
+                        if (fixed) { vDecodedValues.resize(uiArraySize, 0); }
+                        SetCharacterArray(clCompField_, *field, vDecodedValues, fixed);
                     }
                     else
                     {
-- 
2.43.0


From 347efe5c306f3ddbfe5887328dbe139002fafdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 35/91] fix: store variable-length character arrays decoded
 from text as arrays

---
 src/decoders/common/src/message_decoder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index ed7ba96..2d07d60 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -615,8 +615,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 std::string sDecodedValue;
                 eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, uiArraySize);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
-                if (fixed) { clCompField_.SetFieldValue<true>(field->index, std::move(sDecodedValue)); }
-                else { clCompField_.SetFieldValue<false>(field->index, std::move(sDecodedValue)); }
+                SetCharacterArray(clCompField_, *field, sDecodedValue, fixed);
                 *ppcLogBuf_ += 1;
             }
             else if (!field->isCsv)
@@ -790,7 +789,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                         for (size_t i = 0; i < strValue.size(); ++i) { vDecodedValues[i] = static_cast<uint8_t>(strValue[i]); }
                         if (!vDecodedValues.empty()) { clCompField_.SetFieldValue<true>(field->index, vDecodedValues.data(), vDecodedValues.size()); }
                     }
-                    else { clCompField_.SetFieldValue<false>(field->index, std::string(strValue)); }
+                    else { SetCharacterArray(clCompField_, *field, strValue, fixed); }
                 }
             }
             else
-- 
2.43.0


From f1fff8fb67afe81ca6a20b2de8c57702d8631eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 36/91] fix: decode 8 byte %e fields of JSON as doubles

---
 src/decoders/common/src/message_decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 2d07d60..6778b31 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -195,7 +195,6 @@ void MessageDecoderBase::InitFieldMaps()
     jsonFieldMap[CalculateBlockCrc32("UB")] = SimpleJsonMapEntry<uint8_t>();
     jsonFieldMap[CalculateBlockCrc32("XB")] = SimpleJsonMapEntry<uint8_t>();
     jsonFieldMap[CalculateBlockCrc32("lf")] = SimpleJsonMapEntry<double>();
-    jsonFieldMap[CalculateBlockCrc32("e")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("le")] = SimpleJsonMapEntry<double>();
     jsonFieldMap[CalculateBlockCrc32("g")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("lg")] = SimpleJsonMapEntry<double>();
@@ -211,6 +210,8 @@ void MessageDecoderBase::InitFieldMaps()
         }
     };
 
+    jsonFieldMap[CalculateBlockCrc32("e")] = jsonFieldMap[CalculateBlockCrc32("f")];
+
     jsonFieldMap[CalculateBlockCrc32("d")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
                                                 simdjson::dom::element clJsonField_, const size_t elementIndex_, const bool fixed_,
                                                 [[maybe_unused]] MessageDatabase& pclMsgDb_) {
-- 
2.43.0


From 9990e0c0fbd06e8d9fed58b7011de96ec009f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 37/91] fix: decode %c fields with the width of their data type
 and from the JSON strings they are encoded to

---
 src/decoders/oem/src/message_decoder.cpp | 34 +++++++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index 9a8f371..c35812f 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -51,6 +51,20 @@ MessageDecoder::MessageDecoder(const MessageDatabase::Ptr& pclMessageDb_) : Mess
     InitOemFieldMaps();
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Store a character with the width of its field
+static void SetCharacter(novatel::edie::CompositeField& clCompField_, const novatel::edie::BaseField& field_, const uint32_t uiValue_,
+                         const size_t elementIndex_, const bool fixed_)
+{
+    auto set = [&](auto value_) {
+        if (fixed_) { clCompField_.SetArrayElement<true>(field_, elementIndex_, value_); }
+        else { clCompField_.SetArrayElement<false>(field_, elementIndex_, value_); }
+    };
+    if (field_.dataType.length != 1) { set(uiValue_); }
+    else if (field_.dataType.name == novatel::edie::DATA_TYPE::CHAR) { set(static_cast<int8_t>(uiValue_)); }
+    else { set(static_cast<uint8_t>(uiValue_)); }
+}
+
 // -------------------------------------------------------------------------------------------------------
 void MessageDecoder::InitOemFieldMaps()
 {
@@ -62,9 +76,7 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         // TODO: check that the character is printable
         // if (!isprint(**ppcToken_)) { throw ... }
-        const auto value = static_cast<uint32_t>(static_cast<unsigned char>(**ppcToken_));
-        if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
-        else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
+        SetCharacter(clCompField_, pstMessageDataType_, static_cast<unsigned char>(**ppcToken_), elementIndex_, fixed_);
     };
     asciiFieldMap[CalculateBlockCrc32("k")] = SimpleAsciiMapEntry<float>();
     asciiFieldMap[CalculateBlockCrc32("lk")] = SimpleAsciiMapEntry<double>();
@@ -136,7 +148,21 @@ void MessageDecoder::InitOemFieldMaps()
     // =========================================================
     // Json Field Mapping
     // =========================================================
-    jsonFieldMap[CalculateBlockCrc32("c")] = SimpleJsonMapEntry<uint32_t>();
+    jsonFieldMap[CalculateBlockCrc32("c")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
+                                                simdjson::dom::element clJsonField_, const size_t elementIndex_, const bool fixed_,
+                                                [[maybe_unused]] MessageDatabase& pclMsgDb_) {
+        uint64_t value;
+        if (clJsonField_.get(value) != simdjson::SUCCESS)
+        {
+            std::string_view sValue;
+            if (clJsonField_.get(sValue) != simdjson::SUCCESS || sValue.size() != 1)
+            {
+                throw std::runtime_error("Failed to decode JSON field '" + pstMessageDataType_.name + "'");
+            }
+            value = static_cast<unsigned char>(sValue.front());
+        }
+        SetCharacter(clCompField_, pstMessageDataType_, static_cast<uint32_t>(value), elementIndex_, fixed_);
+    };
     jsonFieldMap[CalculateBlockCrc32("k")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("lk")] = SimpleJsonMapEntry<double>();
 
-- 
2.43.0


From 94a46e170bae803f7a890dd83c4f4ca516df3dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 38/91] fix: decode the lowest GLONASS frequency of satellite
 identifiers

---
 src/decoders/oem/src/message_decoder.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index c35812f..4860428 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -121,13 +121,11 @@ void MessageDecoder::InitOemFieldMaps()
         int16_t sFreq = 0;
         if (pcDelimiter != nullptr)
         {
-            const char* start = pcDelimiter + 1;
+            const char* start = *pcDelimiter == '+' ? pcDelimiter + 1 : pcDelimiter;
             const char* end = *ppcToken_ + tokenLength_;
 
             result = std::from_chars(start, end, sFreq);
             if (result.ec != std::errc()) { throw std::runtime_error("Failed to parse sFreq"); }
-
-            if (*pcDelimiter == '-') { sFreq = -sFreq; }
         }
 
         const uint32_t uiSatId = usSlot | (sFreq << 16);
@@ -230,14 +228,12 @@ void MessageDecoder::InitOemFieldMaps()
             }
 
             // Parse the frequency part
-            std::string_view freqView = sTemp.substr(sDelimiter + 1);
+            std::string_view freqView = sTemp.substr(sTemp[sDelimiter] == '+' ? sDelimiter + 1 : sDelimiter);
             result = std::from_chars(freqView.data(), freqView.data() + freqView.size(), sFreq);
             if (result.ec != std::errc() || result.ptr != freqView.data() + freqView.size())
             {
                 throw std::invalid_argument("Invalid frequency value in id field");
             }
-
-            if (sTemp[sDelimiter] == '-') { sFreq = -sFreq; }
         }
         else
         {
-- 
2.43.0


From dfe39ad93a85c0f1b0009d081c69dd38d8ae52f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 39/91] fix: do not mistake the characters of ASCII strings and
 arrays for the end of the message

---
 src/decoders/common/src/message_decoder.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 6778b31..e25cb06 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -489,7 +489,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
     // Null-terminated C-strings for strcspn
     constexpr std::array<char, 3> tokenDelimiters = {fieldDelim, endDelim, '\0'};
     constexpr std::array<char, 3> unquotedStringDelimiters = {fieldDelim, endDelim, '\0'};
-    constexpr std::array<char, 3> quotedStringDelimiters = {'\"', endDelim, '\0'};
+    constexpr std::array<char, 2> quotedStringDelimiters = {'\"', '\0'};
+    constexpr std::array<char, 2> unclosedStringDelimiters = {endDelim, '\0'};
     constexpr std::array<char, 2> responseDelimiters = {endDelim, '\0'};
 
     if (pcBufEnd_ == nullptr) { pcBufEnd_ = static_cast<const char*>(std::memchr(*ppcLogBuf_, '\0', MAX_ASCII_MESSAGE_LENGTH)); }
@@ -501,9 +502,12 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
         if constexpr (Abbreviated) { ConsumeAbbrevFormatting(ppcLogBuf_); }
 
         size_t tokenLength = strcspn(*ppcLogBuf_, tokenDelimiters.data());
-        if (tokenLength == 0) { return STATUS::MALFORMED_INPUT; }
-
-        bool bEarlyEndOfMessage = (*(*ppcLogBuf_ + tokenLength) == endDelim);
+        // Only strings may be empty, and the raw characters of a fixed-length array may be delimiters
+        if (tokenLength == 0 && (Abbreviated || field->type != FIELD_TYPE::STRING) &&
+            (field->type != FIELD_TYPE::FIXED_LENGTH_ARRAY || field->isCsv))
+        {
+            return STATUS::MALFORMED_INPUT;
+        }
 
         switch (field->type)
         {
@@ -543,6 +547,10 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             case '"':
                 // If a field delimiter character is in the string, the previous tokenLength value is invalid.
                 tokenLength = strcspn(*ppcLogBuf_ + 1, quotedStringDelimiters.data()); // Look for LAST '"' character, skipping past the first.
+                if (*(*ppcLogBuf_ + 1 + tokenLength) != '\"')
+                { // The closing '"' is missing, do not take the end of the message into the string.
+                    tokenLength = strcspn(*ppcLogBuf_ + 1, unclosedStringDelimiters.data());
+                }
                 clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_ + 1, tokenLength)); // + 1 to pass opening double-quote.
                 // Skip past the first '"', string token and the remaining characters ('"' and ',').
                 *ppcLogBuf_ += tokenLength + strcspn(*ppcLogBuf_ + tokenLength + 1, unquotedStringDelimiters.data()) + 2;
@@ -562,7 +570,6 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             // Note: This won't match responses with format specifiers in them (%d, %s, etc.), they will be given id=0
             else { clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length()))); }
             // Do not advance buffer, need to reprocess this field for the following RESPONSE_STR.
-            bEarlyEndOfMessage = false;
             break;
         }
         case FIELD_TYPE::RESPONSE_STR:
@@ -698,7 +705,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
         if constexpr (!Abbreviated)
         {
-            if (bEarlyEndOfMessage) { break; }
+            // The characters of strings and arrays may be delimiters, only the one that follows the field can be the end of the message
+            if (field->type != FIELD_TYPE::RESPONSE_ID && *(*ppcLogBuf_ - 1) == endDelim) { break; }
         }
     }
 
-- 
2.43.0


From e90824b4fcc48c61eed9ce816c38e3f5bfb8a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 40/91] fix: align the rows of field arrays with variable
 fields as their decoder does

---
 include/novatel_edie/decoders/common/encoder.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index d6c0aad..37a8347 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -450,6 +450,12 @@ template <typename Derived> class EncoderBase
                         {
                             for (const auto& element : fieldVector)
                             {
+                                // Rows of only fixed fields follow each other without alignment
+                                if (fieldArrayFieldDef->fieldInfo->varFieldCount != 0 &&
+                                    !alignPtr(fieldDefRef.dataType.length, startBuf, ppucOutBuf_, uiBytesLeft_))
+                                {
+                                    return false;
+                                }
                                 if (!EncodeBinaryBody<Flatten>(element, fieldArrayFieldDef->fieldInfo->messageOrderedFields, ppucOutBuf_,
                                                                uiBytesLeft_))
                                 {
-- 
2.43.0


From 15fe02f7b78acafee7f370f412f05d6114e97cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 41/91] fix: refuse character arrays that go on beyond the end
 of the text

---
 src/decoders/common/src/message_decoder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index e25cb06..8da6d53 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -413,6 +413,9 @@ static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedVa
 // Decode an ASCII array field that is not comma separated, e.g. a raw ASCII value or hex representation
 template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_)
 {
+    // The text ended before the array did
+    if (**ppcLogBuf_ == '\0') { return STATUS::MALFORMED_INPUT; }
+
     // Escaped '\' character
     if (strncmp("\\\\", *ppcLogBuf_, 2) == 0)
     {
-- 
2.43.0


From 16f292373fd71d8b675f0aca8c9a759f7c04af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 42/91] fix: account for the header and body when checking the
 encode buffer's size

---
 src/decoders/oem/src/encoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 75c28c7..21124f2 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -461,8 +461,9 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     }
 
     STATUS eStatus = EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, eHeaderFormat_, eFormat_);
-    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
+    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
@@ -473,6 +474,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     pucTempEncodeBuffer += stMessageData_.uiMessageBodyLength;
+    uiBufferSize_ -= stMessageData_.uiMessageBodyLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
-- 
2.43.0


From 691b298787a473a1622e3d00acaa707ba52f480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 43/91] fix: report the header and body of encoded abbreviated
 ASCII responses

---
 src/decoders/oem/src/encoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 21124f2..960f670 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -447,6 +447,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     if (eFormat_ == ENCODE_FORMAT::ABBREV_ASCII && ((stHeader_.ucMessageType & static_cast<uint8_t>(MESSAGE_TYPE_MASK::RESPONSE)) != 0))
     {
         if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, "<")) { return STATUS::BUFFER_FULL; }
+        stMessageData_.pucMessageHeader = *ppucBuffer_;
         stMessageData_.uiMessageHeaderLength = 1;
 
         if (fieldDefinitions.size() <= 1) { return STATUS::MALFORMED_INPUT; }
@@ -455,6 +456,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
         if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, "\r\n")) { return STATUS::BUFFER_FULL; }
         stMessageData_.pucMessage = *ppucBuffer_;
         stMessageData_.uiMessageLength = pucTempEncodeBuffer - *ppucBuffer_;
+        stMessageData_.pucMessageBody = *ppucBuffer_ + stMessageData_.uiMessageHeaderLength;
         stMessageData_.uiMessageBodyLength = stMessageData_.uiMessageLength - stMessageData_.uiMessageHeaderLength;
 
         return STATUS::SUCCESS;
-- 
2.43.0


From 517577a5a6c189f88bfb7571b6ac82dd1d77c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 44/91] fix: pad encoded binary strings relative to the start
 of the body

---
 include/novatel_edie/decoders/common/encoder.hpp | 9 +++++++--
 include/novatel_edie/decoders/oem/encoder.hpp    | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 37a8347..1f92a86 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -352,6 +352,7 @@ template <typename Derived> class EncoderBase
     //----------------------------------------------------------------------------
     //! \brief Add padding after binary string fields to maintain alignment.
     //
+    //! \param[in] start The start of the fields the alignment is relative to.
     //! \param[in, out] ptr_ A pointer to the encode buffer pointer to be padded
     //!     if necessary. Updated in place.
     //! \param[in, out] uiBytesLeft_ The number of bytes left in the buffer.
@@ -361,7 +362,11 @@ template <typename Derived> class EncoderBase
     //!     there was not enough space in the buffer.
     //! \see MessageDecoderBase::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    virtual bool AddStringFieldPadding([[maybe_unused]] unsigned char** ptr, [[maybe_unused]] uint32_t& uiBytesLeft_) const { return true; }
+    virtual bool AddStringFieldPadding([[maybe_unused]] const unsigned char* start, [[maybe_unused]] unsigned char** ptr,
+                                       [[maybe_unused]] uint32_t& uiBytesLeft_) const
+    {
+        return true;
+    }
 
     template <bool Flatten>
     [[nodiscard]] bool EncodeBinaryBody(const CompositeField& stInterMessage_, const std::vector<BaseField::ConstPtr>& fieldDefinitions_,
@@ -477,7 +482,7 @@ template <typename Derived> class EncoderBase
                             if (remaining > 0 && !SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, remaining)) { return false; }
                         }
 
-                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(ppucOutBuf_, uiBytesLeft_); }
+                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(startBuf, ppucOutBuf_, uiBytesLeft_); }
                         return true;
                     },
                     stInterMessage_.GetVarFields()[fieldDefRef.index]);
diff --git a/include/novatel_edie/decoders/oem/encoder.hpp b/include/novatel_edie/decoders/oem/encoder.hpp
index 6b4d0a8..8ae5473 100644
--- a/include/novatel_edie/decoders/oem/encoder.hpp
+++ b/include/novatel_edie/decoders/oem/encoder.hpp
@@ -61,9 +61,9 @@ class Encoder : public EncoderBase<Encoder>
     //!     there was not enough space in the buffer.
     //! \see MessageDecoder::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    bool AddStringFieldPadding(unsigned char** ptr, uint32_t& uiBytesLeft_) const override
+    bool AddStringFieldPadding(const unsigned char* start, unsigned char** ptr, uint32_t& uiBytesLeft_) const override
     {
-        if (!SetInBuffer(ptr, uiBytesLeft_, 0, 4 - (reinterpret_cast<uintptr_t>(*ptr) % 4))) return false;
+        if (!SetInBuffer(ptr, uiBytesLeft_, 0, 4 - (static_cast<uint32_t>(*ptr - start) % 4))) return false;
         return true;
     }
 
-- 
2.43.0


From 472542e4d41a831b96cf7044f7cad5c7e077ab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 45/91] fix: encode responses to JSON

---
 include/novatel_edie/decoders/common/encoder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 1f92a86..5aefb85 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -885,6 +885,7 @@ template <typename Derived> class EncoderBase
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::FIXED_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::ENUM: [[fallthrough]];
+            case FIELD_TYPE::RESPONSE_ID: [[fallthrough]];
             case FIELD_TYPE::SIMPLE:
                 if (!EncodeJsonField(fieldDefRef, clCompField_, ppcOutBuf_, uiBytesLeft_)) { return false; }
                 break;
-- 
2.43.0


From 1a1b87e7c972d4b06e972d99af8ad250bd1aa9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 46/91] fix: encode messages without fields

---
 include/novatel_edie/decoders/common/encoder.hpp |  3 +++
 src/decoders/oem/src/encoder.cpp                 | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 5aefb85..2753a4a 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -893,6 +893,9 @@ template <typename Derived> class EncoderBase
             }
         }
 
+        // A body without fields has no separator to replace
+        if (fieldDefinitions_.empty()) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '}'); }
+
         *(*ppcOutBuf_ - 1) = '}';
         return true;
     }
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 960f670..90c379a 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -568,7 +568,11 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
     case ENCODE_FORMAT::ASCII: {
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<false>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
-        pcTempBuffer--; // Remove last delimiter ','
+        if (reinterpret_cast<unsigned char*>(pcTempBuffer) != *ppucBuffer_)
+        { // Remove last delimiter ','
+            pcTempBuffer--;
+            uiBufferSize_++;
+        }
         const uint32_t uiCrc = CalculateBlockCrc32(stMessageData_.pucMessageHeader + 1,
                                                    reinterpret_cast<unsigned char*>(pcTempBuffer) - stMessageData_.pucMessageHeader - 1);
         if (!CopyAllToBuffer(&pcTempBuffer, uiBufferSize_, '*', HexValue<uint32_t>{uiCrc, 8}, "\r\n")) { return STATUS::BUFFER_FULL; }
@@ -578,7 +582,11 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
     case ENCODE_FORMAT::ABBREV_ASCII: {
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<true>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
-        pcTempBuffer--; // Remove last delimiter ' '
+        if (!fieldDefinitions.empty())
+        { // Remove last delimiter ' '
+            pcTempBuffer--;
+            uiBufferSize_++;
+        }
         if (!CopyToBuffer(&pcTempBuffer, uiBufferSize_, "\r\n")) { return STATUS::BUFFER_FULL; }
         pucTempBuffer = reinterpret_cast<unsigned char*>(pcTempBuffer);
         break;
-- 
2.43.0


From 8810c753d44ba2a2111aa2eefbc251cb63e7b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 47/91] fix: do not encode binary messages whose length their
 header can not hold

---
 src/decoders/oem/src/encoder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 90c379a..94b1fad 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -29,6 +29,7 @@
 #include <algorithm>
 #include <charconv>
 #include <cstring>
+#include <limits>
 
 #include "novatel_edie/decoders/oem/crc.hpp"
 
@@ -604,14 +605,17 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
         if (stMessageData_.pucMessageHeader == nullptr) { return STATUS::FAILURE; }
         // Go back and set the length field in the header.
         // TODO: this block of code below is what's blocking us from moving this function to common (can solve this with dynamic casting or CRTP?)
+        const auto bodyLength = static_cast<size_t>(pucTempBuffer - *ppucBuffer_);
         if (!IsShortHeaderFormat(eHeaderFormat_))
         {
-            auto usLength = static_cast<uint16_t>(pucTempBuffer - *ppucBuffer_);
+            if (bodyLength > std::numeric_limits<uint16_t>::max()) { return STATUS::UNSUPPORTED; } // The length field can not hold it
+            auto usLength = static_cast<uint16_t>(bodyLength);
             std::memcpy(stMessageData_.pucMessageHeader + offsetof(Oem4BinaryHeader, usLength), &usLength, sizeof(usLength));
         }
         else
         {
-            auto ucLength = static_cast<uint8_t>(pucTempBuffer - *ppucBuffer_);
+            if (bodyLength > std::numeric_limits<uint8_t>::max()) { return STATUS::UNSUPPORTED; } // The length field can not hold it
+            auto ucLength = static_cast<uint8_t>(bodyLength);
             std::memcpy(stMessageData_.pucMessageHeader + offsetof(Oem4BinaryShortHeader, ucLength), &ucLength, sizeof(ucLength));
         }
         if (!CopyToBuffer(&pucTempBuffer, uiBufferSize_,
-- 
2.43.0


From d8f4cf448c51e0c39af09da7520cb12bfae0f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:00 +0000
Subject: [PATCH 48/91] fix: do not look powers of ten up beyond their table

---
 include/novatel_edie/decoders/common/encoder.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 2753a4a..ff22a5b 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -29,6 +29,7 @@
 
 #include <array>
 #include <charconv>
+#include <cmath>
 #include <cstdarg>
 #include <functional>
 #include <optional>
@@ -94,9 +95,11 @@ template <typename T> inline std::chars_format FloatingPointFormat(const BaseFie
 
     const auto width = fd_.width.value();
     const auto absVal = std::abs(val_);
+    const bool isTabulated = width >= 0 && static_cast<size_t>(width) < powLookup.size();
+    const double upper = isTabulated ? powLookup[width] : std::pow(10.0, width);
+    const double lower = isTabulated ? npowLookup[width] : std::pow(10.0, -width);
 
-    return absVal >= std::numeric_limits<T>::min() && (absVal > powLookup[width] || absVal < npowLookup[width]) ? std::chars_format::scientific
-                                                                                                                : std::chars_format::fixed;
+    return absVal >= std::numeric_limits<T>::min() && (absVal > upper || absVal < lower) ? std::chars_format::scientific : std::chars_format::fixed;
 }
 
 // -------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 70fb3b571db500318fc223b4b4bcbb9f2b88f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:01 +0000
Subject: [PATCH 49/91] fix: load the enumerations of a database given to a
 message decoder's constructor, and validate the database being loaded

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 3 +--
 src/decoders/common/src/message_decoder.cpp              | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index c1d772d..f9ba791 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1730,8 +1730,7 @@ class MessageDecoderBase
     //----------------------------------------------------------------------------
     MessageDecoderBase(std::string expectedMessageFamily_, MessageDatabase::Ptr pclMessageDb_ = nullptr,
                        std::function<size_t(const size_t, const uintptr_t, const uintptr_t)> fAlignmentFunc_ = MessageDatabase::NoAlign)
-        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_)),
-          pclMyMsgDb(std::move(pclMessageDb_))
+        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_))
     {
         InitFieldMaps();
         if (pclMessageDb_ != nullptr) { LoadJsonDb(std::move(pclMessageDb_)); }
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 8da6d53..fec7674 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -35,7 +35,7 @@ using namespace novatel::edie;
 // -------------------------------------------------------------------------------------------------------
 void MessageDecoderBase::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
-    ValidateMessageDatabaseFamily(pclMyMsgDb, sMyExpectedMessageFamily, pclMyLogger);
+    ValidateMessageDatabaseFamily(pclMessageDb_, sMyExpectedMessageFamily, pclMyLogger);
     pclMyMsgDb = std::move(pclMessageDb_);
     InitEnumDefinitions();
 }
-- 
2.43.0


From 83ef25359fa4c96f0015360de106003ed3796153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:01 +0000
Subject: [PATCH 50/91] fix: do not throw on text responses shorter than the
 error prefix

---
 src/decoders/common/src/message_decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index fec7674..c74c55d 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -571,7 +571,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             std::string_view sResponse(*ppcLogBuf_, tokenLength);
             if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, static_cast<int32_t>(1)); }
             // Note: This won't match responses with format specifiers in them (%d, %s, etc.), they will be given id=0
-            else { clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length()))); }
+            else { clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(std::min(sResponse.length(), svErrorPrefix.length())))); }
             // Do not advance buffer, need to reprocess this field for the following RESPONSE_STR.
             break;
         }
@@ -777,7 +777,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                 if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, 1); }
                 else
                 {
-                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length())));
+                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(std::min(sResponse.length(), svErrorPrefix.length()))));
                 }
             }
             break;
-- 
2.43.0


From cceb41ae5963b43a03f8657ea959eca1f4ea100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:02 +0000
Subject: [PATCH 51/91] fix: name responses by the database loaded last

---
 include/novatel_edie/decoders/oem/message_decoder.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/novatel_edie/decoders/oem/message_decoder.hpp b/include/novatel_edie/decoders/oem/message_decoder.hpp
index b23785f..e010c64 100644
--- a/include/novatel_edie/decoders/oem/message_decoder.hpp
+++ b/include/novatel_edie/decoders/oem/message_decoder.hpp
@@ -68,6 +68,17 @@ class MessageDecoder : public MessageDecoderBase
     MessageDefinition::ConstPtr GetMessageDefinition(MetaDataBase& stMetaData_) const override;
 
   public:
+    //----------------------------------------------------------------------------
+    //! \brief Load a MessageDatabase object.
+    //
+    //! \param[in] pclMessageDb_ A pointer to a MessageDatabase object.
+    //----------------------------------------------------------------------------
+    void LoadJsonDb(MessageDatabase::Ptr pclMessageDb_) override
+    {
+        MessageDecoderBase::LoadJsonDb(std::move(pclMessageDb_));
+        pResponseDefinition = nullptr; // Refers to the responses of the previous database
+    }
+
     //----------------------------------------------------------------------------
     //! \brief A constructor for the MessageDecoder class.
     //
-- 
2.43.0


From dc41a2a410f9088d05dd254b2c8392d77b2cba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:24 +0000
Subject: [PATCH 52/91] fix: do not read message headers beyond the end of the
 message

---
 .../novatel_edie/decoders/common/common.hpp   | 17 +++++++
 .../decoders/oem/header_decoder.hpp           |  4 +-
 src/decoders/oem/src/header_decoder.cpp       | 47 +++++++++++--------
 3 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/include/novatel_edie/decoders/common/common.hpp b/include/novatel_edie/decoders/common/common.hpp
index f461ba4..a7ec149 100644
--- a/include/novatel_edie/decoders/common/common.hpp
+++ b/include/novatel_edie/decoders/common/common.hpp
@@ -408,6 +408,23 @@ int32_t GetResponseId(const novatel::edie::EnumDefinition::ConstPtr& stRespDef_,
 //-----------------------------------------------------------------------
 void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_);
 
+//-----------------------------------------------------------------------
+//! \brief Get the length of the text in a buffer.
+//
+//! \param[in] pcText_ The text.
+//! \param[in] uiMaxLength_ The length of the buffer, 0 if it is not known, in
+//! which case the text must be null-terminated.
+//
+//! \return The number of characters before the null terminator or the end of
+//! the buffer.
+//-----------------------------------------------------------------------
+inline size_t TextLength(const char* pcText_, size_t uiMaxLength_)
+{
+    if (uiMaxLength_ == 0) { return std::strlen(pcText_); }
+    const auto* pcTerminator = static_cast<const char*>(std::memchr(pcText_, '\0', uiMaxLength_));
+    return pcTerminator != nullptr ? static_cast<size_t>(pcTerminator - pcText_) : uiMaxLength_;
+}
+
 //-----------------------------------------------------------------------
 //! \struct SatelliteId
 //! \brief Provides Satellite number and frequency channel.
diff --git a/include/novatel_edie/decoders/oem/header_decoder.hpp b/include/novatel_edie/decoders/oem/header_decoder.hpp
index 14500bc..0bdacc5 100644
--- a/include/novatel_edie/decoders/oem/header_decoder.hpp
+++ b/include/novatel_edie/decoders/oem/header_decoder.hpp
@@ -84,9 +84,9 @@ class HeaderDecoder
 
     // Decode novatel headers
     template <const char pcDelimiter[], ASCII_HEADER eField>
-    [[nodiscard]] bool DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const;
+    [[nodiscard]] bool DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_, const char* pcBufEnd_) const;
     template <const char pcDelimiter[], ASCII_HEADER... eFields>
-    [[nodiscard]] bool DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const;
+    [[nodiscard]] bool DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_, const char* pcBufEnd_) const;
     void DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const;
 
   public:
diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 678d508..60bd047 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -26,6 +26,7 @@
 
 #include "novatel_edie/decoders/oem/header_decoder.hpp"
 
+#include <algorithm>
 #include <charconv>
 #include <cmath>
 
@@ -55,7 +56,7 @@ void HeaderDecoder::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 
 // -------------------------------------------------------------------------------------------------------
 template <const char pcDelimiter[], ASCII_HEADER eField>
-bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const
+bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_, const char* pcBufEnd_) const
 {
     constexpr bool bIsLeadingNumberField = eField == ASCII_HEADER::SEQUENCE || eField == ASCII_HEADER::IDLE_TIME || eField == ASCII_HEADER::WEEK ||
                                            eField == ASCII_HEADER::SECONDS || eField == ASCII_HEADER::RECEIVER_SW_VERSION;
@@ -69,22 +70,22 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     size_t ullDelimiterSize = strlen(pcDelimiter);
 
     // We check if the first character in the field is in the valid format
-    if ((bIsLeadingNumberField && !isdigit(**ppcLogBuf_)) || (bIsLeadingAlphaField && !isalpha(**ppcLogBuf_)) ||
+    if (*ppcLogBuf_ >= pcBufEnd_ || (bIsLeadingNumberField && !isdigit(**ppcLogBuf_)) || (bIsLeadingAlphaField && !isalpha(**ppcLogBuf_)) ||
         (bIsLeadingHexField && !isxdigit(**ppcLogBuf_)))
     {
         return false;
     }
 
     // Find next delimiter
-    const char* pcNextDelimiter = strchr(*ppcLogBuf_, pcDelimiter[0]);
-    if (pcNextDelimiter == nullptr)
+    const char* pcNextDelimiter = std::find(*ppcLogBuf_, pcBufEnd_, pcDelimiter[0]);
+    if (pcNextDelimiter == pcBufEnd_)
     {
         SPDLOG_LOGGER_ERROR(pclMyLogger, "Message header could not be decoded as the expected field delimiter could not be found.");
         return false;
     }
 
     // Check that full delimiter is correct
-    if (ullDelimiterSize > 1 && std::strncmp(pcNextDelimiter, pcDelimiter, ullDelimiterSize) != 0)
+    if (static_cast<size_t>(pcBufEnd_ - pcNextDelimiter) < ullDelimiterSize || std::strncmp(pcNextDelimiter, pcDelimiter, ullDelimiterSize) != 0)
     {
         SPDLOG_LOGGER_ERROR(pclMyLogger, "Message header could not be decoded due to an invalid delimiter.");
         return false;
@@ -195,9 +196,9 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
 
 // -------------------------------------------------------------------------------------------------------
 template <const char pcDelimiter[], ASCII_HEADER... eFields>
-bool HeaderDecoder::DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const
+bool HeaderDecoder::DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_, const char* pcBufEnd_) const
 {
-    return (DecodeAsciiHeaderField<pcDelimiter, eFields>(stInterHeader_, ppcLogBuf_) && ...);
+    return (DecodeAsciiHeaderField<pcDelimiter, eFields>(stInterHeader_, ppcLogBuf_, pcBufEnd_) && ...);
 }
 
 // -------------------------------------------------------------------------------------------------------
@@ -320,14 +321,22 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         }
     }();
 
+    // Text ends with the message, or with a null terminator when the length of the message is not known
+    const char* pcTextEnd = nullptr;
+    if (stMetaData_.eFormat == HEADER_FORMAT::ASCII || stMetaData_.eFormat == HEADER_FORMAT::SHORT_ASCII ||
+        stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII || stMetaData_.eFormat == HEADER_FORMAT::JSON)
+    {
+        pcTextEnd = pcTempBuf + TextLength(pcTempBuf, stMetaData_.uiLength);
+    }
+
     switch (stMetaData_.eFormat)
     {
     case HEADER_FORMAT::ASCII:
         ++pcTempBuf; // Move the input buffer past the sync char '#'
         if (!DecodeAsciiHeaderFields<pcAsciiRegDelimiter, ASCII_HEADER::MESSAGE_NAME, ASCII_HEADER::PORT, ASCII_HEADER::SEQUENCE,
                                      ASCII_HEADER::IDLE_TIME, ASCII_HEADER::TIME_STATUS, ASCII_HEADER::WEEK, ASCII_HEADER::SECONDS,
-                                     ASCII_HEADER::RECEIVER_STATUS, ASCII_HEADER::MSG_DEF_CRC>(stInterHeader_, &pcTempBuf) ||
-            !DecodeAsciiHeaderField<pcAsciiFinalDelimiter, ASCII_HEADER::RECEIVER_SW_VERSION>(stInterHeader_, &pcTempBuf))
+                                     ASCII_HEADER::RECEIVER_STATUS, ASCII_HEADER::MSG_DEF_CRC>(stInterHeader_, &pcTempBuf, pcTextEnd) ||
+            !DecodeAsciiHeaderField<pcAsciiFinalDelimiter, ASCII_HEADER::RECEIVER_SW_VERSION>(stInterHeader_, &pcTempBuf, pcTextEnd))
         {
             return STATUS::FAILURE;
         }
@@ -337,7 +346,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         ++pcTempBuf; // Move the input buffer past the sync char '<'
 
         // Abbreviated ascii responses have no headers
-        if (strncmp(pcTempBuf, "OK", 2) == 0 || strncmp(pcTempBuf, "ERROR", 5) == 0)
+        if (const std::string_view sText(pcTempBuf, pcTextEnd - pcTempBuf); sText.substr(0, 2) == "OK" || sText.substr(0, 5) == "ERROR")
         {
             stMetaData_.bResponse = true;
             stMetaData_.messageName = "UNKNOWN";
@@ -356,14 +365,14 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
 
         // At this point, we do not know if the format is short or not, but both have a message
         // field
-        if (!DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::MESSAGE_NAME>(stInterHeader_, &pcTempBuf)) { return STATUS::FAILURE; }
-        if (DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::PORT>(stInterHeader_, &pcTempBuf))
+        if (!DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::MESSAGE_NAME>(stInterHeader_, &pcTempBuf, pcTextEnd)) { return STATUS::FAILURE; }
+        if (DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::PORT>(stInterHeader_, &pcTempBuf, pcTextEnd))
         {
             // Port field succeeded, so this is not short format
             if (!DecodeAsciiHeaderFields<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::SEQUENCE, ASCII_HEADER::IDLE_TIME, ASCII_HEADER::TIME_STATUS,
                                          ASCII_HEADER::WEEK, ASCII_HEADER::SECONDS, ASCII_HEADER::RECEIVER_STATUS, ASCII_HEADER::MSG_DEF_CRC>(
-                    stInterHeader_, &pcTempBuf) ||
-                !DecodeAsciiHeaderField<pcAbbrevAsciiFinalDelimiter, ASCII_HEADER::RECEIVER_SW_VERSION>(stInterHeader_, &pcTempBuf))
+                    stInterHeader_, &pcTempBuf, pcTextEnd) ||
+                !DecodeAsciiHeaderField<pcAbbrevAsciiFinalDelimiter, ASCII_HEADER::RECEIVER_SW_VERSION>(stInterHeader_, &pcTempBuf, pcTextEnd))
             {
                 return STATUS::FAILURE;
             }
@@ -372,8 +381,8 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         {
             // Port field failed, so we (unsafely) assume this is short
             stMetaData_.eFormat = HEADER_FORMAT::SHORT_ABB_ASCII;
-            if (!DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::WEEK>(stInterHeader_, &pcTempBuf) ||
-                !DecodeAsciiHeaderField<pcAbbrevAsciiFinalDelimiter, ASCII_HEADER::SECONDS>(stInterHeader_, &pcTempBuf))
+            if (!DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::WEEK>(stInterHeader_, &pcTempBuf, pcTextEnd) ||
+                !DecodeAsciiHeaderField<pcAbbrevAsciiFinalDelimiter, ASCII_HEADER::SECONDS>(stInterHeader_, &pcTempBuf, pcTextEnd))
             {
                 return STATUS::FAILURE;
             }
@@ -382,8 +391,8 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
 
     case HEADER_FORMAT::SHORT_ASCII:
         ++pcTempBuf; // Move the input buffer past the sync char '%'
-        if (!DecodeAsciiHeaderFields<pcAsciiRegDelimiter, ASCII_HEADER::MESSAGE_NAME, ASCII_HEADER::WEEK>(stInterHeader_, &pcTempBuf) ||
-            !DecodeAsciiHeaderField<pcAsciiFinalDelimiter, ASCII_HEADER::SECONDS>(stInterHeader_, &pcTempBuf))
+        if (!DecodeAsciiHeaderFields<pcAsciiRegDelimiter, ASCII_HEADER::MESSAGE_NAME, ASCII_HEADER::WEEK>(stInterHeader_, &pcTempBuf, pcTextEnd) ||
+            !DecodeAsciiHeaderField<pcAsciiFinalDelimiter, ASCII_HEADER::SECONDS>(stInterHeader_, &pcTempBuf, pcTextEnd))
         {
             return STATUS::FAILURE;
         }
@@ -422,7 +431,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     case HEADER_FORMAT::JSON:
         try
         {
-            DecodeJsonHeader(pcTempBuf, stInterHeader_);
+            DecodeJsonHeader(std::string_view(pcTempBuf, pcTextEnd - pcTempBuf), stInterHeader_);
         }
         catch (std::exception& e)
         {
-- 
2.43.0


From cc2b91a6f83361de79b4d80a77506592316f7eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:24 +0000
Subject: [PATCH 53/91] fix: fail to decode the headers of JSON messages that
 have none

---
 src/decoders/oem/src/header_decoder.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 60bd047..606b104 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -210,16 +210,14 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     auto error = parser.parse(pcTempBuf_.data(), pcTempBuf_.size()).get(doc);
     if (error)
     {
-        std::cerr << "JSON parsing error: " << error << '\n';
-        return;
+        throw std::runtime_error("The header could not be decoded as the message is not valid JSON.");
     }
 
     // Access the "header" object
     simdjson::dom::element clJsonHeader_;
     if (doc["header"].get(clJsonHeader_) != simdjson::SUCCESS)
     {
-        std::cerr << "Error: JSON does not contain a 'header' object\n";
-        return;
+        throw std::runtime_error("The header could not be decoded as the JSON does not contain a 'header' object.");
     }
 
     // Decode the fields
-- 
2.43.0


From 90da50d91b4de7d7265f92b531287ac8912996c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:44 +0000
Subject: [PATCH 54/91] fix: do not keep the values of previous messages in
 fields that a message does not have

---
 .../decoders/common/message_decoder.hpp       | 33 ++++++++++++++++++-
 src/decoders/common/src/message_decoder.cpp   |  4 +++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index f9ba791..c26fa8c 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -820,7 +820,8 @@ class CompositeField
                         varFields[fieldDef->index] = std::vector<ValueT>{};
                     });
                     break;
-                case FIELD_TYPE::STRING: varFields[fieldDef->index] = std::string{}; break;
+                case FIELD_TYPE::STRING: [[fallthrough]];
+                case FIELD_TYPE::RESPONSE_STR: varFields[fieldDef->index] = std::string{}; break;
                 case FIELD_TYPE::ENUM:
                     switch (fieldDef->dataType.length)
                     {
@@ -859,6 +860,36 @@ class CompositeField
         varFields.resize(varFieldCount_);
     }
 
+    // ---------------------------------------------------------------------------
+    //! \brief Give each field the default value of its type: zero, or empty.
+    // ---------------------------------------------------------------------------
+    void Clear()
+    {
+        const size_t fixedFieldSize = fixedFields.size();
+        fixedFields.resize(0);
+        fixedFields.resize(fixedFieldSize);
+
+        if (fieldInfo == nullptr) { return; }
+
+        for (const auto& fieldDef : fieldInfo->messageOrderedFields)
+        {
+            if (fieldDef->index >= varFields.size()) { continue; } // Not a variable field
+            switch (fieldDef->type)
+            {
+            case FIELD_TYPE::FIELD_ARRAY: varFields[fieldDef->index] = CompositeFieldArray{}; break;
+            case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
+                SimpleTypeVisitor(*fieldDef, [&](auto&& arg) {
+                    using ValueT = std::conditional_t<std::is_same_v<std::decay_t<decltype(arg)>, bool>, uint8_t, std::decay_t<decltype(arg)>>;
+                    varFields[fieldDef->index] = std::vector<ValueT>{};
+                });
+                break;
+            case FIELD_TYPE::STRING: [[fallthrough]];
+            case FIELD_TYPE::RESPONSE_STR: varFields[fieldDef->index] = std::string{}; break;
+            default: break;
+            }
+        }
+    }
+
     // ---------------------------------------------------------------------------
     //! Getters for member variables
     // ---------------------------------------------------------------------------
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index c74c55d..25c63dd 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -354,6 +354,7 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                     vFieldArrayContainer[i] =
                         CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
                     vFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
+                    vFieldArrayContainer[i].Clear();
                     STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i],
                                                   uiMessageLength_ - static_cast<uint32_t>(*ppucLogBuf_ - pucTempStart));
                     if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -695,6 +696,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 pvFieldArrayContainer[i] =
                     CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
                 pvFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
+                pvFieldArrayContainer[i].Clear();
                 STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
             }
@@ -901,6 +903,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                 vFieldArrayContainer.emplace_back(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
                 auto& stSubMessageBody = vFieldArrayContainer.back();
                 stSubMessageBody.SetFieldInfo(subFieldDefinitions->fieldInfo);
+                stSubMessageBody.Clear();
 
                 // Recursively decode the subfields
                 STATUS eStatus = DecodeJson(*subFieldDefinitions->fieldInfo, element, stSubMessageBody);
@@ -963,6 +966,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
 
     stInterMessage_.resize(msgFieldInfo.fixedFieldBytes, msgFieldInfo.varFieldCount);
     stInterMessage_.SetFieldInfo(pclMsgDef, uiMessageCrc);
+    stInterMessage_.Clear(); // Fields that the message does not have must not keep the values of a previous message
 
     // Decode the detected format
     switch (stMetaData_.eFormat)
-- 
2.43.0


From 36164e28931d8cb5d83c2f8f8fb006bb32248158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 55/91] fix: do not read binary messages beyond the end of
 their body

---
 .../decoders/common/message_decoder.hpp       | 13 ++--
 src/decoders/common/src/message_decoder.cpp   | 63 ++++++++++++++-----
 2 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index c26fa8c..dabade0 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1692,8 +1692,12 @@ class MessageDecoderBase
     }
 
     // -------------------------------------------------------------------------------------------------------
-    uint32_t GetArrayLength(const unsigned char* pucTempStart, const unsigned char** ppucLogBuf_, const ArrayField& arrayDef,
-                            const CompositeField& clCompField_) const
+    //! \brief Get the number of elements of an array in a binary message.
+    //
+    //! \return The number of elements, nothing if the message has no valid one.
+    // -------------------------------------------------------------------------------------------------------
+    std::optional<uint32_t> GetArrayLength(const unsigned char* pucTempStart, const unsigned char** ppucLogBuf_, const ArrayField& arrayDef,
+                                           const CompositeField& clCompField_, const uint32_t uiMessageLength_) const
     {
         if (arrayDef.arrayLengthRef.empty())
         {
@@ -1702,6 +1706,7 @@ class MessageDecoderBase
                 throw std::runtime_error("GetArrayLength: Unsupported length size; must be 1,2 or 4");
 
             *ppucLogBuf_ += fMyAlignmentFunc(lenBytes, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
+            if (static_cast<size_t>(*ppucLogBuf_ - pucTempStart) + lenBytes > uiMessageLength_) { return std::nullopt; }
 
             uint32_t uiArrayLength = 0;
             for (std::size_t i = 0; i < lenBytes; ++i) { uiArrayLength |= static_cast<uint32_t>((*ppucLogBuf_)[i]) << (8 * i); }
@@ -1713,7 +1718,7 @@ class MessageDecoderBase
         // Traverse the decoded fields to find the arrayLengthRef field by its name.
         if (auto arrLengthRefDef = clCompField_.GetFieldInfo()->GetFieldDefByName(arrayDef.arrayLengthRef))
         {
-            const auto arraySize = std::visit(
+            return std::visit(
                 [](const auto& value) -> std::optional<uint32_t> {
                     using T = std::decay_t<decltype(value)>;
                     if constexpr (std::is_integral_v<T>)
@@ -1731,8 +1736,6 @@ class MessageDecoderBase
                     return std::nullopt;
                 },
                 clCompField_.GetFieldValueVariant(*arrLengthRefDef));
-
-            if (arraySize) { return *arraySize; }
         }
 
         throw std::runtime_error("GetArrayLength(): No matching field found for arrayLengthRef");
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 25c63dd..28d6904 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -275,16 +275,36 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                                  const uint32_t uiMessageLength_) const
 {
     const unsigned char* pucTempStart = *ppucLogBuf_;
+    const auto remaining = [&]() -> size_t {
+        const auto consumed = static_cast<size_t>(*ppucLogBuf_ - pucTempStart);
+        return consumed < uiMessageLength_ ? uiMessageLength_ - consumed : 0;
+    };
 
     for (const auto& field : vMsgDefFields_.messageOrderedFields)
     {
         auto fieldTypeLength = static_cast<uint8_t>(field->dataType.length);
         *ppucLogBuf_ += fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
 
+        // The message may lack its last fields, but not a part of one: that an array is missing depends on the field that has its length
+        if (remaining() == 0)
+        {
+            if (field->type == FIELD_TYPE::UNKNOWN || (field->type == FIELD_TYPE::SIMPLE && field->dataType.name == DATA_TYPE::UNKNOWN))
+            {
+                SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeBinary(): Unknown field type\n");
+                throw std::runtime_error("DecodeBinary(): Unknown field type\n");
+            }
+            const auto* arrayField = dynamic_cast<const ArrayField*>(field.get());
+            if (arrayField == nullptr || arrayField->arrayLengthRef.empty()) { return STATUS::SUCCESS; }
+        }
+
         switch (field->type)
         {
-        case FIELD_TYPE::SIMPLE: DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1); break;
+        case FIELD_TYPE::SIMPLE:
+            if (remaining() < field->dataType.length) { return STATUS::MALFORMED_INPUT; }
+            DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1);
+            break;
         case FIELD_TYPE::ENUM:
+            if (remaining() < field->dataType.length) { return STATUS::MALFORMED_INPUT; }
             switch (field->dataType.length)
             {
             case 1: clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<uint8_t>(*ppucLogBuf_)); break;
@@ -297,11 +317,12 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             *ppucLogBuf_ += field->dataType.length;
             break;
         case FIELD_TYPE::RESPONSE_ID:
+            if (remaining() < sizeof(int32_t)) { return STATUS::MALFORMED_INPUT; }
             clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<int32_t>(*ppucLogBuf_));
             *ppucLogBuf_ += sizeof(int32_t);
             break;
         case FIELD_TYPE::RESPONSE_STR: {
-            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), uiMessageLength_ - sizeof(int32_t)); // Remove CRC
+            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), remaining());
             clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
             // Binary response string is not null terminated or 4 byte aligned
             *ppucLogBuf_ += sTemp.size();
@@ -309,17 +330,24 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
         }
         case FIELD_TYPE::FIXED_LENGTH_ARRAY: {
             const uint32_t uiArraySize = dynamic_cast<const ArrayField*>(field.get())->arrayLength;
+            if (remaining() < static_cast<size_t>(uiArraySize) * field->dataType.length) { return STATUS::MALFORMED_INPUT; }
             DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, uiArraySize);
             break;
         }
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: {
-            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, dynamic_cast<const ArrayField&>(*field), clCompField_);
+            const auto arrayLength =
+                GetArrayLength(pucTempStart, ppucLogBuf_, dynamic_cast<const ArrayField&>(*field), clCompField_, uiMessageLength_);
+            if (!arrayLength.has_value()) { return STATUS::MALFORMED_INPUT; }
+            const uint32_t uiArraySize = *arrayLength;
+            if (remaining() < static_cast<size_t>(uiArraySize) * field->dataType.length) { return STATUS::MALFORMED_INPUT; }
             DecodeBinaryField<false>(*field, ppucLogBuf_, clCompField_, uiArraySize);
             break;
         }
         case FIELD_TYPE::STRING: {
-            // This version of a string is different. It is hopefully null terminated.
-            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_));
+            // This version of a string is different. It must be null terminated.
+            const auto* pucTerminator = static_cast<const unsigned char*>(std::memchr(*ppucLogBuf_, '\0', remaining()));
+            if (pucTerminator == nullptr) { return STATUS::MALFORMED_INPUT; }
+            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), pucTerminator - *ppucLogBuf_);
             clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
             *ppucLogBuf_ += sTemp.size() + 1; // + 1 to consume the NULL at the end of the string.
             AddStringFieldPadding(pucTempStart, ppucLogBuf_);
@@ -333,11 +361,14 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                 return STATUS::MALFORMED_INPUT;
             }
             const auto* subFieldDefinitions = fieldArrayDef.get();
-            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, *subFieldDefinitions, clCompField_);
+            const auto arrayLength = GetArrayLength(pucTempStart, ppucLogBuf_, *subFieldDefinitions, clCompField_, uiMessageLength_);
+            if (!arrayLength.has_value()) { return STATUS::MALFORMED_INPUT; }
+            const uint32_t uiArraySize = *arrayLength;
 
             if (subFieldDefinitions->fieldInfo->varFieldCount == 0)
             {
-                const size_t totalBytes = uiArraySize * subFieldDefinitions->fieldInfo->fixedFieldBytes;
+                const size_t totalBytes = static_cast<size_t>(uiArraySize) * subFieldDefinitions->fieldInfo->fixedFieldBytes;
+                if (remaining() < totalBytes) { return STATUS::MALFORMED_INPUT; }
                 // Store flat FIELD_ARRAY directly as std::vector<std::byte>
                 std::vector<std::byte> flatFieldData(reinterpret_cast<const std::byte*>(*ppucLogBuf_),
                                                      reinterpret_cast<const std::byte*>(*ppucLogBuf_) + totalBytes);
@@ -346,17 +377,17 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             }
             else
             {
-                std::vector<CompositeField> vFieldArrayContainer(uiArraySize);
+                std::vector<CompositeField> vFieldArrayContainer;
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
                     *ppucLogBuf_ +=
                         fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
-                    vFieldArrayContainer[i] =
-                        CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
-                    vFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
-                    vFieldArrayContainer[i].Clear();
-                    STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i],
-                                                  uiMessageLength_ - static_cast<uint32_t>(*ppucLogBuf_ - pucTempStart));
+                    if (remaining() == 0) { return STATUS::MALFORMED_INPUT; }
+                    auto& stRow = vFieldArrayContainer.emplace_back(subFieldDefinitions->fieldInfo->fixedFieldBytes,
+                                                                    subFieldDefinitions->fieldInfo->varFieldCount);
+                    stRow.SetFieldInfo(subFieldDefinitions->fieldInfo);
+                    stRow.Clear();
+                    STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, stRow, static_cast<uint32_t>(remaining()));
                     if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 }
                 clCompField_.SetFieldValue(*field, std::move(vFieldArrayContainer));
@@ -367,8 +398,6 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeBinary(): Unknown field type\n");
             throw std::runtime_error("DecodeBinary(): Unknown field type\n");
         }
-
-        if (*ppucLogBuf_ - pucTempStart >= static_cast<int32_t>(uiMessageLength_)) { return STATUS::SUCCESS; }
     }
     return STATUS::SUCCESS;
 }
@@ -987,7 +1016,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     }
     case HEADER_FORMAT::BINARY: [[fallthrough]];
     case HEADER_FORMAT::SHORT_BINARY:
-        if (msgFieldInfo.varFieldCount == 0)
+        if (msgFieldInfo.varFieldCount == 0 && stMetaData_.uiBinaryMsgLength >= msgFieldInfo.fixedFieldBytes)
         {
             // Fast path: if there are no variable-length fields, copy the entire message to the fixed region
             stInterMessage_.SetFieldValue<true>(0, reinterpret_cast<const std::byte*>(pucTempInData), msgFieldInfo.fixedFieldBytes);
-- 
2.43.0


From 158a26ffcbd59d18042a70729123564393d8d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 56/91] fix: do not read text messages beyond the end of their
 fields

---
 .../novatel_edie/decoders/common/common.hpp   |   5 +-
 .../decoders/common/message_decoder.hpp       |   2 +-
 src/decoders/common/src/common.cpp            |   4 +-
 src/decoders/common/src/message_decoder.cpp   | 121 +++++++++++-------
 src/decoders/oem/src/message_decoder.cpp      |   3 +-
 5 files changed, 84 insertions(+), 51 deletions(-)

diff --git a/include/novatel_edie/decoders/common/common.hpp b/include/novatel_edie/decoders/common/common.hpp
index a7ec149..503b634 100644
--- a/include/novatel_edie/decoders/common/common.hpp
+++ b/include/novatel_edie/decoders/common/common.hpp
@@ -404,9 +404,10 @@ int32_t GetResponseId(const novatel::edie::EnumDefinition::ConstPtr& stRespDef_,
 //
 //! \param[in] ppcMessageBuffer_ A pointer to the buffer containing the
 //! message to have abbreviated ASCII formatting stripped.
-//! Message is assumed to be null terminated.
+//! \param[in] pcBufEnd_ The end of the buffer, or nullptr if the message is
+//! null terminated.
 //-----------------------------------------------------------------------
-void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_);
+void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_, const char* pcBufEnd_ = nullptr);
 
 //-----------------------------------------------------------------------
 //! \brief Get the length of the text in a buffer.
diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index dabade0..c01f785 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1633,7 +1633,7 @@ class MessageDecoderBase
         // As of 6/26/2025 spaces may appear within ascii fields of OUTPUTDATUM and SETALIGNMENTVEL as they use conversion strings with width
         // values. EDIE supports decoding of this data but will never pad fields with spaces during encoding.
         uint32_t offset = 0;
-        while ((token[offset] == ' ') && (offset < tokenLength - 1)) { ++offset; }
+        while (offset + 1 < tokenLength && token[offset] == ' ') { ++offset; }
 
         if constexpr (std::is_integral_v<T>) { result = std::from_chars(token + offset, token + tokenLength, value, R); }
         else if constexpr (std::is_floating_point_v<T>) { result = std::from_chars(token + offset, token + tokenLength, value); }
diff --git a/src/decoders/common/src/common.cpp b/src/decoders/common/src/common.cpp
index 3956ffa..bb4cb6c 100644
--- a/src/decoders/common/src/common.cpp
+++ b/src/decoders/common/src/common.cpp
@@ -107,9 +107,9 @@ int32_t GetResponseId(const std::shared_ptr<const EnumDefinition>& stRespDef_, s
 }
 
 //-----------------------------------------------------------------------
-void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_)
+void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_, const char* pcBufEnd_)
 {
-    while (true)
+    while (pcBufEnd_ == nullptr || *ppcMessageBuffer_ < pcBufEnd_)
     {
         switch (**ppcMessageBuffer_)
         {
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 28d6904..b02c447 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -425,15 +425,33 @@ void MessageDecoderBase::DecodeAsciiField(const BaseField& field_, const char**
 }
 
 // -------------------------------------------------------------------------------------------------------
+// Find the length of the text up to one of the delimiters, a null terminator or the end of the buffer
+static size_t TokenLength(const char* pcText_, const char* pcBufEnd_, std::string_view svDelimiters_)
+{
+    const char* pcTokenEnd = pcText_;
+    while (pcTokenEnd < pcBufEnd_ && *pcTokenEnd != '\0' && svDelimiters_.find(*pcTokenEnd) == std::string_view::npos) { ++pcTokenEnd; }
+    return static_cast<size_t>(pcTokenEnd - pcText_);
+}
+
+// Decode two hexadecimal digits
+static bool DecodeHexByte(uint32_t& uiValue_, const char** ppcLogBuf_, const char* pcBufEnd_)
+{
+    if (pcBufEnd_ - *ppcLogBuf_ < 2) { return false; }
+    const auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + 2, uiValue_, 16);
+    if (result.ec != std::errc() || result.ptr != *ppcLogBuf_ + 2) { return false; }
+    *ppcLogBuf_ += 2;
+    return true;
+}
+
 // Decode an ASCII array formatted with the %Z conversion string
-static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, const char* pcBufEnd_,
+                                                uint32_t uiArraySize_)
 {
     vDecodedValues_.resize(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
         uint32_t uiValueRead = 0;
-        if (sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
-        *ppcLogBuf_ += 2;
+        if (!DecodeHexByte(uiValueRead, ppcLogBuf_, pcBufEnd_)) { return STATUS::MALFORMED_INPUT; }
         vDecodedValues_[i] = static_cast<uint8_t>(uiValueRead);
     }
 
@@ -441,27 +459,27 @@ static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedVa
 }
 
 // Decode an ASCII array field that is not comma separated, e.g. a raw ASCII value or hex representation
-template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_)
+template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_, const char* pcBufEnd_)
 {
     // The text ended before the array did
-    if (**ppcLogBuf_ == '\0') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ == '\0') { return STATUS::MALFORMED_INPUT; }
+    const std::string_view svEscape(*ppcLogBuf_, std::min<size_t>(2, pcBufEnd_ - *ppcLogBuf_));
 
     // Escaped '\' character
-    if (strncmp("\\\\", *ppcLogBuf_, 2) == 0)
+    if (svEscape == "\\\\")
     {
         *ppcLogBuf_ += 1;
         cValue_ = static_cast<CharType>(**ppcLogBuf_);
         *ppcLogBuf_ += 1; // Consume 1 char
     }
     // Non-ascii char in hex e.g. \x0C
-    else if (strncmp("\\x", *ppcLogBuf_, 2) == 0)
+    else if (svEscape == "\\x")
     {
         *ppcLogBuf_ += 2; // Consume the '\x' that signifies hex without a char representation
         uint32_t uiValueRead = 0;
-        if (sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
+        if (!DecodeHexByte(uiValueRead, ppcLogBuf_, pcBufEnd_)) { return STATUS::MALFORMED_INPUT; }
 
         cValue_ = static_cast<CharType>(uiValueRead);
-        *ppcLogBuf_ += 2;
     }
     // Ascii character
     else
@@ -474,13 +492,13 @@ template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayFiel
 
 // Decode an ASCII array made up of non-comma separated values, e.g. a raw ASCII values or hex representations
 template <typename CharType>
-static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, const char** ppcLogBuf_, const BaseField::ConstPtr& field_,
-                                                uint32_t uiArraySize_, bool fixed_)
+static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, const char** ppcLogBuf_, const char* pcBufEnd_,
+                                                const BaseField::ConstPtr& field_, uint32_t uiArraySize_, bool fixed_)
 {
     std::vector<CharType> vDecodedValues(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
     if (fixed_) { clCompField_.SetFieldValue<true>(field_->index, std::move(vDecodedValues)); }
@@ -489,24 +507,24 @@ static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, co
 }
 
 // Decode an ASCII array which is formatted like a string with opening and closing quotes, e.g. "string value"
-static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, const char* pcBufEnd_, uint32_t uiArraySize_)
 {
     sDecodedValue_.assign(uiArraySize_, '\0');
 
     // Look for opening double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        if (**ppcLogBuf_ == '\"') { break; }
+        if (*ppcLogBuf_ < pcBufEnd_ && **ppcLogBuf_ == '\"') { break; }
 
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
 
     // Look for closing double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     return STATUS::SUCCESS;
@@ -516,25 +534,24 @@ template <bool Abbreviated>
 STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const char** ppcLogBuf_, CompositeField& clCompField_,
                                        const char* pcBufEnd_) const
 {
-    constexpr char fieldDelim = Abbreviated ? ' ' : ',';
     constexpr char endDelim = Abbreviated ? '\r' : '*';
 
-    // Null-terminated C-strings for strcspn
-    constexpr std::array<char, 3> tokenDelimiters = {fieldDelim, endDelim, '\0'};
-    constexpr std::array<char, 3> unquotedStringDelimiters = {fieldDelim, endDelim, '\0'};
-    constexpr std::array<char, 2> quotedStringDelimiters = {'\"', '\0'};
-    constexpr std::array<char, 2> unclosedStringDelimiters = {endDelim, '\0'};
-    constexpr std::array<char, 2> responseDelimiters = {endDelim, '\0'};
+    constexpr std::string_view tokenDelimiters = Abbreviated ? " \r" : ",*";
+    constexpr std::string_view quotedStringDelimiters = "\"";
+    constexpr std::string_view endDelimiters = Abbreviated ? "\r" : "*";
 
-    if (pcBufEnd_ == nullptr) { pcBufEnd_ = static_cast<const char*>(std::memchr(*ppcLogBuf_, '\0', MAX_ASCII_MESSAGE_LENGTH)); }
+    if (pcBufEnd_ == nullptr) { pcBufEnd_ = *ppcLogBuf_ + std::strlen(*ppcLogBuf_); }
+
+    // Whether the delimiter consumed last was the one that ends the message, if there even was one: what follows is not part of its fields
+    const auto isEndConsumed = [&] { return *ppcLogBuf_ > pcBufEnd_ || (!Abbreviated && *(*ppcLogBuf_ - 1) == endDelim); };
 
     for (const auto& field : vMsgDefFields_.messageOrderedFields)
     {
-        if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; } // We encountered the end of the buffer unexpectedly
+        if constexpr (Abbreviated) { ConsumeAbbrevFormatting(ppcLogBuf_, pcBufEnd_); }
 
-        if constexpr (Abbreviated) { ConsumeAbbrevFormatting(ppcLogBuf_); }
+        if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; } // We encountered the end of the buffer unexpectedly
 
-        size_t tokenLength = strcspn(*ppcLogBuf_, tokenDelimiters.data());
+        size_t tokenLength = TokenLength(*ppcLogBuf_, pcBufEnd_, tokenDelimiters);
         // Only strings may be empty, and the raw characters of a fixed-length array may be delimiters
         if (tokenLength == 0 && (Abbreviated || field->type != FIELD_TYPE::STRING) &&
             (field->type != FIELD_TYPE::FIXED_LENGTH_ARRAY || field->isCsv))
@@ -549,7 +566,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             {
                 DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_);
             }
-            catch (const std::runtime_error&)
+            catch (const std::exception&)
             {
                 SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAsciiField(): Exception when decoding field. Malformed Input\n");
                 return STATUS::MALFORMED_INPUT;
@@ -579,14 +596,14 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 break;
             case '"':
                 // If a field delimiter character is in the string, the previous tokenLength value is invalid.
-                tokenLength = strcspn(*ppcLogBuf_ + 1, quotedStringDelimiters.data()); // Look for LAST '"' character, skipping past the first.
-                if (*(*ppcLogBuf_ + 1 + tokenLength) != '\"')
+                tokenLength = TokenLength(*ppcLogBuf_ + 1, pcBufEnd_, quotedStringDelimiters); // Look for LAST '"' character, skipping past the first.
+                if (*ppcLogBuf_ + 1 + tokenLength >= pcBufEnd_ || *(*ppcLogBuf_ + 1 + tokenLength) != '\"')
                 { // The closing '"' is missing, do not take the end of the message into the string.
-                    tokenLength = strcspn(*ppcLogBuf_ + 1, unclosedStringDelimiters.data());
+                    tokenLength = TokenLength(*ppcLogBuf_ + 1, pcBufEnd_, endDelimiters);
                 }
                 clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_ + 1, tokenLength)); // + 1 to pass opening double-quote.
                 // Skip past the first '"', string token and the remaining characters ('"' and ',').
-                *ppcLogBuf_ += tokenLength + strcspn(*ppcLogBuf_ + tokenLength + 1, unquotedStringDelimiters.data()) + 2;
+                *ppcLogBuf_ += tokenLength + TokenLength(*ppcLogBuf_ + tokenLength + 1, pcBufEnd_, tokenDelimiters) + 2;
                 break;
             default:
                 // Unquoted string: initial tokenLength is the length of the string
@@ -597,7 +614,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             break;
         case FIELD_TYPE::RESPONSE_ID: {
             // Ensure we get the whole response (skip over delimiters in responses)
-            tokenLength = strcspn(*ppcLogBuf_, responseDelimiters.data());
+            tokenLength = TokenLength(*ppcLogBuf_, pcBufEnd_, endDelimiters);
             std::string_view sResponse(*ppcLogBuf_, tokenLength);
             if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, static_cast<int32_t>(1)); }
             // Note: This won't match responses with format specifiers in them (%d, %s, etc.), they will be given id=0
@@ -607,7 +624,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
         }
         case FIELD_TYPE::RESPONSE_STR:
             // Response strings aren't surrounded by double quotes, ensure we get the whole response (skip over certain delimiters in responses)
-            tokenLength = strcspn(*ppcLogBuf_, responseDelimiters.data());
+            tokenLength = TokenLength(*ppcLogBuf_, pcBufEnd_, endDelimiters);
             clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_, tokenLength));
             *ppcLogBuf_ += tokenLength + 1;
             break;
@@ -618,7 +635,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             if (fixed) { uiArraySize = dynamic_cast<const ArrayField*>(field.get())->arrayLength; }
             else
             {
-                auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength + 1, uiArraySize);
+                auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength, uiArraySize);
                 if (result.ec != std::errc())
                 {
                     SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAscii()::VARIABLE_LENGTH_ARRAY: Array length not valid number. Malformed Input\n");
@@ -632,7 +649,11 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
 
                 *ppcLogBuf_ += tokenLength + 1;
-                tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
+                if (isEndConsumed())
+                {
+                    if (uiArraySize > 0) { return STATUS::MALFORMED_INPUT; }
+                    break;
+                }
             }
 
             STATUS eStatus = STATUS::SUCCESS;
@@ -640,7 +661,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             {
                 assert(field->dataType.name == DATA_TYPE::UCHAR || field->dataType.name == DATA_TYPE::HEXBYTE);
                 std::vector<uint8_t> vDecodedValues;
-                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, uiArraySize);
+                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, pcBufEnd_, uiArraySize);
                 if (eStatus == STATUS::SUCCESS)
                 {
                     if (fixed)
@@ -654,7 +675,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             else if (field->isString)
             {
                 std::string sDecodedValue;
-                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, uiArraySize);
+                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, pcBufEnd_, uiArraySize);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 SetCharacterArray(clCompField_, *field, sDecodedValue, fixed);
                 *ppcLogBuf_ += 1;
@@ -662,8 +683,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             else if (!field->isCsv)
             {
                 eStatus = field->dataType.name == DATA_TYPE::CHAR
-                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed)
-                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed);
+                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed)
+                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 *ppcLogBuf_ += 1;
             }
@@ -679,8 +700,17 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
-                    tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
-                    DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
+                    if (*ppcLogBuf_ >= pcBufEnd_ || (i > 0 && isEndConsumed())) { return STATUS::MALFORMED_INPUT; }
+                    tokenLength = TokenLength(*ppcLogBuf_, pcBufEnd_, tokenDelimiters);
+                    try
+                    {
+                        DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
+                    }
+                    catch (const std::exception&)
+                    {
+                        SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAsciiField(): Exception when decoding array. Malformed Input\n");
+                        return STATUS::MALFORMED_INPUT;
+                    }
                     *ppcLogBuf_ += tokenLength + 1;
                 }
             }
@@ -694,7 +724,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
         }
         case FIELD_TYPE::FIELD_ARRAY: {
             uint32_t uiArraySize;
-            auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength + 1, uiArraySize);
+            auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength, uiArraySize);
             if (result.ec != std::errc())
             {
                 SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAscii()::FIELD_ARRAY: Field Array length not valid number. Malformed Input\n");
@@ -722,6 +752,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
             for (uint32_t i = 0; i < uiArraySize; ++i)
             {
+                if (isEndConsumed()) { return STATUS::MALFORMED_INPUT; }
                 pvFieldArrayContainer[i] =
                     CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
                 pvFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
@@ -740,7 +771,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
         if constexpr (!Abbreviated)
         {
             // The characters of strings and arrays may be delimiters, only the one that follows the field can be the end of the message
-            if (field->type != FIELD_TYPE::RESPONSE_ID && *(*ppcLogBuf_ - 1) == endDelim) { break; }
+            if (field->type != FIELD_TYPE::RESPONSE_ID && *ppcLogBuf_ <= pcBufEnd_ && isEndConsumed()) { break; }
         }
     }
 
diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index 4860428..4c435d5 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -84,7 +84,7 @@ void MessageDecoder::InitOemFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("ucb")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_, const char** ppcToken_,
                                                    [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                    [[maybe_unused]] MessageDatabase& pclMsgDb_) {
-        const uint32_t value = static_cast<uint32_t>(std::bitset<8>(*ppcToken_).to_ulong());
+        const uint32_t value = static_cast<uint32_t>(std::bitset<8>(*ppcToken_, tokenLength_).to_ulong());
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
         else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
     };
@@ -137,6 +137,7 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         // RXCONFIG in ASCII is always #COMMANDNAMEA
+        if (tokenLength_ < 2) { throw std::runtime_error("Failed to parse message name"); }
         MessageDefinition::ConstPtr pclMessageDef = pclMsgDb_.GetMsgDef(std::string_view(*ppcToken_ + 1, tokenLength_ - 2)); // + 1 to Skip the '#'
         const uint32_t value = pclMessageDef != nullptr ? CreateMsgId(pclMessageDef->logID, 0, 1, 0) : 0;
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
-- 
2.43.0


From c0a140765ce3b3a5ddc7ba95fab4c8f1c3ac1ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:41 +0000
Subject: [PATCH 57/91] fix: refuse JSON arrays that are longer than their
 field, and do not throw on malformed JSON values

---
 src/decoders/common/src/message_decoder.cpp | 25 +++++++++++----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index b02c447..043c33b 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -801,7 +801,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
             {
                 DecodeJsonField(*field, clField, clCompField_);
             }
-            catch (const std::runtime_error&)
+            catch (const std::exception&)
             {
                 SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeJsonField(): Exception when decoding field. Malformed Input\n");
                 return STATUS::MALFORMED_INPUT;
@@ -849,16 +849,16 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: {
             const bool fixed = (field->type == FIELD_TYPE::FIXED_LENGTH_ARRAY);
             const auto* arrayField = dynamic_cast<const ArrayField*>(field.get());
-            const uint32_t uiArraySize = (fixed && arrayField != nullptr) ? arrayField->arrayLength : 0;
+            const uint32_t uiArraySize = arrayField != nullptr ? arrayField->arrayLength : 0;
 
             if (field->isString)
             {
                 std::string_view strValue;
                 if (clField.get(strValue) == simdjson::SUCCESS)
                 {
+                    if (strValue.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
                     if (fixed)
                     {
-                        if (strValue.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
                         std::vector<uint8_t> vDecodedValues(uiArraySize, 0);
                         for (size_t i = 0; i < strValue.size(); ++i) { vDecodedValues[i] = static_cast<uint8_t>(strValue[i]); }
                         if (!vDecodedValues.empty()) { clCompField_.SetFieldValue<true>(field->index, vDecodedValues.data(), vDecodedValues.size()); }
@@ -871,11 +871,11 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                 simdjson::dom::array array;
                 if (clField.get(array) == simdjson::SUCCESS)
                 {
+                    if (array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
                     if (field->conversionHash == CalculateBlockCrc32("Z"))
                     {
                         if (fixed)
                         {
-                            if (array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
                             std::vector<uint8_t> vDecodedValues(uiArraySize, 0);
                             size_t i = 0;
                             for (simdjson::dom::element it : array)
@@ -904,7 +904,6 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                     }
                     else if (field->conversionHash == CalculateBlockCrc32("P"))
                     {
-                        if (fixed && array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
                         std::vector<uint8_t> vDecodedValues;
                         vDecodedValues.reserve(array.size());
                         for (simdjson::dom::element it : array)
@@ -918,11 +917,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                     }
                     else
                     {
-                        if (fixed)
-                        {
-                            if (array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
-                        }
-                        else
+                        if (!fixed)
                         {
                             SimpleTypeVisitor(*field, [&](auto&& arg) {
                                 using T = std::decay_t<decltype(arg)>;
@@ -935,7 +930,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                             size_t i = 0;
                             for (simdjson::dom::element it : array) { DecodeJsonField(*field, it, clCompField_, i++, fixed); }
                         }
-                        catch (const std::runtime_error&)
+                        catch (const std::exception&)
                         {
                             SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeJsonField(): Exception when decoding array. Malformed Input\n");
                             return STATUS::MALFORMED_INPUT;
@@ -955,6 +950,8 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
             if (!fieldArrayDef) { return STATUS::MALFORMED_INPUT; }
             const auto* subFieldDefinitions = fieldArrayDef.get();
 
+            if (array.size() > subFieldDefinitions->arrayLength) { return STATUS::MALFORMED_INPUT; }
+
             std::vector<CompositeField> vFieldArrayContainer;
             vFieldArrayContainer.reserve(array.size());
 
@@ -1058,7 +1055,11 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
         simdjson::dom::parser parser;
         simdjson::dom::element clJsonFields;
 
-        std::string_view jsonStringView(reinterpret_cast<const char*>(pucTempInData)); // Assumes null-terminated data
+        const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
+        // Assumes null-terminated data if the length of the message is not known
+        std::string_view jsonStringView(
+            pcTempInData,
+            TextLength(pcTempInData, stMetaData_.uiLength > stMetaData_.uiHeaderLength ? stMetaData_.uiLength - stMetaData_.uiHeaderLength : 0));
 
         auto error = parser.parse(jsonStringView).get(clJsonFields);
         if (error)
-- 
2.43.0


From 31a939c28fa50917e5e69fc4857cdd64ef691cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:07 +0000
Subject: [PATCH 58/91] fix: do not take the checksum of a message into its
 arrays

---
 src/decoders/common/src/message_decoder.cpp | 25 +++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 043c33b..1853474 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -542,6 +542,13 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
     if (pcBufEnd_ == nullptr) { pcBufEnd_ = *ppcLogBuf_ + std::strlen(*ppcLogBuf_); }
 
+    // The characters of arrays may be delimiters, but the end of the message is not one of them
+    const char* pcArrayEnd = pcBufEnd_;
+    if constexpr (!Abbreviated)
+    {
+        if (pcArrayEnd > *ppcLogBuf_ && *(pcArrayEnd - 1) == endDelim) { --pcArrayEnd; }
+    }
+
     // Whether the delimiter consumed last was the one that ends the message, if there even was one: what follows is not part of its fields
     const auto isEndConsumed = [&] { return *ppcLogBuf_ > pcBufEnd_ || (!Abbreviated && *(*ppcLogBuf_ - 1) == endDelim); };
 
@@ -661,7 +668,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             {
                 assert(field->dataType.name == DATA_TYPE::UCHAR || field->dataType.name == DATA_TYPE::HEXBYTE);
                 std::vector<uint8_t> vDecodedValues;
-                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, pcBufEnd_, uiArraySize);
+                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, pcArrayEnd, uiArraySize);
                 if (eStatus == STATUS::SUCCESS)
                 {
                     if (fixed)
@@ -675,7 +682,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             else if (field->isString)
             {
                 std::string sDecodedValue;
-                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, pcBufEnd_, uiArraySize);
+                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, pcArrayEnd, uiArraySize);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 SetCharacterArray(clCompField_, *field, sDecodedValue, fixed);
                 *ppcLogBuf_ += 1;
@@ -683,8 +690,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             else if (!field->isCsv)
             {
                 eStatus = field->dataType.name == DATA_TYPE::CHAR
-                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed)
-                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed);
+                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, pcArrayEnd, field, uiArraySize, fixed)
+                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, pcArrayEnd, field, uiArraySize, fixed);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 *ppcLogBuf_ += 1;
             }
@@ -1031,9 +1038,13 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     case HEADER_FORMAT::ASCII: [[fallthrough]];
     case HEADER_FORMAT::SHORT_ASCII: {
         const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
-        return DecodeAscii<false>(msgFieldInfo, &pcTempInData, stInterMessage_,
-                                  stMetaData_.uiLength > stMetaData_.uiHeaderLength ? pcTempInData + stMetaData_.uiLength - stMetaData_.uiHeaderLength
-                                                                                    : nullptr);
+        std::string_view svText(
+            pcTempInData,
+            TextLength(pcTempInData, stMetaData_.uiLength > stMetaData_.uiHeaderLength ? stMetaData_.uiLength - stMetaData_.uiHeaderLength : 0));
+        // The checksum is not part of the fields
+        const size_t checksum = svText.rfind('*');
+        if (checksum != std::string_view::npos && svText.size() >= 2 && svText.substr(svText.size() - 2) == "\r\n") { svText = svText.substr(0, checksum + 1); }
+        return DecodeAscii<false>(msgFieldInfo, &pcTempInData, stInterMessage_, svText.data() + svText.size());
     }
     case HEADER_FORMAT::ABB_ASCII: [[fallthrough]];
     case HEADER_FORMAT::SHORT_ABB_ASCII: {
-- 
2.43.0


From 379bcdf7da8b54b1ad0f8b97f784c892dbda3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:20 +0000
Subject: [PATCH 59/91] fix: do not read abbreviated messages without a body,
 nor take their line ends into arrays

---
 src/decoders/common/src/message_decoder.cpp | 23 +++++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 1853474..1b8ca1a 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -544,7 +544,11 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
     // The characters of arrays may be delimiters, but the end of the message is not one of them
     const char* pcArrayEnd = pcBufEnd_;
-    if constexpr (!Abbreviated)
+    if constexpr (Abbreviated)
+    {
+        if (pcArrayEnd - *ppcLogBuf_ >= 2 && *(pcArrayEnd - 2) == endDelim && *(pcArrayEnd - 1) == '\n') { pcArrayEnd -= 2; }
+    }
+    else
     {
         if (pcArrayEnd > *ppcLogBuf_ && *(pcArrayEnd - 1) == endDelim) { --pcArrayEnd; }
     }
@@ -1032,15 +1036,19 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     stInterMessage_.SetFieldInfo(pclMsgDef, uiMessageCrc);
     stInterMessage_.Clear(); // Fields that the message does not have must not keep the values of a previous message
 
+    // The length of messages that were not framed is not known: text is null-terminated then
+    const size_t bodyLength = stMetaData_.uiLength > stMetaData_.uiHeaderLength ? stMetaData_.uiLength - stMetaData_.uiHeaderLength : 0;
+    const auto textLength = [&](const char* pcText) {
+        return stMetaData_.uiLength != 0 && bodyLength == 0 ? size_t{0} : TextLength(pcText, bodyLength);
+    };
+
     // Decode the detected format
     switch (stMetaData_.eFormat)
     {
     case HEADER_FORMAT::ASCII: [[fallthrough]];
     case HEADER_FORMAT::SHORT_ASCII: {
         const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
-        std::string_view svText(
-            pcTempInData,
-            TextLength(pcTempInData, stMetaData_.uiLength > stMetaData_.uiHeaderLength ? stMetaData_.uiLength - stMetaData_.uiHeaderLength : 0));
+        std::string_view svText(pcTempInData, textLength(pcTempInData));
         // The checksum is not part of the fields
         const size_t checksum = svText.rfind('*');
         if (checksum != std::string_view::npos && svText.size() >= 2 && svText.substr(svText.size() - 2) == "\r\n") { svText = svText.substr(0, checksum + 1); }
@@ -1050,8 +1058,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     case HEADER_FORMAT::SHORT_ABB_ASCII: {
         const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
         return DecodeAscii<true>(msgFieldInfo, &pcTempInData, stInterMessage_,
-                                 stMetaData_.uiLength > stMetaData_.uiHeaderLength ? pcTempInData + stMetaData_.uiLength - stMetaData_.uiHeaderLength
-                                                                                   : nullptr);
+                                 stMetaData_.uiLength != 0 ? pcTempInData + bodyLength : nullptr);
     }
     case HEADER_FORMAT::BINARY: [[fallthrough]];
     case HEADER_FORMAT::SHORT_BINARY:
@@ -1068,9 +1075,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
 
         const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
         // Assumes null-terminated data if the length of the message is not known
-        std::string_view jsonStringView(
-            pcTempInData,
-            TextLength(pcTempInData, stMetaData_.uiLength > stMetaData_.uiHeaderLength ? stMetaData_.uiLength - stMetaData_.uiHeaderLength : 0));
+        std::string_view jsonStringView(pcTempInData, textLength(pcTempInData));
 
         auto error = parser.parse(jsonStringView).get(clJsonFields);
         if (error)
-- 
2.43.0


From 49f9e2e5159cefef76f2bacaadec15ed3dd3d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:06 +0000
Subject: [PATCH 60/91] fix: do not copy command parameters beyond a fixed
 size, nor take a name without parameters for them

---
 src/decoders/oem/src/commander.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 7974972..879144b 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -65,12 +65,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
     const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
-
-    char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    char* pcCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
+    const std::string strCmdParams = ullPos == std::string::npos ? "" : strAbbrevAsciiCommand.substr(ullPos + 1);
 
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
@@ -87,7 +82,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
 
-    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<unsigned char*>(pcCmdParams), stIntermediateMessage, stMetaData);
+    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     // Prime the intermediate header with information we already know
@@ -122,12 +117,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
     const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
-
-    unsigned char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    unsigned char* pucCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
+    const std::string strCmdParams = ullPos == std::string::npos ? "" : strAbbrevAsciiCommand.substr(ullPos + 1);
 
     MessageDefinition::ConstPtr pclMessageDef = clJsonDb_.GetMsgDef(strCmdName);
     if (!pclMessageDef) { return STATUS::NO_DEFINITION; }
@@ -142,7 +132,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
 
-    const STATUS eDecoderStatus = clMessageDecoder_.Decode(pucCmdParams, stIntermediateMessage, stMetaData);
+    const STATUS eDecoderStatus = clMessageDecoder_.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eDecoderStatus != STATUS::SUCCESS) { return eDecoderStatus; }
 
     // Prime the intermediate header with information we already know
-- 
2.43.0


From b5762bfeb34e3deda4fbfb07d4c383142d09b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:06 +0000
Subject: [PATCH 61/91] fix: encode commands by the latest of their definitions

---
 src/decoders/oem/src/commander.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 879144b..4d48281 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -80,7 +80,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
     STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -130,7 +130,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
     const STATUS eDecoderStatus = clMessageDecoder_.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eDecoderStatus != STATUS::SUCCESS) { return eDecoderStatus; }
-- 
2.43.0


From 4ae38f4786ff1ed285272f56c07c4312870e78d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:19 +0000
Subject: [PATCH 62/91] fix: encode commands with the database that a commander
 loaded last

---
 src/decoders/oem/src/commander.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 4d48281..f29ae67 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -41,6 +41,8 @@ Commander::Commander(MessageDatabase::Ptr pclMessageDb_) : clMyMessageDecoder(pc
 void Commander::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
     pclMyMsgDb = pclMessageDb_;
+    clMyMessageDecoder.LoadJsonDb(pclMessageDb_);
+    clMyEncoder.LoadJsonDb(pclMessageDb_);
     InitEnumDefinitions();
 }
 
-- 
2.43.0


From 7f4cb33bf121f1f3a1bf5e398121b861f663925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 63/91] fix: refuse commands with characters that can not be
 framed

---
 src/decoders/oem/src/commander.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index f29ae67..6684f7f 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -26,6 +26,8 @@
 
 #include "novatel_edie/decoders/oem/commander.hpp"
 
+#include <algorithm>
+
 using namespace novatel::edie;
 using namespace novatel::edie::oem;
 
@@ -65,6 +67,12 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     if (eEncodeFormat_ != ENCODE_FORMAT::ASCII && eEncodeFormat_ != ENCODE_FORMAT::BINARY) { return STATUS::UNSUPPORTED; }
 
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
+    // Messages with other characters can not be framed
+    if (std::any_of(strAbbrevAsciiCommand.begin(), strAbbrevAsciiCommand.end(), [](unsigned char c) { return c > 0x7F; }))
+    {
+        return STATUS::MALFORMED_INPUT;
+    }
+
     const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = ullPos == std::string::npos ? "" : strAbbrevAsciiCommand.substr(ullPos + 1);
@@ -117,6 +125,12 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     if (eEncodeFormat_ != ENCODE_FORMAT::ASCII && eEncodeFormat_ != ENCODE_FORMAT::BINARY) { return STATUS::UNSUPPORTED; }
 
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
+    // Messages with other characters can not be framed
+    if (std::any_of(strAbbrevAsciiCommand.begin(), strAbbrevAsciiCommand.end(), [](unsigned char c) { return c > 0x7F; }))
+    {
+        return STATUS::MALFORMED_INPUT;
+    }
+
     const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = ullPos == std::string::npos ? "" : strAbbrevAsciiCommand.substr(ullPos + 1);
-- 
2.43.0


From b793bbb530a691ecbe32b832595e6779e1265224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 64/91] fix: escape characters of quoted ASCII arrays that can
 not be framed

---
 src/decoders/oem/src/encoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 94b1fad..c946ad0 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -101,9 +101,9 @@ void Encoder::InitFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
         const char cValue = GetCharacter(fd_, cf_, offset);
-        // The decoder resolves escape sequences and ends at a double quote
+        // The decoder resolves escape sequences and ends at a double quote, and only ASCII characters can be framed
         if (cValue == '\\') { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\\\"); }
-        if (cValue == '"' || (cValue > 0 && cValue < 32) || cValue == 127)
+        if (cValue == '"' || (cValue > 0 && cValue < 32) || static_cast<uint8_t>(cValue) >= 127)
         {
             return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\x") && WriteHexToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<uint8_t>(cValue), 2);
         }
-- 
2.43.0


From 45140809e5547839e003fbd00026bc6813d1b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:28 +0000
Subject: [PATCH 65/91] fix: refuse configuration logs that are too short for
 what they hold

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 2cf6ff6..87daa11 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -123,6 +123,7 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
 
     const unsigned char* pucTempMessagePointer = pucMessage_;
     std::vector<uint8_t> stEmbeddedMessageData;
+    if (stRxConfigMetaData_.uiLength < stRxConfigMetaData_.uiHeaderLength) { return STATUS::MALFORMED_INPUT; }
     uint32_t uiTotalPayloadSize = stRxConfigMetaData_.uiLength - stRxConfigMetaData_.uiHeaderLength;
     stInterMessage_ = CompositeField(0, 1);
     stInterMessage_.SetFieldInfo(pclMyMsgDb != nullptr ? pclMyMsgDb->GetMsgDef(stRxConfigMetaData_.usMessageId) : nullptr,
@@ -136,7 +137,7 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     case HEADER_FORMAT::ABB_ASCII: {
         // Fix embedded header indentation
         const auto* pcTempBuffer = reinterpret_cast<const char*>(pucTempMessagePointer);
-        ConsumeAbbrevFormatting(&pcTempBuffer);
+        ConsumeAbbrevFormatting(&pcTempBuffer, pcTempBuffer + uiTotalPayloadSize);
         pucTempMessagePointer = reinterpret_cast<const unsigned char*>(pcTempBuffer);
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(OEM4_ABBREV_ASCII_SYNC));
         uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - (pucTempMessagePointer - pucMessage_);
@@ -144,11 +145,14 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     }
     case HEADER_FORMAT::ASCII: {
         // Ignore {CRC}*{CRC}\r\n at end of buffer
-        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - OEM4_ASCII_CRC_LENGTH - 1 - OEM4_ASCII_CRC_LENGTH - 2;
+        constexpr uint32_t uiTrailerLength = OEM4_ASCII_CRC_LENGTH + 1 + OEM4_ASCII_CRC_LENGTH + 2;
+        if (uiTotalPayloadSize < uiTrailerLength) { return STATUS::MALFORMED_INPUT; }
+        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - uiTrailerLength;
         break;
     }
     case HEADER_FORMAT::BINARY: {
         // Ignore CRCs at end of buffer
+        if (uiTotalPayloadSize < 2 * OEM4_BINARY_CRC_LENGTH) { return STATUS::MALFORMED_INPUT; }
         uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - 2 * OEM4_BINARY_CRC_LENGTH;
         break;
     }
-- 
2.43.0


From de70ae4268442d56759d7832498e746eb9da1a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:28 +0000
Subject: [PATCH 66/91] fix: keep the checksum of a command in a configuration
 log

---
 .../oem/src/rxconfig/rxconfig_handler.cpp        | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 87daa11..06e3dcb 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -175,20 +175,22 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     {
     case HEADER_FORMAT::ASCII: {
         // invert ascii crc
-        const uint32_t uiCRC = strtoul(reinterpret_cast<const char*>(pucTempMessagePointer), nullptr, 16) ^ 0xFFFFFFFF;
-        char pucCRC[OEM4_ASCII_CRC_LENGTH];
-        std::to_chars(pucCRC, pucCRC + OEM4_ASCII_CRC_LENGTH, uiCRC, 16);
-        for (auto c : pucCRC) { stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(c)); }
+        const auto* pcCrc = reinterpret_cast<const char*>(pucTempMessagePointer);
+        uint32_t uiCRC = 0;
+        const auto stResult = std::from_chars(pcCrc, pcCrc + OEM4_ASCII_CRC_LENGTH, uiCRC, 16);
+        if (stResult.ec != std::errc() || stResult.ptr != pcCrc + OEM4_ASCII_CRC_LENGTH) { return STATUS::MALFORMED_INPUT; }
+        uiCRC ^= 0xFFFFFFFF;
+        for (int32_t iShift = 28; iShift >= 0; iShift -= 4) { stEmbeddedMessageData.emplace_back("0123456789abcdef"[(uiCRC >> iShift) & 0xF]); }
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\r'));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\n'));
         break;
     }
     case HEADER_FORMAT::BINARY: {
         auto uiCRC = LoadValueFromBuffer<uint32_t>(pucTempMessagePointer) ^ 0xFFFFFFFF;
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
         break;
     }
     default: break;
-- 
2.43.0


From 08e0a0f7ffb5e173c266b9da305fbb8fce2ead3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:33 +0000
Subject: [PATCH 67/91] fix: bound the command of a configuration log, and what
 its encoding writes

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 06e3dcb..f128f07 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -225,6 +225,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
     eStatus = clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode RXConfig Body --
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, R"(,"body": )")) { return STATUS::BUFFER_FULL; }
@@ -235,6 +236,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
     stMessageData_.uiMessageBodyLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody;
 
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, '}')) { return STATUS::BUFFER_FULL; }
@@ -260,6 +262,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Header --
     stEmbeddedMessageData_.pucMessage = pucTempEncodeBuffer;
@@ -274,6 +277,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
                                        ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageHeaderLength;
 
     // remove sync byte at start of embedded message header
     stEmbeddedMessageData_.pucMessageHeader[0] = ' ';
@@ -293,6 +297,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
                                      stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageBodyLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageBodyLength;
 
     // -- Resolve Message Lengths --
     stMessageData_.uiMessageBodyLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody;
@@ -317,6 +322,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -324,6 +330,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
 
@@ -368,6 +375,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -375,6 +383,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
     // Backtrack over CRC
@@ -425,8 +434,11 @@ STATUS RxConfigHandler::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBuf
     const auto& fieldDefinitions = stMessage_.GetFieldInfo()->messageOrderedFields;
     if (fieldDefinitions.empty()) { return STATUS::MALFORMED_INPUT; }
     const auto fieldValue = stMessage_.GetFieldValue<std::vector<uint8_t>>(*fieldDefinitions.at(0));
+    if (fieldValue.empty()) { return STATUS::MALFORMED_INPUT; }
     const auto* pucEmbeddedDataBuffer = reinterpret_cast<const unsigned char*>(fieldValue.data());
 
+    stEmbeddedMetaData_ = MetaDataStruct();
+    stEmbeddedMetaData_.uiLength = static_cast<uint32_t>(fieldValue.size());
     eStatus = clMyHeaderDecoder.Decode(pucEmbeddedDataBuffer, stEmbeddedHeader, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
-- 
2.43.0


From 09603508e84cf24afed4286ee02c30f80bd1c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:55 +0000
Subject: [PATCH 68/91] fix: refuse binary headers that are cut short

---
 src/decoders/oem/src/header_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 606b104..8d8ac63 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -397,6 +397,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         break;
 
     case HEADER_FORMAT::BINARY: {
+        if (stMetaData_.uiLength != 0 && stMetaData_.uiLength < sizeof(Oem4BinaryHeader)) { return STATUS::FAILURE; }
         auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
         stInterHeader_.usMessageId = stBinaryHeader.usMsgNumber;
         stInterHeader_.ucMessageType = stBinaryHeader.ucMsgType;
@@ -417,6 +418,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     case HEADER_FORMAT::SHORT_BINARY: {
         // Reset the IntermediateHeader ucMessageType because can incorrectly set ucSiblingId and bResponse if it isn't
         stInterHeader_.ucMessageType = 0;
+        if (stMetaData_.uiLength != 0 && stMetaData_.uiLength < sizeof(Oem4BinaryShortHeader)) { return STATUS::FAILURE; }
         auto stBinaryShortHeader = LoadValueFromBuffer<Oem4BinaryShortHeader>(pucLogBuf_);
         stInterHeader_.usLength = stBinaryShortHeader.ucLength;
         stInterHeader_.usMessageId = stBinaryShortHeader.usMessageId;
-- 
2.43.0


From 2fb3e4e550bdf01b0182fed2a271331ccbe76e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:49 +0000
Subject: [PATCH 69/91] fix: refuse binary commands of a configuration log that
 claim more than the log holds

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index f128f07..e3cfc80 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -441,6 +441,11 @@ STATUS RxConfigHandler::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBuf
     stEmbeddedMetaData_.uiLength = static_cast<uint32_t>(fieldValue.size());
     eStatus = clMyHeaderDecoder.Decode(pucEmbeddedDataBuffer, stEmbeddedHeader, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
+    if (stEmbeddedMetaData_.eFormat == HEADER_FORMAT::BINARY || stEmbeddedMetaData_.eFormat == HEADER_FORMAT::SHORT_BINARY)
+    {
+        // The length in the embedded header must not reach beyond the embedded message
+        if (stEmbeddedMetaData_.uiHeaderLength + stEmbeddedMetaData_.uiBinaryMsgLength > fieldValue.size()) { return STATUS::MALFORMED_INPUT; }
+    }
 
     eStatus = clMyMessageDecoder.Decode(pucEmbeddedDataBuffer + stEmbeddedMetaData_.uiHeaderLength, stEmbeddedMessage, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
-- 
2.43.0


From c8e3d836daecc15cacf5f6cd2ffa1d972b17645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:37 +0000
Subject: [PATCH 70/91] fix: write configuration logs with a header of their
 own format

---
 .../oem/src/rxconfig/rxconfig_handler.cpp       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index e3cfc80..84c149e 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -319,7 +319,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
     // Abuse the fact that header format is only used for determining whether the header is long or short
     stMessageData_.pucMessageHeader = *ppucBuffer_;
     eStatus =
-        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
+        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
@@ -372,7 +372,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
     // -- Encode RXConfig Header --
     stMessageData_.pucMessageHeader = *ppucBuffer_;
     eStatus =
-        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
+        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
@@ -389,11 +389,14 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
     // Backtrack over CRC
     pucTempEncodeBuffer -= OEM4_BINARY_CRC_LENGTH;
     uiBufferSize_ += OEM4_BINARY_CRC_LENGTH;
-    // Fill in Embedded Binary Header length
-    uint32_t uiEmbeddedBodyLength = pucTempEncodeBuffer - stEmbeddedMessageData_.pucMessageBody;
-    auto stEmbeddedHeader = LoadValueFromBuffer<Oem4BinaryHeader>(stEmbeddedMessageData_.pucMessageHeader);
-    stEmbeddedHeader.usLength = static_cast<uint16_t>(uiEmbeddedBodyLength);
-    std::memcpy(stEmbeddedMessageData_.pucMessageHeader, &stEmbeddedHeader, sizeof(Oem4BinaryHeader));
+    // Fill in Embedded Binary Header length, which is in place already in short headers
+    if (stEmbeddedMessageData_.uiMessageHeaderLength == sizeof(Oem4BinaryHeader))
+    {
+        uint32_t uiEmbeddedBodyLength = pucTempEncodeBuffer - stEmbeddedMessageData_.pucMessageBody;
+        auto stEmbeddedHeader = LoadValueFromBuffer<Oem4BinaryHeader>(stEmbeddedMessageData_.pucMessageHeader);
+        stEmbeddedHeader.usLength = static_cast<uint16_t>(uiEmbeddedBodyLength);
+        std::memcpy(stEmbeddedMessageData_.pucMessageHeader, &stEmbeddedHeader, sizeof(Oem4BinaryHeader));
+    }
 
     // Fill in Regular Binary Header length
     uint32_t uiRxLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody + OEM4_BINARY_CRC_LENGTH;
-- 
2.43.0


From 3f252c2f343a78c24c37059d531e8f9e7d12c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:09 +0000
Subject: [PATCH 71/91] fix: report the length of decompressed messages

---
 src/decoders/oem/src/parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index f7164de..9cd050d 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -147,7 +147,11 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 if (clMyRangeCmpFilter.DoFiltering(stMetaData_) && bMyDecompressRangeCmp)
                 {
                     eStatus = clMyRangeDecompressor.Decompress(pucMyFrameBufferPointer, uiParserInternalBufferSize, stMetaData_);
-                    if (eStatus == STATUS::SUCCESS) { stHeader_.usMessageId = stMetaData_.usMessageId; }
+                    if (eStatus == STATUS::SUCCESS)
+                    {
+                        stHeader_.usMessageId = stMetaData_.usMessageId;
+                        stMessageData_.uiMessageLength = stMetaData_.uiLength;
+                    }
                     else
                     {
                         pclMyLogger->info("RangeDecompressor returned status {}", eStatus);
-- 
2.43.0


From 5d71bac6770f39274da229ddc2f94d3b20f65075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:09 +0000
Subject: [PATCH 72/91] fix: do not read from a stream that was not set

---
 include/novatel_edie/decoders/common/file_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 5e4aaae..49faac0 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -54,6 +54,7 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
 
     [[nodiscard]] bool ReadStream()
     {
+        if (pclMyInputStream == nullptr) { return false; }
         std::array<char, MAX_ASCII_MESSAGE_LENGTH> cData{};
         pclMyInputStream->read(cData.data(), std::min(cData.size(), clMyParser.GetAvailableSpace()));
         size_t ullBytesRead = pclMyInputStream->gcount();
-- 
2.43.0


From e19373b1a9962d8767c9709e3940db1bedaac528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:46 +0000
Subject: [PATCH 73/91] fix: do not decompress responses

---
 src/decoders/oem/src/parser.cpp                      | 1 +
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index 9cd050d..cde57c6 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -67,6 +67,7 @@ void Parser::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
         clMyRangeCmpFilter.IncludeMessageId(RANGECMP4_MSG_ID, HEADER_FORMAT::ALL, static_cast<uint8_t>(MEASUREMENT_SOURCE::SECONDARY));
         clMyRangeCmpFilter.IncludeMessageId(RANGECMP5_MSG_ID, HEADER_FORMAT::ALL, static_cast<uint8_t>(MEASUREMENT_SOURCE::PRIMARY));
         clMyRangeCmpFilter.IncludeMessageId(RANGECMP5_MSG_ID, HEADER_FORMAT::ALL, static_cast<uint8_t>(MEASUREMENT_SOURCE::SECONDARY));
+        clMyRangeCmpFilter.IncludeResponses(false); // Responses hold no observations
 
         pclMyMessageDb = pclMessageDb_;
     }
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index ffee0d2..65565a6 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -45,6 +45,7 @@ RangeDecompressor::RangeDecompressor(MessageDatabase::Ptr pclJsonDb_)
         clMyRangeCmpFilter.IncludeMessageId(id, HEADER_FORMAT::ALL, static_cast<uint8_t>(MEASUREMENT_SOURCE::PRIMARY));
         clMyRangeCmpFilter.IncludeMessageId(id, HEADER_FORMAT::ALL, static_cast<uint8_t>(MEASUREMENT_SOURCE::SECONDARY));
     }
+    clMyRangeCmpFilter.IncludeResponses(false); // Responses hold no observations
 
     pclMyLogger->debug("RangeDecompressor initialized");
 }
-- 
2.43.0


From 7b6e509b0887330ceb6e5a5a882bd78066026e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:29 +0000
Subject: [PATCH 74/91] fix: report what the end of a file holds besides whole
 messages

---
 include/novatel_edie/decoders/common/file_parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 49faac0..848391b 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -90,7 +90,8 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
                 if constexpr (std::is_invocable_v<ParserFunc, Args..., bool>)
                 {
                     // For OEM parser, make a final attempt to decode an incomplete abbreviated ASCII message from remaining bytes
-                    return parserFunc_(std::forward<Args>(args_)..., true) == STATUS::SUCCESS ? STATUS::SUCCESS : STATUS::STREAM_EMPTY;
+                    const STATUS eLastStatus = parserFunc_(std::forward<Args>(args_)..., true);
+                    return eLastStatus == STATUS::INCOMPLETE || eLastStatus == STATUS::BUFFER_EMPTY ? STATUS::STREAM_EMPTY : eLastStatus;
                 }
                 return STATUS::STREAM_EMPTY;
             }
-- 
2.43.0


From 0f78261392482c564dc3cae25f27e8c5fa3e5ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:31 +0000
Subject: [PATCH 75/91] fix: do not report messages longer than the maximum
 message length

---
 src/decoders/oem/src/framer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 3878f2c..06d7bef 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -366,7 +366,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             break;
 
         case NovAtelFrameState::WAITING_FOR_ABB_ASCII_HEADER:
-            if (IsCrlf(uiMyByteCount - 1))
+            if (uiMyByteCount < MAX_ASCII_MESSAGE_LENGTH && IsCrlf(uiMyByteCount - 1))
             {
                 if (IsAbbrevAsciiResponse())
                 {
@@ -435,7 +435,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             }
 
             // End of Abbrev
-            if (IsCrlf(uiMyByteCount - 1) &&
+            if (uiMyByteCount < MAX_ABB_ASCII_RESPONSE_LENGTH && IsCrlf(uiMyByteCount - 1) &&
                 (clInternalFrameBuffer[uiMyByteCount + 1] != OEM4_ABBREV_ASCII_SYNC ||     // Next line is not an abb ASCII log
                  clInternalFrameBuffer[uiMyByteCount + 2] != OEM4_ABBREV_ASCII_SEPARATOR)) // Next line is a new abb ASCII log
             {
@@ -485,7 +485,8 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && result.ptr == acCrc + OEM4_ASCII_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
+                if (result.ec == std::errc() && result.ptr == acCrc + OEM4_ASCII_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc &&
+                    uiMyByteCount <= MAX_ASCII_MESSAGE_LENGTH)
                 {
                     uiMyByteCount = 0;
 
-- 
2.43.0


From bc8643c07627838958487498c0dfe06cf63f0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:53 +0000
Subject: [PATCH 76/91] fix: use the wavelength of the reported GLONASS
 frequency in RANGECMP

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 65565a6..91c6573 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -398,7 +398,7 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
         stRangeData.fCNo = GetBitfield<uint32_t, CNO_MASK>(stRangeCmpData.uiLockTimeCNoGloFreq) + CNO_SCALE_OFFSET;
         stRangeData.sGlonassFrequency = GetBitfield<int16_t, GLONASS_FREQUENCY_MASK>(stRangeCmpData.uiLockTimeCNoGloFreq);
 
-        double dWavelength = stCtStatus.GetSignalWavelength(stRangeData.sGlonassFrequency + GLONASS_FREQUENCY_NUMBER_OFFSET);
+        double dWavelength = stCtStatus.GetSignalWavelength(stRangeData.sGlonassFrequency);
         stRangeData.dAdr = stRangeCmpData.uiAdr / ADR_SCALE_FACTOR;
         double dAdrRolls = (stRangeData.dPsr / dWavelength + stRangeData.dAdr) / MAX_VALUE;
         stRangeData.dAdr -= MAX_VALUE * static_cast<uint64_t>(std::round(dAdrRolls));
-- 
2.43.0


From 76e4b3b21d42ef6a930ab6bc91e47c4952143a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:53 +0000
Subject: [PATCH 77/91] fix: sign and validity of the Doppler of RANGECMP4 and
 RANGECMP5 reference blocks

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 6 +++---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 03265ab..21b9645 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -284,7 +284,6 @@ constexpr uint32_t HEADER_BLOCK_SYSTEM_COUNT = 7;
 
 // Valid limits for various Reference/Differential Primary/Secondary Blocks
 constexpr int32_t SIG_RBLK_INVALID_PHR = -4194304;
-constexpr int32_t PSIG_RBLK_INVALID_DOPPLER = -33554432;
 constexpr int32_t SSIG_RBLK_INVALID_PSR = -524288;
 constexpr int32_t SIG_DBLK_INVALID_PSR = -262144;
 constexpr int32_t SIG_DBLK_INVALID_PHR = -32768;
@@ -328,6 +327,7 @@ constexpr std::array<uint32_t, 2> RBLK_PSR_BITS = {37, 20};
 constexpr uint32_t RBLK_PHR_BITS = 23;
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_BITS = {26, 14};
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xFC000000, 0xFFFFC000};
+constexpr std::array<int32_t, 2> RBLK_INVALID_DOPPLER = {-33554432, -8192};
 constexpr std::array<int64_t, 2> RBLK_INVALID_PSR = {137438953471, -524288};
 
 constexpr uint32_t SIG_DBLK_PRIMARY_BITS = SIG_BLK_PARITY_FLAG_BITS + SIG_BLK_HALF_CYCLE_BITS + SIG_BLK_CNO_BITS + SIG_BLK_LOCK_TIME_BITS +
@@ -352,7 +352,6 @@ constexpr uint32_t SIGNALS_BITS = 16;
 
 // Valid limits for various Reference Primary/Secondary Blocks
 constexpr int32_t SIG_RBLK_INVALID_PHR = -4194304;
-constexpr int32_t PSIG_RBLK_INVALID_DOPPLER = -33554432;
 constexpr int32_t SSIG_RBLK_INVALID_PSR = -524288;
 
 // Bitfield sizes for the Measurement Block Header
@@ -379,7 +378,8 @@ constexpr uint32_t RBLK_PHR_SIGNEXT_MASK = 0xFF800000;
 constexpr std::array<uint32_t, 2> RBLK_PSR_BITS = {37, 20};
 constexpr uint32_t RBLK_PHR_BITS = 23;
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_BITS = {28, 16};
-constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xFC000000, 0xFFFFC000};
+constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xF0000000, 0xFFFF0000};
+constexpr std::array<int32_t, 2> RBLK_INVALID_DOPPLER = {-134217728, -32768};
 constexpr std::array<int64_t, 2> RBLK_INVALID_PSR = {137438953471, -524288};
 
 } // namespace rangecmp5
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 91c6573..6894c08 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -238,7 +238,7 @@ void RangeDecompressor::DecompressReferenceBlock(unsigned char** ppucData_, uint
     stRefBlock_.dPsr = llPsr * SIG_BLK_PSR_SCALE_FACTOR + (Secondary ? primaryPsr : 0);
     stRefBlock_.bValidPhr = iPhr != SIG_RBLK_INVALID_PHR;
     stRefBlock_.dPhr = iPhr * SIG_BLK_PHR_SCALE_FACTOR + stRefBlock_.dPsr;
-    stRefBlock_.bValidDoppler = iDoppler != PSIG_RBLK_INVALID_DOPPLER;
+    stRefBlock_.bValidDoppler = iDoppler != RBLK_INVALID_DOPPLER[Secondary];
     stRefBlock_.dDoppler = iDoppler * SIG_BLK_DOPPLER_SCALE_FACTOR + (Secondary ? primaryDoppler : 0);
 }
 
@@ -651,7 +651,7 @@ void RangeDecompressor::DecompressBlock(unsigned char** ppucData_, uint32_t& uiB
     stBlock_.bValidPhr = iPhr != SIG_RBLK_INVALID_PHR;
     // TODO: documentation says secondary adds primary phr, but target data suggests this is intended behaviour?
     stBlock_.dPhr = iPhr * SIG_BLK_PHR_SCALE_FACTOR + stBlock_.dPsr;
-    stBlock_.bValidDoppler = iDopplerBitfield != PSIG_RBLK_INVALID_DOPPLER;
+    stBlock_.bValidDoppler = iDopplerBitfield != RBLK_INVALID_DOPPLER[Secondary];
     stBlock_.dDoppler = iDopplerBitfield * SIG_BLK_DOPPLER_SCALE_FACTOR + (Secondary ? primaryDoppler : 0);
 }
 
-- 
2.43.0


From efed90f1573a2f0bdd12ddef14c131cf27dcbab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:53 +0000
Subject: [PATCH 78/91] fix: scale the Doppler of GPS L2P in RANGECMP2

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 21b9645..0f4a310 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -576,7 +576,8 @@ constexpr double SignalScaling(SYSTEM system, SIGNAL_TYPE signal)
         case SIGNAL_TYPE::GPS_L1C: [[fallthrough]];
         case SIGNAL_TYPE::GPS_L1CA: return 1.0;
         case SIGNAL_TYPE::GPS_L2Y: [[fallthrough]];
-        case SIGNAL_TYPE::GPS_L2CM: return 154.0 / 120.0;
+        case SIGNAL_TYPE::GPS_L2CM: [[fallthrough]];
+        case SIGNAL_TYPE::GPS_L2P: return 154.0 / 120.0;
         case SIGNAL_TYPE::GPS_L5Q: return 154.0 / 115.0;
         default: return 0.0;
         }
-- 
2.43.0


From 73b31353126ad059054415e2cbfa2045c7c09d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:53 +0000
Subject: [PATCH 79/91] fix: keys of satellites with the highest identifiers

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp     | 2 +-
 src/decoders/oem/src/rangecmp/channel_tracking_status.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 0f4a310..5c9fb65 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -764,7 +764,7 @@ struct LockTimeInfo
 
 constexpr uint64_t MakeKey(SYSTEM system, uint32_t satellite, SIGNAL_TYPE signal, MEASUREMENT_SOURCE source)
 {
-    assert(static_cast<uint64_t>(system) < 16 && satellite < 64 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
+    assert(static_cast<uint64_t>(system) < 16 && satellite <= 64 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
     return static_cast<uint64_t>(system) << 11 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
 }
 
diff --git a/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp b/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
index e1c3b78..193076c 100644
--- a/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
+++ b/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
@@ -32,8 +32,8 @@ using namespace novatel::edie::oem;
 //------------------------------------------------------------------------------
 uint64_t ChannelTrackingStatus::MakeKey(const uint32_t prn, const MEASUREMENT_SOURCE source) const
 {
-    assert(static_cast<uint64_t>(eSatelliteSystem) < 16 && prn < 256 && static_cast<uint64_t>(eSignalType) < 32 && static_cast<uint64_t>(source) < 2);
-    return static_cast<uint64_t>(eSatelliteSystem) << 14 | prn << 6 | static_cast<uint64_t>(eSignalType) << 1 | static_cast<uint64_t>(source);
+    assert(static_cast<uint64_t>(eSatelliteSystem) < 16 && prn < 512 && static_cast<uint64_t>(eSignalType) < 32 && static_cast<uint64_t>(source) < 2);
+    return static_cast<uint64_t>(eSatelliteSystem) << 15 | prn << 6 | static_cast<uint64_t>(eSignalType) << 1 | static_cast<uint64_t>(source);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 96bbdb2365c55dc940040602f993a5137c5c9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:53 +0000
Subject: [PATCH 80/91] fix: forget reference blocks that are dead

---
 .../novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp | 1 +
 src/decoders/oem/src/rangecmp/range_decompressor.cpp          | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 84e2b26..8b617ad 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -60,6 +60,7 @@ class RangeDecompressor
     {
         for (auto& it : mMyRangeCmp2LockTimes) { it.second = {}; }
         for (auto& it : mMyRangeCmp4LockTimes) { it.second = {}; }
+        mMyReferenceBlocks.clear();
     }
 
     //! Decompresses a RANGECMP message provided in a buffer and overwrites it with the equivalent RANGE message.
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 6894c08..dcdd3cc 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -489,9 +489,9 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
     // Clear any dead reference blocks on the whole second. We should be storing new ones.
     if (std::abs(dSecondOffset) < std::numeric_limits<double>::epsilon())
     {
-        for (auto& it : mMyReferenceBlocks)
+        for (auto it = mMyReferenceBlocks.begin(); it != mMyReferenceBlocks.end();)
         {
-            if (static_cast<MEASUREMENT_SOURCE>(it.first & 1) == eSource) { it.second = {}; }
+            it = static_cast<MEASUREMENT_SOURCE>(it->first & 1) == eSource ? mMyReferenceBlocks.erase(it) : std::next(it);
         }
     }
 
-- 
2.43.0


From 99aa3ba941b709c0f07f76ce6a30396adf1af352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:53 +0000
Subject: [PATCH 81/91] fix: group the observations of one satellite only

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index dcdd3cc..17fce11 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -550,6 +550,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
 
             const uint32_t prn = PopLsb(satellites) + 1;
             const uint32_t uiIncludedSignalCount = PopCount(includedSignals[uiPrnIndex]);
+            const uint32_t uiFirstObservation = stRangeMessage_.uiNumberOfObservations; // Signals without reference data are skipped
             bool bPrimaryBlock = true;
             double primaryPseudorange{};
             double primaryDoppler{};
@@ -614,11 +615,11 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
             }
 
             // Update the grouping bit in the status word if multiple signals for this PRN are counted.
-            if (uiIncludedSignalCount > 1 && uiIncludedSignalCount <= stRangeMessage_.uiNumberOfObservations)
+            if (uiIncludedSignalCount > 1)
             {
-                for (uint32_t uiIndex = uiIncludedSignalCount; uiIndex > 0; uiIndex--)
+                for (uint32_t uiIndex = uiFirstObservation; uiIndex < stRangeMessage_.uiNumberOfObservations; uiIndex++)
                 {
-                    stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations - uiIndex].uiChannelTrackingStatus |= CTS_GROUPING_MASK;
+                    stRangeMessage_.astRangeData[uiIndex].uiChannelTrackingStatus |= CTS_GROUPING_MASK;
                 }
             }
         }
-- 
2.43.0


From a2a36ac9ad9d901989937d825eedc4bb64234f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:53 +0000
Subject: [PATCH 82/91] fix: keep counting lock times when a week ends

---
 .../oem/src/rangecmp/range_decompressor.cpp   | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 17fce11..dd993de 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -59,6 +59,13 @@ void RangeDecompressor::LoadJsonDb(MessageDatabase::Ptr pclJsonDb_)
     clMyEncoder.LoadJsonDb(pclJsonDb_);
 }
 
+//------------------------------------------------------------------------------
+// The time of the message, so that lock times keep increasing when a week ends.
+static double HeaderMilliseconds(const MetaDataStruct& stMetaData_)
+{
+    return static_cast<double>(stMetaData_.usWeek) * SECS_IN_WEEK * SEC_TO_MILLI_SEC + stMetaData_.dMilliseconds;
+}
+
 //------------------------------------------------------------------------------
 // The lock time can only report up to 131071ms (0x1FFFF). If this value is
 // reached, the lock time must continue to increment. Once the saturated value
@@ -78,15 +85,17 @@ double RangeDecompressor::GetRangeCmp2LockTime(const MetaDataStruct& stMetaData_
 
     double dLockTimeMilliseconds = uiLockTimeBits_;
 
+    const double dHeaderMilliseconds = HeaderMilliseconds(stMetaData_);
+
     LockTimeInfo& stLockTimeInfo = mMyRangeCmp2LockTimes[key_];
     if (uiLockTimeBits_ == SIG_LOCKTIME_MASK >> Lsb(SIG_LOCKTIME_MASK))
     {
         // If the lock time was already saturated, use the stored time to add the missing offset.
-        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += stMetaData_.dMilliseconds - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
+        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += dHeaderMilliseconds - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
         // If the lock time is not already saturated, store this information if this observation is seen again.
         else
         {
-            stLockTimeInfo.dLockTimeSaturatedMilliseconds = stMetaData_.dMilliseconds;
+            stLockTimeInfo.dLockTimeSaturatedMilliseconds = dHeaderMilliseconds;
             stLockTimeInfo.bLockTimeSaturated = true;
         }
     }
@@ -170,6 +179,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
 
     // Store the lock time if it is different from the once we have currently.
     LockTimeInfo& stLockTimeInfo = mMyRangeCmp4LockTimes[key_];
+    const double dHeaderMilliseconds = HeaderMilliseconds(stMetaData_);
 
     // Is the lock time relative and has a bitfield change been found?
     if (!stLockTimeInfo.bAbsolute && ucLockTimeBits_ != stLockTimeInfo.ucBits)
@@ -188,7 +198,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         }
 
         // Record the last bit change and the bitfield that was changed to.
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dHeaderMilliseconds;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
     }
     // If the lock time is absolute and the lock time bits have decreased, there was likely an outage.
@@ -196,7 +206,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
     {
         // In the event of an outage of any kind, reset the lock time to relative.
         stLockTimeInfo.bAbsolute = false;
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dHeaderMilliseconds;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
 
         pclMyLogger->warn("Detected a lock time slip (perhaps caused by an outage) of {}ms at time {}w, {}ms.",
@@ -204,12 +214,12 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
     }
     // If the lock time is absolute and the bitfield hasn't changed within the expected time, reset the last change time
     else if (stLockTimeInfo.bAbsolute && ucLockTimeBits_ < 15 &&
-             stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
+             dHeaderMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
     {
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dHeaderMilliseconds;
         pclMyLogger->warn("Expected a bit change much sooner at time {}w, {}ms.", stMetaData_.usWeek, stMetaData_.dMilliseconds);
     }
-    stLockTimeInfo.dMilliseconds = stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
+    stLockTimeInfo.dMilliseconds = dHeaderMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
     return stLockTimeInfo.dMilliseconds / SEC_TO_MILLI_SEC;
 }
 
-- 
2.43.0


From 586d7aaf94fd26afab31dfa42226a30419961c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:59 +0000
Subject: [PATCH 83/91] fix: do not read or write past the message when ranges
 are decompressed

---
 .../oem/rangecmp/range_decompressor.hpp       |  4 +-
 .../oem/src/rangecmp/range_decompressor.cpp   | 82 +++++++++++++++----
 2 files changed, 69 insertions(+), 17 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 8b617ad..0aed4f5 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -105,10 +105,10 @@ class RangeDecompressor
     void RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_);
 
     //! Convert a RANGECMP4 message into RANGE message.
-    void RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiDataLength_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
 
     //! Convert a RANGECMP5 message into RANGE message.
-    void RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp5ToRange(unsigned char* pucData_, uint32_t uiDataLength_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
 
     Filter clMyRangeCmpFilter;
     HeaderDecoder clMyHeaderDecoder;
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index dd993de..ef63c36 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -59,6 +59,39 @@ void RangeDecompressor::LoadJsonDb(MessageDatabase::Ptr pclJsonDb_)
     clMyEncoder.LoadJsonDb(pclJsonDb_);
 }
 
+//------------------------------------------------------------------------------
+// The compressed message may not claim more than there is or than can be reported.
+static void Require(bool bCondition_)
+{
+    if (!bCondition_) { throw std::runtime_error("Invalid compressed range message."); }
+}
+
+//------------------------------------------------------------------------------
+static RangeData& NextRangeData(Range& stRangeMessage_)
+{
+    Require(stRangeMessage_.uiNumberOfObservations < RANGE_RECORD_MAX);
+    return stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+}
+
+//------------------------------------------------------------------------------
+// Load a message that may be shorter than the longest one.
+template <typename T> static T LoadMessage(const unsigned char* pucData_, uint32_t uiDataLength_)
+{
+    T stMessage{};
+    memcpy(&stMessage, pucData_, std::min(static_cast<size_t>(uiDataLength_), sizeof(stMessage)));
+    return stMessage;
+}
+
+//------------------------------------------------------------------------------
+// Load the number of bytes of compressed data at the beginning of the message.
+static uint32_t LoadDataLength(const unsigned char* pucData_, uint32_t uiDataLength_)
+{
+    Require(uiDataLength_ >= sizeof(uint32_t));
+    const auto uiLength = LoadValueFromBuffer<uint32_t>(pucData_);
+    Require(uiLength <= uiDataLength_ - sizeof(uint32_t));
+    return uiLength;
+}
+
 //------------------------------------------------------------------------------
 // The time of the message, so that lock times keep increasing when a week ends.
 static double HeaderMilliseconds(const MetaDataStruct& stMetaData_)
@@ -382,6 +415,7 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
     constexpr std::array<double, 16> stdDevPsrScaling = {0.050, 0.075, 0.113, 0.169, 0.253,  0.380,  0.570,  0.854,
                                                          1.281, 2.375, 4.750, 9.500, 19.000, 38.000, 76.000, 152.000};
 
+    Require(stRangeCmpMessage_.uiNumberOfObservations <= RANGE_RECORD_MAX);
     stRangeMessage_.uiNumberOfObservations = stRangeCmpMessage_.uiNumberOfObservations;
 
     // Decompress each field from the RangeCmpData and put it into the respective RangeData.
@@ -438,8 +472,10 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiRangeDataBytesDecompressed = 0;
+    Require(stRangeCmpMessage_.uiNumberOfRangeDataBytes <= sizeof(stRangeCmpMessage_.aucRangeData));
     while (uiRangeDataBytesDecompressed < stRangeCmpMessage_.uiNumberOfRangeDataBytes)
     {
+        Require(sizeof(SatelliteBlock) <= stRangeCmpMessage_.uiNumberOfRangeDataBytes - uiRangeDataBytesDecompressed);
         auto stSatBlock = LoadValueFromBuffer<SatelliteBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
 
         const auto eSystem = GetBitfield<SYSTEM, SAT_SATELLITE_SYSTEM_ID_MASK>(stSatBlock.ulCombinedField);
@@ -451,6 +487,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
         HandleSignExtension<SAT_SATELLITE_DOPPLER_BASE_SIGNEXT_MASK>(iDopplerBase);
 
         uiRangeDataBytesDecompressed += sizeof(SatelliteBlock);
+        Require(ucSignalBlockCount * sizeof(SignalBlock) <= stRangeCmpMessage_.uiNumberOfRangeDataBytes - uiRangeDataBytesDecompressed);
 
         // Decompress the Signal Blocks associated with the Satellite Block
         for (uint8_t ucSignalBlockIndex = 0; ucSignalBlockIndex < ucSignalBlockCount; ucSignalBlockIndex++)
@@ -470,7 +507,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
             ChannelTrackingStatus stCtStatus(stSatBlock, stSigBlock);
 
             // Construct the decompressed range data
-            RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+            RangeData& stRangeData = NextRangeData(stRangeMessage_);
             stRangeData.usPrn = usPrn;
             stRangeData.sGlonassFrequency = GetBitfield<int16_t, SAT_GLONASS_FREQUENCY_ID_MASK>(stSatBlock.ulCombinedField);
             stRangeData.dPsr = iPsrBase + GetBitfield<uint64_t, SIG_PSR_DIFF_MASK>(stSigBlock.ullCombinedField2) / SIG_PSR_DIFF_SCALE_FACTOR;
@@ -490,7 +527,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiDataLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp4;
 
@@ -507,7 +544,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
-    auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
+    auto uiBytesLeft = LoadDataLength(pucData_, uiDataLength_);
     pucData_ += sizeof(uint32_t);
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
@@ -517,6 +554,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
     // can be read correctly.
     const auto skipDBlock = [&uiBytesLeft, &uiBitOffset, &pucData_](bool& primary) {
         const uint32_t uiBitsToSkip = primary ? SIG_DBLK_PRIMARY_BITS : SIG_DBLK_SECONDARY_BITS;
+        Require(uiBitsToSkip + uiBitOffset <= uiBytesLeft * 8);
         uiBytesLeft -= (uiBitsToSkip + uiBitOffset) / 8;
         pucData_ += (uiBitsToSkip + uiBitOffset) / 8;
         uiBitOffset = (uiBitsToSkip + uiBitOffset) % 8;
@@ -594,7 +632,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                             else { DecompressDifferentialBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, stRb.second, dSecondOffset); }
 
                             ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                            PopulateNextRangeData(stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++], stBlock, stMetaData_,
+                            PopulateNextRangeData(NextRangeData(stRangeMessage_), stBlock, stMetaData_,
                                                   stCtStatus, prn, stRb.first.cGlonassFrequency);
                         }
                         else
@@ -616,7 +654,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                     else { DecompressReferenceBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                     ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                    RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+                    RangeData& stRangeData = NextRangeData(stRangeMessage_);
                     PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
 
                     // Always store reference blocks.
@@ -667,13 +705,13 @@ void RangeDecompressor::DecompressBlock(unsigned char** ppucData_, uint32_t& uiB
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, uint32_t uiDataLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp5;
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
-    auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
+    auto uiBytesLeft = LoadDataLength(pucData_, uiDataLength_);
     pucData_ += sizeof(uint32_t);
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
@@ -734,7 +772,7 @@ void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRange
                 else { DecompressBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                 ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+                RangeData& stRangeData = NextRangeData(stRangeMessage_);
                 PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
             }
 
@@ -769,6 +807,7 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
 
     HEADER_FORMAT eFormat = stMetaData_.eFormat;
     pucTempMessagePointer += stMetaData_.uiHeaderLength;
+    uint32_t uiBodyLength = stMetaData_.uiBinaryMsgLength;
     // If the message is not in binary format, we need to ensure that it is encoded to binary so that it can be decompressed.
     if (eFormat != HEADER_FORMAT::BINARY)
     {
@@ -780,25 +819,38 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
         pucTempMessagePointer = stMessageData.pucMessageBody;
+        uiBodyLength = stMessageData.uiMessageBodyLength;
+    }
+    else if (uiBufferSize_ < stMetaData_.uiHeaderLength || uiBufferSize_ - stMetaData_.uiHeaderLength < uiBodyLength)
+    {
+        return STATUS::DECOMPRESSION_FAILURE;
     }
 
     // Convert the RANGECMP* message to a RANGE message.
+    Range stRange;
     try
     {
-        Range stRange;
         switch (stMetaData_.usMessageId)
         {
-        case RANGECMP_MSG_ID: RangeCmpToRange(LoadValueFromBuffer<rangecmp::RangeCmp>(pucTempMessagePointer), stRange); break;
-        case RANGECMP2_MSG_ID: RangeCmp2ToRange(LoadValueFromBuffer<rangecmp2::RangeCmp>(pucTempMessagePointer), stRange, stMetaData_); break;
+        case RANGECMP_MSG_ID: {
+            const auto stRangeCmp = LoadMessage<rangecmp::RangeCmp>(pucTempMessagePointer, uiBodyLength);
+            Require(uiBodyLength >= sizeof(uint32_t) && stRangeCmp.uiNumberOfObservations <= (uiBodyLength - sizeof(uint32_t)) / sizeof(rangecmp::RangeCmpData));
+            RangeCmpToRange(stRangeCmp, stRange);
+            break;
+        }
+        case RANGECMP2_MSG_ID: {
+            LoadDataLength(pucTempMessagePointer, uiBodyLength);
+            RangeCmp2ToRange(LoadMessage<rangecmp2::RangeCmp>(pucTempMessagePointer, uiBodyLength), stRange, stMetaData_);
+            break;
+        }
         case RANGECMP3_MSG_ID: [[fallthrough]];
-        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
-        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
+        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, uiBodyLength, stRange, stMetaData_); break;
+        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, uiBodyLength, stRange, stMetaData_); break;
         default: return STATUS::UNSUPPORTED;
         }
 
         // Set the binary message length in the metadata for decoding purposes.
         stMetaData_.uiBinaryMsgLength = sizeof(stRange.uiNumberOfObservations) + stRange.uiNumberOfObservations * sizeof(RangeData);
-        memcpy(pucTempMessagePointer, &stRange, stMetaData_.uiBinaryMsgLength);
     }
     catch (...)
     {
@@ -814,7 +866,7 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
     // The message should be returned in its original format.
     stMetaData_.eFormat = HEADER_FORMAT::BINARY;
     stMessage = {};
-    eStatus = clMyMessageDecoder.Decode(pucTempMessagePointer, stMessage, stMetaData_);
+    eStatus = clMyMessageDecoder.Decode(reinterpret_cast<unsigned char*>(&stRange), stMessage, stMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     stMetaData_.eFormat = eFormat;
-- 
2.43.0


From 3bc68820e163dcdf0c434f4de0a02ac83502b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:13 +0000
Subject: [PATCH 84/91] fix: keep the reference blocks of satellite 64 of each
 system apart

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 5c9fb65..e9e54ef 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -765,7 +765,7 @@ struct LockTimeInfo
 constexpr uint64_t MakeKey(SYSTEM system, uint32_t satellite, SIGNAL_TYPE signal, MEASUREMENT_SOURCE source)
 {
     assert(static_cast<uint64_t>(system) < 16 && satellite <= 64 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
-    return static_cast<uint64_t>(system) << 11 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
+    return static_cast<uint64_t>(system) << 12 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
 }
 
 } // namespace rangecmp4
-- 
2.43.0


From ffd4ace3a6ae612ceeeeccda4ce802f56f8196b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:23 +0000
Subject: [PATCH 85/91] fix: refuse numbers and CRCs in a JSON database that do
 not fit their field

---
 src/decoders/common/src/json_db_reader.cpp | 48 ++++++++++++++--------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/decoders/common/src/json_db_reader.cpp b/src/decoders/common/src/json_db_reader.cpp
index 61b9bb2..76990e8 100644
--- a/src/decoders/common/src/json_db_reader.cpp
+++ b/src/decoders/common/src/json_db_reader.cpp
@@ -28,7 +28,9 @@
 
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <future>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -73,14 +75,28 @@ std::string AsStringOrEmpty(element el_) { return el_.is_null() ? std::string()
 
 //! Read a JSON integer known to be unsigned, accepting either simdjson tag.
 //! simdjson stores a number that fits in int64 as INT64 and a larger one as UINT64, and get<T>()
-//! is strict about that tag, so both cases must be tried. Throws if the value is not an integer or is negative.
-uint64_t AsUint(element el_)
+//! is strict about that tag, so both cases must be tried. Throws if the value is not an integer, is negative
+//! or does not fit T.
+template <typename T> T AsUint(element el_)
 {
     uint64_t u;
-    if (el_.get(u) == simdjson::SUCCESS) { return u; }
-    int64_t i;
-    if (el_.get(i) == simdjson::SUCCESS && i >= 0) { return static_cast<uint64_t>(i); }
-    throw std::runtime_error("Expected an unsigned JSON integer value");
+    if (el_.get(u) != simdjson::SUCCESS)
+    {
+        int64_t i;
+        if (el_.get(i) != simdjson::SUCCESS || i < 0) { throw std::runtime_error("Expected an unsigned JSON integer value"); }
+        u = static_cast<uint64_t>(i);
+    }
+    if (u > std::numeric_limits<T>::max()) { throw std::runtime_error("Unsigned JSON integer value is too large"); }
+    return static_cast<T>(u);
+}
+
+//! Read a message definition CRC, which is written as a decimal number in a string. Throws if it is anything else.
+uint32_t ParseMsgDefCrc(std::string_view sCrc_)
+{
+    uint32_t uiCrc = 0;
+    const auto [ptr, ec] = std::from_chars(sCrc_.data(), sCrc_.data() + sCrc_.size(), uiCrc);
+    if (ec != std::errc() || ptr != sCrc_.data() + sCrc_.size()) { throw std::runtime_error("Invalid message definition CRC: " + std::string(sCrc_)); }
+    return uiCrc;
 }
 
 //! Read an optional string member, returning the default if the key is absent.
@@ -110,7 +126,7 @@ void ParseEnumerators(element j_, std::vector<EnumDataType>& vEnumerators_);
 //-----------------------------------------------------------------------
 void ParseEnumDataType(element j_, EnumDataType& f_)
 {
-    f_.value = static_cast<uint32_t>(AsUint(Member(j_, "value")));
+    f_.value = AsUint<uint32_t>(Member(j_, "value"));
     f_.name = AsString(Member(j_, "name"));
     f_.description = AsStringOrEmpty(Member(j_, "description"));
 }
@@ -120,7 +136,7 @@ void ParseSimpleDataType(element j_, SimpleDataType& f_)
 {
     const auto itrDataTypeMapping = DataTypeEnumLookup.find(std::string(AsStringView(Member(j_, "name"))));
     f_.name = itrDataTypeMapping != DataTypeEnumLookup.end() ? itrDataTypeMapping->second : DATA_TYPE::UNKNOWN;
-    f_.length = static_cast<uint16_t>(AsUint(Member(j_, "length")));
+    f_.length = AsUint<uint16_t>(Member(j_, "length"));
     f_.description = AsStringOrEmpty(Member(j_, "description"));
 }
 
@@ -159,11 +175,11 @@ void ParseArrayField(element j_, ArrayField& fd_)
 {
     ParseBaseField(j_, fd_);
 
-    fd_.arrayLength = static_cast<uint32_t>(AsUint(Member(j_, "arrayLength")));
+    fd_.arrayLength = AsUint<uint32_t>(Member(j_, "arrayLength"));
 
     element arrayLengthFieldSize;
     fd_.arrayLengthFieldSize =
-        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? static_cast<uint8_t>(AsUint(arrayLengthFieldSize)) : 4;
+        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? AsUint<uint8_t>(arrayLengthFieldSize) : 4;
 
     element arrayLengthRef;
     if (j_["arrayLengthRef"].get(arrayLengthRef) == simdjson::SUCCESS) { fd_.arrayLengthRef = AsStringOrEmpty(arrayLengthRef); }
@@ -175,11 +191,11 @@ void ParseFieldArrayField(element j_, FieldArrayField& fd_, const AlignFunction&
     ParseBaseField(j_, fd_);
 
     element arrayLength = Member(j_, "arrayLength");
-    fd_.arrayLength = arrayLength.is_null() ? 0 : static_cast<uint32_t>(AsUint(arrayLength));
+    fd_.arrayLength = arrayLength.is_null() ? 0 : AsUint<uint32_t>(arrayLength);
 
     element arrayLengthFieldSize;
     fd_.arrayLengthFieldSize =
-        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? static_cast<uint8_t>(AsUint(arrayLengthFieldSize)) : 4;
+        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? AsUint<uint8_t>(arrayLengthFieldSize) : 4;
 
     FieldInfo stFieldInfo{};
     fd_.fieldSize = fd_.arrayLength * ParseFields(Member(j_, "fields"), stFieldInfo, alignFn_);
@@ -251,7 +267,7 @@ uint32_t ParseFields(element j_, FieldInfo& vFields_, const AlignFunction& align
         {
             auto pstField = std::make_shared<ArrayField>();
             ParseArrayField(field, *pstField);
-            auto uiArrayLength = static_cast<uint32_t>(AsUint(Member(field, "arrayLength")));
+            auto uiArrayLength = AsUint<uint32_t>(Member(field, "arrayLength"));
             uiFieldSize += stDataType.length * uiArrayLength;
             if (sFieldType == "FIXED_LENGTH_ARRAY")
             {
@@ -304,16 +320,16 @@ std::vector<MessageDefinition::ConstPtr> ProcessMessageDefinitions(element jRoot
     {
         auto md = std::make_shared<MessageDefinition>();
         md->_id = AsString(Member(j_, "_id"));
-        md->logID = static_cast<uint32_t>(AsUint(Member(j_, "messageID"))); // this was "logID"
+        md->logID = AsUint<uint32_t>(Member(j_, "messageID")); // this was "logID"
         md->name = AsString(Member(j_, "name"));
         md->description = AsStringOrEmpty(Member(j_, "description"));
-        md->latestMessageCrc = std::stoul(AsString(Member(j_, "latestMsgDefCrc")));
+        md->latestMessageCrc = ParseMsgDefCrc(AsStringView(Member(j_, "latestMsgDefCrc")));
 
         object fields;
         if (Member(j_, "fields").get(fields) != simdjson::SUCCESS) { throw std::runtime_error("Expected 'fields' to be a JSON object"); }
         for (auto field : fields)
         {
-            uint32_t defCrc = std::stoul(std::string(field.key));
+            const uint32_t defCrc = ParseMsgDefCrc(field.key);
             FieldInfo stFieldInfo{};
             ParseFields(field.value, stFieldInfo, alignFn_);
             md->fieldInfo[defCrc] = std::make_shared<FieldInfo>(std::move(stFieldInfo));
-- 
2.43.0


From dc80d652ae1a66743481c358a55ab82bf3733d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:23 +0000
Subject: [PATCH 86/91] fix: do not divide by zero when aligning a field
 without a size

---
 include/novatel_edie/decoders/oem/common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/oem/common.hpp b/include/novatel_edie/decoders/oem/common.hpp
index 01683b2..6d5c309 100644
--- a/include/novatel_edie/decoders/oem/common.hpp
+++ b/include/novatel_edie/decoders/oem/common.hpp
@@ -133,6 +133,7 @@ enum class CONSTELLATION
 inline size_t OemAlignmentFunction(const size_t size, const uintptr_t start, const uintptr_t ptr)
 {
     size_t alignment = std::min(size_t{4}, size);
+    if (alignment == 0) { return 0; }
     size_t offset = (ptr - start) % alignment;
     return offset == 0 ? 0 : alignment - offset;
 };
-- 
2.43.0


From e65e05957a99b38792f197df249ba7a98c83db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:20 +0000
Subject: [PATCH 87/91] fix: read zero-padded widths and precisions of
 conversion strings

---
 include/novatel_edie/decoders/common/message_database.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index b780c45..8f12c19 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -370,7 +370,7 @@ struct BaseField
         if (std::isdigit(*sConvertString))
         {
             newWidth = std::stoi(sConvertString);
-            sConvertString += std::to_string(*newWidth).length();
+            while (std::isdigit(*sConvertString)) { ++sConvertString; }
         }
 
         if (*sConvertString == '.') { ++sConvertString; }
@@ -379,7 +379,7 @@ struct BaseField
         if (std::isdigit(*sConvertString))
         {
             newPrecision = std::stoi(sConvertString);
-            sConvertString += std::to_string(*newPrecision).length();
+            while (std::isdigit(*sConvertString)) { ++sConvertString; }
         }
 
         if (!std::isalpha(*sConvertString)) { throw std::runtime_error("Conversion string must contain a character"); }
-- 
2.43.0


From e17fb14c4a6fc6f9d17d56f53f922507772599bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:20 +0000
Subject: [PATCH 88/91] fix: refuse the enumerator value that leaves no unknown
 value

---
 src/decoders/common/src/json_db_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoders/common/src/json_db_reader.cpp b/src/decoders/common/src/json_db_reader.cpp
index 76990e8..f131930 100644
--- a/src/decoders/common/src/json_db_reader.cpp
+++ b/src/decoders/common/src/json_db_reader.cpp
@@ -127,6 +127,7 @@ void ParseEnumerators(element j_, std::vector<EnumDataType>& vEnumerators_);
 void ParseEnumDataType(element j_, EnumDataType& f_)
 {
     f_.value = AsUint<uint32_t>(Member(j_, "value"));
+    if (f_.value == std::numeric_limits<uint32_t>::max()) { throw std::runtime_error("Enumerator value leaves no room for an unknown value"); }
     f_.name = AsString(Member(j_, "name"));
     f_.description = AsStringOrEmpty(Member(j_, "description"));
 }
-- 
2.43.0


From 0dc5e643d20323d7ee570f7c5d7145ede3058fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:20 +0000
Subject: [PATCH 89/91] fix: refuse database metadata that is no JSON object

---
 src/decoders/common/src/json_db_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoders/common/src/json_db_reader.cpp b/src/decoders/common/src/json_db_reader.cpp
index f131930..b29149f 100644
--- a/src/decoders/common/src/json_db_reader.cpp
+++ b/src/decoders/common/src/json_db_reader.cpp
@@ -373,6 +373,7 @@ MessageDatabase::Ptr ParseJsonDbImpl(simdjson::padded_string source, std::string
         element meta;
         if (root["meta"].get(meta) == simdjson::SUCCESS)
         {
+            if (!meta.is_object() && !meta.is_null()) { throw std::runtime_error("Expected 'meta' to be a JSON object"); }
             dbMeta = std::make_shared<DbMetadata>();
             ParseDbMetadata(meta, *dbMeta);
         }
-- 
2.43.0


From c5990f4be65200748a00ba55d27ae8beae43b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 90/91] fix: initialise logging and set its level one at a time

---
 include/novatel_edie/common/logger.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/common/logger.hpp b/include/novatel_edie/common/logger.hpp
index 2326513..4ba355c 100644
--- a/include/novatel_edie/common/logger.hpp
+++ b/include/novatel_edie/common/logger.hpp
@@ -162,7 +162,11 @@ class CPPLoggerManager : public LoggerManager
     //!
     //! \param[in] eLevel_ The logging level to set.
     //----------------------------------------------------------------------------
-    void SetLoggingLevel(spdlog::level::level_enum eLevel_) { spdlog::set_level(eLevel_); }
+    void SetLoggingLevel(spdlog::level::level_enum eLevel_)
+    {
+        std::lock_guard<std::mutex> lock(loggerMutex);
+        spdlog::set_level(eLevel_);
+    }
 
     //----------------------------------------------------------------------------
     //! \brief Initializes the logger with an optional configuration file.
@@ -171,6 +175,7 @@ class CPPLoggerManager : public LoggerManager
     //----------------------------------------------------------------------------
     void InitLogger(const std::filesystem::path& configPath_ = "")
     {
+        std::lock_guard<std::mutex> lock(loggerMutex);
         if (rootLogger)
         {
             rootLogger->warn("Root logger already initialized. Configuration from '{}' ignored.", configPath_.string());
-- 
2.43.0


From 7af9bb27c579e2a7269cec1b79d2e3310dd10c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 91/91] fix: initialise the root logger before a rotating file
 is added

---
 include/novatel_edie/common/logger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/common/logger.hpp b/include/novatel_edie/common/logger.hpp
index 4ba355c..47b9907 100644
--- a/include/novatel_edie/common/logger.hpp
+++ b/include/novatel_edie/common/logger.hpp
@@ -228,6 +228,7 @@ class CPPLoggerManager : public LoggerManager
                                bool rotateOnOpen = true)
     {
         std::lock_guard<std::mutex> lock(loggerMutex);
+        InitRootLogger();
         auto sink = std::make_shared<spdlog::sinks::rotating_file_sink_mt>(sFileName, maxFileSize, maxFiles, rotateOnOpen);
         sink->set_level(level);
         sink->set_pattern("[%Y-%m-%d %H:%M:%S.%f] [%l] %v");
-- 
2.43.0

