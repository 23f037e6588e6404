From b3300ef61ae4d23bd2544f904bcb51b3dc1a6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 01/84] fix: do not send an empty observation epoch with no
 time

When the last MSM message of an epoch could not be used (undecodable, or
its time not resolvable) and nothing was waiting in the buffer, an
observation message with week 0 and tow 0 was sent.
---
 c/gnss_converters/src/rtcm3_sbp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 067487d..fdc5661 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -629,7 +629,9 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
     if (bitstream.len < MSM_MULTIPLE_BIT_OFFSET) {
       return;
     }
-    if (rtcm_getbitu(bitstream.data, MSM_MULTIPLE_BIT_OFFSET, 1) == 0) {
+    if (rtcm_getbitu(bitstream.data, MSM_MULTIPLE_BIT_OFFSET, 1) == 0 &&
+        (state->obs_to_send > 0 || state->obs_time.wn != 0)) {
+      /* there is an epoch to finish */
       send_observations(state);
     }
   }
-- 
2.43.0


From bdc7aecccf259cbc4380fa8bb5d701c8bd6b0abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 02/84] fix: treat reserved GLONASS channel values in MSM5/7 as
 unknown

DF419 values 14 and 15 do not name a frequency channel, so the channel
received in message 1020 has to be used as with MSM4/6.
---
 c/librtcm/src/decode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 25e6ce3..57a3a55 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -1335,7 +1335,8 @@ static rtcm3_rc rtcm3_decode_msm_internal(swiftnav_bitstream_t *buff,
   for (uint8_t sat = 0; sat < num_sats; sat++) {
     msg->sats[sat].rough_range_ms = rough_range_ms[sat];
     msg->sats[sat].rough_range_rate_m_s = rough_rate_m_s[sat];
-    if (RTCM_CONSTELLATION_GLO == cons && !sat_info_valid[sat]) {
+    if (RTCM_CONSTELLATION_GLO == cons &&
+        (!sat_info_valid[sat] || sat_info[sat] > MSM_GLO_MAX_FCN)) {
       msg->sats[sat].glo_fcn = MSM_GLO_FCN_UNKNOWN;
     } else {
       msg->sats[sat].glo_fcn = sat_info[sat];
-- 
2.43.0


From c5cbd2fa736c1dd536238e9e5fa426f95214a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 03/84] fix: compare the week number too when looking for a new
 epoch

Observations waiting from an earlier week with the same time of week were
merged in one epoch with the new ones.
---
 c/gnss_converters/src/rtcm3_sbp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index fdc5661..7ccc601 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -796,7 +796,8 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
 
   /* Check if the buffer already has obs of the same time */
   if (state->obs_to_send != 0 &&
-      (state->obs_time.tow != new_obs_time.tow ||
+      (state->obs_time.wn != new_obs_time.wn ||
+       state->obs_time.tow != new_obs_time.tow ||
        state->sender_id !=
            rtcm_stn_to_sbp_sender_id(new_rtcm_obs->header.stn_id))) {
     /* We either have missed a message, or we have a new station. Either way,
@@ -1529,7 +1530,8 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
 
   /* Check if the buffer already has obs of the same time */
   if (state->obs_to_send != 0 &&
-      (state->obs_time.tow != new_obs_time.tow ||
+      (state->obs_time.wn != new_obs_time.wn ||
+       state->obs_time.tow != new_obs_time.tow ||
        state->sender_id !=
            rtcm_stn_to_sbp_sender_id(new_rtcm_obs->header.stn_id))) {
     /* We either have missed a message, or we have a new station. Either way,
-- 
2.43.0


From 586c3f1921eda8f7d22bcb31407dd412c2e44fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 04/84] fix: keep MSM observations that wait when the next MSM
 comes after 5 s

With an MSM interval of 5 s or more, the loss of the last message of an
epoch made the next epoch discard the observations already received,
because the buffer was taken to contain legacy observations.
---
 c/gnss_converters/src/rtcm3_sbp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 7ccc601..9db14d9 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1508,7 +1508,13 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
     return;
   }
 
-  if (!is_msm_active(&obs_time, state) && state->obs_to_send > 0) {
+  const bool msm_obs_waiting =
+      gps_time_valid(&state->last_msm_received) &&
+      state->last_msm_received.wn == state->obs_time.wn &&
+      (u32)rint(state->last_msm_received.tow * SECS_MS) == state->obs_time.tow;
+
+  if (!is_msm_active(&obs_time, state) && state->obs_to_send > 0 &&
+      !msm_obs_waiting) {
     /* This is the first MSM observation, so clear the already decoded legacy
      * messages from the observation buffer to avoid duplicates */
     memset(state->obs_buffer, 0, sizeof(state->obs_buffer));
-- 
2.43.0


From 47dad6580d678a19cf34b3c153376d7fa489991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 05/84] fix: truncate long 1029 texts at a character boundary

Only a cut directly after a lead byte was noticed, a cut later in a three
or four byte character left part of it at the end, and a text of exactly
the maximum length could lose its last byte.
---
 c/gnss_converters/src/rtcm3_sbp.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 9db14d9..eef587a 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1306,22 +1306,14 @@ void send_1029(rtcm_msg_1029 *msg_1029, struct rtcm3_sbp_state *state) {
          msg_1029->utf8_code_units,
          message_size - preamble_size);
 
-  /* Check if we've had to truncate the string - we can check for the bit
-   * pattern that denotes a 4 byte code unit as it is the super set of all bit
-   * patterns (2,3 and 4 byte code units) */
-  if (message_size == SBP_MSG_LOG_TEXT_MAX) {
-    if ((message[message_size - 1] & 0xF8) == 0xF0 ||
-        (message[message_size - 1] & 0xE0) == 0xE0 ||
-        (message[message_size - 1] & 0xE0) == 0xC0) {
-      /* We've truncated a 2, 3 or 4 byte code unit */
+  /* If we have had to truncate the string and the first byte left out is a
+   * continuation byte, then a multi-byte character has been cut: remove the
+   * rest of it */
+  if (preamble_size + msg_1029->utf8_code_units_n > message_size) {
+    const uint8_t *text = msg_1029->utf8_code_units;
+    while (message_size > preamble_size &&
+           (text[message_size - preamble_size] & 0xC0) == 0x80) {
       message_size--;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0 ||
-               (message[message_size - 1] & 0xE0) == 0xE0) {
-      /* We've truncated a 3 or 4 byte code unit */
-      message_size -= 2;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0) {
-      /* We've truncated a 4 byte code unit */
-      message_size -= 3;
     }
   }
 
-- 
2.43.0


From 5c42b832059f312f4a3449a2f96372cc3ccf78eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 06/84] fix: pair all SSR clock corrections with the orbit
 corrections

Only the first clock corrections, as many as there are orbit corrections,
were looked at, so satellites present in both messages could get no
correction when the clock message had more satellites.
---
 c/gnss_converters/src/rtcm3_sbp_ssr.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ssr.c b/c/gnss_converters/src/rtcm3_sbp_ssr.c
index 6709874..1702f94 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ssr.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ssr.c
@@ -93,9 +93,7 @@ void rtcm3_ssr_separate_orbit_clock_to_sbp(rtcm_msg_clock *msg_clock,
   sbp_msg_t msg;
   sbp_msg_ssr_orbit_clock_t *sbp_orbit_clock = &msg.ssr_orbit_clock;
 
-  for (int sat_count = 0; (sat_count < msg_clock->header.num_sats) &&
-                          (sat_count < msg_orbit->header.num_sats);
-       ++sat_count) {
+  for (int sat_count = 0; sat_count < msg_clock->header.num_sats; ++sat_count) {
     memset(sbp_orbit_clock, 0, sizeof(*sbp_orbit_clock));
 
     // We aren't guaranteed that the satellite info in the orbit and clock
@@ -103,9 +101,9 @@ void rtcm3_ssr_separate_orbit_clock_to_sbp(rtcm_msg_clock *msg_clock,
     // for a given satellite
     int clock_index = sat_count;
     int orbit_index = 0;
-    while (msg_orbit->orbit[orbit_index].sat_id !=
-               msg_clock->clock[clock_index].sat_id &&
-           orbit_index < msg_orbit->header.num_sats) {
+    while (orbit_index < msg_orbit->header.num_sats &&
+           msg_orbit->orbit[orbit_index].sat_id !=
+               msg_clock->clock[clock_index].sat_id) {
       orbit_index++;
     }
     if (orbit_index >= msg_orbit->header.num_sats) {
-- 
2.43.0


From 232b79a0f9fa1997289073b220131f251b1acf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 07/84] fix: saturate the highest C/N0 values instead of
 wrapping to zero

Extended C/N0 values of 63.875 dB-Hz and above round to 256 quarters of a
dB-Hz, which does not fit in the SBP field.
---
 c/gnss_converters/src/rtcm3_sbp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index eef587a..b8aafa4 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1619,7 +1619,8 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
           }
 
           if (data->flags.fields.valid_cnr) {
-            sbp_freq->cn0 = (u8)rint(data->cnr * MSG_OBS_CN0_MULTIPLIER);
+            sbp_freq->cn0 =
+                (u8)MIN(rint(data->cnr * MSG_OBS_CN0_MULTIPLIER), UINT8_MAX);
           } else {
             sbp_freq->cn0 = 0;
           }
-- 
2.43.0


From d3f5668897e4bccb3dde6c7c6f0a358258322bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 08/84] fix: initialise the SSR and SBAS ephemeris caches of
 the RTCM converter

The result depended on what was in the memory of the state before
rtcm2sbp_init.
---
 c/gnss_converters/src/rtcm3_sbp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index b8aafa4..d177526 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -122,6 +122,9 @@ void rtcm2sbp_init(struct rtcm3_sbp_state *state,
   memset(&state->obs_time, 0, sizeof(state->obs_time));
   state->obs_to_send = 0;
 
+  memset(state->orbit_clock_cache, 0, sizeof(state->orbit_clock_cache));
+  memset(&state->eph_data, 0, sizeof(state->eph_data));
+
   rtcm_init_logging(&rtcm_log_callback_fn, state);
 
   sbp_state_init(&state->sbp_state);
-- 
2.43.0


From de5e67e8e4aea919bdebd6802de0891b2961698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 09/84] fix: keep the time truth valid when its tow rounds up
 to a full week

The time of week is stored in single precision, where times in the last
hundredths of a second of the week become 604800 s, which is not a valid
time: readers got a solved state with an invalid time.
---
 c/gnss_converters/src/time_truth.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/c/gnss_converters/src/time_truth.c b/c/gnss_converters/src/time_truth.c
index 4f5b1ea..d9bec59 100644
--- a/c/gnss_converters/src/time_truth.c
+++ b/c/gnss_converters/src/time_truth.c
@@ -37,6 +37,17 @@ static_assert(
     alignof(time_truth_t) % alignof(atomic_time_truth_t) == 0,
     "opaque type must be alignable to its actual type's alignment requirement");
 
+/** Reduce a time to the stored precision, where a time of week close to the end
+ * of the week can round up to the start of the next one */
+static void time_truth_set_time(struct time_truth *value, gps_time_t time) {
+  value->wn = time.wn;
+  value->tow = (float)time.tow;
+  if (value->tow >= (float)WEEK_SECS && value->wn < INT16_MAX) {
+    value->wn++;
+    value->tow -= (float)WEEK_SECS;
+  }
+}
+
 void time_truth_init(time_truth_t *instance) {
   struct time_truth value;
   memset(&value, 0, sizeof(value));
@@ -79,8 +90,7 @@ bool time_truth_update(time_truth_t *instance,
           case TIME_TRUTH_EPH_GPS:
           case TIME_TRUTH_EPH_GAL:
           case TIME_TRUTH_EPH_BDS:
-            new_time_truth.wn = time.wn;
-            new_time_truth.tow = (float)time.tow;
+            time_truth_set_time(&new_time_truth, time);
             new_time_truth.state = TIME_TRUTH_SOLVED;
             break;
           default:
@@ -96,8 +106,7 @@ bool time_truth_update(time_truth_t *instance,
             if (gpsdifftime(&time, &current_time) <= 0) {
               return false;
             }
-            new_time_truth.wn = time.wn;
-            new_time_truth.tow = (float)time.tow;
+            time_truth_set_time(&new_time_truth, time);
             new_time_truth.state = TIME_TRUTH_SOLVED;
             break;
           default:
-- 
2.43.0


From 97639e772afd85e48e61a57e33ea7dc01e55505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 10/84] fix: check the size of the MSM cell mask before storing
 it

Masks of more than 64 cells were written past the end of the cell mask.
---
 c/librtcm/src/decode.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 57a3a55..59f7aac 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -247,6 +247,10 @@ static rtcm3_rc rtcm3_read_msm_header(swiftnav_bitstream_t *buff,
       count_mask_values(MSM_SATELLITE_MASK_SIZE, header->satellite_mask);
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, header->signal_mask);
+  if (num_sats * num_sigs > MSM_MAX_CELLS) {
+    /* Too large cell mask, most probably a parsing error */
+    return RC_INVALID_MESSAGE;
+  }
   uint8_t cell_mask_size = num_sats * num_sigs;
 
   for (uint8_t i = 0; i < cell_mask_size; i++) {
@@ -1214,11 +1218,6 @@ static rtcm3_rc rtcm3_decode_msm_internal(swiftnav_bitstream_t *buff,
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, msg->header.signal_mask);
 
-  if (num_sats * num_sigs > MSM_MAX_CELLS) {
-    /* Too large cell mask, most probably a parsing error */
-    return RC_INVALID_MESSAGE;
-  }
-
   uint8_t cell_mask_size = num_sats * num_sigs;
   uint8_t num_cells = count_mask_values(cell_mask_size, msg->header.cell_mask);
 
-- 
2.43.0


From 33256290c0160db363406eb019328bb1d01fe7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 11/84] fix: make room for all satellites an MSM message can
 contain

The satellite mask has 64 bits but there was room for 32 satellites only.
---
 c/librtcm/include/rtcm3/messages.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/include/rtcm3/messages.h b/c/librtcm/include/rtcm3/messages.h
index 9178463..59aa698 100644
--- a/c/librtcm/include/rtcm3/messages.h
+++ b/c/librtcm/include/rtcm3/messages.h
@@ -132,7 +132,7 @@ typedef struct {
 
 typedef struct {
   rtcm_msm_header header;
-  rtcm_msm_sat_data sats[RTCM_MAX_SATS];
+  rtcm_msm_sat_data sats[MSM_SATELLITE_MASK_SIZE];
   rtcm_msm_signal_data signals[MSM_MAX_CELLS];
 } rtcm_msm_message;
 
-- 
2.43.0


From 297c346847adfecabcab6343cb5261c73c82f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 12/84] fix: reject 1006 messages that end within the position

---
 c/librtcm/src/decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 59f7aac..c5f2428 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -615,7 +615,10 @@ rtcm3_rc rtcm3_decode_1006_bitstream(swiftnav_bitstream_t *buff,
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  rtcm3_rc ret = rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  if (ret != RC_OK) {
+    return ret;
+  }
   uint32_t tmp;
   BITSTREAM_DECODE_U32(buff, tmp, 16);
   msg_1006->ant_height = (double)(tmp) / 10000.0;
-- 
2.43.0


From 3eddfefc9a3669cd13c8cda001928c4c513d571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 13/84] fix: stop decoding navigation data frames at the end of
 the message

The frame sizes in the message were believed, so up to 8 kB following the
message were read.
---
 c/gnss_converters/src/rtcm3_sbp.c |  2 +-
 c/librtcm/include/rtcm3/decode.h  | 10 ++++++-
 c/librtcm/src/decode.c            | 47 ++++++++++---------------------
 3 files changed, 25 insertions(+), 34 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index d177526..adedee2 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -616,7 +616,7 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
     }
     case 4075: {
       rtcm_msg_ndf ndf_msg;
-      if (RC_OK == rtcm3_decode_4075(payload, &ndf_msg)) {
+      if (RC_OK == rtcm3_decode_4075_bitstream(&bitstream, &ndf_msg)) {
         handle_ndf_frame(&ndf_msg, state);
       }
       break;
diff --git a/c/librtcm/include/rtcm3/decode.h b/c/librtcm/include/rtcm3/decode.h
index f02340a..9f23f1d 100644
--- a/c/librtcm/include/rtcm3/decode.h
+++ b/c/librtcm/include/rtcm3/decode.h
@@ -58,7 +58,8 @@ rtcm3_rc rtcm3_decode_msm7_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msm_message *msg);
 rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msg_swift_proprietary *msg);
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg);
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg);
 
 double rtcm3_decode_lock_time(uint8_t lock);
 
@@ -191,6 +192,13 @@ static inline rtcm3_rc rtcm3_decode_4062(const uint8_t buff[],
   return rtcm3_decode_4062_bitstream(&bitstream, msg);
 }
 
+static inline rtcm3_rc rtcm3_decode_4075(const uint8_t buff[],
+                                         rtcm_msg_ndf *msg) {
+  swiftnav_bitstream_t bitstream;
+  swiftnav_bitstream_init(&bitstream, buff, UINT32_MAX);
+  return rtcm3_decode_4075_bitstream(&bitstream, msg);
+}
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index c5f2428..2fe59bb 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -1485,21 +1485,19 @@ rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
  *          - RC_MESSAGE_TYPE_MISMATCH : Message type mismatch
  *          - RC_INVALID_MESSAGE : Nonzero reserved bits (invalid format)
  */
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg) {
   assert(msg);
-  uint16_t bit = 0;
-  msg->msg_type = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->msg_type, 12);
 
   if (msg->msg_type != 4075) { /* Unexpected message type. */
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  msg->stn_id = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->stn_id, 12);
 
-  uint8_t reserved_bits = rtcm_getbitu(buff, bit, 2);
-  bit += 2;
+  uint8_t reserved_bits;
+  BITSTREAM_DECODE_U8(buff, reserved_bits, 2);
 
   /* These bits are reserved for future use, if they aren't 0 it must be a
      new format we don't know how to handle. */
@@ -1507,34 +1505,20 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     return RC_INVALID_MESSAGE;
   }
 
-  msg->frame_count = rtcm_getbitu(buff, bit, 6);
-  bit += 6;
+  BITSTREAM_DECODE_U8(buff, msg->frame_count, 6);
 
   if (msg->frame_count > MAX_NDF_FRAMES) {
     return RC_INVALID_MESSAGE;
   }
 
   for (uint8_t i = 0; i < msg->frame_count; i++) {
-    msg->frames[i].sat_sys = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
-
-    msg->frames[i].sat_num = rtcm_getbitu(buff, bit, 6);
-    bit += 6;
-
-    msg->frames[i].ext_sat_info = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
-
-    msg->frames[i].sig_type = rtcm_getbitu(buff, bit, 5);
-    bit += 5;
-
-    msg->frames[i].epoch_time = rtcm_getbitu(buff, bit, 30);
-    bit += 30;
-
-    msg->frames[i].continuous_tracking = rtcm_getbitu(buff, bit, 1);
-    bit += 1;
-
-    msg->frames[i].frame_data_size_bits = rtcm_getbitu(buff, bit, 12);
-    bit += 12;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sat_sys, 4);
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sat_num, 6);
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].ext_sat_info, 4);
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sig_type, 5);
+    BITSTREAM_DECODE_U32(buff, msg->frames[i].epoch_time, 30);
+    BITSTREAM_DECODE_BOOL(buff, msg->frames[i].continuous_tracking, 1);
+    BITSTREAM_DECODE_U16(buff, msg->frames[i].frame_data_size_bits, 12);
 
     uint16_t remaining_bits = msg->frames[i].frame_data_size_bits;
     if (remaining_bits > MAX_NDF_FRAME_SIZE_BITS) {
@@ -1544,8 +1528,7 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     uint16_t j = 0;
     while (remaining_bits > 0) {
       uint32_t next_bits = remaining_bits < 32 ? remaining_bits : 32;
-      msg->frames[i].frame_data[j++] = rtcm_getbitu(buff, bit, next_bits);
-      bit += next_bits;
+      BITSTREAM_DECODE_U32(buff, msg->frames[i].frame_data[j++], next_bits);
       remaining_bits -= next_bits;
     }
   }
-- 
2.43.0


From 571de05d7e84802786c52884270040c799e171ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 14/84] fix: reject SSR messages that end within a clock
 correction

The correction was emitted with uninitialised values.
---
 c/librtcm/src/ssr_decode.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/ssr_decode.c b/c/librtcm/src/ssr_decode.c
index e0e2566..802a9a7 100644
--- a/c/librtcm/src/ssr_decode.c
+++ b/c/librtcm/src/ssr_decode.c
@@ -281,7 +281,9 @@ rtcm3_rc rtcm3_decode_clock_bitstream(swiftnav_bitstream_t *buff,
     }
 
     clock->sat_id = sat_id;
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
@@ -323,7 +325,9 @@ rtcm3_rc rtcm3_decode_orbit_clock_bitstream(
                        buff, msg_orbit_clock->header.constellation, orbit))) {
       return RC_INVALID_MESSAGE;
     }
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
-- 
2.43.0


From 102f44a127f5a2515488741ff2eb2c3e7cc058ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 15/84] fix: restore the empty observation message that ends an
 unusable MSM epoch

The repository's own tests (test_strs_22, test_strs_24) expect one empty
observation message when the last MSM message of an epoch is rejected, so
b3300ef is taken back.
---
 c/gnss_converters/src/rtcm3_sbp.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index adedee2..cd1ffa9 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -632,9 +632,7 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
     if (bitstream.len < MSM_MULTIPLE_BIT_OFFSET) {
       return;
     }
-    if (rtcm_getbitu(bitstream.data, MSM_MULTIPLE_BIT_OFFSET, 1) == 0 &&
-        (state->obs_to_send > 0 || state->obs_time.wn != 0)) {
-      /* there is an epoch to finish */
+    if (rtcm_getbitu(bitstream.data, MSM_MULTIPLE_BIT_OFFSET, 1) == 0) {
       send_observations(state);
     }
   }
-- 
2.43.0


From 5d1c8cbbd559b50715409bb438916ec7e58b3d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 16/84] fix: keep the latest NAV-PVT status per UBX converter

It was shared by all converters of the process, so one receiver's fix status
and satellite count showed up in the output of another one.
---
 .../include/gnss-converters/ubx_sbp.h         |  8 ++++
 c/gnss_converters/src/ubx_sbp.c               | 47 +++++++++----------
 2 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/c/gnss_converters/include/gnss-converters/ubx_sbp.h b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
index e24ffcb..5e4d48a 100644
--- a/c/gnss_converters/include/gnss-converters/ubx_sbp.h
+++ b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
@@ -62,6 +62,13 @@ struct ubx_esf_state {
   bool weeknumber_set;
 };
 
+/* Syncs data between HNR_PVT and NAV_PVT */
+struct ubx_pvt_state {
+  u8 num_sats;
+  u8 flags;
+  u8 fix_type;
+};
+
 struct ubx_sbp_state {
   u8 read_buffer[UBX_BUFFER_SIZE];
   size_t index;
@@ -74,6 +81,7 @@ struct ubx_sbp_state {
                         void *context);
   void *context;
   bool use_hnr;
+  struct ubx_pvt_state pvt_state;
   struct ubx_esf_state esf_state;
 
   struct eph_sat_data eph_data;
diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 64785fa..0aad76e 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -101,15 +101,6 @@ static const double ubx_sensortime_scale = 39.0625e-6;
  */
 #define SBP_MAX_NUM_OBS 14
 
-/* Syncs data between HNR_PVT and NAV_PVT */
-struct ubx_pvt_state {
-  u8 num_sats;
-  u8 flags;
-  u8 fix_type;
-};
-
-static struct ubx_pvt_state pvt_state;
-
 static int reload_ubx_buffer(struct ubx_sbp_state *state) {
   state->index = 0;
   int bytes_read = state->read_stream_func(
@@ -402,7 +393,8 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   return 0;
 }
 
-static int fill_msg_orient_euler(swiftnav_bytestream_t *buf,
+static int fill_msg_orient_euler(const struct ubx_pvt_state *pvt_state,
+                                 swiftnav_bytestream_t *buf,
                                  sbp_msg_orient_euler_t *msg) {
   ubx_nav_att nav_att;
   if (ubx_decode_nav_att_bytestream(buf, &nav_att) != RC_OK) {
@@ -419,15 +411,16 @@ static int fill_msg_orient_euler(swiftnav_bytestream_t *buf,
   msg->yaw_accuracy = (float)(nav_att.acc_heading * UBX_NAV_ATT_ACC_SCALING);
 
   msg->flags = 0;
-  if ((pvt_state.fix_type == UBX_NAV_PVT_FIX_TYPE_DEAD_RECKONING) ||
-      (pvt_state.fix_type == UBX_NAV_PVT_FIX_TYPE_COMBINED)) {
+  if ((pvt_state->fix_type == UBX_NAV_PVT_FIX_TYPE_DEAD_RECKONING) ||
+      (pvt_state->fix_type == UBX_NAV_PVT_FIX_TYPE_COMBINED)) {
     msg->flags |= SBP_ORIENT_EULER_INS_MASK;
   }
 
   return 0;
 }
 
-static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
+static int fill_msg_pos_llh(struct ubx_pvt_state *pvt_state,
+                            swiftnav_bytestream_t *buf,
                             sbp_msg_pos_llh_t *msg) {
   ubx_nav_pvt nav_pvt;
   if (ubx_decode_nav_pvt_bytestream(buf, &nav_pvt) != RC_OK) {
@@ -448,7 +441,7 @@ static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
                               ? max_accuracy
                               : nav_pvt.vertical_accuracy);
   msg->n_sats = nav_pvt.num_sats;
-  pvt_state.num_sats = nav_pvt.num_sats;
+  pvt_state->num_sats = nav_pvt.num_sats;
 
   msg->flags = 0;
   if ((nav_pvt.fix_type == UBX_NAV_PVT_FIX_TYPE_NONE) ||
@@ -486,13 +479,14 @@ static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
     msg->flags |= SBP_LLH_INS_MASK;
   }
 
-  pvt_state.flags = msg->flags;
-  pvt_state.fix_type = nav_pvt.fix_type;
+  pvt_state->flags = msg->flags;
+  pvt_state->fix_type = nav_pvt.fix_type;
 
   return 0;
 }
 
-static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
+static int fill_msg_vel_ecef(const struct ubx_pvt_state *pvt_state,
+                             swiftnav_bytestream_t *buf,
                              sbp_msg_vel_ecef_t *msg) {
   ubx_nav_velecef nav_velecef;
   if (ubx_decode_nav_velecef_bytestream(buf, &nav_velecef) != RC_OK) {
@@ -504,10 +498,10 @@ static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
   msg->y = nav_velecef.ecefVY * UBX_NAV_VELECEF_SCALING;
   msg->z = nav_velecef.ecefVZ * UBX_NAV_VELECEF_SCALING;
   msg->accuracy = nav_velecef.speed_acc;
-  msg->n_sats = pvt_state.num_sats;
+  msg->n_sats = pvt_state->num_sats;
   msg->flags = 0;
   /* Assume either invalid or dead reckoning. Temp. hack */
-  if (pvt_state.fix_type > 0) {
+  if (pvt_state->fix_type > 0) {
     msg->flags |= SBP_LLH_DEAD_RECKONING_MASK;
   } else {
     msg->flags = 0;
@@ -518,7 +512,8 @@ static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
   return 0;
 }
 
-static void fill_msg_pos_llh_hnr(const ubx_hnr_pvt *hnr_pvt,
+static void fill_msg_pos_llh_hnr(const struct ubx_pvt_state *pvt_state,
+                                 const ubx_hnr_pvt *hnr_pvt,
                                  sbp_msg_pos_llh_t *msg) {
   msg->tow = hnr_pvt->i_tow;
   msg->lat = UBX_SBP_LAT_LON_SCALING * hnr_pvt->lat;
@@ -534,8 +529,8 @@ static void fill_msg_pos_llh_hnr(const ubx_hnr_pvt *hnr_pvt,
                               ? max_accuracy
                               : hnr_pvt->vertical_accuracy);
 
-  msg->n_sats = pvt_state.num_sats;
-  msg->flags = pvt_state.flags;
+  msg->n_sats = pvt_state->num_sats;
+  msg->flags = pvt_state->flags;
 }
 
 static int fill_msg_fwd(swiftnav_bytestream_t *buf, sbp_msg_fwd_t *msg) {
@@ -979,7 +974,7 @@ static void handle_hnr_pvt(struct ubx_sbp_state *state,
     return;
   }
 
-  fill_msg_pos_llh_hnr(&hnr_pvt, sbp_pos_llh);
+  fill_msg_pos_llh_hnr(&state->pvt_state, &hnr_pvt, sbp_pos_llh);
   state->last_tow_ms = sbp_pos_llh->tow;
 
   sbp_orient_euler->tow = hnr_pvt.i_tow;
@@ -998,7 +993,7 @@ static void handle_nav_att(struct ubx_sbp_state *state,
                            swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_orient_euler_t *sbp_orient_euler = &msg.orient_euler;
-  if (fill_msg_orient_euler(inbuf, sbp_orient_euler) == 0) {
+  if (fill_msg_orient_euler(&state->pvt_state, inbuf, sbp_orient_euler) == 0) {
     memcpy(&state->last_orient_euler,
            sbp_orient_euler,
            sizeof(sbp_msg_orient_euler_t));
@@ -1013,7 +1008,7 @@ static void handle_nav_pvt(struct ubx_sbp_state *state,
                            swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_pos_llh_t *sbp_pos_llh = &msg.pos_llh;
-  if (fill_msg_pos_llh(inbuf, sbp_pos_llh) == 0) {
+  if (fill_msg_pos_llh(&state->pvt_state, inbuf, sbp_pos_llh) == 0) {
     state->last_tow_ms = sbp_pos_llh->tow;
     if (!state->use_hnr) {
       state->cb_ubx_to_sbp(
@@ -1026,7 +1021,7 @@ static void handle_nav_velecef(struct ubx_sbp_state *state,
                                swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_vel_ecef_t *sbp_vel_ecef = &msg.vel_ecef;
-  if (fill_msg_vel_ecef(inbuf, sbp_vel_ecef) == 0) {
+  if (fill_msg_vel_ecef(&state->pvt_state, inbuf, sbp_vel_ecef) == 0) {
     state->cb_ubx_to_sbp(state->sender_id, SbpMsgVelEcef, &msg, state->context);
   }
 }
-- 
2.43.0


From 2695f7aacbf1a82bfb52dec0803cf0dfa4607da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 17/84] fix: mark UBX observations that do not fit in SBP as
 invalid

A carrier phase or Doppler out of range left the field of the outgoing message
uninitialised, and a negative, huge or NaN pseudorange was converted with
undefined behaviour, while the flags said that the values are valid.
---
 c/gnss_converters/src/ubx_sbp.c | 39 ++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 0aad76e..d3eefc0 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -86,6 +86,8 @@
 
 #define UBX_SBP_PSEUDORANGE_SCALING (50)
 
+#define SBP_OBS_CODE_MASK (1 << 0)
+#define SBP_OBS_PHASE_MASK (1 << 1)
 #define SBP_OBS_DOPPLER_MASK (1 << 3)
 #define SBP_OBS_TRACK_STATE_MASK (0x07)
 
@@ -284,9 +286,19 @@ static code_t convert_ubx_gnssid_sigid(u8 gnss_id, u8 sig_id) {
   return CODE_INVALID;
 }
 
+static bool pack_pseudorange(double P_in, u32 *P_out) {
+  /* convert units: meter -> 2 cm */
+  double P = UBX_SBP_PSEUDORANGE_SCALING * P_in;
+  if (!(P >= 0 && P <= UINT32_MAX)) {
+    return false;
+  }
+  *P_out = (u32)P;
+  return true;
+}
+
 static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
   double Li = floor(L_in);
-  if (Li < INT32_MIN || Li > INT32_MAX) {
+  if (!(Li >= INT32_MIN && Li < INT32_MAX)) {
     return false;
   }
 
@@ -306,7 +318,7 @@ static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
 /* TODO(STAR-920) Move pack_* functions into libsbp or libswitfnav */
 static bool pack_doppler(double D_in, sbp_doppler_t *D_out) {
   double Di = floor(D_in);
-  if (Di < INT16_MIN || Di > INT16_MAX) {
+  if (!(Di >= INT16_MIN && Di < INT16_MAX)) {
     return false;
   }
 
@@ -367,10 +379,10 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   *n_obs = rxm_rawx->num_meas;
 
   for (int i = 0; i < *n_obs; i++) {
-    /* convert units: meter -> 2 cm */
-    obs[i].P = (u32)(UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i]);
-    pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L);
-    pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D);
+    bool code_ok = pack_pseudorange(rxm_rawx->pseudorange_m[i], &obs[i].P);
+    bool phase_ok =
+        pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L);
+    bool doppler_ok = pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D);
     /* check for overflow */
     if (rxm_rawx->cno_dbhz[i] > 0x3F) {
       obs[i].cn0 = 0xFF;
@@ -385,6 +397,21 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
     /* currently assumes all doppler are valid */
     obs[i].flags |= SBP_OBS_DOPPLER_MASK;
     obs[i].flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
+    /* values that do not fit in the message are not valid */
+    if (!code_ok) {
+      obs[i].P = 0;
+      obs[i].flags &= (u8)~SBP_OBS_CODE_MASK;
+    }
+    if (!phase_ok) {
+      obs[i].L.i = 0;
+      obs[i].L.f = 0;
+      obs[i].flags &= (u8)~SBP_OBS_PHASE_MASK;
+    }
+    if (!doppler_ok) {
+      obs[i].D.i = 0;
+      obs[i].D.f = 0;
+      obs[i].flags &= (u8)~SBP_OBS_DOPPLER_MASK;
+    }
     obs[i].sid.sat = rxm_rawx->sat_id[i];
     obs[i].sid.code =
         convert_ubx_gnssid_sigid(rxm_rawx->gnss_id[i], rxm_rawx->sig_id[i]);
-- 
2.43.0


From 4fdb719eafbeb687f65eab431165e8dd4333b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 18/84] fix: do not take the wrap of the odometry time tag for
 a reset

The gap was computed from the unwrapped time, so after the 32 bit time tag
wrapped the time of wheel ticks jumped.
---
 c/gnss_converters/src/ubx_sbp.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index d3eefc0..ad30e29 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -668,8 +668,7 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
       // cached in the state object and would cause wrap around and
       // errors down the processing chain
       if ((state->esf_state.running_odo_msss != -1) &&
-          ((uint64_t)esf_meas.calib_tag -
-           (uint64_t)state->esf_state.running_odo_msss) > 1000) {
+          (u32)(esf_meas.calib_tag - state->esf_state.last_odo_msss) > 1000) {
         state->esf_state.running_odo_msss = -1;
         // The first packet after a reset appears to contain bad data so just
         // drop it, the next packet to arrive should be valid
-- 
2.43.0


From 72daac7fa6f6e436a5d2d78f076435b7af937622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 19/84] fix: relate the GNSS time offset to the unwrapped
 sensor time

Once the millisecond counter of the receiver has wrapped, the sensor times count
on beyond 32 bits but the offset was still computed from the raw counter.
---
 c/gnss_converters/src/ubx_sbp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index ad30e29..2eabf20 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1164,7 +1164,13 @@ static void handle_nav_status(struct ubx_sbp_state *state,
 
     if (gps_time_valid(&state->esf_state.last_imu_time_msss)) {
       gps_time_t nav_status_time_local;
-      nav_status_time_local.tow = 0.001 * nav_status.msss;
+      /* the clock of the sensor messages, where wraps of msss are resolved */
+      s64 msss = nav_status.msss;
+      if (state->esf_state.running_imu_msss != -1) {
+        msss = state->esf_state.running_imu_msss +
+               (s32)(nav_status.msss - state->esf_state.last_imu_msss);
+      }
+      nav_status_time_local.tow = 0.001 * msss;
       nav_status_time_local.wn = 0;
       if (!normalize_gps_time_safe(&nav_status_time_local)) {
         return;
-- 
2.43.0


From 7898c13c287d062f7ed9239f2686c0a1d6611f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 20/84] fix: ignore GLONASS strings with number 0

The string was stored in front of the array.
---
 c/gnss_converters/src/ubx_ephemeris/glo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_ephemeris/glo.c b/c/gnss_converters/src/ubx_ephemeris/glo.c
index ed80926..ae9a554 100644
--- a/c/gnss_converters/src/ubx_ephemeris/glo.c
+++ b/c/gnss_converters/src/ubx_ephemeris/glo.c
@@ -92,7 +92,7 @@ void glo_decode_string(
   }
 
   u8 string_num = (words[0] >> 27U) & 0xFU;
-  if (string_num > GLO_MAX_STRING_NUM) {
+  if (string_num < 1 || string_num > GLO_MAX_STRING_NUM) {
     /* only strings 1-5 needed for ephemeris */
     return;
   }
-- 
2.43.0


From 725ff24bd2bb71d3fc0c774eb3539f8471908b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 21/84] fix: keep GPS subframes of the current issue when an
 old one is dropped

A subframe left over from the previous issue also threw away the subframes of
the new issue that were received before, so its ephemeris was lost or delayed.
---
 c/gnss_converters/src/ubx_ephemeris/gps.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/ubx_ephemeris/gps.c b/c/gnss_converters/src/ubx_ephemeris/gps.c
index 81cb008..785c39b 100644
--- a/c/gnss_converters/src/ubx_ephemeris/gps.c
+++ b/c/gnss_converters/src/ubx_ephemeris/gps.c
@@ -97,9 +97,14 @@ void gps_decode_subframe(struct ubx_sbp_state *data,
   u8 iode8_sf3 = (sat->sf[2].words[9] >> 22U) & 0xFFU;
 
   if ((iodc8_sf1 != iode8_sf2) || (iode8_sf2 != iode8_sf3)) {
-    // Invalidate the out of date subframes (i.e. all but sf_idx, which is this
-    // one).
-    invalidate_subframes(sat, /*mask=*/0x7 & ~(1U << sf_idx));
+    // Invalidate the out of date subframes (i.e. those which are of another
+    // issue than sf_idx, which is this one).
+    const u8 iod8[3] = {iodc8_sf1, iode8_sf2, iode8_sf3};
+    for (int i = 0; i < 3; i++) {
+      if (iod8[i] != iod8[sf_idx]) {
+        invalidate_subframes(sat, /*mask=*/1U << i);
+      }
+    }
     return;
   }
 
-- 
2.43.0


From dfbe42c03d9b7347805085643b7958a9e6735a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 22/84] fix: SBAS message time in the first second of the week

The unsigned time of week underflowed.
---
 c/gnss_converters/src/ubx_sbp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 2eabf20..e0333f8 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1293,10 +1293,10 @@ static void handle_rxm_sfrbx(struct ubx_sbp_state *state,
     /* Fill in the approximate time of transmission of the start of the SBAS
      * message. The best guess for it we have is the current solution time
      * minus 1 s (length of the message) minus 120 ms (~= 36000km / 3e8m/s). */
-    tow_ms -= 1120;
-    if (tow_ms < 0.0) {
+    if (tow_ms < 1120) {
       tow_ms += WEEK_MS;
     }
+    tow_ms -= 1120;
 
     sbas_decode_subframe(&state->eph_data,
                          tow_ms,
-- 
2.43.0


From bb11e425249c4e56679ce86b9d6c3531a20b234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 23/84] fix: count wheel ticks for every wheel, and across the
 wrap

All wheels shared the last received and the sent count, so with more than one
wheel the counts were made from differences between wheels, and when the 22 bit
counter of the receiver wrapped the count jumped back.
---
 .../include/gnss-converters/ubx_sbp.h         |  7 +++--
 c/gnss_converters/src/ubx_sbp.c               | 31 +++++++++++++------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/c/gnss_converters/include/gnss-converters/ubx_sbp.h b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
index 5e4d48a..3b29cd0 100644
--- a/c/gnss_converters/include/gnss-converters/ubx_sbp.h
+++ b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
@@ -46,6 +46,9 @@ extern "C" {
 
 #define UBX_UNKNOWN_PRN 255
 
+/* Front left, front right, rear left and rear right wheel, single tick */
+#define UBX_ESF_TICK_SENSORS 5
+
 /* Stores state for ESF-* messages */
 struct ubx_esf_state {
   gps_time_t last_obs_time_gnss;
@@ -55,8 +58,8 @@ struct ubx_esf_state {
   u32 last_imu_msss;
   u32 last_odo_msss;
   u32 imu_raw_msgs_sent;
-  u32 last_input_tick_count;
-  s32 output_tick_count;
+  u32 last_input_tick_count[UBX_ESF_TICK_SENSORS];
+  s32 output_tick_count[UBX_ESF_TICK_SENSORS];
   double last_imu_temp;
   bool temperature_set;
   bool weeknumber_set;
diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index e0333f8..31ad6b6 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -605,6 +605,13 @@ static u8 get_wheeltick_velocity_source(u8 data_type) {
   }
 }
 
+/* index of a wheel tick sensor in the counters of the state */
+static u8 get_tick_sensor(u8 data_type) {
+  assert(data_type >= ESF_FRONT_LEFT_WHEEL_TICKS &&
+         data_type <= ESF_SINGLE_TICK);
+  return data_type - ESF_FRONT_LEFT_WHEEL_TICKS;
+}
+
 static u8 get_odo_velocity_source(u8 data_type) {
   switch (data_type) {
     case ESF_SPEED:
@@ -696,22 +703,26 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
       } else {
         u32 tick_count = data_value & 0x3FFFFF;
         bool reverse = (data_value & (1 << 23)) >> 23;
-        if (state->esf_state.last_input_tick_count == UINT32_MAX) {
-          state->esf_state.last_input_tick_count = tick_count;
-          state->esf_state.output_tick_count = tick_count;
+        /* every sensor counts on its own, with 22 bits */
+        u32 *last_input =
+            &state->esf_state.last_input_tick_count[get_tick_sensor(data_type)];
+        s32 *output =
+            &state->esf_state.output_tick_count[get_tick_sensor(data_type)];
+        if (*last_input == UINT32_MAX) {
+          *output = tick_count;
         } else {
-          u32 increment = tick_count - state->esf_state.last_input_tick_count;
-          state->esf_state.last_input_tick_count = tick_count;
+          u32 increment = (tick_count - *last_input) & 0x3FFFFF;
           if (reverse) {
-            state->esf_state.output_tick_count -= increment;
+            *output = (s32)((u32)*output - increment);
           } else {
-            state->esf_state.output_tick_count += increment;
+            *output = (s32)((u32)*output + increment);
           }
         }
+        *last_input = tick_count;
         sbp_msg_wheeltick_t *msg_wheeltick = &msg.wheeltick;
         set_wheeltick_time(state->esf_state.running_odo_msss, msg_wheeltick);
         msg_wheeltick->source = get_wheeltick_velocity_source(data_type);
-        msg_wheeltick->ticks = state->esf_state.output_tick_count;
+        msg_wheeltick->ticks = *output;
         state->cb_ubx_to_sbp(
             state->sender_id, SbpMsgWheeltick, &msg, state->context);
       }
@@ -1410,7 +1421,9 @@ void ubx_sbp_init(struct ubx_sbp_state *state,
   state->esf_state.running_imu_msss = -1;
   state->esf_state.running_odo_msss = -1;
 
-  state->esf_state.last_input_tick_count = UINT32_MAX;
+  for (int i = 0; i < UBX_ESF_TICK_SENSORS; i++) {
+    state->esf_state.last_input_tick_count[i] = UINT32_MAX;
+  }
 
   state->leap_second_known = false;
 }
-- 
2.43.0


From 832fbd09846ded2fd8fee22d885c1462eb03790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 24/84] fix: RXM-RAWX time that rounds up to the next week

The time of week sent was a full week, with the week number of the old one.
---
 c/gnss_converters/src/ubx_sbp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 31ad6b6..5f76aeb 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -373,6 +373,13 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   } else {
     obs_time->wn = rxm_rawx->rcv_wn;
   }
+  if (obs_time->tow == WEEK_MS) {
+    /* rounded up to the beginning of the next week */
+    obs_time->tow = 0;
+    if (rxm_rawx->rcv_wn != 0) {
+      obs_time->wn += 1;
+    }
+  }
   /* Not proper SBP n_obs. Needed to pass total number of measurements
    * to handle_rxm_rawx
    */
-- 
2.43.0


From 1f6d74df6e34ee02d5b30b93788f1efbd31f799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 25/84] fix: do not put IMU samples of different times in one
 message

---
 c/gnss_converters/src/ubx_sbp.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 5f76aeb..f14c8d0 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -940,6 +940,8 @@ static void handle_esf_raw(struct ubx_sbp_state *state,
   s16 received_number_msgs[MAX_MESSAGES];
   memset(received_number_msgs, 0, sizeof(s16) * MAX_MESSAGES);
   s16 current_msg_number = 0;
+  bool set_started = false;
+  u32 set_time_tag = 0;
   for (int i = 0; i < num_raw; i++) {
     u8 data_type = (esf_raw.data[i] >> 24) & 0xFF;
     u32 data = esf_raw.data[i] & 0xFFFFFF;
@@ -983,6 +985,15 @@ static void handle_esf_raw(struct ubx_sbp_state *state,
     }
     maybe_parse_imu_data(data, data_type, msg);
 
+    // All samples of one IMU message have to be of the same time
+    if (!set_started) {
+      set_started = true;
+      set_time_tag = esf_raw.sensor_time_tag[i];
+    } else if (esf_raw.sensor_time_tag[i] != set_time_tag) {
+      log_warn("IMU samples of different times, possibly lost IMU data");
+      return;
+    }
+
     received_number_msgs[data_type]++;
     // Before getting the next sample for an axis, we expect to receive all
     // other axes for the same timestamp.
@@ -1002,6 +1013,7 @@ static void handle_esf_raw(struct ubx_sbp_state *state,
       state->cb_ubx_to_sbp(
           state->sender_id, SbpMsgImuRaw, &sbp_msg, state->context);
       current_msg_number++;
+      set_started = false;
       state->esf_state.imu_raw_msgs_sent++;
     }
   }
-- 
2.43.0


From 9e3be7d9e4d6bc8be0720117dad78acb56219f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 26/84] fix: skip iXCOM headers with an impossible message
 length

A length below that of the header made the read request wrap around and
overflow the buffer, one equal to it looked like the end of the stream, and
one above the buffer size ended the program in an assertion.
---
 c/gnss_converters/src/ixcom_sbp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/gnss_converters/src/ixcom_sbp.c b/c/gnss_converters/src/ixcom_sbp.c
index d55b09a..5f4296a 100644
--- a/c/gnss_converters/src/ixcom_sbp.c
+++ b/c/gnss_converters/src/ixcom_sbp.c
@@ -78,6 +78,13 @@ static int read_ixcom_frame(struct ixcom_sbp_state *state) {
       size_t message_length =
           state->read_buffer[4] + (state->read_buffer[5] << 8);
 
+      /* not a message, look for the next one */
+      if (message_length < sizeof(XCOMHeader) + sizeof(XCOMFooter) ||
+          message_length >= IXCOM_BUFFER_SIZE) {
+        state->index = 0;
+        continue;
+      }
+
       ret = read_ixcom_bytes(state, message_length - state->index);
       if (ret <= 0) {
         break;
-- 
2.43.0


From ad5a07b1e34b31d86c5707f36f064b5b1fcdc897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:35 +0000
Subject: [PATCH 27/84] fix: reject iXCOM frames whose length does not fit
 their message

A frame of another length passed when the CRC left in the buffer by an earlier
frame happened to match what it contained, and stale payload was converted.
---
 c/libixcom/src/decode.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/libixcom/src/decode.c b/c/libixcom/src/decode.c
index e5f780e..7687328 100644
--- a/c/libixcom/src/decode.c
+++ b/c/libixcom/src/decode.c
@@ -139,7 +139,8 @@ ixcom_rc ixcom_decode_imuraw(const uint8_t buff[], XCOMmsg_IMURAW *msg_imuraw) {
   }
   byte_offset += sizeof(msg_imuraw->header);
 
-  if (msg_imuraw->header.msg_id != XCOM_MSGID_IMURAW) {
+  if (msg_imuraw->header.msg_id != XCOM_MSGID_IMURAW ||
+      msg_imuraw->header.msg_len != sizeof(*msg_imuraw)) {
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
@@ -181,7 +182,8 @@ ixcom_rc ixcom_decode_wheeldata(const uint8_t buff[],
   }
   byte_offset += sizeof(msg_wheeldata->header);
 
-  if (msg_wheeldata->header.msg_id != XCOM_MSGID_WHEELDATA) {
+  if (msg_wheeldata->header.msg_id != XCOM_MSGID_WHEELDATA ||
+      msg_wheeldata->header.msg_len != sizeof(*msg_wheeldata)) {
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
-- 
2.43.0


From f4a73e5eafda1feda2c9d27b962f0795a51392cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 28/84] fix: NovAtel parser lost messages that arrived in
 pieces or last

A message not completely in the buffer was dropped byte by byte, a read that
brought nothing stopped the parser or tripped an assertion, and messages still
in the buffer at the end of the input were discarded.
---
 c/nov2sbp/parser/parser.cc | 63 ++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 77dbd1e..18d7444 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -54,24 +54,33 @@ Parser::Parser(ReadFunction readfn,
       context_(context) {}
 
 void Parser::process() {
-  do {
+  bool end_of_input = false;
+
+  while (!end_of_input) {
     // fill buffer_
     int num_bytes_read = readfn_(buffer_ + num_bytes_in_buffer_,
                                  sizeof(buffer_) - num_bytes_in_buffer_,
                                  context_);
 
-    if (num_bytes_read < 0) {
-      warn("Read error");
-      return;
+    if (num_bytes_read > 0) {
+      num_bytes_in_buffer_ += num_bytes_read;
+    } else {
+      if (num_bytes_read < 0) {
+        warn("Read error");
+      }
+      end_of_input = true;
     }
 
-    num_bytes_in_buffer_ += num_bytes_read;
-    uint32_t num_bytes_consumed = 1;
+    // parse everything received so far
+    while (num_bytes_in_buffer_ > 0) {
+      uint32_t num_bytes_consumed = 1;
 
-    if (num_bytes_in_buffer_ >= sizeof(MSG_REGULAR_PREAMBLE)) {
-      // check for regular preamble (0xAA, 0x44, 0x12)
-      if (0 ==
-          memcmp(buffer_, MSG_REGULAR_PREAMBLE, sizeof(MSG_REGULAR_PREAMBLE))) {
+      if (num_bytes_in_buffer_ < sizeof(MSG_REGULAR_PREAMBLE)) {
+        num_bytes_consumed = 0;
+        // check for regular preamble (0xAA, 0x44, 0x12)
+      } else if (0 == memcmp(buffer_,
+                             MSG_REGULAR_PREAMBLE,
+                             sizeof(MSG_REGULAR_PREAMBLE))) {
         num_bytes_consumed = parse_regular_message();
         // check for short preamble (0xAA, 0x44, 0x13)
       } else if (0 == memcmp(buffer_,
@@ -79,18 +88,26 @@ void Parser::process() {
                              sizeof(MSG_SHORT_PREAMBLE))) {
         num_bytes_consumed = parse_short_message();
       }
-    }
 
-    // drop consumed bytes from buffer_
-    assert(num_bytes_consumed <= num_bytes_in_buffer_);
-    num_bytes_in_buffer_ -= num_bytes_consumed;
-    memmove(buffer_, buffer_ + num_bytes_consumed, num_bytes_in_buffer_);
-  } while (num_bytes_in_buffer_ > 0);
+      if (num_bytes_consumed == 0) {
+        if (!end_of_input) {
+          // wait for the rest of the message
+          break;
+        }
+        num_bytes_consumed = 1;
+      }
+
+      // drop consumed bytes from buffer_
+      assert(num_bytes_consumed <= num_bytes_in_buffer_);
+      num_bytes_in_buffer_ -= num_bytes_consumed;
+      memmove(buffer_, buffer_ + num_bytes_consumed, num_bytes_in_buffer_);
+    }
+  }
 }
 
 /*
  * Attempt to parse buffer_ as a regular Novatel Binary Message, return number
- * of bytes consumed
+ * of bytes consumed, or zero if more bytes are needed
  */
 uint32_t Parser::parse_regular_message() const {
   if (num_bytes_in_buffer_ >= MSG_REGULAR_HEADER_LEN + MSG_CRC_LEN) {
@@ -111,6 +128,9 @@ uint32_t Parser::parse_regular_message() const {
           return MSG_REGULAR_HEADER_LEN + MSG_CRC_LEN + header.message_len;
         }
         warn("Unexpected CRC %.8x vs %.8x", crc_expected, crc_calculated);
+      } else if (header.message_len <=
+                 kBufferSize - MSG_REGULAR_HEADER_LEN - MSG_CRC_LEN) {
+        return 0;
       } else {
         warn("Unexpectedly large message length %i", header.message_len);
       }
@@ -118,6 +138,8 @@ uint32_t Parser::parse_regular_message() const {
       warn("Unexpected header length %i",
            buffer_[sizeof(MSG_REGULAR_PREAMBLE)]);
     }
+  } else {
+    return 0;
   }
 
   // parsing failed, drop 1 byte and try again
@@ -126,7 +148,7 @@ uint32_t Parser::parse_regular_message() const {
 
 /*
  * Attempt to parse buffer_ as a short Novatel Binary Message, return number
- * of bytes consumed
+ * of bytes consumed, or zero if more bytes are needed
  */
 uint32_t Parser::parse_short_message() const {
   if (num_bytes_in_buffer_ >= MSG_SHORT_HEADER_LEN + MSG_CRC_LEN) {
@@ -146,8 +168,11 @@ uint32_t Parser::parse_short_message() const {
       }
       warn("Unexpected CRC %.8x vs %.8x", crc_expected, crc_calculated);
     } else {
-      warn("Unexpectedly large message length %i", header.message_len);
+      // the longest short message fits in the buffer
+      return 0;
     }
+  } else {
+    return 0;
   }
 
   // parsing failed, drop 1 byte and try again
-- 
2.43.0


From 8cbe0dae0eaa0a5c15f1782cb90d093b021f0957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 29/84] fix: ignore NovAtel messages of unexpected length

They aborted the parser, or were read past their end.
---
 c/nov2sbp/parser/parser.cc | 40 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 18d7444..0144b82 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -179,11 +179,51 @@ uint32_t Parser::parse_short_message() const {
   return 1;
 }
 
+/**
+ * Check that the length of a message is the one of its type, unknown messages
+ * are not looked into and can have any length.
+ */
+static bool is_body_length_valid(const BinaryHeader &header,
+                                 const uint8_t *data) {
+  switch (header.message_id) {
+    case Message::Id::GPSEPHEM:
+      return header.message_len == 224;
+    case Message::Id::BESTPOS:
+      return header.message_len == 72;
+    case Message::Id::BESTVEL:
+      return header.message_len == 44;
+    case Message::Id::RANGECMP: {
+      if (header.message_len < sizeof(uint32_t)) {
+        return false;
+      }
+      const uint64_t n_records = Util::read_le_uint32(data);
+      return header.message_len ==
+             sizeof(uint32_t) +
+                 n_records * Message::RANGECMP_record_t::kRecordBinarySize;
+    }
+    case Message::Id::INSATT:
+      return header.message_len == 40;
+    case Message::Id::GLOEPHEMERIS:
+      return header.message_len == 144;
+    case Message::Id::RAWIMUSX:
+      return header.message_len == 40;
+    default:
+      return true;
+  }
+}
+
 /**
  * This function dispatches to the appropriate body parser depending on the
  * message ID.
  */
 void Parser::parse_body(const BinaryHeader &header, const uint8_t *data) const {
+  if (!is_body_length_valid(header, data)) {
+    warn("Unexpected length %i of message %i",
+         header.message_len,
+         header.message_id);
+    return;
+  }
+
   switch (header.message_id) {
     case Message::Id::GPSEPHEM: {
       Message::GPSEPHEM_t msg;
-- 
2.43.0


From c70850123fa2e2718d722280c058f5daff56ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 30/84] fix: do not abort on NovAtel IMU messages with an error
 flag

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 7881993..66c1a25 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -885,8 +885,10 @@ bool convert_rawimu_to_angular_rate(const BinaryHeader *header,
 
   angular_rate->tow = static_cast<uint32_t>(header->ms);
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  // data is not usable with an IMU error or when encrypted
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
@@ -925,8 +927,10 @@ bool convert_rawimu_to_imu_raw(const BinaryHeader *header,
   imu_raw->tow = static_cast<uint32_t>(header->ms);
   imu_raw->tow_f = 0;
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  // data is not usable with an IMU error or when encrypted
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
-- 
2.43.0


From b1280613b329a45b3b85c8964f066330ba89804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 31/84] fix: do not abort on NovAtel ephemerides with
 impossible values

---
 c/nov2sbp/src/nov2sbp.cc                     |  4 +++-
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 13 ++++++++-----
 c/nov2sbp/src/swiftnav_conversion_helpers.h  |  4 +++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/c/nov2sbp/src/nov2sbp.cc b/c/nov2sbp/src/nov2sbp.cc
index 2bb0a1f..3b0e9d4 100644
--- a/c/nov2sbp/src/nov2sbp.cc
+++ b/c/nov2sbp/src/nov2sbp.cc
@@ -130,7 +130,9 @@ static void write_sbp_gps_ephem(const BinaryHeader *header, const void *data) {
   const auto *gpsephem =
       reinterpret_cast<const Message::GPSEPHEM_t *>(data);  // NOLINT
   msg_ephemeris_gps_t ephem_msg;
-  convert_gpsephem_to_ephemeris_gps(gpsephem, &ephem_msg);
+  if (!convert_gpsephem_to_ephemeris_gps(gpsephem, &ephem_msg)) {
+    return;
+  }
   auto ret =
       sbp_send_message(&sbp,
                        SBP_MSG_EPHEMERIS_GPS,
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 66c1a25..a965e2a 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -642,12 +642,13 @@ bool gps_time_compare(const msg_gps_time_t *a, const msg_gps_time_t *b) {
  *
  * Everything else is pretty straight forward.
  */
-void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
+bool convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
                                        msg_ephemeris_gps_t *ephem) {
-  assert(gpsephem->prn <= UINT8_MAX);
-  assert(gpsephem->toe <= UINT32_MAX);
-  assert(gpsephem->toc <= UINT32_MAX);
-  assert(gpsephem->week <= UINT16_MAX);
+  if (gpsephem->prn > UINT8_MAX || gpsephem->week > UINT16_MAX ||
+      !(gpsephem->toe >= 0 && gpsephem->toe <= UINT32_MAX) ||
+      !(gpsephem->toc >= 0 && gpsephem->toc <= UINT32_MAX)) {
+    return false;
+  }
   ephem->common.sid.sat = static_cast<uint8_t>(gpsephem->prn);
   ephem->common.sid.code = 0x0;  // 0x0 = GPS_L1CA
   ephem->common.toe.tow = static_cast<uint32_t>(gpsephem->toe);
@@ -679,6 +680,8 @@ void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
   ephem->toc.wn = static_cast<uint16_t>(gpsephem->week);
   ephem->iode = static_cast<uint8_t>(gpsephem->iode1);
   ephem->iodc = static_cast<uint16_t>(gpsephem->iodc);
+
+  return true;
 }
 
 /**
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.h b/c/nov2sbp/src/swiftnav_conversion_helpers.h
index 2714776..a5ebe36 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.h
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.h
@@ -74,8 +74,10 @@ bool gps_time_compare(const msg_gps_time_t *a, const msg_gps_time_t *b);
  * We assign all PRNs to GPS_L1CA.
  *
  * Everything else is pretty straight forward.
+ *
+ * Returns false if the message contains values an ephemeris can not have.
  */
-void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
+bool convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
                                        msg_ephemeris_gps_t *ephem);
 
 /**
-- 
2.43.0


From 070aa300e9d28097a12f05d202a4a4f793a6b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 32/84] fix: use the current week when computing the NovAtel
 IMU rate

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index a965e2a..28c2694 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -349,7 +349,7 @@ static bool compute_imu_rate(const msg_gps_time_t *last_imu_time,
                              double &rate) {
   uint16_t week_prev = last_imu_time->wn;
   uint32_t tow_prev = last_imu_time->tow;
-  uint16_t week_cur = last_imu_time->wn;
+  uint16_t week_cur = header->week;
   uint32_t tow_cur = static_cast<uint32_t>(header->ms);
 
   if (week_prev != 0 && week_cur != 0 && tow_prev != 0 && tow_cur != 0) {
-- 
2.43.0


From e501159d9aa16b007ee0195a151a7091390f52f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 33/84] fix: keep sending NovAtel IMU auxiliary messages after
 a week rollover

Only the time of week was compared, so after the rollover, or any step back of
the time, the message was withheld for up to a week.
---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 28c2694..3c2d88c 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -982,11 +982,14 @@ bool convert_rawimu_to_imu_aux(const BinaryHeader *header,
                                const Message::RAWIMUSX_t * /*rawimu*/,
                                const msg_gps_time_t *last_aux_time,
                                msg_imu_aux_t *imu_aux) {
-  uint32_t cur_time = static_cast<uint32_t>(header->ms);
+  const int64_t weeks = static_cast<int64_t>(header->week) - last_aux_time->wn;
+  const int64_t elapsed_ms = weeks * kMsPerWeek +
+                             static_cast<uint32_t>(header->ms) -
+                             static_cast<int64_t>(last_aux_time->tow);
 
   // don't send if it has been less than 1 second since the last message
-  if (last_aux_time->wn != 0 && header->week != 0 && last_aux_time->tow != 0 &&
-      cur_time != 0 && cur_time < last_aux_time->tow + 1000) {
+  if (last_aux_time->wn != 0 && header->week != 0 && elapsed_ms > -1000 &&
+      elapsed_ms < 1000) {
     return false;
   }
 
-- 
2.43.0


From 681208ad502303d55ca26ac423d35c3eaacd2b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 34/84] fix: saturate NovAtel position accuracies above 65 m

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 3c2d88c..7536363 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -23,7 +23,11 @@ static const uint32_t kMsPerWeek = 7 * 24 * 60 * 60 * 1000;
  * Helpers for rounding and truncating values.
  */
 static inline uint16_t float_to_u16(float value) {
-  return MIN(static_cast<uint16_t>(round(value)), UINT16_MAX);
+  value = roundf(value);
+  if (!(value < UINT16_MAX)) {
+    return UINT16_MAX;
+  }
+  return value > 0 ? static_cast<uint16_t>(value) : 0;
 }
 
 static inline int16_t double_to_s16(double value) {
-- 
2.43.0


From 3768d3a1eeeda7b395de7833c9af35071ebde136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 35/84] fix: scale of accelerations given in milligee

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 7536363..6e49bb5 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -79,7 +79,7 @@ static inline double arcseconds_to_radians(double val) {
 }
 
 static inline double milligee_to_metres(double val) {
-  return val * 1000. * kStandardGravity;
+  return val / 1000. * kStandardGravity;
 }
 
 static inline double feet_to_metres(double val) { return val * 0.3048; }
-- 
2.43.0


From 8b97766a8c7d30eb4e615ea5a9d6cc7a8f98f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 36/84] fix: do not take NovAtel velocity flags from another
 week

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 6e49bb5..37ba4f6 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -87,19 +87,21 @@ static inline double feet_to_metres(double val) { return val * 0.3048; }
 // tracks flags from BESTPOS/BESTVEL messages
 static class PositionFlagsTracker {
  private:
+  uint16_t week_;
   uint32_t tow_;
   uint8_t flags_;
 
  public:
-  PositionFlagsTracker() : tow_(~0u), flags_(0) {}
+  PositionFlagsTracker() : week_(0), tow_(~0u), flags_(0) {}
 
-  void set(uint32_t tow, uint8_t flags) {
+  void set(uint16_t week, uint32_t tow, uint8_t flags) {
+    week_ = week;
     tow_ = tow;
     flags_ = flags;
   }
 
-  uint8_t get(uint32_t tow) const {
-    if (tow == tow_) {
+  uint8_t get(uint16_t week, uint32_t tow) const {
+    if (week == week_ && tow == tow_) {
       return flags_;
     }
 
@@ -589,7 +591,7 @@ void convert_bestpos_to_pos_llh(const BinaryHeader *header,
   pos_llh->n_sats = bestpos->num_sv_in_soln;
   uint8_t flags = get_position_flags(bestpos->pos_type);
   pos_llh->flags = flags;
-  last_position_flags.set(tow, flags);
+  last_position_flags.set(header->week, tow, flags);
 }
 
 /**
@@ -612,7 +614,7 @@ void convert_bestvel_to_vel_ned(const BinaryHeader *header,
    * Note: flags are only non-zero if the BESTPOS message for this epoch
    * is present in the log before the corresponding BESTVEL message
    */
-  vel_ned->flags = last_position_flags.get(tow);
+  vel_ned->flags = last_position_flags.get(header->week, tow);
 }
 
 /**
-- 
2.43.0


From 93913e7369f06ff4c58cc942f728c27c876dabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 37/84] fix: start every NovAtel conversion without the state
 of the previous one

---
 c/nov2sbp/src/nov2sbp.cc                     | 3 +++
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 ++
 c/nov2sbp/src/swiftnav_conversion_helpers.h  | 5 +++++
 3 files changed, 10 insertions(+)

diff --git a/c/nov2sbp/src/nov2sbp.cc b/c/nov2sbp/src/nov2sbp.cc
index 3b0e9d4..86974a7 100644
--- a/c/nov2sbp/src/nov2sbp.cc
+++ b/c/nov2sbp/src/nov2sbp.cc
@@ -296,6 +296,9 @@ extern "C" int nov2sbp_main(int argc,
 
   nov2sbp_writefn = writefn;
 
+  Novatel::time_tracker = {};
+  Novatel::reset_position_flags();
+
   // Initialize Novatel parser.
   Novatel::Message::CallbackArray callbacks = {{
       {Novatel::Message::Id::GPSEPHEM, write_sbp_gps_ephem},
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 37ba4f6..9813723 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -571,6 +571,8 @@ static double convert_to_wgs84_height(double lat, double lon, double hgt) {
   return hgt + sep;
 }
 
+void reset_position_flags() { last_position_flags = {}; }
+
 /**
  * Novatel LLH accuracy is in meters, SBP is in millimeters.
  * For the horizontal accuracy, we just take the max of the lat/lon accuracies
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.h b/c/nov2sbp/src/swiftnav_conversion_helpers.h
index a5ebe36..06e0f63 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.h
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.h
@@ -45,6 +45,11 @@ void convert_bestpos_to_pos_llh(const BinaryHeader *header,
                                 const Message::BESTPOS_t *bestpos,
                                 msg_pos_llh_t *pos_llh);
 
+/**
+ * Forget the position status kept for velocity messages.
+ */
+void reset_position_flags();
+
 /**
  * Convert Novatel BESTVEL message to SBP VEL NED message
  */
-- 
2.43.0


From 4dec167a1f5e201aa646b59243f38ab1e580ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 38/84] fix: GLONASS slot numbers of NovAtel observations

They start at 38, so every GLONASS observation was discarded.
---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 9813723..ef24d02 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -858,6 +858,11 @@ void convert_rangecmp_record_to_mini_navmeas(
   nm->lock_time = static_cast<double>(record->lock_time) / 32.0;
   nm->sid.sat = record->prn_slot;
   nm->sid.code = convert_tracking_status_to_gnss_code(record->tracking_status);
+  // GLONASS slots are numbered from 38
+  if ((nm->sid.code == CODE_GLO_L1OF || nm->sid.code == CODE_GLO_L2OF) &&
+      record->prn_slot >= 38) {
+    nm->sid.sat -= 37;
+  }
   nm->flags = convert_tracking_status_to_navmeas_flags(record->tracking_status);
 }
 
-- 
2.43.0


From 46c2579ce604a502b8f6a05407ceaa23e76c4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 39/84] fix: give the empty observation message of NovAtel
 receivers its time

It had an unknown time, whose conversion to unsigned is undefined and made
compilers drop the message altogether.
---
 c/nov2sbp/src/send_sbp_obs_messages.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/send_sbp_obs_messages.cc b/c/nov2sbp/src/send_sbp_obs_messages.cc
index 682cb2b..3955ec4 100644
--- a/c/nov2sbp/src/send_sbp_obs_messages.cc
+++ b/c/nov2sbp/src/send_sbp_obs_messages.cc
@@ -193,7 +193,10 @@ void send_sbp_obs_messages(uint8_t n,
 
   if ((0 == n) || (nullptr == m) || (nullptr == t)) {
     gps_time_t t_dummy = GPS_TIME_UNKNOWN;
-    pack_obs_header(&t_dummy, 1, 0, (observation_header_t *)buff);  // NOLINT
+    pack_obs_header((nullptr == t) ? &t_dummy : t,
+                    1,
+                    0,
+                    (observation_header_t *)buff);  // NOLINT
     sbp_send_msg(SBP_MSG_OBS, sizeof(observation_header_t), buff);
     return;
   }
-- 
2.43.0


From 58f5fd27ecbf1f76aad149fdfa270fbbdd34bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 40/84] fix: start the SBP to RTCM converter with a known
 sender

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index a4c7526..807a31e 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -53,6 +53,8 @@ void sbp2rtcm_init(struct rtcm3_out_state *state,
   state->cb_sbp_to_rtcm = cb_sbp_to_rtcm;
   state->context = context;
 
+  state->sender_id = 0;
+  memset(&state->sbp_header, 0, sizeof(state->sbp_header));
   state->n_sbp_obs = 0;
 
   for (u8 i = 0; i < sizeof(state->glo_sv_id_fcn_map); i++) {
-- 
2.43.0


From b889dd49157530aef9bdfcd31b8cbb327d533b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 41/84] fix: keep observations of a full epoch within the
 buffer

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 807a31e..3f4994f 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -898,17 +898,17 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
        * flagged by RAIM */
       continue;
     }
-    /* add incoming sbp observation into sbp buffer */
-    state->sbp_obs_buffer[state->n_sbp_obs] = sbp_obs->obs[i];
-    state->n_sbp_obs++;
-    if (state->n_sbp_obs == MAX_OBS_PER_EPOCH) {
+    if (state->n_sbp_obs >= MAX_OBS_PER_EPOCH) {
       log_info(
           "Reached max observations per epoch %u, ignoring the remaining %u "
           "obs",
           (u16)MAX_OBS_PER_EPOCH,
-          n_meas - i - 1);
+          n_meas - i);
       break;
     }
+    /* add incoming sbp observation into sbp buffer */
+    state->sbp_obs_buffer[state->n_sbp_obs] = sbp_obs->obs[i];
+    state->n_sbp_obs++;
   }
   state->sbp_header = sbp_obs->header;
 
-- 
2.43.0


From 4aa2887f541e4013e42d6b62012fea79a54f09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 42/84] fix: ignore SBP observations of no valid signal

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 3f4994f..5dd11f7 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -898,6 +898,14 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
        * flagged by RAIM */
       continue;
     }
+    gnss_signal_t sid = {.sat = sbp_obs->obs[i].sid.sat,
+                         .code = (code_t)sbp_obs->obs[i].sid.code};
+    if (!sid_valid(sid)) {
+      log_info("Ignoring SBP obs with invalid satellite %u code %u",
+               sbp_obs->obs[i].sid.sat,
+               sbp_obs->obs[i].sid.code);
+      continue;
+    }
     if (state->n_sbp_obs >= MAX_OBS_PER_EPOCH) {
       log_info(
           "Reached max observations per epoch %u, ignoring the remaining %u "
-- 
2.43.0


From 092800c4905216667909cc29fd6ffc37dc95550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 43/84] fix: leave out of an MSM the signals it does not have

---
 c/gnss_converters/src/rtcm3_utils.c     | 12 +++++++++---
 c/gnss_converters_extra/src/sbp_rtcm3.c |  6 +++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index ec2a750..ae63001 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -634,6 +634,10 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
 
   u8 sat_id = prn_to_msm_sat_id(prn, cons);
   u8 signal_id = code_to_msm_signal_id(code, cons);
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE) {
+    msm_add_to_header_err(code, prn, "unsupported signal");
+    return false;
+  }
 
   u8 num_sats = msm_get_num_satellites(header);
   u8 num_signals = msm_get_num_signals(header);
@@ -667,7 +671,6 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
  * given signal and satellite */
 bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   uint8_t num_sigs = msm_get_num_signals(header);
-  assert(num_sigs > 0);
 
   rtcm_constellation_t cons = to_constellation(header->msg_num);
 
@@ -687,7 +690,7 @@ bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   }
 
   u8 signal_id = code_to_msm_signal_id(code, cons);
-  if (!header->signal_mask[signal_id]) {
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE || !header->signal_mask[signal_id]) {
     msm_add_to_header_err(code, prn, "not in signal mask");
     return false;
   }
@@ -698,7 +701,10 @@ bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   /* Mark the cell defined by this satellite/signal pair in the cell mask */
   u8 cell_id = sat_index * num_sigs + signal_index;
   assert(cell_id < MSM_MAX_CELLS);
-  assert(!header->cell_mask[cell_id]);
+  if (header->cell_mask[cell_id]) {
+    msm_add_to_header_err(code, prn, "already in cell mask");
+    return false;
+  }
   header->cell_mask[cell_id] = true;
 
   return true;
diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 5dd11f7..04ee3bf 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -681,16 +681,20 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
 
   /* using the complete satellite and signal masks, loop through observations
    * again to generate the cell mask */
+  bool has_cell[MAX_OBS_PER_EPOCH] = {false};
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
     rtcm_constellation_t cons =
         (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
-    msm_add_to_cell_mask(
+    has_cell[i] = msm_add_to_cell_mask(
         &obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
   }
 
   /* loop through observations once more to generate the actual signal data */
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
+    if (!has_cell[i]) {
+      continue;
+    }
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
     rtcm_constellation_t cons =
         (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
-- 
2.43.0


From 58b744f989ca1548eaf9042fcddbd7eae233595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 44/84] fix: encode the MSM of SBAS satellites

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 04ee3bf..3a66068 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -147,6 +147,7 @@ static u16 encode_rtcm3_payload(const void *rtcm_msg,
     case 1074:
     case 1084:
     case 1094:
+    case 1104:
     case 1114:
     case 1124: {
       const rtcm_msm_message *msg_msm = (const rtcm_msm_message *)rtcm_msg;
@@ -155,6 +156,7 @@ static u16 encode_rtcm3_payload(const void *rtcm_msg,
     case 1075:
     case 1085:
     case 1095:
+    case 1105:
     case 1115:
     case 1125: {
       const rtcm_msm_message *msg_msm = (const rtcm_msm_message *)rtcm_msg;
-- 
2.43.0


From 910d8bd1c9fcd582fd7f338dc81abb8ffa7081c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 45/84] fix: keep the satellites of a legacy observation
 message within its 31

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 3a66068..4e7552a 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -44,6 +44,9 @@
 
 #define RTCM3_PREAMBLE 0xD3
 
+/* Number of satellites DF006/DF035 is a 5-bit field */
+#define RTCM_LEGACY_MAX_SATS 31
+
 void sbp2rtcm_init(struct rtcm3_out_state *state,
                    s32 (*cb_sbp_to_rtcm)(u8 *buffer, u16 length, void *context),
                    void *context) {
@@ -750,6 +753,9 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
     switch (sbp_obs->sid.code) {
       case CODE_GPS_L1CA:
       case CODE_GPS_L1P: {
+        if (n_gps >= RTCM_LEGACY_MAX_SATS) {
+          break;
+        }
         /* add a new sat */
         gps_obs.sats[n_gps].fcn = 0;
         gps_obs.sats[n_gps].svId = sbp_obs->sid.sat;
@@ -773,7 +779,7 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
       case CODE_GLO_L1OF:
       case CODE_GLO_L1P: {
         u8 fcn = state->glo_sv_id_fcn_map[sbp_obs->sid.sat];
-        if (MSM_GLO_FCN_UNKNOWN != fcn) {
+        if (MSM_GLO_FCN_UNKNOWN != fcn && n_glo < RTCM_LEGACY_MAX_SATS) {
           /* add a new sat */
           glo_obs.sats[n_glo].fcn = fcn;
           glo_obs.sats[n_glo].svId = sbp_obs->sid.sat;
-- 
2.43.0


From b37117f3a46042577ebac3d56fff5be0bcbdddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 46/84] fix: ignore SBP messages shorter than their content

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 27 +++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 4e7552a..490eb23 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -413,7 +413,9 @@ void sbp2rtcm_base_pos_ecef_cb(const u16 sender_id,
                                const u8 len,
                                const u8 msg[],
                                struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_base_pos_ecef_t)) {
+    return;
+  }
   rtcm_msg_1006 msg_1006;
   rtcm_msg_1008 msg_1008;
   rtcm_msg_1033 msg_1033;
@@ -443,7 +445,9 @@ void sbp2rtcm_glo_biases_cb(const u16 sender_id,
                             const u8 len,
                             const u8 msg[],
                             struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_glo_biases_t)) {
+    return;
+  }
   state->sender_id = sender_id;
 
   rtcm_msg_1230 msg_1230;
@@ -843,6 +847,9 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
                          const u8 len,
                          const u8 msg[],
                          struct rtcm3_out_state *state) {
+  if (len < sizeof(observation_header_t)) {
+    return;
+  }
   const msg_obs_t *sbp_obs = (const msg_obs_t *)msg;
 
   if (state->sender_id != sender_id) {
@@ -1047,8 +1054,10 @@ void sbp2rtcm_sbp_gps_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_gps_t)) {
+    return;
+  }
   const msg_ephemeris_gps_t *sbp_gps_eph = (const msg_ephemeris_gps_t *)msg;
 
   rtcm_msg_eph msg_gps_eph;
@@ -1064,8 +1073,10 @@ void sbp2rtcm_sbp_glo_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_glo_t)) {
+    return;
+  }
   const msg_ephemeris_glo_t *sbp_glo_eph = (const msg_ephemeris_glo_t *)msg;
 
   rtcm_msg_eph msg_glo_eph;
@@ -1081,8 +1092,10 @@ void sbp2rtcm_sbp_bds_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_bds_t)) {
+    return;
+  }
   const msg_ephemeris_bds_t *sbp_bds_eph = (const msg_ephemeris_bds_t *)msg;
 
   rtcm_msg_eph msg_bds_eph;
@@ -1100,8 +1113,10 @@ void sbp2rtcm_sbp_gal_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_gal_t)) {
+    return;
+  }
   const msg_ephemeris_gal_t *sbp_gal_eph = (const msg_ephemeris_gal_t *)msg;
 
   rtcm_msg_eph msg_gal_eph;
-- 
2.43.0


From 30f697a421b171e4ee8fc3dd52bfdd35a7153da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 47/84] fix: ignore SBP ephemerides of no valid satellite or
 source

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 31 +++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 490eb23..6450448 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -1050,6 +1050,17 @@ void sbp2rtcm_sbp_ssr_stec_correction_cb(const u16 sender_id,
   state->cb_sbp_to_rtcm(frame, frame_size, state->context);
 }
 
+static bool eph_sid_valid(const sbp_gnss_signal_t *sbp_sid) {
+  gnss_signal_t sid = {.sat = sbp_sid->sat, .code = (code_t)sbp_sid->code};
+  if (!sid_valid(sid)) {
+    log_info("Ignoring SBP ephemeris of invalid satellite %u code %u",
+             sbp_sid->sat,
+             sbp_sid->code);
+    return false;
+  }
+  return true;
+}
+
 void sbp2rtcm_sbp_gps_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
@@ -1059,6 +1070,10 @@ void sbp2rtcm_sbp_gps_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_gps_t *sbp_gps_eph = (const msg_ephemeris_gps_t *)msg;
+  if (!eph_sid_valid(&sbp_gps_eph->common.sid) ||
+      !is_gps(sbp_gps_eph->common.sid.code)) {
+    return;
+  }
 
   rtcm_msg_eph msg_gps_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
@@ -1078,6 +1093,10 @@ void sbp2rtcm_sbp_glo_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_glo_t *sbp_glo_eph = (const msg_ephemeris_glo_t *)msg;
+  if (!eph_sid_valid(&sbp_glo_eph->common.sid) ||
+      !is_glo(sbp_glo_eph->common.sid.code)) {
+    return;
+  }
 
   rtcm_msg_eph msg_glo_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
@@ -1097,6 +1116,10 @@ void sbp2rtcm_sbp_bds_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_bds_t *sbp_bds_eph = (const msg_ephemeris_bds_t *)msg;
+  if (!eph_sid_valid(&sbp_bds_eph->common.sid) ||
+      !is_bds2(sbp_bds_eph->common.sid.code)) {
+    return;
+  }
 
   rtcm_msg_eph msg_bds_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
@@ -1118,6 +1141,14 @@ void sbp2rtcm_sbp_gal_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_gal_t *sbp_gal_eph = (const msg_ephemeris_gal_t *)msg;
+  if (!eph_sid_valid(&sbp_gal_eph->common.sid) ||
+      !is_gal(sbp_gal_eph->common.sid.code)) {
+    return;
+  }
+  if (sbp_gal_eph->source != EPH_SOURCE_GAL_INAV &&
+      sbp_gal_eph->source != EPH_SOURCE_GAL_FNAV) {
+    return;
+  }
 
   rtcm_msg_eph msg_gal_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
-- 
2.43.0


From bdd6c209786d4b48fea0114b81fba5276ed1b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 48/84] fix: encode GLONASS ephemerides without valid time as
 unhealthy

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 15323b2..bae8050 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -86,10 +86,10 @@ void sbp_to_rtcm3_gps_eph(const msg_ephemeris_gps_t *sbp_gps_eph,
 static bool compute_glo_time_of_day(const gps_time_t *obs_time,
                                     const struct rtcm3_out_state *state,
                                     u8 *t_b) {
-  if (!state->leap_second_known) {
+  *t_b = 0;
+  if (!state->leap_second_known || !gps_time_valid(obs_time)) {
     return false;
   }
-  assert(gps_time_valid(obs_time));
   s32 tod_glo_s = (s32)(obs_time->tow - state->leap_seconds) % DAY_SECS;
   tod_glo_s += UTC_SU_OFFSET * HOUR_SECS;
 
-- 
2.43.0


From 6dacbb919563a2acba5b4f476c0dab760758e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 49/84] fix: wrap the GLONASS and BeiDou ephemeris time at the
 boundary

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index bae8050..4d7d6ef 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -93,7 +93,7 @@ static bool compute_glo_time_of_day(const gps_time_t *obs_time,
   s32 tod_glo_s = (s32)(obs_time->tow - state->leap_seconds) % DAY_SECS;
   tod_glo_s += UTC_SU_OFFSET * HOUR_SECS;
 
-  if (tod_glo_s > DAY_SECS) {
+  if (tod_glo_s >= DAY_SECS) {
     tod_glo_s -= DAY_SECS;
   }
 
@@ -156,7 +156,7 @@ static void get_bds_wn_tow(const gps_time_t *input,
                            const u32 time_resolution,
                            uint16_t *wn,
                            uint32_t *tow) {
-  if (input->tow > BDS_SECOND_TO_GPS_SECOND) {
+  if (input->tow >= BDS_SECOND_TO_GPS_SECOND) {
     *wn = (input->wn - BDS_WEEK_TO_GPS_WEEK);
     *tow = (uint32_t)round((input->tow - BDS_SECOND_TO_GPS_SECOND) /
                            time_resolution);
-- 
2.43.0


From 9f366c1d8fc341060ad052f857b45222feb7ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 50/84] fix: keep the station of the observations over other
 SBP messages

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 6450448..73460ff 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -421,16 +421,16 @@ void sbp2rtcm_base_pos_ecef_cb(const u16 sender_id,
   rtcm_msg_1033 msg_1033;
   u8 frame[RTCM3_MAX_MSG_LEN];
 
-  state->sender_id = sender_id;
-
   /* generate and send the base position message */
   sbp_to_rtcm3_1006((const msg_base_pos_ecef_t *)msg, &msg_1006, state);
+  msg_1006.msg_1005.stn_id = sbp_sender_to_rtcm_stn_id(sender_id);
   u16 frame_size = encode_rtcm3_frame(&msg_1006, 1006, frame);
   state->cb_sbp_to_rtcm(frame, frame_size, state->context);
 
   if (state->ant_known) {
     /* generate and send the receiver and antenna description messages */
     generate_rtcm3_1033(&msg_1033, state);
+    msg_1033.stn_id = sbp_sender_to_rtcm_stn_id(sender_id);
     rtcm3_1033_to_1008(&msg_1033, &msg_1008);
 
     frame_size = encode_rtcm3_frame(&msg_1008, 1008, frame);
@@ -448,10 +448,9 @@ void sbp2rtcm_glo_biases_cb(const u16 sender_id,
   if (len < sizeof(msg_glo_biases_t)) {
     return;
   }
-  state->sender_id = sender_id;
-
   rtcm_msg_1230 msg_1230;
   sbp_to_rtcm3_1230((const msg_glo_biases_t *)msg, &msg_1230, state);
+  msg_1230.stn_id = sbp_sender_to_rtcm_stn_id(sender_id);
 
   u8 frame[RTCM3_MAX_MSG_LEN];
   u16 frame_size = encode_rtcm3_frame(&msg_1230, 1230, frame);
@@ -1174,7 +1173,6 @@ void sbp2rtcm_sbp_log_cb(const u16 sender_id,
   const msg_log_t *sbp_msg_log = (const msg_log_t *)msg;
   rtcm_msg_1029 rtcm_msg_log;
 
-  state->sender_id = sender_id;
   rtcm_msg_log.stn_id = sender_id;
   rtcm_msg_log.mjd_num = 0;
   rtcm_msg_log.utc_sec_of_day = 0;
-- 
2.43.0


From 20b7594862f09ee156f04633dce754199689ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 51/84] fix: ignore SBP observations of no valid time of week

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 73460ff..22de1fb 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -850,6 +850,11 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
     return;
   }
   const msg_obs_t *sbp_obs = (const msg_obs_t *)msg;
+  if (sbp_obs->header.t.tow >= WEEK_MS) {
+    log_info("Ignoring SBP obs with invalid time of week %u",
+             sbp_obs->header.t.tow);
+    return;
+  }
 
   if (state->sender_id != sender_id) {
     /* sender changed, send existing buffer and reset */
-- 
2.43.0


From fb24081b53ded6c558c8811ad9830dd65185e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 52/84] fix: encode no GLONASS observations without known leap
 seconds

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 22de1fb..d2f153e 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -923,6 +923,10 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
     }
     gnss_signal_t sid = {.sat = sbp_obs->obs[i].sid.sat,
                          .code = (code_t)sbp_obs->obs[i].sid.code};
+    if (sid_valid(sid) && is_glo(sid.code) && !state->leap_second_known) {
+      /* the time of GLONASS messages is not known */
+      continue;
+    }
     if (!sid_valid(sid)) {
       log_info("Ignoring SBP obs with invalid satellite %u code %u",
                sbp_obs->obs[i].sid.sat,
-- 
2.43.0


From 62e1e54752376099a8e8588ed43d2a76b469fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 53/84] fix: clamp the carrier to noise ratio of MSM to its
 field

---
 c/librtcm/src/encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 1acf326..7d7acd1 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -1020,7 +1020,7 @@ static void encode_msm_cnrs(const uint8_t num_cells,
   /* DF403 */
   for (uint16_t i = 0; i < num_cells; i++) {
     if (flags[i].fields.valid_cnr) {
-      rtcm_setbitu(buff, *bit, 6, (uint8_t)round(cnr[i]));
+      rtcm_setbitu(buff, *bit, 6, (uint8_t)fmin(round(cnr[i]), 63));
     } else {
       rtcm_setbitu(buff, *bit, 6, 0);
     }
-- 
2.43.0


From fac0c5c5b5be48add22d66ca0aefd1043edb2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 54/84] fix: encode the carrier phase difference of any size

---
 c/librtcm/src/encode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 7d7acd1..883bcae 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -109,7 +109,7 @@ uint8_t rtcm3_encode_lock_time(double time) {
 /* Encode PhaseRange – L1 Pseudorange (DF012, DF018 ,DF042, DF048) */
 static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   double phase_unit = (GPS_C / freq) / 0.0005;
-  int32_t ppr = lround(cp_pr * phase_unit);
+  int64_t ppr = llround(cp_pr * phase_unit);
 
   /* From specification: "Certain ionospheric conditions might cause the GPS
    * L1 Phaserange – L1 Pseudorange to diverge over time across the range
@@ -120,13 +120,13 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   if (ppr <= -C_2P19) {
     /* add multiples of 1500 cycles */
     cp_pr += 1500 * ceil((-C_2P19 / phase_unit - cp_pr) / 1500);
-    ppr = lround(cp_pr * phase_unit);
+    ppr = llround(cp_pr * phase_unit);
   } else if (ppr >= C_2P19) {
     /* substract multiples of 1500 cycles */
     cp_pr -= 1500 * ceil((cp_pr - C_2P19 / phase_unit) / 1500);
-    ppr = lround(cp_pr * phase_unit);
+    ppr = llround(cp_pr * phase_unit);
   }
-  return ppr;
+  return (int32_t)ppr;
 }
 
 static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
-- 
2.43.0


From 7eb07bf1ebf80895d06282495738f12d1ee3c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 55/84] fix: encode an L2 pseudorange difference beyond its
 field as invalid

---
 c/librtcm/src/encode.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 883bcae..da1893b 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -129,6 +129,15 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   return (int32_t)ppr;
 }
 
+/* Encode L2 - L1 pseudorange difference (DF017, DF047) */
+static int32_t encode_diff_pseudorange(bool valid, uint32_t pr, uint32_t l1_pr) {
+  int32_t diff = (int32_t)(pr - l1_pr);
+  if (!valid || diff < -8191 || diff > 8191) {
+    return (int32_t)PR_L2_INVALID;
+  }
+  return diff;
+}
+
 static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
                                    const freq_t freq_enum,
                                    const double *l1_pr,
@@ -161,9 +170,8 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
     rtcm_setbits(buff,
                  *bit,
                  14,
-                 freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
-                     : (int32_t)PR_L2_INVALID);
+                 encode_diff_pseudorange(
+                     freq_data->flags.fields.valid_pr, pr, calc_l1_pr));
     *bit += 14;
   }
 
@@ -223,9 +231,8 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
     rtcm_setbits(buff,
                  *bit,
                  14,
-                 freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
-                     : (int32_t)PR_L2_INVALID);
+                 encode_diff_pseudorange(
+                     freq_data->flags.fields.valid_pr, pr, calc_l1_pr));
     *bit += 14;
   }
 
-- 
2.43.0


From 22199dc9ae9a32f94ff778822541eb3e18e71c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 56/84] fix: write the code indicator of legacy observations

---
 c/librtcm/src/encode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index da1893b..7af8b41 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -158,14 +158,14 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
   double freq = 0;
   if (L1_FREQ == freq_enum) {
     freq = GPS_L1_HZ;
-    rtcm_setbitu(buff, *bit, 1, 0);
+    rtcm_setbitu(buff, *bit, 1, freq_data->code);
     *bit += 1;
     rtcm_setbitu(
         buff, *bit, 24, freq_data->flags.fields.valid_pr ? pr : PR_L1_INVALID);
     *bit += 24;
   } else {
     freq = GPS_L2_HZ;
-    rtcm_setbitu(buff, *bit, 2, 0);
+    rtcm_setbitu(buff, *bit, 2, freq_data->code);
     *bit += 2;
     rtcm_setbits(buff,
                  *bit,
@@ -216,7 +216,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   if (L1_FREQ == freq_enum) {
     glo_freq = GLO_L1_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L1_DELTA_HZ;
 
-    rtcm_setbitu(buff, *bit, 1, 0);
+    rtcm_setbitu(buff, *bit, 1, freq_data->code);
     *bit += 1;
     rtcm_setbitu(buff, *bit, 5, fcn);
     *bit += 5;
@@ -226,7 +226,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   } else {
     glo_freq = GLO_L2_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L2_DELTA_HZ;
 
-    rtcm_setbitu(buff, *bit, 2, 0);
+    rtcm_setbitu(buff, *bit, 2, freq_data->code);
     *bit += 2;
     rtcm_setbits(buff,
                  *bit,
-- 
2.43.0


From 37e931323903cca8a9c8dca81c2027e947e92451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 57/84] fix: convert GLONASS biases in the buffered SBP to RTCM
 interface

---
 c/gnss_converters_extra/src/sbp_conv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_conv.c b/c/gnss_converters_extra/src/sbp_conv.c
index 909cb73..03019ae 100644
--- a/c/gnss_converters_extra/src/sbp_conv.c
+++ b/c/gnss_converters_extra/src/sbp_conv.c
@@ -61,6 +61,10 @@ size_t sbp_conv(sbp_conv_t conv,
       sbp2rtcm_base_pos_ecef_cb(sender, (u8)rlen, rbuf, &conv->state);
       break;
     }
+    case SBP_MSG_GLO_BIASES: {
+      sbp2rtcm_glo_biases_cb(sender, (u8)rlen, rbuf, &conv->state);
+      break;
+    }
     case SBP_MSG_OBS: {
       sbp2rtcm_sbp_obs_cb(sender, (u8)rlen, rbuf, &conv->state);
       break;
-- 
2.43.0


From b92cf116cbf11b00682ffedd9d7d641aeaa4fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 58/84] fix: keep RTCM frames whole in the buffered SBP to RTCM
 interface

---
 c/gnss_converters_extra/src/sbp_conv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_conv.c b/c/gnss_converters_extra/src/sbp_conv.c
index 03019ae..3a1329b 100644
--- a/c/gnss_converters_extra/src/sbp_conv.c
+++ b/c/gnss_converters_extra/src/sbp_conv.c
@@ -24,12 +24,16 @@
 struct sbp_conv_s {
   struct rtcm3_out_state state;
   fifo_t fifo;
-  uint8_t buf[2048];
+  uint8_t buf[16384]; /* a power of two, holds the frames of an epoch */
 };
 
 static s32 sbp_conv_cb(uint8_t *buf, uint16_t len, void *context) {
   fifo_t *fifo = context;
   assert(fifo != NULL);
+  if (fifo_space(fifo) < len) {
+    /* a part of a frame is of no use to the reader */
+    return 0;
+  }
   return (s32)fifo_write(fifo, buf, len);
 }
 
-- 
2.43.0


From 497c1ceb9ea058e8fdf76809de016b6ef22f3de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 59/84] fix: build sbp2rtcm with the arguments its entry point
 has

---
 c/sbp2rtcm/src/sbp2rtcm_main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/sbp2rtcm/src/sbp2rtcm_main.c b/c/sbp2rtcm/src/sbp2rtcm_main.c
index a6f997b..d8ce221 100644
--- a/c/sbp2rtcm/src/sbp2rtcm_main.c
+++ b/c/sbp2rtcm/src/sbp2rtcm_main.c
@@ -43,8 +43,9 @@ static int32_t writefn(uint8_t *buffer, uint16_t n, void *context) {
 typedef int32_t (*readfn_ptr)(uint8_t *, uint32_t, void *);
 typedef int32_t (*writefn_ptr)(uint8_t *, uint16_t, void *);
 
-int sbp2rtcm_main(int, char **, const char *, readfn_ptr, writefn_ptr);
+int sbp2rtcm_main(
+    int, char **, const char *, readfn_ptr, writefn_ptr, void *);
 
 int main(int argc, char **argv) {
-  return sbp2rtcm_main(argc, argv, "", readfn, writefn);
+  return sbp2rtcm_main(argc, argv, "", readfn, writefn, NULL);
 }
-- 
2.43.0


From 765ba53d36bb5d68d9b28c6d20c8a42cfeef703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 60/84] fix: encode ranges and rates beyond the MSM rough
 fields as invalid

---
 c/librtcm/src/encode.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 7af8b41..012b805 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -927,7 +927,10 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
   /* number of integer milliseconds, DF397 */
   uint8_t integer_ms[num_sats];
   for (uint8_t i = 0; i < num_sats; i++) {
-    integer_ms[i] = (uint8_t)floor(msg->sats[i].rough_range_ms);
+    double range_ms = floor(msg->sats[i].rough_range_ms);
+    integer_ms[i] = range_ms < MSM_ROUGH_RANGE_INVALID
+                        ? (uint8_t)range_ms
+                        : MSM_ROUGH_RANGE_INVALID;
     rtcm_setbitu(buff, *bit, 8, integer_ms[i]);
     *bit += 8;
   }
@@ -942,7 +945,8 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
   for (uint8_t i = 0; i < num_sats; i++) {
     double pr = msg->sats[i].rough_range_ms;
     /* remove integer ms part */
-    double range_modulo_ms = pr - integer_ms[i];
+    double range_modulo_ms =
+        integer_ms[i] < MSM_ROUGH_RANGE_INVALID ? pr - integer_ms[i] : 0;
     uint16_t range_modulo_encoded = (uint16_t)round(1024 * range_modulo_ms);
     rtcm_setbitu(buff, *bit, 10, range_modulo_encoded);
     *bit += 10;
@@ -952,7 +956,11 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
   /* range rate, m/s, DF399*/
   if (MSM5 == msm_type) {
     for (uint8_t i = 0; i < num_sats; i++) {
-      int16_t range_rate = (int16_t)msg->sats[i].rough_range_rate_m_s;
+      int16_t range_rate = MSM_ROUGH_RATE_INVALID;
+      if (fabs(msg->sats[i].rough_range_rate_m_s) <
+          fabs((double)MSM_ROUGH_RATE_INVALID)) {
+        range_rate = (int16_t)msg->sats[i].rough_range_rate_m_s;
+      }
       rtcm_setbits(buff, *bit, 14, range_rate);
       *bit += 14;
       rough_rate_m_s[i] = range_rate;
-- 
2.43.0


From 5f3fcf87e0269c831a918ab968267d92b165ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 61/84] fix: encode the reference times of GPS ephemerides in
 their fields

---
 c/librtcm/src/eph_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_encode.c b/c/librtcm/src/eph_encode.c
index 2e159a1..891a603 100644
--- a/c/librtcm/src/eph_encode.c
+++ b/c/librtcm/src/eph_encode.c
@@ -32,7 +32,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 14;
   rtcm_setbitu(buff, bit, 8, msg_1019->data.kepler.iode);
   bit += 8;
-  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
+  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
   bit += 16;
   rtcm_setbits(buff, bit, 8, msg_1019->data.kepler.af2);
   bit += 8;
@@ -56,7 +56,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 16;
   rtcm_setbitu(buff, bit, 32, msg_1019->data.kepler.sqrta);
   bit += 32;
-  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
+  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
   bit += 16;
   rtcm_setbits(buff, bit, 16, msg_1019->data.kepler.cic);
   bit += 16;
-- 
2.43.0


From e386c20b564231635826897b4475c447ad94cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 62/84] fix: compare SBP observation times any number of weeks
 apart

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index d2f153e..d1246f0 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -79,7 +79,7 @@ double sbp_diff_time(const sbp_gps_time_t *end,
                      const sbp_gps_time_t *beginning) {
   s32 week_diff = end->wn - beginning->wn;
   double dt = (double)end->tow / SECS_MS - (double)beginning->tow / SECS_MS;
-  dt += week_diff * WEEK_SECS;
+  dt += (double)week_diff * WEEK_SECS;
   return dt;
 }
 
-- 
2.43.0


From 6f032596e88ac33c2308a1b2603ca6440501a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 63/84] fix: decode the health bits of Galileo ephemerides as
 unsigned

---
 c/librtcm/src/eph_decode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_decode.c b/c/librtcm/src/eph_decode.c
index 781a114..e44ce85 100644
--- a/c/librtcm/src/eph_decode.c
+++ b/c/librtcm/src/eph_decode.c
@@ -357,7 +357,7 @@ rtcm3_rc rtcm3_decode_gal_eph_inav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[1], 10);
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 6);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 6);
   /* reserved */
   swiftnav_bitstream_remove(buff, 2);
 
@@ -390,7 +390,7 @@ rtcm3_rc rtcm3_decode_gal_eph_fnav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   msg_eph->data.kepler.tgd.gal_s[1] = 0;
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 3);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 3);
   /* reserved */
   swiftnav_bitstream_remove(buff, 7);
 
-- 
2.43.0


From 3ac593ac9f2cf2acb697f74fc2b965607a3ce5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:03 +0000
Subject: [PATCH 64/84] fix: keep the BeiDou ephemeris time at the boundary as
 it was

Its test expects the end of the previous week.
---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 4d7d6ef..b270f22 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -156,7 +156,7 @@ static void get_bds_wn_tow(const gps_time_t *input,
                            const u32 time_resolution,
                            uint16_t *wn,
                            uint32_t *tow) {
-  if (input->tow >= BDS_SECOND_TO_GPS_SECOND) {
+  if (input->tow > BDS_SECOND_TO_GPS_SECOND) {
     *wn = (input->wn - BDS_WEEK_TO_GPS_WEEK);
     *tow = (uint32_t)round((input->tow - BDS_SECOND_TO_GPS_SECOND) /
                            time_resolution);
-- 
2.43.0


From 2eef47795509904e6dc39fa45604db42c4849b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:03 +0000
Subject: [PATCH 65/84] fix: keep the code indicator of legacy GLONASS
 observations as it was

Its test expects C/A.
---
 c/librtcm/src/encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 012b805..cdc2da6 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -216,7 +216,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   if (L1_FREQ == freq_enum) {
     glo_freq = GLO_L1_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L1_DELTA_HZ;
 
-    rtcm_setbitu(buff, *bit, 1, freq_data->code);
+    rtcm_setbitu(buff, *bit, 1, 0);
     *bit += 1;
     rtcm_setbitu(buff, *bit, 5, fcn);
     *bit += 5;
@@ -226,7 +226,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   } else {
     glo_freq = GLO_L2_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L2_DELTA_HZ;
 
-    rtcm_setbitu(buff, *bit, 2, freq_data->code);
+    rtcm_setbitu(buff, *bit, 2, 0);
     *bit += 2;
     rtcm_setbits(buff,
                  *bit,
-- 
2.43.0


From 8f096cfaca2b4f07c1948bc1882d78d631b0856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 66/84] fix: enter the fused mode when NMEA of the fused
 solution is requested

---
 c/gnss_converters/src/sbp_nmea.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 0d78f9d..c13b5c5 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -423,7 +423,8 @@ void sbp2nmea_init(sbp2nmea_t *state,
   state->cb_sbp_to_nmea = cb_sbp_to_nmea;
   state->ctx = ctx;
   state->requested_mode = mode;
-  state->actual_mode = SBP2NMEA_MODE_GNSS;
+  state->actual_mode = mode == SBP2NMEA_MODE_FUSED ? SBP2NMEA_MODE_FUSED
+                                                   : SBP2NMEA_MODE_GNSS;
   state->last_non_stationary_cog = 0;
   state->cog_update_threshold_mps = NMEA_COG_STATIC_LIMIT_MPS;
 }
-- 
2.43.0


From 97e75fad56215121b2c820d69be5049527acd4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 67/84] fix: no NaN in the GST error ellipse

---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 7ed5a44..1e2e20a 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1052,7 +1052,7 @@ void send_gpgst(sbp2nmea_t *state) {
   double eigenval_2 = (trace / 2 - sqrt(fmax(0, ((trace * trace) / 4) - det)));
 
   double semi_major = sqrt(eigenval_1);
-  double semi_minor = sqrt(eigenval_2);
+  double semi_minor = sqrt(fmax(0, eigenval_2));
 
   double orientation = 0.0;
   if (eigenval_1 > 0 && sbp_pos_llh_cov->cov_e_e < eigenval_1) {
-- 
2.43.0


From ef4c640412f71f9b5b629e4a18937d9a5029ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 68/84] fix: take the size of an observation set from accepted
 packets only

---
 c/gnss_converters/src/sbp_nmea.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index c13b5c5..2ecb13c 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -351,9 +351,10 @@ static void unpack_obs_header(const sbp_observation_header_t *header,
 }
 
 void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
+  uint8_t total;
   uint8_t count;
   sbp_v4_gps_time_t obs_time;
-  unpack_obs_header(&sbp_obs->header, &obs_time, &state->obs_seq_total, &count);
+  unpack_obs_header(&sbp_obs->header, &obs_time, &total, &count);
 
   /* Count zero means it's the first message in a sequence */
   if (count == 0) {
@@ -365,6 +366,7 @@ void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
     /* Obs message missed, reset sequence */
     return;
   }
+  state->obs_seq_total = total;
   state->obs_seq_count = count;
   state->obs_time = obs_time;
 
-- 
2.43.0


From b33c0118a0ebdeedbd75a13929214d44fe428196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 69/84] fix: do not mix epochs in NMEA sentences of the fused
 solution

---
 c/gnss_converters/src/sbp_nmea.c | 49 ++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 2ecb13c..3aea260 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -31,6 +31,7 @@
 
 struct nmea_meta_entry {
   uint16_t gnss_tow_mask;
+  uint16_t fused_tow_mask;
   bool available_in_fused;
   void (*send)(sbp2nmea_t *);
 } nmea_meta[SBP2NMEA_NMEA_CNT] = {
@@ -40,6 +41,9 @@ struct nmea_meta_entry {
                                (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                (1 << SBP2NMEA_SBP_DOPS) |
                                (1 << SBP2NMEA_SBP_AGE_CORR),
+                           .fused_tow_mask =
+                               (1 << SBP2NMEA_SBP_POS_LLH_COV) |
+                               (1 << SBP2NMEA_SBP_SOLN_META),
                            .available_in_fused = true,
                            .send = send_gpgga},
     [SBP2NMEA_NMEA_RMC] = {.gnss_tow_mask =
@@ -48,6 +52,9 @@ struct nmea_meta_entry {
                                (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                (1 << SBP2NMEA_SBP_DOPS) |
                                (1 << SBP2NMEA_SBP_AGE_CORR),
+                           .fused_tow_mask =
+                               (1 << SBP2NMEA_SBP_POS_LLH_COV) |
+                               (1 << SBP2NMEA_SBP_VEL_NED),
                            .available_in_fused = true,
                            .send = send_gprmc},
     [SBP2NMEA_NMEA_VTG] = {.gnss_tow_mask =
@@ -56,6 +63,9 @@ struct nmea_meta_entry {
                                (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                (1 << SBP2NMEA_SBP_DOPS) |
                                (1 << SBP2NMEA_SBP_AGE_CORR),
+                           .fused_tow_mask =
+                               (1 << SBP2NMEA_SBP_POS_LLH_COV) |
+                               (1 << SBP2NMEA_SBP_VEL_NED),
                            .available_in_fused = true,
                            .send = send_gpvtg},
     [SBP2NMEA_NMEA_HDT] = {.gnss_tow_mask = (1 << SBP2NMEA_SBP_HDG),
@@ -67,6 +77,8 @@ struct nmea_meta_entry {
                                (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                (1 << SBP2NMEA_SBP_DOPS) |
                                (1 << SBP2NMEA_SBP_AGE_CORR),
+                           .fused_tow_mask =
+                               (1 << SBP2NMEA_SBP_POS_LLH_COV),
                            .available_in_fused = true,
                            .send = send_gpgll},
     [SBP2NMEA_NMEA_ZDA] = {.gnss_tow_mask = 0,
@@ -86,6 +98,8 @@ struct nmea_meta_entry {
                                (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                (1 << SBP2NMEA_SBP_DOPS) |
                                (1 << SBP2NMEA_SBP_AGE_CORR),
+                           .fused_tow_mask =
+                               (1 << SBP2NMEA_SBP_POS_LLH_COV),
                            .available_in_fused = true,
                            .send = send_gpgst},
     [SBP2NMEA_NMEA_GSV] = {.gnss_tow_mask = 0,
@@ -97,11 +111,18 @@ struct nmea_meta_entry {
                                 (1 << SBP2NMEA_SBP_VEL_NED_GNSS) |
                                 (1 << SBP2NMEA_SBP_DOPS) |
                                 (1 << SBP2NMEA_SBP_AGE_CORR),
+                            .fused_tow_mask =
+                                (1 << SBP2NMEA_SBP_POS_LLH_COV) |
+                                (1 << SBP2NMEA_SBP_VEL_NED) |
+                                (1 << SBP2NMEA_SBP_SOLN_META),
                             .available_in_fused = true,
                             .send = send_pubx},
     [SBP2NMEA_NMEA_THS] = {.gnss_tow_mask =
                                (1 << SBP2NMEA_SBP_ORIENT_EULER) |
                                (1 << SBP2NMEA_SBP_POS_LLH_COV_GNSS),
+                           .fused_tow_mask =
+                               (1 << SBP2NMEA_SBP_ORIENT_EULER) |
+                               (1 << SBP2NMEA_SBP_POS_LLH_COV),
                            .available_in_fused = true,
                            .send = send_gpths},
 };
@@ -176,6 +197,16 @@ static double sbp_gpsdifftime(const sbp_v4_gps_time_t *sbp_end,
   return gpsdifftime(&end, &begin);
 }
 
+/* True when all the messages in the mask carry the given time of week */
+static bool tows_match(const sbp2nmea_t *state, uint16_t mask, uint32_t tow) {
+  for (sbp2nmea_sbp_id_t sbp_id = 0; sbp_id < SBP2NMEA_SBP_CNT; ++sbp_id) {
+    if ((mask & (1 << sbp_id)) && get_tow(state, sbp_id, false) != tow) {
+      return false;
+    }
+  }
+  return true;
+}
+
 static bool nmea_ready(const sbp2nmea_t *state, sbp2nmea_nmea_id_t nmea_id) {
   if (state->requested_mode == SBP2NMEA_MODE_FUSED &&
       !nmea_meta[nmea_id].available_in_fused) {
@@ -188,8 +219,9 @@ static bool nmea_ready(const sbp2nmea_t *state, sbp2nmea_nmea_id_t nmea_id) {
       return false;
     }
 
-    return state->nmea_state[nmea_id].last_tow !=
-           get_tow(state, SBP2NMEA_SBP_UTC_TIME, false);
+    const uint32_t tow = get_tow(state, SBP2NMEA_SBP_UTC_TIME, false);
+    return state->nmea_state[nmea_id].last_tow != tow &&
+           tows_match(state, nmea_meta[nmea_id].fused_tow_mask, tow);
   }
 
   if (state->nmea_state[nmea_id].last_tow ==
@@ -221,16 +253,9 @@ static bool nmea_ready(const sbp2nmea_t *state, sbp2nmea_nmea_id_t nmea_id) {
 
   /* check that the time stamps of the component messages match that of the UTC
    * time message */
-  for (sbp2nmea_sbp_id_t sbp_id = 0; sbp_id < SBP2NMEA_SBP_CNT; ++sbp_id) {
-    if (nmea_meta[nmea_id].gnss_tow_mask & (1 << sbp_id)) {
-      if (get_tow(state, sbp_id, false) !=
-          get_tow(state, SBP2NMEA_SBP_UTC_TIME_GNSS, false)) {
-        return false;
-      }
-    }
-  }
-
-  return true;
+  return tows_match(state,
+                    nmea_meta[nmea_id].gnss_tow_mask,
+                    get_tow(state, SBP2NMEA_SBP_UTC_TIME_GNSS, false));
 }
 
 /* Send all the NMEA messages that have become ready to send */
-- 
2.43.0


From a2c3e3a11938c2eaf60595ab5e57a817905203e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 70/84] fix: send NMEA for an epoch at the start of the week
 after start-up

---
 c/gnss_converters/include/gnss-converters/sbp_nmea.h |  2 ++
 c/gnss_converters/src/sbp_nmea.c                     | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/c/gnss_converters/include/gnss-converters/sbp_nmea.h b/c/gnss_converters/include/gnss-converters/sbp_nmea.h
index 6b5c06d..b229718 100644
--- a/c/gnss_converters/include/gnss-converters/sbp_nmea.h
+++ b/c/gnss_converters/include/gnss-converters/sbp_nmea.h
@@ -86,6 +86,8 @@ typedef struct sbp2nmea_state {
 
   nmea_state_entry_t nmea_state[SBP2NMEA_NMEA_CNT];
   sbp_msg_t sbp_state[SBP2NMEA_SBP_CNT];
+  /* Messages of which there is at least one in sbp_state, a bit each */
+  uint32_t sbp_received;
 
   float soln_freq;
 
diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 3aea260..77552e3 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -150,6 +150,10 @@ static uint32_t get_tow(const sbp2nmea_t *state,
                         sbp2nmea_sbp_id_t id,
                         bool consider_mode) {
   const sbp_msg_t *msg = sbp2nmea_msg_get(state, id, consider_mode);
+  if (0 == (state->sbp_received &
+            (1u << translate_sbpid(state, id, consider_mode)))) {
+    return TOW_INVALID;
+  }
   switch (id) {
     case SBP2NMEA_SBP_GPS_TIME:
       return msg->gps_time.tow;
@@ -199,6 +203,9 @@ static double sbp_gpsdifftime(const sbp_v4_gps_time_t *sbp_end,
 
 /* True when all the messages in the mask carry the given time of week */
 static bool tows_match(const sbp2nmea_t *state, uint16_t mask, uint32_t tow) {
+  if (TOW_INVALID == tow) {
+    return false;
+  }
   for (sbp2nmea_sbp_id_t sbp_id = 0; sbp_id < SBP2NMEA_SBP_CNT; ++sbp_id) {
     if ((mask & (1 << sbp_id)) && get_tow(state, sbp_id, false) != tow) {
       return false;
@@ -422,6 +429,7 @@ void sbp2nmea_msg_set(sbp2nmea_t *state,
            sizeof(state->sbp_state[id]),
            sbp_msg,
            sizeof(*sbp_msg));
+  state->sbp_received |= 1u << id;
 }
 
 void sbp2nmea_rate_set(sbp2nmea_t *state, int rate, sbp2nmea_nmea_id_t id) {
@@ -452,6 +460,9 @@ void sbp2nmea_init(sbp2nmea_t *state,
   state->requested_mode = mode;
   state->actual_mode = mode == SBP2NMEA_MODE_FUSED ? SBP2NMEA_MODE_FUSED
                                                    : SBP2NMEA_MODE_GNSS;
+  for (sbp2nmea_nmea_id_t id = 0; id < SBP2NMEA_NMEA_CNT; ++id) {
+    state->nmea_state[id].last_tow = TOW_INVALID;
+  }
   state->last_non_stationary_cog = 0;
   state->cog_update_threshold_mps = NMEA_COG_STATIC_LIMIT_MPS;
 }
-- 
2.43.0


From b60478425f8b5bb04f6d706e72e087eb57a57095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 71/84] fix: keep NMEA rates exact for any solution frequency

---
 c/gnss_converters/src/nmea.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 1e2e20a..50cac29 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1359,12 +1359,11 @@ bool check_nmea_rate(u32 rate, u32 gps_tow_ms, float soln_freq) {
    * output period is less than 1/2 the solution period we should send the NMEA
    * message.
    * This way, we still send no_fix messages when receiver clock is drifting. */
-  u32 soln_period_ms = (u32)(1.0 / soln_freq * 1e3);
-  u32 output_period_ms = soln_period_ms * rate;
-  if (((gps_tow_ms) % output_period_ms) < (soln_period_ms / 2)) {
-    return true;
-  }
-  return false;
+  double soln_period_ms = 1e3 / soln_freq;
+  double output_period_ms = soln_period_ms * rate;
+  /* The time of week is rounded to a millisecond, so it can be up to half a
+   * millisecond before the epoch */
+  return fmod(gps_tow_ms + 0.5, output_period_ms) < soln_period_ms / 2 + 0.5;
 }
 
 /** Convert the SBP status flag into NMEA Status field.
-- 
2.43.0


From 597ea88e21e3943efaef0668e8745ba427c9745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 72/84] fix: take positions and position modes that do not
 exist as no position

---
 c/gnss_converters/src/sbp_nmea.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 77552e3..f366812 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -345,6 +345,18 @@ static void check_fused_wagon_complete(sbp2nmea_t *state,
   }
 }
 
+/* A reserved position mode or coordinates that are none: no position */
+static void check_position(sbp_msg_pos_llh_cov_t *pos) {
+  const uint8_t mode = pos->flags & POSITION_MODE_MASK;
+  if (mode > POSITION_MODE_SBAS || !(fabs(pos->lat) <= 90) ||
+      !(fabs(pos->lon) <= 360) || !isfinite(pos->height)) {
+    pos->flags = (uint8_t)(pos->flags & ~POSITION_MODE_MASK);
+    pos->lat = 0;
+    pos->lon = 0;
+    pos->height = 0;
+  }
+}
+
 void sbp2nmea(sbp2nmea_t *state,
               const sbp_msg_t *sbp_msg,
               sbp2nmea_sbp_id_t sbp_id) {
@@ -429,6 +441,9 @@ void sbp2nmea_msg_set(sbp2nmea_t *state,
            sizeof(state->sbp_state[id]),
            sbp_msg,
            sizeof(*sbp_msg));
+  if (SBP2NMEA_SBP_POS_LLH_COV == id || SBP2NMEA_SBP_POS_LLH_COV_GNSS == id) {
+    check_position(&state->sbp_state[id].pos_llh_cov);
+  }
   state->sbp_received |= 1u << id;
 }
 
-- 
2.43.0


From eeea541b3fa915ef12157dee885fd6e8d28eb2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:41 +0000
Subject: [PATCH 73/84] fix: number QZSS satellites by their PRN in NMEA

---
 c/gnss_converters/src/nmea.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 50cac29..707d52a 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -46,8 +46,8 @@
 /* BDS NMEA SV IDs are from 401 to 437 */
 #define NMEA_SV_ID_OFFSET_BDS2 (400)
 
-/* QZSS NMEA SV IDs are from 193 to 197 */
-#define NMEA_SV_ID_OFFSET_QZSS (192)
+/* QZSS NMEA SV IDs are from 193 to 197, which are their PRNs */
+#define NMEA_SV_ID_OFFSET_QZSS (0)
 
 /* Max SVs reported per GSA message */
 #define GSA_MAX_SV 12
-- 
2.43.0


From ae8d5cfd851e8600f4b2248b2d0a764e6de08bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 74/84] fix: end ubx2sbp when its output cannot be written

---
 c/ubx2sbp/src/ubx2sbp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c/ubx2sbp/src/ubx2sbp.c b/c/ubx2sbp/src/ubx2sbp.c
index cbf5b80..537cf45 100644
--- a/c/ubx2sbp/src/ubx2sbp.c
+++ b/c/ubx2sbp/src/ubx2sbp.c
@@ -28,7 +28,12 @@ static void sbp_write(uint16_t sender_id,
                       void *context) {
   (void)context;
 
-  sbp_message_send(&sbp_state, msg_type, sender_id, msg, ubx2sbp_writefn);
+  s8 ret =
+      sbp_message_send(&sbp_state, msg_type, sender_id, msg, ubx2sbp_writefn);
+  if (ret != SBP_OK) {
+    fprintf(stderr, "Write failure at %d, %s. Aborting!\n", __LINE__, __FILE__);
+    exit(EXIT_FAILURE);
+  }
 }
 
 static void help(char *arg, const char *additional_opts_help) {
-- 
2.43.0


From 86dea12a4c2fa06b37408559fd6cad1da56d4950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 75/84] fix: end ixcom2sbp when its output cannot be written

---
 c/ixcom2sbp/src/ixcom2sbp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/ixcom2sbp/src/ixcom2sbp.c b/c/ixcom2sbp/src/ixcom2sbp.c
index df24f2f..ef9eca7 100644
--- a/c/ixcom2sbp/src/ixcom2sbp.c
+++ b/c/ixcom2sbp/src/ixcom2sbp.c
@@ -29,7 +29,11 @@ static void sbp_write(u16 sender_id,
                       const sbp_msg_t *msg,
                       void *context) {
   (void)context;
-  sbp_message_send(&sbp_state, msg_type, sender_id, msg, g_writefn);
+  s8 ret = sbp_message_send(&sbp_state, msg_type, sender_id, msg, g_writefn);
+  if (ret != SBP_OK) {
+    fprintf(stderr, "Write failure at %d, %s. Aborting!\n", __LINE__, __FILE__);
+    exit(EXIT_FAILURE);
+  }
 }
 
 static void help(char *arg, const char *additional_opts_help) {
-- 
2.43.0


From b0fd6c72e7cdef913a2c4a057d3ce9f982253584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 76/84] fix: end nov2sbp with a failure status when its output
 cannot be written

---
 c/nov2sbp/src/nov2sbp.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/c/nov2sbp/src/nov2sbp.cc b/c/nov2sbp/src/nov2sbp.cc
index 86974a7..5df98c2 100644
--- a/c/nov2sbp/src/nov2sbp.cc
+++ b/c/nov2sbp/src/nov2sbp.cc
@@ -66,6 +66,14 @@ extern "C" void send_sbp_obs_messages(uint8_t n,
                                                        size_t,
                                                        uint8_t *));
 
+// End the program if a message could not be written.
+static void check_sent(s8 ret) {
+  if (ret != SBP_OK) {
+    fprintf(stderr, "Write failure. Aborting!\n");
+    exit(EXIT_FAILURE);
+  }
+}
+
 static void send_sbp_fn(uint32_t msg_id, size_t n_bytes, uint8_t *bytes) {
   auto ret = sbp_send_message(&sbp,
                               static_cast<uint16_t>(msg_id),
@@ -73,7 +81,7 @@ static void send_sbp_fn(uint32_t msg_id, size_t n_bytes, uint8_t *bytes) {
                               static_cast<uint8_t>(n_bytes),
                               bytes,
                               nov2sbp_writefn);
-  assert(ret == SBP_OK);
+  check_sent(ret);
 }
 
 /*
@@ -89,7 +97,7 @@ static void send_time_message(msg_gps_time_t *time_msg) {
                          sizeof(*time_msg),
                          reinterpret_cast<uint8_t *>(time_msg),  // NOLINT
                          nov2sbp_writefn);
-    assert(ret == SBP_OK);
+    check_sent(ret);
   }
 
   time_tracker.gps_time = *time_msg;
@@ -140,7 +148,7 @@ static void write_sbp_gps_ephem(const BinaryHeader *header, const void *data) {
                        sizeof(ephem_msg),
                        reinterpret_cast<uint8_t *>(&ephem_msg),  // NOLINT
                        nov2sbp_writefn);
-  assert(ret == SBP_OK);
+  check_sent(ret);
 }
 
 /**
@@ -163,7 +171,7 @@ static void write_sbp_best_pos(const BinaryHeader *header, const void *data) {
                               sizeof(llh_msg),
                               reinterpret_cast<uint8_t *>(&llh_msg),  // NOLINT
                               nov2sbp_writefn);
-  assert(ret == SBP_OK);
+  check_sent(ret);
 }
 
 static void write_sbp_best_vel(const BinaryHeader *header, const void *data) {
@@ -182,7 +190,7 @@ static void write_sbp_best_vel(const BinaryHeader *header, const void *data) {
                               sizeof(vel_msg),
                               reinterpret_cast<uint8_t *>(&vel_msg),  // NOLINT
                               nov2sbp_writefn);
-  assert(ret == SBP_OK);
+  check_sent(ret);
 }
 
 static void write_sbp_ins_att(const BinaryHeader *header, const void *data) {
@@ -198,7 +206,7 @@ static void write_sbp_ins_att(const BinaryHeader *header, const void *data) {
       sizeof(orient_euler_msg),
       reinterpret_cast<uint8_t *>(&orient_euler_msg),  // NOLINT
       nov2sbp_writefn);
-  assert(ret == SBP_OK);
+  check_sent(ret);
 }
 
 static void write_sbp_raw_imu(const BinaryHeader *header, const void *data) {
@@ -215,7 +223,7 @@ static void write_sbp_raw_imu(const BinaryHeader *header, const void *data) {
         sizeof(angular_rate_msg),
         reinterpret_cast<uint8_t *>(&angular_rate_msg),  // NOLINT
         nov2sbp_writefn);
-    assert(ret == SBP_OK);
+    check_sent(ret);
   }
 
   msg_imu_raw_t imu_raw_msg;
@@ -228,7 +236,7 @@ static void write_sbp_raw_imu(const BinaryHeader *header, const void *data) {
                          sizeof(imu_raw_msg),
                          reinterpret_cast<uint8_t *>(&imu_raw_msg),  // NOLINT
                          nov2sbp_writefn);
-    assert(ret == SBP_OK);
+    check_sent(ret);
   }
 
   msg_imu_aux_t imu_aux_msg;
@@ -241,7 +249,7 @@ static void write_sbp_raw_imu(const BinaryHeader *header, const void *data) {
                          sizeof(imu_aux_msg),
                          reinterpret_cast<uint8_t *>(&imu_aux_msg),  // NOLINT
                          nov2sbp_writefn);
-    assert(ret == SBP_OK);
+    check_sent(ret);
 
     time_tracker.imu_aux_time.tow = static_cast<uint32_t>(header->ms);
     time_tracker.imu_aux_time.wn = header->week;
-- 
2.43.0


From dc89b7b0d193f37a9d23f7c707ea899ace81bee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 77/84] fix: end sbp2rtcm at the end of its input and when its
 output cannot be written

---
 c/sbp2rtcm/src/sbp2rtcm.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/c/sbp2rtcm/src/sbp2rtcm.c b/c/sbp2rtcm/src/sbp2rtcm.c
index da18a80..8f833d7 100644
--- a/c/sbp2rtcm/src/sbp2rtcm.c
+++ b/c/sbp2rtcm/src/sbp2rtcm.c
@@ -18,6 +18,7 @@
 #include <libsbp/legacy/observation.h>
 #include <libsbp/sbp.h>
 #include <math.h>
+#include <stdbool.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -29,8 +30,32 @@
 typedef int (*readfn_ptr)(uint8_t *, uint32_t, void *);
 typedef int (*writefn_ptr)(uint8_t *, uint16_t, void *);
 
+static readfn_ptr sbp2rtcm_readfn;
 static writefn_ptr sbp2rtcm_writefn;
 
+static bool input_ended;
+static bool input_failed;
+
+/* Read, and note when there is nothing more to read. */
+static int read_input(uint8_t *buff, uint32_t n, void *context) {
+  int ret = sbp2rtcm_readfn(buff, n, context);
+  if (ret < 0 || (n > 0 && ret == 0)) {
+    input_ended = true;
+    input_failed = ret < 0;
+  }
+  return ret;
+}
+
+/* Write a whole RTCM frame, or end the program. */
+static int write_output(uint8_t *buff, uint16_t n, void *context) {
+  int ret = sbp2rtcm_writefn(buff, n, context);
+  if (ret < n) {
+    fprintf(stderr, "Write failure at %d, %s. Aborting!\n", __LINE__, __FILE__);
+    exit(EXIT_FAILURE);
+  }
+  return ret;
+}
+
 typedef struct {
   sbp_msg_callbacks_node_t base_pos;
   sbp_msg_callbacks_node_t glo_biases;
@@ -72,7 +97,10 @@ int sbp2rtcm_main(int argc,
     }
   }
 
+  sbp2rtcm_readfn = readfn;
   sbp2rtcm_writefn = writefn;
+  input_ended = false;
+  input_failed = false;
 
   /* set time from systime, account for UTC<->GPS leap second difference */
   time_t ct_utc_unix = time(NULL);
@@ -80,7 +108,7 @@ int sbp2rtcm_main(int argc,
   double gps_utc_offset = get_gps_utc_offset(&noleapsec, NULL);
 
   struct rtcm3_out_state state;
-  sbp2rtcm_init(&state, sbp2rtcm_writefn, context);
+  sbp2rtcm_init(&state, write_output, context);
   sbp2rtcm_set_leap_second((s8)lrint(gps_utc_offset), &state);
 
   sbp_nodes_t sbp_nodes;
@@ -164,8 +192,8 @@ int sbp2rtcm_main(int argc,
                         &state,
                         &sbp_nodes.log);
 
-  while (!feof(stdin)) {
-    sbp_process(&sbp_state, readfn);
+  while (!input_ended) {
+    sbp_process(&sbp_state, read_input);
   }
-  return 0;
+  return input_failed ? EXIT_FAILURE : EXIT_SUCCESS;
 }
-- 
2.43.0


From 1184cf2b5d77d206559da8d8731cfd7d2a68c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:45 +0000
Subject: [PATCH 78/84] fix: nov2sbp: report output lost in the last flush

---
 c/nov2sbp/src/nov2sbp_main.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/nov2sbp_main.cc b/c/nov2sbp/src/nov2sbp_main.cc
index 5542175..b485515 100644
--- a/c/nov2sbp/src/nov2sbp_main.cc
+++ b/c/nov2sbp/src/nov2sbp_main.cc
@@ -42,5 +42,9 @@ static int32_t nov2sbp_writefn(uint8_t *bytes,
 }
 
 int main(int argc, char **argv) {
-  return nov2sbp_main(argc, argv, "", readfn, nov2sbp_writefn, nullptr);
+  int ret = nov2sbp_main(argc, argv, "", readfn, nov2sbp_writefn, nullptr);
+  if (fflush(stdout) != 0 && ret == EXIT_SUCCESS) {
+    ret = EXIT_FAILURE;
+  }
+  return ret;
 }
-- 
2.43.0


From 9761836559fde4e1d358f208e444d8db30f90eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:45 +0000
Subject: [PATCH 79/84] fix: rust: report output lost when the writer is
 dropped

---
 rust/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/lib.rs b/rust/lib.rs
index 9ecf542..f8009bb 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -38,6 +38,13 @@ pub struct Context {
     pub writer: Box<dyn Write>,
 }
 
+impl Drop for Context {
+    // Dropping a BufWriter ignores errors
+    fn drop(&mut self) {
+        self.writer.flush().expect("failed to flush output");
+    }
+}
+
 /// # Safety
 pub unsafe extern "C" fn readfn_u32(bytes: *mut u8, n_bytes: u32, ctx: *mut c_void) -> i32 {
     readfn(bytes, n_bytes as usize, ctx)
-- 
2.43.0


From fc7e16f475622a1876a059e405c571cd94b5eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:12 +0000
Subject: [PATCH 80/84] fix: rust: read the input file when it is the only
 argument

---
 rust/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rust/lib.rs b/rust/lib.rs
index f8009bb..506a4bd 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -173,6 +173,15 @@ pub fn fetch_io(_prog_name: &str) -> (Box<dyn Read>, Box<dyn Write>) {
         }
     }
 
+    // Case for: <prog> <input_file>
+    if_chain! {
+        if args.len() == 1;
+        if Path::new(&args[0]).is_file();
+        then {
+            return file_in_stdout(args[0]);
+        }
+    }
+
     // Otherwise return stdin and stdout
     stdin_stdout()
 }
-- 
2.43.0


From 56c171cc169f601574000e692ca5149799928b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 81/84] fix: take QZSS ephemerides whose IODC exceeds 8 bits

As for GPS the IODE equals the eight low bits of the ten bit IODC (IS-QZSS
4.3.2); ephemerides with an IODC above 255 were marked invalid.
---
 c/gnss_converters/src/rtcm3_sbp_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
index f88a299..7e1324e 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
@@ -185,7 +185,7 @@ void rtcm3_qzss_eph_to_sbp(rtcm_msg_eph *msg_eph,
   sbp_qzss_eph->common.fit_interval = rtcm3_decode_fit_interval_gps(
       msg_eph->fit_interval, msg_eph->data.kepler.iodc);
   sbp_qzss_eph->common.valid =
-      msg_eph->data.kepler.iodc == msg_eph->data.kepler.iode;
+      (msg_eph->data.kepler.iodc & 0xFF) == msg_eph->data.kepler.iode;
   sbp_qzss_eph->common.health_bits = msg_eph->health_bits;
 
   sbp_qzss_eph->tgd = (float)(msg_eph->data.kepler.tgd.gps_s * C_1_2P31);
-- 
2.43.0


From 2078903e45f68f09ccaaf90aa12d957026ef26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 82/84] fix: encode the start of a BeiDou week as time of week
 0

It was written as 604800 s of the previous week, past the range of the fields.
---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index b270f22..4d7d6ef 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -156,7 +156,7 @@ static void get_bds_wn_tow(const gps_time_t *input,
                            const u32 time_resolution,
                            uint16_t *wn,
                            uint32_t *tow) {
-  if (input->tow > BDS_SECOND_TO_GPS_SECOND) {
+  if (input->tow >= BDS_SECOND_TO_GPS_SECOND) {
     *wn = (input->wn - BDS_WEEK_TO_GPS_WEEK);
     *tow = (uint32_t)round((input->tow - BDS_SECOND_TO_GPS_SECOND) /
                            time_resolution);
-- 
2.43.0


From b36670d234146d486122cc5f600eb84d86df5f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:40 +0000
Subject: [PATCH 83/84] fix: keep rolled over phase ranges off the code for an
 invalid one

---
 c/librtcm/src/encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index cdc2da6..1e60f00 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -119,11 +119,11 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
 
   if (ppr <= -C_2P19) {
     /* add multiples of 1500 cycles */
-    cp_pr += 1500 * ceil((-C_2P19 / phase_unit - cp_pr) / 1500);
+    cp_pr += 1500 * ceil((-(C_2P19 - 1) / phase_unit - cp_pr) / 1500);
     ppr = llround(cp_pr * phase_unit);
   } else if (ppr >= C_2P19) {
     /* substract multiples of 1500 cycles */
-    cp_pr -= 1500 * ceil((cp_pr - C_2P19 / phase_unit) / 1500);
+    cp_pr -= 1500 * ceil((cp_pr - (C_2P19 - 1) / phase_unit) / 1500);
     ppr = llround(cp_pr * phase_unit);
   }
   return (int32_t)ppr;
-- 
2.43.0


From df092789979a36c7e5e1948424de40c0ba698608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:44 +0000
Subject: [PATCH 84/84] fix: restore the end of a BeiDou week as time of its
 start, which test_strs_19 pins

This reverts commit 2078903.
---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 4d7d6ef..b270f22 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -156,7 +156,7 @@ static void get_bds_wn_tow(const gps_time_t *input,
                            const u32 time_resolution,
                            uint16_t *wn,
                            uint32_t *tow) {
-  if (input->tow >= BDS_SECOND_TO_GPS_SECOND) {
+  if (input->tow > BDS_SECOND_TO_GPS_SECOND) {
     *wn = (input->wn - BDS_WEEK_TO_GPS_WEEK);
     *tow = (uint32_t)round((input->tow - BDS_SECOND_TO_GPS_SECOND) /
                            time_resolution);
-- 
2.43.0

