From a92b5276ff788ab44dfe0688957fdc59b994c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 001/131] fix: numerical kernel supports every order up to its
 capacity

The history rotation never refreshed the last slot, and compression needed one
slot more than the capacity: orders M-1 and M were wrong or panicked.
---
 src/hatanaka/numdiff.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/hatanaka/numdiff.rs b/src/hatanaka/numdiff.rs
index eb56177..cec2315 100644
--- a/src/hatanaka/numdiff.rs
+++ b/src/hatanaka/numdiff.rs
@@ -48,7 +48,7 @@ impl<const M: usize> NumDiff<M> {
 
     /// Rotate internal buffer, take new sample into account.
     fn rotate_history(&mut self, data: i64) {
-        self.buf.copy_within(0..M - 2, 1);
+        self.buf.copy_within(0..M - 1, 1);
         self.buf[0] = data;
     }
 
@@ -84,26 +84,26 @@ impl<const M: usize> NumDiff<M> {
         if self.m < self.level {
             self.m += 1;
         }
-        self.rotate_history(data);
 
-        match self.m {
-            1 => self.buf[0] - self.buf[1],
-            2 => self.buf[0] - 2 * self.buf[1] + self.buf[2],
-            3 => self.buf[0] - 3 * self.buf[1] + 3 * self.buf[2] - self.buf[3],
-            4 => self.buf[0] - 4 * self.buf[1] + 6 * self.buf[2] - 4 * self.buf[3] + self.buf[4],
+        let compressed = match self.m {
+            1 => data - self.buf[0],
+            2 => data - 2 * self.buf[0] + self.buf[1],
+            3 => data - 3 * self.buf[0] + 3 * self.buf[1] - self.buf[2],
+            4 => data - 4 * self.buf[0] + 6 * self.buf[1] - 4 * self.buf[2] + self.buf[3],
             5 => {
-                self.buf[0] - 5 * self.buf[1] + 10 * self.buf[2] - 10 * self.buf[3]
-                    + 5 * self.buf[4]
-                    - self.buf[5]
+                data - 5 * self.buf[0] + 10 * self.buf[1] - 10 * self.buf[2] + 5 * self.buf[3]
+                    - self.buf[4]
             },
             6 => {
-                self.buf[0] - 6 * self.buf[1] + 15 * self.buf[2] - 20 * self.buf[3]
-                    + 15 * self.buf[4]
-                    - 6 * self.buf[5]
-                    + self.buf[6]
+                data - 6 * self.buf[0] + 15 * self.buf[1] - 20 * self.buf[2] + 15 * self.buf[3]
+                    - 6 * self.buf[4]
+                    + self.buf[5]
             },
             _ => panic!("numdiff is limited to M < 7"),
-        }
+        };
+
+        self.rotate_history(data);
+        compressed
     }
 }
 
-- 
2.43.0


From d97f4a0bedfdf8b16d5685f48bccf83347f87367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:29 +0000
Subject: [PATCH 002/131] fix: TextDiff: whiten characters dropped by a shorter
 line

---
 src/hatanaka/textdiff.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hatanaka/textdiff.rs b/src/hatanaka/textdiff.rs
index c691391..09d5b72 100644
--- a/src/hatanaka/textdiff.rs
+++ b/src/hatanaka/textdiff.rs
@@ -70,11 +70,16 @@ impl TextDiff {
     pub fn compress(&mut self, data: &str) -> &str {
         let len = data.len();
         let mut buf_len = self.buffer.len();
-        let min_len = std::cmp::min(len, buf_len);
+
+        // special case: shrink history.
+        // Decompressor's history never shrinks: content we're dropping must be whitened.
+        let mut whitened = String::new();
 
         if buf_len > len {
-            // special case: shrink history
-            self.buffer = self.buffer[..len].to_string();
+            let dropped = self.buffer.split_off(len);
+            for c in dropped.trim_end().chars() {
+                whitened.push(if c == ' ' { ' ' } else { '&' });
+            }
             buf_len = len; // update size
         }
 
@@ -117,6 +122,7 @@ impl TextDiff {
             }
         }
 
+        self.compressed.push_str(&whitened);
         &self.compressed
     }
 }
-- 
2.43.0


From df036592548bd2f63b0b142aa020b50f083bd1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 003/131] fix: epoch: sub second digits are nanoseconds in
 every timescale

---
 src/epoch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 0a2ff97..b1aaee6 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -207,7 +207,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 return Err(ParsingError::EpochFormat);
             }
             let epoch = Epoch::from_gregorian_str(&format!(
-                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06} {}",
+                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09} {}",
                 y, m, d, hh, mm, ss, ns, ts
             ))?;
             Ok(epoch)
-- 
2.43.0


From e7810b8d01beb5336b4d784a6e8ab9232be7668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 004/131] fix: observation: keep V2 satellite lists aligned
 when the constellation is blank

---
 src/observation/parsing.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index c81df9b..73e46c2 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -171,7 +171,7 @@ fn parse_observations(
     let observables = &obs.codes;
 
     // V1 / V2 tedious case
-    let rem = rem.trim();
+    let rem = rem.trim_end();
     let remainder_len = rem.len();
 
     if header.version.major < 3 {
@@ -181,15 +181,15 @@ fn parse_observations(
 
         // starts with first line content
         let end = (12 * 3).min(remainder_len);
-        let mut systems_str = rem[..end].to_string();
+        let mut systems_str = align_v2_satellites(&rem[..end]);
         let mut systems_str_len = systems_str.len();
 
         // grab following lines (if we need to)
         while systems_str_len / 3 < num_sat.into() {
             if let Some(line) = lines.next() {
-                let trimmed = line.trim();
-                systems_str_len += trimmed.len();
-                systems_str.push_str(trimmed);
+                let aligned = align_v2_satellites(line);
+                systems_str_len += aligned.len();
+                systems_str.push_str(&aligned);
             } else {
                 return Err(ParsingError::BadV2SatellitesDescription);
             }
@@ -212,6 +212,14 @@ fn parse_observations(
     Ok(())
 }
 
+/// Trims a line of V2 satellites, keeping each one 3 characters wide:
+/// the constellation and the leading digit of the first one may be blank.
+fn align_v2_satellites(line: &str) -> String {
+    let trimmed = line.trim();
+    let width = div_ceil(trimmed.len(), 3) * 3;
+    format!("{:>width$}", trimmed)
+}
+
 /// Parses all [SignalObservation]s as described by following V2 content.
 /// Old format is tedious:
 ///   - vehicle description is contained in first line
-- 
2.43.0


From e8f78f5c05eb1996114ea85b2126168636a99381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 005/131] fix: observation: blanks past the last V2 observable
 do not end the epoch

---
 src/observation/parsing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 73e46c2..c732ed2 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -370,10 +370,10 @@ fn parse_signals_v2(
         //);
 
         // process all of them
-        for _ in 0..num_obs {
+        for _ in 0..num_obs.min(MAX_OBSERVABLES_LINE) {
             if obs_ptr >= observables.len() {
-                // line is abnormally long (trailing whitespaces): abort
-                return;
+                // line is abnormally long (trailing whitespaces)
+                break;
             }
 
             let end = (offset + OBSERVABLE_WIDTH).min(line_width);
-- 
2.43.0


From 7c27a2ba2aa0b9f4a7e2763d7b6ab3eb07d35e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 006/131] fix: observation: V3 fields start right after the
 vehicle and may be trimmed

---
 src/observation/parsing.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index c732ed2..07495df 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -471,7 +471,7 @@ fn parse_signals_v3(
     // browse all lines
     for line in lines {
         // identify SV
-        let sv_str = &line[0..SVNN_SIZE];
+        let sv_str = line.get(0..SVNN_SIZE).unwrap_or_default();
         match SV::from_str(sv_str) {
             Ok(found) => {
                 sv = found;
@@ -500,8 +500,8 @@ fn parse_signals_v3(
 
         let observables = observables.unwrap();
 
-        let num_obs = line.len() / OBSERVABLE_WIDTH;
-        let mut offset = SVNN_SIZE + 1;
+        let num_obs = div_ceil(line.len() - SVNN_SIZE, OBSERVABLE_WIDTH);
+        let mut offset = SVNN_SIZE;
 
         for i in 0..num_obs {
             if i == observables.len() {
@@ -515,7 +515,7 @@ fn parse_signals_v3(
             let mut lli = Option::<LliFlags>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH {
-                let start = offset + OBSERVABLE_F14_WIDTH - 1;
+                let start = offset + OBSERVABLE_F14_WIDTH;
                 let lli_slice = &line[start..start + 1];
                 match lli_slice.parse::<u8>() {
                     Ok(unsigned) => {
@@ -531,7 +531,7 @@ fn parse_signals_v3(
             let mut snr = Option::<SNR>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH + 1 {
-                let start = offset + OBSERVABLE_F14_WIDTH;
+                let start = offset + OBSERVABLE_F14_WIDTH + 1;
                 let snr_slice = &line[start..start + 1];
 
                 if let Ok(value) = snr_slice.parse::<u8>() {
-- 
2.43.0


From 74095f7db01a1fa74ffbc81bfdd2db2439d6bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 007/131] fix: observation: an epoch line that is too short is
 an error, not a panic

---
 src/observation/parsing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 07495df..658bd8e 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -93,6 +93,11 @@ pub fn parse_epoch(
         line = line.split_at(1).1;
     }
 
+    if line.len() < offset + 6 || !line.is_ascii() {
+        // too short to hold a date, a flag and a number of satellites
+        return Err(ParsingError::EpochFormat);
+    }
+
     let (date, rem) = line.split_at(offset);
     let epoch = parse_epoch_in_timescale(date, ts)?;
 
-- 
2.43.0


From 85fbb6df0e8de4a77b59ca30cd7642bf7cd66be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 008/131] fix: observation: blank and short lines between V3
 satellites are skipped

---
 src/observation/parsing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 658bd8e..938cbde 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -476,7 +476,10 @@ fn parse_signals_v3(
     // browse all lines
     for line in lines {
         // identify SV
-        let sv_str = line.get(0..SVNN_SIZE).unwrap_or_default();
+        let sv_str = match line.get(0..SVNN_SIZE) {
+            Some(sv_str) => sv_str,
+            None => continue,
+        };
         match SV::from_str(sv_str) {
             Ok(found) => {
                 sv = found;
-- 
2.43.0


From 96709400a1dc663d24319b3c087547c7d99d4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 009/131] fix: header: TIME OF OBS keeps its sub second digits
 and accepts GLO and QZS time

---
 src/header/parsing.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index dfdbc2d..a1773c0 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -1013,9 +1013,9 @@ impl Header {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        let ns = ns
-            .trim()
-            .parse::<u32>()
+        // sub second digits
+        let ns = ns.trim();
+        ns.parse::<u32>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
         /*
@@ -1031,11 +1031,15 @@ impl Header {
          * offset from TAI, that we will convert back to TAI later
          */
         if !rem.is_empty() && rem != "DOR" {
-            ts = TimeScale::from_str(rem.trim())?;
+            ts = match rem {
+                "GLO" => TimeScale::UTC,
+                "QZS" => TimeScale::QZSST,
+                rem => TimeScale::from_str(rem)?,
+            };
         }
 
         Epoch::from_str(&format!(
-            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:08} {}",
+            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{} {}",
             y, m, d, hh, mm, ss, ns, ts
         ))
         .map_err(|_| ParsingError::DatetimeParsing)
-- 
2.43.0


From 098c1ada13ab3e41b19a2406dd02c99317de196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 010/131] fix: observation: a V2 line that omits its last
 observations concludes the vehicle

---
 src/observation/parsing.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 938cbde..b14b6f7 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -377,6 +377,10 @@ fn parse_signals_v2(
         // process all of them
         for _ in 0..num_obs.min(MAX_OBSERVABLES_LINE) {
             if obs_ptr >= observables.len() {
+                if sv_identified {
+                    // unexpected content: abort
+                    return;
+                }
                 // line is abnormally long (trailing whitespaces)
                 break;
             }
@@ -457,6 +461,20 @@ fn parse_signals_v2(
 
         if num_obs < MAX_OBSERVABLES_LINE {
             obs_ptr += MAX_OBSERVABLES_LINE - num_obs;
+
+            // last observations are omitted: this concludes this vehicle,
+            // as long as the last value that is provided is complete
+            let last_width = (line.trim_end().len() - 1) % OBSERVABLE_WIDTH + 1;
+            let complete = last_width >= OBSERVABLE_F14_WIDTH;
+
+            if complete && sv_identified && obs_ptr >= observables.len() {
+                sv_identified = false;
+                obs_identified = false;
+                if sv_ptr == systems_str_len {
+                    // we're done
+                    return;
+                }
+            }
         }
     } // for all lines provided
 }
-- 
2.43.0


From 2f4f308eecef7e44c570dc48808bc601cd20ae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 011/131] fix: epoch: two digit year 79 is 2079

---
 src/epoch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index b1aaee6..fa6ebca 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -133,7 +133,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 /* old RINEX problem: YY sometimes encoded on two digits */
                 if y > 79 && y <= 99 {
                     y += 1900;
-                } else if y < 79 {
+                } else if y <= 79 {
                     y += 2000;
                 }
             },
-- 
2.43.0


From 5364ac0321bd982d5e8e2aba4070dbf760460439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 012/131] fix: header: conclude the last line of observables,
 whatever their number

---
 src/meteo/header.rs       | 13 ++++++-------
 src/observation/header.rs | 11 +++++------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 1e709c9..071ad46 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -30,8 +30,6 @@ impl HeaderFields {
         const NUM_OBSERVABLES_PER_LINE: usize = 9;
 
         write!(w, "{:6}", self.codes.len())?;
-        let mut modulo = 0;
-
         for (nth, observable) in self.codes.iter().enumerate() {
             if nth > 0 && (nth % NUM_OBSERVABLES_PER_LINE) == 0 {
                 write!(w, "      ")?;
@@ -40,18 +38,19 @@ impl HeaderFields {
             write!(w, "    {}", observable)?;
 
             if (nth % NUM_OBSERVABLES_PER_LINE) == NUM_OBSERVABLES_PER_LINE - 1 {
-                write!(w, "# / TYPES OF OBSERV\n      ")?;
+                writeln!(w, "# / TYPES OF OBSERV")?;
             }
-
-            modulo = nth % NUM_OBSERVABLES_PER_LINE;
         }
 
-        if modulo != 7 {
+        // conclude a line that is not complete
+        let remainder = self.codes.len() % NUM_OBSERVABLES_PER_LINE;
+
+        if self.codes.is_empty() || remainder > 0 {
             writeln!(
                 w,
                 "{:>width$}",
                 "# / TYPES OF OBSERV",
-                width = 79 - 6 - (modulo + 1) * 6
+                width = 79 - 6 - remainder * 6
             )?;
         }
 
diff --git a/src/observation/header.rs b/src/observation/header.rs
index b419fce..b0c41c9 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -91,8 +91,6 @@ impl HeaderFields {
     fn format_v1_observables<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         if let Some((_, observables)) = self.codes.iter().next() {
             write!(w, "{:6}", observables.len())?;
-            let mut modulo = 0;
-
             for (nth, observable) in observables.iter().enumerate() {
                 if nth > 0 && (nth % 9) == 0 {
                     write!(w, "      ")?;
@@ -103,16 +101,17 @@ impl HeaderFields {
                 if (nth % 9) == 8 {
                     writeln!(w, "# / TYPES OF OBSERV")?;
                 }
-
-                modulo = nth % 9;
             }
 
-            if modulo != 7 {
+            // conclude a line that is not complete
+            let remainder = observables.len() % 9;
+
+            if observables.is_empty() || remainder > 0 {
                 writeln!(
                     w,
                     "{:>width$}",
                     "# / TYPES OF OBSERV",
-                    width = 79 - 6 - (modulo + 1) * 6
+                    width = 79 - 6 - remainder * 6
                 )?;
             }
         }
-- 
2.43.0


From 42492e63fa1e1412fd8caa95f38966123f85f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 013/131] fix: observation: a V2 epoch without satellites has a
 line of its own

---
 src/observation/formatting.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/observation/formatting.rs b/src/observation/formatting.rs
index 8b14ac3..2bf0a36 100644
--- a/src/observation/formatting.rs
+++ b/src/observation/formatting.rs
@@ -143,11 +143,11 @@ impl Observations {
             if nth < numsat - 1 && nth % NUM_SV_PER_LINE == NUM_SV_PER_LINE - 1 {
                 write!(w, "{}", '\n')?;
             }
-            if nth == numsat - 1 {
-                write!(w, "{}", '\n')?;
-            }
         }
 
+        // conclude the last line
+        write!(w, "{}", '\n')?;
+
         Ok(())
     }
 
-- 
2.43.0


From 2629b8e8aada23869141b4d4bc3415276c1e4e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 014/131] fix: observation: V3 clock offset and satellite count
 are written in their columns

---
 src/observation/formatting.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/observation/formatting.rs b/src/observation/formatting.rs
index 2bf0a36..9edce7f 100644
--- a/src/observation/formatting.rs
+++ b/src/observation/formatting.rs
@@ -120,7 +120,7 @@ impl Observations {
         if let Some(clock) = self.clock {
             write!(
                 w,
-                " {}  {} {:2}",
+                " {}  {}{:3}",
                 epoch_format(key.epoch, RinexType::ObservationData, 2),
                 key.flag,
                 numsat,
@@ -128,7 +128,7 @@ impl Observations {
         } else {
             write!(
                 w,
-                " {}  {} {:2}",
+                " {}  {}{:3}",
                 epoch_format(key.epoch, RinexType::ObservationData, 2),
                 key.flag,
                 numsat,
@@ -231,7 +231,7 @@ impl Observations {
         if let Some(clock) = self.clock {
             writeln!(
                 w,
-                "> {}  {} {:2}  {:13.4}",
+                "> {}  {}{:3}      {:15.12}",
                 epoch_format(key.epoch, RinexType::ObservationData, 3),
                 key.flag,
                 numsat,
@@ -240,7 +240,7 @@ impl Observations {
         } else {
             writeln!(
                 w,
-                "> {}  {} {:2}",
+                "> {}  {}{:3}",
                 epoch_format(key.epoch, RinexType::ObservationData, 3),
                 key.flag,
                 numsat,
-- 
2.43.0


From b96774ebec2f090bd2dd5624b191f4dad0ae77d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 015/131] fix: header: TIME OF FIRST and LAST OBS use RINEX
 time system codes, year 79 is 2079

---
 src/header/parsing.rs     |  4 ++--
 src/observation/header.rs | 20 ++++++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index a1773c0..8e85200 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -982,9 +982,9 @@ impl Header {
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
         // handle OLD RINEX problem
-        if y >= 79 && y <= 99 {
+        if y > 79 && y <= 99 {
             y += 1900;
-        } else if y < 79 {
+        } else if y <= 79 {
             y += 2000;
         }
 
diff --git a/src/observation/header.rs b/src/observation/header.rs
index b0c41c9..5a12bd4 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -39,6 +39,18 @@ pub struct HeaderFields {
     pub scaling: HashMap<(Constellation, Observable), u16>,
 }
 
+/// Formats [TimeScale] as a RINEX time system code
+fn time_system(ts: TimeScale) -> String {
+    match ts {
+        TimeScale::GPST => "GPS".to_string(),
+        TimeScale::UTC => "GLO".to_string(),
+        TimeScale::GST => "GAL".to_string(),
+        TimeScale::BDT => "BDT".to_string(),
+        TimeScale::QZSST => "QZS".to_string(),
+        ts => ts.to_string(),
+    }
+}
+
 impl HeaderFields {
     /// Formats [HeaderFields] into [BufWriter].
     pub(crate) fn format<W: Write>(
@@ -50,7 +62,7 @@ impl HeaderFields {
             let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF FIRST OBS",
+                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:<3}         TIME OF FIRST OBS",
                 y,
                 m,
                 d,
@@ -58,7 +70,7 @@ impl HeaderFields {
                 mm,
                 ss,
                 ns / 100,
-                t.time_scale,
+                time_system(t.time_scale),
             )?;
         }
 
@@ -66,7 +78,7 @@ impl HeaderFields {
             let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF LAST OBS",
+                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:<3}         TIME OF LAST OBS",
                 y,
                 m,
                 d,
@@ -74,7 +86,7 @@ impl HeaderFields {
                 mm,
                 ss,
                 ns / 100,
-                t.time_scale,
+                time_system(t.time_scale),
             )?;
         }
 
-- 
2.43.0


From b521d599867f05953430866e3a01840963bd66bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 016/131] fix: header: satellite system is given by its letter,
 blank is GPS

---
 src/header/parsing.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 8e85200..de8f05a 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -29,6 +29,19 @@ use std::{
     str::FromStr,
 };
 
+/// Parses satellite system: either by its name or by its letter,
+/// which is what standards specify ("C (BDS)", "C: BDS"..)
+fn parse_system(system: &str) -> Result<Constellation, ParsingError> {
+    Constellation::from_str(system).or_else(|e| {
+        let letter_is_alone = !system.chars().nth(1).unwrap_or(' ').is_alphanumeric();
+
+        match system.get(..1) {
+            Some(letter) if letter_is_alone => Ok(Constellation::from_str(letter)?),
+            _ => Err(e.into()),
+        }
+    })
+}
+
 impl Header {
     /// Parse [Header] by consuming [BufReader] until end of this section
     pub fn parse<R: Read>(reader: &mut BufReader<R>) -> Result<Self, ParsingError> {
@@ -239,7 +252,7 @@ impl Header {
                                 constellation = Some(Constellation::GPS);
                             } else {
                                 // Modern NAVIGATION DATA
-                                if let Ok(c) = Constellation::from_str(constell_str) {
+                                if let Ok(c) = parse_system(constell_str) {
                                     constellation = Some(c);
                                 }
                             }
@@ -248,10 +261,14 @@ impl Header {
                     Type::MeteoData | Type::DORIS => {
                         // no constellation associated to them
                     },
+                    Type::ObservationData if constell_str.is_empty() => {
+                        // blank is GPS, in old revisions
+                        constellation = Some(Constellation::GPS);
+                    },
                     _ => {
                         // any other
                         // regular files
-                        if let Ok(c) = Constellation::from_str(constell_str) {
+                        if let Ok(c) = parse_system(constell_str) {
                             constellation = Some(c);
                         }
                     },
-- 
2.43.0


From 81a8f7e99a9fd9e1b3af29a8c22eeb67409f8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 017/131] fix: crinex: compression follows the rules (missing
 signals, absent vehicles, clock, V1 epochs)

---
 src/hatanaka/compressor.rs | 45 +++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/hatanaka/compressor.rs b/src/hatanaka/compressor.rs
index c8d32b4..bf48163 100644
--- a/src/hatanaka/compressor.rs
+++ b/src/hatanaka/compressor.rs
@@ -5,7 +5,7 @@ use crate::{
     error::FormattingError,
     hatanaka::{NumDiff, TextDiff},
     observation::{HeaderFields, LliFlags, Record},
-    prelude::{Observable, SV},
+    prelude::{Constellation, Observable, SV},
     BufWriter,
 };
 
@@ -33,8 +33,8 @@ pub struct CompressorExpert<const M: usize> {
     /// Flag textdiff
     /// Compression kernels (per SV and signal)
     sv_kernels: HashMap<(SV, Observable), NumDiff<M>>,
-    // /// Clock [NumDiff]
-    // clock_diff: NumDiff<M>,
+    /// Clock kernel, while clock offsets are provided
+    clock_diff: Option<NumDiff<M>>,
 }
 
 impl<const M: usize> Default for CompressorExpert<M> {
@@ -47,6 +47,7 @@ impl<const M: usize> Default for CompressorExpert<M> {
             flags_buf: String::with_capacity(128),
             sv_kernels: HashMap::with_capacity(8),
             flags_diff: HashMap::with_capacity(8),
+            clock_diff: None,
         }
     }
 }
@@ -67,6 +68,13 @@ impl<const M: usize> CompressorExpert<M> {
                 self.epoch_compression = false;
             }
 
+            if !self.epoch_compression {
+                // everything restarts with a new epoch description
+                self.sv_kernels.clear();
+                self.flags_diff.clear();
+                self.clock_diff = None;
+            }
+
             let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(k.epoch);
 
             // form unique SV list
@@ -78,6 +86,10 @@ impl<const M: usize> CompressorExpert<M> {
                 .sorted()
                 .collect::<Vec<_>>();
 
+            // compression restarts when a vehicle comes back
+            self.sv_kernels.retain(|(sv, _), _| svnn.contains(sv));
+            self.flags_diff.retain(|sv, _| svnn.contains(sv));
+
             if !self.epoch_compression {
                 if self.v3 {
                     write!(w, "> ")?;
@@ -107,8 +119,8 @@ impl<const M: usize> CompressorExpert<M> {
                 ));
             } else {
                 self.epoch_buf.push_str(&format!(
-                    "{:02} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}      ",
-                    y,
+                    "{:02} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}",
+                    y.rem_euclid(100),
                     m,
                     d,
                     hh,
@@ -135,21 +147,33 @@ impl<const M: usize> CompressorExpert<M> {
             }
 
             if let Some(clk) = v.clock {
-                // TODO: clock is not correctly supported yet
-                if !self.epoch_compression {
-                    writeln!(w, "{}", clk.offset_s)?;
+                let scaling = if self.v3 { 1.0E12 } else { 1.0E9 };
+                let quantized = (clk.offset_s * scaling).round() as i64;
+
+                if let Some(kernel) = &mut self.clock_diff {
+                    writeln!(w, "{}", kernel.compress(quantized))?;
+                } else {
+                    self.clock_diff = Some(NumDiff::<M>::new(quantized, 3));
+                    writeln!(w, "{}&{}", 3, quantized)?;
                 }
             } else {
                 // No clock: BLANKed line
+                self.clock_diff = None;
                 write!(w, "\n")?;
             }
 
             // For each SV
             for sv in svnn.iter() {
                 // Following header specs
+                let constellation = if sv.constellation.is_sbas() {
+                    Constellation::SBAS
+                } else {
+                    sv.constellation
+                };
+
                 let observables = header
                     .codes
-                    .get(&sv.constellation)
+                    .get(&constellation)
                     .ok_or(FormattingError::MissingObservableDefinition)?;
 
                 for observable in observables.iter() {
@@ -191,7 +215,8 @@ impl<const M: usize> CompressorExpert<M> {
                             self.flags_buf.push_str(" ");
                         }
                     } else {
-                        // BLANK is a single ' '
+                        // BLANK is a single ' '. Compression restarts when signal comes back
+                        self.sv_kernels.remove(&(*sv, observable.clone()));
                         write!(w, "{}", ' ')?;
                         self.flags_buf.push_str("  ");
                     }
-- 
2.43.0


From 572a4ae01ddfc7342e281dfb9d55e390c2117dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:41 +0000
Subject: [PATCH 018/131] fix: crinex: decompression follows the rules (missing
 signals, absent vehicles, events, clock, any size)

---
 src/hatanaka/decompressor/mod.rs | 871 +++++++++++--------------------
 src/record/parsing.rs            |  37 +-
 2 files changed, 333 insertions(+), 575 deletions(-)

diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 102e8c7..6ca5a1e 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -38,6 +38,8 @@ pub enum State {
     Clock,
     /// Observations gathering and recovering.
     Observation,
+    /// Event content: forwarded as is.
+    Event,
 }
 
 impl State {
@@ -45,7 +47,6 @@ impl State {
     /// - Timestamp: Year uses 2 digits
     /// - Flag
     /// - Numsat
-    const MIN_COMPRESSED_EPOCH_SIZE_V1: usize = 17;
     const MIN_DECOMPRESSED_EPOCH_SIZE_V1: usize = 32;
 
     /// Minimal size of a valid [Epoch] description in V3 revision  
@@ -53,7 +54,6 @@ impl State {
     /// - Timestamp: Year uses 4 digits
     /// - Flag
     /// - Numsat
-    const MIN_COMPRESSED_EPOCH_SIZE_V3: usize = 20;
     const MIN_DECOMPRESSED_EPOCH_SIZE_V3: usize = 35;
 
     /// Calculates number of bytes this state will forward to user
@@ -101,6 +101,9 @@ impl State {
 pub struct DecompressorExpert<const M: usize> {
     /// Whether this is a V3 parser or not
     v3: bool,
+    /// V1: recovered text has a trailing blank line, after an epoch description that
+    /// entirely fills its last line, and after a vehicle which line stops on a value.
+    padding: bool,
     /// Constellation described by [Header]
     constellation: Constellation,
     /// Internal Finite [State] Machine.
@@ -108,53 +111,30 @@ pub struct DecompressorExpert<const M: usize> {
     /// For internal logic: remains true until one epoch descriptor has been recovered.
     first_epoch: bool,
     /// pointers
-    sv: SV,
-    numsat: usize,  // total
-    sv_ptr: usize,  // inside epoch
-    numobs: usize,  // total
-    obs_ptr: usize, // inside epoch
+    numsat: usize, // total (number of lines, in case of an event)
+    sv_ptr: usize, // inside epoch
+    numobs: usize, // total
+    /// [SV] of the current epoch, in order of appearance
+    sv: Vec<SV>,
     /// [TextDiff] that works on entire Epoch line
     epoch_diff: TextDiff,
     /// Epoch descriptor, for single allocation
     epoch_descriptor: String,
-    epoch_desc_len: usize, // for internal logic
-    /// Stored index of current BLANKS
-    /// for correct flags omition in this case
-    blanking_indexes: Vec<usize>,
-    /// Cleaned up flags buffer (single malloc)
-    flags_buf: String,
+    /// Recovered content, for single allocation
+    recovered: String,
     /// [TextDiff] for observation flags
     flags_diff: HashMap<SV, TextDiff>,
-    /// Clock offset differentiator
-    clock_diff: NumDiff<M>,
-    /// Observation differentiators
-    obs_diff: HashMap<(SV, usize), NumDiff<M>>,
+    /// Clock offset differentiator, while clock offsets are provided
+    clock_diff: Option<NumDiff<M>>,
+    /// Observation differentiators, for signals present in previous epoch
+    obs_diff: HashMap<(SV, usize), Option<NumDiff<M>>>,
     /// [Observable]s specs for each [Constellation]
     gnss_observables: HashMap<Constellation, Vec<Observable>>,
 }
 
 impl<const M: usize> Default for DecompressorExpert<M> {
     fn default() -> Self {
-        Self {
-            v3: true,
-            numsat: 0,
-            sv_ptr: 0,
-            numobs: 0,
-            obs_ptr: 0,
-            first_epoch: true,
-            epoch_desc_len: 0,
-            sv: Default::default(),
-            state: Default::default(),
-            constellation: Constellation::Mixed,
-            epoch_diff: TextDiff::new(""),
-            gnss_observables: HashMap::with_capacity(8), // cannot be initialized
-            obs_diff: HashMap::with_capacity(8),         // cannot initialize yet
-            flags_diff: HashMap::with_capacity(8),       // cannot initialize yet
-            epoch_descriptor: String::with_capacity(256),
-            blanking_indexes: Vec::with_capacity(32),
-            flags_buf: String::with_capacity(32),
-            clock_diff: NumDiff::<M>::new(0, M),
-        }
+        Self::new(true, Constellation::Mixed, HashMap::with_capacity(8))
     }
 }
 
@@ -179,37 +159,31 @@ impl<const M: usize> DecompressorExpert<M> {
         offset + sv_index * 3
     }
 
-    /// Returns next [SV]
-    fn next_sv(&self) -> Option<SV> {
-        let start = Self::sv_slice_start(self.v3, self.sv_ptr);
-        let end = (start + 3).min(self.epoch_desc_len);
+    /// Parses the i-th [SV] of recovered descriptor
+    fn parse_sv(&self, index: usize) -> Result<SV, Error> {
+        let start = Self::sv_slice_start(self.v3, index);
 
-        if let Ok(sv) = SV::from_str(&self.epoch_descriptor[start..end].trim()) {
-            Some(sv)
-        } else {
-            // May fail on old revisions that have a mono GNSS system
-            // that have tendency to omit the constellation description (leaving only the PRN#)
-            if !self.v3 {
-                match self.constellation {
-                    Constellation::Mixed => {
-                        None // incorrect description, will rapidly panic
-                    },
-                    constellation => {
-                        // PRN# parsing attempt
-                        if let Ok(prn) = &self.epoch_descriptor[start..end].trim().parse::<u8>() {
-                            Some(SV {
-                                prn: *prn,
-                                constellation,
-                            })
-                        } else {
-                            None // incorrect description, will rapidly panic
-                        }
-                    },
-                }
-            } else {
-                None
+        let slice = self
+            .epoch_descriptor
+            .get(start..start + 3)
+            .ok_or(Error::SVParsing)?;
+
+        if slice.starts_with(' ') {
+            // old revisions that have a mono GNSS system have
+            // tendency to omit the constellation description (leaving only the PRN#)
+            if self.v3 || self.constellation == Constellation::Mixed {
+                return Err(Error::SVParsing);
             }
+
+            let prn = slice.trim().parse::<u8>().or(Err(Error::SVParsing))?;
+
+            return Ok(SV {
+                prn,
+                constellation: self.constellation,
+            });
         }
+
+        SV::from_str(slice).or(Err(Error::SVParsing))
     }
 
     /// Macro to directly parse numsat from recovered descriptor
@@ -220,11 +194,43 @@ impl<const M: usize> DecompressorExpert<M> {
             Self::V1_NUMSAT_OFFSET
         };
 
-        if let Ok(numsat) = &self.epoch_descriptor[start..start + 3].trim().parse::<u8>() {
-            Some(*numsat as usize)
+        self.epoch_descriptor
+            .get(start..start + 3)?
+            .trim()
+            .parse::<usize>()
+            .ok()
+    }
+
+    /// True if recovered descriptor announces an event: lines that are not compressed.
+    fn is_event(&self) -> bool {
+        let offset = if self.v3 {
+            Self::V3_NUMSAT_OFFSET - 1
         } else {
-            None
-        }
+            Self::V1_NUMSAT_OFFSET - 1
+        };
+
+        matches!(
+            self.epoch_descriptor.as_bytes().get(offset),
+            Some(b'2'..=b'5')
+        )
+    }
+
+    /// True when following lines describe an event: they are not compressed.
+    pub(crate) fn inside_event(&self) -> bool {
+        self.state == State::Event
+    }
+
+    /// Total number of bytes next line may produce
+    fn size_to_produce(&self) -> usize {
+        let size = match (self.state, self.v3) {
+            (State::Clock, true) => State::MIN_DECOMPRESSED_EPOCH_SIZE_V3 + 21,
+            (State::Clock, false) => 82 + (self.numsat / 12) * 69,
+            (State::Observation, false) => self.numobs * 16 + self.numobs / 5,
+            _ => 0,
+        };
+        self.state
+            .size_to_produce(self.v3, self.numsat.max(1), self.numobs.max(1))
+            .max(size)
     }
 
     /// Builds new CRINEX decompressor.
@@ -242,23 +248,27 @@ impl<const M: usize> DecompressorExpert<M> {
             numsat: 0,
             sv_ptr: 0,
             numobs: 0,
-            obs_ptr: 0,
             constellation,
             gnss_observables,
+            padding: true,
             first_epoch: true,
-            epoch_desc_len: 0,
-            sv: Default::default(),
+            clock_diff: None,
             state: Default::default(),
+            sv: Vec::with_capacity(24),
             epoch_diff: TextDiff::new(""),
-            obs_diff: HashMap::with_capacity(8), // cannot initialize yet
-            flags_diff: HashMap::with_capacity(8), // cannot initialize yet
-            blanking_indexes: Vec::with_capacity(32),
-            flags_buf: String::with_capacity(32),
+            obs_diff: HashMap::with_capacity(8), // cannot be initialized yet
+            flags_diff: HashMap::with_capacity(8), // cannot be initialized yet
+            recovered: String::with_capacity(256),
             epoch_descriptor: String::with_capacity(256),
-            clock_diff: NumDiff::<M>::new(0, M),
         }
     }
 
+    /// Recovered text is strict RINEX: no blank lines added to V1 content.
+    pub(crate) fn without_padding(mut self) -> Self {
+        self.padding = false;
+        self
+    }
+
     /// Decompresses following line and pushes recovered content into buffer.
     /// Inputs
     ///  - line: trimed line (no \n termination), which is consistent with
@@ -278,578 +288,312 @@ impl<const M: usize> DecompressorExpert<M> {
         buf: &mut [u8],
         size: usize,
     ) -> Result<usize, Error> {
-        if size
-            < self
-                .state
-                .size_to_produce(self.v3, self.numsat, self.numobs)
-        {
+        if size < self.size_to_produce() {
             return Err(Error::BufferOverflow);
         }
 
-        // println!("STATE={:?}", self.state); //DEBUG
+        if !line.is_ascii() {
+            return Err(Error::EpochFormat);
+        }
+
+        let line = line[..len].trim_end_matches(['\r', '\n']);
+
+        self.recovered.clear();
+
         match self.state {
-            State::Epoch => self.run_epoch(line, len),
-            State::Clock => self.run_clock(line, len, buf),
-            State::Observation => self.run_observation(line, len, buf),
+            State::Epoch => self.run_epoch(line)?,
+            State::Clock => self.run_clock(line)?,
+            State::Observation => return self.run_observation(line, buf),
+            State::Event => self.run_event(line),
         }
+
+        let produced = self.recovered.len();
+        buf.get_mut(..produced)
+            .ok_or(Error::BufferOverflow)?
+            .copy_from_slice(self.recovered.as_bytes());
+
+        Ok(produced)
+    }
+
+    /// Forgets about everything that was recovered previously
+    fn reset(&mut self) {
+        self.sv.clear();
+        self.obs_diff.clear();
+        self.flags_diff.clear();
+        self.clock_diff = None;
     }
 
     /// Process following line, in [State::Epoch]
-    fn run_epoch(&mut self, line: &str, len: usize) -> Result<usize, Error> {
-        let min_len = if self.v3 {
-            State::MIN_COMPRESSED_EPOCH_SIZE_V3
-        } else {
-            State::MIN_COMPRESSED_EPOCH_SIZE_V1
+    fn run_epoch(&mut self, line: &str) -> Result<(), Error> {
+        let reinit = match line.as_bytes().first() {
+            Some(b'&') => {
+                if self.v3 {
+                    return Err(Error::BadV3Format);
+                }
+                true
+            },
+            Some(b'>') => {
+                if !self.v3 {
+                    return Err(Error::BadV1Format);
+                }
+                true
+            },
+            Some(_) => false,
+            None => return Err(Error::EpochFormat),
         };
 
-        if len < min_len {
-            return Err(Error::EpochFormat);
-        }
+        let content = line[1..].trim_end();
 
-        let trimmed = &line[1..].trim_end();
-        if line.starts_with('&') {
-            if self.v3 {
-                return Err(Error::BadV3Format);
+        if reinit {
+            self.epoch_diff.force_init(content);
+            self.epoch_descriptor = content.to_string();
+        } else {
+            if self.first_epoch {
+                return Err(Error::EpochFormat); // nothing to refer to
             }
+            self.epoch_descriptor = self.epoch_diff.decompress(content).trim_end().to_string();
+        }
 
-            self.epoch_diff.force_init(trimmed);
-            self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
-        } else if line.starts_with('>') {
-            if !self.v3 {
-                return Err(Error::BadV1Format);
+        // numsat needs to be recovered right away,
+        // because it is used to determine the next production size
+        self.numsat = self.epoch_numsat().ok_or(Error::EpochFormat)?;
+        self.sv_ptr = 0;
+
+        if self.is_event() {
+            self.reset();
+            self.first_epoch = true;
+
+            self.recovered.push(if self.v3 { '>' } else { ' ' });
+            self.recovered.push_str(&self.epoch_descriptor);
+
+            if self.numsat > 0 {
+                self.state = State::Event;
             }
 
-            self.epoch_diff.force_init(trimmed);
-            self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
-        } else {
-            self.epoch_descriptor = self.epoch_diff.decompress(trimmed).to_string();
-            self.epoch_desc_len = self.epoch_descriptor.len();
+            return Ok(());
         }
 
-        // println!(
-        //     "RECOVERED \"{}\" [{}]",
-        //     self.epoch_descriptor, self.epoch_desc_len
-        // ); // DEBUG
+        let mut sv = Vec::with_capacity(self.numsat);
 
-        // numsat needs to be recovered right away,
-        // because it is used to determine the next production size
-        self.numsat = self.epoch_numsat().expect("bad recovered content (numsat)");
+        for i in 0..self.numsat {
+            sv.push(self.parse_sv(i)?);
+        }
+
+        if reinit {
+            self.reset();
+        } else {
+            // compression restarts when a vehicle comes back
+            self.obs_diff.retain(|(k, _), _| self.sv.contains(k));
+            self.flags_diff.retain(|k, _| self.sv.contains(k));
+        }
 
+        self.sv = sv;
+        self.first_epoch = false;
         self.state = State::Clock;
-        Ok(0)
+        Ok(())
     }
 
-    /// Fills user buffer with recovered epoch, following either V1 or V3 standards
-    fn format_epoch(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
-        if self.v3 {
-            self.format_epoch_v3(clock_data, buf)
+    /// Process following line, in [State::Event]
+    fn run_event(&mut self, line: &str) {
+        self.recovered.push_str(line);
+        self.numsat -= 1;
+
+        if self.numsat == 0 {
+            self.state = State::Epoch;
+        }
+    }
+
+    /// Recovers next value of this kernel. An empty field stops the kernel,
+    /// until it is explicitly restarted.
+    fn recover(kernel: &mut Option<NumDiff<M>>, field: &str) -> Option<i64> {
+        if let Some((order, value)) = field.split_once('&') {
+            // kernel reset
+            let mut recovered = None;
+            *kernel = match (order.parse::<usize>(), value.parse::<i64>()) {
+                (Ok(order), Ok(value)) if order <= M => {
+                    recovered = Some(value);
+                    Some(NumDiff::<M>::new(value, order))
+                },
+                _ => None,
+            };
+            recovered
         } else {
-            self.format_epoch_v1(clock_data, buf)
+            match (kernel.as_mut(), field.parse::<i64>()) {
+                (Some(kernel), Ok(value)) => Some(kernel.decompress(value)),
+                _ => {
+                    *kernel = None;
+                    None
+                },
+            }
         }
     }
 
-    /// Fills user buffer with recovered epoch, following V3 standards
-    fn format_epoch_v3(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
+    /// Recovers epoch description, following V3 standards
+    fn format_epoch_v3(&mut self, clock_data: Option<i64>) {
         // V3 format is much simpler
         // all we need to do is extract SV `XXY` to append in each following lines
-
-        let mut produced = 0;
-        buf[produced] = b'>'; // special marker
-        produced += 1;
-
-        let bytes = self.epoch_descriptor.as_bytes();
+        self.recovered.push('>'); // special marker
 
         // push timestamp +flag
-        buf[produced..produced + 34].copy_from_slice(&bytes[..34]);
-        produced += 34;
+        self.recovered.push_str(&self.epoch_descriptor[..34]);
 
         // provide clock data, if any
         if let Some(clock_data) = clock_data {
-            let value = clock_data as f64 / 1000.0;
-            let formatted = format!("       {:.12}", value);
-            let fmt_len = formatted.len(); // TODO improve: this is constant
-            let bytes = formatted.as_bytes();
-            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-            produced += fmt_len; // TODO improve: this is constant
+            let (sign, value) = (if clock_data < 0 { "-" } else { "" }, clock_data.unsigned_abs());
+            let formatted = format!(
+                "{}{}.{:012}",
+                sign,
+                value / 1_000_000_000_000,
+                value % 1_000_000_000_000
+            );
+            self.recovered.push_str(&format!("      {:>15}", formatted));
         }
-
-        produced
     }
 
-    /// Fills user buffer with recovered epoch, following V1 standards
-    fn format_epoch_v1(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
-        let mut produced = 0;
-
-        buf[produced] = b' '; // single whitespace
-        produced += 1;
-
-        let bytes = self.epoch_descriptor.as_bytes();
+    /// Recovers epoch description, following V1 standards
+    fn format_epoch_v1(&mut self, clock_data: Option<i64>) {
+        self.recovered.push(' '); // single whitespace
 
         // push first line (up to 68 bytes)
-        let first_len = self.epoch_desc_len.min(67);
+        let desc_len = self.epoch_descriptor.len();
+        let first_len = desc_len.min(67);
 
-        buf[produced..produced + first_len].copy_from_slice(&bytes[..first_len]);
-        produced += first_len;
+        self.recovered.push_str(&self.epoch_descriptor[..first_len]);
 
         // push clock offset (if any)
         if let Some(clock_data) = clock_data {
-            let formatted_ck = format!(" {:15.12}", clock_data);
-            let fmt_len = formatted_ck.len(); // TODO: improve (constant)
-            let formatted_ck = formatted_ck.as_bytes();
-            buf[produced..produced + fmt_len].copy_from_slice(&formatted_ck);
-            produced += fmt_len;
+            let (sign, value) = (if clock_data < 0 { "-" } else { "" }, clock_data.unsigned_abs());
+            let formatted = format!(
+                "{}{}.{:09}",
+                sign,
+                value / 1_000_000_000,
+                value % 1_000_000_000
+            );
+            let padding = 67 - first_len;
+            self.recovered
+                .push_str(&format!("{:padding$}{:>12}", "", formatted));
         }
 
-        buf[produced] = b'\n'; // conclude 1st line
-        produced += 1;
+        self.recovered.push('\n'); // conclude 1st line
 
         // construct all following lines that need to be wrapped and padded
         let mut offset = 67;
-        let nb_extra = (self.epoch_desc_len - Self::V1_NUMSAT_OFFSET) / 36;
-
-        for _ in 0..nb_extra {
-            // extra padding
-            buf[produced..produced + 32].copy_from_slice(&[
-                b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
-                b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
-                b' ', b' ', b' ', b' ',
-            ]);
-
-            produced += 32;
 
-            // copy data slice
-            let end = (offset + 36).min(self.epoch_desc_len);
-            let size = end - offset;
+        while offset < desc_len || (self.padding && offset == desc_len) {
+            let end = (offset + 36).min(desc_len);
 
-            buf[produced..produced + size].copy_from_slice(&bytes[offset..end]);
+            self.recovered.push_str(&format!("{:32}", ""));
+            self.recovered.push_str(&self.epoch_descriptor[offset..end]);
+            self.recovered.push('\n');
 
-            offset += size;
-            produced += size;
-
-            // terminate this line
-            buf[produced] = b'\n';
-            produced += 1;
+            offset += 36;
         }
-
-        produced
     }
 
     /// Process following line, in [State::Clock]
-    fn run_clock(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
-        let mut clock_data = Option::<i64>::None;
-
-        // attempts to recover clock data (if it exists)
-        if len > 2 {
-            if line[1..].starts_with('&') {
-                if let Ok(order) = line[..1].parse::<usize>() {
-                    if let Ok(val) = line[2..].parse::<i64>() {
-                        // valid kernel reset
-                        self.clock_diff.force_init(val, order);
-                        clock_data = Some(val);
-                    }
-                }
-            }
-        }
-        if len == 1 {
-            // highly compressed clock data
-            match line.trim().parse::<i64>() {
-                Ok(val) => {
-                    let val = self.clock_diff.decompress(val);
-                    clock_data = Some(val);
-                },
-                Err(_) => {},
-            }
-        }
+    fn run_clock(&mut self, line: &str) -> Result<(), Error> {
+        let clock_data = Self::recover(&mut self.clock_diff, line.trim_end());
 
         // now that we have potentially recovered clock data
         // we can format the complete epoch description
-        let produced = self.format_epoch(clock_data, buf);
-
-        // prepare for observation state
-        self.obs_ptr = 0;
-        self.sv_ptr = 0;
-        self.first_epoch = false;
+        if self.v3 {
+            self.format_epoch_v3(clock_data);
+        } else {
+            self.format_epoch_v1(clock_data);
+        }
 
-        // grab first sv
-        self.sv = self.next_sv().expect("bad recovered content (sv)");
+        self.next_state()
+    }
 
-        // cross check recovered content
-        // &, at the same time, make sure we are ready to process any new SV
-        for i in 0..self.numsat {
-            let start = Self::sv_slice_start(self.v3, i);
-
-            // any invalid SV description, will cause us to wait for a new epoch.
-            // In other terms, epoch is fully disregarded.
-            let sv = match SV::from_str(&self.epoch_descriptor[start..start + 3]) {
-                Ok(sv) => sv,
-                Err(_) => {
-                    // SV parsing may be in failure in case of very old V1 CRINEX mono GNSS
-                    // that omit the constellation
-                    if !self.v3 {
-                        if let Ok(prn) = &self.epoch_descriptor[start + 1..start + 3]
-                            .trim()
-                            .parse::<u8>()
-                        {
-                            SV {
-                                prn: *prn,
-                                constellation: self.constellation,
-                            }
-                        } else {
-                            return Err(Error::SVParsing);
-                        }
-                    } else {
-                        return Err(Error::SVParsing);
-                    }
-                },
-            };
+    /// Prepares for next vehicle, or next epoch
+    fn next_state(&mut self) -> Result<(), Error> {
+        if self.sv_ptr == self.numsat {
+            self.state = State::Epoch;
+        } else {
+            self.numobs = self
+                .get_observables(&self.sv[self.sv_ptr].constellation)
+                .ok_or(Error::SVParsing)?
+                .len();
 
-            // initialize on first encounter
-            if self.flags_diff.get(&sv).is_none() {
-                // initializes the internal buffer with some capacity..
-                let textdiff = TextDiff::new("               ");
-                self.flags_diff.insert(sv, textdiff);
-            }
+            self.state = State::Observation;
         }
-
-        let obs = self
-            .get_observables(&self.sv.constellation)
-            .expect("failed to determine sv definition");
-
-        self.numobs = obs.len();
-        self.state = State::Observation;
-        Ok(produced)
+        Ok(())
     }
 
     /// Process following line, in [State::Observation]
-    fn run_observation(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
-        let mut consumed = 0;
-        let mut produced = 0;
-        let mut new_state = self.state;
+    fn run_observation(&mut self, line: &str, buf: &mut [u8]) -> Result<usize, Error> {
+        let sv = self.sv[self.sv_ptr];
+        let mut remainder = line;
 
-        self.blanking_indexes.clear(); // new run
+        // true when line stops on a value
+        let mut truncated = false;
 
-        // println!("[{}] LINE \"{}\"", self.sv, line); // DEBUG
+        // flags are text compressed: flags of the observations
+        // that are missing should not show up.
+        let mut blanking_indexes = Vec::with_capacity(self.numobs);
 
         if self.v3 {
             // prepend SVNN identity
             let start = Self::sv_slice_start(true, self.sv_ptr);
-            let end = (start + 3).min(self.epoch_desc_len);
-            let bytes = self.epoch_descriptor.as_bytes();
-            buf[..3].copy_from_slice(&bytes[start..end]);
-            produced += 3;
+            self.recovered
+                .push_str(&self.epoch_descriptor[start..start + 3]);
         }
 
-        // Retrieving observations is complex.
-        // When signal sampling was not feasible: data is omitted (blanked) by a single '_'
-        // Which is not particularly clever and means the data flags can only provided at the end of the line.
-        // Since data flags are text compressed, it can create some weird situations.
+        // Observations are separated by a single '_'.
+        // When signal sampling was not feasible, data is omitted.
         for ptr in 0..self.numobs {
-            // We must output something for each expected data points (whatever happens).
-            // So we default to a BLANK, which simplifies the following code:
-            // we only implement successful cases.
-            let mut formatted = "                ".to_string();
-
-            // Try to locate next '_', which is either
-            //  . normal/expected line progression
-            //  . or a blanking
-            let offset = line[consumed..].find(' ');
-
-            if let Some(offset) = offset {
-                if offset > 1 {
-                    // observation (made of at least two digits)
-                    // Determine whether this is a kernel reset or compression continuation
-
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    consumed += offset + 1; // consume until this point
-                } else {
-                    // this is either BLANK or highly compressed (=single digit value)
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    if slice.len() > 0 {
-                        // this is a digit (highly compressed value)
-
-                        //#[cfg(feature = "log")]
-                        //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                        consumed += 2; // consume this byte
-                    } else {
-                        consumed += 1;
-                        self.blanking_indexes.push(ptr);
-                    }
-                }
-
-                let fmt_len = formatted.len(); // TODO: improve, this is constant
-                let bytes = formatted.as_bytes();
-
-                // push into user
-                buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                produced += fmt_len;
+            let field;
+            truncated |= !remainder.is_empty() && !remainder.contains(' ');
+            (field, remainder) = remainder.split_once(' ').unwrap_or((remainder, ""));
 
-                // handle V1 padding and wrapping
-                if !self.v3 {
-                    if (ptr % 5) == 4 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n".to_string();
-                        let bytes = formatted.as_bytes();
-                        let fmt_len = formatted.len();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
+            let kernel = self.obs_diff.entry((sv, ptr)).or_insert(None);
 
-                // this may cause trimed lines to panic on next '_' search
-                // so we exist the loop so we do not overflow
-                if consumed >= len {
-                    break;
-                }
+            if let Some(value) = Self::recover(kernel, field) {
+                self.recovered
+                    .push_str(&format!("{:14.3}  ", value as f64 / 1000.0));
             } else {
-                // early line termination.
-                // This happens when last observations are all missing (possibly more than one)
-                // and observation "flags" are all fully compressed (100% compression factor)
-
-                // if we have leftovers, that means we have one last observation
-                if len > consumed {
-                    let mut formatted = "                ".to_string();
-
-                    // grab slice
-                    let slice = line[consumed..].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    let fmt_len = formatted.len(); // TODO: improve, this is constant
-                    let bytes = formatted.as_bytes();
-
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n                 ".to_string();
-                        let fmt_len = formatted.len();
-                        let bytes = formatted.as_bytes();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
-
-                // 1. we need to push all required BLANKING
-                // 2. we need to preserve data flags
-                // 3. and finally conclude this SV
-                let nb_missing = self.numobs - ptr - 1;
-
-                let formatted = "                ".to_string();
-                let fmt_len = formatted.len(); // IMPROVE: this is constant
-                let bytes = formatted.as_bytes();
-
-                // fill required nb of blanks
-                for j in 0..nb_missing {
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        if (ptr + j) % 5 == 4 {
-                            // TODO: improve, this is constant
-                            let formatted = "\n            ".to_string();
-                            let fmt_len = formatted.len();
-                            let bytes = formatted.as_bytes();
-
-                            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                            produced += fmt_len;
-                        }
-                    }
-                }
-
-                // trick to preserve data flags
-                let textdiff = self
-                    .flags_diff
-                    .get_mut(&self.sv)
-                    .expect("internal error: bad crinex content?");
-
-                let flags = textdiff.decompress("").trim_end();
-                let flags_len = flags.len();
-
-                //println!("PRESERVED \"{}\"", flags); // DEBUG
-                Self::write_flags(flags, flags_len, self.numobs, self.v3, buf);
-
-                // conclude this SV
-                self.sv_ptr += 1;
-
-                //#[cfg(feature = "log")]
-                //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
-
-                if self.sv_ptr == self.numsat {
-                    //#[cfg(feature = "log")]
-                    //debug!("[END OF EPOCH]");
-
-                    self.state = State::Epoch;
-                } else {
-                    self.sv = self.next_sv().expect("failed to determine next sv");
-
-                    let constellation = if self.sv.constellation.is_sbas() {
-                        Constellation::SBAS
-                    } else {
-                        self.sv.constellation
-                    };
-
-                    self.numobs = self
-                        .get_observables(&constellation)
-                        .expect("internal error")
-                        .len();
-
-                    self.state = State::Observation;
-                }
-
-                return Ok(produced);
+                blanking_indexes.push(ptr);
+                self.recovered.push_str(&format!("{:16}", ""));
             }
-        } // for
-
-        // at this point, we should be left with "data flags" in the buffer.
-        // That may not be the case. We may have consumed everything when
-        // the line was trimmed at production time, meaning flags should be preserved
-
-        if consumed < len {
-            // proceed to flags recovering
-            let flags = &line[consumed..].trim_end();
-
-            // println!("FLAGS \"{}\"", flags); // DEBUG
-
-            let kernel = self.flags_diff.get_mut(&self.sv).expect("internal error");
-
-            let flags = kernel.decompress(flags);
-            let flags_len = flags.len();
 
-            self.flags_buf = flags.to_string();
-
-            // blank flags for which observation is blanked
-            // otherwise, .decompress("") will return past value
-            for index in &self.blanking_indexes {
-                if flags_len > (index * 2) {
-                    self.flags_buf
-                        .replace_range(2 * index..(2 * index + 1), " ");
-                }
-                if flags_len > index * 2 + 1 {
-                    self.flags_buf
-                        .replace_range(2 * index + 1..(2 * index + 2), " ");
-                }
+            // V1 wrapping
+            if !self.v3 && ptr % 5 == 4 && ptr + 1 < self.numobs {
+                self.recovered.push('\n');
             }
+        }
 
-            // update len
-            let flags_len = self.flags_buf.len();
-
-            // copy all flags to user
-            // println!(
-            //     "RECOVERED \"{}\" (len={},numobs={})",
-            //     &self.flags_buf, flags_len, self.numobs
-            // ); // DEBUG
+        if !self.v3 && self.padding && truncated {
+            self.recovered.push_str("\n ");
+        }
 
-            Self::write_flags(&self.flags_buf, flags_len, self.numobs, self.v3, buf);
+        let produced = self.recovered.len();
+        buf.get_mut(..produced)
+            .ok_or(Error::BufferOverflow)?
+            .copy_from_slice(self.recovered.as_bytes());
+
+        // proceed to flags recovering
+        let mut flags = self
+            .flags_diff
+            .entry(sv)
+            .or_default()
+            .decompress(remainder.trim_end())
+            .to_string();
+
+        flags.truncate(self.numobs * 2);
+
+        for index in blanking_indexes {
+            let end = flags.len().min(2 * index + 2);
+            if 2 * index < end {
+                flags.replace_range(2 * index..end, &"  "[..end - 2 * index]);
+            }
         }
 
-        self.obs_ptr = 0;
+        Self::write_flags(&flags, flags.len(), self.numobs, self.v3, buf);
 
         // move on to next state
         self.sv_ptr += 1;
+        self.next_state()?;
 
-        //#[cfg(feature = "log")]
-        //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
-
-        if self.sv_ptr == self.numsat {
-            //#[cfg(feature = "log")]
-            //debug!("[END OF EPOCH]");
-
-            new_state = State::Epoch;
-        } else {
-            self.sv = self.next_sv().expect("failed to determine next sv");
-
-            let constellation = if self.sv.constellation.is_sbas() {
-                Constellation::SBAS
-            } else {
-                self.sv.constellation
-            };
-
-            self.numobs = self
-                .get_observables(&constellation)
-                .expect("internal error")
-                .len();
-        }
-
-        self.state = new_state;
         Ok(produced)
     }
 
@@ -858,6 +602,9 @@ impl<const M: usize> DecompressorExpert<M> {
         // We use mixed to store a single value for single definitions
         if let Some(mixed) = self.gnss_observables.get(&Constellation::Mixed) {
             Some(mixed)
+        } else if constell.is_sbas() {
+            // header describes all augmentations at once
+            self.gnss_observables.get(&Constellation::SBAS)
         } else {
             self.gnss_observables.get(constell)
         }
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 84b5e9d..401bdc6 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -83,7 +83,7 @@ impl Record {
         let mut observations = Observations::default();
 
         // CRINEX case
-        const CRINEX_BUF_SIZE: usize = 1024;
+        const CRINEX_BUF_SIZE: usize = 32768;
         let mut buf = [0; CRINEX_BUF_SIZE];
 
         let mut is_crinex = false;
@@ -104,7 +104,8 @@ impl Record {
             crinex_v3,
             header.constellation.unwrap_or_default(),
             gnss_observables,
-        );
+        )
+        .without_padding();
 
         // MET
         let mut met_rec = MeteoRecord::new();
@@ -193,7 +194,8 @@ impl Record {
             }
 
             // (special case) COMMENTS: store as is
-            if is_rinex_comment(&line_buf) {
+            // CRINEX: comments inside an event are part of it
+            if is_rinex_comment(&line_buf) && !(is_crinex && decompressor.inside_event()) {
                 let comment = line_buf.split_at(60).0.trim_end();
                 comment_content.push(comment.to_string());
 
@@ -243,26 +245,35 @@ impl Record {
             // CRINEX special case:
             // - apply decompression algorithm prior moving forward
             // - decompress new pending line, which may recover several lines (in old V1 format)
-            if is_crinex {
+            if is_crinex && !eos {
                 let line_len = line_buf.len();
 
                 // catch errors nicely, simply log them
                 // it is normal to abort on final line for example
                 match decompressor.decompress(&line_buf, line_len, &mut buf, CRINEX_BUF_SIZE) {
                     Ok(size) => {
-                        if size > 0 {
-                            // clear and overwrite pending content with recovered content
-                            // we should have valid ASCII UTF-8 at all times, at this point
-                            let recovered =
-                                from_utf8(&buf[..size]).map_err(|_| ParsingError::BadUtf8Crinex)?;
-
-                            line_buf.clear();
-                            line_buf = recovered.to_string();
+                        // clear and overwrite pending content with recovered content
+                        // we should have valid ASCII UTF-8 at all times, at this point
+                        let recovered =
+                            from_utf8(&buf[..size]).map_err(|_| ParsingError::BadUtf8Crinex)?;
+
+                        line_buf.clear();
+
+                        if size == 0 {
+                            // nothing to forward yet
+                            continue;
+                        }
+
+                        line_buf.push_str(recovered);
+
+                        if !recovered.ends_with('\n') {
                             line_buf.push('\n');
                         }
                     },
                     Err(_) => {
+                        // content may not be recovered past this point
                         crinex_error = true;
+                        line_buf.clear();
                     },
                 }
             }
@@ -275,7 +286,7 @@ impl Record {
                 new_epoch = Self::is_new_epoch(&line_buf, &header);
 
                 // trick to force attempt on last iteration
-                new_epoch |= eos;
+                new_epoch |= eos || crinex_error;
 
                 if new_epoch {
                     // new epoch appearing: process what we have buffered
-- 
2.43.0


From e33ab7220152d1f57292288a4bc06846930ba6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:09 +0000
Subject: [PATCH 019/131] fix: meteo: continuation lines and short lines are
 read

---
 src/meteo/parsing.rs | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/meteo/parsing.rs b/src/meteo/parsing.rs
index da97c91..ae3d938 100644
--- a/src/meteo/parsing.rs
+++ b/src/meteo/parsing.rs
@@ -11,6 +11,10 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
             // minimum epoch descriptor
             return false;
         }
+        if line[..3].trim().is_empty() {
+            // continuation line
+            return false;
+        }
         let datestr = &line[1..min_len.len()];
         parse_utc_epoch(datestr).is_ok() // valid epoch descriptor
     } else {
@@ -19,6 +23,10 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
             // minimum epoch descriptor
             return false;
         }
+        if line[..4].trim().is_empty() {
+            // continuation line
+            return false;
+        }
         let datestr = &line[1..min_len.len()];
         parse_utc_epoch(datestr).is_ok() // valid epoch descriptor
     }
@@ -27,9 +35,14 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
 /// Parses record entries from readable content
 /// ## Input
 ///   - header: [Header] parsed previously
-///   - content: readable content
-pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
-    let line_len = line.len();
+///   - content: readable content: first line and possible continuation lines
+pub fn parse_epoch(header: &Header, content: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
+    // up to 8 values follow the epoch descriptor,
+    // up to 10 values are found on each continuation line
+    const FIRST_LINE_VALUES: usize = 8;
+    const NEXT_LINE_VALUES: usize = 10;
+    const NEXT_LINE_OFFSET: usize = 4;
+
     let mut ret = Vec::<(MeteoKey, f64)>::with_capacity(8);
 
     let mut offset: usize = 18; // YY
@@ -37,19 +50,30 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
         offset += 2; // YYYY
     }
 
-    let epoch = parse_utc_epoch(&line[0..offset])?;
+    let mut lines = content.lines();
+    let mut line = lines.next().unwrap_or_default();
+
+    let epoch = parse_utc_epoch(line.get(..offset).ok_or(ParsingError::EpochFormat)?)?;
 
     let header = &header
         .meteo
         .as_ref()
         .ok_or(ParsingError::MissingObservableDefinition)?;
 
-    let codes = &header.codes;
+    let mut remaining = FIRST_LINE_VALUES;
 
     // parse all remaining fields
-    for code in codes.iter() {
-        let end = (offset + 7).min(line_len - 1);
-        let slice = &line[offset..end];
+    for code in header.codes.iter() {
+        if remaining == 0 {
+            line = lines.next().unwrap_or_default();
+            offset = NEXT_LINE_OFFSET;
+            remaining = NEXT_LINE_VALUES;
+        }
+
+        // trailing blanks may have been omitted
+        let end = (offset + 7).min(line.len());
+        let slice = line.get(offset..end).unwrap_or_default();
+
         if let Ok(value) = slice.trim().parse::<f64>() {
             ret.push((
                 MeteoKey {
@@ -59,7 +83,9 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
                 value,
             ));
         }
+
         offset += 7;
+        remaining -= 1;
     }
     Ok(ret)
 }
-- 
2.43.0


From 07c3a3bdd661269d6390b423e28115d8ede99bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:09 +0000
Subject: [PATCH 020/131] fix: meteo: missing samples are 7 blanks, lines hold
 8 then 10 values

---
 src/meteo/formatting.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/meteo/formatting.rs b/src/meteo/formatting.rs
index 5daec45..5fc2d04 100644
--- a/src/meteo/formatting.rs
+++ b/src/meteo/formatting.rs
@@ -14,6 +14,11 @@ pub fn format<W: Write>(
     record: &Record,
     header: &Header,
 ) -> Result<(), FormattingError> {
+    // up to 8 values follow the epoch descriptor,
+    // up to 10 values are found on each continuation line
+    const FIRST_LINE_VALUES: usize = 8;
+    const NEXT_LINE_VALUES: usize = 10;
+
     let observables = &header
         .meteo
         .as_ref()
@@ -27,7 +32,11 @@ pub fn format<W: Write>(
         )?;
 
         // follow header definitions
-        for observable in observables.codes.iter() {
+        for (nth, observable) in observables.codes.iter().enumerate() {
+            if nth >= FIRST_LINE_VALUES && (nth - FIRST_LINE_VALUES) % NEXT_LINE_VALUES == 0 {
+                write!(w, "\n    ")?;
+            }
+
             let key = MeteoKey {
                 epoch,
                 observable: observable.clone(),
@@ -36,7 +45,7 @@ pub fn format<W: Write>(
             if let Some(observation) = record.get(&key) {
                 write!(w, "{:7.1}", observation)?;
             } else {
-                write!(w, "           ")?;
+                write!(w, "       ")?;
             }
         }
         write!(w, "{}", '\n')?;
-- 
2.43.0


From bbe16353443405ce8a0e6bb770e1270f6202fe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:58 +0000
Subject: [PATCH 021/131] fix: navigation: position in the line determines the
 orbit field

---
 src/navigation/ephemeris/parsing.rs | 64 +++++++++--------------------
 1 file changed, 20 insertions(+), 44 deletions(-)

diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 6729d82..9c2a2d4 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -34,70 +34,46 @@ fn parse_orbits(
 
     let fields = &nav_standards.items;
 
-    let mut key_index: usize = 0;
-    let word_size: usize = 19;
-    let mut map: HashMap<String, OrbitItem> = HashMap::new();
-
-    for line in lines {
-        // trim first few white spaces
-        let mut line: &str = match version.major < 3 {
-            true => &line[3..],
-            false => &line[4..],
-        };
+    const NUM_WORDS_PER_LINE: usize = 4;
+    const WORD_SIZE: usize = 19;
 
-        let mut nb_missing = 4 - (line.len() / word_size);
-        // println!("LINE \"{}\" | NB MISSING {}", line, nb_missing); //DEBUG
+    // leading white spaces
+    let offset: usize = match version.major < 3 {
+        true => 3,
+        false => 4,
+    };
 
-        loop {
-            if line.is_empty() {
-                key_index += nb_missing;
-                break;
-            }
+    let mut map: HashMap<String, OrbitItem> = HashMap::new();
 
-            let (content, rem) = line.split_at(std::cmp::min(word_size, line.len()));
-            let content = content.trim();
-            // println!("CONTENT \"{}\"", content); // DEBUG
+    for (nth_line, line) in lines.enumerate() {
+        for nth_word in 0..NUM_WORDS_PER_LINE {
+            // position in line fully determines the field.
+            // Trailing blanks may have been omitted.
+            let start = offset + nth_word * WORD_SIZE;
+            let end = (start + WORD_SIZE).min(line.len());
+            let content = line.get(start..end).unwrap_or_default().trim();
 
-            // handle omitted fields
+            // omitted field
             if content.is_empty() {
-                // omitted field
-                key_index += 1;
-                nb_missing = nb_missing.saturating_sub(1);
-                line = rem;
                 continue;
             }
 
             // zeros mean unresolved/unknown fields
-            if content.starts_with("0.000000000000E+00") {
-                line = rem;
-                key_index += 1;
+            if content.starts_with("0.000000000000E+00")
+                || content.starts_with("0.000000000000D+00")
+            {
                 continue;
             }
 
-            // zeros mean unresolved/unknown fields
-            if content.starts_with("0.000000000000D+00") {
-                line = rem;
-                key_index += 1;
-                continue;
-            }
+            let key_index = nth_line * NUM_WORDS_PER_LINE + nth_word;
 
             if let Some((key, token)) = fields.get(key_index) {
-                //println!(
-                //    "Key \"{}\"(index: {}) | Token \"{}\" | Content \"{}\"",
-                //    key,
-                //    key_index,
-                //    token,
-                //    content.trim()
-                //); //DEBUG
                 if !key.contains("spare") {
                     if let Ok(item) = OrbitItem::new(token, content, constell) {
-                        // println!("found key=\"{}\" (type={}) value=\"{}\"", key, token, content); // DEBUG
                         map.insert(key.to_string(), item);
                     }
                 }
             }
-            key_index += 1;
-            line = rem;
         }
     }
     Ok(map)
-- 
2.43.0


From d84f62a3afac69ad06d64d6c729f38f3aafe33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 022/131] fix: navigation: Galileo V4 field database has the
 spare after the week

---
 db/NAV/orbits.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/NAV/orbits.json b/db/NAV/orbits.json
index 64f176e..c5609ce 100755
--- a/db/NAV/orbits.json
+++ b/db/NAV/orbits.json
@@ -364,11 +364,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
@@ -398,11 +398,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
-- 
2.43.0


From 62a111a3d425b22d884c3cc1ddaa11badbf8f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 023/131] fix: navigation: Glonass frames have a fourth orbit
 line since V3.05

---
 db/NAV/orbits.json | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/db/NAV/orbits.json b/db/NAV/orbits.json
index c5609ce..5ebd677 100755
--- a/db/NAV/orbits.json
+++ b/db/NAV/orbits.json
@@ -277,6 +277,31 @@
             "ageOp": "f64"
         }
     },
+    {
+        "constellation": "GLO",
+        "version": {
+            "major": 3,
+            "minor": 5
+        },
+        "orbits": {
+            "satPosX": "f64",
+            "velX": "f64",
+            "accelX": "f64",
+            "health": "health",
+            "satPosY": "f64",
+            "velY": "f64",
+            "accelY": "f64",
+            "channel": "i8",
+            "satPosZ": "f64",
+            "velZ": "f64",
+            "accelZ": "f64",
+            "ageOp": "f64",
+            "status": "gloStatus",
+            "L1L2GrpDelay": "f64",
+            "urai": "f64",
+            "almanacHealth": "health"
+        }
+    },
     {
         "constellation": "GLO",
         "version": {
-- 
2.43.0


From 44cf304858125ff77d8200f65de6a0583b42e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 024/131] fix: navigation: any exponent letter is understood in
 all fields

---
 src/navigation/earth_orientation.rs    | 23 +++++++-------
 src/navigation/ephemeris/parsing.rs    | 44 +++++++-------------------
 src/navigation/ionosphere/bdgim.rs     | 21 ++++++------
 src/navigation/ionosphere/klobuchar.rs | 21 ++++++------
 src/navigation/ionosphere/nequick_g.rs | 11 +++----
 src/navigation/mod.rs                  |  5 +++
 src/navigation/orbits.rs               | 20 ++++--------
 src/navigation/system_time.rs          | 11 +++----
 8 files changed, 64 insertions(+), 92 deletions(-)

diff --git a/src/navigation/earth_orientation.rs b/src/navigation/earth_orientation.rs
index b78c038..6eb56c3 100644
--- a/src/navigation/earth_orientation.rs
+++ b/src/navigation/earth_orientation.rs
@@ -2,11 +2,10 @@
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// Earth Orientation Message
 #[derive(Debug, Clone, Default, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -43,23 +42,23 @@ impl EarthOrientation {
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
         let x = (
-            f64::from_str(xp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dxp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddxp.trim()).unwrap_or(0.0_f64),
+            parse_f64(xp).unwrap_or(0.0_f64),
+            parse_f64(dxp).unwrap_or(0.0_f64),
+            parse_f64(ddxp).unwrap_or(0.0_f64),
         );
 
         let y = (
-            f64::from_str(yp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dyp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddyp.trim()).unwrap_or(0.0_f64),
+            parse_f64(yp).unwrap_or(0.0_f64),
+            parse_f64(dyp).unwrap_or(0.0_f64),
+            parse_f64(ddyp).unwrap_or(0.0_f64),
         );
 
-        let t_tm = f64::from_str(t_tm.trim()).unwrap_or(0.0_f64);
+        let t_tm = parse_f64(t_tm).unwrap_or(0.0_f64);
 
         let delta_ut1 = (
-            f64::from_str(dut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dddut.trim()).unwrap_or(0.0_f64),
+            parse_f64(dut).unwrap_or(0.0_f64),
+            parse_f64(ddut).unwrap_or(0.0_f64),
+            parse_f64(dddut).unwrap_or(0.0_f64),
         );
 
         Ok((
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 9c2a2d4..13166e7 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -1,6 +1,8 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
-    navigation::{orbits::closest_nav_standards, Ephemeris, NavMessageType, OrbitItem},
+    navigation::{
+        orbits::closest_nav_standards, parse_f64, Ephemeris, NavMessageType, OrbitItem,
+    },
     prelude::{Constellation, Epoch, ParsingError, TimeScale, Version, SV},
 };
 
@@ -121,23 +123,11 @@ impl Ephemeris {
 
         let epoch = parse_epoch_in_timescale(date.trim(), ts)?;
 
-        let clock_bias = clk_bias
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let clock_bias = parse_f64(clk_bias).map_err(|_| ParsingError::ClockParsing)?;
 
-        let clock_drift = clk_dr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let clock_drift = parse_f64(clk_dr).map_err(|_| ParsingError::ClockParsing)?;
 
-        let mut clock_drift_rate = clk_drr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let mut clock_drift_rate = parse_f64(clk_drr).map_err(|_| ParsingError::ClockParsing)?;
 
         // parse orbits :
         //  only Legacy Frames in V2 and V3 (old) RINEX
@@ -185,23 +175,11 @@ impl Ephemeris {
         let (clk_bias, rem) = rem.split_at(19);
         let (clk_dr, clk_drr) = rem.split_at(19);
 
-        let clock_bias = clk_bias
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
-
-        let clock_drift = clk_dr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
-
-        let mut clock_drift_rate = clk_drr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let clock_bias = parse_f64(clk_bias).map_err(|_| ParsingError::ClockParsing)?;
+
+        let clock_drift = parse_f64(clk_dr).map_err(|_| ParsingError::ClockParsing)?;
+
+        let mut clock_drift_rate = parse_f64(clk_drr).map_err(|_| ParsingError::ClockParsing)?;
 
         let mut orbits =
             parse_orbits(Version { major: 4, minor: 0 }, msg, sv.constellation, lines)?;
diff --git a/src/navigation/ionosphere/bdgim.rs b/src/navigation/ionosphere/bdgim.rs
index 140726b..12c08b8 100644
--- a/src/navigation/ionosphere/bdgim.rs
+++ b/src/navigation/ionosphere/bdgim.rs
@@ -1,10 +1,9 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// BDGIM Model payload
 #[derive(Debug, Copy, Clone, Default, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -45,15 +44,15 @@ impl BdModel {
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a4.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a5.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a6.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a7.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a8.trim()).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a0).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a1).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a2).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a3).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a4).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a5).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a6).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a7).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a8).map_err(|_| ParsingError::BdgimData)?,
         );
 
         Ok((epoch, Self { alpha }))
diff --git a/src/navigation/ionosphere/klobuchar.rs b/src/navigation/ionosphere/klobuchar.rs
index 52707aa..33cb8ac 100644
--- a/src/navigation/ionosphere/klobuchar.rs
+++ b/src/navigation/ionosphere/klobuchar.rs
@@ -1,10 +1,9 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// Klobuchar Parameters region
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -68,7 +67,7 @@ impl KbModel {
         let region: KbRegionCode = match region.trim().len() {
             0 => KbRegionCode::Worldwide,
             _ => {
-                if let Ok(f) = f64::from_str(region.trim()) {
+                if let Ok(f) = parse_f64(region) {
                     let code = f as u8;
                     if code == 1 {
                         KbRegionCode::Japan
@@ -83,16 +82,16 @@ impl KbModel {
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a0).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a1).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a2).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a3).map_err(|_| ParsingError::KlobucharData)?,
         );
         let beta = (
-            f64::from_str(b0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b0).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b1).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b2).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b3).map_err(|_| ParsingError::KlobucharData)?,
         );
 
         Ok((
diff --git a/src/navigation/ionosphere/nequick_g.rs b/src/navigation/ionosphere/nequick_g.rs
index 8980a78..4cd5c19 100644
--- a/src/navigation/ionosphere/nequick_g.rs
+++ b/src/navigation/ionosphere/nequick_g.rs
@@ -1,12 +1,11 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
 use bitflags::bitflags;
 
-use std::str::FromStr;
-
 bitflags! {
     #[derive(Debug, Default, Clone, Copy)]
     #[derive(PartialEq, PartialOrd)]
@@ -52,11 +51,11 @@ impl NgModel {
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
         let a = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(rem.trim()).map_err(|_| ParsingError::NequickGData)?,
+            parse_f64(a0).map_err(|_| ParsingError::NequickGData)?,
+            parse_f64(a1).map_err(|_| ParsingError::NequickGData)?,
+            parse_f64(rem).map_err(|_| ParsingError::NequickGData)?,
         );
-        let f = f64::from_str(line.trim()).map_err(|_| ParsingError::NequickGData)?;
+        let f = parse_f64(line).map_err(|_| ParsingError::NequickGData)?;
         Ok((
             epoch,
             Self {
diff --git a/src/navigation/mod.rs b/src/navigation/mod.rs
index f0e2e96..a2e789c 100644
--- a/src/navigation/mod.rs
+++ b/src/navigation/mod.rs
@@ -55,5 +55,10 @@ pub struct NavKey {
     pub frmtype: NavFrameType,
 }
 
+/// Parses a floating point number whose exponent letter is any of E, e, D, d.
+pub(crate) fn parse_f64(content: &str) -> Result<f64, std::num::ParseFloatError> {
+    content.trim().replace(['D', 'd'], "E").parse::<f64>()
+}
+
 /// Navigation data are [NavFrame]s indexed by [NavKey]
 pub type Record = BTreeMap<NavKey, NavFrame>;
diff --git a/src/navigation/orbits.rs b/src/navigation/orbits.rs
index 808e657..e889150 100644
--- a/src/navigation/orbits.rs
+++ b/src/navigation/orbits.rs
@@ -1,5 +1,5 @@
 //! NAV Orbits description, spanning all revisions and constellations
-use super::health;
+use super::{health, parse_f64};
 use bitflags::bitflags;
 use num::FromPrimitive;
 use std::str::FromStr;
@@ -76,39 +76,33 @@ impl OrbitItem {
         match type_desc {
             "u8" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
-                    .map_err(|_| ParsingError::OrbitUnsignedData)?;
+                let float = parse_f64(content).map_err(|_| ParsingError::OrbitUnsignedData)?;
                 Ok(OrbitItem::U8(float as u8))
             },
             "i8" => {
                 // float->signed conversion
-                let float = f64::from_str(&content.replace('D', "e"))
-                    .map_err(|_| ParsingError::OrbitSignedData)?;
+                let float = parse_f64(content).map_err(|_| ParsingError::OrbitSignedData)?;
                 Ok(OrbitItem::I8(float as i8))
             },
             "u32" => {
                 // float->signed conversion
-                let float = f64::from_str(&content.replace('D', "e"))
-                    .map_err(|_| ParsingError::OrbitUnsignedData)?;
+                let float = parse_f64(content).map_err(|_| ParsingError::OrbitUnsignedData)?;
                 Ok(OrbitItem::U32(float as u32))
             },
             "f64" => {
-                let float = f64::from_str(&content.replace('D', "e"))
-                    .map_err(|_| ParsingError::OrbitFloatData)?;
+                let float = parse_f64(content).map_err(|_| ParsingError::OrbitFloatData)?;
                 Ok(OrbitItem::F64(float))
             },
             "gloStatus" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
-                    .map_err(|_| ParsingError::OrbitUnsignedData)?;
+                let float = parse_f64(content).map_err(|_| ParsingError::OrbitUnsignedData)?;
                 let unsigned = float as u32;
                 let status = GloStatus::from_bits(unsigned).unwrap_or(GloStatus::empty());
                 Ok(OrbitItem::GloStatus(status))
             },
             "health" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
-                    .map_err(|_| ParsingError::OrbitUnsignedData)?;
+                let float = parse_f64(content).map_err(|_| ParsingError::OrbitUnsignedData)?;
                 let unsigned = float as u32;
                 match constellation {
                     Constellation::GPS | Constellation::QZSS => {
diff --git a/src/navigation/system_time.rs b/src/navigation/system_time.rs
index e7b66a1..5d8fdce 100644
--- a/src/navigation/system_time.rs
+++ b/src/navigation/system_time.rs
@@ -1,11 +1,10 @@
 // NAV V4 System Time Messages
-use std::str::FromStr;
-
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
@@ -33,7 +32,7 @@ impl SystemTime {
         let (a0, rem) = line_2.split_at(23);
         let (a1, rem) = rem.split_at(19);
         let (a2, time) = rem.split_at(19);
-        let t_tm = f64::from_str(time.trim()).map_err(|_| ParsingError::SystemTimeData)?;
+        let t_tm = parse_f64(time).map_err(|_| ParsingError::SystemTimeData)?;
 
         Ok((
             epoch,
@@ -42,9 +41,9 @@ impl SystemTime {
                 system: system.trim().to_string(),
                 t_tm: t_tm as u32,
                 a: (
-                    f64::from_str(a0.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a1.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a2.trim()).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_f64(a0).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_f64(a1).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_f64(a2).map_err(|_| ParsingError::SystemTimeData)?,
                 ),
             },
         ))
-- 
2.43.0


From 0ba58df7e81991fe3f282d190c23362b8e6083f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 025/131] fix: navigation: unassigned Glonass status bits do
 not clear the others

---
 src/navigation/orbits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navigation/orbits.rs b/src/navigation/orbits.rs
index e889150..050f7e6 100644
--- a/src/navigation/orbits.rs
+++ b/src/navigation/orbits.rs
@@ -97,7 +97,7 @@ impl OrbitItem {
                 // float->unsigned conversion
                 let float = parse_f64(content).map_err(|_| ParsingError::OrbitUnsignedData)?;
                 let unsigned = float as u32;
-                let status = GloStatus::from_bits(unsigned).unwrap_or(GloStatus::empty());
+                let status = GloStatus::from_bits_truncate(unsigned);
                 Ok(OrbitItem::GloStatus(status))
             },
             "health" => {
-- 
2.43.0


From 71e52fa2956be599f28b617ecc07d9f81c7cab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 026/131] fix: navigation: the UTC ID of a system time message
 stands in its own columns

---
 src/navigation/system_time.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/navigation/system_time.rs b/src/navigation/system_time.rs
index 5d8fdce..745e864 100644
--- a/src/navigation/system_time.rs
+++ b/src/navigation/system_time.rs
@@ -26,7 +26,8 @@ impl SystemTime {
     pub fn parse(line_1: &str, line_2: &str, ts: TimeScale) -> Result<(Epoch, Self), ParsingError> {
         let (epoch, rem) = line_1.split_at(23);
         let (system, rem) = rem.split_at(5);
-        let utc = rem.trim().to_string();
+        // Possible SBAS ID resides in between
+        let utc = rem.get(34..).unwrap_or_default().trim().to_string();
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
         let (a0, rem) = line_2.split_at(23);
-- 
2.43.0


From c7c0381cbdb7402ad73d06ae34d937fa330738ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 027/131] fix: epoch: the fraction of a second is scaled by its
 number of digits

---
 src/epoch.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index fa6ebca..7bb7bc3 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -151,8 +151,6 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
             },
             5 => {
                 if let Some(dot) = item.find('.') {
-                    let is_nav = item.trim().len() < 7;
-
                     ss = item[..dot]
                         .trim()
                         .parse::<u8>()
@@ -164,13 +162,10 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                         .parse::<u64>()
                         .map_err(|_| ParsingError::EpochParsing)?;
 
-                    if is_nav {
-                        // NAV RINEX : 100ms precision
-                        ns *= 100_000_000;
-                    } else if nanos.len() != 9 {
-                        // OBS RINEX : 100ns precision
-                        ns *= 100;
-                    }
+                    // the number of digits varies with the format
+                    // (100ms in NAV, 1us in CLK, 100ns in OBS RINEX)
+                    let digits = u32::try_from(nanos.len()).unwrap_or_default();
+                    ns *= 10_u64.pow(9_u32.saturating_sub(digits));
                 } else {
                     ss = item
                         .trim()
-- 
2.43.0


From 2a4f3bf50d4d3ef279fbff08c1d4300509501431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 028/131] fix: clock: stations named like a vehicle remain
 stations

---
 src/clock/record.rs | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/src/clock/record.rs b/src/clock/record.rs
index 6d58249..2cf04b0 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -159,35 +159,21 @@ pub(crate) fn parse_epoch(
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
 
     const LIMIT: Version = Version { major: 3, minor: 4 };
-    let (dtype, mut rem) = line.split_at(3);
+    let (dtype, rem) = line.split_at(3);
     let profile_type = ClockProfileType::from_str(dtype.trim())?;
 
-    let clock_type = match version < LIMIT {
-        true => {
-            // old revision
-            let (system_str, r) = rem.split_at(5);
-            rem = r;
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
-                ClockType::SV(svnn)
-            } else {
-                ClockType::Station(system_str.trim().to_string())
-            }
-        },
-        false => {
-            // modern revision
-            let (system_str, r) = rem.split_at(4);
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
-                let (_, r) = r.split_at(6);
-                rem = r;
-                ClockType::SV(svnn)
-            } else {
-                let mut content = system_str.to_owned();
-                let (remainder, r) = r.split_at(6);
-                rem = r;
-                content.push_str(remainder);
-                ClockType::Station(content.trim().to_string())
-            }
+    // names are longer in modern revisions
+    let name_len = if version < LIMIT { 5 } else { 10 };
+    let (name, rem) = rem.split_at(name_len);
+    let name = name.trim();
+
+    // a station may be named like a vehicle
+    let clock_type = match profile_type {
+        ClockProfileType::AS | ClockProfileType::MS => match SV::from_str(name) {
+            Ok(sv) => ClockType::SV(sv),
+            _ => ClockType::Station(name.to_string()),
         },
+        _ => ClockType::Station(name.to_string()),
     };
 
     // Epoch: Y on 4 digits, even on RINEX2
-- 
2.43.0


From 31e97517bcd37e704d0953b925f8900e22ca3ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 029/131] fix: epoch: an invalid UTC or TAI date is an error,
 not a panic

---
 src/epoch.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 7bb7bc3..9388a71 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -180,20 +180,12 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
     //println!("content \"{}\"", content); // DEBUG
     //println!("Y {} M {} D {} HH {} MM {} SS {} NS {}", y, m, d, hh, mm, ss, ns); // DEBUG
     match ts {
-        TimeScale::UTC => {
+        TimeScale::UTC | TimeScale::TAI => {
             // Catch possible Hifitime panic on bad string content
             if y == 0 {
                 return Err(ParsingError::EpochFormat);
             }
-            let epoch = Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
-        },
-        TimeScale::TAI => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_tai(y, m, d, hh, mm, ss, ns as u32);
+            let epoch = Epoch::maybe_from_gregorian(y, m, d, hh, mm, ss, ns as u32, ts)?;
             Ok(epoch)
         },
         ts => {
@@ -257,7 +249,8 @@ pub(crate) fn parse_ionex_utc(s: &str) -> Result<Epoch, ParsingError> {
             _ => {},
         }
     }
-    Ok(Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, 0))
+    let epoch = Epoch::maybe_from_gregorian_utc(y, m, d, hh, mm, ss, 0)?;
+    Ok(epoch)
 }
 
 /*
-- 
2.43.0


From 767b1917bf663185039591ea5dd738f0d38a8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 030/131] fix: clock: GLO and QZS time systems are understood

---
 src/header/parsing.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index de8f05a..7ee71dc 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -828,7 +828,7 @@ impl Header {
                 //}
             } else if marker.contains("TIME SYSTEM ID") {
                 let timescale = content.trim();
-                let ts = TimeScale::from_str(timescale)?;
+                let ts = Self::parse_timescale(timescale)?;
                 clock = clock.timescale(ts);
             } else if marker.contains("DESCRIPTION") {
                 // IONEX description
@@ -981,6 +981,15 @@ impl Header {
         })
     }
 
+    /// Parses three letter code of a time system.
+    fn parse_timescale(code: &str) -> Result<TimeScale, ParsingError> {
+        match code {
+            "GLO" => Ok(TimeScale::UTC),
+            "QZS" => Ok(TimeScale::QZSST),
+            code => Ok(TimeScale::from_str(code)?),
+        }
+    }
+
     fn parse_time_of_obs(content: &str) -> Result<Epoch, ParsingError> {
         let (_, rem) = content.split_at(2);
         let (y, rem) = rem.split_at(4);
@@ -1048,11 +1057,7 @@ impl Header {
          * offset from TAI, that we will convert back to TAI later
          */
         if !rem.is_empty() && rem != "DOR" {
-            ts = match rem {
-                "GLO" => TimeScale::UTC,
-                "QZS" => TimeScale::QZSST,
-                rem => TimeScale::from_str(rem)?,
-            };
+            ts = Self::parse_timescale(rem)?;
         }
 
         Epoch::from_str(&format!(
-- 
2.43.0


From bef32d1e9e913a1164a9d7ba07fcc65952464b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:36 +0000
Subject: [PATCH 031/131] fix: linspace: any whole number of increments is a
 valid grid

---
 src/linspace.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/linspace.rs b/src/linspace.rs
index ecc4f7b..d58b10a 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -1,5 +1,3 @@
-use std::ops::Rem;
-
 use crate::prelude::ParsingError;
 
 /// Linear space as used in IONEX or Antenna grid definitions.
@@ -25,20 +23,16 @@ impl Linspace {
                 spacing,
             })
         } else {
-            let r = end.rem(start);
             /*
-             * End / Start must be multiple of one another
+             * [start; end] must contain a whole number of increments
              */
-            if r == 0.0 {
-                if end.rem(spacing) == 0.0 {
-                    Ok(Self {
-                        start,
-                        end,
-                        spacing,
-                    })
-                } else {
-                    Err(ParsingError::BadIonexGridSpecs)
-                }
+            let steps = (end - start) / spacing;
+            if steps >= 0.0 && (steps - steps.round()).abs() < 1.0E-6 {
+                Ok(Self {
+                    start,
+                    end,
+                    spacing,
+                })
             } else {
                 Err(ParsingError::BadIonexGridSpecs)
             }
-- 
2.43.0


From 01a730b672cb682d1d8cfa681eaf5bb3471491e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:36 +0000
Subject: [PATCH 032/131] fix: ionex: grid specs of RMS maps are those of the
 current row

---
 src/ionex/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index a34f01d..6fef66a 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -173,7 +173,7 @@ pub fn parse_rms_map(
 
     for line in lines {
         if line.len() > 60 {
-            let marker = line.split_at(60).1;
+            let (content, marker) = line.split_at(60);
             if marker.contains("END OF RMS MAP") {
                 return Ok(());
             } else if marker.contains("EXPONENT") {
-- 
2.43.0


From 89113fccf6d86c597a1fe49b3466aeb5bb0d9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 033/131] fix: ionex: RMS and height maps are never taken for
 TEC maps

---
 src/record/parsing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 401bdc6..faebb1e 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -362,8 +362,8 @@ impl Record {
                         },
 
                         Type::IonosphereMaps => {
-                            if is_new_tec_map(&line_buf) {
-                                match parse_ionex_tec_map(
+                            if is_new_rms_map(&epoch_buf) {
+                                match parse_ionex_rms_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
                                     ionex_long_exponent,
@@ -375,8 +375,8 @@ impl Record {
                                     Ok(()) => {},
                                     Err(_) => {},
                                 }
-                            } else if is_new_rms_map(&line_buf) {
-                                match parse_ionex_rms_map(
+                            } else if !is_new_height_map(&epoch_buf) && is_new_tec_map(&line_buf) {
+                                match parse_ionex_tec_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
                                     ionex_long_exponent,
-- 
2.43.0


From 903b7b475b3fe73331a6b2e411e2187ed077b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 034/131] fix: ionex: grid origin takes part in the coordinates
 quantization

---
 src/linspace.rs       | 9 ++++++++-
 src/record/parsing.rs | 7 +++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/linspace.rs b/src/linspace.rs
index d58b10a..c98ad8b 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -1,4 +1,4 @@
-use crate::prelude::ParsingError;
+use crate::{ionex::Quantized, prelude::ParsingError};
 
 /// Linear space as used in IONEX or Antenna grid definitions.
 /// Linear space starting from `start` ranging to `end` (included).
@@ -39,6 +39,13 @@ impl Linspace {
         }
     }
 
+    /// Exponent needed to quantize any point of this [Linspace]
+    pub(crate) fn quantization_exponent(&self) -> i8 {
+        let start = Quantized::find_exponent(self.start);
+        let spacing = Quantized::find_exponent(self.spacing);
+        start.max(spacing)
+    }
+
     /// Returns grid length, in terms of data points
     pub fn length(&self) -> usize {
         (self.end / self.spacing).floor() as usize
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index faebb1e..0642563 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -19,7 +19,6 @@ use crate::{
         //parse_height_map as parse_ionex_height_map,
         parse_rms_map as parse_ionex_rms_map,
         parse_tec_map as parse_ionex_tec_map,
-        Quantized as IonexQuantized,
         Record as IonexRecord,
     },
     is_rinex_comment,
@@ -180,9 +179,9 @@ impl Record {
 
         if let Some(ionex) = &header.ionex {
             ionex_tec_exponent = ionex.exponent;
-            ionex_lat_exponent = IonexQuantized::find_exponent(ionex.grid.latitude.spacing);
-            ionex_long_exponent = IonexQuantized::find_exponent(ionex.grid.longitude.spacing);
-            ionex_alt_exponent = IonexQuantized::find_exponent(ionex.grid.height.spacing);
+            ionex_lat_exponent = ionex.grid.latitude.quantization_exponent();
+            ionex_long_exponent = ionex.grid.longitude.quantization_exponent();
+            ionex_alt_exponent = ionex.grid.height.quantization_exponent();
         }
 
         // Iterate and consume, one line at a time
-- 
2.43.0


From e06bb5aa76faf4fdc7257d3bc15253ab3b37e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 035/131] fix: ionex: grid specs that touch one another

---
 src/header/parsing.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 7ee71dc..e3801c0 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -1071,24 +1071,18 @@ impl Header {
      * Parse IONEX grid
      */
     fn parse_grid(line: &str) -> Result<Linspace, ParsingError> {
-        let mut start = 0.0_f64;
-        let mut end = 0.0_f64;
-        let mut spacing = 0.0_f64;
-        for (index, item) in line.split_ascii_whitespace().enumerate() {
-            let item = item.trim();
-            match index {
-                0 => {
-                    start = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                1 => {
-                    end = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                2 => {
-                    spacing = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                _ => {},
-            }
+        let mut items: Vec<&str> = line.split_ascii_whitespace().collect();
+        if items.len() < 3 {
+            // 2X,3F6.1: fields touch one another
+            items = vec![
+                line.get(2..8).unwrap_or_default(),
+                line.get(8..14).unwrap_or_default(),
+                line.get(14..20).unwrap_or_default(),
+            ];
         }
+        let start = f64::from_str(items[0].trim()).or(Err(ParsingError::IonexGridSpecs))?;
+        let end = f64::from_str(items[1].trim()).or(Err(ParsingError::IonexGridSpecs))?;
+        let spacing = f64::from_str(items[2].trim()).or(Err(ParsingError::IonexGridSpecs))?;
         if spacing == 0.0 {
             // avoid linspace verification in this case
             Ok(Linspace {
-- 
2.43.0


From 9bb2fea7478a0763eb705875cbaf3899b7468d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 036/131] fix: ionex: the mapping function is read

---
 src/header/parsing.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index e3801c0..5532814 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -859,9 +859,11 @@ impl Header {
                 if let Ok(f) = f32::from_str(content.trim()) {
                     ionex = ionex.with_base_radius(f);
                 }
-            } else if marker.contains("MAPPING FUCTION") {
-                let mapf = IonexMappingFunction::from_str(content.trim())?;
-                ionex = ionex.with_mapping_function(mapf);
+            } else if marker.contains("MAPPING FUNCTION") {
+                // "NONE" stands for no mapping function
+                if let Ok(mapf) = IonexMappingFunction::from_str(content.trim()) {
+                    ionex = ionex.with_mapping_function(mapf);
+                }
             } else if marker.contains("# OF STATIONS") {
                 // IONEX
                 if let Ok(u) = content.trim().parse::<u32>() {
-- 
2.43.0


From cd4721fc6dbae800bc006d3e00789ced6fbac9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:39 +0000
Subject: [PATCH 037/131] fix: ionex: adjacent values of a row

---
 src/ionex/parsing.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index 6fef66a..0c3de6c 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -57,6 +57,13 @@ fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
     return Ok((fixed_lat, long1, long_spacing, fixed_alt));
 }
 
+/// Splits a data row in (mI5) values, which may touch one another
+fn split_values(line: &str) -> impl Iterator<Item = &str> {
+    line.split_ascii_whitespace()
+        .flat_map(|item| item.as_bytes().rchunks(5).rev())
+        .filter_map(|item| std::str::from_utf8(item).ok())
+}
+
 /// Parses all maps contained in following TEC description.
 /// This describes a serie of TEC point on an isosurface.
 /// ## Inputs
@@ -115,9 +122,8 @@ pub fn parse_tec_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
+        for item in split_values(line) {
             // data interpretation
-            let item = item.trim();
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(tecu) = item.parse::<i64>() {
                     let tec = TEC::from_quantized(tecu, tec_exponent);
@@ -193,9 +199,7 @@ pub fn parse_rms_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
-            let item = item.trim();
-
+        for item in split_values(line) {
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(rms_tecu) = item.parse::<i64>() {
                     let quantized_lat = Quantized::new(fixed_lat, lat_exponent);
-- 
2.43.0


From deb2282af6b6784900a38bfa40e6ccabcba1d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 038/131] fix: antex: short pattern rows do not abort

---
 src/antex/record.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 2622f2b..b879435 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -198,7 +198,8 @@ pub(crate) fn parse_antenna(
     let mut valid_from = Epoch::default();
 
     for line in lines {
-        let (content, marker) = line.split_at(60);
+        // phase pattern rows carry no marker and may be short
+        let (content, marker) = line.split_at(line.len().min(60));
         if marker.contains("TYPE / SERIAL NO") {
             let (ant_igs, rem) = content.split_at(16); // IGS V.1.4 does not follow the specs ?
             let (block1, rem) = rem.split_at(20 + 4);
-- 
2.43.0


From 77bbaee6465e72804e46f03909360eacddd381e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 039/131] fix: antex: fraction of the validity bounds

---
 src/antex/record.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index b879435..b49cb34 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -170,8 +170,10 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        nanos = ss[dot + 1..]
-            .trim()
+        // the number of digits gives the scaling
+        let fraction = ss[dot + 1..].trim();
+
+        nanos = format!("{:0<9.9}", fraction)
             .parse::<u32>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
     } else {
-- 
2.43.0


From e139e1fd1dc1e04e9acb4b0ab5111c73dc30bb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 040/131] fix: antex: azimuth increment is retained

---
 src/antex/record.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index b49cb34..b33898a 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -259,10 +259,10 @@ pub(crate) fn parse_antenna(
 
             antenna.sinex_code = sinex.trim().to_string();
         } else if marker.contains("DAZI") {
-            //let dazi = content.split_at(20).0.trim();
-            //if let Ok(dazi) = f64::from_str(dazi) {
-            //    antenna = antenna.with_dazi(dazi)
-            //}
+            let dazi = content.split_at(20).0.trim();
+            if let Ok(dazi) = f64::from_str(dazi) {
+                antenna = antenna.with_dazi(dazi)
+            }
         } else if marker.contains("# OF FREQUENCIES") {
             /*
              * we actually do not care about this field
-- 
2.43.0


From 3ad41c7ecaa55f673c0c67db8705f43adefb07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 041/131] fix: antex: azimuth independent phase pattern

---
 src/antex/record.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index b33898a..29651ee 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -187,6 +187,24 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
     ))
 }
 
+/// Parses azimuth independent phase pattern: successive F8.2 values
+fn parse_phase_pattern(content: &str) -> Result<AntennaPhasePattern, ParsingError> {
+    let mut values = Vec::<f64>::with_capacity(32);
+    let mut rem = content.trim_end();
+
+    while !rem.is_empty() {
+        let (value, next) = rem.split_at(rem.len().min(8));
+        let value = value
+            .trim()
+            .parse::<f64>()
+            .map_err(|_| ParsingError::AntexAPCCoordinates)?;
+        values.push(value);
+        rem = next;
+    }
+
+    Ok(AntennaPhasePattern::AzimuthIndependentPattern(values))
+}
+
 /// Parses entire Antenna block
 /// and all inner frequency entries
 pub(crate) fn parse_antenna(
@@ -272,6 +290,7 @@ pub(crate) fn parse_antenna(
             let svnn = content.split_at(10).0;
             let sv = SV::from_str(svnn.trim())?;
             frequency = Carrier::from_sv(sv)?;
+            freq_data = FrequencyDependentData::default();
         } else if marker.contains("NORTH / EAST / UP") {
             let (north, rem) = content.split_at(10);
             let (east, rem) = rem.split_at(10);
@@ -323,8 +342,11 @@ pub(crate) fn parse_antenna(
         } else if marker.contains("END OF ANTENNA") {
             break; // end of this block, considered as an `epoch`
                    // if we make a parallel with other types of RINEX
+        } else if let Some(pattern) = line.trim_start().strip_prefix("NOAZI") {
+            // azimuth independent phase pattern
+            freq_data.phase_pattern = parse_phase_pattern(pattern)?;
         } else {
-            // inside phase pattern
+            // azimuth dependent phase pattern
         }
         //    } else if marker.contains("SINEX CODE") {
         //        let sinex = content.split_at(10).0;
-- 
2.43.0


From 9f56373e16e2b4c6f593f900f4e5dba4036af6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 042/131] fix: antex: dates do not abort

---
 src/antex/record.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 29651ee..c1a7244 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -92,6 +92,8 @@ fn parse_datetime(content: &str) -> Result<Epoch, ParsingError> {
 
     let year = parser.next().ok_or(ParsingError::DatetimeFormat)?;
 
+    let day_first = year.parse::<u8>().ok();
+
     let year = year
         .parse::<i32>()
         .map_err(|_| ParsingError::DatetimeParsing)?;
@@ -121,11 +123,16 @@ fn parse_datetime(content: &str) -> Result<Epoch, ParsingError> {
         .parse::<u8>()
         .map_err(|_| ParsingError::DatetimeParsing)?;
 
-    Ok(Epoch::from_gregorian_utc_at_midnight(
-        2000 + year,
-        month,
-        day,
-    ))
+    if let Ok(date) = Epoch::maybe_from_gregorian_utc(2000 + year, month, day, 0, 0, 0, 0) {
+        return Ok(date);
+    }
+
+    // day first, and two digit year, as standardized
+    let year = if day < 80 { 2000 } else { 1900 } + day as i32;
+    let day = day_first.ok_or(ParsingError::DatetimeParsing)?;
+
+    Epoch::maybe_from_gregorian_utc(year, month, day, 0, 0, 0, 0)
+        .map_err(|_| ParsingError::DatetimeParsing)
 }
 
 /*
@@ -182,9 +189,8 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
             .map_err(|_| ParsingError::DatetimeParsing)?;
     }
 
-    Ok(Epoch::from_gregorian_utc(
-        year, month, day, hh, mm, secs, nanos,
-    ))
+    Epoch::maybe_from_gregorian_utc(year, month, day, hh, mm, secs, nanos)
+        .map_err(|_| ParsingError::DatetimeParsing)
 }
 
 /// Parses azimuth independent phase pattern: successive F8.2 values
-- 
2.43.0


From 90a7eb4dbad250fad8ec748e4289085fa5d548aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 043/131] fix: antex: calibration methods that name their
 origin

---
 src/antex/antenna/mod.rs | 5 +++--
 src/antex/record.rs      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/antex/antenna/mod.rs b/src/antex/antenna/mod.rs
index 97ab315..329d12e 100644
--- a/src/antex/antenna/mod.rs
+++ b/src/antex/antenna/mod.rs
@@ -31,9 +31,10 @@ impl std::str::FromStr for CalibrationMethod {
             "chamber" => Ok(Self::Chamber),
             "field" => Ok(Self::Field),
             "robot" => Ok(Self::Robot),
-            "copied" => Ok(Self::Copied),
-            "converted" => Ok(Self::Converted),
             "" => Ok(Self::Unknown),
+            // these may name their origin
+            s if s.starts_with("copied") => Ok(Self::Copied),
+            s if s.starts_with("converted") => Ok(Self::Converted),
             _ => Err(ParsingError::AntexCalibrationMethod),
         }
     }
diff --git a/src/antex/record.rs b/src/antex/record.rs
index c1a7244..961447c 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -261,7 +261,7 @@ pub(crate) fn parse_antenna(
             let (date, _) = rem.split_at(10);
 
             let cal = Calibration {
-                method: CalibrationMethod::from_str(method.trim()).unwrap(),
+                method: CalibrationMethod::from_str(method.trim())?,
                 number: number
                     .trim()
                     .parse::<u16>()
-- 
2.43.0


From fb6b30c2ebf63da2aefd3986023cf2d1692edd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 044/131] fix: antex: blocks that cannot be decoded are left
 out

---
 src/record/parsing.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 0642563..550961a 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -356,8 +356,11 @@ impl Record {
                         },
 
                         Type::AntennaData => {
-                            let (antenna, content) = parse_antex_antenna(&epoch_buf).unwrap();
-                            atx_rec.push((antenna, content));
+                            if is_new_antex_epoch(&epoch_buf) {
+                                if let Ok((antenna, content)) = parse_antex_antenna(&epoch_buf) {
+                                    atx_rec.push((antenna, content));
+                                }
+                            }
                         },
 
                         Type::IonosphereMaps => {
-- 
2.43.0


From 7b9de2ebf0f1bafe019352971ecbbe5010af09c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 045/131] fix: antex: validity bounds are inclusive

---
 src/antex/antenna/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antex/antenna/mod.rs b/src/antex/antenna/mod.rs
index 329d12e..4ad2a92 100644
--- a/src/antex/antenna/mod.rs
+++ b/src/antex/antenna/mod.rs
@@ -83,7 +83,7 @@ impl Antenna {
     /// and should only consider recently calibrated data.
     pub fn is_valid(&self, now: Epoch) -> bool {
         if let Some((from, until)) = self.calibration.validity_period {
-            now > from && now < until
+            now >= from && now <= until
         } else {
             true
         }
-- 
2.43.0


From 83aa8e74bb86cece2af5f0c077f3ea57ed813039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 046/131] fix: antex: lookup by serial number

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 309b966..cfd4fa8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1462,7 +1462,9 @@ impl Rinex {
                         }
                     },
                     AntennaMatcher::SerialNumber(sn) => {
-                        if rx_ant.igs_type.to_lowercase().eq(sn) {
+                        if rx_ant.serial_number.as_ref().map(|sn| sn.to_lowercase()).as_ref()
+                            == Some(sn)
+                        {
                             freqdata
                                 .get(&freq)
                                 .map(|freqdata| freqdata.apc_eccentricity)
-- 
2.43.0


From 27240578c9541a00d3df1c9f5f7732628836c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:03 +0000
Subject: [PATCH 047/131] fix: epoch anomalies are the abnormal epochs

---
 src/observation/rinex/feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 0e659ba..924cbca 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -248,7 +248,7 @@ impl Rinex {
     /// Returns an Iterator over [Epoch]s where abnormal sampling conditions were detected.
     /// Anomalies are described by the attached [EpochFlag] in each [ObsKey].
     pub fn epoch_anomalies(&self) -> Box<dyn Iterator<Item = &ObsKey> + '_> {
-        Box::new(self.observation_keys().filter(|k| k.flag.is_ok()))
+        Box::new(self.observation_keys().filter(|k| !k.flag.is_ok()))
     }
 
     /// Form designed signal [Combination] from all observed signals.
-- 
2.43.0


From 1883222cb9eaa55d17031a49bc1197f525b65b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:03 +0000
Subject: [PATCH 048/131] fix: phase tracking is good without lock loss nor
 half cycle slip

---
 src/observation/rinex/feature.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 924cbca..4037acf 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -169,10 +169,10 @@ impl Rinex {
     ) -> Box<dyn Iterator<Item = (Epoch, &SignalObservation)> + '_> {
         Box::new(self.phase_range_sampling_ok_iter().filter_map(|(k, sig)| {
             if let Some(lli) = sig.lli {
-                if lli.intersects(LliFlags::OK_OR_UNKNOWN) {
-                    Some((k, sig))
-                } else {
+                if lli.intersects(LliFlags::LOCK_LOSS | LliFlags::HALF_CYCLE_SLIP) {
                     None
+                } else {
+                    Some((k, sig))
                 }
             } else {
                 Some((k, sig))
-- 
2.43.0


From f33bbe31eceb28983e7fb6703f510089259b5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:03 +0000
Subject: [PATCH 049/131] fix: physics of the hail indicator

---
 src/observable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index f17bf8b..01a29cb 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -70,7 +70,7 @@ impl Observable {
             Self::WindSpeed => matches!(rhs, Self::WindSpeed),
             Self::WindDirection => matches!(rhs, Self::WindDirection),
             Self::RainIncrement => matches!(rhs, Self::RainIncrement),
-            Self::HailIndicator => matches!(rhs, Self::RainIncrement),
+            Self::HailIndicator => matches!(rhs, Self::HailIndicator),
             Self::FrequencyRatio => matches!(rhs, Self::FrequencyRatio),
         }
     }
-- 
2.43.0


From 9e76f781008c6df163c212812624e3e706936d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 050/131] fix: leap second fields are fixed columns

---
 src/leap.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/leap.rs b/src/leap.rs
index fbceb84..e212e30 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -32,23 +32,27 @@ impl Leap {
         if let Some(delta) = &self.delta_tls {
             write!(
                 w,
-                "{:6}{:6}{:6}{:6} ",
+                "{:6}{:6}{:6}{:6}",
                 self.leap,
                 delta,
                 self.week.unwrap_or(0),
                 self.day.unwrap_or(0),
             )?;
         } else {
-            write!(w, "{:6}                   ", self.leap,)?;
+            write!(w, "{:6}                  ", self.leap,)?;
         }
 
         if let Some(ts) = self.timescale {
-            write!(w, "{:x}", ts)?;
+            match ts {
+                TimeScale::GPST => write!(w, "GPS")?,
+                TimeScale::BDT => write!(w, "BDS")?,
+                ts => write!(w, "{:x}", ts)?,
+            }
         } else {
             write!(w, "   ")?;
         }
 
-        writeln!(w, "                                LEAP SECONDS")?;
+        writeln!(w, "                                 LEAP SECONDS")?;
 
         Ok(())
     }
@@ -92,11 +96,13 @@ impl std::str::FromStr for Leap {
             ls.leap = items[0].parse::<u32>().or(Err(ParsingError::LeapParsing))?;
         } else {
             // Complex / complete format
-            let (leap, rem) = s.split_at(5);
-            let (tls, rem) = rem.split_at(5);
-            let (week, rem) = rem.split_at(5);
-            let (day, rem) = rem.split_at(5);
-            let system = rem.trim();
+            // leading blanks may have been trimmed: columns count
+            // from the end of the first number
+            let (leap, rem) = s.trim_start().split_at(items[0].len());
+            let tls = rem.get(..6).ok_or(ParsingError::LeapParsing)?;
+            let week = rem.get(6..12).ok_or(ParsingError::LeapParsing)?;
+            let day = rem.get(12..18.min(rem.len())).ok_or(ParsingError::LeapParsing)?;
+            let system = rem.get(18..).unwrap_or("").trim();
 
             ls.leap = leap
                 .trim()
-- 
2.43.0


From 2536ed1213b7240cf015fa686c68ea0baa3b7944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 051/131] fix: marker lines of the header in any order, 60
 column names, every marker type

---
 src/header/parsing.rs | 14 ++++++--------
 src/marker.rs         | 20 +++++++++++++++++---
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 5532814..8b3566e 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -301,19 +301,17 @@ impl Header {
                     date = Some(date_str.to_string());
                 }
             } else if marker.contains("MARKER NAME") {
-                let name = content.split_at(20).0.trim();
-                geodetic_marker = Some(GeodeticMarker::default().with_name(name));
+                let marker = geodetic_marker.get_or_insert_with(GeodeticMarker::default);
+                *marker = marker.with_name(content.trim());
             } else if marker.contains("MARKER NUMBER") {
                 let number = content.split_at(20).0.trim();
-                if let Some(ref mut marker) = geodetic_marker {
-                    *marker = marker.with_number(number);
-                }
+                let marker = geodetic_marker.get_or_insert_with(GeodeticMarker::default);
+                *marker = marker.with_number(number);
             } else if marker.contains("MARKER TYPE") {
                 let code = content.split_at(20).0.trim();
                 if let Ok(mtype) = MarkerType::from_str(code) {
-                    if let Some(ref mut marker) = geodetic_marker {
-                        marker.marker_type = Some(mtype);
-                    }
+                    let marker = geodetic_marker.get_or_insert_with(GeodeticMarker::default);
+                    marker.marker_type = Some(mtype);
                 }
             } else if marker.contains("OBSERVER / AGENCY") {
                 let (obs, ag) = content.split_at(20);
diff --git a/src/marker.rs b/src/marker.rs
index a0ad313..e05482d 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -61,7 +61,8 @@ pub enum MarkerType {
 impl std::str::FromStr for MarkerType {
     type Err = ParsingError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match s.to_lowercase().as_str() {
+        // standards specify "NON_GEODETIC"
+        match s.to_lowercase().replace('_', " ").as_str() {
             "geodetic" => Ok(Self::Geodetic),
             "non geodetic" => Ok(Self::NonGeodetic),
             "ground craft" => Ok(Self::Groundcraft),
@@ -70,6 +71,7 @@ impl std::str::FromStr for MarkerType {
             "non physical" => Ok(Self::NonPhysical),
             "spaceborne" => Ok(Self::Spaceborne),
             "floating ice" => Ok(Self::FloatingIce),
+            "fixed buoy" => Ok(Self::FixedBuoy),
             "floating buoy" => Ok(Self::FloatingBuoy),
             "glacier" => Ok(Self::Glacier),
             "ballistic" => Ok(Self::Ballistic),
@@ -84,7 +86,19 @@ impl std::fmt::Display for MarkerType {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         match self {
             Self::Geodetic => write!(f, "GEODETIC"),
-            _ => write!(f, "HUMAN"),
+            Self::NonGeodetic => write!(f, "NON_GEODETIC"),
+            Self::NonPhysical => write!(f, "NON_PHYSICAL"),
+            Self::Spaceborne => write!(f, "SPACEBORNE"),
+            Self::Airborne => write!(f, "AIRBORNE"),
+            Self::Watercraft => write!(f, "WATER_CRAFT"),
+            Self::Groundcraft => write!(f, "GROUND_CRAFT"),
+            Self::FixedBuoy => write!(f, "FIXED_BUOY"),
+            Self::FloatingBuoy => write!(f, "FLOATING_BUOY"),
+            Self::FloatingIce => write!(f, "FLOATING_ICE"),
+            Self::Glacier => write!(f, "GLACIER"),
+            Self::Ballistic => write!(f, "BALLISTIC"),
+            Self::Animal => write!(f, "ANIMAL"),
+            Self::Human => write!(f, "HUMAN"),
         }
     }
 }
@@ -119,7 +133,7 @@ impl GeodeticMarker {
         let mut s = self.clone();
         if content.len() == 9 && content.chars().nth(5) == Some('M') {
             if let Ok(id) = u32::from_str_radix(&content[..5], 10) {
-                if let Ok(monument) = u16::from_str_radix(&content[7..], 10) {
+                if let Ok(monument) = u16::from_str_radix(&content[6..], 10) {
                     s.identification = Some(id);
                     s.monument = Some(monument);
                 }
-- 
2.43.0


From f51bc7aec1578fbbe9f96d14c42885bf26004cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 052/131] fix: continuation lines of SYS / SCALE FACTOR

---
 src/header/parsing.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 8b3566e..86f5ab5 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -76,6 +76,8 @@ impl Header {
 
         // RINEX specific fields
         let mut current_constell: Option<Constellation> = None;
+        let mut current_scaling: Option<(Constellation, u16)> = None;
+        let mut sensor_positions = Vec::<(Observable, (f64, f64, f64), f64)>::new();
         let mut observation = ObservationHeader::default();
         let mut meteo = MeteoHeader::default();
         let mut clock = ClockHeader::default();
@@ -388,30 +390,37 @@ impl Header {
 
                 dcb_compensations.push(dcb);
             } else if marker.contains("SYS / SCALE FACTOR") {
-                // TODO:
-                //   This will not work in case several observables
-                //   are declaredn which will required to analyze more than 1 line
                 let (gnss, rem) = content.split_at(2);
                 let gnss = gnss.trim();
 
                 /*
                  * DORIS measurement special case, otherwise, standard OBS_RINEX
                  */
-                let constell = if gnss.eq("D") {
-                    Constellation::Mixed // scaling applies to all measurements
+                let (factor, rem) = rem.split_at(4);
+                let (_num, rem) = rem.split_at(4);
+
+                let (constell, scaling) = if gnss.is_empty() {
+                    // continuation of previous line
+                    current_scaling.ok_or(ParsingError::SystemScalingFactor)?
                 } else {
-                    Constellation::from_str(gnss)?
+                    let constell = if gnss.eq("D") {
+                        Constellation::Mixed // scaling applies to all measurements
+                    } else {
+                        Constellation::from_str(gnss)?
+                    };
+
+                    // Parse scaling factor
+                    let scaling = factor
+                        .trim()
+                        .parse::<u16>()
+                        .or(Err(ParsingError::SystemScalingFactor))?;
+
+                    (constell, scaling)
                 };
 
-                // Parse scaling factor
-                let (factor, rem) = rem.split_at(6);
-                let factor = factor.trim();
-                let scaling = factor
-                    .parse::<u16>()
-                    .or(Err(ParsingError::SystemScalingFactor))?;
+                current_scaling = Some((constell, scaling));
 
                 // parse end of line
-                let (_num, rem) = rem.split_at(3);
                 for observable_str in rem.split_ascii_whitespace() {
                     let observable = Observable::from_str(observable_str)?;
 
-- 
2.43.0


From 723f55e95f8510b3937b16df04f5724704a30bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 053/131] fix: sensor position may precede the sensor
 description

---
 src/header/parsing.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 86f5ab5..16d3b01 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -459,12 +459,7 @@ impl Header {
                 let h = h.trim();
                 let h = f64::from_str(h).or(Err(ParsingError::SensorCoordinates))?;
 
-                for sensor in meteo.sensors.iter_mut() {
-                    if sensor.observable == observable {
-                        *sensor = sensor.with_position((x, y, z));
-                        *sensor = sensor.with_height(h);
-                    }
-                }
+                sensor_positions.push((observable, (x, y, z), h));
             } else if marker.contains("LEAP SECOND") {
                 let leap_str = content.split_at(40).0.trim();
                 let parsed = Leap::from_str(leap_str)?;
@@ -917,6 +912,15 @@ impl Header {
             }
         }
 
+        // sensors may be described after their position
+        for (observable, position, height) in sensor_positions {
+            for sensor in meteo.sensors.iter_mut() {
+                if sensor.observable == observable {
+                    *sensor = sensor.with_position(position).with_height(height);
+                }
+            }
+        }
+
         Ok(Header {
             version,
             rinex_type,
-- 
2.43.0


From 660e9ebe2b8c20d1a334cdf67420534e81ccc9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 054/131] fix: DOI, license and station information are 60
 columns wide

---
 src/header/parsing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 16d3b01..e3604b0 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -465,7 +465,7 @@ impl Header {
                 let parsed = Leap::from_str(leap_str)?;
                 leap = Some(parsed.clone());
             } else if marker.contains("DOI") {
-                let content = content.split_at(40).0.trim(); //  TODO: confirm please
+                let content = content.trim();
                 if content.len() > 0 {
                     doi = Some(content.to_string());
                 }
@@ -473,12 +473,12 @@ impl Header {
                 //TODO V > 3
                 // nb# of merged files
             } else if marker.contains("STATION INFORMATION") {
-                let url = content.split_at(40).0.trim(); //TODO confirm please
+                let url = content.trim();
                 if url.len() > 0 {
                     station_url = Some(url.to_string());
                 }
             } else if marker.contains("LICENSE OF USE") {
-                let lic = content.split_at(40).0.trim(); //TODO confirm please
+                let lic = content.trim();
                 if lic.len() > 0 {
                     license = Some(lic.to_string());
                 }
-- 
2.43.0


From 9f6f6e04a6c0a04f706c9df19587e34a70f893c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 055/131] fix: antenna eccentricities may precede the antenna,
 and are 14 column fields

---
 src/header/parsing.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index e3604b0..ce9a215 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -513,22 +513,25 @@ impl Header {
                 let (sn, rem) = content.split_at(20);
                 let (model, _) = rem.split_at(20);
 
+                let antenna = rcvr_antenna.unwrap_or_default();
                 rcvr_antenna = Some(
-                    Antenna::default()
+                    antenna
                         .with_model(model.trim())
                         .with_serial_number(sn.trim()),
                 );
             } else if marker.contains("ANTENNA: DELTA X/Y/Z") {
                 // Antenna Base/Reference Coordinates
-                let items: Vec<&str> = content.split_ascii_whitespace().collect();
+                let (x, rem) = content.split_at(14);
+                let (y, rem) = rem.split_at(14);
+                let (z, _) = rem.split_at(14);
 
-                let x = items[0].trim();
+                let x = x.trim();
                 let x = f64::from_str(x).or(Err(ParsingError::AntennaCoordinates))?;
 
-                let y = items[1].trim();
+                let y = y.trim();
                 let y = f64::from_str(y).or(Err(ParsingError::AntennaCoordinates))?;
 
-                let z = items[2].trim();
+                let z = z.trim();
                 let z = f64::from_str(z).or(Err(ParsingError::AntennaCoordinates))?;
 
                 if let Some(ant) = &mut rcvr_antenna {
@@ -538,9 +541,9 @@ impl Header {
                 }
             } else if marker.contains("ANTENNA: DELTA H/E/N") {
                 // Antenna H/E/N eccentricity components
-                let (h, rem) = content.split_at(15);
-                let (e, rem) = rem.split_at(15);
-                let (n, _) = rem.split_at(15);
+                let (h, rem) = content.split_at(14);
+                let (e, rem) = rem.split_at(14);
+                let (n, _) = rem.split_at(14);
                 if let Ok(h) = f64::from_str(h.trim()) {
                     if let Ok(e) = f64::from_str(e.trim()) {
                         if let Ok(n) = f64::from_str(n.trim()) {
-- 
2.43.0


From 9a9be5d6b6f178441f485eb338b2960e8f032102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 056/131] fix: GLONASS slots are fixed columns

---
 src/header/parsing.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index ce9a215..6c5cbeb 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -680,10 +680,12 @@ impl Header {
                 //TODO
                 // This should be used when dealing with Glonass carriers
 
-                let slots = content.split_at(4).1.trim();
-                for i in 0..num_integer::div_ceil(slots.len(), 7) {
-                    let svnn = &slots[i * 7..i * 7 + 4];
-                    let chx = &slots[i * 7 + 4..std::cmp::min(i * 7 + 4 + 3, slots.len())];
+                let slots = content.split_at(4).1;
+                for i in 0..slots.len() / 7 {
+                    let (svnn, chx) = slots[i * 7..(i + 1) * 7].split_at(4);
+                    if svnn.trim().is_empty() {
+                        continue;
+                    }
                     if let Ok(svnn) = SV::from_str(svnn.trim()) {
                         if let Ok(chx) = chx.trim().parse::<i8>() {
                             glo_channels.insert(svnn, chx);
-- 
2.43.0


From bed9fcfc124680f7275d75b22bb07a8ad744f2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 057/131] fix: ionospheric corrections of the header

---
 src/header/parsing.rs            | 2 +-
 src/navigation/ionosphere/mod.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 6c5cbeb..2eb0da5 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -802,7 +802,7 @@ impl Header {
                         // KB requires two lines
                         if let Some(ionod_model) = ionod_corrections.get_mut(&constell) {
                             let kb_model = ionod_model.as_klobuchar_mut().unwrap();
-                            if model_id.ends_with('A') {
+                            if model_id.trim_end().ends_with('A') {
                                 kb_model.alpha = alpha;
                                 kb_model.region = region;
                             } else {
diff --git a/src/navigation/ionosphere/mod.rs b/src/navigation/ionosphere/mod.rs
index 5aaba79..8b80ea3 100644
--- a/src/navigation/ionosphere/mod.rs
+++ b/src/navigation/ionosphere/mod.rs
@@ -34,7 +34,10 @@ impl IonosphereModel {
     /// Two models may exist: Klobuchar and NequickG.
     pub(crate) fn from_rinex3_header(header: &str) -> Result<Self, ParsingError> {
         let (system, rem) = header.split_at(5);
-        match system.trim() {
+        let rem = rem.replace("d", "e").replace("D", "E");
+        let rem = rem.as_str();
+        let system = system.trim();
+        match system {
             /*
              * Models that only needs 3 fields
              */
-- 
2.43.0


From 94039a81438f4ced0713029ef4a0fd84bf6d7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 058/131] fix: time system stated by TIME OF FIRST/LAST OBS
 prevails

---
 src/header/parsing.rs | 48 ++++++++++++++++++++++++-------------------
 src/record/parsing.rs | 30 ++++++++-------------------
 2 files changed, 36 insertions(+), 42 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 2eb0da5..ce56bc1 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -3,7 +3,7 @@ use crate::{
     antex::{HeaderFields as AntexHeader, Pcv},
     clock::{ClockProfileType, HeaderFields as ClockHeader, WorkClock},
     doris::{HeaderFields as DorisHeader, Station as DorisStation},
-    epoch::parse_ionex_utc as parse_ionex_utc_epoch,
+    epoch::{epoch_decompose, parse_ionex_utc as parse_ionex_utc_epoch},
     hardware::{Antenna, Receiver, SvAntenna},
     hatanaka::CRINEX,
     header::{DcbCompensation, Header, PcvCompensation},
@@ -585,32 +585,16 @@ impl Header {
                 // <o repeated for each satellite system
                 // <o blank field when no corrections applied
             } else if marker.contains("TIME OF FIRST OBS") {
-                let mut time_of_first_obs = Self::parse_time_of_obs(content)?;
-                match constellation {
-                    Some(Constellation::Mixed) | None => {},
-                    Some(c) => {
-                        // in case of OLD RINEX : fixed constellation
-                        //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_first_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
-                    },
-                }
+                let time_of_first_obs =
+                    Self::parse_time_of_obs_or_default(content, constellation)?;
                 if rinex_type == Type::DORIS {
                     doris.timeof_first_obs = Some(time_of_first_obs);
                 } else {
                     observation = observation.with_timeof_first_obs(time_of_first_obs);
                 }
             } else if marker.contains("TIME OF LAST OBS") {
-                let mut time_of_last_obs = Self::parse_time_of_obs(content)?;
-                match constellation {
-                    Some(Constellation::Mixed) | None => {},
-                    Some(c) => {
-                        // in case of OLD RINEX : fixed constellation
-                        //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_last_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
-                    },
-                }
+                let time_of_last_obs =
+                    Self::parse_time_of_obs_or_default(content, constellation)?;
 
                 if rinex_type == Type::DORIS {
                     doris.timeof_last_obs = Some(time_of_last_obs);
@@ -1004,10 +988,32 @@ impl Header {
         match code {
             "GLO" => Ok(TimeScale::UTC),
             "QZS" => Ok(TimeScale::QZSST),
+            "IRN" => Ok(TimeScale::GPST),
             code => Ok(TimeScale::from_str(code)?),
         }
     }
 
+    /// Parses TIME OF FIRST/LAST OBS. The time system may be omitted in
+    /// single constellation files (old revisions): it is then the one
+    /// of that constellation.
+    fn parse_time_of_obs_or_default(
+        content: &str,
+        constellation: Option<Constellation>,
+    ) -> Result<Epoch, ParsingError> {
+        let t = Self::parse_time_of_obs(content)?;
+
+        match constellation {
+            Some(Constellation::Mixed) | None => Ok(t),
+            Some(_) if content.get(44..).map_or(false, |ts| !ts.trim().is_empty()) => Ok(t),
+            Some(c) => {
+                let ts = c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                let (y, m, d, hh, mm, ss, ns) = epoch_decompose(t);
+                Epoch::maybe_from_gregorian(y, m, d, hh, mm, ss, ns, ts)
+                    .map_err(|_| ParsingError::DatetimeParsing)
+            },
+        }
+    }
+
     fn parse_time_of_obs(content: &str) -> Result<Epoch, ParsingError> {
         let (_, rem) = content.split_at(2);
         let (y, rem) = rem.split_at(4);
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 550961a..468f98b 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -122,27 +122,15 @@ impl Record {
         let mut obs_ts = TimeScale::default();
 
         if let Some(obs) = &header.obs {
-            match header.constellation {
-                Some(Constellation::Mixed) | None => {
-                    if let Some(t) = obs.timeof_first_obs {
-                        obs_ts = t.time_scale;
-                    } else {
-                        if let Some(t) = obs.timeof_first_obs {
-                            obs_ts = t.time_scale;
-                        } else {
-                            let t = obs
-                                .timeof_last_obs
-                                .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
-                            obs_ts = t.time_scale;
-                        }
-                    }
-                },
-                Some(constellation) => {
-                    obs_ts = constellation
-                        .timescale()
-                        .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
-                },
-            }
+            obs_ts = match (obs.timeof_first_obs.or(obs.timeof_last_obs), header.constellation) {
+                // header defines it
+                (Some(t), _) => t.time_scale,
+                // otherwise: that of the constellation
+                (None, Some(constellation)) => constellation
+                    .timescale()
+                    .ok_or(ParsingError::BadObsBadTimescaleDefinition)?,
+                (None, None) => return Err(ParsingError::BadObsBadTimescaleDefinition),
+            };
         }
 
         // Clock RINEX TimeScale definition.
-- 
2.43.0


From 2b29420494c821215d49704e6ba740bc21aba9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 059/131] fix: meteo sensors when formatting

---
 src/meteo/header.rs | 2 +-
 src/meteo/sensor.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 071ad46..eef8a0e 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -55,7 +55,7 @@ impl HeaderFields {
         }
 
         for sensor in self.sensors.iter() {
-            writeln!(w, "{}", sensor)?;
+            write!(w, "{}", sensor)?;
         }
 
         Ok(())
diff --git a/src/meteo/sensor.rs b/src/meteo/sensor.rs
index 71197c9..57014aa 100644
--- a/src/meteo/sensor.rs
+++ b/src/meteo/sensor.rs
@@ -133,7 +133,7 @@ impl std::fmt::Display for Sensor {
         }
 
         if let Some(accuracy) = self.accuracy {
-            write!(f, "{:^11.1}", accuracy)?
+            write!(f, "{:7.1}    ", accuracy)?
         } else {
             write!(f, "{:11}", "")?
         }
-- 
2.43.0


From 36800539d67ee4edd4f7326e384b8b1a4513919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 060/131] fix: antenna coordinates when formatting

---
 src/hardware.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hardware.rs b/src/hardware.rs
index 4436c7c..7b8561d 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -109,7 +109,7 @@ impl Antenna {
                 "{}",
                 fmt_rinex(
                     &format!("{:14.4}{:14.4}{:14.4}", coords.0, coords.1, coords.2),
-                    "APPROX POSITION XYZ"
+                    "ANTENNA: DELTA X/Y/Z"
                 )
             )?;
         }
-- 
2.43.0


From 4b2122d2613daa582c5cdb340eab35e38d0ea373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 061/131] fix: observation header formatting

---
 src/header/formatting.rs | 46 +++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index e75727e..635e1b1 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -7,6 +7,7 @@ use crate::{
     types::Type,
 };
 
+use itertools::Itertools;
 use std::io::{BufWriter, Write};
 
 impl Header {
@@ -62,34 +63,20 @@ impl Header {
             leap.format(w)?;
         }
 
-        let num_channels = self.glo_channels.len();
+        let channels = self.glo_channels.iter().sorted().collect::<Vec<_>>();
 
-        if num_channels > 0 {
-            write!(w, "{:3} ", num_channels,)?;
-        }
-
-        let mut modulo = 0;
-        for (nth, (sv, channel)) in self.glo_channels.iter().enumerate() {
-            write!(w, "{:x} {:2} ", sv, channel,)?;
-
-            if nth == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                write!(w, "GLONASS SLOT / FRQ #\n    ")?;
+        for (nth, line) in channels.chunks(NUM_GLO_CHANNELS_PER_LINE).enumerate() {
+            let mut content = if nth == 0 {
+                format!("{:3} ", channels.len())
             } else {
-                if (nth % NUM_GLO_CHANNELS_PER_LINE) == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                    write!(w, "GLONASS SLOT / FRQ #\n    ")?;
-                }
-            }
+                "    ".to_string()
+            };
 
-            modulo = nth % NUM_GLO_CHANNELS_PER_LINE;
-        }
+            for (sv, channel) in line {
+                content.push_str(&format!("{:x} {:2} ", sv, channel));
+            }
 
-        if modulo > 0 && modulo != NUM_GLO_CHANNELS_PER_LINE - 1 {
-            writeln!(
-                w,
-                "{:>width$}",
-                "GLONASS SLOT / FRQ #",
-                width = 79 - 9 - (modulo + 1) * 6
-            )?;
+            writeln!(w, "{}", fmt_rinex(content.trim_end(), "GLONASS SLOT / FRQ #"))?;
         }
 
         //TODO
@@ -161,13 +148,18 @@ impl Header {
                     )?;
                 },
                 Some(c) => {
+                    // system is identified by its first letter
+                    let system = match c {
+                        Constellation::GPS => c.to_string(),
+                        c => format!("{:x} ({})", c, c),
+                    };
                     writeln!(
                         w,
                         "{}",
                         fmt_rinex(
                             &format!(
-                                "{:6}.{:02}           OBSERVATION DATA    {:x<20}",
-                                major, minor, c
+                                "{:6}.{:02}           OBSERVATION DATA    {}",
+                                major, minor, system
                             ),
                             "RINEX VERSION / TYPE"
                         )
@@ -283,7 +275,7 @@ impl Header {
             writeln!(
                 w,
                 "{}",
-                fmt_rinex(&format!("{:6}", interval.to_seconds()), "INTERVAL")
+                fmt_rinex(&format!("{:10.3}", interval.to_seconds()), "INTERVAL")
             )?;
         }
         Ok(())
-- 
2.43.0


From 4c96ad267b17f59cb49ea900f1a774e9ddb2af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 062/131] fix: header that is not plain ASCII

---
 src/header/parsing.rs | 34 +++++++++++++++++++++++++---------
 src/lib.rs            | 41 +++++++++++++++++++++++++++++++++++++++--
 2 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index ce56bc1..3cf45c6 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -11,6 +11,7 @@ use crate::{
         HeaderFields as IonexHeaderFields, MappingFunction as IonexMappingFunction,
         RefSystem as IonexRefSystem,
     },
+    is_rinex_comment,
     leap::Leap,
     linspace::Linspace,
     marker::{GeodeticMarker, MarkerType},
@@ -18,7 +19,9 @@ use crate::{
     navigation::{IonosphereModel, KbModel},
     observable::Observable,
     observation::HeaderFields as ObservationHeader,
+    parse_sv,
     prelude::{Constellation, Duration, Epoch, ParsingError, TimeScale, COSPAR, DOMES, SV},
+    read_line, to_ascii,
     types::Type,
     version::Version,
 };
@@ -85,12 +88,27 @@ impl Header {
         let mut ionex = IonexHeaderFields::default();
         let mut doris = DorisHeader::default();
 
-        for l in reader.lines() {
-            let line = l.unwrap();
+        let mut line_buf = String::with_capacity(128);
+
+        while let Ok(size) = read_line(reader, &mut line_buf) {
+            if size == 0 {
+                break; // reached EOS
+            }
+
+            // RINEX is ASCII: only comments may tolerate something else
+            let line = match is_rinex_comment(&line_buf) {
+                true => line_buf.trim_end().to_string(),
+                false => to_ascii(line_buf.trim_end_matches(['\r', '\n'])),
+            };
+
+            line_buf.clear();
+
             if line.len() < 60 {
                 continue; // --> invalid header content
             }
-            let (content, marker) = line.split_at(60);
+
+            let column = line.char_indices().nth(60).map_or(line.len(), |(i, _)| i);
+            let (content, marker) = line.split_at(column);
             ///////////////////////////////
             // [0] END OF HEADER
             //     --> done parsing
@@ -183,7 +201,7 @@ impl Header {
                     let (model, rem) = content.split_at(10);
                     let (svnn, rem) = rem.split_at(10);
                     let (cospar, _) = rem.split_at(10);
-                    if let Ok(sv) = SV::from_str(svnn.trim()) {
+                    if let Ok(sv) = parse_sv(svnn.trim()) {
                         if let Some(a) = &mut sv_antenna {
                             *a = a
                                 .with_sv(sv)
@@ -585,16 +603,14 @@ impl Header {
                 // <o repeated for each satellite system
                 // <o blank field when no corrections applied
             } else if marker.contains("TIME OF FIRST OBS") {
-                let time_of_first_obs =
-                    Self::parse_time_of_obs_or_default(content, constellation)?;
+                let time_of_first_obs = Self::parse_time_of_obs_or_default(content, constellation)?;
                 if rinex_type == Type::DORIS {
                     doris.timeof_first_obs = Some(time_of_first_obs);
                 } else {
                     observation = observation.with_timeof_first_obs(time_of_first_obs);
                 }
             } else if marker.contains("TIME OF LAST OBS") {
-                let time_of_last_obs =
-                    Self::parse_time_of_obs_or_default(content, constellation)?;
+                let time_of_last_obs = Self::parse_time_of_obs_or_default(content, constellation)?;
 
                 if rinex_type == Type::DORIS {
                     doris.timeof_last_obs = Some(time_of_last_obs);
@@ -670,7 +686,7 @@ impl Header {
                     if svnn.trim().is_empty() {
                         continue;
                     }
-                    if let Ok(svnn) = SV::from_str(svnn.trim()) {
+                    if let Ok(svnn) = parse_sv(svnn.trim()) {
                         if let Ok(chx) = chx.trim().parse::<i8>() {
                             glo_channels.insert(svnn, chx);
                         }
diff --git a/src/lib.rs b/src/lib.rs
index cfd4fa8..c790d0e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,7 +77,7 @@ mod tests;
 use std::{
     collections::HashMap,
     fs::File,
-    io::{BufReader, BufWriter, Read, Write},
+    io::{BufRead, BufReader, BufWriter, Read, Write},
     path::Path,
     str::FromStr,
 };
@@ -234,6 +234,39 @@ pub(crate) fn is_rinex_comment(content: &str) -> bool {
     content.len() > 60 && content.trim_end().ends_with("COMMENT")
 }
 
+/// Same as [str::split_at] for lines that may be trimmed or truncated:
+/// missing columns are blank.
+pub(crate) fn split_columns(line: &str, column: usize) -> (&str, &str) {
+    if line.is_char_boundary(column) {
+        line.split_at(column)
+    } else {
+        (line, "")
+    }
+}
+
+/// [SV] parsing attempt, that tolerates blank fields.
+pub(crate) fn parse_sv(desc: &str) -> Result<SV, ParsingError> {
+    match desc {
+        "" => Ok(SV::from_str("?")?), // invalid
+        desc => Ok(SV::from_str(desc)?),
+    }
+}
+
+/// Reads next line into this buffer, without requiring it to be valid UTF-8.
+pub(crate) fn read_line<R: BufRead>(reader: &mut R, buf: &mut String) -> std::io::Result<usize> {
+    let mut bytes = Vec::with_capacity(128);
+    let size = reader.read_until(b'\n', &mut bytes)?;
+    buf.push_str(&String::from_utf8_lossy(&bytes));
+    Ok(size)
+}
+
+/// RINEX is ASCII: anything else is replaced, so columns remain aligned.
+pub(crate) fn to_ascii(line: &str) -> String {
+    line.chars()
+        .map(|c| if c.is_ascii() { c } else { '?' })
+        .collect()
+}
+
 /*
  * macro to format one header line or a comment
  */
@@ -1462,7 +1495,11 @@ impl Rinex {
                         }
                     },
                     AntennaMatcher::SerialNumber(sn) => {
-                        if rx_ant.serial_number.as_ref().map(|sn| sn.to_lowercase()).as_ref()
+                        if rx_ant
+                            .serial_number
+                            .as_ref()
+                            .map(|sn| sn.to_lowercase())
+                            .as_ref()
                             == Some(sn)
                         {
                             freqdata
-- 
2.43.0


From 107621d034bac730b638dfd825f8844cf01a95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 063/131] fix: body that is not plain ASCII

---
 src/record/parsing.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 468f98b..03d7c36 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -13,6 +13,7 @@ use crate::{
     epoch::parse_ionex_utc as parse_ionex_utc_epoch,
     hatanaka::DecompressorExpert,
     ionex::{
+        is_end_of_map,
         is_new_height_map,
         is_new_rms_map,
         is_new_tec_map,
@@ -122,7 +123,10 @@ impl Record {
         let mut obs_ts = TimeScale::default();
 
         if let Some(obs) = &header.obs {
-            obs_ts = match (obs.timeof_first_obs.or(obs.timeof_last_obs), header.constellation) {
+            obs_ts = match (
+                obs.timeof_first_obs.or(obs.timeof_last_obs),
+                header.constellation,
+            ) {
                 // header defines it
                 (Some(t), _) => t.time_scale,
                 // otherwise: that of the constellation
-- 
2.43.0


From b802f4f8c0941c65468edc4e391af47508435ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 064/131] fix: clock: lines shorter than their columns, number
 of data values

---
 src/clock/record.rs | 93 +++++++++++++++++----------------------------
 1 file changed, 35 insertions(+), 58 deletions(-)

diff --git a/src/clock/record.rs b/src/clock/record.rs
index 2cf04b0..3879cf6 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -4,7 +4,9 @@ use std::{collections::BTreeMap, str::FromStr};
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    parse_sv,
     prelude::{Epoch, ParsingError, TimeScale, Version, SV},
+    split_columns,
 };
 
 #[cfg(feature = "processing")]
@@ -159,17 +161,17 @@ pub(crate) fn parse_epoch(
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
 
     const LIMIT: Version = Version { major: 3, minor: 4 };
-    let (dtype, rem) = line.split_at(3);
+    let (dtype, rem) = split_columns(line, 3);
     let profile_type = ClockProfileType::from_str(dtype.trim())?;
 
     // names are longer in modern revisions
     let name_len = if version < LIMIT { 5 } else { 10 };
-    let (name, rem) = rem.split_at(name_len);
+    let (name, rem) = split_columns(rem, name_len);
     let name = name.trim();
 
     // a station may be named like a vehicle
     let clock_type = match profile_type {
-        ClockProfileType::AS | ClockProfileType::MS => match SV::from_str(name) {
+        ClockProfileType::AS | ClockProfileType::MS => match parse_sv(name) {
             Ok(sv) => ClockType::SV(sv),
             _ => ClockType::Station(name.to_string()),
         },
@@ -179,68 +181,43 @@ pub(crate) fn parse_epoch(
     // Epoch: Y on 4 digits, even on RINEX2
     const OFFSET: usize = "yyyy mm dd hh mm sssssssssss".len();
 
-    let (epoch, rem) = rem.split_at(OFFSET);
+    let (epoch, rem) = split_columns(rem, OFFSET);
     let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
     // nb of data fields
-    let (_n, rem) = rem.split_at(4);
+    let (num_fields, rem) = split_columns(rem, 4);
+    let num_fields = num_fields
+        .trim()
+        .parse::<usize>()
+        .map_err(|_| ParsingError::ClockProfile)?;
+
+    let parse_field = |item: &str| item.parse::<f64>().map_err(|_| ParsingError::ClockProfile);
+
+    // continuation line: mandatory when more than two fields are declared,
+    // tolerated otherwise
+    let mut next_line = lines.next().unwrap_or_default();
+    if num_fields < 3
+        && next_line
+            .split_ascii_whitespace()
+            .any(|item| parse_field(item).is_err())
+    {
+        next_line = "";
+    }
 
     // data fields
     let mut profile = ClockProfile::default();
+    let mut items = rem.split_ascii_whitespace();
+
+    // clock bias always exists
+    profile.bias = parse_field(items.next().ok_or(ParsingError::ClockProfile)?)?;
+    profile.bias_dev = items.next().map(parse_field).transpose()?;
+
+    let mut items = next_line.split_ascii_whitespace();
+    profile.drift = items.next().map(parse_field).transpose()?;
+    profile.drift_dev = items.next().map(parse_field).transpose()?;
+    profile.drift_change = items.next().map(parse_field).transpose()?;
+    profile.drift_change_dev = items.next().map(parse_field).transpose()?;
 
-    for (index, item) in rem.split_ascii_whitespace().enumerate() {
-        match index {
-            0 => {
-                profile.bias = item
-                    .trim()
-                    .parse::<f64>()
-                    .map_err(|_| ParsingError::ClockProfile)?;
-            },
-            1 => {
-                profile.bias_dev = Some(
-                    item.trim()
-                        .parse::<f64>()
-                        .map_err(|_| ParsingError::ClockProfile)?,
-                );
-            },
-            _ => {},
-        }
-    }
-    for line in lines {
-        for (index, item) in line.split_ascii_whitespace().enumerate() {
-            match index {
-                0 => {
-                    profile.drift = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                1 => {
-                    profile.drift_dev = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                2 => {
-                    profile.drift_change = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                3 => {
-                    profile.drift_change_dev = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                _ => {},
-            }
-        }
-    }
     Ok((
         epoch,
         ClockKey {
-- 
2.43.0


From 10f6f14aed50dce6204a289d9b4f1baab45c5f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 065/131] fix: navigation: lines shorter than their columns

---
 src/navigation/earth_orientation.rs    | 19 ++++++++---------
 src/navigation/ephemeris/parsing.rs    | 28 +++++++++++++-------------
 src/navigation/ionosphere/bdgim.rs     | 15 +++++++-------
 src/navigation/ionosphere/klobuchar.rs | 15 +++++++-------
 src/navigation/ionosphere/nequick_g.rs |  7 ++++---
 src/navigation/parsing/mod.rs          |  8 +++++---
 src/navigation/parsing/v4.rs           | 10 +++++----
 src/navigation/system_time.rs          | 11 +++++-----
 8 files changed, 61 insertions(+), 52 deletions(-)

diff --git a/src/navigation/earth_orientation.rs b/src/navigation/earth_orientation.rs
index 6eb56c3..33440bf 100644
--- a/src/navigation/earth_orientation.rs
+++ b/src/navigation/earth_orientation.rs
@@ -4,6 +4,7 @@ use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
+    split_columns,
 };
 
 /// Earth Orientation Message
@@ -27,17 +28,17 @@ impl EarthOrientation {
         line_3: &str,
         ts: TimeScale,
     ) -> Result<(Epoch, Self), ParsingError> {
-        let (epoch, rem) = line_1.split_at(23);
-        let (xp, rem) = rem.split_at(19);
-        let (dxp, ddxp) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line_1, 23);
+        let (xp, rem) = split_columns(rem, 19);
+        let (dxp, ddxp) = split_columns(rem, 19);
 
-        let (_, rem) = line_2.split_at(23);
-        let (yp, rem) = rem.split_at(19);
-        let (dyp, ddyp) = rem.split_at(19);
+        let (_, rem) = split_columns(line_2, 23);
+        let (yp, rem) = split_columns(rem, 19);
+        let (dyp, ddyp) = split_columns(rem, 19);
 
-        let (t_tm, rem) = line_3.split_at(23);
-        let (dut, rem) = rem.split_at(19);
-        let (ddut, dddut) = rem.split_at(19);
+        let (t_tm, rem) = split_columns(line_3, 23);
+        let (dut, rem) = split_columns(rem, 19);
+        let (ddut, dddut) = split_columns(rem, 19);
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 13166e7..f31c2e2 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -1,9 +1,9 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
-    navigation::{
-        orbits::closest_nav_standards, parse_f64, Ephemeris, NavMessageType, OrbitItem,
-    },
+    navigation::{orbits::closest_nav_standards, parse_f64, Ephemeris, NavMessageType, OrbitItem},
+    parse_sv,
     prelude::{Constellation, Epoch, ParsingError, TimeScale, Version, SV},
+    split_columns,
 };
 
 use std::{collections::HashMap, str::Lines};
@@ -98,12 +98,12 @@ impl Ephemeris {
             false => 4,
         };
 
-        let (svnn, rem) = line.split_at(svnn_offset);
-        let (date, rem) = rem.split_at(19);
-        let (clk_bias, rem) = rem.split_at(19);
-        let (clk_dr, clk_drr) = rem.split_at(19);
+        let (svnn, rem) = split_columns(line, svnn_offset);
+        let (date, rem) = split_columns(rem, 19);
+        let (clk_bias, rem) = split_columns(rem, 19);
+        let (clk_dr, clk_drr) = split_columns(rem, 19);
 
-        let sv = match svnn.trim().parse::<SV>() {
+        let sv = match parse_sv(svnn.trim()) {
             Ok(sv) => sv,
             Err(_) => {
                 // In very old RINex, it is possible to wind up here
@@ -112,7 +112,7 @@ impl Ephemeris {
                 // to exist in old revision anyway. We let the possibility to fail
                 // on incorrect content here.
                 let desc = format!("{:x}{:02}", constellation, svnn.trim());
-                desc.parse::<SV>()?
+                parse_sv(&desc)?
             },
         };
 
@@ -167,13 +167,13 @@ impl Ephemeris {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (svnn, rem) = line.split_at(4);
-        let sv = svnn.trim().parse::<SV>()?;
-        let (epoch, rem) = rem.split_at(19);
+        let (svnn, rem) = split_columns(line, 4);
+        let sv = parse_sv(svnn.trim())?;
+        let (epoch, rem) = split_columns(rem, 19);
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
-        let (clk_bias, rem) = rem.split_at(19);
-        let (clk_dr, clk_drr) = rem.split_at(19);
+        let (clk_bias, rem) = split_columns(rem, 19);
+        let (clk_dr, clk_drr) = split_columns(rem, 19);
 
         let clock_bias = parse_f64(clk_bias).map_err(|_| ParsingError::ClockParsing)?;
 
diff --git a/src/navigation/ionosphere/bdgim.rs b/src/navigation/ionosphere/bdgim.rs
index 12c08b8..921984f 100644
--- a/src/navigation/ionosphere/bdgim.rs
+++ b/src/navigation/ionosphere/bdgim.rs
@@ -2,6 +2,7 @@ use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
+    split_columns,
 };
 
 /// BDGIM Model payload
@@ -23,23 +24,23 @@ impl BdModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, a2) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line, 23);
+        let (a0, rem) = split_columns(rem, 19);
+        let (a1, a2) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a3, rem) = line.split_at(23);
-        let (a4, rem) = rem.split_at(19);
-        let (a5, a6) = rem.split_at(19);
+        let (a3, rem) = split_columns(line, 23);
+        let (a4, rem) = split_columns(rem, 19);
+        let (a5, a6) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a7, a8) = line.split_at(23);
+        let (a7, a8) = split_columns(line, 23);
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
diff --git a/src/navigation/ionosphere/klobuchar.rs b/src/navigation/ionosphere/klobuchar.rs
index 33cb8ac..b0ce246 100644
--- a/src/navigation/ionosphere/klobuchar.rs
+++ b/src/navigation/ionosphere/klobuchar.rs
@@ -2,6 +2,7 @@ use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
+    split_columns,
 };
 
 /// Klobuchar Parameters region
@@ -46,23 +47,23 @@ impl KbModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, a2) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line, 23);
+        let (a0, rem) = split_columns(rem, 19);
+        let (a1, a2) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a3, rem) = line.split_at(23);
-        let (b0, rem) = rem.split_at(19);
-        let (b1, b2) = rem.split_at(19);
+        let (a3, rem) = split_columns(line, 23);
+        let (b0, rem) = split_columns(rem, 19);
+        let (b1, b2) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (b3, region) = line.split_at(23);
+        let (b3, region) = split_columns(line, 23);
 
         let region: KbRegionCode = match region.trim().len() {
             0 => KbRegionCode::Worldwide,
diff --git a/src/navigation/ionosphere/nequick_g.rs b/src/navigation/ionosphere/nequick_g.rs
index 4cd5c19..e1bda13 100644
--- a/src/navigation/ionosphere/nequick_g.rs
+++ b/src/navigation/ionosphere/nequick_g.rs
@@ -2,6 +2,7 @@ use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
+    split_columns,
 };
 
 use bitflags::bitflags;
@@ -40,9 +41,9 @@ impl NgModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, rem) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line, 23);
+        let (a0, rem) = split_columns(rem, 19);
+        let (a1, rem) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
diff --git a/src/navigation/parsing/mod.rs b/src/navigation/parsing/mod.rs
index a6104c9..5925adc 100644
--- a/src/navigation/parsing/mod.rs
+++ b/src/navigation/parsing/mod.rs
@@ -1,7 +1,9 @@
 use crate::{
     epoch::parse_utc as parse_utc_epoch,
     navigation::{Ephemeris, NavFrame, NavFrameType, NavKey, NavMessageType},
+    parse_sv,
     prelude::{Header, ParsingError, Version, SV},
+    split_columns,
 };
 
 mod v4;
@@ -44,7 +46,7 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
                           // to describe a PRN and an Epoch
         }
 
-        let (prn, _) = line.split_at(2);
+        let (prn, _) = split_columns(line, 2);
         if prn.trim().parse::<u8>().is_err() {
             return false;
         }
@@ -59,9 +61,9 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
         }
 
         // 1st entry matches a valid SV description
-        let (sv, _) = line.split_at(4);
+        let (sv, _) = split_columns(line, 4);
 
-        if sv.parse::<SV>().is_err() {
+        if parse_sv(sv.trim()).is_err() {
             return false;
         }
 
diff --git a/src/navigation/parsing/v4.rs b/src/navigation/parsing/v4.rs
index b9022d9..5c2fea4 100644
--- a/src/navigation/parsing/v4.rs
+++ b/src/navigation/parsing/v4.rs
@@ -3,7 +3,9 @@ use crate::{
         BdModel, EarthOrientation, Ephemeris, IonosphereModel, KbModel, NavFrame, NavFrameType,
         NavKey, NavMessageType, NgModel, SystemTime,
     },
+    parse_sv,
     prelude::{Constellation, ParsingError, SV},
+    split_columns,
 };
 
 /// ([NavKey], [NavFrame]) parsing attempt for a V4 frame.
@@ -16,13 +18,13 @@ pub fn parse(content: &str) -> Result<(NavKey, NavFrame), ParsingError> {
         _ => return Err(ParsingError::EmptyEpoch),
     };
 
-    let (_, rem) = line.split_at(2);
-    let (class, rem) = rem.split_at(4);
-    let (svnn, rem) = rem.split_at(4);
+    let (_, rem) = split_columns(line, 2);
+    let (class, rem) = split_columns(rem, 4);
+    let (svnn, rem) = split_columns(rem, 4);
 
     // frmtype defines message to follow
     let frmtype = class.trim().parse::<NavFrameType>()?;
-    let sv = svnn.trim().parse::<SV>()?;
+    let sv = parse_sv(svnn.trim())?;
     let msgtype = rem.trim().parse::<NavMessageType>()?;
 
     let ts = sv
diff --git a/src/navigation/system_time.rs b/src/navigation/system_time.rs
index 745e864..b2e4717 100644
--- a/src/navigation/system_time.rs
+++ b/src/navigation/system_time.rs
@@ -6,6 +6,7 @@ use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
+    split_columns,
 };
 
 /// System Time (offset) Message
@@ -24,15 +25,15 @@ pub struct SystemTime {
 
 impl SystemTime {
     pub fn parse(line_1: &str, line_2: &str, ts: TimeScale) -> Result<(Epoch, Self), ParsingError> {
-        let (epoch, rem) = line_1.split_at(23);
-        let (system, rem) = rem.split_at(5);
+        let (epoch, rem) = split_columns(line_1, 23);
+        let (system, rem) = split_columns(rem, 5);
         // Possible SBAS ID resides in between
         let utc = rem.get(34..).unwrap_or_default().trim().to_string();
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
-        let (a0, rem) = line_2.split_at(23);
-        let (a1, rem) = rem.split_at(19);
-        let (a2, time) = rem.split_at(19);
+        let (a0, rem) = split_columns(line_2, 23);
+        let (a1, rem) = split_columns(rem, 19);
+        let (a2, time) = split_columns(rem, 19);
         let t_tm = parse_f64(time).map_err(|_| ParsingError::SystemTimeData)?;
 
         Ok((
-- 
2.43.0


From 91f5e9a714518400679226835946ed308710efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 066/131] fix: observation: blank satellite

---
 src/observation/parsing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index b14b6f7..ab8ad74 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -4,6 +4,7 @@ use crate::{
     observation::{
         ClockObservation, EpochFlag, LliFlags, ObsKey, Observations, SignalObservation, SNR,
     },
+    parse_sv,
     prelude::{Constellation, Header, Observable, ParsingError, TimeScale, Version, SV},
 };
 
@@ -277,7 +278,7 @@ fn parse_signals_v2(
             let system = &systems_str[sv_ptr..sv_end].trim();
 
             // actual parsing
-            if let Ok(found) = SV::from_str(system) {
+            if let Ok(found) = parse_sv(system) {
                 sv = found;
             } else {
                 // This may fail on very old RINEX mono GNSS
-- 
2.43.0


From f90a8ed6ec9047df43540c1c70a235506837516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 067/131] fix: antex: lines shorter than their columns, START
 OF ANTENNA is a label

---
 src/antex/record.rs | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 961447c..9e09bf5 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -3,7 +3,9 @@ use std::{collections::HashMap, str::FromStr};
 use crate::{
     antex::{Antenna, AntennaSpecific, Calibration, CalibrationMethod, RxAntenna, SvAntenna},
     linspace::Linspace,
+    parse_sv,
     prelude::{Carrier, Epoch, ParsingError, COSPAR, SV},
+    split_columns,
 };
 
 #[cfg(feature = "serde")]
@@ -14,7 +16,8 @@ use serde::Serialize;
 /// this is not really an epoch but rather a group of dataset
 /// for this given antenna, there is no sampling data attached to it.
 pub(crate) fn is_new_epoch(content: &str) -> bool {
-    content.contains("START OF ANTENNA")
+    let first_line = content.lines().next().unwrap_or_default();
+    first_line.trim_end().ends_with("START OF ANTENNA")
 }
 
 /// Phase pattern description.
@@ -227,10 +230,10 @@ pub(crate) fn parse_antenna(
         // phase pattern rows carry no marker and may be short
         let (content, marker) = line.split_at(line.len().min(60));
         if marker.contains("TYPE / SERIAL NO") {
-            let (ant_igs, rem) = content.split_at(16); // IGS V.1.4 does not follow the specs ?
-            let (block1, rem) = rem.split_at(20 + 4);
-            let (block2, rem) = rem.split_at(10);
-            let (block3, _rem) = rem.split_at(10);
+            let (ant_igs, rem) = split_columns(content, 16); // IGS V.1.4 does not follow the specs ?
+            let (block1, rem) = split_columns(rem, 20 + 4);
+            let (block2, rem) = split_columns(rem, 10);
+            let (block3, _rem) = split_columns(rem, 10);
 
             let (block1, block2, block3) = (block1.trim(), block2.trim(), block3.trim());
             /*
@@ -239,7 +242,7 @@ pub(crate) fn parse_antenna(
             let specificities = match block2.is_empty() && block3.is_empty() {
                 false => AntennaSpecific::SvAntenna(SvAntenna {
                     igs_type: ant_igs.trim().to_string(),
-                    sv: SV::from_str(block1)?,
+                    sv: parse_sv(block1)?,
                     cospar: COSPAR::from_str(block3)?,
                 }),
                 true => AntennaSpecific::RxAntenna(RxAntenna {
@@ -255,10 +258,10 @@ pub(crate) fn parse_antenna(
             };
             antenna = antenna.with_specificities(specificities);
         } else if marker.contains("METH / BY / # / DATE") {
-            let (method, rem) = content.split_at(20);
-            let (agency, rem) = rem.split_at(20);
-            let (number, rem) = rem.split_at(10); // N#
-            let (date, _) = rem.split_at(10);
+            let (method, rem) = split_columns(content, 20);
+            let (agency, rem) = split_columns(rem, 20);
+            let (number, rem) = split_columns(rem, 10); // N#
+            let (date, _) = split_columns(rem, 10);
 
             let cal = Calibration {
                 method: CalibrationMethod::from_str(method.trim())?,
@@ -279,11 +282,11 @@ pub(crate) fn parse_antenna(
 
             antenna = antenna.with_validity_period(valid_from, valid_until);
         } else if marker.contains("SINEX CODE") {
-            let sinex = content.split_at(20).0;
+            let sinex = split_columns(content, 20).0;
 
             antenna.sinex_code = sinex.trim().to_string();
         } else if marker.contains("DAZI") {
-            let dazi = content.split_at(20).0.trim();
+            let dazi = split_columns(content, 20).0.trim();
             if let Ok(dazi) = f64::from_str(dazi) {
                 antenna = antenna.with_dazi(dazi)
             }
@@ -293,14 +296,14 @@ pub(crate) fn parse_antenna(
              * it is easy to determine it from the current infrastructure
              */
         } else if marker.contains("START OF FREQUENCY") {
-            let svnn = content.split_at(10).0;
-            let sv = SV::from_str(svnn.trim())?;
+            let svnn = split_columns(content, 10).0;
+            let sv = parse_sv(svnn.trim())?;
             frequency = Carrier::from_sv(sv)?;
             freq_data = FrequencyDependentData::default();
         } else if marker.contains("NORTH / EAST / UP") {
-            let (north, rem) = content.split_at(10);
-            let (east, rem) = rem.split_at(10);
-            let (up, _) = rem.split_at(10);
+            let (north, rem) = split_columns(content, 10);
+            let (east, rem) = split_columns(rem, 10);
+            let (up, _) = split_columns(rem, 10);
 
             let north = north
                 .trim()
@@ -319,9 +322,9 @@ pub(crate) fn parse_antenna(
 
             freq_data.apc_eccentricity = (north, east, up);
         } else if marker.contains("ZEN1 / ZEN2 / DZEN") {
-            let (start, rem) = content.split_at(8);
-            let (end, rem) = rem.split_at(6);
-            let (spacing, _) = rem.split_at(6);
+            let (start, rem) = split_columns(content, 8);
+            let (end, rem) = split_columns(rem, 6);
+            let (spacing, _) = split_columns(rem, 6);
 
             let start = start
                 .trim()
@@ -355,7 +358,7 @@ pub(crate) fn parse_antenna(
             // azimuth dependent phase pattern
         }
         //    } else if marker.contains("SINEX CODE") {
-        //        let sinex = content.split_at(10).0;
+        //        let sinex = split_columns(content, 10).0;
         //        antenna = antenna.with_sinex_code(sinex.trim())
         //        if line.contains("NOAZI") {
         //            frequency = frequency.add_pattern(Pattern::NonAzimuthDependent(values.clone()))
-- 
2.43.0


From b556ce1477578a5ba0322d9036ecd2a49b632385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 068/131] fix: ionex: content belongs to the map it is found in

---
 src/ionex/mod.rs      |   1 +
 src/ionex/parsing.rs  |  30 +++++++-----
 src/record/parsing.rs | 108 ++++++++++++++++++++++++------------------
 3 files changed, 81 insertions(+), 58 deletions(-)

diff --git a/src/ionex/mod.rs b/src/ionex/mod.rs
index 7801c96..c96dbc2 100644
--- a/src/ionex/mod.rs
+++ b/src/ionex/mod.rs
@@ -40,6 +40,7 @@ pub use system::RefSystem;
 pub use tec::TEC;
 
 pub(crate) use parsing::{
+    is_end_of_map,
     is_new_height_map,
     is_new_rms_map,
     is_new_tec_map,
diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index 0c3de6c..ae7e2a5 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -3,18 +3,25 @@
 use crate::{
     ionex::{IonexKey, Quantized, QuantizedCoordinates, Record, TEC},
     prelude::{Epoch, ParsingError},
+    split_columns,
 };
 
 pub fn is_new_tec_map(line: &str) -> bool {
-    line.contains("START OF TEC MAP")
+    line.trim_end().ends_with("START OF TEC MAP")
 }
 
 pub fn is_new_rms_map(line: &str) -> bool {
-    line.contains("START OF RMS MAP")
+    line.trim_end().ends_with("START OF RMS MAP")
 }
 
 pub fn is_new_height_map(line: &str) -> bool {
-    line.contains("START OF HEIGHT MAP")
+    line.trim_end().ends_with("START OF HEIGHT MAP")
+}
+
+/// Returns true if this line terminates a map, of any type
+pub fn is_end_of_map(line: &str) -> bool {
+    let marker = split_columns(line, 60).1.trim_end();
+    marker.starts_with("END OF ") && marker.ends_with(" MAP")
 }
 
 /// Parses Map grid to follow, returns
@@ -23,14 +30,15 @@ pub fn is_new_height_map(line: &str) -> bool {
 /// - long_spacing [ddeg]
 /// - fixed_altitude [km]
 fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
-    let (fixed_lat, rem) = line[2..].split_at(6);
+    let (_, rem) = split_columns(line, 2);
+    let (fixed_lat, rem) = split_columns(rem, 6);
 
     let fixed_lat = fixed_lat
         .trim()
         .parse::<f64>()
         .map_err(|_| ParsingError::IonexGridCoordinates)?;
 
-    let (long1, rem) = rem.split_at(6);
+    let (long1, rem) = split_columns(rem, 6);
 
     let long1 = long1
         .trim()
@@ -38,16 +46,16 @@ fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
         .map_err(|_| ParsingError::IonexGridCoordinates)?;
 
     // lon2 field is not used, we iterate using spacing starting @long1
-    let (_, rem) = rem.split_at(6);
+    let (_, rem) = split_columns(rem, 6);
 
-    let (long_spacing, rem) = rem.split_at(6);
+    let (long_spacing, rem) = split_columns(rem, 6);
 
     let long_spacing = long_spacing
         .trim()
         .parse::<f64>()
         .map_err(|_| ParsingError::IonexGridCoordinates)?;
 
-    let (fixed_alt, _) = rem.split_at(6);
+    let (fixed_alt, _) = split_columns(rem, 6);
 
     let fixed_alt = fixed_alt
         .trim()
@@ -93,7 +101,7 @@ pub fn parse_tec_map(
 
     for line in lines {
         if line.len() > 60 {
-            let (content, marker) = line.split_at(60);
+            let (content, marker) = split_columns(line, 60);
 
             // Handle special cases
             // * data scaler update
@@ -179,7 +187,7 @@ pub fn parse_rms_map(
 
     for line in lines {
         if line.len() > 60 {
-            let (content, marker) = line.split_at(60);
+            let (content, marker) = split_columns(line, 60);
             if marker.contains("END OF RMS MAP") {
                 return Ok(());
             } else if marker.contains("EXPONENT") {
@@ -254,7 +262,7 @@ pub fn parse_rms_map(
 
 //     for line in lines {
 //         if line.len() > 60 {
-//             let marker = line.split_at(60).1;
+//             let marker = split_columns(line, 60).1;
 //             if marker.contains("END OF HEIGHT MAP") {
 //                 return Ok(());
 //             } else if marker.contains("EXPONENT") {
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 03d7c36..b9ae0ff 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -35,7 +35,9 @@ use crate::{
         Record as ObservationRecord,
     },
     prelude::{Constellation, Epoch, Header, ParsingError, TimeScale},
+    read_line,
     record::{Comments, Record},
+    split_columns, to_ascii,
     types::Type,
 };
 
@@ -163,12 +165,15 @@ impl Record {
         //  in this case we use the previously identified Epoch
         //  and attach other kinds of maps
         let mut ionex_rec = IonexRecord::new();
-        let mut ionex_t = Epoch::default();
+        let mut ionex_t = Option::<Epoch>::None;
+        let mut inside_ionex_map = false;
         let mut ionex_tec_exponent = Default::default();
         let mut ionex_lat_exponent = Default::default();
         let mut ionex_long_exponent = Default::default();
         let mut ionex_alt_exponent = Default::default();
 
+        let is_ionex = header.rinex_type == Type::IonosphereMaps;
+
         if let Some(ionex) = &header.ionex {
             ionex_tec_exponent = ionex.exponent;
             ionex_lat_exponent = ionex.grid.latitude.quantization_exponent();
@@ -177,17 +182,21 @@ impl Record {
         }
 
         // Iterate and consume, one line at a time
-        while let Ok(size) = reader.read_line(&mut line_buf) {
+        while let Ok(size) = read_line(reader, &mut line_buf) {
             if size == 0 {
                 // reached EOS
                 // we might still have something to process prior exiting
                 eos |= true;
             }
 
+            if !line_buf.is_ascii() {
+                line_buf = to_ascii(&line_buf);
+            }
+
             // (special case) COMMENTS: store as is
             // CRINEX: comments inside an event are part of it
             if is_rinex_comment(&line_buf) && !(is_crinex && decompressor.inside_event()) {
-                let comment = line_buf.split_at(60).0.trim_end();
+                let comment = split_columns(&line_buf, 60).0.trim_end();
                 comment_content.push(comment.to_string());
 
                 // skip parsing
@@ -195,13 +204,18 @@ impl Record {
                 continue;
             }
 
+            // (special case) IONEX: content is attached to the map it is found in
+            if is_ionex && !eos && !inside_ionex_map && !Self::is_new_epoch(&line_buf, &header) {
+                line_buf.clear();
+                continue;
+            }
+
             // (special case) IONEX exponent scaling:
             // keep up to date, so data interpretation remains correct
-            if line_buf.contains("EXPONENT") {
+            if is_ionex && line_buf.contains("EXPONENT") {
                 // we don't tolerate invalid scaling specs.
                 // This assures that data interpretation is always correct.
-                ionex_tec_exponent = line_buf
-                    .split_at(60)
+                ionex_tec_exponent = split_columns(&line_buf, 60)
                     .0
                     .trim()
                     .parse::<i8>()
@@ -213,10 +227,10 @@ impl Record {
             }
 
             // (special case) IONEX temporal classification
-            if line_buf.contains("EPOCH OF CURRENT MAP") {
+            if is_ionex && line_buf.contains("EPOCH OF CURRENT MAP") {
                 // we do not tolerate invalid temporal specs
                 // This assures that data is always correctly sorted
-                ionex_t = parse_ionex_utc_epoch(line_buf.split_at(60).0)?;
+                ionex_t = Some(parse_ionex_utc_epoch(split_columns(&line_buf, 60).0)?);
 
                 // skip parsing
                 line_buf.clear();
@@ -225,7 +239,7 @@ impl Record {
 
             // (special case) COMMENTS: store as is
             if line_buf.contains("COMMENT") {
-                let content = line_buf.split_at(60).0.trim();
+                let content = split_columns(&line_buf, 60).0.trim();
                 if let Some(comments) = comments.get_mut(&comment_ts) {
                     comments.push(content.to_string());
                 } else {
@@ -356,45 +370,35 @@ impl Record {
                         },
 
                         Type::IonosphereMaps => {
-                            if is_new_rms_map(&epoch_buf) {
-                                match parse_ionex_rms_map(
-                                    &epoch_buf,
-                                    ionex_lat_exponent,
-                                    ionex_long_exponent,
-                                    ionex_alt_exponent,
-                                    ionex_tec_exponent,
-                                    ionex_t,
-                                    &mut ionex_rec,
-                                ) {
-                                    Ok(()) => {},
-                                    Err(_) => {},
-                                }
-                            } else if !is_new_height_map(&epoch_buf) && is_new_tec_map(&line_buf) {
-                                match parse_ionex_tec_map(
-                                    &epoch_buf,
-                                    ionex_lat_exponent,
-                                    ionex_long_exponent,
-                                    ionex_alt_exponent,
-                                    ionex_tec_exponent,
-                                    ionex_t,
-                                    &mut ionex_rec,
-                                ) {
-                                    Ok(()) => {},
-                                    Err(_) => {},
+                            if let Some(epoch) = ionex_t {
+                                let first_line = epoch_buf.lines().next().unwrap_or_default();
+                                if is_new_rms_map(first_line) {
+                                    match parse_ionex_rms_map(
+                                        &epoch_buf,
+                                        ionex_lat_exponent,
+                                        ionex_long_exponent,
+                                        ionex_alt_exponent,
+                                        ionex_tec_exponent,
+                                        epoch,
+                                        &mut ionex_rec,
+                                    ) {
+                                        Ok(()) => {},
+                                        Err(_) => {},
+                                    }
+                                } else if is_new_tec_map(first_line) && is_new_tec_map(&line_buf) {
+                                    match parse_ionex_tec_map(
+                                        &epoch_buf,
+                                        ionex_lat_exponent,
+                                        ionex_long_exponent,
+                                        ionex_alt_exponent,
+                                        ionex_tec_exponent,
+                                        epoch,
+                                        &mut ionex_rec,
+                                    ) {
+                                        Ok(()) => {},
+                                        Err(_) => {},
+                                    }
                                 }
-                            } else {
-                                // match parse_ionex_height_map(
-                                //     &epoch_buf,
-                                //     ionex_lat_exponent,
-                                //     ionex_long_exponent,
-                                //     ionex_alt_exponent,
-                                //     ionex_tec_exponent,
-                                //     ionex_t,
-                                //     &mut ionex_rec,
-                                // ) {
-                                //     Ok(()) => {},
-                                //     Err(_) => {},
-                                // }
                             }
                         },
                     }
@@ -406,6 +410,16 @@ impl Record {
                 epoch_buf.clear();
             }
 
+            // (special case) IONEX: each map comes with its own epoch
+            if is_ionex {
+                if Self::is_new_epoch(&line_buf, &header) {
+                    inside_ionex_map = true;
+                    ionex_t = None;
+                } else if is_end_of_map(&line_buf) {
+                    inside_ionex_map = false;
+                }
+            }
+
             // always stack new content
             epoch_buf.push_str(&line_buf);
 
-- 
2.43.0


From 92494a2c7731da44836404970f8aefb226422fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 069/131] fix: crinex: date that does not exist

---
 src/hatanaka/crinex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 9010148..7fb07b0 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -153,7 +153,7 @@ impl CRINEX {
             return Err(ParsingError::DatetimeFormat);
         }
 
-        let epoch = Epoch::from_gregorian_utc(year, month, day, hour, mins, 0, 0);
+        let epoch = Epoch::maybe_from_gregorian_utc(year, month, day, hour, mins, 0, 0)?;
         let s = self.with_prog(prog.trim());
         let s = s.with_date(epoch);
         Ok(s)
-- 
2.43.0


From 76263be24cc7d89056ca029b4f15d9e8fbc30168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 070/131] fix: file name: refuse what is not a standard name
 instead of panicking

---
 src/production/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index 9b6f300..9e5ee35 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -147,9 +147,12 @@ impl std::str::FromStr for ProductionAttributes {
     type Err = Error;
     fn from_str(fname: &str) -> Result<Self, Self::Err> {
         let fname = fname.to_uppercase();
+        if !fname.is_ascii() {
+            return Err(Error::NonStandardFileName);
+        }
         if fname.len() < 13 {
             let offset = fname.find('.').unwrap_or(0);
-            if offset != 8 {
+            if offset != 8 || fname.len() != 12 {
                 return Err(Error::NonStandardFileName);
             };
 
@@ -181,7 +184,8 @@ impl std::str::FromStr for ProductionAttributes {
             })
         } else {
             let offset = fname.find('.').unwrap_or(0);
-            if offset < 30 {
+            // "_XN.rnx" or "_FFU_XN.rnx"
+            if !matches!(offset, 30 | 34) || fname.len() < offset + 4 {
                 return Err(Error::NonStandardFileName);
             };
 
-- 
2.43.0


From 35bb808c0be407e109c6f21b8f91e61d4a3d9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 071/131] fix: file name: short names of compressed files

---
 src/production/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index 9e5ee35..02733c4 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -150,6 +150,11 @@ impl std::str::FromStr for ProductionAttributes {
         if !fname.is_ascii() {
             return Err(Error::NonStandardFileName);
         }
+        // short names, possibly followed by the suffix of a compressed file
+        let fname = match fname.get(8..9) {
+            Some(".") if fname.get(12..13) == Some(".") => fname[..12].to_string(),
+            _ => fname,
+        };
         if fname.len() < 13 {
             let offset = fname.find('.').unwrap_or(0);
             if offset != 8 || fname.len() != 12 {
-- 
2.43.0


From df67f8a3951424bc45ccc6e912c3413d95773e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 072/131] fix: file name: both digits of the batch number

---
 src/production/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index 02733c4..fb935b7 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -112,7 +112,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -128,7 +128,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -198,7 +198,7 @@ impl std::str::FromStr for ProductionAttributes {
                 .parse::<u32>()
                 .map_err(|_| Error::NonStandardFileName)?;
 
-            let batch = fname[5..6]
+            let batch = fname[4..6]
                 .parse::<u8>()
                 .map_err(|_| Error::NonStandardFileName)?;
 
-- 
2.43.0


From 39d078ec75ea4432cc8d42b652db92a2233de01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 073/131] fix: file name: two digit years of the 20th century

---
 src/lib.rs            | 10 +++++-----
 src/production/mod.rs |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c790d0e..5cfdd17 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -532,13 +532,13 @@ impl Rinex {
                     },
                 };
                 let yy = match &custom {
-                    Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                    Some(ref custom) => format!("{:02}", custom.year % 100),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
                             let yy = epoch_decompose(epoch).0;
-                            format!("{:02}", yy - 2_000)
+                            format!("{:02}", yy % 100)
                         } else {
-                            format!("{:02}", self.production.year - 2_000)
+                            format!("{:02}", self.production.year % 100)
                         }
                     },
                 };
@@ -562,11 +562,11 @@ impl Rinex {
                 };
                 if short {
                     let yy = match &custom {
-                        Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                        Some(ref custom) => format!("{:02}", custom.year % 100),
                         None => {
                             if let Some(epoch) = self.first_epoch() {
                                 let yy = epoch_decompose(epoch).0;
-                                format!("{:02}", yy - 2_000)
+                                format!("{:02}", yy % 100)
                             } else {
                                 "YY".to_string()
                             }
diff --git a/src/production/mod.rs b/src/production/mod.rs
index fb935b7..5433bed 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -174,7 +174,8 @@ impl std::str::FromStr for ProductionAttributes {
             };
 
             Ok(Self {
-                year: year + 2_000, // year uses 2 digit in old format
+                // year uses 2 digit in old format
+                year: if year < 80 { year + 2_000 } else { year + 1_900 },
                 name: fname[..name_offset].to_string(),
                 doy: {
                     fname[4..7]
-- 
2.43.0


From 07d61efffce0a1c2a8c8a311f700423f627c8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 074/131] fix: file name: yearly period

---
 src/production/ppu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/ppu.rs b/src/production/ppu.rs
index 2017d3a..591d2ea 100644
--- a/src/production/ppu.rs
+++ b/src/production/ppu.rs
@@ -56,7 +56,7 @@ impl std::fmt::Display for PPU {
             Self::QuarterHour => write!(f, "15M"),
             Self::Hourly => write!(f, "01H"),
             Self::Daily => write!(f, "01D"),
-            Self::Yearly => write!(f, "O1Y"),
+            Self::Yearly => write!(f, "01Y"),
             Self::Unspecified => write!(f, "00U"),
         }
     }
-- 
2.43.0


From e1d67178b6bcb4dfa6f9abc5a92713495a60c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 075/131] fix: file name: sampling periods are not rounded when
 they have an exact code

---
 src/production/ffu.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/production/ffu.rs b/src/production/ffu.rs
index bb21fc8..8f5a2fa 100644
--- a/src/production/ffu.rs
+++ b/src/production/ffu.rs
@@ -12,6 +12,21 @@ pub struct FFU {
 impl From<Duration> for FFU {
     fn from(dt: Duration) -> Self {
         let total_seconds = dt.to_seconds();
+        // prefer the unit that describes this period exactly
+        for (unit, seconds) in [
+            (Unit::Day, SECONDS_PER_DAY),
+            (Unit::Hour, SECONDS_PER_HOUR),
+            (Unit::Minute, SECONDS_PER_MINUTE),
+            (Unit::Second, 1.0),
+        ] {
+            let val = total_seconds / seconds;
+            if val.fract() == 0.0 && (1.0..100.0).contains(&val) {
+                return Self {
+                    val: val as u32,
+                    unit,
+                };
+            }
+        }
         if dt < SECONDS_PER_MINUTE * Unit::Second {
             Self {
                 val: total_seconds.round() as u32,
-- 
2.43.0


From 59692c53d196ef285e807351224773025600de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 076/131] fix: file name: sampling rates above 1 Hz

---
 src/production/ffu.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/production/ffu.rs b/src/production/ffu.rs
index 8f5a2fa..524512e 100644
--- a/src/production/ffu.rs
+++ b/src/production/ffu.rs
@@ -12,6 +12,12 @@ pub struct FFU {
 impl From<Duration> for FFU {
     fn from(dt: Duration) -> Self {
         let total_seconds = dt.to_seconds();
+        if dt < 1.0 * Unit::Second && dt >= 1.0 * Unit::Microsecond {
+            return Self {
+                val: dt.to_unit(Unit::Microsecond).round() as u32,
+                unit: Unit::Microsecond,
+            };
+        }
         // prefer the unit that describes this period exactly
         for (unit, seconds) in [
             (Unit::Day, SECONDS_PER_DAY),
@@ -66,6 +72,15 @@ impl std::fmt::Display for FFU {
             Unit::Minute => write!(f, "{:02}M", self.val),
             Unit::Hour => write!(f, "{:02}H", self.val),
             Unit::Day => write!(f, "{:02}D", self.val),
+            Unit::Microsecond => {
+                // frequencies: Hz, or hundreds of Hz
+                let hz = (1.0E6 / self.val as f64).round();
+                if hz < 100.0 {
+                    write!(f, "{:02}Z", hz)
+                } else {
+                    write!(f, "{:02}C", (hz / 100.0).round())
+                }
+            },
             Unit::Second | _ => write!(f, "{:02}S", self.val),
         }
     }
@@ -83,6 +98,13 @@ impl std::str::FromStr for FFU {
             Some('M') => Unit::Minute,
             Some('H') => Unit::Hour,
             Some('D') => Unit::Day,
+            Some(freq @ ('Z' | 'C')) if val > 0 => {
+                let hz = if freq == 'C' { val * 100 } else { val };
+                return Ok(Self {
+                    val: (1.0E6 / hz as f64).round() as u32,
+                    unit: Unit::Microsecond,
+                });
+            },
             _ => return Err(Error::InvalidFFU),
         };
         Ok(Self { val, unit })
-- 
2.43.0


From a5f004c042b17cc72ec0df47000c5720067304c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 077/131] fix: file name: the afternoon belongs to the same day

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5cfdd17..1f00792 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -524,7 +524,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = epoch.day_of_year().floor() as u32;
                             format!("{:03}", ddd)
                         } else {
                             format!("{:03}", self.production.doy)
@@ -553,7 +553,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = epoch.day_of_year().floor() as u32;
                             format!("{:03}", ddd)
                         } else {
                             "DDD".to_string()
@@ -763,7 +763,7 @@ impl Rinex {
             _ => {},
         }
         match first_epoch {
-            Some(t0) => attributes.doy = t0.day_of_year().round() as u32,
+            Some(t0) => attributes.doy = t0.day_of_year().floor() as u32,
             _ => {},
         }
 
-- 
2.43.0


From e4016b5814c561d13a98a9a2328b10d71b49a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 078/131] fix: file name: date of the first epoch in its own
 timescale

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1f00792..62678bf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -756,7 +756,7 @@ impl Rinex {
 
         let first_epoch = self.first_epoch();
         let last_epoch = self.last_epoch();
-        let first_epoch_gregorian = first_epoch.map(|t0| t0.to_gregorian_utc());
+        let first_epoch_gregorian = first_epoch.map(epoch_decompose);
 
         match first_epoch_gregorian {
             Some((y, _, _, _, _, _, _)) => attributes.year = y as u32,
-- 
2.43.0


From 21d29ec5691012e64ba26f019d015bc40506f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 079/131] fix: file name: data source of the file name or
 custom attributes

---
 src/lib.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 62678bf..484c28b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -624,15 +624,18 @@ impl Rinex {
                         },
                     };
 
+                    // file name attributes prevail, when they do specify it
+                    let src = custom
+                        .as_ref()
+                        .unwrap_or(&self.production)
+                        .v3_details
+                        .as_ref()
+                        .map(|details| details.data_src)
+                        .unwrap_or_default();
+
                     let src = match &header.rcvr {
-                        Some(_) => 'R', // means GNSS rcvr
-                        None => {
-                            if let Some(details) = &self.production.v3_details {
-                                details.data_src.to_char()
-                            } else {
-                                'U' // means: unspecified
-                            }
-                        },
+                        Some(_) if src == DataSource::Unknown => 'R', // means GNSS rcvr
+                        _ => src.to_char(),
                     };
 
                     let yyyy = match &custom {
-- 
2.43.0


From dfd2cb54abc8e4c502557b11ce5ba9c09c25a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 080/131] fix: file name: sampling rate of meteo files, and of
 files that hold a single epoch

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 484c28b..82b77cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -672,7 +672,7 @@ impl Rinex {
                     let ffu = match self.dominant_sampling_interval() {
                         Some(duration) => FFU::from(duration).to_string(),
                         None => {
-                            if let Some(ref custom) = custom {
+                            if let Some(custom) = custom.as_ref().or(Some(&self.production)) {
                                 if let Some(details) = &custom.v3_details {
                                     if let Some(ffu) = details.ffu {
                                         ffu.to_string()
@@ -688,9 +688,9 @@ impl Rinex {
                         },
                     };
 
-                    // ffu only in OBS file names
+                    // no ffu in NAV file names
                     let ffu = match rinextype {
-                        RinexType::ObservationData => Some(ffu),
+                        RinexType::ObservationData | RinexType::MeteoData => Some(ffu),
                         _ => None,
                     };
 
-- 
2.43.0


From e40b7155eb9b50165c3a04f0a56b1612da73d3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 081/131] fix: file name: data type of files that hold a single
 constellation

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 82b77cb..99b9094 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -583,6 +583,9 @@ impl Rinex {
                         RinexType::MeteoData => 'M',
                         RinexType::NavigationData => match constellation {
                             Some(Constellation::Glonass) => 'G',
+                            Some(Constellation::Galileo) => 'L',
+                            Some(Constellation::Mixed) => 'P',
+                            Some(constell) if constell.is_sbas() => 'H',
                             _ => 'N',
                         },
                         _ => unreachable!("unreachable"),
@@ -713,11 +716,14 @@ impl Rinex {
                     };
 
                     let fmt = match rinextype {
-                        RinexType::ObservationData => "MO".to_string(),
+                        RinexType::ObservationData => match constellation {
+                            Some(Constellation::Mixed) | None => "MO".to_string(),
+                            Some(constell) => format!("{:x}O", constell),
+                        },
                         RinexType::MeteoData => "MM".to_string(),
                         RinexType::NavigationData => match constellation {
                             Some(Constellation::Mixed) | None => "MN".to_string(),
-                            Some(constell) => format!("M{:x}", constell),
+                            Some(constell) => format!("{:x}N", constell),
                         },
                         _ => unreachable!("unreachable fmt"),
                     };
-- 
2.43.0


From 93043e95eeac93a059c72a03f3a8731b44f06143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 082/131] fix: file name: marker or agency names that are
 longer than the station code

---
 src/lib.rs            | 4 +---
 src/production/mod.rs | 7 +++++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 99b9094..2b99f43 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -511,9 +511,7 @@ impl Rinex {
         let mut filename = match rinextype {
             RinexType::IonosphereMaps => {
                 let name = match custom {
-                    Some(ref custom) => {
-                        custom.name[..std::cmp::min(3, custom.name.len())].to_string()
-                    },
+                    Some(ref custom) => custom.name.clone(),
                     None => self.production.name.clone(),
                 };
                 let region = match &custom {
diff --git a/src/production/mod.rs b/src/production/mod.rs
index 5433bed..b2dccb8 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -85,12 +85,18 @@ pub struct DetailedProductionAttributes {
 }
 
 impl ProductionAttributes {
+    /* upper case code that identifies the producer in a file name */
+    fn station_code(name: &str, size: usize) -> String {
+        name.chars().take(size).collect::<String>().to_uppercase()
+    }
     /* filename generator */
     pub(crate) fn ionex_format(name: &str, region: char, ddd: &str, yy: &str) -> String {
+        let name = Self::station_code(name, 3);
         format!("{}{}{}0.{}I", name, region, ddd, yy,)
     }
     /* filename generator */
     pub(crate) fn rinex_short_format(name: &str, ddd: &str, yy: &str, ext: char) -> String {
+        let name = Self::station_code(name, 4);
         format!("{}{}0.{}{}", &name, ddd, yy, ext,)
     }
     /* filename generator */
@@ -108,6 +114,7 @@ impl ProductionAttributes {
         fmt: &str,
         ext: &str,
     ) -> String {
+        let name = Self::station_code(name, 4);
         if let Some(ffu) = ffu {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}_{}.{}",
-- 
2.43.0


From 1d47068be2a4edc158012134d651756d2e784d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 083/131] fix: header: navigation files of a single
 constellation

---
 src/header/parsing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 3cf45c6..d2eadd6 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -265,7 +265,8 @@ impl Header {
                         } else if type_str.contains("IRNSS NAV DATA") {
                             constellation = Some(Constellation::IRNSS);
                         } else if type_str.contains("GNSS NAV DATA") {
-                            constellation = Some(Constellation::Mixed);
+                            constellation =
+                                Some(parse_system(constell_str).unwrap_or(Constellation::Mixed));
                         } else if type_str.eq("NAVIGATION DATA") {
                             if constell_str.is_empty() {
                                 // old GPS NAVIGATION DATA
-- 
2.43.0


From 4bbd5b025451dd903dd2567bafa9874331117926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 084/131] fix: signal combinations never mix two epochs

---
 src/observation/rinex/feature.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 4037acf..88bc87a 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -288,17 +288,6 @@ impl Rinex {
                 ret.insert(key, v_1 - v_2);
             }
         } else {
-            let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-                dt
-            } else {
-                if let Some(dt) = self.dominant_sampling_interval() {
-                    dt
-                } else {
-                    // can't proceed without sampling interval guess.
-                    return ret;
-                }
-            };
-
             let mut pr_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
             let mut phase_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
 
@@ -338,8 +327,7 @@ impl Rinex {
 
                     if let Some((last_seen, reference, f_1, w_1, ref_value)) = reference.get(&v.sv)
                     {
-                        if k.epoch - *last_seen > dominant_sampling {
-                            // avoid moving forward on data gaps
+                        if k.epoch != *last_seen {
                             // guards against substraction (a - b) from two different epochs
                             continue;
                         }
-- 
2.43.0


From d885a504858554a44989535eb24c8d67c2ea4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 085/131] fix: signal combinations whatever the order of the
 observables

---
 src/observation/rinex/feature.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 88bc87a..72a7c50 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -291,7 +291,13 @@ impl Rinex {
             let mut pr_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
             let mut phase_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
 
-            for (k, v) in self.signal_observations_iter() {
+            // reference signals first: they may be listed after the others
+            for (k, v) in self.observations_iter().flat_map(|(k, obs)| {
+                obs.signals
+                    .iter()
+                    .sorted_by_key(|sig| !sig.observable.is_l1_pivot(sig.sv.constellation))
+                    .map(move |sig| (*k, sig))
+            }) {
                 let is_phase_range = v.observable.is_phase_range_observable();
                 let is_pseudo_range = v.observable.is_pseudo_range_observable();
 
-- 
2.43.0


From 4795acbdf732c0f9594feed36cd6e23294ce9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 086/131] fix: Melbourne-Wubbena pairs the phase and code of
 one signal

---
 src/observation/rinex/feature.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 72a7c50..7f76faa 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -259,23 +259,21 @@ impl Rinex {
         let mut ret = BTreeMap::new();
 
         if combination == Combination::MelbourneWubbena {
-            for ((k_1, v_1), (_, v_2)) in self
+            // narrow lane of each code, for the matching phase
+            let narrow_lane = self
+                .signals_combination(Combination::NarrowLane)
+                .into_iter()
+                .filter(|(k, _)| k.reference.is_pseudo_range_observable())
+                .filter_map(|(k, v)| Some(((k.epoch, k.flag, k.sv, k.lhs.code()?), v)))
+                .collect::<HashMap<_, _>>();
+
+            for ((k_1, v_1), v_2) in self
                 .signals_combination(Combination::WideLane)
                 .iter()
                 .filter(|(k, _)| k.reference.is_phase_range_observable())
-                .zip(
-                    self.signals_combination(Combination::NarrowLane)
-                        .iter()
-                        .filter(|(k, _)| k.reference.is_pseudo_range_observable()),
-                )
-                .filter_map(|((k_1, v_1), (k_2, v_2))| {
-                    let lhs_1_code = k_1.lhs.code()?;
-                    let lhs_2_code = k_2.lhs.code()?;
-                    if lhs_1_code == lhs_2_code {
-                        Some(((k_1, v_1), (k_2, v_2)))
-                    } else {
-                        None
-                    }
+                .filter_map(|(k_1, v_1)| {
+                    let v_2 = narrow_lane.get(&(k_1.epoch, k_1.flag, k_1.sv, k_1.lhs.code()?))?;
+                    Some(((k_1, v_1), v_2))
                 })
             {
                 let key = CombinationKey {
-- 
2.43.0


From daad544675de619423ebddc17d5122c0dd01e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 087/131] fix: multipath of every epoch, the last one included

---
 src/observation/rinex/feature.rs | 123 +++++++++++++------------------
 1 file changed, 50 insertions(+), 73 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 7f76faa..1251ea0 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -408,98 +408,75 @@ impl Rinex {
     pub fn signals_multipath(&self) -> HashMap<MultipathKey, f64> {
         let mut ret = HashMap::new();
 
-        let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-            dt
-        } else {
-            if let Some(dt) = self.dominant_sampling_interval() {
-                dt
-            } else {
-                // can't proceed without sampling interval guess.
-                return ret;
-            }
-        };
-
-        let mut t = Epoch::default();
-
         // stores all encountered pseudo range
         let mut rho = HashMap::<(SV, Observable), f64>::new();
         // stores all encountered phase range
         let mut phi = HashMap::<(SV, Observable), (f64, f64)>::new();
 
-        for (k, v) in self.signal_observations_iter() {
-            let is_ph = v.observable.is_phase_range_observable();
-            let is_pr = v.observable.is_pseudo_range_observable();
-            let carrier = v.observable.carrier(v.sv.constellation);
+        for (k, obs) in self.observations_iter() {
+            for v in obs.signals.iter() {
+                let is_ph = v.observable.is_phase_range_observable();
+                let is_pr = v.observable.is_pseudo_range_observable();
+                let carrier = v.observable.carrier(v.sv.constellation);
 
-            if !is_ph && !is_pr || carrier.is_err() {
-                continue;
-            }
+                if !is_ph && !is_pr || carrier.is_err() {
+                    continue;
+                }
 
-            let carrier = carrier.unwrap();
-            let freq = carrier.frequency().powi(2);
-            let lambda = carrier.wavelength();
+                let carrier = carrier.unwrap();
+                let freq = carrier.frequency().powi(2);
+                let lambda = carrier.wavelength();
 
-            if k.epoch - t > dominant_sampling {
-                // data gap
-                rho.clear();
-                phi.clear();
+                // store value
+                if is_pr {
+                    rho.insert((v.sv, v.observable.clone()), v.value);
+                } else {
+                    phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
+                }
             }
 
-            if k.epoch - t == dominant_sampling {
-                // new epoch
-                // try to compute from previously stored data, then reset
-                for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
-                    let phi_code = phi_obs.code();
-                    if phi_code.is_none() {
-                        continue;
-                    }
+            for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
+                let phi_code = phi_obs.code();
+                if phi_code.is_none() {
+                    continue;
+                }
 
-                    let phi_code = phi_code.unwrap();
+                let phi_code = phi_code.unwrap();
 
-                    // locate associated pr
-                    for ((rho_sv, rho_obs), rho) in rho.iter() {
-                        let rho_code = rho_obs.code();
-                        if rho_code.is_none() {
-                            continue;
-                        }
+                // locate associated pr
+                for ((rho_sv, rho_obs), rho) in rho.iter() {
+                    let rho_code = rho_obs.code();
+                    if rho_code.is_none() {
+                        continue;
+                    }
 
-                        let rho_code = rho_code.unwrap();
-
-                        // same modulation / signal as reference phase
-                        if rho_code == phi_code && rho_sv == phi_sv {
-                            // now compute for any different l_j phase
-                            for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
-                                if phi_sv_j == phi_sv {
-                                    if phi_obs_j != phi_obs {
-                                        let key = MultipathKey {
-                                            epoch: t,
-                                            sv: *phi_sv,
-                                            signal: phi_obs.clone(),
-                                            rhs: phi_obs_j.clone(),
-                                        };
-                                        let value = rho
-                                            - phi_value
-                                            - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
-                                        ret.insert(key, value);
-                                    }
+                    let rho_code = rho_code.unwrap();
+
+                    // same modulation / signal as reference phase
+                    if rho_code == phi_code && rho_sv == phi_sv {
+                        // now compute for any different l_j phase
+                        for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
+                            if phi_sv_j == phi_sv {
+                                if phi_obs_j != phi_obs {
+                                    let key = MultipathKey {
+                                        epoch: k.epoch,
+                                        sv: *phi_sv,
+                                        signal: phi_obs.clone(),
+                                        rhs: phi_obs_j.clone(),
+                                    };
+                                    let value = rho
+                                        - phi_value
+                                        - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
+                                    ret.insert(key, value);
                                 }
                             }
                         }
                     }
                 }
-                //reset
-                rho.clear();
-                phi.clear();
-            }
-
-            // store value
-            if is_pr {
-                rho.insert((v.sv, v.observable.clone()), v.value);
-            } else {
-                phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
             }
-
-            t = k.epoch;
+            //reset
+            rho.clear();
+            phi.clear();
         }
         ret
     }
-- 
2.43.0


From a95f546540fcf11f1ff59990c8238edf3bb7f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 088/131] fix: multipath needs two carriers

---
 src/observation/rinex/feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 1251ea0..4ddbd7c 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -457,7 +457,7 @@ impl Rinex {
                         // now compute for any different l_j phase
                         for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
                             if phi_sv_j == phi_sv {
-                                if phi_obs_j != phi_obs {
+                                if phi_obs_j != phi_obs && freq_j != freq {
                                     let key = MultipathKey {
                                         epoch: k.epoch,
                                         sv: *phi_sv,
-- 
2.43.0


From 212dc36ea39aece92c8b7b8ff40779cb510f8b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 089/131] fix: GLONASS L2 is centered on 1246 MHz

---
 src/carrier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index dab6242..43b1621 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -188,8 +188,8 @@ impl Carrier {
             Self::G1(None) => 1602.0_f64,
             Self::G1(Some(c)) => 1602.0_f64 + (*c as f64 * 9.0 / 16.0),
             Self::G2a => 1248.06_f64,
-            Self::G2(None) => 1246.06_f64,
-            Self::G2(Some(c)) => 1246.06_f64 + (*c as f64 * 7.0 / 16.0),
+            Self::G2(None) => 1246.0_f64,
+            Self::G2(Some(c)) => 1246.0_f64 + (*c as f64 * 7.0 / 16.0),
             Self::G3 => 1202.025_f64,
             /*
              * BeiDou
-- 
2.43.0


From c742dbf911f964e6548bd3e146655cb40245f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 090/131] fix: carriers of the GLONASS precise codes of RINEX 2

---
 src/carrier.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 43b1621..ca71aaf 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -353,9 +353,9 @@ impl Carrier {
             _ => Err(Error::UnknownGPSObservable),
         }
     }
-    pub(crate) fn g1_codes() -> [&'static str; 12] {
+    pub(crate) fn g1_codes() -> [&'static str; 13] {
         [
-            "C1", "L1", "D1", "S1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
+            "C1", "L1", "D1", "S1", "P1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
         ]
     }
     pub(crate) fn g1a_codes() -> [&'static str; 12] {
@@ -363,9 +363,9 @@ impl Carrier {
             "C4A", "L4A", "D4A", "S4A", "C4B", "L4B", "D4B", "S4B", "C4X", "L4X", "D4X", "S4X",
         ]
     }
-    pub(crate) fn g2_codes() -> [&'static str; 12] {
+    pub(crate) fn g2_codes() -> [&'static str; 13] {
         [
-            "C2", "L2", "D2", "S2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
+            "C2", "L2", "D2", "S2", "P2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
         ]
     }
     pub(crate) fn g2a_codes() -> [&'static str; 12] {
-- 
2.43.0


From 21827343f0429518af195fed3c68a48c26cbb29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 091/131] fix: carriers of the Galileo bands 7 and 8 of RINEX 2

---
 src/carrier.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index ca71aaf..9f19da6 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -409,9 +409,9 @@ impl Carrier {
             "L1C", "D1C", "S1C", "C1X", "L1X", "D1X", "S1X", "C1Z", "L1Z", "D1Z", "S1Z",
         ]
     }
-    pub(crate) fn e5_codes() -> [&'static str; 16] {
+    pub(crate) fn e5_codes() -> [&'static str; 20] {
         [
-            "C5", "L5", "D5", "S5", "C8I", "L8I", "D8I", "S8I", "C8Q", "L8Q", "D8Q", "S8Q", "C8X",
+            "C5", "L5", "D5", "S5", "C8", "L8", "D8", "S8", "C8I", "L8I", "D8I", "S8I", "C8Q", "L8Q", "D8Q", "S8Q", "C8X",
             "L8X", "D8X", "S8X",
         ]
     }
@@ -420,9 +420,10 @@ impl Carrier {
             "C5I", "L5I", "D5I", "S5I", "C5Q", "L5Q", "D5Q", "S5Q", "C5X", "L5X", "D5X", "S5X",
         ]
     }
-    pub(crate) fn e5b_codes() -> [&'static str; 12] {
+    pub(crate) fn e5b_codes() -> [&'static str; 16] {
         [
-            "C7I", "L7I", "D7I", "S7I", "C7Q", "L7Q", "D7Q", "S7Q", "C7X", "L7X", "D7X", "S7X",
+            "C7", "L7", "D7", "S7", "C7I", "L7I", "D7I", "S7I", "C7Q", "L7Q", "D7Q", "S7Q", "C7X",
+            "L7X", "D7X", "S7X",
         ]
     }
     pub(crate) fn e6_codes() -> [&'static str; 24] {
-- 
2.43.0


From 2da94e0f4b75f92c44e477b41515603d77cfa441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 092/131] fix: carrier of the QZSS 6Z signal

---
 src/carrier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 9f19da6..295b988 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -506,7 +506,7 @@ impl Carrier {
     pub(crate) fn qzl6_codes() -> [&'static str; 24] {
         [
             "C6", "L6", "D6", "S6", "C6S", "L6S", "D6S", "S6S", "C6L", "L6L", "D6L", "S6L", "C6X",
-            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6S", "L6S", "D6S", "S6Z",
+            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6Z", "L6Z", "D6Z", "S6Z",
         ]
     }
     fn from_qzss_observable(obs: &Observable) -> Result<Self, Error> {
-- 
2.43.0


From b33d03b517408b399c20d9d408c1d4be89708042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 093/131] fix: the BeiDou signal of the L1 band is B1I

---
 src/observable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index 01a29cb..41725a1 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -316,7 +316,7 @@ impl Observable {
             if let Ok(carrier) = self.carrier(constellation) {
                 matches!(
                     carrier,
-                    Carrier::L1 | Carrier::E1 | Carrier::G1(_) | Carrier::S1 | Carrier::B2I
+                    Carrier::L1 | Carrier::E1 | Carrier::G1(_) | Carrier::S1 | Carrier::B1I
                 )
             } else {
                 false
-- 
2.43.0


From 789215f8a1325332692b1d6ef63f03088b9f5a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 094/131] fix: TEC estimates of every epoch, one epoch at a
 time

---
 src/observation/rinex/tec.rs | 44 ++++++++++++++----------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/observation/rinex/tec.rs b/src/observation/rinex/tec.rs
index 00a504b..1d4978c 100644
--- a/src/observation/rinex/tec.rs
+++ b/src/observation/rinex/tec.rs
@@ -4,7 +4,7 @@ use crate::{
     prelude::{Epoch, Observable, Rinex, SV},
 };
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 /// The [TEC] estimate is indexed by [TECKey] when
 /// calculated from Observation RINEX.
@@ -26,39 +26,29 @@ impl Rinex {
     /// this limits the method to dual frequency Observation RINEX.
     /// Returns [TEC] sorted per [TECKey]
     pub fn observation_dual_phase_ionosphere_tec(&self) -> HashMap<TECKey, TEC> {
-        let mut t = Epoch::default();
         let mut ret = HashMap::new();
-        let mut phases = Vec::<SignalObservation>::new();
+        let mut phases = BTreeMap::<Epoch, Vec<&SignalObservation>>::new();
 
-        let dt = self.dominant_sampling_interval();
-        if dt.is_none() {
-            return ret;
+        for (k, ph) in self.phase_range_sampling_ok_iter() {
+            phases.entry(k).or_default().push(ph);
         }
 
-        let dt = dt.unwrap();
-
-        for (k, ph) in self.phase_range_sampling_ok_iter() {
-            if k >= t + dt {
-                for ph_i in phases.iter() {
-                    for ph_j in phases.iter() {
-                        if let Some(tec) = ph_i.tec_estimate(&ph_j) {
-                            ret.insert(
-                                TECKey {
-                                    epoch: t,
-                                    sv: ph_i.sv,
-                                    rhs: ph_j.observable.clone(),
-                                    reference: ph_i.observable.clone(),
-                                },
-                                tec,
-                            );
-                        }
+        for (t, phases) in phases.iter() {
+            for ph_i in phases.iter() {
+                for ph_j in phases.iter() {
+                    if let Some(tec) = ph_i.tec_estimate(ph_j) {
+                        ret.insert(
+                            TECKey {
+                                epoch: *t,
+                                sv: ph_i.sv,
+                                rhs: ph_j.observable.clone(),
+                                reference: ph_i.observable.clone(),
+                            },
+                            tec,
+                        );
                     }
                 }
-                phases.clear();
             }
-
-            t = k;
-            phases.push(ph.clone());
         }
 
         ret
-- 
2.43.0


From 62469fb6414c6f9d926cb0c5fe82b055d0e2eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 095/131] fix: TEC estimation needs two carriers

---
 src/observation/signal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/signal.rs b/src/observation/signal.rs
index 39d1b41..ff002bf 100644
--- a/src/observation/signal.rs
+++ b/src/observation/signal.rs
@@ -98,7 +98,7 @@ impl SignalObservation {
             let carrier_2 = carrier_2.unwrap();
             let f_2 = carrier_2.frequency().powi(2);
 
-            if carrier_1.is_l1_pivot() {
+            if carrier_1.is_l1_pivot() && f_1 != f_2 {
                 let tec = GAMMA * f_1 * f_2 / (f_1 - f_2) * (self.value - rhs.value);
                 Some(TEC::from_tec_m2(tec.abs()))
             } else {
-- 
2.43.0


From 7053dbaf91c16ed3bcc66b96feb4431a4fe86a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 096/131] fix: ephemeris values that are null are values

---
 src/navigation/ephemeris/mod.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index c07d8ee..3a169db 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -47,16 +47,7 @@ impl Ephemeris {
     /// Returns abstract orbital parameter from readable description and
     /// interprated as f64.
     pub fn get_orbit_f64(&self, field: &str) -> Option<f64> {
-        if let Some(value) = self.orbits.get(field) {
-            let value = value.as_f64()?;
-            if value != 0.0 {
-                Some(value)
-            } else {
-                None
-            }
-        } else {
-            None
-        }
+        self.orbits.get(field)?.as_f64()
     }
 
     /// Add a new orbital parameters, encoded as f64.
-- 
2.43.0


From 2d52a70250155a0790b58dd947a7132a13c61231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 097/131] fix: an ephemeris is valid at its reference time

---
 src/navigation/ephemeris/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index 3a169db..88686c8 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -172,7 +172,7 @@ impl Ephemeris {
     /// which should always be considered "valid".
     pub fn is_valid(&self, sv: SV, t: Epoch, toe: Epoch) -> bool {
         if let Some(max_dtoe) = Self::validity_duration(sv.constellation) {
-            t > toe && (t - toe) < max_dtoe
+            t >= toe && (t - toe) < max_dtoe
         } else {
             #[cfg(feature = "log")]
             error!("{} not fully supported", sv.constellation);
-- 
2.43.0


From d1d07c56e10e55b84e184031b5f1b4282f77b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 098/131] fix: Glonass ephemerides can be selected

---
 src/navigation/rinex/feature.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/navigation/rinex/feature.rs b/src/navigation/rinex/feature.rs
index adc51a1..2802ecd 100644
--- a/src/navigation/rinex/feature.rs
+++ b/src/navigation/rinex/feature.rs
@@ -2,7 +2,7 @@ use crate::{
     navigation::{BdModel, Ephemeris, IonosphereModel, KbModel, NavKey, NgModel},
     prelude::{
         nav::{Almanac, AzElRange, Orbit},
-        Epoch, Rinex, SV,
+        Constellation, Epoch, Rinex, SV,
     },
 };
 
@@ -68,7 +68,12 @@ impl Rinex {
             self.nav_ephemeris_frames_iter()
                 .filter_map(|(k, eph)| {
                     if k.sv == sv && t >= k.epoch {
-                        let toe = eph.toe(sv_ts)?;
+                        let toe = if sv.constellation == Constellation::Glonass {
+                            // ToE does not exist for Glonass
+                            k.epoch
+                        } else {
+                            eph.toe(sv_ts)?
+                        };
                         if eph.is_valid(sv, t, toe) {
                             Some((k.epoch, toe, eph))
                         } else {
-- 
2.43.0


From ef12e65679e13858bfa1d395bde660e861566831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 099/131] fix: SBAS selection picks the closest message, not
 the last one to come

---
 src/navigation/rinex/feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navigation/rinex/feature.rs b/src/navigation/rinex/feature.rs
index 2802ecd..fcfc9dc 100644
--- a/src/navigation/rinex/feature.rs
+++ b/src/navigation/rinex/feature.rs
@@ -63,7 +63,7 @@ impl Rinex {
                         None
                     }
                 })
-                .min_by_key(|(toc, _, _)| t - *toc)
+                .min_by_key(|(toc, _, _)| (t - *toc).abs())
         } else {
             self.nav_ephemeris_frames_iter()
                 .filter_map(|(k, eph)| {
-- 
2.43.0


From b0fefc885f6f5e0ec98f05e88796739e9521d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 100/131] fix: sign of the inclination rate in the velocity of
 a satellite

---
 src/navigation/ephemeris/kepler/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index b081122..c38ca24 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -101,7 +101,7 @@ impl Helper {
             fd_r[(1, 0)] = sin_omega_k;
             fd_r[(1, 1)] = cos_omega_k * cos_i_k;
             fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
-            fd_r[(1, 3)] = y * cos_omega_k * sin_i_k;
+            fd_r[(1, 3)] = -y * cos_omega_k * sin_i_k;
             fd_r[(2, 1)] = sin_i_k;
             fd_r[(2, 3)] = y * cos_i_k;
 
-- 
2.43.0


From 71cfea7443e858948f599858e9f722817208bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 101/131] fix: TAI - UT1 out of the broadcast UT1 - UTC

---
 src/navigation/rinex/ut1.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/navigation/rinex/ut1.rs b/src/navigation/rinex/ut1.rs
index 5c90ef3..1d0de59 100644
--- a/src/navigation/rinex/ut1.rs
+++ b/src/navigation/rinex/ut1.rs
@@ -6,9 +6,13 @@ impl Rinex {
     pub fn nav_delta_tai_ut1_iter(&self) -> Box<dyn Iterator<Item = DeltaTaiUt1> + '_> {
         Box::new(
             self.nav_earth_orientation_frames_iter()
-                .map(|(k, eop)| DeltaTaiUt1 {
-                    epoch: k.epoch,
-                    delta_tai_minus_ut1: Duration::from_seconds(eop.delta_ut1.0),
+                .filter_map(|(k, eop)| {
+                    // the broadcast difference is UT1 - UTC
+                    let tai_utc_s = k.epoch.leap_seconds(true)?;
+                    Some(DeltaTaiUt1 {
+                        epoch: k.epoch,
+                        delta_tai_minus_ut1: Duration::from_seconds(tai_utc_s - eop.delta_ut1.0),
+                    })
                 }),
         )
     }
-- 
2.43.0


From 3263b370e9e2dda535dcc8322cdd155fc2af2a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 102/131] fix: Kepler iterations that do not converge come to
 an end

---
 src/navigation/ephemeris/kepler/helper.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index c38ca24..4de2467 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -265,14 +265,14 @@ impl Ephemeris {
                 break;
             }
             i += 1;
+            if i >= Constants::MAX_KEPLER_ITER {
+                #[cfg(feature = "log")]
+                error!("{} kepler iteration overflow", sv);
+                return None;
+            }
             e_k_lst = e_k;
         }
 
-        if i >= Constants::MAX_KEPLER_ITER {
-            #[cfg(feature = "log")]
-            error!("{} kepler iteration overflow", sv);
-        }
-
         // true anomaly
         let (sin_e_k, cos_e_k) = e_k.sin_cos();
         let v_k = ((1.0 - kepler.e.powi(2)).sqrt() * sin_e_k).atan2(cos_e_k - kepler.e);
-- 
2.43.0


From 120bbf90c026b5d07e26969cbde6192b8c3a4e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 103/131] fix: velocity of BeiDou geostationary satellites

---
 src/navigation/ephemeris/kepler/helper.rs | 112 +++++++---------------
 1 file changed, 37 insertions(+), 75 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index 4de2467..ee11396 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -87,30 +87,34 @@ impl Helper {
         if self.sv.is_beidou_geo() {
             self.beidou_geo_ecef_velocity()
         } else {
-            let (x, y, _) = self.r_sv;
-            let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-            let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-            // First Derivative of orbit position
-            let (fd_x, fd_y) = self.orbit_velocity();
-            // First Derivative of rotation Matrix
-            let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
-            fd_r[(0, 0)] = cos_omega_k;
-            fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
-            fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
-            fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
-            fd_r[(1, 0)] = sin_omega_k;
-            fd_r[(1, 1)] = cos_omega_k * cos_i_k;
-            fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
-            fd_r[(1, 3)] = -y * cos_omega_k * sin_i_k;
-            fd_r[(2, 1)] = sin_i_k;
-            fd_r[(2, 3)] = y * cos_i_k;
-
-            let rhs = Vector4::new(fd_x, fd_y, self.fd_omega_k, self.fd_i_k);
-            let vel = fd_r * rhs;
-            vel / 1000.0
+            self.orbit_ecef_velocity() / 1000.0
         }
     }
 
+    /// Returns velocity [Vector3] in m/s, in the frame [Self::meo_orbit_to_ecef_rotation_matrix] leads to.
+    fn orbit_ecef_velocity(&self) -> Vector3 {
+        let (x, y, _) = self.r_sv;
+        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
+        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
+        // First Derivative of orbit position
+        let (fd_x, fd_y) = self.orbit_velocity();
+        // First Derivative of rotation Matrix
+        let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
+        fd_r[(0, 0)] = cos_omega_k;
+        fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
+        fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
+        fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
+        fd_r[(1, 0)] = sin_omega_k;
+        fd_r[(1, 1)] = cos_omega_k * cos_i_k;
+        fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
+        fd_r[(1, 3)] = -y * cos_omega_k * sin_i_k;
+        fd_r[(2, 1)] = sin_i_k;
+        fd_r[(2, 3)] = y * cos_i_k;
+
+        let rhs = Vector4::new(fd_x, fd_y, self.fd_omega_k, self.fd_i_k);
+        fd_r * rhs
+    }
+
     /// Returns ECEF (position, velocity) [Vector3] in (km, km/s).
     pub fn ecef_pv(&self) -> (Vector3, Vector3) {
         (self.ecef_position(), self.ecef_velocity())
@@ -127,64 +131,18 @@ impl Helper {
 
     /// Returns ECEF velocity [Vector3] in km/s, for BeiDou GEO specifically
     pub fn beidou_geo_ecef_velocity(&self) -> Vector3 {
-        let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
-
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
-        let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
-        let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
-            * Matrix3::new(
-                -sin_omega_tk,
-                cos_omega_tk,
-                0.0,
-                -cos_omega_tk,
-                -sin_omega_tk,
-                0.0,
-                0.0,
-                0.0,
-                0.0,
-            );
         let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
-        vel
+        let vel = self.geo_orbit_to_ecef_rotation_matrix() * self.orbit_ecef_velocity() / 1000.0;
+        // this frame turns along with the Earth
+        vel + Omega::BDS * Vector3::new(pos[1], -pos[0], 0.0)
     }
 
     /// Returns ECEF (position, velocity) [Vector3]s in (km, km/s), for BeiDou GEO specifically.
     pub fn beidou_geo_ecef_pv(&self) -> (Vector3, Vector3) {
-        let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
-
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
-        let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
-        let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
-            * Matrix3::new(
-                -sin_omega_tk,
-                cos_omega_tk,
-                0.0,
-                -cos_omega_tk,
-                -sin_omega_tk,
-                0.0,
-                0.0,
-                0.0,
-                0.0,
-            );
-        let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
-        (pos, vel)
+        (
+            self.beidou_geo_ecef_position(),
+            self.beidou_geo_ecef_velocity(),
+        )
     }
 
     /// Returns ECEF position [Vector3] in km.
@@ -292,7 +250,11 @@ impl Ephemeris {
         let di_k = perturbations.cis * x2_sin_phi_k + perturbations.cic * x2_cos_phi_k;
 
         // first derivatives
-        let fd_omega_k = perturbations.omega_dot - omega;
+        let fd_omega_k = if sv.is_beidou_geo() {
+            perturbations.omega_dot
+        } else {
+            perturbations.omega_dot - omega
+        };
 
         let fd_e_k = n / (1.0 - kepler.e * e_k.cos());
         let fd_phi_k = ((1.0 + kepler.e) / (1.0 - kepler.e)).sqrt()
-- 
2.43.0


From acdab5f7b8e2a079db7ffad03dfa805c9cc45bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 104/131] fix: the map dimension of an IONEX header is read

---
 src/header/parsing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index d2eadd6..98c6e95 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -844,6 +844,10 @@ impl Header {
                 //   if "DESCRIPTION" is to be encountered in other RINEX
                 //   we can safely test RinexType here because its already been determined
                 ionex = ionex.with_description(content.trim());
+            } else if marker.contains("MAP DIMENSION") {
+                if let Ok(d) = content.trim().parse::<u8>() {
+                    ionex = ionex.with_map_dimension(d);
+                }
             } else if marker.contains("# OF MAPS IN FILE") {
                 if let Ok(num) = content.trim().parse::<usize>() {
                     ionex = ionex.with_number_of_maps(num);
-- 
2.43.0


From df470ec55101c5556a2b3acffe6e3e7fbf7a026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 105/131] fix: borders of IONEX maps are given lowest first

---
 src/ionex/rinex/feature.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ionex/rinex/feature.rs b/src/ionex/rinex/feature.rs
index cf86641..9bbd677 100644
--- a/src/ionex/rinex/feature.rs
+++ b/src/ionex/rinex/feature.rs
@@ -29,9 +29,11 @@ impl Rinex {
     /// - (long_min, long_max): easternmost and westernmost longitude, in decimal degrees
     pub fn tec_map_borders(&self) -> Option<((f64, f64), (f64, f64))> {
         let ionex = self.header.ionex.as_ref()?;
+        // latitudes are usually given north to south
+        let (lat, long) = (&ionex.grid.latitude, &ionex.grid.longitude);
         Some((
-            (ionex.grid.latitude.start, ionex.grid.latitude.end),
-            (ionex.grid.longitude.start, ionex.grid.longitude.end),
+            (lat.start.min(lat.end), lat.start.max(lat.end)),
+            (long.start.min(long.end), long.start.max(long.end)),
         ))
     }
 
@@ -68,7 +70,8 @@ impl Rinex {
     /// reflect actual content.
     pub fn ionex_altitude_range_km(&self) -> Option<(f64, f64)> {
         let header = self.header.ionex.as_ref()?;
-        Some((header.grid.height.start, header.grid.height.end))
+        let height = &header.grid.height;
+        Some((height.start.min(height.end), height.start.max(height.end)))
     }
 
     /// Designs an TEC isosurface iterator starting at lowest altitude,
-- 
2.43.0


From 58476104abb78e5e44952c917ddaf8fe43620382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 106/131] fix: the number of satellites of an IONEX header is
 read

---
 src/header/parsing.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 98c6e95..6ec08b7 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -588,9 +588,6 @@ impl Header {
                     i32::from_str_radix(value, 10).or(Err(ParsingError::RcvClockOffsApplied))?;
 
                 observation.clock_offset_applied = n > 0;
-            } else if marker.contains("# OF SATELLITES") {
-                // ---> we don't need this info,
-                //     user can determine it by analyzing the record
             } else if marker.contains("PRN / # OF OBS") {
                 // ---> we don't need this info,
                 //     user can determine it by analyzing the record
-- 
2.43.0


From 962f36b136de0207eb01a3f6df2d5709387f69da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 107/131] fix: IONEX files may give their type as a single
 letter

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 3022f9c..1f4c4a3 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -85,7 +85,7 @@ impl std::str::FromStr for Type {
             Ok(Self::ClockData)
         } else if s.eq("antex") {
             Ok(Self::AntennaData)
-        } else if s.eq("ionosphere maps") {
+        } else if s.eq("ionosphere maps") || s.eq("i") {
             Ok(Self::IonosphereMaps)
         } else if s.eq("doris") || s.eq("d") {
             Ok(Self::DORIS)
-- 
2.43.0


From 8dab1b189751bb7824b3ed53aa07ac7bb97dfdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 108/131] fix: GNS is a reference system of IONEX files

---
 src/ionex/system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ionex/system.rs b/src/ionex/system.rs
index 3c1f8e6..d1a8c4b 100644
--- a/src/ionex/system.rs
+++ b/src/ionex/system.rs
@@ -112,7 +112,7 @@ impl FromStr for RefSystem {
     fn from_str(system: &str) -> Result<Self, Self::Err> {
         if let Ok(gnss) = Constellation::from_str(system) {
             Ok(Self::GnssConstellation(gnss))
-        } else if system.eq("GNSS") {
+        } else if system.eq("GNSS") || system.eq("GNS") {
             Ok(Self::GnssConstellation(Constellation::Mixed))
         } else if let Ok(obs) = ObsSystem::from_str(system) {
             Ok(Self::ObservationSystem(obs))
-- 
2.43.0


From 9f637f34f5b6837024a6a8c8baad554002c131f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 109/131] fix: clock headers of revision 3.04 are five columns
 wider

---
 src/header/parsing.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 6ec08b7..943deb9 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -90,6 +90,9 @@ impl Header {
 
         let mut line_buf = String::with_capacity(128);
 
+        // columns before the label: clock files have more of them since revision 3.04
+        let mut width = 60;
+
         while let Ok(size) = read_line(reader, &mut line_buf) {
             if size == 0 {
                 break; // reached EOS
@@ -107,7 +110,11 @@ impl Header {
                 continue; // --> invalid header content
             }
 
-            let column = line.char_indices().nth(60).map_or(line.len(), |(i, _)| i);
+            if line.find("RINEX VERSION / TYPE") == Some(65) {
+                width = 65;
+            }
+
+            let column = line.char_indices().nth(width).map_or(line.len(), |(i, _)| i);
             let (content, marker) = line.split_at(column);
             ///////////////////////////////
             // [0] END OF HEADER
@@ -304,20 +311,23 @@ impl Header {
                     return Err(ParsingError::NonSupportedVersion);
                 }
             } else if marker.contains("PGM / RUN BY / DATE") {
-                let (pgm, rem) = line.split_at(20);
+                // the wider layout has one blank between fields
+                let field = if width == 65 { 21 } else { 20 };
+
+                let (pgm, rem) = content.split_at(field);
                 let pgm = pgm.trim();
                 if pgm.len() > 0 {
                     program = Some(pgm.to_string());
                 }
 
-                let (runby, rem) = rem.split_at(20);
+                let (runby, rem) = rem.split_at(field);
 
                 let runby = runby.trim();
                 if runby.len() > 0 {
                     run_by = Some(runby.to_string());
                 }
 
-                let date_str = rem.split_at(20).0.trim();
+                let date_str = rem.trim();
                 if date_str.len() > 0 {
                     date = Some(date_str.to_string());
                 }
-- 
2.43.0


From ce7752267937e027505f883736462f3483dfaece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 110/131] fix: station names of clock headers may have nine
 characters

---
 src/header/parsing.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 943deb9..f3b773f 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -664,8 +664,10 @@ impl Header {
                     rem = r;
                 }
             } else if marker.contains("STATION NAME / NUM") {
-                let (name, domes) = content.split_at(4);
-                clock = clock.site(name.trim());
+                // station names have up to nine characters since revision 3.04
+                let name = content.split_ascii_whitespace().next().unwrap_or("");
+                let domes = content.trim_start().split_at(name.len()).1;
+                clock = clock.site(name);
                 if let Ok(domes) = DOMES::from_str(domes.trim()) {
                     clock = clock.domes(domes);
                 }
-- 
2.43.0


From 9742d03199f0b41e43bdfb063ee4a8378fd5302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 111/131] fix: clock constraints keep their exponent in
 revision 3.04

---
 src/clock/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/clock/mod.rs b/src/clock/mod.rs
index 5b58c88..88687ca 100644
--- a/src/clock/mod.rs
+++ b/src/clock/mod.rs
@@ -70,8 +70,7 @@ impl WorkClock {
             }
         } else {
             let (name, rem) = content.split_at(10);
-            let (domes, rem) = rem.split_at(10);
-            let constraint = rem.split_at(40).0;
+            let (domes, constraint) = rem.split_at(10);
             Self {
                 name: name.trim().to_string(),
                 domes: if let Ok(domes) = DOMES::from_str(domes.trim()) {
-- 
2.43.0


From 414d4e6f4943d01da91c6e87ab21dd11b66a91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 112/131] fix: IONEX maps without observables come from a
 theoretical model

---
 src/ionex/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ionex/header.rs b/src/ionex/header.rs
index db73160..1ab7069 100644
--- a/src/ionex/header.rs
+++ b/src/ionex/header.rs
@@ -245,7 +245,7 @@ impl HeaderFields {
     /// Returns true if this Ionosphere Maps describes
     /// a theoretical model, not measured data
     pub fn is_theoretical_model(&self) -> bool {
-        self.observables.is_some()
+        self.observables.is_none()
     }
 
     /// Copies self and set number of stations
-- 
2.43.0


From d65f1408f78b4da0213bd79fefe27d6201b67e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 113/131] fix: comments of the file body are stored

---
 src/record/parsing.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index b9ae0ff..f638438 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -71,7 +71,7 @@ impl Record {
 
         // comments management
         let mut comments: Comments = Comments::new();
-        let mut comment_ts = Epoch::default();
+        let mut comment_ts = Option::<Epoch>::None;
         let mut comment_content = Vec::<String>::with_capacity(4);
 
         // ANTEX
@@ -194,14 +194,16 @@ impl Record {
             }
 
             // (special case) COMMENTS: store as is
-            // CRINEX: comments inside an event are part of it
-            if is_rinex_comment(&line_buf) && !(is_crinex && decompressor.inside_event()) {
+            if is_rinex_comment(&line_buf) {
                 let comment = split_columns(&line_buf, 60).0.trim_end();
                 comment_content.push(comment.to_string());
 
-                // skip parsing
-                line_buf.clear();
-                continue;
+                // CRINEX: comments inside an event are part of it
+                if !(is_crinex && decompressor.inside_event()) {
+                    // skip parsing
+                    line_buf.clear();
+                    continue;
+                }
             }
 
             // (special case) IONEX: content is attached to the map it is found in
@@ -237,16 +239,6 @@ impl Record {
                 continue;
             }
 
-            // (special case) COMMENTS: store as is
-            if line_buf.contains("COMMENT") {
-                let content = split_columns(&line_buf, 60).0.trim();
-                if let Some(comments) = comments.get_mut(&comment_ts) {
-                    comments.push(content.to_string());
-                } else {
-                    comments.insert(comment_ts, vec![content.to_string()]);
-                }
-            }
-
             // CRINEX special case:
             // - apply decompression algorithm prior moving forward
             // - decompress new pending line, which may recover several lines (in old V1 format)
@@ -303,7 +295,7 @@ impl Record {
                             if let Ok((k, v)) = parse_nav_epoch(&header, &epoch_buf) {
                                 nav_rec.insert(k, v);
                                 // println!("nav_epoch={:?}", k); // DEBUG
-                                comment_ts = k.epoch; // for comments storage
+                                comment_ts = Some(k.epoch); // for comments storage
                             }
                         },
                         Type::ObservationData => {
@@ -316,7 +308,7 @@ impl Record {
                                 Ok(key) => {
                                     //println!("key={:?}", key);
                                     obs_rec.insert(key, observations.clone());
-                                    comment_ts = key.epoch; // for comments storage
+                                    comment_ts = Some(key.epoch); // for comments storage
                                 },
                                 #[cfg(feature = "log")]
                                 Err(e) => {
@@ -331,7 +323,7 @@ impl Record {
 
                         Type::DORIS => {
                             if let Ok((k, observations)) = parse_doris_epoch(header, &epoch_buf) {
-                                comment_ts = k.epoch; // for comments storage
+                                comment_ts = Some(k.epoch); // for comments storage
                                 dor_rec.insert(k, observations);
                             }
                         },
@@ -340,7 +332,7 @@ impl Record {
                             if let Ok(items) = parse_meteo_epoch(header, &epoch_buf) {
                                 for (k, v) in items.iter() {
                                     met_rec.insert(k.clone(), *v);
-                                    comment_ts = k.epoch; // for comments storage
+                                    comment_ts = Some(k.epoch); // for comments storage
                                 }
                             }
                         },
@@ -357,7 +349,7 @@ impl Record {
                                     inner.insert(key, profile);
                                     clk_rec.insert(epoch, inner);
                                 }
-                                comment_ts = epoch; // for comments storage
+                                comment_ts = Some(epoch); // for comments storage
                             }
                         },
 
@@ -371,6 +363,7 @@ impl Record {
 
                         Type::IonosphereMaps => {
                             if let Some(epoch) = ionex_t {
+                                comment_ts = Some(epoch); // for comments storage
                                 let first_line = epoch_buf.lines().next().unwrap_or_default();
                                 if is_new_rms_map(first_line) {
                                     match parse_ionex_rms_map(
@@ -402,6 +395,13 @@ impl Record {
                             }
                         },
                     }
+
+                    // comments that came along belong to this epoch
+                    if let Some(t) = comment_ts {
+                        if !comment_content.is_empty() {
+                            comments.entry(t).or_default().append(&mut comment_content);
+                        }
+                    }
                 }
             }
 
-- 
2.43.0


From 114bbae932a34e7a7e78ca8d133e5bf4a697da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 114/131] fix: pseudo observables keep their columns

---
 src/observable.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index 41725a1..47c0e60 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -19,6 +19,8 @@ pub enum Observable {
     /// Attached to Phase or PseudoRange observable to accurately
     /// described how they were sampled.
     ChannelNumber(String),
+    /// Ionosphere phase delay (full cycles), pseudo Observable.
+    IonosphereDelay(String),
     /// Pressure observation in hPa
     Pressure,
     /// Dry temperature measurement in Celcius degrees
@@ -61,6 +63,7 @@ impl Observable {
             Self::Doppler(_) => matches!(rhs, Self::Doppler(_)),
             Self::PseudoRange(_) => matches!(rhs, Self::PseudoRange(_)),
             Self::ChannelNumber(_) => matches!(rhs, Self::ChannelNumber(_)),
+            Self::IonosphereDelay(_) => matches!(rhs, Self::IonosphereDelay(_)),
             Self::Pressure => matches!(rhs, Self::Pressure),
             Self::Temperature => matches!(rhs, Self::Temperature),
             Self::HumidityRate => matches!(rhs, Self::HumidityRate),
@@ -346,7 +349,8 @@ impl std::fmt::Display for Observable {
             | Self::Doppler(c)
             | Self::SSI(c)
             | Self::Power(c)
-            | Self::ChannelNumber(c) => write!(f, "{}", c),
+            | Self::ChannelNumber(c)
+            | Self::IonosphereDelay(c) => write!(f, "{}", c),
         }
     }
 }
@@ -381,6 +385,10 @@ impl std::str::FromStr for Observable {
                         Ok(Self::Power(content.to_string()))
                     } else if content.starts_with('D') {
                         Ok(Self::Doppler(content.to_string()))
+                    } else if content.starts_with('X') {
+                        Ok(Self::ChannelNumber(content.to_string()))
+                    } else if content.starts_with('I') {
+                        Ok(Self::IonosphereDelay(content.to_string()))
                     } else {
                         Err(ParsingError::UnknownObservable)
                     }
-- 
2.43.0


From 3a4f05b434edd5299c39235dd77a5166038606d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 115/131] fix: B2A and S carriers can be named

---
 src/carrier.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/carrier.rs b/src/carrier.rs
index 295b988..ff2aa20 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -143,6 +143,8 @@ impl std::str::FromStr for Carrier {
             Ok(Self::B1C)
         } else if content.eq("B2") {
             Ok(Self::B2)
+        } else if content.eq("B2A") {
+            Ok(Self::B2A)
         } else if content.eq("B2I") {
             Ok(Self::B2I)
         } else if content.eq("B2B") {
@@ -151,6 +153,11 @@ impl std::str::FromStr for Carrier {
             Ok(Self::B3)
         } else if content.eq("B3A") {
             Ok(Self::B3A)
+        /*
+         * IRNSS
+         */
+        } else if content.eq("S") {
+            Ok(Self::S)
         /*
          * DORIS
          */
-- 
2.43.0


From 4b1f0ba7c77daae750b8a525919f6ca9b199730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 116/131] fix: marker numbers of instruments are kept

---
 src/marker.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index e05482d..c43c2c8 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -22,6 +22,9 @@ pub struct GeodeticMarker {
     /// Marker/monument number.
     /// Probably if agency has more than one of them.
     monument: Option<u16>,
+    /// True when the number designates the reference point
+    /// of an instrument and not a monument
+    instrument: bool,
 }
 
 #[derive(Default, Copy, Clone, Debug, PartialEq, Eq)]
@@ -126,16 +129,19 @@ impl GeodeticMarker {
     pub fn number(&self) -> Option<String> {
         let id = self.identification?;
         let monument = self.monument?;
-        Some(format!("{:05}M{:03}", id, monument))
+        let point = if self.instrument { 'S' } else { 'M' };
+        Some(format!("{:05}{}{:03}", id, point, monument))
     }
     /// Returns a GeodeticMarker with "number" only if it matches standardized format.
     pub fn with_number(&self, content: &str) -> Self {
         let mut s = self.clone();
-        if content.len() == 9 && content.chars().nth(5) == Some('M') {
+        let point = content.chars().nth(5);
+        if content.len() == 9 && content.is_ascii() && matches!(point, Some('M') | Some('S')) {
             if let Ok(id) = u32::from_str_radix(&content[..5], 10) {
                 if let Ok(monument) = u16::from_str_radix(&content[6..], 10) {
                     s.identification = Some(id);
                     s.monument = Some(monument);
+                    s.instrument = point == Some('S');
                 }
             }
         }
-- 
2.43.0


From 21b09542fe306fcd00e1722984318c846718ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 117/131] fix: null parameters of orbits stay unspecified for
 get_orbit_f64

---
 src/navigation/ephemeris/kepler/mod.rs | 50 +++++++++++++-------------
 src/navigation/ephemeris/mod.rs        | 12 +++++--
 2 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/mod.rs b/src/navigation/ephemeris/kepler/mod.rs
index 4b73d41..f55e724 100644
--- a/src/navigation/ephemeris/kepler/mod.rs
+++ b/src/navigation/ephemeris/kepler/mod.rs
@@ -62,13 +62,13 @@ impl Ephemeris {
     /// This only applies to MEO Ephemerides, not GEO and Glonass.
     pub fn kepler(&self) -> Option<Kepler> {
         Some(Kepler {
-            a: self.get_orbit_f64("sqrta")?.powf(2.0),
-            e: self.get_orbit_f64("e")?,
-            i_0: self.get_orbit_f64("i0")?,
-            omega: self.get_orbit_f64("omega")?,
-            omega_0: self.get_orbit_f64("omega0")?,
-            m_0: self.get_orbit_f64("m0")?,
-            toe: self.get_orbit_f64("toe")?,
+            a: self.orbital_parameter("sqrta")?.powf(2.0),
+            e: self.orbital_parameter("e")?,
+            i_0: self.orbital_parameter("i0")?,
+            omega: self.orbital_parameter("omega")?,
+            omega_0: self.orbital_parameter("omega0")?,
+            m_0: self.orbital_parameter("m0")?,
+            toe: self.orbital_parameter("toe")?,
         })
     }
 
@@ -88,15 +88,15 @@ impl Ephemeris {
     /// Retrieves Orbit [Perturbations] from [Ephemeris]
     pub fn perturbations(&self) -> Option<Perturbations> {
         Some(Perturbations {
-            cuc: self.get_orbit_f64("cuc")?,
-            cus: self.get_orbit_f64("cus")?,
-            cic: self.get_orbit_f64("cic")?,
-            cis: self.get_orbit_f64("cis")?,
-            crc: self.get_orbit_f64("crc")?,
-            crs: self.get_orbit_f64("crs")?,
-            dn: self.get_orbit_f64("deltaN")?,
-            i_dot: self.get_orbit_f64("idot")?,
-            omega_dot: self.get_orbit_f64("omegaDot")?,
+            cuc: self.orbital_parameter("cuc")?,
+            cus: self.orbital_parameter("cus")?,
+            cic: self.orbital_parameter("cic")?,
+            cis: self.orbital_parameter("cis")?,
+            crc: self.orbital_parameter("crc")?,
+            crs: self.orbital_parameter("crs")?,
+            dn: self.orbital_parameter("deltaN")?,
+            i_dot: self.orbital_parameter("idot")?,
+            omega_dot: self.orbital_parameter("omegaDot")?,
         })
     }
 
@@ -136,9 +136,9 @@ impl Ephemeris {
     pub fn kepler2position(&self, sv: SV, t_sv: Epoch, t: Epoch) -> Option<Orbit> {
         if sv.constellation.is_sbas() || sv.constellation == Constellation::Glonass {
             let (x_km, y_km, z_km) = (
-                self.get_orbit_f64("satPosX")?,
-                self.get_orbit_f64("satPosY")?,
-                self.get_orbit_f64("satPosZ")?,
+                self.orbital_parameter("satPosX")?,
+                self.orbital_parameter("satPosY")?,
+                self.orbital_parameter("satPosZ")?,
             );
             // TODO: velocity + integration
             Some(Orbit::from_position(x_km, y_km, z_km, t, IAU_EARTH_FRAME))
@@ -175,14 +175,14 @@ impl Ephemeris {
         //    SBAS navigation is not supported yet anyway
         if sv.constellation.is_sbas() || sv.constellation == Constellation::Glonass {
             let (x_km, y_km, z_km) = (
-                self.get_orbit_f64("satPosX")?,
-                self.get_orbit_f64("satPosY")?,
-                self.get_orbit_f64("satPosZ")?,
+                self.orbital_parameter("satPosX")?,
+                self.orbital_parameter("satPosY")?,
+                self.orbital_parameter("satPosZ")?,
             );
             let (vel_x_km, vel_y_km, vel_z_km) = (
-                self.get_orbit_f64("velX")?,
-                self.get_orbit_f64("velY")?,
-                self.get_orbit_f64("velZ")?,
+                self.orbital_parameter("velX")?,
+                self.orbital_parameter("velY")?,
+                self.orbital_parameter("velZ")?,
             );
 
             let position = Vector3::new(x_km, y_km, z_km);
diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index 88686c8..754d770 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -46,7 +46,13 @@ impl Ephemeris {
 
     /// Returns abstract orbital parameter from readable description and
     /// interprated as f64.
+    /// Null values are considered unspecified.
     pub fn get_orbit_f64(&self, field: &str) -> Option<f64> {
+        self.orbital_parameter(field).filter(|value| *value != 0.0)
+    }
+
+    /// Parameter of the orbit or clock model, for which null is a value like others.
+    pub(crate) fn orbital_parameter(&self, field: &str) -> Option<f64> {
         self.orbits.get(field)?.as_f64()
     }
 
@@ -64,7 +70,7 @@ impl Ephemeris {
 
     /// Returns TGD (if value exists) as [Duration]
     pub fn tgd(&self) -> Option<Duration> {
-        let tgd_s = self.get_orbit_f64("tgd")?;
+        let tgd_s = self.orbital_parameter("tgd")?;
         Some(Duration::from_seconds(tgd_s))
     }
 
@@ -83,7 +89,7 @@ impl Ephemeris {
     pub fn toe(&self, sv_ts: TimeScale) -> Option<Epoch> {
         // TODO: in CNAV V4 TOC is said to be TOE... ...
         let week = self.get_week()?;
-        let sec = self.get_orbit_f64("toe")?;
+        let sec = self.orbital_parameter("toe")?;
         let week_dur = Duration::from_days((week * 7) as f64);
         let sec_dur = Duration::from_seconds(sec);
         match sv_ts {
@@ -101,7 +107,7 @@ impl Ephemeris {
 
     /// Returns Adot parameter from a CNAV ephemeris
     pub(crate) fn a_dot(&self) -> Option<f64> {
-        self.get_orbit_f64("a_dot")
+        self.orbital_parameter("a_dot")
     }
 }
 
-- 
2.43.0


From 9fd0b48a35ad790a8666c48d1e8917ef9bca76a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 118/131] fix: codes of two letters take three columns in
 RINEX3 headers

---
 src/observation/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/header.rs b/src/observation/header.rs
index 5a12bd4..653a2b1 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -142,7 +142,7 @@ impl HeaderFields {
                     write!(w, "      ")?;
                 }
 
-                write!(w, " {}", observable)?;
+                write!(w, " {:<3}", observable.to_string())?;
 
                 if (nth % 13) == 12 {
                     writeln!(w, "  SYS / # / OBS TYPES")?;
-- 
2.43.0


From 8745e471c628a74567e4ebad1ae72f977865c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 119/131] fix: neighbours of a point in descending grids and in
 the last cell

---
 src/linspace.rs | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/linspace.rs b/src/linspace.rs
index c98ad8b..593f2ef 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -56,23 +56,50 @@ impl Linspace {
         (self.end == self.start) && self.spacing == 0.0
     }
 
-    /// Returns nearest lower bound from point p in the [Linspace]
+    /// Lowest and highest values of this [Linspace],
+    /// which may be described in descending order.
+    fn bounds(&self) -> (f64, f64) {
+        (self.start.min(self.end), self.start.max(self.end))
+    }
+
+    /// Returns nearest lower bound from point p in the [Linspace],
+    /// which is p itself when it is part of the [Linspace].
+    /// Returns None when p lies outside of the [Linspace].
     pub fn nearest_lower(&self, p: f64) -> Option<f64> {
-        let mut start = self.start;
-        while start < self.end {
-            if start > p {
-                return Some(start - self.spacing);
-            }
-            start += self.spacing;
+        let (min, max) = self.bounds();
+
+        if p < min || p > max {
+            return None;
+        }
+
+        if self.spacing == 0.0 {
+            return Some(self.start);
         }
 
-        None
+        let index = (p - self.start) / self.spacing;
+
+        let index = if (index - index.round()).abs() < 1.0E-6 {
+            index.round()
+        } else if self.spacing > 0.0 {
+            index.floor()
+        } else {
+            index.ceil()
+        };
+
+        Some(self.start + index * self.spacing)
     }
 
-    /// Returns nearest lower bound from point p in the [Linspace]
+    /// Returns nearest upper bound from point p in the [Linspace].
+    /// Returns None when no point of the [Linspace] lies above p.
     pub fn nearest_above(&self, p: f64) -> Option<f64> {
         let lower = self.nearest_lower(p)?;
-        Some(lower + self.spacing)
+        let above = lower + self.spacing.abs();
+
+        if above > self.bounds().1 + 1.0E-6 * self.spacing.abs() {
+            None
+        } else {
+            Some(above)
+        }
     }
 }
 
-- 
2.43.0


From cc928db94faf92c01a49caea3b54aa73ed56dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 120/131] fix: elevation_azimuth_range gives the satellite seen
 from the receiver

---
 src/navigation/ephemeris/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index 754d770..ec36421 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -170,7 +170,7 @@ impl Ephemeris {
         let rx_orbit = Orbit::from_position(rx_x_km, rx_y_km, rx_z_km, t, fixed_body_frame);
         let tx_orbit = Orbit::from_position(tx_x_km, tx_y_km, tx_z_km, t, fixed_body_frame);
 
-        almanac.azimuth_elevation_range_sez(rx_orbit, tx_orbit, None, None)
+        almanac.azimuth_elevation_range_sez(tx_orbit, rx_orbit, None, None)
     }
 
     /// Returns True if Self is Valid at specified `t`.
-- 
2.43.0


From e347d07a47b5388923b72a03faeb75eff0ceb44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 121/131] fix: measurements of DORIS files are read, for the
 station they refer to

---
 src/doris/parsing.rs | 128 +++++++++++++++++++------------------------
 1 file changed, 57 insertions(+), 71 deletions(-)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index 34b50c3..82745b9 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -11,64 +11,56 @@ pub fn is_new_epoch(line: &str) -> bool {
     line.starts_with('>')
 }
 
+/// Parses the measurements of one line, starting with observable `obs_ptr`.
+/// Returns the observable the next line starts with.
 fn parse_observations(
     line: &str,
     mut obs_ptr: usize,
     station: &Station,
     observables: &[Observable],
-    numobs: usize,
     observations: &mut Observations,
-) -> Result<(), ParsingError> {
-    const OBSERVABLE_WIDTH: usize = 14;
-
-    let mut offset = 0;
-    let line_len = line.len();
-
-    loop {
-        let mut m1 = Option::<u8>::None;
-        let mut m2 = Option::<u8>::None;
-
-        if offset + OBSERVABLE_WIDTH + 1 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH..offset + OBSERVABLE_WIDTH + 1];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m1 = Some(flag);
-            }
-        }
-
-        if offset + OBSERVABLE_WIDTH + 2 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH + 1..offset + OBSERVABLE_WIDTH + 2];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m2 = Some(flag);
-            }
-        }
-
-        if offset + OBSERVABLE_WIDTH < line_len {
-            let slice = &line[offset..offset + OBSERVABLE_WIDTH];
-            println!("slice: \"{}\"", slice);
-            if let Ok(value) = slice.trim().parse::<f64>() {
-                let key = SignalKey {
-                    station: station.clone(),
-                    observable: observables[obs_ptr].clone(),
-                };
-
-                observations
-                    .signals
-                    .insert(key, SignalObservation { m1, m2, value });
-            }
+) -> usize {
+    const NUM_OBS_PER_LINE: usize = 5;
+    const VALUE_WIDTH: usize = 14;
+    const OBSERVABLE_WIDTH: usize = VALUE_WIDTH + 2;
+
+    for slot in 0..NUM_OBS_PER_LINE {
+        let observable = match observables.get(obs_ptr) {
+            Some(observable) => observable,
+            None => break, // abnormal content
+        };
+
+        let start = slot * OBSERVABLE_WIDTH;
+        let end = (start + VALUE_WIDTH).min(line.len());
+
+        let flag = |offset: usize| {
+            line.get(offset..offset + 1)
+                .and_then(|flag| flag.parse::<u8>().ok())
+        };
+
+        let value = line
+            .get(start..end)
+            .and_then(|value| value.trim().parse::<f64>().ok());
+
+        if let Some(value) = value {
+            let key = SignalKey {
+                station: station.clone(),
+                observable: observable.clone(),
+            };
+
+            let signal = SignalObservation {
+                m1: flag(start + VALUE_WIDTH),
+                m2: flag(start + VALUE_WIDTH + 1),
+                value,
+            };
+
+            observations.signals.insert(key, signal);
         }
 
-        offset += OBSERVABLE_WIDTH;
         obs_ptr += 1;
-
-        if obs_ptr == numobs {
-            // abnormal content: abort and avoid overflowing
-            break;
-        }
     }
 
-    Ok(())
+    obs_ptr
 }
 
 /// Parse all DORIS measurements from forwarded content.
@@ -77,13 +69,15 @@ pub fn parse_epoch(
     header: &Header,
     content: &str,
 ) -> Result<(DorisKey, Observations), ParsingError> {
-    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN  0".len();
-    const CLOCK_OFFSET: usize = 26;
-    const CLOCK_SIZE: usize = 14;
-    const MIN_EPOCH_SIZE: usize = EPOCH_SIZE + CLOCK_SIZE + 2;
+    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN".len();
+    const FLAG_OFFSET: usize = 2 + EPOCH_SIZE;
+    const FLAG_SIZE: usize = 3;
+    const CLOCK_OFFSET: usize = 43;
+    const CLOCK_SIZE: usize = 13;
+    const MIN_EPOCH_SIZE: usize = CLOCK_OFFSET + CLOCK_SIZE;
+    const STATION_SIZE: usize = "D01".len();
 
     let mut obs_ptr = 0;
-    let flag = EpochFlag::default();
 
     let null_clock = ClockObservation::default();
 
@@ -98,8 +92,6 @@ pub fn parse_epoch(
         .ok_or(ParsingError::MissingObservableDefinition)?;
 
     let observables = &doris.observables;
-    let numobs = observables.len();
-
     let stations = &doris.stations;
 
     // parse TAI timestamp
@@ -112,6 +104,10 @@ pub fn parse_epoch(
 
     let epoch = parse_epoch_in_timescale(&line[2..2 + EPOCH_SIZE], TimeScale::TAI)?;
 
+    let flag = line[FLAG_OFFSET..FLAG_OFFSET + FLAG_SIZE]
+        .trim()
+        .parse::<EpochFlag>()?;
+
     let key = DorisKey { epoch, flag };
 
     // parse clock field
@@ -136,27 +132,17 @@ pub fn parse_epoch(
         if line.starts_with('D') {
             obs_ptr = 0;
 
-            // station number
-            let station_num = line[1..]
-                .trim()
-                .parse::<usize>()
-                .map_err(|_| ParsingError::DorisStationFormat)?;
-
             // identify station
-            if let Some(s) = stations.get(station_num) {
-                station = Some(s.clone());
-            }
+            station = line
+                .get(1..STATION_SIZE)
+                .and_then(|number| number.trim().parse::<u16>().ok())
+                .and_then(|number| stations.iter().find(|station| station.key == number))
+                .cloned();
         }
 
         if let Some(station) = &station {
-            parse_observations(
-                &line[4..],
-                obs_ptr,
-                &station,
-                observables,
-                numobs,
-                &mut observations,
-            )?;
+            let line = line.get(STATION_SIZE..).unwrap_or_default();
+            obs_ptr = parse_observations(line, obs_ptr, station, observables, &mut observations);
         }
     }
 
-- 
2.43.0


From 8b3736efc5d9c96808b3980f84b1c6ea43a46cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 122/131] fix: name of the DORIS satellite is read

---
 src/header/parsing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index f3b773f..6e1e543 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -915,6 +915,9 @@ impl Header {
             } else if marker.contains("LON1 / LON2 / DLON") {
                 let grid = Self::parse_grid(content)?;
                 ionex = ionex.with_longitude_grid(grid);
+            } else if marker.contains("SATELLITE NAME") {
+                // DORIS special case
+                doris.satellite = content.trim().to_string();
             } else if marker.contains("L2 / L1 DATE OFFSET") {
                 // DORIS special case
                 let content = content[1..].trim();
-- 
2.43.0


From dccd0a149586750bbeae3c23568f18b7e6deeb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 123/131] fix: frequency shift of DORIS stations divides by
 2^26

---
 src/doris/station.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/doris/station.rs b/src/doris/station.rs
index c176719..c81d84f 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -24,12 +24,12 @@ impl Station {
 
     /// Station S1 Frequency shift factor
     pub fn s1_frequency_shift(&self) -> f64 {
-        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 
     /// Station U2 Frequency shift factor
     pub fn u2_frequency_shift(&self) -> f64 {
-        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 }
 
-- 
2.43.0


From 80dfb962c62c3ba8f4f34af3eb2d7c708e574eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 124/131] fix: incomplete DORIS station does not panic

---
 src/doris/station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doris/station.rs b/src/doris/station.rs
index c81d84f..847faef 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -36,7 +36,7 @@ impl Station {
 impl std::str::FromStr for Station {
     type Err = ParsingError;
     fn from_str(content: &str) -> Result<Self, Self::Err> {
-        if content.len() < 40 {
+        if content.len() < 56 || !content.is_ascii() {
             return Err(ParsingError::DorisStationFormat);
         }
 
-- 
2.43.0


From f882fed47d1c92078a09351fa9b3aeb0925af4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 125/131] fix: DORIS clock and signal iterators browse the
 record

---
 src/doris/rinex/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/doris/rinex/mod.rs b/src/doris/rinex/mod.rs
index c617a5c..7d173d3 100644
--- a/src/doris/rinex/mod.rs
+++ b/src/doris/rinex/mod.rs
@@ -48,7 +48,11 @@ impl Rinex {
     pub fn doris_satellite_clock_offset_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, ClockObservation)> + '_> {
-        Box::new([].into_iter())
+        if let Some(rec) = self.record.as_doris() {
+            Box::new(rec.iter().map(|(k, v)| (k.clone(), v.clock)))
+        } else {
+            Box::new([].into_iter())
+        }
     }
 
     /// Returns Iterator over all Ground [Station] observations, made by
@@ -57,6 +61,14 @@ impl Rinex {
     pub fn doris_ground_station_signals_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, SignalKey, SignalObservation)> + '_> {
-        Box::new([].into_iter())
+        if let Some(rec) = self.record.as_doris() {
+            Box::new(rec.iter().flat_map(|(k, v)| {
+                v.signals
+                    .iter()
+                    .map(|(signal, obs)| (k.clone(), signal.clone(), obs.clone()))
+            }))
+        } else {
+            Box::new([].into_iter())
+        }
     }
 }
-- 
2.43.0


From 41db0d7b667847203647448985bc64be816bcd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 126/131] fix: fields of DORIS stations are written in their
 columns

---
 src/doris/station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doris/station.rs b/src/doris/station.rs
index 847faef..c21d1c1 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -72,7 +72,7 @@ impl std::fmt::Display for Station {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         write!(
             f,
-            "D{:02}  {} {:<29} {}  {}   {}",
+            "D{:02}  {:<4} {:<29} {}{:>3} {:>3}",
             self.key, self.label, self.site, self.domes, self.gen, self.k_factor
         )
     }
-- 
2.43.0


From 73d3dd23ac54b2dc2d8f241ff0ab5158439caf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 127/131] fix: DORIS epochs end with the stations they declare

---
 src/doris/parsing.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index 82745b9..5f0d2d4 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -72,6 +72,8 @@ pub fn parse_epoch(
     const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN".len();
     const FLAG_OFFSET: usize = 2 + EPOCH_SIZE;
     const FLAG_SIZE: usize = 3;
+    const NUM_STATIONS_OFFSET: usize = FLAG_OFFSET + FLAG_SIZE;
+    const NUM_STATIONS_SIZE: usize = 3;
     const CLOCK_OFFSET: usize = 43;
     const CLOCK_SIZE: usize = 13;
     const MIN_EPOCH_SIZE: usize = CLOCK_OFFSET + CLOCK_SIZE;
@@ -108,6 +110,13 @@ pub fn parse_epoch(
         .trim()
         .parse::<EpochFlag>()?;
 
+    let num_stations = line[NUM_STATIONS_OFFSET..NUM_STATIONS_OFFSET + NUM_STATIONS_SIZE]
+        .trim()
+        .parse::<usize>()
+        .map_err(|_| ParsingError::EpochFormat)?;
+
+    let mut nth_station = 0;
+
     let key = DorisKey { epoch, flag };
 
     // parse clock field
@@ -131,6 +140,11 @@ pub fn parse_epoch(
     for line in lines {
         if line.starts_with('D') {
             obs_ptr = 0;
+            nth_station += 1;
+
+            if nth_station > num_stations {
+                break; // not described by this epoch
+            }
 
             // identify station
             station = line
-- 
2.43.0


From 276a6dec12b553c98bb804d8052334c5ac4a7d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 128/131] fix: signals without SNR are OK, and is_ok_snr
 accepts signals tracked correctly

---
 src/observation/signal.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/observation/signal.rs b/src/observation/signal.rs
index ff002bf..81fc8bd 100644
--- a/src/observation/signal.rs
+++ b/src/observation/signal.rs
@@ -51,18 +51,14 @@ impl SignalObservation {
     /// data when SNR or LLI are missing.
     pub fn is_ok(self) -> bool {
         let lli_ok = self.lli.unwrap_or(LliFlags::OK_OR_UNKNOWN) == LliFlags::OK_OR_UNKNOWN;
-        let snr_ok = self.snr.unwrap_or_default().strong();
+        let snr_ok = self.snr.map_or(true, |snr| snr.strong());
         lli_ok && snr_ok
     }
 
     /// [Observation::is_ok] with additional SNR criteria to match (>=).
     /// SNR must then be present otherwise this is not OK.
     pub fn is_ok_snr(&self, min_snr: SNR) -> bool {
-        if self
-            .lli
-            .unwrap_or(LliFlags::OK_OR_UNKNOWN)
-            .intersects(LliFlags::OK_OR_UNKNOWN)
-        {
+        if self.lli.unwrap_or(LliFlags::OK_OR_UNKNOWN) == LliFlags::OK_OR_UNKNOWN {
             if let Some(snr) = self.snr {
                 snr >= min_snr
             } else {
-- 
2.43.0


From 6f06e6bd2fd4cc9289a27dc011a5e009a8d33576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 129/131] fix: crnx2rnx leaves readable RINEX untouched

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b99f43..c00ab76 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -456,7 +456,7 @@ impl Rinex {
 
     /// [Rinex::crnx2rnx] mutable implementation
     pub fn crnx2rnx_mut(&mut self) {
-        if self.is_observation_rinex() {
+        if self.header.is_crinex() {
             let params = self.header.obs.as_ref().unwrap();
             self.header = self
                 .header
-- 
2.43.0


From bd6afafa06e172f5f0651795f7628344f72e82f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:53 +0000
Subject: [PATCH 130/131] fix: observables of DORIS measurements are browsed

---
 src/lib.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c00ab76..510b11f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1270,16 +1270,14 @@ impl Rinex {
                     .unique()
                     .sorted(),
             )
-        // } else if self.record.as_doris().is_some() {
-        //     Box::new(
-        //         self.doris()
-        //             .flat_map(|(_, stations)| {
-        //                 stations
-        //                     .iter()
-        //                     .flat_map(|(_, observables)| observables.iter().map(|(k, _)| k))
-        //             })
-        //             .unique(),
-        //     )
+        } else if let Some(record) = self.record.as_doris() {
+            Box::new(
+                record
+                    .iter()
+                    .flat_map(|(_, v)| v.signals.keys().map(|k| &k.observable))
+                    .unique()
+                    .sorted(),
+            )
         } else {
             Box::new([].into_iter())
         }
-- 
2.43.0


From b0b26b4ddac35bec4ecfb86f4033ee26064800a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 131/131] fix: observation headers are written with RCV CLOCK
 OFFS APPL and SYS / SCALE FACTOR

---
 src/observation/header.rs | 45 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/observation/header.rs b/src/observation/header.rs
index 653a2b1..f4f33dc 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -2,6 +2,7 @@
 
 use crate::{
     epoch::epoch_decompose as epoch_decomposition,
+    fmt_rinex,
     hatanaka::CRINEX,
     prelude::{Constellation, Epoch, FormattingError, Observable, TimeScale},
 };
@@ -92,10 +93,16 @@ impl HeaderFields {
 
         match major {
             1 | 2 => self.format_v1_observables(w)?,
-            _ => self.format_v3_observables(w)?,
+            _ => {
+                self.format_v3_observables(w)?;
+                self.format_scaling(w)?;
+            },
+        }
+
+        if self.clock_offset_applied {
+            writeln!(w, "{}", fmt_rinex("     1", "RCV CLOCK OFFS APPL"))?;
         }
 
-        //TODO scaling
         //TODO DCBs
         Ok(())
     }
@@ -163,6 +170,40 @@ impl HeaderFields {
         Ok(())
     }
 
+    /// Formats "SYS / SCALE FACTOR", observables of one factor being grouped together
+    fn format_scaling<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
+        const NUM_OBSERVABLES_PER_LINE: usize = 12;
+
+        let scaling = self
+            .scaling
+            .iter()
+            .map(|((constell, observable), factor)| (*constell, *factor, observable.to_string()))
+            .sorted()
+            .collect::<Vec<_>>();
+
+        for ((constell, factor), group) in
+            &scaling.into_iter().chunk_by(|(constell, factor, _)| (*constell, *factor))
+        {
+            let observables = group.map(|(_, _, observable)| observable).collect::<Vec<_>>();
+
+            for (nth, line) in observables.chunks(NUM_OBSERVABLES_PER_LINE).enumerate() {
+                let mut content = if nth == 0 {
+                    format!("{:x} {:4}  {:2}", constell, factor, observables.len())
+                } else {
+                    " ".repeat(10)
+                };
+
+                for observable in line {
+                    content.push_str(&format!(" {:<3}", observable));
+                }
+
+                writeln!(w, "{}", fmt_rinex(&content, "SYS / SCALE FACTOR"))?;
+            }
+        }
+
+        Ok(())
+    }
+
     /// Add "TIME OF FIRST OBS" field
     pub(crate) fn with_crinex(&self, c: CRINEX) -> Self {
         let mut s = self.clone();
-- 
2.43.0

