From 18b03a9cdb90d418e22d7936632f6b8fa25013ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 01/33] fix: read_a0/sread_a0 go through float64, losing the
 LSB of timestamps beyond 53 bits

---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 24200ab..67a6510 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -105,7 +105,7 @@ def read_a0(
         the function signature to maintain parity with 'read_a1'.
     """
     data = np.genfromtxt(filename, delimiter="\n", dtype="U8")
-    data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+    data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
     t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
     t = _format_timestamps(t, resolution, fractional)
     p = data[:, 0] & 0xF
@@ -217,7 +217,7 @@ def sread_a0(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+                data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
                 t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
                 t = _format_timestamps(t, resolution, fractional)
                 p = data[:, 0] & 0xF
-- 
2.43.0


From 1956f26b184ecab31cfe466c1b90bbc22a4098a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 02/33] fix: read_a2/sread_a2 fail on events with the top bit
 set

---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 67a6510..637aa81 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -135,7 +135,7 @@ def read_a2(
     ):
     """See documentation for 'read_a0'."""
     data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
-    data = np.array([int(v,16) for v in data])
+    data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
     p = data & 0xF
@@ -243,7 +243,7 @@ def sread_a2(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data])
+                data = np.array([int(v,16) for v in data], dtype=np.uint64)
                 t = np.uint64(data >> 10)
                 t = _format_timestamps(t, resolution, fractional)
                 p = data & 0xF
-- 
2.43.0


From 53c9a16499231334987b37a6c276cce451c2d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 03/33] fix: read_a2 fails on a file with a single event

---
 src/fpfind/lib/parse_timestamps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 637aa81..d8cdf83 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -134,7 +134,7 @@ def read_a2(
         fractional: bool = True,
     ):
     """See documentation for 'read_a0'."""
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
+    data = np.atleast_1d(np.genfromtxt(filename, delimiter="\n", dtype="U16"))
     data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
-- 
2.43.0


From c4ce2f400cfd8d372f3cae7318c40debe7445a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 04/33] fix: print_statistics fails when no events are left

---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index d8cdf83..1d4bb29 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -423,8 +423,8 @@ def print_statistics(filename: str, t: list, p: list):
         ch4_counts=count(p & 0b1000 != 0),
         multi_counts=count(np.isin(p, (0, 1, 2, 4, 8), invert=True)),
         non_counts=count(p == 0),
-        start_timestamp=t[0],
-        end_timestamp=t[-1],
+        start_timestamp=t[0] if len(t) != 0 else None,
+        end_timestamp=t[-1] if len(t) != 0 else None,
         patterns=sorted(np.unique(p)),
     )
 
-- 
2.43.0


From d982616a78dea96a8bdc9b98de3e7c6ec05a2db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 05/33] fix: statistics report fails when all events share one
 timestamp

---
 src/fpfind/lib/parse_timestamps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 1d4bb29..4eb2f77 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -514,7 +514,8 @@ def print_statistics_report(
         print(f"Duration (s) : {duration:15.9f}")
         print(f"  ~ start    : {start_timestamp*1e-9:>15.9f}")
         print(f"  ~ end      : {end_timestamp*1e-9:>15.9f}")
-        print(f"Event rate (/s) : {int(num_events//duration)}")
+        rate = int(num_events//duration) if duration != 0 else "N/A"
+        print(f"Event rate (/s) : {rate}")
         print(f"Detection patterns: {patterns}")
 
 
-- 
2.43.0


From cf89302fe7dd39ba5701e1746ef8c1a358b388ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 06/33] fix: write_T1 corrupts or rejects events given as numpy
 integers

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 6f472a9..4ac0b3a 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -406,7 +406,7 @@ def write_T1(directory, full_epoch, timestamps, detectors):
         # 17-bit LSB epoch fits into a timestamp event
         timestamp_epoch = ((full_epoch & ((1<<17)-1)) << (32 + 5))
         for timestamp, detector in zip(timestamps, detectors):
-            full_timestamp = timestamp_epoch + timestamp
+            full_timestamp = timestamp_epoch + int(timestamp)
             event = (full_timestamp << 10) + int(detector)
 
             # Write high word, then low word
-- 
2.43.0


From 525139660d4659556350824c565434c80af4335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 07/33] fix: read_T2 accumulates in float64 and fails for 4ps
 integer timestamps

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 4ac0b3a..44d8907 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -309,7 +309,7 @@ def read_T2(
     # Add 17-bit epoch LSB as per regular timestamp spec,
     # i.e. (17-bit epoch LSB)(32-bit timestamp) => 49-bits
     epoch_lsb = header.epoch & ((1 << 17) - 1)
-    timestamp = np.uint64(epoch_lsb << 32)  # current timestamp, deltas stored in T2
+    timestamp = epoch_lsb << 32  # current timestamp, deltas stored in T2
     buffer = 0
     size = 0  # number of bits in buffer
     with open(filename, "rb") as f:
-- 
2.43.0


From 1daeb6a1bcc826919302abf23da5344d39c59981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 08/33] fix: read_T2/read_T4 never return on a truncated file

---
 src/fpfind/lib/parse_epochs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 44d8907..7efa4cf 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -264,8 +264,11 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
     """
     # Append word from fileobject if insufficient bits
     if size < msb_size and fileobject:
+        word = fileobject.read(4)
+        if len(word) < 4:
+            raise ValueError("Epoch file ends before its termination bits")
         buffer <<= 32
-        buffer += int.from_bytes(fileobject.read(4), byteorder="little")
+        buffer += int.from_bytes(word, byteorder="little")
         size += 32
 
     # Extract MSB from buffer
-- 
2.43.0


From 953f111e86579b4ba73d39c6bc7176fb93aefc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 09/33] fix: read_T1 accepts half an event at the end of a
 truncated file

---
 src/fpfind/lib/parse_epochs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 7efa4cf..ea32943 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -193,6 +193,8 @@ def read_T1(
 
             if value == 0:
                 break  # termination
+            if len(event_low) < 4:
+                raise ValueError("Epoch file ends within an event")
 
             # Timestamp in units of 4ps, stored in 54-bit MSB
             timestamp = value >> 10
-- 
2.43.0


From 69b0b03dbdc54f9db337ac7ef3c0151a4352976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 10/33] fix: get_timestamp goes back in time when the 17-bit
 epoch counter wraps

---
 src/fpfind/lib/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index d11d69d..ab4c78e 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -404,10 +404,14 @@ def get_first_overlapping_epoch(
 def get_timestamp(dirname, file_type, first_epoch, skip_epoch, num_of_epochs):
     epochdir = pathlib.Path(dirname)
     timestamp = np.array([], dtype=np.float128)
+    first_epochint = epoch2int(first_epoch)
     for i in range(num_of_epochs):
-        epoch_name = epochdir / int2epoch(epoch2int(first_epoch) + skip_epoch + i)
+        epochint = first_epochint + skip_epoch + i
+        epoch_name = epochdir / int2epoch(epochint)
         reader = read_T1 if file_type == "T1" else read_T2
-        timestamp = np.append(timestamp, reader(epoch_name)[0])
+        # Timestamps carry only 17 bits of the epoch, i.e. wrap every 2^46 ns
+        wraps = (epochint >> 17) - (first_epochint >> 17)
+        timestamp = np.append(timestamp, reader(epoch_name)[0] + wraps * (1 << 46))
     return timestamp
 
 def normalize_timestamps(*T, skip: float = 0.0, preserve_relative: bool = True):
-- 
2.43.0


From b4f3d16d26dad51befaf7a33fd50baff84e5557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 11/33] fix: freqcd applies the last correction again when a
 read completes no event

---
 src/fpfind/freqcd.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 146f0c4..cad3d2b 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -380,8 +380,10 @@ int main(int argc, char *argv[]) {
             }
 
             /* update reference timestamp to keep within 20 hour overflow condition */
-            tsref = tsmeas;
-            tsoverflowcorr += tscorr;
+            if (eventnum > 0) {
+                tsref = tsmeas;
+                tsoverflowcorr += tscorr;
+            }
         }
 
         // Read frequency correction values
-- 
2.43.0


From d2dd00c7c4973c05ac697979dc9feece5de8e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 12/33] fix: freqcd loses the start of frequency values split
 across reads

---
 src/fpfind/freqcd.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index cad3d2b..6ff79d0 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -426,13 +426,17 @@ int main(int argc, char *argv[]) {
             }
 
             /* clear parsed numbers from freqbuffer */
-            if (next_num_idx > 0) {
-                freqbytespartial = freqbytesread - next_num_idx;
-                for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
-                    freqbuffer[j] = freqbuffer[i];
-                }
-                freqbuffer_next = &freqbuffer[freqbytespartial];
+            freqbytespartial = freqbytesread - next_num_idx;
+            for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
+                freqbuffer[j] = freqbuffer[i];
+            }
+
+            /* too long for a value: leave a marker to ignore the rest of the line */
+            if (freqbytespartial == FREQBUFSIZE - 1) {
+                freqbuffer[0] = '?';
+                freqbytespartial = 1;
             }
+            freqbuffer_next = &freqbuffer[freqbytespartial];
         }
 
         // TODO: Shift this back to select call to write only when pipe available,
-- 
2.43.0


From ef18bac3f249c34f012f43394fdd103bc56a6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 13/33] fix: freqcd accepts frequency values that overflow an
 int

---
 src/fpfind/freqcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 6ff79d0..8c6240b 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -129,7 +129,7 @@ int readint(char *buff) {
     long value;
     value = strtol(buff, &end, 10);
     // string is a decimal, zero-terminated, and fits in an int
-    if ((end != buff) && (*end == 0) && (abs(value) < INT_MAX))
+    if ((end != buff) && (*end == 0) && (value > -INT_MAX) && (value < INT_MAX))
         return (int)value;
     return INT_MAX;
 }
-- 
2.43.0


From 7bc434cd53144d7b33830505ede99644e1424b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 14/33] fix: freqcd -f accepts non-integers and values that
 overflow an int

---
 src/fpfind/freqcd.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 8c6240b..7a5bae5 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -193,7 +193,8 @@ int main(int argc, char *argv[]) {
             freqfilename[FNAMELENGTH-1] = 0;  // security termination
             break;
         case 'f':
-            if (sscanf(optarg, "%d", &fcorr) != 1) return -emsg(4);
+            fcorr = readint(optarg);
+            if (fcorr == INT_MAX) return -emsg(4);
             break;
         case 'x':
             islegacy = 1;
@@ -209,8 +210,9 @@ int main(int argc, char *argv[]) {
 
     /* check specified frequency correction is within-bounds */
     // needs to be done after argument reading for position-agnostic '-f'
-    if (isdecimal) fcorr = (int) fcorr * FCORR_DTOB;
     if (abs(fcorr) >= FCORR_MAX) return -emsg(5);
+    if (isdecimal) fcorr = (int) fcorr * FCORR_DTOB;
+    if (abs(fcorr) >= FCORR_MAX) return -emsg(5);  // after unit conversion
 
     /* set input and output handler */
     int inhandle = 0;  // stdin by default
-- 
2.43.0


From aa90c9c4643a7194d94f8ed41923c9d54cb99802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 15/33] fix: freqcd miscorrects all events after the raw
 timestamps roll over

---
 src/fpfind/freqcd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 7a5bae5..931f0f2 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -84,6 +84,7 @@
 #define FILE_PERMISSONS 0644       /* for all output files */
 #define INBUFENTRIES 1024          /* max. elements in input buffer */
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
+#define TS_BITS 54                 /* size of raw timestamps */
 #define FREQBUFSIZE 100            /* max. length of frequency correction values */
 #define RETRYREADWAIT 500000       /* sleep time in usec after an empty read */
 #define FCORR_ARESBITS -34         /* absolute resolution of correction, in power of 2 */
@@ -164,6 +165,7 @@ int main(int argc, char *argv[]) {
     const int FCORR_MAX = 1 << (FCORR_AMAXBITS - FCORR_ARESBITS);
     const int FCORR_TBITS1 = -FCORR_AMAXBITS - 1;  // bit truncations when correcting timestamp
     const int FCORR_TBITS2 = (FCORR_AMAXBITS - FCORR_ARESBITS) + 1;
+    const ull TS_MASK = ((ull)1 << TS_BITS) - 1;
 
     // Conversion factor for decimal mode, i.e. 1e-10/2^-34 = ~1.7179869
     // Ratio inverted due to negative signs in exponents.
@@ -360,7 +362,8 @@ int main(int argc, char *argv[]) {
                 tsmeas = ((ull)high << 22) | (low >> 10);
 
                 /* calculate timestamp correction */
-                tscorr = ((ll)((tsmeas - tsref) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                // Masked since raw timestamps roll over
+                tscorr = ((ll)(((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
-- 
2.43.0


From 77365cb138fd47443e7d1498df9d885033e4e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 16/33] fix: freqcd cuts file names at whitespace and overflows
 its buffers on long ones

---
 src/fpfind/freqcd.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 931f0f2..269d44b 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -80,7 +80,6 @@
 
 /* default definitions */
 #define FNAMELENGTH 200            /* length of file name buffers */
-#define FNAMEFORMAT "%200s"        /* for sscanf of filenames */
 #define FILE_PERMISSONS 0644       /* for all output files */
 #define INBUFENTRIES 1024          /* max. elements in input buffer */
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
@@ -135,6 +134,12 @@ int readint(char *buff) {
     return INT_MAX;
 }
 
+/* for reading filenames, nonzero if empty or too long */
+int readname(char *arg, char *name) {
+    int length = snprintf(name, FNAMELENGTH, "%s", arg);
+    return (length <= 0) || (length >= FNAMELENGTH);
+}
+
 void usage() {
     fprintf(stderr, "\
 Usage: freqcd [-i infilename] [-o outfilename] [-x]\n\
@@ -183,16 +188,13 @@ int main(int argc, char *argv[]) {
     while ((opt = getopt(argc, argv, "i:o:F:f:xdh")) != EOF) {
         switch (opt) {
         case 'i':
-            if (sscanf(optarg, FNAMEFORMAT, infilename) != 1) return -emsg(2);
-            infilename[FNAMELENGTH-1] = 0;  // security termination
+            if (readname(optarg, infilename)) return -emsg(2);
             break;
         case 'o':
-            if (sscanf(optarg, FNAMEFORMAT, outfilename) != 1) return -emsg(8);
-            outfilename[FNAMELENGTH-1] = 0;  // security termination
+            if (readname(optarg, outfilename)) return -emsg(8);
             break;
         case 'F':
-            if (sscanf(optarg, FNAMEFORMAT, freqfilename) != 1) return -emsg(10);
-            freqfilename[FNAMELENGTH-1] = 0;  // security termination
+            if (readname(optarg, freqfilename)) return -emsg(10);
             break;
         case 'f':
             fcorr = readint(optarg);
-- 
2.43.0


From 516c89a2f1e9bcda11047fe16802a2d27cbc2eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 17/33] fix: freqcd loses up to all of the correction when
 reads hold few events

---
 src/fpfind/freqcd.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 269d44b..fabba77 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -279,6 +279,8 @@ int main(int argc, char *argv[]) {
     int isset_tsref = 0;    // initialization marker for tsref
     ull ts, tsmeas;         // timestamp
     ll tscorr;              // timestamp correction
+    ll tscorrfrac = 0;      // fraction truncated from correction, 2^-FCORR_TBITS2 units
+    ull tsstep;             // time since reference timestamp, in truncated units
     ll tsoverflowcorr = 0;  // timestamp overflow corrections
     unsigned int high;      // high word in timestamp
     unsigned int low;       // low word in timestamp
@@ -365,7 +367,8 @@ int main(int argc, char *argv[]) {
 
                 /* calculate timestamp correction */
                 // Masked since raw timestamps roll over
-                tscorr = ((ll)(((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                tsstep = ((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1;
+                tscorr = ((ll)tsstep * fcorr + tscorrfrac) >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
@@ -387,8 +390,10 @@ int main(int argc, char *argv[]) {
             }
 
             /* update reference timestamp to keep within 20 hour overflow condition */
+            // Truncated parts are carried over, otherwise lost with every read
             if (eventnum > 0) {
-                tsref = tsmeas;
+                tsref += tsstep << FCORR_TBITS1;
+                tscorrfrac += (ll)tsstep * fcorr - tscorr * ((ll)1 << FCORR_TBITS2);
                 tsoverflowcorr += tscorr;
             }
         }
-- 
2.43.0


From 9a6ff7e73dd647044dca58f2b03fda762518164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 18/33] fix: generate_freqcd_testcase ignores -x when writing

---
 src/fpfind/lib/generate_freqcd_testcase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 2be66eb..e21f73a 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -71,6 +71,7 @@ def owrite(event):
     sys.stdout.flush()
 
 def main():
+    global LEGACY
     parser = argparse.ArgumentParser(description="Generates binary timestamp events for testing freqcd.")
     parser.add_argument("-o", help="output file, defaults to stdout stream")
     parser.add_argument("-t", type=int, nargs="+", help="list of timestamps in decimal")
-- 
2.43.0


From d8791895ec5e48389fc922363d2988e03a3bf01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 19/33] fix: generate_freqcd_testcase overwrites the file it is
 asked to read

---
 src/fpfind/lib/generate_freqcd_testcase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index e21f73a..cb21608 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -115,8 +115,9 @@ def main():
 
         # Read binary timestamps from file
         try:
-            with open(inputfile, "wb") as f:
-                f.write(sys.stdin.buffer.read())
+            if HAS_TEMP_FILE:
+                with open(inputfile, "wb") as f:
+                    f.write(sys.stdin.buffer.read())
 
             # Parsing binary timestamps
             ts, _ = ts_parser.read_a1(inputfile, args.x)
-- 
2.43.0


From 8df6db02dc1504bee835b29da86107239c26055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 20/33] fix: inverted time compensation scaled the wrong way by
 the frequency offset

---
 src/fpfind/fpfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index e06acf2..a132f8a 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -663,7 +663,7 @@ def main():
     # Use if the low-count side is undergoing frequency correction
     flag = args.output
     if flag & 0b0001:
-        dt = -dt * (1 + df)    # t_alice * (1 + f_alice) + t_bob = 0
+        dt = -dt / (1 + df)    # t_alice * (1 + f_bob) + t_bob = 0
         df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1
     if flag & 0b0010:
         df = f"{round(df * (1 << 34)):d}"
-- 
2.43.0


From ae62bab5f65e4660f9ff04971791a94048d39783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 21/33] fix: slice_timestamps raises IndexError when no
 timestamps are left

---
 src/fpfind/lib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index ab4c78e..531d7cc 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -271,7 +271,7 @@ def slice_timestamps(
     else:
         ts = ts - ts[0]
     if duration is not None:
-        if duration >= ts[-1]:
+        if len(ts) > 0 and duration >= ts[-1]:
             warnings.warn(
                 f"Desired duration ({duration*1e-9:.3f} s) is longer "
                 f"than available data ({ts[-1]*1e-9:.3f} s)")
-- 
2.43.0


From 096f7817af9671d5edf4dbd56df512539e8da918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 22/33] fix: PeakStatistics.significance_raw always raises

---
 src/fpfind/lib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index 531d7cc..75a24a2 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -92,7 +92,7 @@ class PeakStatistics:
     def significance_raw(self):
         if self.stdev == 0:
             return None
-        full = np.hstack(self.signal, self.background)
+        full = np.hstack((self.signal, self.background))
         return (np.max(full) - np.mean(full)) / np.std(full)
 
     @property
-- 
2.43.0


From 237e977604490020cf6f95b20e82b728ea941495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 23/33] fix: get_statistics rejects fractional peak centers

---
 src/fpfind/lib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index 75a24a2..a7c894f 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -142,7 +142,7 @@ def get_statistics(
     if center is None:
         bin_center = np.argmax(hist)
     else:
-        bin_center = np.abs(center) // resolution
+        bin_center = int(np.abs(center) // resolution)
         if center < 0:
             bin_center = len(hist) - bin_center
 
-- 
2.43.0


From 7b27c36ef09254b52889ff88e924a559e3693a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 24/33] fix: --precomp-fullscan reports no peak even when peaks
 were found

---
 src/fpfind/fpfind.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index a132f8a..6f4f061 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -347,6 +347,7 @@ def fpfind(
         precompensation_fullscan: Specify whether to continue even after peak found.
     """
     df0s = precompensations
+    found = []
 
     # Go through all precompensations
     for df0 in df0s:
@@ -373,6 +374,7 @@ def fpfind(
             "", resolution=target_resolution, dt=dt, df=f-1,
         )
         logger.info(f"Peak found,          {df0*1e6:7.3f} ppm: {str(e)}")
+        found.append((dt, f))
         # TODO: Justify the good enough frequency value
         # TODO(2024-01-31): Add looping code to customize refinement steps.
         if precompensation_fullscan:
@@ -380,9 +382,10 @@ def fpfind(
         break
 
     # No appropriate frequency compensation found
-    else:
+    if not found:
         raise ValueError("No peak found!")  # TODO
 
+    dt, f = found[0]
     df = f - 1
     return dt, df
 
-- 
2.43.0


From ca0ec9def285f7976fc7e0bf654fe824d06619c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 25/33] fix: first call of freqcd looks for its files in the
 wrong directory

The stand-in script changes into the package directory to compile the
program, and ran it from there: relative names given to -i, -o and -F
were taken relative to the package.
---
 src/fpfind/freqcd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index ae28943..7e9cad8 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -22,7 +22,7 @@ rm -f ${INSTALL_ROOT}/freqcd_path \
     && echo "${PROGRAM}" > ${INSTALL_ROOT}/freqcd_path
 
 # Trigger post-install compilation and write directly to target
-cd ${INSTALL_ROOT} && ./_postinstall ${PROGRAM} \
+( cd ${INSTALL_ROOT} && ./_postinstall ${PROGRAM} ) \
     || { echo "'freqcd.c' failed to compile... not running."; exit 1; }
 
 # Pass arguments and directly execute
-- 
2.43.0


From fd9a901ce680b6b54631c11911a4c15ece357ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 26/33] fix: freqcd called by a relative path is compiled into
 the wrong place

The stand-in script passed the path on to be written after changing into
the package directory, where it names another file or none at all.
---
 src/fpfind/freqcd | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index 7e9cad8..301af6d 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -12,6 +12,12 @@
 # e.g. /bin/sh /home/justin/.pyenv/versions/3.10.6/bin/freqcd -x ...
 PROGRAM=$(ps -q $$ -o args= | awk -F ' ' '{print $2}')
 
+# Compilation happens in another directory, so a relative path must be resolved
+case "${PROGRAM}" in
+    /*) ;;
+    *) PROGRAM="${PWD}/${PROGRAM}" ;;
+esac
+
 # Get root directory of installed library, where postinstall script is located
 ENTRYPOINT=$(python3 -c "import importlib.util; print(importlib.util.find_spec('fpfind').origin)")
 INSTALL_ROOT=$(dirname "$(readlink -f ${ENTRYPOINT})")
-- 
2.43.0


From 65670a94cdd9b1759d98a7898efbc8a33757cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 27/33] fix: histogram_fft raises TypeError for any input

It still called generate_fft with the slice to take, and expected the length
of the slice back, which generate_fft no longer does.  It also shifted the
caller's arrays in place.
---
 src/fpfind/lib/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index a7c894f..1c5ef38 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -315,13 +315,15 @@ def histogram_fft(
 
     # Normalize timestamps
     acq_start = 0 if acq_start is None else acq_start
-    alice -= first_timestamp + acq_start
-    bob -= first_timestamp + acq_start
+    alice = alice - (first_timestamp + acq_start)
+    bob = bob - (first_timestamp + acq_start)
     bob = bob * (1 + freq_corr)
+    alice = slice_timestamps(alice, 0, duration)
+    bob = slice_timestamps(bob, 0, duration)
 
     # Generate FFT
-    afft, alen = generate_fft(alice, num_bins, resolution, 0, duration)
-    bfft, blen = generate_fft(bob, num_bins, resolution, 0, duration)
+    afft, alen = generate_fft(alice, num_bins, resolution), len(alice)
+    bfft, blen = generate_fft(bob, num_bins, resolution), len(bob)
     result = get_xcorr(afft, bfft, filter)
     bins = np.arange(num_bins) * resolution
     if statistics:
-- 
2.43.0


From e765ed4eeed0011ba379e920efe40375101164fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 28/33] fix: formatting help of positional arguments prints
 debug output

---
 src/fpfind/lib/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index 1c5ef38..7f4ea6b 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -339,7 +339,6 @@ class ArgparseCustomFormatter(argparse.RawDescriptionHelpFormatter):
     def _format_action_invocation(self, action):
         if not action.option_strings:
             _ = self._metavar_formatter(action, action.dest)(1)
-            print(action, _)
             metavar, = _
             return metavar
         else:
-- 
2.43.0


From 2092d88433270d293ba7715678dc2e488836b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 29/33] fix: refinement does not end with separations around
 1.41

---
 src/fpfind/fpfind.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 6f4f061..ac44ffe 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -302,7 +302,11 @@ def time_freq(
 
         # Update for next iteration
         bts = (bts - dt1) / (1 + df1)
-        resolution /= (separation_duration / duration / RES_REFINE_FACTOR)
+        # Short separations must still yield a finer resolution
+        resolution /= max(
+            separation_duration / duration / RES_REFINE_FACTOR,
+            RES_REFINE_FACTOR,
+        )
         resolution = max(resolution, target_resolution)
         curr_iteration += 1
 
-- 
2.43.0


From 2f91b55fb9cc87cae789ccfc14d40086399c9b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 30/33] fix: an undefined skew is printed as a result

---
 src/fpfind/fpfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index ac44ffe..0c063fd 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -289,7 +289,7 @@ def time_freq(
         ]})
 
         # Throw error if compensation does not fall within bounds
-        if abs(f - 1) >= MAX_FCORR:
+        if not abs(f - 1) < MAX_FCORR:  # including undefined values
             raise PeakFindingFailed(
                 "Compensation OOB",
                 significance=sig, resolution=resolution,
-- 
2.43.0


From 8f87c29cd15d1333a07426437337720370c9338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 31/33] fix: converting a timestamp file onto itself destroys
 it when streaming

---
 src/fpfind/lib/parse_timestamps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 4eb2f77..09f7c75 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -769,6 +769,10 @@ def main():
 
     # Write out
     else:
+        # Input is still being read while output is written
+        outpath = pathlib.Path(args.outfile)
+        if outpath.exists() and outpath.samefile(filepath):
+            raise ValueError("destination must differ from source when streaming.")
         stream, num_batches = sread(filepath, args.X, TSRES.PS4, False)
         stream = inline_filter(stream, TSRES.PS4)
         swrite(args.outfile, stream, num_batches, args.x, resolution=TSRES.PS4, display=(not args.quiet))
-- 
2.43.0


From dc3caf380e0b774ae79b90fe3cd5699e1a037416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 32/33] fix: freqcd destroys its input when it is named as
 output too

---
 src/fpfind/freqcd.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index fabba77..9131cff 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -73,6 +73,7 @@
 #include <stdlib.h>
 #include <fcntl.h>   // open, O_RDONLY, O_NONBLOCK
 #include <sys/select.h> // fd_set, usually implicitly declared
+#include <sys/stat.h> // stat, fstat
 #include <unistd.h>  // getopt, select
 #include <errno.h>   // select errno
 #include <limits.h>  // INT_MAX
@@ -117,6 +118,7 @@ char *errormessage[] = {
     "Error opening freq correction stream source",
     "Freq correction value not newline terminated",
     "Unable to allocate memory to freqbuffer",
+    "Input and output are the same file",
 };
 int emsg(int code) {
     fprintf(stderr, "%s\n", errormessage[code]);
@@ -227,6 +229,12 @@ int main(int argc, char *argv[]) {
 
     int outhandle = 1;  // stdout by default
     if (outfilename[0]) {
+        // opening will truncate the file, before any event is read from it
+        struct stat instat, outstat;
+        if (!fstat(inhandle, &instat) && !stat(outfilename, &outstat)
+            && S_ISREG(instat.st_mode)
+            && instat.st_dev == outstat.st_dev && instat.st_ino == outstat.st_ino
+        ) return -emsg(14);
         outhandle = open(outfilename, O_WRONLY | O_CREAT | O_TRUNC, FILE_PERMISSONS);
         if (outhandle == -1) return -emsg(9);
     }
-- 
2.43.0


From 7627f9438ad0c24b5d3d784a1f55d4390d43a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:10 +0000
Subject: [PATCH 33/33] fix: keep refining after bins were merged beyond a
 single wrap

Merging bins four times or more (with the default separation) left the next
iteration with a zero number of wraps, i.e. no timestamps to correlate, so
that the accepted peak was given up with 'Array is empty!'.
---
 src/fpfind/fpfind.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 0c063fd..91b088a 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -157,6 +157,11 @@ def time_freq(
         num_wraps = np.round(duration / (resolution * num_bins))
         _duration = min(num_wraps, max_wraps) * resolution * num_bins
 
+        # Bins merged during the first iteration can be so coarse that
+        # a single wrap exceeds the timestamps to correlate
+        if curr_iteration != 1 and _duration == 0:
+            _duration = duration
+
         # Perform cross-correlation
         logger.debug(
             "      Performing earlier xcorr (range: [0.00, %.2f]s)",
-- 
2.43.0

