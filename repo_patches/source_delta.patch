From 3747446330f106c58250804d3328334b1a3d2687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:24 +0000
Subject: [PATCH 01/22] fix: packet lengths in PLT/PLM: endless loop on
 unterminated last entry, lost high bits

A PLT/PLM segment whose last byte has its most significant bit set made
_parse_ipl loop forever, and packet lengths of 3 or more bytes lost their
high-order bits.
---
 jpylyzer/boxvalidator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 5f5ef9e..3d630c6 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -267,16 +267,16 @@ class BoxValidator:
         while i < lpl and i < len(
                 self.boxContents):  # Don't over-read on bad lplt/lplm
             ipl_i_len = 1  # number of bytes making up the current ipl(t|m)_i
-            while bc.bytesToUnsignedChar(
+            # Don't look beyond last byte if it isn't the end of an ipl(t|m)_i
+            while i + ipl_i_len < len(self.boxContents) and bc.bytesToUnsignedChar(
                     self.boxContents[i + ipl_i_len - 1:i + ipl_i_len]) & 0x80:
                 ipl_i_len += 1
 
             # Join all the segments together
-            iplt_i = bc.bytesToUnsignedChar(self.boxContents[i:i + 1])
-            for ipl_index in range(1, ipl_i_len):
-                iplt_i = (iplt_i & 0x7F) << 7
-                iplt_i |= bc.bytesToUnsignedChar(
-                    self.boxContents[i + ipl_index:i + ipl_index + 1])
+            iplt_i = 0
+            for ipl_index in range(ipl_i_len):
+                iplt_i = (iplt_i << 7) | (bc.bytesToUnsignedChar(
+                    self.boxContents[i + ipl_index:i + ipl_index + 1]) & 0x7F)
 
             i += ipl_i_len
             iplt += ('{:0' + str(2 * ipl_i_len) + 'X},').format(iplt_i)
-- 
2.43.0


From c4a5a2ccb7b4bba8a775b4b49279dd53569c1f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:25 +0000
Subject: [PATCH 02/22] fix: endless loop on SOT marker segment that is too
 short to contain psot

An SOT segment with a nonsensical length yields a psot value of -9999, which
made the tile-part loop jump backwards in the codestream.
---
 jpylyzer/boxvalidator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 3d630c6..60c8dac 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1673,12 +1673,13 @@ class BoxValidator:
                         # tilePartsPerTileFound (e.g. because the isot field is
                         # damaged)
                         break
-                    if offsetNext != offset:
+                    if offsetNext > offset:
                         offset = offsetNext
                     else:
                         # offsetNext same as offset: this happens if image only contains
                         # one single tile-part (psot=0), in which case we break out of
-                        # this loop
+                        # this loop. Also break out if offsetNext is smaller than offset
+                        # (psot could not be read), as this could result in an infinite loop
                         break
 
             # Length of tileIndices must equal numberOfTilesExpected
@@ -3258,7 +3259,7 @@ class BoxValidator:
             # matter since check for EOC is included elsewhere
             markerNextTilePart = self.boxContents[
                 offsetNextTilePart:offsetNextTilePart + 2]
-            foundNextTilePartOrEOC = markerNextTilePart in [
+            foundNextTilePartOrEOC = tilePartLength > 0 and markerNextTilePart in [
                 b'\xff\x90', b'\xff\xd9']
             self.testFor("foundNextTilePartOrEOC", foundNextTilePartOrEOC)
 
-- 
2.43.0


From c922b93e2dc7d4146f69416467a18939ef5af950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:25 +0000
Subject: [PATCH 03/22] fix: unknown error on rsiz values of 4k IMF reversible
 profile and undefined values

profile 8 and profile 0 with main level 8 or higher left 'capability' unassigned.
---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 60c8dac..9405b21 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1808,6 +1808,8 @@ class BoxValidator:
                 capability = "Scalable 4K digital cinema profile"
             elif mainLevel == 7:
                 capability = "Long-term storage profile"
+            else:
+                capability = "Unknown (value not defined in ISO/IEC 15444-1)"
         elif profile == 1:
             capability = "Broadcast Contribution Single Tile Profile, Mainlevel " + \
                 str(mainLevel)
@@ -1830,7 +1832,7 @@ class BoxValidator:
             capability = "2k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 8:
-            rsiz = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
+            capability = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 9:
             capability = "8k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
-- 
2.43.0


From 585683bb100a0c98fc03f67f2e66c6557568d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:25 +0000
Subject: [PATCH 04/22] fix: unknown error on resolution boxes with a
 denominator of 0

---
 jpylyzer/boxvalidator.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 9405b21..de16d09 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1213,11 +1213,19 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+        if vRcD != 0:
+            vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+        else:
+            # Denominator of 0 is not valid, use bogus value
+            vRescInPixelsPerMeter = -9999
         self.addCharacteristic(
             "vRescInPixelsPerMeter", round(vRescInPixelsPerMeter, 2))
 
-        hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
+        if hRcD != 0:
+            hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
+        else:
+            # Denominator of 0 is not valid, use bogus value
+            hRescInPixelsPerMeter = -9999
         self.addCharacteristic(
             "hRescInPixelsPerMeter", round(hRescInPixelsPerMeter, 2))
 
@@ -1272,11 +1280,19 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+        if vRdD != 0:
+            vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+        else:
+            # Denominator of 0 is not valid, use bogus value
+            vResdInPixelsPerMeter = -9999
         self.addCharacteristic(
             "vResdInPixelsPerMeter", round(vResdInPixelsPerMeter, 2))
 
-        hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
+        if hRdD != 0:
+            hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
+        else:
+            # Denominator of 0 is not valid, use bogus value
+            hResdInPixelsPerMeter = -9999
         self.addCharacteristic(
             "hResdInPixelsPerMeter", round(hResdInPixelsPerMeter, 2))
 
-- 
2.43.0


From 331d2383a17c86e0055eaaac9d5e39c1d3954454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:25 +0000
Subject: [PATCH 05/22] fix: unknown error on UUID and UUID List boxes that are
 too short

---
 jpylyzer/boxvalidator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index de16d09..e1f4211 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3331,7 +3331,11 @@ class BoxValidator:
 
         # First 16 bytes contain UUID, convert to string of hex digits
         # in standard form
-        boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))
+        # (empty string if box is too small to contain a UUID)
+        if boxLength >= 16:
+            boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))
+        else:
+            boxUUID = ""
 
         if boxUUID == "be7acfcb-97a9-42e8-9c71-999491e3afac":
             # XMP packet
@@ -3429,6 +3433,9 @@ class BoxValidator:
         # Loop through all UUIDs
         offset = 2
         for _ in range(nU):
+            # Stop at end of box if it contains fewer UUIDs than expected
+            if offset + 16 > len(self.boxContents):
+                break
             boxUUID = str(
                 uuid.UUID(bytes=self.boxContents[offset:offset + 16]))
             self.addCharacteristic("uuid", boxUUID)
-- 
2.43.0


From a82feab28ce71e9394118793a025dec5b8f49ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:25 +0000
Subject: [PATCH 06/22] fix: unknown error if file ends in a box type that
 looks like a codestream marker

If only 2 bytes of a truncated box type are left and these correspond to e.g. the
COC marker, the box was processed as a codestream marker segment.
---
 jpylyzer/boxvalidator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index e1f4211..5d67b53 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -143,6 +143,11 @@ class BoxValidator:
         # Box type
         boxType = self.boxContents[byteStart + 4:byteStart + 8]
 
+        # A truncated box type must never be mistaken for a (2 byte) codestream
+        # marker
+        if len(boxType) < 4:
+            boxType = boxType.ljust(4, b'\x00')
+
         # Start byte of box contents
         contentsStartOffset = 8
 
-- 
2.43.0


From affcfea094157126854ce33fc01b04cff67262e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:25 +0000
Subject: [PATCH 07/22] fix: bPCIsValid test in Image Header box passed for
 illegal bit depths

Only 255 indicates variable bit depth, the test accepted any value.
---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 5d67b53..1984bde 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -540,7 +540,7 @@ class BoxValidator:
         # 1. bPCDepth in range 1-38 (including limits)
         # 2. OR bPC equal 255 (indicating that components vary in bit depth)
         bPCDepthIsWithinAllowedRange = 1 <= bPCDepth <= 38
-        bitDepthIsVariable = 1 <= bPC <= 255
+        bitDepthIsVariable = bPC == 255
 
         if bPCDepthIsWithinAllowedRange or bitDepthIsVariable:
             bPCIsValid = True
-- 
2.43.0


From 264c88f529643468a5d2c77b9eddb17dba779e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:25 +0000
Subject: [PATCH 08/22] fix: cAssocIsValid test used value of cTyp

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 1984bde..7475d6a 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1104,7 +1104,7 @@ class BoxValidator:
             self.addCharacteristic("cAssoc", cAssoc)
 
             # Allowed range: 0 - 65535
-            self.testFor("cAssocIsValid", 0 <= cTyp <= 65535)
+            self.testFor("cAssocIsValid", 0 <= cAssoc <= 65535)
 
             if cTyp in [1, 2]:
                 alphaChannels.append([cTyp, cAssoc])
-- 
2.43.0


From 5507252721bdce8eb96e2c18778b64bf01fb8f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:25 +0000
Subject: [PATCH 09/22] fix: codestream compression ratio used horizontal
 instead of vertical offset

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 7475d6a..c8f0801 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1751,7 +1751,7 @@ class BoxValidator:
                 # Calculate compression ratio
                 ssizDepthValues = characteristicsSIZ.findAllText('ssizDepth')
                 ysiz = characteristicsSIZ.findElementText('ysiz')
-                yOsiz = characteristicsSIZ.findElementText('xOsiz')
+                yOsiz = characteristicsSIZ.findElementText('yOsiz')
                 xsiz = characteristicsSIZ.findElementText('xsiz')
                 xOsiz = characteristicsSIZ.findElementText('xOsiz')
 
-- 
2.43.0


From f745c03c197dea2f9a50e2a3410c84dfb20f56d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:25 +0000
Subject: [PATCH 10/22] fix: PRF/CPF marker segments: only first entry was
 read, last entry never tested

Also use documented name of lcpfIsValid test.
---
 jpylyzer/boxvalidator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index c8f0801..914e307 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2893,9 +2893,10 @@ class BoxValidator:
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             PRFnum += pprf * 2 ** (16 * i)
-            if i == nopprfs:
+            if i == nopprfs - 1:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
+            offset += 2
 
         self.testFor("PRFnumIsValid", PRFnum > 4095)
         self.addCharacteristic("PRFnum", PRFnum)
@@ -2909,7 +2910,7 @@ class BoxValidator:
 
         # lcpf  must be within range 4-65534
         if self.format in ['jph', 'jhc']:
-            self.testFor("lcpIsValid", 4 <= lcpf <= 65534)
+            self.testFor("lcpfIsValid", 4 <= lcpf <= 65534)
 
         # Number of pcpf entries
         nopcpfs = int((lcpf - 2) / 2)
@@ -2921,10 +2922,11 @@ class BoxValidator:
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             CPFnum += pcpf * 2 ** (16 * i)
-            if i == nopcpfs:
+            if i == nopcpfs - 1:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
                     self.testFor("pcpfIsValid", pcpf != 0)
+            offset += 2
 
         self.addCharacteristic("CPFnum", CPFnum)
 
-- 
2.43.0


From c0f845835a442fdf1dd73010363862c0be871835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:25 +0000
Subject: [PATCH 11/22] fix: QCC quantization step sizes were read from one
 byte too early

The sqcc byte itself was reported as (part of) the first step size.
---
 jpylyzer/boxvalidator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 914e307..d5e5709 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2562,6 +2562,8 @@ class BoxValidator:
         guardBits = (sqcc >> 5) & 7
         self.addCharacteristic("guardBits", guardBits)
 
+        offset += 1
+
         # Get number of decomposition levels from re-arrranged form of Eq A-5
         # (TODO: cross-check with info from COD, COC, see:
         # https://github.com/openpreserve/jpylyzer/issues/132)
-- 
2.43.0


From 393e648a75f37fdc95655469a1e94f09dae07b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:16 +0000
Subject: [PATCH 12/22] fix: palette values were read from wrong positions if
 palette has more than one column

ISO/IEC 15444-1 Section I.5.3.4: the values of all columns are grouped together
for each entry.
---
 jpylyzer/boxvalidator.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index d5e5709..b34e55a 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -970,6 +970,16 @@ class BoxValidator:
         # nPC within range 1-255
         self.testFor("nPCIsValid", 1 <= nPC <= 255)
 
+        # Number of bytes used by one complete entry (i.e. one value for each column);
+        # each value is padded to a whole number of bytes
+        entryBytes = 0
+        for i in range(nPC):
+            b = bc.bytesToUnsignedChar(self.boxContents[3 + i:4 + i])
+            entryBytes += math.ceil(((b & 127) + 1) / 8)
+
+        # Start offset of first cP entry
+        columnStart = nPC + 3
+
         # Following parameters are repeated for each column
         for i in range(nPC):
 
@@ -998,7 +1008,7 @@ class BoxValidator:
             bytesPadded = int(bDepthPadded / 8)
 
             # Start offset of cP entries for this column
-            offset = nPC + 3 + i * (nE * bytesPadded)
+            offset = columnStart
 
             for _ in range(nE):
                 # Get bytes for this entry
@@ -1009,7 +1019,10 @@ class BoxValidator:
                 cP = bc.bytesToInteger(cPAsBytes)
                 self.addCharacteristic("cP", cP)
 
-                offset += bytesPadded
+                # Values of all columns are grouped together for each entry
+                offset += entryBytes
+
+            columnStart += bytesPadded
 
     def validate_componentMappingBox(self):
         """Component mapping box (ISO/IEC 15444-1 Section I.5.3.5).
-- 
2.43.0


From b9c3324201b4615cdeb621453fc77e13d30f05c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:16 +0000
Subject: [PATCH 13/22] fix: unknown error on very large profile numbers
 (PRF/CPF marker segments)

Python refuses to convert integers of more than 4300 digits to a string.
---
 jpylyzer/etpatch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/etpatch.py b/jpylyzer/etpatch.py
index 741d15e..ac2f86e 100644
--- a/jpylyzer/etpatch.py
+++ b/jpylyzer/etpatch.py
@@ -19,6 +19,7 @@ TODO:
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #
 
+import decimal
 import xml.etree.ElementTree as ET
 from . import byteconv as bc
 from . import config
@@ -123,7 +124,12 @@ class Element(ET.Element):
                 if textType == bytes:
                     textOut = bc.bytesToText(remappedValue)
                 elif textType in numericTypes:
-                    textOut = str(remappedValue)
+                    try:
+                        textOut = str(remappedValue)
+                    except ValueError:
+                        # Python imposes a limit on the number of digits in integer
+                        # to string conversions; this doesn't apply to Decimal
+                        textOut = str(decimal.Decimal(remappedValue))
                 else:
                     textOut = bc.removeControlCharacters(remappedValue)
 
-- 
2.43.0


From 3ef43958a0646b5dc0c8682d8eec3dff7b8cbd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:16 +0000
Subject: [PATCH 14/22] fix: crash on file modification dates that cannot be
 represented

datetime.fromtimestamp was called with a string as its argument.
---
 jpylyzer/jpylyzer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index b95af40..626b326 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,7 +33,6 @@ Contributors:
 
 import sys
 import os
-import time
 import datetime
 import glob
 import argparse
@@ -365,10 +364,10 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-    except ValueError:
+    except (ValueError, OverflowError):
         # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
         # Workaround: replace by lowest possible value (typically 1 Jan 1970)
-        dt = time.ctime(0)
+        dt = 0
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
     fileInfo.appendChildTagWithText(
         "fileLastModified", lastModifiedDate)
-- 
2.43.0


From ba96716b17ec5966cec03b15fc6371cfae5b6411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:16 +0000
Subject: [PATCH 15/22] fix: file names with control characters resulted in
 ill-formed XML

---
 jpylyzer/jpylyzer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 626b326..a7e6d34 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -372,6 +372,10 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     fileInfo.appendChildTagWithText(
         "fileLastModified", lastModifiedDate)
 
+    # Remove control characters from file name / path, as these would result in
+    # XML that is not well-formed
+    fileInfo.makeHumanReadable()
+
     # Initialise success flag
     success = True
     # Initialise list with file to memorymap warnings
-- 
2.43.0


From 99f3a9b0ca73222365be9f9727fa30865c2aba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:16 +0000
Subject: [PATCH 16/22] fix: files that cannot be opened were reported as
 unknown error

Failure to open a file raises a subclass of IOError.
---
 jpylyzer/jpylyzer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index a7e6d34..3ed0d99 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -427,13 +427,12 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     except Exception as ex:
         fileIsValid = False
         success = False
-        exceptionType = type(ex)
 
-        if exceptionType == MemoryError:
+        if isinstance(ex, MemoryError):
             failureMessage = "memory error (file size too large)"
-        elif exceptionType == IOError:
+        elif isinstance(ex, IOError):
             failureMessage = "I/O error (cannot open file)"
-        elif exceptionType == RuntimeError:
+        elif isinstance(ex, RuntimeError):
             failureMessage = "runtime error, please report to developers by creating " + \
                              "an issue at https://github.com/openpreserve/jpylyzer/issues"
         else:
-- 
2.43.0


From 34e6004a80e517a29ea4e2b1a5148b96606dd0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:16 +0000
Subject: [PATCH 17/22] fix: crash of MIX output on colourspaces other than
 enumerated or ICC, incomplete XMP, codestreams

---
 jpylyzer/jpylyzer.py |  2 +-
 jpylyzer/mix.py      | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 3ed0d99..de6b700 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -445,7 +445,7 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         warnings.appendChildTagWithText("warning", failureMessage)
         shared.printWarning(failureMessage)
 
-    if mixFlag != 0 and fileIsValid:
+    if mixFlag != 0 and validationFormat in ['jp2', 'jph'] and fileIsValid:
         mixProperties = mix.Mix(mixFlag).generateMix(characteristics)
 
     # Add status info
diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 25bde6d..fe51629 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -104,11 +104,14 @@ class Mix:
             mixPI.append(mixColorProfile)
             mixBic.append(mixPI)
         else:
-            mixPI = ET.Element('mix:PhotometricInterpretation')
+            # Neither is available for e.g. parameterized colourspaces (JPH)
             colorSpace = properties.find(
-                'jp2HeaderBox/colourSpecificationBox/enumCS').text
-            mixPI.appendChildTagWithText('mix:colorSpace', colorSpace.strip())
-            mixBic.append(mixPI)
+                'jp2HeaderBox/colourSpecificationBox/enumCS')
+            if colorSpace is not None:
+                mixPI = ET.Element('mix:PhotometricInterpretation')
+                mixPI.appendChildTagWithText(
+                    'mix:colorSpace', colorSpace.text.strip())
+                mixBic.append(mixPI)
         mixBio.append(mixBic)
 
         mixSFC = ET.Element('mix:SpecialFormatCharacteristics')
@@ -159,7 +162,11 @@ class Mix:
         if value is not None:
             return value.text
 
-        value = prop.find(prefixPath).attrib.get(ns + tag, None)
+        prefixElement = prop.find(prefixPath)
+        if prefixElement is None:
+            return None
+
+        value = prefixElement.attrib.get(ns + tag, None)
         if value and value is not None:
             return value
         return None
-- 
2.43.0


From bd2a13ec9c518ecb26201cb198e0f3351733e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:16 +0000
Subject: [PATCH 18/22] fix: MIX sampling frequencies were off by one for some
 resolutions

int() truncates, e.g. 0.29 pixels per metre resulted in 28 instead of 29.
---
 jpylyzer/mix.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index fe51629..b7e727a 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -264,26 +264,34 @@ class Mix:
             'jp2HeaderBox/resolutionBox/captureResolutionBox')
         if resolutionBox is not None:
             numX = int(
-                float(
-                    resolutionBox.find('hRescInPixelsPerMeter').text) *
-                100)
+                round(
+                    float(
+                        resolutionBox.find('hRescInPixelsPerMeter').text) *
+                    100,
+                    0))
             numY = int(
-                float(
-                    resolutionBox.find('vRescInPixelsPerMeter').text) *
-                100)
+                round(
+                    float(
+                        resolutionBox.find('vRescInPixelsPerMeter').text) *
+                    100,
+                    0))
         else:
             # Then try the displayResolutionBox
             resolutionBox = properties.find(
                 'jp2HeaderBox/resolutionBox/displayResolutionBox')
             if resolutionBox is not None:
                 numX = int(
-                    float(
-                        resolutionBox.find('hResdInPixelsPerMeter').text) *
-                    100)
+                    round(
+                        float(
+                            resolutionBox.find('hResdInPixelsPerMeter').text) *
+                        100,
+                        0))
                 numY = int(
-                    float(
-                        resolutionBox.find('vResdInPixelsPerMeter').text) *
-                    100)
+                    round(
+                        float(
+                            resolutionBox.find('vResdInPixelsPerMeter').text) *
+                        100,
+                        0))
         if resolutionBox is not None:
             mixSm = ET.Element('mix:SpatialMetrics')
             if self.mixFlag == 1:
-- 
2.43.0


From 7df16260a563ab8266e44ba9bb1137534a7cfea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:01 +0000
Subject: [PATCH 19/22] fix: ICC profile flags and device attributes were read
 from the wrong bits

ICC.1 Sections 7.2.11 and 7.2.14: bit position 0 is the least significant bit of
these (big-endian) fields.
---
 jpylyzer/boxvalidator.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index b34e55a..02034c9 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -822,17 +822,17 @@ class BoxValidator:
         primaryPlatform = self.boxContents[40:44]
         self.addCharacteristic("primaryPlatform", primaryPlatform)
 
-        # Profile flags (bytes 44-47; only first byte read here as remaining bytes
-        # don't contain any meaningful information)
-        profileFlags = bc.bytesToUnsignedChar(self.boxContents[44:45])
+        # Profile flags (bytes 44-47; only last byte read here, as it contains the
+        # least significant bits to which meaning of flags is assigned)
+        profileFlags = bc.bytesToUnsignedChar(self.boxContents[47:48])
 
         # Embedded profile (0 if not embedded, 1 if embedded in file)
-        embeddedProfile = self._getBitValue(profileFlags, 1)
+        embeddedProfile = self._getBitValue(profileFlags, 8)
         self.addCharacteristic("embeddedProfile", embeddedProfile)
 
         # Profile cannot be used independently from embedded colour data
         # (1 if true, 0 if false)
-        profileCannotBeUsedIndependently = self._getBitValue(profileFlags, 2)
+        profileCannotBeUsedIndependently = self._getBitValue(profileFlags, 7)
         self.addCharacteristic(
             "profileCannotBeUsedIndependently",
             profileCannotBeUsedIndependently)
@@ -845,24 +845,24 @@ class BoxValidator:
         deviceModel = self.boxContents[52:56]
         self.addCharacteristic("deviceModel", deviceModel)
 
-        # Device attributes (bytes 56-63; only first byte read here as remaining bytes
-        # don't contain any meaningful information)
-        deviceAttributes = bc.bytesToUnsignedChar(self.boxContents[56:57])
+        # Device attributes (bytes 56-63; only last byte read here, as it contains the
+        # least significant bits to which meaning of attributes is assigned)
+        deviceAttributes = bc.bytesToUnsignedChar(self.boxContents[63:64])
 
         # Transparency (1 = transparent; 0 = reflective)
-        transparency = self._getBitValue(deviceAttributes, 1)
+        transparency = self._getBitValue(deviceAttributes, 8)
         self.addCharacteristic("transparency", transparency)
 
         # Glossiness (1 = matte; 0 = glossy)
-        glossiness = self._getBitValue(deviceAttributes, 2)
+        glossiness = self._getBitValue(deviceAttributes, 7)
         self.addCharacteristic("glossiness", glossiness)
 
         # Media polarity (1 = negative; 0 = positive)
-        polarity = self._getBitValue(deviceAttributes, 3)
+        polarity = self._getBitValue(deviceAttributes, 6)
         self.addCharacteristic("polarity", polarity)
 
         # Media colour (1 = black & white; 0 = colour)
-        colour = self._getBitValue(deviceAttributes, 4)
+        colour = self._getBitValue(deviceAttributes, 5)
         self.addCharacteristic("colour", colour)
 
         # Rendering intent (bytes 64-67, only least-significant 2 bytes used)
-- 
2.43.0


From 709eca4ea6f855fbd47f50ead513961a40ca18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:52 +0000
Subject: [PATCH 20/22] fix: avoid quadratic powers for profile numbers of long
 PRF/CPF segments

A 64 kB PRF or CPF segment took about 30 seconds because a power of two of up
to 524272 bits was computed for each entry.
---
 jpylyzer/boxvalidator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 02034c9..f7a2089 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2907,7 +2907,7 @@ class BoxValidator:
 
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
-            PRFnum += pprf * 2 ** (16 * i)
+            PRFnum += pprf << (16 * i)
             if i == nopprfs - 1:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
@@ -2936,7 +2936,7 @@ class BoxValidator:
 
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
-            CPFnum += pcpf * 2 ** (16 * i)
+            CPFnum += pcpf << (16 * i)
             if i == nopcpfs - 1:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
-- 
2.43.0


From b66997c65a134ac01b34673fff36b3602e47f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:18 +0000
Subject: [PATCH 21/22] fix: crash on file modification dates that are out of
 range of localtime

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index de6b700..28f3383 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -364,7 +364,7 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-    except (ValueError, OverflowError):
+    except (ValueError, OverflowError, OSError):
         # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
         # Workaround: replace by lowest possible value (typically 1 Jan 1970)
         dt = 0
-- 
2.43.0


From a4eb3556a76d3c4e544cb7bdc570258d8a85934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:33 +0000
Subject: [PATCH 22/22] fix: recursion aborted on broken symbolic links, hung
 on named pipes

---
 jpylyzer/jpylyzer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 28f3383..7cf1b33 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -550,7 +550,9 @@ def getFilesFromTree(rootDir):
 
         for filename in filenames:
             thisFile = os.path.join(dirname, filename)
-            EXISTING_FILES.append(thisFile)
+            # Skip broken symbolic links and special files
+            if os.path.isfile(thisFile):
+                EXISTING_FILES.append(thisFile)
 
 
 def findFiles(recurse, paths):
-- 
2.43.0

