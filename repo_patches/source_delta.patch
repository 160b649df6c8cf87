From 7f86c9d4f5f08c4c6a915422abb2e8ebc1d48f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:05 +0000
Subject: [PATCH 001/115] fix: give every exported MEI layer a legal and unique
 xml:id

A voice's id is often just its number, so every layer of the same number had
the same (and syntactically illegal) xml:id.
---
 converter21/shared/m21utilities.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 93b00ec..7f25351 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -3987,8 +3987,13 @@ class M21Utilities:
             return
         if not prefix:
             prefix = M21Utilities.getXmlIdPrefixFor(obj)
+        identifier: int | str = obj.id
+        if isinstance(obj, m21.stream.Voice):
+            # voice.id is often just a voice number ('1', '2', etc), which is neither
+            # a legal xml:id, nor unique in the score.
+            identifier = id(obj)
         obj.xml_id = M21Utilities.makeXmlIdFrom(  # type: ignore
-            obj.id, prefix
+            identifier, prefix
         )
 
     @staticmethod
-- 
2.43.0


From 0872445db70f1b2cc00e5a79bbce379c50620fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:01 +0000
Subject: [PATCH 002/115] fix: write the ids in exported MEI plist attributes
 as references (with #)

---
 converter21/mei/m21objectconvert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index f38bf8d..a3b09e7 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -1179,7 +1179,7 @@ class M21ObjectConvert:
             for el in spanner.getSpannedElements():
                 if plistStr:
                     plistStr += ' '
-                plistStr += M21Utilities.getXmlId(el, required=True)
+                plistStr += '#' + M21Utilities.getXmlId(el, required=True)
             attr['plist'] = plistStr
         elif isinstance(spanner, M21TupletSpanner):
             tag = 'tupletSpan'
@@ -1190,7 +1190,7 @@ class M21ObjectConvert:
             for el in spanner.getSpannedElements():
                 if plistStr:
                     plistStr += ' '
-                plistStr += M21Utilities.getXmlId(el, required=True)
+                plistStr += '#' + M21Utilities.getXmlId(el, required=True)
             attr['plist'] = plistStr
         elif isinstance(spanner, M21TieSpanner):
             if spanner.startTie.style != 'hidden':
@@ -1280,7 +1280,7 @@ class M21ObjectConvert:
             for el in arpeggio.getSpannedElements():
                 if plistStr:
                     plistStr += ' '
-                plistStr += M21Utilities.getXmlId(el, required=True)
+                plistStr += '#' + M21Utilities.getXmlId(el, required=True)
             attr['plist'] = plistStr
 
         arrow: str
-- 
2.43.0


From e2c1a783a93936df8de4dc3b64763bfccecf92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:21 +0000
Subject: [PATCH 003/115] fix: keep dashed barlines when exporting to Humdrum

---
 converter21/humdrum/m21convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 48c11ee..bb989d6 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -3172,7 +3172,7 @@ class M21Convert:
     measureVisualStyleFromM21BarlineType: dict[str, MeasureVisualStyle] = {
         'regular': MeasureVisualStyle.Regular,
         'dotted': MeasureVisualStyle.Dotted,
-        'dashed': MeasureVisualStyle.Regular,  # no dashed in humdrum
+        'dashed': MeasureVisualStyle.Dashed,
         'heavy': MeasureVisualStyle.Heavy,
         'double': MeasureVisualStyle.Double,   # a.k.a. light-light
         'final': MeasureVisualStyle.Final,     # a.k.a. light-heavy
-- 
2.43.0


From c3f28b781cd89e73e4a1e91fd6bda882fcc5e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:21 +0000
Subject: [PATCH 004/115] fix: keep heavy barlines when importing MEI

---
 converter21/mei/meireader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index de0ed0f..b1906d5 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -664,6 +664,7 @@ class MeiReader:
         'dotted': 'dotted',
         'dbl': 'double',
         'end': 'final',
+        'heavy': 'heavy',
         'invis': 'none',
         'single': 'regular',
     }
-- 
2.43.0


From eabd5dd811bde167e51f142fc314fcfb83ad6d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:44 +0000
Subject: [PATCH 005/115] fix: export scores with tick, short or heavy-heavy
 barlines to MEI instead of raising KeyError

---
 converter21/mei/m21objectconvert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index a3b09e7..4078160 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -2025,6 +2025,9 @@ class M21ObjectConvert:
     _M21_BARLINE_TYPE_OR_DIRECTION_TO_MEI_BARLINE_TYPE: dict[str, str] = {
         'regular': '',  # or 'normal'? (but update meiMeasureBarlineAttrCombine if you do that)
         'heavy-light': '',  # treat heavy-light as normal (MEI has no such thing)
+        'heavy-heavy': '',  # ditto
+        'tick': '',         # ditto
+        'short': '',        # ditto
         'heavy': 'heavy',
         'dotted': 'dotted',
         'dashed': 'dashed',
-- 
2.43.0


From 871677b87ada6433ec804bb69d0db144a1d3aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:41 +0000
Subject: [PATCH 006/115] fix: export repeat endings to Humdrum whichever staff
 carries them

---
 converter21/humdrum/humdrumwriter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/converter21/humdrum/humdrumwriter.py b/converter21/humdrum/humdrumwriter.py
index 65ee4a0..024734c 100755
--- a/converter21/humdrum/humdrumwriter.py
+++ b/converter21/humdrum/humdrumwriter.py
@@ -1331,12 +1331,12 @@ class HumdrumWriter:
                 gm.fermataStylePerStaff.append(xmeasure.fermataStyle)
                 gm.rightBarlineFermataStylePerStaff.append(xmeasure.rightBarlineFermataStyle)
 
-                # repeat brackets
-                gm.inRepeatBracket = xmeasure.inRepeatBracket
-                gm.startsRepeatBracket = xmeasure.startsRepeatBracket
-                gm.stopsRepeatBracket = xmeasure.stopsRepeatBracket
-                gm.repeatBracketName = xmeasure.repeatBracketName
-                if gm.inRepeatBracket:
+                # repeat brackets (the bracket may be present in any one of the staves)
+                if xmeasure.inRepeatBracket and not gm.inRepeatBracket:
+                    gm.inRepeatBracket = xmeasure.inRepeatBracket
+                    gm.startsRepeatBracket = xmeasure.startsRepeatBracket
+                    gm.stopsRepeatBracket = xmeasure.stopsRepeatBracket
+                    gm.repeatBracketName = xmeasure.repeatBracketName
                     outgrid.hasRepeatBrackets = True
 
         curTime: list[HumNum] = [opFrac(-1)] * len(measureDatas)
-- 
2.43.0


From 42991a4dfe00e31860c661f74a7c2d3a8145d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:56 +0000
Subject: [PATCH 007/115] fix: export a start repeat after a dotted, dashed,
 etc barline to Humdrum instead of raising KeyError

---
 converter21/humdrum/m21convert.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index bb989d6..49f059d 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -3149,6 +3149,10 @@ class M21Convert:
             # just take the "more complex" of the two
             outputMType = max(outputMType, prevMeasureEndStyle.mType)
             outputVStyle = max(outputVStyle, prevMeasureEndStyle.vStyle)
+            if not M21Convert._isMeasureStyle(outputVStyle, outputMType):
+                # e.g. dotted barline, then start repeat: there is no such thing as
+                # a dotted repeat, so the repeat wins.
+                outputVStyle = currMeasureBeginStyle.vStyle
 
         return M21Convert.getMeasureStyle(outputVStyle, outputMType)
 
@@ -3163,6 +3167,12 @@ class M21Convert:
 
         M21Convert._measureStyleLookup = theLookup
 
+    @staticmethod
+    def _isMeasureStyle(vStyle: MeasureVisualStyle, mType: MeasureType) -> bool:
+        if not M21Convert._measureStyleLookup:
+            M21Convert._computeMeasureStyleLookup()
+        return (vStyle, mType) in M21Convert._measureStyleLookup
+
     @staticmethod
     def getMeasureStyle(vStyle: MeasureVisualStyle, mType: MeasureType) -> MeasureStyle:
         if not M21Convert._measureStyleLookup:
-- 
2.43.0


From a356ef28840344963902b3c7491e34560ee4ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:44 +0000
Subject: [PATCH 008/115] fix: read a Humdrum tie's style and placement from
 the token that starts it

---
 converter21/humdrum/humdrumfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 5befd24..9beb134 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8389,7 +8389,9 @@ class HumdrumFile(HumdrumFileContent):
         # (since that's how music21 describes them)
 
         m21TieStart: m21.tie.Tie = found.setEndAndInsert(note, tstring)
-        self._addTieStyle(m21TieStart, token, tstring, subTokenIdx)
+        self._addTieStyle(
+            m21TieStart, found.startToken, found.startSubTokenStr, found.startSubTokenIdx
+        )
 
         if found.wasInserted:
             # Only deleting the finished tie if it was successful.  Undeleted
-- 
2.43.0


From 6452ab409f73d2f2452d214563747f8532455d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:01 +0000
Subject: [PATCH 009/115] fix: write the start of a trill extension on Humdrum
 export

---
 converter21/humdrum/m21convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 49f059d..78427bb 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2645,7 +2645,7 @@ class M21Convert:
 
         if trillSeen and trillExtStartSeen:
             # replace a 't' or 'T' (trill sign) with a 'tt' or 'TT' (trill sign + wavy line)
-            re.sub(trillSeen, trillSeen + trillSeen, output, count=1)
+            output = output.replace(trillSeen, trillSeen[0] + trillSeen, 1)
 
         return output, layouts
 
-- 
2.43.0


From ad405e3544958fa4d2e0e5fdca0bf4825c415f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:01 +0000
Subject: [PATCH 010/115] fix: write upright fermatas above and inverted
 fermatas below on Humdrum export

---
 converter21/humdrum/m21convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 78427bb..9490499 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2629,7 +2629,7 @@ class M21Convert:
 
             if isinstance(expr, m21.expressions.Fermata):
                 output += ';'
-                if expr.type == 'upright':
+                if expr.type == 'inverted':
                     output += '<'
                 continue
 
@@ -3338,9 +3338,9 @@ class M21Convert:
             return FermataStyle.NoFermata
 
         output: FermataStyle = FermataStyle.Fermata
-        if m21Fermata.hasStyleInformation and m21Fermata.style == 'upright':
+        if m21Fermata.type == 'inverted':
             output = FermataStyle.FermataBelow
-#         elif m21Fermata.hasStyleInformation and m21Fermata.style == 'inverted':
+#         elif m21Fermata.type == 'upright':
 #             # leave it as a normal Fermata, this is m21's default
 #             output = FermataStyle.FermataAbove
 
-- 
2.43.0


From 4690ab3478964b64bf4806ac1dee0754929cc564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:17 +0000
Subject: [PATCH 011/115] fix: write the placement of trills, mordents and
 turns on Humdrum export

---
 converter21/humdrum/m21convert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 9490499..8cba223 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2601,6 +2601,12 @@ class M21Convert:
                         expr, m21GeneralNote
                     )
                 )
+                # add any placement (an InvertedTrill has been placed below already)
+                if ornStr and ornStr[-1] != '<':
+                    if expr.placement == 'below':
+                        ornStr += '<'
+                    elif expr.placement == 'above':
+                        ornStr += '>'
                 output += ornStr
                 layouts += ornLayouts
                 if isinstance(expr, m21.expressions.Trill):
-- 
2.43.0


From f72c28552ab2141c545e158de985bf288a03054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:17 +0000
Subject: [PATCH 012/115] fix: do not write the placement of an articulation
 that Humdrum cannot express

---
 converter21/humdrum/m21convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 8cba223..f599af2 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2551,6 +2551,9 @@ class M21Convert:
                 # check for caesura (isn't in the lookup because it's an RDF signifier)
                 caesuraChar: str = owner.reportCaesuraToOwner()
                 output += caesuraChar
+            else:
+                # Humdrum has no sign for this articulation, so there is nothing to place
+                continue
 
             # add any placement
             if artic.placement == 'below':
-- 
2.43.0


From f2e3d5dbf6f3c30f9517f0b46492322a8e697ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:05 +0000
Subject: [PATCH 013/115] fix: write the intervals of an inverted turn in the
 order Humdrum import reads them

---
 converter21/humdrum/m21convert.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index f599af2..b0e5ec6 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2820,7 +2820,12 @@ class M21Convert:
             else:
                 lowerCh = 'S'
 
-            output = prefix + upperCh + lowerCh
+            # the intervals are in the order the notes are played: upper first for a
+            # turn, lower first for an inverted turn
+            if isinstance(orn, m21.expressions.InvertedTurn):
+                output = prefix + lowerCh + upperCh
+            else:
+                output = prefix + upperCh + lowerCh
 
             return output, layouts
 
-- 
2.43.0


From 94e2d0d4bc78e5230424da45b128656c1f6f02be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:40 +0000
Subject: [PATCH 014/115] fix: keep the extension of a trill over a single note
 on MEI export

---
 converter21/mei/m21objectconvert.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index 4078160..d42281e 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -1228,6 +1228,10 @@ class M21ObjectConvert:
 
                         # There is an assocated Trill, so go ahead an emit a <trill>.
                         tag = 'trill'
+                        # The extension of a trill that starts and ends on the same note
+                        # still needs an @endid (or it would not be an extension).
+                        if last is first and 'startid' in attr:
+                            attr['endid'] = attr['startid']
                         # passing None for trillToMei's last param (tb) means "just
                         # add the Trill info to attr, I'll emit this <trill> myself".
                         M21ObjectConvert.trillToMei(
@@ -1433,6 +1437,9 @@ class M21ObjectConvert:
                 m21Measure,
                 scoreMeterStream
             )
+            if last is gn and 'startid' in attr:
+                # an extension over this one note
+                attr['endid'] = attr['startid']
 
         if attr is None:
             raise MeiInternalError('trillToMei called without attr or tree builder')
-- 
2.43.0


From 86d1b19545d210b5803cfeec525f281748878871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 015/115] fix: start an MEI spanner at its @tstamp when it ends
 at an @endid in the same measure

---
 converter21/mei/meireader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index b1906d5..d3db368 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -8668,7 +8668,12 @@ class MeiReader:
 
                             if needsStartAnchor:
                                 startObj = spanner.SpannerAnchor()
-                                spannerObj.addSpannedElements(startObj)
+                                # the start goes first, even if the end note (@endid) has
+                                # already been seen (and added) in this measure
+                                spannedElements = spannerObj.getSpannedElements()
+                                for spannedElement in spannedElements:
+                                    spannerObj.spannerStorage.remove(spannedElement)
+                                spannerObj.addSpannedElements(startObj, *spannedElements)
                                 stavesWaitingFromStaffItem[staffNStr].append(
                                     ((offset1, None, None), startObj)
                                 )
-- 
2.43.0


From 4caf13da8b6a760b377bf1eabe9d14ec9f055f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 016/115] fix: keep a delayed MEI turn whose @tstamp lies
 between two notes

---
 converter21/mei/meireader.py | 64 +++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index d3db368..e4801f6 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -6930,8 +6930,7 @@ class MeiReader:
             canBeOnRest: bool = self._canBeOnRest(expression)
             isDelayedTurn: bool = (
                 isinstance(expression, expressions.Turn)
-                and hasattr(expression, 'delayed')
-                and expression.delayed == 'true'
+                and expression.isDelayed
             )
 
             for i, staffN in enumerate(staffNs):
@@ -6975,37 +6974,36 @@ class MeiReader:
                             if not canBeOnRest and not isinstance(eachObject, note.NotRest):
                                 continue
 
-                            if not isDelayedTurn:
-                                if eachObject.offset == offset:
-                                    if i == 0:
-                                        if isinstance(expression, expressions.Ornament):
-                                            # Resolve the ornament's ornamental pitches
-                                            # based on eachObject
-                                            expression.resolveOrnamentalPitches(
-                                                eachObject,
-                                                keySig=self._currKeyForStaff(staffN)
-                                            )
-                                            self.updateAltersFromExpression(
-                                                expression, eachObject, staffN
-                                            )
-                                        eachObject.expressions.append(expression)
-                                    else:
-                                        clonedExpression = deepcopy(expression)
-                                        if isinstance(clonedExpression, expressions.Ornament):
-                                            # Resolve the ornament's ornamental pitches
-                                            # based on eachObject
-                                            clonedExpression.resolveOrnamentalPitches(
-                                                eachObject,
-                                                keySig=self._currKeyForStaff(staffN)
-                                            )
-                                            self.updateAltersFromExpression(
-                                                clonedExpression, eachObject, staffN
-                                            )
-                                        eachObject.expressions.append(clonedExpression)
-
-                                    doneWithStaff = True
-                                    break
-                            else:
+                            if eachObject.offset == offset:
+                                if i == 0:
+                                    if isinstance(expression, expressions.Ornament):
+                                        # Resolve the ornament's ornamental pitches
+                                        # based on eachObject
+                                        expression.resolveOrnamentalPitches(
+                                            eachObject,
+                                            keySig=self._currKeyForStaff(staffN)
+                                        )
+                                        self.updateAltersFromExpression(
+                                            expression, eachObject, staffN
+                                        )
+                                    eachObject.expressions.append(expression)
+                                else:
+                                    clonedExpression = deepcopy(expression)
+                                    if isinstance(clonedExpression, expressions.Ornament):
+                                        # Resolve the ornament's ornamental pitches
+                                        # based on eachObject
+                                        clonedExpression.resolveOrnamentalPitches(
+                                            eachObject,
+                                            keySig=self._currKeyForStaff(staffN)
+                                        )
+                                        self.updateAltersFromExpression(
+                                            clonedExpression, eachObject, staffN
+                                        )
+                                    eachObject.expressions.append(clonedExpression)
+
+                                doneWithStaff = True
+                                break
+                            elif isDelayedTurn:
                                 # If expression is a delayed turn, look to see if eachObject
                                 # is the nearest previous object so far in this staff.
                                 if eachObject.offset < offset:
-- 
2.43.0


From 63b06a2491719635e2c755d8c19d4b493b5e29b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:03 +0000
Subject: [PATCH 017/115] fix: keep the order of spanned elements when a copy
 of the score is exported

---
 converter21/humdrum/humdrumwriter.py | 4 ++++
 converter21/mei/meiwriter.py         | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/converter21/humdrum/humdrumwriter.py b/converter21/humdrum/humdrumwriter.py
index 024734c..b3609b3 100755
--- a/converter21/humdrum/humdrumwriter.py
+++ b/converter21/humdrum/humdrumwriter.py
@@ -384,6 +384,10 @@ class HumdrumWriter:
         # so stash the result somewhere, rather than calling it again and again.
         self.spannerBundle = self._m21Score.spannerBundle
 
+        # music21's copy of a spanner forgets that its elements must never be re-sorted.
+        for spanner in self.spannerBundle:
+            spanner.spannerStorage.autoSort = False
+
         # set up _firstTempoLayout ('!!LO:TX:omd:t=something') for use when emitting
         # the first time signature (might have no text if there is none).
         parts: tuple[m21.stream.Part, ...] = tuple(self._m21Score.parts)
diff --git a/converter21/mei/meiwriter.py b/converter21/mei/meiwriter.py
index 47e3f6e..280ee00 100644
--- a/converter21/mei/meiwriter.py
+++ b/converter21/mei/meiwriter.py
@@ -51,6 +51,9 @@ class MeiWriter:
     def write(self, fp) -> bool:
         if self.makeNotation:
             self._m21Score = M21Utilities.makeScoreFromObject(self._m21Object)
+            # music21's copy of a spanner forgets that its elements must never be re-sorted.
+            for spanner in self._m21Score.spannerBundle:
+                spanner.spannerStorage.autoSort = False
         else:
             if not isinstance(self._m21Object, m21.stream.Score):
                 raise MeiExportError(
-- 
2.43.0


From 8588d682c98cc1512e1fb831b28337cdedd88048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 018/115] fix: do not put an MEI fermata with @tstamp on the
 left barline of its measure

---
 converter21/mei/meireader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index e4801f6..7ac206c 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -6947,7 +6947,8 @@ class MeiReader:
                         continue
 
                     if isinstance(eachMObj, bar.Barline):
-                        if isinstance(expression, expressions.Fermata):
+                        if (isinstance(expression, expressions.Fermata)
+                                and eachMObj is eachMeasure.rightBarline):
                             if i == 0:
                                 if eachMObj.pause is None:
                                     eachMObj.pause = expression
-- 
2.43.0


From c3e8306c603c16a4f1c1cc63c29af8bb283f8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 019/115] fix: extend a Humdrum trill to the last note of the
 piece when a barline follows it

---
 converter21/humdrum/humdrumfile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 9beb134..0ce5bf5 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -6890,6 +6890,10 @@ class HumdrumFile(HumdrumFileContent):
             # reached the end of the music without finding a note after trill extension, so
             # use the lastNoteOrBar in spanner
             endTok = lastNoteOrBar
+        elif nextToLastNote is not token:
+            # reached the final barline without finding a note after trill extension, so
+            # use the note before that barline in spanner
+            endTok = nextToLastNote
         else:
             # it must start and end on the same note
             endTok = None
-- 
2.43.0


From 87ebef302b0971c92801ec39b1a5cd697c8a164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:17 +0000
Subject: [PATCH 020/115] fix: end a Humdrum trill extension before a grace
 note at the right note

---
 converter21/humdrum/humdrumfile.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 0ce5bf5..b318f67 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -6855,9 +6855,11 @@ class HumdrumFile(HumdrumFileContent):
                 ntok: HumdrumToken | None = endTok.nextToken0
                 while ntok:
                     if ntok.isBarline:
+                        if lastNoteOrBar.isData:
+                            nextToLastNote = lastNoteOrBar
                         lastNoteOrBar = ntok
 
-                    if not ntok.isData:
+                    if not ntok.isData or ntok.isNull:
                         ntok = ntok.nextToken0
                         continue
 
@@ -6865,12 +6867,11 @@ class HumdrumFile(HumdrumFileContent):
                         ntok = ntok.nextToken0
                         continue
 
-                    lastNoteOrBar = ntok
-
                     # at this point ntok is a durational note/chord/rest
                     if 'TTT' not in ntok.text and 'ttt' not in ntok.text:
                         endTok = ntok
                         break
+                    lastNoteOrBar = ntok
                     ntok = ntok.nextToken0
 
             if lastNoteOrBar.isData:
-- 
2.43.0


From af16fc064a1bbfb9c09a7236447864ab2c4ca6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:05 +0000
Subject: [PATCH 021/115] fix: keep track and data type when complete Humdrum
 spines are merged

---
 converter21/humdrum/humdrumfilebase.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 48c3392..2180935 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -351,6 +351,12 @@ class HumdrumFileBase(HumHash):
         # print(funcName(), 'self.isValid =', self.isValid, file=sys.stderr)
         return self.isValid
 
+    @staticmethod
+    def _areSiblings(info1: str, info2: str) -> bool:
+        # The two halves of a split, e.g. '(1)a' and '(1)b'.  Note that two complete
+        # spines (e.g. '1' and '2') also differ in the last character only.
+        return info1[-1:] in ('a', 'b') and info2[-1:] in ('a', 'b') and info1[:-1] == info2[:-1]
+
     '''
     //////////////////////////////
     //
@@ -377,8 +383,7 @@ class HumdrumFileBase(HumHash):
 
         if numExtraSpines == 1:
             # two-spine merge
-            # compare all but trailing 'a' or 'b'
-            if info[startSpine][:-1] == info[startSpine + 1][:-1]:
+            if HumdrumFileBase._areSiblings(info[startSpine], info[startSpine + 1]):
                 # print(funcName(), 'merged spineInfo =', info[startSpine][1:-2], file=sys.stderr)
                 # strip off leading '(' and the trailing ')a' or ')b'
                 return info[startSpine][1:-2]
@@ -396,7 +401,7 @@ class HumdrumFileBase(HumHash):
         while len(newInfo) > 1:
             simplifiedSomething = False
             for i in range(1, len(newInfo)):
-                if newInfo[i - 1][:-1] == newInfo[i][:-1]:  # compare all but trailing a or b
+                if HumdrumFileBase._areSiblings(newInfo[i - 1], newInfo[i]):
                     simplifiedSomething = True
                     newInfo[i - 1] = ''             # we'll remove this later
                     newInfo[i] = newInfo[i][1:-2]   # strip off leading ( and trailing )a or )b
@@ -407,7 +412,7 @@ class HumdrumFileBase(HumHash):
                     newInfo2.append(infoStr)
 
             for i in range(1, len(newInfo2)):
-                if newInfo2[i - 1][:-1] == newInfo2[i][:-1]:  # compare all but trailing a or b
+                if HumdrumFileBase._areSiblings(newInfo2[i - 1], newInfo2[i]):
                     simplifiedSomething = True
                     newInfo2[i - 1] = ''             # we'll remove this later
                     newInfo2[i] = newInfo2[i][1:-2]  # strip off leading ( and trailing )a or ')b'
-- 
2.43.0


From 94dc6003e2e1a9a4a608d8913b43af6b0fdb9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:05 +0000
Subject: [PATCH 022/115] fix: reject a single Humdrum spine merge indicator at
 the end of a line

---
 converter21/humdrum/humdrumfilebase.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 2180935..f37ee76 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -1280,6 +1280,13 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
                 newType.append(dataType[i])
                 newInfo.append(spineInfo[i])
 
+        if mergeCount > 0:
+            # the last token on the line is a merge, and the token before it isn't
+            self.setParseError(
+                'Error: single spine merge indicator \'*v\' on line: '
+                + f'{line.lineNumber}\n{line.text}')
+            return (False, [], [])
+
         # print(funcName(), 'ending dataType =', newType, file=sys.stderr)
         # print(funcName(), 'ending spineInfo =', newInfo, file=sys.stderr)
         return (True, newType, newInfo)
-- 
2.43.0


From 70f2322dd05901f8dabe59ee48d37c42492c3746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:05 +0000
Subject: [PATCH 023/115] fix: accept several Humdrum spines added on one line

---
 converter21/humdrum/humdrumfilebase.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index f37ee76..1f36aa7 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -1266,15 +1266,16 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
             elif token.isExclusiveInterpretation:
                 newType.append(token.text)
                 newInfo.append(spineInfo[i])
-                if not (len(self._trackStarts) > 1 and self._trackStarts[-1] is None):
+                # the new spine's info is (only) its track number
+                newTrack: int = int(spineInfo[i]) if spineInfo[i].isdigit() else 0
+                if newTrack == 0 or self._trackStarts[newTrack] is not None:
                     self.setParseError(
                         'Error: Exclusive interpretation with no preparation '
                         + f'on line {line.lineNumber} spine index {i}\n'
                         + f'Line: {line.text}'
                     )
                     return (False, [], [])
-                if self._trackStarts[-1] is None:
-                    self.addToTrackStarts(token)
+                self._trackStarts[newTrack] = token
             else:
                 # should only be null interpretation
                 newType.append(dataType[i])
-- 
2.43.0


From cc351a93d47896634387945c5f38bfdfbce28434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:08 +0000
Subject: [PATCH 024/115] fix: file the terminators of Humdrum spines under
 their own track

---
 converter21/humdrum/humdrumfilebase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 1f36aa7..6d389f1 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -11,6 +11,7 @@
 # Copyright:     (c) 2021-2023 Greg Chapman
 # License:       MIT, see LICENSE
 # ------------------------------------------------------------------------------
+import re
 import sys
 import typing as t
 from pathlib import Path
@@ -1262,7 +1263,9 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
                 # store pointer to terminate token in trackends
                 # print(funcName(), 'trackStarts = {}, trackEnds = {}'.format(
                 #       self._trackStarts, self._trackEnds), file=sys.stderr)
-                self._trackEnds[len(self._trackStarts) - 1].append(token)
+                m = re.match(r'\(*(\d+)', spineInfo[i])
+                if m is not None:
+                    self._trackEnds[int(m.group(1))].append(token)
             elif token.isExclusiveInterpretation:
                 newType.append(token.text)
                 newInfo.append(spineInfo[i])
-- 
2.43.0


From ada06cb55befd00a70a00f0691d529c30ffe1e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:46 +0000
Subject: [PATCH 025/115] fix: Humdrum next-non-null-token analysis mixed up
 spines and missed the token after a split

---
 converter21/humdrum/humdrumfilebase.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 6d389f1..8e1fe45 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -2089,6 +2089,9 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
             if stop is None:
                 continue
 
+            # don't carry anything over from the previous spine
+            nexts = None
+
             # start at the track stop token and work backwards
             token: HumdrumToken | None = stop
             if t.TYPE_CHECKING:
@@ -2137,15 +2140,16 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
                 # we know prevToken is not None because 0 is in range (tcount > 0)
                 assert isinstance(prevToken, HumdrumToken)
 
+            if token.isData:
+                self.addUniqueTokens(token.nextNonNullDataTokens, ptokens)
+                if not token.isNull:
+                    ptokens = [token]  # nukes the existing ptokens list
+
             if prevToken.isSplitInterpretation:
                 self.addUniqueTokens(prevToken.nextNonNullDataTokens, ptokens)
                 if token != prevToken.nextToken0:
                     # terminate if not most primary subspine
                     return True
-            elif token.isData:
-                self.addUniqueTokens(token.nextNonNullDataTokens, ptokens)
-                if not token.isNull:
-                    ptokens = [token]  # nukes the existing ptokens list
 
             # Follow previous data token 0 since 1 and higher are handled above.
             token = prevToken
-- 
2.43.0


From 048e945fd1a04218cfc45421b5919065b2f73a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:46 +0000
Subject: [PATCH 026/115] fix: tokens of non-rhythmic spines have no duration
 when the file starts with a **recip spine

---
 converter21/humdrum/humdrumfilestructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converter21/humdrum/humdrumfilestructure.py b/converter21/humdrum/humdrumfilestructure.py
index dfbd89c..00ce86e 100644
--- a/converter21/humdrum/humdrumfilestructure.py
+++ b/converter21/humdrum/humdrumfilestructure.py
@@ -121,9 +121,9 @@ class HumdrumFileStructure(HumdrumFileBase):
             success = self.analyzeRhythm()
             if not success:
                 return self.isValid
-            success = self.analyzeDurationsOfNonRhythmicSpines()
-            if not success:
-                return self.isValid
+        success = self.analyzeDurationsOfNonRhythmicSpines()
+        if not success:
+            return self.isValid
         return self.isValid
 
     '''
-- 
2.43.0


From c8ce95d5511216f6b64e64ce8dbc52de3399de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:45 +0000
Subject: [PATCH 027/115] fix: Humdrum files whose time runs backwards from one
 line to the next are rejected

---
 converter21/humdrum/humdrumfilestructure.py | 23 +++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/converter21/humdrum/humdrumfilestructure.py b/converter21/humdrum/humdrumfilestructure.py
index 00ce86e..6a364b3 100644
--- a/converter21/humdrum/humdrumfilestructure.py
+++ b/converter21/humdrum/humdrumfilestructure.py
@@ -280,6 +280,9 @@ class HumdrumFileStructure(HumdrumFileBase):
         if not success:
             return False
         self.fillInMissingStartTimes()
+        success = self.checkLineOrder()
+        if not success:
+            return False
         self.assignLineDurations()
         success = self.analyzeMeter()
         if not success:
@@ -663,6 +666,26 @@ class HumdrumFileStructure(HumdrumFileBase):
             else:
                 line.durationFromStart = lastDur
 
+    '''
+        checkLineOrder: A line can never start before the line above it.  If one does, the
+        spines disagree about the rhythm, even though no two of them disagree on one line.
+    '''
+    def checkLineOrder(self) -> bool:
+        if self.acceptSyntaxErrors:
+            return self.isValid
+
+        lastDur: HumNum = opFrac(0)
+        for line in self._lines:
+            if line.durationFromStart < lastDur:
+                return self.setParseError(
+                    f'''Error: Inconsistent rhythm analysis occurring near line {line.lineNumber}
+    durationFromStart {line.durationFromStart} is before the previous line's ({lastDur})
+    Line: {line.text}'''
+                )
+            lastDur = line.durationFromStart
+
+        return self.isValid
+
     '''
     //////////////////////////////
     //
-- 
2.43.0


From ad461859a8b5865970b1bc8c53beee0a06f3b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:37 +0000
Subject: [PATCH 028/115] fix: Humdrum parsing raises on empty text, on an
 undeclared added spine, and on surplus fields after the last terminator

---
 converter21/humdrum/humdrumfilebase.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 8e1fe45..c8f1bde 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -334,7 +334,7 @@ class HumdrumFileBase(HumHash):
     //    an istream or filename.
     '''
     def readString(self, contents: str) -> bool:
-        if contents[-1] == '\n':
+        if contents.endswith('\n'):
             contents = contents[0:-1]  # lose that last empty line (many editors add it)
 
         contentLines = contents.split('\n')
@@ -1059,6 +1059,18 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
                     return self.setParseError(err)
 
                 # fix it instead
+                if not dataType:
+                    # all the spines have been terminated (just ignore the line from now on)
+                    self._lines[i] = HumdrumLine(
+                        '!! ignore spiny line after last terminator: ' + line.text
+                    )
+                    self.numSyntaxErrorsFixed += 1
+                    self._lines[i].ownerFile = self
+                    self._lines[i].lineIndex = i
+                    self._lines[i].createTokensFromLine()
+                    i += 1
+                    continue
+
                 if line.tokenCount > len(dataType):
                     # Insert spine split manipulator(s) before
                     # this line to match this line's reality.  If that fails,
@@ -1096,7 +1108,7 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
 
                     # not successful, fall back to just deleting the last token(s)
                     tokenRemoved: bool = False
-                    for i in range(len(dataType), line.tokenCount):
+                    for _ in range(len(dataType), line.tokenCount):
                         # pylint: disable=protected-access
                         line._tokens = line._tokens[:-1]
                         # pylint: enable=protected-access
@@ -1136,6 +1148,10 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
             err = 'Error: no exclusive interpretation line seen (e.g. "**kern")'
             return self.setParseError(err)
 
+        if any(trackStart is None for trackStart in self._trackStarts[1:]):
+            err = 'Error: no exclusive interpretation seen for an added spine (*+)'
+            return self.setParseError(err)
+
         return self.isValid
 
     '''
-- 
2.43.0


From c4f4277d6e2705ceb14b23b73498f844767b4c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:30 +0000
Subject: [PATCH 029/115] fix: recipToDuration must not return a duration
 cached for a different scale

---
 converter21/humdrum/convert.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/converter21/humdrum/convert.py b/converter21/humdrum/convert.py
index 483a2a3..a752457 100644
--- a/converter21/humdrum/convert.py
+++ b/converter21/humdrum/convert.py
@@ -46,18 +46,20 @@ class Convert:
     // default value: scale = 4 (duration in terms of quarter notes)
     // default value: separator = " " (sub-token separator)
     '''
-    # key is recip, value is duration
-    _knownRecipDurationCache: dict[str, HumNum] = {}
+    # key is (recip, scale), value is duration
+    _knownRecipDurationCache: dict[tuple[str, HumNum], HumNum] = {}
 
     @staticmethod
     def recipToDuration(recip: str, scale: HumNumIn = opFrac(4)) -> HumNum:
-        if recip in Convert._knownRecipDurationCache:
-            return Convert._knownRecipDurationCache[recip]
+        scale = opFrac(scale)
+        cacheKey: tuple[str, HumNum] = (recip, scale)
+        if cacheKey in Convert._knownRecipDurationCache:
+            return Convert._knownRecipDurationCache[cacheKey]
 
         output: HumNum = opFrac(0)
         if 'q' in recip:
             # grace note, ignore printed rhythm
-            Convert._knownRecipDurationCache[recip] = output
+            Convert._knownRecipDurationCache[cacheKey] = output
             return output  # 0
 
         subToken = recip.split(' ')[0]  # we're only interested in the first subtoken
@@ -72,7 +74,7 @@ class Convert:
             if m is None:
                 # no rhythm found
                 # don't fill cache with bad strings
-                # Convert._knownRecipDurationCache[recip] = output
+                # Convert._knownRecipDurationCache[cacheKey] = output
                 return output
 
             if m.group(1).startswith('0'):
@@ -83,7 +85,6 @@ class Convert:
                 # plain rhythm (denominator is in subToken, numerator is 1)
                 output = opFrac(Fraction(1, int(m.group(1))))
 
-        scale = opFrac(scale)
         dotFactor: HumNum = opFrac(1)
         if dotCount > 0:
             # if dotCount=1: dotFactor should be  3/2 (1.5, or one and a half)
@@ -98,7 +99,7 @@ class Convert:
             dotFactor = opFrac(dotFactor)
 
         output = opFrac(output * dotFactor * scale)
-        Convert._knownRecipDurationCache[recip] = output
+        Convert._knownRecipDurationCache[cacheKey] = output
         return output
 
     '''
-- 
2.43.0


From cf7357c0558fc1b4f8fe4b6087c91626ed61a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:30 +0000
Subject: [PATCH 030/115] fix: timeSigToDuration with a breve denominator (e.g.
 *M3/0)

---
 converter21/humdrum/convert.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/convert.py b/converter21/humdrum/convert.py
index a752457..f0e7ecc 100644
--- a/converter21/humdrum/convert.py
+++ b/converter21/humdrum/convert.py
@@ -137,8 +137,10 @@ class Convert:
 
         scale = opFrac(scale)
 
-        top: int = int(m.group(1))
-        bot: int = int(m.group(2))
+        # tok.timeSignature understands breve/longa/maxima denominators ('0', '00', '000')
+        top, bot = tok.timeSignature
+        if top is None or not bot:
+            return opFrac(0)
         output = opFrac(Fraction(top, bot)) * scale
         return opFrac(output)
 
-- 
2.43.0


From cf6f2918f2b3e946fba3d0f6d98d815d2d39be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:30 +0000
Subject: [PATCH 031/115] fix: visual duration with two or three dots in an
 unlinked tuplet duration

---
 converter21/humdrum/m21convert.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index b0e5ec6..a1ed14f 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -1525,9 +1525,7 @@ class M21Convert:
             # type and dots.
             dur = m21Duration.quarterLength
             vdur = m21.duration.convertTypeToQuarterLength(m21Duration.type)
-            if m21Duration.dots > 0:
-                vdur *= (1.5 * float(m21Duration.dots))
-            vdur = opFrac(vdur)
+            vdur = opFrac(vdur * (2.0 - 0.5 ** m21Duration.dots))
             inTuplet = True
         elif m21Duration.linked is False:
             # There's a real (gestural) duration and a visual duration
-- 
2.43.0


From 45a6bb0c9bbbac30c7c8c7d61256c300c6d6bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:30 +0000
Subject: [PATCH 032/115] fix: recip of a dotted note in a power-of-two tuplet
 must have the duration of the note

---
 converter21/humdrum/m21convert.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index a1ed14f..6952afe 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -1625,9 +1625,14 @@ class M21Convert:
             if M21Utilities.isPowerOfTwo(durNoDots):
                 # we have a problem, try to fix by making a recip with one more dot
                 numDots: int = out.count('.')
-                desiredDurNoDots: HumNum = durNoDots / 1.5
-                newRecip: str = Convert.durationToRecip(desiredDurNoDots)
                 newNumDots: int = numDots + 1
+                dotFactor: Fraction = Fraction(2) - Fraction(1, 2 ** newNumDots)
+                desiredDurNoDots: HumNum = opFrac(Fraction(Convert.recipToDuration(out)) / dotFactor)
+                newRecip: str = Convert.durationToRecip(desiredDurNoDots)
+                if '.' in newRecip:
+                    # we need to choose the number of dots
+                    desiredFraction: Fraction = Fraction(desiredDurNoDots) / 4
+                    newRecip = f'{desiredFraction.denominator}%{desiredFraction.numerator}'
                 newRecip += '.' * newNumDots
                 out = newRecip
 
-- 
2.43.0


From 3bf0ac84f2b31a0351daa41770c4491627f8c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:30 +0000
Subject: [PATCH 033/115] fix:
 getPowerOfTwoDurationsWithDotsAddingToAndCrossing lost the duration before
 the crossed one

---
 converter21/shared/m21utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 7f25351..8e5f12b 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1416,7 +1416,7 @@ class M21Utilities:
             if foundIdx == 0:
                 output1 = beforeCrossing
             else:
-                output1 = totalDurs[:foundIdx - 1] + beforeCrossing
+                output1 = totalDurs[:foundIdx] + beforeCrossing
             if foundIdx == len(totalDurs) - 1:
                 output2 = afterCrossing
             else:
-- 
2.43.0


From ae6c37697693241927f4e620b069990b1c3de762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:57 +0000
Subject: [PATCH 034/115] fix: tuplet-y crossing of a double-dotted or
 triple-dotted duration raised an internal error

---
 converter21/shared/m21utilities.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 8e5f12b..8bb599b 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1323,8 +1323,11 @@ class M21Utilities:
 
         # we need a tuplet for some reason
 
-        # Easiest case: totalDuration is powerOfTwoWithDots (only crossing is tuplet-y)
-        if M21Utilities.isPowerOfTwoWithDots(totalDuration):
+        # Easiest case: totalDuration is powerOfTwo with at most one dot (only crossing is tuplet-y)
+        totalNoDots: OffsetQL
+        totalNumDots: int | None
+        totalNoDots, totalNumDots = M21Utilities.computeDurationNoDotsAndNumDots(totalDuration)
+        if totalNumDots is not None and totalNumDots < 2:
             crossingFrac: Fraction = Fraction(crossing)
             qLen: OffsetQL = opFrac(Fraction(1, crossingFrac.denominator))
             tuplets: list[m21.duration.Tuplet] = m21.duration.quarterLengthToTuplet(
@@ -1376,6 +1379,12 @@ class M21Utilities:
         totalDurs: list[m21.duration.Duration] = (
             M21Utilities.getPowerOfTwoDurationsWithDotsAddingTo(totalDuration)
         )
+        if totalNumDots is not None:
+            # two or more dots: no tuplet covers that, so use the undotted pieces
+            totalDurs = [
+                m21.duration.Duration(opFrac(totalNoDots / 2 ** i))
+                for i in range(totalNumDots + 1)
+            ]
         if totalDurs:
             # Figure out which element of totalDurs contains the crossing point,
             # recurse on that element (as totalDuration), and then construct
-- 
2.43.0


From dca40ee930f872d2ac4f4fcf362cd54ce6449423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:57 +0000
Subject: [PATCH 035/115] fix: non-standard key signatures and those with more
 than seven sharps/flats

---
 converter21/humdrum/m21convert.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 6952afe..6d18ae5 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -694,26 +694,24 @@ class M21Convert:
             keySig = keySig.replace('gn', '')
 
         # standard key signature in standard order (if numSharps is negative, it's -numFlats)
-        if keySig in M21Convert.humdrumStandardKeyStringsToNumSharps:
-            m21KeySig = m21.key.KeySignature(
-                M21Convert.humdrumStandardKeyStringsToNumSharps[keySig]
-            )
+        for numSharps, keyStr in M21Convert.numSharpsToHumdrumStandardKeyStrings.items():
+            if keySig == keyStr:
+                m21KeySig = m21.key.KeySignature(numSharps)
+                break
 
         if m21KeySig is None:
             # try non-standard key sig
             badKeySig: bool = False
             alteredPitches: list[str] = [
-                keySig[i:i + 2].upper() for i in range(0, len(keySig), 2)
+                p.upper() for p in re.findall(r'[a-gA-G](?:#+|-+)', keySig)
             ]
-            for pitch in alteredPitches:
-                if pitch[0] not in 'abcdefg':
-                    # invalid accidentals in '*k[accidentals]'.
-                    # e.g. *k[X] as seen in rds-scores: R700_Cop-w2p64h38m3-10.krn
-                    badKeySig = True
-                    break
+            if ''.join(alteredPitches) != keySig.upper():
+                # invalid accidentals in '*k[accidentals]'.
+                # e.g. *k[X] as seen in rds-scores: R700_Cop-w2p64h38m3-10.krn
+                badKeySig = True
 
             if not badKeySig:
-                m21KeySig = m21.key.KeySignature()
+                m21KeySig = m21.key.KeySignature(sharps=None)
                 m21KeySig.alteredPitches = alteredPitches
                 return m21KeySig  # there's no m21Key that will match a non-standard key sig
 
@@ -2517,7 +2515,12 @@ class M21Convert:
         keySig: m21.key.KeySignature | m21.key.Key
     ) -> HumdrumToken:
         keySigStr: str = '*k['
-        keySigStr += M21Convert.numSharpsToHumdrumStandardKeyStrings[keySig.sharps]
+        if keySig.sharps is not None:
+            keySigStr += M21Convert.numSharpsToHumdrumStandardKeyStrings[keySig.sharps]
+        else:
+            # non-traditional key signature
+            for pitch in keySig.alteredPitches:
+                keySigStr += pitch.name.lower()
         keySigStr += ']'
 
         return HumdrumToken(keySigStr)
-- 
2.43.0


From fcd0076e5aabdd6e81d96375ece10811472ac03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:27 +0000
Subject: [PATCH 036/115] fix: zero hours, minutes and seconds were left out of
 Humdrum date strings

---
 converter21/shared/m21utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 8bb599b..2fa3109 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2291,7 +2291,7 @@ class M21Utilities:
         'year', 'month', 'day', 'hour', 'minute', 'second'
     ]
     _dateAttrStrFormat: list[str] = [
-        '%i', '%02.i', '%02.i', '%02.i', '%02.i', '%02.i'
+        '%i', '%02i', '%02i', '%02i', '%02i', '%02i'
     ]
 
     _highestSecondString: str = '59'
@@ -2402,7 +2402,7 @@ class M21Utilities:
             attr = M21Utilities._dateAttrNames[i]
             value = getattr(date, attr)
             error = getattr(date, attr + 'Error')
-            if not value:
+            if value is None:
                 msg.append('')
             else:
                 fmt = M21Utilities._dateAttrStrFormat[i]
-- 
2.43.0


From 2152f6095b51a2927862000edee99ef44b6c8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:27 +0000
Subject: [PATCH 037/115] fix: impossible date strings (e.g. 1999/14/32) raised
 ValueError instead of being left as text

---
 converter21/shared/m21utilities.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 2fa3109..010f557 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2334,6 +2334,10 @@ class M21Utilities:
             # There were no parseable values in the string, so no meaningful date to return
             return None
 
+        if len(values) > len(M21Utilities._dateAttrNames):
+            # too many fields, so it isn't a date
+            return None
+
         date: m21.metadata.Date = m21.metadata.Date()
         for attr, attrValue, attrError in zip(M21Utilities._dateAttrNames, values, valueErrors):
             if attrValue is not None:
@@ -2341,6 +2345,12 @@ class M21Utilities:
                 if attrError is not None:
                     setattr(date, attr + 'Error', attrError)
 
+        try:
+            # music21 won't put an impossible date (e.g. month 13) in a DatePrimitive
+            m21.metadata.DateSingle(date)
+        except ValueError:
+            return None
+
         return date
 
     @staticmethod
-- 
2.43.0


From 9f46a3e0060f278b9bff5c339af3dcb2f54c6620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:27 +0000
Subject: [PATCH 038/115] fix: before/after mark in front of a date range or
 selection must not be dropped

---
 converter21/shared/m21utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 010f557..1ee28e2 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2205,6 +2205,9 @@ class M21Utilities:
         dateStrings: list[str] = [string]  # if we don't split it, this is what we will parse
         for divider in M21Utilities._dateDividerSymbols:
             if divider in string:
+                if relativeType:
+                    # there's no such thing as before/after a range or selection of dates
+                    return None
                 if divider == '|':
                     typeNeeded = m21.metadata.DateSelection
                     # split on all '|'s
-- 
2.43.0


From 642384918643dd5e6ad9101e73857f6eba792886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:27 +0000
Subject: [PATCH 039/115] fix: ISO dates with a time of day had the hour in the
 date part

---
 converter21/shared/m21utilities.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 1ee28e2..ce5cc8f 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1946,9 +1946,10 @@ class M21Utilities:
 
         if time:
             timePieces: list[str] = time.split(':')
-            if len(timePieces) >= 3:
-                hour = timePieces[0]
+            hour = timePieces[0]
+            if len(timePieces) > 1:
                 minute = timePieces[1]
+            if len(timePieces) > 2:
                 second = timePieces[2]
 
         try:
@@ -2146,9 +2147,9 @@ class M21Utilities:
             sub = sub + suffix
             msg.append(sub)
 
-        out = '-'.join(msg[:4])
+        out = '-'.join(msg[:3])
         if len(msg) >= 4:
-            out += 'T' + ':'.join(msg[4:])
+            out += 'T' + ':'.join(msg[3:])
         return out
 
     # Conversions from str to m21.metadata.DatePrimitive types, and back.
-- 
2.43.0


From ebbcc80c5176360abe4ad7126666e3e8f361ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:54 +0000
Subject: [PATCH 040/115] fix: a lone fraction of a second is still written
 without seconds

---
 converter21/shared/m21utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index ce5cc8f..96543df 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2416,7 +2416,8 @@ class M21Utilities:
             attr = M21Utilities._dateAttrNames[i]
             value = getattr(date, attr)
             error = getattr(date, attr + 'Error')
-            if value is None:
+            if value is None or (attr == 'second' and not value and date.minute is None):
+                # (a fraction of a second, all by itself, truncates to no seconds at all)
                 msg.append('')
             else:
                 fmt = M21Utilities._dateAttrStrFormat[i]
-- 
2.43.0


From 56b50b78518aa479adae306a88b877bba03e52bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:54 +0000
Subject: [PATCH 041/115] fix: approximate and uncertain dates lost their mark
 in EDTF

---
 converter21/shared/m21utilities.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 96543df..ab52b8e 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2093,6 +2093,11 @@ class M21Utilities:
 
         if isinstance(dateObj, m21.metadata.DateSingle):
             if edtf:
+                if isodates[0][-1] not in ('~', '?'):
+                    if dateObj.relevance == 'approximate':
+                        isodates[0] += '~'
+                    elif dateObj.relevance == 'uncertain':
+                        isodates[0] += '?'
                 return {'edtf': isodates[0]}
             return {'isodate': isodates[0]}
         elif isinstance(dateObj, m21.metadata.DateRelative):
-- 
2.43.0


From bcd49942c88a8783591748c263dcccf8e7e79575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:54 +0000
Subject: [PATCH 042/115] fix: ISO dates with a BC year were malformed when
 written and not understood when read

---
 converter21/shared/m21utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index ab52b8e..9ad8aae 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1938,6 +1938,9 @@ class M21Utilities:
         second: str | None = None
         if date:
             datePieces: list[str] = date.split('-')
+            if len(datePieces) > 1 and not datePieces[0]:
+                # leading '-' is the sign of a BC year, not a separator
+                datePieces[0:2] = ['-' + datePieces[1]]
             year = datePieces[0]
             if len(datePieces) > 1:
                 month = datePieces[1]
@@ -2146,7 +2149,8 @@ class M21Utilities:
 
             sub: str
             if attr == 'year':
-                sub = '%04d' % value
+                # ISO years have (at least) four digits, not counting any sign
+                sub = ('-%04d' % -value) if value < 0 else ('%04d' % value)
             else:
                 sub = '%02d' % value
             sub = sub + suffix
-- 
2.43.0


From e0fa8a35affaec3dd9bef862f4d2a55459609dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:12 +0000
Subject: [PATCH 043/115] fix: ISO date ranges, lists and gapped dates must not
 lose part of the date

---
 converter21/shared/m21utilities.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 9ad8aae..07661ab 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1833,18 +1833,25 @@ class M21Utilities:
                 m21Dates: list[m21.metadata.Date] = (
                     M21Utilities.m21DateListFromIsoDateList(splitIsoDateRangeSelection(isodate))
                 )
+                if len(m21Dates) != 2:
+                    return None
                 return m21.metadata.DateBetween(m21Dates)
 
             # list (DateSelection)
             relevance: str = 'and' if isodate[0] == '{' else 'or'
-            m21Dates = M21Utilities.m21DateListFromIsoDateList(splitIsoDateList(isodate))
+            isodates: list[str] = splitIsoDateList(isodate)
+            m21Dates = M21Utilities.m21DateListFromIsoDateList(isodates)
+            if len(m21Dates) != len(isodates):
+                return None
             return m21.metadata.DateSelection(m21Dates, relevance=relevance)
 
         if '/' in isodate:
             if '..' not in isodate:
                 # regular range (DateBetween)
                 m21Dates = M21Utilities.m21DateListFromIsoDateList(isodate.split('/'))
-                return m21.metadata.DateBetween(m21Dates[:2])
+                if len(m21Dates) != 2:
+                    return None
+                return m21.metadata.DateBetween(m21Dates)
 
             # open ended range (DateRelative)
             if isodate.startswith('../'):
@@ -2133,10 +2140,14 @@ class M21Utilities:
     @staticmethod
     def isoDateFromM21Date(date: m21.metadata.Date, edtf: bool = False) -> str:
         msg: list[str] = []
+        gap: bool = False
         for attr in date.attrNames:
             value: int = t.cast(int, getattr(date, attr))
             if value is None:
-                break  # ignore anything after this
+                gap = True
+                continue
+            if gap:
+                return ''  # ISO dates can't describe this (e.g. year and day, but no month)
             suffix: str = ''
             error: str | None = getattr(date, attr + 'Error')
             if error:
-- 
2.43.0


From f284a96508eb91e1c73159ee10ec212a678df41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:51 +0000
Subject: [PATCH 044/115] fix: '&colon;' in layout parameters was not decoded

---
 converter21/humdrum/humparamset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humparamset.py b/converter21/humdrum/humparamset.py
index fca414d..5c2f4e8 100644
--- a/converter21/humdrum/humparamset.py
+++ b/converter21/humdrum/humparamset.py
@@ -163,7 +163,7 @@ class HumParamSet:
                 self._ns2 = piece
                 continue
 
-            piece.replace('&colon;', ':')
+            piece = piece.replace('&colon;', ':')
             nameValueStrings = piece.split('=', 1)  # splits only on first instance of '='
             if len(nameValueStrings) == 1:
                 name = nameValueStrings[0]
-- 
2.43.0


From 14202ce9eec8baf5e911ba5c0527ed3ea177a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:51 +0000
Subject: [PATCH 045/115] fix: HumdrumLine.setParameters garbled values
 containing '&colon;' or '='

---
 converter21/humdrum/humdrumline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/humdrumline.py b/converter21/humdrum/humdrumline.py
index 1f9fd92..a4570f0 100644
--- a/converter21/humdrum/humdrumline.py
+++ b/converter21/humdrum/humdrumline.py
@@ -1155,8 +1155,8 @@ class HumdrumLine(HumHash):
         value: str = ''
 
         for i in range(2, len(pieces)):
-            piece = re.sub('&colon', ':', pieces[i])
-            keyAndValue: list[str] = piece.split('=')
+            piece = re.sub('&colon;', ':', pieces[i])
+            keyAndValue: list[str] = piece.split('=', 1)
 
             key = keyAndValue[0]
             if len(keyAndValue) == 1:
-- 
2.43.0


From 44159394317b130bb0d255147e3d7fac3c0da62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:51 +0000
Subject: [PATCH 046/115] fix: 'ns1:ns2' was not understood by HumHash.getKeys,
 hasParameters and getParameterCount

---
 converter21/humdrum/humhash.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/converter21/humdrum/humhash.py b/converter21/humdrum/humhash.py
index 136e05b..988bbc1 100644
--- a/converter21/humdrum/humhash.py
+++ b/converter21/humdrum/humhash.py
@@ -72,10 +72,10 @@ def fixupNamespace1Namespace2(
 
     if ns1 is not None and ns2 is None:
         # check for a colon in ns1 -> generate ns1, ns2 from ns2 in that case
-        keyTuple = getKeyTuple(ns1)
-        if len(keyTuple) == 2:
-            ns1 = keyTuple[0]
-            ns2 = keyTuple[1]
+        pieces: list[str] = ns1.split(':')
+        if len(pieces) == 2:
+            ns1 = pieces[0]
+            ns2 = pieces[1]
 
     return (ns1, ns2)
 
-- 
2.43.0


From 96c1f436e806774b91622bdda67f655498100b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:51 +0000
Subject: [PATCH 047/115] fix: the note selection of one layout comment must
 not affect the next one

---
 converter21/humdrum/humdrumtoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumtoken.py b/converter21/humdrum/humdrumtoken.py
index f03ac5c..dd81478 100644
--- a/converter21/humdrum/humdrumtoken.py
+++ b/converter21/humdrum/humdrumtoken.py
@@ -2841,8 +2841,8 @@ class HumdrumToken(HumHash):
         if lcount == 0:
             return output
 
-        nparam: str = ''
         for p in range(0, lcount):
+            nparam: str = ''
             hps: HumParamSet | None = self.getLinkedParameterSet(p)
             if hps is None:
                 continue
-- 
2.43.0


From e42a8f35a8e7601ae91c9f79b9e8c58fec6d0816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:14 +0000
Subject: [PATCH 048/115] fix: a verse label is not a regular expression to
 search for

---
 converter21/humdrum/humdrumfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index b318f67..7f9e04d 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8146,7 +8146,7 @@ class HumdrumFile(HumdrumFileContent):
 
         contents: str = token.text[3:]
         output: str = ''
-        if re.search(contents, r'^\d+$'):
+        if re.search(r'^\d+$', contents):
             output = contents + '.'
         else:
             output = contents
-- 
2.43.0


From 3df635e40da4e4b432c7aa6d026e68da602e3f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:14 +0000
Subject: [PATCH 049/115] fix: the backslash that protects a leading '!' or '*'
 is not part of the lyric

---
 converter21/humdrum/humdrumfile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 7f9e04d..a477715 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8087,6 +8087,11 @@ class HumdrumFile(HumdrumFileContent):
 
                 content = self._colorVerse(verse, content)
 
+                # a leading '!' or '*' is written with a preceding backslash, because otherwise
+                # the token would be a comment or an interpretation
+                if content.startswith((r'\!', r'\*')):
+                    content = content[1:]
+
                 # verse can have multiple syllables if elisions present
 
                 contents: list[str] = []
-- 
2.43.0


From 3b4285ff851bc6c0f38508a97973a8d77c81d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:09 +0000
Subject: [PATCH 050/115] fix: the elements of an exported spanner keep the
 order they have in the original score

---
 converter21/humdrum/humdrumwriter.py |  5 +----
 converter21/mei/meiwriter.py         |  3 ---
 converter21/shared/m21utilities.py   | 24 ++++++++++++++++++++++++
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/converter21/humdrum/humdrumwriter.py b/converter21/humdrum/humdrumwriter.py
index b3609b3..17838f5 100755
--- a/converter21/humdrum/humdrumwriter.py
+++ b/converter21/humdrum/humdrumwriter.py
@@ -360,6 +360,7 @@ class HumdrumWriter:
             # but let's at least fix it up now.
             M21Utilities.fixupComplexHiddenRests(self._m21Object, inPlace=True)
             self._m21Object = self._m21Object.coreCopyAsDerivation('HumdrumWriter.write')
+            M21Utilities.restoreSpannedElementOrder(self._m21Object)
 
         # Second: turn the object into a well-formed Score (someone might have passed in a single
         # note, for example).  This code is swiped from music21 v7's musicxml exporter.  The hope
@@ -384,10 +385,6 @@ class HumdrumWriter:
         # so stash the result somewhere, rather than calling it again and again.
         self.spannerBundle = self._m21Score.spannerBundle
 
-        # music21's copy of a spanner forgets that its elements must never be re-sorted.
-        for spanner in self.spannerBundle:
-            spanner.spannerStorage.autoSort = False
-
         # set up _firstTempoLayout ('!!LO:TX:omd:t=something') for use when emitting
         # the first time signature (might have no text if there is none).
         parts: tuple[m21.stream.Part, ...] = tuple(self._m21Score.parts)
diff --git a/converter21/mei/meiwriter.py b/converter21/mei/meiwriter.py
index 280ee00..47e3f6e 100644
--- a/converter21/mei/meiwriter.py
+++ b/converter21/mei/meiwriter.py
@@ -51,9 +51,6 @@ class MeiWriter:
     def write(self, fp) -> bool:
         if self.makeNotation:
             self._m21Score = M21Utilities.makeScoreFromObject(self._m21Object)
-            # music21's copy of a spanner forgets that its elements must never be re-sorted.
-            for spanner in self._m21Score.spannerBundle:
-                spanner.spannerStorage.autoSort = False
         else:
             if not isinstance(self._m21Object, m21.stream.Score):
                 raise MeiExportError(
diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 07661ab..b77be7a 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -728,6 +728,29 @@ class M21Utilities:
 
         return rest
 
+    @staticmethod
+    def restoreSpannedElementOrder(copied: m21.stream.Stream) -> None:
+        '''
+        When music21 copies a score, the elements of the copied spanners can end up in any
+        order (and the copied spanners forget that they must never be re-sorted).  Here we
+        put the elements of each copied spanner back in the order they have in the original.
+        '''
+        for spanner in copied.spannerBundle:
+            storage: m21.stream.Stream = spanner.spannerStorage
+            elements: list[m21.base.Music21Object] = list(storage)
+            storage.autoSort = False
+            original: m21.base.Music21Object | None = spanner.derivation.origin
+            if not isinstance(original, m21.spanner.Spanner):
+                continue
+            order: dict[int, int] = {
+                id(el): idx for idx, el in enumerate(original.getSpannedElements())
+            }
+            storage._elements = sorted(
+                elements,
+                key=lambda el: order.get(id(el.derivation.origin), len(order))
+            )
+            storage.coreElementsChanged(updateIsFlat=False)
+
     @staticmethod
     def makeScoreFromObject(obj: m21.prebase.ProtoM21Object) -> m21.stream.Score:
         '''
@@ -770,6 +793,7 @@ class M21Utilities:
         From a score, make a new, perhaps better notated score
         '''
         scOut = sc.makeNotation(inPlace=False)
+        M21Utilities.restoreSpannedElementOrder(scOut)
         if not scOut.isWellFormedNotation():
             print(f'{scOut} is not well-formed; see isWellFormedNotation()', file=sys.stderr)
         return scOut
-- 
2.43.0


From 81529c002d1ec8ea12e0e87df486cfe3f32c23f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:09 +0000
Subject: [PATCH 051/115] fix: export an sf/sfz that has brackets or text
 around it as a dynamic, not as z or zz

---
 converter21/humdrum/measuredata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/measuredata.py b/converter21/humdrum/measuredata.py
index e5ae3d7..09eb672 100644
--- a/converter21/humdrum/measuredata.py
+++ b/converter21/humdrum/measuredata.py
@@ -288,7 +288,7 @@ class MeasureData:
         )
         for elementIndex, element in enumerate(elementList):
             if (isinstance(element, m21.dynamics.Dynamic)
-                    and M21Convert.getDynamicString(element) in ('sf', 'sfz')
+                    and element.value in ('sf', 'sfz')
                     and not M21Convert.isCentered(element)):
                 # 'sf' and 'sfz' should be exported as 'z' or 'zz' on an associated note/chord
                 # if possible, so look forward and backward for same-offset notes/chords to
-- 
2.43.0


From dac9612930cefcdcc61c7d1d8af0f6f6a03e68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:09 +0000
Subject: [PATCH 052/115] fix: a hairpin over a single note ends at the end of
 that note in exported MEI

---
 converter21/mei/m21objectconvert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index d42281e..f2ad990 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -1023,11 +1023,11 @@ class M21ObjectConvert:
         else:
             attr['startid'] = f'#{M21Utilities.getXmlId(first, required=True)}'
 
-        if last is None or last is first:
+        if last is None or (last is first and not forceTstamp2AtEndOfLast):
             # no unique last element, we're done
             return
 
-        # unique last element, we need @tstamp2 or @endid
+        # we need @tstamp2 or @endid
         if forceTstamp2AtEndOfLast:
             offsetAtEndOfLast: OffsetQL = opFrac(
                 last.getOffsetInHierarchy(m21Score) + last.duration.quarterLength
-- 
2.43.0


From 770298a2f03d61f922b72ac1a1b8949bc9e3f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:10 +0000
Subject: [PATCH 053/115] fix: a hairpin that ends with an invisible rest lasts
 until the end of that rest

---
 converter21/humdrum/humdrumfile.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index a477715..9502300 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -2177,11 +2177,26 @@ class HumdrumFile(HumdrumFileContent):
                 # Make a SpannerAnchor to replace it (and insert into measure).
                 # Replace all spanner references to element with references to
                 # the new anchor.
-                anchor = m21.spanner.SpannerAnchor()
-                for spanner in spanners:
-                    spanner.replaceSpannedElement(element, anchor)
+                # A spanner that ends with the invisible rest lasts until the end of it.
                 offsetInMeasure = element.getOffsetInHierarchy(measure)
-                measure.insert(offsetInMeasure, anchor)
+                startAnchor = m21.spanner.SpannerAnchor()
+                endAnchor = m21.spanner.SpannerAnchor()
+                for spanner in spanners:
+                    if not spanner.isLast(element):
+                        spanner.replaceSpannedElement(element, startAnchor)
+                    elif not spanner.isFirst(element):
+                        spanner.replaceSpannedElement(element, endAnchor)
+                    else:
+                        spanner.replaceSpannedElement(element, startAnchor)
+                        if isinstance(spanner, m21.dynamics.DynamicWedge):
+                            spanner.addSpannedElements(endAnchor)
+                if startAnchor.getSpannerSites():
+                    measure.insert(offsetInMeasure, startAnchor)
+                if endAnchor.getSpannerSites():
+                    measure.insert(
+                        opFrac(offsetInMeasure + element.duration.quarterLength),
+                        endAnchor
+                    )
 
         measure.remove(voice)
 
-- 
2.43.0


From 983f8501855c8d01779499dbc6eb42cf0fd1c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:10 +0000
Subject: [PATCH 054/115] fix: dynamics and hairpins of a lower staff stay in
 that staff in Humdrum

---
 converter21/humdrum/humdrumfile.py | 13 +++++++------
 converter21/humdrum/m21convert.py  |  8 ++++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 9502300..f931936 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -9102,20 +9102,21 @@ class HumdrumFile(HumdrumFileContent):
                     and (endAtEndOfEndToken or stopAtEndHairpin in endTok.text)):
                 endTime += endTok.ownerLine.duration
 
-            startNoteToken: HumdrumToken | None = (
-                self._getNearbyNoteTokenWithAppropriateTimestamp(
+            startNoteToken: HumdrumToken | None = None
+            endNoteToken: HumdrumToken | None = None
+            if newStaffIndex == staffIndex:
+                # (the notes we can find here are in staffIndex, so if the hairpin
+                # belongs to another staff, we need a SpannerAnchor over there instead)
+                startNoteToken = self._getNearbyNoteTokenWithAppropriateTimestamp(
                     token,
                     startTime,
                     start=True
                 )
-            )
-            endNoteToken: HumdrumToken | None = (
-                self._getNearbyNoteTokenWithAppropriateTimestamp(
+                endNoteToken = self._getNearbyNoteTokenWithAppropriateTimestamp(
                     endTok,
                     endTime,
                     start=False
                 )
-            )
 
             startNote: m21.Music21Object | None = None
             if startNoteToken:
diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 6d18ae5..3b920c0 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2290,6 +2290,10 @@ class M21Convert:
             else:
                 output += ':b' + staffStr
 
+        if staffStr and dynamic.placement is None:
+            # we need some placement to say which staff it is (below is the usual one)
+            output += ':b' + staffStr
+
         # right justification
         if textStyle is not None:
             if textStyle.justify == 'right':
@@ -2440,6 +2444,10 @@ class M21Convert:
                     return ':c' + staffStr
             return ':b' + staffStr
 
+        if staffStr and dynamic.placement is None:
+            # we need some placement to say which staff it is (below is the usual one)
+            return ':b' + staffStr
+
         return ''
 
     @staticmethod
-- 
2.43.0


From 13074b84818e3d3a625ed83360bb9e82872c3df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:23 +0000
Subject: [PATCH 055/115] fix: an MEI <tempo> with @startid is a tempo, not a
 dynamic

---
 converter21/mei/meireader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 7ac206c..b379da8 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -1837,7 +1837,7 @@ class MeiReader:
                 name = 'Dynam'
             elif eachElem.tag.endswith('tempo'):
                 lowerName = 'tempo'
-                name = 'Dynam'
+                name = 'Tempo'
             else:
                 # shouldn't ever get here
                 continue
-- 
2.43.0


From b3fbd93e1e901015fc2bda6ae4710a26779fa6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:23 +0000
Subject: [PATCH 056/115] fix: import every MEI dir, dynam and tempo that
 starts on the same note

---
 converter21/mei/meireader.py | 45 ++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index b379da8..cef49cc 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -1886,23 +1886,30 @@ class MeiReader:
             justify = styleDict.get('justify', None)
             enclosure = styleDict.get('enclosure', None)
 
-            self.m21Attr[startId][f'm21{name}'] = text
+            # (there can be several of them on the same note/chord)
+            prefix: str = f'm21{name}'
+            count: int = 1
+            while prefix in self.m21Attr[startId]:
+                count += 1
+                prefix = f'm21{name}{count}'
+
+            self.m21Attr[startId][prefix] = text
             if place:
-                self.m21Attr[startId][f'm21{name}Place'] = place
+                self.m21Attr[startId][f'{prefix}Place'] = place
             if staff:
-                self.m21Attr[startId][f'm21{name}Staff'] = staff
+                self.m21Attr[startId][f'{prefix}Staff'] = staff
             if midiBPM:
-                self.m21Attr[startId][f'm21{name}MidiBPM'] = midiBPM
+                self.m21Attr[startId][f'{prefix}MidiBPM'] = midiBPM
             if fontStyle:
-                self.m21Attr[startId][f'm21{name}FontStyle'] = fontStyle
+                self.m21Attr[startId][f'{prefix}FontStyle'] = fontStyle
             if fontWeight:
-                self.m21Attr[startId][f'm21{name}FontWeight'] = fontWeight
+                self.m21Attr[startId][f'{prefix}FontWeight'] = fontWeight
             if fontFamily:
-                self.m21Attr[startId][f'm21{name}FontFamily'] = fontFamily
+                self.m21Attr[startId][f'{prefix}FontFamily'] = fontFamily
             if justify:
-                self.m21Attr[startId][f'm21{name}Justify'] = justify
+                self.m21Attr[startId][f'{prefix}Justify'] = justify
             if enclosure:
-                self.m21Attr[startId][f'm21{name}Enclosure'] = enclosure
+                self.m21Attr[startId][f'{prefix}Enclosure'] = enclosure
 
             eachElem.set(f'ignore_in_{lowerName}FromElement', 'true')
 
@@ -2445,11 +2452,15 @@ class MeiReader:
         elem: Element,
         obj: note.GeneralNote
     ):
-        textsToProcess: dict[str, str] = {
-            'm21Dir': elem.get('m21Dir', ''),
-            'm21Dynam': elem.get('m21Dynam', ''),
-            'm21Tempo': elem.get('m21Tempo', ''),
-        }
+        textsToProcess: dict[str, str] = {}
+        for name in ('m21Dir', 'm21Dynam', 'm21Tempo'):
+            # (if there are several of them, they are e.g. m21Dir, m21Dir2, m21Dir3)
+            key: str = name
+            count: int = 1
+            while elem.get(key, ''):
+                textsToProcess[key] = elem.get(key, '')
+                count += 1
+                key = f'{name}{count}'
 
         outputList: list[
             m21.expressions.TextExpression | m21.dynamics.Dynamic | m21.tempo.TempoIndication
@@ -2487,16 +2498,16 @@ class MeiReader:
                     place)
             )
 
-            if prefix == 'm21Dir':
+            if prefix.startswith('m21Dir'):
                 outputList.append(te)
                 continue
 
-            if prefix == 'm21Dynam':
+            if prefix.startswith('m21Dynam'):
                 dynam: m21.dynamics.Dynamic = self._dynamFromTextExpression(te)
                 outputList.append(dynam)
                 continue
 
-            if prefix == 'm21Tempo':
+            if prefix.startswith('m21Tempo'):
                 midiBPM: str = elem.get(f'{prefix}MidiBPM', '')
                 mm: m21.tempo.MetronomeMark = (
                     self._metronomeMarkFromTextExpressionAndMidiBPMStr(te, midiBPM)
-- 
2.43.0


From 612bae2c9456e75ebb925d1f7f2a78183fb6f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:23 +0000
Subject: [PATCH 057/115] fix: import every MEI hairpin that starts or ends on
 the same note

---
 converter21/mei/meireader.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index cef49cc..6bf9b70 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -1241,9 +1241,13 @@ class MeiReader:
 
             eachElem.set('m21Hairpin', thisIdLocal)
             if startId:
-                self.m21Attr[startId]['m21HairpinStart'] = thisIdLocal
+                self.m21Attr[startId]['m21HairpinStart'] = ' '.join(
+                    [*self.m21Attr[startId].get('m21HairpinStart', '').split(), thisIdLocal]
+                )
             if endId:
-                self.m21Attr[endId]['m21HairpinEnd'] = thisIdLocal
+                self.m21Attr[endId]['m21HairpinEnd'] = ' '.join(
+                    [*self.m21Attr[endId].get('m21HairpinEnd', '').split(), thisIdLocal]
+                )
 
             staffNStr: str = eachElem.get('staff', '')
             if staffNStr:
@@ -2435,12 +2439,11 @@ class MeiReader:
         elem: Element,
         obj: note.GeneralNote,
     ):
-        hairpinId: str = elem.get('m21HairpinStart', '')
-        if hairpinId:
+        hairpinId: str
+        for hairpinId in elem.get('m21HairpinStart', '').split():
             self.safeAddToSpannerByIdLocal(obj, hairpinId, self.spannerBundle)
 
-        hairpinId = elem.get('m21HairpinEnd', '')
-        if hairpinId:
+        for hairpinId in elem.get('m21HairpinEnd', '').split():
             hairpin: spanner.Spanner | None = self.safeGetSpannerByIdLocal(
                 hairpinId, self.spannerBundle
             )
-- 
2.43.0


From 41782efabec4734082218b4f36fde36797bfadc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:56 +0000
Subject: [PATCH 058/115] fix: write a Humdrum reference record between voices
 as one field

---
 converter21/humdrum/gridslice.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter21/humdrum/gridslice.py b/converter21/humdrum/gridslice.py
index b38010c..9b5cd34 100644
--- a/converter21/humdrum/gridslice.py
+++ b/converter21/humdrum/gridslice.py
@@ -418,6 +418,10 @@ class GridSlice:
                         else:
                             line.appendToken(HumdrumToken(emptyStr))
 
+                        if not self.hasSpines:
+                            # non-spined lines have only one token
+                            break
+
                 if not self.hasSpines:
                     # Don't add sides to non-spined lines
                     continue
-- 
2.43.0


From 3774407f7623f03d2aa9dfd2e3a73690b19d6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:56 +0000
Subject: [PATCH 059/115] fix: valid Humdrum for a rehearsal mark at the start
 of a score with several staves

---
 converter21/humdrum/humgrid.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/converter21/humdrum/humgrid.py b/converter21/humdrum/humgrid.py
index 7188add..b0f41fa 100755
--- a/converter21/humdrum/humgrid.py
+++ b/converter21/humdrum/humgrid.py
@@ -102,8 +102,10 @@ class HumGrid:
     '''
     @property
     def partCount(self) -> int:
-        if self._allSlices:
-            return len(self._allSlices[0].parts)
+        # slices without spines (e.g. !!LO:REH) have only one part, so don't count that one
+        for theSlice in self._allSlices:
+            if theSlice.hasSpines:
+                return len(theSlice.parts)
 
         if not self.measures:
             return 0
@@ -115,6 +117,15 @@ class HumGrid:
         # return the number of parts in the last slice of the first measure
         return len(self.measures[0].slices[-1].parts)
 
+    @property
+    def _firstSpinedSlice(self) -> GridSlice:
+        # the first slice with spines in the first measure (which must have a slice).
+        # There may be a slice without spines (e.g. !!LO:REH) before it.
+        for theSlice in self.measures[0].slices:
+            if theSlice.hasSpines:
+                return theSlice
+        return self.measures[0].slices[0]
+
     '''
     //////////////////////////////
     //
@@ -2022,7 +2033,7 @@ class HumGrid:
         if self._recip:
             line.appendToken(HumdrumToken('*'))
 
-        gridSlice: GridSlice = self.measures[0].slices[0]
+        gridSlice: GridSlice = self._firstSpinedSlice
         for p, part in enumerate(gridSlice.parts):
             text: str = '*'
             pname: str = self._partNames[p]
@@ -2075,7 +2086,7 @@ class HumGrid:
         if self._recip:
             line.appendToken(HumdrumToken('*'))
 
-        gridSlice: GridSlice = self.measures[0].slices[0]
+        gridSlice: GridSlice = self._firstSpinedSlice
         staffCount: int = 0
         part: GridPart
         for part in gridSlice.parts:
@@ -2149,7 +2160,7 @@ class HumGrid:
         if self._recip:
             line.appendToken(HumdrumToken('*'))
 
-        gridSlice: GridSlice = self.measures[0].slices[0]
+        gridSlice: GridSlice = self._firstSpinedSlice
         for p in reversed(range(0, len(gridSlice.parts))):
             part: GridPart = gridSlice.parts[p]
             text: str = '*part' + str(p + 1)
@@ -2199,7 +2210,7 @@ class HumGrid:
         if self._recip:
             line.appendToken(HumdrumToken('**recip'))
 
-        gridSlice: GridSlice = self.measures[0].slices[0]
+        gridSlice: GridSlice = self._firstSpinedSlice
         for p in reversed(range(0, len(gridSlice.parts))):
             part: GridPart = gridSlice.parts[p]
             for s in reversed(range(0, len(part.staves))):
@@ -2248,7 +2259,7 @@ class HumGrid:
         if self._recip:
             line.appendToken(HumdrumToken('*-'))
 
-        gridSlice: GridSlice = self.measures[0].slices[0]
+        gridSlice: GridSlice = self._firstSpinedSlice
         for p, part in enumerate(gridSlice.parts):
             for s in range(0, len(part.staves)):
                 line.appendToken(HumdrumToken('*-'))
-- 
2.43.0


From ae4e9a081815f67304ffaeed75c63ae0f8b4c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:56 +0000
Subject: [PATCH 060/115] fix: read the tempo name of *MM[name]

---
 converter21/humdrum/humdrumtoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumtoken.py b/converter21/humdrum/humdrumtoken.py
index dd81478..d1e390e 100644
--- a/converter21/humdrum/humdrumtoken.py
+++ b/converter21/humdrum/humdrumtoken.py
@@ -1531,7 +1531,7 @@ class HumdrumToken(HumHash):
     def tempoName(self) -> str:
         if not self.isTempo:
             return ''
-        m = re.match(r'^\*MM[(.+)]', self.text)
+        m = re.match(r'^\*MM\[(.+)\]', self.text)
         if m:
             return m.group(1)
         return ''
-- 
2.43.0


From 6dc8c0a6f5fdac0abcae79b221e831d7de979914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:56 +0000
Subject: [PATCH 061/115] fix: an MEI <reh> without @tstamp is at the start of
 its measure

---
 converter21/mei/meireader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 6bf9b70..10b59a6 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -8256,6 +8256,9 @@ class MeiReader:
 
         # @tstamp is required here, since @startid is handled elsewhere
         tstamp: str | None = elem.get('tstamp')
+        if tstamp is None and elem.tag == f'{MEI_NS}reh':
+            # @tstamp is optional in <reh>, the default is the start of the measure
+            tstamp = '1'
         if tstamp is None:
             environLocal.warn('missing @tstamp in <dir> element')
             return '', (-1., None, None), None
-- 
2.43.0


From 541cf1a363e7a7ae0281e1f8484f3c744b3ca369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:56 +0000
Subject: [PATCH 062/115] fix: keep the speed of MEI tempo marks, and don't
 display implicit tempo names

---
 converter21/mei/m21objectconvert.py | 9 ++++++++-
 converter21/mei/meireader.py        | 9 +++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index f2ad990..ca3e2e2 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -1764,7 +1764,14 @@ class M21ObjectConvert:
 
             if isinstance(obj, m21.tempo.MetronomeMark):
                 if obj.numberImplicit:
-                    M21ObjectConvert.emitStyledTextElement(obj.text, style, tag, attr, tb)
+                    # the number is not displayed (but if there is one, it is the tempo)
+                    if obj.number is not None:
+                        quarterBPM: float | None = obj.getQuarterBPM()
+                        if quarterBPM is not None:
+                            attr['midi.bpm'] = str(quarterBPM)
+                    # implicit text is not displayed, either
+                    text: str = '' if obj.textImplicit else obj.text
+                    M21ObjectConvert.emitStyledTextElement(text, style, tag, attr, tb)
                     return
 
                 number: int | float | None = obj.number
diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 10b59a6..4b03432 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -8062,12 +8062,13 @@ class MeiReader:
 
         # Note that we have to make a TempoText from te first, since
         # MetronomeMark won't take text=TextExpression.
-        tempoObj: m21.tempo.TempoIndication
-        tempoObj = m21.tempo.TempoText()
-        tempoObj.setTextExpression(te)
+        tempoText: m21.tempo.TempoText | None = None
+        if te.content or midiBPM is None:
+            tempoText = m21.tempo.TempoText()
+            tempoText.setTextExpression(te)
 
         tempoObj = m21.tempo.MetronomeMark(
-            text=tempoObj,  # type: ignore
+            text=tempoText,  # type: ignore
             number=midiBPM,
             referent=None  # implies quarter note
         )
-- 
2.43.0


From 82f4664ab7d50aae13310b9ade570f36a0a46f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:56 +0000
Subject: [PATCH 063/115] fix: write a Humdrum tempo that has no number inside
 a measure

---
 converter21/humdrum/humdrumwriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter21/humdrum/humdrumwriter.py b/converter21/humdrum/humdrumwriter.py
index 17838f5..89ccd8e 100755
--- a/converter21/humdrum/humdrumwriter.py
+++ b/converter21/humdrum/humdrumwriter.py
@@ -3196,6 +3196,11 @@ class HumdrumWriter:
             M21Convert.getMMTokenAndTempoTextFromM21TempoIndication(tempoIndication)
         )
 
+        if tempoText and not mmTokenStr and partIndex == 0:
+            # there is no number, but an !!!OMD in the middle of a measure is only seen
+            # if there is a *MM, so write the name there
+            mmTokenStr = f'*MM[{tempoText}]'
+
         staffIndex: int = 0
         voiceIndex: int = 0
         if mmTokenStr:
-- 
2.43.0


From 06ada28ea936e311759b0fdcdf68a9ad12497047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:56 +0000
Subject: [PATCH 064/115] fix: keep the text of a Humdrum tempo change in the
 middle of a measure, and find its *MM in any spine

---
 converter21/humdrum/humdrumfile.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index f931936..91f3621 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -3081,7 +3081,7 @@ class HumdrumFile(HumdrumFileContent):
             nearbyUnhandledOMD = self._getNearbyUnhandledOmdLine(token)
             if nearbyUnhandledOMD is not None:
                 firstTok: HumdrumToken | None = nearbyUnhandledOMD[0]
-                if firstTok is not None and self._isTempoish(firstTok.text):
+                if firstTok is not None:
                     firstTok.setValue('auto', 'OMD handled', True)
                     tempoName = nearbyUnhandledOMD.referenceValue
 
@@ -9816,7 +9816,7 @@ class HumdrumFile(HumdrumFileContent):
                     # this is a redundant tempo message, so ignore (even as text dir)
                     return insertedIntoVoice
 
-                tempo = self._myMetronomeMarkInit(number=midiBPM)
+                tempo = self._myMetronomeMarkInit(number=midiBPM, text=text if text else None)
                 tempoOrDirection = tempo
 
         if tempoOrDirection is None:
@@ -10052,8 +10052,10 @@ class HumdrumFile(HumdrumFileContent):
             current = self.prevTokenIncludingGlobalToken(current)
 
         while current and not current.isData:
-            if current.isTempo:
-                return current.tempoBPM
+            for tok in current.ownerLine.tokens():
+                # the *MM might be in another spine
+                if tok.isTempo:
+                    return tok.tempoBPM
             current = self.prevTokenIncludingGlobalToken(current)
 
         return 0
@@ -10075,6 +10077,10 @@ class HumdrumFile(HumdrumFileContent):
         while current and not current.isData:
             if current.isTempo:
                 return current.tempoBPM, current
+            for tok in reversed(list(current.ownerLine.tokens())):
+                # the *MM might be in another spine
+                if tok.isTempo:
+                    return tok.tempoBPM, tok
             current = self.nextTokenIncludingGlobalToken(current)
 
         return 0, None
-- 
2.43.0


From d5c22aa26af8d659868d6afef602c69ccc64d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:59 +0000
Subject: [PATCH 065/115] fix: write parentheses, brackets and editorial
 position of accidentals to MEI, and hidden triple accidentals

---
 converter21/mei/m21objectconvert.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index ca3e2e2..691f500 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -378,12 +378,23 @@ class M21ObjectConvert:
         M21ObjectConvert._addBreakSec(note, attr)
         M21ObjectConvert._addStylisticAttributes(note, attr)
 
+        accidAttr: dict[str, str] = {}  # for an <accid> element, if needed
         if isinstance(note, m21.note.Note):
             if note.pitch.accidental is not None:
                 if note.pitch.accidental.displayStatus:
-                    attr['accid'] = (
+                    accid: str = (
                         M21ObjectConvert.m21AccidToMeiAccid(note.pitch.accidental.name)
                     )
+                    if note.pitch.accidental.displayLocation == 'above':
+                        accidAttr['func'] = 'edit'
+                    if note.pitch.accidental.displayStyle == 'bracket':
+                        accidAttr['enclose'] = 'brack'
+                    elif note.pitch.accidental.displayStyle in ('parentheses', 'both'):
+                        accidAttr['enclose'] = 'paren'
+                    if accidAttr:
+                        accidAttr['accid'] = accid
+                    else:
+                        attr['accid'] = accid
                 else:
                     accidGes: str = (
                         M21ObjectConvert.m21AccidToMeiAccidGes(note.pitch.accidental.name)
@@ -392,6 +403,9 @@ class M21ObjectConvert:
                         attr['accid.ges'] = accidGes
 
         tb.start('note', attr)
+        if accidAttr:
+            tb.start('accid', accidAttr)
+            tb.end('accid')
         M21ObjectConvert.m21ArticulationsToMei(note.articulations, tb)
         M21ObjectConvert.m21LyricsToMei(note.lyrics, tb)
         tb.end('note')
@@ -781,8 +795,10 @@ class M21ObjectConvert:
         'natural': 'n',
         'sharp': 's',
         'double-sharp': 'ss',
+        'triple-sharp': 'ts',
         'flat': 'f',
         'double-flat': 'ff',
+        'triple-flat': 'tf',
         'half-sharp': 'sd',
         'one-and-a-half-sharp': 'su',
         'half-flat': 'fu',
-- 
2.43.0


From c259030ee9a3ddef5bb7e56c1009a9d591549728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:59 +0000
Subject: [PATCH 066/115] fix: display an MEI accidental that has both @accid
 and @accid.ges

---
 converter21/mei/meireader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 4b03432..fccd635 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -566,6 +566,7 @@ class MeiReader:
     # None is for when @accid is omitted
     _ACCID_GES_ATTR_DICT: dict[str | None, str | None] = {
         's': '#', 'f': '-', 'ss': '##', 'ff': '--', 'n': 'n',
+        'ts': '###', 'tf': '---',
         'su': '#~', 'sd': '~', 'fu': '`', 'fd': '-`',
         None: None
     }
@@ -4865,8 +4866,9 @@ class MeiReader:
                 theNote.pitch = M21Utilities.safePitch(pnameStr, theAccidGes, octStr)
                 if theNote.pitch.accidental is not None:
                     # since the accidental was due to theAccidGes,
-                    # the accidental should NOT be displayed.
-                    theNote.pitch.accidental.displayStatus = False
+                    # the accidental should NOT be displayed (unless theAccid says it
+                    # is also written).
+                    theNote.pitch.accidental.displayStatus = theAccid is not None
             elif theAccid is not None:
                 theNote.pitch = M21Utilities.safePitch(pnameStr, theAccid, octStr)
                 if theNote.pitch.accidental is not None:
-- 
2.43.0


From e5365cb55191d093c8b637b983609fdc9bee5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:59 +0000
Subject: [PATCH 067/115] fix: keep secondary beam breaks between notes of
 unequal flags when reading Humdrum

---
 converter21/humdrum/humdrumfile.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 91f3621..df2368f 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -3715,9 +3715,16 @@ class HumdrumFile(HumdrumFileContent):
         # and token ('continue' becomes 'start')
         breakBeamCount = prevToken.getValueInt('auto', 'breakBeamCount')
         if breakBeamCount > 0:
-            if prevNumBeams == numBeams and numBeams > breakBeamCount:
-                for i in range(breakBeamCount + 1, numBeams + 1):  # beam numbers are 1-based
+            # beam numbers are 1-based
+            for i in range(breakBeamCount + 1, prevNumBeams + 1):
+                if prevObj.beams.getByNumber(i).type == 'start':
+                    prevObj.beams.setByNumber(i, 'partial', direction='right')
+                elif prevObj.beams.getByNumber(i).type == 'continue':
                     prevObj.beams.setByNumber(i, 'stop')
+            for i in range(breakBeamCount + 1, numBeams + 1):
+                if obj.beams.getByNumber(i).type == 'stop':
+                    obj.beams.setByNumber(i, 'partial', direction='left')
+                elif obj.beams.getByNumber(i).type == 'continue':
                     obj.beams.setByNumber(i, 'start')
 
     def _endBeam(
-- 
2.43.0


From d8b19d507584144554c2360c02cde712ff06e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:59 +0000
Subject: [PATCH 068/115] fix: write MEI breaksec between notes of unequal
 flags and before the last note of a beam

---
 converter21/mei/meiscore.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index 16a8fff..52cbf6a 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -672,19 +672,17 @@ class MeiScore:
         def computeBreakSec(prevBeams: m21.beam.Beams, currBeams: m21.beam.Beams) -> int:
             # returns the number of beams that should be seen during the break
             # returns 0 if no breaksec seen
-            numBeams: int = len(currBeams)
-            if len(prevBeams) != numBeams:
-                return 0
-
-            numStartStops: int = 0
+            numJoined: int = 0
             for prevBeam, currBeam in zip(prevBeams, currBeams):
-                if stopsBeam(prevBeam) and startsBeam(currBeam):
-                    numStartStops += 1
+                if (prevBeam.type in ('start', 'continue')
+                        and currBeam.type in ('continue', 'stop')):
+                    numJoined += 1
 
-            if numStartStops == 0:
+            if numJoined == min(len(prevBeams), len(currBeams)):
+                # all the beams that can be joined are joined (no break)
                 return 0
 
-            return numBeams - numStartStops
+            return numJoined
 
         nonIgnoredBeams: m21.beam.Beams = M21Utilities.getNonIgnoredBeams(noteOrChord)
         noteOrChord.mei_nonignored_beams = nonIgnoredBeams  # type: ignore
@@ -706,15 +704,6 @@ class MeiScore:
 
         self.currentBeamSpanners[(part, voiceId)][-1].addSpannedElements(noteOrChord)
 
-        if allStop(nonIgnoredBeams):
-            # done with this <beam> or <beamSpan>.  Put the spanner in the score,
-            # and clear out any state variables.
-            self.currentBeamSpanners[(part, voiceId)] = (
-                self.currentBeamSpanners[(part, voiceId)][:-1]
-            )
-            self.previousBeamedNoteOrChord[(part, voiceId)] = None
-            return
-
         # annotate any breaksec ending at this noteOrChord (set it on the previous noteOrChord)
         prevNC = self.previousBeamedNoteOrChord[(part, voiceId)]
         if prevNC is not None:
@@ -729,6 +718,16 @@ class MeiScore:
                     prevNC,
                     ['mei_breaksec']
                 )
+
+        if allStop(nonIgnoredBeams):
+            # done with this <beam> or <beamSpan>.  Put the spanner in the score,
+            # and clear out any state variables.
+            self.currentBeamSpanners[(part, voiceId)] = (
+                self.currentBeamSpanners[(part, voiceId)][:-1]
+            )
+            self.previousBeamedNoteOrChord[(part, voiceId)] = None
+            return
+
         self.previousBeamedNoteOrChord[(part, voiceId)] = noteOrChord
 
     def annotateTuplets(self, gnote: m21.base.Music21Object, part: m21.stream.Part) -> None:
-- 
2.43.0


From 04e99d0b40bae1d49ce080dc036e76596ee15575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:59 +0000
Subject: [PATCH 069/115] fix: read MEI beamSpan, inner beam starts and
 breaksec at the ends of a beam

---
 converter21/mei/meireader.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index fccd635..7751f6e 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -1055,7 +1055,7 @@ class MeiReader:
         # pre-processing for <beamSpan> elements
         for eachBeam in self.documentRoot.iterfind(
                 f'.//{MEI_NS}music//{MEI_NS}score//{MEI_NS}beamSpan'):
-            if eachBeam.get('startid', '') or eachBeam.get('endid', ''):
+            if not eachBeam.get('startid', '') or not eachBeam.get('endid', ''):
                 environLocal.warn(
                     _UNIMPLEMENTED_IMPORT_WITHOUT.format('<beamSpan>', '@startid and @endid')
                 )
@@ -2850,8 +2850,8 @@ class MeiReader:
                     b.type = 'partial'
                     b.direction = 'right'
 
-        # loop over them again, looking for 'stop' that should be 'partial'/'left' because
-        # there are fewer beams in the previous note
+        # loop over them again, looking for 'stop' that should be 'partial'/'left' (and
+        # 'continue' that should be 'start') because there are fewer beams in the previous note
         for i, thing in enumerate(someThings):
             if not hasattr(thing, 'beams'):
                 continue
@@ -2876,6 +2876,8 @@ class MeiReader:
                 if b.type == 'stop':
                     b.type = 'partial'
                     b.direction = 'left'
+                elif b.type == 'continue':
+                    b.type = 'start'
 
     def applyBreaksecs(self, someThings: list[Music21Object]):
         # First see if this is a beamed grace note group (i.e. all grace notes), or a beamed
@@ -2910,6 +2912,9 @@ class MeiReader:
                 b: beam.Beam = thing.beams.getByNumber(beamNum)  # type: ignore
                 if b.type == 'continue':
                     b.type = 'stop'
+                elif b.type == 'start':
+                    b.type = 'partial'
+                    b.direction = 'right'
 
             nextThing: Music21Object | None = None
             for j in range(i + 1, len(someThings)):
@@ -2927,6 +2932,9 @@ class MeiReader:
                 b: beam.Beam = nextThing.beams.getByNumber(beamNum)  # type: ignore
                 if b.type == 'continue':
                     b.type = 'start'
+                elif b.type == 'stop':
+                    b.type = 'partial'
+                    b.direction = 'left'
 
     def makeMetadata(self) -> m21.metadata.Metadata:
         '''
-- 
2.43.0


From 23f84291d00088f9baa0845420c3a7f227393bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:04 +0000
Subject: [PATCH 070/115] fix: read MEI tuplets given by bare @tuplet
 attributes, and where a tupletSpan with @plist starts and ends

---
 converter21/mei/meireader.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 7751f6e..f23f0b7 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -440,6 +440,8 @@ class MeiReader:
         # inTupletCount is 0 if we are not in a tuplet, and is > 0 to represent
         # how many tuplets we are nested within.
         self.inTupletCount: int = 0
+        # inTupletElementCount is the same, but only counts nested <tuplet> elements.
+        self.inTupletElementCount: int = 0
 
         self.pendingObjectsForOtherStaves: list[
             # pended, obj (from which we get offset within a measure), staffAttr
@@ -1117,9 +1119,14 @@ class MeiReader:
                 # Ideally (for us) <tupletSpan> elements will have a @plist that enumerates the
                 # @xml:id of every affected element. In this case, tupletSpanFromElement() can
                 # use the @plist to add our custom @m21TupletNum and @m21TupletNumbase attributes.
-                for eachXmlid in eachTuplet.get('plist', '').split(' '):
+                plistIds: list[str] = eachTuplet.get('plist', '').split()
+                for i, eachXmlid in enumerate(plistIds):
                     eachXmlid = MeiShared.removeOctothorpe(eachXmlid)
                     if eachXmlid:
+                        if i == 0:
+                            self.m21Attr[eachXmlid]['m21TupletType'] = 'start'
+                        elif i == len(plistIds) - 1:
+                            self.m21Attr[eachXmlid]['m21TupletType'] = 'stop'
                         numStr: str = eachTuplet.get('num', '')
                         if not numStr:
                             numStr = '3'
@@ -5024,7 +5031,7 @@ class MeiReader:
         # tuplets
         if elem.get('m21TupletNum') is not None:
             self.scaleToTuplet(theNote, elem)
-        elif self.inTupletCount == 0:
+        elif self.inTupletElementCount == 0:
             # Check for bare @tuplet start/end without m21TupletSearch, and make
             # it an m21TupletSearch 'start'/'end' for _guessTuplets to handle later.
             # Since there is no way for @num or @numbase to be specified, assume
@@ -5162,7 +5169,7 @@ class MeiReader:
         # tuplets
         if elem.get('m21TupletNum') is not None:
             self.scaleToTuplet(theRest, elem)
-        elif self.inTupletCount == 0:
+        elif self.inTupletElementCount == 0:
             # Check for bare @tuplet start/end without m21TupletSearch, and make
             # it an m21TupletSearch 'start'/'end' for _guessTuplets to handle later.
             # Since there is no way for @num or @numbase to be specified, assume
@@ -5311,7 +5318,7 @@ class MeiReader:
         # tuplets
         if elem.get('m21TupletNum') is not None:
             self.scaleToTuplet(theSpace, elem)
-        elif self.inTupletCount == 0:
+        elif self.inTupletElementCount == 0:
             # Check for bare @tuplet start/end without m21TupletSearch, and make
             # it an m21TupletSearch 'start'/'end' for _guessTuplets to handle later.
             # Since there is no way for @num or @numbase to be specified, assume
@@ -5629,7 +5636,7 @@ class MeiReader:
         # tuplets
         if elem.get('m21TupletNum') is not None:
             self.scaleToTuplet(theChord, elem)
-        elif self.inTupletCount == 0:
+        elif self.inTupletElementCount == 0:
             # Check for bare @tuplet start/end without m21TupletSearch, and make
             # it an m21TupletSearch 'start'/'end' for _guessTuplets to handle later.
             # Since there is no way for @num or @numbase to be specified, assume
@@ -6251,14 +6258,16 @@ class MeiReader:
         numPlaceStr: str | None = elem.get('num.place')
         numFormatStr: str | None = elem.get('num.format')
 
-        # iterate all immediate children (set self.inTupletCount so we know to ignore
-        # any @tuplet attributes)
+        # iterate all immediate children (set self.inTupletCount and self.inTupletElementCount
+        # so we know to ignore any @tuplet attributes)
         self.inTupletCount += 1
+        self.inTupletElementCount += 1
         tupletMembers: list[Music21Object] = self._processEmbeddedElements(
             elem.findall('*'),
             self.tupletChildrenTagToFunction,
             elem.tag,
         )
+        self.inTupletElementCount -= 1
         self.inTupletCount -= 1
 
         # "tuplet-ify" the duration of everything held within
-- 
2.43.0


From 111bc4008f78df60810c52700e902ad57b935ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:25 +0000
Subject: [PATCH 071/115] fix: escape the text of a chord symbol in a Humdrum
 layout parameter

---
 converter21/humdrum/m21convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 3b920c0..69432cc 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2365,9 +2365,10 @@ class M21Convert:
         #           elif textStyle.justify == 'center':
         #               output += ':cj'
         if hasattr(cs, 'c21_full_text'):
-            output += f':t={cs.c21_full_text}'  # type: ignore
+            fullText: str = M21Convert._cleanSpacesAndColons(cs.c21_full_text)  # type: ignore
+            output += ':t=' + fullText
         if cs.chordKindStr:
-            output += f':kt={cs.chordKindStr}'
+            output += ':kt=' + M21Convert._cleanSpacesAndColons(cs.chordKindStr)
 
         return output
 
-- 
2.43.0


From be4a024e1033c2aa7cf6c3d2ed31b81cb42408f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:27 +0000
Subject: [PATCH 072/115] fix: read flat basses and altered degrees in the text
 of an MEI chord symbol

---
 converter21/shared/m21utilities.py | 31 ++++++++++--------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index b77be7a..00fb5fd 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -3104,36 +3104,25 @@ class M21Utilities:
 
         # Note how we choose between 'b' and '-' for output ('-' for any root/bass accidentals
         # 'b' for other notes).
-        useHyphen: bool = False  # for root
+        useHyphen: bool = True  # for root
 
-        i = 0
-        while i < len(text):
-            ch = text[i]
-            if i == 0:
-                # grab root plus any accidental(s)
+        for i, ch in enumerate(text):
+            if ch == '/':
+                useHyphen = True  # for bass
                 output += ch
-                i += 1
-                while ch in M21Utilities.ACCIDENTAL_CHAR_TO_ASCII:
-                    output += M21Utilities.ACCIDENTAL_CHAR_TO_ASCII[ch]
-                    i += 1
-
-                # from now until we see a '/' (just before bass note, if present),
-                # we will change any 'b' ASCII accidental to '-'.
-                useHyphen = True
                 continue
 
-            if ch == '/':
-                useHyphen = False  # for bass
-
-            if ch in M21Utilities.ACCIDENTAL_CHAR_TO_ASCII:
+            if i > 0 and ch in M21Utilities.ACCIDENTAL_CHAR_TO_ASCII:
                 newStr: str = M21Utilities.ACCIDENTAL_CHAR_TO_ASCII[ch]
                 if useHyphen and newStr in ('b', 'bb', 'bbb'):
                     newStr = '-' * len(newStr)
                 output += newStr
-            else:
-                output += ch
+                continue
 
-            i += 1
+            output += ch
+            if i > 0 and ch not in 'ABCDEFG#-':
+                # we're past the root (or bass) and its accidentals
+                useHyphen = False
 
         return output
 
-- 
2.43.0


From 6692de991b8b1d003c19be82f3cf8606033f19ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:27 +0000
Subject: [PATCH 073/115] fix: write and read Harte chords with any bass, with
 omitted altered degrees, and a root by itself

---
 converter21/shared/m21utilities.py | 93 +++++++++++++-----------------
 1 file changed, 40 insertions(+), 53 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 00fb5fd..9c2745d 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -3333,44 +3333,17 @@ class M21Utilities:
         def hartifyBass(bass: m21.pitch.Pitch, root: m21.pitch.Pitch) -> str:
             # returns the degree of the bass note, relative to the root.
             # For example, if bass=C-flat and root=D, returns 'bb7'
-            # First, these are in the wrong octaves.  We need the bass to
-            # be less than an octave above the root so we can get an interval
-            # going up.  That way we know m21Name[-1] works to get the degree
-            # number, because we know bass is above root, by less than 8 degrees
-            # so it will be the last character of 'M3' or whatever.
+            # The octaves of root and bass don't matter.
             if bass.name == root.name:
                 return ''
 
-            newBass: m21.pitch.Pitch = deepcopy(bass)
-            newBass.octave = root.octave
-            if newBass < root:
-                # we know newBass.octave and root.octave are not None
-                newBass.octave += 1  # type: ignore
-
-            intv = m21.interval.Interval(root, newBass)
-            m21Name: str = intv.name
-            degreeNumStr: str = m21Name[-1]
-            if degreeNumStr in ('1', '4', '5'):  # won't be '8'
-                if m21Name.startswith('P'):
-                    return degreeNumStr
-                if m21Name.startswith('A'):
-                    return ('#' * m21Name.count('A')) + str(degreeNumStr)
-                if m21Name.startswith('d'):
-                    return ('b' * m21Name.count('d')) + str(degreeNumStr)
-
-            # '2', '3', '6', '7' use 'M' instead of 'P', and 'm' for the first decrement.
-            if m21Name.startswith('M'):
-                return degreeNumStr
-            if m21Name.startswith('A'):
-                return ('#' * m21Name.count('A')) + str(degreeNumStr)
-            if m21Name.startswith('m'):
-                return 'b' + degreeNumStr
-            if m21Name.startswith('d'):
-                numFlats: int = m21Name.count('d') + 1
-                return ('b' * numFlats) + degreeNumStr
-
-            # shouldn't get here
-            return degreeNumStr
+            degreeNum: int = ((bass.diatonicNoteNum - root.diatonicNoteNum) % 7) + 1
+            majorScaleSemitones: tuple[int, ...] = (0, 2, 4, 5, 7, 9, 11)
+            alter: int = int(bass.ps - root.ps) - majorScaleSemitones[degreeNum - 1]
+            alter = ((alter + 6) % 12) - 6
+            if alter > 0:
+                return ('#' * alter) + str(degreeNum)
+            return ('b' * -alter) + str(degreeNum)
 
         def modifyDegrees(
             degrees: str,
@@ -3378,29 +3351,27 @@ class M21Utilities:
             omitList: list[str],
             alterList: list[str]
         ) -> str:
-            degreeList: list[str] = []
             newDegreeList: list[str] = []
             if degrees:
-                degreeList = degrees.split(',')
-                newDegreeList = copy(degreeList)
+                newDegreeList = degrees.split(',')
             # first do the omitList
             for omit in omitList:
-                removedIt: bool = False
-                for deg in degreeList:
-                    if omit == deg:
-                        # we only remove it from current degree list if it has
-                        # the same number of #'s or b's
-                        newDegreeList.remove(deg)
-                        removedIt = True
-                if not removedIt:
+                omitInt: int = M21Utilities._degreeInt(omit)
+                keptList: list[str] = [
+                    deg for deg in newDegreeList if M21Utilities._degreeInt(deg) != omitInt
+                ]
+                if len(keptList) == len(newDegreeList):
                     # put it in the list with a '*' replacing the #'s or b's,
                     # to omit it from the degree list implied by the shorthand
-                    newDegreeList.append('*' + str(M21Utilities._degreeInt(omit)))
+                    keptList.append('*' + str(omitInt))
+                newDegreeList = keptList
 
             # then the alters (if there are alters, there is no shorthand;
-            # all the notes are represented in degreeList)
+            # all the notes are represented in newDegreeList)
             for alter in alterList:
-                for i, deg in enumerate(degreeList):
+                for i, deg in enumerate(newDegreeList):
+                    if deg.startswith('*'):
+                        continue
                     if M21Utilities._degreeInt(alter) == M21Utilities._degreeInt(deg):
                         # we alter anything with the right degree number
                         newDegreeList[i] = alter
@@ -3478,6 +3449,10 @@ class M21Utilities:
 
             degrees = modifyDegrees(degrees, addList, omitList, alterList)
 
+        if not shorthand and not degrees:
+            # only the root is left
+            degrees = '1'
+
         harte: str = harteRoot
         if shorthand or degrees:
             harte += ':'
@@ -3528,9 +3503,11 @@ class M21Utilities:
             for ch in bass:
                 if ch in '#b':
                     accid += ch
-                elif ch in '1234567':
-                    bassNum = ch
-                    break
+                else:
+                    bassNum += ch
+
+            # reduce compound degrees (9, 11, 13) to be within an octave
+            bassNum = str(((int(bassNum) - 1) % 7) + 1)
 
             bassAlter: int = accid.count('#')
             bassAlter -= accid.count('b')
@@ -3548,7 +3525,7 @@ class M21Utilities:
                 if bassAlter == -1:
                     bassIntvName = 'm' + bassNum
                 elif bassAlter < -1:
-                    bassIntvName = ('d' * (bassAlter - 1)) + bassNum
+                    bassIntvName = ('d' * (-bassAlter - 1)) + bassNum
                 elif bassAlter > 0:
                     bassIntvName = ('A' * bassAlter) + bassNum
                 else:
@@ -3590,6 +3567,10 @@ class M21Utilities:
         if bass:
             bassPitch = deHartifyBass(bass, rootPitch)
 
+        if not shorthand and not degrees:
+            # in Harte syntax, a root by itself is a major triad
+            shorthand = 'maj'
+
         degreeList: list[str] = degrees.split(',') if degrees else []
         if shorthand:
             # add the implied degrees to degreeList
@@ -3605,6 +3586,12 @@ class M21Utilities:
                 for remDeg in removeList:
                     if remDeg in impliedDegList:
                         impliedDegList.remove(remDeg)
+                    else:
+                        # e.g. the '*3' in 'C:min(*3)' removes the 'b3' implied by 'min'
+                        impliedDegList = [
+                            deg for deg in impliedDegList
+                            if M21Utilities._degreeInt(deg) != M21Utilities._degreeInt(remDeg)
+                        ]
                     if '*' + remDeg in degreeList:
                         degreeList.remove('*' + remDeg)
 
-- 
2.43.0


From 13a19e9b9bc479192c0e264fd6bd02daa7638224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:18 +0000
Subject: [PATCH 074/115] fix: write the written octave of chords in a
 non-transposing ottava to MEI

---
 converter21/mei/m21objectconvert.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index 691f500..fd2f905 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -240,7 +240,9 @@ class M21ObjectConvert:
         M21ObjectConvert.m21ArticulationsToMei(obj.articulations, tb)
         M21ObjectConvert.m21LyricsToMei(obj.lyrics, tb)
         for note in obj.notes:
-            M21ObjectConvert._noteToMei(note, spannerBundle, tb, withDuration=False)
+            M21ObjectConvert._noteToMei(
+                note, spannerBundle, tb, withDuration=False, noteOrChord=obj
+            )
         tb.end('chord')
 
     @staticmethod
@@ -337,8 +339,11 @@ class M21ObjectConvert:
         note: m21.note.Note | m21.note.Unpitched,
         spannerBundle: m21.spanner.SpannerBundle,
         tb: TreeBuilder,
-        withDuration: bool
+        withDuration: bool,
+        noteOrChord: m21.note.NotRest | None = None
     ) -> None:
+        # noteOrChord is the chord the note is in, if there is one (it's the chord that
+        # is in any spanners).
         attr: dict[str, str] = {}
         xmlId: str = M21Utilities.getXmlId(note)
         if xmlId:
@@ -362,7 +367,10 @@ class M21ObjectConvert:
             octaveShift: int
             ottavaTransposes: bool
             octaveShift, ottavaTransposes = (
-                M21ObjectConvert._getOttavaShiftAndTransposing(note, spannerBundle)
+                M21ObjectConvert._getOttavaShiftAndTransposing(
+                    noteOrChord if noteOrChord is not None else note,
+                    spannerBundle
+                )
             )
             if octaveShift == 0:
                 attr['oct'] = str(note.pitch.implicitOctave)
-- 
2.43.0


From f4bfea501a5904d84dcc14bafbe2df66326dc2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 075/115] fix: write the transposition of transposing
 instruments to MEI, and their notes at written pitch

---
 converter21/mei/meiscore.py  | 19 +++++++++++++++++--
 converter21/mei/meiwriter.py | 25 +++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index 52cbf6a..d662800 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -239,10 +239,25 @@ class MeiScore:
         if initialStaffLayout and initialStaffLayout.staffLines is not None:
             staffLines = initialStaffLayout.staffLines
 
-        tb.start('staffDef', {
+        attr: dict[str, str] = {
             'n': str(staffN),
             'lines': str(staffLines)
-        })
+        }
+
+        # transposition (from written pitch to sounding pitch, in both MEI and music21)
+        for inst in part.getElementsByClass(m21.instrument.Instrument):
+            if not M21Utilities.isTransposingInstrument(inst):
+                continue
+            trans: m21.interval.Interval | None = inst.transposition
+            if trans is None or trans.generic is None:
+                continue
+            steps: int = trans.generic.value
+            # diatonic step count is generic interval type shifted 1 closer to 0
+            attr['trans.diat'] = str(steps + 1 if steps < 0 else steps - 1)
+            attr['trans.semi'] = str(int(trans.semitones))
+            break
+
+        tb.start('staffDef', attr)
 
         # clef
         clef: m21.clef.Clef | None = part.clef
diff --git a/converter21/mei/meiwriter.py b/converter21/mei/meiwriter.py
index 47e3f6e..4b3a774 100644
--- a/converter21/mei/meiwriter.py
+++ b/converter21/mei/meiwriter.py
@@ -48,6 +48,28 @@ class MeiWriter:
         # client can set to '4' or '5' (or anything starting with '4' or '5')
         self.meiVersion: str = '5'
 
+    def _scoreAtWrittenPitch(self, score: m21.stream.Score) -> m21.stream.Score:
+        def needsTransposition(part: m21.stream.Part) -> bool:
+            if part.atSoundingPitch is not True:  # might be 'unknown' or False
+                return False
+            for inst in part.getElementsByClass(m21.instrument.Instrument):
+                if M21Utilities.isTransposingInstrument(inst):
+                    return True
+            return False
+
+        if not any(needsTransposition(part) for part in score.parts):
+            return score
+
+        if not self.makeNotation:
+            # it's still the client's score
+            score = score.coreCopyAsDerivation('MeiWriter.write')
+            M21Utilities.restoreSpannedElementOrder(score)
+
+        for part in score.parts:
+            if needsTransposition(part):
+                part.toWrittenPitch(inPlace=True, preserveAccidentalDisplay=True)
+        return score
+
     def write(self, fp) -> bool:
         if self.makeNotation:
             self._m21Score = M21Utilities.makeScoreFromObject(self._m21Object)
@@ -72,6 +94,9 @@ class MeiWriter:
         if err:
             raise MeiExportError(err)
 
+        # MEI notes are at written pitch
+        self._m21Score = self._scoreAtWrittenPitch(self._m21Score)
+
         # Here we convert a music21 Score to an MeiScore. It's still all m21 objects, but
         # the object structure is MEI-like. For example:
         #   music21 scores are {Staff1(Measure1 .. MeasureN), Staff2(Measure1 .. MeasureN)}
-- 
2.43.0


From c7bd8d1223cb0c32b6ba822f7b44cffc6026c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:56 +0000
Subject: [PATCH 076/115] fix: read an MEI octave that starts or ends on a
 space

---
 converter21/mei/meireader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index f23f0b7..afae85e 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -5310,7 +5310,8 @@ class MeiReader:
         if xmlId is not None:
             theSpace.id = xmlId
 
-        # yes, sometimes hairpins/dirs/dynams/tempos are attached to spaces
+        # yes, sometimes octaves/hairpins/dirs/dynams/tempos are attached to spaces
+        self.addOttavas(elem, theSpace)
         self.addHairpins(elem, theSpace)
         self.addPedals(elem, theSpace)
         self.addDirsDynamsTempos(elem, theSpace)
-- 
2.43.0


From 19701877e557b71ded04bd6c0a9a09b054da575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:18 +0000
Subject: [PATCH 077/115] fix: put every grace note at the start of an ottava
 into it

---
 converter21/humdrum/eventdata.py   |  4 +++-
 converter21/humdrum/humdrumfile.py |  2 +-
 converter21/mei/meireader.py       |  2 +-
 converter21/mei/meiscore.py        |  2 +-
 converter21/shared/m21utilities.py | 37 ++++++++++++++++++++++++++++++
 5 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/converter21/humdrum/eventdata.py b/converter21/humdrum/eventdata.py
index ed9a41c..64771d9 100644
--- a/converter21/humdrum/eventdata.py
+++ b/converter21/humdrum/eventdata.py
@@ -99,7 +99,9 @@ class EventData:
             if ottava.transposing:
                 # Convert the Ottava to a non-transposing Ottava by transposing all pitches
                 # to their sounding octave.  This makes the Humdrum notes export correctly.
-                ottava.fill(self.ownerMeasure.ownerStaff.m21PartStaff)
+                M21Utilities.fillOttava(
+                    ottava, self.ownerMeasure.ownerStaff.m21PartStaff
+                )
                 ottava.performTransposition()
 
         # element.classes is a tuple containing the names (strings, not objects) of classes
diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index df2368f..e25f255 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -724,7 +724,7 @@ class HumdrumFile(HumdrumFileContent):
                     # is what spanner.fill assumes.  So find that element, remove and
                     # re-add it, so that it is the last element in the ottava.
                     M21Utilities.adjustSpannerOrder(sp, ss.m21Part)
-                    sp.fill(ss.m21Part)
+                    M21Utilities.fillOttava(sp, ss.m21Part)
 
         # Transpose any transposing instrument parts (or parts with ottavas) to "written pitch".
         # For performance, check the instruments/ottavas here, since stream.toWrittenPitch can
diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index afae85e..34c8a33 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -9490,7 +9490,7 @@ class MeiReader:
                         )
                         break
                     partIdx = allPartNs.index(staffN)
-                    sp.fill(thePartList[partIdx])
+                    M21Utilities.fillOttava(sp, thePartList[partIdx])
                 continue
 
             if M21Utilities.m21PedalMarksSupported() and isinstance(sp, m21.expressions.PedalMark):
diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index d662800..b975659 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -553,7 +553,7 @@ class MeiScore:
             if not M21Utilities.isIn(spanner, spannerBundle):
                 continue
             if spanner.isFirst(obj):
-                spanner.fill(part)
+                M21Utilities.fillOttava(spanner, part)
 
     def deannotateScore(self) -> None:
         for sp in list(self.m21Score[M21TemporarySpanner]):
diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 9c2745d..1ac542f 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1110,6 +1110,43 @@ class M21Utilities:
         # Weirdly, music21 doesn't derive Organ from KeyboardInstrument, go figure.  Check both.
         return isinstance(inst, (m21.instrument.KeyboardInstrument, m21.instrument.Organ))
 
+    @staticmethod
+    def fillOttava(ottava: m21.spanner.Ottava, s: m21.stream.Stream):
+        # Spanner.fill leaves out zero-length elements at the start of the spanner, so if
+        # an ottava starts with several grace notes, only the first of them ends up in it.
+        if ottava.filledStatus is True:
+            return
+
+        ottava.fill(s)
+
+        first: m21.base.Music21Object | None = ottava.getFirst()
+        if first is None or not first.duration.isGrace:
+            return
+        if not M21Utilities.isIn(first, s.recurse()):
+            return
+
+        offset: OffsetQL = first.getOffsetInHierarchy(s)
+        seenFirst: bool = False
+        graces: list[m21.note.GeneralNote] = []
+        for gn in s.recurse().getElementsByClass(m21.note.GeneralNote):
+            if gn is first:
+                seenFirst = True
+            elif (gn.duration.isGrace
+                    and gn.getOffsetInHierarchy(s) == offset
+                    and (seenFirst or gn.activeSite is not first.activeSite)
+                    and not M21Utilities.isIn(gn, ottava.getSpannedElements())):
+                graces.append(gn)
+
+        if not graces:
+            return
+
+        last: m21.base.Music21Object | None = ottava.getLast()
+        if last is not None and last is not first:
+            # keep the last element last
+            ottava.spannerStorage.remove(last)
+            graces.append(last)  # type: ignore
+        ottava.addSpannedElements(graces)
+
     @staticmethod
     def adjustSpannerOrder(sp: m21.spanner.Spanner, s: m21.stream.Stream):
         # the adjustment is that we move the element with the smallest offsetInHierarchy(s)
-- 
2.43.0


From 7a2a7326e42fb8a3fdc893749fe53d046a952860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:20 +0000
Subject: [PATCH 078/115] fix: end a Humdrum ottava on a note rather than on a
 rest that goes on after it

---
 converter21/humdrum/humdrumfile.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index e25f255..73b5e67 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -2547,6 +2547,13 @@ class HumdrumFile(HumdrumFileContent):
 
         track: int | None = tok.track
         ttrack: int | None = track
+
+        # look at all the voices in the staff, starting with the first
+        prevTok: HumdrumToken | None = tok.previousFieldToken
+        while prevTok is not None and prevTok.track == track:
+            tok = prevTok
+            prevTok = tok.previousFieldToken
+
         notes: list[HumdrumToken] = []
         timestamps: list[HumNum] = []
 
@@ -2573,9 +2580,12 @@ class HumdrumFile(HumdrumFileContent):
         if not notes:
             return None
 
+        # rests (unlike notes) might start before the ottava or go on after it, so we
+        # prefer notes.
         bestIndex: int = 0
         for i in range(1, len(notes)):
-            if timestamps[i] > timestamps[bestIndex]:
+            if ((not notes[i].isRest, timestamps[i])
+                    > (not notes[bestIndex].isRest, timestamps[bestIndex])):
                 bestIndex = i
 
         return notes[bestIndex]
-- 
2.43.0


From 8eb1196713936ff8c690d2da044e23d6e2bd75b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 079/115] fix: read an MEI octave that ends in an earlier voice
 than it starts in

---
 converter21/mei/meireader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 34c8a33..17e9073 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -9490,6 +9490,8 @@ class MeiReader:
                         )
                         break
                     partIdx = allPartNs.index(staffN)
+                    # the end might be in an earlier voice than the start
+                    M21Utilities.adjustSpannerOrder(sp, thePartList[partIdx])
                     M21Utilities.fillOttava(sp, thePartList[partIdx])
                 continue
 
-- 
2.43.0


From 8547c1d58716f5d185cb4204883572b913986521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:04 +0000
Subject: [PATCH 080/115] fix: do not invent a transposition for an MEI staff
 from its label

---
 converter21/mei/meireader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 17e9073..ce564a6 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -3848,6 +3848,11 @@ class MeiReader:
                 pass
 
         # --> transposition
+        # Clear out any transposition that the instrument (name) implied to music21, since we
+        # need to only trust the MEI transposition information.
+        if inst is not None:
+            inst.transposition = None
+
         if elem.get('trans.semi') is not None:
             if inst is None:
                 # make an instrument, or the transposition will be lost
-- 
2.43.0


From aac13bdeeb209e24668ea2d6078bbc7ccdda3fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:31 +0000
Subject: [PATCH 081/115] fix: keep the order of MEI staves around nested staff
 groups

---
 converter21/mei/meireader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index ce564a6..aa3d023 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -3642,17 +3642,28 @@ class MeiReader:
                 staffGroups[0].abbreviation = (
                     inst.partAbbreviation or inst.instrumentAbbreviation or ''
                 )
+        elif groupDescTree.instrument:
+            # a labeled group of several instruments
+            if groupDescTree.instrument.partName:
+                staffGroups[0].name = groupDescTree.instrument.partName
+            if groupDescTree.instrument.partAbbreviation:
+                staffGroups[0].abbreviation = groupDescTree.instrument.partAbbreviation
 
         part: m21.stream.Part | m21.stream.PartStaff
         for subgroup in groupDescTree.children:
-            firstStaffIdInSubgroup: int | str = subgroup.staffIds[0]
+            if not subgroup.staffIds:
+                continue
+            # groupDescTree.staffIds has all the (owned or not) staff ids in score order
+            staffIdsBeforeSubgroup: list[int | str] = groupDescTree.staffIds[
+                :groupDescTree.staffIds.index(subgroup.staffIds[0])
+            ]
 
             # 1. any owned group just before this subgroup
             # (while loop will not execute if there is no owned group before this subgroup)
             for ownedStaffId, ownedStaffInstrument in zip(
                 groupDescTree.ownedStaffIds, groupDescTree.ownedStaffInstruments
             ):
-                if ownedStaffId == firstStaffIdInSubgroup:
+                if ownedStaffId not in staffIdsBeforeSubgroup:
                     # we're done with this owned group (there may be another one later)
                     break
 
-- 
2.43.0


From f4b311b05e574ed5156e5985c0009162208bd385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:31 +0000
Subject: [PATCH 082/115] fix: read a multi-staff instrument next to an unnamed
 MEI staff

---
 converter21/mei/meireader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index aa3d023..0e5e42a 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -3573,6 +3573,12 @@ class MeiReader:
             if M21Utilities.isMultiStaffInstrument(groupDescTree.instrument):
                 return True
 
+            for child in groupDescTree.children:
+                if (len(child.staffIds) < numStaves
+                        and MeiReader._groupShouldContainPartStaffs(child)):
+                    # a multi-staff instrument and something else
+                    return False
+
             commonMultiStaffInstrument: m21.instrument.Instrument | None = None
             for inst in groupDescTree.staffInstruments:
                 if inst is None:
-- 
2.43.0


From 1b1d7c1bab8023bece3baada53a2b83aff45cd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:31 +0000
Subject: [PATCH 083/115] fix: do not name a Humdrum staff group after one of
 several parts

---
 converter21/humdrum/humdrumfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 73b5e67..6949e55 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -11888,6 +11888,9 @@ class HumdrumFile(HumdrumFileContent):
         for part in staffGroup.getSpannedElements():
             inst = part.getInstrument(returnDefault=False)
             if inst is None:
+                if not isinstance(part, m21.stream.PartStaff):
+                    # a different (unnamed) part, so the group has no common instrument
+                    return
                 continue
             if commonInstrument is None:
                 commonInstrument = inst
-- 
2.43.0


From 2c3bac871fa15c52abc1ce67b727e9e549d35568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:31 +0000
Subject: [PATCH 084/115] fix: keep a Humdrum instrument abbreviation equal to
 the name

---
 converter21/humdrum/humdrumfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 6949e55..d939c65 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -12095,7 +12095,7 @@ class HumdrumFile(HumdrumFileContent):
             if m21Inst is not None:
                 m21Inst.transposition = None
 
-            if iAbbrev and iAbbrev != iName:
+            if iAbbrev:
                 m21Inst.instrumentAbbreviation = iAbbrev
             if iTranspose:
                 # Here's where we pick up the exact instrument transposition
-- 
2.43.0


From 61590862e52c5bb2c1903c808b0ca104337a053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:31 +0000
Subject: [PATCH 085/115] fix: a harp is a multi-staff instrument

---
 converter21/shared/m21utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 1ac542f..eed04e1 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1108,7 +1108,9 @@ class M21Utilities:
             return False
 
         # Weirdly, music21 doesn't derive Organ from KeyboardInstrument, go figure.  Check both.
-        return isinstance(inst, (m21.instrument.KeyboardInstrument, m21.instrument.Organ))
+        return isinstance(inst, (
+            m21.instrument.KeyboardInstrument, m21.instrument.Organ, m21.instrument.Harp
+        ))
 
     @staticmethod
     def fillOttava(ottava: m21.spanner.Ottava, s: m21.stream.Stream):
-- 
2.43.0


From 0af0bafe70ecd7b7247df5fbc9b37ed3819f59ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:31 +0000
Subject: [PATCH 086/115] fix: export two multi-staff parts in one staff group
 to Humdrum

---
 converter21/humdrum/scoredata.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/converter21/humdrum/scoredata.py b/converter21/humdrum/scoredata.py
index 8c5ef1a..2864481 100644
--- a/converter21/humdrum/scoredata.py
+++ b/converter21/humdrum/scoredata.py
@@ -78,7 +78,22 @@ class ScoreData:
             containedParts = tuple(jg)
             if containedParts not in permutations:
                 deduplicatedGroups.append(jg)
+            elif jg.name or jg.abbreviation:
+                # prefer a named group
+                deduplicatedGroups = [
+                    jg if tuple(other) == containedParts and not other.name else other
+                    for other in deduplicatedGroups
+                ]
             permutations.add(containedParts)
+        # A group that contains a whole joinable group (ex: bracket around two pianos) is
+        # not itself one part.
+        deduplicatedGroups = [
+            jg for jg in deduplicatedGroups
+            if not any(
+                len(other) < len(jg) and all(p in jg for p in other)
+                for other in deduplicatedGroups
+            )
+        ]
         joinableGroups = deduplicatedGroups
 
         # But forbid overlapping, spaghetti staffGroups
-- 
2.43.0


From 07043f0ad827022d35d75a88c582cdfecb47af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:02 +0000
Subject: [PATCH 087/115] fix: write the name of a staff group of staves in
 Humdrum export

---
 converter21/humdrum/partdata.py  | 7 ++++++-
 converter21/humdrum/scoredata.py | 7 +++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/converter21/humdrum/partdata.py b/converter21/humdrum/partdata.py
index bcd4c7b..ff713c3 100644
--- a/converter21/humdrum/partdata.py
+++ b/converter21/humdrum/partdata.py
@@ -32,7 +32,8 @@ class PartData:
             partStaves: list[m21.stream.Part],    # or PartStaff (derived from Part)
             ownerScore,                             # ScoreData
             partIndex: int,
-            humdrumStartingStaffNum
+            humdrumStartingStaffNum,
+            staffGroup: m21.layout.StaffGroup | None = None
     ) -> None:
         from converter21.humdrum import ScoreData
         self.ownerScore: ScoreData = ownerScore
@@ -50,6 +51,10 @@ class PartData:
 
         self._partName: str = self._findPartName(partStaves)
         self._partAbbrev: str = self._findPartAbbrev(partStaves)
+        if staffGroup is not None:
+            # the name of a multi-staff part may be on its StaffGroup only
+            self._partName = self._partName or staffGroup.name or ''
+            self._partAbbrev = self._partAbbrev or staffGroup.abbreviation or ''
 
     @property
     def partIndex(self) -> int:
diff --git a/converter21/humdrum/scoredata.py b/converter21/humdrum/scoredata.py
index 2864481..045ac1b 100644
--- a/converter21/humdrum/scoredata.py
+++ b/converter21/humdrum/scoredata.py
@@ -30,8 +30,6 @@ from converter21.humdrum import PartData
 funcName = lambda n=0: sys._getframe(n + 1).f_code.co_name + ':'  # pragma no cover
 # pylint: enable=protected-access
 
-# TODO: pass StaffGroup into PartData() so we have another source of partName/partAbbrev
-
 class ScoreData:
     def __init__(self, score: m21.stream.Score, ownerWriter) -> None:
         from converter21.humdrum import HumdrumWriter
@@ -118,13 +116,14 @@ class ScoreData:
             humdrumStartingStaffNum: int = self.humdrumStartingStaffNumsByPartPtr[id(part)]
             if 'PartStaff' in part.classes and part in groupedParts:
                 # make a new partData entry for these PartStaffs and fill it
-                for partStaffList in partsWithMoreThanOneStaff:
+                for jg, partStaffList in zip(joinableGroups, partsWithMoreThanOneStaff):
                     if part in partStaffList:
                         partOfStavesData: PartData = PartData(
                             partStaffList,
                             self,
                             len(self.parts),
-                            humdrumStartingStaffNum
+                            humdrumStartingStaffNum,
+                            jg
                         )
                         humdrumStartingStaffNum += len(partStaffList)
                         self.parts.append(partOfStavesData)
-- 
2.43.0


From bdc316b9301581b9c6c80929bcbc8d00cdc9ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:02 +0000
Subject: [PATCH 088/115] fix: write part names and abbreviations in MEI export

---
 converter21/mei/meiscore.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index b975659..66d675a 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -224,7 +224,8 @@ class MeiScore:
         self,
         part: m21.stream.Part,
         staffN: int,
-        tb: TreeBuilder
+        tb: TreeBuilder,
+        staffGroup: m21.layout.StaffGroup | None = None
     ):
         # staffLines (defaults to 5)
         staffLines: int = 5
@@ -259,6 +260,16 @@ class MeiScore:
 
         tb.start('staffDef', attr)
 
+        # name and abbreviation (the staves of a multi-staff instrument share those of the group)
+        staffName: str = part.partName or ''
+        staffAbbrev: str = part.partAbbreviation or ''
+        if staffGroup is not None and isinstance(part, m21.stream.PartStaff):
+            if staffName == staffGroup.name:
+                staffName = ''
+            if staffAbbrev == staffGroup.abbreviation:
+                staffAbbrev = ''
+        self.makeLabelElements(staffName, staffAbbrev, tb)
+
         # clef
         clef: m21.clef.Clef | None = part.clef
         if clef is None:
@@ -324,6 +335,17 @@ class MeiScore:
 
         tb.end('staffDef')
 
+    @staticmethod
+    def makeLabelElements(name: str | None, abbreviation: str | None, tb: TreeBuilder) -> None:
+        if name:
+            tb.start('label', {})
+            tb.data(name)
+            tb.end('label')
+        if abbreviation:
+            tb.start('labelAbbr', {})
+            tb.data(abbreviation)
+            tb.end('labelAbbr')
+
     _M21_STAFFGROUP_SYMBOL_TO_MEI: dict[str | None, str] = {
         # m21 symbol can be 'brace', 'bracket', 'square', 'line', None
         # mei symbol can be 'brace', 'bracket', 'bracketsq', 'line', 'none'
@@ -336,11 +358,6 @@ class MeiScore:
 
     def makeStaffGrpElement(self, sgtree: M21StaffGroupTree, tb: TreeBuilder) -> list[int]:
         attr: dict[str, str] = {}
-        if sgtree.staffGroup.name:
-            attr['label'] = sgtree.staffGroup.name
-        elif sgtree.staffGroup.abbreviation:
-            attr['label'] = sgtree.staffGroup.abbreviation
-
         if sgtree.staffGroup.barTogether == 'Mensurstrich':
             attr['bar.method'] = 'mensur'
         elif sgtree.staffGroup.barTogether is False:
@@ -351,6 +368,9 @@ class MeiScore:
         attr['symbol'] = self._M21_STAFFGROUP_SYMBOL_TO_MEI[sgtree.staffGroup.symbol]
 
         tb.start('staffGrp', attr)
+        self.makeLabelElements(
+            sgtree.staffGroup.name, sgtree.staffGroup.abbreviation, tb
+        )
 
         part: m21.stream.Part
         staffNumsToProcess: set[int] = set(sgtree.staffNums)
@@ -367,7 +387,7 @@ class MeiScore:
                     continue
 
                 part = self.m21PartsForStaffNumbers[staffNum]
-                self.makeStaffDefElement(part, staffNum, tb)
+                self.makeStaffDefElement(part, staffNum, tb, sgtree.staffGroup)
                 staffNumsToProcess.remove(staffNum)
                 staffNums.append(staffNum)
 
@@ -382,7 +402,7 @@ class MeiScore:
         remainder: list[int] = sorted(list(staffNumsToProcess))
         for staffNum in remainder:
             part = self.m21PartsForStaffNumbers[staffNum]
-            self.makeStaffDefElement(part, staffNum, tb)
+            self.makeStaffDefElement(part, staffNum, tb, sgtree.staffGroup)
             staffNumsToProcess.remove(staffNum)
             staffNums.append(staffNum)
 
-- 
2.43.0


From 67515a2ca33eda47a407b8973c7d1b1a67523e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:34 +0000
Subject: [PATCH 089/115] fix: leave the caller's score alone in MEI export
 without makeNotation

---
 converter21/mei/meiwriter.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/converter21/mei/meiwriter.py b/converter21/mei/meiwriter.py
index 4b3a774..b702842 100644
--- a/converter21/mei/meiwriter.py
+++ b/converter21/mei/meiwriter.py
@@ -60,11 +60,6 @@ class MeiWriter:
         if not any(needsTransposition(part) for part in score.parts):
             return score
 
-        if not self.makeNotation:
-            # it's still the client's score
-            score = score.coreCopyAsDerivation('MeiWriter.write')
-            M21Utilities.restoreSpannedElementOrder(score)
-
         for part in score.parts:
             if needsTransposition(part):
                 part.toWrittenPitch(inPlace=True, preserveAccidentalDisplay=True)
@@ -81,7 +76,9 @@ class MeiWriter:
             if not self._m21Object.isWellFormedNotation():
                 print('Source obj is not well-formed; see isWellFormedNotation()', file=sys.stderr)
 
-            self._m21Score = self._m21Object
+            # MeiScore annotates (and modifies) the score, so work on a copy
+            self._m21Score = self._m21Object.coreCopyAsDerivation('MeiWriter.write')
+            M21Utilities.restoreSpannedElementOrder(self._m21Score)
         del self._m21Object  # everything after this uses self._m21Score
 
         # Check that all parts have the same number of measures, and that
-- 
2.43.0


From 5096ae2325c250f2e941cab33ee72681591b5c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 090/115] fix: leave the caller's hidden rests alone in Humdrum
 export

---
 converter21/humdrum/humdrumwriter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/converter21/humdrum/humdrumwriter.py b/converter21/humdrum/humdrumwriter.py
index 89ccd8e..f406b03 100755
--- a/converter21/humdrum/humdrumwriter.py
+++ b/converter21/humdrum/humdrumwriter.py
@@ -355,12 +355,11 @@ class HumdrumWriter:
         # concert pitch, fixing durations, etc), so we need to make a copy of the input
         # stream before we start.
         if isinstance(self._m21Object, m21.stream.Stream):
-            # before deepcopying, fix up any complex hidden rests (so the input score can be
-            # visualized).  This should have been done by whoever created the input score,
-            # but let's at least fix it up now.
-            M21Utilities.fixupComplexHiddenRests(self._m21Object, inPlace=True)
             self._m21Object = self._m21Object.coreCopyAsDerivation('HumdrumWriter.write')
             M21Utilities.restoreSpannedElementOrder(self._m21Object)
+            # fix up any complex hidden rests in the copy (this should have been done by
+            # whoever created the input score, but let's at least fix it up now).
+            M21Utilities.fixupComplexHiddenRests(self._m21Object, inPlace=True)
 
         # Second: turn the object into a well-formed Score (someone might have passed in a single
         # note, for example).  This code is swiped from music21 v7's musicxml exporter.  The hope
-- 
2.43.0


From f34941106fc736871fcdbb0571df8daac42d4b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:25 +0000
Subject: [PATCH 091/115] fix: accept a byte order mark and all line endings in
 Humdrum text

---
 converter21/humdrum/humdrumfilebase.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index c8f1bde..8946768 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -334,6 +334,11 @@ class HumdrumFileBase(HumHash):
     //    an istream or filename.
     '''
     def readString(self, contents: str) -> bool:
+        # lose any byte order mark, and accept all line endings (as when reading a file)
+        if contents.startswith('\ufeff'):
+            contents = contents[1:]
+        contents = contents.replace('\r\n', '\n').replace('\r', '\n')
+
         if contents.endswith('\n'):
             contents = contents[0:-1]  # lose that last empty line (many editors add it)
 
-- 
2.43.0


From bad0b61c25534f58e7bbc4039ec23d8186d334b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:25 +0000
Subject: [PATCH 092/115] fix: report a Humdrum file that cannot be parsed on
 the command line

---
 converter21/__main__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/converter21/__main__.py b/converter21/__main__.py
index 7905602..682ef91 100644
--- a/converter21/__main__.py
+++ b/converter21/__main__.py
@@ -149,6 +149,12 @@ if __name__ == "__main__":
         forceSource=not args.cached_parse_ok
     )
 
+    # converter21 returns an (incomplete) score for a Humdrum file it cannot parse
+    parseErr: str = getattr(s, 'c21_parse_err', '')
+    if parseErr:
+        print(f'Input file could not be parsed: {parseErr}', file=sys.stderr)
+        sys.exit(1)
+
     # check validity of outputFormat
     if args.output_to not in getOutputFormatsList():
         print('Output format \'{args.output_to}\' not supported.', file=sys.stderr)
-- 
2.43.0


From 08d8578d72a254c8c02f05e2331fd184eb061d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:25 +0000
Subject: [PATCH 093/115] fix: do not register the converters twice

---
 converter21/__init__.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/converter21/__init__.py b/converter21/__init__.py
index 1ad5625..d49fe21 100644
--- a/converter21/__init__.py
+++ b/converter21/__init__.py
@@ -50,9 +50,18 @@ def register(
     # (this also allows converter21 to do so as well).
     M21Utilities.adjustMusic21Behavior()
 
+    def replaceSubConverter(oldConverter, newConverter):
+        if newConverter in m21.converter.Converter().subConvertersList():
+            # don't register it twice
+            m21.converter.unregisterSubConverter(newConverter)
+        m21.converter.unregisterSubConverter(oldConverter)
+        m21.converter.registerSubConverter(newConverter)
+
     if ConverterName.HUMDRUM in converterNames:
-        m21.converter.unregisterSubConverter(m21.converter.subConverters.ConverterHumdrum)
-        m21.converter.registerSubConverter(HumdrumConverter)
+        replaceSubConverter(
+            m21.converter.subConverters.ConverterHumdrum, HumdrumConverter
+        )
     if ConverterName.MEI in converterNames:
-        m21.converter.unregisterSubConverter(m21.converter.subConverters.ConverterMEI)
-        m21.converter.registerSubConverter(MEIConverter)
+        replaceSubConverter(
+            m21.converter.subConverters.ConverterMEI, MEIConverter
+        )
-- 
2.43.0


From 8d9905a71006bbd8f0ee3236a2e367c8b3d891a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:25 +0000
Subject: [PATCH 094/115] fix: leave no output file behind when an export fails

---
 converter21/HumdrumConverter.py | 6 +++++-
 converter21/MEIConverter.py     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/converter21/HumdrumConverter.py b/converter21/HumdrumConverter.py
index a0927f7..fb76b80 100644
--- a/converter21/HumdrumConverter.py
+++ b/converter21/HumdrumConverter.py
@@ -9,6 +9,7 @@
 # Copyright:     (c) 2021-2023 Greg Chapman
 # License:       MIT, see LICENSE
 # ------------------------------------------------------------------------------
+import io
 from pathlib import Path
 
 from music21 import common
@@ -115,7 +116,10 @@ class HumdrumConverter(SubConverter):
         hdw.addRecipSpine = addRecipSpine
         hdw.expandTremolos = expandTremolos
 
+        # don't create (or overwrite) the file if the export fails
+        output = io.StringIO()
+        hdw.write(output)
         with open(fp, 'w', encoding='utf8') as f:
-            hdw.write(f)
+            f.write(output.getvalue())
 
         return fp
diff --git a/converter21/MEIConverter.py b/converter21/MEIConverter.py
index a5cfe52..39df7d2 100644
--- a/converter21/MEIConverter.py
+++ b/converter21/MEIConverter.py
@@ -10,6 +10,7 @@
 # License:       MIT, see LICENSE
 #
 # ------------------------------------------------------------------------------
+import io
 import typing as t
 import pathlib
 
@@ -122,7 +123,10 @@ class MEIConverter(SubConverter):
         meiw.makeNotation = makeNotation
         meiw.meiVersion = meiVersion
 
+        # don't create (or overwrite) the file if the export fails
+        output = io.StringIO()
+        meiw.write(output)
         with open(fp, 'wt', encoding='utf-8') as f:
-            meiw.write(f)
+            f.write(output.getvalue())
 
         return fp
-- 
2.43.0


From ea4e18cc5996e5fc57e8a1b069419ae5f36947d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:55 +0000
Subject: [PATCH 095/115] fix: export metadata with a language and without a
 Humdrum key

---
 converter21/humdrum/m21convert.py  | 4 ++--
 converter21/shared/m21utilities.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 69432cc..85e544c 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -3432,7 +3432,7 @@ class M21Convert:
             if uniqueName.startswith('humdrumraw:'):
                 hdKey = uniqueName[11:]
 
-        if isinstance(value, m21.metadata.Text):
+        if hdKey is not None and isinstance(value, m21.metadata.Text):
             if value.language:
                 if value.isTranslated:
                     hdKey += '@' + value.language.upper()
@@ -3506,7 +3506,7 @@ class M21Convert:
                 hdKey = uniqueName
 
             if isinstance(value, m21.metadata.Contributor):
-                if value._names[0].language:
+                if value._names and value._names[0].language:
                     if value._names[0].isTranslated:
                         hdKey += '@' + value._names[0].language.upper()
                     else:
diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index eed04e1..6b1e4d6 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2759,7 +2759,10 @@ class M21Utilities:
         return ''
 
     @staticmethod
-    def contributorRoleToHumdrumReferenceKey(role: str) -> str:
+    def contributorRoleToHumdrumReferenceKey(role: str | None) -> str:
+        if not role:
+            return ''
+
         output: str = (
             M21Utilities.m21MetadataPropertyUniqueNameToHumdrumReferenceKey.get(
                 role, ''
-- 
2.43.0


From e46df89fddb9b7c0a46c81253d1906b332244142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:55 +0000
Subject: [PATCH 096/115] fix: keep the language of performers and editors in
 Humdrum export

---
 converter21/humdrum/m21convert.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 85e544c..9171234 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -3440,19 +3440,32 @@ class M21Convert:
                     hdKey += '@@' + value.language.upper()
         return hdKey
 
+    @staticmethod
+    def escapeHtmlEntities(text: str) -> str:
+        # if the text contains something that looks like an HTML entity, it would
+        # be replaced when the Humdrum file is read
+        if html.unescape(text) != text:
+            text = text.replace('&', '&amp;')
+        return text
+
     @staticmethod
     def humdrumMetadataItemToHumdrumReferenceLineStr(
         idx: int,
         hdKey: str,
         value: t.Any
     ) -> str | None:
-        valueStr: str = M21Utilities.m21MetadataValueToString(value)
+        valueStr: str = M21Convert.escapeHtmlEntities(
+            M21Utilities.m21MetadataValueToString(value)
+        )
         refLineStr: str = ''
 
         if idx > 0:
             # we generate 'XXX', 'XXX1', 'XXX2', etc
             hdKey += str(idx)
 
+        if isinstance(value, m21.metadata.Contributor):
+            value = value._names[0] if value._names else None
+
         if isinstance(value, m21.metadata.Text):
             if value.language:
                 if value.isTranslated:
-- 
2.43.0


From 392e7b81079a9b1698c9e287fa85dc654700a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:55 +0000
Subject: [PATCH 097/115] fix: escape texts that look like HTML entities in
 Humdrum reference records

---
 converter21/humdrum/m21convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 9171234..f641b34 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -13,6 +13,7 @@
 #    All methods are static.  M21Convert is just a namespace for these conversion functions and
 #    look-up tables.
 
+import html
 import sys
 import re
 import math
@@ -3502,7 +3503,9 @@ class M21Convert:
             isNonRawHumdrum = True
 
         hdKey: str | None = None
-        valueStr = M21Utilities.m21MetadataValueToString(value, isRaw)
+        valueStr = M21Convert.escapeHtmlEntities(
+            M21Utilities.m21MetadataValueToString(value, isRaw)
+        )
         if isRaw:
             hdKey = uniqueName
         else:
-- 
2.43.0


From e385159ecf7cd468d6e0b14a7625ddf28bc7bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:55 +0000
Subject: [PATCH 098/115] fix: keep a composer's alias in MEI export

---
 converter21/mei/meimetadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/meimetadata.py b/converter21/mei/meimetadata.py
index 36a6283..ef01c44 100644
--- a/converter21/mei/meimetadata.py
+++ b/converter21/mei/meimetadata.py
@@ -1035,7 +1035,8 @@ class MeiMetadata:
             nameElement.text = composer.meiValue
 
             # MADS-style authority records (personal info about a composer)
-            if (composerBirthAndDeathDate is None
+            if (composerAlias is None
+                    and composerBirthAndDeathDate is None
                     and composerBirthPlace is None
                     and composerDeathPlace is None
                     and composerNationality is None):
-- 
2.43.0


From 42e9b8ff198e645dfa9cbbbe9a4c765ff2d51e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:55 +0000
Subject: [PATCH 099/115] fix: write corporate composers as such in the sources
 of an MEI header

---
 converter21/mei/meimetadata.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/converter21/mei/meimetadata.py b/converter21/mei/meimetadata.py
index ef01c44..7eddd1a 100644
--- a/converter21/mei/meimetadata.py
+++ b/converter21/mei/meimetadata.py
@@ -949,13 +949,15 @@ class MeiMetadata:
                 # not about what this composer's name was.
                 composerElement.attrib['cert'] = composerCert
 
-            nameElement: MeiElement = composerElement.appendSubElement('persName')
+            nameElementName: str = 'persName'
+            if composer.value.role == 'composerCorporate':
+                nameElementName = 'corpName'
+
+            nameElement: MeiElement = composerElement.appendSubElement(nameElementName)
             nameElement.text = composer.meiValue
 
-            # adjust nameElement.name and nameElement.attrib as necessary
-            if composer.value.role == 'composerCorporate':
-                nameElement.name = 'corpName'
-            elif composer.value.role == 'composerAlias':
+            # adjust nameElement.attrib as necessary
+            if composer.value.role == 'composerAlias':
                 nameElement.attrib['type'] = 'alias'
 
         return output
-- 
2.43.0


From 3b9f5e286cec6d3c409ef4fb2410f04a113c1588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:55 +0000
Subject: [PATCH 100/115] fix: write an opus number with a language once in an
 MEI header

---
 converter21/mei/meimetadata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter21/mei/meimetadata.py b/converter21/mei/meimetadata.py
index 7eddd1a..48e0779 100644
--- a/converter21/mei/meimetadata.py
+++ b/converter21/mei/meimetadata.py
@@ -1710,6 +1710,10 @@ class MeiMetadata:
                 )
                 identifierElement.text = catalogAbbrevNumber.meiValue
 
+            if any(opusNumber.value.language for opusNumber in opusNumbers):
+                # they are in the <title>, with their language
+                opusNumbers = []
+
             for opusNumber in opusNumbers:
                 identifierElement = theWork.appendSubElement(
                     'identifier',
-- 
2.43.0


From b8de8de3c3f71439e281589fbf6eb8033357809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:55 +0000
Subject: [PATCH 101/115] fix: read the parts of a translated MEI title as
 translated

---
 converter21/mei/meimetadatareader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/converter21/mei/meimetadatareader.py b/converter21/mei/meimetadatareader.py
index f39cb38..ac1f369 100644
--- a/converter21/mei/meimetadatareader.py
+++ b/converter21/mei/meimetadatareader.py
@@ -1267,7 +1267,8 @@ class MeiMetadataReader:
         elem: MeiElement,
         analogFromContext: str,
         originalLanguage: str,
-        md: m21.metadata.Metadata
+        md: m21.metadata.Metadata,
+        parentIsTranslated: bool = False
     ) -> None:
         # analogFromContext: if set, it means that we only produce that bit of metadata from this
         # title and/or titlePart(s).  Ignore other things like 'movementName', 'alternativeTitle',
@@ -1332,7 +1333,7 @@ class MeiMetadataReader:
                 # and don't override it here).
                 originalLanguage = lang
 
-            isTranslated: bool = typeStr == 'translated'
+            isTranslated: bool = typeStr == 'translated' or parentIsTranslated
             if originalLanguage and lang:
                 # Override typeStr == 'translated' with more reliable info, because
                 # typeStr == 'translated' can only happen with main/uniform titles,
@@ -1351,7 +1352,13 @@ class MeiMetadataReader:
         titleParts: list[MeiElement] = elem.findAll('titlePart', recurse=False)
         for titlePart in titleParts:
             # recurse, passing in any originalLanguage we have computed
-            self.processTitleOrTitlePart(titlePart, analogFromContext, originalLanguage, md)
+            self.processTitleOrTitlePart(
+                titlePart,
+                analogFromContext,
+                originalLanguage,
+                md,
+                parentIsTranslated=elem.get('type', '') == 'translated'
+            )
 
     def combineFileDescEncodingDescAndWorkListMetadata(
         self,
-- 
2.43.0


From 70dd7665296b88990d78a86682289dea1cb50d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:55 +0000
Subject: [PATCH 102/115] fix: make no title of a movement name in MEI import

---
 converter21/mei/meimetadatareader.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/converter21/mei/meimetadatareader.py b/converter21/mei/meimetadatareader.py
index ac1f369..81dbd2f 100644
--- a/converter21/mei/meimetadatareader.py
+++ b/converter21/mei/meimetadatareader.py
@@ -1412,6 +1412,15 @@ class MeiMetadataReader:
         if len(titles) == 1 and len(movementNames) == 1:
             if titles[0] == movementNames[0]:
                 del output._contents['title']
+                titles = []
+
+        # same thing if the work has movementName(s) (e.g. in several languages) and no title
+        if (len(titles) == 1
+                and workListMD is not None
+                and 'movementName' in workListMD._contents
+                and 'title' not in workListMD._contents):
+            if str(titles[0]) in [str(movementName) for movementName in movementNames]:
+                del output._contents['title']
 
         return output
 
-- 
2.43.0


From 996b7f7d9008aeb6c8dfa32cb925cbf85db09076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:54 +0000
Subject: [PATCH 103/115] fix: do not count the flags of a short note among the
 marks of its tremolo in MEI import

---
 converter21/mei/meireader.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 0e5e42a..768b13f 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -6044,6 +6044,12 @@ class MeiReader:
 
         return beamedStuff
 
+    def _numFlags(self, noteOrChord: note.NotRest) -> int:
+        # number of flags (or beams) due to the visual duration of the note (dots don't matter)
+        return self._QL_TO_NUMFLAGS.get(
+            m21.duration.typeToDuration.get(noteOrChord.duration.type, 0.), 0
+        )
+
     def bTremFromElement(
         self,
         elem: Element,
@@ -6067,7 +6073,10 @@ class MeiReader:
         tremolo: expressions.Tremolo = expressions.Tremolo()
         unitDurStr: str = elem.get('unitdur', '')
         numMarks: int = self._DUR_TO_NUMBEAMS.get(unitDurStr, 0)
-        if numMarks == 0:
+        if numMarks > 0:
+            # @unitdur counts the flags/beams of the note itself, numberOfMarks does not
+            numMarks -= self._numFlags(noteOrChord)
+        else:
             # check the note or chord itself to see if it has @stem.mod = '3slashes' or the like
             if hasattr(noteOrChord, 'meireader_stem_mod'):
                 numMarks = self._STEMMOD_TO_NUMSLASHES.get(
@@ -6138,8 +6147,7 @@ class MeiReader:
                 delattr(secondNoteOrChord, 'meireader_stem_mod')
 
         # numMarks should be total number of beams - beams due to note duration
-        numNoteBeams: int = self._QL_TO_NUMFLAGS.get(firstNoteOrChord.duration.quarterLength, 0)
-        numMarks -= numNoteBeams
+        numMarks -= self._numFlags(firstNoteOrChord)
 
         if numMarks == 9:
             numMarks = 8  # music21 doesn't support a 2048th note tremolo, pretend it's 1024th note
-- 
2.43.0


From 2c39c55e4a8f443ecb24410d12ecb9c67069e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:54 +0000
Subject: [PATCH 104/115] fix: count flags of dotted and short notes correctly
 in Humdrum tremolo import

---
 converter21/humdrum/humdrumfile.py | 42 +++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index d939c65..ecddf4f 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -5293,6 +5293,20 @@ class HumdrumFile(HumdrumFileContent):
     //    can be converted into a tremolo. (Decision to convert to tremolo is done
     //    outside of this function and is activated by the *tremolo tandem interpretation).
     '''
+    @staticmethod
+    def _numFlags(duration: HumNum) -> int:
+        # number of flags (or beams) of a note with this duration.  Dots don't matter, and
+        # neither does being in a tuplet (12 looks like 8, 24 looks like 16, etc).
+        m = re.match(r'(\d+)(?:%(\d+))?', Convert.durationToRecip(duration))
+        if not m:
+            return 0
+        flags: int = -2
+        value: Fraction = Fraction(int(m.group(1)), int(m.group(2) or 1))
+        while value >= 2:
+            value /= 2
+            flags += 1
+        return max(0, flags)
+
     @staticmethod
     def _checkForTremolo(
         layerData: list[HumdrumToken | FakeRestToken],
@@ -5382,11 +5396,7 @@ class HumdrumFile(HumdrumFileContent):
             tdur = opFrac(duration * len(notes))
             recip = Convert.durationToRecip(tdur)
 
-            slashes = int(math.log(float(duration)) / math.log(2.0))
-            noteBeams: int = int(math.log(float(tdur)) / math.log(2.0))
-            if noteBeams < 0:
-                slashes = slashes - noteBeams
-            slashes = -slashes
+            slashes = HumdrumFile._numFlags(duration) - HumdrumFile._numFlags(tdur)
             if slashes <= 0:
                 # something went wrong calculating durations
                 return False
@@ -5454,10 +5464,11 @@ class HumdrumFile(HumdrumFileContent):
             for grouping in groupings:
                 tdur = opFrac(duration * len(grouping))
                 recip = Convert.durationToRecip(tdur)
-                slashes = -int(math.log2(float(duration) / float(tdur)))
+                slashes = HumdrumFile._numFlags(duration) - HumdrumFile._numFlags(tdur)
                 grouping[0].setValue('auto', 'startTremolo', '1')
                 grouping[0].setValue('auto', 'inTremolo', '1')
                 grouping[0].setValue('auto', 'slashes', slashes)
+                grouping[0].setValue('auto', 'tremoloEnd', grouping[-1])
                 grouping[0].setValue('auto', 'recip', recip)
 
             # Preserve the beam on the group of tremolos.  The beam can
@@ -5496,7 +5507,8 @@ class HumdrumFile(HumdrumFileContent):
 
         # Eventually also allow calculating of beam.float
         # (mostly for styling half note tremolos).
-        beams: int = -int(math.log(float(duration)) / math.log(2.0))
+        # The marks don't include the flags of the (visual) notes.
+        beams: int = HumdrumFile._numFlags(duration) - HumdrumFile._numFlags(tdur)
         if beams <= 0:
             # something went wrong calculating durations.
             raise HumdrumInternalError(f'Problem with tremolo2 beams calculation: {beams}')
@@ -5904,11 +5916,10 @@ class HumdrumFile(HumdrumFileContent):
 
         tremoloTotalDuration: HumNum = Convert.recipToDuration(layerTok.text)
         tremoloSingleNoteDuration: HumNum = Convert.recipToDuration(m.group(1))
-        slashes: int = int(math.log(float(tremoloSingleNoteDuration)) / math.log(2.0))
-        noteBeams: int = int(math.log(float(tremoloTotalDuration)) / math.log(2.0))
-        if noteBeams < 0:
-            slashes = slashes - noteBeams
-        slashes = -slashes
+        slashes: int = (
+            HumdrumFile._numFlags(tremoloSingleNoteDuration)
+            - HumdrumFile._numFlags(tremoloTotalDuration)
+        )
         if slashes <= 0:
             # something went wrong calculating durations
             return
@@ -5964,7 +5975,12 @@ class HumdrumFile(HumdrumFileContent):
             return skippedEndOfTremolo2
 
         singleTremoloNoteDuration: HumNum = Convert.recipToDuration(m.group(1))
-        beams: int = -int(math.log(float(singleTremoloNoteDuration)) / math.log(2.0))
+        # the marks don't include the flags of the (visual) notes, whose duration is the
+        # duration of the whole tremolo
+        beams: int = (
+            HumdrumFile._numFlags(singleTremoloNoteDuration)
+            - HumdrumFile._numFlags(opFrac(Convert.recipToDuration(layerTok.text) * 2))
+        )
         second: HumdrumToken | None = None
 
         tremolo2: m21.expressions.TremoloSpanner = m21.expressions.TremoloSpanner()
-- 
2.43.0


From 7825b5105512889918394776dbb3e79c5251e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:54 +0000
Subject: [PATCH 105/115] fix: let *tremolo apply to all voices of the staff in
 Humdrum import

---
 converter21/humdrum/humdrumfile.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index ecddf4f..bf353d5 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -2058,10 +2058,7 @@ class HumdrumFile(HumdrumFileContent):
             # It also means that we have to call _handleGroupState before
             # any continue below, since they won't reach the call at bottom
             # of the loop.
-            if ss.tremolo:
-                inTremolo = layerTok.getValueBool('auto', 'inTremolo')  # set by first pass
-            else:
-                inTremolo = False
+            inTremolo = layerTok.getValueBool('auto', 'inTremolo')  # set by first pass
 
             if layerTok.getValueBool('auto', 'tremoloBeam'):  # set by first pass
                 if 'J' in layerTok.text:
@@ -12487,7 +12484,11 @@ class HumdrumFile(HumdrumFileContent):
             # _firstPassContentsOfLayer will be called once for each layer, and will fill
             # in one of these lists per call.
             ss.tgs[measureKey].append([])
+        # *tremolo and *Xtremolo apply to all layers of the staff, so every layer starts
+        # with the state that was in effect at the start of the measure.
+        tremoloAtStart: bool = ss.tremolo
         for layerIndex, layerData in enumerate(measureStaffLayerDatas):
+            ss.tremolo = tremoloAtStart
             self._firstPassContentsOfLayer(staffIndex, layerData, layerIndex, measureKey)
 
     def _firstPassContentsOfLayer(
@@ -12515,9 +12516,16 @@ class HumdrumFile(HumdrumFileContent):
                 continue
 
             if layerTok.isInterpretation:
-                if layerTok.text == '*Xtremolo':
+                interp: str = layerTok.text
+                if interp == '*' and layerTok.subTrack > 1:
+                    # the first subtrack's *tremolo/*Xtremolo applies to all the subtracks
+                    for tok in layerTok.ownerLine.tokens():
+                        if tok.track == layerTok.track:
+                            interp = tok.text
+                            break
+                if interp == '*Xtremolo':
                     ss.tremolo = False
-                elif layerTok.text == '*tremolo':
+                elif interp == '*tremolo':
                     ss.tremolo = True
                     self._hasTremolo = True
                 continue
-- 
2.43.0


From 6211f12932421aa9253642221a5384e0de943e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:55 +0000
Subject: [PATCH 106/115] fix: keep slurs that end on a spelled-out or unbeamed
 tremolo in Humdrum import

---
 converter21/humdrum/humdrumfile.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index bf353d5..b3c6503 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -5402,6 +5402,7 @@ class HumdrumFile(HumdrumFileContent):
             notes[0].setValue('auto', 'inTremolo', '1')
             notes[0].setValue('auto', 'recip', recip)
             notes[0].setValue('auto', 'slashes', slashes)
+            notes[0].setValue('auto', 'tremoloEnd', notes[-1])
             for i in range(1, len(notes)):
                 notes[i].setValue('auto', 'inTremolo', '1')
                 notes[i].setValue('auto', 'suppress', '1')
@@ -6135,17 +6136,10 @@ class HumdrumFile(HumdrumFileContent):
         if ')' not in ending.text:
             # no slur ending
             return
-        if 'J' not in ending.text:
-            # no beam end (there could be weird unbeamed cases perhaps)
-            return
-
         if '(' not in start.text:
             # no slur start on tremoloSpanner, but there is a slur end from somewhere
             self._processSlurs(tremoloSpanner.getLast(), ending)
             return
-        if 'L' not in start.text:
-            # no beam start (there could be weird unbeamed cases perhaps)
-            return
 
         # maybe a problem if not all of the slurs on ending token
         # are ftrem (may result in multiple slurs for non-tremolo slurs.
@@ -6226,6 +6220,10 @@ class HumdrumFile(HumdrumFileContent):
             self._processUnexpandedTremolo(noteOrChord, layerTok)
         elif self._hasTremolo and layerTok.getValueBool('auto', 'startTremolo'):
             self._processTremolo(noteOrChord, layerTok)
+            # a slur that ends on the last note of the spelled-out tremolo ends here
+            endTok: HumdrumToken | None = layerTok.getValueToken('auto', 'tremoloEnd')
+            if endTok is not None and endTok is not layerTok and '(' not in layerTok.text:
+                self._processSlurs(noteOrChord, endTok)
         elif self._hasTremolo and layerTok.getValueBool('auto', 'startTremolo2'):
             self._processTremolo2(noteOrChord, measureIndex, voice, ncOffsetInVoice,
                                   layerData, tokenIdx,
-- 
2.43.0


From d04d0718f737ca78de1b07e2c9f85c89df308fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:55 +0000
Subject: [PATCH 107/115] fix: write the speed of fingered tremolos of short
 notes in Humdrum export

---
 converter21/humdrum/m21convert.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index f641b34..0a859d5 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2674,6 +2674,19 @@ class M21Convert:
 
         return output, layouts
 
+    numberOfFlagsFromDurationType: dict[str, int] = {
+        # not present implies zero flags
+        'eighth': 1,
+        '16th': 2,
+        '32nd': 3,
+        '64th': 4,
+        '128th': 5,
+        '256th': 6,
+        '512th': 7,
+        '1024th': 8,
+        '2048th': 9,
+    }
+
     numberOfFlagsToDurationReciprocal: dict[int, int] = {
         0: 4,
         1: 8,
@@ -2867,16 +2880,15 @@ class M21Convert:
 
         tvalue: HumNum
         tvFraction: Fraction
-        tvInt: int | None = (
-            M21Convert.numberOfFlagsToDurationReciprocal.get(tremolo.numberOfMarks, None)
-        )
+        numMarks: int = tremolo.numberOfMarks
+        if fingered:
+            # add the flags of the (visual) notes
+            numMarks += M21Convert.numberOfFlagsFromDurationType.get(duration.type, 0)
+        tvInt: int | None = M21Convert.numberOfFlagsToDurationReciprocal.get(numMarks, None)
         if tvInt is not None:
             tvalue = opFrac(tvInt)
             if fingered:
                 # fingered tremolo (2 notes)
-                if beamStarts and duration.quarterLength < 1:
-                    # ignore beamStarts for quarter-notes and above
-                    tvalue *= beamStarts
                 if duration.tuplets and len(duration.tuplets) == 1:
                     tvalue /= duration.tuplets[0].tupletMultiplier()
                 tvFraction = Fraction(tvalue)
-- 
2.43.0


From 99f3d4cdbd5416d989fee733e4a614c95904fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:12 +0000
Subject: [PATCH 108/115] fix: keep slurs and ties out of the middle of
 expanded tremolos in Humdrum export

---
 converter21/humdrum/humdrumtools.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/converter21/humdrum/humdrumtools.py b/converter21/humdrum/humdrumtools.py
index 40c80bf..07724f5 100644
--- a/converter21/humdrum/humdrumtools.py
+++ b/converter21/humdrum/humdrumtools.py
@@ -299,9 +299,13 @@ class ToolTremolo:
         initial: str = base
         if hasBeamStart:
             initial += startBeam
+        # remove slur end from start of tremolo
+        initial = re.sub(r'[)]+[<>]?', '', initial)
         terminal: str = base
         if hasBeamStop:
             terminal += endBeam
+        # remove slur information from middle of tremolo
+        base = re.sub(r'[()]+[<>]?', '', base)
 
         # remove tie continue from start of tremolo (leave tie start/end in place)
         initial = re.sub(r'_+[<>]?', '', initial)
@@ -459,6 +463,10 @@ class ToolTremolo:
         # remove tie information from end of tremolo
         terminal = re.sub(r'[\[_\]]+[<>]?', '', terminal)
 
+        # remove slur and tie information from middle of tremolo
+        base2 = re.sub(r'[()]+[<>]?', '', base2)
+        base2 = re.sub(r'[\[_\]]+[<>]?', '', base2)
+
         state: bool = False
 
         # Now fill in the rest of the tremolos.
-- 
2.43.0


From 4325696f2a293d621862bb44636dfee747aab319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:12 +0000
Subject: [PATCH 109/115] fix: merge overlapping tremolo ranges of several
 voices in Humdrum export

---
 converter21/humdrum/humdrumtools.py | 42 +++++++++++------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/converter21/humdrum/humdrumtools.py b/converter21/humdrum/humdrumtools.py
index 07724f5..d85b500 100644
--- a/converter21/humdrum/humdrumtools.py
+++ b/converter21/humdrum/humdrumtools.py
@@ -30,8 +30,9 @@ class ToolTremolo:
     def __init__(self, infile: HumdrumFile) -> None:
         self.infile: HumdrumFile = infile
         self.markupTokens: list[HumdrumToken] = []
-        self.firstTremoloLinesInTrack: list[list[HumdrumLine | None]] = []
-        self.lastTremoloLinesInTrack: list[list[HumdrumLine | None]] = []
+        self.beamedTokens: set[HumdrumToken] = set()
+        self.firstTremoloLinesInTrack: list[list[HumdrumLine]] = []
+        self.lastTremoloLinesInTrack: list[list[HumdrumLine]] = []
 
     '''
     //////////////////////////////
@@ -129,32 +130,19 @@ class ToolTremolo:
         for track, (firstLines, lastLines) in enumerate(zip(
                 self.firstTremoloLinesInTrack,
                 self.lastTremoloLinesInTrack)):
-            lastLineRemovalIndices: list[int] = []
-            firstLineRemovalIndices: list[int] = []
-            currLastLineIndex: int | None = None
-            prevLastLineIndex: int | None = None
-            currFirstLineIndex: int | None = None
-            for idx, (firstLine, lastLine) in enumerate(zip(firstLines, lastLines)):
-                if t.TYPE_CHECKING:
-                    # self.{first,last}TremoloLinesInTrack should be filled in by now
-                    assert firstLine is not None
-                    assert lastLine is not None
-
-                prevLastLineIndex = currLastLineIndex
-                currFirstLineIndex = firstLine.lineIndex
-                currLastLineIndex = lastLine.lineIndex
-
-                if prevLastLineIndex is not None:
-                    if not self.notesFoundInTrackBetweenLineIndices(
-                            track, prevLastLineIndex, currFirstLineIndex):
-                        lastLineRemovalIndices.append(idx - 1)
-                        firstLineRemovalIndices.append(idx)
-
-            for lineIndexToRemove in reversed(lastLineRemovalIndices):
-                lastLines.pop(lineIndexToRemove)
-            for lineIndexToRemove in reversed(firstLineRemovalIndices):
-                firstLines.pop(lineIndexToRemove)
+            # Note that tremolos in different subtracks can overlap.
+            ranges: list[tuple[HumdrumLine, HumdrumLine]] = []
+            for firstLine, lastLine in sorted(
+                    zip(firstLines, lastLines), key=lambda pair: pair[0].lineIndex):
+                if ranges and not self.notesFoundInTrackBetweenLineIndices(
+                        track, ranges[-1][1].lineIndex, firstLine.lineIndex):
+                    if lastLine.lineIndex > ranges[-1][1].lineIndex:
+                        ranges[-1] = (ranges[-1][0], lastLine)
+                else:
+                    ranges.append((firstLine, lastLine))
 
+            firstLines[:] = [first for first, _ in ranges]
+            lastLines[:] = [last for _, last in ranges]
 
         line: HumdrumLine
 
-- 
2.43.0


From 69f52175edb5264585788f6614fb9092309dae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:23 +0000
Subject: [PATCH 110/115] fix: nest fingered tremolos and beams in MEI export

---
 converter21/mei/meilayer.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/converter21/mei/meilayer.py b/converter21/mei/meilayer.py
index 920c8f0..a414512 100644
--- a/converter21/mei/meilayer.py
+++ b/converter21/mei/meilayer.py
@@ -453,14 +453,23 @@ class MeiLayer:
         def spannerQL(spanner: m21.spanner.Spanner) -> OffsetQL:
             return M21Utilities.getSpannerQuarterLength(spanner, self.parentStaff.m21Measure)
 
-        def beamsBeforeTupletsBeforeTremolos(spanner: m21.spanner.Spanner) -> int:
+        def tupletsAroundBeamsAroundTremolos(spanner: m21.spanner.Spanner) -> int:
             if isinstance(spanner, M21BeamSpanner):
                 return 1
             if isinstance(spanner, M21TupletSpanner):
                 return 2
             if isinstance(spanner, m21.expressions.TremoloSpanner):
-                return 3
-            return 4
+                return 0
+            return 3
+
+        def splitsAnFTrem(beam: m21.spanner.Spanner) -> bool:
+            for el in beam.getSpannedElements():
+                for tremolo in el.getSpannerSites([m21.expressions.TremoloSpanner]):
+                    if not M21Utilities.isIn(tremolo, self.spannerBundle):
+                        continue
+                    if not all(beam.hasSpannedElement(n) for n in tremolo.getSpannedElements()):
+                        return True
+            return False
 
         def nestsReasonably(
             tuplet: m21.spanner.Spanner,
@@ -526,6 +535,12 @@ class MeiLayer:
                     M21Utilities.assureXmlIds(spanner)
                     continue
 
+                # A beam that contains only one of the notes of a fingered tremolo cannot be
+                # properly nested with the <fTrem>, so it is emitted as <beamSpan>, too.
+                if isinstance(spanner, M21BeamSpanner) and splitsAnFTrem(spanner):
+                    M21Utilities.assureXmlIds(spanner)
+                    continue
+
                 # Tuplet is even more special.  It can interleave with beams in a way
                 # that cannot be nested.  If so, we can't emit <tuplet>, since it can't
                 # be properly nested with the <beam>s in the voice/layer, so we have to
@@ -558,7 +573,7 @@ class MeiLayer:
 
             output.append(spanner)  # type: ignore
 
-        output.sort(reverse=True, key=beamsBeforeTupletsBeforeTremolos)
+        output.sort(reverse=True, key=tupletsAroundBeamsAroundTremolos)
         output.sort(reverse=True, key=spannerQL)
         return output
 
@@ -570,14 +585,14 @@ class MeiLayer:
         def spannerQL(spanner: m21.spanner.Spanner) -> OffsetQL:
             return M21Utilities.getSpannerQuarterLength(spanner, self.parentStaff.m21Score)
 
-        def beamsBeforeTupletsBeforeTremolos(spanner: m21.spanner.Spanner) -> int:
+        def tupletsAroundBeamsAroundTremolos(spanner: m21.spanner.Spanner) -> int:
             if isinstance(spanner, M21BeamSpanner):
                 return 1
             if isinstance(spanner, M21TupletSpanner):
                 return 2
             if isinstance(spanner, m21.expressions.TremoloSpanner):
-                return 3
-            return 4
+                return 0
+            return 3
 
         output: list[M21BeamSpanner | M21TupletSpanner | m21.expressions.TremoloSpanner] = []
         for spanner in obj.getSpannerSites([
@@ -614,7 +629,7 @@ class MeiLayer:
 
             output.append(spanner)  # type: ignore
 
-        output.sort(key=beamsBeforeTupletsBeforeTremolos)
+        output.sort(key=tupletsAroundBeamsAroundTremolos)
         output.sort(key=spannerQL)  # type: ignore
         return output
 
-- 
2.43.0


From f0b22d58701a3e4fa2230d12a63aa3bb8e9f6d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:23 +0000
Subject: [PATCH 111/115] fix: give tremolos of short notes a beam of their own
 in Humdrum export

---
 converter21/humdrum/humdrumtools.py | 85 ++++++++++++++++++++++++++---
 1 file changed, 77 insertions(+), 8 deletions(-)

diff --git a/converter21/humdrum/humdrumtools.py b/converter21/humdrum/humdrumtools.py
index d85b500..a45062e 100644
--- a/converter21/humdrum/humdrumtools.py
+++ b/converter21/humdrum/humdrumtools.py
@@ -89,6 +89,7 @@ class ToolTremolo:
                     timestamp: HumNum = opFrac(startTime + (increment * opFrac(k)))
                     self.infile.insertNullDataLine(timestamp)
 
+        self.separateTremolosFromBeams()
         self.expandTremolos()
         self.addTremoloInterpretations()
 
@@ -105,6 +106,79 @@ class ToolTremolo:
         return False
 
 
+    def getBeamGroup(self, token: HumdrumToken) -> list[HumdrumToken]:
+        # Returns all the (non-grace) notes that are under one beam with this one.
+        def countInToken(char: str, tok: HumdrumToken) -> int:
+            return max(subtoken.count(char) for subtoken in tok.text.split(' '))
+
+        measure: list[HumdrumToken] = []
+        current: HumdrumToken | None = token
+        while current is not None and not current.isBarline:
+            measure.insert(0, current)
+            current = current.previousToken(0)
+        current = token.nextToken(0)
+        while current is not None and not current.isBarline:
+            measure.append(current)
+            current = current.nextToken(0)
+
+        group: list[HumdrumToken] = []
+        level: int = 0
+        for tok in measure:
+            if not tok.isData or tok.isNull or tok.isGrace:
+                continue
+            if level <= 0:
+                level = 0
+                group = []
+            level += countInToken('L', tok)
+            if level > 0:
+                group.append(tok)
+            level -= countInToken('J', tok)
+            if level <= 0 and token in group:
+                return group
+
+        return []
+
+    def isReadableBeamGroup(self, group: list[HumdrumToken]) -> bool:
+        # Can parsers find the tremolos of this group, if they are expanded under one beam?
+        prevValue: str = ''
+        prevPitches: list[int] = []
+        for i, token in enumerate(group):
+            m = re.search(r'@+(\d+)@+', token.text)
+            if m is None or '@@' in token.text:
+                return False
+            if i > 0 and re.search(r'[\[_\]]', token.text):
+                return False
+            if i > 0 and m.group(0) != prevValue:
+                return False
+            count: HumNum = opFrac(
+                Convert.recipToDuration(token.text) * opFrac(int(m.group(1))) / opFrac(4)
+            )
+            if not M21Utilities.isPowerOfTwo(count):
+                return False
+            pitches: list[int] = [Convert.kernToBase40(subtok) for subtok in token.subtokens]
+            if pitches == prevPitches:
+                return False
+            prevValue = m.group(0)
+            prevPitches = pitches
+        return True
+
+    def separateTremolosFromBeams(self) -> None:
+        # A beam can stay if parsers can read it, i.e. if it is over nothing but (different)
+        # bowed tremolos with the same note value.  Otherwise the tremolo needs a beam of
+        # its own.
+        for token in self.markupTokens:
+            group: list[HumdrumToken] = self.getBeamGroup(token)
+            if not group:
+                continue
+
+            if self.isReadableBeamGroup(group):
+                self.beamedTokens.add(token)
+                continue
+
+            for tok in group:
+                tok.text = re.sub('[LJKk]+', '', tok.text)
+                tok.ownerLine.createLineFromTokens()
+
     def notesFoundInTrackBetweenLineIndices(self, track: int, startIdx: int, endIdx: int) -> bool:
         # Check every line between startIdx and endIdx, NOT inclusive at either end
         for i in range(startIdx + 1, endIdx):
@@ -218,7 +292,6 @@ class ToolTremolo:
     // Tool_tremolo::expandTremolo --
     '''
     def expandTremolo(self, token: HumdrumToken) -> None:
-        addBeam: bool = False
         tnotes: int = -1
 
         m = re.search(r'@(\d+)@', token.text)
@@ -241,12 +314,8 @@ class ToolTremolo:
             print(f'Error: tremolo notes can only be eighth-notes or shorter: {token}',
                     file=sys.stderr)
             return
-        if duration > 0.5:
-            # needs to be less than one for tuplet quarter note tremolos
-            addBeam = True
-
         # There are cases where duration < 1 need added beams
-        # when the note is not already in a beam.  Such as
+        # when the note is not already in a beam (see self.beamedTokens).  Such as
         # a plain 8th note with a slash.  This needs to be
         # converted into two 16th notes with a beam so that
         # *tremolo can reduce it back into a tremolo, since
@@ -271,7 +340,7 @@ class ToolTremolo:
         hasBeamStart: bool = 'L' in base
         hasBeamStop: bool = 'J' in base
 
-        if addBeam:
+        if token not in self.beamedTokens:
             hasBeamStart = True
             hasBeamStop = True
 
@@ -303,7 +372,7 @@ class ToolTremolo:
         terminal = re.sub(r'[\[_\]]+[<>]?', '', terminal)
 
         # remove slur start from end of tremolo:
-        terminal = re.sub(r'[(]+[<>]', '', terminal)
+        terminal = re.sub(r'[(]+[<>]?', '', terminal)
 
         token.text = initial
         token.ownerLine.createLineFromTokens()
-- 
2.43.0


From 231888021a6ad66fba3d82d3ba91b8fc8782505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:18 +0000
Subject: [PATCH 112/115] fix: write all the rests of a gap in Humdrum export

---
 converter21/humdrum/measuredata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converter21/humdrum/measuredata.py b/converter21/humdrum/measuredata.py
index 09eb672..e41acc6 100644
--- a/converter21/humdrum/measuredata.py
+++ b/converter21/humdrum/measuredata.py
@@ -323,6 +323,7 @@ class MeasureData:
                     )
                     if event is not None:
                         self.events.append(event)
+                    currentEmittedTime = opFrac(currentEmittedTime + duration)
 
                 currentEmittedTime = elStartTime
 
-- 
2.43.0


From a87123251f8d508f30b0e443a6df249fbb90cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:18 +0000
Subject: [PATCH 113/115] fix: append missing measures before Humdrum export

---
 converter21/shared/m21utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 6b1e4d6..1190599 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -4371,7 +4371,7 @@ class M21Utilities:
                         hiddenRest.duration.quarterLength = tsContext.barDuration.quarterLength
 
                     # put it in the partMeasures array
-                    partMeasures[partIdx][msIdx] = emptyMeas
+                    partMeasures[partIdx].append(emptyMeas)
 
                 measureStacks[msIdx].append(partMeasures[partIdx][msIdx])
 
-- 
2.43.0


From faa7a5f59ad595aaedd2b8c0983ea4868493bb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:18 +0000
Subject: [PATCH 114/115] fix: find the right offsets in parts without measures

---
 converter21/shared/m21utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 1190599..9032a44 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -793,6 +793,10 @@ class M21Utilities:
         From a score, make a new, perhaps better notated score
         '''
         scOut = sc.makeNotation(inPlace=False)
+        if any(not part.hasMeasures() for part in sc.parts):
+            # makeNotation has made new measures, and leaves the notes in others it has thrown
+            # away, where we would find wrong offsets.  A copy is free of those.
+            scOut = deepcopy(scOut)
         M21Utilities.restoreSpannedElementOrder(scOut)
         if not scOut.isWellFormedNotation():
             print(f'{scOut} is not well-formed; see isWellFormedNotation()', file=sys.stderr)
-- 
2.43.0


From 2eca8e8ef567452dd6c57f013f92ff5c1091f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:18 +0000
Subject: [PATCH 115/115] fix: split durations no single note can have before
 export

---
 converter21/shared/m21utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 9032a44..d63f0b5 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -798,6 +798,8 @@ class M21Utilities:
             # away, where we would find wrong offsets.  A copy is free of those.
             scOut = deepcopy(scOut)
         M21Utilities.restoreSpannedElementOrder(scOut)
+        # durations that no single note or rest can have become tied notes (or several rests)
+        scOut.splitAtDurations(recurse=True)
         if not scOut.isWellFormedNotation():
             print(f'{scOut} is not well-formed; see isWellFormedNotation()', file=sys.stderr)
         return scOut
-- 
2.43.0

