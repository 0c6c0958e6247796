From f9c906c4b7fee871fc3e1575b15a58a7776f2281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 01/50] fix: give every red-five chi its own reaction slot

The slots of different red chis collided (also across suits) and ran into
the pon range.
---
 MahjongAI/draw.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index f90474f..a55124e 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -244,9 +244,9 @@ class Naki(Draw):
         if self.is_chi():
             color, number, which, has_red, _, _ = self.pattern_chi()
             if has_red and number + which != 4:
-                return (
-                    CHI_START + 63 + 6 * color + number * 2 + (number + which - 3) // 2
-                )
+                # two red variants per sequence containing a five (number 2, 3, 4)
+                variant = which - int(number + which > 4)
+                return CHI_START + 63 + 6 * color + (number - 2) * 2 + variant
             else:
                 return CHI_START + color * 21 + number * 3 + which
 
-- 
2.43.0


From e014012e444b0bf3f010d539c0ea8a454921914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 02/50] fix: give a pon that uses the red five from the hand
 its own slot

The test only recognised copy 3 as a plain five, so the slot depended on
which identical copy was taken and offered calls never reached it.
---
 MahjongAI/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index a55124e..3140a96 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -254,7 +254,7 @@ class Naki(Draw):
             color, number, which, has_red, _, acquired = self.pattern_pon()
             if color == 3:
                 return PON_START + 30 + number
-            elif has_red and acquired % 4 == 3:
+            elif has_red and acquired % 4 != 0:
                 return PON_START + 27 + color
             else:
                 return PON_START + 9 * color + number
-- 
2.43.0


From efb11b8f543902ee855ac85b5cb3a1b5639de89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 03/50] fix: canonical pon code must not depend on the copies
 used

Without a red five the position of the called copy stayed in the code, so
the pon recorded in a log did not equal the pon that was offered.
---
 MahjongAI/draw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index 3140a96..a9a7fa9 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -91,6 +91,8 @@ class Naki(Draw):
             code += 0x60
             if which:
                 code -= (which - 1) << 9
+        else:
+            code -= which << 9
         return code
 
     def _clean_kakan(self):
-- 
2.43.0


From b60add1f832361d198b37399fce5dbe1d7c06085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 04/50] fix: canonical added-kan code must describe only the
 kan

The seat and copy of the earlier pon stayed in the code and the red five
was judged by the wrong field, so recorded kans never equalled offered ones.
---
 MahjongAI/draw.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index a9a7fa9..ba99c5d 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -96,8 +96,10 @@ class Naki(Draw):
         return code
 
     def _clean_kakan(self):
-        _, _, which, red, *_ = self.pattern_kakan()
-        code = self.naki_code & ~(0x60)
+        color, number, _, red, exposed, _ = self.pattern_kakan()
+        # which = 1 if the red five is in the exposed pon, else 0
+        which = int(red and exposed[0] % 4 != 0)
+        code = 0x10 | ((27 * color + number * 3 + which) << 9)
         if not red or which:
             code |= 0x20
         return code
-- 
2.43.0


From 53ea26782384cfa449c702554ff25fa4c84df6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 05/50] fix: count plain fives, not copies of the discard, when
 offering a chi

With a red five in hand the plain-five variant of a chi was offered or
omitted according to how many copies of the discarded tile are held.
---
 MahjongAI/decision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 4dd7032..48ff81b 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -144,7 +144,7 @@ def _three_and_seven_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx + 2 * coef] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -206,7 +206,7 @@ def _four_and_six_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx + coef] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
-- 
2.43.0


From 81a32b2ad528c9324470bc2d772102f082d703a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 06/50] fix: offer the middle-tile chi of a 4 or 6 with the
 taken tile in the middle

With a red five in hand the offered chi claimed to take another tile.
---
 MahjongAI/decision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 48ff81b..3ae03b4 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -218,7 +218,7 @@ def _four_and_six_mask(
             if hand_tensor[tile_idx - 1] * hand_tensor[tile_idx + 1]:
                 if player_has_red:
                     naki = Naki.from_chi_info(
-                        tile_idx // 9, 2 if is_four else 4, 0 if is_four else 2, True
+                        tile_idx // 9, 2 if is_four else 4, 1, True
                     )
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
@@ -226,7 +226,7 @@ def _four_and_six_mask(
                         naki = Naki.from_chi_info(
                             tile_idx // 9,
                             2 if is_four else 4,
-                            0 if is_four else 2,
+                            1,
                             False,
                         )
                         assert naki.is_chi()
-- 
2.43.0


From 10d276c052052370dee8a50e49309004f42738b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 07/50] fix: offer open kans with the code a recorded open kan
 has

The position is 0 only when the red five is the taken tile; the offers used
it the other way round and never matched the kan in the log.
---
 MahjongAI/decision.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 3ae03b4..cc3c0f1 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -88,7 +88,7 @@ def _one_and_nine_mask(
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -123,7 +123,7 @@ def _two_and_eight_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -185,7 +185,7 @@ def _three_and_seven_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -263,7 +263,7 @@ def _four_and_six_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -317,7 +317,7 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1 if is_red else 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0 if is_red else 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -336,7 +336,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
-- 
2.43.0


From 79d66870d83f61f03fb85260642e4d92e1d68100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 08/50] fix: offer the pon of a discarded red five as taking
 the red five

The offer said that the red five was in the hand.
---
 MahjongAI/decision.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index cc3c0f1..fc2ab0c 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -310,9 +310,7 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
         else:
             if hand_tensor[tile_idx] == 2.0:
-                naki = Naki.from_pon_info(
-                    tile_idx, 1 if is_red else 0, is_red, (player - p) % 4
-                )
+                naki = Naki.from_pon_info(tile_idx, 0, is_red, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-- 
2.43.0


From c89138f6a52eb8bcd9002bf3450bb9c923128d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 09/50] fix: offer pon also to a player who holds three copies

---
 MahjongAI/decision.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index fc2ab0c..221e9d2 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -83,7 +83,7 @@ def _one_and_nine_mask(
             )
             assert naki.is_chi()
             decisions[p].append(NakiDecision(p, naki, False))
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -117,7 +117,7 @@ def _two_and_eight_mask(
                 assert naki.is_chi()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -179,7 +179,7 @@ def _three_and_seven_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -257,7 +257,7 @@ def _four_and_six_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -300,16 +300,16 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if player_has_red:
-            if hand_tensor[tile_idx] == 2.0:
+            if hand_tensor[tile_idx] >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 1, True, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
-            if black_fives == 2.0:
+            if black_fives >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
         else:
-            if hand_tensor[tile_idx] == 2.0:
+            if hand_tensor[tile_idx] >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 0, is_red, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
@@ -329,7 +329,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
         if p == player:
             continue
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
-- 
2.43.0


From 79fd22eb12a2c1aea229813abd41d78498be7c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 10/50] fix: record copies of the round state in decision
 points

Hands, tile counters, closed-hand flags and melds of earlier decision points
kept changing with every later event of the round.
---
 MahjongAI/process_xml.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5df14da..cec6d7c 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -222,15 +222,15 @@ def process(file_path: str, verbose: bool = False):
 
                 stateObj = StateObject(
                     remaining_turns=remaining_tsumo,
-                    hand_tensor=hand_tensors[player],
-                    remaining_tiles=remaining_tiles,
-                    remaining_tiles_pov=remaining_tiles_pov[player][:],
+                    hand_tensor=np.copy(hand_tensors[player]),
+                    remaining_tiles=np.copy(remaining_tiles),
+                    remaining_tiles_pov=np.copy(remaining_tiles_pov[player]),
                     sutehai_tensors=np.copy(sutehai_tensors),
-                    is_menzen=is_menzen,
+                    is_menzen=is_menzen[:],
                     double_reaches=double_reaches,
                     reaches=reaches,  # share same reach list
                     ippatsu=ippatsu,  # share same ippatsu list
-                    melds=melds,
+                    melds=[lst[:] for lst in melds],
                     scores=scores,
                     kyotaku=kyotaku,
                     honba=honba,
@@ -386,15 +386,15 @@ def process(file_path: str, verbose: bool = False):
 
                 stateObj = StateObject(
                     remaining_turns=remaining_tsumo,
-                    hand_tensor=hand_tensors[player],
-                    remaining_tiles=remaining_tiles,
-                    remaining_tiles_pov=remaining_tiles_pov[player][:],
+                    hand_tensor=np.copy(hand_tensors[player]),
+                    remaining_tiles=np.copy(remaining_tiles),
+                    remaining_tiles_pov=np.copy(remaining_tiles_pov[player]),
                     sutehai_tensors=np.copy(sutehai_tensors),
-                    is_menzen=is_menzen,
+                    is_menzen=is_menzen[:],
                     double_reaches=double_reaches,
                     reaches=reaches,  # share same reach list
                     ippatsu=ippatsu,  # share same ippatsu list
-                    melds=melds,
+                    melds=[lst[:] for lst in melds],
                     scores=scores,
                     kyotaku=kyotaku,
                     honba=honba,
-- 
2.43.0


From e61f6b9268fcedf20253806cb541bcdc2d523f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 11/50] fix: apply a call before recording the state that
 follows it

The discard after a call was recorded with the hand still closed and one-shot
still alive, and a robbed kan with both the pon and the kan.
---
 MahjongAI/process_xml.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index cec6d7c..e6bf08a 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -220,6 +220,20 @@ def process(file_path: str, verbose: bool = False):
                 if acquired is not None:
                     hand_tensors_full[player][TILE2IDX[acquired]] += 1.0
 
+                if naki.from_who() != 0:
+                    is_menzen[player] = 0
+                if sum(ippatsu):
+                    ippatsu = [0] * 4
+
+                if naki.is_kakan():
+                    # remove corresponding pon from melds
+                    for i, meld in enumerate(melds[player]):
+                        if meld.is_pon():
+                            color, number, *_ = meld.pattern_pon()
+                            if color * 9 + number == exposed[0] // 4:
+                                melds[player].pop(i)
+                                break
+
                 stateObj = StateObject(
                     remaining_turns=remaining_tsumo,
                     hand_tensor=np.copy(hand_tensors[player]),
@@ -242,21 +256,8 @@ def process(file_path: str, verbose: bool = False):
                     player=player,
                 )
 
-                if naki.from_who() != 0:
-                    is_menzen[player] = 0
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
-
                 # in case of Kakan, create new post turn to train on chankan ron decision
                 if naki.is_kakan():
-                    # remove corresponding pon from melds
-                    for i, meld in enumerate(melds[player]):
-                        if meld.is_pon():
-                            color, number, *_ = meld.pattern_pon()
-                            if color * 9 + number == exposed[0] // 4:
-                                melds[player].pop(i)
-                                break
-
                     new_post_decisions = [[[] for _ in range(3)] for _ in range(4)]
 
                     # evaluate chankan ron
-- 
2.43.0


From fb941b1aa8ba5ac11e5a25850240fba755f747e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 12/50] fix: count each draw once in the tiles left to draw

A kan was counted three times: at the kan, at the dora and at the draw.
---
 MahjongAI/process_xml.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index e6bf08a..a288729 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -129,7 +129,6 @@ def process(file_path: str, verbose: bool = False):
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                remaining_tsumo -= 1
                 encoding_tokens.append(new_dora2idx(tile_idx))
 
             elif eventtype == "REACH":
@@ -199,9 +198,6 @@ def process(file_path: str, verbose: bool = False):
                                 decision.executed = True
                                 break
 
-                if not naki.is_chi() and not naki.is_pon():
-                    remaining_tsumo -= 1
-
                 exposed, acquired = naki.get_exposed()
                 exposed_idx = TILE2IDX[exposed]
 
-- 
2.43.0


From 42c7c911c36954322a43769586b786a31eabab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 13/50] fix: account for a red five revealed as dora indicator

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index a288729..a0e071c 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -124,12 +124,12 @@ def process(file_path: str, verbose: bool = False):
 
             if eventtype == "DORA":
                 tile = int(event["attr"]["hai"])
-                tile_idx = TILE2IDX[tile][0]
+                tile_idx = TILE2IDX[tile]
                 doras = doras[:] + [tile]
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                encoding_tokens.append(new_dora2idx(tile_idx))
+                encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
                 assert curr_halfturn is not None
-- 
2.43.0


From d1071e034cc3660d3d67514ef64427df253f26e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 14/50] fix: keep one-shot alive until the next own discard or
 any call

It started with the declaration instead of its acceptance and ended for
everybody at the next draw of anybody.
---
 MahjongAI/process_xml.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index a0e071c..3bcceea 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -156,8 +156,8 @@ def process(file_path: str, verbose: bool = False):
                         double_reaches[player] = 1
                     encoding_tokens.append(reach2idx(player))
 
-                ippatsu = ippatsu[:]
-                ippatsu[player] = 1
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 1
 
             elif eventtype == "N":
                 assert curr_halfturn is not None
@@ -319,10 +319,6 @@ def process(file_path: str, verbose: bool = False):
                 hand_tensors_full[player][tile_idx] += 1.0
                 assert int(hand_tensors[player][:34].sum()) % 3 == 2
 
-                if ippatsu[player]:
-                    ippatsu = ippatsu[:]
-                    ippatsu[player] = 0
-
                 # check if tsumo is possible
                 agari_decisions = evaluate_tsumo(
                     player=player,
@@ -412,8 +408,6 @@ def process(file_path: str, verbose: bool = False):
 
                 halfturns.append(halfturn)
                 curr_halfturn = halfturn  # carry over
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
 
             elif eventtype[0] in ["D", "E", "F", "G"]:
                 assert acquired is not None
@@ -445,6 +439,10 @@ def process(file_path: str, verbose: bool = False):
                 ].sum()
                 sutehai_tensors[player, tile_idx] = 1.0
 
+                if ippatsu[player]:
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 0
+
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1.0
                 remaining_tiles_pov[player][tile_idx] += 1.0
-- 
2.43.0


From c12897f3447b45bc53dcf76cad1d6c65fd3c993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 15/50] fix: end the uninterrupted first turn with any call

The count mixed an absolute with a relative seat and ignored concealed kans,
so double riichi and first-turn wins depended on who called from whom.
---
 MahjongAI/process_xml.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 3bcceea..e7e2c7f 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -165,8 +165,7 @@ def process(file_path: str, verbose: bool = False):
 
                 naki = Naki(int(event["attr"]["m"]))
                 player = int(event["attr"]["who"])
-                from_who = naki.from_who()
-                cycles += (player - from_who) % 4
+                cycles += 4  # any call ends the uninterrupted first turn
                 melds[player] = melds[player][:] + [naki]
 
                 encoding_tokens.append(naki2idx(player, naki))
@@ -298,7 +297,6 @@ def process(file_path: str, verbose: bool = False):
                 curr_halfturn = None
 
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
-                    cycles += 1
                     acquired = None
 
             elif eventtype[0] in ["T", "U", "V", "W"]:
-- 
2.43.0


From 9158f2be5843c5944999fe4e5ad9296101d9a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 16/50] fix: do not offer a first-turn ron as a yaku

Tenhou does not have it, and the condition used absolute seats.
---
 MahjongAI/process_xml.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index e7e2c7f..f7662b8 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -460,10 +460,7 @@ def process(file_path: str, verbose: bool = False):
                     is_chankan=False,
                     is_haitei=(remaining_tsumo == 0),
                     double_reaches=double_reaches,
-                    is_renhou=[
-                        (cycles <= 3 and player >= cycles and min(is_menzen))
-                        for _ in range(4)
-                    ],
+                    is_renhou=[False] * 4,
                     player_wind=roundinfo.player_wind,
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
-- 
2.43.0


From da5813e9b48948f7a2976f7fd1a5a9a1e66edf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 17/50] fix: evaluate wins with each player's seat wind

All players were evaluated with one number in 0-3, which is no wind tile, so
seat and round wind triplets never counted and the dealer was unknown.
---
 MahjongAI/gameinfo.py    |  5 +++--
 MahjongAI/utils/agari.py | 12 ++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/MahjongAI/gameinfo.py b/MahjongAI/gameinfo.py
index 3519ad5..672f187 100644
--- a/MahjongAI/gameinfo.py
+++ b/MahjongAI/gameinfo.py
@@ -38,8 +38,9 @@ class RoundInfo:
         self.parent_rounds_remaining = [
             (self.remaining_rounds + i) // 4 for i in range(4)
         ]
-        self.player_wind = curr_round % 4
-        self.round_wind = curr_round // 4
+        # winds as tile kinds (27: east ... 30: north), one seat wind per player
+        self.player_wind = [27 + (player - curr_round) % 4 for player in range(4)]
+        self.round_wind = 27 + curr_round // 4
 
     def __repr__(self):
         return f"RoundInfo: gameinfo={self.gameinfo}, remaining_rounds={self.remaining_rounds}, parent_rounds_remaining={self.parent_rounds_remaining}"
diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 7e2b2d7..f197a5c 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -50,7 +50,7 @@ def evaluate_ron(
     is_haitei: bool,
     double_reaches: List[int],
     is_renhou: List[bool],
-    player_wind: int,
+    player_wind: List[int],
     round_wind: int,
     kyotaku: int,
     honba: int,
@@ -128,7 +128,7 @@ def evaluate_ron(
             is_houtei=False,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
-            player_wind=player_wind,
+            player_wind=player_wind[p],
             round_wind=round_wind,
             kyoutaku_number=kyotaku,
             tsumi_number=honba,
@@ -166,7 +166,7 @@ def evaluate_tsumo(
     double_reaches: List[int],
     is_tenhou: bool,
     is_chiihou: bool,
-    player_wind: int,
+    player_wind: List[int],
     round_wind: int,
     kyotaku: int,
     honba: int,
@@ -235,7 +235,7 @@ def evaluate_tsumo(
         is_tenhou=is_tenhou,
         is_chiihou=is_chiihou,
         is_renhou=False,
-        player_wind=player_wind,
+        player_wind=player_wind[player],
         round_wind=round_wind,
         kyoutaku_number=kyotaku,
         tsumi_number=honba,
@@ -455,8 +455,8 @@ if __name__ == "__main__":
     is_haitei = False
     double_reaches = [0, 0, 0, 0]
     is_renhou = [False] * 4
-    player_wind = 2
-    round_wind = 0
+    player_wind = [27, 28, 29, 30]
+    round_wind = 27
     kyotaku = 1
     honba = 0
 
-- 
2.43.0


From c6e430159ed69c8fc13914843bd155bd01b0e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 18/50] fix: evaluate wins with a winning tile that is in the
 rebuilt hand

The hand is rebuilt from counts, so the recorded copy was usually not in it
and the win was rejected.
---
 MahjongAI/utils/agari.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index f197a5c..a55b1f6 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -138,7 +138,7 @@ def evaluate_ron(
         # TODO: use Agari.is_agari instead for better performance
         result: HandResponse = hand_calculator.estimate_hand_value(
             tiles=tiles,
-            win_tile=discarded_tile,
+            win_tile=next(t for t in tiles if t // 4 == discarded_tile // 4),
             melds=melds,
             dora_indicators=doras,
             config=config,
@@ -244,7 +244,7 @@ def evaluate_tsumo(
 
     result: HandResponse = hand_calculator.estimate_hand_value(
         tiles=tiles,
-        win_tile=tsumo_tile,
+        win_tile=next(t for t in tiles if t // 4 == tsumo_tile // 4),
         melds=melds,
         dora_indicators=doras,
         config=config,
-- 
2.43.0


From 4970561a0e0d264c3d83a191cbcb2a10b3037348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 19/50] fix: count the last discard as the last-tile yaku for
 ron

The flag for the self-drawn yaku was passed, which rejects every ron there.
---
 MahjongAI/utils/agari.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index a55b1f6..6ae563b 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -124,8 +124,8 @@ def evaluate_ron(
             is_ippatsu=ippatsu[p],
             is_rinshan=False,
             is_chankan=is_chankan,
-            is_haitei=is_haitei,
-            is_houtei=False,
+            is_haitei=False,
+            is_houtei=is_haitei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
             player_wind=player_wind[p],
-- 
2.43.0


From f4da39397aa5c8becb78674d28d96f1b9f719655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 20/50] fix: count a win on the replacement tile of a kan as
 such

---
 MahjongAI/process_xml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index f7662b8..2ba0598 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -106,6 +106,7 @@ def process(file_path: str, verbose: bool = False):
         is_menzen = [1] * 4
         curr_halfturn = None
         cycles = 0
+        is_rinshan = False
         acquired = None
         result_idx = None
 
@@ -298,6 +299,7 @@ def process(file_path: str, verbose: bool = False):
 
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     acquired = None
+                    is_rinshan = True
 
             elif eventtype[0] in ["T", "U", "V", "W"]:
                 assert acquired is None
@@ -326,8 +328,8 @@ def process(file_path: str, verbose: bool = False):
                     doras=doras,
                     reaches=reaches,
                     ippatsu=ippatsu,
-                    is_haitei=(remaining_tsumo == 0),
-                    is_rinshan=False,
+                    is_haitei=(remaining_tsumo == 0 and not is_rinshan),
+                    is_rinshan=is_rinshan,
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1),
                     is_chiihou=(2 <= cycles <= 4 and min(is_menzen)),
@@ -337,6 +339,8 @@ def process(file_path: str, verbose: bool = False):
                     honba=honba,
                 )
 
+                is_rinshan = False
+
                 # check if reach is possible
                 reach_decisions = []
                 if not reaches[player] and is_menzen[player]:
-- 
2.43.0


From 45ecd30fe5868e85f11e163739a3efbdf05e9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 21/50] fix: offer riichi only with 1000 points and four tiles
 left to draw

---
 MahjongAI/process_xml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 2ba0598..1777e72 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -343,7 +343,12 @@ def process(file_path: str, verbose: bool = False):
 
                 # check if reach is possible
                 reach_decisions = []
-                if not reaches[player] and is_menzen[player]:
+                if (
+                    not reaches[player]
+                    and is_menzen[player]
+                    and scores[player] >= 10
+                    and remaining_tsumo >= 4
+                ):
                     shanten = shanten_solver.calculate_shanten(
                         hand_tensors[player][:34]
                     )
-- 
2.43.0


From 71a72606de36a4a127644d65124bbe6bb8acaa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 22/50] fix: offer no calls after riichi or on the last discard

---
 MahjongAI/process_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 1777e72..9e72472 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -488,6 +488,9 @@ def process(file_path: str, verbose: bool = False):
                     if p == player:
                         assert len(decision_lst) == 0
                         continue
+                    # no calls after riichi or on the last discard
+                    if reaches[p] or remaining_tsumo == 0:
+                        continue
                     post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
                 half_turn = PostTurn(
-- 
2.43.0


From 2a9c9b575b253d0b4da49771c80378004f4bd89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 23/50] fix: offer an added kan when the fourth tile is in hand

The tile kind was looked up in the table of individual tiles, and the place
of the red five was ignored.
---
 MahjongAI/process_xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 9e72472..10939d0 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -366,14 +366,14 @@ def process(file_path: str, verbose: bool = False):
                 # check if kakan is possible
                 for meld in melds[player]:
                     if meld.is_pon():
-                        color, number, *_ = meld.pattern_pon()
-                        if hands[player, 9 * color + number] == 1.0:
+                        color, number, _, has_red, *_ = meld.pattern_pon()
+                        if hand_tensors[player][9 * color + number] == 1.0:
                             naki_decisions.append(
                                 NakiDecision(
                                     player,
                                     Naki.from_kakan_info(
-                                        9 * color + number, 0
-                                    ),  # TODO get accurate "which" value
+                                        9 * color + number, int(has_red)
+                                    ),
                                     executed=False,
                                 )
                             )
-- 
2.43.0


From 9286a4a4b99549e8e84575832b95302a72fd2ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 24/50] fix: offer a concealed kan after riichi only when it
 keeps the waits

---
 MahjongAI/process_xml.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 10939d0..ace842a 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -2,6 +2,7 @@ import sys
 import xml.etree.ElementTree as ET
 import numpy as np
 import copy
+from mahjong.agari import Agari
 from mahjong.shanten import Shanten
 
 sys.path.append("..")
@@ -359,6 +360,10 @@ def process(file_path: str, verbose: bool = False):
                 naki_decisions = []
                 # check if ankan is possible
                 for i in np.where(hand_tensors[player] == 4.0)[0]:
+                    if reaches[player] and not _keeps_waits(
+                        hand_tensors[player], i, tile_idx[0]
+                    ):
+                        continue
                     naki_decisions.append(
                         NakiDecision(player, Naki.from_ankan_info(i), executed=False)
                     )
@@ -546,6 +551,31 @@ def process(file_path: str, verbose: bool = False):
     return all_halfturns, all_encoding_tokens
 
 
+def _keeps_waits(hand_tensor: np.ndarray, kan_idx: int, drawn_idx: int):
+    """
+    Whether a concealed kan is allowed after riichi: it must be made with the
+    drawn tile and leave the waits as they were.
+    """
+    if kan_idx != drawn_idx:
+        return False
+
+    def waits(tiles):
+        completed = []
+        for i in range(34):
+            if tiles[i] < 4:
+                tiles[i] += 1
+                if Agari.is_agari(tiles):
+                    completed.append(i)
+                tiles[i] -= 1
+        return completed
+
+    tiles = [int(n) for n in hand_tensor[:34]]
+    tiles[drawn_idx] -= 1
+    before = waits(tiles)
+    tiles[drawn_idx] -= 3
+    return waits(tiles) == before
+
+
 def _get_rounds(file_path: str):
     with open(file_path, "rb") as file:
         tree = ET.parse(file)
-- 
2.43.0


From 0691d3109e96b92b72194b793201917bbcbe1c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 25/50] fix: offer no kan when no replacement tile is left

---
 MahjongAI/process_xml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index ace842a..d7a7c8e 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -383,6 +383,10 @@ def process(file_path: str, verbose: bool = False):
                                 )
                             )
 
+                # no kan without a replacement tile
+                if remaining_tsumo == 0:
+                    naki_decisions = []
+
                 during_decisions = [
                     agari_decisions,
                     reach_decisions,
-- 
2.43.0


From df3d451725cae2f093764ce124b824ca4e655c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 26/50] fix: mark a call as taken for the caller only

---
 MahjongAI/process_xml.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index d7a7c8e..c31ff92 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -188,16 +188,14 @@ def process(file_path: str, verbose: bool = False):
                 else:
                     assert isinstance(curr_halfturn, PostTurn)
                     # TODO: exclude decision that would not have been picked up anyways
-                    for lst in curr_halfturn.decisions:
-                        for decision in lst[DECISION_NAKI_IDX]:
-                            assert isinstance(decision, NakiDecision)
-                            # TODO: check if this is correct
-                            if (
-                                decision.naki.convenient_naki_code
-                                == naki.convenient_naki_code
-                            ):
-                                decision.executed = True
-                                break
+                    for decision in curr_halfturn.decisions[player][DECISION_NAKI_IDX]:
+                        assert isinstance(decision, NakiDecision)
+                        if (
+                            decision.naki.convenient_naki_code
+                            == naki.convenient_naki_code
+                        ):
+                            decision.executed = True
+                            break
 
                 exposed, acquired = naki.get_exposed()
                 exposed_idx = TILE2IDX[exposed]
-- 
2.43.0


From 5a92738d6d51ad69db18a99e3d3f90116047776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 27/50] fix: mark wins as taken

A win that ended the round was recorded as passed.
---
 MahjongAI/process_xml.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index c31ff92..8b86b8a 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -294,7 +294,8 @@ def process(file_path: str, verbose: bool = False):
                 if naki.is_ankan():
                     pass
 
-                curr_halfturn = None
+                if not naki.is_kakan():  # a robbed kan is decided at its own point
+                    curr_halfturn = None
 
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     acquired = None
@@ -531,7 +532,15 @@ def process(file_path: str, verbose: bool = False):
                 result.append(
                     AgariResult(list(map(int, event["attr"]["sc"].split(","))))
                 )
-                # TODO: make decision executed = True
+                # mark the win as taken
+                who = int(event["attr"]["who"])
+                decisions = []
+                if isinstance(curr_halfturn, DuringTurn):
+                    decisions = curr_halfturn.decisions[DECISION_AGARI_IDX]
+                elif isinstance(curr_halfturn, PostTurn):
+                    decisions = curr_halfturn.decisions[who][DECISION_AGARI_IDX]
+                for decision in decisions:
+                    decision.executed = True
 
             elif event["event"] == "RYUUKYOKU":
                 result.append(
-- 
2.43.0


From b4e430ae6a5fee28595088e6daab59b6f6328051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 28/50] fix: offer no ron when any wait is among the own
 discards

Only the discarded tile itself was looked up.
---
 MahjongAI/utils/agari.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 6ae563b..2a997bd 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -3,6 +3,7 @@ import sys
 
 sys.path.append("../../")
 
+from mahjong.agari import Agari
 from mahjong.tile import TilesConverter
 from mahjong.hand_calculating.hand import HandCalculator
 from mahjong.hand_calculating.hand_response import HandResponse
@@ -147,12 +148,25 @@ def evaluate_ron(
         if verbose:
             print(result)
 
-        if result.error is None:
+        if result.error is None and not _discarded_wait(
+            hand_tensor, melds, sutehai_tensor[p]
+        ):
             rons[p] = AgariDecision(p, False)
 
     return rons
 
 
+def _discarded_wait(hand_tensor, melds, sutehai) -> bool:
+    """Whether any tile that would complete the hand is among the own discards."""
+    melds_34 = [meld.tiles_34 for meld in melds]
+    for idx in np.flatnonzero(sutehai[:34]):
+        tiles_34 = [int(n) for n in hand_tensor[:34]]
+        tiles_34[idx] += 1
+        if Agari.is_agari(tiles_34, melds_34):
+            return True
+    return False
+
+
 def evaluate_tsumo(
     player,
     hand_tensors_full: List[np.ndarray],
-- 
2.43.0


From 9020a7e9c8470c4efbd9e9680326833014754edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 29/50] fix: offer no ron after passing a winning tile

A player who passed may not win by ron before the next own turn, or until the
end of the round after riichi.
---
 MahjongAI/process_xml.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 8b86b8a..7c5e29b 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -108,6 +108,7 @@ def process(file_path: str, verbose: bool = False):
         curr_halfturn = None
         cycles = 0
         is_rinshan = False
+        missed_win = [0] * 4  # passed a winning tile since the last own turn
         acquired = None
         result_idx = None
 
@@ -168,6 +169,8 @@ def process(file_path: str, verbose: bool = False):
                 naki = Naki(int(event["attr"]["m"]))
                 player = int(event["attr"]["who"])
                 cycles += 4  # any call ends the uninterrupted first turn
+                if not reaches[player]:
+                    missed_win[player] = 0
                 melds[player] = melds[player][:] + [naki]
 
                 encoding_tokens.append(naki2idx(player, naki))
@@ -276,7 +279,7 @@ def process(file_path: str, verbose: bool = False):
                     )
 
                     for decision in decisions:
-                        if decision is not None:
+                        if decision is not None and not missed_win[decision.player]:
                             new_post_decisions[decision.player][
                                 DECISION_AGARI_IDX
                             ].append(decision)
@@ -289,6 +292,7 @@ def process(file_path: str, verbose: bool = False):
                     )
 
                     halfturns.append(curr_halfturn)
+                    _note_missed_wins(missed_win, hand_tensors, player, exposed[0])
 
                 # TODO: add logic for ankan kokushi ron
                 if naki.is_ankan():
@@ -307,6 +311,8 @@ def process(file_path: str, verbose: bool = False):
 
                 player = ["T", "U", "V", "W"].index(eventtype[0])
                 cycles += 1
+                if not reaches[player]:
+                    missed_win[player] = 0
                 acquired = int(eventtype[1:])
                 tile_idx = TILE2IDX[acquired]
                 remaining_tiles[tile_idx] -= 1
@@ -485,9 +491,11 @@ def process(file_path: str, verbose: bool = False):
                 )
 
                 for ron in rons:
-                    if ron is not None:
+                    if ron is not None and not missed_win[ron.player]:
                         post_decisions[ron.player][DECISION_AGARI_IDX].append(ron)
 
+                _note_missed_wins(missed_win, hand_tensors, player, tile)
+
                 naki_decisions = decision_mask(
                     player, hand_tensors, tile_idx[0], len(tile_idx) == 2
                 )
@@ -562,6 +570,19 @@ def process(file_path: str, verbose: bool = False):
     return all_halfturns, all_encoding_tokens
 
 
+def _note_missed_wins(missed_win, hand_tensors, player: int, tile: int):
+    """
+    Mark the players whose hand this tile would have completed: if the round goes
+    on, they may not win by ron before their next turn (ever after riichi).
+    """
+    for p in range(4):
+        if p != player:
+            tiles = [int(n) for n in hand_tensors[p][:34]]
+            tiles[tile // 4] += 1
+            if Agari.is_agari(tiles):
+                missed_win[p] = 1
+
+
 def _keeps_waits(hand_tensor: np.ndarray, kan_idx: int, drawn_idx: int):
     """
     Whether a concealed kan is allowed after riichi: it must be made with the
-- 
2.43.0


From ca514276525cff8c119d81c6853fe0ede3485fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 30/50] fix: encode a discard as a discard, not as a call

---
 MahjongAI/process_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 7c5e29b..ec1827e 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -659,7 +659,7 @@ def discard2idx(who: int, tile_idx: int, is_tsumogiri: bool):
     assert 0 <= tile_idx < 37
     return (
         EventStateTypes.DISCARD << 13
-        | EventTypes.NAKI << 10
+        | EventTypes.DISCARD << 10
         | who << 8
         | int(is_tsumogiri) << 7
         | tile_idx
-- 
2.43.0


From ef8583f61ee3b603842c57cf724f1eceb3c202c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 31/50] fix: include the discard in the history of the
 reactions to it

The recorded position ended before the discard being reacted to.
---
 MahjongAI/process_xml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index ec1827e..5d14a5c 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -468,6 +468,10 @@ def process(file_path: str, verbose: bool = False):
                     pov[tile_idx] -= 1.0
                 remaining_tiles_pov[player][tile_idx] += 1.0
 
+                encoding_tokens.append(
+                    discard2idx(player, tile_idx[0], tile == acquired)
+                )
+
                 # post_decisions will contain three lists of different decisions: ron, pon/kan, chi
                 post_decisions = [[[] for _ in range(3)] for _ in range(4)]
 
@@ -518,9 +522,6 @@ def process(file_path: str, verbose: bool = False):
                 halfturns.append(half_turn)
                 curr_halfturn = half_turn  # carry over
 
-                encoding_tokens.append(
-                    discard2idx(player, tile_idx[0], tile == acquired)
-                )
                 acquired = None
 
             elif eventtype == "AGARI" or eventtype == "RYUUKYOKU":
-- 
2.43.0


From c2435b256ce9cfa1dfdc794f2725accc0e5c9c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 32/50] fix: show each player's own view in rows of reactions

Reactions to a discard were trained on the hand and tile counts of the player
who discarded, as they were before the discard.
---
 MahjongAI/agents/transformer.py              |  8 ++-
 MahjongAI/agents/transformer_conv.py         |  8 ++-
 MahjongAI/agents/transformer_conv_large.py   |  8 ++-
 MahjongAI/agents/transformer_conv_ordered.py |  8 ++-
 MahjongAI/process_xml.py                     | 72 ++++++++------------
 MahjongAI/turn.py                            |  2 +
 6 files changed, 51 insertions(+), 55 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index a677569..213f69a 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -944,9 +944,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -987,6 +984,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # the view of the player who decides
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 04d844f..fdddefd 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -923,9 +923,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -966,6 +963,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # the view of the player who decides
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 75bbec1..853527c 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -923,9 +923,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -966,6 +963,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # the view of the player who decides
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 1c146c8..937e883 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -1048,9 +1048,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # Iterate through players in order
             action_player = turn.player
             ordered_players = players[action_player + 1 :] + players[:action_player]
@@ -1100,6 +1097,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # the view of the player who decides
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5d14a5c..ba1643e 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -112,6 +112,29 @@ def process(file_path: str, verbose: bool = False):
         acquired = None
         result_idx = None
 
+        def record_state(player: int):
+            return StateObject(
+                remaining_turns=remaining_tsumo,
+                hand_tensor=np.copy(hand_tensors[player]),
+                remaining_tiles=np.copy(remaining_tiles),
+                remaining_tiles_pov=np.copy(remaining_tiles_pov[player]),
+                sutehai_tensors=np.copy(sutehai_tensors),
+                is_menzen=is_menzen[:],
+                double_reaches=double_reaches,
+                reaches=reaches,  # share same reach list
+                ippatsu=ippatsu,  # share same ippatsu list
+                melds=[lst[:] for lst in melds],
+                scores=scores,
+                kyotaku=kyotaku,
+                honba=honba,
+                dora=doras,  # share same dora list
+                parent_tensor=parent_tensor,
+                rounds_remaining=rounds_remaining,
+                parent_rounds_remaining=parent_rounds_remaining,
+                remaining_tsumo=remaining_tsumo,
+                player=player,
+            )
+
         if verbose:
             print(f"Scores: {scores}")
             print(f"Parent: {parent}")
@@ -232,27 +255,7 @@ def process(file_path: str, verbose: bool = False):
                                 melds[player].pop(i)
                                 break
 
-                stateObj = StateObject(
-                    remaining_turns=remaining_tsumo,
-                    hand_tensor=np.copy(hand_tensors[player]),
-                    remaining_tiles=np.copy(remaining_tiles),
-                    remaining_tiles_pov=np.copy(remaining_tiles_pov[player]),
-                    sutehai_tensors=np.copy(sutehai_tensors),
-                    is_menzen=is_menzen[:],
-                    double_reaches=double_reaches,
-                    reaches=reaches,  # share same reach list
-                    ippatsu=ippatsu,  # share same ippatsu list
-                    melds=[lst[:] for lst in melds],
-                    scores=scores,
-                    kyotaku=kyotaku,
-                    honba=honba,
-                    dora=doras,  # share same dora list
-                    parent_tensor=parent_tensor,
-                    rounds_remaining=rounds_remaining,
-                    parent_rounds_remaining=parent_rounds_remaining,
-                    remaining_tsumo=remaining_tsumo,
-                    player=player,
-                )
+                stateObj = record_state(player)
 
                 # in case of Kakan, create new post turn to train on chankan ron decision
                 if naki.is_kakan():
@@ -289,6 +292,7 @@ def process(file_path: str, verbose: bool = False):
                         stateObj=stateObj,
                         decisions=new_post_decisions,
                         encoding_idx=len(encoding_tokens),
+                        stateObjs=[record_state(p) for p in range(4)],
                     )
 
                     halfturns.append(curr_halfturn)
@@ -398,27 +402,7 @@ def process(file_path: str, verbose: bool = False):
                     naki_decisions,
                 ]
 
-                stateObj = StateObject(
-                    remaining_turns=remaining_tsumo,
-                    hand_tensor=np.copy(hand_tensors[player]),
-                    remaining_tiles=np.copy(remaining_tiles),
-                    remaining_tiles_pov=np.copy(remaining_tiles_pov[player]),
-                    sutehai_tensors=np.copy(sutehai_tensors),
-                    is_menzen=is_menzen[:],
-                    double_reaches=double_reaches,
-                    reaches=reaches,  # share same reach list
-                    ippatsu=ippatsu,  # share same ippatsu list
-                    melds=[lst[:] for lst in melds],
-                    scores=scores,
-                    kyotaku=kyotaku,
-                    honba=honba,
-                    dora=doras,  # share same dora list
-                    parent_tensor=parent_tensor,
-                    rounds_remaining=rounds_remaining,
-                    parent_rounds_remaining=parent_rounds_remaining,
-                    remaining_tsumo=remaining_tsumo,
-                    player=player,
-                )
+                stateObj = record_state(player)
 
                 halfturn = DuringTurn(
                     player=player,
@@ -513,11 +497,13 @@ def process(file_path: str, verbose: bool = False):
                         continue
                     post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
+                views = [record_state(p) for p in range(4)]
                 half_turn = PostTurn(
                     player=player,
-                    stateObj=stateObj,
+                    stateObj=views[player],
                     decisions=post_decisions,
                     encoding_idx=len(encoding_tokens),
+                    stateObjs=views,
                 )
                 halfturns.append(half_turn)
                 curr_halfturn = half_turn  # carry over
diff --git a/MahjongAI/turn.py b/MahjongAI/turn.py
index 6b10a21..a1ef169 100644
--- a/MahjongAI/turn.py
+++ b/MahjongAI/turn.py
@@ -64,9 +64,11 @@ class PostTurn(HalfTurn):
         stateObj: StateObject,
         decisions: List[List[List[Decision]]],
         encoding_idx: int,
+        stateObjs: List[StateObject] = None,  # view of each player
     ):
         super().__init__(player, HalfTurn.POST, stateObj, encoding_idx)
         self.decisions = decisions
+        self.stateObjs = stateObjs if stateObjs is not None else [stateObj] * 4
 
     def __repr__(self):
         return "PostTurn Object | Player: {} | Decisions: {}".format(
-- 
2.43.0


From 8d2082ea3c4bc2804727652a0b67390134a5ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 33/50] fix: label own-turn rows with the action taken

The label shared a variable with the loop over decision kinds, so pass, win
and riichi were all labelled as riichi.
---
 MahjongAI/agents/transformer.py              | 10 +++++-----
 MahjongAI/agents/transformer_conv.py         | 10 +++++-----
 MahjongAI/agents/transformer_conv_large.py   | 10 +++++-----
 MahjongAI/agents/transformer_conv_ordered.py | 10 +++++-----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index 213f69a..10b01cd 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -819,7 +819,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -830,12 +830,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -844,12 +844,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index fdddefd..b188bfa 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 853527c..b4f9bd7 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 937e883..93b44f9 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -909,7 +909,7 @@ class TransformerTensorProcessor:
             )
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -920,12 +920,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -939,12 +939,12 @@ class TransformerTensorProcessor:
                         ), f"Filter idx {idx} out of range for DURING_TURN_ACTION_DIM"
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
             player_tensor.append(turn.player)
 
-- 
2.43.0


From ffd7065b9289c63878fbc0065c33c8638d642a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 34/50] fix: embed history fields for the events that have them

The masks of the three older encoders selected exactly the other events: no
discard had its tile or seat, no call its slot, and padding was not neutral.
---
 MahjongAI/agents/transformer.py            | 18 +++++++++---------
 MahjongAI/agents/transformer_conv.py       | 18 +++++++++---------
 MahjongAI/agents/transformer_conv_large.py | 18 +++++++++---------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index 10b01cd..4b4ce4c 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index b188bfa..7fa70be 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index b4f9bd7..934a9a3 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
-- 
2.43.0


From a72d7fa87971701954643b6eea3a481fbff383ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 35/50] fix: skip a game that fails an internal check instead
 of ending the process

---
 MahjongAI/utils/dataloader.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index e330fdd..576c5a0 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -1,5 +1,4 @@
 import os
-import sys
 import torch
 
 from MahjongAI.process_xml import process, InvalidGameException
@@ -37,9 +36,6 @@ class DataLoader:
             except InvalidGameException as e:
                 # print(f"Invalid game detected: {e.msg}")
                 continue  # Skip to the next file
-            except AssertionError as e:
-                print(f"Assertion error: {e} happened in {filename}")
-                sys.exit(1) # TODO: remove this line
             except Exception as e:
                 print(f"Unexpected error: {e} happened in {filename}")
                 continue
-- 
2.43.0


From ab6f1a86e1c8a788a356dbacb1018d112337caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 36/50] fix: deliver no empty batch when the remaining files
 are unusable

The models cannot take an empty batch.
---
 MahjongAI/utils/dataloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index 576c5a0..577ba99 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -44,6 +44,9 @@ class DataLoader:
             all_halfturns_list.append(all_halfturns)
             all_encoding_tokens_list.append(all_encoding_tokens)
 
+        if not all_halfturns_list:  # no usable game was left
+            raise StopIteration
+
         self.log_func(f"{self.__repr__()} - Batch {self.batch_count}")
 
         return all_halfturns_list, all_encoding_tokens_list
-- 
2.43.0


From 241c6484106688043148cd7676b93e957f143be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 37/50] fix: save checkpoints atomically

A process that died while saving left a torn file that was then picked as the
latest checkpoint and broke every rerun.
---
 MahjongAI/supervised_learning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index beb9ae8..8248bbe 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -179,7 +179,9 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
             model_path = os.path.join(
                 checkpoint_dir, f"model_{model_name}_checkpoint_iter_{iter}.pt"
             )
-            torch.save(model.state_dict(), model_path)
+            # write aside and rename, so that a crash leaves no partial checkpoint
+            torch.save(model.state_dict(), model_path + ".tmp")
+            os.replace(model_path + ".tmp", model_path)
             log_message(f"Model saved at {model_path}")
 
         train_dataloader.reset()
-- 
2.43.0


From cfd8b5df43b460a9bc827f8d9b6eea773f79d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 38/50] fix: recognise checkpoints by their whole file name

---
 MahjongAI/supervised_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index 8248bbe..2e46761 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -40,7 +40,7 @@ def find_latest_checkpoint(model_name: str, checkpoint_dir: str) -> Tuple[int, s
     regex = rf"model_{re.escape(model_name)}_checkpoint_iter_(\d+)\.pt"
 
     for file in checkpoint_files:
-        match = re.search(regex, file)
+        match = re.fullmatch(regex, os.path.basename(file))
         if match:
             iter_num = int(match.group(1))
             if iter_num > max_iter:
-- 
2.43.0


From e795f4184e1479fbca9b93a6c8883f92a3d911dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 39/50] fix: keep training when there is no validation data

---
 MahjongAI/supervised_learning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index 2e46761..ec40f1d 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -206,7 +206,8 @@ def estimate_loss(val_dataloader: DataLoader, model, batch_size: int):
     val_dataloader.reset()
 
     model.train()  # Return model to training mode
-    return total_loss / num_batches  # Average validation loss
+    # Average validation loss (nan without validation data)
+    return total_loss / num_batches if num_batches else float("nan")
 
 
 def log_message(message: str):
-- 
2.43.0


From 713aefe8c120692bf2d305dc95d2eeefba60487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 40/50] fix: seven pairs need seven different kinds

---
 MahjongAI/utils/shanten.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index e699159..bdc8aaa 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -132,7 +132,11 @@ class ShantenSolver:
             process_shuntsu(idx)
 
     def solve_chitoitsu(self):
-        self.best_shanten = min(self.best_shanten, 6 - sum(self.hand_tensor >= 2.0))
+        n_kinds = sum(self.hand_tensor >= 1.0)
+        self.best_shanten = min(
+            self.best_shanten,
+            6 - sum(self.hand_tensor >= 2.0) + max(0, 7 - n_kinds),
+        )
 
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR
-- 
2.43.0


From f1777878b291e49c105943e52f2df08ef141f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 41/50] fix: no seven pairs or thirteen orphans with open melds

---
 MahjongAI/utils/shanten.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index bdc8aaa..c1aa534 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -146,8 +146,9 @@ class ShantenSolver:
 
     def solve(self):
         self.solve_normal()
-        self.solve_chitoitsu()
-        self.solve_kokushi()
+        if self.n_melds == 0:  # both need a hand without open melds
+            self.solve_chitoitsu()
+            self.solve_kokushi()
 
         return self.best_shanten
 
-- 
2.43.0


From 7bf727a1f577fca8639013d4830e679957d40c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 42/50] fix: count one pair, not extra copies, for thirteen
 orphans

---
 MahjongAI/utils/shanten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index c1aa534..48df174 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -141,7 +141,7 @@ class ShantenSolver:
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR
         self.best_shanten = min(
-            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - (max(yaochu_arr) - 1.0)
+            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - int(max(yaochu_arr) >= 2.0)
         )
 
     def solve(self):
-- 
2.43.0


From 71d53eb1b1a077b0052a198f7e96e50f4b9df682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 43/50] fix: let a sequence take one tile of three identical
 ones

---
 MahjongAI/utils/shanten.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 48df174..3520708 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -121,6 +121,8 @@ class ShantenSolver:
             self.solve_normal(idx)
             self.remove_toitsu(idx)
 
+            process_shuntsu(idx)
+
         elif self.hand_tensor[idx] == 2:
             self.add_toitsu(idx)
             self.solve_normal(idx + 1)
-- 
2.43.0


From 90b28882a95d96ebf8a8c5c976c6cf79388ed08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 44/50] fix: no fifth copy of a tile can complete a hand

---
 MahjongAI/utils/shanten.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 3520708..341ef8e 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -14,6 +14,7 @@ class ShantenSolver:
         self.n_taatsu = 0
         self.n_toitsu = sum(self.hand_tensor[27:] == 2.0)
         self.n_kuttsuki = 0
+        self.n_single_honors = sum(self.hand_tensor[27:] == 1.0)
         self.best_shanten = 14
         self.tune = 0
 
@@ -70,14 +71,20 @@ class ShantenSolver:
             idx += 1
 
         if idx == 27:
-            shanten = min(
-                self.best_shanten, 8 - self.n_mentsu * 2 - self.n_taatsu - self.n_toitsu
-            )
+            shanten = 8 - self.n_mentsu * 2 - self.n_taatsu - self.n_toitsu
             potential_mentsu = max(0, self.n_toitsu - 1) + self.n_taatsu
             if potential_mentsu + self.n_mentsu > 4:
                 shanten += potential_mentsu + self.n_mentsu - 4
-            if self.tune and not self.n_toitsu:
-                shanten += 1
+            # every missing block needs a tile to start from, which the fourth copy of
+            # a complete triplet cannot be for the pair (nor, for honors, for a set)
+            n_singles = self.n_kuttsuki + self.n_single_honors
+            n_missing = max(0, 4 - self.n_mentsu - potential_mentsu)
+            if not self.n_toitsu:
+                if n_singles > self.tune:
+                    n_singles -= 1
+                else:
+                    shanten += 1
+            shanten += max(0, n_missing - n_singles)
             self.best_shanten = min(self.best_shanten, shanten)
             return
 
@@ -105,7 +112,6 @@ class ShantenSolver:
         if self.hand_tensor[idx] == 4:
             self.add_koutsu(idx)
             process_shuntsu(idx, tune=True)
-            self.solve_normal(idx + 1)
             self.remove_koutsu(idx)
 
             self.add_toitsu(idx)
-- 
2.43.0


From 4d92be26cff006e21170bfdf3d29a0efa2e74b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 45/50] fix: show the dora revealed after an open kan at the
 discard

---
 MahjongAI/process_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index ba1643e..6f89e00 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -430,7 +430,7 @@ def process(file_path: str, verbose: bool = False):
 
                 half_turn = DiscardTurn(
                     player=player,
-                    stateObj=stateObj,
+                    stateObj=record_state(player),
                     discarded_tile=tile,
                     encoding_idx=len(encoding_tokens),
                 )
-- 
2.43.0


From 054c6131c1c194416485a1d3b97f30a91a6841a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 46/50] fix: evaluate hands with all four fives

---
 MahjongAI/utils/agari.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 2a997bd..9434a93 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -279,7 +279,12 @@ def hand_tensor2strs(hand_tensor):
     for i in range(0, 27, 9):
         lst = []
         for j in range(9):
-            lst += [j + 1] * int(hand_tensor[i + j])
+            n_tiles = int(hand_tensor[i + j])
+            if j == 4 and n_tiles == 4:
+                # only three plain fives exist, the fourth one is red
+                lst.append(0)
+                n_tiles -= 1
+            lst += [j + 1] * n_tiles
         tile_strs.append("".join(list(map(str, lst))))
 
     lst = []
-- 
2.43.0


From 9057f785ad4b0265251e049f6bf6cb84f7c8eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 47/50] fix: take only the id from a log link

---
 MahjongAI/data/scrape_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/data/scrape_data.py b/MahjongAI/data/scrape_data.py
index 731c60e..62ec707 100644
--- a/MahjongAI/data/scrape_data.py
+++ b/MahjongAI/data/scrape_data.py
@@ -17,9 +17,10 @@ for filename in os.listdir(dir_name):
 
         # Process and download data from each URL
         for url in urls:
-            if url.startswith("http://tenhou.net/0/?log="):
-                # Modify the URL
-                gid = url.split("=")[1]
+            match = re.match(r"http://tenhou\.net/0/\?log=([\w-]+)", url)
+            if match:
+                # Modify the URL (other parameters, such as &tw=, are not part of the id)
+                gid = match.group(1)
                 modified_url = "https://tenhou.net/0/log/?" + gid
                 # print(f"Downloading data from: {modified_url}")
 
-- 
2.43.0


From eac9920172dd8f1322e1393063275911d0e53f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 48/50] fix: offer no fifth kan, there is no replacement tile
 for it

---
 MahjongAI/process_xml.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 6f89e00..fd57a41 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -393,7 +393,7 @@ def process(file_path: str, verbose: bool = False):
                             )
 
                 # no kan without a replacement tile
-                if remaining_tsumo == 0:
+                if remaining_tsumo == 0 or _n_kans(melds) == 4:
                     naki_decisions = []
 
                 during_decisions = [
@@ -495,6 +495,12 @@ def process(file_path: str, verbose: bool = False):
                     # no calls after riichi or on the last discard
                     if reaches[p] or remaining_tsumo == 0:
                         continue
+                    if _n_kans(melds) == 4:  # no replacement tile left
+                        decision_lst = [
+                            decision
+                            for decision in decision_lst
+                            if not decision.naki.is_minkan()
+                        ]
                     post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
                 views = [record_state(p) for p in range(4)]
@@ -557,6 +563,14 @@ def process(file_path: str, verbose: bool = False):
     return all_halfturns, all_encoding_tokens
 
 
+def _n_kans(melds):
+    return sum(
+        bool(meld.is_kakan() or meld.is_minkan() or meld.is_ankan())
+        for naki_list in melds
+        for meld in naki_list
+    )
+
+
 def _note_missed_wins(missed_win, hand_tensors, player: int, tile: int):
     """
     Mark the players whose hand this tile would have completed: if the round goes
-- 
2.43.0


From cc5cb734b1bb117de7a7127f684a3f4978a60919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 49/50] fix: models accept a batch without any round (no rows,
 no outputs)

---
 MahjongAI/agents/transformer.py            | 7 +++++++
 MahjongAI/agents/transformer_conv.py       | 7 +++++++
 MahjongAI/agents/transformer_conv_large.py | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index 4b4ce4c..9789f3f 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -550,6 +550,13 @@ class TransformerTensorProcessor:
                 tensors_discard_batch.append(tensors_discard)
                 tensors_post_batch.append(tensors_post)
 
+        if not tensors_during_batch:
+            # no rounds in the whole batch: no rows either
+            tensors_during, tensors_discard, tensors_post = self.build_tensors([], [])
+            tensors_during_batch.append(tensors_during)
+            tensors_discard_batch.append(tensors_discard)
+            tensors_post_batch.append(tensors_post)
+
         return self.stack_batches(
             tensors_during_batch, tensors_discard_batch, tensors_post_batch
         )
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 7fa70be..2e28abe 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -555,6 +555,13 @@ class TransformerTensorProcessor:
                 tensors_discard_batch.append(tensors_discard)
                 tensors_post_batch.append(tensors_post)
 
+        if not tensors_during_batch:
+            # no rounds in the whole batch: no rows either
+            tensors_during, tensors_discard, tensors_post = self.build_tensors([], [])
+            tensors_during_batch.append(tensors_during)
+            tensors_discard_batch.append(tensors_discard)
+            tensors_post_batch.append(tensors_post)
+
         return self.stack_batches(
             tensors_during_batch, tensors_discard_batch, tensors_post_batch
         )
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 934a9a3..7857e3b 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -555,6 +555,13 @@ class TransformerTensorProcessor:
                 tensors_discard_batch.append(tensors_discard)
                 tensors_post_batch.append(tensors_post)
 
+        if not tensors_during_batch:
+            # no rounds in the whole batch: no rows either
+            tensors_during, tensors_discard, tensors_post = self.build_tensors([], [])
+            tensors_during_batch.append(tensors_during)
+            tensors_discard_batch.append(tensors_discard)
+            tensors_post_batch.append(tensors_post)
+
         return self.stack_batches(
             tensors_during_batch, tensors_discard_batch, tensors_post_batch
         )
-- 
2.43.0


From 53a43a6b5fc0592f92bc09795568d677b062e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 50/50] fix: training goes on when the first batch has no rows
 to learn from

---
 MahjongAI/supervised_learning.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index ec40f1d..713ec94 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -140,6 +140,9 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
         "data/processed/2021/", batch_size
     )  # Validation DataLoader
 
+    # Loss of the last optimization step (nan before the first one)
+    loss = torch.tensor(float("nan"))
+
     for iter in range(start_iter, start_iter + max_iters):
         log_message(f"iter {iter}")
 
-- 
2.43.0

