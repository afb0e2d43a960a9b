From 023172c9fcd3a568897ef42db0fdc5f5122bdef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 01/48] fix: use the arrays returned by occupation distortions
 in Simulation.measure

The OccupationDistortionInterface returns the distorted arrays, but measure()
ignored the return value, so that a distortion which does not work in place had
no effect.
---
 simcats/_simulation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 2308ef1..892bed4 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -249,7 +249,9 @@ class Simulation:
         # add distortions to the occupations
         if self.__occupation_distortions is not None:
             for i in self.__occupation_distortions:
-                i.noise_function(occupations, lead_transitions, sweep_range_g1, sweep_range_g2, generate_csd)
+                occupations, lead_transitions = i.noise_function(
+                    occupations, lead_transitions, sweep_range_g1, sweep_range_g2, generate_csd
+                )
 
                 def generate_csd_with_noise(volt_limits_g1, volt_limits_g2, resolution, generate_csd, noise_function):
                     """
@@ -257,9 +259,8 @@ class Simulation:
                     next distortions.
                     """
                     occupations, lead_transitions = generate_csd(volt_limits_g1, volt_limits_g2, resolution)
-                    noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd,
-                                   freeze=True)
-                    return occupations, lead_transitions
+                    return noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd,
+                                          freeze=True)
 
                 generate_csd = partial(generate_csd_with_noise, generate_csd=generate_csd,
                                        noise_function=i.noise_function)
-- 
2.43.0


From fe579b88f9ae3bd1a472f4e33ef56dbde2f67576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 02/48] fix: scale the 2D transition blurring with the number
 of pixels in sweep direction

The blurring is applied along axis 1 (gate 1), but the sigma in volts was
converted with the number of rows, giving a wrong width for non-square scans.
---
 simcats/distortions/_transition_blurring.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index c9550b4..978210b 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -103,8 +103,8 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
-                # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                # sweeping always happens in x-direction (axis 1)
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = fermi_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = fermi_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
@@ -219,8 +219,8 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
-                # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                # sweeping always happens in x-direction (axis 1)
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = gaussian_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
-- 
2.43.0


From b0a8ff25d9b59def4da7435c20dea6ab2688a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:31 +0000
Subject: [PATCH 03/48] fix: use the pixels of the matching axis to scale the
 RTN of 2D scans

Axis 0 is gate 2 and axis 1 is gate 1, but the number of rows was divided by the
gate 1 range and the number of columns by the gate 2 range (non-square scans got
a wrong burst length).
---
 simcats/distortions/_random_telegraph_noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 8e2fe84..f9cf33a 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -137,7 +137,8 @@ class RandomTelegraphNoise(DistortionInterface):
             scale = self.scale
         # rescale scale according to the resolution per voltage
         if len(original.shape) == 2:
-            resolution = original.shape
+            # axis 0 = y-axis = g2 and axis 1 = x-axis = g1
+            resolution = (original.shape[1], original.shape[0])
             if volt_limits_g1[0] == volt_limits_g1[1]:
                 scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             elif volt_limits_g2[0] == volt_limits_g2[1]:
-- 
2.43.0


From f37a72300fcfe56374299eec45479ae076ed2f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:31 +0000
Subject: [PATCH 04/48] fix: RTN with a burst length below one pixel raised a
 ValueError

The geometric distribution needs p = 1/scale <= 1, but scans with few pixels per
volt gave a scale below 1. Limit it to one pixel, as is done for dot jumps.
---
 simcats/distortions/_random_telegraph_noise.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index f9cf33a..58ecda2 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -3,6 +3,7 @@
 @author: s.fleitmann
 """
 
+import warnings
 from typing import Union, Optional
 
 import numpy as np
@@ -152,6 +153,12 @@ class RandomTelegraphNoise(DistortionInterface):
             resolution = (original.shape[0], original.shape[0])
             # sweep between starting and ending point
             scale *= resolution[0] / np.maximum(np.max(volt_limits_g1) - np.min(volt_limits_g1), np.max(volt_limits_g2) - np.min(volt_limits_g2))
+        if 0 < scale < 1:
+            warnings.warn(
+                "The given scale in voltages results in a pixelwise scale of less than 1 and is thus set to 1. That "
+                "means the length of the RTN bursts is always 1 pixel."
+            )
+            scale = 1
 
         try:
             std = self.std.sample_parameter()
-- 
2.43.0


From 49319e2e0483fdd73af5dac734e9c3065216f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 05/48] fix: dot jumps in 2D scans with both sweep directions
 reversed

Only the flip of axis 1 was applied (and undone) if both gates were swept from
high to low voltages, so that the jumps had the wrong direction in axis 0.
---
 simcats/distortions/_dot_jumps.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 22b6038..f5cb2cf 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -232,9 +232,9 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1, :]
             if volt_limits_g1[0] > volt_limits_g1[1]:
-                sorted_occupations = occupations[:, ::-1]
+                sorted_occupations = sorted_occupations[:, ::-1]
                 if lead_transitions is not None:
-                    sorted_transitions = lead_transitions[:, ::-1]
+                    sorted_transitions = sorted_transitions[:, ::-1]
             self._noise_function_2d(
                 sorted_occupations,
                 sorted_transitions,
@@ -246,14 +246,16 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 freeze,
             )
             # bring back into original order
+            occupations = sorted_occupations
+            lead_transitions = sorted_transitions
             if volt_limits_g2[0] > volt_limits_g2[1]:
-                occupations = sorted_occupations[::-1, :]
+                occupations = occupations[::-1, :]
                 if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1, :]
+                    lead_transitions = lead_transitions[::-1, :]
             if volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[:, ::-1]
+                occupations = occupations[:, ::-1]
                 if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[:, ::-1]
+                    lead_transitions = lead_transitions[:, ::-1]
         return occupations, lead_transitions
 
     def _noise_function_1d(
-- 
2.43.0


From 486f37582019ca1407b22529cd01566913064c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 06/48] fix: use the pixels of the matching axis to scale the
 dot jumps of 2D scans

Axis 1 belongs to gate 1 and axis 0 to gate 2, but the numbers of pixels were
swapped, so that non-square scans got jumps of a wrong length and distance.
---
 simcats/distortions/_dot_jumps.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index f5cb2cf..ee76d79 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -183,15 +183,15 @@ class OccupationDotJumps(OccupationDistortionInterface):
             except AttributeError:
                 lam = self.lam
             if self.axis == 1:  # dot jumps in x direction
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-                lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-            elif self.axis == 0:  # dot jumps in y direction
                 if len(occupations.shape) == 3:
-                    scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                    scale *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                    lam *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 else:
-                    scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                    scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                    lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+            elif self.axis == 0:  # dot jumps in y direction
+                scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             if scale < 1:
                 # smallest possible value is 1, so set to 1. As this might not be, what the user wants, warn about it
                 warnings.warn(
-- 
2.43.0


From b1f4a7205655c919aba17cb9023ad8f19407a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 07/48] fix: dot jumps of more than 255 pixels wrapped around

The jump distances were stored as uint8, so that large distances (in pixels)
wrapped around and the arithmetic on them could overflow.
---
 simcats/distortions/_dot_jumps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index ee76d79..42a222f 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -605,7 +605,7 @@ def generate_dot_jumps_blockwise(
             break
 
     noise = noise[:size]
-    noise = noise.astype("uint8")
+    noise = noise.astype(int)
     return noise
 
 
@@ -739,7 +739,7 @@ def dot_jumps_pixelwise(
 
         noise = noise[:size]
         noise = noise.reshape(original.shape)
-        noise = noise.astype("uint8")
+        noise = noise.astype(int)
 
     shifted = np.empty(original.shape)
     rows = original.shape[0]
-- 
2.43.0


From c5841264bcf943861f874b59f7f5a036ed2b43c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 08/48] fix: use the gate 2 step for dot jumps along gate 2 in
 1D scans

The voltage offset of the additionally generated data was calculated with the
sweep range of gate 1 (no shift at all, if gate 1 is not swept).
---
 simcats/distortions/_dot_jumps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 42a222f..d171222 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -345,7 +345,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupations.shape[0]
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
-- 
2.43.0


From b4bd8debccb313d47fd839ebb060bfbb35f28a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 09/48] fix: dot jumps in 1D scans that sweep the gates in
 opposite directions

The voltage limits of both gates were sorted independently, so that the
additional data was generated for the wrong diagonal of the voltage space.
---
 simcats/distortions/_dot_jumps.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index d171222..72bed1d 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -208,21 +208,24 @@ class OccupationDotJumps(OccupationDistortionInterface):
         sorted_occupations = occupations
         sorted_transitions = lead_transitions
         if len(occupations.shape) == 2:  # 1d scan
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
+            # both gates are swept simultaneously, thus the limits of both gates have to be reversed together
+            limits_jump_gate = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+            reverse = limits_jump_gate[0] > limits_jump_gate[1]
+            if reverse:
                 sorted_occupations = occupations[::-1]
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1]
             self._noise_function_1d(
                 sorted_occupations,
                 sorted_transitions,
-                sorted_limits_g1,
-                sorted_limits_g2,
+                volt_limits_g1[::-1] if reverse else volt_limits_g1,
+                volt_limits_g2[::-1] if reverse else volt_limits_g2,
                 generate_csd,
                 scale,
                 lam,
                 freeze,
             )
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
+            if reverse:
                 occupations = sorted_occupations[::-1]
                 if lead_transitions is not None:
                     lead_transitions = sorted_transitions[::-1]
-- 
2.43.0


From 5ab80fecf2e09b9530d448b805eae5ea81ff9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 10/48] fix: dot jumps along a gate that is not swept raised an
 error

The pixels per volt of a fixed gate are infinite, which ended in a ValueError of
the geometric distribution (or huge jumps). A 1D scan with the gate of the jump
direction fixed now stays unchanged.
---
 simcats/distortions/_dot_jumps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 72bed1d..f232110 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -169,6 +169,13 @@ class OccupationDotJumps(OccupationDistortionInterface):
             else:
                 self.__activated = True
 
+        # there is nothing to jump over if the gate of the jump direction is kept at a fixed voltage
+        limits_jump_gate = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+        if limits_jump_gate[0] == limits_jump_gate[1]:
+            if not freeze:
+                self.__activated = False
+            return occupations, lead_transitions
+
         resolution = occupations.shape[0:2]
         if freeze:
             scale = None
@@ -209,7 +216,6 @@ class OccupationDotJumps(OccupationDistortionInterface):
         sorted_transitions = lead_transitions
         if len(occupations.shape) == 2:  # 1d scan
             # both gates are swept simultaneously, thus the limits of both gates have to be reversed together
-            limits_jump_gate = volt_limits_g1 if self.axis == 1 else volt_limits_g2
             reverse = limits_jump_gate[0] > limits_jump_gate[1]
             if reverse:
                 sorted_occupations = occupations[::-1]
-- 
2.43.0


From 9005a426161376b814d2d44839c922747617142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 11/48] fix: pass the gate 2 sweep range to the response
 distortions of sensor scans

measure_sensor_scan passed the range of sensor gate 1 for both gates.
---
 simcats/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 892bed4..56b9c8c 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -541,7 +541,7 @@ class Simulation:
         if self.__sensor_response_distortions is not None:
             for i in self.__sensor_response_distortions:
                 scan = i.noise_function(
-                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g1
+                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g2
                 )
 
         # create a dictionary containing all the metadata
-- 
2.43.0


From 8f7dac1da13b531a87d259f431b8a3065b494f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 12/48] fix: setting voltage limits as a list raised an
 AttributeError

The setters accept lists, but read the attribute 'size', which lists don't have.
---
 simcats/_simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 56b9c8c..f436f8a 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -585,7 +585,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and volt_limits_g1.size == 2)
+                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and np.size(volt_limits_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g1 configuration is not supported. Must be either None or "
@@ -614,7 +614,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and volt_limits_g2.size == 2)
+                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and np.size(volt_limits_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g2 configuration is not supported. Must be either None or "
@@ -644,7 +644,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g1 is None or (
-                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and volt_limits_sensor_g1.size == 2)
+                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and np.size(volt_limits_sensor_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g1 configuration is not supported. Must be either None or "
@@ -674,7 +674,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g2 is None or (
-                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and volt_limits_sensor_g2.size == 2)
+                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and np.size(volt_limits_sensor_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g2 configuration is not supported. Must be either None or "
-- 
2.43.0


From 0e960ca20804dd8afcf3806fac35f8911889933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 13/48] fix: measure without sensor voltages failed if sensor
 gate limits are set

None was compared with the limits (TypeError), even though the sensor voltages
are optional.
---
 simcats/_simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index f436f8a..f7c247d 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -183,13 +183,15 @@ class Simulation:
             )
 
         if (
-                self.__volt_limits_sensor_g1 is not None
+                volt_sensor_g1 is not None
+                and self.__volt_limits_sensor_g1 is not None
                 and (
                 volt_sensor_g1 < self.__volt_limits_sensor_g1[0]
                 or volt_sensor_g1 > self.__volt_limits_sensor_g1[1]
         )
                 or (
-                self.__volt_limits_sensor_g2 is not None
+                volt_sensor_g2 is not None
+                and self.__volt_limits_sensor_g2 is not None
                 and (
                         volt_sensor_g2 < self.__volt_limits_sensor_g2[0]
                         or volt_sensor_g2 > self.__volt_limits_sensor_g2[1]
-- 
2.43.0


From 1b1c16694c1ae999ebbb41f97a4dd141f0ad17a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 14/48] fix: 1D sensor scans failed for an int resolution or a
 resolution of length 1

With an ideal CSD and gate voltages an int resolution raised a TypeError, without
them a resolution with one entry raised an IndexError.
---
 simcats/_simulation.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index f7c247d..0e7eab4 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -467,8 +467,8 @@ class Simulation:
             )
 
         if self.ideal_csd_config is None or volt_g1 is None or volt_g2 is None:
-            if type(resolution) == int:
-                occupations = np.zeros((resolution, 2))
+            if type(resolution) == int or len(resolution) == 1:
+                occupations = np.zeros((int(np.ravel(resolution)[0]), 2))
             else:
                 occupations = np.zeros((resolution[1], resolution[0], 2))
             undistorted_occupations = deepcopy(occupations)
@@ -481,11 +481,8 @@ class Simulation:
                 volt_limits_g1=(volt_g1, volt_g1), volt_limits_g2=(volt_g2, volt_g2), resolution=(1)
             )
 
-            if len(resolution) == 1:
-                resolution = int(resolution[0])
-
-            if type(resolution) == int:
-                occupations = np.ones((resolution, 2))
+            if type(resolution) == int or len(resolution) == 1:
+                occupations = np.ones((int(np.ravel(resolution)[0]), 2))
                 occupations[:, 0] = occupations[:, 0] * occupations_csd[0, 0]
                 occupations[:, 1] = occupations[:, 1] * occupations_csd[0, 1]
             else:
-- 
2.43.0


From 405b41fb809079a89ba5de68b5042805e4a865d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 15/48] fix: use the occupation of dot 2 for its influence on
 the barrier 1 potential

The conversion from barrier potentials to sensor gate voltages multiplied both
lever-arms with the occupation of dot 1.
---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 03652aa..0a1f9c6 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -620,7 +620,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         offset1 = (gate_offset[0] +
                    self.offset_mu_sens[1] +
                    self.alpha_dot[1, 0] * occ[0] +
-                   self.alpha_dot[1, 1] * occ[0])
+                   self.alpha_dot[1, 1] * occ[1])
 
         offset2 = (gate_offset[1] +
                    self.offset_mu_sens[2] +
-- 
2.43.0


From 2141234784eba138d31e82a5d74b7a611e442155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 16/48] fix: use the voltage of sensor gate 2 in the barrier
 potential offset

If only the plunger gates are swept, the voltage of sensor gate 1 was used for
both sensor gates.
---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 0a1f9c6..6259465 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -613,7 +613,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             voltages = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
             gate_offset = np.dot(self.alpha_gate[1:], voltages)
         else:
-            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g1[0]])
+            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g2[0]])
             gate_offset = np.dot(self.alpha_sensor_gate[1:], voltages)
 
         # Calculate potential offsets for both barriers
-- 
2.43.0


From c6085155b1266b107906d55e60faea5453b9aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 17/48] fix: sensor scan labels used the gate 1 voltage for
 both plunger gates

The potential of the fully conductive point (and with it the final rise and the
conductive mask) was wrong for different plunger gate voltages.
---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 6259465..090ce56 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -830,7 +830,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         fully_conductive_potential = self.sensor_potential(
             occupations=np.array((occ,)),
             volt_limits_g1=volt_limits_g1,
-            volt_limits_g2=volt_limits_g1,
+            volt_limits_g2=volt_limits_g2,
             volt_limits_sensor_g1=fully_conductive_point[0],
             volt_limits_sensor_g2=fully_conductive_point[1],
         )
-- 
2.43.0


From 5b86fcaa396c03f883ea2fcf9abdfc1d358b939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 18/48] fix: sensor scans rejected integer plunger gate
 voltages

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 090ce56..047bf98 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -818,8 +818,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         apply_deformations = len(self.sensor_peak_deformations) != 0
 
-        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, float)) and
-                (volt_limits_g2 is None or isinstance(volt_limits_g2, float))):
+        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, numbers.Real)) and
+                (volt_limits_g2 is None or isinstance(volt_limits_g2, numbers.Real))):
             raise ValueError("The volt limits have to be fixed values or None when sensor scan labels are generated!")
 
         fully_conductive_point = self._calc_point_from_barrier_potentials(
-- 
2.43.0


From f44c9807db24643a731fb3a1c08b4a208a526e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 19/48] fix: sensor scan labels mixed up the deformations of
 unsorted sensor peaks

The deformations are assigned by the position of the peak in sensor_peak_function,
but the labels looked them up by the rank of the peak potential.
---
 simcats/sensor/_sensor_scan_sensor_generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 047bf98..477a93d 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -881,10 +881,10 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         for idx, peak, peak_id in reversed(list(peaks_sorted_with_id)):
             distorted_pot: np.ndarray
-            if idx in self.sensor_peak_deformations.keys():
-                deformation = self.sensor_peak_deformations[idx]
+            if peak_id in self.sensor_peak_deformations.keys():
+                deformation = self.sensor_peak_deformations[peak_id]
                 distorted_pot = sensor_pot + (
-                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=self.sensor_peak_function[idx].mu0))
+                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=peak.mu0))
             else:
                 distorted_pot = sensor_pot
 
-- 
2.43.0


From 403abcbe6892223f4d81375a53c1c1e4040fe1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 20/48] fix: circular deformation with a negative radius jumped
 at its border

Outside of the circle the shift had the sign of a positive radius, so that the
deformed potential was not the one of the point with the greatest distance.
---
 simcats/sensor/deformation/_sensor_peak_deformation_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
index ad87c97..0c04a8b 100644
--- a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
+++ b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
@@ -92,7 +92,7 @@ class SensorPeakDeformationCircle(SensorPeakDeformationInterface):
 
         # Calculation of both possible points of the circle that have the distance dist to the middle line
         temp1 = mu0 - (radius_abs - cos_angle * radius_abs) * sign_radius
-        temp2 = mu0 - radius_volt * np.sign(radius_volt)
+        temp2 = mu0 - radius_volt
 
         # Selection of the result that is closer to the output mu0
         result = np.where(dist <= radius_abs, temp1, temp2)
-- 
2.43.0


From dc83164c2760b6a01c3dbd44cbc242776dbd2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 21/48] fix: sensor scans without sensor peaks raised a
 TypeError

sensor_peak_function=None is allowed, but the calculation of the labels iterated
over it.
---
 simcats/sensor/_sensor_scan_sensor_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 477a93d..44d2bef 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -870,8 +870,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             dist_array = dist_array.reshape(sensor_pot.shape)
 
         all_peaks = copy.deepcopy(self.sensor_peak_function)
-        if isinstance(all_peaks, SensorPeakInterface):
-            all_peaks = [all_peaks]
+        if all_peaks is None:
+            all_peaks = []
 
         # Sensor peaks are sorted according to their mu0 so that the increases in the masks function correctly
         # Peaks with a smaller mu0 overwrite the range of the previous peaks. The peaks, relating to the mu0, must
-- 
2.43.0


From 26c4c09bcf167ab41819510d141e6ad317a549fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 22/48] fix: representation of BarrierFunctionMultiGLF could
 not be evaluated

It missed the closing parenthesis and used '*params=' as keyword.
---
 simcats/sensor/barrier_function/_barrier_function_multi_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/barrier_function/_barrier_function_multi_glf.py b/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
index 8c05cc7..00b8468 100644
--- a/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
+++ b/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
@@ -153,5 +153,5 @@ class BarrierFunctionMultiGLF(BarrierFunctionInterface):
     def __repr__(self):
         return (
                 self.__class__.__name__
-                + f"(pinch_off={self.pinch_off}, fully_conductive={self.fully_conductive}, *params={self.__params}"
+                + f"({', '.join(str(x) for x in (self.pinch_off, self.fully_conductive, *self.__params))})"
         )
-- 
2.43.0


From 24f4ea7082856df92558f4b447238397b2490053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 23/48] fix: is_point_below_line rejected horizontal lines
 given as float

---
 simcats/support_functions/_linear_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/support_functions/_linear_algebra.py b/simcats/support_functions/_linear_algebra.py
index 35f4ca5..d3f861c 100644
--- a/simcats/support_functions/_linear_algebra.py
+++ b/simcats/support_functions/_linear_algebra.py
@@ -24,7 +24,7 @@ def is_point_below_line(point: Tuple[float, float], line: Union[Tuple[float, flo
     x, y = point
 
     # If the straight line is specified as a single float, it is a horizontal line
-    if isinstance(line, int):
+    if isinstance(line, numbers.Real):
         b = line
         return y < b
     # If the straight line is specified as a tuple (m, b)
-- 
2.43.0


From e1024e915b44560980a63636fb72bea04ec53e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 24/48] fix: RTN in scans that keep both gates at a fixed
 voltage raised a ValueError

---
 simcats/distortions/_random_telegraph_noise.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 58ecda2..d54b3c6 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -132,6 +132,10 @@ class RandomTelegraphNoise(DistortionInterface):
             return original
         else:
             self.__activated = True
+        # the burst length is specified in voltage space, thus there are no bursts if both gates are kept fixed
+        if volt_limits_g1[0] == volt_limits_g1[1] and volt_limits_g2[0] == volt_limits_g2[1]:
+            self.__activated = False
+            return original
         try:
             scale = self.scale.sample_parameter()
         except AttributeError:
-- 
2.43.0


From af849a345b45498fc178181aa56cd3ac3ab91827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 25/48] fix: transition blurring in scans that keep both gates
 at a fixed voltage raised an OverflowError

---
 simcats/distortions/_transition_blurring.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index 978210b..2ab6391 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -99,6 +99,9 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
             except AttributeError:
                 sigma = self.sigma
         self.__latest_sigma = sigma
+        # nothing to blur if both gates are kept at a fixed voltage
+        if volt_limits_g1[0] == volt_limits_g1[1] and volt_limits_g2[0] == volt_limits_g2[1]:
+            return occupations, lead_transitions
         if sigma > 0:
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
@@ -215,6 +218,9 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
             except AttributeError:
                 sigma = self.sigma
         self.__latest_sigma = sigma
+        # nothing to blur if both gates are kept at a fixed voltage
+        if volt_limits_g1[0] == volt_limits_g1[1] and volt_limits_g2[0] == volt_limits_g2[1]:
+            return occupations, lead_transitions
         if sigma > 0:
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
-- 
2.43.0


From f0befebe97a557131d7299579fae3ac43e7afd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 26/48] fix: pink noise for a single pixel raised an IndexError

---
 simcats/distortions/_pink_noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simcats/distortions/_pink_noise.py b/simcats/distortions/_pink_noise.py
index 294c499..9f84103 100644
--- a/simcats/distortions/_pink_noise.py
+++ b/simcats/distortions/_pink_noise.py
@@ -123,6 +123,9 @@ def pink_gaussian_noise(
         np.ndarray: Original image distorted by pink noise.
 
     """
+    if np.size(original) == 1:
+        # a single pixel does not have a frequency spectrum
+        return original + rng.normal(0, scale, size=original.shape)
     noise = cn.powerlaw_psd_gaussian(1, np.prod(original.shape), fmin=fmin, random_state=rng) * scale
     noise = np.reshape(noise, original.shape)
     return original + noise
-- 
2.43.0


From dd2f6b4073489c5e0dc056cb129188a0d9a92eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 27/48] fix: TCTs jumped by one period offset at multiples of
 the period length

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index a90850f..4312ffd 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -5,8 +5,6 @@ The TCTs are used to generate the boundaries/structures for the geometrically si
 @author: f.hader
 """
 
-import math
-
 # used to check if a single x-value was passed to x_eval
 import numbers
 from typing import Union, Optional
@@ -137,7 +135,8 @@ def tct_bezier(
         for x_id, x in zip(ids_wave, x_eval[ids_wave]):
             # detect position (rising/falling flank or bezier/rotated bezier)
             x_mod_per = np.mod(x, period_length)
-            period_no = math.floor(x / period_length)
+            # floor division, because it is consistent with np.mod also if x is (nearly) a multiple of the period length
+            period_no = x // period_length
             if x_mod_per < bezier_length:
                 # bezier at peak/maxima
                 if lut_entries:
-- 
2.43.0


From 6226d9b1fc4eb1c54f387b3bffd9bd8d7c41a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 28/48] fix: TCTs could not be evaluated for integer parameters
 or x-values

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index 4312ffd..f8b4f1a 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -52,15 +52,15 @@ def tct_bezier(
         x_eval = np.array([x_eval])
     else:
         single_value = False
-    # copy x_eval so that the original supplied array is not modified
-    x_eval = np.copy(x_eval)
+    # copy x_eval (as floats) so that the original supplied array is not modified
+    x_eval = np.array(x_eval, dtype=float)
 
     # setup array for resulting y-values
     y_res = np.zeros(x_eval.shape)
 
     # setup coordinates for bezier curve nodes
-    x_vals = np.array([tct_params[4], 0, tct_params[6]])
-    y_vals = np.array([tct_params[5], 0, tct_params[7]])
+    x_vals = np.array([tct_params[4], 0, tct_params[6]], dtype=float)
+    y_vals = np.array([tct_params[5], 0, tct_params[7]], dtype=float)
     if x_vals[0] == x_vals[2] and y_vals[0] == y_vals[2]:
         # no interdot coupling region specified -> center anchor is equal to outer anchors
         x_vals[1] = x_vals[0]
-- 
2.43.0


From 29d2673f574c2785bc15b07471ec5931e18e2c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 29/48] fix: explicitly solved TCTs with symmetric bezier
 curves

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 59 +++++++++++-----------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index f8b4f1a..03c5347 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -11,7 +11,28 @@ from typing import Union, Optional
 
 import bezier
 import numpy as np
-import sympy
+
+
+def _bezier_y(x_vals: np.ndarray, y_vals: np.ndarray, x: float) -> float:
+    """Evaluates the y-value of a quadratic bezier curve with non-decreasing x-values of the nodes at a given x-value.
+
+    The curve parameter t is the solution of x(t) = x in the interval [0, 1]. The used form of the solution is also
+    valid if x(t) is (nearly) linear, as it is the case for symmetric curves.
+
+    Args:
+        x_vals (np.ndarray): x-values of the three nodes.
+        y_vals (np.ndarray): y-values of the three nodes.
+        x (float): x-value for which the y-value is evaluated.
+
+    Returns:
+        float: The y-value of the bezier curve.
+    """
+    quadratic = x_vals[0] - 2 * x_vals[1] + x_vals[2]
+    linear = x_vals[1] - x_vals[0]
+    distance = x - x_vals[0]
+    denominator = linear + np.sqrt(max(linear**2 + quadratic * distance, 0))
+    t = min(distance / denominator, 1) if denominator > 0 else 0
+    return (1 - t) ** 2 * y_vals[0] + 2 * t * (1 - t) * y_vals[1] + t**2 * y_vals[2]
 
 
 def tct_bezier(
@@ -86,10 +107,6 @@ def tct_bezier(
     if lut_entries:
         t = np.linspace(0, 1, lut_entries)
         bezier_lut = bezier_curve.evaluate_multi(t)
-    else:
-        xb, yb = sympy.symbols("x y")
-        bezier_implicit = bezier_curve.implicitize()
-        bezier_implicit_solved = sympy.solve(bezier_implicit, yb)
 
     # retrieve length of bezier curve & period length. Both are required to calculate the region
     # where the x-values to be evaluated are located
@@ -143,18 +160,8 @@ def tct_bezier(
                     # retrieve y-value of x-value closest to the desired x-value
                     y_res[x_id] = bezier_lut[1, np.argmin(np.abs(bezier_lut[0, :] - (x_mod_per + offset_x)))]
                 else:
-                    # use sympy to solve symbolic expression for x, because s is not linearly mapped to x
-                    temp_y = [
-                        bezier_implicit_solution.subs({xb: x_mod_per + offset_x})
-                        for bezier_implicit_solution in bezier_implicit_solved
-                    ]
-                    # might get two solutions because implicit function might be quadratic. If so, the second solution
-                    # is the positive one and selected therefore, as we assume to have only positive y-values after
-                    # rotating a signal with only positive x- & y-values by 45 degree
-                    if len(temp_y) == 2:
-                        y_res[x_id] = np.max(temp_y)
-                    elif len(temp_y) == 1:
-                        y_res[x_id] = temp_y[0]
+                    # solve for the curve parameter, because it is not linearly mapped to x
+                    y_res[x_id] = _bezier_y(x_vals, y_vals, x_mod_per + offset_x)
             elif x_mod_per < (bezier_length + right_lin_length):
                 # linear part starting at the end of the maxima/peak bezier curve
                 y_res[x_id] = y_vals[2] + (x_mod_per - bezier_length) * tct_params[3]
@@ -176,18 +183,12 @@ def tct_bezier(
                         + y_offset_inv_bezier
                     )
                 else:
-                    # use sympy to solve symbolic expression for x, because s is not linearly mapped to x
-                    temp_y = [
-                        bezier_implicit_solution.subs({xb: 2 * bezier_length + right_lin_length - x_mod_per + offset_x})
-                        for bezier_implicit_solution in bezier_implicit_solved
-                    ]
-                    # might get two solutions because implicit function might be quadratic. If so, the second solution
-                    # is the positive one and selected therefore, as we assume to have only positive y-values after
-                    # rotating a signal with only positive x- & y-values by 45 degree
-                    if len(temp_y) == 2:
-                        y_res[x_id] = -1 * np.max(temp_y) + y_offset_inv_bezier
-                    elif len(temp_y) == 1:
-                        y_res[x_id] = -1 * temp_y[0] + y_offset_inv_bezier
+                    # solve for the curve parameter, because it is not linearly mapped to x
+                    y_res[x_id] = (
+                        -1
+                        * _bezier_y(x_vals, y_vals, 2 * bezier_length + right_lin_length - x_mod_per + offset_x)
+                        + y_offset_inv_bezier
+                    )
             else:
                 # linear part ending at the beginning of the maxima/peak bezier curve
                 y_res[x_id] = (y_offset_inv_bezier - y_vals[0]) + (
-- 
2.43.0


From 1b30d38475e572c591ef3073bba98e47e91c0bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 30/48] fix: 1D scans above the last TCT silently returned zero
 electrons

---
 simcats/ideal_csd/geometric/_get_electron_occupation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index 53af5db..f7b18b0 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -186,6 +186,8 @@ def get_electron_occupation(
     elif csd.ndim == 1:
         csd_points = np.vstack((col_values, row_values)).T
         csd_points_rot = rotate_points(points=csd_points, angle=-rotation)
+        # pixels that are not below any transition line belong to the region above the last TCT
+        csd_mask[:] = max(tct_functions)
         # iterate TCTs
         for tct_value, tct_func in sorted(tct_functions.items(), reverse=True):
             y_vals_tct = tct_func(x_eval=csd_points_rot[:, 0], lut_entries=lut_entries)
-- 
2.43.0


From 30920c6de79d4f89114435ed288130b023cf748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 31/48] fix: copying the pixels of dot jumps slowed down with
 the correctly scaled jump heights

---
 simcats/distortions/_dot_jumps.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index f232110..8ad5b56 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -670,10 +670,11 @@ def dot_jumps_blockwise(
                     if j + k >= cols:
                         break
                     # Nan values are used as placeholder for 1d scans, so ignore them
-                    if np.isnan(original[i, np.maximum(0, j - noise[j] + k)]):
+                    value = original[i, max(0, j - noise[j] + k)]
+                    if value != value:
                         shifted[i, j + k] = original[i, j + k]
                         continue
-                    shifted[i, j + k] = original[i, np.maximum(0, j - noise[j] + k)]
+                    shifted[i, j + k] = value
                 j = j + noise[j]
     elif axis == 0:
         for i in range(cols):
@@ -684,10 +685,11 @@ def dot_jumps_blockwise(
                     if j + k >= rows:
                         break
                     # Nan values are used as placeholder for 1d scans, so ignore them
-                    if np.isnan(original[np.maximum(0, j - noise[j] + k), i]):
+                    value = original[max(0, j - noise[j] + k), i]
+                    if value != value:
                         shifted[j + k, i] = original[j + k, i]
                         continue
-                    shifted[j + k, i] = original[np.maximum(0, j - noise[j] + k), i]
+                    shifted[j + k, i] = value
                 j = j + noise[j]
     else:
         raise NotImplementedError("Dot jumps are only supported for 2d array. Axis should be 0 or 1.")
-- 
2.43.0


From c72a29ca5846e8f5e7584be9f995b0356a99315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 32/48] fix: electrons were assigned to the wrong dot without
 tunnel coupling

---
 simcats/ideal_csd/geometric/_get_electron_occupation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index f7b18b0..a1d9b77 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -207,8 +207,10 @@ def get_electron_occupation(
         # moves into the previously empty dot 1
         # the first interdot transition happens between peak 1 (first valley) of tct_bezier and
         # peak 0 (first peak) of tct_bezier-1
+        # the line starts at the peak of the lower TCT, so that the signed distance grows with the occupation of dot 1
+        # (required for the CDFs without tunnel coupling, which are step functions of the signed distance)
         try:
-            ref_line = np.array([[bezier_coords[int(reg) + 1][1, 1, :]], [bezier_coords[int(reg)][0, 1, :]]])
+            ref_line = np.array([[bezier_coords[int(reg)][0, 1, :]], [bezier_coords[int(reg) + 1][1, 1, :]]])
         except KeyError as e:
             raise IndexError(
                 f"bezier_coords dictionary does not contain an entry for total charge transition (TCT) {e}. "
-- 
2.43.0


From 226a320d451df084c0e750e4be365f834db1b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 33/48] fix: gaps in the lead transitions of 2D scans with very
 different step sizes

---
 .../ideal_csd/geometric/_generate_lead_transition_mask.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
index c929d1c..9d02642 100644
--- a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
+++ b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
@@ -101,8 +101,11 @@ def generate_lead_transition_mask_2d(
     x_c_rot = rotate_points(points=corner_points, angle=-rotation)[:, 0]
     # generate enough x-values to cover the complete range of the CSD with a
     # higher resolution than required to have a precise result after discretization
-    tct_points = np.empty(((x_res + y_res) * 4, 2))
-    tct_points[:, 0] = np.linspace(np.min(x_c_rot) - x_step, np.max(x_c_rot) + x_step, (x_res + y_res) * 4)
+    # (also for the smaller one of both stepsizes, so that the transition lines have no gaps)
+    x_range = np.max(x_c_rot) - np.min(x_c_rot) + 2 * x_step
+    num_points = max((x_res + y_res) * 4, int(np.ceil(4 * x_range / min(x_step, y_step))))
+    tct_points = np.empty((num_points, 2))
+    tct_points[:, 0] = np.linspace(np.min(x_c_rot) - x_step, np.max(x_c_rot) + x_step, num_points)
 
     # Insert the transition lines into the CSD
     # If the CSD is 2D, the required TCT points are sampled and discretized.
-- 
2.43.0


From dfc694a66d2e0bbd2248cba0703498291f3feb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 34/48] fix: 2D scans failed if a TCT point was rounded out of
 the CSD

---
 simcats/ideal_csd/geometric/_generate_lead_transition_mask.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
index 9d02642..32e85ed 100644
--- a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
+++ b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
@@ -134,6 +134,9 @@ def generate_lead_transition_mask_2d(
         # (round up if next higher value in range of 0.5 * step_size)
         x_id = np.floor_divide(wf_points_rot[:, 0] + 0.5 * x_step - x_lims[0], x_step).astype(int)
         y_id = np.floor_divide(wf_points_rot[:, 1] + 0.5 * y_step - y_lims[0], y_step).astype(int)
+        # points at the very border may be rounded to an id outside the csd
+        x_id = np.clip(x_id, 0, x_res - 1)
+        y_id = np.clip(y_id, 0, y_res - 1)
         csd_result[y_id, x_id] = tct_value
 
     return csd_result
-- 
2.43.0


From 967dbbf73e396dce64254500f2fec25dc21aecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 35/48] fix: return an array of the potential's shape if the
 list of sensor peaks is empty

---
 simcats/sensor/_sensor_generic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_generic.py b/simcats/sensor/_sensor_generic.py
index 56a9c59..1cf7510 100644
--- a/simcats/sensor/_sensor_generic.py
+++ b/simcats/sensor/_sensor_generic.py
@@ -176,7 +176,11 @@ class SensorGeneric(SensorInterface):
         if self.__sensor_peak_function is None:
             return mu_sens
         else:
-            return np.sum([p.sensor_function(mu_sens) for p in self.__sensor_peak_function], axis=0)
+            # start from zeros, so that the shape is also kept if the list of peak functions is empty
+            response = np.zeros(np.shape(mu_sens))
+            for peak in self.__sensor_peak_function:
+                response = response + peak.sensor_function(mu_sens)
+            return response
 
     def sensor_potential(
         self, occupations: np.ndarray, volt_limits_g1: np.ndarray, volt_limits_g2: np.ndarray
-- 
2.43.0


From 5bb0219a59f5d6f83082591e210f67dd970eb37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 36/48] fix: sensors without deformations shared one dictionary
 and None was not accepted

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 44d2bef..4eef09f 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -83,7 +83,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 is the actual deformation object used for a wavefront.
             """
         self.sensor_peak_function = sensor_peak_function
-        self.sensor_peak_deformations = sensor_peak_deformations
+        # use a new dictionary, so that neither the default value nor the supplied dictionary is shared
+        self.sensor_peak_deformations = dict(sensor_peak_deformations) if sensor_peak_deformations is not None else {}
         self.final_rise = final_rise
 
         if self.sensor_peak_function is not None:
-- 
2.43.0


From 370f6ff52ca5c3e2b6d457bf590643e5da228b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 37/48] fix: sensors shared their (default) lever arms and
 potential offsets

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 4eef09f..a8dea7f 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -243,7 +243,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_dot = np.array([alpha_dot, alpha_dot, alpha_dot])
                 return
             elif alpha_dot.shape == (3, 2):
-                self.__alpha_dot = alpha_dot
+                self.__alpha_dot = deepcopy(alpha_dot)
                 return
         elif alpha_dot is None:
             self.__alpha_dot = np.array([[0, 0], [0, 0], [0, 0]])
@@ -294,7 +294,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_gate = np.array([alpha_gate, alpha_gate, alpha_gate])
                 return
             elif alpha_gate.shape == (3, 2):
-                self.__alpha_gate = alpha_gate
+                self.__alpha_gate = deepcopy(alpha_gate)
                 return
         elif alpha_gate is None:
             self.__alpha_gate = np.array([[0, 0], [0, 0], [0, 0]])
@@ -340,7 +340,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check if alpha_sensor_gate is passed in an acceptable format
         if isinstance(alpha_sensor_gate, np.ndarray) and alpha_sensor_gate.shape == (3, 2):
-            self.__alpha_sensor_gate = alpha_sensor_gate
+            self.__alpha_sensor_gate = deepcopy(alpha_sensor_gate)
             return
 
         # Raise error if none of the cases for valid alpha_sensor_gate formats from before is true
@@ -374,7 +374,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check datatype of offset_mu_sens
         if isinstance(offset_mu_sens, np.ndarray) and offset_mu_sens.shape == (3,):
-            self.__offset_mu_sens = offset_mu_sens
+            self.__offset_mu_sens = deepcopy(offset_mu_sens)
         elif isinstance(offset_mu_sens, (float, int)):
             self.__offset_mu_sens = np.array([offset_mu_sens, offset_mu_sens, offset_mu_sens])
         else:
-- 
2.43.0


From 90aa2c52b435dd136bf01a1393f638368800f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 38/48] fix: sensor scans of a single pixel with deformed peaks
 raised a ZeroDivisionError

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index a8dea7f..753dd15 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -481,13 +481,13 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
             if sensor_potential.ndim == 1:
                 for pixel_idx in range(sensor_potential.shape[0]):
-                    voltage_y = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                  volt_limits=self._volt_limits_g2)
-                    voltage_y_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                         volt_limits=self._volt_limits_sensor_g2)
-                    voltage_x = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_x = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                  volt_limits=self._volt_limits_g1)
-                    voltage_x_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_x_sensor = pixel_to_volt_1d(pixel=pixel_idx, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                         volt_limits=self._volt_limits_sensor_g1)
                     sens_resp[pixel_idx] = self._peak_func(mu_sens=sensor_potential[pixel_idx], volt_g1=voltage_x,
                                                            volt_g2=voltage_y, volt_sensor_g1=voltage_x_sensor,
@@ -496,14 +496,14 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
             elif sensor_potential.ndim == 2:
                 for y in range(sensor_potential.shape[0]):
-                    voltage_y = pixel_to_volt_1d(pixel=y, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y = pixel_to_volt_1d(pixel=y, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                  volt_limits=self._volt_limits_g2)
-                    voltage_y_sensor = pixel_to_volt_1d(pixel=y, pixel_num=sensor_potential.shape[0] - 1,
+                    voltage_y_sensor = pixel_to_volt_1d(pixel=y, pixel_num=max(sensor_potential.shape[0] - 1, 1),
                                                         volt_limits=self._volt_limits_sensor_g2)
                     for x in range(sensor_potential.shape[1]):
-                        voltage_x = pixel_to_volt_1d(pixel=x, pixel_num=sensor_potential.shape[1] - 1,
+                        voltage_x = pixel_to_volt_1d(pixel=x, pixel_num=max(sensor_potential.shape[1] - 1, 1),
                                                      volt_limits=self._volt_limits_g1)
-                        voltage_x_sensor = pixel_to_volt_1d(pixel=x, pixel_num=sensor_potential.shape[1] - 1,
+                        voltage_x_sensor = pixel_to_volt_1d(pixel=x, pixel_num=max(sensor_potential.shape[1] - 1, 1),
                                                             volt_limits=self._volt_limits_sensor_g1)
                         sens_resp[y, x] = self._peak_func(mu_sens=sensor_potential[y, x],
                                                           volt_g1=voltage_x,
-- 
2.43.0


From 9e11972679b03cd8ad7305f8b194d5f160cf2792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 39/48] fix: a final rise with mu0 other than zero was not
 fully conductive at the requested potential

---
 simcats/sensor/_sensor_rise_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_rise_glf.py b/simcats/sensor/_sensor_rise_glf.py
index 42ab746..01a8a66 100644
--- a/simcats/sensor/_sensor_rise_glf.py
+++ b/simcats/sensor/_sensor_rise_glf.py
@@ -216,7 +216,7 @@ class SensorRiseGLF(SensorRiseInterface):
                    asymmetry=self.asymmetry,
                    shape_factor=self.shape_factor,
                    denominator_offset=self.denominator_offset,
-                   offset= -self.fully_conductive + offset)
+                   offset=self.mu0 - self.fully_conductive + offset)
 
     def __repr__(self):
         return (
-- 
2.43.0


From ffe8ea6e856f508d46e1110960c847bf364d87e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 40/48] fix: distortions without generator shared one, so that
 all simulations had the same noise

---
 simcats/distortions/_dot_jumps.py             |  8 ++++----
 simcats/distortions/_pink_noise.py            | 10 +++++-----
 .../distortions/_random_telegraph_noise.py    | 20 +++++++++----------
 simcats/distortions/_white_noise.py           |  8 ++++----
 4 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 8ad5b56..50d5a49 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -26,7 +26,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
         lam: Union[float, ParameterSamplingInterface],
         axis: int,
         ratio: float = 1,
-        rng: np.random.Generator = np.random.default_rng(),
+        rng: Optional[np.random.Generator] = None,
     ):
         """Initializes an object of the class used to generate dot jumps.
 
@@ -43,14 +43,14 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 the x/g1-axis.
             ratio (float): The ratio defining how often this type of distortion should be active. For each simulation a
                 random number decides if the distortion type is active, based on the supplied ratio. Default is 1.
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random
+                numbers. If None, a new generator (np.random.default_rng()) is created for this object. Default is None.
         """
         self.scale = scale
         self.lam = lam
         self.axis = axis
         self.ratio = ratio
-        self.rng = rng
+        self.rng = np.random.default_rng() if rng is None else rng
         self.__activated = None
 
     @property
diff --git a/simcats/distortions/_pink_noise.py b/simcats/distortions/_pink_noise.py
index 9f84103..75a0408 100644
--- a/simcats/distortions/_pink_noise.py
+++ b/simcats/distortions/_pink_noise.py
@@ -3,7 +3,7 @@
 @author: s.fleitmann
 """
 
-from typing import Union
+from typing import Optional, Union
 
 import colorednoise as cn
 import numpy as np
@@ -21,7 +21,7 @@ class SensorPotentialPinkNoise(SensorPotentialDistortionInterface):
         self,
         sigma: Union[float, ParameterSamplingInterface],
         fmin: float = 0,
-        rng: np.random.Generator = np.random.default_rng(),
+        rng: Optional[np.random.Generator] = None,
     ):
         """Initializes an object of the class used to generate pink noise.
 
@@ -31,12 +31,12 @@ class SensorPotentialPinkNoise(SensorPotentialDistortionInterface):
             fmin (float): Minimal frequency which can be present in the generated noise. The maximal possible value is
                 0.5 which generates white noise. The minimal value is 1/(number of pixels). The default is 0, which
                 results in the same as 1/(number of pixels).
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random
+                numbers. If None, a new generator (np.random.default_rng()) is created for this object. Default is None.
         """
         self.sigma = sigma
         self.fmin = fmin
-        self.rng = rng
+        self.rng = np.random.default_rng() if rng is None else rng
         self.__latest_sigma = None
 
     @property
diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index d54b3c6..60c6c6d 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -31,7 +31,7 @@ class RandomTelegraphNoise(DistortionInterface):
         std: Union[float, ParameterSamplingInterface],
         height: Union[float, ParameterSamplingInterface],
         ratio: float = 1,
-        rng: np.random.Generator = np.random.default_rng(),
+        rng: Optional[np.random.Generator] = None,
     ):
         """Initializes an object of the class used to simulate random telegraph noise.
 
@@ -45,14 +45,14 @@ class RandomTelegraphNoise(DistortionInterface):
                 of type ParameterSampling a new height is sampled accordingly per call of noise_function.
             ratio (float): The ratio defining how often this type of noise should be active. For each simulation a
                 random number decides if the noise type is active, based on the supplied ratio. Default is 1.
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random
+                numbers. If None, a new generator (np.random.default_rng()) is created for this object. Default is None.
         """
         self.scale = scale
         self.std = std
         self.height = height
         self.ratio = ratio
-        self.rng = rng
+        self.rng = np.random.default_rng() if rng is None else rng
         self.__activated = None
 
     @property
@@ -193,7 +193,7 @@ class SensorPotentialRTN(RandomTelegraphNoise, SensorPotentialDistortionInterfac
         std: Union[float, ParameterSamplingInterface],
         height: Union[float, ParameterSamplingInterface],
         ratio: float = 1,
-        rng: np.random.Generator = np.random.default_rng(),
+        rng: Optional[np.random.Generator] = None,
     ):
         """Initializes an object of the class used to simulate random telegraph noise affecting the sensor potential.
 
@@ -207,8 +207,8 @@ class SensorPotentialRTN(RandomTelegraphNoise, SensorPotentialDistortionInterfac
                 of type ParameterSampling a new height is sampled accordingly per call of noise_function.
             ratio (float): The ratio defining how often this type of noise should be active. For each simulation a
                 random number decides if the noise type is active, based on the supplied ratio. Default is 1.
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random
+                numbers. If None, a new generator (np.random.default_rng()) is created for this object. Default is None.
         """
         RandomTelegraphNoise.__init__(self, scale, std, height, ratio, rng)
 
@@ -245,7 +245,7 @@ class SensorResponseRTN(RandomTelegraphNoise, SensorResponseDistortionInterface)
         std: Union[float, ParameterSamplingInterface],
         height: Union[float, ParameterSamplingInterface],
         ratio: float = 1,
-        rng: np.random.Generator = np.random.default_rng(),
+        rng: Optional[np.random.Generator] = None,
     ):
         """Initializes an object of the class used to simulate random telegraph noise affecting the sensor response.
 
@@ -259,8 +259,8 @@ class SensorResponseRTN(RandomTelegraphNoise, SensorResponseDistortionInterface)
                 of type ParameterSampling a new height is sampled accordingly per call of noise_function.
             ratio (float): The ratio defining how often this type of noise should be active. For each simulation a
                 random number decides if the distortions type is active, based on the supplied ratio. Default is 1.
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random
+                numbers. If None, a new generator (np.random.default_rng()) is created for this object. Default is None.
         """
         RandomTelegraphNoise.__init__(self, scale, std, height, ratio, rng)
 
diff --git a/simcats/distortions/_white_noise.py b/simcats/distortions/_white_noise.py
index d9264b8..2bd8031 100644
--- a/simcats/distortions/_white_noise.py
+++ b/simcats/distortions/_white_noise.py
@@ -17,7 +17,7 @@ class SensorResponseWhiteNoise(SensorResponseDistortionInterface):
     """White noise implementation of the SensorResponseDistortionsInterface."""
 
     def __init__(
-        self, sigma: Union[float, ParameterSamplingInterface], rng: np.random.Generator = np.random.default_rng()
+        self, sigma: Union[float, ParameterSamplingInterface], rng: Optional[np.random.Generator] = None
     ):
         """Initializes an object of the class used to generate white noise.
 
@@ -25,10 +25,10 @@ class SensorResponseWhiteNoise(SensorResponseDistortionInterface):
             sigma (Union[float, ParameterSamplingInterface]): Standard deviation for the Gaussian distribution of the
                 noise, determines the strength of the noise. If sigma is of type ParameterSampling a new sigma is
                 sampled accordingly per call of noise_function.
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random
+                numbers. If None, a new generator (np.random.default_rng()) is created for this object. Default is None.
         """
-        self.rng = rng
+        self.rng = np.random.default_rng() if rng is None else rng
         self.sigma = sigma
         self.__latest_sigma = None
 
-- 
2.43.0


From 1be7e498666d3a21f9650fc86baa83910cbf1fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 41/48] fix: quality multiplier of sampled configurations did
 not restrict their distortions

---
 .../_GaAs_v1_random_variations_v3_config_sampler.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
index 62366e7..99811f3 100644
--- a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
+++ b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
@@ -80,9 +80,9 @@ def sample_random_variations_v3_config(sensor_type: str = "SensorGeneric",
         raise ValueError(
             f"The parameter sensor_type must be either 'SensorGeneric' or 'SensorScanSensorGeneric'. The supplied value"
             f" '{sensor_type}' is not supported.")
-    config["occupation_distortions"] = sample_occupation_distortions()
-    config["sensor_potential_distortions"] = sample_sensor_potential_distortions()
-    config["sensor_response_distortions"] = sample_sensor_response_distortions()
+    config["occupation_distortions"] = sample_occupation_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_potential_distortions"] = sample_sensor_potential_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_response_distortions"] = sample_sensor_response_distortions(quality_multiplier=quality_multiplier)
     return config
 
 
-- 
2.43.0


From f42b8b802f2b8c458e922f10a3d453755da4e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 42/48] fix: 2D requests to an ideal CSD with a range of one
 value raised an IndexError instead of a ValueError

---
 simcats/ideal_csd/geometric/_ideal_csd_geometric.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_ideal_csd_geometric.py b/simcats/ideal_csd/geometric/_ideal_csd_geometric.py
index 94eb88e..cf0357b 100644
--- a/simcats/ideal_csd/geometric/_ideal_csd_geometric.py
+++ b/simcats/ideal_csd/geometric/_ideal_csd_geometric.py
@@ -82,13 +82,6 @@ def ideal_csd_geometric(
     if isinstance(resolution, int):
         resolution = np.array([resolution])
 
-    # Check if one gate is kept at a fixed voltage if a 2D scan is requested. This is only possible in 1D scans.
-    if len(resolution) == 2 and (volt_limits_g1[0] == volt_limits_g1[1] or volt_limits_g2[0] == volt_limits_g2[1]):
-        raise ValueError(
-            "At least one of the voltage ranges 'volt_limits_g1' and 'volt_limits_g2' defines a fixed voltage. "
-            "This is only supported for 1D sweeps (only one resolution), but two resolutions were specified."
-        )
-
     # check if the gate voltage ranges have the correct number of entries
     if not (len(volt_limits_g1) == 2 and len(volt_limits_g2) == 2):
         raise ValueError(
-- 
2.43.0


From dc11e8eb8a2430f3ec67c60d84132bf47ed597ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 43/48] fix: 2D scans with extremely different stepsizes needed
 unlimited memory for their lead transitions

---
 .../ideal_csd/geometric/_generate_lead_transition_mask.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
index 32e85ed..c91c7ea 100644
--- a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
+++ b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
@@ -101,9 +101,10 @@ def generate_lead_transition_mask_2d(
     x_c_rot = rotate_points(points=corner_points, angle=-rotation)[:, 0]
     # generate enough x-values to cover the complete range of the CSD with a
     # higher resolution than required to have a precise result after discretization
-    # (also for the smaller one of both stepsizes, so that the transition lines have no gaps)
+    # (also for the smaller one of both stepsizes, so that the transition lines have no gaps, with a limit for scans with
+    # extremely different stepsizes)
     x_range = np.max(x_c_rot) - np.min(x_c_rot) + 2 * x_step
-    num_points = max((x_res + y_res) * 4, int(np.ceil(4 * x_range / min(x_step, y_step))))
+    num_points = max((x_res + y_res) * 4, int(np.ceil(min(4 * x_range / min(x_step, y_step), 2e5))))
     tct_points = np.empty((num_points, 2))
     tct_points[:, 0] = np.linspace(np.min(x_c_rot) - x_step, np.max(x_c_rot) + x_step, num_points)
 
-- 
2.43.0


From 2c16ba7f4abea15a9e169051c681dc0e6ffb132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 44/48] fix: lead transition labels of more than 255 total
 charge transitions overflowed

---
 simcats/ideal_csd/geometric/_generate_lead_transition_mask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
index c91c7ea..32e559a 100644
--- a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
+++ b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
@@ -28,7 +28,7 @@ def generate_lead_transition_mask_1d(csd_occ: np.ndarray) -> np.ndarray:
     """
     # setup variable for the result
     csd_total_occ = np.sum(csd_occ, axis=1)
-    csd_result = np.zeros(csd_total_occ.shape, dtype=np.uint8)
+    csd_result = np.zeros(csd_total_occ.shape, dtype=np.uint16)
 
     # collect all ids where the total occupation of the dot system changes
     ids_total_occ_changed = np.where(csd_total_occ[:-1] != csd_total_occ[1:])[0]
@@ -79,7 +79,7 @@ def generate_lead_transition_mask_2d(
 
     """
     # setup variable for the result
-    csd_result = np.copy(csd).astype(np.uint8)
+    csd_result = np.copy(csd).astype(np.uint16)
 
     # resolution x/y
     x_res = csd.shape[1]
-- 
2.43.0


From 754145179d654c8c61c36379483f4c7bd51d1f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 45/48] fix: sensor scans with more than 255 Coulomb peaks
 raised an OverflowError

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 753dd15..d24fa96 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -836,7 +836,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             volt_limits_sensor_g2=fully_conductive_point[1],
         )
 
-        coulomb_peak_mask = np.zeros_like(sensor_pot, dtype=np.uint8)
+        coulomb_peak_mask = np.zeros_like(sensor_pot, dtype=np.uint16)
         conductive_mask = np.zeros_like(sensor_pot, dtype=np.uint8)
 
         m = self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]
-- 
2.43.0


From ec406b5105af89921d062426c63633a74b5ee705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 46/48] fix: deformed Coulomb peaks had no valid middle line if
 the sensor dot only sees the second sensor gate

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index d24fa96..f4d5eef 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -428,13 +428,11 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         if self.__sensor_peak_function is None:
             return mu_sens
         else:
-            m = self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]
-
             resp_sum = 0
 
             dist = signed_dist_points_line(points=np.array([[volt_sensor_g1, volt_sensor_g2]]),
                                            line_points=np.array(
-                                               [middle_line_point, middle_line_point + np.array([1, m])]))[0]
+                                               [middle_line_point, middle_line_point + self.alpha_sensor_gate[0]]))[0]
 
             for idx, p in enumerate(self.__sensor_peak_function):
                 old_mu0 = p.mu0
@@ -839,8 +837,6 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         coulomb_peak_mask = np.zeros_like(sensor_pot, dtype=np.uint16)
         conductive_mask = np.zeros_like(sensor_pot, dtype=np.uint8)
 
-        m = self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]
-
         # Create array with same voltages tuples with the same resolution as the sensor potential
         if potential.ndim == 3:
             x_values = np.linspace(volt_limits_sensor_g1[0], volt_limits_sensor_g1[-1], sensor_pot.shape[1])
@@ -865,7 +861,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             # Calculate distances from the middle line
             dist_array = signed_dist_points_line(points=xy_array,
                                                  line_points=np.array(
-                                                     [middle_point, middle_point + np.array([1, m])]))
+                                                     [middle_point, middle_point + self.alpha_sensor_gate[0]]))
 
             # Reshape dist_array to the initial shape (shape of the potential)
             dist_array = dist_array.reshape(sensor_pot.shape)
-- 
2.43.0


From f4e77d96db0e5ebadb0b3338fef83ff035619563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 47/48] fix: final rise of sensors in CSDs depended on kind and
 first pixel of the scan

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 86 ++++++++++---------
 1 file changed, 44 insertions(+), 42 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index f4d5eef..57bb08b 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -463,8 +463,6 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         sweep_only_sensor = self._volt_limits_g1[0] == self._volt_limits_g1[-1] and \
                             self._volt_limits_g2[0] == self._volt_limits_g2[-1]
-        sensor_swept = self._volt_limits_g1[0] == self._volt_limits_g1[-1] or \
-                       self._volt_limits_g2[0] == self._volt_limits_g2[-1]
 
         if apply_deformations and sweep_only_sensor:
             # Calculate sigma when deformations have to be applied
@@ -473,8 +471,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             # Calculation of the middle point for deformations
             middle_point = self._calc_point_from_barrier_potentials(
                 pot_bar1=self.barrier_functions[0].pinch_off,
-                pot_bar2=self.barrier_functions[1].pinch_off,
-                sensor_swept=sensor_swept
+                pot_bar2=self.barrier_functions[1].pinch_off
             )
 
             if sensor_potential.ndim == 1:
@@ -526,35 +523,10 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 sens_resp = np.sum([p.sensor_function(sensor_potential) for p in self.__sensor_peak_function], axis=0)
 
             if self.final_rise is not None:
-                # Calculation of the middle point
-                g1_voltage = self._volt_limits_g1[0]
-                g2_voltage = self._volt_limits_g2[0]
-
-                if self._occupations.ndim == 2:
-                    occ = (self._occupations[0, 0], self._occupations[0, 1])
-                elif self._occupations.ndim == 3:
-                    occ = (self._occupations[0, 0, 0], self._occupations[0, 0, 1])
-                else:
-                    raise ValueError(
-                        "Invalid dimension of occupations! The dimension of the occupations must be one larger than "
-                        "the scan dimension")
-
-                fully_conductive_point = self._calc_point_from_barrier_potentials(
-                    pot_bar1=self.barrier_functions[0].fully_conductive,
-                    pot_bar2=self.barrier_functions[1].fully_conductive,
-                    sensor_swept=sensor_swept
-                )
-
-                fully_conductive_potential = self.sensor_potential(
-                    occupations=np.array((occ,)),
-                    volt_limits_g1=g1_voltage,
-                    volt_limits_g2=g2_voltage,
-                    volt_limits_sensor_g1=fully_conductive_point[0],
-                    volt_limits_sensor_g2=fully_conductive_point[1],
-                )
+                fully_conductive_potential = self._calc_fully_conductive_potential()
 
                 final_rise_resp = self.final_rise.sensor_function(sensor_potential,
-                                                                  offset=fully_conductive_potential[0])
+                                                                  offset=fully_conductive_potential)
 
                 sens_resp = np.maximum(sens_resp, final_rise_resp)
 
@@ -575,8 +547,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
     def _calc_point_from_barrier_potentials(
             self,
             pot_bar1: float,
-            pot_bar2: float,
-            sensor_swept: bool = True
+            pot_bar2: float
     ) -> Tuple[float, float]:
         """Calculate a point in voltage space from given barrier potentials.
 
@@ -587,9 +558,6 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         Args:
             pot_bar1 (float): Target potential for barrier 1.
             pot_bar2 (float): Target potential for barrier 2.
-            sensor_swept (bool): Boolean that indicates whether the sensor gates are swept and a sensor scan is
-                simulated or gates g1 and g2 are swept and a CSD is simulated. The boolean is true when a sensor scan is
-                simulated and false otherwise.
 
         Returns:
             Tuple[float, float]: The calculated point coordinates (g1, g2) in gate voltage space.
@@ -608,12 +576,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         pot_bar1 = float(pot_bar1)
         pot_bar2 = float(pot_bar2)
 
-        if sensor_swept:
-            voltages = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
-            gate_offset = np.dot(self.alpha_gate[1:], voltages)
-        else:
-            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g2[0]])
-            gate_offset = np.dot(self.alpha_sensor_gate[1:], voltages)
+        voltages = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
+        gate_offset = np.dot(self.alpha_gate[1:], voltages)
 
         # Calculate potential offsets for both barriers
         offset1 = (gate_offset[0] +
@@ -647,6 +611,44 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         return point
 
+    def _calc_fully_conductive_potential(self) -> Union[float, np.ndarray]:
+        """Calculate the sensor dot potential at which both barriers become fully conductive.
+
+        The potential depends on the double dot gate voltages and the occupation. It is therefore determined for every
+        pixel of the last scan if the double dot gates are swept, and is a single value otherwise.
+
+        Returns:
+            Union[float, np.ndarray]: The sensor dot potential at which both barriers become fully conductive.
+        """
+        last_scan = (self._volt_limits_g1, self._volt_limits_g2, self._volt_limits_sensor_g1,
+                     self._volt_limits_sensor_g2, self._occupations)
+
+        occupations = self._occupations
+        csd_scan = self._volt_limits_g1[0] != self._volt_limits_g1[-1] or \
+                   self._volt_limits_g2[0] != self._volt_limits_g2[-1]
+        if not csd_scan:
+            # the same for all pixels
+            occupations = occupations.reshape(-1, 2)[:1]
+
+        # potentials without voltages at the sensor gates
+        potential = self.sensor_potential(occupations=occupations, volt_limits_g1=self._volt_limits_g1,
+                                          volt_limits_g2=self._volt_limits_g2)
+
+        (self._volt_limits_g1, self._volt_limits_g2, self._volt_limits_sensor_g1, self._volt_limits_sensor_g2,
+         self._occupations) = last_scan
+
+        # voltages of the sensor gates that make both barriers fully conductive (Cramer's rule)
+        bar1 = self.barrier_functions[0].fully_conductive - potential[1]
+        bar2 = self.barrier_functions[1].fully_conductive - potential[2]
+        alpha1, alpha2 = self.alpha_sensor_gate[1:]
+        det = alpha1[0] * alpha2[1] - alpha1[1] * alpha2[0]
+        volt_sensor_g1 = (bar1 * alpha2[1] - bar2 * alpha1[1]) / det
+        volt_sensor_g2 = (alpha1[0] * bar2 - alpha2[0] * bar1) / det
+
+        potential = potential[0] + self.alpha_sensor_gate[0, 0] * volt_sensor_g1 + \
+                    self.alpha_sensor_gate[0, 1] * volt_sensor_g2
+        return potential if csd_scan else potential[0]
+
     def sensor_potential(self,
                          occupations: np.ndarray,
                          volt_limits_g1: Union[np.ndarray, float, None] = None,
-- 
2.43.0


From 688706699a939a020be80892c40dfe569a5b8199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:04 +0000
Subject: [PATCH 48/48] fix: sensors for scans kept the caller's occupations,
 so that changed results changed the sensor

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 57bb08b..a4bb3f8 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -699,6 +699,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             raise ValueError("Either only the plunger gates of the double quantum dots or the gates of the sensor dots "
                              "can be swept. Both types of gates cannot be swept simultaneously.")
 
+        # a copy, because the supplied array belongs to the caller (f.e. it is a result of Simulation.measure)
+        occupations = np.copy(occupations)
         volt_limits_list = [volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2]
         volt_limits_list = copy.deepcopy(volt_limits_list)
         for i in range(len(volt_limits_list)):
-- 
2.43.0

