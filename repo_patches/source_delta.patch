From 03b2e34954b3d61fd7aa2ce91aefcdb8b8e0fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 01/23] fix: terminate the lines written to AeroDyn airfoil
 files

writeToAerodynFile wrote the whole file as one line, which
initFromAerodynFile (and AeroDyn) cannot read back.
---
 ccblade/airfoilprep.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index cfad700..7446960 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -776,32 +776,32 @@ class Airfoil(object):
 
         f = open(filename, "w")
 
-        f.write("AeroDyn airfoil file.")
-        f.write("Compatible with AeroDyn v13.0.")
-        f.write("Generated by airfoilprep.py")
-        f.write("{0:<10d}\t\t{1:40}".format(len(af.polars), "Number of airfoil tables in this file"))
+        f.write("AeroDyn airfoil file.\n")
+        f.write("Compatible with AeroDyn v13.0.\n")
+        f.write("Generated by airfoilprep.py\n")
+        f.write("{0:<10d}\t\t{1:40}\n".format(len(af.polars), "Number of airfoil tables in this file"))
         for p in af.polars:
-            f.write("{0:<10f}\t{1:40}".format(p.Re / 1e6, "Reynolds number in millions."))
+            f.write("{0:<10f}\t{1:40}\n".format(p.Re / 1e6, "Reynolds number in millions."))
             param = p.unsteadyparam()
-            f.write("{0:<10f}\t{1:40}".format(param[0], "Control setting"))
-            f.write("{0:<10f}\t{1:40}".format(param[1], "Stall angle (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[0], "Control setting"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[1], "Stall angle (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[4], "Cn at stall value for positive angle of attack for linear Cn curve"
                 )
             )
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[5], "Cn at stall value for negative angle of attack for linear Cn curve"
                 )
             )
-            f.write("{0:<10f}\t{1:40}".format(param[6], "Angle of attack for minimum CD (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[7], "Minimum CD value"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[6], "Angle of attack for minimum CD (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[7], "Minimum CD value"))
             for a, cl, cd, cm in zip(p.alpha, p.cl, p.cd, p.cm):
-                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}".format(a, cl, cd, cm))
-            f.write("EOT")
+                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}\n".format(a, cl, cd, cm))
+            f.write("EOT\n")
         f.close()
 
     def createDataGrid(self):
-- 
2.43.0


From 07d6e915562bda36896520fb52b3134698ae85cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 02/23] fix: report the angle of minimum drag in degrees

unsteadyparam returned it in radians, unlike the other angles, and
writeToAerodynFile labels it (deg).
---
 ccblade/airfoilprep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 7446960..476a394 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -466,7 +466,7 @@ class Polar(object):
 
         # return: control setting, stall angle, alpha for 0 cn, cn slope,
         #         cn at stall+, cn at stall-, alpha for min CD, min(CD)
-        return (0.0, np.degrees(alphaU), np.degrees(alpha0), m, cnStallUpper, cnStallLower, alpha[minIdx], cd[minIdx])
+        return (0.0, np.degrees(alphaU), np.degrees(alpha0), m, cnStallUpper, cnStallLower, self.alpha[minIdx], cd[minIdx])
 
     def plot(self):
         """plot cl/cd/cm polar
-- 
2.43.0


From c7767fc281672f19a99d38ff012ee7f6a1b2c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 03/23] fix: do not repeat the lowest angle when extrapolating

For a polar reaching at least as far down as up, the segment -90 ..
alpha[0] ended with alpha[0], which the original data start with, so the
angles were not increasing.
---
 ccblade/airfoilprep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 476a394..7e5b0fd 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -280,6 +280,8 @@ class Polar(object):
         # -90 <-> -alpha_high
         alpha5 = np.linspace(-np.pi / 2, alpha5max, nalpha)
         alpha5 = alpha5[1:]
+        if alpha_low <= -alpha_high:
+            alpha5 = alpha5[:-1]  # last element is the first point of the original data
         cl5, cd5 = self.__Viterna(-alpha5, -cl_adj)
 
         # -180+alpha_high <-> -90
-- 
2.43.0


From 1bd7bc37542a73c76a473d30c9fa20888299544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 04/23] fix: keep the end moments when extrapolating from
 multiples of 10 degrees

The 10 degree grid of the extrapolated moment then repeated the end
angles of the data with a moment of zero, which replaced the data's.
---
 ccblade/airfoilprep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 7e5b0fd..2f3a756 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -306,6 +306,9 @@ class Polar(object):
         alpha_num = abs(int((-180.0 - cm1_alpha) / 10.0 - 1))
         alpha_cm1 = np.linspace(-180.0, cm1_alpha, alpha_num)
         alpha_cm2 = np.linspace(cm2_alpha, 180.0, int((180.0 - cm2_alpha) / 10.0 + 1))
+        # the ends of the original data may coincide with this grid
+        alpha_cm1 = alpha_cm1[alpha_cm1 < self.alpha[0]]
+        alpha_cm2 = alpha_cm2[alpha_cm2 > self.alpha[-1]]
         alpha_cm = np.concatenate(
             (alpha_cm1, self.alpha, alpha_cm2)
         )  # Specific alpha values are needed for cm function to work
-- 
2.43.0


From dc1126bb7ccea5335cadb048ef5e7caf5ed27f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 05/23] fix: load a parked rotor in exactly aligned wind

A section whose tangential wind is exactly zero was skipped also when
parked, so that all loads were zero without tilt and yaw and not with
the slightest tilt.
---
 ccblade/ccblade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 6086cc2..d5aa4a0 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -716,7 +716,7 @@ class CCBlade(object):
 
     def __loads(self, phi, rotating, r, chord, theta, af, Vx, Vy):
         """normal and tangential loads at one section (and optionally derivatives)"""
-        if Vx != 0.0 and Vy != 0.0:
+        if Vx != 0.0 and (Vy != 0.0 or not rotating):
 
             cphi = np.cos(phi)
             sphi = np.sin(phi)
-- 
2.43.0


From 68c6c897146827ad6d14b4903ffd55b0fd3466c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 06/23] fix: finite coefficient derivatives where the quantity
 is zero

The derivatives were scaled by coefficient / quantity, which is not a
number when it is zero: parked (CP) and, in axisymmetric inflow, CZ and
CMz.
---
 ccblade/ccblade.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index d5aa4a0..34705b3 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -1394,34 +1394,31 @@ class CCBlade(object):
                 dU_ds = np.zeros((npts, 12))
                 dU_ds[:, 9] = 1.0
 
-                dOmega_ds = np.zeros((npts, 12))
-                dOmega_ds[:, 10] = 1.0
-
                 dq_ds = (self.rho * Uinf * dU_ds.T).T
 
-                dCT_ds = (CT * (dT_ds.T / T - dA_ds.T / A - dq_ds.T / q)).T
+                dCT_ds = (dT_ds.T / (q * A) - CT * (dA_ds.T / A + dq_ds.T / q)).T
                 dCT_dv = (dT_dv.T / (q * A)).T
 
-                dCY_ds = (CY * (dY_ds.T / Y - dA_ds.T / A - dq_ds.T / q)).T
+                dCY_ds = (dY_ds.T / (q * A) - CY * (dA_ds.T / A + dq_ds.T / q)).T
                 dCY_dv = (dY_dv.T / (q * A)).T
 
-                dCZ_ds = (CZ * (dZ_ds.T / Z - dA_ds.T / A - dq_ds.T / q)).T
+                dCZ_ds = (dZ_ds.T / (q * A) - CZ * (dA_ds.T / A + dq_ds.T / q)).T
                 dCZ_dv = (dZ_dv.T / (q * A)).T
 
-                dCQ_ds = (CQ * (dQ_ds.T / Q - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCQ_ds = (dQ_ds.T / (q * self.rotorR * A) - CQ * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)).T
                 dCQ_dv = (dQ_dv.T / (q * self.rotorR * A)).T
 
-                dCMy_ds = (CMy * (dMy_ds.T / My - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMy_ds = (dMy_ds.T / (q * self.rotorR * A) - CMy * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)).T
                 dCMy_dv = (dMy_dv.T / (q * self.rotorR * A)).T
 
-                dCMz_ds = (CMz * (dMz_ds.T / Mz - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMz_ds = (dMz_ds.T / (q * self.rotorR * A) - CMz * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)).T
                 dCMz_dv = (dMz_dv.T / (q * self.rotorR * A)).T
 
-                dCMb_ds = (CMb * (dMb_ds.T / Mb - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMb_ds = (dMb_ds.T / (q * self.rotorR * A) - CMb * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)).T
                 dCMb_dv = (dMb_dv.T / (q * self.rotorR * A)).T
 
-                dCP_ds = (CP * (dQ_ds.T / Q + dOmega_ds.T / Omega - dA_ds.T / A - dq_ds.T / q - dU_ds.T / Uinf)).T
-                dCP_dv = (dQ_dv.T * CP / Q).T
+                dCP_ds = (dP_ds.T / (q * A * Uinf) - CP * (dA_ds.T / A + dq_ds.T / q + dU_ds.T / Uinf)).T
+                dCP_dv = (dP_dv.T / (q * A * Uinf)).T
 
                 # pack derivatives into dictionary
                 dCT, dCY, dCZ, dCQ, dCMy, dCMz, dCMb, dCP = self.__thrustTorqueDictionary(
-- 
2.43.0


From 0d9b1ccaa5f5c333622bbf452e3584cd35e8e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:31 +0000
Subject: [PATCH 07/23] fix: refuse derivatives for more than one Reynolds
 number iteration

The ValueError was constructed but not raised, so that wrong gradients
were returned.
---
 ccblade/ccblade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 34705b3..c41f720 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -666,7 +666,7 @@ class CCBlade(object):
         """derivatives of fzero, a, ap"""
 
         if self.iterRe != 1:
-            ValueError("Analytic derivatives not supplied for case with iterRe > 1")
+            raise ValueError("Analytic derivatives not supplied for case with iterRe > 1")
 
         # x = [phi, chord, theta, Vx, Vy, r, Rhub, Rtip, pitch]  (derivative order)
 
-- 
2.43.0


From 0ce6e67a83ccbebc4586202ed7b4924f580702c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 08/23] fix: neighbour terms in derivatives with respect to
 radial position

With precurve the cone angle of a station, and so its wind, depends on
the radial position of its neighbours as it does on their precurve.
These terms were dropped from dNp/dr, dTp/dr and all rotor dr Jacobians.
---
 ccblade/ccblade.py | 49 ++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index c41f720..b1261fa 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -829,7 +829,7 @@ class CCBlade(object):
         )
 
         if not self.derivatives:
-            return Vx, Vy, 0.0, 0.0, 0.0, 0.0
+            return Vx, Vy, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
 
         # y = [r, precurve, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]  (derivative order)
         n = len(self.r)
@@ -860,8 +860,8 @@ class CCBlade(object):
             dy_dy[:, 3 * n + 4],
         )
 
-        dVx_dr = np.diag(Vxd[:n, :])  # off-diagonal terms are known to be zero and not needed
-        dVy_dr = np.diag(Vyd[:n, :])
+        dVx_dr = Vxd[:n, :]  # tri-diagonal, as the cone angle depends on the neighbors if there is precurve
+        dVy_dr = Vyd[:n, :]
 
         dVx_dcurve = Vxd[n : 2 * n, :]  # tri-diagonal  (note: dVx_j / dcurve_i  i==row)
         dVy_dcurve = Vyd[n : 2 * n, :]  # off-diagonal are actually all zero, but leave for convenience
@@ -870,10 +870,10 @@ class CCBlade(object):
         dVy_dsweep = np.diag(Vyd[2 * n : 3 * n, :])
 
         # w = [r, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
-        dVx_dw = np.vstack((dVx_dr, dVx_dsweep, Vxd[3 * n :, :]))
-        dVy_dw = np.vstack((dVy_dr, dVy_dsweep, Vyd[3 * n :, :]))
+        dVx_dw = np.vstack((np.diag(dVx_dr), dVx_dsweep, Vxd[3 * n :, :]))
+        dVy_dw = np.vstack((np.diag(dVy_dr), dVy_dsweep, Vyd[3 * n :, :]))
 
-        return Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve
+        return Vx, Vy, dVx_dw, dVy_dw, dVx_dr, dVy_dr, dVx_dcurve, dVy_dcurve
 
     def distributedAeroLoads(self, Uinf, Omega, pitch, azimuth):
         """Compute distributed aerodynamic loads along blade.
@@ -915,8 +915,8 @@ class CCBlade(object):
             - dNp : dictionary containing arrays (present if ``self.derivatives = True``)
                 derivatives of normal loads.  Each item in the dictionary a 2D Jacobian.
                 The array sizes and keys are (where n = number of stations along blade):
-                n x n (diagonal): 'dr', 'dchord', 'dtheta', 'dpresweep'
-                n x n (tridiagonal): 'dprecurve'
+                n x n (diagonal): 'dchord', 'dtheta', 'dpresweep'
+                n x n (tridiagonal): 'dr', 'dprecurve'
                 n x 1: 'dRhub', 'dRtip', 'dprecone', 'dtilt', 'dhubHt', 'dyaw', 'dshear', 'dazimuth', 'dUinf', 'dOmega', 'dpitch'
                 for example dNp_dr = dNp['dr']  (where dNp_dr is an n x n array)
                 and dNp_dr[i, j] = dNp_i / dr_j
@@ -928,7 +928,7 @@ class CCBlade(object):
         azimuth = np.deg2rad(azimuth)
 
         # component of velocity at each radial station
-        Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve = self.__windComponents(Uinf, Omega, azimuth)
+        Vx, Vy, dVx_dw, dVy_dw, dVx_dr, dVy_dr, dVx_dcurve, dVy_dcurve = self.__windComponents(Uinf, Omega, azimuth)
 
         # initialize
         n = len(self.r)
@@ -1069,6 +1069,9 @@ class CCBlade(object):
             dNp_dprecurve = dNp_dVx * dVx_dcurve + dNp_dVy * dVy_dcurve
             dTp_dprecurve = dTp_dVx * dVx_dcurve + dTp_dVy * dVy_dcurve
 
+            dNp_dr = np.diag(dNp_dz[0, :]) + dNp_dVx * dVx_dr + dNp_dVy * dVy_dr
+            dTp_dr = np.diag(dTp_dz[0, :]) + dTp_dVx * dVx_dr + dTp_dVy * dVy_dr
+
             # stack
             # z = [r, chord, theta, Rhub, Rtip, pitch]
             # w = [r, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
@@ -1088,6 +1091,8 @@ class CCBlade(object):
             # (intended for internal use only.  not to be accessed by user)
             self._dNp_dX = dNp_dX
             self._dTp_dX = dTp_dX
+            self._dNp_dr = dNp_dr
+            self._dTp_dr = dTp_dr
             self._dNp_dprecurve = dNp_dprecurve
             self._dTp_dprecurve = dTp_dprecurve
 
@@ -1096,8 +1101,6 @@ class CCBlade(object):
             dTp = {}
 
             # n x n (diagonal)
-            dNp["dr"] = np.diag(dNp_dX[0, :])
-            dTp["dr"] = np.diag(dTp_dX[0, :])
             dNp["dchord"] = np.diag(dNp_dX[1, :])
             dTp["dchord"] = np.diag(dTp_dX[1, :])
             dNp["dtheta"] = np.diag(dNp_dX[2, :])
@@ -1106,6 +1109,8 @@ class CCBlade(object):
             dTp["dpresweep"] = np.diag(dTp_dX[5, :])
 
             # n x n (tridiagonal)
+            dNp["dr"] = dNp_dr.T
+            dTp["dr"] = dTp_dr.T
             dNp["dprecurve"] = dNp_dprecurve.T
             dTp["dprecurve"] = dTp_dprecurve.T
 
@@ -1305,7 +1310,15 @@ class CCBlade(object):
                         dQ_dv_sub,
                         dM_dv_sub,
                     ) = self.__thrustTorqueDeriv(
-                        Np, Tp, self._dNp_dX, self._dTp_dX, self._dNp_dprecurve, self._dTp_dprecurve, *args
+                        Np,
+                        Tp,
+                        self._dNp_dX,
+                        self._dTp_dX,
+                        self._dNp_dr,
+                        self._dTp_dr,
+                        self._dNp_dprecurve,
+                        self._dTp_dprecurve,
+                        *args,
                     )
 
                     dT_ds[i, :] += self.B * dT_ds_sub / nsec
@@ -1490,6 +1503,8 @@ class CCBlade(object):
         Tp,
         dNp_dX,
         dTp_dX,
+        dNp_dr,
+        dTp_dr,
         dNp_dprecurve,
         dTp_dprecurve,
         r,
@@ -1532,11 +1547,11 @@ class CCBlade(object):
         dQ_dX = dQ_dNp * dNp_dX + dQ_dTp * dTp_dX
         dM_dX = dM_dNp * dNp_dX + dM_dTp * dTp_dX
 
-        dT_dr = dT_dX[0, :] + rb[0, :]
-        dY_dr = dY_dX[0, :] + rb[1, :]
-        dZ_dr = dZ_dX[0, :] + rb[2, :]
-        dQ_dr = dQ_dX[0, :] + rb[3, :]
-        dM_dr = dM_dX[0, :] + rb[4, :]
+        dT_dr = np.sum(dT_dNp * dNp_dr + dT_dTp * dTp_dr, axis=1) + rb[0, :]
+        dY_dr = np.sum(dY_dNp * dNp_dr + dY_dTp * dTp_dr, axis=1) + rb[1, :]
+        dZ_dr = np.sum(dZ_dNp * dNp_dr + dZ_dTp * dTp_dr, axis=1) + rb[2, :]
+        dQ_dr = np.sum(dQ_dNp * dNp_dr + dQ_dTp * dTp_dr, axis=1) + rb[3, :]
+        dM_dr = np.sum(dM_dNp * dNp_dr + dM_dTp * dTp_dr, axis=1) + rb[4, :]
 
         dT_dchord = dT_dX[1, :]
         dY_dchord = dY_dX[1, :]
-- 
2.43.0


From 1b781eb5cb0182cc73b78c0c1556091f8a76edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 09/23] fix: compute the Reynolds number of the twist design
 from rad/s

Omega is in RPM there, so that the airfoils were evaluated at 9.5 times
the Reynolds number.
---
 ccblade/ccblade_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 1c69302..bc28113 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -593,7 +593,7 @@ class CCBladeTwist(ExplicitComponent):
             cd = np.zeros(self.n_span)
             alpha = np.zeros(self.n_span)
             margin2stall = self.options["opt_options"]["constraints"]["blade"]["stall"]["margin"] * 180.0 / np.pi
-            Re = np.array(Omega * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"])
+            Re = np.array(Omega * np.pi / 30.0 * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"])
             aoa_op = inputs["aoa_op"]
             for i in range(self.n_span):
                 # Use the required angle of attack if defined. If it isn't defined (==pi), then take the stall point minus the margin
-- 
2.43.0


From 2cbadacbbea23f2b818090bf4ba25a92c4c402f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 10/23] fix: side and vertical loads of an axisymmetric rotor
 vanish

With tilt, yaw and shear all zero only azimuth 0 is evaluated, and Y, Z, My and Mz were those of all blades at azimuth 0 instead of the average over a revolution, which is zero.
---
 ccblade/ccblade.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index b1261fa..758e334 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -1337,6 +1337,12 @@ class CCBlade(object):
                     dMz_dv[i, :, :] += self.B * dM_dv_sub * sa / nsec
                     dMb_dv[i, :, :] += dM_dv_sub / nsec
 
+        if nsec == 1:  # axisymmetric: these vanish when averaged over a revolution
+            Y[:] = Z[:] = My[:] = Mz[:] = 0.0
+            if self.derivatives:
+                for d in (dY_ds, dZ_ds, dMy_ds, dMz_ds, dY_dv, dZ_dv, dMy_dv, dMz_dv):
+                    d[:] = 0.0
+
         # Power
         P = Q * Omega * np.pi / 30.0  # RPM to rad/s
 
-- 
2.43.0


From ccdaa2ce2be4190d974cf9b1b998d293560d6206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 11/23] fix: differentiate lift and drag at the Reynolds number
 they are evaluated at

---
 ccblade/ccblade.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 758e334..d40a035 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -780,12 +780,22 @@ class CCBlade(object):
                     self.mu,
                 )
 
+                # cl, cd were evaluated without induction if rotating (see __runBEM)
+                if rotating:
+                    _, W0, Re_af = _bem.relativewind(phi, 0.0, 0.0, Vx, Vy, self.pitch, chord, theta, self.rho, self.mu)
+                    dRe_af_dx = np.array(
+                        [0.0, Re_af / chord, 0.0, Re_af * Vx / W0 ** 2, Re_af * Vy / W0 ** 2, 0.0, 0.0, 0.0, 0.0]
+                    )
+                else:
+                    Re_af = Re
+                    dRe_af_dx = dRe_dx
+
                 # cl, cd (spline derivatives)
-                dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Re)
+                dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Re_af)
 
                 # chain rule
-                dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dRe_dx
-                dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dRe_dx
+                dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dRe_af_dx
+                dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dRe_af_dx
 
                 # cn, cd
                 dcn_dx = dcl_dx * cphi - cl * sphi * dphi_dx + dcd_dx * sphi + cd * cphi * dphi_dx
-- 
2.43.0


From 98d28f6b4c1116f916ce1a026f8e3f2b94889071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 12/23] fix: slopes of airfoil coefficients outside the data
 and with two Reynolds numbers

---
 ccblade/ccblade.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index d40a035..05e9544 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -26,7 +26,7 @@ import multiprocessing as mp
 
 import numpy as np
 from scipy.optimize import brentq
-from scipy.interpolate import RectBivariateSpline, bisplev
+from scipy.interpolate import RectBivariateSpline
 
 import ccblade._bem as _bem
 from ccblade.airfoilprep import Airfoil
@@ -205,25 +205,38 @@ class CCAirfoil(object):
         else:
             return cl, cd
 
-    def derivatives(self, alpha, Re):
+    @staticmethod
+    def _slopes(spline, alpha, Re):
+        """derivatives of a spline with respect to angle of attack and Reynolds number"""
+
+        talpha, tRe = spline.tck[:2]
+        kalpha, kRe = spline.degrees
 
-        # note: direct call to bisplev will be unnecessary with latest scipy update (add derivative method)
-        tck_cl = self.cl_spline.tck[:3] + self.cl_spline.degrees  # concatenate lists
-        tck_cd = self.cd_spline.tck[:3] + self.cd_spline.degrees
+        # the spline is constant outside of the data
+        if not talpha[0] <= alpha <= talpha[-1]:
+            df_dalpha = 0.0
+        elif kalpha == 1:  # only two angles of attack (linear)
+            df_dalpha = (spline.ev(talpha[-1], Re) - spline.ev(talpha[0], Re)) / (talpha[-1] - talpha[0])
+        else:
+            df_dalpha = spline.ev(alpha, Re, dx=1)
+
+        if not tRe[0] <= Re <= tRe[-1]:
+            df_dRe = 0.0
+        elif kRe == 1:  # only two Reynolds numbers (linear)
+            df_dRe = (spline.ev(alpha, tRe[-1]) - spline.ev(alpha, tRe[0])) / (tRe[-1] - tRe[0])
+        else:
+            df_dRe = spline.ev(alpha, Re, dy=1)
 
-        dcl_dalpha = bisplev(alpha, Re, tck_cl, dx=1, dy=0)
-        dcd_dalpha = bisplev(alpha, Re, tck_cd, dx=1, dy=0)
+        return df_dalpha, df_dRe
+
+    def derivatives(self, alpha, Re):
+
+        dcl_dalpha, dcl_dRe = self._slopes(self.cl_spline, alpha, Re)
+        dcd_dalpha, dcd_dRe = self._slopes(self.cd_spline, alpha, Re)
 
         if self.one_Re:
             dcl_dRe = 0.0
             dcd_dRe = 0.0
-        else:
-            try:
-                dcl_dRe = bisplev(alpha, Re, tck_cl, dx=0, dy=1)
-                dcd_dRe = bisplev(alpha, Re, tck_cd, dx=0, dy=1)
-            except:
-                dcl_dRe = 0.0
-                dcd_dRe = 0.0
         return dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe
 
     def eval_unsteady(self, alpha, cl, cd, cm):
-- 
2.43.0


From 53997ce20b7aefe2010480c7b5059a5d93c12c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 13/23] fix: derivatives with respect to an angle used in more
 than one rotation

---
 ccblade/csystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccblade/csystem.py b/ccblade/csystem.py
index 934616d..2b225f2 100644
--- a/ccblade/csystem.py
+++ b/ccblade/csystem.py
@@ -105,6 +105,7 @@ class DirectionVector(object):
         ynew = -x * s + y * c
         znew = z
 
+        # an angle may have been used before: its derivatives add up
         angles = []
         for key in dx.keys():
             if not key in ["dx", "dy", "dz"]:
@@ -116,7 +117,7 @@ class DirectionVector(object):
         dxnew["dz"] = dx["dz"] * c + dy["dz"] * s
         dxnew["d" + thetaname] = (-x * s + y * c) * np.radians(thetaM)
         for dangle in angles:
-            dxnew[dangle] = dx[dangle] * c + dy[dangle] * s
+            dxnew[dangle] = dxnew.get(dangle, 0.0) + dx[dangle] * c + dy[dangle] * s
 
         dynew = {}
         dynew["dx"] = -dx["dx"] * s + dy["dx"] * c
@@ -124,7 +125,7 @@ class DirectionVector(object):
         dynew["dz"] = -dx["dz"] * s + dy["dz"] * c
         dynew["d" + thetaname] = (-x * c - y * s) * np.radians(thetaM)
         for dangle in angles:
-            dynew[dangle] = -dx[dangle] * s + dy[dangle] * c
+            dynew[dangle] = dynew.get(dangle, 0.0) - dx[dangle] * s + dy[dangle] * c
 
         dznew = {}
         dznew["dx"] = dz["dx"] * np.ones_like(theta)  # multiply by ones just to get right size in case of float
-- 
2.43.0


From 50160d0e9518ddb285912d65cb8c400941275741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:05 +0000
Subject: [PATCH 14/23] fix: return the polar of a tabulated Reynolds number

---
 ccblade/airfoilprep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 2f3a756..53c511b 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -629,6 +629,8 @@ class Airfoil(object):
         else:
             Relist = [pp.Re for pp in p]
             i = np.searchsorted(Relist, Re)
+            if Relist[i] == Re:
+                return copy.deepcopy(p[i])
             weight = (Re - Relist[i - 1]) / (Relist[i] - Relist[i - 1])
             return p[i - 1].blend(p[i], weight)
 
-- 
2.43.0


From 8463900f99d25529a901373d3d27714ba543ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:49 +0000
Subject: [PATCH 15/23] fix: airfoil tables whose smoothing needs more
 iterations are refused

---
 ccblade/ccblade.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 05e9544..08aabf4 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -86,12 +86,20 @@ class CCAirfoil(object):
         ky = min(len(Re) - 1, 3)
 
         # a small amount of smoothing is used to prevent spurious multiple solutions
-        self.cl_spline = RectBivariateSpline(alpha, Re, cl, kx=kx, ky=ky, s=0.1)
-        self.cd_spline = RectBivariateSpline(alpha, Re, cd, kx=kx, ky=ky, s=0.001)
+        self.cl_spline = self._smoothing_spline(alpha, Re, cl, kx=kx, ky=ky, s=0.1)
+        self.cd_spline = self._smoothing_spline(alpha, Re, cd, kx=kx, ky=ky, s=0.001)
         self.alpha = alpha
 
         if self.use_cm > 0:
-            self.cm_spline = RectBivariateSpline(alpha, Re, cm, kx=kx, ky=ky, s=0.0001)
+            self.cm_spline = self._smoothing_spline(alpha, Re, cm, kx=kx, ky=ky, s=0.0001)
+
+    @staticmethod
+    def _smoothing_spline(*args, **kwargs):
+        """smoothing spline of the data, given more iterations where the default number is not enough"""
+        try:
+            return RectBivariateSpline(*args, **kwargs)
+        except ValueError:
+            return RectBivariateSpline(*args, maxit=100000, **kwargs)
 
     @classmethod
     def initFromAerodynFile(cls, aerodynFile):
-- 
2.43.0


From 6b93bcadfbb80a6663f4a1c6f095f2c604cf435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 16/23] fix: stall angle of the reference table in the twist
 design

With several tables per airfoil the stations were built from the reference
table, but the stall angle they were designed for came from the first one.
---
 ccblade/ccblade_component.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index bc28113..425ffec 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -535,9 +535,9 @@ class CCBladeTwist(ExplicitComponent):
 
         # Create Airfoil class instances
         af = [None] * self.n_span
+        ref_tab = int(np.floor(self.n_tab / 2))
         for i in range(self.n_span):
             if self.n_tab > 1:
-                ref_tab = int(np.floor(self.n_tab / 2))
                 af[i] = CCAirfoil(
                     inputs["airfoils_aoa"],
                     inputs["airfoils_Re"],
@@ -600,9 +600,9 @@ class CCBladeTwist(ExplicitComponent):
                 if abs(aoa_op[i] - np.pi) < 1.0e-4:
                     af[i].eval_unsteady(
                         inputs["airfoils_aoa"],
-                        inputs["airfoils_cl"][i, :, 0, 0],
-                        inputs["airfoils_cd"][i, :, 0, 0],
-                        inputs["airfoils_cm"][i, :, 0, 0],
+                        inputs["airfoils_cl"][i, :, 0, ref_tab],
+                        inputs["airfoils_cd"][i, :, 0, ref_tab],
+                        inputs["airfoils_cm"][i, :, 0, ref_tab],
                     )
                     alpha[i] = (af[i].unsteady["alpha1"] - margin2stall) / 180.0 * np.pi
                 else:
-- 
2.43.0


From d1a92bd7fc34cae55d731edcf751a3092b3e387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 17/23] fix: set power, thrust, torque and moment of the twist
 component

The outputs P, T, Q and M were declared but never computed: always zero.
---
 ccblade/ccblade_component.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 425ffec..b5af241 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -668,6 +668,10 @@ class CCBladeTwist(ExplicitComponent):
         outputs["theta"] = ccblade.theta
         outputs["CP"] = CP[0]
         outputs["CM"] = CMb[0]
+        outputs["P"] = myout["P"][0]
+        outputs["T"] = myout["T"][0]
+        outputs["Q"] = myout["Q"][0]
+        outputs["M"] = myout["Mb"][0]
         outputs["local_airfoil_velocities"] = np.nan_to_num(W)
         outputs["a"] = loads["a"]
         outputs["ap"] = loads["ap"]
-- 
2.43.0


From dc52eec63ddda498d5be772fd5e6270afff6961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 18/23] fix: keep fractions of nudged stations when positions
 are given as integers

---
 ccblade/ccblade.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 08aabf4..acb19db 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -572,7 +572,7 @@ class CCBlade(object):
         derivatives : boolean, optional
             if True, derivatives along with function values will be returned for the various methods
         """
-        r = np.array(r)
+        r = np.array(r, dtype=float)  # positions may be given as integers, but are moved by fractions below
         self.r = r.copy()
         self.chord = np.array(chord)
         self.theta = np.deg2rad(theta)
@@ -595,10 +595,14 @@ class CCBlade(object):
         if precurve is None:
             precurve = np.zeros(len(r))
             precurveTip = 0.0
+        else:
+            precurve = np.asarray(precurve, dtype=float)
 
         if presweep is None:
             presweep = np.zeros(len(r))
             presweepTip = 0.0
+        else:
+            presweep = np.asarray(presweep, dtype=float)
 
         self.precurve = precurve.copy()
         self.precurveTip = precurveTip
-- 
2.43.0


From 9ae9c48de1421ce042b465f605bc332add138cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 19/23] fix: in-place operations of vectors with integer
 components

---
 ccblade/csystem.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/ccblade/csystem.py b/ccblade/csystem.py
index 2b225f2..ab625f9 100644
--- a/ccblade/csystem.py
+++ b/ccblade/csystem.py
@@ -472,13 +472,13 @@ class DirectionVector(object):
         """add DirectionVector object to self (v1 += v2)"""
 
         if isinstance(other, DirectionVector):
-            self.x += other.x
-            self.y += other.y
-            self.z += other.z
+            self.x = self.x + other.x
+            self.y = self.y + other.y
+            self.z = self.z + other.z
         else:
-            self.x += other
-            self.y += other
-            self.z += other
+            self.x = self.x + other
+            self.y = self.y + other
+            self.z = self.z + other
 
         return self
 
@@ -486,13 +486,13 @@ class DirectionVector(object):
         """subract DirectionVector object from self (v1 -= v2)"""
 
         if isinstance(other, DirectionVector):
-            self.x -= other.x
-            self.y -= other.y
-            self.z -= other.z
+            self.x = self.x - other.x
+            self.y = self.y - other.y
+            self.z = self.z - other.z
         else:
-            self.x -= other
-            self.y -= other
-            self.z -= other
+            self.x = self.x - other
+            self.y = self.y - other
+            self.z = self.z - other
 
         return self
 
@@ -516,13 +516,13 @@ class DirectionVector(object):
         """multiply self times a scalar or element by element muiltiply times another vector (v1 *= alpha or v1 *= v2)"""
 
         if isinstance(other, DirectionVector):
-            self.x *= other.x
-            self.y *= other.y
-            self.z *= other.z
+            self.x = self.x * other.x
+            self.y = self.y * other.y
+            self.z = self.z * other.z
         else:
-            self.x *= other
-            self.y *= other
-            self.z *= other
+            self.x = self.x * other
+            self.y = self.y * other
+            self.z = self.z * other
         return self
 
     def __str__(self):
-- 
2.43.0


From 03cc88aca5534c03b531f685bdd1717ca29894fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 20/23] fix: derivatives of sections without force

With derivatives, a section whose normal force coefficient is exactly zero
raised a ValueError and one with zero tangential force coefficient gave NaN
Jacobians, because the product rule was written with divisions by both.
---
 ccblade/ccblade.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index acb19db..2020492 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -826,12 +826,10 @@ class CCBlade(object):
                 dcn_dx = dcl_dx * cphi - cl * sphi * dphi_dx + dcd_dx * sphi + cd * cphi * dphi_dx
                 dct_dx = dcl_dx * sphi + cl * cphi * dphi_dx - dcd_dx * cphi + cd * sphi * dphi_dx
 
-                # Np, Tp
-                if cn == 0.0 or W == 0.0 or chord == 0.0:
-                    print(phi, rotating, r, chord, theta, af, Vx, Vy)
-                    raise ValueError()
-                dNp_dx = Np * (1.0 / cn * dcn_dx + 2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
-                dTp_dx = Tp * (1.0 / ct * dct_dx + 2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
+                # Np, Tp (product rule: the coefficients may be zero)
+                dq_dx = self.rho * W * dW_dx
+                dNp_dx = q * chord * dcn_dx + cn * chord * dq_dx + cn * q * dchord_dx
+                dTp_dx = q * chord * dct_dx + ct * chord * dq_dx + ct * q * dchord_dx
 
                 alpha_deg = np.rad2deg(alpha_rad)
 
-- 
2.43.0


From ce4b557b0eb512e7223c8bfd8d548ccb81995545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 21/23] fix: Airfoil.plot on a single figure per coefficient

Polars have no useCM attribute, so the default mode of Airfoil.plot always raised an AttributeError.
As in the other mode and in Polar.plot, the moments are always plotted.
---
 ccblade/airfoilprep.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 53c511b..ec086b6 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -880,13 +880,9 @@ class Airfoil(object):
             ax2 = fig2.add_subplot(111)
             figs.append(fig2)
 
-            # loop through all polars to see if we need to generate handles for cm figs
-            for p in self.polars:
-                if p.useCM == True:
-                    fig3 = plt.figure()
-                    ax3 = fig3.add_subplot(111)
-                    figs.append(fig3)
-                    break
+            fig3 = plt.figure()
+            ax3 = fig3.add_subplot(111)
+            figs.append(fig3)
 
             # loop through polars and plot
             for p in self.polars:
-- 
2.43.0


From 5a7757ec1ac8ddeed06adc175642acabd20bd2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 22/23] fix: tip and hub loss factors for negative flow angles

The loss factors divided by sin(phi); for phi < 0 (propeller brake,
wind from behind, reversed rotation) the exponent became positive and
acos() was not a number, so the residual was undefined in that interval
and the solver fell back to roots with thrust of the wrong sign.
---
 ccblade/src/bem.f90 | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ccblade/src/bem.f90 b/ccblade/src/bem.f90
index de7085a..d995af6 100644
--- a/ccblade/src/bem.f90
+++ b/ccblade/src/bem.f90
@@ -57,15 +57,13 @@ subroutine inductionFactors(r, chord, Rhub, Rtip, phi, cl, cd, B, &
     ! Prandtl's tip and hub loss factor
     Ftip = 1.0_dp
     if ( tipLoss ) then
-        ! factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
-        factortip = B/2.0_dp*(Rtip - r)/(r*sphi)
+        factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
         Ftip = 2.0_dp/pi*acos(exp(-factortip))
     end if
 
     Fhub = 1.0_dp
     if ( hubLoss ) then
-        ! factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
-        factorhub = B/2.0_dp*(r - Rhub)/(Rhub*sphi)
+        factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
         Fhub = 2.0_dp/pi*acos(exp(-factorhub))
     end if
 
@@ -446,13 +444,13 @@ SUBROUTINE INDUCTIONFACTORS_DV(r, rd, chord, chordd, rhub, rhubd, rtip, &
   ftip = 1.0_dp
   IF (tiploss) THEN
 ! factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
-    temp = 2.0_dp*r*sphi
+    temp = 2.0_dp*r*ABS(sphi)
     temp0 = (rtip-r)/temp
     factortip = b*temp0
     arg1 = EXP(-factortip)
     DO nd=1,nbdirs
-      factortipd(nd) = b*(rtipd(nd)-rd(nd)-temp0*(sphi*2.0_dp*rd(nd)+&
-&       2.0_dp*r*sphid(nd)))/temp
+      factortipd(nd) = b*(rtipd(nd)-rd(nd)-temp0*(ABS(sphi)*2.0_dp*rd(nd)+&
+&       2.0_dp*r*SIGN(1.0_dp, sphi)*sphid(nd)))/temp
       arg1d(nd) = -(EXP(-factortip)*factortipd(nd))
       IF (arg1 .EQ. 1.0 .OR. arg1 .EQ. (-1.0)) THEN
         result1d(nd) = 0.0_dp
@@ -469,13 +467,13 @@ SUBROUTINE INDUCTIONFACTORS_DV(r, rd, chord, chordd, rhub, rhubd, rtip, &
   fhub = 1.0_dp
   IF (hubloss) THEN
 ! factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
-    temp0 = 2.0_dp*rhub*sphi
+    temp0 = 2.0_dp*rhub*ABS(sphi)
     temp = (r-rhub)/temp0
     factorhub = b*temp
     arg1 = EXP(-factorhub)
     DO nd=1,nbdirs
-      factorhubd(nd) = b*(rd(nd)-rhubd(nd)-temp*(sphi*2.0_dp*rhubd(nd)+&
-&       2.0_dp*rhub*sphid(nd)))/temp0
+      factorhubd(nd) = b*(rd(nd)-rhubd(nd)-temp*(ABS(sphi)*2.0_dp*rhubd(nd)+&
+&       2.0_dp*rhub*SIGN(1.0_dp, sphi)*sphid(nd)))/temp0
       arg1d(nd) = -(EXP(-factorhub)*factorhubd(nd))
       IF (arg1 .EQ. 1.0 .OR. arg1 .EQ. (-1.0)) THEN
         result1d(nd) = 0.0_dp
-- 
2.43.0


From c425b4b32ecc7eb2df405a0c4800d6ff9b47bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 23/23] fix: units of the thrust and of the root bending moment

CCBladeTwist declared its thrust in N*m and CCBladeEvaluate the blade
root bending moment in N/m, so neither could be read in, or connected to
an input with, the unit of the quantity it is.
---
 ccblade/ccblade_component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index b5af241..1a5f19c 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -500,7 +500,7 @@ class CCBladeTwist(ExplicitComponent):
         )
 
         self.add_output("P", val=0.0, units="W", desc="Rotor aerodynamic power")
-        self.add_output("T", val=0.0, units="N*m", desc="Rotor aerodynamic thrust")
+        self.add_output("T", val=0.0, units="N", desc="Rotor aerodynamic thrust")
         self.add_output("Q", val=0.0, units="N*m", desc="Rotor aerodynamic torque")
         self.add_output("M", val=0.0, units="N*m", desc="Blade root flapwise moment")
 
@@ -758,7 +758,7 @@ class CCBladeEvaluate(ExplicitComponent):
 
         # outputs
         self.add_output("P", val=0.0, units="W", desc="Rotor aerodynamic power")
-        self.add_output("Mb", val=0.0, units="N/m", desc="Aerodynamic blade root flapwise moment")
+        self.add_output("Mb", val=0.0, units="N*m", desc="Aerodynamic blade root flapwise moment")
         self.add_output("Fhub", val=np.zeros(3), units="N", desc="Aerodynamic forces at hub center in the hub c.s.")
         self.add_output("Mhub", val=np.zeros(3), units="N*m", desc="Aerodynamic moments at hub center in the hub c.s.")
         self.add_output("CP", val=0.0, desc="Rotor aerodynamic power coefficient")
-- 
2.43.0

