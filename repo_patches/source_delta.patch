From 5219c6c811e5dbca49b40520b44c79516b8d02bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 01/43] fix: reading a band parameter equal to zero raised
 AssertionError

---
 cuprates_transport/bandstructure.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5e63a84..79dd81f 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -106,11 +106,9 @@ class BandStructure:
 
     def __getitem__(self, key):
         try:
-            assert self._band_params[key]
+            return self._band_params[key]
         except KeyError:
             print(key + " is not a defined band parameter")
-        else:
-            return self._band_params[key]
 
     def get_band_param(self, key):
         return self[key]
-- 
2.43.0


From 740c8d5ac9efd2d5aeb44a732c52eb401b2f402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 02/43] fix: set_mu_to_doping kept the Fermi surface of the
 previous mu

---
 cuprates_transport/bandstructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 79dd81f..2ea4133 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -259,12 +259,12 @@ class BandStructure:
         return n_per_kz, p_per_kz
 
     def diff_doping(self, mu, p_target):
-        self._band_params["mu"] = mu
+        self["mu"] = mu
         return self.doping() - p_target
 
     def set_mu_to_doping(self, p_target, ptol=0.001):
-        self._band_params["mu"] = optimize.brentq(self.diff_doping, -10, 10,
-                                                  args=(p_target,), xtol=ptol)
+        self["mu"] = optimize.brentq(self.diff_doping, -10, 10,
+                                     args=(p_target,), xtol=ptol)
 
     def discretize_fermi_surface(self, epsilon=0):
         if self.march_square is True:
-- 
2.43.0


From 3ed201c1d6565ea1d200bd26b7bb1d8121847f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 03/43] fix: marching square measured the Fermi surface path
 with a for both axes when a != b

---
 cuprates_transport/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 2ea4133..3afe1c0 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -376,7 +376,8 @@ class BandStructure:
                     x = (contour[:, 0] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[0]
                     y = (contour[:, 1] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[1]
                 # path
-                ds = sqrt(np.diff(x)**2 + np.diff(y)**2)  # segment lengths
+                # segment lengths in units of 1/a for both axes (y is in units of 1/b)
+                ds = sqrt(np.diff(x)**2 + (np.diff(y) * self.a / self.b)**2)
                 s = np.zeros_like(x)  # arrays of zeros
                 s[1:] = np.cumsum(ds)  # integrate path, s[0] = 0
                 # Store the number of k points per kz
-- 
2.43.0


From df45a20e52f9574c060cad566dfb79b21fa3ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 04/43] fix: marching square crashed when the first kz slice
 has no Fermi surface

---
 cuprates_transport/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 3afe1c0..997cf1b 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -361,6 +361,7 @@ class BandStructure:
         # Meshgrid for kx and ky
         kxx, kyy = np.meshgrid(kx_a, ky_a, indexing='ij')
         self.number_of_points_per_kz_list = []
+        kxf = None  # no contour found yet, the first kz slices can be empty
         # Loop over the kz array
         for j, kz in enumerate(kz_a):
             contours = measure.find_contours(self.energy_func(kxx, kyy, kz), epsilon)
@@ -399,7 +400,7 @@ class BandStructure:
                     x_int = x_dump
                     y_int = y_dump
                 # Put in an array /////////////////////////////////////////////////////#
-                if i == 0 and j == 0:  # for first contour and first kz
+                if kxf is None:  # for first contour
                     kxf = x_int / self.a
                     kyf = y_int / self.b
                     # self.a (and not b) because anisotropy is taken into account earlier
-- 
2.43.0


From 654611e5a3d11ea410feed0927dc877c92b8ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 05/43] fix: the mass of the previous band parameters survived
 a change of parameters

---
 cuprates_transport/bandstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 997cf1b..5d1c800 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -143,6 +143,7 @@ class BandStructure:
     def erase_Fermi_surface(self):
         self.kf  = None
         self.vf  = None
+        self.mass = None
         self.dkf = None
         self.dks = None
         self.dkz = None
-- 
2.43.0


From 8430cbd188e4316dc3660fc3533826531ac1a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 06/43] fix: setting N_time before the first run raised
 TypeError

---
 cuprates_transport/conductivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0d818a9..6e3ef34 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -115,6 +115,8 @@ class Conductivity(Scattering):
         return self._N_time
     def _set_N_time(self, N_time):
         self._N_time = N_time
+        if self.time_max is None: # not run yet, reset_time() sets the time arrays
+            return
         self.dtime = self.time_max / self._N_time
         self.time_array = np.arange(0, self.time_max, self.dtime)
         # integrand for tau_function
-- 
2.43.0


From 0d9db212fc28623b4563afe74dca95ddc5baa8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 07/43] fix: a run at T = 0 left the alpha and beta of the
 previous temperature

---
 cuprates_transport/conductivity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 6e3ef34..86dd747 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -278,6 +278,9 @@ class Conductivity(Scattering):
                                                   self.kft, self.vft,
                                                   self.t_o_tau)
             self.sigma = coeff_tot
+            # No thermoelectric and thermal responses at T = 0
+            self.alpha = np.zeros((3,3), dtype= np.float64)
+            self.beta  = np.zeros((3,3), dtype= np.float64)
         else:
             sigma_tot = 0
             alpha_tot = 0
-- 
2.43.0


From 07233d4e77c2225052da34bda6c87a5183e52b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 08/43] fix: the DOS scattering model crashed in a magnetic
 field

---
 cuprates_transport/scattering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 0723b3b..df49255 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -156,7 +156,8 @@ class Scattering:
         """
         dos_max = np.max(self.bandObject.dos_k)
         # value to normalize the DOS to a quantity without units
-        return self.gamma_dos_max * (self.bandObject.dos_k / dos_max)
+        dos_k = 1 / (hbar * sqrt(vx**2 + vy**2 + vz**2)) # follows the orbits in a field
+        return self.gamma_dos_max * (dos_k / dos_max)
 
     # @scattering_method
     # def gamma_cmfp_func(self, vx, vy, vz):
-- 
2.43.0


From 44f685ee0b0b3338d3bd7278918009891a494995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 09/43] fix: ADMR never set the total hole doping and
 accumulated the filling over runs

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 8905099..0e06eb7 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -66,9 +66,10 @@ class ADMR:
 
     #---------------------------------------------------------------------------
     def update_total_doping(self):
+        self.total_filling = 0
         for i in range(len(self.condObject_list)):
             self.total_filling += self.condObject_list[i].bandObject.n
-        self.total_hole_dopin = 1 - self.total_filling
+        self.total_hole_doping = 1 - self.total_filling
 
     def file_name_func(self):
         # To point to bandstructure parameters, we use just one band
-- 
2.43.0


From 96f1569defeb9201d508015f504daba045ceb006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 10/43] fix: the fitness ignored parameter vectors with a
 component equal to zero

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index d421b6d..61b2aa0 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -205,10 +205,10 @@ class Fitness:
                 for T in self.T_list:
                     self.update_conditions(T, band, param, x[i])
 
-    def compute_fitness(self, x=np.array([0])):
+    def compute_fitness(self, x=None):
         """Compute chi2 = sum((sim[i] - data[i])**2)"""
         ## Update the params_dict with fit values
-        if x.all()!=0:
+        if x is not None:
             self.update_parameters(x)
         ## Compute sim, then diff
         diff_array = np.empty(0)
-- 
2.43.0


From 8d9b1950a7b3ca306a4ac592df04b6f59b14e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 11/43] fix: the multi-temperature fit ignored free parameters
 outside of band_params and scattering_params

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 61b2aa0..3936e43 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -120,6 +120,13 @@ class SimADMR:
             scattering_params = self.params_dict[band]["scattering_params"]
             self.admrObject.condObject_list[i].bandObject.band_params =  band_params
             self.admrObject.condObject_list[i].scattering_params = scattering_params
+            ## Parameters that do not belong to band_params or scattering_params
+            for param in ["energy_scale", "a", "b", "c"]:
+                if param in self.params_dict[band].keys():
+                    setattr(self.admrObject.condObject_list[i].bandObject, param, self.params_dict[band][param])
+            for param in ["Bamp", "T"]:
+                if param in self.params_dict[band].keys():
+                    setattr(self.admrObject.condObject_list[i], param, self.params_dict[band][param])
 
     def compute_rhozz(self, Btheta_norm=0):
         """Calculate the simulated rhozz from ADMR object"""
-- 
2.43.0


From 3e5187cc39399babffa39e939304e481b7b7a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 12/43] fix: the one-temperature parallel fit ignored the free
 scattering parameters

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index bff76df..ce9b8fb 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -161,6 +161,8 @@ class FittingADMRParallel:
                 self.member[pars_name] = self.pars[pars_name]
             elif pars_name in self.member["band_params"].keys():
                 self.member["band_params"][pars_name] = self.pars[pars_name]
+            elif pars_name in self.member["scattering_params"].keys():
+                self.member["scattering_params"][pars_name] = self.pars[pars_name]
 
         ## Compute ADMR ------------------------------------------------------------
         self.generate_admr()
@@ -400,6 +402,8 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
             fit_object.member[pars_name] = res.x[i]
         elif pars_name in fit_object.member["band_params"].keys():
             fit_object.member["band_params"][pars_name] = res.x[i]
+        elif pars_name in fit_object.member["scattering_params"].keys():
+            fit_object.member["scattering_params"][pars_name] = res.x[i]
         print(pars_name + " : " + "{0:g}".format(res.x[i]))
     ## Save BEST member to JSON
     fit_object.save_member_to_json(filename=filename)
-- 
2.43.0


From e7fa388fa42a0bc8ca1bb41b8763f0c450aca146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 13/43] fix: fig_compare of the one-temperature parallel fit
 used removed names

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index ce9b8fb..8bbf3f9 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -319,7 +319,7 @@ class FittingADMRParallel:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.condObject_dict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -327,7 +327,7 @@ class FittingADMRParallel:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
-- 
2.43.0


From 312a60f10466d889eea829b82b0c2e9b30b53e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 14/43] fix: saving and fig_compare of the one-temperature
 series fit used removed names

---
 cuprates_transport/fitting_admr_series_oneT.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index ef2c0f8..e31b861 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -231,7 +231,7 @@ class FittingADMR:
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
         path = self.folder + "/" + filename + ".json"
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
@@ -349,7 +349,7 @@ class FittingADMR:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.initialCondObjectDict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -357,7 +357,7 @@ class FittingADMR:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
-- 
2.43.0


From 74ece5b216707e13917fa9c628b829e4f3ca52c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 15/43] fix: the one-temperature series fit could not fit
 scattering parameters

---
 cuprates_transport/fitting_admr_series_oneT.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index e31b861..21c5158 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -34,6 +34,8 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.pars.add(param_name, value = self.init_member["scattering_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
         ## Differential evolution
         self.population  = population
@@ -164,6 +166,8 @@ class FittingADMR:
                 self.member[param_name] = self.pars[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = self.pars[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = self.pars[param_name].value
             print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
 
         ## Compute ADMR ------------------------------------------------------------
@@ -213,6 +217,8 @@ class FittingADMR:
                 self.member[param_name] = out.params[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = out.params[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = out.params[param_name].value
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From 33d0a42fcbbb50459f610ee6c6419ce668e5d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 16/43] fix: the one-temperature series fit wrote in the
 filesystem root with its default folder

---
 cuprates_transport/fitting_admr_series_oneT.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 21c5158..d4f2f31 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -1,5 +1,6 @@
 import json
 import numpy as np
+import os
 import time
 from copy import deepcopy
 from lmfit import minimize, Parameters, report_fit
@@ -228,7 +229,7 @@ class FittingADMR:
 
 
     def load_member_from_json(self):
-        with open(self.folder + "/" + self.json_name, "r") as f:
+        with open(os.path.join(self.folder, self.json_name), "r") as f:
             self.member = json.load(f)
 
 
@@ -238,7 +239,7 @@ class FittingADMR:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
             "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-        path = self.folder + "/" + filename + ".json"
+        path = os.path.join(self.folder, filename + ".json")
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
 
@@ -364,7 +365,7 @@ class FittingADMR:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
                 "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-            path = self.folder + "/" + figname + ".pdf"
+            path = os.path.join(self.folder, figname + ".pdf")
             file_figures = PdfPages(path)
             for fig in fig_list:
                 file_figures.savefig(fig)
-- 
2.43.0


From 345fedb479b6a12bb6ca4459484ecd790c9e8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 17/43] fix: fig_compare of the multi-temperature series fit
 used removed names

---
 cuprates_transport/fitting_admr_series_multi_T.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index a09cd42..4ae6b3f 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -321,11 +321,11 @@ class FittingADMR:
             fig.text(0.84,0.84, r"$T$ (data) = " + str(self.member_dict[T]["data_T"]) + " K", fontsize=14)
             fig.text(0.84,0.79, r"$T$ (sim) = " + str(self.member_dict[T]["T"]) + " K", fontsize=14)
             fig.text(0.84,0.74, r"$p$ (data) = " + "{0:.2f}".format(self.member_dict[T]["data_p"]), fontsize=14)
-            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].totalHoleDoping), fontsize=14)
+            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].total_hole_doping), fontsize=14)
             #############################################
 
             #############################################
-            axes.set_xlim(0, self.admrObject.Btheta_max)
+            axes.set_xlim(0, self.admrObject_dict[T].Btheta_max)
             # axes.set_ylim(1+1.2*(min_y-1),1.2*(max_y-1)+1)
             axes.tick_params(axis='x', which='major', pad=7)
             axes.tick_params(axis='y', which='major', pad=8)
@@ -383,7 +383,7 @@ class FittingADMR:
                 plt.close(fig)
 
             ## Figure Parameters //////////////////////////////////////////////////////#
-            for iniCondObject in self.admrObject_dict[T].initialCondObjectDict.values():
+            for iniCondObject in self.admrObject_dict[T].condObject_list:
                 fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
-- 
2.43.0


From 7393e27dca25369fc9f9f132b20fc59df17a570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 18/43] fix: the multi-temperature series fit wrote in the
 filesystem root with its default folder

---
 cuprates_transport/fitting_admr_series_multi_T.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 4ae6b3f..c3262be 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -1,5 +1,6 @@
 import json
 import numpy as np
+import os
 import time
 from copy import deepcopy
 from lmfit import minimize, Parameters, report_fit
@@ -278,19 +279,20 @@ class FittingADMR:
 
 
     def load_member_from_json(self):
-        with open(self.folder + "/" + self.json_name, "r") as f:
+        with open(os.path.join(self.folder, self.json_name), "r") as f:
             self.member_dict = json.load(f)
 
 
     def save_member_to_json(self, filename=None):
         self.produce_ADMR_object()
         if filename==None:
-            path = self.folder + "/data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
+            path = "data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
             for T in self.data_T_list:
                 path += "{0:.1f}".format(self.member_dict[T]["data_T"]) + "K_"
             path += "fit_.json"
         else:
-            path = self.folder + "/" + filename + ".json"
+            path = filename + ".json"
+        path = os.path.join(self.folder, path)
         with open(path, 'w') as f:
             json.dump(self.member_dict, f, indent=4)
 
@@ -389,12 +391,13 @@ class FittingADMR:
         ## Save figures list --------------
         if fig_save == True:
             if figname==None:
-                path = self.folder + "/data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
+                path = "data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
                 for T in self.data_T_list:
                     path += "{0:.1f}".format(self.member_dict[T]["data_T"]) + "K_"
                 path += "fit_.pdf"
             else:
-                path = self.folder + "/" + figname + ".pdf"
+                path = figname + ".pdf"
+            path = os.path.join(self.folder, path)
 
             file_figures = PdfPages(path)
             for fig in fig_list:
-- 
2.43.0


From 40d597c8b654ae1f66caa759dc759391bff458eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 19/43] fix: a member loaded from JSON by the multi-temperature
 series fit had lost its temperature keys

---
 cuprates_transport/fitting_admr_series_multi_T.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index c3262be..d2f1d5f 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -280,7 +280,9 @@ class FittingADMR:
 
     def load_member_from_json(self):
         with open(os.path.join(self.folder, self.json_name), "r") as f:
-            self.member_dict = json.load(f)
+            member_dict = json.load(f)
+        # JSON only has string keys, put back the temperatures
+        self.member_dict = {T: member_dict[str(T)] for T in self.data_T_list}
 
 
     def save_member_to_json(self, filename=None):
-- 
2.43.0


From c457669ca26b850fb01e4033de7eb1d347f7bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 20/43] fix: the multi-temperature series fit crashed on plain
 scattering_params

---
 cuprates_transport/fitting_admr_series_multi_T.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index d2f1d5f..295e480 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -40,6 +40,8 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.pars.add(param_name, value = self.init_member["scattering_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
 
         ## Create a dictionnary member that contains dictionnaries for each temperatures
@@ -48,7 +50,7 @@ class FittingADMR:
             self.member_dict[T] = deepcopy(init_member)
             self.member_dict[T]["data_T"] = T
         for param_name, param_value in init_member.items(): # then break the dictionaries of temperatures in member
-            if type(param_value)==dict and param_name!="band_params":
+            if type(param_value)==dict and param_name!="band_params" and set(self.data_T_list) <= set(param_value.keys()):
                 for T in self.data_T_list:
                     self.member_dict[T][param_name] = init_member[param_name][T]
 
@@ -200,6 +202,8 @@ class FittingADMR:
                     self.member_dict[T][param_name] = self.pars[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
                     self.member_dict[T]["band_params"][param_name] = self.pars[param_name].value
+                elif param_name in self.init_member["scattering_params"].keys():
+                    self.member_dict[T]["scattering_params"][param_name] = self.pars[param_name].value
 
         # Print params
         for param_name in self.ranges_dict.keys():
@@ -210,6 +214,8 @@ class FittingADMR:
                         print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
             elif param_name in self.init_member["band_params"].keys():
                         print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
+            elif param_name in self.init_member["scattering_params"].keys():
+                        print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
 
         ## Compute ADMR ------------------------------------------------------------
         self.produce_ADMR_object()
@@ -270,6 +276,8 @@ class FittingADMR:
                     self.member_dict[T][param_name] = out.params[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
                     self.member_dict[T]["band_params"][param_name] = out.params[param_name].value
+                elif param_name in self.init_member["scattering_params"].keys():
+                    self.member_dict[T]["scattering_params"][param_name] = out.params[param_name].value
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From bef1989c97761fd1904ee3e4ad3d501e61c2ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 21/43] fix: omegac_tau_func took kz for the velocity along z
 in the lifetime

---
 cuprates_transport/conductivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 86dd747..e437aae 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -324,7 +324,7 @@ class Conductivity(Scattering):
         prefactor = hbar / (2 * pi * e * self._Bamp)
         ## Function of k
         kf0, kf1, kf2 = kf[0, :], kf[1, :], kf[2, :]
-        vf0, vf1, vf2 = vf[0, :], vf[1, :], kf[2, :]
+        vf0, vf1, vf2 = vf[0, :], vf[1, :], vf[2, :]
         inverse_omegac_tau_k = (prefactor * 2*pi*kf_perp / vf_perp / picosecond *
                                 self.tau_tot_func(kf0, kf1, kf2, vf0, vf1, vf2))
         self.omegac_tau_k = 1 / inverse_omegac_tau_k
-- 
2.43.0


From 02fb4a28e86711e80df571e1c109972227db8de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 22/43] fix: the angles of a serial fit could grow from one
 evaluation to the next

---
 cuprates_transport/fitting_admr_series_multi_T.py | 3 +--
 cuprates_transport/fitting_admr_series_oneT.py    | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 295e480..83c55e9 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -119,7 +119,7 @@ class FittingADMR:
         for T in self.data_T_list:
             ## Create Initial Btheta
             Btheta_array = np.arange(self.member_dict[T]["Btheta_min"],
-                                     self.member_dict[T]["Btheta_max"] + self.member_dict[T]["Btheta_step"],
+                                     self.member_dict[T]["Btheta_max"] + self.member_dict[T]["Btheta_step"] * (1 - 1e-9),
                                      self.member_dict[T]["Btheta_step"])
             ## Create Bphi
             self.load_Bphi_data()
@@ -191,7 +191,6 @@ class FittingADMR:
             self.member_dict[T]["Bphi_array"]  = list(self.Bphi_dict[T])
             self.member_dict[T]["Btheta_min"]  = float(np.min(self.Btheta_dict[T])) # float need for JSON
             self.member_dict[T]["Btheta_max"]  = float(np.max(self.Btheta_dict[T]))
-            self.member_dict[T]["Btheta_step"] = float(self.Btheta_dict[T][1] - self.Btheta_dict[T][0])
 
         ## Update member with fit parameters
         for param_name in self.ranges_dict.keys():
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index d4f2f31..2295032 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -96,7 +96,7 @@ class FittingADMR:
     def load_Btheta_data(self):
         ## Create Initial Btheta
         Btheta_array = np.arange(self.member["Btheta_min"],
-                                 self.member["Btheta_max"] + self.member["Btheta_step"],
+                                 self.member["Btheta_max"] + self.member["Btheta_step"] * (1 - 1e-9),
                                  self.member["Btheta_step"])
         ## Create Bphi
         self.load_Bphi_data()
@@ -159,7 +159,6 @@ class FittingADMR:
         self.member["Bphi_array"]  = list(self.Bphi_array)
         self.member["Btheta_min"]  = float(np.min(self.Btheta_array)) # float need for JSON
         self.member["Btheta_max"]  = float(np.max(self.Btheta_array))
-        self.member["Btheta_step"] = float(self.Btheta_array[1] - self.Btheta_array[0])
 
         ## Update member with fit parameters
         for param_name in self.ranges_dict.keys():
-- 
2.43.0


From fb40babe738ab54fdfd728d638744635a3d00621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 23/43] fix: fit parameters per temperature at a fractional
 temperature raised KeyError

---
 cuprates_transport/fitting_admr_series_multi_T.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 83c55e9..9f936dc 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -35,7 +35,7 @@ class FittingADMR:
         for param_name, param_range in self.ranges_dict.items():
             if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
                 for T in self.data_T_list:
-                    self.pars.add(param_name + "_" + str(T), value = self.init_member[param_name][T], min = param_range[T][0], max = param_range[T][-1])
+                    self.pars.add(param_name + "_" + str(T).replace(".", "p"), value = self.init_member[param_name][T], min = param_range[T][0], max = param_range[T][-1])
             elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
@@ -196,7 +196,7 @@ class FittingADMR:
         for param_name in self.ranges_dict.keys():
             for T in self.data_T_list:
                 if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
-                    self.member_dict[T][param_name] = self.pars[param_name + "_" + str(T)].value
+                    self.member_dict[T][param_name] = self.pars[param_name + "_" + str(T).replace(".", "p")].value
                 elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                     self.member_dict[T][param_name] = self.pars[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
@@ -208,7 +208,7 @@ class FittingADMR:
         for param_name in self.ranges_dict.keys():
             if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
                         for T in self.data_T_list:
-                            print(param_name + "_" + str(T) + " : " + "{0:g}".format(self.pars[param_name + "_" + str(T)].value))
+                            print(param_name + "_" + str(T) + " : " + "{0:g}".format(self.pars[param_name + "_" + str(T).replace(".", "p")].value))
             elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                         print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
             elif param_name in self.init_member["band_params"].keys():
@@ -270,7 +270,7 @@ class FittingADMR:
         for param_name in self.ranges_dict.keys():
             for T in self.data_T_list:
                 if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
-                    self.member_dict[T][param_name] = out.params[param_name + "_" + str(T)].value
+                    self.member_dict[T][param_name] = out.params[param_name + "_" + str(T).replace(".", "p")].value
                 elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                     self.member_dict[T][param_name] = out.params[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
-- 
2.43.0


From 34c95fa4fd9737cea1acb1f612b2882db169fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 24/43] fix: a fit with more than six azimuths stopped in its
 figure with IndexError

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 +-
 cuprates_transport/fitting_admr_parallel_oneT.py   | 2 +-
 cuprates_transport/fitting_admr_series_multi_T.py  | 2 +-
 cuprates_transport/fitting_admr_series_oneT.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 3936e43..4534ebe 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -253,7 +253,7 @@ class Fitness:
             fig.text(0.84,0.84, r"$T$ = " + str(T) + " K", fontsize=14)
             # fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject.totalHoleDoping), fontsize=14)
             # Colors
-            colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00']
+            colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00'] * (len(self.phis_dict[T]) // 6 + 1)
             ## Select if normalized or not
             if self.normalized_data==True:
                 axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 8bbf3f9..2cedecc 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -270,7 +270,7 @@ class FittingADMRParallel:
         #############################################
 
 
-        colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00']
+        colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00'] * (len(self.Bphi_array) // 6 + 1)
 
         if self.normalized_data==True:
             axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 9f936dc..1ba8edf 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -345,7 +345,7 @@ class FittingADMR:
             #############################################
 
 
-            colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00']
+            colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00'] * (len(self.Bphi_dict[T]) // 6 + 1)
 
             if self.normalized_data==True:
                 axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 2295032..ad759e6 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -306,7 +306,7 @@ class FittingADMR:
         #############################################
 
 
-        colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00']
+        colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00'] * (len(self.Bphi_array) // 6 + 1)
 
         if self.normalized_data==True:
             axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
-- 
2.43.0


From 6d82f8d4631e1c7a4e2e9ce10e8116186e1e106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 25/43] fix: changing k_max or scattering_models of an object
 changed the caller's list and the default of later objects

---
 cuprates_transport/bandstructure.py | 2 +-
 cuprates_transport/scattering.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5d1c800..da7f85b 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -76,7 +76,7 @@ class BandStructure:
         # Number of subdivisions of the FBZ in units of Pi
         self.resolution = [res if res % 2 != 0 else res + 1 for res in resolution]
         # Unitless bounds of the Brillouin zone : k_x = [- k_max / a ... + k_max / a]
-        self.k_max = k_max # list
+        self.k_max = deepcopy(k_max) # list
 
         # Whether to use or not the marching square for higher symmetries
         self.march_square = march_square
diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index df49255..7d0d3cc 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -23,7 +23,7 @@ def scattering_method(func):
 class Scattering:
     def __init__(self, scattering_models, scattering_params, **kwargs):
 
-        self.scattering_models = scattering_models
+        self.scattering_models = deepcopy(scattering_models)
         self._scattering_params = deepcopy(scattering_params)
         self.gamma_tot = np.empty(1) # [ps^-1] total scattering rate array
 
-- 
2.43.0


From 4d277c684b3e6d3adf424b595794dbeef659bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 26/43] fix: contours of the scattering rate figures did not
 share the colour scale of the colour bar

---
 cuprates_transport/conductivity.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index e437aae..635659f 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -432,8 +432,10 @@ class Conductivity(Scattering):
         if gamma_min == None:
             gamma_min = min(gamma_min_list)
         if gamma_max == None:
-            gamma_min = min(gamma_min_list)
-        line.set_clim(gamma_min, gamma_max)
+            gamma_max = max(gamma_max_list)
+        # same colour scale for all the contours
+        for lc in axes.collections:
+            lc.set_clim(gamma_min, gamma_max)
         cbar = fig.colorbar(line, ax=axes)
         cbar.minorticks_on()
         cbar.ax.set_ylabel(r'$\Gamma_{\rm tot}$ ( THz )', rotation=270, labelpad=40)
@@ -691,7 +693,9 @@ class Conductivity(Scattering):
             line = axes_srate.add_collection(lc)
         gamma_max = max(gamma_max_list)
         gamma_min = min(gamma_min_list)
-        line.set_clim(gamma_min, gamma_max)
+        # same colour scale for all the contours
+        for lc in axes_srate.collections:
+            lc.set_clim(gamma_min, gamma_max)
         cbar = fig.colorbar(line, ax=axes_srate)
         cbar.minorticks_on()
         cbar.ax.tick_params(labelsize=10)
-- 
2.43.0


From 1e31ebd85fb9c19a43313057ebe9e37a25dc38d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 27/43] fix: figScatteringPhi raised ValueError for a band
 whose vz does not depend on kx and ky

---
 cuprates_transport/conductivity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 635659f..63912cb 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -482,7 +482,8 @@ class Conductivity(Scattering):
 
             phi = np.rad2deg(np.arctan2(ky,kx))
 
-            line = axes2.plot(phi, vz)
+            # vz is a number when it does not depend on kx and ky
+            line = axes2.plot(phi, vz * np.ones_like(phi))
             plt.setp(line, ls ="", c = '#80ff80', lw = 3, marker = "o",
                     mfc = '#80ff80', ms = 3, mec = "#7E2320", mew= 0)  # set properties
 
-- 
2.43.0


From 7f801b56e58bbd823f405502067eb92920478cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 28/43] fix: figMultipleFS2D drew other kz than the ones of its
 labels for k_max[2] != 2*pi and replaced the filling of the band

---
 cuprates_transport/bandstructure.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index da7f85b..d9b6d5e 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -553,6 +553,9 @@ class BandStructure:
         fig.subplots_adjust(left=0.14, right=0.75, bottom=0.20, top=0.9)
         # doping_per_kz returns (n, p), so we look at p here.
         doping_per_kz = self.doping_per_kz(res_z=5)[1][2:]
+        n, p = self.n, self.p # the figure does not change the band
+        p_tot = self.doping()
+        self.n, self.p = n, p
         a_z = np.round(self.k_max[2] / pi, 1)
         # Adding the title line "kz, p_z" with alignment
         fig.text(0.76, 0.86, r"$k_{\rm z}$", color="k", fontsize=18)  # k_z
@@ -566,10 +569,10 @@ class BandStructure:
         # Adding the third value line
         fig.text(0.76, 0.68, r"$" + f"{a_z:g}" + r"\pi/c$", color="#f3d36b", fontsize=18)  # k_z
         fig.text(0.88, 0.68, (np.round(doping_per_kz[2], 3)), color="#f3d36b", fontsize=18)  # p_z
-        fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(self.doping(), 3)), fontsize = 18)
+        fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(p_tot, 3)), fontsize = 18)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), 0, colors = '#ff0000', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, pi/self.c), 0, colors = '#ee9c54', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 2*pi/self.c), 0, colors = '#f3d36b', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/2/self.c), 0, colors = '#ee9c54', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), 0, colors = '#f3d36b', linewidths = 3)
         axes.set_xlim(-self.k_max[0], self.k_max[0])
         axes.set_ylim(-self.k_max[1], self.k_max[1])
         axes.tick_params(axis='x', which='major', pad=7)
-- 
2.43.0


From c937dcbef20bbd192c16295b3e446c8ca4653838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 29/43] fix: figOnekft drew the contour of kz = -2*pi/c,
 labelled kz = 0, whatever the plane of the starting point

---
 cuprates_transport/conductivity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 63912cb..6333cb4 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -521,9 +521,11 @@ class Conductivity(Scattering):
         kxx, kyy = np.meshgrid(kx, ky, indexing = 'ij')
         fig, axes = plt.subplots(1, 1, figsize = (5.6, 5.6))
         fig.subplots_adjust(left = 0.24, right = 0.87, bottom = 0.29, top = 0.91)
-        fig.text(0.39,0.84, r"$k_{\rm z}$ = 0", ha = "right", fontsize = 16)
+        # Contour in the plane of the starting point
+        kz = bObj.kf[2, index_kf]
+        fig.text(0.25,0.93, r"$k_{\rm z}$ = " + "{0:.2f}".format(kz * bObj.c / pi) + r"$\pi$/c", ha = "left", fontsize = 16)
         line = axes.contour(kxx*bObj.a, kyy*bObj.b,
-                            bObj.energy_func(kxx, kyy, - 2*pi / bObj.c), 0, colors = '#FF0000', linewidths = 3)
+                            bObj.energy_func(kxx, kyy, kz), 0, colors = '#FF0000', linewidths = 3)
         line = axes.plot(self.kft[0, index_kf,:]*bObj.a, self.kft[1, index_kf,:]*bObj.b)
         plt.setp(line, ls ="-", c = 'b', lw = 1, marker = "", mfc = 'b', ms = 5, mec = "#7E2320", mew= 0) # trajectory
         line = axes.plot(bObj.kf[0, index_kf]*bObj.a, bObj.kf[1, index_kf]*bObj.b)
-- 
2.43.0


From 67e56e715a19cf0d06b8219370937a7deae7fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 30/43] fix: figDiscretizeFS2D showed points of the first
 slices on the contour of the last one

---
 cuprates_transport/bandstructure.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index d9b6d5e..180d0b1 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -463,15 +463,16 @@ class BandStructure:
         ky = np.linspace(-self.k_max[1] / self.b, self.k_max[1] / self.b, mesh_graph)
         kxx, kyy = np.meshgrid(kx, ky, indexing = 'ij')
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), 0, colors = '#FF0000', linewidths = 3) # problem for orthorhombic
-        ## k-points
-        line = axes.plot(self.kf[0,:self.number_of_points_per_kz_list[-1]] * self.a,
-                         self.kf[1,:self.number_of_points_per_kz_list[-1]] * self.b)
+        ## k-points of the last slice, the one of the contour
+        first = self.kf.shape[1] - self.number_of_points_per_kz_list[-1]
+        line = axes.plot(self.kf[0,first:] * self.a,
+                         self.kf[1,first:] * self.b)
         plt.setp(line, ls ="", c = 'k', lw = 3, marker = "o", mfc = 'k', ms = 5, mec = "#7E2320", mew= 0)
         ## Velocities
-        axes.quiver(self.kf[0,:self.number_of_points_per_kz_list[-1]] * self.a,
-                    self.kf[1,:self.number_of_points_per_kz_list[-1]] * self.b,
-                    self.vf[0,:self.number_of_points_per_kz_list[-1]],
-                    self.vf[1,:self.number_of_points_per_kz_list[-1]],
+        axes.quiver(self.kf[0,first:] * self.a,
+                    self.kf[1,first:] * self.b,
+                    self.vf[0,first:],
+                    self.vf[1,first:],
                     color = 'k')
         axes.set_xlim(-self.k_max[0], self.k_max[0])
         axes.set_ylim(-self.k_max[1], self.k_max[1])
-- 
2.43.0


From d04bc57aadef6116893b55644f0a5314b4a250b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 31/43] fix: rhozz axis of figADMR was scaled with the first
 angle instead of Btheta_norm

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 0e06eb7..ac3f030 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -240,7 +240,8 @@ class ADMR:
         axes.set_xlabel(r"$\theta$ ( $^{\circ}$ )", labelpad = 8)
         axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( " + str(self.Btheta_norm) + " )", labelpad = 8)
         ymin, ymax = axes.axis()[2:]
-        axes2.set_ylim(ymin * self.rhozz_array[0, 0] * 1e5, ymax * self.rhozz_array[0, 0] * 1e5)
+        rhozz_norm = np.interp(self.Btheta_norm, self.Btheta_array, self.rhozz_array[0, :])
+        axes2.set_ylim(ymin * rhozz_norm * 1e5, ymax * rhozz_norm * 1e5)
         axes2.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 40, rotation = 270)
 
         axes.legend(loc = 0, fontsize = 14, frameon = False, numpoints = 1, markerscale = 1, handletextpad = 0.5)
-- 
2.43.0


From 067b3faf50e932d0139496fccd483ed31b8833e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 32/43] fix: figADMR, figParameters and figScatteringColor
 raised ValueError for a Fermi surface that does not cross the plane kz

---
 cuprates_transport/conductivity.py | 46 ++++++++++++++++--------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 6333cb4..7f69cbe 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -429,16 +429,17 @@ class Conductivity(Scattering):
 
             line = axes.add_collection(lc)
 
-        if gamma_min == None:
-            gamma_min = min(gamma_min_list)
-        if gamma_max == None:
-            gamma_max = max(gamma_max_list)
-        # same colour scale for all the contours
-        for lc in axes.collections:
-            lc.set_clim(gamma_min, gamma_max)
-        cbar = fig.colorbar(line, ax=axes)
-        cbar.minorticks_on()
-        cbar.ax.set_ylabel(r'$\Gamma_{\rm tot}$ ( THz )', rotation=270, labelpad=40)
+        if contours: # there can be no Fermi surface at this kz
+            if gamma_min == None:
+                gamma_min = min(gamma_min_list)
+            if gamma_max == None:
+                gamma_max = max(gamma_max_list)
+            # same colour scale for all the contours
+            for lc in axes.collections:
+                lc.set_clim(gamma_min, gamma_max)
+            cbar = fig.colorbar(line, ax=axes)
+            cbar.minorticks_on()
+            cbar.ax.set_ylabel(r'$\Gamma_{\rm tot}$ ( THz )', rotation=270, labelpad=40)
 
         kz = np.round(kz/(np.pi/bObj.c), 1)
         fig.text(0.97, 0.05, r"$k_{\rm z}$ = " + "{0:g}".format(kz) + r"$\pi$/c",
@@ -694,18 +695,19 @@ class Conductivity(Scattering):
             lc.set_array(gamma_kz0)
             lc.set_linewidth(4)
             line = axes_srate.add_collection(lc)
-        gamma_max = max(gamma_max_list)
-        gamma_min = min(gamma_min_list)
-        # same colour scale for all the contours
-        for lc in axes_srate.collections:
-            lc.set_clim(gamma_min, gamma_max)
-        cbar = fig.colorbar(line, ax=axes_srate)
-        cbar.minorticks_on()
-        cbar.ax.tick_params(labelsize=10)
-        cbar.ax.set_ylabel(r'$\Gamma_{\rm tot}$ ( THz )',
-                        rotation=270,
-                        labelpad=20,
-                        fontsize=14)
+        if contours: # there can be no Fermi surface at kz = 0
+            gamma_max = max(gamma_max_list)
+            gamma_min = min(gamma_min_list)
+            # same colour scale for all the contours
+            for lc in axes_srate.collections:
+                lc.set_clim(gamma_min, gamma_max)
+            cbar = fig.colorbar(line, ax=axes_srate)
+            cbar.minorticks_on()
+            cbar.ax.tick_params(labelsize=10)
+            cbar.ax.set_ylabel(r'$\Gamma_{\rm tot}$ ( THz )',
+                            rotation=270,
+                            labelpad=20,
+                            fontsize=14)
         fig.text(0.305, 0.405, r"$k_{\rm z}$=0", fontsize=10, ha="right")
         axes_srate.tick_params(axis='x', which='major')
         axes_srate.tick_params(axis='y', which='major')
-- 
2.43.0


From cf0fdd960273e89daeeb19bfb34a0ee3656b0051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 33/43] fix: band_params or scattering_params assigned to an
 object stayed shared with the caller's dictionary and other objects

---
 cuprates_transport/bandstructure.py | 2 +-
 cuprates_transport/scattering.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 180d0b1..4017583 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -121,7 +121,7 @@ class BandStructure:
         return self._band_params
 
     def _set_band_params(self, band_params):
-        self._band_params = band_params
+        self._band_params = deepcopy(band_params)
         self.erase_Fermi_surface()
     band_params = property(_get_band_params, _set_band_params)
 
diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 7d0d3cc..7ec3ae8 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -82,7 +82,7 @@ class Scattering:
         return self._scattering_params
 
     def _set_scattering_params(self, scattering_params):
-        self._scattering_params = scattering_params
+        self._scattering_params = deepcopy(scattering_params)
         # Set scattering rate model parameters as class attributes
         for param, value in self._scattering_params.items():
             setattr(self, param, value)  # Set each parameter as an attribute
-- 
2.43.0


From cd8b61a4f9ab87571854956f61a981a73aa2b87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 34/43] fix: figures drew a contour of another energy for a
 plane the Fermi surface does not cross

---
 cuprates_transport/bandstructure.py | 8 ++++----
 cuprates_transport/conductivity.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 4017583..6b6c938 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -462,7 +462,7 @@ class BandStructure:
         kx = np.linspace(-self.k_max[0] / self.a, self.k_max[0] / self.a, mesh_graph)
         ky = np.linspace(-self.k_max[1] / self.b, self.k_max[1] / self.b, mesh_graph)
         kxx, kyy = np.meshgrid(kx, ky, indexing = 'ij')
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), 0, colors = '#FF0000', linewidths = 3) # problem for orthorhombic
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), [0], colors = '#FF0000', linewidths = 3) # problem for orthorhombic
         ## k-points of the last slice, the one of the contour
         first = self.kf.shape[1] - self.number_of_points_per_kz_list[-1]
         line = axes.plot(self.kf[0,first:] * self.a,
@@ -571,9 +571,9 @@ class BandStructure:
         fig.text(0.76, 0.68, r"$" + f"{a_z:g}" + r"\pi/c$", color="#f3d36b", fontsize=18)  # k_z
         fig.text(0.88, 0.68, (np.round(doping_per_kz[2], 3)), color="#f3d36b", fontsize=18)  # p_z
         fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(p_tot, 3)), fontsize = 18)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), 0, colors = '#ff0000', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/2/self.c), 0, colors = '#ee9c54', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), 0, colors = '#f3d36b', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), [0], colors = '#ff0000', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/2/self.c), [0], colors = '#ee9c54', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), [0], colors = '#f3d36b', linewidths = 3)
         axes.set_xlim(-self.k_max[0], self.k_max[0])
         axes.set_ylim(-self.k_max[1], self.k_max[1])
         axes.tick_params(axis='x', which='major', pad=7)
diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 7f69cbe..884520e 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -526,7 +526,7 @@ class Conductivity(Scattering):
         kz = bObj.kf[2, index_kf]
         fig.text(0.25,0.93, r"$k_{\rm z}$ = " + "{0:.2f}".format(kz * bObj.c / pi) + r"$\pi$/c", ha = "left", fontsize = 16)
         line = axes.contour(kxx*bObj.a, kyy*bObj.b,
-                            bObj.energy_func(kxx, kyy, kz), 0, colors = '#FF0000', linewidths = 3)
+                            bObj.energy_func(kxx, kyy, kz), [0], colors = '#FF0000', linewidths = 3)
         line = axes.plot(self.kft[0, index_kf,:]*bObj.a, self.kft[1, index_kf,:]*bObj.b)
         plt.setp(line, ls ="-", c = 'b', lw = 1, marker = "", mfc = 'b', ms = 5, mec = "#7E2320", mew= 0) # trajectory
         line = axes.plot(bObj.kf[0, index_kf]*bObj.a, bObj.kf[1, index_kf]*bObj.b)
@@ -651,11 +651,11 @@ class Conductivity(Scattering):
         ## Inset FS /////////////////////////////////////////////////////////////#
         axes_FS = plt.axes([0, 0.56, .4, .4])
         axes_FS.contour(kxx*a, kyy*b, self.bandObject.energy_func(
-            kxx, kyy, 0), 0, colors='#ff0000', linewidths=1)
+            kxx, kyy, 0), [0], colors='#ff0000', linewidths=1)
         axes_FS.contour(kxx*a, kyy*b, self.bandObject.energy_func(
-            kxx, kyy, pi / c), 0, colors='#ee9c54', linewidths=1)
+            kxx, kyy, pi / c), [0], colors='#ee9c54', linewidths=1)
         axes_FS.contour(kxx*a, kyy*b, self.bandObject.energy_func(
-            kxx, kyy, 2 * pi / c), 0, colors='#f3d36b', linewidths=1)
+            kxx, kyy, 2 * pi / c), [0], colors='#f3d36b', linewidths=1)
         fig.text(0.33, 0.67, r"$k_{\rm z}$", fontsize=14)
         fig.text(0.33, 0.63, r"0", color='#ff0000', fontsize=14)
         fig.text(0.33, 0.60, r"$\pi$/c", color='#ee9c54', fontsize=14)
-- 
2.43.0


From 71852e06eb354949fb3309cc1945aa002e4fb121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 35/43] fix: band parameters named like a function or constant
 of Sympy (E, I, N, S, beta, gamma...) were not taken for parameters

---
 cuprates_transport/bandstructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 6b6c938..2588f9b 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -68,7 +68,9 @@ class BandStructure:
 
         # Create the dispersion and velocity functions
         self.band_model = band_model
-        self.energy_sym = sp.sympify(band_model)
+        # the parameters take precedence over the functions and constants
+        # of Sympy that have the same name (E, I, N, S, beta, gamma...)
+        self.energy_sym = sp.sympify(band_model, locals={name: sp.Symbol(name) for name in self._band_params})
         self.energy_velocity_definition()
 
         # Discretization
-- 
2.43.0


From 94f6a7e18a935492ccc71e4e2e8796f28b7db59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 36/43] fix: discretisation raised ValueError for a dispersion
 linear in one direction (constant velocity component)

---
 cuprates_transport/bandstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 2588f9b..30203e8 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -174,6 +174,8 @@ class BandStructure:
         for i, v in enumerate(self.v_sym):
             if v == 0:
                 self.v_sym[i] = "numpy.zeros_like(" + k_list[i] + ")"
+            elif not v.has(kx, ky, kz): # constant, the dispersion is linear in this direction
+                self.v_sym[i] = "numpy.zeros_like(" + k_list[i] + ") + (" + str(v) + ")"
 
         # Lambdafity //////////////////////////////////////////////////////////
         epsilon_func = sp.lambdify(self.var_sym, self.energy_sym, 'numpy')
-- 
2.43.0


From 06d754275c22f1a483abd3bef4cd307aaa1a63d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 37/43] fix: sort the polar angles before interpolating rho_zz
 at Btheta_norm

---
 cuprates_transport/admr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index ac3f030..0c12cc7 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -58,9 +58,10 @@ class ADMR:
 
         ## Normalization
         self.rzz_array = np.empty_like(self.rhozz_array)
+        order = np.argsort(self.Btheta_array) # np.interp needs increasing angles
         for i in range(len(self.Bphi_array)):
             rhozz_norm = np.interp(self.Btheta_norm,
-                                   self.Btheta_array, self.rhozz_array[i,:])
+                                   self.Btheta_array[order], self.rhozz_array[i, order])
             self.rzz_array[i,:] = self.rhozz_array[i,:] / rhozz_norm
         self.update_total_doping()
 
@@ -240,7 +241,8 @@ class ADMR:
         axes.set_xlabel(r"$\theta$ ( $^{\circ}$ )", labelpad = 8)
         axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( " + str(self.Btheta_norm) + " )", labelpad = 8)
         ymin, ymax = axes.axis()[2:]
-        rhozz_norm = np.interp(self.Btheta_norm, self.Btheta_array, self.rhozz_array[0, :])
+        order = np.argsort(self.Btheta_array)
+        rhozz_norm = np.interp(self.Btheta_norm, self.Btheta_array[order], self.rhozz_array[0, order])
         axes2.set_ylim(ymin * rhozz_norm * 1e5, ymax * rhozz_norm * 1e5)
         axes2.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 40, rotation = 270)
 
-- 
2.43.0


From cb0b5fcdc3ae10a6e91ed700a28e213c07981d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 38/43] fix: free band parameters named like an attribute of
 the band (n, p, mass) in the fits

---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 2 +-
 cuprates_transport/fitting_admr_series_multi_T.py | 2 +-
 cuprates_transport/fitting_admr_series_oneT.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 2cedecc..3b1e022 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -74,7 +74,7 @@ class FittingADMRParallel:
         """Takes care of creating the ADMR object with the member values"""
         ## Update bandObject
         for param_name in self.bounds_dict.keys():
-                if hasattr(self.bandObject, param_name):
+                if param_name in self.member and hasattr(self.bandObject, param_name):
                     setattr(self.bandObject, param_name, self.member[param_name])
                 if param_name in self.bandObject._band_params.keys():
                     self.bandObject[param_name] = self.member["band_params"][param_name]
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 1ba8edf..a3581e1 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -82,7 +82,7 @@ class FittingADMR:
     def produce_ADMR_object(self):
         ## Update bandObject
         for param_name in self.ranges_dict.keys():
-                if hasattr(self.bandObject, param_name):
+                if param_name in self.member_dict[self.data_T_list[0]] and hasattr(self.bandObject, param_name):
                     setattr(self.bandObject, param_name, self.member_dict[self.data_T_list[0]][param_name])
                 if param_name in self.bandObject._band_params.keys():
                     self.bandObject[param_name] = self.member_dict[self.data_T_list[0]]["band_params"][param_name]
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index ad759e6..ea6796f 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -66,7 +66,7 @@ class FittingADMR:
     def produce_ADMR_object(self):
         ## Update bandObject
         for param_name in self.ranges_dict.keys():
-                if hasattr(self.bandObject, param_name):
+                if param_name in self.member and hasattr(self.bandObject, param_name):
                     setattr(self.bandObject, param_name, self.member[param_name])
                 if param_name in self.bandObject._band_params.keys():
                     self.bandObject[param_name] = self.member["band_params"][param_name]
-- 
2.43.0


From ee08295e77e49af5821834a11073f7cdb34d720d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 39/43] fix: slices of a dispersion or a zone without four-fold
 symmetry when a = b

---
 cuprates_transport/bandstructure.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 30203e8..65d61c8 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -346,6 +346,21 @@ class BandStructure:
         kf = verts.transpose()
         return kf, dkf
 
+    def has_four_fold_symmetry(self):
+        """
+        True if the rotation of a quarter of the FBZ around kz gives the entire FBZ,
+        i.e. the FBZ and the dispersion are both the same after (kx, ky) -> (-ky, kx)
+        """
+        if self.a != self.b or self.k_max[0] != self.k_max[1]:
+            return False
+        kx_a = np.linspace(-0.97, 0.95, 11) * self.k_max[0] / self.a
+        ky_a = np.linspace(-0.94, 0.98, 12) * self.k_max[1] / self.b
+        kz_a = np.linspace(-0.93, 0.96, 7) * self.k_max[2] / self.c
+        kxx, kyy, kzz = np.meshgrid(kx_a, ky_a, kz_a, indexing='ij')
+        energies = self.energy_func(kxx, kyy, kzz)
+        difference = energies - self.energy_func(-kyy, kxx, kzz)
+        return bool(np.max(np.abs(difference)) <= 1e-9 * np.max(np.abs(energies)))
+
     def marching_square(self, epsilon=0):
         """
         Marching square algorithm used to discretize the Fermi surface per slices
@@ -354,7 +369,8 @@ class BandStructure:
         """
         # Initialize kx and ky arrays
         # res_xy_rough: make denser rough meshgrid to interpolate after
-        if self.a == self.b:  # tetragonal case
+        four_fold = self.has_four_fold_symmetry()
+        if four_fold:  # tetragonal case
             kx_a = np.linspace(0, self.k_max[0] / self.a, self.res_xy_rough)
             ky_a = np.linspace(0, self.k_max[1] / self.b, self.res_xy_rough)
         else:  # orthorhombic
@@ -375,7 +391,7 @@ class BandStructure:
             for i, contour in enumerate(contours):
                 # Contour come in units proportionnal to size of meshgrid
                 # one want to scale to units of kx and ky
-                if self.a == self.b:
+                if four_fold:
                     x = contour[:, 0] / (self.res_xy_rough - 1) * self.k_max[0]
                     y = contour[:, 1] / (self.res_xy_rough - 1) * self.k_max[1]
                 else:
@@ -394,7 +410,7 @@ class BandStructure:
                 dks = (s_int[1]- s_int[0]) / self.a  # dk path
                 x_int = np.interp(s_int, s, x)[:-1]
                 y_int = np.interp(s_int, s, y)[:-1]
-                if self.a == self.b:
+                if four_fold:
                     # For tetragonal symmetry, rotate the contour to get the entire Fermi surface
                     x_dump = x_int
                     y_dump = y_int
@@ -420,7 +436,7 @@ class BandStructure:
                     dkf = np.append(dkf, dks * dkz * np.ones_like(x_int))
                     self.dks = np.append(self.dks, dks * np.ones_like(x_int))
                     self.dkz = np.append(self.dkz, dkz * np.ones_like(x_int))
-            if self.a == self.b:
+            if four_fold:
                 # discretize one fourth of FS, therefore need * 4
                 self.number_of_points_per_kz_list.append(4 * number_of_points_per_kz)
             else:
-- 
2.43.0


From a1dfefc132b4ff43c4fc19b69493694d3d81add3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 40/43] fix: local variables of a scattering model taken for
 its arguments

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 7ec3ae8..fd56857 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -249,7 +249,7 @@ class Scattering:
         # Execute each method in scattering_params
         for model in self.scattering_models:
             func = getattr(self, model)
-            func_args = func.__code__.co_varnames
+            func_args = func.__code__.co_varnames[:func.__code__.co_argcount] # not its local variables
             if "epsilon" in func_args:
                 self.gamma_tot += func(epsilon)
             elif "vx" in func_args:
-- 
2.43.0


From df3706212d4f99a51fd35bd5c3f177cd4a00c5f6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 41/43] fix: members shared between temperatures of a fit got
 each other's parameters

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 4534ebe..369e019 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -145,7 +145,10 @@ class SimADMR:
 class Fitness:
     def __init__(self, data_dict, params_dict, bounds_dict, normalized_data=True):
         ## Initialize
-        self.params_dict = deepcopy(params_dict) # contains all the parameters to calculate ADMR
+        # contains all the parameters to calculate ADMR, temperatures and bands
+        # are copied one by one as they can be the same object for the user
+        self.params_dict = {T: {band: deepcopy(params_dict[T][band]) for band in params_dict[T].keys()}
+                            for T in params_dict.keys()}
         self.bounds_dict = deepcopy(bounds_dict)
         self.data_dict   = deepcopy(data_dict)
         self.T_list = [T for T in self.bounds_dict.keys() if T!="all"]
-- 
2.43.0


From 63b4d2adf61171eaae184216fc8f7f1f28fd035f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 42/43] fix: no worker at all for a small percentage of workers

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 +-
 cuprates_transport/fitting_admr_parallel_oneT.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 369e019..e0895fe 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -338,7 +338,7 @@ def fit_admr_parallel(params_dict, bounds_dict, data_dict,
     ## Initialize workers
     if num_cpu is None:
         num_cpu = cpu_count(logical=False)
-    num_workers = int(percent_workers / 100 * num_cpu)
+    num_workers = max(1, int(percent_workers / 100 * num_cpu))
     print("# Parallelization | CPU cores: " + str(num_cpu) + " | Workers: " + str(num_workers) )
     ## Initialize counter
     num_member = Value('i', 0)
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 3b1e022..d54ef0f 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -354,7 +354,7 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
                 normalized_data=normalized_data)
     if num_cpu is None:
         num_cpu = cpu_count(logical=False)
-    num_workers = int(percent_workers / 100 * num_cpu)
+    num_workers = max(1, int(percent_workers / 100 * num_cpu))
     print("# cpu cores: " + str(num_cpu))
     print("# workers: " + str(num_workers))
     ## Initialize counter
-- 
2.43.0


From e5e70ce84c2b865a58d366cb9eb3255ff4041f5f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:09:01 +0000
Subject: [PATCH 43/43] fix: scattering rates of integer wave vectors raised an
 error

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index fd56857..63b56ab 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -245,7 +245,7 @@ class Scattering:
     def tau_tot_func(self, kx, ky, kz, vx, vy, vz, epsilon = 0):
         """Computes the total lifetime based on the input model
         for the scattering rate"""
-        self.gamma_tot = np.zeros_like(kx)
+        self.gamma_tot = np.zeros_like(kx, dtype=float)
         # Execute each method in scattering_params
         for model in self.scattering_models:
             func = getattr(self, model)
-- 
2.43.0

