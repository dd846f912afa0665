From 3f7edc490dc9f61647e4b9a57f7869d32ea90d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 001/156] fix: make_lightcone reused the previous high-z cube
 when several cubes lie between two slices

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 4ad32fa..c821649 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -129,7 +129,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
             file_idx = np.argmin(np.abs(file_redshifts - z_bracket_low))
-            if data_high is None:
+            if z_bracket_low != z_bracket_high:
                 if reading_function is None: data_low, datatype = get_data_and_type(filenames[file_idx], cbin_bits, cbin_order, raw_density)
                 else: data_low = reading_function(filenames[file_idx])#; print('yes')
             else: #No need to read the file again
-- 
2.43.0


From b409357904a4739737d0b5aee373998a97434e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 002/156] fix: lightcones crashed on a slice at the redshift of
 the highest-z cube

---
 src/tools21cm/lightcone.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index c821649..0c57ce4 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -122,8 +122,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_z_bracket(file_redshifts, z)
         
         #Do we need a new file for the low z?
         if z_bracket_low_new != z_bracket_low:
@@ -241,8 +240,7 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_z_bracket(file_redshifts, z)
         
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
@@ -428,6 +426,15 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
     return subbox, box_dims, redshifts[low_n:high_n]
 
 
+def _get_z_bracket(file_redshifts, z):
+    '''
+    The redshifts of the two coeval cubes that most tightly enclose z. For internal use.
+    '''
+    z_high = file_redshifts[file_redshifts > z].min() if z < file_redshifts.max() else file_redshifts.max()
+    z_low = file_redshifts[file_redshifts < z_high].max()
+    return z_low, z_high
+
+
 def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
                       comoving_pos_idx, los_axis, interpolation='linear'):
     '''
-- 
2.43.0


From a21fd1b6ac2bf03afb8d90eae1ae4a51e92bb8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 003/156] fix: step interpolation of lightcones switched at
 half the redshift difference instead of the midpoint

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 0c57ce4..ea1e72e 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -447,7 +447,7 @@ def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
         slice_interp = ((z-z_bracket_low)*slice_high + \
                     (z_bracket_high - z)*slice_low)/(z_bracket_high-z_bracket_low)
     elif interpolation == 'step':
-        transition_z = (z_bracket_high-z_bracket_low)/2.
+        transition_z = (z_bracket_high+z_bracket_low)/2.
         if z < transition_z:
             slice_interp = slice_low.copy()
         else:
-- 
2.43.0


From b0ffe7364d216b6c7d1fa4c3c88636d489852092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 004/156] fix: lightcones from a text file or directory name,
 or with a list of redshifts, failed

---
 src/tools21cm/lightcone.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index ea1e72e..2fc8798 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -103,6 +103,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         mesh_size = get_mesh_size(filenames[0])
     else:
         assert file_redshifts is not None
+        file_redshifts = _get_file_redshifts(file_redshifts, filenames)
         mesh_size = reading_function(filenames[0]).shape
 
     assert len(file_redshifts) == len(filenames)
@@ -529,7 +530,7 @@ def _get_filenames(filenames_in):
     If it is a text file, read the list of files from the file
     '''
     
-    if hasattr(filenames_in, '__iter__'):
+    if hasattr(filenames_in, '__iter__') and not isinstance(filenames_in, str):
         filenames_out = filenames_in
     elif os.path.isdir(filenames_in):
         files_in_dir = glob.glob(filenames_in + '/*')
@@ -555,8 +556,8 @@ def _get_file_redshifts(redshifts_in, filenames):
     Else, return as is
     '''
     
-    if hasattr(redshifts_in, '__iter__'):
-        redshifts_out = redshifts_in
+    if hasattr(redshifts_in, '__iter__') and not isinstance(redshifts_in, str):
+        redshifts_out = np.array(redshifts_in)
     elif redshifts_in is None:
         redshifts_out = [determine_redshift_from_filename(f) for f in filenames]
         redshifts_out = np.array(redshifts_out)
-- 
2.43.0


From 275fdbb2572edba8ddc336ee81fa3ddf7b6bc13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 005/156] fix: get_lightcone_subvolume accepted both or neither
 of the depth parameters

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 2fc8798..5ab8a00 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -380,7 +380,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
         with the dimensions of the subvolume in Mpc
     '''
     
-    assert len(np.nonzero([depth_mhz, depth_mpc])) == 1
+    assert (depth_mhz is None) != (depth_mpc is None)
     
     if fov_Mpc is None:
         fov_Mpc = conv.LB
-- 
2.43.0


From fdb66c187e2dc9a62fc5265857e35dc47b2aede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 006/156] fix: get_lightcone_subvolume crashed in its printout
 when the subvolume ends at the last slice

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 5ab8a00..2e722fa 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -418,7 +418,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
     box_depth = max_cdist-min_cdist
     box_dims = (fov_Mpc, fov_Mpc, box_depth)
     if(verbose): 
-        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n]))
+        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n-1]))
         print('Slice frequencies (MHz): %.1f %.1f' %(min_freq, max_freq))
         print('Slice comoving distances (cMpc): %.2f %.2f' %(min_cdist, max_cdist))
         print('Slice indices:', low_n, high_n)
-- 
2.43.0


From 14c03bb98743a664ce099ff8315a7ff49b9a41db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 007/156] fix: constants derived from the cosmological
 parameters were stale after the set_* functions

---
 src/tools21cm/const.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index 810a56c..35209c2 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -27,6 +27,7 @@ def set_abundance_helium(value):
 	global abu_he_mass, abu_h_mass
 	abu_he_mass = value
 	abu_h_mass = 1.0-abu_he_mass
+	_set_derived()
 
 mean_molecular = 1.0/(1.0-abu_he_mass)
 solar_masses_per_gram = 5.02785431e-34
@@ -48,18 +49,18 @@ def set_hubble_h(value):
 	'''
 	Define new hubble constant value (little h).
 	'''
-	global h, H0
+	global h
 	h  = value 
-	H0 = 100.0*h
+	_set_derived()
 
 def set_omega_matter(value): 
 	'''
 	Define new omega matter value.
 	'''
-	global Omega0, lam, q0
+	global Omega0, lam
 	Omega0 = value
 	lam = 1.0-Omega0
-	q0 = 0.5*Omega0 - lam
+	_set_derived()
 	# print(Omega0, q0)
 
 def set_omega_baryon(value):
@@ -68,14 +69,16 @@ def set_omega_baryon(value):
 	'''
 	global OmegaB
 	OmegaB = value 
+	_set_derived()
 
 def set_omega_lambda(value):
 	'''
 	Define new omega lambda value.
 	'''
-	global lam
+	global lam, OmegaL
 	lam = value 
 	OmegaL = value
+	_set_derived()
 
 def set_ns(value):
 	'''
@@ -109,3 +112,17 @@ lambda0 = c*1.0e5/(nu0*1.0e6) # cm
 num_h_0=(1-abu_he_mass)*OmegaB*rho_crit_0/m_p
 # meandt = 2.9*0.043/0.04
 meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
+
+def _set_derived():
+	'''
+	Recompute the constants that follow from the cosmological parameters. For internal use.
+	'''
+	global q0, mean_molecular, H0, H0cgs, rho_crit_0, rho_matter, num_h_0, meandt
+	q0 = 0.5*Omega0 - lam
+	mean_molecular = 1.0/(1.0-abu_he_mass)
+	H0 = 100.0*h
+	H0cgs = H0*1e5/Mpc
+	rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
+	rho_matter = rho_crit_0*Omega0
+	num_h_0 = (1-abu_he_mass)*OmegaB*rho_crit_0/m_p
+	meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
-- 
2.43.0


From d2c14162cb2b43ecdf40596140b6e28dbe8081f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 008/156] fix: set_sim_constants changed the box length before
 refusing an unsupported box

---
 src/tools21cm/conv.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index ac939b4..a7a25bd 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -31,35 +31,35 @@ def set_sim_constants(boxsize_cMpc):
 	'''
 	global boxsize, LB, nbox_fine, M_box, M_grid, lscale, tscale, velconvert
 
-	boxsize = boxsize_cMpc
-	LB = boxsize/const.h	
-	if hf.flt_comp(boxsize, 425.):
+	if hf.flt_comp(boxsize_cMpc, 425.):
 		hf.print_msg('Setting conversion factors for 425/h Mpc box')
 		nbox_fine = 10976
-	elif hf.flt_comp(boxsize, 114.):
+	elif hf.flt_comp(boxsize_cMpc, 114.):
 		hf.print_msg('Setting conversion factors for 114/h Mpc box')
 		nbox_fine = 6144
-	elif hf.flt_comp(boxsize, 64.):
+	elif hf.flt_comp(boxsize_cMpc, 64.):
 		hf.print_msg('Setting conversion factors for 64/h Mpc box')
 		nbox_fine = 3456
-	elif hf.flt_comp(boxsize, 37.):
+	elif hf.flt_comp(boxsize_cMpc, 37.):
 		hf.print_msg('Setting conversion factors for 37/h Mpc box')
 		nbox_fine = 2048
-	elif hf.flt_comp(boxsize, 500.):
+	elif hf.flt_comp(boxsize_cMpc, 500.):
 		hf.print_msg('Setting_conversion_factors for 500/h Mpc box')
 		nbox_fine = 13824
-	elif hf.flt_comp(boxsize, 244.):
+	elif hf.flt_comp(boxsize_cMpc, 244.):
 		hf.print_msg('Setting_conversion_factors for 244/h Mpc box')
 		nbox_fine = 8000
-	elif hf.flt_comp(boxsize, 47.):
+	elif hf.flt_comp(boxsize_cMpc, 47.):
 		hf.print_msg('Setting_conversion_factors for 47/h Mpc box')
 		nbox_fine = 3456
-	elif hf.flt_comp(boxsize, 200.):
+	elif hf.flt_comp(boxsize_cMpc, 200.):
 		hf.print_msg('Setting_conversion_factors for 200/h Mpc box')
 		nbox_fine = 3456
 	else:
 		raise Exception('Invalid boxsize (%.3f cMpc)' % boxsize_cMpc)
 
+	boxsize = boxsize_cMpc
+	LB = boxsize/const.h	
 	M_box      = const.rho_matter*(LB*const.Mpc)**3 # mass in box (g, not M0)
 	M_grid     = M_box/(float(nbox_fine)**3)
 	lscale = (LB)/float(nbox_fine)*const.Mpc # size of a cell in cm, comoving
-- 
2.43.0


From 613beac49c93f50068cb6c780b547ba4619706cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 009/156] fix: distance, redshift and age conversions truncated
 the result for integer input

---
 src/tools21cm/cosmo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 1c836b9..1d43dea 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -138,7 +138,7 @@ def z_to_cdist(z):
         Comoving distance in Mpc
     '''
     z = np.atleast_1d(z)
-    dist = np.zeros_like(z)
+    dist = np.zeros_like(z, dtype=float)
     for i in range(len(z)):
         Ez_func = lambda x: 1./np.sqrt(const.Omega0*(1.+x)**3+const.lam)
         dist[i] = const.c/const.H0 * quad(Ez_func, 0, z[i])[0]
@@ -160,7 +160,7 @@ def cdist_to_z(dist):
         
     '''
     dist = np.atleast_1d(dist)
-    z = np.zeros_like(dist)
+    z = np.zeros_like(dist, dtype=float)
     func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
     z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
@@ -183,7 +183,7 @@ def z_to_age(z):
     '''
     z = np.atleast_1d(z)
     a = 1/(1+z)
-    tage = np.zeros_like(z)
+    tage = np.zeros_like(z, dtype=float)
     for i in range(len(a)):
         Ea_func = lambda x: 1./x/np.sqrt(const.Omega0*x**-3+const.lam)
         tage[i] = 1/const.H0 * quad(Ea_func, 0, a[i])[0]
-- 
2.43.0


From 81094f39825fc48f76baa2bcfd4ad19df6ba2301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 010/156] fix: cdist_to_z was inaccurate for cosmologies away
 from the precalculated table

---
 src/tools21cm/cosmo.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 1d43dea..92ad4ba 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -161,11 +161,7 @@ def cdist_to_z(dist):
     '''
     dist = np.atleast_1d(dist)
     z = np.zeros_like(dist, dtype=float)
-    func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
-    z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
-    z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
-    table_z     = precalc_table_z[precalc_table_z>z_min_guess]
-    table_z     = table_z[table_z<z_max_guess]
+    table_z     = precalc_table_z
     table_cdist = z_to_cdist(table_z)
     func = interp1d(table_cdist, table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     for i in range(len(dist)):
-- 
2.43.0


From f6dc64947de10c5c3278f9fd9198231ee717ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 011/156] fix: fof dropped the only cluster when every cell is
 above the threshold

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 59e10b1..f1821eb 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -40,7 +40,7 @@ def fof(data, xth=0.5, connectivity=1):
 		from skimage import morphology
 		out_map = morphology.label(data, connectivity=connectivity)
 		elements, size_list = np.unique(out_map, return_counts=True)
-		size_list = size_list[1:]
+		size_list = size_list[elements>0]
 	else: out_map, size_list = FoF_search(data, xth)
 	t2 = datetime.datetime.now()
 	runtime = (t2-t1).total_seconds()/60
-- 
2.43.0


From 6fb7e4ac0a26bde27417b27f2f7d1fa2d5d32a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 012/156] fix: FoF_search found no regions (exhausted iterator)
 and its queue could look empty too early

---
 src/tools21cm/Friends_of_Friends.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/Friends_of_Friends.py b/src/tools21cm/Friends_of_Friends.py
index f1c6100..991edf1 100755
--- a/src/tools21cm/Friends_of_Friends.py
+++ b/src/tools21cm/Friends_of_Friends.py
@@ -10,8 +10,7 @@ sizes_list = ast.literal_eval(sizes_string)
 
 import numpy as np
 from itertools import count
-#from Queue import Queue
-from multiprocessing import Queue
+from queue import Queue
 
 
 def FoF_search(array, threshold):
@@ -29,7 +28,7 @@ def FoF_search(array, threshold):
                 yield tuple(new_coordinate)
 
     out_map = np.zeros(array.shape, dtype=int)   # creates an array with the same shape as the input search array
-    possibilities = zip(*np.where(array > threshold))  # creates a list of indices of points above the threshold
+    possibilities = list(zip(*np.where(array > threshold)))  # creates a list of indices of points above the threshold
     poss_set = set(possibilities)
     
     def recursive_search(point, current_group, currentsize):     # function to calculate group membership of a point
-- 
2.43.0


From f3ded5eede9e24b9261617000015105833a551d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 013/156] fix: mfp lost 3D rays longer than the grid side

---
 src/tools21cm/mfp_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index 845bb60..3be5eb8 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -7,7 +7,7 @@ from tqdm import tqdm
 def _ray3d(ar, xs, ys, zs, ls, ms, ns, verbose):
 
     info = ar.shape
-    longest = max(info)
+    longest = int(np.sqrt(3) * max(info))
     num_sz  = np.zeros(longest)
 
     # Ensure coordinates are of type float64 for compatibility with interpolation
-- 
2.43.0


From 96a8f4de69bb2a9f0d6d11ebeff40949b580fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 014/156] fix: mfp_from_point failed on array points and did
 not refuse numpy-integer points outside the region

---
 src/tools21cm/mfp_np.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index 3be5eb8..068177c 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -75,13 +75,13 @@ def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random'):
     ms = sin_thetas * sin_phis
     ns = cos_thetas
 
-    if point == 'random':
+    if isinstance(point, str) and point == 'random':
         loc = np.argwhere(ar == 1)
         rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
         xs, ys, zs = loc[rand_loc, 0], loc[rand_loc, 1], loc[rand_loc, 2]
     else:
         xs, ys, zs = point
-        if isinstance(xs, (int,float)):
+        if isinstance(xs, (int,float,np.integer)):
             if ar[xs, ys, zs] == 0:
                 print('Given point is outside the structure.')
                 return None
@@ -112,7 +112,7 @@ def mfp2d(arr, xth=0.5, iterations=1000000, verbose=True, point='random'):
     ls = sin_thetas
     ms = cos_thetas
 
-    if point == 'random':
+    if isinstance(point, str) and point == 'random':
         loc = np.argwhere(ar == 1)
         rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
         xs, ys = loc[rand_loc, 0], loc[rand_loc, 1]
-- 
2.43.0


From e4134d6dc93a514bcb281073a53f880f238c2176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 015/156] fix: mfp crashed on an empty region when the
 threshold is above one

---
 src/tools21cm/bubble_stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index f1821eb..ffd4e04 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -133,7 +133,7 @@ def mfp(data, xth=0.5, boxsize=None, iterations=10000000, verbose=True, upper_li
 	if verbose:
 		print(f'{check_box}/{data.size} cells are marked as region of interest (ROI).')
 	if check_box==0:
-		data = np.ones(data.shape)
+		data, xth = np.ones(data.shape), 1.
 		iterations = 3
 	if dim == 2:
 		if verbose: print("MFP method applied on 2D data.")
@@ -207,7 +207,7 @@ def averaged_mfp(data, xth=0.5, boxsize=None, iterations=10000000, rays_per_poin
 		xth  = -1.*xth
 	check_box = (data>=xth).sum()
 	if check_box==0:
-		data = np.ones(data.shape)
+		data, xth = np.ones(data.shape), 1.
 		iterations = 3
 	if dim == 3:
 		ar = np.zeros_like(data)
@@ -296,7 +296,7 @@ def mfp_from_point(data, point, xth=0.5, boxsize=None, iterations=10000000, verb
 		xth  = -1.*xth
 	check_box = (data>=xth).sum()
 	if check_box==0:
-		data = np.ones(data.shape)
+		data, xth = np.ones(data.shape), 1.
 		iterations = 3
 	if dim == 2:
 		print("MFP method applied on 2D data")
-- 
2.43.0


From cb90d276f02852d3bc8ba2aa8b3db784b6f45b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 016/156] fix: spa returned NaN for an empty region instead of
 an all-zero distribution

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index ffd4e04..250f831 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -84,7 +84,7 @@ def spa(data, xth=0.95, boxsize=None, nscales=20, upper_lim=False, binning='log'
 		xth  = -1.*xth
 	rs, ni = spa_np.spa_np(data, xth=xth, binning=binning, nscales=nscales, verbose=verbose, use_fftconvolve=use_fftconvolve)
 	rs_ = rs*boxsize/data.shape[0]
-	ni_ = ni/np.sum(ni)
+	ni_ = ni/np.sum(ni) if np.sum(ni)>0 else ni
 	return rs_, ni_
 
 
-- 
2.43.0


From da2466e25ef41f89b9381cbd79aa82406574075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 017/156] fix: brightness temperature lightcones paired
 redshifts with the last axis instead of los_axis

---
 src/tools21cm/temperature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 815c4ae..db730ee 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -147,6 +147,7 @@ def calc_dt_lightcone(xfrac, dens, lowest_z, los_axis = 2):
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
 	z = cosmo.cdist_to_z(cdist)
+	z = z.reshape([-1 if i == los_axis%3 else 1 for i in range(3)])
 	return _dt(dens, xfrac, z)
 
 def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=True):
@@ -190,6 +191,7 @@ def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=Tr
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
 	z = cosmo.cdist_to_z(cdist)
+	z = z.reshape([-1 if i == los_axis%3 else 1 for i in range(3)])
 	print("Redshift: ", str(z))
 	return _dt_full(dens, xfrac,temp, z, correct)
 
-- 
2.43.0


From fac98d7520ec5d6cd5495aeba37f705a78238228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 018/156] fix: calc_dt_full_lightcone used the mean redshift
 for every slice

---
 src/tools21cm/temperature.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index db730ee..9a29a98 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -224,8 +224,6 @@ def _dt(rho, xi, z):
 	return dt
 
 def _dt_full(rho, xi, Ts, z, correct):
-        z = np.mean(z)
-        print("Redshift:" , str(z))
         rho_mean = const.rho_crit_0*const.OmegaB
         Tcmb 	 = const.Tcmb0*(1+z) 
         Cdt      = mean_dt(z)
@@ -252,7 +250,7 @@ def _dt_full(rho, xi, Ts, z, correct):
                 # (so a fraction xi of the cell's volume is ionized) and that
                 # the temperature of the ionized part is T_HII
                 Ts_new = (Ts-xi*T_HII)/(1.-xi)
-                Ts_new[Ts_new < T_min] = T_min
+                Ts_new = np.maximum(Ts_new, T_min)
                 if np.any(Ts_new < 0): print("WARNING: negative temperatures")
         else:
                 Ts_new=Ts
-- 
2.43.0


From 25519d16b82db3034c783994f322934d64eb8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 019/156] fix: calc_dt_full gave NaN in fully ionized cells
 hotter than 2e4 K

---
 src/tools21cm/temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 9a29a98..e207e61 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -249,7 +249,9 @@ def _dt_full(rho, xi, Ts, z, correct):
                 # assuming that the ionized part of the cell is fully ionized
                 # (so a fraction xi of the cell's volume is ionized) and that
                 # the temperature of the ionized part is T_HII
-                Ts_new = (Ts-xi*T_HII)/(1.-xi)
+                # (fully ionized cells have no neutral medium and give no signal).
+                neutral = xi < 1
+                Ts_new = np.where(neutral, (Ts-xi*T_HII)/np.where(neutral, 1.-xi, 1.), Ts)
                 Ts_new = np.maximum(Ts_new, T_min)
                 if np.any(Ts_new < 0): print("WARNING: negative temperatures")
         else:
-- 
2.43.0


From d1ad0985963b64dbce8f5513c30ee23b7f8415e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 020/156] fix: redshift of file objects and of array/file
 mixtures could not be determined in calc_dt

---
 src/tools21cm/helper_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index bcf86a6..3fa0613 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -485,6 +485,9 @@ def determine_redshift_from_filename(filename):
                 * redshift (float) 
                 If no redshift could be found, return -1
         '''
+        if not isinstance(filename, (str, os.PathLike)):
+                # file objects know their redshift, plain arrays do not
+                return getattr(filename, 'z', -1)
         filename = os.path.basename(filename)
         filename = os.path.splitext(filename)[0]
         
-- 
2.43.0


From 9bd06232a6f707e439efe079715cbdcb94028770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 021/156] fix: tau_map ignored the order of the redshifts of an
 array lightcone

---
 src/tools21cm/tau.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/tau.py b/src/tools21cm/tau.py
index 4b4e835..78d05b4 100755
--- a/src/tools21cm/tau.py
+++ b/src/tools21cm/tau.py
@@ -110,7 +110,8 @@ def tau_map(ionfractions, redshifts=None, num_points=50, reading_function=None):
         redshifts = np.sort(np.array(list(ionfractions.keys())))
 
     if isinstance(ionfractions, np.ndarray):
-        lightcone, output_z = ionfractions, redshifts
+        order = np.argsort(redshifts)
+        lightcone, output_z = ionfractions[:, :, order], np.asarray(redshifts)[order]
     else:
         lightcone, output_z = make_lightcone(ionfractions, file_redshifts=redshifts, reading_function=reading_function)
 
-- 
2.43.0


From 042ce7c2ff614c7091512385d60c2dc4ce959d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 022/156] fix: wavenumbers of 1D and 2D spectra were off by
 half a mode for even sizes (and signed in 1D)

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 2faaa86..63e8481 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -455,12 +455,12 @@ def _get_k(input_array, box_dims):
     dim = len(input_array.shape)
     if dim == 1:
         x = np.arange(len(input_array))
-        center = x.max()/2.
+        center = len(input_array)//2
         kx = 2.*np.pi*(x-center)/box_dims[0]
-        return [kx], kx
+        return [kx], np.abs(kx)
     elif dim == 2:
         x,y = np.indices(input_array.shape, dtype='int32')
-        center = np.array([(x.max()-x.min())/2, (y.max()-y.min())/2])
+        center = np.array(input_array.shape)//2
         kx = 2.*np.pi * (x-center[0])/box_dims[0]
         ky = 2.*np.pi * (y-center[1])/box_dims[1]
         k = np.sqrt(kx**2 + ky**2)
-- 
2.43.0


From 65e8cf1106c9e054f35aba8d1ff01e097f8378c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 023/156] fix: power spectra failed for box lengths given as an
 array and for bin edges given as a list

---
 src/tools21cm/power_spectrum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 63e8481..317be6c 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -118,6 +118,7 @@ def radial_average(input_array, box_dims, kbins=10, binning='log', breakpoint=0.
         '''
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
+        box_dims = _get_dims(box_dims, input_array.shape)
         k_comp, k = _get_k(input_array, box_dims)
         kbins = _get_kbins(kbins, box_dims, k, binning=binning, breakpoint=breakpoint)
         
@@ -507,7 +508,7 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
         Make a list of bin edges if kbins is an integer,
         otherwise return it as it is.
         '''
-        if isinstance(kbins,int):
+        if isinstance(kbins,(int,np.integer)):
                 kmin = 2.*np.pi/min(box_dims) if kmin is None else kmin
                 kmax = k.max() if kmax is None else kmax
                 if binning=='linear': kbins = np.linspace(kmin, kmax, kbins+1)
@@ -516,7 +517,7 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
                         kbins_low  = np.linspace(kmin, kmax, kbins+1)
                         kbins_high = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
                         kbins = np.hstack((kbins_low[kbins_low<breakpoint],kbins_high[kbins_high>breakpoint]))          
-        return kbins
+        return np.asarray(kbins)
 
 
 def _get_dims(box_dims, ashape):
@@ -527,7 +528,7 @@ def _get_dims(box_dims, ashape):
         size
         Otherwise, return as it is
         '''
-        if box_dims == None:
+        if box_dims is None:
                 return [conv.LB]*len(ashape)
         if not hasattr(box_dims, '__iter__'):
                 return [box_dims]*len(ashape)
-- 
2.43.0


From 1f03dcc00b555a1ec4283bacb5d21a55915f652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 024/156] fix: tapering windows of the power spectra overwrote
 the caller's array

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 317be6c..f0a9cb8 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -13,11 +13,11 @@ def apply_window(input_array, window):
     if window is None: return input_array
     from scipy.signal import windows
     if window.lower()=='blackmanharris':
-            input_array *= windows.blackmanharris(input_array.shape[-1])[None,None,:]
+            input_array = input_array*windows.blackmanharris(input_array.shape[-1])[None,None,:]
     elif window.lower()=='tukey':
-            input_array *= windows.tukey(input_array.shape[-1])[None,None,:]
+            input_array = input_array*windows.tukey(input_array.shape[-1])[None,None,:]
     else:
-            input_array *= window
+            input_array = input_array*window
     return input_array
 
 
-- 
2.43.0


From 6824758ed34e08b81b00a7a420906fadec643cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 025/156] fix: the documented list [n_kper, n_kpar] of bin
 numbers (and unequal edge arrays) crashed power_spectrum_2d

---
 src/tools21cm/power_spectrum.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index f0a9cb8..cd02680 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -208,11 +208,9 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
         '''
         input_array = apply_window(input_array, window)
         
-        if type(kbins) == list:
-                binning = None
-        elif np.array(kbins).size==1: 
+        if not hasattr(kbins, '__len__'):
                 kbins = [kbins, kbins]
-        elif not isinstance(kbins[0], int): 
+        elif hasattr(kbins[0], '__len__'): 
                 binning = None
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
-- 
2.43.0


From d0d0ae8b415df7144609380bc42ebe05a634013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 026/156] fix: weights of the (mu,k) spectrum failed for
 arrays, and mu_binning changed its input

---
 src/tools21cm/power_spectrum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index cd02680..978857a 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -382,8 +382,8 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
         This function is for internal use only.
         '''
         
-        if weights != None:
-                powerspectrum *= weights
+        if weights is not None:
+                powerspectrum = powerspectrum*weights
 
         assert(len(powerspectrum.shape)==3)
 
@@ -410,6 +410,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
         n_mubins = len(mubins)-1
 
         #Remove the zero component from the power spectrum. mu is undefined here
+        powerspectrum = np.array(powerspectrum)
         powerspectrum[tuple((np.array(powerspectrum.shape)/2).astype(int))] = 0.
 
         #Bin the data
@@ -428,7 +429,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                         idx = (mu >= mu_min) & (mu < mu_max) & kidx.astype(bool)
                         outdata[i,ki] = np.mean(powerspectrum[idx])
                         n_modes[i,ki] = np.size(powerspectrum[idx])
-                        if weights != None:
+                        if weights is not None:
                                 outdata[i,ki] /= weights[idx].mean()
 
         return outdata, mubins[:-1]+dmu, kbins[:-1]+dk, n_modes
-- 
2.43.0


From bf473fcc59f0ad30ad06919a11feea5e3a2ad6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 027/156] fix: line-of-sight modes were not excluded from the
 (mu,k) spectrum for odd grid sizes

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 978857a..22e6207 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -566,11 +566,11 @@ def _get_nonzero_idx(ps_shape, los_axis):
         '''
         x,y,z = np.indices(ps_shape)
         if los_axis == 0:
-                zero_idx = (y == ps_shape[1]/2)*(z == ps_shape[2]/2)
+                zero_idx = (y == ps_shape[1]//2)*(z == ps_shape[2]//2)
         elif los_axis == 1:
-                zero_idx = (x == ps_shape[0]/2)*(z == ps_shape[2]/2)
+                zero_idx = (x == ps_shape[0]//2)*(z == ps_shape[2]//2)
         else:
-                zero_idx = (x == ps_shape[0]/2)*(y == ps_shape[1]/2)
+                zero_idx = (x == ps_shape[0]//2)*(y == ps_shape[1]//2)
         good_idx = np.invert(zero_idx)
         return good_idx
 
-- 
2.43.0


From 1b17b37b04179ba407bf9781248afc3d961a143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 028/156] fix: the (mu,k) spectrum lost the modes along the
 line of sight, the largest k and all k < 0.001

---
 src/tools21cm/power_spectrum.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 22e6207..f86518d 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -404,7 +404,8 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
 
         #Make mu bins
         min_mu=0.0 if absolute_mus else -1.0
-        if isinstance(mubins,int):
+        mubins = np.asarray(mubins)
+        if mubins.ndim == 0:
                 mubins = np.linspace(min_mu, 1.0 , mubins+1)
         dmu = (mubins[1:]-mubins[:-1])/2.
         n_mubins = len(mubins)-1
@@ -421,12 +422,12 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                 print_msg('Bin %d of %d' % (ki, n_kbins))
                 kmin = kbins[ki]
                 kmax = kbins[ki+1]
-                kidx = (k >= kmin) & (k < kmax)
+                kidx = (k >= kmin) & ((k <= kmax) if ki == n_kbins-1 else (k < kmax))
                 kidx = kidx*good_idx
                 for i in range(n_mubins):
                         mu_min = mubins[i]
                         mu_max = mubins[i+1]
-                        idx = (mu >= mu_min) & (mu < mu_max) & kidx.astype(bool)
+                        idx = (mu >= mu_min) & ((mu <= mu_max) if i == n_mubins-1 else (mu < mu_max)) & kidx.astype(bool)
                         outdata[i,ki] = np.mean(powerspectrum[idx])
                         n_modes[i,ki] = np.size(powerspectrum[idx])
                         if weights is not None:
@@ -497,7 +498,7 @@ def _get_mu(k_comp, k, los_axis, absolute_mus):
 
         #mu=cos(theta) = k_par/k
         mu = np.abs(los_dist/k) if absolute_mus else los_dist/np.abs(k)
-        mu[np.where(k < 0.001)] = np.nan
+        mu[k == 0] = np.nan
         
         return mu
 
-- 
2.43.0


From 4fe4f72ba1cd5aef5ba7b9b9f21f824bc2d0ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 029/156] fix: power_spectrum_multipoles always crashed; count
 modes and leave out the zero mode

---
 src/tools21cm/power_legendre.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/power_legendre.py b/src/tools21cm/power_legendre.py
index d3fc984..b5ef97b 100755
--- a/src/tools21cm/power_legendre.py
+++ b/src/tools21cm/power_legendre.py
@@ -1,5 +1,5 @@
 import numpy as np
-from .power_spectrum import _get_dims, power_spectrum_nd, _get_k, _get_kbins, _get_mu, get_eval, _get_nonzero_idx
+from .power_spectrum import _get_dims, power_spectrum_nd, _get_k, _get_kbins, _get_mu, _get_nonzero_idx
 
 def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
                                los_axis = 0, output=['P0', 'P2', 'P4', 'nmodes'], exclude_zero_modes=False):
@@ -44,13 +44,15 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
     k_comp, k = _get_k(input_array, box_dims)
     kbins = _get_kbins(kbins, box_dims, k)
     dk = (kbins[1:]-kbins[:-1])/2.
-    mu = _get_mu(k_comp, k, los_axis)
+    mu = _get_mu(k_comp, k, los_axis, True)
     
     #Exclude k_perp = 0 modes
     if exclude_zero_modes:
         good_idx = _get_nonzero_idx(ps.shape, los_axis)
     else:
-        good_idx = np.ones_like(ps)
+        good_idx = np.ones_like(ps, dtype=bool)
+    #mu is undefined for the zero mode
+    good_idx = good_idx & (k > 0)
 
     #Legendre polynomials
     if 'P0' in output:
@@ -75,9 +77,8 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
     for i in range(n_kbins):
         kmin = kbins[i]
         kmax = kbins[i+1]
-        idx = get_eval()('(k >= kmin) & (k < kmax)')
-        idx *= good_idx
-        nmodes[i] = len(np.nonzero(idx))
+        idx = (k >= kmin) & ((k <= kmax) if i == n_kbins-1 else (k < kmax)) & good_idx
+        nmodes[i] = np.count_nonzero(idx)
         if 'P0' in output:
             multipoles['P0'][i] = np.sum(ps[idx]*P0[idx])/np.sum(P0[idx]**2)
         if 'P2' in output:
-- 
2.43.0


From 2f9e4e7e0e43c5d8e51fbf8b362b458190dce8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 030/156] fix: the documented window given as an array crashed
 the power spectra

---
 src/tools21cm/power_spectrum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index f86518d..c2254d6 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -12,9 +12,10 @@ from scipy import fftpack, stats
 def apply_window(input_array, window):
     if window is None: return input_array
     from scipy.signal import windows
-    if window.lower()=='blackmanharris':
+    name = window.lower() if isinstance(window, str) else None
+    if name=='blackmanharris':
             input_array = input_array*windows.blackmanharris(input_array.shape[-1])[None,None,:]
-    elif window.lower()=='tukey':
+    elif name=='tukey':
             input_array = input_array*windows.tukey(input_array.shape[-1])[None,None,:]
     else:
             input_array = input_array*window
-- 
2.43.0


From 510f0b4f4e23eb9b6859fc6068f8e736c0af00be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 031/156] fix: circular fftconvolve shifted the result by a
 cell for kernels of odd size

---
 src/tools21cm/fft_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index 11b752c..d5758b5 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -107,7 +107,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = torch_fft.ifftn(f1 * f2, s=fsize, dim=calc_axes)
 
         if boundary == 'circular':
-            return torch.roll(ret, shifts=tuple((-s2 // 2).tolist()), dims=calc_axes)
+            return torch.roll(ret, shifts=tuple((-(s2 // 2)).tolist()), dims=calc_axes)
 
     # --- 3. JAX Backend ---
     elif backend == 'jax':
@@ -132,7 +132,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = jnp.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return jnp.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return jnp.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 4. NumPy Backend ---
     elif backend == 'numpy':
@@ -154,7 +154,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = np.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return np.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return np.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 5. Cropping Logic (Applies to all backends) ---
     if do_pad:
-- 
2.43.0


From 9d92d52f54d331b271599aa06fa0cc8793c59659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:52 +0000
Subject: [PATCH 032/156] fix: padded boundaries of fftconvolve took another
 kernel centre than the other ones for even sizes

---
 src/tools21cm/fft_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index d5758b5..226b6dd 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -71,8 +71,8 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
         do_pad = False
     else: 
         do_pad = True
-        pad_before = s2 - 1 if mode == 'full' else s2 // 2
-        pad_after = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_before = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_after = s2 - 1 if mode == 'full' else s2 // 2
         fsize = tuple((s1 + pad_before + pad_after + s2 - 1).tolist())
 
     # --- 2. PyTorch Backend ---
-- 
2.43.0


From 3a4355d796f77af79b2d59ac923f781ee5cef1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 033/156] fix: tophat kernels wider than the grid wrapped to a
 wrong or empty kernel

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 2a5e27b..394ebba 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -98,7 +98,7 @@ def tophat_kernel(size, tophat_width):
         '''
         kernel   = np.zeros((size,size))
         center   = kernel.shape[0]/2
-        idx_low  = int(center-np.floor(tophat_width/2.))
+        idx_low  = max(int(center-np.floor(tophat_width/2.)), 0)
         idx_high = int(center+np.ceil(tophat_width/2.))
         kernel[idx_low:idx_high, idx_low:idx_high] = 1.
         kernel /= np.sum(kernel)
@@ -122,7 +122,7 @@ def tophat_kernel_3d(size, tophat_width, shape="cube"):
         kernel = np.zeros((size, size, size))
         if shape == "cube":
                 center   = kernel.shape[0]/2 
-                idx_low  = int(center-np.floor(tophat_width/2.))
+                idx_low  = max(int(center-np.floor(tophat_width/2.)), 0)
                 idx_high = int(center+np.ceil(tophat_width/2.))
                 kernel[idx_low:idx_high, idx_low:idx_high, idx_low:idx_high ] = 1.
         else:
-- 
2.43.0


From 2b83b4e526cedad066ec719f951e246e8cb49165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:05 +0000
Subject: [PATCH 034/156] fix: smooth_tophat padded even-sized slices, which
 loses signal at the periodic edges

---
 src/tools21cm/smoothing.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 394ebba..88af97b 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -197,15 +197,6 @@ def smooth_tophat(input_array, tophat_width):
                 The smoothed array. A numpy array with the same
                 dimensions as the input.
         '''
-        #For some reason fftconvolve works produces edge effects with
-        #an even number of cells, so we pad the array with an extra pixel
-        #if this is the case
-        if input_array.shape[0] % 2 == 0:
-                from .angular_coordinates import _get_padded_slice
-                padded = _get_padded_slice(input_array, input_array.shape[0]+1)
-                out = smooth_tophat(padded, tophat_width)
-                return out[:-1,:-1]
-        
         kernel = tophat_kernel(input_array.shape[0], tophat_width)
         return smooth_with_kernel(input_array, kernel)
 
-- 
2.43.0


From d7fe7255758381f14daaa4c524eb7c0fb9ab0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:12 +0000
Subject: [PATCH 035/156] fix: smooth_coeval_tophat smoothed across the sky as
 well as along the frequency axis

---
 src/tools21cm/smoothing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 88af97b..0d89ac2 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -405,7 +405,10 @@ def smooth_coeval_tophat(cube, width, nu_axis, verbose=True):
         Returns:
                 Smoothed_cube
         """
-        kernel = tophat_kernel(cube.shape[nu_axis], width)
+        nu_axis = nu_axis % cube.ndim
+        #One-dimensional, so that the sightlines are not mixed
+        kernel = tophat_kernel(cube.shape[nu_axis], width).sum(axis=0)
+        kernel = kernel[np.newaxis,:] if nu_axis==2 else kernel[:,np.newaxis]
         output_cube = np.zeros(cube.shape)
         if nu_axis==0:
                 for i in tqdm(range(cube.shape[1]), disable=False if verbose else True):
-- 
2.43.0


From 480aa8e307de3d544a09ac2ae0bc6c477526faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 036/156] fix: smooth_lightcone_gauss took negative frequency
 axes for the last one

---
 src/tools21cm/smoothing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 0d89ac2..2a94e43 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -467,6 +467,7 @@ def smooth_lightcone_gauss(lightcone,fwhm,nu_axis=2):
         Returns:
                 Smoothed_lightcone
         """
+        nu_axis = nu_axis % lightcone.ndim
         assert lightcone.shape[nu_axis] == len(fwhm)
         output_lightcone = np.zeros(lightcone.shape)
         for i in range(output_lightcone.shape[nu_axis]):
-- 
2.43.0


From 2705c2ffc0a5b50e4d65d372d1300caaef5cc3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 037/156] fix: smooth_lightcone crashed when given the lowest
 redshift only

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 2a94e43..79f58c6 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -339,12 +339,12 @@ def smooth_lightcone(lightcone, z_array, box_size_mpc=False, max_baseline=2., ra
                 (Smoothed_lightcone, redshifts) 
         """
         if (not box_size_mpc): box_size_mpc=conv.LB
-        if(z_array.shape[0] == lightcone.shape[2]):
+        if(np.size(z_array) == lightcone.shape[2]):
                 input_redshifts = z_array.copy()
         else:
                 z_low = z_array
                 cell_size = 1.0*box_size_mpc/lightcone.shape[0]
-                distances = cm.z_to_cdist(z_low) + np.arange(lightcone.shape[2])*cell_size
+                distances = cm.z_to_cdist(np.min(z_low)) + np.arange(lightcone.shape[2])*cell_size
                 input_redshifts = cm.cdist_to_z(distances)
         if isinstance(max_baseline,u.Quantity):
                max_baseline = max_baseline.to('km').value
-- 
2.43.0


From d4ead5ff36605c4cb135210c7901ec62c26f0bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 038/156] fix: smooth_lightcone_tophat averaged one slice above
 its redshift window

---
 src/tools21cm/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 79f58c6..7c94767 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -451,7 +451,7 @@ def smooth_lightcone_tophat(lightcone, redshifts, dz, verbose=True):
                 z_out_low  = redshifts[i]-dz[i]/2
                 z_out_high = redshifts[i]+dz[i]/2
                 idx_low  = int(np.ceil(find_idx(redshifts, z_out_low)))
-                idx_high = int(np.ceil(find_idx(redshifts, z_out_high)))
+                idx_high = int(np.floor(find_idx(redshifts, z_out_high)))
                 output_lightcone[:,:,i] = np.mean(lightcone[:,:,idx_low:idx_high+1], axis=2)
         return output_lightcone
 
-- 
2.43.0


From 0313896ff60f2ab47563ce5357d1875638b33191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 039/156] fix: find_idx clamped the values of its caller, and
 truncated integers

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 3fa0613..53eb1c3 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -529,7 +529,7 @@ def find_idx(ar, values):
         '''
         
         #Make input into an array and clamp outliers
-        values = np.atleast_1d(values)
+        values = np.array(values, dtype=float, ndmin=1)
         values[values > ar.max()] = ar.max()
         values[values < ar.min()] = ar.min()
         
-- 
2.43.0


From 49d713cb1a5903e815c9b37c57b911b8cd7018dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 040/156] fix: convolve_uvmap_coeval returned the cube with
 scrambled axes

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 7c94767..7c285d9 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -569,7 +569,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         if isinstance(max_baseline,u.Quantity):
                max_baseline = max_baseline.to('km').value
         if uv_map is None: 
-                uv_map, N_ant  = get_uv_map(array.shape[0],
+                uv_map, N_ant  = get_uv_map(cube.shape[0],
                                                 z,
                                                 filename=filename,
                                                 total_int_time=total_int_time,
@@ -585,7 +585,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         output_ang_res = output_dtheta*cm.z_to_cdist(z) * cube.shape[0]/box_size_mpc
         output_cube = smooth_coeval_tophat(cube, output_ang_res*ratio, nu_axis=nu_axis, verbose=verbose)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
-        output_cube = np.array([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)])
+        output_cube = np.stack([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)], axis=2)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
         return output_cube
 
-- 
2.43.0


From b9dd9f0c87ded4673ef835a06291574e241fb23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:53 +0000
Subject: [PATCH 041/156] fix: smooth_line changed the level of the data, or
 its length, for some windows

---
 src/tools21cm/smoothing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 7c285d9..0e10cf4 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -638,15 +638,18 @@ def smooth_line(y, window=3, kind='tophat'):
             window = window / window.sum()
         elif kind.lower() == 'hamming':
             window = np.hamming(window)
+            window = window / window.sum()
         elif kind.lower() == 'hanning':
             window = np.hanning(window)
+            window = window / window.sum()
         else:
             raise ValueError(f"Unsupported window kind: '{kind}'. Choose from 'tophat', 'gaussian', 'triangular', 'hamming', or 'hanning'.")
     elif isinstance(window, (list, np.ndarray)):
         window = np.array(window)
-        window /= np.sum(window)  # Ensure the custom window is normalized
+        window = window / np.sum(window)  # Ensure the custom window is normalized
     else:
         raise ValueError("Window must be an integer or an array-like object.")
 
-    y_smooth = np.convolve(y, window, mode='same')
-    return y_smooth
+    y_smooth = np.convolve(y, window, mode='full')
+    start = (len(window) - 1) // 2
+    return y_smooth[start:start + len(y)]
-- 
2.43.0


From 1bf3f2cccefb0806bcc435f58863cc693749057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:00 +0000
Subject: [PATCH 042/156] fix: beam_convolve always crashed on fractional slice
 indices

---
 src/tools21cm/beam_convolve.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tools21cm/beam_convolve.py b/src/tools21cm/beam_convolve.py
index a98774e..db89fd3 100755
--- a/src/tools21cm/beam_convolve.py
+++ b/src/tools21cm/beam_convolve.py
@@ -47,12 +47,7 @@ def beam_convolve(input_array, z, fov_mpc, beam_w = None, max_baseline = None, \
 	else:
 		raise Exception('Unknown beamshape: %g' % beamshape)
 
-	out =  signal.fftconvolve(input_array, kernel, mode='same')
-	# out =  fftconvolve(input_array, kernel)
-
-	#fftconvolve makes the output twice the size, so return only the central part	
-	ox = out.shape[0]
-	return out[ox*0.25:ox*0.75, ox*0.25:ox*0.75]
+	return fftconvolve(input_array, kernel)
 
 
 
-- 
2.43.0


From cc3341f6494a392c3d48385f41cb172393b2d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 043/156] fix: DensityFile.write_to_file could not write
 physical densities

---
 src/tools21cm/density_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index 305b9d6..b653c35 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -95,7 +95,7 @@ class DensityFile:
 			self.cgs_density = cgs_density
 			self.mesh_x, self.mesh_y, self.mesh_z = self.cgs_density.shape
 			conv_factor = const.rho_crit_0*(float(self.mesh_x)/float(conv.nbox_fine))**3*const.OmegaB
-			self.raw_density = cgs_density/self.conv_factor
+			self.raw_density = cgs_density/conv_factor
 		else:
 			pass 
 
-- 
2.43.0


From c34d49f93d0d065f65ecb3f33be3850a5fd61c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 044/156] fix: get_data_and_type ignored raw_density for
 density files given by name

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 53eb1c3..eb9f4f2 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -389,7 +389,7 @@ def get_data_and_type(indata, cbin_bits=32, cbin_order='c', raw_density=False):
                 elif filetype == 'temper':
                         return get_data_and_type(tools21cm.temper_file.TemperFile(indata))
                 elif filetype == 'density':
-                        return get_data_and_type(tools21cm.density_file.DensityFile(indata))
+                        return get_data_and_type(tools21cm.density_file.DensityFile(indata), raw_density=raw_density)
                 elif filetype == 'cbin':
                         return read_cbin(indata, bits=cbin_bits, order=cbin_order), 'cbin'
                 elif filetype == 'dbt':
-- 
2.43.0


From 7c70ed5da76381a9994787ca21bc8992a2032969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 045/156] fix: get_mesh_size gave a wrong mesh for temperature
 and dbt files

---
 src/tools21cm/helper_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index eb9f4f2..fcfe7af 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -436,14 +436,14 @@ def get_mesh_size(filename):
                 temp_mesh = np.fromfile(f, count=6, dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'temper':
-                temp_mesh = np.fromfile(f,count=3,dtype='int32')
+                temp_mesh = np.fromfile(f,count=6,dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'density':
                 mesh_size = np.fromfile(f,count=3,dtype='int32')
         elif datatype == 'cbin':
                 mesh_size = np.fromfile(f,count=3,dtype='int32')
         elif datatype == 'dbt':
-                mesh_size = np.array([250,250,250])
+                mesh_size = np.array(np.load(filename, mmap_mode='r').shape)
         else:
                 raise Exception('Could not determine mesh for filetype %s' % datatype)
         f.close()
-- 
2.43.0


From 093c1098468d239e2fc45a7508bdc5c7cfc5cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 046/156] fix: read_cbin read a wrong mesh for other than three
 dimensions

---
 src/tools21cm/helper_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index fcfe7af..ee25d64 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -182,8 +182,8 @@ def read_cbin(filename, bits=32, order='C', dimensions=3, records=False):
 
         counter=dimensions+3 if records else dimensions 
         header = np.fromfile(f, count=counter, dtype='int32')
-        if records: temp_mesh=header[1:4]
-        else: temp_mesh=header[0:3]
+        if records: temp_mesh=header[1:dimensions+1]
+        else: temp_mesh=header[0:dimensions]
         
         datatype = np.float32 if bits == 32 else np.float64
         data = np.fromfile(f, dtype=datatype, count=np.prod(temp_mesh))
-- 
2.43.0


From 36c3922a66e06f516fb8088df2e02d948b0233d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 047/156] fix: FITS files could be neither saved nor read with
 astropy

---
 src/tools21cm/helper_functions.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index ee25d64..408d36c 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -275,16 +275,15 @@ def read_fits(filename, header=True):
         try:
                 import pyfits as pf
                 hdulist = pf.open(filename)
-                header = hdulist[0].header
+                fits_header = hdulist[0].header
                 data = hdulist[0].data.astype('float64')
-        except:
+        except ImportError:
                 from astropy.io import fits
-                fits_image_filename = fits.util.get_testdata_filepath(filename)
-                hdul = fits.open(fits_image_filename)
-                header = hdul[0].header
-                data = hdul[1].data.astype('float64')
+                with fits.open(filename) as hdulist:
+                        fits_header = hdulist[0].header
+                        data = hdulist[0].data.astype('float64')
 
-        if header: return data, header
+        if header: return data, fits_header
         else: return data
 
 
@@ -309,11 +308,10 @@ def save_fits(data, filename, header=None):
                 import pyfits as pf
                 if type(header)==pf.header.Header: pf.writeto(filename, save_data, header)
                 else: pf.writeto(filename, save_data)
-        except:
+        except ImportError:
                 from astropy.io import fits
-                hdu = pf.PrimaryHDU(save_data.astype('float64'))
-                hdulist = pf.HDUList([hdu])
-                hdulist.writeto(filename, clobber=True)
+                hdu = fits.PrimaryHDU(save_data.astype('float64'), header=header)
+                hdu.writeto(filename, overwrite=True)
 
         
 
-- 
2.43.0


From 981a1bb006a103119e4421b6e07ddbcad155c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 048/156] fix: TemperFile returned old-format files as a flat
 array

---
 src/tools21cm/temper_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/temper_file.py b/src/tools21cm/temper_file.py
index 3af9e2f..6368a0b 100755
--- a/src/tools21cm/temper_file.py
+++ b/src/tools21cm/temper_file.py
@@ -51,7 +51,7 @@ class TemperFile:
                 self.temper = np.fromfile(f, dtype='float32')
         else:
                 self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
         f.close()
         print_msg('...done')
-- 
2.43.0


From 926e82edce7a58816c22fce6d1e0286f681dee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 049/156] fix: source files were written with other masses than
 they are read, and sources sharing a cell lost

---
 src/tools21cm/source_file.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index c7c85bc..b07a493 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -67,7 +67,7 @@ class SourceFile:
             idx = 2*i+1
             text = lines[idx].split()
             self.sources_list[i,:3] = np.array(text[:3], dtype=int)-1
-            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(float(text[idx_mass]))) # Msun
+            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(np.array(text, dtype=float)[idx_mass])) # Msun
 
         print_msg('...done')
 
@@ -84,7 +84,7 @@ class SourceFile:
         # loop over list
         for n in range(self.sources_list.shape[0]):
             i, j, k = self.sources_list[n,:3].astype(int)
-            self.sources_coeval[i,j,k] = self.sources_list[n,3]  # Msun
+            self.sources_coeval[i,j,k] += self.sources_list[n,3]  # Msun
         
         print_msg('...done')
 
@@ -117,7 +117,7 @@ class SourceFile:
 
                 # Determine which column contains the mass for writing
                 # This depends on how sources_list was populated (by read_from_file or manually).
-                # The original file format has coordinates as 1-indexed integers and log10 of grid mass.
+                # The original file format has coordinates as 1-indexed integers and the grid masses.
                 
                 # Default to 'hm' column if self.mass is 'hm' or not specified,
                 # otherwise 'lm' column if self.mass is 'lm'.
@@ -131,26 +131,21 @@ class SourceFile:
                     x, y, z = self.sources_list[i,:3].astype(int) + 1 
                     
                     # Get the mass value(s) in Msun
-                    current_mass_msun = None
                     if self.sources_list.shape[1] == 5: # (x, y, z, hm_mass, lm_mass)
-                        # Decide which mass to write back: if self.mass is specified use that, else default to hm
-                        if self.mass == 'lm':
-                            current_mass_msun = self.sources_list[i,4] # Use lm_mass
-                        else: # self.mass is 'hm' or default
-                            current_mass_msun = self.sources_list[i,3] # Use hm_mass
+                        hm, lm = self.sources_list[i,3:]
                     elif self.sources_list.shape[1] == 4: # (x, y, z, mass) for hm or lm
-                        current_mass_msun = self.sources_list[i,3]
+                        hm, lm = (0., self.sources_list[i,3]) if self.mass == 'lm' else (self.sources_list[i,3], 0.)
                     else:
                         raise ValueError("Unexpected sources_list shape. Expected 4 or 5 columns.")
 
-                    # Convert Msun back to log10 of grid mass as expected by the file format
-                    # Ensure it's not log10(0) if mass is 0, to avoid errors.
-                    log10_grid_mass = conv.gridmass_to_msol(current_mass_msun) if current_mass_msun > 0 else -99.0 # Use a placeholder for zero mass
+                    # Convert Msun back to the grid mass expected by the file format
+                    msol_per_grid_mass = conv.M_grid*const.solar_masses_per_gram
+                    hm, lm = hm/msol_per_grid_mass, lm/msol_per_grid_mass
 
-                    # Write each source line: x y z log10(grid_mass)
-                    # The original file format has two lines per source, the first is coordinates and log10 grid mass
+                    # Write each source line: x y z hm_mass lm_mass
+                    # The original file format has two lines per source, the first is coordinates and grid masses
                     # and the second is empty. Let's replicate this based on the original parsing logic that does `lines[2*i+1]`
-                    f.write(f"{x} {y} {z} {log10_grid_mass:.6f}\n") # Using .6f for precision
+                    f.write(f"{x} {y} {z} {hm:.9e} {lm:.9e}\n")
                     f.write("\n") # Empty line as per typical C2Ray source file format
 
             print_msg('...done')
-- 
2.43.0


From 7ecbbfcc6767f3d70e0f42efb91d3419e44870f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 050/156] fix: reading 21cmFAST files used a removed numpy
 function

---
 src/tools21cm/read_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 62538df..e4608bc 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -17,7 +17,7 @@ def _load_binary_data(filename, dtype=np.float32):
 	f = open(filename, "rb") 
 	data = f.read() 
 	f.close() 
-	_data = np.fromstring(data, dtype) 
+	_data = np.frombuffer(data, dtype).copy() 
 	if sys.byteorder == 'big':
 		_data = _data.byteswap()
 	return _data 
-- 
2.43.0


From 0c0af561b5aabe1d73364afb9cd12cd6cebba545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 051/156] fix: read_c2ray_files always crashed for velocities

---
 src/tools21cm/read_files.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index e4608bc..5e5fbaf 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -57,9 +57,7 @@ def read_c2ray_files(filename, file_type='xfrac', density_file=None):
 		out = dens.astype(np.float64)
 	elif file_type=='vel':
 		assert density_file is not None
-		dfile = density_file.DensityFile(density_file)
-		vel_file = vel_file.VelocityFile(filename)
-		out = vel_file.get_kms_from_density(dfile)
+		out = vel_file.VelocityFile(filename).get_kms_from_density(density_file)
 	return out
 
 def read_grizzly_files(filename):
-- 
2.43.0


From 4fbdc75d921c2f1f0bf55ba0acce65ef0cad70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 052/156] fix: an interrupted write_dictionary_data destroyed
 the file it was replacing

---
 src/tools21cm/read_files.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 5e5fbaf..4ddd605 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -236,14 +236,10 @@ def read_dictionary_data(filename, format=None):
 	else:
 		raise ValueError(f"Unsupported format: {format}")
 	
-def write_dictionary_data(data_dict, filename, format=None):
+def _write_dictionary_data(data_dict, filename, format):
 	"""
-	Writes a dictionary to various file formats.
-	Supports: pickle, json, yaml, hdf5, npz, netcdf (xarray), csv, xlsx
+	Writes a dictionary to filename itself. For internal use.
 	"""
-	if format is None:
-		format = os.path.splitext(filename)[1].lstrip('.').lower()
-
 	if format in ['pickle', 'pkl']:
 		import pickle
 		with open(filename, 'wb') as f:
@@ -277,7 +273,8 @@ def write_dictionary_data(data_dict, filename, format=None):
 			recursive_save(f, data_dict)
 
 	elif format == 'npz':
-		np.savez(filename, **data_dict)
+		with open(filename, 'wb') as f:
+			np.savez(f, **data_dict)
 
 	elif format in ['nc', 'netcdf']:
 		import xarray as xr
@@ -312,6 +309,29 @@ def write_dictionary_data(data_dict, filename, format=None):
 
 	else:
 		raise ValueError(f"Unsupported format: {format}")
+
+def write_dictionary_data(data_dict, filename, format=None):
+	"""
+	Writes a dictionary to various file formats.
+	Supports: pickle, json, yaml, hdf5, npz, netcdf (xarray), csv, xlsx
+
+	The file is replaced only once its new content is complete,
+	so that an error or interruption never loses the previous one.
+	"""
+	if format is None:
+		format = os.path.splitext(filename)[1].lstrip('.')
+	format = format.lower()
+
+	if format == 'zarr': #a directory
+		return _write_dictionary_data(data_dict, filename, format)
+
+	folder, name = os.path.split(filename)
+	temp_file = os.path.join(folder, '.tmp%d_%s' % (os.getpid(), name))
+	try:
+		_write_dictionary_data(data_dict, temp_file, format)
+		os.replace(temp_file, filename)
+	finally:
+		if os.path.exists(temp_file): os.remove(temp_file)
 	
 def get_package_resource_path(package_name, resource_path):
     """
-- 
2.43.0


From 44bc41fdf0c18353283a111897933ba1a8846893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 053/156] fix: coeval_xfrac, coeval_dens and coeval_vel picked
 wrong files or crashed

---
 src/tools21cm/usefuls.py | 83 ++++++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 7a54b32..3aca8ec 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -35,7 +35,27 @@ def get_zs_list(xfrac_dir, file_type='/xfrac3d_*.bin'):
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	return np.sort(xfrac_zs)
 
-			
+def _get_sorted_files(pattern):
+	"""The files matching pattern and their redshifts, in the order of redshift. For internal use."""
+	files = glob.glob(pattern)
+	zs    = lightcone._get_file_redshifts(None, files)
+	order = np.argsort(zs)
+	return [files[i] for i in order], zs[order]
+
+def _get_file_indices(zs, z):
+	"""
+	The index of the file at redshift z, or of its neighbours below and above. For internal use.
+	zs must be in increasing order.
+	"""
+	if z in zs:
+		idx = np.argmax(zs==z)
+		return idx, idx
+	if len(zs)==0 or z<zs[0] or z>zs[-1]:
+		raise ValueError('Redshift %s is outside the range of the files.' % z)
+	idx = np.argmax(zs>z)
+	return idx-1, idx
+
+
 def coeval_21cm(xfrac_dir, dens_dir, z, interpolation='linear', mean_subtract=False):
 	"""
 	xfrac_dir     : Give the path that contains the xfrac-files.
@@ -58,16 +78,14 @@ def coeval_xfrac(xfrac_dir, z, interpolation='linear'):
 	"""
 	if not interpolation in ['linear']: #, 'step', 'sigmoid', 'step_cell'
 		raise ValueError('Unknown interpolation type: %s' % interpolation)
-	xfrac_files = glob.glob(xfrac_dir + '/xfrac3d_*.bin')
-	xfrac_zs = None
-	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
-	if z in xfrac_zs:
-		xfrac = xfrac_file.XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+	xfrac_files, xfrac_zs = _get_sorted_files(xfrac_dir + '/xfrac3d_*.bin')
+	i_l, i_h = _get_file_indices(xfrac_zs, z)
+	if i_l==i_h:
+		xfrac = xfrac_file.XfracFile(xfrac_files[i_l]).xi
 	else:
-		z_l = xfrac_zs[xfrac_zs<z].max()
-		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		z_l, z_h = xfrac_zs[i_l], xfrac_zs[i_h]
+		xfrac_l = xfrac_file.XfracFile(xfrac_files[i_l]).xi
+		xfrac_h = xfrac_file.XfracFile(xfrac_files[i_h]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using", interpolation, "interpolation.")
 	return xfrac
@@ -80,16 +98,14 @@ def coeval_dens(dens_dir, z, interpolation='linear'):
 	"""
 	if not interpolation in ['linear']: #, 'step', 'sigmoid', 'step_cell'
 		raise ValueError('Unknown interpolation type: %s' % interpolation)
-	dens_files  = glob.glob(dens_dir + '/*n_all.dat')
-	dens_zs  = None
-	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
-	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+	dens_files, dens_zs = _get_sorted_files(dens_dir + '/*n_all.dat')
+	i_l, i_h = _get_file_indices(dens_zs, z)
+	if i_l==i_h:
+		dens, dtype = helper_functions.get_data_and_type(dens_files[i_l])
 	else:
-		z_l = dens_zs[dens_zs<z].max()
-		z_h = dens_zs[dens_zs>z].min()
-		dens_l, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		z_l, z_h = dens_zs[i_l], dens_zs[i_h]
+		dens_l, dtype = helper_functions.get_data_and_type(dens_files[i_l])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[i_h])
 		dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		print("The density cube has been interpolated using", interpolation, "interpolation.")
 	return dens.astype(np.float64)
@@ -112,22 +128,23 @@ def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
 	"""
 	if not interpolation in ['linear']: #, 'step', 'sigmoid', 'step_cell'
 		raise ValueError('Unknown interpolation type: %s' % interpolation)
-	dens_files = glob.glob(dens_dir + '/*n_all.dat')
-	vel_files  = glob.glob(vel_dir + '/*v_all.dat')
-	vel_zs     = None
-	vel_zs     = lightcone._get_file_redshifts(vel_zs, vel_files)
-	def get_vel(vel_file, dens_file):
-		dfile = density_file.DensityFile(dens_file)
-		vel_file = vel_file.VelocityFile(vel_file)
-		vel = vel_file.get_kms_from_density(dfile)
+	dens_files, dens_zs = _get_sorted_files(dens_dir + '/*n_all.dat')
+	vel_files, vel_zs   = _get_sorted_files(vel_dir + '/*v_all.dat')
+	def get_vel(idx):
+		# the density at the redshift of the velocity file
+		if vel_zs[idx] not in dens_zs:
+			raise ValueError('No density file at redshift %s.' % vel_zs[idx])
+		dfile = density_file.DensityFile(dens_files[np.argmax(dens_zs==vel_zs[idx])])
+		vfile = vel_file.VelocityFile(vel_files[idx])
+		vel = vfile.get_kms_from_density(dfile)
 		return vel
-	if z in vel_zs:
-		vel = get_vel(vel_files[np.argwhere(z==vel_zs)],dens_files[np.argwhere(z==vel_zs)])
+	i_l, i_h = _get_file_indices(vel_zs, z)
+	if i_l==i_h:
+		vel = get_vel(i_l)
 	else:
-		z_l = vel_zs[vel_zs<z].max()
-		z_h = vel_zs[vel_zs>z].min()
-		vel_l = get_vel(vel_files[vel_zs[vel_zs<z].argmax()],dens_files[vel_zs[vel_zs<z].argmax()])
-		vel_h = get_vel(vel_files[vel_zs[vel_zs>z].argmin()],dens_files[vel_zs[vel_zs>z].argmin()])
+		z_l, z_h = vel_zs[i_l], vel_zs[i_h]
+		vel_l = get_vel(i_l)
+		vel_h = get_vel(i_h)
 		vel = vel_h + (vel_l-vel_h)*(z-z_h)/(z_l-z_h)
 		print("The velocity cube has been interpolated using", interpolation, "interpolation.")
 	return vel
-- 
2.43.0


From cfcd080414a5e7b16aac63c49d8ddbb721ed4427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 054/156] fix: coeval_xfrac_c2ray and coeval_dens_c2ray picked
 wrong files or crashed

---
 src/tools21cm/read_files.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 4ddd605..f20c094 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -5,7 +5,7 @@ Methods to read simulations outputs of few popular codes.
 import numpy as np
 import glob
 from .xfrac_file import XfracFile
-from . import helper_functions, density_file, vel_file, lightcone
+from . import helper_functions, density_file, vel_file, lightcone, usefuls
 from . import temperature as tm
 import sys, os
 
@@ -114,16 +114,14 @@ def coeval_xfrac_c2ray(xfrac_dir, z, interpolation='linear'):
 	"""
 	if not interpolation in ['linear']: #, 'step', 'sigmoid', 'step_cell'
 		raise ValueError('Unknown interpolation type: %s' % interpolation)
-	xfrac_files = glob.glob(xfrac_dir + '/xfrac3d_*.bin')
-	xfrac_zs = None
-	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
-	if z in xfrac_zs:
-		xfrac = XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+	xfrac_files, xfrac_zs = usefuls._get_sorted_files(xfrac_dir + '/xfrac3d_*.bin')
+	i_l, i_h = usefuls._get_file_indices(xfrac_zs, z)
+	if i_l==i_h:
+		xfrac = XfracFile(xfrac_files[i_l]).xi
 	else:
-		z_l = xfrac_zs[xfrac_zs<z].max()
-		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		z_l, z_h = xfrac_zs[i_l], xfrac_zs[i_h]
+		xfrac_l = XfracFile(xfrac_files[i_l]).xi
+		xfrac_h = XfracFile(xfrac_files[i_h]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using %s interpolation." %interpolation)
 		print("CAUTION: This data should be used with care.")
@@ -142,16 +140,13 @@ def coeval_dens_c2ray(dens_dir, z):
 	-------
 	numpy array
 	"""
-	dens_files  = glob.glob(dens_dir + '/*n_all.dat')
-	dens_zs  = None
-	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
+	dens_files, dens_zs = usefuls._get_sorted_files(dens_dir + '/*n_all.dat')
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(z==dens_zs)])
 	else:
 		#z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
-		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(dens_zs>z)])
 		#dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		dens = dens_h*(1+z_h)**3/(1+z)**3
 		#print("The density cube has been interpolated using %s interpolation."%interpolation)
-- 
2.43.0


From 735c92e30921ebfc23289b798d3522cc1ea454f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 055/156] fix: listing redshifts failed for an open bracketed
 range or an empty directory

---
 src/tools21cm/helper_functions.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 408d36c..c873cdb 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -110,17 +110,16 @@ def _get_redshifts_in_range(redshifts, z_low, z_high, bracket):
         '''
         Filter out redshifts outside of range. For internal use.
         '''
-        redshifts = np.array(redshifts)
+        redshifts = np.array(redshifts, dtype=float)
         redshifts.sort()
         if bracket:
-                if z_low < redshifts.min() or z_high > redshifts.max():
+                if (z_low is not None and not np.any(redshifts <= z_low)) or \
+                                (z_high is not None and not np.any(redshifts >= z_high)):
                         raise Exception('No redshifts to bracket range.')
-                z_low = redshifts[redshifts <= z_low][-1]
-                z_high = redshifts[redshifts >= z_high][0]
-        if z_low == None:
-                z_low = redshifts.min()-1
-        if z_high == None:
-                z_high = redshifts.max()+1
+                if z_low is not None: z_low = redshifts[redshifts <= z_low][-1]
+                if z_high is not None: z_high = redshifts[redshifts >= z_high][0]
+        if z_low is None: z_low = -np.inf
+        if z_high is None: z_high = np.inf
         idx = (redshifts >= z_low)*(redshifts <= z_high)
         redshifts = redshifts[idx]
 
-- 
2.43.0


From 778337cbfe597104abc27a2ab67fba4f9dd8697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 056/156] fix: freq_box interpolated from the lowest file and
 always crashed

---
 src/tools21cm/deprecated.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/deprecated.py b/src/tools21cm/deprecated.py
index af18da2..7f55025 100755
--- a/src/tools21cm/deprecated.py
+++ b/src/tools21cm/deprecated.py
@@ -84,7 +84,7 @@ def freq_box(xfrac_dir, dens_dir, z_low, z_high):
     
     for z in output_z:
         #Find the output files that bracket the redshift
-        z_bracket_low_new = dens_redshifts[dens_redshifts <= z][0]
+        z_bracket_low_new = dens_redshifts[dens_redshifts < z][-1]
         z_bracket_high_new = dens_redshifts[dens_redshifts >= z][0]
 
         if z_bracket_low_new != z_bracket_low:
@@ -103,17 +103,17 @@ def freq_box(xfrac_dir, dens_dir, z_low, z_high):
         
         #Ionized fraction
         xi_interp = _get_interp_slice(xfrac_file_high.xi, xfrac_file_low.xi, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, 2)
         xfrac_lightcone[:,:,comoving_pos_idx] = xi_interp
 
         #Density
         rho_interp = _get_interp_slice(dens_file_high.cgs_density, dens_file_low.cgs_density, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, 2)
         dens_lightcone[:,:,comoving_pos_idx] = rho_interp
 
         #Brightness temperature
         dt_interp = _get_interp_slice(dt_cube_high, dt_cube_low, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, 2)
         dt_lightcone[:,:,comoving_pos_idx] = dt_interp
 
         print_msg( 'Slice %d of %d' % (comoving_pos_idx, len(output_z)) )
-- 
2.43.0


From b92093d7fc0045ad4d86c37fba7f575dc2540b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 057/156] fix: the cell of a halo on the grid depended on the
 positions of the other haloes

---
 src/tools21cm/nbody_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 4a036fe..1fe0fa4 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -248,7 +248,10 @@ class Halo2Grid:
 		# https://docs.scipy.org/doc/scipy/reference/generated/scipy.stats.binned_statistic_dd.html
 		statistic = kwargs.get('statistic', 'sum')
 		bins = kwargs.get('bins', self.n_grid)
-		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins)
+		# The cells are those of the periodic box of n_grid cells, whatever the extent of the haloes
+		positions = np.mod(positions, self.n_grid)
+		box_range = [[0, self.n_grid]]*positions.shape[1]
+		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins, range=box_range)
 		return binned_mass, bin_edges, bin_num
 	
 	def halo_mass_on_grid(self, **kwargs):
-- 
2.43.0


From 63ff325ec9e1a193d2901f4b80de01c614a56d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 058/156] fix: halo_mass_on_grid used the positions as the
 masses set with set_halo_mass

---
 src/tools21cm/nbody_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 1fe0fa4..b65d863 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -259,7 +259,7 @@ class Halo2Grid:
 		if pos is None:
 			print('Provide the halo positions via parameter "pos".')
 			return None
-		mass = kwargs.get('mass', self.pos_grid)
+		mass = kwargs.get('mass', getattr(self, 'mass_Msun', None))
 		if mass is None:
 			print('Provide the halo masses via parameter "mass".')
 			return None
-- 
2.43.0


From 4855690dffa30c30d97ebf0bdd7022879239170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 059/156] fix: halo positions given without units, or with
 units and a plain mass, crashed

---
 src/tools21cm/nbody_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index b65d863..5de4bfa 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -203,7 +203,9 @@ class Halo2Grid:
 		self.pos_grid = None
 
 	def set_halo_pos(self, pos, unit=None):
-		if unit.lower()=='cm':
+		if unit is None:
+			self.pos_grid = pos
+		elif unit.lower()=='cm':
 			self.pos_cm_to_grid(pos) 
 		elif unit.lower()=='mpc':
 			self.pos_mpc_to_grid(pos)
@@ -311,7 +313,7 @@ def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
 	else:
 		print('The provided halo mass is assumed to be in Msun units.')
 		mhalo_msun = mass 
-	if isinstance(mass, astropy.units.quantity.Quantity):
+	if isinstance(pos_xyz, astropy.units.quantity.Quantity):
 		srcpos_mpc = pos_xyz.to('Mpc').value
 	else:
 		print('The provided halo mass is assumed to be in Mpc units.')
-- 
2.43.0


From ff34cc8007a66ac5d10c43b19efc380845a07c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 060/156] fix: halo_value_on_grid dropped the cells with a
 negative value

---
 src/tools21cm/nbody_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 5de4bfa..071b0ae 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -280,8 +280,8 @@ class Halo2Grid:
 		binned_value = kwargs.get('binned_value')
 		if binned_value is None: 
 			binned_value, bin_edges, bin_num = self.value_on_grid(pos, value, statistic='sum', bins=self.n_grid)
-		binned_pos_list  = np.argwhere(binned_value>0) 
-		binned_value_list = binned_value[binned_value>0]
+		binned_pos_list  = np.argwhere(binned_value!=0) 
+		binned_value_list = binned_value[binned_value!=0]
 		return binned_pos_list, binned_value_list
 	
 def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
-- 
2.43.0


From 272535291ee76e1b7d62fd4fd072f782edf7fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 061/156] fix: HaloRockstar read no halo at all when given a
 maximum number

---
 src/tools21cm/halo_list.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 344066a..a949022 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -95,7 +95,7 @@ class HaloRockstar:
 				vals = line.split()
 				
 				#Create a halo and add it to the list
-				if(len(self.halos) > max_select_number):
+				if(max_select_number < 0 or len(self.halos) < max_select_number):
 					halo = Halo()
 					halo.pos = np.array(vals[idx_pos:idx_pos+3]).astype(float) #* U.Mpc/self.h
 					halo.vel = np.array(vals[idx_vel:idx_vel+3]).astype(float) #* U.km/U.s
@@ -107,7 +107,8 @@ class HaloRockstar:
 					halo.mp = int(round(halo.m / self.part_mass, 0))
 					self.halos.append(halo)
 				else:
-					break
+					fileinput.close()
+					return False
 		
 		fileinput.close()
 		return True
-- 
2.43.0


From 1fe0c12909ced03c2bf6c09db0c3c6cb5ebe95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 062/156] fix: HaloCubeP3M refused redshift 0

---
 src/tools21cm/halo_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index a949022..9153daf 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -314,7 +314,7 @@ class HaloCubeP3M:
 		'''
 
 		self.halos = []
-		if not z:
+		if z is None:
 			raise NameError('Redshift value not specified, please define.')
 
 		if filespath:
-- 
2.43.0


From d60968c28cba29b121995eb25248f78ffa38ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 063/156] fix: a failed catalogue read made every later one
 fail

---
 src/tools21cm/halo_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 9153daf..bcbb54b 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -54,7 +54,7 @@ class HaloRockstar:
 		from astropy import units as U
 
 		#Read the file line by line, since it's large
-		for linenumber, line in tqdm(enumerate(fileinput.input(filename))):
+		for linenumber, line in tqdm(enumerate(fileinput.FileInput(filename))):
 			if(linenumber == 0):
 				# Store the variable from the file header
 				header = line.split()
@@ -212,7 +212,7 @@ class HaloCubeP3MFull:
 				print_msg('Max_select_mass: %g' % max_select_mass)
 				max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-		for line in tqdm(fileinput.input(filename)):
+		for line in tqdm(fileinput.FileInput(filename)):
 				if linenumber < startline: #If you want to read from a particular line
 						linenumber += 1
 						continue
@@ -502,7 +502,7 @@ class HaloList:
 			print_msg('Max_select_mass: %g' % max_select_mass)
 			max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-		for line in tqdm(fileinput.input(filename)):
+		for line in tqdm(fileinput.FileInput(filename)):
 			if linenumber < startline: #If you want to read from a particular line
 				linenumber += 1
 				continue
-- 
2.43.0


From fc2184864739f2cd271f221ca56a58ae95cc4c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 064/156] fix: the mass cut used a shape column when the
 catalogue has them

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index bcbb54b..2f85c60 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -229,7 +229,7 @@ class HaloCubeP3MFull:
 						# print('skipping this line')
 						continue
 				# print('VALS:', vals)
-				grid_mass = float(vals[-3])
+				grid_mass = float(vals[16])
 
 				# Create a halo and add it to the list
 				if grid_mass > min_select_grid_mass and (max_select_mass == None or grid_mass < max_select_grid_mass):
@@ -514,7 +514,7 @@ class HaloList:
 			linenumber += 1
 
 			vals = line.split()			
-			grid_mass = float(vals[-3])
+			grid_mass = float(vals[16])
 
 			#Create a halo and add it to the list
 			if grid_mass > min_select_grid_mass and (max_select_mass == None or grid_mass < max_select_grid_mass):
-- 
2.43.0


From 3bc87d4fd98aa02447a50f8c1d9ca9cb9883c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 065/156] fix: a maximum halo mass of zero crashed

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 2f85c60..0f7d6d3 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -208,7 +208,7 @@ class HaloCubeP3MFull:
 		tstart = time()
 		
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 				print_msg('Max_select_mass: %g' % max_select_mass)
 				max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
@@ -498,7 +498,7 @@ class HaloList:
 		#Read the file line by line, since it's large
 		linenumber = 1
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 			print_msg('Max_select_mass: %g' % max_select_mass)
 			max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-- 
2.43.0


From 07f2df135fca0add6a27afd64baa1de79dbd7091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 066/156] fix: reading a second catalogue into the same object
 kept the haloes of the first

---
 src/tools21cm/halo_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 0f7d6d3..61a9839 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -47,6 +47,8 @@ class HaloRockstar:
 			True if all the halos were read. False otherwise.
 		'''
 
+		self.halos = []
+
 		print_msg('Reading Rockstar Halo Catalog %s...' % filename)
 		self.filename = filename
 		
@@ -369,6 +371,7 @@ class HaloCubeP3M:
 			print_msg('Reading Cube3PM Halo Catalog from node = %d...' %node)
 			filesname = ['%snode%d/%.3fhalo%d.dat' %(filespath, node, self.z, node)]
 
+		self.halos = []
 		self.nhalo = 0
 
 		for fn in filesname:
-- 
2.43.0


From 8fe1d50e2c7bf6d34ee110e5a0c19199e40b7735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 067/156] fix: HaloCubeP3M masses overflowed single precision
 and came out infinite

---
 src/tools21cm/halo_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 61a9839..2a4fd52 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -382,7 +382,7 @@ class HaloCubeP3M:
 			for i in range(nhalo_node):
 				halo = Halo()
 				halo.pos = np.fromfile(f, count=3, dtype='float32')		# grid length
-				mass_vir, mass_odc, r_vir, r_odc = np.fromfile(f, count=4, dtype='float32')
+				mass_vir, mass_odc, r_vir, r_odc = np.fromfile(f, count=4, dtype='float32').astype('float64')
 				
 				if(mass_def == 'vir'):
 					halo.m = mass_vir # Msun/h
-- 
2.43.0


From 58c47a5ab848506fae7b93f84eeb7418c4330ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 068/156] fix: negative angular momentum components of haloes
 became nan

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 2a4fd52..51fcdd1 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -245,7 +245,7 @@ class HaloCubeP3MFull:
 						halo.pos    = self._reposition(np.array([float(i) for i in vals[:3]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.pos_cm = self._reposition(np.array([float(i) for i in vals[3:6]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.vel = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[6:9]]), z=self.z)	# km/s
-						halo.l   = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+						halo.l   = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)) * 10**(conv.gridmass_to_msol(1.)) * const.h * const.h # Msun/h * Mpc/h * km/s
 						halo.vel_disp = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[12:15]]), z=self.z)	# km/s
 						halo.m  = 10**(conv.gridmass_to_msol(float(vals[16]))) * const.h # Msun/h
 						halo.mp = float(vals[17])
@@ -410,7 +410,7 @@ class HaloCubeP3M:
 					halo.r = conv.gridpos_to_mpc(halo.r) * const.h 				# Mpc/h
 					halo.pos_cm = self._reposition(pos=conv.gridpos_to_mpc(halo.pos_cm) * const.h)	# Mpc/h
 					halo.vel = conv.gridvel_to_kms(gridvel=halo.vel, z=self.z)	# km/s
-					halo.l = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+					halo.l = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)) * 10**(conv.gridmass_to_msol(1.)) * const.h * const.h # Msun/h * Mpc/h * km/s
 					halo.vel_disp = conv.gridvel_to_kms(gridvel=halo.vel_disp, z=self.z)	# km/s
 
 				self.halos.append(halo)
-- 
2.43.0


From 1fb1c810114ec6d5cd9c6465e2c29e52da5c348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 069/156] fix: get_uv_map_lightcone crashed when given antenna
 positions

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 7f20458..d793574 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -217,7 +217,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 	if boxsize is None: boxsize = conv.LB
 	if isinstance(zs, list): zs = np.array(zs)
-	if subarray_type.upper()=='AA*': subarray_type = 'AAstar'
+	if isinstance(subarray_type, str) and subarray_type.upper()=='AA*': subarray_type = 'AAstar'
 
 	# Define a dictionary of simulation parameters 
 	params = {
@@ -240,7 +240,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		for key, current_val in params.items():
 			cached_val = uvs.get(key)
 			# Check for a mismatch
-			if cached_val is not None and cached_val != current_val:
+			if cached_val is not None and not np.array_equal(cached_val, current_val):
 				# Add the error message to a list instead of raising immediately
 				mismatch_msg = f"  - '{key}': Cached value is '{cached_val}', but current call requested '{current_val}'."
 				mismatches.append(mismatch_msg)
-- 
2.43.0


From f37f8560528a6b740ddb32545658dc5737e1e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 070/156] fix: noise_cube_lightcone passed its arguments
 shifted by one and crashed

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index d793574..5996814 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -761,7 +761,7 @@ def noise_cube_lightcone(ncells, z, obs_time=1000, subarray_type="AA4", boxsize=
 
 	# This function body is very similar to `noise_lightcone`. Consider refactoring.
 	return noise_lightcone(ncells, zs, obs_time, subarray_type, boxsize, save_uvmap, 
-						total_int_time, int_time, declination, N_ant, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
+						total_int_time, int_time, declination, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
 						T_sys, sefd_data, nu_data, D_station, ep_aperture,
 						suppress_sharp_features_uv_map)
 
-- 
2.43.0


From fd35509782901676ac7c5bff3e9f6f215b2ffceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 071/156] fix: ifft2_wrap crashed on float indices

---
 src/tools21cm/radio_telescope_noise.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 5996814..1c36553 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -519,11 +519,12 @@ def ifft2_wrap(nn1):
 	"""
 	assert nn1.ndim==2
 	bla0 = np.vstack((nn1,nn1))
-	bla1 = np.roll(bla0, nn1.shape[0]/2, 0)
+	bla1 = np.roll(bla0, nn1.shape[0]//2, 0)
 	bla2 = np.hstack((bla1,bla1))
-	bla3 = np.roll(bla2, nn1.shape[1]/2, 1)
+	bla3 = np.roll(bla2, nn1.shape[1]//2, 1)
 	imap = np.fft.ifft2(bla3)
-	return imap[nn1.shape[0]/2:-nn1.shape[0]/2,nn1.shape[1]/2:-nn1.shape[1]/2]
+	i0, j0 = nn1.shape[0]//2, nn1.shape[1]//2
+	return imap[i0:i0+nn1.shape[0],j0:j0+nn1.shape[1]]
 
 def apply_uv_response_on_image(array, uv_map):
 	"""
-- 
2.43.0


From 8408d487284e7370918ae4da12811b897d9ea958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 072/156] fix: plain antenna position arrays (documented as
 metres) crashed

---
 src/tools21cm/radio_telescope_calibration.py | 5 +++--
 src/tools21cm/radio_telescope_layout.py      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 1bc88e5..1c59701 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -11,6 +11,7 @@ from .radio_telescope_sensitivity import *
 from .usefuls import *
 from . import conv
 from . import cosmo as cm
+import astropy.units as u
 from . import smoothing as sm
 from glob import glob
 from time import time, sleep
@@ -55,7 +56,7 @@ def from_antenna_config_with_gains(antxyz, z, nu=None,
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = u.Quantity(antxyz, u.m).value
     if not nu: 
         nu = cm.z_to_nu(z)                           # MHz
 
@@ -312,7 +313,7 @@ def from_antenna_config_with_antenna_stamp(antxyz, z, nu=None):
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = u.Quantity(antxyz, u.m).value
     if not nu: 
         nu = cm.z_to_nu(z)                                 # MHz
 
diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index ed23305..7108236 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -68,7 +68,7 @@ def from_antenna_config(antxyz, z, nu=None):
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = u.Quantity(antxyz, u.m).value
     if not nu: 
         nu = cm.z_to_nu(z)                           # MHz
 
-- 
2.43.0


From 41ae0dbf88e63cf026c89f5c3997c525b4ec55c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 073/156] fix: uv coverage of a single baseline crashed

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 7108236..667bd2f 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -143,7 +143,7 @@ def earth_rotation_effect(Nbase, slice_nums, int_time, total_int_time, declinati
     new_Nbase[:, :, 2] = (cos_delta * cos_HA[:, None] * Nbase[:, 0] -
                           cos_delta * sin_HA[:, None] * Nbase[:, 1] + sin_delta * Nbase[:, 2])
     
-    return new_Nbase.squeeze() if len(slice_nums) == 1 else new_Nbase
+    return new_Nbase[0] if len(slice_nums) == 1 else new_Nbase
 
 def get_uv_daily_observation(ncells, z, antxyz=None, total_int_time=4., int_time=10., boxsize=None, declination=-30., include_mirror_baselines=False, verbose=True):
     """
-- 
2.43.0


From 9dde43f80c0d09f74e438653deb42acc526600ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 074/156] fix: uv maps of odd size had zero baseline in the
 last cell instead of the first

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 667bd2f..4598413 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -265,7 +265,7 @@ def grid_uv_tracks(Nbase, z, ncells, boxsize=None, include_mirror_baselines=Fals
         # uv_map += np.flip(np.flip(uv_map, axis=0), axis=1)  # Flip along both axes for mirror effect
         uv_map = uv_map/2.  # Average with mirrored baselines
     
-    return np.fft.fftshift(uv_map)
+    return np.fft.ifftshift(uv_map)
 
 def geographic_to_cartesian_coordinate_system(antll):
     """
-- 
2.43.0


From 5df06c91a623e646edbd30cdb8bb3cdb6f1ea602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 075/156] fix: baselines on the highest frequency of an even uv
 grid were counted on one side only, so mirrored maps were not symmetric

---
 src/tools21cm/radio_telescope_calibration.py | 9 +++------
 src/tools21cm/radio_telescope_layout.py      | 8 ++++----
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 1c59701..c0a7769 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -223,8 +223,7 @@ def _grid_uv_tracks_with_gains(Nbase, gain_vals, gain_uv_map, z, ncells, boxsize
     
     # Filter baselines within bounds
     in_bounds = (
-        (Nb[:, 0] < ncells / 2) & (Nb[:, 1] < ncells / 2) &
-        (Nb[:, 0] >= -ncells / 2) & (Nb[:, 1] >= -ncells / 2)
+        (np.abs(Nb[:, 0]) <= ncells / 2) & (np.abs(Nb[:, 1]) <= ncells / 2)
     )
     gain_vals = gain_vals[in_bounds,:]
     gain_rr, gain_ii = gain_vals[:,0], gain_vals[:,1]
@@ -505,8 +504,7 @@ def _grid_uv_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map, z, ncells
     
     # Filter baselines within bounds
     in_bounds = (
-        (Nb[:, 0] < ncells / 2) & (Nb[:, 1] < ncells / 2) &
-        (Nb[:, 0] >= -ncells / 2) & (Nb[:, 1] >= -ncells / 2)
+        (np.abs(Nb[:, 0]) <= ncells / 2) & (np.abs(Nb[:, 1]) <= ncells / 2)
     )
     ant_tag1, ant_tag2 = ant_tag[:,0], ant_tag[:,1]
     Nb, ant_tag1, ant_tag2 = Nb[in_bounds], ant_tag1[in_bounds], ant_tag2[in_bounds]
@@ -706,8 +704,7 @@ def _grid_uv_lagrangian_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map
     
     # Filter baselines within bounds
     in_bounds = (
-        (Nb[:, 0] < ncells / 2) & (Nb[:, 1] < ncells / 2) &
-        (Nb[:, 0] >= -ncells / 2) & (Nb[:, 1] >= -ncells / 2)
+        (np.abs(Nb[:, 0]) <= ncells / 2) & (np.abs(Nb[:, 1]) <= ncells / 2)
     )
     ant_tag1, ant_tag2 = ant_tag[:,0], ant_tag[:,1]
     Nb, ant_tag1, ant_tag2 = Nb[in_bounds], ant_tag1[in_bounds], ant_tag2[in_bounds]
diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 4598413..4055eb9 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -247,14 +247,14 @@ def grid_uv_tracks(Nbase, z, ncells, boxsize=None, include_mirror_baselines=Fals
 
     # Vectorized conditionals to select points within grid bounds, skipping for-loops
     mask = (
-        (Nb[:, 0] < ncells / 2) & (Nb[:, 0] >= -ncells / 2) &
-        (Nb[:, 1] < ncells / 2) & (Nb[:, 1] >= -ncells / 2)
+        (np.abs(Nb[:, 0]) <= ncells / 2) & (np.abs(Nb[:, 1]) <= ncells / 2)
     )
     Nb = Nb[mask]
     
     # Convert from negative to positive indexing within the grid and use broadcasting
-    xx = (Nb[:, 0] + ncells // 2).astype(int)
-    yy = (Nb[:, 1] + ncells // 2).astype(int)
+    # On a grid of even size the highest frequency (+/- ncells/2) is a single cell
+    xx = (Nb[:, 0] + ncells // 2).astype(int) % ncells
+    yy = (Nb[:, 1] + ncells // 2).astype(int) % ncells
     
     # Fast counting using numpy's bincount and reshaping
     uv_map_flat = np.bincount(xx * ncells + yy, minlength=ncells * ncells)
-- 
2.43.0


From 24c41d1e871cc3a591099b75a4d8b15cb9699e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 076/156] fix: the maximum baseline cut of get_uv_map was
 off-centre

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 1c36553..778e96e 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -615,12 +615,12 @@ def get_uv_map(ncells, z, subarray_type="AA4", total_int_time=6., int_time=10.,
 	uv_map, N_ant  = get_uv_daily_observation(ncells, z, antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, include_mirror_baselines=include_mirror_baselines, verbose=verbose)
 	if max_baseline is not None:
 		kcut = max_baseline_to_max_k(z, max_baseline)
-		kk = np.linspace(-ncells/2, ncells/2, ncells) * np.pi / boxsize
+		kk = (np.arange(ncells) - ncells//2) * np.pi / boxsize
 		kx, ky = np.meshgrid(kk, kk)
 		ksq = kx**2 + ky**2
 		uv_map_shift = np.fft.fftshift(uv_map)
 		uv_map_shift[ksq>kcut**2] = 0.0
-		uv_map = np.fft.fftshift(uv_map_shift)
+		uv_map = np.fft.ifftshift(uv_map_shift)
 	return uv_map, N_ant
 
 def make_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., verbose=True):
-- 
2.43.0


From 0f9d81e96123a37e93d6b21c79b4afa35f01459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 077/156] fix: apply_uv_response_on_coeval simulated the
 coverage for the wrong grid when the cube is not cubic

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 778e96e..d2200f6 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -670,13 +670,13 @@ def apply_uv_response_on_coeval(array, z, subarray_type="AA4", boxsize=None, tot
 	np.ndarray
 		The observed 3D data cube after applying the UV mask to each slice.
 	"""
-	ncells = array.shape[-1]
+	ncells = array.shape[0]
 	if boxsize is None: boxsize = conv.LB
 	if uv_map is None: 
 		uv_map, N_ant  = get_uv_map(ncells, z, subarray_type=subarray_type, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
 	data3d = np.zeros(array.shape)
 	print("Applying the uv tracks to the the coeval signal cube...")
-	for k in tqdm(range(ncells)):
+	for k in tqdm(range(array.shape[-1])):
 		data2d = apply_uv_response_on_image(array[:,:,k], uv_map=uv_map)
 		data3d[:,:,k] = data2d
 	return data3d
-- 
2.43.0


From 496de3d5740ec226b247dd9733d0b0b281a0782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 078/156] fix: gain and antenna-stamped uv maps took the
 declination for the observing time

---
 src/tools21cm/radio_telescope_calibration.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index c0a7769..fb0fe40 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -173,7 +173,7 @@ def get_uv_map_with_gains(ncells, z,
             Nbase, N_ant = from_antenna_config_with_gains(antxyz, z, gain_model=gain_model)
 
         # Apply incremental rotation for the time step
-        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx+1, int_time, total_int_time, declination)
 
         # Grid the rotated baselines with gain values
         _grid_uv_tracks_with_gains(rotated_Nbase, Nbase[:,3:], gain_uv_map, z, ncells,
@@ -386,13 +386,13 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_map_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -404,7 +404,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
 
     return ant_tag_uv_map, N_ant
 
-def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Process a chunk of time slices.
 
@@ -449,7 +449,7 @@ def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, nc
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx+1, int_time, total_int_time, declination)
         _grid_uv_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
@@ -584,13 +584,13 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -603,7 +603,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     ant_pairs = Nbase[:,-2:]
     return ant_tag_uv_lagr, ant_pairs
 
-def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Processes a chunk of observation time slices for parallel computation.
 
@@ -649,7 +649,7 @@ def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx+1, int_time, total_int_time, declination)
         _grid_uv_lagrangian_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
-- 
2.43.0


From 07961bc4a71ea48c5d99043a25e328249fff44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 079/156] fix: uv positions per baseline were shifted by the
 baselines outside the grid

---
 src/tools21cm/radio_telescope_calibration.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index fb0fe40..65dd4d7 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -709,10 +709,8 @@ def _grid_uv_lagrangian_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map
     ant_tag1, ant_tag2 = ant_tag[:,0], ant_tag[:,1]
     Nb, ant_tag1, ant_tag2 = Nb[in_bounds], ant_tag1[in_bounds], ant_tag2[in_bounds]
     
-    count = 0
-    for (x, y), ant1, ant2 in zip(Nb[:, :2].astype(int), ant_tag1.astype(int), ant_tag2.astype(int)):
+    for (x, y), count in zip(Nb[:, :2].astype(int), np.flatnonzero(in_bounds)):
         ant_tag_uv_map[time_idx, count, 0] = x
         ant_tag_uv_map[time_idx, count, 1] = y
-        count += 1
         if include_mirror_baselines:
             print('include_mirror_baselines is not implemented yet.')
\ No newline at end of file
-- 
2.43.0


From e4db7a85b6c126048edf41bdba115457bc29a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 080/156] fix: smooth_lightcone_uv_threshold returned the error
 for a bad threshold instead of raising it

---
 src/tools21cm/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 0e10cf4..2698f43 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -490,7 +490,7 @@ def smooth_lightcone_uv_threshold(lightcone, uv_box, threshold=0.0):
                 Smoothed lightcone.
         """
         if not isinstance(threshold, float) or threshold < 0.0:
-                return ValueError("Threshold value should be a positive float.")
+                raise ValueError("Threshold value should be a positive float.")
         
         lightcone = np.fft.fft2(lightcone, axes = (0, 1))
         uv_bool = uv_box < threshold
-- 
2.43.0


From 447223f9b756d72a560ed90a6456581420a34ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 081/156] fix: cartesian_to_geographic_coordinate_system
 crashed for every input

---
 src/tools21cm/radio_telescope_layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 4055eb9..418c422 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -337,8 +337,8 @@ def cartesian_to_geographic_coordinate_system(antxyz):
     Re = 6371. * u.km  # Earth's radius
 
     # Extract Cartesian coordinates and attach units
-    if isinstance(antxyz, u.quantity.Quantity):
-        antxyz *= u.m
+    if not isinstance(antxyz, u.quantity.Quantity):
+        antxyz = antxyz * u.m
     x = antxyz[:, 0]
     y = antxyz[:, 1]
     z = antxyz[:, 2]
-- 
2.43.0


From 85460fa64fca057d4ff1f3e390cc155464c98ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 082/156] fix: get_SKA_Low_layout crashed for geodetic
 coordinates

---
 src/tools21cm/radio_telescope_layout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 418c422..1ed9aa5 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -504,6 +504,7 @@ def get_SKA_Low_layout(subarray_type="AA4", unit='ecef', verbose=True):
         ant_xyz = ecef_to_xyz(ant_ecef, lon, origin_ecef)
         return ant_xyz * u.m
     elif unit in ['latlon', 'geodetic']:
+        ant_ecef = enu_to_ecef(ant_enu, lat, lon, origin_ecef)
         locations = EarthLocation.from_geocentric(ant_ecef[:, 0], ant_ecef[:, 1], ant_ecef[:, 2], unit=u.m)
         return locations.lat.deg, locations.lon.deg, locations.height.to(u.m).value
     else:
-- 
2.43.0


From 6239831c26f8dd3ba3886816421cc691b9740ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 083/156] fix: convolve_uvmap and convolve_uvmap_coeval crashed
 without a uv map

---
 src/tools21cm/smoothing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 2698f43..36dd24c 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -527,9 +527,10 @@ def convolve_uvmap(array, z=None, uv_map=None, max_baseline=None, box_size_mpc=F
         if isinstance(max_baseline,u.Quantity):
                max_baseline = max_baseline.to('km').value
         if uv_map is None: 
+                from .radio_telescope_noise import get_uv_map
                 uv_map, N_ant  = get_uv_map(array.shape[0],
                                                 z,
-                                                filename=filename,
+                                                **({} if filename is None else {'subarray_type': filename}),
                                                 total_int_time=total_int_time,
                                                 int_time=int_time,
                                                 boxsize=box_size_mpc,
@@ -569,9 +570,10 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         if isinstance(max_baseline,u.Quantity):
                max_baseline = max_baseline.to('km').value
         if uv_map is None: 
+                from .radio_telescope_noise import get_uv_map
                 uv_map, N_ant  = get_uv_map(cube.shape[0],
                                                 z,
-                                                filename=filename,
+                                                **({} if filename is None else {'subarray_type': filename}),
                                                 total_int_time=total_int_time,
                                                 int_time=int_time,
                                                 boxsize=box_size_mpc,
-- 
2.43.0


From 4bae6a51182c8f1161e5ca443da109607c3129c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 084/156] fix: subtract_mean_signal and signal_overdensity
 crashed on integer arrays

---
 src/tools21cm/statistics.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/statistics.py b/src/tools21cm/statistics.py
index 615becf..cccb239 100755
--- a/src/tools21cm/statistics.py
+++ b/src/tools21cm/statistics.py
@@ -59,6 +59,14 @@ def mass_weighted_mean_xi(xi, rho):
 	return np.mean(xi*rho)/np.mean(rho)
 
 
+def _float_copy(signal):
+	'''
+	Copy of an array that can hold fractions. For internal use.
+	'''
+	signal = np.asarray(signal)
+	return signal.copy() if np.issubdtype(signal.dtype, np.inexact) else signal.astype('float64')
+
+
 def subtract_mean_signal(signal, los_axis=2):
 	'''
 	Subtract the mean of the signal along the los axis. 
@@ -72,7 +80,7 @@ def subtract_mean_signal(signal, los_axis=2):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = _float_copy(signal)
 	
 	for i in range(signal.shape[los_axis]):
 		if los_axis in [0,-3]:
@@ -98,7 +106,7 @@ def signal_overdensity(signal, los_axis):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = _float_copy(signal)
 	
 	for i in range(signal.shape[los_axis]):
 		if los_axis == 0:
-- 
2.43.0


From e6514b01bcf0299ffb66c60282150fb588d7d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 085/156] fix: signal_overdensity did not divide by the mean
 for negative axes

---
 src/tools21cm/statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/statistics.py b/src/tools21cm/statistics.py
index cccb239..754dbdc 100755
--- a/src/tools21cm/statistics.py
+++ b/src/tools21cm/statistics.py
@@ -109,11 +109,11 @@ def signal_overdensity(signal, los_axis):
 	signal_out = _float_copy(signal)
 	
 	for i in range(signal.shape[los_axis]):
-		if los_axis == 0:
+		if los_axis in [0,-3]:
 			signal_out[i,:,:] /= signal[i,:,:].mean()
-		if los_axis == 1:
+		if los_axis in [1,-2]:
 			signal_out[:,i,:] /= signal[:,i,:].mean()
-		if los_axis == 2:
+		if los_axis in [2,-1]:
 			signal_out[:,:,i] /= signal[:,:,i].mean()
 
 	return signal_out - 1.
-- 
2.43.0


From 6bfe8175eb0a520681ad06987d1e6750036e22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 086/156] fix: per-label statistics were wrong unless the
 labels are 0,1,2...

---
 src/tools21cm/superpixels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 457c0c8..a35cae8 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -127,13 +127,13 @@ def apply_operator_labelled_data(data, labels, operator=np.mean, verbose=True):
 	idx_low = 0
 	if verbose:
 		time.sleep(1)
-		for i in tqdm(elems, disable=False if verbose else True):
-			idx_high = idx_low + num[i]
+		for n in tqdm(num, disable=False if verbose else True):
+			idx_high = idx_low + n
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
 	else:
-		for i in elems:
-			idx_high = idx_low + num[i]
+		for n in num:
+			idx_high = idx_low + n
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
 	return out
-- 
2.43.0


From a58547b7993c7ebf271b3396ecbad5b2813d65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 087/156] fix: maps of per-label means were wrong unless the
 labels are 0,1,2...

---
 src/tools21cm/superpixels.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index a35cae8..88cd609 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -43,7 +43,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 		if stitch=='otsu': thres = threshold_otsu(np.array(y1))
 		else: thres = X1.mean()
 	y2 = np.zeros(y.shape)
-	for i in np.unique(y): y2[y==i] = y1[i]
+	for n,i in enumerate(np.unique(y)): y2[y==i] = y1[n]
 	y2 = y2 < thres
 	return y2.reshape(data.shape)
 
@@ -224,12 +224,13 @@ def superpixel_map(data, labels, mns=None, verbose=True):
 	#	return sp_map
 	if mns is None: mns = get_superpixel_means(data, labels=labels, verbose=verbose)
 	sp_map = np.zeros(data.shape)
+	elems  = np.unique(labels)
 	if verbose:
 		print('Constructing the superpixel map...')
 		time.sleep(1)
-		for i in tqdm(range(mns.size)): sp_map[labels==i] = mns[i]
+		for i in tqdm(range(mns.size)): sp_map[labels==elems[i]] = mns[i]
 	else:
-		for i in range(mns.size): sp_map[labels==i] = mns[i]
+		for i in range(mns.size): sp_map[labels==elems[i]] = mns[i]
 	return sp_map
 
 
-- 
2.43.0


From 8a26d5da4c6ca5fc6d4c70ed0d765aff8da801e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 088/156] fix: get_superpixel_SNRs crashed when asked for the
 pixels

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 88cd609..fb95bbf 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -177,7 +177,7 @@ def get_superpixel_SNRs(means=None, sigmas=None, n_pix=None, data=None, labels=N
 	means  = means[sorts]
 	if pixels:
 		pxls = get_superpixel_pixels(data=data, labels=labels, slic_segments=slic_segments)
-		pxls = pxls[sorts]
+		pxls = [pxls[i] for i in sorts]
 		return means/sigmas, means, sigmas, n_pix, pxls
 	return means/sigmas, means, sigmas, n_pix
 
-- 
2.43.0


From 4db6dc47e4c8540648ced1facb6ee16358747192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 089/156] fix: the two-cluster threshold did not separate the
 clusters

---
 src/tools21cm/identify_regions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/identify_regions.py b/src/tools21cm/identify_regions.py
index 37f9feb..3ce0a93 100755
--- a/src/tools21cm/identify_regions.py
+++ b/src/tools21cm/identify_regions.py
@@ -161,7 +161,8 @@ def threshold_kmeans(cube, upper_lim=False, mean_remove=True, n_jobs=1):
 	array = np.zeros(cube.shape)
 	X  = cube.reshape(-1,1)
 	y = KMeans(n_clusters=2, n_init='auto').fit_predict(X)
-	t_th = X[y==0].max()/2.+X[y==1].max()/2.
+	# Halfway between the largest value of the lower cluster and the smallest value of the upper one
+	t_th = min(X[y==0].max(), X[y==1].max())/2.+max(X[y==0].min(), X[y==1].min())/2.
 	if upper_lim: array[cube<=t_th] = 1
 	else: array[cube>t_th] = 1
 	print("The output contains a tuple with binary-cube and determined-threshold.")
-- 
2.43.0


From 677c4211165da2c082b60cbca2777bf6717e75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 090/156] fix: signal displaced by more than a box length was
 lost despite periodic boundaries

---
 src/tools21cm/pv_mpm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index a2c01a9..9f4e7fa 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -112,8 +112,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
 
             #Periodic boundary conditions
             if periodic:
-                particle_pos[np.where(particle_pos < 0)] += box_depth
-                particle_pos[np.where(particle_pos > box_depth)] -= box_depth
+                particle_pos = np.mod(particle_pos, box_depth)
 
             #Regrid particles to original resolution
             dist_skewer = np.histogram(particle_pos, \
-- 
2.43.0


From 4b0fda2abaa06d88f12f768b5d1142ca50beef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 091/156] fix: velocity distortion put the last particle of a
 sightline on the box boundary

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index 9f4e7fa..97bc57d 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -98,7 +98,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
             dT_skewer = get_skewer(dT,i,j)
 
             #Create particles along the skewer and assign dT to the particles
-            particle_pos = np.linspace(0, box_depth, grid_depth*num_particles)
+            particle_pos = (np.arange(grid_depth*num_particles)+0.5)*box_depth/(grid_depth*num_particles)
             for n in range(num_particles): 
                 particle_dT[n::num_particles] = dT_skewer/float(num_particles)
 
-- 
2.43.0


From 6fdc7ba5116241af37b013e391ab949b2f6c95d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 092/156] fix: get_distorted_dt silently left part of the box
 empty when the sides across the sightline differ

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index 97bc57d..0a3a815 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -56,7 +56,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
     '''
     #Volume dimensions
     mx,my,mz = dT.shape
-    assert(mx == my or my == mz or mx == mz) #TODO: this should not be a requirement 
+    assert(dT.shape[(los_axis+1)%3] == dT.shape[(los_axis+2)%3]) #TODO: this should not be a requirement 
     grid_depth = dT.shape[los_axis]
     grid_width = dT.shape[(los_axis+1)%3]
     box_depth = grid_depth * (conv.LB/float(grid_width))
-- 
2.43.0


From 3e51538ffa6dd016c58e4856a9cd3e4fbdc51ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 093/156] fix: get_distorted_dt took redshifts per slice along
 the last axis whatever the line of sight

---
 src/tools21cm/pv_mpm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index 0a3a815..223185c 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -79,6 +79,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
     
     #Figure out the apparent position shift 
     vpar = kms[velocity_axis,:,:,:]
+    if redsh.size > 1: redsh = redsh.reshape([-1 if ax==los_axis else 1 for ax in range(3)])
     z_obs = (1+redsh)/(1.-vpar/const.c)-1.
     dr = (1.+z_obs)*vpar/const.Hz(z_obs)
 
-- 
2.43.0


From 913da3eb30fc38b402c3e751088570800469396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 094/156] fix: velocity distortion of integer boxes was
 truncated

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index 223185c..28b4974 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -84,7 +84,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
     dr = (1.+z_obs)*vpar/const.Hz(z_obs)
 
     #Make the distorted box
-    distbox = np.zeros_like(dT)
+    distbox = np.zeros_like(dT, dtype=np.result_type(dT.dtype, np.float32))
     particle_dT = np.zeros(grid_depth*num_particles)
 
     last_percent = 0
-- 
2.43.0


From 72d831b2a18450dd804f8db2a680601363ff5335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 095/156] fix: make_pv_box distorted along every axis with the
 x velocities

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index 28b4974..e21c46c 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -152,7 +152,7 @@ def make_pv_box(dT_filename, vel_filename, dens_filename, z, los = 0, num_partic
     vfile = vel_file.VelocityFile(vel_filename)
     dfile = density_file.DensityFile(dens_filename)
     kms = vfile.get_kms_from_density(dfile)
-    dT_pv = get_distorted_dt(dT, kms, redsh = z, los_axis = los, \
+    dT_pv = get_distorted_dt(dT, kms, redsh = z, los_axis = los, velocity_axis = los, \
                             num_particles = num_particles)
     return dT_pv
 
-- 
2.43.0


From 45e22edbca712c2d62ba8b99c735ddc7038926f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 096/156] fix: channels of bin_lightcone_in_frequency averaged
 the slices in front of the channel instead of around it

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 79a088d..9a37a01 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -290,7 +290,7 @@ def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
     hf.print_msg('Smooth along LoS with scale %f' % smooth_scale)
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-    lightcone_smoothed = fftconvolve(lightcone, tophat3d)
+    lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')
     
     for i in range(output_lightcone.shape[2]):
         nu = output_frequencies[i]
-- 
2.43.0


From b8d4731ff6e5302832f4f57f4094140d6242a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 097/156] fix: binned lightcones were too faint at their ends

---
 src/tools21cm/angular_coordinates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 9a37a01..1befae0 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -291,6 +291,8 @@ def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
     lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')
+    # Near the ends the average is over the slices that exist
+    lightcone_smoothed /= fftconvolve(np.ones((1,1,lightcone.shape[2])), tophat3d, mode='same')
     
     for i in range(output_lightcone.shape[2]):
         nu = output_frequencies[i]
@@ -315,6 +317,8 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
     lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')
+    # Near the ends the average is over the slices that exist
+    lightcone_smoothed /= fftconvolve(np.ones((1,1,lightcone.shape[2])), tophat3d, mode='same')
     
     for i in range(output_lightcone.shape[2]):
         idx = int(hf.find_idx(distances, output_distances[i]))
-- 
2.43.0


From 8b42268e63f966e38cc97294adeace71950330f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 098/156] fix: bin_lightcone_in_mpc returned one redshift more
 than slices

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 1befae0..eba2268 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -308,7 +308,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     '''
     distances = cm.nu_to_cdist(frequencies)
     n_output_cells = (distances[-1]-distances[0])/cell_size_mpc
-    output_distances = np.arange(distances[0], distances[-1], cell_size_mpc)
+    output_distances = distances[0] + np.arange(int(n_output_cells))*cell_size_mpc
     output_lightcone = np.zeros((lightcone.shape[0], lightcone.shape[1], int(n_output_cells)))
     
     #Bin in Mpc by smoothing and indexing
-- 
2.43.0


From b08a08b18ae34145967138f8e49151da9d7a48db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 099/156] fix: bin_lightcone_in_mpc crashed for cells smaller
 than half a channel

---
 src/tools21cm/angular_coordinates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index eba2268..e267d83 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -313,6 +313,8 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     
     #Bin in Mpc by smoothing and indexing
     smooth_scale = np.round(len(frequencies)/n_output_cells)
+    if smooth_scale < 1:
+        smooth_scale = 1
 
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-- 
2.43.0


From a802e5a311ae2e9e7f3c7db1facd0fcf6c349f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 100/156] fix: slices could not be tiled to more than twice
 their size

---
 src/tools21cm/angular_coordinates.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index e267d83..a5de5d5 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -333,12 +333,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
 
 def _get_padded_slice(input_slice, padded_n):
     slice_n = input_slice.shape[0]
-    padded_slice = np.zeros((padded_n, padded_n))
-    padded_slice[:slice_n, :slice_n] = input_slice
-    padded_slice[slice_n:, :slice_n] = input_slice[:(padded_n-slice_n),:slice_n]
-    padded_slice[:slice_n, slice_n:] = input_slice[:,:(padded_n-slice_n)]
-    padded_slice[slice_n:, slice_n:] = input_slice[:(padded_n-slice_n), :(padded_n-slice_n)]
-    return padded_slice
+    return np.pad(input_slice, (0, padded_n-slice_n), mode='wrap')
 
 def padding_lightcone(lc, padded_n=None, mode='wrap', verbose=True):
     '''
-- 
2.43.0


From 80cc40694b65673d9c4bdb17b3aad2e31797293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 101/156] fix: physical_lightcone_to_observational crashed on
 lists of redshifts

---
 src/tools21cm/angular_coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index a5de5d5..4919c5b 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -64,12 +64,12 @@ def physical_lightcone_to_observational(physical_lightcone, input_z_low, output_
     if input_box_size_mpc == None:
         input_box_size_mpc = conv.LB
 
-    if isinstance(input_z_low,(float,int)):
+    if np.ndim(input_z_low) == 0:
         cell_size = input_box_size_mpc/physical_lightcone.shape[0]
         distances = cm.z_to_cdist(input_z_low) + np.arange(physical_lightcone.shape[2])*cell_size
         input_z_high = cm.cdist_to_z(distances).max()
     else:
-        input_z_low, input_z_high = input_z_low.min(), input_z_low.max()
+        input_z_low, input_z_high = np.min(input_z_low), np.max(input_z_low)
 
     #Calculate the FoV in degrees at lowest z (largest one)
     fov_deg_low  = cm.angular_size_comoving(input_box_size_mpc, input_z_low)
-- 
2.43.0


From 27e91f97a020719285a0640eed91ddc3166f6e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 102/156] fix: bin_lightcone_in_frequency crashed when only one
 channel fits

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 4919c5b..3fcdbb5 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -282,7 +282,7 @@ def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
                                  len(output_frequencies)))
     
     #Bin in frequencies by smoothing and indexing
-    max_cell_size = cm.nu_to_cdist(output_frequencies[-1])-cm.nu_to_cdist(output_frequencies[-2])
+    max_cell_size = cm.nu_to_cdist(output_frequencies[-1])-cm.nu_to_cdist(output_frequencies[-1]+dnu)
     smooth_scale = np.round(max_cell_size/cell_size)
     if smooth_scale < 1:
         smooth_scale = 1
-- 
2.43.0


From bf5285c50201a1de1303619bed4389b0b933dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 103/156] fix: physical_lightcone_to_observational crashed when
 the field of view is a whole odd number of cells

---
 src/tools21cm/angular_coordinates.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 3fcdbb5..7b556de 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -181,20 +181,14 @@ def physical_slice_to_angular(input_slice, z, slice_size_mpc, fov_deg, dtheta, o
     #Resample
     fov_mpc = cm.deg_to_cdist(fov_deg, z)
     cell_size_mpc = fov_mpc/(fov_deg*60./dtheta)
-    n_cells_resampled = int(slice_size_mpc/cell_size_mpc)
+    padded_n = int(fov_deg*60./dtheta)# np.round(slice_n*(fov_mpc/slice_size_mpc))
+    n_cells_resampled = min(int(slice_size_mpc/cell_size_mpc), padded_n)
     #Avoid edge effects with even number of cells
     if n_cells_resampled % 2 == 0: 
         n_cells_resampled -= 1
     resampled_slice = resample_slice(input_slice, n_cells_resampled, order)
     
     #Pad the array
-    slice_n = resampled_slice.shape[0]
-    padded_n = int(fov_deg*60./dtheta)# np.round(slice_n*(fov_mpc/slice_size_mpc))
-    if padded_n < slice_n:
-        if slice_n - padded_n > 2:
-            print('Warning! Padded slice is significantly smaller than original!')
-            print('This should not happen...')
-        padded_n = slice_n
     padded_slice = _get_padded_slice(resampled_slice, padded_n)
     
     return padded_slice
-- 
2.43.0


From 4f07fb57a63c519fa48dde918098e66175547f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 104/156] fix: get_SEFD crashed with constant T_sys and
 ep_aperture and lost the shape of one-element frequencies

---
 src/tools21cm/radio_telescope_sensitivity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_sensitivity.py b/src/tools21cm/radio_telescope_sensitivity.py
index ab00297..642e920 100755
--- a/src/tools21cm/radio_telescope_sensitivity.py
+++ b/src/tools21cm/radio_telescope_sensitivity.py
@@ -64,6 +64,7 @@ def get_SEFD(nu_obs, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep
 			print(f"SEFD is interpolated from the data provided.")
 		return 10**log10_sefd_fct(nu_obs)
 
+	nu_shape = np.shape(nu_obs)
 	nu_obs = np.atleast_1d(nu_obs)
 
 	# Default system temperature model
@@ -93,7 +94,8 @@ def get_SEFD(nu_obs, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep
 	sefd = 2 * KB_SI * T_sys_val / A_eff / janskytowatt  # Jy
 
 	# Return a scalar if input was scalar
-	return sefd[0] if nu_obs.size == 1 else sefd
+	sefd = np.broadcast_to(sefd, nu_obs.shape).copy()
+	return sefd[0] if nu_shape == () else sefd
 
 def sigma_noise_radio(z, depth_mhz, obs_time, int_time, uv_map=None, N_ant=512, verbose=True, 
 					  T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep_aperture=None):
-- 
2.43.0


From f2d16b79463a5cb1fadaf16ce6ba2aecf5a5188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 105/156] fix: apply_uv_response_noise with uniform weighting
 zeroed the caller's noise array

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index d2200f6..8793838 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -466,7 +466,7 @@ def apply_uv_response_noise(noise, uv_map, boxsize=None, uv_weighting='natural',
 			uv_map_smooth = uv_map
 		out = noise/np.sqrt(uv_map_smooth)
 	elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
-		out = noise
+		out = noise.copy()
 	else:
 		print(f'{uv_weighting} scheme is not known or implemented')
 	out[uv_map<uv_map_min] = 0.
-- 
2.43.0


From 59aa3ec85164cca506dc484b103134d11d092db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 106/156] fix: noise_map centred the taper off the zero mode
 for odd grids

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 8793838..36589c8 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -391,7 +391,7 @@ def noise_map(ncells, z, depth_mhz, obs_time=1000, subarray_type="AA4", boxsize=
 	noise_four = apply_uv_response_noise(noise_arr, uv_map, boxsize=boxsize, uv_weighting=uv_weighting, suppress_sharp_features_uv_map=suppress_sharp_features_uv_map)
 	# noise_four = apply_uv_response_noise_briggs(noise_arr, uv_map, robust=2.0, epsilon=1e-6)
 	win_2d = signal_window(ncells, 'blackmanharris', ndim=2)
-	noise_four = noise_four*np.fft.fftshift(win_2d)
+	noise_four = noise_four*np.fft.ifftshift(win_2d)
 	if fft_wrap: noise_map  = ifft2_wrap(noise_four)*np.sqrt(int_time/3600./obs_time)
 	else: noise_map  = np.fft.ifft2(noise_four)*np.sqrt(int_time/3600./obs_time)
 	return np.real(noise_map)
-- 
2.43.0


From 7ff337e6a4c72f91e672cefbb707faf1efec9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 107/156] fix: Bispectrum.bispectrum_k1k2 and bispectrum_k
 crashed on an undefined array

---
 src/tools21cm/bispectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 71d0c26..c0fd923 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -109,7 +109,7 @@ class Bispectrum:
                     ):
         tstart = time()
         input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(input_array_nd, window)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
@@ -165,7 +165,7 @@ class Bispectrum:
                     ):
         tstart = time()
         input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(input_array_nd, window)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
-- 
2.43.0


From cdd2f97051711a20fb25a715c6acd6dd6af7abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 108/156] fix: Bispectrum ignored the box dimensions it was
 created with

---
 src/tools21cm/bispectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index c0fd923..9501be8 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -111,6 +111,7 @@ class Bispectrum:
         input_array_nd = self.input_array.astype(np.float64)
         input_array_nd = apply_window(input_array_nd, window)
 
+        if box_dims is None: box_dims = self.box_dims
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
         
@@ -167,6 +168,7 @@ class Bispectrum:
         input_array_nd = self.input_array.astype(np.float64)
         input_array_nd = apply_window(input_array_nd, window)
 
+        if box_dims is None: box_dims = self.box_dims
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
         
-- 
2.43.0


From f6ea24c32507661093435bc7f008cbfc988b2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 109/156] fix: Bispectrum misplaced the modes of grids with odd
 sides

---
 src/tools21cm/bispectrum.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 9501be8..ed4aa3d 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -69,16 +69,16 @@ class Bispectrum:
         
         shell1 = self.spherical_shell_mask(input_array_fft.shape, k1, dk1, k_mag=k_mag)
         dfft1  = input_array_fft*shell1
-        s1     = np.fft.ifftn(np.fft.fftshift(shell1))
-        d1     = np.fft.ifftn(np.fft.fftshift(dfft1))
+        s1     = np.fft.ifftn(np.fft.ifftshift(shell1))
+        d1     = np.fft.ifftn(np.fft.ifftshift(dfft1))
         
         if k2==k1: 
             s2, d2 = s1, d1
         else: 
             shell2 = self.spherical_shell_mask(input_array_fft.shape, k2, dk2, k_mag=k_mag)
             dfft2  = input_array_fft*shell2
-            s2     = np.fft.ifftn(np.fft.fftshift(shell2))
-            d2     = np.fft.ifftn(np.fft.fftshift(dfft2))
+            s2     = np.fft.ifftn(np.fft.ifftshift(shell2))
+            d2     = np.fft.ifftn(np.fft.ifftshift(dfft2))
             
         if k3==k1: 
             s3, d3 = s1, d1
@@ -87,8 +87,8 @@ class Bispectrum:
         else: 
             shell3 = self.spherical_shell_mask(input_array_fft.shape, k3, dk3, k_mag=k_mag)
             dfft3  = input_array_fft*shell3
-            s3     = np.fft.ifftn(np.fft.fftshift(shell3))
-            d3     = np.fft.ifftn(np.fft.fftshift(dfft3))
+            s3     = np.fft.ifftn(np.fft.ifftshift(shell3))
+            d3     = np.fft.ifftn(np.fft.ifftshift(dfft3))
             
         d123 = np.real(d1*d2*d3)
         s123 = np.real(s1*s2*s3)
-- 
2.43.0


From 6f7b56c93d43d0036098b1a967ccbbb8a5c05d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 110/156] fix: spherical_shell_mask compared squared
 wavenumbers when given the components

---
 src/tools21cm/bispectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index ed4aa3d..b6cc6ea 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -46,7 +46,7 @@ class Bispectrum:
          
     def spherical_shell_mask(self, array_shape, k_center, k_width, k_comp=None, k_mag=None):
         assert k_comp is not None or k_mag is not None
-        if k_mag is None: k_mag = np.sum(np.array(k_comp)**2, axis=0)
+        if k_mag is None: k_mag = np.sqrt(np.sum(np.array(k_comp)**2, axis=0))
         try: out = np.zeros(array_shape)
         except: out = np.zeros((array_shape[0],array_shape[1],array_shape[2]))
         out[np.abs(k_mag-k_center)<k_width/2] = 1
-- 
2.43.0


From c01f5992c66c914d09729a41fd1cc832b14113a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 111/156] fix: Bispectrum returned ratios of rounding errors
 where no triangle closes

---
 src/tools21cm/bispectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index b6cc6ea..74e551d 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -92,6 +92,8 @@ class Bispectrum:
             
         d123 = np.real(d1*d2*d3)
         s123 = np.real(s1*s2*s3)
+        # number of closed triangles; without any, only rounding errors are left in the sums
+        if np.rint(np.sum(s123)*n_pixel.astype(np.float64)**2)==0: return np.nan
         b123 = np.sum(d123)/np.sum(s123) * box_vol.astype(np.float64)**2/n_pixel.astype(np.float64)**3
         
         return b123
-- 
2.43.0


From b9c6357f39fc0ae65fa716cc67d17d7f1655c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 112/156] fix: Bispectrum.bispectrum_k evaluated the lower bin
 edges but reported the bin centres

---
 src/tools21cm/bispectrum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 74e551d..db3c530 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -179,10 +179,11 @@ class Bispectrum:
         if verbose: print('FFT of data done')
 
         kbins = _get_kbins(n_bins, box_dims, k_mag, binning=binning, kmax=k_mag.max()/2, kmin=None)
-        dk = dk*np.ones_like(kbins) if isinstance(dk,float) else dk
+        k_mid = kbins[1:]/2+kbins[:-1]/2
+        dk = dk*np.ones_like(k_mid) if np.ndim(dk)==0 else dk
         
         def run_loop(i):
-            k1 = kbins[i]
+            k1 = k_mid[i]
             dk1 = dk[i]
             b123 = self.bispectrum_fast(input_array_fft,
                             k1, k1, k1,
@@ -202,7 +203,7 @@ class Bispectrum:
         
         out_dict = {
             'B': B_list,
-            'k': kbins[1:]/2+kbins[:-1]/2, 
+            'k': k_mid, 
             }
         
         if verbose: print(f'...done | Runtime: {time()-tstart:.3f} s')
-- 
2.43.0


From fb31f9bc07dce8693eb6a528de59632b1090ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 113/156] fix: ps_to_corr crashed with numpy 2

---
 src/tools21cm/corr_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 99e59a7..d5cb289 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -1,5 +1,6 @@
 import numpy as np 
 from scipy.interpolate import splrep,splev
+from .scipy_func import trapz
 from scipy.spatial import cKDTree
 from tqdm import tqdm
 from .power_spectrum import power_spectrum_1d, cross_power_spectrum_1d
@@ -27,7 +28,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
 	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None])
-	corr  = np.trapz(integ, knew, axis=1) 
+	corr  = trapz(integ, knew, axis=1) 
 
 	return corr*4*np.pi, rbins
 
-- 
2.43.0


From 057726776cc986360cd4628880b61fd19a799fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 114/156] fix: ps_to_corr used sin(pi kr)/(pi kr) instead of
 the documented sinc(kr)

---
 src/tools21cm/corr_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index d5cb289..eda8854 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -27,7 +27,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	# pnew = ps_fun(knew)
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
-	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None])
+	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None]/np.pi)
 	corr  = trapz(integ, knew, axis=1) 
 
 	return corr*4*np.pi, rbins
-- 
2.43.0


From 25255a79f8fab2b4b2b3a318e263a635d1120826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 115/156] fix: correlation functions crashed without a box size
 or with listed distances

---
 src/tools21cm/corr_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index eda8854..3db5f0f 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -13,6 +13,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	.. math:: \\xi(r) = \\int 4\\pi k^2 P(k) \\mathrm{sinc}(kr)dk
 	'''
 	if isinstance(rbins, (int)): 
+		if box_dims is None: box_dims = conv.LB
 		rbins = 10**np.linspace(np.log10(2*box_dims/n_grid), np.log10(box_dims/2), rbins) if binning=='log' \
 					else np.linspace(2*box_dims/n_grid, box_dims/2, rbins)
 
@@ -25,6 +26,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	# intergral_bins = kbins*10
 	# knew = np.linspace(ks[0],ks[-1],intergral_bins)
 	# pnew = ps_fun(knew)
+	rbins, ps, ks = np.asarray(rbins), np.asarray(ps), np.asarray(ks)
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
 	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None]/np.pi)
-- 
2.43.0


From 47c9622b37673969c836a166c64b6f5714dbbc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 116/156] fix: landy_szalay_estimator histogrammed pair indices
 instead of pair distances

---
 src/tools21cm/corr_function.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 3db5f0f..8c57ed5 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -145,6 +145,8 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 		else:
 			rbins = np.linspace(rmin, rmax, rbins)
 
+	rbins = np.asarray(rbins)
+	rmax = rbins.max()
 	rbin_centers = (rbins[:-1] + rbins[1:]) / 2  # Midpoints of the bins
 
 	# Step 1: Pair Counting
@@ -154,10 +156,12 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 	random_tree = cKDTree(randoms)
 
 	# Count DD pairs (data-data)
-	DD, _ = np.histogram(data_tree.query_pairs(rmax, output_type='ndarray'), bins=rbins)
+	pairs = data_tree.query_pairs(rmax, output_type='ndarray')
+	DD, _ = np.histogram(np.linalg.norm(data[pairs[:,0]]-data[pairs[:,1]], axis=1), bins=rbins)
 
 	# Count RR pairs (random-random)
-	RR, _ = np.histogram(random_tree.query_pairs(rmax, output_type='ndarray'), bins=rbins)
+	pairs = random_tree.query_pairs(rmax, output_type='ndarray')
+	RR, _ = np.histogram(np.linalg.norm(randoms[pairs[:,0]]-randoms[pairs[:,1]], axis=1), bins=rbins)
 
 	# Count DR pairs (data-random)
 	DR = np.zeros(len(rbins)-1)
-- 
2.43.0


From 9dad3ca967aacb29cbbc1b03b4361d87ce57299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 117/156] fix: make_gaussian_random_field gave modes of odd
 grids the power of their neighbours

---
 src/tools21cm/gaussian_random_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/gaussian_random_field.py b/src/tools21cm/gaussian_random_field.py
index 2188938..bd2bf58 100755
--- a/src/tools21cm/gaussian_random_field.py
+++ b/src/tools21cm/gaussian_random_field.py
@@ -55,7 +55,7 @@ def make_gaussian_random_field(dims, box_dims, power_spectrum, random_seed=None)
     map_ft *= np.sqrt(power_spectrum(k)/scale_factor)
     
     #Inverse FT
-    map_ift = fftpack.ifftn(fftpack.fftshift(map_ft))
+    map_ift = fftpack.ifftn(fftpack.ifftshift(map_ft))
     
     #Return real part
     map_real = np.real(map_ift)
-- 
2.43.0


From 5a2da28ec55dbfbc2b06476a593fe1a7205ee1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 118/156] fix: primary_beam ignored l_null for 2D arrays

---
 src/tools21cm/primary_beam.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 14542cf..e0226aa 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -34,9 +34,8 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 	assert array.ndim > 1
 	if boxsize is None: 
 		boxsize = conv.LB
-	beam = np.zeros(array.shape)
 	if array.ndim==2: 
-		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize)
+		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
-- 
2.43.0


From 2fb12343b85ec9097636c4e48833bbef94a1ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 119/156] fix: primary_beam crashed on lists of redshifts and
 on frequency axes other than the last of non-cubic arrays

---
 src/tools21cm/primary_beam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index e0226aa..7590e81 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -41,6 +41,8 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 			array = np.swapaxes(array, nu_axis, 2)
 		if np.array(z).size==1: 
 			z = z*np.ones(array.shape[2])
+		z = np.asarray(z)
+		beam = np.zeros(array.shape)
 		for i in tqdm(range(z.size), disable=not verbose): 
 			beam[:,:,i] = circular_beam(array.shape[0], z[i], D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 		beamed = array*beam
-- 
2.43.0


From 89d20258f7ee5640cad8f676061ab538eb7439a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 120/156] fix: the foreground maps crashed on integer redshifts
 and lists of redshifts

---
 src/tools21cm/foreground_model.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 3a8df22..5f9bf83 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -27,10 +27,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 	-------
 	A 2D numpy array of brightness temperature in mK.
 	"""
-	if(isinstance(z, float)):
-		z = np.array([z])
-	else:
-		z = np.array(z, copy=False)
+	z = np.atleast_1d(z)
 	gf_data = np.zeros((ncells, ncells, z.size))
 
 	if(rseed): np.random.seed(rseed)
@@ -69,10 +66,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	-------
 	A 2D numpy array of brightness temperature in mK.
 	"""
-	if(isinstance(z, float)):
-		z = np.array([z])
-	else:
-		z = np.array(z, copy=False)
+	z = np.atleast_1d(z)
 	exgf_data = np.zeros((ncells, ncells, z.size))
 
 	dS, nu_s = 0.01, 150
-- 
2.43.0


From 1e6071c3dfe229b6093101e6d7c949fde1ad3c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 121/156] fix: extragalactic_pointsource_fg used functions that
 numpy no longer has

---
 src/tools21cm/foreground_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 5f9bf83..e0d9fdb 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -73,9 +73,9 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	solid_angle = boxsize**2/cm.z_to_cdist(z.min())**2
 	
 	Ss = np.arange(0.1, S_max, dS)
-	N  = int(10**3.75*np.trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
+	N  = int(10**3.75*trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
 	if(rseed): np.random.seed(rseed)
-	x, y = np.random.random_integers(0, high=ncells-1, size=(2,N))
+	x, y = np.random.randint(0, high=ncells, size=(2,N))
 	alpha_ps = 0.7+0.1*np.random.random(size=N)
 	S_s  = np.random.choice(Ss, N)
 
-- 
2.43.0


From 87c9ae6c711dec69c251f7cf4a7291950566fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 122/156] fix: extragalactic_pointsource_fg kept only the last
 of the sources that share a pixel

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index e0d9fdb..13cc0db 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -83,7 +83,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 		nu = cm.z_to_nu(z[i])
 		S_nu = S_s*(nu/nu_s)**(-alpha_ps)
 		for p in range(S_nu.size):
-			exgf_data[x[p], y[p], i] = jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
+			exgf_data[x[p], y[p], i] += jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
 	return exgf_data.squeeze()
 
 
-- 
2.43.0


From 4e164d356f0347589b19b36ead9a65d7008fcc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:58 +0000
Subject: [PATCH 123/156] fix: barrel_filter returned an empty filter

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 13cc0db..18096ea 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -130,7 +130,7 @@ def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, smal
 	ss = np.ones(k2.shape)
 	ss[k2<=k_par_min] = 0
 	filt = np.zeros((ncells,ncells,ncells))
-	for i in range(ncells): filt[:,:,i] = filt
+	for i in range(ncells): filt[:,:,i] = ss
 	if array.shape[2]<ncells: filt = filt[:,:,ncells/2-array.shape[2]/2:ncells/2+array.shape[2]/2]
 	print("A barrel filter made with step function.")
 	return filt	
-- 
2.43.0


From cc025eed7975d3d2a5118950f867502a60e6de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:05 +0000
Subject: [PATCH 124/156] fix: diabolo_filter and barrel_filter crashed without
 an array and with one of fewer channels than cells

---
 src/tools21cm/foreground_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 18096ea..32ca6a1 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -112,7 +112,7 @@ def diabolo_filter(z, ncells=None, array=None, boxsize=None, mu=0.5, funct='step
 			ss[k2<=kpr]  = 0
 		ss[k2<=kmin] = 0
 		filt[:,:,i] = ss
-	if array.shape[2]<ncells: filt = filt[:,:,ncells/2-array.shape[2]/2:ncells/2+array.shape[2]/2]
+	if array is not None and array.shape[2]<ncells: filt = filt[:,:,ncells//2-array.shape[2]//2:][:,:,:array.shape[2]]
 	print("A diabolo filter made with %s function."%funct)
 	return filt
 
@@ -131,7 +131,7 @@ def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, smal
 	ss[k2<=k_par_min] = 0
 	filt = np.zeros((ncells,ncells,ncells))
 	for i in range(ncells): filt[:,:,i] = ss
-	if array.shape[2]<ncells: filt = filt[:,:,ncells/2-array.shape[2]/2:ncells/2+array.shape[2]/2]
+	if array is not None and array.shape[2]<ncells: filt = filt[:,:,ncells//2-array.shape[2]//2:][:,:,:array.shape[2]]
 	print("A barrel filter made with step function.")
 	return filt	
 
-- 
2.43.0


From eb942e39364d351ace8f453e1e635c69b11bcedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 125/156] fix: remove_wedge_image scrambled the modes of arrays
 with odd sides

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 32ca6a1..4ab8ea0 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -138,7 +138,7 @@ def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, smal
 def remove_wedge_image(dt, z, mu=0.5, funct='step', boxsize=None, filt=None):
 	if filt is None: filt = diabolo_filter(z, array=dt, mu=mu, funct=funct, boxsize=boxsize)
 	fft_dt = np.fft.fftn(dt)
-	apply_filt = np.fft.fftshift(np.fft.fftshift(fft_dt)*filt)
+	apply_filt = np.fft.ifftshift(np.fft.fftshift(fft_dt)*filt)
 	dt_new = np.real(np.fft.ifftn(apply_filt))
 	return dt_new
 
-- 
2.43.0


From 37b60dd51729fa3f0f672260b93f8208e11799db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 126/156] fix: rolling_wedge_removal_lightcone crashed for odd
 chunk lengths

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 4ab8ea0..ec4e47c 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -192,7 +192,7 @@ def rolling_wedge_removal_lightcone(lightcone, redshifts, cell_size=None, chunk_
 	Box_uv = np.concatenate((empty_box, Box_uv, empty_box), axis = 2)
     
 	for i in range(chunk_length, box_shape[-1] + chunk_length):
-		t_box = np.copy(Box_uv[..., i-chunk_length//2: i+chunk_length//2])
+		t_box = np.copy(Box_uv[..., i-chunk_length//2: i-chunk_length//2+chunk_length])
 		t_box *= BM
 		W = k_par / (k_perp * MF[min(i - chunk_length // 2 - 1, box_shape[-1] - 1)] + buffer)
 		w = np.logical_or(W < -1., W > 1.)
-- 
2.43.0


From 395f257360e1db54ce6f36cafa0bcdf59329a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 127/156] fix: the sigmoid primary beam raised distances to the
 power 2**0.5, so that it did not fall off at the edge of the beam

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 7590e81..98cad1c 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -98,7 +98,7 @@ def circular_beam(ncells, z, D_station=40., beam_func='Gaussian', boxsize=None,
         beam[center_idx] = 1.0  # Manually set the peak to 1
     elif beam_func.lower()=='sigmoid':
         r0, b = l_null/2., 0.5
-        beam = 1.-1/(1+np.exp(b*r0-b*rr**2**0.5))
+        beam = 1.-1/(1+np.exp(b*r0-b*rr))
     else:
         raise ValueError("Please choose between 'step', 'gaussian', 'bessel', and 'sigmoid' for beam_func.")
     
-- 
2.43.0


From ddfb9c6cb7d964a8aecf0276fcc840dfecb1be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:48 +0000
Subject: [PATCH 128/156] fix: galactic_synch_fg returned only NaN for odd
 numbers of cells

---
 src/tools21cm/foreground_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index ec4e47c..182faca 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -40,6 +40,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 		U_cb  = (np.mgrid[-ncells/2:ncells/2,-ncells/2:ncells/2]+0.5)*cm.z_to_cdist(z[i])/boxsize
 		l_cb  = 2*np.pi*np.sqrt(U_cb[0,:,:]**2+U_cb[1,:,:]**2)
 		C_syn = A150*(1000/l_cb)**beta_*(nu/nu_s)**(-2*a_syn-2*Da_syn*np.log(nu/nu_s))
+		C_syn[l_cb==0] = 0   # no power in the mean
 		solid_angle = boxsize**2/cm.z_to_cdist(z[i])**2
 		AA = np.sqrt(solid_angle*C_syn/2)
 		T_four = AA*(X+Y*1j)
-- 
2.43.0


From 9e21533f511acee74d0e7a583c988037d72ca689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 129/156] fix: granulometry and watershed size distributions
 used type names that numpy no longer has

---
 src/tools21cm/bubble_stats.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 250f831..9d01338 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -418,7 +418,7 @@ def disk_structure(n):
     x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
     mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
     struct[mask] = 1
-    return struct.astype(np.bool)
+    return struct.astype(bool)
 
 
 def granulometry_CDF(data, sizes=None, verbose=True, n_jobs=1):
@@ -498,18 +498,18 @@ def _granulometry(data, n_jobs=1, verbose=True):
         x, y = np.indices((2 * n + 1, 2 * n + 1))
         mask = (x - n)**2 + (y - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
     def ball(n):
         struct = np.zeros((2*n+1, 2*n+1, 2*n+1))
         x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
         mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
 
     s = max(data.shape)
     dim   = data.ndim
-    pixel = range(np.int(s/2))
-    area0 = np.float(data.sum())
+    pixel = range(int(s/2))
+    area0 = float(data.sum())
     area  = np.zeros_like(pixel)
 
     def func(n):
@@ -612,7 +612,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
 	r_list = np.cbrt(3*uniq[0]/4/np.pi)
-	r_pixl = np.arange(0, np.int(r_list.max()+2), 1)-0.5 
+	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
 	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
-- 
2.43.0


From 1111d64aeb1646f9db47728a8016fd3145d537a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 130/156] fix: watershed_bsd took the radii from the labels of
 the regions instead of their sizes

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 9d01338..013cc75 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -611,7 +611,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	if n_jobs>1: print('Parallelization not implemented yet.')
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
-	r_list = np.cbrt(3*uniq[0]/4/np.pi)
+	r_list = np.cbrt(3*uniq[1]/4/np.pi)
 	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
-- 
2.43.0


From 0cce7de20bc2f26c45f3904c3bf8a82acf14205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 131/156] fix: watershed_bsd took areas for volumes in 2D

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 013cc75..757c212 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -611,7 +611,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	if n_jobs>1: print('Parallelization not implemented yet.')
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
-	r_list = np.cbrt(3*uniq[1]/4/np.pi)
+	r_list = np.cbrt(3*uniq[1]/4/np.pi) if data.ndim==3 else np.sqrt(uniq[1]/np.pi)
 	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
-- 
2.43.0


From e32c9e0f3908975f75ec3feed9bc6aa90d843f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 132/156] fix: watershed_bsd left out the largest regions when
 their radius was closer to the next whole cell

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 757c212..1b039c9 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -612,7 +612,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
 	r_list = np.cbrt(3*uniq[1]/4/np.pi) if data.ndim==3 else np.sqrt(uniq[1]/np.pi)
-	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
+	r_pixl = np.arange(0, int(np.round(r_list.max(initial=0))+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
 	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
-- 
2.43.0


From 200a965cfbf5e5c21a8b125ae69c2418f3aeb9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 133/156] fix: granulometry_bsd and watershed_bsd returned NaN
 or crashed without any region

---
 src/tools21cm/bubble_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 1b039c9..d188061 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -532,7 +532,7 @@ def _granulometry(data, n_jobs=1, verbose=True):
 
     area = area.astype(float)
     # print(area)
-    pattern_spectrum = np.append((area[:-1]-area[1:]).astype(float)/area[0], 0)
+    pattern_spectrum = np.append((area[:-1]-area[1:]).astype(float)/max(area[0],1), 0)
     # print(pattern_spectrum)
 
     return area, pattern_spectrum, np.array(pixel)
@@ -615,7 +615,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	r_pixl = np.arange(0, int(np.round(r_list.max(initial=0))+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
-	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
+	dFdR, R = ht[0]/max(ht[0].sum(),1), ht[1][1:]/2+ht[1][:-1]/2
 
 	Rs = (R*boxsize/data.shape[0])
 	dFdlnR = R*dFdR
-- 
2.43.0


From 991957c482351e670e6301f00854d8209d8239ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 134/156] fix: binary_opening with an asymmetric structure was
 no opening: the erosion did not mirror the structure

---
 src/tools21cm/morph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/morph.py b/src/tools21cm/morph.py
index 21b5baf..99796f4 100755
--- a/src/tools21cm/morph.py
+++ b/src/tools21cm/morph.py
@@ -23,7 +23,7 @@ def _erode_v1(A,B,R):
 
 def _erode_v2(A,B):
     thresh = np.count_nonzero(B)-0.5
-    return fftconvolve(A,B,'same') > thresh
+    return fftconvolve(A,np.flip(B),'same') > thresh
 
 
 def binary_opening(image, structure=None):
-- 
2.43.0


From 588a8a7a47077bd0175e407c6a9299140f585227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:24 +0000
Subject: [PATCH 135/156] fix: watershed_bsd left out regions that lie within
 the outermost cells of the box

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index d188061..6ea9527 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -558,7 +558,7 @@ def _watershed(image, h=None, threshold_rel=None, footprint=None, verbose=True):
 	if h is not None: distance1 = h_transform(distance, h, verbose=verbose)
 	if footprint is None: footprint = np.ones((3, 3)) if image.ndim==2 else np.ones((3,3,3))
 	if verbose: print('Finding watersheds...')
-	coords = peak_local_max(distance if h is None else distance1, footprint=footprint, labels=image, threshold_rel=threshold_rel)
+	coords = peak_local_max(distance if h is None else distance1, footprint=footprint, labels=image, threshold_rel=threshold_rel, exclude_border=False)
 	mask = np.zeros(distance.shape, dtype=bool)
 	mask[tuple(coords.T)] = True
 	markers, _ = ndimage.label(mask)
-- 
2.43.0


From 38156534a5f86ff811dc1e7ae1417fc3c33d022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 136/156] fix: luminosity_distance returned an array for a
 scalar redshift without dark energy

---
 src/tools21cm/cosmo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 92ad4ba..93391a6 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -112,7 +112,7 @@ def luminosity_distance(z, k=0):
     if const.lam == 0:
         denom = np.sqrt(1+2*const.q0*z) + 1 + const.q0*z 
         dlum = (const.c*z/const.H0)*(1 + z*(1-const.q0)/denom)
-        return dlum
+        return outputify(dlum)
     else:
         dlum = np.zeros(n)
         for i in range(n):
-- 
2.43.0


From 64d8aeba7769f9ff812fb7e4dc8876f15e042059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 137/156] fix: step_cell interpolation crashed between equal
 slices and switched at the wrong redshifts when values do not start at 0

---
 src/tools21cm/lightcone.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 2e722fa..4d66199 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -489,12 +489,15 @@ def _get_step_transitions(cell_dist, diff_idx):
     #Replace each value in cell_dist with the number of cells 
     #with a lower value. Then normalize to be between 0 and 1
     values_flat = cell_dist[diff_idx].flatten()
+    if len(values_flat) == 0:
+        return np.zeros_like(cell_dist)
     values_sorted = sorted(values_flat+np.random.random(len(values_flat))*1.e-9)
     values_uniform = np.linspace(values_sorted[0], values_sorted[-1], len(values_sorted))
-    f = scipy.interpolate.interp1d(values_sorted, values_uniform, bounds_error=False, fill_value=0.)
+    f = scipy.interpolate.interp1d(values_sorted, values_uniform, bounds_error=False, fill_value=(values_uniform[0], values_uniform[-1]))
     output_values = f(cell_dist)
     output_values -= output_values.min()
-    output_values /= output_values.max()
+    if output_values.max() > 0:
+        output_values /= output_values.max()
     return output_values
 
 
-- 
2.43.0


From 58b0f72afc14222b96e20b224f51bcffc5f5ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:35 +0000
Subject: [PATCH 138/156] fix: slic_cube took the last axis of a cube for
 colours and labelled a plane only

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index fb95bbf..b4c4d1e 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -25,7 +25,7 @@ def slic_cube(cube, n_segments=5000, compactness=0.1,
 	except: 
 		labels = slic(cube, n_segments=n_segments, compactness=compactness, 
 					  max_num_iter=max_iter, sigma=sigma, max_size_factor=max_size_factor, 
-					  slic_zero=True, start_label=0)
+					  slic_zero=True, start_label=0, channel_axis=-1 if multichannel else None)
 	if verbose: print("The output contains the labels with %d segments"%(labels.max()+1))
 	return labels
 
-- 
2.43.0


From 19260e714661c5a67303e5039b39c15fa4dac26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 139/156] fix: stitch_using_histogram crashed when most
 superpixels lie in the lowest bin

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index b4c4d1e..e2619bd 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -81,7 +81,7 @@ def stitch_using_histogram(data, mns, labels, bins='knuth', binary=True, on_supe
 	ht  = histogram(mns, bins=bins)
 	if ht[0].argmax()==0: peaks = argrelextrema(np.hstack((0,ht[0])), np.greater)[0]
 	else: peaks = argrelextrema(ht[0], np.greater)[0]
-	if peaks.size==1:
+	if peaks.size==1 and ht[0].argmax()>0:
 		x1,y1 = ht[1][0], ht[0][0]
 		y0 = ht[0].max()
 		bla = ht[0].argmax()
-- 
2.43.0


From 7a3ee834fc66b5852c83801f0e990cc6ec03070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 140/156] fix: FoV_cMpc2 takes a field of view without units in
 square degrees, as documented

---
 src/tools21cm/astro_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index 84d8e1e..a2c983e 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -30,7 +30,7 @@ def FoV_cMpc2(FoV, redshift, cosmo=None):
     if cosmo is None:
         cosmo = Planck18
         print('Assuming Planck 2018 cosmology.')
-    if isinstance(FoV,(int,float)): FoV *= units.rad**2
+    if not isinstance(FoV, units.Quantity): FoV = FoV*units.deg**2
     D = cosmo.comoving_distance(redshift)
     FoV_cMpc2 = FoV.to('rad2').value * D**2
     return FoV_cMpc2
-- 
2.43.0


From 2a8306ccdc8f2b320841cc2cf9efdfcfeb24b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:07 +0000
Subject: [PATCH 141/156] fix: magnitude conversions crashed in Muv_to_muv and
 Muv_to_L1500 and on arrays

---
 src/tools21cm/astro_tools.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index a2c983e..75a0d55 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -55,7 +55,7 @@ def mag_to_flux(mag):
     The conversion assumes the AB magnitude system, where the zero point corresponds to a flux
     of 3631 Jy (Jansky).
     '''
-    if isinstance(mag, (int,float)): mag *= units.mag
+    if not isinstance(mag, units.Quantity): mag = mag*units.mag
     flux = 10**(-(mag.to('mag').value + 48.60)/2.5) * units.erg/units.s/units.cm**2/units.Hz
     return flux
 
@@ -87,9 +87,9 @@ def Muv_to_muv(Muv, z, cosmo=None):
     if cosmo is None:
         cosmo = Planck18
         print('Assuming Planck 2018 cosmology.')
-    if isinstance(Muv, (int,float)): Muv *= units.mag
-    Kcorrection = 2.5 * np.log10(1 + z) 
-    m_uv = Muv + cosmo.distmod(z).value - Kcorrection
+    if not isinstance(Muv, units.Quantity): Muv = Muv*units.mag
+    Kcorrection = 2.5 * np.log10(1 + z) * units.mag
+    m_uv = Muv + cosmo.distmod(z) - Kcorrection
     return m_uv
 
 
@@ -120,7 +120,7 @@ def muv_to_Muv(muv, z, cosmo=None):
     if cosmo is None:
         cosmo = Planck18
         print('Assuming Planck 2018 cosmology.')
-    if isinstance(muv, (int,float)): muv *= units.mag
+    if not isinstance(muv, units.Quantity): muv = muv*units.mag
     Kcorrection = 2.5 * np.log10(1 + z) * units.mag
     Muv = muv - cosmo.distmod(z) + Kcorrection
     return Muv
@@ -145,7 +145,7 @@ def Muv_to_L1500(M_AB):
     This conversion is based on the AB magnitude system, where a magnitude of M_AB = 34.1 corresponds 
     to a luminosity of 10^34.1 erg/s/Hz.
     '''
-    if isinstance(Muv, (int,float)): Muv *= units.mag
+    if not isinstance(M_AB, units.Quantity): M_AB = M_AB*units.mag
     SI2cgs = 1e7  # 1 W/Hz = 1e7 erg/s/Hz
     L1500 = SI2cgs * 10.**((34.1 - M_AB.to('mag').value)/2.5) * units.erg/units.s/units.Hz
     return L1500
-- 
2.43.0


From 9685a6b346f57f8403553e34c2929c17a7fc737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:15 +0000
Subject: [PATCH 142/156] fix: M_HI_on_grid decides on the units of the
 positions from the positions

---
 src/tools21cm/line_intensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/line_intensity.py b/src/tools21cm/line_intensity.py
index 0960084..dd3e648 100755
--- a/src/tools21cm/line_intensity.py
+++ b/src/tools21cm/line_intensity.py
@@ -49,7 +49,7 @@ def M_HI_on_grid(z, mass, pos_xyz, box_dim, n_grid, cosmo=None,
     else:
         print('The provided halo mass is assumed to be in Msun units.')
         mhalo = mass*units.Msun
-    if isinstance(mass, units.quantity.Quantity):
+    if isinstance(pos_xyz, units.quantity.Quantity):
         srcpos = pos_xyz.to('Mpc')
     else:
         print('The provided halo mass is assumed to be in Mpc units.')
-- 
2.43.0


From 34d9d8a01c73977c745935d7f6aec8cdbcecf1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:24 +0000
Subject: [PATCH 143/156] fix: halo_mass_to_particle_number returns the number
 of particles, not a mass

---
 src/tools21cm/nbody_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_tools.py b/src/tools21cm/nbody_tools.py
index accddf3..1f20242 100755
--- a/src/tools21cm/nbody_tools.py
+++ b/src/tools21cm/nbody_tools.py
@@ -38,7 +38,7 @@ def ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo='Planck18'):
 
 def halo_mass_to_particle_number(Lbox, halo_mass, particles_in_halo, cosmo='Planck18'):
     particle_mass = halo_mass/particles_in_halo
-    return particle_number_to_particle_mass(Lbox, particle_mass, cosmo=cosmo)
+    return ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo=cosmo)
 
 def particle_number_to_particle_mass(Lbox, particle_each_direction=None, particle_total=None, cosmo='Planck18'):
     particle_number = particle_each_direction if particle_each_direction is not None else np.cbrt(particle_total)
-- 
2.43.0


From e5d5ea711bd00a0be71a79b5e702ced49ce79925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:48 +0000
Subject: [PATCH 144/156] fix: Lyman-alpha Doppler width lacked the factor
 sqrt(2) its cross-section and damping assume

---
 src/tools21cm/lyman_alpha_transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 5b4dedd..0ee9ac2 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -128,7 +128,7 @@ def lyA_scattering_cross_section(nu, Tk):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
@@ -255,7 +255,7 @@ def tau_nu_lyA(z, xHI, Tk, dr, nu=2.46e15*units.Hz, X_H=0.76, cosmo=None):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
-- 
2.43.0


From fd6b06c4ef8db3e4e8bb00b768bbb6dcae6e6da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 145/156] fix: Lyman-alpha functions crashed on arrays of
 temperatures without units

---
 src/tools21cm/lyman_alpha_transmission.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 0ee9ac2..3b7ad57 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -123,7 +123,7 @@ def lyA_scattering_cross_section(nu, Tk):
         Tk4 = Tk.to('K').value/1e4
     else:
         Tk4 = Tk/1e4
-        Tk *= units.K
+        Tk = Tk*units.K
     sigmaA0 = 5.9e-14/np.sqrt(Tk4)*units.cm**2 #2004.13065
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
@@ -245,12 +245,12 @@ def tau_nu_lyA(z, xHI, Tk, dr, nu=2.46e15*units.Hz, X_H=0.76, cosmo=None):
         cosmo = Planck18
 
     if not isinstance(dr, units.quantity.Quantity):
-        dr *= units.Mpc
+        dr = dr*units.Mpc
     if isinstance(Tk, units.quantity.Quantity):
         Tk4 = Tk.to('K').value/1e4
     else:
         Tk4 = Tk/1e4
-        Tk *= units.K
+        Tk = Tk*units.K
     sigmaA0 = 5.9e-14/np.sqrt(Tk4)*units.cm**2 #2004.13065
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
-- 
2.43.0


From 225e93b4f6bd22020f12278213eb87f261b13087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:05 +0000
Subject: [PATCH 146/156] fix: tau_nu_lyA ignored the redshift of the comoving
 path and mean density

---
 src/tools21cm/lyman_alpha_transmission.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 3b7ad57..1e928bf 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -262,7 +262,8 @@ def tau_nu_lyA(z, xHI, Tk, dr, nu=2.46e15*units.Hz, X_H=0.76, cosmo=None):
     nH = (X_H*cosmo.Ob0*cosmo.critical_density0/constants.m_p).to('1/cm^3')
     nHI = xHI*nH
     H_xa = approximation_voigt_faddeeva(x_nu, a_nu)
-    tau_nu = 1.820e5*H_xa/np.sqrt(Tk4)*nHI.to('1/cm^3').value*dr.to('pc').value
+    # proper density and path length at the redshift
+    tau_nu = 1.820e5*H_xa/np.sqrt(Tk4)*nHI.to('1/cm^3').value*(1+z)**3*dr.to('pc').value/(1+z)
     return tau_nu
 
 def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, method='FGPA', X_H=0.76, cosmo=None, **kwargs):
-- 
2.43.0


From 950c60f599184246b08e79f621b5c15c8e3fbc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:13 +0000
Subject: [PATCH 147/156] fix: tau_nu_lyA_los mixed up axes for other lines of
 sight and could not use method smith2015

---
 src/tools21cm/lyman_alpha_transmission.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 1e928bf..e62cbc9 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -307,12 +307,13 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
 
     if los_axis!=2:
         xHI = np.swapaxes(xHI,los_axis,2)
+        dn  = np.swapaxes(dn,los_axis,2)
     
     if not isinstance(los_len, units.quantity.Quantity):
         print(f'As a unitless los_len was provided, it is assumed to be number of grids')
         los_cells = los_len
     else:
-        los_cells = int(np.round(los_len*(xHI.shape[0]/box_len)))
+        los_cells = int(np.round(los_len*(xHI.shape[2]/box_len)))
 
     if dn.min()>1:
         dn = dn/dn.mean()-1
@@ -321,9 +322,9 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         Tk = kwargs.get('Tk')
         dr = kwargs.get('dr')
         nu = kwargs.get('nu', 2.46e15*units.Hz)
-        if los_axis!=2: 
+        if los_axis!=2 and np.ndim(Tk)==3: 
             Tk = np.swapaxes(Tk,los_axis,2)
-        tauA = tau_nu_lyA_Smith2015(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
+        tauA = tau_nu_lyA(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
     elif method.lower()=='fgpa':
         f_alpha = kwargs.get('f_alpha', 0.416)
         lambda_alpha = kwargs.get('lambda_alpha', 1216.0*units.Angstrom)
@@ -335,4 +336,6 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
     exp_tauA_los = np.array([exp_tauA_padded[:,:,i:i+los_cells].sum(axis=2).T/los_cells for i in tqdm(range(tauA.shape[2]))])
     tauA_los = -np.log(exp_tauA_los)
     tauA_los = np.swapaxes(tauA_los,0,2)
+    if los_axis!=2:
+        tauA_los = np.swapaxes(tauA_los,los_axis,2)
     return tauA_los
-- 
2.43.0


From e08194b5eb48f93175b775591911731368b409a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 148/156] fix: tau_nu_lyA_los rounded its window before
 converting the units of los_len

---
 src/tools21cm/lyman_alpha_transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index e62cbc9..e739932 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -313,7 +313,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         print(f'As a unitless los_len was provided, it is assumed to be number of grids')
         los_cells = los_len
     else:
-        los_cells = int(np.round(los_len*(xHI.shape[2]/box_len)))
+        los_cells = int(np.round((los_len*(xHI.shape[2]/box_len)).to('').value))
 
     if dn.min()>1:
         dn = dn/dn.mean()-1
-- 
2.43.0


From a38a42e5422af38f2694c88581fa1be4902610e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:24 +0000
Subject: [PATCH 149/156] fix: gridding haloes crashed when the box length or
 the positions carry units

---
 src/tools21cm/nbody_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 071b0ae..01dde47 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -195,7 +195,7 @@ def read_pkdgrav_density_grid(filename, box_dim, nGrid=None):
 
 class Halo2Grid:
 	def __init__(self, box_len, n_grid, method='nearest'):
-		self.box_len = box_len
+		self.box_len = box_len.to('Mpc').value if isinstance(box_len, astropy.units.quantity.Quantity) else box_len
 		self.n_grid  = n_grid
 
 		self.mpc_to_cm = 3.085677581491367e+24 # in cm
@@ -223,6 +223,7 @@ class Halo2Grid:
 			print('Unknown mass units')
 
 	def pos_cm_to_grid(self, pos_cm):
+		if isinstance(pos_cm, astropy.units.quantity.Quantity): pos_cm = pos_cm.to('cm').value
 		pos_mpc  = pos_cm/self.mpc_to_cm
 		pos_grid = pos_mpc*self.n_grid/self.box_len
 		self.pos_grid = pos_grid
@@ -230,6 +231,7 @@ class Halo2Grid:
 		return pos_grid
 
 	def pos_mpc_to_grid(self, pos_mpc):
+		if isinstance(pos_mpc, astropy.units.quantity.Quantity): pos_mpc = pos_mpc.to('Mpc').value
 		pos_grid = pos_mpc*self.n_grid/self.box_len
 		self.pos_grid = pos_grid
 		print('Halo positions converted from Mpc to grid units')
-- 
2.43.0


From e41295fc287cfd7d505df4546ffedee3c6e49783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:06 +0000
Subject: [PATCH 150/156] fix: print_chain_stats normalised the caller's
 weights in place and refused whole-number weights

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 9b96958..efabc66 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -143,7 +143,7 @@ def print_chain_stats(samples_dict, weights_dict, param_names):
     for name, samples in samples_dict.items():
         weights = weights_dict[name] if weights_dict else np.ones(len(samples))
         # Normalize weights
-        weights /= np.sum(weights)
+        weights = weights/np.sum(weights)
         
         for i, p_name in enumerate(param_names):
             data = samples[:, i]
-- 
2.43.0


From 92a54cb2dbbac70e536cab887235dadcb30cce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:13 +0000
Subject: [PATCH 151/156] fix: distributions of a single parameter crashed

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index efabc66..9531243 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -326,7 +326,7 @@ class DistributionDiagnostic(ABC):
         num_params = points.shape[1]
 
         means = np.average(points, axis=0, weights=weights_norm)
-        cov = np.cov(points.T, aweights=weights_norm)
+        cov = np.atleast_2d(np.cov(points.T, aweights=weights_norm))
         sigmas = np.sqrt(np.diag(cov))
 
         cis = []
-- 
2.43.0


From b2f08f2b16f9adea0476ead5e5a9602438b57182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:20 +0000
Subject: [PATCH 152/156] fix: plot_hist ignored the bins it was given

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 9531243..3e1119a 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -118,7 +118,7 @@ def plot_hist(data, logscale = False, **kwargs):
     #Fix bins
     if datatype == 'xfrac' and not 'bins' in kwargs.keys():
         kwargs['bins'] = np.linspace(0,1,30)
-    else: 
+    elif not 'bins' in kwargs.keys():
         kwargs['bins'] = 30
         
     #Plot
-- 
2.43.0


From 044e125c24767865123b9fab9e810583ced88ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:28 +0000
Subject: [PATCH 153/156] fix: plot_forest crashed on true values given as an
 array

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 3e1119a..f089abd 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -500,7 +500,7 @@ class DistributionDiagnostic(ABC):
                 ax.errorbar(ci['median'], i, xerr=[[ci['median'] - ci['lo1']], [ci['hi1'] - ci['median']]],
                             fmt='o', color=color, lw=3)
 
-            if self.true_values and p < len(self.true_values):
+            if self.true_values is not None and p < len(self.true_values):
                 ax.axvline(self.true_values[p], color='gray', ls='--', alpha=0.6)
             ax.set_xlabel(f'${labels[p]}$')
             if p == 0:
-- 
2.43.0


From ea87c88e8bb756ca33beffd0a17d780d093e9150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 154/156] fix: plots of densities could not be drawn because of
 their axis label

---
 src/tools21cm/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index f089abd..83b810f 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -87,9 +87,9 @@ def plot_slice(data, los_axis = 0, slice_num = 0, logscale = False, **kwargs):
         pl.title('Ionized fraction, %s' % z_str)
     elif datatype == 'density':
         if (logscale):
-            cbar.set_label(r'$\log_{10} \\rho \; \mathrm{[g \; cm^{-3}]}$')
+            cbar.set_label(r'$\log_{10} \rho \; \mathrm{[g \; cm^{-3}]}$')
         else:
-            cbar.set_label(r'$\\rho \; \mathrm{[g \; cm^{-3}]}$')
+            cbar.set_label(r'$\rho \; \mathrm{[g \; cm^{-3}]}$')
         pl.title('Density, %s' % z_str)
         
 def plot_hist(data, logscale = False, **kwargs):
@@ -133,7 +133,7 @@ def plot_hist(data, logscale = False, **kwargs):
     if datatype == 'xfrac':
         pl.xlabel('$x_i$')
     elif datatype == 'density':
-        pl.xlabel(r'$\\rho \; \mathrm{[g \; cm^{-3}]}$')
+        pl.xlabel(r'$\rho \; \mathrm{[g \; cm^{-3}]}$')
 
 def print_chain_stats(samples_dict, weights_dict, param_names):
     """Calculates and prints Mean +/- 1-sigma for each chain."""
-- 
2.43.0


From c6809fc6e7482cfd7e20c29befb0965d1c327193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:38 +0000
Subject: [PATCH 155/156] fix: get_kbins crashed when given the wavenumbers
 instead of the array

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index c2254d6..8bf24c7 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -442,7 +442,7 @@ def get_k(input_array, box_dims):
         
 def get_kbins(kbins, box_dims, k=None, array=None, binning='log'):
         assert k is not None or array is not None
-        box_dims = _get_dims(box_dims, array.shape)
+        box_dims = _get_dims(box_dims, (array if array is not None else k).shape)
         if k is None: k_comp, k = _get_k(array, box_dims)
         return _get_kbins(kbins, box_dims, k, binning=binning)
 
-- 
2.43.0


From c882eb9366c49ab28098dcdf388dd253295d90b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:47 +0000
Subject: [PATCH 156/156] fix: dimensionless_ps crashed when its largest
 wavenumber was rounded up

---
 src/tools21cm/power_spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 8bf24c7..c452a9d 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -560,6 +560,7 @@ def dimensionless_ps(data, kbins=100, box_dims=None, binning='log', factor=10):
         Pk, ks = power_spectrum_1d(data, kbins=kbins*factor, box_dims=box_dims, binning=binning)
         f_Dlta = interp1d(ks, Pk*ks**3/2/np.pi**2)
         knew   = 10**np.linspace(np.log10(ks[1]),np.log10(ks[-1]), kbins) if binning=='log' else np.linspace(ks[1],ks[-1], kbins)
+        knew   = np.clip(knew, ks[1], ks[-1]) # the end points may be rounded out of range
         return f_Dlta(knew), knew
 
 def _get_nonzero_idx(ps_shape, los_axis):
-- 
2.43.0

