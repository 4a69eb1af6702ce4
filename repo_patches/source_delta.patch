From 5ef37fb0d11d0d7332050a82a84480930a01e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 01/50] fix: inv_cut_v with niv_shell=-1 takes the whole range
 outside the core

---
 src/dga/matsubara_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index c541b65..c1707d1 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -165,7 +165,7 @@ def inv_cut_v_1d(arr=None, niv_core=0, niv_shell=-1):
     '''
     assert np.size(np.shape(arr)) == 1, 'Array is not 1D.'
     niv = arr.shape[0] // 2
-    if niv_shell == -1: niv_shell = niv
+    if niv_shell == -1: niv_shell = niv - niv_core
     return np.concatenate((arr[niv - niv_shell - niv_core:niv - niv_core], arr[niv + niv_core:niv + niv_core + niv_shell]))
 
 
-- 
2.43.0


From ccf661f5dd6d0b8ac93bc2d4f8482ce36af09348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 02/50] fix: add_bosonic adds along the requested axis

---
 src/dga/matsubara_frequencies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index c1707d1..3b089a8 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -239,12 +239,12 @@ def add_bosonic(mat1, mat2, axis=0):
     if niw_2 <= niw_1:
         result = np.copy(mat1)
         nl, nu = niw_1 - niw_2, niw_1 + niw_2 + 1
-        result[nl:nu] += mat2
+        np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat2, axis, 0)
         return result
     else:
         result = np.copy(mat2)
         nl, nu = niw_2 - niw_1, niw_2 + niw_1 + 1
-        result[nl:nu] += mat1
+        np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat1, axis, 0)
         return result
 
 
-- 
2.43.0


From d37c5940a4b45eae723dc22b9eb038eedc2c2a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 03/50] fix: ph2pp_wc keeps the bosonic range inside the
 fermionic box

---
 src/dga/matsubara_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index 3b089a8..16fa21d 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -419,7 +419,7 @@ def ph2pp_wc(mat_ph):
         Transform from (iw,v,vp, ss') to (v-v',v,w-v', bar(ss')) notation
     '''
     assert len(np.shape(mat_ph)) >= 3, 'Input does not have more than or equal three dimensions as required.'
-    niw_pp = mat_ph.shape[-3] // 4
+    niw_pp = min(mat_ph.shape[-3], mat_ph.shape[-1]) // 4  # w-v' has to stay inside the fermionic box
     w = wn(niw_pp)
     return np.array([ph2pp_iwn_wc(mat_ph=mat_ph, iwn_pp=iwn) for iwn in w])
 
-- 
2.43.0


From 724d68b0104c55f8121d82ce2e19c2ce9635dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 04/50] fix: KGrid.symmetrize_irrk averages over the points of
 each irreducible class

---
 src/dga/brillouin_zone.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index d6024a1..976373b 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -296,11 +296,10 @@ class KGrid():
 
     def symmetrize_irrk(self, mat):
         '''Shape of mat has to be [kx,ky,kz,...]'''
-        mat_reshape = np.reshape(mat, (self.nk_tot, -1))
-        shp = np.shape(mat_reshape)
-        reduced = np.zeros((self.nk_irr,) + shp[1:], dtype=mat_reshape.dtype)
+        mat_reshape = np.reshape(mat, (self.nk_tot, *np.shape(mat)[3:]))
+        reduced = np.zeros((self.nk_irr, *np.shape(mat)[3:]), dtype=mat_reshape.dtype)
         for i in range(self.nk_irr):
-            reduced[i, ...] = np.mean(mat_reshape[self.fbz2irrk == self.irrk_ind[i], ...], axis=0)
+            reduced[i, ...] = np.mean(mat_reshape[np.ravel(self.irrk_inv) == i, ...], axis=0)
         return self.map_irrk2fbz(mat=reduced)
 
     def shift_mat_by_pi(self, mat, axes=(0, 1, 2)):
-- 
2.43.0


From 91a76385d84a304d9fb20151453e9a5adaf11d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 05/50] fix: KPath takes ky and kz values from their own axes

---
 src/dga/brillouin_zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 976373b..048ec07 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -377,7 +377,7 @@ class KPath():
         self.k_points = self.get_kpoints()
 
     def get_kpath_val(self):
-        k = [self.kx[self.kpts[:, 0]], self.kx[self.kpts[:, 1]], self.kx[self.kpts[:, 2]]]
+        k = [self.kx[self.kpts[:, 0]], self.ky[self.kpts[:, 1]], self.kz[self.kpts[:, 2]]]
         return k
 
     def set_kgrid(self, k_in, nk):
-- 
2.43.0


From 3ab12c5aae720a9f7cd21e0309a330fc02e34bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 06/50] fix: asymptotic bubble sum sizes its frequency window
 by the largest bosonic frequency

---
 src/dga/bubble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 97482d6..05a78d6 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -266,7 +266,7 @@ class BubbleGenerator():
         if freq_notation is None:
             freq_notation = self.freq_notation
         chi0_asympt_sum = np.zeros((len(q_list), self.niw), dtype=complex)
-        v = 1 / (1j * mf.vn(self.beta, niv_sum + self.niw))
+        v = 1 / (1j * mf.vn(self.beta, niv_sum + np.max(np.abs(self.wn))))
         niv = v.size // 2
         fac1, fac2, fac3 = self.get_asympt_prefactors_q(q_list)
         for i, iwn in enumerate(self.wn):
-- 
2.43.0


From 9e4919972923bc88b2339fa576b626c0a0fe1889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 07/50] fix: full-range bubbles in center notation are computed
 directly, their odd frequencies have no mirror symmetry

---
 src/dga/bubble.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 05a78d6..5de1607 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -14,6 +14,11 @@ from dga import two_point as twop
 KNOWN_CHI0_METHODS = ['sum']
 
 
+def has_wn_symmetry(freq_notation):
+    ''' gchi_0[-w,v] = conj(gchi_0[w,-v]) does not hold for odd w in the center notation, as its shifts are not symmetric. '''
+    return freq_notation != 'center'
+
+
 def get_gchi0(giw, beta, niv, iwn, freq_notation='minus'):
     '''
         gchi_0[w,v]:1/eV^3 = - beta:1/eV G(v):1/eV * G(v-w):1/eV for minus
@@ -24,7 +29,7 @@ def get_gchi0(giw, beta, niv, iwn, freq_notation='minus'):
 
 
 def vec_get_gchi0(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
-    if is_full_wn:
+    if is_full_wn and has_wn_symmetry(freq_notation):
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         gchi0 = np.array([get_gchi0(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
         return mf.bosonic_full_nu_range(gchi0, axis=0, freq_axes=(0, 1))
@@ -45,6 +50,7 @@ def get_gchi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_gchi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = is_full_wn and has_wn_symmetry(freq_notation)
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     gchi0_q = np.zeros((len(q_list), len(wn_bub), niv * 2), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -65,6 +71,7 @@ def get_chi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_chi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = is_full_wn and has_wn_symmetry(freq_notation)
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     chi0_q = np.zeros((len(q_list), len(wn_bub)), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -80,7 +87,7 @@ def get_chi0_sum(giw, beta, niv, iwn=0, freq_notation='minus'):
 
 
 def vec_get_chi0_sum(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
-    if is_full_wn:
+    if is_full_wn and has_wn_symmetry(freq_notation):
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         chi0 = np.array([get_chi0_sum(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
         return mf.bosonic_full_nu_range(chi0)
-- 
2.43.0


From 963b0b017dfc52d87c3f553d4df9a72ffcc7198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 08/50] fix: get_vrg_and_chir_tilde_from_chir_uasympt passed u
 as the summation axis of the three-leg vertex

---
 src/dga/local_four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/local_four_point.py b/src/dga/local_four_point.py
index 8e47124..c7077ea 100644
--- a/src/dga/local_four_point.py
+++ b/src/dga/local_four_point.py
@@ -451,7 +451,7 @@ def get_vrg_and_chir_tilde_from_chir_uasympt(chir: LocalFourPoint, gchi0_gen: bu
     chi_asympt = chi_phys_asympt(chi_urange, chi0_urange, chi0_asympt)
 
     # Compute the fermion-boson vertex:
-    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt, u)
+    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt)
 
     return vrg, chi_asympt
 
-- 
2.43.0


From c788533379ee7d8ebb1022e972bf6e8b736574aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 09/50] fix: get_gap_start mirrors the positive frequencies, so
 random starting gaps are even/odd in frequency as requested

---
 src/dga/eliashberg_equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/eliashberg_equation.py b/src/dga/eliashberg_equation.py
index 5375fc4..dd8a6c1 100644
--- a/src/dga/eliashberg_equation.py
+++ b/src/dga/eliashberg_equation.py
@@ -131,9 +131,9 @@ def get_gap_start(shape=None, k_type=None, v_type=None, k_grid=None):
         gap0 = np.random.random_sample(shape)
 
     if v_type == 'even':
-        gap0[..., :niv] = gap0[..., niv:]
+        gap0[..., :niv] = np.flip(gap0[..., niv:], axis=-1)
     elif v_type == 'odd':
-        gap0[..., :niv] = -gap0[..., niv:]
+        gap0[..., :niv] = -np.flip(gap0[..., niv:], axis=-1)
     else:
         gap0 = np.random.random_sample(shape)
 
-- 
2.43.0


From e3790fa172adc822a559b0274447319a0c0b047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 10/50] fix: the power iteration compares at least two
 eigenvalue estimates before it stops

---
 src/dga/eliashberg_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/eliashberg_equation.py b/src/dga/eliashberg_equation.py
index dd8a6c1..6882b05 100644
--- a/src/dga/eliashberg_equation.py
+++ b/src/dga/eliashberg_equation.py
@@ -58,7 +58,7 @@ class EliashberPowerIteration():
             gap_old = self.gap0_s
         else:
             gap_old = self.gap0  # always initialize with the same starting point
-        lambda_old = 1  # Randomly start with
+        lambda_old = np.inf  # at least two iterations are compared
         converged = False
         count = 0
         while not converged:
-- 
2.43.0


From 085564d57a4594cb04090c88f4cbea72574689fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 11/50] fix: the rank-file loaders keep the sign of the bosonic
 frequency in the group name

---
 src/dga/four_point.py | 4 ++--
 src/dga/optics.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 5704a1a..91c4546 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -326,8 +326,8 @@ def load_vertex_from_rank_files(output_path, name, mpi_size, nq, niw, niv):
             keys = (key for key in file_in.keys() if key.startswith('fq_'))  # the group is still hard-coded!
             for key1 in keys:
                 # extract the q indizes from the group name!
-                irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw
+                irrq = np.array(re.findall(r'-?\d+', key1), dtype=int)[0]
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
diff --git a/src/dga/optics.py b/src/dga/optics.py
index 425876f..f3db645 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -253,8 +253,8 @@ def load_optics_vertex_from_rank_files(output_path, name, mpi_size, nq, optics_c
             keys = (key for key in file_in.keys() if key.startswith('f_'))  # the group is still hard-coded!
             for key1 in keys:
                 # extract the q indizes from the group name!
-                irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw_vert
+                irrq = np.array(re.findall(r'-?\d+', key1), dtype=int)[0]
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw_vert
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
-- 
2.43.0


From a276c34347a23b2a8b73b0fcf8963ec16c4f85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 12/50] fix: update_mu brackets the root when the Newton search
 fails instead of silently keeping the starting value

---
 src/dga/two_point.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 38ce0b9..d00db85 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -299,8 +299,8 @@ def update_mu(mu0=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0
         mu = opt.newton(root_fun, mu, tol=tol,
                         args=(target_filling, iv, hk, siwk, beta, smom0, hloc))
     except RuntimeError:
-        if verbose: print('Root finding for chemical potential failed.')
-        if verbose: print('Using old chemical potential again.')
+        if verbose: print('Newton search for chemical potential failed. Bracketing the root instead.')
+        mu = find_mu_bracketed(mu0, tol, args=(target_filling, iv, hk, siwk, beta, smom0, hloc))
     if np.abs(mu.imag) < 1e-8:
         mu = mu.real
     else:
@@ -308,6 +308,15 @@ def update_mu(mu0=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0
     return mu
 
 
+def find_mu_bracketed(mu0, tol, args):
+    """Find the root of root_fun, which increases with mu, by bracketing it symmetrically around mu0."""
+    width = 1.0
+    while root_fun(mu0 - width, *args) > 0 or root_fun(mu0 + width, *args) < 0:
+        width *= 2
+        if width > 1e6: raise ValueError('In OneParticle.update_mu: No chemical potential yields the target filling.')
+    return opt.brentq(root_fun, mu0 - width, mu0 + width, xtol=tol, args=args)
+
+
 # ==================================================================================================================
 
 def build_g(v, ek, mu, sigma):
-- 
2.43.0


From d77228649fb961a41ce3418bbe7c5d6d98bac684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 13/50] fix: create_orbs fills the orbital indices of every
 lattice vector

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 49b7a48..7fb4038 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -70,7 +70,7 @@ def create_orbs(n_rp, n_orbs):
     orbs = np.zeros((n_rp, n_orbs, n_orbs, 2))
     for io1 in range(n_orbs):
         for io2 in range(n_orbs):
-            orbs[io1, io2, :] = np.array([io1 + 1, io2 + 1])
+            orbs[:, io1, io2, :] = np.array([io1 + 1, io2 + 1])
     return orbs
 
 
-- 
2.43.0


From f62248003c64f485e6a781400949bc9bf82d1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 14/50] fix: read_hk_w2k keeps the k-point and band axes of
 one-band and single-point Hamiltonians

---
 src/dga/wannier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 7fb4038..98c913a 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -444,7 +444,9 @@ def read_hk_w2k(fname, spin_sym=True):
     hk = hk.transpose(0, 2, 1, 4, 3)
     hk_file.close()
 
-    hk = np.squeeze(hk)
+    # without spin-orbit coupling the result is (nkpoints, nbands, nbands), also for a single band or k-point
+    if not spin_orbit:
+        hk = hk[:, :, 0, :, 0]
 
     return hk, kpoints.T
 
-- 
2.43.0


From 944b08a342e1d2dd43c51a3ac82cc78950bc51ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 15/50] fix: reading Hamiltonian files with a VERSION header
 (np.int no longer exists)

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 98c913a..e97310c 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -398,7 +398,7 @@ def read_hk_w2k(fname, spin_sym=True):
     if header[0] == 'VERSION':
         warn('Version 2 headers are obsolete (specify in input file!)')
         nkpoints, natoms = map(int, nextline())
-        lines = np.array([nextline() for _ in range(natoms)], np.int)
+        lines = np.array([nextline() for _ in range(natoms)], int)
         nbands = np.sum(lines[:, :2])
         del lines, natoms
     elif len(header) != 3:
-- 
2.43.0


From e68bbd8d4b17ed38f0620c06687377c54efe6de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 16/50] fix: write_hk_wannier90 writes real Hamiltonians with
 real and imaginary parts

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index e97310c..bea54c9 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -515,7 +515,7 @@ def write_hk_wannier90(hk, fname, kmesh, nk):
     print(np.prod(nk), n_orb, n_orb, file=f)
     for ik in range(np.prod(nk)):
         print(kmesh[0, ik], kmesh[1, ik], kmesh[2, ik], file=f)
-        hk_slice = np.copy(hk[ik, ...])
+        hk_slice = np.array(hk[ik, ...], dtype=complex)
         np.savetxt(f, hk_slice.view(float), fmt='%.12f', delimiter=' ', newline='\n', header='', footer='', comments='#')
 
     f.close()
-- 
2.43.0


From c7b1ffbc4d99d17d1d19e1ed4e74935e625cbd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 17/50] fix: niv_asympt is not inferred from core ranges that
 are still to be read from the vertex

---
 src/dga/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 5179e25..7fa2462 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -168,7 +168,8 @@ class BoxSizes(ConfigBase):
         if (config_dict is not None):
             self.update_dict(**config_dict)  # forwards parameters from config
 
-        if (self.niv_asympt == -1):
+        # only infer it here if the core ranges are known, otherwise wait for set_from_lfp:
+        if (self.niv_asympt == -1 and self.niv_core != -1 and self.niw_core != -1):
             self.niv_asympt = self.niv_full + self.niw_core * 2
 
     @property
-- 
2.43.0


From d80f9ffc82634bf84b026440f876259a7912f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 18/50] fix: accept the documented list of lattice symmetries
 in the config and reject unknown entries

---
 src/dga/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 7fa2462..44de57a 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -254,10 +254,10 @@ class LatticeConfig(ConfigBase):
             pass
         elif (self.symmetries == 'none'):
             self.symmetries = ()
-        elif (isinstance(self.symmetries, tuple)):
+        elif (isinstance(self.symmetries, (tuple, list))):
             for sym in self.symmetries:
                 if (sym not in bz.KNOWN_SYMMETRIES):
-                    NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
+                    raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
         else:
             raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
 
-- 
2.43.0


From dbd39dd48fb6be6034758a8a07c7450bc3e072cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 19/50] fix: MaxEntConfig builds its frequency mesh from the
 configured type, range and size

---
 src/dga/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 44de57a..fa6fd77 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -338,14 +338,16 @@ class MaxEntConfig(OutputConfig):
         self.beta = beta  # Inverse Temperature
         self.alpha_det_method = 'chi2kink'  # alpha determination method
         self.optimizer = 'newton'  # alpha determination method
-        self.mesh_type = 'tan'  # mesh type
         self.n_fit = int(beta * 3 + 10)  # Number of frequencies used for the analytic continuation
         self.bw_fit_position = 10  # Fit position for estimating the optimal blur width
         self.bw_dga = [0.1, ]  # Blur width for DGA
 
         # Flags what continuation to perform:
         self.bw_range_loc = np.array([0.001, 0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.35, 0.5, 0.75, 1])
+        config_dict = dict(config_dict)
+        mesh_type = config_dict.pop('mesh_type', 'tan')
         self.update_dict(**config_dict)
+        self.mesh_type = mesh_type  # mesh type; builds the mesh, hence needs the final settings
 
     @property
     def mesh_type(self):
-- 
2.43.0


From 525c8045c1b85e303867fe1650cd8bec4028e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 20/50] fix: default niw_cond leaves at least one fermionic
 frequency for the vertex sum

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index fa6fd77..0750041 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -465,7 +465,7 @@ class OpticsConfig(OutputConfig):
                                                         'or equal to the number of frequencies available.'
 
         if (self.niw_cond == -1):
-            self.niw_cond = d_cfg.box.niw_core // 2
+            self.niw_cond = min(d_cfg.box.niw_core // 2, d_cfg.box.niv_core - 1)
         else:
             assert self.niw_cond < d_cfg.box.niv_core, 'Number of bosonic frequencies for the optical conductivity must be ' \
                                                        'smaller than the number of fermionic frequencies available.'
-- 
2.43.0


From ea2b13e1926576b496e4effe745846af5a1453e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 21/50] fix: uniquify appends the suffix to the folder name
 also if the path ends with a slash

---
 src/dga/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/util.py b/src/dga/util.py
index 47f2b33..6ceed24 100644
--- a/src/dga/util.py
+++ b/src/dga/util.py
@@ -15,10 +15,11 @@ def uniquify(path=None):
     path: path to be checked for uniqueness
     return: updated unique path
     '''
+    path = path.rstrip('/')  # the suffix belongs to the folder name
     filename, extension = os.path.splitext(path)
     counter = 1
 
-    while os.path.exists(path):
+    while os.path.lexists(path):
         path = filename + '_' + str(counter) + extension
         counter += 1
 
-- 
2.43.0


From a44dc2aa3d31cb92f2137a4fb77507b0dbf58152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 22/50] fix: two runs that start at the same time do not share
 an output folder

---
 src/dga/config.py | 10 ++--------
 src/dga/util.py   | 11 +++++++++++
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 0750041..548b810 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -121,16 +121,10 @@ class OutputConfig(ConfigBase):
         ''' comm is for mpi applications '''
         if (comm is not None):
             if (comm.rank == 0):
-                self.output_path = util.uniquify(base_name)
+                self.output_path = util.create_unique_folder(base_name)
             self.output_path = comm.bcast(self.output_path, root=0)
         else:
-            self.output_path = util.uniquify(base_name)
-
-        if (not os.path.exists(self.output_path)):
-            if (comm is not None):
-                if (comm.rank == 0): os.mkdir(self.output_path)
-            else:
-                os.mkdir(self.output_path)
+            self.output_path = util.create_unique_folder(base_name)
         return self.output_path
 
     def save_data(self, mat, name):
diff --git a/src/dga/util.py b/src/dga/util.py
index 6ceed24..ee9ecd6 100644
--- a/src/dga/util.py
+++ b/src/dga/util.py
@@ -24,3 +24,14 @@ def uniquify(path=None):
         counter += 1
 
     return path + '/'
+
+
+def create_unique_folder(path=None):
+    ''' Create the folder uniquify(path) and return its path; a folder that another run creates in the meantime is not used. '''
+    while True:
+        unique_path = uniquify(path)
+        try:
+            os.mkdir(unique_path)
+            return unique_path
+        except FileExistsError:
+            continue
-- 
2.43.0


From d223b318cd8f3ee9d480c5c087c9156b7e6fb2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 23/50] fix: all ranks agree on the folder for the polynomial
 fits

---
 src/dga/config.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 548b810..603b6db 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -623,15 +623,13 @@ class DgaConfig(OutputConfig):
     def create_poly_fit_folder(self):
         ''' Create the output folder for the polynomial fits. '''
         if (self.do_poly_fitting):
-            self.poly_fit_dir = self.output_path + '/PolyFits/'
-            self.poly_fit_dir = util.uniquify(self.poly_fit_dir)
-
-            # Create the folder
-            if (not os.path.exists(self.poly_fit_dir)):
-                if (self.comm is not None):
-                    if (self.comm.rank == 0): os.mkdir(self.poly_fit_dir)
-                else:
-                    os.mkdir(self.poly_fit_dir)
+            if (self.comm is None or self.comm.rank == 0):
+                self.poly_fit_dir = util.uniquify(self.output_path + '/PolyFits/')
+                if (not os.path.exists(self.poly_fit_dir)): os.mkdir(self.poly_fit_dir)
+
+            # all ranks use the folder of the root rank
+            if (self.comm is not None):
+                self.poly_fit_dir = self.comm.bcast(self.poly_fit_dir, root=0)
 
     def create_folders(self):
         ''' Create the output folders '''
-- 
2.43.0


From abc74a29d52f1205c067e8bb7328aecd3bd30d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 24/50] fix: BoxSizes.vn_full passes the number of frequencies
 positionally (it raised a DispatchError)

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 603b6db..e95ad9e 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -172,7 +172,7 @@ class BoxSizes(ConfigBase):
 
     @property
     def vn_full(self):
-        return mf.vn(n=self.niv_full)
+        return mf.vn(self.niv_full)
 
     @property
     def niv_pp(self):
-- 
2.43.0


From 6557f866d334eb9b68937af3c15640a9ae593bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 25/50] fix: symmetrize reads and writes giw, the name used by
 w2dynamics

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index 00ea7ed..e33226d 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -273,15 +273,15 @@ def main(conf):
     copyfile(conf['infile'],conf['outfile'])
     f2=h5py.File(conf['outfile'],'r+')
     for ineq in range(conf['nineq']):
-      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      del f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
+      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      del f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       f2['dmft-last/ineq-{:03}/siw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       del f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       for band in range(conf['Nbands'][ineq]):
         for symband in conf['sym'][ineq][band]:
-          f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)][band,:,:] += \
+          f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
           f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
-- 
2.43.0


From 70b7b0345c848044934ff8653421ca6bc2d16c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 26/50] fix: symmetrize takes the frequency box from the
 requested worm group

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index e33226d..62cabff 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -120,20 +120,20 @@ def check_sym(**kwargs):
           print('orbital symmetry not consistent!')
           sys.exit()
 
-def get_fbox(infile=None,target=None,**kwargs):
+def get_fbox(infile=None,target=None,worm_group='worm-last',**kwargs):
   conf = kwargs['conf']
   f=h5py.File(infile,'r')
   if target=='1freq_b':
-    n2iwb=f['worm-last/ineq-001/p2iw-worm/00001/value'].shape[0]
+    n2iwb=f['{}/ineq-001/p2iw-worm/00001/value'.format(worm_group)].shape[0]
     print(n2iwb)
     conf['n2iwb']=n2iwb//2
   elif target=='2freq':
-    n3iwf,n3iwb = f['worm-last/ineq-001/p3iw-worm/00001/value'].shape
+    n3iwf,n3iwb = f['{}/ineq-001/p3iw-worm/00001/value'.format(worm_group)].shape
     conf['n3iwf'],conf['n3iwb'] = n3iwf//2,n3iwb//2
     n3iwf,n3iwb=conf['n3iwf'],conf['n3iwb']
   elif target=='3freq':
     # new worm format -- f f b
-    _,n4iwf,n4iwb = f['worm-last/ineq-001/g4iw-worm/00001/value'].shape # always here
+    _,n4iwf,n4iwb = f['{}/ineq-001/g4iw-worm/00001/value'.format(worm_group)].shape # always here
     conf['n4iwf']=n4iwf//2
     conf['n4iwb']=n4iwb//2
     n4iwf,n4iwb=conf['n4iwf'],conf['n4iwb']
-- 
2.43.0


From 413d67e6ff57fa2a018a52315d7daa8984f0e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 27/50] fix: continued points have the same type on all ranks
 when the solver fails

---
 src/dga/analytic_continuation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 676f088..c0ea3af 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -339,14 +339,15 @@ class MaxEnt():
         return cont_mat
 
     def analytic_continuation(self, mat_list):
-        cont_list = []
-        for mat in mat_list:
+        # The result has the same shape and type on every rank, no matter how many points it owns or how many of them fail.
+        dtype = complex if self.kernel_mode == 'freq_fermionic' else float
+        cont_mat = np.zeros((len(mat_list), self.w.size), dtype=dtype)
+        for i, mat in enumerate(mat_list):
             try:
-                cont_list.append(self.cont_single_ind(mat))
-            except:
-                print('Error in analytic continuation. Setting result to 0.')
-                cont_list.append(np.zeros_like(self.w))  # make sure the code does not hang up when ana_cont fails for one index
-        return np.array(cont_list)
+                cont_mat[i] = self.cont_single_ind(mat)
+            except:  # pylint: disable=bare-except
+                print('Error in analytic continuation. Setting result to 0.')  # make sure the code does not hang up when ana_cont fails for one index
+        return cont_mat
 
 
 def mpi_ana_cont(mat, me_controller: MaxEnt, mpi_dist: mpi_aux.MpiDistributor, name, logger=None):
-- 
2.43.0


From 630060d4b2641a8a7f8666c93213a39bfe2b9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 28/50] fix: continue k-dependent quantities on the k-grid,
 also if the q-grid differs

---
 src/dga/dga_max_ent.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 1cf8262..1c0a76e 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -80,9 +80,11 @@ def main(path='./', comm=None):
 
         logger.log_cpu_time(task=' MaxEnt local ')
 
-    # Create a mpi distributor:
+    # Create the mpi distributors for the k- and q-grid:
+    mpi_dist_k = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.k_grid.nk_irr, comm=comm,
+                                        name='MaxEntIrrk')
     mpi_dist = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_irr, comm=comm,
-                                          name='MaxEntIrrk')
+                                          name='MaxEntIrrq')
 
     # Continuation of the k-dependent self-energy:
     if 's_dga' in max_ent_config:
@@ -98,7 +100,7 @@ def main(path='./', comm=None):
             else:
                 sigma_mat = None
 
-            siw_cont = a_cont.mpi_ana_cont(sigma_mat, me_controller, mpi_dist, 'siwk_dga', logger = logger)
+            siw_cont = a_cont.mpi_ana_cont(sigma_mat, me_controller, mpi_dist_k, 'siwk_dga', logger = logger)
             if comm.rank == 0:
                 siw_cont = d_cfg.lattice.k_grid.map_irrk2fbz(siw_cont) + sigma_dga.smom0  # add Hartree
                 a_cont.save_and_plot_cont_fermionic(siw_cont, me_controller.w, d_cfg.lattice.k_grid, 'swk_dga', siw_cont_path)
@@ -138,7 +140,7 @@ def main(path='./', comm=None):
             else:
                 mat = None
 
-            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist, 'giwk_dga', logger = logger)
+            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist_k, 'giwk_dga', logger = logger)
             if(comm.rank == 0):
                 cont = d_cfg.lattice.k_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_fermionic(cont, me_controller.w, d_cfg.lattice.k_grid, f'gwk_dga', cont_path)
-- 
2.43.0


From b823d5d2fca3f136ba8d940b0838eafc7ed3f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 29/50] fix: a rank without momenta contributes a complex zero
 to the optical vertex (Allreduce type mismatch)

---
 src/dga/optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/optics.py b/src/dga/optics.py
index f3db645..5f80eca 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -119,7 +119,7 @@ def get_chijj_vertex(f_cond, lv_a, lv_b, giwk, beta, iwn, wpn, q_list, nk_tot):
                                                  * [-1/2 F_d(q,wp,v-w,v) - 3/2 F_m(q,wp,v-w,v)]
          The additional minus sign stems from the different sign conventions in the vertex
     '''
-    sigma_vert = 0.0
+    sigma_vert = 0j  # complex also if this rank has no momenta
     niv_vert = mf.niv_from_mat(f_cond, axis=-1, pos=False)
     niv_g = mf.niv_from_mat(giwk, axis=-1, pos=False)
     nl, nu = niv_g - niv_vert, niv_g + niv_vert  # lower and upper bounds
-- 
2.43.0


From 990688c9a5f7ed1cf45ae6610d120c130b22c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 30/50] fix: default plots work with current matplotlib and
 with boxes of fewer than ten bosonic frequencies (the run aborted)

---
 src/dga/brillouin_zone.py |  7 +++----
 src/dga/plotting.py       | 31 +++++++++++++++++--------------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 048ec07..144c87c 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -56,12 +56,11 @@ def find_zeros(mat):
     ind_y = np.arange(mat.shape[1])
 
     cs1 = plt.contour(ind_x, ind_y, mat.T.real, cmap='RdBu', levels=[0, ])
-    paths = cs1.collections[0].get_paths()
+    segments = cs1.allsegs[0]
     plt.close()
-    paths = np.atleast_1d(paths)
     vertices = []
-    for path in paths:
-        vertices.extend(path.vertices)
+    for segment in segments:
+        vertices.extend(segment)
     vertices = np.array(vertices, dtype=int)
     return vertices
 
diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 676257d..6731cea 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -43,15 +43,15 @@ def get_zero_contour(data):
     indy = np.arange(0, np.shape(data)[0])
     fig1 = plt.figure()
     cs1 = plt.contour(indx, indy, data, cmap='RdBu', levels=[0, ])
-    path = cs1.collections[0].get_paths()
+    segments = cs1.allsegs[0]
     plt.close(fig1)
-    for i in range(len(path)):
+    for i, segment in enumerate(segments):
         if (i == 0):
-            indices_x = np.array(np.round(path[i].vertices[:, 0], 0).astype(int))
-            indices_y = np.array(np.round(path[i].vertices[:, 1], 0).astype(int))
+            indices_x = np.array(np.round(segment[:, 0], 0).astype(int))
+            indices_y = np.array(np.round(segment[:, 1], 0).astype(int))
         else:
-            indices_x = np.concatenate((indices_x, np.array(np.round(path[i].vertices[:, 0], 0).astype(int))), axis=0)
-            indices_y = np.concatenate((indices_y, np.array(np.round(path[i].vertices[:, 1], 0).astype(int))), axis=0)
+            indices_x = np.concatenate((indices_x, np.array(np.round(segment[:, 0], 0).astype(int))), axis=0)
+            indices_y = np.concatenate((indices_y, np.array(np.round(segment[:, 1], 0).astype(int))), axis=0)
     return indices_x, indices_y
 
 
@@ -59,8 +59,9 @@ def default_g2_plots(g2_dens, g2_magn, output_dir):
     ''' Default plots for the two-particle Green's function'''
     g2_dens.plot(0, pdir=output_dir, name='G2_dens')
     g2_magn.plot(0, pdir=output_dir, name='G2_magn')
-    g2_magn.plot(10, pdir=output_dir, name='G2_magn')
-    g2_magn.plot(-10, pdir=output_dir, name='G2_magn')
+    for iwn in (10, -10):
+        if iwn in g2_magn.wn:  # not contained in small boxes
+            g2_magn.plot(iwn, pdir=output_dir, name='G2_magn')
 
 
 def default_gchi_plots(gchi_dens, gchi_magn, output_dir):
@@ -74,9 +75,11 @@ def default_gamma_plots(gamma_dens, gamma_magn, output_dir, box_sizes, beta):
     niv_core = box_sizes.niv_core
     gamma_dens.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
     gamma_magn.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_magn.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_magn.plot(-10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_dens.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
+    for iwn in (10, -10):
+        if iwn in gamma_magn.wn:  # not contained in small boxes
+            gamma_magn.plot(iwn, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
+    if 10 in gamma_dens.wn:
+        gamma_dens.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
 
 
 def plot_along_ind(mat, indizes, step_size=1, figsize=ps.FIGSIZE, cmap='rainbow', verbose=False, pdir='./', do_save=True
@@ -91,7 +94,7 @@ def plot_along_ind(mat, indizes, step_size=1, figsize=ps.FIGSIZE, cmap='rainbow'
     ind_v = np.logical_and(vn >= niv_plot_min, vn <= niv_plot)
 
     n_plots = len(indizes[::step_size])
-    line_colors = plt.cm.get_cmap(cmap)(np.linspace(0, 1, n_plots))
+    line_colors = plt.get_cmap(cmap)(np.linspace(0, 1, n_plots))
     lines = []
 
     fig, axes = plt.subplots(nrows=1, ncols=2, figsize=figsize)
@@ -139,7 +142,7 @@ def plot_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap='RdBu', figsi
                  pad=0.05)
     if (scatter is not None):
         for ax in axes:
-            colours = plt.cm.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
+            colours = plt.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
             ax.scatter(scatter[:, 0], scatter[:, 1], marker='o', c=colours)
     plt.tight_layout()
     if (do_save): plt.savefig(pdir + '/' + name + '.png')
@@ -575,7 +578,7 @@ def plot_gap_function_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap=
                  pad=0.05)
     if (scatter is not None):
         for ax in axes:
-            colours = plt.cm.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
+            colours = plt.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
             ax.scatter(scatter[:, 0], scatter[:, 1], marker='o', c=colours)
     plt.tight_layout()
     if (do_save): plt.savefig(pdir + '/GapFunction_' + name + '.png')
-- 
2.43.0


From f3413c7df15e74bac62a3602913743f91882a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 31/50] fix: energies.txt lists the DMFT potential energy
 instead of the DGA one twice

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 81b5971..b373e96 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -274,7 +274,7 @@ def main():
         e_kin_dga = giwk_dga.e_kin
         e_kin_dmft = giwk_dmft.e_kin
         e_pot_dga = giwk_dga.e_pot
-        e_pot_dmft = giwk_dga.e_pot
+        e_pot_dmft = giwk_dmft.e_pot
         np.savetxt(d_cfg.output_path + '/energies.txt', [[e_kin_dga, e_kin_dmft, e_pot_dga, e_pot_dmft]],
                    header='kin-dga kin-dmft pot-dga pot-dmft', fmt='%.6f')
 
-- 
2.43.0


From f4402c4fb175a58455fac51b9198c1f2c36374e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 32/50] fix: save the three-leg vertices of all ranks, not only
 those of the root's momenta

---
 src/dga/dga_main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index b373e96..4150789 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -136,10 +136,6 @@ def main():
     d_cfg.logger.log_memory_usage('chi_lad', chi_lad_dens, n_exists=2)
     d_cfg.logger.log_memory_usage('vrg_q', vrg_q_dens, n_exists=2)
 
-    if (d_cfg.save_vrg and comm.rank == 0):
-        d_cfg.save_data(vrg_q_magn, 'vrg_q_magn')
-        d_cfg.save_data(vrg_q_dens, 'vrg_q_dens')
-
     del gamma_magn, gamma_dens, vrg_magn, vrg_dens
     gc.collect()
     d_cfg.logger.log_cpu_time(task=' Vrg and Chi-ladder completed. ')
@@ -204,6 +200,10 @@ def main():
     vrg_q_dens = mpi_distributor.gather(rank_result=vrg_q_dens)
     vrg_q_magn = mpi_distributor.gather(rank_result=vrg_q_magn)
 
+    if (d_cfg.save_vrg and comm.rank == 0):
+        d_cfg.save_data(vrg_q_magn, 'vrg_q_magn')
+        d_cfg.save_data(vrg_q_dens, 'vrg_q_dens')
+
     d_cfg.logger.log_memory_usage('vrg-q', vrg_q_dens, n_exists=2)
 
     if (comm.rank == 0):
-- 
2.43.0


From 049a5590294c749b80a94e4b942449e04fba514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:48 +0000
Subject: [PATCH 33/50] fix: an optics section without the bubble no longer
 aborts the run

---
 src/dga/dga_main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 4150789..910bece 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -353,9 +353,10 @@ def main():
             d_cfg.optics.save_data(chijj_vert, 'chijj_vert')
         d_cfg.logger.log_event('Optics vertex completed!')
 
-    if comm.rank == 0 and 'optics' in conf_file:
+    if comm.rank == 0 and 'optics' in conf_file and (d_cfg.optics.do_bubble or d_cfg.optics.do_vertex):
         # Plot the optical conductivity on matsubara frequencies:
         if chijj_vert is None: chijj_vert = np.zeros_like(chijj_bubble)
+        if chijj_bubble is None: chijj_bubble = np.zeros_like(chijj_vert)
 
         optics.plot_opt_cond_matsubara(chijj_bubble, chijj_vert, do_save=True, pdir=d_cfg.optics.output_path)
 
-- 
2.43.0


From 239502672f514a55b2944beeb9ba60dd88716704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 34/50] fix: momenta of a coarser q-grid are converted to the
 k-grid (bubble, self-energy, optics used the momentum with the same index)

---
 src/dga/config.py         |  6 ++++++
 src/dga/dga_main.py       | 10 ++++++----
 src/dga/four_point.py     |  8 ++++----
 src/dga/optics.py         | 18 ++++++++++--------
 src/dga/pairing_vertex.py |  8 ++++----
 5 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index e95ad9e..a1f19b7 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -263,6 +263,12 @@ class LatticeConfig(ConfigBase):
     def nq_tot(self):
         return np.prod(self.nq)
 
+    def get_q_list_on_k_grid(self, q_list):
+        ''' Convert indices on the q-grid to indices of the same momenta on the k-grid. '''
+        if np.any(np.mod(self.nk, self.nq) != 0):
+            raise ValueError(f'The q-grid {self.nq} must be contained in the k-grid {self.nk}.')
+        return np.asarray(q_list) * (np.array(self.nk) // np.array(self.nq))
+
     def set_hr(self):
         ''' Set the tight-binding hamiltonian.'''
         self.hr: wannier.WannierHr  # type declaration for nice autocompletes
diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 910bece..6732097 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -112,7 +112,8 @@ def main():
                                              output_path=d_cfg.output_path,
                                              name='Q')
     comm.Barrier()
-    my_q_list = d_cfg.lattice.q_grid.get_irrq_list()[mpi_distributor.my_slice]
+    irr_q_list = d_cfg.lattice.get_q_list_on_k_grid(d_cfg.lattice.q_grid.get_irrq_list())
+    my_q_list = irr_q_list[mpi_distributor.my_slice]
 
     # Build the different non-local Bubbles:
     gchi0_q_urange = bubble_gen.get_gchi0_q_list(d_cfg.box.niv_full, my_q_list)
@@ -163,7 +164,7 @@ def main():
         d_cfg.save_data(chi_lad_dens, 'chi_dens_lam')
         d_cfg.save_data(chi_lad_magn, 'chi_magn_lam')
         np.savetxt(d_cfg.output_path + '/lambda.txt', [[lambda_dens, lambda_magn]], header='dens magn', fmt='%.6f')
-        chi0q_asympt_correction = bubble_gen.get_asymptotic_correction_q(d_cfg.box.niv_full, d_cfg.lattice.q_grid.get_irrq_list())
+        chi0q_asympt_correction = bubble_gen.get_asymptotic_correction_q(d_cfg.box.niv_full, irr_q_list)
         chi0q_asympt_correction = d_cfg.lattice.q_grid.map_irrk2fbz(chi0q_asympt_correction)
         chi_dens_uniform_static = chi_lad_dens[0, 0, 0, d_cfg.box.niw_core].real
         chi_dens_uniform_static += chi0q_asympt_correction[0, 0, 0, d_cfg.box.niw_core].real
@@ -211,7 +212,7 @@ def main():
         vrg_q_magn = d_cfg.lattice.q_grid.map_irrk2fbz(vrg_q_magn, shape='list')
 
     # Distribute the full fbz q-points to the different cores:
-    full_q_list = d_cfg.lattice.q_grid.get_q_list()
+    full_q_list = d_cfg.lattice.get_q_list_on_k_grid(d_cfg.lattice.q_grid.get_q_list())
 
     # Create new mpi-distributor for the full fbz:
     mpi_dist_fbz = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_tot, comm=comm,
@@ -346,7 +347,8 @@ def main():
         d_cfg.logger.log_cpu_time(task=' Vertex distributed among ranks.')
         chijj_vert = optics.vec_get_chijj_vert(f_cond, giwk_dga, d_cfg.lattice.hr, d_cfg.lattice.k_grid,
                                                wn_vert=d_cfg.optics.wn_vert(), wn_cond=d_cfg.optics.wn_cond(pos=True),
-                                               q_list=my_full_q_list, der_a=d_cfg.optics.der_a, der_b=d_cfg.optics.der_b)
+                                               q_list=my_full_q_list, der_a=d_cfg.optics.der_a, der_b=d_cfg.optics.der_b,
+                                               nq_tot=d_cfg.lattice.q_grid.nk_tot)
         chijj_vert = mpi_dist_fbz.allreduce(chijj_vert)  # collect results from ranks
         chijj_vert = mf.bosonic_full_nu_range(chijj_vert)
         if comm.rank == 0:
diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 91c4546..fd4ac43 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -358,12 +358,12 @@ def build_vertex_fq(d_cfg: conf.DgaConfig, comm, chi_lad_magn, chi_lad_dens):
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
     d_cfg.save_data(f_dens, 'F_dens')
     d_cfg.save_data(f_magn, 'F_magn')
     del f_dens, f_magn
diff --git a/src/dga/optics.py b/src/dga/optics.py
index 5f80eca..66baab5 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -141,10 +141,12 @@ def get_chijj_vertex(f_cond, lv_a, lv_b, giwk, beta, iwn, wpn, q_list, nk_tot):
 
 
 def vec_get_chijj_vert(f_cond, giwk_gen: twop.GreensFunction, hr: wannier.WannierHr, k_grid: bz.KGrid, wn_vert, wn_cond, q_list,
-                       der_a=0, der_b=0):
+                       der_a=0, der_b=0, nq_tot=None):
     '''
         f_cond -> [q,wp,w,v]
+        nq_tot: total number of q-points (of all ranks), if it differs from the number of k-points
     '''
+    if nq_tot is None: nq_tot = k_grid.nk_tot
     assert np.shape(wn_vert)[0] == np.shape(f_cond)[1], 'Number of internal bosonic frequencies in ' \
                                                         'f_cond must be equal to wn_vert'
     assert np.shape(wn_cond)[0] == np.shape(f_cond)[2], 'Number of transformed bosonic frequencies in ' \
@@ -154,7 +156,7 @@ def vec_get_chijj_vert(f_cond, giwk_gen: twop.GreensFunction, hr: wannier.Wannie
     lv_a = hr.get_light_vertex(k_grid, der=der_a)
     lv_b = hr.get_light_vertex(k_grid, der=der_b)
     beta = giwk_gen.beta
-    sigma_vert = np.array([get_chijj_vertex(f_cond[:, :, i, :], lv_a, lv_b, giwk, beta, iwn, wn_vert, q_list, k_grid.nk_tot)
+    sigma_vert = np.array([get_chijj_vertex(f_cond[:, :, i, :], lv_a, lv_b, giwk, beta, iwn, wn_vert, q_list, nq_tot)
                            for i, iwn in enumerate(wn_cond)])
     return sigma_vert
 
@@ -182,20 +184,20 @@ def build_vertex_for_optical_conductivity(d_cfg: conf.DgaConfig, comm, chi_lad_m
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
 
     f_cond = -1 / 2 * f_dens - 3 / 2 * f_magn
     del f_dens, f_magn
     gc.collect()
 
     plotting.plot_kx_ky(f_cond[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
 
     d_cfg.optics.save_data(f_cond, 'F_cond')
     del f_cond
diff --git a/src/dga/pairing_vertex.py b/src/dga/pairing_vertex.py
index ab43721..5a201d9 100644
--- a/src/dga/pairing_vertex.py
+++ b/src/dga/pairing_vertex.py
@@ -151,11 +151,11 @@ def build_pairing_vertex(d_cfg: conf.DgaConfig, comm, chi_lad_magn, chi_lad_dens
     f_sing = +1.5 * f_magn - 0.5 * f_dens
     f_trip = +0.5 * f_magn + 0.5 * f_dens
 
-    plotting.plot_kx_ky(f_sing[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.eliash.output_path, name='F_sing_pp')
+    plotting.plot_kx_ky(f_sing[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.eliash.output_path, name='F_sing_pp')
 
-    plotting.plot_kx_ky(f_trip[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.eliash.output_path, name='F_trip_pp')
+    plotting.plot_kx_ky(f_trip[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.eliash.output_path, name='F_trip_pp')
 
     f_sing_loc = d_cfg.lattice.q_grid.k_mean(f_sing, 'fbz-mesh')
     f_trip_loc = d_cfg.lattice.q_grid.k_mean(f_trip, 'fbz-mesh')
-- 
2.43.0


From 4d12cf6d8c7257cd2a6828407399029258973c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 35/50] fix: the Fermi surface search accepts meshes without a
 2x2 quadrant (the run aborted for fewer than four k-points along an axis)

---
 src/dga/brillouin_zone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 144c87c..ad445fc 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -52,6 +52,9 @@ def find_zeros(mat):
     ''' Finds the zero crossings of a 2D matrix.
         Not sure if this should be transfered to the Plotting module.
     '''
+    if min(mat.shape) < 2:  # there is no contour on less than 2x2 points
+        return np.array([], dtype=int)
+
     ind_x = np.arange(mat.shape[0])
     ind_y = np.arange(mat.shape[1])
 
-- 
2.43.0


From 06a1c92da6a06eadcdca0ffcca92b47e1dc2e143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 36/50] fix: limit the number of processes by the irreducible
 q-points that are distributed

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index a1f19b7..91779f9 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -564,7 +564,7 @@ class DgaConfig(OutputConfig):
             matplotlib.use('agg')  # non-gui backend. Particularly usefull for use on cluster.
 
         # Check that number of processes is not larger than number of points in the irreducible BZ:
-        if (comm is not None and comm.size > self.lattice.k_grid.nk_irr):
+        if (comm is not None and comm.size > self.lattice.q_grid.nk_irr):
             raise ValueError('Number of processes may not be larger than points in the irreducible BZ for distribution.')
 
     def build_box_sizes(self, conf_file):
-- 
2.43.0


From 1ae2e2f25adc9f125c2525f02f4caeee3f03d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 37/50] fix: fit unshifted data in the polynomial
 extrapolations of a run

On odd meshes data shifted by pi do not have the symmetries of the grid, so momenta
got the extrapolation of another momentum.
---
 src/dga/dga_io.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 77b1f8f..71c14ee 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -160,7 +160,8 @@ def dmft_poly_fit(giwk_obj: twop.GreensFunction, d_cfg: config.DgaConfig):
                    header='bandshift gamma Z', fmt='%.6f')
 
 
-def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', output_path='./'):
+def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', output_path='./', pi_shift=False):
+    ''' Fit at the irreducible momenta; with pi_shift the results are shifted by pi, as the symmetries hold only for unshifted data '''
     v = mf.vn(beta, mat_data.shape[-1] // 2, pos=True)
 
     re_fs, im_fs, z = a_cont.extract_coeff_on_ind(
@@ -169,6 +170,7 @@ def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', o
     re_fs = k_grid.map_irrk2fbz(mat=re_fs)
     im_fs = k_grid.map_irrk2fbz(mat=im_fs)
     z = k_grid.map_irrk2fbz(mat=z)
+    if pi_shift: re_fs, im_fs, z = bz.shift_mat_by_pi(re_fs), bz.shift_mat_by_pi(im_fs), bz.shift_mat_by_pi(z)
 
     extrap = {
         're_fs': re_fs,
@@ -252,14 +254,14 @@ def default_giwk_checks(d_cfg: config.DgaConfig, giwk_dga, sigma_dga):
 def dga_poly_fit(d_cfg: config.DgaConfig, sigma_dga, giwk_dga):
     if d_cfg.do_poly_fitting and d_cfg.comm.rank == 0:
         # Extrapolate the self-energy to the Fermi-level via polynomial fit:
-        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full, pi_shift=True), d_cfg.sys.beta,
+        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full), d_cfg.sys.beta,
                  d_cfg.lattice.k_grid, d_cfg.n_fit,
-                 d_cfg.o_fit, name='Siwk_poly_cont_', output_path=d_cfg.poly_fit_dir)
+                 d_cfg.o_fit, name='Siwk_poly_cont_', output_path=d_cfg.poly_fit_dir, pi_shift=True)
 
-        poly_fit(giwk_dga.g_full(pi_shift=True), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
+        poly_fit(giwk_dga.g_full(), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
                  d_cfg.o_fit,
                  name='Giwk_dga_poly_cont_',
-                 output_path=d_cfg.poly_fit_dir)
+                 output_path=d_cfg.poly_fit_dir, pi_shift=True)
 
         d_cfg.logger.log_cpu_time(task=' Poly-fits ')
 
-- 
2.43.0


From ed99e9a110a5174c31a7fe98719c684fed21d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:37 +0000
Subject: [PATCH 38/50] fix: the primitive chemical potential search evaluates
 its own root function (it indexed a scalar and printed with the other root
 function)

---
 src/dga/two_point.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index d00db85..f65d48a 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -228,7 +228,7 @@ def get_fill_primitive(g_loc, beta, verbose=False):
 def root_fun_primitive(mu=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0, verbose=False):
     """Auxiliary function for the root finding"""
     g_loc = get_gloc(iv=iv, hk=hk, siwk=siwk, mu_trial=mu)
-    return get_fill_primitive(g_loc, beta, verbose)[0] - target_filling
+    return get_fill_primitive(g_loc, beta, verbose).real - target_filling
 
 
 def update_mu_primitive(mu0=0.0, target_filling=None, iv=None, hk=None, siwk=None, beta=None, smom0=None, tol=1e-6,
@@ -238,9 +238,7 @@ def update_mu_primitive(mu0=0.0, target_filling=None, iv=None, hk=None, siwk=Non
     '''
     if verbose: print('Update mu...')
     mu = mu0
-    hloc = None
-    if verbose: print(
-        root_fun(mu=mu, target_filling=target_filling, iv=iv, hk=hk, siwk=siwk, beta=beta, smom0=smom0, hloc=hloc))
+    if verbose: print(root_fun_primitive(mu=mu, target_filling=target_filling, iv=iv, hk=hk, siwk=siwk, beta=beta))
     try:
         mu = opt.newton(root_fun_primitive, mu, tol=tol,
                         args=(target_filling, iv, hk, siwk, beta, verbose))
-- 
2.43.0


From c4b7e31c531e138270f339b5f6b47fda7722f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:37 +0000
Subject: [PATCH 39/50] fix: pass the vertex object to get_kernel_dc in the
 momentum-dependent urange asymptotics routine

---
 src/dga/four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index fd4ac43..7460440 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -251,7 +251,7 @@ def get_vrg_and_chir_lad_from_gammar_uasympt_q(gamma_dens: lfp.LocalFourPoint, g
         if logger.is_root:
             f_dc.plot(pdir=logger.out_dir + '/', name='F_dc')
 
-    kernel_dc = mf.cut_v(get_kernel_dc(f_dc.mat, gchi0_q_urange), niv_core, axes=(-1,))
+    kernel_dc = mf.cut_v(get_kernel_dc(f_dc, gchi0_q_urange), niv_core, axes=(-1,))
     if logger is not None: logger.log_cpu_time(task=' DC kernel constructed. ')
 
     # Density channel:
-- 
2.43.0


From 3df0b30cc1cbadf610b80d5f9f5dd6effd9ad1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:37 +0000
Subject: [PATCH 40/50] fix: count the significant singular values of the
 MaxEnt kernel (the smallest one was dropped)

---
 src/ana_cont/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ana_cont/solvers.py b/src/ana_cont/solvers.py
index 89e4978..d64b6da 100644
--- a/src/ana_cont/solvers.py
+++ b/src/ana_cont/solvers.py
@@ -171,7 +171,7 @@ class MaxentSolverSVD(AnalyticContinuationSolver):
         # singular value decomposition of the kernel
         U, S, Vt = np.linalg.svd(self.kernel.real_matrix(), full_matrices=False)
 
-        self.n_sv = np.arange(min(self.nw, self.niw))[S > 1e-10][-1]  # number of singular values larger than 1e-10
+        self.n_sv = np.count_nonzero(S > 1e-10)  # number of singular values larger than 1e-10
 
         self.U_svd = np.array(U[:, :self.n_sv], dtype=np.float64, order='C')
         self.V_svd = np.array(Vt[:self.n_sv, :].T, dtype=np.float64, order='C')  # numpy.svd returns V.T
-- 
2.43.0


From 65ba148ec1f8ebfd116a39f777e799275ca9b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:11 +0000
Subject: [PATCH 41/50] fix: use the builtin complex and bool types, NumPy 1.24
 removed its aliases (Pade continuation)

---
 src/dga/pade_aux.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dga/pade_aux.py b/src/dga/pade_aux.py
index 94e419c..79a038c 100644
--- a/src/dga/pade_aux.py
+++ b/src/dga/pade_aux.py
@@ -161,7 +161,7 @@ class PadeSolver():
 
 def compute_coefficients(zi,ui):
   n=len(zi)
-  g=np.zeros((n,n),dtype=np.complex)
+  g=np.zeros((n,n),dtype=complex)
   g[:,0]=ui
   for i in range(n):
     for j in range(1,i+1):
@@ -265,7 +265,7 @@ def padeMatrix(z, f, N, verbose=False):
     M = len(z)
     r = N // 2
     y = f * z ** r
-    A = np.ones((M, N), dtype=np.complex)
+    A = np.ones((M, N), dtype=complex)
     for i in range(M):
         A[i, :r] = z[i] ** (np.arange(r))
         A[i, r:] = -f[i] * z[i] ** (np.arange(r))
@@ -554,7 +554,7 @@ def pade(zin, fin, zout):
                 d[i] = np.sum(delta[:i, i]) + np.sum(delta[i, i + 1:])
             # calculate if to include or reject continuations based on two criteria:
             c1 = d <= c1v * np.mean(d)
-            c2 = np.zeros(len(d), dtype=np.bool)
+            c2 = np.zeros(len(d), dtype=bool)
             ind = np.argsort(d)[:int(c2v * len(d))]  # indices to 51% lowest distances
             c2[ind] = True
             mask = c1 & c2  # continuations to include
-- 
2.43.0


From 8a1c46f558d67ac508b430d86289d119a0a140f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:11 +0000
Subject: [PATCH 42/50] fix: the Pade average is not empty if all physical
 continuations are equally far apart

---
 src/dga/pade_aux.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dga/pade_aux.py b/src/dga/pade_aux.py
index 79a038c..3cc89f0 100644
--- a/src/dga/pade_aux.py
+++ b/src/dga/pade_aux.py
@@ -558,6 +558,8 @@ def pade(zin, fin, zout):
             ind = np.argsort(d)[:int(c2v * len(d))]  # indices to 51% lowest distances
             c2[ind] = True
             mask = c1 & c2  # continuations to include
+            if not np.any(mask):  # all continuations are about equally far apart
+                mask = c2
             fmean = np.mean(f[mask], axis=0)  # average selected continuations
         masks.append(mask)
         fmeans.append(fmean)
-- 
2.43.0


From 1e985ccc89a6f863d761f8c40d9d6aed45cbdf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:45 +0000
Subject: [PATCH 43/50] fix: the Pade input routine reads the files it is asked
 for

---
 src/dga/pade_aux.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/pade_aux.py b/src/dga/pade_aux.py
index 3cc89f0..975623d 100644
--- a/src/dga/pade_aux.py
+++ b/src/dga/pade_aux.py
@@ -576,13 +576,13 @@ def load_and_prepare_input_data(folder,inputfile='pade.in',realaxisfile='exact.d
     delta - distance above the real axis where to evaluete the continuations
     '''
     # Matsubara input data
-    d = np.loadtxt(folder + 'pade.in')
+    d = np.loadtxt(folder + inputfile)
     zin = d[:,0] + d[:,1]*1j
     fin = d[:,2]+d[:,3]*1j
     # (Fortran ordering)
     fin = np.atleast_2d(fin).T
     # exact function
-    exact = np.loadtxt(folder + 'exact.dat')
+    exact = np.loadtxt(folder + realaxisfile)
     # real axis energy
     w = exact[:,0]
     zout = w + delta*1j
-- 
2.43.0


From 9e693151c948c54bf581e9c56a34c01bfee7c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:39 +0000
Subject: [PATCH 44/50] fix: find_zeros floors contour vertices up to round-off

---
 src/dga/brillouin_zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index ad445fc..d378a2d 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -64,7 +64,7 @@ def find_zeros(mat):
     vertices = []
     for segment in segments:
         vertices.extend(segment)
-    vertices = np.array(vertices, dtype=int)
+    vertices = np.floor(np.array(vertices) + 1e-8).astype(int)  # mesh lines are only met up to round-off
     return vertices
 
 
-- 
2.43.0


From 8f476d2970a9afab7ca230c353f5f8a9fcf97d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:39 +0000
Subject: [PATCH 45/50] fix: get_zero_contour returns empty indices when
 nothing changes sign

---
 src/dga/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 6731cea..e0dd488 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -45,6 +45,8 @@ def get_zero_contour(data):
     cs1 = plt.contour(indx, indy, data, cmap='RdBu', levels=[0, ])
     segments = cs1.allsegs[0]
     plt.close(fig1)
+    if not segments:  # nothing changes sign
+        return np.array([], dtype=int), np.array([], dtype=int)
     for i, segment in enumerate(segments):
         if (i == 0):
             indices_x = np.array(np.round(segment[:, 0], 0).astype(int))
-- 
2.43.0


From 1b24af2e814317878670bca4cdedf9f21b8ab0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:39 +0000
Subject: [PATCH 46/50] fix: plot_siwk_cont gives the non-interacting system a
 finite broadening

---
 src/postproc/plot_siwk_cont.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/postproc/plot_siwk_cont.py b/src/postproc/plot_siwk_cont.py
index b0f5c57..c182777 100644
--- a/src/postproc/plot_siwk_cont.py
+++ b/src/postproc/plot_siwk_cont.py
@@ -38,11 +38,12 @@ def main(base_path='./',max_ent_dir='MaxEntSiwk/'):
     ek = dga_config.lattice.get_ek()
     ek_shift = dga_config.lattice.k_grid.shift_mat_by_pi(ek)
     mu = rtp.adjust_mu(mu0,n_target,swk,w,ek)
-    mu_lda = rtp.adjust_mu(mu0,n_target,0*swk,w,ek)
+    swk0 = 0*swk - 1j * cut_off  # no spectral weight without a finite broadening
+    mu_lda = rtp.adjust_mu(mu0,n_target,swk0,w,ek)
 
 
     gwk = rtp.get_giwk(mu,swk,w,ek)
-    gwk0 = rtp.get_giwk(mu,swk*0,w,ek)
+    gwk0 = rtp.get_giwk(mu,swk0,w,ek)
 
     np.save(pdir+'gwk_cont.npy',gwk,allow_pickle=True)
     np.savetxt(pdir+'mu_dga.txt',[mu,mu_lda],header='mu_dga mu_lda')
-- 
2.43.0


From 43ff10760f26ca69fd146823871a7d3385761134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:20 +0000
Subject: [PATCH 47/50] fix: real-frequency bubble shifts by frequency, also on
 non-uniform or even meshes

---
 src/dga/optics.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/dga/optics.py b/src/dga/optics.py
index 66baab5..af6f89d 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -57,23 +57,25 @@ def vec_get_chijj_bubble_realf(gwk_obj: twop.RealFrequencyGF, hr: wannier.Wannie
     assert np.max(gwk_obj.w) > w_max_bub, r'w_max_bub is larger than the maximum frequency in the Green\'s function'
     lv_a = hr.get_light_vertex(k_grid, der=der_a)
     lv_b = hr.get_light_vertex(k_grid, der=der_b)
-    w_0_ind = np.argmin(np.abs(gwk_obj.w))
-    w_mbub_ind = np.argmin(np.abs(gwk_obj.w - w_max_bub))
-    w_int_ind = len(gwk_obj.w) - w_mbub_ind
-    nu = w_0_ind + w_int_ind
-    nl = w_0_ind - w_int_ind + len(gwk_obj.w) % 2
+    w = gwk_obj.w
+    w_0_ind = np.argmin(np.abs(w))
+    w_mbub_ind = np.argmin(np.abs(w - w_max_bub))
+    w_bub = w[w_0_ind + 1:w_mbub_ind]
+    # frequencies v, for which v - w and v + w are inside the mesh for all w in w_bub
+    tol = 1e-8 * (w[-1] - w[0])
+    nl = np.searchsorted(w, w[0] + w[w_mbub_ind] - tol)
+    nu = np.searchsorted(w, w[-1] - w[w_mbub_ind] + tol)
     lv2 = lv_a * lv_b
     awk = gwk_obj.awk()[..., nl:nu]
-    w_int = gwk_obj.w[nl:nu]
+    w_int = w[nl:nu]
     nf = fermi_function(w_int, beta)[None, None, None, :]
-    w_bub = gwk_obj.w[w_0_ind + 1:w_mbub_ind]
+    gwk = interp1d(w, gwk_obj.gwk(), axis=-1)  # the mesh may be non-uniform: v +- w is not on the mesh in general
 
-    def get_chijj_bubble_realf_iw(i):
+    def get_chijj_bubble_realf_iw(iw):
         return -2 * np.mean(
-            lv2 * np.trapz(nf * awk * (gwk_obj.gwk()[..., nl + i:nu + i] + np.conj(gwk_obj.gwk())[..., nl - i:nu - i])
-                           , w_int, axis=-1))
+            lv2 * np.trapz(nf * awk * (gwk(w_int + iw) + np.conj(gwk(w_int - iw))), w_int, axis=-1))
 
-    chi_jj = np.array([get_chijj_bubble_realf_iw(i + 1) for i, _ in enumerate(w_bub)])
+    chi_jj = np.array([get_chijj_bubble_realf_iw(iw) for iw in w_bub])
     return chi_jj, w_bub
 
 
-- 
2.43.0


From b98605ee482c1e1ce6f53419b6841f6df317232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 48/50] fix: polynomial fits on chains, single points and
 three-dimensional meshes

---
 src/dga/dga_io.py   | 2 +-
 src/dga/plotting.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 71c14ee..b6bf51c 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -165,7 +165,7 @@ def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', o
     v = mf.vn(beta, mat_data.shape[-1] // 2, pos=True)
 
     re_fs, im_fs, z = a_cont.extract_coeff_on_ind(
-        siwk=np.squeeze(mat_data.reshape(-1, mat_data.shape[-1])[:, mat_data.shape[-1] // 2:]), indizes=k_grid.irrk_ind, v=v,
+        siwk=mat_data.reshape(-1, mat_data.shape[-1])[:, mat_data.shape[-1] // 2:], indizes=k_grid.irrk_ind, v=v,
         n_fit=n_fit, order=order)
     re_fs = k_grid.map_irrk2fbz(mat=re_fs)
     im_fs = k_grid.map_irrk2fbz(mat=im_fs)
diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index e0dd488..f0d7007 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -402,9 +402,10 @@ def plot_cont_edc_maps(v_real=None, gk_cont=None, k_grid=None, output_path=None,
 def plot_siwk_extrap(siwk_re_fs=None, siwk_im_fs=None, siwk_z=None, output_path='./', name='PolyFit', k_grid: bz.KGrid = None,
                      lw=1, verbose=False, do_save=True):
     fig, ax = plt.subplots(nrows=1, ncols=3, figsize=(16, 5))
-    siwk_re_fs = np.squeeze(siwk_re_fs)
-    siwk_im_fs = np.squeeze(siwk_im_fs)
-    siwk_z = np.squeeze(siwk_z)
+    # the picture shows one plane of the k-mesh
+    siwk_re_fs = np.reshape(siwk_re_fs, k_grid.nk)[:, :, 0]
+    siwk_im_fs = np.reshape(siwk_im_fs, k_grid.nk)[:, :, 0]
+    siwk_z = np.reshape(siwk_z, k_grid.nk)[:, :, 0]
 
     norm = MidpointNormalize(midpoint=0, vmin=siwk_re_fs.min(), vmax=siwk_re_fs.max())
     im = ax[0].pcolormesh(k_grid.kx_shift, k_grid.ky_shift, k_grid.shift_mat_by_pi(siwk_re_fs, axes=(0, 1)).T, cmap='RdBu_r',
-- 
2.43.0


From 0f165f3035455008f6349a4bb50827e3ec9cf4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:13 +0000
Subject: [PATCH 49/50] fix: remove the vertex of the optical conductivity when
 it is not to be kept, also without max_ent

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 6732097..e930d9e 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -382,7 +382,7 @@ def main():
             d_cfg.optics.save_data(max_ent.w, 'w')
             d_cfg.logger.log_event('MaxEnt for optical conductivity finished.')
 
-            if not d_cfg.keep_fq_optics: d_cfg.optics.clean_data('F_cond')
+        if not d_cfg.keep_fq_optics: d_cfg.optics.clean_data('F_cond')
 
     # ------------------------------------------------- MAXENT ------------------------------------------------------------
     if ('max_ent' in conf_file):
-- 
2.43.0


From b15ee464c62c6f80eba89d8d3b9eb218c3eed89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:56 +0000
Subject: [PATCH 50/50] fix: settings files contain the numbers and sections
 read from the configuration file instead of {}

---
 src/dga/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 91779f9..a9d2a49 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -84,7 +84,8 @@ class ConfigBase():
     def as_dict(self, obj=None):
         if obj is None:
             obj = self
-        if not hasattr(obj, "__dict__"):
+        # numbers, strings and sections read from a yaml file carry a __dict__ (formatting) too:
+        if not hasattr(obj, "__dict__") or isinstance(obj, (int, float, str, dict)):
             return obj
         result = {}
         for key, val in obj.__dict__.items():
-- 
2.43.0

