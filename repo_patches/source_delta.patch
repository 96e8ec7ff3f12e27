From 3be56ece6155e9ecb0536b479e8295d9029752c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 01/62] fix: fMPS.E and E_ returned the expectation value of
 the transposed operator

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 084d638..bcb2f21 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -922,7 +922,7 @@ class fMPS(object):
         if (not self.canonical and not self.orthogonal) or (hasattr(self, 'oc') and self.oc != site):
             self.mixed_orthogonalise(site)
         M = self[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]], [3, 4, 1, 2]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]], [3, 4, 1, 2]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def E_(self, op, site):
@@ -932,7 +932,7 @@ class fMPS(object):
         :param site: site
         """
         M = self.mixed_canonicalise(site, sweep_back=True)[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def Es(self, ops, site):
-- 
2.43.0


From 9e2a2e110bd21cd86e1cad8a4a08a20e7e7a5f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 02/62] fix: fTFD.E and Es returned the expectation value of
 the transposed operator

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index bcb2f21..be260f6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2175,12 +2175,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op))) if lr == 0 else kron(eye(len(op)), op)
         M = self.mixed_canonicalise(site)[site]
-        return np.real(trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0)))
+        return np.real(trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0)))
 
     def Es(self, ops, site, lr=0):
         ops = [kron(op, eye(len(op))) for op in ops] if lr == 0 else [kron(eye(len(op)), op) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return np.array([trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return np.array([trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops])
 
 class vfMPS(object):
-- 
2.43.0


From a9f59ce8029042f55b5a3d62fc02dc7b579dfe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 03/62] fix: mixed_canonicalise left the orthogonality centre
 recorded as site 0

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index be260f6..9235055 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -621,8 +621,8 @@ class fMPS(object):
         :param testing: test canonicalness
         """
         self.ok = True
-        self.oc = oc
         self.right_canonicalise(D, minD=False, sweep_back=sweep_back)
+        self.oc = oc  # right_canonicalise resets it
 
         def split(M):
             """split: Do SVD and reshape A matrix
-- 
2.43.0


From 98a98d1bf45e541b2812e6abfa0377fa3c934650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 04/62] fix: apply_two_site and post_select kept a stale
 orthogonality centre and length

---
 xmps/fMPS.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 9235055..25c0ef9 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -860,6 +860,8 @@ class fMPS(object):
         else:
             self.data[site+1] = self.data[site][which, :, :]@self.data[site+1]
         del self.data[site]
+        self.L = len(self.data)
+        self.oc, self.canonical, self.orthogonal = None, False, False
         return self
 
     def apply_two_site(self, opsites, which='l', D=None, truncate_swaps=False):
@@ -877,7 +879,7 @@ class fMPS(object):
                 self = self.apply((op, sites[0]))
                 return self
             else:
-                self = self.apply((op, [i, j][{'l':0, 'r':1}[which]]))
+                self = self.apply((op, sites[{'l':0, 'r':1}[which]]))
                 return self
         else:
             i, j = sites
@@ -892,6 +894,7 @@ class fMPS(object):
                 i_ = i_+1
                 self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], SWAP, which, swap_D)
                 #self.apply_two_site((SWAP, (i_, i_+1)))
+            self.oc, self.canonical, self.orthogonal = None, False, False
             return self
 
     def apply_two_site_isometry(self, opsites, lr=0):
@@ -908,6 +911,7 @@ class fMPS(object):
         while i_ < j-1:
             i_ = i_+1
             self.apply_two_site((SWAP, (i_, i_+1)))
+        self.oc, self.canonical, self.orthogonal = None, False, False
         return self
 
     def copy(self):
-- 
2.43.0


From 481a27ac639ac346b2fec5b3c57ec41abccc58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 05/62] fix: fMPS(data, d, D) raised instead of truncating;
 product states had no canonical flags

---
 xmps/fMPS.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 25c0ef9..85a2c34 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -156,19 +156,18 @@ class fMPS(object):
         self.id = uuid.uuid4().hex # for memoization
         self.id_ = uuid.uuid4().hex # for memoization
         self.id__ = uuid.uuid4().hex # for memoization
+        self.canonical = False
+        self.orthogonal = False
         if data is not None:
             self.L = len(data)
             if d is not None:
                 self.d = d
             else:
                 self.d = data[0].shape[0]
+            self.D = max([max(x.shape[1:]) for x in data])
+            self.data = data
             if D is not None:
                 self.right_canonicalise(D)
-            else:
-                self.D = max([max(x.shape[1:]) for x in data])
-            self.data = data
-            self.canonical = False
-            self.orthogonal = False
 
     def __call__(self, k):
         """__call__: 1-based indexing
-- 
2.43.0


From 842e14ab93fbe2eba353c2f397c90f5ffa469d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 06/62] fix: iMPS.canonicalise compared hand by identity, so an
 equal string could be ignored

---
 xmps/iMPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 5d87640..0c7ec2b 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -374,11 +374,11 @@ class iMPS(object):
 
         self.L = L_  # store singular value
 
-        if hand is 'r':
+        if hand == 'r':
             self.data[0] = G_ @ L_
-        elif hand is 'l':
+        elif hand == 'l':
             self.data[0] = L_ @ G_
-        elif hand is 'm':
+        elif hand == 'm':
             sqrtL_ = diag(sqrt(L))
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
-- 
2.43.0


From c6879d7b4e657b6bd8934b0003fb630ca54f2311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 07/62] fix: iMPS.E, iMPS.Es with a given gauge and ivMPS.E
 used the transposed operator

---
 xmps/iMPS.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 0c7ec2b..a87451d 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -420,15 +420,15 @@ class iMPS(object):
         if c == 'm':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0])))
+            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0])))
         if c == 'r':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0])))
+            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0])))
         if c == 'l':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0])))
+            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0])))
 
         if c is None:
             G, L = self.canonicalise(to_vidal=True).data[0]
@@ -453,19 +453,19 @@ class iMPS(object):
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0]))))
+                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0]))))
             return ret
         if c == 'r':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0]))))
             return ret
         if c == 'l':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0]))))
             return ret
 
         if c is None:
@@ -813,4 +813,4 @@ class ivMPS(object):
         # |    circle   |,      op
         # |      |1     |       |1
         #  - L - G - L -
-        return real_if_close(tensordot(circle, op, [[0, 1], [0, 1]]))
+        return real_if_close(tensordot(circle, op, [[0, 1], [1, 0]]))
-- 
2.43.0


From 83efdbe2eefd38c053476d9d2483d9b401ea91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 08/62] fix: mixed gauge iMPS was built from unnormalised
 Schmidt values

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index a87451d..bf528ea 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -379,7 +379,7 @@ class iMPS(object):
         elif hand == 'l':
             self.data[0] = L_ @ G_
         elif hand == 'm':
-            sqrtL_ = diag(sqrt(L))
+            sqrtL_ = sqrt(L_)
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
         if to_vidal:
-- 
2.43.0


From 7bf107a92b6dd69cd4e7a02a9a7d5af04236938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 09/62] fix: TransferMatrix.mvr was the transpose, not the
 adjoint rmatvec promises; iMPS.get_envs lacked self

---
 xmps/iMPS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index bf528ea..82c9f52 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -127,7 +127,7 @@ class TransferMatrix(object):
         """
         A = self.A
         l = l.reshape(A.shape[1:])
-        return sum(T(A) @ l @ C(A), axis=0).reshape(prod(A.shape[1:]))
+        return sum(cT(A) @ l @ A, axis=0).reshape(prod(A.shape[1:]))
 
     def aslinearoperator(self):
         """return linear operator representation - for arnoldi etc."""
@@ -146,6 +146,7 @@ class TransferMatrix(object):
             r0 = r0.reshape(self.shape[1])
         _,   r = arnoldi(self.aslinearoperator(), k=1, v0=r0)
         eta, l = arnoldi(self.aslinearoperator().H, k=1, v0=l0)
+        eta, l = c(eta), c(l)  # eigenvector of the adjoint -> left eigenvector
 
         r, l = (rotate_to_hermitian(r.reshape(A.shape[1:]))/sign(r[0]),
                 rotate_to_hermitian(l.reshape(A.shape[1:]))/sign(l[0]))
@@ -401,7 +402,7 @@ class iMPS(object):
         """eigs: dominant eigenvectors and values of the transfer matrix."""
         return self.transfer_matrix().eigs(l0, r0)
 
-    def get_envs():
+    def get_envs(self):
         _, self.l, self.r = self.eigs()
         return self.l, self.r
 
-- 
2.43.0


From fda93685150015d91c0553d3f6d86046b88eb7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 10/62] fix: rho_proj conjugated both states in the traced-out
 overlaps

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 85a2c34..037f657 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -994,7 +994,7 @@ class fMPS(object):
         '''
         if self.bond_dimension == 1 and single_string:
             not_sites = [site for site in range(self.L) if site not in sites]
-            partial_overlap = [np.squeeze(self[i]).conj().T@np.squeeze(other[i].conj()) for i in not_sites]
+            partial_overlap = [np.squeeze(self[i]).T@np.squeeze(other[i].conj()) for i in not_sites]
             return np.prod(partial_overlap)*reduce(np.kron, [ncon([np.squeeze(self[i])]+[np.squeeze(other[i].conj()).T], [[-1], [-2]]) for i in sites])
 
 
-- 
2.43.0


From 1725c855c21463092fab4ef803655dc72549228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 11/62] fix: infinite Trajectory.rk4 scaled its third stage by
 dt twice

---
 xmps/iTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index faf1957..53bff60 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -69,7 +69,7 @@ class Trajectory(object):
             self.Ds.append(mps.D)
         k1 = mps.dA_dt(H)
         k2 = (mps+k1/2*dt).dA_dt(H)
-        k3 = (mps+k2/2*dt).dA_dt(H)*dt
+        k3 = (mps+k2/2*dt).dA_dt(H)
         k4 = (mps+k3*dt).dA_dt(H)
 
         return (mps+(k1+2*k2+2*k3+k4)*dt/6).left_canonicalise()
-- 
2.43.0


From 7750c1a8c71c532c9a09268c3b8719edab830f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 12/62] fix: iMPS.right_null_projector raised NameError
 (parameter get_vR misnamed)

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 82c9f52..dad3b4a 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -647,7 +647,7 @@ class iMPS(object):
             return pr, vL
         return pr
 
-    def right_null_projector(self, get_vL=False):
+    def right_null_projector(self, get_vR=False):
         _, _, r = self.eigs()
         R_ = sw(c(self[0])@r, 0, 1)
         R = R_.reshape(-1, self.d*R_.shape[-1])
-- 
2.43.0


From 618c679a7e2f5b0edb1f8c70ed4b16fdaf971ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 13/62] fix: Hamiltonian rewrote the dictionary of terms it was
 given

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 28a145f..de328f3 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -18,7 +18,7 @@ class Hamiltonian(object):
 
     def __init__(self, strings=None, matrices=None, d=2):
         if strings is not None:
-            self.strings = strings
+            self.strings = dict(strings)  # expanded below: leave the caller's alone
             for key, val in {key:val for key, val in self.strings.items()}.items():
                 if len(key)==1:
                     self.strings['I'+key] = val
-- 
2.43.0


From 793c5aff438a08d83ce031e35508ae4f02c09dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 14/62] fix: Hamiltonian.to_full raised for a string
 hamiltonian, and kept the first length asked for

---
 xmps/Hamiltonians.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index de328f3..352b567 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -24,8 +24,8 @@ class Hamiltonian(object):
                     self.strings['I'+key] = val
                     self.strings[key+'I'] = val
                     self.strings.pop(key)
+        self.d = d # local hilbert space dimension
         if matrices is not None:
-            self.d = d # local hilbert space dimension
             self.matrices = matrices
 
     @property
@@ -129,12 +129,12 @@ class Hamiltonian(object):
         return self
 
     def to_full(self, L=None):
-        if not self.has_matrices:
-            if self.has_strings:
-                assert L is not None
+        if self.has_strings and L is not None:
+            if not self.has_matrices or self.L != L:
                 self.matrices = self.to_matrices(L)
-            else:
-                raise Exception('No strings or matrices')
+        elif not self.has_matrices:
+            assert not self.has_strings, 'length needed'
+            raise Exception('No strings or matrices')
         if self.has_matrices:
             total = np.zeros((2**self.L, 2**self.L))*1j
             for i, matrix in enumerate(self.matrices):
-- 
2.43.0


From e8993b812a8c2aa5179e537455065bb342af0ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 15/62] fix: Hamiltonian.to_matrices halved both fields of a
 two site chain

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 352b567..bead180 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -115,7 +115,7 @@ class Hamiltonian(object):
         H_L = Hamiltonian(h_L_strings)._squeeze()
         H_i = Hamiltonian(h_i_strings)._squeeze()
         if L==2:
-            return [H_i.to_matrix()]
+            return [self.to_matrix()]  # both sites are ends: each field in full
         elif L==3:
             return [H_0.to_matrix()] + [H_L.to_matrix()]
         else:
-- 
2.43.0


From a569e781dbd1dda327717cafda087fbfae199681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 16/62] fix: Hamiltonian.from_matrix took kron of the labels,
 without the Pauli normalisation

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index bead180..bbc7ccd 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -124,7 +124,7 @@ class Hamiltonian(object):
     def from_matrix(self, mat):
         xyz = list(S.keys())
         strings = list(product(xyz, xyz))
-        self.strings = {a+b:trace(kron(a, b)@mat) for a, b in strings}
+        self.strings = {a+b:trace(kron(S[a], S[b])@mat)/4 for a, b in strings}
         del self.strings['II']
         return self
 
-- 
2.43.0


From d8e2c411d378137a299c3eb23a64a92e764804ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 17/62] fix: swap_antisymmetrise returned the symmetric part

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 2629c62..b2d4472 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -66,13 +66,13 @@ def partial_trace(rho, keep, dims, optimize=False):
     return rho_a.reshape(Nkeep, Nkeep)
 
 def is_swap_symmetric(U):
-    return allclose(U-swap_antisymmetrise(U), 0)
+    return allclose(swap_antisymmetrise(U), 0)
 
 def swap_symmetrise(U):
     return (U+swap()@U@swap())/2
 
 def swap_antisymmetrise(U):
-    return (U+swap()@U@swap())/2
+    return (U-swap()@U@swap())/2
 
 def swap():
     return array([[1, 0, 0, 0],
-- 
2.43.0


From 07947c12832d220e5d55aeb3e3f2e92152f3be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 18/62] fix: U1 and U2 subscripted the function locals

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index b2d4472..5efe3e3 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -509,12 +509,12 @@ def locals():
 def U1(v):
     """U1 local unitary
     """
-    return expm(-1j*tensordot(v, locals[:3], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[:3], [0, 0]))
 
 def U2(v):
     """U2 local unitary
     """
-    return expm(-1j*tensordot(v, locals[3:], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[3:], [0, 0]))
 
 def U4(v):
     """U4 two site unitary
-- 
2.43.0


From e64b9792ea23d31276912a8aee55ddb094df0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 19/62] fix: direct_sum of rectangular matrices had blocks of
 the wrong shape

---
 xmps/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 2212f12..8051968 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -77,8 +77,7 @@ def eye_like(A):
 
 def direct_sum(A, B):
     (a1, a2), (b1, b2) = A.shape, B.shape
-    O = zeros((a2, b1))
-    return block([[A, O], [O.T, B]])
+    return block([[A, zeros((a1, b2))], [zeros((b1, a2)), B]])
     
 def haar_unitary(n):
     return qr(randn(n, n)+1j*randn(n, n))[0]
-- 
2.43.0


From 53d7bd7d6682731591dbae75fb8b28e5b288a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 20/62] fix: right_transfer with ret_all=False returned the
 operator untransferred

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 037f657..3329590 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -829,7 +829,7 @@ class fMPS(object):
         oplinks = list(range(-1, -len(op.shape)+1, -1))+[2, 3]
         for m in range(i+1, j+1):
             Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)+1], [1, 2, -len(op.shape)], oplinks]))
-        return (lambda n: Rs[n-i-1]) if ret_all else Rs[0]
+        return (lambda n: Rs[n-i-1]) if ret_all else Rs[j-i-1]
 
     def links(self, k=None, op=True):
         """links: op True: return the links for ncon for full contraction of this
-- 
2.43.0


From dfa38b95aa1175aeb3ddf6b5e7f12c6c64cb9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 21/62] fix: ncon appended to the contraction order it was
 given

---
 xmps/ncon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/ncon.py b/xmps/ncon.py
index 3508f1c..5c1a6dd 100644
--- a/xmps/ncon.py
+++ b/xmps/ncon.py
@@ -40,6 +40,8 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
 
     if order == None:
         order = create_order(v)
+    else:
+        order = list(order)  # connect_graph appends to it
     if forder == None:
         forder = create_forder(v)
 
-- 
2.43.0


From be184bc1fc4272ae55c0e311e580df0899e59342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 22/62] fix: canonicalise used non-orthonormal eigenvectors for
 degenerate Schmidt values

---
 xmps/tensor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 8051968..a47ce3a 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -3,7 +3,7 @@ import unittest
 from numpy.random import randn
 from scipy.sparse.linalg import eigs as arnoldi
 from scipy.linalg import qr, expm, norm, svd
-from numpy.linalg import eig as neig, eigvals, inv
+from numpy.linalg import eig as neig, eigh, eigvals, inv
 from numpy import swapaxes, count_nonzero, diag, insert, pad, dot, argmax, sqrt
 from numpy import allclose, array, tensordot, transpose, all, identity, squeeze
 from numpy import isclose, mean, sign, kron, zeros, conj, max, concatenate, eye
@@ -235,10 +235,11 @@ def tr_svd(A, D):
     return U[:, :D], diag(s[:D]), V[:D, :]
 
 def diagonalise(M):
-    """diagonalise: wrap eig better
-       :param M: matrix to diagonalise """
-    S, V = neig(M)
-    return (V, diag(S))
+    """diagonalise: wrap eigh better: eigenvectors are orthonormal, also
+       for degenerate eigenvalues, which are in decreasing order
+       :param M: hermitian matrix to diagonalise """
+    S, V = eigh(M)
+    return (V[:, ::-1], diag(S[::-1]))
 
 def rotate_to_hermitian(r, testing=False, ret_phase=False):
     """rotate_to_hermitian: arnoldi returns matrices that are hermitian up
-- 
2.43.0


From 02ef497d1def506b77c940a002f178931cc8d8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 23/62] fix: fTFD.dA_dt coupled the two copies, and dropped
 fullH

---
 xmps/fMPS.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 3329590..73714b6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2166,8 +2166,14 @@ class fTFD(fMPS):
         return pr
 
     def dA_dt(self, H, fullH=False):
-        H_ = [(kron(eye(len(h)), h)+kron(h, eye(len(h)))) for h in H]
-        dA_dt = super().dA_dt(H_, fullH)
+        def double(h, n):
+            # h on each copy: the legs of (copy 1)(copy 2) are put in site order
+            d = int(round(len(h)**(1/n)))
+            legs = [m+k*n for m in range(n) for k in range(2)]
+            h_ = kron(eye(len(h)), h)+kron(h, eye(len(h)))
+            return h_.reshape([d]*4*n).transpose(legs+[2*n+m for m in legs]).reshape(h_.shape)
+        H_ = double(H, self.L) if fullH else [double(h, 2) for h in H]
+        dA_dt = super().dA_dt(H_, fullH=fullH)
         return dA_dt
 
     def E(self, op, site, lr=0):
-- 
2.43.0


From 21bc848204a9c9018686fd0da35e4698340fccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 24/62] fix: fTFD.local_overlap rejected every state

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 73714b6..7182163 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2113,7 +2113,7 @@ class fTFD(fMPS):
         partition should be contiguous
         should be local overlap with fMPS (NOT fTFD)
         """
-        if not isinstance(other, 'fMPS'):
+        if not isinstance(other, fMPS):
             raise NotImplementedError('other should be an fMPS, set double to get the overlap with the embedded fTFD')
         if not other.bond_dimension == 1:
             raise NotImplementedError('Only implemented local overlaps for <ψψ|data>')
-- 
2.43.0


From f1dff0222d11f14beef400e69de2dc9a1eb25558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 25/62] fix: ddA_dt contracted the tangent vector without the
 metric

---
 xmps/fMPS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 7182163..c17304a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1247,6 +1247,8 @@ class fMPS(object):
         # down are the tensors acting on c(Aj), up act on Aj
         up, down = self.jac(H, False)
 
+        # pair the tangent vector with the metric
+        dA = [l(j-1)@dA[j]@r(j) for j in range(L)]
         ddA = [sum([td(down(i, j), c(dA[j]), [[3, 4, 5], [0, 1, 2]]) +
                     td(up(i, j),     dA[j],  [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
                for i in range(L)]
-- 
2.43.0


From 36ce8e6b20ea24af3cac3f5cbb114cc12f8a34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 26/62] fix: cache keys of F1, F2 and christoffel collided from
 12 sites on

---
 xmps/fMPS.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index c17304a..8365aa8 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1382,12 +1382,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F1_tot_ij_mem:
-                return self.F1_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F1_tot_ij_mem:
+                return self.F1_tot_ij_mem[(i_, j_)]
 
             ## have we cached its conjugate?
-            if str(j_)+str(i_) in self.F1_tot_ij_mem:
-                return c(tra(self.F1_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F1_tot_ij_mem:
+                return c(tra(self.F1_tot_ij_mem[(j_, i_)],
                                 [2, 3, 0, 1]))
 
         L, d, A = self.L, self.d, self.data
@@ -1629,7 +1629,7 @@ class fMPS(object):
             return G
 
         G_ = c(tra(G_, [2, 3, 0, 1])) if j_<i_ else G_
-        self.F1_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F1_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def F2(self, i_, j_, H, envs=None, inv_envs=None, prs_vLs=None, fullH=False, testing=False, id=None):
@@ -1646,12 +1646,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F2_tot_ij_mem:
-                return self.F2_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F2_tot_ij_mem:
+                return self.F2_tot_ij_mem[(i_, j_)]
 
             # have we cached its transpose?
-            if str(j_)+str(i_) in self.F2_tot_ij_mem:
-                return tra(self.F2_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F2_tot_ij_mem:
+                return tra(self.F2_tot_ij_mem[(j_, i_)],
                            [2, 3, 0, 1])
 
         L, d, A = self.L, self.d, self.data
@@ -1689,13 +1689,13 @@ class fMPS(object):
 
             d, Din_1, Di = self[i].shape
             if not d*Din_1==Di:
-                if str(i)+str(j) not in self.F2_ij_mem:
+                if (i, j) not in self.F2_ij_mem:
                     # new stuff
                     Rj_ = ncon([inv_ch_l(j-1)@c(vL(j)), A[j]@ch_r(j)], [[1, -2, -3], [1, -1, -4]])
                     Rjs_ = self.left_transfer(Rj_, i, j)
-                    self.F2_ij_mem_[str(i)+str(j)] = Rjs_
+                    self.F2_ij_mem_[(i, j)] = Rjs_
                 else:
-                    Rjs_ = self.F2_ij_mem_[str(i)+str(j)]
+                    Rjs_ = self.F2_ij_mem_[(i, j)]
 
                 if str(i) not in self.F2_i_mem:
                     # new stuff
@@ -1793,7 +1793,7 @@ class fMPS(object):
             return G
 
         G_ = tra(G_, [2, 3, 0, 1]) if j_<i_ else G_
-        self.F2_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F2_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def christoffel(self, i, j, k, envs=None, prs_vLs=None, id=None, testing=True, closed=(None, None, None)):
@@ -1810,12 +1810,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i)+str(j)+str(k) in self.christ_tot_ij_mem:
-                return self.christ_tot_ij_mem[str(i)+str(j)+str(k)]
+            if (i, j, k) in self.christ_tot_ij_mem:
+                return self.christ_tot_ij_mem[(i, j, k)]
 
             ## have we cached its conjugate?
-            if str(j)+str(i)+str(k) in self.christ_tot_ij_mem:
-                return tra(self.christ_tot_ij_mem[str(j)+str(i)+str(k)],
+            if (j, i, k) in self.christ_tot_ij_mem:
+                return tra(self.christ_tot_ij_mem[(j, i, k)],
                            [3, 4, 5, 0, 1, 2])
 
         L, d, A = self.L, self.d, self.data
@@ -1858,15 +1858,15 @@ class fMPS(object):
                     G = 1j*zeros((*A[i].shape, *A[j].shape, *A[k].shape))
             else:
                 if contracted:
-                    if str(i)+str(j) not in self.christ_ij_mem:
+                    if (i, j) not in self.christ_ij_mem:
                         if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
                             Rs = self.dA_cache[str(j)]
                         else:
                             R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
                             Rs = self.left_transfer(R, i, j)
-                            self.christ_ij_mem[str(i)+str(j)] = Rs
+                            self.christ_ij_mem[(i, j)] = Rs
                     else:
-                        Rs = self.christ_ij_mem[str(i)+str(j)]
+                        Rs = self.christ_ij_mem[(i, j)]
 
                     G = ncon([pr(i), closed[-1]@inv(r(i)), Rs(i+1), inv(r(i))], [[-1, -2, 1, 2], [1, 2, 3], [3, 4, -4, -5, -6], [4, -3]],
                              [1, 2, 3, 4])
@@ -1894,7 +1894,7 @@ class fMPS(object):
         else:
             Γ_c = Γ(i, j, k)
 
-        self.christ_tot_ij_mem[str(i)+str(j)+str(k)] = Γ_c
+        self.christ_tot_ij_mem[(i, j, k)] = Γ_c
         if contracted:
             return ungauge(Γ_c, i, j, (True, True))
         else:
-- 
2.43.0


From a7ca665ed49275b01edff044df62e7d4c210a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 27/62] fix: F1 was written for d=2 only

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 8365aa8..71fbfc6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1415,7 +1415,7 @@ class fMPS(object):
             d, Din_1, Di = self[i].shape
 
             if not d*Din_1==Di:
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
@@ -1493,7 +1493,7 @@ class fMPS(object):
             if testing:
                 G = 1j*zeros((*A[i].shape, *A[j].shape))
                 d, Din_1, Di = self[i].shape
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
                 Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
-- 
2.43.0


From be8b136b721bcd0d481346a8b7a5fe060b3266b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 28/62] fix: christoffel used the transfers cached by dA_dt for
 an earlier state

---
 xmps/fMPS.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 71fbfc6..9daa514 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1859,12 +1859,9 @@ class fMPS(object):
             else:
                 if contracted:
                     if (i, j) not in self.christ_ij_mem:
-                        if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
-                            Rs = self.dA_cache[str(j)]
-                        else:
-                            R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
-                            Rs = self.left_transfer(R, i, j)
-                            self.christ_ij_mem[(i, j)] = Rs
+                        R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
+                        Rs = self.left_transfer(R, i, j)
+                        self.christ_ij_mem[(i, j)] = Rs
                     else:
                         Rs = self.christ_ij_mem[(i, j)]
 
-- 
2.43.0


From eba8c619dee82889b99f3278851dc87461cf1e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 29/62] fix: F1 transposed the Hamiltonian and the environments
 in some of its terms

The terms with the perturbed ket and bra on or next to the same bond had the
bra and ket legs of h swapped, and two transfers were closed with their legs
exchanged; only a real symmetric Hamiltonian on a real state hides it.
---
 xmps/fMPS.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 9daa514..9b26c8a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1430,7 +1430,7 @@ class fMPS(object):
                 if str(j) not in self.F1_j_mem_:
                     # compute j properties, and store in cache
                     Ru_ = ncon([inv_ch_l(j-1)@vL(j), c(A[j])@ch_r(j)], [[1, -1, -3], [1, -2, -4]])
-                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -1, -3], [1, -2, -4]])
+                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -2, -3], [1, -1, -4]])
                     Rus_ = self.left_transfer(Ru_, 0, j)
                     Rbs_ = self.left_transfer(Rb_, 0, j)
 
@@ -1455,18 +1455,18 @@ class fMPS(object):
                         if j==i:
                             # BAHBA
                             G_ += ncon([vL(m), inv_ch_r(m)@Am_1@r(m+1)]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[5, 1, -3], [6, -4, 2], [5, 6, 3, 4], [3, 1, -1], [4, -2, 2]])
+                                        [[5, 1, -3], [6, -4, 2], [3, 4, 5, 6], [3, 1, -1], [4, -2, 2]])
 
                         elif j==i+1:
                             # ABHBA
                             G_ += ncon([Am, inv_ch_l(m)@vL(m+1)]+[h]+[ch_l(m-1)@c(vL(m)), inv_ch_r(m)@c(Am_1)@ch_r(m+1)],
-                                        [[5, 1, 2], [6, 2, -3], [5, 6, 3, 4], [3, 1, -1], [4, -2, -4]])
+                                        [[5, 1, 2], [6, 2, -3], [3, 4, 5, 6], [3, 1, -1], [4, -2, -4]])
                         else:
                             # AAHBA
                             O_ = ncon([ch_l(m-1)@Am, Am_1]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[3, 1, 2], [4, 2, -3], [3, 4, 5, 6], [5, 1, -1], [6, -2, -4]])
+                                        [[3, 1, 2], [4, 2, -3], [5, 6, 3, 4], [5, 1, -1], [6, -2, -4]])
 
-                            G_+= tensordot(O_, Rus_(m+2), [[-1, -2], [0, 1]])
+                            G_+= tensordot(O_, Rus_(m+2), [[-2, -1], [0, 1]])
                     elif m==i-1:
                         if j==i:
                             # ABHAB
@@ -1476,7 +1476,7 @@ class fMPS(object):
                         else:
                             # AAHAB
                             Q_ = ncon([l(m-1)@Am, Am_1]+[h]+[c(Am), inv_ch_l(m)@c(vL(m+1))],
-                                        [[4, 1, 2], [5, 2, -2], [4, 5, 6, 7], [6, 1, 3], [7, 3, -1]])
+                                        [[4, 1, 2], [5, 2, -2], [6, 7, 4, 5], [6, 1, 3], [7, 3, -1]])
 
                             G_ += tensordot(Q_, ncon([inv_ch_r(m+1), Rus_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [-1, 0])
                     elif m<i:
@@ -1498,7 +1498,7 @@ class fMPS(object):
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
                 Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
                 Ru = ncon([pr(j), c(A[j])], [[1, -1, -3, -4], [1, -2, -5]])
-                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -1], [1, -2, -6, -7], [-5, -8]])
+                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -2], [1, -1, -6, -7], [-5, -8]])
 
                 Lbs = self.right_transfer(Lb, i, L-1)
                 Rds = self.left_transfer(Rd, 0, i)
@@ -1523,18 +1523,18 @@ class fMPS(object):
                             if j==i:
                                 # BAHBA
                                 G += ncon([l(m-1)]+[pr(m), inv(r(m))@Am_1@r(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [1, 2, 3, 4], [-1, -2, 3, 6], [4, -3, 7]],
+                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [3, 4, 1, 2], [-1, -2, 3, 6], [4, -3, 7]],
                                             [5, 6, 7, 1, 2, 3, 4])
                             elif j==i+1:
                                 # ABHBA
                                 G += ncon([l(m-1)]+[Am, pr(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [1, 2, 3, 4], [-1, -2, 3, 5], [4, -3, -6]],
+                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [3, 4, 1, 2], [-1, -2, 3, 5], [4, -3, -6]],
                                             [5, 6, 1, 3, 7, 2, 4])
                             else:
                                 # AAHBA
                                 O = ncon([l(m-1)@Am, Am_1]+[h]+[pr(m), inv(r(m))@c(Am_1)],
                                             [[3, 6, 5], [4, 5, -4], [1, 2, 3, 4], [-1, -2, 1, 6], [2, -3, -5]]) #(A)ud
-                                G += tensordot(O, Rus(m+2), [[-1, -2], [0, 1]])
+                                G += tensordot(O, Rus(m+2), [[-2, -1], [0, 1]])
 
                         elif m==i-1:
                             if j==i:
@@ -1565,10 +1565,10 @@ class fMPS(object):
                                     [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]])
                         # BAHBA
                         M = ncon([l(m-1)]+[pr(m), inv(r(m))@Am_1]+[h]+[pr(m), inv(r(m))@c(Am_1)]+[r(m+1)],
-                                    [[5, 6], [1, 5, -4, -5], [2, -6, 7], [1, 2, 3, 4], [-1, -2, 3, 6], [4, -3, 8], [7, 8]])
+                                    [[5, 6], [1, 5, -4, -5], [2, -6, 7], [3, 4, 1, 2], [-1, -2, 3, 6], [4, -3, 8], [7, 8]])
                         # ABHBA
                         N = ncon([l(m-1)]+[Am, pr(m+1)]+[h]+[pr(m), r(m)@c(Am_1)],
-                                    [[5, 6], [1, 6, 7], [2, 7, -4, -5], [1, 2, 3, 4], [-1, -2, 3, 5], [4, -3, -6]])
+                                    [[5, 6], [1, 6, 7], [2, 7, -4, -5], [3, 4, 1, 2], [-1, -2, 3, 5], [4, -3, -6]])
                         # AAHBA
                         O = ncon([l(m-1)@Am, Am_1]+[h]+[pr(m), inv(r(m))@c(Am_1)],
                                     [[3, 6, 5], [4, 5, -4], [1, 2, 3, 4], [-1, -2, 1, 6], [2, -3, -5]]) #(A)ud
-- 
2.43.0


From 922015b19b52c8fdff30ccd9c7b9208f6cac6f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 30/62] fix: tangent vectors of a state whose full rank sites
 are not the leading ones

import_tangent_vector and jac took the sites without tangent directions to be
the first ones, and raised or misplaced the components otherwise.
---
 xmps/fMPS.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 9b26c8a..158c527 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1326,8 +1326,9 @@ class fMPS(object):
         def F2(i, k): return -1j*self.F2(i, k, H, envs=(l, r), inv_envs=inv_envs, prs_vLs=prs_vLs, id=id)
 
         sh = self.tangent_space_dims(l, vLs=vLs)
-        nulls = len([1 for (a, b) in sh if a==0 or b==0])
-        shapes = list(cs([prod([a, b]) for (a, b) in sh if a!=0 and a!=0]))
+        # sites with tangent directions
+        ns = [n for n, (a, b) in enumerate(sh) if a!=0 and b!=0]
+        shapes = list(cs([prod([a, b]) for (a, b) in sh if a!=0 and b!=0]))
         DD = shapes[-1]
         def ind(i):
             slices = [slice(a[0], a[1], 1)
@@ -1339,7 +1340,7 @@ class fMPS(object):
         Γ2_ = -1j*zeros((DD, DD))
         for i_ in range(len(shapes)):
             for j_ in range(len(shapes)):
-                i, j = i_+nulls, j_+nulls
+                i, j = ns[i_], ns[j_]
 
                 J1_ij = F1(i,j)
                 J2_ij = F2(i, j)
@@ -2003,14 +2004,12 @@ class fMPS(object):
     def import_tangent_vector(self, v, xs=False):
         l, r = self.get_envs()
         vLs, shapes = self.tangent_space_dims(l, get_vLs=True)
-        vLs = [vL for vL in vLs if prod(vL.shape)!=0]
-        S = [shape for shape in shapes if prod(shape)!=0]
-        nulls = len([shape for shape in shapes if prod(shape)==0])
-        vs = chop(v, cs([prod(s) for s in S]))
-        xs = [x.reshape(*shape) for x, shape in zip(vs, S)]
-        l_, r_ = lambda n: l(n+nulls), lambda n: r(n+nulls)
-        Bs = [zl(A) for A in self.data[:nulls]] + \
-             [inv(ch(l_(n-1)))@vL@x@inv(ch(r_(n))) for n, (vL, x) in enumerate(zip(vLs, xs))]
+        # sites with tangent directions
+        ns = [n for n, shape in enumerate(shapes) if prod(shape)!=0]
+        vs = chop(v, cs([prod(shapes[n]) for n in ns]))
+        Bs = [zl(A) for A in self.data]
+        for n, x in zip(ns, vs):
+            Bs[n] = inv(ch(l(n-1)))@vLs[n]@x.reshape(*shapes[n])@inv(ch(r(n)))
         return fMPS(Bs)
 
 def fs(X):
-- 
2.43.0


From 80085853b237385f0684e9b2918011b6ce6dd1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 31/62] fix: after edint, mps_list, mps_evs and mps_energies
 returned one state only

The bond dimensions of the states were not recorded, and canonicalising them
could strip zero Schmidt values, leaving a vector that cannot be read back.
---
 xmps/fTDVP.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c804f38..6b138e5 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -484,22 +484,25 @@ class Trajectory(object):
 
         return Ws
 
-    def mps_list(self):
+    def ed_to_mps(self):
+        """ed_to_mps: fill an empty mps_history from ed_history
+        """
         if hasattr(self, 'ed_history') and not self.mps_history:
+            self.Ds = []
             for x in tqdm(self.ed_history):
                 mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
+                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise(minD=False)
                 self.mps_history.append(mps.serialize(real=True))
+                self.Ds.append(mps.D)
+
+    def mps_list(self):
+        self.ed_to_mps()
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
         return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
 
     def mps_evs(self, ops, site):
-        if hasattr(self, 'ed_history') and not self.mps_history:
-            for x in self.ed_history:
-                mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
-                self.mps_history.append(mps.serialize(real=True))
+        self.ed_to_mps()
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
         return array([mps.Es(ops, site)
-- 
2.43.0


From a72ee5268f72dc1bde62640e49bd5886eddb145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 32/62] fix: loschmidt returned the Schmidt values after edint

---
 xmps/fTDVP.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 6b138e5..9554c21 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -545,13 +545,8 @@ class Trajectory(object):
 
     def loschmidt(self):
         if hasattr(self, 'ed_history'):
-            sch = []
-            mpss = []
-            print('calculating mps from ed...')
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(x.reshape([self.mps.d]*self.mps.L))
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
+            psi_0 = self.ed_history[0]
+            return [np.abs(psi_0.conj()@psi) for psi in self.ed_history]
         else:
             assert self.mps_history
             L, d, D = self.mps.L, self.mps.d, self.mps.D
-- 
2.43.0


From 7ded72e0c4c64425b8fe5a268114217104b91d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 33/62] fix: entropies of a trajectory raised when the bonds of
 the chain differ

---
 xmps/fTDVP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 9554c21..c40f099 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -557,12 +557,13 @@ class Trajectory(object):
             return lss
 
     def von_neumann(self, i=None):
-        sch = array(self.schmidts())
+        # zero Schmidt values (up to rounding) do not contribute
+        sch = [[s[s > 0] for s in map(re, S)] for S in self.schmidts()]
         S_max = array([max([-re(s@log(s)) for s in S]) for S in sch])
         return S_max
 
     def renyi(self, α=2):
-        sch = array(self.schmidts())
+        sch = [[s[s > 0] for s in map(re, S)] for S in self.schmidts()]
         R = array([max([1/(1-α)*log(sum(s**α)) for s in S]) for S in sch])
         return R
 
-- 
2.43.0


From ab7c5146bfe3a347dbb0556bb839ca59893185a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 34/62] fix: a cleared trajectory kept bond dimensions and
 exact states of the run before

---
 xmps/fTDVP.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c40f099..821f84c 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -574,6 +574,9 @@ class Trajectory(object):
     def clear(self):
         self.mps_history = []
         self.mps = self.mps_0.copy()
+        self.Ds = [self.mps.D]
+        if hasattr(self, 'ed_history'):
+            delattr(self, 'ed_history')
         if hasattr(self, 'lys'):
             delattr(self, 'lys')
 
-- 
2.43.0


From 39e2dc675d0ff8a695a0abd6f96850c206834f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 35/62] fix: energy, left environment and velocity of a complex
 uniform state mixed bra and ket bonds

---
 xmps/iMPS.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index dad3b4a..859f36f 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -491,7 +491,7 @@ class iMPS(object):
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
         self.e = tr(K@r)
         return real(self.e)
 
@@ -550,7 +550,7 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+            K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
             K -= l*tr(K@r)
             return K
 
@@ -666,7 +666,7 @@ class iMPS(object):
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
         self.e = tr(K@r)
 
         pr = self.left_null_projector()
@@ -675,9 +675,9 @@ class iMPS(object):
         K = self.Lh(H)
 
         B = -1j*zl(A)
-        B += -1j*ncon([l@C@r, pr, inv(r)@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+        B += -1j*ncon([l@C@r, pr, inv(r).T@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
         B += -1j*ncon([l@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
-        B += -1j *ncon([K, R], [[1, 2], [1, 2, -1, -2, -3]])
+        B += -1j *ncon([K, R], [[2, 1], [1, 2, -1, -2, -3]])
         B = iMPS([B])
         B.l, B.r, B.vL = l, r, self.vL
         return B
-- 
2.43.0


From 7b6c75a16c90091da981dfd1c457f62ef6d0efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 36/62] fix: right environment of a uniform state applied the
 right eigenmatrix twice

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 859f36f..7e060bb 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -596,7 +596,7 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([A.conj(), A.conj()@r]+[C@r], [[1, -1, 4], [2, 4, 3], [1, 2, -2, 3]]) #AAHAA
+            K = ncon([A.conj(), A.conj()]+[C@r], [[1, -1, 4], [2, 4, 3], [1, 2, -2, 3]]) #AAHAA
             K -= r*tr(l@K)
             return K
 
-- 
2.43.0


From 339c9d53654bdd817bce968c67f2c5909d16b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 37/62] fix: a PEPS built from tensors exchanged its width and
 height

---
 xmps/fPEPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index c629764..0decf9a 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -256,8 +256,8 @@ class fPEPS(object):
 
     def __init__(self, data=None, d=None, X=None):
         if data is not None:
-            self.Lx = len(data)
-            self.Ly = len(data[0])
+            self.Ly = len(data)
+            self.Lx = len(data[0])
             if d is not None:
                 self.d = d
             else:
-- 
2.43.0


From 7394b3ce063c56bbbaffa9f0c8d8a63f607d63d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 38/62] fix: truncating bonds of a PEPS between rows or columns
 used its width for its height

---
 xmps/fPEPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 0decf9a..394a478 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -421,7 +421,7 @@ class fPEPS(object):
 
     def truncate_below(self, row, D):
         '''truncate bonds below row to size D'''
-        if row == self.Lx-1:
+        if row == self.Ly-1:
             raise Exception('nothing below row L-1')
         self.data[row] = [x[:, :, :, :D, :] for x in self.data[row]]
         self.data[row+1] = [x[:, :D, :, :, :] for x in self.data[row+1]]
@@ -430,7 +430,7 @@ class fPEPS(object):
     def truncate_left(self, col, D):
         if col == 0:
             raise Exception('nothing to the left of col 0')
-        for row in range(self.Lx):
+        for row in range(self.Ly):
             self.data[row][col] = self.data[row][col][:, :, :, :, :D]
             self.data[row][col-1] = self.data[row][col-1][:, :, :D, :, :]
         return self
-- 
2.43.0


From ea0c7cfd0ce6e03aaa8a5bbec46e7963fdd68191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 39/62] fix: expectation values on a block of a PEPS took the
 operator in column order, not reading order

---
 xmps/fPEPS.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 394a478..0c88881 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -307,10 +307,10 @@ class fPEPS(object):
             raise NotImplementedError('only implemented for D=1')
         assert self.bond_dimension==1
         (x, y), (width, height) = sites
-        rhos = np.zeros((width, height, self.d, self.d))*1j
+        rhos = np.zeros((height, width, self.d, self.d))*1j
         for i, j in product(range(width), range(height)):
             dd = np.squeeze(self.data[y+j][x+i])
-            rhos[i, j] = np.outer(dd, dd.conj())
+            rhos[j, i] = np.outer(dd, dd.conj())
         return rhos
 
     def rho_proj(self, other, sites, single_string=True):
@@ -323,11 +323,11 @@ class fPEPS(object):
             raise NotImplementedError('only implemented for D=1')
         assert self.bond_dimension==1
         (x, y), (width, height) = sites
-        rhos = np.zeros((width, height, self.d, self.d))*1j
+        rhos = np.zeros((height, width, self.d, self.d))*1j
         for i, j in product(range(width), range(height)):
             dd = np.squeeze(self.data[y+j][x+i])
             ddother = np.squeeze(other.data[y+j][x+i])
-            rhos[i, j] = np.outer(dd, ddother.conj())
+            rhos[j, i] = np.outer(dd, ddother.conj())
         return rhos
 
     def from_state(self, state):
@@ -344,9 +344,9 @@ class fPEPS(object):
 
     def contract(self, sites, single_string=False):
         '''sites as a pair, coords_of_top_left, width_height,
-            contracts rows of peps that sites covers'''
+            contracts rows of peps that sites covers. physical indices in reading order'''
         (x, y), (width, height) = sites
-        E = self.row_contract(y, y+height).col_contract(x, x+width)
+        E = self.col_contract(x, x+width).row_contract(y, y+height)
         return E
 
     def E_k(self, op, sites):
-- 
2.43.0


From 3f0ac9f0782eab3bd0c2083431dfba2f34633148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 40/62] fix: norm and overlap of a PEPS one site wide raised

---
 xmps/fPEPS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 0c88881..1b034f0 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -243,6 +243,8 @@ class fMPO(object):
         return self
 
     def recombine(self):
+        if self.L == 1:
+            return np.trace(self.data[0], axis1=1, axis2=3).conj().T
         ncon_indices = [[-1, 1, -self.L-1, self.L+1]]+[[-n-2, n+2, -self.L-2-n, n+1]
                                                        for n in range(self.L-2)] + [[-self.L, self.L+1, -2*self.L, self.L-1]]
         M = ncon(self.data, ncon_indices)
-- 
2.43.0


From 60b503d4bdfcf1aee40c1e3cfbb9a171fce0e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 41/62] fix: column operators of a PEPS ignored the second
 state, and its transfer tensor raised

---
 xmps/fPEPS.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 1b034f0..96f0083 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -366,7 +366,7 @@ class fPEPS(object):
             for row, other_row in zip(self.data, other.data)]
 
     def col_mpos(self, other=None):
-        return self.T.row_mpos(None)
+        return self.T.row_mpos(None if other is None else other.T)
 
     @property
     def T(self):
@@ -710,8 +710,7 @@ class fPEPS(object):
 
     def tm(self, site):
         i, j = site
-        A = B = self.data[i][j]
-        return transfer_matrix(A)
+        return transfer_tensor(self.data[j][i])
 
     def apply(self, op, site):
         # indices go (across, down) from top left
-- 
2.43.0


From 469237e5dc28fc4f714a4321fb8d8aa39671889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 42/62] fix: embedding a finite state in a PEPS one site wide
 did not join its sites

---
 xmps/fPEPS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 96f0083..1db25bb 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -594,7 +594,10 @@ class fPEPS(object):
         for i in range(Lx):
             for j in range(Ly):
                 d, X1, X2 = reshaped[j][i].shape
-                if j % 2 == 0:
+                if Lx == 1:
+                    # straight down
+                    reshaped[j][i] = reshaped[j][i].reshape(d, X1, 1, X2, 1)
+                elif j % 2 == 0:
                     # going right
                     if i == Lx-1:
                         reshaped[j][i] = T(reshaped[j][i]).reshape(
-- 
2.43.0


From cbac74f8e7f61dbfd6fd4d626c5e1f9b43a2cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 43/62] fix: a trivial operator chain did not record its length

---
 xmps/fPEPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 1db25bb..eba9e74 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -231,6 +231,7 @@ class fMPO(object):
     def trivial(self, L):
         self.data = [np.ones(shape)
                      for shape in self.create_structure(L, 1, 1)]
+        self.L = L
         self.d = 1
         self.X = 1
         return self
-- 
2.43.0


From 0bc22836b0e4902c16dad5b86a775f5add6b2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 44/62] fix: amplitudes of a PEPS in snake order joined the
 wrong vertical bonds

---
 xmps/fPEPS.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index eba9e74..8276fa8 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -655,15 +655,11 @@ class fPEPS(object):
             res = reduce(col_contract, cols)
             return np.squeeze(res)
         elif qubit_ordering == 'row_snake':
-            cols = []
-            for i, row in enumerate(self.data):
-                if i % 2 == 0:
-                    cols.append(reduce(row_contract, row))
-                else:
-                    cols.append(
-                        reduce(row_contract, [x.transpose([0, 1, 4, 3, 2]) for x in row[::-1]]))
-            res = reduce(col_contract, cols)
-            return np.squeeze(res)
+            # odd rows are read right to left
+            dims = [x.shape[0] for row in self.data for x in row]
+            order = [j*self.Lx + (i if j % 2 == 0 else self.Lx-1-i)
+                     for j in range(self.Ly) for i in range(self.Lx)]
+            return self.recombine().reshape(dims).transpose(order).reshape(-1)
 
     def environment(self, site):
         # this is a mess.
-- 
2.43.0


From c58e916dc99f1dcd78aff53413e13ef429175e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 45/62] fix: right_transfer exchanged bra and ket at every
 site, so F1(i, i) was wrong on chains of five or more sites

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 158c527..5eeb8ad 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -828,7 +828,7 @@ class fMPS(object):
         Rs = [op]
         oplinks = list(range(-1, -len(op.shape)+1, -1))+[2, 3]
         for m in range(i+1, j+1):
-            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)+1], [1, 2, -len(op.shape)], oplinks]))
+            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 2, -len(op.shape)+1], [1, 3, -len(op.shape)], oplinks]))
         return (lambda n: Rs[n-i-1]) if ret_all else Rs[j-i-1]
 
     def links(self, k=None, op=True):
-- 
2.43.0


From 59240e63841ccf58f09578c730413540c60a6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 46/62] fix: tangent_state raised unless the null space was
 given

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 5eeb8ad..362eb71 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1931,7 +1931,7 @@ class fMPS(object):
 
     def tangent_state(self, x, n, envs=None, vL=None):
         l , r = self.get_envs() if envs is None else envs
-        _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else 1, vL
+        _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else (1, vL)
         return fMPS([inv(ch(l(n-1)))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
 
     def tangent_space_dims(self, l=None, get_vLs=False, vLs=None):
-- 
2.43.0


From 4a77c897c6f22e18e8abbcb957d9e9ce8d66aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 47/62] fix: 1-based indexing of states skipped two sites

---
 xmps/fMPS.py | 2 +-
 xmps/iMPS.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 362eb71..ed66dce 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -174,7 +174,7 @@ class fMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 7e060bb..d475eb6 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -178,7 +178,7 @@ class iMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
-- 
2.43.0


From 86c41b67f1e112cc8ecf95f8814d295042223e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 48/62] fix: states of different length or bond dimension
 compared equal

---
 xmps/fMPS.py | 4 ++--
 xmps/iMPS.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ed66dce..7fff7b0 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -193,8 +193,8 @@ class fMPS(object):
 
         :param other:
         """
-        return array(
-            [allclose(a, b) for a, b in zip(self.data, other.data)]).all()
+        return len(self) == len(other) and array(
+            [a.shape == b.shape and allclose(a, b) for a, b in zip(self.data, other.data)]).all()
 
     def __ne__(self, other):
         """__ne__
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index d475eb6..9acadd0 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -197,8 +197,8 @@ class iMPS(object):
 
         :param other:
         """
-        return array(
-            [allclose(a, b) for a, b in zip(self.data, other.data)]).all()
+        return len(self) == len(other) and array(
+            [a.shape == b.shape and allclose(a, b) for a, b in zip(self.data, other.data)]).all()
 
     def __ne__(self, other):
         """__ne__
-- 
2.43.0


From 3b3d04907be1dcf3b5abed01e89dd55504465cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 49/62] fix: a state whose tensor was replaced still counted as
 orthogonal

---
 xmps/fMPS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 7fff7b0..bb195bd 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -187,6 +187,7 @@ class fMPS(object):
         """__setitem__
         """
         self.data[key] = value
+        self.oc, self.canonical, self.orthogonal = None, False, False
 
     def __eq__(self, other):
         """__eq__
@@ -621,7 +622,6 @@ class fMPS(object):
         """
         self.ok = True
         self.right_canonicalise(D, minD=False, sweep_back=sweep_back)
-        self.oc = oc  # right_canonicalise resets it
 
         def split(M):
             """split: Do SVD and reshape A matrix
@@ -644,6 +644,7 @@ class fMPS(object):
 
         self.canonical = True
         self.orthogonal = True
+        self.oc = oc
         return self
 
     def right_orthogonalise(self, fr=0, to=None):
-- 
2.43.0


From 00be82f242b0856cce527039fcbae1016663ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 50/62] fix: a partial sweep left the old orthogonality centre
 in force

---
 xmps/fMPS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index bb195bd..2933efc 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -663,6 +663,8 @@ class fMPS(object):
         if fr == 0 and to == self.L:
             self.orthogonal = True
             self.oc = 0
+        else:
+            self.oc, self.canonical, self.orthogonal = None, False, False
         return self
 
     def left_orthogonalise(self, fr=0, to=None):
@@ -681,6 +683,8 @@ class fMPS(object):
         if fr == 0 and to == self.L:
             self.orthogonal = True
             self.oc = self.L
+        else:
+            self.oc, self.canonical, self.orthogonal = None, False, False
         return self
 
     def mixed_orthogonalise(self, oc, current_oc=None):
-- 
2.43.0


From 07aabc8211a129a9eec2e79b8f0f585874b2615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 51/62] fix: a randomised state kept the orthogonality centre
 of its past

---
 xmps/fMPS.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 2933efc..ac50d3c 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -408,6 +408,7 @@ class fMPS(object):
         """
         self.L = L
         self.d = d
+        self.oc, self.canonical, self.orthogonal = None, False, False
         if D == 1:
             self.D = 1
             # random product states
@@ -429,8 +430,6 @@ class fMPS(object):
                 for shape in self.create_structure(L, d, D)]
         self.D = max([max(shape[1:]) for shape in self.create_structure(L, d, D)])
         self.data = MPS
-        self.canonical = False
-        self.orthogonal = False
         return self
 
     def create_structure(self, L, d, D, phys=False):
-- 
2.43.0


From ed5fcba0765f6a51287b9bea736b4de7f6a8c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 52/62] fix: random product states were qubits for any local
 dimension

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ac50d3c..8b50cb9 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -409,7 +409,7 @@ class fMPS(object):
         self.L = L
         self.d = d
         self.oc, self.canonical, self.orthogonal = None, False, False
-        if D == 1:
+        if D == 1 and d == 2:
             self.D = 1
             # random product states
             V = randn(L, 3)
-- 
2.43.0


From 4df39303127b00715f661545a35f54feabbc505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 53/62] fix: grids of different size compared equal

---
 xmps/fPEPS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 8276fa8..15efa7f 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -294,9 +294,12 @@ class fPEPS(object):
         elif hasattr(other, 'd'):
             return False
 
+        if [len(row) for row in self.data] != [len(row) for row in other.data]:
+            return False
+
         for row, row_ in zip(self.data, other.data):
             for A, A_ in zip(row, row_):
-                if not np.allclose(A.shape, A_.shape):
+                if A.shape != A_.shape:
                     return False
                 eq = eq and np.allclose(A, A_)
         return eq
-- 
2.43.0


From 0b24d0e35fd7cb717161b518f1ecac2d184a1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 54/62] fix: uniform states of bond dimension one could not be
 canonicalised

---
 xmps/iMPS.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 9acadd0..98a6137 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -8,13 +8,13 @@ from numpy import trace as tr, reshape, real, imag, concatenate
 from numpy import real as re, imag as im, copy, swapaxes as sw
 from numpy import all, eye, isclose, reshape, swapaxes, trace as tr
 from numpy import concatenate, array, stack, sum, identity, zeros, abs 
-from numpy import sqrt, real_if_close, around, prod, sign, newaxis
+from numpy import ones, sqrt, real_if_close, around, prod, sign, newaxis
 from numpy import concatenate as ct, split as chop, save, load
 
 from numpy.linalg import cholesky, eigvals, svd, inv, norm
 from numpy.linalg import inv, cholesky as ch
 
-from scipy.sparse.linalg import LinearOperator, eigs as arnoldi
+from scipy.sparse.linalg import LinearOperator, eigs as arpack
 from scipy.linalg import svd as svd_s, cholesky as cholesky_s
 from scipy.linalg import null_space as null
 from scipy.optimize import root
@@ -33,6 +33,12 @@ from .spin import spins
 Sx, Sy, Sz = spins(0.5)
 import numpy as np
 
+def arnoldi(operator, k=1, v0=None, tol=0):
+    """arnoldi: leading eigenpairs. ARPACK doesn't do 1x1 matrices: bond dimension 1"""
+    if operator.shape == (1, 1):
+        return operator@ones(1), ones((1, 1))
+    return arpack(operator, k=k, v0=v0, tol=tol)
+
 class Map(object):
     """Map: transfer matrix with A and B"""
 
-- 
2.43.0


From 37175849a2aec353a4847af8912dac8fa1eb7b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 55/62] fix: the AKLT example was not the AKLT state

---
 xmps/mps_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/mps_examples.py b/xmps/mps_examples.py
index 2ecc274..c39f41b 100644
--- a/xmps/mps_examples.py
+++ b/xmps/mps_examples.py
@@ -136,7 +136,7 @@ def AKLT():
     sp, sm = ladders(0.5)
     
     Ap = sqrt(2/3)*sp
-    A0 = -sqrt(1/2)*sz
+    A0 = -sqrt(4/3)*sz
     Am= -sqrt(2/3)*sm
     return iMPS([stack([Ap, A0, Am], 0)])
 
-- 
2.43.0


From 21f1b901354a9a60304f4f0a6d78b980cbc7e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 56/62] fix: projected dynamics in any gauge (keep full
 environments off canonical form, conjugate them consistently)

---
 xmps/fMPS.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 8b50cb9..b3a5b5c 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -528,7 +528,7 @@ class fMPS(object):
                 and self.is_full_rank\
                 and self.has_trace_1
 
-        self.canonical = True
+        self.canonical = sweep_back and minD  # environments are diagonal
         self.orthogonal = True
         self.oc = 0
         return self
@@ -606,7 +606,7 @@ class fMPS(object):
                 and self.is_full_rank\
                 and self.has_trace_1
 
-        self.canonical=True
+        self.canonical = sweep_back and minD  # environments are diagonal
         self.orthogonal=True
         self.oc = self.L
         return self
@@ -641,7 +641,7 @@ class fMPS(object):
             self.ok = self.ok and is_left_canonical(self.data[:oc])\
                               and is_right_canonical(self.data[oc+1:])
 
-        self.canonical = True
+        self.canonical = False
         self.orthogonal = True
         self.oc = oc
         return self
@@ -793,16 +793,20 @@ class fMPS(object):
     def get_envs(self, store_envs=False):
         """get_envs: return all envs (slow). indexing is a bit weird: l(-1) is |=
            returns: fns tuple of functions l, r"""
+        def env(x):
+            # diagonal in canonical form: drop the rounding, weights can be tiny
+            return diag(diag(re(x))) if self.canonical else x
+
         def get_l(mps):
             ls = [array([[1]])]
             for n in range(len(mps)):
-                ls.append(diag(diag(sum(re(cT(mps[n]) @ ls[-1] @ mps[n]), axis=0))))
+                ls.append(env(sum(cT(mps[n]) @ ls[-1] @ mps[n], axis=0)))
             return lambda n: ls[n+1]
 
         def get_r(mps):
             rs = [array([[1]])]
             for n in range(len(mps))[::-1]:
-                rs.append(diag(diag(sum(re(mps[n] @ rs[-1] @ cT(mps[n])), axis=0))))
+                rs.append(env(sum(mps[n] @ rs[-1] @ cT(mps[n]), axis=0)))
             return lambda n: rs[::-1][n+1]
 
         if store_envs:
@@ -1210,15 +1214,15 @@ class fMPS(object):
 
                     Am, Am_1 = self.data[m:m+2]
                     C = ncon([h]+[Am, Am_1], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-                    K = ncon([l(m-1)@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+                    K = ncon([c(l(m-1))@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
                     e.append(trace(K@r(m+1)))
                     #C -= trace(K@r(m+1))
                     #K -= trace(K@r(m+1))
 
                     if m==i:
-                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), inv(r(m))@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), c(inv(r(m)))@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
                     if m==i-1:
-                        B += -1j *ncon([l(m-1)@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
+                        B += -1j *ncon([c(l(m-1))@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
                     if m < i-1:
                         B += -1j *ncon([K, Rs(m+2)], [[1, 2], [1, 2, -1, -2, -3]])
                 self.e = e
@@ -1916,7 +1920,8 @@ class fMPS(object):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        V = inv(cT(ch(l(n-1))))@vL
+        pr = ncon([V, c(V)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
@@ -1936,7 +1941,7 @@ class fMPS(object):
     def tangent_state(self, x, n, envs=None, vL=None):
         l , r = self.get_envs() if envs is None else envs
         _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else (1, vL)
-        return fMPS([inv(ch(l(n-1)))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
+        return fMPS([inv(cT(ch(l(n-1))))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
 
     def tangent_space_dims(self, l=None, get_vLs=False, vLs=None):
         l, _ = self.get_envs() if l is None else (l, None)
@@ -2001,7 +2006,7 @@ class fMPS(object):
                 continue
             _, vL = self.left_null_projector(n, get_vL=True, store_envs=True)
             l, r = self.l, self.r
-            x = ncon([c(vL), ch(l(n-1))@dA[n]@ch(r(n))], [[1, 2, -1], [1, 2, -2]])
+            x = ncon([c(vL), cT(ch(l(n-1)))@dA[n]@ch(r(n))], [[1, 2, -1], [1, 2, -2]])
             xs.append(x.reshape(-1))
         return ct(xs)
 
@@ -2013,7 +2018,7 @@ class fMPS(object):
         vs = chop(v, cs([prod(shapes[n]) for n in ns]))
         Bs = [zl(A) for A in self.data]
         for n, x in zip(ns, vs):
-            Bs[n] = inv(ch(l(n-1)))@vLs[n]@x.reshape(*shapes[n])@inv(ch(r(n)))
+            Bs[n] = inv(cT(ch(l(n-1))))@vLs[n]@x.reshape(*shapes[n])@inv(ch(r(n)))
         return fMPS(Bs)
 
 def fs(X):
@@ -2162,7 +2167,8 @@ class fTFD(fMPS):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        V = inv(cT(ch(l(n-1))))@vL
+        pr = ncon([V, c(V)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
-- 
2.43.0


From fcb6894a0a69473700c72252d67ebb410fe92a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 57/62] fix: scipy-integrated trajectories (missing import,
 velocity taken at another gauge, forced step size, unreadable history)

---
 xmps/fTDVP.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 821f84c..1d8ecba 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -33,6 +33,7 @@ import numpy as np
 
 from scipy.linalg import sqrtm, expm, norm, null_space as null, cholesky as ch
 from scipy.sparse.linalg import expm_multiply, expm
+from scipy.integrate import solve_ivp
 
 from matplotlib import pyplot as plt
 from functools import reduce
@@ -194,7 +195,6 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
         bar = tqdm()
-        m = 0
 
         def f(t, v):
             """f_odeint: f acting on real vector
@@ -203,25 +203,18 @@ class Trajectory(object):
             :param t: Time
             """
             bar.update()
-            nonlocal m
-            m += 1
-            if m == 4:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .left_canonicalise()\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
-            else:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
+            return fMPS().deserialize(v, L, d, D, real=True)\
+                .dA_dt(H, fullH=self.fullH)\
+                .serialize(real=True)
 
         v = mps.serialize(real=True)
         Q = solve_ivp(f, (T[0], T[-1]), v, method='LSODA', t_eval=T,
-                      max_step=T[1]-T[0], min_step=T[1]-T[0])
+                      max_step=T[1]-T[0])
         traj = Q.y.T
         bar.close()
 
-        self.mps_history = traj
+        self.mps_history = list(traj)
+        self.Ds = [D]*(len(traj)+1)
         self.mps = fMPS().deserialize(traj[-1], L, d, D, real=True)
         return self
 
-- 
2.43.0


From 44ec5d9317126b2330f5a91884efa72660e4fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 58/62] fix: exact evolution of chains of sites other than
 qubits

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 1d8ecba..4aa44bd 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -223,7 +223,7 @@ class Trajectory(object):
         """
         H = self.H
         psi_0 = self.mps.recombine().reshape(-1)
-        H = sum([n_body(a, i, len(H), d=2)
+        H = sum([n_body(a, i, len(H), d=self.mps.d)
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         psi_n = psi_0
         self.ed_history = [psi_0]
@@ -510,7 +510,7 @@ class Trajectory(object):
         assert self.H is not None
         assert hasattr(self, 'ed_history')
         H = self.H
-        H = sum([n_body(a, i, len(H), d=2)
+        H = sum([n_body(a, i, len(H), d=self.mps.d)
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         return self.ed_evs([H])
 
-- 
2.43.0


From 1b9cbd80dd253ca446f6d887ef4f1c0adf2e4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 59/62] fix: reading back a trajectory whose bond dimension
 changed

---
 xmps/fTDVP.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 4aa44bd..0b6b83c 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -515,8 +515,8 @@ class Trajectory(object):
         return self.ed_evs([H])
 
     def deserialize(self):
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return list(map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history))
+        L, d = self.mps.L, self.mps.d
+        return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
 
     def schmidts(self):
         if hasattr(self, 'ed_history'):
@@ -542,12 +542,8 @@ class Trajectory(object):
             return [np.abs(psi_0.conj()@psi) for psi in self.ed_history]
         else:
             assert self.mps_history
-            L, d, D = self.mps.L, self.mps.d, self.mps.D
-            psi_0 = fMPS().deserialize(self.mps_history[0], L, d, D, real=True)
-            lss = []
-            for psi in map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history):
-                lss.append(np.abs(psi_0.overlap(psi)))
-            return lss
+            psis = self.deserialize()
+            return [np.abs(psis[0].overlap(psi)) for psi in psis]
 
     def von_neumann(self, i=None):
         # zero Schmidt values (up to rounding) do not contribute
-- 
2.43.0


From 0cc8951ab4a06b3eb6d9b52c47135e92c77775e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:34 +0000
Subject: [PATCH 60/62] fix: the sum of two one-site states is a one-site state

Adding chains of a single site joined the tensors along their right bond,
so the result had an open bond of dimension two.
---
 xmps/fMPS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index b3a5b5c..c1c66e5 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -219,6 +219,8 @@ class fMPS(object):
     def add(self, other):
         """add: proper mps addition here
         """
+        if self.L == 1:
+            return fMPS([self[0]+other[0]])
         new_data = [1j*np.zeros((self[i].shape[0], self[i].shape[1]+other[i].shape[1], self[i].shape[2]+other[i].shape[2])) for i in range(self.L)]
         for i in range(self.L):
             if i == 0:
@@ -2081,6 +2083,8 @@ class fTFD(fMPS):
     def add(self, other):
         """add: proper mps addition here
         """
+        if self.L == 1:
+            return fTFD([self[0]+other[0]])
         new_data = [1j*np.zeros((self[i].shape[0], self[i].shape[1]+other[i].shape[1], self[i].shape[2]+other[i].shape[2])) for i in range(self.L)]
         for i in range(self.L):
             if i == 0:
-- 
2.43.0


From 17d92af5653e85bb93deab3abba92dbe1b141d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:26 +0000
Subject: [PATCH 61/62] fix: Lyapunov spectra raised on every run, and on any
 starting basis given as an array

The running averages started from an array of another length, which numpy
no longer stacks, and the array was compared with the name of a basis.
---
 xmps/fTDVP.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 0b6b83c..148c7af 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -303,6 +303,8 @@ class Trajectory(object):
 
         if hasattr(self, 'Q'):
             Q = self.Q
+        elif not isinstance(initial_basis, str):
+            Q = initial_basis
         elif initial_basis == 'F2':
             Q = self.mps.tangent_space_basis(H=H, type=initial_basis)
         elif initial_basis == 'eye' or initial_basis == 'rand':
@@ -318,10 +320,10 @@ class Trajectory(object):
         dt = T[1]-T[0]
 
         lys = []
-        exps = [array([0])]
+        exps = [zeros(Q.shape[1])]
 
         lys_ = []
-        exps_ = [array([0])]
+        exps_ = [zeros(Q.shape[1])]
 
         self.vs = []
 
-- 
2.43.0


From 8d887b08a947bfb9529bf8bac324d149c7d23eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:26 +0000
Subject: [PATCH 62/62] fix: saving a run of the largest exponent wrote its
 state beside the folder asked for

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 148c7af..e336ee8 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -581,7 +581,7 @@ class Trajectory(object):
         if exps:
             if hasattr(self, 'q'):
                 save(loc+'bases/'+self.id+'_basis', self.q)
-                self.mps.store('loc'+'bases/'+self.id+'_state')
+                self.mps.store(loc+'bases/'+self.id+'_state')
             elif hasattr(self, 'Q'):
                 save(loc+'bases/'+self.id+'_basis', self.Q)
                 self.mps.store(loc+'bases/'+self.id+'_state')
-- 
2.43.0

