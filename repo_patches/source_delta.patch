From 5cd42ddfa936dfb273e176bdf57ce50f5d9b67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 001/111] fix: in-place addition/subtraction of hamiltonians
 referred to the undefined name `new`

---
 quspin/operators/hamiltonian_core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 3658387..1af5001 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2315,7 +2315,7 @@ class hamiltonian(object):
 		else:
 			other = _np.asanyarray(other)
 			self._mat_checks(other)	
-			return self._sub_dense(other)
+			return self._isub_dense(other)
 
 	##########################################################################################	
 	##########################################################################################
@@ -2453,9 +2453,9 @@ class hamiltonian(object):
 				try:
 					self._dynamic[func] -= Hd
 				except NotImplementedError:
-					self._dynamic[func] = new._dynamic[func] - Hd
+					self._dynamic[func] = self._dynamic[func] - Hd
 
-				if _check_almost_zero(new._dynamic[func]):
+				if _check_almost_zero(self._dynamic[func]):
 					self._dynamic.pop(func)
 
 			else:
@@ -2815,7 +2815,7 @@ class hamiltonian(object):
 		try: 
 			self._static += other
 		except:
-			self._static = new._static + other
+			self._static = self._static + other
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
@@ -2864,8 +2864,8 @@ class hamiltonian(object):
 		except:
 			self._static = self._static - other
 
-		if _check_almost_zero(new._static):
-			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
+		if _check_almost_zero(self._static):
+			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		self.check_is_dense()
 		self._get_matvecs()
-- 
2.43.0


From bb3471c9ced5403e581b85656da8bcdb001ba536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 002/111] fix: hamiltonian products mixed up elementwise/matrix
 products and left/right factors

---
 quspin/operators/hamiltonian_core.py | 60 +++++++++++++---------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 1af5001..ac388fb 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -118,6 +118,16 @@ class HamiltonianEfficiencyWarning(Warning):
 #global names:
 supported_dtypes=tuple([_np.float32, _np.float64, _np.complex64, _np.complex128])
 
+def _mat_mul(A,B):
+	"""Matrix product for any combination of sparse and dense matrices (never returns a `numpy.matrix`)."""
+	if _sp.issparse(A) or _sp.issparse(B):
+		C = A * B
+	else:
+		C = _np.matmul(A,B)
+
+	return (C if _sp.issparse(C) else _np.asarray(C))
+
+
 def _check_static(sub_list):
 	"""Checks format of static list. """
 	if (type(sub_list) in [list,tuple]) and (len(sub_list) == 2):
@@ -2496,34 +2506,18 @@ class hamiltonian(object):
 			# create new dynamic operators coming from
 		
 			# self.static * other.static
-			if _sp.issparse(self.static):
-				new_static_op = self.static.dot(other._static)
-			elif _sp.issparse(other._static):
-				new_static_op = self.static * other._static
-			else:
-				new_static_op = _np.matmul(self.static,other._static)
+			new_static_op = _mat_mul(self.static,other._static)
 
 			# self.static * other.dynamic
 			for func,Hd in iteritems(other._dynamic):
-				if _sp.issparse(self.static):
-					Hmul = self.static.dot(Hd)
-				elif _sp.issparse(Hd):
-					Hmul = self.static * Hd
-				else:
-					Hmul = _np.matmul(self.static,Hd)
+				Hmul = _mat_mul(self.static,Hd)
 
 				if not _check_almost_zero(Hmul):
 					new_dynamic_ops[func] = Hmul
 
 			# self.dynamic * other.static
 			for func,Hd in iteritems(self._dynamic):
-				if _sp.issparse(Hd):
-					Hmul = Hd.dot(other._static)
-				elif _sp.issparse(other._static):
-					Hmul = Hd * other._static
-				else:
-					Hmul = _np.matmul(Hd,other._static)
-
+				Hmul = _mat_mul(Hd,other._static)
 
 				if func in new_dynamic_ops:
 					try:
@@ -2543,12 +2537,7 @@ class hamiltonian(object):
 			for func1,H1 in iteritems(self._dynamic):
 				for func2,H2 in iteritems(other._dynamic):
 
-					if _sp.issparse(H1):
-						H12 = H1.dot(H2)
-					elif _sp.issparse(H2):
-						H12 = H1 * H2
-					else:
-						H12 = _np.matmul(H1,H2)
+					H12 = _mat_mul(H1,H2)
 
 					func12 = func1 * func2
 
@@ -2567,12 +2556,19 @@ class hamiltonian(object):
 			self._static = new_static_op
 			self._dynamic = new_dynamic_ops
 			self._dtype = new_static_op.dtype
+			self.check_is_dense()
 			self._get_matvecs()
 			return self
 		elif self.dynamic:
 			return self._imul_sparse(other.static)
 		elif other.dynamic:
-			return (other.T._imul_sparse(self.static.T)).T
+			result = other._rmul_sparse(self.static)
+			self._static = result._static
+			self._dynamic = result._dynamic
+			self._dtype = result._dtype
+			self.check_is_dense()
+			self._get_matvecs()
+			return self
 		else:
 			return self._imul_sparse(other.static)
 
@@ -2650,14 +2646,14 @@ class hamiltonian(object):
 		result_dtype = _np.result_type(self._dtype, other.dtype)
 		new=self.astype(result_dtype,copy=True)
 
-		new._static = new._static * other
+		new._static = _mat_mul(new._static,other)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
 
 		for func in list(new._dynamic):
-			new._dynamic[func] = new._dynamic[func] * other
+			new._dynamic[func] = _mat_mul(new._dynamic[func],other)
 
 			if _check_almost_zero(new._dynamic[func]):
 				new._dynamic.pop(func)
@@ -2676,13 +2672,13 @@ class hamiltonian(object):
 
 		# proform multiplication on all matricies of the new hamiltonian object.
 
-		new._static = other * new._static
+		new._static = _mat_mul(other,new._static)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
 		for func in list(new._dynamic):
-			new._dynamic[func] = other.dot(new._dynamic[func])
+			new._dynamic[func] = _mat_mul(other,new._dynamic[func])
 
 			try:
 				new._dynamic[func].sum_duplicates()
@@ -2700,13 +2696,13 @@ class hamiltonian(object):
 	def _imul_sparse(self,other):
 
 
-		self._static =self._static * other
+		self._static = _mat_mul(self._static,other)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		for func in list(self._dynamic):
-			self._dynamic[func] = other.dot(self._dynamic[func])
+			self._dynamic[func] = _mat_mul(self._dynamic[func],other)
 
 			try:
 				self._dynamic[func].sum_duplicates()
-- 
2.43.0


From 3e4ff097b7d0fbccde8299539f6bd419feef1184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 003/111] fix: hamiltonian.__rmul__ with two time-dependent
 hamiltonians multiplied in the wrong order

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index ac388fb..6e8204c 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2490,8 +2490,8 @@ class hamiltonian(object):
 
 	def _rmul_hamiltonian(self,other):
 		if self.dynamic and other.dynamic:
-			new = other.astype(self._dtype)
-			return (new.T._imul_hamiltonian(self.T)).T #lazy implementation
+			new = other.astype(other._dtype)
+			return new._imul_hamiltonian(self)
 		elif self.dynamic:
 			return self._rmul_sparse(other.static)
 		elif other.dynamic:
-- 
2.43.0


From 56f15c815cdf5a6accbc2d16886dd8cf892ed475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 004/111] fix: mixing sparse and dense operators left
 numpy.matrix objects inside hamiltonian, for which dot() fails

---
 quspin/operators/hamiltonian_core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 6e8204c..3b93107 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -568,6 +568,14 @@ class hamiltonian(object):
 		self._is_dense = not is_sparse
 
 	def _get_matvecs(self):
+		# mixing dense and sparse operators yields `numpy.matrix` objects, which do not behave like arrays.
+		if isinstance(self._static,_np.matrix):
+			self._static = _np.asarray(self._static)
+
+		for func,Hd in iteritems(self._dynamic):
+			if isinstance(Hd,_np.matrix):
+				self._dynamic[func] = _np.asarray(Hd)
+
 		self._static_matvec = _get_matvec_function(self._static)
 		self._dynamic_matvec = {}
 		for func,Hd in iteritems(self._dynamic):
-- 
2.43.0


From 1b99d187b7ce98520409907ad58b16ca76745359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 005/111] fix: sum of hamiltonians shared the dynamic operators
 of its second argument

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 3b93107..8fdf1d5 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2382,7 +2382,7 @@ class hamiltonian(object):
 				if _check_almost_zero(new._dynamic[func]):
 					new._dynamic.pop(func)
 			else:
-				new._dynamic[func] = Hd
+				new._dynamic[func] = Hd.copy()
 
 		new.check_is_dense()
 		new._get_matvecs()
@@ -2415,7 +2415,7 @@ class hamiltonian(object):
 					self._dynamic.pop(func)
 
 			else:
-				self._dynamic[func] = Hd
+				self._dynamic[func] = Hd.copy()
 
 		self.check_is_dense()
 		self._get_matvecs()
-- 
2.43.0


From b26d3fd624954b6d39501f96939ed504ce892435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 006/111] fix: binary operations with dense matrices marked the
 (sparse) hamiltonian operand as dense

---
 quspin/operators/hamiltonian_core.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 8fdf1d5..2ce62ac 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2794,7 +2794,6 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		try:
@@ -2840,7 +2839,6 @@ class hamiltonian(object):
 
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		try:
@@ -2886,7 +2884,6 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		new._static = _np.asarray(new._static.dot(other))
@@ -2915,7 +2912,6 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 
-- 
2.43.0


From f1c529f9d0d7180a89520152877f3b7cf16aee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 007/111] fix: hamiltonian.rdot failed unless an output array
 was supplied

---
 quspin/operators/hamiltonian_core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 2ce62ac..2ece7fa 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -784,16 +784,18 @@ class hamiltonian(object):
 		if ndim not in [1,2,3]:
 			raise ValueError("expecting V.ndim < 4.")
 
+		out = (None if out is None else out.T)
+
 		if ndim == 1:
-			return self.transpose().dot(V,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a)
+			return self.transpose().dot(V,time=times,check=check,out=out,overwrite_out=overwrite_out,a=a)
 		elif ndim == 2:
 			if _np.array(times).ndim>0:
-				return self.transpose().dot(V,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a)
+				return self.transpose().dot(V,time=times,check=check,out=out,overwrite_out=overwrite_out,a=a)
 			else:
-				return self.transpose().dot(V.transpose(),time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose()
+				return self.transpose().dot(V.transpose(),time=times,check=check,out=out,overwrite_out=overwrite_out,a=a).transpose()
 		else:
 			V_transpose = V.transpose((1,0,2))
-			return self.transpose().dot(V_transpose,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose((1,0,2))
+			return self.transpose().dot(V_transpose,time=times,check=check,out=out,overwrite_out=overwrite_out,a=a).transpose((1,0,2))
 
 	def quant_fluct(self,V,time=0,check=True,enforce_pure=False):
 		"""Calculates the quantum fluctuations (variance) of `hamiltonian` operator at time `time`, in state `V`.
-- 
2.43.0


From e43fc40d51d512e0671df2c1da8310eda378bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 008/111] fix: hamiltonian.dot with a sparse matrix of states
 and an array of times

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 2ece7fa..4b4d9c0 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -667,7 +667,7 @@ class hamiltonian(object):
 
 			if _sp.issparse(V):
 				V = V.tocsc()
-				return _sp.vstack([a*self.dot(V.get_col(i),time=t,check=check) for i,t in enumerate(time)])
+				return _sp.hstack([a*self.dot(V[:,[i]],time=t,check=check) for i,t in enumerate(time)],format="csc")
 			else:
 				if V.ndim == 3 and V.shape[0] != V.shape[1]:
 					raise ValueError("Density matrices must be square!")
-- 
2.43.0


From 742cf7cc5cd746feb2942972cdd39c225d9d5310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 009/111] fix: quant_fluct of a collection of pure states used
 H^dagger.H instead of H^2

---
 quspin/operators/hamiltonian_core.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 4b4d9c0..e696a0f 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -851,11 +851,8 @@ class hamiltonian(object):
 		V_dot=self.dot(V,time=time,check=check)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
-		if len(V.shape) > 1 and V.shape[0] != V.shape[1] or enforce_pure:
-			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
-		else:
-			V_dot=self.dot(V_dot,time=time,check=check)
-			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
+		V_dot=self.dot(V_dot,time=time,check=check)
+		sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
 
-- 
2.43.0


From 0cc1e2e3a2736ef17ca792dfa67e59e4aab7087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 010/111] fix: expectation values in sparse states used
 numpy.asscalar, which no longer exists

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index e696a0f..61c18c6 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -910,7 +910,7 @@ class hamiltonian(object):
 	def _expt_value_core(self,V_left,V_right,time=0,enforce_pure=False):
 		if _np.array(time).ndim > 0: # multiple time point expectation values
 			if _sp.issparse(V_right): # multiple pure states multiple time points
-				return (V_left.H.dot(V_right)).diagonal()
+				return (V_left.getH().dot(V_right)).diagonal()
 			else:
 				V_left = _np.asarray(V_left)
 				if V_left.ndim == 2: # multiple pure states multiple time points
@@ -922,7 +922,7 @@ class hamiltonian(object):
 
 			if _sp.issparse(V_right):
 				if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-					return _np.asscalar((V_left.H.dot(V_right)).toarray())
+					return V_left.getH().dot(V_right).diagonal().squeeze()[()]
 				else: # density matrix
 					return V_right.diagonal().sum()
 			else:
-- 
2.43.0


From 679e20ca037e0fb57f908c8b330d29796eb5a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 011/111] fix: matrix_ele with a dense left state and a sparse
 right state

---
 quspin/operators/hamiltonian_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 61c18c6..4aecbcc 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1000,6 +1000,9 @@ class hamiltonian(object):
 			else:
 				return Vl.H.dot(Vr)
 		else:
+			if _sp.issparse(Vr):
+				Vr = Vr.toarray()
+
 			if diagonal:
 				return _np.einsum("ij,ij->j",Vl.conj(),Vr)
 			else:
-- 
2.43.0


From aa498e45ee389b08830fcfb2d1cf462ac3acc054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 012/111] fix: project_to left the Hilbert space dimension of
 the unprojected operator behind

---
 quspin/operators/hamiltonian_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 4aecbcc..e10a3f0 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1070,6 +1070,7 @@ class hamiltonian(object):
 					
 			new = self._rmul_sparse(proj.getH())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_sparse(proj)
 
 		elif _np.isscalar(proj):
@@ -1081,6 +1082,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.T.conj())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 
@@ -1090,6 +1092,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.H)
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 
@@ -1100,6 +1103,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.T.conj())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 	def rotate_by(self, other, generator=False,**exp_op_kwargs):
-- 
2.43.0


From 7b176bb30b6773f1f2286c065607f6b75aae37ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 013/111] fix: hamiltonian.diagonal modified the static
 operator in place

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index e10a3f0..43a0f50 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1950,9 +1950,9 @@ class hamiltonian(object):
 		if _np.array(time).ndim > 0:
 			raise TypeError('expecting scalar argument for time')
 
-		diagonal = self._static.diagonal()
+		diagonal = self._static.diagonal().copy()
 		for func,Hd in iteritems(self._dynamic):
-			diagonal += Hd.diagonal() * func(time)
+			diagonal = diagonal + Hd.diagonal() * func(time)
 
 		return diagonal
 
-- 
2.43.0


From eb4cc32d0d9e1b1949ba68e4d965f431764ea04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 014/111] fix: toarray/todense of a time-dependent sparse
 hamiltonian ignored `out`, returned numpy.matrix and could not honour `order`

---
 quspin/operators/hamiltonian_core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 43a0f50..96b005a 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1654,16 +1654,16 @@ class hamiltonian(object):
 			raise TypeError('expecting scalar argument for time')
 
 		if out is None:
-			out = _np.zeros(self._shape,dtype=self.dtype)
+			out = _np.zeros(self._shape,dtype=self.dtype,order=order or "C")
 			out = _np.asmatrix(out)
 
 		if _sp.issparse(self._static):
-			self._static.todense(order=order,out=out)
+			self._static.todense(out=out)
 		else:
 			out[:] = self._static[:]
 
 		for func,Hd in iteritems(self._dynamic):
-			out += Hd * func(time)
+			out += (Hd.toarray() if _sp.issparse(Hd) else Hd) * func(time)
 		
 		return out
 
@@ -1701,15 +1701,15 @@ class hamiltonian(object):
 			raise TypeError('expecting scalar argument for time')
 
 		if out is None:
-			out = _np.zeros(self._shape,dtype=self.dtype)
+			out = _np.zeros(self._shape,dtype=self.dtype,order=order or "C")
 
 		if _sp.issparse(self._static):
-			self._static.toarray(order=order,out=out)
+			self._static.toarray(out=out)
 		else:
 			out[:] = self._static[:]
 
 		for func,Hd in iteritems(self._dynamic):
-			out += Hd * func(time)
+			out += (Hd.toarray() if _sp.issparse(Hd) else Hd) * func(time)
 		
 		return out
 
-- 
2.43.0


From cfe2727f2663e7faaedd426866c57787e6207151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 015/111] fix: tocsr/tocsc returned the internal static
 operator instead of a copy

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 96b005a..e96f953 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1565,7 +1565,7 @@ class hamiltonian(object):
 			raise TypeError('expecting scalar argument for time')
 
 
-		H = _sp.csr_matrix(self._static)
+		H = _sp.csr_matrix(self._static,copy=True)
 
 		for func,Hd in iteritems(self._dynamic):
 			Hd = _sp.csr_matrix(Hd)
@@ -1601,7 +1601,7 @@ class hamiltonian(object):
 		if _np.array(time).ndim > 0:
 			raise TypeError('expecting scalar argument for time')
 
-		H = _sp.csc_matrix(self._static)
+		H = _sp.csc_matrix(self._static,copy=True)
 		for func,Hd in iteritems(self._dynamic):
 			Hd = _sp.csc_matrix(Hd)
 			try:
-- 
2.43.0


From 5ee197b5ae3246b224690177495add8c2b26fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 016/111] fix: update_matrix_formats used the wrong
 constructors, ignored dict formats and left is_dense stale

---
 quspin/operators/hamiltonian_core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index e96f953..ad6c0f5 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1759,15 +1759,19 @@ class hamiltonian(object):
 
 
 				if dynamic_fmt == "dense":
-					updates = {func:sparse_constuctor(Hd) for func,Hd in iteritems(self._dynamic) if _sp.issparse(Hd)}
+					updates = {func:Hd.toarray() for func,Hd in iteritems(self._dynamic) if _sp.issparse(Hd)}
 					updates.update({func:_np.ascontiguousarray(Hd) for func,Hd in iteritems(self._dynamic) if not _sp.issparse(Hd)})
 				else:
+					sparse_constuctor = getattr(_sp,dynamic_fmt+"_matrix")
 					updates = {func:sparse_constuctor(Hd) for func,Hd in iteritems(self._dynamic)}
 
 				
 				self._dynamic.update(updates)
 
-			elif type(dynamic_fmt) in [list,tuple]:
+			elif type(dynamic_fmt) in [list,tuple,dict]:
+				if type(dynamic_fmt) is dict:
+					dynamic_fmt = [(fmt,key) for key,fmt in iteritems(dynamic_fmt)]
+
 				for fmt,(f,f_args) in dynamic_fmt:
 
 					func = function(f,tuple(f_args))
@@ -1777,7 +1781,7 @@ class hamiltonian(object):
 
 					try:
 						if fmt == "dense":
-							if _sp.issparse(self._static):
+							if _sp.issparse(self._dynamic[func]):
 								self._dynamic[func] = self._dynamic[func].toarray()
 							else:
 								self._dynamic[func] = _np.ascontiguousarray(self._dynamic[func])
@@ -1789,6 +1793,7 @@ class hamiltonian(object):
 						raise ValueError("({},{}) is not found in dynamic list.".format(f,f_args))
 
 
+		self.check_is_dense()
 		self._get_matvecs()	
 
 	def as_dense_format(self,copy=False):
-- 
2.43.0


From bf56ecf430198bc79029e6150548ec361f9a45d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 017/111] fix: LvNE evolution used the csr (csc) product
 routine on csc (csr) transposes

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index ad6c0f5..120fdb8 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1302,11 +1302,11 @@ class hamiltonian(object):
 		"""
 		rho = rho.reshape((self.Ns,self.Ns))
 		self._static_matvec(self._static  ,rho  ,out=rho_out  ,a=+1.0,overwrite_out=True) # rho_out = self._static.dot(rho)
-		self._static_matvec(self._static.T,rho.T,out=rho_out.T,a=-1.0,overwrite_out=False) # rho_out -= (self._static.T.dot(rho.T)).T
+		_matvec(self._static.T,rho.T,out=rho_out.T,a=-1.0,overwrite_out=False) # rho_out -= (self._static.T.dot(rho.T)).T
 		for func,Hd in iteritems(self._dynamic):
 			ft = func(time)
 			self._dynamic_matvec[func](Hd  ,rho  ,out=rho_out  ,a=+ft,overwrite_out=False) # rho_out += ft*Hd.dot(rho)
-			self._dynamic_matvec[func](Hd.T,rho.T,out=rho_out.T,a=-ft,overwrite_out=False) # rho_out -= ft*(Hd.T.dot(rho.T)).T
+			_matvec(Hd.T,rho.T,out=rho_out.T,a=-ft,overwrite_out=False) # rho_out -= ft*(Hd.T.dot(rho.T)).T
 
 		rho_out *= -1j
 		return rho_out.ravel()
-- 
2.43.0


From 551e8a1881c69c1987d123214386a6fbc56707e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 018/111] fix: H+0, H-0 and H**1 returned H itself, so
 modifying the result in place modified H

---
 quspin/operators/hamiltonian_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 120fdb8..3f9a080 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2117,7 +2117,7 @@ class hamiltonian(object):
 		if type(power) is not int:
 			raise TypeError("hamiltonian can only be raised to integer power.")
 
-		return reduce(mul,(self for i in range(power)))
+		return (self.copy() if power == 1 else reduce(mul,(self for i in range(power))))
 
 	def __mul__(self,other): # self * other
 		if ishamiltonian(other):			
@@ -2250,7 +2250,7 @@ class hamiltonian(object):
 			
 		elif _np.isscalar(other):
 			if other==0.0:
-				return self
+				return self.copy()
 			else:
 				raise NotImplementedError('hamiltonian does not support addition by nonzero scalar')
 
@@ -2305,7 +2305,7 @@ class hamiltonian(object):
 
 		elif _np.isscalar(other):
 			if other==0.0:
-				return self
+				return self.copy()
 			else:
 				raise NotImplementedError('hamiltonian does not support subtraction by nonzero scalar')
 
-- 
2.43.0


From 5f86a6c97dd27a500dcaedea646cca0f4014d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 019/111] fix: numpy array +/- hamiltonian silently returned
 None

---
 quspin/operators/hamiltonian_core.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 3f9a080..b21f0be 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -3008,6 +3008,22 @@ class hamiltonian(object):
 			elif ishamiltonian(inputs[1]):
 				return inputs[1].__rmul__(inputs[0])
 
+		elif func == _np.add:
+
+			if ishamiltonian(inputs[0]):
+				return inputs[0].__add__(inputs[1])
+			elif ishamiltonian(inputs[1]):
+				return inputs[1].__radd__(inputs[0])
+
+		elif func == _np.subtract:
+
+			if ishamiltonian(inputs[0]):
+				return inputs[0].__sub__(inputs[1])
+			elif ishamiltonian(inputs[1]):
+				return inputs[1].__rsub__(inputs[0])
+
+		return NotImplemented
+
 
 
 def ishamiltonian(obj):
-- 
2.43.0


From 7bb95124589d5477063b0f3e7013782e07c68f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 020/111] fix: as_dense_format of a dense hamiltonian passed a
 non-existing argument to numpy.asarray

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index b21f0be..10a6f86 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1820,7 +1820,7 @@ class hamiltonian(object):
 		if _sp.issparse(self._static):
 			new_static = self._static.toarray()
 		else:
-			new_static = _np.asarray(self._static,copy=copy)
+			new_static = _np.array(self._static,copy=copy)
 
 		dynamic = [([M.toarray(),func] if _sp.issparse(M) else [M,func])
 						for func,M in iteritems(self.dynamic)]
-- 
2.43.0


From 971cba641fbdb5de2b7f5b9ff878baccd837a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:21 +0000
Subject: [PATCH 021/111] fix: dense hamiltonian applied to a sparse matrix of
 states used elementwise/object products

---
 quspin/operators/hamiltonian_core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 10a6f86..ee793bf 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -716,9 +716,12 @@ class hamiltonian(object):
 				if out is not None:
 					raise TypeError("'out' option does not apply for sparse inputs.")
 
-				out = self._static * V
+				out = _mat_mul(self._static,V)
 				for func,Hd in iteritems(self._dynamic):
-					out = out + func(time)*(Hd.dot(V))
+					out = out + func(time)*_mat_mul(Hd,V)
+
+				if not _sp.issparse(out):
+					out = _sp.csr_matrix(out)
 
 				out = a*out
 			else:
-- 
2.43.0


From a92450ae49dcfc6ebadcb75d0b6bafc01083ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 022/111] fix: evolve(stack_state=True) failed for multiple
 states

---
 quspin/tools/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index 2de0ef1..e7e78a0 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -343,8 +343,8 @@ def _cmplx_f(t,y,f,f_params):
 
 
 def _format_output(y,complex_valued,stack_state,imag_time,n,shape0):
-	Ns = shape0[0]
 	if stack_state:
+		Ns = y.shape[0]//2
 		yout = y[:Ns].astype(_np.complex128).reshape(shape0)
 		yout[...] += 1j*y[Ns:].reshape(shape0)
 	elif complex_valued:
-- 
2.43.0


From 2d7f2b96459a478a6a7e641e0c7f13ef4df4b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 023/111] fix: evolve modified (or returned a view of) the
 initial state at t=t0 and mixed up the norms of multiple states in imaginary
 time

---
 quspin/tools/evolution.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index e7e78a0..9743e3c 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -272,6 +272,8 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 
 	shape0 = v0.shape
 
+	n = norm(v0,axis=0) # needed for imaginary time to preserve the proper norm of the state(s).
+
 	if ndim == 2:
 		v0 = v0.ravel()
 		shape0_ravelled=v0.shape
@@ -280,8 +282,6 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 	if _np.iscomplexobj(times):
 		raise ValueError("times must be real number(s).")
 
-	n = _np.linalg.norm(v0) # needed for imaginary time to preserve the proper norm of the state. 
-
 	if stack_state:
 		if imag_time:
 			raise ValueError("imag_time is not compatible with stack_state.")
@@ -361,7 +361,7 @@ def _format_output(y,complex_valued,stack_state,imag_time,n,shape0):
 
 def _evolve_scalar(solver,v0,t0,time,*output_args):
 	if time == t0:
-		return _format_output(v0,*output_args)
+		return _format_output(v0.copy(),*output_args)
 
 	solver.integrate(time)
 	if solver.successful():
@@ -382,7 +382,7 @@ def _evolve_list(solver,v0,t0,times,verbose,*output_args):
 	for i,t in enumerate(times):
 
 		if t == t0:
-			y_fmt = _format_output(v0,*output_args)
+			y_fmt = _format_output(v0.copy(),*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
 			v[i,...] = y_fmt
 			continue
@@ -410,7 +410,7 @@ def _evolve_iter(solver,v0,t0,times,verbose,*output_args):
 
 	for i,t in enumerate(times):
 		if t == t0:
-			y_fmt = _format_output(v0,*output_args)
+			y_fmt = _format_output(v0.copy(),*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
 			yield y_fmt
 			continue
-- 
2.43.0


From e9cabb74b0002a4e2ebfd38e70c4064085f3bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 024/111] fix: evolve(iterate=True) handed out the internal
 state of the solver

---
 quspin/tools/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index 9743e3c..4a5c65e 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -419,6 +419,6 @@ def _evolve_iter(solver,v0,t0,times,verbose,*output_args):
 		if solver.successful():
 			y_fmt = _format_output(solver._y,*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
-			yield y_fmt
+			yield y_fmt.copy() # the solver continues from its own copy of the state
 		else:
 			raise RuntimeError("failed to evolve to time {0}, nsteps might be too small".format(t))
-- 
2.43.0


From 8e9a5c64c6f3c198de496dcc3230b82317b0bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 025/111] fix: the real-valued Schroedinger equation returned a
 2d array to the ODE solver for multiple states

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index ee793bf..6585581 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1356,7 +1356,7 @@ class hamiltonian(object):
 			self._dynamic_matvec[func](Hd,V[self._Ns:],out=V_out[:self._Ns],a=+ft,overwrite_out=False) # V_dot[:self._Ns] += func(time)*Hd.dot(V[self._Ns:])
 			self._dynamic_matvec[func](Hd,V[:self._Ns],out=V_out[self._Ns:],a=-ft,overwrite_out=False) # V_dot[self._Ns:] += -func(time)*Hd.dot(V[:self._Ns])
 
-		return V_out
+		return V_out.ravel()
 
 	def __SO(self,time,V,V_out):
 		"""
-- 
2.43.0


From ed871e90ab63e81bdc7ce624139a345f2f372e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 026/111] fix: quantum_operator methods added their couplings
 to the dictionary passed by the user (and to the shared default argument)

---
 quspin/operators/quantum_operator_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 959c06c..1012453 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1396,6 +1396,8 @@ class quantum_operator(object):
 		if extra:
 			raise ValueError("unexpected couplings: {}".format(extra))
 
+		pars = dict(pars) # do not modify the dictionary of the user (or the default value of the argument)
+
 		missing = set(self._quantum_operator.keys()) - set(pars.keys())
 		for key in missing:
 			pars[key] = _np.array(1,dtype=_np.int32)
@@ -1421,6 +1423,8 @@ class quantum_operator(object):
 		if extra:
 			raise ValueError("unexpected couplings: {}".format(extra))
 
+		pars = dict(pars) # do not modify the dictionary of the user (or the default value of the argument)
+
 		missing =  set(self._quantum_operator.keys()) - set(pars.keys())
 		for key in missing:
 			pars[key] = 1.0
-- 
2.43.0


From bf90f610d134828fe8b6da80fa6335ba6bbe9393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 027/111] fix: quantum_operator ignored copy=True, modified the
 input matrices, kept numpy.matrix objects and dropped operator strings
 sharing a key with matrices

---
 quspin/operators/quantum_operator_core.py | 53 +++++------------------
 1 file changed, 10 insertions(+), 43 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 1012453..267db2a 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -198,51 +198,18 @@ class quantum_operator(object):
 
 
 			for key,O_list in iteritems(other_dict):
-				for i,O in enumerate(O_list):
-					if _sp.issparse(O):
-						self._mat_checks(O)
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
-
-					elif O.__class__ is _np.ndarray:
-						self._mat_checks(O)
-						self._is_dense=True
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
-
-					elif O.__class__ is _np.matrix:
-						self._mat_checks(O)
-						self._is_dense=True
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
+				for O in O_list:
+					if not _sp.issparse(O):
+						O = _np.asarray(O)
+						self._is_dense = True
 
-					else:
-						O = _np.asanyarray(O)
-						self._mat_checks(O)
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
+					self._mat_checks(O)
 
-					
+					if key in self._quantum_operator:
+						O = self._quantum_operator[key] + O.astype(dtype)
+						self._quantum_operator[key] = (O if _sp.issparse(O) else _np.asarray(O))
+					else:
+						self._quantum_operator[key] = O.astype(dtype,copy=copy)
 
 		else:
 			if not hasattr(self,"_shape"):
-- 
2.43.0


From 962ce1a5e0e13bf10425ce330d2ec65dd2a985a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 028/111] fix: quantum_operator.dot failed for sparse states

---
 quspin/operators/quantum_operator_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 267db2a..1aef417 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -444,7 +444,7 @@ class quantum_operator(object):
 		result_dtype = _np.result_type(V.dtype,self._dtype)
 
 		if not (result_dtype in hamiltonian_core.supported_dtypes):
-			raise TypeError('hamiltonian does not support type: '+str(dtype))
+			raise TypeError('hamiltonian does not support type: '+str(result_dtype))
 
 		if self.Ns <= 0:
 			return _np.asarray([],dtype=result_dtype)
@@ -453,11 +453,11 @@ class quantum_operator(object):
 			if out is not None:
 				raise TypeError("'out' option does not apply for sparse inputs.")
 
-			sparse_constuctor = getattr(_sp,V.get_format()+"_matrix")
+			sparse_constuctor = getattr(_sp,V.format+"_matrix")
 			out = sparse_constuctor(V.shape,dtype=result_dtype)
 			for key,J in pars.items():
-				out = out + J*self._quantum_operator[key].dot(V)
-			out = a*out
+				out = out + J*hamiltonian_core._mat_mul(self._quantum_operator[key],V)
+			out = sparse_constuctor(a*out)
 
 		else:
 			if out is not None:
-- 
2.43.0


From 90f45387f1c06398d229fa90f72949c4cd890f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 029/111] fix: quantum_operator.rdot failed unless an output
 array was supplied

---
 quspin/operators/quantum_operator_core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 1aef417..3bfca62 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -520,7 +520,11 @@ class quantum_operator(object):
 		corresponds to :math:`B = AH`. 
 	
 		"""
-		return self.transpose().dot(V.transpose(),pars=pars,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose()
+		if out is not None:
+			self.transpose().dot(V.transpose(),pars=pars,check=check,out=out.T,overwrite_out=overwrite_out,a=a)
+			return out
+		else:
+			return self.transpose().dot(V.transpose(),pars=pars,check=check,overwrite_out=overwrite_out,a=a).transpose()
 
 	def quant_fluct(self,V,pars={},check=True,enforce_pure=False):
 		"""Calculates the quantum fluctuations (variance) of `quantum_operator` object for parameters `pars`, in state `V`.
-- 
2.43.0


From 21c38abc3b5cf128d2055b5194bac66c39190c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 030/111] fix: quantum_operator.quant_fluct failed for single
 states and density matrices and used H^dagger.H instead of H^2

---
 quspin/operators/quantum_operator_core.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 3bfca62..8ef993c 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -575,11 +575,8 @@ class quantum_operator(object):
 		V_dot = self.dot(V,pars=pars,check=check)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
-		if V.shape[0] != V.shape[1] or enforce_pure:
-			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
-		else:
-			V_dot = self.dot(V_dot,time=time,check=check)
-			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
+		V_dot = self.dot(V_dot,pars=pars,check=check)
+		sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
 
-- 
2.43.0


From 545e2424a80dfb9a22231915b80d7407806a1a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 031/111] fix: expectation values and matrix elements of
 quantum_operator in sparse states

---
 quspin/operators/quantum_operator_core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 8ef993c..a566828 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -629,7 +629,7 @@ class quantum_operator(object):
 	def _expt_value_core(self,V_left,V_right,enforce_pure=False):
 		if _sp.issparse(V_right):
 			if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-				return _np.asscalar((V_left.H.dot(V_right)).toarray())
+				return V_left.getH().dot(V_right).diagonal().squeeze()[()]
 			else: # density matrix
 				return V_right.diagonal().sum()
 		else:
@@ -686,7 +686,7 @@ class quantum_operator(object):
 				shape = Vl.shape
 
 			if shape[0] != self._shape[1]:
-				raise ValueError("matrix dimension mismatch with shapes: {0} and {1}.".format(V.shape,self._shape))
+				raise ValueError("matrix dimension mismatch with shapes: {0} and {1}.".format(Vl.shape,self._shape))
 
 			if Vl.ndim > 2:
 				raise ValueError("Expecting  0< V.ndim < 3.")
@@ -697,6 +697,9 @@ class quantum_operator(object):
 			else:
 				return Vl.H.dot(Vr)
 		else:
+			if _sp.issparse(Vr):
+				Vr = Vr.toarray()
+
 			if diagonal:
 				return _np.einsum("ij,ij->j",Vl.conj(),Vr)
 			else:
-- 
2.43.0


From 792a3dfde68d117887e49c42e0ac515f7d8bac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 032/111] fix: quantum_operator.toarray/todense accumulated
 into (or ignored) the output array and toarray returned numpy.matrix

---
 quspin/operators/quantum_operator_core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index a566828..fa7826c 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -931,9 +931,8 @@ class quantum_operator(object):
 			out = _np.zeros(self._shape,dtype=self.dtype)
 			out = _np.asmatrix(out)
 
-		for key,J in pars.items():
-			out += J * self._quantum_operator[key]
-		
+		self.toarray(pars=pars,out=out)
+
 		return out
 
 	def toarray(self,pars={},out=None):
@@ -965,9 +964,12 @@ class quantum_operator(object):
 
 		if out is None:
 			out = _np.zeros(self._shape,dtype=self.dtype)
+		else:
+			out[...] = 0
 
 		for key,J in pars.items():
-			out += J * self._quantum_operator[key]
+			O = J * self._quantum_operator[key]
+			out[...] += (O.toarray() if _sp.issparse(O) else O)
 		
 		return out
 
-- 
2.43.0


From c26aab61ad852c9915b986c4de40a3fe907dca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 033/111] fix: quantum_operator.update_matrix_formats left
 is_dense stale and ignored sparse formats for dense operators

---
 quspin/operators/quantum_operator_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index fa7826c..511e7ab 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1074,9 +1074,9 @@ class quantum_operator(object):
 				else:
 					sparse_constuctor = getattr(_sp,fmt+"_matrix")
 					O = self._quantum_operator[key]
-					if _sp.issparse(O):
-						self._quantum_operator[key] = sparse_constuctor(O)	
+					self._quantum_operator[key] = sparse_constuctor(O)
 
+		self._is_dense = any(not _sp.issparse(O) for O in itervalues(self._quantum_operator))
 		self._update_matvecs()	
 
 	### algebra operations
-- 
2.43.0


From 9fe5799e61278fdb1bda3fe0db28de4302b93267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 034/111] fix: -quantum_operator modified the operator itself

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 511e7ab..580d975 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1270,7 +1270,7 @@ class quantum_operator(object):
 			return self.tocsr(pars)
 
 	def __neg__(self):
-		return self.__imul__(-1)
+		return self.__mul__(-1)
 
 	def __iadd__(self,other):
 		self._is_dense = self._is_dense or other._is_dense
-- 
2.43.0


From 36a2bd07f6012561a72793e9d4e359e5ec93634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:40 +0000
Subject: [PATCH 035/111] fix: quantum_operator arithmetic with scalars failed,
 / was missing, and sums shared matrices with and corrupted their operands

---
 quspin/operators/quantum_operator_core.py | 79 +++++++++++++----------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 580d975..7d51578 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1273,59 +1273,51 @@ class quantum_operator(object):
 		return self.__mul__(-1)
 
 	def __iadd__(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 		if isinstance(other,quantum_operator):
-			for key,value in iteritems(other._quantum_operator):
+			self._mat_checks(other)
+			for key,value in list(iteritems(other._quantum_operator)):
 				if key in self._quantum_operator:
-					self._quantum_operator[key] = self._quantum_operator[key] + value
-				else:
-					self._quantum_operator[key] = value
+					value = self._quantum_operator[key] + value
 
-				if _check_almost_zero(self._quantum_operator[key]):
-					self._quantum_operator.pop(key)
+				self._set_operator(key,value)
 
 			self._update_matvecs()
 			return self
-		elif other == 0:
+		elif _np.isscalar(other) and other == 0:
 			return self
 		else:
 			return NotImplemented
 
 	def __add__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
-		new = self.astype(result_dtype,copy=True)
+		new = self.astype(self._result_dtype(other),copy=True)
 		new += other
 		return new
 
 	def __isub__(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 		if isinstance(other,quantum_operator):
-			for key,value in iteritems(other._quantum_operator):
+			self._mat_checks(other)
+			for key,value in list(iteritems(other._quantum_operator)):
 				if key in self._quantum_operator:
-					self._quantum_operator[key] = self._quantum_operator[key] - value
+					value = self._quantum_operator[key] - value
 				else:
-					self._quantum_operator[key] = -value
+					value = -value
 
-				if _check_almost_zero(self._quantum_operator[key]):
-					self._quantum_operator.pop(key)
+				self._set_operator(key,value)
 
 			self._update_matvecs()
 			return self
-		elif other == 0:
+		elif _np.isscalar(other) and other == 0:
 			return self
 		else:
 			return NotImplemented
 
 	def __sub__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
-		new = self.astype(result_dtype,copy=True)
+		new = self.astype(self._result_dtype(other),copy=True)
 		new -= other
 		return new		
 
 	def __imul__(self,other):
-		if isinstance(other,quantum_operator):
-			return NotImplemented
-		elif not _np.isscalar(other):
+		if not _np.isscalar(other):
 			return NotImplemented
 		else:
 			for op in itervalues(self._quantum_operator):
@@ -1335,29 +1327,46 @@ class quantum_operator(object):
 			return self
 
 	def __mul__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
-		new = self.astype(result_dtype,copy=True)
+		if not _np.isscalar(other):
+			return NotImplemented
+
+		new = self.astype(self._result_dtype(other),copy=True)
 		new *= other
 		return new
 
+	def __rmul__(self,other):
+		return self.__mul__(other)
+
+	def __itruediv__(self,other):
+		return self.__idiv__(other)
+
 	def __idiv__(self,other):
-		if isinstance(other,quantum_operator):
-			return NotImplemented
-		elif not _np.isscalar(other):
+		if not _np.isscalar(other):
 			return NotImplemented
 		else:
-			for op in itervalues(self._quantum_operator):
-				op /= other
-			self._update_matvecs()
-			return self
+			return self.__imul__(1.0/other)
+
+	def __truediv__(self,other):
+		return self.__div__(other)
 
 	def __div__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
-		new = self.astype(result_dtype,copy=True)
-		new /= other
-		return new
+		if not _np.isscalar(other):
+			return NotImplemented
+		else:
+			return self.__mul__(1.0/other)
+
+	def _result_dtype(self,other):
+		# python scalars do not change the precision of the operator
+		return _np.result_type(self._dtype,getattr(other,"dtype",other)).type
 
+	def _set_operator(self,key,value):
+		# stores a copy of `value`, operators which vanish are removed
+		if _check_almost_zero(value):
+			self._quantum_operator.pop(key,None)
+		else:
+			self._quantum_operator[key] = (value.copy() if _sp.issparse(value) else _np.array(value))
 
+		self._is_dense = any(not _sp.issparse(O) for O in itervalues(self._quantum_operator))
 
 
 	def _check_hamiltonian_pars(self,pars):
-- 
2.43.0


From 227ce7e38af409d9ac957872674292c253214201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 036/111] fix: quantum_operator.tohamiltonian lost the basis
 and failed for operators without matrices

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 7d51578..01b7d9b 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1032,7 +1032,7 @@ class quantum_operator(object):
 				else:
 					static.append(J*self._quantum_operator[key])
 
-		return hamiltonian_core.hamiltonian(static,dynamic,dtype=self._dtype)
+		return hamiltonian_core.hamiltonian(static,dynamic,dtype=self._dtype,shape=self._shape,basis=self._basis)
 
 	def update_matrix_formats(self,matrix_formats):
 		"""Change the internal structure of the matrices in-place.
-- 
2.43.0


From 52372952a96e7edae7d3eb75e7f677cd8092403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 037/111] fix: quantum_operator load_zip misread operators
 whose key contains 'sparse_', 'dense_' or '.npz'

---
 quspin/operators/quantum_operator_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 01b7d9b..66178c9 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1532,12 +1532,12 @@ def load_zip(archive):
 				
 				continue
 
-			elif "sparse" in file:
-				key = file.replace("sparse_","").replace(".npz","")
+			elif file.startswith("sparse_"):
+				key = file[len("sparse_"):-len(".npz")]
 				with arch.open(file) as matfile:
 					matrix = _sp.load_npz(matfile)
 			else:
-				key = file.replace("dense_","").replace(".npz","")
+				key = file[len("dense_"):-len(".npz")]
 				with arch.open(file) as matfile:
 					f = _np.load(matfile)
 					matrix = f["matrix"]
-- 
2.43.0


From 897c4b49df787a5635401311edbd9d00be41bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 038/111] fix: tohamiltonian for operators without matrices
 (basis and shape are exclusive)

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 66178c9..5688fa8 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1032,7 +1032,7 @@ class quantum_operator(object):
 				else:
 					static.append(J*self._quantum_operator[key])
 
-		return hamiltonian_core.hamiltonian(static,dynamic,dtype=self._dtype,shape=self._shape,basis=self._basis)
+		return hamiltonian_core.hamiltonian(static,dynamic,dtype=self._dtype,basis=self._basis,shape=(self._shape if self._basis is None else None))
 
 	def update_matrix_formats(self,matrix_formats):
 		"""Change the internal structure of the matrices in-place.
-- 
2.43.0


From 2351e3723bf377c2c58888492dbcc17aef77d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 039/111] fix: empty quantum_operator ignored the basis
 argument

---
 quspin/operators/quantum_operator_core.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 5688fa8..1686be3 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -214,10 +214,7 @@ class quantum_operator(object):
 		else:
 			if not hasattr(self,"_shape"):
 				if shape is None:
-					# check if user input basis
-					basis=basis_args.get('basis')	
-
-					# if not
+					# check if user input basis, if not
 					if basis is None: 
 						if N is None: # if N is missing 
 							raise Exception("argument N or shape needed to create empty quantum_operator")
@@ -232,11 +229,6 @@ class quantum_operator(object):
 
 					shape = (basis.Ns,basis.Ns)
 
-				else:
-					basis=basis_args.get('basis')	
-					if not basis is None: 
-						raise ValueError("empty hamiltonian only accepts basis or shape, not both")
-
 				if len(shape) != 2:
 					raise ValueError('expecting ndim = 2')
 				if shape[0] != shape[1]:
-- 
2.43.0


From 86c93f65c882120775ebe620277ac2d3c8ade176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 040/111] fix: rmatvec of quantum_operator.aslinearoperator
 used unconjugated parameters

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 1686be3..ab585bb 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -989,7 +989,7 @@ class quantum_operator(object):
 		"""
 		pars = self._check_scalar_pars(pars)
 		matvec = functools.partial(_quantum_operator_dot,self,pars)
-		rmatvec = functools.partial(_quantum_operator_dot,self.H,pars)
+		rmatvec = functools.partial(_quantum_operator_dot,self.H,{key:_np.conj(J) for key,J in iteritems(pars)})
 		return _sla.LinearOperator(self.get_shape,matvec,rmatvec=rmatvec,matmat=matvec,dtype=self._dtype)		
 
 	def tohamiltonian(self,pars={}):
-- 
2.43.0


From 7184f814498d9e6a49999b7b0c753b6648af731c Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 041/111] fix: basis classes without partial_trace/ent_entropy
 raise NotImplementedError like the other missing hooks

---
 quspin/basis/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index 42daeae..28b5cd1 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -716,6 +716,12 @@ class basis(object):
 
 			print("Particle conservation check passed!")
 
+	def _partial_trace(self,*args,**kwargs):
+		raise NotImplementedError("basis class: {0} missing implementation of '_partial_trace' required for partial_trace!".format(self.__class__))
+
+	def _ent_entropy(self,*args,**kwargs):
+		raise NotImplementedError("basis class: {0} missing implementation of '_ent_entropy' required for ent_entropy!".format(self.__class__))
+
 	def _get__str__(self):
 		raise NotImplementedError("basis class: {0} missing implementation of '_get__str__' required to print out the basis!".format(self.__class__))
 
-- 
2.43.0


From 838d22039f17f9e00ef7fb3da2c823ff08052560 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 042/111] fix: report the missing symmetry of a basis module
 instead of an undefined name

---
 quspin/basis/basis_1d/base_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index a1b101a..86792a4 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -33,7 +33,7 @@ class bitops:
 				self.__dict__[func_str] = ops_module.__dict__[func_str]
 			except KeyError:
 				if blocks.get(block) is not None:
-					raise AttributeError("module {} missing implementation of {}.".format(module.__name__,func))
+					raise AttributeError("module {} missing implementation of {}.".format(ops_module.__name__,func_str))
 
 		try_add("py_fliplr","pblock")
 		try_add("py_shift","kblock")
-- 
2.43.0


From 9f641e1bc36b7469fab145bca0ac87a002fcadf9 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 043/111] fix: boson_basis_1d with a list of sectors and
 particle-hole symmetry used an undefined name

---
 quspin/basis/basis_1d/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index cd7ba90..9cdbb1b 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -188,7 +188,7 @@ class boson_basis_1d(basis_1d):
 
 				if (L*(self.sps-1) % 2) != 0:
 					raise ValueError("spin inversion/particle-hole symmetry with particle/magnetization conservation must be used with chains with 0 magnetization sector or at half filling")
-				if Np != L*(self.sps-1)//2:
+				if Nb != L*(self.sps-1)//2:
 					raise ValueError("spin inversion/particle-hole symmetry only reduces the 0 magnetization or half filled particle sector")
 
 			if (Nb_list is not None) and ((type(zAblock) is int) or (type(zBblock) is int)):
-- 
2.43.0


From 7b10b8f3e412594d655de05a9f7a3bc2655df5a3 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 044/111] fix: __all__ of base_user lists the signatures the
 module defines

---
 quspin/basis/basis_general/base_user.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_user.py b/quspin/basis/basis_general/base_user.py
index 729899a..80a4d5d 100644
--- a/quspin/basis/basis_general/base_user.py
+++ b/quspin/basis/basis_general/base_user.py
@@ -39,7 +39,7 @@ count_particles_sig_32 = types.void(types.uint32,types.CPointer(types.intc),type
 count_particles_sig_64 = types.void(types.uint64,types.CPointer(types.intc),types.CPointer(types.intc))
 
 __all__ = ["map_sig_32","map_sig_64","next_state_sig_32",
-	"next_state_sig_64","op_func_sig_32","op_func_sig_64","user_basis"]
+	"next_state_sig_64","op_sig_32","op_sig_64","user_basis"]
 
 @njit
 def is_sorted_decending(a):
-- 
2.43.0


From 7f480c86f3c34000f72c42019f4419dedc250441 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 045/111] fix: user_basis used undefined names when not made
 immediately or given inconsistent sectors

---
 quspin/basis/basis_general/base_user.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/base_user.py b/quspin/basis/basis_general/base_user.py
index 80a4d5d..79d245f 100644
--- a/quspin/basis/basis_general/base_user.py
+++ b/quspin/basis/basis_general/base_user.py
@@ -1,5 +1,5 @@
 from .base_general import basis_general
-from ._basis_general_core import user_core_wrap
+from ._basis_general_core import user_core_wrap,basis_zeros
 import numpy as _np
 from numba import cfunc, types, njit
 from numba.ccallback import CFunc
@@ -322,7 +322,7 @@ class user_basis(basis_general):
 							of the particle sector is 1".format(n_sectors))
 					elif type(Np) is tuple and n_sectors!=len(Np):
 						raise ValueError("n_sectors is {} when the size \
-							of the particle sector is {}".format(n_sectors,len(np)))
+							of the particle sector is {}".format(n_sectors,len(Np)))
 					#else:
 					#	raise ValueError("Np must be tuple, int, or a list of tuples/integers.")
 				else:
-- 
2.43.0


From a4c5cf8b997f0d49c333876a6f86f4fbaafcb0b7 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 046/111] fix: spinful Op_shift_sector did not pass the basis
 itself

---
 quspin/basis/basis_general/fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index b1379d2..0afea2d 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -643,7 +643,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		else:
 			new_op_list = op_list
 
-		return spinless_fermion_basis_general.Op_shift_sector(other_basis,new_op_list,v_in,v_out=v_out,dtype=dtype)	
+		return spinless_fermion_basis_general.Op_shift_sector(self,other_basis,new_op_list,v_in,v_out=v_out,dtype=dtype)	
 
 	Op_shift_sector.__doc__ = spinless_fermion_basis_general.Op_shift_sector.__doc__
 
-- 
2.43.0


From 99827e4bc4db6891d62177224f65985555384c40 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 047/111] fix: block_ops.evolve with block_diag used an
 undefined name

---
 quspin/tools/block_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index e2eca82..258ef7e 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -592,13 +592,13 @@ class block_ops(object):
 			psi_blocks_prime = []
 			if n_left != 0:
 				H_list_prime.append(block_diag_hamiltonian(H_list[:n_left],None,None,None,None,self._dtype,get_proj=False,**self._no_checks))
-				psi_list_prime.append(_np.hstack(psi_blocks[:n_left]))
+				psi_blocks_prime.append(_np.hstack(psi_blocks[:n_left]))
 
 			for i in range(n_jobs-1):
 				i1 = n_left + i*n_pp
 				i2 = n_left + (i+1)*n_pp
 				H_list_prime.append(block_diag_hamiltonian(H_list[i1:i2],None,None,None,None,self._dtype,get_proj=False,**self._no_checks))
-				psi_list_prime.append(_np.hstack(psi_blocks[i1:i2]))
+				psi_blocks_prime.append(_np.hstack(psi_blocks[i1:i2]))
 
 			H_list = H_list_prime
 			psi_blocks = psi_blocks_prime				
-- 
2.43.0


From 902257b6f38bc1acadd02a6d73d0b0c1c2efb004 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 048/111] fix: diagonal-ensemble entropies of photon bases read
 attributes the basis does not have

---
 quspin/tools/measurements.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index a0ca2de..130225b 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -1090,9 +1090,9 @@ def _reshape_as_subsys(system_state,basis,chain_subsys=None,subsys_ordering=True
 		[system.append(i) for i in range(N) if not i in chain_subsys]
 		
 		# re-write the state in the initial basis
-		if basis.Nph is not None: # no total particle conservation
-			Nph = basis.Nph
-			if basis.Ns < photon_Hspace_dim(N,basis.Ntot,basis.Nph): #chain symmetries present
+		if basis._Nph is not None: # no total particle conservation
+			Nph = basis._Nph
+			if basis.Ns < photon_Hspace_dim(N,basis._Ntot,basis._Nph): #chain symmetries present
 				if N_A!=N: # doesn't make use of chain symmetries
 					psi = basis.get_vec(psi,sparse=False,full_part=True)
 				else: # makes use of symmetries
@@ -1100,9 +1100,9 @@ def _reshape_as_subsys(system_state,basis,chain_subsys=None,subsys_ordering=True
 			else:
 				Ns_chain = basis.sps**N
 
-		elif basis.Ntot is not None: # total particle-conservation
-			Nph = basis.Ntot
-			if basis.Ns < photon_Hspace_dim(N,basis.Ntot,basis.Nph): #chain symmetries present
+		elif basis._Ntot is not None: # total particle-conservation
+			Nph = basis._Ntot
+			if basis.Ns < photon_Hspace_dim(N,basis._Ntot,basis._Nph): #chain symmetries present
 				if N_A==N: # make use of symmetries
 					psi = basis.get_vec(psi,sparse=False,full_part=False)
 					Ns_chain = basis.chain_Ns
-- 
2.43.0


From 5c8ea971010c10b02472d981820bffa581896e99 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 049/111] fix: expm_multiply_parallel.set_a with an explicit
 dtype used an undefined name

---
 .../expm_multiply_parallel_core/expm_multiply_parallel_core.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py b/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
index 7914aa5..fccc4fe 100644
--- a/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
+++ b/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
@@ -129,7 +129,7 @@ class expm_multiply_parallel(object):
             if dtype is None:
                 self._dtype = _np.result_type(self._A.dtype,a_dtype_min,_np.float64)
             else:
-                min_dtype = _np.result_type(A.dtype,a_dtype_min,_np.float32)
+                min_dtype = _np.result_type(self._A.dtype,a_dtype_min,_np.float32)
                 if not _np.can_cast(min_dtype,dtype):
                     raise ValueError("dtype not sufficient to represent a*A to at least float32 precision.")
 
-- 
2.43.0


From 2286d5f69d237921f2c9e8c67ccf6c9c751f5170 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 050/111] fix: undefined names in the dynamic FTLM iteration

---
 quspin/tools/lanczos/_FTLM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/lanczos/_FTLM.py b/quspin/tools/lanczos/_FTLM.py
index f87abba..87b96bd 100644
--- a/quspin/tools/lanczos/_FTLM.py
+++ b/quspin/tools/lanczos/_FTLM.py
@@ -130,7 +130,7 @@ def _FTLM_dynamic_iteration(A_dagger,E_l,V_l,Q_iter_l,E_r,V_r,Q_iter_r,beta=0):
 
 	A_me_diag = V_l.T.dot(A_me.dot(V_r))
 	result = _np.einsum("ij,ij...->ij...",A_me_diag,c)
-	omegas = np.subtract.outer(E_l,E_r)
-	Id = _np.einsum("j,j...->...",V[0,:]**2,p)
+	omegas = _np.subtract.outer(E_l,E_r)
+	Id = _np.einsum("j,j...->...",V_l[0,:]**2,p)
 
 	return result,omegas,Id
\ No newline at end of file
-- 
2.43.0


From 3c02a6bb6292155cf44dde3ca83ec9112da476e6 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 051/111] fix: photon_basis.project_from failed for sparse
 states without total particle conservation

---
 quspin/basis/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index af582a6..8e3b447 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -303,7 +303,7 @@ class tensor_basis(basis):
 		elif v0.ndim == 2:
 
 			if _sp.issparse(v0):
-				return self.get_proj(v0.dtype,full_left=full_left,full_right=full_right).dot(v0)
+				return tensor_basis.get_proj(self,v0.dtype,full_left=full_left,full_right=full_right).dot(v0)
 
 			return _combine_project_froms(self,v0,sparse,full_left,full_right)
 		else:
-- 
2.43.0


From 784e834d2cd27666c3d3a5e131c45000e1573b80 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 052/111] fix: quantum_LinearOperator.dot with out= used
 undefined names and ignored a for the diagonal

---
 quspin/operators/quantum_LinearOperator_core.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 22a0ab6..d14cd73 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -300,17 +300,14 @@ class quantum_LinearOperator(LinearOperator):
 		"""
 		if out is not None:
 			out = _np.asanyarray(out)
+			other = _np.asanyarray(other)
 			result_dtype = _np.result_type(self._dtype,other.dtype)
 
-			if (not out.flags["CARRAY"] or (out.dtype,out.shape) != (result_dtype,shape)):
+			if (not out.flags["CARRAY"] or (out.dtype,out.shape) != (result_dtype,other.shape)):
 				raise ValueError("out must be C-congituous writable array \
-					with dtype {} and shape {}.".format(result_dtype,self._shape))
-
-			if self.diagonal is not None:
-				_np.multiply(other.T,self.diagonal,out=out.T)
+					with dtype {} and shape {}.".format(result_dtype,other.shape))
 
-			self.basis.inplace_Op(other, self._static_list, self._dtype,
-				self._conjugated,self._transposed,v_out=out,a=a)
+			out[...] = a * self._matvec(other)
 
 			return out
 		else:
-- 
2.43.0


From 10acd77ab9bc69cf93c09639bb0b81e86c6483b3 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:42:48 +0000
Subject: [PATCH 053/111] fix: transposed and conjugated
 quantum_LinearOperators were interchanged, and the diagonal was not
 conjugated

---
 quspin/operators/quantum_LinearOperator_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index d14cd73..c0cd6e2 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -488,10 +488,11 @@ class quantum_LinearOperator(LinearOperator):
 		new_other = _np.zeros_like(other)
 		
 		if self._diagonal is not None:
-			_np.multiply(other.T,self._diagonal,out=new_other.T)
+			diagonal = self._diagonal.conj() if self._conjugated else self._diagonal
+			_np.multiply(other.T,diagonal,out=new_other.T)
 
 		self.basis.inplace_Op(other,self._static_list, self._dtype,
-							self._conjugated,self._transposed,v_out=new_other)
+							transposed=self._transposed,conjugated=self._conjugated,v_out=new_other)
 
 		return new_other
 
-- 
2.43.0


From 865d684b79a72ffcdd4bb3de817f8f363803ae8b Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:42:48 +0000
Subject: [PATCH 054/111] fix: T, H, conj, transpose and getH of
 quantum_LinearOperator modified the operator itself, and copy raised

---
 .../operators/quantum_LinearOperator_core.py  | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index c0cd6e2..8ac8c67 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -552,11 +552,9 @@ class quantum_LinearOperator(LinearOperator):
 		>>> H_tran = H.transpose()
 
 		"""
-		if copy:
-			return self.copy().transpose()
-		else:
-			self._transposed = not self._transposed
-			return self
+		new = self.copy() if copy else self._view()
+		new._transposed = not self._transposed
+		return new
 
 	def conjugate(self):
 		"""Conjugates `quantum_LinearOperator` operator.
@@ -576,8 +574,9 @@ class quantum_LinearOperator(LinearOperator):
 		>>> H_conj = H.conj()
 
 		"""
-		self._conjugated = not self._conjugated
-		return self
+		new = self._view()
+		new._conjugated = not self._conjugated
+		return new
 
 	def conj(self):
 		"""Conjugates `quantum_LinearOperator` operator.
@@ -619,17 +618,26 @@ class quantum_LinearOperator(LinearOperator):
 
 		"""
 		if copy:
-			return self.copy().get_H()
+			return self.copy().getH()
 		else:
 			return self.conj().transpose()
 
 	### special methods
 
+	def _view(self):
+		# new object which shares the operator strings and the diagonal with this one
+		new = quantum_LinearOperator.__new__(quantum_LinearOperator)
+		new.__dict__.update(self.__dict__)
+		return new
+
 	def copy(self):
 		"""Returns a deep copy of `quantum_LinearOperator` object."""
-		return quantum_LinearOperator(list(self._static_list),basis=self._basis,
-							diagonal=self._diagonal,dtype=self._dtype,
-							check_symm=False,check_herm=False,check_pcon=False,copy=True)
+		new = self._view()
+		new._static_list = list(self._static_list)
+		new._public_static_list = list(self._public_static_list)
+		if self._diagonal is not None:
+			new._diagonal = self._diagonal.copy()
+		return new
 
 	def __repr__(self):
 		return "<{0}x{1} quspin quantum_LinearOperator of type '{2}'>".format(*(self._shape[0],self._shape[1],self._dtype))
-- 
2.43.0


From 34ac10911dc933845eaa4a0f4b9d9e3c53e1c683 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:42:48 +0000
Subject: [PATCH 055/111] fix: scalar multiples of quantum_LinearOperator were
 None

---
 quspin/operators/quantum_LinearOperator_core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 8ac8c67..5c174f0 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -104,7 +104,6 @@ class quantum_LinearOperator(LinearOperator):
 		self._unique_me = self.basis._unique_me
 		self._transposed = False
 		self._conjugated = False
-		self._scale = _np.array(1.0,dtype=dtype)
 		self._dtype = dtype
 		self._ndim = 2
 		self._shape = (self._basis.Ns,self._basis.Ns)
@@ -705,7 +704,8 @@ class quantum_LinearOperator(LinearOperator):
 
 	def __imul__(self,other):
 		if _np.isscalar(other):
-			return self._mul_scalar(other)
+			self.__dict__.update(self._mul_scalar(other).__dict__)
+			return self
 		else:
 			return NotImplemented
 
@@ -767,8 +767,13 @@ class quantum_LinearOperator(LinearOperator):
 			return (self.T._mul_sparse(other.T)).T
 
 	def _mul_scalar(self,other):
-		self._dtype = _np.result_type(self._dtype,other)
-		self._scale *= other
+		new = self.copy()
+		new._dtype = _np.result_type(self._dtype,other).type
+		scale = _np.conj(other) if self._conjugated else other
+		new._static_list = [(opstr,indx,scale*J) for opstr,indx,J in self._static_list]
+		if self._diagonal is not None:
+			new._diagonal = scale*self._diagonal
+		return new
 
 	def _mul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-- 
2.43.0


From 281202c32ef076e45ddf4f72ed7320ad0d16c737 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:42:48 +0000
Subject: [PATCH 056/111] fix: quantum_LinearOperator.quant_fluct used
 undefined names

---
 quspin/operators/quantum_LinearOperator_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 5c174f0..f30393b 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -353,13 +353,13 @@ class quantum_LinearOperator(LinearOperator):
 
 		# fluctuations =  expctH2 - expctH^2
 		kwargs = dict(enforce_pure=enforce_pure)
-		V_dot = self.dot(V,check=check)
+		V_dot = self.dot(V)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
 		if V.shape[0] != V.shape[1] or enforce_pure:
 			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
 		else:
-			V_dot = self.dot(V_dot,time=time,check=check)
+			V_dot = self.dot(V_dot)
 			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
-- 
2.43.0


From e768e45ba068b2b3d12e4d6463f819f055a70f7c Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:42:48 +0000
Subject: [PATCH 057/111] fix: quantum_LinearOperator measurements used names
 that do not exist

---
 quspin/operators/quantum_LinearOperator_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index f30393b..6c57f9f 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -410,7 +410,7 @@ class quantum_LinearOperator(LinearOperator):
 	def _expt_value_core(self,V_left,V_right,enforce_pure=False):
 		if _sp.issparse(V_right):
 			if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-				return _np.asscalar((V_left.H.dot(V_right)).toarray())
+				return (V_left.H.dot(V_right)).toarray().item()
 			else: # density matrix
 				return V_right.diagonal().sum()
 		else:
@@ -462,7 +462,7 @@ class quantum_LinearOperator(LinearOperator):
 			shape = Vl.shape
 
 		if shape[0] != self._shape[1]:
-			raise ValueError("matrix dimension mismatch with shapes: {0} and {1}.".format(V.shape,self._shape))
+			raise ValueError("matrix dimension mismatch with shapes: {0} and {1}.".format(Vl.shape,self._shape))
 
 		if Vl.ndim > 2:
 			raise ValueError("Expecting  0< V.ndim < 3.")
-- 
2.43.0


From 371b4c9351e03ec43685486d37c5bb24bab4b746 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:42:48 +0000
Subject: [PATCH 058/111] fix: products of quantum_LinearOperator with sparse
 matrices read the wrong operator list

---
 quspin/operators/quantum_LinearOperator_core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 6c57f9f..1543c49 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -784,15 +784,16 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _mul_sparse(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		if self.diagonal is not None:
-			new_other = _sp.dia_matrix((_np.asarray([self._diagonal]),_np.array([0])),shape=self._shape).dot(other)
+		if self._diagonal is not None:
+			diagonal = self._diagonal.conj() if self._conjugated else self._diagonal
+			new_other = _sp.dia_matrix((_np.asarray([diagonal]),_np.array([0])),shape=self._shape).dot(other)
 			if new_other.dtype != result_dtype:
 				new_other = new_other.astype(result_dtype)
 		else:
 			new_other = _sp.csr_matrix(other.shape,dtype=result_dtype)
 
 
-		for opstr,indx,J in self.static_list:
+		for opstr,indx,J in self._static_list:
 			if not self._transposed:
 				ME, row, col = self.basis.Op(opstr, indx, J, self._dtype)
 			else:
-- 
2.43.0


From f1d0bb9e6a43531a077586ea40b7a9d475d15e7d Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Wed, 18 Nov 2026 23:42:48 +0000
Subject: [PATCH 059/111] fix: products of quantum_LinearOperator with
 hamiltonian objects read an attribute hamiltonian does not have

---
 quspin/operators/quantum_LinearOperator_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 1543c49..6fc2992 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -777,7 +777,7 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _mul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		static = self.__mul__(other._static_list)
+		static = self.__mul__(other.static)
 		dynamic = [[self.__mul__(Hd),func] for func,Hd in iteritems(other.dynamic)]
 		return hamiltonian([static],dynamic,
 							basis=self._basis,dtype=result_dtype,copy=False)
@@ -808,7 +808,7 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _rmul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		static = self.__rmul__(other._static_list)
+		static = self.__rmul__(other.static)
 		dynamic = [[self.__rmul__(Hd),func] for func,Hd in iteritems(other.dynamic)]
 		return hamiltonian([static],dynamic,
 							basis=self._basis,dtype=result_dtype,copy=False)
-- 
2.43.0


From 838b12f5a25ebaeac8ea52c3ecb9a937c026c69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:20 +0000
Subject: [PATCH 060/111] fix: expectation values of quantum_LinearOperator in
 several sparse states raised ValueError

---
 quspin/operators/quantum_LinearOperator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 6fc2992..57423b1 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -410,7 +410,7 @@ class quantum_LinearOperator(LinearOperator):
 	def _expt_value_core(self,V_left,V_right,enforce_pure=False):
 		if _sp.issparse(V_right):
 			if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-				return (V_left.H.dot(V_right)).toarray().item()
+				return V_left.H.dot(V_right).diagonal().squeeze()[()]
 			else: # density matrix
 				return V_right.diagonal().sum()
 		else:
-- 
2.43.0


From c7357f3f25fc0c5ff8bb50ac1e43297d7dc27025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:20 +0000
Subject: [PATCH 061/111] fix: quant_fluct of quantum_LinearOperator failed for
 1-d states and used the square of the modulus of non-hermitian operators

---
 quspin/operators/quantum_LinearOperator_core.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 57423b1..185932f 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -356,11 +356,8 @@ class quantum_LinearOperator(LinearOperator):
 		V_dot = self.dot(V)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
-		if V.shape[0] != V.shape[1] or enforce_pure:
-			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
-		else:
-			V_dot = self.dot(V_dot)
-			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
+		V_dot = self.dot(V_dot)
+		sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
 
-- 
2.43.0


From f3e6771df7348a14f6c6ef9df48872e33a3a5e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 062/111] fix: exp_op views (T, H, conj) must not change the
 operator they are taken from

---
 quspin/operators/exp_op_core.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index ab93dbc..493d78d 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -227,8 +227,9 @@ class exp_op(object):
 		if copy:
 			return self.copy().transpose(copy = False)
 		else:
-			self._O=self._O.transpose()
-			return self
+			new = _shallowcopy(self)
+			new._O = self._O.transpose()
+			return new
 
 	def conj(self):
 		"""Conjugates `exp_op` operator.
@@ -248,9 +249,10 @@ class exp_op(object):
 		>>> expO_conj = expO.conj()
 
 		"""
-		self._O=self._O.conj()
-		self._a = self._a.conjugate()
-		return self
+		new = _shallowcopy(self)
+		new._O = self._O.conj()
+		new._a = self._a.conjugate()
+		return new
 
 	def getH(self,copy = False):
 		"""Calculates hermitian conjugate of `exp_op` operator.
@@ -274,9 +276,10 @@ class exp_op(object):
 		if copy:
 			return self.copy().getH(copy = False)
 		else:
-			self._O = self._O.getH(copy = False)
-			self._a = self._a.conjugate()
-			return self
+			new = _shallowcopy(self)
+			new._O = self._O.getH(copy = False)
+			new._a = self._a.conjugate()
+			return new
 
 
 	def copy(self):
-- 
2.43.0


From 5b667426e478a664529f3e3345fb264ba2a2f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 063/111] fix: exp_op.sandwich without grid applies
 exp(O)^dagger from the left and honours shift

---
 quspin/operators/exp_op_core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 493d78d..497b6f0 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -671,7 +671,7 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a.conjugate() * (self.O.H(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))
+			M = self._a.conjugate() * (self.O.H(**call_kwargs) + _np.conj(shift)*_sp.identity(self.Ns,dtype=self.O.dtype))
 		else:
 			M = self._a.conjugate() * self.O.H(**call_kwargs)
 			
@@ -686,9 +686,12 @@ class exp_op(object):
 		else:
 			if self._grid is None and self._step is None:
 
-				other = self.dot(other,**call_kwargs)
-				other = self.H.rdot(other,**call_kwargs)
-				return other
+				if is_ham:
+					other = _hamiltonian_dot(M, other)
+					return _hamiltonian_dot(M, other.T.conj()).T.conj()
+				else:
+					other = _expm_multiply(M, other)
+					return _expm_multiply(M, other.T.conj()).T.conj()
 
 			else:
 				if is_ham:
-- 
2.43.0


From 4a3b0b3142560cf6f8f22d1c60c4aa07cb0089dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 064/111] fix: exp_op grids on hamiltonian operands mixed up
 the grid and its step

---
 quspin/operators/exp_op_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 497b6f0..fcd5bb4 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -753,7 +753,7 @@ def _hamiltonian_dot(M, other):
 
 	return new
 
-def _hamiltonian_iter_dot(M, other, grid, step):
+def _hamiltonian_iter_dot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _hamiltonian_dot(M, other)
@@ -774,7 +774,7 @@ def _hamiltonian_rdot(M, other):
 
 	return new
 
-def _hamiltonian_iter_rdot(M, other, grid, step):
+def _hamiltonian_iter_rdot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _hamiltonian_rdot(M, other)
-- 
2.43.0


From 7c625429dafdb38d31788e7c5c1a5ec891143567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 065/111] fix: operators returned by exp_op keep the
 multiplication kernels of the matrices they replaced

---
 quspin/operators/exp_op_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index fcd5bb4..36de718 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -750,6 +750,7 @@ def _hamiltonian_dot(M, other):
 	new._dtype = _np.result_type(M.dtype,new._dtype)
 	new._static = _expm_multiply(M, other.static)
 	new._dynamic = {func:_expm_multiply(M, Hd) for func,Hd in iteritems(other._dynamic)}
+	new._get_matvecs()
 
 	return new
 
@@ -771,6 +772,7 @@ def _hamiltonian_rdot(M, other):
 	new._dtype = _np.result_type(M.dtype,new._dtype)
 	new._static = _expm_multiply(M, other.static)
 	new._dynamic = {func:_expm_multiply(M, Hd) for func,Hd in iteritems(other._dynamic)}
+	new._get_matvecs()
 
 	return new
 
-- 
2.43.0


From 58e8206046fdedb6dad785252baf8e0059b9684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 066/111] fix: iterating exp_op over a hamiltonian yielded the
 caller's own operator for a grid starting at 0

---
 quspin/operators/exp_op_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 36de718..02d5cb2 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -760,12 +760,12 @@ def _hamiltonian_iter_dot(M, other, step, grid):
 		other = _hamiltonian_dot(M, other)
 		M /= grid[0]
 
-	yield other
+	yield other.copy()
 
 	M *= step
 	for t in grid[1:]:
 		other = _hamiltonian_dot(M, other)
-		yield other
+		yield other.copy()
 
 def _hamiltonian_rdot(M, other):
 	new = other.copy() #deep=False: not implememnted in hamiltonian_core.copy()
-- 
2.43.0


From d236467d992e5e640cacb083c90aacdf824080a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 067/111] fix: exp_op.set_grid rejected the documented defaults
 of num and endpoint

---
 quspin/operators/exp_op_core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 02d5cb2..2cde4fb 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -337,13 +337,17 @@ class exp_op(object):
 		if not (_np.isreal(start) and _np.isreal(stop)):
 			raise ValueError("expecting real values for 'start' and 'stop'")
 
-		if type(num) is not None:
+		if num is not None:
 			if type(num) is not int:
 				raise ValueError("expecting integer for 'num'.")
+		else:
+			num = 50
 
-		if type(endpoint) is not None:
+		if endpoint is not None:
 			if type(endpoint) is not bool:
 				raise ValueError("expecting bool for 'endpoint'.")
+		else:
+			endpoint = True
 
 		self._start=start
 		self._stop=stop
@@ -390,7 +394,7 @@ class exp_op(object):
 			raise ValueError("iterate option must be true or false.")
 
 		if Value:
-			if (self._grid, self._step) is (None, None):
+			if self._grid is None and self._step is None:
 				raise ValueError("grid must be set in order to set iterate to be True.")
 
 		self._iterate = Value
-- 
2.43.0


From e148b31225bc7bd87db18654f10b2899bb8bf806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 068/111] fix: exp_op.get_mat without dense=True called a dense
 routine on a sparse matrix

---
 quspin/operators/exp_op_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 2cde4fb..ebc28be 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -8,6 +8,7 @@ import scipy.linalg as _la
 import scipy.sparse as _sp
 import numpy as _np
 
+from scipy.sparse.linalg import expm as _sp_expm
 from scipy.sparse.linalg import expm_multiply as _expm_multiply
 
 from copy import deepcopy as _deepcopy # recursively copies all data into new object
@@ -430,7 +431,7 @@ class exp_op(object):
 		if self.O.is_dense or dense:
 			return _la.expm(self._a * self.O.toarray(**call_kwargs))
 		else:
-			return _la.expm(self._a * self.O.tocsc(**call_kwargs))
+			return _sp_expm(self._a * self.O.tocsc(**call_kwargs))
 
 	def dot(self, other,shift=None,**call_kwargs):
 		"""Left-multiply operator by matrix exponential.
-- 
2.43.0


From 283981605724ccb3889a13c28197403dc4a8f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 069/111] fix: exp_op over a complex grid scaled a real
 operator in place

---
 quspin/operators/exp_op_core.py | 46 ++++++++++++++-------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index ebc28be..f3af60a 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -710,40 +710,37 @@ class exp_op(object):
 ### helper functions
 def _iter_dot(M, other, step, grid):
 	if grid[0] != 0:
-		M *= grid[0]
-		other = _expm_multiply(M, other)
-		M /= grid[0]
+		M0 = M*grid[0]
+		other = _expm_multiply(M0, other)
 
 	yield other.copy()
 
-	M *= step
+	M = M*step
 	for t in grid[1:]:
 		other = _expm_multiply(M, other)
 		yield other.copy()
 
 def _iter_rdot(M, other, step, grid):
 	if grid[0] != 0:
-		M *= grid[0]
-		other = _expm_multiply(M, other)
-		M /= grid[0]
+		M0 = M*grid[0]
+		other = _expm_multiply(M0, other)
 
 	yield other.T.copy()
 
-	M *= step
+	M = M*step
 	for t in grid[1:]:
 		other = _expm_multiply(M, other)
 		yield other.T.copy()
 
 def _iter_sandwich(M, other, step, grid):
 	if grid[0] != 0:
-		M *= grid[0]
-		other = _expm_multiply(M, other)
-		other = _expm_multiply(M, other.T.conj()).T.conj()
-		M /= grid[0]
+		M0 = M*grid[0]
+		other = _expm_multiply(M0, other)
+		other = _expm_multiply(M0, other.T.conj()).T.conj()
 
 	yield other.copy()
 
-	M *= step
+	M = M*step
 	for t in grid[1:]:
 		other = _expm_multiply(M, other)
 		other = _expm_multiply(M, other.T.conj()).T.conj()
@@ -761,13 +758,12 @@ def _hamiltonian_dot(M, other):
 
 def _hamiltonian_iter_dot(M, other, step, grid):
 	if grid[0] != 0:
-		M *= grid[0]
-		other = _hamiltonian_dot(M, other)
-		M /= grid[0]
+		M0 = M*grid[0]
+		other = _hamiltonian_dot(M0, other)
 
 	yield other.copy()
 
-	M *= step
+	M = M*step
 	for t in grid[1:]:
 		other = _hamiltonian_dot(M, other)
 		yield other.copy()
@@ -783,27 +779,25 @@ def _hamiltonian_rdot(M, other):
 
 def _hamiltonian_iter_rdot(M, other, step, grid):
 	if grid[0] != 0:
-		M *= grid[0]
-		other = _hamiltonian_rdot(M, other)
-		M /= grid[0]
+		M0 = M*grid[0]
+		other = _hamiltonian_rdot(M0, other)
 
 	yield other.transpose(copy=True)
 
-	M *= step
+	M = M*step
 	for t in grid[1:]:
 		other = _hamiltonian_rdot(M, other)
 		yield other.transpose(copy=True)
 
 def _hamiltonian_iter_sandwich(M, other, step, grid):
 	if grid[0] != 0:
-		M *= grid[0]
-		other = _hamiltonian_dot(M, other)
-		other = _hamiltonian_dot(M, other.T.conj()).T.conj()
-		M /= grid[0]
+		M0 = M*grid[0]
+		other = _hamiltonian_dot(M0, other)
+		other = _hamiltonian_dot(M0, other.T.conj()).T.conj()
 
 	yield other.copy()
 
-	M *= step
+	M = M*step
 	for t in grid[1:]:
 		other = _hamiltonian_dot(M, other)
 		other = _hamiltonian_dot(M, other.T.conj()).T.conj()
-- 
2.43.0


From 47b7a1407707c8c9ce36d2b083976e5a17b1d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 070/111] fix: exp_op.sandwich over a complex grid did not
 conjugate the grid on the left

---
 quspin/operators/exp_op_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index f3af60a..fb8127d 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -683,9 +683,9 @@ class exp_op(object):
 		if self._iterate:
 
 			if is_ham:
-				mat_iter = _hamiltonian_iter_sandwich(M, other, self._step, self._grid)
+				mat_iter = _hamiltonian_iter_sandwich(M, other, _np.conj(self._step), _np.conj(self._grid))
 			else:
-				mat_iter = _iter_sandwich(M, other, self._step, self._grid)
+				mat_iter = _iter_sandwich(M, other, _np.conj(self._step), _np.conj(self._grid))
 
 			return mat_iter
 		else:
-- 
2.43.0


From b42e0f89cdb61b96ee43344880e704f904680394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 071/111] fix: exp_op.sandwich of a sparse matrix over a grid
 raised ValueError

---
 quspin/operators/exp_op_core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index fb8127d..f629c99 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -654,12 +654,14 @@ class exp_op(object):
 		>>> print(expO.sandwich(A))
 		
 		"""
+		is_sp = False
 		is_ham = False
 		if hamiltonian_core.ishamiltonian(other):
 			shape = other._shape
 			is_ham = True
 		elif _sp.issparse(other):
 			shape = other.shape
+			is_sp = True
 		elif other.__class__ in [_np.matrix, _np.ndarray]:
 			shape = other.shape
 		else:
@@ -702,6 +704,9 @@ class exp_op(object):
 				if is_ham:
 					mat_iter = _hamiltonian_iter_sandwich(M, other, self._step, self._grid)
 					return _np.asarray([mat for mat in mat_iter])
+				elif is_sp:
+					mat_iter = _iter_sandwich(M, other, self._step, self._grid)
+					return _np.array([mat for mat in mat_iter])
 				else:
 					mat_iter = _iter_sandwich(M, other, self._step, self._grid)
 					return _np.asarray([mat for mat in mat_iter]).transpose((1,2,0))
-- 
2.43.0


From c7e6eff2780d3a197f8511004d17b04c93a2ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 072/111] fix: the shift option of exp_op failed for dense
 operators

---
 quspin/operators/exp_op_core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index f629c99..5815c54 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -488,7 +488,7 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a * (self.O(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))
+			M = self._a * _add_shift(self.O(**call_kwargs), shift)
 		else:
 			M = self._a * self.O(**call_kwargs)
 
@@ -583,7 +583,7 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
 		if shift is not None:
-			M = (self._a * (self.O(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))).T
+			M = (self._a * _add_shift(self.O(**call_kwargs), shift)).T
 		else:
 			M = (self._a * self.O(**call_kwargs)).T
 
@@ -678,7 +678,7 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a.conjugate() * (self.O.H(**call_kwargs) + _np.conj(shift)*_sp.identity(self.Ns,dtype=self.O.dtype))
+			M = self._a.conjugate() * _add_shift(self.O.H(**call_kwargs), _np.conj(shift))
 		else:
 			M = self._a.conjugate() * self.O.H(**call_kwargs)
 			
@@ -713,6 +713,12 @@ class exp_op(object):
 
 
 ### helper functions
+def _add_shift(M, shift):
+	if _sp.issparse(M):
+		return M + shift*_sp.identity(M.shape[0], dtype=M.dtype)
+	else:
+		return M + shift*_np.identity(M.shape[0], dtype=M.dtype)
+
 def _iter_dot(M, other, step, grid):
 	if grid[0] != 0:
 		M0 = M*grid[0]
-- 
2.43.0


From 05c0672473aa2e30afccc5978a73b07e6153ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 073/111] fix: exp_op of a dense operator could not be applied
 to a sparse matrix or hamiltonian

---
 quspin/operators/exp_op_core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 5815c54..8fdd2ca 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -9,7 +9,7 @@ import scipy.sparse as _sp
 import numpy as _np
 
 from scipy.sparse.linalg import expm as _sp_expm
-from scipy.sparse.linalg import expm_multiply as _expm_multiply
+from scipy.sparse.linalg import expm_multiply as _sp_expm_multiply
 
 from copy import deepcopy as _deepcopy # recursively copies all data into new object
 from copy import copy as _shallowcopy
@@ -713,6 +713,12 @@ class exp_op(object):
 
 
 ### helper functions
+def _expm_multiply(M, other, **kwargs):
+	if _sp.issparse(other) and not _sp.issparse(M):
+		M = _sp.csr_matrix(M)
+
+	return _sp_expm_multiply(M, other, **kwargs)
+
 def _add_shift(M, shift):
 	if _sp.issparse(M):
 		return M + shift*_sp.identity(M.shape[0], dtype=M.dtype)
-- 
2.43.0


From 642db66393dbef05fa5757a05962cbcdd9af1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 074/111] fix: exp_op of a quantum_operator did not accept the
 documented pars argument and failed for dense ones

---
 quspin/operators/exp_op_core.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 8fdd2ca..f332dd1 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -488,9 +488,9 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a * _add_shift(self.O(**call_kwargs), shift)
+			M = self._a * _add_shift(_evaluate(self.O, call_kwargs), shift)
 		else:
-			M = self._a * self.O(**call_kwargs)
+			M = self._a * _evaluate(self.O, call_kwargs)
 
 		if self._iterate:
 			if is_ham:
@@ -583,9 +583,9 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
 		if shift is not None:
-			M = (self._a * _add_shift(self.O(**call_kwargs), shift)).T
+			M = (self._a * _add_shift(_evaluate(self.O, call_kwargs), shift)).T
 		else:
-			M = (self._a * self.O(**call_kwargs)).T
+			M = (self._a * _evaluate(self.O, call_kwargs)).T
 
 		if self._iterate:
 			if is_ham:
@@ -678,9 +678,9 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a.conjugate() * _add_shift(self.O.H(**call_kwargs), _np.conj(shift))
+			M = self._a.conjugate() * _add_shift(_evaluate(self.O.H, call_kwargs), _np.conj(shift))
 		else:
-			M = self._a.conjugate() * self.O.H(**call_kwargs)
+			M = self._a.conjugate() * _evaluate(self.O.H, call_kwargs)
 			
 		if self._iterate:
 
@@ -713,6 +713,16 @@ class exp_op(object):
 
 
 ### helper functions
+def _evaluate(O, call_kwargs):
+	if quantum_operator_core.isquantum_operator(O) and list(call_kwargs) == ["pars"]:
+		call_kwargs = call_kwargs["pars"]
+
+	M = O(**call_kwargs)
+	if _sp.issparse(M):
+		return M
+	else:
+		return _np.asarray(M)
+
 def _expm_multiply(M, other, **kwargs):
 	if _sp.issparse(other) and not _sp.issparse(M):
 		M = _sp.csr_matrix(M)
-- 
2.43.0


From c913bf3fbd86df56b2e4a43cb09bb11218077c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 075/111] fix: ho_basis and number-conserving photon_basis lack
 the attributes of the hermiticity, symmetry and particle checks

---
 quspin/basis/photon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index a668815..8937ce2 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -161,6 +161,7 @@ class photon_basis(tensor_basis):
 			if Ntot < 0: raise ValueError("Ntot must be an integer >= 0.")
 
 			self._check_pcon=True
+			self._check_herm=True
 			self._basis_left = basis_constructor(*constructor_args,_Np=Ntot,**blocks)
 			if isinstance(self._basis_left,tensor_basis): raise TypeError("Can only create photon basis with non-tensor type basis")
 			if not isinstance(self._basis_left,basis): raise TypeError("Can only create photon basis with basis type")
@@ -895,6 +896,9 @@ class ho_basis(basis):
 
 		self._blocks = {}
 		self._unique_me = True
+		self._check_herm = True
+		self._check_symm = None
+		self._check_pcon = None
 
 	@property
 	def Np(self):
@@ -939,7 +943,7 @@ class ho_basis(basis):
 		return self._basis.__iter__()
 
 	def _sort_opstr(self,op):
-		return tuple(op)
+		return (op[0],tuple(op[1])) + tuple(op[2:])
 
 	def _get__str__(self):
 		def get_state(b):
-- 
2.43.0


From 035d49c2cdebd0bcb951c079bc1f4f7e6c827678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 076/111] fix: ho_basis regards exactly the vanishing operators
 as non-zero, which empties the particle check of photon_basis

---
 quspin/basis/photon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 8937ce2..0440901 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -977,7 +977,7 @@ class ho_basis(basis):
 	def _non_zero(self,op):
 		m = (op[0].count("-") > self._Np)
 		p = (op[0].count("+") > self._Np)
-		return (p or m)
+		return not (p or m)
 
 
 	def _expand_opstr(self,op,num):
-- 
2.43.0


From 742d16af21224538d88e19eff35d515e77bdff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 077/111] fix: the symmetry check of photon_basis with Nph is
 switched off by tensor_basis

---
 quspin/basis/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 8e3b447..880af8d 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -50,6 +50,8 @@ class tensor_basis(basis):
 			:lines: 7-
 
 	"""
+	_check_symm = None # derived classes can provide a method for the symmetry checks
+
 	def __init__(self,*basis_list):
 		"""Initialises the `tensor_basis` object (basis for tensor product Hilbert spaces).
 
@@ -90,7 +92,6 @@ class tensor_basis(basis):
 		self._blocks = self._basis_left._blocks.copy()
 		self._blocks.update(self._basis_right._blocks)
 
-		self._check_symm=None
 		self._check_pcon=None # update once check_pcon is implemented for tensor_basis
 
 		self._unique_me = self._basis_left._unique_me and self._basis_right._unique_me
-- 
2.43.0


From 9a1969404a1a2cc533d67f853fd30fd354c00a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 078/111] fix: sorting the operators of a tensor or photon
 basis drops the fermionic sign of the reordering

---
 quspin/basis/photon.py | 1 +
 quspin/basis/tensor.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 0440901..932090d 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -734,6 +734,7 @@ class photon_basis(tensor_basis):
 
 		op[0] = "|".join((op1[0],op2[0]))
 		op[1] = op1[1] + op2[1]
+		op[2] = op1[2] # the photon operators are not reordered
 		
 		return tuple(op)
 
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 880af8d..6836bf5 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -836,12 +836,14 @@ class tensor_basis(basis):
 		op2 = list(op)
 		op2[0] = opstr_right
 		op2[1] = tuple(indx_right)
+		op2[2] = 1.0
 		
 		op1 = self._basis_left._sort_opstr(op1)
 		op2 = self._basis_right._sort_opstr(op2)
 
 		op[0] = "|".join((op1[0],op2[0]))
 		op[1] = op1[1] + op2[1]
+		op[2] = op1[2]*op2[2]
 		
 		return tuple(op)
 
-- 
2.43.0


From 28d285e2cfc2483c94062a0e0113bfcd0f03da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 079/111] fix: symmetry check of the general basis classes
 swaps raising and lowering operators of all sites for each inverted site

---
 quspin/basis/basis_general/base_general.py | 11 ++++++++---
 quspin/basis/basis_general/fermion.py      |  4 ++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index cc897d9..f607436 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -1148,21 +1148,26 @@ class basis_general(lattice_basis):
 
 
 
-def _check_symm_map(map,sort_opstr,operator_list):
+def _check_symm_map(map,sort_opstr,operator_list,flip_all=False):
+	# flip_all: an inverted site exchanges all raising and lowering operators (particle-hole maps of spinful fermions)
 	missing_ops=[]
 	odd_ops=[]
 	for op in operator_list:
 		opstr = str(op[0])
 		indx  = list(op[1])
 		J     = op[2]
-		for j,ind in enumerate(op[1]):
+		# the symmetry only acts on the particles which stand to the left of '|'
+		n_ops = opstr.index("|") if "|" in opstr else len(opstr)
+		for j,ind in enumerate(op[1][:n_ops]):
 			i = map[ind]
 			if i < 0:
 				if opstr[j] == "n":
 					odd_ops.append(op)
 
 				J *= (-1 if opstr[j] in ["z","y"] else 1)
-				opstr = opstr.replace("+","#").replace("-","+").replace("#","-")
+				first,last = (0,len(opstr)) if flip_all else (j,j+1)
+				flipped = opstr[first:last].replace("+","#").replace("-","+").replace("#","-")
+				opstr = opstr[:first] + flipped + opstr[last:]
 				i = -(i+1)
 
 			indx[j] = i
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 0afea2d..22b5c3c 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -962,11 +962,11 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		dynamic_blocks = {}
 		for block,map in self._maps_dict.items():
 			key = block+" symm"
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list)
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list,flip_all=True)
 			if odd_ops or missing_ops:
 				static_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list)
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list,flip_all=True)
 			if odd_ops or missing_ops:
 				dynamic_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
-- 
2.43.0


From 341fe982a451df8f1c49cb9150154e91d762c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 080/111] fix: spin-exchange symmetry check of
 spinful_fermion_basis_1d does not move the indices with the operators

---
 quspin/basis/basis_1d/_check_1d_symm_spf.py | 46 ++++++++++-----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/quspin/basis/basis_1d/_check_1d_symm_spf.py b/quspin/basis/basis_1d/_check_1d_symm_spf.py
index 3e3a63e..f4a9eff 100644
--- a/quspin/basis/basis_1d/_check_1d_symm_spf.py
+++ b/quspin/basis/basis_1d/_check_1d_symm_spf.py
@@ -10,6 +10,19 @@ import warnings
 
 
 
+def exchange_species(opstr,indx):
+	parts = opstr.split("|")
+	n_left = len(parts[0])
+	n = n_left + len(parts[1])
+	N_left = parts[0].count("+") + parts[0].count("-")
+	N_right = parts[1].count("+") + parts[1].count("-")
+	parts[:2] = parts[1::-1]
+
+	return "|".join(parts),indx[n_left:n]+indx[:n_left]+indx[n:],(-1)**(N_right*N_left)
+
+
+
+
 def check_T(sort_opstr,operator_list,L,a):
 	missing_ops=[]
 	for i in range(0,L//a,1):
@@ -39,21 +52,12 @@ def check_Z(sort_opstr,operator_list,photon):
 		opstr = str(op[0])
 		indx = list(op[1])
 
-		if photon:
-			opstr_left,opstr_right,opstr_phtn = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
-			new_opstr = "|".join((opstr_right,opstr_left,opstr_phtn))
-		else:
-			opstr_left,opstr_right = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
-			new_opstr = "|".join((opstr_right,opstr_left))
-
+		new_opstr,new_indx,sign = exchange_species(opstr,indx)
 
 		new_op = list(op)
 		new_op[0] = new_opstr
-		new_op[2] *= (-1)**(N_right*N_left)
+		new_op[1] = new_indx
+		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
 		if not (new_op in operator_list):
 			missing_ops.append(new_op)
@@ -86,21 +90,15 @@ def check_PZ(sort_opstr,operator_list,L,photon):
 		opstr = str(op[0])
 		indx = list(op[1])
 
-		if photon:
-			opstr_left,opstr_right,opstr_phtn = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
-			new_opstr = "|".join((opstr_right,opstr_left,opstr_phtn))
-		else:
-			opstr_left,opstr_right = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
-			new_opstr = "|".join((opstr_right,opstr_left))
+		for j,ind in enumerate(indx):
+			indx[j] = (L-1-ind) % L
+
+		new_opstr,new_indx,sign = exchange_species(opstr,indx)
 
 		new_op = list(op)
 		new_op[0] = new_opstr
-		new_op[1] = indx
-		new_op[2] *= (-1)**(N_right*N_left)
+		new_op[1] = new_indx
+		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
 		if not (new_op in operator_list):
 			missing_ops.append(new_op)
-- 
2.43.0


From 6a75e6921c3aa2e0868cb38bc20ccf7f7e66a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 081/111] fix: spin-inversion symmetry checks reject symmetric
 operators built from terms with an odd number of z and y operators

---
 quspin/basis/basis_1d/_check_1d_symm.py | 29 ++++++++++++++-----------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/quspin/basis/basis_1d/_check_1d_symm.py b/quspin/basis/basis_1d/_check_1d_symm.py
index ec025ea..cf68000 100644
--- a/quspin/basis/basis_1d/_check_1d_symm.py
+++ b/quspin/basis/basis_1d/_check_1d_symm.py
@@ -58,16 +58,17 @@ def check_Z(sort_opstr,operator_list):
 		else:
 			i = len(opstr)
 
-		z_count = opstr[:i].count("z")
-		y_count = opstr[:i].count("y")
-		if ((y_count + z_count) % 2) != 0:
-			odd_ops.append(op)
+		sign = (-1)**(opstr[:i].count("z")+opstr[:i].count("y"))
 
 		new_op = list(op)
 		new_op[0] = new_op[0][:i].replace("+","#").replace("-","+").replace("#","-") + op[0][i:]
+		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
 		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+			if sign == -1:
+				odd_ops.append(op)
+			else:
+				missing_ops.append(new_op)
 
 	return odd_ops,missing_ops
 
@@ -138,16 +139,17 @@ def check_ZA(sort_opstr,operator_list):
 
 		sign,new_opstr = flip_sublat(opstr[:i],indx[:i],lat=0)
 
-		if sign == -1:
-			odd_ops.append(op)
-
 		new_op = list(op)
 		new_op[0] = new_opstr + opstr[i:]
+		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
 		
 
 		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+			if sign == -1:
+				odd_ops.append(op)
+			else:
+				missing_ops.append(new_op)
 
 	return odd_ops,missing_ops
 
@@ -169,15 +171,16 @@ def check_ZB(sort_opstr,operator_list):
 
 		sign,new_opstr = flip_sublat(opstr[:i],indx[:i],lat=1)
 
-		if sign == -1:
-			odd_ops.append(op)
-
 		new_op = list(op)
 		new_op[0] = new_opstr + opstr[i:]
+		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
 
 		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+			if sign == -1:
+				odd_ops.append(op)
+			else:
+				missing_ops.append(new_op)
 
 	return odd_ops,missing_ops
 
-- 
2.43.0


From 28f8fa6cba2752f79e6f082c79b9dcd20d831826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 082/111] fix: particle checks take non-vanishing products of
 raising and lowering operators on one site (e.g. '+-+') for zero

---
 quspin/basis/base.py                  | 12 ++++++++++++
 quspin/basis/basis_1d/boson.py        | 12 ++----------
 quspin/basis/basis_1d/fermion.py      | 13 ++-----------
 quspin/basis/basis_1d/spin.py         | 12 ++----------
 quspin/basis/basis_general/boson.py   | 12 ++----------
 quspin/basis/basis_general/fermion.py | 13 ++-----------
 quspin/basis/basis_general/spin.py    | 12 ++----------
 7 files changed, 24 insertions(+), 62 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index 28b5cd1..e6e5a25 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -32,6 +32,18 @@ MAXPRINT = 50
 
 __all__=["basis","isbasis"]
 
+def _non_zero_opstr(opstr,indx,sps):
+	# product of raising and lowering operators vanishes if it takes some site through more than `sps` levels
+	level,low,high = {},{},{}
+	for s,i in zip(opstr,indx):
+		if s == "+" or s == "-":
+			level[i] = level.get(i,0) + (1 if s == "+" else -1)
+			low[i] = min(low.get(i,0),level[i])
+			high[i] = max(high.get(i,0),level[i])
+
+	return all(high[i]-low[i] < sps for i in level)
+
+
 class basis(object):
 
 
diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 9cdbb1b..33ed90c 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -2,6 +2,7 @@ from ._basis_1d_core import hcp_basis,hcp_ops
 from ._basis_1d_core import boson_basis,boson_ops
 from .base_1d import basis_1d
 import numpy as _np
+from ..base import _non_zero_opstr
 
 
 
@@ -257,16 +258,7 @@ class boson_basis_1d(basis_1d):
 
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _non_zero_opstr(op[0],op[1],self.sps)
 		
 
 
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 4f997e7..2175377 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -1,7 +1,7 @@
 from ._basis_1d_core import hcp_basis,hcp_ops,spf_basis,spf_ops
 from . import _check_1d_symm_spf as _check
 from .base_1d import basis_1d
-from ..base import MAXPRINT
+from ..base import MAXPRINT,_non_zero_opstr
 import numpy as _np
 
 
@@ -778,16 +778,7 @@ def _sort_opstr_spinful(op):
 
 
 def _non_zero_spinless(op):
-	opstr = _np.array(list(op[0]))
-	indx = _np.array(op[1])
-	if _np.any(indx):
-		indx_p = indx[opstr == "+"].tolist()
-		p = not any(indx_p.count(x) > 1 for x in indx_p)
-		indx_p = indx[opstr == "-"].tolist()
-		m = not any(indx_p.count(x) > 1 for x in indx_p)
-		return (p and m)
-	else:
-		return True
+	return _non_zero_opstr(op[0],op[1],2)
 
 def _non_zero_spinful(op):
 		op = list(op)
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index f51d36d..c6a8fb2 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -2,6 +2,7 @@ from ._basis_1d_core import hcp_basis,hcp_ops
 from ._basis_1d_core import boson_basis,boson_ops
 from .base_1d import basis_1d
 import numpy as _np
+from ..base import _non_zero_opstr
 
 try:
 	S_dict = {(str(i)+"/2" if i%2==1 else str(i//2)):(i+1,i/2.0) for i in xrange(1,10001)}
@@ -275,16 +276,7 @@ class spin_basis_1d(basis_1d):
 		return tuple(op)
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx>=0):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _non_zero_opstr(op[0],op[1],self.sps)
 		
 	def _hc_opstr(self,op):
 		op = list(op)
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index c9640bf..7115682 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -2,6 +2,7 @@ from ._basis_general_core import boson_basis_core_wrap,get_basis_type,basis_zero
 from .base_hcb import hcb_basis_general
 from .base_general import basis_general
 import numpy as _np
+from ..base import _non_zero_opstr
 from scipy.special import comb
 
 def H_dim(Np,N,m_max):
@@ -259,16 +260,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _non_zero_opstr(op[0],op[1],self.sps)
 		
 
 
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 22b5c3c..ff8935c 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -2,7 +2,7 @@ from ._basis_general_core import spinful_fermion_basis_core_wrap
 from ._basis_general_core import spinless_fermion_basis_core_wrap
 from ._basis_general_core import get_basis_type,basis_zeros
 from .base_general import basis_general,_check_symm_map
-from ..base import MAXPRINT
+from ..base import MAXPRINT,_non_zero_opstr
 import numpy as _np
 from scipy.special import comb
 
@@ -214,16 +214,7 @@ class spinless_fermion_basis_general(basis_general):
 
 	
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > 1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > 1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _non_zero_opstr(op[0],op[1],2)
 		
 
 
diff --git a/quspin/basis/basis_general/spin.py b/quspin/basis/basis_general/spin.py
index 0f57775..cf0c60d 100644
--- a/quspin/basis/basis_general/spin.py
+++ b/quspin/basis/basis_general/spin.py
@@ -1,6 +1,7 @@
 from .base_hcb import hcb_basis_general
 from .base_higher_spin import higher_spin_basis_general
 import numpy as _np
+from ..base import _non_zero_opstr
 
 try:
 	S_dict = {(str(i)+"/2" if i%2==1 else str(i//2)):(i+1,i/2.0) for i in xrange(1,10001)}
@@ -265,16 +266,7 @@ class spin_basis_general(hcb_basis_general,higher_spin_basis_general):
 		return tuple(op)
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _non_zero_opstr(op[0],op[1],self.sps)
 		
 	def _hc_opstr(self,op):
 		op = list(op)
-- 
2.43.0


From 673fbeb2b4e7478f695a7acbd90bbec118825f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 083/111] fix: particle check adds up the couplings of terms
 with different time dependence

---
 quspin/basis/base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index e6e5a25..9134c98 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -844,19 +844,20 @@ class basis(object):
 
 		dynamic_dict={}
 		for opstr,indx,J,f,f_args,ii in dynamic_list:
+			key = (indx,f,str(f_args))
 			if opstr in dynamic_dict:
-				if indx in dynamic_dict[opstr]:
-					dynamic_dict[opstr][indx][0] += J
-					dynamic_dict[opstr][indx][3].extend(ii)
+				if key in dynamic_dict[opstr]:
+					dynamic_dict[opstr][key][0] += J
+					dynamic_dict[opstr][key][3].extend(ii)
 				else:
-					dynamic_dict[opstr][indx] = [J,f,f_args,ii]
+					dynamic_dict[opstr][key] = [J,f,f_args,ii]
 			else:
-				dynamic_dict[opstr] = {indx:[J,f,f_args,ii]}
+				dynamic_dict[opstr] = {key:[J,f,f_args,ii]}
 
 
 		dynamic_list = []
 		for opstr,opstr_dict in dynamic_dict.items():
-			for indx,(J,f,f_args,ii) in opstr_dict.items():
+			for (indx,f,_),(J,f,f_args,ii) in opstr_dict.items():
 				if _np.abs(J) > eps:
 					dynamic_list.append((opstr,indx,J,f,f_args,ii))
 
-- 
2.43.0


From 507d445d7add1e5e74e442de66344f72bdf01756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 084/111] fix: hermiticity check ignores how often a term is
 listed

---
 quspin/basis/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index 9134c98..2619bff 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -2,6 +2,7 @@ from __future__ import print_function
 import numpy as _np
 import scipy.sparse as _sp
 import warnings,numba
+from collections import Counter
 
 @numba.njit
 def _coo_dot(v_in,v_out,row,col,ME):
@@ -479,7 +480,7 @@ class basis(object):
 		static_list,dynamic_list = self._get_local_lists(static,dynamic)
 		static_expand,static_expand_hc,dynamic_expand,dynamic_expand_hc = self._get_hc_local_lists(static_list,dynamic_list)
 		# calculate non-hermitian elements
-		diff = set( tuple(static_expand) ) - set( tuple(static_expand_hc) )
+		diff = Counter(static_expand) - Counter(static_expand_hc)
 
 		if diff:
 			unique_opstrs = list(set( next(iter(zip(*tuple(diff))))) )
@@ -501,7 +502,7 @@ class basis(object):
 
 
 		# calculate non-hermitian elements
-		diff = set( tuple(dynamic_expand) ) - set( tuple(dynamic_expand_hc) )
+		diff = Counter(dynamic_expand) - Counter(dynamic_expand_hc)
 		if diff:
 			unique_opstrs = list(set( next(iter(zip(*tuple(diff))))) )
 			warnings.warn("The following dynamic operator strings contain non-hermitian couplings: {}".format(unique_opstrs),UserWarning,stacklevel=3)
-- 
2.43.0


From 662028fb0c14224158476d26e4d7285fe77ec6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 085/111] fix: sublattice inversion (zA/cA, zB/cB blocks) of 1d
 chains with an even number of sites inverted the other sublattice

---
 quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx | 4 ++--
 quspin/basis/basis_1d/boson.py                                | 4 ++--
 quspin/basis/basis_1d/spin.py                                 | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
index e3b377a..d91cc2b 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
@@ -137,7 +137,7 @@ cdef basis_type flip_sublat_A(basis_type s, int length,NP_INT8_t * sign,basis_ty
 
     for i in range(length):
 
-        if i%2==0: # flip site occupation
+        if (length-1-i)%2==0: # flip occupation of even sites (site j is stored in digit length-1-j)
             v += ( sps - s%sps -1 ) * M[i]
         else: # shift state by 0 sites
             v += ( s%sps ) * M[i]
@@ -179,7 +179,7 @@ cdef basis_type flip_sublat_B(basis_type s, int length,NP_INT8_t * sign,basis_ty
 
     for i in range(length):
         
-        if i%2==1: # flip site occupation
+        if (length-1-i)%2==1: # flip occupation of odd sites (site j is stored in digit length-1-j)
             v += (sps - s%sps -1 ) * M[i]
         else: # shift state by 0 sites
             v += ( s%sps ) * M[i]
diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 33ed90c..8a0c33d 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -204,8 +204,8 @@ class boson_basis_1d(basis_1d):
 
 		if self._sps <= 2:
 			Imax = (1<<L)-1
-			stag_A = sum(1<<i for i in range(0,L,2))
-			stag_B = sum(1<<i for i in range(1,L,2))
+			stag_A = sum(1<<(L-1-i) for i in range(0,L,2)) # site i is stored in bit L-1-i
+			stag_B = sum(1<<(L-1-i) for i in range(1,L,2))
 			pars = [0,L,Imax,stag_A,stag_B] # set sign to not be calculated
 			self._operators = ("availible operators for boson_basis_1d:"+
 								"\n\tI: identity "+
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index c6a8fb2..7480e72 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -209,8 +209,8 @@ class spin_basis_1d(basis_1d):
 				raise ValueError("Invalid value for optional argument pauli. Allowed values are the integers [-1,0,1].")
 
 			Imax = (1<<L)-1
-			stag_A = sum(1<<i for i in range(0,L,2))
-			stag_B = sum(1<<i for i in range(1,L,2))
+			stag_A = sum(1<<(L-1-i) for i in range(0,L,2)) # site i is stored in bit L-1-i
+			stag_B = sum(1<<(L-1-i) for i in range(1,L,2))
 			pars = [0,L,Imax,stag_A,stag_B]
 			self._operators = ("availible operators for spin_basis_1d:"+
 								"\n\tI: identity "+
-- 
2.43.0


From c458c93304e6d952699cebea22b5cd2cd4c596ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 086/111] fix: operator 'z' of the general boson basis falls
 through to 'n' and gives the product of both

---
 .../basis_general/_basis_general_core/source/boson_basis_core.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h b/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
index af83059..e9de55f 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
@@ -137,6 +137,7 @@ class boson_basis_core : public general_basis_core<I,P>
 				switch(op){
 					case 'z':
 						me_diag *= (occ-S);
+						break;
 					case 'n':
 						me_diag *= occ;
 						break;
-- 
2.43.0


From 78199986d05a7f7b62b6af6b64c1377e2805f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 087/111] fix: fermion signs of 1d chains that fill a whole 32-
 or 64-bit word: bits are counted with a shift by -1

---
 quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h b/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
index b70ee4a..00e0052 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
@@ -5,7 +5,7 @@
 
 
 int bitcount_32_C(npy_uint32 i,int l) {
-	i = i & ((0x7FFFFFFF) >> (31 - l));
+	if(l < 32){ i = i & ((((npy_uint32)1) << l) - 1); }
 	#if defined(__GNUC__) || defined(__GNUG__)
 		return __builtin_popcount(i);
 	#else
@@ -16,7 +16,7 @@ int bitcount_32_C(npy_uint32 i,int l) {
 }
 
 int bitcount_64_C(npy_uint64 i, int l) {
-	i = i & ((0x7FFFFFFFFFFFFFFF) >> (63 - l));
+	if(l < 64){ i = i & ((((npy_uint64)1) << l) - 1); }
 	#if defined(__GNUC__) || defined(__GNUG__)
 		return __builtin_popcountll(i);
 	#else
-- 
2.43.0


From 23124abf02943a0c4b41645bc744ac9fca6d8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 088/111] fix: translation by a full period shifts by the width
 of the word when the chain fills it

---
 .../basis/basis_1d/_basis_1d_core/sources/hcp_bitops.pyx | 9 +++++++--
 .../basis/basis_1d/_basis_1d_core/sources/spf_bitops.pyx | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/hcp_bitops.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/hcp_bitops.pyx
index d9a7bb1..58a56d4 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/hcp_bitops.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/hcp_bitops.pyx
@@ -21,8 +21,13 @@ cdef inline basis_type shift(basis_type I,int shift,int period,NP_INT8_t * sign,
     # it is used when constructing the momentum states
     cdef int l = (shift+period)%period
     cdef int N1,N2,i
-    cdef basis_type I1 = (I >> (period - l))
-    cdef basis_type I2 = ((I << l) & pars[2])
+    cdef basis_type I1,I2
+
+    if l == 0:
+        return I
+
+    I1 = (I >> (period - l))
+    I2 = ((I << l) & pars[2])
 
     N1 = bit_count(I1,period)
     N2 = bit_count(I2,period)
diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/spf_bitops.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/spf_bitops.pyx
index b279bf6..e8904fa 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/spf_bitops.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/spf_bitops.pyx
@@ -20,8 +20,13 @@ cdef basis_type shift_single(basis_type I,int shift,int period,NP_INT8_t * sign,
     # it is used when constructing the momentum states
     cdef int l = (shift+period)%period
     cdef int N1,N2,i
-    cdef basis_type I1 = (I >> (period - l))
-    cdef basis_type I2 = ((I << l) & ones)
+    cdef basis_type I1,I2
+
+    if l == 0:
+        return I
+
+    I1 = (I >> (period - l))
+    I2 = ((I << l) & ones)
 
     N1 = bit_count(I1,period)
     N2 = bit_count(I2,period)
-- 
2.43.0


From f70379eecd2048cee1eb7571994d22752491928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 089/111] fix: parity-times-spin-inversion sector (psblock) of
 spinful fermion chains drops the exchange sign of the representative

---
 quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
index f3bf8cd..736fd6a 100755
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
@@ -53,6 +53,7 @@ cdef basis_type RefState_PZ_template(basis_type s,int L, NP_INT8_t * sign, int *
     t = fliplr(s,L,&current_sign,bitop_pars)
     t = flip_all(t,L,&current_sign,bitop_pars)
     if t > s:
+        sign[0] = current_sign
         R[0] = 1
         return t
 
-- 
2.43.0


From 0edc667dbddc284b717b6a85632b2bef5b079cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 090/111] fix: particle count of general bases that fill a
 whole word, and the width of the 8192-bit word

---
 .../basis_general/_basis_general_core/source/bits_info.h      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
index 6c85af4..eb1d552 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
@@ -39,7 +39,7 @@ struct bit_info<uint16384_t>
 
 template<>
 struct bit_info<uint8192_t>
-{ enum {ld_bits=13,bits=4096,bytes=1024};
+{ enum {ld_bits=13,bits=8192,bytes=1024};
   typedef int bit_index_type;
 };
 
@@ -118,7 +118,7 @@ typename bit_info<T>::bit_index_type bit_pos(T x, typename bit_info<T>::bit_inde
 
 template<class T>
 int inline bit_count(T v,int l){
-  v = v & (((~(T)0) >> 1) >> (bit_info<T>::bits - 1 - l));
+  if(l < bit_info<T>::bits){ v = v & (((~(T)0) >> 1) >> (bit_info<T>::bits - 1 - l)); }
   v = v - ((v >> 1) & (T)~(T)0/3);                           // temp
   v = (v & (T)~(T)0/15*3) + ((v >> 2) & (T)~(T)0/15*3);      // temp
   v = (v + (v >> 4)) & (T)~(T)0/255*15;                      // temp
-- 
2.43.0


From 3443a9be0cb5d24ad1f40ca0c5e1bcafa661423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:42 +0000
Subject: [PATCH 091/111] fix: normalisations of 1d projectors overflow 8-bit
 temporaries

---
 quspin/basis/basis_1d/base_1d.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index 86792a4..38301f3 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -811,7 +811,7 @@ class basis_1d(lattice_basis):
 		pzblock = self._blocks_1d.get("pzblock")
 
 		if (type(kblock) is int) and (type(pblock) is int) and (type(zblock) is int):
-			c = _np.empty(self._M.shape,dtype=_np.int8)
+			c = _np.empty(self._M.shape,dtype=_np.int32)
 			nn = array(c)
 			mm = array(c)
 			sign = array(c)
@@ -858,7 +858,7 @@ class basis_1d(lattice_basis):
 			norm[mask] *= (1.0 + zblock*_np.cos(self._k*nn[mask]))	
 			del mask
 		elif (type(kblock) is int) and (type(zAblock) is int) and (type(zBblock) is int):
-			c = _np.empty(self._M.shape,dtype=_np.int8)
+			c = _np.empty(self._M.shape,dtype=_np.int32)
 			mm = array(c)
 			_np.floor_divide(self._M,(self._L+1),c)
 			_np.mod(self._M,self._L+1,mm)
@@ -881,7 +881,7 @@ class basis_1d(lattice_basis):
 			try:
 				m = self._M.astype(_np.min_scalar_type(-1*(self._M.max()+1)))
 			except ValueError:
-				m = self._M.astype(_np.int8)
+				m = self._M.astype(_np.int32)
 			_np.mod(m,self._L+1,out=m)
 			m -= 1
 			mask = (m >= 0)
@@ -900,7 +900,7 @@ class basis_1d(lattice_basis):
 				norm = _np.full(self._basis.shape,(self._L/a)**2,dtype=dtype)
 			norm *= _np.sign(self._N)
 			norm /= self._N
-			m = self._M.astype(_np.int8)
+			m = self._M.astype(_np.int32)
 			_np.mod(m,self._L+1,out=m)
 			m -= 1
 			mask = (m >= 0)
@@ -918,7 +918,7 @@ class basis_1d(lattice_basis):
 			norm = _np.full(self._basis.shape,2*(self._L/a)**2,dtype=dtype)
 			norm /= self._N
 			
-			m = self._M.astype(_np.int8)
+			m = self._M.astype(_np.int32)
 			_np.mod(m,self._L+1,out=m)
 			m -= 1
 			mask = (m >= 0)
@@ -934,7 +934,7 @@ class basis_1d(lattice_basis):
 			norm = _np.full(self._basis.shape,2*(self._L/a)**2,dtype=dtype)
 			norm /= self._N
 			mask = (self._M > 0)
-			m = _np.empty(self._M.shape,dtype=_np.int8)
+			m = _np.empty(self._M.shape,dtype=_np.int32)
 			_np.subtract(self._M,1,out=m)
 			norm[mask] *= (1.0 + zAblock*_np.cos(self._k*m[mask]))
 			del mask
@@ -942,7 +942,7 @@ class basis_1d(lattice_basis):
 			norm = _np.full(self._basis.shape,2*(self._L/a)**2,dtype=dtype)
 			norm /= self._N
 			mask = (self._M > 0)
-			m = _np.empty(self._M.shape,dtype=_np.int8)
+			m = _np.empty(self._M.shape,dtype=_np.int32)
 			_np.subtract(self._M,1,out=m)
 			norm[mask] *= (1.0 + zBblock*_np.cos(self._k*m[mask]))
 			del mask
-- 
2.43.0


From 40debdb7ee5fc7651b8f6c13fdf553ab45704ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:42 +0000
Subject: [PATCH 092/111] fix: projector norms of translation-and-parity
 sectors with a unit cell of several sites

---
 quspin/basis/basis_1d/base_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index 38301f3..ce7ab50 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -872,7 +872,7 @@ class basis_1d(lattice_basis):
 			norm[mask] *= (1.0 + zblock*_np.cos(self._k*mm[mask]))	
 			del mask
 		elif (type(kblock) is int) and (type(pblock) is int):
-			if 2*kblock == self._L or kblock == 0:
+			if (2*kblock*a) % self._L == 0:
 				norm = _np.full(self._basis.shape,2*(self._L/a)**2,dtype=dtype)
 			else:
 				norm = _np.full(self._basis.shape,(self._L/a)**2,dtype=dtype)
-- 
2.43.0


From cb241acd1534e2b8f324a7b268b863a0d96eeff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:42 +0000
Subject: [PATCH 093/111] fix: integer-spin states invariant under both
 sublattice flips are dropped from kblock-zAblock-zBblock sectors

---
 .../_basis_1d_core/sources/basis_templates.pyx         | 10 +++++++++-
 .../basis_1d/_basis_1d_core/sources/op_templates.pyx   |  8 ++++++--
 quspin/basis/basis_1d/base_1d.py                       |  2 ++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
index a637204..39501ef 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
@@ -457,7 +457,15 @@ cdef npy_intp make_t_zA_zB_basis_template(ns_type next_state, basis_type[:] ns_p
                     N[Ns] = r            
                     basis[Ns] = s
                     Ns += 1
-        
+
+            # both sublattice flips leave the state invariant (integer spin only), and therefore so does their product
+            if mzA != -1 and mzB != -1:
+                if 1 + zAblock*cos(k*mzA) != 0 and 1 + zBblock*cos(k*mzB) != 0:
+                    m[Ns] = 5*(L+1)
+                    N[Ns] = r
+                    basis[Ns] = s
+                    Ns += 1
+
         s = next_state(s,ns_pars)
         MAX -= 1
 
diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
index 492f77e..9909083 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
@@ -952,7 +952,9 @@ cdef double complex MatrixElement_T_ZA_ZB(int L,int zAblock,int zBblock, int kbl
     elif cr == 3:
         nr = (1.0 + zBblock*cos(k*mmr) )/Nr
     elif cr == 4:
-        nr = (1.0 + zAblock*zBblock*cos(k*mmr) )/Nr    
+        nr = (1.0 + zAblock*zBblock*cos(k*mmr) )/Nr
+    elif cr == 5:
+        nr = 4.0/Nr
     
 
     if cc == 1:
@@ -962,7 +964,9 @@ cdef double complex MatrixElement_T_ZA_ZB(int L,int zAblock,int zBblock, int kbl
     elif cc == 3:
         nc = (1.0 + zBblock*cos(k*mmc) )/Nc
     elif cc == 4:
-        nc = (1.0 + zAblock*zBblock*cos(k*mmc) )/Nc    
+        nc = (1.0 + zAblock*zBblock*cos(k*mmc) )/Nc
+    elif cc == 5:
+        nc = 4.0/Nc
     
 
     ME=sqrt(nc/nr)*(zAblock**gA)*(zBblock**gB)
diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index ce7ab50..4e6a70c 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -870,6 +870,8 @@ class basis_1d(lattice_basis):
 			norm[mask] *= (1.0 + zBblock*_np.cos(self._k*mm[mask]))	
 			_np.equal(c,4,out=mask)
 			norm[mask] *= (1.0 + zblock*_np.cos(self._k*mm[mask]))	
+			_np.equal(c,5,out=mask)
+			norm[mask] *= 4.0
 			del mask
 		elif (type(kblock) is int) and (type(pblock) is int):
 			if (2*kblock*a) % self._L == 0:
-- 
2.43.0


From f1c29f99472c94550f2855bb11e988a6836023e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:41 +0000
Subject: [PATCH 094/111] fix: Op_shift_sector drops the symmetry phase when an
 operator maps a state into its own orbit

---
 .../_basis_general_core/source/general_basis_op.h            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index 71a530e..d133999 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1169,8 +1169,9 @@ int general_op_shift_sectors(general_basis_core<I1,P> *B_out,
 
             if(local_err == 0){
                 P sign = 1;
+                const bool not_diag = (r != s);
 
-                if(r != s){ // off-diagonal matrix element
+                if(not_diag){ // off-diagonal matrix element
                     for(int k=0;k<nt;k++){g[k]=0;}
                     r = B_out->ref_state(r,g,sign);
                 }
@@ -1179,7 +1180,7 @@ int general_op_shift_sectors(general_basis_core<I1,P> *B_out,
 
                 if(j>=0){ // ref_state is a representative
 
-                    if(r != s){
+                    if(not_diag){
                         double q = 0;
                         for(int k=0;k<nt;k++){
                             q += kk[k]*g[k];                              
-- 
2.43.0


From 8710f806d3ac822491940370a53f1d02b5cc698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:41 +0000
Subject: [PATCH 095/111] fix: Op_bra_ket uses stale group elements, keeps
 forbidden states and drops imaginary parts silently

---
 .../source/general_basis_op.h                 | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index d133999..d834b6c 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1257,6 +1257,7 @@ int general_op_bra_ket(general_basis_core<I,P> *B,
                 P sign = 1;
 
                 if(r != s){ // off-diagonal matrix element
+                    for(int k=0;k<nt;k++){g[k]=0;}
                     r = B->ref_state(r,g,sign);
                     // use check_state to determine if state is a representative (same routine as in make-general_basis)
                     double norm_r = B->check_state(r);
@@ -1286,7 +1287,10 @@ int general_op_bra_ket(general_basis_core<I,P> *B,
                     bra[i] = s;
                 }
                 
-                
+                if(local_err){
+                    #pragma omp critical
+                    err = local_err;
+                }
             }
             else{
                 #pragma omp critical
@@ -1342,6 +1346,7 @@ int general_op_bra_ket_pcon(general_basis_core<I,P> *B,
 
 
                 if(r != s){ // off-diagonal matrix element
+                    for(int k=0;k<nt;k++){g[k]=0;}
                     r = B->ref_state(r,g,sign);
 
                     bool pcon_bool = B->check_pcon(r,Np_set_local);
@@ -1350,8 +1355,9 @@ int general_op_bra_ket_pcon(general_basis_core<I,P> *B,
 
                         // use check_state to determine if state is a representative (same routine as in make-general_basis)
                         double norm_r = B->check_state(r);
+                        npy_intp int_norm = norm_r;
 
-                        if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+                        if(!check_nan(norm_r) && int_norm > 0){ // ref_state is a representative
 
                             for(int k=0;k<nt;k++){
                                 double q = (2.0*M_PI*B->qs[k]*g[k])/B->pers[k];
@@ -1380,18 +1386,16 @@ int general_op_bra_ket_pcon(general_basis_core<I,P> *B,
                 }
                 else{ // diagonal matrix element
 
-                    for(int k=0;k<nt;k++){
-                        double q = (2.0*M_PI*B->qs[k]*g[k])/B->pers[k];
-                        m *= std::exp(std::complex<double>(0,-q));
-                    }
-
                     m *= sign;
 
                     local_err = check_imag(m,&M[i]); // assigns value to M[i]
                     bra[i] = s;
                 }
                 
-                
+                if(local_err){
+                    #pragma omp critical
+                    err = local_err;
+                }
             }
             else{
                 #pragma omp critical
-- 
2.43.0


From add9c18cf0b98440e4d2b16362365b3cd3dfa93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:41 +0000
Subject: [PATCH 096/111] fix: project_to of general bases corrupts memory for
 several symmetries with pcon and misses the conjugation

---
 .../_basis_general_core/source/general_basis_get_vec.h        | 4 ++--
 quspin/basis/basis_general/base_general.py                    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
index beeb719..854ebd0 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
@@ -295,11 +295,11 @@ bool project_to_rep_basis(general_basis_core<I,P> *B,
 	}
 	int per = B->pers[depth];
 	double q = (2.0*M_PI*B->qs[depth])/per;
-	std::complex<double> cc = std::exp(std::complex<double>(0,-q));
+	std::complex<double> cc = std::exp(std::complex<double>(0,q));
 
 	if(depth < nt-1){
 		for(int j=0;j<per && err;j++){
-			err = project_from_rep_basis(B,s,phase,nt,n_vec,basis,Ns,in,c,out,depth+1);
+			err = project_to_rep_basis(B,s,phase,nt,n_vec,basis,Ns,in,c,out,depth+1);
 			c *= cc;
 			s = B->map_state(s,depth,phase);
 		}
diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index f607436..9a7f979 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -562,7 +562,7 @@ class basis_general(lattice_basis):
 
 		if sparse:
 			# current work-around for sparse
-			return self.get_proj(v0.dtype,pcon=pcon).T.dot(_sp.csr_matrix(v0))
+			return self.get_proj(v0.dtype,pcon=pcon).T.conj().dot(_sp.csr_matrix(v0))
 		else:
 			v_out = _np.zeros(shape,dtype=v0.dtype,)
 			self._core.project_to_dense(self._basis,self._n,v0,v_out,basis_pcon=basis_pcon)
-- 
2.43.0


From 5559481a3278292dce29a3caf1d7cd8b8b813ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:41 +0000
Subject: [PATCH 097/111] fix: get_amp divides rounding noise by a vanishing
 norm for states outside the sector

---
 .../_basis_general_core/source/general_basis_get_amp.h      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
index 2fedc52..91b7ed1 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
@@ -86,10 +86,11 @@ int get_amp_general(general_basis_core<I,P> *B,
 
 				I r = B->ref_state(ss,g,sign);
 				double norm_r = B->check_state(r);
+				npy_intp int_norm = norm_r;
 
 				s[i] = r; // update state with representative
 
-				if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+				if(!check_nan(norm_r) && int_norm > 0){ // ref_state is a representative
 
 					phase_factor = get_amp_rep(B,nt,r,ss);
 					out_tmp = phase_factor/std::sqrt(norm_r * per_factor);
@@ -123,10 +124,11 @@ int get_amp_general(general_basis_core<I,P> *B,
 
 				I r = B->ref_state(ss,g,sign);
 				double norm_r = B->check_state(r);
+				npy_intp int_norm = norm_r;
 
 				s[i] = r; // update state with representative
 
-				if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+				if(!check_nan(norm_r) && int_norm > 0){ // ref_state is a representative
 
 					//phase_factor = get_amp_rep(B,nt,r,ss);
 					out_tmp = std::sqrt(norm_r/per_factor);
-- 
2.43.0


From 2a7828652cbe38bc298db5be204f0ddb38447315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:21 +0000
Subject: [PATCH 098/111] fix: accept real matrix elements whose symmetry
 phases carry rounding errors

The imaginary part of a matrix element was compared with 1.1e-15 whatever its
modulus, so that a real dtype was refused in real momentum sectors as soon as the
coupling is large or the phase 2*pi*q*g/period is many half turns away.
---
 .../basis_general/_basis_general_core/source/misc.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/misc.h b/quspin/basis/basis_general/_basis_general_core/source/misc.h
index 7d6818a..3907742 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/misc.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/misc.h
@@ -101,6 +101,11 @@ inline std::complex<double> mul(T a,std::complex<double> z){
 
 
 
+// rounding of the symmetry phases scales with the modulus of the matrix element
+bool inline has_imag(const std::complex<double> m){
+	return std::abs(m.imag())>1.1e-13*std::max(1.0,std::abs(m.real()));
+}
+
 template<class T>
 int inline check_imag(const std::complex<double> m){
 	return 0;
@@ -108,12 +113,12 @@ int inline check_imag(const std::complex<double> m){
 
 template<>
 int inline check_imag<double>(const std::complex<double> m){
-	return (std::abs(m.imag())>1.1e-15 ? 1 : 0);
+	return (has_imag(m) ? 1 : 0);
 }
 
 template<>
 int inline check_imag<float>(const std::complex<double> m){
-	return (std::abs(m.imag())>1.1e-15 ? 1 : 0);
+	return (has_imag(m) ? 1 : 0);
 }
 
 
@@ -130,7 +135,7 @@ int inline check_imag(const std::complex<double> m,std::complex<T> *M){
 template<class T>
 int inline check_imag(const std::complex<double> m,T *M){
 	(*M) = m.real();
-	return (std::abs(m.imag())>1.1e-15 ? 1 : 0);
+	return (has_imag(m) ? 1 : 0);
 }
 
 // template<>
@@ -178,7 +183,7 @@ int inline check_imag(const std::complex<double> m,const std::complex<T> v,std::
 template<class T>
 int inline check_imag(std::complex<double> m,const T v,T *M){
 	(*M) = v*m.real();
-	return (std::abs(m.imag())>1.1e-15 ? 1 : 0);
+	return (has_imag(m) ? 1 : 0);
 
 }
 
-- 
2.43.0


From cf7b79e4900c7d1af8fa7178e750655f8c9a5981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:30 +0000
Subject: [PATCH 099/111] fix: integer types of 1d chain bases were too narrow
 for full fillings and higher spins

---
 .../basis_1d/_basis_1d_core/boson_basis.pyx   | 18 ++++--------
 .../basis_1d/_basis_1d_core/hcp_basis.pyx     | 18 +++---------
 .../basis_1d/_basis_1d_core/spf_basis.pyx     | 28 +++----------------
 3 files changed, 13 insertions(+), 51 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/boson_basis.pyx b/quspin/basis/basis_1d/_basis_1d_core/boson_basis.pyx
index ee40ffc..ebfd42c 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/boson_basis.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/boson_basis.pyx
@@ -47,19 +47,11 @@ def H_dim(N,length,m_max):
 
 def get_basis_type(L, Np, sps, **blocks):
     # calculates the datatype which will fit the largest representative state in basis
-    if Np is None:
-        # if no particle conservation the largest representative is sps**L
-        dtype = _np.min_scalar_type(int(sps**L-1))
-        return _np.result_type(dtype,_np.uint32)
-    else:
-        # if particles are conservated the largest representative is placing all particles as far left
-        # as possible. 
-        np = max(Np)
-        l=np//(sps-1)
-        s_max = sum((sps-1)*sps**(L-1-i)  for i in range(l))
-        s_max += (np%(sps-1))*sps**(L-l-1)
-        dtype = _np.min_scalar_type(int(s_max))
-        return _np.result_type(dtype,_np.uint32)
+    # operator strings read and write every site and can pass through states outside of the 
+    # particle sector, so the type has to fit any state of the L sites and sps**L itself, 
+    # which is the last of the powers passed to the operators.
+    dtype = _np.min_scalar_type(int(sps**L))
+    return _np.result_type(dtype,_np.uint32)
 
 def get_Ns(L, Np, sps, **blocks):
     # this function esimate the size of the hilbert space 
diff --git a/quspin/basis/basis_1d/_basis_1d_core/hcp_basis.pyx b/quspin/basis/basis_1d/_basis_1d_core/hcp_basis.pyx
index 65a03db..5183892 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/hcp_basis.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/hcp_basis.pyx
@@ -48,20 +48,10 @@ def H_dim(N,length,m_max):
 
 def get_basis_type(L, Np, sps, **blocks):
     # calculates the datatype which will fit the largest representative state in basis
-    if Np is None:
-        # if no particle conservation the largest representative is sps**L
-        dtype = _np.min_scalar_type(int(sps**L-1))
-        return _np.result_type(dtype,_np.uint32)
-    else:
-        # if particles are conservated the largest representative is placing all particles as far left
-        # as possible. 
-        np = max(Np)
-        l=np//(sps-1)
-        s_max = sum((sps-1)*sps**(L-1-i)  for i in range(l))
-        s_max += (np%(sps-1))*sps**(L-l-1)
-        dtype = _np.min_scalar_type(int(s_max))
-        return _np.result_type(dtype,_np.uint32)
-
+    # operator strings read and write every site and can pass through states outside of the 
+    # particle sector, so the type has to fit any state of the L sites.
+    dtype = _np.min_scalar_type(int(sps**L-1))
+    return _np.result_type(dtype,_np.uint32)
 
 def get_Ns(L, Np, sps, **blocks):
     # this function esimate the size of the hilbert space 
diff --git a/quspin/basis/basis_1d/_basis_1d_core/spf_basis.pyx b/quspin/basis/basis_1d/_basis_1d_core/spf_basis.pyx
index 4b7cf80..4a07208 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/spf_basis.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/spf_basis.pyx
@@ -47,30 +47,10 @@ def H_dim(N,length,m_max):
 
 def get_basis_type(L, Np, sps, **blocks):
     # calculates the datatype which will fit the largest representative state in basis
-    if Np is None:
-        # if no particle conservation the largest representative is sps**L
-        dtype = _np.min_scalar_type(int(sps**L-1))
-        return _np.result_type(dtype,_np.uint32)
-    else:
-        # if particles are conservated the largest representative is placing all particles as far left
-        # as possible.
-        Np_left,Np_right = zip(*Np) 
-        np_left = max(Np_left)
-        np_right = max(Np_right)
-
-        l=np_right//(sps-1)
-        s_max_right = sum((sps-1)*sps**(L-1-i)  for i in range(l))
-        s_max_right += int( (np_right%(sps-1))*sps**(L-l-1) ) # if l=L need to convert to int
-
-        l=np_left//(sps-1)
-        s_max_left = sum((sps-1)*sps**(L-1-i)  for i in range(l))
-        s_max_left += int( (np_left%(sps-1))*sps**(L-l-1) ) # if l=L need to convert to int
-
-        s_max = (s_max_left << L) + s_max_right
-
-        dtype = _np.min_scalar_type(int(s_max))
-        return _np.result_type(dtype,_np.uint32)
-
+    # operator strings read and write every site of both species and can pass through states outside
+    # of the particle sector, so the type has to fit any state of the 2*L sites.
+    dtype = _np.min_scalar_type(int(sps**(2*L)-1))
+    return _np.result_type(dtype,_np.uint32)
 
 def get_Ns(L, Np, sps, **blocks):
     # this function esimate the size of the hilbert space 
-- 
2.43.0


From d90bb3ef62c23ab781d7b6242f9d6c81835e59b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:30 +0000
Subject: [PATCH 100/111] fix: integer types of general bases were chosen from
 the filling instead of the number of sites

---
 .../_basis_general_core/general_basis_utils.pyx     | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index 08e465d..1eed295 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -364,16 +364,9 @@ def get_basis_type(N, Np, sps):
         raise ValueError("{} particle(s) will not fit into system size {} with sps={}".format(Np,N,sps))
 
     if sps>2:
-        # calculates the datatype which will fit the largest representative state in basis
-        if Np is None:
-            # if no particle conservation the largest representative is sps**N-1
-            s_max = sps**N-1
-        else:
-            # if particles are conservated the largest representative is placing all particles as far left
-            # as possible. 
-            l=Np//(sps-1)
-            s_max = sum((sps-1)*sps**(N-1-i)  for i in range(l))
-            s_max += (Np%(sps-1))*sps**(N-l-1)
+        # operator strings can pass through states outside of the particle sector so 
+        # the type has to fit the largest state of the full space: sps**N-1
+        s_max = sps**N-1
 
         s_max = int(s_max)
 
-- 
2.43.0


From 6b63ff1f99c3adb21b230c540264768b4e6289f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:30 +0000
Subject: [PATCH 101/111] fix: particle counts of boson and spinful fermion
 chains refused or missing in photon bases

---
 .../_basis_1d_core/sources/boson_basis.pyx    | 32 +++++++++----------
 .../_basis_1d_core/sources/spf_basis.pyx      | 18 +++++------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_basis.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_basis.pyx
index 2600c67..c739373 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_basis.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_basis.pyx
@@ -24,7 +24,7 @@ def basis(int L,basis_type[:] pars, basis_type[:] basis):
     return make_basis_template[basis_type](next_state_inc_1,pars,MAX,s,basis)
 
 # magnetization 
-def n_basis(int L, object Nb_list, basis_type[:] pars, basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_basis(int L, object Nb_list, basis_type[:] pars, basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX,Ns
     cdef npy_intp Ns_tot = 0
@@ -40,7 +40,7 @@ def n_basis(int L, object Nb_list, basis_type[:] pars, basis_type[:] basis,NP_UI
     return Ns_tot
 
 # parity 
-def n_p_basis(int L, object Nb_list, int pblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_p_basis(int L, object Nb_list, int pblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -64,7 +64,7 @@ def p_basis(int L, int pblock, basis_type[:] pars,N_type[:] N, basis_type[:] bas
 
 
 # parity-spin inversion
-def n_p_z_basis(int L, object Nb_list, int pblock, int zblock, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_p_z_basis(int L, object Nb_list, int pblock, int zblock, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -88,7 +88,7 @@ def p_z_basis(int L,  int pblock, int zblock, basis_type[:] pars, N_type[:] N, b
 
 
 # (parity)*(spin inversion)
-def n_pz_basis(int L, object Nb_list, int pzblock, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_pz_basis(int L, object Nb_list, int pzblock, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -112,7 +112,7 @@ def pz_basis(int L,  int pzblock, basis_type[:] pars, N_type[:] N, basis_type[:]
 
 
 # translation
-def n_t_basis(int L, object Nb_list, int kblock,int a, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_basis(int L, object Nb_list, int kblock,int a, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -136,7 +136,7 @@ def t_basis(int L,  int kblock,int a, basis_type[:] pars, N_type[:] N, basis_typ
 
 
 # translation-parity
-def n_t_p_basis(int L, object Nb_list,int pblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_p_basis(int L, object Nb_list,int pblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -162,7 +162,7 @@ def t_p_basis(int L, int pblock,int kblock,int a, basis_type[:] pars,N_type[:] N
 
 
 # translation-parity-spin inversion
-def n_t_p_z_basis(int L, object Nb_list,int pblock,int zblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M2_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_p_z_basis(int L, object Nb_list,int pblock,int zblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M2_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -188,7 +188,7 @@ def t_p_z_basis(int L, int pblock,int zblock,int kblock,int a, basis_type[:] par
 
 
 # translation-(parity)*(spin inversion)
-def n_t_pz_basis(int L, object Nb_list,int pzblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_pz_basis(int L, object Nb_list,int pzblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -212,7 +212,7 @@ def t_pz_basis(int L, int pzblock,int kblock,int a, basis_type[:] pars,N_type[:]
 
 
 # translation-spin inversion
-def n_t_z_basis(int L, object Nb_list,int zblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_z_basis(int L, object Nb_list,int zblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -236,7 +236,7 @@ def t_z_basis(int L, int zblock,int kblock,int a, basis_type[:] pars,N_type[:] N
 
 
 # spin inversion
-def n_z_basis(int L,object Nb_list, int zblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_z_basis(int L,object Nb_list, int zblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -262,7 +262,7 @@ def z_basis(int L, int zblock, basis_type[:] pars,N_type[:] N,basis_type[:] basi
 
 
 # translation-spin inversion A
-def n_t_zA_basis(int L, object Nb_list,int zAblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_zA_basis(int L, object Nb_list,int zAblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
  
 
@@ -275,7 +275,7 @@ def t_zA_basis(int L, int zAblock,int kblock,int a, basis_type[:] pars,N_type[:]
 
 
 # translation-spin inversion B
-def n_t_zB_basis(int L, object Nb_list,int zBblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_zB_basis(int L, object Nb_list,int zBblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
     
 
@@ -289,7 +289,7 @@ def t_zB_basis(int L, int zBblock,int kblock,int a, basis_type[:] pars,N_type[:]
 
 
 # translation-spin inversion A-spin inversion B
-def n_t_zA_zB_basis(int L, object Nb_list,int zAblock,int zBblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M2_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_zA_zB_basis(int L, object Nb_list,int zAblock,int zBblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M2_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
 
 
@@ -301,7 +301,7 @@ def t_zA_zB_basis(int L, int zAblock,int zBblock,int kblock,int a, basis_type[:]
 
 
 # spin inversion A
-def n_zA_basis(int L, object Nb_list, int zAblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_zA_basis(int L, object Nb_list, int zAblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
 
 
@@ -315,7 +315,7 @@ def zA_basis(int L, int zAblock, basis_type[:] pars,N_type[:] N,basis_type[:] ba
 
 
 # spin inversion B
-def n_zB_basis(int L, object Nb_list, int zBblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_zB_basis(int L, object Nb_list, int zBblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
  
     
@@ -329,7 +329,7 @@ def zB_basis(int L, int zBblock, basis_type[:] pars,N_type[:] N,basis_type[:] ba
 
 
 # spin inversion A-spin inversion B
-def n_zA_zB_basis(int L, object Nb_list, int zAblock, int zBblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_zA_zB_basis(int L, object Nb_list, int zAblock, int zBblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
     
 
diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/spf_basis.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/spf_basis.pyx
index ee5d18c..cea66e4 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/spf_basis.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/spf_basis.pyx
@@ -62,7 +62,7 @@ def n_p_basis(int L, object Nf_list,int pblock,basis_type[:] pars,N_type[:] N,ba
         Ns = make_p_basis_template[basis_type,N_type](next_state_pcon_spf,pars,MAX,s,L,pblock,&N[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left+N_right
             
         Ns_tot += Ns
 
@@ -89,7 +89,7 @@ def n_p_z_basis(int L, object Nf_list, int pblock, int zblock,basis_type[:] pars
         Ns = make_p_z_basis_template[basis_type,N_type](next_state_pcon_spf,pars,MAX,s,L,pblock,zblock,&N[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left+N_right
             
         Ns_tot += Ns
 
@@ -116,7 +116,7 @@ def n_pz_basis(int L, object Nf_list, int pzblock,basis_type[:] pars, N_type[:]
         Ns = make_pz_basis_template[basis_type,N_type](next_state_pcon_spf,pars,MAX,s,L,pzblock,&N[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left+N_right
             
         Ns_tot += Ns
 
@@ -143,7 +143,7 @@ def n_t_basis(int L, object Nf_list, int kblock,int a,basis_type[:] pars, N_type
         Ns =  make_t_basis_template[basis_type,N_type](next_state_pcon_spf,pars,MAX,s,L,kblock,a,&N[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left+N_right
             
         Ns_tot += Ns
 
@@ -170,7 +170,7 @@ def n_t_p_basis(int L, object Nf_list,int pblock,int kblock,int a,basis_type[:]
         Ns = make_t_p_basis_template[basis_type,N_type,M1_type](next_state_pcon_spf,pars,MAX,s,L,pblock,kblock,a,&N[Ns_tot],&M[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left+N_right
             
         Ns_tot += Ns
 
@@ -199,7 +199,7 @@ def n_t_p_z_basis(int L, object Nf_list,int pblock,int zblock,int kblock,int a,b
         Ns = make_t_p_z_basis_template[basis_type,N_type,M2_type](next_state_pcon_spf,pars,MAX,s,L,pblock,zblock,kblock,a,&N[Ns_tot],&M[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left+N_right
             
         Ns_tot += Ns
 
@@ -228,7 +228,7 @@ def n_t_pz_basis(int L, object Nf_list,int pzblock,int kblock,int a,basis_type[:
         Ns = make_t_pz_basis_template[basis_type,N_type,M1_type](next_state_pcon_spf,pars,MAX,s,L,pzblock,kblock,a,&N[Ns_tot],&M[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left+N_right
             
         Ns_tot += Ns
 
@@ -255,7 +255,7 @@ def n_t_z_basis(int L, object Nf_list,int zblock,int kblock,int a,basis_type[:]
         Ns = make_t_z_basis_template[basis_type,N_type,M1_type](next_state_pcon_spf,pars,MAX,s,L,zblock,kblock,a,&N[Ns_tot],&M[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left+N_right
             
         Ns_tot += Ns
 
@@ -282,7 +282,7 @@ def n_z_basis(int L, object Nf_list, int zblock, basis_type[:] pars,N_type[:] N,
         Ns = make_z_basis_template[basis_type,N_type](next_state_pcon_spf,pars,MAX,s,L,zblock,&N[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left+N_right
             
         Ns_tot += Ns
 
-- 
2.43.0


From 7038d79c234b6b9a36fa011308b2cd26b6bb62a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:30 +0000
Subject: [PATCH 102/111] fix: lists of particle sectors in general bases were
 dropped, left unsorted or refused

---
 quspin/basis/basis_general/base_higher_spin.py | 7 ++++---
 quspin/basis/basis_general/boson.py            | 3 ++-
 quspin/basis/basis_general/fermion.py          | 7 ++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/quspin/basis/basis_general/base_higher_spin.py b/quspin/basis/basis_general/base_higher_spin.py
index f2ae598..ac5956a 100644
--- a/quspin/basis/basis_general/base_higher_spin.py
+++ b/quspin/basis/basis_general/base_higher_spin.py
@@ -42,11 +42,12 @@ class higher_spin_basis_general(basis_general):
 				Np_iter = iter(Nup)
 			except TypeError:
 				raise TypeError("Nup must be integer or iteratable object.")
+			Nup = list(Np_iter)
 			self._Ns = 0
-			for Nup in Np_iter:
-				self._Ns += H_dim(Nup,N,sps-1)
+			for n in Nup:
+				self._Ns += H_dim(n,N,sps-1)
 
-			self._basis_dtype = get_basis_type(N,max(iter(Nup)),sps)
+			self._basis_dtype = get_basis_type(N,max(Nup),sps)
 
 		if len(self._pers)>0:
 			if Ns_block_est is None:
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index 7115682..18f9d41 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -198,8 +198,9 @@ class boson_basis_general(hcb_basis_general,basis_general):
 				except TypeError:
 					raise TypeError("Nb must be integer or iteratable object.")
 
+				Nb = list(Np_iter)
 				if self._sps is None:
-					self._sps = max(list(Nb))+1				
+					self._sps = max(Nb)+1				
 
 				self._Ns = 0
 				for b in Nb:
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index ff8935c..2eed187 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -127,11 +127,12 @@ class spinless_fermion_basis_general(basis_general):
 				Np_iter = iter(Nf)
 			except TypeError:
 				raise TypeError("Nf must be integer or iterable object.")
+			Nf = list(Np_iter)
 			self._Ns = 0
-			for Nf in Np_iter:
-				if Nf > N or Nf < 0:
+			for n in Nf:
+				if n > N or n < 0:
 					raise ValueError("particle number Nf must satisfy: 0 <= Nf <= N")
-				self._Ns += comb(N,Nf,exact=True)
+				self._Ns += comb(N,n,exact=True)
 
 		self._pcon_args = dict(N=N,Nf=Nf)
 
-- 
2.43.0


From ed8caa6f1e4bceb12b634cadec3124156a7101eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:31 +0000
Subject: [PATCH 103/111] fix: photon bases with fixed total missed lattice
 states or asked for more particles than fit

---
 quspin/basis/basis_1d/boson.py                 |  2 +-
 quspin/basis/basis_1d/fermion.py               | 17 ++++-------------
 quspin/basis/basis_1d/spin.py                  |  2 +-
 quspin/basis/basis_general/base_higher_spin.py |  4 ++--
 quspin/basis/basis_general/boson.py            |  4 ++--
 quspin/basis/basis_general/fermion.py          | 15 +++------------
 6 files changed, 13 insertions(+), 31 deletions(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 8a0c33d..c9572aa 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -135,7 +135,7 @@ class boson_basis_1d(basis_1d):
 			else:
 				count_particles = True
 				_Np = min((self._sps-1)*L,_Np)
-				Nb_list = list(range(_Np))
+				Nb_list = list(range(_Np+1))
 
 		if Nb_list is None:
 			self._Np = None			
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 2175377..d3308ec 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -104,7 +104,7 @@ class spinless_fermion_basis_1d(basis_1d):
 			else:
 				count_particles = True
 				_Np = min(L,_Np)
-				Nf_list = list(range(_Np))
+				Nf_list = list(range(_Np+1))
 
 		if Nf_list is None:
 			self._Np = None			
@@ -251,20 +251,11 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 			if type(_Np) is not int:
 				raise ValueError("_Np must be integer")
 			if _Np >= -1:
-				if _Np+1 > L: 
-					Nf =  []
-					for n in range(L+1):
-						Nf.extend((n-i,i)for i in range(n+1))
-
-					Nf = tuple(Nf)
-				elif _Np==-1:
+				if _Np==-1:
 					Nf = None
 				else:
-					Nf=[]
-					for n in range(_Np+1):
-						Nf.extend((n-i,i)for i in range(n+1))
-
-					Nf = tuple(Nf)
+					# all sectors with at most _Np fermions, at most one of each kind per site
+					Nf = [(i,j) for i in range(L+1) for j in range(L+1) if i+j <= _Np]
 			else:
 				raise ValueError("_Np == -1 for no particle conservation, _Np >= 0 for particle conservation")
 
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index 7480e72..c626479 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -142,7 +142,7 @@ class spin_basis_1d(basis_1d):
 				Nup_list = None
 			else:
 				count_particles = True
-				if _Np+1 > L: _Np = L
+				_Np = min((self._sps-1)*L,_Np)
 				Nup_list = list(range(_Np+1))
 			
 			
diff --git a/quspin/basis/basis_general/base_higher_spin.py b/quspin/basis/basis_general/base_higher_spin.py
index ac5956a..65e18b4 100644
--- a/quspin/basis/basis_general/base_higher_spin.py
+++ b/quspin/basis/basis_general/base_higher_spin.py
@@ -17,8 +17,8 @@ class higher_spin_basis_general(basis_general):
 			if type(_Np) is not int:
 				raise ValueError("_Np must be integer")
 			if _Np >= -1:
-				if _Np+1 > N: 
-					Nup = list(range(N+1))
+				if _Np+1 > N*(sps-1): 
+					Nup = list(range(N*(sps-1)+1))
 				elif _Np==-1:
 					Nup = None
 				else:
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index 18f9d41..6812ed6 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -173,8 +173,8 @@ class boson_basis_general(hcb_basis_general,basis_general):
 				if type(_Np) is not int:
 					raise ValueError("_Np must be integer")
 				if _Np >= -1:
-					if _Np+1 > N: 
-						Nb = list(range(N+1))
+					if _Np+1 > N*(sps-1): 
+						Nb = list(range(N*(sps-1)+1))
 					elif _Np==-1:
 						Nb = None
 					else:
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 2eed187..973277b 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -392,20 +392,11 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 			if type(_Np) is not int:
 				raise ValueError("_Np must be integer")
 			if _Np >= -1:
-				if _Np+1 > N: 
-					Nf =  []
-					for n in range(N+1):
-						Nf.extend((n-i,i)for i in range(n+1))
-
-					Nf = tuple(Nf)
-				elif _Np==-1:
+				if _Np==-1:
 					Nf = None
 				else:
-					Nf=[]
-					for n in range(_Np+1):
-						Nf.extend((n-i,i)for i in range(n+1))
-
-					Nf = tuple(Nf)
+					# all sectors with at most _Np fermions, at most one of each kind per site
+					Nf = [(i,j) for i in range(N+1) for j in range(N+1) if i+j <= _Np]
 			else:
 				raise ValueError("_Np == -1 for no particle conservation, _Np >= 0 for particle conservation")
 
-- 
2.43.0


From e2ff82e03808535d468b7456776a86959eb7be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:31 +0000
Subject: [PATCH 104/111] fix: photon numbers overflowed 8-bit integers

---
 quspin/basis/photon.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 932090d..95222e0 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -166,9 +166,7 @@ class photon_basis(tensor_basis):
 			if isinstance(self._basis_left,tensor_basis): raise TypeError("Can only create photon basis with non-tensor type basis")
 			if not isinstance(self._basis_left,basis): raise TypeError("Can only create photon basis with basis type")
 			self._basis_right = ho_basis(Ntot)
-			self._n = self._basis_left._Np_list
-			self._n -= Ntot 
-			self._n *= -1
+			self._n = Ntot - self._basis_left._Np_list.astype(_np.intp)
 			self._blocks = self._basis_left._blocks
 			self._Ns = self._basis_left._Ns
 			self._unique_me = self._basis_left._unique_me
-- 
2.43.0


From 6cbec8c9d40ef9c72b498b6f91034a0e861c5958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:31 +0000
Subject: [PATCH 105/111] fix: densities of particles were truncated instead of
 rounded to particle numbers

---
 quspin/basis/basis_1d/boson.py        | 4 ++--
 quspin/basis/basis_1d/fermion.py      | 4 ++--
 quspin/basis/basis_1d/spin.py         | 2 +-
 quspin/basis/basis_general/boson.py   | 4 ++--
 quspin/basis/basis_general/fermion.py | 4 ++--
 quspin/basis/basis_general/spin.py    | 2 +-
 6 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index c9572aa..7fb55b5 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -97,7 +97,7 @@ class boson_basis_1d(basis_1d):
 			elif nb is not None:
 				if Nb is not None:
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
-				Nb = int(nb*L)
+				Nb = int(_np.round(nb*L,8))
 			else:
 				raise ValueError("expecting value for 'Nb','nb' or 'sps'")
 		else:
@@ -105,7 +105,7 @@ class boson_basis_1d(basis_1d):
 				if nb is not None:
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
 			elif nb is not None:
-				Nb = int(nb*L)
+				Nb = int(_np.round(nb*L,8))
 
 		self._sps = sps
 
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index d3308ec..c24e08b 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -77,7 +77,7 @@ class spinless_fermion_basis_1d(basis_1d):
 		elif Nf is None and nf is not None:
 			if nf < 0 or nf > 1:
 				raise ValueError("nf must be between 0 and 1")
-			Nf = int(nf*L)
+			Nf = int(_np.round(nf*L,8))
 
 		if Nf is None:
 			Nf_list = None
@@ -240,7 +240,7 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 		if Nf is not None and nf is not None:
 			raise ValueError("cannot use 'nf' and 'Nf' simultaineously.")
 		if Nf is None and nf is not None:
-			Nf = [(int(nf[0]*L),int(nf[1]*L))]
+			Nf = [(int(_np.round(nf[0]*L,8)),int(_np.round(nf[1]*L,8)))]
 
 		self._sps = 2
 
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index c626479..f3e5686 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -108,7 +108,7 @@ class spin_basis_1d(basis_1d):
 			if m < -S or m > S:
 				raise ValueError("N must be between -S and S")
 
-			Nup = int((m+S)*L)
+			Nup = int(_np.round((m+S)*L,8))
 
 		try:
 			Nup_iter = iter(Nup)
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index 6812ed6..0e1de1e 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -124,7 +124,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 				if Nb is not None:
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
 
-				Nb = int(nb*N)
+				Nb = int(_np.round(nb*N,8))
 			else:
 				raise ValueError("expecting value for 'Nb','nb' or 'sps'")
 
@@ -138,7 +138,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
 
 			elif nb is not None:
-				Nb = int(nb*N)
+				Nb = int(_np.round(nb*N,8))
 
 		self._sps = sps
 		self._allowed_ops=set(["I","z","n","+","-"])
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 973277b..beaf2d6 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -97,7 +97,7 @@ class spinless_fermion_basis_general(basis_general):
 		if Nf is not None and nf is not None:
 			raise ValueError("cannot use 'nf' and 'Nf' simultaineously.")
 		if Nf is None and nf is not None:
-			Nf = int(nf*N)
+			Nf = int(_np.round(nf*N,8))
 
 		basis_general.__init__(self,N,block_order=block_order,**blocks)
 		self._check_pcon = False
@@ -365,7 +365,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		if Nf is not None and nf is not None:
 			raise ValueError("cannot use 'nf' and 'Nf' simultaineously.")
 		if Nf is None and nf is not None:
-			Nf = (int(nf[0]*N),int(nf[1]*N))
+			Nf = (int(_np.round(nf[0]*N,8)),int(_np.round(nf[1]*N,8)))
 
 		if any((type(map) is not tuple) and (len(map)!=2) for map in blocks.values() if map is not None):
 			raise ValueError("blocks must contain tuple: (map,q).")
diff --git a/quspin/basis/basis_general/spin.py b/quspin/basis/basis_general/spin.py
index cf0c60d..1c56563 100644
--- a/quspin/basis/basis_general/spin.py
+++ b/quspin/basis/basis_general/spin.py
@@ -132,7 +132,7 @@ class spin_basis_general(hcb_basis_general,higher_spin_basis_general):
 			if m < -S or m > S:
 				raise ValueError("m must be between -S and S")
 
-			Nup = int((m+S)*N)
+			Nup = int(_np.round((m+S)*N,8))
 
 		try:
 			Nup_iter = iter(Nup)
-- 
2.43.0


From bb9ee00c0bd423d7c0bf491c4d0efd25dc75e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:31 +0000
Subject: [PATCH 106/111] fix: states wider than 64 bits were sorted by their
 bytes when several particle sectors are joined

---
 quspin/basis/basis_general/base_general.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index 9a7f979..d2b5894 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -772,7 +772,11 @@ class basis_general(lattice_basis):
 			sort_basis = True
 
 		if sort_basis:
-			ind = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
+			if basis.dtype.kind == "V": # numpy would compare the bytes of the wide integers
+				keys = [basis_int_to_python_int(s) for s in basis[:Ns]]
+				ind = _np.array(sorted(range(Ns),key=keys.__getitem__,reverse=True),dtype=_np.intp)
+			else:
+				ind = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
 			self._basis = basis[ind].copy()
 			self._n = n[ind].copy()
 			if Np_list is not None: self._Np_list = Np_list[ind].copy()
-- 
2.43.0


From 80bacaed7650c8dea226c977b3462c9bfd4e3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:31 +0000
Subject: [PATCH 107/111] fix: index of spinful fermion general bases failed
 for more than 32 sites

---
 quspin/basis/basis_general/fermion.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index beaf2d6..0f7caf1 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -1,6 +1,7 @@
 from ._basis_general_core import spinful_fermion_basis_core_wrap
 from ._basis_general_core import spinless_fermion_basis_core_wrap
 from ._basis_general_core import get_basis_type,basis_zeros
+from ._basis_general_core.general_basis_utils import _get_basis_index
 from .base_general import basis_general,_check_symm_map
 from ..base import MAXPRINT,_non_zero_opstr
 import numpy as _np
@@ -675,12 +676,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 
 		s = down_state + (up_state << (self.N//2) ) # self.N here counts 2N sites 
 
-		indx = _np.argwhere(self._basis == s)
-
-		if len(indx) != 0:
-			return _np.squeeze(indx)
-		else:
-			raise ValueError("state must be representive state in basis.")
+		return _get_basis_index(self._basis,s)
 
 	def int_to_state(self,*args):
 		""" Not Implemented."""
-- 
2.43.0


From 4bc817701ac067ce10884c3f841400255438d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:31 +0000
Subject: [PATCH 108/111] fix: photon numbers given as text were searched
 alphabetically and out-of-range ones accepted

---
 quspin/basis/photon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 95222e0..1096dbb 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -936,7 +936,11 @@ class ho_basis(basis):
 		return self._basis.__getitem__(key)
 
 	def index(self,s):
-		return _np.searchsorted(self._basis,s)
+		s = int(s)
+		if s < 0 or s > self._Np:
+			raise ValueError("s must be the number of photons of a state in the basis.")
+
+		return s
 
 	def __iter__(self):
 		return self._basis.__iter__()
-- 
2.43.0


From 23981ce22c177abfcabc6b595d1402526b611381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:31 +0000
Subject: [PATCH 109/111] fix: index of photon bases ignored a fixed total and
 spinful fermion states

---
 quspin/basis/photon.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 1096dbb..113d646 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -220,6 +220,39 @@ class photon_basis(tensor_basis):
 		"""int: number of sites on lattice."""
 		return self._basis_left.N
 
+	def index(self,*states):
+		"""Finds the index of user-defined Fock state in photon basis.
+
+		Notes
+		-----
+		Particularly useful for defining initial Fock states through a unit vector in the direction specified
+		by `index()`. 
+
+		Parameters
+		-----------
+		states : list(str)
+			List of strings which define the Fock state of the lattice `basis` (as in its own `index()`), followed
+			by the number of photons.
+
+		Returns
+		--------
+		int
+			Position of the Fock state in the `photon_basis`.
+
+		"""
+		if len(states) < 2:
+			raise ValueError("states must be list of atleast 2 elements long")
+		s_left = self._basis_left.index(*states[:-1])
+		s_right = self._basis_right.index(states[-1])
+
+		if not self._check_pcon:
+			return s_right + self._basis_right.Ns*s_left
+
+		if self._n[s_left] != s_right:
+			raise ValueError("state does not have the total number of particles of the basis.")
+
+		return s_left
+
 	def Op(self,opstr,indx,J,dtype):
 		"""Constructs operator from a site-coupling list and anoperator string in the photon basis.
 
-- 
2.43.0


From 0e9e8fbc86580149ee6b85c405796159950d3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:31 +0000
Subject: [PATCH 110/111] fix: index of general bases hung for negative states
 and truncated states that do not fit

---
 .../_basis_general_core/general_basis_utils.pyx              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index 1eed295..5babddf 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -177,7 +177,7 @@ cdef search_array(state_type * ptr,npy_intp n, object value):
 
     for i in range(n):
         if(ptr[i]==val):
-            return i
+            return i if basis_to_python[state_type](ptr+i) == value else -1 # value may not fit
 
     return -1
 
@@ -188,6 +188,9 @@ def _get_basis_index(_np.ndarray basis,object val):
     cdef npy_intp j = 0
     cdef npy_intp i = -1
 
+    if value < 0:
+        raise ValueError("s must be representive state in basis. ")
+
     if basis.dtype == uint32:
         i = search_array[uint32_t](<uint32_t*>ptr,n,value)
     elif basis.dtype == uint64:
-- 
2.43.0


From 91f8188fefde05be92b44e2b3625db3baaa1b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:31 +0000
Subject: [PATCH 111/111] fix: index of chain bases refused text with digits
 beyond nine

---
 quspin/basis/basis_1d/base_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index 4e6a70c..5b38fa4 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -546,10 +546,10 @@ class basis_1d(lattice_basis):
 		return int(self._basis[self.index(state)])
 
 	def _index(self,s):
-		if int(s)==s:
-			pass
-		elif type(s) is str:
+		if type(s) is str:
 			s = int(s,self.sps)
+		elif int(s)==s:
+			pass
 		else:
 			raise ValueError("s must be integer or string")
 
-- 
2.43.0

